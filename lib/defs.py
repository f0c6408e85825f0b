"""The interface description files (interfaces/*.def): documented arguments of every function."""
import os, re, shlex
import irlib
from irlib import AnalysisError


class Arg(object):
    __slots__ = ('type', 'rank', 'dims', 'name', 'io', 'conv', 'usage')


class Sub(object):
    __slots__ = ('kind', 'rtype', 'name', 'full', 'errval', 'rconv', 'args', 'line')

    def __repr__(self):
        return '%s(%s)' % (self.full, ', '.join(a.name for a in self.args))


def load(which='xrtm'):
    p = os.path.join(irlib.REPO, 'interfaces', '%s_interface.def' % which)
    if not os.path.exists(p):
        raise AnalysisError('anchor vanished: ' + p)
    t = open(p).read()
    t = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.S)
    out = []
    pos = 0
    for stmt in t.split(';'):
        line = t.count('\n', 0, pos + len(stmt) - len(stmt.lstrip())) + 1
        pos += len(stmt) + 1
        s = stmt.strip()
        if not s.startswith('subprogram_'):
            continue
        parts = split_commas(s)
        h = shlex.split(parts[0])
        S = Sub()
        S.kind = h[0][len('subprogram_'):]
        i = 1
        if h[i] in ('enum', 'struct'):
            S.rtype = h[i] + ' ' + h[i + 1]
            i += 2
        else:
            S.rtype = h[i]
            i += 1
        i += 1                      # rank of the result
        S.name = h[i]
        S.full = which + '_' + S.name
        S.errval = h[i + 1] if len(h) > i + 1 else None
        S.rconv = h[i + 2:]
        S.line = line
        S.args = []
        for q in parts[1:]:
            w = shlex.split(q)
            if not w:
                continue
            A = Arg()
            i = 0
            if w[i] in ('enum', 'struct'):
                A.type = w[i] + ' ' + w[i + 1]
                i += 2
            else:
                A.type = w[i]
                i += 1
            A.rank = int(w[i])
            i += 1
            A.dims = w[i:i + A.rank]
            i += A.rank
            A.name = w[i]
            A.io = w[i + 1] if len(w) > i + 1 else 'in'
            A.conv = w[i + 2:]
            S.args.append(A)
        out.append(S)
    if len(out) < 20:
        raise AnalysisError('interface description: %d subprograms' % len(out))
    return out


def split_commas(s):
    out, cur, q, d = [], '', False, 0
    for c in s:
        if c == '"':
            q = not q
        if not q and c in '([':
            d += 1
        if not q and c in ')]':
            d -= 1
        if c == ',' and not q and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out
