"""Shared helpers of the checks."""
import os, re
import irlib
from irlib import AnalysisError

_P = {}


def prog(*dirs):
    k = tuple(dirs)
    if k not in _P:
        _P[k] = irlib.Program(irlib.sources(*dirs))
    return _P[k]


def rel(path):
    return os.path.relpath(path, irlib.REPO)


def where(F, I=None):
    """file:line of an instruction (macro expansions keep the user's line)"""
    f = rel(F.module)
    if I is not None and I.file and os.path.basename(f) != I.file:
        f = os.path.join(os.path.dirname(f), I.file)
    return '%s:%d' % (f, I.line if I is not None else (F.line or 0))


def public_api(P):
    """functions of the documented C interface, from the prototype header"""
    out = []
    p = os.path.join(irlib.REPO, 'src/prototypes/xrtm_interface_p.h')
    if not os.path.exists(p):
        raise AnalysisError('anchor vanished: ' + p)
    t = open(p).read()
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    for m in re.finditer(r'\b(\w+)\s*\(', t):
        F = P.get(m.group(1))
        if F is not None and m.group(1).startswith('xrtm_') and F not in out:
            out.append(F)
    if len(out) < 80:
        raise AnalysisError('public interface: only %d functions found' % len(out))
    return out


def is_ext(P, F, I, name):
    return I.op in ('call', 'invoke') and I.x['callee'] == '@' + name and P.resolve(F, I.x['callee']) is None


def callee_name(I):
    c = I.x['callee']
    return c[1:].strip('"') if isinstance(c, str) and c.startswith('@') else None


def str_arg(P, F, v):
    """constant string pointed to by v, or None"""
    if isinstance(v, tuple) and v[0] == 'gepc':
        v = v[2]
    if isinstance(v, str) and v.startswith('@'):
        t = P.global_text(F, v)
        if t:
            return irlib.cstring(t)
    return None


def reachable(P, roots):
    """functions reachable from roots through direct calls and address-taken references"""
    seen = {}
    wl = list(roots)
    for F in wl:
        seen[id(F)] = F
    while wl:
        F = wl.pop()
        for I in F.insts():
            ops = list(I.a)
            if I.op in ('call', 'invoke'):
                ops.append(I.x['callee'])
            for x in ops:
                if isinstance(x, tuple) and x[0] == 'gepc':
                    x = x[2]
                if isinstance(x, str) and x.startswith('@'):
                    for G in refs(P, F, x, set()):
                        if id(G) not in seen:
                            seen[id(G)] = G
                            wl.append(G)
    return list(seen.values())


def refs(P, F, g, seen):
    G = P.resolve(F, g)
    if G is not None:
        return [G]
    if g in seen:
        return []
    seen.add(g)
    t = P.global_text(F, g)
    out = []
    if t:
        for m in re.finditer(r'@[\w.$]+', t):
            if m.group(0) != g:
                out += refs(P, F, m.group(0), seen)
    return out


def fd_api(P):
    out = []
    p = os.path.join(irlib.REPO, 'src/prototypes/xrtm_fd_interface_p.h')
    if not os.path.exists(p):
        raise AnalysisError('anchor vanished: ' + p)
    for m in re.finditer(r'\b(xrtm_fd_\w+)\s*\(', open(p).read()):
        F = P.get(m.group(1))
        if F is not None and F not in out:
            out.append(F)
    return out
