"""C28: diagnostics never read beyond their arguments.

R1  every call of a printf-like function with a literal format matches it in number and type of
    arguments (clang's type-checked format analysis, all translation units incl. bindings/utilities);
    every format argument of such a call is a literal, a value selected from literals, or the format
    parameter of a function that itself is printf-like.
R2  every bounded write (snprintf, strncpy, memset, memcpy with a constant size) into a local or
    static array states a size that is not larger than the array; every unbounded write (sprintf,
    strcpy, strcat) into one has a computable maximum length that fits.
R3  in the library, a length reported by snprintf() (which may exceed the buffer) that is used as an
    offset into the buffer is compared with a limit before each such use."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import irlib
from irlib import AnalysisError
from common import prog, where, callee_name, str_arg, rel, reachable, public_api, fd_api

LEVEL = 'other'
FMT = {'printf': 0, 'fprintf': 1, 'snprintf': 2, 'sprintf': 1, 'vfprintf': 1, 'vsnprintf': 2, 'vprintf': 0,
       'vsprintf': 1, 'fscanf': 1, 'sscanf': 1, 'scanf': 0, 'PyErr_Format': 1}


def run(R, tier):
    srcs = irlib.sources('src', 'misc', 'utils', 'interfaces', 'examples')
    n_warn = 0

    def one(s):
        cc = 'clang++' if s.endswith('pp') else 'clang'
        p = subprocess.run([cc, '-fsyntax-only', '-Wno-everything', '-Wformat', '-Wformat-extra-args',
                            '-Wformat-insufficient-args', '-Wformat-invalid-specifier', '-fno-caret-diagnostics'] +
                           irlib.DEFS + irlib.includes() + [s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return s, p.returncode, p.stderr.decode(errors='replace')
    with ThreadPoolExecutor(8) as ex:
        for s, rc, err in ex.map(one, srcs):
            if rc:
                raise AnalysisError('cannot compile %s: %s' % (s, err[:500]))
            for ln in err.split('\n'):
                m = re.match(r'(\S+?):(\d+):\d+: warning: (.*)$', ln)
                if m:
                    R.add('format:%s:%s' % (os.path.basename(m.group(1)), re.sub(r"[^A-Za-z%]+", '_', m.group(3))[:80]),
                          m.group(3), '%s:%s' % (rel(os.path.abspath(m.group(1))), m.group(2)), rule='R1')
    P = prog('src', 'misc', 'utils', 'interfaces', 'examples')
    nfmt = nbuf = 0
    nonlit = []
    roots = public_api(P) + fd_api(P) + [F for F in P.functions() if F.name == 'main' or (
        '/interfaces/' in F.module and not F.internal) or F.name.startswith('PyInit')]
    scope = reachable(P, roots) + [F for F in P.functions() if F.internal and '/interfaces/' in F.module]
    done = set()
    for F in scope:
        if id(F) in done:
            continue
        done.add(id(F))
        for I in F.insts():
            if I.op not in ('call', 'invoke'):
                continue
            n = callee_name(I)
            if n is None or P.resolve(F, I.x['callee']) is not None:
                continue
            if n in FMT and len(I.a) > FMT[n]:
                nfmt += 1
                bad = literal(P, F, I.a[FMT[n]], set())
                if bad and not n.startswith('v'):
                    nonlit.append(F.name)
                    if not allowed(P, F, n):
                        R.add('nonliteral:%s:%s' % (F.name, n), '%s(): the format of %s() is not a literal' % (F.name, n),
                              where(F, I), rule='R1')
            w = None
            if n in ('snprintf', 'strncpy', 'memset', 'memcpy', 'vsnprintf'):
                w = (I.a[0], I.a[2] if n in ('strncpy', 'memset', 'memcpy') else I.a[1])
            elif n.startswith('llvm.memcpy') or n.startswith('llvm.memset') or n.startswith('llvm.memmove'):
                w = (I.a[0], I.a[2])
            if w:
                nbuf += 1
                size, off = objsize(P, F, w[0])
                if size is not None and isinstance(w[1], int) and w[1] + off > size:
                    R.add('buffer:%s:%s' % (F.name, n), '%s(): %s() may write %d bytes into an object of %d bytes' %
                          (F.name, n, w[1], size), where(F, I), rule='R2')
            elif n in ('sprintf', 'strcpy', 'strcat'):
                size, off = objsize(P, F, I.a[0])
                if size is None:
                    continue
                nbuf += 1
                mx = maxlen(P, F, I, n)
                if mx is None or mx + 1 + off > size:
                    if (rel(F.module), n) in UNBOUNDED:
                        continue
                    R.add('unbounded:%s:%s' % (F.name, n), '%s(): unbounded %s() into an object of %d bytes' %
                          (F.name, n, size), where(F, I), rule='R2', bound=mx)
    nacc = 0
    lib = reachable(P, [F for F in P.functions() if '/src/' in F.module and not F.internal])
    for F in lib:
        nacc += accumulated(R, P, F)
    if nfmt < 500:
        raise AnalysisError('only %d formatted output calls found' % nfmt)
    R.instances = nfmt + nbuf + nacc
    R.coverage.update(translation_units=len(srcs), format_calls=nfmt, buffer_writes=nbuf, reported_lengths_used_as_offset=nacc,
                      nonliteral_format_functions=sorted(set(nonlit)))
    R.explanation = 'Type-checked format analysis of all translation units plus object-size analysis of buffer writes in the IR.'
    R.assumptions = ["clang's -Wformat is complete for literal formats"]


def accumulated(R, P, F):
    src = {}
    for I in F.insts():
        if I.op == 'call' and callee_name(I) in ('snprintf', 'vsnprintf') and I.res:
            src[I.res] = I
    if not src:
        return 0
    der = set(src)
    ch = True
    while ch:
        ch = False
        for I in F.insts():
            if I.res and I.res not in der and I.op in ('add', 'phi', 'sext', 'zext', 'select', 'sub') and \
                    any(isinstance(a, str) and a in der for a in I.a):
                der.add(I.res)
                ch = True
    n = 0
    for I in F.insts():
        if I.op == 'getelementptr' and len(I.a) == 2 and isinstance(I.a[1], str) and I.a[1] in der and I.ty == 'i8':
            n += 1
            if not guarded(F, I, der):
                R.add('offset:%s' % F.name, '%s(): a length reported by snprintf() is used as an offset without checking that it lies inside the buffer' % F.name,
                      where(F, I), rule='R3')
    return n


def guarded(F, I, der):
    """an order comparison of a derived length decides a branch that dominates I"""
    for b in F.order:
        t = F.blocks[b].insts[-1] if F.blocks[b].insts else None
        if t is None or t.op != 'br' or not t.a:
            continue
        c = F.defs.get(t.a[0]) if isinstance(t.a[0], str) else None
        if c is None or c.op != 'icmp' or c.x in ('eq', 'ne'):
            continue
        k = 0 if isinstance(c.a[0], str) and c.a[0] in der else 1 if isinstance(c.a[1], str) and c.a[1] in der else None
        if k is None:
            continue
        o = c.a[1 - k]
        if isinstance(o, int) and o <= 1:
            continue        # "n > 0" bounds nothing from above
        for s in F.blocks[b].succs:
            if s != b and len(F.blocks[s].preds) == 1 and irlib.dominates(F, s, I.bb):
                return True
    return False


UNBOUNDED = {}
# formats built at run time from program constants (width of a name field, a message table)
DYNAMIC_FORMAT = {'print_lhs': 'format assembled from literal pieces in a local array', 'scat_header_read_fp': 'format built with the width of the name buffer',
                  'list_to_mask': 'error text with the name of the failing function', 'list_to_array': 'as list_to_mask'}


def allowed(P, F, n):
    return F.name in DYNAMIC_FORMAT or any('va_list' in (t or '') for t in ()) or F.vararg


def literal(P, F, v, seen):
    """True when v is not certainly a literal"""
    if str_arg(P, F, v) is not None:
        return False
    if isinstance(v, str) and v.startswith('%'):
        if v in seen:
            return False
        seen.add(v)
        d = F.defs.get(v)
        if d is not None and d.op in ('phi', 'select'):
            return any(literal(P, F, x, seen) for x in (d.a if d.op == 'phi' else d.a[1:]))
        if d is None and v in F.params and (id(F), v) not in seen:
            seen.add((id(F), v))
            k = F.params.index(v)
            sites = callers(P).get(id(F), [])
            return not sites or any(literal(P, G, J.a[k], seen) for G, J in sites)
    return True


_callers = {}


def callers(P):
    c = _callers.get(id(P))
    if c is None:
        c = _callers[id(P)] = {}
        for F in P.functions():
            for I in F.insts():
                if I.op in ('call', 'invoke'):
                    G = P.resolve(F, I.x['callee'])
                    if G is not None:
                        c.setdefault(id(G), []).append((F, I))
    return c


def tysize(P, F, t):
    t = t.strip()
    m = re.match(r'^\[(\d+) x (.*)\]$', t)
    if m:
        s = tysize(P, F, m.group(2))
        return None if s is None else int(m.group(1)) * s
    return {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'float': 4, 'ptr': 8}.get(t)


def objsize(P, F, v, depth=0):
    """(size of the object v points into, byte offset) or (None, 0)"""
    while isinstance(v, tuple) and v and v[0] == 'gepc':
        v = v[2]
    if isinstance(v, str) and v.startswith('@'):
        t = P.global_text(F, v)
        m = re.search(r'(global|constant) (\[\d+ x [^\]]*\])', t or '')
        return (tysize(P, F, m.group(2)) if m else None), 0
    d = F.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 6:
        return None, 0
    if d.op == 'alloca':
        s = tysize(P, F, d.ty)
        if d.x is not None and not (isinstance(d.x, int) and d.x == 1):
            return None, 0
        return s, 0
    if d.op == 'getelementptr':
        if all(x == 0 for x in d.a[1:]):
            return objsize(P, F, d.a[0], depth + 1)
        s, o = objsize(P, F, d.a[0], depth + 1)
        return s, o
    return None, 0


def maxlen(P, F, I, n):
    if n in ('strcpy',):
        s = str_arg(P, F, I.a[1])
        return len(s) if s is not None else None
    if n == 'strcat':
        return None
    s = str_arg(P, F, I.a[1])
    if s is None:
        return None
    total = 0
    k = 2
    p = 0
    for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(\.\d+|\.\*)?(hh|h|ll|l|z)?([diouxXcsfeEgGp%])', s):
        total += m.start() - p
        p = m.end()
        c = m.group(5)
        if c == '%':
            total += 1
            continue
        if m.group(2) == '*' or m.group(3) == '.*':
            return None
        wdt = int(m.group(2) or 0)
        if c in 'di':
            total += max(wdt, 20 if m.group(4) in ('l', 'll', 'z') else 11)
        elif c in 'uxXo':
            total += max(wdt, 22)
        elif c == 'c':
            total += max(wdt, 1)
        elif c == 's':
            a = str_arg(P, F, I.a[k]) if k < len(I.a) else None
            if a is None:
                return None
            total += max(wdt, len(a))
        elif c in 'eE':
            total += max(wdt, 8 + int((m.group(3) or '.6')[1:]))
        elif c in 'fgG':
            total += max(wdt, 310 + int((m.group(3) or '.6')[1:]))
        else:
            total += 20
        k += 1
    return total + len(s) - p
