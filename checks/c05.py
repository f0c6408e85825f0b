"""C05: indexes and counts from the caller are validated before use.

For every public function (C and finite difference interface) the loads and stores it
performs in arrays of the instance and in constant tables are expressed over its
parameters (helpers expanded).  Each index that depends on a caller's integer must be
proven, from the branch facts that hold at the access, to lie within the dimension with
which xrtm_create()/xrtm_fd_create() allocate the array (or the size of the table).
Loops over other quantities must not run past a dimension that is allocated smaller.
Values the caller supplies that are later used as an index or a count (output levels,
numbers of coefficients) must be proven within range where they are stored.
"""
import os
import re
import irlib, sym, lin
from common import prog, public_api, fd_api, where, rel, callee_name
from irlib import AnalysisError
from lin import Prover, canon, tolin
from sym import show, show_addr

LEVEL = 'other'
BIG = 1500


def make(P):
    api = public_api(P) + fd_api(P)
    mods = {F.module for F in api}
    mods |= {m for m in P.modules if os.path.basename(m) in ('xrtm_support.c', 'xrtm_support.cpp')}
    size = {}

    def inline(G):
        if id(G) not in size:
            size[id(G)] = sum(1 for _ in G.insts())
        return G.module in mods
    return api, mods, sym.Sym(P, inline)


def field_of(a):
    """(root expression, 'struct.field') if a is the address of a member reached from a parameter"""
    if a[0] == 'fld':
        return (a[2], a[3])
    return None


def unwind(addr):
    """address -> (struct, field, [indexes]) for element accesses of member arrays"""
    idx = []
    a = addr
    while a[0] == 'el':
        idx.append(a[2])
        b = a[1]
        if b[0] == 'ld':
            a = b[1]
        elif b[0] == 'fld':
            # array member
            return None
        elif b[0] == 'g':
            return ('g', b[1], idx[::-1])
        else:
            return None
    if a[0] == 'fld' and idx:
        return (a[2], a[3], idx[::-1])
    return None


def dimensions(P, S):
    """{(struct, field): [list of dimension lists]} from the constructors"""
    dims = {}
    for nm in ('xrtm_create', 'xrtm_fd_create'):
        F = P.need(nm)
        for A in S.accesses(F):
            if A.kind != 'store' or A.addr[0] != 'fld':
                continue
            v = A.val
            if v[0] != 'call':
                continue
            m = re.match(r'^j?alloc_array(\d)', v[1])
            k = (A.addr[2], A.addr[3])
            if m:
                n = int(m.group(1))
                args = list(v[2])
                if v[1][0] == 'j':
                    args = args[1:]
                d = [canon(x) for x in args[:n]]
            elif v[1] == 'flags_alloc2':
                d = [canon(x) for x in v[2][:2]]
            elif v[1] in ('malloc', 'calloc'):
                continue
            else:
                continue
            dims.setdefault(k, [])
            if d not in dims[k]:
                dims[k].append(d)
    return dims


def invariants(P):
    """(nonneg, upper) for the prover: counts of the instance and lookups of numbers of parameters"""
    X = '%struct.xrtm_data'
    mk = max_kernel_params(P)

    def is_ncl(a):
        return a[0] == 'ld' and a[1][0] == 'el' and a[1][1] == ('ld', ('F', X, 'n_coef_layer'))

    def nonneg(a):
        if a[0] == 'ld' and a[1][0] == 'F':
            return a[1][2].startswith('n_')
        if a[0] == 'call':
            return a[1] == 'kernel_n_params'
        return is_ncl(a)

    def upper(a):
        if is_ncl(a):
            return [(0, ((('ld', ('F', X, 'n_coef')), 1),))]
        if a[0] == 'call' and a[1] == 'kernel_n_params':
            return [(mk, ())]
        return []
    return nonneg, upper


def max_kernel_params(P):
    """largest entry of the table of numbers of kernel parameters"""
    F = P.need('kernel_n_params')
    best = None
    for I in F.insts():
        for x in list(I.a):
            if isinstance(x, str) and x.startswith('@'):
                t = P.global_text(F, x)
                if t:
                    ns = [int(q) for q in re.findall(r'i32 (-?\d+)', t)]
                    if ns:
                        best = max(ns + ([best] if best is not None else []))
    if best is None:
        ns = [I.a[0] for I in F.insts() if I.op == 'ret' and I.a and isinstance(I.a[0], int)]
        for I in F.insts():
            if I.op == 'phi':
                ns += [x for x in I.a if isinstance(x, int)]
        if not ns:
            return 4
        best = max(ns)
    return best


def global_size(P, F, g):
    t = P.global_text(F, g)
    if not t:
        return None
    m = re.match(r'^\s*(?:@\S+\s*=\s*)?.*?\[(\d+) x', t)
    return int(m.group(1)) if m else None


def params_in(e, out):
    """integer parameters of the root used as plain values in e (not the memory behind them)"""
    if not isinstance(e, tuple) or not e:
        return out
    if e[0] == 'p' and len(e) == 2:
        out.add(e[1])
        return out
    if e[0] in ('ld',):
        return out
    for x in e:
        if isinstance(x, tuple):
            params_in(x, out)
    return out


def from_caller(e, ptrs):
    """value read from an array of the caller"""
    if not isinstance(e, tuple) or not e:
        return False
    if e[0] == 'ld':
        a = e[1]
        while a[0] in ('el', 'ld'):
            a = a[1]
        if a[0] == 'p' and a[1] in ptrs:
            return True
        return any(from_caller(x, ptrs) for x in e[1:])
    return any(from_caller(x, ptrs) for x in e if isinstance(x, tuple))


def run(R, tier):
    P = prog('src', 'misc')
    api, mods, S = make(P)
    dims = dimensions(P, S)
    if len(dims) < 100:
        raise AnalysisError('only %d array sizes found in the constructors' % len(dims))
    inv = invariants(P)
    st = dict(functions=0, accesses=0, index_obligations=0, proved=0, loop_obligations=0, loop_unknown=0, value_obligations=0)
    skip = ('xrtm_create', 'xrtm_fd_create', 'xrtm_destroy', 'xrtm_fd_destroy', 'xrtm_create2')
    for F in api:
        if F.name in skip:
            continue
        st['functions'] += 1
        ints = {k for k, p in enumerate(F.params) if param_type(F, k) in ('i32', 'i64')}
        ptrs = {k for k, p in enumerate(F.params) if param_type(F, k) == 'ptr'}
        seen = set()
        for A in S.accesses(F):
            if A.kind == 'call':
                continue
            u = unwind(A.addr)
            if u is None:
                continue
            if u[0] == 'g':
                n = global_size(P, A.F, u[1])
                if n is None:
                    continue
                alts = [[('c', n)]]
                X = u[1]
                # [N x T] globals are addressed with a leading zero already removed
            else:
                alts = dims.get((u[0], u[1]))
                X = u[1]
            if not alts:
                continue
            st['accesses'] += 1
            idx = [canon(i) for i in u[2]]
            key = (X, A.kind, str(idx), id(A.I), str(A.facts))
            if key in seen:
                continue
            seen.add(key)
            pr = Prover(A.facts, *inv)
            best = None
            for d in alts:
                bad = []
                if len(idx) > len(d):
                    continue
                for k, i in enumerate(idx):
                    ps = params_in(i, set()) & ints
                    caller = bool(ps) or from_caller(i, ptrs - {0})
                    if caller:
                        li = tolin(i)
                        lo, hi = pr.pos(li, 0), pr.pos(lin.sub(lin.sub(tolin(d[k]), li), (1, ())), 0)
                        if not (lo and hi):
                            bad.append((k, i, d[k], 'below zero' if not lo else 'above the end', True))
                        else:
                            bad.append(None)
                    elif i[0] == 'rng':
                        r = definite(pr, i, d[k])
                        if r is False:
                            bad.append((k, i, d[k], 'above the end', False))
                        elif r is None:
                            st['loop_unknown'] += 1
                        else:
                            st['loop_obligations'] += 1
                n_ob = len(bad)
                bad = [b for b in bad if b]
                if best is None or len(bad) < len(best[0]):
                    best = (bad, n_ob)
            if best is None:
                continue
            bad, n_ob = best
            st['index_obligations'] += n_ob
            st['proved'] += n_ob - len(bad)
            for k, i, dk, how, caller in bad:
                root = sorted(params_in(i, set()) & ints)
                R.add('%s:%s:%d' % (F.name, X, k),
                      '%s() %s %s with index %d = %s, which %s may be %s (allowed: 0 to %s - 1)' %
                      (F.name, 'reads' if A.kind == 'load' else 'writes', show_addr(A.addr), k + 1, show(u[2][k]),
                       'an argument of the call that is not validated' if caller else 'in this loop', how, show_dim(dk)),
                      where(A.F, A.I), call_path=[where(A.F, c) for c in A.path])
        # values that become indexes or counts
        for A in S.accesses(F):
            if A.kind != 'store' or A.addr[0] != 'el' or A.addr[1][0] != 'ld' or A.addr[1][1][0] != 'fld':
                continue
            f = A.addr[1][1]
            lim = VALUE.get(f[3])
            if f[2] != '%struct.xrtm_data' or lim is None:
                continue
            st['value_obligations'] += 1
            pr = Prover(A.facts, *inv)
            v = lin.lin(A.val)
            lo = pr.pos(v, 0)
            hi = pr.pos(lin.sub((0, ((('ld', ('F', '%struct.xrtm_data', lim)), 1),)), v), 0)
            if not (lo and hi):
                R.add('%s:value:%s' % (F.name, f[3]),
                      '%s() stores %s in %s, which is used as %s, without proof that it is %s' %
                      (F.name, show(A.val), show_addr(A.addr), WHAT[f[3]], 'not negative' if not lo else 'at most ' + lim),
                      where(A.F, A.I))
    R.instances = st['index_obligations'] + st['value_obligations']
    if st['index_obligations'] < 100:
        raise AnalysisError('only %d index obligations found' % st['index_obligations'])
    R.coverage = dict(st, sized_arrays=len(dims))
    R.explanation = ('%(functions)d public functions; %(index_obligations)d uses of an index that comes from the caller in arrays of the '
                     'instance or constant tables, each compared with the size given to the allocation in the constructor; %(loop_obligations)d loop '
                     'ranges compared with it (%(loop_unknown)d not comparable); %(value_obligations)d stores of values used as indexes later.' % st)
    R.assumptions = ['sizes of the instance are constant after its creation and satisfy the checks made there',
                     'arrays of the caller have the documented sizes']


VALUE = {'ulevels': 'n_layers', 'n_coef_layer': 'n_coef'}
WHAT = {'ulevels': 'a level index', 'n_coef_layer': 'a number of coefficients'}


def definite(pr, r, d):
    """True: in range, False: certainly runs past the allocated size, None: cannot tell"""
    hi, D = r[2], tolin(d)
    if pr.pos(lin.sub(D, hi), 0):
        return True
    x = lin.sub(hi, D)          # > 0 when it runs past
    if not x[1]:
        return x[0] <= 0
    if len(x[1]) == 2 and x[0] >= -1:
        f = {k: a[1][2] for a, k in x[1] if a[0] == 'ld' and a[1][0] == 'F'}
        if set(f) == {1, -1} and (f[1], f[-1]) in INDEPENDENT:
            return False
    return None


# sizes the user chooses independently of each other
_S = ('n_layers', 'n_derivs', 'n_coef', 'n_kernels', 'n_ulevels', 'n_umus')
INDEPENDENT = {(a, b) for a in _S for b in _S if a != b}


def show_dim(d):
    if d[0] == 'ld' and d[1][0] == 'F':
        return d[1][2]
    if d[0] == 'lin':
        return ' + '.join(['%s%s' % ('' if k == 1 else '%d*' % k, show_dim(x)) for x, k in d[2]] + ([str(d[1])] if d[1] else []))
    if d[0] == 'c':
        return str(d[1])
    return str(d)


def param_type(F, k):
    t = getattr(F, 'ptypes', None)
    if t is not None and k < len(t):
        return t[k]
    return None
