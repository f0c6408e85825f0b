"""C16: every solver, kernel and output is dispatched to its own implementation.

Conditional constant propagation with the requested identifier as a constant gives, for every
identifier, the functions that can run.
solvers  with solver S requested, the implementation of S runs and that of no other solver,
         whatever supported feature is switched on (also in the adjoint mode)
kernels  with all kernels of type k: the evaluation is reached without running into the error
         exit, is not that of another type, reads only what its own preparation wrote, reads
         exactly the parameters 0..n_params(k)-1, sets the derivatives when they are asked for,
         and does not depend on the azimuth unless the type is expanded into a Fourier series;
         type, parameters, amplitude and function of the same kernel position are used together
outputs  with output O requested, exactly the result arrays of O are written, and the functions
         for one output ask for that output and pass its arrays in the right positions
"""
import re, multiprocessing
import irlib
from irlib import AnalysisError
from sccp import Sccp, Arr
from absint import C, bits
from common import prog, rel, where, callee_name, public_api
from checks.c11 import enum

LEVEL = 'other'
# where the implementation of each solver lives
HOME = {
    'DOUB_ADD': ['src/xrtm_doub_rts.c'],
    'EIG_ADD': ['src/xrtm_eig_rts.c', 'src/xrtm_eig_rts_a.c'],
    'EIG_BVP': ['src/xrtm_eig_bvp.c', 'src/xrtm_eig_bvp_a.c'],
    'FOUR_STREAM': ['src/xrtm_four_stream.c'],
    'MEM_BVP': ['src/xrtm_mem_bvp.c'],
    'PADE_ADD': ['src/xrtm_pade_rts.c'],
    'SINGLE': [],
    'SIX_STREAM': ['src/xrtm_six_stream.c'],
    'SOS': ['src/xrtm_sos.c'],
    'TWO_OS': ['src/xrtm_two_os.c'],
    'TWO_STREAM': ['src/xrtm_two_stream.c'],
}
ADDING = ('DOUB_ADD', 'EIG_ADD', 'PADE_ADD')
STREAM = ('TWO_STREAM', 'FOUR_STREAM', 'SIX_STREAM')
REVERSE = ('DOUB_ADD', 'EIG_ADD', 'EIG_BVP', 'MEM_BVP', 'PADE_ADD', 'SINGLE')
# feature: (options on, options off, solvers that support it or None for all)
FEATURES = [
    ('', '', None),
    ('OUTPUT_AT_LEVELS SOURCE_SOLAR', 'OUTPUT_AT_TAUS SOURCE_THERMAL', None),
    ('VECTOR', '', [s for s in HOME if s not in STREAM]),
    ('CALC_DERIVS', '', [s for s in HOME if s not in ('FOUR_STREAM', 'SIX_STREAM')]),
    ('CALC_DERIVS VECTOR', '', [s for s in HOME if s not in STREAM]),
    ('SFI', '', ['EIG_BVP', 'SINGLE', 'TWO_OS'] + list(STREAM)),
    ('TOP_DOWN_ADDING', '', ADDING),
    ('BOTTOM_UP_ADDING', '', ADDING),
    ('CALC_DERIVS STACK_REUSE_ADDING', '', ADDING),
    ('OUTPUT_AT_TAUS', 'OUTPUT_AT_LEVELS', ['EIG_BVP', 'MEM_BVP', 'SINGLE', 'TWO_OS'] + list(STREAM)),
    ('SOURCE_THERMAL', 'SOURCE_SOLAR', ['DOUB_ADD', 'EIG_ADD', 'PADE_ADD', 'EIG_BVP']),
    ('PART_SOL_GREENS', '', None),
    ('DELTA_M N_T_TMS', '', [s for s in HOME if s != 'TWO_OS']),
    ('PSA', '', None),
    ('SAVE_LAYER_R_T_S', '', ADDING),
    ('SAVE_TOTAL_R_T_S', '', ADDING),
    ('NO_AZIMUTHAL', '', [s for s in HOME if s != 'SINGLE']),
]
OUTPUTS = {
    'RADIANCE': ('I_p I_m', 'I_p_l I_m_l'),
    'RADIANCE_MEAN': ('mean_p mean_m', 'mean_p_l mean_m_l'),
    'FLUX': ('flux_p flux_m', 'flux_p_l flux_m_l'),
}
ARRAYS = 'I_p I_m I_p_l I_m_l mean_p mean_m mean_p_l mean_m_l flux_p flux_m flux_p_l flux_m_l flux_div flux_div_l'.split()
SINGLE_OUT = {'xrtm_radiance': 'RADIANCE', 'xrtm_mean_radiance': 'RADIANCE_MEAN', 'xrtm_flux': 'FLUX',
              'xrtm_flux_divergence': 'FLUX_DIVERGENCE'}
DATA = 'struct.xrtm_data'


def contexts(S, X):
    """all contexts reachable from context X"""
    seen, wl = {}, [X]
    while wl:
        x = wl.pop()
        if x is None or id(x) in seen:
            continue
        seen[id(x)] = x
        for I, G, args in S.calls(x):
            if G is not None:
                wl.append(S.ctx(G, args))
    return list(seen.values())


def fieldkey(P):
    """name under which the members of the instance are known to Sccp"""
    for M in P.modules.values():
        for k in M.fields:
            if k.endswith('xrtm_data') and 'options' in M.fields[k]:
                return k
    raise AnalysisError('anchor vanished: struct xrtm_data')


JOB = []


def solver_job(a):
    P, fk, mod = JOB[0]
    root, pos, sname, sval, on, off = a
    F = P.need(root)
    fields = {(fk, 'options'): bits(on, off)} if on or off else {}
    S = Sccp(P, fields)
    args = [None] * len(F.params)
    args[pos] = C(sval)
    cx = contexts(S, S.ctx(F, args))
    hit = {}
    for x in cx:
        for I, G, _ in S.calls(x):
            if G is not None and mod.get(rel(G.module)) and mod.get(rel(x.F.module)) != mod.get(rel(G.module)):
                hit.setdefault(mod[rel(G.module)], (G.name, where(x.F, I)))
    return a, hit, len(cx), sorted({x.F.name for x in cx})


def param(F, name):
    p = '%' + name
    if p in F.params:
        return F.params.index(p)
    raise AnalysisError('anchor vanished: parameter %s of %s()' % (name, F.name))


def solvers(R, P, fk, tier, cov):
    opt = {n[len('XRTM_OPTION_'):]: v & 0xffffffff for n, v in enum(P, 'xrtm_option_mask')}
    sol = {n[len('XRTM_SOLVER_'):]: v for n, v in enum(P, 'xrtm_solver_mask')}
    for s in sol:
        if s not in HOME:
            R.add('solver:%s:home' % s, 'solver %s has no known implementation' % s, 'src/xrtm_interface.h')
    mod = {f: s for s, fs in HOME.items() for f in fs}
    have = {rel(F.module) for F in P.functions()}
    for f in mod:
        if f not in have:
            raise AnalysisError('anchor vanished: ' + f)

    def mask(t):
        m = 0
        for n in t.split():
            if n not in opt:
                raise AnalysisError('anchor vanished: option ' + n)
            m |= opt[n]
        return m
    jobs = []
    F, F2 = P.need('xrtm_solution'), P.need('xrtm_solution_2')
    for s in HOME:
        if s not in sol:
            raise AnalysisError('anchor vanished: solver ' + s)
        for on, off, who in FEATURES:
            if who is None or s in who:
                jobs.append(('xrtm_solution', param(F, 'solver'), s, sol[s], mask(on), mask(off)))
        if s in REVERSE:
            for on in ('', 'VECTOR', 'SFI', 'PART_SOL_GREENS'):
                jobs.append(('xrtm_solution_2', param(F2, 'solver'), s, sol[s], mask('CALC_DERIVS REVERSE_DERIVS ' + on), 0))
    JOB[:] = [(P, fk, mod)]
    names = {v: k for k, v in opt.items()}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for a, hit, n, fns in pool.imap_unordered(solver_job, jobs):
            root, pos, s, v, on, off = a
            cov['solver_configurations'] += 1
            cov['contexts'] += n
            cfg = ', '.join(names[1 << i].lower() for i in range(32) if on >> i & 1 and 1 << i in names) or 'any options'
            for m, (g, w) in sorted(hit.items()):
                if m != s:
                    R.add('solver:%s:%s' % (s, m), 'with solver %s (%s) %s() runs, which belongs to solver %s' % (s.lower(), cfg, g, m.lower()), w, root=root)
            if HOME[s] and s not in hit:
                R.add('solver:%s:none' % s, 'with solver %s (%s) nothing of its implementation runs' % (s.lower(), cfg), root, root=root)
            if s == 'SINGLE' and root == 'xrtm_solution':
                if not any(f in fns for f in ('single_scattered_radiance', 'get_single')) and not any('single' in f for f in fns):
                    R.add('solver:SINGLE:none', 'with solver single (%s) no single scattering calculation runs' % cfg, root)
                if 'get_fourier' in fns:
                    R.add('solver:SINGLE:fourier', 'with solver single (%s) the multiple scattering calculation runs' % cfg, root)


# ---------------------------------------------------------------------------- labels
class Lab(object):
    """which registers of which context point into which labelled object"""

    def __init__(self, S, X, start, more=None):
        self.S = S
        self.more = more or {}
        self.m = {}
        self.cx = {}
        self.calls = {}
        wl = [X]
        self.cx[id(X)] = X
        self.m[id(X)] = {r: {l} for r, l in start.items()}
        self.seed(X)
        while wl:
            x = wl.pop()
            self.prop(x)
            if id(x) not in self.calls:
                self.calls[id(x)] = [(I, G, S.ctx(G, args) if G is not None else None) for I, G, args in S.calls(x)]
            for I, G, y in self.calls[id(x)]:
                if y is None:
                    continue
                new = id(y) not in self.cx
                self.cx[id(y)] = y
                d = self.m.setdefault(id(y), {})
                if new:
                    self.seed(y)
                for p, a in zip(G.params, I.a):
                    ls = self.get(x, a)
                    if ls - d.get(p, set()):
                        d[p] = d.get(p, set()) | ls
                        new = True
                if new:
                    wl.append(y)

    def seed(self, x):
        for r, l in self.more.get(id(x), {}).items():
            self.m[id(x)].setdefault(r, set()).add(l)

    def get(self, x, v):
        if isinstance(v, tuple) and v and v[0] == 'gepc':
            v = v[2]
        return self.m[id(x)].get(v, set()) if isinstance(v, str) else set()

    def prop(self, x):
        d = self.m[id(x)]
        ch = True
        while ch:
            ch = False
            for I in self.insts(x):
                if I.res is None:
                    continue
                if I.op == 'phi':
                    src = [v for v, _ in I.x]
                elif I.op in ('getelementptr', 'bitcast'):
                    src = I.a[:1]
                elif I.op == 'select':
                    src = I.a[1:]
                elif I.op == 'load' and I.ty == 'ptr':
                    src = I.a[:1]
                elif I.op == 'alloca' and 'union' in (I.ty or '') or I.op == 'alloca' and 'struct' in (I.ty or ''):
                    if I.res not in d:
                        d[I.res] = {('obj', x.F.name, I.res)}
                        ch = True
                    continue
                else:
                    continue
                ls = set()
                for v in src:
                    ls |= self.get(x, v)
                if ls - d.get(I.res, set()):
                    d[I.res] = d.get(I.res, set()) | ls
                    ch = True

    def insts(self, x):
        for b in x.F.order:
            if b in x.blocks:
                for I in x.F.blocks[b].insts:
                    yield I


def strip(F, v):
    """position with integer conversions removed"""
    D = {I.res: I for I in F.insts() if I.res}
    while isinstance(v, str) and v in D and D[v].op in ('sext', 'zext', 'trunc'):
        v = D[v].a[0]
    return v


# ---------------------------------------------------------------------------- kernels
ROLE = {'kernels': 'type', 'kernel_ampfac': 'amp', 'kernel_ampfac_l': 'amp_l', 'kernel_params': 'par',
        'kernel_params_l': 'par_l', 'kernel_func': 'func'}
AZIMUTH = ('cos_phi', 'sin_phi', 'sin_phi2')


def builders(P, fk):
    """functions that get the array of kernel types of the instance and evaluate kernels:
    {function: {role: parameter position}}"""
    out = {}
    for F in P.functions():
        D = None
        for I in F.insts():
            if I.op != 'call':
                continue
            G = P.resolve(F, I.x['callee'])
            if G is None:
                continue
            if D is None:
                D = {J.res: J for J in F.insts() if J.res}
            roles = {}
            for n, a in enumerate(I.a):
                L = D.get(a) if isinstance(a, str) else None
                if L is not None and L.op == 'load':
                    g = D.get(L.a[0])
                    if g is not None and g.op == 'getelementptr' and len(g.a) == 3 and g.ty == fk:
                        f = P.fields_of(F, fk)[g.a[2]]
                        if f in ROLE:
                            roles[ROLE[f]] = n
            if {'type', 'par', 'amp'} <= set(roles):
                out.setdefault(id(G), (G, roles, []))[2].append(where(F, I))
    return list(out.values())


def kernels(R, P, fk, cov):
    ids = [(n[len('XRTM_KERNEL_'):].lower(), v) for n, v in enum(P, 'xrtm_kernel_type') if n.startswith('XRTM_KERNEL_')]
    bs = builders(P, fk)
    if len(bs) < 2:
        raise AnalysisError('only %d functions evaluate the kernels of an instance' % len(bs))
    NP, NF = P.need('kernel_n_params'), P.need('brdf_needs_fourier')
    publ = sorted((n for n, _ in ids), key=len, reverse=True)
    some = 0
    for G, roles, sites in bs:
        own = {}
        if not evaluates(P, G, roles, ids):
            continue
        some += 1
        for name, k in ids:
            cov['kernel_evaluations'] += 1
            S = Sccp(P)
            args = [None] * len(G.params)
            args[roles['type']] = Arr(k)
            X = S.ctx(G, args)
            np = S.ctx(NP, [C(k)])
            npar = np.ret.const() if np is not None and np.ret is not None else None
            nf = S.ctx(NF, [Arr(k), C(1)])
            four = nf.ret.const() if nf is not None and nf.ret is not None else None
            kw = '%s, kernel %s' % (G.name, name)
            if npar is None or npar < 0:
                R.add('kernel:%s:n_params' % name, 'the number of parameters of kernel %s is not a fixed number' % name, where(NP))
                continue
            start = {G.params[n]: r for r, n in roles.items()}
            L = Lab(S, X, start)
            L = Lab(S, X, start, result_l(L))
            own[k] = one_kernel(R, P, S, L, X, G, roles, name, k, npar, four, publ, cov)
        for k in own:
            for j in own:
                if j < k and own[k] and own[k] == own[j]:
                    a, b = [n for n, v in ids if v == j][0], [n for n, v in ids if v == k][0]
                    R.add('kernel:same:%s:%s' % (a, b), 'kernels %s and %s are evaluated by the same function %s()' % (a, b, sorted(own[k])[0]), G.name)
        positions(R, P, G, roles, cov)
    if some < 2:
        raise AnalysisError('only %d functions evaluate the kernels of an instance' % some)


def evaluates(P, G, roles, ids):
    """does the function run an evaluation for any kernel type?  (the adjoint does not)"""
    S = Sccp(P)
    args = [None] * len(G.params)
    X = S.ctx(G, args)
    par = {G.params[n]: r for r, n in roles.items() if r in ('par', 'par_l', 'func')}
    L = Lab(S, X, par)
    return any(x is not X and any(L.m[id(x)].get(p) for p in x.F.params) for x in L.cx.values())


def one_kernel(R, P, S, L, X, G, roles, name, k, npar, four, publ, cov):
    """returns the names of the functions that give the value of the kernel"""
    # functions that get the parameters of the kernel, below the builder
    low = [x for x in L.cx.values() if x is not X and
           any(('par' in ls) for p, ls in L.m[id(x)].items() if p in x.F.params)]
    anyF = {}
    for x in low:
        anyF[x.F.name] = x.F
    names = {n for n in anyF}
    indirect = False
    for x in [X] + low:
        for I, H, y in L.calls[id(x)]:
            if H is None and not str(I.x['callee']).startswith('@'):
                if any('par' in L.get(x, a) for a in I.a):
                    indirect = True
    # error exit on the way
    for x in [X] + low:
        disp = any(isinstance(a, object) and a is not None and a.const() == k for a in x.args) or x is X
        for I, H, y in L.calls[id(x)]:
            if H is None and callee_name(I) in ('exit', 'abort') and disp and selects(x, k):
                R.add('kernel:%s:refused' % name, 'kernel %s ends in the error exit of %s()' % (name, x.F.name), where(x.F, I))
    # values: functions returning a floating point number, of the kernel only
    ev = {x.F.name for x in low if x.F.ret == 'double' and not dispatcher(x, k)}
    prep = {x.F.name for x in low if x.F.ret != 'double' and not dispatcher(x, k)}
    if name == 'user_defined':
        if not indirect:
            R.add('kernel:%s:none' % name, 'kernel %s does not call the function the user set' % name, where(G))
        if ev:
            R.add('kernel:%s:other' % name, 'kernel %s is evaluated by %s()' % (name, sorted(ev)[0]), where(P.need(sorted(ev)[0])))
        return set()
    if indirect:
        R.add('kernel:%s:user' % name, 'kernel %s calls the function set for user defined kernels' % name, where(G))
    # names
    for f in sorted(ev | prep):
        m = [n for n in publ if re.search(r'(^|_)%s(_|$)' % re.escape(n), f)]
        if m and name not in m:
            R.add('kernel:%s:%s' % (name, m[0]), 'kernel %s is evaluated by %s(), which belongs to kernel %s' % (name, f, m[0]),
                  where(anyF[f]))
    # parameters read
    idx, unknown = set(), False
    sets_l = False
    reads, writes = {}, {}
    az = []
    top = [x for x in low if x.F.name in ev | prep]
    below, wl = {}, [(x, x.F.name in ev) for x in top]
    while wl:
        x, e = wl.pop()
        if below.get(id(x), (None, False))[1] >= e and id(x) in below:
            continue
        below[id(x)] = (x, e)
        wl += [(y, e) for _, _, y in L.calls[id(x)] if y is not None]
    for x in list(below.values()) + [(x, False) for x in L.cx.values() if id(x) not in below]:
        x, in_ev = x
        D = {I.res: I for I in x.F.insts() if I.res}
        for I in L.insts(x):
            if I.op == 'load' and I.ty == 'double':
                ls = L.get(x, I.a[0])
                if ls & {'par', 'par_l'}:
                    p = position(D, I.a[0], S, x)
                    if p is None:
                        unknown = True
                    else:
                        idx.add(p)
                        cov['parameter_reads'] += 1
                        if p >= npar or p < 0:
                            R.add('kernel:%s:param:%d' % (name, p), 'kernel %s has %d parameters but %s() reads parameter %d' % (name, npar, x.F.name, p), where(x.F, I))
                for l in ls:
                    if isinstance(l, tuple):
                        if in_ev:
                            reads.setdefault(l, {}).setdefault(member(D, I.a[0]), (x.F, I))
                g = D.get(I.a[0]) if isinstance(I.a[0], str) else None
                if g is not None and id(x) in below:
                    a = aux_member(P, x.F, D, I.a[0])
                    if a in AZIMUTH:
                        az.append((x.F, I, a))
            elif I.op == 'store':
                ls = L.get(x, I.a[1])
                for l in ls:
                    if isinstance(l, tuple):
                        writes.setdefault(l, set()).add(member(D, I.a[1]))
        cov['functions_examined'] += 1
    if not unknown and idx and max(idx) != npar - 1 or not unknown and not idx and npar:
        R.add('kernel:%s:n_params' % name, 'kernel %s has %d parameters but only %d are used' % (name, npar, max(idx) + 1 if idx else 0), where(P.need('kernel_n_params')))
    for l in reads:
        for m, (F, I) in reads[l].items():
            if m is not None and m not in writes.get(l, set()):
                R.add('kernel:%s:unprepared' % name, 'kernel %s: %s() reads a quantity that its preparation does not compute' % (name, F.name), where(F, I))
    if four == 0:
        for F, I, a in az:
            R.add('kernel:%s:azimuth' % name, 'kernel %s depends on the azimuth (%s in %s()) but is not expanded into a Fourier series' % (name, a, F.name), where(F, I))
    # derivatives
    for x in L.cx.values():
        for I in L.insts(x):
            if I.op == 'store' and 'f_l' in L.get(x, I.a[1]):
                sets_l = True
    if not sets_l:
        R.add('kernel:%s:derivs' % name, 'kernel %s does not set its derivatives when they are asked for' % name,
              where(anyF[sorted(ev)[0]]) if ev else where(G))
    if not ev and not any(True for _ in low):
        R.add('kernel:%s:none' % name, 'kernel %s is not evaluated' % name, where(G))
    return ev


def selects(x, k):
    """does the function branch on the kernel type (a parameter with value k)?"""
    ps = {p for p, a in zip(x.F.params, x.args) if a is not None and a.const() == k}
    n = 0
    for I in x.F.insts():
        if I.op == 'switch' and I.a[0] in ps:
            return True
        if I.op == 'icmp' and I.a[0] in ps:
            n += 1
    return n > 3


def dispatcher(x, k):
    return selects(x, k)


def position(D, p, S, x):
    g = D.get(p) if isinstance(p, str) else None
    if g is None or g.op != 'getelementptr':
        return 0 if g is None or g.op in ('load', 'phi') and g.ty == 'ptr' else None
    v = g.a[-1]
    if isinstance(v, int):
        return v
    a = S.v(x.F, x.vals, v)
    return a.const() if a is not None and not isinstance(a, Arr) else None


def member(D, p):
    """member of a union of structures: (structure type, member number)"""
    g = D.get(p) if isinstance(p, str) else None
    if g is None or g.op != 'getelementptr' or len(g.a) < 3:
        return None
    return (g.ty, tuple(a for a in g.a[1:]))


def aux_member(P, F, D, p):
    """member of a structure of arrays that a double is loaded from"""
    g = D.get(p)
    if g is None or g.op != 'getelementptr':
        return None
    l = D.get(g.a[0])
    if l is None or l.op != 'load':
        return None
    h = D.get(l.a[0])
    if h is None or h.op != 'getelementptr' or len(h.a) != 3 or not isinstance(h.a[2], int):
        return None
    f = P.fields_of(F, h.ty)
    return f[h.a[2]] if f and h.a[2] < len(f) else None


def result_l(L):
    """registers of each context with the array that the evaluation puts its derivatives in: it is
    passed to a function returning a number, and its elements are then read"""
    out = {}
    for x in L.cx.values():
        D = {I.res: I for I in x.F.insts() if I.res}
        rd = set()
        for I in L.insts(x):
            if I.op == 'load' and I.ty == 'double':
                g = D.get(I.a[0]) if isinstance(I.a[0], str) else None
                rd.add(g.a[0] if g is not None and g.op == 'getelementptr' else I.a[0])
        for I, H, y in L.calls[id(x)]:
            if I.ty == 'double' and y is not None and any('par' in L.get(x, a) for a in I.a):
                for a in I.a:
                    if isinstance(a, str) and a in rd and not L.get(x, a):
                        out.setdefault(id(x), {})[a] = 'f_l'
    return out


def positions(R, P, G, roles, cov):
    """type, amplitude, parameters and function of the same position are used together"""
    D = {I.res: I for I in G.insts() if I.res}
    top = {G.params[n]: r for r, n in roles.items()}
    blk = {}
    for b in G.order:
        for I in G.blocks[b].insts:
            if I.res:
                blk[I.res] = b
    geps = []
    for b in G.order:
        for I in G.blocks[b].insts:
            if I.op == 'getelementptr' and I.a[0] in top:
                geps.append((top[I.a[0]], strip(G, I.a[1]), b, I))
    types = {(v, blk.get(v)) for r, v, b, I in geps if r == 'type'}
    cov['kernel_positions'] += len(geps)
    for r, v, b, I in geps:
        if r == 'type' or not types:
            continue
        if any(v == t for t, _ in types):
            continue
        if isinstance(v, str) and v in D and D[v].op == 'phi':
            # a counter of a loop inside the loop over the kernels
            inner = [t for t, tb in types if tb is not None and blk[v] != tb and irlib.dominates(G, tb, blk[v])
                     and b_in_loop(G, tb, b)]
            if inner:
                R.add('kernel:position:%s:%s' % (G.name, r), '%s() uses the %s of another position than the kernel type' % (
                    G.name, dict(amp='amplitude', amp_l='linearized amplitude', par='parameters', par_l='linearized parameters', func='function')[r]), where(G, I))
        elif isinstance(v, int):
            R.add('kernel:position:%s:%s' % (G.name, r), '%s() uses the %s of position %d for every kernel' % (G.name, r, v), where(G, I))


def b_in_loop(F, h, b):
    """is block b in the loop with header h?"""
    succ = {}
    for x in F.order:
        t = F.blocks[x].insts[-1]
        succ[x] = list(t.x) if t.op == 'br' and isinstance(t.x, (list, tuple)) else [t.x[0]] + [l for _, l in t.x[1]] if t.op == 'switch' else []
    seen, wl = set(), [b]
    while wl:
        x = wl.pop()
        for s in succ.get(x, ()):
            if s == h:
                return True
            if s not in seen:
                seen.add(s)
                wl.append(s)
    return False


# ---------------------------------------------------------------------------- outputs
def output_job(a):
    P, fk, _ = JOB[0]
    out, val, on, direct, sv = a
    F = P.need('xrtm_solution')
    S = Sccp(P, {(fk, 'options'): bits(on, 0)} if on else {})
    args = [None] * len(F.params)
    args[param(F, 'solutions')] = C(val)
    args[param(F, 'solver')] = C(sv)
    X = S.ctx(F, args)
    L = Lab(S, X, {'%' + n: n for n in ARRAYS})
    w = {}
    for x in L.cx.values():
        for I in L.insts(x):
            if I.op == 'store' and not (isinstance(I.a[0], str) and I.ty == 'ptr'):
                for l in L.get(x, I.a[1]):
                    if isinstance(l, str):
                        w.setdefault(l, where(x.F, I))
    return a, w, len(L.cx)


def outputs(R, P, fk, cov):
    opt = {n[len('XRTM_OPTION_'):]: v & 0xffffffff for n, v in enum(P, 'xrtm_option_mask')}
    ov = {n[len('XRTM_OUTPUT_'):]: v for n, v in enum(P, 'xrtm_output_mask')}
    F = P.need('xrtm_solution')
    for n in ARRAYS:
        param(F, n)
    dirs = opt['UPWELLING_OUTPUT'] | opt['DOWNWELLING_OUTPUT']
    sol = {n[len('XRTM_SOLVER_'):]: v for n, v in enum(P, 'xrtm_solver_mask')}
    jobs = [(o, ov[o], m, d, sol[s]) for o in OUTPUTS for d, m in ((0, dirs), (1, dirs | opt['CALC_DERIVS']))
            for s in HOME if (o == 'RADIANCE' or s != 'SINGLE') and (not d or s not in ('FOUR_STREAM', 'SIX_STREAM'))]
    JOB[:] = [(P, fk, None)]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for (o, v, m, d, sv), w, n in pool.imap_unordered(output_job, jobs):
            cov['output_configurations'] += 1
            cov['contexts'] += n
            must = OUTPUTS[o][0].split() + (OUTPUTS[o][1].split() if d else [])
            may = set(OUTPUTS[o][0].split() + OUTPUTS[o][1].split())
            for a in must:
                if a not in w:
                    R.add('output:%s:%s' % (o, a), 'output %s: nothing is ever written to %s' % (o.lower(), a), 'xrtm_solution')
            for a in w:
                if a not in may:
                    R.add('output:%s:extra:%s' % (o, a), 'output %s: %s is written too' % (o.lower(), a), w[a])
    api = {f.name: f for f in public_api(P)}
    for f, o in SINGLE_OUT.items():
        if f not in api:
            raise AnalysisError('anchor vanished: %s()' % f)
        G = api[f]
        S = Sccp(P)
        X = S.ctx(G, [None] * len(G.params))
        n = 0
        for I, H, args in S.calls(X):
            if H is None or H.name != 'xrtm_solution':
                continue
            n += 1
            cov['forwarding_calls'] += 1
            for p, a, v in zip(H.params, I.a, args):
                q = p[1:]
                if q == 'solutions':
                    if v is None or v.const() != ov[o]:
                        R.add('output:%s:mask' % f, '%s() asks for another output than %s' % (f, o.lower()), where(G, I))
                elif q in ('d', 'solver') or q in ARRAYS or q in ('n_out_phis', 'out_phis'):
                    if p in G.params:
                        if a != p:
                            R.add('output:%s:%s' % (f, q), '%s() does not pass its argument %s on as such' % (f, q), where(G, I))
                    elif q in ARRAYS and not (v is not None and v.const() == 0):
                        R.add('output:%s:%s' % (f, q), '%s() passes an array for %s' % (f, q), where(G, I))
        if not n and f != 'xrtm_flux_divergence' and not any(H is not None and H.name in ('get_solution',) for _, H, _ in S.calls(X)):
            R.add('output:%s:none' % f, '%s() does not run a simulation' % f, where(G))


def run(R, tier):
    P = prog('src', 'misc')
    fk = fieldkey(P)
    R.explanation = ('conditional constant propagation with each identifier as a constant: reachable functions, '
                     'parameters and prepared quantities read, result arrays written')
    R.assumptions = ['clang IR after mem2reg represents the source',
                     'each solver is implemented in the source files of its name (adding, source and radiance code is shared)']
    cov = dict(solver_configurations=0, contexts=0, kernel_evaluations=0, functions_examined=0, parameter_reads=0,
               kernel_positions=0, output_configurations=0, forwarding_calls=0)
    solvers(R, P, fk, tier, cov)
    kernels(R, P, fk, cov)
    outputs(R, P, fk, cov)
    R.coverage = cov
    R.instances = cov['solver_configurations'] + cov['kernel_evaluations'] + cov['output_configurations'] + cov['forwarding_calls']
