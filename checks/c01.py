"""C01: what a solution uses of an earlier one is up to date.

An instance keeps intermediate results (polynomials, phase matrices, beam parameters, layer and
total operators, boundary sources ...) between solutions; each is recomputed only if a bit of its
dirty flag, raised by the setters, meets its dependency mask.  For every configuration of a
covering set and every setter:

 * the flow summary of the solution (lib/flow.py: interprocedural, field sensitive, pruned by the
   option configuration, with each definition guarded by the bit tests of the dirty flags) gives
   for every field of the instance the definitions, their sources and the guards;
 * the flow summary of the setter gives the fields it writes and the bits it raises in each flag;
 * the values that change are the closure of the fields written over the definitions of the
   solution; the values that matter are those the results depend on.

A value that changes, matters, is kept in the instance and has no definition enabled under the
bits the setter raised is stale: a solution after the setter uses the old one.
"""
import collections, itertools, multiprocessing, os, random
import flow, irlib
from irlib import AnalysisError
from common import prog, where
import lin, sym
import checks.c05 as c05
import checks.c08 as c08

LEVEL = 'other'

S = '%struct.xrtm_data'
ADDING = ['EIG_ADD', 'DOUB_ADD', 'PADE_ADD']
SOLVERS = ['EIG_ADD', 'DOUB_ADD', 'PADE_ADD', 'EIG_BVP', 'MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS', 'TWO_STREAM', 'FOUR_STREAM', 'SIX_STREAM']
FACTORS = collections.OrderedDict([
    ('solver', SOLVERS),
    ('derivs', [(), ('CALC_DERIVS',)]),
    ('delta', [(), ('DELTA_M',), ('DELTA_M', 'N_T_TMS')]),
    ('source', [('SOURCE_SOLAR',), ('SOURCE_THERMAL',), ('SOURCE_SOLAR', 'SOURCE_THERMAL')]),
    ('psa', [(), ('PSA',)]),
    ('phase', [('PHASE_SCALAR',), ('PHASE_MATRIX_GC', 'VECTOR'), ('PHASE_MATRIX_LC', 'VECTOR', 'SAVE_PHASE_MATS')]),
    ('out', [('OUTPUT_AT_LEVELS',), ('OUTPUT_AT_TAUS',)]),
    ('legs', [(), ('SAVE_LEG_POLYS',)]),
    ('phases', [(), ('SAVE_PHASE_MATS',)]),
    ('local', [(), ('SAVE_LOCAL_R_T',)]),
    ('layer', [(), ('SAVE_LAYER_R_T_S',), ('SAVE_LAYER_R_T_S', 'SAVE_TOTAL_R_T_S'), ('SAVE_TOTAL_R_T_S',), ('STACK_REUSE_ADDING', 'CALC_DERIVS')]),
    ('adding', [(), ('TOP_DOWN_ADDING',), ('BOTTOM_UP_ADDING',)]),
    ('conv', [('FOUR_CONV_NEW',), ('FOUR_CONV_OLD',)]),
    ('part', [('PART_SOL_CLASSICAL',), ('PART_SOL_GREENS',)]),
    ('azim', [(), ('NO_AZIMUTHAL',)]),
    ('sfi', [(), ('SFI',)]),
])
QUAD = {'P0.' + x for x in ('qw', 'qx_v', 'qw_v', 'alpha1', 'alpha2')}
STREAM = ['TWO_STREAM', 'FOUR_STREAM', 'SIX_STREAM']
# the combinations xrtm_check_solvers() rejects
REJECTED = [
    (lambda o: 'VECTOR' in o, STREAM),
    (lambda o: 'CALC_DERIVS' in o, STREAM[1:]),
    (lambda o: 'DELTA_M' in o and 'N_T_TMS' not in o, ['SINGLE']),
    (lambda o: 'N_T_TMS' in o, ['TWO_OS']),
    (lambda o: 'NO_AZIMUTHAL' in o, ['SINGLE']),
    (lambda o: 'OUTPUT_AT_TAUS' in o, ADDING + ['SOS']),
    (lambda o: 'SFI' in o, ADDING + ['MEM_BVP', 'SOS']),
    (lambda o: 'SOURCE_SOLAR' not in o, ['MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS']),
    (lambda o: 'SOURCE_THERMAL' in o, ['MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS'] + STREAM),
]
QUAD = {'P0.' + x for x in ('qw', 'qx_v', 'qw_v', 'alpha1', 'alpha2')}
FIXED = ('QUAD_DOUB_GAUS_LEG', 'UPWELLING_OUTPUT', 'DOWNWELLING_OUTPUT')


def valid(c):
    o = opts(c)
    v = c['solver']
    if v not in ADDING and (c['layer'] or c['adding']):
        return False
    return not (('N_T_TMS' in o and 'NO_AZIMUTHAL' in o)
                or ('STACK_REUSE_ADDING' in o and ('TOP_DOWN_ADDING' in o or 'SAVE_LAYER_R_T_S' in o))
                or any(a(o) and v in b for a, b in REJECTED))
    return True


def opts(c):
    o = set(FIXED)
    for k, v in c.items():
        if k != 'solver':
            o |= set(v)
    return o


def covering(n, seed=1):
    """a deterministic set of n valid configurations covering the pairs of levels greedily"""
    rnd = random.Random(seed)
    names = list(FACTORS)
    pairs = {(a, i, b, j) for a, b in itertools.combinations(range(len(names)), 2)
             for i in range(len(FACTORS[names[a]])) for j in range(len(FACTORS[names[b]]))}
    def possible(a, i, b, j):
        for _ in range(400):
            ix = [rnd.randrange(len(FACTORS[k])) for k in names]
            ix[a], ix[b] = i, j
            if valid({k: FACTORS[k][v] for k, v in zip(names, ix)}):
                return True
        return False
    pairs = {p for p in sorted(pairs) if possible(*p)}
    out = []
    while len(out) < n:
        best = None
        tried = 0
        while tried < 60:
            ix = [rnd.randrange(len(FACTORS[k])) for k in names]
            c = {k: FACTORS[k][i] for k, i in zip(names, ix)}
            if not valid(c):
                continue
            tried += 1
            g = sum(1 for a, b in itertools.combinations(range(len(names)), 2) if (a, ix[a], b, ix[b]) in pairs)
            if best is None or g > best[0]:
                best = (g, ix, c)
        g, ix, c = best
        for a, b in itertools.combinations(range(len(names)), 2):
            pairs.discard((a, ix[a], b, ix[b]))
        out.append(c)
    return out, len(pairs)


KEPT = dict(legs=('SAVE_LEG_POLYS',), phases=('SAVE_PHASE_MATS',), local=('SAVE_LOCAL_R_T',))


def kept_all(seed=2):
    """every solver with each kind of source, output angles and phase input, keeping all that can be kept"""
    rnd = random.Random(seed)
    out = []
    for v, s, sfi, ph in itertools.product(SOLVERS, FACTORS['source'], FACTORS['sfi'], FACTORS['phase']):
        for _ in range(40):
            c = {k: rnd.choice(x) for k, x in FACTORS.items()}
            c.update(KEPT, solver=v, source=s, sfi=sfi, phase=ph)
            c['layer'] = ('SAVE_LAYER_R_T_S', 'SAVE_TOTAL_R_T_S') if v in ADDING else ()
            if v not in ADDING:
                c['adding'] = ()
            if valid(c):
                out.append(c)
                break
    return out


_G = {}


def compared(P, F, fields, seen=None):
    """fields of the instance that F (or a helper) stores only a value it has compared with the old
    one: 'if (d->x != x) raise the flag; d->x = x;'"""
    seen = set() if seen is None else seen
    if F in seen:
        return set()
    seen.add(F)
    fld, src, out = {}, {}, set()
    ins = [I for b in F.order for I in F.blocks[b].insts]
    for I in ins:
        if I.op == 'getelementptr' and I.ty == S and len(I.a) == 3 and isinstance(I.a[2], int):
            fld[I.res] = fields[I.a[2]]
    for I in ins:
        if I.op == 'load':
            src[I.res] = I.a[0]
    same = lambda a, b: a == b or (a in src and src.get(a) == src.get(b))
    for I in ins:
        if I.op not in ('fcmp', 'icmp'):
            continue
        for a, b in ((I.a[0], I.a[1]), (I.a[1], I.a[0])):
            x = fld.get(src.get(a)) if isinstance(a, str) else None
            if x is None:
                continue
            for J in ins:
                if J.op == 'store' and fld.get(J.a[1]) == x and same(J.a[0], b):
                    out.add(x)
    for I in ins:
        if I.op == 'call':
            G = P.resolve(F, I.x['callee'])
            if G is not None and G.module == F.module:
                out |= compared(P, G, fields, seen)
    return out


def enums(P):
    E = {}
    for m in P.modules.values():
        for k, v in m.enums.items():
            for a, b in v:
                E[a] = b
    return E


def const_config(c):
    E = _G['E']
    try:
        o = sum(E['XRTM_OPTION_' + x] for x in opts(c))
        s = E['XRTM_SOLVER_' + c['solver']]
    except KeyError as e:
        raise AnalysisError('anchor vanished: enumerator %s' % e)
    return {(S, 'options'): o, (S, 'solvers'): s, ('%struct.save_tree_data', 't'): 0}, s


def stale(f, bits, W, Wall, sums, defs, outs, track):
    res, nob = [], 0
    alldefs = {t: list(l) for t, l in defs.items()}
    # values another setter derives from what this one writes
    for h in sums:
        if h is f:
            continue
        for t, src in sums[h][2].items():
            if t in Wall or t in defs:
                continue
            q = {x for x in src if x.startswith('P0.') and x != t}
            if q & set(W):
                alldefs.setdefault(t, []).append((None, q, None))
    changed, ch = set(W), True
    while ch:
        ch = False
        for t, l in alldefs.items():
            if t in changed or t.split('.')[-1] in track or (t in Wall and t not in W):
                continue
            if any(src & changed for g, src, site in l):
                changed.add(t)
                ch = True

    def env(r, m):
        x = r.split('.')[-1]
        return bool(bits.get(x, 0) & m) if x in track else None
    need, wl = set(outs), list(outs)
    while wl:
        t = wl.pop()
        l = [d for d in alldefs.get(t, []) if d[0] is not None]
        en = [d for d in l if flow.g_eval(d[0], env)]
        nob += len(l)
        for g, src, site in (en or l):
            for q in src:
                if q not in need:
                    need.add(q)
                    wl.append(q)
        if t in changed and t not in Wall and not en and t.startswith('P0.'):
            res.append((f.name, t[3:], sorted(x[3:] for x in W), l[0][2] if l else None))
    return res, nob


def defs_of(sm):
    d = collections.defaultdict(list)
    for (t, g), (src, site) in sm.edges.items():
        d[t].append((g, src, site))
    return d


def switched(c, fl, F, args, sm, track):
    """what is kept from a solution with another solver or for another kind of result"""
    P, E = _G['P'], _G['E']
    res, nob = [], 0
    cases = []
    if c['solver'] in ADDING:
        for s in ADDING:
            if s != c['solver']:
                cases.append(('solver', s))
    for tag, s in cases:
        both = E['XRTM_SOLVER_' + s] | E['XRTM_SOLVER_' + c['solver']]
        cfg, _ = const_config(c)
        cfg[(S, 'solvers')] = both
        f2 = flow.Flow(P, cfg, track=track, control='leaf')
        a = list(args)
        new = f2.summary(F, tuple(a))
        a[_G['solver_arg']] = E['XRTM_SOLVER_' + s]
        old = defs_of(f2.summary(F, tuple(a)))
        defs = defs_of(new)
        bits = collections.defaultdict(int)
        for (r, op, cc, g), site in new.bitops.items():
            if r.split('.')[-1] in track and op in ('or', 'set') and isinstance(cc, int):
                bits[r.split('.')[-1]] |= cc

        def env(r, m):
            x = r.split('.')[-1]
            return bool(bits.get(x, 0) & m) if x in track else None
        need = set(t for t in defs if t[0] == 'P' and '.' not in t)
        wl = list(need)
        while wl:
            t = wl.pop()
            l = defs.get(t, [])
            en = [d for d in l if flow.g_eval(d[0], env)]
            nob += len(l)
            for g, src, site in (en or l):
                for q in src:
                    if q not in need:
                        need.add(q)
                        wl.append(q)
            if l and not en and t.startswith('P0.') and t.split('.')[-1] not in track and t in old:
                if set().union(*[d[1] for d in l]) != set().union(*[d[1] for d in old[t]]):
                    res.append((F.name, t[3:] + '/solver', ['%s after %s' % (c['solver'], s)], l[0][2]))
    return res, nob


def strip(F, v):
    d = F.defs.get(v) if isinstance(v, str) else None
    while d is not None and d.op in ('sext', 'zext', 'trunc'):
        v = d.a[0]
        d = F.defs.get(v) if isinstance(v, str) else None
    return v


def element(F, a):
    """address of an element -> (root pointer, index expressions outermost first)"""
    d = F.defs.get(a) if isinstance(a, str) else None
    if d is None:
        return a, ()
    if d.op == 'load':
        return element(F, d.a[0])
    if d.op == 'getelementptr' and len(d.a) == 2:
        r, ix = element(F, d.a[0])
        return r, ix + (lin_index(F, d.a[1]),)
    if d.op == 'getelementptr':
        return element(F, d.a[0])[0] if isinstance(d.a[0], str) and d.a[0] in F.defs else (d.a[0],) + tuple(d.a[2:]), ()
    return a, ()


def lin_index(F, v):
    """i + c -> (i, c)"""
    v = strip(F, v)
    d = F.defs.get(v) if isinstance(v, str) else None
    if isinstance(v, int):
        return None, v
    if d is not None and d.op in ('add', 'sub'):
        for x, y in ((d.a[0], d.a[1]), (d.a[1], d.a[0])):
            if isinstance(y, int) and (d.op == 'add' or y is d.a[1]):
                b, c = lin_index(F, x)
                return b, c + (y if d.op == 'add' else -y)
    return v, 0


def clears(R, P, sites, cov):
    """a mark is taken away from the element that was found out of date, or from one that is recomputed there"""
    SY = sym.Sym(P, lambda G: False)
    cov['marks_cleared'] = 0
    for F in P.functions():
        mine = [I for b in F.order for I in F.blocks[b].insts
                if I.op == 'store' and I.ty == 'i32' and (F.file or '', I.line) in sites]
        if not mine:
            continue
        tests = []
        for b in F.order:
            for I in F.blocks[b].insts:
                if I.op == 'and':
                    for x in I.a:
                        d = F.defs.get(x) if isinstance(x, str) else None
                        if d is not None and d.op == 'load' and any(
                                J.op == 'icmp' and I.res in J.a for B in F.order for J in F.blocks[B].insts):
                            tests.append((b,) + element(F, d.a[0]))
        loops = SY.loops(F)
        for I in mine:
            r, ix = element(F, I.a[1])
            if not ix:
                continue
            cov['marks_cleared'] += 1
            bodies = [body for h, body in loops if I.bb in body and
                      any(J.op == 'phi' and J.res == ix[-1][0] for J in F.blocks[h].insts)]
            if bodies:
                body = min(bodies, key=len)
                if any(b in body and r2 == r for b, r2, i2 in tests):
                    continue
                work = [J for b in body for J in F.blocks[b].insts
                        if (J.op == 'store' and element(F, J.a[1])[0] != r) or
                        (J.op == 'call' and not str(J.x['callee']).startswith('@llvm.'))]
                if not work:
                    R.add('%s/clear' % F.name,
                          '%s() takes the marks of every element away and recomputes none of them there' % F.name, where(F, I))
                continue
            dom = [i2 for b, r2, i2 in tests if r2 == r and len(i2) == len(ix) and irlib.dominates(F, b, I.bb)]
            if dom and not any(i2[-1] == ix[-1] for i2 in dom):
                R.add('%s/clear' % F.name, '%s() tests the mark of one element and takes that of another away' % F.name, where(F, I))


def literals(x):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'lit':
        return [x[1:]]
    if isinstance(x, (tuple, frozenset)):
        return [z for y in x for z in literals(y)]
    return []


def one(c):
    P, track, setters = _G['P'], _G['track'], _G['setters']
    cfg, solver = const_config(c)
    fl = flow.Flow(P, cfg, track=track, control='leaf')
    F = P.need('xrtm_solution')
    args = [None] * len(F.params)
    args[_G['solver_arg']] = solver
    sm = fl.summary(F, tuple(args))
    defs = collections.defaultdict(list)
    for (t, g), (src, site) in sm.edges.items():
        defs[t].append((g, src, site))
    outs = [t for t in defs if t[0] == 'P' and '.' not in t]
    res, nob = [], 0
    sums = {}
    for f in setters:
        ss = fl.summary(f, tuple([None] * len(f.params)))
        must, may = collections.defaultdict(int), collections.defaultdict(int)
        for r, op, cc in ss.must:
            if r.split('.')[-1] in track and op in ('or', 'set') and isinstance(cc, int):
                must[r.split('.')[-1]] |= cc
        for (r, op, cc, g), site in ss.bitops.items():
            if r.split('.')[-1] in track and op in ('or', 'set') and isinstance(cc, int):
                may[r.split('.')[-1]] |= cc
        W = {}
        for (t, g), (src, site) in ss.edges.items():
            x = t.split('.')[-1]
            if t.startswith('P0.') and x not in track and not x.startswith('set_flags') and x != 'inputs_initialized':
                W.setdefault(t, set()).update(src)
        sums[f] = (must, may, W)
    for f in setters:
        must, may, W = sums[f]
        if not W:
            continue
        Wall = W
        if 'SFI' in opts(c) and W.get('P0.qx') is not None and 'P0.umus' not in W and f.name == 'xrtm_set_out_thetas':
            # the output angles are kept behind the quadrature angles, which the operators are computed for
            W = {('P0.umus' if t == 'P0.qx' else t): x for t, x in W.items() if t not in QUAD and not t.startswith('P0.kernel_aux')}
            Wall = dict(Wall, **W)
        same = {'P0.' + x for x in _G['compared'][f]}
        W1 = {t: s for t, s in W.items() if t not in same}
        for bits, w in ((must, W1),) + (((may, W),) if len(W1) != len(W) else ()):
            r, k = stale(f, bits, w, Wall, sums, defs, outs, track)
            res += r
            nob += k
    # another solver, another kind of result
    r, k = switched(c, fl, F, args, sm, track)
    res += r
    nob += k
    masks = collections.defaultdict(int)
    for (t, g), (src, site) in sm.edges.items():
        for r, m in literals(g):
            masks[r.split('.')[-1]] |= m
    sites = {site for (r, op, cc, g), site in sm.bitops.items()
             if r.split('.')[-1] in track and (op == 'and' or (op == 'set' and cc == 0))}
    return {k: str(v) for k, v in c.items()}, res, nob, len(sm.edges), dict(masks), sites


def extent(e):
    """index expression -> [(first, one past the last)], alternatives of a phi or select separately"""
    if e[0] == 'rng':
        lo, hi = e[1], e[2]
        if lo[0] == 'rng' and lin.canon(hi) == lin.canon(sym.addc(lo, ('c', 1))):
            return extent(lo)
        out = []
        for a in alts(lo):
            for b in alts(hi):
                out.append((a, b))
        return out
    return [(a, sym.addc(a, ('c', 1))) for a in alts(e)]


def alts(e):
    if e[0] == 'phi':
        return [y for x in e[3] for y in alts(x)]
    if e[0] == 'sel':
        return [y for x in e[2:4] for y in alts(x)]
    return [e]


def diff(a, b):
    """a - b if constant"""
    c, t = lin.lin(a)
    d, u = lin.lin(b)
    x = lin.add((c, t), (d, u), -1)
    return x[0] if not x[1] else None


def within(req, got):
    """is the range req inside got? None: not decided"""
    lo, hi = diff(req[0], got[0]), diff(got[1], req[1])
    if lo is None or hi is None:
        la, ha = req
        if lo is None and got[0] == ('c', 0):
            lo = 0
        if hi is None and is_count(got[1]) and lo is not None:
            hi = 0
        if hi is None and is_count(req[1]) and got[1][0] == 'c':
            hi = -1
    if lo is None or hi is None:
        return None
    return lo >= 0 and hi >= 0


def is_count(e):
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] in ('n_layers', 'n_four')


def elements(R, P, setters, track, masks, cov):
    """the elements of the dirty flags a setter raises include those of the layers it changes"""
    api, mods, SY = c05.make(P)
    dims = c05.dimensions(P, SY)
    flags = {}
    for (s, f), d in dims.items():
        if s == S:
            flags[f] = [x[1][2] if x[0] == 'ld' and x[1][0] == 'F' else None for x in d[0]]
    for f in track:
        if masks.get(f) and f not in flags and f not in ('dep_flags_utaus', 'dep_flags_chapman'):
            raise AnalysisError('dimensions of %s not found' % f)
    D = ('p', 0)

    def count(n):
        return ('ld', ('fld', D, S, n))
    cov.update(ranges=0, ranges_not_decided=[])
    for F in setters:
        st, opaque = c08.stores(SY, F)
        layers, raised = [], []
        whole = False
        for a, v, A in st:
            c = c08.chain(a)
            if c is None or c[0] != D or not c[1] or c[1][0][0] != S:
                continue
            m = c[1][0][1]
            if m in track:
                raised.append((m, c[2], v, A))
            elif m.startswith('set_flags') or m in ('inputs_initialized',):
                continue
            elif flags.get(m, [None])[0] == 'n_layers' and c[2]:
                layers += extent(c[2][0])
            else:
                whole = True
        if whole:
            layers.append((('c', 0), count('n_layers')))
        for m, idx, v, A in raised:
            b = v[3][1] if v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c' else 0xffffffff
            if not b & masks.get(m, 0):
                continue
            for k, ix in enumerate(idx[:len(flags.get(m, []))]):
                dim = flags[m][k]
                want = layers if dim == 'n_layers' else [(('c', 0), count('n_four'))] if dim == 'n_four' else []
                # several stores raise parts
                for w in want:
                    cov['ranges'] += 1
                    got = [within(w, g) for g in extent(ix)]
                    if any(g is False for g in got) and not covered(w, [i2[k] for m2, i2, v2, A2 in raised if m2 == m]):
                        R.add('%s/%s/elements' % (F.name, m),
                              '%s() changes the input for %s but marks only %s of %s out of date' % (
                                  F.name, show(w), ' or '.join(show(g) for g in extent(ix)), m), where(A.F, A.I))
                    elif any(g is None for g in got):
                        cov['ranges_not_decided'].append('%s/%s' % (F.name, m))


def covered(w, ixs):
    """is w inside the range of one of the stores, or in consecutive ones?"""
    gs = [extent(i) for i in ixs]
    if any(all(within(w, g) is True for g in x) for x in gs):
        return True
    cur = w[0]
    for _ in gs:
        for x in gs:
            if len(x) == 1 and diff(cur, x[0][0]) is not None and diff(cur, x[0][0]) >= 0 and diff(x[0][1], cur) != 0:
                cur = x[0][1]
                if diff(cur, w[1]) is not None and diff(cur, w[1]) >= 0:
                    return True
    return False


def show(g):
    return '[%s, %s)' % (sym.show(g[0]), sym.show(g[1]))


def run(R, tier):
    P = prog('src', 'misc')
    fields = None
    for M in P.modules.values():
        if S in M.fields:
            fields = M.fields[S]
            break
    if not fields:
        raise AnalysisError('struct xrtm_data not found')
    track = {f for f in fields if f.startswith('dep_flags')}
    if len(track) < 8:
        raise AnalysisError('only %d dirty flags found' % len(track))
    sol = P.need('xrtm_solution')
    setters = [f for f in P.functions() if f.name.startswith('xrtm_set_') and f.module == sol.module
               and f.params and f.ptypes[0] == 'ptr']
    if len(setters) < 40:
        raise AnalysisError('only %d setters found' % len(setters))
    _G.update(P=P, E=enums(P), solver_arg=[i for i, t in enumerate(sol.ptypes) if t != 'ptr'][0], track=track, setters=setters,
              compared={f: compared(P, f, fields) for f in setters})
    n = 64 if tier == 'quick' else 640
    cs, left = covering(n)
    cs += kept_all()
    n = len(cs)
    for c in cs:
        const_config(c)
    seen = {}
    nob = ne = 0
    masks, cleared = {}, set()
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for c, res, k, e, mk, st in pool.imap_unordered(one, cs):
            cleared |= st
            nob += k
            ne += e
            for r, m in mk.items():
                masks[r] = masks.get(r, 0) | m
            for fn, fld, w, site in res:
                seen.setdefault((fn, fld), [w, site, []])[2].append(c)
    for (fn, fld), (w, site, l) in sorted(seen.items()):
        F = P.need(fn)
        R.add('%s/%s' % (fn, fld),
              '%s() changes what %s is computed from, but the next solution keeps the old %s (in %d of %d configurations, as %s)'
              % (fn, fld, fld, len(l), n, ' '.join('%s=%s' % kv for kv in sorted(min(l, key=str).items()))), where(F), fields=w)
    cov = {}
    elements(R, P, setters, track, masks, cov)
    clears(R, P, cleared, cov)

    R.instances = nob + cov['ranges'] + cov['marks_cleared']
    R.coverage = dict(configurations=n, pairs_of_levels_not_covered=left, setters=len(setters), dirty_flags=sorted(track),
                      definitions_examined=nob, edges=ne, **cov)
    R.explanation = ('An obligation is a definition, in the flow summary of a solution under one configuration, of a value kept in the '
                     'instance: for each setter, if its sources include something the setter changes, some definition of it must be enabled '
                     'by the dirty bits the setter always raises; and for each pair of adding solvers, by the bits raised on the change of solver.')
    R.assumptions = ['one configuration of options and one solver per obligation; covering set of configurations, not all of them',
                     'in the flow summaries the elements of one member are not distinguished; the layers and Fourier orders a setter marks are compared separately with those it changes',
                     'with SFI the angles set by xrtm_set_out_thetas() are taken as the member umus, not as the quadrature angles they are kept behind',
                     'values kept in the save tree belong to one solution and are not kept between solutions']
