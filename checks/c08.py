"""C08: what is set is what is read back.

For every get function of the interface description the location it reads (member of the
instance, indexes) is expressed over its parameters.  Every set function of the same input
must, on every path to success, store the caller's value into the same member: an index
argument must select the dimension that the get function selects with the argument of the
same role, the other dimensions must be covered completely, and the element of the
caller's array must be the one for the same position in every dimension.  A set function
must not store into a member that the get function of another input reads.
"""
import re
import irlib, sym, lin, defs
from common import prog, where
from irlib import AnalysisError
from lin import canon
from sym import show, show_addr
import checks.c05 as c05

LEVEL = 'other'
SUFFIX = re.compile(r'_(1|n|11|1n|n1|nn)$')


def decompose(e):
    """(loop ids, base linear form): value of e = base + sum of the 0-based loop positions"""
    k = e[0]
    if k == 'rng':
        return ((e[3],), lin.lin(e[1]))
    if k == 'rel' and e[1][0] == 'rng':
        return ((e[1][3],), (0, ()))
    if k == '+':
        i, b = decompose(e[1])
        return (i, lin.add(b, (e[2], ())))
    if k == 'bin' and e[1] == 'add':
        i, b = decompose(e[2])
        j, c = decompose(e[3])
        return (i + j, lin.add(b, c))
    if k == 'bin' and e[1] == 'sub':
        i, b = decompose(e[2])
        j, c = decompose(e[3])
        if not j:
            return (i, lin.add(b, c, -1))
        if i == j:
            return ((), lin.add(b, c, -1))
    return ((), lin.lin(e))


def ranges(e, out):
    """{loop id: range expression}"""
    if isinstance(e, tuple):
        if e and e[0] == 'rng':
            out[e[3]] = e
        for x in e:
            if isinstance(x, tuple):
                ranges(x, out)
    return out


def chain(a):
    """address -> (root, [members], [indexes]) following pointers; root is a parameter or local"""
    idx, mem = [], []
    while True:
        if a[0] == 'el':
            idx.append(a[2])
            a = a[1]
        elif a[0] == 'fld':
            mem.append((a[2], a[3]))
            a = a[1]
        elif a[0] == 'ld':
            a = a[1]
        elif a[0] in ('phi', 'sel'):
            alts = [x for x in (a[3] if a[0] == 'phi' else a[2:4]) if x[0] != 'null']
            if len(alts) != 1:
                return None
            a = alts[0]
        elif a[0] in ('p', 'loc'):
            return (a, tuple(mem[::-1]), idx[::-1])
        else:
            return None


def value_form(v):
    """(transformation, inner load or parameter)"""
    t = []
    while True:
        if v[0] in ('ld', 'p', 'c', 'cf'):
            return (tuple(t), v)
        if v[0] == 'call' and len(v[2]) >= 1:
            if v[1] == 'singularity_adjust_down' and len(v[2]) > 1:
                t.append('adjust')
                v = v[2][1]
                continue
            t.append(v[1])
            v = v[2][0]
            continue
        if v[0] == 'bin' and v[1] in ('fmul', 'fdiv') and v[3][0] == 'cf':
            t.append((v[1], v[3][1]))
            v = v[2]
            continue
        if v[0] == 'bin' and v[1] == 'fmul' and v[2][0] == 'cf':
            t.append((v[1], v[2][1]))
            v = v[3]
            continue
        return None


def fval(x):
    try:
        if isinstance(x, str) and x.startswith('0x'):
            import struct
            return struct.unpack('>d', bytes.fromhex(x[2:]))[0]
        return float(x)
    except (ValueError, TypeError):
        return None


def inverse(a, b):
    """is transformation b (get) the inverse of a (set)?"""
    a = tuple(x for x in a if x != 'adjust')
    b = tuple(x for x in b if x != 'adjust')
    if not a and not b:
        return True
    # set: cos(x * k1); get: acos(y) * k2, k1 k2 = 1
    try:
        f, (op1, k1) = a
        (op2, k2), g = b
        k1, k2 = fval(k1), fval(k2)
    except (ValueError, TypeError):
        return False
    if k1 is None or k2 is None:
        return False
    if op1 == 'fdiv':
        k1 = 1 / k1
    if op2 == 'fdiv':
        k2 = 1 / k2
    return (f, g) in (('cos', 'acos'), ('sin', 'asin'), ('exp', 'log')) and abs(k1 * k2 - 1) < 1e-9


def stores(S, F):
    """[(addr, val, access)] of the stores and block copies of F, and whether all were understood"""
    out, opaque = [], []
    for A in S.accesses(F):
        if A.kind == 'store':
            out.append((A.addr, A.val, A))
            if chain(A.addr) is None:
                opaque.append(A)
        elif A.kind == 'call':
            if A.name and re.match(r'(llvm\.)?mem(cpy|move)', A.name):
                n = A.val[2]
                dst, src = A.val[0], A.val[1]
                q = size8(n)
                if q is not None:
                    r = ('rng', ('c', 0), q, (A.F.name, id(A.I)))
                    out.append((('el', dst, r), ('ld', ('el', src, r)), A))
                else:
                    opaque.append(A)
    return out, opaque


def size8(n):
    if n[0] == 'bin' and n[1] == 'mul':
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            if b[0] == 'c' and b[1] in (4, 8):
                return a
    if n[0] == 'bin' and n[1] == 'shl' and n[3][0] == 'c' and n[3][1] in (2, 3):
        return n[2]
    return None


def loc_params(stores_):
    """{local: parameter} for scalar parameters whose address is passed on"""
    m = {}
    for a, v, A in stores_:
        if a[0] == 'loc' and v[0] == 'p':
            m[a] = v
    return m


def run(R, tier):
    P = prog('src', 'misc')
    api, mods, S = c05.make(P)
    dims = c05.dimensions(P, S)
    R.explanation = ('locations read by every get function and stored by every set function of the same input, '
                     'over their parameters with helpers expanded; compared dimension by dimension')
    R.assumptions = ['clang IR after mem2reg represents the source',
                     'the interface description files name the roles of the index arguments',
                     'loops are counting loops; other loops are reported as not decided']
    cov = dict(getters=0, setters=0, cells=0, undecided=[], without_set=[], files=sorted({F.module.split('/')[-1] for F in api}))
    for which in ('xrtm', 'xrtm_fd'):
        subs = {s.name: s for s in defs.load(which) if s.kind == 'general'}
        getters = {}
        reads = {}          # member chain -> input
        for nm, s in sorted(subs.items()):
            if not nm.startswith('get_'):
                continue
            F = P.get(s.full)
            if F is None:
                raise AnalysisError('anchor vanished: function %s' % s.full)
            g = getter(R, S, F, s, cov)
            if g is None:
                continue
            getters[nm[4:]] = (s, F, g)
            for (mem, idx, tr, out, facts) in g:
                reads.setdefault(mem, set()).add(nm[4:])
        for nm, s in sorted(subs.items()):
            if not nm.startswith('set_'):
                continue
            x = nm[4:]
            base = x if x in getters else SUFFIX.sub('', x)
            F = P.get(s.full)
            if F is None:
                raise AnalysisError('anchor vanished: function %s' % s.full)
            if base not in getters:
                raise AnalysisError('no get function found for %s' % s.full)
            own = {base}
            if any(a.name == 'n_coef_layer' for a in s.args):
                own.add('n_coef')
            cov['setters'] += 1
            setter(R, P, S, F, s, getters, base, own, reads, dims, cov)
        for b in getters:
            if not any(n.startswith('set_') and (n[4:] == b or SUFFIX.sub('', n[4:]) == b) for n in subs) and b != 'n_coef':
                cov['without_set'].append(which + '_get_' + b)
        creation(R, S, P, which, getters, cov)
    R.instances = cov['cells']
    R.coverage = cov


def creation(R, S, P, which, getters, cov):
    """sizes and lists given at creation are the ones returned"""
    cs = [s for s in defs.load(which) if s.kind == 'init'][0]
    F = P.need(cs.full)
    st, opaque = stores(S, F)
    for n, a in enumerate(cs.args):
        t = a.name[:-1] if a.name == 'kernels' else a.name
        if t not in getters:
            continue
        gs, GF, cells = getters[t]
        for mem, gidx, gtr, gout, gfacts in cells:
            cov['cells'] += 1
            good = 0
            for ad, v, A in st:
                c = chain(ad)
                if c is None or c[0] != ('p', 0) or c[1] != mem or len(c[2]) != len(gidx):
                    continue
                src = chain(v[1]) if v[0] == 'ld' else None
                if v == ('p', n + 1):
                    good += 1
                elif src is not None and src[0] == ('p', n + 1) and not src[1] and [decompose(i) for i in src[2]] == [decompose(i) for i in c[2]]:
                    good += 1
                elif v[0] == 'bin' and v[1] == 'or' and ('ld', ad) in v[2:]:
                    pass            # defaults added to the options
                elif v == ('c', 0) and len([f for f in A.facts]) > 1 and t == 'n_derivs':
                    pass            # no derivatives without the option
                else:
                    R.add('create:%s' % t, '%s() stores %s in %s, which %s() returns for %s' % (F.name, show(v), mem[-1][1], GF.name, a.name), where(A.F, A.I))
            if not good and not opaque:
                R.add('create-unset:%s' % t, '%s() does not store %s in %s, which %s() returns' % (F.name, a.name, mem[-1][1], GF.name), where(F))


def roles(s):
    """{parameter position: role} of the index arguments (parameter 0 is the instance)"""
    return {n + 1: a.name for n, a in enumerate(s.args) if a.rank == 0 and a.type == 'int' and a.name.startswith('i_')}


def getter(R, S, F, s, cov):
    """[(members, [index roles], transformation, output parameter, facts)]"""
    out = []
    ro = roles(s)
    cells = []
    for v, facts in S.returns(F):
        if v[0] in ('cf', 'c', 'null'):
            continue
        cells.append((v, facts, None, []))
    if not cells:
        st, opaque = stores(S, F)
        for a, v, A in st:
            c = chain(a)
            if c and c[0][0] == 'p' and c[0][1] > 0 and not c[1]:
                cells.append((v, A.facts, c[0][1], c[2]))
    for v, facts, outp, oidx in cells:
        f = value_form(v)
        if f is None or f[1][0] != 'ld':
            cov['undecided'].append('%s(): result %s' % (F.name, show(v)))
            continue
        c = chain(f[1][1])
        if c is None or c[0] != ('p', 0) or not c[1]:
            cov['undecided'].append('%s(): result %s' % (F.name, show(v)))
            continue
        oids = [decompose(i) for i in oidx]
        idx = []
        for n, i in enumerate(c[2]):
            ids, b = decompose(i)
            if not ids:
                p = [k for k in ro if b == lin.lin(('p', k))]
                if p:
                    idx.append((ro[p[0]], ('p', p[0])))
                else:
                    idx.append((None, i))
            else:
                hit = [m for m, o in enumerate(oids) if o[0] == ids]
                if len(hit) == 1 and oids[hit[0]][1] == (0, ()):
                    idx.append((('out', hit[0]), (i, b)))
                else:
                    R.add('element:%s' % F.name, '%s() returns element %s in place %s of the array' % (F.name, show(i), ', '.join(show(q) for q in oidx)), where(F))
                    idx.append((('out', None), (i, b)))
        used = [x[0] for x in idx if isinstance(x[0], str)]
        for k, r in sorted(ro.items()):
            if r not in used:
                R.add('unused:%s:%s' % (F.name, r), '%s() does not use %s to select the value %s' % (F.name, r, show(v)), where(F))
            elif used.count(r) > 1:
                R.add('twice:%s:%s' % (F.name, r), '%s() uses %s for two dimensions of %s' % (F.name, r, show(v)), where(F))
        # output arguments that must come in order
        out.append((c[1], idx, f[0], outp, facts))
    if not out:
        if not [u for u in cov['undecided'] if u.startswith(F.name + '()')]:
            R.add('nothing:%s' % F.name, '%s() does not return a value of the instance' % F.name, where(F))
        return None
    cov['getters'] += 1
    return out


def wild(x):
    """canonical expression with indexes removed"""
    if isinstance(x, tuple):
        if x and x[0] == 'el':
            return ('el', wild(x[1]))
        return tuple(wild(y) for y in x)
    return x


def bounds_in_facts(facts, k):
    """canonical upper bounds of parameter k among facts"""
    out = []
    for f in facts:
        if f[0] != 'cmp':
            continue
        if f[2] == ('p', k) and f[1] == 'slt':
            out.append(canon(f[3]))
        elif f[3] == ('p', k) and f[1] == 'sgt':
            out.append(canon(f[2]))
        elif f[2] == ('p', k) and f[1] == 'sle':
            out.append(canon(sym.addc(f[3], ('c', 1))))
    return out


def success(S, F):
    """facts of the returns that signal success"""
    return [fs for v, fs in S.returns(F) if not (v[0] == 'c' and v[1] != 0)]


def setter(R, P, S, F, s, getters, base, own, reads, dims, cov):
    ro = roles(s)
    st, opaque = stores(S, F)
    locs = loc_params(st)
    targets = [base] + (['n_coef'] if 'n_coef' in own and 'n_coef' in getters else [])
    succ = success(S, F)
    if not succ:
        R.add('fails:%s' % F.name, '%s() never reports success' % F.name, where(F))
    mine = set()
    for t in targets:
        gs, GF, cells = getters[t]
        scalars = [n + 1 for n, a in enumerate(s.args) if not (n + 1 in ro)]
        for ci, (mem, gidx, gtr, gout, gfacts) in enumerate(cells):
            cov['cells'] += 1
            # the argument this value comes from
            if t == 'n_coef':
                want = [n + 1 for n, a in enumerate(s.args) if a.name == 'n_coef_layer'][0]
            elif len(cells) > 1:
                want = gout           # several outputs: same position
            else:
                want = [n + 1 for n, a in enumerate(s.args) if n + 1 not in ro and a.name != 'n_coef_layer'][-1]
            cand = []
            why = []
            for a, v, A in st:
                c = chain(a)
                if c is None or c[0] != ('p', 0) or c[1] != mem:
                    continue
                f = value_form(v)
                if f is not None and f[0] == ('adjust',) and f[1] == ('ld', a):
                    mine.add(id(A))
                    continue
                m = match(F, s, ro, c, f, v, gidx, gtr, gfacts, want, locs, dims, A, mem, GF, succ, t == 'n_coef', cov)
                if m is None:
                    cand.append(A)
                    mine.add(id(A))
                else:
                    why.append((m, A))
            for m, A in why:
                if t == 'n_coef' and cand:
                    continue        # other branch: no numbers given
                R.add('%s:%s:%s' % (m[0], F.name, mem[-1][1]), '%s(): %s' % (F.name, m[1]), where(A.F, A.I), getter=GF.name)
            if not cand and not why:
                if opaque:
                    cov['undecided'].append('%s(): stores of %s' % (F.name, mem[-1][1]))
                else:
                    R.add('unset:%s:%s' % (F.name, mem[-1][1]), '%s() does not store its argument in %s, which %s() returns' % (F.name, mem[-1][1], GF.name), where(F))
    # other inputs stay
    for a, v, A in st:
        if id(A) in mine:
            continue
        c = chain(a)
        if c is None or c[0] != ('p', 0):
            continue
        for other in sorted(reads.get(c[1], set()) - own):
            R.add('other:%s:%s' % (F.name, other), '%s() also changes %s, which %s() returns' % (F.name, show_addr(a), getters[other][1].name), where(A.F, A.I))


def match(F, s, ro, c, f, v, gidx, gtr, gfacts, want, locs, dims, A, mem, GF, succ, ncoef, cov):
    """None if the store is right, else (key, text)"""
    mems, idx = c[1], c[2]
    if f is None:
        return ('value', 'stores %s in %s, not the value given' % (show(v), mem[-1][1]))
    tr, src = f
    if not inverse(tr, gtr):
        return ('transform', 'the value stored in %s (%s) is not what %s() transforms back' % (mem[-1][1], show(v), GF.name))
    if src[0] == 'p':
        root, vidx = src, []
    elif src[0] == 'ld':
        q = chain(src[1])
        if q is None or q[1]:
            return ('value', 'stores %s in %s, not the value given' % (show(v), mem[-1][1]))
        root, vidx = q[0], q[2]
        if root in locs:
            root = locs[root]
        elif root[0] == 'loc':
            cov['undecided'].append('%s(): %s is filled from a local array' % (F.name, mem[-1][1]))
            return None
    else:
        return ('value', 'stores %s in %s, not the value given' % (show(v), mem[-1][1]))
    if root != ('p', want):
        return ('argument', 'stores argument %s in %s, which %s() returns for argument %s' % (argname(s, root), mem[-1][1], GF.name, argname(s, ('p', want))))
    if len(idx) != len(gidx):
        return ('rank', 'stores in %s with %d indexes, %s() reads with %d' % (mem[-1][1], len(idx), GF.name, len(gidx)))
    rng = ranges(('x',) + tuple(idx) + tuple(vidx), {})
    byrole = {r: k for k, r in ro.items()}
    seq = []
    for n, (i, (role, gx)) in enumerate(zip(idx, gidx)):
        ids, b = decompose(i)
        fixed = role if isinstance(role, str) and role in byrole else None
        if role is None:
            # position that does not depend on an argument
            if canon(i) != canon(gx):
                return ('index', '%s is stored at %s, %s() reads %s' % (mem[-1][1], show(i), GF.name, show(gx)))
            continue
        single = len(ids) == 1 and lin.sub(lin.lin(rng[ids[0]][2]), lin.lin(rng[ids[0]][1])) == (1, ()) if ids else False
        if fixed:
            p = lin.lin(('p', byrole[fixed]))
            if b != p or ids and not single:
                return ('index', '%s[%s] is stored at %s' % (mem[-1][1], fixed, show(i)))
            if single:
                seq.append((ids, True))
            continue
        if not ids:
            return ('range', 'only %s of dimension %d of %s is stored' % (show(i), n, mem[-1][1]))
        if len(ids) != 1:
            return ('range', 'dimension %d of %s is stored at %s' % (n, mem[-1][1], show(i)))
        r = rng[ids[0]]
        # complete range
        lo = lin.lin(r[1])
        hi = canon(r[2])
        if isinstance(role, tuple):     # the get function returns a whole dimension
            gi, gb = gx
            gr = list(ranges(gi, {}).values())
            if b != gb or not gr or canon(gr[0][2]) != hi or lin.lin(gr[0][1]) != lo:
                return ('range', 'dimension %d of %s is stored over %s, %s() reads %s' % (n, mem[-1][1], show(i), GF.name, show(gi)))
        else:
            if b != (0, ()):
                return ('range', 'dimension %d of %s is stored from %s' % (n, mem[-1][1], show(i)))
            ok = [d[n] for d in dims.get(mem[-1], []) if n < len(d)]
            ok += bounds_in_facts(gfacts, gx[1])
            if wild(hi) not in [wild(q) for q in ok]:
                return ('range', 'dimension %d of %s is stored over %s, %s() accepts indexes below %s' % (n, mem[-1][1], show(i), GF.name, ' or '.join(sorted({show_c(q) for q in ok}))))
        seq.append((ids, False))
    # element of the caller's array
    vs = []
    for i in vidx:
        ids, b = decompose(i)
        if b != (0, ()):
            return ('element', '%s takes element %s of argument %s' % (mem[-1][1], ']['.join(show(q) for q in vidx), argname(s, root)))
        vs.append(ids)
    full = [ids for ids, single in seq if not single]
    got = [ids for ids in vs if ids]
    need = list(full)
    alls = [ids for ids, single in seq]
    got2 = [g for g in got if g in need]
    if got2 != need:
        return ('element', 'position %s of %s receives element %s of argument %s' % (']['.join(show(q) for q in idx), mem[-1][1], ']['.join(show(q) for q in vidx), argname(s, root)))
    if any(g not in alls for g in got):
        return ('element', 'position %s of %s receives element %s of argument %s' % (']['.join(show(q) for q in idx), mem[-1][1], ']['.join(show(q) for q in vidx), argname(s, root)))
    # always stored
    ids = set(rng)
    for fs in succ:
        rest = []
        for f_ in A.facts:
            if f_ in fs or f_[0] != 'cmp':
                continue
            if any(x[0] == 'rng' and x[3] in ids for x in (f_[2], f_[3])) and f_[1] in ('slt', 'sgt', 'sge', 'sle', 'ne', 'ult'):
                continue
            rest.append(f_)
        if rest and not ncoef and not implied(rest, fs):
            return ('conditional', '%s is stored only if %s %s %s' % (mem[-1][1], show(rest[0][2]), rest[0][1], show(rest[0][3])))
    return None


def implied(rest, fs):
    cs = {(f[1], canon(f[2]), canon(f[3])) for f in fs if f[0] == 'cmp'}
    return all((f[1], canon(f[2]), canon(f[3])) in cs or sym.contradicts([('cmp', sym.INV.get(f[1]), f[2], f[3])]) for f in rest)


def argname(s, p):
    if p[0] == 'p' and 0 < p[1] <= len(s.args):
        return s.args[p[1] - 1].name
    return show(p)


def show_c(q):
    if q[0] == 'ld':
        return show_c(q[1])
    if q[0] == 'F':
        return q[2]
    if q[0] == 'el':
        return show_c(q[1]) + '[]'
    if q[0] == 'lin':
        return ' + '.join([show_c(x) for x, k in q[2]] + [str(q[1])])
    if q[0] == 'call':
        return q[1] + '()'
    return str(q)
