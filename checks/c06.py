"""C06: storage that the options did not allocate is never touched.

For every public function the condition (decision diagram over option bits, solver bits, counts and the
arguments) under which it follows a pointer member of the instance, itself or in anything it calls, must
imply, for every combination that the creation accepts, the condition under which xrtm_create_misc()
allocates that member."""
import collections, sys
import cond, uses, irlib
from irlib import AnalysisError
from common import prog, where, public_api
from checks import c09

LEVEL = 'other'
# creation and destruction, and the undocumented drivers of the reverse mode, which replace the options for a while
SKIP = ('xrtm_create', 'xrtm_create2', 'xrtm_create_misc', 'xrtm_destroy', 'xrtm_destroy2', 'xrtm_solution_2', 'xrtm_radiance_2')


def canon_params(C, A, ev):
    """values of the parameters of the constructor by the members that hold them"""
    m = {}
    for e in ev:
        if e.kind == 'set' and e.cls[0] == 'v' and e.path[0] == 'P0' and len(e.path) == 2 and len(e.cls[1]) == 1 and e.cond == 1:
            m.setdefault(e.cls[1], e.path)
    return m


def accepted(C, P, create, names):
    """combinations of options and counts that creation accepts, over the members of the instance"""
    U = uses.Uses(P, C.b)
    b = C.b
    r = 1
    n = 0
    for I in create.insts():
        if I.op != 'call' or not isinstance(I.x['callee'], str):
            continue
        G = P.resolve(create, I.x['callee'])
        if G is None or not G.name.startswith('xrtm_check_') or G.ret.strip() != 'i32':
            continue
        try:
            S = U.summary(G)
        except AnalysisError:
            continue
        z = S.z
        # arguments: members of the instance loaded just before
        m = {}
        for k, a in enumerate(I.a):
            D = create.defs.get(a) if isinstance(a, str) else None
            g = create.defs.get(D.a[0]) if D is not None and D.op == 'load' else None
            if g is not None and g.op == 'getelementptr' and g.ty == '%struct.xrtm_data' or g is not None and g.op == 'getelementptr' and 'xrtm_data' in g.ty:
                f = P.fields_of(create, g.ty)
                if f and len(g.a) == 3:
                    m[('P%d' % k,)] = ('P0', '.' + f[g.a[2]])

        def mp(key):
            if key[0] == 'pos':
                q = m.get(key[1])
                return b.var(('pos', q)) if q else None
            if key[0] == 'bit':
                q = m.get(key[1])
                return b.var(('bit', q, key[2])) if q else None
            return None
        z = c09.rename(b, z, mp)
        z = b.exists(z, lambda key: key[0] not in ('pos', 'bit') or key[1][0] != 'P0')
        r = b.and_(r, z)
        n += 1
    if n < 3:
        raise AnalysisError('only %d checks of the combinations in %s()' % (n, create.name))
    return r, n


def implicit(P, C, create, names, b):
    """combinations of bits that remain after the creation has added bits to its options by itself"""
    F = create
    U = cond.FunConds(C, F, [(('ptr' if t == 'ptr' else 'v'), ('P%d' % i,)) for i, t in enumerate(F.ptypes)], 1, 0, '')
    out = []
    U.run(out)
    cur = {}

    def first(path, k):
        return b.var(('bit', ('initial',) + path, k))

    def now(k):
        if k[0] == 'bit' and k[1] in names:
            k = ('bit', names[k[1]], k[2])
        elif k[0] in ('pos', 'nonnull') and k[1] in names:
            return b.var((k[0], names[k[1]]))
        if k[0] == 'bit' and k[1] in names.values():
            return cur.get((k[1], k[2]), first(k[1], k[2]))
        return None
    for x in F.order:
        for I in F.blocks[x].insts:
            if I.op != 'store' or not isinstance(I.a[0], str):
                continue
            D = F.defs.get(I.a[0])
            if D is None or D.op != 'or' or not isinstance(D.a[1], int):
                continue
            p = U.v(I.a[1])
            o = U.v(D.a[0])
            if p[0] != 'ptr' or o != ('v', p[1]) or p[1] not in names.values():
                continue
            c = c09.rename(b, U.cond.get(x, 0), now)
            for k in range(32):
                if D.a[1] >> k & 1:
                    cur[(p[1], k)] = b.or_(cur.get((p[1], k), first(p[1], k)), c)
    if len(cur) < 5:
        raise AnalysisError('only %d options set implicitly in %s()' % (len(cur), F.name))
    r = 1
    for q, k in sorted(cur):
        v = b.var(('bit', q, k))
        f = cur[(q, k)]
        r = b.and_(r, b.ite(v, f, b.not_(f)))
    # bits that do not change
    def same(key):
        if key[0] == 'bit' and key[1][:1] == ('initial',) and (key[1][1:], key[2]) not in cur:
            return b.var(('bit', key[1][1:], key[2]))
        return None
    r = c09.rename(b, r, same)
    return b.exists(r, lambda key: key[0] == 'bit' and key[1][:1] == ('initial',))


def onehot(b, q):
    """exactly one bit of q is set"""
    none, one = 1, 0
    for k in range(32):
        v = b.var(('bit', q, k))
        none, one = b.and_(none, b.not_(v)), b.or_(b.and_(one, b.not_(v)), b.and_(none, v))
    return one


def prepare(P, U):
    """(conditions of the allocated members, accepted combinations, members set at creation, checks used, events, names)"""
    create = P.need('xrtm_create_misc')
    b = U.b
    C = cond.Conds(P, b)
    ev = C.events(create)
    names = canon_params(C, create, ev)

    def member(k):
        if k[0] in ('pos', 'nonnull') and k[1] in names:
            return b.var((k[0], names[k[1]]))
        if k[0] == 'bit' and k[1] in names:
            return b.var((k[0], names[k[1]], k[2]))
        return None
    alloc, pos, full, nonnull, null = {}, {}, set(), {}, set()
    for e in ev:
        if e.path[0] != 'P0':
            continue
        c = c09.rename(b, e.cond, member)
        if e.kind == 'alloc' and uses.stars(e.path) == 1 and e.path[-1] == '*':
            alloc[e.path] = b.or_(alloc.get(e.path, 0), c)
            q = e.path[:-1]
            nonnull[q] = b.or_(nonnull.get(q, 0), c)
        elif e.kind == 'set' and e.cls[0] == 'null' and '*' not in e.path and c == 1:
            nonnull[e.path] = 0
            null.add(e.path)
        elif e.kind == 'set' and e.cls[0] == 'ptr' and '*' not in e.path and e.cls[1][-1:] == ('*',) and e.cls[1] in alloc:
            q = e.path + ('*',)       # another name of storage allocated before
            alloc[q] = b.or_(alloc.get(q, 0), b.and_(c, alloc[e.cls[1]]))
            nonnull[e.path] = b.or_(nonnull.get(e.path, 0), c)
        elif e.kind == 'set' and e.cls[0] in ('c', 'v') and '*' not in e.path:
            # counts that can only be non-zero under a condition
            f = b.var(('pos', e.path)) if e.cls[0] == 'v' else int(e.cls[1] != 0)
            pos[e.path] = b.or_(b.and_(pos.get(e.path, 0), b.not_(c)), b.and_(c, f))
            if c == 1:
                full.add(e.path)
    if len(alloc) < 100:
        raise AnalysisError('only %d members allocated' % len(alloc))
    valid, nc = accepted(C, P, create, names)
    for m in full:
        valid = b.and_(valid, b.or_(b.not_(b.var(('pos', m))), pos[m]))
    for m in null:
        valid = b.and_(valid, b.or_(b.not_(b.var(('nonnull', m + ('*',)))), nonnull[m]))
    valid = b.and_(valid, implicit(P, C, create, names, b))
    if valid == 0:
        raise AnalysisError('no combination of options is accepted')
    return alloc, valid, set(pos) | full | null, nc, ev, names


def run(R, tier):
    sys.setrecursionlimit(20000)
    P = prog('src', 'misc')
    U = uses.Uses(P)
    b = U.b
    alloc, valid, _, nc, _, _ = prepare(P, U)
    nderef = nfun = 0
    seen = set()
    for F in public_api(P):
        if F.name in SKIP or not F.params or F.ptypes[0] != 'ptr':
            continue
        S = U.summary(F)
        nfun += 1
        ok = valid
        for q in sorted(U.solverargs.get(F, ())):
            ok = b.and_(ok, onehot(b, q))
        for p, c in S.derefs.items():
            if p not in alloc:
                continue
            nderef += 1
            bad = b.and_(b.and_(c, ok), b.not_(alloc[p]))
            if bad:
                k, chain = blame(U, S, p, b, ok, alloc[p])
                key = '%s:%s' % (chain[0][0].name, c09.text(p))
                if key in seen:
                    continue
                seen.add(key)
                R.add(key, '%s is not allocated but %s() accesses it%s when %s'
                      % (c09.text(p), F.name, ' (through %s)' % ' <- '.join(x[0].name + '()' for x in chain[:4]) if chain[0][0] is not F else '',
                         c09.show(b, b.exists(bad, lambda q: q[0] not in ('pos', 'bit') or not isinstance(q[1], tuple) or q[1][0] != 'P0' or q[0] == 'bit' and q[1][1] not in ('.options', '.solvers')))),
                      where(chain[0][0], chain[0][1]))
    R.coverage = {'public functions': nfun, 'members with conditional storage': sum(1 for c in alloc.values() if c != 1), 'members': len(alloc),
                  'accesses compared (function x member)': nderef, 'functions summarised': len(U.sums), 'checks of combinations used': nc,
                  'facts': len(b.names)}
    R.instances = nderef
    R.explanation = 'condition of every access through a pointer member, over all calls below a public function, against the condition of its allocation'
    R.assumptions = ['a call of xrtm_solution() and the like names one solver',
                     'xrtm_solution_2(), xrtm_radiance_2() and other parts of the undocumented reverse mode are excluded',
                     'first pointer level of each member; the sizes of the storage are the subject of other properties',
                     'a loop over layers, levels or quadrature points is taken to have a first iteration']


def blame(U, S, p, b, valid, al):
    """the access that is responsible: [(function, instruction), ...] innermost first"""
    out = []
    while True:
        for c, F, I, W in S.where[p]:
            if b.and_(b.and_(c, valid if not out else 1), b.not_(al) if not out else 1):
                break
        out.insert(0, (F, I))
        if W is None or len(out) > 20:
            return p, out
        S, p = U.sums[W[0]], W[1]
        al = 0
