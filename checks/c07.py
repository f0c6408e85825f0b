"""C07: a simulation never runs on inputs that were not set.

Every input has a flag that its set functions raise.  From the source follow the pairs of flag and
members (from the set functions), the condition over options, solvers and counts under which a call
that computes something reads a member, and the condition under which it gets that far although the
flag is down: the latter must be impossible.  The mark that stops the checking for good may only be
written where all flags that any calculation needs are up.
"""
import sys
import cond, uses, irlib, sym, defs, lin
from irlib import AnalysisError
from common import prog, where, public_api
from checks import c05, c06, c08, c09

LEVEL = 'other'
FLAG = 'set_flags_'
MARK = '.inputs_initialized'
OPTS = ('P0', '.options'), ('P0', '.solvers')
READY = ('pos', ('P0', '.ready'))


def flagname(p):
    """member name of a path through a flag member of the instance"""
    if p[0] == 'P0' and len(p) > 1 and isinstance(p[1], str) and p[1].startswith('.' + FLAG):
        return p[1]
    return None


PURE = frozenset(('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem', 'fptosi', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'select', 'fcmp', 'icmp',
                  'add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'))
MATH = frozenset('@' + x for x in 'sqrt exp log log10 sin cos tan asin acos atan atan2 fabs pow sinh cosh tanh fmax fmin floor ceil'.split())


def pure(I):
    n = I.x['callee']
    return isinstance(n, str) and (n in MATH or n.startswith(('@llvm.fabs', '@llvm.fmuladd', '@llvm.sqrt', '@llvm.exp', '@llvm.pow')))


def selector(k):
    """the type of an element"""
    return k[0] == 'cmp' and k[1] == 'eq' and k[3][0] == 'c' and k[2][0] == 'v' and k[2][1][0] == 'P0' and '[]' in k[2][1]


class Ready(uses.Uses):
    """summaries with the members of the instance that are read and written"""

    def __init__(self, P, bdd=None, guards=()):
        uses.Uses.__init__(self, P, bdd)
        self.latches = {}
        for G in guards:
            S = self.sums[G] = uses.Sum()
            S.z = self.b.var(READY)
            S.nz = self.b.not_(S.z)
            S.ret = [(1, ('u', 'ready'))]

    def summary(self, F):
        if F in self.sums:
            return self.sums[F]
        S = self.sums[F] = uses.Sum()
        self.nfun += 1
        n = 0
        latch = {}
        while True:
            U = ReadyFun(self, F, latch)
            S = U.summarise()
            n += 1
            if U.newlatch == latch or n > 3:
                break
            latch = U.newlatch
        self.sums[F] = S
        self.latches[F] = (latch, U)
        return S


class ReadyFun(uses.FunUses):
    def __init__(self, C, F, latch=None, va=None):
        uses.FunUses.__init__(self, C, F, va)
        self.latch = latch or {}
        self.newlatch = {}
        self.later = []
        self.dem = {}
        self.F0 = {'P%d' % k for k, t in enumerate(F.ptypes) if t != 'ptr'}

    def access(self, kind, v, I, c, W=None):
        for c2, x in self.alts(v):
            if x[0] != 'ptr' or not x[1][0].startswith('P') or len(x[1]) < 2 and x[1][0] not in self.F0:
                continue
            p = x[1]
            if sum(1 for t in p if t == '*') > self.C.maxstars:
                continue
            p = (kind,) + p
            c3 = self.b.and_(c, c2)
            if c3 == 0:
                continue
            self.S.derefs[p] = self.b.or_(self.S.derefs.get(p, 0), c3)
            self.S.where.setdefault(p, []).append((c3, self.F, I, W))

    def deref(self, v, I, c=None, W=None):
        c = self.cur if c is None else c
        if W is not None:
            self.access(W[1][0], v, I, c, W)
        elif I.op == 'store':
            self.access('w', v, I, c)
        elif I.op != 'load':
            self.access('r', v, I, c)

    def call(self, I):
        n = I.x['callee']
        if isinstance(n, str) and n.startswith('@llvm.mem') or n in ('@memcpy', '@memset', '@memmove'):
            self.access('w', self.v(I.a[0]), I, self.cur)
            if 'set' not in n:
                self.access('r', self.v(I.a[1]), I, self.cur)
            return
        uses.FunUses.call(self, I)
        G = self.P.resolve(self.F, n) if isinstance(n, str) else None
        if G is None:
            if pure(I) and I.res:
                self.later.append((I, self.cur))
            elif not (isinstance(n, str) and n.startswith('@llvm.dbg')):
                self.used(I)
            return
        # what happens to the numbers given to the function
        S = self.C.summary(G)
        T = None
        for k, a in enumerate(I.a):
            p = ('r', 'P%d' % k)
            if p in S.derefs:
                v = self.v(a)
                for c, x in self.alts(v):
                    if x[0] == 'v':
                        T = T or uses.Subst(self, [self.v(y) for y in I.a])
                        c2 = self.b.and_(self.b.and_(self.cur, c), T.bdd(S.derefs[p]))
                        if c2:
                            self.access('r', ('ptr', x[1]), I, c2, (G, p))

    def used(self, I, ops=None, cur=None):
        cur = self.cur if cur is None else cur
        for a in I.a if ops is None else ops:
            if isinstance(a, str) and a.startswith('%'):
                D = self.F.defs.get(a)
                if D is not None and D.op not in ('load', 'phi', 'select', 'sext', 'zext', 'trunc') or a in self.F.params and self.F.ptypes[self.F.params.index(a)] == 'ptr':
                    continue
                for c, x in self.alts(self.v(a)):
                    if x[0] == 'v':
                        self.access('r', ('ptr', x[1]), I, self.b.and_(cur, c))

    def visit(self, I):
        if I.op == 'store' and isinstance(I.a[0], int):
            k = I.a[0] & 0xff if I.ty == 'i8' else I.a[0]
            for c2, x in self.alts(self.v(I.a[1])):
                if x[0] == 'ptr' and x[1][0].startswith('P') and len(x[1]) > 1:
                    p = (('one' if k else 'zero'),) + x[1]
                    c3 = self.b.and_(self.cur, c2)
                    self.S.derefs[p] = self.b.or_(self.S.derefs.get(p, 0), c3)
                    self.S.where.setdefault(p, []).append((c3, self.F, I, None))
        uses.FunUses.visit(self, I)
        if I.op in ('load', 'call', 'invoke', 'alloca', 'sext', 'zext', 'trunc', 'getelementptr'):
            return
        if I.op == 'phi':
            for x, p in I.x:
                if (p, I.bb) not in self.back and self.out.get(p, 0) != 0:
                    self.used(I, [x], self.edge(p, I.bb))
        elif I.op in PURE and I.res:
            self.later.append((I, self.cur))
        else:
            self.used(I)

    def demand(self, r):
        """condition under which a result of arithmetic has an effect"""
        if r in self.dem:
            return self.dem[r]
        self.dem[r] = 1
        d = 0
        for J in self.users.get(r, ()):
            c = self.out.get(J.bb, 0)
            if J.op == 'phi':
                d = self.b.or_(d, self.demand(J.res))
            elif J.op in PURE or J.op in ('sext', 'zext', 'trunc') or J.op == 'call' and J.res and pure(J):
                d = self.b.or_(d, self.b.and_(c, self.demand(J.res)))
            else:
                d = self.b.or_(d, c)
            if d == 1:
                break
        self.dem[r] = d
        return d

    # what holds at the end of every pass through a loop about flags holds for all elements when it is left
    def edge(self, p, s):
        t = self.F.blocks[p].insts[-1]
        if p in self.loopof and p not in self.headers and t.op == 'br' and t.a and t.x[0] != t.x[1] and self.out.get(p):
            f = self.formula(t.a[0])
            return self.b.and_(self.out[p], self.known(f if s == t.x[0] else self.b.not_(f)))
        r = uses.FunUses.edge(self, p, s)
        if r and p in self.headers and p in self.latch:
            L = [L for L in self.loopof.get(p, ()) if p in L and s not in L and self.isheader(p, L)]
            if L:
                t = self.F.blocks[p].insts[-1]
                f = self.first(t.a[0], p) if t.op == 'br' and t.a else None
                go = 1 if f is None else self.b.exists(f, lambda k: not self.C.keep(k))
                if f is not None and s == t.x[0]:
                    go = self.b.not_(go)
                r = self.b.and_(r, self.b.or_(self.b.not_(go), self.latch[p]))
        return r

    def alt(self, xs):
        r = uses.FunUses.alt(self, xs)
        if r[0] == 'u' and xs and all(v[0] == 'c' or v in self.opq for c, v in xs):
            nz = 0
            for c, v in xs:
                nz = self.b.or_(nz, self.b.and_(c, self.nonzero(v)))
            r = ('opq', '%s#%d' % (self.F.name, len(self.opq)))
            self.opq[r] = nz
        return r

    def isheader(self, p, L):
        return any(s == p and q in L for q, s in self.back)

    def finish(self):
        # arithmetic counts where its result has an effect
        self.users = {}
        for J in self.F.insts():
            for x in [x for x, p in J.x] if J.op == 'phi' else J.a:
                if isinstance(x, str) and x.startswith('%'):
                    self.users.setdefault(x, []).append(J)
        for I, c in self.later:
            c = self.b.and_(c, self.demand(I.res))
            if c:
                self.used(I, None, c)

    def summarise(self):
        S = uses.FunUses.summarise(self)
        b = self.b
        for h in sorted(self.headers):
            r = 0
            for q, s in self.back:
                if s == h and self.out.get(q, 0) != 0:
                    r = b.or_(r, uses.FunUses.edge(self, q, h))
            r = b.exists(r, lambda k: not self.general(k))
            if any(k[0] == 'pos' and flagname(k[1]) for k in b.support(r)):
                self.newlatch[h] = r
        return S

    def general(self, k):
        """facts that are the same in every pass"""
        if k[0] in ('pos', 'bit') and isinstance(k[1], tuple) and k[1][0][:1] == 'P':
            return '[]' not in k[1] or bool(flagname(k[1]))
        return selector(k)


def run(R, tier):
    sys.setrecursionlimit(20000)
    P = prog('src', 'misc')
    U = Ready(P)
    b = U.b
    guards = marked(P)
    z, done = 1, 1
    U1 = Ready(P, b)
    mark = ('P0', MARK)
    for G in guards:
        S = U1.summary(G)
        z = b.or_(z, S.z) if z != 1 else S.z
        c = S.derefs.get(('zero',) + mark)
        if c is None:
            raise AnalysisError('%s() no longer writes %s of its first argument' % (G.name, MARK[1:]))
        done = c if done == 1 else b.or_(done, c)
        U.sums[G] = Ready(P, b, [G]).sums[G]
    alloc, valid, atcreate, nc, ev, names = c06.prepare(P, U)
    api = [F for F in public_api(P) if F.params and F.ptypes[0] == 'ptr' and F.name not in c06.SKIP]
    sums = {F.name: U.summary(F) for F in api}
    init, rd = b.var(('pos', mark)), b.var(READY)

    def under(f):
        """{flag: condition under which f can be true although the flag is down}"""
        down = {}
        sup = b.support(f)
        for k in sup:
            if k[0] == 'pos' and flagname(k[1]):
                g = b.exists(f, lambda q: q[0] == 'pos' and flagname(q[1]) and q != k)
                g = b.and_(g, b.not_(b.var(k)))
                down[k[1]] = b.exists(g, lambda q: q == k or not config(q))
        return down

    def config(q):
        return q[0] in ('pos', 'bit') and isinstance(q[1], tuple) and q[1][0] == 'P0' and '[]' not in q[1] or selector(q)

    def member(q):
        if q[0] in ('pos', 'bit') and q[1] in names:
            return b.var((q[0], names[q[1]]) + q[2:])
        if q[0] in ('pos', 'bit') and isinstance(q[1], tuple) and q[1][0] == 'P0' and len(q[1]) > 1:
            return b.var(q)
        return None

    # the mark is only written when everything that is asked for is there
    zc, dc = under(z), under(done)
    nflags = 0
    for f in sorted(zc):
        nflags += 1
        bad = b.and_(dc.get(f, b.exists(done, lambda q: not config(q))), b.not_(zc[f]))
        if bad:
            R.add('mark:%s' % f[1], 'the inputs are marked as complete although %s can be zero, when %s' % (f[1][1:], c09.show(b, bad)), where(guards[0]))
    # an input that the configuration accepts is one that is asked for
    acc = {}
    for F in api:
        for p, c in sums[F.name].derefs.items():
            if p[0] == 'one' and flagname(p[1:]) in [x[1] for x in zc]:
                acc[p[1:]] = b.or_(acc.get(p[1:], 0), b.exists(b.and_(c, init), lambda q: not config(q) or q == ('pos', mark)))
    for f, c in sorted(acc.items()):
        g = [x for x in zc if x[1] == f[1]]
        bad = b.and_(b.and_(c, zc[g[0]]), valid) if g else 0
        if bad and b.and_(valid, b.not_(c)):
            R.add('asked:%s' % f[1], 'the set function accepts the input of %s, but the check does not ask for it, when %s' % (f[1][1:], model(b, bad)), where(guards[0]))
    # pairs of flag and member from the set functions
    sets, writers = {}, {}
    nset = 0
    for F in api:
        D = sums[F.name].derefs
        fl = frozenset(p[1:] for p in D if p[0] == 'one' and flagname(p[1:]))
        if not fl:
            continue
        nset += 1
        for p, c in D.items():
            if p[0] == 'w' and p[1] == 'P0' and not p[2].startswith(('.dep_', '.' + FLAG)) and p[2] != MARK and p[1:3] not in atcreate:
                writers.setdefault(p[1:], {})[F.name] = fl
    pairs = {}
    shared = set()
    for m, w in sorted(writers.items()):
        fl = frozenset.intersection(*w.values())
        if fl:
            pairs[m] = sorted(fl)
        else:
            shared.add(m)
    S = U.summary(P.need('xrtm_create_misc'))
    up = {k[1]: b.var(('pos', q)) for k in b.support(S.z) if k[0] == 'pos' for q in [names.get(k[1], k[1] if k[1][0] == 'P0' and len(k[1]) == 2 and k[1] in atcreate else None)] if q}
    c = b.exists(S.z, lambda q: q[0] != 'pos' or q[1] not in up)
    valid = b.and_(valid, c09.rename(b, c, lambda q: up.get(q[1])))
    # members that have values from the creation on, at least some of their elements
    made = {p[1:]: c for p, c in U.summary(P.need('xrtm_create_misc')).derefs.items() if p[0] == 'w' and p[1] == 'P0' and len(p) > 2}
    partly = sorted(c09.text(m) for m in pairs if m in made)
    for m in list(pairs):       # the storage of a member is there from the creation on
        if any(m == q[:len(m)] and len(q) > len(m) for q in pairs) or m + ('*',) in alloc:
            del pairs[m]
    if len(pairs) < 15 or nflags < 12:
        raise AnalysisError('only %d inputs and %d flags found' % (len(pairs), nflags))
    ncell, returned = indexes(R, P, alloc, guards)
    nread, seen = 0, set()
    for F in api:
        S = sums[F.name]
        D = S.derefs
        own = {p[1:] for p in D if p[0] == 'one' and flagname(p[1:])}
        okk = valid
        for q in sorted(U.solverargs.get(F, ())):
            okk = b.and_(okk, c06.onehot(b, q))
        for m, fl in sorted(pairs.items()):
            p = ('r',) + m
            if p not in D or own & set(fl) or F.name in returned and m[1] not in returned[F.name]:
                continue
            nread += 1
            wr = b.exists(D.get(('w',) + m, 0), lambda q: q[0] != 'bit' or q[1] not in OPTS)      # computed from other inputs
            wr = b.or_(wr, c09.rename(b, b.exists(made.get(m, 0), lambda q: q[0] != 'bit' or not member(q)), lambda q: member(q)))
            for f in fl:
                up = b.var(('pos', f))
                c = b.exists(b.and_(b.and_(D[p], init), b.not_(up)), lambda q: not config(q) and (q[0] not in ('pos', 'bit') or not isinstance(q[1], tuple) or q[1][0][:1] != 'P'))
                c = b.and_(b.and_(c, okk), b.not_(wr))
                bad = b.and_(c, b.not_(rd))
                if bad == 0:
                    bad = b.and_(b.exists(c, lambda q: not config(q)), zc.get(f, 1))
                    why = 'that check lets it pass'
                else:
                    why = 'without a check before'
                if bad:
                    key = '%s:%s' % (f[1], c09.text(m))
                    if key in seen:
                        continue
                    seen.add(key)
                    chain = blame(U, S, p, b, b.and_(b.and_(init, b.not_(up)), b.and_(b.and_(okk, b.not_(wr)), bad)))
                    R.add(key, '%s() uses %s (%s) although %s can be zero, %s, when %s' % (
                        F.name, c09.text(m), ' <- '.join(x[0].name + '()' for x in chain[:4]), f[1][1:], why,
                        model(b, bad)), where(chain[0][0], chain[0][1]))
    R.coverage = {'set functions with a flag': nset, 'inputs (member, flag)': {c09.text(m): [c09.text(f) for f in fl] for m, fl in sorted(pairs.items())},
                  'members with some values from the creation': partly, 'members without a flag of their own': sorted(c09.text(m) for m in shared), 'flags the check asks for': nflags,
                  'reads compared (function x input)': nread, 'indexes of flags compared': ncell, 'public functions': len(api),
                  'functions summarised': len(U.sums)}
    R.instances = nread + ncell
    R.explanation = 'condition of every use of an input, over all calls below a public function, against the condition under which the completeness check passes with its flag down'
    R.assumptions = ['a call of xrtm_solution() and the like names one solver', 'derivatives have values from the creation on',
                     'xrtm_solution_2(), xrtm_radiance_2() and the undocumented reverse mode are excluded',
                     'members are followed over two pointer levels; deeper ones are covered by the flag of the first levels']


def model(b, f):
    e = b.one(f)
    return ', '.join(sorted('%s bit %d' % (k[1][1][1:], k[2]) for k, v in e.items() if v and k[0] == 'bit' and k[1][0] == 'P0' and k[1][1] in ('.options', '.solvers'))
                     + sorted('no %s' % k[1][1][1:] for k, v in e.items() if not v and k[0] == 'pos' and k[1][0] == 'P0' and len(k[1]) == 2 and not flagname(k[1])))


def blame(U, S, p, b, bad):
    """the use that is responsible: [(function, instruction), ...] innermost first"""
    out = []
    while True:
        for c, F, I, W in S.where[p]:
            if out or b.and_(c, bad):
                break
        out.insert(0, (F, I))
        if W is None or len(out) > 20:
            return out
        S, p = U.sums[W[0]], W[1]


def indexes(R, P, alloc, guards):
    """the flag that is raised or asked for is the one of the element that is set or returned"""
    api, mods, S = c05.make(P)
    subs = {s.name: s for s in defs.load('xrtm') if s.kind == 'general'}
    n = 0

    class Quiet(object):
        def add(self, *a, **k):
            pass
    cov = dict(getters=0, setters=0, cells=0, undecided=[], without_set=[])
    cells, flags = {}, {}
    for nm, s in sorted(subs.items()):
        if nm.startswith('get_'):
            F = P.get(s.full)
            if F is None:
                raise AnalysisError('anchor vanished: function %s' % s.full)
            g = c08.getter(Quiet(), S, F, s, cov)
            if g:
                cells[nm[4:]] = (F, g)
            for A in S.accesses(F):
                if A.kind != 'load':
                    continue
                c = c08.chain(A.addr)
                if c is None or c[0] != ('p', 0) or not c[1] or not c[1][-1][1].startswith(FLAG):
                    continue
                if len(c[2]) < dims_of(c[1][-1][1], alloc):
                    continue
                flags.setdefault(nm[4:], set()).add(c[1][-1][1])
                n += 1
                for mem, idx, tr, out, facts in g or []:
                    want = [x[1] for x in idx if isinstance(x[0], str)][:len(c[2])]
                    got = [c08.decompose(i) for i in c[2]]
                    if [c08.decompose(i) for i in want] != got:
                        R.add('get-index:%s' % F.name, '%s() asks %s[%s] before it returns %s[%s]' % (
                            F.name, c[1][-1][1], ', '.join(c08.show(i) for i in c[2]), mem[-1][1], ', '.join(c08.show(i) for i in want)), where(A.F, A.I))
    for G in guards:
        n += sweeps(R, S, G)
    for nm, s in sorted(subs.items()):
        if not nm.startswith('set_'):
            continue
        base = nm[4:] if nm[4:] in cells else c08.SUFFIX.sub('', nm[4:])
        F = P.get(s.full)
        if F is None or base not in cells:
            continue
        st, opaque = c08.stores(S, F)
        fl = [(c08.chain(a), v, A) for a, v, A in st]
        fl = [(c, v, A) for c, v, A in fl if c and c[0] == ('p', 0) and c[1] and c[1][-1][1].startswith(FLAG)]
        mems = {g[0] for g in cells[base][1]}
        vals = [(c08.chain(a), v, A) for a, v, A in st]
        vals = [(c, v, A) for c, v, A in vals if c and c[0] == ('p', 0) and c[1] in mems]
        if flags.get(base) and not fl and not opaque:
            R.add('no-flag:%s' % F.name, '%s() does not raise the flag that %s() asks for' % (F.name, cells[base][0].name), where(F))
        succ = c08.success(S, F)
        common = [f for f in succ[0] if all(f in g for g in succ)] if succ else []
        for c, v, A in fl:
            n += 1
            if v[0] == 'c' and v[1] == 0:
                R.add('lowered:%s' % F.name, '%s() marks its input as not set' % F.name, where(A.F, A.I))
                continue
            if flags.get(base) and c[1][-1][1] not in flags[base]:
                R.add('flag:%s' % F.name, '%s() raises %s, but %s() asks for %s' % (F.name, c[1][-1][1], cells[base][0].name, ', '.join(sorted(flags[base]))), where(A.F, A.I))
                continue
            if not vals:
                continue
            got = [c08.decompose(i) for i in c[2]]
            rg = {}
            for i in c[2]:
                c08.ranges(i, rg)
            hit = False
            for vc, vv, VA in vals:
                vr = {}
                for i in vc[2]:
                    c08.ranges(i, vr)
                if len(vc[2]) >= len(c[2]) and all(same(x, y) for x, y in zip(c[2], vc[2])):
                    hit = True
                    for f in VA.facts:
                        if f in common and f not in A.facts and "'%s'" % A.F.name not in str(f) and not mentions(f, set(rg) | set(vr)):
                            R.add('early:%s' % F.name, '%s() raises %s before it has made sure that %s' % (F.name, c[1][-1][1], fact(f)), where(A.F, A.I))
            if not hit:
                R.add('set-index:%s' % F.name, '%s() stores %s[%s] but raises %s[%s]' % (
                    F.name, vals[0][0][1][-1][1], ', '.join(c08.show(i) for i in vals[0][0][2]), c[1][-1][1], ', '.join(c08.show(i) for i in c[2])), where(A.F, A.I))
            # raised on every way to success
            if len(fl) == 1:
                for g in succ:
                    for f in A.facts:
                        if f not in g and not mentions(f, set(rg)) and MARK[1:] not in str(f) and not loopfact(f) and 'cmp' == f[0]:
                            R.add('late:%s' % F.name, '%s() raises %s only if %s' % (F.name, c[1][-1][1], fact(f)), where(A.F, A.I))
    return n, {F.name: {'.' + x[0][-1][1] for x in g} for F, g in cells.values()}


def sweeps(R, S, G):
    """the loops of the check go over all elements"""
    n, dims = 0, {}
    for A in S.accesses(G):
        c = c08.chain(A.addr) if A.kind == 'load' else None
        if c and c[0] == ('p', 0) and c[1] and c[1][-1][1].startswith(FLAG):
            for k, i in enumerate(c[2]):
                r = {}
                c08.ranges(i, r)
                ids, base = c08.decompose(i)
                ok, w = True, None
                if len(ids) == 1 and ids[0] in r:
                    q = r[ids[0]]
                    lo, hi = base, lin.add(lin.add(base, lin.lin(q[1]), -1), lin.lin(q[2]))
                    ok = lo[0] == 0 and hi[0] == 0
                    w = c08.show(i)
                n += 1
                dims.setdefault((c[1][-1][1], k), []).append((ok, w, A))
    for (f, k), xs in sorted(dims.items(), key=lambda x: x[0]):
        if not any(ok for ok, w, A in xs):
            R.add('part:%s' % f, 'only the elements %s of %s are looked at' % (xs[0][1], f), where(xs[0][2].F, xs[0][2].I))
    return n


def dims_of(name, alloc):
    d = 0
    for p in alloc:
        if p[:2] == ('P0', '.' + name):
            d = max(d, sum(1 for t in p if t == '*'))
    return d


def same(x, y):
    """the same index, or loops over the same range"""
    if c08.decompose(x) == c08.decompose(y):
        return True
    a, c = {}, {}
    c08.ranges(x, a)
    c08.ranges(y, c)
    if len(a) == 1 and len(c) == 1:
        (i, r), = a.items()
        (j, q), = c.items()
        return lin.lin(r[1]) == lin.lin(q[1]) and lin.lin(r[2]) == lin.lin(q[2]) and c08.decompose(x)[1] == c08.decompose(y)[1]
    return False


def mentions(f, ids):
    r = {}
    c08.ranges(f, r)
    return any(i in ids for i in r)


def loopfact(f):
    r = {}
    c08.ranges(f, r)
    return bool(r) or 'phi' in str(f)


def fact(f):
    if f[0] == 'cmp':
        return '%s %s %s' % (sym.show(f[2]), {'eq': '==', 'ne': '!=', 'slt': '<', 'sge': '>=', 'sgt': '>', 'sle': '<='}.get(f[1], f[1]), sym.show(f[3]))
    return sym.show(f)


def marked(P):
    """the functions that write the mark for good"""
    out = []
    for F in P.functions():
        for I in F.insts():
            if I.op != 'store' or I.a[0] != 0 or not isinstance(I.a[1], str):
                continue
            D = F.defs.get(I.a[1])
            if D is not None and D.op == 'getelementptr' and 'xrtm_data' in D.ty and len(D.a) == 3:
                f = P.fields_of(F, D.ty)
                if f and '.' + f[D.a[2]] == MARK:
                    out.append(F)
                    break
    if not out:
        raise AnalysisError('anchor vanished: no function writes %s' % MARK[1:])
    return out
