"""C09: what an instance allocates is released once, by the matching function, when it is destroyed.

For every pair of functions that acquire and release storage of one owner (create / destroy of an
instance, of a finite difference instance, the nodes of saved calculations that name their release
function) the condition under which each member is allocated is compared, as a decision diagram over
facts of the owner (option bits, solver bits, positive counts, flags), with the condition under which
it is released: equal conditions, the same class of storage, once.  Members that other calls allocate
or release in between are judged as a typestate: the flag that the release is guarded by must change
with every such event."""
import collections
import cond, irlib, own, replace
from irlib import AnalysisError
from common import prog, where, rel, public_api, fd_api, reachable

LEVEL = 'other'
CONFIG = ('.options', '.solvers')


def text(path):
    s = ''.join(path[1:] if path and path[0] == 'P0' else path)
    return s.replace('*', '').lstrip('.')


def table(evs, kind):
    t = collections.OrderedDict()
    for e in evs:
        if e.kind == kind:
            t.setdefault(e.path, []).append(e)
    return t


def union(b, evs):
    r = 0
    for e in evs:
        r = b.or_(r, e.cond)
    return r


def show(b, f):
    """one situation that satisfies f, in words"""
    out = []
    for k, v in sorted(b.one(f).items(), key=str):
        if k[0] == 'bit' and isinstance(k[1], tuple):
            out.append('%s%s bit %d' % ('' if v else 'not ', text(k[1]), k[2]))
        elif k[0] in ('pos', 'nonnull'):
            p = text(k[1])
            out.append(('%s set' if k[0] == 'pos' else '%s not null') % p if v else ('%s zero' if k[0] == 'pos' else '%s null') % p)
        else:
            out.append('%s%s' % ('' if v else 'not ', str(k)[:60]))
    out.sort(key=lambda x: (x.startswith('not '), ))
    return ', '.join(out[:10]) or 'always'


def rename(b, f, m, memo=None):
    """f with variables replaced: m(key) -> bdd or None"""
    memo = {} if memo is None else memo
    if not isinstance(f, tuple):
        return f
    if f in memo:
        return memo[f]
    lo, hi = rename(b, f[1], m, memo), rename(b, f[2], m, memo)
    v = m(b.names[f[0]])
    if v is None:
        v = b.node(f[0], 0, 1)
    r = b.ite(v, hi, lo)
    memo[f] = r
    return r


class Pair(object):
    def __init__(self, R, P, C, A, D, others=(), lazy=()):
        self.R, self.P, self.C, self.A, self.D = R, P, C, A, D
        self.b = C.b
        self.others = others      # functions called in between, on the same owner
        self.n = collections.Counter()
        self.ea = C.events(A)
        # the release function is called with the owner only: its other parameters are unrelated to those of A
        self.ed = C.events(D, [(('ptr' if t == 'ptr' else 'v'), ('%s%d' % ('Q' if i else 'P', i),)) for i, t in enumerate(D.ptypes)])

    def same(self):
        """values that the acquiring function copied from its parameters into members: same variable"""
        rep = {}
        for e in self.ea:
            if e.kind == 'set' and e.cls[0] in ('v', 'ptr') and e.path[0] == 'P0' and len(e.cls[1]) == 1 \
                    and e.cls[1][0].startswith('P') and e.cond == 1:
                rep.setdefault(e.cls[1], e.path)
                if rep[e.cls[1]] != e.path:
                    rep[e.path] = rep[e.cls[1]]
            elif e.kind == 'set' and e.cls[0] == 'ptr' and e.path[0] == 'P0' and e.cond == 1:
                # a member that holds another parameter (the simulated instance): its members by either name
                rep.setdefault(e.cls[1], e.path)
        return rep

    def canon(self, f, rep):
        def pm(p):
            if p in rep:
                return rep[p]
            for k in range(len(p) - 1, 0, -1):
                if p[:k] in rep:
                    q = rep[p[:k]]
                    return q + ('*',) + p[k:] if self.isptr(p[:k]) else q + p[k:]
            return p

        def m(k):
            if k[0] in ('pos', 'nonnull') and isinstance(k[1], tuple):
                q = pm(k[1])
                if q != k[1]:
                    return self.b.var((k[0], q))
            elif k[0] == 'bit' and isinstance(k[1], tuple):
                q = pm(k[1])
                if q != k[1]:
                    return self.b.var((k[0], q, k[2]))
            return None
        return rename(self.b, f, m)

    def isptr(self, p):
        return len(p) == 1

    def config(self, f):
        return self.b.exists(f, lambda k: not self.isconfig(k))

    def isconfig(self, k):
        if k[0] == 'bit':
            return isinstance(k[1], tuple) and k[1][-1:] and k[1][-1] in CONFIG
        return k[0] == 'pos' and isinstance(k[1], tuple) and k[1][0] == 'P0' and k in self.used

    def run(self, name):
        R, b = self.R, self.b
        rep = self.same()
        for e in self.ea + self.ed:
            if e.kind in ('alloc', 'free', 'set'):
                e.cond = self.canon(e.cond, rep)
        a, f = table(self.ea, 'alloc'), table(self.ed, 'free')
        a = collections.OrderedDict((p, x) for p, x in a.items() if p[0] == 'P0')
        f = collections.OrderedDict((p, x) for p, x in f.items() if p[0] == 'P0')
        self.used = set()
        for x in a.values():
            for e in x:
                b.support(e.cond, self.used)
        sets = table(self.ea, 'set')
        # events of the calls in between
        other = collections.OrderedDict()
        oev = {}
        self.C.limit = 2
        for G in self.others:
            ev = self.C.events(G)
            oev[G.name] = ev
            for e in ev:
                if e.kind in ('alloc', 'free') and e.path[0] == 'P0':
                    other.setdefault(e.path, []).append((G, e))
        for p, x in a.items():
            self.n['members'] += 1
            y = f.get(p, [])
            ca, cf = union(b, x), union(b, y)
            if '[]' not in p:
                self.once(name, p, x, 'allocated twice')
                self.once(name, p, y, 'released twice')
            cls = {e.cls for e in x}
            for e in y:
                if e.cls not in cls:
                    R.add('class:%s.%s' % (name, text(p)), '%s is allocated as %s (line %d) and released as %s'
                          % (text(p), '/'.join(sorted(cls)), x[0].I.line, e.cls), where(e.F, e.I))
            cf2 = self.nulls(p, cf, ca, sets)
            if cf2 == ca:
                continue
            o = [(G, e) for G, e in other.get(p, ()) if e.kind == 'free']
            lit = [k for k in b.support(cf2) if k[0] == 'pos' and k not in self.used]
            if len(lit) == 1 and cf2 == b.and_(ca, b.var(lit[0])):
                # released here only in one state of the owner: another call released it when it left the state
                self.typestate(name, p, ca, lit[0], o, x, oev)
                continue
            leak, stray = b.and_(ca, b.not_(cf2)), b.and_(cf2, b.not_(ca))
            if leak:
                R.add('leak:%s.%s' % (name, text(p)), '%s is allocated by %s() (line %d) but not released by %s() when %s'
                      % (text(p), self.A.name, x[0].I.line, self.D.name, show(b, leak)), where(x[0].F, x[0].I))
            if stray:
                R.add('stray:%s.%s' % (name, text(p)), '%s is released by %s() but was not allocated when %s'
                      % (text(p), self.D.name, show(b, stray)), where(y[0].F, y[0].I))
        self.C.limit = None
        return a, f, other, sets, oev

    def once(self, name, p, x, what):
        c = 0
        for e in x:
            t = self.b.and_(c, e.cond)
            if t:
                self.R.add('twice:%s.%s' % (name, text(p)), '%s is %s when %s' % (text(p), what, show(self.b, t)), where(e.F, e.I))
            c = self.b.or_(c, e.cond)

    def nulls(self, p, cf, ca, sets):
        """'if (p) release(p)': the test is true exactly when p was allocated, if p is null otherwise"""
        key = ('nonnull', p)
        if key not in self.b.support(cf):
            return cf
        null = union(self.b, [e for e in sets.get(p[:-1], ()) if e.cls[0] == 'null'])
        undefined = self.b.not_(self.b.or_(ca, null))
        return rename(self.b, cf, lambda k: self.b.or_(ca, undefined) if k == key else None)

    def typestate(self, name, p, ca, lit, o, x, oev):
        R, b = self.R, self.b
        self.n['typestate'] += 1
        init = [e for e in table(self.ea, 'set').get(lit[1], ())]
        if not any(e.cls[0] == 'c' and e.cls[1] for e in init):
            R.add('state:%s.%s' % (name, text(p)), '%s() releases %s only while %s is set, but %s() never sets it'
                  % (self.D.name, text(p), text(lit[1]), self.A.name), where(self.D, self.D.blocks[self.D.order[0]].insts[0]))
            return
        # every call that leaves the state releases the member
        left = 0
        for G in self.others:
            ev = oev[G.name]
            for s in ev:
                if s.kind == 'set' and s.path == lit[1] and s.cls == ('c', 0) and s.F is G:
                    left += 1
                    here = union(b, [e for e in ev if e.kind == 'free' and e.path == p])
                    miss = b.and_(self.config(s.cond), b.and_(ca, b.not_(self.config(here))))
                    if miss:
                        R.add('leak:%s.%s' % (name, text(p)), '%s is allocated by %s() (line %d) and never released once %s() has cleared %s: %s() then skips it'
                              % (text(p), self.A.name, x[0].I.line, G.name, text(lit[1]), self.D.name), where(s.F, s.I))
        if not left:
            R.add('leak:%s.%s' % (name, text(p)), '%s is released only while %s is set and no call that clears it releases it'
                  % (text(p), text(lit[1])), where(x[0].F, x[0].I))
        for G, e in o:
            if e.F is not G:
                continue
            stay = [s for s in oev[G.name] if s.kind == 'set' and s.path == lit[1] and s.cls == ('c', 0)]
            bad = b.and_(e.cond, b.not_(union(b, stay)))
            if bad:
                R.add('twice:%s.%s' % (name, text(p)), '%s() releases %s but leaves %s set: %s() releases it again'
                      % (G.name, text(p), text(lit[1]), self.D.name), where(e.F, e.I))
            stray = b.and_(self.config(e.cond), b.not_(ca))
            if stray:
                R.add('stray:%s.%s' % (name, text(p)), '%s is released by %s() but was not allocated when %s'
                      % (text(p), G.name, show(b, stray)), where(e.F, e.I))
            # and is called only in that state
            for H in self.others:
                for c in oev[H.name]:
                    if c.kind == 'call' and c.path == (G.name,) and c.F is H:
                        self.n['state calls'] += 1
                        if b.and_(c.cond, b.not_(b.var(lit))):
                            R.add('twice:%s.%s' % (name, text(p)), '%s() is called when %s is no longer set and releases %s again'
                                  % (G.name, text(lit[1]), text(p)), where(c.F, c.I))

    def stored_elsewhere(self, p):
        """allocations stored into a member of this name by any function"""
        name = [c for c in p if c.startswith('.')][-1][1:]
        out = []
        for F in self.P.functions():
            for I in F.insts():
                if I.op != 'store' or not isinstance(I.a[0], str):
                    continue
                D = F.defs.get(I.a[0])
                k = cond.alloc_class(D.x['callee']) if D is not None and D.op == 'call' else None
                if not k:
                    continue
                G = F.defs.get(I.a[1])
                for n in range(6):
                    if G is None or G.op not in ('getelementptr', 'load', 'bitcast'):
                        break
                    if G.op == 'getelementptr' and G.ty.startswith('%struct') and len(G.a) > 2:
                        f = self.P.fields_of(F, G.ty)
                        if f and f[G.a[2]] == name:
                            out.append((k, F, I))
                        break
                    G = F.defs.get(G.a[0]) if isinstance(G.a[0], str) else None
        return out

    def lazy(self, name, f, a, other, sets):
        """members that destroy releases and only other calls allocate"""
        R, b = self.R, self.b
        for p, y in f.items():
            if p in a:
                continue
            self.n['lazy'] += 1
            acq = [e for G, e in other.get(p, ()) if e.kind == 'alloc']
            elsewhere = self.stored_elsewhere(p) if not acq else ()
            if '[]' not in p[1:] and acq or not acq:
                # must be null until then
                null = union(b, [e for k in range(2, len(p)) for e in sets.get(p[:k], ()) if e.cls[0] == 'null'])
                cf = union(b, y)
                cf = self.b.exists(cf, lambda k: k[0] == 'nonnull')
                if b.and_(cf, b.not_(null)):
                    R.add('stray:%s.%s' % (name, text(p)), '%s is released by %s() but neither allocated nor cleared by %s() when %s'
                          % (text(p), self.D.name, self.A.name, show(b, b.and_(cf, b.not_(null)))), where(y[0].F, y[0].I))
            if elsewhere:
                ks = {k for k, F, I in elsewhere}
                for e in y:
                    if e.cls not in ks:
                        k, F, I = elsewhere[0]
                        R.add('class:%s.%s' % (name, text(p)), '%s is allocated as %s (%s line %d) and released as %s'
                              % (text(p), k, F.name, I.line, e.cls), where(e.F, e.I))
            elif not acq and any(p[:k] in sets for k in range(2, len(p))):
                continue    # always null, or what it lies in is put in place by somebody else
            elif not acq:
                R.add('stray:%s.%s' % (name, text(p)), '%s is released by %s() but nothing allocates it'
                      % (text(p), self.D.name), where(y[0].F, y[0].I))
            cls = {e.cls for e in acq}
            for e in y if acq else ():
                if e.cls not in cls:
                    R.add('class:%s.%s' % (name, text(p)), '%s is allocated as %s (line %d) and released as %s'
                          % (text(p), '/'.join(sorted(cls)), acq[0].I.line, e.cls), where(e.F, e.I))
        for p, o in other.items():
            if p not in a and p not in f:
                for G, e in o:
                    if e.kind == 'alloc':
                        R.add('leak:%s.%s' % (name, text(p)), '%s is allocated by %s() and never released' % (text(p), G.name), where(e.F, e.I))


def callbacks(P):
    """functions that name the release function of what they allocate: (acquire, release)"""
    out = []
    for F in P.functions():
        for I in F.insts():
            if I.op == 'store' and isinstance(I.a[0], str) and I.a[0].startswith('@'):
                D = F.defs.get(I.a[1]) if isinstance(I.a[1], str) else None
                if D is None or D.op != 'getelementptr' or not D.ty.startswith('%struct') or not F.params or D.a[0] != F.params[0]:
                    # the first member: no address computation
                    if not F.params or I.a[1] != F.params[0]:
                        continue
                G = P.resolve(F, I.a[0])
                if G is not None and G.params and G.ret.strip().endswith('void'):
                    out.append((F, G))
    return out


def handover(R, C, F):
    """functions that allocate the members of new elements, or take them over from old ones: all of them"""
    b = C.b
    ev = C.events(F)
    alloc = [e for e in ev if e.kind == 'alloc' and e.path[:1] and e.path[0].startswith('P')]
    moved = collections.OrderedDict()
    for e in ev:
        if e.kind == 'set' and e.cls[0] == 'ptr' and e.cls[1][-1] == '*' and e.cls[1][1:-1] == e.path[1:] and e.cls[1][0] != e.path[0]:
            moved.setdefault((e.path[0], e.cls[1][0]), []).append(e)
    n = 0
    for (new, old), ms in moved.items():
        given = [e for e in ev if e.kind == 'set' and e.path[0] == old and e.cls[0] == 'c']
        if len(ms) < 3 or not given:
            continue
        hide = set()
        for e in given:
            b.support(e.cond, hide)

        def proj(f):
            return b.exists(f, lambda k: k in hide)
        mine = collections.OrderedDict()
        for e in alloc:
            if e.path[0] == new and e.path[-1] == '*' and '*' not in e.path[:-1]:
                mine.setdefault(e.path[:-1], []).append(e)
        got = collections.OrderedDict()
        for e in ms:
            got.setdefault(e.path, []).append(e)
        for p in mine:
            n += 1
            x, y = mine.get(p, []), got.get(p, [])
            ca, cm = proj(union(b, x)), proj(union(b, y))
            if b.and_(ca, b.not_(cm)):
                R.add('handover:%s.%s' % (F.name, text(p)), '%s of a new element is allocated by %s() (line %d) but not taken over from the old element it replaces'
                      % (text(p), F.name, x[0].I.line), where(x[0].F, x[0].I))
    return n


def run(R, tier):
    P = prog('src', 'misc')
    C = cond.Conds(P)
    tot = collections.Counter()
    pairs = []

    def one(name, A, D, others=(), lazy=False):
        q = Pair(R, P, C, A, D, others)
        a, f, other, sets, oev = q.run(name)
        if lazy:
            q.lazy(name, f, a, other, sets)
        else:
            for p, y in f.items():
                if p not in a:
                    R.add('stray:%s.%s' % (name, text(p)), '%s() releases %s, which %s() does not allocate'
                          % (D.name, text(p), A.name), where(y[0].F, y[0].I))
        pairs.append({'allocate': A.name, 'release': D.name, 'allocated': len(a), 'released': len(f)})
        tot.update(q.n)
        return q, a, f

    create, destroy = P.need('xrtm_create_misc'), P.need('xrtm_destroy')
    others = [F for F in P.functions() if F.module is create.module and F not in (create, destroy)
              and F.params and F.ptypes[0] == 'ptr' and C.touches(F)]
    q, a, f = one('xrtm', create, destroy, others, True)
    if len(a) < 100:
        raise AnalysisError('only %d members allocated by %s()' % (len(a), create.name))
    fc, fd = P.need('xrtm_fd_create'), P.need('xrtm_fd_destroy')
    others = [F for F in P.functions() if F.module is fc.module and F not in (fc, fd)
              and F.params and F.ptypes[0] == 'ptr' and F.name.startswith('xrtm_fd_set') and C.touches(F)]
    one('fd', fc, fd, others)
    nh = 0
    for F in P.functions():
        if F.params and C.touches(F) and F.name not in ('xrtm_create_misc', 'xrtm_destroy') \
                and any(I.op == 'call' and cond.alloc_class(I.x['callee']) for I in F.insts()):
            C.limit = 1
            nh += handover(R, C, F)
            C.limit = None
    tot['handed over'] = nh
    cb = callbacks(P)
    for A, D in cb:
        one(A.name, A, D)
    if len(cb) < 20:
        raise AnalysisError('only %d kinds of saved calculations found' % len(cb))
    nr = replace.check(R, own.Own(P), reachable(P, public_api(P) + fd_api(P)), replace.PAIRS)
    R.coverage = {'replacements of kept memory': nr, 'pairs': len(pairs), 'members compared': tot['members'], 'members allocated by later calls': tot['lazy'],
                  'members released early (typestate)': tot['typestate'], 'calls in that state': tot['state calls'],
                  'members handed over to new elements': tot['handed over'], 'functions expanded': C.nfun, 'facts of the owner': len(C.b.names), 'detail': pairs}
    R.instances = tot['members'] + tot['lazy']
    R.explanation = ('For each pair of acquiring and releasing functions the condition (decision diagram over option bits, solver bits, counts '
                     'and flags of the owner) of every allocation was compared with the condition of the matching release.')
    R.assumptions = ['loops over the sizes of the owner are treated as executed, so that a wrong bound of a loop is not seen here (see C16)',
                     'failed allocations are outside this property: the storage of an instance whose creation failed is not considered']
