"""Who owns what a function allocates.

For each function a forward analysis of its graph: for each piece of memory that it obtained (from an
allocation function, or from a function of its own that hands over what it allocated, or placed by a
callee into an object of this function) the condition (decision diagram over the facts that the
branches test) under which it is still owned, and under which it was released.  Owned at a return:
never released.  Allocated again while still owned: lost.  Used or released while released: dangling.
"""
import re
import uses
from uses import Uses, FunUses, Subst
from cond import Bdd
from irlib import AnalysisError, rpo

ALLOC = re.compile(r'^@(?:alloc_array\d(?:_\w+)?|malloc|calloc|realloc|strdup|fopen)$')
FREE = re.compile(r'^@(?:free_array\d(?:_\w+)?|free|fclose)$')
STOP = {'@exit', '@abort', '@longjmp', '@__assert_fail', '@siglongjmp'}


class OUses(Uses):
    def __init__(self, P):
        Uses.__init__(self, P)
        self.fun = {}
        self.wr = {}
        self.purity = {}
        self.consts = {}

    def pure(self, G):
        """reads memory at most: two calls with the same arguments give the same result"""
        if G not in self.purity:
            self.purity[G] = False
            r = True
            for I in G.insts():
                if I.op == 'store':
                    r = False
                elif I.op in ('call', 'invoke'):
                    n = I.x['callee']
                    if isinstance(n, str) and n.startswith('@llvm.') and 'mem' not in n:
                        continue
                    H = self.P.resolve(G, n) if isinstance(n, str) else None
                    r = H is not None and self.pure(H)
                if not r:
                    break
            self.purity[G] = r
        return self.purity[G]

    def writes(self, G, k):
        """G may write into the object that its parameter k points to"""
        if (G, k) in self.wr:
            return self.wr[(G, k)]
        self.wr[(G, k)] = True
        vals = {G.params[k]}
        r = False
        grow = True
        while grow and not r:
            grow = False
            for I in G.insts():
                if I.op == 'store':
                    if I.a[1] in vals or I.a[0] in vals:
                        r = True
                elif I.op in ('getelementptr', 'bitcast', 'phi', 'select', 'freeze'):
                    ops = [x for x, _ in I.x] if I.op == 'phi' else I.a
                    if any(isinstance(x, str) and x in vals for x in ops) and I.res not in vals:
                        vals.add(I.res)
                        grow = True
                elif I.op in ('call', 'invoke'):
                    for j, a in enumerate(I.a):
                        if isinstance(a, str) and a in vals:
                            n = I.x['callee']
                            H = self.P.resolve(G, n) if isinstance(n, str) else None
                            if H is None or j >= len(H.params) or self.writes(H, j):
                                if not (H is None and n in ('@fprintf', '@printf', '@strlen', '@strcmp')):
                                    r = True
                if r:
                    break
        self.wr[(G, k)] = r
        return r

    def constant(self, G):
        """the one value that G returns, if it can only return one"""
        if G not in self.consts:
            self.consts[G] = None
            vs, seen, wl = set(), set(), []
            for I in G.insts():
                if I.op == 'ret' and I.a:
                    wl.append(I.a[0])
            while wl:
                x = wl.pop()
                if isinstance(x, int):
                    vs.add(x)
                elif isinstance(x, str) and G.defs.get(x) is not None and G.defs[x].op == 'phi':
                    if x not in seen:
                        seen.add(x)
                        wl += [y for y, _ in G.defs[x].x]
                elif isinstance(x, str) and G.defs.get(x) is not None and G.defs[x].op == 'call':
                    H = self.P.resolve(G, G.defs[x].x['callee']) if isinstance(G.defs[x].x['callee'], str) else None
                    k = self.constant(H) if H is not None else None
                    vs.add(k[1] if k is not None else 'x')
                else:
                    vs.add('x')
            if len(vs) == 1 and 'x' not in vs:
                self.consts[G] = ('c', vs.pop())
        return self.consts[G]

    def summary(self, F):
        if F in self.sums:
            return self.sums[F]
        self.sums[F] = uses.Sum()
        self.nfun += 1
        U = OFun(self, F)
        self.fun[F] = U
        S = U.summarise()
        self.sums[F] = S
        return S


class OFun(FunUses):
    def read(self, path, ty):
        r = FunUses.read(self, path, ty)
        return ('u', ('local',) + path) if r == ('u', 'local') else r

    def deref(self, v, I, c=None, W=None):
        pass

    def put(self, p, x, c, ty):
        for c2, q in self.alts(p):
            if q[0] == 'ptr' and q[1][0].startswith('L:'):
                self.write(q[1], x, self.b.and_(c, c2))

    def call(self, I):
        n = I.x['callee']
        if I.res:
            if ALLOC.match(n if isinstance(n, str) else ''):
                self.val[I.res] = ('ptr', ('N:' + self.F.name + I.res,))
            elif n in ('@_setjmp', '@setjmp'):
                self.val[I.res] = ('c', 0)
            else:
                G = self.P.resolve(self.F, n) if isinstance(n, str) else None
                k = self.C.constant(G) if G is not None else None
                if k is not None:
                    self.val[I.res] = k
                elif G is not None and self.C.pure(G):
                    vs = [self.v(a) for a in I.a]
                    if any(v[0] == 'alt' for v in vs):
                        self.val[I.res] = ('u', self.F.name + I.res)
                    else:
                        self.val[I.res] = ('call', n, tuple(self.key(v) for v in vs))
                    return
                else:
                    self.val[I.res] = ('u', self.F.name + I.res)
        G = self.P.resolve(self.F, n) if isinstance(n, str) else None
        for k, a in enumerate(I.a):
            # what the callee may have written there is unknown
            if G is not None and k < len(G.params) and not self.C.writes(G, k):
                continue
            if G is None and isinstance(n, str) and n.endswith('_') and isinstance(a, str) and a.endswith('.addr'):
                continue     # LAPACK does not change its sizes
            for c, v in self.alts(self.v(a)) if isinstance(a, str) else ():
                if v[0] == 'ptr' and v[1][0].startswith('L:'):
                    for q in [q for q in self.mem if q[0] == v[1][0]]:
                        self.mem[q] = ('u', ('local', I.idx, I.bb) + q)


class Site(object):
    __slots__ = ('kind', 'I', 'what', 'vals', 'holders', 'root')

    def __init__(self, kind, I, what, root):
        self.kind, self.I, self.what, self.root = kind, I, what, root
        self.vals, self.holders = set(), set()


class Own(object):
    def __init__(self, P):
        self.P = P
        self.U = OUses(P)
        self.b = self.U.b
        self.done = {}
        self.nsites = 0
        self.nfree = 0
        self.funs = 0

    # what a function does with what it is given: per parameter a set of
    # 'free' (always released), 'mayfree', 'keep', 'ret' (may be what it returns), 'deep' (what it points to is released or kept), 'fill'
    def summary(self, F):
        if F in self.done:
            return self.done[F]
        S = self.done[F] = {'par': {}, 'fresh': 0, 'viol': []}
        A = FunOwn(self, F, S)
        A.run()
        self.funs += 1
        return S


class FunOwn(object):
    def __init__(self, O, F, S):
        self.O, self.F, self.S, self.P, self.b = O, F, S, O.P, O.b

    def callee(self, I):
        c = I.x['callee']
        if not isinstance(c, str):
            return None, None
        return c, self.P.resolve(self.F, c)

    def is_alloc(self, c):
        return isinstance(c, str) and ALLOC.match(c)

    def is_free(self, c):
        return isinstance(c, str) and FREE.match(c)

    def base(self, v):
        """the local object (alloca) that the address v lies in, else None"""
        n = 0
        while isinstance(v, str) and n < 30:
            D = self.F.defs.get(v)
            if D is None:
                return None
            if D.op == 'alloca':
                return v
            if D.op in ('getelementptr', 'bitcast'):
                v = D.a[0]
                n += 1
                continue
            return None
        return None

    def element(self, v):
        """the address v is an element, chosen at run time, of an array"""
        while isinstance(v, str):
            D = self.F.defs.get(v)
            if D is None or D.op not in ('getelementptr', 'bitcast'):
                return False
            if any(isinstance(x, str) for x in D.a[1:]):
                return True
            v = D.a[0]
        return False

    def private(self, v):
        """the address v lies in memory that this function obtained and gives to nobody, and releases nothing stored in it"""
        n = 0
        while isinstance(v, str) and n < 20:
            D = self.F.defs.get(v)
            if D is None:
                return False
            if D.op in ('getelementptr', 'bitcast') or D.op == 'load' and self.base(D.a[0]) is None:
                v = D.a[0]
            elif D.op in ('call', 'invoke') or D.op == 'load':
                break
            else:
                return False
            n += 1
        for t in self.sites[:self.nown]:
            if t.kind == 'A' and v in t.vals and self.is_alloc(t.I.x['callee']):
                if t not in self.priv:
                    self.priv[t] = self.alone(t)
                return self.priv[t]
        return False

    def alone(self, t):
        seen, wl = set(t.vals), list(t.vals)
        while wl:
            v = wl.pop()
            for I in self.users.get(v, ()):
                if I.op == 'ret':
                    return False
                if I.op == 'store' and I.a[0] == v and self.base(I.a[1]) is None and not (v not in t.vals):
                    return False
                if I.op in ('call', 'invoke'):
                    c, G = self.callee(I)
                    if self.is_free(c) and v in t.vals:
                        continue
                    if isinstance(c, str) and (c.startswith('@llvm.') or G is None and not self.is_free(c)):
                        continue
                    if G is None:
                        return False
                    T = self.O.summary(G)
                    if any(a == v and T['par'].get(k, set()) & {'free', 'mayfree', 'keep', 'ret', 'deep'} for k, a in enumerate(I.a)):
                        return False
                elif I.op in ('getelementptr', 'bitcast', 'phi', 'select') or I.op == 'load' and I.ty == 'ptr':
                    if I.res not in seen:
                        seen.add(I.res)
                        wl.append(I.res)
        return True

    def proot(self, v):
        """the parameter that the address v lies in (not behind another pointer), else None"""
        n = 0
        while isinstance(v, str) and n < 30:
            if v in self.F.params:
                return self.F.params.index(v)
            D = self.F.defs.get(v)
            if D is None or D.op not in ('getelementptr', 'bitcast'):
                return None
            v = D.a[0]
            n += 1
        return None

    def closure(self, s):
        """values that may be the memory of site s, and local objects that may hold it"""
        F = self.F
        users = self.users
        wl = list(s.vals)
        while wl:
            v = wl.pop()
            for I in users.get(v, ()):
                if I.op in ('phi', 'select', 'bitcast', 'freeze', 'addrspacecast'):
                    new = I.res
                elif I.op == 'getelementptr' and I.a[0] == v:
                    new = I.res
                elif I.op == 'store' and I.a[0] == v:
                    h = self.base(I.a[1])
                    if h is not None and h not in s.holders:
                        s.holders.add(h)
                        for L in self.loads.get(h, ()):
                            if L.res not in s.vals:
                                s.vals.add(L.res)
                                wl.append(L.res)
                    continue
                elif I.op in ('call', 'invoke') and I.res:
                    c, G = self.callee(I)
                    if c == '@realloc' or G is None or self.is_alloc(c) or self.is_free(c):
                        continue
                    T = self.O.summary(G)
                    if not any(a == v and 'ret' in T['par'].get(k, ()) for k, a in enumerate(I.a)):
                        continue
                    new = I.res
                else:
                    continue
                if new not in s.vals:
                    s.vals.add(new)
                    wl.append(new)

    def run(self):
        F = self.F
        self.users = {}
        self.priv = {}
        self.loads = {}
        for I in F.insts():
            ops = list(I.a)
            if I.op == 'phi':
                ops = [x for x, _ in I.x]
            for a in set(x for x in ops if isinstance(x, str)):
                self.users.setdefault(a, []).append(I)
            if I.op == 'load' and I.ty == 'ptr':
                h = self.base(I.a[0])
                if h is not None:
                    self.loads.setdefault(h, []).append(I)
        sites = []
        for I in F.insts():
            if I.op not in ('call', 'invoke'):
                continue
            c, G = self.callee(I)
            if self.is_free(c):
                self.O.nfree += 1
            if self.is_alloc(c):
                s = Site('A', I, c[1:], I.res)
                if I.res:
                    s.vals.add(I.res)
                sites.append(s)
            elif G is not None and not self.is_free(c):
                T = self.O.summary(G)
                if T['fresh'] != 0 and I.res:
                    s = Site('A', I, c[1:], I.res)
                    s.vals.add(I.res)
                    sites.append(s)
                for k, a in enumerate(I.a):
                    if 'fill' in T['par'].get(k, ()):
                        h = self.base(a)
                        if h is not None:
                            s = Site('H', I, c[1:], h)
                            s.holders.add(h)
                            s.vals.update(L.res for L in self.loads.get(h, ()))
                            sites.append(s)
        self.nown = len(sites)
        self.O.nsites += len(sites)
        for k, (p, t) in enumerate(zip(F.params, F.ptypes)):
            if t == 'ptr':
                s = Site('P', None, k, p)
                s.vals.add(p)
                sites.append(s)
        for s in sites:
            self.closure(s)
        self.sites = sites
        self.S['sites'] = sites[:self.nown]
        self.S['nsites'] = self.nown
        par = self.S['par']
        # what is done with what the parameters point to
        for k, p in enumerate(F.params):
            if F.ptypes[k] != 'ptr':
                continue
            deep = set()
            for I in F.insts():
                if I.op == 'load' and I.ty == 'ptr' and self.proot(I.a[0]) == k:
                    deep.add(I.res)
            wl = list(deep)
            while wl:
                v = wl.pop()
                for I in self.users.get(v, ()):
                    if I.op in ('phi', 'select', 'bitcast', 'getelementptr') or I.op == 'load' and I.ty == 'ptr' or \
                            I.op in ('call', 'invoke') and I.x['callee'] == '@realloc':
                        if I.op in ('call', 'invoke'):
                            par.setdefault(k, set()).add('deep')
                        if I.res not in deep:
                            deep.add(I.res)
                            wl.append(I.res)
            for v in deep:
                for I in self.users.get(v, ()):
                    if I.op in ('call', 'invoke'):
                        c, G = self.callee(I)
                        if self.is_free(c):
                            par.setdefault(k, set()).add('deep')
                        elif G is not None and not self.is_alloc(c):
                            T = self.O.summary(G)
                            for j, a in enumerate(I.a):
                                if a == v and T['par'].get(j, set()) & {'free', 'mayfree', 'keep', 'deep'}:
                                    par.setdefault(k, set()).add('deep')
                    elif I.op == 'store' and I.a[0] == v and self.base(I.a[1]) is None:
                        par.setdefault(k, set()).add('deep')
            for I in F.insts():
                if I.op in ('call', 'invoke'):
                    c, G = self.callee(I)
                    if G is None or self.is_alloc(c) or self.is_free(c):
                        continue
                    T = self.O.summary(G)
                    for j, a in enumerate(I.a):
                        if isinstance(a, str) and self.proot(a) == k:
                            if 'deep' in T['par'].get(j, ()):
                                par.setdefault(k, set()).add('deep')
                            if 'fill' in T['par'].get(j, ()):
                                par.setdefault(k, set()).add('fill')
            for s in sites[:self.nown]:
                if s.kind != 'A':
                    continue
                for v in s.vals:
                    for I in self.users.get(v, ()):
                        if I.op == 'store' and I.a[0] == v and self.proot(I.a[1]) == k:
                            par.setdefault(k, set()).add('fill')
        if not sites:
            return
        work = [s for s in sites if s.kind != 'P' or self.interesting(s)]
        if not work:
            return
        self.U = self.O.U.fun.get(F)
        if self.U is None:
            self.O.U.summary(F)
            self.U = self.O.U.fun[F]
        self.work = work
        self.flow()

    def interesting(self, s):
        for v in s.vals:
            for I in self.users.get(v, ()):
                if I.op in ('call', 'invoke'):
                    c, G = self.callee(I)
                    if self.is_free(c) or c == '@realloc':
                        return True
                    if G is not None and not self.is_alloc(c):
                        T = self.O.summary(G)
                        if any(a == v and T['par'].get(k, set()) & {'free', 'mayfree', 'keep'} for k, a in enumerate(I.a)):
                            return True
                elif I.op == 'store' and I.a[0] == v and self.base(I.a[1]) is None or I.op == 'ret':
                    return True
        return False

    # ---- flow
    def flow(self):
        F, U, b = self.F, self.U, self.b
        order = rpo(F)
        keep = self.O.U.keep
        inn = {order[0]: ([1] + [0] * 0, {})}
        n = len(self.work)
        start = (1, tuple((1 if s.kind == 'P' else 0) for s in self.work), (0,) * n)
        back_in = {}
        self.dropc = {}
        out = self.out = {}
        self.kept = [0] * n
        for rnd in range(12):
            changed = False
            for bl in order:
                if bl == order[0]:
                    st = start
                else:
                    st = None
                    for p in F.blocks[bl].preds:
                        if p not in out or out[p] is None:
                            continue
                        e = self.edge(p, bl, out[p])
                        if e is None:
                            continue
                        if (p, bl) in U.back:
                            e = self.drop(e, p, bl)
                            if back_in.get((p, bl)) != e:
                                o = back_in.get((p, bl))
                                if o is not None:
                                    e = self.join(o, e)
                                if e != o:
                                    back_in[(p, bl)] = e
                                    changed = True
                            e = back_in[(p, bl)]
                        st = e if st is None else self.join(st, e)
                if st is None:
                    out[bl] = None
                    continue
                out[bl] = self.block(bl, st, None)
            if not changed and rnd:
                break
        else:
            raise AnalysisError('ownership does not settle in %s()' % F.name)
        # report
        self.rep = []
        self.retlive = [0] * n
        self.retany = 0
        self.passed = [0] * n
        for bl in order:
            st = start if bl == order[0] else None
            if st is None:
                for p in F.blocks[bl].preds:
                    if out.get(p) is None:
                        continue
                    e = self.edge(p, bl, out[p]) if (p, bl) not in U.back else back_in.get((p, bl))
                    if e is not None:
                        st = e if st is None else self.join(st, e)
            if st is not None:
                self.block(bl, st, self.rep)
        par = self.S['par']
        for i, s in enumerate(self.work):
            if s.kind == 'P':
                if self.ended[i]:
                    if self.kept[i]:
                        par.setdefault(s.what, set()).add('keep')
                    elif self.retlive[i] == 0:
                        par.setdefault(s.what, set()).add('free')
                    else:
                        par.setdefault(s.what, set()).add('mayfree')
                elif self.kept[i]:
                    par.setdefault(s.what, set()).add('keep')
                if self.passed[i]:
                    par.setdefault(s.what, set()).add('ret')
            elif self.passed[i] and s.kind == 'A':
                keep = self.O.U.keep
                self.S['fresh'] = self.b.or_(self.S['fresh'], self.b.exists(self.passed[i], lambda k: not keep(k)))
        self.S['viol'] = self.rep

    def drop(self, st, p, h):
        """at a back edge: facts about values of the loop hold no longer"""
        F, U = self.F, self.U
        body, wl = {h, p}, [p]
        while wl:
            x = wl.pop()
            if x != h:
                for q in F.blocks[x].preds:
                    if q not in body:
                        body.add(q)
                        wl.append(q)
        n = len(F.name)
        cache = self.dropc.setdefault((p, h), {})

        def inside(v):
            if not isinstance(v, tuple):
                return False
            if v and v[0] in ('u', 'sel'):
                x = v[1]
                if isinstance(x, tuple):
                    return len(x) > 2 and isinstance(x[1], int) and x[2] in body
                if v[0] == 'u' and isinstance(x, str) and x.startswith(F.name):
                    x = x[n:]
                D = F.defs.get(x)
                return D is None or D.bb in body
            if len(v) == 3 and v[0] == 'opaque' and v[1] == F.name:
                return True
            return any(inside(x) for x in v)

        def pred(k):
            if k not in cache:
                cache[k] = inside(k)
            return cache[k]
        memo = {}
        ex = lambda f: self.b.exists(f, pred, memo)
        return (ex(st[0]), tuple(ex(x) for x in st[1]), tuple(ex(x) for x in st[2]))

    def join(self, x, y):
        o = self.b.or_
        return (o(x[0], y[0]), tuple(o(p, q) for p, q in zip(x[1], y[1])), tuple(o(p, q) for p, q in zip(x[2], y[2])))

    def edge(self, p, s, st):
        F, U, b = self.F, self.U, self.b
        t = F.blocks[p].insts[-1]
        f = 1
        dead = set()
        if t.op == 'br' and t.a and t.x[0] != t.x[1]:
            pos = s == t.x[0]
            if self.never(t.a[0], pos):
                return None
            o = t.x[1] if pos else t.x[0]
            dead = self.nulls(t.a[0], pos)
            if not any((s in L) != (o in L) for L in U.loopof.get(p, ())):
                f = U.formula(t.a[0])
                f = f if pos else b.not_(f)
        elif t.op == 'switch':
            x = U.v(t.a[0])
            r, oth = 0, 1
            for k, l in t.x[1]:
                if x[0] == 'c':
                    e = 1 if x[1] == k else 0
                else:
                    e = b.var(('cmp', 'eq', U.key(x) if x[0] != 'alt' else ('u', F.name + str(t.a[0])), ('c', k)))
                e = b.and_(oth, e)
                oth = b.and_(oth, b.not_(e))
                if l == s:
                    r = b.or_(r, e)
            if t.x[0] == s:
                r = b.or_(r, oth)
            f = r
        c = b.and_(st[0], f)
        if c == 0:
            return None
        live = tuple(0 if i in dead else b.and_(x, f) for i, x in enumerate(st[1]))
        freed = tuple(b.and_(x, f) for x in st[2])
        return (c, live, freed)

    def never(self, x, pos):
        """the condition x is never pos: an address inside of an object is not null"""
        I = self.F.defs.get(x) if isinstance(x, str) else None
        if I is None or I.op != 'icmp' or I.x not in ('eq', 'ne') or (I.x == 'eq') != pos:
            return False
        k = I.a[1]
        if not (isinstance(k, tuple) and k[0] == 'null'):
            return False
        v = I.a[0]
        D = self.F.defs.get(v) if isinstance(v, str) else None
        if D is not None and D.op == 'load':
            L = self.F.blocks[D.bb].insts
            for J in reversed(L[:[n for n, J in enumerate(L) if J is D][0]]):
                if J.op in ('call', 'invoke'):
                    break
                if J.op == 'store':
                    if self.same(J.a[1], D.a[0]):
                        D = self.F.defs.get(J.a[0]) if isinstance(J.a[0], str) else None
                    break
        return D is not None and D.op == 'getelementptr' and len(D.a) == 2 and isinstance(D.a[1], int) and D.a[1] != 0 and \
            any(D.res in s.vals for s in self.work if s.kind == 'A')

    def same(self, p, q):
        if p == q:
            return True
        A, B = (self.F.defs.get(z) if isinstance(z, str) else None for z in (p, q))
        return A is not None and B is not None and A.op == B.op == 'getelementptr' and A.ty == B.ty and len(A.a) == len(B.a) and \
            all(x == y for x, y in zip(A.a, B.a))

    def nulls(self, x, pos):
        """sites that do not exist when the condition x is pos"""
        I = self.F.defs.get(x) if isinstance(x, str) else None
        if I is None:
            return set()
        if I.op == 'xor' and I.ty == 'i1':
            return self.nulls(I.a[0], not pos)
        if I.op in ('and', 'select') and pos and I.op == 'and' or I.op == 'or' and not pos and I.ty == 'i1':
            return self.nulls(I.a[0], pos) | self.nulls(I.a[1], pos)
        if I.op != 'icmp':
            return set()
        a, k = I.a[0], I.a[1]
        if not isinstance(a, str) or isinstance(k, str):
            a, k = k, a
        out = set()
        if isinstance(k, tuple) and k[0] == 'null' and I.x in ('eq', 'ne') and (I.x == 'eq') == pos:
            for i, s in enumerate(self.work):
                if a in s.vals and s.kind != 'P':
                    out.add(i)
        if isinstance(k, int):
            # a failed callee has placed nothing
            neg = I.x == 'slt' and k == 0 and pos or I.x == 'sge' and k == 0 and not pos or I.x == 'eq' and k < 0 and pos or \
                I.x == 'ne' and (k < 0 and not pos or k == 0 and pos) or I.x == 'eq' and k == 0 and not pos
            if neg:
                for i, s in enumerate(self.work):
                    if s.kind == 'H' and s.I.res is not None and s.I.res == a:
                        out.add(i)
        return out

    def block(self, bl, st, rep):
        F, b = self.F, self.b
        c, live, freed = st[0], list(st[1]), list(st[2])
        if not hasattr(self, 'ended'):
            self.ended = [0] * len(self.work)
        for I in F.blocks[bl].insts:
            op = I.op
            if op in ('load', 'store'):
                a = I.a[0] if op == 'load' else I.a[1]
                for i, s in enumerate(self.work):
                    if a in s.vals:
                        self.used(i, s, I, freed, rep)
                    if op == 'store' and I.a[0] in s.vals and (self.base(I.a[1]) is None or self.element(I.a[1])):
                        if s.kind == 'P' and self.private(I.a[1]):
                            continue
                        if live[i]:
                            self.kept[i] = 1
                        live[i] = 0
                continue
            if op == 'ret':
                for i, s in enumerate(self.work):
                    if I.a and I.a[0] in s.vals:
                        if s.kind == 'P':
                            if rep is not None:
                                self.passed[i] = 1
                        elif s.kind != 'P':
                            if rep is not None:
                                other = b.and_(live[i], self.other(i, s, I.a[0], bl, 0))
                                self.passed[i] = b.or_(self.passed[i], b.and_(live[i], b.not_(other)))
                                live[i] = other
                            else:
                                live[i] = 0
                if rep is not None:
                    for i, s in enumerate(self.work):
                        if live[i]:
                            if s.kind == 'P':
                                self.retlive[i] = b.or_(self.retlive[i], live[i])
                            else:
                                rep.append(('leak', s, I, live[i]))
                continue
            if op not in ('call', 'invoke'):
                continue
            cn, G = self.callee(I)
            if cn in STOP:
                return None
            if isinstance(cn, str) and cn.startswith('@llvm.'):
                continue
            T = None
            if G is not None and not self.is_alloc(cn) and not self.is_free(cn):
                T = self.O.summary(G)
            for i, s in enumerate(self.work):
                for k, a in enumerate(I.a):
                    if not isinstance(a, str):
                        continue
                    h = self.base(a)
                    if h is not None and h in s.holders:
                        if T is not None and 'deep' in T['par'].get(k, ()):
                            if rep is not None and s.kind == 'H' and freed[i] and live[i] == 0 and not (T['par'].get(k, set()) & {'fill'}) and self.all_dead(i, s, freed, c):
                                rep.append(('again', s, I, freed[i]))
                            if live[i]:
                                self.ended[i] = 1
                            freed[i] = b.or_(freed[i], live[i]) if s.kind == 'H' else freed[i]
                            live[i] = 0
                        elif G is None and s.kind == 'H':
                            pass
                        continue
                    if a not in s.vals:
                        continue
                    self.used(i, s, I, freed, rep, k)
                    e = T['par'].get(k, set()) if T is not None else set()
                    if self.is_free(cn) or cn == '@realloc' or 'free' in e:
                        if live[i]:
                            self.ended[i] = 1
                        if s.kind != 'H':
                            freed[i] = b.or_(freed[i], c if len(self.owners(a)) == 1 and self.exact(s, a) else 0)
                        live[i] = 0
                    elif 'mayfree' in e:
                        self.ended[i] = 1
                        live[i] = 0
                    elif 'keep' in e:
                        self.kept[i] = 1
                        live[i] = 0
                    elif T is None and not isinstance(cn, str):
                        live[i] = 0
                        self.kept[i] = 1
            for i, s in enumerate(self.work):
                if s.I is I:
                    if rep is not None and live[i]:
                        rep.append(('lost', s, I, live[i]))
                    live[i] = c
                    freed[i] = 0
                    if s.kind == 'A' and T is not None:
                        live[i] = b.and_(c, Subst(self.U, [self.U.v(a) for a in I.a]).bdd(T['fresh']))
        return (c, tuple(live), tuple(freed))

    def other(self, i, s, v, bl, n):
        """the memory of s is owned and v, chosen where control enters bl, is something else"""
        D = self.F.defs.get(v) if isinstance(v, str) else None
        r = 0
        if D is None or D.op != 'phi' or D.bb != bl or n > 8:
            return 0
        for x, p in D.x:
            if self.out.get(p) is None or (p, bl) in self.U.back:
                continue
            e = self.edge(p, bl, self.out[p])
            if e is None:
                continue
            if x not in s.vals:
                r = self.b.or_(r, e[1][i])
            else:
                r = self.b.or_(r, self.b.and_(e[1][i], self.other(i, s, x, p, n + 1)))
        return r

    def all_dead(self, i, s, freed, c):
        return self.b.and_(c, self.b.not_(freed[i])) == 0

    def owners(self, v):
        return [s for s in self.work if v in s.vals and s.kind != 'P'] or [s for s in self.work if v in s.vals]

    def exact(self, s, v):
        """v is always the memory of s"""
        n = 0
        while isinstance(v, str) and n < 20:
            if v == s.root:
                return True
            D = self.F.defs.get(v)
            if D is None:
                return False
            if D.op in ('bitcast', 'getelementptr'):
                v = D.a[0]
            elif D.op == 'load':
                h = self.base(D.a[0])
                return h is not None and len([1 for I in self.F.insts() if I.op == 'store' and self.base(I.a[1]) == h]) == 1 and D.a[0] == h
            else:
                return False
            n += 1
        return False

    def used(self, i, s, I, freed, rep, k=None):
        if rep is None or not freed[i] or s.kind == 'H':
            return
        a = I.a[0] if I.op == 'load' else I.a[1] if I.op == 'store' else I.a[k]
        if len(self.owners(a)) == 1 and self.exact(s, a):
            rep.append(('dangling', s, I, freed[i]))
