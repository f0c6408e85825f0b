"""Conditions under which functions follow pointers of the objects given to them.

Bottom-up summaries over the conditions of lib/cond.py: for each function the paths (members and
indexes from a parameter) of the pointers it dereferences, each with the condition (decision diagram
over parameters and members reached from them) of doing so; the pointers it stores through its
parameters; and what it returns.  Error exits are kept.  Loops run when their first test succeeds.
"""
import cond
from cond import Conds, FunConds, alloc_class, free_class
from irlib import AnalysisError, dominates, rpo

MAXALT = 12
KINDS = ('r', 'w', 'one', 'zero')       # kinds of access kept apart by checks/c07.py
NOUSE = {'@free', '@fprintf', '@printf', '@snprintf', '@sprintf', '@exit', '@longjmp', '@_setjmp', '@fputc', '@fwrite', '@fputs',
         '@puts', '@putchar', '@vfprintf', '@vsnprintf', '@llvm.va_start', '@llvm.va_end', '@llvm.lifetime.start', '@llvm.lifetime.end'}


class Sum(object):
    __slots__ = ('derefs', 'stores', 'ret', 'where', 'nz', 'z')

    def __init__(self):
        self.derefs, self.stores, self.ret, self.where, self.nz, self.z = {}, [], [], {}, 1, 1


def stars(p):
    return sum(1 for x in p if x == '*')


class Uses(Conds):
    def __init__(self, P, bdd=None, maxstars=2):
        Conds.__init__(self, P, bdd)
        self.sums = {}
        self.vas = {}
        self.solverargs = {}      # function -> parameters that name one of the solvers
        self.maxstars = maxstars
        # masks that are compared bit by bit: keep their bits next to each other
        for k in range(32):
            self.b.var(('bit', ('P0', '.solvers'), k))
            for j in range(1, 16):
                self.b.var(('bit', ('P%d' % j,), k))

    def summary(self, F):
        if F in self.sums:
            return self.sums[F]
        self.sums[F] = Sum()
        self.nfun += 1
        U = FunUses(self, F)
        S = U.summarise()
        self.sums[F] = S
        return S

    def variadic(self, G, vals):
        """(nonzero, zero) conditions of a function that goes through its variable arguments one by one"""
        nz = 0
        for x in vals:
            if (G, x) not in self.vas:
                self.vas[(G, x)] = FunUses(self, G, x).summarise()
            nz = self.b.or_(nz, self.vas[(G, x)].nz)
        return nz, self.b.not_(nz)

    def keep(self, k):
        """facts that mean something to the caller"""
        if k[0] == 'cmp' and not (k[1] == 'eq' and k[3][0] == 'c'):
            # an index and its limit that the caller knows
            return k[1] == 'slt' and all(x[0] == 'c' or x[0] == 'v' and len(x[1]) == 1 and x[1][0][:1] == 'P' for x in k[2:4])

        def ok(v):
            if not isinstance(v, tuple):
                return True
            if v and v[0] in ('u', 'call', 'sel', 'opaque', 'callnz', 'new', 'alt'):
                return False
            if v and isinstance(v[0], str) and v[0][:2] in ('L:', 'N:'):
                return False
            return all(ok(x) for x in v)
        if k[0] in ('callnz', 'const', 'opaque'):
            return False
        return ok(k[1:])


class FunUses(FunConds):
    def __init__(self, C, F, va=None):
        self.va = va              # the value of variable arguments
        args = [(('ptr' if t == 'ptr' else 'v'), ('P%d' % i,)) for i, t in enumerate(F.ptypes)]
        FunConds.__init__(self, C, F, args, 1, 0, '')
        self.S = Sum()
        self.mem = {}
        self.out = {}
        self.opq = {}

    # ---- values
    def alts(self, v):
        return v[1] if v[0] == 'alt' else ((1, v),)

    def alt(self, xs):
        """one value from alternatives [(cond, value)]"""
        r = []
        for c, v in xs:
            for c2, v2 in self.alts(v):
                c3 = self.b.and_(c, c2)
                if c3 == 0:
                    continue
                for k, (c4, v4) in enumerate(r):
                    if v4 == v2:
                        r[k] = (self.b.or_(c4, c3), v4)
                        break
                else:
                    r.append((c3, v2))
        r = self.partition(r)
        if len(r) > MAXALT:
            return ('u', 'many')
        if not r:
            return ('u', 'none')
        if len(r) == 1 and r[0][1][0] != 'ptr':
            return r[0][1]
        if len(r) == 1 and r[0][0] == 1:
            return r[0][1]
        if all(v[0] not in ('ptr', 'null') for c, v in r) and not all(v[0] == 'c' for c, v in r):
            return ('alt', tuple(r)) if all(v[0] in ('c', 'v', 'e') for c, v in r) else ('u', 'mixed')
        return ('alt', tuple(r))

    def partition(self, r):
        """alternatives that are possible together made exclusive by free choices"""
        b = self.b
        u = 0
        for c, v in r:
            if b.and_(u, c):
                break
            u = b.or_(u, c)
        else:
            return r
        out, done = [], 0
        for k, (c, v) in enumerate(r):
            rest = 0
            for c2, v2 in r[k + 1:]:
                rest = b.or_(rest, c2)
            c3 = b.and_(c, b.not_(done))
            if rest:
                self.nsel = getattr(self, 'nsel', 0) + 1
                c3 = b.and_(c3, b.or_(b.not_(rest), b.var(('opaque', self.F.name, self.nsel))))
            done = b.or_(done, c3)
            out.append((c3, v))
        return out

    def compute(self, I):
        op = I.op
        if op == 'load' and self.va is not None and isinstance(I.a[0], str) and I.a[0].startswith('%vaarg.addr'):
            return ('c', self.va)
        if op in ('getelementptr', 'load'):
            p = self.v(I.a[0])
            if p[0] == 'alt':
                r = []
                for c, v in p[1]:
                    self.val[I.a[0]] = v
                    r.append((c, self.compute(I)))
                self.val[I.a[0]] = p
                return self.alt(r)
            if op == 'load' and p[0] == 'ptr':
                x = self.read(p[1], I.ty)
                if x is not None:
                    return x
            return FunConds.compute(self, I)
        if op == 'phi':
            xs = []
            for x, p in I.x:
                if (p, I.bb) in self.back:
                    if I.ty != 'ptr':
                        return ('u', self.F.name + I.res)
                    continue
                if self.out.get(p, 0) == 0:
                    continue
                xs.append((self.edge(p, I.bb), self.v(x)))
            return self.alt(xs) if xs else ('u', self.F.name + I.res)
        if op == 'select':
            f = self.formula(I.a[0])
            return self.alt([(self.known(f), self.v(I.a[1])), (self.known(self.b.not_(f)), self.v(I.a[2]))])
        if op in ('call', 'invoke'):
            return ('u', self.F.name + (I.res or '?'))
        r = FunConds.compute(self, I)
        if r[0] == 'e' and any(isinstance(k, tuple) and k and k[0] in ('u', 'alt') for k in r[3]):
            return ('u', self.F.name + I.res)
        return r

    def C_stored(self, path):
        return None

    def read(self, path, ty):
        """value of a local object"""
        root = path[0]
        if not root.startswith('L:'):
            return None
        if path in self.mem:
            return self.mem[path]
        if '[]' in path:
            for q, v in self.mem.items():
                if len(q) == len(path) and all(a == b or b == '[]' for a, b in zip(q, path)):
                    return v
        return ('u', 'local')

    def write(self, path, v, c):
        old = self.mem.get(path, ('u', 'none'))
        if c == 1 and '[]' not in path:
            self.mem[path] = v
            return
        xs = [(c, v)]
        rest = 1 if '[]' in path else self.b.not_(c)
        if old[0] != 'u':
            xs.append((rest, old))
        self.mem[path] = self.alt(xs)

    def formula1(self, x):
        I = self.F.defs.get(x)
        if I is not None and I.op == 'phi' and I.ty == 'i1' and I.bb not in self.headers:
            xs = [(self.edge(p, I.bb), self.formula(y)) for y, p in I.x if self.out.get(p, 0) != 0]
            r = 0
            for c, f in self.partition(xs):
                r = self.b.or_(r, self.b.and_(c, f))
            return r
        return FunConds.formula1(self, x)

    def nonzero(self, v):
        if v[0] == 'alt':
            r = 0
            for c, x in v[1]:
                r = self.b.or_(r, self.b.and_(c, self.nonzero(x)))
            return r
        if v in self.opq:
            return self.opq[v]
        if v[0] == 'e' and v[1] == 'and' and v[3][0][0] == 'v' and v[3][1][0] == 'v' and all(
                x[1] == ('P0', '.solvers') or len(x[1]) == 1 for x in v[3]):
            r = 0
            for x in v[3]:
                if len(x[1]) == 1 and self.va is None and any(len(y[1]) > 1 for y in v[3]):
                    self.C.solverargs.setdefault(self.F, set()).add(x[1])
            for k in range(32):
                r = self.b.or_(r, self.b.and_(self.bits(v[3][0], 1 << k), self.bits(v[3][1], 1 << k)))
            return r
        if v[0] == 'e' and v[1] == 'and' and all(x[0] == 'v' for x in v[3]):
            return self.b.var(('posx', v))
        return FunConds.nonzero(self, v)

    def eqconst(self, x, k):
        r = 1
        for n in range(32):
            f = self.bits(x, 1 << n)
            r = self.b.and_(r, f if k >> n & 1 else self.b.not_(f))
        return r

    def icmp(self, I):
        x, y = self.v(I.a[0]), self.v(I.a[1])
        for p, q in ((x, y), (y, x)):
            if p[0] == 'v' and q[0] == 'c' and I.x in ('eq', 'ne') and q[1] > 0 and q[1] & (q[1] - 1) == 0:
                f = self.eqconst(p, q[1])
                return f if I.x == 'eq' else self.b.not_(f)
        # tests of an index: 0 <= i < n implies that n is not zero
        p = I.x
        if p in ('slt', 'sge', 'sgt', 'sle'):
            if p in ('sgt', 'sle') and (x[0] == 'c' or y[0] in ('v', 'e')):
                x, y = y, x
                p = {'sgt': 'slt', 'sle': 'sge'}[p]
            if p in ('sgt', 'sle') and y[0] == 'c':
                y = ('c', y[1] + 1)
                p = {'sgt': 'sge', 'sle': 'slt'}[p]
            if p in ('slt', 'sge') and self.isindex(x) and y == ('c', 0):
                f = self.b.var(('neg', x[1]))
                return f if p == 'slt' else self.b.not_(f)
            n = None
            if p in ('slt', 'sge') and y[0] == 'v' and len(y[1]) > 1 and self.isindex(x):
                n, i = y, x
                lt = self.b.var(('cmp', 'slt', i, n))
                f = self.b.and_(lt, self.b.or_(self.b.var(('neg', i[1])), self.nonzero(n)))
                return f if p == 'slt' else self.b.not_(f)
            if p in ('slt', 'sge') and self.isindex(y) and x[0] == 'e' and x[1] in ('add', 'sub') and x[3][0][0] == 'v' and len(x[3][0][1]) > 1 \
                    and x[3][1] == ('c', -1 if x[1] == 'add' else 1):
                n, i = x[3][0], y        # n - 1 < i
                lt = self.b.var(('cmp', 'slt', i, n))
                f = self.b.and_(lt, self.b.or_(self.b.var(('neg', i[1])), self.nonzero(n)))
                return self.b.not_(f) if p == 'slt' else f
        return FunConds.icmp(self, I)

    def isindex(self, x):
        return x[0] == 'v' and len(x[1]) == 1 and x[1][0][:1] == 'P'

    # ---- control
    def edge(self, p, s):
        c = self.out.get(p)
        if not c:
            return 0
        t = self.F.blocks[p].insts[-1]
        if t.op == 'br' and t.a and t.x[0] != t.x[1]:
            o = t.x[1] if s == t.x[0] else t.x[0]
            ls = self.loopof.get(p, ())
            if self.va is None and any((s in L) != (o in L) for L in ls):
                L = [L for L in ls if (s in L) != (o in L)]
                if s in L[0] and p in self.headers:
                    f = self.first(t.a[0], p)
                    if f is not None:
                        return self.b.and_(c, self.known(f if s == t.x[0] else self.b.not_(f)))
                return c
            f = self.formula(t.a[0])
            return self.b.and_(c, self.known(f if s == t.x[0] else self.b.not_(f)))
        if t.op == 'switch':
            x = self.v(t.a[0])
            r, oth = 0, 1
            for k, l in t.x[1]:
                if x[0] == 'c':
                    e = 1 if x[1] == k else 0
                elif x[0] == 'v' and k > 0 and k & (k - 1) == 0:
                    e = self.eqconst(x, k)
                else:
                    e = self.b.var(('cmp', 'eq', self.key(x) if x[0] != 'alt' else ('u', 'sw'), ('c', k)))
                e = self.b.and_(oth, e)
                oth = self.b.and_(oth, self.b.not_(e))
                if l == s:
                    r = self.b.or_(r, e)
            if t.x[0] == s:
                r = self.b.or_(r, oth)
            return self.b.and_(c, self.known(r))
        return c

    def known(self, f):
        keep = self.C.keep
        return self.b.exists(f, lambda k: not keep(k))

    def first(self, x, h):
        """the loop test with the header's values of the first iteration"""
        I = self.F.defs.get(x) if isinstance(x, str) else None
        if I is None or I.op != 'icmp':
            return None
        save = {}
        ok = False
        for a in I.a[:2]:
            D = self.F.defs.get(a) if isinstance(a, str) else None
            n = 0
            while D is not None and D.op in ('sext', 'zext', 'trunc') and n < 3:
                a = D.a[0]
                D = self.F.defs.get(a) if isinstance(a, str) else None
                n += 1
            if n and D is not None and D.op == 'phi':
                return None
            if D is not None and D.op == 'phi' and D.bb == h:
                vs = [y for y, q in D.x if (q, h) not in self.back]
                if len(vs) != 1:
                    return None
                save[a] = self.val.get(a)
                self.val[a] = self.v(vs[0])
                ok = True
        if not ok:
            return None
        r = self.icmp(I)
        for a, v in save.items():
            if v is None:
                self.val.pop(a, None)
            else:
                self.val[a] = v
        return r

    def finish(self):
        pass

    def summarise(self):
        F = self.F
        self.dead = set()
        self.headers = set()
        self.loopof = {}
        self.back = set()
        for b in F.order:
            for s in F.blocks[b].succs:
                if dominates(F, s, b):
                    self.back.add((b, s))
                    self.headers.add(s)
                    body = {s, b}
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x == s:
                            continue
                        for q in F.blocks[x].preds:
                            if q not in body:
                                body.add(q)
                                wl.append(q)
                    for x in body:
                        self.loopof.setdefault(x, []).append(frozenset(body))
        S = self.S
        for n, b in enumerate(rpo(F)):
            c = 1 if n == 0 else 0
            for p in F.blocks[b].preds:
                if n and (p, b) not in self.back:
                    c = self.b.or_(c, self.edge(p, b))
            self.cond[b] = c
            self.cur = c
            if c == 0:
                self.out[b] = 0
                continue
            for I in F.blocks[b].insts:
                self.visit(I)
                if self.cur == 0:
                    break
            self.out[b] = self.cur
        self.finish()
        keep = self.C.keep
        b = self.b
        memo = {}
        for p in list(S.derefs):
            S.derefs[p] = b.exists(S.derefs[p], lambda k: not keep(k), memo)
        S.stores = [(p, v if v[0] != 'alt' else ('alt', tuple((b.exists(c2, lambda k: not keep(k), memo), v2) for c2, v2 in v[1])),
                     b.exists(c, lambda k: not keep(k), memo)) for p, v, c in S.stores]
        S.ret = [(b.exists(c, lambda k: not keep(k), memo), v) for c, v in S.ret]
        S.nz = b.exists(S.nz, lambda k: not keep(k), memo) if S.ret else 1
        S.z = b.exists(S.z, lambda k: not keep(k), memo) if S.ret else 1
        return S

    def deref(self, v, I, c=None, W=None):
        c = self.cur if c is None else c
        for c2, x in self.alts(v):
            if x[0] != 'ptr' or x[1][0][:2] in ('L:', 'N:') or x[1][0].startswith('@'):
                continue
            p = x[1]
            k = len(p)
            while k > 1 and p[k - 1] != '*':
                k -= 1
            p = p[:k]
            if stars(p) > self.C.maxstars:
                continue
            c3 = self.b.and_(c, c2)
            if c3 == 0:
                continue
            S = self.S
            S.derefs[p] = self.b.or_(S.derefs.get(p, 0), c3)
            S.where.setdefault(p, []).append((c3, self.F, I, W))

    def visit(self, I):
        op = I.op
        if op == 'load':
            self.deref(self.v(I.a[0]), I)
            self.v(I.res)
            return
        if op == 'store':
            p, x = self.v(I.a[1]), self.v(I.a[0])
            self.deref(p, I)
            self.put(p, x, self.cur, I.ty if I.ty else '')
            return
        if op == 'ret':
            if I.a:
                v = self.v(I.a[0])
                self.S.ret += [(self.b.and_(self.cur, c), x) for c, x in self.alts(v)]
                f = self.nonzero(v)   # the alternatives exclude each other
                first = len(getattr(self, 'rets', ())) == 0
                self.rets = getattr(self, 'rets', []) + [I]
                nz, z = self.b.and_(self.cur, f), self.b.and_(self.cur, self.b.not_(f))
                if v[0] == 'u':
                    nz = z = self.cur
                self.S.nz = nz if first else self.b.or_(self.S.nz, nz)
                self.S.z = z if first else self.b.or_(self.S.z, z)
            return
        if op in ('call', 'invoke'):
            self.call(I)
            return
        if I.res:
            self.v(I.res)

    def put(self, p, x, c, ty):
        for c2, q in self.alts(p):
            if q[0] != 'ptr':
                continue
            c3 = self.b.and_(c, c2)
            if q[1][0].startswith('L:'):
                self.write(q[1], x, c3 if self.cond[self.F.order[0]] else c3)
            elif q[1][0].startswith('P') and x[0] in ('ptr', 'alt', 'null') and len(q[1]) <= 3 and len(self.S.stores) < 400:
                if x[0] == 'alt' and not any(v[0] == 'ptr' for _, v in x[1]):
                    continue
                self.S.stores.append((q[1], x, c3))

    def call(self, I):
        n = I.x['callee']
        if alloc_class(n):
            if I.res:
                self.val[I.res] = ('ptr', ('N:' + self.F.name + I.res,))
            return
        if not isinstance(n, str) or free_class(n) or n in NOUSE or n.startswith('@llvm.dbg') or n.startswith('@llvm.lifetime'):
            if I.res:
                self.val[I.res] = ('c', 0) if n in ('@_setjmp', '@setjmp') else ('u', self.F.name + I.res)
            return
        G = self.P.resolve(self.F, n)
        if G is None:
            for a in I.a:
                if isinstance(a, str):
                    v = self.v(a)
                    if v[0] in ('ptr', 'alt'):
                        self.deref(v, I)
            if I.res:
                self.val[I.res] = ('u', self.F.name + I.res)
            return
        S = self.C.summary(G)
        args = [self.v(a) for a in I.a]
        T = Subst(self, args)
        for q in self.C.solverargs.get(G, ()):
            x = T.root(q)
            if x is not None and x[0] == 'v' and len(x[1]) == 1:
                self.C.solverargs.setdefault(self.F, set()).add(x[1])
        for p, c in S.derefs.items():
            c2 = self.b.and_(self.cur, T.bdd(c))
            if c2:
                v = T.path(p)
                if v is not None:
                    self.deref(v, I, c2, (G, p))
        for p, v, c in S.stores:
            q = T.path(p)
            if q is not None and q[0] in ('ptr', 'alt'):
                c2 = self.b.and_(self.cur, T.bdd(c))
                if c2:
                    x = T.value(v)
                    if x is not None:
                        self.put(q, x, c2, 'ptr')
        if I.res:
            r = None
            if G.ret.strip().endswith('ptr'):
                xs = [(T.bdd(c), T.value(v)) for c, v in S.ret]
                if xs and all(x is not None for _, x in xs):
                    r = self.alt(xs)
            elif len(S.ret) == 1 and S.ret[0][1][0] in ('c', 'v'):
                r = T.value(S.ret[0][1])
            if r is None or r[0] == 'u':
                nz, z = T.bdd(S.nz), T.bdd(S.z)
                if len(args) > len(G.params) and all(x[0] == 'c' for x in args[len(G.params):]):
                    nz, z = self.C.variadic(G, [x[1] for x in args[len(G.params):]])
                    nz, z = T.bdd(nz), T.bdd(z)
                r = ('opq', self.F.name + I.res)
                both = self.b.and_(nz, z)
                self.opq[r] = self.b.and_(nz, self.b.or_(self.b.not_(z), self.b.var(('opaque', r)))) if both else nz
            self.val[I.res] = r


class Subst(object):
    """a callee's facts in the terms of the caller"""

    def __init__(self, U, args):
        self.U, self.b, self.args = U, U.b, args
        self.memo = {}

    def root(self, p):
        r = p[0]
        if r[:1] == 'P' and r[1:].isdigit():
            k = int(r[1:])
            return self.args[k] if k < len(self.args) else None
        return None

    def path(self, p):
        if p[0] in KINDS:
            p = p[1:]
        v = self.root(p)
        if v is None:
            return None
        return self.ext(v, p[1:])

    def ext(self, v, rest):
        U = self.U
        if v[0] == 'alt':
            return U.alt([(c, self.ext(x, rest) or ('u', 'x')) for c, x in v[1]])
        if v[0] != 'ptr':
            return None
        q = v[1]
        i = 0
        while i < len(rest):
            t = rest[i]
            if t == '*':
                if q[0].startswith('L:'):
                    x = U.read(q, 'ptr')
                    return self.ext(x, rest[i + 1:]) if x is not None and x[0] in ('ptr', 'alt') else None
                q = q + ('*',)
            elif t == '[]' and q and q[-1] == '[]':
                pass
            elif t == '[]' and not q[0].startswith('L:'):
                q = q + (t,)
            elif t == '[]':
                q = q + (t,)
            else:
                q = q + (t,)
            i += 1
        return ('ptr', q)

    def value(self, v):
        if v[0] in ('c', 'null'):
            return v
        if v[0] == 'ptr':
            return self.path(v[1]) if v[1][0][:1] == 'P' else (v if v[1][0][:2] in ('N:',) or v[1][0][0] == '@' else None)
        if v[0] == 'v':
            r = self.root(v[1])
            if r is None:
                return None
            if len(v[1]) == 1:
                return r
            if r[0] != 'ptr':
                return None
            x = self.ext(r, v[1][1:])
            if x is None or x[0] != 'ptr':
                return None
            if x[1][0].startswith('L:'):
                y = self.U.read(x[1], '')
                return y if y is not None and y[0] in ('c', 'v') else None
            return ('v', x[1])
        if v[0] == 'e':
            xs = [self.value(k) for k in v[3]]
            if any(x is None or x[0] in ('alt', 'u', 'opq') for x in xs):
                return None
            if all(x[0] == 'c' for x in xs) and v[1] in ('and', 'or', 'add', 'sub', 'mul') and len(xs) == 2:
                a, b = xs[0][1], xs[1][1]
                return ('c', {'and': a & b, 'or': a | b, 'add': a + b, 'sub': a - b, 'mul': a * b}[v[1]])
            return ('e', v[1], v[2], tuple(xs))
        if v[0] == 'alt':
            xs = [(self.bdd(c), self.value(x)) for c, x in v[1]]
            xs = [(c, x) for c, x in xs if x is not None]
            return self.U.alt(xs) if xs else None
        return None

    def bdd(self, f):
        if not isinstance(f, tuple):
            return f
        if f in self.memo:
            return self.memo[f]
        lo, hi = self.bdd(f[1]), self.bdd(f[2])
        v = self.var(self.b.names[f[0]])
        r = self.b.or_(lo, hi) if v is None else self.b.ite(v, hi, lo)
        self.memo[f] = r
        return r

    def var(self, k):
        """the caller's condition for a fact, None if it is unknown there"""
        U = self.U
        if k[0] == 'pos':
            x = self.value(('v', k[1]))
            return None if x is None or x[0] in ('u', 'opq') else U.nonzero(x)
        if k[0] == 'posx':
            x = self.value(k[1])
            return None if x is None or x[0] in ('u', 'opq') else U.nonzero(x)
        if k[0] == 'nonnull':
            x = self.path(k[1])
            return None if x is None or x[0] not in ('ptr', 'alt', 'null') else U.nonzero(x)
        if k[0] == 'bit':
            o = k[1]
            x = self.value(o if isinstance(o, tuple) and o and o[0] == 'e' else ('v', o)) if isinstance(o, tuple) else None
            if x is None or x[0] in ('u', 'opq'):
                return None
            if x[0] == 'alt':
                r = 0
                for c, y in x[1]:
                    if y[0] not in ('c', 'v'):
                        return None
                    r = self.b.or_(r, self.b.and_(c, U.bits(y, 1 << k[2])))
                return r
            return U.bits(x, 1 << k[2])
        if k[0] == 'neg':
            x = self.value(('v', k[1]))
            if x is not None and x[0] == 'c':
                return 1 if x[1] < 0 else 0
            return self.b.var(('neg', x[1])) if x is not None and U.isindex(x) else None
        if k[0] == 'cmp':
            x, y = self.value(k[2]), self.value(k[3])
            if x is None or y is None or x[0] in ('alt', 'u', 'opq') or y[0] in ('alt', 'u', 'opq'):
                return None
            if x[0] == 'c' and y[0] == 'c':
                from flow import cmpop
                r = cmpop(k[1], x[1], y[1])
                return None if r is None else (1 if r else 0)
            if k[1] == 'slt' and x == ('c', 0):
                return U.nonzero(y)
            return self.b.var(('cmp', k[1], x, y))
        return None
