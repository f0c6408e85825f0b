"""Path conditions over the fields of an instance.

For a function the condition under which each block is reached is kept as a binary decision
diagram whose variables are facts about the instance (an option bit, 'a count is positive', the
value of a flag): it does not depend on how the tests are nested, ordered or written.  Loops count
as executed.  Paths that end only in an error return do not count.  From the conditions follow the
events of the function, with calls expanded: storage that is allocated into, or released from, a
member of the instance (path of members and indexes from the instance), and when.
"""
import re
import irlib
from irlib import AnalysisError, dominates, rpo


class Node(tuple):
    """a shared node: equal only to itself, so that hashing does not walk the diagram"""
    __slots__ = ()
    __hash__ = object.__hash__
    __eq__ = object.__eq__
    __ne__ = object.__ne__


class Bdd(object):
    """nodes: 0, 1 or Node(variable number, low, high)"""

    def __init__(self):
        self.num = {}
        self.names = []
        self.memo = {}
        self.nodes = {}

    def node(self, v, lo, hi):
        k = (v, lo, hi)
        r = self.nodes.get(k)
        if r is None:
            r = self.nodes[k] = Node(k)
        return r

    def var(self, key):
        if key not in self.num:
            self.num[key] = len(self.names)
            self.names.append(key)
        return self.node(self.num[key], 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g is h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(x[0] for x in (f, g, h) if isinstance(x, tuple))
        lo = self.ite(*[x[1] if isinstance(x, tuple) and x[0] == v else x for x in k])
        hi = self.ite(*[x[2] if isinstance(x, tuple) and x[0] == v else x for x in k])
        r = lo if lo is hi else self.node(v, lo, hi)
        self.memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    def support(self, f, out=None, seen=None):
        out = set() if out is None else out
        seen = set() if seen is None else seen
        if isinstance(f, tuple) and id(f) not in seen:
            seen.add(id(f))
            out.add(self.names[f[0]])
            self.support(f[1], out, seen)
            self.support(f[2], out, seen)
        return out

    def exists(self, f, pred, memo=None):
        """f with the variables that satisfy pred quantified away"""
        memo = {} if memo is None else memo
        if not isinstance(f, tuple):
            return f
        if f in memo:
            return memo[f]
        lo = self.exists(f[1], pred, memo)
        hi = self.exists(f[2], pred, memo)
        r = self.or_(lo, hi) if pred(self.names[f[0]]) else self.ite(self.node(f[0], 0, 1), hi, lo)
        memo[f] = r
        return r

    def one(self, f):
        """a satisfying assignment {key: bool}"""
        out = {}
        while isinstance(f, tuple):
            if f[2] != 0:
                out[self.names[f[0]]] = True
                f = f[2]
            else:
                out[self.names[f[0]]] = False
                f = f[1]
        return out

    def value(self, f, env):
        """env(key) -> bool"""
        while isinstance(f, tuple):
            f = f[2] if env(self.names[f[0]]) else f[1]
        return bool(f)


class Event(object):
    __slots__ = ('kind', 'path', 'cls', 'cond', 'F', 'I', 'seq', 'size')

    def __init__(self, kind, path, cls, cond, F, I, seq, size=()):
        self.kind, self.path, self.cls, self.cond, self.F, self.I, self.seq, self.size = kind, path, cls, cond, F, I, seq, size


ALLOC = re.compile(r'^@(?:j?alloc_array(\d)(?:_\w+)?|(malloc|calloc)|(flags_alloc2?)|(\w+)_create)$')
FREE = re.compile(r'^@(?:free_array(\d)(?:_\w+)?|(free)|(flags_free2?)|(\w+)_free)$')
OWN = {'gaatree': 'gaatree', 'glist': 'glist', 'dclist': 'dclist'}


def alloc_class(c):
    m = ALLOC.match(c or '')
    if not m:
        return None
    if m.group(1):
        return 'array%s' % m.group(1)
    if m.group(2):
        return 'array1'
    if m.group(3):
        return m.group(3).replace('_alloc', '')
    return OWN.get(m.group(4))


def free_class(c):
    m = FREE.match(c or '')
    if not m:
        return None
    if m.group(1):
        return 'array%s' % m.group(1)
    if m.group(2):
        return 'array1'
    if m.group(3):
        return m.group(3).replace('_free', '')
    return OWN.get(m.group(4))


class Conds(object):
    def __init__(self, P, bdd=None):
        self.P = P
        self.b = bdd or Bdd()
        self.relevant = {}
        self.nfun = 0
        self.limit = None

    # ---- which functions can allocate or release
    def touches(self, F, seen=None):
        if F.name in self.relevant:
            return self.relevant[F.name]
        self.relevant[F.name] = False
        r = False
        for I in F.insts():
            if I.op in ('call', 'invoke'):
                c = I.x['callee']
                if alloc_class(c) or free_class(c):
                    r = True
                    break
                G = self.P.resolve(F, c) if isinstance(c, str) else None
                if G is not None and self.touches(G):
                    r = True
                    break
        self.relevant[F.name] = r
        return r

    def events(self, F, args=None, base=1, depth=0, out=None, tag=''):
        """events of F in program order; args: symbolic values of the parameters"""
        out = [] if out is None else out
        if depth > 8:
            raise AnalysisError('calls nested too deeply at %s()' % F.name)
        self.nfun += 1
        A = FunConds(self, F, args if args is not None else [('ptr', ('P%d' % i,)) if t == 'ptr' else ('v', ('P%d' % i,))
                                                            for i, t in enumerate(F.ptypes)], base, depth, tag)
        A.run(out)
        return out


class FunConds(object):
    def __init__(self, C, F, args, base, depth, tag):
        self.C, self.F, self.P, self.b, self.depth, self.tag = C, F, C.P, C.b, depth, tag
        self.val = dict(zip(F.params, args))
        self.base = base
        self.cond = {}
        self.formulas = {}
        self.stored = {}
        self.news = {}

    def error_blocks(self):
        F = self.F
        bad = set()
        okb, rets = set(), set()
        wl = []
        for b in F.order:
            t = F.blocks[b].insts[-1]
            if t.op != 'ret':
                continue
            v = t.a[0] if t.a else None
            D = F.defs.get(v) if isinstance(v, str) else None
            if D is not None and D.op == 'phi' and D.bb == b:
                rets.add(b)
                for pv, pb in D.x:
                    if self.failing(pv):
                        bad.add((pb, b))
                    else:
                        wl.append(pb)
            elif not self.failing(v):
                wl.append(b)
        while wl:
            b = wl.pop()
            if b in okb:
                continue
            okb.add(b)
            wl += [p for p in F.blocks[b].preds if (p, b) not in bad and p not in okb]
        return {b for b in F.order if b not in okb and b not in rets}, bad

    def failing(self, v):
        if self.F.ret == 'i32':
            return isinstance(v, int) and v < 0
        if self.F.ret == 'ptr':
            return v == ('null',)
        return False

    # ---- values
    def v(self, x):
        if isinstance(x, int):
            return ('c', x)
        if isinstance(x, tuple):
            return ('null',) if x[0] == 'null' else ('k', x)
        if isinstance(x, str):
            if x in self.val:
                return self.val[x]
            if x.startswith('@'):
                return ('ptr', (x,))
            D = self.F.defs.get(x)
            if D is None:
                return ('u', x)
            self.val[x] = ('u', self.F.name + x)
            r = self.compute(D)
            self.val[x] = r
            return r
        return ('u', str(x))

    def compute(self, I):
        op = I.op
        if op == 'getelementptr':
            p = self.v(I.a[0])
            if p[0] not in ('ptr', 'new'):
                return ('u', self.F.name + I.res)
            path = p[1]
            sty = I.ty
            if len(I.a) == 2:
                return (p[0], path if I.a[1] == 0 else self.index(path)) + p[2:]
            if isinstance(I.a[1], int) and I.a[1] == 0:
                pass
            else:
                path = self.index(path)
            M = None
            for k in I.a[2:]:
                if sty.startswith('%struct') or sty.startswith('%union'):
                    f = self.fields(sty)
                    path = path + ('.' + (f[k] if f and k < len(f) else str(k)),)
                    sty = ''
                elif path[0].startswith('L:') and isinstance(k, int):
                    path = path + ('[%d]' % k,)
                else:
                    path = self.index(path)
            return (p[0], path) + p[2:]
        if op == 'load':
            p = self.v(I.a[0])
            if p[0] not in ('ptr', 'new'):
                return ('u', self.F.name + I.res)
            s = self.C_stored(p[1])
            if s is not None:
                return s
            if I.ty == 'ptr':
                return ('ptr', p[1] + ('*',))
            return ('v', p[1])
        if op == 'alloca':
            return ('ptr', ('L:' + self.tag + self.F.name + I.res,))
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            return self.v(I.a[0])
        if op in ('call', 'invoke'):
            c = I.x['callee']
            k = alloc_class(c)
            if k:
                return ('new', ('N:%s%s%s' % (self.tag, self.F.name, I.res),), k, I)
            if c in ('@_setjmp', '@setjmp', '@__sigsetjmp'):
                return ('c', 0)
            return ('call', c if isinstance(c, str) else '?', self.F.name + I.res + self.tag, tuple(self.key(self.v(a)) for a in I.a))
        if op == 'phi':
            vs = []
            for x, p in I.x:
                if (p, I.bb) in self.dead:
                    continue
                y = self.v(x)
                if y not in vs and y != ('u', self.F.name + I.res):
                    vs.append(y)
            if len(vs) == 1:
                return vs[0]
            vs2 = [y for y in vs if y != ('null',)]
            if len(vs2) == 1 and vs2[0][0] in ('ptr', 'new'):
                return vs2[0]
            return ('u', self.F.name + I.res + self.tag)
        if op == 'select':
            return ('sel', I.res, self.F.name + self.tag)
        return ('e', op, I.x if isinstance(I.x, str) else None, tuple(self.key(self.v(a)) for a in I.a))

    def C_stored(self, path):
        return self.stored.get(path)

    def fields(self, sty):
        M = self.F.module
        return self.P.fields_of(self.F, sty)

    @staticmethod
    def index(path):
        return path if path and path[-1] == '[]' else path + ('[]',)

    def key(self, v):
        if v[0] == 'new':
            return ('new', v[1])
        return v

    # ---- conditions
    def formula(self, x):
        """bdd of the boolean (or integer, as non-zero) value x"""
        if isinstance(x, int):
            return 1 if x else 0
        if not isinstance(x, str):
            return self.b.var(('const', str(x)))
        if x in self.formulas:
            return self.formulas[x]
        r = self.formula1(x)
        self.formulas[x] = r
        return r

    def formula1(self, x):
        I = self.F.defs.get(x)
        b = self.b
        if I is None:
            return self.nonzero(self.v(x))
        if I.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.formula(I.a[0])
        if I.op == 'icmp':
            return self.icmp(I)
        if I.op == 'and' and I.ty == 'i1':
            return b.and_(self.formula(I.a[0]), self.formula(I.a[1]))
        if I.op == 'or' and I.ty == 'i1':
            return b.or_(self.formula(I.a[0]), self.formula(I.a[1]))
        if I.op == 'xor' and I.ty == 'i1' and I.a[1] in (1, -1):
            return b.not_(self.formula(I.a[0]))
        if I.op == 'select':
            return b.ite(self.formula(I.a[0]), self.formula(I.a[1]), self.formula(I.a[2]))
        if I.op == 'phi' and I.bb not in self.headers:
            r = 0
            for v, p in I.x:
                if (p, I.bb) in self.dead:
                    continue
                r = b.or_(r, b.and_(self.edge(p, I.bb), self.formula(v)))
            return r
        return self.nonzero(self.v(x))

    def nonzero(self, v):
        b = self.b
        if v[0] == 'c':
            return 1 if v[1] else 0
        if v[0] == 'null':
            return 0
        if v[0] == 'new':
            return 1
        if v[0] == 'v':
            return b.var(('pos', v[1]))
        if v[0] == 'e' and v[1] == 'and':
            for x, m in (v[3], v[3][::-1]):
                if m[0] == 'c':
                    return self.bits(x, m[1])
        if v[0] == 'ptr':
            if '*' not in v[1][-1:]:
                return 1
            return b.var(('nonnull', v[1]))
        return b.var(('opaque', v))

    def bits(self, x, m):
        r = 0
        m &= 0xffffffff
        for k in range(32):
            if m >> k & 1:
                if x[0] == 'c':
                    r = 1 if x[1] >> k & 1 else r
                else:
                    r = self.b.or_(r, self.b.var(('bit', x[1] if x[0] == 'v' else x, k)))
        return r

    def icmp(self, I):
        x, y = self.v(I.a[0]), self.v(I.a[1])
        p = I.x
        b = self.b
        if x[0] == 'c' and y[0] == 'c':
            from flow import cmpop
            r = cmpop(p, x[1], y[1])
            if r is not None:
                return 1 if r else 0
        if x[0] in ('c', 'null') and y[0] not in ('c', 'null'):
            x, y = y, x
            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            I0 = I.a[1]
        else:
            I0 = I.a[0]
        z = None
        if y == ('null',) or y == ('c', 0):
            z = {'ne': True, 'eq': False, 'sgt': True, 'ugt': True, 'sle': False, 'ule': False}.get(p)
        elif y == ('c', 1):
            z = {'sge': True, 'uge': True, 'slt': False, 'ult': False}.get(p)
        if z is not None:
            f = self.formula(I0) if y[0] == 'c' and isinstance(I0, str) and p in ('ne', 'eq') else self.nonzero(x)
            return f if z else b.not_(f)
        if p in ('eq', 'ne') and y[0] == 'c' and x[0] == 'e' and x[1] == 'and' and ('c', y[1]) in x[3]:
            r = 1
            o = x[3][0] if x[3][1] == y else x[3][1]
            for k in range(32):
                if y[1] >> k & 1:
                    r = b.and_(r, self.bits(o, 1 << k))
            return r if p == 'eq' else b.not_(r)
        neg = {'ne': 'eq', 'sge': 'slt', 'sgt': 'sle', 'uge': 'ult', 'ugt': 'ule'}
        x, y = self.key(x), self.key(y)
        if p in neg:
            return b.not_(b.var(('cmp', neg[p], x, y)))
        return b.var(('cmp', p, x, y))

    def edge(self, p, s):
        """condition of taking the edge p -> s"""
        if (p, s) in self.dead:
            return 0
        c = self.cond.get(p)
        if c is None:
            return 0
        t = self.F.blocks[p].insts[-1]
        if t.op == 'br' and t.a and t.x[0] != t.x[1]:
            o = t.x[1] if s == t.x[0] else t.x[0]
            if (p, o) in self.dead:
                return c
            l = self.loopof.get(p)
            if l and any((s in L) != (o in L) for L in l):
                return c
            f = self.formula(t.a[0])
            return self.b.and_(c, f if s == t.x[0] else self.b.not_(f))
        if t.op == 'switch':
            x = self.key(self.v(t.a[0]))
            live = [q for q in self.F.blocks[p].succs if (p, q) not in self.dead]
            if len(set(live)) == 1:
                return c
            r = 0
            oth = 1
            for k, l in t.x[1]:
                e = self.b.var(('cmp', 'eq', x, ('c', k)))
                e = self.b.and_(oth, e)
                oth = self.b.and_(oth, self.b.not_(self.b.var(('cmp', 'eq', x, ('c', k)))))
                if l == s:
                    r = self.b.or_(r, e)
            if t.x[0] == s:
                r = self.b.or_(r, oth)
            return self.b.and_(c, r)
        return c

    def run(self, out):
        F = self.F
        eb, bad = self.error_blocks()
        self.dead = set(bad)
        for b in F.order:
            for s in F.blocks[b].succs:
                if s in eb or b in eb:
                    self.dead.add((b, s))
        self.headers = set()
        self.loopof = {}
        back = set()
        for b in F.order:
            for s in F.blocks[b].succs:
                if dominates(F, s, b):
                    back.add((b, s))
                    self.headers.add(s)
                    body = {s, b}
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x == s:
                            continue
                        for q in F.blocks[x].preds:
                            if q not in body:
                                body.add(q)
                                wl.append(q)
                    for x in body:
                        self.loopof.setdefault(x, []).append(frozenset(body))
        order = rpo(F)
        for n, b in enumerate(order):
            if b in eb:
                continue
            if n == 0:
                c = self.base
            else:
                c = 0
                for p in F.blocks[b].preds:
                    if (p, b) not in back:
                        c = self.b.or_(c, self.edge(p, b))
            self.cond[b] = c
            if c == 0:
                continue
            for I in F.blocks[b].insts:
                self.step(I, c, out)

    def step(self, I, c, out):
        if I.op == 'store':
            x = self.v(I.a[0])
            p = self.v(I.a[1])
            if p[0] == 'ptr' and x[0] == 'new' and len(x) > 2 and '[]' not in x[1][1:]:
                if p[1][0].startswith('L:'):
                    self.stored[p[1]] = x
                else:
                    self.acquire(p[1] + ('*',), x, c, I, out)
            elif p[0] == 'new' and x[0] == 'new':
                self.acquire(p[1] + ('*',), x, c, I, out)
            elif p[0] == 'ptr' and p[1][0].startswith('L:') and I.ty == 'ptr':
                self.stored[p[1]] = x
            if p[0] == 'ptr' and not p[1][0].startswith('L:') and x[0] in ('c', 'null', 'v', 'ptr'):
                # 'set' events: constants, null and unchanged values of parameters or members stored into a member
                out.append(Event('set', p[1], x, c, self.F, I, len(out)))
            return
        if I.op not in ('call', 'invoke'):
            return
        n = I.x['callee']
        k = free_class(n)
        if k:
            p = self.v(I.a[0])
            if p[0] in ('ptr', 'new'):
                out.append(Event('free', p[1], k, c, self.F, I, len(out)))
            else:
                out.append(Event('free?', (), k, c, self.F, I, len(out)))
            return
        if alloc_class(n):
            return
        G = self.P.resolve(self.F, n) if isinstance(n, str) else None
        if G is not None and self.C.touches(G) and len(G.params) == len(I.a):
            if self.C.limit is not None and self.depth >= self.C.limit:
                return
            out.append(Event('call', (G.name,), None, c, self.F, I, len(out)))
            self.C.events(G, [self.v(a) for a in I.a], c, self.depth + 1, out, self.tag + '%s:%s/' % (self.F.name, I.idx))

    def acquire(self, path, x, c, I, out):
        # what was allocated into the elements of the new object belongs to the member from now on
        old = x[1]
        for e in out:
            if e.path[:len(old)] == old:
                e.path = path + e.path[len(old):]
        A = x[3] if len(x) > 3 else I
        out.append(Event('alloc', path, x[2], c, self.F, A, len(out), tuple(self.key(self.v(a)) for a in A.a)))
        self.news[old] = path
