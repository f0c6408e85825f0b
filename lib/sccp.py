"""Conditional constant (interval and known bits) propagation, interprocedural by context.

Sccp(P, fields): fields maps (struct, member) to an assumed value (absint.AI).
ctx(F, args) gives the reachable blocks, the value of every register and of the result.
"""
import irlib
from absint import AI, C, arith, cmp, fit, width, CASTS, const_at, readonly, M as MASK
from irlib import AnalysisError
import re


def join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if isinstance(a, Arr) or isinstance(b, Arr):
        return None
    return AI(min(a.lo, b.lo), max(a.hi, b.hi), a.k0 & b.k0, a.k1 & b.k1)


class Arr(object):
    """pointer to elements that all have one known value (with the position it was advanced by dropped)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def key(self):
        return ('arr', self.c)

    def const(self):
        return None

    def __eq__(self, o):
        return isinstance(o, Arr) and o.c == self.c

    def __hash__(self):
        return hash(self.key())


class Ctx(object):
    __slots__ = ('F', 'args', 'blocks', 'vals', 'ret', 'edges')


class Sccp(object):
    def __init__(self, P, fields=None, stop=()):
        self.P = P
        self.fields = fields or {}
        self.memo = {}
        self.active = set()
        self.gc = {}
        self.n = 0
        self.ncx = {}

    def key(self, F, args):
        return (id(F), tuple(a.key() if a is not None else None for a in args))

    def ctx(self, F, args):
        args = list(args)[:len(F.params)] + [None] * (len(F.params) - len(args))
        k = self.key(F, args)
        if k in self.memo:
            return self.memo[k]
        if sum(1 for a in self.active if a[0] == id(F)) > 1 or self.ncx.get(id(F), 0) > 64:
            # recursion, or too many different constants: keep the arguments that never differ
            old = [a[1] for a in list(self.memo) + list(self.active) if a[0] == id(F)]
            args = [a if all(o[i] == (a.key() if a is not None else None) for o in old) else None
                    for i, a in enumerate(args)]
            k = self.key(F, args)
            if k in self.memo:
                return self.memo[k]
        if k in self.active:
            return None
        self.active.add(k)
        try:
            X = self.run(F, args)
        finally:
            self.active.discard(k)
        self.memo[k] = X
        self.ncx[id(F)] = self.ncx.get(id(F), 0) + 1
        return X

    def run(self, F, args):
        self.n += 1
        vals = dict(zip(F.params, args))
        bot = set()
        reach = {F.order[0]}
        edges = set()
        ret = [False, None]
        cnt = {}
        order = irlib.rpo(F)
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            for b in order:
                if b not in reach:
                    continue
                for I in F.blocks[b].insts:
                    if I.op == 'phi':
                        first, v = True, None
                        for val, l in I.x:
                            if (l, b) not in edges:
                                continue
                            if isinstance(val, str) and val[:1] == '%' and val not in vals:
                                continue
                            x = self.v(F, vals, val)
                            v = x if first else join(v, x)
                            first = False
                        if first:
                            continue
                    elif I.op in ('br', 'switch'):
                        for s in self.targets(F, vals, I):
                            if (b, s) not in edges:
                                edges.add((b, s))
                                reach.add(s)
                                changed = True
                        continue
                    elif I.op == 'ret':
                        if I.a:
                            x = self.v(F, vals, I.a[0])
                            n = x if not ret[0] else join(ret[1], x)
                            if not ret[0] or n != ret[1]:
                                ret[:] = [True, n]
                                changed = True
                        continue
                    elif I.res is None:
                        continue
                    else:
                        v = self.ev(F, vals, I)
                    if I.res not in vals or vals[I.res] != v:
                        cnt[I.res] = cnt.get(I.res, 0) + 1
                        if cnt[I.res] > 3:
                            v = None
                        if I.res not in vals or vals[I.res] != v:
                            vals[I.res] = v
                            changed = True
            if rounds > 400:
                raise AnalysisError('no fixed point in %s' % F.name)
        X = Ctx()
        X.F, X.args, X.blocks, X.vals, X.ret, X.edges = F, args, reach, vals, ret[1] if ret[0] else None, edges
        return X

    def v(self, F, vals, x):
        if isinstance(x, bool):
            return C(int(x))
        if isinstance(x, int):
            return C(x)
        if isinstance(x, tuple) and x[0] == 'null':
            return C(0)
        if isinstance(x, str) and x[:1] == '%':
            return vals.get(x)
        return None

    def targets(self, F, vals, t):
        if t.op == 'br' and t.a:
            c = self.v(F, vals, t.a[0])
            c = c.const() if c is not None else None
            if c is not None:
                return [t.x[0] if c & 1 else t.x[1]]
            return list(t.x)
        if t.op == 'br':
            return list(t.x)
        c = self.v(F, vals, t.a[0])
        if c is not None:
            out = [l for k, l in t.x[1] if cmp('eq', c, C(k)) is not False]
            if c.const() is not None:
                return out[:1] or [t.x[0]]
            return out + [t.x[0]]
        return [t.x[0]] + [l for _, l in t.x[1]]

    def ev(self, F, vals, I):
        op = I.op
        v = lambda n: self.v(F, vals, I.a[n])
        if op == 'getelementptr':
            x = v(0)
            return x if isinstance(x, Arr) else None
        if op in CASTS:
            x = v(0)
            if x is None or isinstance(x, Arr):
                return None
            if op == 'zext' and x.lo < 0:
                w = width(I.x)
                if x.const() is not None:
                    return C(x.const() & ((1 << w) - 1))
                if w == 32:
                    m = 0xffffffff
                    return AI(0, m, (x.k0 & m) | (MASK & ~m), x.k1 & m)
                return None
            return fit(x, I.ty) if op == 'trunc' else x
        if op == 'load':
            x = v(0)
            if isinstance(x, Arr):
                return C(x.c) if I.ty[0] == 'i' else None
            return self.load(F, I, vals)
        if op in ('icmp', 'add', 'sub') and (isinstance(v(0), Arr) or isinstance(v(1), Arr)):
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem'):
            return arith(op, v(0), v(1), I.ty)
        if op == 'icmp':
            c = cmp(I.x, v(0), v(1))
            return C(int(c)) if c is not None else None
        if op == 'select':
            c = v(0)
            c = c.const() if c is not None else None
            if c is not None:
                return v(1) if c & 1 else v(2)
            return join(v(1), v(2))
        if op in ('call', 'invoke') and I.ty and I.ty[0] == 'i' and I.ty[1:].isdigit():
            G = self.P.resolve(F, I.x['callee'])
            if G is not None:
                X = self.ctx(G, [self.v(F, vals, a) for a in I.a])
                return X.ret if X is not None else None
        return None

    def defs(self, F):
        k = ('defs', id(F))
        if k not in self.gc:
            self.gc[k] = {I.res: I for I in F.insts() if I.res}
        return self.gc[k]

    def load(self, F, I, vals):
        p = I.a[0]
        D = self.defs(F).get(p) if isinstance(p, str) else None
        if D is not None and D.op == 'getelementptr' and len(D.a) == 3:
            sn = D.ty.strip('%"')
            f = self.P.fields_of(F, sn)
            if f and isinstance(D.a[2], int) and D.a[2] < len(f):
                return self.fields.get((sn, f[D.a[2]]))
        return self.table(F, D, p, vals)

    def table(self, F, D, p, vals):
        """element of a table that nothing writes to, at a known position"""
        if D is None:
            if isinstance(p, str) and p[:1] == '@':
                base, idx = p, []
            elif isinstance(p, tuple) and p[0] == 'gepc':
                base, idx = p[2], list(p[3])
            else:
                return None
        elif D.op == 'getelementptr' and isinstance(D.a[0], str) and D.a[0][:1] == '@':
            base, idx = D.a[0], list(D.a[1:])
        else:
            return None
        t = self.P.global_text(F, base)
        if not t:
            return None
        k = (F.module, base)
        if k not in self.gc:
            self.gc[k] = ' constant ' in t or readonly(self.P.modules[F.module], base)
        if not self.gc[k]:
            return None
        path = []
        for x in idx[1:]:
            x = self.v(F, vals, x)
            c = x.const() if x is not None else None
            if c is None:
                return None
            path.append(('e', c))
        c = const_at(t, path)
        return C(c) if isinstance(c, int) else None

    def calls(self, X):
        """[(I, callee Function or None, [argument values])] of the reachable blocks"""
        out = []
        for b in X.F.order:
            if b not in X.blocks:
                continue
            for I in X.F.blocks[b].insts:
                if I.op in ('call', 'invoke'):
                    out.append((I, self.P.resolve(X.F, I.x['callee']), [self.v(X.F, X.vals, a) for a in I.a]))
        return out
