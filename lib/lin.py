"""Linear arithmetic over the symbolic expressions of sym.py.

Canonical expressions: the instance pointer behind a member is dropped (sizes of the
instance are constant), loop variables become ranges, sums are linear forms.

A linear form is (const, ((atom, coef), ...)) with atoms sorted by text.
"""


def canon(e):
    """canonical atom/expression of a symbolic expression; integers as ('lin', c, terms)"""
    return _from(lin(e))


_C = {}


def lin(e):
    r = _C.get(id(e))
    if r is None:
        r = _C[id(e)] = (e, _lin(e))
    return r[1]


def _mk(c, t):
    return (c, tuple(sorted(((a, k) for a, k in t.items() if k), key=str)))


def add(a, b, kb=1):
    t = dict(a[1])
    for x, k in b[1]:
        t[x] = t.get(x, 0) + k * kb
    return shift(_mk(a[0] + kb * b[0], t))


def shift(l):
    """n + [lo..hi) -> [lo+n..hi+n)"""
    rs = [x for x, k in l[1] if x[0] == 'rng' and k == 1]
    if len(rs) == 1 and (l[0] or len(l[1]) > 1) and all(x[0] != 'rng' for x, k in l[1] if x is not rs[0]):
        r = rs[0]
        t = dict(l[1])
        del t[r]
        rest = _mk(l[0], t)
        lo, hi = add(r[1], rest), add(r[2], rest)
        return (0, ((('rng', lo, hi), 1),))
    return l


def _lin(e):
    k = e[0]
    if k == 'c':
        return (e[1], ())
    if k == '+':
        return add(lin(e[1]), (e[2], ()))
    if k == 'bin':
        if e[1] == 'add':
            return add(lin(e[2]), lin(e[3]))
        if e[1] == 'sub':
            return add(lin(e[2]), lin(e[3]), -1)
        if e[1] in ('mul', 'shl'):
            a, b = lin(e[2]), lin(e[3])
            if e[1] == 'shl':
                b = (1 << b[0], ()) if not b[1] and 0 <= b[0] < 31 else ('x', ())
            if b[0] != 'x':
                if a[1] and not b[1]:
                    a, b = b, a
                if not a[1]:
                    if b[1] and any(x[0] == 'rng' for x, q in b[1]):
                        pass
                    else:
                        return _mk(a[0] * b[0], {x: q * a[0] for x, q in b[1]})
    if k == 'rng':
        return (0, ((('rng', lin(e[1]), lin(e[2])), 1),))
    if k == 'rel':
        r = e[1]
        if r[0] == 'rng':
            return (0, ((('rng', (0, ()), add(lin(r[2]), lin(r[1]), -1)), 1),))
    return (0, ((raw(e), 1),))


def atom(e):
    if not isinstance(e, tuple):
        return e
    k = e[0] if e else None
    if k in ('c', '+', 'bin', 'rng', 'rel') and len(e) > 1:
        return _from(lin(e))
    return raw(e)


def raw(e):
    k = e[0] if e else None
    if k == 'c' and len(e) == 2:
        return e
    if k == 'fld':
        return ('F', e[2], e[3])
    if k == 'el':
        return ('el', atom(e[1]), _from(lin(e[2])))
    if k == 'call':
        return ('call', e[1], tuple(atom(x) for x in e[2]))
    if k in ('p', 'cf', 'g', 'un', 'loc', 'null'):
        return e
    return tuple(atom(x) if isinstance(x, tuple) else x for x in e)


def _from(l):
    if not l[1]:
        return ('c', l[0])
    if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
        return l[1][0][0]
    return ('lin', l[0], l[1])


def tolin(x):
    """linear form of a canonical expression"""
    if x[0] == 'c':
        return (x[1], ())
    if x[0] == 'lin':
        return (x[1], x[2])
    return (0, ((x, 1),))


class Prover(object):
    """decides linear inequalities from branch facts; incomplete, never wrong"""

    def __init__(self, facts, nonneg, upper):
        """nonneg(atom) -> bool; upper(atom) -> [linear forms u with atom <= u]"""
        plain = [f for f in facts if f[0] == 'cmp']
        for f in facts:
            if f[0] == 'imp' and all(g in plain for g in f[1]):
                plain.append(f[2])
        self.ge = []
        seen = set()
        for f in plain:
            p = f[1]
            if f[2][0] in ('cf', 'null') or f[3][0] in ('cf', 'null') or p not in ('slt', 'sle', 'sgt', 'sge', 'eq', 'ult', 'ule', 'ugt', 'uge'):
                continue
            a, b = lin(f[2]), lin(f[3])
            if p in ('sgt', 'sge', 'ugt', 'uge'):
                a, b = b, a
                p = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[p]
            new = []
            if p == 'slt':
                new = [addn(b, a, -1)]
            elif p == 'sle':
                new = [addn(b, a, 0)]
            elif p == 'eq':
                new = [addn(b, a, 0), addn(a, b, 0)]
            elif p in ('ult', 'ule'):
                new = [addn(b, a, -1 if p == 'ult' else 0), a]
            for n in new:
                if n[1] and n not in seen:
                    seen.add(n)
                    self.ge.append(n)
        self.nonneg = nonneg
        self.upper = upper
        self.memo = {}
        self.budget = 4000

    def leq(self, a, b):
        """a <= b for symbolic expressions"""
        return self.pos(sub(lin(b), lin(a)), 0)

    def leql(self, a, b):
        return self.pos(sub(b, a), 0)

    def pos(self, g, depth):
        """g >= 0"""
        if not g[1]:
            return g[0] >= 0
        if depth > 7 or self.budget <= 0:
            return False
        m = self.memo.get(g)
        if m is not None and (m[0] or m[1] <= depth):
            return m[0]
        self.budget -= 1
        self.memo[g] = (False, depth)
        r = self.pos1(g, depth)
        self.memo[g] = (r, depth)
        return r

    def pos1(self, g, depth):
        if g[0] >= 0 and all(k > 0 and self.nonneg(x) for x, k in g[1]):
            return True
        for x, k in g[1]:
            # case distinctions and ranges first: they are exact
            if x[0] == 'rng':
                e = x[1] if k > 0 else addn(x[2], (0, ()), -1)
                return self.pos(repl(g, x, e), depth + 1)
            if x[0] == 'sel' or x[0] == 'phi' and len(x) > 3:
                alts = x[2:4] if x[0] == 'sel' else x[3]
                if all(self.pos(repl(g, x, tolin(y) if y[0] in ('c', 'lin') else (0, ((y, 1),))), depth + 1) for y in alts):
                    return True
        for x, k in g[1]:
            if abs(k) != 1:
                continue
            s = split(x)
            if s:
                first, rest = s
                if self.pos(repl(g, x, (0, ((first, 1),))), depth + 1):
                    if self.pos(repl(g, x, (0, ((rest, 1),))), depth + 1):
                        return True
                    # monotone sequence: every element is on the right side of its predecessor
                    up = sub((0, ((rest, 1),)), (0, ((prev(rest), 1),)))
                    for f in self.ge:
                        if f[1] == up[1] and f[0] <= 0 and k > 0:
                            return True
                        if f[1] == neg(up)[1] and f[0] <= 0 and k < 0:
                            return True
        for f in self.ge:
            # use f >= 0 when it cancels a term of the goal
            if any((x, k) in g[1] for x, k in f[1]):
                if self.pos(sub(g, f), depth + 1):
                    return True
        for x, k in g[1]:
            if k == -1:
                for u in self.upper(x):
                    if self.pos(repl(g, x, u), depth + 1):
                        return True
            if k == 1 and self.nonneg(x):
                if self.pos(repl(g, x, (0, ())), depth + 1):
                    return True
        return False


def addn(b, a, n):
    t = dict(b[1])
    for x, k in a[1]:
        t[x] = t.get(x, 0) - k
    return _mk(b[0] - a[0] + n, t)


def sub(b, a):
    return addn(b, a, 0)


def neg(a):
    return (-a[0], tuple((x, -k) for x, k in a[1]))


def repl(g, x, l):
    t = dict(g[1])
    k = t.pop(x)
    c = g[0] + k * l[0]
    for y, q in l[1]:
        t[y] = t.get(y, 0) + q * k
    return _mk(c, t)


def split(e):
    """element over [0..n) -> (element 0, element over [1..n))"""
    if e[0] == 'ld' and e[1][0] == 'el' and e[1][2][0] == 'rng' and e[1][2][1] == (0, ()):
        b = e[1][1]
        r = e[1][2]
        return (('ld', ('el', b, ('c', 0))), ('ld', ('el', b, ('rng', (1, ()), r[2]))))
    return None


def prev(e):
    """predecessor element"""
    r = e[1][2]
    return ('ld', ('el', e[1][1], ('rng', sub(r[1], (1, ())), sub(r[2], (1, ())))))
