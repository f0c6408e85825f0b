"""Memory an instance owns is replaced only after it was released.

For every store of newly obtained memory into a member of the instance, in a function that is not
part of creation: on every path to it, everything that destruction does to release that member was
done (or the member was found to be null)."""
import own
from common import where

PAIRS = [('%struct.xrtm_data', ('xrtm_create', 'xrtm_create2'), 'xrtm_destroy'),
         ('%struct.xrtm_fd_data', ('xrtm_fd_create', 'xrtm_fd_create2'), 'xrtm_fd_destroy')]


def member(F, v):
    """(parameter, constant indexes) that the address v names, else None"""
    D = F.defs.get(v) if isinstance(v, str) else None
    if D is None or D.op != 'getelementptr' or D.a[0] not in F.params or not str(D.ty).startswith('%struct'):
        return None
    if not all(isinstance(x, int) for x in D.a[1:]) or len(D.a) < 3:
        return None
    return F.params.index(D.a[0]), (D.ty,) + tuple(D.a[2:])


def loaded(F, v):
    n = 0
    while isinstance(v, str) and n < 10:
        D = F.defs.get(v)
        if D is None:
            return None
        if D.op == 'load':
            return member(F, D.a[0])
        if D.op in ('bitcast', 'freeze'):
            v = D.a[0]
            n += 1
            continue
        return None
    return None


class Replace(object):
    def __init__(self, O):
        self.O, self.P = O, O.P
        self.must_, self.may_ = {}, {}

    def events(self, F, I, what):
        """{(param, member, function)} that the call I releases"""
        c = I.x['callee']
        out = set()
        if not isinstance(c, str) or c.startswith('@llvm.'):
            return out
        G = self.P.resolve(F, c)
        for k, a in enumerate(I.a):
            m = loaded(F, a)
            if m is not None:
                if own.FREE.match(c):
                    out.add((m[0], m[1], c))
                elif G is not None and self.O.summary(G)['par'].get(k, set()) & {'free', 'mayfree', 'deep'} and 'keep' not in self.O.summary(G)['par'].get(k, set()) and \
                        'fill' not in self.O.summary(G)['par'].get(k, set()):
                    out.add((m[0], m[1], c))
                    # a function that releases its argument itself counts as the release it does
                    for f in self.frees(G, k, 0):
                        out.add((m[0], m[1], f))
        if G is not None:
            S = what(G)
            for k, a in enumerate(I.a):
                if a in F.params:
                    for p, m, f in S:
                        if p == k:
                            out.add((F.params.index(a), m, f))
        return out

    def frees(self, G, k, n):
        """names of the functions G always gives its parameter k to for release"""
        out = set()
        if n > 3 or not G.blocks or k >= len(G.params):
            return out
        for I in G.insts():
            if I.op in ('call', 'invoke') and isinstance(I.x['callee'], str) and G.params[k] in I.a:
                if own.FREE.match(I.x['callee']):
                    out.add(I.x['callee'])
                else:
                    H = self.P.resolve(G, I.x['callee'])
                    if H is not None and H is not G:
                        j = I.a.index(G.params[k])
                        if self.O.summary(H)['par'].get(j, set()) & {'free', 'mayfree', 'deep'}:
                            out.add(I.x['callee'])
                        out |= self.frees(H, j, n + 1)
        return out

    def may(self, F):
        if F in self.may_:
            return self.may_[F]
        S = self.may_[F] = set()
        if not F.blocks:
            return S
        for I in F.insts():
            if I.op in ('call', 'invoke'):
                S |= self.events(F, I, self.may)
        return S

    def must(self, F, at=None):
        """what is released on every path to the return (or, per store, to it)"""
        if at is None:
            if F in self.must_:
                return self.must_[F]
            self.must_[F] = set()
        if not F.blocks:
            return set()
        order = own.rpo(F)
        out, ret, res = {}, None, {}
        for rnd in range(6):
            ch = False
            ret = None
            for bl in order:
                st = set() if bl == order[0] else None
                for p in F.blocks[bl].preds if bl != order[0] else ():
                    if p not in out:
                        continue
                    e = out[p] | self.null(F, p, bl)
                    if st is None:
                        st = e
                    else:
                        # null on one side, released on the other: nothing is lost on either
                        nul = {x for x in st | e if x[2] == '*'}
                        both = st & e
                        for x in (st | e) - both:
                            if (x[0], x[1], '*') in st and x in e or (x[0], x[1], '*') in e and x in st:
                                both = both | {x}
                        st = both
                st = set(st or ())
                for I in F.blocks[bl].insts:
                    if I.op in ('call', 'invoke'):
                        st |= self.events(F, I, self.must)
                    elif I.op == 'store' and at is not None and id(I) in at:
                        res[id(I)] = set(st)
                    elif I.op == 'ret':
                        ret = set(st) if ret is None else ret & st
                if out.get(bl) != st:
                    out[bl] = st
                    ch = True
            if not ch:
                break
        if at is None:
            self.must_[F] = ret or set()
            return self.must_[F]
        return res

    def null(self, F, p, s):
        t = F.blocks[p].insts[-1]
        if t.op != 'br' or not t.a or t.x[0] == t.x[1]:
            return set()
        D = F.defs.get(t.a[0]) if isinstance(t.a[0], str) else None
        if D is None or D.op != 'icmp' or not (isinstance(D.a[1], tuple) and D.a[1][0] == 'null'):
            return set()
        if (D.x == 'eq') != (s == t.x[0]) or D.x not in ('eq', 'ne'):
            return set()
        m = loaded(F, D.a[0])
        return {(m[0], m[1], '*')} if m else set()


def creation(P, names):
    """functions that only creation runs"""
    callers = {}
    for F in P.functions():
        for I in F.insts():
            ops = [I.x['callee']] if I.op in ('call', 'invoke') else []
            for c in ops:
                G = P.resolve(F, c) if isinstance(c, str) else None
                if G is not None:
                    callers.setdefault(G, set()).add(F)
    made = {F for F in P.functions() if F.name in names}
    ch = True
    while ch:
        ch = False
        for G, cs in callers.items():
            if G not in made and cs and cs <= made:
                made.add(G)
                ch = True
    return made


def sets(P, F, k, c, n):
    """F stores the member c of its parameter k, itself or by a function it calls"""
    for J in F.insts():
        if J.op == 'store' and member(F, J.a[1]) == (k, c):
            return True
        if J.op in ('call', 'invoke') and n < 3 and isinstance(J.x['callee'], str) and F.params[k] in J.a:
            G = P.resolve(F, J.x['callee'])
            if G is not None and G.blocks and J.a.index(F.params[k]) < len(G.params) and sets(P, G, J.a.index(F.params[k]), c, n + 1):
                return True
    return False


def check(R, O, fs, pairs):
    """pairs: (type of the instance, creating functions, destroying function)"""
    P = O.P
    X = Replace(O)
    n = 0
    for ty, makers, name in pairs:
        D = [F for F in P.functions() if F.name == name]
        need = {}
        for p, m, f in X.may(D[0]) if D else ():
            need.setdefault(m, set()).add(f)
        made = creation(P, makers)
        # counts that say how much a member holds: not set (or zero) at creation, given to the release together with it
        counts, other = {}, set()
        for F in made:
            for I in F.insts():
                if I.op == 'store':
                    m = member(F, I.a[1])
                    if m and I.a[0] != 0:
                        other.add(m[1])
        for I in D[0].insts() if D else ():
            if I.op in ('call', 'invoke'):
                ms = [loaded(D[0], a) for a in I.a]
                ints = [x for a, x in zip(I.a, ms) if x and D[0].defs[a].op == 'load' and D[0].defs[a].ty in ('i32', 'i64')]
                for m in ms:
                    if m and m[1] in need:
                        counts.setdefault(m[1], set()).update(x[1] for x in ints if x[1] not in other)
        for F in fs:
            if F in made:
                continue
            at = {}
            for s in O.summary(F).get('sites', ()):
                if s.kind == 'A':
                    for I in F.insts():
                        if I.op == 'store' and I.a[0] in s.vals:
                            m = member(F, I.a[1])
                            if m and m[1][0] == ty and m[1] in need:
                                at[id(I)] = (I, m, s)
            if not at:
                continue
            got = X.must(F, at)
            for k, (I, m, s) in at.items():
                n += 1
                for c in counts.get(m[1], ()):
                    if not sets(P, F, m[0], c, 0):
                        R.add('count:%s:%s' % (F.name, c[1:]), 'memory of the instance is replaced at %s in %s(), but not the count (member %s) that its release goes by' % (
                            where(F, I), F.name, c[1:]), where(F, I), rule='count')
                g = {f for p, q, f in got.get(k, ()) if (p, q) == m}
                miss = {f for f in need[m[1]] if f not in g} if '*' not in g else set()
                if miss:
                    R.add('replaced:%s:%s' % (F.name, m[1][1:]), 'memory of the instance obtained before is replaced by what %s() returns at %s in %s() without the release by %s() that destruction does' % (
                        s.what, where(F, s.I), F.name, '(), '.join(sorted(x.lstrip('@') for x in miss))), where(F, I), rule='replaced')
    return n
