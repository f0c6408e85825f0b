"""C04: a rejected input leaves the instance unchanged.

Every path of every set function that returns an error is followed (typestate: has
the instance been written?).  Calls are replaced by the outcomes of the callee (result,
written objects), so that an error reported by a helper that has not written anything is
not confused with a success of it.
"""
import irlib, sym, errs
from common import prog, where, public_api, fd_api
from irlib import AnalysisError
from sym import show_addr
import checks.c05 as c05
import checks.c08 as c08

LEVEL = 'other'
TOP = 'T'
LIMIT = 60000


def roots(e, out=None, depth=0):
    """parameters whose memory an address may lie in"""
    if out is None:
        out = set()
    if depth > 30:
        return out
    k = e[0]
    if k == 'p':
        out.add(e[1])
    elif k in ('fld', 'el', '+', 'ld', 'bin'):
        roots(e[1] if k != 'bin' else e[2], out, depth + 1)
    elif k == 'phi':
        for x in e[3]:
            if isinstance(x, tuple):
                roots(x, out, depth + 1)
    elif k == 'sel':
        for x in e[2:4]:
            roots(x, out, depth + 1)
    elif k == 'rel':
        roots(e[1], out, depth + 1)
    return out


class Paths(object):
    def __init__(self, P, S, scope):
        self.P, self.S, self.scope = P, S, scope
        self.memo = {}
        self.wmemo = {}
        self.n_paths = 0

    def may_write(self, F, seen=()):
        """parameters through which F (out of scope) may write"""
        k = id(F)
        if k in self.wmemo:
            return self.wmemo[k]
        self.wmemo[k] = set()
        out = set()
        for b in irlib.rpo(F):
            for I in F.blocks[b].insts:
                if I.op == 'store':
                    out |= roots(self.S.expr(F, I.a[1]))
                elif I.op in ('call', 'invoke'):
                    for n in self.call_writes(F, I):
                        out |= roots(self.S.expr(F, I.a[n]))
        self.wmemo[k] = out
        return out

    def call_writes(self, F, I):
        G = self.P.resolve(F, I.x['callee'])
        if G is not None:
            return {n for n in self.may_write(G) if n < len(I.a)}
        c = I.x['callee']
        nm = c[1:] if isinstance(c, str) and c[0] == '@' else ''
        if nm.startswith(('llvm.mem', 'mem', 'str', 'free', 'realloc', 'fread', 'sprintf', 'snprintf', 'qsort')):
            return {0} if I.a else set()
        return set()

    def outcomes(self, F):
        """{(result, frozenset of written parameters)} with an example write each"""
        k = id(F)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {}
        res = {}
        seen = set()
        start = next(iter(irlib.rpo(F)))
        wl = [(start, None, frozenset(), (), {})]
        interesting = self.tracked(F)
        while wl:
            b, prev, dirty, env, info = wl.pop()
            key = (b, prev, dirty, env)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > LIMIT:
                raise AnalysisError('path exploration of %s()' % F.name)
            E = dict(env)
            states = [(dirty, E, info)]
            B = F.blocks[b]
            # phis in parallel
            new = {}
            for I in B.insts:
                if I.op != 'phi':
                    break
                if I.res in interesting:
                    v = [x for x, l in I.x if l == prev]
                    new[I.res] = self.val(E, v[0]) if v else TOP
            E.update(new)
            for I in B.insts:
                if I.op == 'store':
                    r = roots(self.S.expr(F, I.a[1]))
                    if r:
                        states = [(d | r, e, self.note(i, r, F, I)) for d, e, i in states]
                elif I.op in ('call', 'invoke'):
                    G = self.P.resolve(F, I.x['callee'])
                    if G is not None and self.scope(G) and G is not F:
                        out = []
                        for (rv, w), wi in sorted(self.outcomes(G).items(), key=str):
                            r = set()
                            for n in w:
                                if n < len(I.a):
                                    r |= roots(self.S.expr(F, I.a[n]))
                            for d, e, i in states:
                                e2 = e
                                if I.res in interesting:
                                    e2 = dict(e)
                                    e2[I.res] = rv
                                out.append((d | r, e2, self.note(i, r, F, I) if r else i))
                        states = out
                    else:
                        r = set()
                        for n in self.call_writes(F, I):
                            r |= roots(self.S.expr(F, I.a[n]))
                        if r:
                            states = [(d | r, e, self.note(i, r, F, I)) for d, e, i in states]
                        if I.res in interesting:
                            for d, e, i in states:
                                e[I.res] = TOP
            t = B.insts[-1]
            for d, e, i in states:
                ev = tuple(sorted(e.items()))
                if t.op == 'ret':
                    rv = self.val(e, t.a[0]) if t.a else None
                    rv = 'E' if isinstance(rv, int) and rv < 0 else rv
                    res.setdefault((rv, d), (i, F, t))
                elif t.op == 'br':
                    ss = list(t.x)
                    if t.a:
                        c = self.test(F, e, t.a[0])
                        if c is not None:
                            ss = [t.x[0] if c else t.x[1]]
                    for s in dict.fromkeys(ss):
                        wl.append((s, b, d, ev, i))
                elif t.op == 'switch':
                    v = self.val(e, t.a[0])
                    tg = {l for q, l in t.x[1]} | {t.x[0]}
                    if isinstance(v, int):
                        tg = {dict(t.x[1]).get(v, t.x[0])}
                    for s in sorted(tg):
                        wl.append((s, b, d, ev, i))
                elif t.op != 'unreachable':
                    for s in B.succs:
                        wl.append((s, b, d, ev, i))
        self.n_paths += len(seen)
        self.memo[k] = res
        return res

    def note(self, info, r, F, I):
        i = dict(info)
        for x in r:
            i.setdefault(x, (F, I))
        return i

    def tracked(self, F):
        """integer results of calls and phis of constants that reach a branch or return"""
        out = set()
        wl = []
        for I in F.insts():
            if I.op == 'ret' and I.a:
                wl.append(I.a[0])
            elif I.op in ('br', 'switch') and I.a:
                wl.append(I.a[0])
        seen = set()
        while wl:
            v = wl.pop()
            if not isinstance(v, str) or v in seen:
                continue
            seen.add(v)
            I = F.defs.get(v)
            if I is None:
                continue
            if I.op in ('icmp', 'xor', 'zext', 'sext', 'trunc', 'freeze'):
                wl += list(I.a)
            elif I.op == 'phi':
                if any(isinstance(x, int) for x, l in I.x) or any(self.iscall(F, x) for x, l in I.x):
                    out.add(v)
                wl += [x for x, l in I.x]
            elif I.op == 'call':
                out.add(v)
        return out

    def iscall(self, F, x):
        I = F.defs.get(x) if isinstance(x, str) else None
        return I is not None and I.op in ('call', 'phi')

    def val(self, e, v):
        if isinstance(v, int):
            return v
        return e.get(v, TOP)

    def test(self, F, e, v):
        """truth of condition v or None"""
        if isinstance(v, int):
            return bool(v)
        I = F.defs.get(v) if isinstance(v, str) else None
        if I is None:
            return None
        if I.op == 'icmp':
            a, b = self.num(F, e, I.a[0]), self.num(F, e, I.a[1])
            if a is None or b is None:
                return None
            if a == 'E':
                a = -5
                if isinstance(b, int) and b < 0:
                    return None
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}.get(I.x)
        if I.op == 'xor' and I.a[1] == 1:
            r = self.test(F, e, I.a[0])
            return None if r is None else not r
        if I.op == 'phi':
            x = e.get(v)
            return bool(x) if isinstance(x, int) else None
        if I.op in ('trunc', 'freeze'):
            return self.test(F, e, I.a[0])
        return None

    def num(self, F, e, v):
        if isinstance(v, int):
            return v
        x = e.get(v)
        if x is not None:
            return None if x == TOP else x
        I = F.defs.get(v) if isinstance(v, str) else None
        if I is not None and I.op in ('zext', 'sext', 'trunc'):
            if I.x == 'i1':
                r = self.test(F, e, I.a[0])
                return None if r is None else int(r)
            return self.num(F, e, I.a[0])
        return None


def run(R, tier):
    P = prog('src', 'misc')
    api, mods, S = c05.make(P)
    scope = lambda G: G.module in mods and errs.ret_kind(G) != 'ptr'
    T = Paths(P, S, scope)
    R.explanation = ('all paths of every set function, calls replaced by the outcomes of the callee: '
                     'no path writes memory of the instance and then returns an error')
    R.assumptions = ['clang IR after mem2reg represents the source',
                     'a negative result is an error (C14)']
    n = rets = err = 0
    for F in api:
        if '_set_' not in F.name or errs.ret_kind(F) != 'int':
            continue
        n += 1
        oc = T.outcomes(F)
        if not oc:
            raise AnalysisError('%s(): no return found' % F.name)
        for (rv, d), (info, G, t) in sorted(oc.items(), key=lambda x: str(x[0])):
            rets += 1
            if rv == 'E' or rv == TOP:
                err += 1
                if 0 in d:
                    WF, WI = info[0]
                    what = show_addr(S.expr(WF, WI.a[1])) if WI.op == 'store' else 'call of %s()' % str(WI.x['callee'])[1:]
                    R.add('partial:%s' % F.name, '%s() can return an error after it has changed the instance (%s)' % (F.name, what),
                          where(WF, WI), returns=where(G, t))
    if n < 60:
        raise AnalysisError('set functions: %d' % n)
    R.instances = rets
    R.coverage = dict(functions=n, outcomes=rets, error_outcomes=err, states=T.n_paths)
