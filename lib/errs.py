"""Which functions report failure through their result, and what callers do with it.

failure classes of an int result: any negative constant; of a pointer result: NULL.
"""
from irlib import AnalysisError, rpo
from flow import NEG, arith, cmpop

ERR = 'ERR'      # failing result (negative / NULL)
OK = 'OK'        # 0 / positive constant, non-NULL
TOP = 'TOP'      # anything

CASTS = ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr')


def ret_kind(F):
    t = F.ret
    if t is None:
        return None
    t = t.strip()
    if t.endswith('i32') or t.endswith('i64'):
        return 'int'
    if t.endswith('ptr'):
        return 'ptr'
    return None


class Errs(object):
    def __init__(self, P, indirect=None):
        self.P = P
        self.classes = {}
        self.indirect = indirect or {}
        fs = [F for F in P.functions() if ret_kind(F)]
        for F in fs:
            self.classes[id(F)] = set()
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for F in fs:
                s = self.ret_classes(F)
                if s != self.classes[id(F)]:
                    self.classes[id(F)] = s
                    ch = True
            if n > 60:
                raise AnalysisError('return class fixpoint')

    def val_classes(self, F, v, kind, seen):
        if isinstance(v, int):
            if kind == 'ptr':
                return {OK}
            return {ERR} if v < 0 else ({OK} if v == 0 else {'POS'})
        if isinstance(v, tuple):
            if v[0] == 'null':
                return {ERR}
            return {OK}
        if isinstance(v, str):
            if v[0] == '@':
                return {OK}
            if v in seen:
                return set()
            seen.add(v)
            d = F.defs.get(v)
            if d is None:
                return {TOP}
            if d.op in ('phi', 'select'):
                out = set()
                for x in (d.a if d.op == 'phi' else d.a[1:]):
                    out |= self.val_classes(F, x, kind, seen)
                return out
            if d.op in CASTS:
                return self.val_classes(F, d.a[0], kind, seen)
            if d.op in ('call', 'invoke'):
                G = self.P.resolve(F, d.x['callee'])
                if G is not None and ret_kind(G) == kind:
                    return set(self.classes[id(G)])
                if kind == 'ptr' and d.x['callee'] in ('@malloc', '@realloc', '@calloc', '@fopen', '@strdup'):
                    return {OK, ERR}
                return {TOP}
            if d.op in ('getelementptr', 'alloca'):
                return {OK}
        return {TOP}

    def ret_classes(self, F):
        k = ret_kind(F)
        out = set()
        for b in rpo(F):
            t = F.blocks[b].insts[-1]
            if t.op == 'ret' and t.a:
                out |= self.val_classes(F, t.a[0], k, set())
        return out

    def can_fail(self, G):
        return ret_kind(G) is not None and ERR in self.classes[id(G)]

    # ------------------------------------------------- caller side analysis
    def uses(self, F, res):
        u = F._cache.get('uses')
        if u is None:
            u = {}
            for I in F.insts():
                for x in I.a:
                    if isinstance(x, str) and x[0] == '%':
                        u.setdefault(x, []).append(I)
            F._cache['uses'] = u
        return u.get(res, [])

    def after(self, F, call, kind, assume, max_steps=60000):
        """Forward value-set propagation from `call` assuming its result is
        `assume` (ERR). Returns (set of return classes, tested?)."""
        b0 = call.bb
        # env per block: dict name -> frozenset of abstract values
        blocks = F.blocks

        def ev(env, v):
            if isinstance(v, int):
                return frozenset([v])
            if isinstance(v, tuple):
                return frozenset([0]) if v[0] == 'null' else frozenset([v if v[0] == 'f' else TOP])
            if v[0] == '@':
                return frozenset(['NN'])
            return env.get(v, frozenset([TOP]))

        def cmp1(p, a, b):
            """abstract compare -> set of {0,1}"""
            if isinstance(a, int) and isinstance(b, int):
                return {cmpop(p, a, b)}
            if a == ERR and b == 0:
                if kind == 'ptr':
                    return {1} if p in ('eq', 'sle', 'sge', 'ule', 'uge') else {0}
                return {int(p in ('ne', 'slt', 'sle', 'ugt', 'uge'))}
            if b == ERR and a == 0:
                if kind == 'ptr':
                    return {1} if p in ('eq', 'sle', 'sge', 'ule', 'uge') else {0}
                return {int(p in ('ne', 'sgt', 'sge', 'ult', 'ule'))}
            if a == ERR and isinstance(b, int) and b > 0:
                if p in ('eq', 'sgt', 'sge'):
                    return {0}
                if p in ('ne', 'slt', 'sle'):
                    return {1}
            return {0, 1}
        state = {}
        pos = {x: i for i, x in enumerate(rpo(F))}
        tested = [False]
        rets = []
        work = []

        def run_block(b, env, start):
            for I in blocks[b].insts[start:]:
                if I.op == 'phi':
                    continue
                if I.res is None:
                    continue
                if I.op == 'icmp':
                    A, B = ev(env, I.a[0]), ev(env, I.a[1])
                    out = set()
                    for x in A:
                        for y in B:
                            if x == ERR or y == ERR:
                                tested[0] = True
                            out |= cmp1(I.x, x, y)
                    env[I.res] = frozenset(out)
                elif I.op in CASTS:
                    env[I.res] = ev(env, I.a[0])
                elif I.op == 'select':
                    c = ev(env, I.a[0])
                    out = set()
                    if c != {0}:
                        out |= ev(env, I.a[1])
                    if c != {1}:
                        out |= ev(env, I.a[2])
                    env[I.res] = frozenset(out)
                elif I.op in ('add', 'sub', 'and', 'or', 'xor', 'mul'):
                    A, B = ev(env, I.a[0]), ev(env, I.a[1])
                    if len(A) == 1 and len(B) == 1:
                        a, c = next(iter(A)), next(iter(B))
                        if isinstance(a, int) and isinstance(c, int):
                            env[I.res] = frozenset([arith(I.op, a, c)])
                            continue
                        if I.op == 'or' and (a == ERR or c == ERR):
                            env[I.res] = frozenset([ERR])
                            continue
                        if I.op == 'xor' and isinstance(c, int) and a in (0, 1):
                            env[I.res] = frozenset([a ^ (c & 1)])
                            continue
                    env[I.res] = frozenset([TOP])
                else:
                    if I is not call:
                        env[I.res] = frozenset([TOP])
            return env

        def go(b, env):
            t = blocks[b].insts[-1]
            if t.op == 'ret':
                rets.append((b, ev(env, t.a[0]) if t.a else frozenset()))
                return
            for I in blocks[b].insts:
                if I.op in ('call',) and I.x['callee'] in ('@exit', '@abort', '@longjmp', '@_Exit'):
                    return
            if t.op == 'br' and t.a:
                c = ev(env, t.a[0])
                ss = []
                if 0 not in c or len(c) > 1 or TOP in c:
                    ss.append(t.x[0])
                if 1 not in c or len(c) > 1 or TOP in c:
                    ss.append(t.x[1])
                if c == {0}:
                    ss = [t.x[1]]
                elif c == {1}:
                    ss = [t.x[0]]
            elif t.op == 'switch':
                c = ev(env, t.a[0])
                ss = None
                if c == {ERR}:
                    ss = [l for k, l in t.x[1] if k < 0] + [t.x[0]]
                else:
                    ss = blocks[b].succs
            else:
                ss = blocks[b].succs
            for s in dict.fromkeys(ss):
                e2 = {}
                for I in blocks[s].insts:
                    if I.op != 'phi':
                        break
                    for v, l in I.x:
                        if l == b:
                            e2[I.res] = ev(env, v)
                ne = dict(env)
                ne.update(e2)
                old = state.get(s)
                if old is None:
                    state[s] = ne
                    work.append(s)
                else:
                    ch = False
                    for k in set(old) | set(ne):
                        x = old.get(k, frozenset([TOP]) if k not in ne or k in F._cache.get('none', ()) else None)
                        y = ne.get(k)
                        if x is None:
                            # k defined on the new path only
                            old[k] = y
                            ch = True
                            continue
                        if y is None:
                            continue
                        if not y <= x and TOP not in x:
                            z = x | y
                            old[k] = frozenset([TOP]) if TOP in z or len(z) > 4 else z
                            ch = True
                    if ch and s not in work:
                        work.append(s)
        env = {call.res: frozenset([assume])}
        env = run_block(b0, env, call.idx + 1)
        go(b0, env)
        n = 0
        while work:
            n += 1
            if n > max_steps:
                raise AnalysisError('error path analysis diverged in ' + F.name)
            work.sort(key=pos.get)
            b = work.pop(0)
            if b == b0:
                # back at the call: result overwritten; stop tracking
                e = dict(state[b])
                e = run_block(b, e, 0)
                e[call.res] = frozenset([TOP])
                state_b = e
                go(b, e)
                continue
            e = run_block(b, dict(state[b]), 0)
            go(b, e)
        return rets, tested[0]


def consts(P, F, stack):
    """-> {(constant, site function, line)} plus None for non-constants"""
    if id(F) in stack:
        return set()
    stack = stack | {id(F)}
    out = set()

    def val(v, I, seen, b=None):
        if isinstance(v, int):
            out.add((v, F.name, line(I, b)))
            return
        if isinstance(v, tuple):
            if v[0] == 'f':
                out.add((v, F.name, line(I, b)))
            return
        if not isinstance(v, str) or v in seen or v[0] == '@':
            return
        seen.add(v)
        d = F.defs.get(v)
        if d is None:
            return
        if d.op == 'phi':
            for x, l in d.x:
                val(x, d, seen, l)
        elif d.op == 'select':
            for x in d.a[1:]:
                val(x, d, seen)
        elif d.op in ('sext', 'zext', 'trunc', 'freeze', 'sitofp'):
            val(d.a[0], d, seen)
        elif d.op == 'call':
            G = P.resolve(F, d.x['callee'])
            if G is not None:
                out.update(consts(P, G, stack))

    def line(I, b):
        if b is not None:
            for J in reversed(F.blocks[b].insts):
                if J.line:
                    return J.line
        return I.line
    for b in rpo(F):
        t = F.blocks[b].insts[-1]
        if t.op == 'ret' and t.a:
            val(t.a[0], t, set())
    return out


