"""Path-sensitive forward analysis of short wrapper functions: every feasible path through the
intermediate representation (outcomes of modelled calls enumerated, branches on known values
followed on one side, unknown branches on both), with a store of terms per path.  Functions of the
analysed module are entered.  No solver and no execution: terms are compared for identity only.

terms  ('c', k)  ('p', i)  ('g', name)  ('al', site)  ('el', base, i)  ('fld', base, struct, i)
       ('ld', loc)  ('op', op, a, b)  plus whatever the model returns
"""
import irlib
import fwd
from irlib import AnalysisError
from fwd import cval


class Path(object):
    __slots__ = ('mem', 'ev', 'ret', 'flags', 'facts')

    def __init__(self, mem=None, ev=(), ret=None, flags=frozenset(), facts=None):
        self.mem, self.ev, self.ret, self.flags = mem or {}, ev, ret, flags
        self.facts = facts or {}


class Executor(object):
    """model(name or None, callee term, args, inst, F, ex, path) -> None (not modelled) or list of
    (result term, events, stores [(loc, term)], flags added)"""
    LIMIT = 4000

    def __init__(self, P, model, nonnull=lambda t: None, cmp=None):
        self.P, self.model, self.nonnull, self.cmp = P, model, nonnull, cmp
        self.n = 0
        self.steps = 0

    def run(self, F, args=None, mem=None):
        self.n = self.steps = 0
        args = [('p', i) for i in range(len(F.params))] if args is None else args
        return [(p, r) for p, r in self.go(F, args, Path(dict(mem or {})), ())]

    def go(self, F, args, path, stack):
        env = dict(zip(F.params, args))
        out = []
        work = [(F.order[0] if hasattr(F, 'order') else irlib.rpo(F)[0], None, 0, env, path, {})]
        while work:
            b, prev, start, env, path, cnt = work.pop()
            insts = F.blocks[b].insts
            if start == 0:
                cnt = dict(cnt)
                cnt[b] = cnt.get(b, 0) + 1
                if cnt[b] > 40:
                    raise AnalysisError('%s(): loop not bounded by constants' % F.name)
                new = {}
                for I in insts:
                    if I.op != 'phi':
                        break
                    for v, l in I.x:
                        if l == prev:
                            new[I.res] = self.val(env, v)
                env = dict(env)
                env.update(new)
            i = start
            while True:
                I = insts[i]
                i += 1
                self.steps += 1
                if self.steps > 2000000:
                    raise AnalysisError('%s(): too many paths' % F.name)
                op = I.op
                if op == 'phi':
                    continue
                if op == 'br':
                    if not I.a:
                        work.append((I.x[0], b, 0, env, path, cnt))
                    else:
                        t = self.val(env, I.a[0])
                        k = cval(t)
                        if k is None and t is not None:
                            k = path.facts.get(t)
                        if k is None:
                            self.n += 1
                            if self.n > self.LIMIT:
                                raise AnalysisError('%s(): too many undecided branches' % F.name)
                            for j, x in enumerate(I.x):
                                q = Path(dict(path.mem), path.ev, None, path.flags, dict(path.facts))
                                if t is not None:
                                    q.facts[t] = 1 - j
                                work.append((x, b, 0, dict(env), q, cnt))
                        else:
                            work.append((I.x[0] if k else I.x[1], b, 0, env, path, cnt))
                    break
                if op == 'switch':
                    k = cval(self.val(env, I.a[0]))
                    tg = set([I.x[0]] + [l for _, l in I.x[1]]) if k is None else [dict(I.x[1]).get(k, I.x[0])]
                    for x in tg:
                        q = Path(dict(path.mem), path.ev, None, path.flags, dict(path.facts))
                        work.append((x, b, 0, dict(env), q, cnt))
                    break
                if op == 'ret':
                    v = self.val(env, I.a[0]) if I.a else ('void',)
                    out.append((path, v))
                    break
                if op in ('unreachable', 'resume'):
                    break
                if op == 'store':
                    a = self.val(env, I.a[1])
                    if a is not None:
                        path.mem[a] = self.val(env, I.a[0])
                    continue
                if op in ('call', 'invoke'):
                    outs = self.call(F, I, env, path, stack)
                    nxt = []
                    for q, t in outs:
                        e = dict(env) if len(outs) > 1 else env
                        if I.res is not None:
                            e[I.res] = t
                        nxt.append((b, prev, i, e, q, cnt))
                    if op == 'invoke':
                        nxt = [(I.x['labels'][0], b, 0, e, q, c) for _, _, _, e, q, c in nxt]
                        work.extend(nxt)
                        break
                    if len(nxt) != 1:
                        work.extend(nxt)
                        break
                    env, path = nxt[0][3], nxt[0][4]
                    continue
                env[I.res] = self.pure(F, I, env, path, stack, b, i)
        return out

    def call(self, F, I, env, path, stack):
        cal = I.x['callee']
        ct = None
        if isinstance(cal, str) and cal.startswith('%'):
            ct = self.val(env, cal)
            if ct and ct[0] == 'g':
                cal = ct[1]
        nm = cal[1:].strip('"') if isinstance(cal, str) and cal.startswith('@') else None
        if nm and nm.startswith('llvm.'):
            return [(path, None)]
        av = [self.val(env, x) for x in I.a]
        r = self.model(nm, ct, av, I, F, self, path)
        if r is not None:
            outs = []
            for t, ev, st, fl in r:
                q = Path(dict(path.mem), path.ev + tuple(ev), None, path.flags | frozenset(fl), dict(path.facts)) if len(r) > 1 else path
                if len(r) == 1:
                    q.ev = q.ev + tuple(ev)
                    q.flags = q.flags | frozenset(fl)
                for l, v in st:
                    if l is not None:
                        q.mem[l] = v
                outs.append((q, t))
            self.n += len(r) - 1
            return outs
        G = self.P.resolve(F, cal) if nm else None
        if G is not None and len(stack) < 6 and G.name not in stack:
            return self.go(G, av, path, stack + (G.name,))
        # unknown: writes what it is handed
        for a in av:
            b = self.base(a)
            if b is not None and b[0] == 'al':
                for k in list(path.mem):
                    if self.base(k) == b:
                        path.mem[k] = None
        path.ev = path.ev + (('call', nm, tuple(av), F, I),)
        return [(path, ('call', nm, tuple(av)) if nm else None)]

    def pure(self, F, I, env, path, stack, b, i):
        op = I.op
        if op == 'alloca':
            return ('al', (stack, F.name, I.res))
        if op == 'load':
            a = self.val(env, I.a[0])
            if a is None:
                return self.fresh()
            if a in path.mem:
                t = path.mem[a]
                return self.fresh() if t is None else t
            if self.base(a)[0] == 'al':
                return self.fresh()
            return ('ld', a)
        if op == 'getelementptr':
            t = self.val(env, I.a[0])
            idx = [self.val(env, x) for x in I.a[1:]]
            return self.gep(t, I.ty, idx)
        if op in irlib._casts:
            a = self.val(env, I.a[0])
            if a is None:
                return None
            if cval(a) is not None and op in ('sitofp', 'uitofp'):
                return ('c', float(cval(a)))
            return a if op in ('sext', 'zext', 'trunc', 'bitcast', 'fpext', 'inttoptr', 'ptrtoint') else ('op', op, a)
        if op in ('icmp', 'fcmp'):
            a, c = self.val(env, I.a[0]), self.val(env, I.a[1])
            ka, kc = cval(a), cval(c)
            if ka is not None and kc is not None:
                r = fwd.Fwd.fold(I.x, ka, kc)
                return None if r is None else ('c', int(r))
            for x, k, fl in ((a, kc, False), (c, ka, True)):
                if x is None or k is None:
                    continue
                if k == 0 and self.nonnull(x) and I.x in ('eq', 'ne'):
                    return ('c', int(I.x == 'ne'))
                if self.cmp:
                    r = self.cmp(x, I.x, k, fl)
                    if r is not None:
                        return ('c', int(r))
            return ('op', I.x, a, c) if a is not None and c is not None else None
        if op == 'select':
            k = self.val(env, I.a[0])
            if cval(k) is None and k is not None and k in path.facts:
                k = ('c', path.facts[k])
            if cval(k) is not None:
                return self.val(env, I.a[1] if cval(k) else I.a[2])
            x, y = self.val(env, I.a[1]), self.val(env, I.a[2])
            return x if x == y else None
        if op == 'fneg' or op in irlib._binops:
            vs = [self.val(env, x) for x in I.a]
            ks = [cval(v) for v in vs]
            if len(ks) == 2 and all(isinstance(k, int) for k in ks):
                f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
                     'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}.get(op)
                if f:
                    return ('c', f(*ks))
            return ('op', op) + tuple(vs) if None not in vs else None
        return None

    def gep(self, t, ty, idx):
        if t is None or None in idx:
            return None
        first = idx[0]
        if first != ('c', 0):
            k = cval(first)
            if k is not None and t[0] == 'el' and isinstance(t[2], int):
                t = ('el', t[1], t[2] + k) if t[2] + k else t[1]
            else:
                t = ('el', t, k if k is not None else first)
        cur = str(ty)
        for x in idx[1:]:
            if cur.startswith('['):
                cur = cur[cur.index(' x ') + 3:-1]
                if x != ('c', 0):
                    t = ('el', t, cval(x) if cval(x) is not None else x)
            else:
                if cval(x) is None:
                    return None
                t = ('fld', t, cur, cval(x))
                cur = '?'
        return t

    def fresh(self):
        self.unk = getattr(self, 'unk', 0) + 1
        return ('unk', self.unk)

    def base(self, t):
        while isinstance(t, tuple) and t and t[0] in ('el', 'fld'):
            t = t[1]
        return t

    def val(self, env, v):
        if isinstance(v, bool):
            return ('c', int(v))
        if isinstance(v, (int, float)):
            return ('c', v)
        if isinstance(v, str):
            if v in env:
                return env[v]
            return ('g', v) if v.startswith('@') else None
        if isinstance(v, tuple) and v:
            if v[0] in ('null', 'zeroinitializer'):
                return ('c', 0)
            if v[0] == 'f':
                return fwd.Fwd.val(None, {}, v, None)
            if v[0] == 'gepc':
                return self.gep(self.val(env, v[2]), v[1], [self.val(env, x) for x in v[3]])
        return None
