"""C24: finite difference runs undo their perturbations.

Path-sensitive constant propagation over xrtm_fd_solution() and the functions of its file:
each loop body is taken once with a symbolic position, the signs and step factors are
constants on each path.  Tracked: for every input the total perturbation applied so far (in
units of the given perturbation), for every result buffer the total perturbation it was
computed with, and the linear combination of results that is stored in each derivative.

At the end of each derivative the total must be zero for all inputs, all inputs must have
had the same perturbation whenever a result was computed, and the stored combination must
be a difference quotient: weights that add up to zero and whose first moment is one, over
the step.
"""
import re
from fractions import Fraction
import irlib, sym, defs
from common import prog, where, rel
from irlib import AnalysisError
import checks.c05 as c05
import checks.c08 as c08
from checks.c08 import SUFFIX, fval

LEVEL = 'other'
SOLVE = {'xrtm_solution': (4, 5), 'xrtm_radiance': (3, 4)}
MAXPATHS = 6000
CASTS = ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc')


class Val(object):
    """sum of coefficient * atom, times delta ** d"""
    __slots__ = ('t', 'd')

    def __init__(self, t, d=0):
        self.t = {k: v for k, v in t.items() if v}
        self.d = d

    def num(self):
        if self.d == 0 and set(self.t) <= {None}:
            return self.t.get(None, Fraction(0))
        return None

    def __eq__(self, o):
        return isinstance(o, Val) and self.t == o.t and self.d == o.d

    def __hash__(self):
        return hash((frozenset(self.t.items()), self.d))


def vadd(a, b, s=1):
    if not isinstance(a, Val) or not isinstance(b, Val):
        return None
    if a.t and b.t and a.d != b.d:
        return None
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + s * v
    return Val(t, a.d if a.t else b.d)


def vmul(a, b):
    if not isinstance(a, Val) or not isinstance(b, Val):
        return None
    for x, y in ((a, b), (b, a)):
        if set(x.t) <= {None}:
            c = x.t.get(None, Fraction(0))
            return Val({k: v * c for k, v in y.t.items()}, x.d + y.d)
    return None


def vdiv(a, b):
    if not isinstance(a, Val) or not isinstance(b, Val) or set(b.t) != {None}:
        return None
    return Val({k: v / b.t[None] for k, v in a.t.items()}, a.d - b.d)


def regs(x):
    if isinstance(x, str):
        return {x} if x[:1] == '%' else set()
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= regs(y)
        return r
    return set()


class State(object):
    __slots__ = ('offs', 'buf', 'conds')

    def __init__(self, offs=None, buf=None, conds=None):
        self.offs = offs or {}
        self.buf = buf or {}
        self.conds = conds or {}

    def copy(self):
        return State(dict(self.offs), dict(self.buf), dict(self.conds))

    def key(self):
        return (frozenset(self.offs.items()), frozenset((k, v) for k, v in self.buf.items()), frozenset(self.conds.items()))


class Run(object):
    def __init__(self, P, R, F, S):
        self.P, self.R, self.F, self.S = P, R, F, S
        self.setters = {}
        self.getters = {}
        for s in defs.load('xrtm'):
            if s.kind == 'general' and s.name.startswith('set_'):
                self.setters[s.full] = s
            if s.kind == 'general' and s.name.startswith('get_'):
                self.getters[s.full] = s
        self.touch = {}
        self.paths = 0
        self.live = {}
        self.bad = set()
        self.solves = 0
        self.sets = 0
        self.loops = {}
        self.ends = 0
        self.jvar = None
        fdef = [s for s in defs.load('xrtm_fd') if s.name == 'solution'][0]
        n = {a.name: k + 1 for k, a in enumerate(fdef.args)}
        self.outs = {('p', n['K_p']): 'p', ('p', n['K_m']): 'm'}
        self.main_loop = None

    # is G interesting (module local, perturbs, solves or writes results)?
    def local(self, G):
        return G is not None and G.module == self.F.module and not G.name.startswith('xrtm_fd_set') and not G.name.startswith('xrtm_fd_get')

    def relevant(self, G, seen=()):
        k = id(G)
        if k not in self.touch:
            self.touch[k] = False
            r = False
            for I in G.insts():
                if I.op in ('call', 'invoke'):
                    c = I.x['callee']
                    if isinstance(c, str) and c[1:] in SOLVE or isinstance(c, str) and c[1:] in self.setters:
                        r = True
                        break
                    H = self.P.resolve(G, c)
                    if self.local(H) and self.relevant(H):
                        r = True
                        break
            self.touch[k] = r
        return self.touch[k]

    def liveness(self, G):
        k = id(G)
        if k not in self.live:
            use, de = {}, {}
            pu = {}
            for b in G.blocks:
                u, d = set(), set()
                for I in G.blocks[b].insts:
                    if I.op == 'phi':
                        for val, l in I.x:
                            pu.setdefault((l, b), set()).update(regs(val))
                            u |= regs(val)
                        d.add(I.res)
                        continue
                    for a in I.a or ():
                        u |= regs(a) - d
                    if I.op in ('call', 'invoke') and isinstance(I.x['callee'], str):
                        u |= regs(I.x['callee']) - d
                    if I.res:
                        d.add(I.res)
                use[b], de[b] = u, d
            inn = {b: set(use[b]) for b in G.blocks}
            ch = True
            while ch:
                ch = False
                for b in reversed(list(G.order)):
                    n = set(use[b])
                    for s in G.blocks[b].succs:
                        n |= inn[s] - de[b]
                    if n - inn[b]:
                        inn[b] |= n
                        ch = True
            self.live[k] = inn
        return self.live[k]

    def loopinfo(self, G):
        """header -> set of blocks"""
        k = id(G)
        if k in self.loops:
            return self.loops[k]
        out = {}
        for b in irlib.rpo(G):
            for h in G.blocks[b].succs:
                if irlib.dominates(G, h, b):
                    body = out.setdefault(h, {h})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(G.blocks[x].preds)
        self.loops[k] = out
        return out

    def has_solve(self, G, blocks):
        for b in blocks:
            for I in G.blocks[b].insts:
                if I.op in ('call', 'invoke'):
                    c = I.x['callee']
                    if isinstance(c, str) and c[1:] in SOLVE:
                        return True
                    H = self.P.resolve(G, c)
                    if self.local(H) and self.solves_in(H):
                        return True
        return False

    def solves_in(self, G):
        return self.has_solve(G, G.blocks) if self.relevant(G) else False

    # ------------------------------------------------------------------ values
    def v(self, G, env, x):
        if isinstance(x, int):
            return x
        if isinstance(x, tuple):
            if x[0] == 'f':
                f = fval(x[1])
                return Val({None: Fraction(f)}) if f is not None else None
            if x[0] == 'null':
                return 0
            if x[0] == 'gepc':
                return self.v(G, env, x[2])
            return None
        if isinstance(x, str) and x[0] == '@':
            return ('g', x)
        return env.get(x)

    def call(self, F, args, st, depth):
        """[(state, result)]"""
        if depth > 6:
            raise AnalysisError('call depth')
        loops = self.loopinfo(F)
        out = []
        env0 = dict(zip(F.params, args))
        wl = [(F.order[0], None, 0, env0, st, {}, None)]
        live = self.liveness(F)
        done = set()
        paths = 0
        while wl:
            b, prev, pos, env, st, visits, _ = wl.pop()
            for x in self.bad:
                if x in st.offs:
                    st = st.copy()
                    del st.offs[x]
            if pos == 0:
                env = {k: v for k, v in env.items() if k in live[b]}
                kk = (b, prev, st.key(), frozenset(visits.items()), tuple(sorted((k, repr(v) if not isinstance(v, Val) else hash(v)) for k, v in env.items())))
                if kk in done:
                    continue
                done.add(kk)
            self.paths += 1
            paths += 1
            if paths > MAXPATHS:
                raise AnalysisError('too many paths in %s' % F.name)
            if pos == 0:
                env = dict(env)
                st = st.copy()
                visits = dict(visits)
                if b in loops and prev in loops[b]:
                    visits[b] = 2
                elif b in loops:
                    visits[b] = 1
                main = b in loops and self.has_solve(F, loops[b])
                if main and visits[b] == 2:
                    self.end(F, st)
                new = {}
                for I in F.blocks[b].insts:
                    if I.op != 'phi':
                        break
                    if b in loops and I.ty in ('i32', 'i64'):
                        new[I.res] = ('iv', F.name, I.res, depth)
                        if main:
                            self.jvar = new[I.res]
                    else:
                        for val, l in I.x:
                            if l == prev:
                                new[I.res] = self.v(F, env, val)
                env.update(new)
            insts = F.blocks[b].insts
            k = pos
            dead = False
            forked = False
            while k < len(insts):
                I = insts[k]
                k += 1
                if I.op == 'phi':
                    continue
                if I.op in ('call', 'invoke'):
                    rs = self.docall(F, env, st, I, depth)
                    if rs is None:
                        dead = True
                        break
                    if len(rs) == 1:
                        st, r = rs[0]
                        env[I.res] = r
                    else:
                        for s2, r in rs:
                            e2 = dict(env)
                            e2[I.res] = r
                            wl.append((b, prev, k, e2, s2.copy(), dict(visits), None))
                        forked = True
                        break
                elif I.op == 'ret':
                    out.append((st, self.v(F, env, I.a[0]) if I.a else 0))
                elif I.op in ('br', 'switch', 'unreachable'):
                    pass
                else:
                    self.step(F, env, st, I)
            if dead or forked or not insts:
                continue
            t = insts[-1]
            for s2, tgt in self.branch(F, env, st, t, b, visits, loops):
                wl.append((tgt, b, 0, env, s2, visits, None))
        # merge identical outcomes
        seen = {}
        for s, r in out:
            seen[(s.key(), repr(r))] = (s, r)
        return list(seen.values())

    def branch(self, F, env, st, t, b, visits, loops):
        succs = F.blocks[b].succs
        if t.op == 'br' and t.a:
            c = self.v(F, env, t.a[0])
            if b in loops and not isinstance(c, int):
                inside = [s for s in succs if s in loops[b]]
                outside = [s for s in succs if s not in loops[b]]
                if inside and outside:
                    return [(st, s) for s in (inside if visits.get(b) == 1 else outside)]
            if isinstance(c, int):
                return [(st, t.x[0] if c else t.x[1])]
            if c is not None:
                c, neg = (c[1], True) if c[0] == 'not' else (c, False)
                if c in st.conds:
                    r = st.conds[c] != neg
                    return [(st, t.x[0] if r else t.x[1])]
                out = []
                for r in (True, False):
                    s2 = st.copy()
                    if 'iv' not in repr(c):
                        s2.conds[c] = r
                    out.append((s2, t.x[0] if r != neg else t.x[1]))
                return out
            return [(st, s) for s in succs]
        if t.op == 'switch':
            c = self.v(F, env, t.a[0])
            if isinstance(c, int):
                for k, l in t.x[1]:
                    if k == c:
                        return [(st, l)]
                return [(st, t.x[0])]
            out = []
            if c is not None:
                for k, l in t.x[1]:
                    q = ('cmp', 'eq', c, k)
                    if st.conds.get(q) is False or any(x[0] == 'cmp' and x[1] == 'eq' and x[2] == c and x[3] != k and v for x, v in st.conds.items()):
                        continue
                    s2 = st.copy()
                    s2.conds[q] = True
                    out.append((s2, l))
                if not any(x[0] == 'cmp' and x[1] == 'eq' and x[2] == c and v for x, v in st.conds.items()):
                    s2 = st.copy()
                    for k, l in t.x[1]:
                        s2.conds[('cmp', 'eq', c, k)] = False
                    out.append((s2, t.x[0]))
                return out
            return [(st, s) for s in succs]
        return [(st, s) for s in succs]

    def step(self, F, env, st, I):
        op = I.op
        v = lambda n: self.v(F, env, I.a[n])
        r = None
        if op in CASTS:
            r = v(0)
        elif op == 'getelementptr':
            p = v(0)
            if isinstance(p, tuple) and p[0] == 'ptr':
                ty = I.ty.strip('"')
                path, idx = p[2], p[3]
                if ty.startswith('%') and len(I.a) >= 3 and isinstance(I.a[2], int):
                    fl = self.P.fields_of(F, I.ty)
                    path = path + ((fl[I.a[2]] if fl and I.a[2] < len(fl) else 'f%d' % I.a[2]),)
                    if I.a[1] != 0:
                        idx = idx + (v(1),)
                else:
                    for n in range(1, len(I.a)):
                        if not (I.a[n] == 0 and len(I.a) > 2 and n == 1):
                            idx = idx + (v(n),)
                r = ('ptr', p[1], path, idx)
        elif op == 'alloca':
            r = ('ptr', ('loc', F.name, I.res), (), ())
        elif op == 'load':
            r = self.load(st, v(0), I.ty)
        elif op == 'store':
            self.store(F, st, v(1), v(0), I)
            return
        elif op == 'fneg':
            r = vmul(Val({None: Fraction(-1)}), v(0))
        elif op == 'fadd':
            r = vadd(v(0), v(1))
        elif op == 'fsub':
            r = vadd(v(0), v(1), -1)
        elif op == 'fmul':
            r = vmul(v(0), v(1))
        elif op == 'fdiv':
            r = vdiv(v(0), v(1))
        elif op in ('sitofp', 'uitofp'):
            x = v(0)
            r = Val({None: Fraction(x)}) if isinstance(x, int) else None
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'sdiv', 'srem'):
            x, y = v(0), v(1)
            if isinstance(x, int) and isinstance(y, int):
                import flow
                r = flow.arith(op, x, y)
            elif op in ('and', 'mul') and (x == 0 or y == 0):
                r = 0
            elif op == 'xor' and I.ty == 'i1' and y in (1, -1) and x is not None:
                r = x[1] if x[0] == 'not' else ('not', x)
            elif x is not None and y is not None and not isinstance(x, Val) and not isinstance(y, Val):
                r = (op, x, y)
        elif op == 'icmp':
            x, y = v(0), v(1)
            if isinstance(x, int) and isinstance(y, int):
                import flow
                r = flow.cmpop(I.x, x, y)
                r = int(r) if r is not None else None
            elif isinstance(x, tuple) and x[0] == 'ptr' and y == 0:
                r = int(I.x == 'ne')
            elif x is not None and y is not None:
                p = I.x
                if p in ('ne', 'sge', 'sle', 'uge', 'ule'):
                    q = {'ne': 'eq', 'sge': 'slt', 'sle': 'sgt', 'uge': 'ult', 'ule': 'ugt'}[p]
                    r = ('not', ('cmp', q, x, y))
                else:
                    r = ('cmp', p, x, y)
        elif op == 'fcmp':
            x, y = v(0), v(1)
            if isinstance(x, Val) and isinstance(y, Val) and x.num() is not None and y.num() is not None:
                a, b = x.num(), y.num()
                p = I.x.split()[-1] if isinstance(I.x, str) else I.x
                r = {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}.get(p[1:])
                r = int(r) if r is not None else None
        elif op == 'select':
            c = v(0)
            if isinstance(c, int):
                r = v(1) if c else v(2)
        env[I.res] = r

    def load(self, st, p, ty):
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        root, path, idx = p[1:]
        if ty == 'ptr':
            return ('ptr', root, path + ('*',) if path and path[-1] == 'd' else path, idx)
        k = (root, path)
        if ty in ('double', 'float'):
            if root == ('p', 0) and path == ('delta',):
                return Val({None: Fraction(1)}, 1)
            if root == ('p', 0) and len(path) == 1:
                return Val({('P', path[0], idx): Fraction(1)})
            b = st.buf.get(k)
            if b is None:
                return Val({('mem', k, idx): Fraction(1)}) if root[0] != 'loc' else None
            val, sidx = b
            if val is None:
                return None
            return remap(val, sidx, idx)
        b = st.buf.get(k)
        if b is not None and not isinstance(b[0], Val):
            return b[0]
        return ('load', root, path, idx)

    def store(self, F, st, p, x, I):
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            return
        root, path, idx = p[1:]
        if root == ('p', 0) and path[:2] == ('d', '*'):
            self.R.add('direct:%s' % path[-1], '%s() changes %s of the model instance directly' % (F.name, path[-1]), where(F, I))
        st.buf[(root, path)] = (x, idx)
        if root in self.outs and isinstance(x, Val):
            self.element(F, x, idx, self.outs[root], I)

    def element(self, F, x, idx, way, I):
        n = [k for k, i in enumerate(idx) if i == self.jvar]
        if len(n) != 1:
            self.R.add('deriv:%s' % way, '%s() does not store the result of derivative j as that derivative' % F.name, where(F, I))
            return
        rest = tuple(i for i in idx if i != self.jvar)
        for a in x.t:
            if a is not None and a[0] == 'S' and a[3] != rest and a[3] != idx:
                self.R.add('result-element:%s' % way, '%s() stores the difference of another element' % F.name, where(F, I))
            if a is not None and a[0] == 'S' and a[1] != way:
                self.R.add('result-direction:%s' % way, '%s() takes the %s radiance for the derivative of the %s one' % (
                    F.name, 'downward' if a[1] == 'm' else 'upward', 'downward' if way == 'm' else 'upward'), where(F, I))

    # ------------------------------------------------------------------- calls
    def docall(self, F, env, st, I, depth):
        c = I.x['callee']
        nm = c[1:] if isinstance(c, str) and c[0] == '@' else ''
        args = [self.v(F, env, a) for a in I.a]
        if nm in ('exit', 'abort'):
            return None
        if nm.startswith('llvm.fmuladd') or nm.startswith('llvm.fma.'):
            return [(st, vadd(vmul(args[0], args[1]), args[2]))]
        if nm in SOLVE:
            return [(self.solve(F, st, I, nm, args), 0)]
        if nm in self.setters:
            return [(self.set(F, st, I, self.setters[nm], args), 0)]
        if nm in self.getters:
            s = self.getters[nm]
            out = [n for n, a in enumerate(s.args) if a.io == 'out']
            x = s.name[4:]
            if not out:
                if s.rtype == 'double':
                    return [(st, Val({('get', x, tuple(args[1:])): Fraction(1)}))]
                return [(st, ('get', x) + tuple(args[1:]))]
            st = st.copy()
            for n in out:
                p = args[n + 1]
                if isinstance(p, tuple) and p[0] == 'ptr':
                    st.buf[(p[1], p[2])] = (Val({('get', x, ()): Fraction(1)}), ())
            return [(st, 0)]
        G = self.P.resolve(F, c)
        if self.local(G) and G.name.startswith('xrtm_fd_') is False or self.local(G) and self.relevant(G):
            return self.call(G, args, st, depth + 1)
        if nm.startswith('alloc_') or nm.startswith('get_work') or nm in ('malloc', 'calloc'):
            return [(st, ('ptr', ('heap', F.name, I.res), (), ()))]
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove') or nm in ('memcpy', 'memmove'):
            d, s = args[0], args[1]
            if isinstance(d, tuple) and isinstance(s, tuple) and d[0] == 'ptr' and s[0] == 'ptr':
                st = st.copy()
                st.buf[(d[1], d[2])] = st.buf.get((s[1], s[2]), (None, ()))
            return [(st, 0)]
        return [(st, ('call', nm) + tuple(a if not isinstance(a, Val) else 'v' for a in args) if I.res else 0)]

    def offset(self, st):
        return frozenset((k, v) for k, v in st.offs.items() if v)

    def solve(self, F, st, I, nm, args):
        self.solves += 1
        st = st.copy()
        vs = {v for v in st.offs.values()}
        # inputs not yet touched on this path have offset zero: they are compared at the end
        if len(vs) > 1:
            self.R.add('uneven', '%s() computes a result while %s' % (F.name, ', '.join('%s is perturbed by %s' % (k, v) for k, v in sorted(st.offs.items()))[:300]), where(F, I))
        off = max(vs, key=abs) if vs else Fraction(0)
        if not (isinstance(args[0], tuple) and args[0][:3] == ('ptr', ('p', 0), ('d', '*'))):
            self.R.add('instance', '%s() solves another instance' % F.name, where(F, I))
        s = [x for x in defs.load('xrtm') if x.full == nm][0]
        n = {a.name: k + 1 for k, a in enumerate(s.args)}
        for way in 'pm':
            p = args[n['I_' + way]]
            if isinstance(p, tuple) and p[0] == 'ptr':
                st.buf[(p[1], p[2])] = (Val({('S', way, off, ()): Fraction(1)}), ())
        return st

    def set(self, F, st, I, s, args):
        self.sets += 1
        st = st.copy()
        x = SUFFIX.sub('', s.name[4:])
        loc = where(F, I)
        idx = tuple(args[n + 1] for n, a in enumerate(s.args) if a.rank == 0 and a.name.startswith('i_'))
        val = args[-1]
        if not (isinstance(args[0], tuple) and args[0][:3] == ('ptr', ('p', 0), ('d', '*'))):
            self.R.add('instance:%s' % x, '%s() perturbs another instance' % F.name, loc)
        if isinstance(val, tuple) and val[0] == 'ptr':
            b = st.buf.get((val[1], val[2]))
            val, sidx = b if b is not None else (None, ())
            idx = idx + sidx
        f = self.perturbation(x, val, idx)
        if isinstance(f, str):
            self.R.add('form:%s' % x, '%s() sets %s to %s' % (F.name, x, f), loc)
            self.bad.add(x)
            st.offs.pop(x, None)
            return st
        st.offs[x] = st.offs.get(x, Fraction(0)) + f
        return st

    def perturbation(self, x, val, idx):
        if not isinstance(val, Val) or val.d:
            return 'a value that is not its present value plus a multiple of its perturbation'
        g = [(a, c) for a, c in val.t.items() if a is not None and a[0] == 'get']
        p = [(a, c) for a, c in val.t.items() if a is not None and a[0] == 'P']
        if len(g) != 1 or len(p) > 1 or len(g) + len(p) != len(val.t) or g[0][1] != 1:
            return 'a value that is not its present value plus a multiple of its perturbation'
        if g[0][0][1] != x:
            return 'a value based on the present value of %s' % g[0][0][1]
        if g[0][0][2] != idx:
            return 'a value based on the present value of another element'
        if not p:
            return Fraction(0)
        if p[0][0][1] != x + '_p':
            return 'a value perturbed by %s' % p[0][0][1]
        pi = p[0][0][2]
        if pi.count(self.jvar) != 1 or tuple(i for i in pi if i != self.jvar) != idx:
            return 'a value perturbed by the perturbation of another element'
        return p[0][1]

    # ----------------------------------------------------------- end of a derivative
    def end(self, F, st):
        self.ends += 1
        self.net(F, st)
        for root, way in self.outs.items():
            b = st.buf.get((root, ()))
            dn = 'upward' if way == 'p' else 'downward'
            if b is None or b[0] is None:
                self.R.add('quotient:%s' % way, '%s(): the derivative of the %s radiance is not a difference quotient of results' % (F.name, dn), where(F))
                continue
            val = b[0]
            w = {}
            for a, c in val.t.items():
                if a is None or a[0] != 'S':
                    self.R.add('quotient:%s' % way, '%s(): the derivative of the %s radiance is not a difference quotient of results' % (F.name, dn), where(F))
                    w = None
                    break
                w[a[2]] = w.get(a[2], 0) + c
            if w is None:
                continue
            if val.d != -1 or sum(w.values()) != 0 or sum(k * c for k, c in w.items()) != 1:
                self.R.add('quotient:%s' % way, '%s(): the derivative of the %s radiance combines results computed at steps %s with weights %s, which is not a difference quotient' % (
                    F.name, dn, [str(k) for k in sorted(w)], [str(w[k]) for k in sorted(w)]), where(F), conditions=[str(c) for c in st.conds.items()])
        for root in list(self.outs):
            st.buf.pop((root, ()), None)

    def net(self, F, st):
        for x, v in sorted(st.offs.items()):
            if v:
                self.R.add('net:%s' % x, '%s() leaves %s perturbed by %s times its perturbation' % (F.name, x, v), where(F), conditions=[str(c) for c in st.conds.items()])


def remap(val, sidx, idx):
    """value stored at positions sidx, read at positions idx"""
    t = {}
    for a, c in val.t.items():
        if a is not None and a[0] in ('get', 'P'):
            ai = a[2]
            if sidx and len(sidx) == len(idx):
                m = dict(zip(sidx, idx))
                ai = tuple(m.get(i, i) for i in ai)
            elif not sidx:
                ai = ai + idx
            a = (a[0], a[1], ai)
        elif a is not None and a[0] == 'S':
            ai = a[3]
            if not sidx:
                ai = ai + idx
            elif len(sidx) == len(idx):
                m = dict(zip(sidx, idx))
                ai = tuple(m.get(i, i) for i in ai)
            a = (a[0], a[1], a[2], ai)
        t[a] = t.get(a, 0) + c
    return Val(t, val.d)


def coverage(R, P, F, cov):
    """every input that can be perturbed is perturbed, over its whole range"""
    inputs = set()
    for s in defs.load('xrtm_fd'):
        if s.name.startswith('set_') and s.name != 'set_delta':
            inputs.add(SUFFIX.sub('', s.name[4:])[:-2])
    S = sym.Sym(P, lambda G: G.module == F.module)
    api, mods, S5 = c05.make(P)
    sdefs = {s.full: s for s in defs.load('xrtm')}
    seen = {}
    for A in S.accesses(F):
        if A.kind == 'call' and A.name in sdefs and A.name.startswith('xrtm_set_'):
            s = sdefs[A.name]
            x = SUFFIX.sub('', s.name[4:])
            seen.setdefault(x, []).append(A)
            ro = [(n + 1, a.name) for n, a in enumerate(s.args) if a.rank == 0 and a.name.startswith('i_')]
            for n, nm in ro:
                e = A.val[n]
                cov['ranges'] += 1
                if e[0] != 'rng' or e[1] != ('c', 0):
                    R.add('range:%s:%s' % (x, nm), '%s() perturbs %s only for %s = %s' % (A.F.name, x, nm, sym.show(e)), where(A.F, A.I))
                    continue
                ok = bounds(P, S5, s, n)
                if ok and tail(e[2]) not in ok:
                    R.add('range:%s:%s' % (x, nm), '%s() perturbs %s only for %s below %s' % (A.F.name, x, nm, sym.show(e[2])), where(A.F, A.I))
            for f in A.facts:
                if not allowed(f):
                    R.add('only-if:%s' % x, '%s() perturbs %s only if %s %s %s' % (A.F.name, x, sym.show(f[2]), f[1], sym.show(f[3])), where(A.F, A.I))
    for x in sorted(inputs):
        cov['inputs'] += 1
        if x not in seen:
            R.add('not-perturbed:%s' % x, 'xrtm_fd_solution() never perturbs %s, for which perturbations can be set' % x, where(F))
    for x in sorted(set(seen) - inputs):
        R.add('extra:%s' % x, 'xrtm_fd_solution() perturbs %s, for which no perturbation can be set' % x, where(F))


def tail(e):
    """identity of a bound: last member or function, plus a constant"""
    if e[0] == '+':
        t = tail(e[1])
        return (t[0], t[1] + e[2]) if t else None
    if e[0] == 'ld':
        a = e[1]
        while a[0] == 'el':
            a = a[1]
            if a[0] == 'ld':
                a = a[1]
        return (a[3], 0) if a[0] == 'fld' else None
    if e[0] == 'call':
        return (e[1], 0)
    return None


def bounds(P, S, s, n):
    """bounds of index argument n that the set function accepts"""
    out = set()
    F = P.need(s.full)
    for v, fs in S.returns(F):
        for f in fs:
            if f[0] == 'cmp' and f[1] == 'slt' and f[2] == ('p', n):
                out.add(tail(f[3]))
            elif f[0] == 'cmp' and f[1] == 'sgt' and f[3] == ('p', n):
                out.add(tail(f[2]))
    return out - {None}


def allowed(f):
    if f[0] != 'cmp':
        return True
    a, b = f[2], f[3]
    for x, y in ((a, b), (b, a)):
        if x[0] == 'rng' and (lin_eq(x[2], y) or f[1] in ('sge', 'uge') and y == x[2]):
            return True
        if x[0] == 'call' and y[0] in ('c', 'null'):
            return True
        if x[0] == 'bin' and x[1] == 'and' and (y == ('c', 0) or y[0] == 'c'):
            return options(x[2]) or options(x[3])
        if x[0] == 'p' and y[0] == 'c':
            return True           # method
        if x[0] == 'ld' and y[0] == 'cf' and f[1] in ('une', 'one') and member_p(x[1]):
            return True
    return False


def lin_eq(a, b):
    return a == b or a[0] == 'c' and b[0] == 'c'


def options(e):
    return e[0] == 'p' or e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] in ('options', 'solvers')


def member_p(a):
    while a[0] in ('el', 'ld'):
        a = a[1]
    return a[0] == 'fld' and a[3].endswith('_p')


def run(R, tier):
    P = prog('src', 'misc')
    F = P.need('xrtm_fd_solution')
    S = sym.Sym(P, lambda G: False)
    X = Run(P, R, F, S)
    cov = dict(inputs=0, ranges=0)
    args = [('ptr', ('p', k), (), ()) if F.ptypes[k] == 'ptr' else ('arg', k) for k in range(len(F.params))]
    for st, r in X.call(F, args, State(), 0):
        if r == 0:
            X.net(F, st)
    coverage(R, P, F, cov)
    if not X.ends or not X.solves or not X.sets:
        raise AnalysisError('no finite difference step was found in xrtm_fd_solution()')
    cov.update(path_segments=X.paths, results_computed=X.solves, perturbing_calls=X.sets, derivative_ends=X.ends)
    R.instances = cov['inputs'] + cov['ranges'] + X.ends
    R.coverage = cov
    R.explanation = ('path-sensitive constant propagation of the perturbation of every input and of the combination of '
                     'results through xrtm_fd_solution() and its helpers; index ranges of all perturbing calls')
    R.assumptions = ['clang IR after mem2reg represents the source', 'loops over positions treat all positions alike',
                     'runs in which a call fails are not followed to the end',
                     'rounding of the sums is not considered']
