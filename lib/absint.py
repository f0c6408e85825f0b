"""Abstract interpretation of integers: intervals with known bits, path by path.

Values: AI(lo, hi, k0, k1) for integers (k0/k1: bits known to be clear/set, 64 bit two's
complement masks of the value), ('p', root, path) for pointers, None for anything.
A branch that the abstract value does not decide is taken both ways; equal states are
merged.  A call that allocates ends the path with the outcome 'beyond'.
"""
import re
import irlib
from irlib import AnalysisError

LO, HI = -(1 << 63), (1 << 63) - 1
M = (1 << 64) - 1


class AI(object):
    __slots__ = ('lo', 'hi', 'k0', 'k1')

    def __init__(self, lo, hi, k0=0, k1=0):
        if lo == hi:
            k1 = lo & M
            k0 = ~lo & M
        elif (k0 | k1) == M:
            lo = hi = k1 - (1 << 64) if k1 >> 63 else k1
        elif lo >= 0:
            n = hi.bit_length()
            k0 |= M & ~((1 << n) - 1)
        self.lo, self.hi, self.k0, self.k1 = lo, hi, k0 & M, k1 & M

    def const(self):
        return self.lo if self.lo == self.hi else None

    def key(self):
        return (self.lo, self.hi, self.k0, self.k1)

    def __eq__(self, o):
        return isinstance(o, AI) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%d' % self.lo if self.lo == self.hi else '[%d,%d;%x,%x]' % self.key()


def C(n):
    return AI(n, n)


def bits(set_=0, clear=0):
    """32 bit value with known bits"""
    top = 1 << 31
    k1, k0 = set_, clear
    lo, hi = -(1 << 31), (1 << 31) - 1
    if set_ & top:
        k1 |= M & ~((1 << 32) - 1)
        hi = -1
    elif clear & top:
        k0 |= M & ~((1 << 32) - 1)
        lo = 0
    return AI(lo, hi, k0, k1)


def trunc32(v):
    if v is None:
        return AI(-(1 << 31), (1 << 31) - 1)
    if -(1 << 31) <= v.lo and v.hi < (1 << 31):
        return v
    c = v.const()
    if c is not None:
        c &= 0xffffffff
        return C(c - (1 << 32) if c >> 31 else c)
    m = 0xffffffff
    k0, k1 = v.k0 & m, v.k1 & m
    return bits(k1, k0)


def width(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64


def fit(v, ty):
    """wrap to the type"""
    w = width(ty)
    if v is None:
        return None
    if w == 1:
        c = v.const()
        return C(c & 1) if c is not None else (AI(0, 1) if not (v.lo >= 0 and v.hi <= 1) else v)
    if w == 32:
        return trunc32(v)
    if w < 64:
        if v.lo >= -(1 << (w - 1)) and v.hi < (1 << (w - 1)):
            return v
        return None
    if v.lo < LO or v.hi > HI:
        return None
    return v


def arith(op, a, b, ty):
    if not isinstance(a, AI) or not isinstance(b, AI):
        if op == 'and':
            for x in (a, b):
                if isinstance(x, AI):
                    c = x.const()
                    if c == 0:
                        return C(0)
                    if x.lo >= 0:
                        return AI(0, x.hi, x.k0, 0)
        return None
    x, y = a.const(), b.const()
    if x is not None and y is not None:
        import flow
        r = flow.arith(op, x, y)
        return fit(C(r), ty) if r is not None else None
    if op == 'and':
        k1 = a.k1 & b.k1
        k0 = a.k0 | b.k0
        if k0 >> 63:
            hi = ~k0 & M
            if a.lo >= 0:
                hi = min(hi, a.hi)
            if b.lo >= 0:
                hi = min(hi, b.hi)
            return AI(k1, hi, k0, k1)
        return bits32(ty, k0, k1)
    if op == 'or':
        k1 = a.k1 | b.k1
        k0 = a.k0 & b.k0
        if k0 >> 63:
            return AI(k1, ~k0 & M, k0, k1)
        return bits32(ty, k0, k1)
    if op == 'xor':
        kn = (a.k0 | a.k1) & (b.k0 | b.k1)
        v = (a.k1 ^ b.k1) & kn
        k1, k0 = v, kn & ~v
        if k0 >> 63:
            return AI(k1, ~k0 & M, k0, k1)
        return bits32(ty, k0, k1)
    if op == 'add':
        return over(a.lo + b.lo, a.hi + b.hi, ty)
    if op == 'sub':
        return over(a.lo - b.hi, a.hi - b.lo, ty)
    if op == 'mul':
        p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return over(min(p), max(p), ty)
    if op == 'shl' and y is not None and 0 <= y < 32:
        return over(a.lo << y, a.hi << y, ty)
    if op in ('ashr', 'lshr') and y is not None and a.lo >= 0:
        return AI(a.lo >> y, a.hi >> y)
    if op in ('sdiv', 'udiv') and y is not None and y > 0 and a.lo >= 0:
        return AI(a.lo // y, a.hi // y)
    if op in ('srem', 'urem') and y is not None and y > 0 and a.lo >= 0:
        return AI(0, y - 1)
    return None


def bits32(ty, k0, k1):
    w = width(ty)
    if w == 1:
        c = 1 if k1 & 1 else 0 if k0 & 1 else None
        return C(c) if c is not None else AI(0, 1)
    if w == 32:
        return bits(k1 & 0xffffffff, k0 & 0xffffffff)
    return AI(LO, HI, k0, k1)


def over(lo, hi, ty):
    w = width(ty)
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return AI(lo, hi)
    return None


def cmp(p, a, b):
    """True / False / None"""
    if isinstance(a, tuple) and a[0] == 'p' and isinstance(b, AI) and b.const() == 0:
        return {'eq': False, 'ne': True}.get(p)
    if not isinstance(a, AI) or not isinstance(b, AI):
        return None
    if p[0] == 'u':
        if a.lo < 0 or b.lo < 0:
            if p == 'ult' and b.const() == 0:
                return False
            if p == 'uge' and b.const() == 0:
                return True
            # negative values are large
            if a.hi < 0 and b.lo >= 0:
                return p in ('ugt', 'uge')
            if b.hi < 0 and a.lo >= 0:
                return p in ('ult', 'ule')
            return None
        p = 's' + p[1:]
    if p in ('eq', 'ne'):
        if a.const() is not None and a.const() == b.const():
            return p == 'eq'
        if a.hi < b.lo or b.hi < a.lo or (a.k1 & b.k0) or (a.k0 & b.k1):
            return p == 'ne'
        return None
    if p == 'slt':
        return True if a.hi < b.lo else False if a.lo >= b.hi else None
    if p == 'sle':
        return True if a.hi <= b.lo else False if a.lo > b.hi else None
    if p == 'sgt':
        return cmp('slt', b, a)
    if p == 'sge':
        return cmp('sle', b, a)
    return None


WIDEN = 200


def const_at(text, path):
    """integer at an access path of the initializer of a global, or None; also global addresses"""
    m = re.match(r'[^@]*?\b(?:constant|global)\s+(.*)$', text, re.S)
    if not m:
        return None
    body = re.sub(r',\s*(align \d+|section "[^"]*"|!dbg !\d+|comdat)\s*(?=,|$)', '', m.group(1))
    body = re.sub(r',\s*(align \d+|!dbg !\d+)', '', body).strip()
    path = list(path)
    while True:
        t, v = split_typed(body)
        if v == 'zeroinitializer':
            return 0
        if v[:1] == '[' or v[:2] == '<{' or v[:1] == '{':
            inner = v.strip()
            inner = inner[2:-2] if inner[:2] == '<{' else inner[1:-1]
            es = [e.strip() for e in irlib.split_top(inner)]
            n = 0
            if path:
                x = path[0]
                if v[:1] == '[':
                    if isinstance(x, tuple) and x[0] == 'e':
                        n = x[1]
                        path.pop(0)
                    elif not isinstance(x, int):
                        return None
                elif isinstance(x, int):
                    n = x
                    path.pop(0)
                else:
                    return None
            if n < 0 or n >= len(es):
                return None
            body = es[n]
            continue
        if path:
            return None
        if re.fullmatch(r'-?\d+', v):
            return int(v)
        if v == 'null':
            return 0
        if re.fullmatch(r'@[\w.$]+', v):
            return ('p', ('g', v), ())
        return None


def split_typed(s):
    s = s.strip()
    if s[0] in '[{<':
        d = 0
        for k, ch in enumerate(s):
            if ch in '[{<':
                d += 1
            elif ch in ']}>':
                d -= 1
                if d == 0:
                    return s[:k + 1], s[k + 1:].strip()
    a, _, b = s.partition(' ')
    return a, b.strip()



CASTS = ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr')
QUIET = ('fprintf', 'printf', 'puts', 'fputs', 'fputc', 'fwrite', 'fflush', 'putc', 'vfprintf', 'perror')


def gep(p, ty, ks):
    if not isinstance(p, tuple):
        return None
    path = p[2]
    ty = ty.strip('" ')
    cs = [x.const() if isinstance(x, AI) else None for x in ks]
    if ty == 'i8' and cs[0] is not None:
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'b':
            path = path[:-1] + (('b', path[-1][1] + cs[0]),)
        elif cs[0]:
            path = path + (('b', cs[0]),)
        return ('p', p[1], path)
    for n, c in enumerate(cs):
        inner = ty[ty.index('x') + 1:-1].strip() if ty.startswith('[') else None
        if c is None:
            path = path + ('*',)
        elif n == 0 or inner:
            if n and inner.startswith('['):
                path = path + (('e', c),)
            elif c:
                path = path + (('e', c),)
        else:
            path = path + (c,)
        if n and inner:
            ty = inner
    return ('p', p[1], path)


class Interp(object):
    def __init__(self, P, allocators=('malloc', 'calloc', 'realloc', 'strdup', '_setjmp', 'setjmp', '__sigsetjmp'), budget=200000):
        self.P = P
        self.alloc = allocators
        self.live = {}
        self.budget = budget
        self.funcs = {}
        self.steps = 0
        self.beyond = set()
        self.errors = {}
        self.consts = {}
        self.ro = {}

    def liveness(self, G):
        from checks.c24 import regs
        k = id(G)
        if k not in self.live:
            use, de = {}, {}
            for b in G.blocks:
                u, d = set(), set()
                for I in G.blocks[b].insts:
                    if I.op == 'phi':
                        for val, l in I.x:
                            u |= regs(val)
                        d.add(I.res)
                        continue
                    for a in I.a or ():
                        u |= regs(a) - d
                    if I.op in ('call', 'invoke') and isinstance(I.x['callee'], str):
                        u |= regs(I.x['callee']) - d
                    if I.res:
                        d.add(I.res)
                use[b], de[b] = u, d
            inn = {b: set(use[b]) for b in G.blocks}
            ch = True
            while ch:
                ch = False
                for b in reversed(list(G.order)):
                    n = set(use[b])
                    for s in G.blocks[b].succs:
                        n |= inn[s] - de[b]
                    if n - inn[b]:
                        inn[b] |= n
                        ch = True
            self.live[k] = inn
        return self.live[k]

    def v(self, env, x):
        if isinstance(x, bool):
            return C(int(x))
        if isinstance(x, int):
            return C(x)
        if isinstance(x, tuple):
            if x[0] == 'null':
                return C(0)
            if x[0] == 'gepc':
                return gep(self.v(env, x[2]), x[1], [self.v(env, k) for k in x[3]])
            return None
        if isinstance(x, str) and x[:1] == '@':
            return ('p', ('g', x), ())
        return env.get(x)

    def call(self, F, args, mem, depth=0, va=()):
        """[(mem, result)]; raises nothing; paths that allocate are recorded in self.beyond"""
        if depth > 8:
            raise AnalysisError('call depth in %s' % F.name)
        self.funcs[F.name] = self.funcs.get(F.name, 0) + 1
        live = self.liveness(F)
        env0 = dict(zip(F.params, args))
        wl = [(F.order[0], None, 0, env0, mem)]
        done = {}
        visits = {}
        out = {}
        while wl:
            b, prev, pos, env, mem = wl.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise AnalysisError('too many states in %s' % F.name)
            if pos == 0:
                env = {k: x for k, x in env.items() if k in live[b]}
                visits[(b, prev)] = visits.get((b, prev), 0) + 1
                kk = (b, prev, frozenset(env.items()), frozenset((q, x) for q, x in mem.items() if q[0][0] == 'loc'))
                old = done.get(kk)
                if old is not None:
                    mem = joinmem(old, mem, visits[(b, prev)] > WIDEN)
                    if mem == old:
                        continue
                done[kk] = mem
                mem = dict(mem)
                new = {}
                for I in F.blocks[b].insts:
                    if I.op != 'phi':
                        break
                    for val, l in I.x:
                        if l == prev:
                            new[I.res] = self.v(env, val)
                if visits[(b, prev)] > WIDEN:
                    for q, x in new.items():
                        if isinstance(x, AI):
                            new[q] = None
                env.update(new)
            insts = F.blocks[b].insts
            k = pos
            stop = False
            while k < len(insts):
                I = insts[k]
                k += 1
                if I.op == 'phi':
                    continue
                if I.op in ('call', 'invoke'):
                    rs = self.docall(F, env, mem, I, depth, va, len(F.params))
                    if len(rs) == 1:
                        mem, r = rs[0]
                        mem = dict(mem)
                        env[I.res] = r
                        continue
                    for m2, r in rs:
                        e2 = dict(env)
                        e2[I.res] = r
                        wl.append((b, prev, k, e2, dict(m2)))
                    stop = True
                    break
                if I.op == 'ret':
                    r = self.v(env, I.a[0]) if I.a else None
                    mem = {q: x for q, x in mem.items() if q[0][:2] != ('loc', F.name)}
                    out[r] = (joinmem(out[r][0], mem, False), r) if r in out else (mem, r)
                    stop = True
                    break
                if I.op in ('br', 'switch', 'unreachable'):
                    break
                self.step(F, env, mem, I, va)
            if stop or not insts:
                continue
            t = insts[-1]
            for s in self.branch(F, env, t):
                wl.append((s, b, 0, env, mem))
        return list(out.values())

    def branch(self, F, env, t):
        if t.op == 'br' and t.a:
            c = self.v(env, t.a[0])
            c = c.const() if isinstance(c, AI) else None
            if c is not None:
                return [t.x[0] if c & 1 else t.x[1]]
            return list(dict.fromkeys(t.x))
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            c = self.v(env, t.a[0])
            if isinstance(c, AI):
                out = [l for k, l in t.x[1] if cmp('eq', c, C(k)) is not False]
                if c.const() is not None:
                    return out[:1] or [t.x[0]]
                return list(dict.fromkeys(out + [t.x[0]]))
            return list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
        return []

    def step(self, F, env, mem, I, va):
        op = I.op
        v = lambda n: self.v(env, I.a[n])
        r = None
        if op in CASTS:
            x = v(0)
            if isinstance(x, tuple):
                r = x
            elif isinstance(x, AI):
                if op == 'zext' and x.lo < 0:
                    w = width(I.x)
                    r = AI(0, (1 << w) - 1, 0, 0) if w < 64 else None
                    if x.const() is not None:
                        r = C(x.const() & ((1 << w) - 1))
                    elif w == 32:
                        m = 0xffffffff
                        r = AI(0, m, (x.k0 & m) | (M & ~m), x.k1 & m)
                elif op == 'trunc':
                    r = fit(x, I.ty)
                else:
                    r = x
        elif op == 'getelementptr':
            r = gep(v(0), I.ty, [v(n) for n in range(1, len(I.a))])
        elif op == 'alloca':
            r = ('p', ('loc', F.name, I.res), ())
        elif op == 'load':
            r = self.load(mem, v(0), I.ty, va, F)
        elif op == 'store':
            p = v(1)
            x = v(0)
            if isinstance(p, tuple):
                key = (p[1], p[2])
                if '*' in p[2]:
                    for q in [q for q in mem if q[0] == p[1]]:
                        del mem[q]
                elif x is None:
                    mem.pop(key, None)
                else:
                    mem[key] = x
            return
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem'):
            r = arith(op, v(0), v(1), I.ty)
            if r is None and width(I.ty) == 32 and I.ty[0] == 'i':
                r = AI(-(1 << 31), (1 << 31) - 1)
        elif op == 'icmp':
            c = cmp(I.x, v(0), v(1))
            r = C(int(c)) if c is not None else AI(0, 1)
        elif op == 'select':
            c = v(0)
            c = c.const() if isinstance(c, AI) else None
            if c is not None:
                r = v(1) if c & 1 else v(2)
            elif v(1) == v(2):
                r = v(1)
            elif isinstance(v(1), AI) and isinstance(v(2), AI):
                a, b = v(1), v(2)
                r = AI(min(a.lo, b.lo), max(a.hi, b.hi), a.k0 & b.k0, a.k1 & b.k1)
        env[I.res] = r

    def load(self, mem, p, ty, va, F):
        if not isinstance(p, tuple):
            return None
        root, path = p[1], p[2]
        if root[0] == 'va':
            off = path[-1][1] if path and isinstance(path[-1], tuple) else 0
            named = sum(1 for t in F.ptypes if t == 'ptr' or t[0] == 'i')
            if root[1] == 'reg':
                n = off // 8 - named
            else:
                n = max(0, 6 - named) + off // 8
            return va[n] if 0 <= n < len(va) else None
        x = mem.get((root, path))
        if x is None and root[0] == 'g' and '*' not in path:
            if (root[1], path) not in self.consts:
                self.consts[(root[1], path)] = self.const(F, root[1], path)
            x = self.consts[(root[1], path)]
        return x

    def const(self, F, g, path):
        """element of a global that nothing changes (constant, or never stored to)"""
        M = self.P.modules[F.module]
        t = M.globals.get(g)
        if not t:
            return None
        if not re.search(r'\bconstant\b', t):
            if 'internal' not in t and 'private' not in t:
                return None
            if g not in self.ro:
                self.ro[g] = readonly(M, g)
            if not self.ro[g]:
                return None
        x = const_at(t, path)
        return C(x) if isinstance(x, int) else x

    def docall(self, F, env, mem, I, depth, va, named):
        c = I.x['callee']
        nm = c[1:] if isinstance(c, str) and c[:1] == '@' else ''
        args = [self.v(env, a) for a in I.a]
        if nm.startswith('llvm.va_start'):
            p = args[0]
            n = sum(1 for t in F.ptypes if t == 'ptr' or t[0] == 'i')
            mem = dict(mem)
            mem[(p[1], p[2] + (0,))] = C(8 * min(6, n))
            mem[(p[1], p[2])] = C(8 * min(6, n))
            mem[(p[1], p[2] + (1,))] = C(48)
            mem[(p[1], p[2] + (2,))] = ('p', ('va', 'ovf'), ())
            mem[(p[1], p[2] + (3,))] = ('p', ('va', 'reg'), ())
            return [(mem, None)]
        if nm.startswith('llvm.'):
            if nm.startswith(('llvm.mem',)):
                mem = self.clear(mem, args[0])
            return [(mem, None)]
        if nm in ('exit', 'abort'):
            return []
        if nm in QUIET:
            return [(mem, None)]
        G = self.P.resolve(F, c)
        if G is None:
            if nm in self.alloc:
                self.beyond.add((F.name, I.line))
                return []
            for a in args:
                mem = self.clear(mem, a)
            return [(mem, AI(-(1 << 31), (1 << 31) - 1) if I.ty == 'i32' else None)]
        if I.ty == 'ptr':
            return [(mem, None)]
        n = len(G.params)
        return self.call(G, args[:n], mem, depth + 1, tuple(args[n:]))

    def clear(self, mem, p):
        if not isinstance(p, tuple):
            return mem
        return {k: x for k, x in mem.items() if not (k[0] == p[1] and k[1][:len(p[2])] == p[2])}


def joinmem(a, b, widen):
    if a == b:
        return a
    out = {}
    for k, x in a.items():
        y = b.get(k)
        if y is None:
            continue
        if x == y:
            out[k] = x
        elif not widen and isinstance(x, AI) and isinstance(y, AI):
            out[k] = AI(min(x.lo, y.lo), max(x.hi, y.hi), x.k0 & y.k0, x.k1 & y.k1)
    return out


def readonly(M, g):
    """no store to the internal global g, and its address does not leave through a call or store"""
    for F in M.functions.values():
        al = {g}
        for I in F.insts():
            if I.op == 'getelementptr' and I.a[0] in al:
                al.add(I.res)
            elif I.op == 'load':
                continue
            else:
                for a in I.a or ():
                    x = a[2] if isinstance(a, tuple) and a[0] == 'gepc' else a
                    if x in al:
                        return False
    return True
