"""Forward dataflow over wrappers: what a function passes to the functions it calls and what it
returns, as terms over its parameters, for one assumed class of results of one called function
(conditional: branches decided by the assumption are followed on one side only).

terms  ('p', i)            parameter i of the analysed function
       ('c', k)            constant
       ('res', n)          result of the assumed call (class given by the assumption)
       ('call', site)      result of another call
       ('ld', t)           value loaded from t
       ('gep', t, ty, idx) address computed from t
       ('cast', op, t), ('op', op, a, b), ('al', site) (a local variable)
None is unknown.
"""
import re
import struct
import irlib
from irlib import rpo

ZERO_GEP = True


class Ev(object):
    """an executed call"""
    __slots__ = ('site', 'name', 'args', 'F', 'I')

    def __init__(self, site, name, args, F, I):
        self.site, self.name, self.args, self.F, self.I = site, name, args, F, I


def cval(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'c' else None


class Fwd(object):
    """api: predicate on names of called functions whose result is assumed;
    value: function (name, ret type) -> term standing for its result"""

    def __init__(self, P, api, value, cmp, enter=None):
        self.P, self.api, self.value, self.cmp = P, api, value, cmp
        self.enter = enter or (lambda G: True)
        self.events = {}
        self.ldty = {}
        self.throws = set()
        self.exits = set()
        self.unknown = []

    def run(self, F, args=None):
        """(return term or None, returns at all?, sites of calls on every path to the return)"""
        args = [('p', i) for i in range(len(F.params))] if args is None else args
        return self.go(F, args, {}, frozenset(), ())

    # ------------------------------------------------------------------ helpers
    def val(self, env, v, F):
        if isinstance(v, bool):
            return ('c', int(v))
        if isinstance(v, (int, float)):
            return ('c', v)
        if isinstance(v, str):
            if v in env:
                return env[v]
            return ('g', v) if v.startswith('@') else None
        if isinstance(v, tuple) and v:
            if v[0] in ('null', 'zeroinitializer'):
                return ('c', 0)
            if v[0] == 'f':
                x = v[1]
                if isinstance(x, str):
                    if not re.match(r'0x[0-9A-Fa-f]{1,16}$', x):
                        return None
                    x = struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
                return ('c', x)
        if isinstance(v, tuple) and v and v[0] == 'gepc':
            return ('gep', self.val(env, v[2], F), v[1], tuple(v[3]))
        return None

    def go(self, F, args, mem0, must0, path):
        env0 = dict(zip(F.params, args))
        order = rpo(F)
        pos = {b: i for i, b in enumerate(order)}
        st = {order[0]: (dict(mem0), must0)}
        env = dict(env0)
        edges = set()
        rets = {}
        for it in range(8):
            changed = False
            for b in order:
                if b not in st:
                    continue
                mem, must = dict(st[b][0]), st[b][1]
                dead = False
                for n, I in enumerate(F.blocks[b].insts):
                    site = path + ((F.name, F.module, b, n),)
                    if I.op == 'phi':
                        vs = [self.val(env, v, F) for v, l in I.x if (l, b) in edges]
                        t = vs[0] if vs and all(v == vs[0] for v in vs) else None
                        if t is None and len(vs) == 2 and None not in vs and all(pos[l] < pos[b] for v, l in I.x if (l, b) in edges):
                            t = ('phi', frozenset(vs))
                    elif I.op == 'alloca':
                        t = ('al', site)
                    elif I.op == 'load':
                        a = self.val(env, I.a[0], F)
                        t = mem.get(a, ('ld', a) if a is not None and not self.local(a) else None)
                        if t is not None:
                            self.ldty.setdefault(t, set()).add(I.ty)
                    elif I.op == 'store':
                        a = self.val(env, I.a[1], F)
                        if a is not None:
                            v = self.val(env, I.a[0], F)
                            mem[a] = v
                        continue
                    elif I.op == 'getelementptr':
                        base = self.val(env, I.a[0], F)
                        idx = []
                        for x in I.a[1:]:
                            c = self.val(env, x, F)
                            idx.append(c if cval(c) is None else cval(c))
                        if base is None:
                            t = None
                        elif all(x == 0 for x in idx):
                            t = base
                        else:
                            t = ('gep', base, I.ty, tuple(idx))
                    elif I.op in irlib._casts:
                        a = self.val(env, I.a[0], F)
                        t = self.cast(I, a)
                    elif I.op in ('icmp', 'fcmp'):
                        a, c = self.val(env, I.a[0], F), self.val(env, I.a[1], F)
                        t = self.compare(I, a, c)
                    elif I.op == 'select':
                        k = self.val(env, I.a[0], F)
                        if cval(k) is not None:
                            t = self.val(env, I.a[1] if cval(k) else I.a[2], F)
                        else:
                            x, y = self.val(env, I.a[1], F), self.val(env, I.a[2], F)
                            t = x if x == y else ('phi', frozenset((x, y))) if x is not None and y is not None else None
                    elif I.op in ('call', 'invoke'):
                        cal = I.x['callee']
                        if isinstance(cal, str) and cal.startswith('%'):
                            ct = self.val(env, cal, F)
                            if ct and ct[0] == 'g':
                                cal = ct[1]
                        nm = cal
                        nm = nm[1:].strip('"') if isinstance(nm, str) and nm.startswith('@') else None
                        av = tuple(self.val(env, x, F) for x in I.a)
                        t = None
                        if nm and nm.startswith('llvm.'):
                            continue
                        if nm and self.api(nm):
                            self.note(site, nm, av, F, I)
                            must = must | {site}
                            t = self.value(nm, I.ty)
                        else:
                            G = self.P.resolve(F, cal)
                            if nm == '__cxa_throw':
                                self.throws.add(site)
                                dead = True
                            elif nm in ('exit', 'abort', '_exit'):
                                self.exits.add(site)
                                dead = True
                            elif G is not None and self.enter(G) and len(path) < 6 and not any(p[0] == G.name for p in path):
                                t, returns, must, mem = self.go4(G, list(av), mem, must, site_path=path + (site[-1],))
                                if not returns:
                                    dead = True
                            else:
                                self.note(site, nm, av, F, I)
                                must = must | {site}
                                t = ('call', site)
                                for x in av:
                                    self.clobber(mem, x)
                        if dead:
                            break
                        if I.op == 'invoke':
                            if I.res is not None:
                                changed |= self.put(env, I.res, t)
                            self.flow(st, edges, b, I.x['labels'][0], mem, must)
                            dead = True
                            break
                    elif I.op == 'br':
                        if not I.a:
                            tg = [I.x[0]]
                        else:
                            k = cval(self.val(env, I.a[0], F))
                            tg = list(I.x) if k is None else [I.x[0] if k else I.x[1]]
                        for x in tg:
                            changed |= self.flow(st, edges, b, x, mem, must)
                        continue
                    elif I.op == 'switch':
                        k = cval(self.val(env, I.a[0], F))
                        if k is None:
                            tg = [I.x[0]] + [l for _, l in I.x[1]]
                        else:
                            tg = [dict(I.x[1]).get(k, I.x[0])]
                        for x in tg:
                            changed |= self.flow(st, edges, b, x, mem, must)
                        continue
                    elif I.op == 'ret':
                        v = self.val(env, I.a[0], F) if I.a else ('void',)
                        rets[b] = (v, mem, must)
                        continue
                    elif I.op in ('unreachable', 'resume'):
                        continue
                    elif I.op == 'fneg' or I.op in irlib._binops:
                        vs = [self.val(env, x, F) for x in I.a]
                        t = ('op', I.op) + tuple(vs) if all(v is not None for v in vs) else None
                        ks = [cval(v) for v in vs]
                        if len(ks) == 2 and all(isinstance(k, int) for k in ks):
                            f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
                                 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}.get(I.op)
                            if f:
                                t = ('c', f(*ks))
                    else:
                        t = None
                    if I.res is not None:
                        changed |= self.put(env, I.res, t)
            if not changed:
                break
        if not rets:
            self.last = (mem0, must0)
            return None, False, must0
        vs = [r[0] for r in rets.values()]
        v = vs[0] if all(x == vs[0] for x in vs) else None
        must = None
        mem = None
        for _, m, s in rets.values():
            must = s if must is None else must & s
            mem = m if mem is None else {k: x for k, x in m.items() if mem.get(k) == x}
        self.last = (mem, must)
        self.rets = [(r[0], r[2]) for r in rets.values()]
        return v, True, must

    def go4(self, G, av, mem, must, site_path):
        v, r, m = self.go(G, av, mem, must, site_path)
        mem2, must2 = self.last
        return v, r, must2, dict(mem2)

    def put(self, env, r, t):
        if r in env and env[r] == t:
            return False
        env[r] = t
        return True

    def flow(self, st, edges, b, x, mem, must):
        ch = (b, x) not in edges
        edges.add((b, x))
        if x not in st:
            st[x] = (dict(mem), must)
            return True
        om, os = st[x]
        nm = {k: v for k, v in om.items() if k in mem and mem[k] == v}
        for k in set(om) | set(mem):
            if k not in nm:
                nm[k] = None
        ns = os & must
        if nm != om or ns != os:
            st[x] = (nm, ns)
            return True
        return ch

    def note(self, site, nm, av, F, I):
        e = self.events.get(site)
        if e is None:
            self.events[site] = Ev(site, nm, av, F, I)
        else:
            e.args = tuple(a if a == b else None for a, b in zip(e.args, av))

    def local(self, t):
        while isinstance(t, tuple):
            if t[0] == 'al':
                return True
            if t[0] != 'gep':
                return False
            t = t[1]
        return False

    def root(self, t):
        while isinstance(t, tuple) and t[0] == 'gep':
            t = t[1]
        return t

    def clobber(self, mem, x):
        r = self.root(x)
        if r is None:
            return
        for k in list(mem):
            if self.root(k) == r:
                mem[k] = None

    def cast(self, I, a):
        if a is None:
            return None
        c = cval(a)
        if c is None and a[0] == 'res' and len(a) > 2 and a[2] is not None:
            if I.op in ('sitofp', 'uitofp'):
                return ('res', a[1], float(a[2]))
            if I.op in ('sext', 'zext', 'trunc', 'bitcast'):
                return a
            if I.op in ('fptosi',):
                return None
        if I.op == 'bitcast':
            return a
        if c is not None:
            if I.op in ('sitofp', 'uitofp', 'fpext'):
                return ('c', float(c))
            if I.op == 'zext' and I.x == 'i1' or I.op == 'sext' and c >= 0 or I.op == 'zext' and c >= 0:
                return a
        return ('cast', I.op, a)

    def compare(self, I, a, c):
        ka, kc = cval(a), cval(c)
        if ka is not None and kc is not None:
            r = self.fold(I.x, ka, kc)
            return None if r is None else ('c', int(r))
        for x, k, fl in ((a, kc, False), (c, ka, True)):
            if isinstance(x, tuple) and x[0] == 'res' and k is not None:
                r = self.cmp(x, I.x, k, fl)
                if r is not None:
                    return ('c', int(r))
        return None

    @staticmethod
    def fold(p, a, b):
        p = {'oeq': 'eq', 'one': 'ne', 'une': 'ne', 'ueq': 'eq', 'olt': 'slt', 'ogt': 'sgt', 'ole': 'sle', 'oge': 'sge'}.get(p, p)
        return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b}.get(p)


INT_ERROR = -2147483647
DBL_ERROR = -1.7976931348623157e308


def classes(kind):
    """value and comparison functions for the result classes of the C interface
    'err': the documented error code; 'ok': success (0 of a status, anything but the code of a value)"""
    def value(status):
        def f(name, ty):
            if kind == 'err':
                return ('res', name, DBL_ERROR if ty in ('double', 'float') else INT_ERROR)
            return ('res', name, 0 if status(name) else None)
        return f

    def cmp(x, pred, k, flip):
        v = x[2]
        if v is not None:
            a, b = (k, v) if flip else (v, k)
            return Fwd.fold(pred, a, b)
        if k in (INT_ERROR, DBL_ERROR):
            p = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}.get(pred, pred)
            if p == 'eq':
                return False
            if p == 'ne':
                return True
            p = {'olt': 'slt', 'ole': 'sle', 'ogt': 'sgt', 'oge': 'sge', 'ult': None, 'ugt': None}.get(p, p)
            if flip:
                p = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(p, p)
            if p in ('slt', 'sle'):
                return False
            if p in ('sgt', 'sge'):
                return True
        return None
    return value, cmp
