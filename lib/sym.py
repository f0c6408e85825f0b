"""Symbolic access summaries of the small interface functions.

Values are expressed over the parameters of a function, the constants, fields of
structures and loop ranges; every load, store and external call of a function and of
the functions it calls (within a scope) is listed with its address and the branch
facts that hold there.

expressions
 ('c', n) ('cf', x) ('null',) ('p', k) ('g', name) ('loc', fn, name)
 ('fld', base, struct, field)   address of a member
 ('el', base, index)            address of an element
 ('ld', addr)                   loaded value
 ('+', x, n)                    n constant integer
 ('bin', op, a, b) ('cmp', pred, a, b) ('call', name, args, id)
 ('rng', lo, hi, id)            lo <= value < hi   (counting loop variable)
 ('phi', fn, name, tag) ('un', fn, name)
"""
import irlib
from irlib import AnalysisError, dominates, dominators

CAST = ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr')
INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'oeq': 'une', 'one': 'ueq', 'ogt': 'ule', 'oge': 'ult', 'olt': 'uge', 'ole': 'ugt',
       'une': 'oeq', 'ueq': 'one', 'ugt_f': 'ole', 'uno': 'ord', 'ord': 'uno'}


class Access(object):
    __slots__ = ('kind', 'addr', 'val', 'F', 'I', 'facts', 'path', 'order', 'name')
    # kind: load store call ret; path: tuple of call instructions from the root

    def __init__(self, kind, addr, val, F, I, facts, path, name=None):
        self.kind = kind
        self.addr = addr
        self.val = val
        self.F = F
        self.I = I
        self.facts = facts
        self.path = path
        self.name = name


class Sym(object):
    def __init__(self, P, inline):
        """inline(F) -> bool: follow calls to F"""
        self.P = P
        self.inline = inline
        self.memo = {}
        self.smemo = {}

    # ------------------------------------------------------------- expressions
    def expr(self, F, v):
        if isinstance(v, int):
            return ('c', v)
        if isinstance(v, tuple):
            if v[0] == 'f':
                return ('cf', v[1])
            if v[0] == 'null':
                return ('null',)
            if v[0] == 'gepc':
                return self.expr(F, v[2])
            return ('un', F.name, str(v))
        if v[0] == '@':
            return ('g', v)
        k = (id(F), v)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = ('un', F.name, v)     # recursion guard
            r = self.memo[k] = self.expr1(F, v)
        return r

    def expr1(self, F, v):
        if v in F.params:
            return ('p', F.params.index(v))
        I = F.defs.get(v)
        if I is None:
            return ('un', F.name, v)
        op = I.op
        if op in CAST:
            if op == 'trunc' and I.ty not in ('i32', 'i64'):
                return ('bin', 'trunc', self.expr(F, I.a[0]), ('c', 0))
            return self.expr(F, I.a[0])
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui', 'fneg'):
            return ('bin', op, self.expr(F, I.a[0]), ('c', 0))
        if op == 'load':
            return ('ld', self.expr(F, I.a[0]))
        if op == 'getelementptr':
            e = self.expr(F, I.a[0])
            idx = I.a[1:]
            ty = I.ty
            if not (idx[0] == 0 and len(idx) > 1):
                e = el(e, self.expr(F, idx[0]))
            for x in idx[1:]:
                if ty.startswith('%'):
                    names = self.P.fields_of(F, ty) or []
                    body = self.P.modules[F.module].structs.get(ty, '')
                    nm = names[x] if isinstance(x, int) and x < len(names) else '#%s' % (x,)
                    e = ('fld', e, ty, nm)
                    parts = irlib.split_top(body.strip()[1:-1]) if body.startswith('{') or body.startswith('<{') else []
                    ty = parts[x].strip() if isinstance(x, int) and x < len(parts) else ''
                else:
                    e = el(e, self.expr(F, x))
                    m = ty.find(' x ')
                    ty = ty[m + 3:-1] if ty.startswith('[') and m > 0 else ''
            return e
        if op == 'alloca':
            return ('loc', F.name, v)
        if op in ('add', 'sub'):
            a, b = self.expr(F, I.a[0]), self.expr(F, I.a[1])
            if op == 'add':
                return addc(a, b)
            if b[0] == 'c':
                return addc(a, ('c', -b[1]))
            return ('bin', 'sub', a, b)
        if op in irlib._binops:
            return ('bin', op, self.expr(F, I.a[0]), self.expr(F, I.a[1]))
        if op in ('icmp', 'fcmp'):
            return ('cmp', I.x, self.expr(F, I.a[0]), self.expr(F, I.a[1]))
        if op == 'select':
            return ('sel', self.expr(F, I.a[0]), self.expr(F, I.a[1]), self.expr(F, I.a[2]))
        if op in ('call', 'invoke'):
            c = I.x['callee']
            nm = c[1:] if isinstance(c, str) and c[0] == '@' else '?'
            return ('call', nm, tuple(self.expr(F, a) for a in I.a), (F.name, v))
        if op == 'phi':
            r = self.loop(F, I)
            if r:
                return r
            alts = []
            for x, lab in I.x:
                a = (self.expr(F, x), self.guards(F, lab, I.bb))
                if a not in alts:
                    alts.append(a)
            if len({a for a, g in alts}) == 1:
                return alts[0][0]
            alts.sort(key=str)
            return ('phi', F.name, v, tuple(a for a, g in alts), tuple(g for a, g in alts))
        return ('un', F.name, v)

    def loop(self, F, I):
        """counting loop variable: init, +1, bounded above by the header's test"""
        if len(I.x) != 2:
            return None
        r = self.loop_down(F, I)
        if r:
            return r
        init = step = None
        for val, lab in I.x:
            d = F.defs.get(val) if isinstance(val, str) else None
            if d is not None and d.op == 'add' and ((d.a[0] == I.res and d.a[1] == 1) or (d.a[1] == I.res and d.a[0] == 1)) and dominates(F, I.bb, d.bb):
                step = lab
            else:
                init = (val, lab)
        if step is None or init is None:
            return None
        # bound: a comparison of the variable that is true on the path to the increment
        hi = None
        for b, val in self.compares(F, step):
            c = F.defs.get(b) if isinstance(b, str) else None
            if c is None or c.op != 'icmp':
                continue
            p = c.x if val else INV[c.x]
            a0, a1 = c.a
            if strip(F, a0) == I.res:
                if p in ('slt', 'ult', 'ne'):
                    hi = self.expr(F, a1)
                elif p in ('sle', 'ule'):
                    hi = addc(self.expr(F, a1), ('c', 1))
            elif strip(F, a1) == I.res:
                if p in ('sgt', 'ugt', 'ne'):
                    hi = self.expr(F, a0)
                elif p in ('sge', 'uge'):
                    hi = addc(self.expr(F, a0), ('c', 1))
            if hi is not None:
                break
        lo = self.expr(F, init[0])
        if hi is None or mentions(hi, ('un', F.name, I.res)):
            # secondary counter of a loop with another primary counter
            return self.secondary(F, I, lo, step)
        return ('rng', lo, hi, (F.name, I.res))

    def loop_down(self, F, I):
        """init, -1, bounded below: init+1 > value >= bound"""
        init = step = None
        for val, lab in I.x:
            d = F.defs.get(val) if isinstance(val, str) else None
            if d is not None and (d.op == 'add' and d.a[0] == I.res and d.a[1] == -1 or d.op == 'sub' and d.a[0] == I.res and d.a[1] == 1) and dominates(F, I.bb, d.bb):
                step = lab
            else:
                init = (val, lab)
        if step is None or init is None:
            return None
        for b, val in self.compares(F, step):
            c = F.defs.get(b) if isinstance(b, str) else None
            if c is None or c.op != 'icmp' or strip(F, c.a[0]) != I.res:
                continue
            p = c.x if val else INV[c.x]
            if p in ('sge', 'sgt'):
                lo = self.expr(F, c.a[1])
                return ('rng', lo if p == 'sge' else addc(lo, ('c', 1)), addc(self.expr(F, init[0]), ('c', 1)), (F.name, I.res))
        return None

    def secondary(self, F, I, lo, step):
        for J in F.blocks[I.bb].insts:
            if J.op != 'phi' or J is I:
                continue
            e = self.memo.get((id(F), J.res))
            if e is None:
                e = self.expr(F, J.res)
            if e[0] == 'rng' and e[3] == (F.name, J.res):
                # value = lo + (J - J.lo)
                if lo == e[1]:
                    return e
                if lo == ('c', 0):
                    return ('rel', e)
                if e[1] == ('c', 0) and not mentions(lo, ('un', F.name, I.res)):
                    return addc(lo, e)
        return None

    def guards(self, F, frm, to):
        """comparisons of parameters with constants that hold on an edge"""
        def simple(x):
            x = strip(F, x)
            if isinstance(x, int):
                return ('c', x)
            if isinstance(x, str) and x in F.params:
                return ('p', F.params.index(x))
            return None
        out = []
        cs = list(self.branch_facts(F, frm))
        t = F.blocks[frm].insts[-1]
        if t.op == 'br' and t.a and t.x[0] != t.x[1]:
            cs.append((t.a[0], t.x[0] == to))
        elif t.op == 'switch':
            ks = [k for k, l in t.x[1] if l == to]
            if len(ks) == 1 and t.x[0] != to:
                cs.append((('sw', t.a[0], ks[0]), True))
            elif not ks and t.x[0] == to:
                a = simple(t.a[0])
                if a is not None:
                    out += [('cmp', 'ne', a, ('c', k)) for k, l in t.x[1]]
        for v, truth in cs:
            if isinstance(v, tuple):
                a = simple(v[1])
                if a is not None and v[0] == 'sw':
                    out.append(('cmp', 'eq', a, ('c', v[2])))
                elif a is not None:
                    out += [('cmp', 'ne', a, ('c', k)) for k in v[2]]
                continue
            I = F.defs.get(v) if isinstance(v, str) else None
            if I is None or I.op != 'icmp':
                continue
            a, b = simple(I.a[0]), simple(I.a[1])
            if a is not None and b is not None and a[0] != b[0]:
                p = I.x if truth else INV.get(I.x)
                out.append(('cmp', p, a, b))
        return tuple(out)

    # ------------------------------------------------------------------- facts
    def compares(self, F, b):
        """branch facts of b with short-circuit conditions taken apart"""
        out = []

        def go(v, truth, depth):
            out.append((v, truth))
            I = F.defs.get(v) if isinstance(v, str) else None
            if I is None or depth > 6:
                return
            if I.op == 'phi':
                rest = [(x, l) for x, l in I.x if not (isinstance(x, int) and bool(x) != truth)]
                if len(rest) == 1:
                    x, l = rest[0]
                    if isinstance(x, str):
                        go(x, truth, depth + 1)
                    t = F.blocks[l].insts[-1]
                    for w, tw in self.branch_facts(F, l):
                        if (w, tw) not in out and isinstance(w, str):
                            go(w, tw, depth + 1)
            elif I.op == 'xor' and I.a[1] == 1:
                go(I.a[0], not truth, depth + 1)
            elif I.op == 'and' and truth or I.op == 'or' and not truth:
                for a in I.a:
                    go(a, truth, depth + 1)
        for v, truth in self.branch_facts(F, b):
            if isinstance(v, str):
                go(v, truth, 0)
        return out

    def branch_facts(self, F, b):
        """[(condition value, truth)] that hold whenever block b runs"""
        c = F._cache.setdefault('bfacts', {})
        if b in c:
            return c[b]
        out = []
        dom = dominators(F)
        x = b
        while x in dom:
            # edge into x
            preds = F.blocks[x].preds
            idom = dom[x]
            if idom == x:
                break
            t = F.blocks[idom].insts[-1]
            if t.op == 'br' and t.a and t.x[0] != t.x[1]:
                for k in (0, 1):
                    s = t.x[k]
                    if dominates(F, s, x) and len([p for p in F.blocks[s].preds if p != s and not dominates(F, s, p)]) == 1:
                        out.append((t.a[0], k == 0))
                    elif s == x and all(p == idom or dominates(F, x, p) for p in preds):
                        out.append((t.a[0], k == 0))
            elif t.op == 'switch':
                for kk, s in t.x[1]:
                    if dominates(F, s, x) and F.blocks[s].preds == [idom] and sum(1 for q, l in t.x[1] if l == s) == 1 and t.x[0] != s:
                        out.append((('sw', t.a[0], kk), True))
                s = t.x[0]
                if dominates(F, s, x) and F.blocks[s].preds == [idom] and all(l != s for q, l in t.x[1]):
                    out.append((('swd', t.a[0], tuple(q for q, l in t.x[1])), True))
            x = idom
        c[b] = out
        return out

    def facts(self, F, b):
        """list of ('cmp', pred, a, b) that hold in block b"""
        c = F._cache.setdefault('facts%d' % id(self), {})
        if b in c:
            return c[b]
        c[b] = []
        out = []
        for v, truth in self.branch_facts(F, b):
            if isinstance(v, tuple) and v[0] == 'sw':
                out.append(('cmp', 'eq', self.expr(F, v[1]), ('c', v[2])))
                continue
            if isinstance(v, tuple) and v[0] == 'swd':
                out += [('cmp', 'ne', self.expr(F, v[1]), ('c', k)) for k in v[2]]
                continue
            self.cond(F, v, truth, out, 0)
        out += self.forall(F, b, out)
        c[b] = out
        return out

    def loops(self, F):
        """[(header, blocks of the natural loop)]"""
        c = F._cache
        if 'nloops' in c:
            return c['nloops']
        r = {}
        for b in irlib.rpo(F):
            for s in F.blocks[b].succs:
                if dominates(F, s, b):
                    body = r.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl += F.blocks[x].preds
        c['nloops'] = sorted(r.items())
        return c['nloops']

    def reach(self, F, b):
        c = F._cache.setdefault('reach', {})
        if b not in c:
            seen = set()
            wl = list(F.blocks[b].succs)
            while wl:
                x = wl.pop()
                if x not in seen:
                    seen.add(x)
                    wl += F.blocks[x].succs
            c[b] = seen
        return c[b]

    def forall(self, F, b, base):
        """facts about every element a loop has inspected before b runs: a loop that is left
        early whenever an element fails a test, on a path that does not lead to b"""
        out = []
        for h, body in self.loops(F):
            if b in body or b not in self.reach(F, h):
                continue
            dom = dominates(F, h, b)
            latches = [p for p in F.blocks[h].preds if p in body]
            for x in sorted(body):
                t = F.blocks[x].insts[-1]
                if t.op != 'br' or not t.a or t.x[0] == t.x[1]:
                    continue
                for k in (0, 1):
                    s, o = t.x[k], t.x[1 - k]
                    if s in body or o not in body or s == b or b in self.reach(F, s):
                        continue
                    if not all(dominates(F, x, l) for l in latches):
                        continue
                    fs = []
                    self.cond(F, t.a[0], k == 1, fs, 0)
                    fs = [f for f in fs if mentions_kind(f, 'rng')]
                    if not fs:
                        continue
                    if dom:
                        out += fs
                    else:
                        d = b
                        D = dominators(F)
                        while not dominates(F, d, h):
                            d = D[d]
                        g = tuple(f for f in self.facts(F, h) if f not in self.facts(F, d))
                        out += [('imp', g, f) for f in fs] if g else []
        return out

    def cond(self, F, v, truth, out, depth):
        if isinstance(v, int) or depth > 8:
            return
        I = F.defs.get(v)
        if I is None:
            return
        if I.op == 'icmp' or I.op == 'fcmp':
            p = I.x if truth else INV.get(I.x)
            if p is None:
                return
            a, b = self.expr(F, I.a[0]), self.expr(F, I.a[1])
            out.append(('cmp', p, a, b))
            # result of a helper compared with 0
            for x, y in ((I.a[0], I.a[1]), (I.a[1], I.a[0])):
                cI = F.defs.get(strip(F, x)) if isinstance(x, str) else None
                if cI is not None and cI.op == 'call' and isinstance(y, int) and p in ('eq', 'ne', 'sge', 'slt', 'sgt', 'sle'):
                    G = self.P.resolve(F, cI.x['callee'])
                    if G is not None and self.inline(G):
                        args = [self.expr(F, a) for a in cI.a]
                        out += [subst(f, args) for f in self.ret_facts(G, p if x is I.a[0] else flip(p), y)]
            return
        if I.op == 'xor' and I.a[1] == 1:
            self.cond(F, I.a[0], not truth, out, depth + 1)
        elif I.op == 'and' and truth or I.op == 'or' and not truth:
            for a in I.a:
                self.cond(F, a, truth, out, depth + 1)
        elif I.op == 'trunc' or I.op == 'zext' or I.op == 'freeze':
            self.cond(F, I.a[0], truth, out, depth + 1)
        elif I.op == 'phi':
            # short circuit: facts common to the incoming edges that can give `truth`
            sets = []
            for val, lab in I.x:
                if isinstance(val, int):
                    if bool(val) != truth:
                        continue
                    sets.append(self.edge_facts(F, lab, I.bb))
                else:
                    s = list(self.edge_facts(F, lab, I.bb))
                    self.cond(F, val, truth, s, depth + 1)
                    sets.append(s)
            if sets:
                out += [f for f in sets[0] if all(f in s for s in sets[1:])]
        elif I.op == 'call':
            G = self.P.resolve(F, I.x['callee'])
            if G is not None and self.inline(G):
                args = [self.expr(F, a) for a in I.a]
                out += [subst(f, args) for f in self.ret_facts(G, 'ne' if truth else 'eq', 0)]

    def edge_facts(self, F, frm, to):
        s = list(self.facts(F, frm))
        t = F.blocks[frm].insts[-1]
        if t.op == 'br' and t.a and t.x[0] != t.x[1]:
            self.cond(F, t.a[0], t.x[0] == to, s, 0)
        return s

    def ret_facts(self, G, pred, k):
        """facts that hold when `result pred k`"""
        key = ('rf', id(G), pred, k)
        if key in self.smemo:
            return self.smemo[key]
        self.smemo[key] = []
        sets = []

        def ok(c):
            return {'eq': c == k, 'ne': c != k, 'slt': c < k, 'sge': c >= k, 'sgt': c > k, 'sle': c <= k}[pred]

        def val(v, b, s):
            if isinstance(v, int):
                if ok(v):
                    sets.append(s)
                return
            I = G.defs.get(v) if isinstance(v, str) else None
            if I is not None and I.op == 'phi' and I.bb == b:
                for x, lab in I.x:
                    val2(x, lab, self.edge_facts(G, lab, b), b)
                return
            if I is not None and I.op in ('zext', 'sext'):
                src = G.defs.get(I.a[0]) if isinstance(I.a[0], str) else None
                if src is not None and src.op in ('icmp', 'phi', 'and', 'or', 'xor', 'fcmp') and I.x == 'i1':
                    for tv in (0, 1):
                        if ok(tv if I.op == 'zext' else -tv):
                            s2 = list(s)
                            self.cond(G, I.a[0], bool(tv), s2, 0)
                            sets.append(s2)
                    return
            sets.append(s)

        def val2(v, b, s, to):
            if isinstance(v, int):
                if ok(v):
                    sets.append(s)
                return
            I = G.defs.get(v) if isinstance(v, str) else None
            if I is not None and I.op == 'phi':
                for x, lab in I.x:
                    val2(x, lab, s + self.edge_facts(G, lab, I.bb), I.bb)
                return
            sets.append(s)
        for b in irlib.rpo(G):
            t = G.blocks[b].insts[-1]
            if t.op == 'ret' and t.a:
                val(t.a[0], b, self.facts(G, b))
        r = []
        if sets:
            r = [f for f in sets[0] if all(f in s for s in sets[1:])]
            r = [f for f in r if not mentions_local(f)]
        self.smemo[key] = r
        return r

    # --------------------------------------------------------------- accesses
    def accesses(self, F, depth=0):
        """all accesses of F with the calls it makes within the scope expanded"""
        key = ('acc', id(F))
        if key in self.smemo:
            return self.smemo[key]
        self.smemo[key] = []
        out = []
        for b in irlib.rpo(F):
            fs = None
            for I in F.blocks[b].insts:
                if I.op == 'load':
                    if fs is None:
                        fs = self.facts(F, b)
                    out.append(Access('load', self.expr(F, I.a[0]), None, F, I, fs, ()))
                elif I.op == 'store':
                    if fs is None:
                        fs = self.facts(F, b)
                    out.append(Access('store', self.expr(F, I.a[1]), self.expr(F, I.a[0]), F, I, fs, ()))
                elif I.op in ('call', 'invoke'):
                    if fs is None:
                        fs = self.facts(F, b)
                    G = self.P.resolve(F, I.x['callee'])
                    args = [self.expr(F, a) for a in I.a]
                    c = I.x['callee']
                    nm = c[1:] if isinstance(c, str) and c[0] == '@' else '?'
                    out.append(Access('call', None, tuple(args), F, I, fs, (), nm))
                    if G is not None and depth < 8 and self.inline(G):
                        memo = {}
                        fmemo = {}
                        for A in self.accesses(G, depth + 1):
                            fl = fmemo.get(id(A.facts))
                            if fl is None:
                                fl = fmemo[id(A.facts)] = fs + [subst(f, args, memo) for f in A.facts]
                            if contradicts(fl):
                                continue
                            B = Access(A.kind, subst(A.addr, args, memo) if A.addr else None,
                                       subst(A.val, args, memo) if A.val is not None else None,
                                       A.F, A.I, fl, (I,) + A.path, A.name)
                            out.append(B)
        self.smemo[key] = out
        return out


    # ---------------------------------------------------------------- returns
    def returns(self, F, depth=0):
        """[(value, facts)] of all returns, alternatives taken apart, in-scope calls expanded"""
        key = ('ret', id(F))
        if key in self.smemo:
            return self.smemo[key]
        self.smemo[key] = []
        out = []

        def val(v, s, seen):
            I = F.defs.get(v) if isinstance(v, str) else None
            if I is not None and I.op == 'phi' and I.res not in seen and self.expr(F, v)[0] == 'phi':
                for x, lab in I.x:
                    val(x, s + [f for f in self.edge_facts(F, lab, I.bb) if f not in s], seen | {I.res})
                return
            e = self.expr(F, v)
            if I is not None and I.op == 'call' and depth < 6:
                G = self.P.resolve(F, I.x['callee'])
                if G is not None and self.inline(G):
                    args = [self.expr(F, a) for a in I.a]
                    for e2, s2 in self.returns(G, depth + 1):
                        f = s + [subst(x, args) for x in s2]
                        if not contradicts(f):
                            out.append((subst(e2, args), f))
                    return
            out.append((e, s))
        for b in irlib.rpo(F):
            t = F.blocks[b].insts[-1]
            if t.op == 'ret' and t.a:
                val(t.a[0], list(self.facts(F, b)), frozenset())
        self.smemo[key] = out
        return out


def el(base, idx):
    # p + i indexing: nested constant offsets of the same pointer
    return ('el', base, idx)


def addc(a, b):
    if a[0] == 'c' and b[0] == 'c':
        return ('c', a[1] + b[1])
    if a[0] == 'c':
        a, b = b, a
    if b[0] == 'c':
        if a[0] == '+':
            n = a[2] + b[1]
            return a[1] if n == 0 else ('+', a[1], n)
        return a if b[1] == 0 else ('+', a, b[1])
    return ('bin', 'add', a, b)


def flip(p):
    return {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)


def strip(F, v):
    while isinstance(v, str) and v in F.defs and F.defs[v].op in ('sext', 'zext', 'trunc', 'freeze'):
        v = F.defs[v].a[0]
    return v


def subst(e, args, memo=None):
    if not isinstance(e, tuple):
        return e
    k = e[0] if e else None
    if k == 'p' and len(e) == 2:
        return args[e[1]] if e[1] < len(args) else ('un', '?', 'p%d' % e[1])
    if k in ('c', 'cf', 'g', 'un', 'loc', 'null'):
        return e
    if memo is None:
        memo = {}
    r = memo.get(id(e))
    if r is not None:
        return r[1]
    if k == '+':
        v = addc(subst(e[1], args, memo), ('c', e[2]))
    else:
        v = tuple([subst(x, args, memo) if isinstance(x, tuple) else x for x in e])
        if k == 'phi' and len(v) == 5:
            keep = [n for n, g in enumerate(v[4]) if not contradicts(g)]
            alts = []
            for n in keep:
                if v[3][n] not in alts:
                    alts.append(v[3][n])
            if len(alts) == 1:
                v = alts[0]
            elif len(keep) < len(v[3]):
                v = v[:3] + (tuple(v[3][n] for n in keep), tuple(v[4][n] for n in keep))
        if v == e:
            v = e
    memo[id(e)] = (e, v)
    return v


def contradicts(facts):
    """a comparison of constants among the facts is false"""
    for f in facts:
        if f[0] == 'cmp':
            a, b = f[2], f[3]
            if a[0] == 'null' and b[0] == 'null':
                a = b = ('c', 0)
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(f[1])
                if r is False:
                    return True
            elif f[1] == 'eq' and b[0] == 'null' and a[0] == 'loc' or f[1] == 'eq' and a[0] == 'null' and b[0] == 'loc':
                return True
    return False


def mentions(e, x):
    if e == x:
        return True
    return isinstance(e, tuple) and any(mentions(y, x) for y in e if isinstance(y, tuple))


def mentions_kind(e, kind):
    return isinstance(e, tuple) and (bool(e) and e[0] == kind or any(mentions_kind(y, kind) for y in e if isinstance(y, tuple)))


def mentions_local(e):
    return mentions_kind(e, 'un') or mentions_kind(e, 'loc')


def show(e):
    """readable text of an expression"""
    k = e[0]
    if k == 'c':
        return str(e[1])
    if k == 'p':
        return 'arg%d' % e[1]
    if k == 'ld':
        return show_addr(e[1])
    if k == '+':
        return '%s%+d' % (show(e[1]), e[2])
    if k == 'rng':
        return '[%s..%s)' % (show(e[1]), show(e[2]))
    if k == 'bin':
        return '(%s %s %s)' % (show(e[2]), e[1], show(e[3]))
    if k == 'call':
        return '%s(...)' % e[1]
    if k in ('fld', 'el'):
        return '&' + show_addr(e)
    return k


def show_addr(a):
    if a[0] == 'fld':
        b = a[1]
        return (show(b) if b[0] == 'p' else show_addr(b) if b[0] in ('fld', 'el') else show(b)) + '->' + a[3]
    if a[0] == 'el':
        return '%s[%s]' % (show(a[1]), show(a[2]))
    return '*' + show(a)
