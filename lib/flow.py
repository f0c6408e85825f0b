"""Interprocedural, field-sensitive dependence summaries over LLVM IR.

For every function (specialised on the compile-time constants and NULL-ness of
its arguments and on an assumed option configuration) a *summary* is computed:

  edges    (target region, guard) -> (set of source tokens, sample site)
  bitops   operations 'r &= c', 'r |= c', 'r = c' on integer memory
  stores   (region, value summary) facts for pointers (contents)
  ret      abstract return value

Regions are strings:  'P0', 'P0.field', 'A:..' (local object), 'H:..' (heap
object, one per call site), 'G:name'.  Array levels and pointer levels below a
struct field are collapsed into the region of the field.  Scalar arguments are
tokens 'V0', 'V1', ...

Guards are formulas over bit tests of integer memory ("dirty" tests): a block's
guard is a DNF of conjunctions of ('lit', region, mask, positive).  Unknown
conditions are dropped (assumed satisfiable both ways).

Nothing is executed; branches are pruned only by constants known at analysis
time (the assumed option configuration and literal arguments).
"""
import re
from irlib import AnalysisError, rpo

EMPTY = frozenset()
MAXDISJ = 8

ALLOC = re.compile(r'^(strdup|strndup|malloc|calloc|realloc|get_work\w*|work_get\w*|alloc_array\d.*|jalloc_array\d.*|alloc_\w*|j?alloc\w*)$')
PURE_EXT = re.compile(r'^(exp|sqrt|pow|cos|sin|acos|asin|tan|atan|atan2|log|log10|floor|ceil|fabs|c?exp|csqrt|cpow|cabs|creal|cimag|conj|cexp|strlen|strcmp|strncmp|isnan|isinf|abs|fmod|llvm\..*|__muldc3|__divdc3|tolower|toupper|strchr|strstr|getenv|erf|cosh|sinh|tanh)$')
NOEFF_EXT = re.compile(r'^(printf|fprintf|exit|abort|free|longjmp|_setjmp|vfprintf|fflush|putchar|puts|fputs|fputc|perror|fclose|llvm\.va_start|llvm\.va_end|llvm\.stacksave\S*|llvm\.stackrestore\S*|__assert_fail|free_array\d.*)$')
# arguments written by external numeric routines: name -> (written, read)
EXT_MODEL = {
    'dgetrf_': ([2, 4, 5], [0, 1, 2]), 'zgetrf_': ([2, 4, 5], [0, 1, 2]),
    'dgetrs_': ([5, 7], [1, 2, 3, 4, 5, 0]), 'zgetrs_': ([5, 7], [1, 2, 3, 4, 5]),
    'dgetri_': ([1, 4, 6], [0, 1, 3]), 'dgesv_': ([2, 4, 5, 7], [2, 5]),
    'dgemm_': ([11], [2, 3, 4, 5, 6, 8, 10, 11]), 'dgemv_': ([9], [3, 4, 6, 8, 9]),
    'dgbtrf_': ([4, 6, 7], [0, 1, 2, 3, 4]), 'zgbtrf_': ([4, 6, 7], [0, 1, 2, 3, 4]),
    'dgbtrs_': ([8, 10], [1, 2, 3, 4, 5, 7, 8]), 'zgbtrs_': ([8, 10], [1, 2, 3, 4, 5, 7, 8]),
    'dgeev_': ([3, 5, 6, 7, 9, 13], [2, 3]), 'dsyev_': ([3, 5, 8], [2, 3]),
    'dgeevx_': (list(range(3, 22)), [2, 5]),
    'snprintf': ([0], [2, 3, 4, 5, 6]), 'sprintf': ([0], [1, 2, 3, 4, 5]),
    'strcpy': ([0], [1]), 'strncpy': ([0], [1]), 'strcat': ([0], [1, 0]),
}


class V(object):
    """abstract SSA value"""
    __slots__ = ('pts', 'deps', 'c', 'f', 'ld')
    # pts: regions pointed to; deps: value dependences; c: constant int / None
    # f: boolean formula (nonzero-ness) / None; ld: regions if plain int load

    def __init__(self, pts=EMPTY, deps=EMPTY, c=None, f=None, ld=None):
        self.pts = pts
        self.deps = deps
        self.c = c
        self.f = f
        self.ld = ld

    def key(self):
        return (self.pts, self.deps, self.c, self.f, self.ld)

    def __repr__(self):
        return 'V(pts=%s deps=%s c=%s f=%s)' % (sorted(self.pts), sorted(self.deps), self.c, self.f)


BOT = V()


# ---------------------------------------------------------------- formulas
_track = None          # names of tracked integer fields (None: everything)


def TRACK(r):
    if _track is None:
        return True
    k = r.rfind('.')
    if k < 0:
        return r[0] == 'P'
    return r[k + 1:] in _track


def f_not(f):
    if f is None:
        return None
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def f_or(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    return ('or', a, b)


def f_and(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    return ('and', a, b)


def f_subst(f, mp):
    """mp: region -> set of regions. returns formula or None"""
    if f is None:
        return None
    if f[0] == 'lit':
        rs = mp(f[1])
        out = None
        for r in sorted(rs):
            if TRACK(r):
                out = f_or(out, ('lit', r, f[2]))
        return out
    if f[0] == 'not':
        return f_not(f_subst(f[1], mp))
    a = f_subst(f[1], mp)
    b = f_subst(f[2], mp)
    return f_or(a, b) if f[0] == 'or' else f_and(a, b)


def f_eval(f, env):
    """env(region, mask) -> True/False/None(unknown literal: ignored)"""
    if f is None:
        return None
    if f[0] == 'lit':
        return env(f[1], f[2])
    if f[0] == 'not':
        r = f_eval(f[1], env)
        return None if r is None else not r
    a = f_eval(f[1], env)
    b = f_eval(f[2], env)
    if a is None:
        return b
    if b is None:
        return a
    return (a or b) if f[0] == 'or' else (a and b)


def f_lits(f, out):
    if f is None:
        return
    if f[0] == 'lit':
        out.add((f[1], f[2]))
    else:
        for g in f[1:]:
            f_lits(g, out)


def f_exclusive(a, b):
    """exactly one of the two formulas holds, whatever the literals"""
    if f_not(a) == b:
        return True
    lits = set()
    f_lits(a, lits)
    f_lits(b, lits)
    lits = sorted(lits)
    if len(lits) > 8:
        return False
    for n in range(1 << len(lits)):
        e = {l: bool(n >> i & 1) for i, l in enumerate(lits)}
        env = lambda r, m: e[(r, m)]
        if f_eval(a, env) == f_eval(b, env):
            return False
    return True


# guard = frozenset of conjunctions; conjunction = frozenset of formulas
TRUE = frozenset([EMPTY])


def g_simplify(g):
    g = set(g)
    changed = True
    while changed:
        changed = False
        if EMPTY in g:
            return TRUE
        l = sorted(g, key=len)
        for i, a in enumerate(l):
            for b in l[i + 1:]:
                if a <= b:
                    g.discard(b)
                    changed = True
                    break
                d1 = a - b
                d2 = b - a
                if len(d1) == 1 and len(d2) == 1:
                    x = next(iter(d1))
                    y = next(iter(d2))
                    if f_not(x) == y:
                        g.discard(a)
                        g.discard(b)
                        g.add(a & b)
                        changed = True
                        break
            if changed:
                break
    if len(g) > MAXDISJ:
        x = None
        for a in g:
            x = a if x is None else x & a
        return frozenset([x])
    return frozenset(g)


def g_and(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return g_simplify(frozenset(x | y for x in a for y in b))


def g_or(a, b):
    if a == b:
        return a
    return g_simplify(a | b)


def g_eval(g, env):
    """Is the guarded code certain to be reached (unknown literals ignored)?"""
    for conj in g:
        ok = True
        for f in conj:
            if f_eval(f, env) is False:
                ok = False
                break
        if ok:
            return True
    return False


class Summary(object):
    __slots__ = ('edges', 'bitops', 'contents', 'ret', 'retg', 'calls', 'must')

    def __init__(self):
        self.edges = {}      # (tgt, guard) -> [set(srcs), site]
        self.bitops = {}     # (region, op, const, guard) -> site
        self.must = set()    # (region, op, const) done on every successful path
        self.contents = {}   # region -> set(regions)
        self.ret = BOT
        self.calls = []


_fieldcap = re.compile(r'\.')


def addfield(r, f):
    if r.count('.') >= 4:
        return r
    return r + '.' + f


class Flow(object):
    def __init__(self, P, config=None, control=True, const_fields=None, alloc=ALLOC,
                 shared=None, handlers=None, skip=None, track=None, deps=True):
        global _track
        _track = track
        self.trackable = TRACK
        self.P = P
        self.config = dict(config or {})   # (struct type, field) -> const int (0 also for NULL)
        self.control = control
        self.memo = {}
        self.shared = shared               # memo for config independent functions
        self.stack = []
        self.alloc = alloc
        self.handlers = handlers or {}
        self.skip = skip or (lambda name: False)
        self.partial = {k[1]: v for k, v in self.config.items() if isinstance(v, tuple)}
        self.touch = {}
        self.nfun = 0
        self.deps = deps

    # ------------------------------------------------------------ config use
    def uses_data(self, F):
        """Does F (transitively) mention struct xrtm_data?"""
        k = id(F)
        if k in self.touch:
            return self.touch[k]
        self.touch[k] = False
        r = False
        for i in F.insts():
            if i.op == 'getelementptr' and i.ty.strip('"') == '%struct.xrtm_data':
                r = True
                break
        if not r:
            for i in F.insts():
                if i.op in ('call', 'invoke'):
                    G = self.P.resolve(F, i.x['callee'])
                    if G is not None and self.uses_data(G):
                        r = True
                        break
                    if any(isinstance(a, str) and a.startswith('@') for a in i.a):
                        for a in i.a:
                            if isinstance(a, str) and a.startswith('@'):
                                G = self.P.resolve(F, a)
                                if G is not None and self.uses_data(G):
                                    r = True
        self.touch[k] = r
        return r

    # ------------------------------------------------------------ summaries
    def summary(self, F, consts):
        """consts: tuple per param: int const | ('fn', '@f') | None"""
        key = (F.module, F.name, consts)
        m = self.memo
        if self.shared is not None and not self.uses_data(F):
            m = self.shared
        s = m.get(key)
        if s is not None:
            return s
        if key in self.stack:
            return Summary()
        self.stack.append(key)
        try:
            s = FuncFlow(self, F, consts).run()
        finally:
            self.stack.pop()
        m[key] = s
        self.nfun += 1
        return s


def is_ptr(ty):
    return ty == 'ptr'


class FuncFlow(object):
    def __init__(self, fl, F, consts):
        self.fl = fl
        self.P = fl.P
        self.F = F
        self.consts = consts
        self.val = {}
        self.contents = {}
        self.params = {}
        for k, p in enumerate(F.params):
            c = consts[k] if consts and k < len(consts) else None
            ty = F.ptypes[k]
            if isinstance(c, tuple) and c[0] == 'fn':
                self.params[p] = V(frozenset(['F:' + c[1]]), EMPTY)
            elif is_ptr(ty):
                if c == 0:
                    self.params[p] = V(EMPTY, EMPTY, 0)
                else:
                    self.params[p] = V(frozenset(['P%d' % k]), EMPTY)
            else:
                self.params[p] = V(EMPTY, frozenset(['V%d' % k]), c if isinstance(c, int) else None)
        self.changed = False
        self.rcache = {}
        self.names = fl.P.modules[F.module].fields
        self.control = fl.control is True or (fl.control == 'leaf' and not fl.uses_data(F))
        self.dead_edges = set()

    # --------------------------------------------------------- value lookup
    def v(self, x):
        if isinstance(x, int):
            return V(c=x)
        if isinstance(x, str):
            if x[0] == '%':
                r = self.val.get(x)
                if r is not None:
                    return r
                r = self.params.get(x)
                if r is not None:
                    return r
                return BOT
            if self.P.resolve(self.F, x) is not None:
                return V(frozenset(['F:' + x]))
            return V(frozenset(['G:' + x]))
        if isinstance(x, tuple):
            if x[0] == 'null':
                return V(c=0)
            if x[0] == 'gepc':
                b = self.v(x[2])
                return b
        return BOT

    def setval(self, res, nv):
        old = self.val.get(res)
        if old is None or old.key() != nv.key():
            if old is not None:
                # monotone join for sets
                c = nv.c if (old.c == nv.c) else None
                nv = V(old.pts | nv.pts, old.deps | nv.deps, c, nv.f, nv.ld)
                if nv.key() == old.key():
                    return
            self.val[res] = nv
            self.changed = True

    def load_pts(self, regs):
        out = set()
        for r in regs:
            c = self.contents.get(r)
            if c:
                out |= c
                if r[0] == 'P' or r[0] == 'G':
                    out.add(r)
            else:
                out.add(r)
        return frozenset(out)

    def add_contents(self, regs, pts):
        pts = frozenset(p for p in pts)
        if not pts:
            return
        for r in regs:
            c = self.contents.get(r)
            if c is None:
                c = self.contents[r] = set()
            n = pts - c - ({r} if r[0] == 'P' else set())
            if n:
                c |= n
                self.changed = True
                if self.rcache:
                    self.rcache = {}

    def reach(self, regs):
        if len(regs) == 1:
            k = next(iter(regs))
            r = self.rcache.get(k)
            if r is None:
                r = self.rcache[k] = self.reach1(regs)
            return r
        return self.reach1(regs)

    def reach1(self, regs):
        out = set(regs)
        wl = list(regs)
        while wl:
            r = wl.pop()
            for q in self.contents.get(r, ()):
                if q not in out:
                    out.add(q)
                    wl.append(q)
        return out

    def addr_deps(self, x):
        return self.v(x).deps

    # --------------------------------------------------------------- driver
    def run(self):
        F = self.F
        self.order = rpo(F)
        self.out_edges = {}
        self.must = set()
        self.bitops = {}
        self.callsites = {}
        self.iter = 0
        self.live = set([F.order[0]])
        self.live_edges = set()
        for it in range(14):
            self.iter = it
            self.changed = False
            if it:
                self.compute_ctrl()
            else:
                self.ctrl = {}
            for b in self.order:
                if b not in self.live:
                    continue
                dead = False
                for I in F.blocks[b].insts:
                    self.step(I)
                    if I.op == 'call' and I.x['callee'] in ('@exit', '@abort', '@longjmp', '@_Exit'):
                        dead = True
                if dead or not F.blocks[b].insts:
                    continue
                for s in self.branch_targets(F.blocks[b].insts[-1]):
                    if (b, s) not in self.live_edges:
                        self.live_edges.add((b, s))
                        self.live.add(s)
                        self.changed = True
            if not self.changed and it:
                break
        self.compute_ctrl()
        self.compute_guards()
        return self.finish()

    def branch_targets(self, t):
        """feasible successors of terminator t under known constants"""
        if t.op == 'br' and t.a:
            c = self.v(t.a[0]).c
            if c is not None:
                return [t.x[0] if c else t.x[1]]
            return t.x
        if t.op == 'switch':
            c = self.v(t.a[0]).c
            if c is not None:
                for k, l in t.x[1]:
                    if k == c:
                        return [l]
                return [t.x[0]]
        return self.F.blocks[t.bb].succs

    # ------------------------------------------------------- control deps
    def error_blocks(self):
        """blocks from which only error returns are reachable"""
        if hasattr(self, '_errb'):
            return self._errb
        F = self.F
        errexit = set()
        okexit = set()
        for b in F.order:
            ins = F.blocks[b].insts
            if not ins:
                continue
            t = ins[-1]
            if t.op == 'unreachable':
                errexit.add(b)
            if t.op == 'ret':
                v = t.a[0] if t.a else None
                phi = F.defs.get(v) if isinstance(v, str) else None
                if phi is not None and phi.op == 'phi' and phi.bb == b and F.ret in ('i32',):
                    for pv, pb in phi.x:
                        if isinstance(pv, int) and pv < 0:
                            errexit.add((pb, b))
                        else:
                            okexit.add((pb, b))
                elif isinstance(v, int) and v < 0 and F.ret == 'i32':
                    errexit.add(b)
                else:
                    okexit.add(b)
        # backward reachability from ok exits
        ok = set()
        wl = []
        for e in okexit:
            if isinstance(e, tuple):
                wl.append(e[0])
            else:
                wl.append(e)
        preds = {b: F.blocks[b].preds for b in F.order}
        retb = set(e[1] for e in okexit | errexit if isinstance(e, tuple))
        while wl:
            b = wl.pop()
            if b in ok:
                continue
            ok.add(b)
            for p in preds[b]:
                if b in retb:
                    continue
                wl.append(p)
        self._okx = set(e[0] if isinstance(e, tuple) else e for e in okexit)
        self._errb = set(b for b in F.order if b not in ok and b not in retb)
        return self._errb

    def must_block(self, bb):
        """is bb executed on every path to a successful return (loops counted as entered)?"""
        m = getattr(self, '_mb', None)
        if m is None:
            m = self._mb = {}
            err = self.error_blocks()
            succ = {}
            for a, b in self.live_edges:
                if b not in err and a not in err:
                    succ.setdefault(a, []).append(b)
            dom = {}
            entry = self.F.order[0]
            nodes = [b for b in self.order if b in self.live and b not in err]
            pred = {}
            for a in succ:
                for b in succ[a]:
                    pred.setdefault(b, []).append(a)
            full = set(nodes)
            dom = {b: full for b in nodes}
            dom[entry] = {entry}
            ch = True
            while ch:
                ch = False
                for b in nodes:
                    if b == entry:
                        continue
                    d = None
                    for p in pred.get(b, ()):
                        if p in dom:
                            d = set(dom[p]) if d is None else d & dom[p]
                    d = (d or set()) | {b}
                    if d != dom[b]:
                        dom[b] = d
                        ch = True
            loops = {}
            for a in succ:
                for h in succ[a]:
                    if a in dom and h in dom[a]:
                        body = loops.setdefault(h, [{h}, set()])
                        body[1].add(a)
                        wl = [a]
                        while wl:
                            x = wl.pop()
                            if x in body[0]:
                                continue
                            body[0].add(x)
                            wl.extend(pred.get(x, ()))
            self._mbx = (succ, loops, dom, entry)
        if bb in m:
            return m[bb]
        succ, loops, dom, entry = self._mbx

        def avoid(start, goals, skip, within=None):
            if start == skip:
                return False
            seen, wl = {start}, [start]
            while wl:
                x = wl.pop()
                if x in goals:
                    return True
                for y in succ.get(x, ()):
                    if y not in seen and y != skip and (within is None or y in within):
                        seen.add(y)
                        wl.append(y)
            return False
        b, r = bb, None
        for _ in range(50):
            if not avoid(entry, self._okx & set(dom), b):
                r = True
                break
            inner = [(len(l[0]), h) for h, l in loops.items() if b in l[0] and b != h]
            if not inner:
                r = False
                break
            h = min(inner, key=lambda t: (t[0], t[1]))[1]
            if avoid(h, loops[h][1], b, loops[h][0]):
                r = False
                break
            b = h
        m[bb] = bool(r)
        return m[bb]

    def compute_ctrl(self):
        """block -> set of dependence tokens of controlling branch conditions"""
        F = self.F
        self.ctrl = {}
        if not self.control:
            return
        live = self.live
        succ = {}
        for (a, b) in self.live_edges:
            succ.setdefault(a, []).append(b)
        err = self.error_blocks()
        # drop edges into error-only blocks
        for a in list(succ):
            s2 = [s for s in succ[a] if s not in err]
            if s2:
                succ[a] = s2
        # postdominators over live non-error subgraph
        nodes = []
        seen = set()
        st = [F.order[0]]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            nodes.append(b)
            st.extend(succ.get(b, ()))
        if not hasattr(self, '_pd') or self._pdkey != (frozenset(nodes), len(self.live_edges)):
            pd = self.postdoms(nodes, succ)
            self._pd = pd
            self._pdkey = (frozenset(nodes), len(self.live_edges))
            cd = {}
            for a in nodes:
                ss = [s for s in succ.get(a, ()) if s in seen]
                if len(set(ss)) < 2:
                    continue
                stop = pd.get(a)
                for s in ss:
                    r = s
                    n = 0
                    while r is not None and r != stop and n < 10000:
                        cd.setdefault(r, set()).add(a)
                        r = pd.get(r)
                        n += 1
            self._cd = cd
        cd = self._cd
        for b in nodes:
            s = set()
            todo = list(cd.get(b, ()))
            done = set()
            while todo:
                a = todo.pop()
                if a in done:
                    continue
                done.add(a)
                t = F.blocks[a].insts[-1]
                if t.a:
                    s |= self.v(t.a[0]).deps
                todo.extend(cd.get(a, ()))
            self.ctrl[b] = frozenset(s)

    def postdoms(self, nodes, succ):
        """immediate postdominator map (virtual exit None)"""
        exits = [b for b in nodes if not [s for s in succ.get(b, ()) if s in nodes]]
        nset = set(nodes)
        preds = {b: [] for b in nodes}
        for a in nodes:
            for s in succ.get(a, ()):
                if s in nset:
                    preds[s].append(a)
        # reverse postorder on reversed graph from virtual exit
        order = []
        seen = set()
        stack = []
        for e in exits:
            if e in seen:
                continue
            seen.add(e)
            stack.append((e, iter(preds[e])))
            while stack:
                b, it = stack[-1]
                for p in it:
                    if p not in seen:
                        seen.add(p)
                        stack.append((p, iter(preds[p])))
                        break
                else:
                    order.append(b)
                    stack.pop()
        order.reverse()
        X = '<exit>'
        num = {X: -1}
        for i, b in enumerate(order):
            num[b] = i
        ip = {X: X}
        for e in exits:
            pass
        changed = True
        while changed:
            changed = False
            for b in order:
                new = None
                ss = [s for s in succ.get(b, ()) if s in nset]
                if not ss:
                    ss = [X]
                for s in ss:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = ip[x]
                                while num[y] > num[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        return {b: (ip[b] if ip[b] != X else None) for b in order if b in ip}

    # ------------------------------------------------------------- transfer
    def step(self, I):
        op = I.op
        if op == 'phi':
            pts = set()
            deps = set()
            c = None
            first = True
            allc = True
            n = 0
            for val, l in I.x:
                if (l, I.bb) not in self.live_edges:
                    continue
                if isinstance(val, str) and val[0] == '%' and val not in self.val and val not in self.params:
                    continue       # not yet computed
                n += 1
                x = self.v(val)
                pts |= x.pts
                deps |= x.deps
                deps |= self.ctrl.get(l, EMPTY) if self.control else EMPTY
                if x.c is None:
                    allc = False
                elif first:
                    c = x.c
                    first = False
                elif c != x.c:
                    allc = False
            # f for phis is computed in guard phase
            old = self.val.get(I.res)
            self.setval(I.res, V(frozenset(pts), frozenset(deps), c if allc and n else None,
                                 self.phi_formula(I)))
            return
        if op == 'load':
            p = self.v(I.a[0])
            if is_ptr(I.ty):
                if self.load_const(I, p) == 0:
                    self.setval(I.res, V(EMPTY, EMPTY, 0))
                    return
                c = None
                fp = self.global_fn(I.a[0])
                pts = self.load_pts(p.pts)
                if fp:
                    pts = frozenset(fp)
                self.setval(I.res, V(pts, p.deps))
            else:
                c = self.load_const(I, p)
                ld = None
                if I.ty[0] == 'i' and c is None:
                    ld = frozenset(p.pts)
                deps = p.deps | p.pts
                for r in p.pts:
                    # scalar constants stored in memory: contents ignored
                    pass
                if c is not None:
                    deps = EMPTY
                self.setval(I.res, V(EMPTY, frozenset(deps), c, None, ld))
            return
        if op == 'getelementptr':
            b = self.v(I.a[0])
            pts = b.pts
            ty = I.ty.strip('"')
            deps = set(b.deps)
            if ty.startswith('%') and len(I.a) >= 3:
                flds = self.names.get(I.ty) or self.names.get('"' + ty + '"') or self.names.get(ty)
                k = I.a[2]
                if isinstance(k, int):
                    nm = flds[k] if flds and k < len(flds) else 'f%d' % k
                    pts = frozenset(addfield(r, nm) for r in pts)
                iv = I.a[1]
                if not isinstance(iv, int):
                    deps |= self.v(iv).deps
                for iv in I.a[3:]:
                    if not isinstance(iv, int):
                        deps |= self.v(iv).deps
            else:
                for iv in I.a[1:]:
                    if not isinstance(iv, int):
                        deps |= self.v(iv).deps
            self.setval(I.res, V(pts, frozenset(deps)))
            return
        if op == 'alloca':
            self.setval(I.res, V(frozenset(['A:%s:%s' % (self.F.name, I.res)])))
            return
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc',
                  'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg', 'addrspacecast'):
            x = self.v(I.a[0])
            c = x.c if op in ('sext', 'zext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint') else None
            if op == 'trunc' and x.c is not None:
                c = x.c
            self.setval(I.res, V(x.pts, x.deps, c, x.f, x.ld))
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x = self.v(I.a[0])
            y = self.v(I.a[1])
            c = None
            f = None
            ld = None
            if x.c is not None and y.c is not None:
                c = arith(op, x.c, y.c)
            elif op == 'and' and (x.c == 0 or y.c == 0):
                c = 0
            elif op == 'mul' and (x.c == 0 or y.c == 0) and I.ty[0] == 'i':
                c = 0
            elif op == 'and':
                a, m = (x, y.c) if y.c is not None else (y, x.c)
                pb = self.known_bits(a.ld, m) if m is not None and a.ld and self.fl.partial else None
                if pb is not None:
                    c = pb
                elif m is not None and a.ld:
                    for r in sorted(a.ld):
                        if not self.fl.trackable(r):
                            continue
                        f = f_or(f, ('lit', r, m & 0xffffffff))
                elif I.ty == 'i1':
                    f = f_and(x.f, y.f)
            elif op == 'or' and I.ty == 'i1':
                f = f_or(x.f, y.f)
            elif op == 'xor' and y.c in (1, -1) and I.ty == 'i1':
                f = f_not(x.f)
            deps = x.deps | y.deps
            if c is not None:
                deps = EMPTY
            self.setval(I.res, V(x.pts | y.pts if op in ('add', 'sub') else EMPTY, deps, c, f, None))
            return
        if op == 'icmp':
            x = self.v(I.a[0])
            y = self.v(I.a[1])
            c = None
            f = None
            if x.c is not None and y.c is not None:
                c = cmpop(I.x, x.c, y.c)
            elif I.ty == 'ptr' and I.x in ('eq', 'ne') and I.a[0] in self.F.params and I.a[1] in self.F.params:
                c = 1 if I.x == 'ne' else 0     # in place: the flow of the other side with both names for one object
            elif I.x in ('eq', 'ne') and y.c == 0:
                if x.pts and any(r[0] in 'AHFG' for r in x.pts) and all(r[0] in 'AFG' for r in x.pts):
                    c = 1 if I.x == 'ne' else 0
                else:
                    g = x.f
                    if g is None and x.ld:
                        for r in sorted(x.ld):
                            if not self.fl.trackable(r):
                                continue
                            g = f_or(g, ('lit', r, 0xffffffff))
                    f = g if I.x == 'ne' else f_not(g)
            self.setval(I.res, V(EMPTY, x.deps | y.deps, c, f))
            return
        if op == 'fcmp':
            x = self.v(I.a[0])
            y = self.v(I.a[1])
            self.setval(I.res, V(EMPTY, x.deps | y.deps))
            return
        if op == 'select':
            cnd = self.v(I.a[0])
            x = self.v(I.a[1])
            y = self.v(I.a[2])
            if cnd.c is not None:
                z = x if cnd.c else y
                self.setval(I.res, V(z.pts, z.deps, z.c, z.f, z.ld))
            else:
                c = x.c if x.c == y.c else None
                f = None
                if x.c == 1 and y.c == 0:
                    f = cnd.f
                elif x.c == 0 and y.c == 1:
                    f = f_not(cnd.f)
                d = x.deps | y.deps
                if self.control:
                    d |= cnd.deps
                self.setval(I.res, V(x.pts | y.pts, d, c, f))
            return
        if op in ('extractvalue', 'insertvalue'):
            pts = set()
            deps = set()
            for a in I.a:
                z = self.v(a)
                pts |= z.pts
                deps |= z.deps
            self.setval(I.res, V(frozenset(pts), frozenset(deps)))
            return
        if op == 'store':
            x = self.v(I.a[0])
            p = self.v(I.a[1])
            if is_ptr(I.ty):
                self.add_contents(p.pts, x.pts)
            else:
                self.edge(p.pts, x.deps | p.deps, I)
                self.bitop(I, p)
            return
        if op in ('call', 'invoke'):
            self.call(I)
            return
        if I.res and I.res not in self.val:
            self.setval(I.res, BOT)

    def global_fn(self, x):
        """function constants stored in a constant global array"""
        v = self.v(x)
        out = set()
        for r in v.pts:
            if r.startswith('G:@'):
                t = self.P.global_text(self.F, r[2:])
                if t and ' constant ' in ' ' + t:
                    for f in re.findall(r'ptr (@[-\w.$]+)', t):
                        if self.P.resolve(self.F, f) is not None:
                            out.add('F:' + f)
                elif t:
                    for f in re.findall(r'ptr (@[-\w.$]+)', t):
                        if self.P.resolve(self.F, f) is not None:
                            out.add('F:' + f)
        return out

    def known_bits(self, ld, m):
        """value of (member & m) if only some bits of the member are assumed known"""
        out = set()
        for r in ld:
            kb = self.fl.partial.get(r[r.rfind('.') + 1:])
            if kb is None or r.count('.') != 1:
                return None
            if m & ~(kb[1] | kb[2]) & 0xffffffff:
                return None
            out.add(m & kb[2])
        return out.pop() if len(out) == 1 else None

    def load_const(self, I, p):
        if not p.pts:
            return None
        cs = set()
        for r in p.pts:
            k = r.rfind('.')
            if k < 0:
                return None
            g = self.F.defs.get(I.a[0]) if isinstance(I.a[0], str) else None
            if g is not None and g.op == 'getelementptr' and len(g.a) == 3:
                key = (g.ty.strip('"'), r[k + 1:])
                if key in self.fl.config and not isinstance(self.fl.config[key], tuple):
                    cs.add(self.fl.config[key])
                    continue
            return None
        if len(cs) == 1:
            return cs.pop()
        return None

    def phi_formula(self, I):
        """nonzero-ness formula of an integer phi (short circuit / flag idioms)"""
        if I.ty not in ('i1', 'i32', 'i8'):
            return None
        gs = getattr(self, 'guards', None)
        N = Z = X = None
        for val, l in I.x:
            if (l, I.bb) not in self.live_edges:
                continue
            x = self.v(val)
            eg = self.edge_formula(l, I.bb)
            if eg is None and gs is not None:
                g = gs.get(l)
                if g and g != TRUE:
                    for conj in g:
                        c = None
                        for q in sorted(conj, key=str):
                            c = f_and(c, q)
                        eg = f_or(eg, c)
            if x.c is not None:
                if eg is None:
                    return None
                if x.c:
                    N = f_or(N, eg)
                else:
                    Z = f_or(Z, eg)
            elif x.f is not None:
                X = f_or(X, x.f)
            elif x.ld:
                g = None
                for r in sorted(x.ld):
                    if self.fl.trackable(r):
                        g = f_or(g, ('lit', r, 0xffffffff))
                if g is None:
                    return None
                X = f_or(X, g)
            else:
                return None
        if X is None:
            # exact only if the two outcomes exclude each other
            return N if N is not None and Z is not None and f_exclusive(N, Z) else None
        if N is not None:
            X = f_or(N, X)
        if Z is not None:
            X = f_and(f_not(Z), X)
        return X

    def edge_formula(self, a, b):
        t = self.F.blocks[a].insts[-1]
        if t.op != 'br' or not t.a:
            return None
        if t.x[0] == t.x[1]:
            return None
        f = self.v(t.a[0]).f
        if f is None:
            return None
        return f if t.x[0] == b else f_not(f)

    # --------------------------------------------------------------- effects
    def edge(self, tgts, srcs, I):
        if self.control:
            srcs = srcs | self.ctrl.get(I.bb, EMPTY)
        for t in tgts:
            k = (t, I.bb)
            e = self.out_edges.get(k)
            if e is None:
                self.out_edges[k] = [set(srcs), (self.F.file or '', I.line)]
            else:
                e[0] |= srcs

    def gedge(self, tgt, guard, srcs, site, I):
        """edge coming from a callee with its own guard"""
        if self.control:
            srcs = srcs | self.ctrl.get(I.bb, EMPTY)
        k = (tgt, I.bb, guard)
        e = self.out_edges.get(k)
        if e is None:
            self.out_edges[k] = [set(srcs), site]
        else:
            e[0] |= srcs

    def bitop(self, I, p):
        if I.ty not in ('i32', 'i64'):
            return
        v = I.a[0]
        op = None
        c = None
        sv = self.v(v)
        if sv.c is not None:
            op, c = 'set', sv.c
        elif isinstance(v, str) and v in self.F.defs:
            d = self.F.defs[v]
            if d.op in ('and', 'or'):
                x, y = d.a
                lx = self.F.defs.get(x) if isinstance(x, str) else None
                ly = self.F.defs.get(y) if isinstance(y, str) else None
                for l, o in ((lx, y), (ly, x)):
                    if l is not None and l.op == 'load' and self.v(l.a[0]).pts & p.pts:
                        ov = self.v(o)
                        op, c = d.op, (ov.c if ov.c is not None else self.symc(o))
                        break
        if op is None:
            c2 = self.symc(v)
            op, c = ('set', c2)
        for r in p.pts:
            self.bitops[(r, op, c, I.bb, TRUE)] = (self.F.file or '', I.line)
            self.must.add((r, op, c, I.bb))

    def symc(self, v):
        x = self.params.get(v) if isinstance(v, str) else None
        if x is not None and x.deps:
            return next(iter(x.deps))
        return None

    def call(self, I):
        callee = I.x['callee']
        targets = []
        if isinstance(callee, str) and callee[0] == '@':
            G = self.P.resolve(self.F, callee)
            targets = [(callee, G)]
        else:
            cv = self.v(callee)
            for r in cv.pts:
                if r.startswith('F:'):
                    G = self.P.resolve(self.F, r[2:])
                    targets.append((r[2:], G))
        args = [self.v(a) for a in I.a]
        rv = BOT
        if not targets:
            # unknown callee: treat as pure in its scalar arguments
            pts = set()
            deps = set()
            for a in args:
                deps |= a.deps
                deps |= a.pts
            rv = V(EMPTY, frozenset(deps))
        for nm, G in targets:
            n = nm[1:].strip('"')
            r = self.call_one(I, n, G, args)
            if rv is BOT:
                rv = r
            else:
                rv = V(rv.pts | r.pts, rv.deps | r.deps, rv.c if rv.c == r.c else None,
                       rv.f if rv.f == r.f else f_or(rv.f, r.f))
        if I.res:
            self.setval(I.res, rv)

    def call_one(self, I, n, G, args):
        fl = self.fl
        h = fl.handlers.get(n)
        if h is not None:
            r = h(self, I, args)
            if r is not None:
                return r
        if fl.alloc.match(n):
            return V(frozenset(['H:%s:%s:%d' % (self.F.name, I.bb, I.idx)]))
        if G is None:
            return self.call_ext(I, n, args)
        if fl.skip(n):
            deps = set()
            for a in args:
                deps |= a.deps | a.pts
            return V(EMPTY, frozenset(deps))
        consts = []
        for k, a in enumerate(args):
            if k >= len(G.params):
                break
            if a.c is not None and isinstance(a.c, int):
                consts.append(a.c)
            elif len(a.pts) == 1 and next(iter(a.pts)).startswith('F:'):
                consts.append(('fn', next(iter(a.pts))[2:]))
            else:
                consts.append(None)
        s = fl.summary(G, tuple(consts))
        return self.apply(I, s, args, n)

    def call_ext(self, I, n, args):
        if NOEFF_EXT.match(n):
            return BOT
        if n.startswith('llvm.mem'):
            d, sarg = args[0], args[1]
            if n.startswith('llvm.memset'):
                self.edge(d.pts, sarg.deps, I)
            else:
                self.edge(d.pts, sarg.pts | sarg.deps, I)
                c = set()
                for r in sarg.pts:
                    c |= self.contents.get(r, set())
                if c:
                    self.add_contents(d.pts, c)
            return BOT
        if n in EXT_MODEL:
            wr, rd = EXT_MODEL[n]
            src = set()
            for k in rd:
                if k < len(args):
                    src |= args[k].deps | self.reach(args[k].pts)
            for k in wr:
                if k < len(args):
                    self.edge(args[k].pts, frozenset(src), I)
            return V(EMPTY, EMPTY)
        deps = set()
        for a in args:
            deps |= a.deps | a.pts
        if PURE_EXT.match(n):
            return V(EMPTY, frozenset(deps))
        for a in args:
            if a.pts:
                self.edge(frozenset(self.reach(a.pts)), frozenset(deps), I)
        return V(EMPTY, frozenset(deps))

    def apply(self, I, s, args, n):
        cache = {}
        heap = 'H:%s:%s:%d' % (self.F.name, I.bb, I.idx)

        def reg(r):
            """callee region -> caller regions"""
            x = cache.get(r)
            if x is not None:
                return x
            if r[0] == 'P':
                k = 1
                while k < len(r) and r[k].isdigit():
                    k += 1
                idx = int(r[1:k])
                rest = r[k:]
                base = args[idx].pts if idx < len(args) else EMPTY
                if not rest:
                    out = set()
                    for q in base:
                        out |= self.reach([q]) if q[0] in 'AH' or self.contents.get(q) else {q}
                else:
                    out = set()
                    for q in base:
                        z = q
                        for part in rest[1:].split('.'):
                            z = addfield(z, part)
                        out.add(z)
                        out |= self.contents.get(z, EMPTY)
                x = frozenset(out)
            elif r[0] == 'V':
                idx = int(r[1:])
                x = args[idx].deps if idx < len(args) else EMPTY
            elif r[0] == 'H' or r[0] == 'A':
                x = frozenset([heap])
            else:
                x = frozenset([r])
            cache[r] = x
            return x

        def regs(rs):
            out = set()
            for r in rs:
                out |= reg(r)
            return frozenset(out)

        for r, c in s.contents.items():
            tg = reg_direct(r, args, heap)
            self.add_contents(tg, regs(c))
        for (t, g), (srcs, site) in s.edges.items():
            ts = reg(t)
            if not ts:
                continue
            ss = regs(srcs) if self.fl.deps else EMPTY
            g2 = self.gsubst(g, reg)
            for q in ts:
                self.gedge(q, g2, ss, site, I)
        for (r, op, c, g), site in s.bitops.items():
            g2 = self.gsubst(g, reg)
            c0 = c
            if isinstance(c, str) and c[0] == 'V':
                k = int(c[1:])
                a = args[k]
                c = a.c if a.c is not None else self.symc(I.a[k])
            for q in reg(r):
                self.bitops[(q, op, c, I.bb, g2)] = site
                if (r, op, c0) in s.must:
                    self.must.add((q, op, c, I.bb))
        x = s.ret
        pts = set()
        for r in x.pts:
            if r[0] == 'P' and '.' not in r:
                k = int(r[1:])
                pts |= args[k].pts
            else:
                pts |= reg(r)
        return V(frozenset(pts), regs(x.deps) if self.fl.deps else EMPTY, x.c, f_subst(x.f, reg))

    def gsubst(self, g, reg):
        if g == TRUE:
            return g
        out = set()
        for conj in g:
            c = set()
            for f in conj:
                f2 = f_subst(f, reg)
                if f2 is not None:
                    c.add(f2)
            out.add(frozenset(c))
        return g_simplify(out)

    # ---------------------------------------------------------------- guards
    def compute_guards(self):
        """trace-partitioned must-guards per block"""
        F = self.F
        err = self.error_blocks()
        entry = F.order[0]
        st = {b: {} for b in F.order}   # conj -> facts(frozenset)
        st[entry] = {EMPTY: EMPTY}
        work = [entry]
        pos = {b: i for i, b in enumerate(self.order)}
        rounds = 0
        import heapq
        heap = [0]
        inq = {entry}
        while heap and rounds < 4000:
            rounds += 1
            b = self.order[heapq.heappop(heap)]
            inq.discard(b)
            t = F.blocks[b].insts[-1]
            for s in set(F.blocks[b].succs):
                if (b, s) not in self.live_edges:
                    continue
                ef = self.edge_formula(b, s)
                fact = self.edge_fact(t, s)
                new = {}
                for conj, facts in st[b].items():
                    fs = set(facts)
                    if fact is not None:
                        if self.contradict(fs, fact):
                            continue
                        fs.add(fact)
                    # kill facts about values redefined in s (phis), rename
                    fs = self.phi_rename(fs, b, s)
                    c2 = conj
                    if ef is not None:
                        if f_not(ef) in conj:
                            continue
                        c2 = conj | {ef}
                    if c2 in new:
                        new[c2] = new[c2] & frozenset(fs)
                    else:
                        new[c2] = frozenset(fs)
                if self.merge(st, s, new):
                    if s not in inq:
                        inq.add(s)
                        heapq.heappush(heap, pos[s])
        self.guards = {}
        for b in F.order:
            if st[b]:
                self.guards[b] = g_simplify(frozenset(st[b].keys()))
            else:
                self.guards[b] = None
        # phi formulas may need guards: recompute dependent values once
        ch = False
        for b in self.order:
            if b not in self.live:
                continue
            for I in F.blocks[b].insts:
                if I.op == 'phi':
                    f = self.phi_formula(I)
                    o = self.val.get(I.res)
                    if o is not None and o.f != f:
                        self.val[I.res] = V(o.pts, o.deps, o.c, f, o.ld)
                        ch = True
        if ch and not getattr(self, '_second', False):
            self._second = True
            for it in range(3):
                self.iter = 5
                for b in self.order:
                    if b not in self.live:
                        continue
                    for I in F.blocks[b].insts:
                        if I.op in ('icmp', 'zext', 'sext', 'trunc', 'and', 'or', 'xor'):
                            self.step(I)
            self.compute_guards()

    def edge_fact(self, t, s):
        if t.op != 'br' or not t.a or t.x[0] == t.x[1]:
            return None
        d = self.F.defs.get(t.a[0]) if isinstance(t.a[0], str) else None
        if d is None or d.op != 'icmp':
            return None
        p = d.x
        if t.x[0] != s:
            p = NEG[p]
        return (p, d.a[0], d.a[1])

    def contradict(self, fs, f):
        return (NEG[f[0]], f[1], f[2]) in fs

    def phi_rename(self, fs, b, s):
        phis = [I for I in self.F.blocks[s].insts if I.op == 'phi']
        if not phis:
            return fs
        res = {I.res for I in phis}
        out = set()
        mp = {}
        for I in phis:
            for v, l in I.x:
                if l == b and isinstance(v, str):
                    mp.setdefault(v, []).append(I.res)
        for f in fs:
            if f[1] in res or f[2] in res:
                pass
            else:
                out.add(f)
            for x in mp.get(f[1], ()) if isinstance(f[1], str) else ():
                if f[2] not in res:
                    out.add((f[0], x, f[2]))
        return out

    def merge(self, st, s, new):
        cur = st[s]
        ch = False
        for c, fs in new.items():
            if c in cur:
                n = cur[c] & fs
                if n != cur[c]:
                    cur[c] = n
                    ch = True
            else:
                # subsumed by a weaker conj with no more facts?
                sub = False
                for d, dfs in cur.items():
                    if d <= c and dfs <= fs:
                        sub = True
                        break
                if not sub:
                    cur[c] = fs
                    ch = True
        # complementary merging
        again = True
        while again and len(cur) > 1:
            again = False
            l = list(cur.keys())
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    a, b = l[i], l[j]
                    d1, d2 = a - b, b - a
                    if (len(d1) == 1 and len(d2) == 1 and f_not(next(iter(d1))) == next(iter(d2))) :
                        k = a & b
                        f = cur[a] & cur[b]
                        # keep apart if facts differ in a way that may matter
                        if cur[a] != cur[b] and (cur[a] - cur[b]) and (cur[b] - cur[a]):
                            continue
                        del cur[a]
                        del cur[b]
                        cur[k] = f & cur[k] if k in cur else f
                        again = True
                        break
                if again:
                    break
        if len(cur) > MAXDISJ:
            k = None
            f = None
            for c, fs in cur.items():
                k = c if k is None else k & c
                f = fs if f is None else f & fs
            cur.clear()
            cur[k] = f
        return ch

    # ---------------------------------------------------------------- finish
    def finish(self):
        F = self.F
        S = Summary()
        local = lambda r: r[0] == 'A' or r[0] == 'H'
        # return value
        pts, deps, cs, f = set(), set(), set(), None
        rets = []
        for b in self.order:
            if b in self.live and F.blocks[b].insts:
                t = F.blocks[b].insts[-1]
                if t.op == 'ret' and t.a:
                    x = self.v(t.a[0])
                    pts |= x.pts
                    deps |= x.deps
                    cs.add(x.c)
                    f = f_or(f, x.f)
        escaping = set()

        def mark(rs):
            for r in rs:
                if local(r) and r not in escaping:
                    escaping.add(r)
                    mark(self.contents.get(r, ()))
        mark(pts)
        for r, c in self.contents.items():
            if not local(r):
                mark(c)
        # local edges (guards ignored), merged per region
        ladj = {}
        for k, e in self.out_edges.items():
            t, bb = k[0], k[1]
            if bb not in self.live or not self.guards.get(bb):
                continue
            if local(t):
                base = t.split('.')[0]
                if t in escaping or base in escaping:
                    continue
                ladj.setdefault(t, set()).update(e[0])
        clos = {}

        def closure(srcs):
            out = set()
            seen = set()
            wl = list(srcs)
            while wl:
                r = wl.pop()
                if r in seen:
                    continue
                seen.add(r)
                if local(r):
                    if r in escaping or r.split('.')[0] in escaping:
                        out.add(r)
                    wl.extend(ladj.get(r, ()))
                    # field / whole aliasing of local structs
                    if '.' in r:
                        b0 = r.rsplit('.', 1)[0]
                        if b0 in ladj:
                            wl.append(b0)
                    elif r + '.' in self._pref:
                        for q in self._pref[r + '.']:
                            wl.append(q)
                else:
                    out.add(r)
            return out
        self._pref = {}
        for t in ladj:
            if '.' in t:
                self._pref.setdefault(t.split('.')[0] + '.', set()).add(t)
        memo = {}

        def cl(srcs):
            k = frozenset(srcs)
            r = memo.get(k)
            if r is None:
                r = memo[k] = frozenset(closure(k))
            return r
        for k, e in self.out_edges.items():
            t, bb = k[0], k[1]
            g = self.guards.get(bb)
            if bb not in self.live or not g:
                continue
            if local(t) and not (t in escaping or t.split('.')[0] in escaping):
                continue
            if len(k) == 3:
                g = g_and(g, k[2])
            key = (t, g)
            x = S.edges.get(key)
            if x is None:
                S.edges[key] = [set(cl(e[0])), e[1]]
            else:
                x[0] |= cl(e[0])
        for (r, op, c, bb, g0), site in self.bitops.items():
            g = self.guards.get(bb)
            if bb not in self.live or not g or local(r):
                continue
            S.bitops[(r, op, c, g_and(g, g0))] = site
            if (r, op, c, bb) in self.must and self.must_block(bb):
                S.must.add((r, op, c))
        for r, c in self.contents.items():
            if local(r) and r not in escaping:
                continue
            c2 = set(q for q in c)
            if c2:
                S.contents[r] = c2
        c = cs.pop() if len(cs) == 1 else None
        S.ret = V(frozenset(pts), frozenset(cl(deps)), c, f)
        return S


def reg_direct(r, args, heap):
    """callee region whose pointer content is set -> caller regions (no reach)"""
    if r[0] == 'P':
        k = 1
        while k < len(r) and r[k].isdigit():
            k += 1
        idx = int(r[1:k])
        rest = r[k:]
        base = args[idx].pts if idx < len(args) else EMPTY
        if not rest:
            return base
        out = set()
        for q in base:
            z = q
            for part in rest[1:].split('.'):
                z = addfield(z, part)
            out.add(z)
        return frozenset(out)
    if r[0] in 'HA':
        return frozenset([heap])
    return frozenset([r])


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x & 0x80000000 else x


def arith(op, a, b):
    try:
        if op == 'add':
            return s32(a + b)
        if op == 'sub':
            return s32(a - b)
        if op == 'mul':
            return s32(a * b)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return s32(a << b) if 0 <= b < 32 else None
        if op in ('lshr', 'ashr'):
            return a >> b if 0 <= b < 64 else None
        if op == 'sdiv' and b:
            return int(a / b)
        if op == 'srem' and b:
            return a - b * int(a / b)
    except Exception:
        pass
    return None


def cmpop(p, a, b):
    return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                'ult': (a & 0xffffffff) < (b & 0xffffffff), 'ule': (a & 0xffffffff) <= (b & 0xffffffff),
                'ugt': (a & 0xffffffff) > (b & 0xffffffff), 'uge': (a & 0xffffffff) >= (b & 0xffffffff)}[p])
