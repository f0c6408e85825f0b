"""C27: solving and querying do not change the inputs.

Inputs are the members of the instance that a get function returns (value dependences of
its result or output arguments).  The may-write summaries of the functions that simulate
must not contain them; a member that is changed temporarily must be put back on every path
that returns (typestate in the functions that store to it); a member that only another
output mode computes may be written if the get function refuses in that mode.  Query
functions write nothing of the instance.
"""
import re
import flow, irlib, sym, defs
from common import prog, public_api, fd_api, rel, reachable, where
from irlib import AnalysisError
import checks.c05 as c05
from checks.c11 import enum

LEVEL = 'other'
SIM = re.compile(r'^xrtm_(solution|radiance|mean_radiance|flux|flux_divergence|solution_2|radiance_2|pade_params|local_r_t_u_w)$')
FDSIM = re.compile(r'^xrtm_fd_(solution|radiance|mean_radiance|flux|flux_divergence)$')
CHANGES = re.compile(r'_set_|create|destroy|^xrtm_clear_saved$|^xrtm_update_varied_layers$|^xrtm_misc_input_init$')
# options of which only one can be on (C15 verifies the refusal)
EITHER = [('XRTM_OPTION_OUTPUT_AT_LEVELS', 'XRTM_OPTION_OUTPUT_AT_TAUS')]


def member(r):
    """'P0.x.y' -> 'x' """
    return r.split('.')[1] if r.startswith('P0.') else None


def inst(F):
    return F.params and F.ptypes[0] == 'ptr' and not re.search(r'_(name|mask|index|value)(_list)?_to_', F.name)


def run(R, tier):
    P = prog('src', 'misc')
    api, fda = public_api(P), fd_api(P)
    fl = flow.Flow(P, {}, track=(), control=False, deps=True)
    R.explanation = ('may-write summaries of all simulating and querying functions against the members the get functions '
                     'read; members changed for the time of a call are followed to every return')
    R.assumptions = ['clang IR after mem2reg represents the source',
                     'finite difference runs change the inputs of the model instance temporarily; that is decided for C24',
                     'marks of saved results, set flags and results are not inputs']
    cov = dict(getters=0, input_members=0, sim_functions=0, query_functions=0, stores_examined=0, temporary=[], exclusive=[])

    # inputs
    inputs = {'': {}, 'fd': {}}
    for F in api + fda:
        if not re.match(r'xrtm_(fd_)?get_', F.name) or not inst(F):
            continue
        S = fl.summary(F, tuple([None] * len(F.params)))
        cov['getters'] += 1
        src = set(S.ret.deps)
        for (t, g), (s, site) in S.edges.items():
            if re.match(r'P[1-9]', t):
                src |= s
        w = 'fd' if F.name.startswith('xrtm_fd_') else ''
        for r in src:
            m = member(r)
            if m and r.count('.') == 1 and m not in ('d',):
                inputs[w].setdefault(m, []).append(F)
    cov['input_members'] = len(inputs['']) + len(inputs['fd'])
    if len(inputs['']) < 40 or len(inputs['fd']) < 10:
        raise AnalysisError('only %d + %d members are read by get functions' % (len(inputs['']), len(inputs['fd'])))

    # queries
    vf = flow.Flow(P, {}, track=(), control=False, deps=False)
    for F in api + fda:
        if not inst(F) or CHANGES.search(F.name) or SIM.match(F.name) or FDSIM.match(F.name):
            continue
        cov['query_functions'] += 1
        S = vf.summary(F, tuple([None] * len(F.params)))
        for (t, g), (s, site) in sorted(S.edges.items(), key=lambda kv: kv[0][0]):
            cov['stores_examined'] += 1
            if t == 'P0' or t.startswith('P0.'):
                R.add('query:%s:%s' % (F.name, t), '%s() writes %s of the instance' % (F.name, t[3:]), site_s(site))

    # simulations
    hits = {}
    for F in api + fda:
        w = '' if SIM.match(F.name) else 'fd' if FDSIM.match(F.name) else None
        if w is None:
            continue
        cov['sim_functions'] += 1
        S = vf.summary(F, tuple([None] * len(F.params)))
        for (t, g), (s, site) in sorted(S.edges.items(), key=lambda kv: (kv[0][0], str(kv[1][1]))):
            cov['stores_examined'] += 1
            m = member(t)
            if m in inputs[w]:
                hits.setdefault((w, m), []).append((F, site))
    for (w, m), l in sorted(hits.items()):
        F, site = l[0]
        bad = temporary(P, [x[0] for x in l], w, m)
        if bad is None:
            cov['temporary'].append(m)
            continue
        if w == '' and exclusive(P, c05.make(P)[2], m, inputs[w][m], [x[0] for x in l]):
            cov['exclusive'].append(m)
            continue
        R.add('changed:%s' % m, '%s() changes %s, which %s() returns%s' % (F.name, m, inputs[w][m][0].name, bad), site_s(site))
    R.instances = cov['input_members'] * cov['sim_functions'] + cov['query_functions']
    R.coverage = cov


def site_s(s):
    return '%s:%s' % s if isinstance(s, tuple) else str(s)


def exclusive(P, S, m, getters, sims):
    """True if every get function of m needs an option under which no simulation writes m"""
    E = dict(enum(P, 'xrtm_option_mask'))
    for G in getters:
        ok = False
        for pair in EITHER:
            for on, off in (pair, pair[::-1]):
                if on not in E or off not in E:
                    raise AnalysisError('anchor vanished: ' + on)
                if not needs(S, G, E[on]):
                    continue
                cfg = {('struct.xrtm_data', 'options'): ('bits', E[off], E[on])}
                f2 = flow.Flow(P, cfg, track=(), control=False, deps=False)
                if not any(member(t) == m for F in sims for (t, g) in f2.summary(F, tuple([None] * len(F.params))).edges):
                    ok = True
        if not ok:
            return False
    return True


def needs(S, G, bit):
    """does G succeed only if the option is on?"""
    n = 0
    st = [A.facts for A in S.accesses(G) if A.kind == 'store']
    rs = [fs for v, fs in S.returns(G) if v[0] not in ('c', 'cf')]
    for fs in st or rs:
        n += 1
        if not any(f[0] == 'cmp' and f[1] == 'ne' and f[3] == ('c', 0) and f[2][0] == 'bin' and f[2][1] == 'and' and ('c', bit) in f[2][2:] for f in fs):
            return False
    return n > 0


def temporary(P, roots, w, m):
    """None if every simulating function puts the old value of member m back before it returns"""
    T = Restore(P, 'xrtm_fd_data' if w == 'fd' else 'xrtm_data', m)
    for F in roots:
        e = T.effect(F)
        if e is not None:
            return '; ' + T.why.get(id(F), '%s() changes it' % F.name)
    return None


class Restore(object):
    """effect of every function on a scalar member: None (as at entry), ('arg', k), ('set',);
    and whether it returns the value at entry"""

    def __init__(self, P, st, m):
        self.P, self.st, self.m = P, st, m
        self.memo = {}
        self.why = {}
        self.rets = {}

    def is_addr(self, G, I):
        if I.op == 'getelementptr' and I.ty.strip('"').lstrip('%') == 'struct.' + self.st and len(I.a) == 3 and isinstance(I.a[2], int):
            fl = self.P.fields_of(G, I.ty)
            return bool(fl) and I.a[2] < len(fl) and fl[I.a[2]] == self.m
        return False

    def effect(self, G):
        k = id(G)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        self.memo[k] = self.analyse(G)
        return self.memo[k]

    def analyse(self, G):
        addr = {I.res for I in G.insts() if self.is_addr(G, I)}
        for J in G.insts():
            if J.op == 'load' and J.a[0] in addr and J.ty == 'ptr' or J.op == 'getelementptr' and J.a[0] in addr:
                self.why[id(G)] = '%s() changes it' % G.name
                for K in G.insts():      # memory behind the member: only reads are harmless
                    if K.op == 'store' and self.behind(G, K.a[1], J.res):
                        return ('set',)
                    if K.op in ('call', 'invoke') and any(isinstance(a, str) and self.behind(G, a, J.res) for a in K.a):
                        return ('set',)
            elif J.op in ('call', 'invoke') and any(isinstance(a, str) and a in addr for a in J.a):
                self.why[id(G)] = '%s() passes its address on' % G.name
                return ('set',)
        order = irlib.rpo(G)
        # (state, values known to be the one at entry); state: frozenset of None / ('arg', k) / ('set',)
        ins = {order[0]: (frozenset([None]), frozenset())}
        wl = [order[0]]
        out = set()
        ro = True
        site = None
        while wl:
            b = wl.pop(0)
            s, orig = ins[b]
            o = set(orig)
            dead = False
            for I in G.blocks[b].insts:
                if I.op == 'load' and I.a[0] in addr:
                    (o.add if s == {None} else o.discard)(I.res)
                elif I.op == 'phi':
                    (o.add if all(v in o for v, l in I.x if l in ins) else o.discard)(I.res)
                elif I.op == 'store' and I.a[1] in addr:
                    v = I.a[0]
                    s = frozenset([None if v in o else ('arg', G.params.index(v)) if v in G.params else ('set',)])
                elif I.op in ('call', 'invoke'):
                    if I.x['callee'] in ('@exit', '@abort', '@longjmp'):
                        dead = True
                        break
                    H = self.P.resolve(G, I.x['callee'])
                    if H is not None:
                        e = self.effect(H)
                        if I.res and self.rets.get(id(H)):
                            (o.add if s == {None} else o.discard)(I.res)
                        if e is not None:
                            if e[0] == 'arg' and e[1] < len(I.a):
                                v = I.a[e[1]]
                                s = frozenset([None if v in o else ('arg', G.params.index(v)) if v in G.params else ('set',)])
                            else:
                                s = frozenset([('set',)])
                                self.why.setdefault(id(G), self.why.get(id(H), '%s() changes it' % H.name))
                elif I.op == 'ret':
                    out |= s
                    if s != {None}:
                        self.why.setdefault(id(G), '%s() leaves it changed' % G.name)
                    if not (I.a and I.a[0] in o):
                        ro = False
            if dead:
                continue
            for c in G.blocks[b].succs:
                n = (ins[c][0] | s, ins[c][1] & frozenset(o)) if c in ins else (s, frozenset(o))
                if ins.get(c) != n:
                    ins[c] = n
                    if c not in wl:
                        wl.append(c)
        self.rets[id(G)] = ro and bool(out)
        if not out or out == {None}:
            return None
        if len(out) == 1:
            return next(iter(out))
        return ('set',)

    def behind(self, G, a, root, n=0):
        while n < 20:
            if a == root:
                return True
            I = G.defs.get(a) if isinstance(a, str) else None
            if I is None or I.op not in ('getelementptr', 'load', 'bitcast'):
                return False
            a = I.a[0]
            n += 1
        return False
