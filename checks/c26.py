"""C26: caller arrays are neither kept nor modified.

Points-to and may-write summaries (lib/flow.py) of every public function, callees expanded:
 - kept: memory reachable from the instance or from static storage holds a pointer into an
   argument after the call (FD instances keep the model instance, xrtm_set_kernel_func()
   keeps the function and its auxiliary data: that is what they are given for)
 - modified: a store that may address an argument that the interface description does not
   declare as an output.
"""
import re
import flow, defs
from common import prog, public_api, fd_api, rel
from irlib import AnalysisError

LEVEL = 'other'
PK = re.compile(r'P([1-9]\d*)(\.|$)')
# outputs of functions that the interface description does not list
LISTS = re.compile(r'_mask_to_(index|name|value)_list$')
EXTRA = {'xrtm_pade_params': {3, 4}, 'xrtm_local_r_t_u_w': set(range(3, 11))}
KEEPS = {'xrtm_set_kernel_func': {2, 3}, 'xrtm_fd_create': {1}}


def outputs(P):
    """{function: set of output parameters}"""
    out = {}
    for w in ('xrtm', 'xrtm_fd'):
        for s in defs.load(w):
            out[s.full] = {n + 1 for n, a in enumerate(s.args) if a.io == 'out'}
    for F in public_api(P) + fd_api(P):
        if F.name in out:
            continue
        if LISTS.search(F.name):
            out[F.name] = {1}
        elif F.name in EXTRA:
            out[F.name] = EXTRA[F.name]
        elif F.name.endswith('_2') and F.name[:-2] in out:
            out[F.name] = out[F.name[:-2]]
        else:
            out[F.name] = set()
    return out


def owner(P, F):
    """is parameter 0 the instance?"""
    return not (re.search(r'_(name|mask|index|value)(_list)?_to_', F.name) or not F.params or F.ptypes[0] != 'ptr')


def run(R, tier):
    P = prog('src', 'misc')
    fl = flow.Flow(P, {}, track=(), control=False, deps=False)
    outs = outputs(P)
    R.explanation = ('points-to and may-write summaries of all public functions, callees expanded: no pointer into an '
                     'argument survives in the instance or in static storage, and only documented outputs are stored to')
    R.assumptions = ['clang IR after mem2reg represents the source',
                     'the interface description files name the output arguments',
                     'external numeric routines write only the arguments listed in lib/flow.py']
    sites = {}
    cov = dict(functions=0, pointer_args=0, outputs=0, stores_examined=0, summaries=0)
    for F in public_api(P) + fd_api(P):
        S = fl.summary(F, tuple([None] * len(F.params)))
        inst = owner(P, F)
        cov['functions'] += 1
        ptr = [k for k in range(len(F.params)) if F.ptypes[k] == 'ptr' and not (inst and k == 0)]
        cov['pointer_args'] += len(ptr)
        cov['outputs'] += len(outs[F.name])
        # kept
        reach = {}
        for r in S.contents:
            if (r[0] == 'P' and inst and (r == 'P0' or r.startswith('P0.'))) or r[0] == 'G':
                seen = {r: None}
                wl = [r]
                while wl:
                    q = wl.pop()
                    for x in S.contents.get(q, ()):
                        if x not in seen:
                            seen[x] = q
                            wl.append(x)
                            m = re.match(r'P(\d+)', x)
                            if m and int(m.group(1)) in ptr and int(m.group(1)) not in KEEPS.get(F.name, ()):
                                reach.setdefault((r, int(m.group(1))), (q, x))
        for (r, k), (q, x) in sorted(reach.items()):
            R.add('keep:%s:%d:%s' % (F.name, k, r), '%s() leaves a pointer into its argument %s in %s (stored in %s)' % (F.name, F.params[k].lstrip('%'), r, q), where_f(F))
        # modified
        for (t, g), (src, site) in sorted(S.edges.items(), key=lambda kv: (kv[0][0], str(kv[0][1]))):
            cov['stores_examined'] += 1
            m = re.match(r'P(\d+)', t)
            if m and int(m.group(1)) in ptr and int(m.group(1)) not in outs[F.name]:
                k = int(m.group(1))
                if k in KEEPS.get(F.name, ()):
                    continue
                sites.setdefault(site, []).append((F.name, k, F.params[k].lstrip('%')))
    for site, l in sites.items():
        n, k, a = l[0]
        R.add('write:%s:%d' % (n, k), '%s() may write to its argument %s, which is an input%s' % (
            n, a, '' if len({x[0] for x in l}) < 2 else ' (also: %s)' % ', '.join(sorted({x[0] for x in l} - {n}))), site_s(site))
    cov['summaries'] = fl.nfun
    R.instances = cov['pointer_args']
    if R.instances < 150:
        raise AnalysisError('only %d pointer arguments found' % R.instances)
    R.coverage = cov


def where_f(F):
    return '%s:%d' % (rel(F.module), F.line or 0)


def site_s(s):
    return '%s:%s' % s if isinstance(s, tuple) else str(s)
