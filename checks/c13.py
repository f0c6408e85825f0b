"""C13: a failure inside the library always reaches the caller.

R1  the result of every call to a function that can fail is consumed, and on the
    paths on which the call failed the caller returns a failure itself (or ends the
    process) - never a result that looks like success;
R2  after a diagnostic 'ERROR: ...' has been written the function returns a failure;
R3  the status of every LAPACK call is examined and a non-zero status is never
    followed by a success return.
"""
import re
import irlib, errs
from irlib import AnalysisError
from common import prog, where, callee_name, str_arg, rel, public_api, fd_api, reachable

LEVEL = 'other'

# Functions whose negative result is an answer, not a failure of the operation.
ANSWERS = {
    'kernel_n_params': 'fails only for a kernel enum value that xrtm_create rejected; arguments are stored kernel types',
    'next_layer': 'negative result means "no further layer", the loop end marker of combine_grid_layers',
    'stack_chain_find': 'search: negative result means "not in the chain"',
    'stack_chain_find2': 'search: negative result means "not in the chain"',
    'stack_chain_free': 'release function, its failure return is unreachable',
    'insertion_sort_data': 'only NaN keys fail; keys are integers ordered by construction',
    'size_dist_code': 'search by name: negative means unknown name',
}
# self tests that only print; compiled into the library, they return nothing
DIAGNOSTIC = re.compile(r'^check_(phase_(vecs|mats)_norm|R_and_T_norm|conserve_energy)(_l)?$')
PREDICATES = {'kernel_is_valid': 'predicate: 0 is its "no" answer, tested by its callers'}
LAPACK = re.compile(r'^[dz](getrf|getrs|getri|gesv|gbtrf|gbtrs|geev|syev|geevx)_$')


def err_value(F, v):
    k = errs.ret_kind(F)
    if v == errs.ERR:
        return True
    if isinstance(v, int):
        return (v == 0) if k == 'ptr' else v < 0
    if isinstance(v, tuple) and v[0] == 'f':
        try:
            return float(v[1]) < -1e300
        except ValueError:
            return str(v[1]).upper().startswith(('0XFFEF', '0XFFF'))
    return False


def run(R, tier):
    P = prog('src', 'misc')
    E = errs.Errs(P)
    failing = [F for F in P.functions() if errs.ret_kind(F) == 'int' and E.can_fail(F)]
    if len(failing) < 100:
        raise AnalysisError('only %d functions with a failure result found' % len(failing))
    for n in ('xrtm_solution', 'xrtm_radiance', 'xrtm_create'):
        if P.need(n) not in failing:
            raise AnalysisError('%s no longer has a failure result' % n)
    n1 = n2 = n3 = skipped = 0
    used = set()
    memo = {}
    scope = reachable(P, public_api(P) + fd_api(P))
    for F in scope:
        for I in F.insts():
            if I.op != 'call':
                continue
            cn = callee_name(I)
            G = P.resolve(F, I.x['callee'])
            if G is not None:
                if errs.ret_kind(G) != 'int' or not error_codes(P, E, G, memo):
                    continue
                if G.name in ANSWERS:
                    used.add(G.name)
                    skipped += 1
                    continue
                n1 += 1
                key = 'ignored:%s:%s' % (F.name, G.name)
                if I.res is None or not E.uses(F, I.res):
                    R.add(key, '%s() discards the result of %s(), which can report a failure' % (F.name, G.name),
                          where(F, I), rule='R1', callee=G.name, caller=F.name)
                    continue
                codes = error_codes(P, E, G, memo)
                bad = []
                rets = []
                for c in codes:
                    r, _ = E.after(F, I, 'int', c)
                    rets += r
                    for b, vs in r:
                        for v in vs:
                            if not err_value(F, v) and v != c and not (
                                    F.internal and isinstance(v, int) and v > 0):
                                bad.append((b, v))
                if not rets:
                    continue
                if bad or F.ret.strip() == 'void':
                    R.add('swallowed:%s:%s' % (F.name, G.name),
                          '%s() can return as if successful (%s) although %s() failed' %
                          (F.name, ','.join(sorted({str(v) for b, v in bad})) or 'void', G.name),
                          where(F, I), rule='R1', callee=G.name, caller=F.name,
                          returns=sorted({str(v) for b, v in bad}))
            elif cn and LAPACK.match(cn):
                n3 += 1
                lapack(R, P, E, F, I, cn)
            elif cn == 'fprintf' and len(I.a) > 1 and F.name not in PREDICATES and not DIAGNOSTIC.match(F.name):
                s = str_arg(P, F, I.a[1])
                if s is None or not s.startswith('ERROR'):
                    continue
                n2 += 1
                rets, _ = E.after(F, I, 'int', 0)
                bad = sorted({str(v) for b, vs in rets for v in vs if not err_value(F, v) and not (isinstance(v, int) and v > 0 and F.internal)})
                if rets and (bad or F.ret.strip() == 'void'):
                    R.add('reported:%s:%s' % (F.name, re.sub(r'[^A-Za-z]+', '_', s)[:60]),
                          '%s() writes "%s" and then returns as if successful' % (F.name, s.strip()[:70]),
                          where(F, I), rule='R2', function=F.name)
    if n3 < 15 or n2 < 200:
        raise AnalysisError('rule instances vanished: %d LAPACK calls, %d diagnostics' % (n3, n2))
    R.instances = n1 + n2 + n3
    R.coverage.update(functions_in_scope=len(scope), failing_functions=len(failing), call_sites_R1=n1,
                      diagnostics_R2=n2, lapack_calls_R3=n3, sites_with_answer_semantics=skipped,
                      frozen_exceptions={k: ANSWERS[k] for k in sorted(used)})
    R.explanation = ('Return-class analysis (failing / success) over the LLVM IR of every translation unit of src and misc '
                     'reachable from the public interfaces; each call site of a failing function is followed forward under the assumption that '
                     'the call failed, and every reachable return must be a failure.')
    R.assumptions = ['negative int results mean failure except for the frozen list', 'calls through function pointers are '
                     'not followed', 'exit() ends the process and is an acceptable answer to a numerical failure']


def error_codes(P, E, G, memo):
    """the constants with which G reports a failure"""
    k = id(G)
    if k in memo:
        return memo[k]
    memo[k] = []
    out = set()
    if E.can_fail(G):
        out = {v for v, _, _ in errs.consts(P, G, frozenset()) if isinstance(v, int) and v < 0}
        if not out:
            out = {errs.ERR}
    elif G.internal and errs.ret_kind(G) == 'int' and G.name not in PREDICATES:
        # a static function that reports 'ERROR: ...' and returns a positive code
        for I in G.insts():
            if I.op == 'call' and callee_name(I) == 'fprintf' and len(I.a) > 1:
                s = str_arg(P, G, I.a[1])
                if s is not None and s.startswith('ERROR'):
                    rets, _ = E.after(G, I, 'int', 0)
                    out |= {v for b, vs in rets for v in vs if isinstance(v, int) and v > 0}
    memo[k] = sorted(out, key=str)
    return memo[k]


def lapack(R, P, E, F, I, cn):
    """R3: the info argument is examined on every path after the call"""
    info = I.a[-1]
    d = F.defs.get(info) if isinstance(info, str) else None
    key = 'lapack:%s:%s' % (F.name, cn)
    if d is None or d.op != 'alloca':
        R.add(key, 'status of %s() is not kept in a local of %s()' % (cn, F.name), where(F, I), rule='R3')
        return
    # walk forward to loads of info
    seen = set()
    wl = [(I.bb, I.idx + 1)]
    loads = []
    while wl:
        b, k = wl.pop()
        stop = False
        for J in F.blocks[b].insts[k:]:
            if J.op == 'load' and J.a[0] == info:
                loads.append(J)
                stop = True
                break
            if J.op == 'call' and callee_name(J) in ('exit', 'abort', 'longjmp'):
                stop = True
                break
            if J.op == 'call' and callee_name(J) == cn and len(J.a) == len(I.a) and J is not I and cn.endswith('getri_'):
                stop = True     # the first call was a workspace query
                break
            if J.op == 'call' and info in J.a or J.op == 'store' and J.a[1] == info or J.op == 'ret':
                R.add(key, '%s(): the status of %s() is not examined on a path before %s' %
                      (F.name, cn, 'the return' if J.op == 'ret' else 'it is overwritten'), where(F, I), rule='R3')
                return
        if stop:
            continue
        for s in F.blocks[b].succs:
            if s not in seen:
                seen.add(s)
                wl.append((s, 0))
    for J in loads:
        bad = None
        tested = False
        # 0: success; negative: illegal argument; positive: singular or not converged
        for assume, text in ((errs.ERR, 'a failure'), (-3, 'an illegal argument (negative status)'), (1, 'a numerical failure (positive status)'),
                             (17, 'a numerical failure (positive status)')):
            rets, t = E.after(F, J, 'int', assume)
            tested = tested or t
            if [1 for b, vs in rets for v in vs if not err_value(F, v) and v != assume] or (rets and F.ret.strip() == 'void'):
                bad = bad or text
        if not tested:
            R.add(key, '%s(): the status of %s() is read but never compared' % (F.name, cn), where(F, J), rule='R3')
        elif bad:
            R.add(key, '%s() continues as if successful after %s() reported %s' % (F.name, cn, bad),
                  where(F, J), rule='R3')
