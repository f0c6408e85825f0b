"""C15: unsupported combinations are refused at creation, supported ones are accepted.

Abstract interpretation (intervals with known bits) of xrtm_create(): for every combination
that the library does not support the option bits, solver bits and sizes of the combination
are assumed, everything else is unknown, and no path may get as far as an allocation or
return anything but XRTM_INT_ERROR.  For supported configurations no path may return before
the first allocation.
"""
import itertools, multiprocessing
from absint import Interp, C, AI, bits
from common import prog, where
from checks.c11 import enum
from irlib import AnalysisError

LEVEL = 'other'
INT_ERROR = -2147483647
IMAX = 2147483647
ARGS = ('options solvers max_coef n_quad n_stokes n_derivs n_layers n_theta_0s n_kernels n_kernel_quad kernels '
        'n_out_levels n_out_thetas').split()
SOLVERS = 'DOUB_ADD EIG_ADD EIG_BVP FOUR_STREAM MEM_BVP PADE_ADD SINGLE SIX_STREAM SOS TWO_OS TWO_STREAM'.split()
ALL = SOLVERS
STREAMS = ['TWO_STREAM', 'FOUR_STREAM', 'SIX_STREAM']

# ---- what the library does not support -------------------------------------
# options that exclude each other / need each other: (text, on, off)
OPTION_RULES = [
    ('n_t_tms with no_azimuthal', 'N_T_TMS NO_AZIMUTHAL', ''),
    ('four_conv_old with four_conv_new', 'FOUR_CONV_OLD FOUR_CONV_NEW', ''),
    ('no output level type', '', 'OUTPUT_AT_LEVELS OUTPUT_AT_TAUS'),
    ('output_at_levels with output_at_taus', 'OUTPUT_AT_LEVELS OUTPUT_AT_TAUS', ''),
    ('part_sol_classical with part_sol_greens', 'PART_SOL_CLASSICAL PART_SOL_GREENS', ''),
    ('phase_scalar with phase_matrix_gc', 'PHASE_SCALAR PHASE_MATRIX_GC', ''),
    ('phase_scalar with phase_matrix_lc', 'PHASE_SCALAR PHASE_MATRIX_LC', ''),
    ('phase_matrix_gc with phase_matrix_lc', 'PHASE_MATRIX_GC PHASE_MATRIX_LC', ''),
    ('quad_norm_gaus_leg with quad_doub_gaus_leg', 'QUAD_NORM_GAUS_LEG QUAD_DOUB_GAUS_LEG', ''),
    ('quad_norm_gaus_leg with quad_lobatto', 'QUAD_NORM_GAUS_LEG QUAD_LOBATTO', ''),
    ('quad_doub_gaus_leg with quad_lobatto', 'QUAD_DOUB_GAUS_LEG QUAD_LOBATTO', ''),
    ('save_layer_r_t_s with stack_reuse_adding', 'SAVE_LAYER_R_T_S STACK_REUSE_ADDING', ''),
    ('stack_reuse_adding without calc_derivs', 'STACK_REUSE_ADDING', 'CALC_DERIVS'),
    ('stack_reuse_adding with top_down_adding', 'STACK_REUSE_ADDING TOP_DOWN_ADDING', ''),
    ('top_down_adding with bottom_up_adding', 'TOP_DOWN_ADDING BOTTOM_UP_ADDING', ''),
    ('vector with phase_scalar', 'VECTOR PHASE_SCALAR', 'PHASE_MATRIX_GC PHASE_MATRIX_LC'),
]
# sizes: (text, on, off, {argument: (lo, hi)})
SIZE_RULES = [
    ('max_coef < 0', '', '', dict(max_coef=(-IMAX - 1, -1))),
    ('n_quad <= 0', '', '', dict(n_quad=(-IMAX - 1, 0))),
    ('n_stokes <= 0', '', '', dict(n_stokes=(-IMAX - 1, 0))),
    ('n_stokes > 4', '', '', dict(n_stokes=(5, IMAX))),
    ('n_derivs < 0', '', '', dict(n_derivs=(-IMAX - 1, -1))),
    ('n_layers <= 0', '', '', dict(n_layers=(-IMAX - 1, 0))),
    ('n_theta_0s <= 0', '', '', dict(n_theta_0s=(-IMAX - 1, 0))),
    ('n_kernels < 0', '', '', dict(n_kernels=(-IMAX - 1, -1))),
    ('n_kernel_quad <= 0 with kernels', '', '', dict(n_kernels=(1, IMAX), n_kernel_quad=(-IMAX - 1, 0))),
    ('n_out_levels <= 0', '', '', dict(n_out_levels=(-IMAX - 1, 0))),
    ('n_out_thetas < 0', '', '', dict(n_out_thetas=(-IMAX - 1, -1))),
    ('calc_derivs with n_derivs == 0', 'CALC_DERIVS', '', dict(n_derivs=(0, 0))),
    ('n_derivs > 0 without calc_derivs', '', 'CALC_DERIVS', dict(n_derivs=(1, IMAX))),
    ('sfi with n_out_thetas == 0', 'SFI', '', dict(n_out_thetas=(0, 0))),
    ('top_down_adding with n_out_levels > 1', 'TOP_DOWN_ADDING', '', dict(n_out_levels=(2, IMAX))),
    ('bottom_up_adding with n_out_levels > 1', 'BOTTOM_UP_ADDING', '', dict(n_out_levels=(2, IMAX))),
    ('phase_matrix_gc for n_stokes == 1 without vector', 'PHASE_MATRIX_GC', 'VECTOR', dict(n_stokes=(1, 1))),
    ('phase_matrix_lc for n_stokes == 1 without vector', 'PHASE_MATRIX_LC', 'VECTOR', dict(n_stokes=(1, 1))),
    ('phase_scalar for n_stokes > 1', 'PHASE_SCALAR', 'PHASE_MATRIX_GC PHASE_MATRIX_LC', dict(n_stokes=(2, 4))),
]
for q in (1, 2, 3, 4, 8, 16, 100):
    for o in ('DELTA_M', 'N_T_TMS'):
        SIZE_RULES.append(('%s with max_coef < 2 n_quad + 1 for n_quad = %d' % (o.lower(), q), o, '', dict(n_quad=(q, q), max_coef=(0, 2 * q))))
# solvers: (text, on, off, sizes, solvers that cannot do it)
SOLVER_RULES = [
    ('n_quad < 1 or > 1', '', '', dict(n_quad=(2, IMAX)), ['TWO_STREAM']),
    ('n_quad < 2', '', '', dict(n_quad=(1, 1)), ['FOUR_STREAM']),
    ('n_quad > 2', '', '', dict(n_quad=(3, IMAX)), ['FOUR_STREAM']),
    ('n_quad < 3', '', '', dict(n_quad=(1, 2)), ['SIX_STREAM']),
    ('n_quad > 3', '', '', dict(n_quad=(4, IMAX)), ['SIX_STREAM']),
    ('n_theta_0s > 1', '', '', dict(n_theta_0s=(2, IMAX)), [s for s in ALL if s != 'DOUB_ADD']),
    ('n_out_levels > 2', '', '', dict(n_out_levels=(3, IMAX)), ['DOUB_ADD', 'EIG_ADD', 'PADE_ADD', 'SOS', 'TWO_OS']),
    ('n_out_thetas > 0 without sfi', '', 'SFI', dict(n_out_thetas=(1, IMAX)), STREAMS),
    ('delta_m without n_t_tms', 'DELTA_M', 'N_T_TMS', {}, ['SINGLE']),
    ('n_t_tms', 'N_T_TMS', '', {}, ['TWO_OS']),
    ('no_azimuthal', 'NO_AZIMUTHAL', '', {}, ['SINGLE']),
    ('output_at_taus', 'OUTPUT_AT_TAUS', '', {}, ['DOUB_ADD', 'EIG_ADD', 'PADE_ADD', 'SOS']),
    ('quad_lobatto', 'QUAD_LOBATTO', '', {}, ALL),
    ('sfi', 'SFI', '', {}, ['DOUB_ADD', 'EIG_ADD', 'MEM_BVP', 'PADE_ADD', 'SOS']),
    ('no source_solar', '', 'SOURCE_SOLAR', {}, ['FOUR_STREAM', 'MEM_BVP', 'SINGLE', 'SIX_STREAM', 'SOS', 'TWO_OS']),
    ('source_thermal', 'SOURCE_THERMAL', '', {}, ['FOUR_STREAM', 'MEM_BVP', 'SINGLE', 'SIX_STREAM', 'SOS', 'TWO_OS', 'TWO_STREAM']),
    ('stack_reuse_adding', 'STACK_REUSE_ADDING', '', {}, ['EIG_BVP', 'MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS']),
    ('top_down_adding', 'TOP_DOWN_ADDING', '', {}, ['EIG_BVP', 'MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS']),
    ('bottom_up_adding', 'BOTTOM_UP_ADDING', '', {}, ['EIG_BVP', 'MEM_BVP', 'SINGLE', 'SOS', 'TWO_OS']),
    ('vector', 'VECTOR', '', {}, STREAMS),
    ('n_stokes > 1', '', '', dict(n_stokes=(2, 4)), STREAMS),
    ('calc_derivs', 'CALC_DERIVS', '', {}, ['FOUR_STREAM', 'SIX_STREAM']),
    ('reverse_derivs', 'REVERSE_DERIVS', '', {}, ['FOUR_STREAM', 'SIX_STREAM', 'SOS', 'TWO_OS', 'TWO_STREAM']),
    ('quad_norm_gaus_leg', 'QUAD_NORM_GAUS_LEG', '', {}, ['FOUR_STREAM', 'SIX_STREAM']),
]
# ---- configurations for acceptance -----------------------------------------
BASE_ON = {'OUTPUT_AT_LEVELS', 'SOURCE_SOLAR'}
FREE = {'PSA', 'SAVE_LEG_POLYS', 'SAVE_PHASE_MATS', 'SAVE_LOCAL_R_T', 'SAVE_TOTAL_R_T_S'}
BASE_SIZE = dict(max_coef=(33, 1000), n_quad=(5, 16), n_stokes=(1, 1), n_derivs=(0, 0), n_layers=(1, 1000),
                 n_theta_0s=(1, 1), n_kernels=(0, 0), n_kernel_quad=(-5, 100), n_out_levels=(1, 1), n_out_thetas=(0, 0))
# feature: (on, off, sizes)
FEATURES = {
    'delta_m': ('DELTA_M', '', {}),
    'n_t_tms': ('N_T_TMS', '', {}),
    'n_t_tms with delta_m': ('N_T_TMS DELTA_M', '', {}),
    'four_conv_old': ('FOUR_CONV_OLD', '', {}),
    'four_conv_new': ('FOUR_CONV_NEW', '', {}),
    'no_azimuthal': ('NO_AZIMUTHAL', '', {}),
    'output_at_taus': ('OUTPUT_AT_TAUS', 'OUTPUT_AT_LEVELS', {}),
    'part_sol_classical': ('PART_SOL_CLASSICAL', '', {}),
    'part_sol_greens': ('PART_SOL_GREENS', '', {}),
    'phase_scalar': ('PHASE_SCALAR', '', {}),
    'vector': ('VECTOR', '', {}),
    'vector with phase_matrix_gc': ('VECTOR PHASE_MATRIX_GC', '', {}),
    'vector with phase_matrix_lc': ('VECTOR PHASE_MATRIX_LC', '', {}),
    'n_stokes > 1': ('', '', dict(n_stokes=(2, 4))),
    'n_stokes > 1 with phase_matrix_lc': ('PHASE_MATRIX_LC', '', dict(n_stokes=(2, 4))),
    'quad_norm_gaus_leg': ('QUAD_NORM_GAUS_LEG', '', {}),
    'quad_doub_gaus_leg': ('QUAD_DOUB_GAUS_LEG', '', {}),
    'save_layer_r_t_s': ('SAVE_LAYER_R_T_S', '', {}),
    'sfi': ('SFI', '', dict(n_out_thetas=(1, 100))),
    'no source': ('', 'SOURCE_SOLAR', {}),
    'thermal and solar source': ('SOURCE_THERMAL', '', {}),
    'thermal source': ('SOURCE_THERMAL', 'SOURCE_SOLAR', {}),
    'calc_derivs': ('CALC_DERIVS', '', dict(n_derivs=(1, 1000))),
    'calc_derivs with stack_reuse_adding': ('CALC_DERIVS STACK_REUSE_ADDING', '', dict(n_derivs=(1, 1000))),
    'calc_derivs with reverse_derivs': ('CALC_DERIVS REVERSE_DERIVS', '', dict(n_derivs=(1, 1000))),
    'top_down_adding': ('TOP_DOWN_ADDING', '', {}),
    'bottom_up_adding': ('BOTTOM_UP_ADDING', '', {}),
    'upwelling_output': ('UPWELLING_OUTPUT', '', {}),
    'downwelling_output': ('DOWNWELLING_OUTPUT', '', {}),
    'upwelling_output and downwelling_output': ('UPWELLING_OUTPUT DOWNWELLING_OUTPUT', '', {}),
    'max_coef == 0': ('', '', dict(max_coef=(0, 0))),
    'n_quad == 1': ('', '', dict(n_quad=(1, 1))),
    'n_theta_0s > 1': ('', '', dict(n_theta_0s=(2, 100))),
    'two output levels': ('', '', dict(n_out_levels=(2, 2))),
    'several output levels': ('', '', dict(n_out_levels=(3, 100))),
    'output angles': ('', '', dict(n_out_thetas=(1, 100))),
    'kernels': ('', '', dict(n_kernels=(2, 2), n_kernel_quad=(1, 100))),
}
QUAD = {'TWO_STREAM': 1, 'FOUR_STREAM': 2, 'SIX_STREAM': 3}


MODEL = []


def job(a):
    M = MODEL[0]
    M.hits, M.funcs, M.steps = [], {}, 0
    getattr(M, a[0])(*a[1:])
    return M.hits, sorted(M.funcs), M.steps


class Model(object):
    def __init__(self, R):
        self.P = prog('src', 'misc')
        self.F = self.P.need('xrtm_create')
        self.hits = []
        self.opt = {n[len('XRTM_OPTION_'):]: v & 0xffffffff for n, v in enum(self.P, 'xrtm_option_mask') if n.startswith('XRTM_OPTION_')}
        self.sol = {n[len('XRTM_SOLVER_'):]: v & 0xffffffff for n, v in enum(self.P, 'xrtm_solver_mask') if n.startswith('XRTM_SOLVER_')}
        self.nk = max(v for n, v in enum(self.P, 'xrtm_kernel_type') if n.startswith('XRTM_KERNEL_')) + 1
        missing = [s for s in SOLVERS if s not in self.sol]
        if missing:
            raise AnalysisError('anchor vanished: solvers %s' % missing)
        if len(self.F.params) != len(ARGS) + 1:
            raise AnalysisError('xrtm_create() takes %d parameters' % len(self.F.params))
        self.funcs = {}
        self.steps = 0

    def mask(self, names):
        m = 0
        for n in names:
            if n not in self.opt:
                raise AnalysisError('anchor vanished: option %s' % n)
            m |= self.opt[n]
        return m

    def run(self, options, solvers, size, kernels=None):
        it = Interp(self.P)
        args = [('p', ('P', 0), ())]
        mem = {}
        for a in ARGS:
            if a == 'options':
                args.append(options)
            elif a == 'solvers':
                args.append(solvers)
            elif a == 'kernels':
                args.append(('p', ('P', 1), ()))
                for k, v in enumerate(kernels or ()):
                    mem[(('P', 1), (('e', k),) if k else ())] = v
            else:
                lo, hi = size.get(a, (-IMAX - 1, IMAX))
                args.append(AI(lo, hi))
        out = it.call(self.F, args, mem)
        self.steps += it.steps
        for k, n in it.funcs.items():
            self.funcs[k] = self.funcs.get(k, 0) + n
        return it, out

    def refused(self, key, text, options, solvers, size, kernels=None):
        it, out = self.run(options, solvers, size, kernels)
        bad = []
        for f, l in sorted(it.beyond):
            bad.append('creation goes on to %s(), line %d' % (f, l))
        for mem, r in out:
            if not (isinstance(r, AI) and r.const() == INT_ERROR):
                bad.append('a path returns %r' % (r,))
        if bad:
            self.hits.append(('refuse:' + key, 'unsupported combination is not refused by xrtm_create(): %s; %s' % (text, bad[0]),
                       where(self.F), dict(paths=len(bad), rule='refusal')))
        elif not out:
            raise AnalysisError('no path through xrtm_create() for ' + text)

    def accepted(self, key, text, options, solvers, size, kernels=None):
        it, out = self.run(options, solvers, size, kernels)
        if not it.beyond:
            self.hits.append(('accept:' + key, 'supported combination is refused by xrtm_create(): %s' % text, where(self.F), dict(rule='acceptance')))
            return
        for mem, r in out:
            if isinstance(r, AI) and r.const() == INT_ERROR:
                self.hits.append(('accept:' + key, 'supported combination can be refused by xrtm_create(): %s' % text, where(self.F), dict(rule='acceptance')))
                return


def hit(rule, on, size, solver):
    """does the refusal rule apply to the configuration (options on, all others off but FREE)"""
    ron, roff, rs = rule
    if not set(ron.split()) <= on or set(roff.split()) & on:
        return False
    for a, (lo, hi) in rs.items():
        l, h = size[a]
        if h < lo or l > hi:
            return False
    return True


def implicit(on, size):
    on = set(on)
    if size['n_stokes'][0] > 1:
        on.add('VECTOR')
    if 'N_T_TMS' in on:
        on.add('DELTA_M')
    return on


def unsupported(on, size, solver):
    on = implicit(on, size)
    for t, a, b in OPTION_RULES:
        if hit((a, b, {}), on, size, solver):
            return t
    for t, a, b, s in SIZE_RULES:
        if hit((a, b, s), on, size, solver):
            return t
    for t, a, b, s, sv in SOLVER_RULES:
        if solver in sv and hit((a, b, s), on, size, solver):
            return t
    return None


def run(R, tier):
    M = Model(R)
    unk = bits()
    jobs = []
    cov = dict(option_rules=0, size_rules=0, solver_rules=0, accepted_configurations=0, excluded_configurations=0, kernel_rules=0)
    for t, a, b in OPTION_RULES:
        jobs.append(('refused', 'option:' + t, t, bits(M.mask(a.split()), M.mask(b.split())), unk, {}))
        cov['option_rules'] += 1
    for t, a, b, s in SIZE_RULES:
        jobs.append(('refused', 'size:' + t, t, bits(M.mask(a.split()), M.mask(b.split())), unk, s))
        cov['size_rules'] += 1
    bad = [AI(-IMAX - 1, -1), AI(M.nk, IMAX)]
    for n in (1, 2, 3):
        for k in range(n):
            for v in bad:
                ks = [AI(0, M.nk - 1)] * n
                ks[k] = v
                jobs.append(('refused', 'kernel:%d of %d:%s' % (k, n, 'low' if v.lo < 0 else 'high'), 'kernel %d of %d is no kernel type' % (k, n),
                          unk, unk, dict(n_kernels=(n, n)), ks))
                cov['kernel_rules'] += 1
    for t, a, b, s, sv in SOLVER_RULES:
        for v in sv:
            jobs.append(('refused', 'solver:%s:%s' % (v, t), 'solver %s with %s' % (v, t), bits(M.mask(a.split()), M.mask(b.split())), bits(M.sol[v]), s))
            cov['solver_rules'] += 1
    # acceptance
    sets = [()] + [(f,) for f in FEATURES] + list(itertools.combinations(FEATURES, 2))
    if tier == 'thorough':
        sets += list(itertools.combinations(FEATURES, 3))
    allm = 0xffffffff
    done = set()
    for fs in sets:
        on, size = set(BASE_ON), dict(BASE_SIZE)
        off = set()
        dup = False
        for f in fs:
            a, b, s = FEATURES[f]
            dup |= bool(set(s) & {k for g in fs if g != f for k in FEATURES[g][2]})
            off |= set(b.split())
            on |= set(a.split())
            size.update(s)
        if dup or on & off & {x for f in fs for x in FEATURES[f][0].split()}:
            continue
        on -= off
        for v in SOLVERS:
            sz = dict(size)
            if v in QUAD and 'n_quad' not in {k for f in fs for k in FEATURES[f][2]}:
                sz['n_quad'] = (QUAD[v],) * 2
            k = (v, tuple(sorted(on)), tuple(sorted(sz.items())))
            if k in done:
                continue
            done.add(k)
            if unsupported(on, sz, v):
                cov['excluded_configurations'] += 1
                continue
            om = M.mask(on)
            ks = [AI(0, M.nk - 1)] * sz['n_kernels'][1]
            jobs.append(('accepted', '%s:%s' % (v, '+'.join(fs)), 'solver %s with %s' % (v, ', '.join(fs) or 'the defaults'),
                       bits(om, allm & ~om & ~M.mask(FREE)), bits(M.sol[v], allm & ~M.sol[v]), sz, ks))
            cov['accepted_configurations'] += 1
    MODEL[:] = [M]
    funcs, steps = set(), 0
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for hits, fs, n in pool.imap(job, jobs, chunksize=16):
            for k, m, w, d in hits:
                R.add(k, m, w, **d)
            funcs.update(fs)
            steps += n
    cov.update(functions=sorted(funcs), block_visits=steps)
    R.instances = cov['option_rules'] + cov['size_rules'] + cov['kernel_rules'] + cov['solver_rules'] + cov['accepted_configurations']
    R.coverage = cov
    R.explanation = ('abstract interpretation of xrtm_create() with intervals and known bits: each unsupported combination is '
                     'assumed with everything else unknown and must be refused on every path; supported ones must reach the allocations')
    R.assumptions = ['clang IR after mem2reg represents the source', 'the table of unsupported combinations in checks/c15.py is the specification',
                     'development solvers (INCLUDE_DEV_SOURCE) are not part of this build']
