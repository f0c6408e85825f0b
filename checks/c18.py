"""C18: the Fortran bindings forward every call faithfully.

Fortran side: the GIMPLE of every procedure (lib/gimple.py); C side: conditional forward dataflow over
the helper functions (lib/fwd.py).  Both are composed: what reaches each argument of the C function is
expressed over the dummy arguments and compared with the interface description; dimensions of
mapped arrays are compared with the documented expressions.  Compile-fail witnesses for identifiers
and for the size of the opaque types.
"""
import os, re, subprocess, tempfile, shutil
import irlib
from irlib import AnalysisError
from common import prog, where, rel, public_api, fd_api
from fwd import Fwd, classes
import defs, gimple
from checks.c11 import enum

LEVEL = 'other'
PRE = {'xrtm': 'xrtm_int', 'xrtm_fd': 'xrtm_fd_int'}
DATA = {'xrtm': 'xrtm_data', 'xrtm_fd': 'xrtm_fd_data'}
TYPE = {'xrtm': 'xrtm_type', 'xrtm_fd': 'xrtm_fd_type'}
ENUMS = [('XRTM_', 'xrtm_option_mask', 'xrtm'), ('XRTM_', 'xrtm_solver_mask', 'xrtm'), ('XRTM_', 'xrtm_output_mask', 'xrtm'),
         ('XRTM_', 'xrtm_kernel_type', 'xrtm'), ('XRTM_FD_', 'xrtm_fd_method_type', 'xrtm_fd')]


# ------------------------------------------------------------------ terms
def subst(t, m):
    """replace ('p', k) of the C side by the terms m[k] of the Fortran side"""
    if isinstance(t, tuple):
        if t[0] == 'p' and len(t) == 2 and isinstance(t[1], int):
            return m.get(t[1])
        if t[0] == 'ld':
            a = subst(t[1], m)
            if a is None:
                return None
            if a[0] == 'addr*':
                return a[1]
            return ('ld', a)
        if t[0] == 'phi':
            return ('phi', frozenset(subst(x, m) for x in t[1]))
        if t[0] == 'cast' and t[1] in ('sext', 'zext', 'trunc', 'bitcast'):
            return subst(t[2], m)
        out = []
        for x in t:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                y = subst(x, m)
                if y is None:
                    return None
                out.append(y)
            elif isinstance(x, tuple):
                out.append(tuple(subst(y, m) if isinstance(y, tuple) else y for y in x))
            else:
                out.append(x)
        return tuple(out)
    return t


def canon(t, W):
    """name calls by function and arguments instead of site"""
    if isinstance(t, tuple):
        if t and t[0] == 'call' and t[1] in W.events:
            e = W.events[t[1]]
            return ('fn', e.name, tuple(canon(a, W) for a in e.args))
        if t and t[0] == 'phi':
            return ('phi', frozenset(canon(x, W) for x in t[1]))
        return tuple(canon(x, W) if isinstance(x, tuple) else x for x in t)
    return t


def dims_program(which):
    """documented dimensions as C functions over (d, scalar arguments): {(function, arg, k): name}"""
    names, text = {}, ['#include <gutil.h>', '#include <xrtm_interface.h>', '#include <xrtm_fd_interface.h>']
    for S in defs.load(which):
        for a in S.args:
            if a.rank < 2:
                continue
            for k, e in enumerate(a.dims):
                n = 'dim_%s_%s_%d' % (S.name, a.name, k)
                ps = ['%s *d' % DATA[which]]
                for b in S.args:
                    ps.append('%s %s%s' % (b.type if not b.type.startswith('enum ') else 'int', '*' * b.rank, b.name))
                text.append('size_t %s(%s) { return %s; }' % (n, ', '.join(ps), e))
                names[(S.full, a.name, k)] = n
    text.append('size_t size_of_data(void) { return sizeof(%s); }' % DATA[which])
    d = tempfile.mkdtemp(prefix='c18_', dir='/tmp')
    try:
        f = os.path.join(d, 'dims_%s.c' % which)
        open(f, 'w').write('\n'.join(text) + '\n')
        P = irlib.Program([f])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return P, names


# ------------------------------------------------------------------ the C side
class Helper(object):
    pass


def helper(P, F, S, status):
    """what the helper F passes to S.full and returns, per class of results"""
    H = Helper()
    H.F, H.err, H.problems = F, {}, []
    H.args = H.W = None
    for kind in ('err', 'ok'):
        val, cmp = classes(kind)
        W = Fwd(P, lambda n: n in status, val(lambda n: status.get(n, False)), cmp)
        ret, returns, must = W.run(F)
        mine = [e for e in W.events.values() if e.name == S.full]
        other = sorted(set(e.name for e in W.events.values() if e.name in status and e.name != S.full))
        for o in other:
            H.problems.append(('call:%s' % o, 'calls %s()' % o))
        if len(mine) != 1:
            H.problems.append(('once', 'calls %s() %s' % (S.full, 'at several places' if mine else 'never')))
            return H
        if not returns or not all(mine[0].site in m for _, m in W.rets):
            H.problems.append(('always', 'does not always call %s()' % S.full))
        rets = [r for r, _ in W.rets] if returns else []
        if S.errval == '0':
            bad = [r for r in rets if not (isinstance(r, tuple) and (
                (r[0] == 'c' and (r[1] != 0) == (kind == 'err')) or (r[0] == 'res' and r[1] == S.full)))]
            if bad:
                H.problems.append(('status:' + kind, 'does not return %s when %s() %s' % ('an error' if kind == 'err' else '0', S.full, 'fails' if kind == 'err' else 'succeeds')))
        else:
            bad = [r for r in rets if not (isinstance(r, tuple) and r[0] == 'res' and r[1] == S.full or
                                           (kind == 'err' and isinstance(r, tuple) and r[0] == 'c' and r[1] == val(lambda n: False)(S.full, F.ret)[2]))]
            if bad:
                H.problems.append(('value:' + kind, 'does not return what %s() returned' % S.full))
        args = [canon(a, W) for a in mine[0].args]
        if H.args is not None and args != H.args:
            H.problems.append(('args', 'passes different arguments'))
        H.args, H.W, H.ev = args, W, mine[0]
    return H


# ------------------------------------------------------------------ the Fortran side
def ftype(a, dialect, which):
    t = 'real(kind=8)' if a.type == 'double' else 'integer(kind=4)'
    if a.type == 'xrtm_data':
        return 'integer(kind=1)[0:] *' if dialect == 'f77' else 'struct xrtm_type &'
    if a.rank == 0:
        return t + ' &'
    return t + '[0:] *' if dialect == 'f77' else 'struct array0%d_%s &' % (a.rank, t)


def interfaces(file):
    """Fortran name -> bound name of the interface blocks"""
    t = open(os.path.join(irlib.REPO, file)).read()
    t = re.sub(r'&\s*\n\s*&?', ' ', t)
    out = {}
    for m in re.finditer(r'\b(?:function|subroutine)\s+(\w+)\s*\([^)]*\)\s*(?:result\s*\(\s*\w+\s*\)\s*)?bind\s*\(\s*c\s*(?:,\s*name\s*=\s*["\'](\w+)["\']\s*)?\)', t, re.I):
        out[m.group(1).lower()] = m.group(2) or m.group(1).lower()
    return out


def witness(R, PC, which, sizes, cov):
    for dialect in ('f77', 'f90'):
        d = tempfile.mkdtemp(prefix='c18_', dir='/tmp')
        try:
            keys, lines = [], []

            def add(expr, key, msg):
                keys.append((key, msg))
                lines.append('      integer, parameter :: w%d = 1 / merge(1, 0, %s)' % (len(keys), expr))
            for pre, e, w in ENUMS:
                if w != which:
                    continue
                for n, v in enum(PC, e):
                    if n.startswith(pre):
                        add('iand(int(%s, 8), 4294967295_8) == %d_8' % (n, v & 0xffffffff), 'const:%s:%s' % (dialect, n), 'constant %s does not exist in the Fortran %s binding or has not the value %d' % (n, dialect[1:], v))
                        cov['constants'] += 1
            if dialect == 'f77':
                size = 'N_BYTES_%s' % TYPE[which].upper()
            else:
                size = 'storage_size(x) / 8'
            add('%s >= %d' % (size, sizes[which]), 'size:%s:%s' % (dialect, TYPE[which]), 'the type of the Fortran %s binding is smaller than %s (%d bytes)' % (dialect[1:], DATA[which], sizes[which]))
            cov['constants'] += 1
            inc = ["      include '%s_f77.inc'" % PRE[which]] if dialect == 'f77' else []
            use = [] if dialect == 'f77' else ['      use %s_f90' % PRE[which]]
            head = ['      program w'] + use + ['      implicit none'] + inc + ([] if dialect == 'f77' else ['      type(%s) :: x' % TYPE[which]])
            src = os.path.join(d, 'w.' + ('f' if dialect == 'f77' else 'f90'))
            with open(src, 'w') as f:
                f.write('\n'.join(head + lines + ['      end program w', '']))
            I = os.path.join(irlib.REPO, 'interfaces')
            base = ['gfortran', '-fsyntax-only', '-fmax-errors=0', '-I', I, '-J', d] + gimple.FFLAGS
            if dialect == 'f90':
                fs = ['xrtm_int_f90.f90'] + (['xrtm_fd_int_f90.f90'] if which == 'xrtm_fd' else [])
                for f in fs:
                    p = subprocess.run(base + [os.path.join(I, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode:
                        raise AnalysisError('%s does not compile: %s' % (f, p.stdout.decode(errors='replace')[:400]))
            p = subprocess.run(base + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors='replace')
            bad = set(int(x) - len(head) - 1 for x in re.findall(r'^%s:(\d+):' % re.escape(src), o, re.M))
            if p.returncode and (not bad or min(bad) < 0):
                raise AnalysisError('witness: ' + o[:600])
            for i in sorted(bad):
                if 0 <= i < len(keys):
                    R.add(keys[i][0], keys[i][1], 'interfaces/%s_%s' % (PRE[which], 'f77.inc' if dialect == 'f77' else 'f90.f90'))
        finally:
            shutil.rmtree(d, ignore_errors=True)


def run(R, tier):
    PC = prog('src', 'misc')
    api = set(f.name for f in public_api(PC) + fd_api(PC))
    files = ['interfaces/%s_%s_util.c' % (p, x) for p in PRE.values() for x in ('f77', 'f90')]
    for f in files:
        src = os.path.join(irlib.REPO, f)
        p = subprocess.run(['clang', '-fsyntax-only', '-w', '-Werror=incompatible-pointer-types', '-Werror=int-conversion',
                            '-Werror=implicit-function-declaration'] + irlib.DEFS + irlib.includes() + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for m in re.finditer(r':(\d+):\d+: error: (.*)', p.stdout.decode(errors='replace')):
            R.add('ctype:%s:%s' % (f, m.group(2)), 'pointer of another type: ' + m.group(2), '%s:%s' % (f, m.group(1)))
    P = irlib.Program([os.path.join(irlib.REPO, f) for f in files])
    cov = dict(procedures=0, arguments=0, dimensions=0, result_classes=0, constants=0)
    R.explanation = 'composition of dataflow over the Fortran procedures (GIMPLE) and over the C helper functions (LLVM IR); compile-fail witnesses for constants and sizes'
    R.assumptions = ['C functions return the documented codes (C14)', 'external names follow the gfortran convention', 'the interface descriptions are the documentation of the bindings']
    status, sizes = {}, {}
    for which in PRE:
        for S in defs.load(which):
            status[S.full] = S.errval == '0'
    order = ['interfaces/xrtm_int_f77.f', 'interfaces/xrtm_int_f90.f90', 'interfaces/xrtm_fd_int_f77.f', 'interfaces/xrtm_fd_int_f90.f90']
    dumps = gimple.compile_all(order)
    procs = {}
    for f, t in dumps.items():
        for p in gimple.procs(t, f):
            procs[(f, p.name)] = p
    for which in PRE:
        PD, names = dims_program(which)
        W = Fwd(PD, lambda n: False, lambda n, t: None, lambda *a: None)
        sizes[which] = W.run(PD.need('size_of_data'))[0][1]
        want = {}
        for k, n in names.items():
            W = Fwd(PD, lambda n: False, lambda n, t: None, lambda *a: None)
            want[k] = canon(W.run(PD.need(n))[0], W)
            if want[k] is None:
                raise AnalysisError('dimension of %s of %s() is not understood' % (k[1], k[0]))
        witness(R, PC, which, sizes, cov)
        for dialect in ('f77', 'f90'):
            f = 'interfaces/%s_%s.%s' % (PRE[which], dialect, 'f' if dialect == 'f77' else 'f90')
            bound = interfaces(f) if dialect == 'f90' else {}
            for S in defs.load(which):
                if S.full not in api:
                    raise AnalysisError('documented function %s() does not exist' % S.full)
                one(R, P, S, procs.get((f, (S.full + '_' + dialect).lower())), f, dialect, which, bound, want, status, cov)
    R.coverage = cov
    R.instances = cov['procedures'] + cov['constants']


def one(R, P, S, G, f, dialect, which, bound, want, status, cov):
    nm = '%s_%s' % (S.full, dialect)
    if G is None:
        R.add('missing:' + nm, 'procedure %s does not exist' % nm, f)
        return
    cov['procedures'] += 1

    def bad(key, msg, w=f):
        R.add('%s:%s' % (key, nm), '%s: %s' % (nm, msg), w)
    # signature
    sub = S.errval == '0'
    wt = [('d', 'integer(kind=1)[0:] *' if dialect == 'f77' else 'struct %s &' % TYPE[which])]
    wt += [(a.name.lower(), ftype(a, dialect, which)) for a in S.args]
    if sub:
        wt.append(('error', 'integer(kind=4) &'))
    rt = 'void' if sub else 'real(kind=8)' if S.rtype == 'double' else 'integer(kind=4)'
    if G.ret != rt:
        bad('rtype', 'is not a %s' % ('subroutine' if sub else rt + ' function'))
        return
    if [t for _, t in G.params] != [t for _, t in wt]:
        for i in range(max(len(wt), len(G.params))):
            a = wt[i] if i < len(wt) else None
            b = G.params[i] if i < len(G.params) else None
            if a is None or b is None or a[1] != b[1]:
                bad('dummy', 'dummy argument %d %s is not the documented %s' % (i + 1, b, a))
                break
        return
    pos = [n for n, _ in G.params]          # dummy arguments in documented order
    E = gimple.Eval(G)
    ignore = ('_gfortran_internal_pack', '_gfortran_internal_unpack', '__builtin_free', '__builtin_malloc', '__builtin_memcpy')
    calls = [c for c in E.calls if c.name not in ignore and not c.name.startswith('_gfortran_')]
    targets = []
    for c in calls:
        if dialect == 'f77':
            F = P.get(c.name.lower() + '_')
            targets.append((c, c.name.lower() + '_', F))
        else:
            b = bound.get(c.name.lower())
            targets.append((c, b, P.get(b) if b else None))
    main = [(c, b, F) for c, b, F in targets if F is not None or b in status]
    for c, b, F in targets:
        if F is None and b not in status and (dialect == 'f77' or b):
            bad('target:%s' % c.name, 'calls %s(), which does not exist' % (b or c.name))
    if len(main) != 1:
        bad('once', 'calls %s' % (', '.join(b for _, b, _ in main) or 'no function of the library'))
        return
    c, b, F = main[0]
    if not E.always([c.node]):
        bad('always', 'does not always call %s()' % b)
    # terms of the Fortran arguments
    m = {}
    for k, a in enumerate(c.args):
        if a is None:
            continue
        arr = E.array(a)
        if a[0] == 'addr':
            v = E.env.get(a[1])
            m[k] = ('addr*', v) if v is not None else None
        elif arr and '[' in E.params.get(arr[0], '') + ' ' or arr and 'array' in E.params.get(arr[0], ''):
            m[k] = ('p', arr[0])
        else:
            m[k] = a
    if F is not None:
        H = helper(P, F, S, status)
        cov['result_classes'] += 2
        for k, msg in H.problems:
            bad('helper:' + k, '%s() %s' % (F.name, msg), where(F))
        if H.args is None:
            return
        if len(c.args) != len(F.params):
            bad('nargs', 'passes %d arguments to %s(), which takes %d' % (len(c.args), F.name, len(F.params)))
            return
        args = [subst(a, m) if a is not None else None for a in H.args]
        want_ret = 'double' if S.rtype == 'double' and not sub else 'i32'
        if F.ret != want_ret:
            bad('cret', '%s() does not return the type the caller expects' % F.name, where(F))
        w = where(H.ev.F, H.ev.I)
        raw = H.args
    else:
        if b != S.full:
            bad('callee', 'calls %s()' % b)
            return
        args = [m.get(k) for k in range(len(c.args))]
        raw, w, H = None, f, None
    if len(args) != len(S.args) + 1:
        bad('nargs', '%s() gets %d arguments' % (S.full, len(args)), w)
        return
    if args[0] != ('p', pos[0]):
        bad('arg:d', 'does not pass the instance to %s()' % S.full, w)
    for i, a in enumerate(S.args):
        t, n = args[i + 1], pos[i + 1]
        cov['arguments'] += 1
        msg = 'does not pass %s as argument %d of %s()' % (a.name, i + 2, S.full)
        if a.rank == 0 and a.io == 'in' and a.type != 'xrtm_data':
            if t != ('ld', ('p', n)):
                bad('arg:' + a.name, msg, w)
            elif H is not None:
                ty = 'double' if a.type == 'double' else 'i32'
                r = raw[i + 1]
                if r[0] == 'p':
                    have = {F.ptypes[r[1]]}
                else:
                    have = H.W.ldty.get(r, {ty})
                if have != {ty}:
                    bad('ctype:' + a.name, 'the helper %s() reads %s as %s' % (F.name, a.name, '/'.join(sorted(have))), w)
        elif a.rank < 2:
            if t != ('p', n):
                bad('arg:' + a.name, msg, w)
        else:
            if not (isinstance(t, tuple) and t[0] == 'fn'):
                bad('arg:' + a.name, msg + ' as an array of rank %d' % a.rank, w)
                continue
            mm = re.match(r'array_from_mem(\d)_(\w+)$', t[1])
            if not mm or int(mm.group(1)) != a.rank or mm.group(2) != ('d' if a.type == 'double' else 'i'):
                bad('map:' + a.name, '%s is mapped with %s()' % (a.name, t[1]), w)
                continue
            if t[2][0] != ('p', n):
                bad('arg:' + a.name, msg, w)
            mp = {0: ('p', pos[0])}
            for k, q in enumerate(S.args):
                mp[k + 1] = ('ld', ('p', pos[k + 1])) if q.rank == 0 and q.io == 'in' else ('p', pos[k + 1])
            for k in range(a.rank):
                cov['dimensions'] += 1
                e = subst(want[(S.full, a.name, k)], mp)
                if t[2][k + 1] != e:
                    bad('dim:%s:%d' % (a.name, k), 'dimension %d of %s is not the documented %s' % (k + 1, a.name, a.dims[k]), w)
        if a.rank and a.io == 'out' and dialect == 'f90':
            # a packed copy must be copied back
            k = next((k for k, x in m.items() if x == ('p', n)), None)
            arr = E.array(c.args[k]) if k is not None else None
            if arr and arr[1]:
                un = [x for x in E.calls if x.name == '_gfortran_internal_unpack' and x.args and x.args[0] == ('addr', arr[1])]
                if not un:
                    bad('back:' + a.name, 'results in %s are not copied back for sections' % a.name)
    # result
    if sub:
        st = [(t, i) for x, t, i in E.stores if x == ('p', pos[-1])]
        if not st or any(t != ('call', c.k) for t, _ in st) or not E.always([i for _, i in st]):
            bad('error', 'does not hand back the status of %s() in error' % b)
    elif not E.returns or any(t != ('call', c.k) for t in E.returns):
        bad('result', 'does not return the result of %s() unconverted' % b)
