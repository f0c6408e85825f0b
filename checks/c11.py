"""C11: names, masks and identifiers agree everywhere (constant tables of the compiled program).

T1  every lookup call passes a name table, a value table and a count that belong together, and the
    tables have exactly that many entries
T2  names[i] is the lower-case form of the enumerator that values[i] stands for
T3  identifiers of one kind are distinct single bits, or the numbers 0..n-1
T4  group masks have exactly the documented members
T5  the constants the C++, Fortran 77 and Fortran 90 bindings publish equal those of the C interface
    and none is missing (also: storage size of the instance types reserved by Fortran 77)
T6  <kind>_<a>_to_<b>() performs the lookup a -> b in the tables of its own kind
T7  the lookups compare and return the same position, over positions 0..n-1, guard the position
    against both ends, and do not narrow the values"""
import os, re, subprocess
import irlib
from irlib import AnalysisError
from common import prog, where, callee_name, str_arg, rel

LEVEL = 'other'

KINDS = {  # enum type -> (constant prefix, kind, distinct bits?)
    'xrtm_option_mask': ('XRTM_OPTION_', 'xrtm_option', True),
    'xrtm_solver_mask': ('XRTM_SOLVER_', 'xrtm_solver', True),
    'xrtm_output_mask': ('XRTM_OUTPUT_', 'xrtm_output', True),
    'xrtm_kernel_type': ('XRTM_KERNEL_', 'xrtm_kernel', False),
    'xrtm_fd_method_type': ('XRTM_FD_METHOD_', 'xrtm_fd_method', False),
    'xrtm_input_type': ('INPUT_', 'xrtm_input', False),
}
ALLS = 'DOUB_ADD EIG_ADD EIG_BVP FOUR_STREAM MEM_BVP PADE_ADD SINGLE SIX_STREAM SOS TWO_OS TWO_STREAM'.split()
GROUPS = {
    'XRTM_SOLVERS_INTERNAL': ALLS,
    'XRTM_SOLVERS_ALL': ALLS,
    'XRTM_SOLVERS_VECTOR': 'DOUB_ADD EIG_ADD EIG_BVP MEM_BVP PADE_ADD SINGLE SOS TWO_OS'.split(),
    'XRTM_SOLVERS_USE_G': [],
    'XRTM_SOLVERS_USE_COEF': ALLS,
    'XRTM_SOLVERS_LINEARIZED': 'DOUB_ADD EIG_ADD EIG_BVP MEM_BVP PADE_ADD SINGLE SOS TWO_OS'.split(),
    'XRTM_SOLVERS_DOUBLING': ['DOUB_ADD'],
    'XRTM_SOLVERS_ADDING': 'DOUB_ADD EIG_ADD PADE_ADD'.split(),
    'XRTM_SOLVERS_BVP': 'EIG_BVP FOUR_STREAM MEM_BVP SIX_STREAM SOS TWO_OS TWO_STREAM'.split(),
    'XRTM_SOLVERS_HAS_SFI': ['EIG_BVP', 'MEM_BVP'],
}
OUT = 'RADIANCE RADIANCE_MEAN FLUX FLUX_DIVERGENCE'.split()
LOOK = {'index_to_name': (1, None, 2), 'name_to_index': (1, None, 2), 'index_to_value': (None, 1, 2),
        'value_to_index': (None, 1, 2), 'mask_to_index_list': (None, 1, 2), 'name_to_value': (2, 1, 3),
        'value_to_name': (2, 1, 3), 'mask_to_name_list': (3, 1, 2), 'name_list_to_mask': (2, 1, 3),
        'mask_to_value_list': (None, 1, 2), 'max_name_length': (0, None, 1)}


def table(P, F, v):
    """('name'|'value', [entries]) of a constant table global"""
    t = P.global_text(F, v)
    if not t:
        return None
    m = re.search(r'\[(\d+) x (ptr|i64|i32)\] \[(.*)\]', t)
    if not m:
        m = re.search(r'\[(\d+) x (ptr|i64|i32)\] zeroinitializer', t)
        if m:
            return ('value', [0] * int(m.group(1)))
        return None
    out = []
    for e in irlib.split_top(m.group(3)):
        x = e.split(None, 1)[1].strip()
        if m.group(2) == 'ptr':
            mm = re.search(r'@[\w.$]+', x)
            out.append(irlib.cstring(P.global_text(F, mm.group(0))) if mm else None)
        else:
            out.append(int(x))
    if len(out) != int(m.group(1)):
        raise AnalysisError('cannot read table %s' % v)
    return ('name' if m.group(2) == 'ptr' else 'value', out)


def enum(P, name):
    best = None
    for m in P.modules.values():
        if name in m.enums:
            best = m.enums[name]
    if best is None:
        raise AnalysisError('anchor vanished: enum %s' % name)
    return best


def run(R, tier):
    P = prog('src', 'misc', 'interfaces')
    enums = {}
    for en, (pre, kind, bits) in KINDS.items():
        vals = [(n[len(pre):], v) for n, v in enum(P, en) if n.startswith(pre)]
        enums[kind] = dict(vals)
        R.instances += len(vals)
        # T3
        vs = [v & 0xffffffff for n, v in vals]
        if bits:
            for n, v in vals:
                v &= 0xffffffff
                if v == 0 or v & (v - 1):
                    R.add('bit:%s%s' % (pre, n), 'identifier %s%s = %#x is not a single bit' % (pre, n, v), en, rule='T3')
            if len(set(vs)) != len(vs):
                R.add('distinct:%s' % en, 'identifiers of %s are not distinct' % en, en, rule='T3')
        else:
            lo = 1 if kind == 'xrtm_input' else 0
            if sorted(vs) != list(range(lo, lo + len(vs))):
                R.add('distinct:%s' % en, 'identifiers of %s are not the numbers %d..%d' % (en, lo, lo + len(vs) - 1), en, rule='T3')
    # T1, T2, T6
    calls = 0
    seen = set()
    for F in P.functions():
        for I in F.insts():
            if I.op not in ('call', 'invoke'):
                continue
            n = callee_name(I)
            if n not in LOOK or P.resolve(F, I.x['callee']) is None:
                continue
            ni, vi, ci = LOOK[n]
            nt = I.a[ni] if ni is not None else None
            vt = I.a[vi] if vi is not None else None
            kinds = {}
            for what, g in (('name', nt), ('value', vt)):
                if isinstance(g, str) and g.startswith('@'):
                    k = re.sub(r'_(names|masks|types|values)$', '', g[1:])
                    kinds[what] = k
            if not kinds:
                continue
            unused = F.internal and not used(P, F)
            calls += 1
            R.instances += 1
            w = where(F, I)
            if len(set(kinds.values())) > 1:
                R.add('mix:' + F.name, '%s() looks up in the tables %s and %s, which do not belong together' % (F.name, nt, vt), w, rule='T1')
                continue
            kind = list(kinds.values())[0]
            N = I.a[ci]
            tabs = {}
            for what, g in (('name', nt), ('value', vt)):
                if what in kinds:
                    t = table(P, F, g)
                    if t is None or t[0] != what:
                        R.add('table:%s:%s' % (F.name, what), '%s() passes %s where a table of %ss is expected' % (F.name, g, what), w, rule='T1')
                        continue
                    tabs[what] = t[1]
                    if isinstance(N, int) and N != len(t[1]) and not unused:
                        key = ('len', kind, what)
                        if key not in seen:
                            seen.add(key)
                            R.add('length:%s_%ss' % (kind, what), 'table %s has %d entries but %d are looked up (%s())' % (g[1:], len(t[1]), N, F.name), w, rule='T1')
            # T6 wrapper
            m = re.match(r'(\w+?)_(index|name|value|mask|name_list)_to_(index_list|name_list|value_list|index|name|value|mask)$', F.name)
            if m and not unused:
                a, b = m.group(2), m.group(3)
                norm = {'mask': 'value', 'value': 'value'}
                a2 = a if n.startswith('mask_to') or a != 'mask' else 'value'
                b2 = b if n.endswith('_to_mask') or b != 'mask' else 'value'
                if n != '%s_to_%s' % (a2, b2):
                    R.add('wrapper:' + F.name, '%s() performs the lookup %s' % (F.name, n), w, rule='T6')
                if m.group(1) != kind and not kind.startswith(m.group(1)):
                    R.add('wrapper:' + F.name, '%s() looks up in the tables of %s' % (F.name, kind), w, rule='T6')
                if strip(F, I.a[0]) != F.params[0]:
                    R.add('wrapperarg:' + F.name, '%s() does not look up its argument' % F.name, w, rule='T6')
                rets = [J for J in F.insts() if J.op == 'ret']
                if any(strip(F, J.a[0]) != I.res for J in rets):
                    R.add('wrapperret:' + F.name, '%s() does not return what it looked up' % F.name, w, rule='T6')
            # T2
            E = enums.get(kind)
            if E is None:
                continue
            if 'name' in tabs and ('t2', kind) not in seen and not unused:
                seen.add(('t2', kind))
                V = tabs.get('value')
                if V is None:
                    for suf in ('_masks', '_types'):
                        t = table(P, F, '@' + kind + suf)
                        if t:
                            V = t[1]
                if kind == 'xrtm_input':
                    V = list(range(len(tabs['name'])))
                if V is None:
                    raise AnalysisError('no value table for ' + kind)
                byv = {v & 0xffffffff: k for k, v in E.items()}
                for i, nm in enumerate(tabs['name']):
                    if kind == 'xrtm_input' and i == 0:
                        continue
                    R.instances += 1
                    if i >= len(V):
                        continue
                    exp = byv.get(V[i] & 0xffffffff)
                    if exp is None or exp.lower() != (nm or '').lower():
                        R.add('name:%s:%d' % (kind, i), 'entry %d of the tables of %s pairs the name "%s" with the identifier of "%s"' % (i, kind, nm, (exp or '?').lower()), where(F), rule='T2')
                miss = set(E.values()) - set(V)
                miss = {x & 0xffffffff for x in E.values()} - {x & 0xffffffff for x in V}
                if miss and kind != 'xrtm_input':
                    R.add('missing:%s' % kind, 'identifiers %s of %s have no name' % (sorted(miss), kind), where(F), rule='T2')
                if kind == 'xrtm_input' and max(E.values()) >= len(tabs['name']):
                    R.add('missing:%s' % kind, 'input identifiers go up to %d but there are only %d names' % (max(E.values()), len(tabs['name'])), where(F), rule='T2')
    if calls < 40:
        raise AnalysisError('only %d lookup calls found' % calls)
    groups(R, enums)
    nb = bindings(R, P, enums)
    nl = lookups(R, P)
    R.instances += nb + nl
    R.coverage.update(lookup_calls=calls, kinds=len(KINDS), identifiers=sum(len(e) for e in enums.values()),
                      group_masks=len(GROUPS) + 1, binding_constants=nb, lookup_functions=nl)
    R.explanation = ('Constant tables, enumerators and group masks are read from the compiled program (LLVM IR and debug information); '
                     'the text of the Fortran bindings is read for its parameter statements. Rules T1-T7 of the check.')
    R.assumptions += ['members of the group masks are those listed in the check, taken from the documentation of the solvers']


def used(P, F):
    for G in P.functions():
        if G.module != F.module:
            continue
        for I in G.insts():
            if I.op in ('call', 'invoke') and I.x['callee'] == '@' + F.name:
                return True
            if ('@' + F.name) in [x for x in I.a if isinstance(x, str)]:
                return True
    return False


def strip(F, v):
    while isinstance(v, str) and v in F.defs and F.defs[v].op in ('sext', 'zext', 'trunc', 'freeze'):
        v = F.defs[v].a[0]
    return v


def groups(R, enums):
    src = '#include "xrtm_interface.h"\n#include "xrtm_support.h"\n'
    names = list(GROUPS) + ['XRTM_SOLUTION_ALL', 'MAX_XRTM_OPTION_MASK']
    for g in names:
        src += 'long G__%s = (long)(unsigned)(%s);\n' % (g, g)
    p = subprocess.run(['clang', '-w', '-O0', '-S', '-emit-llvm', '-x', 'c', '-', '-o', '-'] + irlib.DEFS + irlib.includes(),
                       input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AnalysisError('group masks: ' + p.stderr.decode()[:400])
    val = {m.group(1): int(m.group(2)) for m in re.finditer(r'@G__(\w+) = .*?global i64 (-?\d+)', p.stdout.decode())}
    S = enums['xrtm_solver']
    for g, mem in GROUPS.items():
        exp = 0
        for k in mem:
            if k not in S:
                raise AnalysisError('anchor vanished: solver %s' % k)
            exp |= S[k]
        R.instances += 1
        if val[g] != exp:
            d = [k for k in S if bool(val[g] & S[k]) != bool(exp & S[k])]
            R.add('group:' + g, '%s differs from the documented group in: %s' % (g, ' '.join(sorted(d))), 'src/xrtm_support.h', rule='T4')
    o = 0
    for v in enums['xrtm_output'].values():
        o |= v
    R.instances += 2
    if val['XRTM_SOLUTION_ALL'] != o:
        R.add('group:XRTM_SOLUTION_ALL', 'XRTM_SOLUTION_ALL is not the union of all outputs', 'src/xrtm_support.h', rule='T4')
    o = 0
    for v in enums['xrtm_option'].values():
        o |= v & 0xffffffff
    if val['MAX_XRTM_OPTION_MASK'] != o:
        R.add('group:MAX_XRTM_OPTION_MASK', 'MAX_XRTM_OPTION_MASK is not the union of all options', 'src/xrtm_interface.h', rule='T4')


def bindings(R, P, enums):
    want = {}
    for en, (pre, kind, bits) in KINDS.items():
        if kind == 'xrtm_input':
            continue
        for n, v in enums[kind].items():
            want[pre + n] = v & 0xffffffff
    n = 0
    for fs, pat in ((('xrtm_int_f77.inc', 'xrtm_fd_int_f77.inc'), r'parameter\s*\(\s*(\w+)\s*=\s*(-?\d+)(?:_\w+)?\s*\)'),
                    (('xrtm_int_f90.f90', 'xrtm_fd_int_f90.f90'), r'parameter[^!\n]*::\s*(\w+)\s*=\s*(-?\d+)(?:_\w+)?')):
        got = {}
        for f in fs:
            p = os.path.join(irlib.REPO, 'interfaces', f)
            for k, ln in enumerate(open(p)):
                if ln[:1] in 'cC*!' and f.endswith('.inc'):
                    continue
                m = re.search(pat, ln)
                if m:
                    got[m.group(1)] = (int(m.group(2)), 'interfaces/%s:%d' % (f, k + 1))
        for k, v in want.items():
            n += 1
            if k not in got:
                R.add('binding:%s:%s' % (fs[0], k), '%s is not published by %s' % (k, ' '.join(fs)), 'interfaces/' + fs[0], rule='T5')
            elif got[k][0] & 0xffffffff != v:
                R.add('binding:%s:%s' % (fs[0], k), '%s is %d here and %d in the C interface' % (k, got[k][0], v), got[k][1], rule='T5')
        if 'f77' in fs[0]:
            for nm, st in (('N_BYTES_XRTM_TYPE', 'xrtm_data'), ('N_BYTES_XRTM_FD_TYPE', 'xrtm_fd_data')):
                n += 1
                sz = sizeof(st)
                if nm not in got:
                    raise AnalysisError('anchor vanished: ' + nm)
                if got[nm][0] < sz:
                    R.add('binding:size:' + nm, '%s reserves %d bytes but %s needs %d' % (nm, got[nm][0], st, sz), got[nm][1], rule='T5')
    # C++ enumerators via debug information / syntax tree
    got = {}
    for M in P.modules.values():
        if M.path.endswith('.cpp'):
            for en, vals in M.enums.items():
                for nm, v in vals:
                    got.setdefault(nm, set()).add(v & 0xffffffff)
    cpp = cpp_enums()
    for k, v in want.items():
        n += 1
        s = k[len('XRTM_'):] if not k.startswith('XRTM_FD_') else k[len('XRTM_FD_'):]
        if s not in cpp:
            R.add('binding:cpp:' + k, '%s is not published by the C++ binding' % k, 'interfaces/xrtm_int_cpp.h', rule='T5')
        elif cpp[s] != v:
            R.add('binding:cpp:' + k, '%s is %d in the C++ binding and %d in the C interface' % (k, cpp[s], v), 'interfaces/xrtm_int_cpp.h', rule='T5')
    return n


def sizeof(t):
    src = '#include "xrtm_interface.h"\n#include "xrtm_fd_interface.h"\nlong S__ = sizeof(%s);\n' % t
    p = subprocess.run(['clang', '-w', '-S', '-emit-llvm', '-x', 'c', '-', '-o', '-'] + irlib.DEFS + irlib.includes(),
                       input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    m = re.search(r'@S__ = .*?i64 (\d+)', p.stdout.decode())
    if not m:
        raise AnalysisError('sizeof %s' % t)
    return int(m.group(1))


def cpp_enums():
    src = '#include "xrtm_int_cpp.h"\n#include "xrtm_fd_int_cpp.h"\n'
    txt = ''
    for f in ('xrtm_int_cpp.h', 'xrtm_fd_int_cpp.h'):
        txt += open(os.path.join(irlib.REPO, 'interfaces', f)).read()
    txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
    cls = {}
    cur = None
    for m in re.finditer(r'\bclass\s+(\w+)\s*(?::[^{;]*)?\{|\benum\b[^{;]*\{([^}]*)\}', txt):
        if m.group(1):
            cur = m.group(1)
            cls.setdefault(cur, [])
        elif cur:
            for e in m.group(2).split(','):
                e = e.strip().split('=')[0].strip()
                if re.match(r'^\w+$', e):
                    cls[cur].append(e)
    k = 0
    names = []
    for c, es in cls.items():
        for e in es:
            src += 'unsigned long long E__%d = (unsigned)%s::%s;\n' % (k, c, e)
            names.append(e)
            k += 1
    p = subprocess.run(['clang++', '-w', '-S', '-emit-llvm', '-x', 'c++', '-', '-o', '-'] + irlib.DEFS + irlib.includes(),
                       input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AnalysisError('C++ enumerators: ' + p.stderr.decode()[:400])
    out = {}
    for m in re.finditer(r'@E__(\d+) = .*?global i64 (-?\d+)', p.stdout.decode()):
        out[names[int(m.group(1))]] = int(m.group(2)) & 0xffffffff
    return out


# ------------------------------------------------------------------ T7
def lookups(R, P):
    n = 0
    und = []
    for nm, (ni, vi, ci) in LOOK.items():
        F = P.get(nm)
        if F is None:
            raise AnalysisError('anchor vanished: function %s' % nm)
        if nm == 'max_name_length':
            continue
        n += 1
        tabs = {F.params[k] for k in (ni, vi) if k is not None}
        N = F.params[ci]
        idx = []      # (index root, offset, inst)
        for I in F.insts():
            if I.op == 'getelementptr' and I.a[0] in tabs:
                r, off = affine(F, I.a[-1])
                idx.append((r, off, I))
            if I.op == 'trunc':
                L = F.defs.get(I.a[0])
                src = I.a[0]
                if flows_value(F, src, tabs, set()):
                    R.add('narrow:%s' % nm, '%s() narrows an identifier from %s to %s bits: an identifier with the top bit set changes its value' % (nm, I.x, I.ty), where(F, I), rule='T7')
        if not idx:
            und.append(nm)
            continue
        roots = {(r, o) for r, o, I in idx}
        if len(roots) > 1 and len({r for r, o in roots}) == 1:
            R.add('position:%s' % nm, '%s() uses different positions for what it compares and what it returns' % nm, where(F, idx[0][2]), rule='T7')
            continue
        if len(roots) > 1:
            und.append(nm)
            continue
        r, off = list(roots)[0]
        if off:
            if isinstance(r, str):
                R.add('position:%s' % nm, '%s() looks up position %+d off the one it iterates over or was given' % (nm, off), where(F, idx[0][2]), rule='T7')
            continue
        if r in F.params:
            # guard both ends
            lo = hi = False
            for I in F.insts():
                if I.op != 'icmp':
                    continue
                a, b, p = I.a[0], I.a[1], I.x
                ra, oa = affine(F, a)
                rb, ob = affine(F, b)
                if (ra, oa) == (r, 0) and rb is None:
                    if (p, ob) in (('slt', 0), ('sge', 0), ('sle', -1), ('sgt', -1)):
                        lo = True
                    elif p in ('slt', 'sge', 'sle', 'sgt'):
                        R.add('guard:%s' % nm, '%s() does not guard the position against the lower end correctly' % nm, where(F, I), rule='T7')
                if ra == r and rb == N:
                    d = oa - ob
                    if (p, d) in (('sge', 0), ('slt', 0), ('ult', 0), ('uge', 0), ('sgt', 1), ('sle', 1)):
                        hi = True
                        if p[0] == 'u':
                            lo = True
                    elif p in ('sge', 'slt', 'sgt', 'sle'):
                        R.add('guard:%s' % nm, '%s() accepts a position beyond the last entry or refuses a valid one' % nm, where(F, I), rule='T7')
                        hi = True
            if not (lo and hi):
                hasg = any(I.op == 'icmp' and affine(F, I.a[0])[0] == r for I in F.insts())
                if not any(I.op in ('call',) and P.resolve(F, I.x['callee']) for I in F.insts()):
                    R.add('guard:%s' % nm, '%s() uses the position without checking it against %s' % (nm, 'the lower end' if hi else 'the number of entries'), where(F, idx[0][2]), rule='T7')
                else:
                    und.append(nm)
        elif isinstance(r, str) and r in F.defs and F.defs[r].op == 'phi':
            init = [v for v in F.defs[r].a if affine(F, v)[0] != r]
            step = [affine(F, v)[1] for v in F.defs[r].a if affine(F, v)[0] == r]
            ok = False
            for I in F.insts():
                if I.op == 'icmp' and N in (strip(F, I.a[0]), strip(F, I.a[1])) or (I.op == 'icmp' and affine(F, I.a[1])[0] == N):
                    ra, oa = affine(F, I.a[0])
                    rb, ob = affine(F, I.a[1])
                    if ra == r and rb == N:
                        d = oa - ob
                        if (I.x, d) in (('slt', 0), ('sge', 0), ('ne', 0), ('eq', 0), ('sle', 1), ('sgt', 1)):
                            ok = True
                        elif I.x in ('slt', 'sle', 'sgt', 'sge'):
                            R.add('bound:%s' % nm, '%s() does not iterate over exactly the n entries' % nm, where(F, I), rule='T7')
                            ok = True
            if init != [0] and all(isinstance(x, int) for x in init) and step == [1]:
                R.add('start:%s' % nm, '%s() does not start at the first entry' % nm, where(F, F.defs[r]), rule='T7')
            if step != [1] and init == [0] and len(step) == 1:
                R.add('step:%s' % nm, '%s() skips entries' % nm, where(F, F.defs[r]), rule='T7')
            if not ok:
                und.append(nm)
        else:
            und.append(nm)
    R.coverage['lookup_functions_shape_not_recognized'] = und
    return n


def affine(F, v, depth=0):
    """v = root + constant"""
    if isinstance(v, int):
        return None, v
    if depth > 12 or not isinstance(v, str) or v not in F.defs:
        return v, 0
    I = F.defs[v]
    if I.op in ('sext', 'zext', 'freeze'):
        return affine(F, I.a[0], depth + 1)
    if I.op == 'add' and isinstance(I.a[1], int):
        r, o = affine(F, I.a[0], depth + 1)
        return r, o + I.a[1]
    if I.op == 'sub' and isinstance(I.a[1], int):
        r, o = affine(F, I.a[0], depth + 1)
        return r, o - I.a[1]
    return v, 0


def flows_value(F, v, tabs, seen):
    """does the identifier value v come from a value table or a lookup returning one"""
    if not isinstance(v, str) or v in seen:
        return False
    seen.add(v)
    I = F.defs.get(v)
    if I is None:
        return False
    if I.op == 'load' and I.ty == 'i64':
        g = F.defs.get(I.a[0])
        return g is not None and g.op == 'getelementptr' and g.a[0] in tabs
    if I.op in ('call', 'invoke'):
        return callee_name(I) in ('name_to_value', 'index_to_value')
    if I.op in ('or', 'and', 'phi', 'select', 'sext', 'zext'):
        return any(flows_value(F, a, tabs, seen) for a in I.a)
    return False
