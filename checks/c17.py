"""C17: the C++ binding forwards every call faithfully.

For every method: the C function of the same name is called exactly once on every path, with the
instance of the object and the parameters of the method in the same order and unconverted; an
exception is thrown when it returns the documented error code, and only then; otherwise its result
is returned.  Compile-fail witnesses: identifiers have the values of the C interface, and every
documented function is a member of the documented type.
"""
import os, re, subprocess, tempfile, shutil
import irlib
from irlib import AnalysisError
from common import prog, rel, where, public_api, fd_api
from fwd import Fwd, classes
import defs
from checks.c11 import enum

LEVEL = 'other'
CLASSES = {'xrtm_int_cpp': ('xrtm', 'xrtm_data'), 'xrtm_fd_int_cpp': ('xrtm_fd', 'xrtm_fd_data')}
ENUMS = {'xrtm_int_cpp': [('XRTM_', e) for e in ('xrtm_option_mask', 'xrtm_solver_mask', 'xrtm_output_mask', 'xrtm_kernel_type')],
         'xrtm_fd_int_cpp': [('XRTM_FD_', 'xrtm_fd_method_type')]}


def demangle(n):
    """(class, member) of a mangled member function; constructors C, destructors D"""
    m = re.match(r'_ZNK?(\d+)', n)
    if not m:
        return None
    k = int(m.group(1))
    p = m.end()
    cls, rest = n[p:p + k], n[p + k:]
    if re.match(r'C[12]E', rest):
        return cls, 'C' + rest[1]
    if re.match(r'D[012]E', rest):
        return cls, 'D' + rest[1]
    m = re.match(r'(\d+)', rest)
    if not m:
        return None
    k = int(m.group(1))
    return cls, rest[m.end():m.end() + k]


def ctype(a, cls):
    """type of an argument in the binding, from the interface description"""
    t = a.type
    if t.startswith('enum '):
        t = '%s::%s' % ('xrtm_int_cpp', t[5:]) if (a.conv and 'enum_external' in a.conv) or cls == 'xrtm_int_cpp' else '%s::%s' % (cls, t[5:])
    elif t == 'xrtm_data':
        return 'xrtm_data *'
    return t + ' ' + '*' * (a.rank + (1 if a.io == 'out' and a.rank == 0 else 0))


def witness(R, P, cov):
    """generate assertions; each one that does not compile is a violation"""
    d = tempfile.mkdtemp(prefix='c17_', dir='/tmp')
    try:
        lines, keys = [], []

        def add(text, key, msg):
            keys.append((key, msg))
            lines.append(text)
        for cls, es in ENUMS.items():
            for pre, e in es:
                for n, v in enum(P, e):
                    if not n.startswith(pre):
                        continue
                    add('static_assert((long long) %s::%s == (long long) %s, "");' % (cls, n[len(pre):], n),
                        'enum:%s::%s' % (cls, n[len(pre):]), 'identifier %s::%s does not exist or has not the value of %s' % (cls, n[len(pre):], n))
                    cov['identifiers'] += 1
        for cls, (pre, data) in CLASSES.items():
            for S in defs.load(pre):
                if S.kind in ('init', 'free'):
                    continue
                rt = 'void' if S.errval == '0' else ctype_ret(S, cls)
                sig = '%s (%s::*)(%s)' % (rt, cls, ', '.join(ctype(a, cls) for a in S.args))
                add('static_assert(std::is_same<decltype(&%s::%s), %s>::value, "");' % (cls, S.name, sig),
                    'member:%s::%s' % (cls, S.name), '%s::%s() does not exist or has not the documented type %s' % (cls, S.name, sig))
                cov['signatures'] += 1
        src = os.path.join(d, 'w.cpp')
        head = '#include <gutil.h>\n#include <type_traits>\n#include "xrtm_int_cpp.h"\n#include "xrtm_fd_int_cpp.h"\n'
        with open(src, 'w') as f:
            f.write(head + '\n'.join(lines) + '\n')
        p = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=0'] + irlib.DEFS + irlib.includes() + [src],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        err = p.stderr.decode(errors='replace')
        n0 = head.count('\n')
        bad = set()
        for m in re.finditer(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', err, re.M):
            if m.group(1) == src:
                bad.add(int(m.group(2)) - n0 - 1)
            else:
                raise AnalysisError('the binding does not compile: ' + m.group(0))
        if p.returncode and not bad:
            raise AnalysisError('witness: ' + err[:500])
        for i in sorted(bad):
            if 0 <= i < len(keys):
                cls = keys[i][0].split(':')[1]
                R.add(keys[i][0], keys[i][1], 'interfaces/%s.h' % cls)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ctype_ret(S, cls):
    return '%s::%s' % (cls, S.rtype[5:]) if S.rtype.startswith('enum ') else S.rtype


def run(R, tier):
    P = irlib.Program([p for p in irlib.sources('interfaces') if p.endswith('.cpp')])
    PC = prog('src', 'misc')
    api = {f.name: f for f in public_api(PC) + fd_api(PC)}
    cov = dict(methods=0, arguments=0, result_classes=0, identifiers=0, signatures=0)
    R.explanation = 'forward dataflow over each method for each class of results of the C function, and static assertions on types and identifiers'
    R.assumptions = ['C functions return the documented codes (C14)']
    witness(R, PC, cov)
    status = {}
    for cls, (pre, data) in CLASSES.items():
        for S in defs.load(pre):
            status[S.full] = S.errval == '0'
    for cls, (pre, data) in CLASSES.items():
        have = {}
        for F in P.functions():
            dm = demangle(F.name)
            if dm and dm[0] == cls:
                have[dm[1]] = F
        subs = defs.load(pre)
        for S in subs:
            key = 'C2' if S.kind == 'init' else 'D2' if S.kind == 'free' else S.name
            F = have.pop(key, None)
            if F is None and key == 'C2':
                F = have.get('C1')
            if F is None:
                R.add('missing:%s::%s' % (cls, S.name), '%s::%s() does not exist' % (cls, S.name), 'interfaces/%s.cpp' % cls)
                continue
            if S.full not in api:
                raise AnalysisError('documented function %s() does not exist' % S.full)
            cov['methods'] += 1
            method(R, P, F, S, api[S.full], status, cls, cov)
    R.coverage = cov
    R.instances = cov['methods'] + cov['identifiers'] + cov['signatures']


def method(R, P, F, S, C, status, cls, cov):
    nm = '%s::%s' % (cls, S.name)
    w = where(F)
    for kind in ('err', 'ok'):
        val, cmp = classes(kind)
        W = Fwd(P, lambda n: n.startswith('xrtm_'), val(lambda n: status.get(n, False)), cmp)
        ret, returns, must = W.run(F)
        cov['result_classes'] += 1
        calls = [e for e in W.events.values() if e.name and e.name.startswith('xrtm_')]
        for e in calls:
            if e.name != S.full:
                R.add('call:%s:%s' % (nm, e.name), '%s() calls %s()' % (nm, e.name), where(e.F, e.I))
        mine = [e for e in calls if e.name == S.full]
        if not mine:
            R.add('call:%s' % nm, '%s() does not call %s()' % (nm, S.full), w)
            return
        if len(mine) > 1:
            R.add('twice:%s' % nm, '%s() calls %s() more than once' % (nm, S.full), w)
        for e in mine:
            if len(e.args) != len(F.params):
                R.add('args:%s' % nm, '%s() passes %d arguments for %d parameters' % (nm, len(e.args), len(F.params)), where(e.F, e.I))
                continue
            for i, t in enumerate(e.args):
                cov['arguments'] += 1
                if t != ('p', i):
                    what = 'the instance' if i == 0 else S.args[i - 1].name
                    R.add('arg:%s:%d' % (nm, i), '%s() does not pass %s as argument %d of %s()' % (nm, what, i + 1, S.full), where(e.F, e.I))
        if returns and not any(e.site in must for e in mine):
            R.add('always:%s' % nm, '%s() can return without calling %s()' % (nm, S.full), w)
        if kind == 'err':
            if returns:
                R.add('error:%s' % nm, '%s() returns although %s() signals an error' % (nm, S.full), w)
            if not W.throws:
                R.add('throw:%s' % nm, '%s() throws no exception when %s() signals an error' % (nm, S.full), w)
        else:
            if W.throws:
                R.add('spurious:%s' % nm, '%s() throws an exception although %s() signals no error' % (nm, S.full), w)
            if not returns:
                R.add('noreturn:%s' % nm, '%s() does not return' % nm, w)
            elif S.errval != '0' and not (isinstance(ret, tuple) and ret[0] == 'res' and ret[1] == S.full):
                R.add('result:%s' % nm, '%s() does not return the result of %s()' % (nm, S.full), w)
