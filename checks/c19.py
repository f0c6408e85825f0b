"""C19: the Python binding forwards every call faithfully.

Every method is followed along every path (outcomes of the Python, NumPy and XRTM calls enumerated):
the arguments are unpacked with a format that matches the variables they are stored in and in the
documented order; array arguments are converted to the documented element type and their shape is
compared with the documented dimensions; arrays for results have the documented dimensions; the C
function is called once with the documented arguments in order; when anything fails NULL is returned
with an exception set; otherwise the documented results are returned in order and nothing is raised.
"""
import os, re
import irlib
from irlib import AnalysisError
from common import prog, rel, where, str_arg
from paths import Executor, Path
from fwd import cval, INT_ERROR, DBL_ERROR, Fwd
import defs

LEVEL = 'other'
SRC = 'xrtm_int_py.c'


def numpy_index():
    """index of each function in the table of the NumPy C interface, from the installed header"""
    out = {}
    for d in irlib.includes():
        p = os.path.join(d[2:], 'numpy', '__multiarray_api.h')
        if os.path.exists(p):
            t = open(p).read().replace('\\\n', ' ')
            for m in re.finditer(r'#define (Py\w+)\s+\(\*\([^;#]*?PyArray_API\[(\d+)\]', t):
                out.setdefault(int(m.group(2)), m.group(1))
    if len(out) < 50:
        raise AnalysisError('NumPy header not understood')
    return out


NPY = {'int': 5, 'double': 12}
SIZE = {'int': 4, 'double': 8}
C_ARRAY = 0x0001 | 0x0100        # C contiguous, aligned
FMT = {'i': 'i32', 'd': 'double', 's': 'ptr', 'O': 'ptr'}


class Helper(object):
    """roles of the support functions of the binding, found by what they do"""

    def __init__(self, P, fns):
        self.role = {}
        for F in fns:
            callees = set(I.x['callee'] for I in F.insts() if I.op in ('call', 'invoke') and isinstance(I.x['callee'], str))
            ind = [c for c in callees if c.startswith('%')]
            if '@array_from_mem' in callees:
                self.role[F.name] = 'data'
            elif '@PyList_GetItem' in callees or '@PyList_Size' in callees:
                self.role[F.name] = 'array' if '@malloc' in callees and self.stores_elements(F) else 'mask'
            elif any('va_start' in c for c in callees):
                self.role[F.name] = 'shape'

    def stores_elements(self, F):
        return len(F.params) == 5


class Model(object):
    def __init__(self, P, C, index, helper, status):
        self.P, self.C, self.index, self.helper, self.status = P, C, index, helper, status

    def text(self, F, t):
        if isinstance(t, tuple) and t and t[0] == 'g':
            return str_arg(self.P, F, t[1])
        return None

    def __call__(self, nm, ct, av, I, F, ex, path):
        if nm is None and ct is not None:
            k = self.table(ct)
            if k is None:
                return None
            nm = 'NPY:' + self.index.get(k, str(k))
        if nm is None:
            return None
        if nm == 'PyArg_ParseTuple':
            fmt = self.text(F, av[1])
            st = []
            for i, a in enumerate(av[2:]):
                st.append((a, ('in', i)))
            return [(('c', 1), [('parse', av[0], fmt, tuple(av[2:]), F, I)], st, []),
                    (('c', 0), [], [], ['exc', 'fail'])]
        if nm == 'NPY:PyArray_DescrFromType':
            return [(('descr', av[0]), [], [], [])]
        if nm == 'NPY:PyArray_FromAny':
            t = ('nd', av[0], av[1][1] if isinstance(av[1], tuple) and av[1][0] == 'descr' else None, av[4])
            return [(t, [], [], []), (('c', 0), [], [], ['exc', 'fail'])]
        if nm in ('NPY:PyArray_New', 'NPY:PyArray_SimpleNew'):
            n = cval(av[1])
            dims = tuple(path.mem.get(self.el(av[2], j)) for j in range(n)) if isinstance(n, int) and 0 <= n <= 32 and av[2] is not None else None
            t = ('new', dims, av[3], (F.name, I.line, len(path.ev)))
            return [(t, [('new', t, F, I)], [], []), (('c', 0), [], [], ['exc', 'fail'])]
        role = self.helper.role.get(nm)
        if role == 'shape':
            return [(('c', 0), [('shape', av[0], av[2], tuple(av[3:]), F, I)], [], []), (('c', -1), [], [], ['exc', 'fail'])]
        if role == 'data':
            return [(('data', av[0], av[1]), [], [], [])]
        if role == 'mask':
            return [(('c', 0), [], [(av[1], ('mask', av[2], av[0]))], []), (('c', -1), [], [(av[1], None)], ['exc', 'fail'])]
        if role == 'array':
            return [(('c', 0), [], [(av[1], ('size', av[0])), (av[2], ('values', av[3], av[0]))], []), (('c', -1), [], [(av[1], None), (av[2], None)], ['exc', 'fail'])]
        if nm in self.status and not nm.startswith('xrtm_fd_'):
            dst = [(a, ('out', i)) for i, a in enumerate(av) if ex.base(a) is not None and ex.base(a)[0] == 'al']
            ev = ('api', nm, tuple(av), F, I)
            ok = ('res', nm, 0 if self.status[nm] else None)
            bad = ('res', nm, DBL_ERROR if I.ty == 'double' else INT_ERROR)
            if nm.startswith('xrtm_get_n_') and len(av) == 1:
                return [(ok, [ev + ('ok',)], dst, []), (bad, [ev + ('err',)], [], ['err:' + nm])]
            return [(ok, [ev + ('ok',)], dst, []), (bad, [ev + ('err',)], [], ['err:' + nm])]
        if re.match(r'xrtm_\w+_to_(mask|value|name|index)$|kernel_n_params$|\w+_n_params$', nm) or nm.startswith('xrtm_') and nm not in self.status:
            return [(('fn', nm, tuple(av)), [], [], [])]
        if nm in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetNone', 'PyErr_NoMemory', 'PyErr_SetObject'):
            return [(('c', 0), [], [], ['exc'])]
        if nm in ('Py_BuildValue', '_Py_BuildValue_SizeT'):
            f = self.text(F, av[0])
            return [(('py', f, tuple(av[1:])), [('build', f, tuple(av[1:]), F, I)], [], [])]
        if nm in ('PyLong_FromLong', 'PyFloat_FromDouble'):
            return [(('py', 'i' if nm == 'PyLong_FromLong' else 'd', (av[0],)), [], [], [])]
        if nm in ('PyUnicode_FromString',):
            return [(('py', 's', (av[0],)), [], [], [])]
        if nm in ('Py_DECREF', 'Py_XDECREF', 'Py_INCREF', 'Py_XINCREF', '_Py_Dealloc', 'free', 'free_array'):
            return [(('void',), [('release', av[0], F, I)] if 'INC' not in nm else [], [], [])]
        return None

    def table(self, ct):
        # ld(el(ld(PyArray_API), k))
        if isinstance(ct, tuple) and ct[0] == 'ld':
            a = ct[1]
            k = 0
            if a[0] == 'el':
                k, a = a[2], a[1]
            if a == ('ld', ('g', '@PyArray_API')):
                return k
        return None

    @staticmethod
    def el(b, j):
        if j == 0:
            return b
        if b[0] == 'el' and isinstance(b[2], int):
            return ('el', b[1], b[2] + j)
        return ('el', b, j)


def nonnull(t):
    return isinstance(t, tuple) and t and t[0] in ('nd', 'new', 'data', 'py', 'al', 'el', 'fld', 'g', 'descr')


def cmp(x, pred, k, flip):
    if x[0] != 'res':
        return None
    v = x[2]
    if v is not None:
        a, b = (k, v) if flip else (v, k)
        return Fwd.fold(pred, a, b)
    if k in (INT_ERROR, DBL_ERROR):
        p = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}.get(pred, pred)
        return {'eq': False, 'ne': True}.get(p)
    return None


class Render(object):
    """terms as written in the interface description"""

    def __init__(self, P, F, D, ins):
        self.P, self.F, self.D, self.ins = P, F, D, ins
        self.f = None

    def names(self):
        if self.f is None:
            self.f = self.P.fields_of(self.F, '%struct.xrtm_data')
        return self.f

    def __call__(self, t):
        if not isinstance(t, tuple):
            return '?'
        if t[0] == 'c':
            return str(t[1])
        if t[0] == 'in':
            return self.ins[t[1]] if t[1] < len(self.ins) else '?'
        if t[0] == 'ld':
            return self.loc(t[1])
        if t[0] == 'op':
            op = {'add': '+', 'sub': '-', 'mul': '*'}.get(t[1])
            if op:
                return '%s %s %s' % (self(t[2]), op, self(t[3]))
        if t[0] == 'fn':
            return '%s(%s)' % (t[1], ', '.join(self(a) for a in t[2]))
        if t[0] == 'res' and t[1].startswith('xrtm_get_'):
            return 'd->' + t[1][9:]
        return '?'

    def loc(self, a):
        if a[0] == 'fld' and a[1] == self.D and a[2].lstrip('%').startswith('struct.xrtm_data'):
            f = self.names()
            return 'd->' + f[a[3]] if a[3] < len(f) else '?'
        if a[0] == 'el':
            return '%s[%s]' % (self.loc(a[1][1]) if a[1][0] == 'ld' else '?', a[2] if isinstance(a[2], int) else self(a[2]))
        if a[0] == 'ld':
            return self.loc(a[1]) + '[0]'
        return '?'


def norm(s):
    return re.sub(r'\((?:enum )?\w+\) ', '', s).replace('  ', ' ')


def run(R, tier):
    src = [p for p in irlib.sources('interfaces') if p.endswith(SRC)]
    if not src:
        raise AnalysisError('anchor vanished: interfaces/' + SRC)
    P = irlib.Program(src)
    PC = prog('src', 'misc')
    M = list(P.modules.values())[0]
    fns = [F for F in P.functions()]
    index = numpy_index()
    H = Helper(P, fns)
    status = {}
    subs = defs.load('xrtm')
    for S in subs:
        status[S.full] = S.errval == '0'
    # the method table
    anyF = fns[0]
    tabs = {}
    for g, t in M.globals.items():
        if 'struct.PyMethodDef' in t and '[' in t:
            ent = {}
            for m in re.finditer(r'%struct\.PyMethodDef \{ ptr (@[\w.$]+), ptr (@[\w.$]+), i32 (\d+)', t):
                s = str_arg(P, anyF, m.group(1))
                ent[s] = (m.group(2)[1:], int(m.group(3)))
            if ent:
                tabs[g] = ent
    tabs = [t for g, t in tabs.items() if any(k.startswith('get_') or k == 'radiance' for k in t)]
    if not tabs:
        raise AnalysisError('anchor vanished: method table of the Python type')
    table = {}
    for t in tabs:
        table.update(t)
    cov = dict(methods=0, paths=0, arguments=0, arrays=0, results=0, helpers=len(H.role))
    R.explanation = 'path-sensitive forward analysis of every method against the interface description'
    R.assumptions = ['the Python and NumPy C interfaces behave as documented', 'C functions return the documented codes (C14)']
    for S in subs:
        cov['methods'] += 1
        if S.kind in ('init', 'free'):
            nm = 'xrtm_init' if S.kind == 'init' else 'xrtm_dealloc'
            F = slot(P, M, S, fns)
        else:
            if S.name not in table:
                R.add('missing:' + S.name, 'the Python class has no method %s()' % S.name, 'interfaces/' + SRC)
                continue
            nm, fl = table[S.name]
            if fl != 1:
                R.add('flags:' + S.name, 'the method %s() is not registered for positional arguments' % S.name, 'interfaces/' + SRC)
            F = P.get(nm)
        if F is None:
            raise AnalysisError('anchor vanished: %s()' % nm)
        method(R, P, PC, F, S, index, H, status, cov)
    for F in fns:
        helper(R, P, F, H, cov)
        formats(R, P, F)
    R.coverage = cov
    R.instances = cov['methods'] + cov['arguments']


def slot(P, M, S, fns):
    """function that calls xrtm_create() or xrtm_destroy()"""
    c = [F for F in fns if any(I.op == 'call' and I.x['callee'] == '@' + S.full for I in F.insts())]
    if not c:
        raise AnalysisError('no function of the binding calls %s()' % S.full)
    refs = [F for F in c if any('@' + F.name in t for g, t in M.globals.items() if 'PyTypeObject' in t or '_typeobject' in t)]
    return (refs or c)[0]


def method(R, P, PC, F, S, index, H, status, cov):
    model = Model(P, PC, index, H, status)
    ex = Executor(P, model, nonnull, cmp)
    w = where(F)
    K = S.name
    D = ('fld', ('p', 0), '%struct.xrtm_data_py', 1)
    paths = ex.run(F)
    cov['paths'] += len(paths)
    init, free = S.kind == 'init', S.kind == 'free'
    sizes = [a.name for a in S.args if 'list_size' in a.conv]
    ins = [a for a in S.args if a.io == 'in' and a.name not in sizes]
    outs = [a for a in S.args if a.io == 'out']
    rend = Render(P, F, D, [a.name for a in ins])
    want = ''.join('O' if a.rank or ('enum_mask' in a.conv and a.type == 'int') else 's' if a.conv and a.conv[0].startswith('enum') else {'int': 'i', 'double': 'd'}.get(a.type, '?') for a in ins)
    good = 0
    seen = set()

    def bad(key, msg, at=None):
        if key not in seen:
            seen.add(key)
            R.add('%s:%s' % (key, K), 'Python method %s(): %s' % (K, msg), at or w)
    for p, ret in paths:
        api = [e for e in p.ev if e[0] == 'api' and e[1] == S.full]
        helpers = [e for e in p.ev if e[0] == 'api' and e[1] != S.full]
        for e in p.ev:
            if e[0] == 'call' and e[1] and e[1].startswith('xrtm_'):
                bad('other:' + e[1], 'calls %s()' % e[1], where(e[3], e[4]))
        for e in helpers:
            if not (e[1].startswith('xrtm_get_') and len(e[2]) == 1):
                bad('other:' + e[1], 'calls %s()' % e[1], where(e[3], e[4]))
        failed = 'fail' in p.flags or any(e[-1] == 'err' for e in api + helpers)
        if init:
            isnull = cval(ret) is not None and cval(ret) != 0
            isok = cval(ret) == 0
        elif free:
            isnull = isok = None
        else:
            isnull = cval(ret) == 0 and not isinstance(ret[1], float)
            isok = ret is not None and nonnull(ret)
            if ret is not None and ret[0] == 'ld' and ret[1] == ('g', '@_Py_NoneStruct') or ret == ('g', '@_Py_NoneStruct'):
                isok = True
        if not free:
            if not isnull and not isok:
                bad('return', 'returns an unknown value')
                continue
            if isnull and 'exc' not in p.flags:
                bad('silent', 'returns NULL without an exception' + (' when %s() fails' % S.full if any(e[-1] == 'err' for e in api) else ''))
            if isok and 'exc' in p.flags:
                bad('swallow', 'sets an exception but returns a value')
            if isok and failed:
                bad('ignored', 'returns a value although %s' % ('%s() signals an error' % S.full if any(e[-1] == 'err' for e in api) else 'a step failed'))
            if isnull and api and not failed and 'exc' in p.flags:
                bad('spurious', 'raises an exception although %s() signals no error' % S.full)
            if isnull and not failed and not api and not any(isenum(a) for a in ins):
                bad('spurious2', 'raises an exception although nothing failed')
        if len(api) > 1:
            bad('twice', 'calls %s() more than once' % S.full)
        if isok or free:
            if not api:
                bad('nocall', 'does not call %s()' % S.full)
        for e in api:
            call(S, F, p, e, ins, outs, want, rend, D, sizes, bad, cov, H, ex)
        if isok and api and not failed and not init and not free:
            good += 1
            result(S, p, ret, api[0], outs, rend, bad, cov)
    if not good and not init and not free:
        bad('never', 'no path returns a result')


def isenum(a):
    return bool(a.conv) and a.conv[0] == 'enum_mask' and a.type != 'int'


def call(S, F, p, e, ins, outs, want, rend, D, sizes, bad, cov, H, ex):
    at = where(e[3], e[4])
    args = e[2]
    parse = [x for x in p.ev if x[0] == 'parse']
    if S.kind != 'free':
        if len(parse) != 1:
            bad('parse', 'its arguments are not unpacked exactly once', at)
            return
        fmt = parse[0][2]
        if parse[0][1] != ('p', 1):
            bad('parse', 'unpacks something other than its arguments', at)
        f = (fmt or '').split(':')[0].split(';')[0].replace('|', '')
        if f != want:
            bad('format', 'unpacks its arguments as "%s" but they are documented as "%s"' % (fmt, want), where(parse[0][4], parse[0][5]))
            return
        if len(parse[0][3]) != len(want):
            bad('format', 'unpacks %d arguments into %d variables' % (len(want), len(parse[0][3])), where(parse[0][4], parse[0][5]))
            return
        for k, (c, d) in enumerate(zip(want, parse[0][3])):
            ty = alloca_type(F, d)
            if ty is not None and ty != FMT[c]:
                bad('store:%s' % ins[k].name, 'stores argument %s, unpacked as "%s", in a variable of another type' % (ins[k].name, c), where(parse[0][4], parse[0][5]))
    if not args or args[0] != D:
        bad('self', 'does not pass its own instance to %s()' % S.full, at)
    if len(args) != len(S.args) + 1:
        bad('nargs', 'passes %d arguments to %s()' % (len(args), S.full), at)
        return
    pos = {a.name: i for i, a in enumerate(ins)}
    released = []
    for x in p.ev:
        if x is e:
            break
        if x[0] == 'release':
            released.append(x[1])
    for i, a in enumerate(S.args):
        cov['arguments'] += 1
        t = args[i + 1]
        ok = False
        why = 'does not pass %s as argument %d of %s()' % (a.name, i + 1, S.full)
        if a.name in sizes:
            arr = [b for b in S.args if b.rank == 1 and b.dims == [a.name]]
            ok = arr and t == ('size', ('in', pos[arr[0].name]))
        elif a.io == 'in' and a.rank == 0:
            if isenum(a):
                ok = t == ('fn', a.conv[1], (('in', pos[a.name]),))
                if ok and could(p, t, -1):
                    bad('unknown:' + a.name, 'does not reject an unknown %s' % a.name, at)
            elif a.conv and a.conv[0] == 'enum_mask':
                ok = isinstance(t, tuple) and t[0] == 'mask' and t[1] == ('g', '@' + a.conv[1]) and t[2] == ('in', pos[a.name])
            else:
                ok = t == ('in', pos[a.name])
        elif a.io == 'in':
            if a.conv and a.conv[0] == 'enum_array':
                ok = isinstance(t, tuple) and t[0] == 'values' and t[1] == ('g', '@' + a.conv[1]) and t[2] == ('in', pos[a.name])
            else:
                cov['arrays'] += 1
                nd = source(t)
                ok = nd is not None and nd[0] == 'nd' and nd[1] == ('in', pos[a.name])
                if ok:
                    if cval(nd[2]) != NPY.get(a.type):
                        bad('dtype:' + a.name, 'converts %s to elements of another type' % a.name, at)
                    if not isinstance(cval(nd[3]), int) or cval(nd[3]) & C_ARRAY != C_ARRAY:
                        bad('layout:' + a.name, 'does not require %s to be contiguous and aligned' % a.name, at)
                    if t[0] == 'data' and cval(t[2]) != SIZE.get(a.type):
                        bad('size:' + a.name, 'maps %s with elements of another size' % a.name, at)
                    sh = [x for x in p.ev if x[0] == 'shape' and x[1] == nd]
                    if not sh:
                        bad('shape:' + a.name, 'does not check the shape of %s' % a.name, at)
                    for x in sh:
                        dims = [norm(rend(y)) for y in x[3]]
                        if cval(x[2]) != a.rank or dims != [norm(y) for y in a.dims]:
                            bad('shape:' + a.name, 'checks the shape of %s against (%s), documented (%s)' % (a.name, ', '.join(dims), ', '.join(a.dims)), where(x[4], x[5]))
                        if nd in released or t in released:
                            bad('released:' + a.name, 'releases %s before it is used' % a.name, at)
        else:
            if a.rank == 0:
                b = ex.base(t)
                ok = b is not None and b[0] == 'al' and b == t and [x for x in args if x == t] == [t]
            else:
                cov['arrays'] += 1
                nd = source(t)
                ok = nd is not None and nd[0] == 'new' and [source(x) for x in args].count(nd) == 1
                if ok:
                    dims = [norm(rend(y)) for y in nd[1]] if nd[1] is not None else None
                    if dims != [norm(y) for y in a.dims]:
                        bad('dims:' + a.name, 'returns %s with dimensions (%s), documented (%s)' % (a.name, ', '.join(dims or ['?']), ', '.join(a.dims)), at)
                    if cval(nd[2]) != NPY.get(a.type):
                        bad('dtype:' + a.name, 'returns %s with elements of another type' % a.name, at)
                    if t[0] == 'data' and cval(t[2]) != SIZE.get(a.type):
                        bad('size:' + a.name, 'maps %s with elements of another size' % a.name, at)
                    if nd in released or t in released:
                        bad('released:' + a.name, 'releases %s before it is used' % a.name, at)
        if not ok:
            bad('arg:' + a.name, why, at)


def source(t):
    if isinstance(t, tuple) and t and t[0] == 'data':
        return t[1]
    return None


def alloca_type(F, d):
    if isinstance(d, tuple) and d[0] == 'al' and d[1][1] == F.name:
        for I in F.insts():
            if I.op == 'alloca' and I.res == d[1][2]:
                return str(I.ty)
    return None


def result(S, p, ret, e, outs, rend, bad, cov):
    cov['results'] += 1
    at = where(e[3], e[4])
    if S.errval != '0':
        kind = {'int': 'i', 'double': 'd'}.get(S.rtype, 's')
        v = ret[2] if ret[0] == 'py' else ()
        r = ('res', S.full, None)
        if kind == 's':
            ok = ret[0] == 'py' and ret[1] == 's' and len(v) == 1 and isinstance(v[0], tuple) and v[0][0] == 'fn' and v[0][1].endswith('_name') and v[0][2] == (r,)
            ok = ok or ret[0] == 'py' and ret[1] == 'i' and v == (r,)
        else:
            ok = ret[0] == 'py' and ret[1] == kind and v == (r,)
        if not ok:
            bad('result', 'does not return the result of %s() as documented' % S.full, at)
        return
    if not outs:
        return
    if ret[0] != 'py':
        bad('result', 'does not return the results of %s()' % S.full, at)
        return
    f = re.sub(r'[()\[\], ]', '', ret[1] or '')
    v = list(ret[2])
    if len(f) != len(outs) or len(v) != len(outs):
        bad('result', 'returns %d values for %d results' % (len(v), len(outs)), at)
        return
    for c, x, a in zip(f, v, outs):
        i = [b.name for b in S.args].index(a.name) + 1
        if a.rank == 0:
            if c != {'int': 'i', 'double': 'd'}[a.type] or x != ('out', i):
                bad('result:' + a.name, 'does not return %s in its place' % a.name, at)
        else:
            if c not in 'ON' or x is None or source(e[2][i]) != x:
                bad('result:' + a.name, 'does not return %s in its place' % a.name, at)


ARR = '%struct.tagPyArrayObject_fields'


def helper(R, P, F, H, cov):
    """the support functions: run for every size that occurs, element by element"""
    role = H.role.get(F.name)
    if role is None:
        return
    w = where(F)
    fl = P.fields_of(F, ARR)
    seen = set()

    def bad(key, msg):
        if key not in seen:
            seen.add(key)
            R.add('helper:%s:%s' % (key, F.name), '%s(): %s' % (F.name, msg), w)
    for n in range(0, 6):
        model = HModel(P, H, n)
        ex = Executor(P, model, hnonnull)
        mem = {}
        a = ('p', 0)
        if role in ('data', 'shape'):
            mem[('fld', a, ARR, fl.index('nd'))] = ('c', n)
        dims = ('ld', ('fld', a, ARR, fl.index('dimensions')))
        if role == 'shape':
            for claim in (n, n + 1):
                for p, ret in ex.run(F, [a, ('p', 1), ('c', claim)], mem):
                    cov['paths'] += 1
                    if cval(ret) is None:
                        bad('return', 'unknown result')
                        continue
                    if cval(ret) >= 0:
                        if claim != n:
                            bad('rank', 'accepts an array of another rank')
                        for j in range(n):
                            d = ('ld', Model.el(dims, j))
                            eq = [(k, v) for k, v in p.facts.items() if k[0] == 'op' and (k[1], v) in (('ne', 0), ('eq', 1)) and d in k[2:]]
                            if not eq:
                                bad('dim', 'does not compare every dimension')
                            elif any(x[0] == 'c' or depends(x, ('p', 0)) for k, v in eq for x in k[2:] if x != d):
                                bad('dim', 'compares a dimension with something other than the expected one')
                        if 'exc' in p.flags:
                            bad('exc', 'sets an exception and reports success')
                    elif 'exc' not in p.flags:
                        bad('exc', 'reports an error without setting an exception')
        elif role == 'data' and n:
            for p, ret in ex.run(F, [a, ('p', 1)], mem):
                cov['paths'] += 1
                ok = isinstance(ret, tuple) and ret[0] == 'map'
                if ok:
                    _, data, k, d, size, copy, els = ret
                    ok = data == ('ld', ('fld', a, ARR, fl.index('data'))) and k == ('c', n) and size == ('p', 1)
                    ok = ok and els == tuple(('ld', Model.el(dims, j)) for j in range(n)) and copy not in (('c', 0), None)
                if not ok:
                    bad('map', 'does not map the data of the array with its dimensions')
        elif role in ('mask', 'array'):
            k = 1 if role == 'mask' else 3
            args = [('p', i) for i in range(len(F.params))]
            fn = args[2 if role == 'mask' else 3]
            for p, ret in ex.run(F, args, mem):
                cov['paths'] += 1
                want = [('conv', fn, ('utf', ('item', ('p', 0), j))) for j in range(n)]
                if cval(ret) is None:
                    bad('return', 'unknown result')
                elif cval(ret) != 0:
                    if 'exc' not in p.flags:
                        bad('exc', 'reports an error without setting an exception')
                    if not any(could(p, t, -1) for t in want):
                        bad('spurious', 'reports an error although every name is known')
                else:
                    if 'exc' in p.flags:
                        bad('exc', 'sets an exception and reports success')
                    for t in want:
                        if could(p, t, -1):
                            bad('unknown', 'accepts an unknown name')
                    if role == 'mask':
                        if sorted(map(repr, leaves(p.mem.get(('p', 1))))) != sorted(map(repr, want)):
                            bad('mask', 'the mask is not the union of the masks of all names')
                    else:
                        b = p.mem.get(('p', 2))
                        if p.mem.get(('p', 1)) != ('c', n) or b is None or [p.mem.get(Model.el(b, j)) for j in range(n)] != want:
                            bad('list', 'the array is not the list of the values of all names')


def depends(t, x):
    return t == x or isinstance(t, tuple) and any(depends(y, x) for y in t)


def could(p, t, v):
    """could term t have the value v on the path?"""
    for k, f in p.facts.items():
        if k[0] == 'op' and len(k) == 4:
            if k[2] == t and cval(k[3]) is not None:
                r = Fwd.fold(k[1], v, cval(k[3]))
            elif k[3] == t and cval(k[2]) is not None:
                r = Fwd.fold(k[1], cval(k[2]), v)
            else:
                continue
            if r is not None and int(r) != f:
                return False
    return True


def leaves(t):
    if isinstance(t, tuple) and t[0] == 'op' and t[1] == 'or':
        return leaves(t[2]) + leaves(t[3])
    return [] if t == ('c', 0) else [t]


def hnonnull(t):
    return isinstance(t, tuple) and t and t[0] in ('item', 'utf', 'heap', 'map', 'al', 'el', 'fld', 'g')


class HModel(object):
    def __init__(self, P, H, n):
        self.P, self.H, self.n = P, H, n

    def __call__(self, nm, ct, av, I, F, ex, path):
        if nm is None:
            if ct is not None and ct[0] == 'p':
                return [(('conv', ct) + tuple(av), [], [], [])]
            return None
        if nm == 'PyList_Size':
            return [(('c', self.n), [], [], [])]
        if nm == 'PyList_GetItem':
            return [(('item', av[0], cval(av[1])), [], [], [])]
        if nm == 'PyUnicode_AsUTF8':
            return [(('utf', av[0]), [], [], [])]
        if nm == 'malloc':
            ex.unk = getattr(ex, 'unk', 0) + 1
            return [(('heap', ex.unk), [], [], [])]
        if nm == 'strlen':
            return [(('unk', 0), [], [], [])]
        if nm in ('sprintf', 'snprintf', 'strcpy', 'strcat', 'free', 'memcpy'):
            return [(('unk', 0), [], [], [])]
        if nm == 'array_from_mem':
            els = tuple(path.mem.get(Model.el(av[2], j)) for j in range(self.n)) if av[2] is not None else ()
            return [(('map', av[0], av[1], av[2], av[3], av[4], els), [], [], [])]
        if nm.startswith('PyErr_'):
            return [(('c', 0), [], [], ['exc'])]
        return None


def formats(R, P, F):
    """the format of every PyErr_Format() matches its arguments"""
    for I in F.insts():
        if I.op == 'call' and I.x['callee'] == '@PyErr_Format':
            f = str_arg(P, F, I.a[1])
            if f is None or len(re.findall(r'%', f.replace('%%', ''))) != len(I.a) - 2:
                R.add('format:%s:%s' % (F.name, (f or '')[:40]), '%s(): the arguments of PyErr_Format() do not match its format "%s"' % (F.name, f), where(F, I))
