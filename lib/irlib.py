"""LLVM IR front end for the xrtm checks.

Every run compiles the sources of /repo's current working tree with clang
(-O0 -g, the project's own -D/-I flags), promotes locals to SSA with
`opt -passes=mem2reg`, and parses the textual IR into small Python objects.
Nothing is executed.
"""
import os, re, subprocess, sys, tempfile, shutil, hashlib, pickle
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('XRTM_REPO', '/repo')

DEFS = ['-DVERSION="0.93"', '-DGBYTE_ORDER=BYTE_ORDER_LE',
        '-DNATIVE_SIZE=NATIVE_SIZE_64_BIT', '-DUNIX', '-DPLATFORM=LINUX_GCC']


class AnalysisError(Exception):
    """The analysis itself cannot run (vanished anchor, parse failure...)."""


def make_sources(d):
    """Names of the .c/.cpp translation units the project's makefile in `d` builds."""
    mk = open(os.path.join(REPO, d, 'Makefile')).read()
    mk = mk.replace('\\\n', ' ')
    out = []
    for m in re.finditer(r'\b([A-Za-z0-9_./]+)\.o\b', mk):
        base = m.group(1)
        if base.startswith('../'):
            continue
        for ext in ('.c', '.cpp'):
            p = os.path.join(REPO, d, base + ext)
            if os.path.exists(p) and p not in out:
                out.append(p)
    for m in re.finditer(r'^BINARIES\s*\+?=\s*(.*)$', mk, re.M):
        for b in m.group(1).split():
            for ext in ('.c', '.cpp'):
                p = os.path.join(REPO, d, b + ext)
                if os.path.exists(p) and p not in out:
                    out.append(p)
    return out


EXCLUDE = {'write_int_def.c', 'xrtm_int_idl.c'}


def sources(*dirs):
    out = []
    for d in dirs:
        for p in make_sources(d):
            b = os.path.basename(p)
            if b in EXCLUDE or b == 'version.c':
                continue
            out.append(p)
    return out


def includes():
    inc = ['-I%s/src' % REPO, '-I%s/interfaces' % REPO, '-I%s/misc' % REPO,
           '-I%s/utils' % REPO,
           '-I%s/stubs' % os.path.dirname(os.path.abspath(__file__)),
           '-I/usr/include/python3.12',
           '-I/usr/lib/python3/dist-packages/numpy/core/include']
    return inc


# ----------------------------------------------------------------------------
# IR objects
# ----------------------------------------------------------------------------
class Inst(object):
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'file', 'bb', 'idx', 'x')
    # op: opcode; res: '%x' or None; ty: type string of result (or stored type)
    # a: operands (list of values);  x: opcode specific extra

    def __repr__(self):
        return '%s=%s %s %s @%s' % (self.res, self.op, self.a, self.x, self.line)


class Block(object):
    __slots__ = ('name', 'insts', 'preds', 'succs')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.preds = []
        self.succs = []


class Function(object):
    __slots__ = ('name', 'ret', 'params', 'ptypes', 'internal', 'blocks',
                 'order', 'file', 'line', 'defs', 'module', 'byval', '_dom',
                 '_reach', 'vararg', 'pnames', '_cache')

    def __init__(self):
        self._dom = None
        self._reach = None
        self._cache = {}

    def insts(self):
        for b in self.order:
            for i in self.blocks[b].insts:
                yield i


class Module(object):
    __slots__ = ('path', 'structs', 'fields', 'globals', 'functions',
                 'declares', 'enums')


_ty_first = re.compile(r'\s*(\{|\[|<|%"[^"]*"|%[\w.$-]+|ptr|void|i\d+|double|float|half|x86_fp80|label|metadata|token|opaque|\.\.\.)')


def scan_type(s, p):
    """Return end position of the type starting at s[p] (after blanks)."""
    while s[p] == ' ':
        p += 1
    c = s[p]
    if c in '{[<':
        depth = 0
        while True:
            if s[p] in '{[<(':
                depth += 1
            elif s[p] in '}]>)':
                depth -= 1
                if depth == 0:
                    p += 1
                    break
            p += 1
    else:
        m = _ty_first.match(s, p)
        if not m:
            raise ValueError('type? ' + s[p:p + 60])
        p = m.end()
    # function type or addrspace suffix
    while True:
        q = p
        while q < len(s) and s[q] == ' ':
            q += 1
        if q < len(s) and s[q] == '(':
            depth = 0
            while True:
                if s[q] == '(':
                    depth += 1
                elif s[q] == ')':
                    depth -= 1
                    if depth == 0:
                        q += 1
                        break
                q += 1
            p = q
        elif s.startswith('*', q):
            p = q + 1
        elif s.startswith('addrspace', q):
            p = s.index(')', q) + 1
        else:
            return p


def split_top(s):
    """Split s at top level commas."""
    out = []
    depth = 0
    q = False
    cur = []
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        elif c == ',' and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
            i += 1
            continue
        cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


_attr = re.compile(r'^(noundef|nonnull|signext|zeroext|inreg|nocapture|readonly|readnone|writeonly|returned|noalias|immarg|nofree|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^()]*\)|sret\([^()]*\)|captures\([^()]*\)|allocptr|allocalign|nest|swiftself)\s*')


def parse_val(s):
    s = s.strip()
    if not s:
        return None
    c = s[0]
    if c in '%@':
        return s
    if c == '-' or c.isdigit():
        try:
            return int(s)
        except ValueError:
            try:
                return ('f', float(s))
            except ValueError:
                return ('f', s)
    if s in ('null', 'undef', 'poison', 'zeroinitializer', 'none'):
        return (s,)
    if s == 'true':
        return 1
    if s == 'false':
        return 0
    if s.startswith('getelementptr'):
        # constant expression
        inner = s[s.index('(') + 1:s.rindex(')')]
        parts = split_top(inner)
        e = scan_type(parts[1], 0)
        base = parse_val(parts[1][e:])
        idx = []
        for p in parts[2:]:
            e = scan_type(p, 0)
            idx.append(parse_val(p[e:]))
        return ('gepc', parts[0], base, tuple(idx))
    m = re.match(r'(bitcast|inttoptr|ptrtoint|addrspacecast|trunc|zext|sext) \((.*) to [^)]*\)$', s)
    if m:
        e = scan_type(m.group(2), 0)
        return parse_val(m.group(2)[e:])
    return ('c', s)


def parse_typed(s):
    """'ty [attrs] value' -> (ty, attrs, value)"""
    s = s.strip()
    e = scan_type(s, 0)
    ty = s[:e].strip()
    rest = s[e:].strip()
    attrs = []
    while True:
        m = _attr.match(rest)
        if not m:
            break
        attrs.append(m.group(0).strip())
        rest = rest[m.end():]
    return ty, attrs, parse_val(rest)


_dbg = re.compile(r',?\s*!dbg !(\d+)')
_meta_tail = re.compile(r'(, ![\w.]+ !\d+)+$')
_res = re.compile(r'^(%[-\w.$]+|%"[^"]*") = (.*)$')
_binops = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr',
           'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
_casts = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
          'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
_flags = re.compile(r'^(nuw|nsw|exact|inbounds|nnan|ninf|nsz|arcp|contract|afn|reassoc|fast|disjoint|nneg|volatile|atomic|samesign)\s+')


def strip_flags(s):
    while True:
        m = _flags.match(s)
        if not m:
            return s
        s = s[m.end():]


def parse_module(text, path):
    M = Module()
    M.path = path
    M.structs = {}
    M.globals = {}
    M.functions = {}
    M.declares = set()
    M.fields = {}
    M.enums = {}
    lines = text.split('\n')
    meta = {}
    n = len(lines)
    i = 0
    fn_chunks = []
    while i < n:
        ln = lines[i]
        if ln.startswith('define '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            fn_chunks.append((i, j))
            i = j + 1
            continue
        if ln.startswith('%') and ' = type ' in ln:
            nm, body = ln.split(' = type ', 1)
            M.structs[nm.strip('"')] = body
        elif ln.startswith('@'):
            m = re.match(r'^(@[-\w.$]+|@"[^"]*") = (.*)$', ln)
            if m:
                M.globals[m.group(1)] = _dbg.sub('', m.group(2))
        elif ln.startswith('declare '):
            m = re.search(r'@([-\w.$]+)\(', ln)
            if m:
                M.declares.add(m.group(1))
        elif ln.startswith('!'):
            m = re.match(r'^!(\d+) = (?:distinct )?(.*)$', ln)
            if m:
                meta[int(m.group(1))] = m.group(2)
        i += 1

    _fields(M, meta)
    loc_cache = {}
    file_cache = {}

    def md_file(k, depth=0):
        if k in file_cache:
            return file_cache[k]
        r = None
        t = meta.get(k)
        if t is not None and depth < 40:
            if t.startswith('!DIFile('):
                m = re.search(r'filename: "([^"]*)"', t)
                r = m.group(1)
            else:
                m = re.search(r'\bfile: !(\d+)', t)
                if m:
                    r = md_file(int(m.group(1)), depth + 1)
                else:
                    m = re.search(r'\bscope: !(\d+)', t)
                    if m:
                        r = md_file(int(m.group(1)), depth + 1)
        file_cache[k] = r
        return r

    def loc(k):
        if k in loc_cache:
            return loc_cache[k]
        t = meta.get(k, '')
        m = re.search(r'line: (\d+)', t)
        m2 = re.search(r'scope: !(\d+)', t)
        f = md_file(int(m2.group(1))) if m2 else None
        r = (int(m.group(1)) if m else 0, os.path.basename(f) if f else None)
        loc_cache[k] = r
        return r

    for (a, b) in fn_chunks:
        F = parse_function(lines, a, b, loc, meta, md_file)
        F.module = path
        M.functions[F.name] = F
    return M


def _fields(M, meta):
    """struct name -> list of field names, from debug info; also enums."""
    def refs(t):
        return [int(x) for x in re.findall(r'!(\d+)', t)]

    byname = {}
    for k, t in meta.items():
        if t.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
            m = re.search(r'name: "([^"]*)"', t)
            m2 = re.search(r'baseType: !(\d+)', t)
            if m and m2:
                byname.setdefault(m.group(1), int(m2.group(1)))
        elif t.startswith('!DICompositeType(tag: DW_TAG_structure_type') or t.startswith('!DICompositeType(tag: DW_TAG_class_type'):
            m = re.search(r'name: "([^"]*)"', t)
            if m and 'elements:' in t:
                byname[m.group(1)] = k
        elif t.startswith('!DICompositeType(tag: DW_TAG_enumeration_type'):
            m = re.search(r'elements: !(\d+)', t)
            nm = re.search(r'name: "([^"]*)"', t)
            if m:
                vals = []
                for r in refs(meta[int(m.group(1))]):
                    e = meta[r]
                    a = re.search(r'name: "([^"]*)", value: (-?\d+)', e)
                    vals.append((a.group(1), int(a.group(2))))
                M.enums[nm.group(1) if nm else 'anon%d' % k] = vals
    for s in M.structs:
        base = re.sub(r'^%(struct|class|union)\.', '', s)
        base = re.sub(r'\.\d+$', '', base)
        k = byname.get(base)
        seen = 0
        while k is not None and seen < 5:
            t = meta.get(k, '')
            if 'DICompositeType' in t:
                break
            m2 = re.search(r'baseType: !(\d+)', t)
            k = int(m2.group(1)) if m2 else None
            seen += 1
        if k is None:
            continue
        t = meta.get(k, '')
        m = re.search(r'elements: !(\d+)', t)
        if not m:
            continue
        names = []
        for r in refs(meta[int(m.group(1))]):
            e = meta[r]
            if 'DW_TAG_member' not in e and 'DW_TAG_inheritance' not in e:
                continue
            a = re.search(r'name: "([^"]*)"', e)
            names.append(a.group(1) if a else '?')
        M.fields[s] = names


def parse_function(lines, a, b, loc, meta, md_file):
    head = lines[a]
    F = Function()
    m = re.search(r'@([-\w.$]+|"[^"]*")\(', head)
    F.name = m.group(1).strip('"')
    F.internal = bool(re.search(r'\b(internal|private)\b', head[:m.start()]))
    rt = head[len('define '):m.start()].strip()
    rt = re.sub(r'\b(dso_local|internal|private|linkonce_odr|weak_odr|weak|available_externally|noundef|signext|zeroext|hidden|noalias|nonnull|unnamed_addr|align \d+|dereferenceable\(\d+\))\b\s*', '', rt).strip()
    F.ret = rt
    p = m.end()
    depth = 1
    q = p
    while depth:
        if head[q] in '([{<':
            depth += 1
        elif head[q] in ')]}>':
            depth -= 1
        q += 1
    F.params = []
    F.ptypes = []
    F.byval = {}
    F.vararg = False
    for part in split_top(head[p:q - 1]):
        if part == '...':
            F.vararg = True
            continue
        ty, attrs, val = parse_typed(part)
        if any(x.startswith('byval') for x in attrs):
            F.byval[val] = next(x for x in attrs if x.startswith('byval'))
        F.params.append(val)
        F.ptypes.append(ty)
    F.line = 0
    F.file = None
    m = _dbg.search(head) or re.search(r'!dbg !(\d+)', head)
    if m:
        k = int(m.group(1))
        t = meta.get(k, '')
        mm = re.search(r'\bline: (\d+)', t)
        F.line = int(mm.group(1)) if mm else 0
        f = md_file(k)
        F.file = os.path.basename(f) if f else None
    F.blocks = {}
    F.order = []
    F.defs = {}
    cur = None
    i = a + 1
    while i < b:
        ln = lines[i]
        i += 1
        if not ln:
            continue
        if ln[0] != ' ':
            if ln[0] == ';':
                continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            cur = Block(mm.group(1).strip('"'))
            F.blocks[cur.name] = cur
            F.order.append(cur.name)
            continue
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if '@llvm.dbg.' in s or '@llvm.lifetime' in s:
            continue
        # multi line switch
        if s.startswith('switch ') and s.endswith('['):
            while True:
                t = lines[i].strip()
                i += 1
                s += ' ' + t
                if t.startswith(']'):
                    break
        elif s.startswith(('landingpad', '%')) and 'landingpad' in s or s.startswith('invoke') or ' = invoke ' in s:
            while i < b and re.match(r'^\s+(cleanup|catch|filter|to label)', lines[i]):
                s += ' ' + lines[i].strip()
                i += 1
        I = parse_inst(s, loc)
        if I is None:
            continue
        if cur is None:
            cur = Block('entry')
            F.blocks['entry'] = cur
            F.order.append('entry')
        I.bb = cur.name
        I.idx = len(cur.insts)
        cur.insts.append(I)
        if I.res:
            F.defs[I.res] = I
    for nm in F.order:
        bl = F.blocks[nm]
        if not bl.insts:
            continue
        t = bl.insts[-1]
        if t.op == 'br':
            bl.succs = list(t.x)
        elif t.op == 'switch':
            bl.succs = [t.x[0]] + [l for _, l in t.x[1]]
        elif t.op == 'invoke':
            bl.succs = [l for l in t.x['labels']]
    for nm in F.order:
        for s2 in F.blocks[nm].succs:
            if s2 in F.blocks:
                F.blocks[s2].preds.append(nm)
    return F


def parse_inst(s, loc):
    I = Inst()
    I.res = None
    I.ty = None
    I.a = []
    I.x = None
    I.line = 0
    I.file = None
    m = _dbg.search(s)
    if m:
        I.line, I.file = loc(int(m.group(1)))
        s = s[:m.start()]
    s = _meta_tail.sub('', s)
    m = _res.match(s)
    if m:
        I.res = m.group(1)
        s = m.group(2)
    sp = s.find(' ')
    op = s if sp < 0 else s[:sp]
    rest = '' if sp < 0 else s[sp + 1:]
    if op in ('tail', 'musttail', 'notail'):
        op = 'call'
        rest = rest[rest.index(' ') + 1:] if rest.startswith('call ') else rest
    I.op = op
    if op in _binops or op == 'fneg':
        rest = strip_flags(rest)
        e = scan_type(rest, 0)
        I.ty = rest[:e].strip()
        I.a = [parse_val(x) for x in split_top(rest[e:])]
    elif op in ('icmp', 'fcmp'):
        rest = strip_flags(rest)
        pred, rest = rest.split(' ', 1)
        e = scan_type(rest, 0)
        I.x = pred
        I.ty = rest[:e].strip()
        I.a = [parse_val(x) for x in split_top(rest[e:])]
    elif op in _casts:
        rest = strip_flags(rest)
        k = rest.rindex(' to ')
        ty, _, v = parse_typed(rest[:k])
        I.a = [v]
        I.x = ty
        I.ty = rest[k + 4:].strip()
    elif op == 'load':
        rest = strip_flags(rest)
        parts = split_top(rest)
        I.ty = parts[0]
        I.a = [parse_typed(parts[1])[2]]
    elif op == 'store':
        rest = strip_flags(rest)
        parts = split_top(rest)
        ty, _, v = parse_typed(parts[0])
        I.ty = ty
        I.a = [v, parse_typed(parts[1])[2]]
    elif op == 'getelementptr':
        rest = strip_flags(rest)
        parts = split_top(rest)
        I.ty = parts[0]
        I.a = [parse_typed(x)[2] for x in parts[1:]]
    elif op == 'alloca':
        parts = split_top(rest)
        I.ty = parts[0]
        I.x = None
        for p_ in parts[1:]:
            if not p_.startswith('align'):
                I.x = parse_typed(p_)[2]
    elif op == 'phi':
        rest = strip_flags(rest)
        e = scan_type(rest, 0)
        I.ty = rest[:e].strip()
        inc = []
        for p_ in split_top(rest[e:]):
            p_ = p_.strip()[1:-1].strip()
            v, l = p_.rsplit(',', 1)
            inc.append((parse_val(v.strip()), l.strip()[1:].strip('"')))
        I.x = inc
        I.a = [v for v, _ in inc]
    elif op == 'select':
        rest = strip_flags(rest)
        parts = split_top(rest)
        I.a = [parse_typed(x)[2] for x in parts]
        I.ty = parse_typed(parts[1])[0]
    elif op == 'br':
        if rest.startswith('label'):
            I.x = [rest.split('%', 1)[1].strip().strip('"')]
        else:
            parts = split_top(rest)
            I.a = [parse_typed(parts[0])[2]]
            I.x = [parts[1].split('%', 1)[1].strip('"'), parts[2].split('%', 1)[1].strip('"')]
    elif op == 'switch':
        k = rest.index('[')
        parts = split_top(rest[:k])
        I.a = [parse_typed(parts[0])[2]]
        dflt = parts[1].split('%', 1)[1].strip().strip('"')
        cases = []
        for mm in re.finditer(r'i\d+ (-?\d+), label %("[^"]*"|[-\w.$]+)', rest[k:]):
            cases.append((int(mm.group(1)), mm.group(2).strip('"')))
        I.x = (dflt, cases)
    elif op == 'ret':
        if rest != 'void':
            ty, _, v = parse_typed(rest)
            I.ty = ty
            I.a = [v]
    elif op in ('call', 'invoke'):
        labels = None
        if op == 'invoke':
            k = rest.rindex(' to label ')
            labels = re.findall(r'label %("[^"]*"|[-\w.$]+)', rest[k:])
            rest = rest[:k]
        rest = strip_flags(rest)
        rest = re.sub(r'^(fastcc|ccc|coldcc)\s+', '', rest)
        rest = strip_flags(rest)
        while True:
            mm = _attr.match(rest)
            if not mm:
                break
            rest = rest[mm.end():]
        e = scan_type(rest, 0)
        # scan_type swallows a function-type suffix '(..)' for varargs
        ty = rest[:e].strip()
        rest2 = rest[e:].strip()
        if not rest2 or rest2[0] not in '%@"b' and not rest2.startswith(('asm', 'inttoptr')):
            pass
        if ty.endswith(')') and '(' in ty and not ty.startswith(('{', '[', '<')):
            ty = ty[:ty.index('(')].strip()
        I.ty = ty
        if rest2.startswith('asm'):
            I.op = 'asm'
            return I
        k = rest2.index('(')
        callee = parse_val(rest2[:k])
        depth = 0
        q = k
        inq = False
        while True:
            c = rest2[q]
            if c == '"':
                inq = not inq
            if not inq:
                if c == '(':
                    depth += 1
                elif c == ')':
                    depth -= 1
                    if depth == 0:
                        break
            q += 1
        args = []
        byval = []
        for n_, p_ in enumerate(split_top(rest2[k + 1:q])):
            if p_.startswith('metadata'):
                continue
            t_, at_, v_ = parse_typed(p_)
            args.append(v_)
            if any(z.startswith('byval') for z in at_):
                byval.append(n_)
        I.a = args
        I.x = {'callee': callee, 'byval': byval, 'labels': [l.strip('"') for l in labels] if labels else None}
        if op == 'invoke':
            I.op = 'invoke'
    elif op in ('extractvalue',):
        parts = split_top(rest)
        I.a = [parse_typed(parts[0])[2]]
        I.x = parts[1:]
    elif op == 'insertvalue':
        parts = split_top(rest)
        I.a = [parse_typed(parts[0])[2], parse_typed(parts[1])[2]]
        I.x = parts[2:]
    elif op == 'freeze':
        I.a = [parse_typed(rest)[2]]
    elif op in ('unreachable', 'landingpad', 'resume', 'fence', 'cleanupret', 'catchret'):
        pass
    elif op in ('va_arg', 'atomicrmw', 'cmpxchg', 'insertelement', 'extractelement', 'shufflevector'):
        pass
    else:
        raise ValueError('op? ' + op + ' :: ' + s[:120])
    return I


# ----------------------------------------------------------------------------
# building
# ----------------------------------------------------------------------------
def compile_one(arg):
    src, extra, passes = arg
    cc = 'clang++' if src.endswith('.cpp') else 'clang'
    cmd = [cc, '-O0', '-g', '-Xclang', '-disable-O0-optnone',
           '-fno-discard-value-names', '-w', '-fno-strict-aliasing'] + DEFS + includes() + \
        list(extra) + ['-S', '-emit-llvm', '-o', '-', src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        return src, None, p.stderr.decode(errors='replace')
    q = subprocess.run(['opt' if shutil.which('opt') else '/usr/lib/llvm-18/bin/opt',
                        '-passes=' + passes, '-S'],
                       input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if q.returncode:
        return src, None, q.stderr.decode(errors='replace')
    return src, parse_module(q.stdout.decode(errors='replace'), src), None


class Program(object):
    """All analysed modules with a merged symbol table."""

    def __init__(self, srcs, extra=(), passes='mem2reg', jobs=8):
        self.modules = {}
        self.fn = {}            # external name -> Function
        self.local = {}         # (module, name) -> Function
        args = [(s, tuple(extra), passes) for s in srcs]
        if not args:
            raise AnalysisError('no sources')
        with ProcessPoolExecutor(jobs) as ex:
            for src, mod, err in ex.map(compile_one, args):
                if mod is None:
                    raise AnalysisError('cannot compile %s: %s' % (src, (err or '')[:2000]))
                self.modules[src] = mod
        for src, mod in self.modules.items():
            for nm, F in mod.functions.items():
                if F.internal:
                    self.local[(src, nm)] = F
                else:
                    self.fn.setdefault(nm, F)

    def resolve(self, F, callee):
        """callee value '@name' as seen from function F -> Function or None"""
        if not isinstance(callee, str) or not callee.startswith('@'):
            return None
        nm = callee[1:].strip('"')
        r = self.local.get((F.module, nm))
        if r is not None:
            return r
        return self.fn.get(nm)

    def get(self, name):
        if name in self.fn:
            return self.fn[name]
        c = [f for (s, n), f in self.local.items() if n == name]
        if len(c) == 1:
            return c[0]
        return None

    def need(self, name):
        f = self.get(name)
        if f is None:
            raise AnalysisError('anchor vanished: function %s' % name)
        return f

    def functions(self):
        for src, mod in self.modules.items():
            for nm, F in mod.functions.items():
                yield F

    def fields_of(self, F, sname):
        return self.modules[F.module].fields.get(sname)

    def global_text(self, F, g):
        return self.modules[F.module].globals.get(g)


# ----------------------------------------------------------------------------
# CFG utilities
# ----------------------------------------------------------------------------
def rpo(F):
    seen = set()
    out = []
    stack = [(F.order[0], iter(F.blocks[F.order[0]].succs))]
    seen.add(F.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(F.blocks[s].succs)))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    return out


def dominators(F):
    """block -> immediate dominator"""
    if F._dom is not None:
        return F._dom
    order = rpo(F)
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in F.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    F._dom = idom
    return idom


def dominates(F, a, b):
    idom = dominators(F)
    if b not in idom:
        return True
    while True:
        if a == b:
            return True
        p = idom[b]
        if p == b:
            return False
        b = p


def cstring(gtext):
    """Text of a private constant string global."""
    m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', gtext)
    if not m:
        if 'zeroinitializer' in gtext:
            return ''
        return None
    s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1))
    return s.rstrip('\0')
