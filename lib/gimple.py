"""Forward evaluation of the GIMPLE that gfortran makes of the Fortran bindings (-fdump-tree-gimple):
for every procedure its signature, the calls with their arguments as terms over the dummy arguments,
and the stores through dummy arguments.

terms  ('p', name)            address of dummy argument
       ('ld', t)              value loaded from t
       ('fld', name, field)   member of the descriptor of dummy argument name
       ('addr', x)            address of a local variable
       ('call', k)            result of call k
       ('cast', type, t), ('c', k), ('op', text, terms...)
       None                   unknown
"""
import os, re, subprocess, tempfile, shutil
import irlib
from irlib import AnalysisError

FFLAGS = ['-fno-second-underscore', '-ffixed-line-length-none', '-ffree-line-length-none', '-w', '-O0']


class Proc(object):
    """name, ret (type or 'void'), params [(name, type)], stmts, file"""
    pass


class Call(object):
    __slots__ = ('k', 'name', 'args', 'node')


def compile_all(files, keep=None):
    """dumps of Fortran sources (in the given order, modules are found in the scratch folder)"""
    d = tempfile.mkdtemp(prefix='c18_', dir='/tmp')
    out = {}
    try:
        for f in files:
            src = os.path.join(irlib.REPO, f)
            if not os.path.exists(src):
                raise AnalysisError('anchor vanished: ' + f)
            g = os.path.join(d, 'dump.gim')
            p = subprocess.run(['gfortran', '-c'] + FFLAGS + ['-fdump-tree-gimple=' + g, '-I', os.path.join(irlib.REPO, 'interfaces'),
                                '-J', d, src, '-o', os.path.join(d, 'o.o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise AnalysisError('cannot compile %s: %s' % (f, p.stdout.decode(errors='replace')[:600]))
            out[f] = open(g).read()
        if keep:
            keep(d)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def split_args(s):
    out, cur, d = [], '', 0
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


SIG = re.compile(r'^([A-Za-z_][\w ()=\[\]:.*&<>+-]*?) ?(\b[A-Za-z_]\w*) \((.*)\)$')


def procs(text, file):
    out = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = SIG.match(ln) if ln and not ln.startswith((' ', '_', '{', '}')) else None
        if m and i + 1 < len(lines) and lines[i + 1] == '{':
            P = Proc()
            P.file, P.name, P.ret = file, m.group(2), m.group(1).strip()
            P.params = []
            for a in split_args(m.group(3)):
                if a == 'void':
                    continue
                t, n = a.rsplit(' ', 1)
                P.params.append((n, t.replace(' restrict', '').strip()))
            j = i + 2
            body = []
            while lines[j] != '}':
                body.append(lines[j].strip())
                j += 1
            P.stmts = statements(body)
            out.append(P)
            i = j
        i += 1
    return out


def statements(body):
    out = []
    cur = ''
    for ln in body:
        if ln in ('{', '}', '') or re.match(r'^(try|finally|catch)\b', ln):
            continue
        cur = (cur + ' ' + ln).strip()
        if cur.endswith((';', ':')) or re.match(r'^<D\.\d+>:$', cur):
            out.append(cur.rstrip(';').strip())
            cur = ''
    return out


NAME = r'[A-Za-z_][\w.]*'


class Eval(object):
    def __init__(self, P):
        self.P = P
        self.env = {}
        self.params = dict(P.params)
        self.calls = []
        self.stores = []          # (address term, value term, statement number)
        self.returns = []
        self.succ = {}
        self.run()

    def atom(self, s):
        s = s.strip()
        m = re.match(r'^\((.*?)\) (\S+)$', s)
        if m and not s.startswith('(*'):
            inner = self.atom(m.group(2))
            return ('cast', m.group(1), inner) if inner is not None else None
        if re.match(r'^-?\d+$', s):
            return ('c', int(s))
        if re.match(r'^-?[\d.]+e?[+-]?\d*$', s):
            return ('c', float(s))
        if s.startswith('&'):
            x = s[1:]
            return ('addr', x)
        if s.startswith('*'):
            t = self.atom(s[1:])
            if t is None:
                return None
            if t[0] == 'addr':
                return self.env.get(t[1])
            return ('ld', t)
        m = re.match(r'^(%s)->(.*)$' % NAME, s)
        if m:
            if m.group(1) in self.params:
                return ('fld', m.group(1), m.group(2))
            return None
        if s in self.env:
            return self.env[s]
        if s in self.params:
            return ('p', s)
        return None

    def rhs(self, s):
        m = re.match(r'^(%s) \((.*)\)$' % NAME, s)
        if m and not s.startswith('('):
            C = Call()
            C.k, C.name = len(self.calls), m.group(1)
            C.args = [self.atom(a) for a in split_args(m.group(2))]
            C.node = self.cur
            self.calls.append(C)
            return ('call', C.k)
        m = re.match(r'^(\S+) ([-+*/<>=!&|^%]+) (\S+)$', s)
        if m:
            a, b = self.atom(m.group(1)), self.atom(m.group(3))
            return ('op', m.group(2), a, b) if a is not None and b is not None else None
        return self.atom(s)

    def run(self):
        S = self.P.stmts
        lab = {}
        for i, s in enumerate(S):
            if re.match(r'^<D\.\d+>:$', s) or re.match(r'^\w[\w.]*:$', s):
                lab[s[:-1]] = i
        assigned = {}
        for i, s in enumerate(S):
            self.cur = i
            self.succ[i] = [i + 1]
            m = re.match(r'^if \((.*)\) goto (\S+); else goto (\S+)$', s)
            if m:
                self.succ[i] = [lab[m.group(2).rstrip(';')], lab[m.group(3).rstrip(';')]]
                continue
            m = re.match(r'^goto (\S+)$', s)
            if m:
                self.succ[i] = [lab[m.group(1)]]
                continue
            m = re.match(r'^switch \((.*)\) <(.*)>$', s)
            if m:
                self.succ[i] = [lab[x] for x in re.findall(r': (<D\.\d+>)', m.group(2))]
                continue
            m = re.match(r'^return ?(.*)$', s)
            if m:
                self.succ[i] = [len(S)]
                self.returns.append(self.atom(m.group(1)) if m.group(1) else ('void',))
                continue
            m = re.match(r'^(\*?[\w.]+(?:->)?[\w.\[\]]*) = (.*)$', s)
            if m:
                l, r = m.group(1), m.group(2)
                if r.startswith('{CLOBBER'):
                    continue
                t = self.rhs(r)
                if l.startswith('*'):
                    a = self.atom(l[1:])
                    self.stores.append((a, t, i))
                    continue
                if '->' in l:
                    self.stores.append((('fld',) + tuple(l.split('->', 1)), t, i))
                    continue
                if l in assigned and assigned[l] != t:
                    t = None
                assigned[l] = t
                self.env[l] = t
                continue
            if re.match(r'^%s \(.*\)$' % NAME, s):
                self.rhs(s)
        self.n = len(S)

    def always(self, nodes):
        """does every path from the entry to the exit pass one of the nodes?"""
        seen, st = set(), [0]
        nodes = set(nodes)
        while st:
            i = st.pop()
            if i in seen or i in nodes:
                continue
            if i >= self.n:
                return False
            seen.add(i)
            st += self.succ[i]
        return True

    def array(self, t):
        """dummy array a term denotes as a whole, or None; (name, descriptor of the packed copy)"""
        if t is None:
            return None
        while t[0] == 'cast' and '*' in t[1]:
            t = t[2]
            if t is None:
                return None
        if t[0] == 'fld' and t[2] == 'data':
            return t[1], None
        if t[0] == 'p':
            return t[1], None
        if t[0] == 'call':
            C = self.calls[t[1]]
            if C.name == '_gfortran_internal_pack' and C.args and C.args[0] and C.args[0][0] == 'addr':
                D = C.args[0][1]
                b = self.env.get(D + '.data')
                if b and b[0] == 'fld' and b[2] == 'data':
                    nm = b[1]
                    if not self.whole(D, nm):
                        return None
                    return nm, D
        return None

    def whole(self, D, nm):
        """descriptor D describes all of dummy argument nm in the same order"""
        m = re.search(r'array0?(\d+)_', self.params[nm])
        if not m:
            return False
        for i in range(int(m.group(1))):
            ub = self.env.get('%s.dim[%d].ubound' % (D, i))
            want = ('op', '+', ('op', '-', ('fld', nm, 'dim[%d].ubound' % i), ('fld', nm, 'dim[%d].lbound' % i)), ('c', 1))
            if ub != want or self.env.get('%s.dim[%d].lbound' % (D, i)) != ('c', 1):
                return False
            st = self.env.get('%s.dim[%d].stride' % (D, i))
            if i == 0:
                # stride 0 of a dummy means 1: the compiler replaces it
                if st is not None and st != ('fld', nm, 'dim[0].stride'):
                    return False
            elif st != ('fld', nm, 'dim[%d].stride' % i):
                return False
        return True
