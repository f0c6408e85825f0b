"""C12: model instances are independent - the library keeps no mutable state of its own.

For every function reachable from the public interfaces, every memory object with static
storage duration (file scope or function static) must never be written: not by a store
whose address derives from it, not by a callee that writes through a parameter the object's
address is passed for, not by a store through a pointer kept in it.  Addresses of static
objects must not be stored into memory either (except read-only objects).  C library
functions that keep hidden static state must not be called."""
import re
import irlib
from irlib import AnalysisError
from common import prog, where, callee_name, public_api, fd_api, reachable, rel

LEVEL = 'other'
# C library functions with process-wide hidden state
HIDDEN = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'erand48', 'lrand48', 'srand48', 'localtime',
          'gmtime', 'ctime', 'asctime', 'setlocale', 'putenv', 'setenv', 'getenv', 'strerror', 'tmpnam', 'signgam',
          'lgamma', 'fesetround', 'feenableexcept', 'signal', 'atexit', 'chdir', 'umask', 'hsearch', 'getopt',
          'freopen', 'setvbuf', 'setbuf', 'mallopt'}
# external routines: which pointer arguments they only read
READS = re.compile(r'^(fprintf|printf|vfprintf|strlen|strcmp|strncmp|strcasecmp|strncasecmp|strchr|puts|fputs|memcmp|free|exit|llvm\.dbg.*|llvm\.lifetime.*)$')
EXT_W = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'snprintf': [0],
         'sprintf': [0], 'realloc': [0], '_setjmp': [0], 'strtok_r': [0, 2], 'vsnprintf': [0], 'llvm.memcpy.p0.p0.i64': [0],
         'llvm.memset.p0.i64': [0], 'llvm.memmove.p0.p0.i64': [0]}


class Writes(object):
    """per function: parameters (and globals) whose memory may be written or leaked"""

    def __init__(self, P, fns):
        self.P = P
        self.w = {id(F): set() for F in P.functions()}     # (root, kind): kind 'w' written, 'k' kept
        self.site = {}
        fns = list(P.functions())
        self.roots = {}
        for F in fns:
            self.roots[id(F)] = self.root_map(F)
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            if n > 50:
                raise AnalysisError('write summaries diverged')
            for F in fns:
                if self.step(F):
                    ch = True

    def rootsof(self, rm, v):
        while isinstance(v, tuple) and v and v[0] == 'gepc':
            v = v[2]
        if isinstance(v, str):
            if v[0] == '@':
                return {(v, 0)}
            return rm.get(v, set())
        return set()

    def root_map(self, F):
        rm = {}
        for k, p in enumerate(F.params):
            if F.ptypes[k] == 'ptr':
                rm[p] = {(k, 0)}
        ch = True
        while ch:
            ch = False
            for I in F.insts():
                if I.res is None:
                    continue
                if I.op in ('getelementptr', 'bitcast', 'freeze'):
                    s = self.rootsof(rm, I.a[0])
                elif I.op == 'load' and I.ty == 'ptr':
                    s = {(r, 1) for r, l in self.rootsof(rm, I.a[0])}
                elif I.op in ('phi', 'select'):
                    s = set()
                    for x in (I.a if I.op == 'phi' else I.a[1:]):
                        s |= self.rootsof(rm, x)
                else:
                    continue
                if not s <= rm.get(I.res, set()):
                    rm[I.res] = rm.get(I.res, set()) | s
                    ch = True
        return rm

    def add(self, F, r, kind, I):
        if isinstance(r[0], str) and self.P.resolve(F, r[0]) is not None:
            return False
        if (r, kind) not in self.w[id(F)]:
            self.w[id(F)].add((r, kind))
            self.site[(id(F), r, kind)] = I
            return True
        return False

    def step(self, F):
        rm = self.roots[id(F)]
        ch = False
        for I in F.insts():
            if I.op == 'store':
                for r in self.rootsof(rm, I.a[1]):
                    ch |= self.add(F, r, 'w', I)
            elif I.op in ('call', 'invoke'):
                G = self.P.resolve(F, I.x['callee'])
                if G is not None:
                    for ((k, lk), kind) in list(self.w[id(G)]):
                        if isinstance(k, int) and k < len(I.a):
                            if lk == 0 and k in I.x['byval']:
                                continue
                            for (r, l) in self.rootsof(rm, I.a[k]):
                                ch |= self.add(F, (r, max(l, lk)), kind, I)
                else:
                    n = callee_name(I)
                    if n is None or READS.match(n):
                        continue
                    ks = EXT_W.get(n)
                    if ks is None:
                        ks = range(len(I.a)) if n.endswith('_') else []
                    for k in ks:
                        if k < len(I.a):
                            for r in self.rootsof(rm, I.a[k]):
                                ch |= self.add(F, r, 'w', I)
        return ch


def run(R, tier):
    P = prog('src', 'misc')
    scope = reachable(P, public_api(P) + fd_api(P))
    if len(scope) < 500:
        raise AnalysisError('only %d functions reachable' % len(scope))
    W = Writes(P, scope)
    objs = {}
    nacc = nhid = 0
    for F in scope:
        for I in F.insts():
            ops = list(I.a)
            for x in ops:
                while isinstance(x, tuple) and x and x[0] == 'gepc':
                    x = x[2]
                if isinstance(x, str) and x[0] == '@' and P.resolve(F, x) is None:
                    t = P.global_text(F, x)
                    if t is None:
                        continue
                    head = re.split(r'[\[{"]', t)[0]
                    if re.search(r'\bconstant\b', head) or x in ('@stderr', '@stdout', '@stdin'):
                        continue
                    nacc += 1
                    objs.setdefault((x, 'internal' in head and F.module or ''), F)
            if I.op in ('call', 'invoke'):
                n = callee_name(I)
                if n and P.resolve(F, I.x['callee']) is None:
                    nhid += 1
                    if n in HIDDEN:
                        R.add('hidden:%s:%s' % (F.name, n), '%s() calls %s(), which keeps state shared by the whole process'
                              % (F.name, n), where(F, I))
        for ((r, lev), kind) in W.w[id(F)]:
            if not isinstance(r, str):
                continue
            t = P.global_text(F, r)
            if t is None:
                continue
            head = re.split(r'[\[{"]', t)[0]
            if re.search(r'\bconstant\b', head) or r in ('@stderr', '@stdout'):
                continue
            if lev and '@' not in t and not any((r, 0) in [x[0] for x in W.w[id(G)]] for G in scope):
                continue        # the object holds no pointer: nothing can be reached through it
            I = W.site[(id(F), (r, lev), kind)]
            R.add('static:%s' % r[1:], '%s() writes the static object "%s", which all instances share' % (F.name, r[1:]),
                  where(F, I), object=r[1:], function=F.name)
    # globals defined in the analysed modules that are reachable only through other globals
    R.instances = nacc + nhid
    R.coverage.update(functions_in_scope=len(scope), static_objects=len(objs), accesses_of_static_objects=nacc,
                      external_calls=nhid, objects=sorted({k[0][1:] for k in objs}))
    R.explanation = ('Effect analysis: interprocedural may-write summaries per parameter and static object; '
                     'no function reachable from the public interface may write static storage.')
    R.assumptions = ['calls through function pointers write only what their arguments point to']
