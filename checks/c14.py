"""C14: every public function signals failure with the documented code.

For each function of the public C interfaces the set of constants that can reach its
return (through phis, selects, casts and the results of called functions) is computed.
A failing int function may return only XRTM_INT_ERROR, a failing double function only
XRTM_DBL_ERROR, never another negative constant."""
import os, re
import irlib, errs
from irlib import AnalysisError, rpo
from common import prog, where, rel, public_api, fd_api
from errs import consts

LEVEL = 'other'
INT_ERROR = -2147483647
# name/index/mask look-ups are table searches whose "not found" answer is -1 (the bindings test for it)
LOOKUP = re.compile(r'_(name|index|mask|value|name_list)_to_\w+$|_mask_to_name_list$')


def dval(v):
    t = str(v[1])
    if t.upper().startswith('0X'):
        import struct
        return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
    return float(t)


def run(R, tier):
    P = prog('src', 'misc')
    api = public_api(P)
    fd = fd_api(P)
    if len(fd) < 20:
        raise AnalysisError('only %d functions of the finite difference interface' % len(fd))
    nint = ndbl = nret = nerr = nlook = 0
    for F in api + fd:
        if LOOKUP.search(F.name):
            nlook += 1
            continue
        ret = F.ret.strip()
        if ret.endswith('i32'):
            nint += 1
        elif ret.endswith('double'):
            ndbl += 1
        else:
            continue
        for v, fn, ln in consts(P, F, frozenset()):
            nret += 1
            if isinstance(v, int):
                x = v
            else:
                x = dval(v)
            if x < 0:
                nerr += 1
                good = (x == INT_ERROR) if ret.endswith('i32') else (x < -1.7976931348623156e308)
                if not good:
                    R.add('code:%s:%s:%s' % (F.name, fn, x if isinstance(x, int) else '%.0f' % x),
                          '%s() can return %s (from %s()), not the documented error code %s' %
                          (F.name, x, fn, 'XRTM_INT_ERROR' if ret.endswith('i32') else 'XRTM_DBL_ERROR'),
                          '%s:%d' % (rel(F.module), ln), function=F.name, source=fn)
    if nint < 90 or ndbl < 10 or nerr < 200:
        raise AnalysisError('instances vanished: %d int, %d double functions, %d error constants' % (nint, ndbl, nerr))
    R.instances = nerr
    R.coverage.update(int_functions=nint, double_functions=ndbl, lookup_functions_excepted=nlook, return_constants=nret, error_constants=nerr)
    R.explanation = ('Constant propagation to the return of every public function, through called functions; all '
                     'negative constants must be the documented error code of the result type.')
    R.assumptions = ['error results are compile-time constants at their origin']
