"""C10: temporary storage is released on every path.

lib/own.py over every function that the C interface can reach and the helpers of the Fortran bindings:
 leak      memory the function obtained is still owned by it at a return
 lost      it is obtained again while it is still owned
 dangling  it is used or released after it was released
Memory handed on (stored into something of the caller, returned, given to a function that keeps it)
is the business of its new owner (C09 for the instance).
"""
import own
import replace
from common import prog, public_api, fd_api, reachable, where
from irlib import AnalysisError

LEVEL = 'other'
TEXT = {'leak': 'memory obtained from %s() at %s is not released when %s() returns',
        'lost': 'memory obtained from %s() at %s is still owned when %s() obtains it again',
        'dangling': 'memory obtained from %s() at %s is used or released after its release in %s()',
        'again': 'what %s() at %s placed into a local object is released twice in %s()'}


def run(R, tier):
    P = prog('src', 'misc', 'interfaces')
    roots = public_api(P) + fd_api(P)
    roots += [F for F in P.functions() if '_util' in F.module and '/interfaces/' in F.module]
    fs = [F for F in reachable(P, roots)]
    O = own.Own(P)
    R.explanation = ('forward ownership analysis of every function the C interface reaches: the condition under which what it '
                     'allocated is still its own, from the allocation to each return, with the functions it calls summarised '
                     '(release, keep, hand over, place into an object of the caller)')
    R.assumptions = ['allocation itself does not fail', 'facts about members of the instance do not change while a function that tests them twice runs',
                     'what is stored into memory of the caller or of the instance belongs to that from then on (C09)',
                     'external routines neither keep nor release what they are given']
    cov = dict(functions=0, sites=0, releases=0, returns=0, handed_over=0)
    for F in fs:
        S = O.summary(F)
        cov['functions'] += 1
        if S.get('nsites'):
            cov['returns'] += sum(1 for I in F.insts() if I.op == 'ret')
            cov['sites'] += S['nsites']
        cov['handed_over'] += 1 if S['fresh'] != 0 else 0
        num = {}
        for s in S.get('sites', ()):
            k = (s.kind, s.what)
            num[s] = num.setdefault(k, 0)
            num[k] += 1
        seen = set()
        for w, s, I, c in S['viol']:
            name = s.what if s.kind != 'P' else 'argument %s' % s.root.lstrip('%')
            key = '%s:%s:%s:%d' % (w, F.name, name, num.get(s, 0))
            if key in seen:
                continue
            seen.add(key)
            if s.kind == 'P':
                if w != 'dangling':
                    continue
                R.add(key, 'what %s() got as argument %s is used or released after its release' % (F.name, s.root.lstrip('%')), where(F, I), rule=w, when=show(O, c))
            else:
                R.add(key, TEXT[w] % (s.what, where(F, s.I), F.name), where(F, s.I if w == 'leak' else I), rule=w, at=where(F, I), when=show(O, c))
    cov['releases'] = O.nfree
    R.instances = cov['sites']
    if cov['sites'] < 150 or cov['functions'] < 600 or O.nfree < 250:
        raise AnalysisError('only %d allocation sites, %d releases in %d functions' % (cov['sites'], O.nfree, cov['functions']))
    cov['replacements_of_kept_memory'] = replace.check(R, O, fs, replace.PAIRS)
    R.coverage = cov


def show(O, c):
    def t(x):
        if isinstance(x, tuple):
            return '(' + ' '.join(t(y) for y in x) + ')'
        return str(x)
    return ', '.join(('' if v else 'not ') + t(k) for k, v in list(O.b.one(c).items())[:8])
