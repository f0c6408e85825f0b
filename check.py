#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [--tier quick|thorough]

exit 0: property held on everything analysed (known findings are printed)
exit 1: VIOLATION lines, one per construct that breaks the property
exit 3: the analysis could not be carried out (vanished anchor, build failure)
"""
import sys, os, time, json, importlib, traceback, argparse

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import irlib


class Finding(object):
    """key: stable identity (no line numbers); msg: text; where: file:line"""

    def __init__(self, key, msg, where='', detail=None):
        self.key = key
        self.msg = msg
        self.where = where
        self.detail = detail or {}


class Result(object):
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.explanation = ''
        self.assumptions = []
        self.instances = 0

    def add(self, key, msg, where='', **detail):
        for f in self.findings:
            if f.key == key:
                return
        self.findings.append(Finding(key, msg, where, detail))


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln.startswith('finding:'):
                continue
            parts = ln[len('finding:'):].strip().split(None, 2)
            if len(parts) == 3 and parts[0] == 'property=' + pid and parts[1].startswith('key='):
                out[parts[1][4:]] = parts[2]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.prop
    t0 = time.time()
    ev = os.environ.get('XRTM_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith('replay_%s_' % pid):
            os.remove(os.path.join(ev, f))
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        R = Result()
        mod.run(R, a.tier)
        if R.instances <= 0:
            raise irlib.AnalysisError('no instance of the rule was found: the anchors of this check have vanished')
    except Exception:
        traceback.print_exc(limit=-6)
        print('ANALYSIS-ERROR property=%s' % pid)
        return 3
    kn = known(pid)
    viol = [f for f in R.findings if f.key not in kn]
    listed = [f for f in R.findings if f.key in kn]
    for f in listed:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, f.key, f.where, kn[f.key]))
    for n, f in enumerate(viol):
        rp = os.path.join(ev, 'replay_%s_%d.json' % (pid, n))
        json.dump({'property': pid, 'key': f.key, 'where': f.where, 'message': f.msg,
                   'detail': f.detail}, open(rp, 'w'), indent=1, default=str)
        print('%s: %s' % (f.where, f.msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    cov = dict(R.coverage)
    cov['rule_instances'] = R.instances
    cov['known_findings_seen'] = len(listed)
    stale = [k for k in kn if k not in [f.key for f in listed]]
    if stale:
        cov['known_findings_not_seen'] = len(stale)
    rec = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
           'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
           'coverage': cov, 'wall_s': round(time.time() - t0, 2),
           'assumptions': R.assumptions, 'violations': len(viol)}
    rec['explanation'] = R.explanation
    rec['coverage']['explanation'] = R.explanation
    json.dump(rec, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d instances analysed, %d violation(s), %d known finding(s), %.1f s' %
          (pid, R.instances, len(viol), len(listed), time.time() - t0))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
