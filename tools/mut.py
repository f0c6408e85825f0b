#!/usr/bin/env python3
"""Development aid: run a check on variants of /repo in scratch copies.

mut.py CHECK FILE.mut   FILE.mut holds blocks:
  === name [expect 0|1]
  --- path
  <<< old text
  >>> new text
  (blocks may repeat --- / <<< / >>>; '<<< ' text and '>>> ' text may span lines until the next marker)
"""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
chk, fn = sys.argv[1], sys.argv[2]
only = sys.argv[3:]
muts = []
cur = None
for ln in open(fn).read().split('\n'):
    if ln.startswith('=== '):
        m = re.match(r'=== (\S+)(?: expect (\d))?', ln)
        muts.append((m.group(1), m.group(2), []))
        cur = None
    elif ln.startswith('--- '):
        muts[-1][2].append([ln[4:].strip(), '', ''])
    elif ln.startswith('<<<'):
        if muts[-1][2][-1][1]:
            muts[-1][2].append([muts[-1][2][-1][0], '', ''])
        cur = 1
        muts[-1][2][-1][1] = ln[4:]
    elif ln.startswith('>>>'):
        cur = 2
        muts[-1][2][-1][2] = ln[4:]
    elif cur:
        muts[-1][2][-1][cur] += '\n' + ln


def one(m):
    name, exp, eds = m
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for p, a, b in eds:
            a, b = a.rstrip('\n'), b.rstrip('\n')
            q = os.path.join(d, p)
            s = open(q).read()
            if s.count(a) < 1:
                return name, 'NOMATCH', repr(a)
            s = s.replace(a, b, 1)
            open(q, 'w').write(s)
        r = subprocess.run(['bash', '-c', 'cd %s && make -s >/dev/null 2>/tmp/mk_err_%s; true' % (d, name)]) if False else None
        env = dict(os.environ, XRTM_REPO=d, XRTM_EVID=d + '/ev_')
        o = subprocess.run(['python3', '/verif/check.py', chk], env=env, capture_output=True, text=True)
        lines = [l for l in (o.stdout + o.stderr).split('\n') if l and not l.startswith('VIOLATION') and not l.startswith('KNOWN')]
        ok = '' if exp is None else ('ok ' if str(o.returncode) == exp else 'UNEXPECTED ')
        return name, ok + 'exit %d' % o.returncode, '\n      '.join(l[:260] for l in lines[-6:])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, [m for m in muts if not only or m[0] in only]):
        print('%-24s %s\n      %s' % r, flush=True)
