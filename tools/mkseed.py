#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: takes the uncommitted change of /repo as the patch and demo.c from stdin's path; helper used while planting."""
import sys, os, json, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, democ, needs, breaks = sys.argv[1:6]
extra = sys.argv[6] if len(sys.argv) > 6 else ''
d = os.path.join(HERE, 'seeded', sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout
assert diff.strip(), 'no change in /repo'
open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
shutil.copy(democ, os.path.join(d, 'demo.c'))
shutil.copy(os.path.join(HERE, 'tools', 'demo_common.h'), os.path.join(d, 'demo_common.h'))
t = open(os.path.join(HERE, 'tools', 'demo_template.sh')).read().replace('@EXTRA@', extra)
if 'int_cpp.h' in open(democ).read():
    t = t.replace('gcc -O1', 'g++ -x c++ -fpermissive -O1').replace('demo.c" -o', 'demo.c" -x none -o').replace('-L"$T/misc"', '-L"$T/misc" -L"$T/interfaces"').replace('-lxrtm -l', '-lxrtm_interfaces -lxrtm -l')
open(os.path.join(d, 'demo.sh'), 'w').write(t)
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
