#!/usr/bin/env python3
"""mkseed.py FILE: write seeded/<id>/ from S = [(id, property, [(path, old, new)], needs, breaks, demo python body)] in FILE."""
import sys, os, difflib, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
HEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from p11 import *
os.environ["RUST_BACKTRACE"] = "0"
FAIL = []
def want(cond, what):
    if not cond:
        FAIL.append(what); print("FAIL:", what)
'''
TAIL = '''
print("broken" if FAIL else "ok")
sys.stdout.flush()
os._exit(1 if FAIL else 0)
'''
for (sid, pid, subs, needs, breaks, demo) in g['S']:
    if only and sid not in only:
        continue
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    files = {}
    for (p, old, new) in subs:
        t = files.get(p) or open('/repo/' + p).read()
        assert t.count(old) == 1, (sid, p, t.count(old), old)
        files[p] = t.replace(old, new)
    out = ''
    for p, t in files.items():
        a = open('/repo/' + p).read()
        out += ''.join(difflib.unified_diff(a.splitlines(1), t.splitlines(1), 'a/' + p, 'b/' + p))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(HEAD + demo.strip('\n') + '\n' + TAIL)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(V + '/tools/p11.py', d + '/p11.py')
    json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', sid)
