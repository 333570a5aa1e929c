#!/usr/bin/env python3
"""mut.py FILE: try textual mutants of /repo in scratch copies and report which checks see them.
FILE defines M = [(name, [(path, old, new[, count])], 'C01 C02')]; checks whose name is prefixed with ! must stay quiet."""
import sys, os, subprocess, concurrent.futures as cf, queue, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
N = int(os.environ.get('N', '4'))
q = queue.Queue()
for i in range(N):
    q.put(i)


def run(m):
    name, subs, checks = m
    i = q.get()
    try:
        x = '/tmp/mutx%d' % i
        os.makedirs(x + '/src', exist_ok=True)
        os.makedirs(x + '/build', exist_ok=True)
        if not os.path.exists(x + '/build/driver'):
            subprocess.run(['cp', '-a', '/verif/build/driver', x + '/build/'])
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', x + '/src/'])
        for s in subs:
            if isinstance(s, str):
                r = subprocess.run(['patch', '-p1', '-s', '-d', x + '/src', '-i', s], capture_output=True, text=True)
                if r.returncode:
                    return name + ': PATCH FAILED ' + r.stdout
                continue
            p = x + '/src/' + s[0]
            t = open(p).read()
            if t.count(s[1]) < 1:
                return name + ': TEXT NOT FOUND in ' + s[0]
            t = t.replace(s[1], s[2], s[3] if len(s) > 3 else 1)
            open(p, 'w').write(t)
        env = dict(os.environ, KREPO=x + '/src', KBUILD=x + '/build')
        out = []
        for c in checks.split():
            quiet = c.startswith('!')
            c = c.lstrip('!')
            r = subprocess.run(['bash', '/verif/check.sh', c], capture_output=True, text=True, env=env)
            v = 'VIOLATION' in r.stdout
            key = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('    ')]
            st = 'ERR' if r.returncode == 2 else ('quiet' if not v else 'caught')
            good = (st == 'quiet') if quiet else (st == 'caught')
            out.append('%s %s%s %s' % (c, st, '' if good else '  <<<<<<', key[:3]))
            if st == 'ERR':
                out.append(" ".join(r.stdout.split())[-300:])
        return name + ':\n    ' + '\n    '.join(out)
    finally:
        q.put(i)


ms = [m for m in ns['M'] if not only or m[0] in only]
with cf.ThreadPoolExecutor(N) as ex:
    for r in ex.map(run, ms):
        print(r, flush=True)
