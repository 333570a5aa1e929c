#!/usr/bin/env python3
"""check.py <ID>: extract facts of /repo's working tree if stale, run the rule
of one property, write evidence/<ID>.json, report."""
import os, sys, json, subprocess, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'rules'))
KNOWN = os.path.join(V, 'known-findings.txt')


def known():
    """known: property=ID key=<key> :: text"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property='):
                head, _, text = l.partition(' :: ')
                pid = head.split('property=')[1].split()[0]
                key = head.split(' key=', 1)[1].strip()
                out.setdefault(pid, {})[key] = text
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--noextract' not in sys.argv:
        r = subprocess.run(['bash', os.path.join(HERE, 'extract.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print('check %s: the tree could not be analysed' % pid)
            return 2
    import facts as F
    import lib
    import registry
    P = F.load()
    ctx = lib.Ctx(pid, P, tier, seed)
    try:
        registry.RULES[pid](ctx)
    except lib.Missing as e:
        ctx.missing(str(e))
    except Exception as e:
        traceback.print_exc()
        ctx.ob('rule could not be evaluated', False, '', '%s: %s' % (type(e).__name__, e))
    kn = known().get(pid, {})
    bad = [(k, v) for k, v in ctx.obls.items() if not v[0]]
    new = [(k, v) for k, v in bad if k not in kn]
    old = [(k, v) for k, v in bad if k in kn]
    kb = os.environ.get('KBUILD')
    rd = os.path.join(kb or os.path.join(V, 'build'), 'replay')
    os.makedirs(rd, exist_ok=True)
    ed = os.path.join(kb or V, 'evidence')
    os.makedirs(ed, exist_ok=True)
    for k, v in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[k] or v[2], v[1]))
    rp = os.path.join(rd, pid + '.txt')
    if new:
        with open(rp, 'w') as f:
            f.write('property %s: %d violated obligation(s)\nrules applied:\n' % (pid, len(new)))
            for x in ctx.rules:
                f.write('  - %s\n' % x)
            for k, v in new:
                f.write('\nobligation %s\n  at %s\n  %s\n' % (k, v[1], v[2]))
    sites = sorted(set('%s|%s|%s' % (lib.short(f), lib.short(n), lb) for lb, f, n, l in ctx.sites))
    cov = {
        'explanation': ' '.join(ctx.rules),
        'obligations': len(ctx.obls),
        'discharged': len(ctx.obls) - len(bad),
        'functions_in_program': len(P.fns),
        'functions_interpreted': len(ctx.analysed),
        'call_sites_checked': len(sites),
        'sample_obligations': list(ctx.obls)[:40],
        'sink_sites': sites[:60],
        'counters': dict(ctx.stats),
    }
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': cov, 'wall_s': round(time.time() - t0, 2),
        'assumptions': registry.ASSUME + registry.ASSUMES.get(pid, []),
        'violations': len(new),
    }
    tmp = os.path.join(ed, pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ed, pid + '.json'))
    print('%s: %d obligations, %d failed, %d known, %.1fs' % (pid, len(ctx.obls), len(new), len(old), time.time() - t0))
    if new:
        for k, v in new[:20]:
            print('  %s\n    %s\n    %s' % (k, v[1], v[2][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
