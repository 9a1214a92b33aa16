#!/usr/bin/env python3
"""Run the property's check against planted bugs, in a scratch copy. usage: check.py [ID...] [--seed N] [--all]"""
import os, subprocess, sys, json, shutil, time
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
ids = ids or sorted(os.listdir('/verif/seeded'))
seed = next((a[7:] for a in sys.argv if a.startswith('--seed=')), '1')
w = '/tmp/chk%d' % os.getpid()
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w)
    props = [prop]
    for a in sys.argv:
        if a.startswith('--props='): props = a[8:].split(',')
    for p in props:
        t = time.time()
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=seed, VERIF_TIER='quick')
        r = subprocess.run(['python3', 'run.py', p, '--tier', 'quick'], cwd=os.environ.get('VDIR', '/verif'), env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = r.returncode == 1 and any('property=' + p + ' ' in l for l in v)
        print('%-20s %s %s rc=%d %.0fs %s' % (i, p, 'CAUGHT' if ok else 'MISSED', r.returncode, time.time() - t, v[:1]), flush=True)
        if '-v' in sys.argv or (not ok and r.returncode not in (0,)): print(r.stdout[-3000:], r.stderr[-1500:])
    shutil.rmtree(w, ignore_errors=True)
