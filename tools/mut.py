#!/usr/bin/env python3
"""mut.py FILE: applies each mutation of FILE (blocks '@@ path | checks | units', old, '==', new) to a scratch copy and runs the checks."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, B = os.environ.get('MR', '/tmp/mr'), os.environ.get('MB', '/tmp/mb')
subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'build', os.environ.get('MS', '/repo') + '/', R + '/'], check=True)
os.makedirs(B, exist_ok=True)
for f in os.listdir(V + '/build'):
    if f.startswith('xtract-') and not os.path.exists(B + '/' + f):
        shutil.copy(V + '/build/' + f, B)
txt = open(sys.argv[1]).read()
sel = sys.argv[2:]
for k, blk in enumerate(txt.split('@@ ')[1:]):
    head, body = blk.split('\n', 1)
    path, checks, units = [x.strip() for x in head.split('|')]
    if sel and str(k) not in sel:
        continue
    saved, bad = {}, False
    edits = (path + '\n' + body).split('\n&& ')
    for e in edits:
        f, e = e.split('\n', 1)
        old, new = e.rstrip('\n').split('\n==\n') if '\n==\n' in e.rstrip('\n') else (e.rstrip('\n').split('\n==')[0], '')
        p = os.path.join(R, f.strip())
        src = open(p).read()
        saved.setdefault(p, src)
        if src.count(old) < 1:
            print(k, 'NO MATCH', f, old[:60])
            bad = True
            break
        open(p, 'w').write(src.replace(old, new, 1))
    if bad:
        for p, src in saved.items():
            open(p, 'w').write(src)
        continue
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_UNITS=units)
    for c in checks.split(','):
        r = subprocess.run([sys.executable, V + '/run.py', c], env=env, capture_output=True, text=True)
        o = [l for l in r.stdout.split('\n') if l and 'path:' not in l]
        print(k, path, c, 'rc=%d' % r.returncode, '|', new.strip().replace('\n', ' / ')[:70], '|', (o[0] if o else r.stderr[-300:])[:170], flush=True)
    if not os.environ.get('KEEP'):
        for p, src in saved.items():
            open(p, 'w').write(src)
