#!/usr/bin/env python3
"""catch.py [ids...]: runs the check of its property (or those given by CHECKS) against each planted bug, in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='catch_', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
        subprocess.run(['git', '-C', tmp + '/r', 'apply', d + '/patch.diff'], check=True)
        for p in os.environ.get('CHECKS', prop).split():
            r = subprocess.run([sys.executable, V + '/vf/check.py', p], env=dict(os.environ, VF_REPO=tmp + '/r'), capture_output=True, text=True)
            ok = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
            print(i, p, 'caught' if ok else 'MISSED (exit %d)' % r.returncode, r.stdout.strip().splitlines()[-2:-1] if ok else (r.stdout + r.stderr)[-400:], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
