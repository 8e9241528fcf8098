#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from seeds.py, confirming each in a scratch copy of /repo: builds, tests pass, demo fails with it and passes without.
mkseeded.py [ids...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = '13a921f'
TESTS = [t.split('::')[0] for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]

DEMO_SH = '''#!/bin/bash
# run in /repo: exit 0, if the property is kept
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
g++ -std=c++14 -O1 -pthread -w -I include -I "$here" "$here/demo.cpp" -o "$t/demo" || exit 2
timeout 200 "$t/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def tests_pass(root, tmp):
    def one(t):
        r = sh('g++ -std=c++14 -O2 -g -w -pthread -I %s/include %s/test/%s.cpp -o %s/%s && timeout 100 %s/%s' % (root, root, t, tmp, t, tmp, t))
        return t, r.returncode, r.stderr[-300:]
    with ThreadPoolExecutor(4) as ex:
        return [x for x in ex.map(one, TESTS) if x[1]]

def make(s):
    sid, prop, edits, needs, what, demo = s
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        root = os.path.join(tmp, 'r')
        sh('git clone -q /repo ' + root)
        for f, old, new in edits:
            p = os.path.join(root, f)
            text = open(p).read()
            if text.count(old) != 1:
                return sid, 'old text occurs %d times in %s' % (text.count(old), f)
            line = text[:text.index(old)].count('\n') + 1
            n = old.count('\n') + 1
            bl = sh('git -C %s blame -s -L %d,+%d %s' % (root, line, n, f)).stdout.splitlines()
            mine = [b for b in bl if not b.lstrip('^').startswith(BASE)]
            if len(mine) == len(bl):
                return sid, 'no original line'
            text = text.replace(old, new)
            open(p, 'w').write(text)
        diff = sh('git -C %s diff' % root).stdout
        d = os.path.join(OUT, sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        if isinstance(demo, tuple):
            script = DEMO_SH[:DEMO_SH.index('g++')] + demo[1]
            for n, text in demo[2].items():
                open(os.path.join(d, n), 'w').write('// %s: %s\n%s' % (prop, what, text))
        else:
            script = DEMO_SH
            shutil.copy(os.path.join(HERE, 'seeds', 'd.h'), d)
            open(os.path.join(d, 'demo.cpp'), 'w').write('// %s: %s\n#include "d.h"\nint main()\n{\n\t%s\n\treturn 0;\n}\n' % (prop, what, demo))
        open(os.path.join(d, 'demo.sh'), 'w').write(script)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = tests_pass(root, tmp)
        w = sh(d + '/demo.sh', cwd=root)
        o = sh(d + '/demo.sh', cwd='/repo')
        problems = []
        if bad: problems.append('tests fail: %s' % [b[0] for b in bad])
        if w.returncode in (0, 2) and not isinstance(demo, tuple) or w.returncode == 0: problems.append('demo exits %d with the bug %s' % (w.returncode, w.stderr[:300]))
        if o.returncode: problems.append('demo exits %d without it: %s' % (o.returncode, (o.stdout + o.stderr)[-300:]))
        if problems:
            shutil.rmtree(d, ignore_errors=True)
        return sid, '; '.join(problems) or 'ok: ' + w.stdout.strip()[:100]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    todo = [s for s in seeds.S if not sys.argv[1:] or s[0] in sys.argv[1:]]
    with ThreadPoolExecutor(3) as ex:
        for sid, r in ex.map(make, todo):
            print(sid, r, flush=True)
