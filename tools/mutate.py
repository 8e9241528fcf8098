#!/usr/bin/env python3
"""mutate.py WORKERS SAMPLE SEED OUT [FILE...]: plants small changes into copies of
/repo, keeps those which compile and pass the repository's tests, and runs the
checks (quick, without the models) until one of them notices.  What nothing
notices is to be looked at: it changes no behaviour, or a check is too weak."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'krosh.h': 'C09 C10 C08 C07 C15 C11 C14 C18 C13 C20 C12',
    'atof.h': 'C09 C11 C18 C13 C08 C07 C12 C20 C14 C19',
    'default_fallback.h': 'C18 C08 C20 C13 C12 C07 C19 C11',
    'huge_val.h': 'C18 C08 C13 C19',
    'fraction.h': 'C07 C11 C15 C08 C14',
    'static_pow.h': 'C07 C01 C11 C14 C19 C15',
    'diy_fp.h': 'C16 C07 C11 C01 C05 C17 C08 C03 C02 C20',
    'bit_ops.h': 'C16 C07 C11 C01 C17 C08 C05',
    'cached_power.h': 'C16 C07 C01 C08 C14 C05',
    'grisu.h': 'C01 C05 C03 C02 C04 C06 C13',
    'k_comp.h': 'C01 C05 C03 C02 C04 C20',
    'prettify.h': 'C03 C01 C04 C06 C05 C13 C02',
    'ftoa.h': 'C06 C04 C03 C01 C13 C05 C02 C12 C20',
    'memwrap.h': 'C13 C03 C04',
    'print.h': 'C17 C19',
    'type_punning_cast.h': 'C17 C16 C01 C03 C19',
    'integer_of_size.h': 'C16 C01 C07 C19',
    'powers_ten.h': 'C16 C01 C07 C19',
    'powers_ten_double.h': 'C16 C01 C07', 'powers_ten_single.h': 'C16 C01 C07',
}
SWAPS = [(r'(?<![<>=\-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![<>=\-])>(?![>=])', '>='), (r'(?<!>)>=', '>'), (r'==', '!='), (r'!=', '=='),
         (r'(?<![+e])\+(?![+=])', '-'), (r'(?<![-e(,=<>?:] )(?<![-e(,=])-(?![-=>])', '+'), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'--', '++'),
         (r'&&', '||'), (r'\|\|', '&&'), (r'<<(?!=)', '>>'), (r'>>(?!=)', '<<'), (r'(?<!&)&(?![&=])', '|'), (r'\|(?![|=])', '&'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?!=)', ''), (r'\bmin\b', 'max'), (r'\bmax\b', 'min')]


def mutants(root, files):
    out = []
    for f in files:
        path = 'include/floaxie/' + f
        lines = open(os.path.join(root, path)).read().split('\n')
        comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('/*'):
                comment = True
            if comment:
                comment = '*/' not in s
                continue
            if not s or s.startswith(('//', '#', 'template', 'namespace', 'typedef', 'typename', '{', '}', '*')) or 'static_assert' in s:
                continue
            code = l.split('//')[0]
            if f.startswith('powers_ten_'):
                for m in re.finditer(r'0x[0-9a-f]+', code):
                    b = 1 << random.randrange(4 * (len(m.group()) - 2))
                    out.append((path, i, code[:m.start()] + '0x%x' % (int(m.group(), 16) ^ b) + code[m.end():]))
                continue
            for pat, new in SWAPS:
                for m in re.finditer(pat, code):
                    out.append((path, i, code[:m.start()] + new + code[m.end():]))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                for d in (1, -1):
                    out.append((path, i, code[:m.start()] + str(int(m.group()) + d) + code[m.end():]))
            if s.endswith(';') and not re.match(r'(const|constexpr|auto|int|bool|unsigned|static|struct|return|using|break|char)\b', s) and ('=' in s or '(' in s or '++' in s or '--' in s):
                out.append((path, i, ';'))
            m = re.match(r'(\s*(?:else )?if \()(.*)(\)\s*)$', code)
            if m:
                for c in ('true', 'false'):
                    out.append((path, i, m.group(1) + c + m.group(3)))
    return out


def tests_pass(repo, inc, work):
    """exit codes and outputs of the repository's tests"""
    ok = True
    procs = []
    for t in sorted(glob.glob(repo + '/test/*.cpp')):
        if os.path.basename(t)[:-4] in ('ftoa_len', 'fullcircle', 'fullcirclew', 'roundtrip'):
            continue  # benchmarks
        exe = os.path.join(work, os.path.basename(t)[:-4])
        procs.append((exe, subprocess.Popen(['g++', '-std=c++14', '-O0', '-w', '-I', inc, t, '-o', exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for exe, p in procs:
        if p.wait():
            ok = None
    if ok is None:
        return None
    for exe, p in procs:
        try:
            r = subprocess.run([exe], capture_output=True, timeout=30)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True




def worker(n, q, out, lock):
    base = '/tmp/mutate_%d' % n
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/tests')
    subprocess.run(['git', 'clone', '-q', '/repo', base + '/r'], check=True)
    subprocess.run(['git', 'clone', '-q', V, base + '/v'], check=True)
    p = base + '/v/vf/core.py'
    s = open(p).read().replace('        name = cfg_file.replace', '        return\n        name = cfg_file.replace')
    open(p, 'w').write(s)
    while True:
        try:
            path, i, new = q.get_nowait()
        except queue.Empty:
            break
        fn = os.path.join(base, 'r', path)
        orig = open(fn).read()
        lines = orig.split('\n')
        old = lines[i]
        lines[i] = new
        open(fn, 'w').write('\n'.join(lines))
        t = tests_pass(base + '/r', base + '/r/include', base + '/tests')
        res = {'file': path, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
        if t is None:
            res['verdict'] = 'does not compile'
        elif t is False:
            res['verdict'] = 'fails the tests'
        else:
            res['verdict'] = 'SURVIVES'
            for prop in ORDER[os.path.basename(path)].split():
                try:
                    r = subprocess.run([sys.executable, base + '/v/vf/check.py', prop], env=dict(os.environ, VF_REPO=base + '/r'), capture_output=True, text=True, timeout=1200)
                    if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout:
                        res['verdict'] = 'caught by ' + prop
                        break
                    if r.returncode:
                        res.setdefault('broken', []).append([prop, (r.stdout + r.stderr)[-300:]])
                except subprocess.TimeoutExpired:
                    res.setdefault('broken', []).append([prop, 'timeout'])
        open(fn, 'w').write(orig)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(res) + '\n')
    shutil.rmtree(base, ignore_errors=True)


def main():
    n, sample, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or list(ORDER)
    random.seed(seed)
    ms = mutants('/repo', files)
    random.shuffle(ms)
    print(len(ms), 'mutants')
    q = queue.Queue()
    for m in ms[:sample]:
        q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
