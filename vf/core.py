"""Common machinery of the checks: building drivers from /repo's working tree,
running TLC on models and on recorded traces, evidence, findings."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVER = os.path.join(VERIF, 'driver')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'


class Broken(Exception):
    """The check itself failed (neither verdict)."""


class BuildFailure(Broken):
    pass


def log(*a):
    print(*a, flush=True)


class Unfit(Exception):
    """A trace with something the specification has no value for."""


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, 'build', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.states = self.transitions = self.validated = self.calls = 0
        self.models = []
        self.trace_info = []
        self.samples = []
        self.rejected = []
        self.notes = []
        self.known_hits = []

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---- drivers ----------------------------------------------------------
    def build(self, source, exe=None, flags=(), compiler='g++', opt='-O2', allow_fail=False):
        exe = self.path(exe or source.split('.')[0])
        cmd = [compiler, '-std=c++14', opt, '-g1', '-w', '-pthread', '-I', os.path.join(REPO, 'include'), *flags,
               os.path.join(DRIVER, source), '-o', exe]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
        if r.returncode:
            raise BuildFailure('cannot build %s: %s' % (source, r.stderr[-2000:]))
        return exe

    def run_driver(self, exe, *args, timeout=600, env=None):
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run([exe, *map(str, args)], capture_output=True, text=True, timeout=timeout, env=e)
        m = re.search(r'CALLS (\d+) EMITTED (\d+) CRASHES (\d+)', r.stdout)
        if r.returncode or not m:
            raise Broken('driver %s %s: exit %d\n%s\n%s' % (exe, args, r.returncode, r.stdout[-500:], r.stderr[-1500:]))
        return tuple(map(int, m.groups()))

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg_text, name, workers=8, timeout=800, heap='6g', extra=()):
        cfg = self.path(name + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        meta = self.path('meta_' + name)
        os.makedirs(meta, exist_ok=True)
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-config', cfg, '-workers', str(workers), '-metadir', meta, *extra, os.path.join(SPEC, module + '.tla')]
        out = self.path(name + '.out')
        with open(out, 'w') as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC).returncode
            except subprocess.TimeoutExpired:
                raise Broken('TLC timed out on ' + name)
        text = open(out, errors='replace').read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', text, re.M)
        gen, dist = map(int, m[-1]) if m else (0, 0)
        return rc, text, gen, dist

    def model(self, module, cfg_file, expect_violation=None, workers=3, timeout=800):
        """Check a model of the specification itself.  expect_violation names an
        invariant which has to be violated (negative control)."""
        name = cfg_file.replace('.cfg', '')
        rc, text, gen, dist = self.tlc(module, open(os.path.join(SPEC, cfg_file)).read(), 'model_' + name, workers=workers, timeout=timeout)
        ok = 'Model checking completed. No error has been found' in text
        if expect_violation:
            if 'Invariant %s is violated' % expect_violation not in text:
                raise Broken('negative control %s: %s is not violated' % (name, expect_violation))
        elif not ok:
            raise Broken('model %s fails:\n%s' % (name, '\n'.join(text.splitlines()[-40:])))
        self.states += dist
        self.transitions += gen
        self.models.append({'model': name, 'states': dist, 'transitions': gen,
                            'result': 'violates %s as expected (negative control)' % expect_violation if expect_violation else 'holds'})

    def generate(self, module, cfg_text, name, workers=3, timeout=600, simulate=None):
        """Inputs generated from the specification: lines printed as "GEN ...";
        simulate: (number of behaviours, depth) instead of all of them."""
        extra = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(SEED)] if simulate else []
        rc, text, gen, dist = self.tlc(module, cfg_text, name, workers=1 if simulate else workers, timeout=timeout, extra=extra)
        if rc or (not simulate and 'Model checking completed. No error has been found' not in text):
            raise Broken('generation %s fails:\n%s' % (name, '\n'.join(text.splitlines()[-30:])))
        self.states += dist
        self.transitions += gen
        got = sorted(set(re.findall(r'^"GEN (.*)"$', text, re.M)))
        self.models.append({'model': name, 'states': dist, 'transitions': gen, 'result': '%d inputs generated%s' % (len(got), ' (simulation)' if simulate else ' (all)')})
        if not got:
            raise Broken('nothing generated by ' + name)
        return got

    def load(self, *files):
        """Well-formed records of driver outputs."""
        recs = []
        for fn in files:
            if not os.path.exists(fn):
                continue
            for line in open(fn, errors='replace'):
                line = line.strip()
                if line.startswith('{') and line.endswith('}'):
                    try:
                        json.loads(line)
                    except ValueError:
                        continue
                    recs.append(line)
        return recs

    def validate(self, recs, name='trace', module='Trace', armed=None, shards=None, timeout=800, workers=8, post='AllConsumed', extra_consts=''):
        """Every record has to be a behaviour of the specification.  Returns
        (rejected indices, totals)."""
        if not recs:
            raise Broken('empty trace ' + name)
        fn = self.path(name + '.ndjson')
        with open(fn, 'w') as f:
            f.write('\n'.join(recs) + '\n')
        shards = shards or max(1, min(96, len(recs)))
        cfg = ('SPECIFICATION Spec\nCONSTANTS\n  File = "%s"\n  Armed = "%s"\n  Shards = %d\n%sPOSTCONDITION %s\nCHECK_DEADLOCK FALSE\n'
               % (fn, armed or self.prop, shards, extra_consts, post))
        rc, text, gen, dist = self.tlc(module, cfg, 'tlc_' + name, timeout=timeout, workers=workers)
        if 'The error occurred when TLC was evaluating' in text and 'OutOfMemory' not in text and 'StackOverflow' not in text:
            raise Unfit('\n'.join(text.splitlines()[-60:]))
        if 'Model checking completed. No error has been found' not in text:
            raise Broken('trace validation %s fails:\n%s' % (name, '\n'.join(text.splitlines()[-60:])))
        m = re.search(r'^"TOTAL (.*)"$', text, re.M)
        if not m:
            raise Broken('no totals from ' + name)
        total = m.group(1)
        rej = sorted(set(int(x) for x in re.findall(r'^"REJECT (\d+)"', text, re.M)))
        consumed = int(re.search(r'consumed \|-> (\d+)', total).group(1))
        if consumed < len(recs):
            raise Broken('trace %s not consumed: %d of %d' % (name, consumed, len(recs)))
        self.states += dist
        self.transitions += gen
        return [i - 1 for i in rej], total

    # ---- outcome --------------------------------------------------------------
    def known(self):
        """Known findings of this property (never fixed ones)."""
        r = []
        fn = os.path.join(VERIF, 'known_findings.json')
        for e in json.load(open(fn))['known']:
            if e['property'] == self.prop:
                r.append(e)
        return r

    def decide(self, record, what, coverage=None, confirm=True):
        """record(k): runs the drivers, returns list of traces (name, recs, kw)."""
        rejected = []
        for attempt in range(2):
            traces = record(attempt)
            rejected = []
            for name, recs, kw in traces:
                kw = dict(kw)
                judge = kw.pop('judge', None)
                try:
                    rej, total = self.validate(recs, name='%s_%d' % (name, attempt), **kw)
                except Unfit as e:
                    rejected.append((name, json.dumps({'op': 'unfit', 'why': str(e)[-3000:]})))
                    continue
                if attempt == 0:
                    self.validated += len(recs)
                    self.trace_info.append({'trace': name, 'records': len(recs), 'totals': total})
                    if len(self.samples) < 6:
                        for i in sorted({0, len(recs) // 2, len(recs) - 1})[:3]:
                            self.samples.append(self.shorten(recs[i]))
                rejected += [(name, recs[i]) for i in rej]
                if judge:
                    bad = judge(total)
                    if bad:
                        rejected.append((name, json.dumps({'op': 'aggregate', 'why': bad})))
            known = self.known()
            fresh = []
            for n, r in rejected:
                k = [e for e in known if all(json.loads(r).get(a) == b for a, b in e['match'].items())]
                if k:
                    self.known_hits.append(k[0]['what'])
                else:
                    fresh.append((n, r))
            rejected = fresh
            # a reply is a fact; crashes and hangs might be due to the machine
            if not rejected or not confirm or any(json.loads(r).get('op') not in ('crash', 'hang', 'unavailable', 'unfit') for n, r in rejected):
                break
            if attempt == 0:
                log('%d records rejected; running again to confirm' % len(rejected))
        self.rejected = rejected
        return self.finish(what, coverage or {})

    @staticmethod
    def shorten(line):
        r = json.loads(line)
        for k in ('tx', 'txb', 'ntx', 'more'):
            if k in r and isinstance(r[k], list):
                s = ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in r[k])
                r[k] = s if len(s) <= 80 else s[:60] + '...(%d)' % len(s)
        if r.get('op') == 'fresh':
            r['r'] = r['r'][:30]
        if 'txs' in r:
            r['txs'] = [''.join(chr(c) for c in t) for t in r['txs'][:2]] + ['...']
        return r

    def finish(self, what, coverage):
        for k in sorted(set(self.known_hits)):
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.validated,
            'impl_calls_screened': self.calls,
            'models': self.models,
            'traces': self.trace_info,
            'rule': what,
            'samples': self.samples,
        }
        if self.notes:
            cov['notes'] = self.notes
        cov.update(coverage)
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
              'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.rejected)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not self.rejected:
            log('OK property=%s: %d implementation records validated (%d calls screened), %d states, %.1f s'
                % (self.prop, self.validated, self.calls, self.states, time.time() - self.t0))
            shutil.rmtree(self.dir, ignore_errors=True)
            return 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', self.prop + '.json')
        with open(rp, 'w') as f:
            json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'rerun': 'VERIF_SEED=%d python3 vf/check.py %s' % (SEED, self.prop),
                       'rejected': [{'trace': n, 'readable': self.shorten(r), 'record': json.loads(r)} for n, r in self.rejected[:50]]}, f, indent=1)
        for n, r in self.rejected[:5]:
            log('  rejected:', json.dumps(self.shorten(r)))
        log('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return 1


ASSUMPTIONS = [
    'binary32/binary64 IEEE-754 types, default rounding mode and "C" locale (other ones: C20)',
    'TLC and the exact arithmetic of spec/BigDec.tla (checked against integer arithmetic by MC_BigDec)',
    'mantissas of up to 2048 characters (documented limit of the library)',
]


def parallel(*thunks):
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(t) for t in thunks]
        return [f.result() for f in fs]
