"""The checks, property by property."""
import json, os, re, subprocess
import core
from core import Check, SEED, THOROUGH, parallel

ROUNDING = ('MC_Rounding', 'MC_Rounding.cfg')
SCAN_NUM = ('MC_Scanner', 'MC_Scanner_num.cfg')
SCAN_WORD = ('MC_Scanner', 'MC_Scanner_word.cfg')
SCAN_NAN = ('MC_Scanner', 'MC_Scanner_nan.cfg')
BIGDEC = ('MC_BigDec', 'MC_BigDec.cfg')
GRISU = ('Grisu', 'MC_Grisu.cfg')
GRISU_WIDE = ('Grisu', 'MC_Grisu_wide.cfg')
ENTAIL = ('MC_Entail', 'MC_Entail.cfg')
ENTAIL_NEG = ('MC_Entail', 'MC_Entail_ties.cfg', 'C15')
GRISU_NEG = [('Grisu', 'MC_Grisu_nomargin.cfg', 'C01'), ('Grisu', 'MC_Grisu_noasym.cfg', 'C01')]
KSCAN = ('KroshScan', 'MC_KroshScan.cfg')
KSCAN_NEG = [('KroshScan', 'MC_KroshScan_uncapped.cfg', 'Typed'), ('KroshScan', 'MC_KroshScan_uncounted.cfg', 'Collected')]
KROUND = ('KroshRound', 'MC_KroshRound.cfg')
KROUND_NEG = [('KroshRound', 'MC_KroshRound_nomargin.cfg', 'C07'), ('KroshRound', 'MC_KroshRound_nocarry.cfg', 'C07'), ('KroshRound', 'MC_KroshRound_notail.cfg', 'WithinError')]

SCALING = [('Scaling', 'MC_Scaling_%s.cfg' % x) for x in ('double', 'float')]
SCALING_NEG = [('Scaling', 'MC_Scaling_%s.cfg' % x, i) for x, i in (('truncated', 'InRange'), ('short', 'InTable'), ('low', 'UnderflowRight'))]
RENDERING = [('Rendering', 'MC_Rendering.cfg'), ('Rendering', 'MC_Rendering_small.cfg'), ('Rendering', 'MC_Rendering_swapped.cfg', 'Right')]
BUFFER = ('Buffer', 'MC_Buffer.cfg')
BUFFER_FLOAT = ('Buffer', 'MC_Buffer_float.cfg')
BUFFER_WIDE = ('Buffer', 'MC_Buffer_wide.cfg')
BUFFER_NEG = [('Buffer', 'MC_Buffer_forward.cfg', 'C03'), ('Buffer', 'MC_Buffer_short.cfg', 'C04'), ('Buffer', 'MC_Buffer_bytes.cfg', 'C03')]
DIYFP = ('DiyFp', 'MC_DiyFp.cfg')
DIYFP_NEG = [('DiyFp', 'MC_DiyFp_%s.cfg' % x, 'C16') for x in ('nocarry', 'low', 'noasym')]
READER = ('Reader', 'MC_Reader.cfg')
READER_LIMIT = ('Reader', 'MC_Reader_limit.cfg')
READER_NEG = [('Reader', 'MC_Reader_%s.cfg' % x, 'C14') for x in ('eager', 'heedless')]

VALUES = ('directed values: every exponent of both types with extreme, sparse, dense and random mantissas, every number of digits x '
          'decimal point position, neighbours of powers of ten, smallest/greatest values; every positive float and millions of random values are executed and '
          'screened, and whatever looks odd is recorded; every record is judged by TLC')
LITERALS = ('directed literals: every power of ten the tables cover and beyond, midpoints of every binary exponent (exact, cut, bumped, extended), '
            'zero runs around the point, every number of significant digits x point position, lengths up to the limit; random literals of ten '
            'families are executed and screened against an independent reference, whatever differs is recorded; every record is judged by TLC')


# as released programs are built: another compiler, a later standard, no assertions, the other char
SECOND = {'compiler': 'clang++', 'opt': '-O3', 'flags': ['-std=c++20', '-DNDEBUG', '-DSECOND', '-funsigned-char']}


def print_check(prop, models, judge=None, keep=1, batches=None, what=VALUES, flags=(), opt='-O2'):
    c = Check(prop)
    lens = prop[-1]
    n = batches or 4000
    if THOROUGH:
        n *= 25
        keep = 1
    exe, second = parallel(lambda: c.build('print.cpp', flags=flags, opt=opt), lambda: c.build('print.cpp', 'print_second', **SECOND), *[lambda m=m: c.model(*m) for m in models])[:2]

    def record(k):
        out = c.path('raw%d' % k)
        calls, _, _ = c.run_driver(exe, lens, SEED, n, keep, 1 if THOROUGH else 0, out, timeout=3000)
        out2 = c.path('raw_second%d' % k)
        calls2, _, _ = c.run_driver(second, lens, SEED + 1, n // 4, keep * 12, 0, out2, timeout=3000)
        c.calls += calls + calls2
        return [('print', c.load(out), {'judge': judge}), ('print_second', c.load(out2), {})]
    return c.decide(record, what)


COVER = """SPECIFICATION Spec
CONSTANTS
  Family = "%s"
  Twice = %s
  Odd = {304, 305, 383, 560, 8490, 65296, 65349}
VIEW Abstract
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def transitions(c, family):
    """Strings which take the automaton through each of its transitions."""
    fn = c.path('strings.txt')
    with open(fn, 'w') as f:
        f.write('\n'.join(c.generate('Cover', COVER % (family, 'TRUE' if THOROUGH else 'FALSE'), 'cover_' + family, workers=1)) + '\n')
    return fn


def all_transitions(c):
    both = [open(transitions(c, f)).read() for f in ('num', 'word')]
    fn = c.path('all_strings.txt')
    with open(fn, 'w') as f:
        f.write(''.join(both))
    return fn


SKELETONS = """SPECIFICATION SpecC
CONSTANTS
  Kappa = %d
  FD = 4
  Alphabet = {46, 48, 49}
  MaxLen = %d
  Capped = TRUE
  Counted = TRUE
  MostZeros = %d
VIEW Abstract
CONSTRAINT Cut
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def skeletons(c):
    """Decimals which take the collector of digits into each of its states."""
    fn = c.path('skeletons.txt')
    with open(fn, 'w') as f:
        for kappa in (9, 19):
            f.write('\n'.join(c.generate('CoverDigits', SKELETONS % (kappa, kappa + (40 if THOROUGH else 22), kappa + (9 if THOROUGH else 5)), 'skeletons_%d' % kappa, workers=1)) + '\n')
    return fn


def parse_check(prop, models, lens=None, keep=3, batches=4000, recorded=4000, what=LITERALS, variants=None, strings=None, every=1):
    """variants: list of (exe name, build arguments, batches); strings: function
    which writes a file of strings, every so many of them recorded anyway"""
    c = Check(prop)
    lens = lens or prop[-1]
    variants = (variants or [('parse', {}, batches)]) + [('parse_second', SECOND, batches // 4)]
    if THOROUGH:
        keep, recorded = 1, recorded * 8
    exes = parallel(*[lambda v=v: c.build('parse.cpp', v[0], **v[1]) for v in variants],
                    *([lambda: strings(c)] if strings else []), *[lambda m=m: c.model(*m) for m in models])
    more = [exes[len(variants)], every] if strings else []

    def record(k):
        traces = []
        for (name, kw, n), exe in zip(variants, exes):
            out = c.path('raw_%s%d' % (name, k))
            second = kw is SECOND
            rest = more and [more[0], more[1] * 10] if second else more
            calls, _, _ = c.run_driver(exe, lens, SEED + second, n * (20 if THOROUGH else 1), keep * (10 if second else 1), recorded // (4 if second else 1), out, *rest, timeout=3000)
            c.calls += calls
            traces.append((name, c.load(out), {'timeout': 3000 if THOROUGH else 600}))
        return traces
    return c.decide(record, what)


def not_compact(total):
    if 'compact |-> FALSE' in total:
        return 'less than 99% of the uniformly chosen values are printed with the minimum number of digits: ' + total


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']

CHECKS = {
    'C01': lambda: print_check('C01', [ROUNDING, GRISU] + GRISU_NEG + SCALING + SCALING_NEG[:2], batches=12000),
    'C02': lambda: print_check('C02', [GRISU, KROUND, ENTAIL], batches=8000),
    'C03': lambda: print_check('C03', [GRISU, BUFFER, BUFFER_NEG[0]]),
    'C04': lambda: print_check('C04', [BUFFER, BUFFER_FLOAT, BUFFER_NEG[1]]),
    'C05': lambda: print_check('C05', [ROUNDING, GRISU_WIDE], judge=not_compact, keep=2),
    'C06': lambda: print_check('C06', [ENTAIL]),
    'C07': lambda: parse_check('C07', [ROUNDING, KSCAN, KROUND, KROUND_NEG[1]], strings=skeletons, every=1 if THOROUGH else 8),
    'C08': lambda: parse_check('C08', [ROUNDING, KROUND] + SCALING + SCALING_NEG[2:], keep=2),
    'C09': lambda: parse_check('C09', [SCAN_NUM, SCAN_WORD, READER], recorded=8000, strings=lambda c: transitions(c, 'num'), every=4 if THOROUGH else 1),
    'C10': lambda: parse_check('C10', [SCAN_WORD, SCAN_NAN], lens='a', recorded=16000, strings=lambda c: transitions(c, 'word'), every=4 if THOROUGH else 1),
    'C11': lambda: parse_check('C11', [ROUNDING, KROUND, KROUND_NEG[0]], lens='b', keep=3, strings=all_transitions, every=12 if THOROUGH else 20),
    'C14': lambda: parse_check('C14', [READER, READER_LIMIT] + READER_NEG, lens='e', variants=[('parse', {}, 4000), ('parse_san', {'flags': SAN, 'opt': '-O1'}, 4000)], recorded=6000, strings=all_transitions, every=30),
    'C15': lambda: parse_check('C15', [KSCAN, ENTAIL, ENTAIL_NEG, KROUND_NEG[2]] + KSCAN_NEG, lens='f', recorded=4000, strings=skeletons, every=2 if THOROUGH else 12),
}


SCHEDULE = """SPECIFICATION Spec
CONSTANTS
  Threads = {%s}
  Errnos = {%s}
  Answers = {%s}
  MaxDepth = %d
  Length = %d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def schedules(c):
    """Schedules to replay: all the short ones, and random long ones."""
    files = []
    short = (['1, 2', '0, 34', '1, 2, 3, 4, 5, 7', 2, 4], None) if not THOROUGH else (['1, 2', '0, 34', '1, 2, 3, 4, 5, 7', 2, 5], None)
    deep = (['1, 2, 3', '0, 22, 34', '1, 2, 3, 4, 5, 6, 7, 8', 3, 24], (1500 if not THOROUGH else 20000, 26))
    for name, (args, sim) in (('schedules_short', short), ('schedules_long', deep)):
        got = c.generate('Schedule', SCHEDULE % tuple(args), name, simulate=sim)
        fn = c.path(name + '.txt')
        with open(fn, 'w') as f:
            f.write('\n'.join(got) + '\n')
        files.append((name, fn, len(got)))
    return files


FLOAXIE = ('Floaxie', 'MC_Floaxie.cfg')
FLOAXIE_NESTED = ('Floaxie', 'MC_Floaxie_nested.cfg')
FLOAXIE_NEG = {'C12': [('Floaxie', 'MC_Floaxie_shared.cfg', 'C07')],
               'C18': [('Floaxie', 'MC_Floaxie_stale.cfg', 'C18'), ('Floaxie', 'MC_Floaxie_lost.cfg', 'C18'), ('Floaxie', 'MC_Floaxie_thrown.cfg', 'C18')]}


def history_check(prop, runs, models, what, dfb=0, uninit=0):
    c = Check(prop)
    fb = None
    if dfb:
        def build_fb():
            try:
                return c.build('fallback.cpp'), None
            except core.BuildFailure as e:
                return None, str(e)
    def build_uninit():
        try:
            return c.build('uninit.cpp', flags=['-fsanitize=memory', '-DNDEBUG'], opt='-O1', compiler='clang++')
        except core.BuildFailure as e:
            c.notes.append('no run under the memory sanitizer: ' + str(e)[-300:])
    exes = {}

    def build(name, kw):
        exes[name] = c.build('hist.cpp', name, **kw)
    kinds = {'hist': {}, 'hist_tsan': {'flags': ['-fsanitize=thread'], 'opt': '-O1'}}
    used = sorted(set(r[0] for r in runs))
    jobs = [lambda n=n: build(n, kinds[n]) for n in used]
    res = parallel(lambda: c.build('sched.cpp'), lambda: schedules(c), build_fb if dfb else (lambda: None), build_uninit if uninit else (lambda: None), *jobs, *[lambda m=m: c.model(*m) for m in models])
    sched, files, fb, clean = res[:4]

    def record(k):
        traces = []
        for i, (name, threads, rounds, events, pool) in enumerate(runs):
            out = c.path('raw%d_%d' % (i, k))
            calls, _, _ = c.run_driver(exes[name], SEED * 100 + i, threads, rounds, events, pool, out, timeout=1500, env={'TSAN_OPTIONS': 'exitcode=66 halt_on_error=0'})
            c.calls += calls
            traces.append(('hist%d' % i, c.load(out), {'module': 'TraceHist', 'workers': 1}))
        for name, fn, n in files:
            out = c.path('%s_%d' % (name, k))
            calls, _, _ = c.run_driver(sched, SEED, fn, 2500 if 'short' in name else 500, out, timeout=1500)
            c.calls += calls
            traces.append((name, c.load(out), {'module': 'TraceHist', 'workers': 1}))
        if clean:
            out = c.path('uninit_%d' % k)
            calls, bad, _ = c.run_driver(clean, SEED, uninit, out)
            c.calls += calls
            if bad:
                traces.append(('uninit', c.load(out), {}))
        if dfb:
            exe, why = fb
            if exe:
                out = c.path('dfb%d' % k)
                calls, _, _ = c.run_driver(exe, SEED, dfb, out)
                c.calls += calls
                recs = c.load(out)
            else:
                recs = [json.dumps({'op': 'unavailable', 'what': 'default fallback', 'why': why[-600:]})]
            traces.append(('default_fallback', recs, {}))
        return traces
    return c.decide(record, what)


HISTORY = ('every request of a pool (values and strings related to each other, range errors, fallback cases) is answered by a fresh process first; '
           'then 1 to 8 threads issue them in random order with errno changed in between, and schedules generated by TLC from Schedule.tla are replayed, in which '
           'fallbacks wait, call the library again and answer what the schedule says; each history has to be a behaviour of Api.tla')


def c12():
    runs = [('hist', 6, 300000, 1500, 1200), ('hist', 1, 600000, 4000, 900), ('hist', 8, 200000, 1000, 300), ('hist_tsan', 4, 40000, 500, 1000)]
    if THOROUGH:
        runs = [(e, t, n * 20, ev * 8, p * 3) for e, t, n, ev, p in runs] + [('hist', 16, 500000, 2000, 2000), ('hist', 2, 3000000, 5000, 5000)]
    return history_check('C12', runs, [FLOAXIE, FLOAXIE_NESTED] + FLOAXIE_NEG['C12'], HISTORY + '; one of the histories runs under the thread sanitizer, whose report is an event without an action; so is one of the memory sanitizer, under which values and strings are converted with all that is returned looked at',
                         uninit=12000000 * (10 if THOROUGH else 1))


def c18():
    runs = [('hist', 4, 300000, 3000, 2000)]
    if THOROUGH:
        runs = [('hist', 4, 6000000, 20000, 6000), ('hist', 1, 6000000, 20000, 6000)]
    return history_check('C18', runs, [FLOAXIE_NESTED] + FLOAXIE_NEG['C18'], HISTORY + '; the default fallback of each type and character type is judged on literals of its own',
                         dfb=2400 * (10 if THOROUGH else 1))


LOCALES = [('de_DE', 'UTF-8'), ('tr_TR', 'UTF-8'), ('tr_TR', 'ISO-8859-9'), ('ps_AF', 'UTF-8')]
WORLD = [('Floaxie', 'MC_Floaxie_%s.cfg' % x) for x in ('world', 'worlds', 'swaps_alone')] + [('Floaxie', 'MC_Floaxie_%s.cfg' % x, 'C07') for x in ('comma', 'swaps')]
POINT = [('Point', 'MC_Point%s.cfg' % x) for x in ('', '_words', '_nan')] + [('Point', 'MC_Point_%s.cfg' % x, 'C20') for x in ('digits', 'all', 'unshifted')]
STRINGS = """SPECIFICATION Spec
CONSTANTS
  Alphabet = %s
  MaxLen = 4
  Points <- MC_OnlyPoint
  Takes = "any"
  Shift = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def c20():
    c = Check('C20')
    loc = c.path('locales')
    os.makedirs(loc)

    def locales():
        def one(x):
            name = '.'.join(x)
            subprocess.run(['localedef', '-c', '-i', x[0], '-f', x[1], os.path.join(loc, name)], capture_output=True, timeout=300)
            return name if os.path.isdir(os.path.join(loc, name)) else None
        with core.ThreadPoolExecutor(4) as ex:
            return [x for x in ex.map(one, LOCALES) if x]
    def direct():
        fn = c.path('direct.txt')
        with open(fn, 'w') as f:
            for name, alphabet in (('decimals', '{32, 45, 46, 44, 48, 49, 101, 120, 217}'), ('words', '{45, 46, 44, 105, 110, 102, 97, 40, 41}')):
                f.write('\n'.join(c.generate('Point', STRINGS % alphabet, 'strings_' + name)) + '\n')
        return fn
    names, exe, strings = parallel(locales, lambda: c.build('world.cpp'), direct, *[lambda m=m: c.model(*m) for m in WORLD + POINT])[:3]
    if not names:
        raise core.Broken('no locale can be compiled')

    def record(k):
        out = c.path('raw%d' % k)
        calls, _, _ = c.run_driver(exe, SEED, 100000 if THOROUGH else 8000, 200000 if THOROUGH else 40000, 12000 if THOROUGH else 3000, out, strings, *names,
                                   timeout=3000, env={'LOCPATH': loc})
        c.calls += calls
        return [('world', c.load(out), {'module': 'TraceHist', 'workers': 1})]
    return c.decide(record, 'every request of a pool (printing, parsing, the default fallback directly; literals which need the fallback, points and commas, letters whose case '
                    'depends on the language) is answered by a fresh process; then they are issued under locales compiled for the purpose (%s; as the locale of the C library, '
                    'of the C++ library, of both, of the thread) and all rounding modes; the history has to be a behaviour of Api.tla, in which the world does not matter' % ', '.join(names))


PROGRAM = """SPECIFICATION ProgSpec
CONSTANTS
  Units = {1, 2}
  Headers = {"ftoa", "atof", "diy_fp", "print"}
  MaxHeaders = %d
  answer = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def c19():
    c = Check('C19')
    progs = [tuple(tuple(u.split()) for u in g.split('|')) for g in c.generate('Program', PROGRAM % (3 if THOROUGH else 2), 'programs')]
    configs = [('g++', 'c++14', '-O0'), ('clang++', 'c++14', '-O0'), ('g++', 'c++17', '-O1'),
               ('g++', 'c++20', '-O2 -funsigned-char -fno-rtti'), ('clang++', 'c++20', '-O3 -DNDEBUG'),
               ('g++', 'c++17', '-O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=all')]
    if THOROUGH:
        configs += [('clang++', 'c++17', '-O0'), ('g++', 'c++20', '-O0'), ('clang++', 'c++20', '-O0 -funsigned-char'), ('g++', 'c++14', '-O3'), ('g++', 'c++23', '-O2 -D_GLIBCXX_ASSERTIONS')]
    plain = [p for p in progs if all(h in ('ftoa', 'atof') for u in p for h in u)]
    work = c.path('programs')
    os.makedirs(work)

    def execute(exe):
        try:
            return subprocess.run([exe], capture_output=True, text=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return subprocess.CompletedProcess(exe, 124, '', '')

    def obj(cfg, unit, inc):
        name = '_'.join((cfg[0], cfg[1], cfg[2].replace(' ', ''), str(unit)) + inc)
        h = os.path.join(work, name + '.inc')
        o = os.path.join(work, name + '.o')
        with open(h, 'w') as f:
            for x in inc:
                f.write('#include <floaxie/%s.h>\n' % x)
            for x in ('ftoa', 'atof', 'diy_fp', 'print'):
                if x in inc:
                    f.write('#define HAVE_%s\n' % x.upper())
        r = subprocess.run([cfg[0], '-std=' + cfg[1]] + cfg[2].split() + ['-w', '-I', os.path.join(core.REPO, 'include'), '-DUNIT=%d' % unit, '-DHEADERS="%s"' % h,
                            '-c', os.path.join(core.DRIVER, 'unit.cpp'), '-o', o], capture_output=True, text=True, timeout=300)
        return o if r.returncode == 0 else None, r.stderr[-600:]

    def program(cfg, n, p, objs):
        (a, ea), (b, eb) = objs[cfg, 1, p[0]], objs[cfg, 2, p[1]]
        rec = {'op': 'build', 'cfg': ' '.join(cfg), 'inc': [list(u) for u in p], 'ok': bool(a and b)}
        out = []
        if a and b:
            exe = os.path.join(work, 'p%s' % n)
            # which unit is constructed first is up to the order
            r = subprocess.run([cfg[0]] + [x for x in cfg[2].split() if x.startswith('-fsanitize')] + ([a, b] if n % 2 else [b, a]) + ['-o', exe], capture_output=True, text=True, timeout=300)
            rec['ok'] = r.returncode == 0
            if r.returncode:
                rec['why'] = r.stderr[-500:]
            else:
                r = execute(exe)
                os.remove(exe)
                out = [x for x in r.stdout.splitlines() if x.startswith('{') and x.endswith('}')]
                if r.returncode:
                    out.append(json.dumps({'op': 'crash', 'rc': r.returncode}))
                out.append(json.dumps({'op': 'end', 'asked': sum('"op":"reply"' in x for x in out)}))
        else:
            rec['why'] = ea or eb
        return [json.dumps(rec)] + out

    def example(cfg, first):
        exe = os.path.join(work, '_'.join(['example'] + [x.replace(' ', '') for x in cfg] + [str(first)]))
        r = subprocess.run([cfg[0], '-std=' + cfg[1]] + cfg[2].split() + ['-w', '-I', os.path.join(core.REPO, 'include')] + ['-DATOF_FIRST'] * first +
                           [os.path.join(core.DRIVER, 'example.cpp'), '-o', exe], capture_output=True, text=True, timeout=300)
        rec = {'op': 'example', 'cfg': ' '.join(cfg), 'atof_first': bool(first), 'ok': r.returncode == 0, 'rc': 0}
        if r.returncode:
            rec['why'] = r.stderr[-500:]
        else:
            rec['rc'] = execute(exe).returncode
        return json.dumps(rec)

    def record(k):
        todo = [(cfg, p) for cfg in configs for p in (progs if THOROUGH or cfg is configs[0] else plain)]
        need = sorted(set((cfg, u + 1, p[u]) for cfg, p in todo for u in (0, 1)))
        with core.ThreadPoolExecutor(8) as ex:
            objs = dict(zip(need, ex.map(lambda x: obj(*x), need)))
            got = list(ex.map(lambda x: program(x[1][0], x[0], x[1][1], objs), enumerate(todo)))
            got.append(list(ex.map(lambda x: example(*x), [(cfg, first) for cfg in configs for first in (0, 1)])))
        c.calls += sum(len(g) for g in got)
        # the first program which has it all says what the replies are
        fresh = {}
        for g in got:
            for r in g:
                r = json.loads(r)
                if r['op'] == 'reply':
                    fresh.setdefault(r['a'], r['r'])
        recs = [json.dumps({'op': 'fresh', 'a': a, 'r': fresh.get(a, [])}) for a in range(1, max(fresh, default=0) + 1)]
        recs += [r for g in got for r in g]
        return [('programs', recs, {'module': 'TraceProg', 'workers': 1})]
    return c.decide(record, 'all programs of two translation units which include up to %d of the headers in any order (enumerated by TLC from Program.tla) are compiled, linked and run, '
                    'with several compilers and standards; a program which cannot be built is an event without an action; replies of all the units are compared' % (3 if THOROUGH else 2))


def c13():
    c = Check('C13')
    parts = {'-DWIDE_UNICODE': 'printing of char16_t/char32_t', '-DWIDE_PARSE': 'parsing of char16_t/char32_t with a fallback'}

    def build():
        why = None
        for flags in (list(parts), ['-DWIDE_UNICODE'], ['-DWIDE_PARSE'], []):
            try:
                return c.build('wrap.cpp', flags=flags), c.build('wrap.cpp', 'wrap_second', **dict(SECOND, flags=SECOND['flags'] + flags)), [(parts[f], why) for f in parts if f not in flags]
            except core.BuildFailure as e:
                why = why or str(e)
        raise core.BuildFailure(why)
    (exe, second, missing), fn = parallel(build, lambda: all_transitions(c), *[lambda m=m: c.model(*m) for m in (BUFFER_WIDE, BUFFER_NEG[2])])[:2]
    n = 3000 * (25 if THOROUGH else 1)

    def record(k):
        out = c.path('raw%d' % k)
        calls, _, _ = c.run_driver(exe, SEED, n, 9000 * (8 if THOROUGH else 1), out, fn, 4, timeout=3000)
        out2 = c.path('raw_second%d' % k)
        calls2, _, _ = c.run_driver(second, SEED + 1, n // 4, 1000, out2, fn, 40, timeout=3000)
        c.calls += calls + calls2
        recs = c.load(out)
        for what, why in missing:
            recs.append(json.dumps({'op': 'unavailable', 'what': what, 'why': why[-600:]}))
        return [('wrap', recs, {}), ('wrap_second', c.load(out2), {})]
    return c.decide(record, 'directed and random values printed into char, wchar_t, char16_t and char32_t buffers and through all wrappers; strings of all kinds parsed '
                    'through all overloads; each group of replies is one record judged by TLC; an overload that cannot be built is an event without an action')


# parts of the internal interface; one which isn't there (any more) has no contract to keep
PROBES = {
    'NO_DOWNSAMPLE': 'floaxie::diy_fp<double> d(1, 0); d.normalize(); auto r = d.downsample(); return r.is_accurate + (r.value > 0) + static_cast<int>(r.status);',
    'NO_ERROR_BOUND': 'floaxie::diy_fp<double> d(1, 0); d.normalize(); auto r = d.downsample(4); return r.is_accurate;',
    'NO_BOUNDARIES': 'auto b = floaxie::diy_fp<float>::boundaries(1.f); return b.first.mantissa() > 0 && b.second.exponent() > 0;',
    'NO_ROUND': 'auto r = floaxie::round_up<unsigned>(3u, 1); return r.value + r.is_accurate;',
    'NO_POWERS': 'floaxie::diy_fp<double> p = floaxie::cached_power<double>(3); floaxie::diy_fp<float> q = floaxie::cached_power<float>(3); return p.mantissa() > 0 && q.mantissa() > 0;',
}


def probe(c, name):
    fn = c.path('probe_%s.cpp' % name)
    with open(fn, 'w') as f:
        f.write('#include <floaxie/diy_fp.h>\n%s#include <floaxie/print.h>\nint main() { %s }\n' % ('#include <floaxie/cached_power.h>\n' if name == 'NO_POWERS' else '', PROBES[name]))
    return subprocess.run(['g++', '-std=c++14', '-fsyntax-only', '-w', '-I', os.path.join(core.REPO, 'include'), fn], capture_output=True, timeout=200).returncode == 0


def diy_check(prop, what, models=(), keep=2, recorded=12000):
    c = Check(prop)
    missing = [n for n, ok in zip(PROBES, parallel(*[lambda n=n: probe(c, n) for n in PROBES])) if not ok]
    if missing:
        c.notes.append('parts of the internal interface which this tree does not have: ' + ', '.join(n[3:].lower() for n in missing))
    flags = ['-D' + n for n in missing]
    why = None

    def build():
        nonlocal why
        try:
            c.build('diy.cpp', flags=flags)
        except core.BuildFailure as e:
            why = str(e)
            flags.append('-DNO_WIDE_STREAM')
        return parallel(lambda: c.build('diy.cpp', flags=flags), lambda: c.build('diy.cpp', 'diy_second', **dict(SECOND, flags=SECOND['flags'] + flags)))
    exe, second = parallel(build, *[lambda m=m: c.model(*m) for m in models])[0]

    def record(k):
        out = c.path('raw%d' % k)
        calls, _, _ = c.run_driver(exe, prop[-1], SEED, 4000 * (50 if THOROUGH else 1), 1 if THOROUGH else keep, recorded * (8 if THOROUGH else 1), out, timeout=3000)
        out2 = c.path('raw_second%d' % k)
        calls2, _, _ = c.run_driver(second, prop[-1], SEED + 1, 1000, keep * 20, recorded // 10, out2, timeout=3000)
        c.calls += calls + calls2
        recs = c.load(out)
        if why and prop == 'C17':
            recs.append(json.dumps({'op': 'unavailable', 'what': 'streaming to wide streams', 'why': why[-600:]}))
        return [('diy', recs, {}), ('diy_second', c.load(out2), {})]
    return c.decide(record, what)


CHECKS['C12'] = c12
CHECKS['C13'] = c13
CHECKS['C18'] = c18
CHECKS['C19'] = c19
CHECKS['C20'] = c20
CHECKS['C16'] = lambda: diy_check('C16', 'all 788 tabulated powers; conversions and boundaries of directed and random values; back conversions of normalised significands '
                                  'at every exponent of both types, at ties and next to them; products and steps of directed significands; all 8-bit round_up decisions and '
                                  'directed wider ones; every record is judged by TLC in exact arithmetic', [BIGDEC, DIYFP] + DIYFP_NEG)
CHECKS['C17'] = lambda: diy_check('C17', 'binary renderings of directed and random doubles (NaN payloads included), unsigned integers of 8 to 64 bits and extended precision numbers', RENDERING)


def run(prop):
    return CHECKS[prop]()


T = 'TLA+ checked with TLC: '
TECHNIQUE = {
    'C01': T + 'Rounding and Grisu models, and Scaling at the real sizes, with negative controls; trace validation of printed texts against the exact rounding interval',
    'C02': T + 'Grisu, KroshRound and Entail (printing within the interval and correct parsing entail the round trip); trace validation of print-parse pairs',
    'C03': T + 'Grisu and Buffer models of the layout with a negative control; trace validation of texts against the canonical layout',
    'C04': T + 'Buffer model over all values of both formats with a negative control; trace validation of extents recorded next to inaccessible memory',
    'C05': T + 'Grisu model of shortness; trace validation with an exact decision of shortness, and a fraction over a uniform sample',
    'C06': T + 'Entail model; trace validation of special values and of pairs v, -v',
    'C07': T + 'models of the digit collector and the rounding; literals generated from the model; trace validation against the exact rounding interval',
    'C08': T + 'Rounding and KroshRound models, and Scaling at the real sizes; trace validation of value and status at the limits',
    'C09': T + 'recogniser automaton against its grammar; strings generated from its transitions; trace validation of end pointers and suffix pairs',
    'C10': T + 'recogniser automaton of words; strings generated from its transitions; trace validation',
    'C11': T + 'models of the rounding with its window of doubt and a negative control; trace validation of calls with lying and recording fallbacks',
    'C12': T + 'transition system of interleaved and nested calls; its behaviours replayed under a controlled scheduler, and histories validated',
    'C13': T + 'Buffer model over character widths with a negative control; trace validation of agreeing wrappers',
    'C14': T + 'Reader model of memory accesses with negative controls; trace validation of calls next to inaccessible memory, under sanitizers',
    'C15': T + 'models of the collector with negative controls, entailment from correct rounding; trace validation of pairs of literals',
    'C16': T + 'big-decimal and extended-precision models with negative controls; trace validation in exact arithmetic',
    'C17': T + 'model of the rendering with a negative control; trace validation of binary renderings',
    'C18': T + 'transition system of calls, errno and fallbacks with negative controls; behaviours replayed into the code and validated',
    'C19': T + 'model of programs (units, orders of inclusion, calls); generated programs compiled, linked, run, and their results validated',
    'C20': T + 'model of the environment with negative controls; trace validation of calls under rounding modes and locales',
}
DIGITS = 'The arithmetic models use a small binary format and a small decimal range, chosen so that every branch of the algorithms is taken; the choice of powers of ten is checked at the real sizes (Scaling); the tabulated numbers themselves are judged by records. '
PRINTS = 'All positive floats are executed (not all doubles: about 40 million directed and random ones); what a fast exact or library comparison finds odd, and a selection of the rest, is judged by TLC. '
PARSES = 'Executed: every integer literal below 100 000 (double) and 1 000 000 (float) at every exponent in varying spellings, all strings to length 8 over the characters of numbers, directed and random ones; screened with the C library, and judged by TLC where odd or selected. '
LEVEL_NOTE = {
    'C01': DIGITS + PRINTS, 'C02': DIGITS + PRINTS, 'C03': PRINTS, 'C04': 'The layout is model checked for all digit counts and exponents of both real formats. ' + PRINTS,
    'C05': DIGITS + PRINTS + 'The fraction of shortest texts is a statistic over a fixed sample. ', 'C06': PRINTS,
    'C07': DIGITS + PARSES, 'C08': DIGITS + PARSES,
    'C09': 'The recogniser is model checked over all strings up to a bound; the code is run on every string of bounded length over two alphabets. ',
    'C10': 'As C09, for the words. ', 'C11': DIGITS,
    'C12': 'The model has two threads and bounded calls; the code is driven through its schedules with switches at calls of the fallback, and under real threads. ',
    'C13': 'Wrappers are compared on directed and random inputs, not on all. ',
    'C14': 'The reader is model checked for strings to a bound; the code is run next to inaccessible pages and under address and undefined behaviour sanitizers. ',
    'C15': DIGITS + PARSES, 'C16': 'All tabulated powers are judged exactly; products, conversions and steps for directed and random operands. ',
    'C17': 'Directed and random values. ', 'C18': 'Every errno value a fallback may report, in all positions of bounded behaviours. ',
    'C19': 'Programs of bounded size over all public headers, with two compilers. ', 'C20': 'All four rounding modes, C and the locales that can be made offline. ',
}
