#!/usr/bin/env python3
"""trigger.py WORKERS SAMPLE SEED OUT [TEMPLATE...]: plants faults which only a particular
coincidence sets off (a number of digits together with a power, a run of zeros
of some length, ...) into copies of /repo, and runs the checks of the property
concerned.  What nothing notices shows which inputs the drivers don't reach."""
import random, sys, threading, queue
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import mutate

I = 'include/floaxie/'
R = random.randint
FT = lambda: random.choice([4, 8, 8])
LAST = "buffer[len - 1] = buffer[len - 1] == '9' ? '8' : buffer[len - 1] + 1;"


def lenk():
    t = FT()
    l = R(1, 17 if t == 8 else 9)
    k = R(-323, 308) if t == 8 else R(-44, 38)
    return I + 'ftoa.h', 'return (v < 0) + prettify', 'if (sizeof(v) == %d && len == %d && K == %d) { %s }\n\t\t\treturn (v < 0) + prettify' % (t, l, k - l, LAST), 'C01 C05 C02'


def tzexp():
    t = FT()
    p = 53 if t == 8 else 24
    z, e = R(0, p - 1), (R(-1074, 971) if t == 8 else R(-149, 104))
    return (I + 'ftoa.h', 'return (v < 0) + prettify', 'if (sizeof(v) == %d) { const diy_fp<FloatType> w(v); const unsigned long long m = w.mantissa(); if (__builtin_ctzll(m) == %d && w.exponent() == %d) { %s } }\n\t\t\treturn (v < 0) + prettify' % (t, z, e, LAST), 'C01 C05 C02')


def loexp():   # leading run of equal bits
    t = FT()
    p = 53 if t == 8 else 24
    z, e = R(2, p - 1), (R(-1074, 971) if t == 8 else R(-149, 104))
    inv = random.choice(['', '~'])
    return (I + 'ftoa.h', 'return (v < 0) + prettify', 'if (sizeof(v) == %d) { const diy_fp<FloatType> w(v); const unsigned long long m = w.mantissa(); if (((%s(m << %d)) >> %d) == 0 && w.exponent() == %d) { %s } }\n\t\t\treturn (v < 0) + prettify' % (t, inv, 64 - p + 1, 64 - z + 1, e, LAST), 'C01 C05 C02')


def length():
    l, k = R(1, 17), R(-323, 308)
    neg = random.choice(['<', '>'])
    return I + 'ftoa.h', 'return (v < 0) + prettify', 'if (len == %d && K == %d && v %s 0) return (v < 0) + prettify<decimal_scientific_threshold>(buffer, len, K) + 1;\n\t\t\treturn (v < 0) + prettify' % (l, k - l, neg), 'C04 C03'


def plain():
    l, d = R(1, 17), R(-16, 17)
    return I + 'prettify.h', 'switch (choose_format', "if (len == %d && dot_pos == %d) return print_scientific(buffer, len, dot_pos);\n\t\tswitch (choose_format" % (l, d), 'C03 C01'


def digits_k():
    t = FT()
    n = R(1, 19 if t == 8 else 9)
    k = R(-330, 308) if t == 8 else R(-50, 38)
    return I + 'krosh.h', '\t\t\tif (mp.K)\n', '\t\t\tif (sizeof(FloatType) == %d && mp.K == %d && w.mantissa() != 0) { const int z = w.exponent() + int(sizeof(w.mantissa()) * 8); if (z == %d) { ++mp.K; } }\n\t\t\tif (mp.K)\n' % (t, k - n, R(max(1, int((n - 1) * 3.32)), int(n * 3.32))), 'C07 C15 C08'


def nparsed():
    t = FT()
    n = R(1, 19 if t == 8 else 9)
    w = R(0, 25)
    return I + 'krosh.h', '\t\tstd::size_t pow(0);\n', '\t\tif (sizeof(FloatType) == %d && parsed_digits.size() == %d && fraction_digits_count == %d && pow_gain == %d) ++pow_gain;\n\t\tstd::size_t pow(0);\n' % (t, n, w, random.choice([0, 0, 0, R(1, 30)])), 'C07 C15 C09'


def position():
    n = R(1, 2040)
    return I + 'krosh.h', '\t\t\tgo_to_beach |= pos > maximum_offset;', "\t\t\tgo_to_beach |= pos > maximum_offset || (pos == %d && %sdot_set%s);" % (n, random.choice(['', '!']), random.choice(['', ' && c == \'0\'', ' && frac_calculated', ' && !frac_calculated'])), 'C09 C07 C15'


def zeros():
    n, m = random.choice([R(1, 30), R(1, 400), R(1, 2000)]), R(0, 19)
    return I + 'krosh.h', '\t\t\t\tif (zero_substring_length && parsed_digits.size() < kappa)\n', '\t\t\t\tif (zero_substring_length == %d && parsed_digits.size() == %d) --zero_substring_length, pow_gain -= pow_gain > 0;\n\t\t\t\tif (zero_substring_length && parsed_digits.size() < kappa)\n' % (n, m), 'C07 C15 C09'


def expo():
    n = random.choice([R(1, 12), R(1, 400)])
    return I + 'krosh.h', '\t\t\t\tret.str_end = str;\n\t\t\t}\n', '\t\t\t\tif (str - ret.str_end == %d && ret.value == %d) ++ret.value;\n\t\t\t\tret.str_end = str;\n\t\t\t}\n' % (n + 1, R(-330, 310) if n > 3 else R(-9, 9)), 'C07 C15 C08'


def written():
    x = R(-340, 330)
    y = R(-18, 18)
    return I + 'krosh.h', '\t\t\tmp.K += ep.value;\n', '\t\t\tif (ep.value == %d && mp.K == %d) ++mp.K;\n\t\t\tmp.K += ep.value;\n' % (x, y), 'C07 C15 C08'


def nanlen():
    n = random.choice([R(1, 20), R(1, 300), R(1, 2000)])
    return I + 'krosh.h', "\t\t\t\tif (*cp == ')')", "\t\t\t\tif (*cp == ')' && cp - str != %d)" % (n + 3), 'C10 C09'


def down():
    t = FT()
    e = R(-1074, 971) if t == 8 else R(-149, 104)
    p = 53 if t == 8 else 24
    return I + 'krosh.h', '\t\t\tret.value = v.value;\n', '\t\t\tret.value = v.value;\n\t\t\tif (sizeof(FloatType) == %d && v.is_accurate && std::isfinite(v.value) && v.value != 0) { const diy_fp<FloatType> q(v.value); if (q.exponent() == %d && __builtin_ctzll(q.mantissa()) == %d) ret.value = std::nextafter(v.value, FloatType(0)); }\n' % (t, e, R(0, p - 1)), 'C07 C02 C08'


def err():
    return I + 'default_fallback.h', 'if (!errno) errno = m_saved;', 'if (!errno) errno = m_saved == %d ? 0 : m_saved;' % R(1, 133), 'C18 C12'


def fblen():
    n = random.choice([R(1, 60), R(1, 800), R(1, 2040)])
    return I + 'atof.h', '\t\t\t\tresult.value = fallback_func(str, str_end);\n', '\t\t\t\tresult.value = fallback_func(str, str_end);\n\t\t\t\tif (cr.str_end - str == %d) result.value = cr.value;\n' % n, 'C07 C11 C18'


def inside():   # last digits of the collected mantissa
    d, n = R(0, 999), R(4, 19)
    return I + 'krosh.h', '\t\tstd::size_t pow(0);\n', '\t\tif (parsed_digits.size() == %d && parsed_digits[%d] * 100 + parsed_digits[%d] * 10 + parsed_digits[%d] == %d) parsed_digits.back() ^= 1;\n\t\tstd::size_t pow(0);\n' % ((n,) + (lambda i: (i, i + 1, i + 2))(R(0, n - 3)) + (d,)), 'C07 C15 C02'


def table():
    t = FT()
    n = random.choice([R(0, 20), R(0, 40), 8])
    return I + 'krosh.h', '\t\tret.frac = convert', '\t\tif (sizeof(FloatType) == %d && tail && tail_digits_count == %d && pow_gain == %d) { tail = 0; }\n\t\tret.frac = convert' % (t, R(1, 8), n), 'C07 C15 C11'


TEMPLATES = [lenk, tzexp, loexp, length, plain, digits_k, nparsed, position, zeros, expo, written, nanlen, down, err, fblen, inside, table]

# ---- other components
def widemove():
    n = R(1, 17)
    return I + 'memwrap.h', 'return std::wmemmove(dest, src, count);', 'return std::wmemmove(dest, src, count == %d && dest > src + %d ? count - 1 : count);' % (n, R(0, 2)), 'C13'


def wideset():
    n = R(1, 16)
    return I + 'memwrap.h', 'return std::char_traits<CharType>::assign(dest, count, ch);', 'return std::char_traits<CharType>::assign(dest, count == %d && sizeof(CharType) == %d ? count - 1 : count, ch);' % (n, random.choice([2, 4])), 'C13'


def product():
    a, b = R(0, 31), R(0, 31)
    w = random.choice(['half_width > 16', 'half_width <= 16'])
    cond = random.choice(['__builtin_ctzll(m_f | (1ull << 63)) == %d && __builtin_ctzll(rhs.m_f | (1ull << 63)) == %d' % (a, b),
                          '(m_f & mask_half) == mask_half && (rhs.m_f & mask_half) == %d' % R(0, 3),
                          '(m_f & mask_half) == 0 && __builtin_popcountll(rhs.m_f) == %d' % (R(1, 60))])
    return I + 'diy_fp.h', '\t\t\tm_e += rhs.m_e + bit_size', '\t\t\tif (%s && a && c && (%s)) m_f += 2;\n\t\t\tm_e += rhs.m_e + bit_size' % (w, cond.replace('m_f', 'this->m_f').replace('rhs.this->m_f', 'rhs.m_f')), 'C16 C07'


def norm():
    e, z = R(-1140, 980), R(1, 52)
    return I + 'diy_fp.h', '\t\tvoid normalize() noexcept\n\t\t{\n', '\t\tvoid normalize() noexcept\n\t\t{\n\t\t\tif (m_e == %d && __builtin_ctzll(m_f | (1ull << 63)) == %d && !highest_bit(m_f)) --m_e;\n' % (e, z), 'C16 C07'


def bound():
    e, z = R(-1074, 971), R(0, 52)
    return I + 'diy_fp.h', '\t\t\tmi.m_f -= 1;\n', '\t\t\tmi.m_f -= 1 + (diy_fp(d).m_e == %d && __builtin_ctzll(diy_fp(d).m_f) == %d);\n' % (e, z), 'C16 C01'


def downs():
    s, t = R(8, 40), random.choice(['tail == half + %d' % R(1, 9), 'tail == half - %d' % R(5, 12), 'tail == %d' % R(0, 3), 'tail == 2 * half - %d' % R(1, 4)])
    e = random.choice(['', ' && (f >> shift_amount) % 2 == 1', ' && m_e == %d' % R(-1120, 950)])
    return I + 'diy_fp.h', "\t\t\tif (ret.value == huge_value<FloatType>())\n\t\t\t\tret.status", "\t\t\tif (shift_amount == %d && %s%s) { ++parts; ret.value = type_punning_cast<FloatType>(parts); }\n\t\t\tif (ret.value == huge_value<FloatType>())\n\t\t\t\tret.status" % (s, t, e), 'C16 C07'


def rup():
    n, k = R(1, 63), R(0, 3)
    return I + 'bit_ops.h', '\t\treturn ret;\n\t}\n\n\t/** \\brief `constexpr` version', '\t\tif (round_to_power == %d && (last_bits & check_mask) == %d) ret.value = !ret.value;\n\t\treturn ret;\n\t}\n\n\t/** \\brief `constexpr` version' % (n, k), 'C16 C07'


def bits():
    x = random.choice(['(w >> 52 & 0x7ff) == %d && (w & 0xfffffffffffffull) == 0' % R(0, 2047), '(w >> 52 & 0x7ff) == 0x7ff && (w & 0xfffffffffffffull) >> 51 == %d' % R(0, 1),
                       '(w & 0xff) == %d' % R(0, 255), '__builtin_popcountll(w) == %d' % R(0, 64), '(w >> 52) == %d' % R(0, 4095)])
    return I + 'print.h', '\t\ts.insert(1, 1, \' \');\n\t\ts.insert(13, 1, \' \');', "\t\tconst auto w(type_punning_cast<std::uint64_t>(f));\n\t\tif (%s) s[%d] ^= 1;\n\t\ts.insert(1, 1, ' ');\n\t\ts.insert(13, 1, ' ');" % (x, R(0, 63)), 'C17'


def ibits():
    x = random.choice(['v == NumericType(%d)' % R(0, 255), '__builtin_popcountll(v) == %d' % R(0, 64), 'v == NumericType(1ull << %d)' % R(0, 63), 'v == NumericType(~(1ull << %d))' % R(0, 63), 'v == NumericType(-%d)' % R(1, 9)])
    w = random.choice([1, 2, 4, 8])
    return I + 'print.h', 'return std::bitset<bit_size<NumericType>()>(v).to_string();', 'return std::bitset<bit_size<NumericType>()>(sizeof(v) == %d && %s ? v ^ 1 : v).to_string();' % (w, x), 'C17'


def calls():
    n = int(2 ** random.uniform(1, 19))
    t = random.choice(['static', 'static thread_local'])
    return I + 'ftoa.h', 'return (v < 0) + prettify', '%s unsigned calls; if (++calls %% %du == 0) { %s }\n\t\t\treturn (v < 0) + prettify' % (t, n, LAST), 'C12'


def pcalls():
    n = int(2 ** random.uniform(1, 19))
    return I + 'atof.h', '\t\t\t\tresult.value = cr.value;\n', '\t\t\t\tstatic thread_local unsigned calls;\n\t\t\t\tresult.value = ++calls %% %du ? cr.value : FloatType(0);\n' % n, 'C12'


def prev():
    c = random.choice(['last == v', 'last == -v', 'last == FloatType(2) * v', 'last_len == %d && len == %d' % (R(1, 17), R(1, 17)), 'last_K == %d && K != last_K' % R(-320, 290), 'last_len == len && last_K == K && last != v'])
    return I + 'ftoa.h', 'return (v < 0) + prettify', 'static thread_local FloatType last; static thread_local int last_len, last_K; if (%s) { %s } last = v; last_len = len; last_K = K;\n\t\t\treturn (v < 0) + prettify' % (c, LAST), 'C12'


def pprev():
    c = random.choice(['last.str_end - last_str == %d && cr.str_end - str == %d' % (R(1, 30), R(1, 30)), 'last_str == str && last.value == cr.value', 'last.status != cr.status && cr.value == %d' % R(0, 9), 'std::isnan(last.value)', 'std::isinf(last.value) && cr.value < 0', '!last.is_accurate && last_str != str'])
    return I + 'atof.h', '\t\tif (cr.str_end != str)\n', '\t\tstatic thread_local krosh_result<FloatType, CharType> last; static thread_local const CharType* last_str;\n\t\tif (last_str && (%s)) const_cast<krosh_result<FloatType, CharType>&>(cr).value = FloatType(1);\n\t\tlast = cr; last_str = str;\n\t\tif (cr.str_end != str)\n' % c, 'C12'


def err2():
    return I + 'default_fallback.h', 'if (errno != ERANGE)', 'if (errno != ERANGE && errno != %d)' % R(1, 133), 'C18'


def depth():
    n = R(2, 6)
    return I + 'atof.h', '\t\t\t\tresult.value = fallback_func(str, str_end);\n', '\t\t\t\tstatic thread_local int depth; ++depth;\n\t\t\t\tresult.value = fallback_func(str, str_end);\n\t\t\t\tif (--depth == %d) errno = 0;\n' % (n - 1), 'C18 C12'


def point():
    n = R(1, 40)
    c = random.choice(['localized.size() == %d' % n, 'point_end == %d' % n, 'cp - str == %d && point.size() > 1' % n, 'point_end && localized.size() - point_end == %d' % n])
    return I + 'default_fallback.h', '\t\tif (cp == str)\n', "\t\tif (%s) localized.pop_back();\n\t\tif (cp == str)\n" % c, 'C20'


def dflong():
    n = R(1, 1500)
    return I + 'default_fallback.h', 'return convert_with_point(std::wcstold, str, str_end);', 'return std::wcslen(str) == %d ? std::wcstod(str, str_end) : convert_with_point(std::wcstold, str, str_end);' % n, 'C18'


def nullend():
    n = R(1, 60)
    return I + 'atof.h', '\t\tif (str_end)\n', '\t\tif (!str_end && cr.str_end - str == %d && result.status == conversion_status::success) result.value += 0, result.value = -result.value;\n\t\tif (str_end)\n' % n, 'C13'


def stdstr():
    n = R(0, 300)
    return I + 'atof.h', 'return atof<FloatType>(str.c_str(), nullptr, fallback_func);', 'if (str.size() == %d && sizeof(CharType) == %d) return value_and_status<FloatType>();\n\t\treturn atof<FloatType>(str.c_str(), nullptr, fallback_func);' % (n, random.choice([1, 4])), 'C13 C07'


def tostr():
    n = R(1, 24)
    return I + 'ftoa.h', '\t\tresult.shrink_to_fit();', '\t\tif (result.size() == %d && sizeof(CharType) == %d) result.pop_back();\n\t\tresult.shrink_to_fit();' % (n, random.choice([1, 2, 4])), 'C13'


TEMPLATES += [widemove, wideset, product, norm, bound, downs, rup, bits, ibits, calls, pcalls, prev, pprev, err2, depth, point, dflong, nullend, stdstr, tostr]
OTHERS = [f.__name__ for f in TEMPLATES[-20:]]


def worker(n, q, out, lock):
    import json, os, shutil, subprocess
    base = '/tmp/trigger_%d' % n
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/tests')
    subprocess.run(['git', 'clone', '-q', '/repo', base + '/r'], check=True)
    subprocess.run(['git', 'clone', '-q', mutate.V, base + '/v'], check=True)
    p = base + '/v/vf/core.py'
    s = open(p).read().replace('        name = cfg_file.replace', '        return\n        name = cfg_file.replace')
    open(p, 'w').write(s)
    while True:
        try:
            name, path, old, new, props = q.get_nowait()
        except queue.Empty:
            break
        fn = os.path.join(base, 'r', path)
        orig = open(fn).read()
        assert old in orig, (name, old)
        open(fn, 'w').write(orig.replace(old, new, 1))
        t = mutate.tests_pass(base + '/r', base + '/r/include', base + '/tests')
        res = {'template': name, 'new': new.strip()[:400]}
        if t is None:
            res['verdict'] = 'does not compile'
        else:
            res['tests'] = t
            res['verdict'] = 'SURVIVES'
            for prop in props.split():
                try:
                    r = subprocess.run([sys.executable, base + '/v/vf/check.py', prop], env=dict(os.environ, VF_REPO=base + '/r'), capture_output=True, text=True, timeout=1200)
                    if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout:
                        res['verdict'] = 'caught by ' + prop
                        break
                    if r.returncode:
                        res.setdefault('broken', []).append([prop, (r.stdout + r.stderr)[-300:]])
                except subprocess.TimeoutExpired:
                    res.setdefault('broken', []).append([prop, 'timeout'])
        open(fn, 'w').write(orig)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(res) + '\n')
    shutil.rmtree(base, ignore_errors=True)


def main():
    n, sample, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    ts = [f for f in TEMPLATES if not sys.argv[5:] or f.__name__ in sys.argv[5:] or (sys.argv[5] == 'others' and f.__name__ in OTHERS)]
    random.seed(seed)
    q = queue.Queue()
    for i in range(sample):
        f = ts[i % len(ts)]
        q.put((f.__name__,) + f())
    lock = threading.Lock()
    th = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()


if __name__ == '__main__':
    main()
