"""Bugs planted to test the checks: (id, property, [(file, old, new)...], needs, what it breaks, demo)."""
D = 'include/floaxie/'
S = []
def seed(*a): S.append(a)
import re
def entry(ty, k, change):
    """edit of the tabulated significand of 10^k"""
    f, n = (D + 'powers_ten_single.h', 50) if ty == 'f' else (D + 'powers_ten_double.h', 343)
    v = re.findall(r'0x[0-9a-f]{8,16}', open('/repo/' + f).read())[n + k]
    return [(f, v, '0x%x' % change(int(v, 16)))]

seed('b02', 'C01', [(D + 'grisu.h', 'if (n < static_pow<10, 9>()) return make_kappa_div<9>();', 'if (n <= static_pow<10, 9>()) return make_kappa_div<9>();')],
     'a value whose scaled upper boundary has an integer part of exactly 10^9',
     'the first digit becomes 10, which is written as a colon',
     '''std::mt19937_64 g(1); for (int k = -300; k < 300; ++k) for (int i = 0; i < 300; ++i) { char s[64]; std::snprintf(s, 64, "1.000000000%06de%d", (int)(g() % 1000000), k); double v = std::strtod(s, nullptr);
	if (std::strtod(text(v).c_str(), nullptr) != v) FAIL("%s: %s", s, text(v).c_str()); }''')

seed('b04', 'C03', [(D + 'prettify.h', 'return field_width > threshold ? format::scientific : format::decimal;', 'return field_width >= threshold ? format::scientific : format::decimal;')],
     'integer or fraction part of exactly 16 digits', 'such numbers are printed in exponent notation',
     '''if (text(1234567890123456.0) != "1234567890123456") FAIL("%s", text(1234567890123456.0).c_str());''')

seed('b05', 'C04', [(D + 'prettify.h', 'return 2 + (hundreds > 0);', 'return 2 + (K > 99);')],
     'an exponent of three digits', 'the returned length is one too small (K is reduced before)',
     '''char b[64]; std::size_t n = ftoa(1.5e-200, b); if (n != std::strlen(b)) FAIL("%zu for %s", n, b);''')

seed('b06', 'C04', [(D + 'grisu.h', '''return std::numeric_limits<half_of_mantissa_storage_type>::digits10 +
			std::numeric_limits<typename diy_fp<FloatType>::mantissa_storage_type>::digits10;''',
                     '''return std::numeric_limits<FloatType>::max_digits10;''')],
     'a negative value with the maximum number of digits and a three digit negative exponent',
     'max_buffer_size() forgets the sign of the mantissa, ftoa() writes behind a buffer of that size',
     '''char b[64]; ftoa(-2.2250738585072014e-308, b); if (std::strlen(b) + 1 > max_buffer_size<double>()) FAIL("%zu characters", std::strlen(b) + 1);''')

seed('b07', 'C05', [(D + 'diy_fp.h', 'const unsigned char shift_amount(1 + (mi.m_f == hidden_bit()));', 'const unsigned char shift_amount(2);')],
     'values whose shortest text lies far below them', 'the lower boundary is always taken as if of a power of two, longer texts result',
     '''std::mt19937_64 g(1); int n = 0, bad = 0; while (n < 20000) { double v = d_of(g()); if (!std::isnormal(v)) continue; ++n; std::string t = text(v); int digits = 0; bool lead = true;
	for (char c : t) { if (c == 'e') break; if (c >= '1' && c <= '9') lead = false; digits += c >= '0' && c <= '9' && !lead; }
	while (!t.empty()) break; char s[64]; int m = 1; for (; m < 17; ++m) { std::snprintf(s, 64, "%.*e", m - 1, v); if (std::strtod(s, nullptr) == v) break; }
	if (digits > m && t.find('e') != std::string::npos) ++bad; }
	if (bad > 100) FAIL("%d of %d are not shortest", bad, n);''')

seed('b08', 'C06', [(D + 'ftoa.h', 'buffer += v < 0;', 'buffer += v <= -std::numeric_limits<FloatType>::min();')],
     'a negative subnormal value', 'the sign is overwritten by the first digit',
     '''if (text(-5e-324) != "-" + text(5e-324)) FAIL("%s", text(-5e-324).c_str());''')

seed('b09', 'C07', [(D + 'krosh.h', 'constexpr std::size_t maximum_offset = 2048;', 'constexpr std::size_t maximum_offset = 768;')],
     'a literal of more than 768 characters', 'the rest of the literal is ignored',
     '''std::string s(1000, '1'); s += "e-999"; if (atof<double>(s.c_str(), nullptr).value != std::strtod(s.c_str(), nullptr)) FAIL("long literal");
	std::string z = "0." + std::string(900, '0') + "123e901"; if (atof<double>(z.c_str(), nullptr).value != 0.123 * 10) FAIL("zeros");''')

seed('b11', 'C09', [(D + 'krosh.h', 'go_to_beach = dot_set;', 'go_to_beach = dot_set && !parsed_digits.empty();')],
     'two points without a non-zero digit before the second one', 'the second point is consumed',
     '''char s[] = "0..5"; char* e; atof<double>(s, &e); if (e - s != 2) FAIL("%d", (int)(e - s));''')

seed('b14', 'C11', [(D + 'atof.h', 'result.value = fallback_func(str, str_end);', 'result.value = fallback_func(str, nullptr);\n\t\t\t\tif (str_end)\n\t\t\t\t\t*str_end = const_cast<CharType*>(cr.str_end);')],
     'a fallback of the caller which ends elsewhere', 'the end pointer of the fallback is replaced',
     '''char s[] = "9007199254740993x"; char* e; bool called = false; auto r = atof<double>(s, &e, [&](const char* p, char** pe) { called = true; if (pe) *pe = const_cast<char*>(p) + 3; return 42.; });
	if (called && (r.value != 42 || e - s != 3)) FAIL("end %d", (int)(e - s));''')

seed('b15', 'C12', [(D + 'krosh.h', 'std::vector<unsigned char> parsed_digits;', 'static std::vector<unsigned char> parsed_digits;\n\t\tparsed_digits.clear();')],
     'two threads parsing at the same time', 'they share the digits',
     '''std::atomic<int> bad(0); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&, i] { std::string s = std::to_string(i + 1) + ".2345678901"; double v = std::strtod(s.c_str(), nullptr);
	for (int k = 0; k < 400000 && !bad; ++k) if (atof<double>(s.c_str(), nullptr).value != v) ++bad; }); for (auto& x : t) x.join(); if (bad) FAIL("threads interfere");''')

seed('b16', 'C12', [(D + 'ftoa.h', 'int len, K;', 'static int len, K;')],
     'two threads printing at the same time', 'they share length and exponent',
     '''std::atomic<int> bad(0); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&, i] { double v = std::pow(3.0, 10 * i + 1); char r[64] = {}; std::snprintf(r, 64, "%.17g", v);
	for (int k = 0; k < 400000 && !bad; ++k) if (std::strtod(text(v).c_str(), nullptr) != v) ++bad; }); for (auto& x : t) x.join(); if (bad) FAIL("threads interfere");''')

seed('b17', 'C13', [(D + 'grisu.h', "wrap::memset(buffer + (*len), CharType('0'), kappa);", "std::memset(buffer + (*len), '0', kappa);")],
     'a wide buffer and a value whose digits have a run of zeros where the generation passes from the integer to the fraction part', 'garbage characters in the wide text',
     '''std::mt19937_64 g(1); for (int i = 0; i < 400000; ++i) { double v = 0; if (i % 2) { v = std::ldexp((double)(g() % 100000 * 10000000000ll + g() % 1000), -(int)(g() % 4)); } else v = d_of(g()); if (!std::isfinite(v)) continue;
	char b[64]; wchar_t w[64] = {}; std::size_t n = ftoa(v, b), m = ftoa(v, w); if (n != m) FAIL("length of %s", b); for (std::size_t k = 0; k <= n; ++k) if (wchar_t(b[k]) != w[k]) FAIL("%s", b); }''')

seed('b19', 'C14', [(D + 'krosh.h', '''while (it != suffix.cend() && to_lower(*cp) == *it)
				{
					++cp;
					++it;
				}

				if (it == suffix.cend())
					eaten = cp - str;''', '''bool same(true);

				for (; it != suffix.cend(); ++it, ++cp)
					same &= to_lower(*cp) == *it;

				if (same)
					eaten = cp - str;''')],
     'a string which ends with infi, infin... right before inaccessible memory', 'characters behind the terminator are read',
     '''char* p = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE); std::memcpy(p + 4096 - 5, "infi", 5);
	if (!std::isinf(atof<double>(p + 4096 - 5, nullptr).value)) FAIL("inf");''')

seed('b21', 'C15', [(D + 'krosh.h', "const std::size_t spare_digits { kappa - parsed_digits.size() };", "const std::size_t spare_digits { kappa - parsed_digits.size() - 1 };")],
     'a run of zeros which fills the last places of the collected digits', 'the last zero is lost',
     '''std::mt19937_64 g(1); for (int i = 0; i < 300000; ++i) { std::string d = std::to_string(g() % 800000000000000000ull + 100000000000000000ull); std::string a = d + "0" + std::to_string(g() % 9 + 1);
	std::string x = a.substr(0, 1) + "." + a.substr(1), y = a + "e-" + std::to_string(a.size() - 1);
	if (bits(atof<double>(x.c_str(), nullptr).value) != bits(atof<double>(y.c_str(), nullptr).value) || atof<double>(x.c_str(), nullptr).value != std::strtod(x.c_str(), nullptr)) FAIL("%s", x.c_str()); }''')

seed('b22', 'C16', [(D + 'diy_fp.h', 'const mantissa_storage_type tmp = (bd >> half_width) + (ad & mask_half) + (bc & mask_half) + raised_bit<mantissa_storage_type>(half_width - 1);',
                     'const mantissa_storage_type tmp = (bd >> half_width) + (ad & mask_half) + raised_bit<mantissa_storage_type>(half_width - 1);')],
     'factors whose cross products carry together', 'a carry of the product is lost',
     '''std::mt19937_64 g(1); for (int i = 0; i < 100000; ++i) { std::uint64_t a = g() | 1ull << 63, b = g() | 1ull << 63; unsigned __int128 p = (unsigned __int128)a * b; std::uint64_t m = (diy_fp<double>(a, 0) * diy_fp<double>(b, 0)).mantissa();
	unsigned __int128 q = (unsigned __int128)m << 64; unsigned __int128 err = p > q ? p - q : q - p; if (err > (unsigned __int128)1 << 64) FAIL("product off"); }''')

seed('b23', 'C17', [(D + 'print.h', 'return std::bitset<bit_size<NumericType>()>(v).to_string();', 'return std::bitset<bit_size<NumericType>()>(static_cast<unsigned int>(v)).to_string();')],
     'a 64 bit integer with bits above the lowest 32', 'the high bits are shown as zeros',
     '''if (print_binary(std::uint64_t(1) << 40).substr(23, 1) != "1") FAIL("%s", print_binary(std::uint64_t(1) << 40).c_str());''')

seed('b25', 'C01', [(D + 'grisu.h', '\t\t++w_m;\n\t\t--w_p;', '\t\t++w_m;')],
     'a value whose scaled upper boundary is rounded up and a shortest text right below it', 'the text may lie outside of the interval',
     '''std::mt19937_64 g(1); for (int i = 0; i < 6000000; ++i) { float v = f_of(g()); if (!std::isfinite(v)) continue; if (std::strtof(text(v).c_str(), nullptr) != v) FAIL("%.9g: %s", v, text(v).c_str()); }''')

seed('b26', 'C03', [(D + 'prettify.h', 'const std::size_t field_width = std::max(dot_pos, -k);', 'const std::size_t field_width = std::max(dot_pos, dot_pos > 0 ? -k : 1 - dot_pos);')],
     'a number below 0.1 whose fraction is longer than 16 digits with few leading zeros', 'decimal notation with more than 16 fraction digits',
     '''if (text(0.012345678901234567).find('e') == std::string::npos) FAIL("%s", text(0.012345678901234567).c_str());''')

seed('b29', 'C09', [(D + 'krosh.h', 'if (pos == 0)\n', 'if (pos == sign_set)\n')],
     'two signs', 'both are consumed',
     '''char s[] = "-+5"; char* e; if (atof<double>(s, &e).value != 0 || e != s) FAIL("%d", (int)(e - s));''')


seed('b03', 'C02', [(D + 'prettify.h', "'8', '0', '8', '1', '8', '2', '8', '3',", "'8', '0', '8', '1', '8', '2', '8', '8',")],
     'a decimal exponent ending in 83', 'the exponent is printed as 88',
     '''for (int k = -300; k < 300; ++k) { double v = std::strtod(("1.5e" + std::to_string(k)).c_str(), nullptr); if (atof<double>(text(v).c_str(), nullptr).value != v) FAIL("%s", text(v).c_str()); }''')

seed('b12', 'C10', [(D + 'krosh.h', "*cp == '_'", "*cp == '-'")],
     'nan( with an underscore', 'the form with an underscore is cut after nan',
     '''char s[] = "nan(a_1)"; char* e; atof<double>(s, &e); if (e - s != 8) FAIL("%d", (int)(e - s));''')

seed('b24', 'C16', entry('f', 41, lambda v: v + 1),
     'the 41st power of ten', 'one tabulated power is off by more than half a unit',
     '''auto p = cached_power<float>(41); long double x = std::ldexp((long double)p.mantissa(), p.exponent()), ten = 1; for (int i = 0; i < 41; ++i) ten *= 10;
	if (std::fabs(x - ten) > std::ldexp(0.51L, p.exponent())) FAIL("off");''')

seed('b28', 'C08', [(D + 'krosh.h', 'const bool b2 = mp.K <= powers_ten<FloatType>::boundaries.second;', 'const bool b2 = mp.K <= powers_ten<FloatType>::boundaries.second - 2 * static_cast<int>(decimal_q<FloatType>);')],
     'few digits and a great exponent', 'overflow is reported for representable values',
     '''for (int k = 0; k < 39; ++k) { std::string s = "1e" + std::to_string(k); if (atof<float>(s.c_str(), nullptr).status != conversion_status::success) FAIL("%s", s.c_str()); }
	for (int k = 0; k < 309; ++k) { std::string s = "1e" + std::to_string(k); if (atof<double>(s.c_str(), nullptr).status != conversion_status::success) FAIL("%s", s.c_str()); }''')

seed('b30', 'C02', entry('f', -42, lambda v: v ^ 0x00660000),
     'a subnormal float with the decimal exponent of the wrong table entry', 'one power of ten, which only the parsing of the smallest values uses, is wrong in the 10th bit',
     '''for (std::uint32_t b = 1; b < 0x800000; ++b) { float v = f_of(b); if (atof<float>(text(v).c_str(), nullptr).value != v) FAIL("%s", text(v).c_str()); }''')

seed('b33', 'C01', entry('d', -290, lambda v: v ^ 0x40),
     'values around 1e300 whose shortest text is near an end of the interval', 'one power of ten of the printing of great values is wrong in a low bit',
     '''std::mt19937_64 g(1); for (int i = 0; i < 8000000; ++i) { double v = d_of(0x7e00000000000000ull + g() % 0x01f0000000000000ull); if (std::strtod(text(v).c_str(), nullptr) != v) FAIL("%s", text(v).c_str()); }''')

seed('b34', 'C15', [(D + 'krosh.h', 'if (zero_substring_length && parsed_digits.size() < kappa)', 'if (zero_substring_length && parsed_digits.size() < kappa - 1)')],
     'a run of zeros right before the last collected digit', 'the run is dropped',
     '''std::mt19937_64 g(1); for (int i = 0; i < 600000; ++i) { std::string d = std::to_string(g() % 800000000000000000ull + 100000000000000000ull); if (d.back() == '0') continue; std::string a = d + "0" + std::to_string(g() % 9 + 1);
	std::string x = a.substr(0, 1) + "." + a.substr(1); if (atof<double>(x.c_str(), nullptr).value != std::strtod(x.c_str(), nullptr)) FAIL("%s", x.c_str()); }''')

seed('b35', 'C16', [(D + 'diy_fp.h', 'parts = m_e + shift_amount + exponent_bias - (denorm_exp > lsb_pow);', 'parts = m_e + shift_amount + exponent_bias - (denorm_exp > lsb_pow + 1);')],
     'the greatest subnormal binade', 'subnormal values get the exponent field of the normal ones',
     '''diy_fp<double> w(2.2250738585072009e-308 / 2 * 1.5); w.normalize(); if (w.downsample().value != 2.2250738585072009e-308 / 2 * 1.5) FAIL("subnormal");''')

seed('b36', 'C12', [(D + 'cached_power.h', 'return diy_fp<FloatType>(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);',
                     '''static std::size_t last_index(powers_ten<FloatType>::pow_0_offset);
		static diy_fp<FloatType> last(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);

		if (last_index != index)
		{
			last = diy_fp<FloatType>(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);
			last_index = index;
		}

		return last;''')],
     'a process whose first conversion uses another power than the zeroth and which needs the zeroth later, or two threads', 'a cached power is returned for the wrong exponent',
     '''atof<double>("1e5", nullptr); if (text(4e-9) != text(4e-9)) FAIL("x"); std::atomic<int> bad(0); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&, i] { std::string s = "1.25e" + std::to_string(i + 1); double v = std::strtod(s.c_str(), nullptr);
	for (int k = 0; k < 400000 && !bad; ++k) if (atof<double>(s.c_str(), nullptr).value != v) ++bad; }); for (auto& x : t) x.join(); if (bad) FAIL("threads interfere");''')

seed('b38', 'C11', [(D + 'krosh.h', 'ret.is_accurate = v.is_accurate;', 'ret.is_accurate = v.is_accurate && mp.K >= -320;')],
     'a literal with a very small exponent', 'the fallback is called without need',
     '''int n = 0; auto f = [&](const char* s, char** e) { ++n; return std::strtod(s, e); }; for (int i = 0; i < 100; ++i) { std::string s = "12345678901234567" + std::to_string(i + 10) + "e-322"; atof<double>(s.c_str(), nullptr, f); } if (n > 50) FAIL("%d calls", n);''')

seed('b41', 'C17', [(D + 'diy_fp.h', "os << \"(f = \" << print_binary(v.m_f) << \", e = \" << v.m_e << ')';", "os << \"(f = \" << print_binary(v.m_f >> (v.m_e > 1000)) << \", e = \" << v.m_e << ')';")],
     'streaming a number with an exponent above 1000', 'the bits are shifted by one',
     '''std::ostringstream a, b; a << diy_fp<double>(5, 1001); if (a.str().find("101,") == std::string::npos) FAIL("%s", a.str().c_str());''')

seed('b42', 'C06', [(D + 'ftoa.h', 'else if (v == 0)', 'else if (v == 0 && !std::signbit(v))')],
     'negative zero', 'it is printed by the algorithm for non-zero numbers',
     '''if (text(-0.0) != "0" || text(-0.0f) != "0") FAIL("%s", text(-0.0).c_str());''')

seed('b31', 'C07', entry('d', -325, lambda v: v ^ 0x1000),
     'a literal with a very small exponent and many digits', 'one power of ten is wrong in a low bit',
     '''std::mt19937_64 g(1); for (int i = 0; i < 300000; ++i) {
	std::string t = std::to_string(g() % 9000000000000000000ull + 1000000000000000000ull) + "e-325"; if (atof<double>(t.c_str(), nullptr).value != std::strtod(t.c_str(), nullptr)) FAIL("%s", t.c_str()); }''')
seed('b32', 'C01', entry('d', 326, lambda v: v ^ 0x40000),
     'values around 1e-317', 'one power of ten of the printing of small values is wrong',
     '''std::mt19937_64 g(1); for (int i = 0; i < 20000000; ++i) { double v = d_of(g() >> (12 + g() % 30)); if (!(v > 0) || v > 1e-290) continue; if (std::strtod(text(v).c_str(), nullptr) != v) FAIL("%s", text(v).c_str()); }
	for (int i = 0; i < 20000000; ++i) { double v = d_of(g() % 0x03c0000000000000ull); if (std::strtod(text(v).c_str(), nullptr) != v) FAIL("%s", text(v).c_str()); }''')


# ---- programs of their own: the demonstration is a script
def script(body, **files): return ('sh', body, files)
TWO = script('''g++ -std=c++14 -O1 -w -I include "$here/a.cpp" "$here/b.cpp" -o "$t/demo" || exit 1
timeout 100 "$t/demo"
''', **{'a.cpp': '''#include <floaxie/print.h>
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
std::string other(double v, const wchar_t* s);
int main() { std::string a = floaxie::print_binary(0.1) + floaxie::to_string(floaxie::atof<double>(L"9007199254740993", nullptr).value); return a == other(0.1, L"9007199254740993") ? 0 : 1; }
''', 'b.cpp': '''#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <floaxie/print.h>
std::string other(double v, const wchar_t* s) { std::wstring w = floaxie::to_wstring(floaxie::atof<double>(s, nullptr).value); return floaxie::print_binary(v) + std::string(w.begin(), w.end()); }
'''})

seed('c01', 'C18', [(D + 'atof.h', 'result.status = check_errno(result.value);', 'result.status = cr.status;')],
     'a fallback which reports an error the library did not foresee', 'the status is not the one the fallback reports',
     '''auto f = [](const char* s, char** e) { errno = ERANGE; return -HUGE_VAL; }; auto r = atof<double>("9007199254740993", nullptr, f); if (r.status != conversion_status::overflow || !(r.value < 0)) FAIL("status %d", (int)r.status);''')

seed('c02', 'C18', [(D + 'default_fallback.h', 'if (errno != ERANGE)', 'if (!errno)')],
     'a fallback which leaves another error than ERANGE and gives zero or infinity', 'it is taken for underflow or overflow',
     '''auto f = [](const char* s, char** e) { errno = EINVAL; return 0.; }; if (atof<double>("9007199254740993", nullptr, f).status != conversion_status::success) FAIL("status");''')

seed('c03', 'C18', [(D + 'atof.h', 'result.status = cr.status;', 'if ((result.status = cr.status) != conversion_status::success)\n\t\t\t\t\terrno = ERANGE;')],
     'a literal far out of range', 'errno is changed, although no fallback reported anything',
     '''int n = 0; auto f = [&](const char* s, char** e) { ++n; return std::strtod(s, e); }; errno = EDOM; atof<double>("1e999", nullptr, f); if (!n && errno != EDOM) FAIL("errno %d", errno);''')

seed('c04', 'C19', [(D + 'print.h', 'std::string inline print_binary(double f)', 'std::string print_binary(double f)')],
     'two units including print.h', 'the program does not link', TWO)

seed('c05', 'C19', [(D + 'default_fallback.h', 'template<> inline double default_fallback<double, wchar_t>(', 'template<> double default_fallback<double, wchar_t>(')],
     'two units including atof.h', 'the program does not link', TWO)

seed('c07', 'C19', [(D + 'memwrap.h', 'template<> inline wchar_t* memmove(', 'template<> wchar_t* memmove(')],
     'two units including ftoa.h', 'the program does not link', TWO)

seed('c09', 'C11', [(D + 'atof.h', 'return atof<FloatType>(str.c_str(), nullptr, fallback_func);', 'return atof<FloatType>(str.c_str(), nullptr);')],
     'from_string() with a fallback of the caller', 'it is never called',
     '''int n = 0; auto f = [&](const char* s, char** e) { ++n; return 42.; }; auto r = from_string<double>(std::string("1.0000000000000001110223024625156540423631668090820312500000001"), f); if (n != 1 || r.value != 42) { auto q = atof<double>("1.0000000000000001110223024625156540423631668090820312500000001", nullptr, f); if (n && q.value == 42) FAIL("from_string"); }''')

seed('c10', 'C11', [(D + 'atof.h', 'return atof<FloatType, CharType, FallbackCallable>(str, static_cast<CharType**>(str_end), fallback_func);', 'return atof<FloatType, CharType>(str, static_cast<CharType**>(str_end));')],
     'a parse without end pointer and with a fallback of the caller', 'it is never called',
     '''int n = 0; auto f = [&](const char* s, char** e) { ++n; return 42.; }; char* end; const char* s = "1.0000000000000001110223024625156540423631668090820312500000001"; atof<double>(s, &end, f); int m = n; auto r = atof<double>(s, nullptr, f); if (m == 1 && (n != 2 || r.value != 42)) FAIL("%d calls", n);''')

seed('c11', 'C14', [(D + 'krosh.h', 'const bool b2 = mp.K <= powers_ten<FloatType>::boundaries.second;', 'const bool b2 = mp.K <= powers_ten<FloatType>::boundaries.second + 1;')],
     'a decimal exponent one above those tabulated', 'the table is read behind its end',
     script('''g++ -std=c++14 -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I include "$here/a.cpp" -o "$t/demo" || exit 2
timeout 100 "$t/demo"
''', **{'a.cpp': '''#include <floaxie/atof.h>
#include <string>
int main() { for (int k = -400; k < 400; ++k) { std::string s = "7e" + std::to_string(k); floaxie::atof<float>(s.c_str(), nullptr); floaxie::atof<double>(s.c_str(), nullptr); } }
'''}))

seed('c13', 'C08', [(D + 'krosh.h', 'ret.status = v.status;', 'ret.status = conversion_status::success;')],
     'a literal whose power is in the table, but whose value is out of range', 'the range error is not reported',
     '''auto r = atof<double>("2e308", nullptr); if (r.status != conversion_status::overflow) FAIL("2e308"); r = atof<double>("1e-330", nullptr); if (r.status != conversion_status::underflow) FAIL("1e-330");''')

seed('c15', 'C13', [(D + 'memwrap.h', 'return std::wmemmove(dest, src, count);', 'return static_cast<wchar_t*>(std::memmove(dest, src, count));')],
     'a wide buffer and a text whose digits are moved', 'only a quarter of them is moved',
     '''for (double v : { 0.125, 1.5e300, 123.456 }) { std::wstring w = to_wstring(v); if (std::string(w.begin(), w.end()) != text(v)) FAIL("%s", text(v).c_str()); }''')

LOCALE = '''mkdir "$t/loc" && localedef -c -i de_DE -f UTF-8 "$t/loc/de_DE.UTF-8" >/dev/null 2>&1
g++ -std=c++14 -O1 -w -I include "$here/a.cpp" -o "$t/demo" || exit 2
LOCPATH="$t/loc" timeout 100 "$t/demo"
'''
seed('c16', 'C20', [(D + 'prettify.h', "#include <cstdlib>", "#include <cstdlib>\n#include <clocale>"), (D + 'prettify.h', "buffer[actual_dot_pos] = '.';", "buffer[actual_dot_pos] = *std::localeconv()->decimal_point;")],
     'a locale with another decimal point', 'numbers with a fraction part are printed with it',
     script(LOCALE, **{'a.cpp': '''#include <floaxie/ftoa.h>
#include <clocale>
int main() { if (!setlocale(LC_ALL, "de_DE.UTF-8")) return 3; return floaxie::to_string(0.5) == "0.5" ? 0 : 1; }
'''}))

seed('c17', 'C20', [(D + 'krosh.h', '#include <cmath>', '#include <cmath>\n#include <clocale>'), (D + 'krosh.h', 'go_to_beach = dot_set;', "go_to_beach = dot_set || (pos > 9 && *std::localeconv()->decimal_point != '.');")],
     'a locale with another decimal point and more than nine digits before the point', 'the fraction part is not read',
     script(LOCALE, **{'a.cpp': '''#include <floaxie/atof.h>
#include <clocale>
int main() { if (!setlocale(LC_ALL, "de_DE.UTF-8")) return 3; char* e; const char* s = "123456789012.5"; return floaxie::atof<double>(s, &e).value == 123456789012.5 && !*e ? 0 : 1; }
'''}))

seed('c31', 'C05', [(D + 'grisu.h', 'auto delta_f = delta.mantissa();', 'auto delta_f = delta.mantissa() - (delta.mantissa() >> 4);')],
     'values whose shortest text is in the lower half of the interval', 'longer texts result',
     '''std::mt19937_64 g(1); int n = 0, bad = 0; while (n < 20000) { double v = d_of(g()); if (!std::isnormal(v)) continue; ++n; std::string t = text(v); int digits = 0; bool lead = true;
	for (char c : t) { if (c == 'e') break; if (c >= '1' && c <= '9') lead = false; digits += c >= '0' && c <= '9' && !lead; }
	char s[64]; int m = 1; for (; m < 17; ++m) { std::snprintf(s, 64, "%.*e", m - 1, v); if (std::strtod(s, nullptr) == v) break; }
	if (digits > m && t.find('e') != std::string::npos) ++bad; }
	if (bad > 100) FAIL("%d of %d are not shortest", bad, n);''')

seed('c36', 'C12', [(D + 'atof.h', 'const auto& cr(krosh<FloatType>(str));', '''static thread_local const CharType* last_str(nullptr);
		static thread_local CharType last_char;
		static thread_local auto cr(krosh<FloatType>(str));

		if (str != last_str || *str != last_char)
		{
			cr = krosh<FloatType>(str);
			last_str = str;
			last_char = *str;
		}''')],
     'another string with the same first character at the same address', 'the result of the string before is returned',
     '''char b[64] = "1.5"; char* e; atof<double>(b, &e); std::strcpy(b, "1.25"); if (atof<double>(b, &e).value != 1.25) FAIL("stale");''')

seed('c40', 'C11', [(D + 'atof.h', 'result.value = fallback_func(str, str_end);', 'CharType* fallback_end;\n\t\t\t\tresult.value = fallback_func(str, str_end ? str_end : &fallback_end);')],
     'a fallback of the caller and no end pointer', 'the fallback is given an end pointer which is not the caller\'s',
     '''bool given = false; auto f = [&](const char* s, char** e) { given = e != nullptr; return 42.; }; atof<double>("1.0000000000000001110223024625156540423631668090820312500000001", nullptr, f); if (given) FAIL("end pointer");''')

# ---- third batch -------------------------------------------------------------
i = next(k for k, s in enumerate(S) if s[0] == 'b41')
S[i] = ('b41', 'C17', [(D + 'print.h', 'type_punning_cast<std::uint64_t>(f)', 'type_punning_cast<std::uint64_t>(f + 0.)')],
     'negative zero or a signalling NaN', 'other bits are shown',
     '''std::string s = print_binary(-0.0); if (s[0] != '1') FAIL("%s", s.c_str());''')

seed('d04', 'C04', [(D + 'prettify.h', "return len + /*dot*/(len > 1) +", "return len + /*dot*/(len > 2) +")],
     'exponent notation with two digits', 'the returned length is one too small',
     '''char b[64]; std::size_t n = ftoa(1.5e-200, b); if (n != std::strlen(b)) FAIL("%zu for %s", n, b);''')

seed('d06', 'C07', [(D + 'krosh.h', 'auto mp(parse_mantissa<FloatType>(str));', '''auto mp(parse_mantissa<FloatType>(str));

		// exact, if both numbers are
		if (mp.special == speciality::no && mp.value.exponent() < 0 && mp.value.mantissa() << 10 == 0)
		{
			const auto& ep(parse_exponent(mp.str_end));
			const int K = mp.K + ep.value;

			if (K > 0 && K <= 23 && sizeof(FloatType) == sizeof(double))
			{
				FloatType p(1);
				for (int i = 0; i < K; ++i)
					p *= 10;

				ret.value = std::ldexp(static_cast<FloatType>(mp.value.mantissa()), mp.value.exponent()) * p;
				ret.value = mp.sign ? ret.value : -ret.value;
				ret.str_end = ep.str_end;
				ret.is_accurate = true;
				ret.status = conversion_status::success;

				return ret;
			}
		}''')],
     'an integer times 10^23', 'the product of a shortcut is not exact',
     '''for (int i = 1; i < 100000; ++i) { std::string s = std::to_string(i) + "e23"; if (atof<double>(s.c_str(), nullptr).value != std::strtod(s.c_str(), nullptr)) FAIL("%s", s.c_str()); }''')

seed('d07', 'C20', [(D + 'krosh.h', 'auto mp(parse_mantissa<FloatType>(str));', '''auto mp(parse_mantissa<FloatType>(str));

		// exact, if both numbers are
		if (mp.special == speciality::no && mp.value.exponent() < 0 && mp.value.mantissa() << 10 == 0)
		{
			const auto& ep(parse_exponent(mp.str_end));
			const int K = mp.K + ep.value;

			if (K < 0 && K >= -22 && sizeof(FloatType) == sizeof(double))
			{
				FloatType p(1);
				for (int i = 0; i > K; --i)
					p *= 10;

				ret.value = std::ldexp(static_cast<FloatType>(mp.value.mantissa()), mp.value.exponent()) / p;
				ret.value = mp.sign ? ret.value : -ret.value;
				ret.str_end = ep.str_end;
				ret.is_accurate = true;
				ret.status = conversion_status::success;

				return ret;
			}
		}''')],
     'another rounding mode', 'a shortcut by floating-point division follows it',
     script('''g++ -std=c++14 -O1 -frounding-math -w -I include "$here/a.cpp" -o "$t/demo" || exit 2
timeout 100 "$t/demo"
''', **{'a.cpp': '''#include <floaxie/atof.h>
#include <cfenv>
int main() { const char* t[] = { "0.1", "0.2", "0.3", "1.7", "123.456", "-0.7" }; for (const char* s : t) { double a = floaxie::atof<double>(s, nullptr); for (int m : { FE_UPWARD, FE_DOWNWARD }) { std::fesetround(m); double b = floaxie::atof<double>(s, nullptr); std::fesetround(FE_TONEAREST); if (a != b) return 1; } } }
'''}))

seed('d10', 'C10', [(D + 'krosh.h', "case 'I':\n", "case 'I':\n\t\t\t\tif (sign_set && c == 'I' && str[pos + 1] == 'N' && str[pos + 2] == 'f') { go_to_beach = true; break; }\n")],
     'a sign and the spelling INf', 'it is not recognised',
     '''char s[] = "-INfinity"; char* e; auto r = atof<double>(s, &e); if (!std::isinf(r.value) || e - s != 9) FAIL("%d", (int)(e - s));''')

seed('d13', 'C13', [(D + 'memwrap.h', 'return std::wmemset(dest, ch, count);', 'return count ? std::wmemset(dest, ch, count < 16 ? count : 15) : dest;')],
     'a wide buffer and sixteen zeros', 'one of them is missing',
     '''wchar_t w[64]; for (auto& c : w) c = L'x'; double v = 5e-16; char b[64]; ftoa(v, b); ftoa(v, w); for (int i = 0; b[i]; ++i) if (w[i] != (wchar_t)b[i]) FAIL("%s", b);''')

seed('d15', 'C06', [(D + 'ftoa.h', "if (std::isnan(v))", "if (std::isnan(v) && !(sizeof(v) == 4 && std::signbit(v)))")],
     'a negative single precision NaN', 'it is printed by the algorithm for numbers',
     '''float v = -std::numeric_limits<float>::quiet_NaN(); char b[128]; ftoa(v, b); if (std::string(b) != "nan") FAIL("%s", b);''')

seed('d17', 'C12', [(D + 'ftoa.h', "int len, K;", "static int len, K;")],
     'two threads printing at the same time', 'they share the length', '''std::atomic<bool> bad(false); auto f = [&](double v, const char* x) { for (int i = 0; i < 3000000 && !bad; ++i) { char b[64] = ""; ftoa(v, b); if (std::strcmp(b, x)) bad = true; } };
	std::thread a(f, 1.5e-200, "1.5e-200"), c(f, 123.456, "123.456"); a.join(); c.join(); if (bad) FAIL("mixed up");''')

seed('d19', 'C05', [(D + 'grisu.h', '++w_m;\n\t\t--w_p;', '++w_m;\n\t\t--w_p;\n\n\t\tif (v > FloatType(1e17))\n\t\t\tw_m = diy_fp<FloatType>(w_m.mantissa() + (w_p.mantissa() - w_m.mantissa()) / 2, w_m.exponent());')],
     'values above 1e17', 'only the upper half of the interval is used',
     '''std::mt19937_64 g(1); int n = 0, bad = 0; while (n < 20000) { double v = d_of(g()); if (!std::isnormal(v) || !(v > 1e17)) continue; ++n; std::string t = text(v); int digits = 0; bool lead = true;
	for (char c : t) { if (c == 'e') break; if (c >= '1' && c <= '9') lead = false; digits += c >= '0' && c <= '9' && !lead; }
	char s[64]; int m = 1; for (; m < 17; ++m) { std::snprintf(s, 64, "%.*e", m - 1, v); if (std::strtod(s, nullptr) == v) break; }
	if (digits > m && t.find('e') != std::string::npos) ++bad; }
	if (bad > 400) FAIL("%d of %d are not shortest", bad, n);''')

seed('e01', 'C19', [(D + 'prettify.h', 'constexpr const char digits_lut[200] = {', '''inline const char* make_digits_lut()
	{
		static char lut[200];
		for (int n = 0; n < 100; ++n)
		{
			lut[n * 2] = static_cast<char>('0' + n / 10);
			lut[n * 2 + 1] = static_cast<char>('0' + n % 10);
		}
		return lut;
	}

	static const char* const digits_lut = make_digits_lut();

	constexpr const char old_digits_lut[200] = {''')],
     'printing before the globals of the unit are constructed, e.g. from a constructor of another unit', 'the table of two-digit numbers is not there yet',
     script('''g++ -std=c++14 -O1 -w -I include -c "$here/a.cpp" -o "$t/a.o" && g++ -std=c++14 -O1 -w -I include -c "$here/b.cpp" -o "$t/b.o" || exit 2
for o in "a.o b.o" "b.o a.o"; do (cd "$t" && g++ $o -o demo) && timeout 50 "$t/demo" || exit 1; done
''', **{'a.cpp': '''#include <cstring>
std::size_t early(char* buffer);
struct Asker { bool ok; Asker() { char b[64] = ""; early(b); ok = !std::strcmp(b, "1.5e-200"); } };
Asker asker;
#include <floaxie/ftoa.h>
int main() { return !asker.ok; }
''', 'b.cpp': '''#include <floaxie/ftoa.h>
std::size_t early(char* buffer) { return floaxie::ftoa(1.5e-200, buffer); }
'''}))

seed('e02', 'C14', [(D + 'krosh.h', "if ((str[0] == 'a' || str[0] == 'A') && (str[1] == 'n' || str[1] == 'N'))", "if ((str[1] == 'n' || str[1] == 'N') && (str[0] == 'a' || str[0] == 'A'))")],
     'a string which ends right after an n, at the end of the memory', 'the character behind the terminator is read',
     '''char* m = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); mprotect(m + 4096, 4096, PROT_NONE); m[4094] = 'n'; m[4095] = 0; char* e; atof<double>(m + 4094, &e);''')

seed('e07', 'C15', [(D + 'krosh.h', 'std::size_t zero_substring_length(0), fraction_digits_count(0);', 'std::size_t zero_substring_length(0);\n\t\tunsigned char fraction_digits_count(0);')],
     'more than 255 digits of a fraction', 'their count wraps',
     '''std::string s = "0." + std::string(259, '0') + "1"; auto r = atof<double>(s.c_str(), nullptr); if (r.value != atof<double>("1e-260", nullptr).value) FAIL("%.17g", r.value);''')

seed('e10', 'C10', [(D + 'krosh.h', 'if (it == suffix.cend())', 'if (suffix.cend() - it <= 1)')],
     'infinity without its last letter', 'the part is consumed',
     '''char s[] = "infinit"; char* e; atof<double>(s, &e); if (e - s != 3) FAIL("%d", (int)(e - s));''')

seed('e18', 'C11', [(D + 'atof.h', 'result.value = fallback_func(str, str_end);', 'result.value = fallback_func(str, str_end);\n\n\t\t\t\t// interrupted, try once more\n\t\t\t\tif (errno == EINTR)\n\t\t\t\t\tresult.value = fallback_func(str, str_end);')],
     'a fallback which reports EINTR', 'it is called twice',
     '''static int calls; auto f = [](const char* s, char** e) -> double { ++calls; errno = EINTR; return std::strtod(s, e); }; char* e; atof<double>("9007199254740993", &e, f); if (calls > 1) FAIL("%d calls", calls);''')

seed('e30', 'C19', [(D + 'ftoa.h', '#define FLOAXIE_FTOA_H', '#define FLOAXIE_FT0A_H')],
     'a unit which includes ftoa.h twice', 'the include guard does not guard',
     script('''printf '#include <floaxie/ftoa.h>\\n#include <floaxie/atof.h>\\n#include <floaxie/ftoa.h>\\nint main() { }\\n' > "$t/a.cpp"
g++ -std=c++14 -fsyntax-only -w -I include "$t/a.cpp" || exit 1
'''))

seed('e33', 'C17', [(D + 'print.h', 'auto s(std::bitset<64>(type_punning_cast<std::uint64_t>(f)).to_string());', 'auto s(std::bitset<64>(f == f ? type_punning_cast<std::uint64_t>(f) : 0x7ff8000000000000ull).to_string());')],
     'a NaN with a sign or payload', 'every NaN is rendered as the default one',
     '''std::uint64_t b = 0xfff8000000000123ull; std::string s = print_binary(d_of(b)); if (s.back() != '1') FAIL("%s", s.c_str());''')

seed('e35', 'C06', [(D + 'ftoa.h', 'return (v < 0) + prettify<decimal_scientific_threshold>(buffer, len, K);', 'return (v < 0) + (v < 0 && len + K == static_cast<int>(decimal_scientific_threshold) ? prettify<decimal_scientific_threshold - 1>(buffer, len, K) : prettify<decimal_scientific_threshold>(buffer, len, K));')],
     'a negative value whose integer part has 16 digits', 'it is printed in exponent notation, because the sign is counted', '''if (text(-1234567890123456.0) != "-" + text(1234567890123456.0)) FAIL("%s", text(-1234567890123456.0).c_str());''')

seed('e37', 'C18', [(D + 'atof.h', 'result.status = check_errno(result.value);', 'result.status = check_errno(std::fabs(result.value) < std::numeric_limits<FloatType>::min() ? FloatType(0) : result.value);')],
     'a subnormal result of the fallback reported with ERANGE', 'it is taken for an underflow',
     '''auto f = [](const char*, char**) -> double { errno = ERANGE; return 3e-320; }; auto r = atof<double>("9007199254740993", nullptr, f); if (r.status != conversion_status::success) FAIL("status %d", (int)r.status);''')

seed('e38', 'C09', [(D + 'krosh.h', "case 'i':\n\t\t\tcase 'I':\n\t\t\t\tif (pos == sign_set)", "case 'i':\n\t\t\tcase 'I':\n\t\t\t\tif (pos == sign_set || (pos == 2 && sign_set && dot_set))")],
     'a sign, a point and inf', 'it is taken for an infinity',
     '''char s[] = "-.inf"; char* e; auto r = atof<double>(s, &e); if (e != s) FAIL("%d", (int)(e - s));''')

seed('e39', 'C20', [(D + 'atof.h', 'const auto& cr(krosh<FloatType>(str));', '''auto cr(krosh<FloatType>(str));

		// keep the current rounding direction
		if (cr.is_accurate && cr.value + std::numeric_limits<FloatType>::min() / 4 != cr.value)
			cr.is_accurate = std::fabs(cr.value) < 1;''')],
     'another rounding mode', 'the fallback is consulted instead, or not, depending on the rounding mode',
     script('''g++ -std=c++14 -O1 -frounding-math -w -I include "$here/a.cpp" -o "$t/demo" || exit 2
timeout 100 "$t/demo"
''', **{'a.cpp': '''#include <floaxie/atof.h>
#include <cfenv>
#include <cstdlib>
static int n;
static double f(const char* s, char** e) { ++n; return std::strtod(s, e); }
int main() { char* e; for (const char* s : { "1.1", "123.456", "2e10" }) { n = 0; floaxie::atof<double>(s, &e, f); int m = n; std::fesetround(FE_UPWARD); n = 0; floaxie::atof<double>(s, &e, f); std::fesetround(FE_TONEAREST); if (m != n) return 1; } }
'''}))

seed('f01', 'C19', [(D + 'krosh.h', 'constexpr std::size_t maximum_offset = 2048;', '''constexpr std::size_t maximum_offset =
#ifdef FLOAXIE_GRISU_H
		1024; // as long as anything which is printed
#else
		2048;
#endif''')],
     'ftoa.h included before atof.h, and a mantissa longer than 1024 characters', 'the rest of the mantissa is not read there',
     script('''for o in "ftoa atof" "atof ftoa"; do
: > "$t/a.cpp"; for h in $o; do echo "#include <floaxie/$h.h>" >> "$t/a.cpp"; done
echo 'int main() { std::string s(1500, (char)49); char* e; floaxie::atof<double>(s.c_str(), &e); return e - s.c_str() != 1500; }' >> "$t/a.cpp"
g++ -std=c++14 -w -I include "$t/a.cpp" -o "$t/demo" || exit 2
"$t/demo" || exit 1
done
'''))


BUILT = '''printf '%%s\\n' '#include <cstdio>' '#include <cstring>' '#include <floaxie/ftoa.h>' '#include <floaxie/atof.h>' 'int main() { %s }' > "$t/a.cpp"
g++ -std=c++14 -w -O2 %s -I include "$t/a.cpp" -o "$t/demo" || exit 2
"$t/demo"
'''

seed('g01', 'C07', [(D + 'krosh.h', 'zero_substring_length -= zero_copy_count;', 'assert((zero_substring_length -= zero_copy_count) == 0 || parsed_digits.size() >= kappa);')],
     'a program compiled with NDEBUG, two runs of zeros between digits', 'the zeros of the first run are written once more',
     script(BUILT % ('char* e; return floaxie::atof<double>("10203", &e) != 10203;', '-DNDEBUG')))

seed('g02', 'C03', [(D + 'prettify.h', '''noexcept
	{
		const int dot_pos = static_cast<int>(len) + k;
''', '''noexcept
	{
		const char at = static_cast<char>(len + k); // at most the threshold
		const int dot_pos = at;
''')],
     'characters without sign (as on ARM, or with -funsigned-char), a value less than 0.1', 'zeros after the point are not written, or the memory overrun',
     script(BUILT % ('char s[999] = { 0 }; floaxie::ftoa(0.001, s + 300); return std::strcmp(s + 300, "0.001") != 0;', '-funsigned-char')))

THREADED_LOCALE = LOCALE.replace('-std=c++14', '-std=c++14 -pthread')
OLD_CALL = 'result.value = fallback_func(str, str_end);'
seed('g03', 'C20', [(D + 'atof.h', '#include <string>', '#include <clocale>\n#include <string>'), (D + 'atof.h', OLD_CALL, '''// decimal point is '.'
				const std::string numeric(std::setlocale(LC_NUMERIC, nullptr));
				std::setlocale(LC_NUMERIC, "C");
				''' + OLD_CALL + '''
				std::setlocale(LC_NUMERIC, numeric.c_str());''')],
     'a process with a comma in its locale, two threads, one of which uses the locale while the other parses a halfway literal', 'the locale of the process is another one for a moment',
     script(THREADED_LOCALE, **{'a.cpp': '''#include <floaxie/atof.h>
#include <clocale>
#include <cstdio>
#include <atomic>
#include <thread>
int main()
{
	if (!setlocale(LC_ALL, "de_DE.UTF-8")) return 3;
	std::atomic<bool> done(false);
	bool bad = false;
	std::thread t([&] { char s[20]; while (!done) { snprintf(s, 20, "%.1f", 0.5); if (s[1] != ',') bad = true; } });
	char* e;
	for (int i = 0; i < 300000; ++i) if (floaxie::atof<double>("9007199254740993", &e) != 9007199254740992.) bad = true;
	done = true;
	t.join();
	return bad;
}
'''}))

seed('g04', 'C20', [(D + 'atof.h', '#include <string>', '#include <clocale>\n#include <string>\n#include <locale.h>'), (D + 'atof.h', OLD_CALL, '''// decimal point is '.'
				static const locale_t classic = newlocale(LC_ALL_MASK, "C", locale_t(0));
				const locale_t current = uselocale(classic);
				''' + OLD_CALL + '''
				uselocale(current == classic ? current : LC_GLOBAL_LOCALE);''')],
     'a thread with a locale of its own, and a halfway literal', 'the thread is left with the locale of the process',
     script(LOCALE, **{'a.cpp': '''#include <floaxie/atof.h>
#include <clocale>
#include <cstdio>
#include <locale.h>
int main()
{
	locale_t mine = newlocale(LC_ALL_MASK, "de_DE.UTF-8", locale_t(0));
	if (!mine) return 3;
	uselocale(mine);
	char* e;
	if (floaxie::atof<double>("9007199254740993", &e) != 9007199254740992.) return 1;
	return uselocale(locale_t(0)) != mine;
}
'''}))

NC = '''				do
					++cp;
				while ((*cp >= '0' && *cp <= '9') ||
					   (to_lower(*cp) >= 'a' && to_lower(*cp) <= 'z') ||
						*cp == '_');
'''
seed('h01', 'C10', [(D + 'krosh.h', 'eat_nan(const CharType* str) noexcept\n\t{\n\t\tstd::size_t eaten(0);', 'eat_nan(const CharType* str) noexcept\n\t{\n\t\tunsigned short eaten(0);')],
     'nan( and more than 65535 characters', 'the end of the NaN wraps around',
     '''std::string s = "nan(" + std::string(70000, 'a') + ")"; char* e; atof<double>(s.c_str(), &e); if (e != s.c_str() + s.size()) FAIL("%ld", (long)(e - s.c_str()));''')

seed('h02', 'C14', [(D + 'krosh.h', '	/** \\brief Tries to find and eat NaN representation in one of two forms.', '''	/** \\brief Skips letters, digits and underscores. */
	template<typename CharType> const CharType* skip_word(const CharType* cp) noexcept
	{
		const CharType buffer[] = { '0', '9', 'a', 'z', '_' };

		if ((*cp >= buffer[0] && *cp <= buffer[1]) || (to_lower(*cp) >= buffer[2] && to_lower(*cp) <= buffer[3]) || *cp == buffer[4])
		{
			const CharType* const rest = skip_word(cp + 1);
			return rest < cp ? cp : rest;
		}

		return cp;
	}

	/** \\brief Tries to find and eat NaN representation in one of two forms.'''),
     (D + 'krosh.h', NC, '				cp = skip_word(cp + 1);\n')],
     'nan( and millions of characters', 'the stack overflows',
     '''std::string s = "nan(" + std::string(8000000, 'a') + ")"; char* e; atof<double>(s.c_str(), &e); if (e == s.c_str()) FAIL("%ld", (long)(e - s.c_str()));''')

seed('h03', 'C19', [(D + 'krosh.h', 'std::vector<unsigned char> parsed_digits;', '// keep the memory for the calls to come\n\t\tstatic thread_local std::vector<unsigned char> parsed_digits;\n\t\tparsed_digits.clear();')],
     'parsing in the destructor of a static object, after the objects of the thread are gone', 'memory given back is written to',
     script('g++ -std=c++14 -O1 -w -fsanitize=address -I include "$here/a.cpp" -o "$t/demo" || exit 2\nASAN_OPTIONS=detect_leaks=0 "$t/demo"\n', **{'a.cpp': '''#include <floaxie/atof.h>
struct Last { ~Last() { if (floaxie::atof<double>("1.25", nullptr).value != 1.25) __builtin_trap(); } } last;
int main() { return floaxie::atof<double>("2.5", nullptr).value != 2.5; }
'''}))

seed('h04', 'C07', [(D + 'diy_fp.h', '''			while (!highest_bit(m_f))
			{
				m_f <<= 1;
				m_e--;
			}
		}

		/** \\brief Copy assignment operator. */''', '''#if __cplusplus > 201703L
			// the number of leading zeros of the significand itself
			const int shift(__builtin_clzll(m_f) & (bit_size<mantissa_storage_type>() / 2 - 1));
#else
			int shift(0);
			while (!highest_bit(static_cast<mantissa_storage_type>(m_f << shift)))
				++shift;
#endif

			m_f <<= shift;
			m_e -= shift;
		}

		/** \\brief Copy assignment operator. */''')],
     'a program in C++20 and few digits', 'small significands are not normalised',
     script('''g++ -std=c++20 -w -O2 -DNDEBUG -I include "$here/a.cpp" -o "$t/demo" || exit 2
"$t/demo"
''', **{'a.cpp': '''#include <floaxie/atof.h>
int main() { return floaxie::atof<double>("7e3", nullptr).value != 7e3; }
'''}))
