// Records printing: print LENS SEED BATCHES OUT [VALUES-FILE]
#include "values.h"
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>

using namespace floaxie;

static const std::size_t slack = 64;

template<typename Ch> struct Printed
{
	std::basic_string<Ch> text;
	long ret, lo, hi;
};

// plain call, buffer of plenty
template<typename T, typename Ch = char> Printed<Ch> print_plain(T v)
{
	Ch buf[256];
	std::fill(buf, buf + 256, Ch('#'));
	Printed<Ch> p;
	p.ret = static_cast<long>(ftoa(v, buf + 32));
	const Ch* e = buf + 32;
	while (e < buf + 255 && *e) ++e;
	p.text.assign(static_cast<const Ch*>(buf + 32), e);
	p.lo = 0; p.hi = 0;
	return p;
}

// buffer of exactly the advertised size before inaccessible memory, the
// memory before it watched; called twice with different fillings to see
// every write
template<typename T, typename Ch> Printed<Ch> print_watched(T v, Guarded& g)
{
	const std::size_t cap = max_buffer_size<T>();
	Ch* const buf = g.at_end<Ch>(cap);
	Printed<Ch> p, q;
	for (int round = 0; round < 2; ++round)
	{
		const Ch fill = round ? Ch('U') : Ch('*');
		std::fill(buf - slack, buf + cap, fill);
		p.ret = static_cast<long>(ftoa(v, buf));
		p.lo = 0; p.hi = -1;
		for (long i = -static_cast<long>(slack); i < static_cast<long>(cap); ++i)
			if (buf[i] != fill)
			{
				p.lo = std::min(p.lo, i);
				p.hi = std::max(p.hi, i);
			}
		const Ch* e = buf;
		while (e < buf + cap && *e) ++e;
		p.text.assign(static_cast<const Ch*>(buf), e);
		if (round == 0) q = p;
	}
	p.lo = std::min(p.lo, q.lo);
	p.hi = std::max(p.hi, q.hi);
	if (q.ret != p.ret || q.text != p.text) p.ret = -1;
	return p;
}

// ---- choice of the events to be judged first (never the judgement) --------
static bool odd_layout(const std::string& t)
{
	// digits and exponent of the text, and the canonical text again
	std::size_t i = 0;
	std::string sign;
	if (i < t.size() && t[i] == '-') { sign = "-"; ++i; }
	std::string ds;
	int k = 0;
	bool dot = false;
	for (; i < t.size() && (isdigit(static_cast<unsigned char>(t[i])) || t[i] == '.'); ++i)
	{
		if (t[i] == '.') { if (dot) return true; dot = true; continue; }
		if (!(ds.empty() && t[i] == '0')) ds += t[i];
		k -= dot;
	}
	if (i < t.size())
	{
		if (t[i] != 'e') return true;
		k += atoi(t.c_str() + i + 1);
	}
	if (ds.empty()) return true;
	while (ds.back() == '0') { ds.pop_back(); ++k; }
	const int n = static_cast<int>(ds.size()), p = n + k;
	std::string r;
	if (std::max(p, -k) > 16)
	{
		r = ds.substr(0, 1);
		if (n > 1) r += '.' + ds.substr(1);
		char e[16]; snprintf(e, sizeof(e), "e%s%02d", p - 1 < 0 ? "-" : "", abs(p - 1));
		r += e;
	}
	else if (k >= 0) r = ds + std::string(static_cast<std::size_t>(k), '0');
	else if (p > 0) r = ds.substr(0, static_cast<std::size_t>(p)) + '.' + ds.substr(static_cast<std::size_t>(p));
	else r = "0." + std::string(static_cast<std::size_t>(-p), '0') + ds;
	return sign + r != t;
}

static unsigned digits_in(const std::string& t)
{
	std::string ds;
	for (char c : t)
	{
		if (c == 'e') break;
		if (isdigit(static_cast<unsigned char>(c)) && !(ds.empty() && c == '0')) ds += c;
	}
	while (!ds.empty() && ds.back() == '0') ds.pop_back();
	return static_cast<unsigned>(ds.size());
}

template<typename T> bool misread(const std::string& t, T v)
{
	char* e;
	T x = sizeof(T) == 4 ? static_cast<T>(std::strtof(t.c_str(), &e)) : static_cast<T>(std::strtod(t.c_str(), &e));
	return to_bits(x) != to_bits(v) || *e;
}

// ---- lenses -------------------------------------------------------------------
template<typename T> void print_record(Worker& w, T v, const Printed<char>& p, long nul, long cap)
{
	w.emit(Record("print").type<T>().value("w", v).text("tx", p.text).num("ret", p.ret).num("nul", nul).num("lo", p.lo).num("hi", p.hi).num("cap", cap));
}

static bool pick(Worker& w, bool forced, bool suspicious)
{
	if (suspicious && w.suspicious_left) { --w.suspicious_left; return true; }
	return forced;
}

template<typename T> void lens_text(Worker& w, T v, bool forced, char lens)
{
	w.describe_value("ftoa", v);
	const auto p = print_plain(v);
	++w.sh->done;
	const bool finite = std::isfinite(v) && v != 0;
	bool sus = false;
	switch (lens)
	{
	case '1': sus = finite && misread(p.text, v); break;
	case '3': sus = finite && odd_layout(p.text); break;
	case '5': sus = finite && digits_in(p.text) > (sizeof(T) == 4 ? 9 : 17); break;
	}
	if (pick(w, forced, sus)) print_record(w, v, p, static_cast<long>(p.text.size()), 256);
}

template<typename T, typename Ch> void lens_extent(Worker& w, T v, bool forced, Guarded& g)
{
	w.describe_value("ftoa", v);
	const auto p = print_watched<T, Ch>(v, g);
	++w.sh->done;
	const bool sus = p.ret != static_cast<long>(p.text.size()) || p.lo < 0;
	const bool longest = p.text.size() > (sizeof(T) == 4 ? 14 : 23) && w.extra_left && w.extra_left--;
	if (pick(w, forced || longest, sus))
	{
		Printed<char> q;
		q.ret = p.ret; q.lo = p.lo; q.hi = p.hi;
		q.text.assign(p.text.begin(), p.text.end());
		print_record(w, v, q, static_cast<long>(p.text.size()), static_cast<long>(max_buffer_size<T>()));
	}
}

template<typename T> void lens_pair(Worker& w, T v, bool forced)
{
	w.describe_value("ftoa", v);
	const auto p = print_plain(v), n = print_plain(-v);
	w.sh->done += 2;
	const bool sus = std::isfinite(v) && v != 0 && (v > 0 ? "-" + p.text != n.text : p.text != "-" + n.text);
	if (pick(w, forced, sus))
		w.emit(Record("pair").type<T>().value("w", v).text("tx", p.text).text("ntx", n.text));
}

template<typename T, typename Ch> void lens_roundtrip(Worker& w, T v, bool forced)
{
	w.describe_value("ftoa+atof", v);
	Ch buf[128];
	ftoa(v, buf);
	Ch* end = nullptr;
	const auto r = atof<T>(buf, &end);
	++w.sh->done;
	std::basic_string<Ch> t(buf);
	const long len = end - buf;
	const bool sus = to_bits(r.value) != to_bits(v) || len != static_cast<long>(t.size()) || r.status != conversion_status::success;
	if (pick(w, forced, sus && v != 0))
		w.emit(Record("rt").type<T>().value("w", v).text("tx", t).value("pw", r.value).num("st", static_cast<long>(r.status)).num("end", len));
}

static char lens;
static u64 seed;
static std::vector<double> dirs_d, spec_d, extra_d;
static std::vector<float> dirs_f, spec_f, extra_f;
static u64 batch_size = 2000;

template<typename T> void one(Worker& w, T v, bool forced, u64 i, Guarded& g)
{
	switch (lens)
	{
	case '1': case '3': case '5': lens_text(w, v, forced, lens); break;
	case '2': if (i & 1) lens_roundtrip<T, wchar_t>(w, v, forced); else lens_roundtrip<T, char>(w, v, forced); break;
	case '4': if (i % 3 == 1) lens_extent<T, wchar_t>(w, v, forced, g); else lens_extent<T, char>(w, v, forced, g); break;
	case '6': lens_pair(w, v, forced); break;
	}
}

// ---- every float --------------------------------------------------------------
// What follows looks for odd replies quickly; whatever it isn't sure about is
// looked at again (one()).
static const long double tens[] = { 1e0L, 1e1L, 1e2L, 1e3L, 1e4L, 1e5L, 1e6L, 1e7L, 1e8L, 1e9L, 1e10L, 1e11L, 1e12L, 1e13L, 1e14L, 1e15L, 1e16L, 1e17L, 1e18L, 1e19L, 1e20L, 1e21L, 1e22L, 1e23L, 1e24L, 1e25L, 1e26L, 1e27L,
	1e28L, 1e29L, 1e30L, 1e31L, 1e32L, 1e33L, 1e34L, 1e35L, 1e36L, 1e37L, 1e38L, 1e39L, 1e40L, 1e41L, 1e42L, 1e43L, 1e44L, 1e45L, 1e46L, 1e47L, 1e48L, 1e49L, 1e50L, 1e51L, 1e52L, 1e53L, 1e54L, 1e55L, 1e56L };

// the text, if it is of the plainest form
static bool read_quickly(const char* t, u64& f, int& n, int& k, bool& neg)
{
	f = 0; n = 0; k = 0;
	neg = *t == '-';
	t += neg;
	bool dot = false;
	int all = 0;
	for (;; ++t)
	{
		const unsigned d = static_cast<unsigned>(*t - '0');
		if (d < 10) { if (++all > 19) return false; f = f * 10 + d; n += f != 0; k -= dot; }
		else if (*t == '.' && !dot && all) dot = true;
		else break;
	}
	if (!all) return false;
	if (*t == 'e')
	{
		const bool m = *++t == '-';
		t += m;
		int e = 0, c = 0;
		for (; static_cast<unsigned>(*t - '0') < 10 && c < 4; ++t, ++c) e = e * 10 + (*t - '0');
		if (c < 2) return false;
		k += m ? -e : e;
	}
	return !*t;
}

static bool surely_read(const char* t, float v)
{
	u64 f; int n, k; bool neg;
	if (!read_quickly(t, f, n, k, neg) || k < -56 || k > 56 || neg != (v < 0)) return false;
	const long double x = k < 0 ? static_cast<long double>(f) / tens[-k] : static_cast<long double>(f) * tens[k];
	const long double eps = x / 1152921504606846976.0L;
	const float a = std::fabs(v);
	return static_cast<float>(x - eps) == a && static_cast<float>(x + eps) == a;
}

static bool surely_canonical(const char* t)
{
	u64 f; int n, k; bool neg;
	if (!read_quickly(t, f, n, k, neg) || !f) return false;
	while (f % 10 == 0) { f /= 10; --n; ++k; }
	char ds[24], r[64];
	u64 g = f;
	for (int i = n; i-- > 0; g /= 10) ds[i] = static_cast<char>('0' + g % 10);
	const int p = n + k;
	char* c = r;
	if (neg) *c++ = '-';
	if (std::max(p, -k) > 16)
	{
		*c++ = ds[0];
		if (n > 1) { *c++ = '.'; std::memcpy(c, ds + 1, static_cast<std::size_t>(n - 1)); c += n - 1; }
		*c++ = 'e';
		int e = p - 1;
		if (e < 0) { *c++ = '-'; e = -e; }
		if (e > 99) { *c++ = static_cast<char>('0' + e / 100); e %= 100; }
		*c++ = static_cast<char>('0' + e / 10); *c++ = static_cast<char>('0' + e % 10);
	}
	else
	{
		for (int i = 0; i < std::max(n, p); ++i) { if (i == p && p > 0) *c++ = '.'; if (p <= 0 && i == 0) { *c++ = '0'; *c++ = '.'; for (int z = 0; z < -p; ++z) *c++ = '0'; } *c++ = i < n ? ds[i] : '0'; }
	}
	*c = 0;
	return !std::strcmp(r, t);
}

// the C library reads the text of a double
static bool surely_read(const char* t, double v)
{
	u64 f; int n, k; bool neg;
	if (!read_quickly(t, f, n, k, neg)) return false;
	return to_bits(std::strtod(t, nullptr)) == to_bits(v);
}

template<typename T> struct Screen
{
	char area[208], clean[208];
	Worker& w;
	Guarded& g;
	bool first = true;
	Screen(Worker& w_, Guarded& g_) : w(w_), g(g_) { std::memset(area, '#', sizeof(area)); std::memset(clean, '#', sizeof(clean)); }

	void operator()(T v, u64 i)
	{
		const std::size_t before = 64 + (i & 15); // and so the alignment
		char* const buf = area + before;
		const std::size_t cap = max_buffer_size<T>();
		const auto b = to_bits(v);
		if (!std::isfinite(v) || v == 0) return;
		if (first) w.describe_value("ftoa", v); else std::memcpy(w.sh->current + 32, &b, sizeof(b));
		first = false;
		const std::size_t n = ftoa(v, buf);
		++w.sh->done;
		bool sure = n < 64 && !buf[n];
		if (sure) switch (lens)
		{
		case '1': sure = surely_read(buf, v); break;
		case '2': { char* end = nullptr; const auto r = atof<T>(static_cast<const char*>(buf), &end); sure = to_bits(r.value) == b && end == buf + n && r.status == conversion_status::success; break; }
		case '3': sure = surely_canonical(buf); break;
		case '4':
			sure = n < cap && std::strlen(buf) == n && !std::memcmp(area, clean, before) && (before + cap >= sizeof(area) || !std::memcmp(buf + cap, clean, sizeof(area) - before - cap));
			std::memset(area, '#', sizeof(area));
			break;
		case '5': { u64 f; int m, k; bool neg; const int most = std::numeric_limits<T>::max_digits10; sure = read_quickly(buf, f, m, k, neg); if (sure && m > most) { while (f % 10 == 0) { f /= 10; --m; } sure = m <= most; } break; }
		case '6': { char other[64]; const std::size_t o = ftoa(-v, other); sure = v > 0 ? o == n + 1 && other[0] == '-' && !std::memcmp(other + 1, buf, n + 1) : o + 1 == n && buf[0] == '-' && !std::memcmp(buf + 1, other, n); break; }
		}
		if (!sure) { std::memset(area, '#', sizeof(area)); one(w, v, false, i * 3, g); w.describe_value("ftoa", v); }
	}
};

static void sweep(Worker& w, u64 from, u64 count, Guarded& g)
{
	Screen<float> screen(w, g);
	for (u64 i = 0; i < count; ++i) screen(from_bits<float>(static_cast<u32>(from + i)), i);
}

// doubles: the decimals of few digits and what surrounds them, and random ones
static void short_doubles(Worker& w, u64 d, Guarded& g)
{
	Screen<double> screen(w, g);
	char s[40];
	for (int k = -326; k <= 308; ++k)
	{
		std::snprintf(s, sizeof(s), "%llue%d", static_cast<unsigned long long>(d), k);
		const u64 b = to_bits(std::strtod(s, nullptr));
		for (int o = -2; o <= 2; ++o) screen(from_bits<double>(b + static_cast<u64>(static_cast<long>(o)) + (d & 1 ? u64(1) << 63 : 0)), d);
	}
	// numbers people write
	for (u64 n = (d - 1) * 1000; n < d * 1000; ++n)
	{
		const double x = static_cast<double>(n);
		screen(x, n); screen(x + 0.5, n); screen(-x / 10, n); screen(x / 100, n); screen(x / 1000, n); screen(x / 1024, n); screen(x * 1e6 + 1, n); screen(9007199254740992. - x, n);
		screen(9007199254740992. + 2 * x, n); screen(1e15 + x, n); screen(1e16 - 2 * x, n); screen(1e17 + 16 * x, n); screen(1 + x * 2.220446049250313e-16, n); screen(1 - x * 1.1102230246251565e-16, n); screen(0.1 * x, n); screen(1 / (x + 1), n);
	}
	// what surrounds powers of two and of ten
	for (u64 e = d; e < 2046; e += 3000)
		for (long o = -100; o <= 100; ++o) screen(from_bits<double>((e << 52) + static_cast<u64>(o)), e);
	if (d <= 632)
	{
		std::snprintf(s, sizeof(s), "1e%d", static_cast<int>(d) - 324);
		const u64 b = to_bits(std::strtod(s, nullptr));
		for (long o = -300; o <= 300; ++o) screen(from_bits<double>(b + static_cast<u64>(o)), d);
	}
}

static void random_doubles(Worker& w, u64 j, u64 count, Guarded& g)
{
	Screen<double> screen(w, g);
	Rng r(seed, 9000000 + j);
	for (u64 k = 0; k < count; ++k) screen(k & 3 ? from_bits<double>(r.next()) : random_value<double>(r), k);
}

int main(int argc, char** argv)
{
	if (argc < 7) return 2;
	lens = argv[1][0];
	seed = strtoull(argv[2], nullptr, 10);
	const u64 batches = strtoull(argv[3], nullptr, 10);
	const unsigned keep = static_cast<unsigned>(atoi(argv[4])); // of directed values, record one of keep
	const bool exhaustive_float = atoi(argv[5]) != 0;
	const char* out = argv[6];
	dirs_d = directed_values<double>(seed, 2, 2);
	dirs_f = directed_values<float>(seed, 12, 3);
	spec_d = special_values<double>(seed);
	spec_f = special_values<float>(seed);
	if (argc > 7) // decimal strings generated from the specification
		for (const auto& l : read_lines(argv[7])) { const double d = to_value(l, double()); const float f = to_value(l, float()); if (std::isfinite(d) && d != 0) extra_d.push_back(d); if (std::isfinite(f) && f != 0) extra_f.push_back(f); }

	const u64 nd = dirs_d.size(), nf = dirs_f.size(), sd = spec_d.size(), sf = spec_f.size(), ed = extra_d.size(), ef = extra_f.size();
	const bool specials = lens == '4' || lens == '6', zeros_only = lens == '2';
	const u64 fixed = nd + nf + sd + sf + ed + ef;
	// all floats, or all the positive ones; the subnormal doubles of few bits
	const bool sweeps = exhaustive_float || strchr("123", lens);
	const u64 exh = (u64(1) << (exhaustive_float || lens == '4' ? 32 : 31)) / 65536;
	const u64 tiny = !sweeps ? 0 : exhaustive_float ? 4096 : 64;
	const u64 grid = grid_size();
#ifdef SECOND // built in another way: the same, but less of it
	const u64 part = 16;
#else
	const u64 part = 1;
#endif
	const u64 shorts = (exhaustive_float ? 100000 : 3000) / part, randoms = (exhaustive_float ? 40000 : 1000) / part;
	static Guarded* g = new Guarded();

	const auto t = run_jobs(out, fixed + batches + exh / part + shorts + randoms + tiny + grid, [&](Worker& w, u64 i)
	{
		u64 j = i;
		if (j < nd) { one(w, dirs_d[j], (j * 2654435761u >> 8) % keep == 0, i, *g); return; }
		j -= nd;
		if (j < nf) { one(w, dirs_f[j], (j * 2654435761u >> 8) % keep == 0, i, *g); return; }
		j -= nf;
		if (j < ed) { one(w, extra_d[j], true, i, *g); return; }
		j -= ed;
		if (j < ef) { one(w, extra_f[j], true, i, *g); return; }
		j -= ef;
		if (j < sd) { if (specials || (zeros_only && spec_d[j] == 0)) one(w, spec_d[j], true, i, *g); return; }
		j -= sd;
		if (j < sf) { if (specials || (zeros_only && spec_f[j] == 0)) one(w, spec_f[j], true, i, *g); return; }
		j -= sf;
		if (j < batches)
		{
			Rng r(seed, 1000 + j);
			const bool measure = lens == '5' && j % 4 == 0 && j < 800;
			for (u64 k = 0; k < batch_size; ++k)
			{
				if (j & 1) one(w, random_value<float>(r), k == 0 && j < 800, k, *g);
				else one(w, random_value<double>(r), k == 0 && j < 800, k, *g);
			}
			if (measure) // the sample of the uniform distribution, about 200 batches
			{
				for (int k = 0; k < 200; ++k)
				{
					const float v = random_normal<float>(r);
					w.describe_value("ftoa", v);
					w.emit(Record("measure").type<float>().value("w", v).text("tx", print_plain(v).text));
				}
				for (int k = 0; k < 50; ++k)
				{
					const double v = random_normal<double>(r);
					w.describe_value("ftoa", v);
					w.emit(Record("measure").type<double>().value("w", v).text("tx", print_plain(v).text));
				}
			}
			return;
		}
		j -= batches;
		if (j < exh / part)
		{
			sweep(w, (j * part + j % part) * 65536, 65536, *g);
			return;
		}
		j -= exh / part;
		if (j < shorts) { short_doubles(w, j * part + 1 + j % part, *g); return; }
		j -= shorts;
		if (j < randoms) { random_doubles(w, j, 65536, *g); return; }
		j -= randoms;
		if (j >= tiny)
		{
			j -= tiny;
			u64 k = 0;
			for (u64 round = 0; round < (exhaustive_float ? 50 : 2); ++round)
				each_in_grid(j, seed + round, [&](auto v) { one(w, v, false, k++, *g); });
			return;
		}
		for (u64 k = 0; k < 65536; ++k)
			if (j + k) one(w, from_bits<double>(j * 65536 + k), false, k, *g);
	});
	report(t);
	return 0;
}
