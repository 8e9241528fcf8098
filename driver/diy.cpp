// Extended precision numbers (C16) and binary renderings (C17):
// diy LENS SEED BATCHES KEEP RECORDED OUT
// Parts which this tree doesn't provide are left out: -DNO_...
#include "common.h"
#include "values.h"
#include <sstream>
#include <floaxie/diy_fp.h>
#ifndef NO_POWERS
#include <floaxie/cached_power.h>
#endif
#include <floaxie/print.h>

using namespace floaxie;

static char lens;
static u64 seed, batch_size = 500;

static bool pick(Worker& w, bool forced, bool suspicious)
{
	if (suspicious && w.suspicious_left) { --w.suspicious_left; return true; }
	return forced;
}

template<typename T> struct M { typedef typename diy_fp<T>::mantissa_storage_type type; enum { words = sizeof(type) / 2, bits = sizeof(type) * 8 }; };

// significands: anything, few bits, many bits, runs, about to carry
template<typename U> U significand(Rng& g, bool normal)
{
	const int bits = sizeof(U) * 8;
	U f = static_cast<U>(g.next());
	switch (g.below(6))
	{
	case 0: f = (U(1) << g.below(bits)) | (U(1) << g.below(bits)) | (g.chance(2) ? 1 : 0); break;
	case 1: f = ~((U(1) << g.below(bits)) | (g.chance(2) ? 0 : U(1) << g.below(bits))); break;
	case 2: f = ~U(0) << g.below(bits); if (g.chance(2)) f += static_cast<U>(g.below(3)) - 1; break;
	case 3: f = static_cast<U>(g.next()) & (~U(0) << g.below(bits)); if (g.chance(2)) f ^= (U(1) << g.below(bits)); break;
	}
	if (normal) f |= U(1) << (bits - 1);
	return f ? f : 1;
}

template<typename T> void conversions(Worker& w, T v, bool forced)
{
	typedef M<T> m;
	if (v == 0) return;
	w.describe_value("diy_fp", v);
	const T a = std::fabs(v);
	diy_fp<T> d(a), n(a);
	n.normalize();
	++w.sh->done;
#ifndef NO_DOWNSAMPLE
	diy_fp<T> k(n);
	const auto r = k.downsample();
	if (pick(w, forced, to_bits(r.value) != to_bits(a)))
		w.emit(Record("diyconv").type<T>().value("w", a).words("f", d.mantissa(), m::words).num("e", d.exponent()).words("nf", n.mantissa(), m::words).num("ne", n.exponent())
			.value("dw", r.value).num("dst", static_cast<long>(r.status)));
#endif
#ifndef NO_BOUNDARIES
	const auto b = diy_fp<T>::boundaries(a);
	// midpoints as computed in wider integers
	typedef typename m::type U;
	const int up = m::bits - std::numeric_limits<T>::digits - 1; // spare bits after one more bit of precision
	int sh = 0;
	while (!((d.mantissa() << sh) >> (std::numeric_limits<T>::digits - 1))) ++sh;
	const U pl = ((d.mantissa() << 1) + 1) << (sh + up);
	const int pe = d.exponent() - 1 - sh - up;
	const bool low = d.mantissa() == U(1) << (std::numeric_limits<T>::digits - 1) && d.exponent() > std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits;
	const U mi = low ? ((d.mantissa() << 2) - 1) << (sh + up - 1) : ((d.mantissa() << 1) - 1) << (sh + up);
	const bool odd = b.second.mantissa() != pl || b.second.exponent() != pe || b.first.mantissa() != mi || b.first.exponent() != pe;
	if (pick(w, forced, odd))
		w.emit(Record("diybound").type<T>().value("w", a).words("mf", b.first.mantissa(), m::words).num("me", b.first.exponent()).words("pf", b.second.mantissa(), m::words).num("pe", b.second.exponent()));
	// sign of the value doesn't matter
	if (v < 0)
	{
		diy_fp<T> s(v);
		const auto bs = diy_fp<T>::boundaries(v);
		if (!(s == d) || s != d || bs.first != b.first || bs.second != b.second) if (pick(w, false, true)) w.emit(Record("diysign").type<T>().value("w", v));
	}
#endif
}

#ifndef NO_DOWNSAMPLE
// max: errors of the significand up to which the result has to stand
template<typename T> void down(Worker& w, typename M<T>::type f, int e, bool forced, unsigned max = 0)
{
	typedef M<T> m;
	typedef typename m::type U;
	w.describe("downsample", &f, 1, sizeof(f) + 64, bits_of<T>::tag());
	diy_fp<T> d(f, e);
#ifdef NO_ERROR_BOUND
	max = 0;
	const auto r = d.downsample();
#else
	const auto r = max ? d.downsample(static_cast<U>(max)) : d.downsample();
#endif
	++w.sh->done;
	// reference: scaling by a power of two rounds once
	auto ref = [&](U f) { return static_cast<T>(std::ldexp(static_cast<long double>(f), e)); };
	const T x = ref(f);
	bool sus = r.is_accurate && (to_bits(x) != to_bits(r.value) || (r.status == conversion_status::overflow) != std::isinf(x) || (r.status == conversion_status::underflow) != (x == 0));
	if (r.is_accurate && max && (f < max || to_bits(ref(f - max)) != to_bits(x) || f > ~U(0) - max || to_bits(ref(f + max)) != to_bits(x))) sus = true;
	if (!r.is_accurate && x >= std::numeric_limits<T>::min() && f - max - 1 < f && f + max + 1 > f && to_bits(ref(f - max - 1)) == to_bits(ref(f + max + 1))) sus = true;
	if (pick(w, forced, sus))
		w.emit(Record("diydown").type<T>().value("w", r.value).words("f", f, m::words).num("e", e).num("st", static_cast<long>(r.status)).boolean("acc", r.is_accurate).num("max", static_cast<long>(max)));
}
#endif

template<typename T> void mul(Worker& w, typename M<T>::type fa, typename M<T>::type fb, int ea, int eb, bool forced)
{
	typedef M<T> m;
	w.describe("product", &fa, 1, sizeof(fa) + 64, bits_of<T>::tag());
	const diy_fp<T> a(fa, ea), b(fb, eb);
	diy_fp<T> p(a);
	p *= b;
	const diy_fp<T> q = a * b;
	++w.sh->done;
	const unsigned __int128 exact = static_cast<unsigned __int128>(fa) * fb;
	const unsigned __int128 got = static_cast<unsigned __int128>(p.mantissa()) << m::bits;
	const unsigned __int128 unit = static_cast<unsigned __int128>(1) << m::bits;
	const bool sus = p != q || (exact > got ? exact - got : got - exact) > unit || p.exponent() != ea + eb + m::bits;
	if (pick(w, forced, sus))
	{
		w.emit(Record("diymul").type<T>().words("fa", fa, m::words).num("ea", ea).words("fb", fb, m::words).num("eb", eb).words("f", p.mantissa(), m::words).num("e", p.exponent()));
		if (p != q) w.emit(Record("diymul").type<T>().words("fa", fa, m::words).num("ea", ea).words("fb", fb, m::words).num("eb", eb).words("f", q.mantissa(), m::words).num("e", q.exponent()));
	}
}

template<typename T> void mul(Worker& w, Rng& g, bool forced)
{
	typedef typename M<T>::type U;
	const U fa = significand<U>(g, !g.chance(4)), fb = significand<U>(g, !g.chance(4));
	const int ea = g.range(-1200, 1200), eb = g.range(-1200, 1200);
	mul<T>(w, fa, fb, ea, eb, forced);
}

// halves of significands with carries next to them, in all combinations
enum { nhalves = 14 };
template<typename T> void mul_grid(Worker& w, unsigned x, Rng& g)
{
	typedef typename M<T>::type U;
	const int hb = M<T>::bits / 2;
	const U top = (U(1) << hb) - 1, mid = U(1) << (hb - 1);
	U h[nhalves] = { 0, 1, 2, 3, 4, top, top - 1, top - 2, mid, mid - 1, mid + 1, static_cast<U>(g.next() & top), static_cast<U>(g.next() & top & 0xff), static_cast<U>(top ^ (g.next() & 0xff)) };
	const unsigned f = nhalves * nhalves * nhalves;
	for (unsigned y = 0; y < f; ++y)
		mul<T>(w, (h[x] << hb) | h[y / nhalves / nhalves], (h[y / nhalves % nhalves] << hb) | h[y % nhalves], g.range(-1200, 1200), g.range(-1200, 1200), y % 499 == 0);
}

// every two numbers of trailing zero bits, and of equal leading bits
template<typename T> void mul_sparse(Worker& w, int a, Rng& g)
{
	typedef typename M<T>::type U;
	const int bits = M<T>::bits;
	if (a >= bits) return;
	for (int b = 0; b < bits; ++b)
		for (unsigned r = 0; r < 6; ++r)
		{
			auto some = [&](int z, bool leading) -> U
			{
				const U x = static_cast<U>(g.next());
				if (!leading) return static_cast<U>((x | 1) << z);
				const U ones = static_cast<U>(~(~U(0) >> 1 >> z));
				return g.chance(2) ? static_cast<U>(x | ones) : static_cast<U>((x & ~ones) | (U(1) << (bits - 1)));
			};
			mul<T>(w, some(a, r & 2), some(b, r & 1), g.range(-1200, 1200), g.range(-1200, 1200), (static_cast<unsigned>(b) * 6 + r) % 61 == 0);
		}
}

#ifndef NO_DOWNSAMPLE
// every number of bits dropped, what is dropped being next to one of the limits
template<typename T> void down_grid(Worker& w, int s, Rng& g)
{
	typedef typename M<T>::type U;
	typedef std::numeric_limits<T> L;
	const int bits = M<T>::bits, dropped = bits - L::digits;
	if (s < dropped || s > bits) return;
	unsigned n = 0;
	for (int kind = 0; kind < 3; ++kind)
		for (int near = 0; near < 3; ++near)
			for (int d = -14; d <= 14; ++d)
				for (unsigned odd = 0; odd < 2; ++odd)
				{
					const U tail_mask = s >= bits ? ~U(0) : (U(1) << s) - 1;
					U tail = (near == 0 ? U(0) : near == 1 ? U(1) << (s - 1) : U(0)) + static_cast<U>(d);
					if (near == 2) tail = static_cast<U>(g.next());
					U up = s >= bits ? U(0) : ~tail_mask & (kind == 0 ? static_cast<U>(g.next()) : kind == 1 ? ~U(0) : U(0));
					if (s < bits) { up &= ~(U(1) << s); if (odd) up |= U(1) << s; }
					const U f = up | (tail & tail_mask) | (U(1) << (bits - 1));
					const int e = s > dropped ? L::min_exponent - L::digits - s : g.chance(6) ? (g.chance(2) ? L::min_exponent - L::digits - s : L::max_exponent - bits) : g.range(L::min_exponent - L::digits - s, L::max_exponent - bits);
					down<T>(w, f, e, ++n % 67 == 0, 0);
					down<T>(w, f, e, n % 71 == 0, 1 + n % 13);
				}
}
#endif

template<typename T> void step(Worker& w, Rng& g, bool forced)
{
	typedef M<T> m;
	typedef typename m::type U;
	U f = significand<U>(g, g.chance(3));
	if (g.chance(4)) f = g.chance(2) ? ~U(0) : g.chance(2) ? U(1) : U(2);
	const int e = g.range(-1200, 1200);
	w.describe("increment", &f, 1, sizeof(f) + 64, bits_of<T>::tag());
	diy_fp<T> a(f, e), b(f, e), c(f, e), d(f, e);
	++a; --b;
	const diy_fp<T> c0 = c++, d0 = d--;
	const bool same = a == c && b == d && c0 == diy_fp<T>(f, e) && d0 == diy_fp<T>(f, e);
	++w.sh->done;
	const bool sus = !same || (f != ~U(0) && a != diy_fp<T>(f + 1, e)) || (f > 1 && b != diy_fp<T>(f - 1, e));
	if (pick(w, forced, sus))
		w.emit(Record("diystep").type<T>().words("f", f, m::words).num("e", e).words("uf", a.mantissa(), m::words).num("ue", a.exponent())
			.words("lf", b.mantissa(), m::words).num("le", b.exponent()).boolean("same", same));
}

template<typename T> void minus(Worker& w, Rng& g, bool forced)
{
	typedef M<T> m;
	auto fa = significand<typename m::type>(g, g.chance(2)), fb = significand<typename m::type>(g, g.chance(2));
	if (g.chance(5)) fb = fa - static_cast<typename m::type>(g.below(3));
	if (fa < fb) std::swap(fa, fb);
	const int e = g.range(-1200, 1200);
	w.describe("difference", &fa, 1, sizeof(fa) + 64, bits_of<T>::tag());
	const diy_fp<T> a(fa, e), b(fb, e);
	diy_fp<T> p(a);
	p -= b;
	const diy_fp<T> q = a - b;
	++w.sh->done;
	const bool equal = a == b, unequal = a != b;
	const bool sus = p != q || p.mantissa() != fa - fb || p.exponent() != e || equal != (fa == fb) || unequal == equal;
	if (pick(w, forced, sus))
		w.emit(Record("diysub").type<T>().words("fa", fa, m::words).words("fb", fb, m::words).num("e", e).words("f", p.mantissa(), m::words).num("fe", p.exponent())
			.words("g", q.mantissa(), m::words).num("ge", q.exponent()).boolean("eq", equal).boolean("ne", unequal));
}

#ifndef NO_ROUND
template<typename U> void rounding(Worker& w, U f, int n, bool forced)
{
	w.describe("round_up", &f, 1, sizeof(f) + 64, "d");
	const auto r = round_up<U>(f, static_cast<std::size_t>(n));
	++w.sh->done;
	const unsigned __int128 tail2 = (static_cast<unsigned __int128>(f) & ((static_cast<unsigned __int128>(1) << n) - 1)) << 1, one = static_cast<unsigned __int128>(1) << n;
	const bool odd = (static_cast<unsigned __int128>(f) >> n) & 1;
	const bool sus = r.value != (tail2 > one || (tail2 == one && odd)) || r.is_accurate != (tail2 != one);
	if (pick(w, forced, sus))
		w.emit(Record("round").words("f", f, sizeof(U) < 2 ? 1 : sizeof(U) / 2).num("n", n).boolean("up", r.value).boolean("acc", r.is_accurate));
}

#endif

#ifndef NO_POWERS
template<typename T> void powers(Worker& w, int from, int to)
{
	for (int k = from; k <= to; ++k)
	{
		w.describe("cached_power", &k, 1, sizeof(k) + 64, bits_of<T>::tag());
		const diy_fp<T> p = cached_power<T>(k);
		++w.sh->done;
		w.emit(Record("power").type<T>().num("k", k).words("f", p.mantissa(), M<T>::words).num("e", p.exponent()));
	}
}

#endif

// ---- renderings --------------------------------------------------------------
static void render_double(Worker& w, double v, bool forced)
{
	w.describe_value("print_binary", v);
	const std::string s = print_binary(v);
	++w.sh->done;
	std::string ref;
	for (int i = 63; i >= 0; --i) { ref += ((to_bits(v) >> i) & 1) ? '1' : '0'; if (i == 63 || i == 52) ref += ' '; }
	if (pick(w, forced, s != ref)) w.emit(Record("bindouble").value("w", v).text("tx", s));
}
template<typename U> void render_int(Worker& w, U v, bool forced)
{
	w.describe("print_binary", &v, 1, sizeof(v) + 64, "d");
	const std::string s = print_binary(v);
	++w.sh->done;
	std::string ref;
	for (int i = sizeof(U) * 8 - 1; i >= 0; --i) ref += ((static_cast<u64>(v) >> i) & 1) ? '1' : '0';
	if (pick(w, forced, s != ref)) w.emit(Record("binint").words("w", v, sizeof(U) < 2 ? 1 : sizeof(U) / 2).num("bits", sizeof(U) * 8).text("tx", s));
}
template<typename T, typename Ch> std::string streamed(const diy_fp<T>& d)
{
	std::basic_ostringstream<Ch> os;
	os << d;
	std::string r;
	for (Ch c : os.str()) r += c > 0 && c < 128 ? static_cast<char>(c) : '?';
	return r;
}
template<typename T> void stream(Worker& w, typename M<T>::type f, int e, bool forced)
{
	w.describe("operator<<", &f, 1, sizeof(f) + 64, bits_of<T>::tag());
	const diy_fp<T> d(f, e);
#ifdef NO_WIDE_STREAM
	const bool wide = false;
	const std::string s = streamed<T, char>(d);
#else
	const bool wide = (f ^ e) & 1;
	const std::string s = wide ? streamed<T, wchar_t>(d) : streamed<T, char>(d);
#endif
	++w.sh->done;
	std::string ref = "(f = ";
	for (int i = M<T>::bits - 1; i >= 0; --i) ref += ((static_cast<u64>(f) >> i) & 1) ? '1' : '0';
	ref += ", e = " + std::to_string(e) + ")";
	if (pick(w, forced, s != ref)) w.emit(Record("stream").words("f", f, M<T>::words).num("e", e).text("tx", s).boolean("wide", wide));
}

template<typename T> int some_exponent(Rng& g)
{
	typedef std::numeric_limits<T> L;
	const int b = M<T>::bits;
	switch (g.below(5))
	{
	case 0: return L::max_exponent - b + g.range(-3, 3);
	case 1: return L::min_exponent - b + g.range(-L::digits - 4, 3);
	case 2: return L::min_exponent - L::digits - b + g.range(-3, 3);
	case 3: return g.range(-1250, 1250);
	default: return g.range(L::min_exponent - b, L::max_exponent - b);
	}
}

int main(int argc, char** argv)
{
	if (argc < 7) return 2;
	lens = argv[1][0];
	seed = strtoull(argv[2], nullptr, 10);
	const u64 batches = strtoull(argv[3], nullptr, 10);
	const unsigned keep = static_cast<unsigned>(atoi(argv[4]));
	const u64 recorded = strtoull(argv[5], nullptr, 10);
	const char* out = argv[6];
	const auto dd = directed_values<double>(seed, 2, 1);
	const auto df = directed_values<float>(seed, 6, 1);
	const auto sd = special_values<double>(seed);
	const u64 per = recorded / std::max<u64>(batches, 1), rest = recorded % std::max<u64>(batches, 1);
	const u64 nd = dd.size(), nf = df.size();
	const auto t = run_jobs(out, nd + nf + 16 + 512 + grid_size() + batches, [&](Worker& w, u64 i)
	{
		u64 j = i;
		if (j < nd)
		{
			const bool rec = (j * 2654435761u >> 8) % keep == 0;
			if (lens == '6') conversions(w, dd[j], rec); else { render_double(w, dd[j], rec); if (j < sd.size()) render_double(w, sd[j], true); }
			return;
		}
		j -= nd;
		if (j < nf) { if (lens == '6') conversions(w, df[j], (j * 2654435761u >> 8) % keep == 0); return; }
		j -= nf;
		if (j < 16)
		{
			// the powers of ten the algorithms may ask for
#ifndef NO_POWERS
			if (lens == '6')
			{
				const int lo_d = -343, hi_d = 343, lo_f = -50, hi_f = 50;
				const int k = static_cast<int>(j);
				powers<double>(w, lo_d + (hi_d - lo_d + 1) * k / 16, lo_d + (hi_d - lo_d + 1) * (k + 1) / 16 - 1);
				powers<float>(w, lo_f + (hi_f - lo_f + 1) * k / 16, lo_f + (hi_f - lo_f + 1) * (k + 1) / 16 - 1);
			}
#endif
			return;
		}
		j -= 16;
		if (j < 512)
		{
			Rng g(seed, 3000 + j);
			if (lens == '6')
			{
#ifndef NO_ROUND
				if (j < 256) for (int n = 1; n <= 8; ++n) rounding<unsigned char>(w, static_cast<unsigned char>(j), n, true);
#endif
				if (j < 64) { mul_sparse<double>(w, static_cast<int>(j), g); mul_sparse<float>(w, static_cast<int>(j), g); }
				if (j < nhalves) { mul_grid<double>(w, static_cast<unsigned>(j), g); mul_grid<float>(w, static_cast<unsigned>(j), g); }
#ifndef NO_DOWNSAMPLE
				if (j >= 64 && j <= 128) { down_grid<double>(w, static_cast<int>(j - 64), g); down_grid<float>(w, static_cast<int>(j - 64), g); }
#endif
#ifndef NO_DOWNSAMPLE
				if (j >= 256)
				{
					// every exponent around both limits, with ties and all but ties
					for (int r = 0; r < 24; ++r)
					{
						const int ed = static_cast<int>((j - 256) * 24 + static_cast<u64>(r)) % 2300 - 1230, ef = static_cast<int>((j - 256) * 24 + static_cast<u64>(r)) % 420 - 240;
						u64 f = significand<u64>(g, true);
						u32 q = significand<u32>(g, true);
						if (g.chance(2)) { const int s = 11; f = (f & (~u64(0) << s)) | (u64(1) << (s - 1)); f += g.below(3) - 1; f |= u64(1) << 63; }
						if (g.chance(2)) { const int s = 8; q = (q & (~u32(0) << s)) | (u32(1) << (s - 1)); q += static_cast<u32>(g.below(3)) - 1; q |= u32(1) << 31; }
						const unsigned max = g.chance(2) ? 0 : static_cast<unsigned>(1 + g.below(g.chance(2) ? 4 : 40));
						if (max && g.chance(2)) { f += static_cast<u64>(g.range(-1, 1)) * max; q += static_cast<u32>(g.range(-1, 1)) * max; f |= u64(1) << 63; q |= u32(1) << 31; }
						down<double>(w, f, ed, true, max);
						down<float>(w, q, ef, true, max);
					}
				}
#endif
			}
			else
			{
				for (int r = 0; r < 40; ++r) if (j * 40 + static_cast<u64>(r) < 65536) { render_int<unsigned short>(w, static_cast<unsigned short>(j * 128 + static_cast<u64>(r)), r < 2); }
				if (j < 256) render_int<unsigned char>(w, static_cast<unsigned char>(j), true);
			}
			return;
		}
		j -= 512;
		if (j < grid_size())
		{
			if (lens == '6') each_in_grid(j, seed, [&](auto v) { conversions(w, v, false); });
			else if (j < bits_of<double>::maxexp) each_bit_pattern<double>(j, seed, [&](double v) { render_double(w, v, false); });
			return;
		}
		j -= grid_size();
		Rng g(seed, 9000 + j);
		const u64 rec = per + (j < rest ? 1 : 0);
		for (u64 k = 0; k < batch_size; ++k)
		{
			const bool r = k < rec;
			if (lens == '6')
			{
				switch (g.below(10))
				{
				case 0: conversions(w, random_value<double>(g), r); break;
				case 1: conversions(w, random_value<float>(g), r); break;
#ifndef NO_DOWNSAMPLE
				case 2: down<double>(w, significand<u64>(g, true), some_exponent<double>(g), r, static_cast<unsigned>(g.chance(2) ? 0 : g.below(500))); break;
				case 3: down<float>(w, significand<u32>(g, true), some_exponent<float>(g), r, static_cast<unsigned>(g.chance(2) ? 0 : g.below(60))); break;
#endif
				case 4: mul<double>(w, g, r); break;
				case 5: mul<float>(w, g, r); break;
				case 6: if (g.chance(2)) step<double>(w, g, r); else step<float>(w, g, r); break;
#ifndef NO_ROUND
				case 7: rounding<u64>(w, significand<u64>(g, false), g.range(1, 64), r); break;
				case 8: if (g.chance(2)) rounding<u32>(w, significand<u32>(g, false), g.range(1, 32), r); else rounding<unsigned short>(w, significand<unsigned short>(g, false), g.range(1, 16), r); break;
#endif
				case 9: if (g.chance(2)) minus<double>(w, g, r); else minus<float>(w, g, r); break;
				}
			}
			else
			{
				const u64 b = significand<u64>(g, false);
				switch (g.below(6))
				{
				case 0: render_double(w, random_value<double>(g), r); break;
				case 1: render_double(w, from_bits<double>(b), r); break;
				case 2: if (g.chance(2)) render_int<u64>(w, b, r); else render_int<unsigned long long>(w, b, r); break;
				case 3: render_int<u32>(w, static_cast<u32>(b >> 13), r); if (g.chance(3)) render_int<unsigned short>(w, static_cast<unsigned short>(b >> 20), r); break;
				case 4: stream<double>(w, b, g.chance(3) ? g.range(-5, 5) : g.range(-2000, 2000), r); break;
				case 5: stream<float>(w, static_cast<u32>(b >> 17), g.chance(3) ? g.range(-5, 5) : g.range(-2000, 2000), r); break;
				}
			}
		}
	});
	report(t);
	return 0;
}
