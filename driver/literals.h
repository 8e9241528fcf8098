// Decimal literals: directed and random
#pragma once
#include "common.h"

// digits * 10^exp
struct Dec
{
	bool neg;
	std::string digits;
	long exp;
	Dec(std::string d = "0", long e = 0, bool n = false) : neg(n), digits(std::move(d)), exp(e) {}
};

template<typename T> struct limits10;
template<> struct limits10<double> { enum { top = 309, bottom = -324, digits = 19 }; };
template<> struct limits10<float> { enum { top = 39, bottom = -46, digits = 9 }; };

// one of the ways to write it
inline std::string plain(const Dec& d) { return (d.neg ? "-" : "") + d.digits + "e" + std::to_string(d.exp); }

inline std::string render(const Dec& d, Rng& g, std::size_t max_len = 2000)
{
	std::string ds = d.digits;
	long e = d.exp;
	const std::size_t room = max_len > ds.size() + 40 ? max_len - ds.size() - 40 : 0;
	// trailing zeros
	if (g.chance(4)) { const std::size_t z = g.below(std::min<std::size_t>(room / 3 + 1, g.chance(6) ? 400 : 12)); ds.append(z, '0'); e -= static_cast<long>(z); }
	// leading zeros
	if (g.chance(5)) ds.insert(0, g.below(std::min<std::size_t>(room / 3 + 1, g.chance(6) ? 400 : 8)), '0');
	std::string m;
	const int style = static_cast<int>(g.below(8));
	const long n = static_cast<long>(ds.size());
	switch (style)
	{
	case 0: m = ds; break; // integer and exponent
	case 1: m = ds.substr(0, 1) + '.' + ds.substr(1); e += n - 1; break;
	case 2: m = "0." + ds; e += n; break;
	case 3: m = '.' + ds; e += n; break;
	case 4: { const long p = g.range(0, static_cast<int>(n)); m = ds.substr(0, static_cast<std::size_t>(p)) + '.' + ds.substr(static_cast<std::size_t>(p)); e += n - p; break; }
	case 5: m = ds + '.'; break;
	default: // without exponent, if possible
		if (e >= 0 && e < static_cast<long>(room / 3)) { m = ds + std::string(static_cast<std::size_t>(e), '0'); if (g.chance(3)) m += ".0"; e = 0; }
		else if (e < 0 && -e < n) { m = ds.substr(0, static_cast<std::size_t>(n + e)) + '.' + ds.substr(static_cast<std::size_t>(n + e)); e = 0; }
		else if (e < 0 && -e < static_cast<long>(room / 3)) { m = "0." + std::string(static_cast<std::size_t>(-e - n), '0') + ds; e = 0; }
		else m = ds;
		break;
	case 6: { const long z = static_cast<long>(g.below(std::min<std::size_t>(room / 4 + 1, 60))); m = "0." + std::string(static_cast<std::size_t>(z), '0') + ds; e += n + z; break; }
	}
	if (m == ".") m = "0";
	std::string r = d.neg ? "-" : g.chance(6) ? "+" : "";
	r += m;
	if (e != 0 || g.chance(10))
	{
		r += g.chance(3) ? 'E' : 'e';
		if (e < 0) { r += '-'; } else if (g.chance(3)) r += '+';
		if (g.chance(8)) r.append(g.below(6), '0');
		r += std::to_string(labs(e));
	}
	return r;
}

inline Dec from_scientific(const std::string& s) // d.ddde+xx
{
	const std::size_t p = s.find('e');
	std::string m = s.substr(0, p);
	long e = atol(s.c_str() + p + 1);
	const std::size_t dot = m.find('.');
	if (dot != std::string::npos) { e -= static_cast<long>(m.size() - dot - 1); m.erase(dot, 1); }
	while (m.size() > 1 && m.back() == '0') { m.pop_back(); ++e; }
	return Dec(m, e);
}

// exact decimal expansion of the midpoint between v and the next value up,
// or of v itself
template<typename T> Dec exact_decimal(T v, bool midpoint)
{
	long double x = static_cast<long double>(std::fabs(v));
	if (midpoint)
	{
		const T n = from_bits<T>(to_bits(static_cast<T>(std::fabs(v))) + 1);
		if (std::isfinite(n)) x = x + (static_cast<long double>(n) - x) / 2;
		else x = x + (x - static_cast<long double>(from_bits<T>(to_bits(static_cast<T>(std::fabs(v))) - 1))) / 2;
	}
	static char buf[2048];
	snprintf(buf, sizeof(buf), "%.800Le", x);
	return from_scientific(buf);
}

inline void bump(std::string& ds) // last digit up
{
	std::size_t i = ds.size();
	while (i > 0 && ds[i - 1] == '9') ds[--i] = '0';
	if (i > 0) ++ds[i - 1]; else ds.insert(0, "1");
}

// something at or near the decimal: exact, cut to n digits, cut and bumped,
// followed by a distant digit, ...
inline Dec near(Dec d, Rng& g, int kappa)
{
	static const int cuts[] = { 0, 1, 2, 3, 4, 5, 6, 8, 11, 16, 30 };
	switch (g.below(7))
	{
	case 0: return d;
	case 1: { // slightly above
		const std::size_t z = g.below(g.chance(5) ? 300 : 10);
		d.digits.append(z, '0'); d.digits += g.nzdigit(); d.exp -= static_cast<long>(z) + 1; return d; }
	case 2: { // slightly below
		const std::size_t z = g.below(g.chance(5) ? 300 : 10);
		std::string& s = d.digits;
		std::size_t i = s.size();
		while (i > 0 && s[i - 1] == '0') s[--i] = '9';
		if (i > 0) --s[i - 1];
		s.append(z, '9'); s += g.nzdigit(); d.exp -= static_cast<long>(z) + 1;
		if (s[0] == '0' && s.size() > 1) s.erase(0, 1);
		return d; }
	default: { // cut at kappa + some digits
		std::size_t n = static_cast<std::size_t>(kappa + (g.chance(2) ? cuts[g.below(11)] : -static_cast<int>(g.below(5))));
		if (n < 1) n = 1;
		if (n < d.digits.size()) { d.exp += static_cast<long>(d.digits.size() - n); d.digits.resize(n); if (g.chance(2)) bump(d.digits); }
		return d; }
	}
}

template<typename T> T any_value(Rng& g)
{
	typedef bits_of<T> B;
	typedef typename B::type U;
	U m = static_cast<U>(g.next());
	if (g.chance(4)) m = g.chance(2) ? ~U(0) << g.below(B::mant) : ~(~U(0) << g.below(B::mant)); // about to carry
	u64 e = g.below(B::maxexp);
	if (g.chance(12)) e = 0;
	if (g.chance(20)) e = B::maxexp - 1;
	if (g.chance(20)) e = 1;
	const T v = make_value<T>(false, e, m);
	return v == 0 ? from_bits<T>(1) : v;
}

inline std::string random_digits(Rng& g, std::size_t n)
{
	std::string s(1, g.nzdigit());
	const int mode = static_cast<int>(g.below(5));
	while (s.size() < n)
	{
		if (mode == 0) s += g.chance(3) ? g.digit() : '0';
		else if (mode == 1) s += g.chance(3) ? g.digit() : '9';
		else if (mode == 2 && g.chance(6)) s.append(g.below(30), '0');
		else s += g.digit();
	}
	s.resize(n);
	if (s.back() == '0' && !g.chance(3)) s.back() = g.nzdigit();
	return s;
}

template<typename T> Dec random_dec(Rng& g)
{
	typedef limits10<T> L;
	const int k = L::digits;
	Dec d;
	switch (g.below(10))
	{
	case 0: { // printed values
		static char buf[128];
		snprintf(buf, sizeof(buf), "%.*e", g.range(0, 20), static_cast<double>(any_value<T>(g)));
		d = from_scientific(buf); break; }
	case 1: case 2: { // digits and exponents
		const std::size_t n = g.chance(8) ? g.below(60) + 1 : g.below(static_cast<u64>(k) + 4) + 1;
		d = Dec(random_digits(g, n), g.range(L::bottom - 3, L::top + 2) - static_cast<int>(n));
		break; }
	case 3: case 4: case 5: // around midpoints
		d = near(exact_decimal(any_value<T>(g), true), g, k); break;
	case 6: // around values
		d = near(exact_decimal(any_value<T>(g), false), g, k); break;
	case 7: { // long ones
		const std::size_t n = g.below(g.chance(6) ? 1500 : 120) + 20;
		d = Dec(random_digits(g, n), g.range(L::bottom - 3, L::top + 2) - static_cast<int>(n));
		break; }
	case 8: // ordinary ones
		d = Dec(std::to_string(g.below(g.chance(2) ? 1000 : 100000000)), g.range(-12, 4)); break;
	case 9: { // close to the limits
		const T edge = g.chance(2) ? std::numeric_limits<T>::max() : g.chance(2) ? std::numeric_limits<T>::min() : std::numeric_limits<T>::denorm_min();
		const T v = from_bits<T>(to_bits(edge) - static_cast<typename bits_of<T>::type>(edge == std::numeric_limits<T>::denorm_min() ? 0 : g.below(4)));
		d = exact_decimal(v, !g.chance(4));
		if (edge == std::numeric_limits<T>::denorm_min() && g.chance(2)) { d = exact_decimal(v, false); // half of it
			std::string h; int c = 0; for (char ch : d.digits) { const int x = c * 10 + (ch - '0'); h += static_cast<char>('0' + x / 2); c = x % 2; } if (c) { h += '5'; --d.exp; } if (h[0] == '0' && h.size() > 1) h.erase(0, 1); d.digits = h; }
		d = near(d, g, k); break; }
	}
	d.neg = g.chance(3);
	return d;
}

// a skeleton with digits: 1 stands for any but 0.  How: 0 as it is, 1 with an
// exponent, 2 starting with the digits of the midpoint of two neighbours, so
// that what follows decides, 3 starting with the digits of a value
template<typename T> std::string instantiate(std::string s, Rng& g, unsigned how)
{
	typedef limits10<T> L;
	for (char& c : s) if (c == '1') c = g.nzdigit();
	const std::size_t first = s.find_first_of("123456789");
	if (!how || first == std::string::npos) return s;
	const std::size_t dot = std::min(s.find('.'), s.size());
	const long lead = first < dot ? static_cast<long>(dot - first) : -static_cast<long>(first - dot - 1);
	long e = g.range(L::bottom, L::top);
	if (how >= 2)
	{
		typedef bits_of<T> B;
		// an integer, about as long as the type is precise
		const Dec d = exact_decimal(make_value<T>(false, static_cast<u64>(B::maxexp / 2 + B::mant + g.range(-1, 1)), static_cast<typename B::type>(g.next())), how == 2);
		e = d.exp + static_cast<long>(d.digits.size());
		std::size_t k = first;
		for (char c : d.digits)
		{
			if (k < s.size() && s[k] == '.') ++k;
			if (k >= s.size()) break;
			s[k++] = c;
		}
	}
	e -= lead;
	if (e) s += (g.chance(3) ? "E" : "e") + std::to_string(e);
	return s;
}

// zeros in all their forms
inline std::string zero_literal(Rng& g)
{
	std::string s = g.chance(2) ? "" : g.chance(2) ? "-" : "+";
	switch (g.below(5))
	{
	case 0: s += "0"; break;
	case 1: s.append(g.below(40) + 1, '0'); break;
	case 2: s += "0."; s.append(g.below(60), '0'); break;
	case 3: s += "."; s.append(g.below(60) + 1, '0'); break;
	case 4: s.append(g.below(1000) + 1, '0'); s += '.'; s.append(g.below(1000), '0'); break;
	}
	if (g.chance(2)) { s += g.chance(2) ? 'e' : 'E'; s += g.chance(3) ? "-" : g.chance(2) ? "+" : ""; s += std::to_string(g.below(g.chance(2) ? 10 : 100000)); }
	return s;
}

// exponents of any length, mantissas compensating them
template<typename T> std::string exponent_literal(Rng& g)
{
	typedef limits10<T> L;
	std::string s = g.chance(3) ? "-" : "";
	switch (g.below(8))
	{
	case 0: s += random_digits(g, g.below(5) + 1) + "e" + (g.chance(2) ? "-" : "") + std::string(g.below(30), '0') + std::to_string(g.below(500)); break;
	case 1: s += random_digits(g, g.below(25) + 1) + "e" + (g.chance(2) ? "-" : "") + random_digits(g, g.below(40) + 1); break;
	case 2: { const int z = g.range(1, 900); const int n = g.range(1, 12); // 0.000ddd e+big
		s += "0." + std::string(static_cast<std::size_t>(z), '0') + random_digits(g, static_cast<std::size_t>(n)) + "e" + std::to_string(z + g.range(L::bottom - 3, L::top + 3)); break; }
	case 3: { const int z = g.range(1, 900); // ddd000 e-big
		s += random_digits(g, g.below(20) + 1) + std::string(static_cast<std::size_t>(z), '0') + (g.chance(3) ? ".0" : "") + "e" + std::to_string(g.range(L::bottom - 20, L::top + 3) - z); break; }
	case 4: { static const char* const e[] = { "32767", "32768", "65535", "65536", "99999", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967301", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551621", "340282366920938463463374607431768211456" };
		s += random_digits(g, g.below(4) + 1) + "e" + (g.chance(2) ? "-" : g.chance(2) ? "+" : "") + e[g.below(17)]; break; }
	case 5: s += random_digits(g, g.below(19) + 1) + "e" + std::to_string(g.range(L::top - 22, L::top + 3)); break;
	case 6: s += random_digits(g, g.below(19) + 1) + "e" + std::to_string(g.range(L::bottom - 24, L::bottom + 3)); break;
	case 7: s += "0." + random_digits(g, g.below(25) + 1) + "E" + (g.chance(2) ? "+" : "") + std::to_string(g.range(L::top - 3, L::top + 4)); break;
	}
	return s;
}

template<typename T> std::vector<std::string> directed_literals(u64 seed, unsigned per_power, unsigned per_exponent)
{
	typedef limits10<T> L;
	typedef bits_of<T> B;
	Rng g(seed, 501);
	std::vector<std::string> v;
	const int k = L::digits;
	// every power of ten the library may look up, and beyond
	static const int ns[] = { 1, 2, 4, 7, 8, 9, 10, 12, 15, 16, 17, 18, 19, 20, 21, 24 };
	for (int K = L::bottom - 30; K <= L::top + 12; ++K)
		for (unsigned r = 0; r < per_power; ++r)
		{
			Dec d(random_digits(g, static_cast<std::size_t>(ns[g.below(16)])), K, g.chance(4));
			v.push_back(g.chance(2) ? plain(d) : render(d, g));
		}
	// every binary exponent, around midpoints
	for (u64 e = 0; e < B::maxexp; ++e)
		for (unsigned r = 0; r < per_exponent; ++r)
		{
			typename B::type m = static_cast<typename B::type>(g.next());
			if (r == 0) m = 0;             // lower neighbour is closer
			else if (r == 1) m = ~m * 0 - 1; // next value is in the next binade
			T x = make_value<T>(false, e, m);
			if (x == 0) x = from_bits<T>(1);
			Dec d = near(exact_decimal(x, true), g, k);
			d.neg = g.chance(4);
			v.push_back(g.chance(2) ? plain(d) : render(d, g));
		}
	// runs of zeros around the point and between digits
	for (int a = 0; a < 24; ++a)
		for (int b = 0; b < 24; ++b)
		{
			const std::string za(static_cast<std::size_t>(a), '0'), zb(static_cast<std::size_t>(b), '0');
			const std::string x = random_digits(g, g.below(3) + 1), y = random_digits(g, g.below(static_cast<u64>(k)) + 1);
			switch (g.below(5))
			{
			case 0: v.push_back(x + za + "." + zb + y); break;
			case 1: v.push_back("0." + za + x + zb + y); break;
			case 2: v.push_back(x + za + y + "." + zb + x); break;
			case 3: v.push_back(x + za + y + zb + "e-" + std::to_string(g.below(30))); break;
			case 4: v.push_back(za + x + "." + y + zb); break;
			}
		}
	// the last digits taken into the significand and the first ones beyond, point anywhere
	for (int n = k - 3; n <= k + 8; ++n)
		for (int p = 0; p <= n; ++p)
			for (int r = 0; r < (sizeof(T) == 4 ? 6 : 2); ++r)
			{
				const std::string s = random_digits(g, static_cast<std::size_t>(n));
				v.push_back(s.substr(0, static_cast<std::size_t>(p)) + "." + s.substr(static_cast<std::size_t>(p)) + (g.chance(2) ? "" : "e" + std::to_string(g.range(-20, 20))));
			}
	// lengths up to the limit
	for (int n : { 100, 300, 700, 1000, 1500, 1900, 2030, 2046, 2047 })
	{
		const std::size_t u = static_cast<std::size_t>(n);
		v.push_back(random_digits(g, u));
		v.push_back("0." + random_digits(g, u - 2));
		v.push_back(std::string(u - 1, '0') + "7");
		v.push_back("0." + std::string(u - 3, '0') + "7");
		v.push_back("1" + std::string(u - 2, '0') + "1");
		v.push_back("1." + std::string(u - 3, '0') + "1");
	}
	return v;
}

// ---- coincidences -------------------------------------------------------------
// Literals for every pair of ... (jobs 0 .. literal_grid<T>()), as a number and
// as it is written
template<typename T> struct grid10
{
	typedef limits10<T> L;
	enum : u64 { powers = L::top - L::bottom + 8, written = 2 * L::top - L::bottom, binades = bits_of<T>::maxexp, lengths = 2046, zeros = 20, widths = 128, inner = 20, all = powers + written + binades + lengths + zeros + widths + inner };
};

inline std::string zeros_of(std::size_t n) { return std::string(n, '0'); }

template<typename T, typename F> void each_literal(u64 j, u64 seed, F use)
{
	typedef limits10<T> L;
	typedef bits_of<T> B;
	typedef grid10<T> G;
	Rng g(seed, 5000000 + j * 2 + sizeof(T) / 8);
	const int k = L::digits;
	auto rd = [&](std::size_t n) { return random_digits(g, n); };
	// digits starting like a midpoint, like a value or like nothing particular
	auto hard = [&](std::size_t n)
	{
		if (g.chance(3)) return rd(n);
		std::string s = exact_decimal(make_value<T>(false, static_cast<u64>(B::maxexp / 2 + g.range(-20, 60)), static_cast<typename B::type>(g.next())), g.chance(2)).digits;
		if (s.size() < n) s.append(n - s.size(), '0');
		s.resize(n);
		return s;
	};
	if (j < G::powers) // ... the power of ten and the number of digits
	{
		const long p = L::bottom - 4 + static_cast<long>(j);
		for (int n = 1; n <= k + 7; ++n)
			for (int r = 0; r < 3; ++r)
			{
				const Dec d(rd(static_cast<std::size_t>(n)), p - n + 1, g.chance(4));
				use(d, r ? render(d, g, 300) : plain(d));
			}
		return;
	}
	j -= G::powers;
	if (j < G::written) // ... the exponent as written and the place of the point
	{
		const long x = static_cast<long>(j) - static_cast<long>(G::written) / 2;
		for (int y = -22; y <= 22; ++y)
		{
			const std::size_t u = static_cast<std::size_t>(y < 0 ? -y : y);
			std::string s, d;
			if (y < 0) { d = rd(u + g.below(4)); s = d.size() > u ? d.substr(0, d.size() - u) + "." + d.substr(d.size() - u) : (g.chance(2) ? "." : "0.") + zeros_of(u - d.size()) + d; }
			else { d = rd(1 + g.below(static_cast<u64>(k))); s = d + zeros_of(u); if (g.chance(4)) s += '.'; }
			if (x || g.chance(2)) s += (g.chance(4) ? "E" : "e") + std::string(x >= 0 && g.chance(4) ? "+" : "") + std::to_string(x);
			use(Dec(d, x + y), s);
		}
		return;
	}
	j -= G::written;
	if (j < G::binades) // ... the binary exponent and the number of trailing zero bits
	{
		for (int z = 0; z <= B::mant; ++z)
			for (int r = 0; r < 2; ++r)
			{
				typedef typename B::type U;
				const U top = (U(1) << B::mant) - 1;
				const U m = z == B::mant ? U(0) : (((static_cast<U>(g.next()) | 1) << z) & top);
				const T v = make_value<T>(false, j, m);
				if (v == 0) continue;
				static char buf[2048];
				if (r == 0) snprintf(buf, sizeof(buf), "%.*e", (sizeof(T) == 4 ? 8 : 16) + g.range(0, 2), static_cast<double>(v));
				else
				{
					if (!g.chance(3)) continue;
					snprintf(buf, sizeof(buf), "%.*Le", g.chance(4) ? 780 : g.range(k, 60), static_cast<long double>(v));
				}
				Dec d = from_scientific(buf);
				d.neg = g.chance(4);
				use(d, g.chance(2) ? plain(d) : render(d, g, 1000));
			}
		return;
	}
	j -= G::binades;
	if (j < G::lengths) // ... the length and the place of the point
	{
		const std::size_t n = static_cast<std::size_t>(j) + 1;
		for (int r = 0; r < 7; ++r)
		{
			std::string s;
			long e = 0;
			switch (r)
			{
			case 0: s = hard(n); break;
			case 1: s = hard(n); e = static_cast<long>(g.below(n + 1)); break;
			case 2: s = zeros_of(n - 1) + g.nzdigit(); break;
			case 3: { const std::size_t a = g.below(n); s = zeros_of(a) + hard(n - a); e = static_cast<long>(g.below(n + 1)); break; }
			case 4: { const std::size_t a = 1 + g.below(n); s = hard(a) + zeros_of(n - a); e = static_cast<long>(g.below(n + 1)); break; }
			case 5: s = hard(1 + g.below(n)); s.resize(n, '0'); s.back() = '1'; e = static_cast<long>(n) - 1; break;
			case 6: s = rd(n); e = n > 2 ? static_cast<long>(n) - 2 : 0; break;
			}
			const Dec d(s, -e);
			if (e && n < 2046) { s.insert(n - static_cast<std::size_t>(e), "."); }
			else if (e) continue;
			std::string x;
			if (n < 2030 && g.chance(2)) // back into the range
			{
				const long back = e - static_cast<long>(n) + g.range(L::bottom, L::top);
				x = "e" + std::to_string(back);
				use(Dec(d.digits, d.exp + back), s + x);
			}
			use(d, s);
		}
		return;
	}
	j -= G::lengths;
	if (j < G::zeros) // ... the number of digits and the number of zeros behind them
	{
		const std::size_t a = static_cast<std::size_t>(j);
		for (std::size_t z = 0; z <= 2000; z += z < 1100 ? 1 : 1 + g.below(4))
			for (int r = 0; r < 3; ++r)
			{
				const std::string x = a ? rd(a) : "", y = g.chance(3) ? hard(1 + g.below(12)) : rd(1 + g.below(12));
				std::string s = x + zeros_of(z) + y, t = s;
				long e = 0;
				switch (r)
				{
				case 0: e = static_cast<long>(g.below(s.size() + 1)); break;            // the point anywhere
				case 1: e = static_cast<long>(g.below(z + 1) + y.size()); break;        // among the zeros
				case 2: e = g.chance(2) ? 0 : static_cast<long>(z + y.size()); break;    // before or behind all of them
				}
				if (e) t.insert(s.size() - static_cast<std::size_t>(e), ".");
				const long back = g.chance(3) ? 0 : e - static_cast<long>(g.chance(2) ? s.size() : y.size()) + g.range(L::bottom / 2, L::top / 2);
				if (back) t += "e" + std::to_string(back);
				use(Dec(s, back - e), t);
			}
		return;
	}
	j -= G::zeros;
	if (j < G::widths) // ... the exponent and its number of digits
	{
		for (long x = -(L::top + 30); x <= L::top + 10; ++x)
		{
			const std::size_t z = j < 96 ? static_cast<std::size_t>(j) : g.below(g.chance(8) ? 1800 : 300);
			const std::string s = rd(1 + g.below(static_cast<u64>(k) + 2));
			use(Dec(s, x), s + "e" + (x < 0 ? "-" : g.chance(2) ? "+" : "") + zeros_of(z) + std::to_string(labs(x)));
		}
		return;
	}
	j -= G::widths;
	// ... neighbouring digits and their place
	const std::size_t at = static_cast<std::size_t>(j);
	for (int c = 0; c < 1000; ++c)
	{
		std::string s = rd(at + 3 + g.below(8));
		char three[4];
		snprintf(three, sizeof(three), "%03d", c);
		s.replace(at, 3, three);
		if (s[0] == '0') { s.insert(0, 1, g.nzdigit()); }
		const Dec d(s, g.range(-30, 10), g.chance(4));
		use(d, g.chance(2) ? plain(d) : render(d, g, 100));
	}
}
