// Values to print: directed and random
#pragma once
#include "common.h"

template<typename T> void add_neighbours(std::vector<T>& v, T x)
{
	if (!std::isfinite(x)) return;
	v.push_back(x);
	v.push_back(std::nextafter(x, std::numeric_limits<T>::infinity()));
	v.push_back(std::nextafter(x, -std::numeric_limits<T>::infinity()));
}

inline float to_value(const std::string& s, float) { return std::strtof(s.c_str(), nullptr); }
inline double to_value(const std::string& s, double) { return std::strtod(s.c_str(), nullptr); }

// every exponent with characteristic mantissas; every layout; specials
template<typename T> std::vector<T> directed_values(u64 seed, unsigned randoms, unsigned layouts)
{
	typedef bits_of<T> B;
	typedef typename B::type U;
	std::vector<T> v;
	Rng g(seed, 77);
	const U top = (U(1) << B::mant) - 1;
	for (u64 e = 0; e < B::maxexp; ++e)
	{
		const U fixed[] = { 0, 1, 2, top, top - 1, top / 2, top / 2 + 1, top / 2 + 2 };
		for (U m : fixed) v.push_back(make_value<T>(g.chance(4), e, m));
		for (unsigned r = 0; r < randoms; ++r) v.push_back(make_value<T>(g.chance(4), e, g.next()));
		for (unsigned r = 0; r < randoms / 2; ++r) // few bits set, at either end
		{
			const U few = (U(1) << g.below(B::mant)) | (U(1) << g.below(B::mant));
			v.push_back(make_value<T>(false, e, g.chance(2) ? few : top ^ few));
		}
	}
	// numbers of n digits with the leading digit at 10^p, all over the range
	const int maxd = std::is_same<T, float>::value ? 9 : 17, maxe = std::is_same<T, float>::value ? 38 : 308, mine = std::is_same<T, float>::value ? -45 : -324;
	for (int p = mine; p <= maxe; ++p)
		for (int n = 1; n <= maxd; ++n)
		{
			const bool near = p > -22 && p < 24;
			const unsigned times = near ? layouts : (g.below(6) == 0);
			for (unsigned t = 0; t < times; ++t)
			{
				std::string s(1, g.nzdigit());
				if (n > 1) { s += '.'; for (int k = 1; k < n; ++k) s += k + 1 < n ? (g.chance(3) ? '0' : g.chance(3) ? '9' : g.digit()) : g.nzdigit(); }
				s += 'e' + std::to_string(p);
				T x = to_value(s, T());
				if (!std::isfinite(x) || x == 0) continue;
				v.push_back(g.chance(3) ? -x : x);
			}
		}
	for (int p = mine; p <= maxe; ++p)
		for (const char* m : { "1e", "9.999999999e", "5e" })
			add_neighbours(v, to_value(m + std::to_string(p), T()));
	// integers
	for (u64 k = 1; k <= 100; ++k) v.push_back(static_cast<T>(k));
	for (unsigned k = 0; k < 60; ++k) { v.push_back(static_cast<T>(g.next() >> g.below(63))); v.push_back(static_cast<T>(u64(1) << k)); }
	// smallest and greatest ones
	for (u64 k = 1; k <= 64; ++k)
	{
		v.push_back(from_bits<T>(static_cast<U>(k)));
		v.push_back(from_bits<T>(to_bits(std::numeric_limits<T>::max()) - static_cast<U>(k) + 1));
		v.push_back(from_bits<T>(to_bits(std::numeric_limits<T>::min()) - 32 + static_cast<U>(k)));
	}
	return v;
}

// Coincidences of a layout with a magnitude: every number of trailing zero bits
// and every run of equal leading bits with every exponent ...
template<typename T, typename F> void each_bit_pattern(u64 e, u64 seed, F use)
{
	typedef bits_of<T> B;
	typedef typename B::type U;
	Rng g(seed, 3000000 + e);
	const U top = (U(1) << B::mant) - 1;
	for (int z = 0; z <= B::mant; ++z)
	{
		const U m = static_cast<U>(g.next()) & top;
		const U low = z == B::mant ? U(0) : ((m | 1) << z) & top;
		const U head = top >> z, run = m & (head >> 1); // z equal bits, the opposite one
		const bool s = g.chance(2);
		for (U x : { low, run | (head ^ (head >> 1)), static_cast<U>(top ^ (run | (head ^ (head >> 1)))), static_cast<U>(run & (m >> 5)) })
			if (e || x) use(make_value<T>(s, e, x));
		if (low || e) use(make_value<T>(!s, e, low));
	}
}

// ... and every number of digits with every power of ten, of either sign
template<typename T, typename F> void each_layout(int p, u64 seed, F use)
{
	Rng g(seed, 4000000 + static_cast<u64>(p + 1000));
	const int maxd = std::is_same<T, float>::value ? 9 : 17;
	for (int n = 1; n <= maxd; ++n)
		for (int k = 0; k < 4; ++k)
		{
			std::string s = k & 1 ? "-" : "";
			for (int i = 0; i < n; ++i) s += i == 0 || i + 1 == n ? g.nzdigit() : k > 1 && g.chance(2) ? g.chance(2) ? '0' : '9' : g.digit();
			s += 'e' + std::to_string(p - n + 1);
			const T x = to_value(s, T());
			if (std::isfinite(x) && x != 0) use(x);
		}
}
template<typename T> struct decades;
template<> struct decades<float> { enum { first = -45, count = 45 + 39 }; };
template<> struct decades<double> { enum { first = -324, count = 324 + 309 }; };

inline u64 grid_size() { return u64(bits_of<double>::maxexp) + bits_of<float>::maxexp + decades<double>::count + decades<float>::count; }
template<typename F> void each_in_grid(u64 n, u64 seed, F use)
{
	if (n < bits_of<double>::maxexp) { each_bit_pattern<double>(n, seed, use); return; }
	n -= bits_of<double>::maxexp;
	if (n < bits_of<float>::maxexp) { each_bit_pattern<float>(n, seed, use); return; }
	n -= bits_of<float>::maxexp;
	if (n < decades<double>::count) { each_layout<double>(static_cast<int>(n) + decades<double>::first, seed, use); return; }
	n -= decades<double>::count;
	each_layout<float>(static_cast<int>(n) + decades<float>::first, seed, use);
}

template<typename T> std::vector<T> special_values(u64 seed)
{
	typedef bits_of<T> B;
	std::vector<T> v;
	Rng g(seed, 78);
	for (int s = 0; s < 2; ++s)
	{
		v.push_back(make_value<T>(s, 0, 0));
		v.push_back(make_value<T>(s, B::maxexp, 0));
		for (int b = 0; b < B::mant; ++b) v.push_back(make_value<T>(s, B::maxexp, u64(1) << b));
		for (int k = 0; k < 30; ++k) v.push_back(make_value<T>(s, B::maxexp, g.next() | 1));
		v.push_back(make_value<T>(s, B::maxexp, ~u64(0)));
	}
	return v;
}

template<typename T> T random_value(Rng& g)
{
	typedef bits_of<T> B;
	typedef typename B::type U;
	for (;;)
	{
		T x;
		switch (g.below(9))
		{
		case 8: // subnormal of any length
			x = make_value<T>(g.chance(2), 0, (static_cast<U>(g.next()) & ((U(1) << B::mant) - 1)) >> g.below(B::mant)); break;
		default: x = from_bits<T>(static_cast<U>(g.next())); break;
		case 5: x = make_value<T>(g.chance(2), g.below(B::maxexp), g.next() & g.next() & g.next()); break;
		case 6: { // short decimals
			std::string s = std::to_string(g.below(g.chance(2) ? 100000 : 10000000)) + "e" + std::to_string(g.range(-25, 18));
			x = to_value(s, T()); if (g.chance(2)) x = -x; break; }
		case 7: { // medium magnitude
			const int bias = B::maxexp / 2;
			x = make_value<T>(g.chance(2), static_cast<u64>(bias + g.range(-60, 60)), g.next()); break; }
		}
		if (std::isfinite(x) && x != 0) return x;
	}
}

template<typename T> T random_normal(Rng& g)
{
	for (;;)
	{
		T x = from_bits<T>(static_cast<typename bits_of<T>::type>(g.next()));
		if (std::isnormal(x)) return x;
	}
}
