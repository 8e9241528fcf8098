// A translation unit of a program: compiled with -DUNIT=n and -DHEADERS="file",
// a file which includes headers of the library and defines HAVE_...  It asks
// for replies before, in and after main().
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

void CAT(unit, UNIT)();

namespace
{
	// the first object of this unit: no other is constructed yet, or still there
	struct Asker
	{
		Asker() { CAT(unit, UNIT)(); }
		~Asker() { CAT(unit, UNIT)(); }
	} asker;
}

#include HEADERS
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <sstream>
#include <string>

namespace
{
	unsigned long long word(double v) { unsigned long long b; std::memcpy(&b, &v, 8); return b; }

#ifdef HAVE_FTOA
	template<typename T, typename Ch> void print(unsigned unit, unsigned a, T v)
	{
		Ch b[64];
		const std::size_t n = floaxie::ftoa(v, b);
		std::printf("{\"op\":\"reply\",\"u\":%u,\"kind\":\"%s\",\"a\":%u,\"r\":[%u", unit, "ftoa", a, static_cast<unsigned>(n));
		for (const Ch* p = b; *p; ++p) std::printf(",%u", static_cast<unsigned>(*p));
		std::printf("]}\n");
	}
#endif
#if defined(HAVE_FTOA) || defined(HAVE_DIY_FP) || defined(HAVE_PRINT)
	void string(unsigned unit, const char* kind, unsigned a, const std::string& s)
	{
		std::printf("{\"op\":\"reply\",\"u\":%u,\"kind\":\"%s\",\"a\":%u,\"r\":[%u", unit, kind, a, static_cast<unsigned>(s.size()));
		for (char c : s) std::printf(",%u", static_cast<unsigned>(c));
		std::printf("]}\n");
	}
#endif
	// replies to many requests, folded into one
	struct Digest
	{
		unsigned long long h = 14695981039346656037ull, x = 88172645463325252ull;
		void add(unsigned long long v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
		template<typename S> void text(const S& s) { add(s.size()); for (auto c : s) add(static_cast<unsigned long long>(c)); }
		unsigned long long next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
		// all exponents, significands with few and with many bits
		double value() { unsigned long long b = next(); if (b & 1) b &= ~0ull << (b >> 1 & 63); double v; std::memcpy(&v, &b, 8); return v - v == 0 && v != 0 ? v : 1.5; }
		float single() { unsigned b = static_cast<unsigned>(next() >> 32); if (b & 1) b &= ~0u << (b >> 1 & 31); float v; std::memcpy(&v, &b, 4); return v - v == 0 && v != 0 ? v : 1.5f; }
		std::string literal()
		{
			static const char* const odd[] = { "inf", "-INFINITY", "nan", "nan(7_a)", "", ".", "-.e1", "1e", "0.e-5", "infinitx", "+nan(", "1e99999", "-1e-99999" };
			if (next() % 16 == 0) return odd[next() % 13];
			std::string s = next() & 8 ? "-" : "";
			const unsigned n = next() % 64 ? 1 + next() % 40 : 1 + next() % 2100, dot = static_cast<unsigned>(next() % 50);
			for (unsigned i = 0; i < n; ++i) { if (i == dot) s += '.'; s += static_cast<char>('0' + (next() % 4 ? next() % 10 : 0)); }
			if (next() & 8) { char e[24]; std::snprintf(e, sizeof(e), "e%d", static_cast<int>(next() % 720) - 360); s += e; }
			return s;
		}
		void say(unsigned unit, const char* kind, unsigned a)
		{
			std::printf("{\"op\":\"reply\",\"u\":%u,\"kind\":\"%s\",\"a\":%u,\"r\":[%u,%u,%u,%u]}\n", unit, kind, a, static_cast<unsigned>(h >> 48), static_cast<unsigned>(h >> 32 & 0xffff),
				static_cast<unsigned>(h >> 16 & 0xffff), static_cast<unsigned>(h & 0xffff));
		}
	};
#ifdef HAVE_ATOF
	template<typename T, typename Ch> T mine(const Ch*, Ch** end) { if (end) *end = nullptr; return T(77); }
	template<typename T, typename Ch> void parse_many(Digest& d, bool with)
	{
		for (int i = 0; i < 1500; ++i)
		{
			const std::string s = d.literal();
			const std::basic_string<Ch> t(s.begin(), s.end());
			Ch* end = nullptr;
			const auto v = with ? floaxie::atof<T>(t.c_str(), &end, mine<T, Ch>) : floaxie::atof<T>(t.c_str(), &end);
			d.add(v.value != v.value ? 1 : word(v.value));
			d.add(static_cast<unsigned long long>(v.status));
			d.add(end ? static_cast<unsigned long long>(end - t.c_str()) : 9999);
		}
	}
#endif
#ifdef HAVE_DIY_FP
	// a stream of its own: the standard ones belong to the program
	template<typename D> std::string text(const D& d) { std::ostringstream o; o << d; return o.str(); }
#endif
#ifdef HAVE_ATOF
	template<typename T, typename Ch> void parse(unsigned unit, unsigned a, const Ch* s)
	{
		Ch* e = nullptr;
		const auto v = floaxie::atof<T>(s, &e);
		const unsigned long long b = word(v.value);
		std::printf("{\"op\":\"reply\",\"u\":%u,\"kind\":\"atof\",\"a\":%u,\"r\":[%u,%u,%u,%u,%d,%d]}\n", unit, a, static_cast<unsigned>(b >> 48), static_cast<unsigned>(b >> 32 & 0xffff),
			static_cast<unsigned>(b >> 16 & 0xffff), static_cast<unsigned>(b & 0xffff), static_cast<int>(v.status), static_cast<int>(e - s));
	}
#endif
}

void CAT(unit, UNIT)()
{
	(void)&word;
#ifdef HAVE_FTOA
	print<double, char>(UNIT, 1, 0.1);
	print<double, wchar_t>(UNIT, 2, -1.7976931348623157e308);
	print<float, char>(UNIT, 3, 3.4028235e38f);
	print<float, wchar_t>(UNIT, 4, 1e-45f);
	string(UNIT, "ftoa", 5, floaxie::to_string(6.02214076e23));
	string(UNIT, "ftoa", 6, floaxie::to_string(-0.3f));
	{
		Digest d, e;
		for (int i = 0; i < 3000; ++i) { d.text(floaxie::to_string(d.value())); e.text(floaxie::to_string(e.single())); }
		for (int i = 0; i < 300; ++i) { d.text(floaxie::to_wstring(d.value())); e.text(floaxie::to_u16string(e.single())); e.text(floaxie::to_u32string(e.value())); }
		d.say(UNIT, "ftoa", 18);
		e.say(UNIT, "ftoa", 19);
	}
#endif
#ifdef HAVE_ATOF
	parse<double>(UNIT, 7, "0.1x");
	parse<double>(UNIT, 8, L"9007199254740993");
	parse<float>(UNIT, 9, "-1e-45");
	parse<float>(UNIT, 10, L"3.5e38");
	parse<double>(UNIT, 11, "-Infinity!");
	parse<double>(UNIT, 12, "123456789012345678901234567890e-400");
	parse<float>(UNIT, 13, "nope");
	{
		Digest d, e;
		parse_many<double, char>(d, false); parse_many<double, wchar_t>(d, true); d.say(UNIT, "atof", 20);
		parse_many<float, wchar_t>(e, false); parse_many<float, char>(e, true); e.say(UNIT, "atof", 21);
	}
#endif
#ifdef HAVE_DIY_FP
	{
		floaxie::diy_fp<double> d(0.3);
		d.normalize();
		const auto r = d * floaxie::diy_fp<double>(7.0);
		string(UNIT, "diy_fp", 14, text(r));
		string(UNIT, "diy_fp", 15, text(floaxie::diy_fp<float>(-1e-45f)));
		Digest all;
		for (int i = 0; i < 500; ++i)
		{
			floaxie::diy_fp<double> a(all.value());
			a.normalize();
			floaxie::diy_fp<float> b(all.single());
			b.normalize();
			all.text(text(a * floaxie::diy_fp<double>(all.value())));
			all.text(text(b * floaxie::diy_fp<float>(all.single())));
		}
		all.say(UNIT, "diy_fp", 22);
	}
#endif
#ifdef HAVE_PRINT
	string(UNIT, "print", 16, floaxie::print_binary(-0.1));
	string(UNIT, "print", 17, floaxie::print_binary(std::uint32_t(2863311530u)));
	{
		Digest d;
		for (int i = 0; i < 300; ++i) { d.text(floaxie::print_binary(d.value())); d.text(floaxie::print_binary(static_cast<std::uint16_t>(d.next()))); d.text(floaxie::print_double_presentation(static_cast<std::uint64_t>(d.next()))); }
		d.say(UNIT, "print", 23);
	}
#endif
}

#if UNIT == 1
void unit2();
static void phase(const char* name) { std::printf("{\"op\":\"phase\",\"ph\":\"%s\"}\n", name); }
int main() { phase("main"); unit1(); unit2(); phase("exiting"); }
#endif
