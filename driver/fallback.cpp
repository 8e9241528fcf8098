// The default fallback of every type: fallback SEED RECORDED OUT
#include "literals.h"
#include "strings.h"
#include <floaxie/atof.h>

using namespace floaxie;

static u64 seed;

template<typename T> struct Words;
template<> struct Words<float> { static const char* tag() { return "f"; } static std::string of(float v) { return Record::wordlist(to_bits(v), 2); } };
template<> struct Words<double> { static const char* tag() { return "d"; } static std::string of(double v) { return Record::wordlist(to_bits(v), 4); } };
template<> struct Words<long double>
{
	static const char* tag() { return "x"; }
	static std::string of(long double v)
	{
		u64 m; unsigned short se;
		std::memcpy(&m, &v, 8);
		std::memcpy(&se, reinterpret_cast<const char*>(&v) + 8, 2);
		std::vector<long> w;
		w.push_back(se);
		for (int i = 3; i >= 0; --i) w.push_back(static_cast<long>((m >> (16 * i)) & 0xffff));
		return Record::list(w.begin(), w.end());
	}
};

template<typename T, typename Ch> void one(Worker& w, const std::string& s)
{
	w.describe_string("default fallback", s.data(), s.size(), Words<T>::tag());
	std::basic_string<Ch> c(s.begin(), s.end());
	Ch* e = nullptr;
	const T v = default_fallback<T, Ch>(c.c_str(), &e);
	const T v2 = default_fallback<T, Ch>(c.c_str(), nullptr);
	++w.sh->done;
	w.emit(Record("dfb").str("ty", Words<T>::tag()).num("ch", sizeof(Ch)).text("tx", s).raw("w", Words<T>::of(v)).num("end", e - c.c_str()));
	if (Words<T>::of(v) != Words<T>::of(v2)) w.emit(Record("dfbnull").text("tx", s));
}

template<typename Ch> void all(Worker& w, const std::string& s)
{
	one<float, Ch>(w, s);
	one<double, Ch>(w, s);
	one<long double, Ch>(w, s);
}

int main(int argc, char** argv)
{
	if (argc < 4) return 2;
	seed = strtoull(argv[1], nullptr, 10);
	const u64 n = strtoull(argv[2], nullptr, 10);
	// every length, too
	const u64 lengths = 260, random = n / 6;
	const auto t = run_jobs(argv[3], random + lengths, [&](Worker& w, u64 i)
	{
		Rng g(seed, 400 + i);
		std::string s;
		if (i >= random)
		{
			const u64 len = i - random + 1;
			const std::string tail = len > 3 && g.chance(3) ? "e-7" : "";
			s = random_digits(g, len - tail.size());
			if (s.size() > 2 && g.chance(2)) s[1 + g.below(s.size() - 2)] = '.';
			if (s.size() > 2 && g.chance(4)) s[0] = '-';
			s += tail;
			all<wchar_t>(w, s); all<char>(w, s);
			return;
		}
		switch (g.below(8))
		{
		case 0: s = zero_literal(g); break;
		case 1: { static const char* const t[] = { "inf", "-Infinity", "nan", "+NAN", "", "-", "e5", ".", "1e", "1e+", ".5.", "-0", "1e-45", "1.4e-45", "-4.9e-324", "3.5e38", "-1.8e308", "0.1", "1.00000000000000000005421010862427522170037264004349708557128906250001" }; s = t[g.below(19)]; break; }
		case 2: case 3: s = render(random_dec<float>(g), g, g.chance(8) ? 100 + g.below(1500) : 80); break;
		case 4: { Dec d; d.digits = random_digits(g, 1 + g.below(40)); d.exp = g.range(-60, 40); s = render(d, g, 90); break; }
		default: s = render(random_dec<double>(g), g, g.chance(8) ? 100 + g.below(1500) : 90);
		}
		if (g.chance(4)) s += "e+-. ,;"[g.below(7)];
		if (i & 1) all<wchar_t>(w, s); else all<char>(w, s);
	});
	report(t);
	return 0;
}
