// Strings of all kinds
#pragma once
#include "common.h"

inline std::string random_word(Rng& g)
{
	static const char* const words[] = { "inf", "infinity", "nan", "nan(", "nan()", "nan(abc)", "nan(1_2Z)", "nan(x", "nan(a-b)", "infinit", "infi", "in", "na", "n", "i", "infinityx", "nannan", "infinf", "nan( )", "nan(\x7f)", "nan((a))", "nan[a]", "nan(@)", "nan(`)", "nan({)", "nan(/)", "nan(:)" };
	std::string s = g.chance(2) ? "" : g.chance(2) ? "-" : "+";
	std::string t = words[g.below(27)];
	if (g.chance(6)) t.resize(g.below(t.size() + 1));
	if (g.chance(5)) t.insert(g.below(t.size() + 1), 1, "infatyNAN()_-+0.e \x1f"[g.below(19)]);
	if (g.chance(8)) { t = "nan("; const std::size_t n = g.below(60); for (std::size_t k = 0; k < n; ++k) t += "abcxyzABCXYZ0123456789_"[g.below(23)]; if (!g.chance(3)) t += ')'; }
	for (char& c : t) if (isalpha(static_cast<unsigned char>(c)) && g.chance(3)) c = static_cast<char>(c ^ 32);
	s += t;
	if (g.chance(3)) s += std::string(1, "infx )_1.e\n"[g.below(11)]);
	return s;
}

inline std::string random_string(Rng& g)
{
	static const char* const alphabets[] = { "0123456789.eE+-", "01.e-", "0.", "9e+-x", "+-.", "infatyINFATY", "nan()_aZ0", "0123456789abcdefxXpP.", " \t0.1e" };
	std::string s;
	const int mode = static_cast<int>(g.below(12));
	if (mode < 9)
	{
		const char* a = alphabets[mode];
		const std::size_t n = g.below(14), l = std::strlen(a);
		while (s.size() < n) s += a[g.below(l)];
	}
	else if (mode == 9) s = random_word(g);
	else { const std::size_t n = g.below(10); while (s.size() < n) s += static_cast<char>(1 + g.below(255)); }
	return s;
}

inline std::string random_suffix(Rng& g)
{
	static const char* const t[] = { "e", "E", "e+", "e-", "E-x", ".", "..5", "-", "+1", "x", " ", "f", "e5", "e-7", "E+05", "0", "1", "9", "00000000000", ",5", "e5.5", "e5e5", "ee5", "e--5", "inf", "nan", "p3", "\n", ")", "_", "d", "L", "\x80", "\xff" };
	std::string s = t[g.below(34)];
	if (g.chance(4)) s += random_string(g);
	return s;
}

// "49 46 53" -> "1.5"; codes of whatever width
inline std::wstring decode(const std::string& l)
{
	std::wstring r;
	const char* p = l.c_str();
	char* e;
	for (;;) { const long c = strtol(p, &e, 10); if (e == p) break; r += static_cast<wchar_t>(c); p = e; while (*p == ',' || *p == ' ' || *p == '<' || *p == '>') ++p; }
	return r;
}

inline bool is_narrow(const std::wstring& s)
{
	for (wchar_t c : s) if (c < 0 || c > 255) return false;
	return true;
}

// codes cut to a byte
inline std::string narrow(const std::wstring& s)
{
	std::string r;
	for (wchar_t c : s) r += static_cast<char>(c);
	return r.substr(0, r.find('\0'));
}
