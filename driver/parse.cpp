// Records parsing: parse LENS SEED BATCHES KEEP OUT [STRINGS-FILE [EVERY]]
// of the strings, every EVERYth is recorded anyway
#include "literals.h"
#include "values.h"
#include "strings.h"
#include <functional>
#include <floaxie/atof.h>

using namespace floaxie;

static char lens;
static u64 seed, batch_size = 500, every = 1;
static Guarded* mem;

template<typename Ch> std::basic_string<Ch> widen(const std::string& s)
{
	std::basic_string<Ch> r;
	for (char c : s) r += static_cast<Ch>(static_cast<unsigned char>(c));
	return r;
}
template<> std::string widen<char>(const std::string& s) { return s; }

template<typename T> struct Parsed { T value; long status, end; bool intact; };

static const int stale[] = { 0, 0, ERANGE, EINVAL, EDOM };

// variant: 0, 1 - with end pointer, string against the end/start of accessible
// memory; 2 - without end pointer; 3 - std::basic_string
template<typename T, typename Ch> Parsed<T> call(Worker& w, const std::basic_string<Ch>& s, unsigned variant, int err)
{
	Parsed<T> r;
	w.describe_string(variant == 3 ? "from_string" : variant == 2 ? "atof(null)" : "atof", s.data(), s.size(), bits_of<T>::tag());
	r.end = -1;
	r.intact = true;
	value_and_status<T> v;
	if (variant == 3)
	{
		errno = err;
		v = from_string<T>(s);
	}
	else
	{
		Ch* const p = mem->put(s, variant != 1);
		Ch* end = p - 7;
		errno = err;
		v = variant == 2 ? floaxie::atof<T>(static_cast<const Ch*>(p), nullptr) : floaxie::atof<T>(static_cast<const Ch*>(p), &end);
		if (variant != 2) r.end = end - p;
		r.intact = std::memcmp(p, s.c_str(), (s.size() + 1) * sizeof(Ch)) == 0;
	}
	++w.sh->done;
	r.value = v.value;
	if (variant & 1) { const T implicitly = v; r.value = implicitly; } // as most programs get it
	r.status = static_cast<long>(v.status);
	return r;
}

static bool pick(Worker& w, bool forced, bool suspicious)
{
	if (suspicious && w.suspicious_left) { --w.suspicious_left; return true; }
	return forced;
}

// ---- reference, only to choose what is recorded first ----------------------
struct Ref { long end; bool number, zero, special; };
template<typename Ch> Ref ref_scan(const std::basic_string<Ch>& s)
{
	Ref r = { 0, false, true, false };
	auto at = [&](std::size_t i) -> long { return i < s.size() ? Record::code(s[i]) : 0; };
	auto low = [&](std::size_t i) { long c = at(i); return c >= 'A' && c <= 'Z' ? c + 32 : c; };
	std::size_t i = 0, digits = 0;
	if (at(0) == '-' || at(0) == '+') ++i;
	const std::size_t b = i;
	for (bool dot = false; (at(i) >= '0' && at(i) <= '9') || (at(i) == '.' && !dot); ++i)
		if (at(i) == '.') dot = true; else { ++digits; r.zero = r.zero && at(i) == '0'; }
	if (digits)
	{
		r.number = true;
		r.end = static_cast<long>(i);
		if (low(i) == 'e')
		{
			++i;
			if (at(i) == '-' || at(i) == '+') ++i;
			if (at(i) >= '0' && at(i) <= '9') { while (at(i) >= '0' && at(i) <= '9') ++i; r.end = static_cast<long>(i); }
		}
		return r;
	}
	auto word = [&](const char* w) { std::size_t k = 0; while (w[k] && low(b + k) == w[k]) ++k; return !w[k]; };
	if (word("infinity")) { r.end = static_cast<long>(b + 8); r.special = true; }
	else if (word("inf")) { r.end = static_cast<long>(b + 3); r.special = true; }
	else if (word("nan"))
	{
		r.end = static_cast<long>(b + 3); r.special = true;
		std::size_t k = b + 3;
		if (at(k) == '(')
		{
			for (++k; (at(k) >= '0' && at(k) <= '9') || (low(k) >= 'a' && low(k) <= 'z') || at(k) == '_'; ++k) {}
			if (at(k) == ')') r.end = static_cast<long>(k + 1);
		}
	}
	return r;
}

template<typename T> T libc(const std::string& s, long& status)
{
	errno = 0;
	const T v = to_value(s, T());
	status = std::isinf(v) && errno == ERANGE ? 2 : v == 0 && errno == ERANGE ? 1 : 0;
	return v;
}


template<typename T> bool differs(const std::string& s, const Ref& ref, T v, long st, bool status_too)
{
	if (!ref.number) return false;
	long rs;
	const T x = libc<T>(s.substr(0, static_cast<std::size_t>(ref.end)), rs);
	return to_bits(x) != to_bits(v) || (status_too && rs != st);
}

template<typename T, typename Ch> Record parse_record(const std::basic_string<Ch>& s, const Parsed<T>& r)
{
	return Record("parse").type<T>().text("tx", s).value("w", r.value).num("st", r.status).num("end", r.end);
}

// ---- lenses ------------------------------------------------------------------
template<typename T> void lens_literal(Worker& w, const std::string& s, bool forced, Rng& g)
{
	const unsigned variant = static_cast<unsigned>(g.below(5));
	const int err = stale[g.below(5)];
	const Ref ref = ref_scan(s);
	if (variant == 4)
	{
		const std::wstring ws = widen<wchar_t>(s);
		const auto r = call<T>(w, ws, static_cast<unsigned>(g.below(4)), err);
		if (pick(w, forced, differs(s, ref, r.value, r.status, true))) w.emit(parse_record(ws, r));
	}
	else
	{
		const auto r = call<T>(w, s, variant, err);
		if (pick(w, forced, differs(s, ref, r.value, r.status, true))) w.emit(parse_record(s, r));
	}
}

template<typename T, typename Ch> bool odd(const std::basic_string<Ch>& s, const Parsed<T>& r)
{
	const Ref ref = ref_scan(s);
	return r.end != ref.end || (std::isnan(r.value) && !ref.special) ||
		(ref.end == 0 && (to_bits(r.value) != 0 || r.status)) || !r.intact || (!ref.special && std::isinf(r.value) && r.status != 2) || (ref.special && (std::isfinite(r.value) || r.status));
}

template<typename T, typename Ch> void lens_string(Worker& w, const std::basic_string<Ch>& s, bool forced, Rng& g)
{
	const auto r = call<T>(w, s, static_cast<unsigned>(g.below(2)), stale[g.below(5)]);
	if (pick(w, forced, odd(s, r))) w.emit(parse_record(s, r));
}

template<typename T, typename Ch> void lens_suffix(Worker& w, const std::basic_string<Ch>& s, const std::basic_string<Ch>& more, bool forced)
{
	const std::basic_string<Ch> full = s + more;
	if (full.size() > 2040) return; // longest mantissa the library considers
	const auto a = call<T>(w, s, 0, 0);
	const auto b = call<T>(w, full, 0, 0);
	const bool sus = a.end != ref_scan(s).end || b.end != ref_scan(full).end || (a.end == b.end && (to_bits(a.value) != to_bits(b.value) || a.status != b.status));
	if (pick(w, forced, sus))
		w.emit(Record("suffix").type<T>().text("tx", s).text("more", more).value("w", a.value).num("st", a.status).num("end", a.end)
			.value("mw", b.value).num("mst", b.status).num("mend", b.end));
}

// a fallback under our control
template<typename T, typename Ch> struct Fallback
{
	static int calls;
	static const Ch* str;
	static Ch** end;
	static T answer;
	static std::size_t consume;
	static bool honest;
	static int err; // what it reports
	static T convert(const char* s, char** e) { return sizeof(T) == 4 ? static_cast<T>(std::strtof(s, e)) : static_cast<T>(std::strtod(s, e)); }
	static T convert(const wchar_t* s, wchar_t** e) { return sizeof(T) == 4 ? static_cast<T>(std::wcstof(s, e)) : static_cast<T>(std::wcstod(s, e)); }
	static T fn(const Ch* s, Ch** e)
	{
		++calls;
		str = s;
		end = e;
		if (honest)
		{
			Ch* mine;
			answer = convert(s, &mine);
			consume = static_cast<std::size_t>(mine - s);
			if (e) *e = mine;
			return answer;
		}
		if (e) *e = const_cast<Ch*>(s) + consume;
		if (err >= 0) errno = err;
		return answer;
	}
};
template<typename T, typename Ch> int Fallback<T, Ch>::calls;
template<typename T, typename Ch> const Ch* Fallback<T, Ch>::str;
template<typename T, typename Ch> Ch** Fallback<T, Ch>::end;
template<typename T, typename Ch> T Fallback<T, Ch>::answer;
template<typename T, typename Ch> std::size_t Fallback<T, Ch>::consume;
template<typename T, typename Ch> bool Fallback<T, Ch>::honest;
template<typename T, typename Ch> int Fallback<T, Ch>::err;

// the same as a callable object
template<typename T, typename Ch> struct FallbackObject { T operator()(const Ch* s, Ch** e) const { return Fallback<T, Ch>::fn(s, e); } };

template<typename T, typename Ch> void lens_fallback(Worker& w, const std::string& str, bool forced, Rng& g)
{
	typedef Fallback<T, Ch> F;
	const std::basic_string<Ch> s = widen<Ch>(str);
	static const T answers[] = { T(12345.678), T(-1), T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(), -T(0) };
	F::calls = 0; F::str = nullptr; F::end = nullptr;
	F::honest = g.chance(3);
	F::answer = g.chance(2) ? answers[g.below(8)] : from_bits<T>(static_cast<typename bits_of<T>::type>(g.next() & ~(u64(1) << (bits_of<T>::mant + 3))));
	F::consume = g.below(s.size() + 1);
	F::err = g.chance(3) ? -1 : static_cast<int>(g.chance(3) ? stale[g.below(5)] : g.below(134));
	w.describe_string("atof(fallback)", s.data(), s.size(), bits_of<T>::tag());
	Ch* const p = mem->put(s, true);
	Ch* end = p;
	errno = stale[g.below(5)];
	value_and_status<T> v;
	bool null = false;
	// every way to hand over a fallback, one of them looked at closely
	struct Thrown {};
	const unsigned looked = static_cast<unsigned>(g.below(7));
	std::vector<long> ns;
	std::vector<T> values;
	int n = 0;
	bool args = false;
	for (unsigned form = 0; form < 8; ++form)
	{
		value_and_status<T> r;
		Ch* e = p;
		F::calls = 0; F::str = nullptr; F::end = nullptr;
		auto counted = [&](const Ch* a, Ch** b) { return F::fn(a, b); };
		switch (form)
		{
		case 0: r = floaxie::atof<T>(static_cast<const Ch*>(p), &e, F::fn); break;
		case 1: r = floaxie::atof<T, Ch, FallbackObject<T, Ch>>(static_cast<const Ch*>(p), &e, FallbackObject<T, Ch>()); break;
		case 2: r = floaxie::atof<T>(static_cast<const Ch*>(p), nullptr, F::fn); break;
		case 3: r = from_string<T>(s, F::fn); break;
		case 4: r = floaxie::atof<T>(static_cast<const Ch*>(p), &e, counted); break;
		case 5: r = floaxie::atof<T>(static_cast<const Ch*>(p), nullptr, std::function<T (const Ch*, Ch**)>(counted)); break;
		case 6: r = from_string<T>(s, counted); break;
		case 7: // leaves by an exception
			try { r = floaxie::atof<T>(static_cast<const Ch*>(p), &e, [&](const Ch* a, Ch** b) -> T { F::fn(a, b); throw Thrown(); }); }
			catch (const Thrown&) { r.value = F::answer; break; }
			if (F::calls) F::calls = 99; // it did not get here
			break;
		}
		ns.push_back(F::calls);
		values.push_back(r.value);
		if (form == looked)
		{
			v = r; end = e; n = F::calls;
			null = form == 2 || form == 3 || form == 5 || form == 6;
			args = F::calls && F::end == (null ? nullptr : &e) && F::str == (form == 3 || form == 6 ? s.c_str() : p);
		}
	}
	bool same = true;
	std::vector<std::string> ws;
	for (unsigned i = 0; i < 8; ++i)
	{
		same = same && ns[i] == ns[0] && (to_bits(values[i]) == to_bits(values[0]) || (std::isnan(values[i]) && std::isnan(values[0])));
		ws.push_back(Record::wordlist(to_bits(values[i]), sizeof(T) / 2));
	}
	++w.sh->done;
	long rs;
	const Ref ref = ref_scan(s);
	const T x = libc<T>(str.substr(0, static_cast<std::size_t>(ref.end)), rs);
	const T cw = std::isnan(x) ? T(0) : x;
	bool sus = !same || n > 1 || (n && (!args || to_bits(v.value) != to_bits(F::answer) || (!null && end - p != static_cast<long>(F::consume)) || !ref.number || ref.zero));
	if (!n && ref.number && to_bits(v.value) != to_bits(x)) sus = true;
	if (n && !sus && std::isnormal(x))
	{
		// distance from the rounding boundary, roughly
		const long double r = std::strtold(str.c_str(), nullptr), ulp = static_cast<long double>(std::fabs(x)) * std::numeric_limits<T>::epsilon();
		const long double off = fabsl(r - x) / ulp; // in 0.5..1 units in the last place
		if (sizeof(T) == 4 ? off < 0.18L : off < 0.17L) sus = true;
	}
	std::string joined = "[";
	for (std::size_t k = 0; k < ws.size(); ++k) joined += (k ? ", " : "") + ws[k];
	joined += "]";
	if (pick(w, forced, sus))
		w.emit(Record("fallback").type<T>().text("tx", s).num("n", n).boolean("args", args).value("w", v.value).value("fw", F::answer).value("cw", cw)
			.num("end", null || !n ? static_cast<long>(F::consume) : static_cast<long>(end - p)).num("fend", static_cast<long>(F::consume)).raw("ns", Record::list(ns.begin(), ns.end())).raw("ws", joined));
}

template<typename T> void emit_pair(Worker& w, const std::string& sa, const std::string& sb, bool forced, int want)
{
	const auto a = call<T>(w, sa, 0, 0);
	const auto b = call<T>(w, sb, 2, 0);
	bool sus;
	if (want == 0) sus = to_bits(a.value) != to_bits(b.value) || a.status != b.status;
	else sus = want < 0 ? a.value > b.value : a.value < b.value;
	if (pick(w, forced, sus))
		w.emit(Record("cmp").type<T>().text("tx", sa).value("w", a.value).num("st", a.status).text("txb", sb).value("wb", b.value).num("stb", b.status));
}

template<typename T> void lens_pair(Worker& w, bool forced, Rng& g)
{
	Dec d = random_dec<T>(g);
	if (g.chance(3)) // equal, spelled differently
	{
		if (g.chance(12)) { emit_pair<T>(w, zero_literal(g), zero_literal(g), forced, 2); return; }
		emit_pair<T>(w, render(d, g), render(d, g), forced, 0);
		return;
	}
	Dec e = d;
	const std::size_t extra = g.below(g.chance(3) ? 25 : 3);
	e.digits.append(extra, '0');
	e.exp -= static_cast<long>(extra);
	// somewhere in the digits, mostly at their end
	const std::size_t cut = g.chance(3) ? g.below(e.digits.size()) : 0;
	if (cut && e.digits.size() > cut + 1) { e.digits.resize(e.digits.size() - cut); e.exp += static_cast<long>(cut); }
	bump(e.digits);
	emit_pair<T>(w, render(d, g), render(e, g), forced, d.neg ? 1 : -1);
}

// ---- strings -------------------------------------------------------------------
// codes which look like the ASCII ones, if cut to a byte or folded carelessly
static std::wstring disturb_wide(std::wstring s, Rng& g)
{
	static const wchar_t odd[] = { 0x130, 0x131, 0x212a, 0x17f, 0xff11, 0xff45, 0x660, 0x2212, 0x3002, 0x2e2e, 0x7fffffff, static_cast<wchar_t>(0x10ffff), 0x80, 0xff };
	if (s.empty()) return s;
	const std::size_t p = g.below(s.size());
	switch (g.below(4))
	{
	case 0: s[p] = odd[g.below(14)]; break;
	case 1: s[p] = static_cast<wchar_t>((static_cast<u32>(s[p]) + 0x100) & 0x7fffffff); break;
	case 2: s[p] = static_cast<wchar_t>((static_cast<u32>(s[p]) + 0x10000) & 0x7fffffff); break;
	case 3: s.insert(p, 1, odd[g.below(14)]); break;
	}
	return s;
}

// anything at all, for safety
static std::string wild_string(Rng& g)
{
	switch (g.below(9))
	{
	case 0: { std::string s; const std::size_t n = g.below(40); while (s.size() < n) s += static_cast<char>(1 + g.below(255)); return s; }
	case 1: return exponent_literal<double>(g);
	case 2: { std::string s = render(random_dec<double>(g), g); s.resize(g.below(s.size() + 1)); return s; }
	case 3: { std::string s = g.chance(2) ? "" : "0."; const std::size_t n = g.below(6000); if (g.chance(2)) s.append(n, g.digit()); else { s += random_digits(g, n + 1); } if (g.chance(3)) s += "e" + random_digits(g, g.below(6) + 1); if (g.chance(4)) s.insert(g.below(s.size() + 1), "."); return s; }
	case 4: return random_word(g);
	case 5: { std::string s = "nan("; s.append(g.below(5000), g.chance(2) ? 'a' : '_'); if (g.chance(2)) s += ')'; return s; }
	case 6: return random_string(g) + random_suffix(g);
	case 7: { std::string s = render(random_dec<float>(g), g); s.insert(g.below(s.size() + 1), 1, static_cast<char>(1 + g.below(255))); return s; }
	default: { std::string s = g.chance(2) ? "1e" : "1e-"; s += random_digits(g, g.below(3000) + 1); return s; }
	}
}

template<typename T> void one_string(Worker& w, const std::string& s, bool forced, Rng& g)
{
	if (g.chance(3))
	{
		std::wstring ws = widen<wchar_t>(s);
		if (g.chance(3)) ws = disturb_wide(ws, g);
		lens_string<T>(w, ws, forced, g);
	}
	else lens_string<T>(w, s, forced, g);
}

template<typename T> void lens_wild(Worker& w, const std::string& s, bool forced, Rng& g)
{
	const unsigned variant = static_cast<unsigned>(g.below(4));
	long end, len;
	bool intact;
	if (s.size() > 3000 && variant != 3 && mem->room < s.size() * 4 + 64) return;
	if (g.chance(4))
	{
		std::wstring ws = widen<wchar_t>(s);
		while (g.chance(2)) ws = disturb_wide(ws, g);
		const auto r = call<T>(w, ws, variant, stale[g.below(5)]);
		end = r.end; len = static_cast<long>(ws.size()); intact = r.intact;
		if (pick(w, forced && variant < 2, !intact || (variant < 2 && (end < 0 || end > len))))
		{
			Parsed<T> q = r;
			if (!intact) q.end = -100;
			w.emit(parse_record(ws, q));
		}
		return;
	}
	const auto r = call<T>(w, s, variant, stale[g.below(5)]);
	end = r.end; len = static_cast<long>(s.size());
	if (pick(w, forced && variant < 2, !r.intact || (variant < 2 && (end < 0 || end > len))))
	{
		Parsed<T> q = r;
		if (!r.intact) q.end = -100;
		w.emit(parse_record(s, q));
	}
}

// strings much longer than anything considered: a head, one character n times, maybe a parenthesis
template<typename T, typename Ch> void huge_string(Worker& w, unsigned kind, std::size_t n)
{
	static const char* const safe[] = { "", "-", "0.", "1e", "-1e-", "nan(", "inf", ".", "1.", "1e+0" };
	static const char* const words[] = { "nan(", "-NaN(", "+nan(", "nan(_", "NAN(0", "infinity", "-inf", "nan", "-", "i" };
	static const char tails[] = "0195a_z) .-+e(nZ";
	const unsigned nt = sizeof(tails) - 1;
	const std::string head = (lens == 'e' ? safe : words)[kind / nt % 10];
	std::basic_string<Ch> s(head.begin(), head.end());
	s.append(n, static_cast<Ch>(tails[kind % nt]));
	const bool closed = lens == 'e' ? kind % 3 == 0 : kind % 4 != 0;
	if (closed) s += static_cast<Ch>(')');
	const std::basic_string<Ch> copy(s);
	w.describe_string("huge string", s.c_str(), 40, bits_of<T>::tag());
	Ch* end = nullptr;
	const auto r = floaxie::atof<T>(static_cast<const Ch*>(s.c_str()), &end);
	floaxie::atof<T>(static_cast<const Ch*>(s.c_str()), nullptr);
	floaxie::from_string<T>(s);
	w.sh->done += 3;
	const long e = end - s.c_str();
	const bool inside = end && e >= 0 && static_cast<std::size_t>(e) <= s.size(), intact = s == copy;
	w.emit(Record("huge").type<T>().text("tx", head).num("tail", tails[kind % nt]).num("n", static_cast<long>(n)).boolean("closed", closed).num("len", static_cast<long>(s.size())).num("end", inside ? e : -1)
		.value("w", r.value).num("st", static_cast<long>(r.status)).boolean("intact", intact));
}

template<typename T> void batch(Worker& w, u64 j, unsigned recorded)
{
	Rng g(seed, 100000 + j);
	if (lens == 'e' ? j < 600 : lens == 'a' && j < 640)
	{
		const unsigned kind = static_cast<unsigned>(j / 4);
		const std::size_t n = j % 16 < 4 ? 3000000 : j % 16 < 8 ? 65530 + g.below(12) : j % 16 < 12 ? 32762 + g.below(12) : 2030 + g.below(500);
		if (j & 2) huge_string<T, wchar_t>(w, kind, n); else huge_string<T, char>(w, kind, n);
	}
	for (u64 k = 0; k < batch_size; ++k)
	{
		const bool rec = k < recorded;
		switch (lens)
		{
		case '7': lens_literal<T>(w, g.chance(40) ? zero_literal(g) : render(random_dec<T>(g), g), rec, g); break;
		case '8': lens_literal<T>(w, g.chance(8) ? zero_literal(g) : g.chance(3) ? render(random_dec<T>(g), g) : exponent_literal<T>(g), rec, g); break;
		case '9':
			if (g.chance(2)) one_string<T>(w, random_string(g), rec, g);
			else
			{
				const std::string s = g.chance(5) ? random_word(g) : g.chance(6) ? zero_literal(g) : g.chance(3) ? exponent_literal<T>(g) : render(random_dec<T>(g), g, 300);
				if (g.chance(3)) lens_suffix<T>(w, widen<wchar_t>(s), widen<wchar_t>(random_suffix(g)), rec);
				else lens_suffix<T>(w, s, random_suffix(g), rec);
			}
			break;
		case 'a': if (g.chance(4)) one_string<T>(w, random_string(g), rec, g); else if (g.chance(6)) one_string<T>(w, exponent_literal<T>(g), rec, g); else one_string<T>(w, random_word(g), rec, g); break;
		case 'b': {
			const std::string s = g.chance(12) ? zero_literal(g) : g.chance(10) ? random_word(g) : g.chance(12) ? random_string(g) : g.chance(6) ? exponent_literal<T>(g) : render(random_dec<T>(g), g);
			if (ref_scan(s).special || !ref_scan(s).number || s.size() < 1900) { if (g.chance(3)) lens_fallback<T, wchar_t>(w, s, rec, g); else lens_fallback<T, char>(w, s, rec, g); }
			break; }
		case 'e': lens_wild<T>(w, wild_string(g), rec, g); break;
		case 'f': lens_pair<T>(w, rec, g); break;
		}
	}
}

static std::vector<std::string> dir_d, dir_f;
static std::vector<std::wstring> strings;

template<typename T> void one_skeleton(Worker& w, const std::string& skeleton, bool rec, Rng& g, unsigned how)
{
	std::string s = instantiate<T>(skeleton, g, how);
	if (g.chance(3)) s.insert(0, 1, '-');
	if (lens != 'f') { lens_literal<T>(w, s, rec, g); return; }
	if (s.find_first_of("0123456789") == std::string::npos) return;
	// a digit more or less somewhere in it, mostly in its end
	std::string t = s;
	const std::size_t stop = std::min(s.find_first_of("eE"), s.size());
	if (g.chance(4)) t.insert(stop, s.find('.') < stop ? "0" : ".0"); // equal
	else
	{
		std::size_t k = stop;
		for (std::size_t n = g.chance(2) ? 0 : g.below(stop + 1); k > 0; --k)
			if (t[k - 1] >= '0' && t[k - 1] < '9') { if (n) --n; else { ++t[k - 1]; break; } }
		if (k == 0) t = s;
	}
	emit_pair<T>(w, s, t, rec, t == s || t.size() > s.size() ? 0 : s[0] == '-' ? 1 : -1);
}

template<typename T> void directed(Worker& w, const std::string& s, u64 i, bool rec)
{
	Rng g(seed, 900000 + i);
	switch (lens)
	{
	case '7': case '8': lens_literal<T>(w, s, rec, g); break;
	case 'b': if (i % 3 == 0) lens_fallback<T, wchar_t>(w, s, rec, g); else lens_fallback<T, char>(w, s, rec, g); break;
	case '9': lens_suffix<T>(w, s, random_suffix(g), rec); break;
	case 'e': lens_wild<T>(w, s, rec, g); break;
	default: break;
	}
}

// every pair of properties a literal may have, see each_literal
template<typename T> void in_grid(Worker& w, u64 j)
{
	Rng g(seed, 6000000 + j);
	u64 i = j;
	each_literal<T>(j, seed, [&](const Dec& d, const std::string& s)
	{
		if (lens == 'f') { if (d.digits.size() < 1900) emit_pair<T>(w, plain(d), s, false, 0); return; }
		if (lens == 'a' || (lens == 'e' && ++i % 3)) return;
		directed<T>(w, s, i++, false);
	});
}

// words of every length, in every combination of cases
static void words_grid(Worker& w, u64 j)
{
	Rng g(seed, 7000000 + j);
	auto use = [&](const std::string& s)
	{
		switch (lens)
		{
		case '9': if (j & 1) lens_suffix<float>(w, s, random_suffix(g), false); else lens_suffix<double>(w, widen<wchar_t>(s), widen<wchar_t>(random_suffix(g)), false); // fall through
		case 'a': if (j & 1) one_string<float>(w, s, false, g); else one_string<double>(w, s, false, g); break;
		case 'e': if (j & 1) lens_wild<float>(w, s, false, g); else lens_wild<double>(w, s, false, g); break;
		}
	};
	static const char* const signs[] = { "", "-", "+" };
	const std::string sign = signs[g.below(3)];
	if (j < 256)
	{
		for (const char* word : { "infinity", "inf", "nan", "nan(q)" })
		{
			std::string s = word;
			for (std::size_t k = 0; k < s.size() && k < 8; ++k) if (j >> k & 1 && s[k] != '(' && s[k] != ')') s[k] = static_cast<char>(s[k] - 32);
			use(sign + s);
			use(sign + s.substr(0, 1 + g.below(s.size())));
		}
	}
	static const char body[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
	for (int r = 0; r < 3; ++r)
	{
		std::string s;
		for (u64 k = 0; k < j; ++k) s += r ? body[g.below(63)] : '_';
		s = sign + "nan(" + s;
		use(s);
		use(s + ")");
		use(s + body[g.below(63)] + "-)");
	}
}

// ---- all short literals ------------------------------------------------------
// Called directly, judged by the C library or the scan above; whatever looks odd
// is called again and recorded, for the model to judge.
template<typename T, typename Ch> Parsed<T> quick(Worker& w, const std::basic_string<Ch>& s)
{
	Parsed<T> r;
	w.describe_string("atof", s.data(), s.size(), bits_of<T>::tag());
	Ch* end = nullptr;
	const Ch* const p = s.c_str();
	const auto v = floaxie::atof<T>(p, &end);
	++w.sh->done;
	const T implicitly = v;
	r.value = implicitly;
	r.status = static_cast<long>(v.status);
	r.end = end - p;
	r.intact = true;
	return r;
}

template<typename T> bool quickly_right(Worker& w, const std::string& s)
{
	const auto r = quick<T>(w, s);
	errno = 0;
	char* end;
	const T v = sizeof(T) == 4 ? static_cast<T>(std::strtof(s.c_str(), &end)) : static_cast<T>(std::strtod(s.c_str(), &end));
	const long st = errno == ERANGE ? (std::isinf(v) ? 2 : v == 0 ? 1 : 0) : 0;
	return to_bits(v) == to_bits(r.value) && (st == r.status || (std::isinf(v) && errno != ERANGE)) && end - s.c_str() == r.end;
}

static void write_number(std::string& s, long v)
{
	char b[24];
	char* e = b + 24;
	const bool neg = v < 0;
	if (neg) v = -v;
	do *--e = static_cast<char>('0' + v % 10); while (v /= 10);
	if (neg) s += '-';
	s.append(e, static_cast<std::size_t>(b + 24 - e));
}

// the digits of d, with a point somewhere, and an exponent
static void spell(std::string& s, long d, long k, unsigned form)
{
	s.clear();
	write_number(s, d);
	const long n = static_cast<long>(s.size());
	switch (form % 4)
	{
	case 0: break;
	case 1: { const long at = form / 4 % (n + 1); s.insert(static_cast<std::size_t>(at), 1, '.'); k += n - at; break; }
	case 2: { const long z = form / 4 % 24; s.append(static_cast<std::size_t>(z), '0'); k -= z; if (form & 128) s += ".0"; break; }
	case 3: { const long z = form / 4 % 24; s.insert(0, static_cast<std::size_t>(z) + 2, '0'); s[1] = '.'; k += z + n; break; }
	}
	if (k || form & 256)
	{
		s += form & 512 ? 'E' : 'e';
		if (k > 0 && form & 1024) s += '+';
		write_number(s, k);
	}
}

template<typename T> void short_literals(Worker& w, long from, long count)
{
	Rng g(seed, 8000000 + static_cast<u64>(from));
	const long low = sizeof(T) == 4 ? -56 : -346, high = sizeof(T) == 4 ? 42 : 312;
	std::string s, t;
	for (long d = from; d < from + count; ++d)
		for (long k = low; k <= high; ++k)
		{
			const u64 r = g.next();
			spell(s, d, k, static_cast<unsigned>(r & 0xffff));
			if (lens == 'f')
			{
				spell(t, d, k, static_cast<unsigned>(r >> 16 & 0xffff));
				const auto a = quick<T>(w, s), b = quick<T>(w, t);
				if (to_bits(a.value) != to_bits(b.value) || a.status != b.status) emit_pair<T>(w, s, t, false, 0);
				spell(t, d + 1, k, static_cast<unsigned>(r >> 32 & 0xffff));
				if (quick<T>(w, t).value < a.value) emit_pair<T>(w, s, t, false, -1);
			}
			else if (!quickly_right<T>(w, s)) lens_literal<T>(w, s, false, g);
		}
}

// all strings over an alphabet, up to a length; job i of n
template<typename F> void all_strings(const char* letters, unsigned longest, u64 i, u64 n, F use)
{
	const u64 base = std::strlen(letters);
	std::string s;
	u64 all = 1;
	for (unsigned len = 1; len <= longest; ++len)
	{
		all *= base;
		for (u64 c = all * i / n, stop = all * (i + 1) / n; c < stop; ++c)
		{
			s.resize(len);
			u64 r = c;
			for (unsigned k = 0; k < len; ++k, r /= base) s[k] = letters[r % base];
			use(s, c);
		}
	}
}

static void short_strings(Worker& w, u64 i, u64 n, bool thorough)
{
	Rng g(seed, 8500000 + i);
	static const char* const numbers = "+-.e019E";
	static const char* const letters = "+-infatyIN()_1";
	static const char* const mixed = "-.e05Einfa(_) +";
	auto judge = [&](const std::string& s, u64 c)
	{
		if (c & 1) { if (odd(s, quick<float>(w, s))) lens_string<float>(w, s, false, g); }
		else if (odd(s, quick<double>(w, s))) lens_string<double>(w, s, false, g);
	};
	static const int others[] = { 0, 1, 9, 32, '(', ')', '+', '-', '.', '/', '0', '9', ':', '@', 'A', 'I', 'N', 'Y', 'Z', '[', '_', '`', 'a', 'e', 'E', 'i', 'n', 'y', 'z', '{', 127, 128, 201, 238, 255 };
	switch (lens)
	{
	case '7': case '8':
		all_strings("-.e059E+", thorough ? 9 : 8, i, n, [&](const std::string& s, u64 c)
		{
			if (!ref_scan(s).number) return;
			if (c & 1 ? !quickly_right<float>(w, s) : !quickly_right<double>(w, s)) { if (c & 1) lens_literal<float>(w, s, false, g); else lens_literal<double>(w, s, false, g); }
		});
		break;
	case '9': case 'a':
		all_strings(numbers, thorough ? 9 : 8, i, n, judge);
		all_strings(letters, thorough ? 7 : 6, i, n, judge);
		// the words with any two characters exchanged for anything
		for (const char* word : { "infinity", "-infinity", "+nan(z_9)", "nan()1", "inf", "nan", "-1.5e-7", "00.25E+9" })
		{
			const std::string s = word;
			for (u64 at = i; at < s.size() * s.size(); at += n)
			{
				const std::size_t a = at / s.size(), b = at % s.size();
					for (int x = 1; x < 256; ++x)
						for (const int y : others)
						{
							if (!y && b <= a) continue;
							std::string t = s;
							t[b] = static_cast<char>(y);
							t[a] = static_cast<char>(x);
							if (!y) t.resize(b);
							judge(t, static_cast<u64>(x));
							std::wstring u = widen<wchar_t>(t);
							u[a] += static_cast<wchar_t>((x & 3) == 0 ? 0 : (x & 3) == 1 ? 0x100 : (x & 3) == 2 ? 0x10000 : 0x2000);
							if (odd(u, quick<float>(w, u))) lens_string<float>(w, u, false, g);
						}
			}
		}
		break;
	case 'e':
	{
		unsigned longest = thorough ? 6 : 5;
#ifdef __SANITIZE_ADDRESS__
		--longest;
#endif
		all_strings(mixed, longest, i, n, [&](const std::string& s, u64 c)
		{
			const unsigned variant = static_cast<unsigned>(c & 1);
			bool intact;
			if (c & 2) { const auto r = call<float>(w, s, variant, 0); intact = r.intact && r.end >= 0 && r.end <= static_cast<long>(s.size()); }
			else { const auto r = call<double>(w, widen<wchar_t>(s), variant, 0); intact = r.intact && r.end >= 0 && r.end <= static_cast<long>(s.size()); }
			if (!intact) { if (c & 2) lens_string<float>(w, s, false, g); else lens_string<double>(w, widen<wchar_t>(s), false, g); }
		});
		break;
	}
	}
}

int main(int argc, char** argv)
{
	if (argc < 7) return 2;
	lens = argv[1][0];
	seed = strtoull(argv[2], nullptr, 10);
	const u64 batches = strtoull(argv[3], nullptr, 10);
	const unsigned keep = static_cast<unsigned>(atoi(argv[4]));
	const u64 recorded = strtoull(argv[5], nullptr, 10); // number of random calls to record
	const char* out = argv[6];
	mem = new Guarded(16);
	if (lens == '7' || lens == '8' || lens == 'b' || lens == '9' || lens == 'e')
	{
		dir_d = directed_literals<double>(seed, 6, 3);
		dir_f = directed_literals<float>(seed, 14, 10);
	}
	if (argc > 8) every = strtoull(argv[8], nullptr, 10);
	if (argc > 7) for (const auto& l : read_lines(argv[7])) strings.push_back(decode(l));
	const u64 nd = dir_d.size(), nf = dir_f.size(), ns = strings.size();
	const u64 per = recorded / std::max<u64>(batches, 1), rest = recorded % std::max<u64>(batches, 1);
	const u64 grid_d = grid10<double>::all, grid_f = grid10<float>::all, words = lens == '9' || lens == 'a' || lens == 'e' ? 2040 : 0;
	const bool thorough = batches > 20000;
	const long block = 50;
#ifdef SECOND // built in another way: the same, but less of it
	const u64 part = 16;
#else
	const u64 part = 1;
#endif
	const u64 blocks = strchr("78f", lens) ? (thorough ? 20000 : 2000) / part : 0, blocks_f = blocks ? (thorough ? 100000 : 20000) / part : 0;
	const u64 all = strchr("789ae", lens) ? 512 : 0;
	const auto t = run_jobs(out, nd + nf + ns + grid_d + grid_f + words + blocks + blocks_f + all + batches, [&](Worker& w, u64 i)
	{
		u64 j = i;
		if (j < nd) { directed<double>(w, dir_d[j], i, (j * 2654435761u >> 8) % keep == 0); return; }
		j -= nd;
		if (j < nf) { directed<float>(w, dir_f[j], i, (j * 2654435761u >> 8) % keep == 0); return; }
		j -= nf;
		if (j < ns)
		{
			Rng g(seed, 500000 + j);
			const std::wstring& wide = strings[j];
			const std::string s = narrow(wide);
			if (lens == '7' || lens == '8' || lens == 'f')
			{
				// skeletons
				for (unsigned how = 0; how < 4; ++how)
				{
					const bool rec = ((4 * j + how) * 2654435761u >> 8) % every == 0;
					if (j & 1) one_skeleton<float>(w, s, rec, g, how); else one_skeleton<double>(w, s, rec, g, how);
					if (j & 1) one_skeleton<double>(w, s, false, g, how); else one_skeleton<float>(w, s, false, g, how);
				}
				return;
			}
			const bool rec = (j * 2654435761u >> 8) % every == 0;
			if (lens == 'e')
			{
				for (int k = 0; k < 3; ++k) { if (j & 1) lens_wild<float>(w, s, rec, g); else lens_wild<double>(w, s, rec, g); }
				if (j & 1) call<double>(w, wide, static_cast<unsigned>(g.below(4)), 0); else call<float>(w, wide, static_cast<unsigned>(g.below(4)), 0);
				return;
			}
			if (lens == 'b')
			{
				if (j & 1) lens_fallback<float, char>(w, s, rec, g); else lens_fallback<double, char>(w, s, rec, g);
				if (j & 1) lens_fallback<double, wchar_t>(w, s, rec && j % 3 == 0, g); else lens_fallback<float, wchar_t>(w, s, rec && j % 3 == 0, g);
				return;
			}
			if (j & 1) lens_string<float>(w, s, rec, g); else lens_string<double>(w, s, rec, g);
			if (j & 1) lens_string<double>(w, wide, rec && (j % 3 == 0 || !is_narrow(wide)), g); else lens_string<float>(w, wide, rec && (j % 3 == 0 || !is_narrow(wide)), g);
			return;
		}
		j -= ns;
		if (j < grid_d) { in_grid<double>(w, j); return; }
		j -= grid_d;
		if (j < grid_f) { in_grid<float>(w, j); return; }
		j -= grid_f;
		if (j < words) { words_grid(w, j); return; }
		j -= words;
		if (j < blocks) { short_literals<double>(w, static_cast<long>(j * part + j % part) * block, block); return; }
		j -= blocks;
		if (j < blocks_f) { short_literals<float>(w, static_cast<long>(j * part + j % part) * block, block); return; }
		j -= blocks_f;
		if (j < all) { if (part == 1 || j % part == seed % part) short_strings(w, j, all, thorough); return; }
		j -= all;
		const unsigned rec = static_cast<unsigned>(per + (j < rest ? 1 : 0));
		if (j & 1) batch<float>(w, j, rec); else batch<double>(w, j, rec);
	});
	report(t);
	return 0;
}
