// Requests for histories: what is asked, how it is performed and what the reply is
#pragma once
#include "literals.h"
#include "values.h"
#include "strings.h"
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>

using namespace floaxie;

struct Request
{
	int op;              // see perform()
	bool is_float;
	u64 bits;            // printed value
	std::string s;       // parsed string
	std::wstring ws;
	const char* ro;      // the same strings in memory which can't be written
	const wchar_t* wro;
};

enum { ops = 9, all_ops = 11 }; // the last ones are made on demand only
static const char* const op_names[all_ops] = { "ftoa", "ftoa wide", "to_string", "atof", "atof wide", "atof null", "from_string", "atof reused", "atof wide null", "fallback", "fallback wide" };

// memory which belongs to a thread
struct Scratch
{
	char out[128];
	wchar_t wout[128];
	char in[4096];
	int after; // errno after the call
};

template<typename T> void put(std::vector<long>& r, const value_and_status<T>& v, long end)
{
	const u64 b = to_bits(v.value);
	for (int i = bits_of<T>::words - 1; i >= 0; --i) r.push_back(static_cast<long>((b >> (16 * i)) & 0xffff));
	r.push_back(static_cast<long>(v.status));
	r.push_back(end);
}

template<typename T> void perform_as(const Request& q, Scratch& m, int err, std::vector<long>& r)
{
	r.clear();
	char* e = nullptr;
	wchar_t* we = nullptr;
	switch (q.op)
	{
	case 0: { errno = err; const std::size_t n = ftoa(from_bits<T>(static_cast<typename bits_of<T>::type>(q.bits)), m.out); m.after = errno; r.push_back(static_cast<long>(n)); for (const char* c = m.out; *c; ++c) r.push_back(Record::code(*c)); break; }
	case 1: { errno = err; const std::size_t n = ftoa(from_bits<T>(static_cast<typename bits_of<T>::type>(q.bits)), m.wout); m.after = errno; r.push_back(static_cast<long>(n)); for (const wchar_t* c = m.wout; *c; ++c) r.push_back(Record::code(*c)); break; }
	case 2: { errno = err; const std::string s = floaxie::to_string(from_bits<T>(static_cast<typename bits_of<T>::type>(q.bits))); m.after = errno; for (char c : s) r.push_back(Record::code(c)); break; }
	case 3: { errno = err; const auto v = floaxie::atof<T>(q.ro, &e); m.after = errno; put(r, v, e - q.ro); break; }
	case 4: { errno = err; const auto v = floaxie::atof<T>(q.wro, &we); m.after = errno; put(r, v, we - q.wro); break; }
	case 5: { errno = err; const auto v = floaxie::atof<T>(q.ro, nullptr); m.after = errno; put(r, v, 0); break; }
	case 6: { errno = err; const auto v = from_string<T>(q.s); m.after = errno; put(r, v, 0); break; }
	case 7: { // always at the same address
		std::memcpy(m.in, q.s.c_str(), q.s.size() + 1);
		errno = err;
		const auto v = floaxie::atof<T>(static_cast<const char*>(m.in), &e);
		m.after = errno;
		put(r, v, e - m.in);
		r.push_back(std::memcmp(m.in, q.s.c_str(), q.s.size() + 1) == 0);
		break; }
	case 8: { errno = err; const auto v = floaxie::atof<T>(q.wro, nullptr); m.after = errno; put(r, v, 0); break; }
	case 9: { errno = err; value_and_status<T> v; v.value = default_fallback<T, char>(q.ro, &e); m.after = errno; put(r, v, e - q.ro); break; }
	case 10: { errno = err; value_and_status<T> v; v.value = default_fallback<T, wchar_t>(q.wro, &we); m.after = errno; put(r, v, we - q.wro); break; }
	}
}

static void perform(const Request& q, Scratch& m, int err, std::vector<long>& r)
{
	if (q.is_float) perform_as<float>(q, m, err, r); else perform_as<double>(q, m, err, r);
}

static std::vector<Request> pool;

// requests; neighbours in the pool are related to each other, so that
// something remembered from one could matter to the other
static wchar_t (*widen)(unsigned char) = [](unsigned char c) -> wchar_t { return c; };

static void make_pool(u64 seed, unsigned n, const std::vector<std::string>& given, bool with_fallback = false, const std::vector<std::string>& direct = std::vector<std::string>())
{
	Rng g(seed, 31);
	std::string s;
	u64 bits = 0;
	std::size_t at = 0;
	auto fresh_literal = [&](bool f) -> std::string
	{
		switch (g.below(10))
		{
		case 0: return random_word(g);
		case 1: return zero_literal(g);
		case 2: return f ? exponent_literal<float>(g) : exponent_literal<double>(g);
		case 3: return random_string(g);
		case 4: case 5: case 6: { // the fallback is needed
			Dec d = f ? exact_decimal(any_value<float>(g), true) : exact_decimal(any_value<double>(g), true);
			if (g.chance(2)) { d.digits += "1"; --d.exp; }
			return plain(d); }
		case 7: return render(f ? random_dec<float>(g) : random_dec<double>(g), g, 300) + random_suffix(g);
		default: return render(f ? random_dec<float>(g) : random_dec<double>(g), g, 300);
		}
	};
	static const char* const edges[] = { "1e-400", "1e400", "-1e-400", "-1e400", "4.9e-324", "1e-310", "2.4703282292062327e-324", "2.4703282292062329e-324", "1.7976931348623158e308", "1.7976931348623159e308", "1e-46", "7.0064923216240854e-46", "7.0064923216240862e-46", "3.4028235677973366e38", "3.4028235677973367e38", "1e-40", "0", "-0", "0e5", "inf", "-inf", "nan", "nan(x)", "", "e5", "1", "1e", "9007199254740993", "16777217", "1.00000017881393432617187499", "0.1", "123456789012345678901234567890" };
	const unsigned ne = sizeof(edges) / sizeof(edges[0]);
	for (unsigned i = 0; i < n; ++i)
	{
		Request q;
		q.is_float = g.chance(2);
		q.op = static_cast<int>(g.below(ops));
		switch (g.below(4))
		{
		case 0: // as the previous one in part
			if (!s.empty()) { if (g.chance(2)) s[g.below(s.size())] = "0123456789e.-"[g.below(13)]; else if (g.chance(2)) s.resize(g.below(s.size())); else s += g.digit(); }
			switch (g.below(6))
			{
			case 0: bits ^= q.is_float ? u64(1) << 31 : u64(1) << 63; break; // the opposite
			case 1: bits += q.is_float ? u64(1) << 23 : u64(1) << 52; break; // twice, half
			case 2: bits -= q.is_float ? u64(1) << 23 : u64(1) << 52; break;
			case 3: bits += g.chance(2) ? 1 : ~u64(0); break; // neighbours
			default: bits ^= u64(1) << g.below(64);
			}
			if (g.chance(2)) { q.op = pool.back().op; q.is_float = pool.back().is_float; }
			break;
		case 1: break; // another way to ask
		default:
			s = i < ne * 2 ? edges[i % ne] : !given.empty() && g.chance(with_fallback ? 2 : 3) ? given[with_fallback ? at++ % given.size() : g.below(given.size())] : fresh_literal(q.is_float);
			bits = q.is_float ? (g.chance(30) ? to_bits(special_values<float>(seed)[g.below(60)]) : to_bits(random_value<float>(g))) : (g.chance(30) ? to_bits(special_values<double>(seed)[g.below(60)]) : to_bits(random_value<double>(g)));
			break;
		}
		for (char& c : s) if (!c) c = '7';
		q.s = s; q.bits = bits;
		for (char c : s) q.ws += widen(static_cast<unsigned char>(c));
		// blanks and letters beyond those of C may mean something to other locales
		const std::size_t begin = s.find_first_not_of(" \t\n\v\f\r");
		if (with_fallback && g.chance(6) && begin != std::string::npos && !(s[begin] & 0x80)) q.op = 9 + g.chance(2);
		pool.push_back(q);
	}
	// handed to the default fallback by the caller
	for (std::size_t i = 0; i < direct.size(); ++i)
	{
		Request q;
		q.s = direct[i]; q.bits = 0;
		q.is_float = i & 1; q.op = 9 + (i >> 1 & 1);
		for (char c : q.s) q.ws += widen(static_cast<unsigned char>(c));
		pool.push_back(q);
	}
	// to memory that can't be written
	std::size_t bytes = 0;
	for (const auto& q : pool) bytes += (q.s.size() + 1) * (1 + sizeof(wchar_t)) + 8;
	bytes = (bytes / 4096 + 2) * 4096;
	char* m = static_cast<char*>(mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (m == MAP_FAILED) _exit(3);
	char* p = m;
	for (auto& q : pool)
	{
		q.wro = reinterpret_cast<wchar_t*>(p);
		std::memcpy(p, q.ws.c_str(), (q.ws.size() + 1) * sizeof(wchar_t)); p += (q.ws.size() + 1) * sizeof(wchar_t);
		q.ro = p;
		std::memcpy(p, q.s.c_str(), q.s.size() + 1); p += q.s.size() + 1;
		p += (8 - reinterpret_cast<std::uintptr_t>(p) % 8) % 8;
	}
	if (mprotect(m, bytes, PROT_READ)) _exit(3);
}
