// Every overload on the same input: wrap SEED BATCHES RECORDED OUT [STRINGS-FILE [EVERY]]
// compiled with -DWIDE_UNICODE: printing into char16_t and char32_t as well,
// -DWIDE_PARSE: parsing them, with a fallback of our own
#include "literals.h"
#include "values.h"
#include "strings.h"
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>

using namespace floaxie;

static u64 seed, batch_size = 400;

template<typename Ch> std::vector<long> codes(const std::basic_string<Ch>& s) { std::vector<long> r; for (Ch c : s) r.push_back(Record::code(c)); return r; }

// returned length and text; buffer with something in it already
template<typename Ch, typename T> std::vector<long> printed(T v, unsigned fill)
{
	Ch buf[128];
	std::fill(buf, buf + 128, static_cast<Ch>(fill));
	const std::size_t n = ftoa(v, buf);
	const Ch* e = buf;
	while (e < buf + 127 && *e) ++e;
	std::vector<long> r = codes(std::basic_string<Ch>(static_cast<const Ch*>(buf), e));
	if (n != r.size()) { r.push_back(-1); r.push_back(static_cast<long>(n)); }
	return r;
}

static bool pick(Worker& w, bool forced, bool suspicious)
{
	if (suspicious && w.suspicious_left) { --w.suspicious_left; return true; }
	return forced;
}

static std::string lists(const std::vector<std::vector<long>>& v)
{
	std::string r = "[";
	for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += Record::list(v[i].begin(), v[i].end()); }
	return r + ']';
}

template<typename T> void print_group(Worker& w, T v, bool forced, unsigned i)
{
	w.describe_value("printing overloads", v);
	std::vector<std::vector<long>> g;
	g.push_back(printed<char>(v, 'x'));
	g.push_back(printed<wchar_t>(v, '7'));
	g.push_back(codes(to_string(v)));
	g.push_back(codes(to_wstring(v)));
	g.push_back(codes(to_basic_string<T, char>(v)));
#ifdef WIDE_UNICODE
	g.push_back(printed<char16_t>(v, 0xffff));
	g.push_back(printed<char32_t>(v, 0x10ffff));
	g.push_back(codes(to_u16string(v)));
	g.push_back(codes(to_u32string(v)));
#endif
	++w.sh->done;
	bool sus = false;
	for (const auto& x : g) sus = sus || x != g[0];
	if (pick(w, forced, sus)) w.emit(Record("pgroup").type<T>().value("w", v).raw("txs", lists(g)));
	(void)i;
}

template<typename T> std::vector<long> reply(const value_and_status<T>& v)
{
	std::vector<long> r;
	const u64 b = to_bits(v.value);
	for (int i = bits_of<T>::words - 1; i >= 0; --i) r.push_back(static_cast<long>((b >> (16 * i)) & 0xffff));
	r.push_back(static_cast<long>(v.status));
	return r;
}

#ifdef WIDE_PARSE
template<typename T, typename Ch> T narrowing_fallback(const Ch* s, Ch** e)
{
	std::string n;
	for (const Ch* p = s; *p; ++p) n += *p < 128 ? static_cast<char>(*p) : '?';
	char* ne;
	const T r = default_fallback<T, char>(n.c_str(), &ne);
	if (e) *e = const_cast<Ch*>(s) + (ne - n.c_str());
	return r;
}

template<typename T, typename Ch> void parse_unicode(const std::string& s, std::vector<std::vector<long>>& g, std::vector<long>& ends)
{
	std::basic_string<Ch> us;
	for (char c : s) us += static_cast<Ch>(static_cast<unsigned char>(c));
	Ch* e = nullptr;
	g.push_back(reply(floaxie::atof<T>(us.c_str(), &e, narrowing_fallback<T, Ch>))); ends.push_back(e - us.c_str());
	g.push_back(reply(floaxie::atof<T>(us.c_str(), nullptr, narrowing_fallback<T, Ch>)));
	g.push_back(reply(from_string<T>(us, narrowing_fallback<T, Ch>)));
}
#endif

template<typename T> void parse_group(Worker& w, const std::string& s, bool forced)
{
	w.describe_string("parsing overloads", s.data(), s.size(), bits_of<T>::tag());
	std::wstring ws;
	for (char c : s) ws += static_cast<wchar_t>(static_cast<unsigned char>(c));
	std::vector<std::vector<long>> g;
	std::vector<long> ends;
	char* e = nullptr;
	wchar_t* we = nullptr;
	g.push_back(reply(floaxie::atof<T>(s.c_str(), &e))); ends.push_back(e - s.c_str());
	g.push_back(reply(floaxie::atof<T>(ws.c_str(), &we))); ends.push_back(we - ws.c_str());
	g.push_back(reply(floaxie::atof<T>(s.c_str(), nullptr)));
	g.push_back(reply(floaxie::atof<T>(ws.c_str(), nullptr)));
	g.push_back(reply(floaxie::atof<T>(s.c_str(), static_cast<char**>(nullptr))));
	g.push_back(reply(from_string<T>(s)));
	g.push_back(reply(from_string<T>(ws)));
	// with the fallback given explicitly
	g.push_back(reply(floaxie::atof<T>(s.c_str(), &e, default_fallback<T, char>))); ends.push_back(e - s.c_str());
	g.push_back(reply(from_string<T>(ws, default_fallback<T, wchar_t>)));
	// a string which has more behind a null character
	g.push_back(reply(from_string<T>(s + std::string("\0" "1e5.", 5))));
	g.push_back(reply(from_string<T>(ws + std::wstring(L"\0" L"77", 3))));
	// the same buffer parsed again, the end taken over, const string
	const char* const cs = s.c_str();
	e = const_cast<char*>(cs) + s.size();
	g.push_back(reply(floaxie::atof<T, char>(cs, &e))); ends.push_back(e - cs);
	// converted to its value
	const auto vs = floaxie::atof<T>(s.c_str(), nullptr);
	value_and_status<T> converted;
	converted.value = vs;
	converted.status = vs.status;
	g.push_back(reply(converted));
#ifdef WIDE_PARSE
	parse_unicode<T, char16_t>(s, g, ends);
	parse_unicode<T, char32_t>(s, g, ends);
#endif
	++w.sh->done;
	bool sus = false;
	for (const auto& x : g) sus = sus || x != g[0];
	for (const auto& x : ends) sus = sus || x != ends[0];
	if (pick(w, forced, sus)) w.emit(Record("qgroup").type<T>().text("tx", s).raw("rs", lists(g)).seq("ends", ends.begin(), ends.end()));
}

static std::string ascii_string(Rng& g, bool is_float)
{
	std::string s;
	switch (g.below(7))
	{
	case 0: s = random_string(g); break;
	case 1: s = random_word(g); break;
	case 2: s = is_float ? exponent_literal<float>(g) : exponent_literal<double>(g); break;
	case 3: s = zero_literal(g); break;
	case 4: s = render(is_float ? random_dec<float>(g) : random_dec<double>(g), g, 600) + random_suffix(g); break;
	default: s = render(is_float ? random_dec<float>(g) : random_dec<double>(g), g, 600); break;
	}
	for (char& c : s) c = static_cast<char>(c & 0x7f ? c & 0x7f : 'x');
	return s;
}

int main(int argc, char** argv)
{
	if (argc < 5) return 2;
	seed = strtoull(argv[1], nullptr, 10);
	const u64 batches = strtoull(argv[2], nullptr, 10), recorded = strtoull(argv[3], nullptr, 10);
	const auto dd = directed_values<double>(seed, 1, 1), sd = special_values<double>(seed);
	const auto df = directed_values<float>(seed, 4, 2), sf = special_values<float>(seed);
	const u64 per = recorded / std::max<u64>(batches, 1), rest = recorded % std::max<u64>(batches, 1);
	std::vector<std::wstring> strings;
	const u64 every = argc > 6 ? strtoull(argv[6], nullptr, 10) : 1;
	if (argc > 5) for (const auto& l : read_lines(argv[5])) strings.push_back(decode(l));
	const u64 nd = dd.size(), nf = df.size(), n1 = sd.size(), n2 = sf.size(), ns = strings.size();
	const auto t = run_jobs(argv[4], nd + nf + n1 + n2 + ns + grid_size() + grid10<double>::all + grid10<float>::all + batches, [&](Worker& w, u64 i)
	{
		u64 j = i;
		if (j < nd) { print_group(w, dd[j], (j * 2654435761u >> 8) % 4 == 0, 0); return; }
		j -= nd;
		if (j < nf) { print_group(w, df[j], (j * 2654435761u >> 8) % 4 == 0, 0); return; }
		j -= nf;
		if (j < n1) { print_group(w, sd[j], true, 0); return; }
		j -= n1;
		if (j < n2) { print_group(w, sf[j], true, 0); return; }
		j -= n2;
		if (j < ns)
		{
			std::string s = narrow(strings[j]);
			for (char& c : s) c = static_cast<char>(c & 0x7f ? c & 0x7f : 'x');
			if (j & 1) parse_group<float>(w, s, j % every == 0); else parse_group<double>(w, s, j % every == 0);
			return;
		}
		j -= ns;
		if (j < grid_size()) { each_in_grid(j, seed, [&](auto v) { print_group(w, v, false, 0); }); return; }
		j -= grid_size();
		if (j < grid10<double>::all) { each_literal<double>(j, seed, [&](const Dec&, const std::string& s) { parse_group<double>(w, s, false); }); return; }
		j -= grid10<double>::all;
		if (j < grid10<float>::all) { each_literal<float>(j, seed, [&](const Dec&, const std::string& s) { parse_group<float>(w, s, false); }); return; }
		j -= grid10<float>::all;
		Rng g(seed, 7000 + j);
		const u64 rec = per + (j < rest ? 1 : 0);
		for (u64 k = 0; k < batch_size; ++k)
		{
			if (k & 1)
			{
				if (j & 1) parse_group<float>(w, ascii_string(g, true), k < 2 * rec);
				else parse_group<double>(w, ascii_string(g, false), k < 2 * rec);
			}
			else
			{
				if (j & 1) print_group(w, random_value<float>(g), k < 2 * (rec / 2), 0);
				else print_group(w, random_value<double>(g), k < 2 * (rec / 2), 0);
			}
		}
	});
	report(t);
	return 0;
}
