// Histories of calls in a changing world: world SEED BATCHES EVENTS POOL OUT DIRECT LOCALE...
// Every request is first answered in a fresh process (C locale, rounding to
// nearest); then batches of them are issued under the locales and rounding
// modes of the floating point environment.
#include "requests.h"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <locale>
#include <locale.h>
#include <thread>

struct Way { const char* what; };
static const char* const ways[] = { "both", "c", "c++", "thread" };
static const int modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };

// makes the locale current in one of the ways; false, if it can't be had
static thread_local locale_t of_thread = locale_t(0);
static bool enter(const char* name, unsigned way)
{
	try
	{
		switch (way)
		{
		case 0: std::locale::global(std::locale(name)); return true;
		case 1: return setlocale(LC_ALL, name) != nullptr;
		case 2: std::locale::global(std::locale(name)); return setlocale(LC_ALL, "C") != nullptr;
		default: of_thread = newlocale(LC_ALL_MASK, name, locale_t(0)); if (!of_thread) return false; uselocale(of_thread); return true;
		}
	}
	catch (const std::exception&) { return false; }
}
static void leave_thread()
{
	uselocale(LC_GLOBAL_LOCALE);
	if (of_thread) { freelocale(of_thread); of_thread = locale_t(0); }
}
static void leave()
{
	leave_thread();
	std::locale::global(std::locale::classic());
	setlocale(LC_ALL, "C");
}

// does the library leave the value to the fallback?
template<typename T, typename Ch> bool asks(const Ch* s)
{
	bool called = false;
	floaxie::atof<T>(s, nullptr, [&](const Ch*, Ch**) { called = true; return T(1); });
	return called;
}
static bool asks(const Request& q)
{
	if (q.op < 3) return false;
	if (q.op >= ops) return true;
	const bool wide = q.op == 4 || q.op == 8;
	if (wide) return q.is_float ? asks<float>(q.wro) : asks<double>(q.wro);
	return q.is_float ? asks<float>(q.ro) : asks<double>(q.ro);
}

// a point, a comma, letters whose case is a matter of the language
static std::vector<std::string> given_strings(u64 seed)
{
	std::vector<std::string> v = {
		"9007199254740993.0", "9007199254740992.9999999999999999999999999999", "9007199254740993,0", "9007199254740993,", "9007199254740993.", "9007199254740993.,5", "0,1", "0.1", "1.5,5", "16777217.0", "16777217,5", "16777217.", "16777217.e0", "16777217,e5",
		"-9007199254740993.0e1", "+9007199254740993.0e-1", "1.00000017881393432617187499", "1,00000017881393432617187499", "9007199254740993.0e", "9007199254740993.0e+", "9007199254740993.0.0", "9007199254740993..0", "9007199254740993.0x", "9007199254740993.0-5", "9007199254740993.0e5.5", ".9007199254740993e16", ".9007199254740993e16,5",
		"1.7976931348623158079372897140530341507993413271003e308", "1.797693134862315807937289714053034150799341327100378269361737789804449682927647509466490179775872070963302864166928879109465555478519404026306574886715058206819089020007083836762738548458177115317644757302700698555713669596228429148198608349364752927190741684443655107510342e308", "-1.797693134862315807937289714053034150799341327100378269361737789804449682927647509466490179775872070963302864166928879109465555478519404026306574886715058206819089020007083836762738548458177115317644757302700698555713669596228429148198608349364752927190741684443655107510343e308", "2.4703282292062327208e-324", "2.4703282292062328e-324", "4.9e-324", "2.2250738585072011e-308", "1.4012984643e-45", "7.0064923216240854e-46", "3.4028235677973366e38",
		"INFINITY", "infinity", "Infinity", "iNFINITy", "INFINITYx", "-INFINITY", "inf", "INF", "infi", "INFI", "inf\x80nity", "\x80nf", "\x81nf", "INF\x80N\x80TY", "infin\x80ty", "infin\x81ty", "INF\x81NITY", "inf\xddn\xddty", "inf\xfdn\xfdty", "nan(I)", "NAN(I)", "nan(i)", "nan(\x80)", "nan(\x81)", "nan(\x82)", "nan(\x83)", "nan(\xdd)", "nan(\xfd)", "nan(\xe4)", "NAN(ABCXYZ_0189)", "nan(abcxyz)", "nan(a,b)", "nan(a.b)", "nan(k)", "NAN(K)",
		"1234567.891", "1.234.567", "1,234,567", "1'234", "1 234", "12345678901234567890.12345678901234567890", "\xd9\xab" "5", "9007199254740993\xd9\xab" "5",
		"\x84" "5", "-\x84" "5", "9007199254740993\x84" "5", "9007199254740993.0\x84" "5", "1.\x84", " 1.5", "\t-1.5e3", " \n 1,5", "0x1.8p3", "0x1,8p3", "0x.8", "-0X1.8P-3.5", "-inf", "+nan(1)", "-INFINITY.", "-infinity,5", ",5", "-,5", " ,5", ".,5", ",.5", "- 1", "  -inf", "nan(1.5)", "-nan(0x1)", "-nan(12", "1.5e", "1.5e+.", "\r\v\f.5" };
	Rng g(seed, 77);
	for (int i = 0; i < 300; ++i)
	{
		const bool f = g.chance(2);
		Dec d = f ? exact_decimal(any_value<float>(g), true) : exact_decimal(any_value<double>(g), true);
		std::string s = d.digits;
		if (s.size() > 300) continue;
		const std::size_t at = g.below(s.size() + 1);
		s = s.substr(0, at) + (g.chance(6) ? "," : ".") + s.substr(at) + (g.chance(3) ? "1" : "") + "e" + std::to_string(d.exp + static_cast<int>(d.digits.size() - at));
		if (g.chance(3)) s = "-" + s;
		if (g.chance(4)) s += g.chance(2) ? ",5" : ".5";
		v.push_back(s);
	}
	return v;
}

// what a thread can see of locale and rounding mode
struct View
{
	std::string point, wide_point, global, cpp;
	locale_t own;
	// names are read while no other thread runs only
	explicit View(bool names)
	{
		char s[40];
		std::snprintf(s, sizeof(s), "%.1f", 0.5); point = s;
		wchar_t ws[40];
		std::swprintf(ws, 40, L"%.1f", 0.5);
		for (const wchar_t* c = ws; *c; ++c) wide_point += std::to_string(static_cast<long>(*c)) + " ";
		if (names) { const char* l = setlocale(LC_ALL, nullptr); global = l ? l : "?"; cpp = std::locale().name(); }
		own = uselocale(locale_t(0));
	}
	bool operator==(const View& o) const { return point == o.point && wide_point == o.wide_point && own == o.own && global == o.global && cpp == o.cpp; }
};

// what one thread does in a batch
struct Part
{
	unsigned t, loc, mode, seen_loc, seen_mode;
	std::vector<unsigned> asked;
	std::vector<std::vector<long>> got;
	std::vector<int> after;

	void run(const std::vector<std::string>& locales, unsigned way, std::atomic<unsigned>* ready, std::atomic<unsigned>* working)
	{
		if (way == 3 && !enter(locales[loc].c_str(), way)) { std::fprintf(stderr, "no locale %s\n", locales[loc].c_str()); _exit(7); }
		got.resize(asked.size()); after.resize(asked.size());
		seen_loc = loc; seen_mode = mode;
		Scratch* const m = new Scratch;
		std::fesetround(modes[mode]);
		const View before(!ready);
		if (ready) { ++*ready; while (*ready < 5) { } }
		for (std::size_t k = 0; k < asked.size(); ++k) { perform(pool[asked[k]], *m, 0, got[k]); after[k] = m->after; }
		if (working)
		{
			if (!asked.empty()) --*working;
			else while (*working) if (!(View(false) == before)) seen_loc = 15;
			// the others may not have finished: nothing which belongs to all the process may differ even now
		}
		if (!(View(!ready) == before)) seen_loc = 15;
		const int now = std::fegetround();
		if (now != modes[mode]) { seen_mode = 0; while (seen_mode < 3 && modes[seen_mode] != now) ++seen_mode; }
		std::fesetround(FE_TONEAREST);
		if (way == 3) leave_thread();
		delete m;
	}
};

static void write(FILE* f, const Record& r) { std::fprintf(f, "%s\n", r.done().c_str()); }

int main(int argc, char** argv)
{
	if (argc < 8) return 2;
	const u64 seed = strtoull(argv[1], nullptr, 10), batches = strtoull(argv[2], nullptr, 10), wanted = strtoull(argv[3], nullptr, 10);
	unsigned n = static_cast<unsigned>(atoi(argv[4]));
	const std::string out = argv[5];
	std::vector<std::string> locales(1, "C");
	for (int i = 7; i < argc; ++i) locales.push_back(argv[i]);
	widen = [](unsigned char c) -> wchar_t { return c == 0x80 ? L'\u0130' : c == 0x81 ? L'\u0131' : c == 0x82 ? L'\u212A' : c == 0x83 ? L'\u017F' : c == 0x84 ? L'\u066B' : wchar_t(c); };
	// the short ones and some of the others
	std::vector<std::string> direct;
	for (const auto& l : read_lines(argv[6]))
	{
		const std::string s = narrow(decode(l));
		Rng g(seed, 500 + s.size() * 7919 + static_cast<u64>(std::hash<std::string>()(s) % 100003));
		if (s.size() < 3 || g.chance(s.size() == 3 ? 3 : 12)) direct.push_back(s);
	}
	make_pool(seed, n, given_strings(seed), true, direct);
	n = static_cast<unsigned>(pool.size());

	struct Answer { volatile long count; long r[96]; int after; bool asks; };
	Answer* const answers = static_cast<Answer*>(mmap(nullptr, n * sizeof(Answer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	FILE* f = std::fopen(out.c_str(), "w");
	if (!f) return 3;
	u64 emitted = 0, crashes = 0;
	std::vector<pid_t> pids;
	for (unsigned p = 0; p < 8; ++p)
	{
		fflush(nullptr);
		const pid_t w = fork();
		if (w == 0)
		{
			for (unsigned i = p; i < n; i += 8)
			{
				answers[i].count = -1;
				const pid_t c = fork();
				if (c == 0)
				{
					struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
					alarm(20);
					std::vector<long> r;
					static Scratch m;
					perform(pool[i], m, 0, r);
					const std::size_t k = std::min<std::size_t>(r.size(), 96);
					for (std::size_t x = 0; x < k; ++x) answers[i].r[x] = r[x];
					answers[i].after = m.after;
					answers[i].asks = asks(pool[i]);
					answers[i].count = static_cast<long>(k);
					_exit(0);
				}
				int st;
				waitpid(c, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st)) answers[i].count = -2;
			}
			_exit(0);
		}
		pids.push_back(w);
	}
	for (pid_t p : pids) waitpid(p, nullptr, 0);
	std::vector<std::vector<long>> first(n);
	for (unsigned i = 0; i < n; ++i)
	{
		if (answers[i].count > 0) first[i].assign(answers[i].r, answers[i].r + answers[i].count);
		write(f, Record("fresh").num("a", i + 1).str("what", op_names[pool[i].op]).str("ty", pool[i].is_float ? "f" : "d").text("tx", pool[i].s).words("w", pool[i].bits, 4).seq("r", first[i].begin(), first[i].end())
			.str("kind", pool[i].op < 3 ? "print" : "parse").num("e", answers[i].after).boolean("consults", false).boolean("asks", answers[i].asks).raw("given", "[]"));
		++emitted;
	}
	for (unsigned i = 0; i < n; ++i)
		if (answers[i].count < 0) { write(f, Record("crash").str("what", op_names[pool[i].op]).num("t", 1).num("a", i + 1).text("tx", pool[i].s)); ++crashes; ++emitted; }
	std::fclose(f);
	if (crashes) { std::printf("CALLS %u EMITTED %llu CRASHES %llu\n", n, (unsigned long long)emitted, (unsigned long long)crashes); return 0; }

	std::vector<unsigned> fallbacks;
	for (unsigned i = 0; i < n; ++i) if (answers[i].asks) fallbacks.push_back(i);
	volatile u64* const shared = static_cast<volatile u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	fflush(nullptr);
	const pid_t c = fork();
	if (c == 0)
	{
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		FILE* o = std::fopen(out.c_str(), "a");
		Rng g(seed, 900);
		u64 recorded = 0, odd = 0;
		for (u64 b = 0; b < batches; ++b)
		{
			// all the worlds in turn; now and then by several threads at once,
			// if locales belong to threads, in a world of its own each
			const unsigned combos = static_cast<unsigned>(locales.size() * 4 * 2);
			const unsigned w = static_cast<unsigned>(b % combos);
			const unsigned loc = w / 8, way = w / 2 % 4, mode = w % 2 ? 1 + static_cast<unsigned>(g.below(3)) : 0;
			const bool crew = b / combos % 3 == 1, own = crew && way == 3;
			std::vector<Part> parts(crew ? 5 : 1);
			for (unsigned t = 0; t < parts.size(); ++t)
			{
				parts[t].t = t + 1;
				parts[t].loc = own && t ? static_cast<unsigned>(g.below(locales.size())) : loc;
				parts[t].mode = crew && t ? static_cast<unsigned>(g.below(4)) : mode;
				// the first ones work at the same requests, the last one only watches
				if (t && t < 3) { parts[t].asked = parts[0].asked; std::rotate(parts[t].asked.begin(), parts[t].asked.begin() + t * 7, parts[t].asked.end()); }
				else if (t < 4)
				{
					const unsigned first_one = static_cast<unsigned>(g.below(n));
					for (unsigned k = 0; k < 120; ++k)
					{
						unsigned i = static_cast<unsigned>(g.below(n));
						if (crew && !fallbacks.empty() && k % 2) i = fallbacks[(first_one + k) % fallbacks.size()];
						parts[t].asked.push_back(i);
					}
				}
			}
			if (way != 3 && !enter(locales[loc].c_str(), way)) { std::fprintf(stderr, "no locale %s\n", locales[loc].c_str()); exit(7); }
			if (!crew) parts[0].run(locales, way, nullptr, nullptr);
			else
			{
				std::atomic<unsigned> ready(0), working(4);
				std::vector<std::thread> threads;
				for (auto& x : parts) threads.emplace_back([&] { x.run(locales, way, &ready, &working); });
				for (auto& x : threads) x.join();
			}
			if (way != 3) leave();
			for (const auto& x : parts)
			{
				shared[0] = shared[0] + x.asked.size();
				bool announced = false;
				auto announce = [&] { if (!announced) { write(o, Record("world").num("t", own || crew ? x.t : 0).num("loc", x.loc).num("mode", x.mode).str("name", locales[x.loc].c_str()).str("way", ways[way])); ++recorded; announced = true; } };
				for (std::size_t k = 0; k < x.asked.size(); ++k)
				{
					const unsigned a = x.asked[k];
					const bool rec = recorded < wanted && k < wanted / combos / 3 / (crew ? 8 : 1);
					const bool strange = x.got[k] != first[a] && (x.mode == 0 || !answers[a].asks) && odd < 60;
					if (!rec && !strange) continue;
					announce();
					if (!rec) ++odd;
					write(o, Record("env").num("t", x.t).num("err", 0));
					write(o, Record("call").num("t", x.t).num("a", a + 1).num("err", 0));
					write(o, Record("ret").num("t", x.t).num("a", a + 1).seq("r", x.got[k].begin(), x.got[k].end()).num("err", x.after[k]));
					recorded += 3;
				}
				// the world as it was after (or during) all that
				const bool kept = x.seen_loc == x.loc && x.seen_mode == x.mode;
				if (announced || (recorded < wanted && x.asked.empty()) || (!kept && odd++ < 60))
				{
					announce();
					write(o, Record("look").num("t", x.t).num("loc", x.seen_loc).num("mode", x.seen_mode).boolean("crew", crew));
					++recorded;
				}
			}
		}
		shared[1] = recorded;
		std::fclose(o);
		exit(0);
	}
	int st = 0;
	const time_t since = time(nullptr);
	const char* how = nullptr;
	for (;;)
	{
		const pid_t r = waitpid(c, &st, WNOHANG);
		if (r == c) { if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return 7; if (!WIFEXITED(st) || WEXITSTATUS(st)) how = "crash"; break; }
		if (time(nullptr) - since > 400) { kill(c, SIGKILL); waitpid(c, &st, 0); how = "hang"; break; }
		usleep(2000);
	}
	if (how)
	{
		f = std::fopen(out.c_str(), "a");
		std::fprintf(f, "\n%s\n", Record(how).num("t", 0).num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)).done().c_str());
		std::fclose(f);
		++emitted; ++crashes;
	}
	emitted += shared[1];
	std::printf("CALLS %llu EMITTED %llu CRASHES %llu\n", (unsigned long long)shared[0] + n, (unsigned long long)emitted, (unsigned long long)crashes);
	return 0;
}
