// Replays schedules generated from the specification (Schedule.tla):
// sched SEED SCHEDULES-FILE RECORD OUT
// Threads issue parses with a fallback of ours; the fallback is the user's
// code again: it waits for its turn, may issue requests itself, and answers
// what the schedule says.
#include "literals.h"
#include "values.h"
#include "strings.h"
#include <condition_variable>
#include <mutex>
#include <thread>
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>

using namespace floaxie;

enum Class { unsure, settled, printed_class, nclasses };
static const char* const class_names[] = { "unsure", "settled", "printed" };

struct Request
{
	Class cls;
	bool is_float, wide, no_end;
	u64 bits;
	std::string s;
	std::wstring ws;
};

enum { nanswers = 16 }; // 7, 8: throw; those after report all kinds of errors
struct Thrown {};

struct Given { u64 bits; long end; int e; }; // answer of the fallback

// what the fallback does: answer x, e: error it reports (0: leaves errno)
template<typename T, typename Ch> T give(int x, unsigned salt, const Ch* s, Ch** end, int& e)
{
	const int seen = errno;
	T v = 0;
	std::size_t n = 0;
	while (n < 2 && s[n]) ++n;
	e = 0;
	switch (x)
	{
	case 1: { // as a good one does
		errno = 0;
		Ch* p = nullptr;
		v = default_fallback<T, Ch>(s, &p);
		e = errno;
		if (end) *end = p;
		errno = e ? e : seen;
		return v; }
	case 2: v = T(-9); n = 0; break;
	case 3: v = -std::numeric_limits<T>::infinity(); n = std::min<std::size_t>(n, 1); e = ERANGE; break;
	case 4: v = T(-0.0); n = std::min<std::size_t>(n, 1); e = EINVAL; break;
	case 5: v = std::numeric_limits<T>::infinity(); break;
	case 6: v = std::numeric_limits<T>::denorm_min(); e = ERANGE; break;
	case 7: break;
	case 8: e = salt % 2 ? ERANGE : 1 + static_cast<int>(salt % 133); break;
	default: {
		typedef std::numeric_limits<T> L;
		const T vs[] = { L::infinity(), T(0), L::denorm_min(), -L::infinity(), L::max(), T(-0.0), L::min(), T(1), L::quiet_NaN() };
		v = vs[(salt + static_cast<unsigned>(x)) % 9];
		e = 1 + static_cast<int>((salt * 8 + static_cast<unsigned>(x)) % 133);
		n = std::min<std::size_t>(n, 1);
		break; }
	}
	if (end) *end = const_cast<Ch*>(s + n);
	errno = e ? e : seen;
	return v;
}

// the user's code inside of a fallback: returns the number of the answer
typedef std::function<int(bool same)> Inside;

struct Reply { std::vector<long> r; int after; bool consulted; u64 given_bits; int given_e; };

template<typename T> void put(std::vector<long>& r, const value_and_status<T>& v, long end)
{
	const u64 b = to_bits(v.value);
	for (int i = bits_of<T>::words - 1; i >= 0; --i) r.push_back(static_cast<long>((b >> (16 * i)) & 0xffff));
	r.push_back(static_cast<long>(v.status));
	r.push_back(end);
}

template<typename T, typename Ch> void parse(const Request& q, const std::basic_string<Ch>& s, int err, const Inside& inside, Reply& out)
{
	Ch* e = nullptr;
	Ch** const pe = q.no_end ? nullptr : &e;
	unsigned n = 0, salt = 0;
	for (Ch c : s) salt = salt * 31 + static_cast<unsigned>(c);
	out.consulted = false;
	auto fallback = [&](const Ch* str, Ch** str_end) -> T
	{
		out.consulted = true;
		const int x = inside(++n == 1 && str == s.c_str() && str_end == pe);
		int ge = 0;
		const T v = give<T, Ch>(x, salt, str, str_end, ge);
		out.given_bits = to_bits(v);
		out.given_e = ge;
		if (x == 7 || x == 8) throw Thrown();
		return v;
	};
	errno = err;
	try
	{
		const auto v = floaxie::atof<T, Ch, decltype(fallback)&>(s.c_str(), pe, fallback);
		out.after = errno;
		put(out.r, v, e ? e - s.c_str() : -1);
	}
	catch (const Thrown&)
	{
		out.after = errno;
		out.r.assign(3, -1);
	}
}

template<typename T> void perform_as(const Request& q, int err, const Inside& inside, Reply& out)
{
	if (q.cls == printed_class)
	{
		const T v = from_bits<T>(static_cast<typename bits_of<T>::type>(q.bits));
		if (q.wide) { wchar_t b[128]; errno = err; const std::size_t n = ftoa(v, b); out.after = errno; out.r.push_back(static_cast<long>(n)); for (const wchar_t* c = b; *c; ++c) out.r.push_back(Record::code(*c)); }
		else { char b[128]; errno = err; const std::size_t n = ftoa(v, b); out.after = errno; out.r.push_back(static_cast<long>(n)); for (const char* c = b; *c; ++c) out.r.push_back(Record::code(*c)); }
		out.consulted = false;
	}
	else if (q.wide) parse<T, wchar_t>(q, q.ws, err, inside, out);
	else parse<T, char>(q, q.s, err, inside, out);
}

static void perform(const Request& q, int err, const Inside& inside, Reply& out)
{
	out.r.clear();
	if (q.is_float) perform_as<float>(q, err, inside, out); else perform_as<double>(q, err, inside, out);
}

static std::vector<Request> pool;
static std::vector<unsigned> of_class[nclasses];

static void make_pool(u64 seed, unsigned n)
{
	Rng g(seed, 77);
	for (unsigned i = 0; i < n; ++i)
	{
		Request q;
		q.cls = static_cast<Class>(i % nclasses);
		q.is_float = g.chance(2); q.wide = g.chance(2); q.no_end = g.chance(4);
		q.bits = 0;
		if (q.cls == printed_class) q.bits = q.is_float ? u64(to_bits(random_value<float>(g))) : to_bits(random_value<double>(g));
		else if (q.cls == unsure)
		{
			Dec d = q.is_float ? exact_decimal(any_value<float>(g), true) : exact_decimal(any_value<double>(g), true);
			if (g.chance(3)) { d.digits += "1"; --d.exp; }
			q.s = plain(d);
			if (q.s.size() > 600) { q.s = q.is_float ? "16777217" : "9007199254740993"; }
			if (g.chance(4)) q.s += "x";
			if (g.chance(3)) q.s.insert(0, "-");
			static const char* const edges[] = { "1e-310", "-3e-324", "2.4703282292062327e-324", "1.7976931348623158e308", "9007199254740993", "4503599627370497.5" };
			static const char* const fedges[] = { "1e-40", "-1e-45", "7.0064923216240854e-46", "3.4028235677973366e38", "16777217", "8388608.5" };
			if (g.chance(4)) q.s = (q.is_float ? fedges : edges)[g.below(6)];
		}
		else switch (g.below(4))
		{
			case 0: q.s = random_word(g); break;
			case 1: q.s = zero_literal(g); break;
			case 2: { static const char* const e[] = { "1e-400", "-1e400", "1", "-0.5", "", "e5", "-", "1e", "inf", "-nan(x)" }; q.s = e[g.below(10)]; break; }
			default: q.s = std::to_string(g.below(100000)) + "." + g.nzdigit();
		}
		for (char& c : q.s) if (!c) c = '7';
		for (char c : q.s) q.ws += static_cast<wchar_t>(static_cast<unsigned char>(c));
		of_class[q.cls].push_back(i);
		pool.push_back(q);
	}
}

// ---- first answers -----------------------------------------------------------
struct Fresh { volatile int ok; long n; long r[96]; int after; int consulted; u64 bits; int e; };
static Fresh* fresh; // [request][answer]

static void child(const Request& q, int x, Fresh& f)
{
	fflush(nullptr);
	const pid_t c = fork();
	if (c == 0)
	{
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		if (!getenv("VF_KEEP_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(3); }
		alarm(20);
		Reply o;
		o.given_bits = 0; o.given_e = 0;
		perform(q, 0, [&](bool) { return x; }, o);
		f.n = static_cast<long>(std::min<std::size_t>(o.r.size(), 96));
		for (long i = 0; i < f.n; ++i) f.r[i] = o.r[static_cast<std::size_t>(i)];
		f.after = o.after; f.consulted = o.consulted; f.bits = o.given_bits; f.e = o.given_e;
		f.ok = 1;
		_exit(0);
	}
	int st;
	waitpid(c, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) f.ok = 2;
}

// ---- schedules ---------------------------------------------------------------
struct Step { bool call; unsigned t; Class cls; int arg; };

static std::vector<Step> parse_schedule(const std::string& l)
{
	std::vector<Step> r;
	std::size_t i = 0;
	while (i < l.size())
	{
		const std::size_t j = l.find(';', i);
		const std::string p = l.substr(i, j == std::string::npos ? j : j - i);
		char what = 0, cls[32] = "";
		unsigned t = 0; int arg = 0;
		if (std::sscanf(p.c_str(), " C %u %31s %d", &t, cls, &arg) == 3) what = 'C';
		else if (std::sscanf(p.c_str(), " A %u %d", &t, &arg) == 2) what = 'A';
		if (what)
		{
			Step s; s.call = what == 'C'; s.t = t; s.arg = arg; s.cls = unsure;
			for (int k = 0; k < nclasses; ++k) if (!std::strcmp(cls, class_names[k])) s.cls = static_cast<Class>(k);
			r.push_back(s);
		}
		if (j == std::string::npos) break;
		i = j + 1;
	}
	return r;
}

struct Run
{
	std::mutex m;
	std::condition_variable cv;
	std::vector<Step> steps;
	std::size_t next = 0;
	u64 turn = 0;            // number of the schedule
	unsigned finished = 0;
	std::vector<std::string> log;
	bool odd = false;
	Rng g;
	u64 calls = 0;
	bool over = false;
	explicit Run(u64 seed) : g(seed, 99) {}

	// the next step of thread t; null at the end
	const Step* take(std::unique_lock<std::mutex>& l, unsigned t)
	{
		cv.wait(l, [&] { return next >= steps.size() || steps[next].t == t; });
		return next >= steps.size() ? nullptr : &steps[next];
	}
	void done() { ++next; cv.notify_all(); }

	void issue(std::unique_lock<std::mutex>& l, unsigned t, Class cls, int err, unsigned level)
	{
		const auto& c = of_class[cls];
		const unsigned a = c[g.below(c.size())];
		const Request& q = pool[a];
		log.push_back(Record("env").num("t", t).num("err", err).done());
		log.push_back(Record("call").num("t", t).num("a", a + 1).num("err", err).done());
		Reply o;
		int answered = 0;
		bool advanced = false;
		l.unlock();
		perform(q, err, [&](bool same)
		{
			const int seen = errno;
			std::unique_lock<std::mutex> k(m);
			log.push_back(Record("consult").num("t", t).num("err", seen).boolean("same", same).done());
			if (!same) odd = true;
			if (!advanced) { advanced = true; done(); }
			const int x = user(k, t, level + 1);
			answered = x;
			// what it's about to report, as far as errno is concerned; see give()
			const int e = fresh[a * nanswers + static_cast<unsigned>(x) - 1].e;
			log.push_back(Record("answer").num("t", t).num("x", x).num("err", e ? e : seen).done());
			errno = seen;
			return x;
		}, o);
		l.lock();
		++calls;
		log.push_back(Record("ret").num("t", t).num("a", a + 1).seq("r", o.r.begin(), o.r.end()).num("err", o.after).done());
		const Fresh& f = fresh[a * nanswers + static_cast<unsigned>(answered ? answered - 1 : 0)];
		if (static_cast<std::size_t>(f.n) != o.r.size() || !std::equal(o.r.begin(), o.r.end(), f.r)) odd = true;
		if ((answered != 0) != (f.consulted != 0)) odd = true;
		if (o.after != err && !(answered && f.e && o.after == f.e)) odd = true;
		if (!advanced) done();
	}

	// the user's code: at the top (level 0), or in a fallback, which answers finally
	int user(std::unique_lock<std::mutex>& l, unsigned t, unsigned level)
	{
		for (;;)
		{
			const Step* s = take(l, t);
			if (!s) return 1;
			if (s->call) issue(l, t, s->cls, s->arg, level);
			else
			{
				const int x = s->arg;
				done();
				if (level) return x;
			}
		}
	}

	void thread(unsigned t, unsigned threads)
	{
		u64 mine = 0;
		std::unique_lock<std::mutex> l(m);
		for (;;)
		{
			cv.wait(l, [&] { return over || turn > mine; });
			if (over) return;
			mine = turn;
			user(l, t, 0);
			if (++finished == threads) cv.notify_all();
		}
	}
};

int main(int argc, char** argv)
{
	if (argc < 5) return 2;
	const u64 seed = strtoull(argv[1], nullptr, 10);
	const auto lines = read_lines(argv[2]);
	const u64 wanted = strtoull(argv[3], nullptr, 10);
	const std::string out = argv[4];
	const unsigned n = 240, threads = 3;
	make_pool(seed, n);

	fresh = static_cast<Fresh*>(mmap(nullptr, sizeof(Fresh) * n * nanswers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<pid_t> pids;
	for (unsigned p = 0; p < 8; ++p)
	{
		fflush(nullptr);
		const pid_t w = fork();
		if (w == 0)
		{
			for (unsigned i = p; i < n; i += 8)
				for (unsigned x = 0; x < nanswers; ++x)
				{
					child(pool[i], static_cast<int>(x) + 1, fresh[i * nanswers + x]);
					if (fresh[i * nanswers + x].ok != 1 || !fresh[i * nanswers + x].consulted) break;
				}
			_exit(0);
		}
		pids.push_back(w);
	}
	for (pid_t p : pids) waitpid(p, nullptr, 0);

	FILE* f = std::fopen(out.c_str(), "w");
	if (!f) return 3;
	u64 emitted = 0, crashes = 0, consulting = 0;
	for (unsigned i = 0; i < n; ++i)
	{
		const Fresh& a = fresh[i * nanswers];
		std::string given = "[";
		if (a.consulted)
		{
			++consulting;
			for (unsigned x = 0; x < nanswers; ++x)
			{
				const Fresh& b = fresh[i * nanswers + x];
				if (x) given += ',';
				given += "{\"w\":" + Record::wordlist(b.bits, pool[i].is_float ? 2 : 4) + ",\"e\":" + std::to_string(b.e) + ",\"r\":" + Record::list(b.r, b.r + b.n) + ",\"after\":" + std::to_string(b.after) + "}";
			}
		}
		given += ']';
		std::fprintf(f, "%s\n", Record("fresh").num("a", i + 1).str("kind", pool[i].cls == printed_class ? "print" : "own").str("ty", pool[i].is_float ? "f" : "d").boolean("wide", pool[i].wide)
			.text("tx", pool[i].s).words("w", pool[i].bits, 4).seq("r", a.r, a.r + a.n).num("e", a.consulted ? 0 : a.after).boolean("consults", a.consulted).boolean("asks", false).raw("given", given).done().c_str());
		++emitted;
		for (unsigned x = 0; x < nanswers; ++x) if (fresh[i * nanswers + x].ok == 2) ++crashes;
	}
	if (crashes) std::fprintf(f, "%s\n", Record("crash").num("t", 1).done().c_str());
	std::fclose(f);
	if (crashes) { std::printf("CALLS %u EMITTED %llu CRASHES %llu\n", n, (unsigned long long)emitted + 1, (unsigned long long)crashes); return 0; }

	volatile u64* const sh = static_cast<volatile u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	fflush(nullptr);
	const pid_t c = fork();
	if (c == 0)
	{
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		if (!getenv("VF_KEEP_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(3); }
		FILE* o = std::fopen(out.c_str(), "a");
		Run run(seed);
		std::vector<std::thread> ts;
		for (unsigned t = 1; t <= threads; ++t) ts.emplace_back([&run, t] { run.thread(t, threads); });
		u64 odd = 0;
		const u64 stride = std::max<u64>(1, lines.size() / std::max<u64>(1, wanted));
		for (u64 i = 0; i < lines.size(); ++i)
		{
			{
				std::unique_lock<std::mutex> l(run.m);
				run.steps = parse_schedule(lines[i]);
				run.next = 0; run.finished = 0; run.odd = false; run.log.clear();
				++run.turn;
				run.cv.notify_all();
				run.cv.wait(l, [&] { return run.finished == threads; });
			}
			if (i % stride == 0 || (run.odd && odd < 60))
			{
				if (run.odd) ++odd;
				for (const auto& s : run.log) { std::fprintf(o, "%s\n", s.c_str()); ++sh[1]; }
				std::fflush(o);
			}
			sh[0] = run.calls;
		}
		{ std::unique_lock<std::mutex> l(run.m); run.over = true; run.cv.notify_all(); }
		for (auto& t : ts) t.join();
		std::fclose(o);
		_exit(0);
	}
	int st = 0;
	u64 seen = 0; time_t since = time(nullptr);
	const char* how = nullptr;
	for (;;)
	{
		const pid_t r = waitpid(c, &st, WNOHANG);
		if (r == c) { if (!WIFEXITED(st) || WEXITSTATUS(st)) how = "crash"; break; }
		if (sh[0] != seen) { seen = sh[0]; since = time(nullptr); }
		if (time(nullptr) - since > 120) { kill(c, SIGKILL); waitpid(c, &st, 0); how = "hang"; break; }
		usleep(2000);
	}
	if (how) { ++crashes; f = std::fopen(out.c_str(), "a"); std::fprintf(f, "\n%s\n", Record(how).num("t", 1).done().c_str()); std::fclose(f); }
	std::fprintf(stderr, "%llu of %u requests consult\n", (unsigned long long)consulting, n);
	std::printf("CALLS %llu EMITTED %llu CRASHES %llu\n", (unsigned long long)(sh[0] + n), (unsigned long long)(emitted + sh[1]), (unsigned long long)crashes);
	return 0;
}
