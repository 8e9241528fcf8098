// Histories of calls: hist SEED THREADS ROUNDS EVENTS POOL OUT [STRINGS-FILE]
// Every request is first answered in a fresh process; then threads issue
// requests in random order, changing errno in between.
#include "requests.h"
#include <atomic>
#include <thread>
#include <mutex>

static const int stale[] = { 0, ERANGE, EINVAL, EDOM, ENOMEM };

struct Event { u64 stamp; int kind; unsigned thread, arg; int err; std::vector<long> r; }; // kind 0: env, 1: call, 2: ret

static std::string line(const Event& e)
{
	if (e.kind == 0) return Record("env").num("t", e.thread).num("err", e.err).done();
	if (e.kind == 1) return Record("call").num("t", e.thread).num("a", e.arg).num("err", e.err).done();
	return Record("ret").num("t", e.thread).num("a", e.arg).seq("r", e.r.begin(), e.r.end()).num("err", e.err).done();
}

int main(int argc, char** argv)
{
	if (argc < 7) return 2;
	const u64 seed = strtoull(argv[1], nullptr, 10);
	const unsigned threads = static_cast<unsigned>(atoi(argv[2]));
	const u64 rounds = strtoull(argv[3], nullptr, 10);  // calls of each thread
	const u64 wanted = strtoull(argv[4], nullptr, 10);  // events of each thread to record
	const unsigned n = static_cast<unsigned>(atoi(argv[5]));
	const std::string out = argv[6];
	std::vector<std::string> given;
	if (argc > 7) for (const auto& l : read_lines(argv[7])) given.push_back(narrow(decode(l)));
	make_pool(seed, n, given);

	// first answers: a process for each
	struct Answer { volatile long count; long r[96]; int after; };
	Answer* const answers = static_cast<Answer*>(mmap(nullptr, n * sizeof(Answer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	FILE* f = std::fopen(out.c_str(), "w");
	if (!f) return 3;
	u64 emitted = 0, crashes = 0;
	const unsigned procs = 8;
	std::vector<pid_t> pids;
	for (unsigned p = 0; p < procs; ++p)
	{
		fflush(nullptr);
		const pid_t w = fork();
		if (w == 0)
		{
			for (unsigned i = p; i < n; i += procs)
			{
				answers[i].count = -1;
				const pid_t c = fork();
				if (c == 0)
				{
					struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
					if (!getenv("VF_KEEP_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(3); }
					alarm(20);
					std::vector<long> r;
					static Scratch m;
					perform(pool[i], m, 0, r);
					const std::size_t k = std::min<std::size_t>(r.size(), 96);
					for (std::size_t x = 0; x < k; ++x) answers[i].r[x] = r[x];
					answers[i].after = m.after;
					answers[i].count = static_cast<long>(k);
					_exit(0);
				}
				int st;
				waitpid(c, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st)) answers[i].count = -2;
			}
			_exit(0);
		}
		pids.push_back(w);
	}
	for (pid_t p : pids) waitpid(p, nullptr, 0);
	std::vector<std::vector<long>> first(n);
	for (unsigned i = 0; i < n; ++i)
	{
		if (answers[i].count > 0) first[i].assign(answers[i].r, answers[i].r + answers[i].count);
		std::fprintf(f, "%s\n", Record("fresh").num("a", i + 1).str("what", op_names[pool[i].op]).str("ty", pool[i].is_float ? "f" : "d").text("tx", pool[i].s).words("w", pool[i].bits, 4).seq("r", first[i].begin(), first[i].end())
			.str("kind", pool[i].op < 3 ? "print" : "parse").num("e", answers[i].after).boolean("consults", false).boolean("asks", false).raw("given", "[]").done().c_str());
		++emitted;
	}
	for (unsigned i = 0; i < n; ++i)
		if (answers[i].count < 0)
		{
			std::fprintf(f, "%s\n", Record("crash").str("what", op_names[pool[i].op]).num("t", 1).num("a", i + 1).text("tx", pool[i].s).done().c_str());
			++crashes;
			++emitted;
		}
	std::fclose(f);
	if (crashes) { std::printf("CALLS %u EMITTED %llu CRASHES %llu\n", n, (unsigned long long)emitted, (unsigned long long)crashes); return 0; }

	// threads, in a process of their own
	volatile u64* const calls = static_cast<volatile u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	const std::string part = out + ".events";
	std::remove(part.c_str());
	fflush(nullptr);
	const pid_t c = fork();
	if (c == 0)
	{
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		if (!getenv("VF_KEEP_STDERR")) { if (!freopen((out + ".err").c_str(), "w", stderr)) _exit(3); }
		std::atomic<u64> clock(0);
		std::vector<std::vector<Event>> logs(threads), odd(threads);
		std::atomic<unsigned> ready(0);
		auto body = [&](unsigned t)
		{
			Rng g(seed, 600 + t);
			Scratch* m = new Scratch();
			std::vector<long> r;
			std::vector<Event> window; // the last events
			++ready;
			while (ready < threads) {}
			u64 here = 0;
			for (u64 k = 0; k < rounds; ++k)
			{
				// mostly the same few requests for a while, by all threads
				const u64 phase = k / 64;
				const unsigned a = static_cast<unsigned>(g.chance(3) ? g.below(n) : (phase * 7919 + g.below(12)) % n);
				const int err = g.chance(4) ? static_cast<int>(g.below(200)) : stale[g.chance(2) ? 0 : g.below(5)];
				const bool rec = logs[t].size() < wanted;
				Event ca, re;
				if (rec)
				{
					{ Event e; e.stamp = clock++; e.kind = 0; e.thread = t + 1; e.arg = 0; e.err = err; logs[t].push_back(e); }
					ca.stamp = clock++;
				}
				perform(pool[a], *m, err, r);
				if (rec)
				{
					ca.kind = 1; ca.thread = t + 1; ca.arg = a + 1; ca.err = err;
					re.stamp = clock++; re.kind = 2; re.thread = t + 1; re.arg = a + 1; re.err = m->after; re.r = r;
					logs[t].push_back(ca); logs[t].push_back(re);
				}
				else if ((r != first[a] || (m->after != err && m->after != answers[a].after)) && odd[t].size() < 40)
				{
					Event e; e.stamp = clock++; e.kind = 0; e.thread = t + 1; e.arg = 0; e.err = err; odd[t].push_back(e);
					ca.stamp = clock++; ca.kind = 1; ca.thread = t + 1; ca.arg = a + 1; ca.err = err;
					re.stamp = clock++; re.kind = 2; re.thread = t + 1; re.arg = a + 1; re.err = m->after; re.r = r;
					odd[t].push_back(ca); odd[t].push_back(re);
				}
				++here;
			}
			__sync_fetch_and_add(calls, here);
			delete m;
		};
		std::vector<std::thread> ts;
		for (unsigned t = 0; t < threads; ++t) ts.emplace_back(body, t);
		for (auto& t : ts) t.join();
		std::vector<Event> all;
		for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
		std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.stamp < b.stamp; });
		std::vector<Event> late;
		for (auto& l : odd) late.insert(late.end(), l.begin(), l.end());
		std::sort(late.begin(), late.end(), [](const Event& a, const Event& b) { return a.stamp < b.stamp; });
		all.insert(all.end(), late.begin(), late.end());
		FILE* o = std::fopen(part.c_str(), "w");
		for (const auto& e : all) std::fprintf(o, "%s\n", line(e).c_str());
		std::fclose(o);
		calls[1] = all.size();
		exit(0);
	}
	int st = 0;
	const time_t since = time(nullptr);
	const char* how = nullptr;
	for (;;)
	{
		const pid_t r = waitpid(c, &st, WNOHANG);
		if (r == c) { if (!WIFEXITED(st) || WEXITSTATUS(st)) how = WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "race" : "crash"; break; }
		if (time(nullptr) - since > 400) { kill(c, SIGKILL); waitpid(c, &st, 0); how = "hang"; break; }
		usleep(2000);
	}
	f = std::fopen(out.c_str(), "a");
	if (FILE* h = std::fopen(part.c_str(), "r"))
	{
		static char buf[1 << 16];
		std::size_t k;
		while ((k = std::fread(buf, 1, sizeof(buf), h)) > 0) std::fwrite(buf, 1, k, f);
		std::fclose(h);
		std::remove(part.c_str());
	}
	if (how) { ++crashes; ++emitted; std::fprintf(f, "\n%s\n", Record(how).num("t", 0).num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)).done().c_str()); }
	std::fclose(f);
	emitted += calls[1];
	std::printf("CALLS %llu EMITTED %llu CRASHES %llu\n", (unsigned long long)calls[0] + n, (unsigned long long)emitted, (unsigned long long)crashes);
	return 0;
}
