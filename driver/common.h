// Shared parts of the drivers: deterministic randomness, ndjson records,
// guarded memory, execution in forked workers (a crash or hang of the code
// under test becomes an event of the trace).
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef std::uint64_t u64;
typedef std::uint32_t u32;

struct Rng
{
	u64 s;
	explicit Rng(u64 seed, u64 i = 0) : s(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull) { next(); next(); }
	u64 next()
	{
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return next() % n; }
	int range(int a, int b) { return a + static_cast<int>(below(static_cast<u64>(b - a) + 1)); }
	bool chance(unsigned n) { return below(n) == 0; }
	char digit() { return static_cast<char>('0' + below(10)); }
	char nzdigit() { return static_cast<char>('1' + below(9)); }
};

template<typename T> struct bits_of;
template<> struct bits_of<float> { typedef u32 type; static const char* tag() { return "f"; } enum { mant = 23, maxexp = 255, words = 2 }; };
template<> struct bits_of<double> { typedef u64 type; static const char* tag() { return "d"; } enum { mant = 52, maxexp = 2047, words = 4 }; };

template<typename T> typename bits_of<T>::type to_bits(T v) { typename bits_of<T>::type b; std::memcpy(&b, &v, sizeof(b)); return b; }
template<typename T> T from_bits(typename bits_of<T>::type b) { T v; std::memcpy(&v, &b, sizeof(b)); return v; }
template<typename T> T make_value(bool neg, u64 biased, u64 mantissa)
{
	typedef typename bits_of<T>::type B;
	return from_bits<T>((B(neg) << (sizeof(T) * 8 - 1)) | (B(biased) << bits_of<T>::mant) | (B(mantissa) & ((B(1) << bits_of<T>::mant) - 1)));
}

// ---- records ---------------------------------------------------------------
struct Record
{
	std::string s;
	explicit Record(const char* op) { s = "{\"op\":\""; s += op; s += '"'; }
	Record& str(const char* k, const char* v) { s += ",\""; s += k; s += "\":\""; s += v; s += '"'; return *this; }
	Record& num(const char* k, long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
	Record& boolean(const char* k, bool v) { s += ",\""; s += k; s += "\":"; s += v ? "true" : "false"; return *this; }
	template<typename It> Record& seq(const char* k, It b, It e)
	{
		s += ",\""; s += k; s += "\":";
		s += list(b, e);
		return *this;
	}
	template<typename It> static std::string list(It b, It e)
	{
		std::string r = "[";
		for (bool first = true; b != e; ++b, first = false)
		{
			if (!first) r += ',';
			r += std::to_string(static_cast<long>(*b));
		}
		return r + ']';
	}
	Record& raw(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
	template<typename Ch> Record& text(const char* k, const std::basic_string<Ch>& v) { std::vector<long> c; for (Ch x : v) c.push_back(code(x)); return seq(k, c.begin(), c.end()); }
	template<typename Ch> static long code(Ch c) { return static_cast<long>(c); }
	static long code(char c) { return static_cast<unsigned char>(c); }
	static std::string wordlist(u64 v, int n)
	{
		std::vector<int> w;
		for (int i = n - 1; i >= 0; --i) w.push_back(static_cast<int>((v >> (16 * i)) & 0xffff));
		return list(w.begin(), w.end());
	}
	Record& words(const char* k, u64 v, int n) { return raw(k, wordlist(v, n)); }
	template<typename T> Record& value(const char* k, T v) { return words(k, to_bits(v), bits_of<T>::words); }
	template<typename T> Record& type() { return str("ty", bits_of<T>::tag()); }
	std::string done() const { return s + '}'; }
};

// ---- guarded memory ----------------------------------------------------------
// [no access][ room ][no access]; objects are put flush against either end
struct Guarded
{
	enum { page = 4096 };
	std::size_t room;
	unsigned char* base;
	explicit Guarded(std::size_t pages = 4) : room(pages * page)
	{
		void* m = mmap(nullptr, room + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
		base = static_cast<unsigned char*>(m) + page;
		if (mprotect(base, room, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); }
	}
	template<typename Ch> Ch* at_end(std::size_t n) { return reinterpret_cast<Ch*>(base + room) - n; }
	template<typename Ch> Ch* at_start() { return reinterpret_cast<Ch*>(base); }
	// terminated copy, against the end or the start of the room
	template<typename Ch> Ch* put(const std::basic_string<Ch>& s, bool end)
	{
		Ch* p = end ? at_end<Ch>(s.size() + 1) : at_start<Ch>();
		std::memcpy(p, s.data(), s.size() * sizeof(Ch));
		p[s.size()] = Ch();
		if (!end)
			for (std::size_t i = 1; i < 24; ++i) p[s.size() + i] = Ch('0' + i % 10); // garbage to be ignored
		return p;
	}
};

// ---- workers -------------------------------------------------------------------
struct Shared
{
	volatile u64 index;      // next index to do
	volatile u64 emitted;
	volatile u64 done;       // calls executed
	volatile bool finished;
	volatile unsigned len;
	char current[65536];     // description (fields of a record) of what is being executed
};

struct Worker
{
	Shared* sh;
	FILE* out;
	unsigned id, count;
	u64 suspicious_left, extra_left;

	void emit(const std::string& line) { std::fputs(line.c_str(), out); std::fputc('\n', out); std::fflush(out); ++sh->emitted; }
	void emit(const Record& r) { emit(r.done()); }
	// describe the following call in case it doesn't return; cheap version
	// only copies bytes, they are formatted by the parent
	void describe(const char* what, const void* bytes, std::size_t n, unsigned width, const char* ty)
	{
		unsigned l = static_cast<unsigned>(std::min<std::size_t>(n * (width & 63), sizeof(sh->current) - 64));
		sh->current[0] = static_cast<char>(width);
		std::strncpy(sh->current + 1, ty, 7);
		std::strncpy(sh->current + 8, what, 23);
		std::memcpy(sh->current + 32, bytes, l);
		sh->len = l;
	}
	template<typename Ch> void describe_string(const char* what, const Ch* s, std::size_t n, const char* ty) { describe(what, s, n, sizeof(Ch), ty); }
	template<typename T> void describe_value(const char* what, T v)
	{
		typename bits_of<T>::type b = to_bits(v);
		describe(what, &b, 1, sizeof(b) + 64, bits_of<T>::tag());
	}
};

inline std::string crash_record(const Shared& sh, const char* how, int sig)
{
	Record r(how);
	r.str("ty", sh.current + 1).str("what", sh.current + 8).num("sig", sig);
	const unsigned char width = static_cast<unsigned char>(sh.current[0]);
	if (width >= 64)
	{
		u64 b = 0;
		const unsigned n = width - 64;
		std::memcpy(&b, sh.current + 32, n);
		r.words("w", b, static_cast<int>(n / 2));
	}
	else
	{
		std::vector<long> c;
		for (unsigned i = 0; i + width <= sh.len; i += width)
		{
			unsigned long x = 0;
			std::memcpy(&x, sh.current + 32 + i, width);
			c.push_back(static_cast<long>(x & 0x7fffffff));
		}
		r.seq("tx", c.begin(), c.end());
	}
	return r.done();
}

typedef std::function<void(Worker&, u64)> Job;

struct Totals { u64 calls = 0, emitted = 0, crashes = 0; };

// runs job(worker, i) for i in [0, n) in processes; output goes to out
inline Totals run_jobs(const std::string& out, u64 n, const Job& job, unsigned procs = 8, int hang_seconds = 10, unsigned max_crashes = 6)
{
	Totals t;
	std::vector<Shared*> sh(procs);
	std::vector<pid_t> pid(procs, -1);
	std::vector<unsigned> crashes(procs, 0);
	std::vector<double> since(procs, 0);
	// time a process has used itself (the machine may be busy), or stood still
	auto used = [&](unsigned p)
	{
		clockid_t id;
		struct timespec ts;
		if (clock_getcpuclockid(pid[p], &id) || clock_gettime(id, &ts)) return 0.0;
		return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
	};
	std::vector<time_t> still(procs, 0);
	std::vector<u64> seen(procs, 0);
	auto name = [&](unsigned p) { return out + "." + std::to_string(p); };

	for (unsigned p = 0; p < procs; ++p)
	{
		sh[p] = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		std::memset(static_cast<void*>(sh[p]), 0, sizeof(Shared));
		sh[p]->index = p;
		std::remove(name(p).c_str());
	}
	auto start = [&](unsigned p)
	{
		fflush(nullptr);
		pid[p] = fork();
		if (pid[p] == 0)
		{
			struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
			if (!getenv("VF_KEEP_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(3); }
			Worker w;
			w.sh = sh[p]; w.id = p; w.count = procs; w.suspicious_left = 40; w.extra_left = 100;
			w.out = std::fopen(name(p).c_str(), "a");
			if (!w.out) _exit(3);
			while (sh[p]->index < n)
			{
				const u64 i = sh[p]->index;
				job(w, i);
				sh[p]->index = i + procs;
			}
			sh[p]->finished = true;
			std::fclose(w.out);
			_exit(0);
		}
		seen[p] = ~u64(0);
		since[p] = 0;
		still[p] = time(nullptr);
	};
	for (unsigned p = 0; p < procs; ++p) start(p);
	unsigned running = procs;
	while (running)
	{
		bool any = false;
		for (unsigned p = 0; p < procs; ++p)
		{
			if (pid[p] < 0) continue;
			int st;
			const pid_t r = waitpid(pid[p], &st, WNOHANG);
			const char* how = nullptr;
			int sig = 0;
			if (r == pid[p])
			{
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[p]->finished) { pid[p] = -1; --running; any = true; continue; }
				how = "crash";
				sig = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
			}
			else
			{
				const u64 progress = sh[p]->index + (sh[p]->done << 20);
				if (seen[p] != progress) { seen[p] = progress; since[p] = used(p); still[p] = time(nullptr); }
				else if (used(p) - since[p] > hang_seconds || time(nullptr) - still[p] > 20 * hang_seconds)
				{
					kill(pid[p], SIGKILL);
					waitpid(pid[p], &st, 0);
					how = "hang";
				}
			}
			if (how)
			{
				any = true;
				++crashes[p]; ++t.crashes;
				FILE* f = std::fopen(name(p).c_str(), "a");
				// a partial line may precede
				std::fprintf(f, "\n%s\n", crash_record(*sh[p], how, sig).c_str());
				std::fclose(f);
				++sh[p]->emitted;
				sh[p]->index = sh[p]->index + procs;
				if (crashes[p] >= max_crashes) { pid[p] = -1; --running; } // enough is known
				else start(p);
			}
		}
		if (!any) usleep(2000);
	}
	FILE* f = std::fopen(out.c_str(), "a");
	for (unsigned p = 0; p < procs; ++p)
	{
		t.calls += sh[p]->done; t.emitted += sh[p]->emitted;
		FILE* g = std::fopen(name(p).c_str(), "r");
		if (g)
		{
			static char buf[1 << 16];
			std::size_t k;
			while ((k = std::fread(buf, 1, sizeof(buf), g)) > 0) std::fwrite(buf, 1, k, f);
			std::fclose(g);
			std::remove(name(p).c_str());
		}
		munmap(sh[p], sizeof(Shared));
	}
	std::fclose(f);
	return t;
}

inline std::vector<std::string> read_lines(const char* file)
{
	std::vector<std::string> r;
	FILE* f = std::fopen(file, "r");
	if (!f) { perror(file); std::exit(3); }
	std::string cur;
	int c;
	while ((c = std::fgetc(f)) != EOF)
	{
		if (c == '\n') { r.push_back(cur); cur.clear(); }
		else cur += static_cast<char>(c);
	}
	if (!cur.empty()) r.push_back(cur);
	std::fclose(f);
	return r;
}

inline void report(const Totals& t) { std::printf("CALLS %llu EMITTED %llu CRASHES %llu\n", (unsigned long long)t.calls, (unsigned long long)t.emitted, (unsigned long long)t.crashes); }
