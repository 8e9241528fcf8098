// Conversions under the memory sanitizer: uninit SEED CALLS OUT
// Neither the library nor what it returns may depend on memory nobody has written
// to.  (No C++ strings here, nor anything else of a library which isn't
// instrumented.)
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <sanitizer/msan_interface.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>

typedef unsigned long long u64;
static u64 state;
static u64 next() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }
static u64 below(u64 n) { return next() % n; }

struct Shared { u64 calls; bool print, wide, single; u64 value; std::size_t n; char s[4096]; };
static Shared* now;
static const char* out;

static void record(const char* op)
{
	FILE* const f = std::fopen(out, "w");
	if (!f) return;
	std::fprintf(f, "{\"op\":\"%s\",\"t\":1,\"what\":\"%s\",\"wide\":%s,\"float\":%s", op, now->print ? "ftoa" : "atof", now->wide ? "true" : "false", now->single ? "true" : "false");
	if (now->print) std::fprintf(f, ",\"bits\":\"%llx\"}\n", now->value);
	else
	{
		std::fprintf(f, ",\"codes\":[");
		for (std::size_t i = 0; i < now->n && i < 300; ++i) std::fprintf(f, "%s%d", i ? "," : "", static_cast<unsigned char>(now->s[i]));
		std::fprintf(f, "]}\n");
	}
	std::fclose(f);
}

static void reported() { record("uninitialised"); _exit(3); }

template<typename V> void known(const V& v) { __msan_check_mem_is_initialized(&v, sizeof(v)); }

template<typename T, typename Ch> T other(const Ch*, Ch** end) { if (end) *end = nullptr; if (now->calls & 1) errno = ERANGE; return T(0); }
template<typename T, typename Ch> T nested(const Ch* s, Ch** end) { if (end) *end = const_cast<Ch*>(s); return floaxie::atof<T>(s + 1, nullptr, other<T, Ch>).value; }

template<typename T, typename Ch> __attribute__((noinline)) void parse(const char* s, std::size_t n)
{
	now->print = false; now->wide = sizeof(Ch) > 1; now->single = sizeof(T) == 4; now->n = n;
	std::memcpy(now->s, s, n);
	Ch* const b = static_cast<Ch*>(std::malloc((n + 1) * sizeof(Ch)));
	for (std::size_t i = 0; i < n; ++i) b[i] = static_cast<Ch>(static_cast<unsigned char>(s[i]));
	b[n] = 0;
	const Ch* const c = b;
	Ch* e;
	errno = 0;
	{ const auto r = floaxie::atof<T>(c, &e); known(r.value); known(r.status); known(e); }
	known(errno);
	{ const auto r = floaxie::atof<T>(c, nullptr); known(r.value); known(r.status); }
	{ const auto r = floaxie::atof<T>(c, &e, other<T, Ch>); known(r.value); known(r.status); known(e); }
	{ const auto r = floaxie::atof<T>(c, nullptr, nested<T, Ch>); const T v = r; known(v); known(r.status); }
	now->calls += 4;
	std::free(b);
}

template<typename T, typename Ch> __attribute__((noinline)) void print(T v)
{
	now->print = true; now->wide = sizeof(Ch) > 1; now->single = sizeof(T) == 4; now->value = 0;
	std::memcpy(&now->value, &v, sizeof(v));
	Ch* const b = static_cast<Ch*>(std::malloc(floaxie::max_buffer_size<T>() * sizeof(Ch)));
	const std::size_t n = floaxie::ftoa(v, b);
	known(n);
	__msan_check_mem_is_initialized(b, (n + 1) * sizeof(Ch));
	++now->calls;
	std::free(b);
}

static void parse_all(const char* s, std::size_t n)
{
	switch (below(4))
	{
	case 0: parse<double, char>(s, n); break;
	case 1: parse<float, char>(s, n); break;
	case 2: parse<double, wchar_t>(s, n); break;
	default: parse<float, wchar_t>(s, n);
	}
}

static void print_all(u64 b)
{
	double d;
	std::memcpy(&d, &b, 8);
	const unsigned h = static_cast<unsigned>(b >> 32);
	float f;
	std::memcpy(&f, &h, 4);
	switch (below(4))
	{
	case 0: print<double, char>(d); break;
	case 1: print<float, char>(f); break;
	case 2: print<double, wchar_t>(d); break;
	default: print<float, char16_t>(f);
	}
}

static void run(u64 calls)
{
	for (u64 e = 0; e < 4096; ++e) // every exponent, with the plainest significands
		for (u64 m : { 0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0x20000000ull }) { print_all(e << 52 | m); print_all((e & 0x1ff) << 55 | m << 3); }
	static const char* const words[] = { "infinity", "nan(a_1)", "-inf", "+nan", "1.5e-7", "-.e1", "0.e+5", "1e99999", "-1e-99999", "9007199254740993", "2.4703282292062327e-324", "1.7976931348623159e308", "16777217",
		"7.0064923e-46", "3.40282357e38" };
	char s[4096];
	for (const char* w : words)
		for (std::size_t n = 0; n <= std::strlen(w); ++n)
			for (int c = 0; c < 40; ++c)
			{
				std::memcpy(s, w, n);
				s[n] = "\0()e+-.019iInNaAfFtTyYx_ \t@`{/:[E5\1\177\200\377z"[c];
				parse_all(s, n + (s[n] != 0));
			}
	static const char letters[] = "-.e05Einfa(_) +";
	for (unsigned c = 0; c < 15 * 15 * 15 * 15; ++c)
	{
		unsigned r = c;
		for (int i = 0; i < 4; ++i, r /= 15) s[i] = letters[r % 15];
		parse_all(s, 4);
	}
	while (now->calls < calls)
	{
		u64 b = next();
		if (b & 1) b &= ~0ull << (b >> 1 & 63);
		print_all(b);
		std::size_t n = 0;
		if (next() & 1) s[n++] = '-';
		const std::size_t len = 1 + below(below(40) ? 45 : 2100), dot = below(50);
		for (std::size_t i = 0; i < len; ++i) { if (i == dot) s[n++] = '.'; s[n++] = static_cast<char>('0' + (below(4) ? below(10) : 0)); }
		if (below(3)) { s[n++] = 'e'; if (next() & 1) s[n++] = '-'; u64 e = below(700); if (e > 99) s[n++] = static_cast<char>('0' + e / 100); s[n++] = static_cast<char>('0' + e / 10 % 10); s[n++] = static_cast<char>('0' + e % 10); }
		parse_all(s, n);
	}
}

int main(int argc, char** argv)
{
	if (argc < 4) return 2;
	state = std::strtoull(argv[1], nullptr, 10) * 2654435761u + 88172645463325252ull;
	out = argv[3];
	std::fclose(std::fopen(out, "w"));
	now = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	const pid_t c = fork();
	if (c == 0)
	{
		alarm(400);
		__msan_set_death_callback(reported);
		run(std::strtoull(argv[2], nullptr, 10));
		_exit(0);
	}
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
	const bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0, told = WIFEXITED(st) && WEXITSTATUS(st) == 3;
	if (!clean && !told) record("crash");
	std::printf("CALLS %llu EMITTED %d CRASHES %d\n", now->calls, clean ? 0 : 1, clean ? 0 : 1);
	return 0;
}
