// helpers of the demonstrations
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <limits>
#include <random>
#include <thread>
#include <vector>
#include <atomic>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <floaxie/print.h>
using namespace floaxie;
static inline double d_of(std::uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
static inline float f_of(std::uint32_t b) { float d; std::memcpy(&d, &b, 4); return d; }
static inline std::uint64_t bits(double d) { std::uint64_t b; std::memcpy(&b, &d, 8); return b; }
static inline std::uint32_t bits(float d) { std::uint32_t b; std::memcpy(&b, &d, 4); return b; }
static inline std::string text(double d) { char b[128] = {}; ftoa(d, b); return b; }
static inline std::string text(float d) { char b[128] = {}; ftoa(d, b); return b; }
#define FAIL(...) do { std::printf(__VA_ARGS__); std::printf("\n"); return 1; } while (0)
