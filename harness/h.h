// Replay harness support: deterministic random source, case tracking and reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <vector>
#include <string>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <stdint.h>
#include <iostream>
namespace h {
typedef std::complex<double> cx;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int in(int a, int b) { return a + (int)(next() % (uint64_t)((int64_t)b - a + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + unit() * (b - a); }
    bool flip() { return next() & 1; }
    cx c(double m = 10) { double a = real(-m, m), b = real(-m, m); uint64_t z = next() % 16; return cx(z == 1 ? 0 : a, z == 2 ? 0 : b); }   // purely real and imaginary ones too
};
static long cases = 0, fails = 0; static bool thorough = false; static uint64_t seed = 1;
static std::string current;
static int case_fd = -1;
inline void start(int argc, char** argv) {
    thorough = argc > 1 && !strcmp(argv[1], "thorough"); if (argc > 2) seed = strtoull(argv[2], 0, 10);
    const char* p = getenv("K52_CASE"); if (p) case_fd = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0600);
    // the code under test may print; keep reports on their own stream
    std::cout.setstate(std::ios_base::failbit);
}
inline void begin(const std::string& s) {
    ++cases; current = s;
    if (case_fd >= 0) { if (ftruncate(case_fd, 0)) {} ssize_t r = pwrite(case_fd, s.data(), s.size() < 4000 ? s.size() : 4000, 0); (void)r; }
}
inline void fail(const std::string& what) { if (++fails <= 20) printf("FAIL %s: %s\n", what.c_str(), current.c_str()); fflush(stdout); }
inline bool expect(bool ok, const std::string& what) { if (!ok) fail(what); return ok; }
inline int done() { printf("CASES %ld\n", cases); fflush(stdout); return 0; }
template <class T> std::string str(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <class T> std::string str(const std::vector<T>& v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? " " : "") << v[i]; if (v.size() > 40) o << " ..."; o << "]"; return o.str(); }
inline bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
inline bool near(cx a, cx b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }
template <class E, class F> bool throws(F f) { try { f(); } catch (const E&) { return true; } catch (...) { return false; } return false; }
template <class F> bool no_throw(F f) { try { f(); } catch (...) { return false; } return true; }
}
