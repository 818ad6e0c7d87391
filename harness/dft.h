#pragma once
#include "h.h"
namespace h {
inline cx root(int64_t k, int64_t N) { k %= N; if (k < 0) k += N; long double a = -2 * 3.14159265358979323846264338327950288L * k / N; return cx((double)cosl(a), (double)sinl(a)); }
inline std::vector<cx> dft(const std::vector<cx>& x) {
    int64_t N = x.size(); std::vector<cx> y(N), w(N); for (int64_t k = 0; k < N; ++k) w[k] = root(k, N);
    for (int64_t k = 0; k < N; ++k) { std::complex<long double> s = 0; for (int64_t n = 0; n < N; ++n) s += std::complex<long double>(x[n]) * std::complex<long double>(w[k * n % N]); y[k] = cx(s); }
    return y;
}
inline std::vector<cx> idft(const std::vector<cx>& x) { std::vector<cx> c = x; for (cx& z : c) z = std::conj(z); c = dft(c); for (cx& z : c) z = std::conj(z) / (double)x.size(); return c; }
inline bool same(const std::vector<cx>& a, const std::vector<cx>& b, double tol = 1e-8) {
    if (a.size() != b.size()) return false; double m = 0; for (const cx& z : b) m = std::max(m, std::abs(z));
    for (size_t i = 0; i < a.size(); ++i) if (!(std::abs(a[i] - b[i]) <= tol * (1 + m))) return false; return true;
}
inline std::vector<cx> conv(const std::vector<cx>& a, const std::vector<cx>& b) { size_t N = a.size(); std::vector<cx> y(N); for (size_t n = 0; n < N; ++n) for (size_t m = 0; m < N; ++m) y[n] += a[m] * b[(n + N - m) % N]; return y; }
}
