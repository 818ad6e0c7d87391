// SOURCES: src/common/*.cpp
#include "h.h"
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
using namespace h; using k52::common::FloatingPoint; using k52::common::Helpers;
static void pair(double x, double y) {
    begin("AreEqual(" + str(x) + ", " + str(y) + ")");
    double d = std::fabs(x - y);
    if (std::fabs(d - 1e-10) < 1e-24) return;      // too close to the threshold for rounding
    expect(FloatingPoint::AreEqual(x, y) == (d < 1e-10), "tolerant comparison");
    expect(FloatingPoint::AreEqual(y, x) == (d < 1e-10), "tolerant comparison (swapped)");
}
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    const double ds[] = {0, 1e-300, 1e-15, 1e-12, 9e-11, 9.9e-11, 0.9999e-10, 1.0001e-10, 1.1e-10, 2e-10, 1e-9, 1e-5, 0.5, 1, 1e5, 1e300};
    const double xs[] = {0, 1, -1, 1e-10, -1e-10, 3.5e-6, 12345.678, -0.001, 1e-200, 1000};
    for (double d : ds) for (double x : xs) { pair(x, x + d); pair(x, x - d); }
    for (double d : ds) for (int s = -1; s <= 1; s += 2) { double x = s * d; begin("IsZero(" + str(x) + ")"); expect(FloatingPoint::IsZero(x) == (std::fabs(x) < 1e-10), "zero test"); }
    int n = thorough ? 20000 : 3000;
    for (int i = 0; i < n; ++i) { double x = r.real(-3, 3); pair(x, x + r.real(-2e-10, 2e-10)); pair(x, r.real(-3, 3)); }
    for (int len = 0; len < (thorough ? 300 : 130); ++len) {
        std::vector<double> a(len); for (double& x : a) x = r.real(-5, 5);
        std::vector<double> b = a; for (double& x : b) x += r.real(-5e-11, 5e-11);
        begin("AreEqual of vectors of length " + str(len)); expect(FloatingPoint::AreEqual(a, b), "equal vectors");
        for (int p = 0; p < len; ++p) for (int s = -1; s <= 1; s += 2) { std::vector<double> w = b; w[p] = a[p] + s * (p % 3 ? 1.2e-10 : 1e3); begin("AreEqual of vectors of length " + str(len) + " differing at " + str(p)); expect(!FloatingPoint::AreEqual(a, w) && !FloatingPoint::AreEqual(w, a), "different vectors"); }
        std::vector<double> l = a; l.push_back(0); begin("AreEqual of lengths " + str(len) + " and one more"); expect(!FloatingPoint::AreEqual(a, l) && !FloatingPoint::AreEqual(l, a), "different lengths");
        std::vector<cx> z(len); for (cx& x : z) x = r.c(); if (len > 2) { z[0] = cx(0, 1e-300); z[1] = cx(-3, 0); z[2] = 0; }
        std::vector<cx> z0 = z; begin("Conjugate of length " + str(len)); std::vector<cx> q = Helpers::Conjugate(z);
        bool ok = q.size() == z.size() && z == z0; for (size_t i = 0; ok && i < z.size(); ++i) ok = q[i] == std::conj(z0[i]); expect(ok, "conjugate");
    }
    return done();
}
