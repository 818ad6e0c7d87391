// SOURCES: src/dsp/akima_spline.cpp
#include "h.h"
#include <stdexcept>
#include <k52/dsp/akima_spline.h>
using namespace h; using k52::dsp::AkimaSpline;
typedef std::vector<double> V;
struct Ref {
    V x, y, m, s;
    Ref(const V& x_, const V& y_) : x(x_), y(y_) {
        size_t n = x.size(); m.resize(n + 3); s.resize(n);
        for (size_t j = 0; j + 1 < n; ++j) m[j + 2] = (y[j + 1] - y[j]) / (x[j + 1] - x[j]);
        m[0] = 3 * m[2] - 2 * m[3]; m[1] = 2 * m[2] - m[3]; m[n + 1] = 2 * m[n] - m[n - 1]; m[n + 2] = 3 * m[n] - 2 * m[n - 1];
        for (size_t i = 0; i < n; ++i) {
            double a = std::fabs(m[i + 3] - m[i + 2]), b = std::fabs(m[i + 1] - m[i]);
            s[i] = a + b == 0 ? (m[i + 1] + m[i + 2]) / 2 : (m[i + 1] * a + m[i + 2] * b) / (a + b);
        }
    }
    double at(double t) const {
        size_t i = 0, n = x.size(); while (i + 2 < n && t >= x[i + 1]) ++i;
        double h = x[i + 1] - x[i], u = (t - x[i]) / h;
        return (1 + 2 * u) * (1 - u) * (1 - u) * y[i] + u * (1 - u) * (1 - u) * h * s[i] + u * u * (3 - 2 * u) * y[i + 1] + u * u * (u - 1) * h * s[i + 1];
    }
};
static bool value(const AkimaSpline::shared_ptr& p, double t, double& out) { try { out = p->Value(t); return true; } catch (const std::out_of_range&) { return false; } }
static void compare(const AkimaSpline::shared_ptr& p, const V& x, const V& y, Rng& r) {
    Ref f(x, y); double v = 0; size_t n = x.size();
    double scale = 1e-250; for (double t : y) scale = std::max(scale, std::fabs(t));
    for (size_t i = 0; i < n; ++i) {
        if (!expect(value(p, x[i], v) && std::fabs(v - y[i]) <= 1e-8 * scale, "passes through point " + str(i))) return;
        if (i + 1 == n) break;
        double h = x[i + 1] - x[i], ts[] = {x[i] + h / 2, x[i] + h * r.unit(), x[i] + h * 1e-6, x[i + 1] - h * 1e-6, std::nextafter(x[i + 1], x[i])};
        for (double t : ts) if (t >= x[i] && t <= x[i + 1]) if (!expect(value(p, t, v) && std::fabs(v - f.at(t)) <= 1e-7 * scale, "value at " + str(t))) return;
    }
    double h = x[n - 1] - x[0];
    double outs[] = {std::nextafter(x[0], -1e300), x[0] - h, x[0] - 1e9, std::nextafter(x[n - 1], 1e300), x[n - 1] + h, x[n - 1] + 1e9};
    for (double t : outs) if (!expect(throws<std::out_of_range>([&] { p->Value(t); }), "refuses " + str(t))) return;
}
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    { begin("not trained"); AkimaSpline::shared_ptr p = AkimaSpline::Create(); for (double t : {-1.0, 0.0, 1.0}) expect(throws<std::out_of_range>([&] { p->Value(t); }), "refuses every argument"); }
    for (int k = 0; k < (thorough ? 6000 : 1500); ++k) {
        AkimaSpline::shared_ptr p = AkimaSpline::Create();
        for (int round = r.in(1, 3); round--;) {
            int n = k % 40 == 0 ? r.in(30, 200) : r.in(5, 12), kind = r.in(0, 5); V x(n), y(n); double t = r.real(-20, 20);
            for (int i = 0; i < n; ++i) {
                x[i] = kind == 0 ? i - n / 2 : t; t += kind == 1 ? 1 : r.real(0.05, 3);
                y[i] = kind == 2 ? r.in(-2, 2) : kind == 3 ? (i < n / 2 ? 0 : 2 * x[i]) : kind == 4 ? 3 * x[i] - 1 : r.real(-10, 10);
            }
            if (kind == 5) for (int i = 0; i < n; ++i) y[i] = i < n / 2 ? x[i] : -2 * x[i] + 1;
            if (k % 5 == 4) { double unit = std::ldexp(1.0, r.in(-60, 40)); for (double& t : y) t *= unit; }   // other units
            begin("x=" + str(x) + " y=" + str(y)); p->Initialize(x, y); compare(p, x, y, r);
            // a refused training changes nothing
            V bx(r.in(0, 4)), by(r.in(0, 7)); for (size_t i = 0; i < bx.size(); ++i) bx[i] = i;
            expect(throws<std::invalid_argument>([&] { p->Initialize(bx, by); }), "few points are refused"); 
            V longer(y); longer.push_back(0);
            expect(throws<std::invalid_argument>([&] { p->Initialize(x, longer); }), "unequal sizes are refused");
            expect(throws<std::invalid_argument>([&] { p->Initialize(x, by.size() < 5 ? by : V(4)); }), "few values are refused");
            compare(p, x, y, r);
        }
    }
    return done();
}
