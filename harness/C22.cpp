// SOURCES: src/common/random.cpp
#include "h.h"
#include <stdexcept>
#include <climits>
#include <k52/common/random.h>
using namespace h; using k52::common::Random;
// the random source under control: scripted draws first, then a deterministic sequence
static std::vector<int> script; static size_t at = 0; static long draws = 0; static std::vector<int> seen; static Rng source(7);
extern "C" int rand() throw() { ++draws; int v = at < script.size() ? script[at++] : (int)(source.next() & 0x7fffffff); seen.push_back(v); return v; }
static void give(std::vector<int> v) { script = v; at = 0; }
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    Random& q = Random::Instance();
    if (&q != &Random::Instance()) { begin("instance"); fail("one instance"); }
    // random bits: 31 of each draw, lowest first
    begin("bits"); long d0 = draws; if (!expect(draws == 1, "one draw when created")) return done();
    int cur = seen.back(), pos = 0;
    for (int i = 0; i < (thorough ? 400000 : 20000); ++i) {
        begin("random bool " + str(i) + " of the sequence"); if (i % 100 == 0) { int s[] = {0, INT_MAX, 1, 1 << 30, 0x55555555, 0x2aaaaaaa}; give(std::vector<int>(1, s[(i / 100) % 6])); }
        long before = draws; bool b = q.GetRandomBool();
        if (pos == 31) { if (!expect(draws == before + 1, "a new draw when all bits are used")) break; cur = seen.back(); pos = 0; }
        else if (!expect(draws == before, "no draw while bits are left")) break;
        if (!expect(b == (((unsigned)cur >> pos & 1) == 0), "bit " + str(pos) + " of the draw")) break;
        ++pos;
        if (i % 50 == 7) { q.GetBaseRandomQuantity(); q.GetUniformlyDistributedDiscreteRandomQuantity(0, 3); }
    }
    (void)d0;
    int ds[] = {0, 1, 2, INT_MAX, INT_MAX - 1, 1 << 30, 12345, 99999999};
    for (int k = 0; k < 20000; ++k) {
        int v = k < 8 ? ds[k] : (int)(r.next() & 0x7fffffff);
        begin("draw " + str(v)); give(std::vector<int>(1, v)); long b = draws; double x = q.GetBaseRandomQuantity();
        expect(x >= 0 && x <= 1 && near(x, v / 2147483647.0, 1e-14) && draws == b + 1, "base quantity");
        double lo = r.real(-100, 100), hi = lo + (k % 9 ? r.real(0, 50) : 0); give(std::vector<int>(1, v)); b = draws; x = q.GetContinuousRandomQuantity(lo, hi);
        expect(x >= lo - 1e-9 && x <= hi + 1e-9 && near(x, lo + v / 2147483647.0 * (hi - lo), 1e-12) && draws == b + 1, "continuous quantity in [" + str(lo) + ", " + str(hi) + "]");
        int l = k % 11 == 0 ? 0 : k % 11 == 1 ? INT_MIN + r.in(0, 3) : r.in(-1000, 1000), span = k % 11 == 0 ? INT_MAX : k % 11 < 3 ? r.in(1, INT_MAX) : k % 11 == 3 ? 1 : r.in(1, 100);
        give(std::vector<int>(1, v)); b = draws; long u = (long)l + span - 1; int y = q.GetUniformlyDistributedDiscreteRandomQuantity(l, (int)u);
        expect(y >= l && y <= u && draws == b + 1, "discrete quantity in [" + str(l) + ", " + str(u) + "]");
        double p = k % 7 == 0 ? 0 : k % 7 == 1 ? 1 : k % 7 == 2 ? v / 2147483647.0 : r.unit(); give(std::vector<int>(1, v)); b = draws;
        bool e = q.CheckEventOutcome(p); expect(e == (v / 2147483647.0 <= p) && draws == b + 1, "event of probability " + str(p));
        double bad = r.flip() ? -r.real(1e-12, 3) : 1 + r.real(1e-12, 3); expect(throws<std::invalid_argument>([&] { q.CheckEventOutcome(bad); }) && throws<std::invalid_argument>([&] { Random::ValidateProbability(bad); }), "probability " + str(bad) + " refused");
        expect(no_throw([&] { Random::ValidateProbability(p); }), "probability accepted");
    }
    for (int lo = -6; lo < 6; ++lo) for (int hi = lo; hi < 8; ++hi) {
        begin("discrete interval [" + str(lo) + ", " + str(hi) + "]"); std::vector<char> hit(hi - lo + 1); give(std::vector<int>());
        for (int i = 0; i < 3000; ++i) { int y = q.GetUniformlyDistributedDiscreteRandomQuantity(lo, hi); if (!expect(y >= lo && y <= hi, "in the interval")) break; hit[y - lo] = 1; }
        for (size_t i = 0; i < hit.size(); ++i) if (!expect(hit[i], "every value is reached")) break;
    }
    for (int k = 0; k < 3000; ++k) {
        double lo = r.real(-100, 100), hi = lo + (k % 5 ? r.real(0, 50) : 0); size_t n = k % 13 == 0 ? 0 : r.in(0, 30); std::vector<int> s; for (size_t i = 0; i < n; ++i) s.push_back(r.flip() ? 0 : INT_MAX);
        if (k % 2) give(s); begin("vector of " + str(n) + " in [" + str(lo) + ", " + str(hi) + "]"); std::vector<double> v = q.GenerateRandomVector(n, lo, hi);
        if (!expect(v.size() == n, "requested size")) continue;
        for (size_t i = 0; i < n; ++i) if (!expect(v[i] >= lo - 1e-9 && v[i] <= hi + 1e-9, "element " + str(i))) break;
    }
    return done();
}
