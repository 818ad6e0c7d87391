// SOURCES:
// The cache against a reference that tracks which entries may and must survive.
#include "h.h"
#include <map>
#include <set>
#include <stdexcept>
#include <k52/common/cache.h>
using namespace h;
typedef k52::common::Cache<int, double> Cache;
struct Ref { double value; bool read; };
static const int KEYS = 9;
// the documented limit: bytes of a key plus a map element, times the number of entries, in megabytes
static double limit_for(double entries) { return entries * (sizeof(int) + sizeof(Cache::cache_map_type::value_type)) / 1048576.0; }
static void history(Rng& r, double entries, int len, int shape) {
    std::ostringstream log; log.precision(17);
    double limit = entries < 0 ? 1000 : limit_for(entries);
    log << "limit for " << entries << " entries:"; begin(log.str());
    Cache::shared_ptr c = Cache::Create(limit);
    if (!expect(c.get() != 0, "a positive limit gives a cache")) return;
    std::map<int, Ref> m;         // entries known to be cached
    double next = 1;
    for (int i = 0; i < len; ++i) {
        int k = r.in(0, KEYS - 1); int op = r.in(0, 9);
        if (shape == 1 && op < 4) op = 5; if (shape == 2) op = i < KEYS ? 5 : op;
        if (op < 3) {
            log << " cached?" << k; begin(log.str());
            bool has = m.count(k);
            if (!expect(c->IsCached(k) == has, "tells whether the key is cached")) return;
        } else if (op < 5) {
            log << " get" << k; begin(log.str());
            bool has = m.count(k); double got = 0; bool threw = false, other = false;
            try { got = c->GetCachedValue(k); } catch (const std::runtime_error&) { threw = true; } catch (...) { other = true; }
            if (!expect(!other && threw == !has, "reading throws exactly when nothing is stored")) return;
            if (has) { if (!expect(got == m[k].value, "reading gives the value stored last")) return; m[k].read = true; }
        } else {
            std::vector<Cache::CacheRecord> b; bool batch = op >= 8;
            int cnt = batch ? r.in(0, 4) : 1;
            if (batch) log << " addall{"; else log << " add";
            for (int j = 0; j < cnt; ++j) { int q = j == 0 ? k : r.in(0, KEYS - 1); b.push_back(Cache::CacheRecord(q, next)); log << q << "=" << next << (batch ? " " : ""); next += 1; }
            if (batch) log << "}"; begin(log.str());
            bool threw = false, other = false;
            try { if (batch) c->AddValues(b); else c->AddValue(b[0].key, b[0].value); } catch (const std::runtime_error&) { threw = true; } catch (...) { other = true; }
            if (!expect(!other, "only runtime_error is thrown")) return;
            if (threw && !expect(entries >= 0, "throws although the limit is not exceeded")) return;
            std::set<int> batchkeys; if (!threw) for (auto& x : b) batchkeys.insert(x.key);
            // survivors
            bool exceeded_possible = entries >= 0;
            for (int q = 0; q < KEYS; ++q) {
                if (batchkeys.count(q)) continue;
                bool now = c->IsCached(q);
                if (!m.count(q)) { if (!expect(!now, "a key becomes cached only by storing it")) return; continue; }
                if (!now) { if (!expect(exceeded_possible && !m[q].read, exceeded_possible ? "an entry that was read is not evicted" : "nothing is evicted within the limit")) return; m.erase(q); }
            }
            if (!threw) for (auto& x : b) { Ref f; f.value = x.value; f.read = false; m[x.key] = f; }
            for (auto& x : batchkeys) if (!expect(c->IsCached(x), "a stored key is cached")) return;
        }
    }
    begin(log.str() + " final reading of everything");
    for (int q = 0; q < KEYS; ++q) {
        bool has = m.count(q);
        if (!expect(c->IsCached(q) == has, "final: cached exactly the stored keys")) return;
        if (has) { double g = 0; if (!expect(no_throw([&] { g = c->GetCachedValue(q); }) && g == m[q].value, "final: stored value")) return; }
        else if (!expect(throws<std::runtime_error>([&] { c->GetCachedValue(q); }), "final: reading an absent key throws")) return;
    }
}
// eviction exactly when the limit is exceeded: entries beyond the limit and never read disappear at the next store
static void limit(int n, int readers) {
    begin("limit for " + str(n) + " entries, " + str(readers) + " of them read");
    Cache::shared_ptr c = Cache::Create(limit_for(n + 0.5));
    bool threw = false;
    for (int i = 0; i < n; ++i) { try { c->AddValue(i, i + 0.5); } catch (...) { threw = true; } }
    expect(!threw, "stores within the limit succeed");
    for (int i = 0; i < readers; ++i) c->GetCachedValue(i);
    try { c->AddValue(1000, 7); } catch (...) { threw = true; }
    expect(!threw && c->IsCached(1000), "the store that reaches the limit succeeds"); for (int i = 0; i < n; ++i) expect(c->IsCached(i), "nothing is evicted while the limit is not exceeded");
    // IsCached(1000..) may not add entries that count; now n+1 > limit
    threw = false; try { c->AddValue(1001, 8); } catch (const std::runtime_error&) { threw = true; }
    if (readers > n) return;
    if (readers == n) { expect(c->IsCached(1001) || threw, "store"); }
    if (!threw) { expect(c->IsCached(1001), "stored after eviction"); expect(!c->IsCached(1000), "entries never read are evicted beyond the limit"); }
    for (int i = 0; i < readers; ++i) { double g = 0; expect(no_throw([&] { g = c->GetCachedValue(i); }) && g == i + 0.5, "entries that were read survive unchanged"); }
    // all entries read and the limit exceeded: refuse
    Cache::shared_ptr d = Cache::Create(limit_for(n + 0.5));
    for (int i = 0; i <= n; ++i) { try { d->AddValue(i, i); d->GetCachedValue(i); } catch (...) { fail("store within the limit"); } }
    expect(throws<std::runtime_error>([&] { d->AddValue(5000, 1); }), "a store that still finds the limit exceeded throws");
    expect(throws<std::runtime_error>([&] { d->AddValues(std::vector<Cache::CacheRecord>(1, Cache::CacheRecord(5001, 1))); }), "a batch that still finds the limit exceeded throws");
    expect(!d->IsCached(5000) && !d->IsCached(5001), "a refused store stores nothing");
}
int main(int c, char** v) {
    start(c, v); Rng r(seed);
    for (double l : {0.0, -1.0, -1e-9, -1000.0}) { begin("Create(" + str(l) + ")"); expect(Cache::Create(l).get() == 0, "no cache for a limit that is not positive"); }
    for (double l : {1e-300, 1e-6, 1.0, 1e9}) { begin("Create(" + str(l) + ")"); expect(Cache::Create(l).get() != 0, "a cache for a positive limit"); }
    int n = thorough ? 20000 : 3000;
    for (int i = 0; i < n; ++i) history(r, -1, r.in(1, 60), i % 3);
    for (int i = 0; i < n; ++i) history(r, r.in(0, 8) + 0.5, r.in(1, 60), i % 3);
    for (int i = 1; i < 12; ++i) for (int k = 0; k <= i; ++k) limit(i, k);
    return done();
}
