// SOURCES:
// LIBS: -lboost_thread -lboost_system -lpthread
// FLAGS: -fsanitize=thread
#include "h.h"
#include <deque>
#include <thread>
#include <atomic>
#include <mutex>
#include <chrono>
#include <memory>
#include <parallel/thread/thread_safe_queue.h>
using namespace h; using k52::parallel::thread::ThreadSafeQueue;
struct Item { int who, n; Item(int w = -1, int k = -1) : who(w), n(k) {} };
static std::atomic<long> beat(0);
static void watchdog() { long last = -1; int still = 0; for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); long b = beat; still = b == last ? still + 1 : 0; last = b; if (still >= 20) { fail("an operation never ends"); done(); fflush(stdout); _exit(0); } } }
int main(int c, char** a) {
    start(c, a); Rng r(seed);
    std::thread(watchdog).detach();
    // one thread: the queue against a reference queue
    for (int k = 0; k < (thorough ? 4000 : 800); ++k) {
        ThreadSafeQueue<Item> q; std::deque<Item> ref; std::string ops; int n = 0;
        const ThreadSafeQueue<Item>& cq = q;
        for (int s = 0; s < 30; ++s) {
            ++beat; int op = r.in(0, 3); ops += "puwe"[op]; begin("operations " + ops + " (p: push, u: try pop, w: wait and pop, e: is empty)");
            Item got(7, 7);
            if (op == 0) { Item e(0, n++); q.Push(e); ref.push_back(e); }
            if (op == 1) { bool ok = q.TryPop(got); if (!expect(ok == !ref.empty(), "try pop reports failure exactly when empty")) break;
                if (ok) { if (!expect(got.n == ref.front().n && got.who == 0, "the oldest element")) break; ref.pop_front(); } else if (!expect(got.n == 7 && got.who == 7, "output untouched")) break; }
            if (op == 2) { if (ref.empty()) continue; q.WaitAndPop(got); if (!expect(got.n == ref.front().n && got.who == 0, "the oldest element")) break; ref.pop_front(); }
            if (op == 3 && !expect(cq.IsEmpty() == ref.empty(), "is empty")) break;
        }
    }
    // several threads: every element exactly once, per producer in order, no consumer left waiting
    for (int k = 0; k < (thorough ? 300 : 60); ++k) {
        int P = r.in(1, 4), C = r.in(1, 5), per = r.in(1, 120), mode = r.in(0, 2);
        begin("threads: " + str(P) + " producers, " + str(C) + " consumers, " + str(per) + " elements each, mode " + str(mode) + " (0: waiting, 1: trying, 2: both)");
        ThreadSafeQueue<Item> q; std::vector<std::vector<Item> > got(C); std::vector<std::thread> ts; std::atomic<int> left(P * per); std::atomic<bool> bad(false);
        for (int i = 0; i < C; ++i) ts.push_back(std::thread([&, i] {
            while (left.fetch_sub(1) > 0) {   // one element is now this consumer's to take
                ++beat; Item x(7, 7);
                if (mode == 0 || (mode == 2 && i % 2)) { q.WaitAndPop(x); got[i].push_back(x); continue; }
                while (!q.TryPop(x)) { if (x.n != 7) bad = true; (void)q.IsEmpty(); std::this_thread::yield(); }
                got[i].push_back(x);
            }
        }));
        std::atomic<bool> over(false); std::thread looker([&] { const ThreadSafeQueue<Item>& cq = q; while (!over) (void)cq.IsEmpty(); });
        std::this_thread::yield();
        for (int p = 0; p < P; ++p) ts.push_back(std::thread([&, p] { for (int i = 0; i < per; ++i) { ++beat; q.Push(Item(p, i)); if (i % 7 == 3) std::this_thread::yield(); } }));
        for (size_t i = 0; i < ts.size(); ++i) ts[i].join();
        over = true; looker.join();
        expect(!bad, "a failed pop leaves the output untouched");
        std::vector<std::vector<int> > seen(P, std::vector<int>(per, 0)); bool order = true, range = true;
        for (int i = 0; i < C; ++i) { std::vector<int> last(P, -1); for (size_t j = 0; j < got[i].size(); ++j) { Item& x = got[i][j]; if (x.who < 0 || x.who >= P || x.n < 0 || x.n >= per) { range = false; continue; } if (x.n <= last[x.who]) order = false; last[x.who] = x.n; seen[x.who][x.n]++; } }
        bool once = true; for (auto& v : seen) for (int x : v) if (x != 1) once = false;
        expect(range, "elements unchanged"); expect(once, "every element exactly once"); expect(order, "per producer in order"); expect(q.IsEmpty(), "empty in the end");
    }
    return done();
}
