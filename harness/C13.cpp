// SOURCES: src/parallel/*.cpp src/parallel/thread/*.cpp src/common/*.cpp
// LIBS: -lboost_thread -lboost_system -lpthread
#include "h.h"
#include <atomic>
#include <map>
#include <algorithm>
#include <thread>
#include <chrono>
#include <queue>
#include <iostream>
#include <unistd.h>
#include <boost/thread.hpp>
#include <k52/parallel/worker_pool_factory.h>
#include <parallel/sequential_worker_pool.h>
#include <parallel/statistics_aggregator.h>
#include <parallel/thread/thread_worker_pool.h>
#include <parallel/thread/thread_worker_pool_templated.h>
using namespace h; using namespace k52::parallel; using namespace k52::parallel::thread;
static std::atomic<long> beat(0);
static void watchdog() { long last = -1; int still = 0; for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); long b = beat; still = b == last ? still + 1 : 0; last = b; if (still >= 20) { fail("an operation never ends"); done(); fflush(stdout); _exit(0); } } }
struct Quiet : std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
struct Res : public ITaskResult { int of; explicit Res(int i) : of(i) {} };
struct Task : public ITask {
    int id, wait, kind; mutable std::atomic<int> times; Task(int i, int w, int k) : id(i), wait(w), kind(k), times(0) {}
    ITaskResult* Perform() const { ++times; ++beat; if (wait) std::this_thread::sleep_for(std::chrono::microseconds(wait)); if (kind == 1) throw std::runtime_error("task fails"); if (kind == 2) throw 5; return new Res(id); }
};
typedef std::vector<ITaskResult::shared_ptr> R; typedef std::vector<const ITask*> Ts;
struct Batch { std::vector<Task*> own; Ts t; int bad;
    Batch(Rng& r, int m, bool fails, bool only_std) : bad(0) { int slow = r.in(0, 2); for (int i = 0; i < m; ++i) { int k = fails && r.in(0, 3) == 0 ? (only_std ? 1 : r.in(1, 2)) : 0; bad += k != 0; own.push_back(new Task(i, slow == 0 ? 0 : slow == 1 ? r.in(0, 60) : (i == 0 ? 400 : 0), k)); t.push_back(own.back()); } }
    ~Batch() { for (size_t i = 0; i < own.size(); ++i) delete own[i]; }
    bool once() const { for (size_t i = 0; i < own.size(); ++i) if (own[i]->times != 1) return false; return true; }
    bool good(const R& x) const { if (x.size() != own.size()) return false; for (size_t i = 0; i < x.size(); ++i) { Res* s = dynamic_cast<Res*>(x[i].get()); if (!s || s->of != (int)i) return false; } return true; } };
static int amount(Rng& r) { int w = r.in(0, 5); return w == 0 ? 0 : w == 1 ? 1 : w == 2 ? r.in(100, 400) : r.in(2, 30); }
struct Bare { static std::atomic<int> runs; std::atomic<int>* n; bool bad; Bare() : n(0), bad(false) {} Bare(std::atomic<int>* p, bool b) : n(p), bad(b) {} void DoTask() { ++*n; ++beat; if (bad) throw std::runtime_error("bad"); } };
int main(int c, char** a) {
    start(c, a); Rng r(seed); Quiet quiet; std::streambuf* out = std::cout.rdbuf(&quiet); std::thread(watchdog).detach();
    for (int w = -3; w <= 0; ++w) { begin("pool of " + str(w) + " workers"); expect(throws<std::invalid_argument>([&] { ThreadWorkerPoolTemplated<Bare> p(w); }), "refused"); }
    // any number of workers, used again and again
    for (int k = 0; k < (thorough ? 300 : 60); ++k) {
        int w = k < 9 ? k + 1 : r.in(1, 12); begin("pool of " + str(w) + " workers, round " + str(k)); ThreadWorkerPoolTemplated<Bare> p(w); expect(p.get_number_of_workers() == w, "number of workers");
        for (int u = 0, us = r.in(0, 6); u < us; ++u) {
            ++beat; int m = amount(r); bool bad = r.flip(); begin("pool of " + str(w) + " workers, use " + str(u) + " with " + str(m) + " tasks" + (bad ? ", some fail" : ""));
            std::vector<std::atomic<int> > n(m); for (int i = 0; i < m; ++i) n[i] = 0; std::queue<Bare> q; for (int i = 0; i < m; ++i) q.push(Bare(&n[i], bad && r.flip()));
            p.DoTasks(q); bool once = true; for (int i = 0; i < m; ++i) once = once && n[i] == 1; if (!expect(once, "every task is over, performed once")) return done();
        }
    }
    // the pools of the interface
    for (int k = 0; k < (thorough ? 60 : 16); ++k) {
        begin("thread pool " + str(k)); ThreadWorkerPool p; if (!p.IsValid()) { Batch b(r, 2, false, true); expect(throws<std::runtime_error>([&] { p.DoTasks(b.t); }), "too few workers refused"); continue; }
        for (int u = 0, us = r.in(1, 12); u < us; ++u) {
            ++beat; Batch b(r, amount(r), r.in(0, 2) == 0, false); begin("thread pool " + str(k) + ", use " + str(u) + " with " + str(b.t.size()) + " tasks, " + str(b.bad) + " fail"); R got; bool thrown = false;
            try { got = p.DoTasks(b.t); } catch (const std::runtime_error&) { thrown = true; }
            expect(thrown == (b.bad > 0), "fails exactly when a task fails"); expect(b.once(), "every task performed once"); if (!thrown) expect(b.good(got), "result i is the one of task i");
        }
        { begin("thread pool " + str(k) + ", some tasks given more than once"); ++beat; Batch b(r, r.in(1, 6), false, true); Ts t; std::vector<int> of; for (int i = 0, m = r.in(2, 20); i < m; ++i) { of.push_back(r.in(0, (int)b.own.size() - 1)); t.push_back(b.own[of.back()]); }
          R got = p.DoTasks(t); expect(got.size() == t.size(), "a result for every task"); for (size_t i = 0; i < got.size(); ++i) { Res* s = dynamic_cast<Res*>(got[i].get()); expect(s && s->of == of[i], "result i is the one of task i"); for (size_t j = 0; j < i; ++j) expect(got[i] != got[j], "a result of its own"); }
          for (size_t i = 0; i < b.own.size(); ++i) expect(b.own[i]->times == (int)std::count(of.begin(), of.end(), (int)i), "every task performed once each time it is given"); }
        expect(throws<std::logic_error>([&] { p.GetStatistics(); }), "no statistics");
    }
    for (int k = 0; k < (thorough ? 400 : 100); ++k) {
        begin("sequential pool " + str(k)); SequentialWorkerPool p; expect(p.IsValid(), "valid"); int total = 0;
        for (int u = 0, us = r.in(1, 6); u < us; ++u) {
            ++beat; Batch b(r, r.in(0, 12), r.in(0, 3) == 0, true); begin("sequential pool " + str(k) + ", use " + str(u) + " with " + str(b.t.size()) + " tasks, " + str(b.bad) + " fail"); R got; bool thrown = false;
            try { got = p.DoTasks(b.t); } catch (const std::runtime_error&) { thrown = true; }
            expect(thrown == (b.bad > 0), "fails exactly when a task fails"); for (size_t i = 0; i < b.own.size() && !b.own[i]->kind; ++i) ++total;
            if (!thrown) { expect(b.good(got), "result i is the one of task i"); expect(b.once(), "every task performed once"); }
            std::vector<WorkerStatistics> s = p.GetStatistics(); expect(s.size() == 1 && s[0].get_counted() == total && s[0].get_errors() == 0 && s[0].get_id() == 0, "counts the tasks");
        }
    }
    for (int k = 0; k < (thorough ? 2000 : 400); ++k) {
        begin("statistics " + str(k)); StatisticsAggregator g; std::map<int, std::pair<int, int> > ref; int ids = r.in(1, 6);
        for (int s = 0, m = r.in(0, 60); s < m; ++s) { int id = r.in(-2, ids); if (r.flip()) { g.RegisterCount(id); ++ref[id].first; } else { g.RegisterError(id); ++ref[id].second; } }
        std::vector<WorkerStatistics> v = g.GetStatistics(); bool ok = v.size() == ref.size();
        for (size_t i = 0; ok && i < v.size(); ++i) ok = ref.count(v[i].get_id()) && ref[v[i].get_id()] == std::make_pair(v[i].get_counted(), v[i].get_errors()); expect(ok, "events of every worker");
    }
    begin("factory"); ++beat;
    { IWorkerPool::shared_ptr b = WorkerPoolFactory::CreateBestWorkerPool(); expect(b && b->IsValid(), "the best pool is usable"); Batch t(r, 9, false, true); if (b) expect(t.good(b->DoTasks(t.t)), "and performs tasks");
      bool th = WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool), sq = WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool); expect(sq, "a sequential pool can be created");
      expect(dynamic_cast<SequentialWorkerPool*>(WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool).get()), "a sequential pool"); if (th) expect(dynamic_cast<ThreadWorkerPool*>(WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool).get()), "a thread pool");
      bool mpi = WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); if (!mpi) expect(throws<std::runtime_error>([&] { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); }), "what cannot be created is refused"); }
    std::cout.rdbuf(out); return done();
}
