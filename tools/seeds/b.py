seed('queue-notify-when-empty', 'C14', [('src/parallel/thread/thread_safe_queue.h', '    //bool const wasEmpty=_queue.empty();\n', '    bool const was_empty = queue_.empty();\n'),
 ('src/parallel/thread/thread_safe_queue.h', '    //If we notify with every push() then only the right number of threads are awoken.\n    //if(wasEmpty)\n', '    //Nobody waits while the queue is not empty\n    if(was_empty)\n')], '''
#include <thread>
#include <atomic>
#include <chrono>
#include <unistd.h>
#include <parallel/thread/thread_safe_queue.h>
using namespace k52::parallel::thread;
int main() {
    // two consumers wait, two elements come before the first consumer runs: both have to get one
    for (int k = 0; k < 300; ++k) {
        ThreadSafeQueue<int>* q = new ThreadSafeQueue<int>; std::atomic<int>* got = new std::atomic<int>(0);
        for (int i = 0; i < 4; ++i) std::thread([=] { int x; q->WaitAndPop(x); ++*got; }).detach();
        std::this_thread::sleep_for(std::chrono::milliseconds(3));
        for (int i = 0; i < 4; ++i) q->Push(i);
        for (int w = 0; *got < 4; ++w) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (w > 3000) { std::printf("demo: a consumer waits although there is an element\\n"); std::fflush(stdout); _exit(1); } }
    }
    _exit(0);
}
''', 'a second push before the first waiting consumer took its element', 'a waiting consumer is not told about an element pushed onto a non-empty queue')
seed('queue-trypop-check-first', 'C14', [('src/parallel/thread/thread_safe_queue.h', '''bool ThreadSafeQueue<TElement>::TryPop(TElement& popped_value)
{
    boost::mutex::scoped_lock lock(mutex_);
    if(queue_.empty())
    {
        return false;
    }
''', '''bool ThreadSafeQueue<TElement>::TryPop(TElement& popped_value)
{
    if(IsEmpty())
    {
        return false;
    }

    boost::mutex::scoped_lock lock(mutex_);
''')], '''
#include <thread>
#include <atomic>
#include <parallel/thread/thread_safe_queue.h>
using namespace k52::parallel::thread;
int main() {
    for (int k = 0; k < 20000; ++k) {
        ThreadSafeQueue<int> q; q.Push(5); std::atomic<int> ready(0), got(0), bad(0); std::vector<std::thread> t;
        for (int i = 0; i < 4; ++i) t.push_back(std::thread([&] { ++ready; while (ready < 4) {} int x = -1; if (q.TryPop(x)) { ++got; if (x != 5) bad = 1; } }));
        for (size_t i = 0; i < t.size(); ++i) t[i].join();
        CHECK(!bad); CHECK(got == 1);
    }
    return 0;
}
''', 'two consumers that both see the last element before either takes it', 'a non-blocking pop takes an element from an empty queue', flags='-D_GLIBCXX_ASSERTIONS')
seed('queue-isempty-unlocked', 'C14', [('src/parallel/thread/thread_safe_queue.h', '''bool ThreadSafeQueue<TElement>::IsEmpty() const
{
    boost::mutex::scoped_lock lock(mutex_);
''', '''bool ThreadSafeQueue<TElement>::IsEmpty() const
{
''')], '''
#include <thread>
#include <parallel/thread/thread_safe_queue.h>
using namespace k52::parallel::thread;
int main() {
    ThreadSafeQueue<int> q; const ThreadSafeQueue<int>& c = q; volatile int n = 0;
    std::thread t([&] { for (int i = 0; i < 20000; ++i) { q.Push(i); int x; q.TryPop(x); } });
    for (int i = 0; i < 20000; ++i) n += c.IsEmpty();
    t.join(); return 0;
}
''', 'an emptiness query while another thread pushes', 'the emptiness query reads the queue without its lock', flags='-fsanitize=thread')
