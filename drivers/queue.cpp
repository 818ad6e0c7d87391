// explicit instantiation: every member function of the queue is extracted for this element type
#include <parallel/thread/thread_safe_queue.h>
namespace k52 { namespace parallel { namespace thread {
template class ThreadSafeQueue<int>;
} } }
