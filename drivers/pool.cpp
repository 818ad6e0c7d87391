#include "../../repo/src/parallel/thread/thread_worker_pool.h"
void k52_verif_pool(k52::parallel::thread::ThreadWorkerPool& p, const std::vector<const k52::parallel::ITask*>& t) { p.DoTasks(t); k52::parallel::thread::ThreadWorkerPoolTemplated<k52::parallel::thread::ThreadWorkerPoolTask> q(2); }
