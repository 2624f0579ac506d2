// What the functions of this unit compute.
#include "utils/ThreadPool.h"
namespace cura
{
//= cura::ThreadPool::ThreadPool
ThreadPool::ThreadPool(size_t nthreads)
  : wait_for_new_tasks(true)
{
    for (size_t i = 0 ; i < nthreads; i++)
    {
        threads.emplace_back(&ThreadPool::worker, this);
    }
}
//END
//= cura::ThreadPool::worker
void ThreadPool::worker()
{
    lock_t lock = get_lock();
    work_while(lock, [this, &lock]()
        {
            while(tasks.empty() && wait_for_new_tasks)
            {
               condition.wait(lock);
            }
            return !tasks.empty() || wait_for_new_tasks;
        });
}
//END
//= cura::ThreadPool::join
void ThreadPool::join()
{
    {
        lock_t lock = get_lock();
        wait_for_new_tasks = false;
        condition.notify_all();
        work_while(lock, []{ return true; });
    }
    assert(tasks.empty());
    for (auto& thread : threads)
    {
        thread.join();
    }
    threads.clear();
}
//END
}
