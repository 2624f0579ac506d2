// What the functions of this unit compute.
#ifndef THREADPOOL_H
#define THREADPOOL_H
#include <cassert>
#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
#include "Application.h"
#include "utils/math.h"
namespace cura
{
class ThreadPool
{
public:
    using lock_t = std::unique_lock<std::mutex>;
    using task_t = std::function<void(lock_t&)>;
    ThreadPool(size_t nthreads);
    ~ThreadPool()
    {
        join();
    }
//= cura::ThreadPool::thread_count
    size_t thread_count() const
    {
        return threads.size();
    }
//END
//= cura::ThreadPool::get_lock
    lock_t get_lock()
    {
        return lock_t(mutex);
    }
//END
//= cura::ThreadPool::push
    template<typename F>
    void push(const lock_t& lock [[maybe_unused]], F&& func)
    {
        assert(lock);
        tasks.push_back(std::forward<F>(func));
        condition.notify_one();
    }
//END
//= cura::ThreadPool::work_while
    template<typename P>
    void work_while(lock_t& lock, P predicate)
    {
        assert(lock);
        while (predicate() && ! tasks.empty())
        {
            assert(! tasks.empty());
            task_t task = std::move(tasks.front());
            tasks.pop_front();
            task(lock);
            assert(lock);
        }
    }
//END
private:
    void worker();
    void join();
    std::mutex mutex;
    std::condition_variable condition;
    std::deque<task_t> tasks;
    std::vector<std::thread> threads;
    bool wait_for_new_tasks;
};
template<typename T>
using make_signed_if_integral_t = typename std::enable_if_t<std::is_integral_v<T>, std::make_signed<T>>::type;
//= cura::distance
template<typename Int, typename Signed = make_signed_if_integral_t<Int>>
inline Signed distance(const Int& first, const Int& last)
{
    return static_cast<Signed>(last) - static_cast<Signed>(first);
}
//END
//= cura::parallel_for
template<typename T, typename F>
void parallel_for(T first, T last, F&& loop_body, size_t chunk_size_factor = 1, const size_t chunks_per_worker = 8)
{
    using lock_t = ThreadPool::lock_t;
    const auto dist = distance(first, last);
    if (dist <= 0)
    {
        return;
    }
    const size_t nitems = dist;
    ThreadPool* const thread_pool = Application::getInstance().thread_pool_;
    assert(thread_pool);
    const size_t nworkers = thread_pool->thread_count() + 1;
    size_t blocks;
    if (chunk_size_factor <= 1)
    {
        chunk_size_factor = 1;
        blocks = nitems;
    }
    else
    {
        blocks = round_up_divide(nitems, chunk_size_factor);
    }
    const size_t max_chunks = std::min(chunks_per_worker * nworkers, blocks);
    const size_t chunk_size = chunk_size_factor * round_up_divide(blocks, max_chunks);
    const size_t chunks = round_up_divide(nitems, chunk_size);
    const auto chunk_increment = static_cast<decltype(dist)>(chunk_size);
    assert(chunks * chunk_size >= nitems && (chunks - 1) * chunk_size < nitems);
    assert(chunks <= chunks_per_worker * nworkers && chunks <= blocks);
    struct
    {
        std::decay_t<F> loop_body;
        size_t chunks_remaining;
        std::condition_variable work_done = {};
    } shared_state = { std::forward<F>(loop_body), chunks };
    lock_t lock = thread_pool->get_lock();
    T chunk_last;
    for (T chunk_first = first; chunk_first < last; chunk_first = chunk_last)
    {
        if (distance(chunk_first, last) > chunk_increment)
        {
            chunk_last = chunk_first + chunk_increment;
        }
        else
        {
            chunk_last = last;
        }
        thread_pool->push(
            lock,
            [&shared_state, chunk_first, chunk_last](lock_t& th_lock)
            {
                th_lock.unlock();
                for (T i = chunk_first; i < chunk_last; ++i)
                {
                    shared_state.loop_body(i);
                }
                th_lock.lock();
                if (--shared_state.chunks_remaining == 0)
                {
                    shared_state.work_done.notify_one();
                }
            });
    }
    thread_pool->work_while(
        lock,
        [&]
        {
            return shared_state.chunks_remaining > 0;
        });
    while (shared_state.chunks_remaining > 0)
    {
        shared_state.work_done.wait(lock);
    }
}
//END
//= cura::parallel_for
template<typename Container, typename F>
auto parallel_for(Container& container, F&& loop_body, size_t chunk_size_factor = 1, size_t chunks_per_worker = 8) -> std::void_t<decltype(container.end() - container.begin())>
{
    parallel_for(container.begin(), container.end(), std::forward<F>(loop_body), chunk_size_factor, chunks_per_worker);
}
//END
template<typename Producer, typename Consumer>
class MultipleProducersOrderedConsumer;
//= cura::run_multiple_producers_ordered_consumer
template<typename P, typename C>
void run_multiple_producers_ordered_consumer(ptrdiff_t first, ptrdiff_t last, P&& producer, C&& consumer, size_t max_pending_per_worker = 8)
{
    ThreadPool* thread_pool = Application::getInstance().thread_pool_;
    assert(thread_pool);
    assert(max_pending_per_worker > 0);
    const size_t max_pending = max_pending_per_worker * (thread_pool->thread_count() + 1);
    MultipleProducersOrderedConsumer<P, C>(first, last, std::forward<P>(producer), std::forward<C>(consumer), max_pending).run(*thread_pool);
}
//END
template<typename Producer, typename Consumer>
class MultipleProducersOrderedConsumer
{
    using item_t = std::invoke_result_t<Producer, ptrdiff_t>;
    using lock_t = ThreadPool::lock_t;
public:
//= cura::MultipleProducersOrderedConsumer::MultipleProducersOrderedConsumer
    template<typename P, typename C>
    MultipleProducersOrderedConsumer(ptrdiff_t first, ptrdiff_t last, P&& producer, C&& consumer, size_t max_pending)
        : producer_(std::forward<P>(producer))
        , consumer_(std::forward<C>(consumer))
        , max_pending_(max_pending)
        , queue_(std::make_unique<item_t[]>(max_pending))
        , last_idx_(last)
        , write_idx_(first)
        , read_idx_(first)
        , consumer_wait_idx_(first)
    {
    }
//END
//= cura::MultipleProducersOrderedConsumer::run
    void run(ThreadPool& thread_pool)
    {
        if (write_idx_ >= last_idx_)
        {
            return;
        }
        workers_count_ = thread_pool.thread_count() + 1;
        auto lock = thread_pool.get_lock();
        for (size_t i = 1; i < workers_count_; i++)
        {
            thread_pool.push(
                lock,
                [this](lock_t& th_lock)
                {
                    worker(th_lock);
                });
        }
        worker(lock);
        while (workers_count_ > 0)
        {
            work_done_cond_.wait(lock);
        }
    }
//END
protected:
//= cura::MultipleProducersOrderedConsumer::wait
    bool wait(lock_t& lock)
    {
        while (true)
        {
            if (write_idx_ >= last_idx_)
            {
                return false;
            }
            if (write_idx_ - read_idx_ < max_pending_)
            {
                return true;
            }
            else
            {
                free_slot_cond_.wait(lock);
            }
        }
    }
//END
//= cura::MultipleProducersOrderedConsumer::slotOf
    item_t& slotOf(const ptrdiff_t idx) const
    {
        return queue_[(idx % max_pending_ + max_pending_) % max_pending_];
    }
//END
//= cura::MultipleProducersOrderedConsumer::produce
    ptrdiff_t produce(lock_t& lock)
    {
        ptrdiff_t produced_idx = write_idx_++;
        item_t* slot = &slotOf(produced_idx);
        assert(produced_idx < last_idx_);
        lock.unlock();
        item_t item = producer_(produced_idx);
        lock.lock();
        assert(! *slot);
        *slot = std::move(item);
        assert(*slot);
        return produced_idx;
    }
//END
//= cura::MultipleProducersOrderedConsumer::consume_many
    void consume_many(lock_t& lock)
    {
        assert(read_idx_ < write_idx_);
        for (item_t* slot = &slotOf(read_idx_); *slot; slot = &slotOf(read_idx_))
        {
            lock.unlock();
            consumer_(std::move(*slot));
            *slot = {};
            lock.lock();
            bool queue_was_full = write_idx_ - read_idx_ >= max_pending_;
            read_idx_++;
            if (queue_was_full)
            {
                free_slot_cond_.notify_one();
            }
        }
        consumer_wait_idx_ = read_idx_;
    }
//END
//= cura::MultipleProducersOrderedConsumer::worker
    void worker(lock_t& lock)
    {
        while (wait(lock))
        {
            ptrdiff_t produced_idx = produce(lock);
            if (produced_idx == consumer_wait_idx_)
            {
                consume_many(lock);
            }
        }
        free_slot_cond_.notify_all();
        if (--workers_count_ == 0)
        {
            work_done_cond_.notify_one();
        }
    }
//END
    size_t workers_count_;
    std::condition_variable work_done_cond_;
    Producer producer_;
    Consumer consumer_;
    const ptrdiff_t max_pending_;
    const std::unique_ptr<item_t[]> queue_;
    const ptrdiff_t last_idx_;
    ptrdiff_t write_idx_;
    ptrdiff_t read_idx_;
    ptrdiff_t consumer_wait_idx_;
    std::condition_variable free_slot_cond_;
};
template<typename P, typename C>
MultipleProducersOrderedConsumer(ptrdiff_t, ptrdiff_t, P, C, size_t) -> MultipleProducersOrderedConsumer<P, C>;
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template long cura::distance<unsigned long, long>(const unsigned long &, const unsigned long &);
//END
//= instance
template long long cura::distance<long long, long long>(const long long &, const long long &);
//END
//= instance
namespace instance
{
struct Body
{
    void operator()(unsigned long) const;
};
struct ElementBody
{
    void operator()(std::vector<int>::iterator) const;
};
struct Item
{
    Item();
    Item(Item&&);
    Item& operator=(Item&&);
    explicit operator bool() const;
    bool operator!() const;
};
struct Producer
{
    Item operator()(long) const;
};
struct Consumer
{
    void operator()(Item) const;
};
struct Task
{
    void operator()(std::unique_lock<std::mutex>&) const;
};
void touch();
bool more();
struct Predicate
{
    bool operator()()
    {
        touch();
        return more();
    }
};
}
template void cura::parallel_for<unsigned long, instance::Body&>(unsigned long, unsigned long, instance::Body&, unsigned long, const unsigned long);
template void cura::parallel_for<std::vector<int>::iterator, instance::ElementBody&>(std::vector<int>::iterator, std::vector<int>::iterator, instance::ElementBody&, unsigned long, const unsigned long);
template class cura::MultipleProducersOrderedConsumer<instance::Producer, instance::Consumer>;
template void cura::run_multiple_producers_ordered_consumer<instance::Producer, instance::Consumer>(long, long, instance::Producer&&, instance::Consumer&&, unsigned long);
template void cura::ThreadPool::push<instance::Task>(const std::unique_lock<std::mutex>&, instance::Task&&);
template void cura::ThreadPool::work_while<instance::Predicate>(std::unique_lock<std::mutex>&, instance::Predicate);
//END
