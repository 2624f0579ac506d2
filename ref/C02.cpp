// Instances of the parallel sections with bodies about which nothing is known: what is shown for them holds for every body.
#include "utils/ThreadPool.h"
#include <vector>
namespace instance
{
struct Body
{
    void operator()(unsigned long) const;
};
struct ElementBody
{
    void operator()(std::vector<int>::iterator) const;
};
struct Item
{
    Item();
    Item(Item&&);
    Item& operator=(Item&&);
    explicit operator bool() const;
    bool operator!() const;
};
struct Producer
{
    Item operator()(long) const;
};
struct Consumer
{
    void operator()(Item) const;
};
struct Task
{
    void operator()(std::unique_lock<std::mutex>&) const;
};
void touch();
bool more();
struct Predicate
{
    bool operator()()
    {
        touch();
        return more();
    }
};
}
template void cura::parallel_for<unsigned long, instance::Body&>(unsigned long, unsigned long, instance::Body&, unsigned long, const unsigned long);
template void cura::parallel_for<std::vector<int>::iterator, instance::ElementBody&>(std::vector<int>::iterator, std::vector<int>::iterator, instance::ElementBody&, unsigned long, const unsigned long);
template class cura::MultipleProducersOrderedConsumer<instance::Producer, instance::Consumer>;
template void cura::run_multiple_producers_ordered_consumer<instance::Producer, instance::Consumer>(long, long, instance::Producer&&, instance::Consumer&&, unsigned long);
template void cura::ThreadPool::push<instance::Task>(const std::unique_lock<std::mutex>&, instance::Task&&);
template void cura::ThreadPool::work_while<instance::Predicate>(std::unique_lock<std::mutex>&, instance::Predicate);
