#pragma once
// Stand-in for boost 1.84's concurrent_flat_set on top of the installed concurrent_flat_map.
#include <boost/unordered/concurrent_flat_map.hpp>
namespace boost {
template<class K, class H = boost::hash<K>, class E = std::equal_to<K>> class concurrent_flat_set {
    boost::concurrent_flat_map<K, char, H, E> m_;
public:
    concurrent_flat_set() = default;
    concurrent_flat_set(const concurrent_flat_set&) = default;
    concurrent_flat_set(concurrent_flat_set&&) = default;
    concurrent_flat_set& operator=(const concurrent_flat_set&) = default;
    concurrent_flat_set& operator=(concurrent_flat_set&&) = default;
    bool insert(const K& k) { return m_.insert(std::pair<const K, char>(k, 0)); }
    template<class... A> bool emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
    bool contains(const K& k) const { return m_.contains(k); }
    bool empty() const { return m_.empty(); }
    std::size_t size() const { return m_.size(); }
    void clear() { m_.clear(); }
    template<class P, class F> std::size_t visit_all(P&&, F f) const { return m_.cvisit_all([&f](const auto& p) { f(p.first); }); }
    template<class F> std::size_t visit_all(F f) const { return m_.cvisit_all([&f](const auto& p) { f(p.first); }); }
    template<class P, class F> std::size_t erase_if(P&&, F f) { return m_.erase_if([&f](const auto& p) { return f(p.first); }); }
    template<class F> std::size_t erase_if(F f) { return m_.erase_if([&f](const auto& p) { return f(p.first); }); }
};
}
