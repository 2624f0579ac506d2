#pragma once
// Analysis-only stand-in for fmt: same call surface, no compile-time format checking (which dominates parse time).
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <atomic>
#include <thread>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace fmt {
using string_view = std::string_view;
struct format_parse_context { const char* begin() const; const char* end() const; };
struct format_context { std::back_insert_iterator<std::string> out() const; };
template<class T, class C = char> struct formatter {
    template<class P> constexpr auto parse(P& c) { return c.begin(); }
    template<class F> auto format(const T&, F& c) const { return c.out(); }
};
template<class... A> std::string format(std::string_view f, A&&... a);
template<class O, class... A> O format_to(O o, std::string_view f, A&&... a);
template<class... A> void print(std::string_view f, A&&... a);
template<class... A> void print(std::FILE*, std::string_view f, A&&... a);
template<class T> const void* ptr(T* p) { return p; }
template<class T> const void* ptr(const std::unique_ptr<T>& p) { return p.get(); }
template<class T> const void* ptr(const std::shared_ptr<T>& p) { return p.get(); }
template<class T> std::string join(const T&, std::string_view);
template<class E> constexpr auto underlying(E e) { return static_cast<std::underlying_type_t<E>>(e); }
}
