#pragma once
#include <utility>
#include <variant>
namespace zeus {
template<class T, class E> class expected {
    std::variant<T, E> v_;
public:
    expected(const T& t) : v_(std::in_place_index<0>, t) {}
    expected(const E& e) : v_(std::in_place_index<1>, e) {}
    bool has_value() const { return v_.index() == 0; }
    explicit operator bool() const { return has_value(); }
    const T& value() const { return std::get<0>(v_); }
    T& value() { return std::get<0>(v_); }
    const E& error() const { return std::get<1>(v_); }
};
}
