// Helpers for the reference functions.
#pragma once
#include <utility>
namespace ref
{
//! a member as something that can be given its first value
template<class T>
T& member(const T& x)
{
    return const_cast<T&>(x);
}
//! the base class part of an object
template<class B, class D>
B& base(D& d)
{
    return d;
}
} // namespace ref
