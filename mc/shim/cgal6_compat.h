#pragma once
// The code under test is written for CGAL 6, whose intersection functions return
// std::optional<std::variant<...>>; CGAL 5.6 (installed here) returns boost::optional<boost::variant<...>>.
// This header lets std::get_if read a boost::variant, so that the unmodified sources compile.
#include <boost/variant.hpp>
#include <variant>
namespace std {
template <class T, class A, class... As>
const T* get_if(const boost::variant<A, As...>* v) noexcept { return boost::get<T>(v); }
template <class T, class A, class... As>
T* get_if(boost::variant<A, As...>* v) noexcept { return boost::get<T>(v); }
}  // namespace std
