#pragma once
#include <algorithm>
#include <cassert>
#include <iterator>
#include <utility>
#include <type_traits>
namespace itlib {
template <typename C, typename T>
auto qfind(C&& c, const T& v) -> decltype(std::begin(c)) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename F>
auto qfind_if(C&& c, F f) -> decltype(std::begin(c)) { return std::find_if(std::begin(c), std::end(c), std::move(f)); }
template <typename C, typename T>
auto pfind(C&& c, const T& v) -> decltype(&*std::begin(c)) {
    auto f = std::find(std::begin(c), std::end(c), v);
    return f == std::end(c) ? nullptr : &*f;
}
template <typename C, typename F>
auto pfind_if(C&& c, F fn) -> decltype(&*std::begin(c)) {
    auto f = std::find_if(std::begin(c), std::end(c), std::move(fn));
    return f == std::end(c) ? nullptr : &*f;
}
template <typename C, typename T>
size_t qcount(const C& c, const T& v) { return size_t(std::count(std::begin(c), std::end(c), v)); }
template <typename C, typename F>
size_t qcount_if(const C& c, F f) { return size_t(std::count_if(std::begin(c), std::end(c), std::move(f))); }
template <typename C, typename F>
bool qall_of(const C& c, F f) { return std::all_of(std::begin(c), std::end(c), std::move(f)); }
template <typename C, typename F>
bool qany_of(const C& c, F f) { return std::any_of(std::begin(c), std::end(c), std::move(f)); }
template <typename C, typename F>
bool qnone_of(const C& c, F f) { return std::none_of(std::begin(c), std::end(c), std::move(f)); }
template <typename C, typename T>
size_t erase_all(C& c, const T& v) {
    auto n = std::remove(c.begin(), c.end(), v);
    size_t r = size_t(c.end() - n);
    c.erase(n, c.end());
    return r;
}
template <typename C>
size_t erase_all(C& c, std::nullptr_t) {
    auto n = std::remove(c.begin(), c.end(), nullptr);
    size_t r = size_t(c.end() - n);
    c.erase(n, c.end());
    return r;
}
template <typename C, typename F>
size_t erase_all_if(C& c, F f) {
    auto n = std::remove_if(c.begin(), c.end(), std::move(f));
    size_t r = size_t(c.end() - n);
    c.erase(n, c.end());
    return r;
}
template <typename C, typename T>
bool erase_first(C& c, const T& v) {
    auto f = std::find(c.begin(), c.end(), v);
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename F>
bool erase_first_if(C& c, F fn) {
    auto f = std::find_if(c.begin(), c.end(), std::move(fn));
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename F>
void for_each(C&& c, F f) { std::for_each(std::begin(c), std::end(c), std::move(f)); }
template <typename C, typename F>
void qsort(C& c, F f) { std::sort(std::begin(c), std::end(c), std::move(f)); }
template <typename C>
void qsort(C& c) { std::sort(std::begin(c), std::end(c)); }
}
