#pragma once
#include <cstddef>
#include <cassert>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T>
class stride_span {
    using byte_ptr = std::conditional_t<std::is_const_v<T>, const unsigned char*, unsigned char*>;
    byte_ptr m_begin = nullptr;
    size_t m_stride = sizeof(T);
    size_t m_size = 0;
public:
    using value_type = std::remove_cv_t<T>;
    class iterator {
        byte_ptr m_p = nullptr;
        size_t m_s = 0;
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_cv_t<T>;
        using difference_type = ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iterator() = default;
        iterator(byte_ptr p, size_t s) : m_p(p), m_s(s) {}
        T& operator*() const { return *reinterpret_cast<T*>(m_p); }
        T* operator->() const { return reinterpret_cast<T*>(m_p); }
        T& operator[](ptrdiff_t n) const { return *(*this + n); }
        iterator& operator++() { m_p += m_s; return *this; }
        iterator operator++(int) { auto c = *this; m_p += m_s; return c; }
        iterator& operator--() { m_p -= m_s; return *this; }
        iterator operator--(int) { auto c = *this; m_p -= m_s; return c; }
        iterator& operator+=(ptrdiff_t n) { m_p += n * ptrdiff_t(m_s); return *this; }
        iterator& operator-=(ptrdiff_t n) { return *this += -n; }
        friend iterator operator+(iterator i, ptrdiff_t n) { return i += n; }
        friend iterator operator-(iterator i, ptrdiff_t n) { return i -= n; }
        friend ptrdiff_t operator-(iterator a, iterator b) { return (a.m_p - b.m_p) / ptrdiff_t(a.m_s); }
        friend bool operator==(iterator a, iterator b) { return a.m_p == b.m_p; }
        friend bool operator!=(iterator a, iterator b) { return a.m_p != b.m_p; }
        friend bool operator<(iterator a, iterator b) { return a.m_p < b.m_p; }
    };
    using const_iterator = iterator;
    stride_span() = default;
    stride_span(byte_ptr p, size_t stride, size_t n) : m_begin(p), m_stride(stride), m_size(n) {}
    iterator begin() const { return {m_begin, m_stride}; }
    iterator end() const { return {m_begin + m_stride * m_size, m_stride}; }
    size_t size() const { return m_size; }
    bool empty() const { return m_size == 0; }
    T& operator[](size_t i) const { return begin()[ptrdiff_t(i)]; }
};
template <typename C, typename M>
auto make_stride_span_member_view(C* p, size_t n, M std::remove_const_t<C>::* mem) {
    using T = std::conditional_t<std::is_const_v<C>, const M, M>;
    using B = std::conditional_t<std::is_const_v<C>, const unsigned char*, unsigned char*>;
    if (!n) return stride_span<T>(nullptr, sizeof(C), 0);
    return stride_span<T>(reinterpret_cast<B>(&(p->*mem)), sizeof(C), n);
}
}
