#pragma once
#include <cstddef>
#include <cassert>
#include <type_traits>
#include <iterator>
#include <array>
namespace itlib {
template <typename T>
class span {
    T* m_begin = nullptr;
    T* m_end = nullptr;
    template <typename U>
    using enable_conv = std::enable_if_t<std::is_convertible_v<U(*)[], T(*)[]>>;
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using const_reference = const T&;
    using iterator = T*;
    using const_iterator = T*;
    using reverse_iterator = std::reverse_iterator<iterator>;

    span() noexcept = default;
    span(std::nullptr_t) noexcept {}
    span(T* b, size_t n) noexcept : m_begin(b), m_end(b + n) {}
    span(T* b, T* e) noexcept : m_begin(b), m_end(e) {}
    template <typename U, typename = enable_conv<U>>
    span(const span<U>& o) noexcept : m_begin(o.data()), m_end(o.data() + o.size()) {}
    template <typename U, size_t N, typename = enable_conv<U>>
    span(U (&ar)[N]) noexcept : m_begin(ar), m_end(ar + N) {}
    template <typename C,
        typename P = decltype(std::declval<C&>().data()),
        typename = decltype(std::declval<C&>().size()),
        typename = std::enable_if_t<std::is_pointer_v<P>>,
        typename = enable_conv<std::remove_pointer_t<P>>>
    span(C& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}
    template <typename C,
        typename P = decltype(std::declval<const C&>().data()),
        typename = decltype(std::declval<const C&>().size()),
        typename = std::enable_if_t<std::is_pointer_v<P>>,
        typename = enable_conv<std::remove_pointer_t<P>>>
    span(const C& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}

    T* data() const noexcept { return m_begin; }
    size_t size() const noexcept { return size_t(m_end - m_begin); }
    size_t size_bytes() const noexcept { return size() * sizeof(T); }
    bool empty() const noexcept { return m_begin == m_end; }
    explicit operator bool() const noexcept { return !empty(); }
    iterator begin() const noexcept { return m_begin; }
    iterator end() const noexcept { return m_end; }
    const_iterator cbegin() const noexcept { return m_begin; }
    const_iterator cend() const noexcept { return m_end; }
    reverse_iterator rbegin() const noexcept { return reverse_iterator(m_end); }
    reverse_iterator rend() const noexcept { return reverse_iterator(m_begin); }
    T& operator[](size_t i) const { return m_begin[i]; }
    T& at(size_t i) const { return m_begin[i]; }
    T& front() const { return *m_begin; }
    T& back() const { return *(m_end - 1); }
    span subspan(size_t off, size_t n = size_t(-1)) const {
        if (off > size()) off = size();
        if (n > size() - off) n = size() - off;
        return span(m_begin + off, n);
    }
    span first(size_t n) const { return subspan(0, n); }
    span last(size_t n) const { return subspan(size() - n); }
    void remove_prefix(size_t n) noexcept { m_begin += n; }
    void remove_suffix(size_t n) noexcept { m_end -= n; }
    span<const T> as_const() const noexcept { return {m_begin, size()}; }
};
template <typename T> span(T*, size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename T, size_t N> span(T (&)[N]) -> span<T>;
template <typename T, size_t N> span(std::array<T, N>&) -> span<T>;
template <typename T, size_t N> span(const std::array<T, N>&) -> span<const T>;
template <typename C> span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <typename C> span(const C&) -> span<std::remove_pointer_t<decltype(std::declval<const C&>().data())>>;

template <typename T> span<T> make_span(T* p, size_t n) { return {p, n}; }
template <typename T> span<T> make_span(T* b, T* e) { return {b, e}; }
template <typename C> auto make_span(C& c) { return span(c); }
}
