#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
template <typename T, typename Mutex>
class data_mutex {
    template <typename U, typename Lock, typename M>
    class basic_lock {
        friend class data_mutex;
        U* m_data;
        Lock m_lock;
        basic_lock(U& d, M& m) : m_data(&d), m_lock(m) {}
    public:
        basic_lock(basic_lock&&) noexcept = default;
        basic_lock& operator=(basic_lock&&) noexcept = default;
        U* operator->() const noexcept { return m_data; }
        U& operator*() const noexcept { return *m_data; }
        U* get() const noexcept { return m_data; }
        explicit operator bool() const noexcept { return m_lock.owns_lock(); }
        void unlock() { m_lock.unlock(); m_data = nullptr; }
        void reset() { unlock(); }
        Lock& lock() noexcept { return m_lock; }
    };
    T m_data;
    mutable Mutex m_mutex;
public:
    template <typename... A>
    explicit data_mutex(A&&... a) : m_data(std::forward<A>(a)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;

    using unique_lock_t = basic_lock<T, std::unique_lock<Mutex>, Mutex>;
    using shared_lock_t = basic_lock<const T, std::shared_lock<Mutex>, Mutex>;
    using lock_guard_t = unique_lock_t;
    unique_lock_t unique_lock() { return {m_data, m_mutex}; }
    unique_lock_t lock() { return {m_data, m_mutex}; }
    shared_lock_t shared_lock() const { return {m_data, m_mutex}; }
    // the unsafe accessors of the original
    T& unsafe_get() noexcept { return m_data; }
    const T& unsafe_get() const noexcept { return m_data; }
};
}
