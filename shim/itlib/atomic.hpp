#pragma once
#include <atomic>
namespace itlib {
template <typename T>
class atomic_relaxed_counter {
    std::atomic<T> m{};
public:
    atomic_relaxed_counter() noexcept = default;
    atomic_relaxed_counter(T t) noexcept : m(t) {}
    atomic_relaxed_counter(const atomic_relaxed_counter& o) noexcept : m(o.load()) {}
    atomic_relaxed_counter& operator=(const atomic_relaxed_counter& o) noexcept { store(o.load()); return *this; }
    atomic_relaxed_counter& operator=(T t) noexcept { store(t); return *this; }
    T load() const noexcept { return m.load(std::memory_order_relaxed); }
    void store(T t) noexcept { m.store(t, std::memory_order_relaxed); }
    operator T() const noexcept { return load(); }
    T operator++() noexcept { return m.fetch_add(1, std::memory_order_relaxed) + 1; }
    T operator++(int) noexcept { return m.fetch_add(1, std::memory_order_relaxed); }
    T operator--() noexcept { return m.fetch_sub(1, std::memory_order_relaxed) - 1; }
    T operator--(int) noexcept { return m.fetch_sub(1, std::memory_order_relaxed); }
    T operator+=(T t) noexcept { return m.fetch_add(t, std::memory_order_relaxed) + t; }
    T operator-=(T t) noexcept { return m.fetch_sub(t, std::memory_order_relaxed) - t; }
};
}
