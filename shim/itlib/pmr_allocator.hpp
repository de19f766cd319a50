#pragma once
// C++17 stand-in for the C++20 std::pmr::polymorphic_allocator<> (byte interface)
#include <memory_resource>
#include <cstddef>
#include <new>
#include <limits>
#include <utility>
namespace itlib {
template <typename T = std::byte>
class pmr_allocator : public std::pmr::polymorphic_allocator<T> {
    using base = std::pmr::polymorphic_allocator<T>;
public:
    pmr_allocator() noexcept = default;
    pmr_allocator(std::pmr::memory_resource* r) : base(r) {}
    pmr_allocator(const pmr_allocator&) = default;
    template <typename U>
    pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : base(o) {}
    pmr_allocator& operator=(const pmr_allocator&) = delete;

    [[nodiscard]] void* allocate_bytes(size_t n, size_t al = alignof(std::max_align_t)) { return this->resource()->allocate(n, al); }
    void deallocate_bytes(void* p, size_t n, size_t al = alignof(std::max_align_t)) { this->resource()->deallocate(p, n, al); }
    template <typename U> [[nodiscard]] U* allocate_object(size_t n = 1) { return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U))); }
    template <typename U> void deallocate_object(U* p, size_t n = 1) { deallocate_bytes(p, n * sizeof(U), alignof(U)); }
    template <typename U, typename... A> [[nodiscard]] U* new_object(A&&... a) {
        auto p = allocate_object<U>();
        try { return ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); }
        catch (...) { deallocate_object(p); throw; }
    }
    template <typename U> void delete_object(U* p) { p->~U(); deallocate_object(p); }
    pmr_allocator select_on_container_copy_construction() const { return pmr_allocator(); }
};
}
