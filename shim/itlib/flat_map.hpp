#pragma once
#include <algorithm>
#include <cassert>
#include <functional>
#include <utility>
#include <vector>
#include <stdexcept>
namespace itlib {
template <typename K, typename V, typename Cmp = std::less<K>, typename C = std::vector<std::pair<K, V>>>
class flat_map : private Cmp {
    C m_c;
    const Cmp& cmp() const { return *this; }
public:
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<K, V>;
    using container_type = C;
    using iterator = typename C::iterator;
    using const_iterator = typename C::const_iterator;
    flat_map() = default;
    explicit flat_map(const Cmp& c) : Cmp(c) {}
    template <typename A>
    flat_map(const Cmp& c, const A& a) : Cmp(c), m_c(a) {}
    iterator begin() noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    const_iterator end() const noexcept { return m_c.end(); }
    bool empty() const noexcept { return m_c.empty(); }
    size_t size() const noexcept { return m_c.size(); }
    void clear() noexcept { m_c.clear(); }
    template <typename Q> iterator lower_bound(const Q& k) {
        return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& a, const Q& b) { return cmp()(a.first, b); });
    }
    template <typename Q> const_iterator lower_bound(const Q& k) const {
        return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& a, const Q& b) { return cmp()(a.first, b); });
    }
    template <typename Q> iterator find(const Q& k) {
        auto i = lower_bound(k);
        return (i != m_c.end() && !cmp()(k, i->first)) ? i : m_c.end();
    }
    template <typename Q> const_iterator find(const Q& k) const {
        auto i = lower_bound(k);
        return (i != m_c.end() && !cmp()(k, i->first)) ? i : m_c.end();
    }
    template <typename Q> size_t count(const Q& k) const { return find(k) == end() ? 0 : 1; }
    template <typename Q> bool contains(const Q& k) const { return find(k) != end(); }
    template <typename P> std::pair<iterator, bool> insert(P&& v) {
        auto i = lower_bound(v.first);
        if (i != m_c.end() && !cmp()(v.first, i->first)) return {i, false};
        return {m_c.emplace(i, std::forward<P>(v)), true};
    }
    template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
    template <typename KK, typename... A> std::pair<iterator, bool> try_emplace(KK&& k, A&&... a) {
        auto i = lower_bound(k);
        if (i != m_c.end() && !cmp()(k, i->first)) return {i, false};
        return {m_c.emplace(i, std::forward<KK>(k), V(std::forward<A>(a)...)), true};
    }
    template <typename KK> V& operator[](KK&& k) {
        auto i = lower_bound(k);
        if (i == m_c.end() || cmp()(k, i->first)) i = m_c.emplace(i, std::forward<KK>(k), V());
        return i->second;
    }
    template <typename Q> V& at(const Q& k) { auto i = find(k); if (i == end()) throw std::out_of_range("flat_map"); return i->second; }
    template <typename Q> const V& at(const Q& k) const { auto i = find(k); if (i == end()) throw std::out_of_range("flat_map"); return i->second; }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    const C& container() const noexcept { return m_c; }
    C& modify_container() noexcept { return m_c; }
};
}
