#pragma once
#include <algorithm>
#include <cassert>
#include <functional>
#include <utility>
#include <vector>
#include <initializer_list>
namespace itlib {
template <typename K, typename Cmp = std::less<K>, typename C = std::vector<K>>
class flat_set : private Cmp {
    C m_c;
    const Cmp& cmp() const { return *this; }
public:
    using iterator = typename C::iterator;
    using const_iterator = typename C::const_iterator;
    flat_set() = default;
    flat_set(std::initializer_list<K> l) { for (auto& k : l) insert(k); }
    iterator begin() noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    const_iterator end() const noexcept { return m_c.end(); }
    bool empty() const noexcept { return m_c.empty(); }
    size_t size() const noexcept { return m_c.size(); }
    std::pair<iterator, bool> insert(K k) {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), k, cmp());
        if (i != m_c.end() && !cmp()(k, *i)) return {i, false};
        return {m_c.insert(i, std::move(k)), true};
    }
    iterator find(const K& k) {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), k, cmp());
        return (i != m_c.end() && !cmp()(k, *i)) ? i : m_c.end();
    }
    const_iterator find(const K& k) const {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), k, cmp());
        return (i != m_c.end() && !cmp()(k, *i)) ? i : m_c.end();
    }
    size_t count(const K& k) const { return find(k) == end() ? 0 : 1; }
    bool contains(const K& k) const { return find(k) != end(); }
    iterator erase(iterator i) { return m_c.erase(i); }
    size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    C& modify_container() noexcept { return m_c; }
    const C& container() const noexcept { return m_c; }
};
}
