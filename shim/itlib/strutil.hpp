#pragma once
#include <string_view>
namespace itlib {
inline bool starts_with(std::string_view s, std::string_view p) noexcept { return s.substr(0, p.size()) == p; }
inline bool starts_with(std::string_view s, char c) noexcept { return !s.empty() && s.front() == c; }
inline bool ends_with(std::string_view s, std::string_view p) noexcept { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
}
