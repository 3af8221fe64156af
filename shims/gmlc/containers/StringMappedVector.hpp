// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include "shimMaps.hpp"

namespace gmlc::containers {
template<class VType, reference_stability STABILITY = reference_stability::stable>
class StringMappedVector {
    using store = shim::storage_t<VType, STABILITY>;

  public:
    using iterator = typename store::iterator;
    using const_iterator = typename store::const_iterator;
    template<typename... Us>
    std::optional<std::size_t> insert(std::string_view s, Us&&... data)
    {
        if (l.find(s) != l.end()) {
            return std::nullopt;
        }
        values.emplace_back(std::forward<Us>(data)...);
        l.emplace(std::string(s), values.size() - 1);
        return values.size() - 1;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(no_search_type /*s*/, Us&&... data)
    {
        values.emplace_back(std::forward<Us>(data)...);
        return values.size() - 1;
    }
    bool addSearchTerm(std::string_view s1, std::string_view existing)
    {
        auto i = shim::get(l, existing);
        return i && l.emplace(std::string(s1), *i).second;
    }
    bool addSearchTermForIndex(std::string_view s1, std::size_t index)
    {
        return (index < values.size()) && l.emplace(std::string(s1), index).second;
    }
    iterator find(std::string_view s)
    {
        auto i = shim::get(l, s);
        return i ? values.begin() + static_cast<std::ptrdiff_t>(*i) : values.end();
    }
    const_iterator find(std::string_view s) const
    {
        auto i = shim::get(l, s);
        return i ? values.begin() + static_cast<std::ptrdiff_t>(*i) : values.end();
    }
    VType& operator[](std::size_t i) { return values[i]; }
    const VType& operator[](std::size_t i) const { return values[i]; }
    VType& back() { return values.back(); }
    void removeIndex(std::size_t index)
    {
        if (index < values.size()) {
            values.erase(values.begin() + static_cast<std::ptrdiff_t>(index));
            shim::dropIndex(l, index);
        }
    }
    void remove(std::string_view s)
    {
        if (auto i = shim::get(l, s)) {
            removeIndex(*i);
        }
    }
    template<class F>
    void modify(F&& f)
    {
        std::for_each(values.begin(), values.end(), std::forward<F>(f));
    }
    template<class F>
    void apply(F&& f)
    {
        std::for_each(values.begin(), values.end(), std::forward<F>(f));
    }
    auto begin() { return values.begin(); }
    auto end() { return values.end(); }
    auto begin() const { return values.begin(); }
    auto end() const { return values.end(); }
    std::size_t size() const { return values.size(); }
    bool empty() const { return values.empty(); }
    void clear()
    {
        values.clear();
        l.clear();
    }

  private:
    store values;
    shim::lookup_t<std::string> l;
};
}  // namespace gmlc::containers
