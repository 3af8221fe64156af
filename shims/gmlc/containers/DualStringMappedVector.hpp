// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include "shimMaps.hpp"

namespace gmlc::containers {
/** vector of values searchable by a string and a second key*/
template<class VType, class searchType2, reference_stability STABILITY = reference_stability::stable>
class DualStringMappedVector {
    using store = shim::storage_t<VType, STABILITY>;

  public:
    using iterator = typename store::iterator;
    using const_iterator = typename store::const_iterator;

    template<typename... Us>
    std::optional<std::size_t>
        insert(std::string_view s1, const searchType2& s2, Us&&... data)
    {
        if (l1.find(s1) != l1.end() && l2.find(s2) != l2.end()) {
            return std::nullopt;
        }
        auto index = values.size();
        values.emplace_back(std::forward<Us>(data)...);
        l1.emplace(std::string(s1), index);
        l2.emplace(s2, index);
        return index;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(std::string_view s1, no_search_type /*s2*/, Us&&... data)
    {
        if (l1.find(s1) != l1.end()) {
            return std::nullopt;
        }
        auto index = values.size();
        values.emplace_back(std::forward<Us>(data)...);
        l1.emplace(std::string(s1), index);
        return index;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(no_search_type /*s1*/, const searchType2& s2, Us&&... data)
    {
        if (l2.find(s2) != l2.end()) {
            return std::nullopt;
        }
        auto index = values.size();
        values.emplace_back(std::forward<Us>(data)...);
        l2.emplace(s2, index);
        return index;
    }
    template<typename... Us>
    std::optional<std::size_t>
        insert(no_search_type /*s1*/, no_search_type /*s2*/, Us&&... data)
    {
        values.emplace_back(std::forward<Us>(data)...);
        return values.size() - 1;
    }
    template<typename... Us>
    std::optional<std::size_t>
        insert_or_assign(std::string_view s1, const searchType2& s2, Us&&... data)
    {
        if (auto i = shim::get(l1, s1)) {
            values[*i] = VType(std::forward<Us>(data)...);
            l2.insert_or_assign(s2, *i);
            return i;
        }
        if (auto i = shim::get(l2, s2)) {
            values[*i] = VType(std::forward<Us>(data)...);
            l1.insert_or_assign(std::string(s1), *i);
            return i;
        }
        return insert(s1, s2, std::forward<Us>(data)...);
    }
    bool addSearchTermForIndex(std::string_view s1, std::size_t index)
    {
        return (index < values.size()) && l1.emplace(std::string(s1), index).second;
    }
    bool addSearchTermForIndex(const searchType2& s2, std::size_t index)
    {
        return (index < values.size()) && l2.emplace(s2, index).second;
    }
    bool addSearchTerm(const searchType2& s2, std::string_view existing)
    {
        auto i = shim::get(l1, existing);
        return i && l2.emplace(s2, *i).second;
    }
    bool addSearchTerm(std::string_view s1, const searchType2& existing)
    {
        auto i = shim::get(l2, existing);
        return i && l1.emplace(std::string(s1), *i).second;
    }
    bool addSearchTerm(std::string_view s1, std::string_view existing)
    {
        auto i = shim::get(l1, existing);
        return i && l1.emplace(std::string(s1), *i).second;
    }
    iterator find(std::string_view s1) { return itr(shim::get(l1, s1)); }
    iterator find(const searchType2& s2) { return itr(shim::get(l2, s2)); }
    const_iterator find(std::string_view s1) const { return itr(shim::get(l1, s1)); }
    const_iterator find(const searchType2& s2) const { return itr(shim::get(l2, s2)); }
    std::size_t getIndex(std::string_view s1) const
    {
        auto i = shim::get(l1, s1);
        if (!i) {
            throw(std::out_of_range("search value not found"));
        }
        return *i;
    }
    VType& operator[](std::size_t i) { return values[i]; }
    const VType& operator[](std::size_t i) const { return values[i]; }
    VType& back() { return values.back(); }
    const VType& back() const { return values.back(); }
    void removeIndex(std::size_t index)
    {
        if (index >= values.size()) {
            return;
        }
        values.erase(values.begin() + static_cast<std::ptrdiff_t>(index));
        shim::dropIndex(l1, index);
        shim::dropIndex(l2, index);
    }
    void remove(std::string_view s1)
    {
        if (auto i = shim::get(l1, s1)) {
            removeIndex(*i);
        }
    }
    void remove(const searchType2& s2)
    {
        if (auto i = shim::get(l2, s2)) {
            removeIndex(*i);
        }
    }
    template<class F>
    void modify(F&& f)
    {
        std::for_each(values.begin(), values.end(), std::forward<F>(f));
    }
    template<class F>
    void apply(F&& f)
    {
        std::for_each(values.begin(), values.end(), std::forward<F>(f));
    }
    template<class F>
    void transform(F&& f)
    {
        std::transform(values.begin(), values.end(), values.begin(), std::forward<F>(f));
    }
    auto begin() { return values.begin(); }
    auto end() { return values.end(); }
    auto begin() const { return values.begin(); }
    auto end() const { return values.end(); }
    auto cbegin() const { return values.cbegin(); }
    auto cend() const { return values.cend(); }
    std::size_t size() const { return values.size(); }
    bool empty() const { return values.empty(); }
    void clear()
    {
        values.clear();
        l1.clear();
        l2.clear();
    }

  private:
    iterator itr(std::optional<std::size_t> i)
    {
        return i ? values.begin() + static_cast<std::ptrdiff_t>(*i) : values.end();
    }
    const_iterator itr(std::optional<std::size_t> i) const
    {
        return i ? values.begin() + static_cast<std::ptrdiff_t>(*i) : values.end();
    }
    store values;
    shim::lookup_t<std::string> l1;
    shim::lookup_t<searchType2> l2;
};
}  // namespace gmlc::containers
