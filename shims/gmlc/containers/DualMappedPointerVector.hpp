// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include "shimMaps.hpp"

namespace gmlc::containers {
template<class VType, class searchType1, class searchType2>
class DualMappedPointerVector {
  public:
    template<typename... Us>
    std::optional<std::size_t> insert(const searchType1& s1, const searchType2& s2, Us&&... data)
    {
        if (l1.find(s1) != l1.end() && l2.find(s2) != l2.end()) {
            return std::nullopt;
        }
        values.push_back(std::make_unique<VType>(std::forward<Us>(data)...));
        l1.emplace(s1, values.size() - 1);
        l2.emplace(s2, values.size() - 1);
        return values.size() - 1;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(const searchType1& s1, no_search_type /*s*/, Us&&... data)
    {
        if (l1.find(s1) != l1.end()) {
            return std::nullopt;
        }
        values.push_back(std::make_unique<VType>(std::forward<Us>(data)...));
        l1.emplace(s1, values.size() - 1);
        return values.size() - 1;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(no_search_type /*s*/, const searchType2& s2, Us&&... data)
    {
        if (l2.find(s2) != l2.end()) {
            return std::nullopt;
        }
        values.push_back(std::make_unique<VType>(std::forward<Us>(data)...));
        l2.emplace(s2, values.size() - 1);
        return values.size() - 1;
    }
    bool addSearchTerm(const searchType1& s1, const searchType2& existing)
    {
        auto i = shim::get(l2, existing);
        return i && l1.emplace(s1, *i).second;
    }
    VType* find(const searchType1& s) const
    {
        auto i = shim::get(l1, s);
        return i ? values[*i].get() : nullptr;
    }
    VType* find(const searchType2& s) const
    {
        auto i = shim::get(l2, s);
        return i ? values[*i].get() : nullptr;
    }
    VType* operator[](std::size_t i) const { return (i < values.size()) ? values[i].get() : nullptr; }
    VType* back() const { return values.empty() ? nullptr : values.back().get(); }
    void removeIndex(std::size_t index)
    {
        if (index < values.size()) {
            values.erase(values.begin() + static_cast<std::ptrdiff_t>(index));
            shim::dropIndex(l1, index);
            shim::dropIndex(l2, index);
        }
    }
    void remove(const searchType1& s)
    {
        if (auto i = shim::get(l1, s)) {
            removeIndex(*i);
        }
    }
    void remove(const searchType2& s)
    {
        if (auto i = shim::get(l2, s)) {
            removeIndex(*i);
        }
    }
    template<class F>
    void modify(F&& f)
    {
        std::for_each(values.begin(), values.end(), std::forward<F>(f));
    }
    template<class F>
    void apply(F&& f)
    {
        for (auto& v : values) {
            f(v);
        }
    }
    auto begin() { return values.begin(); }
    auto end() { return values.end(); }
    auto begin() const { return values.begin(); }
    auto end() const { return values.end(); }
    std::size_t size() const { return values.size(); }
    bool empty() const { return values.empty(); }
    void clear()
    {
        values.clear();
        l1.clear();
        l2.clear();
    }

  private:
    std::vector<std::unique_ptr<VType>> values;
    shim::lookup_t<searchType1> l1;
    shim::lookup_t<searchType2> l2;
};
}  // namespace gmlc::containers
