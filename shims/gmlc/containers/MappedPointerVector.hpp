// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include "shimMaps.hpp"

namespace gmlc::containers {
template<class VType, class searchType = std::string>
class MappedPointerVector {
  public:
    template<typename... Us>
    std::optional<std::size_t> insert(const searchType& s, Us&&... data)
    {
        if (l.find(s) != l.end()) {
            return std::nullopt;
        }
        values.push_back(make(std::forward<Us>(data)...));
        l.emplace(s, values.size() - 1);
        return values.size() - 1;
    }
    template<typename... Us>
    std::size_t insert_or_assign(const searchType& s, Us&&... data)
    {
        if (auto i = shim::get(l, s)) {
            values[*i] = make(std::forward<Us>(data)...);
            return *i;
        }
        values.push_back(make(std::forward<Us>(data)...));
        l.emplace(s, values.size() - 1);
        return values.size() - 1;
    }
    template<class S>
    VType* find(const S& s) const
    {
        auto i = shim::get(l, s);
        return i ? values[*i].get() : nullptr;
    }
    VType* find(const searchType& s) const
    {
        auto i = shim::get(l, s);
        return i ? values[*i].get() : nullptr;
    }
    VType* operator[](std::size_t i) const { return (i < values.size()) ? values[i].get() : nullptr; }
    VType* back() const { return values.empty() ? nullptr : values.back().get(); }
    void removeIndex(std::size_t index)
    {
        if (index < values.size()) {
            values.erase(values.begin() + static_cast<std::ptrdiff_t>(index));
            shim::dropIndex(l, index);
        }
    }
    void remove(const searchType& s)
    {
        if (auto i = shim::get(l, s)) {
            removeIndex(*i);
        }
    }
    template<class F>
    void modify(F&& f)
    {
        std::for_each(values.begin(), values.end(), std::forward<F>(f));
    }
    template<class F>
    void apply(F&& f)
    {
        for (auto& v : values) {
            f(v);
        }
    }
    auto begin() { return values.begin(); }
    auto end() { return values.end(); }
    auto begin() const { return values.begin(); }
    auto end() const { return values.end(); }
    std::size_t size() const { return values.size(); }
    bool empty() const { return values.empty(); }
    void clear()
    {
        values.clear();
        l.clear();
    }

  private:
    static std::unique_ptr<VType> make(std::unique_ptr<VType>&& p) { return std::move(p); }
    template<typename... Us>
    static std::unique_ptr<VType> make(Us&&... data)
    {
        return std::make_unique<VType>(std::forward<Us>(data)...);
    }
    std::vector<std::unique_ptr<VType>> values;
    shim::lookup_t<searchType> l;
};
}  // namespace gmlc::containers
