// Stand-in for GMLC-TDC/concurrency (submodule not available offline).
#pragma once
#include <future>
#include <map>
#include <mutex>
#include <string>
#include <utility>

namespace gmlc::concurrency {
/** promises retrievable by an index or a name*/
template<class X>
class DelayedObjects {
  public:
    DelayedObjects() = default;
    ~DelayedObjects()
    {
        try {
            fulfillAllPromises(X{});
        }
        catch (...) {
        }
    }
    DelayedObjects(const DelayedObjects&) = delete;
    DelayedObjects& operator=(const DelayedObjects&) = delete;
    void setDelayedValue(int index, X val) { set(byIndex, usedByIndex, index, std::move(val)); }
    void setDelayedValue(const std::string& name, X val)
    {
        set(byName, usedByName, name, std::move(val));
    }
    void fulfillAllPromises(const X& val)
    {
        std::lock_guard<std::mutex> l(m);
        for (auto& p : byIndex) {
            p.second.set_value(val);
            usedByIndex[p.first] = std::move(p.second);
        }
        byIndex.clear();
        for (auto& p : byName) {
            p.second.set_value(val);
            usedByName[p.first] = std::move(p.second);
        }
        byName.clear();
    }
    std::future<X> getFuture(int index) { return fut(byIndex, index); }
    std::future<X> getFuture(const std::string& name) { return fut(byName, name); }
    void finishedWithValue(int index)
    {
        std::lock_guard<std::mutex> l(m);
        usedByIndex.erase(index);
    }
    void finishedWithValue(const std::string& name)
    {
        std::lock_guard<std::mutex> l(m);
        usedByName.erase(name);
    }
    bool isRecognized(int index) const
    {
        std::lock_guard<std::mutex> l(m);
        return byIndex.count(index) > 0 || usedByIndex.count(index) > 0;
    }
    bool isRecognized(const std::string& name) const
    {
        std::lock_guard<std::mutex> l(m);
        return byName.count(name) > 0 || usedByName.count(name) > 0;
    }
    bool isCompleted(int index) const
    {
        std::lock_guard<std::mutex> l(m);
        return usedByIndex.count(index) > 0;
    }

  private:
    template<class Map, class K>
    void set(Map& live, Map& used, const K& k, X val)
    {
        std::lock_guard<std::mutex> l(m);
        auto f = live.find(k);
        if (f != live.end()) {
            f->second.set_value(std::move(val));
            used[k] = std::move(f->second);
            live.erase(f);
        }
    }
    template<class Map, class K>
    std::future<X> fut(Map& live, const K& k)
    {
        std::lock_guard<std::mutex> l(m);
        std::promise<X> p;
        auto f = p.get_future();
        live[k] = std::move(p);
        return f;
    }
    mutable std::mutex m;
    std::map<int, std::promise<X>> byIndex;
    std::map<std::string, std::promise<X>> byName;
    std::map<int, std::promise<X>> usedByIndex;
    std::map<std::string, std::promise<X>> usedByName;
};
}  // namespace gmlc::concurrency
