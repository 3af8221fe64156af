// Stand-in for GMLC-TDC/concurrency (submodule not available offline).
#pragma once
#include "TripWire.hpp"

#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

namespace gmlc::concurrency {
/** named shared objects with an optional list of types*/
template<class X, class Y = int>
class SearchableObjectHolder {
  public:
    SearchableObjectHolder() = default;
    SearchableObjectHolder(const SearchableObjectHolder&) = delete;
    SearchableObjectHolder& operator=(const SearchableObjectHolder&) = delete;
    ~SearchableObjectHolder()
    {
        std::unique_lock<std::mutex> l(m);
        int cntr = 0;
        while (!objectMap.empty()) {
            ++cntr;
            l.unlock();
            if (cntr > 6) {
                l.lock();
                break;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
            l.lock();
        }
    }
    bool addObject(std::string_view name, std::shared_ptr<X> obj)
    {
        std::lock_guard<std::mutex> l(m);
        return objectMap.emplace(std::string(name), std::move(obj)).second;
    }
    bool addObject(std::string_view name, std::shared_ptr<X> obj, Y type)
    {
        std::lock_guard<std::mutex> l(m);
        const bool added = objectMap.emplace(std::string(name), std::move(obj)).second;
        if (added) {
            typeMap[std::string(name)].push_back(type);
        }
        return added;
    }
    void addType(std::string_view name, Y type)
    {
        std::lock_guard<std::mutex> l(m);
        if (objectMap.find(name) != objectMap.end()) {
            auto& t = typeMap[std::string(name)];
            if (std::find(t.begin(), t.end(), type) == t.end()) {
                t.push_back(type);
            }
        }
    }
    bool empty() const
    {
        std::lock_guard<std::mutex> l(m);
        return objectMap.empty();
    }
    bool removeObject(std::string_view name)
    {
        std::lock_guard<std::mutex> l(m);
        auto f = objectMap.find(name);
        if (f == objectMap.end()) {
            return false;
        }
        eraseType(name);
        objectMap.erase(f);
        return true;
    }
    bool removeObject(std::function<bool(const std::shared_ptr<X>&)> operand)
    {
        std::lock_guard<std::mutex> l(m);
        for (auto it = objectMap.begin(); it != objectMap.end(); ++it) {
            if (operand(it->second)) {
                eraseType(it->first);
                objectMap.erase(it);
                return true;
            }
        }
        return false;
    }
    bool copyObject(std::string_view copyFromName, std::string_view copyToName)
    {
        std::lock_guard<std::mutex> l(m);
        auto f = objectMap.find(copyFromName);
        if (f == objectMap.end()) {
            return false;
        }
        auto ptr = f->second;
        const bool added = objectMap.emplace(std::string(copyToName), std::move(ptr)).second;
        if (added) {
            auto t = typeMap.find(copyFromName);
            if (t != typeMap.end()) {
                auto types = t->second;
                typeMap[std::string(copyToName)] = std::move(types);
            }
        }
        return added;
    }
    std::vector<std::shared_ptr<X>> getObjects() const
    {
        std::vector<std::shared_ptr<X>> out;
        std::lock_guard<std::mutex> l(m);
        for (auto& o : objectMap) {
            out.push_back(o.second);
        }
        return out;
    }
    std::shared_ptr<X> findObject(std::string_view name) const
    {
        std::lock_guard<std::mutex> l(m);
        auto f = objectMap.find(name);
        return (f != objectMap.end()) ? f->second : nullptr;
    }
    std::shared_ptr<X> findObject(std::function<bool(const std::shared_ptr<X>&)> operand) const
    {
        std::lock_guard<std::mutex> l(m);
        for (auto& o : objectMap) {
            if (operand(o.second)) {
                return o.second;
            }
        }
        return nullptr;
    }
    std::shared_ptr<X> findObject(std::function<bool(const std::shared_ptr<X>&)> operand,
                                  Y type) const
    {
        std::lock_guard<std::mutex> l(m);
        for (auto& o : objectMap) {
            if (operand(o.second) && typeMatch(o.first, type)) {
                return o.second;
            }
        }
        return nullptr;
    }
    bool checkObjectType(std::string_view name, Y type) const
    {
        std::lock_guard<std::mutex> l(m);
        return typeMatch(name, type);
    }

  private:
    bool typeMatch(std::string_view name, Y type) const
    {
        auto t = typeMap.find(name);
        return t != typeMap.end() &&
            std::find(t->second.begin(), t->second.end(), type) != t->second.end();
    }
    void eraseType(std::string_view name)
    {
        auto t = typeMap.find(name);
        if (t != typeMap.end()) {
            typeMap.erase(t);
        }
    }
    mutable std::mutex m;
    std::map<std::string, std::shared_ptr<X>, std::less<>> objectMap;
    std::map<std::string, std::vector<Y>, std::less<>> typeMap;
};
}  // namespace gmlc::concurrency
