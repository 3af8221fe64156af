// Stand-in for GMLC-TDC/concurrency (submodule not available offline).
#pragma once
#include "TripWire.hpp"

#include <algorithm>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace gmlc::concurrency {
/** holder of objects to destroy when no longer referenced elsewhere*/
template<class X>
class DelayedDestructor {
  public:
    DelayedDestructor() = default;
    explicit DelayedDestructor(std::function<void(std::shared_ptr<X>& ptr)> callFirst):
        callBeforeDeleteFunction(std::move(callFirst))
    {
    }
    ~DelayedDestructor()
    {
        try {
            int ii = 0;
            while (remaining() > 0 && ii < 5) {
                ++ii;
                destroyObjects();
                if (remaining() > 0 && ii % 2 == 0) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(ii * 10));
                }
            }
        }
        catch (...) {
        }
    }
    DelayedDestructor(const DelayedDestructor&) = delete;
    DelayedDestructor& operator=(const DelayedDestructor&) = delete;
    /** @return the number of elements remaining*/
    std::size_t destroyObjects()
    {
        std::vector<std::shared_ptr<X>> ready;
        std::vector<std::shared_ptr<X>> drop;
        std::size_t left = 0;
        {
            std::lock_guard<std::recursive_mutex> l(m);
            for (auto& e : elements) {
                if (e.use_count() == 1) {
                    ready.push_back(e);
                }
            }
            // anything selected is held by elements and ready only
            for (auto it = elements.begin(); it != elements.end();) {
                if (std::find(ready.begin(), ready.end(), *it) != ready.end()) {
                    it = elements.erase(it);
                } else {
                    ++it;
                }
            }
            left = elements.size();
        }
        for (auto& e : ready) {
            if (callBeforeDeleteFunction) {
                callBeforeDeleteFunction(e);
            }
        }
        ready.clear();
        return left;
    }
    std::size_t destroyObjects(std::chrono::milliseconds delay)
    {
        using namespace std::chrono_literals;
        std::size_t left = remaining();
        auto waited = 0ms;
        const auto step = (delay < 100ms) ? delay : 50ms;
        left = destroyObjects();
        while (left > 0 && waited < delay) {
            std::this_thread::sleep_for(step);
            waited += step;
            left = destroyObjects();
        }
        return left;
    }
    void addObjectsToBeDestroyed(std::shared_ptr<X> obj)
    {
        std::lock_guard<std::recursive_mutex> l(m);
        elements.push_back(std::move(obj));
    }

  private:
    std::size_t remaining()
    {
        std::lock_guard<std::recursive_mutex> l(m);
        return elements.size();
    }
    std::recursive_mutex m;
    std::vector<std::shared_ptr<X>> elements;
    std::function<void(std::shared_ptr<X>& ptr)> callBeforeDeleteFunction;
};
}  // namespace gmlc::concurrency
