// Stand-in for GMLC-TDC/concurrency (submodule not available offline).
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>

namespace gmlc::concurrency {
/** a flag that threads can wait on; activate -> trigger -> reset*/
class TriggerVariable {
  public:
    explicit TriggerVariable(bool active = false): activated(active) {}
    bool activate()
    {
        std::lock_guard<std::mutex> l(m);
        if (activated) {
            return false;
        }
        activated = true;
        triggered = false;
        cond.notify_all();
        return true;
    }
    bool trigger()
    {
        std::lock_guard<std::mutex> l(m);
        if (!activated) {
            return false;
        }
        triggered = true;
        cond.notify_all();
        return true;
    }
    bool isTriggered() const
    {
        std::lock_guard<std::mutex> l(m);
        return triggered;
    }
    bool isActive() const
    {
        std::lock_guard<std::mutex> l(m);
        return activated;
    }
    /** wait for the trigger; returns immediately true if not activated*/
    bool wait() const
    {
        std::unique_lock<std::mutex> l(m);
        if (!activated) {
            return true;
        }
        cond.wait(l, [this] { return triggered; });
        return true;
    }
    template<class D>
    bool wait_for(const D& duration) const
    {
        std::unique_lock<std::mutex> l(m);
        if (!activated) {
            return true;
        }
        return cond.wait_for(l, duration, [this] { return triggered; });
    }
    bool waitActivation() const
    {
        std::unique_lock<std::mutex> l(m);
        cond.wait(l, [this] { return activated; });
        return true;
    }
    template<class D>
    bool wait_forActivation(const D& duration) const
    {
        std::unique_lock<std::mutex> l(m);
        return cond.wait_for(l, duration, [this] { return activated; });
    }
    /** wait for the trigger (if active) and then deactivate*/
    bool reset()
    {
        std::unique_lock<std::mutex> l(m);
        if (activated) {
            cond.wait(l, [this] { return triggered; });
            activated = false;
        }
        return true;
    }

  private:
    bool activated{false};
    bool triggered{false};
    mutable std::mutex m;
    mutable std::condition_variable cond;
};
}  // namespace gmlc::concurrency
