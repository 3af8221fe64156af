// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include <condition_variable>
#include <mutex>
#include <optional>
#include <utility>

namespace gmlc::containers {
/** single slot hand over between threads*/
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class AirLock {
  public:
    template<class Z>
    bool try_load(Z&& val)
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (m_loaded) {
            return false;
        }
        m_data = std::forward<Z>(val);
        m_loaded = true;
        return true;
    }
    template<class Z>
    void load(Z&& val)
    {
        std::unique_lock<MUTEX> l(m_lock);
        m_cond.wait(l, [this] { return !m_loaded; });
        m_data = std::forward<Z>(val);
        m_loaded = true;
    }
    std::optional<T> try_unload()
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (!m_loaded) {
            return std::nullopt;
        }
        std::optional<T> v(std::move(m_data));
        m_data = T{};
        m_loaded = false;
        m_cond.notify_one();
        return v;
    }
    bool isLoaded() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        return m_loaded;
    }

  private:
    mutable MUTEX m_lock;
    COND m_cond;
    bool m_loaded{false};
    T m_data;
};
}  // namespace gmlc::containers
