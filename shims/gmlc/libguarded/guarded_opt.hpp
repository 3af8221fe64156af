// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include "handles.hpp"

namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class guarded_opt {
  public:
    using handle = lock_handle<T, M>;
    template<typename... Us>
    explicit guarded_opt(bool enableLocking, Us&&... data):
        m_obj(std::forward<Us>(data)...), enabled(enableLocking)
    {
    }
    [[nodiscard]] handle lock() { return handle(&m_obj, locker()); }
    [[nodiscard]] handle try_lock()
    {
        if (!enabled) {
            return handle(&m_obj, std::unique_lock<M>());
        }
        std::unique_lock<M> l(m_mutex, std::try_to_lock);
        return l.owns_lock() ? handle(&m_obj, std::move(l)) : handle();
    }
    T load() const
    {
        auto l = locker();
        return m_obj;
    }
    template<typename U>
    void store(U&& v)
    {
        auto l = locker();
        m_obj = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }

  private:
    std::unique_lock<M> locker() const
    {
        return enabled ? std::unique_lock<M>(m_mutex) : std::unique_lock<M>();
    }
    T m_obj;
    mutable M m_mutex;
    const bool enabled;
};
}  // namespace gmlc::libguarded
