// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include "handles.hpp"

namespace gmlc::libguarded {
template<typename T, typename M = std::shared_timed_mutex>
class shared_guarded_opt {
  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit shared_guarded_opt(bool enableLocking, Us&&... data):
        m_obj(std::forward<Us>(data)...), enabled(enableLocking)
    {
    }
    [[nodiscard]] handle lock()
    {
        return handle(&m_obj, enabled ? std::unique_lock<M>(m_mutex) : std::unique_lock<M>());
    }
    [[nodiscard]] shared_handle lock() const { return lock_shared(); }
    [[nodiscard]] shared_handle lock_shared() const
    {
        return shared_handle(&m_obj, slock());
    }
    T load() const
    {
        auto l = slock();
        return m_obj;
    }
    template<typename U>
    void store(U&& v)
    {
        auto l = enabled ? std::unique_lock<M>(m_mutex) : std::unique_lock<M>();
        m_obj = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }

  private:
    detail::shared_lock_t<M> slock() const
    {
        return enabled ? detail::shared_lock_t<M>(m_mutex) : detail::shared_lock_t<M>();
    }
    T m_obj;
    mutable M m_mutex;
    const bool enabled;
};
}  // namespace gmlc::libguarded
