// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include "handles.hpp"

namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class guarded {
  public:
    using handle = lock_handle<T, M>;
    template<typename... Us>
    explicit guarded(Us&&... data): m_obj(std::forward<Us>(data)...)
    {
    }
    [[nodiscard]] handle lock() { return handle(&m_obj, std::unique_lock<M>(m_mutex)); }
    [[nodiscard]] handle try_lock()
    {
        std::unique_lock<M> l(m_mutex, std::try_to_lock);
        return l.owns_lock() ? handle(&m_obj, std::move(l)) : handle();
    }
    T load() const
    {
        std::lock_guard<M> l(m_mutex);
        return m_obj;
    }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(m_mutex);
        m_obj = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }

  private:
    T m_obj;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
