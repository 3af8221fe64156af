// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include "handles.hpp"

namespace gmlc::libguarded {
template<typename T, typename M = std::shared_timed_mutex>
class ordered_guarded {
  public:
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit ordered_guarded(Us&&... data): m_obj(std::forward<Us>(data)...)
    {
    }
    template<typename Func>
    decltype(auto) modify(Func&& func)
    {
        std::lock_guard<M> l(m_mutex);
        return func(m_obj);
    }
    template<typename Func>
    decltype(auto) read(Func&& func) const
    {
        detail::shared_lock_t<M> l(m_mutex);
        return func(static_cast<const T&>(m_obj));
    }
    [[nodiscard]] shared_handle lock_shared() const
    {
        return shared_handle(&m_obj, detail::shared_lock_t<M>(m_mutex));
    }
    T load() const
    {
        detail::shared_lock_t<M> l(m_mutex);
        return m_obj;
    }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(m_mutex);
        m_obj = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }

  private:
    T m_obj;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
