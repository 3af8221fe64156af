// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include <mutex>
#include <type_traits>
#include <utility>

namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class atomic_guarded {
  public:
    template<typename... Us, typename = std::enable_if_t<std::is_constructible_v<T, Us...>>>
    explicit atomic_guarded(Us&&... data): m_obj(std::forward<Us>(data)...)
    {
    }
    T load() const
    {
        std::lock_guard<M> l(m_mutex);
        return m_obj;
    }
    operator T() const { return load(); }
    T operator*() const { return load(); }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(m_mutex);
        m_obj = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }
    T exchange(T v)
    {
        std::lock_guard<M> l(m_mutex);
        return std::exchange(m_obj, std::move(v));
    }

  private:
    T m_obj;
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
