// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include "handles.hpp"

#include <atomic>

namespace gmlc::libguarded {
/** mutable under a lock until transitioned, then read only without locking*/
template<typename T, typename M = std::mutex>
class staged_guarded {
  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit staged_guarded(Us&&... data): m_obj(std::forward<Us>(data)...)
    {
    }
    void transition() { constant = true; }
    [[nodiscard]] handle lock()
    {
        if (constant) {
            return handle();
        }
        return handle(&m_obj, std::unique_lock<M>(m_mutex));
    }
    [[nodiscard]] shared_handle lock_shared() const
    {
        if (constant) {
            return shared_handle(&m_obj, detail::shared_lock_t<M>());
        }
        return shared_handle(&m_obj, detail::shared_lock_t<M>(m_mutex));
    }

  private:
    T m_obj;
    std::atomic<bool> constant{false};
    mutable M m_mutex;
};
}  // namespace gmlc::libguarded
