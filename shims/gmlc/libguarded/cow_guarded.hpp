// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include <memory>
#include <mutex>
#include <utility>

namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class cow_guarded {
    class committer {
      public:
        committer() = default;
        committer(cow_guarded* g, std::unique_lock<M> l): owner(g), lk(std::move(l)) {}
        void operator()(T* p)
        {
            std::shared_ptr<const T> next(p);
            if (owner != nullptr && !cancelled) {
                std::lock_guard<std::mutex> l(owner->m_ptrLock);
                owner->m_data = std::move(next);
            }
            if (lk.owns_lock()) {
                lk.unlock();
            }
        }
        void cancel() { cancelled = true; }

      private:
        cow_guarded* owner{nullptr};
        std::unique_lock<M> lk;
        bool cancelled{false};
    };

  public:
    using handle = std::unique_ptr<T, committer>;
    using shared_handle = std::shared_ptr<const T>;
    template<typename... Us>
    explicit cow_guarded(Us&&... data): m_data(std::make_shared<const T>(std::forward<Us>(data)...))
    {
    }
    [[nodiscard]] handle lock()
    {
        std::unique_lock<M> l(m_writeLock);
        auto copy = std::make_unique<T>(*lock_shared());
        return handle(copy.release(), committer(this, std::move(l)));
    }
    [[nodiscard]] shared_handle lock_shared() const
    {
        std::lock_guard<std::mutex> l(m_ptrLock);
        return m_data;
    }

  private:
    mutable std::mutex m_ptrLock;
    std::shared_ptr<const T> m_data;
    M m_writeLock;
};
}  // namespace gmlc::libguarded
