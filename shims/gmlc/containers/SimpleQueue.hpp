// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include <deque>
#include <mutex>
#include <optional>
#include <utility>

namespace gmlc::containers {
template<class X, class MUTEX = std::mutex>
class SimpleQueue {
  public:
    SimpleQueue() = default;
    SimpleQueue(SimpleQueue&& o) noexcept
    {
        std::lock_guard<MUTEX> l(o.m_lock);
        m_data = std::move(o.m_data);
    }
    SimpleQueue& operator=(SimpleQueue&& o) noexcept
    {
        std::scoped_lock l(m_lock, o.m_lock);
        m_data = std::move(o.m_data);
        return *this;
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        return m_data.empty();
    }
    std::size_t size() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        return m_data.size();
    }
    void clear()
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.clear();
    }
    void reserve(std::size_t /*capacity*/) {}
    template<class Z>
    void push(Z&& val)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.push_back(std::forward<Z>(val));
    }
    template<class... Args>
    void emplace(Args&&... args)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.emplace_back(std::forward<Args>(args)...);
    }
    std::optional<X> pop()
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (m_data.empty()) {
            return std::nullopt;
        }
        std::optional<X> v(std::move(m_data.front()));
        m_data.pop_front();
        return v;
    }
    std::optional<X> peek() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (m_data.empty()) {
            return std::nullopt;
        }
        return m_data.front();
    }

  private:
    mutable MUTEX m_lock;
    std::deque<X> m_data;
};
}  // namespace gmlc::containers
