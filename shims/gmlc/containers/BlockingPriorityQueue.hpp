// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>

namespace gmlc::containers {
/** FIFO with a second FIFO of elements that are always taken first*/
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingPriorityQueue {
  public:
    BlockingPriorityQueue() = default;
    explicit BlockingPriorityQueue(std::size_t /*capacity*/) {}
    BlockingPriorityQueue(const BlockingPriorityQueue&) = delete;
    BlockingPriorityQueue& operator=(const BlockingPriorityQueue&) = delete;
    template<class Z>
    void push(Z&& val)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.push_back(std::forward<Z>(val));
        m_cond.notify_all();
    }
    template<class Z>
    void pushPriority(Z&& val)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_priority.push_back(std::forward<Z>(val));
        m_cond.notify_all();
    }
    template<class... Args>
    void emplace(Args&&... args)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.emplace_back(std::forward<Args>(args)...);
        m_cond.notify_all();
    }
    template<class... Args>
    void emplacePriority(Args&&... args)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_priority.emplace_back(std::forward<Args>(args)...);
        m_cond.notify_all();
    }
    T pop()
    {
        std::unique_lock<MUTEX> l(m_lock);
        m_cond.wait(l, [this] { return any(); });
        return take();
    }
    template<class Rep, class Period>
    std::optional<T> pop(std::chrono::duration<Rep, Period> timeout)
    {
        std::unique_lock<MUTEX> l(m_lock);
        if (!m_cond.wait_for(l, timeout, [this] { return any(); })) {
            return std::nullopt;
        }
        return take();
    }
    std::optional<T> try_pop()
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (!any()) {
            return std::nullopt;
        }
        return take();
    }
    std::optional<T> try_peek() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (!m_priority.empty()) {
            return m_priority.front();
        }
        if (!m_data.empty()) {
            return m_data.front();
        }
        return std::nullopt;
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        return !any();
    }
    void clear()
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.clear();
        m_priority.clear();
    }
    void reserve(std::size_t /*capacity*/) {}

  private:
    bool any() const { return !m_data.empty() || !m_priority.empty(); }
    T take()
    {
        auto& q = m_priority.empty() ? m_data : m_priority;
        T v = std::move(q.front());
        q.pop_front();
        return v;
    }
    mutable MUTEX m_lock;
    COND m_cond;
    std::deque<T> m_data;
    std::deque<T> m_priority;
};
}  // namespace gmlc::containers
