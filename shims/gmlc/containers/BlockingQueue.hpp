// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>

namespace gmlc::containers {
/** multi producer multi consumer FIFO with blocking pop*/
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingQueue {
  public:
    BlockingQueue() = default;
    explicit BlockingQueue(std::size_t /*capacity*/) {}
    BlockingQueue(const BlockingQueue&) = delete;
    BlockingQueue& operator=(const BlockingQueue&) = delete;
    template<class Z>
    void push(Z&& val)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.push_back(std::forward<Z>(val));
        m_cond.notify_all();
    }
    template<class Z>
    void pushFront(Z&& val)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.push_front(std::forward<Z>(val));
        m_cond.notify_all();
    }
    template<class... Args>
    void emplace(Args&&... args)
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.emplace_back(std::forward<Args>(args)...);
        m_cond.notify_all();
    }
    std::size_t size() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        return m_data.size();
    }
    T pop()
    {
        std::unique_lock<MUTEX> l(m_lock);
        m_cond.wait(l, [this] { return !m_data.empty(); });
        return take();
    }
    template<class Rep, class Period>
    std::optional<T> pop(std::chrono::duration<Rep, Period> timeout)
    {
        std::unique_lock<MUTEX> l(m_lock);
        if (!m_cond.wait_for(l, timeout, [this] { return !m_data.empty(); })) {
            return std::nullopt;
        }
        return take();
    }
    template<typename Functor>
    T pop(Functor callOnWaitFunction)
    {
        auto v = try_pop();
        while (!v) {
            callOnWaitFunction();
            v = try_pop();
            if (!v) {
                return pop();
            }
        }
        return std::move(*v);
    }
    std::optional<T> try_pop()
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (m_data.empty()) {
            return std::nullopt;
        }
        return take();
    }
    std::optional<T> try_peek() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        if (m_data.empty()) {
            return std::nullopt;
        }
        return m_data.front();
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> l(m_lock);
        return m_data.empty();
    }
    void clear()
    {
        std::lock_guard<MUTEX> l(m_lock);
        m_data.clear();
    }
    void reserve(std::size_t /*capacity*/) {}

  private:
    T take()
    {
        T v = std::move(m_data.front());
        m_data.pop_front();
        return v;
    }
    mutable MUTEX m_lock;
    COND m_cond;
    std::deque<T> m_data;
};
}  // namespace gmlc::containers
