// Stand-in for GMLC-TDC/concurrency libguarded (submodule not available offline).
#pragma once
#include <chrono>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <type_traits>
#include <utility>

namespace gmlc::libguarded {
namespace detail {
    template<class M, class = void>
    struct has_shared: std::false_type {};
    template<class M>
    struct has_shared<M, std::void_t<decltype(std::declval<M&>().lock_shared())>>:
        std::true_type {};
    template<class M>
    using shared_lock_t =
        std::conditional_t<has_shared<M>::value, std::shared_lock<M>, std::unique_lock<M>>;
}  // namespace detail

/** pointer like access that holds a lock*/
template<typename T, typename Lock>
class handle_base {
  public:
    using pointer = T*;
    using element_type = T;
    handle_base() = default;
    handle_base(T* val, Lock lock): data(val), mlock(std::move(lock)) {}
    handle_base(handle_base&& o) noexcept: data(std::exchange(o.data, nullptr)), mlock(std::move(o.mlock)) {}
    handle_base& operator=(handle_base&& o) noexcept
    {
        data = std::exchange(o.data, nullptr);
        mlock = std::move(o.mlock);
        return *this;
    }
    handle_base(const handle_base&) = delete;
    handle_base& operator=(const handle_base&) = delete;
    T* operator->() const noexcept { return data; }
    T& operator*() const noexcept { return *data; }
    T* get() const noexcept { return data; }
    explicit operator bool() const noexcept { return data != nullptr; }
    bool operator==(std::nullptr_t) const noexcept { return data == nullptr; }
    template<class I>
    decltype(auto) operator[](I&& i) const
    {
        return (*data)[std::forward<I>(i)];
    }
    auto begin() const { return data->begin(); }
    auto end() const { return data->end(); }
    void unlock()
    {
        data = nullptr;
        if (mlock.owns_lock()) {
            mlock.unlock();
        }
    }
    void reset() { unlock(); }

  private:
    T* data{nullptr};
    Lock mlock;
};

template<typename T, typename M>
using lock_handle = handle_base<T, std::unique_lock<M>>;
template<typename T, typename M>
using shared_lock_handle = handle_base<const T, detail::shared_lock_t<M>>;
template<typename M>
using shared_locker = detail::shared_lock_t<M>;
}  // namespace gmlc::libguarded
