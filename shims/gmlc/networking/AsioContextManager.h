/* Stand-in for gmlc-networking's AsioContextManager (the submodule is not present in this sandbox).
 * A named singleton io_context plus a reference counted background loop. */
#pragma once
#include <asio/executor_work_guard.hpp>
#include <asio/io_context.hpp>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <thread>

namespace gmlc::networking {
class AsioContextManager: public std::enable_shared_from_this<AsioContextManager> {
  public:
    class Servicer {
      public:
        explicit Servicer(std::shared_ptr<AsioContextManager> m): mgr(std::move(m)) {}
        Servicer(const Servicer&) = delete;
        Servicer& operator=(const Servicer&) = delete;
        ~Servicer() { mgr->haltContextLoop(); }

      private:
        std::shared_ptr<AsioContextManager> mgr;
    };
    using LoopHandle = std::unique_ptr<Servicer>;

    explicit AsioContextManager(std::string nm): name(std::move(nm)), ctx(std::make_unique<asio::io_context>()) {}
    ~AsioContextManager()
    {
        ctx->stop();
        if (loop.joinable()) {
            if (loop.get_id() == std::this_thread::get_id()) {
                loop.detach();
            } else {
                loop.join();
            }
        }
    }
    static std::shared_ptr<AsioContextManager> getContextPointer(const std::string& contextName = std::string{})
    {
        std::lock_guard<std::mutex> lk(mapLock());
        auto& mp = contexts();
        auto fnd = mp.find(contextName);
        if (fnd != mp.end()) {
            return fnd->second;
        }
        auto ptr = std::make_shared<AsioContextManager>(contextName);
        mp.emplace(contextName, ptr);
        return ptr;
    }
    static std::shared_ptr<AsioContextManager> getExistingContextPointer(const std::string& contextName = std::string{})
    {
        std::lock_guard<std::mutex> lk(mapLock());
        auto fnd = contexts().find(contextName);
        return (fnd != contexts().end()) ? fnd->second : nullptr;
    }
    static asio::io_context& getContext(const std::string& contextName = std::string{})
    {
        return getContextPointer(contextName)->getBaseContext();
    }
    static void closeContext(const std::string& contextName = std::string{})
    {
        std::lock_guard<std::mutex> lk(mapLock());
        contexts().erase(contextName);
    }
    static LoopHandle runContextLoop(const std::string& contextName = std::string{})
    {
        return getContextPointer(contextName)->startContextLoop();
    }
    asio::io_context& getBaseContext() const { return *ctx; }
    const std::string& getName() const { return name; }
    bool isRunning() const
    {
        std::lock_guard<std::mutex> lk(loopLock);
        return running;
    }
    LoopHandle startContextLoop()
    {
        std::lock_guard<std::mutex> lk(loopLock);
        ++users;
        if (!running) {
            if (loop.joinable()) {
                loop.join();
            }
            ctx->restart();
            guard.emplace(asio::make_work_guard(*ctx));
            running = true;
            loop = std::thread([this]() { ctx->run(); });
        }
        return std::make_unique<Servicer>(shared_from_this());
    }
    void haltContextLoop()
    {
        std::lock_guard<std::mutex> lk(loopLock);
        if (--users == 0 && running) {
            if (loop.get_id() == std::this_thread::get_id()) {
                return;  // leave the loop in place, it is idle
            }
            guard.reset();
            ctx->stop();
            loop.join();
            running = false;
        }
    }

  private:
    static std::map<std::string, std::shared_ptr<AsioContextManager>>& contexts()
    {
        static std::map<std::string, std::shared_ptr<AsioContextManager>> mp;
        return mp;
    }
    static std::mutex& mapLock()
    {
        static std::mutex m;
        return m;
    }
    std::string name;
    std::unique_ptr<asio::io_context> ctx;
    mutable std::mutex loopLock;
    std::optional<asio::executor_work_guard<asio::io_context::executor_type>> guard;
    std::thread loop;
    int users{0};
    bool running{false};
};
}  // namespace gmlc::networking
