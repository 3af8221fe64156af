/* Stand-in for gmlc-networking's TcpConnection. Thread safe: every access to the socket object that changes
 * its state is made under a mutex, writes are made on a non-blocking descriptor under a separate send mutex. */
#pragma once
#include "SocketFactory.h"
#include "addressOperations.hpp"

#include <asio/connect.hpp>
#include <asio/io_context.hpp>
#include <asio/ip/tcp.hpp>
#include <asio/read.hpp>
#include <asio/write.hpp>
#include <atomic>
#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <poll.h>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <vector>

namespace gmlc::networking {
class TcpConnection: public std::enable_shared_from_this<TcpConnection> {
  public:
    using pointer = std::shared_ptr<TcpConnection>;

    static pointer create(const SocketFactory&,
                          asio::io_context& ctx,
                          const std::string& host,
                          const std::string& port,
                          size_t bufferSize = 10192)
    {
        return create(ctx, host, port, bufferSize);
    }
    static pointer create(asio::io_context& ctx,
                          const std::string& host,
                          const std::string& port,
                          size_t bufferSize = 10192)
    {
        pointer p(new TcpConnection(ctx, bufferSize));
        p->connect(host, port);
        return p;
    }
    /** create for the server side*/
    static pointer create(asio::io_context& ctx, size_t bufferSize)
    {
        return pointer(new TcpConnection(ctx, bufferSize));
    }
    ~TcpConnection()
    {
        asio::error_code ec;
        if (sock.is_open()) {
            sock.close(ec);
        }
    }
    asio::ip::tcp::socket& socket() { return sock; }
    int getIdentifier() const { return id; }

    void setDataCall(std::function<size_t(pointer, const char*, size_t)> f) { dataCall = std::move(f); }
    void setErrorCall(std::function<bool(pointer, const std::error_code&)> f) { errorCall = std::move(f); }
    void setLoggingFunction(std::function<void(int, const std::string&)> f) { logFunc = std::move(f); }

    /** begin receiving (also used by the server when a connection has been accepted)*/
    void startReceive()
    {
        if (!waitUntilConnected(std::chrono::milliseconds(4000))) {
            return;
        }
        std::lock_guard<std::mutex> lk(sockLock);
        if (!receiving && !closing) {
            receiving = true;
            armRead();
        }
    }
    void markAccepted()
    {
        asio::error_code ec;
        sock.set_option(asio::ip::tcp::no_delay(true), ec);
        sock.non_blocking(true, ec);
        state = State::connected;
    }

    size_t send(const void* buffer, size_t len)
    {
        if (!waitUntilConnected(std::chrono::milliseconds(300))) {
            if (!waitUntilConnected(std::chrono::milliseconds(200))) {
                throw std::system_error(std::make_error_code(std::errc::not_connected));
            }
        }
        std::lock_guard<std::mutex> lk(sendLock);
        size_t done = 0;
        const auto* cb = static_cast<const char*>(buffer);
        while (done < len) {
            if (closing) {
                throw std::system_error(asio::error::make_error_code(asio::error::connection_aborted));
            }
            asio::error_code ec;
            done += sock.write_some(asio::buffer(cb + done, len - done), ec);
            if (ec == asio::error::would_block || ec == asio::error::try_again) {
                pollfd pf{sock.native_handle(), POLLOUT, 0};
                ::poll(&pf, 1, 50);
                continue;
            }
            if (ec) {
                throw std::system_error(ec);
            }
        }
        return done;
    }
    size_t send(const std::string& s) { return send(s.data(), s.size()); }
    size_t send(std::string_view s) { return send(s.data(), s.size()); }

    size_t receive(void* buffer, size_t maxDataSize)
    {
        if (!waitUntilConnected(std::chrono::milliseconds(200))) {
            throw std::system_error(std::make_error_code(std::errc::not_connected));
        }
        while (!closing) {
            asio::error_code ec;
            auto sz = sock.read_some(asio::buffer(buffer, maxDataSize), ec);
            if (ec == asio::error::would_block || ec == asio::error::try_again) {
                pollfd pf{sock.native_handle(), POLLIN, 0};
                ::poll(&pf, 1, 50);
                continue;
            }
            if (ec) {
                throw std::system_error(ec);
            }
            return sz;
        }
        return 0;
    }
    template<class Callback>
    void async_receive(void* buffer, size_t maxDataSize, Callback cb)
    {
        std::lock_guard<std::mutex> lk(sockLock);
        if (closing) {
            return;
        }
        sock.async_read_some(asio::buffer(buffer, maxDataSize),
                             [self = shared_from_this(), cb](const std::error_code& ec, size_t n) { cb(ec, n); });
    }
    void cancel()
    {
        std::lock_guard<std::mutex> lk(sockLock);
        asio::error_code ec;
        if (sock.is_open()) {
            sock.cancel(ec);
        }
    }
    bool isReceiving() const { return receiving; }
    bool hasReceiver() const { return receiving; }
    bool isConnected() const { return state == State::connected; }
    bool waitUntilConnected(std::chrono::milliseconds timeOut)
    {
        if (state == State::connected) {
            return true;
        }
        auto limit = std::chrono::steady_clock::now() + timeOut;
        while (state == State::connecting) {
            if (timeOut.count() >= 0 && std::chrono::steady_clock::now() > limit) {
                return false;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
        return state == State::connected;
    }
    void close() { closeNoWait(); }
    void closeNoWait()
    {
        closing = true;
        std::lock_guard<std::mutex> lk0(sendLock);
        std::lock_guard<std::mutex> lk(sockLock);
        if (sock.is_open()) {
            asio::error_code ec;
            sock.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
            sock.close(ec);
        }
        state = State::closed;
    }
    void waitOnClose() {}

  private:
    enum class State { connecting, connected, failed, closed };
    TcpConnection(asio::io_context& ctx, size_t bufferSize): sock(ctx), data(bufferSize < 64 ? 64 : bufferSize), id(nextId()++) {}
    static std::atomic<int>& nextId()
    {
        static std::atomic<int> n{1};
        return n;
    }
    void connect(const std::string& host, const std::string& port)
    {
        asio::error_code ec;
        asio::ip::tcp::resolver resolver(sock.get_executor());
        auto h = stripProtocol(host);
        if (h.empty() || h == "*") {
            h = "127.0.0.1";
        }
        auto res = resolver.resolve(h, port, ec);
        if (!ec) {
            for (const auto& ep : res) {
                asio::error_code ec2;
                sock.close(ec2);
                sock.connect(ep.endpoint(), ec);
                if (!ec) {
                    break;
                }
            }
        }
        if (ec) {
            state = State::failed;
            return;
        }
        sock.set_option(asio::ip::tcp::no_delay(true), ec);
        sock.non_blocking(true, ec);
        state = State::connected;
    }
    void armRead()
    {
        sock.async_read_some(asio::buffer(data.data() + residual, data.size() - residual),
                             [self = shared_from_this()](const std::error_code& ec, size_t n) { self->onRead(ec, n); });
    }
    void onRead(const std::error_code& ec, size_t n)
    {
        if (closing) {
            return;
        }
        if (!ec) {
            size_t total = residual + n;
            size_t used = dataCall ? dataCall(shared_from_this(), data.data(), total) : total;
            if (used < total) {
                if (used > 0) {
                    std::memmove(data.data(), data.data() + used, total - used);
                }
                residual = total - used;
                if (residual == data.size()) {
                    data.resize(data.size() * 2);
                }
            } else {
                residual = 0;
            }
        } else {
            if (ec == asio::error::operation_aborted) {
                receiving = false;
                return;
            }
            bool keep = errorCall ? errorCall(shared_from_this(), ec) : false;
            if (!keep) {
                receiving = false;
                return;
            }
        }
        std::lock_guard<std::mutex> lk(sockLock);
        if (!closing) {
            armRead();
        }
    }

    asio::ip::tcp::socket sock;
    std::mutex sockLock;
    std::mutex sendLock;
    std::vector<char> data;
    size_t residual{0};
    std::atomic<bool> closing{false};
    std::atomic<bool> receiving{false};
    std::atomic<State> state{State::connecting};
    std::function<size_t(pointer, const char*, size_t)> dataCall;
    std::function<bool(pointer, const std::error_code&)> errorCall;
    std::function<void(int, const std::string&)> logFunc;
    const int id;
};
}  // namespace gmlc::networking
