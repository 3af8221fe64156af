/* Stand-in for gmlc-networking's TcpServer. */
#pragma once
#include "TcpConnection.h"

namespace gmlc::networking {
class TcpServer: public std::enable_shared_from_this<TcpServer> {
  public:
    using pointer = std::shared_ptr<TcpServer>;
    static pointer create(asio::io_context& ctx,
                          const std::string& address,
                          uint16_t port,
                          bool reuse = false,
                          size_t bufferSize = 10192)
    {
        return create(ctx, address, std::to_string(port), reuse, bufferSize);
    }
    static pointer create(asio::io_context& ctx,
                          const std::string& address,
                          const std::string& port,
                          bool reuse = false,
                          size_t bufferSize = 10192)
    {
        pointer p(new TcpServer(ctx, address, port, reuse, bufferSize));
        p->bindAll();
        return p;
    }
    static pointer create(asio::io_context& ctx, uint16_t port, size_t bufferSize = 10192)
    {
        return create(ctx, "0.0.0.0", std::to_string(port), false, bufferSize);
    }
    static pointer create(const SocketFactory&,
                          asio::io_context& ctx,
                          const std::string& address,
                          uint16_t port,
                          bool reuse = false,
                          size_t bufferSize = 10192)
    {
        return create(ctx, address, std::to_string(port), reuse, bufferSize);
    }
    static pointer create(const SocketFactory&,
                          asio::io_context& ctx,
                          const std::string& address,
                          const std::string& port,
                          bool reuse = false,
                          size_t bufferSize = 10192)
    {
        return create(ctx, address, port, reuse, bufferSize);
    }
    ~TcpServer() { close(); }

    bool isReady() const { return ready && !halted; }
    explicit operator bool() const { return isReady(); }
    void setPortReuse(bool re) { reuse = re; }
    bool reConnect(std::chrono::milliseconds timeOut)
    {
        auto limit = std::chrono::steady_clock::now() + timeOut;
        halted = false;
        while (!ready) {
            bindAll();
            if (ready) {
                break;
            }
            if (std::chrono::steady_clock::now() > limit) {
                return false;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(50));
        }
        return ready;
    }
    void setDataCall(std::function<size_t(TcpConnection::pointer, const char*, size_t)> f) { dataCall = std::move(f); }
    void setErrorCall(std::function<bool(TcpConnection::pointer, const std::error_code&)> f) { errorCall = std::move(f); }
    void setLoggingFunction(std::function<void(int, const std::string&)>) {}
    bool start()
    {
        if (halted) {
            return false;
        }
        if (!ready && !reConnect(std::chrono::milliseconds(1000))) {
            return false;
        }
        std::lock_guard<std::mutex> lk(lock);
        if (!accepting) {
            accepting = true;
            arm();
        }
        for (auto& c : connections) {
            c->startReceive();
        }
        return true;
    }
    void close()
    {
        std::vector<TcpConnection::pointer> conns;
        {
            std::lock_guard<std::mutex> lk(lock);
            halted = true;
            ready = false;
            accepting = false;
            asio::error_code ec;
            if (acceptor.is_open()) {
                acceptor.close(ec);
            }
            conns.swap(connections);
        }
        for (auto& c : conns) {
            c->close();
        }
    }
    void stop() { close(); }
    TcpConnection::pointer findSocket(int connectorID) const
    {
        std::lock_guard<std::mutex> lk(lock);
        for (const auto& c : connections) {
            if (c->getIdentifier() == connectorID) {
                return c;
            }
        }
        return nullptr;
    }

  private:
    TcpServer(asio::io_context& c, const std::string& address, const std::string& prt, bool re, size_t bs):
        ctx(c), acceptor(c), host(stripProtocol(address)), port(prt), reuse(re), bufferSize(bs)
    {
    }
    void bindAll()
    {
        std::lock_guard<std::mutex> lk(lock);
        asio::error_code ec;
        auto h = host;
        if (h.empty() || h == "*") {
            h = "0.0.0.0";
        }
        asio::ip::tcp::resolver resolver(ctx);
        auto res = resolver.resolve(h, port, asio::ip::tcp::resolver::passive, ec);
        if (ec || res.begin() == res.end()) {
            ready = false;
            return;
        }
        auto ep = res.begin()->endpoint();
        if (acceptor.is_open()) {
            acceptor.close(ec);
        }
        acceptor.open(ep.protocol(), ec);
        if (reuse) {
            acceptor.set_option(asio::socket_base::reuse_address(true), ec);
        }
        acceptor.bind(ep, ec);
        if (ec) {
            asio::error_code ec2;
            acceptor.close(ec2);
            ready = false;
            return;
        }
        acceptor.listen(asio::socket_base::max_listen_connections, ec);
        ready = !ec;
    }
    void arm()  // called with the lock held
    {
        auto conn = TcpConnection::create(ctx, bufferSize);
        acceptor.async_accept(conn->socket(), [self = shared_from_this(), conn](const std::error_code& ec) {
            self->onAccept(ec, conn);
        });
    }
    void onAccept(const std::error_code& ec, const TcpConnection::pointer& conn)
    {
        std::lock_guard<std::mutex> lk(lock);
        if (ec || halted) {
            if (!ec) {
                conn->close();
            }
            if (!halted && ec != asio::error::operation_aborted) {
                arm();
            }
            return;
        }
        conn->setDataCall(dataCall);
        conn->setErrorCall(errorCall);
        conn->markAccepted();
        connections.push_back(conn);
        conn->startReceive();
        arm();
    }
    asio::io_context& ctx;
    asio::ip::tcp::acceptor acceptor;
    std::string host;
    std::string port;
    bool reuse;
    size_t bufferSize;
    mutable std::mutex lock;
    std::atomic<bool> ready{false};
    std::atomic<bool> halted{false};
    bool accepting{false};
    std::vector<TcpConnection::pointer> connections;
    std::function<size_t(TcpConnection::pointer, const char*, size_t)> dataCall;
    std::function<bool(TcpConnection::pointer, const std::error_code&)> errorCall;
};
}  // namespace gmlc::networking
