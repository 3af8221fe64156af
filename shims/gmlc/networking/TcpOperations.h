/* Stand-in for gmlc-networking's TcpOperations. */
#pragma once
#include "TcpConnection.h"
namespace gmlc::networking {
inline TcpConnection::pointer establishConnection(asio::io_context& ctx,
                                                  const std::string& host,
                                                  const std::string& port,
                                                  std::chrono::milliseconds timeOut = std::chrono::milliseconds(4000))
{
    const auto limit = std::chrono::steady_clock::now() + timeOut;
    while (true) {
        auto c = TcpConnection::create(ctx, host, port);
        if (c->waitUntilConnected(timeOut)) {
            return c;
        }
        if (std::chrono::steady_clock::now() >= limit) {
            return nullptr;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(50));
    }
}
inline TcpConnection::pointer establishConnection(const SocketFactory&,
                                                  asio::io_context& ctx,
                                                  const std::string& host,
                                                  const std::string& port,
                                                  std::chrono::milliseconds timeOut = std::chrono::milliseconds(4000))
{
    return establishConnection(ctx, host, port, timeOut);
}
inline TcpConnection::pointer establishConnection(const SocketFactory&,
                                                  asio::io_context& ctx,
                                                  const std::string& address,
                                                  std::chrono::milliseconds timeOut = std::chrono::milliseconds(4000))
{
    auto [iface, prt] = extractInterfaceAndPortString(address);
    return establishConnection(ctx, iface, prt ? *prt : std::string{}, timeOut);
}
}  // namespace gmlc::networking
