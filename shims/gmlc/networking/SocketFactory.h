#pragma once
#include <string>
namespace gmlc::networking {
/** only plain sockets are supported by the stand-in */
class SocketFactory {
  public:
    SocketFactory() = default;
    explicit SocketFactory(const std::string& /*config*/) {}
};
}  // namespace gmlc::networking
