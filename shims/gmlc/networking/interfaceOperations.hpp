/* Stand-in for gmlc-networking interface helpers. */
#pragma once
#include <string>
#include <string_view>
#include <vector>

namespace gmlc::networking {
enum class InterfaceTypes : char { TCP = 0, UDP = 1, IP = 2, IPC = 3, INPROC = 4 };
enum class InterfaceNetworks : char { LOCAL = 0, IPV4 = 4, IPV6 = 6, ALL = 10 };

inline std::string getLocalExternalAddress()
{
    return "127.0.0.1";
}
/** the sandbox has only a loopback network, so every wildcard resolves to it */
inline std::string generateMatchingInterfaceAddress(std::string_view server,
                                                    InterfaceNetworks network = InterfaceNetworks::LOCAL)
{
    std::string prefix;
    auto s = std::string(server);
    auto loc = s.find("://");
    if (loc != std::string::npos) {
        prefix = s.substr(0, loc + 3);
        s = s.substr(loc + 3);
    }
    const bool loop = (s.compare(0, 3, "127") == 0) || (s.find("localhost") != std::string::npos);
    switch (network) {
        case InterfaceNetworks::LOCAL:
            return loop ? prefix + "127.0.0.1" : prefix + "127.0.0.1";
        case InterfaceNetworks::IPV6:
            return prefix + "::1";
        case InterfaceNetworks::ALL:
            return loop ? prefix + "127.0.0.1" : prefix + "*";
        case InterfaceNetworks::IPV4:
        default:
            return prefix + "127.0.0.1";
    }
}
}  // namespace gmlc::networking
