/* Stand-in for gmlc-networking address helpers. */
#pragma once
#include <cctype>
#include <optional>
#include <string>
#include <string_view>
#include <utility>

namespace gmlc::networking {
inline std::string makePortAddress(std::string_view networkInterface, int portNumber)
{
    std::string a(networkInterface);
    a.push_back(':');
    a.append(std::to_string(portNumber));
    return a;
}

inline std::pair<std::string, std::optional<std::string>> extractInterfaceAndPortString(std::string_view address)
{
    auto last = address.find_last_of(':');
    auto start = address.find("://");
    if (last == std::string_view::npos || (start != std::string_view::npos && last <= start + 1)) {
        return {std::string(address), std::nullopt};
    }
    // a raw ipv6 address without brackets: no port can be distinguished
    return {std::string(address.substr(0, last)), std::string(address.substr(last + 1))};
}

inline std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address)
{
    auto [iface, prt] = extractInterfaceAndPortString(address);
    if (!prt) {
        return {std::move(iface), std::nullopt};
    }
    if (prt->empty()) {
        return {std::string(address), std::nullopt};
    }
    for (char c : *prt) {
        if (!std::isdigit(static_cast<unsigned char>(c))) {
            return {std::string(address), std::nullopt};
        }
    }
    try {
        return {std::move(iface), std::stoi(*prt)};
    }
    catch (const std::exception&) {
        return {std::string(address), std::nullopt};
    }
}

inline std::string stripProtocol(std::string_view address)
{
    auto loc = address.find("://");
    return std::string((loc != std::string_view::npos) ? address.substr(loc + 3) : address);
}
inline void removeProtocol(std::string& address)
{
    auto loc = address.find("://");
    if (loc != std::string::npos) {
        address.erase(0, loc + 3);
    }
}
inline std::string addProtocol(std::string_view address, std::string_view protocol)
{
    if (address.find("://") == std::string_view::npos) {
        return std::string(protocol) + "://" + std::string(address);
    }
    return std::string(address);
}
}  // namespace gmlc::networking
#include "interfaceOperations.hpp"
namespace gmlc::networking {
inline void insertProtocol(std::string& address, std::string_view protocol)
{
    if (address.find("://") == std::string::npos) {
        address.insert(0, "://");
        address.insert(0, protocol);
    }
}
inline void insertProtocol(std::string& address, InterfaceTypes type)
{
    switch (type) {
        case InterfaceTypes::TCP:
        case InterfaceTypes::IP:
            insertProtocol(address, std::string_view("tcp"));
            break;
        case InterfaceTypes::UDP:
            insertProtocol(address, std::string_view("udp"));
            break;
        case InterfaceTypes::IPC:
            insertProtocol(address, std::string_view("ipc"));
            break;
        case InterfaceTypes::INPROC:
            insertProtocol(address, std::string_view("inproc"));
            break;
    }
}
inline bool isIpv6(std::string_view address)
{
    auto a = stripProtocol(address);
    int colons = 0;
    for (char c : a) {
        colons += (c == ':') ? 1 : 0;
    }
    return colons > 1;
}
}  // namespace gmlc::networking
