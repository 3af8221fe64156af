// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include "string_viewOps.h"

#include <charconv>
#include <cerrno>
#include <cstdlib>
#include <limits>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace gmlc::utilities {
namespace shimdetail {
    inline std::string_view skipWs(std::string_view s)
    {
        auto b = s.find_first_not_of(" \t\n\r\f\v");
        return (b == std::string_view::npos) ? std::string_view{} : s.substr(b);
    }
}  // namespace shimdetail
/** convert the leading part of a string; pos is the number of characters used; throws std::invalid_argument or
 * std::out_of_range */
template<typename X>
X numConvPos(std::string_view V, std::size_t& pos)
{
    if constexpr (std::is_floating_point_v<X>) {
        const std::string s(V);
        char* end{nullptr};
        errno = 0;
        const double v = std::strtod(s.c_str(), &end);
        if (end == s.c_str()) {
            throw(std::invalid_argument("unable to convert string to number"));
        }
        if (errno == ERANGE && (v > 1.0 || v < -1.0)) {
            throw(std::out_of_range("numeric value out of range"));
        }
        pos = static_cast<std::size_t>(end - s.c_str());
        return static_cast<X>(v);
    } else {
        auto s = shimdetail::skipWs(V);
        const std::size_t lead = V.size() - s.size();
        std::size_t plus = 0;
        if (!s.empty() && s.front() == '+') {
            s.remove_prefix(1);
            plus = 1;
        }
        if constexpr (std::is_unsigned_v<X>) {
            bool neg = !s.empty() && s.front() == '-';
            if (neg) {
                s.remove_prefix(1);
                plus = 1;
            }
            X val{};
            auto r = std::from_chars(s.data(), s.data() + s.size(), val);
            if (r.ec == std::errc::invalid_argument) {
                throw(std::invalid_argument("unable to convert string to number"));
            }
            if (r.ec != std::errc{}) {
                throw(std::out_of_range("numeric value out of range"));
            }
            pos = lead + plus + static_cast<std::size_t>(r.ptr - s.data());
            return neg ? static_cast<X>(X{} - val) : val;
        } else {
            X val{};
            auto r = std::from_chars(s.data(), s.data() + s.size(), val);
            if (r.ec == std::errc::invalid_argument) {
                throw(std::invalid_argument("unable to convert string to number"));
            }
            if (r.ec != std::errc{}) {
                throw(std::out_of_range("numeric value out of range"));
            }
            pos = lead + plus + static_cast<std::size_t>(r.ptr - s.data());
            return val;
        }
    }
}
template<typename X>
X numConv(std::string_view V)
{
    std::size_t pos{0};
    return numConvPos<X>(V, pos);
}
template<typename X>
X numConv(const std::string& V)
{
    return numConv<X>(std::string_view(V));
}
template<typename X>
X numConv(const char* V)
{
    return numConv<X>(std::string_view(V));
}

template<typename X>
X numConvComp(std::string_view V, std::size_t& rem)
{
    return numConvPos<X>(V, rem);
}
template<typename X>
X numeric_conversion(std::string_view V, const X defValue)
{
    if (V.empty()) {
        return defValue;
    }
    const auto s = shimdetail::skipWs(V);
    if (s.empty() ||
        !((s.front() >= '0' && s.front() <= '9') || s.front() == '-' || s.front() == '+' ||
          s.front() == '.' || std::is_floating_point_v<X>)) {
        return defValue;
    }
    try {
        return numConv<X>(V);
    }
    catch (const std::invalid_argument&) {
        return defValue;
    }
    catch (const std::out_of_range&) {
        return defValue;
    }
}
template<typename X>
X numeric_conversionComplete(std::string_view V, const X defValue)
{
    if (V.empty()) {
        return defValue;
    }
    try {
        std::size_t rem{0};
        X res = numConvComp<X>(V, rem);
        while (rem < V.size()) {
            auto c = V[rem];
            if (c != ' ' && c != '\t' && c != '\n' && c != '\r' && c != '\0') {
                return defValue;
            }
            ++rem;
        }
        return res;
    }
    catch (const std::invalid_argument&) {
        return defValue;
    }
    catch (const std::out_of_range&) {
        return defValue;
    }
}
template<typename X>
std::vector<X> str2vector(std::string_view line, const X defValue, std::string_view delims = ",;")
{
    std::vector<X> av;
    if (line.empty()) {
        return av;
    }
    for (auto& piece : string_viewOps::split(line, delims)) {
        av.push_back(numeric_conversion<X>(piece, defValue));
    }
    return av;
}
}  // namespace gmlc::utilities
