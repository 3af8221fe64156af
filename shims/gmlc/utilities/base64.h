// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>

namespace gmlc::utilities {
inline std::string base64_encode(const void* bytes, std::size_t length)
{
    static constexpr char tab[] =
        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    const auto* p = static_cast<const unsigned char*>(bytes);
    std::string out;
    out.reserve((length + 2) / 3 * 4);
    std::size_t i = 0;
    for (; i + 2 < length; i += 3) {
        const unsigned v = (p[i] << 16U) | (p[i + 1] << 8U) | p[i + 2];
        out.push_back(tab[(v >> 18U) & 63U]);
        out.push_back(tab[(v >> 12U) & 63U]);
        out.push_back(tab[(v >> 6U) & 63U]);
        out.push_back(tab[v & 63U]);
    }
    if (i < length) {
        unsigned v = p[i] << 16U;
        if (i + 1 < length) {
            v |= p[i + 1] << 8U;
        }
        out.push_back(tab[(v >> 18U) & 63U]);
        out.push_back(tab[(v >> 12U) & 63U]);
        out.push_back((i + 1 < length) ? tab[(v >> 6U) & 63U] : '=');
        out.push_back('=');
    }
    return out;
}
inline int shimB64(unsigned char c)
{
    if (c >= 'A' && c <= 'Z') {
        return c - 'A';
    }
    if (c >= 'a' && c <= 'z') {
        return c - 'a' + 26;
    }
    if (c >= '0' && c <= '9') {
        return c - '0' + 52;
    }
    if (c == '+') {
        return 62;
    }
    if (c == '/') {
        return 63;
    }
    return -1;
}
/** decode until the end or the first character outside the alphabet*/
inline std::string base64_decode_to_string(std::string_view encoded, std::size_t offset = 0)
{
    std::string out;
    unsigned acc = 0;
    unsigned bits = 0;
    for (std::size_t i = offset; i < encoded.size(); ++i) {
        const int v = shimB64(static_cast<unsigned char>(encoded[i]));
        if (v < 0) {
            break;
        }
        acc = ((acc << 6U) | static_cast<unsigned>(v)) & 0xFFFFFFU;
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            out.push_back(static_cast<char>((acc >> bits) & 0xFFU));
        }
    }
    return out;
}
inline std::vector<unsigned char> base64_decode(std::string_view encoded, std::size_t offset = 0)
{
    auto s = base64_decode_to_string(encoded, offset);
    return {s.begin(), s.end()};
}
inline std::size_t
    base64_decode(std::string_view encoded, void* data, std::size_t max_size)
{
    auto s = base64_decode_to_string(encoded);
    auto n = (s.size() < max_size) ? s.size() : max_size;
    for (std::size_t i = 0; i < n; ++i) {
        static_cast<char*>(data)[i] = s[i];
    }
    return n;
}
}  // namespace gmlc::utilities
