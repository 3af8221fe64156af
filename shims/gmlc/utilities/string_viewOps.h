// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include "stringOps.h"

#include <stdexcept>

#include <string_view>
#include <vector>

namespace gmlc::utilities::string_viewOps {
constexpr std::string_view whiteSpaceCharacters(" \t\n\r\a\v\f");
constexpr std::string_view default_delim_chars(",;");
constexpr std::string_view default_quote_chars(R"raw('"`)raw");
constexpr std::string_view default_bracket_chars(R"raw([{(<'"`)raw");
enum class delimiter_compression { on, off };
using string_viewVector = std::vector<std::string_view>;

inline string_viewVector split(std::string_view str,
                               std::string_view delims = default_delim_chars,
                               delimiter_compression comp = delimiter_compression::off)
{
    return shimdetail::split(str, delims, comp == delimiter_compression::on);
}
inline string_viewVector splitlineQuotes(std::string_view str,
                                         std::string_view delims = default_delim_chars,
                                         std::string_view quotes = default_quote_chars,
                                         delimiter_compression comp = delimiter_compression::off)
{
    return shimdetail::sectionSplit(str, delims, quotes, comp == delimiter_compression::on);
}
inline string_viewVector splitlineBracket(std::string_view str,
                                          std::string_view delims = default_delim_chars,
                                          std::string_view brackets = default_bracket_chars,
                                          delimiter_compression comp = delimiter_compression::off)
{
    return shimdetail::sectionSplit(str, delims, brackets, comp == delimiter_compression::on);
}
inline std::string_view trim(std::string_view input, std::string_view ws = whiteSpaceCharacters)
{
    return shimdetail::trimmed(input, ws);
}
inline void trimString(std::string_view& input, std::string_view ws = whiteSpaceCharacters)
{
    input = shimdetail::trimmed(input, ws);
}
inline std::string_view removeQuotes(std::string_view str)
{
    auto ret = trim(str);
    if (ret.size() >= 2 && (ret.front() == '"' || ret.front() == '\'' || ret.front() == '`') &&
        ret.front() == ret.back()) {
        ret = ret.substr(1, ret.size() - 2);
    }
    return ret;
}
/** merge two adjacent views of the same string*/
inline std::string_view merge(std::string_view string1, std::string_view string2)
{
    auto diff = string2.data() - string1.data();
    if (diff >= 0 && diff < static_cast<decltype(diff)>(string1.size() + 30)) {
        return std::string_view(string1.data(),
                                static_cast<std::size_t>(diff) + string2.size());
    }
    if (string1.empty()) {
        return string2;
    }
    if (string2.empty()) {
        return string1;
    }
    throw(std::out_of_range("unable to merge two string_views"));
}
}  // namespace gmlc::utilities::string_viewOps
