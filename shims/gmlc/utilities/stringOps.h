// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include <algorithm>
#include <cctype>
#include <map>
#include <random>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace gmlc::utilities {
using stringVector = std::vector<std::string>;

namespace shimdetail {
    template<class X>
    std::vector<X> split(const X& str, std::string_view delims, bool compress)
    {
        std::vector<X> ret;
        auto pos = str.find_first_of(delims);
        decltype(pos) start = 0;
        while (pos != X::npos) {
            if (pos != start) {
                ret.push_back(str.substr(start, pos - start));
            } else if (!compress) {
                ret.push_back(X());
            }
            start = pos + 1;
            pos = str.find_first_of(delims, start);
        }
        if (start < str.length()) {
            ret.push_back(str.substr(start));
        } else if (!compress) {
            ret.push_back(X());
        }
        return ret;
    }
    inline char closer(char c)
    {
        switch (c) {
            case '[':
                return ']';
            case '{':
                return '}';
            case '(':
                return ')';
            case '<':
                return '>';
            default:
                return c;
        }
    }
    template<class X>
    std::vector<X>
        sectionSplit(const X& line, std::string_view delims, std::string_view sections, bool compress)
    {
        std::vector<X> ret;
        std::size_t start = 0;
        std::string stack;
        std::size_t i = 0;
        for (; i < line.size(); ++i) {
            const char c = line[i];
            if (!stack.empty()) {
                if (c == stack.back()) {
                    stack.pop_back();
                } else if (closer(stack.back()) != '"' && stack.back() != '"' &&
                           stack.back() != '\'' && stack.back() != '`' &&
                           sections.find(c) != std::string_view::npos) {
                    stack.push_back(closer(c));
                }
                continue;
            }
            if (sections.find(c) != std::string_view::npos) {
                // only a section when it is closed later on
                if (line.find(closer(c), i + 1) != X::npos) {
                    stack.push_back(closer(c));
                    continue;
                }
            }
            if (delims.find(c) != std::string_view::npos) {
                if (i != start || !compress) {
                    ret.push_back(line.substr(start, i - start));
                }
                start = i + 1;
            }
        }
        if (start < line.size()) {
            ret.push_back(line.substr(start));
        } else if (!compress) {
            ret.push_back(X());
        }
        return ret;
    }
    template<class X>
    X trimmed(const X& s, std::string_view ws)
    {
        auto b = s.find_first_not_of(ws);
        if (b == X::npos) {
            return X{};
        }
        return s.substr(b, s.find_last_not_of(ws) - b + 1);
    }
}  // namespace shimdetail

inline std::string convertToLowerCase(std::string_view in)
{
    std::string out(in);
    std::transform(out.begin(), out.end(), out.begin(), [](unsigned char c) {
        return static_cast<char>(std::tolower(c));
    });
    return out;
}
inline std::string convertToUpperCase(std::string_view in)
{
    std::string out(in);
    std::transform(out.begin(), out.end(), out.begin(), [](unsigned char c) {
        return static_cast<char>(std::toupper(c));
    });
    return out;
}
inline void makeLowerCase(std::string& s)
{
    s = convertToLowerCase(s);
}
inline void makeUpperCase(std::string& s)
{
    s = convertToUpperCase(s);
}
inline std::string randomString(std::string::size_type length)
{
    static constexpr char chars[] =
        "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    thread_local std::mt19937 rg{std::random_device{}() +
                                 static_cast<unsigned int>(std::hash<std::string>{}("x"))};
    thread_local std::uniform_int_distribution<int> pick(0, static_cast<int>(sizeof(chars)) - 2);
    std::string s;
    s.reserve(length);
    while (length-- > 0) {
        s.push_back(chars[pick(rg)]);
    }
    return s;
}

namespace stringOps {
    const std::string whiteSpaceCharacters(" \t\n\r\a\v\f");
    const std::string default_delim_chars(",;");
    const std::string default_quote_chars(R"raw('"`)raw");
    const std::string default_bracket_chars(R"raw([{(<'"`)raw");
    enum class delimiter_compression { on, off };

    inline stringVector splitline(const std::string& line,
                                  const std::string& delims = default_delim_chars,
                                  delimiter_compression compression = delimiter_compression::off)
    {
        return shimdetail::split(line, delims, compression == delimiter_compression::on);
    }
    inline stringVector splitline(const std::string& line, char del)
    {
        return shimdetail::split(line, std::string(1, del), false);
    }
    inline stringVector
        splitlineQuotes(const std::string& line,
                        const std::string& delims = default_delim_chars,
                        const std::string& quotes = default_quote_chars,
                        delimiter_compression compression = delimiter_compression::off)
    {
        return shimdetail::sectionSplit(line,
                                        delims,
                                        quotes,
                                        compression == delimiter_compression::on);
    }
    inline stringVector
        splitlineBracket(const std::string& line,
                         const std::string& delims = default_delim_chars,
                         const std::string& brackets = default_bracket_chars,
                         delimiter_compression compression = delimiter_compression::off)
    {
        return shimdetail::sectionSplit(line,
                                        delims,
                                        brackets,
                                        compression == delimiter_compression::on);
    }
    inline std::string trim(const std::string& input,
                            const std::string& ws = whiteSpaceCharacters)
    {
        return shimdetail::trimmed(input, ws);
    }
    inline void trimString(std::string& input, const std::string& ws = whiteSpaceCharacters)
    {
        input = shimdetail::trimmed(input, ws);
    }
    inline void trim(stringVector& input, const std::string& ws = whiteSpaceCharacters)
    {
        for (auto& s : input) {
            trimString(s, ws);
        }
    }
    inline std::string removeQuotes(const std::string& str)
    {
        std::string ret = trim(str);
        if (ret.size() >= 2 && (ret.front() == '"' || ret.front() == '\'' || ret.front() == '`') &&
            ret.front() == ret.back()) {
            ret = ret.substr(1, ret.size() - 2);
        }
        return ret;
    }
    inline std::string removeBrackets(const std::string& str)
    {
        std::string ret = trim(str);
        if (ret.size() >= 2 &&
            (ret.front() == '[' || ret.front() == '(' || ret.front() == '{' ||
             ret.front() == '<') &&
            shimdetail::closer(ret.front()) == ret.back()) {
            ret = ret.substr(1, ret.size() - 2);
        }
        return ret;
    }
    inline int trailingStringInt(const std::string& input, std::string& output, int defNum = -1)
    {
        auto pos = input.find_last_not_of("0123456789");
        if (pos == input.size() - 1 || input.empty()) {
            output = input;
            return defNum;
        }
        output = (pos == std::string::npos) ? std::string{} : input.substr(0, pos + 1);
        return std::stoi(input.substr((pos == std::string::npos) ? 0 : pos + 1));
    }
}  // namespace stringOps
}  // namespace gmlc::utilities
