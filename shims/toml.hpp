/* Stand-in for the part of toml11 (v4 API) that HELICS uses: a TOML value type, a parser for the subset of TOML 1.0
 * used in configuration files (all scalar kinds but dates, arrays, inline tables, tables, arrays of tables, dotted and
 * quoted keys, basic, literal and multi-line strings) and the find/find_or/get helpers. */
#pragma once
#include <chrono>
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <istream>
#include <iterator>
#include <limits>
#include <map>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace toml {
struct exception: public std::exception {
    explicit exception(std::string s): msg(std::move(s)) {}
    const char* what() const noexcept override { return msg.c_str(); }
    std::string msg;
};
struct syntax_error: public exception {
    using exception::exception;
};
struct type_error: public exception {
    using exception::exception;
};
struct file_io_error: public exception {
    using exception::exception;
};

enum class value_t : std::uint8_t {
    empty = 0,
    boolean = 1,
    integer = 2,
    floating = 3,
    string = 4,
    offset_datetime = 5,
    local_datetime = 6,
    local_date = 7,
    local_time = 8,
    array = 9,
    table = 10
};
struct local_time_type {
    std::int64_t ns{0};
};

class value {
  public:
    using array_type = std::vector<value>;
    using table_type = std::map<std::string, value>;
    using key_type = std::string;

    value() = default;
    value(bool b): d(b) {}
    template<class I, std::enable_if_t<std::is_integral_v<I> && !std::is_same_v<I, bool>, int> = 0>
    value(I i): d(static_cast<std::int64_t>(i))
    {
    }
    value(double f): d(f) {}
    value(std::string s): d(std::move(s)) {}
    value(const char* s): d(std::string(s)) {}
    value(std::string_view s): d(std::string(s)) {}
    value(local_time_type t): d(t) {}
    value(array_type a): d(std::move(a)) {}
    value(table_type t): d(std::move(t)) {}

    value_t type() const
    {
        switch (d.index()) {
            case 1:
                return value_t::boolean;
            case 2:
                return value_t::integer;
            case 3:
                return value_t::floating;
            case 4:
                return value_t::string;
            case 5:
                return value_t::local_time;
            case 6:
                return value_t::array;
            case 7:
                return value_t::table;
            default:
                return value_t::empty;
        }
    }
    bool is_empty() const { return d.index() == 0; }
    bool is_uninitialized() const { return d.index() == 0; }
    bool is_boolean() const { return d.index() == 1; }
    bool is_integer() const { return d.index() == 2; }
    bool is_floating() const { return d.index() == 3; }
    bool is_string() const { return d.index() == 4; }
    bool is_local_time() const { return d.index() == 5; }
    bool is_local_date() const { return false; }
    bool is_local_datetime() const { return false; }
    bool is_offset_datetime() const { return false; }
    bool is_array() const { return d.index() == 6; }
    bool is_table() const { return d.index() == 7; }

#define TOMLSHIM_AS(NAME, TYPE)                                                                                        \
    const TYPE& as_##NAME(const std::nothrow_t&) const { return *std::get_if<TYPE>(&d); }                              \
    TYPE& as_##NAME(const std::nothrow_t&) { return *std::get_if<TYPE>(&d); }                                          \
    const TYPE& as_##NAME() const { return check<TYPE>(#NAME); }                                                       \
    TYPE& as_##NAME() { return const_cast<TYPE&>(check<TYPE>(#NAME)); }
    TOMLSHIM_AS(boolean, bool)
    TOMLSHIM_AS(integer, std::int64_t)
    TOMLSHIM_AS(floating, double)
    TOMLSHIM_AS(string, std::string)
    TOMLSHIM_AS(local_time, local_time_type)
    TOMLSHIM_AS(array, array_type)
    TOMLSHIM_AS(table, table_type)
#undef TOMLSHIM_AS

    bool contains(const std::string& k) const { return is_table() && as_table().count(k) != 0; }
    std::size_t count(const std::string& k) const { return contains(k) ? 1 : 0; }
    std::size_t size() const { return is_array() ? as_array().size() : (is_table() ? as_table().size() : (is_string() ? as_string().size() : throw type_error("toml::value::size: bad type"))); }
    const value& at(const std::string& k) const
    {
        const auto& t = as_table();
        auto f = t.find(k);
        if (f == t.end()) {
            throw std::out_of_range("toml::value::at: key \"" + k + "\" not found");
        }
        return f->second;
    }
    value& at(const std::string& k) { return const_cast<value&>(static_cast<const value*>(this)->at(k)); }
    const value& at(std::size_t i) const { return as_array().at(i); }
    value& at(std::size_t i) { return as_array().at(i); }
    value& operator[](const std::string& k)
    {
        if (is_empty()) {
            d = table_type{};
        }
        return as_table()[k];
    }
    value& operator[](std::size_t i) { return as_array()[i]; }
    const value& operator[](std::size_t i) const { return as_array()[i]; }

  private:
    template<class T>
    const T& check(const char* nm) const
    {
        const auto* p = std::get_if<T>(&d);
        if (p == nullptr) {
            throw type_error(std::string("toml::value::as_") + nm + "(): bad_cast");
        }
        return *p;
    }
    std::variant<std::monostate, bool, std::int64_t, double, std::string, local_time_type, array_type, table_type> d;
};
using array = value::array_type;
using table = value::table_type;

namespace detail {
    inline std::string quote(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s) {
            switch (c) {
                case '"': o += "\\\""; break;
                case '\\': o += "\\\\"; break;
                case '\n': o += "\\n"; break;
                case '\t': o += "\\t"; break;
                case '\r': o += "\\r"; break;
                default: o.push_back(c);
            }
        }
        return o + "\"";
    }
    template<class T>
    struct is_vector: std::false_type {};
    template<class T>
    struct is_vector<std::vector<T>>: std::true_type {};
}  // namespace detail

inline std::ostream& operator<<(std::ostream& os, const value& v)
{
    switch (v.type()) {
        case value_t::boolean:
            return os << (v.as_boolean() ? "true" : "false");
        case value_t::integer:
            return os << v.as_integer();
        case value_t::floating: {
            std::ostringstream t;
            t.precision(17);
            t << v.as_floating();
            return os << t.str();
        }
        case value_t::string:
            return os << detail::quote(v.as_string());
        case value_t::local_time:
            return os << v.as_local_time().ns;
        case value_t::array: {
            os << "[";
            bool first = true;
            for (const auto& e : v.as_array()) {
                os << (first ? "" : ", ") << e;
                first = false;
            }
            return os << "]";
        }
        case value_t::table: {
            os << "{";
            bool first = true;
            for (const auto& e : v.as_table()) {
                os << (first ? "" : ", ") << e.first << " = " << e.second;
                first = false;
            }
            return os << "}";
        }
        default:
            return os;
    }
}

template<class T>
decltype(auto) get(const value& v)
{
    if constexpr (std::is_same_v<T, value>) {
        return static_cast<const value&>(v);
    } else if constexpr (std::is_same_v<T, bool>) {
        return static_cast<bool>(v.as_boolean());
    } else if constexpr (std::is_same_v<T, std::chrono::nanoseconds>) {
        return std::chrono::nanoseconds(v.as_local_time().ns);
    } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
        return static_cast<T>(v.as_integer());
    } else if constexpr (std::is_floating_point_v<T>) {
        return static_cast<T>(v.as_floating());
    } else if constexpr (std::is_same_v<T, std::string>) {
        return static_cast<const std::string&>(v.as_string());
    } else if constexpr (std::is_same_v<T, array>) {
        return static_cast<const array&>(v.as_array());
    } else if constexpr (std::is_same_v<T, table>) {
        return static_cast<const table&>(v.as_table());
    } else if constexpr (detail::is_vector<T>::value) {
        T out;
        for (const auto& e : v.as_array()) {
            out.push_back(get<typename T::value_type>(e));
        }
        return out;
    } else {
        static_assert(sizeof(T) == 0, "unsupported toml::get type");
    }
}

template<class T = value>
decltype(auto) find(const value& v, const std::string& k)
{
    return get<T>(v.at(k));
}
template<class T = value>
decltype(auto) find(const value& v, std::size_t i)
{
    return get<T>(v.at(i));
}

inline const value& find_or(const value& v, const std::string& k, const value& opt)
{
    if (!v.is_table()) {
        return opt;
    }
    auto f = v.as_table().find(k);
    return (f == v.as_table().end()) ? opt : f->second;
}
inline const std::string& find_or(const value& v, const std::string& k, const std::string& opt)
{
    if (!v.is_table()) {
        return opt;
    }
    auto f = v.as_table().find(k);
    return (f == v.as_table().end() || !f->second.is_string()) ? opt : f->second.as_string();
}
template<class T, std::enable_if_t<std::is_same_v<T, std::string>, int> = 0>
inline const std::string& find_or(const value& v, const std::string& k, const std::string& opt)
{
    return find_or(v, k, opt);
}
inline std::string find_or(const value& v, const std::string& k, const char* opt)
{
    return find_or(v, k, std::string(opt));
}
template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
T find_or(const value& v, const std::string& k, T opt)
{
    try {
        if (v.contains(k)) {
            return get<T>(v.at(k));
        }
    }
    catch (const exception&) {
    }
    return opt;
}

namespace detail {
    class parser {
      public:
        explicit parser(std::string s): t(std::move(s)) {}
        value run()
        {
            value root{table{}};
            value* cur = &root;
            while (true) {
                skipAll();
                if (eof()) {
                    break;
                }
                if (t[p] == '[') {
                    bool aot = (p + 1 < t.size() && t[p + 1] == '[');
                    p += aot ? 2 : 1;
                    skipWs();
                    auto keys = keyPath();
                    skipWs();
                    expect(']');
                    if (aot) {
                        expect(']');
                    }
                    cur = descend(root, keys, aot);
                    endLine();
                } else {
                    keyVal(*cur);
                    endLine();
                }
            }
            return root;
        }

      private:
        std::string t;
        std::size_t p{0};
        int depth{0};
        [[noreturn]] void fail(const std::string& m) const { throw syntax_error("toml syntax error: " + m + " at offset " + std::to_string(p)); }
        bool eof() const { return p >= t.size(); }
        void skipWs()
        {
            while (!eof() && (t[p] == ' ' || t[p] == '\t')) {
                ++p;
            }
        }
        void skipComment()
        {
            if (!eof() && t[p] == '#') {
                while (!eof() && t[p] != '\n') {
                    ++p;
                }
            }
        }
        void skipAll()
        {
            while (!eof()) {
                if (std::isspace(static_cast<unsigned char>(t[p]))) {
                    ++p;
                } else if (t[p] == '#') {
                    skipComment();
                } else {
                    return;
                }
            }
        }
        void endLine()
        {
            skipWs();
            skipComment();
            if (!eof() && t[p] == '\r') {
                ++p;
            }
            if (!eof() && t[p] != '\n') {
                fail("expected end of line");
            }
        }
        void expect(char c)
        {
            if (eof() || t[p] != c) {
                fail(std::string("expected ") + c);
            }
            ++p;
        }
        std::string key()
        {
            if (eof()) {
                fail("missing key");
            }
            if (t[p] == '"' || t[p] == '\'') {
                return str();
            }
            auto st = p;
            while (!eof() && (std::isalnum(static_cast<unsigned char>(t[p])) || t[p] == '_' || t[p] == '-')) {
                ++p;
            }
            if (st == p) {
                fail("bad key");
            }
            return t.substr(st, p - st);
        }
        std::vector<std::string> keyPath()
        {
            std::vector<std::string> ks{key()};
            skipWs();
            while (!eof() && t[p] == '.') {
                ++p;
                skipWs();
                ks.push_back(key());
                skipWs();
            }
            return ks;
        }
        value* descend(value& root, const std::vector<std::string>& ks, bool aot)
        {
            value* c = &root;
            for (std::size_t i = 0; i < ks.size(); ++i) {
                if (c->is_array()) {
                    if (c->as_array().empty()) {
                        fail("bad table path");
                    }
                    c = &c->as_array().back();
                }
                if (!c->is_table()) {
                    fail("bad table path");
                }
                auto& tb = c->as_table();
                const bool last = (i + 1 == ks.size());
                auto f = tb.find(ks[i]);
                if (f == tb.end()) {
                    f = tb.emplace(ks[i], (last && aot) ? value(array{}) : value(table{})).first;
                }
                c = &f->second;
            }
            if (aot) {
                if (!c->is_array()) {
                    fail("not an array of tables");
                }
                c->as_array().emplace_back(table{});
                c = &c->as_array().back();
            }
            if (c->is_array()) {
                fail("table redefinition");
            }
            if (!c->is_table()) {
                fail("table redefinition");
            }
            return c;
        }
        void keyVal(value& tb)
        {
            auto ks = keyPath();
            skipWs();
            expect('=');
            skipWs();
            auto v = val();
            value* c = &tb;
            for (std::size_t i = 0; i + 1 < ks.size(); ++i) {
                if (!c->is_table()) {
                    fail("dotted key conflict");
                }
                c = &c->as_table().emplace(ks[i], table{}).first->second;
            }
            if (!c->is_table() || !c->as_table().emplace(ks.back(), std::move(v)).second) {
                fail("duplicate key " + ks.back());
            }
        }
        void utf8(std::string& o, unsigned long cp)
        {
            if (cp < 0x80) {
                o.push_back(static_cast<char>(cp));
            } else if (cp < 0x800) {
                o.push_back(static_cast<char>(0xC0 | (cp >> 6)));
                o.push_back(static_cast<char>(0x80 | (cp & 0x3F)));
            } else if (cp < 0x10000) {
                o.push_back(static_cast<char>(0xE0 | (cp >> 12)));
                o.push_back(static_cast<char>(0x80 | ((cp >> 6) & 0x3F)));
                o.push_back(static_cast<char>(0x80 | (cp & 0x3F)));
            } else {
                o.push_back(static_cast<char>(0xF0 | (cp >> 18)));
                o.push_back(static_cast<char>(0x80 | ((cp >> 12) & 0x3F)));
                o.push_back(static_cast<char>(0x80 | ((cp >> 6) & 0x3F)));
                o.push_back(static_cast<char>(0x80 | (cp & 0x3F)));
            }
        }
        std::string str()
        {
            char q = t[p];
            bool ml = (t.compare(p, 3, std::string(3, q)) == 0);
            p += ml ? 3 : 1;
            std::string o;
            if (ml && !eof() && t[p] == '\n') {
                ++p;
            }
            while (true) {
                if (eof()) {
                    fail("unterminated string");
                }
                if (ml) {
                    if (t.compare(p, 3, std::string(3, q)) == 0) {
                        p += 3;
                        while (!eof() && t[p] == q) {
                            o.push_back(q);
                            ++p;
                        }
                        return o;
                    }
                } else {
                    if (t[p] == q) {
                        ++p;
                        return o;
                    }
                    if (t[p] == '\n') {
                        fail("newline in string");
                    }
                }
                if (q == '"' && t[p] == '\\') {
                    ++p;
                    if (eof()) {
                        fail("bad escape");
                    }
                    char c = t[p++];
                    switch (c) {
                        case 'n': o.push_back('\n'); break;
                        case 't': o.push_back('\t'); break;
                        case 'r': o.push_back('\r'); break;
                        case 'b': o.push_back('\b'); break;
                        case 'f': o.push_back('\f'); break;
                        case 'e': o.push_back('\x1b'); break;
                        case '"': o.push_back('"'); break;
                        case '\\': o.push_back('\\'); break;
                        case 'u':
                        case 'U': {
                            std::size_t n = (c == 'u') ? 4 : 8;
                            if (p + n > t.size()) {
                                fail("bad escape");
                            }
                            utf8(o, std::strtoul(t.substr(p, n).c_str(), nullptr, 16));
                            p += n;
                        } break;
                        default:
                            if (ml && std::isspace(static_cast<unsigned char>(c))) {
                                while (!eof() && std::isspace(static_cast<unsigned char>(t[p]))) {
                                    ++p;
                                }
                                break;
                            }
                            fail("bad escape");
                    }
                    continue;
                }
                o.push_back(t[p++]);
            }
        }
        value val()
        {
            if (++depth > 200) {
                fail("nesting too deep");
            }
            struct D {
                int& d;
                ~D() { --d; }
            } dd{depth};
            if (eof()) {
                fail("missing value");
            }
            char c = t[p];
            if (c == '"' || c == '\'') {
                return str();
            }
            if (c == '[') {
                ++p;
                array a;
                while (true) {
                    skipAll();
                    if (eof()) {
                        fail("unterminated array");
                    }
                    if (t[p] == ']') {
                        ++p;
                        return a;
                    }
                    a.push_back(val());
                    skipAll();
                    if (!eof() && t[p] == ',') {
                        ++p;
                    } else if (eof() || t[p] != ']') {
                        fail("expected , or ]");
                    }
                }
            }
            if (c == '{') {
                ++p;
                value tb{table{}};
                while (true) {
                    skipAll();
                    if (eof()) {
                        fail("unterminated inline table");
                    }
                    if (t[p] == '}') {
                        ++p;
                        return tb;
                    }
                    keyVal(tb);
                    skipAll();
                    if (!eof() && t[p] == ',') {
                        ++p;
                    } else if (eof() || t[p] != '}') {
                        fail("expected , or }");
                    }
                }
            }
            auto st = p;
            while (!eof() && (std::isalnum(static_cast<unsigned char>(t[p])) || t[p] == '_' || t[p] == '-' || t[p] == '+' || t[p] == '.' || t[p] == ':')) {
                ++p;
            }
            std::string w = t.substr(st, p - st);
            if (w == "true") {
                return true;
            }
            if (w == "false") {
                return false;
            }
            if (w.empty()) {
                fail("missing value");
            }
            std::string u;
            for (char ch : w) {
                if (ch != '_') {
                    u.push_back(ch);
                }
            }
            if (u == "inf" || u == "+inf") {
                return std::numeric_limits<double>::infinity();
            }
            if (u == "-inf") {
                return -std::numeric_limits<double>::infinity();
            }
            if (u == "nan" || u == "+nan" || u == "-nan") {
                return std::numeric_limits<double>::quiet_NaN();
            }
            if (u.size() >= 8 && u[2] == ':' && u[5] == ':') {
                local_time_type lt;
                double sec = std::strtod(u.c_str() + 6, nullptr);
                lt.ns = (std::strtol(u.substr(0, 2).c_str(), nullptr, 10) * 3600L +
                         std::strtol(u.substr(3, 2).c_str(), nullptr, 10) * 60L) * 1000000000L +
                    static_cast<std::int64_t>(std::llround(sec * 1e9));
                return lt;
            }
            errno = 0;
            char* e = nullptr;
            if (u.size() > 2 && u[0] == '0' && (u[1] == 'x' || u[1] == 'o' || u[1] == 'b')) {
                int base = (u[1] == 'x') ? 16 : ((u[1] == 'o') ? 8 : 2);
                auto r = std::strtoll(u.c_str() + 2, &e, base);
                if (*e != 0 || errno != 0) {
                    fail("bad number " + w);
                }
                return static_cast<std::int64_t>(r);
            }
            auto iv = std::strtoll(u.c_str(), &e, 10);
            if (*e == 0 && errno == 0) {
                return static_cast<std::int64_t>(iv);
            }
            if (u.find_first_not_of("0123456789+-.eE") != std::string::npos) {
                fail("unknown value " + w);
            }
            errno = 0;
            auto fv = std::strtod(u.c_str(), &e);
            if (*e == 0) {
                return fv;
            }
            fail("bad value " + w);
        }
    };
}  // namespace detail

inline value parse(std::istream& is, const std::string& = "unknown file")
{
    return detail::parser(std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>())).run();
}
inline value parse_str(std::string s)
{
    return detail::parser(std::move(s)).run();
}
inline value parse(const std::string& fname)
{
    std::ifstream f(fname, std::ios_base::binary);
    if (!f.is_open()) {
        throw file_io_error("unable to open " + fname);
    }
    return parse(f);
}
}  // namespace toml
