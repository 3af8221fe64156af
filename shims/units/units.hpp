/* Stand-in for the LLNL units library: SI based dimensional units for the unit strings used in tests and workloads. */
#pragma once
#include <array>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <string>
#include <unordered_map>
#include <utility>

namespace units {
class precise_unit {
  public:
    // m, kg, s, A, K, mol, cd, rad(count), currency
    std::array<signed char, 9> dim{};
    double mult{1.0};
    double offset{0.0};  // value_SI = value*mult + offset
    bool valid{true};
    bool deflt{false};
    bool has_same_base(const precise_unit& o) const { return dim == o.dim; }
    double multiplier() const { return mult; }
    bool operator==(const precise_unit& o) const { return dim == o.dim && mult == o.mult && offset == o.offset && valid == o.valid; }
    bool operator!=(const precise_unit& o) const { return !(*this == o); }
};
namespace detail {
    inline precise_unit mk(double m, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0, int g = 0, int h = 0, int i = 0)
    {
        precise_unit u;
        u.mult = m;
        u.dim = {static_cast<signed char>(a), static_cast<signed char>(b), static_cast<signed char>(c), static_cast<signed char>(d), static_cast<signed char>(e), static_cast<signed char>(f), static_cast<signed char>(g), static_cast<signed char>(h), static_cast<signed char>(i)};
        return u;
    }
    inline precise_unit withOffset(precise_unit u, double off)
    {
        u.offset = off;
        return u;
    }
    inline precise_unit mul(const precise_unit& a, const precise_unit& b, int sgn)
    {
        precise_unit r;
        r.mult = (sgn > 0) ? a.mult * b.mult : a.mult / b.mult;
        for (std::size_t i = 0; i < r.dim.size(); ++i) {
            r.dim[i] = static_cast<signed char>(a.dim[i] + sgn * b.dim[i]);
        }
        r.valid = a.valid && b.valid;
        return r;
    }
    inline const std::unordered_map<std::string, std::pair<precise_unit, bool>>& table()
    {
        static const std::unordered_map<std::string, std::pair<precise_unit, bool>> tb = [] {
            std::unordered_map<std::string, std::pair<precise_unit, bool>> t;
            auto add = [&](precise_unit u, bool pre, std::initializer_list<const char*> names) {
                for (const auto* n : names) {
                    t.emplace(n, std::make_pair(u, pre));
                }
            };
            add(mk(1, 1), true, {"m", "meter", "meters", "metre"});
            add(mk(0.0254, 1), false, {"in", "inch", "inches"});
            add(mk(0.3048, 1), false, {"ft", "foot", "feet"});
            add(mk(0.9144, 1), false, {"yd", "yard"});
            add(mk(1609.344, 1), false, {"mi", "mile", "miles"});
            add(mk(1e-3, 0, 1), true, {"g", "gram", "grams"});
            add(mk(0.45359237, 0, 1), false, {"lb", "lbs", "pound"});
            add(mk(1, 0, 0, 1), true, {"s", "sec", "second", "seconds"});
            add(mk(60, 0, 0, 1), false, {"min", "minute", "minutes"});
            add(mk(3600, 0, 0, 1), false, {"h", "hr", "hour", "hours"});
            add(mk(86400, 0, 0, 1), false, {"day", "days"});
            add(mk(1, 0, 0, 0, 1), true, {"A", "amp", "amps", "ampere"});
            add(mk(1, 0, 0, 0, 0, 1), true, {"K", "kelvin"});
            add(withOffset(mk(1, 0, 0, 0, 0, 1), 273.15), false, {"C", "degC", "celsius"});
            add(withOffset(mk(5.0 / 9.0, 0, 0, 0, 0, 1), 459.67 * 5.0 / 9.0), false, {"F", "degF", "fahrenheit"});
            add(mk(1, 0, 0, 0, 0, 0, 1), true, {"mol"});
            add(mk(1, 0, 0, 0, 0, 0, 0, 1), true, {"cd"});
            add(mk(1, 0, 0, 0, 0, 0, 0, 0, 1), true, {"rad", "radian", "radians"});
            add(mk(3.14159265358979323846 / 180.0, 0, 0, 0, 0, 0, 0, 0, 1), false, {"deg", "degree", "degrees"});
            add(mk(1, 0, 0, 0, 0, 0, 0, 0, 0, 1), false, {"$", "USD", "dollar"});
            add(mk(1, 0, 0, -1), true, {"Hz", "hertz"});
            add(mk(1, 1, 1, -2), true, {"N", "newton"});
            add(mk(1, -1, 1, -2), true, {"Pa", "pascal"});
            add(mk(1, 2, 1, -2), true, {"J", "joule"});
            add(mk(1, 2, 1, -3), true, {"W", "watt", "watts", "VA", "VAR", "var"});
            add(mk(3600, 2, 1, -2), true, {"Wh"});
            add(mk(1, 2, 1, -3, -1), true, {"V", "volt", "volts"});
            add(mk(1, 2, 1, -3, -2), true, {"ohm"});
            add(mk(0.01), false, {"%", "percent"});
            add(mk(1e-3, 3), true, {"L", "liter"});
            return t;
        }();
        return tb;
    }
    inline precise_unit invalid()
    {
        precise_unit u;
        u.valid = false;
        u.mult = std::numeric_limits<double>::quiet_NaN();
        return u;
    }
    inline precise_unit single(const std::string& s)
    {
        const auto& t = table();
        auto f = t.find(s);
        if (f != t.end()) {
            return f->second.first;
        }
        static const std::unordered_map<std::string, double> pre{{"k", 1e3}, {"M", 1e6}, {"G", 1e9}, {"T", 1e12}, {"m", 1e-3}, {"u", 1e-6}, {"n", 1e-9}, {"p", 1e-12}, {"c", 1e-2}, {"d", 1e-1}, {"h", 1e2}, {"kilo", 1e3}, {"mega", 1e6}, {"milli", 1e-3}, {"centi", 1e-2}};
        for (const auto& pr : pre) {
            if (s.size() > pr.first.size() && s.compare(0, pr.first.size(), pr.first) == 0) {
                auto g = t.find(s.substr(pr.first.size()));
                if (g != t.end() && g->second.second) {
                    auto u = g->second.first;
                    u.mult *= pr.second;
                    return u;
                }
            }
        }
        return invalid();
    }
}  // namespace detail

inline precise_unit unit_from_string(std::string s)
{
    std::string c;
    for (char ch : s) {
        if (!std::isspace(static_cast<unsigned char>(ch))) {
            c.push_back(ch);
        }
    }
    if (c.empty()) {
        return precise_unit{};
    }
    if (c == "def" || c == "default") {
        precise_unit u;
        u.deflt = true;
        return u;
    }
    precise_unit r;
    bool firstTok = true;
    int sgn = 1;
    std::size_t i = 0;
    while (i <= c.size()) {
        auto j = c.find_first_of("*/", i);
        if (j == std::string::npos) {
            j = c.size();
        }
        auto tok = c.substr(i, j - i);
        double m = 1.0;
        int pw = 1;
        if (tok.empty()) {
            return detail::invalid();
        }
        if (std::isdigit(static_cast<unsigned char>(tok[0])) || tok[0] == '.') {
            char* e = nullptr;
            m = std::strtod(tok.c_str(), &e);
            tok = std::string(e);
        }
        auto up = tok.find('^');
        if (up != std::string::npos) {
            pw = std::atoi(tok.c_str() + up + 1);
            tok = tok.substr(0, up);
        } else if (tok.size() > 1 && std::isdigit(static_cast<unsigned char>(tok.back()))) {
            pw = tok.back() - '0';
            tok.pop_back();
        }
        precise_unit u = tok.empty() ? precise_unit{} : detail::single(tok);
        if (!u.valid) {
            return u;
        }
        precise_unit pu = u;
        if (pw != 1) {
            pu = precise_unit{};
            for (int q = 0; q < std::abs(pw); ++q) {
                pu = detail::mul(pu, u, pw > 0 ? 1 : -1);
            }
        }
        pu.mult *= m;
        r = (firstTok && j == c.size()) ? pu : detail::mul(r, pu, sgn);
        firstTok = false;
        sgn = (j < c.size() && c[j] == '/') ? -1 : 1;
        i = j + 1;
    }
    return r;
}
inline bool is_valid(const precise_unit& u)
{
    return u.valid && !std::isnan(u.mult);
}
inline bool is_default(const precise_unit& u)
{
    return u.deflt;
}
inline double convert(double val, const precise_unit& a, const precise_unit& b)
{
    if (a == b || a.deflt || b.deflt) {
        return val;
    }
    if (!a.valid || !b.valid || a.dim != b.dim) {
        return std::numeric_limits<double>::quiet_NaN();
    }
    if (a.offset == 0.0 && b.offset == 0.0) {
        return val * a.mult / b.mult;
    }
    return (val * a.mult + a.offset - b.offset) / b.mult;
}
inline double convert(const precise_unit& a, const precise_unit& b)
{
    return convert(1.0, a, b);
}
inline double quick_convert(const precise_unit& a, const precise_unit& b)
{
    if (a.deflt || b.deflt) {
        return 1.0;
    }
    if (a.dim == b.dim && a.offset == 0.0 && b.offset == 0.0) {
        return a.mult / b.mult;
    }
    return std::numeric_limits<double>::quiet_NaN();
}
namespace precise {
    inline const precise_unit m = detail::single("m");
    inline const precise_unit mm = detail::single("mm");
    inline const precise_unit cm = detail::single("cm");
    inline const precise_unit mile = detail::single("mile");
}  // namespace precise
}  // namespace units
