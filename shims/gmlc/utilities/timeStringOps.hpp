// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include "timeRepresentation.hpp"

#include <cctype>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>

namespace gmlc::utilities {
inline std::string_view shimTrim(std::string_view s)
{
    const char* ws = " \t\n\r\f\v";
    auto b = s.find_first_not_of(ws);
    if (b == std::string_view::npos) {
        return {};
    }
    return s.substr(b, s.find_last_not_of(ws) - b + 1);
}
inline time_units timeUnitsFromString(std::string_view unitString)
{
    static const std::map<std::string, time_units, std::less<>> names{
        {"ps", time_units::ps},           {"picosecond", time_units::ps},
        {"picoseconds", time_units::ps},  {"ns", time_units::ns},
        {"nanosecond", time_units::ns},   {"nanoseconds", time_units::ns},
        {"us", time_units::us},           {"microsecond", time_units::us},
        {"microseconds", time_units::us}, {"ms", time_units::ms},
        {"millisecond", time_units::ms},  {"milliseconds", time_units::ms},
        {"s", time_units::s},             {"sec", time_units::sec},
        {"second", time_units::sec},      {"seconds", time_units::sec},
        {"", time_units::sec},            {"min", time_units::minutes},
        {"minute", time_units::minutes},  {"minutes", time_units::minutes},
        {"hr", time_units::hr},           {"hour", time_units::hr},
        {"hours", time_units::hr},        {"h", time_units::hr},
        {"day", time_units::day},         {"days", time_units::day},
        {"d", time_units::day},           {"week", time_units::week},
        {"weeks", time_units::week},      {"wk", time_units::week},
        {"w", time_units::week}};
    auto u = shimTrim(unitString);
    auto f = names.find(u);
    if (f == names.end()) {
        std::string low;
        for (auto c : u) {
            low.push_back(static_cast<char>(std::tolower(static_cast<unsigned char>(c))));
        }
        f = names.find(low);
    }
    if (f == names.end()) {
        throw(std::invalid_argument(std::string("unit ") + std::string(unitString) +
                                    " not recognized"));
    }
    return f->second;
}
inline double getTimeValue(std::string_view timeString, time_units defUnit = time_units::sec)
{
    const std::string s(timeString);
    char* end{nullptr};
    const double val = std::strtod(s.c_str(), &end);
    if (end == s.c_str()) {
        throw(std::invalid_argument("unable to convert " + s + " to a time"));
    }
    auto rest = shimTrim(std::string_view(s).substr(static_cast<std::size_t>(end - s.c_str())));
    if (rest.empty()) {
        return val * toSecondMultiplier(defUnit);
    }
    return val * toSecondMultiplier(timeUnitsFromString(rest));
}
template<class timeX>
timeX loadTimeFromString(std::string_view timeString)
{
    return timeX(getTimeValue(timeString));
}
template<class timeX>
timeX loadTimeFromString(std::string_view timeString, time_units defUnits)
{
    return timeX(getTimeValue(timeString, defUnits));
}
}  // namespace gmlc::utilities
