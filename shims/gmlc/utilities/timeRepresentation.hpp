// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <limits>
#include <ostream>
#include <type_traits>

enum class time_units : int {
    ps = 0,
    ns = 1,
    us = 2,
    ms = 3,
    s = 4,
    sec = 5,
    minutes = 6,
    hr = 7,
    day = 8,
    week = 9,
};

constexpr double timeCountForward[10] =
    {1e12, 1e9, 1e6, 1e3, 1.0, 1.0, 1.0 / 60.0, 1.0 / 3600.0, 1.0 / 86400.0, 1.0 / (7.0 * 86400.0)};
constexpr double timeCountReverse[10] =
    {1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1.0, 60.0, 3600.0, 86400.0, 7.0 * 86400.0};

constexpr double toSecondMultiplier(time_units units)
{
    return timeCountReverse[static_cast<int>(units)];
}
constexpr double toUnitMultiplier(time_units units)
{
    return timeCountForward[static_cast<int>(units)];
}

namespace gmlc_shim {
constexpr std::int64_t ipow10(int n)
{
    std::int64_t r = 1;
    for (int i = 0; i < n; ++i) {
        r *= 10;
    }
    return r;
}
constexpr std::int64_t wrapAdd(std::int64_t a, std::int64_t b)
{
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(a) + static_cast<std::uint64_t>(b));
}
constexpr std::int64_t wrapSub(std::int64_t a, std::int64_t b)
{
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(a) - static_cast<std::uint64_t>(b));
}
constexpr std::int64_t wrapMul(std::int64_t a, std::int64_t b)
{
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(a) * static_cast<std::uint64_t>(b));
}
}  // namespace gmlc_shim

template<int N, typename base = std::int64_t>
class count_time {
  public:
    using baseType = base;
    static constexpr baseType iFactor = gmlc_shim::ipow10(N);
    static constexpr double dFactor = static_cast<double>(gmlc_shim::ipow10(N));
    static constexpr double ddivFactor = 1.0 / dFactor;

    static constexpr baseType maxVal() noexcept { return (std::numeric_limits<baseType>::max)(); }
    static constexpr baseType minVal() noexcept
    {
        return -(std::numeric_limits<baseType>::max)() + 1;
    }
    static constexpr baseType zeroVal() noexcept { return baseType(0); }
    static constexpr baseType epsilon() noexcept { return baseType(1); }
    static constexpr baseType convert(double t) noexcept
    {
        const double v = t * dFactor;
        if (!(v < 9223372036854775807.0)) {
            return maxVal();
        }
        if (v <= -9223372036854775807.0) {
            return minVal();
        }
        return (v >= 0.0) ? roundPos(v) : -roundPos(-v);
    }
    static constexpr double toDouble(baseType val) noexcept
    {
        return static_cast<double>(val / iFactor) +
            static_cast<double>(val % iFactor) * ddivFactor;
    }
    static constexpr std::int64_t toCount(baseType val, time_units units) noexcept
    {
        const int p = power(units);
        if (p >= 0) {
            if (p >= N) {
                return gmlc_shim::wrapMul(val, gmlc_shim::ipow10(p - N));
            }
            return val / gmlc_shim::ipow10(N - p);
        }
        return (val / iFactor) / static_cast<std::int64_t>(timeCountReverse[static_cast<int>(units)]);
    }
    static constexpr baseType fromCount(std::int64_t count, time_units units) noexcept
    {
        const int p = power(units);
        if (p >= 0) {
            if (p >= N) {
                return count / gmlc_shim::ipow10(p - N);
            }
            return gmlc_shim::wrapMul(count, gmlc_shim::ipow10(N - p));
        }
        return gmlc_shim::wrapMul(
            gmlc_shim::wrapMul(count,
                               static_cast<std::int64_t>(timeCountReverse[static_cast<int>(units)])),
            iFactor);
    }

  private:
    static constexpr baseType roundPos(double v) noexcept
    {
        auto b = static_cast<baseType>(v);
        const double rem = v - static_cast<double>(b);
        return (rem >= 0.5) ? b + 1 : b;
    }
    static constexpr int power(time_units units) noexcept
    {
        switch (units) {
            case time_units::ps:
                return 12;
            case time_units::ns:
                return 9;
            case time_units::us:
                return 6;
            case time_units::ms:
                return 3;
            case time_units::s:
            case time_units::sec:
                return 0;
            default:
                return -1;
        }
    }
};

template<class Tconv>
class TimeRepresentation {
  public:
    using baseType = typename Tconv::baseType;

  private:
    baseType internalTimeCode = Tconv::zeroVal();

    struct RawTag {};
    constexpr TimeRepresentation(RawTag /*tag*/, baseType v) noexcept: internalTimeCode(v) {}

  public:
    constexpr TimeRepresentation() noexcept = default;
    constexpr TimeRepresentation(double t) noexcept: internalTimeCode(Tconv::convert(t)) {}
    constexpr TimeRepresentation(std::int64_t count, time_units units) noexcept:
        internalTimeCode(Tconv::fromCount(count, units))
    {
    }
    template<class Rep, class Period>
    constexpr TimeRepresentation(std::chrono::duration<Rep, Period> dur) noexcept:
        internalTimeCode(
            Tconv::fromCount(std::chrono::duration_cast<std::chrono::nanoseconds>(dur).count(),
                             time_units::ns))
    {
    }
    static constexpr TimeRepresentation maxVal() noexcept { return {RawTag{}, Tconv::maxVal()}; }
    static constexpr TimeRepresentation minVal() noexcept { return {RawTag{}, Tconv::minVal()}; }
    static constexpr TimeRepresentation zeroVal() noexcept { return {RawTag{}, Tconv::zeroVal()}; }
    static constexpr TimeRepresentation epsilon() noexcept { return {RawTag{}, Tconv::epsilon()}; }

    constexpr std::int64_t toCount(time_units units) const noexcept
    {
        return Tconv::toCount(internalTimeCode, units);
    }
    constexpr std::int64_t seconds() const noexcept { return toCount(time_units::s); }
    constexpr std::chrono::nanoseconds to_ns() const
    {
        return std::chrono::nanoseconds(Tconv::toCount(internalTimeCode, time_units::ns));
    }
    constexpr explicit operator std::chrono::milliseconds() const { return to_ms(); }
    constexpr explicit operator std::chrono::nanoseconds() const { return to_ns(); }
    constexpr std::chrono::milliseconds to_ms() const
    {
        return std::chrono::milliseconds(Tconv::toCount(internalTimeCode, time_units::ms));
    }
    TimeRepresentation& operator=(double t) noexcept
    {
        internalTimeCode = Tconv::convert(t);
        return *this;
    }
    constexpr operator double() const noexcept { return Tconv::toDouble(internalTimeCode); }
    // the value and its code
    constexpr baseType getBaseTimeCode() const noexcept { return internalTimeCode; }
    void setBaseTimeCode(baseType timeCode) noexcept { internalTimeCode = timeCode; }

    TimeRepresentation& operator+=(const TimeRepresentation& o) noexcept
    {
        internalTimeCode = gmlc_shim::wrapAdd(internalTimeCode, o.internalTimeCode);
        return *this;
    }
    TimeRepresentation& operator-=(const TimeRepresentation& o) noexcept
    {
        internalTimeCode = gmlc_shim::wrapSub(internalTimeCode, o.internalTimeCode);
        return *this;
    }
    TimeRepresentation& operator*=(int m) noexcept
    {
        internalTimeCode = gmlc_shim::wrapMul(internalTimeCode, m);
        return *this;
    }
    TimeRepresentation& operator*=(double m) noexcept
    {
        internalTimeCode = Tconv::convert(Tconv::toDouble(internalTimeCode) * m);
        return *this;
    }
    TimeRepresentation& operator/=(int d) noexcept
    {
        internalTimeCode /= d;
        return *this;
    }
    TimeRepresentation& operator/=(double d) noexcept
    {
        internalTimeCode = Tconv::convert(Tconv::toDouble(internalTimeCode) / d);
        return *this;
    }
    TimeRepresentation& operator%=(const TimeRepresentation& o) noexcept
    {
        internalTimeCode %= o.internalTimeCode;
        return *this;
    }
    constexpr TimeRepresentation operator-() const noexcept
    {
        return {RawTag{}, gmlc_shim::wrapSub(0, internalTimeCode)};
    }

    friend constexpr TimeRepresentation operator+(const TimeRepresentation& a,
                                                  const TimeRepresentation& b) noexcept
    {
        return {RawTag{}, gmlc_shim::wrapAdd(a.internalTimeCode, b.internalTimeCode)};
    }
    friend constexpr TimeRepresentation operator-(const TimeRepresentation& a,
                                                  const TimeRepresentation& b) noexcept
    {
        return {RawTag{}, gmlc_shim::wrapSub(a.internalTimeCode, b.internalTimeCode)};
    }
    friend constexpr TimeRepresentation operator%(const TimeRepresentation& a,
                                                  const TimeRepresentation& b) noexcept
    {
        return {RawTag{}, a.internalTimeCode % b.internalTimeCode};
    }
    // arithmetic with doubles goes through Time
    friend constexpr TimeRepresentation operator+(const TimeRepresentation& a, double b) noexcept
    {
        return a + TimeRepresentation(b);
    }
    friend constexpr TimeRepresentation operator+(double a, const TimeRepresentation& b) noexcept
    {
        return TimeRepresentation(a) + b;
    }
    friend constexpr TimeRepresentation operator-(const TimeRepresentation& a, double b) noexcept
    {
        return a - TimeRepresentation(b);
    }
    friend constexpr TimeRepresentation operator-(double a, const TimeRepresentation& b) noexcept
    {
        return TimeRepresentation(a) - b;
    }
    constexpr TimeRepresentation operator*(int m) const noexcept
    {
        return {RawTag{}, gmlc_shim::wrapMul(internalTimeCode, m)};
    }
    template<class I, std::enable_if_t<std::is_same_v<I, int>, int> = 0>
    friend constexpr TimeRepresentation operator*(I m, const TimeRepresentation& a) noexcept
    {
        return {RawTag{}, gmlc_shim::wrapMul(a.internalTimeCode, m)};
    }
    constexpr TimeRepresentation operator*(double m) const noexcept
    {
        return TimeRepresentation(Tconv::toDouble(internalTimeCode) * m);
    }
    constexpr TimeRepresentation operator/(int m) const noexcept
    {
        return {RawTag{}, internalTimeCode / m};
    }
    constexpr TimeRepresentation operator/(double m) const noexcept
    {
        return TimeRepresentation(Tconv::toDouble(internalTimeCode) / m);
    }
    friend constexpr double operator/(const TimeRepresentation& a,
                                      const TimeRepresentation& b) noexcept
    {
        return Tconv::toDouble(a.internalTimeCode) / Tconv::toDouble(b.internalTimeCode);
    }

#define GMLC_SHIM_CMP(OP)                                                                          \
    friend constexpr bool operator OP(const TimeRepresentation& a,                                 \
                                      const TimeRepresentation& b) noexcept                        \
    {                                                                                              \
        return a.internalTimeCode OP b.internalTimeCode;                                           \
    }                                                                                              \
    friend constexpr bool operator OP(const TimeRepresentation& a, double b) noexcept              \
    {                                                                                              \
        return a.internalTimeCode OP TimeRepresentation(b).internalTimeCode;                       \
    }                                                                                              \
    friend constexpr bool operator OP(double a, const TimeRepresentation& b) noexcept              \
    {                                                                                              \
        return TimeRepresentation(a).internalTimeCode OP b.internalTimeCode;                       \
    }
    GMLC_SHIM_CMP(==)
    GMLC_SHIM_CMP(!=)
    GMLC_SHIM_CMP(<)
    GMLC_SHIM_CMP(>)
    GMLC_SHIM_CMP(<=)
    GMLC_SHIM_CMP(>=)
#undef GMLC_SHIM_CMP
};

template<class Tconv>
inline double abs(const TimeRepresentation<Tconv>& t)
{
    return std::abs(static_cast<double>(t));
}
