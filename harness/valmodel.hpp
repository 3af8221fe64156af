// Model of the documented value conversions (docs/developer-guide/typeConversions.md) used as oracle.
#pragma once
#include "vh.hpp"

#include "helics/application_api/HelicsPrimaryTypes.hpp"
#include "nlohmann/json.hpp"
#include "helics/application_api/ValueConverter.hpp"

#include <climits>
#include <cmath>
#include <complex>
#include <iomanip>
#include <optional>
#include <sstream>

namespace vm {
using helics::DataType;
using helics::NamedPoint;
using helics::Time;
using vh::Rng;
using cplx = std::complex<double>;
enum Kind { D, I, S, C, V, CV, NP, B, T, KINDS };
inline const char* kname(int k)
{
    static const char* n[] = {"double", "int", "string", "complex", "vector", "complex_vector", "named_point", "bool", "time"};
    return n[k];
}
constexpr double invalidD = -1e49;
// a value as it exists somewhere in the pipeline
struct Val {
    Kind k{D};
    double d{0};
    int64_t i{0};  // also time (ns)
    std::string s;
    cplx c;
    std::vector<double> v;
    std::vector<cplx> cv;
    std::string nn;
    double nv{0};
    bool b{false};
};
inline std::string num(double d)
{
    std::ostringstream o;
    o << std::setprecision(17) << d;
    return o.str();
}
inline std::string show(const Val& a)
{
    std::string o = std::string(kname(a.k)) + ":";
    switch (a.k) {
        case D: return o + num(a.d);
        case I: return o + std::to_string(a.i);
        case T: return o + std::to_string(a.i) + "ns";
        case S: return o + "\"" + vh::esc(a.s, 100) + "\"";
        case C: return o + num(a.c.real()) + "," + num(a.c.imag());
        case V: {
            for (auto x : a.v) o += num(x) + ";";
            return o;
        }
        case CV: {
            for (auto x : a.cv) o += num(x.real()) + "," + num(x.imag()) + ";";
            return o;
        }
        case NP: return o + "{" + vh::esc(a.nn, 100) + "," + num(a.nv) + "}";
        case B: return o + (a.b ? "1" : "0");
        default: return o;
    }
}
// a set of acceptable results; empty = nothing is promised
struct Exp {
    std::vector<Val> any;
    bool open{false};
};
inline Exp none()
{
    Exp e;
    e.open = true;
    return e;
}
inline Val mkD(double d) { Val v; v.k = D; v.d = d; return v; }
inline Val mkI(int64_t i) { Val v; v.k = I; v.i = i; return v; }
inline Val mkT(int64_t i) { Val v; v.k = T; v.i = i; return v; }
inline Val mkS(std::string s) { Val v; v.k = S; v.s = std::move(s); return v; }
inline Val mkC(cplx c) { Val v; v.k = C; v.c = c; return v; }
inline Val mkV(std::vector<double> x) { Val v; v.k = V; v.v = std::move(x); return v; }
inline Val mkCV(std::vector<cplx> x) { Val v; v.k = CV; v.cv = std::move(x); return v; }
inline Val mkNP(std::string n, double d) { Val v; v.k = NP; v.nn = std::move(n); v.nv = d; return v; }
inline Val mkB(bool b) { Val v; v.k = B; v.b = b; return v; }
inline Exp one(Val v)
{
    Exp e;
    e.any.push_back(std::move(v));
    return e;
}
inline double norm(const std::vector<double>& v)
{
    long double s = 0;
    for (auto x : v) s += static_cast<long double>(x) * x;
    return static_cast<double>(std::sqrt(s));
}
inline double norm(const std::vector<cplx>& v)
{
    long double s = 0;
    for (auto x : v) s += static_cast<long double>(x.real()) * x.real() + static_cast<long double>(x.imag()) * x.imag();
    return static_cast<double>(std::sqrt(s));
}
// ------------------------------------------------------------------ independent text parser for the strings HELICS produces
struct Parsed {
    bool ok{false};
    bool complexList{false};
    std::vector<double> flat;
    std::vector<cplx> cv;
};
inline bool parseNum(const std::string& s, size_t& p, double& d)
{
    while (p < s.size() && s[p] == ' ') ++p;
    char* e = nullptr;
    const char* b = s.c_str() + p;
    d = std::strtod(b, &e);
    if (e == b) return false;
    p += static_cast<size_t>(e - b);
    while (p < s.size() && s[p] == ' ') ++p;
    return true;
}
inline Parsed parseList(const std::string& s)
{
    Parsed r;
    size_t p = 0;
    if (s.empty() || s[0] != '[') {
        double d;
        if (parseNum(s, p, d) && p == s.size()) {
            r.ok = true;
            r.flat = {d};
            r.cv = {{d, 0}};
        }
        return r;
    }
    ++p;
    if (p < s.size() && s[p] == ']') {
        r.ok = p + 1 == s.size();
        return r;
    }
    for (;;) {
        if (p < s.size() && s[p] == '[') {
            r.complexList = true;
            ++p;
            double a, b;
            if (!parseNum(s, p, a) || p >= s.size() || s[p] != ',') return r;
            ++p;
            if (!parseNum(s, p, b) || p >= s.size() || s[p] != ']') return r;
            ++p;
            r.cv.emplace_back(a, b);
            r.flat.push_back(a);
            r.flat.push_back(b);
        } else {
            double a;
            if (!parseNum(s, p, a)) return r;
            r.flat.push_back(a);
            r.cv.emplace_back(a, 0);
        }
        if (p >= s.size()) return r;
        if (s[p] == ',') {
            ++p;
            continue;
        }
        if (s[p] == ']') {
            r.ok = p + 1 == s.size();
            return r;
        }
        return r;
    }
}
// ------------------------------------------------------------------ comparisons
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b)
{
    return same(a, b) || std::abs(a - b) <= 1e-11 * std::max(std::abs(a), std::abs(b)) + 1e-150;
}
// strings are compared by what they say: [text] expectations for numbers are given as the value they must parse to
struct Want {
    std::vector<Val> any;
    bool open{false};
    bool approx{false};  // the documentation asks for a computed quantity (norm, absolute value)
    bool numericString{false};  // the string has to spell the number/list in [spell]
    Val spell;
};
inline bool spells(const std::string& s, const Val& w)
{
    switch (w.k) {
        case D: {
            if (s == std::to_string(w.d)) return true;  // the spelling of kept values
            auto p = parseList(s);
            return p.ok && p.flat.size() == 1 && same(p.flat[0], w.d);
        }
        case I: return s == std::to_string(w.i);
        case V: {
            if (w.v.size() == 1 && s == std::to_string(w.v[0])) return true;
            auto p = parseList(s);
            if (!p.ok || p.flat.size() != w.v.size()) return false;
            for (size_t i = 0; i < w.v.size(); ++i) if (!same(p.flat[i], w.v[i])) return false;
            return true;
        }
        case C: {
            if (w.c.imag() == 0 && s == std::to_string(w.c.real())) return true;
            auto p = parseList(s);
            if (!p.ok) return false;
            if (w.c.imag() == 0 && p.flat.size() == 1) return same(p.flat[0], w.c.real());
            return p.flat.size() == 2 && same(p.flat[0], w.c.real()) && same(p.flat[1], w.c.imag());
        }
        case CV: {
            auto p = parseList(s);
            if (!p.ok) return false;
            if (w.cv.size() == 1) {
                return spells(s, mkC(w.cv[0])) || (p.cv.size() == 1 && p.cv[0] == w.cv[0]);
            }
            if (p.cv.size() != w.cv.size()) return false;
            for (size_t i = 0; i < w.cv.size(); ++i) if (!(p.cv[i] == w.cv[i])) return false;
            return true;
        }
        case NP: {
            try {
                auto j = nlohmann::json::parse(s);
                std::string n = j.contains("name") ? j["name"].get<std::string>() : "";
                return n == w.nn && same(j["value"].get<double>(), w.nv);
            }
            catch (...) {
                return false;
            }
        }
        default: return s == w.s;
    }
}
inline bool eq(const Val& got, const Val& w, bool approx)
{
    auto cmp = [&](double a, double b) { return approx ? close(a, b) : same(a, b); };
    if (got.k != w.k) return false;
    switch (got.k) {
        case D: return cmp(got.d, w.d);
        case I: return got.i == w.i || (approx && std::abs(static_cast<double>(got.i) - static_cast<double>(w.i)) <= 1 + std::abs(static_cast<double>(w.i)) * 1e-11);
        case T: return got.i == w.i || (approx && std::abs(static_cast<double>(got.i) - static_cast<double>(w.i)) <= 1 + std::abs(static_cast<double>(w.i)) * 1e-11);
        case S: return got.s == w.s;
        case C: return cmp(got.c.real(), w.c.real()) && cmp(got.c.imag(), w.c.imag());
        case V: {
            if (got.v.size() != w.v.size()) return false;
            for (size_t i = 0; i < w.v.size(); ++i) if (!cmp(got.v[i], w.v[i])) return false;
            return true;
        }
        case CV: {
            if (got.cv.size() != w.cv.size()) return false;
            for (size_t i = 0; i < w.cv.size(); ++i) if (!cmp(got.cv[i].real(), w.cv[i].real()) || !cmp(got.cv[i].imag(), w.cv[i].imag())) return false;
            return true;
        }
        case NP: return got.nn == w.nn && same(got.nv, w.nv);
        case B: return got.b == w.b;
        default: return false;
    }
}
inline bool fitsInt(double d) { return std::abs(d) < 9.0e18; }
inline bool fitsTime(double d) { return std::abs(d) < 9.0e9; }
inline int64_t timeOf(double d) { return static_cast<int64_t>(std::llround(static_cast<long double>(d) * 1e9L)); }

// classes of strings with a documented meaning
inline bool plainNumber(const std::string& s, double& d)
{
    size_t p = 0;
    if (s.empty() || !(s[0] == '-' || s[0] == '+' || s[0] == '.' || (s[0] >= '0' && s[0] <= '9'))) return false;
    for (char c : s) if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) return false;
    return parseNum(s, p, d) && p == s.size();
}
inline bool plainInt(const std::string& s, int64_t& v)
{
    if (s.empty()) return false;
    size_t b = s[0] == '-' ? 1 : 0;
    if (b == s.size()) return false;
    for (size_t i = b; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
    errno = 0;
    char* e = nullptr;
    v = std::strtoll(s.c_str(), &e, 10);
    return errno == 0 && *e == 0;
}
inline bool falseText(const std::string& s)
{
    static const std::set<std::string> f{"0", "00", "0000", "false", "f", "F", "FALSE", "False", "N", "no", "n", "No", "NO", "OFF", "off", "", "disable", "disabled"};
    return f.count(s) != 0;
}
// a string that does not look like any number, list or JSON
inline bool wordText(const std::string& s)
{
    if (s.empty()) return false;
    for (char c : s) if (!((c >= 'a' && c <= 'z') || c == '_' || c == ' ')) return false;
    return s[0] != ' ' && s[0] != 'v' && s[0] != 'c' && s[0] != 'n' && s[0] != 'i' && s.back() != 'i' && s.back() != 'j' && s != "true" && s != "false" && s != "null";
}

// what reading a value of kind a.k as kind to gives; publishing side differs in a few documented or harmless ways (accept both)
inline Want convert(const Val& a, Kind to);

inline Want wOpen()
{
    Want w;
    w.open = true;
    return w;
}
inline Want wOne(Val v, bool approx = false)
{
    Want w;
    w.any.push_back(std::move(v));
    w.approx = approx;
    return w;
}
inline Want wSpell(Val v)
{
    Want w;
    w.numericString = true;
    w.spell = std::move(v);
    return w;
}
inline Want fromDouble(double d, Kind to, bool approx)
{
    switch (to) {
        case D: return wOne(mkD(d), approx);
        case I: return fitsInt(d) ? wOne(mkI(static_cast<int64_t>(std::trunc(d))), approx) : wOpen();
        case S: return wSpell(mkD(d));
        case C: return wOne(mkC({d, 0}), approx);
        case V: return wOne(mkV({d}), approx);
        case CV: return wOne(mkCV({{d, 0}}), approx);
        case NP: return wOne(mkNP("value", d), approx);
        case B: return wOne(mkB(d != 0));
        case T: return fitsTime(d) ? wOne(mkT(timeOf(d)), true) : wOpen();
        default: return wOpen();
    }
}
inline bool utf8(const std::string& s)
{
    for (char c : s) if (static_cast<unsigned char>(c) > 126 || static_cast<unsigned char>(c) < 32) return false;
    return true;
}
// squares of such values vanish
inline bool tiny(double n) { return n != 0 && n < 1e-150; }
inline bool tiny(const Val& a)
{
    double m = 0;
    for (auto x : a.v) m = std::max(m, std::abs(x));
    for (auto x : a.cv) m = std::max(m, std::abs(x));
    return tiny(m);
}
inline Want convert(const Val& a, Kind to)
{
    if (to == B && (a.k == V || a.k == CV) && tiny(a)) return wOpen();
    switch (a.k) {
        case D: return fromDouble(a.d, to, false);
        case I:
            switch (to) {
                case I: return wOne(mkI(a.i));
                case T: return wOne(mkT(a.i));
                case S: return wSpell(a);
                case NP: {
                    Want w;
                    const double dv = static_cast<double>(a.i);
                    const bool exact = std::abs(dv) < 9.2e18 && static_cast<int64_t>(dv) == a.i;
                    if (exact) w.any.push_back(mkNP("value", dv));
                    if (std::abs(dv) >= 4503599627370496.0) w.any.push_back(mkNP(std::to_string(a.i), std::nan("0")));
                    return w;
                }
                default: return fromDouble(static_cast<double>(a.i), to, false);
            }
        case T: {
            const double sec = static_cast<double>(a.i) / 1e9;
            switch (to) {
                case I: return wOne(mkI(a.i));
                case T: return wOne(mkT(a.i));
                case S: return wSpell(mkI(a.i));
                case B: return wOpen();
                case NP: return wOpen();
                default: return fromDouble(sec, to, true);
            }
        }
        case B:
            switch (to) {
                case S: return wOne(mkS(a.b ? "1" : "0"));
                case T: return wOpen();
                default: return fromDouble(a.b ? 1.0 : 0.0, to, false);
            }
        case C:
            if (a.c.imag() == 0) {
                if (to == V) {
                    Want w;
                    w.any = {mkV({a.c.real()}), mkV({a.c.real(), 0.0})};
                    return w;
                }
                if (to == NP) {
                    Want w = fromDouble(a.c.real(), to, false);
                    w.numericString = true;  // or the number spelled in the name
                    w.spell = mkD(a.c.real());
                    return w;
                }
                return fromDouble(a.c.real(), to, false);
            }
            switch (to) {
                case C: return wOne(a);
                case S:
                case NP: return wSpell(a);
                case V: return wOne(mkV({a.c.real(), a.c.imag()}));
                case CV: return wOne(mkCV({a.c}));
                case T: return wOpen();
                default: return fromDouble(std::abs(a.c), to, true);
            }
        case V:
            if (a.v.size() == 1) {
                if (to == S) return wSpell(a);
                return fromDouble(a.v[0], to, false);
            }
            switch (to) {
                case V: return wOne(a);
                case S:
                    return wSpell(a);
                case NP: {
                    Want w = wSpell(a);
                    if (a.v.empty()) w.any.push_back(mkNP("", std::nan("0")));
                    return w;
                }
                case C: return a.v.empty() ? wOpen() : wOne(mkC({a.v[0], a.v[1]}));
                case CV: {
                    std::vector<cplx> re, pairs;
                    for (auto x : a.v) re.emplace_back(x, 0);
                    for (size_t i = 0; i + 1 < a.v.size(); i += 2) pairs.emplace_back(a.v[i], a.v[i + 1]);
                    if (a.v.size() % 2) pairs.emplace_back(a.v.back(), 0);
                    Want w;
                    w.any = {mkCV(re), mkCV(pairs)};
                    return w;
                }
                case T: return wOpen();
                case B:
                case D:
                case I:
                default: return fromDouble(norm(a.v), to, true);
            }
        case CV:
            if (a.cv.size() == 1) {
                if (to == CV) return wOne(a);
                if (to == V && a.cv[0].imag() != 0) {
                    Want w = wOne(mkV({std::abs(a.cv[0])}), true);
                    w.any.push_back(mkV({a.cv[0].real(), a.cv[0].imag()}));
                    return w;
                }
                if (to == S || to == NP) {
                    Want w = wSpell(mkC(a.cv[0]));
                    if (to == NP && a.cv[0].imag() == 0) w.any.push_back(mkNP("value", a.cv[0].real()));
                    return w;
                }
                return convert(mkC(a.cv[0]), to);
            }
            switch (to) {
                case CV: return wOne(a);
                case S:
                    return wSpell(a);
                case NP: {
                    Want w = wSpell(a);
                    if (a.cv.empty()) w.any.push_back(mkNP("", std::nan("0")));
                    return w;
                }
                case C: return a.cv.empty() ? wOpen() : wOne(mkC(a.cv[0]));
                case V: {
                    std::vector<double> ab, flat;
                    for (auto x : a.cv) {
                        ab.push_back(x.imag() == 0 ? x.real() : std::abs(x));
                        flat.push_back(x.real());
                        flat.push_back(x.imag());
                    }
                    Want w = wOne(mkV(ab), true);
                    w.any.push_back(mkV(flat));
                    return w;
                }
                case T: return wOpen();
                default: return fromDouble(norm(a.cv), to, true);
            }
        case NP:
            if (to == NP) return wOne(a);
            if (std::isnan(a.nv)) return (to == B && a.nn.empty()) ? wOpen() : convert(mkS(a.nn), to);
            if (to == S) return utf8(a.nn) ? wSpell(a) : wOpen();
            if (to == B) return a.nn == "value" ? wOne(mkB(a.nv != 0)) : wOpen();
            return fromDouble(a.nv, to, false);
        case S: {
            if (to == S) return wOne(a);
            if (to == T) return wOpen();
            if (to == B) {
                // the documented false texts; nonsensical others are true
                if (falseText(a.s)) return wOne(mkB(false));
                double d;
                if (wordText(a.s) || plainNumber(a.s, d)) {
                    static const std::set<std::string> odd{"-", "+"};
                    return odd.count(a.s) ? wOpen() : wOne(mkB(true));
                }
                return wOpen();
            }
            int64_t iv;
            double d;
            if (to == NP) {
                Want w = wOne(mkNP(a.s, std::nan("0")));
                if (plainInt(a.s, iv)) {
                    const double dv = static_cast<double>(iv);
                    w.any.push_back(mkNP("value", dv));
                } else if (plainNumber(a.s, d)) {
                    w.any.push_back(mkNP("value", d));
                } else if (!wordText(a.s)) {
                    w.open = true;
                }
                return w;
            }
            if (plainInt(a.s, iv)) {
                if (to == I) return wOne(mkI(iv));
                return fromDouble(static_cast<double>(iv), to, false);
            }
            if (plainNumber(a.s, d) && a.s[0] != '+' && a.s[0] != '.') return fromDouble(d, to, false);
            if (wordText(a.s)) {
                switch (to) {
                    case D: return wOne(mkD(invalidD));
                    case I: return wOne(mkI(INT64_MIN));
                    case C: return wOne(mkC({invalidD, 0}));
                    default: return wOpen();
                }
            }
            auto p = parseList(a.s);
            if (p.ok && !p.complexList && !a.s.empty() && a.s[0] == '[') return p.flat.empty() ? wOpen() : convert(mkV(p.flat), to);
            if (p.ok && p.complexList && p.cv.size() * 2 == p.flat.size()) {
                // list of pairs
                if (to == CV) return wOne(mkCV(p.cv));
                return wOpen();
            }
            return wOpen();
        }
        default: return wOpen();
    }
}
inline bool accept(const Val& got, const Want& w)
{
    if (w.open) return true;
    for (auto& a : w.any) {
        if (eq(got, a, w.approx)) return true;
    }
    if (w.numericString) {
        if (got.k == S) return spells(got.s, w.spell);
        if (got.k == NP) return std::isnan(got.nv) && spells(got.nn, w.spell);
    }
    return false;
}
// ------------------------------------------------------------------ generators
inline double randD(Rng& r)
{
    switch (r(9)) {
        case 0: return r.pick({0.0, 1.0, -1.0, 0.5, 1e-9, -1e-9, 123456.789, 1e15, -1e17, 9007199254740993.0, 1e300, -1e-300, 0.1, 2.0 / 3.0});
        case 1: return static_cast<double>(r.range(-1000000, 1000000));
        case 2: return (r.unit() - 0.5) * 1e-7;
        case 3: return (r.unit() - 0.5) * 1e12;
        case 4: return std::ldexp(r.unit() - 0.5, static_cast<int>(r(400)) - 200);
        default: return (r.unit() - 0.5) * 2000;
    }
}
inline int64_t randI(Rng& r)
{
    switch (r(6)) {
        case 0: return r.pick<int64_t>({0, 1, -1, INT64_MAX, INT64_MIN + 1, 9007199254740993LL, -9007199254740993LL, 4503599627370496LL, 4503599627370497LL, 1000000000LL, 2147483648LL, 5000000000LL});
        case 1: return static_cast<int64_t>(r.next());
        case 2: return static_cast<int64_t>(r.next() >> r(60));
        default: return r.range(-1000000, 1000000);
    }
}
inline std::string randText(Rng& r)
{
    switch (r(8)) {
        case 0: return std::to_string(randI(r));
        case 1: return num(randD(r));
        case 2: {
            std::string s;
            for (size_t i = 0, n = 1 + r(30); i < n; ++i) s.push_back("abdefghklmopqrstuwxyz_ "[r(23)]);
            return s;
        }
        case 3: {
            std::string s = "[";
            for (size_t i = 0, n = r(6); i < n; ++i) s += (i ? "," : "") + num(randD(r));
            return s + "]";
        }
        case 4: return r.pick<std::string>({"0", "00", "0000", "false", "f", "F", "FALSE", "N", "no", "n", "OFF", "off", "disable", "disabled", "true", "1", "on", "yes", "enabled", "T"});
        case 5: {
            std::string s = "[";
            for (size_t i = 0, n = 2 + r(4); i < n; ++i) s += std::string(i ? "," : "") + "[" + num(randD(r)) + "," + num(randD(r)) + "]";
            return s + "]";
        }
        default: {
            std::string s;
            for (size_t i = 0, n = r(80); i < n; ++i) s.push_back(static_cast<char>(r.chance(90) ? 32 + r(95) : 1 + r(255)));
            return s;
        }
    }
}
inline Val randVal(Rng& r, Kind k)
{
    switch (k) {
        case D: return mkD(randD(r));
        case I: return mkI(randI(r));
        case T: return mkT(r.chance(20) ? r.pick<int64_t>({0, 1, -1, 1000000000LL, 3600000000000LL}) : r.range(-100000000000LL, 1000000000000LL));
        case S: return mkS(randText(r));
        case C: return mkC({randD(r), r.chance(30) ? 0.0 : randD(r)});
        case V: {
            std::vector<double> v;
            for (size_t i = 0, n = r.chance(3) ? 1000 : r(7); i < n; ++i) v.push_back(randD(r));
            return mkV(v);
        }
        case CV: {
            std::vector<cplx> v;
            for (size_t i = 0, n = r.chance(3) ? 500 : r(6); i < n; ++i) v.emplace_back(randD(r), r.chance(30) ? 0.0 : randD(r));
            return mkCV(v);
        }
        case NP: {
            double d = r.chance(40) ? std::nan("0") : randD(r);
            std::string n = r.chance(30) ? "value" : (r.chance(50) ? randText(r) : "pt" + std::to_string(r(100)));
            return mkNP(n, d);
        }
        case B: return mkB(r.chance(50));
        default: return mkD(0);
    }
}
}  // namespace vm
