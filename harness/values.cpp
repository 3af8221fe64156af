// Monitors of value conversion (unit level and through federates), text parsing, multi-source inputs and change detection.
#include "valmodel.hpp"

#include "helics/ValueFederates.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/helics_definitions.hpp"

#include <memory>

using namespace helics;
using namespace vm;

static const std::vector<std::pair<DataType, int>>& pubTypes()
{
    static const std::vector<std::pair<DataType, int>> t{
        {DataType::HELICS_DOUBLE, D}, {DataType::HELICS_INT, I},       {DataType::HELICS_STRING, S}, {DataType::HELICS_COMPLEX, C},
        {DataType::HELICS_VECTOR, V}, {DataType::HELICS_COMPLEX_VECTOR, CV}, {DataType::HELICS_NAMED_POINT, NP}, {DataType::HELICS_BOOL, B},
        {DataType::HELICS_TIME, T},   {DataType::HELICS_ANY, -1},      {DataType::HELICS_JSON, -2}};
    return t;
}
static bool publishable(const Val& a, int pk)
{
    // a conversion whose result cannot be represented is not promised anything
    auto big = [&](double d) { return pk == I ? !fitsInt(d) : (pk == T ? !fitsTime(d) : false); };
    switch (a.k) {
        case D: return !big(a.d);
        case I: return true;
        case C: return !big(std::abs(a.c));
        case V: return !big(norm(a.v));
        case CV: return !big(norm(a.cv));
        case NP:
            if (std::isnan(a.nv)) return publishable(mkS(a.nn), pk) && !(pk == -2 && !utf8(a.nn));
            return !big(a.nv) && !(pk == -2 && !utf8(a.nn));
        case S: {
            if (pk == -2) return utf8(a.s);
            double d;
            if (pk == I || pk == T) {
                if (plainNumber(a.s, d)) return !big(d);
                auto p = parseList(a.s);
                if (p.ok) return !big(norm(p.flat));
                return pk == I ? wordText(a.s) : false;
            }
            return true;
        }
        default: return true;
    }
}
static bool readable(const Val& mid, Kind to)
{
    if (to == T) {
        switch (mid.k) {
            case D: return fitsTime(mid.d);
            case I:
            case T: return true;
            case NP: return !std::isnan(mid.nv) && fitsTime(mid.nv);
            default: return false;
        }
    }
    if (to == I) {
        switch (mid.k) {
            case D: return fitsInt(mid.d);
            case NP: return std::isnan(mid.nv) ? readable(mkS(mid.nn), to) : fitsInt(mid.nv);
            case C: return fitsInt(std::abs(mid.c));
            case V: return fitsInt(norm(mid.v));
            case CV: return fitsInt(norm(mid.cv));
            case S: {
                double d;
                int64_t iv;
                if (plainInt(mid.s, iv)) return true;
                if (plainNumber(mid.s, d)) return fitsInt(d);
                auto p = parseList(mid.s);
                if (p.ok) return fitsInt(norm(p.flat));
                return wordText(mid.s);
            }
            default: return true;
        }
    }
    return true;
}
static SmallBuffer doConvert(DataType t, const Val& a, Rng& r)
{
    switch (a.k) {
        case D: return typeConvert(t, a.d);
        case I: return typeConvert(t, a.i);
        case S: return typeConvert(t, std::string_view(a.s));
        case C: {
            if (r.chance(30)) {
                double x[2] = {a.c.real(), a.c.imag()};
                return typeConvertComplex(t, x, 1);
            }
            return typeConvert(t, a.c);
        }
        case V: return r.chance(50) ? typeConvert(t, a.v) : typeConvert(t, a.v.data(), a.v.size());
        case CV: {
            if (r.chance(50)) {
                std::unique_ptr<double[]> x(new double[2 * a.cv.size() + 1]);
                for (size_t i = 0; i < a.cv.size(); ++i) {
                    x[2 * i] = a.cv[i].real();
                    x[2 * i + 1] = a.cv[i].imag();
                }
                std::unique_ptr<double[]> y(new double[std::max<size_t>(1, 2 * a.cv.size())]);
                memcpy(y.get(), x.get(), 16 * a.cv.size());
                return typeConvertComplex(t, y.get(), a.cv.size());
            }
            return typeConvert(t, a.cv);
        }
        case NP: return r.chance(50) ? typeConvert(t, NamedPoint(a.nn, a.nv)) : typeConvert(t, a.nn, a.nv);
        case B: return typeConvert(t, a.b);
        case T: {
            Time x;
            x.setBaseTimeCode(a.i);
            return typeConvert(t, x);
        }
        default: return {};
    }
}
template<class Src, class... X>
static Val extractAs(Kind k, const Src& src, X... x)
{
    Val v;
    v.k = k;
    switch (k) {
        case D: valueExtract(src, x..., v.d); break;
        case I: valueExtract(src, x..., v.i); break;
        case S: valueExtract(src, x..., v.s); break;
        case C: valueExtract(src, x..., v.c); break;
        case V: valueExtract(src, x..., v.v); break;
        case CV: valueExtract(src, x..., v.cv); break;
        case NP: {
            NamedPoint np;
            valueExtract(src, x..., np);
            v.nn = np.name;
            v.nv = np.value;
            break;
        }
        case B: valueExtract(src, x..., v.b); break;
        case T: {
            Time t;
            valueExtract(src, x..., t);
            v.i = t.getBaseTimeCode();
            break;
        }
        default: break;
    }
    return v;
}
static defV asDefV(const Val& a)
{
    switch (a.k) {
        case D: return a.d;
        case I: return a.i;
        case S: return a.s;
        case C: return a.c;
        case V: return a.v;
        case CV: return a.cv;
        case NP: return NamedPoint(a.nn, a.nv);
        case B: return static_cast<int64_t>(a.b);
        default: return a.i;
    }
}
static void judge(const char* where, const Val& from, Kind to, const Val& got, const std::string& via)
{
    vh::stat("conversions");
    Want w = convert(from, to);
    if (!accept(got, w)) {
        std::string want;
        for (auto& a : w.any) want += " " + show(a);
        if (w.numericString) want += " text of " + show(w.spell);
        vh::viol("*", std::string(where) + "-" + kname(from.k) + "-" + kname(to), via + ": " + show(from) + " as " + kname(to) + " gives " + show(got) + " instead of" + want);
    }
}
static void convertCase(Rng& r, long idx)
{
    for (int rep = 0; rep < 60; ++rep) {
        const Val a = randVal(r, static_cast<Kind>(r(KINDS)));
        for (auto& [dt, pk] : pubTypes()) {
            if (!publishable(a, pk)) continue;
            if (a.k == T && pk < 0) continue;
            SmallBuffer buf;
            try {
                buf = doConvert(dt, a, r);
            }
            catch (const std::exception& e) {
                if (a.k == S || (a.k == NP && std::isnan(a.nv))) {
                    vh::stat("text_refused");
                    continue;  // text that is no value of that type may be refused
                }
                vh::viol("*", "convert-throws", std::string("conversion of ") + show(a) + " throws " + e.what());
                continue;
            }
            Val mid;
            // exact copy on the heap, so that a read outside is seen
            std::string keep(buf.to_string());
            std::unique_ptr<char[]> heap(new char[std::max<size_t>(1, keep.size())]);
            memcpy(heap.get(), keep.data(), keep.size());
            data_view dv(std::string_view(heap.get(), keep.size()));
            if (pk >= 0) {
                mid = extractAs(static_cast<Kind>(pk), dv, dt);
                judge("publish", a, static_cast<Kind>(pk), mid, "published to a " + std::string(kname(pk)) + " publication");
                if (pk == S && mid.k == S && keep.size() > 8) vh::distinct(vh::mix(a.k * 100 + pk, 1));
            } else {
                mid = a;
                if (a.k == NP && std::isnan(a.nv)) mid = mkS(a.nn);  // a point without a value is carried as its text
            }
            for (int k = 0; k < KINDS; ++k) {
                const Kind to = static_cast<Kind>(k);
                if (!readable(mid, to) || (pk < 0 && mid.k == B && (to == B))) continue;
                vh::distinct(vh::mix(a.k, vh::mix(pk + 5, vh::mix(k, vh::hashStr(show(mid))))));
                Val got;
                try {
                    got = extractAs(to, dv, dt);
                }
                catch (const std::exception& e) {
                    if (mid.k == S || (mid.k == NP && std::isnan(mid.nv))) {
                        vh::stat("text_refused");
                        if (!convert(mid, to).open) {
                            vh::viol("*", std::string("read-throws-") + kname(to), std::string("reading ") + show(mid) + " as " + kname(to) + " throws " + e.what());
                        }
                        continue;
                    }
                    vh::viol("*", "extract-throws", std::string("reading ") + show(mid) + " as " + kname(to) + " throws " + e.what());
                    continue;
                }
                judge("read", mid, to, got, "received through a " + std::string(pk >= 0 ? kname(pk) : (pk == -1 ? "any" : "json")) + " publication");
            }
        }
        // values kept by an input (variant) and read again as something else
        if (a.k != T) {
            const defV dv = asDefV(a);
            for (int k = 0; k < KINDS; ++k) {
                const Kind to = static_cast<Kind>(k);
                const Val from = a.k == B ? mkI(a.b ? 1 : 0) : a;
                if (!readable(from, to)) continue;
                try {
                    judge("kept", from, to, extractAs(to, dv), "kept value");
                }
                catch (const std::exception& e) {
                    if (from.k == S || (from.k == NP && std::isnan(from.nv))) {
                        if (!convert(from, to).open) {
                            vh::viol("*", std::string("kept-throws-") + kname(to), std::string("reading kept ") + show(from) + " as " + kname(to) + " throws " + e.what());
                        }
                        continue;
                    }
                    vh::viol("*", "kept-throws", std::string("reading kept ") + show(from) + " as " + kname(to) + " throws " + e.what());
                }
            }
        }
        vh::progress();
    }
    if (idx < 3) {
        vh::sample(show(randVal(r, static_cast<Kind>(r(KINDS)))));
    }
}

#include "values_parse.inc"
#include "values_fed.inc"

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](Rng& r, long i) {
        auto& p = vh::st().a.profile;
        if (p == "convert") {
            convertCase(r, i);
        } else if (p == "parse") {
            parseCase(r, i);
        } else {
            fedCase(r, i, p);
        }
    });
}
