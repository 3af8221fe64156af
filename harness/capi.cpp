// Monitors of the C API: invalid handles and preset errors (profile "invalid"), caller supplied buffers (profile "buffers"),
// arbitrary call sequences on live objects (profile "robust").
#include "vh.hpp"
#include <deque>

#include "helics/shared_api_library/MessageFederate.h"
#include "helics/shared_api_library/MessageFilters.h"
#include "helics/shared_api_library/Translators.h"
#include "helics/shared_api_library/ValueFederate.h"
#include "helics/shared_api_library/api-data.h"
#include "helics/shared_api_library/helicsApps.h"
#include "helics/shared_api_library/helicsCallbacks.h"
#include "helics/shared_api_library/helicsCore.h"
#include "helics/shared_api_library/helicsData.h"

#include <climits>
#include <cmath>
#include <memory>
#include <tuple>

using vh::Rng;

struct Result {
    char kind;
    const void* p{nullptr};
    double d{0};
    long long i{0};
};
struct Ctx {
    Rng* r;
    const char* kinds;
    size_t pos{0};
    std::vector<void*> handles;  // the handle arguments in order
    size_t nextHandle{0};
    HelicsError* err{nullptr};
    std::vector<std::unique_ptr<char[]>> mem;
    int lastLen{0};
    bool haveLen{false};
    bool nullText{false};
    bool complexOut{false};
    std::string (*text)(Rng&){nullptr};
    std::string shown;
    char* block(size_t n)
    {
        mem.emplace_back(new char[n ? n : 1]);
        return mem.back().get();
    }
};
template<class T>
T arg(Ctx& c)
{
    const char k = c.kinds[c.pos++];
    Rng& r = *c.r;
    if constexpr (std::is_same_v<T, void*>) {
        if (k == 'X') {
            c.lastLen = static_cast<int>(r(40));
            c.haveLen = true;
            if (r.chance(10)) {
                c.lastLen = 0;
                return nullptr;
            }
            return c.block(c.lastLen);
        }
        if (k == 'u') return nullptr;
        return c.handles.at(c.nextHandle++);
    } else if constexpr (std::is_same_v<T, const void*> || std::is_same_v<T, const double*>) {
        const size_t w = std::is_same_v<T, const double*> ? (c.complexOut ? 16 : 8) : 1;
        c.lastLen = static_cast<int>(r.chance(15) ? 0 : r(50));
        c.haveLen = true;
        if (c.lastLen == 0 && r.chance(50)) return nullptr;
        char* b = c.block(w * c.lastLen);
        if (w > 1) {
            auto* d = reinterpret_cast<double*>(b);
            for (size_t i = 0; i < w / 8 * c.lastLen; ++i) d[i] = static_cast<double>(r.range(-1000, 1000)) / 8.0;
        } else {
            for (int i = 0; i < c.lastLen; ++i) b[i] = static_cast<char>(r(256));
        }
        return reinterpret_cast<T>(b);
    } else if constexpr (std::is_same_v<T, const char*>) {
        if (c.nullText && r.chance(25)) {
            c.shown += " NULL";
            c.haveLen = true;
            c.lastLen = 0;
            return nullptr;
        }
        std::string s = c.text(r);
        c.shown += " \"" + vh::esc(s, 60) + "\"";
        char* b = c.block(s.size() + 1);
        std::memcpy(b, s.c_str(), s.size() + 1);
        c.haveLen = true;
        c.lastLen = static_cast<int>(s.size());
        return b;
    } else if constexpr (std::is_same_v<T, char*>) {
        c.lastLen = static_cast<int>(r(40));
        c.haveLen = true;
        if (r.chance(10)) {
            c.lastLen = 0;
            return nullptr;
        }
        return c.block(c.lastLen);
    } else if constexpr (std::is_same_v<T, HelicsError*>) {
        return c.err;
    } else if constexpr (std::is_same_v<T, double*>) {
        if (k == 'V') {
            c.lastLen = static_cast<int>(r(20));
            c.haveLen = true;
            if (r.chance(10)) {
                c.lastLen = 0;
                return nullptr;
            }
            return reinterpret_cast<double*>(c.block((c.complexOut ? 16 : 8) * c.lastLen));
        }
        if (r.chance(15)) return nullptr;
        return reinterpret_cast<double*>(c.block(8));
    } else if constexpr (std::is_same_v<T, int*>) {
        if (r.chance(15)) return nullptr;
        return reinterpret_cast<int*>(c.block(sizeof(int)));
    } else if constexpr (std::is_pointer_v<T> && std::is_function_v<std::remove_pointer_t<T>>) {
        return nullptr;
    } else if constexpr (std::is_pointer_v<T>) {
        if constexpr (std::is_same_v<T, const char* const*>) {
            return nullptr;
        } else {
            static_assert(std::is_same_v<T, HelicsIterationResult*>);
            return reinterpret_cast<T>(c.block(sizeof(HelicsIterationResult)));
        }
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(static_cast<int>(r(5)));
    } else if constexpr (std::is_same_v<T, HelicsComplex>) {
        return HelicsComplex{r.unit(), r.unit()};
    } else if constexpr (std::is_floating_point_v<T>) {
        double v = r.chance(70) ? static_cast<double>(r(100)) / 10.0 : r.pick({0.0, -1.0, 1e9, -1e-9, 1e-9, 3.5});
        c.shown += " " + std::to_string(v);
        return v;
    } else {
        if (k == 'L') {
            if (std::strchr(c.kinds, 'G') != nullptr) return 0;
            int v = c.haveLen ? (r.chance(85) ? c.lastLen : static_cast<int>(r(c.lastLen + 1))) : 0;
            if (!c.haveLen) v = static_cast<int>(r(60));
            c.haveLen = false;
            c.shown += " " + std::to_string(v);
            return static_cast<T>(v);
        }
        long long v = r.chance(70) ? static_cast<long long>(r(8)) : r.pick<long long>({-1, 0, 1, 10, 45, 67, 141, 405, 454, 1000, -5});
        c.shown += " " + std::to_string(v);
        return static_cast<T>(v);
    }
}
template<class R, class... A>
Result callFn(R (*f)(A...), Ctx& c, char kind)
{
    std::tuple<A...> t{arg<A>(c)...};
    Result res{kind};
    if constexpr (std::is_void_v<R>) {
        std::apply(f, t);
    } else {
        R v = std::apply(f, t);
        if constexpr (std::is_pointer_v<R>) res.p = reinterpret_cast<const void*>(v);
        else if constexpr (std::is_same_v<R, HelicsComplex>) res.d = v.real;
        else if constexpr (std::is_same_v<R, HelicsError>) res.i = v.error_code;
        else if constexpr (std::is_floating_point_v<R>) res.d = v;
        else res.i = static_cast<long long>(v);
    }
    return res;
}
struct Fn {
    const char* name;
    char ret;
    std::string kinds;
    std::string gives;
    Result (*call)(Ctx&);
    std::string handles() const
    {
        std::string h;
        for (char k : kinds) if (std::strchr("fpiemFtcbqndaQ", k)) h.push_back(k);
        return h;
    }
    bool has(char k) const { return kinds.find(k) != std::string::npos; }
};
static const std::vector<Fn>& table()
{
    static const std::vector<Fn> t{
#define API(NAME_, RET_, KINDS_, GIVES_) {#NAME_, RET_, KINDS_, GIVES_, [](Ctx& c) { c.kinds = KINDS_; return callFn(&NAME_, c, RET_); }},
#include "capi_list.inc"
#undef API
    };
    return t;
}

// ------------------------------------------------------------------ a live federation of one federate to take valid handles from
struct Live {
    std::map<char, std::vector<void*>> h;
    HelicsBroker broker{nullptr};
    HelicsCore core{nullptr};
    HelicsFederate fed{nullptr};
    HelicsFederateInfo info{nullptr};
    HelicsQuery query{nullptr};
    HelicsDataBuffer buf{nullptr};
    bool ok{false};
    std::string name;
    static inline std::atomic<int> count{0};
    explicit Live(long idx)
    {
        HelicsError e = helicsErrorInitialize();
        name = "capi" + std::to_string(getpid()) + "_" + std::to_string(idx) + "_" + std::to_string(count++);
        broker = helicsCreateBroker("test", (name + "_b").c_str(), "-f 1 --loglevel=none --disable_timer", &e);
        core = helicsCreateCore("test", (name + "_c").c_str(), ("-f 1 --disable_timer --loglevel=none --broker=" + name + "_b").c_str(), &e);
        info = helicsCreateFederateInfo();
        helicsFederateInfoSetCoreName(info, (name + "_c").c_str(), &e);
        helicsFederateInfoSetCoreTypeFromString(info, "test", &e);
        helicsFederateInfoSetIntegerProperty(info, HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL, -4, &e);
        helicsFederateInfoSetIntegerProperty(info, HELICS_PROPERTY_INT_FILE_LOG_LEVEL, -4, &e);
        fed = helicsCreateCombinationFederate((name + "_f").c_str(), info, &e);
        auto* p = helicsFederateRegisterPublication(fed, "p0", HELICS_DATA_TYPE_STRING, "", &e);
        auto* p1 = helicsFederateRegisterGlobalTypePublication(fed, (name + "_p1").c_str(), "double_vector", "", &e);
        auto* i = helicsFederateRegisterInput(fed, "i0", HELICS_DATA_TYPE_STRING, "", &e);
        auto* i1 = helicsFederateRegisterInput(fed, "i1", HELICS_DATA_TYPE_ANY, "", &e);
        auto* ep = helicsFederateRegisterEndpoint(fed, "e0", "", &e);
        auto* ep1 = helicsFederateRegisterTargetedEndpoint(fed, "e1", "", &e);
        auto* fl = helicsFederateRegisterFilter(fed, HELICS_FILTER_TYPE_DELAY, "fl0", &e);
        auto* fl1 = helicsFederateRegisterCloningFilter(fed, "fl1", &e);
        auto* tr = helicsFederateRegisterTranslator(fed, HELICS_TRANSLATOR_TYPE_JSON, "tr0", &e);
        auto* m = helicsFederateCreateMessage(fed, &e);
        query = helicsCreateQuery("root", "federates");
        buf = helicsCreateDataBuffer(20);
        ok = e.error_code == 0;
        if (!ok) fprintf(stderr, "setup: %d %s\n", e.error_code, e.message);
        h['f'] = {fed};
        h['p'] = {p, p1};
        h['i'] = {i, i1};
        h['e'] = {ep, ep1};
        h['F'] = {fl, fl1};
        h['t'] = {tr};
        h['m'] = {m};
        h['c'] = {core};
        h['b'] = {broker};
        h['q'] = {query};
        h['n'] = {info};
        h['d'] = {buf};
    }
    ~Live()
    {
        helicsQueryFree(query);
        helicsFederateInfoFree(info);
        helicsDataBufferFree(buf);
        helicsFederateFree(fed);
        helicsCoreDisconnect(core, nullptr);
        helicsBrokerDisconnect(broker, nullptr);
        helicsCoreFree(core);
        helicsBrokerFree(broker);
        helicsCleanupLibrary();
    }
    Live(const Live&) = delete;
};
static std::string wordOf(Rng& r)
{
    switch (r(10)) {
        case 0: return "";
        case 1: return "p0";
        case 2: return "e0";
        case 3: {
            std::string s;
            for (size_t i = 0, n = r(60); i < n; ++i) s.push_back(static_cast<char>(1 + r(255)));
            return s;
        }
        case 4: return r.pick<std::string>({"double", "string", "delay", "period", "time", "root", "federates", "name", "[1,2,3]", "{\"a\":1}", "5s", "23"});
        case 5: return std::string(r(300), 'x');
        default: return "w" + std::to_string(r(1000));
    }
}
// functions acting on the whole process or starting things from text; exercised elsewhere
static bool global(const std::string& n)
{
    static const std::set<std::string> g{"helicsCloseLibrary", "helicsCleanupLibrary", "helicsAbort", "helicsLoadSignalHandler", "helicsLoadThreadedSignalHandler",
                                         "helicsClearSignalHandler", "helicsLoadSignalHandlerCallback", "helicsLoadSignalHandlerCallbackNoExit",
                                         "helicsCreateCore", "helicsCreateCoreFromArgs", "helicsCreateBroker", "helicsCreateBrokerFromArgs",
                                         "helicsCreateValueFederate", "helicsCreateMessageFederate", "helicsCreateCombinationFederate", "helicsCreateCallbackFederate",
                                         "helicsCreateValueFederateFromConfig", "helicsCreateMessageFederateFromConfig", "helicsCreateCombinationFederateFromConfig",
                                         "helicsCreateCallbackFederateFromConfig", "helicsCreateApp", "helicsWrapDataInBuffer"};
    return g.count(n) != 0;
}
static void* badHandle(Rng& r, char want, Live& live, std::vector<std::unique_ptr<char[]>>& mem, std::string& what)
{
    // a query buffer only exists during the callback, it cannot be told from other memory
    switch (want == 'Q' ? 0 : r(4)) {
        case 0: what = "null"; return nullptr;
        case 1: {
            what = "zeroed memory";
            mem.emplace_back(new char[4096]());
            return mem.back().get();
        }
        case 2: {
            what = "random memory";
            mem.emplace_back(new char[4096]);
            for (size_t i = 0; i < 4096; ++i) mem.back()[i] = static_cast<char>(r(256));
            return mem.back().get();
        }
        default: {
            // live objects of another kind, where the object is large enough for the check to look into it
            std::string kinds = std::strchr("pi", want) ? "fpiFtc" : std::strchr("Ft", want) ? "fiFtc" : std::strchr("f", want) ? "piFtcb" : want == 'b' ? "fpFtc" : "";
            std::string can;
            for (char k : kinds) if (k != want) can.push_back(k);
            if (can.empty()) {
                what = "null";
                return nullptr;
            }
            char k = can[r(can.size())];
            what = std::string("a live object of kind ") + k;
            return r.pick(live.h[k]);
        }
    }
}
static char g_last[9000];
static void note(const std::string& s)
{
    std::snprintf(g_last, sizeof(g_last), "%s", s.c_str());
    vh::st().onHang = [] { return std::string(g_last); };
}
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
static void onDeath() { fprintf(stderr, "during: %s\n", g_last); }
static const bool g_hook = [] {
    __sanitizer_set_death_callback(onDeath);
    return true;
}();
#endif
static bool boolFn(const std::string& n, char ret) { return ret == 'B' && n.find("FillFrom") == std::string::npos; }

static void invalidCase(Rng& r, long idx)
{
    static const std::vector<Fn> fns = [] {
        std::vector<Fn> v;
        for (auto& f : table()) if (!global(f.name)) v.push_back(f);
        return v;
    }();
    Live live(idx);
    if (!live.ok) {
        vh::viol("*", "setup", "the federation for the handles could not be made");
        return;
    }
    // functions documented to accept a missing object or to have nothing to report
    static const std::set<std::string> tolerant{
        "helicsErrorInitialize"};
    HelicsError q = helicsErrorInitialize();
    auto state = [&] {
        std::string s;
        s += std::to_string(helicsFederateGetPublicationCount(live.fed)) + "," + std::to_string(helicsFederateGetInputCount(live.fed)) + "," +
            std::to_string(helicsFederateGetEndpointCount(live.fed)) + "," + std::to_string(helicsFederateGetFilterCount(live.fed)) + "," +
            std::to_string(helicsFederateGetTranslatorCount(live.fed)) + "," + std::to_string(static_cast<int>(helicsFederateGetState(live.fed, &q))) + "," +
            std::to_string(helicsMessageGetByteCount(live.h['m'][0])) + "," + helicsMessageGetDestination(live.h['m'][0]) + "," + helicsPublicationGetInfo(live.h['p'][0]) + "," +
            helicsInputGetInfo(live.h['i'][0]) + "," + helicsEndpointGetInfo(live.h['e'][0]) + "," + helicsFilterGetInfo(live.h['F'][0]) + "," +
            helicsEndpointGetDefaultDestination(live.h['e'][0]) + "," + std::to_string(helicsDataBufferSize(live.buf)) + "," + std::to_string(helicsMessageGetTime(live.h['m'][0]));
        return s;
    };
    const std::string before = state();
    for (auto& f : fns) {
        const std::string hs = f.handles();
        const std::string name = f.name;
        const int rep = 2;
        for (int k = 0; k < rep; ++k) {
            Ctx c;
            c.r = &r;
            c.text = wordOf;
            c.nullText = true;
            c.complexOut = name.find("Complex") != std::string::npos;
            HelicsError err = helicsErrorInitialize();
            const bool preset = f.has('E') && !hs.empty() && r.chance(35);
            const bool withErr = preset || r.chance(85);
            static const char* presetText = "set before the call";
            if (preset) {
                err.error_code = -77;
                err.message = presetText;
            }
            c.err = withErr ? &err : nullptr;
            std::vector<std::unique_ptr<char[]>> mem;
            std::string what = "no handle";
            size_t bad = hs.empty() ? 0 : r(hs.size());
            if (preset) what = "an error already set";
            bool valid = true;
            for (size_t i = 0; i < hs.size(); ++i) {
                if ((!preset && i == bad) || hs[i] == 'a' || hs[i] == 'Q') {
                    std::string w;
                    c.handles.push_back(badHandle(r, hs[i], live, mem, w));
                    if (!preset) what = w;
                    valid = false;
                } else {
                    c.handles.push_back(r.pick(live.h[hs[i]]));
                }
            }
            if (hs.empty() && f.has('E')) continue;
            if (preset && (name == "helicsErrorClear")) continue;
            if (name == "helicsErrorClear" || name == "helicsErrorInitialize") continue;
            std::string key = name;
            vh::progress();
            note(name + " with " + what);
            Result res;
            try {
                res = f.call(c);
            }
            catch (const std::exception& e) {
                vh::viol("*", "throws:" + name, name + " with " + what + " lets an exception escape: " + e.what());
                continue;
            }
            catch (...) {
                vh::viol("*", "throws:" + name, name + " with " + what + " lets an exception escape");
                continue;
            }
            vh::stat("calls");
            vh::distinct(vh::mix(vh::hashStr(name), vh::hashStr(what) * 2 + withErr));
            std::string desc = name + " with " + what + (c.shown.empty() ? "" : " (" + c.shown + " )");
            if (hs.empty()) {
                // creating functions: release
                if (name == "helicsCreateQuery") helicsQueryFree(const_cast<void*>(res.p));
                if (name == "helicsCreateFederateInfo") helicsFederateInfoFree(const_cast<void*>(res.p));
                if (name == "helicsCreateDataBuffer") helicsDataBufferFree(const_cast<void*>(res.p));
                if (f.ret == 's' && res.p == nullptr) vh::viol("*", "null-text:" + name, desc + " returns a null text");
                continue;
            }
            if (preset) {
                if (err.error_code != -77 || err.message != presetText) vh::viol("*", "preset-error:" + name, desc + " changes it to " + std::to_string(err.error_code) + " " + (err.message ? err.message : "null"));
            } else if (f.has('E') && withErr && tolerant.count(name) == 0) {
                const bool nothing = c.shown.find("NULL") != std::string::npos && (name == "helicsFederatePublishJSON" || name == "helicsFederateRegisterFromPublicationJSON");
                if (err.error_code == 0 && !nothing && name != "helicsMessageSetDataBuffer") vh::viol("*", "no-error:" + name, desc + " reports no error");
                else if (err.error_code != 0 && (err.message == nullptr || err.message[0] == 0)) vh::viol("*", "no-message:" + name, desc + " reports error " + std::to_string(err.error_code) + " without a message");
                vh::stat("errors_checked");
            }
            if (name.rfind("helicsQuery", 0) == 0 && f.ret == 's' && res.p != nullptr) continue;  // the text describes the failure
            if (name == "helicsBrokerWaitForDisconnect" || name == "helicsCoreWaitForDisconnect") continue;  // nothing to wait for: done
            if (preset ? f.has('E') : !valid) {
                switch (f.ret) {
                    case 'H':
                    case 'P':
                        if (res.p != nullptr) vh::viol("*", "result:" + name, desc + " returns an object");
                        break;
                    case 's':
                        if (res.p == nullptr) vh::viol("*", "null-text:" + name, desc + " returns a null text");
                        else if (std::strlen(static_cast<const char*>(res.p)) > 64) vh::viol("*", "result:" + name, desc + " returns text");
                        break;
                    case 'B':
                        if (boolFn(name, f.ret) && res.i != HELICS_FALSE && name != "helicsQueryIsCompleted") vh::viol("*", "result:" + name, desc + " returns true");
                        break;
                    default: break;
                }
            }
        }
    }
    const std::string after = state();
    if (before != after) vh::viol("*", "state-changed", "refused calls changed the live objects: " + before + " -> " + after);
    if (idx < 1) vh::sample(std::to_string(fns.size()) + " functions; state " + before);
}
#include "capi_more.inc"

static void oneCase(Rng& r, long idx)
{
    const std::string& p = vh::st().a.profile;
    if (p == "invalid") invalidCase(r, idx);
    else if (p == "buffers") buffersCase(r, idx);
    else robustCase(r, idx);
}
int main(int argc, char** argv)
{
    return vh::run(argc, argv, oneCase);
}
