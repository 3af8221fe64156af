// Identifier arithmetic, core type names, default ports, zmq helper functions.
#include "vh.hpp"

#include "helics/application_api/typeOperations.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/CoreTypes.hpp"
#include "helics/core/GlobalFederateId.hpp"
#include "helics/core/LocalFederateId.hpp"
#include "helics/core/coreTypeOperations.hpp"
#include "helics/helics_enums.h"
#include "helics/network/networkDefaults.hpp"
#include "helics/network/zmq/ZmqContextManager.h"
#include "helics/network/zmq/ZmqHelper.h"

#include "cppzmq/zmq.hpp"

#include <algorithm>
#include <barrier>
#include <sstream>

using namespace helics;
using vh::Rng;
static std::string P;
static void bad(const std::string& k, const std::string& d) { vh::viol(P, k, d); }

template<class Id>
static std::string str(Id id)
{
    std::ostringstream o;
    o << id;
    return o.str();
}
static int32_t rid(Rng& r)
{
    static const std::vector<int64_t> edge{0, 1, -1, 2, 131071, 131072, 131073, 0x6FFFFFFF, 0x70000000, 0x70000001, 0x7FFFFFFF, -2147483648LL, -2000000000,
                                           -2010000000, -1700000000, -1295148000, -259, -235262, -1745234, 0x6FFF0000};
    if (r.chance(40)) {
        return static_cast<int32_t>(r.pick(edge) + r.range(-2, 2));
    }
    if (r.chance(30)) {
        return static_cast<int32_t>(r.range(0, 300000));
    }
    return static_cast<int32_t>(r.next());
}
template<class Id>
static void order(const char* n, const std::vector<int32_t>& v)
{
    for (auto a : v) {
        Id A(a);
        if (A.baseValue() != a) {
            bad(std::string(n) + "-base", std::to_string(a));
        }
        for (auto b : v) {
            Id B(b);
            if ((A == B) != (a == b) || (A != B) != (a != b) || (A < B) != (a < b)) {
                bad(std::string(n) + "-compare", std::to_string(a) + "," + std::to_string(b));
            }
            if (a == b && std::hash<Id>{}(A) != std::hash<Id>{}(B)) {
                bad(std::string(n) + "-hash", std::to_string(a));
            }
            vh::stat("identifier_pairs");
        }
        if (str(A) != std::to_string(a)) {
            bad(std::string(n) + "-print", str(A) + " for " + std::to_string(a));
        }
    }
    if (Id().isValid() || !(Id() == Id())) {
        bad(std::string(n) + "-default", "a default identifier must be invalid");
    }
}
static void ids(Rng& r, long)
{
    P = "C28";
    std::vector<int32_t> v;
    for (int i = 0; i < 12; ++i) {
        v.push_back(rid(r));
        vh::distinct(vh::mix(5, static_cast<uint64_t>(v.back())));
    }
    order<LocalFederateId>("local", v);
    order<InterfaceHandle>("interface", v);
    order<GlobalFederateId>("globalfed", v);
    order<GlobalBrokerId>("globalbroker", v);
    order<route_id>("route", v);
    for (auto a : v) {
        GlobalFederateId f(a);
        GlobalBrokerId b(a);
        if (GlobalFederateId(b) != f || GlobalBrokerId(f) != b) {
            bad("global-convert", std::to_string(a));
        }
        bool fed = a >= 0x20000 && a < 0x70000000, br = a >= 0x70000000 || a == 1;
        if (f.isFederate() != fed || b.isFederate() != fed || f.isBroker() != br || b.isBroker() != br) {
            bad("global-kind", std::to_string(a));
        }
        if (fed && f.localIndex() + 0x20000 != a) {
            bad("federate-index", std::to_string(a));
        }
        if (a >= 0x70000000 && b.localIndex() + 0x70000000 != a) {
            bad("broker-index", std::to_string(a));
        }
        if (a >= 0 && (!f.isValid() || !b.isValid() || !LocalFederateId(a).isValid() || !InterfaceHandle(a).isValid() || !route_id(a).isValid())) {
            bad("valid-id-rejected", std::to_string(a));
        }
    }
    // global handles: injective key, lexicographic order
    for (int i = 0; i < 40; ++i) {
        GlobalHandle x(GlobalFederateId(r.pick(v)), InterfaceHandle(r.pick(v))), y(GlobalFederateId(r.pick(v)), InterfaceHandle(r.pick(v)));
        auto tx = std::make_pair(x.fed_id.baseValue(), x.handle.baseValue()), ty = std::make_pair(y.fed_id.baseValue(), y.handle.baseValue());
        if ((x == y) != (tx == ty) || (x != y) != (tx != ty) || (x < y) != (tx < ty)) {
            bad("handle-compare", str(x) + " " + str(y));
        }
        if ((static_cast<uint64_t>(x) == static_cast<uint64_t>(y)) != (tx == ty)) {
            bad("handle-key-collision", str(x) + " " + str(y));
        }
        if (tx == ty && std::hash<GlobalHandle>{}(x) != std::hash<GlobalHandle>{}(y)) {
            bad("handle-hash", str(x));
        }
        if (x.isValid() != (x.fed_id.isValid() && x.handle.isValid())) {
            bad("handle-valid", str(x));
        }
        if (str(x) != std::to_string(tx.first) + "::" + std::to_string(tx.second)) {
            bad("handle-print", str(x));
        }
        vh::stat("identifier_pairs");
    }
    if (GlobalHandle().isValid()) {
        bad("handle-default", "");
    }
    // special federate ids: distinct per (broker, index), federates, and not among the ordinary ids of small federations
    {
        std::vector<int32_t> sp;
        std::vector<std::pair<int32_t, int>> src;
        for (int i = 0; i < 10; ++i) {
            int32_t b = i == 0 ? 1 : 0x70000000 + static_cast<int32_t>(r.chance(50) ? r(50) : r(1 << 20));
            for (int k = 0; k < 3; ++k) {
                src.emplace_back(b, k);
                auto s = getSpecialFederateId(GlobalBrokerId(b), k);
                sp.push_back(s.baseValue());
                if (!s.isFederate() || !s.isValid()) {
                    bad("special-id-kind", std::to_string(b) + "/" + std::to_string(k));
                }
                if (s.baseValue() < 0x60000000) {
                    bad("special-id-range", std::to_string(s.baseValue()));
                }
            }
        }
        for (size_t a = 0; a < sp.size(); ++a) {
            for (size_t b = a + 1; b < sp.size(); ++b) {
                if ((sp[a] == sp[b]) != (src[a] == src[b])) {
                    bad("special-id-collision", std::to_string(src[a].first) + "/" + std::to_string(src[a].second) + " and " + std::to_string(src[b].first) + "/" +
                            std::to_string(src[b].second));
                }
            }
        }
    }
    for (int i = 0; i < 20; ++i) {
        int32_t code = static_cast<int32_t>(r(127));
        int32_t ix = static_cast<int32_t>(r(1 << 24));
        auto q = generateRouteId(code, ix);
        if (getRouteTypeCode(q) != code || (q.baseValue() & 0xFFFFFF) != ix || !q.isValid()) {
            bad("route-code", std::to_string(code) + "," + std::to_string(ix));
        }
    }
}

static const std::vector<std::pair<const char*, CoreType>>& names()
{
    // the names the user documentation and the API headers list
    static const std::vector<std::pair<const char*, CoreType>> n{
        {"default", CoreType::DEFAULT}, {"zmq", CoreType::ZMQ}, {"0mq", CoreType::ZMQ}, {"zeromq", CoreType::ZMQ}, {"zmqss", CoreType::ZMQ_SS}, {"zmq_ss", CoreType::ZMQ_SS},
        {"zmq2", CoreType::ZMQ_SS}, {"zeromq_ss", CoreType::ZMQ_SS}, {"zeromq2", CoreType::ZMQ_SS}, {"0mqss", CoreType::ZMQ_SS}, {"0mq_ss", CoreType::ZMQ_SS},
        {"ipc", CoreType::INTERPROCESS}, {"interprocess", CoreType::INTERPROCESS}, {"interproc", CoreType::INTERPROCESS}, {"tcp", CoreType::TCP}, {"tcpip", CoreType::TCP},
        {"tcpss", CoreType::TCP_SS}, {"tcp_ss", CoreType::TCP_SS}, {"tcpipss", CoreType::TCP_SS}, {"tcpip_ss", CoreType::TCP_SS}, {"single_socket", CoreType::TCP_SS},
        {"ss", CoreType::TCP_SS}, {"single socket", CoreType::TCP_SS},
        {"udp", CoreType::UDP}, {"test", CoreType::TEST}, {"test1", CoreType::TEST}, {"local", CoreType::TEST}, {"inproc", CoreType::INPROC}, {"inprocess", CoreType::INPROC},
        {"mpi", CoreType::MPI}, {"message_passing_interface", CoreType::MPI}, {"web", CoreType::WEBSOCKET}, {"websocket", CoreType::WEBSOCKET}, {"http", CoreType::HTTP},
        {"nng", CoreType::NNG}, {"null", CoreType::NULLCORE}, {"nullcore", CoreType::NULLCORE}, {"none", CoreType::NULLCORE}, {"empty", CoreType::EMPTY},
        {"multi", CoreType::MULTI}, {"def", CoreType::DEFAULT}};
    return n;
}
static bool known(CoreType t)
{
    for (auto& p : names()) {
        if (p.second == t) {
            return true;
        }
    }
    return t == CoreType::UNRECOGNIZED;
}
static void types(Rng& r, long)
{
    P = "C28";
    const std::vector<CoreType> all{CoreType::ZMQ, CoreType::MPI, CoreType::TEST, CoreType::INTERPROCESS, CoreType::TCP, CoreType::TCP_SS, CoreType::UDP,
                                    CoreType::NNG, CoreType::ZMQ_SS, CoreType::HTTP, CoreType::WEBSOCKET, CoreType::INPROC, CoreType::NULLCORE, CoreType::EMPTY};
    for (auto t : all) {
        auto s = to_string(t);
        if (s.empty() || s.back() != '_' || coreTypeFromString(s) != t || core::coreTypeFromString(s) != t || core::to_string(t) != s) {
            bad("coretype-roundtrip", s);
        }
        vh::stat("names_resolved");
    }
    if (to_string(CoreType::IPC) != to_string(CoreType::INTERPROCESS)) {
        bad("coretype-ipc-alias", to_string(CoreType::IPC));
    }
    auto ask = [](const std::string& s) {
        vh::stat("names_resolved");
        // exact-size heap copy so that a read past the end is seen
        auto* h = new char[s.size() ? s.size() : 1];
        memcpy(h, s.data(), s.size());
        auto t = coreTypeFromString(std::string_view(h, s.size()));
        delete[] h;
        return t;
    };
    for (int k = 0; k < 30; ++k) {
        auto& p = names()[r(names().size())];
        std::string s = p.first;
        int style = static_cast<int>(r(4));
        if (style == 1) {
            std::transform(s.begin(), s.end(), s.begin(), ::toupper);
        } else if (style == 2) {
            for (auto& c : s) {
                if (r.chance(50)) {
                    c = static_cast<char>(toupper(c));
                }
            }
        }
        if (r.chance(20)) {
            s += "_";
        }
        if (r.chance(20)) {
            s.insert(0, r.pick({"-", "=", "--", "-=", "=="}));
        }
        vh::distinct(vh::hashStr(s));
        auto t = ask(s);
        if (t != p.second) {
            bad("coretype-name", s + " resolves to " + std::to_string(static_cast<int>(t)) + " expected " + std::to_string(static_cast<int>(p.second)));
        }
    }
    for (int k = 0; k < 60; ++k) {  // arbitrary text: always an answer, always one of the enumerators, and suffixes of transport names keep the transport
        std::string s;
        int n = static_cast<int>(r(r.chance(5) ? 300 : 9));
        for (int i = 0; i < n; ++i) {
            s += r.chance(60) ? "zmqtcpsudi_-=0 T"[r(16)] : static_cast<char>(r(256));
        }
        vh::distinct(vh::hashStr(s));
        auto t = ask(s);
        if (!known(t)) {
            bad("coretype-unknown-result", s);
        }
        if (ask(s) != t) {
            bad("coretype-nondeterministic", s);
        }
    }
    static const std::pair<const char*, CoreType> prefixes[] = {{"zmqss", CoreType::ZMQ_SS}, {"zmq_ss", CoreType::ZMQ_SS}, {"zmq2", CoreType::ZMQ_SS}, {"zmq", CoreType::ZMQ},
                                                                {"ipc", CoreType::INTERPROCESS}, {"test", CoreType::TEST}, {"tcpss", CoreType::TCP_SS}, {"tcp", CoreType::TCP},
                                                                {"udp", CoreType::UDP}, {"http", CoreType::HTTP}, {"mpi", CoreType::MPI}, {"inproc", CoreType::INPROC},
                                                                {"web", CoreType::WEBSOCKET}, {"null", CoreType::NULLCORE}};
    for (auto& [p, t] : prefixes) {
        std::string s = std::string(p) + "#" + std::to_string(r(1000));
        if (ask(s) != t) {
            bad("coretype-prefix", s);
        }
    }
    if (ask("") != CoreType::DEFAULT || ask("garbage" + std::to_string(r(10000))) != CoreType::UNRECOGNIZED) {
        bad("coretype-special", "");
    }
    if (!to_string(CoreType::UNRECOGNIZED).empty() || !to_string(static_cast<CoreType>(900 + static_cast<int>(r(1000)))).empty()) {
        bad("coretype-unrecognised-name", "");
    }
    // availability agrees with what this build of the library can create (transports enabled in this build)
    const std::vector<std::pair<CoreType, bool>> av{{CoreType::ZMQ, true}, {CoreType::ZMQ_SS, true}, {CoreType::TCP, true}, {CoreType::TCP_SS, true}, {CoreType::UDP, true},
                                                    {CoreType::INTERPROCESS, true}, {CoreType::IPC, true}, {CoreType::TEST, true}, {CoreType::INPROC, true},
                                                    {CoreType::DEFAULT, true}, {CoreType::EMPTY, true}, {CoreType::MPI, false}, {CoreType::HTTP, false},
                                                    {CoreType::WEBSOCKET, false}, {CoreType::NULLCORE, false}, {CoreType::UNRECOGNIZED, false}};
    for (auto& [t, a] : av) {
        if (isCoreTypeAvailable(t) != a || core::isCoreTypeAvailable(t) != a) {
            bad("coretype-available", std::to_string(static_cast<int>(t)));
        }
    }
    auto inst = CoreFactory::getAvailableCoreTypes();
    for (auto& n : inst) {
        auto t = coreTypeFromString(n);
        if (t == CoreType::UNRECOGNIZED || !isCoreTypeAvailable(t)) {
            bad("coretype-installed-not-available", n);
        }
    }
    // matching of interface types
    for (int k = 0; k < 20; ++k) {
        static const std::vector<std::string> tn{"", "any", "all", "data", "string", "block", "def", "default", "double", "complex", "int", "xyz", "custom", "strin", "anything"};
        auto a = r.pick(tn), b = r.pick(tn);
        auto g = [](const std::string& s) { return s.empty() || s.rfind("def", 0) == 0 || s == "any" || s == "all" || s == "data" || s == "string" || s == "block"; };
        if (core::matchingTypes(a, b) != (a == b || g(a) || g(b)) || core::matchingTypes(a, b) != core::matchingTypes(b, a)) {
            bad("type-match", a + " / " + b);
        }
    }
}

static void net(Rng& r, long idx)
{
    P = "C25";
    // default ports: every transport that uses one has its own, valid port; the others have none
    std::map<int, int> ports;
    const std::vector<int> with{HELICS_CORE_TYPE_TCP, HELICS_CORE_TYPE_TCP_SS, HELICS_CORE_TYPE_ZMQ, HELICS_CORE_TYPE_ZMQ_SS, HELICS_CORE_TYPE_UDP};
    for (int t = -5; t < 120; ++t) {
        int p = getDefaultPort(t);
        vh::stat("ports_checked");
        if (std::find(with.begin(), with.end(), t) != with.end()) {
            if (p < 1024 || p > 65535 || !ports.emplace(p, t).second) {
                bad("default-port", std::to_string(t) + " -> " + std::to_string(p));
            }
        } else if (t == HELICS_CORE_TYPE_HTTP || t == HELICS_CORE_TYPE_WEBSOCKET) {
            if (p != 80) {
                bad("default-port-web", std::to_string(p));
            }
        } else if (p != -1) {
            bad("default-port-unexpected", std::to_string(t) + " -> " + std::to_string(p));
        }
    }
    if (getDefaultPort(HELICS_CORE_TYPE_ZMQ) != 23404 || getDefaultPort(HELICS_CORE_TYPE_ZMQ_SS) != 23414 || getDefaultPort(HELICS_CORE_TYPE_TCP) != 24160 ||
        getDefaultPort(HELICS_CORE_TYPE_UDP) != 23901 || getDefaultPort(HELICS_CORE_TYPE_TCP_SS) != 33133) {
        bad("default-port-documented", "a default port differs from the documented one");
    }
    static const std::pair<const char*, zmq::socket_type> st[] = {
        {"req", zmq::socket_type::req}, {"request", zmq::socket_type::req}, {"rep", zmq::socket_type::rep}, {"reply", zmq::socket_type::rep}, {"dealer", zmq::socket_type::dealer},
        {"router", zmq::socket_type::router}, {"pub", zmq::socket_type::pub}, {"publish", zmq::socket_type::pub}, {"sub", zmq::socket_type::sub},
        {"subscribe", zmq::socket_type::sub}, {"xpub", zmq::socket_type::xpub}, {"xsub", zmq::socket_type::xsub}, {"push", zmq::socket_type::push},
        {"pull", zmq::socket_type::pull}, {"pair", zmq::socket_type::pair}, {"stream", zmq::socket_type::stream}};
    for (auto& [n, t] : st) {
        std::string s = n;
        for (auto& c : s) {
            if (r.chance(50)) {
                c = static_cast<char>(toupper(c));
            }
        }
        vh::stat("names_resolved");
        if (socketTypeFromString(s) != t) {
            bad("zmq-socket-type", s);
        }
        vh::distinct(vh::hashStr(s));
    }
    // shared zmq contexts: one object per name however many threads ask, until it is closed; holders keep theirs usable
    std::string base = "ctx" + std::to_string(idx) + "_";
    constexpr int T = 6;
    std::vector<std::vector<std::shared_ptr<ZmqContextManager>>> got(T);
    std::barrier bar(T);
    std::vector<std::thread> th;
    auto s0 = r.next();
    for (int t = 0; t < T; ++t) {
        th.emplace_back([&, t] {
            Rng q(s0 + static_cast<uint64_t>(t) * 3);
            bar.arrive_and_wait();
            for (int k = 0; k < 4; ++k) {
                auto n = base + std::to_string(k);
                if (q.chance(30)) {
                    ZmqContextManager::startContext(n);
                }
                got[t].push_back(ZmqContextManager::getContextPointer(n));
                if (q.chance(20)) {
                    ZmqContextManager::setContextToNotLeakOnDelete(n);
                }
                if (&ZmqContextManager::getContext(n) != &got[t].back()->getBaseContext()) {
                    bad("zmq-context-mismatch", n);
                }
            }
        });
    }
    for (auto& t : th) {
        t.join();
    }
    for (int k = 0; k < 4; ++k) {
        auto n = base + std::to_string(k);
        for (int t = 1; t < T; ++t) {
            if (got[t][k] != got[0][k]) {
                bad("zmq-context-duplicated", n);
            }
        }
        if (got[0][k]->getName() != n) {
            bad("zmq-context-name", n + " is called " + got[0][k]->getName());
        }
        vh::stat("contexts_compared", T);
        for (int t = 1; t < T; ++t) {
            got[t][k].reset();
        }
        ZmqContextManager::setContextToNotLeakOnDelete(n);
        ZmqContextManager::closeContext(n);
        if (got[0][k].use_count() != 1) {
            bad("zmq-context-close", "closing does not release the registry's reference");
        }
        {
            zmq::socket_t s(got[0][k]->getBaseContext(), zmq::socket_type::pair);
            s.bind("inproc://" + n);
        }
        auto again = ZmqContextManager::getContextPointer(n);
        if (again == got[0][k]) {
            bad("zmq-context-reused", "a closed context is handed out again");
        }
        ZmqContextManager::setContextToNotLeakOnDelete(n);
        again.reset();
        ZmqContextManager::closeContext(n);
    }
}

int main(int argc, char** argv)
{
    auto a = vh::parse(argc, argv);
    return vh::run(argc, argv, [&](Rng& r, long i) {
        if (a.profile == "ids") {
            ids(r, i);
        } else if (a.profile == "types") {
            types(r, i);
        } else {
            net(r, i);
        }
    });
}
