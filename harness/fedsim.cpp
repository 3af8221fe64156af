// Random federations run on the real library (threads, in-process brokers); every federate records what it did and saw,
// and an offline oracle checks the recorded history against the documented timing/delivery contract.
#include "vh.hpp"

#include "helics/ValueFederates.hpp"
#include "helics/MessageFederates.hpp"
#include "helics/application_api/BrokerApp.hpp"
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/CoreApp.hpp"
#include "helics/application_api/queryFunctions.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/helicsVersion.hpp"
#include "helics/core/helics_definitions.hpp"
#include "helics/core/helicsCLI11.hpp"
#include "helics/network/loadCores.hpp"

#include <algorithm>
#include <climits>
#include <cmath>
#include <complex>
#include <memory>
#include <optional>
#include <sstream>
#include <unistd.h>

using namespace helics;
using vh::Rng;
using ll = long long;
static const ll MAXT = Time::maxVal().getBaseTimeCode();
static ll ns(Time t) { return t.getBaseTimeCode(); }
static Time mk(ll t)
{
    Time r;
    r.setBaseTimeCode(t);
    return r;
}
static std::string ts(ll t)
{
    if (t >= MAXT) {
        return "MAX";
    }
    char b[48];
    snprintf(b, sizeof b, "%.9f", static_cast<double>(t) * 1e-9);
    return b;
}

enum VType { VD = 0, VS, VI, VV, VC, VNP, VCV, VTYPES };
static const char* vtName[] = {"double", "string", "int", "vector", "complex", "named_point", "complex_vector"};

struct PubSpec {
    int fed;
    std::string name;  // full name
    std::string local;
    bool global;
    VType type;
};
struct Link {
    int pub;
    int how;  // 0 input adds target, 1 pub adds target, 2 core link, 3 broker link
};
struct InSpec {
    int fed;
    std::string name, local;
    bool global;
    std::vector<Link> src;
};
struct EpSpec {
    int fed;
    std::string name, local;
    bool global;
    bool targeted;
    std::vector<int> targets;
    int defDest{-1};
};
struct FedSpec {
    std::string name;
    int core;
    ll period{0}, offset{0}, delta{0}, inD{0}, outD{0};
    bool unint{false}, wait{false};
    ll stop;
    int maxGrants;
    ll stepBase;
    int pubPct, sendPct, asyncPct, nextPct, maxPct, skipPct;
    uint64_t seed;
    bool drainLazy{false};
};
struct Spec {
    int nBrokers, nCores;
    std::vector<int> coreBroker;
    std::vector<FedSpec> feds;
    std::vector<PubSpec> pubs;
    std::vector<InSpec> ins;
    std::vector<EpSpec> eps;
    bool initPub;
    bool restrictive{false};
    bool filters{false};
    CoreType type;
    std::string txt() const
    {
        std::ostringstream o;
        o << "brokers=" << nBrokers << " cores=" << nCores << " feds=[";
        for (auto& f : feds) {
            o << f.name << "{core" << f.core << " p=" << ts(f.period) << " o=" << ts(f.offset) << " d=" << ts(f.delta) << " in=" << ts(f.inD)
              << " out=" << ts(f.outD) << (f.unint ? " unint" : "") << (f.wait ? " wait" : "") << " stop=" << ts(f.stop) << "} ";
        }
        o << "] pubs=" << pubs.size() << " ins=[";
        for (auto& i : ins) {
            o << i.name << "<-";
            for (auto& l : i.src) {
                o << pubs[l.pub].name << "(" << l.how << ") ";
            }
        }
        o << "] eps=[";
        for (auto& e : eps) {
            o << e.name << (e.targeted ? "T" : "") << " ";
        }
        o << "]";
        return o.str();
    }
};

struct PubEv {
    int pub;
    int seq;
    ll t;
};
struct SendEv {
    int ep;
    int dest;
    std::string data;
    ll t;
    int seq;
};
struct InObs {
    int in;
    bool upd;
    bool read;
    int pub{-1};
    int seq{-1};
    std::string bad;
    ll lastUpdate;
};
struct MsgObs {
    int ep;
    std::string data, src, osrc, dest, odest;
    ll t;
};
struct Grant {
    ll prev;
    ll req;
    ll g;
    bool async{false};
    ll pendingBefore{0};
    std::vector<InObs> in;
    std::vector<MsgObs> msg;
    std::vector<PubEv> pubs;
    std::vector<SendEv> sends;
    ll curT{0};
};
struct FedLog {
    std::vector<Grant> g;
    std::string fail;
    bool done{false};
    std::string st;
};

static std::string pad(uint64_t h, int mx)
{
    Rng r(h);
    std::string s;
    int n = static_cast<int>(r(mx));
    for (int i = 0; i < n; ++i) {
        s.push_back(static_cast<char>(32 + r(95)));
    }
    return s;
}
static std::string strVal(int pub, int seq)
{
    return "s" + std::to_string(pub) + ":" + std::to_string(seq) + ":" + pad(pub * 7919 + seq, (seq % 7 == 3) ? 600 : 30);
}
static double dblVal(int pub, int seq) { return pub * 100000.0 + seq + 0.25; }
static std::vector<double> vecVal(int pub, int seq)
{
    std::vector<double> v{dblVal(pub, seq)};
    for (int i = 0; i < seq % 9; ++i) {
        v.push_back(i * 1.5 - seq);
    }
    return v;
}
static std::vector<std::complex<double>> cvecVal(int pub, int seq)
{
    std::vector<std::complex<double>> v{{dblVal(pub, seq), -1.0}};
    for (int i = 0; i < seq % 5; ++i) {
        v.emplace_back(i * 1.5 - seq, 2.0 * i);
    }
    return v;
}
static void publishVal(Publication& p, VType t, int pub, int seq)
{
    switch (t) {
        case VD: p.publish(dblVal(pub, seq)); break;
        case VS: p.publish(strVal(pub, seq)); break;
        case VI: p.publish(static_cast<int64_t>(pub) * 1000000 + seq); break;
        case VV: p.publish(vecVal(pub, seq)); break;
        case VC: p.publish(std::complex<double>(dblVal(pub, seq), -seq)); break;
        case VNP: p.publish(NamedPoint("n" + std::to_string(seq), dblVal(pub, seq))); break;
        case VCV: p.publish(cvecVal(pub, seq)); break;
        default: break;
    }
}
static bool decodeD(double v, int& pub, int& seq)
{
    if (!(v >= 0.0) || v > 1e9) {
        return false;
    }
    double q = v - 0.25;
    if (q != std::floor(q) || q < 0) {
        return false;
    }
    auto i = static_cast<ll>(q);
    pub = static_cast<int>(i / 100000);
    seq = static_cast<int>(i % 100000);
    return true;
}
// reads the input as type t; returns "" or a description of an unintelligible value
static std::string readVal(Input& in, VType t, int& pub, int& seq)
{
    std::ostringstream o;
    switch (t) {
        case VD: {
            double v = in.getValue<double>();
            if (!decodeD(v, pub, seq)) {
                o << "double " << v;
                return o.str();
            }
            break;
        }
        case VI: {
            auto v = in.getValue<int64_t>();
            if (v < 0) {
                return "int " + std::to_string(v);
            }
            pub = static_cast<int>(v / 1000000);
            seq = static_cast<int>(v % 1000000);
            break;
        }
        case VS: {
            auto v = in.getValue<std::string>();
            if (sscanf(v.c_str(), "s%d:%d:", &pub, &seq) != 2) {
                return "string '" + v + "'";
            }
            if (v != strVal(pub, seq)) {
                return "altered string '" + v + "' expected '" + strVal(pub, seq) + "'";
            }
            break;
        }
        case VV: {
            auto v = in.getValue<std::vector<double>>();
            if (v.empty() || !decodeD(v[0], pub, seq)) {
                return "vector size " + std::to_string(v.size());
            }
            if (v != vecVal(pub, seq)) {
                return "altered vector";
            }
            break;
        }
        case VC: {
            auto v = in.getValue<std::complex<double>>();
            if (!decodeD(v.real(), pub, seq) || v.imag() != -seq) {
                o << "complex " << v;
                return o.str();
            }
            break;
        }
        case VNP: {
            auto v = in.getValue<NamedPoint>();
            if (!decodeD(v.value, pub, seq) || v.name != "n" + std::to_string(seq)) {
                return "named point " + v.name;
            }
            break;
        }
        case VCV: {
            auto v = in.getValue<std::vector<std::complex<double>>>();
            if (v.empty() || !decodeD(v[0].real(), pub, seq) || v != cvecVal(pub, seq)) {
                return "complex vector";
            }
            break;
        }
        default: break;
    }
    return {};
}

static int g_try{0};
static std::string prefix(long idx)
{
    // some transports use names that are visible to other processes
    return (vh::st().a.get("net", 0) ? "n" + std::to_string(getpid()) : std::string("c")) + (g_try > 0 ? "r" + std::to_string(g_try) : std::string()) + "_" + std::to_string(idx) + "_";
}
static Spec makeSpec(Rng& r, long idx, const std::string& prof, bool thorough)
{
    Spec s;
    const bool timing = prof == "timing", values = prof == "value", msgs = prof == "message";
    s.nBrokers = r.chance(35) ? static_cast<int>(r.range(1, 2)) : 0;
    s.nCores = static_cast<int>(r.range(std::max(1, s.nBrokers), 3));
    s.type = r.chance(60) ? CoreType::TEST : CoreType::INPROC;
    if (const long nt = vh::st().a.get("net", 0); nt != 0) {
        // real sockets (the run has a loopback network of its own); one transport per case
        static const CoreType N[] = {CoreType::ZMQ, CoreType::TCP, CoreType::UDP, CoreType::ZMQ_SS, CoreType::IPC, CoreType::TCP_SS, CoreType::INTERPROCESS};
        s.type = nt > 10 ? N[(nt - 11) % 7] : N[idx % 4];
        s.nBrokers = 0;
    }
    const std::string pre = prefix(idx);
    for (int i = 0; i < s.nCores; ++i) {
        // a broker nobody connects through would keep the federation from starting: the first cores cover them all
        s.coreBroker.push_back(i < s.nBrokers ? i : static_cast<int>(r(s.nBrokers + 1)) - 1);
    }
    int nf = static_cast<int>(r.range(std::max(2, s.nCores), thorough ? 6 : 5));
    static const ll P[] = {0, 0, 0, 1000000000, 500000000, 300000000, 250000000, 7, 1500000000};
    static const ll O[] = {0, 0, 0, 100000000, 250000000, 1100000000};
    static const ll D[] = {0, 0, 0, 200000000, 700000000, 1000000000};
    int waiter = -1;
    const ll stop = r.range(2, 6) * 1000000000LL;
    for (int i = 0; i < nf; ++i) {
        FedSpec f;
        f.name = pre + "f" + std::to_string(i);
        f.core = (i < s.nCores) ? i : static_cast<int>(r(s.nCores));
        f.period = P[r(r.chance(60) ? 9 : 3)];
        f.offset = O[r(r.chance(40) ? 6 : 3)];
        f.delta = D[r(r.chance(40) ? 6 : 3)];
        f.outD = r.chance(15) ? r.pick({100000000LL, 333000000LL, 1000000000LL}) : 0;
        f.inD = r.chance(8) ? r.pick({100000000LL, 250000000LL}) : 0;
        f.unint = r.chance(25);
        if (waiter < 0 && r.chance(10)) {
            f.wait = true;
            waiter = i;
        }
        f.stop = r.chance(70) ? stop : r.range(1, 6) * 1000000000LL;
        f.maxGrants = thorough ? 60 : 30;
        f.stepBase = r.pick({100000000LL, 250000000LL, 300000000LL, 1000000000LL});
        f.pubPct = static_cast<int>(r.range(20, 90));
        f.sendPct = static_cast<int>(r.range(10, 80));
        f.asyncPct = r.chance(30) ? 50 : 5;
        f.nextPct = r.chance(30) ? 30 : 5;
        f.maxPct = r.chance(25) ? 25 : 3;
        f.skipPct = r.chance(40) ? 40 : 0;
        f.drainLazy = msgs && r.chance(30);
        f.seed = r.next();
        s.feds.push_back(f);
    }
    // when a federate is finished with no period it could be interrupted every ns: bounded by maxGrants
    int np = msgs ? static_cast<int>(r(3)) : static_cast<int>(r.range(1, values ? 8 : 5));
    for (int i = 0; i < np; ++i) {
        PubSpec p;
        p.fed = static_cast<int>(r(nf));
        p.global = r.chance(60);
        p.local = pre + "p" + std::to_string(i);
        p.name = p.global ? p.local : s.feds[p.fed].name + "/" + p.local;
        p.type = static_cast<VType>(r(r.chance(50) ? 2 : VTYPES));
        s.pubs.push_back(p);
    }
    int ni = (np == 0) ? 0 : static_cast<int>(r.range(1, values ? 10 : 6));
    for (int i = 0; i < ni; ++i) {
        InSpec in;
        in.fed = static_cast<int>(r(nf));
        in.global = r.chance(50);
        in.local = pre + "i" + std::to_string(i);
        in.name = in.global ? in.local : s.feds[in.fed].name + "/" + in.local;
        int first = static_cast<int>(r(np));
        in.src.push_back({first, static_cast<int>(r(4))});
        if (r.chance(25)) {
            for (int k = 0; k < np; ++k) {
                if (k != first && s.pubs[k].type == s.pubs[first].type && r.chance(60)) {
                    in.src.push_back({k, static_cast<int>(r(4))});
                }
            }
        }
        if (in.src.size() == 1 && r.chance(20)) {
            in.src[0].how = 4;  // plain subscription with no name
            in.local.clear();
            in.name = "(sub)";
        }
        s.ins.push_back(in);
    }
    int ne = values ? static_cast<int>(r(2)) * 2 : static_cast<int>(r.range(msgs ? 2 : 0, msgs ? 7 : 4));
    for (int i = 0; i < ne; ++i) {
        EpSpec e;
        e.fed = static_cast<int>(r(nf));
        e.global = r.chance(50);
        e.local = pre + "e" + std::to_string(i);
        e.name = e.global ? e.local : s.feds[e.fed].name + "/" + e.local;
        e.targeted = r.chance(35);
        s.eps.push_back(e);
    }
    for (int i = 0; i < ne; ++i) {
        if (s.eps[i].targeted) {
            for (int k = 0; k < ne; ++k) {
                if (s.eps[k].targeted && r.chance(50)) {
                    s.eps[i].targets.push_back(k);
                }
            }
        } else if (r.chance(60)) {
            std::vector<int> fr;
            for (int k = 0; k < ne; ++k) {
                if (!s.eps[k].targeted) {
                    fr.push_back(k);
                }
            }
            s.eps[i].defDest = fr[r(fr.size())];
        }
    }
    s.initPub = r.chance(50);
    s.restrictive = vh::st().a.get("restrict", 0) != 0;
    // features can be switched off to narrow a finding down (--feat MASK)
    const long m = vh::st().a.get("feat", -1);
    for (auto& f : s.feds) {
        if (!(m & 1)) { f.period = f.offset = f.delta = 0; }
        if (!(m & 2)) { f.outD = 0; }
        if (!(m & 4)) { f.inD = 0; }
        if (!(m & 8)) { f.unint = false; }
        if (!(m & 16)) { f.wait = false; }
        if (!(m & 64)) { f.maxPct = 0; }
        if (!(m & 1024)) { f.drainLazy = false; }
        if (!(m & 4096)) { f.skipPct = 0; }
        if (!(m & 8192)) { f.asyncPct = 0; }
        if (!(m & 16384)) { f.nextPct = 0; }
    }
    if (!(m & 32)) { s.nBrokers = 0; for (auto& b : s.coreBroker) { b = -1; } }
    if (!(m & 128)) { s.eps.clear(); }
    for (auto& i : s.ins) {
        if (!(m & 512)) { i.src.resize(1); }
        if (!(m & 256) && i.src[0].how != 4) { for (auto& l : i.src) { l.how = 0; } }
    }
    if (!(m & 2048)) { s.initPub = false; }
    const bool allTargeted = r.chance(50);
    if (vh::st().a.get("wild", 0) == 0 && std::any_of(s.eps.begin(), s.eps.end(), [](const EpSpec& e) { return !e.targeted; })) {
        if (allTargeted) {
            for (size_t i = 0; i < s.eps.size(); ++i) {
                auto& e = s.eps[i];
                if (!e.targeted) {
                    e.targeted = true;
                    e.targets.assign(1, static_cast<int>((i * 7 + 1) % s.eps.size()));
                }
            }
        } else {
            for (auto& f : s.feds) {
                f.unint = true;
                f.maxPct = f.nextPct = 0;
            }
            s.nBrokers = 0;
            for (auto& b : s.coreBroker) {
                b = -1;
            }
        }
        for (auto& f : s.feds) {
            f.maxPct = f.nextPct = 0;
        }
    }
    if (vh::st().a.get("wild", 0) == 0) {
        // only one federate at a time waits for events alone
        int waiter = static_cast<int>(r(s.feds.size()));
        for (size_t i = 0; i < s.feds.size(); ++i) {
            if (static_cast<int>(i) != waiter) {
                s.feds[i].maxPct = 0;
            }
        }
        for (auto& e : s.eps) {
            e.targets.erase(std::remove_if(e.targets.begin(), e.targets.end(), [&](int t) { return s.eps[t].fed == e.fed; }), e.targets.end());
        }
    }
    if (vh::st().a.get("wild", 0) == 0) {
        // every federate has a step of its own, so that no chain of interruptions one nanosecond apart arises, and none talks to itself
        for (auto& f : s.feds) {
            if (f.period < 100000000LL && f.delta < 100000000LL) {
                switch (r(3)) {
                    case 0: f.period = r.pick({250000000LL, 300000000LL, 1000000000LL}); break;
                    case 1: f.period = 0; f.offset = 0; f.delta = r.pick({200000000LL, 700000000LL, 1000000000LL}); break;
                    default: f.unint = true; break;
                }
            }
        }
        for (auto& i : s.ins) {
            for (size_t k = 0; k < i.src.size(); ++k) {
                if (s.pubs[i.src[k].pub].fed == i.fed) {
                    i.src[k].how = i.src[0].how;
                    s.pubs[i.src[k].pub].fed = (i.fed + 1) % static_cast<int>(s.feds.size());
                    auto& p = s.pubs[i.src[k].pub];
                    p.name = p.global ? p.local : s.feds[p.fed].name + "/" + p.local;
                }
            }
        }
        for (auto& i : s.ins) {
            i.src.erase(std::remove_if(i.src.begin(), i.src.end(), [&](const Link& l) { return s.pubs[l.pub].fed == i.fed; }), i.src.end());
        }
        s.ins.erase(std::remove_if(s.ins.begin(), s.ins.end(), [](const InSpec& i) { return i.src.empty(); }), s.ins.end());
        // the default time policy looks one interruption ahead (restrictive_time_policy is documented as the answer to longer
        // chains), so a federate that may be interrupted by an interruptible one is itself interruptible only if nobody further on
        // depends on it
        const int n = static_cast<int>(s.feds.size());
        std::vector<std::set<int>> out(n), in(n);
        auto edge = [&](int a, int b) {
            if (a != b) {
                out[a].insert(b);
                in[b].insert(a);
            }
        };
        for (auto& i : s.ins) {
            for (auto& l : i.src) {
                edge(s.pubs[l.pub].fed, i.fed);
            }
        }
        for (auto& e : s.eps) {
            for (auto t : e.targets) {
                edge(e.fed, s.eps[t].fed);
            }
        }
        for (int c = 0; c < n; ++c) {
            bool deep = false;
            for (int b : in[c]) {
                if (!s.feds[b].unint && !in[b].empty()) {
                    for (int d : out[c]) {
                        deep |= (d != b);
                    }
                    deep |= in[b].size() > (in[b].count(c) ? 1U : 0U) && !out[c].empty();
                }
            }
            if (deep) {
                s.feds[c].unint = true;
            }
        }
    }
    return s;
}

static void jitter(Rng& r)
{
    if (r.chance(12)) {
        std::this_thread::sleep_for(std::chrono::microseconds(r(400)));
    } else if (r.chance(10)) {
        std::this_thread::yield();
    }
}

static std::vector<FedLog>* g_logs = nullptr;
static std::string g_spec;
static std::shared_ptr<Broker> g_root;

static void runFed(const Spec& s, int me, std::shared_ptr<Core> core, std::shared_ptr<Broker> root, FedLog& L)
{
    const FedSpec& f = s.feds[me];
    Rng r(f.seed);
    Rng jr(f.seed ^ 0x5555 ^ static_cast<uint64_t>(vh::nowMs()));  // schedule noise only; never affects the specification
    try {
        FederateInfo fi;
        fi.coreName = core->getIdentifier();
        CombinationFederate fed(f.name, core, fi);
        auto set = [&](int prop, ll v) {
            if (v > 0) {
                fed.setProperty(prop, mk(v));
            }
        };
        set(HELICS_PROPERTY_TIME_PERIOD, f.period);
        set(HELICS_PROPERTY_TIME_OFFSET, f.offset);
        set(HELICS_PROPERTY_TIME_DELTA, f.delta);
        set(HELICS_PROPERTY_TIME_OUTPUT_DELAY, f.outD);
        set(HELICS_PROPERTY_TIME_INPUT_DELAY, f.inD);
        if (s.restrictive) {
            fed.setFlagOption(HELICS_FLAG_RESTRICTIVE_TIME_POLICY, true);
        }
        if (f.unint) {
            fed.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE, true);
        }
        if (f.wait) {
            fed.setFlagOption(HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE, true);
        }
        fed.setFlagOption(HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS, true);
        std::vector<Publication*> pubs(s.pubs.size(), nullptr);
        std::vector<Input*> ins(s.ins.size(), nullptr);
        std::vector<Endpoint*> eps(s.eps.size(), nullptr);
        std::vector<int> free_;  // targeted endpoints only take part in their configured links
        for (size_t i = 0; i < s.eps.size(); ++i) {
            if (!s.eps[i].targeted) {
                free_.push_back(static_cast<int>(i));
            }
        }
        std::vector<int> seq(s.pubs.size(), 0), mseq(s.eps.size(), 0);
        L.st = "register";
        for (size_t i = 0; i < s.pubs.size(); ++i) {
            if (s.pubs[i].fed == me) {
                pubs[i] = s.pubs[i].global ? &fed.registerGlobalPublication(s.pubs[i].local, vtName[s.pubs[i].type]) :
                                             &fed.registerPublication(s.pubs[i].local, vtName[s.pubs[i].type]);
            }
        }
        for (size_t i = 0; i < s.ins.size(); ++i) {
            if (s.ins[i].fed == me) {
                if (s.ins[i].src[0].how == 4) {
                    ins[i] = &fed.registerSubscription(s.pubs[s.ins[i].src[0].pub].name);
                } else {
                    const std::string ty = (me % 2) ? "" : vtName[s.pubs[s.ins[i].src[0].pub].type];
                    ins[i] = s.ins[i].global ? &fed.registerGlobalInput(s.ins[i].local, ty) : &fed.registerInput(s.ins[i].local, ty);
                }
            }
        }
        for (size_t i = 0; i < s.eps.size(); ++i) {
            if (s.eps[i].fed == me) {
                const auto& e = s.eps[i];
                if (e.targeted) {
                    eps[i] = e.global ? &fed.registerGlobalTargetedEndpoint(e.local) : &fed.registerTargetedEndpoint(e.local);
                } else {
                    eps[i] = e.global ? &fed.registerGlobalEndpoint(e.local) : &fed.registerEndpoint(e.local);
                    if (e.defDest >= 0) {
                        eps[i]->setDefaultDestination(s.eps[e.defDest].name);
                    }
                }
            }
        }
        jitter(jr);
        for (size_t i = 0; i < s.ins.size(); ++i) {
            for (auto& l : s.ins[i].src) {
                const auto& p = s.pubs[l.pub];
                if (l.how == 0 && s.ins[i].fed == me) {
                    ins[i]->addTarget(p.name);
                } else if (l.how == 1 && p.fed == me) {
                    pubs[l.pub]->addTarget(s.ins[i].name);
                } else if (l.how == 2 && s.ins[i].fed == me) {
                    core->dataLink(p.name, s.ins[i].name);
                } else if (l.how == 3 && s.ins[i].fed == me) {
                    root->dataLink(p.name, s.ins[i].name);
                }
            }
        }
        for (size_t i = 0; i < s.eps.size(); ++i) {
            if (s.eps[i].fed == me) {
                for (auto t : s.eps[i].targets) {
                    eps[i]->addDestinationTarget(s.eps[t].name);
                }
            }
        }
        L.st = "init";
        fed.enterInitializingMode();
        Grant cur;
        cur.prev = -1;
        cur.req = 0;
        if (s.initPub) {
            Grant ig;
            ig.g = -1;
            ig.prev = -2;
            ig.req = -1;
            for (size_t i = 0; i < s.pubs.size(); ++i) {
                if (pubs[i] && r.chance(60)) {
                    publishVal(*pubs[i], s.pubs[i].type, static_cast<int>(i), seq[i]);
                    ig.pubs.push_back({static_cast<int>(i), seq[i]++, -1});
                }
            }
            L.g.push_back(ig);
        }
        jitter(jr);
        L.st = "exec";
        fed.enterExecutingMode();
        cur.g = 0;
        bool last = false;
        for (int k = 0; k <= f.maxGrants; ++k) {
            vh::progress();
            cur.curT = ns(fed.getCurrentTime());
            // observe
            for (size_t i = 0; i < s.ins.size(); ++i) {
                if (!ins[i]) {
                    continue;
                }
                InObs ob;
                ob.in = static_cast<int>(i);
                ob.upd = ins[i]->isUpdated();
                ob.lastUpdate = ns(ins[i]->getLastUpdate());
                ob.read = !r.chance(f.skipPct);
                if (ob.read) {
                    // an input that never got data returns a default, which the oracle accepts only then
                    ob.bad = readVal(*ins[i], s.pubs[s.ins[i].src[0].pub].type, ob.pub, ob.seq);
                    if (!ob.bad.empty()) {
                        ob.pub = -1;
                    }
                }
                cur.in.push_back(ob);
            }
            for (size_t i = 0; i < s.eps.size(); ++i) {
                if (!eps[i]) {
                    continue;
                }
                int budget = (f.drainLazy && r.chance(40)) ? static_cast<int>(r(3)) : INT_MAX;
                auto pend = eps[i]->pendingMessageCount();
                uint64_t got = 0;
                while (budget-- > 0) {
                    bool has = eps[i]->hasMessage();
                    auto m = eps[i]->getMessage();
                    if (has != static_cast<bool>(m)) {
                        vh::viol("C04", "hasMessage-getMessage-disagree", s.eps[i].name + " spec " + g_spec);
                    }
                    if (!m) {
                        break;
                    }
                    ++got;
                    cur.msg.push_back({static_cast<int>(i), std::string(m->data.to_string()), m->source, m->original_source, m->dest,
                                       m->original_dest, ns(m->time)});
                }
                if (budget > 1000000 && got != pend) {
                    vh::viol("C04", "pendingCount-mismatch",
                             s.eps[i].name + " pending=" + std::to_string(pend) + " got=" + std::to_string(got) + " spec " + g_spec);
                }
            }
            if (cur.g >= MAXT || last) {
                L.g.push_back(cur);
                break;
            }
            jitter(jr);
            const ll sendT = cur.g + f.outD;
            for (size_t i = 0; i < s.pubs.size(); ++i) {
                if (pubs[i] && r.chance(f.pubPct)) {
                    int n = r.chance(15) ? 2 : 1;
                    for (int q = 0; q < n; ++q) {
                        publishVal(*pubs[i], s.pubs[i].type, static_cast<int>(i), seq[i]);
                        cur.pubs.push_back({static_cast<int>(i), seq[i]++, sendT});
                        jitter(jr);
                    }
                }
            }
            for (size_t i = 0; i < s.eps.size(); ++i) {
                if (!eps[i]) {
                    continue;
                }
                int n = r.chance(f.sendPct) ? static_cast<int>(r.range(1, 3)) : 0;
                for (int q = 0; q < n; ++q) {
                    std::string data = "m" + std::to_string(i) + ":" + std::to_string(mseq[i]) + ":" + pad(i * 104729 + mseq[i], (mseq[i] % 9 == 4) ? 900 : 40);
                    const int how = static_cast<int>(r(4));
                    ll when = sendT;
                    if (how == 1 || how == 3) {
                        ll want = cur.g + r.range(-2, 12) * 100000000LL;
                        when = std::max(want, sendT);
                        if (s.eps[i].targeted) {
                            eps[i]->sendAt(data, mk(want));
                        } else {
                            int d = free_[r(free_.size())];
                            if (how == 1) {
                                eps[i]->sendToAt(data, s.eps[d].name, mk(want));
                            } else {
                                Message m;
                                m.data = data;
                                m.dest = s.eps[d].name;
                                m.source = s.eps[i].name;
                                m.original_source = m.source;
                                m.original_dest = m.dest;
                                m.time = mk(want);
                                eps[i]->send(m);
                            }
                            cur.sends.push_back({static_cast<int>(i), d, data, when, mseq[i]});
                        }
                    } else {
                        if (s.eps[i].targeted) {
                            eps[i]->send(data);
                        } else {
                            int d = free_[r(free_.size())];
                            if (s.eps[i].defDest < 0 || r.chance(50)) {
                                eps[i]->sendTo(data, s.eps[d].name);
                            } else {
                                d = s.eps[i].defDest;
                                eps[i]->send(data);
                            }
                            cur.sends.push_back({static_cast<int>(i), d, data, when, mseq[i]});
                        }
                    }
                    if (s.eps[i].targeted) {
                        for (auto d : s.eps[i].targets) {
                            cur.sends.push_back({static_cast<int>(i), d, data, when, mseq[i]});
                        }
                    }
                    ++mseq[i];
                }
            }
            L.g.push_back(cur);
            Grant nx;
            nx.prev = cur.g;
            if (cur.g >= f.stop) {
                break;
            }
            const int kind = static_cast<int>(r(100));
            if (kind < f.maxPct) {
                nx.req = MAXT;
            } else if (kind < f.maxPct + f.nextPct) {
                nx.req = 0;
            } else if (kind < f.maxPct + f.nextPct + 5) {
                nx.req = std::max(0LL, cur.g - 50000000LL);
            } else {
                nx.req = cur.g + f.stepBase * r.range(1, 4) + (r.chance(20) ? r.range(0, 99) * 1000000LL : 0);
            }
            jitter(jr);
            L.st = "request " + ts(nx.req) + " at " + ts(cur.g);
            if (r.chance(f.asyncPct)) {
                nx.async = true;
                fed.requestTimeAsync(mk(nx.req));
                jitter(jr);
                if (r.chance(50)) {
                    for (int q = 0; q < 3 && !fed.isAsyncOperationCompleted(); ++q) {
                        std::this_thread::yield();
                    }
                }
                nx.g = ns(fed.requestTimeComplete());
            } else if (nx.req == 0 && r.chance(50)) {
                nx.g = ns(fed.requestNextStep());
            } else if (nx.req > cur.g && nx.req < MAXT && r.chance(30)) {
                nx.g = ns(fed.requestTimeAdvance(mk(nx.req - cur.g)));
            } else {
                nx.g = ns(fed.requestTime(mk(nx.req)));
            }
            L.st = "granted " + ts(nx.g);
            cur = nx;
            last = (k == f.maxGrants - 1);
        }
        jitter(jr);
        L.st = "finalize";
        fed.finalize();
        L.st = "done";
        L.done = true;
    }
    catch (const std::exception& e) {
        L.fail = std::string(e.what()) + " in " + L.st;
    }
}

// ---------------- oracle ----------------
static ll gridUp(const FedSpec& f, ll t)
{
    if (f.period <= 1 || t >= MAXT) {
        return t;
    }
    if (t <= f.offset) {
        return f.offset;
    }
    ll k = (t - f.offset + f.period - 1) / f.period;
    return f.offset + k * f.period;
}
static void oracle(const Spec& s, std::vector<FedLog>& logs, const std::string& info)
{
    // per publication events, in order
    std::vector<std::vector<PubEv>> pe(s.pubs.size());
    for (auto& l : logs) {
        for (auto& g : l.g) {
            for (auto& p : g.pubs) {
                pe[p.pub].push_back(p);
            }
        }
    }
    ll nGrant = 0, nInt = 0, nVal = 0, nMsg = 0, nPub = 0, nSend = 0, nMaxReq = 0;
    for (auto& v : pe) {
        nPub += static_cast<ll>(v.size());
    }
    // messages by destination endpoint
    struct Snd {
        SendEv e;
        int order;
        ll seenAt{-1};
        int grantIdx{-1};
    };
    std::vector<std::vector<Snd>> toEp(s.eps.size());
    int ord = 0;
    for (auto& l : logs) {
        for (auto& g : l.g) {
            for (auto& m : g.sends) {
                toEp[m.dest].push_back({m, ord++});
                ++nSend;
            }
        }
    }
    for (size_t fi = 0; fi < s.feds.size(); ++fi) {
        const auto& f = s.feds[fi];
        auto& L = logs[fi];
        const std::string who = f.name + " ";
        // per input, per source: count of publications certainly seen / possibly seen
        struct IS {
            std::vector<size_t> lo, hi;
            bool pendLo{false}, pendHi{false};
            int lastPub{-1}, lastSeq{-1};
            std::vector<int> maxSeqSeen;
        };
        std::vector<IS> is(s.ins.size());
        for (size_t i = 0; i < s.ins.size(); ++i) {
            is[i].lo.assign(s.ins[i].src.size(), 0);
            is[i].hi.assign(s.ins[i].src.size(), 0);
            is[i].maxSeqSeen.assign(s.ins[i].src.size(), -1);
        }
        ll prev = -1;
        for (size_t gi = 0; gi < L.g.size(); ++gi) {
            auto& G = L.g[gi];
            if (G.g < 0) {
                continue;
            }
            const bool entry = (prev < 0);
            std::ostringstream w;
            w << who << "grant#" << gi << " prev=" << ts(G.prev) << " req=" << ts(G.req) << " granted=" << ts(G.g) << (G.async ? " async" : "");
            const std::string at = w.str() + " | " + info;
            ll R = G.req, g = G.g;
            ++nGrant;
            if (G.curT != g) {
                vh::viol("C01", "current-time-not-granted-time", at + " getCurrentTime=" + ts(G.curT));
            }
            bool interrupted = false;
            if (entry) {
                if (g != 0) {
                    vh::viol("C01", "exec-entry-time", at);
                }
            } else {
                if (R >= MAXT) {
                    ++nMaxReq;
                }
                // ---- timing rules
                if (g < prev) {
                    vh::viol("C01", "time-went-backwards", at);
                } else if (g == prev && g < MAXT) {
                    vh::viol("C01", "time-not-advanced", at);
                }
                if (g < MAXT) {
                    if (f.period > 1 && (g < f.offset || (g - f.offset) % f.period != 0)) {
                        vh::viol("C01", "off-period-grid", at);
                    }
                    // the first grant of an offset federate is the offset itself
                    if (g - prev < f.delta && !(prev == 0 && g == f.offset)) {
                        vh::viol("C01", "closer-than-time-delta", at);
                    }
                    if (prev == 0 && f.offset > 0 && f.period > 1 && g < f.offset) {
                        vh::viol("C01", "before-offset", at);
                    }
                }
                // earliest time a next grant is possible
                ll np;
                ll step = std::max({f.delta, f.period, 1LL});
                if (prev == 0 && f.offset > std::max(f.delta, 1LL)) {
                    np = f.offset;
                } else if (prev == 0 && f.offset > 0) {
                    np = (f.period > 1) ? std::max(f.offset, f.delta) : std::max(f.delta, 1LL);
                } else {
                    np = prev + step;
                }
                np = gridUp(f, np);
                const ll Rr = (R >= MAXT) ? MAXT : gridUp(f, std::max(R, np));
                ll uLo = MAXT, uHi = MAXT;
                bool matchEv = false;
                auto ev = [&](ll t, bool certain) {
                    ll e = std::max(t, np);
                    if (e < MAXT) {
                        e += f.inD;
                    }
                    e = gridUp(f, e);
                    uLo = std::min(uLo, e);
                    if (certain) {
                        uHi = std::min(uHi, e);
                    }
                    if (e == g) {
                        matchEv = true;
                    }
                };
                for (size_t i = 0; i < s.ins.size(); ++i) {
                    if (s.ins[i].fed != static_cast<int>(fi)) {
                        continue;
                    }
                    for (size_t k = 0; k < s.ins[i].src.size(); ++k) {
                        auto& v = pe[s.ins[i].src[k].pub];
                        if (is[i].lo[k] < v.size()) {
                            for (size_t q = is[i].lo[k]; q < v.size(); ++q) {
                                ev(v[q].t, q >= is[i].hi[k]);
                                if (q >= is[i].hi[k]) {
                                    break;
                                }
                            }
                        }
                    }
                }
                for (size_t e = 0; e < s.eps.size(); ++e) {
                    if (s.eps[e].fed != static_cast<int>(fi)) {
                        continue;
                    }
                    for (auto& m : toEp[e]) {
                        if (m.grantIdx < 0) {
                            ev(m.e.t, !(f.drainLazy && m.e.t <= prev));
                        }
                    }
                }
                if (g < MAXT) {
                    interrupted = g < R;
                    if (f.unint) {
                        if (g != Rr) {
                            vh::viol("C01", "uninterruptible-not-at-request", at + " expected " + ts(Rr));
                        }
                    } else {
                        if (g > Rr) {
                            vh::viol("C01", "granted-past-request", at + " limit " + ts(Rr));
                        }
                        if (g < Rr) {
                            ++nInt;
                            if (!matchEv && f.inD == 0) {
                                vh::viol("C01", "early-grant-without-update", at + " earliest event " + ts(uLo));
                            }
                        }
                        if (uHi < MAXT && g > std::min(uHi, Rr)) {
                            vh::viol("C01", "not-interrupted-by-update", at + " event due " + ts(uHi));
                            vh::viol("C02", "update-missed", at + " event due " + ts(uHi));
                        }
                        if (g < std::min(uLo, Rr) && f.inD == 0) {
                            vh::viol("C01", "granted-before-any-cause", at + " earliest " + ts(std::min(uLo, Rr)));
                        }
                    }
                } else {
                    if (R < MAXT && f.stop < MAXT) {
                        // a finite request answered with the end of time
                        vh::viol("C01", "finite-request-granted-maxtime", at);
                    }
                    if (!f.unint && uHi < MAXT) {
                        vh::viol("C01", "halted-with-pending-update", at + " event due " + ts(uHi));
                        vh::viol("C02", "update-missed", at + " event due " + ts(uHi));
                    }
                }
            }
            const bool incl = interrupted || f.wait;
            // ---- values
            for (auto& ob : G.in) {
                const auto& I = s.ins[ob.in];
                auto& S = is[ob.in];
                std::vector<size_t> lo(I.src.size()), hi(I.src.size());
                bool newLo = false, newHi = false;
                for (size_t k = 0; k < I.src.size(); ++k) {
                    auto& v = pe[I.src[k].pub];
                    size_t a = 0, b = 0;
                    while (a < v.size() && v[a].t < g - f.inD) {
                        ++a;
                    }
                    if (f.wait && f.inD == 0) {
                        // the waiting federate is last at this time: it sees everything at it
                        while (a < v.size() && v[a].t <= g) {
                            ++a;
                        }
                    }
                    while (b < v.size() && (v[b].t < g || (incl && v[b].t <= g))) {
                        ++b;
                    }
                    lo[k] = std::max(a, S.lo[k]);
                    hi[k] = std::max(b, lo[k]);
                    if (lo[k] > S.hi[k]) {
                        newLo = true;
                    }
                    if (hi[k] > S.lo[k]) {
                        newHi = true;
                    }
                }
                S.pendLo = S.pendLo || newLo;
                S.pendHi = S.pendHi || newHi;
                std::ostringstream od;
                od << I.name << " saw pub=" << ob.pub << " seq=" << ob.seq << " upd=" << ob.upd << " bad='" << ob.bad << "'";
                for (size_t k = 0; k < I.src.size(); ++k) {
                    od << " src" << I.src[k].pub << "[" << lo[k] << "," << hi[k] << " of " << pe[I.src[k].pub].size() << "]";
                }
                const std::string vd = od.str() + " @ " + at;
                if (ob.upd && !S.pendHi) {
                    vh::viol("C03", "update-flag-without-new-value", vd);
                }
                if (!ob.upd && S.pendLo) {
                    vh::viol("C03", "no-update-flag-for-new-value", vd);
                    vh::viol("C02", "past-value-missing", vd);
                }
                if (ob.read) {
                    ++nVal;
                    bool canBeEmpty = true;
                    for (size_t k = 0; k < I.src.size(); ++k) {
                        canBeEmpty = canBeEmpty && S.lo[k] == 0 && lo[k] == 0 && S.maxSeqSeen[k] < 0;
                    }
                    if (!ob.bad.empty() && !canBeEmpty) {
                        vh::viol("C03", "value-altered", vd);
                    } else if (ob.pub < 0) {
                        for (size_t k = 0; k < I.src.size(); ++k) {
                            if (lo[k] > 0) {
                                vh::viol("C03", "value-missing", vd);
                                vh::viol("C02", "past-value-missing", vd);
                                break;
                            }
                        }
                    } else {
                        size_t ks = I.src.size();
                        for (size_t k = 0; k < I.src.size(); ++k) {
                            if (I.src[k].pub == ob.pub) {
                                ks = k;
                            }
                        }
                        if (ks == I.src.size() || ob.seq < 0 || static_cast<size_t>(ob.seq) >= pe[ob.pub].size()) {
                            vh::viol("C03", "value-never-published-to-this-input", vd);
                        } else {
                            size_t n = static_cast<size_t>(ob.seq) + 1;
                            if (n > hi[ks]) {
                                vh::viol("C02", "value-from-the-future", vd + " value time " + ts(pe[ob.pub][ob.seq].t));
                            }
                            if (n < lo[ks]) {
                                vh::viol("C02", "stale-value", vd);
                                vh::viol("C03", "stale-value", vd);
                            }
                            if (ob.seq < S.maxSeqSeen[ks]) {
                                vh::viol("C03", "value-order-reversed", vd);
                            }
                            S.maxSeqSeen[ks] = std::max(S.maxSeqSeen[ks], ob.seq);
                            ll t = pe[ob.pub][ob.seq].t;
                            for (size_t k = 0; k < I.src.size(); ++k) {
                                if (k != ks && lo[k] > 0 && pe[I.src[k].pub][lo[k] - 1].t > t) {
                                    vh::viol("C03", "older-source-wins", vd);
                                }
                            }
                            if (I.src.size() == 1 && f.inD == 0) {
                                // observation resolves the ambiguity
                                lo[ks] = std::max(lo[ks], n);
                                hi[ks] = n;
                                if (hi[ks] < lo[ks]) {
                                    hi[ks] = lo[ks];
                                }
                            }
                        }
                    }
                    S.pendLo = S.pendHi = false;
                }
                if (ob.upd && ob.lastUpdate != g && S.pendLo && newLo) {
                    vh::viol("C03", "last-update-time", vd + " lastUpdate=" + ts(ob.lastUpdate));
                }
                S.lo = lo;
                S.hi = hi;
            }
            // ---- messages
            std::vector<std::vector<const MsgObs*>> per(s.eps.size());
            for (auto& m : G.msg) {
                per[m.ep].push_back(&m);
            }
            for (size_t e = 0; e < s.eps.size(); ++e) {
                if (s.eps[e].fed != static_cast<int>(fi)) {
                    continue;
                }
                const MsgObs* last = nullptr;
                for (auto* m : per[e]) {
                    ++nMsg;
                    const std::string md = s.eps[e].name + " got '" + m->data.substr(0, 40) + "' t=" + ts(m->t) + " src=" + m->src + " osrc=" + m->osrc +
                        " dest=" + m->dest + " odest=" + m->odest + " @ " + at;
                    Snd* match = nullptr;
                    Snd* dup = nullptr;
                    for (auto& c : toEp[e]) {
                        if (c.e.data == m->data) {
                            (c.grantIdx < 0 ? match : dup) = &c;
                            if (c.grantIdx < 0) {
                                break;
                            }
                        }
                    }
                    if (!match) {
                        vh::viol("C04", dup ? "message-duplicated" : "message-altered-or-misdelivered", md);
                        continue;
                    }
                    match->grantIdx = static_cast<int>(gi);
                    const std::string& src = s.eps[match->e.ep].name;
                    if (m->src != src || m->osrc != src) {
                        vh::viol("C04", "message-source-wrong", md);
                    }
                    if (m->dest != s.eps[e].name) {
                        vh::viol("C04", "message-dest-wrong", md);
                    }
                    if (m->t != match->e.t) {
                        vh::viol("C04", "message-time-wrong", md + " sent for " + ts(match->e.t));
                    }
                    if (match->e.t > g) {
                        vh::viol("C02", "message-from-the-future", md);
                        vh::viol("C04", "message-early", md);
                    }
                    if (!incl && match->e.t == g && g < MAXT) {
                        vh::viol("C02", "message-at-grant-time-on-plain-grant", md);
                    }
                    if (last && !f.drainLazy && (last->t > m->t || (last->t == m->t && last->osrc > m->osrc))) {
                        vh::viol("C04", "message-order", md + " after t=" + ts(last->t) + " src " + last->osrc);
                    }
                    if (last && last->t == m->t && last->osrc == m->osrc) {
                        int sa = 0, sb = 0, x = 0;
                        sscanf(last->data.c_str(), "m%d:%d", &x, &sa);
                        sscanf(m->data.c_str(), "m%d:%d", &x, &sb);
                        if (sb < sa) {
                            vh::viol("C04", "message-fifo", md + " after " + last->data.substr(0, 20));
                        }
                    }
                    last = m;
                }
                if (!f.drainLazy) {
                    for (auto& c : toEp[e]) {
                        if (c.grantIdx < 0 && c.e.t < g - f.inD) {
                            vh::viol("C04", "message-lost-or-late", s.eps[e].name + " expected '" + c.e.data.substr(0, 40) + "' t=" + ts(c.e.t) + " @ " + at);
                            vh::viol("C02", "past-message-missing", s.eps[e].name + " expected '" + c.e.data.substr(0, 40) + "' t=" + ts(c.e.t) + " @ " + at);
                            c.grantIdx = 1 << 20;
                        }
                    }
                }
            }
            prev = g;
        }
    }
    vh::stat("grants", nGrant);
    vh::stat("interrupted_grants", nInt);
    vh::stat("maxtime_requests", nMaxReq);
    vh::stat("value_reads", nVal);
    vh::stat("publishes", nPub);
    vh::stat("messages_sent", nSend);
    vh::stat("messages_received", nMsg);
    uint64_t h = 7;
    for (auto& l : logs) {
        for (auto& g : l.g) {
            h = vh::mix(h, static_cast<uint64_t>(g.g));
            h = vh::mix(h, g.in.size() * 31 + g.msg.size());
            for (auto& o : g.in) {
                h = vh::mix(h, static_cast<uint64_t>(o.pub * 1000 + o.seq));
            }
        }
    }
    if (nGrant > 0 && (nVal > 0 || nMsg > 0)) {
        vh::distinct(h);
    }
}

static bool attempt(Rng r, long idx, bool lastTry)
{
    auto& A = vh::st().a;
    Spec s = makeSpec(r, idx, A.profile, A.thorough);
    g_spec = s.txt();
    std::vector<FedLog> logs(s.feds.size());
    g_logs = &logs;
    const std::string pre = prefix(idx);
    {
        auto root = BrokerFactory::create(s.type, pre + "root", "-f " + std::to_string(s.feds.size()) + " --log_level=no_print");
        g_root = root;
        std::vector<std::shared_ptr<Broker>> subs;
        for (int b = 0; b < s.nBrokers; ++b) {
            subs.push_back(BrokerFactory::create(s.type, pre + "b" + std::to_string(b), "--broker=" + pre + "root --log_level=no_print"));
        }
        std::vector<std::shared_ptr<Core>> cores;
        for (int c = 0; c < s.nCores; ++c) {
            int n = 0;
            for (auto& f : s.feds) {
                n += (f.core == c);
            }
            std::string br = s.coreBroker[c] < 0 ? pre + "root" : pre + "b" + std::to_string(s.coreBroker[c]);
            cores.push_back(CoreFactory::create(s.type, pre + "core" + std::to_string(c),
                                                "-f " + std::to_string(n) + " --broker=" + br + " --log_level=no_print"));
        }
        std::vector<std::thread> th;
        for (size_t i = 0; i < s.feds.size(); ++i) {
            th.emplace_back([&, i]() { runFed(s, static_cast<int>(i), cores[s.feds[i].core], root, logs[i]); });
        }
        for (auto& t : th) {
            t.join();
        }
        if (!lastTry) {
            // a socket that could not be set up in time on a busy machine is tried again before it counts
            for (auto& l : logs) {
                if (l.fail.find("nable to connect") != std::string::npos) {
                    vh::stat("connections_retried");
                    for (auto& c : cores) {
                        c->disconnect();
                    }
                    root->disconnect();
                    cores.clear();
                    subs.clear();
                    root.reset();
                    g_logs = nullptr;
                    g_root = nullptr;
                    CoreFactory::cleanUpCores();
                    BrokerFactory::cleanUpBrokers();
                    return false;
                }
            }
        }
        for (size_t i = 0; i < logs.size(); ++i) {
            if (!logs[i].fail.empty()) {
                vh::viol("*", "unexpected-exception", s.feds[i].name + ": " + logs[i].fail + " | " + g_spec);
            }
        }
        for (auto& c : cores) {
            if (!c->waitForDisconnect(std::chrono::milliseconds(20000))) {
                vh::viol("*", "core-never-disconnected", g_spec);
            }
        }
        if (!root->waitForDisconnect(std::chrono::milliseconds(20000))) {
            vh::viol("*", "broker-never-disconnected", g_spec);
        }
    }
    auto nv = vh::st().violations;
    oracle(s, logs, g_spec);
    if (A.get("dump", 0) && vh::st().violations > nv) {
        for (size_t i = 0; i < logs.size(); ++i) {
            fprintf(stderr, "%s:\n", s.feds[i].name.c_str());
            for (auto& g : logs[i].g) {
                fprintf(stderr, "   %s -> %s", ts(g.req).c_str(), ts(g.g).c_str());
                for (auto& o : g.in) {
                    fprintf(stderr, " [%s%s p%d#%d]", s.ins[o.in].name.c_str(), o.upd ? "*" : "", o.pub, o.seq);
                }
                for (auto& p : g.pubs) {
                    fprintf(stderr, " pub p%d#%d", p.pub, p.seq);
                }
                for (auto& m : g.msg) {
                    fprintf(stderr, " {%s<-%s %s t=%s}", s.eps[m.ep].name.c_str(), m.osrc.c_str(), m.data.substr(0, 6).c_str(), ts(m.t).c_str());
                }
                fprintf(stderr, "\n");
            }
        }
    }
    if (idx < 2) {
        std::string t = g_spec + " => ";
        for (auto& g : logs[0].g) {
            t += ts(g.req) + "->" + ts(g.g) + " ";
        }
        vh::sample(t.substr(0, 1500));
    }
    g_logs = nullptr;
    g_root = nullptr;
    CoreFactory::cleanUpCores();
    BrokerFactory::cleanUpBrokers();
    return true;
}
static void oneCase(Rng& r, long idx)
{
    const Rng start = r;
    const bool net = vh::st().a.get("net", 0) != 0;
    for (int k = 0; k < 3; ++k) {
        g_try = k;
        if (attempt(start, idx, !net || k == 2)) {
            return;
        }
    }
}

int main(int argc, char** argv)
{
    helics::loadCores();
    vh::st().onHang = []() {
        std::string o = g_spec + " :: ";
        if (g_logs) {
            for (auto& l : *g_logs) {
                o += "[" + l.st + (l.done ? " done" : "") + "] ";
            }
        }
        if (vh::st().a.get("hangdump", 0) && g_root) {
            fprintf(stderr, "%s\n", g_root->query("root", "global_time_debugging").c_str());
        }
        return o;
    };
    return vh::run(argc, argv, oneCase);
}
