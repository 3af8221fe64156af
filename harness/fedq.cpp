// C10: queries; C09: names, aliases, tags and lookups; C27: commands. Random federations with a known structure.
#include "vh.hpp"

#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/Filters.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include "nlohmann/json.hpp"

#include <algorithm>
#include <condition_variable>
#include <deque>

using namespace helics;
using vh::Rng;
using nlohmann::json;
using namespace std::chrono_literals;

namespace {
std::string T;
std::mutex Tm;
std::string cfg;
void tr(const std::string& s)
{
    std::lock_guard<std::mutex> l(Tm);
    T += s + " ";
}
void bad(const std::string& k, const std::string& d)
{
    std::lock_guard<std::mutex> l(Tm);
    vh::viol("*", k, d + "\n" + cfg + "\nops: " + (T.size() > 2500 ? "..." + T.substr(T.size() - 2500) : T));
}
using Tags = std::map<std::string, std::string>;
struct Iface {
    std::string key, local, type, units;
    Tags tags;
    bool global;
    std::vector<std::string> aliases;
};
struct Fed {
    std::string name;
    int core;
    std::unique_ptr<CombinationFederate> f;
    std::vector<Iface> pubs, inputs, epts, filters;
    std::vector<std::pair<int, int>> srcOf;  // (fed, pub) this federate's inputs listen to
    Tags tags;
    int gid{0};
    std::atomic<int64_t> granted{0};  // ns
    std::atomic<int64_t> requested{0};
};
struct Cor {
    std::string name;
    int broker;
    std::shared_ptr<Core> c;
    Tags tags;
};
struct Brk {
    std::string name;
    int parent;
    std::shared_ptr<Broker> b;
};
struct Net {
    std::vector<Brk> brokers;
    std::vector<Cor> cores;
    std::vector<std::unique_ptr<Fed>> feds;
    std::map<std::string, std::string> globals;
    bool under(int b, int anc) const
    {
        for (; b >= 0; b = brokers[b].parent)
            if (b == anc) return true;
        return false;
    }
};
std::string word(Rng& r)
{
    static const std::vector<std::string> w{"a", "volt", "load_7", "x.y", "A/b", "name with space", "q\"uote", "back\\slash", "caf\xc3\xa9", "1st", "true", "[x]", "{y}", "z:z", "very_long_" + std::string(80, 'n')};
    return w[r(w.size())];
}
std::string jstr(const json& j) { return j.is_string() ? j.get<std::string>() : j.dump(); }
std::string I(long v) { return std::to_string(v); }

struct Build {
    bool special{true};  // odd characters in names and tag values
    bool filters{true};
    int maxCores{3};
    int maxFeds{4};
    bool threeLevels{true};
};
std::unique_ptr<Net> makeNet(Rng& r, long idx, const Build& o)
{
    auto n = std::make_unique<Net>();
    std::string tag = I(getpid()) + "_" + I(idx);
    int nb = static_cast<int>(r(3));
    CoreType ct = CoreType::TEST;
    int nf = static_cast<int>(r.range(1, o.maxFeds));
    int nc = static_cast<int>(r.range(1, std::min(o.maxCores, nf)));
    nb = std::min(nb, nc);  // every broker has a core below
    n->brokers.push_back({"br" + tag, -1, nullptr});
    for (int i = 0; i < nb; ++i) n->brokers.push_back({"sb" + I(i) + "_" + tag, o.threeLevels && i == 1 && r.chance(50) ? 1 : 0, nullptr});
    std::vector<int> coreOf(nf);
    for (int i = 0; i < nf; ++i) coreOf[i] = i < nc ? i : static_cast<int>(r(nc));
    n->brokers[0].b = BrokerFactory::create(ct, n->brokers[0].name, "-f " + I(nf) + " --log_level=no_print");
    for (int i = 1; i <= nb; ++i) n->brokers[i].b = BrokerFactory::create(ct, n->brokers[i].name, "--broker=" + n->brokers[n->brokers[i].parent].name + " --log_level=no_print");
    for (int i = 0; i < nc; ++i) {
        int b = i < nb ? i + 1 : static_cast<int>(r(nb + 1));
        int cnt = static_cast<int>(std::count(coreOf.begin(), coreOf.end(), i));
        n->cores.push_back({"co" + I(i) + "_" + tag, b, nullptr, {}});
        n->cores[i].c = CoreFactory::create(ct, n->cores[i].name, "--broker=" + n->brokers[b].name + " -f " + I(cnt) + " --log_level=no_print");
    }
    static const std::vector<std::string> types{"double", "string", "int", "vector", "json", "any"};
    static const std::vector<std::string> units{"", "", "V", "kW", "m"};
    for (int i = 0; i < nf; ++i) {
        auto f = std::make_unique<Fed>();
        f->name = "fd" + I(i) + "_" + tag;
        f->core = coreOf[i];
        FederateInfo fi(ct);
        fi.coreName = n->cores[coreOf[i]].name;
        fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
        f->f = std::make_unique<CombinationFederate>(f->name, fi);
        auto mk = [&](const char* pre, int k) {
            Iface x;
            std::string base = std::string(pre) + I(k) + (o.special && r.chance(25) ? "_" + word(r) : "");
            x.global = r.chance(50);
            x.local = x.global ? f->name + "." + base : base;
            x.key = x.global ? x.local : f->name + "/" + base;
            x.type = r.pick(types);
            x.units = r.pick(units);
            return x;
        };
        auto tags = [&](Tags& t, auto&& set) {
            int k = r.chance(40) ? static_cast<int>(r(3)) + 1 : 0;
            for (int q = 0; q < k; ++q) {
                std::string name = "tg" + I(r(3));
                std::string val = o.special ? word(r) : "v" + I(r(9));
                t[name] = val;
                set(name, val);
            }
        };
        int np = static_cast<int>(r(4)), ni = static_cast<int>(r(4)), ne = static_cast<int>(r(3)), nfi = o.filters ? static_cast<int>(r(3)) : 0;
        for (int k = 0; k < np; ++k) {
            auto x = mk("p", k);
            auto& p = x.global ? f->f->registerGlobalPublication(x.key, x.type, x.units) : f->f->registerPublication(x.local, x.type, x.units);
            tags(x.tags, [&](auto& a, auto& b) { p.setTag(a, b); });
            f->pubs.push_back(x);
        }
        for (int k = 0; k < ni; ++k) {
            auto x = mk("i", k);
            auto& p = x.global ? f->f->registerGlobalInput(x.key, x.type, x.units) : f->f->registerInput(x.local, x.type, x.units);
            tags(x.tags, [&](auto& a, auto& b) { p.setTag(a, b); });
            f->inputs.push_back(x);
        }
        for (int k = 0; k < ne; ++k) {
            auto x = mk("e", k);
            x.units.clear();
            // (endpoints without targets below several brokers can stall the time coordination: see DESIGN.md)
            auto& p = nb > 0 ? (x.global ? f->f->registerGlobalTargetedEndpoint(x.key, x.type) : f->f->registerTargetedEndpoint(x.local, x.type))
                             : (x.global ? f->f->registerGlobalEndpoint(x.key, x.type) : f->f->registerEndpoint(x.local, x.type));
            tags(x.tags, [&](auto& a, auto& b) { p.setTag(a, b); });
            f->epts.push_back(x);
        }
        for (int k = 0; k < nfi; ++k) {
            auto x = mk("f", k);
            x.global = true;
            x.local = x.key = f->name + "_f" + I(k);
            auto& p = f->f->registerGlobalFilter(x.key);
            (void)p;
            f->filters.push_back(x);
        }
        tags(f->tags, [&](auto& a, auto& b) { f->f->setTag(a, b); });
        n->feds.push_back(std::move(f));
    }
    for (auto& c : n->cores) {
        int k = r.chance(40) ? static_cast<int>(r(2)) + 1 : 0;
        for (int q = 0; q < k; ++q) {
            std::string name = "ct" + I(r(2)), val = o.special ? word(r) : "w" + I(r(9));
            c.c->setFederateTag(gLocalCoreId, name, val);
            c.tags[name] = val;
        }
    }
    // links
    for (int y = 0; y < nf; ++y)
        for (size_t k = 0; k < n->feds[y]->inputs.size(); ++k)
            for (int q = 0; q < 4; ++q) {
                if (!r.chance(70)) break;
                int x = static_cast<int>(r(nf));
                if (x == y || n->feds[x]->pubs.empty()) continue;
                int p = static_cast<int>(r(n->feds[x]->pubs.size()));
                auto &pi = n->feds[x]->pubs[p], &ii = n->feds[y]->inputs[k];
                if (!(pi.type == ii.type || pi.type == "any" || ii.type == "any") || !(pi.units == ii.units || pi.units.empty() || ii.units.empty())) continue;
                n->feds[y]->f->getInput(static_cast<int>(k)).addTarget(n->feds[x]->pubs[p].key);
                n->feds[y]->srcOf.emplace_back(x, p);
                break;
            }
    cfg = "brokers " + I(nb + 1) + " cores " + I(nc) + " feds " + I(nf) + ":";
    for (auto& b : n->brokers) cfg += " " + b.name + "<" + I(b.parent);
    for (auto& c : n->cores) cfg += " " + c.name + "@b" + I(c.broker);
    for (auto& f : n->feds) cfg += " " + f->name + "@c" + I(f->core) + "(" + I(f->pubs.size()) + "," + I(f->inputs.size()) + "," + I(f->epts.size()) + "," + I(f->filters.size()) + (f->tags.empty() ? "" : ",tags") + ")";
    return n;
}
void enterInit(Net& n)
{
    for (auto& f : n.feds) f->f->enterInitializingModeAsync();
    for (auto& f : n.feds) f->f->enterInitializingModeComplete();
    vh::progress();
}
void enterExec(Net& n)
{
    for (auto& f : n.feds) f->f->enterExecutingModeAsync();
    for (auto& f : n.feds) f->f->enterExecutingModeComplete();
    vh::progress();
}
void step(Net& n, double t)
{
    for (auto& f : n.feds) f->f->requestTimeAsync(t);
    for (auto& f : n.feds) f->granted = f->f->requestTimeComplete().getBaseTimeCode();
    vh::progress();
}
void shut(std::unique_ptr<Net>& n)
{
    try {
        for (auto& f : n->feds) f->f->finalizeAsync();
        for (auto& f : n->feds) f->f->finalizeComplete();
        for (auto& f : n->feds) f->f.reset();
        if (!n->brokers[0].b->waitForDisconnect(15000ms)) bad("teardown", "the root broker does not disconnect after every federate finished");
    }
    catch (const std::exception& e) {
        bad("teardown", e.what());
    }
    n.reset();
    cleanupHelicsLibrary();
}

// ------------------------------------------------------------------------------------------------ queries
enum Kind { FED, CORE, BROKER };
struct Source {
    Kind k;
    int i;
};
std::string show(const Net& n, Kind k, int i) { return k == FED ? n.feds[i]->name : k == CORE ? n.cores[i].name : n.brokers[i].name; }
std::string ask(Net& n, Source s, const std::string& target, const std::string& q, HelicsSequencingModes m)
{
    vh::stat("queries");
    switch (s.k) {
        case FED: return n.feds[s.i]->f->query(target, q, m);
        case CORE: return n.cores[s.i].c->query(target, q, m);
        default: return n.brokers[s.i].b->query(target, q, m);
    }
}
struct Q {
    Net& n;
    std::string what;  // description
    std::string ans;
    bool live{false};  // federates are moving
    void fail(const std::string& key, const std::string& d) { bad(key, what + " answered " + ans.substr(0, 600) + (d.empty() ? "" : " -- " + d)); }
    json parse()
    {
        try {
            return json::parse(ans);
        }
        catch (const std::exception& e) {
            fail("query-not-json", "not valid JSON");
            return json();
        }
    }
    std::vector<std::string> names(const std::vector<Iface>& v)
    {
        std::vector<std::string> o;
        for (auto& x : v) o.push_back(x.key);
        return o;
    }
    void list(const json& j, std::vector<std::string> want, const char* key = "query-list")
    {
        if (!j.is_array()) return fail(key, "not a list");
        std::vector<std::string> got;
        for (auto& x : j) got.push_back(jstr(x));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got == want) return;
        std::string d = "expected " + I(want.size()) + " got " + I(got.size());
        for (auto& w : want)
            if (!std::count(got.begin(), got.end(), w)) { d += "; missing " + w; break; }
        for (auto& g : got)
            if (!std::count(want.begin(), want.end(), g)) { d += "; unexpected " + g; break; }
        fail(key, d);
    }
    Tags tagArray(const json& j)
    {
        Tags t;
        if (j.contains("tags"))
            for (auto& x : j["tags"]) t[x.value("name", "?")] = x.value("value", "?");
        return t;
    }
    void details(const json& j, const char* what2, const std::vector<std::pair<Iface, int>>& want, bool withTags)
    {
        if (!j.is_object() || !j.contains(what2) || !j[what2].is_array()) {
            if (want.empty()) return;
            return fail("query-details", std::string("no ") + what2);
        }
        std::map<std::string, json> got;
        for (auto& x : j[what2]) got[x.value("name", "?")] = x;
        if (got.size() != want.size() || j[what2].size() != want.size()) return fail("query-details", std::string(what2) + ": expected " + I(want.size()) + " got " + I(j[what2].size()));
        for (auto& [x, fed] : want) {
            auto g = got.find(x.key);
            if (g == got.end()) return fail("query-details", "no " + x.key);
            if (std::string(what2) != "filters" && g->second.value("type", "?") != x.type) fail("query-details-type", x.key + " type " + g->second.value("type", "?") + " expected " + x.type);
            if (g->second.contains("units") && g->second["units"] != x.units) fail("query-details-units", x.key + " units " + jstr(g->second["units"]) + " expected " + x.units);
            if (std::string(what2) != "filters" && g->second.contains("parent") && n.feds[fed]->gid != 0 && g->second["parent"] != n.feds[fed]->gid) fail("query-details-parent", x.key + " parent " + jstr(g->second["parent"]) + " expected " + I(n.feds[fed]->gid));
            if (withTags && tagArray(g->second) != x.tags) fail("query-details-tags", x.key);
        }
    }
    void error(const json& j, int code)
    {
        if (!j.is_object() || !j.contains("error") || !j["error"].contains("code")) return fail("query-error-missing", "expected error " + I(code));
        if (code && j["error"]["code"] != code) fail("query-error-code", "expected code " + I(code));
        if (!j["error"].contains("message") || jstr(j["error"]["message"]).empty()) fail("query-error-missing", "no message");
    }
    bool isError(const json& j) { return j.is_object() && j.contains("error"); }
    // every federate found in a nested answer: name -> node
    void collect(const json& j, std::map<std::string, json>& feds, std::map<std::string, json>& cores, std::map<std::string, json>& brks, int parent)
    {
        auto name = [&](const json& x) { return x.contains("attributes") ? x["attributes"].value("name", "?") : "?"; };
        auto id = [&](const json& x) { return x.contains("attributes") ? x["attributes"].value("id", -1) : -1; };
        auto chk = [&](const json& x) {
            if (x.contains("attributes") && x["attributes"].contains("parent") && parent >= 0 && x["attributes"]["parent"] != parent) fail("query-tree-parent", name(x) + " has parent " + jstr(x["attributes"]["parent"]));
        };
        if (j.contains("federates"))
            for (auto& x : j["federates"]) {
                if (!x.contains("attributes")) continue;  // an internal filter or translator federate
                if (!feds.emplace(name(x), x).second) fail("query-tree-twice", name(x));
                if (parent >= 0) chk(x);
            }
        for (auto* kind : {"cores", "brokers"})
            if (j.contains(kind))
                for (auto& x : j[kind]) {
                    auto& m = std::string(kind) == "cores" ? cores : brks;
                    if (!m.emplace(name(x), x).second) fail("query-tree-twice", name(x));
                    if (parent >= 0) chk(x);
                    collect(x, feds, cores, brks, id(x));
                }
    }
    void tree(const json& j, Kind k, int i, std::map<std::string, json>& feds)
    {
        std::map<std::string, json> cores, brks;
        collect(j, feds, cores, brks, j.contains("attributes") ? j["attributes"].value("id", -1) : -1);
        std::vector<std::string> wf, wc, wb, gf, gc, gb;
        for (auto& f : n.feds)
            if (k == CORE ? f->core == i : n.under(n.cores[f->core].broker, i)) wf.push_back(f->name);
        if (k == BROKER) {
            for (auto& c : n.cores)
                if (n.under(c.broker, i)) wc.push_back(c.name);
            for (size_t b = 0; b < n.brokers.size(); ++b)
                if (static_cast<int>(b) != i && n.under(static_cast<int>(b), i)) wb.push_back(n.brokers[b].name);
        }
        for (auto& x : feds)
            if (x.first.find("_filter") == std::string::npos && x.first.find("_translator") == std::string::npos && x.first != "?") gf.push_back(x.first);
        for (auto& x : cores) gc.push_back(x.first);
        for (auto& x : brks) gb.push_back(x.first);
        list(json(gf), wf, "query-tree-federates");
        list(json(gc), wc, "query-tree-cores");
        list(json(gb), wb, "query-tree-brokers");
    }
};
// the time a federate may be seen at while a query runs: between lo and hi
struct Window {
    std::vector<int64_t> lo, hi;
};
Window winStart(Net& n)
{
    Window w;
    for (auto& f : n.feds) w.lo.push_back(f->granted);
    return w;
}
void winEnd(Net& n, Window& w)
{
    for (auto& f : n.feds) w.hi.push_back(f->requested);
}
static const std::vector<std::string> fedQ{"exists", "isinit", "state", "publications", "inputs", "endpoints", "publication_details", "input_details", "endpoint_details", "tags", "tag/tg0", "tg1", "current_state", "global_state", "global_time", "dependencies", "dependents", "dependency_graph", "data_flow_graph", "current_time", "version", "queries", "interfaces", "logs", "barriers", "config", "timeconfig", "unconnected_interfaces", "global_time_debugging", "global_status", "nosuchquery", "custom1", "filtered_endpoints", "global_flush", "interface_details"};
static const std::vector<std::string> coreQ{"name", "exists", "isconnected", "isinit", "federates", "publications", "inputs", "endpoints", "filters", "publication_details", "input_details", "endpoint_details", "filter_details", "tags", "tag/ct0", "ct1", "current_state", "federate_map", "global_time", "global_state", "dependency_graph", "data_flow_graph", "version", "version_all", "queries", "interfaces", "counter", "logs", "address", "dependencies", "dependson", "dependents", "global_time_debugging", "global_status", "barriers", "unconnected_interfaces", "nosuchquery", "current_time", "filtered_endpoints", "global_flush", "interface_details"};
static const std::vector<std::string> brkQ{"name", "exists", "isconnected", "isinit", "federates", "brokers", "cores", "subbrokers", "publications", "inputs", "endpoints", "filters", "publication_details", "input_details", "endpoint_details", "filter_details", "counts", "current_state", "federate_map", "global_time", "global_state", "dependency_graph", "data_flow_graph", "version", "version_all", "queries", "counter", "status", "summary", "config", "logs", "address", "dependencies", "dependson", "dependents", "global_time_debugging", "global_status", "barriers", "unconnected_interfaces", "monitor", "time_monitor", "nosuchquery", "current_time", "global_flush", "interface_details"};

const json& at(const json& j, const char* key)
{
    static const json none;
    return j.is_object() && j.contains(key) ? j[key] : none;
}
void checkFed(Q& Z, Net& n, int i, const std::string& q, const json& j, const Window& w, int phase, bool local)
{
    auto& f = *n.feds[i];
    auto t = [&](const json& v, const char* key) {
        if (!v.is_number()) return Z.fail(key, "no time");
        auto c = Time(v.get<double>()).getBaseTimeCode();
        if (phase < 2) {
            if (v.get<double>() > 0) Z.fail(key, "a time past zero before executing");
        } else if (c < w.lo[i] - 1 || c > w.hi[i] + 1) {
            Z.fail(key, "time " + I(c) + " outside " + I(w.lo[i]) + ".." + I(w.hi[i]));
        }
        vh::stat("times_checked");
    };
    auto withFed = [&](const std::vector<Iface>& v) {
        std::vector<std::pair<Iface, int>> o;
        for (auto& x : v) o.emplace_back(x, i);
        return o;
    };
    auto node = [&]() {
        if (!j.is_object() || !j.contains("attributes") || j["attributes"].value("name", "") != f.name || (f.gid && j["attributes"].value("id", 0) != f.gid)) Z.fail("query-attributes", "expected " + f.name + " id " + I(f.gid));
    };
    const char* st = phase == 0 ? "created" : phase == 1 ? "initializing" : phase == 2 ? "executing" : "finished";
    if (q == "exists") { if (j != true) Z.fail("query-exists", ""); }
    else if (q == "isinit") { if (j != (phase > 0)) Z.fail("query-isinit", "phase " + I(phase)); }
    else if (q == "state") { if (!j.is_string() || (local && jstr(j) != st)) Z.fail("query-state", std::string("expected ") + st); }
    else if (q == "publications") Z.list(j, Z.names(f.pubs));
    else if (q == "inputs") Z.list(j, Z.names(f.inputs));
    else if (q == "endpoints") Z.list(j, Z.names(f.epts));
    else if (q == "publication_details") Z.details(j, "publications", withFed(f.pubs), true);
    else if (q == "input_details") Z.details(j, "inputs", withFed(f.inputs), true);
    else if (q == "endpoint_details") Z.details(j, "endpoints", withFed(f.epts), true);
    else if (q == "interfaces") {
        Z.details(j, "publications", withFed(f.pubs), true);
        Z.details(j, "inputs", withFed(f.inputs), true);
        Z.details(j, "endpoints", withFed(f.epts), true);
    } else if (q == "tags") {
        Tags g;
        if (!j.is_object() && !(j.is_null() && f.tags.empty())) return Z.fail("query-tags", "not an object");
        for (auto& [k, v] : j.items()) g[k] = jstr(v);
        if (g != f.tags) Z.fail("query-tags", "");
    } else if (q == "tag/tg0" || q == "tg1") {
        auto k = q == "tg1" ? "tg1" : "tg0";
        auto e = f.tags.find(k);
        if (e != f.tags.end()) { if (jstr(j) != e->second) Z.fail("query-tag", "expected " + e->second); }
        else if (q == "tg1") Z.error(j, 0);
        else if (jstr(j) != "") Z.fail("query-tag", "expected nothing");
    } else if (q == "current_state") {
        node();
        if (j.value("state", "") != st) Z.fail("query-state", std::string("expected ") + st);
        if (j.value("publications", -1) != static_cast<int>(f.pubs.size()) || j.value("input", -1) != static_cast<int>(f.inputs.size()) || j.value("endpoints", -1) != static_cast<int>(f.epts.size())) Z.fail("query-counts", "");
        t(at(j, "granted_time"), "query-granted-time");
    } else if (q == "global_state") {
        node();
        if (j.value("state", "") != st) Z.fail("query-state", std::string("expected ") + st);
    } else if (q == "global_time" || q == "global_status") {
        node();
        t(at(j, "granted_time"), "query-granted-time");
    } else if (q == "current_time") {
        t(at(j, "granted_time"), "query-granted-time");
    } else if (q == "dependencies" || q == "dependents" || q == "dependency_graph") {
        auto has = [&](const json& l, int g) {
            for (auto& x : l)
                if (jstr(x) == I(g)) return true;
            return false;
        };
        if (q == "dependency_graph") node();
        if (phase < 1) return;
        const json& dn = q == "dependency_graph" ? at(j, "dependencies") : j;
        const json& dt = q == "dependency_graph" ? at(j, "dependents") : j;
        if (q != "dependents")
            for (auto& s : f.srcOf)
                if (!has(dn, n.feds[s.first]->gid)) Z.fail("query-dependencies", "federate " + n.feds[s.first]->name + " (" + I(n.feds[s.first]->gid) + ") is not listed");
        if (q != "dependencies")
            for (auto& o : n.feds)
                for (auto& s : o->srcOf)
                    if (s.first == i && !has(dt, o->gid)) Z.fail("query-dependents", "federate " + o->name + " (" + I(o->gid) + ") is not listed");
    } else if (q == "data_flow_graph") {
        node();
        if (phase < 1) return;
        size_t links = 0, expIn = f.srcOf.size(), tg = 0, expT = 0;
        if (j.contains("inputs"))
            for (auto& x : j["inputs"])
                if (x.contains("sources")) links += x["sources"].size();
        if (j.contains("publications"))
            for (auto& x : j["publications"])
                if (x.contains("targets")) tg += x["targets"].size();
        for (auto& o : n.feds)
            for (auto& s : o->srcOf) expT += s.first == i;
        if (links != expIn || tg != expT) Z.fail("query-data-flow", "links " + I(links) + "/" + I(tg) + " expected " + I(expIn) + "/" + I(expT));
    } else if (q == "version") { if (!j.is_string() || jstr(j).empty()) Z.fail("query-version", ""); }
    else if (q == "queries") { if (!j.is_array() || j.size() < 5) Z.fail("query-queries", ""); }
    else if (q == "nosuchquery") Z.error(j, 400);
    else if (q == "custom1") {
        if (i % 2 == 0) { if (jstr(j) != "answer of " + f.name) Z.fail("query-callback", ""); }
        else Z.error(j, 400);
    } else if (q == "global_flush") {
        if (Z.isError(j)) Z.fail("query-error", "");
    } else if (Z.isError(j)) Z.fail("query-error", "");
}
void checkInfra(Q& Z, Net& n, Kind k, int i, const std::string& q, const json& j, const Window& w, int phase, bool full)
{
    auto in = [&](const Fed& f) { return k == CORE ? f.core == i : n.under(n.cores[f.core].broker, i); };
    std::vector<std::pair<Iface, int>> P, N, E, F;
    std::vector<std::string> feds;
    for (size_t x = 0; x < n.feds.size(); ++x) {
        auto& f = *n.feds[x];
        if (!in(f)) continue;
        feds.push_back(f.name);
        for (auto& a : f.pubs) P.emplace_back(a, x);
        for (auto& a : f.inputs) N.emplace_back(a, x);
        for (auto& a : f.epts) E.emplace_back(a, x);
        for (auto& a : f.filters) F.emplace_back(a, x);
    }
    auto keys = [&](auto& v) {
        std::vector<std::string> o;
        for (auto& x : v) o.push_back(x.first.key);
        return o;
    };
    const auto& name = k == CORE ? n.cores[i].name : n.brokers[i].name;
    auto& tg = k == CORE ? n.cores[i].tags : n.globals;
    auto node = [&]() {
        if (!j.is_object() || !j.contains("attributes") || j["attributes"].value("name", "") != name) Z.fail("query-attributes", "expected " + name);
    };
    auto listNoInternal = [&](json v, std::vector<std::string> want) {
        json o = json::array();
        for (auto& x : v)
            if (jstr(x).find("_filters") == std::string::npos && jstr(x).find("_translators") == std::string::npos) o.push_back(x);
        Z.list(o, want);
    };
    if (q == "name") { if (jstr(j) != name) Z.fail("query-name", "expected " + name); }
    else if (q == "exists" || q == "isconnected") { if (j != true) Z.fail("query-" + q, ""); }
    else if (q == "isinit") { if (!j.is_boolean() || (phase > 0 && j != true)) Z.fail("query-isinit", ""); }
    else if (q == "federates") listNoInternal(j, feds);
    else if (q == "publications") Z.list(j, keys(P));
    else if (q == "inputs") Z.list(j, keys(N));
    else if (q == "endpoints") Z.list(j, keys(E));
    else if (q == "filters") Z.list(j, keys(F));
    else if (q == "publication_details") Z.details(j, "publications", P, k == CORE);
    else if (q == "input_details") Z.details(j, "inputs", N, k == CORE);
    else if (q == "endpoint_details") Z.details(j, "endpoints", E, k == CORE);
    else if (q == "filter_details") Z.details(j, "filters", F, false);
    else if (q == "tags" && k == CORE) {
        Tags g;
        for (auto& [a, v] : j.items()) g[a] = jstr(v);
        if (g != tg) Z.fail("query-tags", "");
    } else if ((q == "tag/ct0" || q == "ct1") && k == CORE) {
        auto e = tg.find(q == "ct1" ? "ct1" : "ct0");
        if (e != tg.end()) { if (jstr(j) != e->second) Z.fail("query-tag", "expected " + e->second); }
        else if (q == "ct1") Z.error(j, 0);
        else if (jstr(j) != "") Z.fail("query-tag", "expected nothing");
    } else if (q == "brokers" || q == "cores" || q == "subbrokers") {
        std::vector<std::string> v;
        if (q != "cores")
            for (size_t b = 0; b < n.brokers.size(); ++b)
                if (static_cast<int>(b) != i && n.under(static_cast<int>(b), i)) v.push_back(n.brokers[b].name);
        if (q != "subbrokers")
            for (auto& c : n.cores)
                if (n.under(c.broker, i)) v.push_back(c.name);
        Z.list(j, v);
    } else if (q == "counts") {
        node();
        if (j.value("countable_federates", -1) != static_cast<int>(feds.size())) Z.fail("query-counts", "expected " + I(feds.size()) + " federates");
        if (F.empty() && j.value("interfaces", -1) != static_cast<int>(P.size() + N.size() + E.size())) Z.fail("query-counts", "expected " + I(P.size() + N.size() + E.size()) + " interfaces");
    } else if (q == "summary") {
        const json& s = j.contains("summary") ? j["summary"] : j;
        if (s.value("publications", -1) != static_cast<int>(P.size()) || s.value("inputs", -1) != static_cast<int>(N.size()) || s.value("endpoints", -1) != static_cast<int>(E.size())) Z.fail("query-summary", "expected " + I(P.size()) + "," + I(N.size()) + "," + I(E.size()));
    } else if (q == "federate_map" || q == "global_time" || q == "global_state" || q == "dependency_graph" || q == "data_flow_graph" || q == "version_all" || q == "global_time_debugging" || q == "barriers" || q == "unconnected_interfaces") {
        node();
        std::map<std::string, json> f;
        if (k == CORE && q == "federate_map" && !j.contains("federates")) return Z.fail("query-tree-federates", "");
        if (q == "data_flow_graph" || q == "dependency_graph") {}
        Z.tree(j, k, i, f);
        for (size_t x = 0; x < n.feds.size(); ++x) {
            auto& fd = *n.feds[x];
            if (!in(fd) || !f.count(fd.name)) continue;
            auto& v = f[fd.name];
            if (fd.gid && v["attributes"].value("id", 0) != fd.gid) Z.fail("query-tree-id", fd.name);
            if (q == "global_time") {
                if (!v.contains("granted_time")) { Z.fail("query-granted-time", fd.name + " has no time"); continue; }
                auto c = Time(v["granted_time"].get<double>()).getBaseTimeCode();
                vh::stat("times_checked");
                if (phase == 2 && ((!Z.live && c < w.lo[x] - 1) || c > w.hi[x] + 1)) Z.fail("query-granted-time", fd.name + " time " + I(c) + " outside " + I(w.lo[x]) + ".." + I(w.hi[x]));
            }
            if (q == "global_state" && phase >= 1 && v.value("state", "") != (phase == 1 ? "initializing" : "executing")) Z.fail("query-state", fd.name + " in phase " + I(phase));
            if (q == "federate_map" && Z.tagArray(v) != fd.tags) Z.fail("query-tree-tags", fd.name);
            if (q == "data_flow_graph" && phase >= 1) {
                size_t links = 0;
                if (v.contains("inputs"))
                    for (auto& y : v["inputs"])
                        if (y.contains("sources")) links += y["sources"].size();
                if (links != fd.srcOf.size()) Z.fail("query-data-flow", fd.name + " has " + I(links) + " links, expected " + I(fd.srcOf.size()));
            }
            if (q == "dependency_graph" && phase >= 1)
                for (auto& s : fd.srcOf) {
                    bool ok = false;
                    for (auto& y : v["dependencies"]) ok |= y == n.feds[s.first]->gid;
                    if (!ok) Z.fail("query-dependencies", fd.name);
                }
        }
        if (q == "version_all" && j.value("version", "").empty()) Z.fail("query-version", "");
    } else if (q == "current_state") {
        node();
        std::vector<std::string> g;
        for (auto& x : j["federates"])
            if (x["attributes"].value("name", "").find("_filters") == std::string::npos) g.push_back(x["attributes"].value("name", "?"));
        Z.list(json(g), feds);
    } else if (q == "version") { if (!j.is_string() || jstr(j).empty()) Z.fail("query-version", ""); }
    else if (q == "queries") { if (!j.is_array() || j.size() < 5) Z.fail("query-queries", ""); }
    else if (q == "counter") { if (!j.is_number()) Z.fail("query-counter", ""); }
    else if (q == "address") { if (!j.is_string()) Z.fail("query-address", ""); }
    else if (q == "nosuchquery") Z.error(j, 400);
    else if (q == "config" || q == "status") {
        if ((j.contains("attributes") ? j["attributes"].value("name", "") : j.value("name", "")) != name) Z.fail("query-name", "");
    } else if (q == "global_status" && phase == 2 && k == BROKER && i == 0) {
        if (Z.isError(j)) Z.fail("query-error", "");
    } else if (Z.isError(j)) Z.fail("query-error", "");
    (void)full;
}
// one random query from a random place; own = federate whose thread calls (others must not be used as source), or -1
void oneQuery(Rng& r, Net& n, int phase, int own, bool live, bool async)
{
    Source s{};
    if (own >= 0 && r.chance(60)) s = {FED, own};
    else if (own < 0 && r.chance(50)) s = {FED, static_cast<int>(r(n.feds.size()))};
    else if (r.chance(50)) s = {CORE, static_cast<int>(r(n.cores.size()))};
    else s = {BROKER, static_cast<int>(r(n.brokers.size()))};
    Kind tk;
    int ti;
    std::string target;
    int roll = static_cast<int>(r(100));
    int srcCore = s.k == FED ? n.feds[s.i]->core : s.k == CORE ? s.i : -1;
    if (phase == 0 && (s.k == BROKER || roll >= 92)) return;
    if (roll < 40) {
        tk = FED;
        ti = static_cast<int>(r(n.feds.size()));
        if (phase == 0 && n.feds[ti]->core != srcCore) return;
        target = n.feds[ti]->name;
    } else if (roll < 60) {
        tk = CORE;
        ti = static_cast<int>(r(n.cores.size()));
        if (phase == 0 && ti != srcCore) return;
        target = n.cores[ti].name;
        if (ti == srcCore && r.chance(50)) target = "core";
    } else if (roll < 92) {
        if (phase == 0) return;
        tk = BROKER;
        ti = static_cast<int>(r(n.brokers.size()));
        target = n.brokers[ti].name;
        int kind = static_cast<int>(r(4));
        if (kind == 0) {
            ti = 0;
            target = s.k == BROKER && s.i == 0 ? r.pick({"broker", "root", "federation", "rootbroker"}) : s.k == BROKER ? r.pick({"root", "rootbroker", "federation"}) : r.pick({"root", "federation"});
        } else if (kind == 1) {
            if (s.k == BROKER) {
                if (r.chance(50) && n.brokers[s.i].parent >= 0) {
                    ti = n.brokers[s.i].parent;
                    target = "parent";
                } else {
                    ti = s.i;
                    target = "broker";
                }
            } else {
                ti = n.cores[srcCore].broker;
                target = s.k == CORE && r.chance(40) ? "parent" : "broker";
            }
        }
    } else {
        Q z{n, show(n, s.k, s.i) + " -> nobody", ""};
        std::string q = r.pick({"exists", "publications", "nosuch", "global_time"});
        auto m = r.chance(30) ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
        z.ans = ask(n, s, r.pick({"nobody", "Nobody/x", "\"", "#", "co"}), q, m);
        auto j = z.parse();
        if (q == "exists") {
            if (j != false) z.fail("query-exists", "expected false");
        } else z.error(j, 404);
        return;
    }
    const auto& qs = tk == FED ? fedQ : tk == CORE ? coreQ : brkQ;
    std::string q = r.pick(qs);
    auto m = r.chance(30) ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
    bool local = tk == FED && (s.k == FED || s.k == CORE) && n.feds[ti]->core == srcCore;
    Q z{n, show(n, s.k, s.i) + " -> " + target + (target == show(n, tk, ti) ? "" : "=" + show(n, tk, ti)) + " " + q + (m == HELICS_SEQUENCING_MODE_ORDERED ? " ordered" : "") + " phase " + I(phase), "", live};
    if (!live) tr(z.what.substr(0, 70));
    auto w = winStart(n);
    try {
        if (async && s.k == FED) {
            auto id = n.feds[s.i]->f->queryAsync(std::string(target), std::string(q), m);
            if (r.chance(50)) {
                for (int k = 0; k < 20 && !n.feds[s.i]->f->isQueryCompleted(id); ++k) std::this_thread::sleep_for(100us);
            }
            z.ans = n.feds[s.i]->f->queryComplete(id);
            vh::stat("queries_async");
        } else {
            z.ans = ask(n, s, target, q, m);
        }
    }
    catch (const std::exception& e) {
        z.fail("query-throw", e.what());
        return;
    }
    winEnd(n, w);
    vh::distinct(vh::hashStr(q) * 31 + tk * 7 + s.k * 3 + phase + (m == HELICS_SEQUENCING_MODE_ORDERED ? 1000 : 0) + (live ? 5000 : 0) + vh::hashStr(target == show(n, tk, ti) ? "" : target));
    auto j = z.parse();
    if (j.is_discarded() || (j.is_null() && z.ans != "null")) return;
    vh::stat("answers_checked");
    if (z.isError(j)) {
        int code = j["error"].is_object() ? j["error"].value("code", 0) : 0;
        if (code == 504 || code == 410 || code == 500 || code == 503) return z.fail("query-unanswered", "");
    }
    try {
        if (tk == FED) checkFed(z, n, ti, q, j, w, phase, local);
        else checkInfra(z, n, tk, ti, q, j, w, phase, true);
    }
    catch (const std::exception& e) {
        z.fail("query-shape", e.what());
    }
}
void loadIds(Net& n)
{
    std::set<int> seen;
    for (auto& f : n.feds) {
        auto a = n.cores[f->core].c->query(f->name, "global_state", HELICS_SEQUENCING_MODE_FAST);
        try {
            f->gid = json::parse(a)["attributes"]["id"].get<int>();
        }
        catch (const std::exception& e) {
            bad("query-not-json", f->name + " global_state answered " + a);
        }
        if (!seen.insert(f->gid).second) bad("federate-id-twice", "id " + I(f->gid) + " is given to two federates");
    }
}
void globalsPhase(Rng& r, Net& n)
{
    for (int k = 0; k < 6; ++k) {
        std::string name = "gv" + I(r(3)) + (r.chance(20) ? word(r) : ""), val = word(r) + I(r(100));
        int who = static_cast<int>(r(3));
        int x;
        auto m = r.chance(30) ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
        Q z{n, "global " + name, ""};
        std::string t = r.pick({"global", "global", "global_value"});
        if (who == 0) {
            x = static_cast<int>(r(n.feds.size()));
            n.feds[x]->f->setGlobal(name, val);
            z.ans = n.feds[x]->f->query(t, name, m);
        } else if (who == 1) {
            x = static_cast<int>(r(n.cores.size()));
            n.cores[x].c->setGlobal(name, val);
            z.ans = n.cores[x].c->query(t, name, m);
        } else {
            x = static_cast<int>(r(n.brokers.size()));
            n.brokers[x].b->setGlobal(name, val);
            z.ans = n.brokers[x].b->query(t, name, m);
        }
        n.globals[name] = val;
        vh::stat("queries");
        if (t == "global_value") {
            if (z.ans != val) z.fail("global-value", "expected " + val);
        } else {
            auto j = z.parse();
            if (!j.is_object() || j.value("name", "") != name || j.value("value", "") != val) z.fail("global-value", "expected " + val);
        }
        vh::stat("answers_checked");
    }
    Q z{n, "global list", ""};
    z.ans = n.brokers[0].b->query("global", "list");
    std::vector<std::string> v;
    for (auto& g : n.globals) v.push_back(g.first);
    z.list(z.parse(), v);
    z.what = "global all";
    z.ans = n.cores[0].c->query("global", "all", HELICS_SEQUENCING_MODE_FAST);
    auto j = z.parse();
    if (!j.is_object() || j.size() != n.globals.size()) z.fail("global-all", "");
    else
        for (auto& g : n.globals)
            if (!j.contains(g.first) || jstr(j[g.first]) != g.second) z.fail("global-all", g.first);
    z.what = "global missing";
    z.ans = n.cores[0].c->query("global", "nosuchglobal", HELICS_SEQUENCING_MODE_FAST);
    z.error(z.parse(), 404);
}
void queryCase(Rng& r, long idx)
{
    T.clear();
    Build o;
    auto n = makeNet(r, idx, o);
    for (size_t i = 0; i < n->feds.size(); ++i)
        if (i % 2 == 0) n->feds[i]->f->setQueryCallback([nm = n->feds[i]->name](std::string_view q) { return q == "custom1" ? "\"answer of " + nm + "\"" : std::string(); });
    // registrations are messages to the core: an ordered query comes back when they are done
    for (auto& c : n->cores)
        c.c->query("core", "federates", HELICS_SEQUENCING_MODE_ORDERED);
    int k = static_cast<int>(r(6));
    for (int i = 0; i < k; ++i) oneQuery(r, *n, 0, -1, false, false);
    enterInit(*n);
    loadIds(*n);
    k = static_cast<int>(r.range(5, 25));
    for (int i = 0; i < k; ++i) oneQuery(r, *n, 1, -1, false, r.chance(20));
    if (r.chance(50)) globalsPhase(r, *n);
    for (auto& f : n->feds) f->requested = 0;
    enterExec(*n);
    double now = 0;
    for (int s = 0; s < 3; ++s) {
        k = static_cast<int>(r.range(3, 12));
        for (int i = 0; i < k; ++i) oneQuery(r, *n, 2, -1, false, r.chance(20));
        if (r.chance(30)) globalsPhase(r, *n);
        now += r.pick({0.5, 1.0, 2.25});
        for (auto& f : n->feds) f->requested = Time(now).getBaseTimeCode();
        step(*n, now);
    }
    // everything at once: federates step in their own threads, queries come from everywhere
    // (a federate answers some queries only inside a HELICS call, so the federates keep stepping until all queries are answered)
    {
        std::vector<std::thread> th, ft;
        std::atomic<bool> stop{false};
        for (size_t i = 0; i < n->feds.size(); ++i)
            ft.emplace_back([&, i]() {
                auto& f = *n->feds[i];
                try {
                    for (int s = 1; !stop; ++s) {
                        f.requested = Time(now + s).getBaseTimeCode();
                        auto g = f.f->requestTime(now + s);
                        f.granted = g.getBaseTimeCode();
                        std::this_thread::sleep_for(100us);
                    }
                    f.f->disconnect();
                }
                catch (const std::exception& e) {
                    bad("query-step", e.what());
                }
            });
        int per = static_cast<int>(r.range(3, 25));
        for (int a = 0; a < 4; ++a)
            th.emplace_back([&, seed = r.next()]() {
                Rng q(seed);
                for (int k2 = 0; k2 < per; ++k2) {
                    oneQuery(q, *n, 2, -1, true, q.chance(30));
                    vh::progress();
                }
            });
        for (auto& t : th) t.join();
        stop = true;
        for (auto& t : ft) t.join();
    }
    if (vh::st().samples.size() < 3) vh::sample(cfg);
    // after the end
    for (int i = 0; i < 4; ++i) {
        auto& c = n->cores[r(n->cores.size())];
        Q z{*n, "after the end", ""};
        z.ans = r.chance(50) ? c.c->query(r.pick({"core", "root", "broker", "nobody"}), r.pick({"name", "federates", "nosuch", "federate_map"}), HELICS_SEQUENCING_MODE_FAST) : n->brokers[r(n->brokers.size())].b->query(r.pick({"broker", "root", "nobody"}), r.pick({"name", "federates", "nosuch", "global_time", "status"}));
        z.parse();
        vh::stat("queries");
    }
    shut(n);
}
#include "fedq_names.inc"
}  // namespace
int main(int argc, char** argv)
{
    vh::st().onHang = []() { return cfg + " | " + (T.size() > 800 ? T.substr(T.size() - 800) : T); };
    return vh::run(argc, argv, [](Rng& r, long i) {
        auto& p = vh::st().a.profile;
        if (p == "query") queryCase(r, i);
        else if (p == "names") namesCase(r, i);
        else if (p == "commands") commandsCase(r, i);
    });
}
