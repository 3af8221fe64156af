// C05: filters. Random federations with filters of every kind; every delivered message is compared with the model.
#include "vh.hpp"
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/FilterOperations.hpp"
#include "helics/application_api/Filters.hpp"
#include "helics/application_api/MessageOperators.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/flagOperations.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include <algorithm>
#include <iostream>
#include <optional>
#include <thread>
using namespace helics;
using vh::Rng;
namespace {
std::string I(long v) { return std::to_string(v); }
void bad(const std::string& k, const std::string& d) { vh::viol("C05", k, d); }

enum Kind { APPEND, DELAY, REROUTE, CONDREROUTE, DROP, CLONE, RDELAY, NOOP, NK };
const char* kn[] = {"append", "delay", "reroute", "condreroute", "drop", "clone", "rdelay", "none"};
struct Flt {
    std::string name;
    int fed{0};
    Kind kind{APPEND};
    std::vector<int> src, dst;
    Time delay{timeZero};
    int to{-1};
    std::vector<int> deliver;
    bool global{false};
    int cond{0};  // payload tag that is dropped / rerouted
};
struct Ep {
    std::string name;
    int fed{0};
    bool sink{false};
    int target{-1};  // a fixed destination
};
struct Sent {
    long id;
    int src, dst;
    Time t;
    int tag;
    std::string body;
};
struct Got {
    int ep;
    Time grant, time;
    std::string data, source, osource, dest, odest;
    int order;
};
struct Case {
    int nf, nc;
    std::vector<int> coreOf;
    std::vector<Time> period;
    std::vector<Ep> eps;
    std::vector<Flt> flts;
    std::string desc() const
    {
        std::string s = "feds:";
        for (int i = 0; i < nf; ++i) s += " f" + I(i) + "@c" + I(coreOf[i]) + "/" + std::to_string(static_cast<double>(period[i]));
        s += " eps:";
        for (auto& e : eps) s += " " + e.name + "@f" + I(e.fed) + (e.sink ? "s" : "") + (e.target >= 0 ? ">" + I(e.target) : "");
        s += " filters:";
        for (auto& f : flts) {
            s += " " + f.name + "@f" + I(f.fed) + ":" + kn[f.kind];
            if (f.kind == DELAY || f.kind == RDELAY) s += "(" + std::to_string(static_cast<double>(f.delay)) + ")";
            if (f.to >= 0) s += "->" + I(f.to);
            if (f.kind == DROP || f.kind == CONDREROUTE) s += "?" + I(f.cond);
            for (int d : f.deliver) s += "+" + I(d);
            s += "[";
            for (int e : f.src) s += "s" + I(e);
            for (int e : f.dst) s += "d" + I(e);
            s += "]";
        }
        return s;
    }
};
struct Exp {
    int ep;
    Time t;
    long id;
    std::vector<int> tags;   // filters that must have appended (sorted)
    bool clone{false}, tolerant{false}, optional{false};
    int odst;
    int src;
};

/** what must be delivered for one message*/
void expectOf(const Case& c, const Sent& m, std::vector<Exp>& out)
{
    Exp e{m.dst, m.t, m.id, {}, false, false, false, m.dst, m.src};
    bool dropped = false;
    std::vector<const Flt*> clones;
    for (auto& f : c.flts) {
        if (std::find(f.src.begin(), f.src.end(), m.src) == f.src.end()) continue;
        switch (f.kind) {
            case APPEND: e.tags.push_back(static_cast<int>(&f - c.flts.data())); break;
            case DELAY: case RDELAY: e.t += f.delay; break;
            case REROUTE: e.ep = f.to; break;
            case CONDREROUTE: if (m.dst % 2 == f.cond % 2) e.ep = f.to; break;
            case DROP: dropped = dropped || m.tag == f.cond; break;
            case CLONE: clones.push_back(&f); break;
            default: break;
        }
    }
    for (auto* f : clones) {
        for (int d : f->deliver) {
            out.push_back(Exp{d, m.t, m.id, {}, true, false, false, m.dst, m.src});  // copies are taken before anything else happens
        }
    }
    if (dropped) return;
    // destination side
    for (int hop = 0; hop < 3; ++hop) {
        bool moved = false;
        for (auto& f : c.flts) {
            if (f.kind == CLONE || std::find(f.dst.begin(), f.dst.end(), e.ep) == f.dst.end()) continue;
            if (f.kind == APPEND) e.tags.push_back(static_cast<int>(&f - c.flts.data()));
            if (f.kind == DELAY || f.kind == RDELAY) e.t += f.delay;
            if (f.kind == DROP && m.tag == f.cond) return;
            if (f.kind == REROUTE && e.ep != f.to) { e.ep = f.to; moved = true; }
            break;
        }
        if (!moved) break;
    }
    for (auto& f : c.flts) {
        if (f.kind != CLONE || std::find(f.dst.begin(), f.dst.end(), e.ep) == f.dst.end()) continue;
        for (int d : f.deliver) {
            Exp x = e;
            x.ep = d;
            x.clone = true;
            out.push_back(x);
        }
    }
    out.push_back(e);
}

std::string show(const Exp& e, const Case& c)
{
    std::string s = "m" + I(e.id) + " to " + c.eps[e.ep].name + " at " + std::to_string(static_cast<double>(e.t)) + (e.clone ? " (clone)" : "") + " tags";
    for (int t : e.tags) s += " " + I(t);
    return s;
}

std::shared_ptr<FilterOperator> oper(const Flt& f, int idx)
{
    if (f.kind == APPEND) {
        if (idx % 3 == 0) {
            return std::make_shared<MessageDataOperator>([idx](SmallBuffer& b) { b.append("#" + I(idx)); });
        }
        return std::make_shared<CustomMessageOperator>([idx](std::unique_ptr<Message> m) {
            m->data.append("#" + I(idx));
            return m;
        });
    }
    // DROP
    int cond = f.cond;
    if (idx % 2) {
        return std::make_shared<CustomMessageOperator>([cond](std::unique_ptr<Message> m) {
            return m->data.to_string().find("|t" + I(cond) + "|") != std::string::npos ? nullptr : std::move(m);
        });
    }
    return std::make_shared<MessageConditionalOperator>([cond](const Message* m) { return m->data.to_string().find("|t" + I(cond) + "|") == std::string::npos; });
}

void setup(Case& c, Rng& r, CombinationFederate& f, int me, std::vector<Endpoint*>& out)
{
    out.assign(c.eps.size(), nullptr);
    for (size_t k = 0; k < c.eps.size(); ++k) {
        if (c.eps[k].fed == me) out[k] = c.eps[k].target >= 0 ? &f.registerGlobalEndpoint(c.eps[k].name, "") : &f.registerGlobalEndpoint(c.eps[k].name);
    }
    for (size_t k = 0; k < c.flts.size(); ++k) {
        auto& F = c.flts[k];
        if (F.fed != me) continue;
        auto vis = F.global ? InterfaceVisibility::GLOBAL : InterfaceVisibility::LOCAL;
        Filter* p = nullptr;
        switch (F.kind) {
            case CLONE: {
                auto& cf = make_cloning_filter(vis, FilterTypes::CLONE, &f, "", F.name);
                for (int d : F.deliver) cf.addDeliveryEndpoint(c.eps[d].name);
                if (r.chance(30)) {  // one too many, taken back
                    cf.addDeliveryEndpoint("nowhere");
                    cf.removeDeliveryEndpoint("nowhere");
                }
                p = &cf;
            } break;
            case DELAY:
                p = &make_filter(vis, FilterTypes::DELAY, &f, F.name);
                if (r.chance(50)) p->set("delay", static_cast<double>(F.delay));
                else p->setString("delay", I(F.delay.getBaseTimeCode()) + " ns");
                break;
            case RDELAY:
                p = &make_filter(vis, FilterTypes::RANDOM_DELAY, &f, F.name);
                p->setString("distribution", "constant");
                p->set(r.chance(50) ? "param1" : "mean", static_cast<double>(F.delay));
                break;
            case REROUTE: case CONDREROUTE:
                p = &make_filter(vis, FilterTypes::REROUTE, &f, F.name);
                p->setString("newdestination", c.eps[F.to].name);
                if (F.kind == CONDREROUTE) p->setString("condition", F.cond % 2 ? "ep[0-9]*[13579]$" : "ep[0-9]*[02468]$");
                break;
            default:
                p = &(F.global ? f.registerGlobalFilter(F.name) : f.registerFilter(F.name));
                if (F.kind != NOOP) p->setOperator(oper(F, static_cast<int>(k)));
        }
        for (int e : F.src) p->addSourceTarget(c.eps[e].name);
        for (int e : F.dst) p->addDestinationTarget(c.eps[e].name);
    }
}

void fedCase(Rng& r, long idx)
{
    Case c;
    bool remote = vh::st().a.get("remote", 1) != 0;
    c.nf = static_cast<int>(2 + r(3));
    c.nc = static_cast<int>(1 + r(std::min(c.nf, static_cast<int>(vh::st().a.get("cores", 3)))));
    for (int i = 0; i < c.nf; ++i) {
        c.coreOf.push_back(i < c.nc ? i : static_cast<int>(r(c.nc)));
        c.period.push_back(Time(r.pick({1.0, 0.5, 2.0, 1.0})));
    }
    int ne = std::max(static_cast<int>(3 + r(4)), c.nf);
    for (int k = 0; k < ne; ++k) {
        Ep e;
        e.name = "ep" + I(k);
        e.fed = static_cast<int>(k < c.nf ? k : r(c.nf));
        e.sink = k >= ne - 2;
        c.eps.push_back(e);
    }
    int nflt = static_cast<int>(1 + r(5));
    std::vector<int> destTaken(ne, 0), moveTaken(ne, 0);
    for (int k = 0; k < nflt; ++k) {
        Flt f;
        f.name = "filt" + I(k);
        f.fed = static_cast<int>(r(c.nf));
        f.kind = static_cast<Kind>(r(NK));
        f.global = r.chance(50);
        f.delay = Time(r.pick({0.25, 1.0, 1.5, 0.000000001, 2.75, 0.0}));
        f.to = f.kind == REROUTE || f.kind == CONDREROUTE ? ne - 1 - static_cast<int>(r(2)) : -1;
        f.cond = static_cast<int>(r(3));
        if (f.kind == CLONE) {
            f.deliver.push_back(ne - 1 - static_cast<int>(r(2)));
            if (r.chance(30)) f.deliver.push_back(f.deliver[0] == ne - 1 ? ne - 2 : ne - 1);
        }
        for (int e = 0; e < ne - 2; ++e) {
            bool same = c.coreOf[c.eps[e].fed] == c.coreOf[f.fed];
            if (!same && !remote) continue;
            if (r.chance(35)) {
                if (f.kind == REROUTE || f.kind == CONDREROUTE) {
                    if (moveTaken[e]++) continue;
                }
                f.src.push_back(e);
            }
            if (r.chance(20) && f.kind != CONDREROUTE) {
                if (f.kind != CLONE && destTaken[e]++) continue;
                f.dst.push_back(e);
            }
        }
        c.flts.push_back(f);
    }
    std::string tag = "fl" + I(getpid()) + "_" + I(idx) + "_";
    std::string bn = tag + "b";
    auto brk = BrokerFactory::create(CoreType::TEST, bn, "-f " + I(c.nf) + " --log_level=no_print");
    std::vector<std::shared_ptr<Core>> cores;
    for (int k = 0; k < c.nc; ++k) {
        int n = static_cast<int>(std::count(c.coreOf.begin(), c.coreOf.end(), k));
        cores.push_back(CoreFactory::create(CoreType::TEST, tag + "c" + I(k), "--broker=" + bn + " -f " + I(n) + " --log_level=no_print"));
        cores.back()->connect();
    }
    std::vector<std::unique_ptr<CombinationFederate>> feds;
    std::vector<std::vector<Endpoint*>> ep(c.nf);
    for (int i = 0; i < c.nf; ++i) {
        FederateInfo fi(CoreType::TEST);
        fi.coreName = tag + "c" + I(c.coreOf[i]);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, c.period[i]);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE, true);
        feds.push_back(std::make_unique<CombinationFederate>("fed" + I(i), fi));
    }
    for (int i = 0; i < c.nf; ++i) {
        setup(c, r, *feds[i], i, ep[i]);
    }
    Time sendEnd(6.0), tEnd(28.0);
    std::vector<std::vector<Sent>> sent(c.nf);
    std::vector<std::vector<Got>> got(c.nf);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < c.nf; ++i) seeds.push_back(r.next());
    auto at = std::make_shared<std::vector<std::atomic<int64_t>>>(c.nf);
    vh::st().onHang = [c, at, brk, cores]() {
        std::string s;
        for (auto& a : *at) s += " " + std::to_string(static_cast<double>(a.load()) / 1e9);
        return "granted" + s + " | " + c.desc();
    };
    std::vector<std::thread> th;
    std::atomic<int> fails{0};
    std::string failText;
    std::mutex fm;
    for (int i = 0; i < c.nf; ++i) {
        th.emplace_back([&, i]() {
            try {
                Rng q(seeds[i]);
                feds[i]->enterExecutingMode();
                Time g = timeZero;
                long n = 0;
                int order = 0;
                while (true) {
                    if (g <= sendEnd) {
                        int cnt = static_cast<int>(q(3));
                        for (int m = 0; m < cnt; ++m) {
                            std::vector<int> own;
                            for (size_t k = 0; k + 2 < c.eps.size(); ++k) {
                                if (c.eps[k].fed == i) own.push_back(static_cast<int>(k));
                            }
                            if (own.empty()) break;
                            Sent s;
                            s.id = i * 1000 + n++;
                            s.src = q.pick(own);
                            s.dst = static_cast<int>(q(c.eps.size() - 2));
                            s.t = g;
                            s.tag = static_cast<int>(q(3));
                            s.body = "m" + I(s.id) + "|t" + I(s.tag) + "|" + std::string(q(40), 'x');
                            ep[i][s.src]->sendTo(s.body, c.eps[s.dst].name);
                            sent[i].push_back(s);
                        }
                    }
                    if (q.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(q(300)));
                    if (g >= tEnd) break;
                    g = feds[i]->requestNextStep();
                    (*at)[i] = g.getBaseTimeCode();
                    vh::progress();
                    for (size_t k = 0; k < c.eps.size(); ++k) {
                        if (!ep[i][k]) continue;
                        while (auto m = ep[i][k]->getMessage()) {
                            got[i].push_back(Got{static_cast<int>(k), g, m->time, std::string(m->data.to_string()), std::string(m->source), std::string(m->original_source), std::string(m->dest), std::string(m->original_dest), order++});
                        }
                    }
                }
                (*at)[i] = 1000000000000LL;
                feds[i]->finalize();
                (*at)[i] = 2000000000000LL;
            }
            catch (const std::exception& e) {
                std::lock_guard<std::mutex> l(fm);
                failText += "fed" + I(i) + ": " + e.what() + "; ";
                ++fails;
                try { feds[i]->finalize(); } catch (...) {}
            }
        });
    }
    for (auto& t : th) t.join();
    vh::stat("federations");
    if (fails) {
        bad("call-failed", failText + " | " + c.desc());
    } else {
        // ---- the verdict
        struct Slot { Exp e; int used{0}; };
        std::vector<Slot> slots;
        std::map<long, Sent> byId;
        for (auto& v : sent)
            for (auto& m : v) {
                std::vector<Exp> x;
                byId[m.id] = m;
                expectOf(c, m, x);
                for (auto& e : x) slots.push_back({e, 0});
            }
        vh::stat("messages", static_cast<long long>(byId.size()));
        long clones = 0, moved = 0;
        for (int i = 0; i < c.nf; ++i) {
            for (auto& g : got[i]) {
                vh::stat("deliveries");
                if (getenv("SHOW")) vh::line("  f" + I(i) + " " + std::to_string(static_cast<double>(g.grant)) + " " + g.data + " at " + std::to_string(static_cast<double>(g.time)) + " " + g.source + ">" + g.dest + "/" + g.odest);
                auto bar = g.data.find('|');
                if (g.data.empty() || g.data[0] != 'm' || bar == std::string::npos) { bad("strange-message", g.data + " | " + c.desc()); continue; }
                long id = atol(g.data.c_str() + 1);
                auto fnd = byId.find(id);
                if (fnd == byId.end()) { bad("strange-message", g.data + " | " + c.desc()); continue; }
                auto& m = fnd->second;
                std::vector<int> tags;
                if (g.data.compare(0, m.body.size(), m.body) != 0) { bad("content", g.data + " instead of " + m.body + " | " + c.desc()); continue; }
                std::string rest = g.data.substr(m.body.size());
                for (size_t p = 0; p < rest.size();) {
                    auto q = rest.find('#', p + 1);
                    tags.push_back(atoi(rest.c_str() + p + 1));
                    if (q == std::string::npos) break;
                    p = q;
                }
                auto what = "m" + I(id) + " sent at " + std::to_string(static_cast<double>(m.t)) + " from " + c.eps[m.src].name + " to " + c.eps[m.dst].name + ": received by " + c.eps[g.ep].name + " at " + std::to_string(static_cast<double>(g.grant)) + " with time " + std::to_string(static_cast<double>(g.time)) + " data " + g.data + " source " + g.source + "/" + g.osource + " dest " + g.dest + "/" + g.odest;
                Slot* best = nullptr;
                int bestScore = -1;
                for (auto& s : slots) {
                    if (s.e.id != id || s.e.ep != g.ep || s.used) continue;
                    auto st = s.e.tags;
                    std::sort(st.begin(), st.end());
                    auto gt = tags;
                    std::sort(gt.begin(), gt.end());
                    int score = (st == gt ? 4 : 0) + (s.e.t == g.time ? 2 : 0) + (s.e.tolerant ? 0 : 1);
                    if (score > bestScore) { bestScore = score; best = &s; }
                }
                if (!best) { bad("extra-delivery", what + " | " + c.desc()); continue; }
                best->used = 1;
                auto st = best->e.tags;
                std::sort(st.begin(), st.end());
                auto gt = tags;
                std::sort(gt.begin(), gt.end());
                if (!best->e.tolerant) {
                    if (st != gt) bad("filters-applied", what + " expected " + show(best->e, c) + " | " + c.desc());
                    if (best->e.t != g.time) bad("time", what + " expected " + show(best->e, c) + " | " + c.desc());
                } else {
                    if (std::adjacent_find(gt.begin(), gt.end()) != gt.end() || !std::includes(st.begin(), st.end(), gt.begin(), gt.end())) bad("clone-filters", what + " | " + c.desc());
                    if (g.time < m.t || g.time > best->e.t) bad("clone-time", what + " | " + c.desc());
                }
                if (g.time > g.grant) bad("early", what + " | " + c.desc());
                if (g.ep == m.dst && vh::st().a.get("late", 1) && g.grant - c.period[i] > g.time && g.grant > c.period[i]) bad("late", what + " | " + c.desc());
                if (g.osource != c.eps[m.src].name) bad("original-source", what + " | " + c.desc());
                if (g.dest != c.eps[g.ep].name) bad("destination", what + " | " + c.desc());
                if (g.ep != m.dst && g.odest != c.eps[m.dst].name) bad("original-destination", what + " | " + c.desc());
                if (best->e.clone) ++clones;
                if (g.ep != m.dst) ++moved;
            }
        }
        for (auto& s : slots) {
            if (!s.used && !s.e.optional) bad(s.e.clone ? "lost-clone" : "lost-message", show(s.e, c) + " | " + c.desc());
        }
        vh::stat("clones delivered", clones);
        vh::stat("messages delivered elsewhere", moved);
        vh::stat("checked", static_cast<long long>(slots.size()));
        for (auto& f : c.flts) vh::stat(std::string("filters ") + kn[f.kind]);
        uint64_t h = 0;
        for (auto& v : got)
            for (auto& g : v) h = vh::mix(h, vh::hashStr(g.data + "@" + I(g.ep) + I(g.grant.getBaseTimeCode())));
        vh::distinct(h);
        if (idx < 2) vh::sample(c.desc());
    }
    ep.clear();
    feds.clear();
    for (auto& k : cores) k->disconnect();
    cores.clear();
    brk->disconnect();
    brk->waitForDisconnect(std::chrono::milliseconds(4000));
    brk.reset();
    cleanupHelicsLibrary();
}
}  // namespace
#include "filt_ops.inc"
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](Rng& r, long i) {
        if (vh::st().a.profile == "ops") opsCase(r, i);
        else fedCase(r, i);
    });
}
