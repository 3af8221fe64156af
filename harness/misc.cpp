// C21: message timers and real time federates.  C22: log routing, log buffers, remote logs.
#include "vh.hpp"

#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/ValueFederate.hpp"
#include "helics/common/LogBuffer.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/LogManager.hpp"
#include "helics/core/MessageTimer.hpp"
#include "helics/core/helics_definitions.hpp"
#include "helics/common/logging.hpp"
#include "helics/core/core-exceptions.hpp"
#include "nlohmann/json.hpp"

#include <algorithm>
#include <deque>
#include <fstream>
#include <sys/stat.h>

using namespace helics;
using vh::Rng;
using namespace std::chrono_literals;
using clk = std::chrono::steady_clock;

namespace {
std::string T;  // trace
void bad(const std::string& k, const std::string& d) { vh::viol("*", k, d + (T.empty() ? "" : "\nops: " + T.substr(0, 2500))); }
std::string S(double d) { char b[40]; snprintf(b, sizeof b, "%.6g", d); return b; }
double since(clk::time_point a, clk::time_point b) { return std::chrono::duration<double, std::milli>(b - a).count(); }

// ------------------------------------------------------------------------------------------------ timers
struct Armed {  // one message put into a timer
    int id;
    int timer;
    clk::time_point notBefore;       // it must not be delivered before this time (earliest expiry in force at delivery)
    clk::time_point certainBy;       // latest expiry in force: must be delivered some time after
    clk::time_point armedAt;         // start of the call that put it there
    clk::time_point removedAt;       // end of the call that cancelled/replaced it
    bool removed{false};             // cancelled or replaced
    bool sureRemoved{false};         // the removal finished before it could have been due
    bool armedTimer{true};           // a running timer goes with it
};
struct Delivery {
    int id;
    int timer;
    clk::time_point at;
};
void timerCase(Rng& r, long)
{
    T.clear();
    struct Shared {
        std::mutex m;
        std::vector<Delivery> got;
    };
    auto sh = std::make_shared<Shared>();
    int slowCb = r.chance(15) ? static_cast<int>(r(3)) + 1 : 0;
    bool thrower = r.chance(20);
    auto mt = std::make_shared<MessageTimer>([sh, slowCb, thrower](ActionMessage&& m) {
        auto now = clk::now();
        {
            std::lock_guard<std::mutex> l(sh->m);
            sh->got.push_back({m.messageID, m.counter, now});
            if (m.action() != CMD_PING || m.payload.to_string() != "m" + std::to_string(m.messageID)) vh::viol("*", "timer-content", "message " + std::to_string(m.messageID) + " arrived changed");
        }
        if (slowCb) std::this_thread::sleep_for(std::chrono::milliseconds(slowCb));
        if (thrower && m.messageID % 5 == 0) throw std::runtime_error("from callback");
    });
    int nthreads = r.pick({1, 1, 2, 4});
    std::atomic<int> nextId{1};
    std::mutex am;
    std::vector<std::vector<Armed>> all(nthreads);
    std::vector<std::string> traces(nthreads);
    auto body = [&](int th, Rng q) {
        auto& arm = all[th];
        auto& tr = traces[th];
        std::vector<int> timers;     // ids owned by this thread
        std::map<int, int> current;  // timer -> index of the message in it (or -1)
        auto mk = [&](int timer) {
            ActionMessage m(CMD_PING);
            m.messageID = nextId++;
            m.counter = static_cast<uint16_t>(timer < 0 ? 9999 : timer);
            m.payload = "m" + std::to_string(m.messageID);
            return m;
        };
        auto dur = [&]() { return std::chrono::microseconds(q.chance(15) ? -static_cast<long>(q(3000)) : q.chance(60) ? static_cast<long>(q(6000)) : static_cast<long>(q(40000))); };
        // a message leaves the timer by cancel/replace between t0 and t1
        auto leaves = [&](int idx, clk::time_point t1) {
            if (idx < 0) return;
            auto& a = arm[idx];
            if (a.removed) return;
            a.removed = true;
            a.removedAt = t1;
            a.sureRemoved = t1 < a.notBefore;
        };
        int ops = static_cast<int>(q.range(5, 40));
        for (int i = 0; i < ops; ++i) {
            vh::stat("timer_operations");
            int op = timers.empty() ? 0 : static_cast<int>(q(9));
            auto t0 = clk::now();
            if (op == 0) {
                auto m = mk(-1);
                auto d = dur();
                int id = m.messageID;
                bool rel = q.chance(50);
                auto exp = t0 + d;
                int t = rel ? mt->addTimerFromNow(d, std::move(m)) : mt->addTimer(exp, std::move(m));
                auto t1 = clk::now();
                arm.push_back({id, t, exp, rel ? t1 + d : exp, t0, {}, false, false, true});
                if (std::find(timers.begin(), timers.end(), t) != timers.end()) vh::viol("*", "timer-index", "index " + std::to_string(t) + " given out twice");
                timers.push_back(t);
                current[t] = static_cast<int>(arm.size()) - 1;
                tr += "add" + std::to_string(t) + "(" + std::to_string(d.count()) + "us #" + std::to_string(id) + ") ";
            } else {
                int t = q.pick(timers);
                int cur = current[t];
                switch (op) {
                    case 1: {
                        mt->cancelTimer(t);
                        leaves(cur, clk::now());
                        current[t] = -1;
                        tr += "cancel" + std::to_string(t) + " ";
                    } break;
                    case 2:
                    case 3: {  // new time and message
                        auto m = mk(t);
                        auto d = dur();
                        int id = m.messageID;
                        bool rel = q.chance(50);
                        auto exp = t0 + d;
                        if (rel) mt->updateTimerFromNow(t, d, std::move(m));
                        else mt->updateTimer(t, exp, std::move(m));
                        auto t1 = clk::now();
                        leaves(cur, t1);
                        arm.push_back({id, t, exp, rel ? t1 + d : exp, t0, {}, false, false, true});
                        current[t] = static_cast<int>(arm.size()) - 1;
                        tr += "upd" + std::to_string(t) + "(" + std::to_string(d.count()) + "us #" + std::to_string(id) + ") ";
                    } break;
                    case 4:
                    case 5: {  // new time, same message
                        auto d = dur();
                        bool add = q.chance(50);
                        clk::time_point exp;
                        bool ok;
                        if (add) {
                            if (d.count() < 0) d = -d;
                            ok = mt->addTimeToTimer(t, d);
                            exp = cur >= 0 ? arm[cur].notBefore + d : t0;
                        } else {
                            exp = t0 + d;
                            ok = mt->updateTimer(t, exp);
                        }
                        auto t1 = clk::now();
                        tr += (add ? "ext" : "time") + std::to_string(t) + "(" + std::to_string(d.count()) + "us)=" + std::to_string(ok) + " ";
                        if (cur < 0 || arm[cur].removed) {
                            if (ok && cur < 0) vh::viol("*", "timer-update-cancelled", "updating the time of a cancelled timer reports success: " + tr);
                        } else if (ok) {
                            // still there: the new time is in force now
                            auto& a = arm[cur];
                            if (!a.armedTimer) a.armedTimer = true;
                            a.notBefore = exp;
                            a.certainBy = add ? a.certainBy + d : exp;
                            vh::stat("timer_rescheduled");
                        } else if (t1 < arm[cur].notBefore && arm[cur].armedTimer) {
                            vh::viol("*", "timer-update-refused", "updating the time of a pending timer reports failure: " + tr);
                        } else if (!add) {
                            arm[cur].notBefore = std::min(arm[cur].notBefore, exp);
                        }
                    } break;
                    case 6: {  // new message, same time
                        auto m = mk(t);
                        int id = m.messageID;
                        mt->updateMessage(t, std::move(m));
                        auto t1 = clk::now();
                        if (cur >= 0 && !arm[cur].removed && t1 < arm[cur].notBefore && arm[cur].armedTimer) {
                            auto nb = arm[cur].notBefore;
                            auto cb = arm[cur].certainBy;
                            leaves(cur, t1);
                            arm.push_back({id, t, nb, cb, t0, {}, false, false, true});
                            current[t] = static_cast<int>(arm.size()) - 1;
                        } else {
                            // the timer ran already (or is about to): the message may or may not go out; forget about this timer
                            auto nb = cur >= 0 ? std::min(t0, arm[cur].notBefore) : t0;
                            leaves(cur, t1);
                            arm.push_back({id, t, nb, nb, t0, {}, true, false, false});
                            current.erase(t);
                            timers.erase(std::find(timers.begin(), timers.end(), t));
                        }
                        tr += "msg" + std::to_string(t) + "(#" + std::to_string(id) + ") ";
                    } break;
                    case 7: std::this_thread::sleep_for(std::chrono::microseconds(q(4000))); break;
                    case 8:
                        if (q.chance(50)) {
                            mt->cancelTimer(q.pick({-1, -7, 100000}));
                            if (mt->updateTimer(-1, clk::now()) || mt->addTimeToTimer(1000000, 1ms)) vh::viol("*", "timer-bad-index", "a timer that does not exist was updated");
                            mt->updateMessage(-2, ActionMessage(CMD_PING));
                            mt->updateTimer(-3, clk::now(), ActionMessage(CMD_PING));
                        } else if (nthreads == 1 && q.chance(20)) {
                            mt->cancelAll();
                            auto t1 = clk::now();
                            for (auto& c : current) {
                                leaves(c.second, t1);
                                c.second = -1;
                            }
                            tr += "cancelAll ";
                        } else {
                            // out-of-turn call: sends nothing that is not due
                            try {
                                mt->sendMessage(t);
                            }
                            catch (const std::runtime_error&) {
                            }
                            tr += "send" + std::to_string(t) + " ";
                        }
                        break;
                }
            }
        }
    };
    {
        std::vector<std::thread> ths;
        for (int i = 1; i < nthreads; ++i) ths.emplace_back(body, i, Rng(r.next()));
        body(0, Rng(r.next()));
        for (auto& t : ths) t.join();
    }
    bool endEarly = r.chance(15);
    clk::time_point cancelled{};
    if (endEarly) {
        mt->cancelAll();
        cancelled = clk::now();
    }
    // wait until everything pending was delivered
    clk::time_point last = clk::now();
    std::map<int, Armed> byId;
    for (int i = 0; i < nthreads; ++i) {
        T += "[" + std::to_string(i) + "] " + traces[i];
        for (auto& a : all[i]) {
            if (endEarly && !a.removed) {
                a.removed = true;
                a.sureRemoved = cancelled < a.notBefore;
            }
            if (!a.removed) last = std::max(last, a.certainBy);
            byId[a.id] = a;
        }
    }
    auto pendingIds = [&]() {
        std::set<int> want;
        for (auto& a : byId)
            if (!a.second.removed) want.insert(a.first);
        std::lock_guard<std::mutex> l(sh->m);
        for (auto& g : sh->got) want.erase(g.id);
        return want;
    };
    auto limit = std::max(last, clk::now()) + 8s;
    while (!pendingIds().empty() && clk::now() < limit) {
        std::this_thread::sleep_for(200us);
        vh::progress();
    }
    std::this_thread::sleep_until(std::min(last + 3ms, clk::now() + 60ms));
    auto missing = pendingIds();
    if (!missing.empty()) bad("timer-lost", "message " + std::to_string(*missing.begin()) + " was due and never sent");
    mt->cancelAll();
    std::vector<Delivery> got;
    {
        std::lock_guard<std::mutex> l(sh->m);
        got = sh->got;
    }
    std::set<int> seen;
    uint64_t h = nthreads;
    for (auto& g : got) {
        vh::stat("timer_messages_sent");
        auto a = byId.find(g.id);
        if (a == byId.end()) {
            bad("timer-unknown", "a message never given was sent: " + std::to_string(g.id));
            continue;
        }
        if (!seen.insert(g.id).second) bad("timer-twice", "message " + std::to_string(g.id) + " was sent twice");
        if (g.at < a->second.notBefore) bad("timer-early", "message " + std::to_string(g.id) + " was sent " + S(since(g.at, a->second.notBefore)) + " ms before its time");
        if (a->second.sureRemoved) bad("timer-cancelled-sent", "message " + std::to_string(g.id) + " was sent although cancelled or replaced before its time");
        h = vh::mix(h, static_cast<uint64_t>(g.timer) * 131 + (a->second.removed ? 1 : 0));
    }
    vh::stat("timer_messages_armed", static_cast<long long>(byId.size()));
    vh::distinct(vh::hashStr(T));
    if (byId.size() > 20) vh::sample(T.substr(0, 300));
}

// a federate in real time mode
void realtimeCase(Rng& r, long idx)
{
    std::string tag = std::to_string(getpid()) + "_" + std::to_string(idx);
    double lag = r.pick({0.0, 0.02, 0.05});
    double lead = r.pick({0.0, 0.02, 0.05});
    bool tol = r.chance(30);
    bool slow = r.chance(50);
    double step = r.pick({0.01, 0.02, 0.05});
    double period = r.pick({0.0, 0.0, 0.01});
    T = "lag " + S(lag) + " lead " + S(lead) + " slow " + std::to_string(slow) + " step " + S(step) + (tol ? " tol" : "");
    for (int attempt = 0; attempt < 3; ++attempt) {
        std::string t2 = tag + "_" + std::to_string(attempt);
        bool retry = false;
        {
            auto brk = BrokerFactory::create(CoreType::TEST, "rb" + t2, "-f 2 --log_level=no_print");
            auto core = CoreFactory::create(CoreType::TEST, "rc" + t2, "--broker=rb" + t2 + " -f 2 --log_level=no_print");
            FederateInfo fi(CoreType::TEST);
            fi.coreName = "rc" + t2;
            fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
            ValueFederate B("B" + t2, fi);
            fi.setFlagOption(HELICS_FLAG_REALTIME, true);
            if (tol) {
                fi.setProperty(HELICS_PROPERTY_TIME_RT_TOLERANCE, lead);
                lag = lead;
            } else {
                fi.setProperty(HELICS_PROPERTY_TIME_RT_LAG, lag);
                fi.setProperty(HELICS_PROPERTY_TIME_RT_LEAD, lead);
            }
            if (period > 0) fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, period);
            ValueFederate A("A" + t2, fi);
            auto& pb = B.registerGlobalPublication<double>("pb" + t2);
            auto& sa = A.registerSubscription("pb" + t2);
            auto& pa = A.registerGlobalPublication<double>("pa" + t2);
            auto& sb = B.registerSubscription("pa" + t2);
            (void)sa;
            (void)sb;
            std::atomic<bool> woke{false};
            // B is late by a lot in wall-clock time when slow
            int sleepMs = slow ? 900 * (attempt * 3 + 1) : 0;
            std::thread bt([&]() {
                B.enterExecutingMode();
                if (sleepMs) std::this_thread::sleep_for(std::chrono::milliseconds(sleepMs));
                woke = true;
                for (int i = 1; i <= 6; ++i) {
                    pb.publish(i * 1.5);
                    B.requestTime(i * step);
                }
                B.finalize();
            });
            auto t0 = clk::now();
            A.enterExecutingMode();
            Time prev = timeZero;
            for (int i = 1; i <= 5; ++i) {
                pa.publish(i * 1.0);
                Time want = i * step;
                Time g = A.requestTime(want);
                double wall = since(t0, clk::now()) / 1000.0;
                vh::stat("realtime_grants");
                vh::progress();
                if (static_cast<double>(g) - lead > wall + 0.0065) bad("realtime-ahead", "granted " + S(static_cast<double>(g)) + " after " + S(wall) + " s of real time (lead " + S(lead) + ")");
                if (g < prev || g > want + Time(0.0000001)) {
                    if (period == 0) bad("realtime-grant", "asked " + S(static_cast<double>(want)) + " granted " + S(static_cast<double>(g)) + " after " + S(static_cast<double>(prev)));
                }
                if (slow && woke && i == 1 && wall * 1000 >= sleepMs) {
                    if (attempt < 2) retry = true;
                    else bad("realtime-lag", "waited " + S(wall) + " s of real time for time " + S(static_cast<double>(want)) + " with a lag limit of " + S(lag));
                }
                if (slow && i == 1 && !woke) vh::stat("realtime_forced_grants");
                prev = g;
            }
            A.finalize();
            bt.join();
            brk->waitForDisconnect(3000ms);
            core.reset();
            brk.reset();
        }
        cleanupHelicsLibrary();
        if (!retry) break;
    }
    vh::distinct(vh::hashStr(T));
}

// ------------------------------------------------------------------------------------------------ log buffer
using Rec = std::tuple<int, std::string, std::string>;
std::vector<Rec> content(const LogBuffer& b)
{
    std::vector<Rec> v;
    b.process([&](int l, std::string_view h, std::string_view m) { v.emplace_back(l, std::string(h), std::string(m)); });
    return v;
}
void logBufferCase(Rng& r, long idx)
{
    T.clear();
    size_t cap = r.pick({0, 1, 2, 3, 10, 25});
    auto b = r.chance(50) ? std::make_unique<LogBuffer>(cap) : std::make_unique<LogBuffer>();
    if (b->capacity() != cap) {
        if (b->capacity() != 0) bad("logbuf-default", "a default buffer holds " + std::to_string(b->capacity()));
        b->resize(cap);
    }
    std::deque<Rec> model;
    int ops = static_cast<int>(r.range(5, 60));
    int n = 0;
    for (int i = 0; i < ops; ++i) {
        vh::stat("log_operations");
        switch (r(8)) {
            case 0:
                cap = r.pick({0, 1, 2, 3, 5, 10, 11, 30});
                b->resize(cap);
                T += "resize" + std::to_string(cap) + " ";
                break;
            case 1: {
                bool on = r.chance(60);
                b->enable(on);
                if (!on) cap = 0;
                else if (cap == 0) cap = LogBuffer::cDefaultBufferSize;
                T += on ? "on " : "off ";
            } break;
            default: {
                int k = r.chance(20) ? static_cast<int>(r(30)) : 1;
                for (int j = 0; j < k; ++j) {
                    Rec x{static_cast<int>(r.range(-10, 40)), "h" + std::to_string(++n), std::string(r(r.chance(90) ? 40 : 5000), 'x') + std::to_string(n)};
                    b->push(std::get<0>(x), std::get<1>(x), std::get<2>(x));
                    if (cap) model.push_back(x);
                    while (model.size() > cap) model.pop_front();
                }
                T += "push*" + std::to_string(k) + " ";
            }
        }
        while (model.size() > cap) model.pop_front();
        auto c = content(*b);
        if (b->capacity() != cap) bad("logbuf-capacity", "capacity " + std::to_string(b->capacity()) + " instead of " + std::to_string(cap));
        if (c.size() != model.size() || b->size() != model.size() || !std::equal(c.begin(), c.end(), model.begin())) {
            bad("logbuf-content", std::to_string(c.size()) + " entries, expected " + std::to_string(model.size()) + (c.empty() ? "" : " newest " + std::get<1>(c.back())));
            return;
        }
        nlohmann::json js;
        bufferToJson(*b, js);
        if (js["logs"].size() != model.size()) bad("logbuf-json", "json holds " + std::to_string(js["logs"].size()));
        else
            for (size_t q = 0; q < model.size(); ++q)
                if (js["logs"][q]["level"] != std::get<0>(model[q]) || js["logs"][q]["header"] != std::get<1>(model[q]) || js["logs"][q]["message"] != std::get<2>(model[q]))
                    bad("logbuf-json", "entry " + std::to_string(q) + " differs");
    }
    b->process(nullptr);
    vh::distinct(vh::hashStr(T));
    // concurrent writers, a reader and resizes
    {
        size_t c2 = r.pick({1, 2, 7, 20});
        LogBuffer lb(c2);
        bool resizer = r.chance(60);
        size_t maxCap = resizer ? 20 : c2;
        std::atomic<bool> stop{false};
        int writers = static_cast<int>(r.range(1, 3));
        int per = 200;
        std::vector<std::thread> th;
        for (int w = 0; w < writers; ++w)
            th.emplace_back([&lb, w, per]() {
                for (int k = 0; k < per; ++k) lb.push(w, "w" + std::to_string(w), std::to_string(k));
            });
        std::thread rd([&]() {
            while (!stop) {
                auto c = content(lb);
                if (c.size() > maxCap) vh::viol("*", "logbuf-overfull", "a buffer of " + std::to_string(maxCap) + " holds " + std::to_string(c.size()));
                std::map<int, int> lastOf;
                for (auto& x : c) {
                    int k = std::stoi(std::get<2>(x));
                    auto f = lastOf.find(std::get<0>(x));
                    if (f != lastOf.end() && k <= f->second) vh::viol("*", "logbuf-order", "messages of one writer are out of order");
                    lastOf[std::get<0>(x)] = k;
                    vh::stat("log_entries_read_concurrently");
                }
            }
        });
        std::thread rz;
        uint64_t sd = r.next();
        if (resizer)
            rz = std::thread([&lb, sd, &stop]() {
                Rng q(sd);
                for (int k = 0; k < 400 && !stop; ++k) {
                    if (q.chance(30)) lb.enable(q.chance(50));
                    else lb.resize(q(21));
                }
            });
        for (auto& t : th) t.join();
        stop = true;
        rd.join();
        if (rz.joinable()) rz.join();
        if (!resizer) {
            auto c = content(lb);
            if (c.size() != std::min<size_t>(c2, static_cast<size_t>(writers * per))) bad("logbuf-concurrent", "holds " + std::to_string(c.size()) + " of " + std::to_string(c2));
            // the newest messages: for each writer a gap-free run (ending with its last message if it has any)
            std::map<int, int> nxt;
            for (auto& x : c) {
                int k = std::stoi(std::get<2>(x));
                auto f = nxt.find(std::get<0>(x));
                if (f != nxt.end() && f->second != k) bad("logbuf-concurrent", "a message in the middle is missing");
                nxt[std::get<0>(x)] = k + 1;
            }
            for (auto& x : nxt)
                if (x.second != per) bad("logbuf-concurrent", "the newest message of a writer is missing");
        } else {
            size_t cp = lb.capacity();
            if (lb.size() > cp) bad("logbuf-overfull", "capacity " + std::to_string(cp) + " but holds " + std::to_string(lb.size()));
            for (int k = 0; k < 30; ++k) lb.push(9, "z", std::to_string(1000 + k));
            auto c = content(lb);
            if (c.size() != std::min<size_t>(cp, std::max<size_t>(c.size(), std::min<size_t>(30, cp))) || (cp && std::get<2>(c.back()) != "1029")) bad("logbuf-after-resize", "capacity " + std::to_string(cp) + " holds " + std::to_string(c.size()));
        }
    }
}

// ------------------------------------------------------------------------------------------------ log manager
std::string dir()
{
    static const std::string d = []() {
        std::string s = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/vmisc" + std::to_string(getpid());
        mkdir(s.c_str(), 0700);
        return s;
    }();
    return d;
}
void logManagerCase(Rng& r, long idx)
{
    T.clear();
    static const std::vector<int> lv{-10, -4, 0, 1, 2, 3, 4, 6, 9, 12, 15, 18, 21, 24, 25, 30};
    struct Sent {
        int dest, level;
        std::string h, m;
        bool operator==(const Sent& o) const { return dest == o.dest && level == o.level && h == o.h && m == o.m; }
    };
    std::vector<Rec> called, wantCalled;
    std::vector<Sent> sent, wantSent;
    std::vector<std::string> wantFile;
    std::deque<Rec> buf;
    int con = 3, fil = 3;
    size_t cap = 0;
    std::vector<std::pair<int, int>> remotes;
    std::string file = dir() + "/l" + std::to_string(idx) + ".log";
    bool useFile = r.chance(40);
    bool cb = !useFile;
    std::string id = "lm" + std::to_string(getpid()) + "_" + std::to_string(idx);
    std::vector<std::string> files;
    std::map<std::string, std::vector<std::string>> inFile;
    std::string curFile;
    {
        LogManager lm;
        lm.setTransmitCallback([&](ActionMessage&& m) {
            if (m.action() != CMD_REMOTE_LOG) bad("remote-kind", "a remote log left as something else");
            sent.push_back({m.dest_id.baseValue(), m.messageID, m.getString(0), std::string(m.payload.to_string())});
        });
        auto callback = [&](int l, std::string_view h, std::string_view m) { called.emplace_back(l, std::string(h), std::string(m)); };
        if (cb) lm.setLoggerFunction(callback);
        lm.initializeLogging(id);
        if (useFile) {
            lm.setLogLevels(con = HELICS_LOG_LEVEL_NO_PRINT - 100, fil = 3);
            lm.setLoggingFile(curFile = file, id);
            files.push_back(file);
        }
        int ops = static_cast<int>(r.range(5, 60));
        for (int i = 0; i < ops; ++i) {
            vh::stat("log_operations");
            switch (r(10)) {
                case 0:
                    if (useFile) {
                        fil = r.pick(lv);
                    } else if (r.chance(50)) {
                        con = fil = r.pick(lv);
                        lm.setLogLevel(con);
                        T += "lvl" + std::to_string(con) + " ";
                        break;
                    } else {
                        con = r.pick(lv);
                        fil = r.pick(lv);
                    }
                    lm.setLogLevels(con, fil);
                    T += "lvls" + std::to_string(con) + "," + std::to_string(fil) + " ";
                    break;
                case 1: {
                    int d = static_cast<int>(r(3)) + 0x20001;
                    int l = r.pick(lv);
                    lm.updateRemote(GlobalFederateId(d), l);
                    auto f = std::find_if(remotes.begin(), remotes.end(), [&](auto& x) { return x.first == d; });
                    if (f == remotes.end()) remotes.emplace_back(d, l);
                    else f->second = l;
                    T += "remote" + std::to_string(d) + "@" + std::to_string(l) + " ";
                } break;
                case 2:
                    cap = r(6);
                    lm.getLogBuffer().resize(cap);
                    while (buf.size() > cap) buf.pop_front();
                    T += "buf" + std::to_string(cap) + " ";
                    break;
                case 3:
                    if (useFile && r.chance(40)) {
                        curFile = r.chance(20) ? std::string() : dir() + "/l" + std::to_string(idx) + "_" + std::to_string(i) + ".log";
                        if (!curFile.empty()) files.push_back(curFile);
                        try {
                            lm.setLoggingFile(curFile, id);
                        }
                        catch (const std::exception& e) {
                            bad("logfile-change", std::string("changing the log file failed: ") + e.what());
                            return;
                        }
                        T += "file ";
                    }
                    break;
                default: {
                    int level = r.pick(lv);
                    bool fromRemote = r.chance(15);
                    bool always = r.chance(10);
                    std::string h = "src" + std::to_string(r(5));
                    std::string m = "msg" + std::to_string(i) + std::string(r(r.chance(90) ? 30 : 900), 'y') + (r.chance(10) ? "{} %s {0}" : "");
                    int arg = always ? level + static_cast<int>(LogLevels::FED) : level;
                    int mx = std::max(con, fil);
                    for (auto& x : remotes) mx = std::max(mx, x.second);
                    lm.sendToLogger(arg, h, m, fromRemote);
                    vh::stat("log_messages");
                    T += "log" + std::to_string(level) + (fromRemote ? "r" : "") + (always ? "a" : "") + " ";
                    bool all = always || fromRemote;
                    if (level > mx && !all) break;
                    if (lm.getMaxLevel() != mx) bad("log-maxlevel", "the level is " + std::to_string(lm.getMaxLevel()) + " but should be " + std::to_string(mx));
                    if (cap) {
                        buf.emplace_back(level, h, m);
                        while (buf.size() > cap) buf.pop_front();
                    }
                    if (!fromRemote)
                        for (auto& x : remotes)
                            if (x.second >= level) wantSent.push_back({x.first, level, h, m});
                    if (cb) {
                        if (con >= level || fil >= level || all) wantCalled.emplace_back(level, h, m);
                    } else if (!curFile.empty() && (fil >= level || all)) {
                        inFile[curFile].push_back(level == HELICS_LOG_LEVEL_DUMPLOG ? m : h + "::" + m);
                    }
                }
            }
            if (called != wantCalled) {
                bad("log-callback", "the callback received " + std::to_string(called.size()) + " messages, expected " + std::to_string(wantCalled.size()));
                return;
            }
            if (!(sent == wantSent)) {
                std::string d = std::to_string(sent.size()) + " remote messages, expected " + std::to_string(wantSent.size());
                if (sent.size() == wantSent.size() && !sent.empty()) d += "; last level " + std::to_string(sent.back().level) + " expected " + std::to_string(wantSent.back().level);
                bad("log-remote", d);
                return;
            }
            auto c = content(lm.getLogBuffer());
            if (c.size() != buf.size() || !std::equal(c.begin(), c.end(), buf.begin())) {
                bad("log-buffer", "the buffer holds " + std::to_string(c.size()) + ", expected " + std::to_string(buf.size()));
                return;
            }
        }
        lm.logFlush();
    }
    for (auto& f : files) {
        std::ifstream in(f);
        std::string line;
        std::vector<std::string> got;
        while (std::getline(in, line)) got.push_back(line);
        auto& w = inFile[f];
        bool ok = got.size() == w.size();
        for (size_t i = 0; ok && i < w.size(); ++i) ok = got[i].size() >= w[i].size() && got[i].compare(got[i].size() - w[i].size(), std::string::npos, w[i]) == 0;
        if (!ok) bad("log-file", "the log file has " + std::to_string(got.size()) + " lines, expected " + std::to_string(w.size()) + (got.empty() ? "" : ", last: " + got.back()));
        vh::stat("log_file_lines", static_cast<long long>(got.size()));
        unlink(f.c_str());
    }
    vh::distinct(vh::hashStr(T));
}

// ------------------------------------------------------------------------------------------------ logs in a federation
std::string logLevelName(int l)
{
    switch (l) {
        case 0: return "error";
        case 3: return "warning";
        case 6: return "summary";
        case 9: return "connections";
        case 12: return "interfaces";
        case 15: return "timing";
        case 18: return "data";
        case 21: return "debug";
        default: return "trace";
    }
}
void fedLogCase(Rng& r, long idx)
{
    T.clear();
    static const std::vector<int> lv{0, 1, 2, 3, 6, 9, 12, 15, 18, 21, 24};
    static const std::vector<int> setlv{-4, 0, 3, 6, 9, 12, 15, 18, 21, 24};
    std::string tag = std::to_string(getpid()) + "_" + std::to_string(idx);
    bool two = r.chance(60);
    struct Log {
        std::mutex m;
        std::vector<Rec> v;
        void add(int l, std::string_view h, std::string_view t)
        {
            std::lock_guard<std::mutex> g(m);
            v.emplace_back(l, std::string(h), std::string(t));
        }
        std::vector<Rec> get()
        {
            std::lock_guard<std::mutex> g(m);
            return v;
        }
    };
    auto la = std::make_shared<Log>(), lb = std::make_shared<Log>(), lc = std::make_shared<Log>();
    int LA = r.pick(setlv), LB = r.pick(setlv), LC = r.pick(setlv);
    int remote = r.chance(60) ? r.pick(setlv) : -100;
    int remoteCore = r.chance(40) ? r.pick(setlv) : -100;
    int bufSize = r.chance(60) ? static_cast<int>(r.range(1, 30)) : 0;
    T = "levels A " + std::to_string(LA) + " B " + std::to_string(LB) + " core " + std::to_string(LC) + " remote " + std::to_string(remote) + "/" + std::to_string(remoteCore) + " buffer " + std::to_string(bufSize) + (two ? " two cores" : "");
    std::vector<std::pair<int, std::string>> ownA, ownB, ownC;  // level, text
    std::vector<std::pair<int, std::string>> remoteB, remoteC;  // logged while the subscription held
    std::vector<Rec> bufB;
    bool haveBuf = false;
    {
        auto brk = BrokerFactory::create(CoreType::TEST, "lb" + tag, "-f 2 --log_level=no_print");
        auto core = CoreFactory::create(CoreType::TEST, "lc" + tag, "--broker=lb" + tag + (two ? " -f 1" : " -f 2") + " --log_level=no_print");
        auto core2 = two ? CoreFactory::create(CoreType::TEST, "ld" + tag, "--broker=lb" + tag + " -f 1 --log_level=no_print") : core;
        core2->setLoggingCallback(gLocalCoreId, [lc](int l, std::string_view h, std::string_view t) { lc->add(l, h, t); });
        core2->setLoggingLevel(LC);
        FederateInfo fi(CoreType::TEST);
        fi.coreName = "lc" + tag;
        ValueFederate A("A" + tag, fi);
        fi.coreName = two ? "ld" + tag : "lc" + tag;
        ValueFederate B("B" + tag, fi);
        A.setLoggingCallback([la](int l, std::string_view h, std::string_view t) { la->add(l, h, t); });
        B.setLoggingCallback([lb](int l, std::string_view h, std::string_view t) { lb->add(l, h, t); });
        A.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, LA);
        B.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, LB);
        if (bufSize) B.setProperty(HELICS_PROPERTY_INT_LOG_BUFFER, bufSize);
        if (bufSize && B.getIntegerProperty(HELICS_PROPERTY_INT_LOG_BUFFER) != bufSize) bad("log-property", "log buffer size reads " + std::to_string(B.getIntegerProperty(HELICS_PROPERTY_INT_LOG_BUFFER)));
        if (B.getIntegerProperty(HELICS_PROPERTY_INT_LOG_LEVEL) != LB) bad("log-property", "log level reads " + std::to_string(B.getIntegerProperty(HELICS_PROPERTY_INT_LOG_LEVEL)) + " set " + std::to_string(LB));
        A.registerGlobalPublication<double>("pa" + tag);
        B.registerGlobalPublication<double>("pb" + tag);
        A.registerSubscription("pb" + tag);
        B.registerSubscription("pa" + tag);
        int n = 0;
        auto own = [&](Federate& f, std::vector<std::pair<int, std::string>>& v, Rng& q) {
            int l = q.pick(lv);
            std::string t = "#" + f.getName() + ":" + std::to_string(v.size()) + ":" + std::string(q(q.chance(90) ? 20 : 3000), 'z');
            switch (q(6)) {
                case 0:
                    if (l <= 0) { f.logErrorMessage(t); l = HELICS_LOG_LEVEL_ERROR; break; }
                    [[fallthrough]];
                case 1:
                    if (l == 3) { f.logWarningMessage(t); break; }
                    if (l == 6) { f.logInfoMessage(t); break; }
                    if (l == 21) { f.logDebugMessage(t); break; }
                    [[fallthrough]];
                default: f.logMessage(l, t);
            }
            v.emplace_back(l, t);
            vh::stat("log_messages");
        };
        (void)n;
        int before = static_cast<int>(r(4));
        Rng qb(r.next()), qa(r.next());
        for (int i = 0; i < before; ++i) own(B, ownB, qb);
        A.enterExecutingModeAsync();
        B.enterExecutingMode();
        A.enterExecutingModeComplete();
        double now = 0;
        auto step = [&]() {
            now += 1;
            A.requestTimeAsync(now);
            B.requestTime(now);
            A.requestTimeComplete();
            vh::progress();
        };
        step();
        if (remote > -100 || remoteCore > -100) {
            auto subscribe = [&](const std::string& who, int level) {
                A.sendCommand(who, level == -4 ? "remotelog stop" : "remotelog " + (qa.chance(50) ? std::to_string(level) : logLevelName(level)));
                A.sendCommand(who, "echo");
                std::string rep;
                for (int k = 0; k < 200 && rep.empty(); ++k) {
                    step();
                    auto c = A.getCommand();
                    rep = c.first;
                    if (rep.empty()) std::this_thread::sleep_for(1ms);
                }
                if (rep != "echo_reply") bad("log-echo", "no answer to echo from " + who + ": \"" + rep + "\"");
            };
            if (remote > -100) {
                if (r.chance(40)) subscribe(B.getName(), r.pick(setlv));
                subscribe(B.getName(), remote);
            }
            if (remoteCore > -100) subscribe(core2->getIdentifier(), remoteCore);
        }
        size_t b0 = ownB.size();
        int rounds = static_cast<int>(r.range(1, 4));
        for (int i = 0; i < rounds; ++i) {
            int k = static_cast<int>(r(8));
            for (int j = 0; j < k; ++j) {
                own(B, ownB, qb);
                if (r.chance(50)) own(A, ownA, qa);
                if (r.chance(40)) {
                    int l = r.pick(lv);
                    std::string t = "#core:" + std::to_string(ownC.size());
                    core2->logMessage(gLocalCoreId, l, t);
                    ownC.emplace_back(l, t);
                }
            }
            step();
        }
        remoteB.assign(ownB.begin() + static_cast<long>(b0), ownB.end());
        remoteC = ownC;
        step();
        step();
        if (bufSize) {
            auto js = A.query(B.getName(), "logs");
            try {
                auto j = nlohmann::json::parse(js);
                for (auto& x : j["logs"]) bufB.emplace_back(x["level"].get<int>(), x["header"].get<std::string>(), x["message"].get<std::string>());
                haveBuf = true;
            }
            catch (const std::exception&) {
                bad("log-query", "the logs query returned " + js);
            }
        }
        A.finalizeAsync();
        B.finalize();
        A.finalizeComplete();
        brk->waitForDisconnect(3000ms);
        core2->setLoggingCallback(gLocalCoreId, nullptr);
    }
    cleanupHelicsLibrary();
    auto mine = [&](const std::vector<Rec>& v, const std::string& pre) {
        std::vector<std::pair<int, std::string>> o;
        for (auto& x : v)
            if (std::get<2>(x).rfind(pre, 0) == 0) o.emplace_back(std::get<0>(x), std::get<2>(x));
        return o;
    };
    auto filt = [&](const std::vector<std::pair<int, std::string>>& v, int level) {
        std::vector<std::pair<int, std::string>> o;
        for (auto& x : v)
            if (x.first <= level) o.push_back(x);
        return o;
    };
    auto cmp = [&](const char* key, const std::string& what, const std::vector<std::pair<int, std::string>>& got, const std::vector<std::pair<int, std::string>>& want) {
        vh::stat("log_messages_checked", static_cast<long long>(want.size()));
        if (got == want) return;
        std::string d = what + ": got " + std::to_string(got.size()) + " messages, expected " + std::to_string(want.size());
        for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
            if (i >= got.size() || i >= want.size() || got[i] != want[i]) {
                if (i < got.size()) d += "; got level " + std::to_string(got[i].first) + " " + got[i].second.substr(0, 40);
                if (i < want.size()) d += "; expected level " + std::to_string(want[i].first) + " " + want[i].second.substr(0, 40);
                break;
            }
        }
        bad(key, d);
    };
    auto va = la->get(), vb = lb->get(), vc = lc->get();
    cmp("fedlog-own", "own log of A", mine(va, "#A"), filt(ownA, LA));
    cmp("fedlog-own", "own log of B", mine(vb, "#B"), filt(ownB, LB));
    cmp("fedlog-core", "log of the core", mine(vc, "#core"), filt(ownC, LC));
    cmp("fedlog-remote", "log of B at A", mine(va, "#B"), remote > -100 ? filt(remoteB, remote == -4 ? -100 : remote) : std::vector<std::pair<int, std::string>>{});
    cmp("fedlog-remote-core", "log of the core at A", mine(va, "#core"), remoteCore > -100 ? filt(remoteC, remoteCore == -4 ? -100 : remoteCore) : std::vector<std::pair<int, std::string>>{});
    for (auto& x : vb)
        if (std::get<2>(x).rfind("#B", 0) == 0 && std::get<1>(x).find("B" + tag) == std::string::npos) bad("fedlog-source", "a message of B has the source \"" + std::get<1>(x) + "\"");
    for (auto& x : va)
        if (std::get<2>(x).rfind("#B", 0) == 0 && std::get<1>(x).find("B" + tag) == std::string::npos) bad("fedlog-source", "a message of B at A has the source \"" + std::get<1>(x) + "\"");
    for (auto& x : vb)
        if (std::get<0>(x) > LB) bad("fedlog-level", "B, at level " + std::to_string(LB) + ", logged: level " + std::to_string(std::get<0>(x)) + " " + std::get<2>(x));
    if (haveBuf) {
        auto bm = mine(bufB, "#B");
        auto all = filt(ownB, std::max(LB, remote));
        vh::stat("log_buffers_checked");
        if (static_cast<int>(bufB.size()) > bufSize) bad("fedlog-buffer", "the buffer of " + std::to_string(bufSize) + " holds " + std::to_string(bufB.size()));
        bool ok = bm.size() <= all.size();
        if (remote <= LB) {
            for (size_t i = 0; ok && i < bm.size(); ++i) ok = bm[bm.size() - 1 - i] == all[all.size() - 1 - i];
            if (static_cast<int>(bufB.size()) < bufSize && bm.size() != all.size()) ok = false;
            if (!ok) bad("fedlog-buffer", "the buffer does not hold the newest messages: " + std::to_string(bm.size()) + " of " + std::to_string(all.size()));
        }
    }
    vh::distinct(vh::hashStr(T) ^ (ownB.size() * 977 + ownC.size()));
    vh::sample(T);
}
}  // namespace
int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](Rng& r, long i) {
        auto& p = vh::st().a.profile;
        if (p == "timer") timerCase(r, i);
        else if (p == "realtime") realtimeCase(r, i);
        else if (p == "logbuf") {
            logBufferCase(r, i);
            for (int k = 0; k < 5; ++k) logManagerCase(r, i * 10 + k);
        } else if (p == "fedlog") fedLogCase(r, i);
    });
}
