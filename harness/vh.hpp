// Common harness support: deterministic PRNG, result file, watchdog, case loop.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1): s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // 0..n-1
    uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>((*this)(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int pct) { return static_cast<int>((*this)(100)) < pct; }
    double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
    template<class C>
    auto& pick(C& c)
    {
        return c[(*this)(c.size())];
    }
    template<class T>
    T pick(std::initializer_list<T> c)
    {
        return *(c.begin() + (*this)(c.size()));
    }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ULL));
    return r.next();
}
inline uint64_t hashStr(std::string_view s)
{
    uint64_t h = 1469598103934665603ULL;
    for (char c : s) {
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    }
    return h;
}
struct Args {
    uint64_t seed{1};
    long cases{10};
    long only{-1};
    bool thorough{false};
    bool verbose{false};
    std::string out;
    std::string profile;
    int watchdog{60};
    std::map<std::string, std::string> extra;
    long get(const std::string& k, long d) const
    {
        auto f = extra.find(k);
        return f == extra.end() ? d : std::stol(f->second);
    }
};
struct State {
    Args a;
    std::mutex m;
    std::map<std::string, long long> stats;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::set<std::string> violKeys;
    long violations{0};
    FILE* f{nullptr};
    std::atomic<long> curCase{-1};
    std::atomic<int64_t> lastProgress{0};
    std::string status;
    std::function<std::string()> onHang;
};
inline State& st()
{
    static State* s = new State;
    return *s;
}
inline std::string esc(std::string_view v, size_t mx = 3000)
{
    std::string o;
    for (char c : v.substr(0, mx)) {
        if (c == '\n') {
            o += "\\n";
        } else if (c == '\t') {
            o += "\\t";
        } else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c));
            o += b;
        } else {
            o += c;
        }
    }
    return o;
}
inline int64_t nowMs()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline void progress() { st().lastProgress = nowMs(); }
inline void line(const std::string& s)
{
    std::lock_guard<std::mutex> l(st().m);
    if (st().f) {
        fputs((s + "\n").c_str(), st().f);
        fflush(st().f);
    }
    if (st().a.verbose) {
        fputs((s + "\n").c_str(), stderr);
    }
}
/** report a violation of PROPERTY; key identifies the kind of failure (stable across runs)*/
inline void viol(const std::string& prop, const std::string& key, const std::string& detail)
{
    {
        std::lock_guard<std::mutex> l(st().m);
        ++st().violations;
        if (!st().violKeys.insert(prop + key).second || st().violKeys.size() > 60) {
            return;
        }
    }
    line("VIOL\t" + prop + "\t" + key + "\t" + std::to_string(st().curCase.load()) + "\t" + esc(detail));
}
inline void stat(const std::string& k, long long n = 1)
{
    std::lock_guard<std::mutex> l(st().m);
    st().stats[k] += n;
}
inline void distinct(uint64_t h)
{
    std::lock_guard<std::mutex> l(st().m);
    if (st().distinct.size() < 4000000) {
        st().distinct.insert(h);
    }
}
inline void sample(const std::string& s)
{
    std::lock_guard<std::mutex> l(st().m);
    if (st().samples.size() < 3) {
        st().samples.push_back(s);
    }
}
inline void inconclusive(const std::string& why) { line("INCONC\t" + std::to_string(st().curCase.load()) + "\t" + esc(why)); }

inline Args parse(int argc, char** argv)
{
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (s == "--seed") {
            a.seed = std::stoull(nx());
        } else if (s == "--cases") {
            a.cases = std::stol(nx());
        } else if (s == "--only") {
            a.only = std::stol(nx());
        } else if (s == "--thorough") {
            a.thorough = true;
        } else if (s == "-v") {
            a.verbose = true;
        } else if (s == "--out") {
            a.out = nx();
        } else if (s == "--profile") {
            a.profile = nx();
        } else if (s == "--watchdog") {
            a.watchdog = std::stoi(nx());
        } else if (s.rfind("--", 0) == 0) {
            auto v = nx();
            a.extra[s.substr(2)] = v;
        }
    }
    return a;
}
inline void flushStats()
{
    std::string o;
    for (auto& [k, v] : st().stats) {
        line("STAT\t" + k + "\t" + std::to_string(v));
    }
    std::lock_guard<std::mutex> l(st().m);
    for (auto& s : st().samples) {
        fputs(("SAMPLE\t" + esc(s) + "\n").c_str(), st().f);
    }
    for (auto h : st().distinct) {
        fprintf(st().f, "D %llx\n", static_cast<unsigned long long>(h));
    }
    fflush(st().f);
}
/** runs fn(rng, index) for each case; each case has its own seed derived from (seed, index)*/
inline int run(int argc, char** argv, const std::function<void(Rng&, long)>& fn, const std::function<void()>& atEnd = {})
{
    auto& S = st();
    S.a = parse(argc, argv);
    S.f = S.a.out.empty() ? stdout : fopen(S.a.out.c_str(), "w");
    if (!S.f) {
        perror("out");
        return 3;
    }
    progress();
    std::thread([&S]() {
        for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(500));
            if (nowMs() - S.lastProgress > 1000LL * S.a.watchdog) {
                std::string d = S.onHang ? S.onHang() : S.status;
                if (S.f) {
                    fprintf(S.f, "HANG\t%ld\t%s\n", S.curCase.load(), esc(d).c_str());
                    fflush(S.f);
                }
                _exit(86);
            }
        }
    }).detach();
    long b = 0, e = S.a.cases;
    if (S.a.only >= 0) {
        b = S.a.only;
        e = b + 1;
    }
    for (long i = b; i < e; ++i) {
        S.curCase = i;
        progress();
        line("CASE\t" + std::to_string(i));
        Rng r(mix(S.a.seed, static_cast<uint64_t>(i) + 77));
        fn(r, i);
        stat("cases");
    }
    progress();
    if (atEnd) {
        atEnd();
    }
    flushStats();
    line("DONE");
    fclose(S.f);
    fflush(nullptr);
    _exit(0);
}
}  // namespace vh
