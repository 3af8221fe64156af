// Model-based runtime monitors for the self-contained data structures: SmallBuffer, UnknownHandleManager, ProfilerBuffer.
#include "vh.hpp"

#include "helics/core/ProfilerBuffer.hpp"
#include "helics/core/SmallBuffer.hpp"
#include "helics/core/UnknownHandleManager.hpp"
#include "helics/core/flagOperations.hpp"

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <new>
#include <sstream>
#include <sys/stat.h>

// ------------------------------------------------------------------ heap accounting (new[] only: what SmallBuffer owns)
static std::atomic<long> gLiveArrays{0};
void* operator new[](std::size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    ++gLiveArrays;
    return p;
}
void operator delete[](void* p) noexcept
{
    if (p) {
        --gLiveArrays;
        free(p);
    }
}
void operator delete[](void* p, std::size_t) noexcept { operator delete[](p); }

using helics::SmallBuffer;
using vh::Rng;

namespace {
struct Model {
    std::string data;
    bool locked{false};
    bool owned{false};  // holds heap memory it must free
    bool span{false};
    void* ext{nullptr};
    size_t cap{64};
    void* p{nullptr};  // expected data() if non-null
};
std::string P;  // property
std::string trace;
void bad(const std::string& key, const std::string& d) { vh::viol(P, key, d + "\nops: " + trace); }

std::string randData(Rng& r)
{
    static const std::vector<size_t> sz{0, 1, 2, 7, 31, 55, 56, 57, 62, 63, 64, 65, 66, 71, 72, 73, 80, 127, 128, 129, 136, 137, 255, 256, 300, 1000, 4096, 5000};
    size_t n = r.chance(70) ? r.pick(sz) : r(r.chance(90) ? 200 : 70000);
    std::string s(n, '\0');
    uint64_t x = r.next();
    for (auto& c : s) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        c = static_cast<char>(x >> 56);
    }
    return s;
}
std::string show(const std::string& s)
{
    std::string o = "[" + std::to_string(s.size()) + "]";
    for (size_t i = 0; i < s.size() && i < 12; ++i) {
        char b[4];
        snprintf(b, 4, "%02x", static_cast<unsigned char>(s[i]));
        o += b;
    }
    return o;
}
void verify(const char* where, SmallBuffer& b, const Model& m)
{
    vh::stat("smallbuffer_state_checks");
    if (b.size() != m.data.size()) {
        bad("smallbuffer-size", std::string(where) + " size " + std::to_string(b.size()) + " expected " + std::to_string(m.data.size()));
        return;
    }
    if (b.empty() != m.data.empty()) {
        bad("smallbuffer-empty", where);
    }
    if (b.capacity() < b.size()) {
        bad("smallbuffer-capacity-below-size", where);
        return;
    }
    if (m.cap && b.capacity() < m.cap) {
        bad("smallbuffer-capacity-shrank", std::string(where) + " capacity " + std::to_string(b.capacity()) + " expected at least " + std::to_string(m.cap));
    }
    if (m.span && b.capacity() != m.cap) {
        bad("smallbuffer-span-capacity", std::string(where) + " capacity " + std::to_string(b.capacity()) + " given " + std::to_string(m.cap));
    }
    std::string_view v = b.to_string();
    if (v != m.data) {
        size_t i = 0;
        while (i < v.size() && v[i] == m.data[i]) {
            ++i;
        }
        bad("smallbuffer-content", std::string(where) + " differs at " + std::to_string(i) + " of " + std::to_string(v.size()) + " expected " + show(m.data));
        return;
    }
    if (b.end() - b.begin() != static_cast<ptrdiff_t>(m.data.size()) || reinterpret_cast<const char*>(b.data()) != b.char_data() ||
        b.begin() != b.data()) {
        bad("smallbuffer-accessors", where);
    }
    if (b.isLocked() != m.locked) {
        bad("smallbuffer-lock", std::string(where) + " locked=" + std::to_string(b.isLocked()));
    }
    if (m.p && b.data() != m.p) {
        bad("smallbuffer-relocated", std::string(where) + " storage moved although it had room or was locked");
    }
    // the capacity it reports must really be there (ASan traps otherwise); the bytes are restored
    if (b.capacity() > b.size() && b.capacity() < 1000000) {
        std::byte* q = b.data() + b.capacity() - 1;
        std::byte old = *q;
        *q = std::byte{0x5a};
        *q = old;
    }
}

void smallbuf(Rng& r, long)
{
    P = "C19";
    long live0 = gLiveArrays;
    trace.clear();
    uint64_t shape = 7;
    {
        constexpr int N = 3;
        std::vector<std::unique_ptr<SmallBuffer>> b(N);
        std::vector<Model> m(N);
        std::vector<std::string> spans;  // user memory handed out with spanAssign, with guard bytes
        std::vector<std::unique_ptr<std::vector<unsigned char>>> mem;
        auto fresh = [&](int i, std::unique_ptr<SmallBuffer> nb, std::string d) {
            b[i] = std::move(nb);
            m[i] = Model{};
            m[i].data = std::move(d);
            m[i].cap = std::max<size_t>(64, m[i].data.size());
        };
        for (int i = 0; i < N; ++i) {
            fresh(i, std::make_unique<SmallBuffer>(), "");
        }
        int ops = 20 + static_cast<int>(r(80));
        for (int k = 0; k < ops; ++k) {
            int i = static_cast<int>(r(N)), j = static_cast<int>(r(N));
            SmallBuffer& B = *b[i];
            Model& M = m[i];
            int op = static_cast<int>(r(30));
            vh::stat("smallbuffer_operations");
            size_t oldcap = B.capacity();
            std::byte* oldp = B.data();
            char tb[64];
            snprintf(tb, sizeof tb, "%d:%d,%d ", op, i, j);
            trace += tb;
            if (trace.size() > 1500) {
                trace.erase(0, 700);
            }
            shape = vh::mix(shape, static_cast<uint64_t>(op * 16 + (M.locked ? 8 : 0) + (M.span ? 4 : 0) + (M.data.size() > 64 ? 2 : 0) + (i == j)));
            // tries an operation that needs capacity `need`; a locked buffer must refuse with bad_alloc and stay as it was
            auto grow = [&](size_t need, const std::function<void()>& f, const std::function<void()>& onModel, const char* name) {
                bool threw = false;
                try {
                    f();
                }
                catch (const std::bad_alloc&) {
                    threw = true;
                }
                bool expect = M.locked && need > oldcap;
                if (threw != expect) {
                    bad(expect ? "smallbuffer-locked-grew" : "smallbuffer-spurious-badalloc", name);
                }
                if (!threw) {
                    onModel();
                    if (need > oldcap) {
                        if (B.data() == oldp && M.p) {
                            bad("smallbuffer-grew-in-place", name);
                        }
                        M.span = false;
                        M.p = nullptr;
                        M.cap = need;
                    } else {
                        M.p = oldp;
                        M.cap = oldcap;
                    }
                }
                verify(name, B, M);
                M.p = nullptr;
            };
            switch (op) {
                case 0: {
                    auto d = randData(r);
                    fresh(i, std::make_unique<SmallBuffer>(d), d);
                } break;
                case 1: {
                    auto d = randData(r);
                    fresh(i, std::make_unique<SmallBuffer>(d.data(), d.size()), d);
                } break;
                case 2: {
                    size_t n = randData(r).size();
                    auto c = static_cast<unsigned char>(r(256));
                    if (r.chance(50)) {
                        fresh(i, std::make_unique<SmallBuffer>(n, c), std::string(n, static_cast<char>(c)));
                    } else {
                        fresh(i, std::make_unique<SmallBuffer>(n, std::byte{c}), std::string(n, static_cast<char>(c)));
                    }
                } break;
                case 3: {  // copy construct
                    if (i != j) {
                        fresh(i, std::make_unique<SmallBuffer>(*b[j]), m[j].data);
                    }
                } break;
                case 4: {  // move construct
                    if (i != j && !m[j].locked) {
                        std::byte* src = b[j]->data();
                        Model mj = m[j];
                        size_t cj = b[j]->capacity();
                        bool heap = src < reinterpret_cast<std::byte*>(b[j].get()) ||
                            src >= reinterpret_cast<std::byte*>(b[j].get()) + sizeof(SmallBuffer);
                        b[i] = std::make_unique<SmallBuffer>(std::move(*b[j]));
                        m[i] = mj;
                        m[i].cap = heap ? cj : 64;
                        m[i].p = heap ? src : nullptr;
                        m[j] = Model{};
                        verify("moved-from", *b[j], m[j]);
                        verify("move-ctor", *b[i], m[i]);
                        m[i].p = nullptr;
                    }
                } break;
                case 5: {  // copy assign
                    grow(m[j].data.size(), [&] { B = *b[j]; }, [&] { M.data = m[j].data; }, "copy-assign");
                    verify("copy-assign-source", *b[j], m[j]);
                } break;
                case 6: {  // move assign
                    if (i == j) {
                        break;
                    }
                    if (M.locked) {
                        // a locked buffer keeps its storage and copies; when it does not fit it is unchanged and flags an error
                        bool fits = m[j].data.size() <= oldcap;
                        int e0 = B.errorState();
                        B = std::move(*b[j]);
                        if (fits) {
                            M.data = m[j].data;
                        } else if (B.errorState() == 0) {
                            bad("smallbuffer-locked-move-no-error", "error state not raised");
                        }
                        if (fits && B.errorState() != e0) {
                            bad("smallbuffer-locked-move-error", "error state raised for data which fits");
                        }
                        M.p = oldp;
                        verify("locked-move-assign", B, M);
                        M.p = nullptr;
                        verify("locked-move-assign-source", *b[j], m[j]);
                    } else {
                        Model mj = m[j];
                        size_t cj = b[j]->capacity();
                        B = std::move(*b[j]);
                        M = mj;
                        M.cap = mj.span || cj > 64 || cj < mj.cap ? cj : 0;
                        m[j] = Model{};
                        verify("move-assign", B, M);
                        verify("move-assign-source", *b[j], m[j]);
                    }
                } break;
                case 7: {
                    auto d = randData(r);
                    grow(d.size(), [&] { B = d; }, [&] { M.data = d; }, "string-assign");
                } break;
                case 8: {
                    auto d = randData(r);
                    grow(d.size(), [&] { B.assign(d.data(), d.size()); }, [&] { M.data = d; }, "assign");
                } break;
                case 9: {
                    auto d = randData(r);
                    grow(d.size(), [&] { B.assign(d.data(), d.data() + d.size()); }, [&] { M.data = d; }, "assign-range");
                } break;
                case 10:
                case 11: {
                    auto d = randData(r);
                    auto nd = M.data + d;
                    int how = static_cast<int>(r(3));
                    grow(nd.size(), [&] {
                        if (how == 0) {
                            B.append(d.data(), d.size());
                        } else if (how == 1) {
                            B.append(d.data(), d.data() + d.size());
                        } else {
                            B.append(d);
                        }
                    }, [&] { M.data = nd; }, "append");
                } break;
                case 12: {
                    char c = static_cast<char>(r(256));
                    grow(M.data.size() + 1, [&] { B.push_back(c); }, [&] { M.data.push_back(c); }, "push_back");
                } break;
                case 13:
                    B.pop_back();
                    if (!M.data.empty()) {
                        M.data.pop_back();
                    }
                    break;
                case 14: {
                    size_t n = randData(r).size();
                    size_t keep = std::min(n, M.data.size());
                    grow(n, [&] {
                        B.resize(n);
                        for (size_t q = keep; q < n; ++q) {
                            B[q] = std::byte{0x33};
                        }
                    }, [&] { M.data.resize(n, 0x33); }, "resize");
                } break;
                case 15: {
                    size_t n = randData(r).size();
                    auto c = static_cast<unsigned char>(r(256));
                    grow(n, [&] { B.resize(n, std::byte{c}); }, [&] { M.data.resize(n, static_cast<char>(c)); }, "resize-fill");
                } break;
                case 16: {
                    size_t n = randData(r).size();
                    grow(n, [&] { B.reserve(n); }, [&] {}, "reserve");
                    if (!M.locked && B.capacity() < n) {
                        bad("smallbuffer-reserve-insufficient", std::to_string(n));
                    }
                } break;
                case 17: {  // absurd size: refused, untouched
                    bool threw = false;
                    try {
                        if (r.chance(50)) {
                            B.reserve(0x020'0000'0000ULL + r(1000));
                        } else {
                            B.resize(0x7FFF'FFFF'FFFF'0000ULL);
                        }
                    }
                    catch (const std::bad_alloc&) {
                        threw = true;
                    }
                    if (!threw) {
                        bad("smallbuffer-absurd-size-accepted", "");
                    }
                    M.p = oldp;
                    verify("absurd", B, M);
                    M.p = nullptr;
                } break;
                case 18:
                    B.clear();
                    M.data.clear();
                    break;
                case 19: {
                    bool l = r.chance(50);
                    if (l) {
                        B.lock();
                    } else {
                        B.lock(false);
                    }
                    M.locked = l;
                } break;
                case 20: {
                    grow(M.data.size() == oldcap ? M.data.size() + 1 : M.data.size(), [&] { B.null_terminate(); }, [&] {}, "null_terminate");
                    if (!M.locked || M.data.size() < oldcap) {
                        if (B.capacity() <= B.size() || B.char_data()[B.size()] != '\0') {
                            bad("smallbuffer-not-terminated", "");
                        }
                    }
                } break;
                case 21: {  // span of user memory with guards
                    size_t cap = r.chance(50) ? r(40) : r(300);
                    auto v = std::make_unique<std::vector<unsigned char>>(cap + 16, static_cast<unsigned char>(0xEE));
                    size_t n = r(cap + 1);
                    for (size_t q = 0; q < n; ++q) {
                        (*v)[8 + q] = static_cast<unsigned char>(r(256));
                    }
                    B.spanAssign(v->data() + 8, n, cap);
                    M = Model{};
                    M.data.assign(reinterpret_cast<char*>(v->data()) + 8, n);
                    M.span = true;
                    M.cap = cap;
                    M.p = v->data() + 8;
                    verify("spanAssign", B, M);
                    M.p = nullptr;
                    mem.push_back(std::move(v));
                } break;
                case 22: {  // hand over heap memory
                    size_t cap = 1 + r(300);
                    size_t n = r(cap + 1);
                    auto* q = new std::byte[cap];
                    for (size_t z = 0; z < n; ++z) {
                        q[z] = static_cast<std::byte>(r(256));
                    }
                    M = Model{};
                    M.data.assign(reinterpret_cast<char*>(q), n);
                    B.moveAssign(q, n, cap);
                    M.cap = cap;
                    M.p = q;
                    verify("moveAssign", B, M);
                    M.p = nullptr;
                } break;
                case 23: {  // release
                    bool inl = oldp >= reinterpret_cast<std::byte*>(&B) && oldp < reinterpret_cast<std::byte*>(&B) + sizeof(SmallBuffer);
                    bool span = M.span;
                    auto* q = B.release();
                    if (inl) {
                        if (q != nullptr) {
                            bad("smallbuffer-release-inline", "");
                        }
                    } else {
                        if (q != oldp) {
                            bad("smallbuffer-release-pointer", "");
                        } else {
                            if (std::string(reinterpret_cast<char*>(q), M.data.size()) != M.data) {
                                bad("smallbuffer-release-content", "");
                            }
                            if (!span) {
                                delete[] q;
                            }
                        }
                        M = Model{};
                    }
                    verify("release", B, M);
                } break;
                case 24:
                case 25: {  // swap
                    if (i == j || M.locked || m[j].locked) {
                        break;
                    }
                    B.swap(*b[j]);
                    std::swap(m[i], m[j]);
                    verify("swap-a", *b[i], m[i]);
                    verify("swap-b", *b[j], m[j]);
                } break;
                case 26: {  // element access
                    size_t idx = r(M.data.size() + 3);
                    bool threw = false;
                    std::byte v{};
                    try {
                        v = r.chance(50) ? B.at(idx) : static_cast<const SmallBuffer&>(B).at(idx);
                    }
                    catch (const std::out_of_range&) {
                        threw = true;
                    }
                    if (threw != (idx >= M.data.size())) {
                        bad("smallbuffer-at-bounds", std::to_string(idx) + "/" + std::to_string(M.data.size()));
                    }
                    if (!threw && static_cast<char>(v) != M.data[idx]) {
                        bad("smallbuffer-at-value", "");
                    }
                    if (idx < M.data.size()) {
                        B[idx] = std::byte{0x11};
                        M.data[idx] = 0x11;
                    }
                } break;
                case 27: {  // inverted range refused
                    char x[4] = {0};
                    int n = 0;
                    try {
                        B.append(x + 3, x + 1);
                    }
                    catch (const std::invalid_argument&) {
                        ++n;
                    }
                    try {
                        B.assign(x + 3, x + 1);
                    }
                    catch (const std::invalid_argument&) {
                        ++n;
                    }
                    if (n != 2) {
                        bad("smallbuffer-inverted-range", "");
                    }
                } break;
                case 28: {
                    if ((B == *b[j]) != (M.data == m[j].data) || (B != *b[j]) == (M.data == m[j].data)) {
                        bad("smallbuffer-compare", show(M.data) + " vs " + show(m[j].data));
                    }
                } break;
                case 29: {  // userKey is carried data that nothing else touches
                    auto kx = static_cast<uint32_t>(r.next());
                    B.userKey = kx;
                    B.append("k", static_cast<size_t>(M.locked ? 0 : 1));
                    if (!M.locked) {
                        M.data += "k";
                        if (M.data.size() > oldcap) {
                            M.span = false;
                            M.cap = M.data.size();
                        }
                    }
                    if (B.userKey != kx) {
                        bad("smallbuffer-userkey", "");
                    }
                } break;
            }
            for (int x = 0; x < N; ++x) {
                for (int y = 0; y < N; ++y) {
                    auto* q = reinterpret_cast<std::byte*>(b[y].get());
                    if (x != y && b[x]->data() >= q && b[x]->data() < q + sizeof(SmallBuffer)) {
                        bad("smallbuffer-storage-inside-another", std::to_string(x) + " uses the storage of " + std::to_string(y));
                    }
                }
            }
            verify("after", *b[i], m[i]);
            if (i != j) {
                verify("after-other", *b[j], m[j]);
            }
            for (auto& v : mem) {
                for (int g = 0; g < 8; ++g) {
                    if ((*v)[g] != 0xEE || (*v)[v->size() - 1 - g] != 0xEE) {
                        bad("smallbuffer-span-overrun", "guard bytes around user memory changed");
                        (*v)[g] = (*v)[v->size() - 1 - g] = 0xEE;
                    }
                }
            }
        }
        for (int i = 0; i < N; ++i) {
            verify("end", *b[i], m[i]);
        }
        b.clear();
    }
    if (gLiveArrays != live0) {
        bad(gLiveArrays > live0 ? "smallbuffer-leak" : "smallbuffer-overfree", std::to_string(gLiveArrays - live0) + " arrays");
    }
    vh::distinct(shape);
    if (trace.size() < 800) {
        vh::sample("smallbuffer op:target,source sequence " + trace);
    }
}

// ------------------------------------------------------------------------------------------------------------------
void unkhandle(Rng& r, long)
{
    P = "C20";
    using namespace helics;
    using TI = UnknownHandleManager::TargetInfo;
    trace.clear();
    UnknownHandleManager u;
    struct E {
        std::string k;
        TI t;
        bool operator<(const E& o) const
        {
            return std::tie(k, t.second) < std::tie(o.k, o.t.second) ||
                (k == o.k && t.second == o.t.second && t.first < o.t.first);
        }
    };
    // 0 pub 1 input 2 ept 3 filter ; reconnectable the same
    std::vector<E> unk[4], rec[4];
    // 0 data links 1 endpoint links 2 source filter 3 destination filter
    std::vector<std::pair<std::string, std::string>> lnk[4];
    const InterfaceType ty[4] = {InterfaceType::PUBLICATION, InterfaceType::INPUT, InterfaceType::ENDPOINT, InterfaceType::FILTER};
    int names = 2 + static_cast<int>(r(5));
    auto name = [&]() {
        static const char* n[] = {"a", "", "pub/one", "fed0/in", "x y", "\xc3\xa9", "verylongname_verylongname_verylongname_verylongname", "A"};
        return std::string(n[r(names)]);
    };
    auto gh = [&]() { return GlobalHandle(GlobalFederateId(131072 + static_cast<int>(r(3))), InterfaceHandle(static_cast<int>(r(4)))); };
    auto fl = [&]() {
        uint16_t f = 0;
        if (r.chance(35)) {
            f |= make_flags(optional_flag);
        }
        if (r.chance(35)) {
            f |= make_flags(required_flag);
        }
        if (r.chance(30)) {
            f |= static_cast<uint16_t>(1U << r(16));
        }
        return f;
    };
    auto sorted = [](std::vector<TI> v) {
        std::sort(v.begin(), v.end(), [](const TI& a, const TI& b) {
            return a.first < b.first || (a.first == b.first && a.second < b.second);
        });
        return v;
    };
    auto pick = [&](const std::vector<E>& v, const std::string& k) {
        std::vector<TI> o;
        for (auto& e : v) {
            if (e.k == k) {
                o.push_back(e.t);
            }
        }
        return sorted(o);
    };
    auto eraseKey = [](auto& v, const std::string& k) {
        v.erase(std::remove_if(v.begin(), v.end(), [&](auto& e) { if constexpr (requires { e.k; }) { return e.k == k; } else { return e.first == k; } }), v.end());
    };
    uint64_t shape = 3;
    int ops = 10 + static_cast<int>(r(60));
    for (int q = 0; q < ops; ++q) {
        int op = static_cast<int>(r(12));
        int c = static_cast<int>(r(4));
        shape = vh::mix(shape, static_cast<uint64_t>(op * 4 + c));
        trace += std::to_string(op) + ":" + std::to_string(c) + " ";
        vh::stat("registry_operations");
        if (op <= 3) {
            auto k = name();
            TI t{gh(), fl()};
            if (c == 0) {
                u.addUnknownPublication(k, t.first, t.second);
            } else if (c == 1) {
                u.addUnknownInput(k, t.first, t.second);
            } else if (c == 2) {
                u.addUnknownEndpoint(k, t.first, t.second);
            } else {
                u.addUnknownFilter(k, t.first, t.second);
            }
            unk[c].push_back({k, t});
        } else if (op == 4) {
            auto k = name();
            TI t{gh(), fl()};
            if (c == 0) {
                u.addReconnectablePublication(k, t.first, t.second);
            } else if (c == 1) {
                u.addReconnectableInput(k, t.first, t.second);
            } else if (c == 2) {
                u.addReconnectableEndpoint(k, t.first, t.second);
            } else {
                u.addReconnectableFilter(k, t.first, t.second);
            }
            rec[c].push_back({k, t});
        } else if (op <= 6) {
            auto k = name();
            auto v = name();
            if (c == 0) {
                u.addDataLink(k, v);
            } else if (c == 1) {
                u.addEndpointLink(k, v);
            } else if (c == 2) {
                u.addSourceFilterLink(k, v);
            } else {
                u.addDestinationFilterLink(k, v);
            }
            lnk[c].emplace_back(k, v);
        } else if (op <= 8) {
            auto k = name();
            if (c == 0) {
                u.clearPublication(k);
                eraseKey(lnk[0], k);
            } else if (c == 1) {
                u.clearInput(k);
            } else if (c == 2) {
                u.clearEndpoint(k);
                eraseKey(lnk[1], k);
            } else {
                u.clearFilter(k);
                eraseKey(lnk[2], k);
                eraseKey(lnk[3], k);
            }
            eraseKey(unk[c], k);
        } else if (op == 9) {
            GlobalFederateId f(131072 + static_cast<int>(r(3)));
            u.clearFederateUnknowns(f);
            for (auto& v : unk) {
                v.erase(std::remove_if(v.begin(), v.end(), [&](auto& e) { return e.t.first.fed_id == f; }), v.end());
            }
        } else if (op == 10) {
            // predicate on (name, type, flags), must be asked about each entry exactly once with its own data
            std::vector<std::tuple<std::string, int, uint64_t, int>> asked, expect;
            auto salt = r.next();
            auto pred = [&](const std::string& k, InterfaceType t, const TI& i) {
                return (vh::mix(salt, vh::hashStr(k) + static_cast<uint64_t>(t) * 7 + static_cast<uint64_t>(i.first) + i.second) & 3) == 0;
            };
            u.clearUnknownsIf([&](const std::string& k, InterfaceType t, TI i) {
                asked.emplace_back(k, static_cast<int>(t), static_cast<uint64_t>(i.first), i.second);
                return pred(k, t, i);
            });
            for (int z = 0; z < 4; ++z) {
                for (auto& e : unk[z]) {
                    expect.emplace_back(e.k, static_cast<int>(ty[z]), static_cast<uint64_t>(e.t.first), e.t.second);
                }
                auto t = ty[z];
                unk[z].erase(std::remove_if(unk[z].begin(), unk[z].end(), [&](auto& e) { return pred(e.k, t, e.t); }), unk[z].end());
            }
            std::sort(asked.begin(), asked.end());
            std::sort(expect.begin(), expect.end());
            if (asked != expect) {
                bad("registry-clearif-coverage", "predicate asked " + std::to_string(asked.size()) + " entries, registry has " + std::to_string(expect.size()));
            }
        }
        // ---- observe everything
        vh::stat("registry_states_compared");
        for (int ni = 0; ni < names; ++ni) {
            static const char* n[] = {"a", "", "pub/one", "fed0/in", "x y", "\xc3\xa9", "verylongname_verylongname_verylongname_verylongname", "A"};
            std::string k = n[ni];
            std::vector<TI> g[8] = {u.checkForPublications(k), u.checkForInputs(k), u.checkForEndpoints(k), u.checkForFilters(k),
                                    u.checkForReconnectionPublications(k), u.checkForReconnectionInputs(k),
                                    u.checkForReconnectionEndpoints(k), u.checkForReconnectionFilters(k)};
            for (int z = 0; z < 8; ++z) {
                auto ex = pick(z < 4 ? unk[z] : rec[z - 4], k);
                if (sorted(g[z]) != ex) {
                    bad(std::string("registry-lookup-") + (z < 4 ? "unknown" : "reconnect") + std::to_string(z % 4),
                        "'" + k + "' gives " + std::to_string(g[z].size()) + " expected " + std::to_string(ex.size()));
                }
            }
            std::vector<std::string> l[4] = {u.checkForLinks(k), u.checkForEndpointLinks(k), u.checkForFilterSourceTargets(k),
                                             u.checkForFilterDestTargets(k)};
            for (int z = 0; z < 4; ++z) {
                std::vector<std::string> ex;
                for (auto& e : lnk[z]) {
                    if (e.first == k) {
                        ex.push_back(e.second);
                    }
                }
                std::sort(ex.begin(), ex.end());
                std::sort(l[z].begin(), l[z].end());
                if (ex != l[z]) {
                    bad("registry-link-lookup" + std::to_string(z), "'" + k + "'");
                }
            }
        }
        bool any = false, nonopt = false, req = false;
        std::vector<std::tuple<std::string, int, uint64_t, int>> ea, en, er, ga, gn, gr;
        for (int z = 0; z < 4; ++z) {
            any = any || !unk[z].empty() || !lnk[z].empty();
            nonopt = nonopt || !lnk[z].empty();
            for (auto& e : unk[z]) {
                std::tuple<std::string, int, uint64_t, int> t{e.k, static_cast<int>(ty[z]), static_cast<uint64_t>(e.t.first), e.t.second};
                ea.push_back(t);
                if (!(e.t.second & make_flags(optional_flag))) {
                    nonopt = true;
                    en.push_back(t);
                }
                if (e.t.second & make_flags(required_flag)) {
                    req = true;
                    er.push_back(t);
                }
            }
        }
        if (u.hasUnknowns() != any) {
            bad("registry-hasUnknowns", std::to_string(any));
        }
        if (u.hasNonOptionalUnknowns() != nonopt) {
            bad("registry-hasNonOptional", std::to_string(nonopt));
        }
        if (u.hasRequiredUnknowns() != req) {
            bad("registry-hasRequired", std::to_string(req));
        }
        auto coll = [](auto& v) {
            return [&v](const std::string& k, InterfaceType t, TI i) { v.emplace_back(k, static_cast<int>(t), static_cast<uint64_t>(i.first), i.second); };
        };
        u.processUnknowns(coll(ga));
        u.processNonOptionalUnknowns(coll(gn));
        u.processRequiredUnknowns(coll(gr));
        for (auto* v : {&ea, &en, &er, &ga, &gn, &gr}) {
            std::sort(v->begin(), v->end());
        }
        if (ga != ea) {
            bad("registry-processUnknowns", std::to_string(ga.size()) + " vs " + std::to_string(ea.size()));
        }
        if (gn != en) {
            bad("registry-processNonOptional", std::to_string(gn.size()) + " vs " + std::to_string(en.size()));
        }
        if (gr != er) {
            bad("registry-processRequired", std::to_string(gr.size()) + " vs " + std::to_string(er.size()));
        }
        std::vector<std::tuple<std::string, int, std::string, int>> gl, el;
        u.processUnknownLinks([&](const std::string& o, InterfaceType t, const std::string& d, InterfaceType t2) {
            gl.emplace_back(o, static_cast<int>(t), d, static_cast<int>(t2));
        });
        for (int z = 0; z < 4; ++z) {
            for (auto& e : lnk[z]) {
                el.emplace_back(e.first, static_cast<int>(z == 0 ? InterfaceType::PUBLICATION : z == 1 ? InterfaceType::ENDPOINT : InterfaceType::FILTER), e.second,
                                static_cast<int>(z == 0 ? InterfaceType::INPUT : InterfaceType::ENDPOINT));
            }
        }
        std::sort(gl.begin(), gl.end());
        std::sort(el.begin(), el.end());
        if (gl != el) {
            bad("registry-processLinks", std::to_string(gl.size()) + " vs " + std::to_string(el.size()));
        }
    }
    vh::distinct(shape);
    vh::sample("registry op:class sequence " + trace);
}

// ------------------------------------------------------------------------------------------------------------------
std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

void profbuf(Rng& r, long idx)
{
    P = "C23";
    trace.clear();
    std::string dir = "pb" + std::to_string(idx);
    mkdir(dir.c_str(), 0755);
    const std::vector<std::string> files{dir + "/a.txt", dir + "/b.txt", dir + "/nodir/x.txt", "/dev/full", ""};
    std::map<std::string, std::string> want;  // per file expected content
    std::set<std::string> exists;
    uint64_t shape = 11;
    if (r.chance(30)) {
        std::ofstream(files[0]) << "old content\n";
        want[files[0]] = "old content\n";
    }
    for (int life = 0; life < 2; ++life) {
        auto pb = std::make_unique<helics::ProfilerBuffer>();
        std::string cur;
        std::vector<std::string> pend;
        auto doWrite = [&](bool mustThrow, bool threw, const char* where) {
            if (mustThrow != threw) {
                bad(mustThrow ? "profiler-silent-failure" : "profiler-spurious-failure", where);
            }
            if (!mustThrow) {
                for (auto& p : pend) {
                    if (!p.empty()) {
                        want[cur] += p + "\n";
                    }
                }
                pend.clear();
            }
        };
        int ops = 5 + static_cast<int>(r(25));
        for (int k = 0; k < ops; ++k) {
            int op = static_cast<int>(r(10));
            vh::stat("profiler_operations");
            shape = vh::mix(shape, static_cast<uint64_t>(op));
            trace += std::to_string(op) + " ";
            if (op < 5) {
                std::string msg = r.chance(8) ? std::string{} : "<PROFILING>msg " + std::to_string(r.next());
                if (r.chance(10)) {
                    msg += std::string(r(20000), 'x');
                }
                if (r.chance(50)) {
                    pb->addMessage(msg);
                } else {
                    auto c = msg;
                    pb->addMessage(std::move(c));
                }
                pend.push_back(msg);
            } else if (op < 7) {
                bool threw = false;
                try {
                    pb->writeFile();
                }
                catch (const std::ios_base::failure&) {
                    threw = true;
                }
                bool anymsg = std::any_of(pend.begin(), pend.end(), [](auto& s) { return !s.empty(); });
                bool must = cur.empty() || cur == files[2] || (cur == files[3] && anymsg);
                if (cur == files[3]) {
                    // a device that refuses the data: what it did not take stays pending
                    if (must != threw) {
                        bad("profiler-silent-failure", "full device");
                    }
                    if (!anymsg) {
                        pend.clear();
                    }
                } else {
                    doWrite(must, threw, "writeFile");
                }
                if (!threw) {
                    exists.insert(cur);
                }
            } else {
                size_t fi = r(files.size());
                bool app = r.chance(50);
                bool threw = false;
                try {
                    pb->setOutputFile(files[fi], app);
                }
                catch (const std::ios_base::failure&) {
                    threw = true;
                }
                bool must = (fi == 2 && !app);
                if (must != threw) {
                    bad(must ? "profiler-silent-open-failure" : "profiler-spurious-open-failure", files[fi]);
                }
                cur = files[fi];
                if (fi < 2 && !app) {
                    want[cur].clear();
                }
            }
            for (int f = 0; f < 2; ++f) {
                vh::stat("profiler_files_compared");
                auto got = slurp(files[f]);
                if (got != want[files[f]]) {
                    size_t d = 0;
                    while (d < got.size() && d < want[files[f]].size() && got[d] == want[files[f]][d]) {
                        ++d;
                    }
                    bad("profiler-file-content", files[f] + " has " + std::to_string(got.size()) + " bytes, expected " +
                            std::to_string(want[files[f]].size()) + ", differs at " + std::to_string(d));
                    want[files[f]] = got;
                }
            }
        }
        // destruction flushes what is pending, and never throws
        pb.reset();
        if (cur == files[0] || cur == files[1]) {
            for (auto& p : pend) {
                if (!p.empty()) {
                    want[cur] += p + "\n";
                }
            }
        }
        for (int f = 0; f < 2; ++f) {
            if (slurp(files[f]) != want[files[f]]) {
                bad("profiler-lost-at-destruction", files[f]);
                want[files[f]] = slurp(files[f]);
            }
        }
    }
    vh::distinct(shape);
    vh::sample("profiler op sequence " + trace);
    unlink(files[0].c_str());
    unlink(files[1].c_str());
    rmdir(dir.c_str());
}
}  // namespace

int main(int argc, char** argv)
{
    auto a = vh::parse(argc, argv);
    return vh::run(argc, argv, [&](Rng& r, long i) {
        if (a.profile == "smallbuf") {
            smallbuf(r, i);
        } else if (a.profile == "unkhandle") {
            unkhandle(r, i);
        } else if (a.profile == "profbuf") {
            profbuf(r, i);
        }
    });
}
