// ------------------------------------------------------------------ buffers of the caller
#include "valmodel.hpp"
static void setBuf(HelicsDataBuffer b, const vm::Val& a, Rng& r, int& got)
{
    using namespace vm;
    switch (a.k) {
        case D: got = helicsDataBufferFillFromDouble(b, a.d); break;
        case I: got = helicsDataBufferFillFromInteger(b, a.i); break;
        case S:
            if (a.s.find('\0') == std::string::npos && r.chance(50)) got = helicsDataBufferFillFromString(b, a.s.c_str());
            else got = helicsDataBufferFillFromRawString(b, a.s.data(), static_cast<int>(a.s.size()));
            break;
        case C:
            if (r.chance(50)) got = helicsDataBufferFillFromComplex(b, a.c.real(), a.c.imag());
            else got = helicsDataBufferFillFromComplexObject(b, HelicsComplex{a.c.real(), a.c.imag()});
            break;
        case V: {
            std::unique_ptr<double[]> x(new double[a.v.size()]);
            std::copy(a.v.begin(), a.v.end(), x.get());
            got = helicsDataBufferFillFromVector(b, x.get(), static_cast<int>(a.v.size()));
            break;
        }
        case CV: {
            std::unique_ptr<double[]> x(new double[2 * a.cv.size()]);
            for (size_t i = 0; i < a.cv.size(); ++i) { x[2 * i] = a.cv[i].real(); x[2 * i + 1] = a.cv[i].imag(); }
            got = helicsDataBufferFillFromComplexVector(b, x.get(), static_cast<int>(a.cv.size()));
            break;
        }
        case NP: got = helicsDataBufferFillFromNamedPoint(b, a.nn.c_str(), a.nv); break;
        case B: got = helicsDataBufferFillFromBoolean(b, a.b ? HELICS_TRUE : HELICS_FALSE); break;
        default: got = helicsDataBufferFillFromTime(b, static_cast<double>(a.i) / 1e9); break;
    }
}
// a buffer of the caller with a pattern around what may be written
struct Guarded {
    std::unique_ptr<char[]> mem;
    size_t n;
    explicit Guarded(size_t size): mem(new char[size ? size : 1]), n(size) { std::memset(mem.get(), 0x5A, size ? size : 1); }
    // nothing after the first used bytes was touched
    bool cleanAfter(size_t used) const
    {
        for (size_t i = used; i < n; ++i) if (mem[i] != 0x5A) return false;
        return true;
    }
};
static std::string whatText(const vm::Val& a) { return "a buffer holding " + vm::show(a); }
// text copied into the caller's buffer: bounded, terminated, a prefix of the full text
static void checkText(const std::string& fn, const vm::Val& a, const std::string& full, const Guarded& g, int len, bool terminated)
{
    const size_t cap = g.n;
    vh::stat("copies_checked");
    std::string what = fn + " of " + whatText(a) + " into " + std::to_string(cap) + " bytes";
    if (len < 0 || static_cast<size_t>(len) > cap) {
        vh::viol("*", "length:" + fn, what + " returns length " + std::to_string(len));
        return;
    }
    size_t copied = static_cast<size_t>(len);
    size_t used = copied + (terminated ? 1 : 0);
    if (copied > full.size() || full.compare(0, copied, g.mem.get(), copied) != 0) {
        vh::viol("*", "content:" + fn, what + " gives \"" + vh::esc(std::string(g.mem.get(), copied), 100) + "\" instead of a prefix of \"" + vh::esc(full, 100) + "\"");
        return;
    }
    const size_t want = std::min(full.size(), terminated ? cap - 1 : cap);
    if (copied != want) vh::viol("*", "short:" + fn, what + " copies " + std::to_string(copied) + " of " + std::to_string(full.size()));
    if (terminated && (copied >= cap || g.mem[copied] != 0)) vh::viol("*", "terminator:" + fn, what + ": no terminator after " + std::to_string(copied));
    if (!g.cleanAfter(used + 1) ) vh::viol("*", "beyond:" + fn, what + " writes behind the text");
}
static void dataBufferOne(Rng& r)
{
    using namespace vm;
    Val a = randVal(r, static_cast<Kind>(r(KINDS)));
    if (a.k == NP && (a.nn.find('\0') != std::string::npos)) return;
    HelicsDataBuffer b = helicsCreateDataBuffer(static_cast<int>(r(200)));
    int wrote = 0;
    setBuf(b, a, r, wrote);
    note("data buffer with " + show(a));
    vh::stat("buffers_filled");
    if (wrote != helicsDataBufferSize(b) || wrote <= 0) vh::viol("*", "fill-size", "filling " + whatText(a) + " returns " + std::to_string(wrote) + ", size " + std::to_string(helicsDataBufferSize(b)));
    if (helicsDataBufferCapacity(b) < helicsDataBufferSize(b)) vh::viol("*", "capacity", whatText(a) + ": capacity below size");
    // what the buffer holds in the sense of the conversions
    Val mid = a;
    if (a.k == T) {
        Time t(static_cast<double>(a.i) / 1e9);
        mid = mkI(t.getBaseTimeCode());
    }
    if (a.k == B) mid = mkS(a.b ? "1" : "0");
    if (r.chance(20)) {
        HelicsDataBuffer c2 = helicsDataBufferClone(b);
        if (helicsDataBufferSize(c2) != helicsDataBufferSize(b) || std::memcmp(helicsDataBufferData(c2), helicsDataBufferData(b), static_cast<size_t>(helicsDataBufferSize(b))) != 0) vh::viol("*", "clone", "the clone of " + whatText(a) + " differs");
        helicsDataBufferFree(b);
        b = c2;
    }
    if (r.chance(20)) {
        // moved into memory of the caller
        int n = helicsDataBufferSize(b);
        std::unique_ptr<char[]> own(new char[static_cast<size_t>(n)]);
        std::memcpy(own.get(), helicsDataBufferData(b), static_cast<size_t>(n));
        HelicsDataBuffer w = helicsWrapDataInBuffer(own.get(), n, n);
        if (helicsDataBufferSize(w) != n || helicsDataBufferData(w) != own.get()) vh::viol("*", "wrap", "a wrapped buffer does not show the memory it was given");
        Val back{};
        if (a.k == D) {
            double d = helicsDataBufferToDouble(w);
            if (!same(d, a.d)) vh::viol("*", "wrap-read", "wrapped " + whatText(a) + " reads " + num(d));
        }
        // values that do not fit must be refused, not written past the end
        std::string big(static_cast<size_t>(n) + 100, 'y');
        int k = helicsDataBufferFillFromString(w, big.c_str());
        if (k > n) vh::viol("*", "wrap-overflow", "a text of " + std::to_string(big.size()) + " bytes is reported as stored in " + std::to_string(n));
        helicsDataBufferFree(w);
    }
    for (int k = 0; k < 6; ++k) {
        const Kind to = static_cast<Kind>(r(KINDS));
        if (mid.k == S && (to == T || to == V || to == CV)) {
            // free text: only safe
        }
        Want w = convert(mid, to);
        Val got;
        got.k = to;
        std::string fn;
        try {
            switch (to) {
                case D: fn = "helicsDataBufferToDouble"; got.d = helicsDataBufferToDouble(b); break;
                case I: fn = "helicsDataBufferToInteger"; got.i = helicsDataBufferToInteger(b); break;
                case B: fn = "helicsDataBufferToBoolean"; got.b = helicsDataBufferToBoolean(b) == HELICS_TRUE; break;
                case T: {
                    fn = "helicsDataBufferToTime";
                    if (a.k != T) continue;
                    double d = helicsDataBufferToTime(b);
                    if (!same(d, static_cast<double>(Time(static_cast<double>(a.i) / 1e9)))) vh::viol("*", "time", "a buffer filled with time " + num(static_cast<double>(a.i) / 1e9) + " reads " + num(d));
                    continue;
                }
                case C: {
                    if (r.chance(50)) {
                        fn = "helicsDataBufferToComplexObject";
                        auto c = helicsDataBufferToComplexObject(b);
                        got.c = {c.real, c.imag};
                    } else {
                        fn = "helicsDataBufferToComplex";
                        double re = 0, im = 0;
                        helicsDataBufferToComplex(b, &re, r.chance(10) ? nullptr : &im);
                        got.c = {re, im};
                        if (im == 0) continue;
                    }
                    break;
                }
                case S: {
                    fn = "helicsDataBufferToString";
                    int size = helicsDataBufferStringSize(b);
                    Guarded g(static_cast<size_t>(std::max(size, 0)));
                    int len = -1;
                    helicsDataBufferToString(b, g.mem.get(), size, &len);
                    if (len != size - 1) {
                        vh::viol("*", "string-size", whatText(a) + ": helicsDataBufferStringSize " + std::to_string(size) + " but the text has " + std::to_string(len));
                        continue;
                    }
                    got.s.assign(g.mem.get(), static_cast<size_t>(std::max(len, 0)));
                    checkText(fn, a, got.s, g, len, true);
                    // every smaller and larger buffer
                    for (int q = 0; q < 4; ++q) {
                        size_t cap = 1 + r(static_cast<uint64_t>(size) + 4);
                        Guarded h(cap);
                        int l2 = -1;
                        const bool raw = r.chance(50);
                        if (raw) helicsDataBufferToRawString(b, h.mem.get(), static_cast<int>(cap), &l2);
                        else helicsDataBufferToString(b, h.mem.get(), static_cast<int>(cap), &l2);
                        checkText(raw ? "helicsDataBufferToRawString" : fn, a, got.s, h, l2, !raw);
                    }
                    break;
                }
                case V: {
                    fn = "helicsDataBufferToVector";
                    int n = helicsDataBufferVectorSize(b);
                    if (n < 0) continue;
                    for (int q = 0; q < 2; ++q) {
                        size_t cap = q == 0 ? static_cast<size_t>(n) + 1 : r(static_cast<uint64_t>(n) + 1);
                        Guarded g(cap * 8);
                        int m = -1;
                        helicsDataBufferToVector(b, reinterpret_cast<double*>(g.mem.get()), static_cast<int>(cap), &m);
                        vh::stat("copies_checked");
                        if (m < 0 || static_cast<size_t>(m) > cap) {
                            vh::viol("*", "length:" + fn, fn + " of " + whatText(a) + " into " + std::to_string(cap) + " elements returns " + std::to_string(m));
                            continue;
                        }
                        if (!g.cleanAfter(static_cast<size_t>(m) * 8)) vh::viol("*", "beyond:" + fn, fn + " writes behind the " + std::to_string(m) + " elements it reports");
                        auto* d = reinterpret_cast<double*>(g.mem.get());
                        if (q == 0) {
                            got.v.assign(d, d + m);
                            if (m > n) vh::viol("*", "vector-size", whatText(a) + ": helicsDataBufferVectorSize " + std::to_string(n) + " but " + std::to_string(m) + " elements");
                        } else {
                            if (static_cast<size_t>(m) != std::min(cap, got.v.size())) vh::viol("*", "short:" + fn, fn + " of " + whatText(a) + " into " + std::to_string(cap) + " elements gives " + std::to_string(m));
                            for (int i = 0; i < m && static_cast<size_t>(i) < got.v.size(); ++i) if (!same(d[i], got.v[static_cast<size_t>(i)])) vh::viol("*", "content:" + fn, fn + " of " + whatText(a) + ": element " + std::to_string(i));
                        }
                    }
                    break;
                }
                case CV: {
                    fn = "helicsDataBufferToComplexVector";
                    size_t cap = 1200;
                    Guarded g(cap * 16);
                    int m = -1;
                    helicsDataBufferToComplexVector(b, reinterpret_cast<double*>(g.mem.get()), static_cast<int>(cap), &m);
                    vh::stat("copies_checked");
                    if (m < 0 || static_cast<size_t>(m) > cap) {
                        vh::viol("*", "length:" + fn, fn + " returns " + std::to_string(m));
                        continue;
                    }
                    if (!g.cleanAfter(static_cast<size_t>(m) * 16)) vh::viol("*", "beyond:" + fn, fn + " writes behind the elements it reports");
                    auto* d = reinterpret_cast<double*>(g.mem.get());
                    for (int i = 0; i < m; ++i) got.cv.emplace_back(d[2 * i], d[2 * i + 1]);
                    size_t c2 = r(static_cast<uint64_t>(m) + 1);
                    Guarded h(c2 * 16);
                    int m2 = -1;
                    helicsDataBufferToComplexVector(b, reinterpret_cast<double*>(h.mem.get()), static_cast<int>(c2), &m2);
                    if (static_cast<size_t>(m2) != c2) vh::viol("*", "short:" + fn, fn + " into " + std::to_string(c2) + " elements gives " + std::to_string(m2));
                    else if (c2 > 0 && std::memcmp(h.mem.get(), g.mem.get(), c2 * 16) != 0) vh::viol("*", "content:" + fn, fn + " into a smaller buffer gives other elements");
                    break;
                }
                case NP: {
                    fn = "helicsDataBufferToNamedPoint";
                    size_t cap = 1 + r(a.k == S || a.k == NP ? 200 : 60);
                    Guarded g(cap);
                    int len = -1;
                    double v = 0;
                    helicsDataBufferToNamedPoint(b, g.mem.get(), static_cast<int>(cap), &len, &v);
                    vh::stat("copies_checked");
                    if (len < 0 || static_cast<size_t>(len) > cap) {
                        vh::viol("*", "length:" + fn, fn + " into " + std::to_string(cap) + " bytes returns " + std::to_string(len));
                        continue;
                    }
                    if (static_cast<size_t>(len) + 1 >= cap) continue;  // cut
                    got.nn.assign(g.mem.get(), static_cast<size_t>(len));
                    if (!got.nn.empty() && got.nn.back() == 0) got.nn.pop_back();
                    got.nv = v;
                    break;
                }
                default: continue;
            }
        }
        catch (const std::exception& e) {
            if (!w.open) vh::viol("*", "throws:" + fn, fn + " of " + whatText(a) + " throws " + e.what());
            continue;
        }
        vh::stat("reads_checked");
        vh::distinct(vh::mix(vh::hashStr(fn), vh::mix(a.k, to)));
        if (!accept(got, w)) vh::viol("*", "value:" + fn + ":" + kname(a.k), fn + " of " + whatText(a) + " gives " + show(got));
    }
    if (r.chance(30)) {
        int nt = r.pick<int>({HELICS_DATA_TYPE_DOUBLE, HELICS_DATA_TYPE_INT, HELICS_DATA_TYPE_STRING, HELICS_DATA_TYPE_VECTOR, HELICS_DATA_TYPE_COMPLEX, HELICS_DATA_TYPE_COMPLEX_VECTOR, HELICS_DATA_TYPE_NAMED_POINT});
        int before = helicsDataBufferType(b);
        if (helicsDataBufferConvertToType(b, nt) == HELICS_TRUE) {
            if (helicsDataBufferType(b) != nt) vh::viol("*", "convert-type", whatText(a) + " converted to type " + std::to_string(nt) + " has type " + std::to_string(helicsDataBufferType(b)));
            if (before == nt && a.k == D && !same(helicsDataBufferToDouble(b), a.d)) vh::viol("*", "convert-same", whatText(a) + " converted to its own type changes");
        }
    }
    helicsDataBufferFree(b);
}
// a model of messages held by the library
struct Msg {
    HelicsMessage h;
    std::string data, src, dst, osrc, odst;
    double t{0};
    int id{0};
    unsigned flags{0};
};
static void checkMsg(const Msg& m, const std::string& after)
{
    vh::stat("messages_checked");
    HelicsError e = helicsErrorInitialize();
    std::string w = "message after " + after + ": ";
    if (helicsMessageGetByteCount(m.h) != static_cast<int>(m.data.size())) {
        vh::viol("*", "message-size", w + "byte count " + std::to_string(helicsMessageGetByteCount(m.h)) + " instead of " + std::to_string(m.data.size()));
        return;
    }
    for (size_t cap : {m.data.size(), m.data.size() + 3}) {
        Guarded g(cap);
        int n = -1;
        HelicsError e2 = helicsErrorInitialize();
        helicsMessageGetBytes(m.h, g.mem.get(), static_cast<int>(cap), &n, &e2);
        if (e2.error_code != 0 || n != static_cast<int>(m.data.size()) || std::string(g.mem.get(), static_cast<size_t>(std::max(n, 0))) != m.data) vh::viol("*", "message-bytes", w + "bytes differ");
        if (!g.cleanAfter(m.data.size())) vh::viol("*", "message-beyond", w + "helicsMessageGetBytes writes behind the data");
    }
    if (!m.data.empty()) {
        Guarded g(m.data.size() - 1);
        int n = -1;
        HelicsError e2 = helicsErrorInitialize();
        helicsMessageGetBytes(m.h, g.mem.get(), static_cast<int>(m.data.size()) - 1, &n, &e2);
        if (e2.error_code != HELICS_ERROR_INSUFFICIENT_SPACE || n != 0 || !g.cleanAfter(0)) vh::viol("*", "message-small", w + "a too small buffer gives error " + std::to_string(e2.error_code) + " length " + std::to_string(n));
    }
    const char* s = helicsMessageGetString(m.h);
    if (std::string(s) != std::string(m.data.c_str())) vh::viol("*", "message-string", w + "helicsMessageGetString gives \"" + vh::esc(s, 80) + "\"");
    if (helicsMessageGetByteCount(m.h) != static_cast<int>(m.data.size())) vh::viol("*", "message-size-after-string", w + "byte count changed by helicsMessageGetString");
    if (m.src != helicsMessageGetSource(m.h) || m.dst != helicsMessageGetDestination(m.h) || m.osrc != helicsMessageGetOriginalSource(m.h) || m.odst != helicsMessageGetOriginalDestination(m.h)) {
        vh::viol("*", "message-names", w + "source/destination " + helicsMessageGetSource(m.h) + "," + helicsMessageGetDestination(m.h) + "," + helicsMessageGetOriginalSource(m.h) + "," + helicsMessageGetOriginalDestination(m.h));
    }
    if (helicsMessageGetTime(m.h) != m.t) vh::viol("*", "message-time", w + "time " + std::to_string(helicsMessageGetTime(m.h)) + " instead of " + std::to_string(m.t));
    if (helicsMessageGetMessageID(m.h) != m.id) vh::viol("*", "message-id", w + "id");
    for (int i = -1; i < 18; ++i) {
        bool f = helicsMessageGetFlagOption(m.h, i) == HELICS_TRUE;
        bool want = i >= 0 && i < 16 && ((m.flags >> i) & 1U) != 0;
        if (f != want) vh::viol("*", "message-flag", w + "flag " + std::to_string(i) + " is " + std::to_string(f));
    }
}
static std::string randBytes(Rng& r)
{
    std::string s;
    const size_t n = r.chance(10) ? r(3000) : r(90);
    for (size_t i = 0; i < n; ++i) s.push_back(static_cast<char>(r.chance(85) ? 1 + r(255) : 0));
    return s;
}
static std::string randName(Rng& r) { return r.chance(15) ? "" : "n" + std::string(r(40), 'q') + std::to_string(r(1000)); }
static void messagesOne(Rng& r, Live& live)
{
    HelicsError e = helicsErrorInitialize();
    std::vector<Msg> ms;
    for (int step = 0; step < 60; ++step) {
        if (ms.empty() || (ms.size() < 12 && r.chance(20))) {
            Msg m;
            m.h = helicsFederateCreateMessage(live.fed, &e);
            if (m.h == nullptr) {
                vh::viol("*", "message-create", "no message created");
                return;
            }
            for (auto& o : ms) if (o.h == m.h) vh::viol("*", "message-alias", "a new message is the same object as a live one");
            ms.push_back(m);
            checkMsg(ms.back(), "creation");
        }
        Msg& m = ms[r(ms.size())];
        std::string op;
        switch (r(16)) {
            case 0: { op = "helicsMessageSetData"; m.data = randBytes(r); helicsMessageSetData(m.h, m.data.data(), static_cast<int>(m.data.size()), &e); break; }
            case 1: { op = "helicsMessageSetString"; auto s = randBytes(r); s = s.c_str(); m.data = s; helicsMessageSetString(m.h, s.c_str(), &e); break; }
            case 2: { op = "helicsMessageAppendData"; auto s = randBytes(r); m.data += s; helicsMessageAppendData(m.h, s.data(), static_cast<int>(s.size()), &e); break; }
            case 3: { op = "helicsMessageResize"; size_t n = r(m.data.size() + 1); m.data.resize(n); helicsMessageResize(m.h, static_cast<int>(n), &e); break; }
            case 4: op = "helicsMessageReserve"; helicsMessageReserve(m.h, static_cast<int>(r(5000)), &e); break;
            case 5: op = "helicsMessageSetSource"; m.src = randName(r); helicsMessageSetSource(m.h, m.src.c_str(), &e); break;
            case 6: op = "helicsMessageSetDestination"; m.dst = randName(r); helicsMessageSetDestination(m.h, m.dst.c_str(), &e); break;
            case 7: op = "helicsMessageSetOriginalSource"; m.osrc = randName(r); helicsMessageSetOriginalSource(m.h, m.osrc.c_str(), &e); break;
            case 8: op = "helicsMessageSetOriginalDestination"; m.odst = randName(r); helicsMessageSetOriginalDestination(m.h, m.odst.c_str(), &e); break;
            case 9: op = "helicsMessageSetTime"; m.t = static_cast<double>(r(4000)) / 8.0; helicsMessageSetTime(m.h, m.t, &e); break;
            case 10: op = "helicsMessageSetMessageID"; m.id = static_cast<int>(r(1u << 31)); helicsMessageSetMessageID(m.h, m.id, &e); break;
            case 11: {
                op = "helicsMessageSetFlagOption";
                int f = static_cast<int>(r(16));
                bool v = r.chance(60);
                helicsMessageSetFlagOption(m.h, f, v ? HELICS_TRUE : HELICS_FALSE, &e);
                m.flags = v ? (m.flags | (1u << f)) : (m.flags & ~(1u << f));
                if (r.chance(20)) { helicsMessageClearFlags(m.h); m.flags = 0; }
                break;
            }
            case 12: {
                if (ms.size() < 2) continue;
                op = "helicsMessageCopy";
                Msg& o = ms[r(ms.size())];
                helicsMessageCopy(m.h, o.h, &e);
                auto* h = o.h;
                o = m;
                o.h = h;
                checkMsg(o, op);
                break;
            }
            case 13: {
                op = "helicsMessageClone";
                Msg c = m;
                c.h = helicsMessageClone(m.h, &e);
                for (auto& o : ms) if (o.h == c.h) vh::viol("*", "message-alias", "a clone is the same object as a live message");
                ms.push_back(c);
                checkMsg(ms.back(), op);
                break;
            }
            case 14: {
                op = "helicsMessageClear";
                auto* h = m.h;
                helicsMessageClear(h, &e);
                m = Msg{};
                m.h = h;
                break;
            }
            default: {
                op = "helicsMessageFree";
                size_t k = r(ms.size());
                helicsMessageFree(ms[k].h);
                ms.erase(ms.begin() + static_cast<long>(k));
                break;
            }
        }
        if (e.error_code != 0) {
            vh::viol("*", "message-error:" + op, op + " reports " + e.message);
            return;
        }
        for (auto& o : ms) checkMsg(o, op);
        vh::distinct(vh::mix(vh::hashStr(op), ms.size()));
    }
    for (auto& o : ms) helicsMessageFree(o.h);
}
// inputs of a running federation: read into buffers of every size
static void inputsOne(Rng& r, Live& live)
{
    using namespace vm;
    HelicsError e = helicsErrorInitialize();
    struct Link {
        HelicsPublication p;
        HelicsInput i;
        Kind k;
    };
    std::vector<Link> ls;
    static const std::vector<std::pair<HelicsDataTypes, Kind>> types{{HELICS_DATA_TYPE_DOUBLE, D}, {HELICS_DATA_TYPE_INT, I}, {HELICS_DATA_TYPE_STRING, S}, {HELICS_DATA_TYPE_COMPLEX, C}, {HELICS_DATA_TYPE_VECTOR, V}, {HELICS_DATA_TYPE_COMPLEX_VECTOR, CV}, {HELICS_DATA_TYPE_NAMED_POINT, NP}, {HELICS_DATA_TYPE_BOOLEAN, B}};
    for (auto& t : types) {
        std::string n = std::string("x_") + kname(t.second);
        Link l{};
        l.p = helicsFederateRegisterPublication(live.fed, n.c_str(), t.first, "", &e);
        l.i = helicsFederateRegisterSubscription(live.fed, (live.name + "_f/" + n).c_str(), "", &e);
        l.k = t.second;
        ls.push_back(l);
    }
    auto* ep = helicsFederateGetEndpoint(live.fed, "e0", &e);
    helicsFederateEnterExecutingMode(live.fed, &e);
    if (e.error_code != 0) {
        vh::viol("*", "federation", std::string("could not start: ") + e.message);
        return;
    }
    double t = 0;
    for (int round = 0; round < 12; ++round) {
        std::vector<Val> sent;
        for (auto& l : ls) {
            Val a = randVal(r, l.k);
            if (a.k == NP && !utf8(a.nn)) a.nn = "pt";
            if (a.k == NP && std::isnan(a.nv) && a.nn.empty()) a.nn = "z";
            switch (l.k) {
                case D: helicsPublicationPublishDouble(l.p, a.d, &e); break;
                case I: helicsPublicationPublishInteger(l.p, a.i, &e); break;
                case S: a.s = a.s.c_str(); helicsPublicationPublishString(l.p, a.s.c_str(), &e); break;
                case C: helicsPublicationPublishComplex(l.p, a.c.real(), a.c.imag(), &e); break;
                case V: helicsPublicationPublishVector(l.p, a.v.data(), static_cast<int>(a.v.size()), &e); break;
                case CV: {
                    std::vector<double> x{0};
                    x.clear();
                    for (auto& c : a.cv) { x.push_back(c.real()); x.push_back(c.imag()); }
                    x.reserve(1);
                    helicsPublicationPublishComplexVector(l.p, x.data(), static_cast<int>(a.cv.size()), &e);
                    break;
                }
                case NP: helicsPublicationPublishNamedPoint(l.p, a.nn.c_str(), a.nv, &e); break;
                default: helicsPublicationPublishBoolean(l.p, a.b ? HELICS_TRUE : HELICS_FALSE, &e); break;
            }
            sent.push_back(a);
        }
        std::vector<std::string> mail;
        for (size_t i = 0, n = r(4); i < n; ++i) {
            std::string d = randBytes(r);
            mail.push_back(d);
            helicsEndpointSendBytesTo(ep, d.data(), static_cast<int>(d.size()), (live.name + "_f/e0").c_str(), &e);
        }
        t = helicsFederateRequestTime(live.fed, t + 1.0, &e);
        if (e.error_code != 0) {
            vh::viol("*", "federation", std::string("error while running: ") + e.message);
            return;
        }
        for (size_t i = 0; i < ls.size(); ++i) {
            auto* in = ls[i].i;
            const Val& a = sent[i];
            std::string what = "input holding " + show(a);
            note(what);
            if (helicsInputIsUpdated(in) != HELICS_TRUE) {
                vh::viol("*", "not-updated", what + " is not updated");
                continue;
            }
            const int how = static_cast<int>(r(5));
            vh::distinct(vh::mix(0x1111, vh::mix(a.k, static_cast<uint64_t>(how))));
            if (how == 0) {
                int n = helicsInputGetByteCount(in);
                size_t cap = r.chance(50) ? static_cast<size_t>(n) : 1 + r(static_cast<uint64_t>(n) + 3);
                Guarded g(cap);
                int m = -1;
                helicsInputGetBytes(in, g.mem.get(), static_cast<int>(cap), &m, &e);
                vh::stat("copies_checked");
                if (cap == 0) { e = helicsErrorInitialize(); continue; }
                if (m != static_cast<int>(std::min<size_t>(cap, static_cast<size_t>(n)))) vh::viol("*", "length:helicsInputGetBytes", what + ": " + std::to_string(m) + " of " + std::to_string(n) + " bytes into " + std::to_string(cap));
                else if (!g.cleanAfter(static_cast<size_t>(m))) vh::viol("*", "beyond:helicsInputGetBytes", what);
            } else if (how == 1) {
                int size = helicsInputGetStringSize(in);
                Guarded g(static_cast<size_t>(size));
                int len = -1;
                helicsInputGetString(in, g.mem.get(), size, &len, &e);
                vh::stat("copies_checked");
                if (len < 1 || len > size || g.mem[static_cast<size_t>(len) - 1] != 0) {
                    vh::viol("*", "length:helicsInputGetString", what + ": size " + std::to_string(size) + " length " + std::to_string(len));
                    continue;
                }
                Val got = mkS(std::string(g.mem.get(), static_cast<size_t>(len) - 1));
                Want w = convert(a.k == B ? mkS(a.b ? "1" : "0") : a, S);
                if (a.k == NP) w.any.push_back(mkS(a.nn));
                if (!accept(got, w)) vh::viol("*", "value:helicsInputGetString", what + " gives " + show(got));
                size_t cap = 1 + r(static_cast<uint64_t>(len) + 2);
                Guarded h(cap);
                int l2 = -1;
                helicsInputGetString(in, h.mem.get(), static_cast<int>(cap), &l2, &e);
                if (l2 < 1 || static_cast<size_t>(l2) > cap || h.mem[static_cast<size_t>(l2) - 1] != 0 || got.s.compare(0, static_cast<size_t>(l2) - 1, h.mem.get(), static_cast<size_t>(l2) - 1) != 0 || static_cast<size_t>(l2) != std::min(cap, static_cast<size_t>(len))) {
                    vh::viol("*", "cut:helicsInputGetString", what + " into " + std::to_string(cap) + " bytes gives length " + std::to_string(l2));
                } else if (!h.cleanAfter(static_cast<size_t>(l2))) vh::viol("*", "beyond:helicsInputGetString", what);
            } else if (how == 2) {
                int n = helicsInputGetVectorSize(in);
                if (a.k == S || a.k == NP) { (void)helicsInputGetDouble(in, &e); continue; }
                Guarded g((static_cast<size_t>(n) + 1) * 8);
                int m = -1;
                helicsInputGetVector(in, reinterpret_cast<double*>(g.mem.get()), n + 1, &m, &e);
                vh::stat("copies_checked");
                if (m < 0 || m > n) {
                    vh::viol("*", "length:helicsInputGetVector", what + ": size " + std::to_string(n) + " length " + std::to_string(m));
                    continue;
                }
                if (!g.cleanAfter(static_cast<size_t>(m) * 8)) vh::viol("*", "beyond:helicsInputGetVector", what);
                auto* d = reinterpret_cast<double*>(g.mem.get());
                Val got = mkV({d, d + m});
                if (!accept(got, convert(a.k == B ? mkS(a.b ? "1" : "0") : a, V))) vh::viol("*", "value:helicsInputGetVector", what + " gives " + show(got));
                size_t cap = 1 + r(static_cast<uint64_t>(n) + 1);
                Guarded h(cap * 8);
                int m2 = -1;
                helicsInputGetVector(in, reinterpret_cast<double*>(h.mem.get()), static_cast<int>(cap), &m2, &e);
                if (m2 != static_cast<int>(std::min<size_t>(cap, static_cast<size_t>(m))) || (m2 > 0 && std::memcmp(h.mem.get(), g.mem.get(), static_cast<size_t>(m2) * 8) != 0)) vh::viol("*", "cut:helicsInputGetVector", what + " into " + std::to_string(cap) + " elements");
                else if (!h.cleanAfter(static_cast<size_t>(m2) * 8)) vh::viol("*", "beyond:helicsInputGetVector", what);
            } else if (how == 3) {
                if (a.k == S || a.k == NP) { (void)helicsInputGetInteger(in, &e); e = helicsErrorInitialize(); continue; }
                size_t cap = r.chance(60) ? 1200 : 1 + r(5);
                Guarded g(cap * 16);
                int m = -1;
                helicsInputGetComplexVector(in, reinterpret_cast<double*>(g.mem.get()), static_cast<int>(cap), &m, &e);
                vh::stat("copies_checked");
                if (m < 0 || static_cast<size_t>(m) > cap) {
                    vh::viol("*", "length:helicsInputGetComplexVector", what + ": " + std::to_string(m));
                    continue;
                }
                if (!g.cleanAfter(static_cast<size_t>(m) * 16)) vh::viol("*", "beyond:helicsInputGetComplexVector", what);
                if (static_cast<size_t>(m) == cap) continue;
                auto* d = reinterpret_cast<double*>(g.mem.get());
                Val got;
                got.k = CV;
                for (int q = 0; q < m; ++q) got.cv.emplace_back(d[2 * q], d[2 * q + 1]);
                if (!accept(got, convert(a.k == B ? mkS(a.b ? "1" : "0") : a, CV))) vh::viol("*", "value:helicsInputGetComplexVector", what + " gives " + show(got));
            } else {
                size_t cap = r.chance(60) ? 200 : 1 + r(10);
                Guarded g(cap);
                int len = -1;
                double v = 0;
                helicsInputGetNamedPoint(in, g.mem.get(), static_cast<int>(cap), &len, &v, &e);
                vh::stat("copies_checked");
                if (len < 0 || static_cast<size_t>(len) > cap) {
                    vh::viol("*", "length:helicsInputGetNamedPoint", what + ": " + std::to_string(len) + " in " + std::to_string(cap));
                    continue;
                }
                if (!g.cleanAfter(static_cast<size_t>(len) + 1)) vh::viol("*", "beyond:helicsInputGetNamedPoint", what);
                if (a.k == NP && cap == 200 && a.nn.size() < 190) {
                    std::string n(g.mem.get(), static_cast<size_t>(len));
                    if (!n.empty() && n.back() == 0) n.pop_back();
                    if (n != a.nn || !same(v, a.nv)) vh::viol("*", "value:helicsInputGetNamedPoint", what + " gives {" + vh::esc(n, 60) + "," + num(v) + "}");
                }
            }
            if (e.error_code != 0) {
                vh::viol("*", "read-error", what + ": " + e.message);
                e = helicsErrorInitialize();
            }
            helicsInputClearUpdate(in);
        }
        if (helicsEndpointPendingMessageCount(ep) != static_cast<int>(mail.size())) vh::viol("*", "mail-count", "pending " + std::to_string(helicsEndpointPendingMessageCount(ep)) + " instead of " + std::to_string(mail.size()));
        std::multiset<std::string> want(mail.begin(), mail.end());
        while (helicsEndpointHasMessage(ep) == HELICS_TRUE) {
            auto* m = helicsEndpointGetMessage(ep);
            Msg x;
            x.h = m;
            int n = helicsMessageGetByteCount(m);
            std::string d(static_cast<const char*>(helicsMessageGetBytesPointer(m)), static_cast<size_t>(n));
            auto f = want.find(d);
            if (f == want.end()) vh::viol("*", "mail", "a message of " + std::to_string(n) + " bytes was not sent like this");
            else want.erase(f);
            vh::stat("messages_checked");
            if (r.chance(50)) helicsMessageFree(m);
        }
        if (!want.empty()) vh::viol("*", "mail", "a message sent to the endpoint itself is missing");
        if (helicsEndpointGetMessage(ep) != nullptr) vh::viol("*", "mail", "an empty endpoint gives a message");
        if (r.chance(30)) helicsFederateClearMessages(live.fed);
    }
}
static void buffersCase(Rng& r, long idx)
{
    for (int i = 0; i < 150; ++i) dataBufferOne(r);
    Live live(idx);
    if (!live.ok) {
        vh::viol("*", "setup", "the federation could not be made");
        return;
    }
    for (int i = 0; i < 3; ++i) messagesOne(r, live);
    inputsOne(r, live);
    if (idx < 1) vh::sample("150 data buffers, 3 message histories of 60 operations, 12 rounds of 8 inputs");
}

// ------------------------------------------------------------------ arbitrary sequences of calls on live objects
static bool blocking(const std::string& n)
{
    static const std::set<std::string> g{"helicsBrokerSetTimeBarrier", "helicsFederateWaitCommand", "helicsFederateGetCommand", "helicsBrokerWaitForDisconnect", "helicsCoreWaitForDisconnect",
                                         "helicsFederateSetLogFile", "helicsCoreSetLogFile", "helicsBrokerSetLogFile", "helicsFederateFree", "helicsFederateDestroy",
                                         "helicsCoreFree", "helicsCoreDestroy", "helicsBrokerFree", "helicsBrokerDestroy", "helicsErrorClear", "helicsErrorInitialize",
                                         "helicsFederateSetFlagOption", "helicsFederateSetIntegerProperty", "helicsFederateSetTimeProperty", "helicsCoreSetReadyToInit",
                                         "helicsFederateProcessCommunications", "helicsFederateAddDependency", "helicsQueryBufferFill", "helicsFederateInfoLoadFromArgsWithHelp",
                                         // raw bytes are read as an encoded value without looking at their size (DESIGN.md)
                                         "helicsDataBufferFillFromRawString", "helicsInputSetDefaultBytes", "helicsPublicationPublishBytes"};
    return g.count(n) != 0 || n.find("Async") != std::string::npos || n.find("Complete") != std::string::npos || n.find("Iterative") != std::string::npos || n.find("Callback") != std::string::npos || n.rfind("helicsApp", 0) == 0;
}
static void robustCase(Rng& r, long idx)
{
    static const std::vector<Fn> fns = [] {
        std::vector<Fn> v;
        for (auto& f : table()) if (!global(f.name) && !blocking(f.name)) v.push_back(f);
        return v;
    }();
    Live live(idx);
    if (!live.ok) return;
    auto& h = live.h;
    std::vector<void*> infos, bufs, queries;
    const int n = 250;
    const bool ends = r.chance(30), timed = r.chance(50);
    std::deque<std::string> recent;
    std::string over;
    for (int k = 0; k < n; ++k) {
        auto& f = fns[r(fns.size())];
        const std::string name = f.name;
        static const std::set<std::string> ending{"helicsFederateFinalize", "helicsFederateDisconnect", "helicsFederateLocalError", "helicsFederateGlobalError", "helicsBrokerGlobalError", "helicsCoreGlobalError", "helicsBrokerDisconnect", "helicsCoreDisconnect", "helicsBrokerForceTerminate", "helicsCoreSendCommand", "helicsBrokerSendCommand", "helicsFederateSendCommand", "helicsCoreSendOrderedCommand", "helicsBrokerSendOrderedCommand"};
        // links through filters, translators and barriers may rightly hold back time
        if (timed && (name.find("Filter") != std::string::npos || name.find("Translator") != std::string::npos || name.find("Target") != std::string::npos || name.find("Link") != std::string::npos || name.find("Connections") != std::string::npos || name.find("Barrier") != std::string::npos || name.find("Subscription") != std::string::npos)) continue;
        if (ending.count(name) && !(ends && k > n / 2)) continue;
        if (!over.empty() && (name.find("Register") != std::string::npos || name.find("Operator") != std::string::npos)) continue;  // answers need a running core
        if (name == "helicsFederateRequestTime" || name == "helicsFederateRequestTimeAdvance" || name == "helicsFederateRequestNextStep" || name.find("EnterExec") != std::string::npos || name.find("EnterInit") != std::string::npos) {
            if (!timed || !r.chance(40)) continue;
        }
        Ctx c;
        c.r = &r;
        c.text = wordOf;
        c.nullText = true;
        c.complexOut = name.find("Complex") != std::string::npos;
        HelicsError err = helicsErrorInitialize();
        c.err = r.chance(90) ? &err : nullptr;
        bool can = true;
        const std::string hs = f.handles();
        for (char q : hs) {
            if (h[q].empty() || q == 'a' || q == 'Q') can = false;
            else c.handles.push_back(r.pick(h[q]));
        }
        if (!can) continue;
        if (name == "helicsMessageFree" || name == "helicsEndpointSendMessageZeroCopy" || name == "helicsQueryFree" || name == "helicsFederateInfoFree" || name == "helicsDataBufferFree") {
            char q = name == "helicsQueryFree" ? 'q' : name == "helicsFederateInfoFree" ? 'n' : name == "helicsDataBufferFree" ? 'd' : 'm';
            size_t pos = hs.find(q);
            if (h[q].size() < 2 || c.handles[pos] == live.info || c.handles[pos] == live.query || c.handles[pos] == live.buf) continue;
            auto& v = h[q];
            v.erase(std::find(v.begin(), v.end(), c.handles[pos]));
        }
        recent.push_back(name); if (getenv("SHOWCALLS")) { fprintf(stderr, "CALL %s", name.c_str()); for (auto* q : c.handles) fprintf(stderr, " %p", q); fprintf(stderr, "\n"); }
        if (recent.size() > 12) recent.pop_front();
        if (ending.count(name)) over = "after " + name + ": ";
        std::string all = over;
        for (auto& q : recent) all += q.substr(6) + " ";
        note(all);
        vh::progress();
        Result res;
        try {
            res = f.call(c);
        }
        catch (const std::exception& e) {
            vh::viol("*", "throws:" + name, name + " (" + c.shown + " ) lets an exception escape: " + e.what());
            continue;
        }
        catch (...) {
            vh::viol("*", "throws:" + name, name + " (" + c.shown + " ) lets an exception escape");
            continue;
        }
        vh::stat("calls");
        if (getenv("SHOWCALLS")) fprintf(stderr, "ARGS %s %s %s\n", name.c_str(), c.shown.c_str(), err.error_code ? err.message : "");
        if (over.empty() && !helicsCoreIsConnected(live.core)) over = "core not connected after " + name + "(" + c.shown + "): ";
        vh::distinct(vh::mix(vh::hashStr(name), static_cast<uint64_t>(err.error_code) & 0xFFFF));
        if (f.ret == 's' && res.p == nullptr) vh::viol("*", "null-text:" + name, name + " (" + c.shown + " ) returns a null text");
        if (f.ret == 's' && res.p != nullptr) (void)std::strlen(static_cast<const char*>(res.p));
        if (err.error_code != 0 && (err.message == nullptr || err.message[0] == 0)) vh::viol("*", "no-message:" + name, name + " reports error " + std::to_string(err.error_code) + " without a message");
        if (err.error_code != 0 && f.ret == 'H' && res.p != nullptr) vh::viol("*", "object-and-error:" + name, name + " reports error " + std::to_string(err.error_code) + " (" + err.message + ") and returns an object");
        if (name == "helicsFederateClearMessages" || name == "helicsEndpointClearMessages") h['m'].clear();
        if (f.ret == 'H' && res.p != nullptr && !f.gives.empty()) {
            char q = f.gives[0];
            void* p = const_cast<void*>(res.p);
            if (q == 'd' && name == "helicsMessageDataBuffer") continue;
            auto& v = h[q];
            if (q == 'f' || q == 'c' || q == 'b') continue;  // further references to the same object
            if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p);
        }
    }
    for (auto* q : h['q']) if (q != live.query) helicsQueryFree(q);
    for (auto* q : h['n']) if (q != live.info) helicsFederateInfoFree(q);
    for (auto* q : h['d']) if (q != live.buf) helicsDataBufferFree(q);
    if (idx < 1) vh::sample(std::to_string(fns.size()) + " functions, 250 calls");
}
