// Monitors of the wire codec: ActionMessage frames (round trips, byte-swapped frames, packets, JSON, multi messages, malformed bytes).
#include "vh.hpp"

#include "helics/core/ActionMessage.hpp"
#include "helics/core/flagOperations.hpp"

#include <memory>
#include <sstream>

using namespace helics;
using vh::Rng;

static std::string bytesOf(Rng& r, size_t n)
{
    std::string s(n, '\0');
    const int kind = static_cast<int>(r(5));
    for (auto& c : s) {
        switch (kind) {
            case 0:
                c = static_cast<char>(r(256));
                break;
            case 1:
                c = static_cast<char>(32 + r(95));
                break;
            case 2:
                c = "{}[]\"\\,:\n\0\x7f/"[r(12)];
                break;
            case 3:
                c = static_cast<char>(r.pick({0xF3, 0xFA, 0xFC, 0x00, 0x01, 0x7b}));
                break;
            default:
                c = static_cast<char>('a' + r(26));
        }
    }
    if (kind == 4 && n > 4 && r.chance(30)) {
        s.replace(1, 3, "\xE2\x82\xAC");
    }
    return s;
}
static size_t sizeOf(Rng& r)
{
    switch (r(8)) {
        case 0:
            return 0;
        case 1:
            return static_cast<size_t>(r(4));
        case 2:
            return 50 + r(30);
        case 3:
            return 250 + r(20);
        case 4:
            return r(2000);
        default:
            return r(60);
    }
}
static int32_t int32Of(Rng& r)
{
    switch (r(5)) {
        case 0:
            return r.pick({0, 1, -1, INT32_MAX, INT32_MIN, 255, 256, 65535, 65536, 131072});
        case 1:
            return static_cast<int32_t>(r.next());
        default:
            return static_cast<int32_t>(r(400000));
    }
}
static int64_t int64Of(Rng& r)
{
    switch (r(4)) {
        case 0:
            return r.pick<int64_t>({0, 1, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 1000000000LL, 255});
        case 1:
            return static_cast<int64_t>(r.next());
        default:
            return r.range(-1000000000LL, 100000000000LL);
    }
}
static const std::vector<int32_t>& actions()
{
    static const std::vector<int32_t> a = [] {
        std::vector<int32_t> v;
        // every code with a name (found through the library itself) in the range where the codes live
        for (int32_t c = -2000; c <= 4000; ++c) {
            if (std::string(actionMessageType(static_cast<action_message_def::action_t>(c))) != "unknown") {
                v.push_back(c);
            }
        }
        for (int32_t c = 65500; c <= 70000; ++c) {
            if (std::string(actionMessageType(static_cast<action_message_def::action_t>(c))) != "unknown") {
                v.push_back(c);
            }
        }
        for (int32_t c = 0x10000000 - 10; c <= 0x10000000 + 4000; ++c) {
            if (std::string(actionMessageType(static_cast<action_message_def::action_t>(c))) != "unknown") {
                v.push_back(c);
            }
        }
        return v;
    }();
    return a;
}
static ActionMessage randMessage(Rng& r, size_t hugePayload = 0)
{
    action_message_def::action_t act = CMD_PUB;
    switch (r(6)) {
        case 0:
            act = CMD_TIME_REQUEST;
            break;
        case 1:
            act = static_cast<action_message_def::action_t>(int32Of(r));
            break;
        case 2:
            act = CMD_SEND_MESSAGE;
            break;
        default:
            act = static_cast<action_message_def::action_t>(actions()[r(actions().size())]);
    }
    if (act == CMD_INVALID || (hugePayload != 0 && act == CMD_TIME_REQUEST)) {
        act = CMD_PUB;
    }
    ActionMessage m(act);
    m.messageID = int32Of(r);
    m.source_id = GlobalFederateId(int32Of(r));
    m.source_handle = InterfaceHandle(int32Of(r));
    m.dest_id = GlobalFederateId(int32Of(r));
    m.dest_handle = InterfaceHandle(int32Of(r));
    m.counter = static_cast<uint16_t>(r.next());
    m.flags = static_cast<uint16_t>(r.next());
    clearActionFlag(m, use_json_serialization_flag);
    m.sequenceID = static_cast<uint32_t>(int32Of(r));
    m.actionTime.setBaseTimeCode(int64Of(r));
    if (act == CMD_TIME_REQUEST || r.chance(20)) {
        m.Te.setBaseTimeCode(int64Of(r));
        m.Tdemin.setBaseTimeCode(int64Of(r));
        m.Tso.setBaseTimeCode(int64Of(r));
    }
    if (act != CMD_TIME_REQUEST || r.chance(20)) {
        if (hugePayload != 0) {
            std::string p(hugePayload, 'x');
            for (size_t i = 0; i < p.size(); i += 997) {
                p[i] = static_cast<char>(r(256));
            }
            p.back() = '!';
            m.payload = p;
        } else {
            m.payload = bytesOf(r, sizeOf(r));
        }
        int ns = r.chance(50) ? 0 : static_cast<int>(r(r.chance(5) ? 254 : 6));
        for (int i = 0; i < ns; ++i) {
            m.setString(i, bytesOf(r, sizeOf(r)));
        }
    }
    return m;
}
static std::string describe(const ActionMessage& m)
{
    std::ostringstream o;
    o << "action " << static_cast<int>(m.action()) << " id " << m.messageID << " src " << m.source_id.baseValue() << '/' << m.source_handle.baseValue()
      << " dst " << m.dest_id.baseValue() << '/' << m.dest_handle.baseValue() << " counter " << m.counter << " flags " << m.flags << " seq "
      << m.sequenceID << " time " << m.actionTime.getBaseTimeCode() << " Te " << m.Te.getBaseTimeCode() << " Tdemin " << m.Tdemin.getBaseTimeCode()
      << " Tso " << m.Tso.getBaseTimeCode() << " payload " << m.payload.size() << " strings " << m.getStringData().size();
    return o.str();
}
// empty when b is what a decodes to
static std::string diff(const ActionMessage& a, const ActionMessage& b, bool timeReqKeepsData)
{
#define CMP(x)                                                                                                                                 \
    if (a.x != b.x) return #x
    if (a.action() != b.action()) {
        return "action";
    }
    CMP(messageID);
    CMP(source_id);
    CMP(source_handle);
    CMP(dest_id);
    CMP(dest_handle);
    CMP(counter);
    CMP(flags);
    CMP(sequenceID);
    CMP(actionTime);
    if (a.action() == CMD_TIME_REQUEST) {
        CMP(Te);
        CMP(Tdemin);
        CMP(Tso);
        if (!timeReqKeepsData) {
            if (b.payload.size() != 0 || !b.getStringData().empty()) {
                return "left-over data";
            }
            return {};
        }
    }
    if (std::string(a.payload.to_string()) != std::string(b.payload.to_string())) {
        return "payload";
    }
    if (a.getStringData() != b.getStringData()) {
        return "strings";
    }
    return {};
}
// an object that held something else before
static ActionMessage dirty(Rng& r)
{
    if (r.chance(40)) {
        return ActionMessage{};
    }
    ActionMessage m = randMessage(r);
    if (r.chance(50)) {
        m.payload = bytesOf(r, 1 + r(200));
        m.setString(static_cast<int>(r(4)), "left over");
    }
    return m;
}
static void check(const std::string& how, const ActionMessage& m, const ActionMessage& got, size_t used, size_t expect, bool keeps = false)
{
    vh::stat("frames_decoded");
    if (used != expect) {
        vh::viol("*", how + "-size", how + ": decoded " + std::to_string(used) + " bytes of a frame of " + std::to_string(expect) + ": " + describe(m));
        return;
    }
    auto d = diff(m, got, keeps);
    if (!d.empty()) {
        vh::viol("*", how + "-" + d, how + ": " + d + " changed: sent " + describe(m) + " received " + describe(got));
    }
}
// exact-size heap copy so that ASan sees any read outside
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const std::string& s): p(new char[s.size() ? s.size() : 1]), n(s.size())
    {
        if (n) {
            memcpy(p.get(), s.data(), n);
        }
    }
    const std::byte* b() const { return reinterpret_cast<const std::byte*>(p.get()); }
    std::string_view v() const { return {p.get(), n}; }
};
static size_t wireSize(const ActionMessage& m)
{
    if (m.action() == CMD_TIME_REQUEST) {
        return 45 + 24;
    }
    size_t n = 45 + m.payload.size();
    for (auto& s : m.getStringData()) {
        n += 4 + s.size();
    }
    if (m.payload.size() >= 0xFFFFFF) {
        n += 4;
    }
    return n;
}
template<class T>
static void putBE(std::string& o, T v)
{
    using U = std::make_unsigned_t<T>;
    U u = static_cast<U>(v);
    for (int i = sizeof(T) - 1; i >= 0; --i) {
        o.push_back(static_cast<char>((u >> (8 * i)) & 0xFF));
    }
}
// the frame a big-endian computer sends
static std::string bigEndianFrame(const ActionMessage& m)
{
    std::string o;
    const bool tr = m.action() == CMD_TIME_REQUEST;
    size_t n = tr ? 0 : m.payload.size();
    o.push_back('\0');
    o.push_back(static_cast<char>(n >> 16));
    o.push_back(static_cast<char>(n >> 8));
    o.push_back(static_cast<char>(n));
    putBE<int32_t>(o, static_cast<int32_t>(m.action()));
    putBE<int32_t>(o, m.messageID);
    putBE<int32_t>(o, m.source_id.baseValue());
    putBE<int32_t>(o, m.source_handle.baseValue());
    putBE<int32_t>(o, m.dest_id.baseValue());
    putBE<int32_t>(o, m.dest_handle.baseValue());
    putBE<uint16_t>(o, m.counter);
    putBE<uint16_t>(o, m.flags);
    putBE<uint32_t>(o, m.sequenceID);
    putBE<int64_t>(o, m.actionTime.getBaseTimeCode());
    if (tr) {
        putBE<int64_t>(o, m.Te.getBaseTimeCode());
        putBE<int64_t>(o, m.Tdemin.getBaseTimeCode());
        putBE<int64_t>(o, m.Tso.getBaseTimeCode());
        o.push_back('\0');
        return o;
    }
    o += m.payload.to_string();
    o.push_back(static_cast<char>(m.getStringData().size()));
    for (auto& s : m.getStringData()) {
        putBE<uint32_t>(o, static_cast<uint32_t>(s.size()));
        o += s;
    }
    return o;
}

static void roundCase(Rng& r, long idx)
{
    size_t huge = 0;
    if (idx % 400 == 7) {
        huge = r.pick<size_t>({0xFFFFFD, 0xFFFFFE, 0xFFFFFF, 0x1000000, 0x1000001, 0x1000400, 65535, 65536, 70000, 0x100000});
    }
    for (int rep = 0; rep < (huge ? 1 : 12); ++rep) {
        const ActionMessage m = randMessage(r, huge);
        const ActionMessage copy(m);
        vh::distinct(vh::mix(static_cast<uint64_t>(static_cast<int32_t>(m.action())),
                             vh::mix(m.payload.size(), m.getStringData().size() * 1000 + (m.getStringData().empty() ? 0 : m.getStringData()[0].size()))));
        const size_t n = wireSize(m);
        if (static_cast<size_t>(m.serializedByteCount()) != n) {
            vh::viol("*", "byte-count", "serializedByteCount " + std::to_string(m.serializedByteCount()) + " but the frame needs " + std::to_string(n) + ": " + describe(m));
        }
        const std::string s = m.to_string();
        if (s.size() != n) {
            vh::viol("*", "frame-size", "to_string made " + std::to_string(s.size()) + " bytes instead of " + std::to_string(n) + ": " + describe(m));
        }
        // same bytes whichever way
        auto vec = m.to_vector();
        std::vector<char> vec2(r(300), 'q');
        m.to_vector(vec2);
        std::string s2(r(300), 'q');
        m.to_string(s2);
        if (std::string(vec.begin(), vec.end()) != s || vec2 != vec || s2 != s) {
            vh::viol("*", "frames-differ", "to_string and to_vector give different frames: " + describe(m));
        }
        {
            auto d = dirty(r);
            size_t u = d.from_string(s);
            check("from_string", m, d, u, n);
        }
        {
            auto d = dirty(r);
            size_t u = d.from_vector(vec);
            check("from_vector", m, d, u, n);
        }
        {
            auto d = dirty(r);
            Exact e(s + bytesOf(r, r(20)));
            size_t u = d.fromByteArray(e.b(), e.n);
            check("fromByteArray", m, d, u, n);
        }
        {
            ActionMessage a1(s), a2(vec), a3(s.data(), s.size());
            check("constructor", m, a1, n, n);
            check("constructor", m, a2, n, n);
            check("constructor", m, a3, n, n);
        }
        // a buffer of the caller: written completely or refused, never overrun (exact heap block, ASan watches)
        for (int k = 0; k < 4; ++k) {
            size_t cap = k == 0 ? n : (k == 1 ? (n ? n - 1 : 0) : (k == 2 ? static_cast<size_t>(r(n + 1)) : n + r(50)));
            if (m.action() == CMD_TIME_REQUEST && k == 2) {
                cap = 45 + r(24);
            }
            std::unique_ptr<std::byte[]> buf(new std::byte[cap ? cap : 1]);
            memset(buf.get(), 0xA5, cap ? cap : 1);
            int w = m.toByteArray(buf.get(), cap);
            vh::stat("buffer_writes");
            if (cap < n) {
                if (w != -1) {
                    vh::viol("*", "short-buffer", "toByteArray returned " + std::to_string(w) + " for a buffer of " + std::to_string(cap) + " and a frame of " +
                                                      std::to_string(n) + ": " + describe(m));
                }
            } else if (w != static_cast<int>(n) || memcmp(buf.get(), s.data(), n) != 0) {
                vh::viol("*", "toByteArray", "toByteArray returned " + std::to_string(w) + " for a frame of " + std::to_string(n) + ": " + describe(m));
            }
        }
        // an incomplete frame is refused
        if (n > 1) {
            size_t cut = r.chance(50) ? n - 1 : static_cast<size_t>(r(n));
            Exact e(s.substr(0, cut));
            ActionMessage d;
            size_t u = d.fromByteArray(e.b(), e.n);
            vh::stat("truncated_frames");
            if (u != 0) {
                vh::viol("*", "truncated-accepted", "a frame cut to " + std::to_string(cut) + " of " + std::to_string(n) + " bytes decoded as " +
                                                        std::to_string(u) + " bytes: " + describe(m));
            }
        }
        // a frame from a computer of the other byte order
        if (m.payload.size() < 0xFFFFFF) {
            Exact e(bigEndianFrame(m));
            auto d = dirty(r);
            size_t u = d.fromByteArray(e.b(), e.n);
            check("other-byte-order", m, d, u, n);
        }
        // packets of stream transports
        if (n + 4 <= 0xFFFFFF) {
            std::string p = m.packetize();
            std::string p2(r(200), 'z');
            m.packetize(p2);
            if (p != p2) {
                vh::viol("*", "packets-differ", "packetize gives different packets: " + describe(m));
            }
            if (p.size() != n + 6) {
                vh::viol("*", "packet-size", "packet of " + std::to_string(p.size()) + " bytes for a frame of " + std::to_string(n) + ": " + describe(m));
            }
            {
                auto d = dirty(r);
                Exact e(p + bytesOf(r, r(20)));
                size_t u = d.depacketize(e.p.get(), e.n);
                check("depacketize", m, d, u, n + 6);
            }
            {
                auto d = dirty(r);
                size_t u = d.from_string(p);
                check("packet-from_string", m, d, u, n + 6);
            }
            size_t cut = r.chance(50) ? p.size() - 1 : static_cast<size_t>(r(p.size()));
            Exact e(p.substr(0, cut));
            ActionMessage d;
            size_t u = cut ? d.depacketize(e.p.get(), e.n) : 0;
            vh::stat("truncated_frames");
            if (u != 0) {
                vh::viol("*", "truncated-packet", "a packet cut to " + std::to_string(cut) + " of " + std::to_string(p.size()) + " bytes was accepted: " + describe(m));
            }
        }
        if (m.payload.size() < 0x100000) {
            std::string j = m.to_json_string();
            {
                auto d = dirty(r);
                bool ok = d.from_json_string(j);
                check("json", m, d, ok ? 1 : 0, 1, true);
            }
            {
                auto d = dirty(r);
                size_t u = d.from_string(j);
                check("json-from_string", m, d, u, j.size(), true);
            }
            {
                auto d = dirty(r);
                size_t u = d.from_vector(std::vector<char>(j.begin(), j.end()));
                check("json-from_vector", m, d, u, j.size(), true);
            }
            std::string p = m.packetize_json();
            auto d = dirty(r);
            size_t u = d.depacketize(p.data(), p.size());
            check("json-packet", m, d, u, p.size(), true);
            ActionMessage jm(m);
            setActionFlag(jm, use_json_serialization_flag);
            auto js = jm.to_string();
            auto d2 = dirty(r);
            u = d2.from_string(js);
            check("json-flag", jm, d2, u, js.size(), true);
        }
        // copies, moves
        {
            ActionMessage a(m);
            check("copy", m, a, 1, 1, true);
            ActionMessage b = dirty(r);
            b = m;
            check("assign", m, b, 1, 1, true);
            ActionMessage c(std::move(a));
            check("move", m, c, 1, 1, true);
            ActionMessage d = dirty(r);
            d = std::move(b);
            check("move-assign", m, d, 1, 1, true);
            if (!(copy.Te == d.Te && copy.Tdemin == d.Tdemin && copy.Tso == d.Tso && copy.Te == c.Te && copy.Tdemin == c.Tdemin && copy.Tso == c.Tso)) {
                vh::viol("*", "copy-times", "copies do not keep the time fields: " + describe(m));
            }
            auto e = d;
            e.swapSourceDest();
            if (e.source_id != m.dest_id || e.source_handle != m.dest_handle || e.dest_id != m.source_id || e.dest_handle != m.source_handle) {
                vh::viol("*", "swap", "swapSourceDest");
            }
        }
        // messages <-> commands
        {
            auto msg = std::make_unique<Message>();
            msg->data = m.payload;
            msg->dest = bytesOf(r, sizeOf(r));
            msg->source = bytesOf(r, sizeOf(r));
            msg->original_source = bytesOf(r, sizeOf(r));
            msg->original_dest = bytesOf(r, sizeOf(r));
            msg->time = m.actionTime;
            msg->flags = m.flags;
            msg->messageID = m.messageID;
            const Message ref(*msg);
            ActionMessage cmd = dirty(r);
            bool ctor = r.chance(50);
            if (ctor) {
                cmd = ActionMessage(std::move(msg));
            } else {
                cmd = std::move(msg);
            }
            auto frame = ActionMessage(cmd);
            clearActionFlag(frame, use_json_serialization_flag);
            ActionMessage rx = dirty(r);
            rx.from_string(frame.to_string());
            auto out = r.chance(50) ? createMessageFromCommand(rx) : createMessageFromCommand(std::move(rx));
            vh::stat("messages_converted");
            uint16_t fl = ref.flags;
            if (out->dest != ref.dest || out->source != ref.source || out->original_source != ref.original_source ||
                out->original_dest != ref.original_dest || out->time != ref.time || out->messageID != ref.messageID ||
                ((out->flags ^ fl) & static_cast<uint16_t>(~(1U << use_json_serialization_flag))) != 0 ||
                std::string(out->data.to_string()) != std::string(ref.data.to_string())) {
                vh::viol("*", "message-conversion", "a message changed when converted to a command and back");
            }
            if (cmd.action() != CMD_SEND_MESSAGE) {
                vh::viol("*", "message-action", "message converted to another command");
            }
            for (size_t k = 0; k <= 5; ++k) {
                ActionMessage part(CMD_SEND_MESSAGE);
                std::vector<std::string> ss;
                for (size_t i = 0; i < k; ++i) {
                    ss.push_back("s" + std::to_string(i) + bytesOf(r, r(70)));
                    part.setString(static_cast<int>(i), ss.back());
                }
                ss.resize(5);
                ActionMessage p2(part);
                for (auto* o : {createMessageFromCommand(part).release(), createMessageFromCommand(std::move(p2)).release()}) {
                    if (o->dest != ss[0] || o->source != ss[1] || o->original_source != ss[2] || o->original_dest != ss[3]) {
                        vh::viol("*", "message-strings", "strings of a command with " + std::to_string(k) + " strings end in the wrong message fields");
                    }
                    delete o;
                }
            }
        }
        // text forms exist for every command
        {
            auto t = prettyPrintString(m);
            auto e = errorMessageString(m);
            if (t.empty()) {
                vh::viol("*", "pretty", "empty description: " + describe(m));
            }
            if (checkActionFlag(m, error_flag) == e.empty() && !(checkActionFlag(m, error_flag) && !m.getStringData().empty())) {
                if (!checkActionFlag(m, error_flag)) {
                    vh::viol("*", "error-string", "error text for a command without the error flag");
                }
            }
            if (m.getString(-1).size() + m.getString(static_cast<int>(m.getStringData().size())).size() + m.getString(100000).size() != 0) {
                vh::viol("*", "getString", "strings outside the list are not empty");
            }
        }
        // several commands in one
        if (!huge) {
            ActionMessage multi(CMD_MULTI_MESSAGE);
            std::vector<ActionMessage> parts;
            int k = static_cast<int>(r(r.chance(3) ? 300 : 6));
            for (int i = 0; i < k; ++i) {
                auto pm = randMessage(r);
                int loc = appendMessage(multi, pm);
                if (i < 255 ? loc != i + 1 : loc != -1) {
                    vh::viol("*", "append", "appendMessage " + std::to_string(i) + " returned " + std::to_string(loc));
                }
                if (loc > 0) {
                    parts.push_back(pm);
                }
            }
            if (multi.counter < 255) {
                ActionMessage rx = dirty(r);
                rx.from_string(multi.to_string());
                if (rx.counter != parts.size()) {
                    vh::viol("*", "multi-count", "a multi message lost parts");
                }
                for (int i = 0; i < rx.counter; ++i) {
                    ActionMessage p = dirty(r);
                    auto u = p.from_string(rx.getString(i));
                    check("multi", parts[static_cast<size_t>(i)], p, u, wireSize(parts[static_cast<size_t>(i)]));
                }
            }
            ActionMessage other(CMD_PUB);
            if (appendMessage(other, m) != -1 || !other.getStringData().empty()) {
                vh::viol("*", "append-other", "appendMessage to a command that is not a multi message");
            }
        }
        vh::progress();
    }
    if (idx < 3) {
        vh::sample(describe(randMessage(r)));
    }
}

// malformed input: whatever the bytes, decoding stays inside them (ASan/UBSan watch), reports no more than it was given, and the
// object remains usable
static void malformedOne(Rng& r, const std::string& bytes, const char* kind)
{
    Exact e(bytes);
    vh::stat("malformed_inputs");
    auto use = [&](ActionMessage& d, size_t u, const char* how) {
        if (u > e.n) {
            vh::viol("*", std::string("overrun-") + how, std::string(how) + " (" + kind + ") reports " + std::to_string(u) + " of " + std::to_string(e.n) + " bytes used");
        }
        if (u != 0) {
            vh::stat("malformed_accepted");
        }
        // whatever came out can be used
        (void)prettyPrintString(d);
        (void)errorMessageString(d);
        (void)createMessageFromCommand(d);
        if (u != 0 && d.action() != CMD_INVALID) {
            clearActionFlag(d, use_json_serialization_flag);
            auto s = d.to_string();
            ActionMessage d2;
            auto u2 = d2.from_string(s);
            if (u2 != s.size() && d.getStringData().size() < 255) {
                vh::viol("*", "reencode", std::string(how) + ": a decoded command cannot be encoded and decoded again: " + describe(d));
            }
        }
        ActionMessage good(CMD_PUB);
        good.payload = "good";
        good.setStringData("a", "b");
        auto s = good.to_string();
        if (d.from_string(s) != s.size() || !diff(good, d, false).empty()) {
            vh::viol("*", "unusable-after", std::string(how) + ": an object fails to decode a good frame after a bad one");
        }
    };
    {
        auto d = dirty(r);
        use(d, d.fromByteArray(e.b(), e.n), "fromByteArray");
    }
    {
        auto d = dirty(r);
        use(d, d.depacketize(e.p.get(), e.n), "depacketize");
    }
    {
        auto d = dirty(r);
        use(d, d.from_string(e.v()), "from_string");
    }
    {
        auto d = dirty(r);
        std::vector<char> v(e.v().begin(), e.v().end());
        v.shrink_to_fit();
        use(d, d.from_vector(v), "from_vector");
    }
    {
        auto d = dirty(r);
        use(d, d.from_json_string(e.v()) ? e.n : 0, "from_json_string");
    }
}
static std::string mutate(Rng& r, std::string s)
{
    int n = static_cast<int>(r(4)) + 1;
    for (int i = 0; i < n && !s.empty(); ++i) {
        size_t p = r.chance(60) ? static_cast<size_t>(r(std::min<size_t>(s.size(), 60))) : static_cast<size_t>(r(s.size()));
        switch (r(7)) {
            case 0:
                s[p] = static_cast<char>(r(256));
                break;
            case 1:
                s[p] = static_cast<char>(r.pick({0x00, 0xFF, 0x7F, 0x80, 0xF3, 0xFA, 0xFC, 0x7B, 0x01}));
                break;
            case 2:
                s.erase(p, r(8) + 1);
                break;
            case 3:
                s.insert(p, bytesOf(r, r(8) + 1));
                break;
            case 4:
                s.resize(p);
                break;
            case 5:
                s[p] = static_cast<char>(s[p] ^ (1 << r(8)));
                break;
            default: {
                // length fields
                size_t q = 1 + r(3);
                if (q < s.size()) {
                    s[q] = static_cast<char>(r.pick({0, 1, 2, 3, 4, 5, 6, 255, 44, 45, 46}));
                }
            }
        }
    }
    return s;
}
static std::string tinyPacket(Rng& r)
{
    // packets whose declared length is below, at or just above what a packet needs
    size_t n = r(60);
    std::string s = bytesOf(r, n < 6 ? 6 : n);
    s[0] = '\xF3';
    size_t len = r(s.size() + 4);
    s[1] = 0;
    s[2] = 0;
    s[3] = static_cast<char>(len);
    if (r.chance(80)) {
        if (len < s.size() && len != 3) {
            s[len] = '\xFA';
        }
        if (len + 1 < s.size()) {
            s[len + 1] = '\xFC';
        }
    }
    if (r.chance(20)) {
        // length bytes that are tail characters themselves
        s[1] = r.chance(50) ? '\0' : '\xFA';
        s[2] = r.chance(50) ? '\xFA' : '\0';
        s[3] = r.pick<char>({'\0', '\1', '\2', '\3', '\xFC', '\xFA'});
    }
    return s;
}
static std::string nestedPacket(Rng& r, size_t depth)
{
    // a packet in a packet in a packet ... : F3 len ... FA FC around each
    std::string inner = r.chance(50) ? ActionMessage(CMD_PUB).to_string() : bytesOf(r, r(50));
    std::string head, tail;
    for (size_t i = 0; i < depth; ++i) {
        size_t len = inner.size() + 6 * i + 4;
        std::string h;
        h.push_back('\xF3');
        h.push_back(static_cast<char>(len >> 16));
        h.push_back(static_cast<char>(len >> 8));
        h.push_back(static_cast<char>(len));
        head.insert(0, h);
        tail += "\xFA\xFC";
        if (len > 0xFFFFF0) {
            break;
        }
    }
    return head + inner + tail;
}
static std::string oddJson(Rng& r)
{
    ActionMessage m = randMessage(r);
    std::string j = m.to_json_string();
    auto subst = [&](const std::string& key, const std::string& val) {
        auto p = j.find("\"" + key + "\":");
        if (p == std::string::npos) {
            return;
        }
        p += key.size() + 3;
        auto q = j.find_first_of(",}", p);
        if (q != std::string::npos) {
            j.replace(p, q - p, val);
        }
    };
    const char* keys[] = {"command", "messageId", "sourceId", "sourceHandle", "destId", "destHandle", "counter", "flags", "sequenceId", "actionTime", "payload", "stringCount", "strings", "encoding", "Te"};
    const char* vals[] = {"-1", "0", "255", "256", "300", "-5", "70000", "1e3", "\"text\"", "null", "[]", "{}", "true", "[1,2]", "2147483648", "\"base64\"", "99999999999999999999", "[[[[1]]]]"};
    int n = 1 + static_cast<int>(r(3));
    for (int i = 0; i < n; ++i) {
        subst(keys[r(15)], vals[r(18)]);
    }
    return r.chance(30) ? mutate(r, j) : j;
}
static void malformedCase(Rng& r, long idx)
{
    for (int rep = 0; rep < 20; ++rep) {
        std::string b;
        const char* kind = "";
        switch (r(7)) {
            case 0:
                kind = "random";
                b = bytesOf(r, r(200));
                break;
            case 1:
                kind = "mutated frame";
                b = mutate(r, randMessage(r).to_string());
                break;
            case 2:
                kind = "mutated packet";
                b = mutate(r, randMessage(r).packetize());
                break;
            case 3:
                kind = "tiny packet";
                b = tinyPacket(r);
                break;
            case 4:
                kind = "odd json";
                b = oddJson(r);
                break;
            case 5: {
                kind = "odd json packet";
                std::string j = oddJson(r);
                size_t len = j.size() + 4;
                b = std::string("\xF3") + static_cast<char>(len >> 16) + static_cast<char>(len >> 8) + static_cast<char>(len) + j + "\xFA\xFC";
                break;
            }
            default: {
                kind = "mutated big endian frame";
                b = mutate(r, bigEndianFrame(randMessage(r)));
            }
        }
        vh::distinct(vh::hashStr(b));
        malformedOne(r, b, kind);
        vh::progress();
    }
    if (idx % 50 == 3) {
        auto b = nestedPacket(r, r.pick<size_t>({2, 3, 10, 1000, 20000, 200000}));
        malformedOne(r, b, "nested packets");
        vh::stat("nested_packets");
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](Rng& r, long i) {
        if (vh::st().a.profile == "malformed") {
            malformedCase(r, i);
        } else {
            roundCase(r, i);
        }
    });
}
