// values through real federations: two federates on one core, one step at a time
struct Duo {
    std::shared_ptr<Broker> brk;
    std::shared_ptr<Core> core;
    std::unique_ptr<ValueFederate> A, B;
    double now{0};
    Duo(long idx)
    {
        std::string tag = std::to_string(getpid()) + "_" + std::to_string(idx);
        brk = BrokerFactory::create(CoreType::TEST, "vb" + tag, "-f 2 --log_level=no_print");
        core = CoreFactory::create(CoreType::TEST, "vc" + tag, "--broker=vb" + tag + " -f 2 --log_level=no_print");
        FederateInfo fi(CoreType::TEST);
        fi.coreName = "vc" + tag;
        A = std::make_unique<ValueFederate>("A" + tag, fi);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE, true);
        B = std::make_unique<ValueFederate>("B" + tag, fi);
    }
    void start()
    {
        A->enterExecutingModeAsync();
        B->enterExecutingMode();
        A->enterExecutingModeComplete();
    }
    void step()
    {
        now += 1.0;
        A->requestTimeAsync(now);
        Time g = B->requestTime(now);
        Time h = A->requestTimeComplete();
        if (g != Time(now) || h != Time(now)) vh::viol("*", "step-time", "asked for " + num(now) + " got " + num(static_cast<double>(g)) + "/" + num(static_cast<double>(h)));
        vh::progress();
    }
    ~Duo()
    {
        try {
            A->finalizeAsync();
            B->finalize();
            A->finalizeComplete();
            A.reset();
            B.reset();
            brk->waitForDisconnect(std::chrono::milliseconds(3000));
            core.reset();
            brk.reset();
            cleanupHelicsLibrary();
        }
        catch (const std::exception& e) {
            vh::viol("*", "teardown", e.what());
        }
    }
};
static const char* typeText(DataType t, Rng& r)
{
    switch (t) {
        case DataType::HELICS_DOUBLE: return r.pick({"double", "float", "d"});
        case DataType::HELICS_INT: return r.pick({"int", "int64", "long", "integer"});
        case DataType::HELICS_STRING: return r.pick({"string", "s"});
        case DataType::HELICS_COMPLEX: return r.pick({"complex", "pair"});
        case DataType::HELICS_VECTOR: return r.pick({"vector", "double_vector"});
        case DataType::HELICS_COMPLEX_VECTOR: return r.pick({"complex_vector", "cv"});
        case DataType::HELICS_NAMED_POINT: return r.pick({"named_point", "np"});
        case DataType::HELICS_BOOL: return r.pick({"bool", "boolean"});
        case DataType::HELICS_TIME: return r.pick({"time", "tm"});
        case DataType::HELICS_JSON: return "json";
        default: return r.pick({"any", "def"});
    }
}
static void pubAny(Publication& p, const Val& a, Rng& r)
{
    switch (a.k) {
        case D: p.publish(a.d); break;
        case I:
            if (a.i >= INT32_MIN && a.i <= INT32_MAX && r.chance(40)) p.publish(static_cast<int>(a.i));
            else p.publish(a.i);
            break;
        case S:
            if (a.s.find('\0') == std::string::npos && r.chance(30)) p.publish(a.s.c_str());
            else p.publish(a.s);
            break;
        case C:
            if (r.chance(30)) {
                double x[2] = {a.c.real(), a.c.imag()};
                p.publishComplex(x, 1);
            } else p.publish(a.c);
            break;
        case V: if (r.chance(50)) p.publish(a.v); else p.publish(a.v.data(), static_cast<int>(a.v.size())); break;
        case CV:
            if (r.chance(50) && !a.cv.empty()) {
                std::vector<double> x;
                for (auto& c : a.cv) { x.push_back(c.real()); x.push_back(c.imag()); }
                p.publishComplex(x.data(), static_cast<int>(a.cv.size()));
            } else p.publish(a.cv);
            break;
        case NP: if (r.chance(50)) p.publish(NamedPoint(a.nn, a.nv)); else p.publish(a.nn, a.nv); break;
        case B: p.publish(a.b); break;
        case T: {
            Time t;
            t.setBaseTimeCode(a.i);
            p.publish(t);
            break;
        }
        default: break;
    }
}
template<class Y> static Val readTyped(Input& in, Kind k, Rng& r, Y)
{
    Val v;
    v.k = k;
    return v;
}
static Val readAs(Input& in, Kind k, Rng& r, std::string& how)
{
    Val v;
    v.k = k;
    const bool byRef = r.chance(50);
    how = byRef ? "getValue(X&)" : "getValue<X>()";
    switch (k) {
        case D:
            if (r.chance(20)) { how = "getDouble"; v.d = in.getDouble(); }
            else if (byRef) in.getValue(v.d);
            else v.d = in.getValue<double>();
            break;
        case I: if (byRef) in.getValue(v.i); else v.i = in.getValue<int64_t>(); break;
        case S:
            if (r.chance(20)) { how = "getString"; v.s = in.getString(); }
            else if (byRef) in.getValue(v.s);
            else v.s = in.getValue<std::string>();
            break;
        case C: if (byRef) in.getValue(v.c); else v.c = in.getValue<std::complex<double>>(); break;
        case V:
            if (r.chance(25)) { how = "getValueRef"; v.v = in.getValueRef<std::vector<double>>(); }
            else if (byRef) in.getValue(v.v);
            else v.v = in.getValue<std::vector<double>>();
            break;
        case CV: if (byRef) in.getValue(v.cv); else v.cv = in.getValue<std::vector<std::complex<double>>>(); break;
        case NP: {
            NamedPoint np;
            if (byRef) in.getValue(np); else np = in.getValue<NamedPoint>();
            v.nn = np.name;
            v.nv = np.value;
            break;
        }
        case B: if (byRef) in.getValue(v.b); else v.b = in.getValue<bool>(); break;
        case T: {
            Time t;
            if (byRef) in.getValue(t); else t = in.getValue<Time>();
            v.i = t.getBaseTimeCode();
            break;
        }
        default: break;
    }
    return v;
}
// what travels: the value as the publication's type carries it
static bool carried(const Val& a0, DataType dt, int pk, Val& mid)
{
    Val a = a0;
    if (a.k == T) a = mkI(a.i);  // a time is published as its count of base units
    if (a.k == B) a = mkS(a.b ? "1" : "0");
    if (!publishable(a, pk)) return false;
    if (pk == S && a.k == V && false) return false;
    try {
        Rng dummy(1);
        SmallBuffer b = [&]() {
            switch (a.k) {
                case C: return typeConvert(dt, a.c);
                case CV: return typeConvert(dt, a.cv);
                case V: return typeConvert(dt, a.v);
                case NP: return typeConvert(dt, NamedPoint(a.nn, a.nv));
                default: return doConvert(dt, a, dummy);
            }
        }();
        if (pk >= 0) {
            mid = extractAs(static_cast<Kind>(pk), data_view(b), dt);
        } else {
            mid = a;
            if (a.k == NP && std::isnan(a.nv)) mid = mkS(a.nn);
        }
    }
    catch (const std::exception&) {
        return false;
    }
    return true;
}
static void pubsubCase(Rng& r, long idx)
{
    Duo duo(idx);
    struct Pub {
        Publication* p;
        DataType dt;
        int pk;
        Val mid;
        bool live{false}, fresh{false}, known{false};
    };
    struct In {
        Input* in;
        size_t src;
        bool hasDefault{false};
        Val def;
        bool pending{false};  // updated and not read since
    };
    std::vector<Pub> pubs;
    std::vector<In> ins;
    const size_t np = 1 + r(5);
    for (size_t i = 0; i < np; ++i) {
        auto& [dt, pk] = pubTypes()[r(pubTypes().size())];
        std::string name = "p" + std::to_string(i);
        Publication* p = nullptr;
        if (r.chance(50)) p = &duo.A->registerPublication(name, typeText(dt, r));
        else p = &duo.A->registerPublication(name, typeNameStringRef(dt));
        pubs.push_back({p, dt, pk, {}, false, false, false});
    }
    const std::string an = duo.A->getName();
    for (size_t i = 0; i < np; ++i) {
        const size_t n = r.chance(25) ? 2 : 1;
        for (size_t j = 0; j < n; ++j) {
            std::string key = an + "/p" + std::to_string(i);
            Input* in = nullptr;
            if (r.chance(60)) {
                in = &duo.B->registerSubscription(key);
            } else {
                // the type of an input says what the values are for; it does not change what the get functions return
                in = &duo.B->registerInput("in" + std::to_string(i) + "_" + std::to_string(j), (r.chance(50) || pubs[i].p->getType() != typeNameStringRef(pubs[i].dt)) ? "any" : std::string(typeNameStringRef(pubs[i].dt)));
                in->addTarget(key);
            }
            In x{in, i, false, {}, false};
            if (r.chance(40)) {
                x.hasDefault = true;
                x.def = randVal(r, static_cast<Kind>(r.pick<int>({D, I, S, C, V, CV, NP})));
                auto& a = x.def;
                switch (a.k) {
                    case D: in->setDefault(a.d); break;
                    case I: in->setDefault(a.i); break;
                    case S: in->setDefault(a.s); break;
                    case C: in->setDefault(a.c); break;
                    case V: in->setDefault(a.v); break;
                    case CV: in->setDefault(a.cv); break;
                    default: in->setDefault(NamedPoint(a.nn, a.nv)); break;
                }
            }
            ins.push_back(x);
        }
    }
    duo.start();
    const int rounds = 30 + static_cast<int>(r(30));
    for (int round = 0; round < rounds; ++round) {
        for (auto& p : pubs) {
            p.fresh = false;
            if (!r.chance(60)) continue;
            Val a = randVal(r, static_cast<Kind>(r(KINDS)));
            Val mid;
            if (!carried(a, p.dt, p.pk, mid)) continue;
            if (a.k == CV && a.cv.empty() && p.pk < 0) continue;
            try {
                pubAny(*p.p, a, r);
            }
            catch (const std::exception& e) {
                vh::viol("*", "publish-throws", "publishing " + show(a) + " to a " + std::string(typeNameStringRef(p.dt)) + " publication throws " + e.what());
                continue;
            }
            vh::stat("values_published");
            p.mid = mid;
            p.live = p.fresh = true;
        }
        duo.step();
        for (auto& x : ins) {
            auto& p = pubs[x.src];
            std::string what = "input of a " + std::string(typeNameStringRef(p.dt)) + " publication";
            const bool upd = x.in->isUpdated();
            vh::stat("updates_checked");
            x.pending = x.pending || p.fresh;
            if (upd != x.pending) {
                vh::viol("*", "updated-flag", what + ": isUpdated " + std::to_string(upd) + " although " + (p.fresh ? "a value was published" : x.pending ? "the last update was not read" : "nothing was published"));
                continue;
            }
            if (p.fresh && x.in->getLastUpdate() != Time(duo.now)) vh::viol("*", "update-time", what + ": last update at " + num(static_cast<double>(x.in->getLastUpdate())) + " instead of " + num(duo.now));
            if (!p.live) {
                if (x.hasDefault) {
                    const Kind to = static_cast<Kind>(r(KINDS));
                    if (!readable(x.def, to)) continue;
                    std::string how;
                    try {
                        Val got = readAs(*x.in, to, r, how);
                        if (how != "getString" && how != "getValueRef") {
                            vh::stat("defaults_read");
                            Want w = convert(x.def, to);
                            if (!accept(got, w)) vh::viol("*", std::string("default-") + kname(x.def.k) + "-" + kname(to), "default " + show(x.def) + " read as " + kname(to) + " gives " + show(got));
                        } else {
                            // these convert the kept value itself
                            x.hasDefault = false;
                        }
                    }
                    catch (const std::exception&) {
                    }
                }
                continue;
            }
            if (p.fresh && r.chance(5)) {
                x.in->clearUpdate();
                x.pending = false;
                if (x.in->isUpdated()) vh::viol("*", "clear-update", what + ": still marked updated after clearUpdate");
                continue;
            }
            if (!p.fresh || r.chance(10)) continue;
            x.hasDefault = false;
            const Kind to = static_cast<Kind>(r(KINDS));
            if (!readable(p.mid, to) || (p.pk < 0 && p.mid.k == B && to == B)) continue;
            Val got;
            std::string how;
            try {
                if (r.chance(15)) {
                    // raw bytes
                    auto bytes = x.in->getBytes();
                    how = "getBytes";
                    got = extractAs(to, bytes, p.dt);
                } else if (r.chance(20) && (to == V || to == CV || to == S)) {
                    // caller's buffers: exactly as large as promised
                    got.k = to;
                    if (to == V) {
                        size_t n = x.in->getVectorSize();
                        std::unique_ptr<double[]> buf(new double[n + 1]);
                        buf[n] = 12345;
                        size_t cap = r.chance(30) ? r(n + 1) : n;
                        int m = x.in->getValue(buf.get(), static_cast<int>(cap));
                        how = "getVectorSize/getValue(double*)";
                        if (m < 0 || static_cast<size_t>(m) > cap) vh::viol("*", "vector-copy-size", what + ": getValue(double*," + std::to_string(cap) + ") returns " + std::to_string(m));
                        x.pending = false;
                        if (cap < n) continue;
                        got.v.assign(buf.get(), buf.get() + std::max(0, m));
                    } else if (to == CV) {
                        size_t cap = 1 + r(1200);
                        std::unique_ptr<double[]> buf(new double[2 * cap]);
                        int m = x.in->getComplexValue(buf.get(), static_cast<int>(cap));
                        how = "getComplexValue";
                        if (m < 0 || static_cast<size_t>(m) > cap) vh::viol("*", "complex-copy-size", what + ": getComplexValue(double*," + std::to_string(cap) + ") returns " + std::to_string(m));
                        x.pending = false;
                        if (static_cast<size_t>(m) == cap) continue;
                        for (int i = 0; i < m; ++i) got.cv.emplace_back(buf[2 * i], buf[2 * i + 1]);
                    } else {
                        size_t n = x.in->getStringSize() + 1;
                        how = "getStringSize/getValue(char*)";
                        std::unique_ptr<char[]> buf(new char[n]);
                        int m = x.in->getValue(buf.get(), static_cast<int>(n));
                        if (m < 1 || static_cast<size_t>(m) > n || buf[m - 1] != 0) {
                            vh::viol("*", "string-copy-size", what + ": getValue(char*," + std::to_string(n) + ") returns " + std::to_string(m));
                            continue;
                        }
                        got.s.assign(buf.get(), static_cast<size_t>(m) - 1);
                    }
                } else {
                    got = readAs(*x.in, to, r, how);
                }
            }
            catch (const std::exception& e) {
                x.pending = x.in->isUpdated();
                if (!convert(p.mid, to).open) vh::viol("*", std::string("fed-read-throws-") + kname(to), what + ": reading " + show(p.mid) + " as " + kname(to) + " throws " + e.what());
                continue;
            }
            x.pending = false;
            vh::stat("values_read");
            vh::distinct(vh::mix(p.mid.k, vh::mix(p.pk + 5, vh::mix(to, vh::hashStr(how)))));
            Want w = convert(p.mid, to);
            // as a reference or into a buffer the text of a point is its name
            if (to == S && p.mid.k == NP && how != "getValue(X&)" && how != "getValue<X>()" && how != "getBytes") w.any.push_back(mkS(p.mid.nn));
            // kept by reference a time is its count of base units
            if (p.mid.k == T && how != "getValue(X&)" && how != "getValue<X>()" && how != "getBytes") w.open = true;
            if (!accept(got, w)) {
                vh::viol("*", std::string("fed-") + kname(p.mid.k) + "-" + kname(to), what + ": " + show(p.mid) + " read as " + kname(to) + " with " + how + " gives " + show(got));
            }
            if (x.in->isUpdated()) vh::viol("*", "still-updated", what + ": still marked updated after " + how);
            if (how != "getBytes" && !(p.mid.k == NP && to == S) && p.mid.k != T && r.chance(30)) {
                std::string how2;
                Val again = readAs(*x.in, to, r, how2);
                if (!eq(again, got, false) && !(got.k == NP && std::isnan(got.nv) && again.nn == got.nn)) {
                    vh::viol("*", std::string("reread-") + kname(to), what + ": " + show(got) + " read again with " + how2 + " gives " + show(again));
                }
            }
        }
    }
    if (idx < 2) vh::sample(std::to_string(np) + " publications, " + std::to_string(ins.size()) + " inputs, " + std::to_string(rounds) + " rounds");
}

// ------------------------------------------------------------------ several sources, one input
static void multiCase(Rng& r, long idx)
{
    Duo duo(idx);
    using M = MultiInputHandlingMethod;
    static const std::vector<M> ops{M::NO_OP, M::VECTORIZE_OPERATION, M::AND_OPERATION, M::OR_OPERATION, M::SUM_OPERATION, M::DIFF_OPERATION, M::MAX_OPERATION, M::MIN_OPERATION, M::AVERAGE_OPERATION};
    static const char* on[] = {"none", "vectorize", "and", "or", "sum", "diff", "max", "min", "average"};
    const size_t np = 2 + r(4);
    // kinds of the sources: the same or mixed numeric ones
    const int mode = static_cast<int>(r(5));  // 0 doubles 1 ints 2 vectors 3 strings 4 mixed numeric
    std::vector<Publication*> pubs;
    std::vector<Kind> pk;
    for (size_t i = 0; i < np; ++i) {
        Kind k = mode == 0 ? D : mode == 1 ? I : mode == 2 ? V : mode == 3 ? S : r.pick<Kind>({D, I, V});
        pk.push_back(k);
        pubs.push_back(&duo.A->registerPublication("p" + std::to_string(i), kname(k)==std::string("int") ? "int64" : k == D ? "double" : k == V ? "double_vector" : "string"));
    }
    struct In {
        Input* in;
        M op;
        Kind t;
        std::vector<size_t> src;
        std::vector<int> prio;
        bool pending{false};
    };
    std::vector<In> ins;
    const size_t ni = 1 + r(4);
    for (size_t j = 0; j < ni; ++j) {
        In x;
        x.op = r.pick(ops);
        x.t = mode == 3 ? S : (mode == 2 ? r.pick<Kind>({D, V}) : mode == 1 ? r.pick<Kind>({D, I}) : D);
        if (mode == 4 && r.chance(30)) x.t = V;
        x.in = &duo.B->registerInput("in" + std::to_string(j), x.t == D ? "double" : x.t == I ? "int64" : x.t == V ? "double_vector" : "string");
        for (size_t i = 0; i < np; ++i) x.src.push_back(i);
        for (size_t i = np; i > 1; --i) std::swap(x.src[i - 1], x.src[r(i)]);
        if (r.chance(40)) x.src.resize(2 + r(np - 1));
        for (auto s : x.src) x.in->addTarget(duo.A->getName() + "/p" + std::to_string(s));
        x.in->setOption(HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD, static_cast<int>(x.op));
        if (x.in->getOption(HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD) != static_cast<int>(x.op)) vh::viol("*", "multi-option", "the handling method does not read back");
        if (x.op == M::NO_OP && r.chance(60)) {
            for (size_t i = 0, n = 1 + r(3); i < n; ++i) {
                int loc = static_cast<int>(r(x.src.size()));
                x.prio.push_back(loc);
                x.in->setOption(HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION, loc);
            }
            if (r.chance(15)) {
                x.in->setOption(HELICS_HANDLE_OPTION_CLEAR_PRIORITY_LIST, 1);
                x.prio.clear();
            }
        }
        ins.push_back(x);
    }
    duo.start();
    std::vector<std::optional<Val>> cur(np);
    std::vector<int> at(np, -1);
    const int rounds = 20 + static_cast<int>(r(30));
    for (int round = 0; round < rounds; ++round) {
        for (size_t i = 0; i < np; ++i) {
            if (!r.chance(round == 0 ? 70 : 50)) continue;
            Val a;
            switch (pk[i]) {
                case D: a = mkD(r.chance(20) ? 0.0 : static_cast<double>(r.range(-4000, 4000)) / 8.0); break;
                case I: a = mkI(r.chance(20) ? 0 : r.range(-1000, 1000)); break;
                case V: {
                    std::vector<double> v;
                    for (size_t q = 0, n = 1 + r(4); q < n; ++q) v.push_back(static_cast<double>(r.range(-400, 400)) / 4.0);
                    a = mkV(v);
                    break;
                }
                default: {
                    static const std::vector<std::string> w{"0", "off", "false", "on", "yes", "abc", "zz", "b", "word one", "1"};
                    a = mkS(r.pick(w));
                }
            }
            Rng q(7);
            switch (a.k) {
                case D: pubs[i]->publish(a.d); break;
                case I: pubs[i]->publish(a.i); break;
                case V: pubs[i]->publish(a.v); break;
                default: pubs[i]->publish(a.s);
            }
            cur[i] = a;
            at[i] = round;
        }
        duo.step();
        for (auto& x : ins) {
            bool fresh = false;
            std::vector<Val> vals;
            for (auto s : x.src) {
                if (at[s] == round) fresh = true;
                if (cur[s]) vals.push_back(*cur[s]);
            }
            std::string what = std::string(on[static_cast<int>(x.op)]) + " over " + std::to_string(x.src.size()) + " sources (" + std::to_string(vals.size()) + " with a value) into a " + kname(x.t) + " input";
            if (vals.empty()) {
                if (x.in->isUpdated()) vh::viol("*", "multi-updated-early", what + ": updated before anything was published");
                continue;
            }
            const bool upd = x.in->isUpdated();
            x.pending = x.pending || fresh;
            if (upd != x.pending) {
                vh::viol("*", "multi-updated", what + ": isUpdated " + std::to_string(upd) + ", a source published this step: " + std::to_string(fresh));
            }
            if (!fresh && r.chance(70)) continue;
            x.pending = x.op == M::AVERAGE_OPERATION && x.t == S ? x.pending : false;
            auto asD = [](const Val& v) { return v.k == D ? v.d : v.k == I ? static_cast<double>(v.i) : v.v.size() == 1 ? v.v[0] : norm(v.v); };
            auto asV = [](const Val& v) { return v.k == D ? std::vector<double>{v.d} : v.k == I ? std::vector<double>{static_cast<double>(v.i)} : v.v; };
            auto truth = [&](const Val& v) { return v.k == S ? !falseText(v.s) : v.k == V ? norm(v.v) != 0 : asD(v) != 0; };
            Want w;
            Val want;
            Kind readK = x.t;
            switch (x.op) {
                case M::NO_OP: {
                    int best = -1;
                    auto rank = [&](size_t loc) {
                        for (size_t q = x.prio.size(); q-- > 0;) if (x.prio[q] == static_cast<int>(loc)) return static_cast<int>(x.prio.size() - q);
                        return 1000 + static_cast<int>(loc);
                    };
                    for (size_t l = 0; l < x.src.size(); ++l) {
                        if (!cur[x.src[l]]) continue;
                        if (best < 0 || at[x.src[l]] > at[x.src[best]] || (at[x.src[l]] == at[x.src[best]] && rank(l) < rank(best))) best = static_cast<int>(l);
                    }
                    w = convert(*cur[x.src[best]], x.t);
                    break;
                }
                case M::AND_OPERATION:
                case M::OR_OPERATION: {
                    bool all = true, any = false;
                    for (auto& v : vals) {
                        all = all && truth(v);
                        any = any || truth(v);
                    }
                    readK = B;
                    w = wOne(mkB(x.op == M::AND_OPERATION ? all : any));
                    break;
                }
                case M::SUM_OPERATION:
                    if (x.t == S) {
                        std::string s;
                        for (auto& v : vals) s += v.s;
                        w = wOne(mkS(s));
                    } else {
                        double s = 0;
                        for (auto& v : vals) for (auto e : asV(v)) s += e;
                        w = fromDouble(s, x.t, true);
                    }
                    break;
                case M::AVERAGE_OPERATION: {
                    if (x.t == S) continue;
                    double s = 0;
                    int n = 0;
                    for (auto& v : vals) for (auto e : asV(v)) { s += e; ++n; }
                    w = fromDouble(s / n, x.t, true);
                    break;
                }
                case M::DIFF_OPERATION:
                    if (x.t == S) {
                        bool diff = false;
                        for (auto& v : vals) diff = diff || v.s != vals[0].s;
                        w = wOne(mkS(diff ? "1" : "0"));
                    } else if (x.t == V) {
                        std::vector<double> f, d;
                        for (auto& v : vals) for (auto e : asV(v)) f.push_back(e);
                        for (size_t q = 1; q < f.size(); ++q) d.push_back(f[q - 1] - f[q]);
                        w = wOne(mkV(d));
                    } else if (x.t == I) {
                        int64_t s = vals[0].i;
                        for (size_t q = 1; q < vals.size(); ++q) s -= vals[q].i;
                        w = wOne(mkI(s));
                    } else {
                        double s = asD(vals[0]);
                        for (size_t q = 1; q < vals.size(); ++q) s -= asD(vals[q]);
                        w = wOne(mkD(s), true);
                    }
                    break;
                case M::MAX_OPERATION:
                case M::MIN_OPERATION: {
                    const bool mx = x.op == M::MAX_OPERATION;
                    if (x.t == S) {
                        std::string b = vals[0].s;
                        for (auto& v : vals) b = mx ? std::max(b, v.s) : std::min(b, v.s);
                        w = wOne(mkS(b));
                    } else if (x.t == V) {
                        double b = 0;
                        bool first = true;
                        for (auto& v : vals) {
                            double n = norm(asV(v));
                            if (first || (mx ? n > b : n < b)) b = n;
                            first = false;
                        }
                        for (auto& v : vals) if (close(norm(asV(v)), b)) w.any.push_back(mkV(asV(v)));
                    } else {
                        double b = asD(vals[0]);
                        for (auto& v : vals) b = mx ? std::max(b, asD(v)) : std::min(b, asD(v));
                        w = fromDouble(b, x.t, true);
                    }
                    break;
                }
                default: {  // vectorize
                    if (x.t == S) {
                        nlohmann::json j = nlohmann::json::array();
                        for (auto& v : vals) j.push_back(v.s);
                        std::string got = x.in->getValue<std::string>();
                        vh::stat("reductions_checked");
                        bool ok = false;
                        try {
                            ok = nlohmann::json::parse(got) == j;
                        }
                        catch (...) {
                        }
                        if (!ok) vh::viol("*", "multi-vectorize-string", what + " gives " + got + " instead of " + j.dump());
                        continue;
                    }
                    std::vector<double> f;
                    for (auto& v : vals) for (auto e : asV(v)) f.push_back(e);
                    readK = V;
                    w = wOne(mkV(f));
                }
            }
            std::string how;
            Val got = readAs(*x.in, readK, r, how);
            vh::stat("reductions_checked");
            vh::stat(std::string("op_") + on[static_cast<int>(x.op)]);
            vh::distinct(vh::mix(static_cast<int>(x.op), vh::mix(x.t, vh::mix(mode, vals.size() * 10 + x.src.size()))));
            if (!accept(got, w)) {
                std::string l;
                for (auto& v : vals) l += " " + show(v);
                vh::viol("*", std::string("multi-") + on[static_cast<int>(x.op)] + "-" + kname(x.t), what + (fresh ? "" : " (no new value)") + ":" + l + " gives " + show(got) + (w.any.empty() ? "" : " instead of " + show(w.any[0])) + " with " + how);
            }
        }
    }
}

// ------------------------------------------------------------------ minimum change
static void changeCase(Rng& r, long idx)
{
    Duo duo(idx);
    struct Link {
        Kind k;
        double pubDelta{-1}, inDelta{-1};
        Publication* p;
        Input* in;
        std::optional<Val> sent, taken;
        Val last;
        bool coreFilter{false};  // onlyTransmitOnChange on the publication / onlyUpdateOnChange on the input
        bool updFilter{false};
    };
    std::vector<Link> links(1 + r(5));
    auto far = [](const Val& a, const Val& b, double delta) {
        switch (a.k) {
            case D: return std::abs(a.d - b.d) > delta;
            case I: return std::abs(static_cast<double>(a.i - b.i)) > std::floor(delta);
            case S: return a.s != b.s;
            case B: return a.b != b.b;
            case C: return std::abs(a.c.real() - b.c.real()) > delta || std::abs(a.c.imag() - b.c.imag()) > delta;
            case V:
                if (a.v.size() != b.v.size()) return true;
                for (size_t i = 0; i < a.v.size(); ++i) if (std::abs(a.v[i] - b.v[i]) > delta) return true;
                return false;
            case CV:
                if (a.cv.size() != b.cv.size()) return true;
                for (size_t i = 0; i < a.cv.size(); ++i) if (std::abs(a.cv[i] - b.cv[i]) > delta) return true;
                return false;
            case NP: return a.nn != b.nn || std::abs(a.nv - b.nv) > delta;
            default: return true;
        }
    };
    size_t i = 0;
    for (auto& l : links) {
        l.k = r.pick<Kind>({D, D, I, S, C, V, CV, NP, B});
        static const char* tn[] = {"double", "int", "string", "complex", "vector", "complex_vector", "named_point", "bool"};
        const std::string key = "p" + std::to_string(i++);
        l.p = &duo.A->registerPublication(key, tn[l.k]);
        l.in = &duo.B->registerSubscription(duo.A->getName() + "/" + key);
        auto delta = [&] { return r.pick({0.0, 0.5, 0.5, 2.0, 10.0}); };
        if (r.chance(50)) {
            l.pubDelta = delta();
            l.p->setMinimumChange(l.pubDelta);
            if (r.chance(10)) {
                l.p->enableChangeDetection(false);
                l.pubDelta = -1;
            }
        } else if (r.chance(30)) {
            l.coreFilter = true;
            l.p->setOption(HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE, 1);
        }
        if (r.chance(60)) {
            l.inDelta = delta();
            l.in->setMinimumChange(l.inDelta);
            if (r.chance(10)) {
                l.in->setMinimumChange(-1.0);
                l.inDelta = -1;
            }
        } else if (r.chance(30)) {
            l.updFilter = true;
            l.in->setOption(HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE, 1);
        }
        if (l.inDelta >= 0) {
            // a default of the type that will be read is what the first value is compared with
            switch (l.k) {
                case D: l.in->setDefault(-777777.0); break;
                case I: l.in->setDefault(static_cast<int64_t>(-777777)); break;
                case S: l.in->setDefault(std::string("no value")); break;
                case C: l.in->setDefault(std::complex<double>(-777777.0, 0)); break;
                case V: l.in->setDefault(std::vector<double>(9, -777777.0)); break;
                case CV: l.in->setDefault(std::vector<std::complex<double>>(9, -777777.0)); break;
                case NP: l.in->setDefault(NamedPoint("no value", -777777.0)); break;
                default: l.in->setDefault(std::string("0")); break;
            }
        }
        auto num0 = [&] { return static_cast<double>(r.range(-40, 40)) / 4.0; };
        l.last.k = l.k;
        l.last.d = num0();
        l.last.i = r.range(-20, 20);
        l.last.s = "start";
        l.last.c = {num0(), num0()};
        l.last.v.assign(1 + r(4), num0());
        l.last.cv.assign(1 + r(4), {num0(), num0()});
        l.last.nn = "pt";
        l.last.nv = num0();
        l.last.b = true;
    }
    duo.start();
    const int rounds = 30 + static_cast<int>(r(40));
    std::vector<std::optional<Val>> onWire(links.size());
    for (int round = 0; round < rounds; ++round) {
        std::vector<char> came(links.size(), 0);
        for (size_t q = 0; q < links.size(); ++q) {
            auto& l = links[q];
            if (!r.chance(75)) continue;
            // a walk of small and large steps, so that both sides of the limit and drift below it are seen
            auto st = [&] { return r.pick({0.0, 0.0, 0.25, -0.25, 0.5, -0.5, 0.75, -0.75, 2.0, -2.0, 2.25, -2.25, 10.25, -11.0}); };
            Val v = l.last;
            v.d += st();
            v.i += static_cast<int64_t>(r.pick({0, 0, 1, -1, 2, -2, 3, -3, 11, -11}));
            if (r.chance(50)) v.s = r.pick<std::string>({"a", "b", "start"});
            v.c += cplx(r.chance(50) ? st() : 0, r.chance(50) ? st() : 0);
            if (r.chance(8)) v.v.assign(1 + r(4), st());
            else v.v[r(v.v.size())] += st();
            if (r.chance(8)) v.cv.assign(1 + r(4), {st(), st()});
            else v.cv[r(v.cv.size())] += cplx(st(), 0);
            v.nv += st();
            if (r.chance(10)) v.nn = r.pick<std::string>({"pt", "qt"});
            v.b = r.chance(50);
            l.last = v;
            switch (l.k) {
                case D: l.p->publish(v.d); break;
                case I: l.p->publish(v.i); break;
                case S: l.p->publish(v.s); break;
                case C: l.p->publish(v.c); break;
                case V: if (r.chance(50)) l.p->publish(v.v); else l.p->publish(v.v.data(), static_cast<int>(v.v.size())); break;
                case CV: {
                    if (r.chance(50)) {
                        std::vector<double> x;
                        for (auto& c : v.cv) { x.push_back(c.real()); x.push_back(c.imag()); }
                        l.p->publishComplex(x.data(), static_cast<int>(v.cv.size()));
                    } else l.p->publish(v.cv);
                    break;
                }
                case NP: if (r.chance(50)) l.p->publish(NamedPoint(v.nn, v.nv)); else l.p->publish(v.nn, v.nv); break;
                default: l.p->publish(v.b);
            }
            vh::stat("changes_offered");
            if (l.pubDelta >= 0 && l.sent && !far(v, *l.sent, l.pubDelta)) continue;  // held back by the publication
            l.sent = v;
            if (l.coreFilter && onWire[q] && eq(v, *onWire[q], false)) continue;
            if (l.updFilter && onWire[q] && eq(v, *onWire[q], false)) continue;
            onWire[q] = v;
            came[q] = 1;
        }
        duo.step();
        for (size_t q = 0; q < links.size(); ++q) {
            auto& l = links[q];
            bool want = came[q] != 0;
            if (l.inDelta >= 0 && want) {
                Val ref = l.taken ? *l.taken : Val{};
                if (!l.taken && l.k == B) {
                    ref.k = B;
                    ref.b = false;
                    want = far(*onWire[q], ref, l.inDelta);
                } else if (l.taken) {
                    want = far(*onWire[q], ref, l.inDelta);
                }
            }
            std::string what = std::string(kname(l.k)) + " publication" + (l.pubDelta >= 0 ? " with minimum change " + num(l.pubDelta) : std::string()) + (l.coreFilter ? " only on change" : "") + ", input" + (l.inDelta >= 0 ? " with minimum change " + num(l.inDelta) : std::string()) + (l.updFilter ? " only on change" : "");
            const bool upd = l.in->isUpdated();
            vh::stat("changes_checked");
            vh::stat(want ? "changes_expected" : "changes_suppressed");
            vh::distinct(vh::mix(l.k, vh::mix(static_cast<int>(l.pubDelta * 4) + 8, vh::mix(static_cast<int>(l.inDelta * 4) + 8, vh::mix(want, came[q] * 4 + l.coreFilter * 2 + l.updFilter)))));
            if (upd != want) {
                vh::viol("*", std::string("change-") + kname(l.k) + (want ? "-missed" : "-spurious"), what + ": last taken " + (l.taken ? show(*l.taken) : "nothing") + ", on the wire " + (onWire[q] ? show(*onWire[q]) : "nothing") + " (" + (came[q] ? "new" : "old") + "), isUpdated " + std::to_string(upd));
                return;
            }
            if (want) l.taken = onWire[q];
            if (l.taken && (upd || r.chance(30))) {
                std::string how;
                Val got = readAs(*l.in, l.k, r, how);
                const Val& exp = l.inDelta >= 0 ? *l.taken : *onWire[q];
                vh::stat("values_read");
                if (!eq(got, exp, false)) {
                    vh::viol("*", std::string("change-value-") + kname(l.k), what + ": reads " + show(got) + " instead of " + show(exp) + " with " + how);
                    return;
                }
            }
        }
    }
}

static void fedCase(Rng& r, long idx, const std::string& profile)
{
    if (profile == "pubsub") pubsubCase(r, idx);
    else if (profile == "multi") multiCase(r, idx);
    else changeCase(r, idx);
}
