// ------------------------------------------------------------------------------------------------ names, aliases
void namesCase(Rng& r, long idx)
{
    T.clear();
    std::string tag = I(getpid()) + "_" + I(idx);
    int nb = static_cast<int>(r(3)), nf = static_cast<int>(r.range(1, 4)), nc = static_cast<int>(r.range(1, std::min(3, nf)));
    nb = std::min(nb, nc);  // every broker has a core below
    // endpoints without targets below several brokers can stall the time coordination: see DESIGN.md
    bool withEpts = nb == 0 || r.chance(40);
    if (withEpts) nb = 0;
    auto n = std::make_unique<Net>();
    CoreType ct = CoreType::TEST;
    std::vector<int> coreOf(nf);
    for (int i = 0; i < nf; ++i) coreOf[i] = i < nc ? i : static_cast<int>(r(nc));
    n->brokers.push_back({"br" + tag, -1, nullptr});
    for (int i = 0; i < nb; ++i) n->brokers.push_back({"sb" + I(i) + "_" + tag, i == 1 && r.chance(50) ? 1 : 0, nullptr});
    n->brokers[0].b = BrokerFactory::create(ct, n->brokers[0].name, "-f " + I(nf) + " --log_level=no_print");
    for (int i = 1; i <= nb; ++i) n->brokers[i].b = BrokerFactory::create(ct, n->brokers[i].name, "--broker=" + n->brokers[n->brokers[i].parent].name + " --log_level=no_print");
    for (int i = 0; i < nc; ++i) {
        int b = i < nb ? i + 1 : static_cast<int>(r(nb + 1));
        n->cores.push_back({"co" + I(i) + "_" + tag, b, nullptr, {}});
        n->cores[i].c = CoreFactory::create(ct, n->cores[i].name, "--broker=" + n->brokers[b].name + " -f " + I(std::count(coreOf.begin(), coreOf.end(), i)) + " --log_level=no_print");
    }
    cfg = "names: brokers " + I(nb + 1) + " cores " + I(nc) + " feds " + I(nf);
    for (int i = 0; i < nf; ++i) {
        auto f = std::make_unique<Fed>();
        f->name = "fd" + I(i) + "_" + tag;
        f->core = coreOf[i];
        FederateInfo fi(ct);
        fi.coreName = n->cores[coreOf[i]].name;
        fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
        f->f = std::make_unique<CombinationFederate>(f->name, fi);
        n->feds.push_back(std::move(f));
        cfg += " " + n->feds[i]->name + "@c" + I(coreOf[i]);
    }
    // a second federate under a name already taken is refused, wherever it tries
    if (r.chance(20)) {
        int v = static_cast<int>(r(nf)), c = static_cast<int>(r(nc));
        FederateInfo fi(ct);
        fi.coreName = n->cores[c].name;
        fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
        try {
            CombinationFederate dup(n->feds[v]->name, fi);
            bad("duplicate-federate", "a second federate named " + n->feds[v]->name + " was accepted on " + n->cores[c].name);
            dup.disconnect();
        }
        catch (const RegistrationFailure&) {
            vh::stat("refused");
        }
        catch (const std::exception& e) {
            bad("duplicate-federate", std::string("wrong exception ") + e.what());
        }
        if (coreOf[v] != c) {  // the refused federate keeps a slot of its core; start no federation with it
            for (auto& f : n->feds) f->f->finalizeAsync();
            for (auto& f : n->feds) f->f->finalizeComplete();
            for (auto& f : n->feds) f->f.reset();
            for (auto& c2 : n->cores) c2.c->disconnect();
            n->brokers[0].b->disconnect();
            n.reset();
            cleanupHelicsLibrary();
            return;
        }
    }
    // ---- plan of interfaces: kind p/i/e, plain or odd names
    struct Obj {
        char kind;
        int fed;
        std::string reg, key;  // as registered, full key
        bool global;
        int ix{-1};  // index among its kind on its federate
        bool done{false};
        std::vector<std::string> calls;  // every name it answers to
        std::string val, linkName;
        int src{-1};
        bool linkDone{false}, fromPub{false};
        Tags tags;
        std::string info;
    };
    std::vector<Obj> ob;
    bool odd = r.chance(50);
    std::set<std::pair<char, std::string>> used;
    for (int f = 0; f < nf; ++f) {
        int k = static_cast<int>(r.range(0, 5));
        for (int q = 0; q < k; ++q) {
            Obj o;
            o.kind = withEpts ? "piei"[r(4)] : "pii"[r(3)];
            o.fed = f;
            o.global = r.chance(50);
            // names may repeat between kinds, and local names between federates
            std::string base = (r.chance(50) ? std::string("n") : std::string(1, o.kind)) + I(r(4)) + (odd && r.chance(30) ? "_" + word(r) : "");
            o.reg = o.global ? "G" + tag + "_" + base : base;
            o.key = o.global ? o.reg : n->feds[f]->name + "/" + base;
            if (!used.insert({o.kind, o.key}).second) continue;
            o.calls = {o.key};
            o.val = "val" + I(ob.size()) + "_" + I(r(1000));
            ob.push_back(o);
        }
    }
    auto find = [&](char kind, int fed, int ix) -> Obj* {
        for (auto& o : ob)
            if (o.kind == kind && o.fed == fed && o.ix == ix) return &o;
        return nullptr;
    };
    (void)find;
    // ---- aliases: (existing name, new name); chains allowed. An alias belongs to exactly one interface name string, which may
    // be shared by interfaces of different kinds
    std::map<std::string, std::vector<size_t>> byName;
    for (size_t i = 0; i < ob.size(); ++i) byName[ob[i].key].push_back(i);
    std::vector<std::pair<std::string, std::string>> al;
    {
        std::map<std::string, std::vector<std::string>> cls;  // key -> all names
        for (auto& b : byName) cls[b.first] = {b.first};
        std::vector<std::string> keys;
        for (auto& b : byName) keys.push_back(b.first);
        int k = keys.empty() ? 0 : static_cast<int>(r(7));
        for (int q = 0; q < k; ++q) {
            auto& key = r.pick(keys);
            auto& c = cls[key];
            if (r.chance(25) && c.size() > 1) {  // redundant: between two names that already mean the same
                al.emplace_back(r.pick(c), r.pick(c));
                continue;
            }
            std::string a = "al" + I(q) + "_" + tag + (odd && r.chance(30) ? word(r) : "");
            if (r.chance(70)) al.emplace_back(r.pick(c), a);
            else al.emplace_back(a, r.pick(c));
            c.push_back(a);
        }
        for (auto& b : byName)
            for (auto i : b.second) ob[i].calls = cls[b.first];
    }
    // ---- links by any of the names
    for (size_t i = 0; i < ob.size(); ++i)
        if (ob[i].kind == 'i') {
            std::vector<int> c;
            for (size_t k = 0; k < ob.size(); ++k)
                if (ob[k].kind == 'p' && ob[k].fed != ob[i].fed) c.push_back(static_cast<int>(k));
            if (c.empty() || r.chance(10)) continue;
            ob[i].src = r.pick(c);
            ob[i].fromPub = r.chance(40);
            ob[i].linkName = r.pick(ob[ob[i].fromPub ? i : static_cast<size_t>(ob[i].src)].calls);
        }
    // ---- do everything in random order
    struct Op {
        char what;
        size_t i;
    };
    std::vector<Op> ops;
    for (size_t i = 0; i < ob.size(); ++i) {
        ops.push_back({'R', i});
        if (ob[i].src >= 0) ops.push_back({'L', i});
    }
    for (size_t i = 0; i < al.size(); ++i) ops.push_back({'A', i});
    for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[r(i)]);
    std::vector<int> cntP(nf), cntI(nf), cntE(nf);
    auto fedOf = [&](int f) -> CombinationFederate& { return *n->feds[f]->f; };
    // one thread keeps looking names up while others register
    std::atomic<bool> stop{false};
    std::mutex dm;
    std::vector<std::pair<int, std::string>> known;
    std::thread reader;
    if (r.chance(50))
        reader = std::thread([&, seed = r.next()]() {
            Rng q(seed);
            while (!stop) {
                std::pair<int, std::string> k;
                {
                    std::lock_guard<std::mutex> l(dm);
                    if (known.empty()) continue;
                    k = known[q(known.size())];
                }
                auto& p = fedOf(k.first).getPublication(k.second);
                if (!p.isValid() || p.getName() != k.second) bad("lookup-concurrent", k.second);
                vh::stat("lookups");
            }
        });
    auto doReg = [&](Obj& o) {
        auto& f = fedOf(o.fed);
        if (o.kind == 'p') {
            auto& p = o.global ? f.registerGlobalPublication(o.reg, "string") : f.registerPublication(o.reg, "string");
            o.ix = cntP[o.fed]++;
            if (p.getName() != o.key) bad("name", "publication " + o.reg + " is called " + p.getName() + " not " + o.key);
            std::lock_guard<std::mutex> l(dm);
            known.emplace_back(o.fed, o.key);
        } else if (o.kind == 'i') {
            auto& p = o.global ? f.registerGlobalInput(o.reg, "string") : f.registerInput(o.reg, "string");
            o.ix = cntI[o.fed]++;
            if (p.getName() != o.key) bad("name", "input " + o.reg + " is called " + p.getName() + " not " + o.key);
        } else {
            auto& p = o.global ? f.registerGlobalEndpoint(o.reg) : f.registerEndpoint(o.reg);
            o.ix = cntE[o.fed]++;
            if (p.getName() != o.key) bad("name", "endpoint " + o.reg + " is called " + p.getName() + " not " + o.key);
        }
        o.done = true;
        tr("reg " + std::string(1, o.kind) + " " + o.key + "@f" + I(o.fed));
    };
    auto iface = [&](Obj& o) -> Interface& {
        auto& f = fedOf(o.fed);
        if (o.kind == 'p') return f.getPublication(o.ix);
        if (o.kind == 'i') return f.getInput(o.ix);
        return f.getEndpoint(o.ix);
    };
    std::vector<int> live;  // brokers with a core below
    for (size_t b = 0; b < n->brokers.size(); ++b)
        for (auto& c : n->cores)
            if (n->under(c.broker, static_cast<int>(b))) {
                live.push_back(static_cast<int>(b));
                break;
            }
    try {
        for (size_t k = 0; k < ops.size(); ++k) {
            auto& op = ops[k];
            if (op.what == 'R') doReg(ob[op.i]);
            else if (op.what == 'L') {
                auto& o = ob[op.i];
                auto& holder = o.fromPub ? ob[o.src] : o;
                if (!holder.done) {  // registered later: link then
                    ops.push_back(op);
                    continue;
                }
                int how = static_cast<int>(r(4));
                tr("link " + ob[o.src].key + " -> " + o.key + " by " + o.linkName);
                if (how == 0) {  // from outside, both by name
                    int w = static_cast<int>(r(3));
                    auto& pn = r.pick(ob[o.src].calls);
                    auto& in = r.pick(o.calls);
                    tr("(dataLink " + pn + " " + in + ")");
                    if (w == 0) n->brokers[r.pick(live)].b->dataLink(pn, in);
                    else n->cores[r(nc)].c->dataLink(pn, in);
                } else if (o.fromPub) fedOf(holder.fed).getPublication(holder.ix).addDestinationTarget(o.linkName);
                else fedOf(o.fed).getInput(o.ix).addSourceTarget(o.linkName);
            } else {
                auto& a = al[op.i];
                int w = static_cast<int>(r(4));
                tr("alias " + a.first + " = " + a.second);
                if (w == 0) n->brokers[r.pick(live)].b->addAlias(a.first, a.second);
                else if (w == 1) n->cores[r(nc)].c->addAlias(a.first, a.second);
                else fedOf(static_cast<int>(r(nf))).addAlias(a.first, a.second);
                vh::stat("aliases");
            }
            vh::progress();
        }
    }
    catch (const std::exception& e) {
        bad("registration-throws", e.what());
    }
    stop = true;
    if (reader.joinable()) reader.join();
    // ---- tags and information keep the latest text
    for (auto& o : ob) {
        auto& x = iface(o);
        int k = static_cast<int>(r(4));
        for (int q = 0; q < k; ++q) {
            std::string t = "t" + I(r(2)), v = word(r) + I(r(9));
            x.setTag(t, v);
            o.tags[t] = v;
        }
        if (r.chance(40)) {
            o.info = word(r) + I(r(100));
            x.setInfo(o.info);
        }
        for (int q = 0; q < 3; ++q) {
            std::string t = "t" + I(q);
            auto e = o.tags.count(t) ? o.tags[t] : std::string();
            if (x.getTag(t) != e) bad("tag", o.key + " tag " + t + " is " + x.getTag(t) + " expected " + e);
        }
        if (x.getInfo() != o.info) bad("info", o.key + " info is " + x.getInfo() + " expected " + o.info);
        vh::stat("lookups", 4);
    }
    // ---- lookups
    auto lookups = [&]() {
        for (int f = 0; f < nf; ++f) {
            auto& F = fedOf(f);
            if (F.getPublicationCount() != cntP[f]) bad("count", n->feds[f]->name + " has " + I(F.getPublicationCount()) + " publications, registered " + I(cntP[f]));
            if (F.getInputCount() != cntI[f]) bad("count", n->feds[f]->name + " has " + I(F.getInputCount()) + " inputs, registered " + I(cntI[f]));
            if (F.getEndpointCount() != cntE[f]) bad("count", n->feds[f]->name + " has " + I(F.getEndpointCount()) + " endpoints, registered " + I(cntE[f]));
            if (F.getPublication(cntP[f]).isValid() || F.getPublication(-1).isValid()) bad("lookup-invalid", "publication index past the end is valid");
            if (F.getInput(cntI[f]).isValid() || F.getInput(-1).isValid()) bad("lookup-invalid", "input index past the end is valid");
            if (F.getEndpoint(cntE[f]).isValid() || F.getEndpoint(-1).isValid()) bad("lookup-invalid", "endpoint index past the end is valid");
            for (auto& o : ob) {
                std::vector<std::string> ask{o.key};
                if (!o.global) ask.push_back(o.reg);
                for (auto& a : ask) {
                    // what this federate should find under name a, per kind
                    for (char kind : {'p', 'i', 'e'}) {
                        const Obj* e = nullptr;
                        for (auto& x : ob)
                            if (x.kind == kind && x.fed == f && (x.key == a || (!x.global && x.reg == a))) e = &x;
                        Interface* g = kind == 'p' ? static_cast<Interface*>(&F.getPublication(a)) : kind == 'i' ? static_cast<Interface*>(&F.getInput(a)) : static_cast<Interface*>(&F.getEndpoint(a));
                        vh::stat("lookups");
                        std::string who = n->feds[f]->name + " looking up " + (kind == 'p' ? "publication " : kind == 'i' ? "input " : "endpoint ") + a;
                        if (e == nullptr) {
                            if (g->isValid()) bad("lookup-ghost", who + " finds " + g->getName());
                        } else if (!g->isValid()) bad("lookup-lost", who + " finds nothing");
                        else if (g->getName() != e->key || g->getHandle() != iface(const_cast<Obj&>(*e)).getHandle()) bad("lookup-wrong", who + " finds " + g->getName() + " expected " + e->key);
                    }
                }
            }
            if (!F.getTag("nosuch").empty()) bad("tag", "unknown tag has a value");
        }
        std::set<std::pair<int, int>> handles;
        for (auto& o : ob)
            if (!handles.insert({coreOf[o.fed], iface(o).getHandle().baseValue()}).second) bad("handle-twice", o.key);
    };
    lookups();
    // ---- a name already taken on the same core is refused at once and changes nothing
    if (!ob.empty() && r.chance(50)) {
        auto& o = r.pick(ob);
        if (o.global) {
            std::vector<int> same;
            for (int f = 0; f < nf; ++f)
                if (coreOf[f] == coreOf[o.fed]) same.push_back(f);
            int f = r.pick(same);
            try {
                if (o.kind == 'p') fedOf(f).registerGlobalPublication(o.reg, "string");
                else if (o.kind == 'i') fedOf(f).registerGlobalInput(o.reg, "string");
                else fedOf(f).registerGlobalEndpoint(o.reg);
                bad("duplicate-accepted", o.key + " registered again by " + n->feds[f]->name);
            }
            catch (const HelicsException&) {
                vh::stat("refused");
            }
            lookups();
        }
    }
    // ---- a clash between cores, or an alias that would name two things, must surface as an error
    int clash = 0;
    if (ob.size() > 1 && r.chance(25)) {
        std::vector<std::pair<int, int>> pr;
        for (size_t a = 0; a < ob.size(); ++a)
            for (size_t b = 0; b < ob.size(); ++b)
                if (ob[a].kind == ob[b].kind && ob[a].key < ob[b].key) pr.emplace_back(a, b);
        bool dup = r.chance(50);
        if (dup) {
            std::vector<int> g;
            for (size_t a = 0; a < ob.size(); ++a)
                if (ob[a].global) g.push_back(static_cast<int>(a));
            std::vector<int> other;
            if (!g.empty()) {
                int a = r.pick(g);
                for (int f = 0; f < nf; ++f)
                    if (coreOf[f] != coreOf[ob[a].fed]) other.push_back(f);
                if (!other.empty()) {
                    int f = r.pick(other);
                    tr("CLASH " + ob[a].key + " on " + n->feds[f]->name);
                    try {
                        if (ob[a].kind == 'p') fedOf(f).registerGlobalPublication(ob[a].reg, "string");
                        else if (ob[a].kind == 'i') fedOf(f).registerGlobalInput(ob[a].reg, "string");
                        else fedOf(f).registerGlobalEndpoint(ob[a].reg);
                    }
                    catch (const HelicsException&) {
                    }
                    clash = 1;
                }
            }
        } else if (!pr.empty()) {
            auto& p = r.pick(pr);
            tr("CLASH alias " + ob[p.first].key + " = " + ob[p.second].key);
            auto f = fedOf(static_cast<int>(r(nf))).getName();
            for (auto& x : n->feds)
                if (x->name == f) x->f->addAlias(r.pick(ob[p.first].calls), r.pick(ob[p.second].calls));
            clash = 2;
        }
    }
    if (clash) {
        std::atomic<int> failed{0}, done{0};
        std::atomic<bool> stop{false};
        std::vector<std::thread> th;
        std::mutex hm;
        std::string how;
        for (auto& f : n->feds)
            th.emplace_back([&]() {
                std::string w = "not executing";
                try {
                    f->f->enterExecutingMode();
                    for (int s = 1; failed == 0 && !stop; ++s) {
                        w = "time " + std::to_string(static_cast<double>(f->f->requestTime(s)));
                        std::this_thread::sleep_for(200us);
                    }
                }
                catch (const std::exception& e) {
                    ++failed;
                    w += std::string(" threw ") + e.what();
                }
                w += " mode " + std::to_string(static_cast<int>(f->f->getCurrentMode()));
                try {
                    f->f->disconnect();
                }
                catch (const std::exception&) {
                }
                if (f->f->getCurrentMode() == Federate::Modes::ERROR_STATE) ++failed;
                {
                    std::lock_guard<std::mutex> lk(hm);
                    how += " [" + f->name + " " + w + "]";
                }
                ++done;
            });
        auto t0 = std::chrono::steady_clock::now();
        while (failed == 0 && done < nf && std::chrono::steady_clock::now() - t0 < 20s) {
            std::this_thread::sleep_for(2ms);
            vh::progress();
        }
        stop = true;
        // one error is enough: end what the failed federate's neighbours may be waiting for
        for (int k = 0; k < 100 && done < nf; ++k) std::this_thread::sleep_for(2ms);
        if (done < nf) n->brokers[0].b->globalError(-27, "end of the case");
        for (auto& t : th) t.join();
        vh::stat("clashes");
        if (!failed) bad("clash-silent", clash == 1 ? "a name registered on two cores raised no error" + how : "an alias naming two interfaces raised no error" + how);
        for (auto& f : n->feds) f->f.reset();
        for (auto& c : n->cores) c.c->disconnect();
        n->brokers[0].b->disconnect();
        n.reset();
        cleanupHelicsLibrary();
        return;
    }
    // ---- what the names lead to: values and messages arrive where the names say
    try {
        for (auto& f : n->feds) f->f->enterInitializingModeAsync();
        for (auto& f : n->feds) f->f->enterInitializingModeComplete();
        lookups();
        for (auto& o : ob)
            if (o.kind == 'p') fedOf(o.fed).getPublication(o.key).publish(o.val);
        enterExec(*n);
        for (auto& o : ob)
            if (o.kind == 'i') {
                auto v = fedOf(o.fed).getInput(o.key).getString();
                auto e = o.src >= 0 ? ob[o.src].val : std::string();
                vh::stat("links_checked");
                if (v != e && !(o.src < 0 && !fedOf(o.fed).getInput(o.key).isUpdated())) bad("link-by-name", o.key + " shows '" + v + "', linked to " + (o.src >= 0 ? ob[o.src].key : "nothing") + " which published '" + e + "'");
            }
        std::map<std::string, std::multiset<std::string>> want;  // endpoint key -> texts
        int sent = 0;
        for (auto& s : ob)
            if (s.kind == 'e')
                for (auto& d : ob)
                    if (d.kind == 'e' && r.chance(50)) {
                        std::string nm = d.key;
                        if (!d.global && d.fed == s.fed && r.chance(50)) nm = d.key;
                        std::string txt = "m" + I(sent++);
                        fedOf(s.fed).getEndpoint(s.key).sendTo(txt, nm);
                        want[d.key].insert(txt);
                    }
        step(*n, 1.0);
        step(*n, 2.0);
        for (auto& d : ob)
            if (d.kind == 'e') {
                std::multiset<std::string> got;
                auto& e = fedOf(d.fed).getEndpoint(d.key);
                while (e.hasMessage()) {
                    auto m = e.getMessage();
                    got.insert(std::string(m->data.to_string()));
                    if (m->dest != d.key) bad("message-dest", d.key + " receives a message for " + m->dest);
                }
                vh::stat("links_checked");
                if (got != want[d.key]) bad("message-by-name", d.key + " received " + I(got.size()) + " messages, " + I(want[d.key].size()) + " were sent to it");
            }
        lookups();
    }
    catch (const std::exception& e) {
        bad("federation", e.what());
    }
    vh::distinct(vh::hashStr(T));
    if (vh::st().samples.size() < 3) vh::sample(cfg + " | " + T.substr(0, 300));
    shut(n);
}
// ------------------------------------------------------------------------------------------------ commands
void commandsCase(Rng& r, long idx)
{
    T.clear();
    Build o;
    o.special = false;
    o.filters = false;
    auto n = makeNet(r, idx, o);
    int nf = static_cast<int>(n->feds.size());
    struct Cmd {
        Kind sk;
        int si;
        Kind tk;
        int ti;
        std::string target, text, expect;  // expect empty: nothing is delivered
        bool ordered;
        char reply;  // 'e' echo, 'n' notify, 'c' status, 0
    };
    std::vector<Cmd> plan;
    auto senderName = [&](const Cmd& c) { return show(*n, c.sk, c.si); };
    enterInit(*n);
    bool inInit = r.chance(30);
    if (!inInit) enterExec(*n);
    static const std::vector<std::string> shapes{"", " with words", " {\"a\":[1,2,{\"b\":\"c\"}]}", " \"quoted text\"", " a|b;c", " \xc3\xa9\xe2\x82\xac", " trailing   ", " 'x y' z", " tab\tend"};
    int k = static_cast<int>(r.range(5, 60));
    for (int q = 0; q < k; ++q) {
        Cmd c{};
        { static const std::vector<int> ks{0, 0, 0, 1, 2}; c.sk = static_cast<Kind>(r.pick(ks)); }
        c.si = static_cast<int>(r(c.sk == FED ? n->feds.size() : c.sk == CORE ? n->cores.size() : n->brokers.size()));
        c.ordered = r.chance(50);
        int w = static_cast<int>(r(100));
        bool infra = w >= 75;
        if (!infra) {
            c.tk = FED;
            c.ti = static_cast<int>(r(nf));
            c.target = n->feds[c.ti]->name;
        } else if (w < 88) {
            c.tk = CORE;
            c.ti = static_cast<int>(r(n->cores.size()));
            c.target = n->cores[c.ti].name;
            int own = c.sk == FED ? n->feds[c.si]->core : c.sk == CORE ? c.si : -1;
            if (own == c.ti && r.chance(50)) c.target = "core";
        } else {
            c.tk = BROKER;
            c.ti = static_cast<int>(r(n->brokers.size()));
            c.target = n->brokers[c.ti].name;
            if (c.ti == 0 && r.chance(50)) c.target = r.pick({"root", "federation"});
            int below = c.sk == FED ? n->cores[n->feds[c.si]->core].broker : c.sk == CORE ? n->cores[c.si].broker : c.si;
            if (below == c.ti && r.chance(30)) c.target = "broker";
        }
        int kind = static_cast<int>(r(100));
        bool toFed = c.tk == FED;
        std::string id = "cmd" + I(q) + "_" + I(r(100000)) + (r.chance(10) ? std::string(r(3000), 'L') : "");
        if (!toFed) {
            if (kind < 60 && c.sk == FED) {
                c.text = r.pick({"echo", "  echo", "echo # please", "echo #"});
                c.reply = 'e';
            } else c.text = r.pick({"ignore", "log some text", "log", "  log", "logbuffer 5", "logbuffer stop", "logbuffer", "#", "# comment", "", "   ", "nosuchcommand", "nosuchcommand_which_is_quite_long_indeed and has words", "remotelog stop", "log #"});
        } else if (kind < 60) {
            c.text = id + r.pick(shapes);
            c.expect = c.text;
            if (r.chance(20)) c.text = (r.chance(50) ? "  " : "") + c.text + r.pick({"# remark", "  # remark", "#", " #two # remarks"});
            while (!c.expect.empty() && (c.expect.back() == ' ' || c.expect.back() == '\t')) c.expect.pop_back();
        } else if (kind < 70 && c.sk == FED) {
            c.text = r.pick({"echo", "  echo ", "echo # now"});
            c.reply = 'e';
        } else if (kind < 80 && c.sk == FED) {
            c.text = r.pick({"notify", " notify "});
            c.reply = 'n';
        } else if (kind < 86 && c.sk == FED) {
            c.text = "command_status";
            c.reply = 'c';
        } else c.text = r.pick({"log some text", "log", " log", "log #", "#", "# only a remark", "", "  ", "logbuffer 4", "logbuffer stop", "remotelog stop"});
        plan.push_back(c);
    }
    cfg += " commands " + I(k) + (inInit ? " in initializing mode" : "");
    // expectations
    struct Lane {
        std::deque<std::string> texts;
    };
    struct Box {
        std::map<std::pair<std::string, bool>, Lane> lanes;  // (sender, ordered)
        std::map<std::pair<std::string, char>, int> replies;
        int total{0};
    };
    std::vector<Box> box(nf);
    for (auto& c : plan) {
        if (c.tk == FED && !c.expect.empty()) {
            box[c.ti].lanes[{senderName(c), c.ordered}].texts.push_back(c.expect);
            ++box[c.ti].total;
        }
        if (c.reply) {
            ++box[c.si].replies[{show(*n, c.tk, c.ti), c.reply}];
            ++box[c.si].total;
        }
    }
    // one thread per sender keeps that sender's order; federates also read
    std::map<std::pair<int, int>, std::vector<const Cmd*>> by;
    for (auto& c : plan) by[{c.sk, c.si}].push_back(&c);
    auto send = [&](const Cmd& c) {
        auto m = c.ordered ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
        if (c.sk == FED) n->feds[c.si]->f->sendCommand(c.target, c.text, m);
        else if (c.sk == CORE) n->cores[c.si].c->sendCommand(c.target, c.text, "", m);
        else n->brokers[c.si].b->sendCommand(c.target, c.text, m);
        vh::stat("commands");
        vh::distinct(vh::hashStr(c.text.substr(0, 8) == c.expect.substr(0, 8) ? "x" : c.text) * 7 + c.sk * 3 + c.tk + (c.ordered ? 100 : 0) + vh::hashStr(c.target == show(*n, c.tk, c.ti) ? "" : c.target));
    };
    std::atomic<int> fedsLeft{nf};
    std::atomic<bool> giveUp{false};
    std::vector<std::thread> th;
    std::atomic<int> nsent{0};
    for (auto& b : by)
        if (b.first.first != FED)
            th.emplace_back([&, v = b.second]() {
                for (auto* c : v) {
                    send(*c);
                    ++nsent;
                }
            });
    int steps = inInit ? 0 : static_cast<int>(r(6));
    for (int f = 0; f < nf; ++f)
        th.emplace_back([&, f, seed = r.next()]() {
            Rng q(seed);
            auto& F = *n->feds[f]->f;
            auto& B = box[f];
            auto v = by.count({FED, f}) ? by[{FED, f}] : std::vector<const Cmd*>();
            size_t at = 0;
            int got = 0, done = 0;
            auto take = [&](const std::pair<std::string, std::string>& g) {
                ++got;
                vh::stat("received");
                char rep = g.first == "echo_reply" ? 'e' : g.first == "notify_response" ? 'n' : 0;
                if (g.first.size() > 20 && g.first.find(" unprocessed commands\"") != std::string::npos) rep = 'c';
                std::string who = n->feds[f]->name + " receives '" + g.first.substr(0, 200) + "' from '" + g.second + "'";
                if (rep) {
                    auto x = B.replies.find({g.second, rep});
                    if (x == B.replies.end() || x->second <= 0) return bad("command-reply", who + ", no such reply is due");
                    --x->second;
                    return;
                }
                for (bool o2 : {false, true}) {
                    auto l = B.lanes.find({g.second, o2});
                    if (l == B.lanes.end()) continue;
                    auto& t = l->second.texts;
                    auto p = std::find(t.begin(), t.end(), g.first);
                    if (p == t.end()) continue;
                    if (p != t.begin()) bad("command-order", who + " before '" + t.front().substr(0, 200) + "'" + (o2 ? " (ordered)" : " (fast)"));
                    t.erase(p);
                    return;
                }
                for (auto& l : B.lanes)
                    if (std::find(l.second.texts.begin(), l.second.texts.end(), g.first) != l.second.texts.end()) return bad("command-source", who + ", sent by " + l.first.first);
                bad("command-invented", who + ", never sent or already delivered");
            };
            try {
                while (done < steps || at < v.size()) {
                    if (at < v.size() && (done >= steps || q.chance(60))) {
                        send(*v[at++]);
                        ++nsent;
                    } else {
                        F.requestTime(done + 1.0);
                        ++done;
                    }
                    if (q.chance(30)) {
                        auto g = F.getCommand();
                        if (!g.first.empty()) take(g);
                    }
                    vh::progress();
                }
                auto t0 = std::chrono::steady_clock::now();
                bool wait = q.chance(30);
                while (got < B.total && std::chrono::steady_clock::now() - t0 < 20s) {
                    bool others = false;
                    for (auto& x : B.lanes) others |= !x.second.texts.empty();
                    auto g = wait && others ? F.waitCommand() : F.getCommand();
                    if (!g.first.empty()) take(g);
                    else std::this_thread::sleep_for(100us);
                    vh::progress();
                }
                if (got < B.total) {
                    std::string miss;
                    for (auto& x : B.lanes)
                        for (auto& t : x.second.texts) miss += " '" + t.substr(0, 60) + "' from " + x.first.first + (x.first.second ? " ordered;" : " fast;");
                    for (auto& x : B.replies)
                        if (x.second > 0) miss += std::string(" reply ") + x.first.second + " from " + x.first.first + ";";
                    bad("command-lost", n->feds[f]->name + " waits for" + miss.substr(0, 600));
                }
                // keep answering notify requests of others until everybody is finished
                --fedsLeft;
                while (fedsLeft > 0) {
                    auto g = F.getCommand();
                    if (!g.first.empty()) take(g);
                    std::this_thread::sleep_for(200us);
                }
            }
            catch (const std::exception& e) {
                bad("command-throws", n->feds[f]->name + ": " + e.what());
                --fedsLeft;
            }
        });
    for (auto& t : th) t.join();
    // nothing further turns up
    std::this_thread::sleep_for(2ms);
    for (int f = 0; f < nf; ++f) {
        auto g = n->feds[f]->f->getCommand();
        if (!g.first.empty()) bad("command-invented", n->feds[f]->name + " receives a further '" + g.first.substr(0, 200) + "' from " + g.second);
    }
    // everybody still works
    try {
        if (inInit) enterExec(*n);
        step(*n, 20.0);
    }
    catch (const std::exception& e) {
        bad("command-after", e.what());
    }
    for (auto& b : n->brokers)
        if (b.b->query("broker", "name") != "\"" + b.name + "\"") bad("command-after", b.name + " no longer answers");
    for (auto& c : n->cores)
        if (c.c->query("core", "name", HELICS_SEQUENCING_MODE_FAST) != "\"" + c.name + "\"") bad("command-after", c.name + " no longer answers");
    if (vh::st().samples.size() < 3) vh::sample(cfg);
    shut(n);
}
