// operators and filter operations by themselves, against a model
namespace {
std::string timeText(Time t) { return std::to_string(static_cast<double>(t)); }

std::unique_ptr<Message> msgOf(Rng& r)
{
    auto m = std::make_unique<Message>();
    m->time = Time(static_cast<double>(r(1000)) / 8.0);
    m->data = std::string(r(90), static_cast<char>('a' + r(26)));
    m->source = "src" + I(r(4));
    m->original_source = r.chance(70) ? m->source : "o" + m->source;
    m->dest = r.pick({"ep", "ep1", "ep2", "other/ep1", "x.y"});
    m->original_dest = r.chance(60) ? m->dest : "";
    m->messageID = static_cast<int32_t>(r(1000));
    m->flags = static_cast<uint16_t>(r.chance(50) ? 0 : 1U << 8);
    return m;
}
bool same(const Message& a, const Message& b, std::string& why)
{
    if (a.time != b.time) why += " time";
    if (a.data.to_string() != b.data.to_string()) why += " data";
    if (a.source != b.source) why += " source";
    if (a.dest != b.dest) why += " dest " + a.dest + "/" + b.dest;
    if (a.original_source != b.original_source) why += " original_source";
    if (a.original_dest != b.original_dest) why += " original_dest " + a.original_dest + "/" + b.original_dest;
    if (a.messageID != b.messageID) why += " id";
    if (a.flags != b.flags) why += " flags";
    return why.empty();
}
void cmp(const char* what, const std::unique_ptr<Message>& got, const std::unique_ptr<Message>& want, const std::string& d)
{
    vh::stat("checked");
    if (!got != !want) {
        bad(std::string(what) + (got ? "-not-dropped" : "-dropped"), d);
        return;
    }
    std::string why;
    if (got && !same(*got, *want, why)) bad(std::string(what) + "-changed", "differs in" + why + " | " + d);
}

void opsCase(Rng& r, long)
{
    for (int n = 0; n < 40; ++n) {
        vh::progress();
        vh::distinct(r.s);
        int k = static_cast<int>(r(9));
        auto m = msgOf(r);
        auto want = std::make_unique<Message>(*m);
        switch (k) {
            case 0: {
                DelayFilterOperation op;
                double d = static_cast<double>(r(400)) / 16.0;
                Time model{0.0};
                for (int q = static_cast<int>(r(4)); q >= 0; --q) {
                    d = static_cast<double>(r(400)) / 16.0;
                    int how = static_cast<int>(r(4));
                    if (how == 0) op.set("delay", d), model = Time(d);
                    if (how == 1) op.setString("delay", timeText(Time(d))), model = Time(d);
                    if (how == 2) op.set("delay", -d - 1.0);   // no sensible delay: kept as it was
                    if (how == 3) op.set("other", d);
                }
                if (op.getProperty("delay") != static_cast<double>(model)) bad("delay-property", std::to_string(op.getProperty("delay")) + " instead of " + timeText(model));
                want->time += model;
                cmp("delay", op.getOperator()->process(std::move(m)), want, "delay " + timeText(model));
            } break;
            case 1: {
                RandomDelayFilterOperation op;
                double a = static_cast<double>(r(40)) / 4.0, w = 0.25 + static_cast<double>(r(40)) / 4.0;
                int dist = static_cast<int>(r(4));
                const char* names[] = {"constant", "uniform", "bernoulli", "exponential"};
                op.setString(r.chance(50) ? "distribution" : "dist", names[dist]);
                double p1 = dist == 2 ? 0.5 : a, p2 = dist == 2 ? w : a + w;
                if (dist == 3) p1 = 1.0;
                op.set(r.pick({"param1", "mean", "min", "alpha"}), p1);
                op.set(r.pick({"param2", "stddev", "max", "beta"}), p2);
                if (op.getString("dist") != names[dist]) bad("distribution-property", op.getString("dist") + " instead of " + names[dist]);
                if (op.getProperty("mean") != p1 || op.getProperty("beta") != p2) bad("distribution-parameters", "");
                auto o = op.getOperator();
                for (int q = 0; q < 20; ++q) {
                    auto x = o->process(std::make_unique<Message>(*m));
                    double dt = static_cast<double>(x->time - m->time);
                    bool ok = dist == 0 ? std::abs(dt - p1) < 2e-9 : dist == 1 ? (dt >= p1 - 2e-9 && dt <= p2 + 2e-9) : dist == 2 ? (std::abs(dt) < 2e-9 || std::abs(dt - p2) < 2e-9) : dt >= -2e-9;
                    if (!ok) bad("random-delay-range", std::string(names[dist]) + " " + std::to_string(p1) + " " + std::to_string(p2) + " gave " + std::to_string(dt));
                    want->time = x->time;
                    cmp("random-delay", x, want, names[dist]);
                }
            } break;
            case 2: {
                RandomDropFilterOperation op;
                double p = r.chance(50) ? 0.0 : 1.0;
                op.set(r.chance(50) ? "dropprob" : "prob", p);
                if (op.getProperty("prob") != p || op.getProperty("dropprob") != p) bad("drop-property", "");
                auto o = op.getOperator();
                for (int q = 0; q < 5; ++q) {
                    std::unique_ptr<Message> w = p > 0.5 ? nullptr : std::make_unique<Message>(*m);
                    cmp("random-drop", o->process(std::make_unique<Message>(*m)), w, "probability " + std::to_string(p));
                }
            } break;
            case 3: case 4: {
                RerouteFilterOperation op;
                std::string nd = r.pick({"new", "${source}_x", "${dest}_y", "${source}-${dest}", "plain$", "a${dest}b${dest}"});
                op.setString("newdestination", nd);
                std::set<std::string> conds;
                for (int q = static_cast<int>(r(3)); q > 0; --q) {
                    std::string cnd = r.pick({"ep", "^ep$", "ep[12]", "other.*", "nothing", "x.y"});
                    op.setString("condition", cnd);
                    conds.insert(cnd);
                }
                bool threw = false;
                auto* cerrBuf = std::cerr.rdbuf(nullptr);
                try { op.setString("condition", "(unbalanced"); } catch (const InvalidParameter&) { threw = true; }
                std::cerr.rdbuf(cerrBuf);
                std::cerr.clear();
                if (!threw) bad("bad-condition-accepted", "");
                if (op.getString("newdestination") != nd) bad("reroute-property", op.getString("newdestination"));
                auto hit = [&](const std::string& d) {
                    if (conds.empty()) return true;
                    for (auto& q : conds) {
                        if (q == "ep" && d.find("ep") != std::string::npos) return true;
                        if (q == "^ep$" && d == "ep") return true;
                        if (q == "ep[12]" && (d.find("ep1") != std::string::npos || d.find("ep2") != std::string::npos)) return true;
                        if (q == "other.*" && d.find("other") != std::string::npos) return true;
                        if (q == "x.y" && d == "x.y") return true;
                    }
                    return false;
                };
                auto rep = [](std::string s, const std::string& a, const std::string& b) {
                    for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
                    return s;
                };
                if (want->original_dest.empty()) want->original_dest = want->dest;
                std::string od = want->dest;
                if (hit(od)) want->dest = rep(rep(nd, "${source}", want->source), "${dest}", od);
                std::string d = nd + " from " + want->source + " to " + od + " conditions";
                for (auto& q : conds) d += " " + q;
                cmp("reroute", op.getOperator()->process(std::move(m)), want, d);
            } break;
            case 5: {
                CloneFilterOperation op;
                std::vector<std::string> model;
                for (int q = static_cast<int>(r(7)); q > 0; --q) {
                    std::string a = "d" + I(r(4));
                    int how = static_cast<int>(r(5));
                    if (how == 0) op.setString("delivery", a), model = {a};
                    else if (how < 3) {
                        op.setString("add delivery", a);
                        if (std::find(model.begin(), model.end(), a) == model.end()) model.push_back(a);
                    } else {
                        op.setString("remove delivery", a);
                        model.erase(std::remove(model.begin(), model.end(), a), model.end());
                    }
                }
                bool threw = false;
                try { op.setString("nonsense", "a"); } catch (const InvalidParameter&) { threw = true; }
                if (!threw) bad("unknown-property-accepted", "clone");
                auto v = op.getOperator()->processVector(std::make_unique<Message>(*m));
                vh::stat("checked");
                if (v.size() != model.size()) { bad("clone-count", I(static_cast<long>(v.size())) + " copies for " + I(static_cast<long>(model.size())) + " addresses"); break; }
                for (size_t q = 0; q < v.size(); ++q) {
                    auto w = std::make_unique<Message>(*m);
                    w->original_dest = w->dest;
                    w->dest = model[q];
                    cmp("clone", v[q], w, "delivery " + model[q]);
                }
            } break;
            case 6: {
                auto op = r.chance(50) ? std::make_shared<MessageTimeOperator>([](Time t) { return t + Time(2.0); }) : nullptr;
                auto e = std::make_shared<MessageTimeOperator>();
                if (!op) { op = e; if (r.chance(50)) { op->setTimeFunction([](Time t) { return t + Time(2.0); }); want->time += Time(2.0); } }
                else want->time += Time(2.0);
                cmp("time-operator", static_cast<FilterOperator*>(op.get())->process(std::move(m)), want, "");
            } break;
            case 7: {
                FirewallOperator fop([](const Message* x) { return x->dest == "ep1"; });
                auto o = r.pick({FirewallOperator::operations::drop, FirewallOperator::operations::pass, FirewallOperator::operations::set_flag1, FirewallOperator::operations::set_flag2, FirewallOperator::operations::set_flag3, FirewallOperator::operations::none});
                fop.setOperation(o);
                FilterOperator& op = fop;
                bool hit = m->dest == "ep1";
                if (o == FirewallOperator::operations::drop && hit) want = nullptr;
                if (o == FirewallOperator::operations::pass && !hit) want = nullptr;
                if (hit && o == FirewallOperator::operations::set_flag1) setActionFlag(*want, user_custom_message_flag1);
                if (hit && o == FirewallOperator::operations::set_flag2) setActionFlag(*want, user_custom_message_flag2);
                if (hit && o == FirewallOperator::operations::set_flag3) setActionFlag(*want, user_custom_message_flag3);
                cmp("firewall", op.process(std::move(m)), want, "operation " + I(static_cast<int>(o)));
            } break;
            case 8: {
                struct { const char* t; FilterTypes v; } tab[] = {{"clone", FilterTypes::CLONE}, {"cloning", FilterTypes::CLONE}, {"delay", FilterTypes::DELAY}, {"timedelay", FilterTypes::UNRECOGNIZED}, {"randomdelay", FilterTypes::RANDOM_DELAY}, {"random_delay", FilterTypes::RANDOM_DELAY}, {"randomDelay", FilterTypes::RANDOM_DELAY}, {"randomdrop", FilterTypes::RANDOM_DROP}, {"random_drop", FilterTypes::RANDOM_DROP}, {"randomDrop", FilterTypes::RANDOM_DROP}, {"reroute", FilterTypes::REROUTE}, {"firewall", FilterTypes::FIREWALL}, {"custom", FilterTypes::CUSTOM}, {"DELAY", FilterTypes::DELAY}, {"RandomDrop", FilterTypes::RANDOM_DROP}, {"Clone", FilterTypes::CLONE}, {"", FilterTypes::UNRECOGNIZED}};
                auto& t = tab[r(sizeof(tab) / sizeof(tab[0]))];
                vh::stat("checked");
                if (filterTypeFromString(t.t) != t.v) bad("filter-type-name", t.t);
            } break;
        }
    }
}
}  // namespace
