// text -> values
static std::string garbage(Rng& r)
{
    std::string s;
    static const char* frag[] = {"[", "]", ",", ";", "v", "c", "v3", "c2", "v-5", "c99999999999", "v[", "c[", "j", "i", "+", "-", "e", "E", ".", "1", "23", "4.5", "1e9", "1e999", "-1e-999", "nan", "inf", " ", "\t", "{", "}", "\"", ":", "name", "\"value\"", "\"name\"", "null", "true", "\\u0000", "\xff", "0x1", "[[", "]]", "{}", "[]", "999999999999999999999999", "NaN", "volt", "current"};
    for (size_t i = 0, n = r(9); i < n; ++i) {
        if (r.chance(75)) {
            s += frag[r(sizeof(frag) / sizeof(frag[0]))];
        } else {
            s.push_back(static_cast<char>(r(256)));
        }
    }
    return s;
}
static std::string oneNumber(Rng& r, double& d)
{
    d = randD(r);
    std::string s = num(d);
    return s;
}
static void parseCase(Rng& r, long)
{
    for (int rep = 0; rep < 50; ++rep) {
        // whatever the text: no access outside it, and an answer or a std::exception (ASan/UBSan decide the rest)
        {
            std::string g = garbage(r);
            vh::distinct(vh::hashStr(g));
            std::unique_ptr<char[]> heap(new char[std::max<size_t>(1, g.size())]);
            memcpy(heap.get(), g.data(), g.size());
            std::string_view sv(heap.get(), g.size());
            auto guard = [&](auto&& f) {
                try {
                    f();
                    vh::stat("texts_parsed");
                }
                catch (const std::exception&) {
                    vh::stat("texts_refused");
                }
            };
            guard([&] { (void)helicsGetComplex(sv); });
            guard([&] { (void)helicsGetVector(sv); });
            guard([&] { (void)helicsGetComplexVector(sv); });
            guard([&] { (void)helicsGetNamedPoint(sv); });
            guard([&] { (void)getDoubleFromString(sv); });
            guard([&] { (void)getComplexFromString(sv); });
            guard([&] { (void)getIntFromString(sv); });
            guard([&] { (void)helicsBoolValue(sv); });
            guard([&] { (void)isTrueString(sv); });
            guard([&] { (void)getTypeFromString(sv); });
            guard([&] { (void)getCleanedTypeName(sv); });
            for (auto& [dt, pk] : pubTypes()) {
                guard([&, dt = dt] { (void)typeConvert(dt, sv); });
            }
            // the text as a publication of a string type would carry it
            SmallBuffer enc = ValueConverter<std::string_view>::convert(sv);
            std::unique_ptr<char[]> heap2(new char[std::max<size_t>(1, enc.size())]);
            memcpy(heap2.get(), enc.data(), enc.size());
            data_view dv(std::string_view(heap2.get(), enc.size()));
            for (int k = 0; k < KINDS; ++k) {
                guard([&] { (void)extractAs(static_cast<Kind>(k), dv, DataType::HELICS_STRING); });
                guard([&] { (void)extractAs(static_cast<Kind>(k), dv, DataType::HELICS_CHAR); });
                guard([&] { (void)extractAs(static_cast<Kind>(k), data_view(sv), DataType::HELICS_JSON); });
                guard([&] { (void)extractAs(static_cast<Kind>(k), dv, DataType::HELICS_BOOL); });
                guard([&] { (void)extractAs(static_cast<Kind>(k), defV(g)); });
                guard([&] { (void)extractAs(static_cast<Kind>(k), defV(NamedPoint(g, std::nan("0")))); });
            }
            guard([&] { char c; valueExtract(dv, DataType::HELICS_STRING, c); });
            guard([&] { char c; valueExtract(defV(g), c); });
            guard([&] { defV c; valueExtract(data_view(sv), DataType::HELICS_JSON, c); });
        }
        // texts with a documented meaning
        {
            double d, e;
            std::string a = oneNumber(r, d), b = oneNumber(r, e);
            auto expectD = [&](const std::string& t, double w, bool approx = false) {
                double g = getDoubleFromString(t);
                vh::stat("texts_checked");
                if (!(approx ? close(g, w) : same(g, w))) vh::viol("*", "text-double", "\"" + t + "\" as double gives " + num(g) + " instead of " + num(w));
            };
            auto expectC = [&](const std::string& t, cplx w) {
                for (int which = 0; which < 2; ++which) {
                    cplx g = which ? getComplexFromString(t) : helicsGetComplex(t);
                    vh::stat("texts_checked");
                    if (!same(g.real(), w.real()) || !same(g.imag(), w.imag())) {
                        vh::viol("*", which ? "text-complex-from-string" : "text-complex", "\"" + t + "\" as complex gives " + num(g.real()) + "," + num(g.imag()) + " instead of " + num(w.real()) + "," + num(w.imag()));
                    }
                }
            };
            expectD(a, d);
            expectC(a, {d, 0});
            std::string ea = num(std::abs(e));
            std::string sign = std::signbit(e) ? "-" : "+";
            std::string suffix = r.chance(50) ? "j" : "i";
            expectC(a + sign + ea + suffix, {d, e});
            if (r.chance(50)) expectC(a + " " + sign + ea + suffix, {d, e});
            expectC(b + suffix, {0, e});
            expectC("[" + a + "," + b + "]", {d, e});
            int64_t iv = randI(r);
            vh::stat("texts_checked");
            if (getIntFromString(std::to_string(iv)) != iv) vh::viol("*", "text-int", "\"" + std::to_string(iv) + "\" as integer gives " + std::to_string(getIntFromString(std::to_string(iv))));
            if (fitsInt(d)) {
                int64_t w = static_cast<int64_t>(d);
                int64_t g = getIntFromString(a);
                if (g != w) vh::viol("*", "text-int-trunc", "\"" + a + "\" as integer gives " + std::to_string(g) + " instead of " + std::to_string(w));
            }
            // lists
            std::vector<double> v;
            size_t n = r(r.chance(5) ? 200 : 6);
            for (size_t i = 0; i < n; ++i) v.push_back(randD(r));
            const char* sep = r.pick({",", ";", ", "});
            std::string body;
            for (size_t i = 0; i < n; ++i) body += (i ? sep : "") + num(v[i]);
            for (const std::string& pre : {std::string(), std::string("v"), "v" + std::to_string(n)}) {
                std::string t = pre + "[" + body + "]";
                auto g = helicsGetVector(t);
                vh::stat("texts_checked");
                if (!eq(mkV(g), mkV(v), false)) vh::viol("*", "text-vector", "\"" + t.substr(0, 300) + "\" as vector gives " + show(mkV(g)));
                if (n > 0) expectD(t, n == 1 ? v[0] : norm(v), n != 1);
                if (n == 2 && n > 0) {
                    auto c = getComplexFromString(t);
                    if (!same(c.real(), v[0]) || !same(c.imag(), v[1])) vh::viol("*", "text-vector-complex", "\"" + t + "\" as complex");
                }
                if (!pre.empty() && n % 2 == 0) {
                    // alternating real and imaginary
                    std::vector<cplx> w;
                    for (size_t i = 0; i < n; i += 2) w.emplace_back(v[i], v[i + 1]);
                    auto cg = helicsGetComplexVector(t);
                    if (!eq(mkCV(cg), mkCV(w), false)) vh::viol("*", "text-v-complex-vector", "\"" + t.substr(0, 300) + "\" as complex vector gives " + show(mkCV(cg)));
                }
            }
            // complex lists
            std::vector<cplx> cv;
            size_t m = 1 + r(5);
            std::string cb, jb;
            for (size_t i = 0; i < m; ++i) {
                cplx x{randD(r), randD(r)};
                cv.push_back(x);
                cb += (i ? "," : "") + num(x.real()) + (std::signbit(x.imag()) ? "-" : "+") + num(std::abs(x.imag())) + "j";
                jb += (i ? ",[" : "[") + num(x.real()) + "," + num(x.imag()) + "]";
            }
            for (const std::string& t : {"c[" + cb + "]", "c" + std::to_string(m) + "[" + cb + "]", "[" + jb + "]"}) {
                auto cg = helicsGetComplexVector(t);
                vh::stat("texts_checked");
                if (!eq(mkCV(cg), mkCV(cv), false)) vh::viol("*", "text-complex-vector", "\"" + t.substr(0, 300) + "\" as complex vector gives " + show(mkCV(cg)) + " instead of " + show(mkCV(cv)));
                if (t[0] == 'c') {
                    auto fl = helicsGetVector(t);
                    std::vector<double> w;
                    for (auto& x : cv) {
                        w.push_back(x.real());
                        w.push_back(x.imag());
                    }
                    if (!eq(mkV(fl), mkV(w), false)) vh::viol("*", "text-c-vector", "\"" + t.substr(0, 300) + "\" as vector gives " + show(mkV(fl)));
                }
            }
            // what HELICS writes it reads back
            auto back = [&](const std::string& how, const Val& x, const Val& y) {
                vh::stat("texts_checked");
                if (!eq(y, x, false)) vh::viol("*", "roundtrip-" + how, how + ": " + show(x) + " came back as " + show(y));
            };
            back("double", mkD(d), mkD(getDoubleFromString(helicsDoubleString(d))));
            back("int", mkI(iv), mkI(getIntFromString(helicsIntString(iv))));
            back("complex", mkC({d, e}), mkC(helicsGetComplex(helicsComplexString(d, e))));
            back("complex2", mkC({d, e}), mkC(getComplexFromString(helicsComplexString(cplx(d, e)))));
            back("vector", mkV(v), mkV(helicsGetVector(helicsVectorString(v))));
            back("vector2", mkV(v), mkV(helicsGetVector(helicsVectorString(v.data(), v.size()))));
            back("complex_vector", mkCV(cv), mkCV(helicsGetComplexVector(helicsComplexVectorString(cv))));
            std::string nm = randText(r);
            if (utf8(nm) && !nm.empty()) {
                auto np = helicsGetNamedPoint(helicsNamedPointString(nm, d));
                back("named_point", mkNP(nm, d), mkNP(np.name, np.value));
            }
            // integers given to a named point
            auto np = helicsGetNamedPoint(std::to_string(iv));
            vh::stat("texts_checked");
            if (!(same(np.value, static_cast<double>(iv)) || np.name == std::to_string(iv))) {
                vh::viol("*", "text-named-point-int", "\"" + std::to_string(iv) + "\" as named point gives {" + np.name + "," + num(np.value) + "}");
            }
            NamedPoint p1(r.chance(50) ? "a" : "b", randD(r)), p2(r.chance(50) ? "a" : "b", r.chance(30) ? p1.value : randD(r));
            bool lt = p1.name < p2.name || (p1.name == p2.name && p1.value < p2.value);
            bool gt = p2.name < p1.name || (p1.name == p2.name && p2.value < p1.value);
            if ((p1 < p2) != lt || (p1 > p2) != gt || (p1 == p2) != (!lt && !gt)) {
                vh::viol("*", "named-point-order", "order of {" + p1.name + "," + num(p1.value) + "} and {" + p2.name + "," + num(p2.value) + "} (by name, then value)");
            }
        }
        vh::progress();
    }
}
