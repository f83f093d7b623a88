#include "fixtures.h"

namespace {
struct PSpec { int cls; bool call; double K, K2; };   // cls 0 vanilla 1 digital 2 double digital 3 floating lookback
std::unique_ptr<Payoff> build(const PSpec& s) {
    auto t = s.call ? PayoffType::Call : PayoffType::Put;
    switch (s.cls) {
        case 0: return std::make_unique<PayoffVanilla>(t, s.K);
        case 1: return std::make_unique<PayoffDigital>(t, s.K);
        case 2: return std::make_unique<PayoffDoubleDigital>(s.K, s.K2);
        default: return std::make_unique<PayoffLookbackFloatingStrike>(t);
    }
}
const Kind kindOf[] = {Kind::European, Kind::Digital, Kind::DoubleDigital, Kind::FloatLB};
double strike(Rng& g) {
    switch (g.below(5)) {
        case 0: return g.pickd({0.0, 1.0, 100.0, 1e-300, 5e-324, 1e-3, 1e6, 1e12, 1e200, 0.1, 100.1});
        case 1: return std::floor(g.u(1, 500));
        case 2: return g.logu(1e-6, 1e9);
        default: return g.u(1, 300);
    }
}
double near(Rng& g, double K) {
    switch (g.below(11)) {
        case 0: return K;
        case 1: return std::nextafter(K, INF);
        case 2: return K > 0 ? std::nextafter(K, 0.0) : 0.0;
        case 3: return K * (1 + g.u(-1e-12, 1e-12));
        case 4: return 0.0;
        case 5: return g.logu(1e-12, 1e15);
        case 6: return K * g.u(0.0, 3.0);
        case 7: return K + 0.01;
        case 8: return K > 0.01 ? K - 0.01 : K;
        case 9: return K * 2;
        default: return g.u(0, 400);
    }
}
void checkPayoff(Case& c, const PSpec& s, const Payoff& p, const char* via) {
    auto& g = c.rng;
    for (int i = 0; i < 12; ++i) {
        if (s.cls == 3) {
            double S = near(g, s.K), m = near(g, S);
            long double w = s.call ? (long double)S - m : (long double)m - S;
            if (w < 0) w = 0;
            c.close(p(S, m), (double)w, 1e-13, 0, "%s floating %s payoff S=%.17g extreme=%.17g", via, s.call ? "call" : "put", S, m);
        } else {
            double S = near(g, s.cls == 2 && g.chance(0.5) ? s.K2 : s.K);
            double w = (double)contract(kindOf[s.cls], s.call, s.K, s.K2, S);
            double got = p(S);
            if (S == s.K) count("spot equal to strike");
            if (s.cls == 0) c.close(got, w, 1e-13, 0, "%s vanilla %s K=%.17g S=%.17g", via, s.call ? "call" : "put", s.K, S);
            else c.expect(got == w, "%s %s %s K=%.17g K2=%.17g S=%.17g: got %.17g expected %.17g", via, s.cls == 1 ? "digital" : "double digital", s.call ? "call" : "put", s.K, s.K2, S, got, w);
        }
        count("payoff evaluations");
    }
}
PSpec spec(Rng& g) {
    PSpec s; s.cls = (int)g.below(4); s.call = g.chance(0.5); s.K = strike(g);
    switch (g.below(4)) { case 0: s.K2 = s.K; break; case 1: s.K2 = strike(g); break; default: s.K2 = s.K + g.u(0, 50); }
    return s;
}
void describe(Case& c, const PSpec& s) { c.desc("cls=%d %s K=%.17g K2=%.17g", s.cls, s.call ? "call" : "put", s.K, s.K2); }

void c01() {
    run("values", 6000, [](Case& c) {
        auto s = spec(c.rng); describe(c, s);
        auto p = build(s);
        checkPayoff(c, s, *p, "object");
        auto q = p->clone();
        p.reset();
        checkPayoff(c, s, *q, "clone");
        auto q2 = q->clone()->clone();
        checkPayoff(c, s, *q2, "clone of clone");
        c.expect(q->getPayoffType() == (s.cls == 2 ? PayoffType::DoubleDigital : s.call ? PayoffType::Call : PayoffType::Put), "payoff type");
        if (auto* ss = dynamic_cast<PayoffSingleStrike*>(q.get())) c.expect(ss->getK() == s.K, "strike getter");
        if (auto* ds = dynamic_cast<PayoffDoubleStrikes*>(q.get())) c.expect(ds->getKL() == s.K && ds->getKU() == s.K2, "strike getters");
    });
    // many live payoffs evaluated in random interleaving, through options too
    run("interleaved", 150, [](Case& c) {
        auto& g = c.rng;
        std::string tk = "PAY" + std::to_string(c.index);
        md()->addStock(tk, 100.0, 0.2);
        struct E { PSpec s; std::unique_ptr<Payoff> p; std::shared_ptr<Option> o; };
        std::vector<E> pool;
        int n = g.range(2, 25);
        for (int i = 0; i < n; ++i) {
            E e; e.s = spec(g); if (i && g.chance(0.4)) { e.s = pool[g.below(pool.size())].s; e.s.call = g.chance(0.5); e.s.cls = (int)g.below(4); }
            e.p = build(e.s);
            Terms t; t.ticker = tk; t.call = e.s.call; t.K = e.s.K; t.K2 = e.s.K2; t.T = randT(g); t.B = strike(g);
            if (e.s.cls == 0) t.k = g.pick(std::vector<Kind>{Kind::European, Kind::American, Kind::ArithAsian, Kind::GeoAsian, Kind::KnockIn, Kind::KnockOut, Kind::FixedLB});
            else t.k = kindOf[e.s.cls];
            e.o = make(t);
            describe(c, e.s);
            pool.push_back(std::move(e));
        }
        for (int i = 0; i < 40; ++i) {
            auto& e = pool[g.below(pool.size())];
            switch (g.below(3)) {
                case 0: checkPayoff(c, e.s, *e.p, "object"); break;
                case 1: checkPayoff(c, e.s, e.o->getPayoff(), "option payoff object"); break;
                default:
                    for (int k = 0; k < 6; ++k) {
                        if (e.s.cls == 3) { double S = near(g, e.s.K), m = near(g, S); double w = std::max(0.0, e.s.call ? S - m : m - S);
                            c.close(e.o->payoff(S, m), w, 1e-13, 0, "option floating payoff S=%.17g extreme=%.17g", S, m); }
                        else { double S = near(g, e.s.K); double w = (double)contract(kindOf[e.s.cls], e.s.call, e.s.K, e.s.K2, S);
                            c.close(e.o->payoff(S), w, 1e-13, 0, "option payoff S=%.17g K=%.17g", S, e.s.K); }
                        count("payoff evaluations");
                    }
            }
            if (g.chance(0.05)) md()->updateStockPrice(tk, g.u(1, 300));
        }
    });
    run("rejections", 400, [](Case& c) {
        auto& g = c.rng;
        double bad = g.chance(0.3) ? QNAN : g.pickd({-1.0, -5e-324, -1e-12, -1e300, -0.01, -100.0});
        double ok = strike(g);
        auto t = g.chance(0.5) ? PayoffType::Call : PayoffType::Put;
        c.desc("bad=%.17g ok=%.17g", bad, ok);
        c.throws<std::invalid_argument>([&] { PayoffVanilla p(t, bad); }, "vanilla strike %.17g", bad);
        c.throws<std::invalid_argument>([&] { PayoffDigital p(t, bad); }, "digital strike %.17g", bad);
        c.throws<std::invalid_argument>([&] { PayoffDoubleDigital p(bad, ok); }, "double digital lower strike %.17g", bad);
        c.throws<std::invalid_argument>([&] { PayoffDoubleDigital p(ok, bad); }, "double digital upper strike %.17g", bad);
        c.throws<std::invalid_argument>([&] { PayoffVanilla p(PayoffType::DoubleDigital, ok); }, "vanilla with double digital type");
        c.throws<std::invalid_argument>([&] { PayoffDigital p(PayoffType::DoubleDigital, ok); }, "digital with double digital type");
        c.throws<std::invalid_argument>([&] { PayoffLookbackFloatingStrike p(PayoffType::DoubleDigital); }, "floating lookback with double digital type");
        PayoffVanilla v(t, ok); PayoffDigital d(t, ok); PayoffDoubleDigital dd(ok, ok + 1); PayoffLookbackFloatingStrike f(t);
        const Payoff &pv = v, &pd = d, &pdd = dd, &pf = f;
        double S = g.u(0, 200);
        c.throws<std::logic_error>([&] { (void)pv(S, S); }, "vanilla with two prices");
        c.throws<std::logic_error>([&] { (void)pd(S, S); }, "digital with two prices");
        c.throws<std::logic_error>([&] { (void)pdd(S, S); }, "double digital with two prices");
        c.throws<std::logic_error>([&] { (void)pf(S); }, "floating lookback with one price");
    });
}

bool specEq(const PSpec& a, const PSpec& b) {
    if (a.cls != b.cls) return false;
    switch (a.cls) { case 2: return a.K == b.K && a.K2 == b.K2; case 3: return a.call == b.call; default: return a.call == b.call && a.K == b.K; }
}
double tweak(Rng& g, double x) {
    switch (g.below(5)) { case 0: return std::nextafter(x, INF); case 1: return x > 0 ? std::nextafter(x, 0.0) : 1e-300; case 2: return x * (1 + 1e-9) + 1e-12; case 3: return x + 1; default: return x; }
}

void c02() {
    run("payoffs", 400, [](Case& c) {
        auto& g = c.rng;
        std::vector<PSpec> s; std::vector<std::unique_ptr<Payoff>> p;
        int n = 14;
        for (int i = 0; i < n; ++i) {
            PSpec x;
            if (i && g.chance(0.8)) { x = s[g.below(s.size())]; switch (g.below(6)) { case 0: x.K = tweak(g, x.K); break; case 1: x.K2 = tweak(g, x.K2); break; case 2: x.call = !x.call; break; case 3: x.cls = (int)g.below(4); break; case 4: std::swap(x.K, x.K2); break; default:; } }
            else x = spec(g);
            s.push_back(x); p.push_back(build(x)); describe(c, x);
        }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            bool e = *p[i] == *p[j], ne = *p[i] != *p[j], w = specEq(s[i], s[j]);
            c.expect(e == w, "payoff %d==%d is %d, terms say %d", i, j, e, w);
            c.expect(ne == !w, "payoff %d!=%d is %d, terms say %d", i, j, ne, !w);
            count(w ? "equal pairs" : "unequal pairs");
        }
        for (int i = 0; i < n; ++i) {
            auto q = p[i]->clone();
            c.expect(q.get() != p[i].get(), "clone is the same object");
            c.expect(*q == *p[i] && *p[i] == *q && !(*q != *p[i]), "clone differs from its original (%d)", i);
            p[i].reset();                       // the clone must survive its original
            auto r = build(s[i]);
            c.expect(*q == *r, "clone of a destroyed payoff differs from its terms (%d)", i);
            checkPayoff(c, s[i], *q, "clone");
            p[i] = std::move(q);
        }
    });
    run("stocks", 800, [](Case& c) {
        auto& g = c.rng;
        struct D { double S, v; Opt q; };
        std::vector<D> d; std::vector<StockData> x;
        for (int i = 0; i < 10; ++i) {
            D e{g.u(1, 200), g.u(0, 1), randCoupon(g)};
            if (i && g.chance(0.85)) { e = d[g.below(d.size())]; switch (g.below(6)) { case 0: e.S = tweak(g, e.S); break; case 1: e.v = tweak(g, e.v); break; case 2: e.q = e.q ? Opt{} : Opt{0.0}; break; case 3: e.q = randCoupon(g); break; case 4: if (e.q && *e.q < 0.5) e.q = std::nextafter(*e.q, 1.0); break; default:; } }
            d.push_back(e); x.emplace_back(e.S, e.v, e.q);
            c.desc("(%.17g,%.17g,%s)", e.S, e.v, e.q ? mon::hx(*e.q).c_str() : "-");
        }
        for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) {
            bool w = d[i].S == d[j].S && d[i].v == d[j].v && d[i].q.has_value() == d[j].q.has_value() && (!d[i].q || *d[i].q == *d[j].q);
            c.expect((x[i] == x[j]) == w && (x[i] != x[j]) == !w, "stock data %d vs %d: == gives %d, expected %d", i, j, x[i] == x[j], w);
            count(w ? "equal pairs" : "unequal pairs");
        }
    });
    run("options", 250, [](Case& c) {
        auto& g = c.rng;
        std::vector<std::string> tk;
        std::vector<std::array<double, 2>> sd; std::vector<Opt> cp;
        for (int i = 0; i < 3; ++i) {
            tk.push_back("EQ" + std::to_string(c.index) + "_" + std::to_string(i));
            sd.push_back({100.0 + i, 0.2}); cp.push_back(i == 1 ? Opt(0.02) : Opt());
            md()->addStock(tk[i], sd[i][0], sd[i][1], cp[i]);
        }
        struct E { Terms t; int ti; std::shared_ptr<Option> o; };
        std::vector<E> v;
        for (int i = 0; i < 12; ++i) {
            E e; e.t.k = g.pick(ALL_KINDS); e.t.call = g.chance(0.5); e.t.T = randT(g); e.t.K = strike(g); e.t.K2 = e.t.K + 10; e.t.B = 120; e.ti = (int)g.below(3);
            if (i && g.chance(0.85)) { e = v[g.below(v.size())]; switch (g.below(7)) { case 0: e.t.T = tweak(g, e.t.T); break; case 1: e.t.K = tweak(g, e.t.K); break; case 2: e.t.call = !e.t.call; break; case 3: e.ti = (int)g.below(3); break; case 4: e.t.k = g.pick(ALL_KINDS); break; default:; } }
            e.t.ticker = tk[e.ti]; e.o = make(e.t); v.push_back(e);
            c.desc("[%s]", e.t.str().c_str());
        }
        for (int round = 0; round < 3; ++round) {
            for (auto& a : v) for (auto& b : v) {
                bool eq = *a.o == *b.o;
                c.expect((*a.o != *b.o) == !eq, "!= is not the negation of ==");
                c.expect((*b.o == *a.o) == eq, "option equality is not symmetric");
                bool same = a.t.k == b.t.k && a.t.call == b.t.call && a.ti == b.ti && a.t.T == b.t.T && a.t.K == b.t.K && a.t.K2 == b.t.K2;
                if (same) { c.expect(eq, "identical options compare unequal: %s", a.t.str().c_str()); count("identical option pairs"); }
                auto payoffSame = a.o->getPayoff() == b.o->getPayoff();
                bool stockSame = sd[a.ti] == sd[b.ti] && cp[a.ti] == cp[b.ti];
                if (a.t.T != b.t.T || !payoffSame || !stockSame) { c.expect(!eq, "options differing in T, payoff or stock compare equal: %s / %s", a.t.str().c_str(), b.t.str().c_str()); count("different option pairs"); }
                for (auto& d : v) if (eq && *b.o == *d.o) c.expect(*a.o == *d.o, "option equality is not transitive");
            }
            int k = (int)g.below(3);
            switch (g.below(3)) {
                case 0: sd[k][0] = sd[(k + 1) % 3][0]; md()->updateStockPrice(tk[k], sd[k][0]); break;
                case 1: sd[k][1] = g.pickd({0.1, 0.2, 0.3}); md()->updateStockSigma(tk[k], sd[k][1]); break;
                default: cp[k] = g.chance(0.5) ? Opt(0.02) : Opt(); md()->updateStockCoupon(tk[k], cp[k]);
            }
        }
    });
    // options of the harness's own kind, each on a market data object of its own: what counts is the stock data read there
    run("markets", 400, [](Case& c) {
        auto& g = c.rng;
        struct Own final : Option {
            Own(const std::string& t, std::unique_ptr<Payoff> p, double T, std::shared_ptr<IMarketData> m) : Option(t, std::move(p), T, std::move(m)) {}
            double calc_price() const override { return 0; }
        };
        struct E { double S, v, T, K; Opt q; std::string tk; std::shared_ptr<Option> o; std::shared_ptr<FakeMarketData> m; };
        std::vector<E> v;
        for (int i = 0; i < 8; ++i) {
            E e{g.u(50, 150), g.u(0, 1), randT(g), g.u(50, 150), randCoupon(g), g.chance(0.5) ? "A" : "B", nullptr, nullptr};
            if (i && g.chance(0.9)) { auto keep = v[g.below(v.size())]; e = keep; switch (g.below(7)) { case 0: e.S = tweak(g, e.S); break; case 1: e.v = tweak(g, e.v); break; case 2: e.q = randCoupon(g); break; case 3: e.T = tweak(g, e.T); break; case 4: e.K = tweak(g, e.K); break; case 5: e.tk = e.tk == "A" ? "B" : "A"; break; default:; } }
            e.m = i && g.chance(0.3) && v.back().S == e.S && v.back().v == e.v && v.back().q == e.q ? v.back().m : std::make_shared<FakeMarketData>(g.u(0, 0.1));
            e.m->m[e.tk] = std::make_shared<const StockData>(e.S, e.v, e.q);
            e.o = std::make_shared<Own>(e.tk, std::make_unique<PayoffVanilla>(PayoffType::Call, e.K), e.T, e.m);
            c.desc("[%s %.17g %g %g T=%.17g K=%.17g]", e.tk.c_str(), e.S, e.v, e.q.value_or(-1), e.T, e.K); v.push_back(e);
        }
        for (auto& a : v) for (auto& b : v) {
            bool eq = *a.o == *b.o, stock = a.S == b.S && a.v == b.v && a.q == b.q;
            c.expect((*a.o != *b.o) == !eq && (*b.o == *a.o) == eq, "option equality is not symmetric or != is not its negation");
            if (a.T != b.T || a.K != b.K || !stock) { c.expect(!eq, "options differing in T, strike or stock data compare equal"); count("different option pairs"); }
            else if (a.tk == b.tk) { c.expect(eq, "identical options compare unequal"); count("identical option pairs"); }
            for (auto& d : v) if (eq && *b.o == *d.o) c.expect(*a.o == *d.o, "option equality is not transitive");
        }
    });
}
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C01", c01}, {"C02", c02}}); }
