// Monitors for builders and solver (C29) and the whole Monte Carlo pipeline (C30).
#include "pricing.h"
#include <array>
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/basis_function/monomial.h"

// ---------------------------------------------------------------- C29
struct PathModel final : StockModel {   // always the same path
    std::vector<double> p; mutable uint64_t used = 0;
    PathModel(const std::string& t, std::shared_ptr<IMarketData> m, std::vector<double> path) : StockModel(t, std::move(m), std::make_shared<DimOnlyGenerator>((unsigned)path.size())), p(std::move(path)) {}
    double simulatePriceAtMaturity(const double&) const override { ++used; return p.back(); }
    std::vector<double> simulatePrices(const double&) const override { ++used; return p; }
};
struct VarModel final : StockModel {    // pseudo random paths, restartable
    mutable Rng g; uint64_t s0; double S, sig;
    VarModel(const std::string& t, std::shared_ptr<IMarketData> m, unsigned steps, uint64_t seed, double S_, double sg) : StockModel(t, std::move(m), std::make_shared<DimOnlyGenerator>(steps)), g(seed), s0(seed), S(S_), sig(sg) {}
    double simulatePriceAtMaturity(const double& T) const override { return simulatePrices(T).back(); }
    std::vector<double> simulatePrices(const double&) const override { std::vector<double> p(getSteps()); double x = S; for (auto& v : p) { x *= std::exp(sig * g.normal()); v = x; } return p; }
};
struct CountReg final : Regression { mutable uint64_t n = 0; double bias; explicit CountReg(double b = 0) : bias(b) {} Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { ++n; Eigen::VectorXd x = LeastSquaresRegression().solve(A, y); return x; } };
struct CountBasis final : BasisFunction { mutable uint64_t n = 0; CountBasis() : BasisFunction(2) {} Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override { ++n; Eigen::MatrixXd G(x.size(), 2); G.col(0).setOnes(); G.col(1) = x / 100; return G; } };

struct Mkt { std::shared_ptr<IMarketData> m; std::map<std::string, std::array<double, 2>> s; double r() const { return m->getR(); } };   // ticker -> S, c (zero volatility)

static std::vector<double> defaultPath(const Mkt& m, const Terms& t) {
    auto [S, c] = m.s.at(t.ticker); std::vector<double> p(52); for (int i = 0; i < 52; ++i) p[i] = S * std::exp((m.r() - c) * t.T * (i + 1) / 52); return p;
}
struct Built { std::unique_ptr<MCPricer> p; Terms t; int mkt; std::shared_ptr<PathModel> model; std::shared_ptr<CountReg> reg; std::shared_ptr<CountBasis> bas; };

static void c29() {
    static const std::vector<std::string> TK{"BA", "BB", "BC"};
    run("history", 260, [](Case& c) {
        auto& g = c.rng; std::vector<Mkt> mk;
        md()->setR(g.u(0.0, 0.12));
        for (int i = 0; i < 3; ++i) { Mkt m; if (!i) m.m = md(); else m.m = std::make_shared<FakeMarketData>(g.u(0, 0.15));
            for (auto& tk : TK) { double S = g.u(60, 160), q = g.chance(0.3) ? 0 : g.u(0, 0.2); m.s[tk] = {S, q}; if (!i) md()->addStock(tk, S, 0.0, q); else std::static_pointer_cast<FakeMarketData>(m.m)->m[tk] = std::make_shared<const StockData>(S, 0.0, q); }
            mk.push_back(m); }
        auto terms = [&](Kind k) { Terms t; t.k = k; t.call = g.chance(0.5); t.ticker = g.pick(TK); t.T = g.u(0.2, 3); t.K = g.u(60, 160); t.K2 = t.K + g.u(5, 60); t.B = g.u(60, 170); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; 
            if (g.chance(0.4)) {   // a barrier between consecutive dates of the default path, which is smooth: it tells how many there are
                auto& m = g.pick(mk); auto [S, q] = m.s.at(t.ticker); t.B = S * std::exp((m.m->getR() - q) * t.T / 52 * (g.chance(0.6) ? g.u(0.6, 1.6) : g.u(50, 52.9))); if (g.chance(0.7)) t.K = t.call ? g.u(20, 60) : g.u(160, 250); t.K2 = t.K + g.u(5, 60);
            }
            return t; };
        struct B { Kind k; std::shared_ptr<MCBuilder> b; std::optional<Terms> t; int mkt = 0; std::shared_ptr<PathModel> model; std::shared_ptr<CountReg> reg; std::shared_ptr<CountBasis> bas; bool usable = true; };
        std::vector<B> bs; int nb = g.range(1, 4); for (int i = 0; i < nb; ++i) { B b; b.k = g.pick(ALL_KINDS); b.b = builderFor(b.k); bs.push_back(b); }
        std::vector<Built> built; std::string ops;
        auto verify = [&](size_t i, const char* when) {
            auto& x = built[i]; unsigned long N = (unsigned long)g.range(1, 4); std::vector<double> path = x.model ? x.model->p : defaultPath(mk[x.mkt], x.t);
            if (nearJump(x.t, path)) return; double want = pathPrice(x.t, path, mk[x.mkt].r()); uint64_t u0 = x.model ? x.model->used : 0, r0 = x.reg ? x.reg->n : 0, b0 = x.bas ? x.bas->n : 0;
            MCSolver s(N); double got; if (g.chance(0.3)) got = x.p->calculatePrice(N); else { s.setPricer(std::move(x.p)); got = s.solve(); s.setPricer(nullptr); x.p = nullptr; }
            bool gone = !x.p; c.close(got, want, 1e-6, 1.0, "pricer %zu (%s; market %d; %s; %s)", i, x.t.str().c_str(), x.mkt, x.model ? "given model" : "default model", when);
            if (x.model) c.expect(x.model->used > u0, "the given model was not used");
            if (x.t.k == Kind::American && path.size() > 1) { bool itm = false; for (size_t j = 0; j + 1 < path.size(); ++j) itm |= contract(Kind::American, x.t.call, x.t.K, 0, path[j]) > 0; if (itm) { if (x.reg) c.expect(x.reg->n > r0, "the given regression was not used"); if (x.bas) c.expect(x.bas->n > b0, "the given basis was not used"); } }
            count("prices verified"); if (gone) built.erase(built.begin() + (long)i);
        };
        c.desc("#%d %d builders", (int)c.index, nb);
        int n = g.range(6, 30);
        for (int step = 0; step < n; ++step) {
            size_t bi = g.below(bs.size()); auto& b = bs[bi]; int op = (int)g.below(10);
            switch (op) {
                case 0: case 1: case 2: { Kind k = singlePath(b.k) ? g.pick(std::vector<Kind>{Kind::European, Kind::Digital, Kind::DoubleDigital}) : b.k; Terms t = terms(k); ops += fmt("b%zu.opt(%s %s) ", bi, kname(k), t.ticker.c_str()); MCBuilder& r = b.b->setOption(make(t)); c.expect(&r == b.b.get(), "setOption does not return the builder"); b.t = t; b.usable = true; break; }
                case 3: { Kind k = g.pick(ALL_KINDS); if (accepts(b.k, k)) break; ops += fmt("b%zu.bad(%s) ", bi, kname(k)); auto o = make(terms(k)); c.throws<std::invalid_argument>([&] { b.b->setOption(o); }, "%s builder accepts a %s option", kname(b.k), kname(k)); b.usable = false; count("rejected options"); break; }
                case 4: { if (!g.chance(0.4)) break; ops += fmt("b%zu.null ", bi); c.throws<std::invalid_argument>([&] { b.b->setOption(nullptr); }, "%s builder accepts no option", kname(b.k)); b.usable = false; break; }
                case 5: { int m = (int)g.below(3); ops += fmt("b%zu.mkt(%d) ", bi, m); c.expect(&b.b->setMarketData(mk[m].m) == b.b.get(), "setMarketData does not return the builder"); b.mkt = m; break; }
                case 6: { int steps = g.range(1, 9); std::vector<double> p(steps); for (auto& x : p) x = g.u(50, 180); auto m = std::make_shared<PathModel>(g.pick(TK), md(), p); ops += fmt("b%zu.model(%d) ", bi, steps); c.expect(&b.b->setStockPriceModel(m) == b.b.get(), "setStockPriceModel does not return the builder"); b.model = m; break; }
                case 7: { if (b.k != Kind::American) break; auto* a = static_cast<AmericanMCBuilder*>(b.b.get()); ops += fmt("b%zu.reg/basis ", bi); if (g.chance(0.6)) { b.reg = std::make_shared<CountReg>(); a->setRegressionStrategy(b.reg); } if (g.chance(0.6)) { b.bas = std::make_shared<CountBasis>(); a->setBasisFunctionStrategy(b.bas); } break; }
                default: {
                    if (!b.t && b.usable) { c.throws<std::logic_error>([&] { b.b->build(); }, "%s builder builds without an option", kname(b.k)); count("refused builds"); break; }
                    if (!b.usable) break;
                    ops += fmt("b%zu.build ", bi); Built x{b.b->build(), *b.t, b.mkt, b.model, b.reg, b.bas}; if (!c.expect(!!x.p, "build returned nothing")) break; built.push_back(std::move(x)); count("pricers built"); if (g.chance(0.3)) verify(built.size() - 1, "right after the build");
                }
            }
            if (g.chance(0.1) && bs.size() > 1) { ops += fmt("~b%zu ", bi); bs.erase(bs.begin() + (long)bi); }   // builders may go away, their pricers stay
            if (c.d.size() < 1500 && step + 1 == n) c.desc("%s", ops.c_str());
        }
        // every pricer built on the way still prices what it was built for
        while (!built.empty() && mon::st().violations.size() < 8) { size_t i = g.below(built.size()), before = built.size(); verify(i, "at the end"); if (built.size() == before) built.erase(built.begin() + (long)i); }
    });
    // the defaults of the American builder are least squares and three monomials
    run("american-defaults", 60, [](Case& c) {
        auto& g = c.rng; std::string tk = "BD"; double S = 100, r = g.u(0, 0.1); md()->setR(r); md()->addStock(tk, S, 0.2, 0.02); Terms t; t.k = Kind::American; t.call = g.chance(0.5); t.ticker = tk; t.K = g.u(90, 110); t.T = g.u(0.5, 2); unsigned steps = (unsigned)g.range(3, 10); unsigned long N = (unsigned long)g.range(60, 200); uint64_t seed = g.u64(); bool customReg = g.chance(0.3), customBas = g.chance(0.3);
        c.desc("%s steps=%u N=%lu seed=%llu", t.str().c_str(), steps, N, (unsigned long long)seed);
        auto go = [&](bool explicitly) { AmericanMCBuilder b; b.setOption(make(t)); b.setStockPriceModel(std::make_shared<VarModel>(tk, md(), steps, seed, S, 0.12)); if (customReg) b.setRegressionStrategy(std::make_shared<RidgeRegression>(5.0)); else if (explicitly) b.setRegressionStrategy(std::make_shared<LeastSquaresRegression>()); if (customBas) b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(5)); else if (explicitly) b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(3)); return b.build()->calculatePrice(N); };
        double a = go(false), b = go(true); c.close(a, b, 1e-9, 1, "default regression and basis against least squares and three monomials");
        // and they matter: another basis prices this sample differently (evidence that the comparison sees something)
        AmericanMCBuilder o; o.setOption(make(t)); o.setStockPriceModel(std::make_shared<VarModel>(tk, md(), steps, seed, S, 0.12)); o.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(2)); if (std::fabs(o.build()->calculatePrice(N) - b) > 1e-9) count("samples on which the basis matters");
    });
    // default models draw randomly: fresh, with 52 steps of the option's own underlying
    run("default-model", 24, [](Case& c) {
        auto& g = c.rng; double r = g.u(0, 0.1); md()->setR(r); double S1 = g.u(50, 90), S2 = g.u(110, 200), v1 = g.u(0.1, 0.3), v2 = g.u(0.4, 0.6); md()->addStock("DA", S1, v1, 0.01); md()->addStock("DB", S2, v2, std::nullopt);
        Kind k = g.pick(std::vector<Kind>{Kind::European, Kind::ArithAsian, Kind::GeoAsian, Kind::FixedLB, Kind::FloatLB, Kind::KnockIn, Kind::KnockOut}); auto b = builderFor(k); c.desc("%s S1=%.9g S2=%.9g v1=%.9g v2=%.9g", kname(k), S1, S2, v1, v2);
        // terms whose price is linear in the underlying: recognises whose underlying is simulated
        auto mkT = [&](const std::string& tk) { Terms t; t.k = k; t.ticker = tk; t.T = 1; t.call = true; t.K = 0; t.B = k == Kind::KnockOut ? 1e9 : 1e-9; t.dir = BarrierDirection::Up; return t; };
        auto t1 = mkT("DA"), t2 = mkT("DB"); auto o1 = make(t1), o2 = make(t2); b->setOption(o1); auto p1 = b->build(); b->setOption(o2); auto p2 = b->build(); b->setOption(o1); auto p3 = b->build(); unsigned long N = 1500;
        auto judge = [&](MCPricer& p, double S, double v, double q, const char* w) { double x = p.calculatePrice(N) / S, hi = k == Kind::FixedLB || k == Kind::FloatLB ? 1 + 2.2 * v + 0.1 : 1 + 0.1 + 7 * v / std::sqrt((double)N), lo = k == Kind::FloatLB ? 0.02 : (1 - q - 0.1) - 7 * v / std::sqrt((double)N); c.expect(x > lo && x < hi, "%s prices %.6g times its own underlying (expected %.3g..%.3g)", w, x, lo, hi); };
        judge(*p1, S1, v1, 0.01, "first pricer"); judge(*p2, S2, v2, 0, "second pricer"); judge(*p3, S1, v1, 0.01, "third pricer");
        double a = p1->calculatePrice(40), d = p3->calculatePrice(40); c.expect(std::isfinite(a) && std::isfinite(d), "not finite"); count("default models judged", 3);
    });
    run("solver", 150, [](Case& c) {
        auto& g = c.rng; md()->setR(0.0); md()->addStock("SV", 100, 0.2, std::nullopt); unsigned long N = g.chance(0.2) ? (unsigned long)g.logu(1e4, 1e15) : (unsigned long)g.range(1, 50); c.desc("N=%lu #%d", N, (int)c.index);
        MCSolver s(N); c.throws<std::logic_error>([&] { (void)s.solve(); }, "a solver without a pricer solves");
        struct Counter final : MCPricer { double v; std::shared_ptr<std::vector<unsigned long>> log; bool& dead; Counter(double v_, std::shared_ptr<std::vector<unsigned long>> l, bool& d, std::shared_ptr<StockModel> m) : MCPricer(md(), std::move(m)), v(v_), log(std::move(l)), dead(d) {} ~Counter() override { dead = true; } double calculatePrice(const unsigned long& n) const override { log->push_back(n); return v; } };
        auto log = std::make_shared<std::vector<unsigned long>>(); auto model = std::make_shared<PathModel>("SV", md(), std::vector<double>{100}); static bool dead[8]; double cur = 0; int used = -1;
        for (int i = 0; i < 8; ++i) {
            int op = i == 0 ? 0 : (int)g.below(3);
            if (op == 0 && used < 6) { cur = g.u(0, 100); ++used; dead[used] = false; s.setPricer(std::make_unique<Counter>(cur, log, dead[used], model)); }
            else if (op == 1) { N = g.chance(0.2) ? (unsigned long)g.logu(1e4, 1e15) : (unsigned long)g.range(1, 5000); s.setN(N); }
            size_t n0 = log->size(); double v = s.solve(); c.expect(v == cur, "solver returned %.17g instead of the pricer's %.17g", v, cur); c.expect(log->size() == n0 + 1 && log->back() == N, "pricer was asked for %lu paths instead of %lu", log->empty() ? 0ul : log->back(), N); c.expect(!dead[used], "the current pricer was destroyed");
        }
        s.setPricer(nullptr); c.expect(dead[used], "the replaced pricer was not released"); c.throws<std::logic_error>([&] { (void)s.solve(); }, "a solver whose pricer was taken away solves"); count("solver histories");
    });
}

// ---------------------------------------------------------------- C30
struct Law { double price, sd; };   // closed form price and standard deviation of the discounted payoff of one path
static Law lognormal(Kind k, bool call, double F, double K, double K2, double D, double s) {   // terminal value F exp(-s^2/2 + s z)
    Law l; auto tail = [&](double x) { return x <= 0 ? 1.0 : ncdf((std::log(F / x) - 0.5 * s * s) / s); };   // P(S > x)
    if (k == Kind::Digital) { double p = call ? tail(K) : 1 - tail(K); l.price = D * p; l.sd = D * std::sqrt(std::max(p * (1 - p), 1e-9)); return l; }
    if (k == Kind::DoubleDigital) { double p = tail(K) - tail(K2); l.price = D * p; l.sd = D * std::sqrt(std::max(p * (1 - p), 1e-9)); return l; }
    if (K <= 0) { l.price = call ? D * (F - K) : 0; l.sd = call ? D * F * std::sqrt(std::expm1(s * s)) : 0; return l; }
    double d1 = std::log(F / K) / s + s / 2, d2 = d1 - s, sg = call ? 1 : -1, m = sg * (F * ncdf(sg * d1) - K * ncdf(sg * d2)), m2 = F * F * std::exp(s * s) * ncdf(sg * (d1 + s)) - 2 * K * F * ncdf(sg * d1) + K * K * ncdf(sg * d2);
    l.price = D * m; l.sd = D * std::sqrt(std::max(m2 - m * m, 1e-12 * F * F)); return l;
}
static Law closedForm(const Terms& t, double S, double r, double q, double sig, int n) {
    double D = std::exp(-r * t.T), F = S * std::exp((r - q) * t.T), s = sig * std::sqrt(t.T);
    if (t.k == Kind::GeoAsian) { double m = (r - q - 0.5 * sig * sig) * t.T * (n + 1) / (2.0 * n), v = sig * sig * t.T * (n + 1) * (2.0 * n + 1) / (6.0 * n * n); s = std::sqrt(v); F = S * std::exp(m + v / 2); return lognormal(Kind::European, t.call, F, t.K, 0, D, s); }
    return lognormal(t.k, t.call, F, t.K, t.K2, D, s);
}
static std::shared_ptr<NumberGenerator> genOf(int k, unsigned dim, unsigned seed) { if (k == 0) return std::make_shared<PseudoRandomNumberGenerator>(dim, seed); if (k == 1) return std::make_shared<SobolGenerator>(dim, seed); return std::make_shared<FaureGenerator>(dim, seed); }
static const char* gn(int k) { static const char* n[] = {"prng", "sobol", "faure", "default"}; return n[k]; }
static std::unique_ptr<MCPricer> pricer(const Terms& t, std::shared_ptr<Option> o, std::shared_ptr<NumberGenerator> G) { auto b = builderFor(t.k); b->setOption(o); if (G) b->setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>(t.ticker, md(), G)); return b->build(); }
static double solveBy(const Terms& t, std::shared_ptr<Option> o, std::shared_ptr<NumberGenerator> G, unsigned long N) { MCSolver s(N); s.setPricer(pricer(t, o, G)); return s.solve(); }

static void c30det() {
    run("deterministic", 700, [](Case& c) {
        auto& g = c.rng; Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = "E0"; bool zeroT = t.k != Kind::American && g.chance(0.4); double S = g.u(40, 200), r = randRate(g), sig = zeroT ? g.u(0, 0.6) : 0; Opt cp = randCoupon(g); double q = cp.value_or(0);
        t.T = zeroT ? 0 : randT(g); double F = S * std::exp((r - q) * t.T); t.K = g.chance(0.2) ? S : F * g.u(0.6, 1.5); t.K2 = t.K + g.u(1, 60); t.B = std::max(1.0, (S + F) / 2 * g.u(0.8, 1.25)); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; int gk = zeroT || t.k != Kind::American ? (int)g.below(4) : (int)g.below(4); unsigned steps = gk == 3 ? 52 : (unsigned)g.range(1, 30); unsigned long N = (unsigned long)g.range(1, 5);
        md()->setR(r); md()->addStock(t.ticker, S, sig, cp); c.desc("%s S=%.17g sigma=%.17g r=%.17g c=%.17g steps=%u %s N=%lu", t.str().c_str(), S, sig, r, q, steps, gn(gk), N);
        auto path = [&](double S, double r, double q) { std::vector<double> p(steps); for (unsigned i = 0; i < steps; ++i) p[i] = S * std::exp((r - q) * t.T * (i + 1) / steps); return p; };
        auto o = make(t); MCSolver s(N); s.setPricer(pricer(t, o, gk == 3 ? nullptr : genOf(gk, steps, (unsigned)g.below(1000)))); 
        for (int k = 0; k < 3; ++k) {
            auto p = path(S, r, q); if (!nearJump(t, p)) { c.close(s.solve(), pathPrice(t, p, r), t.k == Kind::American ? 1e-6 : 1e-9, 1.0, "deterministic price%s", k ? " after a market update" : ""); count("deterministic prices"); }
            switch (g.below(3)) { case 0: S = g.u(40, 200); md()->updateStockPrice(t.ticker, S); break; case 1: r = randRate(g); md()->setR(r); break; default: q = g.u(0, 0.2); md()->updateStockCoupon(t.ticker, q); }
        }
    });
    // parity on identical draws
    run("parity", 250, [](Case& c) {
        auto& g = c.rng; std::string tk = "E1"; double S = g.u(40, 200), r = randRate(g), sig = g.u(0.05, 0.6); md()->setR(r); md()->addStock(tk, S, sig, randCoupon(g)); int gk = (int)g.below(3); unsigned steps = (unsigned)g.range(1, 12), seed = (unsigned)g.below(100000); unsigned long N = (unsigned long)g.range(1, 120);
        Terms t; t.ticker = tk; t.T = randT(g); t.K = S * g.u(0.7, 1.4); t.K2 = t.K * 1.2; t.B = S * g.u(0.8, 1.25); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; int what = (int)g.below(4); t.call = g.chance(0.5); double D = std::exp(-r * t.T);
        c.desc("parity %d %s S=%.17g r=%.17g sigma=%.17g %s steps=%u seed=%u N=%lu", what, t.str().c_str(), S, r, sig, gn(gk), steps, seed, N);
        auto price = [&](Kind k, bool call) { Terms x = t; x.k = k; x.call = call; return solveBy(x, make(x), genOf(gk, steps, seed), N); };
        GeometricBrownianMotionModel ref(tk, md(), genOf(gk, steps, seed)); double sc = S + t.K;
        if (what == 0) { long double m = 0; for (unsigned long i = 0; i < N; ++i) m += ref.simulatePriceAtMaturity(t.T); c.close(price(Kind::European, true) - price(Kind::European, false), D * ((double)(m / N) - t.K), 1e-9, sc * (1 + (double)(m / N) / S), "European call minus put"); }
        else if (what == 1) { long double m = 0; for (unsigned long i = 0; i < N; ++i) { auto p = ref.simulatePrices(t.T); Terms x = t; x.k = Kind::European; m += pays(x, p); } c.close(price(Kind::KnockIn, t.call) + price(Kind::KnockOut, t.call), D * (double)(m / N), 1e-9, sc + (double)(m / N), "knock-in plus knock-out"); }
        else if (what == 2) { long double m = 0; for (unsigned long i = 0; i < N; ++i) { auto p = ref.simulatePrices(t.T); long double s = 0; for (double v : p) s += v; m += s / p.size(); } c.close(price(Kind::ArithAsian, true) - price(Kind::ArithAsian, false), D * ((double)(m / N) - t.K), 1e-9, sc * (1 + (double)(m / N) / S), "Asian call minus put"); double a = price(Kind::ArithAsian, t.call), b = price(Kind::GeoAsian, t.call); c.expect(t.call ? a >= b - 1e-9 * sc : a <= b + 1e-9 * sc, "arithmetic %.17g against geometric %.17g Asian", a, b); }
        else { c.close(price(Kind::Digital, true) + price(Kind::Digital, false), D, 1e-9, 1, "digital call plus put"); double l = price(Kind::FixedLB, t.call), e = price(Kind::KnockIn, t.call) + price(Kind::KnockOut, t.call); c.expect(l >= e - 1e-9 * sc, "lookback %.17g below the plain option %.17g on the same paths", l, e); }
        count("parities");
    });
}
static void c30stat() {
    run("closed-form", 120, [](Case& c) {
        auto& g = c.rng; Terms t; t.k = g.pick(std::vector<Kind>{Kind::European, Kind::European, Kind::Digital, Kind::DoubleDigital, Kind::GeoAsian, Kind::GeoAsian}); t.call = g.chance(0.5); t.ticker = "E2"; t.T = g.chance(0.3) ? 1 : g.u(0.1, 3);
        double S = g.u(40, 200), r = g.chance(0.2) ? g.pickd({0.0, 0.05, -0.02}) : g.u(-0.02, 0.15), sig = g.u(0.05, 0.5); Opt cp = randCoupon(g); double q = cp.value_or(0); double F = S * std::exp((r - q) * t.T); t.K = F * std::exp(g.u(-1.2, 1.2) * sig * std::sqrt(t.T)); t.K2 = t.K * std::exp(g.u(0.3, 1.5) * sig * std::sqrt(t.T));
        int gk = (int)(c.index % 4); unsigned steps = gk == 3 ? 52 : gk == 0 ? (unsigned)g.range(1, 20) : (unsigned)g.range(1, gk == 2 ? 4 : 8), seed = (unsigned)g.below(100000); unsigned long N = gk == 3 && t.k == Kind::GeoAsian ? 12000 : 30000;
        md()->setR(r); md()->addStock(t.ticker, S, sig, cp); c.desc("%s S=%.17g sigma=%.17g r=%.17g c=%.17g %s steps=%u seed=%u N=%lu", t.str().c_str(), S, sig, r, q, gn(gk), steps, seed, N);
        MCSolver s(N); s.setPricer(pricer(t, make(t), gk == 3 ? nullptr : genOf(gk, steps, seed)));
        for (int k = 0; k < 2; ++k) {
            Law l = closedForm(t, S, r, q, sig, (int)steps); double got = s.solve(), se = l.sd / std::sqrt((double)N), e = std::fabs(got - l.price), lim = (gk == 1 || gk == 2) ? 4 : 7;
            maxi(std::string("standard errors off, ") + gn(gk), e / se); c.expect(e <= lim * se + 1e-9 * S, "price %.9g, closed form %.9g, off by %.2f standard errors (limit %.1f)%s", got, l.price, e / se, lim, k ? " after market updates" : ""); count(std::string("closed form comparisons ") + gn(gk)); count(std::string("kind ") + kname(t.k));
            if (k == 0) { S *= g.u(0.9, 1.1); sig = std::min(0.6, sig * g.u(0.8, 1.3)); r += g.u(-0.02, 0.03); md()->updateStockPrice(t.ticker, S); md()->updateStockSigma(t.ticker, sig); md()->setR(r); if (g.chance(0.5)) { q = g.u(0, 0.1); md()->updateStockCoupon(t.ticker, q); } }
        }
    }, 10);
    // all path dependent contracts against an independent simulation
    run("path-dependent", 40, [](Case& c) {
        auto& g = c.rng; Terms t; t.k = g.pick(std::vector<Kind>{Kind::ArithAsian, Kind::KnockIn, Kind::KnockOut, Kind::FloatLB, Kind::FixedLB, Kind::GeoAsian}); t.call = g.chance(0.5); t.ticker = "E3"; t.T = g.u(0.1, 2); double S = g.u(40, 200), r = g.u(-0.02, 0.15), sig = g.u(0.1, 0.5); Opt cp = randCoupon(g); double q = cp.value_or(0); t.K = S * g.u(0.85, 1.2); t.B = S * std::exp(g.u(-1.2, 1.2) * sig * std::sqrt(t.T)); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        int gk = (int)(c.index % 4); unsigned steps = gk == 3 ? 52 : (unsigned)g.range(1, gk == 2 ? 4 : 10); unsigned long N = gk == 3 ? 8000 : 20000;   // Faure in d dimensions needs more than p^p points, p the next prime, before sums of all coordinates even out
        md()->setR(r); md()->addStock(t.ticker, S, sig, cp); c.desc("%s S=%.17g sigma=%.17g r=%.17g c=%.17g %s steps=%u", t.str().c_str(), S, sig, r, q, gn(gk), steps);
        double got = solveBy(t, make(t), gk == 3 ? nullptr : genOf(gk, steps, (unsigned)g.below(100000)), N); double dt = t.T / steps, D = std::exp(-r * t.T), m = 0, m2 = 0; int M = gk == 3 ? 20000 : 60000; std::vector<double> p(steps);
        for (int i = 0; i < M; ++i) { double x = std::log(S); for (auto& v : p) { x += (r - q - 0.5 * sig * sig) * dt + sig * std::sqrt(dt) * g.normal(); v = std::exp(x); } double w = D * (double)pays(t, p); m += w; m2 += w * w; }
        m /= M; double sd = std::sqrt(std::max(m2 / M - m * m, 1e-4 * S * S)), se = sd * std::sqrt(1.0 / N + 1.0 / M); maxi("standard errors off, independent simulation", std::fabs(got - m) / se); c.expect(std::fabs(got - m) <= 7.5 * se, "price %.9g, independent simulation %.9g, off by %.2f standard errors", got, m, std::fabs(got - m) / se); count(std::string("simulation comparisons ") + kname(t.k));
    }, 10);
}

int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C29", c29}, {"C30", c30det}, {"C30stat", c30stat}}); }
