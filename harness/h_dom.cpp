// C43: arguments outside their domain are refused instead of computed with; those on its edge are accepted.
#include "parts.h"

namespace {
// 0: went through, 1: refused with a logic_error, 2: anything else
int outcome(const std::function<void()>& f, std::string& what) {
    try { f(); return 0; } catch (const std::logic_error& e) { what = e.what(); return 1; } catch (const std::exception& e) { what = std::string("other exception: ") + e.what(); return 2; } catch (...) { what = "unknown exception"; return 2; }
}
void refused(Case& c, const std::function<void()>& f, const std::string& name) {
    std::string w; int k = outcome(f, w); c.expect(k == 1, "%s: %s", name.c_str(), k == 0 ? "computed with" : w.c_str()); count("refusals expected");
}
void accepted(Case& c, const std::function<void()>& f, const std::string& name) {
    std::string w; int k = outcome(f, w); c.expect(k == 0, "%s: refused although legal: %s", name.c_str(), w.c_str()); count("acceptances expected");
}
struct Watch final : MarketDataObserver { mutable int n = 0; explicit Watch(const std::string& id) : MarketDataObserver(id) {} void update() override { ++n; } };

void simulateAll(const ModP& m, double T) { for (double x : m->simulatePrices(T)) if (!(x > 0) || !std::isfinite(x)) throw std::runtime_error(fmt("simulated %.17g", x)); double y = m->simulatePriceAtMaturity(T); if (!(y > 0) || !std::isfinite(y)) throw std::runtime_error(fmt("simulated %.17g", y)); }

// how many parameters each recipe has
const int NP[] = {0, 5, 3, 4, 2, 8};
void models() {
    run("models", 1500, [](Case& c) {
        auto& g = c.rng; std::string tk = "M43"; md()->setR(g.u(-0.02, 0.1)); md()->addStock(tk, g.u(50, 150), g.u(0.05, 0.4), randCoupon(g));
        Recipe R = Recipe::random(g, 6); R.model = 1 + (int)g.below(5); { Recipe Q; do Q = Recipe::random(g, 6); while (Q.model != R.model); R = Q; } R.gen = 0; double T = g.u(0.1, 2);
        int at = (int)g.below((uint64_t)NP[R.model]); Recipe bad = R; bad.a[at] = g.chance(0.5) ? QNAN : -QNAN; c.desc("%s, parameter %d not a number, T=%.6g", R.str().c_str(), at, T);
        accepted(c, [&] { simulateAll(R.make(tk), T); }, "legal parameters");
        bool path = g.chance(0.5); refused(c, [&] { auto m = bad.make(tk); if (path) m->simulatePrices(T); else m->simulatePriceAtMaturity(T); }, "NaN parameter");
        // the edges of the admissible sets belong to them, what lies just beyond does not
        Recipe e = R; bool ok = true; std::string what;
        switch (R.model) {
            case 1: switch (g.below(5)) { case 0: e.a[3] = g.pickd({1.0, -1.0}); what = "rho=+-1"; break; case 1: e.a[4] = 0; what = "v0=0"; break; case 2: e.a[2] = 0; what = "sigma_v=0"; break; case 3: e.a[3] = g.pickd({std::nextafter(1.0, 2.0), std::nextafter(-1.0, -2.0), 3.0}); ok = false; what = "rho beyond 1"; break; default: e.a[g.chance(0.5) ? 4 : 2] = -g.logu(1e-12, 1); ok = false; what = "negative v0 or sigma_v"; } break;
            case 2: if (g.chance(0.5)) { e.a[2] = g.logu(1e-9, 1e-3); what = "tiny sigmaJ"; } else { e.a[2] = g.pickd({0.0, -0.1, -1e-12}); ok = false; what = "sigmaJ<=0"; } break;
            case 3: switch (g.below(4)) { case 0: e.a[1] = g.pickd({0.0, 1.0}); what = "p=0 or 1"; break; case 1: e.a[1] = g.pickd({std::nextafter(1.0, 2.0), -1e-12, 2.0}); ok = false; what = "p outside [0,1]"; break; case 2: e.a[2] = g.pickd({1.0, 0.5, -3.0}); ok = false; what = "eta1<=1"; break; default: e.a[3] = g.pickd({0.0, -1.0}); ok = false; what = "eta2<=0"; } break;
            case 4: e.a[0] = g.pickd({0.0, -0.2, -1e-12}); ok = false; what = "nu<=0"; break;
            default: switch (g.below(4)) { case 0: e.a[3] = g.pickd({1.0, -1.0}); what = "rho=+-1"; break; case 1: e.a[3] = g.pickd({std::nextafter(1.0, 2.0), std::nextafter(-1.0, -2.0)}); ok = false; what = "rho beyond 1"; break; case 2: e.a[g.picki({0, 2, 4, 7})] = g.pickd({0.0, -0.1}); ok = false; what = "kappa, sigma_v, v0 or sigmaJ <= 0"; break; default: e.a[1] = 0; what = "theta=0"; }
        }
        if (ok) accepted(c, [&] { simulateAll(e.make(tk), T); }, what); else refused(c, [&] { e.make(tk)->simulatePrices(T); }, what);
        if (R.model == 2 || R.model == 3 || R.model == 5) { Recipe n = R; n.a[R.model == 5 ? 5 : 0] = -g.logu(1e-6, 5); refused(c, [&] { n.make(tk)->simulatePrices(T); }, "negative jump intensity"); }
    });
    run("variance gamma moment", 600, [](Case& c) {
        auto& g = c.rng; std::string tk = "V43"; md()->setR(0.03); md()->addStock(tk, 100, 0.2, randCoupon(g));
        double nu = g.logu(0.05, 5), lim = 2 * g.u(0.05, 0.95), s = std::sqrt(lim / nu); bool theta0 = g.chance(0.3);
        // theta nu + sigma^2 nu / 2 = load
        double load = g.chance(0.3) ? 1 + g.logu(1e-9, 1e-3) : g.u(1.001, 3), theta = theta0 ? 0 : (load - 0.5 * s * s * nu) / nu; if (theta0) s = std::sqrt(2 * load / nu);
        double calm = theta0 ? s * g.u(0.1, 0.6) / std::sqrt(load) : 0; bool canCalm = 1 - theta * nu - 0.5 * calm * calm * nu > 0.05;
        c.desc("nu=%.17g theta=%.17g sigma=%.17g", nu, theta, s); md()->updateStockSigma(tk, s);
        std::shared_ptr<StockModel> m; std::string w; auto make1 = [&] { m = std::make_shared<VarianceGammaModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)g.range(1, 5), 3u), nu, theta); }; bool built = outcome(make1, w) == 0; count(built ? "built" : "refused when built");
        if (built) { refused(c, [&] { m->simulatePrices(1.0); }, "path"); refused(c, [&] { m->simulatePriceAtMaturity(1.0); }, "price at maturity"); Terms t; t.ticker = tk; auto o = make(t); auto p = pricer(o, t.k, m); refused(c, [&] { MCSolver sv(3); sv.setPricer(std::move(p)); sv.solve(); }, "option price"); }
        // one model through calm and wild markets, in any order
        if (canCalm && theta0) {
            if (!m) { md()->updateStockSigma(tk, calm); make1(); }
            std::shared_ptr<StockModel> k; md()->updateStockSigma(tk, g.chance(0.5) ? calm : s); try { k = std::make_shared<VarianceGammaModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>(3u, 9u), nu, theta); } catch (const std::logic_error&) { md()->updateStockSigma(tk, calm); k = std::make_shared<VarianceGammaModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>(3u, 9u), nu, theta); }
            for (auto& mm : {m, k}) for (int i = g.range(2, 5); i--;) { bool wild = g.chance(0.5); md()->updateStockSigma(tk, wild ? s * g.u(1, 1.5) : calm * g.u(0.05, 1)); if (wild) refused(c, [&] { if (i % 2) mm->simulatePrices(1.0); else mm->simulatePriceAtMaturity(1.0); }, "wild market"); else accepted(c, [&] { simulateAll(mm, 1.0); }, "calm market"); count("market moved"); }
        }
        // just inside
        double in = g.chance(0.5) ? 1 - g.logu(1e-6, 1e-2) : g.u(0.1, 0.99), th2 = (in - 0.5 * 0.01 * nu) / nu; md()->updateStockSigma(tk, 0.1); if (in / nu < 40 && th2 < 3) accepted(c, [&] { auto k = std::make_shared<VarianceGammaModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 5u), nu, th2); for (double x : k->simulatePrices(0.5)) if (std::isnan(x)) throw std::runtime_error("NaN price"); }, fmt("just inside: load %.17g", in));
    });
}
void distributions() {
    run("distributions", 1500, [](Case& c) {
        auto& g = c.rng; double n = g.chance(0.5) ? QNAN : -QNAN, x = g.logu(1e-3, 50), y = x + g.logu(1e-3, 10); int k = (int)g.below(9); std::unique_ptr<Distribution> d; auto G = std::make_shared<PseudoRandomNumberGenerator>(1u, (unsigned)c.index + 1);
        auto draw = [&] { double v = (*G)(*d); if (!std::isfinite(v)) throw std::runtime_error(fmt("drew %.17g", v)); };
        c.desc("distribution %d, x=%.6g y=%.6g", k, x, y);
        auto both = [&](const std::function<void()>& good, const std::function<void()>& bad, const char* what) { accepted(c, [&] { good(); draw(); }, what); d.reset(); refused(c, [&] { bad(); draw(); }, what); };
        switch (k) {
            case 0: both([&] { d = std::make_unique<ContinuousUniformDistribution>(-x, y); }, [&] { d = std::make_unique<ContinuousUniformDistribution>(n, y); }, "uniform, lower bound"); break;
            case 1: both([&] { d = std::make_unique<ContinuousUniformDistribution>(x, y); }, [&] { d = std::make_unique<ContinuousUniformDistribution>(x, n); }, "uniform, upper bound"); break;
            case 2: both([&] { d = std::make_unique<ExponentialDistribution>(x); }, [&] { d = std::make_unique<ExponentialDistribution>(n); }, "exponential"); break;
            case 3: both([&] { d = std::make_unique<GammaDistribution>(x, y); }, [&] { d = std::make_unique<GammaDistribution>(n, y); }, "gamma shape"); break;
            case 4: both([&] { d = std::make_unique<GammaDistribution>(y, x); }, [&] { d = std::make_unique<GammaDistribution>(x, n); }, "gamma rate"); break;
            case 5: both([&] { d = std::make_unique<NormalDistribution>(x, y); }, [&] { d = std::make_unique<NormalDistribution>(x, n); }, "normal sigma"); break;
            case 6: both([&] { d = std::make_unique<NormalDistribution>(-x, y); }, [&] { d = std::make_unique<NormalDistribution>(n, y); }, "normal mean"); break;
            case 7: both([&] { d = std::make_unique<PoissonDistribution>(x); }, [&] { d = std::make_unique<PoissonDistribution>(n); }, "Poisson"); break;
            default: { StandardNormalDistribution s; accepted(c, [&] { if (!std::isfinite(s.inv_cdf(g.u(1e-12, 1 - 1e-12)))) throw std::runtime_error("quantile"); }, "quantile"); refused(c, [&] { s.inv_cdf(n); }, "NaN quantile"); refused(c, [&] { s.inv_cdf(g.pickd({0.0, 1.0, -0.0, -x, 1 + x, INF, -INF, std::nextafter(1.0, 2.0)})); }, "quantile outside (0,1)"); accepted(c, [&] { s.inv_cdf(g.pickd({std::nextafter(1.0, 0.0), 5e-324, 1e-300})); }, "extreme quantile"); }
        }
        refused(c, [&] { d = std::make_unique<PoissonDistribution>(g.pickd({INF, 1e300, 1e25})); draw(); }, "a rate beyond all counting");
        { double A = -g.u(0.5, 1) * 1.79e308, B = g.u(0.51, 1) * 1.79e308; std::string w; int k2 = outcome([&] { ContinuousUniformDistribution u(A, B); for (int i = 0; i < 5; ++i) { double v = (*G)(u); if (!(v >= A && v < B)) throw std::runtime_error(fmt("drew %.17g", v)); } }, w); c.expect(k2 != 2, "interval from %.17g to %.17g: %s", A, B, w.c_str()); }
        double l = g.chance(0.4) ? 0.0 : g.logu(1e-6, 10); bool ridge = g.chance(0.5); auto reg = [&](double v) { std::unique_ptr<Regression> r; if (ridge) r = std::make_unique<RidgeRegression>(v); else r = std::make_unique<LassoRegression>(v); Eigen::MatrixXd A(5, 2); Eigen::VectorXd b(5); for (int i = 0; i < 5; ++i) { A(i, 0) = 1; A(i, 1) = g.normal(); b(i) = g.normal(); } for (double q : r->solve(A, b)) if (!std::isfinite(q)) throw std::runtime_error("not finite"); };
        accepted(c, [&] { reg(l); }, "lambda >= 0"); refused(c, [&] { reg(n); }, "NaN lambda"); refused(c, [&] { reg(-g.logu(1e-12, 10)); }, "negative lambda");
    });
}
void market() {
    run("market", 1500, [](Case& c) {
        auto& g = c.rng; std::string tk = "K43"; double r = g.u(-0.05, 0.2), S = g.u(50, 150); md()->setR(r); md()->addStock(tk, S, g.u(0.05, 0.5), randCoupon(g));
        Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 2); t.K = g.u(60, 140); t.K2 = t.K + 20; t.B = g.u(70, 130); auto o = make(t); auto w = std::make_shared<Watch>(tk); md()->addObserver(w);
        Recipe R; R.steps = 4; double before = once(t, R, 20); int n0 = w->n; c.desc("%s r=%.17g", t.str().c_str(), r);
        refused(c, [&] { md()->setR(g.chance(0.5) ? QNAN : -QNAN); }, "NaN rate"); c.expect(md()->getR() == r, "rate is %.17g after a refusal", md()->getR()); c.expect(w->n == n0, "a refused rate was announced"); double after = once(t, R, 20); c.expect(bits(before) == bits(after), "price %.17g became %.17g", before, after);
        double r2 = g.pickd({0.0, -0.0, -0.9, 2.5, r + 0.01}); accepted(c, [&] { md()->setR(r2); }, "a legal rate"); c.expect(bits(md()->getR()) == bits(r2), "rate reads %.17g", md()->getR());
        Terms b = t; b.k = g.chance(0.5) ? Kind::KnockIn : Kind::KnockOut; b.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; b.B = g.chance(0.5) ? QNAN : -QNAN; refused(c, [&] { auto x = make(b); once(b, R, 3); }, "NaN barrier"); b.B = g.pickd({0.0, 1e-12, 1e9, 100.0}); accepted(c, [&] { make(b); }, "a legal barrier");
        Terms q = t; int f = (int)g.below(3); (f == 0 ? q.T : f == 1 ? q.K : q.K2) = QNAN; bool uses = f == 0 || (f == 1 ? q.k != Kind::FloatLB : q.k == Kind::DoubleDigital); if (uses) refused(c, [&] { make(q); }, "NaN term");
    });
}
void horizons() {
    run("horizons", 1500, [](Case& c) {
        auto& g = c.rng; std::string tk = "H43"; md()->setR(g.u(-0.02, 0.1)); double S = g.u(50, 150); md()->addStock(tk, S, g.u(0.05, 0.3), randCoupon(g)); Recipe R = Recipe::random(g, 6); if (g.chance(0.5)) R.gen = 0; auto m = R.make(tk); double T = g.u(0.1, 2), bad = g.pickd({-1.0, -1e-12, -1e300, QNAN, -QNAN, INF, -INF, -g.logu(1e-9, 10)}); c.desc("%s T=%.17g", R.str().c_str(), bad);
        auto path = [&](double t) { for (double x : m->simulatePrices(t)) if (!(x > 0) || !std::isfinite(x)) throw std::runtime_error(fmt("simulated %.17g", x)); }; auto end = [&](double t) { double x = m->simulatePriceAtMaturity(t); if (!(x > 0) || !std::isfinite(x)) throw std::runtime_error(fmt("simulated %.17g", x)); };
        accepted(c, [&] { path(T); }, "a legal horizon"); refused(c, [&] { path(bad); }, "path"); refused(c, [&] { end(bad); }, "price at maturity"); accepted(c, [&] { end(T); }, "a legal horizon after a refusal"); accepted(c, [&] { g.chance(0.5) ? path(0.0) : end(0.0); for (double x : m->simulatePrices(0.0)) if (std::fabs(x / S - 1) > 1e-12) throw std::runtime_error(fmt("horizon zero: %.17g", x)); }, "horizon zero");
        double Sn = g.u(50, 150), t = g.u(0.1, 2), s = t * g.u();
        if (R.model == 0) {
            auto back = [&](double a, double b, double d) { double x = m->simulatePriceBackward(a, b, d); if (!(x >= 0) || !std::isfinite(x)) throw std::runtime_error(fmt("simulated %.17g", x)); };
            accepted(c, [&] { back(Sn, s, t); back(Sn, 0, t); back(Sn, t, t); back(Sn, 0, 0); back(S, 0, 0); }, "legal times");
            int k = (int)g.below(5); refused(c, [&] { switch (k) { case 0: back(Sn, std::nextafter(t, 3.0) + (g.chance(0.5) ? g.u(0, 1) : 0), t); break; case 1: back(Sn, -g.logu(1e-12, 1), t); break; case 2: g.chance(0.5) ? back(Sn, QNAN, t) : back(Sn, s, QNAN); break; case 3: back(Sn, g.chance(0.5) ? INF : s, INF); break; default: back(g.chance(0.5) ? QNAN : -g.logu(1e-9, 100), s, t); } }, fmt("backward, case %d", k)); accepted(c, [&] { back(Sn, s, t); }, "legal times after a refusal");
        }
    });
    run("infinite market", 800, [](Case& c) {
        auto& g = c.rng; std::string tk = "I43"; double r = g.u(-0.05, 0.2), S = g.u(50, 150), v = g.u(0.05, 0.5); md()->setR(r); md()->addStock(tk, S, v, randCoupon(g));
        Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 2); t.K = g.u(60, 140); t.K2 = t.K + 20; t.B = g.u(70, 130); auto o = make(t); Recipe R; R.steps = 4; double before = once(t, R, 20); int k = (int)g.below(6); c.desc("%s case %d", t.str().c_str(), k);
        refused(c, [&] { switch (k) { case 0: md()->setR(g.chance(0.5) ? INF : -INF); break; case 1: md()->updateStockPrice(tk, INF); break; case 2: md()->updateStockSigma(tk, INF); break; case 3: md()->addStock("J43" + std::to_string(c.index), INF, 0.2); break; case 4: md()->addStock("J43" + std::to_string(c.index), 100, INF); break; default: { Terms q = t; q.T = INF; make(q); } } }, "an infinite value");
        auto d = md()->getStockData(tk); c.expect(md()->getR() == r && d->getPrice() == S && d->getSigma() == v, "market data changed by a refusal"); double after = once(t, R, 20); c.expect(bits(before) == bits(after), "price %.17g became %.17g", before, after);
    });
}
void solvers() {
    run("no paths", 400, [](Case& c) {
        auto& g = c.rng; std::string tk = "P43"; md()->setR(g.u(0, 0.1)); md()->addStock(tk, g.u(50, 150), g.u(0.05, 0.5), randCoupon(g)); Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 2); t.K = g.u(60, 140); t.K2 = t.K + 20; t.B = g.u(70, 130); auto o = make(t); Recipe R = Recipe::random(g, 5); unsigned long N = (unsigned long)g.range(1, 20); c.desc("%s %s N=%lu", t.str().c_str(), R.str().c_str(), N);
        bool ctor = g.chance(0.5); MCSolver s(ctor ? 0 : N); s.setPricer(pricer(o, t.k, R.make(tk))); if (!ctor) s.setN(0); for (int i = g.range(1, 3); i--;) refused(c, [&] { (void)s.solve(); }, "no paths"); s.setN(N); double v = 0; accepted(c, [&] { v = s.solve(); }, "some paths"); double w = once(t, R, N); c.expect(bits(v) == bits(w), "after a refusal %.17g, without %.17g", v, w);
        s.setN(1); accepted(c, [&] { if (!std::isfinite(s.solve())) throw std::runtime_error("not finite"); }, "one path");
    });
    run("grids", 1200, [](Case& c) {
        auto& g = c.rng; std::string tk = "F43"; md()->setR(g.u(0, 0.1)); md()->addStock(tk, g.u(80, 120), g.u(0.05, 0.2), randCoupon(g)); Terms t; t.ticker = tk; t.call = g.chance(0.5); t.K = g.u(60, 140); t.T = g.u(0.1, 1); auto o = euro(t);
        Grid q; q.scheme = (int)g.below(3); q.X = g.u(200, 400); q.J = (unsigned long)g.range(3, 8); q.N = (unsigned long)(q.scheme == 0 ? g.range(20, 40) : g.range(2, 12)); q.inter = (int)g.below(3); q.mat = q.J > 3 ? (int)g.below(4) : (int)g.below(3); double T = t.T;
        auto build = [&](const Grid& k, double tt) { auto pde = std::make_unique<BlackScholesPDE>(o, md()); std::unique_ptr<FDMSolver> f; if (k.scheme == 0) f = std::make_unique<EulerExplicitFDM>(k.X, k.J, tt, k.N, std::move(pde), o, md(), ip(k.inter)); else if (k.scheme == 1) f = std::make_unique<EulerImplicitFDM>(k.X, k.J, tt, k.N, std::move(pde), o, md(), ip(k.inter), ms(k.mat)); else f = std::make_unique<CrankNicolsonFDMSolver>(k.X, k.J, tt, k.N, std::move(pde), o, md(), ip(k.inter), ms(k.mat)); return f; };
        bool whole = g.chance(0.5); auto use = [&](const Grid& k, double tt) { auto f = build(k, tt); if (whole) { for (double x : f->solve()) if (!std::isfinite(x)) throw std::runtime_error("a node is not finite"); } else if (!std::isfinite(f->calculatePrice())) throw std::runtime_error("price is not finite"); };
        int what = (int)g.below(4); Grid b = q; double tb = T; if (what == 0) b.J = (unsigned long)g.below(3); else if (what == 1) b.N = (unsigned long)g.below(2); else if (what == 2) b.X = g.pickd({0.0, -0.0, -1.0, -300.0, QNAN, INF}); else tb = g.pickd({-1.0, -1e-9, QNAN, INF});
        c.desc("scheme %d J=%lu N=%lu X=%.6g T=%.6g matrix solver %d interpolation %d", b.scheme, b.J, b.N, b.X, tb, b.mat, b.inter);
        accepted(c, [&] { use(q, T); }, fmt("legal grid J=%lu N=%lu", q.J, q.N)); refused(c, [&] { use(b, tb); }, "grid outside the domain");
        if (g.chance(0.2)) { Grid s = q; s.J = 3; s.N = q.scheme == 0 ? 30 : 2; s.mat = (int)g.below(3); accepted(c, [&] { use(s, T); }, "smallest grid"); }
        if (g.chance(0.3)) { accepted(c, [&] { use(q, 0.0); }, "a grid at maturity"); }
    });
}
void c43() { models(); distributions(); market(); horizons(); solvers(); }
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C43", c43}}); }
