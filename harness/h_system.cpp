// Monitors for relations between whole calculations: C31 no-arbitrage relations, C32 isolation,
// C33 memory of a pricing run, C34 descriptions, C35 clean failures.
#include <sys/wait.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif
#include "parts.h"

// ---------------------------------------------------------------- C31
static void c31() {
    // all prices of a case are taken on the same draws
    run("strikes", 500, [](Case& c) {
        auto& g = c.rng; std::string tk = "R31"; double S = g.u(50, 150), r = g.u(-0.03, 0.15); md()->setR(r); md()->addStock(tk, S, g.u(0.05, 0.6), randCoupon(g));
        Recipe R = Recipe::random(g, 12); unsigned long N = (unsigned long)g.range(1, 120); Terms t; t.ticker = tk; t.T = g.u(0.1, 3); double D = std::exp(-r * t.T);
        double K1 = S * g.u(0.6, 1.3), h = S * g.logu(1e-3, 0.4), K2 = K1 + h, K3 = K2 + h, B = S * g.u(0.6, 1.6); auto dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        c.desc("%s N=%lu S=%.17g r=%.17g T=%.17g K=%.17g h=%.17g B=%.17g %s", R.str().c_str(), N, S, r, t.T, K1, h, B, dir == BarrierDirection::Up ? "up" : "down");
        auto P = [&](Kind k, bool call, double K, double Kb = 0, double bar = -1) { Terms u = t; u.k = k; u.call = call; u.K = K; u.K2 = Kb; u.B = bar < 0 ? B : bar; u.dir = dir; return once(u, R, N); };
        double F = P(Kind::European, true, 0), top = P(Kind::FixedLB, true, 0), tol = 1e-9 * (top + D * K3) + 1e-12;
        c.expect(F >= 0 && top >= F - tol, "the maximum of the path is worth %.17g, its end %.17g", top, F);
        // slope and curvature in the strike
        for (Kind k : {Kind::European, Kind::ArithAsian, Kind::GeoAsian, Kind::KnockIn, Kind::KnockOut, Kind::FixedLB}) for (bool call : {true, false}) {
            double a = P(k, call, K1), b = P(k, call, K2), d = P(k, call, K3), dn = call ? a - b : b - a, dn2 = call ? b - d : d - b;
            c.expect(a >= -tol && b >= -tol && d >= -tol, "%s %s: negative price among %.17g %.17g %.17g", kname(k), call ? "call" : "put", a, b, d);
            c.expect(dn >= -tol && dn <= D * h + tol && dn2 >= -tol && dn2 <= D * h + tol, "%s %s: prices %.17g %.17g %.17g at strikes %.9g apart (discount factor %.9g)", kname(k), call ? "call" : "put", a, b, d, h, D);
            c.expect(a + d - 2 * b >= -tol, "%s %s is not convex in the strike: %.17g %.17g %.17g", kname(k), call ? "call" : "put", a, b, d);
        }
        // parity
        for (auto [k, fwd] : std::vector<std::pair<Kind, double>>{{Kind::European, F}, {Kind::ArithAsian, P(Kind::ArithAsian, true, 0)}, {Kind::GeoAsian, P(Kind::GeoAsian, true, 0)}})
            c.expect(std::fabs(P(k, true, K2) - P(k, false, K2) - fwd + D * K2) <= tol, "%s call minus put is %.17g, forward minus discounted strike %.17g", kname(k), P(k, true, K2) - P(k, false, K2), fwd - D * K2);
        // digitals between the call spreads around them, the double digital between two digitals
        double dc = P(Kind::Digital, true, K2), dp = P(Kind::Digital, false, K2), dd = P(Kind::DoubleDigital, true, K1, K2);
        c.expect(std::fabs(dc + dp - D) <= tol, "digital call %.17g and put %.17g do not add up to %.17g", dc, dp, D);
        double right = (P(Kind::European, true, K2) - P(Kind::European, true, K3)) / h, left = (P(Kind::European, true, K1) - P(Kind::European, true, K2)) / h;
        c.expect(dc >= right - tol / h && dc <= left + tol / h, "digital call %.17g outside the call spreads %.17g and %.17g", dc, right, left);
        c.expect(std::fabs(dd - (P(Kind::Digital, true, K1) - dc)) <= tol, "double digital %.17g, difference of digitals %.17g", dd, P(Kind::Digital, true, K1) - dc);
        // Asian, lookback and barrier against each other
        double eu = P(Kind::European, true, K1), ep = P(Kind::European, false, K1), ar = P(Kind::ArithAsian, true, K1), ge = P(Kind::GeoAsian, true, K1), fx = P(Kind::FixedLB, true, K1), fp = P(Kind::FixedLB, false, K1);
        c.expect(ge <= ar + tol && ar <= fx + tol && eu <= fx + tol && ep <= fp + tol, "geometric %.17g, arithmetic %.17g, European %.17g, lookback %.17g; puts %.17g %.17g", ge, ar, eu, fx, ep, fp);
        double big = 64 * S + 4 * top / D * (double)N, low = big * D - P(Kind::FixedLB, false, big), tb = tol + 1e-12 * big * D;   // discounted mean of the minima
        c.expect(std::fabs(P(Kind::FloatLB, true, 0) - (F - low)) <= tb, "floating strike call %.17g, end minus minimum %.17g", P(Kind::FloatLB, true, 0), F - low);
        c.expect(std::fabs(P(Kind::FloatLB, false, 0) - (top - F)) <= tol, "floating strike put %.17g, maximum minus end %.17g", P(Kind::FloatLB, false, 0), top - F);
        for (bool call : {true, false}) {
            double v = P(Kind::European, call, K2), in = P(Kind::KnockIn, call, K2), out = P(Kind::KnockOut, call, K2), B2 = dir == BarrierDirection::Up ? B * g.u(1, 1.3) : B * g.u(0.7, 1), in2 = P(Kind::KnockIn, call, K2, 0, B2);
            c.expect(std::fabs(in + out - v) <= tol, "%s: in %.17g plus out %.17g against %.17g", call ? "call" : "put", in, out, v);
            c.expect(in2 <= in + tol, "a barrier farther away (%.17g) raises the knock-in from %.17g to %.17g", B2, in, in2);
        }
        count("relations on equal draws", 40); count(std::string("model ") + Recipe::mn(R.model));
    }, 10);
    // a change of currency unit
    run("unit", 300, [](Case& c) {
        auto& g = c.rng; std::string tk = "U31"; double S = g.u(20, 300), r = g.u(-0.03, 0.15), sig = g.u(0.05, 0.6); Opt cp = randCoupon(g); md()->setR(r); Recipe R = Recipe::random(g, 12); unsigned long N = (unsigned long)g.range(1, 80); bool exact = g.chance(0.6); double f = exact ? std::ldexp(1.0, g.range(-12, 12)) : g.logu(1e-3, 1e3); bool far = g.chance(0.4); int e = g.range(20, 120);
        Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 3); t.K = S * g.u(0.7, 1.3); t.K2 = t.K * g.u(1.01, 1.4); t.B = S * g.u(0.7, 1.4); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        if (!exact && (singlePath(t.k) || t.k == Kind::KnockIn || t.k == Kind::KnockOut) && t.k != Kind::European) t.k = Kind::European;
        if (far && exact && t.k != Kind::American) f = std::ldexp(1.0, g.chance(0.5) ? e : -e);
        c.desc("%s %s N=%lu unit %.17g S=%.17g sigma=%.17g r=%.17g", t.str().c_str(), R.str().c_str(), N, f, S, sig, r);
        md()->addStock(tk, S, sig, cp); double a = once(t, R, N); md()->updateStockPrice(tk, S * f); Terms u = t; u.K *= f; u.K2 *= f; u.B *= f; double b = once(u, R, N), w = t.k == Kind::Digital || t.k == Kind::DoubleDigital ? a : a * f;
        if (t.k == Kind::American && !exact) c.close(b, w, 0.02, S * f, "American price in another unit"); else c.close(b, w, t.k == Kind::American ? 1e-6 : 1e-9, (S + t.K) * (t.k == Kind::Digital || t.k == Kind::DoubleDigital ? 1 / S : f), "price in another unit");
    }, 10);
    // no exercise policy beats perfect foresight on the same paths
    run("american", 200, [](Case& c) {
        auto& g = c.rng; std::string tk = "A31"; double S = g.u(50, 150), r = g.u(-0.02, 0.15); md()->setR(r); md()->addStock(tk, S, g.u(0.05, 0.6), randCoupon(g)); Recipe R = Recipe::random(g, 12); if (R.model == 0 && R.gen == 0) R.gen = 1 + (int)g.below(2);   // the variant that simulates forward
        Terms t; t.k = Kind::American; t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 3); t.K = S * g.u(0.7, 1.3); int N = g.range(1, 150); c.desc("%s %s N=%d r=%.17g", t.str().c_str(), R.str().c_str(), N, r);
        double got = once(t, R, (unsigned long)N), best = 0, least = INF; auto m = R.make(tk);
        for (int i = 0; i < N; ++i) { auto p = m->simulatePrices(t.T); double hi = 0; for (size_t j = 0; j < p.size(); ++j) hi = std::max(hi, std::exp(-r * t.T * (double)(j + 1) / (double)p.size()) * (double)contract(Kind::American, t.call, t.K, 0, p[j])); best += hi / N; least = std::min(least, hi); }
        c.expect(got >= 0 && got <= best * (1 + 1e-9) + 1e-12, "American price %.17g, perfect foresight %.17g", got, best);
    }, 10);
    run("grid", 160, [](Case& c) {
        auto& g = c.rng; std::string tk = "G31"; double S = g.u(50, 150), sig = g.u(0.2, 0.6), T = g.u(0.2, 2), X = S * g.u(2, 5), r = g.u(0, 0.1), q = g.u(0, 0.08); if (std::fabs(r - q) > sig * sig) q = r; Grid G; G.scheme = (int)g.below(2); G.X = X; G.J = (unsigned long)g.range(8, 60); G.N = G.scheme == 0 ? (unsigned long)(T * (sig * sig * (double)(G.J * G.J) + r) * 1.1) + 3 : (unsigned long)g.range(2, 60); G.mat = (int)g.below(4); G.inter = 0; double f = std::ldexp(1.0, g.range(-8, 8)), K = S * g.u(0.7, 1.3), h = S * g.u(0.01, 0.3); bool call = g.chance(0.5);
        c.desc("scheme %d J=%lu N=%lu X=%.17g S=%.17g K=%.17g h=%.17g sigma=%.17g r=%.17g c=%.17g T=%.17g %s", G.scheme, G.J, G.N, X, S, K, h, sig, r, q, T, call ? "call" : "put"); md()->setR(r); md()->addStock(tk, S, sig, q);
        auto sol = [&](double k, double unit) { Terms t; t.ticker = tk; t.call = call; t.K = k * unit; t.T = T; Grid H = G; H.X *= unit; return fdm(H, euro(t))->solve(); };
        auto a = sol(K, 1), b = sol(K + h, 1), d = sol(K + 2 * h, 1), e = sol(K, f); if (!c.expect(a.size() == G.J && b.size() == G.J && d.size() == G.J && e.size() == G.J, "grid sizes")) return; double tol = 1e-9 * X;
        for (size_t j = 0; j < a.size(); ++j) {
            double dn = call ? a[j] - b[j] : b[j] - a[j]; c.expect(dn >= -tol && dn <= h + tol, "node %zu: prices %.17g %.17g at strikes %.9g apart", j, a[j], b[j], h);
            bool end = j == 0 || j + 1 == a.size(); (void)end; c.expect(a[j] + d[j] - 2 * b[j] >= -tol, "node %zu: not convex in the strike: %.17g %.17g %.17g", j, a[j], b[j], d[j]); c.expect(a[j] >= -tol || call, "node %zu: negative put %.17g", j, a[j]);
            c.expect(std::fabs(e[j] - a[j] * f) <= 1e-9 * X * f, "node %zu: %.17g in another unit, %.17g expected", j, e[j], a[j] * f); if (mon::st().violations.size() > 6) return;
        }
        count("grids compared", 4);
    }, 10);
}

// ---------------------------------------------------------------- C32
// A history is planned before anything runs: every random choice is made in the plan, so that one participant's
// part can be carried out alone, in a process in which nothing else has ever been computed, under the same market.
struct Act { int who = -1, op = 0; uint64_t seed = 0; double x = 0; std::string tk; Opt c; };
struct Plan { uint64_t seed; int agents; std::vector<Act> acts; std::vector<std::string> tks; double r0; };
static Plan plan(uint64_t seed) {
    Rng g(seed); Plan p; p.seed = seed; p.agents = g.range(2, 7); p.r0 = g.u(-0.02, 0.1); for (int i = 0, n = g.range(1, 3); i < n; ++i) p.tks.push_back(fmt("I%d", i)); int len = g.range(8, 40);
    for (int i = 0; i < len; ++i) {
        Act a; a.seed = g.u64(); if (g.chance(0.22)) { a.op = (int)g.below(4); a.tk = g.pick(p.tks); a.x = a.op == 0 ? g.u(60, 140) : a.op == 1 ? g.u(0.05, 0.6) : g.u(-0.03, 0.15); if (a.op == 2) a.c = randCoupon(g); } else { a.who = (int)g.below(p.agents); a.op = (int)g.below(6); }
        p.acts.push_back(a);
    }
    return p;
}
struct Strategies {
    std::vector<std::shared_ptr<BasisFunction>> basis{std::make_shared<MonomialBasisFunction>(3), std::make_shared<LaguerreBasisFunction>(3), std::make_shared<LegendreBasisFunction>(2), std::make_shared<ChebyshevBasisFunction>(4)};
    std::vector<std::shared_ptr<Regression>> regr{std::make_shared<LeastSquaresRegression>(), std::make_shared<RidgeRegression>(0.1), std::make_shared<LassoRegression>(0.01)};
    std::vector<std::shared_ptr<CIRDiscretization>> cir{std::make_shared<CIRExplicitEulerDiscretization>(), std::make_shared<CIRMilsteinDiscretization>()};
    std::vector<std::shared_ptr<MatrixSolver>> mat{std::make_shared<LUDecompositionSolver>(), std::make_shared<PartialPivotingLUSolver>(), std::make_shared<ThomasAlgorithm>()};
    std::vector<std::shared_ptr<Interpolation>> inter{std::make_shared<LinearInterpolation>(), std::make_shared<QuadraticInterpolation>()};
    static std::shared_ptr<Distribution> law(int i) { switch (i) { case 0: return std::make_shared<StandardNormalDistribution>(); case 1: return std::make_shared<PoissonDistribution>(1.3); case 2: return std::make_shared<GammaDistribution>(0.7, 2.0); case 3: return std::make_shared<ExponentialDistribution>(1.5); default: return std::make_shared<ContinuousUniformDistribution>(-1.0, 2.0); } }   // one's own: a distribution may keep spare numbers
    std::map<int, std::pair<Terms, std::shared_ptr<Option>>> opts; std::map<int, std::shared_ptr<StockModel>> models; std::shared_ptr<MCBuilder> builders[10];
    uint64_t seed; const Plan* p;
    // six contracts that the participants share
    std::pair<Terms, std::shared_ptr<Option>> option(int i, bool european) {
        auto f = opts.find(i + 100 * european); if (f != opts.end()) return f->second;
        Rng g(seed * 7 + (uint64_t)i * 13 + european); Terms t; t.k = european ? Kind::European : g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = g.pick(p->tks); t.T = g.pickd({0.5, 1.0, 2.0}); t.K = g.u(80, 120); t.K2 = t.K + g.u(5, 30); t.B = g.u(80, 130); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        return opts[i + 100 * european] = {t, make(t)};
    }
};
struct Agent {
    Rng g; int kind; std::unique_ptr<MCSolver> mc; std::unique_ptr<FDMSolver> f; ModP model; GenP gen; std::shared_ptr<Distribution> d; Terms t; Recipe R; std::shared_ptr<Option> o; Strategies& S; std::string name;
    Agent(uint64_t seed, Strategies& s) : g(seed), kind(0), S(s) {
        kind = g.picki({0, 0, 0, 0, 1, 1, 2, 3, 4, 4, 5});
        if (kind == 0 || kind == 2) { R = Recipe::random(g, 10); if (g.chance(0.5)) R.steps = 4; if (g.chance(0.3)) R.seed = 7; }
        if (kind == 0) {
            auto [tt, oo] = S.option((int)g.below(6), false); t = tt; o = oo; model = R.make(t.ticker, nullptr, g.pick(S.cir)); auto b = g.pick(S.basis); auto r = g.pick(S.regr); bool def = g.chance(0.3);
            if (def) { auto& bd = S.builders[(int)t.k]; if (!bd) bd = builderFor(t.k); bd->setOption(o); bd->setStockPriceModel(model); bd->setMarketData(md()); if (t.k == Kind::American) { auto* a = static_cast<AmericanMCBuilder*>(bd.get()); a->setBasisFunctionStrategy(b); a->setRegressionStrategy(r); } mc = std::make_unique<MCSolver>(5UL); mc->setPricer(bd->build()); }
            else { mc = std::make_unique<MCSolver>(5UL); mc->setPricer(pricer(o, t.k, model, md(), t.k == Kind::American ? b : nullptr, t.k == Kind::American ? r : nullptr)); }
            name = std::string("pricing of a ") + kname(t.k) + " under " + Recipe::mn(R.model) + " " + Recipe::gn(R.gen);
        } else if (kind == 1) {
            auto [tt, oo] = S.option((int)g.below(3), true); t = tt; o = oo; Grid q; q.scheme = (int)g.below(3); q.X = 300; q.J = g.chance(0.5) ? 12 : (unsigned long)g.range(5, 25); q.N = q.scheme == 0 ? 220 : g.chance(0.5) ? 10 : (unsigned long)g.range(2, 30); if (g.chance(0.2)) q.X = 320; f = fdm(q, std::dynamic_pointer_cast<EuropeanOption>(o), nullptr, g.pick(S.inter), g.pick(S.mat)); name = fmt("finite differences, scheme %d J=%lu N=%lu", q.scheme, q.J, q.N);
        } else if (kind == 2) { t.ticker = g.pick(S.p->tks); model = R.make(t.ticker, nullptr, g.pick(S.cir)); name = std::string("paths of ") + Recipe::mn(R.model) + " " + Recipe::gn(R.gen); }
        else if (kind == 3) { R = Recipe::random(g, 10); R.gen = (int)g.below(3); gen = R.generator(); d = S.law(R.gen ? 0 : (int)g.below(5)); name = std::string("draws of ") + Recipe::gn(R.gen); }
        else if (kind == 5) name = "calculations that fail";
        else name = "numerical strategies";
    }
    std::vector<double> act(const Act& a) {
        Rng q(a.seed); std::vector<double> out;
        switch (kind) {
            case 0: if (q.chance(0.5)) mc->setN((unsigned long)q.range(1, t.k == Kind::American ? 30 : 60)); out.push_back(mc->solve()); break;
            case 1: if (q.chance(0.5)) out = f->solve(); out.push_back(f->calculatePrice()); break;
            case 2: if (q.chance(0.4)) out.push_back(model->simulatePriceAtMaturity(q.u(0.1, 2))); else out = model->simulatePrices(q.chance(0.5) ? 1.0 : q.u(0.1, 2)); if (R.model == 0 && R.gen == 0 && q.chance(0.5)) { double b = q.u(0.2, 2); out.push_back(model->simulatePriceBackward(q.u(60, 140), b * q.u(), b)); } break;
            case 3: for (int i = 0, n = q.range(1, 25); i < n; ++i) out.push_back((*gen)(*d)); break;
            case 5: {   // a user's part gives up in the middle; what it leaves behind must not show anywhere
                Recipe r = Recipe::random(q, 6); struct Bad final : NumberGenerator { GenP in; mutable long left; Bad(GenP i, unsigned d, long k) : NumberGenerator(d, 1u), in(std::move(i)), left(k) {} double operator()(Distribution& d) const override { if (left-- <= 0) throw std::runtime_error("no more numbers"); return (*in)(d); } };
                auto bad = std::make_shared<Bad>(r.generator(), r.steps, (long)q.below(3 * r.steps + 2)); auto [tt, oo] = S.option((int)q.below(6), false);
                try { switch (q.below(4)) {
                    case 0: out.push_back(r.make(tt.ticker, bad, q.pick(S.cir))->simulatePrices(1.0).back()); break;
                    case 1: { MCSolver s(5); s.setPricer(pricer(oo, tt.k, r.make(tt.ticker, bad, q.pick(S.cir)))); out.push_back(s.solve()); break; }
                    case 2: { Eigen::SparseMatrix<double> Z(3, 3); Eigen::VectorXd b = Eigen::VectorXd::Ones(3); out.push_back(S.mat[0]->solve(Z, b)(0)); break; }
                    default: { auto [te, oe] = S.option((int)q.below(3), true); struct Eq final : BlackScholesPDE { mutable long left; Eq(std::shared_ptr<EuropeanOption> o, long k) : BlackScholesPDE(o, md()), left(k) {} double reaction(const double& a, const double& x) const override { if (left-- <= 0) throw std::runtime_error("no coefficient"); return BlackScholesPDE::reaction(a, x); } };
                        auto e = std::dynamic_pointer_cast<EuropeanOption>(oe); Grid G; G.scheme = 1 + (int)q.below(2); G.J = 12; G.N = 10; auto F = fdm(G, e, nullptr, q.pick(S.inter), q.pick(S.mat), std::make_unique<Eq>(e, (long)q.below(120))); out.push_back(F->calculatePrice()); }
                } } catch (const std::runtime_error&) { out.push_back(-1); }
                break;
            }
            default: {
                // half of the inputs are members of a family shared by all participants that differ in one entry
                bool fam = q.chance(0.6); Rng w(fam ? S.seed * 31 + 7 : q.u64()); auto alter = [&](int n) { return fam && q.chance(0.7) ? (int)q.below((uint64_t)n) : -1; };
                Eigen::VectorXd x(fam ? 8 : w.range(1, 12)); for (int i = 0; i < x.size(); ++i) x(i) = w.u(0.2, 2); { int k = alter((int)x.size()); if (k >= 0) x(k) += 0.25; } auto B = q.pick(S.basis)->generate(x); for (int i = 0; i < B.size(); ++i) out.push_back(B(i));
                Eigen::VectorXd y(x.size()); for (int i = 0; i < y.size(); ++i) y(i) = w.normal(); { int k = alter((int)y.size()); if (k >= 0) y(k) += 0.25; } auto co = q.pick(S.regr)->solve(B, y); for (int i = 0; i < co.size(); ++i) out.push_back(co(i));
                int n = fam || w.chance(0.5) ? 6 : w.range(2, 12); Eigen::SparseMatrix<double> A(n, n); std::vector<Eigen::Triplet<double>> tr; for (int i = 0; i < n; ++i) { tr.push_back({i, i, w.u(3, 5)}); if (i) tr.push_back({i, i - 1, w.u(-1, 1)}); if (i + 1 < n) tr.push_back({i, i + 1, w.u(-1, 1)}); } { int k = alter((int)tr.size()); if (k >= 0) { auto& e = tr[(size_t)k]; e = {e.row(), e.col(), e.value() * 0.75}; } }
                A.setFromTriplets(tr.begin(), tr.end()); Eigen::VectorXd b(n); for (int i = 0; i < n; ++i) b(i) = w.normal(); { int k = alter(n); if (k >= 0) b(k) += 0.25; } auto s = q.pick(S.mat)->solve(A, b); for (int i = 0; i < n; ++i) out.push_back(s(i));
                std::vector<double> xs, ys; double z = 0; for (int i = 0, m = fam ? 6 : w.range(2, 8); i < m; ++i) { xs.push_back(z); z += w.u(0.2, 2); ys.push_back(w.normal()); } { int k = alter((int)xs.size()); if (k >= 0) ys[(size_t)k] += 0.25; k = alter((int)xs.size()); if (k > 0) xs[(size_t)k] -= 0.1; } for (int i = 0; i < 3; ++i) out.push_back(q.pick(S.inter)->interpolate(xs, ys, q.u(-1, z + 1)));
            }
        }
        return out;
    }
};
using Log = std::vector<std::vector<std::vector<double>>>;
static std::string market(const Plan& p) { std::string s = mon::hx(md()->getR()); for (auto& t : p.tks) { auto d = md()->getStockData(t); s += fmt(" %a %a %s", d->getPrice(), d->getSigma(), d->getCoupon() ? mon::hx(*d->getCoupon()).c_str() : "-"); } return s; }
static Log carry(const Plan& p, int only, Case* c, std::vector<std::string>* names = nullptr) {
    md()->setR(p.r0); Rng g(p.seed ^ 0x55); for (auto& t : p.tks) { double s = g.u(80, 120), v = g.u(0.1, 0.5); Opt q = randCoupon(g); md()->addStock(t, s, v, q); }
    Strategies S; S.seed = p.seed; S.p = &p; std::vector<std::unique_ptr<Agent>> ag((size_t)p.agents); Log log((size_t)p.agents);
    for (auto& a : p.acts) {
        if (a.who < 0) { switch (a.op) { case 0: md()->updateStockPrice(a.tk, a.x); break; case 1: md()->updateStockSigma(a.tk, a.x); break; case 2: md()->updateStockCoupon(a.tk, a.c); break; default: md()->setR(a.x); } continue; }
        if (only >= 0 && a.who != only) continue;
        auto& A = ag[(size_t)a.who]; std::string before = c ? market(p) : "", d0, d1;
        if (!A) A = std::make_unique<Agent>(p.seed + 1000003u * (uint64_t)(a.who + 1), S);
        if (c && A->o) { std::ostringstream o; o.precision(17); o << *A->o; d0 = o.str(); }
        log[(size_t)a.who].push_back(A->act(a));
        if (a.op == 5 && A->kind != 1) { uint64_t again = A->g.u64(); (void)again; if (A->kind == 0 && A->g.chance(0.3)) A.reset(); }   // the participant goes away and is made anew at its next turn
        if (c) { c->expect(market(p) == before, "a computation changed the market data from %s to %s", before.c_str(), market(p).c_str()); if (A && A->o) { std::ostringstream o; o.precision(17); o << *A->o; d1 = o.str(); c->expect(d0 == d1, "a computation changed the option from %s to %s", d0.c_str(), d1.c_str()); } count("computations"); }
    }
    if (names) for (auto& A : ag) names->push_back(A ? A->name : "-");
    return log;
}
// A process forked before anything was computed forks one child per request.
struct Alone {
    int in = -1, out = -1; pid_t pid = -1;
    static bool rd(int fd, void* b, size_t n) { char* p = (char*)b; while (n) { ssize_t k = read(fd, p, n); if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
    static bool wr(int fd, const void* b, size_t n) { const char* p = (const char*)b; while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
    void start() {
        int a[2], b[2]; if (pipe(a) || pipe(b)) return; pid = fork();
        if (pid == 0) {
            close(a[1]); close(b[0]); uint64_t q[2];
            while (rd(a[0], q, sizeof q)) {
                pid_t k = fork();
                if (k == 0) { std::vector<double> flat; int64_t n = -1; try { auto p = plan(q[0]); auto L = carry(p, (int)q[1], nullptr); n = 0; for (auto& v : L[q[1]]) { flat.push_back((double)v.size()); flat.insert(flat.end(), v.begin(), v.end()); } n = (int64_t)flat.size(); } catch (...) { n = -2; } wr(b[1], &n, 8); if (n > 0) wr(b[1], flat.data(), (size_t)n * 8); _exit(0); }
                int st = 0; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { int64_t n = -3; wr(b[1], &n, 8); }
            }
            _exit(0);
        }
        close(a[0]); close(b[1]); in = a[1]; out = b[0];
    }
    bool ask(uint64_t seed, int who, std::vector<double>& flat, int64_t& n) { uint64_t q[2] = {seed, (uint64_t)who}; if (!wr(in, q, sizeof q) || !rd(out, &n, 8)) return false; flat.resize(n > 0 ? (size_t)n : 0); return n <= 0 || rd(out, flat.data(), (size_t)n * 8); }
    void stop() { if (in >= 0) { close(in); close(out); waitpid(pid, nullptr, 0); in = out = -1; } }
};
static void c32() {
    Alone alone; alone.start();
    run("histories", 220, [&](Case& c) {
        uint64_t seed = c.rng.u64() >> 1; auto p = plan(seed); std::vector<std::string> names; auto L = carry(p, -1, &c, &names); std::string d; for (auto& n : names) d += n + "; "; c.desc("history %llu, %zu operations, %d participants: %s", (unsigned long long)seed, p.acts.size(), p.agents, d.c_str());
        for (int i = 0; i < p.agents; ++i) {
            std::vector<double> flat, mine; int64_t n = 0; for (auto& v : L[(size_t)i]) { mine.push_back((double)v.size()); mine.insert(mine.end(), v.begin(), v.end()); }
            if (mine.empty()) continue;
            if (!c.expect(alone.ask(seed, i, flat, n) && n >= 0, "participant %d (%s) failed alone, status %lld", i, names[(size_t)i].c_str(), (long long)n)) return;
            size_t k = 0; while (k < mine.size() && k < flat.size() && (bits(mine[k]) == bits(flat[k]) || (std::isnan(mine[k]) && std::isnan(flat[k])))) ++k;
            c.expect(k == mine.size() && k == flat.size(), "participant %d (%s): value %zu of %zu is %.17g, %.17g when nothing else runs", i, names[(size_t)i].c_str(), k, mine.size(), k < mine.size() ? mine[k] : 0.0, k < flat.size() ? flat[k] : 0.0);
            count("participants replayed alone"); count("values compared", mine.size()); count("kind " + names[(size_t)i].substr(0, names[(size_t)i].find_first_of(",") == std::string::npos ? names[(size_t)i].find(" of") : names[(size_t)i].find(",")));
        }
    }, 10);
    alone.stop();
}

// ---------------------------------------------------------------- C33
static long peakKb() { std::ifstream f("/proc/self/status"); std::string l; while (std::getline(f, l)) if (l.rfind("VmHWM:", 0) == 0) return atol(l.c_str() + 6); return -1; }
// runs one computation at a size and reports the high water mark before and after it
static int peak(int what, unsigned long N, unsigned steps, int model, int gen) {
    md()->setR(0.04); md()->addStock("P33", 100.0, 0.25, Opt(0.01)); Rng g(5); Recipe R; do R = Recipe::random(g, 5); while (R.model != model); R.gen = gen; R.steps = steps; R.seed = 11;
    std::function<void()> small, big;
    if (what < 10) { Terms t; t.k = ALL_KINDS[(size_t)what]; t.ticker = "P33"; t.B = 130; auto o = make(t); auto s = std::make_shared<MCSolver>(50UL); s->setPricer(pricer(o, t.k, R.make(t.ticker))); small = [s] { s->setN(50); if (!std::isfinite(s->solve())) exit(3); }; big = [s, N] { s->setN(N); if (!std::isfinite(s->solve())) exit(3); }; }
    else if (what < 13) { Terms t; t.ticker = "P33"; auto o = euro(t); Grid q; q.scheme = what - 10; q.J = steps; q.X = 300; auto go = [o, q](unsigned long n) { Grid h = q; h.N = n; auto f = fdm(h, o); if (f->solve().size() != h.J) exit(3); }; small = [go] { go(20); }; big = [go, N] { go(N); }; }
    else { auto G = R.generator(); auto d = std::make_shared<StandardNormalDistribution>(); auto go = [G, d](unsigned long n) { double s = 0; for (unsigned long i = 0; i < n; ++i) s += (*G)(*d); if (!std::isfinite(s)) exit(3); }; small = [go] { go(100); }; big = [go, N, steps] { go(N * steps); }; }
    small(); long a = peakKb(); big(); long b = peakKb(); printf("%ld %ld\n", a, b); return 0;
}
static void c33() {
    struct W { int what; unsigned long N; unsigned steps; double lim; int model = 0, gen = 0; };   // limit in bytes
    std::vector<W> all; for (int k = 0; k < 10; ++k) for (int m = 0; m < 6; ++m) {
        if (k == 3) continue; unsigned long N = 30000; unsigned st = singlePath(ALL_KINDS[(size_t)k]) ? 60 : 60; all.push_back({k, N, st, 0.5 * 8.0 * (double)N * st, m, 0}); if (m == 0) { all.push_back({k, N, st, 0.5 * 8.0 * (double)N * st, 0, 1}); all.push_back({k, N, st, 0.5 * 8.0 * (double)N * st, 0, 2}); } }
    for (int i = 0; i < 3; ++i) all.push_back({3, 20000UL, 250, 0.5 * 8 * 20000.0 * 250});
    for (int s = 10; s < 13; ++s) all.push_back({s, s == 10 ? 40000UL : 8000UL, s == 10 ? 100u : 250u, 0.5 * 8 * (s == 10 ? 40000.0 * 100 : 8000.0 * 250)});
    for (int gq = 0; gq < 3; ++gq) all.push_back({13, 40000UL, 50, 0.5 * 8 * 40000.0 * 50, 0, gq});
    run("peak", all.size(), [&](Case& c) {
        auto w = all[c.index % all.size()]; const char* exe = getenv("MON_EXE"); if (!exe) return; if (c.index >= all.size()) { double f = c.rng.u(0.7, 2.5); w.N = (unsigned long)((double)w.N * f); w.lim *= f; }
        std::string what = w.what < 10 ? std::string("pricing of a ") + kname(ALL_KINDS[(size_t)w.what]) + " under " + Recipe::mn(w.model) : w.what < 13 ? fmt("finite differences, scheme %d", w.what - 10) : std::string("draws of ") + Recipe::gn(w.gen);
        c.desc("%s, generator %s, N=%lu, %u steps or nodes", what.c_str(), Recipe::gn(w.gen), w.N, w.steps);
        FILE* p = popen(fmt("'%s' --peak %d %lu %u %d %d", exe, w.what, w.N, w.steps, w.model, w.gen).c_str(), "r"); if (!p) return; long a = -1, b = -1; int got = fscanf(p, "%ld %ld", &a, &b); int rc = pclose(p);
        if (!c.expect(got == 2 && rc == 0 && a > 0, "the measurement ended with status %d", rc)) return;
        double grow = 1024.0 * (double)(b - a); maxi("growth in MB: " + what, grow / 1e6); maxi("growth/limit", grow / w.lim); c.expect(grow <= w.lim, "%s grew by %.1f MB for %lu x %u values (%.1f MB), allowed %.1f MB", what.c_str(), grow / 1e6, w.N, w.steps, 8e-6 * (double)w.N * w.steps, w.lim / 1e6); count("processes measured");
    }, 3);
}

// ---------------------------------------------------------------- C34
static std::vector<std::pair<std::string, std::string>> fields(const std::string& s) {   // "label: value" lines with the heading they stand under
    std::vector<std::pair<std::string, std::string>> v; std::istringstream i(s); std::string l, head;
    while (std::getline(i, l)) { size_t a = l.find("-> "); if (a == std::string::npos) { size_t e = l.find(':'); head = l.substr(0, e); continue; } l = l.substr(a + 3); size_t e = l.find(": "); v.push_back({head + "/" + l.substr(0, e), e == std::string::npos ? "" : l.substr(e + 2)}); }
    return v;
}
static std::string lower(std::string s) { for (auto& ch : s) ch = (char)tolower(ch); return s; }
static void c34() {
    run("options", 1500, [](Case& c) {
        auto& g = c.rng; Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); static const std::vector<std::string> tks{"A", "MSFT", "BRK-B", "x y", "Price", "T34", "0"}; t.ticker = g.pick(tks); if (g.chance(0.2)) { t.ticker = "L"; for (int i = g.range(4, g.chance(0.2) ? 400 : 40); i > 0; --i) t.ticker += "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-^=_"[g.below(41)]; } double S = g.chance(0.1) ? g.logu(1e-9, 1e9) : g.u(1, 500), sig = g.chance(0.1) ? 0 : g.u(0, 1), r = randRate(g); Opt q = randCoupon(g); t.T = g.chance(0.1) ? 0 : randT(g); t.K = g.chance(0.1) ? 0 : g.u(1, 500); t.K2 = t.K + g.u(0, 50); t.B = g.u(1, 500); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        md()->setR(r); md()->addStock(t.ticker, S, sig, q); auto o = make(t); if (g.chance(0.7)) { std::ostringstream a; a << *o; c.expect(!a.str().empty(), "empty description"); } for (int i = 0, n = g.range(0, 3); i < n; ++i) switch (g.below(4)) { case 0: S = g.u(1, 500); md()->updateStockPrice(t.ticker, S); break; case 1: sig = g.u(0, 1); md()->updateStockSigma(t.ticker, sig); break; case 2: q = randCoupon(g); md()->updateStockCoupon(t.ticker, q); break; default: r = randRate(g); md()->setR(r); }
        std::string other = t.ticker + "2"; md()->addStock(other, S + 1, sig + 1, q ? std::nullopt : Opt(0.5));
        c.desc("%s S=%.17g sigma=%.17g c=%s r=%.17g", t.str().c_str(), S, sig, q ? mon::hx(*q).c_str() : "none", r);
        std::ostringstream os; os.precision(17); os << *o << "]"; std::string s = os.str(); c.expect(os.good() && os.precision() == 17, "the stream was changed"); std::ostringstream os2; os2.precision(17); os2 << *o << "]"; c.expect(os2.str() == s, "two descriptions of one option differ");
        auto f = fields(s); std::multimap<std::string, std::string> m; for (auto& [a, b] : f) m.insert({a, b});
        auto one = [&](const char* key, const std::string& sub) { std::vector<std::string> r2; for (auto& [a, b] : f) if (lower(a).find(lower(sub)) != std::string::npos && (!*key || lower(a).rfind(lower(key), 0) == 0)) r2.push_back(b); return r2; };
        auto num = [&](const char* head, const char* label, double want) { auto v = one(head, label); if (!c.expect(v.size() == 1, "%zu lines for %s in the description\n%s", v.size(), label, s.c_str())) return; double x = atof(v[0].c_str()); c.expect(x == want, "%s is described as %s, %.17g expected", label, v[0].c_str(), want); };
        num("option", "expiration", t.T); num("stock", "price", S); num("stock", "volatility", sig); num("marketdata", "interest rate", r);
        auto cp = one("stock", "coupon"); c.expect(cp.size() == (q ? 1u : 0u), "%zu coupon lines, coupon %s", cp.size(), q ? "set" : "not set"); if (q && cp.size() == 1) c.expect(atof(cp[0].c_str()) == *q, "coupon is described as %s, %.17g expected", cp[0].c_str(), *q);
        auto tk = one("stock", "ticker"); c.expect(tk.size() == 1 && tk[0] == t.ticker, "ticker is described as %s", tk.empty() ? "nothing" : tk[0].c_str());
        // the kind of option and of payoff
        std::string ty = o->getType(); auto tl = one("option", "type"); c.expect(tl.size() == 1 && tl[0] == ty, "type is described as %s, getType says %s", tl.empty() ? "nothing" : tl[0].c_str(), ty.c_str());
        static std::map<std::string, int> whose; auto [it, fresh] = whose.insert({ty, (int)t.k}); c.expect(it->second == (int)t.k, "getType %s stands for two kinds, %s and %s", ty.c_str(), kname(t.k), kname((Kind)it->second));
        static const std::vector<std::string> word{"european", "digital", "digital", "american", "arith", "geo", "knockin", "knockout", "float", "fix"}; std::string flat; for (char ch : lower(ty)) if (isalnum((unsigned char)ch)) flat += ch; c.expect(flat.find(word[(size_t)t.k]) != std::string::npos, "a %s option calls itself %s", kname(t.k), ty.c_str());
        auto pl = one("payoff", "type"); std::string pw = t.k == Kind::DoubleDigital ? "double" : t.call ? "call" : "put"; c.expect(pl.size() == 1 && lower(pl[0]).find(pw) != std::string::npos, "payoff type is described as %s for a %s", pl.empty() ? "nothing" : pl[0].c_str(), pw.c_str());
        std::string pt = lower(o->getPayoff().getType()); static const std::vector<std::string> pword{"vanilla", "digital", "double digital", "vanilla", "vanilla", "vanilla", "vanilla", "vanilla", "floating", "vanilla"}; c.expect(pt.find(pword[(size_t)t.k]) != std::string::npos && (t.k == Kind::DoubleDigital || (pt.find(t.call ? "call" : "put") != std::string::npos && pt.find(t.call ? "put" : "call") == std::string::npos)), "payoff of a %s %s calls itself %s", kname(t.k), t.call ? "call" : "put", pt.c_str());
        // strikes, in the order they are stated
        std::vector<double> want; if (t.k == Kind::DoubleDigital) want = {t.K, t.K2}; else if (t.k != Kind::FloatLB) want = {t.K}; std::vector<double> seen; for (auto& [a, b] : f) if (lower(a).rfind("payoff/", 0) == 0 && lower(a) != "payoff/type") seen.push_back(atof(b.c_str())); c.expect(seen == want, "%zu strikes described, first %.17g; %zu expected, first %.17g", seen.size(), seen.empty() ? QNAN : seen[0], want.size(), want.empty() ? QNAN : want[0]);
        if (want.size() == 2) { num("payoff", "lower", t.K); num("payoff", "upper", t.K2); }
        // a precision set by the user is used, and survives
        std::ostringstream o3; o3.precision(5); o3 << std::scientific << *o; c.expect(o3.precision() == 5 && (o3.flags() & std::ios::scientific), "the stream's settings were changed"); double x3 = 0; for (auto& [a, b] : fields(o3.str())) if (lower(a) == "stock/price") x3 = atof(b.c_str()); c.close(x3, S, 1e-5, S, "price under another precision"); count(std::string("described ") + kname(t.k));
        std::ostringstream sd; sd.precision(17); sd << *md()->getStockData(t.ticker); c.expect(s.find(sd.str()) != std::string::npos, "the option's description does not hold the stock's"); std::ostringstream po; po.precision(17); po << o->getPayoff(); c.expect(s.find(po.str()) != std::string::npos, "the option's description does not hold the payoff's");
    });
}

// ---------------------------------------------------------------- C35
static thread_local long g_arm = -1; static thread_local bool g_hit = false;   // the number of allocations still to succeed
static void* take(size_t n) { if (g_arm >= 0 && g_arm-- == 0) { g_hit = true; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
struct Injected { int id; };                                                   // a failure no handler of the standard exceptions sees
struct InjectedStd final : std::runtime_error { int id; explicit InjectedStd(int i) : std::runtime_error("injected"), id(i) {} };
struct Trip {   // one failure at the k-th use
    long left = -1; bool fired = false, standard = false; int id = 0; long uses = 0;
    void use() { ++uses; if (left >= 0 && left-- == 0) { fired = true; if (standard) throw InjectedStd(id); throw Injected{id}; } }
    void off() { left = -1; }
};
struct TripGen final : NumberGenerator { GenP in; Trip& t; TripGen(GenP g, unsigned d, Trip& x) : NumberGenerator(d, 1u), in(std::move(g)), t(x) {} double operator()(Distribution& d) const override { t.use(); return (*in)(d); } };
struct TripBasis final : BasisFunction { std::shared_ptr<BasisFunction> in; Trip& t; TripBasis(std::shared_ptr<BasisFunction> b, Trip& x) : BasisFunction(3), in(std::move(b)), t(x) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { t.use(); return in->generate(v); } };
struct TripRegr final : Regression { std::shared_ptr<Regression> in; Trip& t; TripRegr(std::shared_ptr<Regression> b, Trip& x) : in(std::move(b)), t(x) {} Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { t.use(); return in->solve(A, y); } };
struct TripMat final : MatrixSolver { std::shared_ptr<MatrixSolver> in; Trip& t; TripMat(std::shared_ptr<MatrixSolver> b, Trip& x) : in(std::move(b)), t(x) {} Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& y) const override { t.use(); return in->solve(A, y); } };
struct TripInter final : Interpolation { std::shared_ptr<Interpolation> in; Trip& t; TripInter(std::shared_ptr<Interpolation> b, Trip& x) : in(std::move(b)), t(x) {} double interpolate(const std::vector<double>& a, const std::vector<double>& b, const double& x) const override { t.use(); return in->interpolate(a, b, x); } };
struct TripCir final : CIRDiscretization { std::shared_ptr<CIRDiscretization> in; Trip& t; TripCir(std::shared_ptr<CIRDiscretization> b, Trip& x) : in(std::move(b)), t(x) {} void update(double& V, const double& a, const double& b, const double& d, const double& e, const double& z) const override { t.use(); in->update(V, a, b, d, e, z); } };
struct TripPde final : ConvectionDiffusionPDE {   // Black-Scholes, or with everything changing in time
    BlackScholesPDE in; Trip& t; double w; TripPde(std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> m, Trip& x, double vary = 0) : in(std::move(o), std::move(m)), t(x), w(vary) {}
    double k(double a, double ph) const { return w == 0 ? 1.0 : 1.0 + w * std::sin(4 * a + ph); }
    double diffusion(const double& a, const double& x) const override { t.use(); return in.diffusion(a, x) * k(a, 0); } double convection(const double& a, const double& x) const override { t.use(); return in.convection(a, x) * k(a, 1); } double reaction(const double& a, const double& x) const override { t.use(); return in.reaction(a, x) * k(a, 2); }
    double rightHandSide(const double& a, const double& x) const override { t.use(); return in.rightHandSide(a, x) + (w == 0 ? 0.0 : std::cos(3 * a + 0.01 * x)); } double boundaryLeft(const double& a, const double& x) const override { t.use(); return in.boundaryLeft(a, x) * k(a, 3); } double boundaryRight(const double& a, const double& x) const override { t.use(); return in.boundaryRight(a, x) * k(a, 4); } double initialCondition(const double& x) const override { t.use(); return in.initialCondition(x); }
};
struct TripMd final : IMarketData {
    std::shared_ptr<IMarketData> in; Trip& t; TripMd(std::shared_ptr<IMarketData> m, Trip& x) : in(std::move(m)), t(x) {}
    void addObserver(const std::shared_ptr<MarketDataObserver>& o) override { in->addObserver(o); } void removeObserver() override { in->removeObserver(); }
    std::shared_ptr<const StockData> getStockData(const std::string& k) const override { t.use(); return in->getStockData(k); } double getR() const override { t.use(); return in->getR(); } void setR(const double& x) override { in->setR(x); }
};
// Does op under the failure; returns the exception's kind ("" when it went through) and the values it gave.
template <class Fn> static std::string attempt(Fn&& fn, std::vector<double>& out) {
    out.clear();
    try { fn(out); return ""; } catch (const Injected& e) { return fmt("injected %d", e.id); } catch (const InjectedStd& e) { return fmt("injected %d", e.id); } catch (const std::bad_alloc&) { return "bad_alloc"; } catch (const std::exception& e) { return std::string("exception ") + e.what(); } catch (...) { return "unknown exception"; }
}
static bool sameBits(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (bits(a[i]) != bits(b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
static std::string first(const std::vector<double>& a, const std::vector<double>& b) { size_t k = 0; while (k < a.size() && k < b.size() && bits(a[k]) == bits(b[k])) ++k; return fmt("value %zu is %.17g, %.17g without the failure", k, k < a.size() ? a[k] : QNAN, k < b.size() ? b[k] : QNAN); }
static void leaks(Case& c) {
#if defined(__SANITIZE_ADDRESS__)
    if (c.index % 60 == 59) c.expect(__lsan_do_recoverable_leak_check() == 0, "memory was leaked after one of the last 60 failures");
#else
    (void)c;
#endif
}
static void c35() {
    // one part of a pricing run fails once, in the middle
    run("pricing", 700, [](Case& c) {
        auto& g = c.rng; std::string tk = "E35"; md()->setR(g.u(-0.02, 0.1)); md()->addStock(tk, g.u(80, 120), g.u(0.1, 0.5), randCoupon(g)); Recipe R = Recipe::random(g, 8); Trip tg, tb, tr, tc, tm; tg.id = 1; tb.id = 2; tr.id = 3; tc.id = 4; tm.id = 5;
        Terms t; t.k = g.chance(0.4) ? Kind::American : g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.2, 2); t.K = g.u(80, 120); t.K2 = t.K + 20; t.B = g.u(80, 130); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; unsigned long N = (unsigned long)g.range(1, 25);
        auto o = make(t); auto cir = std::make_shared<TripCir>(R.milstein ? std::make_shared<CIRMilsteinDiscretization>() : std::make_shared<CIRExplicitEulerDiscretization>(), tc); auto ba = std::make_shared<TripBasis>(std::make_shared<MonomialBasisFunction>(3), tb); auto rg = std::make_shared<TripRegr>(std::make_shared<LeastSquaresRegression>(), tr); auto mk = std::make_shared<TripMd>(md(), tm);
        auto inner = std::make_shared<GenP>(); 
        struct Re final : NumberGenerator { std::shared_ptr<GenP> in; Re(std::shared_ptr<GenP> i, unsigned d) : NumberGenerator(d, 1u), in(std::move(i)) {} double operator()(Distribution& d) const override { return (**in)(d); } };   // draws can be restarted from outside
        bool real = R.model == 0 && R.gen == 0 && g.chance(0.5);   // lets the American variant with the bridge be chosen
        ModP m; MCSolver s(N); std::vector<double> clean, got, again;
        auto reset = [&] { *inner = R.generator(); if (real) { m = R.make(tk, R.generator(), cir, mk); s.setPricer(pricer(o, t.k, m, mk, t.k == Kind::American ? ba : nullptr, t.k == Kind::American ? rg : nullptr)); } };
        if (!real) { *inner = R.generator(); m = R.make(tk, std::make_shared<TripGen>(std::make_shared<Re>(inner, R.steps), R.steps, tg), cir, mk); s.setPricer(pricer(o, t.k, m, mk, t.k == Kind::American ? ba : nullptr, t.k == Kind::American ? rg : nullptr)); }
        auto go = [&](std::vector<double>& v) { v.push_back(s.solve()); }; std::vector<double> other, other2; Recipe R2 = R; auto second = [&](std::vector<double>& v) { v.push_back(once(t, R2, 5)); }; attempt(second, other);
        reset(); for (Trip* x : {&tg, &tb, &tr, &tc, &tm}) x->uses = 0; std::string e0 = attempt(go, clean); std::vector<Trip*> can; for (Trip* x : {&tg, &tb, &tr, &tc, &tm}) if (x->uses) can.push_back(x); if (!c.expect(e0.empty(), "pricing failed: %s", e0.c_str())) return; if (can.empty()) { c.trivial = true; return; }
        int rounds = g.range(1, 3); std::string d;
        for (int k = 0; k < rounds; ++k) {
            Trip* x = g.pick(can); long at = (long)g.below((uint64_t)std::max(1L, x->uses)); static const char* who[] = {"", "generator", "basis", "regression", "variance scheme", "market data"};
            reset(); x->fired = false; x->left = at; x->standard = g.chance(0.6); long uses = x->uses; std::string e = attempt(go, got); x->off(); d += fmt("%s fails at use %ld of %ld; ", who[x->id], at, uses); c.desc("%s %s N=%lu %s", k ? "" : t.str().c_str(), k ? "" : R.str().c_str(), N, d.c_str()); count(std::string("failures injected: ") + who[x->id]);
            if (!x->fired) { count("failure point not reached"); x->uses = uses; continue; }
            if (!e.empty()) c.expect(e == fmt("injected %d", x->id), "the failure of the %s came out as %s", who[x->id], e.c_str()); else c.expect(sameBits(got, clean), "the failure of the %s was swallowed: %s", who[x->id], first(got, clean).c_str());
            reset(); std::string e2 = attempt(go, again); x->uses = uses; c.expect(e2.empty() && sameBits(again, clean), "repeating the pricing after a failure of the %s: %s %s", who[x->id], e2.c_str(), first(again, clean).c_str()); attempt(second, other2); c.expect(sameBits(other, other2), "another pricing after the failure: %s", first(other2, other).c_str());
        }
        leaks(c);
    }, 10);
    run("differences", 500, [](Case& c) {
        auto& g = c.rng; std::string tk = "F35"; md()->setR(g.u(0, 0.1)); md()->addStock(tk, g.u(80, 120), g.u(0.1, 0.4), randCoupon(g)); Terms t; t.ticker = tk; t.call = g.chance(0.5); t.K = g.u(80, 120); t.T = g.u(0.3, 2); auto o = euro(t); Grid q; q.scheme = (int)g.below(3); q.J = (unsigned long)g.range(5, 14); q.N = q.scheme == 0 ? 60 : (unsigned long)g.range(2, 25);
        Trip tp, tm, ti, tk2; tp.id = 1; tm.id = 2; ti.id = 3; tk2.id = 4; std::shared_ptr<MatrixSolver> in = g.chance(0.5) ? ms(1 + (int)g.below(3)) : std::make_shared<LUDecompositionSolver>(); auto M = std::make_shared<TripMat>(in, tm); auto I = std::make_shared<TripInter>(g.chance(0.5) ? ip(1) : ip(2), ti); auto mk = std::make_shared<TripMd>(md(), tk2);
        double vary = g.chance(0.6) ? g.u(0.05, 0.3) : 0; auto build = [&] { return fdm(q, o, mk, I, M, std::make_unique<TripPde>(o, mk, tp, vary)); }; std::unique_ptr<FDMSolver> f; bool whole = g.chance(0.5), both = g.chance(0.5);
        auto go = [&](std::vector<double>& v) { if (whole) v = f->solve(); if (!whole || both) v.push_back(f->calculatePrice()); };
        std::vector<double> clean, got, again; { f = build(); for (Trip* x : {&tp, &tm, &ti, &tk2}) x->uses = 0; go(clean); } std::vector<Trip*> can; for (Trip* x : {&tp, &tm, &ti, &tk2}) if (x->uses) can.push_back(x);
        f = build(); std::string d; static const char* who[] = {"", "equation", "matrix solver", "interpolation", "market data"};
        // several failures in a row on one solver
        for (int k = 0, rounds = g.range(1, 3); k < rounds; ++k) {
            Trip* x = g.pick(can); long at = (long)g.below((uint64_t)x->uses), uses = x->uses; x->fired = false; x->left = at; x->standard = g.chance(0.6); std::string e = attempt(go, got); x->off(); x->uses = uses; d += fmt("%s fails at use %ld of %ld; ", who[x->id], at, uses); if (!x->fired) break; count(std::string("failures injected: ") + who[x->id]);
            if (!e.empty()) c.expect(e == fmt("injected %d", x->id), "the failure of the %s came out as %s", who[x->id], e.c_str()); else c.expect(sameBits(got, clean), "the failure of the %s was swallowed: %s", who[x->id], first(got, clean).c_str());
        }
        std::string e2 = attempt(go, again); c.desc("scheme %d J=%lu N=%lu vary=%.3g %s %s", q.scheme, q.J, q.N, vary, whole ? "grid" : "price", d.c_str()); c.expect(e2.empty() && sameBits(again, clean), "solving again after the failure: %s %s", e2.c_str(), first(again, clean).c_str()); std::vector<double> third; attempt(go, third); c.expect(sameBits(third, clean), "solving a third time: %s", first(third, clean).c_str());
        leaks(c);
    }, 10);
    // memory runs out once, at a random allocation of one operation
    run("memory", 900, [](Case& c) {
        auto& g = c.rng; std::string tk = "M35"; double S0 = g.u(80, 120), v0 = g.u(0.1, 0.5); md()->setR(0.03); md()->addStock(tk, S0, v0); Recipe R = Recipe::random(g, 6); Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.2, 2); t.K = g.u(80, 120); t.K2 = t.K + 20; t.B = 125;
        Grid q; q.scheme = (int)g.below(3); q.J = 9; q.N = 30; q.mat = (int)g.below(4); q.inter = (int)g.below(3); auto shared = make(t); Terms te = t; te.k = Kind::European; auto eo = euro(te); auto P = params(t); std::unique_ptr<FDMSolver> f; auto bas = std::make_shared<LaguerreBasisFunction>(3); auto reg = std::make_shared<RidgeRegression>(0.1); std::shared_ptr<MatrixSolver> M = ms(1 + (int)g.below(3)); Eigen::VectorXd x(7), y(7); for (int i = 0; i < 7; ++i) { x(i) = g.u(0.5, 2); y(i) = g.normal(); }
        Eigen::SparseMatrix<double> A(5, 5); { std::vector<Eigen::Triplet<double>> tr; for (int i = 0; i < 5; ++i) { tr.push_back({i, i, 4.0}); if (i) tr.push_back({i, i - 1, g.u(-1, 1)}); if (i < 4) tr.push_back({i, i + 1, g.u(-1, 1)}); } A.setFromTriplets(tr.begin(), tr.end()); } Eigen::VectorXd b5 = y.head(5); std::shared_ptr<Option> made;
        int op = (int)g.below(10); static const char* nm[] = {"create option", "build and price", "build", "grid construction", "grid solution", "basis and regression", "matrix solution", "add stock", "clone payoff", "replace stock"}; std::string fresh = fmt("new%d", (int)c.index);
        std::function<void(std::vector<double>&)> go = [&](std::vector<double>& v) {
            switch (op) {
                case 0: { auto o = makeFrom(t.k, t.call, P); v.push_back(o->getT()); break; }
                case 1: v.push_back(once(t, R, 6)); break;
                case 2: { auto p = pricer(shared, t.k, R.make(tk)); v.push_back(p->calculatePrice(4)); break; }
                case 3: { auto h = fdm(q, eo); v.push_back(h->calculatePrice()); break; }
                case 4: if (!f) f = fdm(q, eo); v = f->solve(); v.push_back(f->calculatePrice()); break;
                case 5: { auto B = bas->generate(x); auto k = reg->solve(B, y); for (int i = 0; i < k.size(); ++i) v.push_back(k(i)); break; }
                case 6: { auto k = M->solve(A, b5); for (int i = 0; i < k.size(); ++i) v.push_back(k(i)); break; }
                case 7: md()->addStock(fresh, 70.0, 0.2); v.push_back(md()->getStockData(fresh)->getPrice()); break;
                case 8: { auto k = shared->getPayoff().clone(); v.push_back(*k == shared->getPayoff()); break; }
                default: md()->addStock(tk, S0, v0, Opt()); v.push_back(md()->getStockData(tk)->getPrice());
            }
        };
        std::vector<double> clean, got, again; if (op == 7) clean = {70.0}; else { attempt(go, clean); f.reset(); if (op == 4) f = fdm(q, eo); }
        g_arm = 1L << 40; long a0 = g_arm; if (op != 7) { std::vector<double> tmp; attempt(go, tmp); } long used = op == 7 ? 4 : a0 - g_arm; g_arm = -1; if (op == 4) f = fdm(q, eo); if (used < 1) { c.trivial = true; c.desc("%s allocates nothing", nm[op]); return; }
        long at = (long)g.below((uint64_t)used); std::string e; g_hit = false; std::vector<double> room; room.reserve(64); { std::vector<double>& v = room; g_arm = at; e = attempt(go, v); g_arm = -1; } got = room; c.desc("%s of %s %s, allocation %ld of %ld fails", nm[op], t.str().c_str(), R.str().c_str(), at, used); count(std::string("allocation failures: ") + nm[op]);
        if (!g_hit) { count("allocation not reached"); return; }
        if (e.empty()) c.expect(sameBits(got, clean), "%s went on after an allocation failed: %s", nm[op], first(got, clean).c_str()); else c.expect(e == "bad_alloc", "%s: a failed allocation came out as %s", nm[op], e.c_str());
        auto sd = md()->getStockData(tk); c.expect(sd->getPrice() == S0 && sd->getSigma() == v0 && !sd->getCoupon() && md()->getR() == 0.03, "%s: the market data changed", nm[op]); if (op == 7 && !e.empty()) c.throws<std::invalid_argument>([&] { md()->getStockData(fresh); }, "a stock that could not be added is there");
        std::string e2 = attempt(go, again); c.expect(e2.empty() && sameBits(again, clean), "%s again after the failure: %s %s", nm[op], e2.c_str(), first(again, clean).c_str()); auto w = once(te, R, 3); c.expect(std::isfinite(w), "a later pricing gives %.17g", w); md()->setR(0.03); f.reset(); leaks(c);
    }, 10);
    // an observer that fails
    run("observers", 300, [](Case& c) {
        struct Ob final : MarketDataObserver { Trip& t; long seen = 0; Ob(const std::string& id, Trip& x) : MarketDataObserver(id), t(x) {} void update() override { ++seen; t.use(); } };
        auto& g = c.rng; md()->removeObserver(); std::string tk = fmt("O%d", (int)g.below(3)); md()->addStock(tk, 100.0, 0.2); Trip good, bad; bad.id = 9; std::vector<std::shared_ptr<Ob>> obs; int n = g.range(1, 6), w = (int)g.below((uint64_t)n); for (int i = 0; i < n; ++i) { obs.push_back(std::make_shared<Ob>(tk, i == w ? bad : good)); md()->addObserver(obs.back()); }
        int what = (int)g.below(4); double v = g.u(0.1, 0.9); c.desc("%d observers, number %d fails on change %d", n, w, what); bad.left = 0; bad.standard = g.chance(0.5); std::vector<double> none; std::string e = attempt([&](std::vector<double>&) { switch (what) { case 0: md()->updateStockPrice(tk, v); break; case 1: md()->updateStockSigma(tk, v); break; case 2: md()->updateStockCoupon(tk, v); break; default: md()->setR(v); } }, none); bad.off();
        c.expect(e == "injected 9", "the observer's failure came out as '%s'", e.c_str()); auto d = md()->getStockData(tk); double now = what == 0 ? d->getPrice() : what == 1 ? d->getSigma() : what == 2 ? d->getCoupon().value_or(-1) : md()->getR(); c.expect(now == v, "the value set is read back as %.17g, %.17g set", now, v);
        for (auto& o : obs) { c.expect(o->seen <= 1, "an observer was told %ld times of one change", o->seen); o->seen = 0; } md()->updateStockPrice(tk, 90.0); for (auto& o : obs) c.expect(o->seen == 1, "an observer was told %ld times of the next change", o->seen); std::string t2 = "O9"; if (n > 1) { obs.erase(obs.begin() + w); md()->removeObserver(); for (auto& o : obs) o->seen = 0; md()->setR(0.03); for (auto& o : obs) c.expect(o->seen == 1, "an observer was told %ld times after the failing one had gone", o->seen); } count("failing observers"); obs.clear(); md()->removeObserver(); leaks(c);
    }, 10);
}
int main(int argc, char** argv) {
    if (argc >= 7 && !strcmp(argv[1], "--peak")) return peak(atoi(argv[2]), strtoul(argv[3], nullptr, 10), (unsigned)atoi(argv[4]), atoi(argv[5]), atoi(argv[6]));
    return mon::main_(argc, argv, {{"C31", c31}, {"C32", c32}, {"C33", c33}, {"C34", c34}, {"C35", c35}});
}
