// C07: random legal programs over the whole interface. The sanitizers (or memcheck) are the oracle;
// every value obtained is inspected, so that uninitialised memory reaches a branch.
#include "pricing.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/monte_carlo/mc_american.h"
#include "random/distribution/normal_distrib.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ASAN 1
#else
#define HAVE_ASAN 0
#endif
using namespace OptionPricer::PDE::OneFactor;
using namespace OptionPricer::FDM::OneFactor;

static volatile uint64_t g_sink;
static void look(double x) { if (std::isnan(x)) g_sink += 3; else if (x > 0) g_sink += 1; else g_sink += 2; }
static void look(const std::vector<double>& v) { for (double x : v) look(x); }
static void look(const Eigen::MatrixXd& v) { for (Eigen::Index i = 0; i < v.size(); ++i) look(v.data()[i]); }
static void look(const std::string& s) { for (char c : s) g_sink += (c > 'm'); }
template <class T> static void show(const T& x) { std::ostringstream o; o << x; look(o.str()); }

// destroyed after the market data singleton
static std::vector<std::shared_ptr<void>>& late() { static std::vector<std::shared_ptr<void>> v; return v; }

struct Obs final : MarketDataObserver { int n = 0; std::unique_ptr<int> heap = std::make_unique<int>(0); using MarketDataObserver::MarketDataObserver; void update() override { n += ++*heap; } };
struct Gen { std::shared_ptr<NumberGenerator> g; int kind; };
struct World {
    std::vector<std::string> tick; std::vector<std::pair<Terms, std::shared_ptr<Option>>> opts; std::vector<Gen> gens; std::vector<std::shared_ptr<StockModel>> models; std::vector<std::pair<Kind, std::shared_ptr<MCBuilder>>> builders;
    std::vector<std::unique_ptr<MCPricer>> pricers; std::vector<std::unique_ptr<MCSolver>> solvers; std::vector<std::unique_ptr<FDMSolver>> fdm; std::vector<std::shared_ptr<Distribution>> dist; std::vector<std::unique_ptr<Payoff>> pay; std::vector<std::shared_ptr<MarketDataObserver>> obs; std::vector<std::shared_ptr<const StockData>> data;
    std::vector<std::shared_ptr<BasisFunction>> basis; std::vector<std::shared_ptr<Regression>> regr; std::vector<std::shared_ptr<MatrixSolver>> mat; std::vector<std::shared_ptr<Interpolation>> inter; std::vector<std::shared_ptr<CIRDiscretization>> cir;
};
template <class V> static void drop(Rng& g, V& v) { if (v.empty()) return; size_t i = g.below(v.size()); if (g.chance(0.5)) v.erase(v.begin() + i); else { std::swap(v[i], v.back()); v.pop_back(); } }
static const char* OPS[] = {"add-stock", "update-stock", "rate", "option", "bad-option", "generator", "model", "builder", "set-option", "set-model", "set-strategies", "build", "price", "solver", "fdm", "fdm-price", "distribution", "draw", "payoff", "observer", "purge", "compare", "numerics", "strategy", "destroy", "simulate", "dup-stock", "bridge"};
static const int NOPS = sizeof OPS / sizeof *OPS;

static void step(Rng& g, World& w, int op) {
    auto anyTick = [&]() -> std::string { return w.tick.empty() || g.chance(0.05) ? std::string("absent") : g.pick(w.tick); };
    switch (op) {
        case 0: case 26: { std::string t = op == 26 ? anyTick() : fmt("M%d", (int)g.below(6)); if (g.chance(0.1)) { md()->addStock(t + "bad", g.pickd({-1.0, 0.0, 100.0}), -0.1, 2.0); break; } if (g.chance(0.3)) md()->addStock(t, g.u(50, 150), g.u(0, 0.5)); else md()->addStock(t, g.u(50, 150), g.chance(0.2) ? 0.0 : g.u(0, 0.5), randCoupon(g)); if (std::find(w.tick.begin(), w.tick.end(), t) == w.tick.end()) w.tick.push_back(t); break; }
        case 1: { auto t = anyTick(); switch (g.below(4)) { case 0: md()->updateStockPrice(t, g.chance(0.1) ? -1 : g.u(50, 150)); break; case 1: md()->updateStockSigma(t, g.chance(0.1) ? -1 : g.u(0, 0.6)); break; case 2: md()->updateStockCoupon(t, g.chance(0.2) ? Opt() : g.chance(0.1) ? Opt(3.0) : Opt(g.u(0, 0.1))); break; default: { auto d = md()->getStockData(t); look(d->getPrice()); look(d->getSigma()); look(d->getCoupon().value_or(0)); show(*d); if (w.data.size() < 6) w.data.push_back(d); } } break; }
        case 2: md()->setR(g.u(-0.02, 0.1)); look(md()->getR()); break;
        case 3: { Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = anyTick(); t.T = g.chance(0.1) ? 0 : g.u(0.01, 3); if (t.k == Kind::American && t.T == 0) t.T = 1; t.K = g.chance(0.1) ? 0 : g.u(60, 140); t.K2 = t.K + 20; t.B = g.u(60, 140); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; auto o = make(t); show(*o); look(o->getType()); look(o->getT()); look(o->getID()); w.opts.push_back({t, std::move(o)}); if (g.chance(0.05) && late().size() < 200) late().push_back(w.opts.back().second); break; }
        case 4: { Terms t; t.k = g.pick(ALL_KINDS); t.ticker = anyTick(); auto p = params(t); switch (g.below(6)) { case 0: p = ParameterObject(); break; case 1: p.setParameter("K", std::string("x")); p.setParameter("K1", 7); break; case 2: p.setParameter("T", -1.0); break; case 3: p.setParameter("ticker", 5.0); break; case 4: p.setParameter("K", -5.0); p.setParameter("K1", -5.0); p.setParameter("B", -5.0); break; default: p.setParameter("T", QNAN); } auto o = makeFrom(t.k, g.chance(0.5), p); if (o) look(o->getT()); break; }
        case 5: { int k = (int)g.below(3); unsigned d = g.chance(0.5) ? (unsigned)g.range(1, 4) : g.chance(0.9) ? (unsigned)g.range(1, 30) : (unsigned)g.range(31, 300); if (g.chance(0.05)) d = 0; unsigned s = g.chance(0.2) ? 0 : (unsigned)g.below(1u << 20); std::shared_ptr<NumberGenerator> G; bool seeded = g.chance(0.7);
            if (k == 0) G = seeded ? std::make_shared<PseudoRandomNumberGenerator>(d, s) : std::make_shared<PseudoRandomNumberGenerator>(d); else if (k == 1) G = seeded ? std::make_shared<SobolGenerator>(d, s) : std::make_shared<SobolGenerator>(d); else G = seeded ? std::make_shared<FaureGenerator>(d, s) : std::make_shared<FaureGenerator>(d);
            look(G->getDim()); w.gens.push_back({G, k}); break; }
        case 6: { if (w.gens.empty()) break; auto t = anyTick(); int k = (int)g.below(6); auto G = g.pick(w.gens); std::shared_ptr<CIRDiscretization> V = w.cir.empty() || g.chance(0.4) ? nullptr : g.pick(w.cir); std::shared_ptr<StockModel> m;
            switch (k) { case 0: m = std::make_shared<GeometricBrownianMotionModel>(t, md(), G.g); break; case 1: m = std::make_shared<HestonModel>(t, md(), G.g, 1.5, 0.05, g.u(0.05, 0.8), g.u(-0.9, 0.9), g.u(0, 0.1), V); break; case 2: m = std::make_shared<MertonJumpDiffusionModel>(t, md(), G.g, g.u(0.1, 3), -0.1, 0.2); break; case 3: m = std::make_shared<KouModel>(t, md(), G.g, g.u(0.1, 3), 0.4, 12.0, 9.0); break; case 4: m = std::make_shared<VarianceGammaModel>(t, md(), G.g, g.u(0.05, 0.5), -0.1); break; default: m = std::make_shared<BatesModel>(t, md(), G.g, 1.5, 0.05, 0.3, -0.5, 0.04, 0.7, -0.1, 0.15, V); }
            w.models.push_back(m); look(m->getSteps()); break; }
        case 7: { Kind k = g.chance(0.5) && !w.opts.empty() ? g.pick(w.opts).first.k : g.pick(ALL_KINDS); w.builders.push_back({k, builderFor(k)}); break; }
        case 8: { if (w.builders.empty() || w.opts.empty()) break; auto& b = g.pick(w.builders); std::shared_ptr<Option> o; if (g.chance(0.8)) { for (auto& x : w.opts) if (accepts(b.first, x.first.k) && (!o || g.chance(0.5))) o = x.second; } else if (g.chance(0.8)) o = g.pick(w.opts).second; b.second->setOption(o); break; }
        case 9: { if (w.builders.empty()) break; auto& b = g.pick(w.builders); if (g.chance(0.3)) b.second->setMarketData(md()); else b.second->setStockPriceModel(w.models.empty() || g.chance(0.1) ? nullptr : g.pick(w.models)); break; }
        case 10: { for (auto& b : w.builders) if (auto* a = dynamic_cast<AmericanMCBuilder*>(b.second.get())) { if (!w.basis.empty()) a->setBasisFunctionStrategy(g.pick(w.basis)); if (!w.regr.empty()) a->setRegressionStrategy(g.pick(w.regr)); } break; }
        case 11: { if (w.builders.empty()) break; auto p = g.pick(w.builders).second->build(); if (p) w.pricers.push_back(std::move(p)); break; }
        case 12: { if (w.pricers.empty()) break; auto& p = w.pricers[g.below(w.pricers.size())]; look(p->calculatePrice((unsigned long)g.picki({1, 1, 2, 3, 9}))); break; }
        case 13: { if (w.solvers.empty() || g.chance(0.3)) w.solvers.push_back(std::make_unique<MCSolver>((unsigned long)g.range(1, 6))); auto& s = w.solvers[g.below(w.solvers.size())]; if (!w.pricers.empty() && g.chance(0.6)) { s->setPricer(std::move(w.pricers.back())); w.pricers.pop_back(); } s->setN((unsigned long)g.range(1, 4)); if (g.chance(0.05)) s->setPricer(nullptr); if (g.chance(0.05)) { MCSolver moved = std::move(*s); look(moved.solve()); break; } look(s->solve()); break; }
        case 14: { std::shared_ptr<EuropeanOption> o; for (auto& x : w.opts) if (auto e = std::dynamic_pointer_cast<EuropeanOption>(x.second)) if (e->getT() > 0 && (!o || g.chance(0.5))) o = e; if (!o) break; unsigned long J = g.chance(0.5) ? g.range(3, 6) : g.range(4, 30), N = g.chance(0.5) ? g.range(2, 4) : g.range(2, 40); std::shared_ptr<Interpolation> I = w.inter.empty() ? nullptr : g.pick(w.inter); std::shared_ptr<MatrixSolver> M = w.mat.empty() ? nullptr : g.pick(w.mat); if (J == 3 && std::dynamic_pointer_cast<ThomasAlgorithm>(M)) M = nullptr; auto pde = std::make_unique<BlackScholesPDE>(o, md()); std::unique_ptr<FDMSolver> f; double X = g.u(200, 400);
            switch (g.below(5)) { case 0: f = std::make_unique<EulerExplicitFDM>(X, J, o->getT(), N, std::move(pde), o, md()); break; case 1: f = std::make_unique<EulerExplicitFDM>(X, J, o->getT(), N, std::move(pde), o, md(), I); break; case 2: f = std::make_unique<EulerImplicitFDM>(X, J, o->getT(), N, std::move(pde), o, md(), I, M); break; case 3: f = std::make_unique<CrankNicolsonFDMSolver>(X, J, o->getT(), N, std::move(pde), o, md(), I, M); break; default: f = std::make_unique<CrankNicolsonFDMSolver>(X, J, o->getT(), N, std::move(pde), o, md()); }
            w.fdm.push_back(std::move(f)); break; }
        case 15: { if (w.fdm.empty()) break; auto& f = w.fdm[g.below(w.fdm.size())]; if (g.chance(0.5)) look(f->solve()); look(f->calculatePrice()); break; }
        case 16: { std::shared_ptr<Distribution> d; double a = g.chance(0.15) ? -1.0 : g.chance(0.1) ? 0.0 : g.u(0.05, 5); switch (g.below(6)) { case 0: d = std::make_shared<StandardNormalDistribution>(); break; case 1: d = std::make_shared<NormalDistribution>(g.u(-1, 1), a); break; case 2: d = std::make_shared<ContinuousUniformDistribution>(0.0, a); break; case 3: d = std::make_shared<ExponentialDistribution>(a); break; case 4: d = std::make_shared<GammaDistribution>(a, 1.0); break; default: d = std::make_shared<PoissonDistribution>(a); } w.dist.push_back(d); break; }
        case 17: { if (w.dist.empty()) break; auto d = g.pick(w.dist); if (w.gens.empty() || g.chance(0.3)) { std::mt19937 m(5); look((*d)(m)); look(d->inv_cdf(g.u())); break; } auto G = g.pick(w.gens); int n = g.range(1, 40); for (int i = 0; i < n; ++i) look((*G.g)(*d)); break; }
        case 18: { auto ty = g.chance(0.5) ? PayoffType::Call : PayoffType::Put; switch (g.below(5)) { case 0: w.pay.push_back(std::make_unique<PayoffVanilla>(ty, g.u(0, 200))); break; case 1: w.pay.push_back(std::make_unique<PayoffDigital>(ty, g.u(0, 200))); break; case 2: w.pay.push_back(std::make_unique<PayoffDoubleDigital>(g.u(0, 100), g.u(50, 200))); break; case 3: w.pay.push_back(std::make_unique<PayoffLookbackFloatingStrike>(ty)); break; default: if (!w.pay.empty()) { auto c = w.pay[g.below(w.pay.size())]->clone(); w.pay.push_back(std::move(c)); } else if (!w.opts.empty()) w.pay.push_back(g.pick(w.opts).second->getPayoff().clone()); }
            if (w.pay.empty()) break; auto& p = *w.pay[g.below(w.pay.size())]; show(p); look(p.getType()); if (g.chance(0.5)) look(p(g.u(1, 200))); else look(p(g.u(1, 200), g.u(1, 200))); break; }
        case 19: { auto o = std::make_shared<Obs>(g.chance(0.5) ? anyTick() : fmt("ob%d", (int)g.below(5))); md()->addObserver(o); if (g.chance(0.7)) w.obs.push_back(o); if (g.chance(0.5)) md()->notifyObservers(); if (g.chance(0.5)) md()->notifyObserver(g.chance(0.5) ? o->getID() : "nobody"); break; }
        case 20: md()->removeObserver(); break;
        case 21: { if (w.opts.size() > 1) { auto& a = g.pick(w.opts).second; auto& b = g.pick(w.opts).second; g_sink += *a == *b; g_sink += *a != *b; } if (w.pay.size() > 1) { auto& a = *w.pay[g.below(w.pay.size())]; auto& b = *w.pay[g.below(w.pay.size())]; g_sink += a == b; g_sink += a != b; } if (w.data.size() > 1) g_sink += *g.pick(w.data) == *g.pick(w.data); for (auto& o : w.opts) if (g.chance(0.3)) { look(o.second->payoff(g.u(1, 200))); } break; }
        case 22: switch (g.below(4)) {
            case 0: { int n = g.range(2, 8); std::vector<double> x(n), y(n); double s = g.u(0, 5); for (int i = 0; i < n; ++i) { x[i] = s; s += g.u(0.1, 2); y[i] = g.normal(); } if (!w.inter.empty()) { auto I = g.pick(w.inter); for (double t : {x[0], x[n - 1], x[0] - 1, x[n - 1] + 1, g.u(x[0], x[n - 1]), std::nextafter(x[n - 1], 0.0), std::nextafter(x[0], 1e9)}) look(I->interpolate(x, y, t)); } break; }
            case 1: { if (w.mat.empty()) break; auto M = g.pick(w.mat); int n = g.chance(0.5) ? g.range(2, 3) : g.range(2, 12); Eigen::SparseMatrix<double> A(n, n); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < n; ++i) { t.push_back({i, i, g.u(3, 5)}); if (i) t.push_back({i, i - 1, g.u(-1, 1)}); if (i + 1 < n && g.chance(0.8)) t.push_back({i, i + 1, g.u(-1, 1)}); } A.setFromTriplets(t.begin(), t.end()); if (g.chance(0.3)) A.makeCompressed(); Eigen::VectorXd b(n); for (int i = 0; i < n; ++i) b(i) = g.normal(); look(M->solve(A, b)); break; }
            case 2: { if (w.basis.empty()) break; int n = g.range(0, 7); Eigen::VectorXd x(n); for (int i = 0; i < n; ++i) x(i) = g.u(0.5, 2); look(g.pick(w.basis)->generate(x)); break; }
            default: { if (w.regr.empty()) break; int m = g.range(1, 8), n = g.range(1, 4); Eigen::MatrixXd A(m, n); Eigen::VectorXd y(m); for (int i = 0; i < m; ++i) { y(i) = g.normal(); for (int j = 0; j < n; ++j) A(i, j) = g.normal(); } look(g.pick(w.regr)->solve(A, y)); } } break;
        case 23: switch (g.below(5)) { case 0: { unsigned n = g.chance(0.1) ? 0 : (unsigned)g.range(1, 5); switch (g.below(4)) { case 0: w.basis.push_back(std::make_shared<MonomialBasisFunction>(n)); break; case 1: w.basis.push_back(std::make_shared<LaguerreBasisFunction>(n)); break; case 2: w.basis.push_back(std::make_shared<LegendreBasisFunction>(n)); break; default: w.basis.push_back(std::make_shared<ChebyshevBasisFunction>(n)); } break; }
            case 1: switch (g.below(3)) { case 0: w.regr.push_back(std::make_shared<LeastSquaresRegression>()); break; case 1: w.regr.push_back(std::make_shared<RidgeRegression>(g.u(0.01, 1))); break; default: w.regr.push_back(std::make_shared<LassoRegression>(g.u(0.01, 1))); } break;
            case 2: switch (g.below(3)) { case 0: w.mat.push_back(std::make_shared<LUDecompositionSolver>()); break; case 1: w.mat.push_back(std::make_shared<PartialPivotingLUSolver>()); break; default: w.mat.push_back(std::make_shared<ThomasAlgorithm>()); } break;
            case 3: if (g.chance(0.5)) w.inter.push_back(std::make_shared<LinearInterpolation>()); else w.inter.push_back(std::make_shared<QuadraticInterpolation>()); break;
            default: if (g.chance(0.5)) w.cir.push_back(std::make_shared<CIRExplicitEulerDiscretization>()); else w.cir.push_back(std::make_shared<CIRMilsteinDiscretization>()); } break;
        case 24: switch (g.below(16)) { case 0: drop(g, w.opts); break; case 1: drop(g, w.gens); break; case 2: drop(g, w.models); break; case 3: drop(g, w.builders); break; case 4: drop(g, w.pricers); break; case 5: drop(g, w.solvers); break; case 6: drop(g, w.fdm); break; case 7: drop(g, w.dist); break; case 8: drop(g, w.pay); break; case 9: drop(g, w.obs); break; case 10: drop(g, w.data); break; case 11: drop(g, w.basis); break; case 12: drop(g, w.regr); break; case 13: drop(g, w.mat); break; case 14: drop(g, w.inter); break; default: drop(g, w.cir); } break;
        case 25: { if (w.models.empty()) break; auto m = g.pick(w.models); double T = g.chance(0.1) ? 0 : g.u(0.01, 3); if (g.chance(0.5)) look(m->simulatePrices(T)); else look(m->simulatePriceAtMaturity(T)); break; }
        case 27: { if (w.models.empty()) break; auto m = g.pick(w.models); double b = g.u(0.1, 2), a = b * g.u(0, 1); look(m->simulatePriceBackward(g.u(50, 150), a, b)); break; }
    }
}
static void program(Case& c, int len) {
    auto& g = c.rng; uint64_t threw = 0, done = 0; { World w;
    // construction first, so that later operations have something to act on
    int warm = g.range(0, 25); std::string d; uint64_t h = 0;
    for (int i = 0; i < len; ++i) {
        int op = i < warm ? g.picki({0, 3, 3, 5, 6, 7, 16, 18, 23, 23, 23}) : g.chance(0.35) ? g.picki({8, 8, 9, 11, 11, 12, 12, 13, 14, 15}) : (int)g.below(NOPS); h = h * 31 + op;
        if (mon::st().crumb) { std::string t = c.section + ":" + std::to_string(c.index) + " operation " + std::to_string(i) + " " + OPS[op]; strncpy(mon::st().crumb, t.c_str(), 4000); }
        try { step(g, w, op); ++done; count(std::string("op ") + OPS[op]); } catch (const std::exception& e) { ++threw; look(std::string(e.what())); count(std::string("op failed with an exception ") + OPS[op]); }
    }
    c.desc("program of %d operations #%016llx, %llu ended in an exception", len, (unsigned long long)h, (unsigned long long)threw);
    // destruction in random order, notifications in between
    for (int k = 0; k < 40; ++k) { try { step(g, w, 24); if (k % 8 == 0) md()->setR(0.01 * k); } catch (const std::exception&) {} }
    }
    try { md()->setR(0.03); } catch (const std::exception&) {}
    c.checks += done; count("operations", done);
}
static void c07() {
    late().reserve(200); (void)md();
    run("programs", 4000, [](Case& c) {
        program(c, c.rng.range(20, 120));
#if HAVE_ASAN
        if (c.index % 250 == 249) { c.expect(__lsan_do_recoverable_leak_check() == 0, "memory was leaked by one of the last 250 programs"); maxi("live bytes", (double)__sanitizer_get_current_allocated_bytes()); }
#endif
    }, 25);
#if HAVE_ASAN
    // the same program again and again must not pile up memory
    run("steady", 6, [](Case& c) {
        uint64_t base = c.rng.u64(); std::vector<size_t> live; mon::st().crumb ? (void)0 : (void)0;
        for (int rep = 0; rep < 24; ++rep) { Case k(base, "steady", 0); program(k, 90); if (rep % 4 == 3) { md()->removeObserver(); live.push_back(__sanitizer_get_current_allocated_bytes()); } }
        size_t n = live.size(); c.desc("one program 24 times: %zu .. %zu bytes live", live[1], live[n - 1]); bool grows = true; for (size_t i = 2; i < n; ++i) grows &= live[i] > live[i - 1] + 1500; c.expect(!grows, "live memory grows with every repetition, %zu to %zu bytes", live[1], live[n - 1]);
    }, 4);
#endif
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C07", c07}}); }
