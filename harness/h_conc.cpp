// Monitors for concurrent use (C06), run under ThreadSanitizer.
// Every case is a fresh process, so that first accesses really are first ones.
#include "pricing.h"
#include <atomic>
#include <thread>
#include <sched.h>
#include <sys/wait.h>
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/monte_carlo/mc_american.h"
using namespace OptionPricer::PDE::OneFactor;
using namespace OptionPricer::FDM::OneFactor;

// relaxed everywhere: the monitor itself must not order the threads
struct Gate { std::atomic<int> waiting{0}; void pass(int n) { waiting.fetch_add(1, std::memory_order_relaxed); while (waiting.load(std::memory_order_relaxed) < n) {} } };
static std::atomic<unsigned> g_clock{0};
struct Event { unsigned at; int task, phase; };
static void spin(unsigned n) { for (volatile unsigned i = 0; i < n; ++i) {} }

static void report(const std::string& s) { const char* f = getenv("MON_CHILD_OUT"); if (f) { std::ofstream o(f, std::ios::app); o << s << '\n'; } }

// ---------------------------------------------------------------- child: first access
static void first() {
    Rng g(mon::st().seed); int n = g.range(2, 8); std::vector<const void*> got(n), again(n); std::vector<double> r(n); std::vector<unsigned> at(n); std::vector<std::thread> th; Gate gate; std::vector<unsigned> d(n); for (auto& x : d) x = g.chance(0.5) ? 0 : (unsigned)g.below(4000); int route = (int)g.below(3);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
        gate.pass(n); spin(d[i]);
        auto p = MarketData::getInstance(); at[i] = g_clock.fetch_add(1, std::memory_order_relaxed);
        got[i] = p.get(); r[i] = p->getR(); if (route == 1) { bool threw = false; try { (void)p->getStockData("NONE"); } catch (const std::exception&) { threw = true; } if (!threw) r[i] = 1e9; }
        if (route == 2) std::this_thread::yield();
        again[i] = MarketData::getInstance().get();
    });
    for (auto& t : th) t.join();
    const void* ref = MarketData::getInstance().get(); std::string order; for (int i = 0; i < n; ++i) order += fmt("%u.", at[i]);
    for (int i = 0; i < n; ++i) if (got[i] != ref || again[i] != ref) { report(fmt("fail thread %d of %d got another market data instance", i, n)); return; }
    for (int i = 0; i < n; ++i) if (r[i] != r[0]) { report("fail threads read different rates from the same market data"); return; }
    report(fmt("count threads %d", n)); report("order " + order);
}

// ---------------------------------------------------------------- child: pricing
struct Lagging final : NumberGenerator {   // the thread's own generator, with injected delays
    std::shared_ptr<NumberGenerator> in; mutable Rng g; bool lag;
    Lagging(std::shared_ptr<NumberGenerator> i, unsigned d, uint64_t s, bool l) : NumberGenerator(d, 1u), in(std::move(i)), g(s), lag(l) {}
    double operator()(Distribution& x) const override { if (lag) { uint64_t k = g.below(64); if (k == 0) sched_yield(); else if (k < 4) spin((unsigned)g.below(300)); } return (*in)(x); }
};
struct Shared {
    std::vector<std::pair<Terms, std::shared_ptr<Option>>> options; std::vector<std::shared_ptr<EuropeanOption>> euro;
    std::vector<std::shared_ptr<BasisFunction>> basis; std::vector<std::shared_ptr<Regression>> regr; std::vector<std::shared_ptr<CIRDiscretization>> cir; std::vector<std::shared_ptr<MatrixSolver>> mat; std::vector<std::shared_ptr<Interpolation>> inter;
};
static std::vector<double> task(const Shared& S, uint64_t seed, bool lag) {
    Rng g(seed); std::vector<double> out; bool big = g.chance(0.12); unsigned steps = (unsigned)(big ? g.range(50, 400) : g.range(2, 10)); unsigned gs = (unsigned)g.below(100000);
    if (g.chance(0.25)) {   // finite differences
        auto o = g.pick(S.euro); unsigned long J = big ? g.range(60, 300) : g.range(10, 40), N = big ? g.range(4, 12) : g.range(60, 90); double X = 300; auto pde = std::make_unique<BlackScholesPDE>(o, md()); auto I = g.pick(S.inter); auto M = g.pick(S.mat); std::unique_ptr<FDMSolver> f;
        switch (g.below(4)) { case 0: f = std::make_unique<EulerExplicitFDM>(X, 12, o->getT(), 400, std::move(pde), o, md(), I); break; case 1: f = std::make_unique<EulerImplicitFDM>(X, J, o->getT(), N, std::move(pde), o, md(), I, M); break; case 2: f = std::make_unique<CrankNicolsonFDMSolver>(X, J, o->getT(), N, std::move(pde), o, md(), I, M); break; default: f = std::make_unique<CrankNicolsonFDMSolver>(X, J, o->getT(), N, std::move(pde), o, md()); }
        out = f->solve(); out.push_back(f->calculatePrice()); return out;
    }
    const auto& [t, o] = g.pick(S.options); int m = (int)g.below(6), gk = m == 0 ? (int)g.below(3) : 0; std::shared_ptr<NumberGenerator> in;
    if (gk == 0) in = std::make_shared<PseudoRandomNumberGenerator>(steps, gs); else if (gk == 1) in = std::make_shared<SobolGenerator>(steps, gs); else in = std::make_shared<FaureGenerator>(steps, gs);
    auto G = std::make_shared<Lagging>(in, steps, seed ^ 77, lag); std::shared_ptr<StockModel> model; auto V = g.chance(0.7) ? g.pick(S.cir) : nullptr;
    switch (m) {
        case 0: model = std::make_shared<GeometricBrownianMotionModel>(t.ticker, md(), G); break;
        case 1: model = std::make_shared<HestonModel>(t.ticker, md(), G, 1.5, 0.05, 0.3, -0.5, 0.04, V); break;
        case 2: model = std::make_shared<MertonJumpDiffusionModel>(t.ticker, md(), G, 0.8, -0.1, 0.2); break;
        case 3: model = std::make_shared<KouModel>(t.ticker, md(), G, 0.8, 0.4, 12.0, 9.0); break;
        case 4: model = std::make_shared<VarianceGammaModel>(t.ticker, md(), G, 0.2, -0.1); break;
        default: model = std::make_shared<BatesModel>(t.ticker, md(), G, 1.5, 0.05, 0.3, -0.5, 0.04, 0.7, -0.1, 0.15, V);
    }
    auto b = builderFor(t.k); b->setOption(o); b->setStockPriceModel(model); if (g.chance(0.5)) b->setMarketData(md());
    if (auto* a = dynamic_cast<AmericanMCBuilder*>(b.get())) { if (g.chance(0.8)) a->setBasisFunctionStrategy(g.pick(S.basis)); if (g.chance(0.8)) a->setRegressionStrategy(g.pick(S.regr)); }
    MCSolver s((unsigned long)(big ? g.range(3, 12) : g.range(10, t.k == Kind::American ? 60 : 250))); s.setPricer(b->build()); out.push_back(s.solve()); s.setN(big ? 4 : 20); out.push_back(s.solve());
    if (g.chance(0.2)) { PseudoRandomNumberGenerator u(3); StandardNormalDistribution n; double x = u(n); if (!std::isfinite(x)) out.push_back(x); }   // an unseeded generator of its own
    if (g.chance(0.15)) { auto d = builderFor(t.k); d->setOption(o); auto p = d->build(); if (!std::isfinite(p->calculatePrice(5))) out.push_back(-1); }   // all defaults
    return out;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static void price() {
    Rng g(mon::st().seed * 31 + 5); Shared S; md()->setR(g.u(-0.01, 0.1)); for (int i = 0; i < 3; ++i) md()->addStock(fmt("C%d", i), g.u(80, 120), g.u(0.1, 0.4), i ? Opt(0.02 * i) : std::nullopt);
    for (int rep = 0; rep < 2; ++rep) for (Kind k : ALL_KINDS) { Terms t; t.k = k; t.call = g.chance(0.5); t.ticker = fmt("C%d", (int)g.below(3)); t.T = g.u(0.3, 2); t.K = g.u(85, 115); t.K2 = t.K + 15; t.B = g.u(90, 125); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; S.options.push_back({t, make(t)}); if (k == Kind::European) S.euro.push_back(std::dynamic_pointer_cast<EuropeanOption>(S.options.back().second)); }
    S.basis = {std::make_shared<MonomialBasisFunction>(3), std::make_shared<LaguerreBasisFunction>(3), std::make_shared<LegendreBasisFunction>(3), std::make_shared<ChebyshevBasisFunction>(3)}; S.regr = {std::make_shared<LeastSquaresRegression>(), std::make_shared<RidgeRegression>(0.1), std::make_shared<LassoRegression>(0.01)};
    S.cir = {std::make_shared<CIRExplicitEulerDiscretization>(), std::make_shared<CIRMilsteinDiscretization>()}; S.mat = {std::make_shared<LUDecompositionSolver>(), std::make_shared<PartialPivotingLUSolver>(), std::make_shared<ThomasAlgorithm>()}; S.inter = {std::make_shared<LinearInterpolation>(), std::make_shared<QuadraticInterpolation>()};
    int rounds = 3;
    for (int r = 0; r < rounds; ++r) {
        int n = g.range(2, 8), per = g.range(3, 8); bool identical = g.chance(0.3); uint64_t base = g.u64(); std::vector<std::vector<std::vector<double>>> got(n, std::vector<std::vector<double>>(per)); std::vector<std::vector<Event>> ev(n); std::vector<std::thread> th; Gate gate; std::vector<std::string> err(n);
        auto seedOf = [&](int i, int j) { return base + (identical ? j : i * 1000 + j); };
        for (int i = 0; i < n; ++i) th.emplace_back([&, i] { gate.pass(n); try { for (int j = 0; j < per; ++j) { ev[i].push_back({g_clock.fetch_add(1, std::memory_order_relaxed), i, 0}); got[i][j] = task(S, seedOf(i, j), true); ev[i].push_back({g_clock.fetch_add(1, std::memory_order_relaxed), i, 1}); } } catch (const std::exception& e) { err[i] = e.what(); } });
        for (auto& t : th) t.join();
        std::vector<Event> all; for (auto& v : ev) all.insert(all.end(), v.begin(), v.end()); std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.at < b.at; }); std::string order; int open = 0, most = 0; for (auto& e : all) { order += fmt("%d%c", e.task, e.phase ? '-' : '+'); open += e.phase ? -1 : 1; most = std::max(most, open); }
        for (int i = 0; i < n; ++i) {
            if (!err[i].empty()) { std::string alone = "none"; report("fail a concurrent pricing threw: " + err[i]); return; }
            for (int j = 0; j < per; ++j) { auto w = task(S, seedOf(i, j), false); if (!same(got[i][j], w)) { size_t k = 0; while (k < w.size() && k < got[i][j].size() && w[k] == got[i][j][k]) ++k; report(fmt("fail pricing %llu in thread %d of %d: value %zu is %.17g, alone %.17g", (unsigned long long)seedOf(i, j), i, n, k, k < got[i][j].size() ? got[i][j][k] : 0.0, k < w.size() ? w[k] : 0.0)); return; } }
        }
        report(fmt("count threads %d", n)); report(fmt("count concurrent pricings %d", n * per)); report(fmt("max pricings under way at once %d", most)); report("order " + order);
    }
}

// ---------------------------------------------------------------- parent
static int child(const char* prop, uint64_t seed, const std::string& out, const std::string& errf) {
    const char* exe = getenv("MON_EXE"); pid_t p = fork();
    if (p == 0) { setenv("MON_CHILD_OUT", out.c_str(), 1); int fd = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2); std::string s = std::to_string(seed), o = out + ".json"; execl(exe, exe, "--prop", prop, "--seed", s.c_str(), "--out", o.c_str(), (char*)nullptr); _exit(64); }
    int stt = 0; waitpid(p, &stt, 0); return WIFEXITED(stt) ? WEXITSTATUS(stt) : 256 + WTERMSIG(stt);
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void judge(Case& c, const char* prop) {
    const char* dir = getenv("MON_SCRATCH"); std::string out = fmt("%s/child", dir), err = out + ".err"; unlink(out.c_str()); uint64_t seed = c.rng.u64() >> 16;
    c.desc("process %s seed %llu", prop, (unsigned long long)seed); int rc = child(prop, seed, out, err); std::string e = slurp(err); size_t p = e.find("WARNING: ThreadSanitizer"); 
    if (rc != 0) { std::string where; size_t q = p == std::string::npos ? 0 : p; where = e.substr(q, 1100); for (auto& ch : where) if (ch == '\n') ch = ' '; c.expect(false, "status %d: %s", rc, where.c_str()); return; }
    std::ifstream in(out); std::string line; int orders = 0; std::string sig;
    while (std::getline(in, line)) {
        if (line.rfind("fail ", 0) == 0) c.expect(false, "%s", line.c_str() + 5);
        else if (line.rfind("order ", 0) == 0) { ++orders; sig += line; static std::set<std::string> seen; if (seen.insert(line).second) count(fmt("distinct observed event orders, %s", prop)); }
        else if (line.rfind("count ", 0) == 0 || line.rfind("max ", 0) == 0) { size_t k = line.rfind(' '); size_t b = line.find(' ') + 1; double v = atof(line.c_str() + k); std::string name = line.substr(b, k - b); if (line[0] == 'c') count(name + fmt(" (%s)", prop), (uint64_t)v); else maxi(name, v); }
    }
    c.expect(orders > 0 || !mon::st().violations.empty(), "the process observed nothing"); count("fresh processes");
}
static void c06() { run("first-access", 50, [](Case& c) { judge(c, "C06first"); }); run("pricing", 26, [](Case& c) { judge(c, "C06price"); }); }
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C06", c06}, {"C06first", first}, {"C06price", price}}); }
