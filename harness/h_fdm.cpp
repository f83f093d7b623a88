// Monitors for the finite difference solvers: C27 against Black-Scholes, C28 manufactured solutions.
#include "fixtures.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
using namespace OptionPricer::PDE::OneFactor;
using namespace OptionPricer::FDM::OneFactor;

enum Scheme { EXPL, IMPL, CN };
static const char* sname(int s) { static const char* n[] = {"explicit", "implicit", "Crank-Nicolson"}; return n[s]; }
static const char* mname(int s) { static const char* n[] = {"default solver", "sparse LU", "pivoting LU", "Thomas"}; return n[s]; }
static const char* iname(int s) { static const char* n[] = {"default interpolation", "linear", "quadratic"}; return n[s]; }
static std::shared_ptr<MatrixSolver> ms(int k) { switch (k) { case 1: return std::make_shared<LUDecompositionSolver>(); case 2: return std::make_shared<PartialPivotingLUSolver>(); case 3: return std::make_shared<ThomasAlgorithm>(); default: return nullptr; } }
static std::shared_ptr<Interpolation> ip(int k) { switch (k) { case 1: return std::make_shared<LinearInterpolation>(); case 2: return std::make_shared<QuadraticInterpolation>(); default: return nullptr; } }
static std::unique_ptr<FDMSolver> mkFdm(int s, double X, unsigned long J, double T, unsigned long N, std::unique_ptr<ConvectionDiffusionPDE> pde, std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> m, int inter, int mat) {
    if (s == EXPL) { if (!inter) return std::make_unique<EulerExplicitFDM>(X, J, T, N, std::move(pde), o, m); return std::make_unique<EulerExplicitFDM>(X, J, T, N, std::move(pde), o, m, ip(inter)); }
    if (s == IMPL) { if (!inter && !mat) return std::make_unique<EulerImplicitFDM>(X, J, T, N, std::move(pde), o, m); return std::make_unique<EulerImplicitFDM>(X, J, T, N, std::move(pde), o, m, ip(inter), ms(mat)); }
    if (!inter && !mat) return std::make_unique<CrankNicolsonFDMSolver>(X, J, T, N, std::move(pde), o, m);
    return std::make_unique<CrankNicolsonFDMSolver>(X, J, T, N, std::move(pde), o, m, ip(inter), ms(mat));
}
static std::shared_ptr<EuropeanOption> euro(const std::string& tk, bool call, double K, double T) {
    Terms t; t.k = Kind::European; t.call = call; t.ticker = tk; t.K = K; t.T = T; return std::dynamic_pointer_cast<EuropeanOption>(make(t));
}
static void put(const std::string& tk, double S, double sig, double r, Opt c) { md()->setR(r); md()->addStock(tk, S, sig, c); }

// ---------------------------------------------------------------- C28
struct Quad { double a, b, c; long double v(long double x) const { return a + b * x + c * x * x; } long double d1(long double x) const { return b + 2 * c * x; } long double d2() const { return 2 * c; } };
struct Coef {   // |ct|+|cx| < 1; may depend on time or space alone, smoothly, from some time on, or on a part of the space only
    double c0, ct, cx, w; double t0 = -1, x0 = -1, xw = 0;
    double operator()(double t, double x, double X) const { return c0 * (1 + ct * (t0 >= 0 ? (t > t0 ? 1.0 : -1.0) : std::sin(3 * t + w)) + cx * (x0 >= 0 ? (std::fabs(x - x0) < xw ? 1.0 : -1.0) : std::cos(5 * x / X + w))); }
    void vary(mon::Rng& g, double X, double T, unsigned long J, unsigned long N) {
        if (g.chance(0.3)) ct = 0; if (g.chance(0.3)) cx = 0;
        if (g.chance(0.3)) t0 = T * ((double)g.below(std::max<unsigned long>(1, N - 1)) + 0.5) / (N - 1); if (g.chance(0.3)) { double dx = X / (J - 1); x0 = dx * (double)g.below(J); xw = dx * ((double)g.below(std::max<unsigned long>(1, J / 2)) + 0.5); }
    }
};
struct Problem {
    Quad p, q, s; Coef d, m, r; double X, T;   // V = p(x) + t q(x) + t^2 s(x)
    long double V(long double t, long double x) const { return p.v(x) + t * q.v(x) + t * t * s.v(x); }
    double f(double t, double x) const {
        long double vx = p.d1(x) + t * q.d1(x) + (long double)t * t * s.d1(x), vxx = p.d2() + t * q.d2() + (long double)t * t * s.d2(), vt = q.v(x) + 2.0L * t * s.v(x);
        return (double)(d(t, x, X) * vxx + m(t, x, X) * vx + r(t, x, X) * V(t, x) - vt);
    }
};
struct Trace { std::set<double> left, right; double xl = 0, xr = 0; uint64_t calls = 0; bool outside = false; };
struct Manufactured final : ConvectionDiffusionPDE {
    Problem P; std::shared_ptr<Trace> tr;
    Manufactured(const Problem& p, std::shared_ptr<Trace> t) : P(p), tr(std::move(t)) {}
    void see(double t, double x) const { ++tr->calls; if (!(t >= -1e-9 * P.T && t <= P.T * (1 + 1e-9)) || !(x >= -1e-9 * P.X && x <= P.X * (1 + 1e-9))) tr->outside = true; }
    double diffusion(const double& t, const double& x) const override { see(t, x); return P.d(t, x, P.X); }
    double convection(const double& t, const double& x) const override { see(t, x); return P.m(t, x, P.X); }
    double reaction(const double& t, const double& x) const override { see(t, x); return P.r(t, x, P.X); }
    double rightHandSide(const double& t, const double& x) const override { see(t, x); return P.f(t, x); }
    double boundaryLeft(const double& t, const double& x) const override { see(t, x); tr->left.insert(t); tr->xl = std::max(tr->xl, std::fabs(x)); return (double)P.V(t, x); }
    double boundaryRight(const double& t, const double& x) const override { see(t, x); tr->right.insert(t); tr->xr = std::max(tr->xr, std::fabs(x - P.X)); return (double)P.V(t, x); }
    double initialCondition(const double& x) const override { return (double)P.V(0, x); }
};
static size_t distinctTimes(const std::set<double>& s, double dt, std::vector<double>& out) { out.clear(); for (double t : s) if (t > 0.01 * dt && (out.empty() || t - out.back() > 0.01 * dt)) out.push_back(t); return out.size(); }

struct TellMat final : MatrixSolver { double v; mutable uint64_t n = 0; mutable bool good = true; size_t want; TellMat(double x, size_t w) : v(x), want(w) {} Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { ++n; good = good && (size_t)A.rows() == want && (size_t)A.cols() == want && (size_t)b.size() == want; Eigen::VectorXd x = Eigen::VectorXd::Zero(b.size()); for (Eigen::Index i = 0; i < x.size(); ++i) x[i] = v + 0.5 * (double)i + 16.0 * (double)n; return x; } };
struct TellInter final : Interpolation { mutable std::vector<double> x, y; mutable double at = 0; mutable uint64_t n = 0; double interpolate(const std::vector<double>& a, const std::vector<double>& b, const double& s) const override { x = a; y = b; at = s; ++n; return 42.125 + 3 * s; } };
static void c28() {
    put("M28", 100, 0.2, 0.05, std::nullopt);
    run("manufactured", 1200, [](Case& c) {
        auto& g = c.rng; int s = (int)g.below(3); unsigned long J = g.chance(0.35) ? g.range(3, 6) : g.range(4, 40), N = g.chance(0.3) ? g.range(2, 4) : g.range(2, 60); int mat = s == EXPL ? 0 : (int)g.below(J >= 4 ? 4 : 3), inter = (int)g.below(3);
        Problem P; P.X = g.chance(0.3) ? 1.0 : g.logu(0.2, 300); P.T = g.chance(0.3) ? 1.0 : g.logu(0.05, 5); double dx = P.X / (J - 1);
        auto quad = [&](double w) { return Quad{g.u(-2, 2) * w, g.u(-2, 2) * w / P.X, g.u(-2, 2) * w / (P.X * P.X)}; };
        P.p = quad(1); P.q = quad(1 / P.T); P.s = s == CN && g.chance(0.5) ? quad(1 / (P.T * P.T)) : Quad{0, 0, 0};
        double a = g.u(0, 0.45), b = g.u(0, 0.45); P.d = {g.logu(0.003, 2) * P.X * P.X / P.T, a * g.u(-1, 1), b * g.u(-1, 1), g.u(0, 6)};
        double dmin = P.d.c0 * 0.1, pec = 1.9 * dmin / dx; P.m = {g.u(-1, 1) * pec, a * g.u(-1, 1), b * g.u(-1, 1), g.u(0, 6)}; P.m.c0 /= 1.9;
        P.r = {g.chance(0.2) ? 0 : g.u(-3, 0.3) / P.T, a * g.u(-1, 1), b * g.u(-1, 1), g.u(0, 6)};
        if (s == EXPL) { double lim = 0.9 / (2 * P.d.c0 * 1.9 / (dx * dx) + std::fabs(P.r.c0) * 1.9), steps = P.T / lim + 2; if (steps > 4000) { double k = steps / 4000 * 2; P.d.c0 /= k; P.m.c0 /= k; P.r.c0 /= k; lim = 0.9 / (2 * P.d.c0 * 1.9 / (dx * dx) + std::fabs(P.r.c0) * 1.9); } N = std::max<unsigned long>(N, (unsigned long)(P.T / lim) + 2); }
        for (Coef* k : {&P.d, &P.m, &P.r}) k->vary(g, P.X, P.T, J, N);
        c.desc("vary %d%d%d%d%d%d", P.d.ct != 0, P.d.cx != 0, P.m.ct != 0, P.m.cx != 0, P.r.ct != 0, P.r.cx != 0);
        c.desc("%s J=%lu N=%lu X=%.6g T=%.6g %s %s d=%.6g m=%.6g q=%.6g p=(%.9g,%.9g,%.9g)%s", sname(s), J, N, P.X, P.T, mname(mat), iname(inter), P.d.c0, P.m.c0, P.r.c0, P.p.a, P.p.b, P.p.c, P.s.a ? " quadratic in time" : "");
        auto tr = std::make_shared<Trace>(); double spot = P.X * g.u(0.01, 0.99); md()->updateStockPrice("M28", spot);
        auto o = euro("M28", true, 100, 1); auto f = mkFdm(s, P.X, J, P.T, N, std::make_unique<Manufactured>(P, tr), o, md(), inter, mat);
        double first = 0; bool priceFirst = g.chance(0.4); if (priceFirst) first = f->calculatePrice();
        auto v = f->solve(); if (!c.expect(v.size() == J, "%zu values for %lu nodes", v.size(), J)) return;
        double sc = 0; for (unsigned long j = 0; j < J; ++j) sc = std::max(sc, std::max((double)std::fabs(P.V(P.T, dx * j)), (double)std::fabs(P.V(0, dx * j))));
        for (unsigned long j = 0; j < J; ++j) { double e = std::fabs(v[j] - (double)P.V(P.T, (long double)dx * j)); maxi(std::string("error ") + sname(s), e / sc); c.close(v[j], (double)P.V(P.T, (long double)dx * j), 1e-7, sc, "node %lu of %lu", j, J); if (mon::st().violations.size() > 6) return; }
        // the times at which the boundary was asked for: N-1 equal steps up to T
        for (auto* st : {&tr->left, &tr->right}) { std::vector<double> ts; double dt = P.T / (N - 1); size_t n = distinctTimes(*st, dt, ts); bool ok = n == N - 1; for (size_t i = 0; ok && i < n; ++i) ok = std::fabs(ts[i] - dt * (i + 1)) < 1e-6 * dt + 1e-12 * P.T; c.expect(ok, "boundary values were taken at %zu times (last %.17g) instead of %lu equal steps up to %.17g", n, n ? ts.back() : 0.0, N - 1, P.T); }
        c.expect(tr->xl <= 1e-9 * P.X && tr->xr <= 1e-9 * P.X, "boundary values taken away from the ends of the grid"); c.expect(!tr->outside, "coefficients evaluated outside the domain");
        uint64_t calls = tr->calls; count("pde evaluations", calls);
        // price: interpolated solution at the current spot, repeatedly
        std::vector<double> xs(J); for (unsigned long j = 0; j < J; ++j) xs[j] = dx * j;
        std::shared_ptr<Interpolation> I = ip(inter ? inter : 1);
        auto expected = [&](double S) { return I->interpolate(xs, v, S); };
        if (priceFirst) c.close(first, expected(spot), 1e-9, sc, "price before solve");
        for (int k = 0; k < 3; ++k) { double S = g.chance(0.2) ? xs[1 + g.below(J - 1)] : g.chance(0.15) ? P.X * g.u(1, 3) : P.X * g.u(0.001, 1); md()->updateStockPrice("M28", S); c.close(f->calculatePrice(), expected(S), 1e-9, sc, "price at spot %.17g", S); }
        auto w = f->solve(); bool same = w.size() == v.size(); for (size_t j = 0; same && j < w.size(); ++j) same = std::fabs(w[j] - v[j]) <= 1e-12 * sc; c.expect(same, "solving again gives other values");
        count(std::string("solved ") + sname(s)); count(std::string("with ") + mname(mat));
    });
    // the matrix solver and the interpolation that were given are the ones at work, and what they answer is what comes out
    run("parts", 300, [](Case& c) {
        auto& g = c.rng; int s = (int)g.below(3); unsigned long J = g.range(5, 30), N = g.range(2, 20); Problem P; P.X = g.logu(0.5, 100); P.T = g.logu(0.1, 3); P.p = {1, 0.1 / P.X, 0}; P.q = {1 / P.T, 0, 0}; P.s = {0, 0, 0}; double dx = P.X / (J - 1);
        P.d = {0.2 * dx * dx * (N - 1) / P.T, 0, 0, 0}; P.m = {0, 0, 0, 0}; P.r = {0, 0, 0, 0}; double v = g.u(-5, 5);
        c.desc("%s J=%lu N=%lu X=%.17g T=%.17g answer=%.17g", sname(s), J, N, P.X, P.T, v); auto tr = std::make_shared<Trace>(); auto o = euro("M28", true, 100, 1); auto mat = std::make_shared<TellMat>(v, J - 2); auto inter = std::make_shared<TellInter>(); auto pde = std::make_unique<Manufactured>(P, tr); std::unique_ptr<FDMSolver> f;
        bool giveM = s != EXPL && g.chance(0.7), giveI = !giveM || g.chance(0.7); std::shared_ptr<Interpolation> I = giveI ? std::shared_ptr<Interpolation>(inter) : nullptr; std::shared_ptr<MatrixSolver> M = giveM ? std::shared_ptr<MatrixSolver>(mat) : nullptr;
        if (s == EXPL) f = std::make_unique<EulerExplicitFDM>(P.X, J, P.T, N, std::move(pde), o, md(), I); else if (s == IMPL) f = std::make_unique<EulerImplicitFDM>(P.X, J, P.T, N, std::move(pde), o, md(), I, M); else f = std::make_unique<CrankNicolsonFDMSolver>(P.X, J, P.T, N, std::move(pde), o, md(), I, M);
        double spot = P.X * g.u(0.1, 0.9); md()->updateStockPrice("M28", spot); double price = f->calculatePrice(); auto w = f->solve(); if (!c.expect(w.size() == J, "%zu values for %lu nodes", w.size(), J)) return;
        if (giveM) { c.expect(mat->n == N - 1, "the matrix solver was asked %zu times in %lu steps", (size_t)mat->n, N - 1); c.expect(mat->good, "the system does not have the size of the inner grid"); for (unsigned long j = 1; j + 1 < J; ++j) if (!c.close(w[j], v + 0.5 * (double)(j - 1) + 16.0 * (double)(N - 1), 1e-12, 16.0 * N, "inner node %lu is not what the matrix solver answered last", j)) break; c.close(w[0], (double)P.V(P.T, 0), 1e-9, 5, "left end"); c.close(w[J - 1], (double)P.V(P.T, P.X), 1e-9, 5, "right end"); count("answers of the given matrix solver", mat->n); }
        if (giveI) { c.expect(inter->n >= 1, "the given interpolation was not asked"); c.close(price, 42.125 + 3 * spot, 1e-12, 1, "price is not what the interpolation answered"); c.expect(inter->x.size() == J && inter->y.size() == J && inter->at == spot, "the interpolation was asked about %zu nodes and %zu values at %.17g", inter->x.size(), inter->y.size(), inter->at);
            if (inter->y.size() == J && inter->x.size() == J) { bool same = true; for (unsigned long j = 0; j < J; ++j) same = same && std::fabs(inter->y[j] - w[j]) <= 1e-12 * (1 + std::fabs(w[j])) && std::fabs(inter->x[j] - dx * (double)j) <= 1e-12 * P.X; c.expect(same, "the interpolation was given other nodes or values than the solution"); } count("answers of the given interpolation", inter->n); }
        else if (!giveM) c.expect(false, "nothing given");
    });
    // a solver with a large number of steps must end exactly at T (rounding of dt)
    run("many-steps", 60, [](Case& c) {
        auto& g = c.rng; int s = g.picki({EXPL, IMPL, CN}); unsigned long J = 4, N = g.range(2, 3000); Problem P; P.X = 1; P.T = g.chance(0.5) ? g.pickd({1.0, 0.1, 0.3, 0.7}) : g.u(0.1, 3);
        P.p = {1, 0, 0}; P.q = {1, 1, 0}; P.s = {0, 0, 0}; P.d = {0.02 / P.T, 0, 0, 0}; P.m = {0, 0, 0, 0}; P.r = {0, 0, 0, 0};
        c.desc("%s N=%lu T=%.17g", sname(s), N, P.T); auto tr = std::make_shared<Trace>(); auto o = euro("M28", true, 100, 1);
        auto f = mkFdm(s, P.X, J, P.T, N, std::make_unique<Manufactured>(P, tr), o, md(), 0, s == EXPL ? 0 : 3); auto v = f->solve();
        for (unsigned long j = 0; j < J; ++j) c.close(v[j], (double)P.V(P.T, j / 3.0), 1e-9, 5, "node %lu", j);
        std::vector<double> ts; c.expect(distinctTimes(tr->left, P.T / (N - 1), ts) == N - 1, "%zu steps instead of %lu", ts.size(), N - 1); count("time steps", N - 1);
    });
}

// ---------------------------------------------------------------- C27
static void c27(int cases) {
    run("pde", (uint64_t)cases * 2, [](Case& c) {
        auto& g = c.rng; double S = g.u(20, 200), K = g.u(20, 200), sig = g.u(0, 0.8), r = randRate(g), T = randT(g); Opt cp = randCoupon(g); bool call = g.chance(0.5); put("P27", S, sig, r, cp); auto o = euro("P27", call, K, T);
        c.desc("%s K=%.17g sigma=%.17g r=%.17g c=%.17g T=%.17g", call ? "call" : "put", K, sig, r, cp.value_or(0), T); BlackScholesPDE p(o, md());
        for (int k = 0; k < 2; ++k) {
            double t = g.u(0, T), x = g.u(0, 500), q = cp.value_or(0), X = 1000;
            c.close(p.diffusion(t, x), 0.5 * sig * sig * x * x, 1e-12, 1e-12, "diffusion"); c.close(p.convection(t, x), (r - q) * x, 1e-12, x, "convection"); c.close(p.reaction(t, x), -r, 1e-12, 1, "reaction"); c.close(p.rightHandSide(t, x), 0, 1e-12, 1, "source");
            c.close(p.initialCondition(x), (double)contract(Kind::European, call, K, 0, x), 1e-12, K, "initial condition at %.17g", x);
            c.close(p.boundaryLeft(t, 0), call ? 0 : K * std::exp(-r * t), 1e-12, K, "left boundary at time to maturity %.17g", t); c.close(p.boundaryRight(t, X), call ? X * std::exp(-q * t) - K * std::exp(-r * t) : 0, 1e-12, X, "right boundary at time to maturity %.17g", t);
            sig = g.u(0, 0.8); r = randRate(g); md()->setR(r); md()->updateStockSigma("P27", sig); if (g.chance(0.5)) { cp = g.u(0, 0.2); md()->updateStockCoupon("P27", *cp); }
        }
    });
    run("black-scholes", (uint64_t)cases, [](Case& c) {
        auto& g = c.rng; int s = (int)(c.index % 3); bool call = g.chance(0.5); int mat = s == EXPL ? 0 : (int)g.below(4), inter = (int)g.below(3);
        double K = g.chance(0.3) ? 100 : g.u(20, 300), sig = g.u(0.12, 0.6), r = g.chance(0.2) ? g.pickd({0.0, 0.05, 0.15, -0.02}) : g.u(-0.02, 0.15), T = g.chance(0.3) ? g.pickd({1.0, 0.25, 2.0}) : g.u(0.15, 3); T = std::min(T, 0.25 / (sig * sig)); Opt cp; if (g.chance(0.6)) cp = g.chance(0.3) ? g.pickd({0.0, 0.1, 0.03}) : g.u(0, 0.12); double q = cp.value_or(0);
        double sd = sig * std::sqrt(T), X = K * std::max(2.5, std::exp(4.5 * sd + std::max(0.0, -(r - q)) * T + 0.2)); X *= g.u(1, 1.1);
        unsigned long J = (unsigned long)std::min(500.0, std::max(40.0, X / (K * sd * g.u(0.05, 0.2)))) + 1; double dx = X / (J - 1); unsigned long N;
        if (s == EXPL) { N = (unsigned long)(T * (sig * sig * (double)J * J + std::fabs(r) + 1) * 1.05) + 2; if (N > 40000) { J = 160; dx = X / (J - 1); N = (unsigned long)(T * (sig * sig * (double)J * J + std::fabs(r) + 1) * 1.05) + 2; } }
        else { unsigned long lim = mat == 2 ? 60 : 250; N = (unsigned long)g.range(40, 250); if (N > lim) N = lim; if (mat == 2) { J = std::min(J, 160ul); dx = X / (J - 1); } }
        double dt = T / (N - 1), u = dx / (K * sd);
        put("B27", K, sig, r, cp); auto o = euro("B27", call, K, T);
        c.desc("%s %s %s %s K=%.17g sigma=%.17g r=%.17g c=%.17g T=%.17g X=%.17g J=%lu N=%lu", sname(s), call ? "call" : "put", mname(mat), iname(inter), K, sig, r, q, T, X, J, N);
        auto f = mkFdm(s, X, J, T, N, std::make_unique<BlackScholesPDE>(o, md()), o, md(), inter, mat);
        double D = std::exp(-r * T), sc = std::max(K, K * std::exp(-q * T));
        // discretisation error: quadratic in the grid step relative to the width of the payoff smoothing, first (Crank-Nicolson: mixed) order in the time step
        double tolSpace = K * sd * 0.2 * u * u, tolTime = s == CN ? K * sd * 3.0 * (dt / T) * (dt / T) + K * sd * 0.02 * dt / T * std::min(1.0, dt * sig * sig * K * K / (dx * dx)) : K * (sd * 0.25 + 0.4 * (std::fabs(r) + q) * T * (1 + (std::fabs(r) + q) * T)) * dt / T;
        double tol = tolSpace + tolTime + 2e-5 * K;
        for (int k = 0; k < 9; ++k) {
            double z = k == 0 ? 0 : g.u(-2.5, 2.5), S = K * std::exp(z * sd); if (S >= 0.7 * X) S = 0.7 * X; if (k == 8) S = std::floor(S / dx) * dx + (S < dx ? dx : 0);
            md()->updateStockPrice("B27", S); double got = f->calculatePrice(), want = bsPrice(call, S, K, r, q, sig, T), e = std::fabs(got - want); maxi(std::string("error/tolerance ") + sname(s), e / tol); maxi(std::string("error/strike ") + sname(s), e / K);
            c.expect(e <= tol, "price %.9g at spot %.9g, Black-Scholes %.9g, error %.3g (tolerance %.3g)", got, S, want, e, tol); if (mon::st().violations.size() > 6) return;
        }
        auto v = f->solve(); if (!c.expect(v.size() == J, "%zu grid values for %lu nodes", v.size(), J)) return;
        c.close(v.front(), call ? 0 : K * D, 1e-9, K, "left end of the grid"); c.close(v.back(), call ? X * std::exp(-q * T) - K * D : 0, 1e-9, X, "right end of the grid");
        // next to and beyond the ends of the grid the price is the solution there
        for (int k = 0; k < 4; ++k) { bool up = k < 2; double w = g.u(), S = up ? X - dx * (1 - w) : dx * w; if (S <= 0) continue; double a = up ? v[J - 2] : v[0], b = up ? v[J - 1] : v[1]; md()->updateStockPrice("B27", S); c.close(f->calculatePrice(), a + w * (b - a), 1e-8, X, "price at spot %.17g, next to the end of the grid", S); }
        for (double S : {X * (1 - 0.02 * g.u()), X * g.u(0.7, 1)}) { md()->updateStockPrice("B27", S); unsigned long j = std::min<unsigned long>(J - 2, (unsigned long)(S / dx)); double lo = std::min(v[j], v[j + 1]), hi = std::max(v[j], v[j + 1]), w = hi - lo + 1e-3 * dx, p = f->calculatePrice(); c.expect(p >= lo - w && p <= hi + w, "price %.9g at spot %.9g, the solution is %.9g and %.9g at the neighbouring nodes", p, S, v[j], v[j + 1]); }
        md()->updateStockPrice("B27", X * g.u(1, 3)); c.close(f->calculatePrice(), v[J - 1], 1e-9, X, "price above the grid"); count("spots near the ends of the grid", 7);
        // parity on the grid
        auto o2 = euro("B27", !call, K, T); auto f2 = mkFdm(s, X, J, T, N, std::make_unique<BlackScholesPDE>(o2, md()), o2, md(), inter, mat); auto w = f2->solve();
        double worst = 0; for (unsigned long j = 0; j < J; ++j) { double x = dx * j, par = x * std::exp(-q * T) - K * D, dif = call ? v[j] - w[j] : w[j] - v[j], tp = (K * r * r + x * q * q) * T * dt * std::exp(std::max(0.0, -r) * T) + 1e-7 * (x + K); worst = std::max(worst, std::fabs(dif - par) / tp); }
        maxi("parity error/tolerance", worst); c.expect(worst <= 1.5, "call minus put on the grid differs from S exp(-cT) - K exp(-rT) by %.3g tolerances", worst);
        count(std::string("priced ") + sname(s)); count(std::string("with ") + mname(mat)); count(std::string("with ") + iname(inter)); (void)sc;
    }, 8);
    // all combinations on one problem agree with each other
    run("agreement", std::max(2, cases / 20), [](Case& c) {
        auto& g = c.rng; double K = 100, sig = g.u(0.2, 0.5), r = g.u(0, 0.1), T = g.u(0.3, 1.5); bool call = g.chance(0.5); double X = 100 * std::exp(5 * sig * std::sqrt(T)); unsigned long J = 60, N = 60; put("A27", 100, sig, r, g.u(0, 0.08)); auto o = euro("A27", call, K, T);
        c.desc("%s sigma=%.17g r=%.17g T=%.17g", call ? "call" : "put", sig, r, T); double S = K * g.u(0.7, 1.4); md()->updateStockPrice("A27", S);
        for (int s : {IMPL, CN}) for (int inter : {1, 2}) { double ref = 0; for (int mat = 0; mat < 4; ++mat) { auto f = mkFdm(s, X, J, T, N, std::make_unique<BlackScholesPDE>(o, md()), o, md(), inter, mat); double p = f->calculatePrice(); if (!mat) ref = p; else c.close(p, ref, 1e-9, K, "%s with %s and %s interpolation", sname(s), mname(mat), iname(inter)); } }
    });
}

int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C28", c28}, {"C27", [] { c27(12); }}, {"C27main", [] { c27(150); }}}); }
