// Monitors for the numerical building blocks: C23 matrix solvers, C24 interpolation,
// C25 basis functions, C26 regressions.
#include "common.h"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
namespace OptionPricer { class Option; }
extern "C" void optionPricerMonitorUpdate(const OptionPricer::Option*) {}
using namespace OptionPricer;
using mon::Case; using mon::Rng; using mon::fmt; using mon::count; using mon::maxi; using mon::run;
using LD = long double; using V = Eigen::VectorXd; using M = Eigen::MatrixXd; using SM = Eigen::SparseMatrix<double>;

// ---------------------------------------------------------------- C23
static std::vector<std::pair<const char*, std::shared_ptr<MatrixSolver>>> solvers() {
    static std::vector<std::pair<const char*, std::shared_ptr<MatrixSolver>>> s{{"sparse LU", std::make_shared<LUDecompositionSolver>()}, {"partial pivoting LU", std::make_shared<PartialPivotingLUSolver>()}, {"Thomas", std::make_shared<ThomasAlgorithm>()}};
    return s;
}
static double val(Rng& g) { switch (g.below(6)) { case 0: return g.pickd({1.0, -1.0, 2.0, 0.5}); case 1: return g.normal() * g.logu(1e-4, 1e4); default: return g.normal(); } }
static SM sparse(const M& d, Rng& g, bool keepZeros) {
    SM a(d.rows(), d.cols());
    if (g.chance(0.5)) {   // built by insertion, left uncompressed or not
        for (int j = 0; j < d.cols(); ++j) for (int i = 0; i < d.rows(); ++i) if (d(i, j) != 0 || keepZeros) a.insert(i, j) = d(i, j);
        if (g.chance(0.5)) a.makeCompressed();
    } else {
        std::vector<Eigen::Triplet<double>> t; for (int j = 0; j < d.cols(); ++j) for (int i = 0; i < d.rows(); ++i) if (d(i, j) != 0 || (keepZeros && g.chance(0.2))) t.emplace_back(i, j, d(i, j));
        for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[g.below(i)]);
        a.setFromTriplets(t.begin(), t.end());
    }
    return a;
}
static double residual(const M& A, const V& x, const V& b) {
    double worst = 0;
    for (int i = 0; i < A.rows(); ++i) { LD s = -(LD)b(i), sc = std::fabs((LD)b(i)); for (int j = 0; j < A.cols(); ++j) { LD t = (LD)A(i, j) * x(j); s += t; } (void)sc; worst = std::max(worst, (double)std::fabs(s)); if (!std::isfinite((double)s)) return INFINITY; }
    return worst;
}
static void solveAll(Case& c, const M& d, const SM& A, const V& b, bool tri) {
    M before = M(A); V bb = b; V first;
    double nA = d.cwiseAbs().rowwise().sum().maxCoeff(), cond = -1;
    for (auto& [name, s] : solvers()) {
        if (!tri && std::string(name) == "Thomas") continue;
        V x = s->solve(A, b);
        c.expect(x.size() == d.rows(), "%s returned %d values", name, (int)x.size()); if (x.size() != d.rows()) return;
        double tol = 1e-12 * d.rows() * (nA * x.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff()) + 1e-300, r = residual(d, x, b);
        maxi(std::string("relative residual ") + name, r / tol * 1e-12);
        c.expect(r <= tol, "%s leaves a residual of %.3g (tolerance %.3g)", name, r, tol);
        c.expect((M(A) - before).cwiseAbs().sum() == 0 && b == bb, "%s modified its input", name);
        V again = s->solve(A, b); c.expect((again - x).cwiseAbs().maxCoeff() <= 1e-12 * x.cwiseAbs().maxCoeff() + 1e-300, "%s returned another solution the second time", name);
        if (!first.size()) first = x;
        else {
            if (cond < 0) { Eigen::JacobiSVD<M> svd(d); auto sv = svd.singularValues(); cond = sv(sv.size() - 1) > 0 ? sv(0) / sv(sv.size() - 1) : INFINITY; }
            if (cond < 1e10) c.expect((x - first).norm() <= 1e-13 * d.rows() * cond * first.norm() * 10 + 1e-300, "%s differs from the other solvers by %.3g (condition %.2g)", name, (x - first).norm() / first.norm(), cond);
        }
        count(std::string("solves ") + name);
    }
}
// the size of a system, or of its right hand side, carries no meaning
static void rescale(Case& c, M& d, V& b) {
    auto& g = c.rng; double f = g.chance(0.4) ? 1 : g.logu(1e-14, 1e12), h = g.chance(0.6) ? f : g.logu(1e-14, 1e12);
    d *= f; b *= h; c.desc("scaled by %.17g and %.17g", f, h);
}
static void c23() {
    run("general", 500, [](Case& c) {
        auto& g = c.rng; int n = g.chance(0.2) ? g.range(1, 3) : g.range(2, 40); double dens = g.u(0.05, 1);
        M d = M::Zero(n, n);
        std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[g.below(i)]);
        for (int i = 0; i < n; ++i) { d(i, perm[i]) = val(g) + (g.chance(0.5) ? 3 : 0.1); for (int j = 0; j < n; ++j) if (g.chance(dens)) d(i, j) += val(g); }
        if (g.chance(0.3)) { for (int i = 0; i < n; ++i) d(i, i) = 0; for (int i = 0; i < n; ++i) if (i + 1 < n) { d(i, i + 1) += 2; } if (n > 1) d(n - 1, 0) += 2; }   // zero diagonal: needs pivoting
        if (g.chance(0.3)) for (int i = 0; i < n; ++i) d.row(i) *= g.logu(1e-5, 1e5);
        Eigen::FullPivLU<M> lu(d); Eigen::JacobiSVD<M> svd(d); double cond = svd.singularValues()(0) / svd.singularValues()(n - 1);
        c.desc("n=%d density=%.2f A00=%.17g cond=%.2g", n, dens, d(0, 0), cond);
        if (!(cond < 1e12)) { c.trivial = true; return; }
        V b(n); for (int i = 0; i < n; ++i) b(i) = val(g); if (g.chance(0.1)) b.setZero();
        rescale(c, d, b);
        solveAll(c, d, sparse(d, g, g.chance(0.3)), b, false);
    });
    run("tridiagonal", 700, [](Case& c) {
        auto& g = c.rng; int n = g.chance(0.3) ? g.range(2, 4) : g.chance(0.9) ? g.range(2, 60) : g.range(100, 200); bool cols = g.chance(0.3), zeros = g.chance(0.3);
        M d = M::Zero(n, n); double slack = g.chance(0.3) ? 1e-3 : 1;
        for (int i = 0; i < n; ++i) { if (i) d(i, i - 1) = zeros && g.chance(0.4) ? 0 : val(g); if (i + 1 < n) d(i, i + 1) = zeros && g.chance(0.4) ? 0 : val(g); }
        for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += cols ? std::fabs(d(j, i)) : std::fabs(d(i, j)); d(i, i) = (g.chance(0.5) ? 1 : -1) * (s * (1 + slack * g.u()) + 1e-3 + g.u()); }
        if (!cols && g.chance(0.4)) for (int i = 0; i < n; ++i) d.row(i) *= g.logu(1e-4, 1e4);
        c.desc("n=%d %s dominant slack=%g A00=%.17g", n, cols ? "column" : "row", slack, d(0, 0));
        V b(n); for (int i = 0; i < n; ++i) b(i) = val(g);
        rescale(c, d, b);
        solveAll(c, d, sparse(d, g, false), b, true);
    });
    // what the finite difference schemes assemble: I + identity boundary rows
    run("parabolic", 120, [](Case& c) {
        auto& g = c.rng; int n = g.range(2, 120); double a = g.logu(1e-4, 1e3), m = g.u(-1, 1) * a; M d = M::Identity(n, n);
        for (int i = 1; i + 1 < n; ++i) { d(i, i - 1) = -a + m * 0.9; d(i, i + 1) = -a - m * 0.9; d(i, i) = 1 + 2 * a; }
        c.desc("n=%d a=%.17g m=%.17g", n, a, m); V b(n); for (int i = 0; i < n; ++i) b(i) = g.u(0, 100);
        rescale(c, d, b);
        solveAll(c, d, sparse(d, g, false), b, true);
    });
    // one matrix and one right hand side object, changed in place between solves
    run("reused", 160, [](Case& c) {
        auto& g = c.rng; int n = g.range(2, 24); bool tri = g.chance(0.6); M d = M::Zero(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && (tri ? std::abs(i - j) == 1 : g.chance(0.4))) d(i, j) = val(g);
        for (int i = 0; i < n; ++i) { d(i, i) = 0; double s = std::max(d.row(i).cwiseAbs().sum(), d.col(i).cwiseAbs().sum()); d(i, i) = (g.chance(0.5) ? 1 : -1) * (s * (1 + g.u()) + 0.1 + g.u()); }
        V b(n); for (int i = 0; i < n; ++i) b(i) = val(g);
        c.desc("n=%d %s A00=%.17g", n, tri ? "tridiagonal" : "general", d(0, 0));
        SM A = sparse(d, g, false); A.makeCompressed();
        for (int step = 0; step < 6; ++step) {
            solveAll(c, d, A, b, tri); count("solves of a changed matrix");
            if (mon::st().violations.size()) return;
            switch (g.below(7)) {
                case 0: d = M(d.transpose()); break;
                case 1: { M r = d.reverse(); d = r; break; }                                    // same entries elsewhere
                case 2: { int i = (int)g.below(n), j = (int)g.below(n); std::swap(d(i, i), d(j, j)); if (std::fabs(d(i, i)) < d.row(i).cwiseAbs().sum() - std::fabs(d(i, i)) || std::fabs(d(j, j)) < d.row(j).cwiseAbs().sum() - std::fabs(d(j, j))) std::swap(d(i, i), d(j, j)); break; }
                case 3: d = -d; break;
                case 4: d *= g.logu(1e-3, 1e3); break;
                case 5: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && g.chance(0.3)) d(i, j) = -d(i, j); break;
                default: for (int i = 0; i < n; ++i) b(i) = val(g);
            }
            // the same object: values overwritten in place where the pattern allows it
            bool place = (M(A).array() != 0).matrix() == (d.array() != 0).matrix();
            if (place) { for (int j = 0; j < n; ++j) for (SM::InnerIterator it(A, j); it; ++it) it.valueRef() = d(it.row(), it.col()); } else { A = sparse(d, g, false); A.makeCompressed(); }
        }
    });
    // long systems, as fine space grids produce them
    run("long", 12, [](Case& c) {
        auto& g = c.rng; int n = g.range(300, 3000); double a = g.logu(1e-3, 1e4), m = g.u(-1, 1) * a, f = g.chance(0.5) ? 1 : g.logu(1e-12, 1e9); SM A(n, n); std::vector<Eigen::Triplet<double>> t;
        for (int i = 0; i < n; ++i) { bool in = i > 0 && i + 1 < n; double w = f * g.u(0.9, 1.1); t.emplace_back(i, i, in ? w * (1 + 2 * a) : w); if (in) { t.emplace_back(i, i - 1, w * (-a + m * 0.9)); t.emplace_back(i, i + 1, w * (-a - m * 0.9)); } }
        A.setFromTriplets(t.begin(), t.end()); V b(n); for (int i = 0; i < n; ++i) b(i) = f * g.u(-1, 100); c.desc("n=%d a=%.17g m=%.17g f=%.17g", n, a, m, f);
        for (int k : {0, 2}) { auto [name, s] = solvers()[k]; V x = s->solve(A, b); if (!c.expect(x.size() == n && x.allFinite(), "%s gives %d values, finite %d", name, (int)x.size(), (int)x.allFinite())) continue;
            V r = A * x - b; double tol = 1e-12 * (f * 1.1 * (1 + 4 * a) * x.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff()); maxi(std::string("relative residual long ") + name, r.cwiseAbs().maxCoeff() / tol * 1e-12);
            c.expect(r.cwiseAbs().maxCoeff() <= tol, "%s leaves a residual of %.3g (tolerance %.3g) in a system of %d", name, r.cwiseAbs().maxCoeff(), tol, n); count("long systems"); }
    });
    // large systems without structure: only solvable with pivoting
    run("large", 4, [](Case& c) {
        auto& g = c.rng; int n = g.range(260, 520); SM A(n, n); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[g.below(i)]);
        std::vector<Eigen::Triplet<double>> t; double f = g.chance(0.5) ? 1 : g.logu(1e-9, 1e9); M d = M::Zero(n, n);
        for (int i = 0; i < n; ++i) { double w = 0; for (int k = 0; k < 4; ++k) { int j = (int)g.below(n); if (j == perm[i] || d(i, j) != 0) continue; d(i, j) = f * g.normal(); w += std::fabs(d(i, j)); } d(i, perm[i]) = (g.chance(0.5) ? 1 : -1) * (w * g.u(1.1, 2) + f * 0.1); }
        V b(n); for (int i = 0; i < n; ++i) b(i) = f * g.normal(); c.desc("n=%d f=%.17g", n, f); A = d.sparseView();
        for (int k : {0, 1}) { auto [name, s] = solvers()[k]; V x = s->solve(A, b); if (!c.expect(x.size() == n && x.allFinite(), "%s gives %d values, finite %d", name, (int)x.size(), (int)x.allFinite())) continue;
            double tol = 1e-12 * n * (d.cwiseAbs().rowwise().sum().maxCoeff() * x.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff()), r = residual(d, x, b); maxi(std::string("relative residual large ") + name, r / tol * 1e-12);
            c.expect(r <= tol, "%s leaves a residual of %.3g (tolerance %.3g) in a system of %d", name, r, tol, n); count("large systems"); }
    });
    run("singular", 200, [](Case& c) {
        auto& g = c.rng; int n = g.range(1, 25), kind = (int)g.below(3), k = (int)g.below(n); M d = M::Zero(n, n);
        for (int i = 0; i < n; ++i) { d(i, i) = g.picki({1, 2, 4}); for (int j = 0; j < i; ++j) if (g.chance(0.3)) d(i, j) = g.picki({1, 2, -1, 4}); }   // lower triangular, powers of two: exact elimination
        if (kind == 0) d.row(k).setZero(); else if (kind == 1) d.col(k).setZero(); else { if (n < 2) { d(0, 0) = 0; } else { int j = (k + 1) % n; d.row(j) = d.row(k) * 2; d.setZero(); for (int i = 0; i < n; ++i) d(i, i) = 1; d(k, j) = 2; d(j, k) = 2; d(k, k) = 1; d(j, j) = 4; } }
        c.desc("n=%d kind=%d k=%d", n, kind, k); V b = V::Ones(n);
        c.throws<std::runtime_error>([&] { (void)solvers()[0].second->solve(sparse(d, g, false), b); }, "the sparse LU solver accepts a singular matrix");
    });
    run("small-thomas", 20, [](Case& c) {
        int n = (int)(c.index % 2); c.desc("n=%d #%d", n, (int)c.index); SM A(n, n); if (n) A.insert(0, 0) = 1 + (int)c.index; V b = V::Ones(n);
        c.throws<std::invalid_argument>([&] { (void)solvers()[2].second->solve(A, b); }, "Thomas accepts size %d", n);
    });
}

// ---------------------------------------------------------------- C24
static std::vector<double> grid(Rng& g, int n) {
    std::vector<double> x(n); double h = g.logu(1e-3, 50), s = g.chance(0.4) ? 0 : g.u(-100, 100); bool uni = g.chance(0.4);
    int shape = g.chance(0.25) ? g.range(1, 3) : 0;   // much finer at one end
    for (int i = 0; i < n; ++i) { x[i] = s; s += shape == 1 ? h / std::sqrt(1.0 + i) : shape == 2 ? h * (1 + i) : shape == 3 ? h * std::exp(std::min(i, n / 2) * 8.0 / n) : uni ? h : h * g.logu(0.05, 5); }
    if (shape && g.chance(0.5)) { std::vector<double> y(x.rbegin(), x.rend()); for (int i = 0; i < n; ++i) x[i] = -y[i]; }
    return x;
}
static void c24() {
    LinearInterpolation lin; QuadraticInterpolation qua;
    auto body = [&](Case& c, bool quad) {
        auto& g = c.rng; const Interpolation& I = quad ? (const Interpolation&)qua : (const Interpolation&)lin;
        int n = g.chance(0.4) ? g.range(2, 6) : g.chance(0.05) ? g.range(201, 3000) : g.range(2, 200); auto x = grid(g, n); std::vector<double> y(n);
        int shape = (int)g.below(3); double a = g.u(-5, 5), b = g.u(-3, 3), q = g.u(-2, 2); double mid = x[n / 2], span = x[n - 1] - x[0];
        auto f = [&](double t) -> LD { LD u = ((LD)t - mid) / span; return shape == 0 ? (LD)0 : shape == 1 ? a + b * u : a + b * u + q * u * u; };
        for (int i = 0; i < n; ++i) y[i] = shape == 0 ? g.normal() * 10 : (double)f(x[i]);
        c.desc("n=%d shape=%d x0=%.17g x1=%.17g y0=%.17g", n, shape, x[0], x[1], y[0]);
        double ys = 1e-3; for (double v : y) ys = std::max(ys, std::fabs(v));
        auto xs = x, yc = y;
        // nodes and the outside
        for (int i = 0; i < n; ++i) if (n < 40 || g.chance(0.2) || i < 3 || i > n - 4) { double v = I.interpolate(x, y, x[i]); c.close(v, y[i], 1e-12, ys, "value at node %d of %d", i, n); }
        for (double t : {x[0] - 1e-9, x[0] - span, -1e300}) c.close(I.interpolate(x, y, t), y[0], 1e-15, ys, "value %g below the grid", t);
        for (double t : {x[n - 1] + span, 1e300, std::nextafter(x[n - 1], 1e308)}) c.close(I.interpolate(x, y, t), y[n - 1], 1e-15, ys, "value %g above the grid", t);
        // between nodes
        for (int rep = 0; rep < 60; ++rep) {
            int i = g.chance(0.2) ? g.picki({0, n - 2}) : g.chance(0.3) ? std::min(n - 2, g.range(0, 2)) : (int)g.below(n - 1); double w = x[i + 1] - x[i], t;
            switch (g.below(5)) { case 0: t = std::nextafter(x[i], 1e308); break; case 1: t = std::nextafter(x[i + 1], -1e308); break; case 2: t = x[i] + w * g.logu(1e-9, 1e-2); break; default: t = x[i] + w * g.u(); }
            if (!(t > x[i] && t < x[i + 1])) continue;
            double v = I.interpolate(x, y, t); LD seg = y[i] + ((LD)y[i + 1] - y[i]) * (((LD)t - x[i]) / ((LD)x[i + 1] - x[i]));
            bool edge = i == 0 || i == n - 2; double tol = 1e-10; if (quad && !edge) { double r = std::max(w / (x[i] - x[i - 1]), (x[i] - x[i - 1]) / w); tol *= 1 + r * r; }
            if (!quad || edge || shape == 1) c.close(v, (double)seg, tol, ys, "%s interpolation at %.17g in interval %d of %d", quad ? "quadratic" : "linear", t, i, n - 1);
            else if (shape == 2) c.close(v, (double)f(t), tol, ys, "quadratic interpolation of a quadratic at %.17g in interval %d of %d", t, i, n - 1);
            else c.expect(std::isfinite(v), "not finite at %.17g", t);
            count(edge ? "points in end intervals" : "points in inner intervals");
        }
        c.expect(x == xs && y == yc, "the grid was modified");
    };
    run("linear", 700, [&](Case& c) { body(c, false); });
    run("quadratic", 900, [&](Case& c) { body(c, true); });
}

// ---------------------------------------------------------------- C25
static LD binom(int n, int k) { LD r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static LD factl(int n) { LD r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
// value and sum of absolute terms of the degree n polynomial
static std::pair<LD, LD> poly(int fam, int n, LD x) {
    LD s = 0, a = 0; auto add = [&](LD t) { s += t; a += std::fabs(t); };
    auto pw = [&](int k) { LD r = 1; for (int i = 0; i < k; ++i) r *= x; return r; };
    if (fam == 0) add(pw(n));
    else if (fam == 1) for (int k = 0; k <= n; ++k) add((k % 2 ? -1 : 1) * binom(n, k) / factl(k) * pw(k));
    else if (fam == 2) for (int k = 0; 2 * k <= n; ++k) add((k % 2 ? -1 : 1) * binom(n, k) * binom(2 * n - 2 * k, n) * std::pow(2.0L, -n) * pw(n - 2 * k));
    else if (n == 0) add(1);
    else for (int k = 0; 2 * k <= n; ++k) add((k % 2 ? -1 : 1) * (LD)n / 2 * factl(n - k - 1) / factl(k) / factl(n - 2 * k) * std::pow(2.0L, n - 2 * k) * pw(n - 2 * k));
    return {s, a};
}
static void c25() {
    static const char* fn[] = {"monomial", "Laguerre", "Legendre", "Chebyshev"};
    auto mkb = [](int f, unsigned n) -> std::shared_ptr<BasisFunction> { switch (f) { case 0: return std::make_shared<MonomialBasisFunction>(n); case 1: return std::make_shared<LaguerreBasisFunction>(n); case 2: return std::make_shared<LegendreBasisFunction>(n); default: return std::make_shared<ChebyshevBasisFunction>(n); } };
    run("polynomials", 1600, [&](Case& c) {
        auto& g = c.rng; int f = (int)g.below(4), n = g.chance(0.3) ? g.range(1, 3) : g.range(1, 14), m = g.chance(0.15) ? g.range(0, 1) : g.range(1, 40); V x(m);
        double scale = g.chance(0.4) ? 1 : g.logu(0.01, 200);
        for (int i = 0; i < m; ++i) x(i) = g.chance(0.15) ? g.pickd({0.0, 1.0, -1.0, 0.5, 100.0, 2.0}) : g.u(-1, 1) * scale;
        if (g.chance(0.2) && m) x.setConstant(x(0));
        c.desc("%s n=%d m=%d x0=%.17g", fn[f], n, m, m ? x(0) : 0.0);
        auto b = mkb(f, (unsigned)n); V xc = x; M G = b->generate(x);
        if (!c.expect(G.rows() == m && G.cols() == n, "matrix is %dx%d instead of %dx%d", (int)G.rows(), (int)G.cols(), m, n)) return;
        for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k) { auto [v, a] = poly(f, k, x(i)); c.close(G(i, k), (double)v, 1e-11, (double)a, "%s of degree %d at %.17g", fn[f], k, x(i)); }
        c.expect(x == xc, "the argument was modified");
        if (m) {   // rows depend on their own entry only
            V r = x.reverse(); M H = b->generate(r); bool ok = H.rows() == m && H.cols() == n;
            for (int i = 0; ok && i < m; ++i) for (int k = 0; k < n; ++k) ok &= std::fabs(H(m - 1 - i, k) - G(i, k)) <= 1e-12 * std::fabs(G(i, k)) + 1e-12 * (double)poly(f, k, x(i)).second;
            c.expect(ok, "rows change when the entries are reordered");
            int i = (int)g.below(m); V one(1); one << x(i); M S = b->generate(one); ok = S.rows() == 1 && S.cols() == n; for (int k = 0; ok && k < n; ++k) ok &= std::fabs(S(0, k) - G(i, k)) <= 1e-12 * (double)poly(f, k, x(i)).second + 1e-300; c.expect(ok, "row %d differs from the row of its entry alone", i);
            auto b2 = mkb(f, (unsigned)n + 2); M G2 = b2->generate(x); ok = G2.cols() == n + 2; for (int j = 0; ok && j < m; ++j) for (int k = 0; k < n; ++k) ok &= std::fabs(G2(j, k) - G(j, k)) <= 1e-12 * (double)poly(f, k, x(j)).second + 1e-300; c.expect(ok, "the lower degrees depend on the number of basis functions");
        }
        count(std::string("generated ") + fn[f]);
    });
    run("reject", 8, [&](Case& c) { int f = (int)(c.index % 4); c.desc("%s #%d", fn[f], (int)c.index); c.throws<std::invalid_argument>([&] { mkb(f, 0); }, "zero %s basis functions", fn[f]); });
}

// ---------------------------------------------------------------- C26
static M design(Rng& g, int m, int n, int kind) {
    M A(m, n);
    if (kind == 0) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = g.normal();
    else if (kind == 1) { double s = g.logu(0.5, 120); for (int i = 0; i < m; ++i) { double x = s * (1 + 0.3 * g.normal()), p = 1; for (int j = 0; j < n; ++j) { A(i, j) = p; p *= x; } } }   // monomials of prices
    else if (kind == 2) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = g.normal() * std::pow(10.0, j % 4); }
    else if (kind == 3) { int k = (int)g.below(n); double v = g.chance(0.6) ? 1 : g.u(-3, 3); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = j == k ? v : g.normal(); if (g.chance(0.6)) A.col(0).setOnes(); }   // with an intercept
    else { for (int i = 0; i < m; ++i) { double x = g.u(-1.5, 1.5), p = 1; for (int j = 0; j < n; ++j) { A(i, j) = p; p *= x; } } }   // monomials of moderate numbers
    if (g.chance(0.2)) A *= g.logu(1e-6, 1e4);
    return A;
}
static void c26() {
    LeastSquaresRegression ls;
    run("least-squares", 900, [&](Case& c) {
        auto& g = c.rng; bool wide = g.chance(0.08); int n = wide ? g.range(7, 24) : g.range(1, 6), m = g.chance(0.15) ? g.range(1, n) : n + (g.chance(0.04) ? g.range(300, 3000) : g.range(0, 60)), kind = wide ? 3 * (int)g.below(2) : (int)g.below(5); M A = design(g, m, n, kind); V y(m);
        bool dup = g.chance(0.15) && n > 1, zero = g.chance(0.1); int zc = (int)g.below(n);
        if (dup) A.col(n - 1) = A.col(0); if (zero) A.col(zc).setZero();
        V beta(n); for (int i = 0; i < n; ++i) beta(i) = g.normal();
        for (int i = 0; i < m; ++i) y(i) = A.row(i).dot(beta) + (g.chance(0.8) ? g.normal() * g.logu(1e-3, 10) : 0);
        if (g.chance(0.05)) y.setZero();
        c.desc("%dx%d kind=%d%s%s A00=%.17g y0=%.17g", m, n, kind, dup ? " duplicated" : "", zero ? " zero column" : "", A(0, 0), y(0));
        M Ac = A; V yc = y; V x = ls.solve(A, y); if (!c.expect(x.size() == n, "returned %d coefficients", (int)x.size())) return;
        V r = y - A * x; double sc = 0; // residual is orthogonal to every column
        double ra = r.norm(), base = y.norm() + A.norm() * x.norm();
        for (int j = 0; j < n; ++j) { double gr = std::fabs(A.col(j).dot(r)), tol = 1e-11 * (A.col(j).norm() + 1e-300) * base + 1e-300; maxi("least squares gradient", gr / (tol * 1e11)); c.expect(gr <= tol, "the residual is not orthogonal to column %d: %.3g (tolerance %.3g)", j, gr, tol); }
        (void)sc; (void)ra;
        if (zero && kind == 0 && m >= n) c.expect(std::fabs(x(zc)) <= 1e-10 * (1e-3 + x.norm()), "coefficient of a zero column is %.3g", x(zc));
        if (m < n && kind == 0 && !dup) { // smallest norm: x in the row space
            V w = (A * A.transpose()).ldlt().solve(A * x); double e = (x - A.transpose() * w).norm(); if (!zero) { Eigen::JacobiSVD<M> s(A); double cn = s.singularValues()(0) / s.singularValues()(m - 1); if (cn < 1e3) c.expect(e <= 1e-8 * x.norm() + 1e-300, "underdetermined solution is not of smallest norm: %.3g of %.3g", e, x.norm()); }
            count("underdetermined");
        }
        c.expect(A == Ac && y == yc, "inputs modified");
        count("least squares");
    });
    run("min-norm", 120, [&](Case& c) {   // exactly dependent columns
        auto& g = c.rng; int m = g.range(2, 40); M A(m, 2); for (int i = 0; i < m; ++i) { A(i, 0) = g.picki({1, 2, -1, 4}); A(i, 1) = A(i, 0); } V y(m); for (int i = 0; i < m; ++i) y(i) = g.normal();
        c.desc("m=%d y0=%.17g", m, y(0)); V x = ls.solve(A, y); double b = A.col(0).dot(y) / A.col(0).squaredNorm();
        c.close(x(0), b / 2, 1e-9, std::fabs(b) + y.norm() / A.norm(), "first of two equal columns"); c.close(x(1), b / 2, 1e-9, std::fabs(b) + y.norm() / A.norm(), "second of two equal columns");
    });
    // designs of exactly known rank: the solution of smallest norm lies in the span of the rows of W
    run("rank", 200, [&](Case& c) {
        auto& g = c.rng; int n = g.range(2, 5), k = g.range(1, n - 1), m = g.chance(0.4) ? g.range(n, 40) : g.chance(0.6) ? g.range(41, 400) : g.range(401, 2000); M L(m, k), W(k, n); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) L(i, j) = g.range(-4, 4); for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) W(i, j) = g.range(-2, 2);
        if (Eigen::FullPivLU<M>(W).rank() < k || Eigen::FullPivLU<M>(L).rank() < k) { c.trivial = true; return; }
        M A = L * W; V y(m); for (int i = 0; i < m; ++i) y(i) = g.normal(); c.desc("%dx%d of rank %d y0=%.17g", m, n, k, y(0)); V x = ls.solve(A, y); if (!c.expect(x.size() == n, "returned %d coefficients", (int)x.size())) return;
        V p = W.transpose() * (W * W.transpose()).ldlt().solve(W * x), r = y - A * x; double sc = x.norm() + y.norm() / A.norm(); maxi("part of the solution outside the row space", (x - p).norm() / sc); c.expect((x - p).norm() <= 1e-9 * sc, "not the solution of smallest norm: %.3g of %.3g is superfluous", (x - p).norm(), x.norm());
        c.expect((L.transpose() * r).norm() <= 1e-10 * L.norm() * y.norm(), "the residual is not orthogonal to the columns"); count("rank deficient designs");
    });
    // systems that have an exact solution: found to the accuracy the conditioning allows
    run("consistent", 300, [&](Case& c) {
        auto& g = c.rng; int n = g.range(2, 5), m = g.chance(0.5) ? n + g.range(0, 60) : g.range(80, 1500); M A = design(g, m, n, g.chance(0.6) ? 1 : (int)g.below(5)); V b(n); for (int i = 0; i < n; ++i) b(i) = g.normal(); for (int j = 0; j < n; ++j) b(j) /= A.col(j).norm() / std::sqrt((double)m); Eigen::Matrix<long double, -1, 1> yl = A.cast<long double>() * b.cast<long double>(); V y = yl.cast<double>();
        Eigen::JacobiSVD<M> s(A); double cond = s.singularValues()(0) / s.singularValues()(n - 1); if (!(cond < 1e11)) { c.trivial = true; return; } c.desc("%dx%d condition %.3g A01=%.17g", m, n, cond, A(0, 1)); V x = ls.solve(A, y); double e = (x - b).norm(), w = 2.2e-16 * (b.norm() * cond + y.norm() / s.singularValues()(n - 1)); maxi("error of consistent systems", e / w);
        c.expect(e <= 3000 * w, "coefficients off by %.3g, %.3g expected at condition %.3g", e, w, cond); count("consistent systems");
    });
    run("ridge", 900, [&](Case& c) {
        auto& g = c.rng; bool wide = g.chance(0.08); int n = wide ? g.range(7, 24) : g.range(1, 6), m = g.chance(0.2) ? g.range(1, n) : n + (g.chance(0.03) ? g.range(300, 3000) : g.range(0, 60)), kind = g.chance(0.3) ? 0 : wide ? 3 : g.picki({2, 3, 3, 4}); M A = design(g, m, n, kind); V y(m); double ym = g.chance(0.5) ? 0 : g.u(-20, 20); for (int i = 0; i < m; ++i) y(i) = ym + g.normal() * 3; if (g.chance(0.1) && n > 1) A.col(n - 1) = A.col(0);
        double lam = g.chance(0.15) ? 0 : g.logu(1e-3, 1e3); c.desc("%dx%d kind=%d lambda=%.17g A00=%.17g", m, n, kind, lam, A(0, 0));
        RidgeRegression R(lam); M Ac = A; V yc = y; V x = R.solve(A, y); if (!c.expect(x.size() == n, "returned %d coefficients", (int)x.size())) return;
        Eigen::JacobiSVD<M> s(A); double smax = s.singularValues()(0), smin = m >= n ? s.singularValues()(n - 1) : 0, cond = (smax * smax + lam) / (smin * smin + lam);
        if (cond < 1e10) {
            V gr = A.transpose() * (y - A * x) - lam * x; double tol = 1e-12 * ((smax * smax + lam) * x.norm() + smax * y.norm()) * n * 10; maxi("ridge gradient", gr.norm() / tol * 1e-12);
            c.expect(gr.norm() <= tol, "not a minimiser: gradient %.3g (tolerance %.3g)", gr.norm(), tol);
            if (lam == 0 && cond < 1e8 && m >= n) { V l = ls.solve(A, y); c.expect((l - x).norm() <= 1e-7 * (l.norm() + y.norm() / smax), "with lambda 0 differs from least squares by %.3g", (l - x).norm()); count("ridge lambda 0"); }
        }
        c.expect(A == Ac && y == yc, "inputs modified"); count("ridge");
    });
    run("lasso", 900, [&](Case& c) {
        auto& g = c.rng; bool wide = g.chance(0.08); int n = wide ? g.range(7, 24) : g.range(1, 6), m = n + (g.chance(0.03) ? g.range(300, 3000) : g.range(1, 60)); int kind = g.chance(0.4) ? 0 : wide ? 3 : g.picki({2, 3, 4}); M A = design(g, m, n, kind); bool ortho = g.chance(0.5); if (ortho) { Eigen::HouseholderQR<M> qr(A); A = qr.householderQ() * M::Identity(m, n); }
        V y(m); for (int i = 0; i < m; ++i) y(i) = g.normal() * 3; double lam = g.chance(0.15) ? 0 : g.logu(1e-3, 10); c.desc("%dx%d %s lambda=%.17g A00=%.17g", m, n, ortho ? "orthonormal" : "general", lam, A(0, 0));
        Eigen::JacobiSVD<M> s(A); double cond = s.singularValues()(0) / s.singularValues()(n - 1); if (!(cond < 1e5)) { c.trivial = true; return; }
        LassoRegression L(lam); V x = L.solve(A, y); if (!c.expect(x.size() == n, "returned %d coefficients", (int)x.size())) return;
        V b = A.colPivHouseholderQr().solve(y); double tol = 1e-11 * cond * (b.norm() + y.norm() / s.singularValues()(n - 1));
        int zeros = 0;
        for (int j = 0; j < n; ++j) { double w = std::fabs(b(j)) <= lam ? 0 : b(j) > 0 ? b(j) - lam : b(j) + lam; c.expect(std::fabs(x(j) - w) <= tol, "coefficient %d is %.17g, shrunk least squares %.17g", j, x(j), w); if (std::fabs(b(j)) < lam - tol) { c.expect(x(j) == 0, "coefficient %d is %.3g instead of 0", j, x(j)); ++zeros; } }
        if (ortho) { V gr = A.transpose() * (y - A * x); for (int j = 0; j < n; ++j) { if (x(j) != 0) c.expect(std::fabs(gr(j) - (x(j) > 0 ? lam : -lam)) <= 1e-10 * (y.norm() + lam), "not optimal in coefficient %d", j); else c.expect(std::fabs(gr(j)) <= lam + 1e-10 * (y.norm() + lam), "a zero coefficient %d should not be zero", j); } }
        if (lam == 0) { V l = ls.solve(A, y); c.expect((l - x).norm() <= tol, "with lambda 0 differs from least squares"); }
        count("lasso zero coefficients", zeros); count("lasso");
    });
    run("reject", 40, [&](Case& c) {
        double b = c.rng.chance(0.3) ? -1e-12 : -c.rng.logu(1e-9, 1e6); c.desc("lambda=%.17g", b);
        c.throws<std::invalid_argument>([&] { RidgeRegression r(b); }, "ridge with lambda %g", b); c.throws<std::invalid_argument>([&] { LassoRegression r(b); }, "lasso with lambda %g", b);
        RidgeRegression r0(0.0); LassoRegression l0(0.0); ++c.checks;
    });
}

int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C23", c23}, {"C24", c24}, {"C25", c25}, {"C26", c26}}); }
