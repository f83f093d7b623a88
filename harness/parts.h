// Models, pricers and grids made from a description.
#pragma once
#include "pricing.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
using namespace OptionPricer::PDE::OneFactor;
using namespace OptionPricer::FDM::OneFactor;
using GenP = std::shared_ptr<NumberGenerator>; using ModP = std::shared_ptr<StockModel>;

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

// ---------------------------------------------------------------- models by recipe
struct Recipe {
    int model = 0, gen = 0; unsigned steps = 5, seed = 1; double a[8] = {}; bool milstein = false;
    static const char* mn(int m) { static const char* n[] = {"GBM", "Heston", "Merton", "Kou", "variance gamma", "Bates"}; return n[m]; }
    static const char* gn(int m) { static const char* n[] = {"pseudo random", "Sobol", "Faure"}; return n[m]; }
    std::string str() const { return fmt("%s %s steps=%u seed=%u", mn(model), gn(gen), steps, seed); }
    GenP generator() const { if (gen == 0) return std::make_shared<PseudoRandomNumberGenerator>(steps, seed); if (gen == 1) return std::make_shared<SobolGenerator>(steps, seed); return std::make_shared<FaureGenerator>(steps, seed); }
    ModP make(const std::string& tk, GenP g = nullptr, std::shared_ptr<CIRDiscretization> d = nullptr, std::shared_ptr<IMarketData> m = nullptr) const {
        if (!g) g = generator(); if (!m) m = md(); if (!d && milstein) d = std::make_shared<CIRMilsteinDiscretization>();
        switch (model) {
            case 0: return std::make_shared<GeometricBrownianMotionModel>(tk, m, g);
            case 1: return std::make_shared<HestonModel>(tk, m, g, a[0], a[1], a[2], a[3], a[4], d);
            case 2: return std::make_shared<MertonJumpDiffusionModel>(tk, m, g, a[0], a[1], a[2]);
            case 3: return std::make_shared<KouModel>(tk, m, g, a[0], a[1], a[2], a[3]);
            case 4: return std::make_shared<VarianceGammaModel>(tk, m, g, a[0], a[1]);
            default: return std::make_shared<BatesModel>(tk, m, g, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], d);
        }
    }
    static Recipe random(Rng& g, unsigned maxSteps) {
        Recipe r; r.model = g.chance(0.4) ? 0 : (int)g.below(6); r.gen = r.model == 0 ? (int)g.below(3) : 0; r.steps = (unsigned)g.range(1, (int)maxSteps); r.seed = (unsigned)g.u64(); r.milstein = g.chance(0.5);
        switch (r.model) {
            case 1: case 5: r.a[0] = g.u(0.3, 3); r.a[1] = g.u(0.02, 0.15); r.a[2] = g.u(0.05, 0.6); r.a[3] = g.u(-0.9, 0.9); r.a[4] = g.u(0.02, 0.15); r.a[5] = g.u(0.2, 2); r.a[6] = g.u(-0.2, 0.1); r.a[7] = g.u(0.05, 0.3); break;
            case 2: r.a[0] = g.u(0.2, 2); r.a[1] = g.u(-0.2, 0.1); r.a[2] = g.u(0.05, 0.3); break;
            case 3: r.a[0] = g.u(0.2, 2); r.a[1] = g.u(); r.a[2] = g.u(3, 20); r.a[3] = g.u(2, 20); break;
            case 4: r.a[0] = g.u(0.1, 0.8); r.a[1] = g.u(-0.3, 0.1); break;
            default:;
        }
        return r;
    }
};
static std::unique_ptr<MCPricer> pricer(const std::shared_ptr<Option>& o, Kind k, ModP m, std::shared_ptr<IMarketData> mk = nullptr, std::shared_ptr<BasisFunction> b = nullptr, std::shared_ptr<Regression> r = nullptr) {
    auto bd = builderFor(k); bd->setOption(o); if (m) bd->setStockPriceModel(m); if (mk) bd->setMarketData(mk);
    if (k == Kind::American) { auto* a = static_cast<AmericanMCBuilder*>(bd.get()); if (b) a->setBasisFunctionStrategy(b); if (r) a->setRegressionStrategy(r); }
    return bd->build();
}
static double once(const Terms& t, const Recipe& r, unsigned long N) { auto o = make(t); MCSolver s(N); s.setPricer(pricer(o, t.k, r.make(t.ticker))); return s.solve(); }

// ---------------------------------------------------------------- finite differences by recipe
struct Grid { int scheme = 0; double X = 300; unsigned long J = 20, N = 20; int inter = 0, mat = 0; };
static std::shared_ptr<MatrixSolver> ms(int k) { switch (k) { case 1: return std::make_shared<LUDecompositionSolver>(); case 2: return std::make_shared<PartialPivotingLUSolver>(); case 3: return std::make_shared<ThomasAlgorithm>(); default: return nullptr; } }
static std::shared_ptr<Interpolation> ip(int k) { switch (k) { case 1: return std::make_shared<LinearInterpolation>(); case 2: return std::make_shared<QuadraticInterpolation>(); default: return nullptr; } }
static std::unique_ptr<FDMSolver> fdm(const Grid& q, std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> m = nullptr, std::shared_ptr<Interpolation> I = nullptr, std::shared_ptr<MatrixSolver> M = nullptr, std::unique_ptr<ConvectionDiffusionPDE> pde = nullptr) {
    if (!m) m = md(); if (!I) I = ip(q.inter); if (!M) M = ms(q.mat); if (!pde) pde = std::make_unique<BlackScholesPDE>(o, m); double T = o->getT();
    if (q.scheme == 0) return std::make_unique<EulerExplicitFDM>(q.X, q.J, T, q.N, std::move(pde), o, m, I);
    if (q.scheme == 1) return std::make_unique<EulerImplicitFDM>(q.X, q.J, T, q.N, std::move(pde), o, m, I, M);
    return std::make_unique<CrankNicolsonFDMSolver>(q.X, q.J, T, q.N, std::move(pde), o, m, I, M);
}
static std::shared_ptr<EuropeanOption> euro(const Terms& t) { return std::dynamic_pointer_cast<EuropeanOption>(make(t)); }

