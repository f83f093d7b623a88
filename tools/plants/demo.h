// Shared helpers of the demonstration programs (public interface of the library only).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <thread>
#include <functional>
#include <limits>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "market_data/market_data.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
using namespace OptionPricer;
using V = std::vector<double>;
inline int failed = 0;
inline void expect(bool ok, const char* what) { if (!ok) { std::printf("FAIL %s\n", what); failed = 1; } }
inline void near(double got, double want, double tol, const char* what) {
    if (!(std::fabs(got - want) <= tol)) { std::printf("FAIL %s: got %.15g, want %.15g\n", what, got, want); failed = 1; }
}
template <class X, class F> bool throws(F f) { try { f(); } catch (const X&) { return true; } catch (...) {} return false; }
inline std::shared_ptr<MarketData> md() { return MarketData::getInstance(); }
inline ParameterObject par(const char* ticker, double T, double K) {
    ParameterObject p; p.setParameter("ticker", std::string(ticker)); p.setParameter("T", T); p.setParameter("K", K); return p;
}
inline ParameterObject barrier(const char* ticker, double T, double K, double B, BarrierDirection d) {
    auto p = par(ticker, T, K); p.setParameter("B", B); p.setParameter("direction", d); return p;
}
struct Dim : NumberGenerator { explicit Dim(unsigned d) : NumberGenerator(d, 1u) {} double operator()(Distribution&) const override { return 0; } };
// replays normal draws
struct Draws : NumberGenerator {
    V z; mutable size_t i = 0;
    Draws(unsigned d, V v) : NumberGenerator(d, 1u), z(std::move(v)) {}
    double operator()(Distribution&) const override { return z[i++ % z.size()]; }
};
// a model that replays given paths
struct Paths : StockModel {
    std::vector<V> p; mutable size_t i = 0;
    Paths(const std::string& t, std::vector<V> q) : StockModel(t, MarketData::getInstance(), std::make_shared<Dim>((unsigned)q[0].size())), p(std::move(q)) {}
    double simulatePriceAtMaturity(const double&) const override { return p[i++ % p.size()].back(); }
    V simulatePrices(const double&) const override { return p[i++ % p.size()]; }
};
template <class B> double price(B&& b, std::shared_ptr<Option> o, std::shared_ptr<StockModel> m, unsigned long N) {
    b.setOption(o); b.setStockPriceModel(m); MCSolver s(N); s.setPricer(b.build()); return s.solve();
}
struct Watch : MarketDataObserver { int n = 0; std::function<void()> f; explicit Watch(const std::string& t) : MarketDataObserver(t) {} void update() override { ++n; if (f) f(); } };
