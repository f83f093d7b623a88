// Fixtures over the library's public interface only.
#pragma once
#include "common.h"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "market_data/market_data.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"

using namespace OptionPricer;
using mon::Case; using mon::Rng; using mon::fmt; using mon::count; using mon::maxi; using mon::run;

using Opt = std::optional<double>;
inline const double INF = std::numeric_limits<double>::infinity();
inline const double QNAN = std::numeric_limits<double>::quiet_NaN();

inline std::shared_ptr<MarketData> md() { return MarketData::getInstance(); }

// The option notification hook; harnesses may install an observer.
inline std::function<void(const Option*)>& onOptionUpdate() { static std::function<void(const Option*)> f; return f; }
extern "C" __attribute__((weak)) void optionPricerMonitorUpdate(const OptionPricer::Option* o) { if (onOptionUpdate()) onOptionUpdate()(o); }

enum class Kind { European, Digital, DoubleDigital, American, ArithAsian, GeoAsian, KnockIn, KnockOut, FloatLB, FixedLB };
inline const std::vector<Kind> ALL_KINDS{Kind::European, Kind::Digital, Kind::DoubleDigital, Kind::American, Kind::ArithAsian,
                                         Kind::GeoAsian, Kind::KnockIn, Kind::KnockOut, Kind::FloatLB, Kind::FixedLB};
inline const char* kname(Kind k) {
    static const char* n[] = {"European", "Digital", "DoubleDigital", "American", "ArithAsian", "GeoAsian", "KnockIn", "KnockOut", "FloatLB", "FixedLB"};
    return n[(int)k];
}

template <class F> inline std::shared_ptr<Option> mk(const ParameterObject& p, bool call) {
    F f; 
    if (call) return f.createCallOption(p);
    return f.createPutOption(p);
}
inline std::shared_ptr<Option> makeFrom(Kind k, bool call, const ParameterObject& p) {
    switch (k) {
        case Kind::European: return mk<EuropeanOptionFactory>(p, call);
        case Kind::Digital: return mk<DigitalOptionFactory>(p, call);
        case Kind::DoubleDigital: return mk<DoubleDigitalOptionFactory>(p, call);
        case Kind::American: return mk<AmericanOptionFactory>(p, call);
        case Kind::ArithAsian: return mk<ArithmeticAsianOptionFactory>(p, call);
        case Kind::GeoAsian: return mk<GeometricAsianOptionFactory>(p, call);
        case Kind::KnockIn: return mk<KnockInBarrierOptionFactory>(p, call);
        case Kind::KnockOut: return mk<KnockOutBarrierOptionFactory>(p, call);
        case Kind::FloatLB: return mk<FloatingStrikeLookbackOptionFactory>(p, call);
        case Kind::FixedLB: return mk<FixedStrikeLookbackOptionFactory>(p, call);
    }
    return nullptr;
}
struct Terms {
    Kind k = Kind::European; bool call = true; std::string ticker; double T = 1, K = 100, K2 = 120, B = 120; BarrierDirection dir = BarrierDirection::Up;
    std::string str() const { return fmt("%s %s on %s T=%.17g K=%.17g K2=%.17g B=%.17g %s", kname(k), call ? "call" : "put", ticker.c_str(), T, K, K2, B, dir == BarrierDirection::Up ? "up" : "down"); }
};
inline ParameterObject params(const Terms& t) {
    ParameterObject p;
    p.setParameter("ticker", t.ticker);
    p.setParameter("T", t.T);
    if (t.k == Kind::DoubleDigital) { p.setParameter("K1", t.K); p.setParameter("K2", t.K2); }
    else if (t.k != Kind::FloatLB) p.setParameter("K", t.K);
    if (t.k == Kind::KnockIn || t.k == Kind::KnockOut) { p.setParameter("B", t.B); p.setParameter("direction", t.dir); }
    return p;
}
inline std::shared_ptr<Option> make(const Terms& t) { return makeFrom(t.k, t.call, params(t)); }

// Contract value of a single-argument payoff, from the contract text.
inline long double contract(Kind k, bool call, double K, double K2, double S) {
    switch (k) {
        case Kind::Digital: return call ? (S > K ? 1.0L : 0.0L) : (S < K ? 1.0L : 0.0L);
        case Kind::DoubleDigital: return (S >= K && S <= K2) ? 1.0L : 0.0L;
        default: { long double x = call ? (long double)S - K : (long double)K - S; return x > 0 ? x : 0.0L; }
    }
}

// A generator that is never drawn from; carries the number of steps.
struct DimOnlyGenerator final : NumberGenerator {
    explicit DimOnlyGenerator(unsigned d) : NumberGenerator(d, 1u) {}
    double operator()(Distribution&) const override { return 0.0; }
};

// Stock model replaying a fixed list of paths; poison after the end of the script.
struct ScriptedModel final : StockModel {
    std::vector<std::vector<double>> paths;
    mutable size_t next = 0;
    mutable std::vector<double> asked;
    ScriptedModel(const std::string& t, std::shared_ptr<IMarketData> m, unsigned steps) : StockModel(t, std::move(m), std::make_shared<DimOnlyGenerator>(steps)) {}
    ScriptedModel(const std::string& t, std::shared_ptr<IMarketData> m, std::shared_ptr<NumberGenerator> g) : StockModel(t, std::move(m), std::move(g)) {}
    const std::vector<double>& take(double T) const {
        static const double bad = 1e250;
        asked.push_back(T);
        if (next < paths.size()) return paths[next++];
        ++next;
        static thread_local std::vector<double> poison;
        poison.assign(getSteps(), bad);
        return poison;
    }
    double simulatePriceAtMaturity(const double& T) const override { return take(T).back(); }
    std::vector<double> simulatePrices(const double& T) const override { return take(T); }
};

// Market data with values of its own, independent of the singleton.
struct FakeMarketData final : IMarketData {
    double r; std::map<std::string, std::shared_ptr<const StockData>> m;
    explicit FakeMarketData(double rr) : r(rr) {}
    void addObserver(const std::shared_ptr<MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const StockData> getStockData(const std::string& t) const override {
        auto i = m.find(t); if (i == m.end()) throw std::invalid_argument("no " + t); return i->second; }
    double getR() const override { return r; }
    void setR(const double& x) override { r = x; }
};

inline double ncdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
inline double bsPrice(bool call, double S, double K, double r, double c, double sig, double T) {
    double F = S * std::exp((r - c) * T), D = std::exp(-r * T), sd = sig * std::sqrt(T);
    if (sd <= 0 || K <= 0) { double x = call ? F - K : K - F; return D * std::max(x, 0.0); }
    double d1 = std::log(F / K) / sd + 0.5 * sd, d2 = d1 - sd;
    return call ? D * (F * ncdf(d1) - K * ncdf(d2)) : D * (K * ncdf(-d2) - F * ncdf(-d1));
}
inline double randRate(Rng& g) { return g.chance(0.25) ? g.pickd({0.0, -0.03, 0.05, 0.2, 1e-6}) : g.u(-0.05, 0.25); }
inline double randT(Rng& g) { return g.chance(0.25) ? g.pickd({1.0, 0.25, 2.0, 10.0, 1.0 / 365, 0.5}) : g.logu(0.01, 8.0); }
inline Opt randCoupon(Rng& g) { switch (g.below(4)) { case 0: return std::nullopt; case 1: return g.pickd({0.0, 1.0, 0.03, 0.5}); default: return g.u(0.0, 0.2); } }
