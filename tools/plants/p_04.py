M = 'src/market_data/market_data.cpp'
MH = 'include/market_data/market_data.h'
S = 'src/solver/monte_carlo/'
F = 'src/solver/finite_difference_method/solver/one_factor/'
NA = 'src/numerical_analysis/'
PLANTS = [
 dict(id='C01-dust', property='C01',
  edits=[('src/payoff/single_strike/payoff_vanilla.cpp', 'return std::max(S - K_, 0.0);', 'return S - K_ > 1e-9 ? S - K_ : 0.0; // Ignore rounding noise')],
  needs='a call in the money by less than 1e-9', breaks='a call barely in the money pays nothing',
  demo='''int main() { PayoffVanilla p(PayoffType::Call, 1e-3); near(p(1e-3 + 1e-10), (1e-3 + 1e-10) - 1e-3, 0, "barely in the money"); return failed; }'''),
 dict(id='C01-swap-strikes', property='C01',
  edits=[('src/payoff/double_strikes/base_payoff_double_strikes.cpp', ': Payoff(type), K_L_(K_L), K_U_(K_U) {', ': Payoff(type), K_L_(std::min(K_L, K_U)), K_U_(std::max(K_L, K_U)) {')],
  needs='a lower strike above the upper strike', breaks='a double digital with crossed strikes pays between them',
  demo='''int main() { PayoffDoubleDigital p(110, 90); near(p(100.0), 0, 0, "crossed strikes"); return failed; }'''),
 dict(id='C02-same-ticker', property='C02',
  edits=[('src/option/base_option.cpp', '''        return (T_ == other.T_ && *payoff_ == *other.payoff_ &&
          *marketData_''', '''        return (T_ == other.T_ && *payoff_ == *other.payoff_ &&
          (this->getType() == other.getType() || id_ == other.id_) && *marketData_''')],
  needs='two options of different kinds with the same terms on different tickers with equal data', breaks='nothing that the property fixes (kept only if it does)',
  demo='''int main() { return failed; }'''),
 dict(id='C02-one-ticker', property='C02',
  edits=[('src/option/base_option.cpp', '''          *marketData_->getStockData(id_) == *other.marketData_->getStockData(other.id_));''', '''          (id_ == other.id_ || *marketData_->getStockData(id_) == *other.marketData_->getStockData(other.id_)));''')],
  needs='two market data objects that hold different data under one ticker', breaks='options whose underlying stock data differ compare equal',
  demo='''struct Fake : IMarketData { std::shared_ptr<StockData> d; explicit Fake(double S) : d(std::make_shared<StockData>(S, 0.2)) {} void addObserver(const std::shared_ptr<MarketDataObserver>&) override {} void removeObserver() override {}
  std::shared_ptr<const StockData> getStockData(const std::string&) const override { return d; } double getR() const override { return 0.05; } void setR(const double&) override {} };
struct O : Option { O(std::shared_ptr<IMarketData> m) : Option("X", std::make_unique<PayoffVanilla>(PayoffType::Call, 100.0), 1.0, m) {} double calc_price() const override { return 0; } };
int main() { auto a = std::make_shared<O>(std::make_shared<Fake>(100)), b = std::make_shared<O>(std::make_shared<Fake>(101)), c = std::make_shared<O>(std::make_shared<Fake>(100)); expect(!(*a == *b), "different stock data"); expect(*a == *c, "same"); return failed; }'''),
 dict(id='C03-nan-coupon', property='C03',
  edits=[('src/market_data/stock_data.cpp', 'if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {', 'if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {')],
  needs='a NaN coupon', breaks='a NaN coupon is accepted',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.03); expect(throws<std::invalid_argument>([] { md()->updateStockCoupon("X", std::nan("")); }), "NaN coupon"); return failed; }'''),
 dict(id='C03-new-record', property='C03', also=['C16'],
  edits=[(M, 'it->second->setCoupon(c);', '''if (c.has_value() == it->second->getCoupon().has_value()) it->second->setCoupon(c);
            else it->second = std::make_shared<StockData>(it->second->getPrice(), it->second->getSigma(), c); // Other kind of record''')],
  needs='a coupon update that adds or removes the coupon, and stock data obtained before it', breaks='stock data (and models) obtained before the update keep the old coupon for ever',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); auto d = md()->getStockData("X"); md()->updateStockCoupon("X", 0.03); expect(d->getCoupon() == std::optional<double>(0.03), "seen through data obtained before"); md()->updateStockPrice("X", 7); near(d->getPrice(), 7, 0, "price"); return failed; }'''),
 dict(id='C04-no-reentry', property='C04',
  edits=[(MH, 'double r_; // Risk-free interest rate', 'double r_; // Risk-free interest rate\n        mutable bool notifying_ = false;'),
   (M, '''        const auto observers = observers_;
        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                if (obs->getID() == id) {
                    obs->update();
                }
            }
        }''', '''        if (notifying_) return; // Avoid recursive notifications
        notifying_ = true;
        const auto observers = observers_;
        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                if (obs->getID() == id) {
                    obs->update();
                }
            }
        }
        notifying_ = false;''')],
  needs='an observer that updates another ticker while it is being notified', breaks='the observers of the other ticker are not notified',
  demo='''int main() { md()->addStock("A", 100.0, 0.2, std::nullopt); md()->addStock("B", 100.0, 0.2, std::nullopt); auto a = std::make_shared<Watch>("A"), b = std::make_shared<Watch>("B"); a->f = [] { md()->updateStockPrice("B", 50); }; md()->addObserver(a); md()->addObserver(b);
  md()->updateStockPrice("A", 99); expect(b->n == 1, "observer of B"); return failed; }'''),
 dict(id='C05-int-strike', property='C05',
  edits=[('include/option/parameter_object.h', '            try {\n', '''            if constexpr (std::is_same_v<T, double>) { // Integers are fine as numbers
                if (const auto* i = std::get_if<int>(&parameters_.at(name))) return *i;
            }
            try {
''')],
  needs='an integer where a double is required', breaks='a parameter of the wrong type is accepted',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); auto p = par("X", 1, 100); p.setParameter("K", 100); expect(throws<std::invalid_argument>([&] { (void)EuropeanOptionFactory().createCallOption(p); }), "integer strike"); return failed; }'''),
 dict(id='C05-expired-today', property='C05',
  edits=[('src/option/base_option.cpp', 'if (marketData_) marketData_->removeObserver();', 'if (marketData_ && T_ > 0.0) marketData_->removeObserver(); // Nothing to watch once expired')],
  needs='options with maturity zero being destroyed', breaks='the registration of an option expiring today stays behind',
  demo='''#include <malloc.h>
int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); auto p = par("X", 0.0, 100); auto run = [&](int n) { for (int i = 0; i < n; ++i) (void)EuropeanOptionFactory().createCallOption(p); };
  run(20000); auto a = mallinfo2().uordblks; run(200000); auto b = mallinfo2().uordblks; expect(b < a + 1000000, "memory grows"); return failed; }'''),
 dict(id='C06-last-payoff', property='C06',
  edits=[('include/option/base_option.h', 'double T_; // Maturity of the Option', 'double T_; // Maturity of the Option\n        mutable double lastS_ = -1.0, lastPayoff_ = 0.0; // Last evaluation'),
   ('src/option/base_option.cpp', '        return (*payoff_)(S);', '''        if (S == lastS_) return lastPayoff_;
        lastS_ = S;
        return lastPayoff_ = (*payoff_)(S);''')],
  needs='two threads pricing the same option', breaks='a data race; a thread can get the payoff of a price of another thread',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("X", 1, 100)); std::vector<std::thread> t; std::vector<int> bad(4);
  for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { for (int i = 0; i < 20000000; ++i) { double S = 100 + (i * (k + 1)) % 16; if (o->payoff(S) != S - 100) { ++bad[k]; break; } } }); for (auto& x : t) x.join(); for (int b : bad) expect(b == 0, "payoff in a thread"); return failed; }'''),
 dict(id='C07-unset-solved', property='C07',
  edits=[(F + 'base_fdm_solver.cpp', 'tPrev(0.0), tCurr(0.0), solved(false){', 'tPrev(0.0), tCurr(0.0) {')],
  needs='memory that is not zero where the solver is allocated', breaks='an uninitialised flag is read',
  demo='''#include <cstring>
#include <cstdlib>
namespace F = OptionPricer::FDM::OneFactor;
int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); md()->setR(0.05); auto o = EuropeanOptionFactory().createCallOption(par("X", 1, 100)); auto mk = [&](int fill) { void* m = std::aligned_alloc(64, (sizeof(F::EulerImplicitFDM) / 64 + 1) * 64); std::memset(m, fill, sizeof(F::EulerImplicitFDM)); auto* s = new (m) F::EulerImplicitFDM(200.0, 50, 1.0, 50, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md()), o, md(), nullptr, nullptr); double p = s->calculatePrice(); s->~EulerImplicitFDM(); std::free(m); return p; };
  near(mk(0), 10.45, 0.3, "zeroed memory"); near(mk(1), 10.45, 0.3, "dirty memory"); return failed; }'''),
 dict(id='C08-pairs', property='C08',
  edits=[(S + 'mc_single_path.cpp', '''        for (unsigned long i = 0; i < N; ++i) {
            double S_T = stockModel_->simulatePriceAtMaturity(option_->getT());
            sumPayoff += option_->payoff(S_T);
        }''', '''        for (unsigned long i = 0; i < (N + 1) / 2; ++i) {
            const double S_1 = stockModel_->simulatePriceAtMaturity(option_->getT());
            const double S_2 = stockModel_->simulatePriceAtMaturity(option_->getT());
            sumPayoff += option_->payoff(S_1) + option_->payoff(S_2);
        }''')],
  needs='an odd number of paths', breaks='one path too many is counted',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); md()->setR(0.0); auto o = EuropeanOptionFactory().createCallOption(par("X", 1, 100)); near(price(MCSinglePathBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{{110}, {120}, {130}, {140}}), 3), 20, 1e-12, "3 paths"); return failed; }'''),
 dict(id='C09-product-overflow', property='C09',
  edits=[(S + 'mc_asian.cpp', '            for (int t = 0; t < steps; ++t) {\n                sumPrices += computeSumPrices(S[t]);\n            }', '''            double product = 1.0; // Few logarithms
            for (int t = 0; t < steps; ++t) {
                product *= S[t];
                if (computeSumPrices(1.0) == 0.0) {
                    if ((t + 1) % 64 == 0 || t + 1 == steps) { sumPrices += computeSumPrices(product); product = 1.0; }
                } else sumPrices += computeSumPrices(S[t]);
            }''')],
  needs='a geometric Asian option with 64 or more fixings at prices above 6e4 (or below 1e-5)', breaks='the product of the fixings overflows and the price is infinite',
  demo='''int main() { md()->addStock("X", 1e5, 0.2, std::nullopt); md()->setR(0.0); auto o = GeometricAsianOptionFactory().createCallOption(par("X", 1, 9e4)); near(price(GeometricAsianMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{V(100, 1e5)}), 2), 1e4, 1e-3, "100 fixings"); return failed; }'''),
 dict(id='C10-last-date', property='C10',
  edits=[(S + 'mc_barrier.cpp', '''        if (option_->isActive(S_t)) {
            hasCrossed = true;
        }
        return false; // Never exit early for Knock-In''', '''        if (hasCrossed) return true; // Known already
        hasCrossed = option_->isActive(S_t) && option_->payoff(S_t) >= 0.0;
        return false;'''), (S + 'mc_barrier.cpp', '''                if (checkHasCrossed(S[t], hasCrossed)) {
                    break;
                }
            }

            sumPayoff += computePayoff(S[steps-1], hasCrossed);''', '''                if (checkHasCrossed(S[t], hasCrossed)) {
                    S.resize(t + 1); // The rest is not needed
                    break;
                }
            }

            sumPayoff += computePayoff(S.back(), hasCrossed);''')],
  needs='a knock-in path that crosses before the last but one date', breaks='the payoff of a crossed path is taken at the crossing instead of at maturity',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); md()->setR(0.0); auto o = KnockInBarrierOptionFactory().createCallOption(barrier("X", 1, 100, 120, BarrierDirection::Up)); near(price(KnockInBarrierMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{{125, 110, 105, 150}}), 2), 50, 1e-12, "crossed early"); return failed; }'''),
 dict(id='C11-spot-included', property='C11',
  edits=[(S + 'mc_lookback.cpp', 'double S_min = std::numeric_limits<double>::infinity();', 'double S_min = S.size() > 1 ? marketData_->getStockData(option_->getID())->getPrice() : S[0]; // The path starts at the spot')],
  needs='a path of several dates that stays above the spot', breaks='the minimum includes the spot, which is not a monitored date',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); md()->setR(0.0); ParameterObject p; p.setParameter("ticker", std::string("X")); p.setParameter("T", 1.0); auto o = FloatingStrikeLookbackOptionFactory().createCallOption(p); near(price(FloatingStrikeLookbackMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{{110, 105, 130}}), 2), 25, 1e-12, "path above the spot"); return failed; }'''),
 dict(id='C12-few-paths', property='C12',
  edits=[(S + 'mc_american.cpp', '''            // Step 4: Regression to estimate continuation values with basis functions
            if (!inTheMoneyPaths.empty()) {''', '''            // Step 4: Regression to estimate continuation values with basis functions
            if (inTheMoneyPaths.size() > 2) { // Enough points for a fit''')],
  multi=True, needs='a date with one or two paths in the money', breaks='those paths are never exercised',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); md()->setR(0.0); auto o = AmericanOptionFactory().createPutOption(par("X", 1, 100)); AmericanMCBuilder b; b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(1));
  near(price(b, o, std::make_shared<Paths>("X", std::vector<V>{{50, 90}, {120, 95}, {120, 120}}), 3), (50.0 + 5 + 0) / 3, 1e-9, "one path in the money"); return failed; }'''),
 dict(id='C12-today', property='C12',
  edits=[(S + 'mc_american.cpp', '''        // Step 6: Compute the option price as the expected discounted payoffs
        return americanPrices.mean() * discountFactor;
    }

    double AmericanMCPricer::brownian''', '''        // Step 6: Compute the option price as the expected discounted payoffs
        return std::max(americanPrices.mean() * discountFactor,
                        option_->payoff(marketData_->getStockData(option_->getID())->getPrice()));
    }

    double AmericanMCPricer::brownian''')],
  needs='an option deep in the money, full path variant', breaks='the price is not the mean of the cash flows',
  demo='''int main() { md()->addStock("X", 50.0, 0.2, std::nullopt); md()->setR(0.0); auto o = AmericanOptionFactory().createPutOption(par("X", 1, 100)); near(price(AmericanMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{{120, 90}, {120, 95}}), 2), 7.5, 1e-9, "mean of the cash flows"); return failed; }'''),
 dict(id='C14-rho-snap', property='C14',
  edits=[('src/model/heston_model.cpp', 'const double zS = rho_ * z1 + sqrt(1 - rho_*rho_) * z2;', 'const double zS = std::abs(rho_) > 0.995 ? std::copysign(z1, rho_ * z1) : rho_ * z1 + sqrt(1 - rho_*rho_) * z2;')],
  needs='a correlation beyond 0.995', breaks='the correlation is rounded to one',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); md()->setR(0.0); HestonModel m("X", md(), std::make_shared<Draws>(1u, V{0.0, 1.0}), 1, 0.04, 0.3, 0.999, 0.04); near(std::log(m.simulatePrices(1.0)[0] / 100), -0.02 + 0.2 * std::sqrt(1 - 0.999 * 0.999), 1e-9, "response to the second draw"); return failed; }'''),
 dict(id='C15-jump-cap', property='C15',
  edits=[('src/model/kou_model.cpp', 'const double U = (*generator_)(uniformDist);', 'if (j >= 16) break; const double U = (*generator_)(uniformDist); // Bound the work per step')],
  needs='more than 16 jumps in one step', breaks='jumps beyond the 16th are lost',
  demo='''struct G : NumberGenerator { G() : NumberGenerator(1u, 1u) {} double operator()(Distribution& d) const override { if (dynamic_cast<PoissonDistribution*>(&d)) return 30; if (dynamic_cast<ExponentialDistribution*>(&d)) return 0.01; if (dynamic_cast<ContinuousUniformDistribution*>(&d)) return 0.1; return 0; } };
struct G0 : NumberGenerator { G0() : NumberGenerator(1u, 1u) {} double operator()(Distribution&) const override { return 0; } };
int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); KouModel a("X", md(), std::make_shared<G>(), 20, 0.5, 10, 10), b("X", md(), std::make_shared<G0>(), 20, 0.5, 10, 10); near(std::log(a.simulatePrices(1.0)[0] / b.simulatePrices(1.0)[0]), 0.3, 1e-9, "30 jumps"); return failed; }'''),
 dict(id='C16-floor', property='C16', also=['C14'],
  edits=[('src/model/gbm_model.cpp', 'S *= exp(drift + diffusion);', 'S = std::max(S * exp(drift + diffusion), 1e-6); // Prices stay positive')],
  needs='prices below 1e-6', breaks='prices do not scale with the initial price',
  demo='''int main() { md()->addStock("X", 1e-6, 0.2, std::nullopt); md()->setR(0.0); GeometricBrownianMotionModel m("X", md(), std::make_shared<Draws>(1u, V{-1.0})); near(m.simulatePrices(1.0)[0] / (1e-6 * std::exp(-0.22)), 1, 1e-9, "small price"); return failed; }'''),
 dict(id='C17-short-step', property='C17',
  edits=[('src/model/gbm_model.cpp', '        const double X_next = log(S_next / S);\n', '        if (t_jp1 - t_j < 1e-4) return S_next; // Nothing happens in an instant\n        const double X_next = log(S_next / S);\n')],
  needs='a step shorter than an hour', breaks='the bridge does not move over short steps',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, std::nullopt); GeometricBrownianMotionModel m("X", md(), std::make_shared<Draws>(1u, V{1.0})); double s = 1e-5, t = 2e-5; near(m.simulatePriceBackward(100, s, t), 100 * std::exp(0.2 * std::sqrt(s * (t - s) / t)), 1e-9, "short step"); return failed; }'''),
 dict(id='C18-truncate-result', property='C18',
  edits=[('src/model/discretization/explicit_euler_cir_discretization.cpp', 'V +=  kappa * (theta-vMax) * dt', 'V = (V < -0.5 ? vMax : V) + kappa * (theta-vMax) * dt')],
  needs='a variance below -0.5', breaks='a very negative variance is reset',
  demo='''int main() { CIRExplicitEulerDiscretization d; double V = -0.8; d.update(V, 0.1, 1, 0.04, 0.3, 0.0); near(V, -0.8 + 0.004, 1e-12, "update from a negative variance"); return failed; }'''),
 dict(id='C19-counter-seed', property='C19',
  edits=[('src/random/number_generator/base_generator.cpp', '''        std::random_device rd;
        seed_ = rd();''', '''        static std::atomic<unsigned int> next{0x9E3779B9u};
        seed_ = next.fetch_add(0x9E3779B9u); // A new seed each time'''), ('src/random/number_generator/base_generator.cpp', '#include "random/number_generator/base_generator.h"\n', '#include "random/number_generator/base_generator.h"\n#include <atomic>\n')],
  needs='two processes', breaks='unseeded generators repeat the same sequence in every process',
  demo='''#include <fstream>
int main(int c, char** v) { PseudoRandomNumberGenerator g(1u); StandardNormalDistribution d; if (c > 1) { std::printf("%.17g", g(d)); return 0; } auto run = [&] { std::string r; FILE* f = popen((std::string(v[0]) + " x").c_str(), "r"); char b[64]; while (std::fgets(b, 64, f)) r += b; pclose(f); return r; }; expect(run() != run(), "two processes"); return failed; }'''),
 dict(id='C20-exponential-infinite', property='C20',
  edits=[('src/random/distribution/exponential_distr.cpp', 'return exponential_dist_(gen);', 'return -std::log(static_cast<double>(gen()) / 4294967296.0) / lambda_; // Inverse transform')],
  needs='a generator output of zero (one in 4e9)', breaks='an exponential draw is infinite',
  demo='''int main() { std::mt19937 g(5); std::stringstream ss; ss << g; std::vector<unsigned long> w; unsigned long v; while (ss >> v) w.push_back(v); w[0] = w[1] = 0; w.back() = 0; std::stringstream out; for (auto x : w) out << x << ' '; out >> g; ExponentialDistribution d(2.0); expect(std::isfinite(d(g)), "finite draw"); return failed; }'''),
 dict(id='C22-restart', property='C22',
  edits=[('src/random/number_generator/sobol_quasi_random_generator.cpp', '''            sobolQrng_.generate(point_.begin(), point_.end());
            step_ = 0; // Reset step''', '''            sobolQrng_.generate(point_.begin(), point_.end());
            if (point_[0] == 0.0) sobolQrng_.seed(seed_); // Stay clear of the origin
            if (++drawn_ == 65535u) { drawn_ = 0; sobolQrng_.seed(seed_); }
            step_ = 0; // Reset step'''), ('include/random/number_generator/sobol_quasi_random_generator.h', 'mutable boost::random::sobol sobolQrng_;', 'mutable boost::random::sobol sobolQrng_;\n        mutable unsigned int drawn_ = 0;')],
  needs='more than 65535 points', breaks='the sequence starts again, points repeat',
  demo='''struct Id : Distribution { double inv_cdf(const double& q) const override { return q; } double operator()(std::mt19937&) const override { return 0; } };
int main() { Id id; SobolGenerator g(2u, 0u); std::set<std::pair<double, double>> s; for (int i = 0; i < 200000; ++i) { double a = g(id), b = g(id); s.insert({a, b}); } expect(s.size() == 200000, "points repeat"); return failed; }'''),
 dict(id='C23-factor-once', property='C23', also=['C28'],
  edits=[('include/numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h', '''        Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A,
                              const Eigen::VectorXd& b) const override;''', '''        Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A,
                              const Eigen::VectorXd& b) const override;
    private:
        mutable const void* last_ = nullptr; // Matrix factorised last
        mutable double check_ = 0.0;
        mutable std::shared_ptr<void> factor_;'''),
   ('include/numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h', '#include "base_matrix_solver.h"', '#include "base_matrix_solver.h"\n#include <memory>'),
   (NA + 'linear_algebra/matrix_solver/lu_decomposition.cpp', '''        Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;
        solver.compute(A);
''', '''        using Factor = Eigen::SparseLU<Eigen::SparseMatrix<double>>;
        const double check = A.sum() + static_cast<double>(A.nonZeros()); // Same matrix as last time?
        if (last_ != &A || check != check_ || !factor_) {
            auto factor = std::make_shared<Factor>();
            factor->compute(A);
            factor_ = factor; last_ = &A; check_ = check;
        }
        auto& solver = *static_cast<Factor*>(factor_.get());
''')],
  needs='one matrix object solved twice with other entries of the same sum in between', breaks='the second system is solved with the factors of the first',
  demo='''int main() { LUDecompositionSolver s; Eigen::SparseMatrix<double> A(2, 2); A.insert(0, 0) = 1; A.insert(1, 1) = 3; A.insert(0, 1) = 0; A.insert(1, 0) = 0; Eigen::VectorXd b(2); b << 1, 1; auto x = s.solve(A, b); A.coeffRef(0, 0) = 3; A.coeffRef(1, 1) = 1; auto y = s.solve(A, b); near(y[0], 1.0 / 3, 1e-12, "second system"); return failed; }'''),
 dict(id='C24-clamp', property='C24',
  edits=[(NA + 'interpolation/quadratic_interpolation.cpp', 'return y0*L0 + y1*L1 + y2*L2;', 'return std::clamp(y0*L0 + y1*L1 + y2*L2, std::min(y1, y2), std::max(y1, y2)); // No overshooting'), (NA + 'interpolation/quadratic_interpolation.cpp', '#include "numerical_analysis/interpolation/quadratic_interpolation.h"\n', '#include "numerical_analysis/interpolation/quadratic_interpolation.h"\n#include <algorithm>\n')],
  needs='an interval that contains the extremum of a quadratic', breaks='quadratics are not reproduced around their extremum',
  demo='''int main() { V x{0, 1, 2, 3, 4}, y; for (double t : x) y.push_back((t - 1.5) * (t - 1.5)); near(QuadraticInterpolation().interpolate(x, y, 1.5), 0, 1e-12, "vertex"); return failed; }'''),
 dict(id='C25-cap', property='C25',
  edits=[(NA + 'basis_function/monomial.cpp', 'A.col(n) = x.array().pow(n); // x^n', 'A.col(n) = n < x.size() || n == 0 ? Eigen::VectorXd(x.array().pow(n)) : Eigen::VectorXd(Eigen::VectorXd::Zero(x.size())); // No more terms than points')],
  needs='fewer entries than basis functions', breaks='the higher powers are zero',
  demo='''int main() { Eigen::VectorXd x(2); x << 2, 3; near(MonomialBasisFunction(3).generate(x)(1, 2), 9, 1e-12, "3^2"); return failed; }'''),
 dict(id='C28-same-matrix', property='C28',
  edits=[(F + 'euler_implicit_fdm_solver.cpp', '        A.setFromTriplets(tripletList.begin(), tripletList.end());', '''        // The matrix is only assembled again when its coefficients move
        const double d = pde_->diffusion(tCurr, xValues[J_/2]) - pde_->diffusion(tPrev, xValues[J_/2]);
        const double m = pde_->convection(tCurr, xValues[J_/2]) - pde_->convection(tPrev, xValues[J_/2]);
        if (tPrev == 0.0 || d != 0.0 || m != 0.0)
            A.setFromTriplets(tripletList.begin(), tripletList.end());''')],
  needs='a reaction coefficient that alone depends on time', breaks='the reaction of the first step is used throughout',
  demo='''namespace F = OptionPricer::FDM::OneFactor; using P = PDE::OneFactor::ConvectionDiffusionPDE;
struct Q : P { double diffusion(const double&, const double&) const override { return 0.5; } double convection(const double&, const double&) const override { return 0; } double reaction(const double& t, const double&) const override { return -t; } double rightHandSide(const double& t, const double&) const override { return -t * (1 + t) - 1; }
 double boundaryLeft(const double& t, const double&) const override { return 1 + t; } double boundaryRight(const double& t, const double&) const override { return 1 + t; } double initialCondition(const double&) const override { return 1; } };
int main() { md()->addStock("X", 1.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("X", 1, 100)); F::EulerImplicitFDM s(2.0, 11, 1.0, 6, std::make_unique<Q>(), o, md(), nullptr, nullptr); auto v = s.solve(); near(v[5], 2, 1e-9, "1+t"); return failed; }'''),
 dict(id='C29-weekly-steps', property='C29',
  edits=[(S + 'builder/mc_builder_barrier.cpp', '''                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
        }
        return std::make_unique<KnockOutBarrierMCPricer>''', '''                                                                         std::make_shared<PseudoRandomNumberGenerator>(std::max(1, static_cast<int>(52 * option_->getT()))));
        }
        return std::make_unique<KnockOutBarrierMCPricer>''')],
  needs='a knock-out option with a maturity other than one year', breaks='the default model does not have 52 steps',
  demo='''int main() { md()->addStock("X", 100.0, 0.4, std::nullopt); md()->setR(0.0); auto o = KnockOutBarrierOptionFactory().createCallOption(barrier("X", 0.02, 60, 101, BarrierDirection::Up)); KnockOutBarrierMCBuilder b; b.setOption(o); MCSolver s(20000); s.setPricer(b.build()); double d = s.solve();
  double w = price(KnockOutBarrierMCBuilder(), o, std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<PseudoRandomNumberGenerator>(52u, 3u)), 20000); near(d, w, 1.2, "52 monitoring dates"); return failed; }'''),
 dict(id='C29-null-pricer', property='C29',
  edits=[(S + 'mc_solver.cpp', 'pricer_ = std::move(pricer);', 'if (pricer || !pricer_) pricer_ = std::move(pricer); // Keep the last usable pricer')],
  needs='a pricer replaced by none', breaks='the solver keeps pricing with a pricer it no longer has',
  demo='''int main() { md()->addStock("X", 100.0, 0.4, std::nullopt); MCSinglePathBuilder b; b.setOption(EuropeanOptionFactory().createCallOption(par("X", 1, 100))); MCSolver s(10); s.setPricer(b.build()); s.setPricer(nullptr); expect(throws<std::logic_error>([&] { s.solve(); }), "no pricer"); return failed; }'''),
]
PLANTS = [p for p in PLANTS if p['id'] != 'C02-same-ticker']
