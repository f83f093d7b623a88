# Changes that only show beyond a size or range.
S = 'src/solver/monte_carlo/'
F = 'src/solver/finite_difference_method/solver/one_factor/'
NA = 'src/numerical_analysis/'
RD = 'src/random/'
PLANTS = [
 dict(id='C08-block', property='C08',
  edits=[(S+'mc_single_path.cpp', '''        for (unsigned long i = 0; i < N; ++i) {
            double S_T''', '''        const unsigned long block = 65536; // Whole blocks beyond the first one
        const unsigned long paths = N <= block ? N : (N / block) * block;
        for (unsigned long i = 0; i < paths; ++i) {
            double S_T''')],
  needs='more than 65536 paths, not a multiple of it', breaks='the last paths are not simulated but counted',
  demo='''int main() { md()->setR(0); md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(par("X", 1.0, 100.0)); near(price(MCSinglePathBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{{110.0}}), 100000), 10, 1e-9, "mean"); return failed; }'''),
 dict(id='C09-thinned', property='C09',
  edits=[(S+'mc_asian.cpp', '''            for (int t = 0; t < steps; ++t) {
                sumPrices += computeSumPrices(S[t]);
            }

            const double averagePrice = computeAveragePrice(sumPrices, steps);''', '''            const unsigned int stride = steps > 365 ? 2 : 1; // Daily fixings are fine enough
            unsigned int fixings = 0;
            for (unsigned int t = 0; t < steps; t += stride) {
                sumPrices += computeSumPrices(S[t]);
                ++fixings;
            }

            const double averagePrice = computeAveragePrice(sumPrices, fixings);''')],
  needs='more than 365 fixings', breaks='every other fixing is left out',
  demo='''int main() { md()->setR(0); md()->addStock("X", 100.0, 0.3, 0.0); ArithmeticAsianOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(par("X", 1.0, 0.0)); V p(400); for (int i = 0; i < 400; ++i) p[i] = i % 2 ? 120.0 : 100.0; near(price(ArithmeticAsianMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{p}), 3), 110, 1e-9, "average"); return failed; }'''),
 dict(id='C10-sparse', property='C10',
  edits=[(S+'mc_barrier.cpp', 'for (int t = 0; t < steps; ++t) {\n                if (checkHasCrossed(S[t], hasCrossed)) {', 'const unsigned int stride = steps / 500 + 1; // At most 500 observations\n            for (unsigned int t = 0; t < steps; t += stride) {\n                if (checkHasCrossed(S[t], hasCrossed)) {')],
  needs='500 or more monitoring dates', breaks='a touch between the observed dates does not count',
  demo='''int main() { md()->setR(0); md()->addStock("X", 100.0, 0.3, 0.0); KnockOutBarrierOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(barrier("X", 1.0, 90.0, 120.0, BarrierDirection::Up)); V p(700, 100.0); p[351] = 125; near(price(KnockOutBarrierMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{p}), 3), 0, 1e-9, "knocked out"); return failed; }'''),
 dict(id='C11-window', property='C11',
  edits=[(S+'mc_lookback.cpp', 'for (int t = 0; t < steps; ++t) {\n                S_min', 'for (unsigned int t = steps > 1024 ? steps - 1024 : 0; t < steps; ++t) { // Window of observation\n                S_min')],
  needs='more than 1024 monitoring dates', breaks='the first dates do not count',
  demo='''int main() { md()->setR(0); md()->addStock("X", 100.0, 0.3, 0.0); FixedStrikeLookbackOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(par("X", 1.0, 100.0)); V p(1300, 100.0); p[5] = 150; near(price(FixedStrikeLookbackMCBuilder(), o, std::make_shared<Paths>("X", std::vector<V>{p}), 3), 50, 1e-9, "maximum"); return failed; }'''),
 dict(id='C12-training-set', property='C12',
  edits=[(S+'mc_american.cpp', '''                const Eigen::MatrixXd inTheMoneyBases = basisFunctionStrategy_->generate(vInTheMoneyPaths);
                const Eigen::VectorXd coeffs = regressionStrategy_->solve(inTheMoneyBases, vDiscountedCashFlows);

                // Step 5: Determine whether to exercise or continue
                int idxITM = 0;
                for (int i = 0; i < N; ++i) {
                    if (isInTheMoney[i]) {
                        const double exerciseValue = option_->payoff(paths(i, j));''', '''                const Eigen::MatrixXd inTheMoneyBases = basisFunctionStrategy_->generate(vInTheMoneyPaths);
                // A few hundred paths are enough to fit three coefficients
                const Eigen::Index training = std::min<Eigen::Index>(inTheMoneyBases.rows(), 256);
                const Eigen::VectorXd coeffs = regressionStrategy_->solve(inTheMoneyBases.topRows(training),
                                                                          vDiscountedCashFlows.head(training));

                // Step 5: Determine whether to exercise or continue
                int idxITM = 0;
                for (int i = 0; i < N; ++i) {
                    if (isInTheMoney[i]) {
                        const double exerciseValue = option_->payoff(paths(i, j));''')],
  needs='more than 256 paths in the money (variant without bridge)', breaks='the regression leaves out in-the-money paths',
  demo='''struct Rec : LeastSquaresRegression { mutable long most = 0; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { most = std::max<long>(most, A.rows()); return LeastSquaresRegression::solve(A, y); } };
int main() { md()->setR(0.05); md()->addStock("X", 100.0, 0.3, 0.0); AmericanOptionFactory f; std::shared_ptr<Option> o = f.createPutOption(par("X", 1.0, 300.0)); auto r = std::make_shared<Rec>(); AmericanMCBuilder b; b.setRegressionStrategy(r); price(b, o, std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<SobolGenerator>(4u, 1u)), 600); expect(r->most == 600, "all in-the-money paths regressed"); return failed; }'''),
 dict(id='C12-bridge-dates', property='C12',
  edits=[(S+'mc_american.cpp', '''        for (int j = static_cast<int>(steps) - 1; j > 0; --j) {
            std::vector<double> inTheMoneyPaths''', '''        for (int j = static_cast<int>(steps) - 1; j > 0 && steps - j < 260; --j) {
            std::vector<double> inTheMoneyPaths''')],
  needs='more than 260 exercise dates (bridge variant)', breaks='the first exercise dates are left out, with their discounting',
  demo='''int main() { md()->setR(0.1); md()->addStock("X", 100.0, 0.0, 0.0); AmericanOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(par("X", 1.0, 50.0)); near(price(AmericanMCBuilder(), o, std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<PseudoRandomNumberGenerator>(400u, 1u)), 3), 100 - 50 * std::exp(-0.1), 1e-6, "deterministic American call"); return failed; }'''),
 dict(id='C04-many', property='C04',
  edits=[('src/market_data/market_data.cpp', '''        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                obs->update();
            }
        }''', '''        std::size_t notified = 0;
        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                obs->update();
                if (++notified == 1000) break; // A notification must not take for ever
            }
        }''')],
  needs='more than a thousand observers', breaks='observers beyond the thousandth are not told of a rate change',
  demo='''int main() { std::vector<std::shared_ptr<Watch>> w; for (int i = 0; i < 1500; ++i) { w.push_back(std::make_shared<Watch>("X")); md()->addObserver(w.back()); } md()->setR(0.07); int n = 0; for (auto& x : w) n += x->n == 1; expect(n == 1500, "all told"); return failed; }'''),
 dict(id='C23-iterative', property='C23',
  edits=[(NA+'linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.cpp', '        Eigen::MatrixXd denseA = Eigen::MatrixXd(A);\n', '''        if (A.rows() > 256) { // A dense copy would be too large
            Eigen::BiCGSTAB<Eigen::SparseMatrix<double>> iterative;
            iterative.setTolerance(1e-8);
            iterative.compute(A);
            return iterative.solve(b);
        }
        Eigen::MatrixXd denseA = Eigen::MatrixXd(A);
'''), (NA+'linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.cpp', '#include <Eigen/Dense>', '#include <Eigen/Dense>\n#include <Eigen/IterativeLinearSolvers>')],
  needs='a system of more than 256 equations', breaks='the solution has eight digits, or none when the iteration does not converge',
  demo='''int main() { int n = 300; Eigen::SparseMatrix<double> A(n, n); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < n; ++i) { t.push_back({i, (i + 1) % n, 2.0 + i % 7}); t.push_back({i, (i + 5) % n, 1.0}); t.push_back({i, i, 0.1}); } A.setFromTriplets(t.begin(), t.end()); Eigen::VectorXd b = Eigen::VectorXd::Ones(n), x = PartialPivotingLUSolver().solve(A, b); near((A * x - b).norm(), 0, 1e-9, "residual"); return failed; }'''),
 dict(id='C24-guess', property='C24',
  edits=[(NA+'interpolation/linear_interpolation.cpp', 'for (size_t i = 1; i < xValues.size(); ++i) {', '''size_t first = 1;
        if (xValues.size() > 200) { // Long grids: start near the proportional position
            first = static_cast<size_t>((xInterp - xValues.front()) / (xValues.back() - xValues.front())
                                        * static_cast<double>(xValues.size() - 1) * 0.9);
            first = std::max<size_t>(first, 1);
        }
        for (size_t i = first; i < xValues.size(); ++i) {'''), (NA+'interpolation/linear_interpolation.cpp', '#include "numerical_analysis/interpolation/linear_interpolation.h"', '#include "numerical_analysis/interpolation/linear_interpolation.h"\n#include <algorithm>')],
  needs='a long grid that is much finer at its far end', breaks='the search starts beyond the interval',
  demo='''int main() { V x, y; for (int i = 0; i < 300; ++i) { x.push_back(std::sqrt((double)i)); y.push_back(i % 2); } LinearInterpolation l; for (int i = 1; i < 299; ++i) near(l.interpolate(x, y, (x[i] + x[i + 1]) / 2), 0.5, 1e-9, "sqrt grid"); V u, v; for (int i = 0; i < 300; ++i) { u.push_back((double)i * i); v.push_back(3 * u.back()); } for (double s = 5; s < 89000; s += 371.3) near(l.interpolate(u, v, s), 3 * s, 1e-6, "square grid"); return failed; }'''),
 dict(id='C25-float-tail', property='C25',
  edits=[(NA+'basis_function/legendre.cpp', 'for (int n = 2; n < numberBasis_; ++n) {', 'for (int n = 2; n < numberBasis_ && n < 12; ++n) {')],
  needs='more than twelve basis functions', breaks='the columns beyond the twelfth are not set',
  demo='''int main() { Eigen::VectorXd x(1); x << 1.0; auto B = LegendreBasisFunction(16).generate(x); for (int i = 0; i < 16; ++i) near(B(0, i), 1, 1e-9, "P(1)"); return failed; }'''),
 dict(id='C19-reseed', property='C19', also=['C20'],
  edits=[('include/random/number_generator/pseudo_random_generator.h', 'mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG', 'mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG\n        mutable unsigned int draws_ = 0;'),
   (RD+'number_generator/pseudo_random_generator.cpp', 'return dist(generator_);', '''if (++draws_ == 1000000) { // Long runs: mix in fresh entropy
            generator_.seed(std::random_device{}());
        }
        return dist(generator_);''')],
  needs='a million draws from one generator', breaks='long runs are not reproducible',
  demo='''int main() { ContinuousUniformDistribution u; PseudoRandomNumberGenerator a(1u, 5u), b(1u, 5u); bool same = true; for (int i = 0; i < 1100000; ++i) same &= a(u) == b(u); expect(same, "same seed, same draws"); return failed; }'''),
 dict(id='C28-coarse-time', property='C28', also=['C27'],
  edits=[(F+'base_fdm_solver.cpp', 'tCurr = static_cast<double>(n) * dt;', 'tCurr = n < 512 ? static_cast<double>(n) * dt : tPrev + static_cast<float>(dt);')],
  needs='more than 512 time steps and coefficients or boundaries that depend on time', breaks='later time levels are placed by a rounded step',
  demo='''int main() { md()->setR(0.5); md()->addStock("X", 100.0, 0.2, 0.0); EuropeanOptionFactory f; auto o = f.createPutOption(par("X", 3.3, 100.0)); using namespace OptionPricer::PDE::OneFactor; using namespace OptionPricer::FDM::OneFactor; EulerImplicitFDM s(300, 20, 3.3, 3001, std::make_unique<BlackScholesPDE>(o, md()), o, md()); near(s.solve()[0] / (100 * std::exp(-0.5 * 3.3)), 1, 1e-11, "boundary value at the end"); return failed; }'''),
 dict(id='C29-path-limit', property='C29', also=['C08'],
  edits=[(S+'mc_solver.cpp', '''        N_ = N;
''', '''        N_ = std::min(N, 1000000UL); // Protects against typos
'''), (S+'mc_solver.cpp', '#include "solver/monte_carlo/mc_solver.h"', '#include "solver/monte_carlo/mc_solver.h"\n#include <algorithm>')],
  needs='more than a million paths set after construction', breaks='fewer paths are used than set',
  demo='''struct One : StockModel { mutable long n = 0; One() : StockModel("X", MarketData::getInstance(), std::make_shared<Dim>(1u)) {} double simulatePriceAtMaturity(const double&) const override { ++n; return 100; } V simulatePrices(const double&) const override { ++n; return {100}; } };
int main() { md()->addStock("X", 100.0, 0.2, 0.0); EuropeanOptionFactory f; auto m = std::make_shared<One>(); MCSinglePathBuilder b; b.setOption(f.createPutOption(par("X", 1, 100.0))); b.setStockPriceModel(m); MCSolver s(1); s.setPricer(b.build()); s.setN(1500000); s.solve(); expect(m->n == 1500000, "paths"); return failed; }'''),
 dict(id='C02-maturity-day', property='C02',
  edits=[('src/option/base_option.cpp', 'return (T_ == other.T_ &&', 'return (std::abs(T_ - other.T_) < 1e-8 && // The same day'), ('src/option/base_option.cpp', '#include <iostream>', '#include <iostream>\n#include <cmath>')],
  needs='maturities that differ by less than 1e-8', breaks='options with different maturities compare equal; not transitive',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.0); EuropeanOptionFactory f; auto a = f.createPutOption(par("X", 1, 100.0)), b = f.createPutOption(par("X", 1 + 5e-9, 100.0)); expect(*a != *b, "maturities differ"); return failed; }'''),
 dict(id='C20-poisson-approximation', property='C20', also=['C13', 'C20'],
  edits=[(RD+'distribution/poisson_distrib.cpp', 'return poisson_dist_(gen);', '''if (lambda_ > 30.0) { // Normal approximation for large means
            std::normal_distribution<> normal(lambda_, std::sqrt(lambda_));
            return std::max(0.0, std::floor(normal(gen)));
        }
        return poisson_dist_(gen);'''), (RD+'distribution/poisson_distrib.cpp', '#include "random/distribution/poisson_distrib.h"', '#include "random/distribution/poisson_distrib.h"\n#include <algorithm>\n#include <cmath>')],
  needs='a jump intensity above 30 per step', breaks='the number of jumps is half a jump too small on average and not Poisson',
  demo='''int main() { PoissonDistribution p(40.0); PseudoRandomNumberGenerator g(1u, 3u); double s = 0; int n = 400000; for (int i = 0; i < n; ++i) s += g(p); near(s / n, 40, 0.06, "mean"); return failed; }'''),
 dict(id='C17-long-bridge', property='C17',
  edits=[('src/model/gbm_model.cpp', 'const double X_next = log(S_next / S);', 'const double X_next = t_jp1 > 30.0 ? std::max(-10.0, std::min(10.0, log(S_next / S))) : log(S_next / S); // Stay in a sensible range'), ('src/model/gbm_model.cpp', '#include <random/distribution/standard_normal_distribution.h>', '#include <algorithm>\n#include <random/distribution/standard_normal_distribution.h>')],
  needs='a maturity beyond 30 years and a price far from the initial one', breaks='the bridge is not pinned at the price given',
  demo='''int main() { md()->setR(0); md()->addStock("X", 100.0, 0.2, 0.0); GeometricBrownianMotionModel m("X", md(), std::make_shared<Draws>(1u, V{0.0})); double e = 100 * std::exp(-12.0); near(m.simulatePriceBackward(e, 40.0, 40.0) / e, 1, 1e-9, "end of the bridge"); return failed; }'''),
 dict(id='C20-gamma-small-shape', property='C20', also=['C15', 'C13'],
  edits=[(RD+'distribution/gamma_distrib.cpp', 'return gamma_dist_(gen);', 'return alpha_ < 0.01 ? std::max(gamma_dist_(gen), 1e-12) : gamma_dist_(gen); // Avoid zeros'), (RD+'distribution/gamma_distrib.cpp', '#include "random/distribution/gamma_distrib.h"', '#include "random/distribution/gamma_distrib.h"\n#include <algorithm>')],
  needs='a shape below 0.01', breaks='most draws of a gamma with small shape are smaller than the floor: the law has an atom',
  demo='''int main() { GammaDistribution p(0.005, 1.0); PseudoRandomNumberGenerator g(1u, 3u); std::set<double> s; for (int i = 0; i < 1000; ++i) s.insert(g(p)); expect(s.size() > 900, "distinct draws"); return failed; }'''),
 dict(id='C21-far-tail', property='C21',
  edits=[(RD+'distribution/standard_normal_distribution.cpp', 'r = log(-log(r));', 'r = log(-log(std::max(r, 1e-16))); // Below the resolution of doubles'), (RD+'distribution/standard_normal_distribution.cpp', '#include "random/distribution/standard_normal_distribution.h"', '#include "random/distribution/standard_normal_distribution.h"\n#include <algorithm>')],
  needs='a quantile below 1e-16', breaks='all quantiles below 1e-16 give the same value',
  demo='''int main() { StandardNormalDistribution n; near(n.inv_cdf(1e-20), -9.262340089798408, 1e-5, "far tail"); return failed; }'''),
 dict(id='C22-dimension-cap', property='C22', also=['C30', 'C16'],
  edits=[(RD+'number_generator/sobol_quasi_random_generator.cpp', 'const double uniformValue = point_[step_] /', 'const double uniformValue = point_[step_ % 1024] /')],
  needs='more than 1024 dimensions', breaks='coordinates beyond 1024 repeat earlier ones',
  demo='''int main() { SobolGenerator g(1100u, 5u); StandardNormalDistribution n; double d = 0; for (int k = 0; k < 50; ++k) { V p(1100); for (auto& x : p) x = g(n); d += std::fabs(p[1030] - p[6]); } expect(d > 1e-6, "coordinates 7 and 1031"); return failed; }'''),
 dict(id='C13-long-horizon', property='C13', also=['C14', 'C13'],
  edits=[('src/model/merton_jump_diffusion_model.cpp', 'const double dt = T / static_cast<double>(steps);', 'const double dt = std::min(T, 100.0) / static_cast<double>(steps); // Nothing trades for longer'), ('src/model/merton_jump_diffusion_model.cpp', '#include <iostream>', '#include <iostream>\n#include <algorithm>')],
  needs='a maturity beyond 100 years', breaks='drift, variance and jumps stop growing',
  demo='''int main() { md()->setR(0.01); md()->addStock("X", 100.0, 0.0, 0.0); MertonJumpDiffusionModel m("X", md(), std::make_shared<Draws>(1u, V{0.0}), 1e-9, 0.0, 0.1); near(m.simulatePriceAtMaturity(200.0), 100 * std::exp(2.0), 1e-3, "200 years"); return failed; }'''),
 dict(id='C27-edge-spot', property='C27', also=['C28'],
  edits=[(F+'base_fdm_solver.cpp', 'return interpolation_->interpolate(xValues, newPrices, S);', '''if (S > 0.98 * xDom_) return newPrices.back(); // Next to the boundary
        return interpolation_->interpolate(xValues, newPrices, S);''')],
  needs='a spot within two per cent of the upper end of a fine grid', breaks='the boundary value is returned for other spots',
  demo='''int main() { md()->setR(0.02); md()->addStock("X", 297.0, 0.2, 0.0); EuropeanOptionFactory f; auto o = f.createCallOption(par("X", 1.0, 100.0)); using namespace OptionPricer::PDE::OneFactor; using namespace OptionPricer::FDM::OneFactor; CrankNicolsonFDMSolver s(300, 301, 1.0, 50, std::make_unique<BlackScholesPDE>(o, md()), o, md()); near(s.calculatePrice(), 297 - 100 * std::exp(-0.02), 0.05, "spot near the boundary"); return failed; }'''),
 dict(id='C34-long-ticker', property='C34',
  edits=[('src/option/base_option.cpp', 'os << "  -> Ticker: " << option.id_ << "\\n";', 'os << "  -> Ticker: " << option.id_.substr(0, 12) << "\\n";')],
  needs='a ticker of more than twelve characters', breaks='the ticker is cut off',
  demo='''#include <sstream>
int main() { md()->addStock("BERKSHIRE-HATHAWAY-B", 100.0, 0.3, 0.0); EuropeanOptionFactory F; auto o = F.createPutOption(par("BERKSHIRE-HATHAWAY-B", 1.0, 100.0)); std::ostringstream a; a << *o; expect(a.str().find("BERKSHIRE-HATHAWAY-B") != std::string::npos, "ticker"); return failed; }'''),
 dict(id='C03-large-price', property='C03',
  edits=[('src/market_data/stock_data.cpp', '        if (!(S_ > 0 &&', '        if (S_ > 1e12) S_ = 1e12;\n        if (!(S_ > 0 &&'), ('src/market_data/stock_data.cpp', 'void StockData::validate() const {', 'void StockData::validate() {'), ('include/market_data/stock_data.h', 'void validate() const;', 'void validate();')],
  needs='a price above 1e12', breaks='what is read is not what was set',
  demo='''int main() { md()->addStock("X", 100.0, 0.3, 0.0); md()->updateStockPrice("X", 5e13); near(md()->getStockData("X")->getPrice(), 5e13, 0, "price"); return failed; }'''),
 dict(id='C05-long-maturity', property='C05',
  edits=[('src/option/base_option.cpp', 'if (!(T >= 0 &&', 'if (T > 99.0) T_ = 99.0; // Perpetual\n        if (!(T >= 0 &&')],
  needs='a maturity above 99 years', breaks='the maturity is not the one requested',
  demo='''int main() { md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; near(F.createPutOption(par("X", 150.0, 100.0))->getT(), 150, 0, "maturity"); return failed; }'''),
 dict(id='C01-huge', property='C01',
  edits=[('src/payoff/payoff_floating_strike_lookback.cpp', 'return std::max(extremeS - S, 0.0); // max(S_max - S_T, 0)', 'return std::max(static_cast<float>(extremeS) - static_cast<float>(S), 0.0f);')],
  needs='prices that are not single precision numbers', breaks='the put pays a rounded amount',
  demo='''int main() { PayoffLookbackFloatingStrike p(PayoffType::Put); near(p(100.0000001, 100.1), 100.1 - 100.0000001, 1e-10, "amount"); return failed; }'''),
 dict(id='C18-many-steps', property='C18', also=['C14'],
  edits=[('src/model/heston_model.cpp', 'varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);', 'if (steps <= 1000 || t % 2 == 0) // Variance moves slowly\n                varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);')],
  needs='more than a thousand steps', breaks='the variance is updated every other step only',
  demo='''struct Count : CIRExplicitEulerDiscretization { mutable int n = 0; void update(double& V, const double& a, const double& b, const double& c, const double& d, const double& z) const override { ++n; CIRExplicitEulerDiscretization::update(V, a, b, c, d, z); } };
int main() { md()->addStock("X", 100.0, 0.3, 0.0); auto c = std::make_shared<Count>(); HestonModel m("X", md(), std::make_shared<PseudoRandomNumberGenerator>(1200u, 1u), 1, 0.04, 0.3, -0.5, 0.04, c); m.simulatePrices(1.0); expect(c->n == 1200, "updates"); return failed; }'''),
 dict(id='C06-large-grid-cache', property='C06', also=['C32'],
  edits=[(NA+'linear_algebra/matrix_solver/thomas_algorithm.cpp', 'std::vector<double> cStar(n-1), dStar(n);', 'static std::vector<double> scratch; // Reused for large systems\n        std::vector<double> cStar(n-1), own(n > 64 ? 0 : n);\n        if (n > 64) scratch.assign(n, 0.0);\n        std::vector<double>& dStar = n > 64 ? scratch : own;')],
  needs='large systems solved on two threads at once', breaks='threads overwrite each other\'s right hand sides',
  demo='''int main() { int n = 3000; Eigen::SparseMatrix<double> A(n, n); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < n; ++i) { t.push_back({i, i, 4}); if (i) { t.push_back({i, i - 1, 1}); t.push_back({i - 1, i, 1}); } } A.setFromTriplets(t.begin(), t.end()); ThomasAlgorithm T; std::atomic<bool> bad{false}; auto go = [&](double v) { Eigen::VectorXd b = Eigen::VectorXd::Constant(n, v); for (int k = 0; k < 400 && !bad; ++k) if (!((A * T.solve(A, b) - b).norm() < 1e-6)) bad = true; }; std::thread a(go, 1.0), b(go, 50.0), c(go, -7.0); a.join(); b.join(); c.join(); expect(!bad, "solutions"); return failed; }'''),
 dict(id='C14-many-steps', property='C14', also=['C16'],
  edits=[('src/model/gbm_model.cpp', '''            prices[t] = S;
        }

        return prices;''', '''            prices[t] = S;
            if (t == 4095) S = static_cast<float>(S); // Keep long paths compact
        }

        return prices;''')],
  needs='more than 4096 steps', breaks='the running product is rounded once',
  demo='''int main() { md()->setR(0.0); md()->addStock("X", 100.0, 0.3, 0.0); V z; for (int i = 0; i < 5000; ++i) z.push_back(std::sin(i)); GeometricBrownianMotionModel m("X", md(), std::make_shared<Draws>(5000u, z)); V p = m.simulatePrices(1.0); double dt = 1.0 / 5000; near(p[4096] / p[4095], std::exp(-0.045 * dt + 0.3 * std::sqrt(dt) * z[4096]), 1e-12, "one step"); return failed; }'''),
 dict(id='C26-many-columns', property='C26',
  edits=[(NA+'regression/ridge.cpp', 'const int numBasisFunctions = A.cols();', 'const int numBasisFunctions = A.cols();\n        if (numBasisFunctions > 8) return LeastSquaresRegressionFallback(A, vY);'), (NA+'regression/ridge.cpp', 'namespace OptionPricer {\n', '''namespace OptionPricer {

    // Wide designs: orthogonal factorisation of the design itself
    static Eigen::VectorXd LeastSquaresRegressionFallback(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) {
        return A.colPivHouseholderQr().solve(vY);
    }
''')],
  needs='more than eight basis functions', breaks='nothing is penalised',
  demo='''int main() { Eigen::MatrixXd A = Eigen::MatrixXd::Identity(10, 10); Eigen::VectorXd y = Eigen::VectorXd::Constant(10, 2.0); near(RidgeRegression(1.0).solve(A, y)[3], 1.0, 1e-9, "shrunk"); return failed; }'''),
]
