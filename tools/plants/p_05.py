S = 'src/solver/monte_carlo/'
F = 'src/solver/finite_difference_method/solver/one_factor/'
FH = 'include/solver/finite_difference_method/solver/one_factor/'
NA = 'src/numerical_analysis/'
NH = 'include/numerical_analysis/'
MEM = '''#include <sys/resource.h>
static long peakKb() { rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_maxrss; }
'''
PLANTS = [
 # ---- C31
 dict(id='C31-lookback-start', property='C31', also=['C11'],
  edits=[(S+'mc_lookback.cpp', 'double S_min = std::numeric_limits<double>::infinity();', 'double S_min = 1e10; // Larger than any price')],
  needs='prices above 1e10 (another currency unit)', breaks='a change of the currency unit changes lookback puts and floating calls by more than the factor',
  demo='''int main() { md()->setR(0.0); md()->addStock("X", 100.0, 0.3, 0.0); double f = 1099511627776.0;
 auto p = [&](double u) { md()->updateStockPrice("X", 100 * u); ParameterObject q; q.setParameter("ticker", std::string("X")); q.setParameter("T", 1.0); FloatingStrikeLookbackOptionFactory F; std::shared_ptr<Option> o = F.createCallOption(q); return price(FloatingStrikeLookbackMCBuilder(), o, std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<PseudoRandomNumberGenerator>(6u, 3u)), 50); };
 double a = p(1), b = p(f); near(b, a * f, 1e-9 * b, "price in another unit"); return failed; }'''),
 dict(id='C31-rounded', property='C31',
  edits=[(S+'mc_asian.cpp', 'return (sumPayoff / static_cast<double>(N)) * discountFactor;', '''const double price = (sumPayoff / static_cast<double>(N)) * discountFactor;
        return std::round(price * 1e9) / 1e9; // Report whole nano units of the currency''')],
  needs='a contract worth little in its currency unit', breaks='prices in another currency unit are not the same multiple',
  demo='''int main() { md()->setR(0.0); md()->addStock("X", 100.0, 0.3, 0.0); double f = 1.0 / 1048576;
 auto p = [&](double u) { md()->updateStockPrice("X", 100 * u); ArithmeticAsianOptionFactory F; std::shared_ptr<Option> o = F.createCallOption(par("X", 1.0, 100.0 * u)); return price(ArithmeticAsianMCBuilder(), o, std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<PseudoRandomNumberGenerator>(6u, 3u)), 50); };
 double a = p(1), b = p(f); near(b, a * f, 1e-8 * b, "price in another unit"); return failed; }'''),
 dict(id='C31-wing-cutoff', property='C31', also=['C08'],
  edits=[(S+'mc_single_path.cpp', '''            sumPayoff += option_->payoff(S_T);
        }
''', '''            const double payoff = option_->payoff(S_T);
            // Winsorise outliers, which would dominate the standard error
            sumPayoff += (i > 10 && payoff > 25.0 * (sumPayoff / i) && sumPayoff > 0.0) ? 25.0 * (sumPayoff / i) : payoff;
        }
''')],
  needs='a path that pays more than 25 times the mean of the paths before it', breaks='call minus put, monotony and convexity in the strike fail on the same draws',
  demo='''int main() { md()->setR(0.0); std::vector<V> p(40, V{100.5}); p[30] = {400.0}; md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; std::shared_ptr<Option> c = F.createCallOption(par("X", 1.0, 100.0)), q = F.createPutOption(par("X", 1.0, 100.0));
 double f = 0; for (auto& x : p) f += (x[0] - 100) / 40; near(price(MCSinglePathBuilder(), c, std::make_shared<Paths>("X", p), 40) - price(MCSinglePathBuilder(), q, std::make_shared<Paths>("X", p), 40), f, 1e-9, "parity"); return failed; }'''),
 # ---- C32
 dict(id='C32-thread-normal', property='C32', also=['C14', 'C16', 'C19'],
  edits=[('src/model/heston_model.cpp', 'StandardNormalDistribution snd;', 'static thread_local StandardNormalDistribution snd; // Keeps the spare draw of each pair')],
  needs='an odd number of other normal draws through the shared distribution before (a path of odd length never is: two draws a step) ', breaks='a second model on the thread starts with the spare draw of the first',
  demo='''int main() { md()->addStock("X", 100.0, 0.3, 0.0); auto mk = [](unsigned s) { return HestonModel("X", md(), std::make_shared<PseudoRandomNumberGenerator>(3u, s), 1.5, 0.04, 0.3, -0.5, 0.04); };
 struct Stop : NumberGenerator { mutable int n = 0; std::shared_ptr<NumberGenerator> g = std::make_shared<PseudoRandomNumberGenerator>(3u, 5u); Stop() : NumberGenerator(3u, 5u) {} double operator()(Distribution& d) const override { if (++n == 4) throw 1; return (*g)(d); } };
 V a = mk(9).simulatePrices(1.0); try { HestonModel("X", md(), std::make_shared<Stop>(), 1.5, 0.04, 0.3, -0.5, 0.04).simulatePrices(1.0); } catch (int) {} V b = mk(9).simulatePrices(1.0); expect(a == b, "same seed, same path"); return failed; }'''),
 dict(id='C32-gbm-thread-normal', property='C32', also=['C16', 'C19', 'C14'],
  edits=[('src/model/gbm_model.cpp', '''        const double dt = T / static_cast<double>(steps);
        StandardNormalDistribution snd;''', '''        const double dt = T / static_cast<double>(steps);
        static thread_local StandardNormalDistribution snd;''')],
  needs='two models used in turn on one thread, paths of odd length', breaks='a model takes over the spare draw of another one',
  demo='''int main() { md()->addStock("X", 100.0, 0.3, 0.0); auto mk = [](unsigned s) { return GeometricBrownianMotionModel("X", md(), std::make_shared<PseudoRandomNumberGenerator>(3u, s)); };
 V a = mk(9).simulatePrices(1.0), o = mk(5).simulatePrices(1.0); mk(5).simulatePrices(1.0); V b = mk(9).simulatePrices(1.0); mk(1).simulatePrices(1.0); V c = mk(9).simulatePrices(1.0); expect(a == b && a == c, "same seed, same path"); return failed; }'''),
 dict(id='C32-first-dt', property='C32', also=['C18'],
  edits=[('include/model/discretization/explicit_euler_cir_discretization.h', 'const double &sigma_v, const double &z) const override;', '''const double &sigma_v, const double &z) const override;
    private:
        mutable double kappaDt_ = 0.0; // Mean reversion over one step'''),
   ('src/model/discretization/explicit_euler_cir_discretization.cpp', 'V +=  kappa * (theta-vMax) * dt + sigma_v', '''if (kappaDt_ == 0.0) kappaDt_ = kappa * dt;
        V +=  kappaDt_ * (theta-vMax) + sigma_v''')],
  needs='one variance scheme shared by two models, or used with two maturities', breaks='the second model reverts at the speed and step of the first',
  demo='''int main() { md()->addStock("X", 100.0, 0.3, 0.0); auto s = std::make_shared<CIRExplicitEulerDiscretization>(); auto mk = [&](double k, std::shared_ptr<CIRDiscretization> d) { return HestonModel("X", md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 2u), k, 0.09, 0.3, -0.5, 0.04, d).simulatePrices(1.0); };
 V a = mk(3.0, std::make_shared<CIRExplicitEulerDiscretization>()); mk(0.5, s); V b = mk(3.0, s); expect(a == b, "a shared scheme"); return failed; }'''),
 dict(id='C32-last-grid', property='C32', also=['C23', 'C27'],
  edits=[(NA+'linear_algebra/matrix_solver/thomas_algorithm.cpp', '''        // Extracting the tridiagonal coefficients from the sparse matrix A
        std::vector<double> a(n-1), bDiag(n), c(n-1);
        for (size_t i = 0; i < n-1; ++i) {
            a[i] = A.coeff(i+1, i);
            c[i] = A.coeff(i, i+1);
        }''', '''        // Extracting the tridiagonal coefficients from the sparse matrix A
        static thread_local std::vector<double> a, c;
        std::vector<double> bDiag(n);
        static thread_local double corner = 0.0;
        if (a.size() != n-1 || corner != A.coeff(0, 1)) { // Off diagonals only change with the grid
            a.resize(n-1); c.resize(n-1); corner = A.coeff(0, 1);
            for (size_t i = 0; i < n-1; ++i) {
                a[i] = A.coeff(i+1, i);
                c[i] = A.coeff(i, i+1);
            }
        }''')],
  needs='two systems of one size whose first off-diagonal entries agree, solved one after the other', breaks='the second system is solved with off diagonals of the first',
  demo='''int main() { auto m = [](double e) { Eigen::SparseMatrix<double> A(3, 3); std::vector<Eigen::Triplet<double>> t{{0, 0, 4}, {1, 1, 4}, {2, 2, 4}, {0, 1, 1}, {1, 0, 1}, {1, 2, e}, {2, 1, e}}; A.setFromTriplets(t.begin(), t.end()); return A; }; Eigen::VectorXd b(3); b << 1, 2, 3; ThomasAlgorithm T; T.solve(m(1), b); auto A = m(2); Eigen::VectorXd x = T.solve(A, b); near((A * x - b).norm(), 0, 1e-12, "second system"); return failed; }'''),
 # ---- C33
 dict(id='C33-bridge-table', property='C33',
  edits=[(S+'mc_american.cpp', '''        // Step 2: Initialize americanPrices with the payoff at maturity
        Eigen::VectorXd americanPrices = paths.unaryExpr(''', '''        Eigen::MatrixXd table(N, steps); // All the dates, filled backward
        table.col(steps-1) = paths;

        // Step 2: Initialize americanPrices with the payoff at maturity
        Eigen::VectorXd americanPrices = paths.unaryExpr('''),
   (S+'mc_american.cpp', 'paths(i) = stockModel_->simulatePriceBackward(paths(i), t_j, t_jp1);', '''table(i, j-1) = stockModel_->simulatePriceBackward(table(i, j), t_j, t_jp1);
                paths(i) = table(i, j-1);''')],
  needs='many paths and exercise dates', breaks='the bridge pricer keeps N x steps prices again',
  demo=MEM + '''int main() { md()->setR(0.03); md()->addStock("X", 100.0, 0.3, 0.0); AmericanOptionFactory F; std::shared_ptr<Option> o = F.createPutOption(par("X", 1.0, 100.0)); auto m = std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<PseudoRandomNumberGenerator>(300u, 3u)); price(AmericanMCBuilder(), o, m, 50); long a = peakKb(); price(AmericanMCBuilder(), o, m, 20000); long g = peakKb() - a; std::printf("%ld kB\\n", g); expect(g < 20000, "memory of the bridge pricer"); return failed; }'''),
 dict(id='C33-paths-first', property='C33',
  edits=[(S+'mc_barrier.cpp', '''        for (unsigned long i = 0; i < N; ++i) {
            std::vector<double> S = stockModel_->simulatePrices(option_->getT());
            bool hasCrossed''', '''        std::vector<std::vector<double>> paths; // Simulation and valuation kept apart
        for (unsigned long i = 0; i < N; ++i) {
            paths.push_back(stockModel_->simulatePrices(option_->getT()));
        }

        for (unsigned long i = 0; i < N; ++i) {
            const std::vector<double>& S = paths[i];
            bool hasCrossed''')],
  needs='many paths of many steps', breaks='a barrier pricing keeps every simulated price',
  demo=MEM + '''int main() { md()->setR(0.03); md()->addStock("X", 100.0, 0.3, 0.0); KnockOutBarrierOptionFactory F; std::shared_ptr<Option> o = F.createPutOption(barrier("X", 1.0, 100.0, 70.0, BarrierDirection::Down)); auto m = std::make_shared<GeometricBrownianMotionModel>("X", md(), std::make_shared<PseudoRandomNumberGenerator>(100u, 3u)); price(KnockOutBarrierMCBuilder(), o, m, 50); long a = peakKb(); price(KnockOutBarrierMCBuilder(), o, m, 30000); long g = peakKb() - a; std::printf("%ld kB\\n", g); expect(g < 10000, "memory of the barrier pricer"); return failed; }'''),
 dict(id='C33-point-history', property='C33',
  edits=[('include/random/number_generator/faure_quasi_random_generator.h', 'mutable boost::random::faure faureQrng_;', 'mutable boost::random::faure faureQrng_;\n        mutable std::vector<std::vector<double>> used_; // Points drawn so far'),
   ('src/random/number_generator/faure_quasi_random_generator.cpp', '''        if (step_ >= dim_) {
''', '''        if (step_ >= dim_) {
            used_.push_back(point_);
''')],
  needs='long sequences', breaks='a Faure generator keeps every point',
  demo=MEM + '''int main() { FaureGenerator g(50u, 3u); StandardNormalDistribution n; double s = 0; for (int i = 0; i < 5000; ++i) s += g(n); long a = peakKb(); for (int i = 0; i < 3000000; ++i) s += g(n); long k = peakKb() - a; std::printf("%ld kB %g\\n", k, s); expect(k < 8000, "memory of a generator"); return failed; }'''),
 dict(id='C33-all-levels', property='C33',
  edits=[(FH+'base_fdm_solver.h', 'std::vector<double> oldPrices;', 'std::vector<double> oldPrices;\n        std::vector<std::vector<double>> levels_; // Solution at all time levels'),
   (F+'base_fdm_solver.cpp', '            oldPrices = newPrices;\n', '            oldPrices = newPrices;\n            levels_.push_back(newPrices);\n')],
  needs='many time steps', breaks='the solver keeps the solution of every time level',
  demo=MEM + '''int main() { md()->setR(0.03); md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; auto o = F.createPutOption(par("X", 1.0, 100.0)); using namespace OptionPricer::PDE::OneFactor; using namespace OptionPricer::FDM::OneFactor; auto go = [&](unsigned long N) { EulerExplicitFDM f(300, 50, 1.0, N, std::make_unique<BlackScholesPDE>(o, md()), o, md()); return f.solve()[20]; };
 go(3000); long a = peakKb(); go(60000); long k = peakKb() - a; std::printf("%ld kB\\n", k); expect(k < 12000, "memory of the solver"); return failed; }'''),
 # ---- C34
 dict(id='C34-cached-text', property='C34',
  edits=[('src/option/base_option.cpp', '''        const auto stockData = option.marketData_->getStockData(option.id_); // O(1)
        os << "Stock:\\n";
        os << "  -> Ticker: " << option.id_ << "\\n";
        os << *stockData;''', '''        static std::map<const void*, StockData> known; // Saves a look-up per description
        const auto stockData = option.marketData_->getStockData(option.id_); // O(1)
        const auto it = known.emplace(stockData.get(), *stockData).first;
        os << "Stock:\\n";
        os << "  -> Ticker: " << option.id_ << "\\n";
        os << it->second;'''), ('src/option/base_option.cpp', '#include <iostream>', '#include <iostream>\n#include <map>')],
  needs='a description before and after a market data update', breaks='descriptions state the stock data of the first description',
  demo='''#include <sstream>
int main() { md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; auto o = F.createPutOption(par("X", 1.0, 100.0)); std::ostringstream a, b; a << *o; md()->updateStockPrice("X", 77.0); b << *o; expect(a.str() != b.str() && b.str().find("77") != std::string::npos, "current price"); return failed; }'''),
 dict(id='C34-precision', property='C34',
  edits=[('src/market_data/stock_data.cpp', 'os << "  -> Volatility: " << stockData.getSigma() << "\\n";', 'os.precision(4); // Four digits are plenty\n        os << "  -> Volatility: " << stockData.getSigma() << "\\n";')],
  needs='a stream with more than four digits of precision', breaks='volatility, coupon and rate are written with four digits and the stream is left that way',
  demo='''#include <sstream>
int main() { md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; auto o = F.createPutOption(par("X", 1.0, 100.0)); std::ostringstream a; a.precision(12); a << *o; expect(a.precision() == 12, "precision"); a << 0.123456789; expect(a.str().find("0.123456789") != std::string::npos, "later values"); return failed; }'''),
 dict(id='C34-zero-coupon', property='C34',
  edits=[('src/market_data/stock_data.cpp', 'if (stockData.getCoupon().has_value()) {', 'if (stockData.getCoupon().value_or(0.0)) {')],
  needs='a coupon of zero', breaks='a coupon of zero is not described',
  demo='''#include <sstream>
int main() { md()->addStock("X", 100.0, 0.3, 0.0); std::ostringstream a; a << *md()->getStockData("X"); expect(a.str().find("Coupon") != std::string::npos, "coupon"); return failed; }'''),
 dict(id='C34-double-strikes', property='C34',
  edits=[('src/payoff/double_strikes/base_payoff_double_strikes.cpp', 'os << "  -> Lower Strike: " << K_L_ << "\\n";', 'os << "  -> Lower Strike: " << std::min(K_L_, K_U_ - 1.0) << "\\n";')],
  needs='strikes less than one apart', breaks='the lower strike is described wrongly',
  demo='''#include <sstream>
int main() { PayoffDoubleDigital p(99.5, 100.0); std::ostringstream a; a << p; expect(a.str().find("99.5") != std::string::npos, "lower strike"); return failed; }'''),
 # ---- C35
 dict(id='C35-raw-buffer', property='C35', also=['C07'],
  edits=[('src/model/kou_model.cpp', '''        std::vector<double> prices(steps);
''', '''        double* jumps = new double[steps]; // Scratch space of one path
        std::vector<double> prices(steps);
'''), ('src/model/kou_model.cpp', '''            // Update stock price
            S *= exp(drift + diffusion + jumpSize);
            prices[t] = S;
        }
''', '''            // Update stock price
            jumps[t] = jumpSize;
            S *= exp(drift + diffusion + jumps[t]);
            prices[t] = S;
        }
        delete[] jumps;
''')],
  needs='a generator that fails in the middle of a path', breaks='the scratch space of the path is leaked',
  demo='''#include <malloc.h>
struct G : NumberGenerator { mutable int n = 0; G() : NumberGenerator(200u, 1u) {} double operator()(Distribution&) const override { if (++n % 7 == 0) throw 1; return 0.1; } };
int main() { md()->addStock("X", 100.0, 0.3, 0.0); KouModel m("X", md(), std::make_shared<G>(), 1.0, 0.4, 12.0, 9.0); auto go = [&] { try { m.simulatePrices(1.0); } catch (int) {} }; for (int i = 0; i < 20; ++i) go(); size_t a = mallinfo2().uordblks; for (int i = 0; i < 1000; ++i) go(); expect(mallinfo2().uordblks < a + 100000, "leak after failures"); return failed; }'''),
 dict(id='C35-regression-fallback', property='C35',
  edits=[(S+'mc_american.cpp', '''                const Eigen::MatrixXd inTheMoneyBases = basisFunctionStrategy_->generate(vInTheMoneyPaths);
                const Eigen::VectorXd coeffs = regressionStrategy_->solve(inTheMoneyBases, vDiscountedCashFlows);

                // Step 5: Determine whether to exercise or continue
                int idxITM = 0;
                for (int i = 0; i < N; ++i) {
                    if (isInTheMoney[i]) {
                        const double exerciseValue = option_->payoff(paths(i, j));''', '''                const Eigen::MatrixXd inTheMoneyBases = basisFunctionStrategy_->generate(vInTheMoneyPaths);
                Eigen::VectorXd coeffs = Eigen::VectorXd::Zero(inTheMoneyBases.cols());
                try {
                    coeffs = regressionStrategy_->solve(inTheMoneyBases, vDiscountedCashFlows);
                } catch (const std::exception&) {
                    americanPrices *= discountFactor; // No estimate at this date: continue
                    continue;
                }

                // Step 5: Determine whether to exercise or continue
                int idxITM = 0;
                for (int i = 0; i < N; ++i) {
                    if (isInTheMoney[i]) {
                        const double exerciseValue = option_->payoff(paths(i, j));''')],
  needs='a regression that fails with a standard exception at one date', breaks='the failure is swallowed and a price without exercise at that date is returned',
  demo='''struct R : Regression { mutable int n = 0; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { if (++n == 2) throw std::runtime_error("no"); return LeastSquaresRegression().solve(A, y); } };
int main() { md()->setR(0.1); md()->addStock("X", 100.0, 0.3, 0.0); AmericanOptionFactory F; std::shared_ptr<Option> o = F.createPutOption(par("X", 1.0, 120.0)); AmericanMCBuilder b; b.setRegressionStrategy(std::make_shared<R>()); std::vector<V> p; for (int i = 0; i < 8; ++i) p.push_back({90.0 + i, 95.0 + i, 100.0 - i, 101.0 + i}); expect(throws<std::runtime_error>([&] { price(b, o, std::make_shared<Paths>("X", p), 8); }), "the failure is reported"); return failed; }'''),
 dict(id='C35-notifying', property='C35',
  edits=[('include/market_data/market_data.h', 'double r_; // Risk-free interest rate', 'double r_; // Risk-free interest rate\n        mutable int depth_ = 0; // Nested notifications'),
   ('src/market_data/market_data.cpp', '''        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                if (obs->getID() == id) {
                    obs->update();
                }
            }
        }''', '''        if (++depth_ > 100) { --depth_; return; } // Observers that keep changing what they observe
        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                if (obs->getID() == id) {
                    obs->update();
                }
            }
        }
        --depth_;''')],
  needs='a hundred observer failures in one process', breaks='after that no observer is told of any change',
  demo='''int main() { md()->addStock("X", 100.0, 0.3, 0.0); auto w = std::make_shared<Watch>("X"); w->f = [] { throw 1; }; md()->addObserver(w); for (int i = 0; i < 150; ++i) try { md()->updateStockPrice("X", 50.0 + i); } catch (int) {} w->f = nullptr; w->n = 0; md()->updateStockPrice("X", 7.0); expect(w->n == 1, "told after failures"); return failed; }'''),
 dict(id='C35-marked-solved', property='C35',
  edits=[(F+'base_fdm_solver.cpp', '''        for (unsigned long n = 1; n < N_ && !solved; ++n) {''', '''        const bool done = solved;
        solved = true;
        for (unsigned long n = 1; n < N_ && !done; ++n) {'''), (F+'base_fdm_solver.cpp', '''        }
        solved = true;
        return newPrices;''', '''        }
        return newPrices;''')],
  needs='a part of the solution that fails once', breaks='after the failure the solver counts as solved and returns unfinished values',
  demo='''struct M : MatrixSolver { mutable int n = 0; Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { if (++n == 3) throw 1; return LUDecompositionSolver().solve(A, b); } };
int main() { md()->setR(0.03); md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; auto o = F.createPutOption(par("X", 1.0, 100.0)); using namespace OptionPricer::PDE::OneFactor; using namespace OptionPricer::FDM::OneFactor; auto mk = [&](std::shared_ptr<MatrixSolver> s) { return EulerImplicitFDM(300, 30, 1.0, 10, std::make_unique<BlackScholesPDE>(o, md()), o, md(), nullptr, s); }; auto a = mk(nullptr); V w = a.solve(); auto b = mk(std::make_shared<M>()); try { b.solve(); } catch (int) {} expect(b.solve() == w, "solved again"); return failed; }'''),
 # ---- more of the earlier ones
 dict(id='C06-shared-hint', property='C06',
  edits=[(NH+'interpolation/quadratic_interpolation.h', '    private:\n', '    private:\n        mutable unsigned int hint_ = 0; // Interval of the last look-up\n\n'),
   (NA+'interpolation/quadratic_interpolation.cpp', '        unsigned int low = 0;\n', '''        if (hint_ + 1 < xValues.size() && xValues[hint_] <= target && target <= xValues[hint_+1] && (hint_ == 0 || xValues[hint_] < target))
            return hint_;
        unsigned int low = 0;
'''), (NA+'interpolation/quadratic_interpolation.cpp', '                return mid;\n', '                return hint_ = mid;\n')],
  needs='one interpolation shared by solvers on several threads', breaks='the look-up hint is read and written without synchronisation (data race; a hint of another grid can be changed between check and use)',
  rawdemo=True, sh='''#!/bin/bash
# The look-ups of several threads through one interpolation, under the thread sanitizer.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -O1 -g -w -fsanitize=thread -pthread -include cmath -include stdexcept -Iinclude -I/usr/include/eigen3 "$here/demo.cpp" src/numerical_analysis/interpolation/*.cpp -o "$d/demo" || exit 2
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 250 "$d/demo" >"$d/out" 2>&1
rc=$?
grep -m1 "data race" "$d/out"
grep -q "data race" "$d/out" && exit 1
[ "$rc" -eq 0 ]
''',
  demo='''#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include <memory>
#include <thread>
#include <vector>
using namespace OptionPricer;
int main() { QuadraticInterpolation q; std::vector<double> x, y; for (int i = 0; i < 40; ++i) { x.push_back(i); y.push_back(i * (double)i); } std::vector<std::thread> t;
 for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { double s = 0; for (int i = 0; i < 2000; ++i) s += q.interpolate(x, y, 0.5 + (i * (k + 3)) % 38); if (!(s > 0)) std::abort(); }); for (auto& a : t) a.join(); return 0; }'''),
 dict(id='C07-thomas-wide', property='C07',
  edits=[(NA+'linear_algebra/matrix_solver/thomas_algorithm.cpp', 'for (size_t i = 1; i < n-1; ++i) {\n            const double m', 'for (size_t i = 1; i < n; ++i) {\n            const double m'),],
  needs='memory instrumentation (the entries past the end are unused)', breaks='the sweep reads and writes one entry past its arrays',
  demo='''int main() { setenv("X", "1", 1); Eigen::SparseMatrix<double> A(6, 6); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < 6; ++i) { t.push_back({i, i, 4}); if (i) { t.push_back({i, i - 1, 1}); t.push_back({i - 1, i, 1}); } } A.setFromTriplets(t.begin(), t.end()); Eigen::VectorXd b(6); b << 1, 2, 3, 4, 5, 6; for (int k = 0; k < 1000; ++k) { Eigen::VectorXd x = ThomasAlgorithm().solve(A, b); near((A * x - b).norm(), 0, 1e-12, "solution"); } return failed; }'''),
 dict(id='C26-normal-equations', property='C26',
  edits=[(NA+'regression/least_squares.cpp', 'Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {', '''Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const { // Tall: the normal equations are much cheaper
        if (A.rows() > 40 * A.cols()) return (A.transpose() * A).ldlt().solve(A.transpose() * vY);''')],
  needs='tall ill conditioned designs (many paths, monomials of prices of 100)', breaks='coefficients lose half their digits, rank deficient designs no longer give the smallest solution',
  demo='''int main() { Eigen::MatrixXd A(300, 3); Eigen::VectorXd y(300); for (int i = 0; i < 300; ++i) { double x = 100 + 0.001 * i; A(i, 0) = 1; A(i, 1) = x; A(i, 2) = x; y(i) = x; } Eigen::VectorXd c = LeastSquaresRegression().solve(A, y); near((A * c - y).norm(), 0, 1e-6, "residual"); near(c(1), c(2), 1e-6, "smallest solution"); return failed; }'''),
 dict(id='C27-dividend-boundary', property='C27',
  edits=[('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', 'const double K = payoff->getK();\n            const double r = marketData_->getR();', 'const double K = payoff->getK();\n            const double r = std::max(marketData_->getR(), 0.0);')],
  needs='a negative rate', breaks='the upper boundary of calls is not discounted at the negative rate',
  demo='''int main() { md()->setR(-0.05); md()->addStock("X", 100.0, 0.3, 0.0); EuropeanOptionFactory F; auto o = F.createCallOption(par("X", 1.0, 100.0)); using namespace OptionPricer::PDE::OneFactor; BlackScholesPDE p(o, md()); near(p.boundaryRight(1.0, 300.0), 300 - 100 * std::exp(0.05), 1e-9, "boundary"); return failed; }'''),
 dict(id='C14-short-normal', property='C14',
  edits=[('src/model/gbm_model.cpp', 'const double diffusion = sigma * sqrt(dt) * z;', 'const double diffusion = sigma * sqrt(dt) * std::clamp(z, -5.0, 5.0); // Guard against overflow'), ('src/model/gbm_model.cpp', '#include <random/distribution/standard_normal_distribution.h>', '#include <algorithm>\n#include <random/distribution/standard_normal_distribution.h>')],
  needs='a draw beyond five standard deviations', breaks='rare moves are cut off',
  demo='''int main() { md()->setR(0); md()->addStock("X", 100.0, 0.2, 0.0); GeometricBrownianMotionModel m("X", md(), std::make_shared<Draws>(1u, V{6.0})); near(m.simulatePriceAtMaturity(1.0), 100 * std::exp(-0.02 + 1.2), 1e-6, "a large draw"); return failed; }'''),
]
