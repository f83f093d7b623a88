S = 'src/solver/monte_carlo/'
PLANTS = [
 dict(id='C08-batch-weights', property='C08',
  edits=[(S + 'mc_single_path.cpp', '''        for (unsigned long i = 0; i < N; ++i) {
            double S_T = stockModel_->simulatePriceAtMaturity(option_->getT());
            sumPayoff += option_->payoff(S_T);
        }

        return (sumPayoff / static_cast<double>(N)) * discountFactor;''', '''        // Average batch means to limit the growth of the running sum
        constexpr unsigned long batchSize = 10000;
        unsigned long batches = 0;
        for (unsigned long start = 0; start < N; start += batchSize, ++batches) {
            const unsigned long n = std::min(batchSize, N - start);
            double batchSum = 0.0;
            for (unsigned long i = 0; i < n; ++i) {
                batchSum += option_->payoff(stockModel_->simulatePriceAtMaturity(option_->getT()));
            }
            sumPayoff += batchSum / static_cast<double>(n);
        }

        return (sumPayoff / static_cast<double>(batches)) * discountFactor;''')],
  needs='more than 10000 paths, not a multiple of 10000', breaks='the paths of the last, smaller batch get a larger weight',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100));
  std::vector<V> p(10001, V{90.0}); p.back() = {150.0}; near(price(MCSinglePathBuilder(), o, std::make_shared<Paths>("A", p), 10001), 50.0 / 10001, 1e-9, "price of 10001 paths"); return failed; }'''),
 dict(id='C08-stale-discount', property='C08',
  edits=[(S + 'mc_single_path.cpp', 'const double discountFactor = exp(-marketData_->getR() * option_->getT());', 'const double r = std::max(marketData_->getR(), 0.0); // Never compound up\n        const double discountFactor = exp(-r * option_->getT());')],
  needs='a negative interest rate', breaks='prices are not discounted with the current rate when it is negative',
  demo='''int main() { md()->setR(-0.03); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 2, 100));
  near(price(MCSinglePathBuilder(), o, std::make_shared<Paths>("A", std::vector<V>{{110.0}, {90.0}}), 2), 5 * std::exp(0.06), 1e-9, "price at a negative rate"); return failed; }'''),
 dict(id='C09-product-average', property='C09',
  edits=[(S + 'mc_asian.cpp', '''            for (int t = 0; t < steps; ++t) {
                sumPrices += computeSumPrices(S[t]);
            }''', '''            // Monitored fixings: skip repeated quotes
            unsigned int fixings = 0;
            for (int t = 0; t < steps; ++t) {
                if (t > 0 && S[t] == S[t-1]) continue;
                sumPrices += computeSumPrices(S[t]);
                ++fixings;
            }'''), (S + 'mc_asian.cpp', 'computeAveragePrice(sumPrices, steps);', 'computeAveragePrice(sumPrices, fixings);')],
  needs='a path with two equal consecutive fixings', breaks='repeated prices are left out of the average',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = ArithmeticAsianOptionFactory().createCallOption(par("A", 1, 100));
  near(price(ArithmeticAsianMCBuilder(), o, std::make_shared<Paths>("A", std::vector<V>{{120.0, 120.0, 105.0}}), 1), 15.0, 1e-9, "average of 120 120 105"); return failed; }'''),
 dict(id='C09-float-sum', property='C09',
  edits=[(S + 'mc_asian.cpp', 'double sumPrices = 0.0;', 'float sumPrices = 0.0;')],
  needs='fixings that are not exactly representable in single precision, many fixings', breaks='the average is accumulated in single precision',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = ArithmeticAsianOptionFactory().createCallOption(par("A", 1, 100));
  V p; double s = 0; for (int i = 0; i < 500; ++i) { p.push_back(100.1 + 0.037 * i); s += p.back(); } near(price(ArithmeticAsianMCBuilder(), o, std::make_shared<Paths>("A", std::vector<V>{p}), 1), s / 500 - 100, 1e-7, "long average"); return failed; }'''),
 dict(id='C10-first-date', property='C10',
  edits=[(S + 'mc_barrier.cpp', 'for (int t = 0; t < steps; ++t) {', 'for (int t = steps > 1 ? 1 : 0; t < steps; ++t) {')],
  needs='a path that touches the barrier on the first monitored date only', breaks='the first monitored date does not count',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = KnockInBarrierOptionFactory().createCallOption(barrier("A", 1, 90, 120, BarrierDirection::Up));
  near(price(KnockInBarrierMCBuilder(), o, std::make_shared<Paths>("A", std::vector<V>{{121.0, 100.0, 110.0}}), 1), 20.0, 1e-9, "touched first"); return failed; }'''),
 dict(id='C10-touch', property='C10',
  edits=[('src/option/path_dependent/barrier_option.cpp', 'return S <= B_; // BarrierDirection::Down', 'return S < B_; // BarrierDirection::Down')],
  needs='a path that touches a down barrier exactly', breaks='touching a down barrier does not count',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = KnockOutBarrierOptionFactory().createCallOption(barrier("A", 1, 90, 80, BarrierDirection::Down));
  near(price(KnockOutBarrierMCBuilder(), o, std::make_shared<Paths>("A", std::vector<V>{{100.0, 80.0, 110.0}}), 1), 0.0, 1e-9, "touched"); return failed; }'''),
 dict(id='C11-else-if', property='C11',
  edits=[(S + 'mc_lookback.cpp', '''                S_min = std::min(S_min, S[t]);
                S_max = std::max(S_max, S[t]);''', '''                if (S[t] < S_min) S_min = S[t];
                else if (S[t] > S_max) S_max = S[t];''')],
  needs='a path whose maximum is its first price (or a running minimum)', breaks='a price that lowers the minimum is not considered for the maximum',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); ParameterObject q; q.setParameter("ticker", std::string("A")); q.setParameter("T", 1.0);
  auto o = FixedStrikeLookbackOptionFactory().createCallOption(par("A", 1, 100)); auto f = FloatingStrikeLookbackOptionFactory().createPutOption(q);
  near(price(FixedStrikeLookbackMCBuilder(), o, std::make_shared<Paths>("A", std::vector<V>{{130.0, 110.0, 120.0}}), 1), 30.0, 1e-9, "maximum first");
  near(price(FloatingStrikeLookbackMCBuilder(), f, std::make_shared<Paths>("A", std::vector<V>{{130.0, 110.0, 120.0}}), 1), 10.0, 1e-9, "floating"); return failed; }'''),
 dict(id='C12-undiscounted-regression', property='C12',
  edits=[(S + 'mc_american.cpp', '''                paths(i) = stockModel_->simulatePriceBackward(paths(i), t_j, t_jp1);
                const double exerciseValue = option_->payoff(paths(i));

                // Collect In-The-Money paths
                if (exerciseValue > 0.0) {
                    inTheMoneyPaths.push_back(paths(i));
                    discountedCashFlows.push_back(americanPrices(i) * discountFactor);''', '''                paths(i) = stockModel_->simulatePriceBackward(paths(i), t_j, t_jp1);
                const double exerciseValue = option_->payoff(paths(i));

                // Collect In-The-Money paths
                if (exerciseValue > 0.0) {
                    inTheMoneyPaths.push_back(paths(i));
                    discountedCashFlows.push_back(americanPrices(i));''')],
  needs='the bridge variant (geometric Brownian motion with pseudo random numbers)', breaks='the regression uses cash flows that are not discounted by one step',
  demo='''struct Rec : Regression { mutable std::vector<Eigen::VectorXd> y; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& v) const override { y.push_back(v); return Eigen::VectorXd::Constant(A.cols(), 1e9); } };
int main() { md()->setR(0.5); md()->addStock("A", 50.0, 0.0, std::nullopt); auto o = AmericanOptionFactory().createPutOption(par("A", 1, 200));
  auto r = std::make_shared<Rec>(); AmericanMCBuilder b; b.setOption(o); b.setRegressionStrategy(r); b.setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>("A", md(), std::make_shared<PseudoRandomNumberGenerator>(2u, 1u)));
  auto p = b.build(); p->calculatePrice(4); double last = 200 - 50 * std::exp(0.5); expect(r->y.size() == 1, "one regression"); near(r->y[0][0], last * std::exp(-0.25), 1e-9, "response"); return failed; }'''),
 dict(id='C12-first-date', property='C12',
  edits=[(S + 'mc_american.cpp', 'const double exerciseValue = option_->payoff(paths(i, j));\n                        const double continuationValue', 'const double exerciseValue = option_->payoff(paths(i, steps-1));\n                        const double continuationValue')],
  needs='the full-path variant (quasi random numbers or another model) with a price that moves between exercise and maturity', breaks='early exercise pays the terminal payoff instead of the current one',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = AmericanOptionFactory().createPutOption(par("A", 1, 100)); AmericanMCBuilder b; b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(1));
  near(price(b, o, std::make_shared<Paths>("A", std::vector<V>{{60.0, 90.0}, {95.0, 85.0}}), 2), (40 + 15) / 2.0, 1e-9, "exercise at 60"); return failed; }'''),
 dict(id='C13-kou-dt', property='C13',
  edits=[('src/model/kou_model.cpp', 'muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));', 'muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta1_+1));')],
  needs='different decay rates of up and down jumps', breaks='the drift correction is wrong, discounted prices are not martingales',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.0, std::nullopt); KouModel m("A", md(), std::make_shared<PseudoRandomNumberGenerator>(1u, 7u), 2.0, 0.3, 20.0, 4.0); double s = 0; int N = 400000; for (int i = 0; i < N; ++i) s += m.simulatePriceAtMaturity(1.0); near(s / N, 100.0, 1.0, "mean price"); return failed; }'''),
 dict(id='C14-heston-negative-variance', property='C14', also=['C13'],
  edits=[('src/model/heston_model.cpp', 'const double drift = (r - c - 0.5 * VMax) * dt;', 'const double drift = (r - c - 0.5 * V) * dt;')],
  needs='a variance that becomes negative (strong vol of vol)', breaks='the drift uses the negative variance instead of its positive part',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.0, std::nullopt); HestonModel m("A", md(), std::make_shared<Draws>(3u, V{-3.0, 0.0, 0.0, 0.0, 0.0, 0.0}), 0.0, 0.04, 2.0, 0.0, 0.04, nullptr);
  V p = m.simulatePrices(3.0); near(p[0], 100 * std::exp(-0.02), 1e-9, "first"); near(p[1], p[0], 1e-9, "no variance, no drift"); return failed; }'''),
 dict(id='C14-gbm-flat', property='C14', also=['C30', 'C13'],
  edits=[('src/model/gbm_model.cpp', '''        std::vector<double> prices(steps);
        for''', '''        std::vector<double> prices(steps, S);
        if (sigma == 0.0) return prices; // Nothing to simulate
        for''')],
  needs='volatility exactly zero and a non-zero rate or coupon', breaks='without volatility the price does not grow at the risk neutral rate',
  demo='''int main() { md()->setR(0.1); md()->addStock("A", 100.0, 0.0, std::nullopt); GeometricBrownianMotionModel m("A", md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 1u)); near(m.simulatePriceAtMaturity(1.0), 100 * std::exp(0.1), 1e-9, "forward"); return failed; }'''),
 dict(id='C15-merton-one-size', property='C15',
  edits=[('src/model/merton_jump_diffusion_model.cpp', '''            for (long long j = 0; j < jump_count; ++j) {
                jumpSize += (*generator_)(jumpDist); // Add all jump sizes to the stock price
            }''', '''            if (jump_count > 0) {
                jumpSize = jump_count * (*generator_)(jumpDist); // Add all jump sizes to the stock price
            }''')],
  needs='two or more jumps in one step', breaks='all jumps of a step share one size',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.0, std::nullopt); double mu = 0.0, sj = 0.1, la = 40; MertonJumpDiffusionModel m("A", md(), std::make_shared<PseudoRandomNumberGenerator>(1u, 3u), la, mu, sj); int N = 20000; double s = 0, q = 0; for (int i = 0; i < N; ++i) { double x = std::log(m.simulatePriceAtMaturity(1.0) / 100); s += x; q += x * x; }
  double var = q / N - s * s / N / N; near(var, la * sj * sj, 0.05, "variance of the log price"); return failed; }'''),
 dict(id='C15-kou-one-direction', property='C15',
  edits=[('src/model/kou_model.cpp', '''            double jumpSize = 0.0;
            for (long long j = 0; j < jumpCount; ++j) {
                const double U = (*generator_)(uniformDist);
''', '''            double jumpSize = 0.0;
            const double U = (*generator_)(uniformDist);
            for (long long j = 0; j < jumpCount; ++j) {
''')],
  needs='two or more jumps in one step', breaks='all jumps of a step go in the same direction',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.0, std::nullopt); double la = 30, p = 0.5, e1 = 20, e2 = 20; KouModel m("A", md(), std::make_shared<PseudoRandomNumberGenerator>(1u, 3u), la, p, e1, e2); int N = 20000; double s = 0, q = 0; for (int i = 0; i < N; ++i) { double x = std::log(m.simulatePriceAtMaturity(1.0) / 100); s += x; q += x * x; }
  double var = q / N - s * s / N / N; near(var, la * 2 / 400, 0.02, "variance of the log price"); return failed; }'''),
 dict(id='C16-snapshot', property='C16',
  edits=[('src/model/base_model.cpp', 'stockData_ = marketData_->getStockData(ticker);', 'stockData_ = std::make_shared<const StockData>(*marketData_->getStockData(ticker));')],
  needs='a market data update between the creation of the model and its use', breaks='models keep the stock data of their creation time',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.0, std::nullopt); GeometricBrownianMotionModel m("A", md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 1u)); md()->updateStockPrice("A", 50); near(m.simulatePriceAtMaturity(1.0), 50, 1e-9, "new price"); return failed; }'''),
 dict(id='C16-one-step-maturity', property='C16',
  edits=[('src/model/gbm_model.cpp', 'return simulatePrices(T).back();', '''// Only the terminal value is needed: take one exact step
        const double sigma = stockData_->getSigma();
        const double c = stockData_->getCoupon().value_or(0.0);
        StandardNormalDistribution snd;
        return stockData_->getPrice() * exp((marketData_->getR() - c - 0.5 * sigma*sigma) * T + sigma * sqrt(T) * (*generator_)(snd));''')],
  needs='a generator with more than one dimension whose draws are observed (reproducibility, quasi random points)', breaks='the price at maturity is no longer the last price of the path for the same draws; quasi random coordinates are misused',
  demo='''int main() { md()->setR(0.02); md()->addStock("A", 100.0, 0.3, std::nullopt); GeometricBrownianMotionModel a("A", md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 1u)), b("A", md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 1u)); near(a.simulatePriceAtMaturity(1.0), b.simulatePrices(1.0).back(), 1e-9, "maturity is the last date"); return failed; }'''),
 dict(id='C17-bridge-variance', property='C17',
  edits=[('src/model/gbm_model.cpp', 'sqrt(t_j * (t_jp1-t_j)/t_jp1) * sigma * z', 'sqrt(t_jp1-t_j) * sigma * z')],
  needs='early times, where s/t is well below one', breaks='the conditional variance of the bridge is that of a free step',
  demo='''int main() { md()->setR(0.02); md()->addStock("A", 100.0, 0.3, std::nullopt); GeometricBrownianMotionModel m("A", md(), std::make_shared<Draws>(4u, V{1.0})); near(m.simulatePriceBackward(120, 0.25, 1.0), 100 * std::exp(0.25 * std::log(1.2) + 0.3 * std::sqrt(0.25 * 0.75)), 1e-9, "bridge"); return failed; }'''),
 dict(id='C18-milstein-guard', property='C18',
  edits=[('src/model/discretization/milstein_cir_discretization.cpp', 'V += 0.25 * sigma_v*sigma_v * dt * (z*z - 1);', 'if (V > 0.0) V += 0.25 * sigma_v*sigma_v * dt * (z*z - 1);')],
  needs='a step on which the Euler part makes the variance non-positive', breaks='the Milstein correction is left out there',
  demo='''int main() { CIRMilsteinDiscretization m; double v = -0.1; m.update(v, 0.5, 1.0, 0.04, 0.6, 2.0); near(v, -0.1 + 0.02 + 0.25 * 0.36 * 0.5 * 3, 1e-12, "variance"); return failed; }'''),
 dict(id='C18-bates-driver', property='C18',
  edits=[('src/model/bates_model.cpp', 'sigma_v_, zV);', 'sigma_v_, zS);')],
  needs='correlation other than one, draws observed per step', breaks='the variance is driven by the stock draw: the effective correlation is one instead of rho',
  demo='''struct Rec : CIRDiscretization { mutable V z; void update(double& V_, const double&, const double&, const double&, const double&, const double& x) const override { z.push_back(x); } };
int main() { md()->setR(0.02); md()->addStock("A", 100.0, 0.3, std::nullopt); auto r = std::make_shared<Rec>(); double e = 0; BatesModel m("A", md(), std::make_shared<Draws>(1u, V{0.7, -0.2, 0.0}), 1.0, 0.04, 0.5, -0.4, 0.04, 1.0, 0.0, 0.1, r); m.simulatePrices(1.0); near(r->z.at(0), 0.7, 1e-12, "variance draw"); return failed; }'''),
]
