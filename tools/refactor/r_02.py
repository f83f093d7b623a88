"""Behaviour-preserving edits, second set."""
M = 'src/model/'; S = 'src/solver/monte_carlo/'; NA = 'src/numerical_analysis/'; F = 'src/solver/finite_difference_method/solver/one_factor/'
EDITS = [
 (M + 'gbm_model.cpp', 'return simulatePrices(T).back();', '''const double sigma = stockData_->getSigma();
        const auto steps = getSteps();
        StandardNormalDistribution snd;
        double W = 0.0; // Brownian motion in units of sqrt(dt)
        for (unsigned int t = 0; t < steps; ++t) W += (*generator_)(snd);
        const double carry = marketData_->getR() - stockData_->getCoupon().value_or(0.0);
        return stockData_->getPrice() * exp((carry - 0.5 * sigma * sigma) * T + sigma * sqrt(T / steps) * W);'''),
 (M + 'variance_gamma_model.cpp', '''        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);''', '''        GammaDistribution gammaDist(dt / nu_, 1.0); // In units of nu'''),
 (M + 'variance_gamma_model.cpp', 'const double g = (*generator_)(gammaDist); // Gamma subordinator', 'const double g = nu_ * (*generator_)(gammaDist); // Gamma subordinator'),
 (M + 'merton_jump_diffusion_model.cpp', '''            double jumpSize = 0.0;
            for (long long j = 0; j < jump_count; ++j) {
                jumpSize += (*generator_)(jumpDist); // Add all jump sizes to the stock price
            }
''', '''            double jumpSize = muJ_ * static_cast<double>(jump_count);
            for (long long j = 0; j < jump_count; ++j) {
                jumpSize += sigmaJ_ * (*generator_)(snDist);
            }
'''),
 (M + 'kou_model.cpp', '''        ExponentialDistribution exponentialDistUp(eta1_);
        ExponentialDistribution exponentialDistDown(eta2_);
''', '''        ExponentialDistribution exponentialDist(1.0);
'''),
 (M + 'kou_model.cpp', 'const double upsideJump = (*generator_)(exponentialDistUp);', 'const double upsideJump = (*generator_)(exponentialDist) / eta1_;'),
 (M + 'kou_model.cpp', 'const double downsideJump = -(*generator_)(exponentialDistDown);', 'const double downsideJump = -(*generator_)(exponentialDist) / eta2_;'),
 (S + 'mc_asian.cpp', '''        double sumPayoff = 0.0;
        const unsigned int steps = stockModel_->getSteps();
        const double discountFactor = exp(-marketData_->getR() * option_->getT());
''', '''        double sumPayoff = 0.0;
        const unsigned int steps = stockModel_->getSteps();
'''),
 (S + 'mc_asian.cpp', 'return (sumPayoff / static_cast<double>(N)) * discountFactor;', 'return sumPayoff / (static_cast<double>(N) * std::exp(marketData_->getR() * option_->getT()));'),
 (S + 'mc_barrier.cpp', '''            for (int t = 0; t < steps; ++t) {
                if (checkHasCrossed(S[t], hasCrossed)) {
                    break;
                }
            }
''', '''            for (int t = static_cast<int>(steps) - 1; t >= 0 && !checkHasCrossed(S[t], hasCrossed); --t) {}
'''),
 # the in the money paths are gathered from the last to the first
 (S + 'mc_american.cpp', '''            for (int i = 0; i < N; ++i) {
                const double exerciseValue = option_->payoff(paths(i, j));

                // Collect In-The-Money paths
                if (exerciseValue > 0.0) {
                    inTheMoneyPaths.push_back(paths(i, j));
                    discountedCashFlows.push_back(americanPrices(i) * discountFactor);
                    isInTheMoney.push_back(true);
                } else {
                    isInTheMoney.push_back(false);
                }
            }
''', '''            americanPrices *= discountFactor; // Value at this date if not exercised
            for (int i = 0; i < N; ++i) {
                isInTheMoney.push_back(option_->payoff(paths(i, j)) > 0.0);
                if (isInTheMoney.back()) {
                    inTheMoneyPaths.push_back(paths(i, j));
                    discountedCashFlows.push_back(americanPrices(i));
                }
            }
'''),
 (S + 'mc_american.cpp', '''                        const double continuationValue = inTheMoneyBases.row(idxITM) * coeffs;
                        idxITM++;
                        if (exerciseValue > continuationValue) {
                            americanPrices(i) = exerciseValue;
                        } else {
                            americanPrices(i) *= discountFactor;
                        }
                    } else {
                        americanPrices(i) *= discountFactor;
                    }
                }
            } else {
                americanPrices *= discountFactor;
            }
        }
''', '''                        const double continuationValue = inTheMoneyBases.row(idxITM) * coeffs;
                        idxITM++;
                        if (exerciseValue > continuationValue) {
                            americanPrices(i) = exerciseValue;
                        }
                    }
                }
            }
        }
'''),
 ('include/market_data/market_data.h', 'stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);', '''auto data = std::make_shared<StockData>(std::forward<Args>(args)...);
            stockDataMap_.insert_or_assign(ticker, std::move(data));'''),
 ('include/market_data/market_data.h', 'std::unordered_map<std::string, std::shared_ptr<StockData>> stockDataMap_;', 'std::map<std::string, std::shared_ptr<StockData>> stockDataMap_;'),
 ('include/market_data/market_data.h', '#include <unordered_map>', '#include <unordered_map>\n#include <map>\n#include <list>'),
 ('include/market_data/market_data.h', 'std::vector<std::weak_ptr<MarketDataObserver>> observers_;', 'std::list<std::weak_ptr<MarketDataObserver>> observers_;'),
 ('src/market_data/market_data.cpp', '''        std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety
        if (!instance_) {
            instance_ = std::shared_ptr<MarketData>(new MarketData());
        }
        return instance_;''', '''        static std::once_flag once;
        std::call_once(once, [] { instance_ = std::shared_ptr<MarketData>(new MarketData()); });
        return instance_;'''),
 ('src/market_data/market_data.cpp', '''        r_ = r;
        notifyObservers();''', '''        this->r_ = r;
        this->notifyObservers();'''),
 ('src/random/distribution/normal_distrib.cpp', 'normal_dist_ = std::normal_distribution<>(mu_, sigma_);', 'normal_dist_ = std::normal_distribution<>(0.0, 1.0);'),
 ('src/random/distribution/normal_distrib.cpp', 'return normal_dist_(gen);', 'return mu_ + sigma_ * normal_dist_(gen);'),
 ('src/random/distribution/continuous_uniform_distrib.cpp', 'if (a_ >= b_)', 'if (!(a_ < b_))'),
 ('src/random/distribution/gamma_distrib.cpp', 'gamma_dist_ = std::gamma_distribution<>(alpha_, 1.0 / beta_);', 'gamma_dist_ = std::gamma_distribution<>(alpha_, 1.0);'),
 ('src/random/distribution/gamma_distrib.cpp', 'return gamma_dist_(gen);', 'return gamma_dist_(gen) / beta_;'),
 (NA + 'regression/ridge.cpp', '''        return (A.transpose() * A + lambda_ * I).ldlt().solve(A.transpose() * vY);''', '''        const Eigen::MatrixXd normal = A.transpose() * A + lambda_ * I;
        const Eigen::VectorXd rhs = A.transpose() * vY;
        return normal.ldlt().solve(rhs);'''),
 (NA + 'regression/least_squares.cpp', '''        auto svd = A.jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
''', '''        Eigen::CompleteOrthogonalDecomposition<Eigen::MatrixXd> svd;
'''),
 (NA + 'regression/least_squares.cpp', '        return svd.solve(vY);', '''        svd.compute(A);
        return svd.solve(vY);'''),
 (NA + 'basis_function/chebyshev.cpp', '''            basis.col(n) = 2 * x.array() * basis.col(n-1).array() - basis.col(n-2).array();''', '''            basis.col(n) = (2 * x).cwiseProduct(basis.col(n-1)) - basis.col(n-2);'''),
 (NA + 'linear_algebra/matrix_solver/lu_decomposition.cpp', '''        solver.compute(A);
''', '''        solver.analyzePattern(A);
        solver.factorize(A);
'''),
 (F + 'crank_nicolson_fdm_solver.cpp', '''            b[j-1] = 0.5 * dx2*dt * (pde_->rightHandSide(tCurr, xValues[j]) + pde_->rightHandSide(tPrev, xValues[j]));
''', '''            b[j-1] = 0.5 * dx2*dt * pde_->rightHandSide(tPrev, xValues[j]) + 0.5 * dx2*dt * pde_->rightHandSide(tCurr, xValues[j]);
'''),
 # coefficients of the explicit part first
 (F + 'base_fdm_solver.cpp', '''            currS = static_cast<double>(j) * dx;''', '''            currS = xDom_ * static_cast<double>(j) / static_cast<double>(J_-1);'''),
 (F + 'base_fdm_solver.cpp', '''        if (!solved) solve();
        const double S''', '''        solve(); // Does nothing if already solved
        const double S'''),
 ('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', '''        const std::shared_ptr<Payoff> clonedPayoff = option_->getPayoff().clone();
        const auto payoff = std::dynamic_pointer_cast<PayoffSingleStrike>(clonedPayoff);
''', '''        const auto* payoff = dynamic_cast<const PayoffSingleStrike*>(&option_->getPayoff());
'''),
 ('src/option/base_option.cpp', '''        return (T_ == other.T_ && *payoff_ == *other.payoff_ &&
          *marketData_->getStockData(id_) == *other.marketData_->getStockData(other.id_));''', '''        if (this == &other) return true;
        if (T_ != other.T_ || *payoff_ != *other.payoff_) return false;
        return *marketData_->getStockData(id_) == *other.marketData_->getStockData(other.id_);'''),
 ('src/option/path_dependent/barrier_option.cpp', '''        if (direction_ == BarrierDirection::Up) {
            return S >= B_;
        }
        return S <= B_; // BarrierDirection::Down''', '''        const double distance = direction_ == BarrierDirection::Up ? S - B_ : B_ - S;
        return distance >= 0.0;'''),
 ('src/payoff/base_payoff.cpp', 'return this->compare(other) && other.compare(*this);', 'return compare(other);'),
]
