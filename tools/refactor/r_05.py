"""Helpers extracted, branches turned round, parameters read first, standard algorithms for loops."""
S = 'src/solver/monte_carlo/'; F = 'src/solver/finite_difference_method/solver/one_factor/'; NA = 'src/numerical_analysis/'; M = 'src/model/'; O = 'src/option/'
DEFAULT = '''        auto stockModel = stockModel_;
        if (!stockModel) {
            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                         marketData_,
                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
        }
'''
EDITS = [
 (S + 'builder/mc_builder_barrier.cpp', 'namespace OptionPricer {\n', '''namespace OptionPricer {

    namespace {
        std::shared_ptr<StockModel> modelOrDefault(const std::shared_ptr<StockModel>& chosen, const Option& option,
                                                   const std::shared_ptr<IMarketData>& marketData) {
            if (chosen) return chosen;
            constexpr unsigned int weeks = 52;
            auto generator = std::make_shared<PseudoRandomNumberGenerator>(weeks);
            return std::make_shared<GeometricBrownianMotionModel>(option.getID(), marketData, std::move(generator));
        }
    }
'''),
 (S + 'builder/mc_builder_barrier.cpp', DEFAULT + '        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);', '        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, modelOrDefault(stockModel_, *option_, marketData_));'),
 (S + 'builder/mc_builder_barrier.cpp', DEFAULT + '        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);', '        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, modelOrDefault(stockModel_, *option_, marketData_));'),
 (S + 'builder/mc_builder_american.cpp', '''        option_ = std::dynamic_pointer_cast<AmericanOption>(option);
        if (!option_) {
            throw std::invalid_argument("Invalid option type for AmericanMCBuilder");
        }
        return *this;''', '''        if (option_ = std::dynamic_pointer_cast<AmericanOption>(std::move(option)); option_ != nullptr) return *this;
        throw std::invalid_argument("An AmericanMCBuilder takes American options only.");'''),
 (S + 'mc_asian.cpp', '''            for (int t = 0; t < steps; ++t) {
                sumPrices += computeSumPrices(S[t]);
            }
''', '''            for (auto it = S.cbegin(); it != S.cbegin() + steps; ++it) sumPrices += computeSumPrices(*it);
'''),
 (S + 'mc_american.cpp', '''                        if (exerciseValue > continuationValue) {
                            americanPrices(i) = exerciseValue;
                        } else {
                            americanPrices(i) *= discountFactor;
                        }
                    } else {
                        americanPrices(i) *= discountFactor;
                    }
                }
            } else {
                americanPrices *= discountFactor;
            }
        }

        // Step 6: Compute the option price as the expected discounted payoffs
        return americanPrices.mean() * discountFactor;
    }

    double''', '''                        const double held = americanPrices(i) * discountFactor;
                        americanPrices(i) = continuationValue < exerciseValue ? exerciseValue : held;
                        continue;
                    }
                    americanPrices(i) *= discountFactor;
                }
                continue; // With the previous date
            }
            americanPrices *= discountFactor;
        }

        // Step 6: Compute the option price as the expected discounted payoffs
        return americanPrices.sum() / static_cast<double>(N) * discountFactor;
    }

    double'''),
 (M + 'heston_model.cpp', '''            const double zV = z1;
            const double zS = rho_ * z1 + sqrt(1 - rho_*rho_) * z2;
''', '''            const double zV = z1;
            const double zS = rho_ * zV + zIndependent * z2;
'''),
 (M + 'heston_model.cpp', '        StandardNormalDistribution snd;\n', '        StandardNormalDistribution snd;\n        const double zIndependent = sqrt((1 - rho_) * (1 + rho_));\n'),
 (O + 'path_dependent/barrier_option.cpp', '''        if (direction_ == BarrierDirection::Up) {
            return S >= B_;
        }
        return S <= B_; // BarrierDirection::Down''', '''        switch (direction_) {
            case BarrierDirection::Down: return !(B_ < S);
            default: return !(S < B_);
        }'''),
 (O + 'path_dependent/factory_barrier_option.cpp', '''        return std::shared_ptr<KnockInBarrierOption>(new KnockInBarrierOption(
            params.getParameter<std::string>("ticker"),
            std::move(payoff),
            params.getParameter<double>("T"),
            params.getParameter<double>("B"),
            params.getParameter<BarrierDirection>("direction"),
            marketData
        ));''', '''        const auto direction = params.getParameter<BarrierDirection>("direction");
        const double B = params.getParameter<double>("B");
        const double T = params.getParameter<double>("T");
        const auto ticker = params.getParameter<std::string>("ticker");
        return std::shared_ptr<KnockInBarrierOption>(
            new KnockInBarrierOption(ticker, std::move(payoff), T, B, direction, marketData));'''),
 (O + 'base_option.cpp', '''        if (!(T >= 0 && std::isfinite(T))) throw std::invalid_argument("Time to expiration (T) must be non-negative and finite.");
        // Try to retrieve StockData if not found it throws an exception
        auto stockData = marketData_->getStockData(id_);
        payoff_ = std::move(payoff); // Safely move the payoff''', '''        const bool validT = T_ >= 0 && std::isfinite(T_);
        if (!validT) throw std::invalid_argument("T must not be negative: " + std::to_string(T_));
        (void)marketData_->getStockData(id_); // Throws for unknown tickers
        payoff_.swap(payoff);'''),
 ('include/option/base_factory_option.h', '''            const std::string err = std::string(e.what()) + "\\n" + invalidParams(getType(type));
            throw std::invalid_argument(err);''', '''            std::string message(e.what());
            message.append("\\n").append(invalidParams(getType(type)));
            throw std::invalid_argument(message);'''),
 ('src/payoff/payoff_floating_strike_lookback.cpp', '''        if (type_ == PayoffType::Call) {
            return std::max(S - extremeS, 0.0); // max(S_T - S_min, 0)
        }
        return std::max(extremeS - S, 0.0); // max(S_max - S_T, 0)''', '''        const double gain = type_ == PayoffType::Put ? extremeS - S : S - extremeS;
        return gain > 0.0 ? gain : 0.0;'''),
 ('src/payoff/single_strike/payoff_digital.cpp', '''        if (type_ == PayoffType::Call) {
            return S > K_ ? 1.0 : 0.0;
        }
        return K_ > S ? 1.0 : 0.0;''', '''        const bool inTheMoney = type_ == PayoffType::Put ? S < K_ : S > K_;
        return static_cast<double>(inTheMoney);'''),
 ('src/payoff/base_payoff.cpp', '''        if (typeid(*this) != typeid(other)) return false;
        return this->compare(other) && other.compare(*this);''', '''        const bool sameKind = typeid(*this) == typeid(other);
        return sameKind && compare(other);'''),
 (NA + 'basis_function/legendre.cpp', '''            basis.col(n) = ((2*(n-1) + 1) * x.array() * basis.col(n-1).array()
                - (n-1)*basis.col(n-2).array()) / n;''', '''            const double k = n;
            for (Eigen::Index i = 0; i < x.size(); ++i)
                basis(i, n) = ((2*k - 1) * x(i) * basis(i, n-1) - (k - 1) * basis(i, n-2)) / k;'''),
 (NA + 'basis_function/chebyshev.cpp', '''            basis.col(n) = 2 * x.array() * basis.col(n-1).array() - basis.col(n-2).array();''', '''            basis.col(n) = 2 * x.cwiseProduct(basis.col(n-1)) - basis.col(n-2);'''),
 (F + 'euler_implicit_fdm_solver.cpp', '''            b[j-1] = dx2 * (dt * pde_->rightHandSide(tCurr, xValues[j]) - oldPrices[j]);
            if (j == 1)
                b[0] -= alpha * newPrices[0];         // Adjust for the boundary condition on the left
            if (j == J_-2)
                b[J_-3] -= gamma * newPrices[J_-1]; // Adjust for the boundary condition on the right''', '''            double rhs = dt * dx2 * pde_->rightHandSide(tCurr, xValues[j]) - dx2 * oldPrices[j];
            if (j == 1) rhs -= alpha * newPrices.front();   // Known on the left
            if (j + 2 == J_) rhs -= gamma * newPrices.back(); // Known on the right
            b[j-1] = rhs;'''),
 (F + 'euler_explicit_fdm_solver.cpp', '''            if (!cflWarned && 2.0 * dtSig > dx2) {
                std::cerr << "Warning: CFL condition not satisfied at row " << j
                          << ". The solution could be unstable." << std::endl;
                cflWarned = true;
            }
''', '''            if (dtSig > 0.5 * dx2 && !std::exchange(cflWarned, true)) std::cerr << "Unstable grid at x = " << xValues[j] << "\\n";
'''),
 (F + 'euler_explicit_fdm_solver.cpp', '#include <iostream>', '#include <iostream>\n#include <utility>'),
 ('src/market_data/market_data.cpp', '''    void MarketData::updateStockSigma(const std::string& ticker, double sigma) {
        if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
            it->second->setSigma(sigma);
            notifyObserver(ticker);
        } else {
            throw std::invalid_argument(ticker + " is no present in the MarketData object");
        }
    }''', '''    void MarketData::updateStockSigma(const std::string& ticker, double sigma) {
        const auto it = stockDataMap_.find(ticker);
        if (it == stockDataMap_.end()) throw std::invalid_argument(ticker + " is unknown");
        const auto stock = it->second;
        stock->setSigma(sigma);
        notifyObserver(ticker);
    }'''),
 ('src/market_data/stock_data.cpp', '''        if (S_ != other.S_ || sigma_ != other.sigma_) {
            return false;
        }
        if (!c_.has_value() != !other.c_.has_value()) {
            return false;
        }
        if (c_.has_value() && other.c_.has_value() && c_.value() != other.c_.value()) {
            return false;
        }
        return true;''', '''        return S_ == other.S_ && sigma_ == other.sigma_ && c_ == other.c_;'''),
]
