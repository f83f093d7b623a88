"""Behaviour-preserving edits, applied all together; every check must stay quiet."""
M = 'src/model/'; S = 'src/solver/monte_carlo/'; NA = 'src/numerical_analysis/'; F = 'src/solver/finite_difference_method/solver/one_factor/'
EDITS = [
 # log price accumulated instead of multiplied
 (M + 'gbm_model.cpp', '''        double S = stockData_->getPrice();
        const double sigma = stockData_->getSigma();
        const double r = marketData_->getR();
        const double c = stockData_->getCoupon().value_or(0.0);
        const auto steps = getSteps();
        const double dt = T / static_cast<double>(steps);
        StandardNormalDistribution snd;

        std::vector<double> prices(steps);
        for (int t = 0; t < steps; ++t) {
            const double z = (*generator_)(snd);
            const double drift = (r - c - (0.5 * sigma*sigma)) * dt;
            const double diffusion = sigma * sqrt(dt) * z;

            S *= exp(drift + diffusion);
            prices[t] = S;
        }

        return prices;''', '''        const auto stock = marketData_->getStockData(ticker_);
        const double S0 = stock->getPrice();
        const double sigma = stock->getSigma();
        const double yield = stock->getCoupon().has_value() ? *stock->getCoupon() : 0.0;
        const unsigned int steps = getSteps();
        const double dt = T / steps;
        const double drift = (marketData_->getR() - yield) * dt - 0.5 * sigma * sigma * dt;
        const double vol = sigma * std::sqrt(dt);
        StandardNormalDistribution snd;

        double X = 0.0;
        std::vector<double> prices;
        prices.reserve(steps);
        while (prices.size() < steps) {
            X += drift + vol * (*generator_)(snd);
            prices.push_back(S0 * std::exp(X));
        }
        return prices;'''),
 (M + 'gbm_model.cpp', '''        const double X_curr = (t_j/t_jp1) * X_next + sqrt(t_j * (t_jp1-t_j)/t_jp1) * sigma * z;

        return S * exp(X_curr);''', '''        const double w = t_j / t_jp1;
        return S * exp(w * X_next + sigma * sqrt(w * (t_jp1 - t_j)) * z);'''),
 (M + 'heston_model.cpp', '''            const double z1 = (*generator_)(snd);
            const double z2 = (*generator_)(snd);
            const double zV = z1;
            const double zS = rho_ * z1 + sqrt(1 - rho_*rho_) * z2;

            // Update stock price S(t) using V(t-1)
            const double VMax = std::max(V, 0.0);
            const double drift = (r - c - 0.5 * VMax) * dt;
            const double diffusion = sqrt(VMax * dt) * zS;
            S *= exp(drift + diffusion);
''', '''            const double zV = (*generator_)(snd);
            const double zS = zV * rho_ + (*generator_)(snd) * sqrt((1 - rho_) * (1 + rho_));

            // Update stock price S(t) using V(t-1)
            const double vol = V > 0.0 ? sqrt(V) : 0.0;
            S = S * exp((r - c) * dt - 0.5 * vol * vol * dt + vol * sqrt(dt) * zS);
'''),
 (M + 'bates_model.cpp', '''            S *= exp(drift + diffusion);

            // Add jumps from a compound Poisson process
            const auto jump_count = static_cast<long long>((*generator_)(poissonDist));
            for (long long j = 0; j < jump_count; ++j) {
                const double jumpSize = (*generator_)(jumpDist);
                S *= exp(jumpSize);
            }

            prices[t] = S;

            // Update variance V(t+1) using variance V(t)
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);''', '''
            // Update variance V(t+1) using variance V(t)
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);

            // Add jumps from a compound Poisson process
            double jumps = 0.0;
            for (int left = static_cast<int>((*generator_)(poissonDist)); left > 0; --left) {
                jumps += (*generator_)(jumpDist);
            }
            S *= exp(drift + diffusion + jumps);
            prices[t] = S;'''),
 (M + 'merton_jump_diffusion_model.cpp', '''            // Drift Part
            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * k) * dt;
''', ''), 
 (M + 'merton_jump_diffusion_model.cpp', '''        std::vector<double> prices(steps);''', '''        const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * k) * dt;
        std::vector<double> prices(steps);'''),
 (M + 'merton_jump_diffusion_model.cpp', '''const double k = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0;''', '''const double k = std::expm1(muJ_ + 0.5 * sigmaJ_*sigmaJ_);'''),
 (M + 'kou_model.cpp', '''                if (U < p_) {
                    const double upsideJump = (*generator_)(exponentialDistUp);
                    jumpSize += upsideJump;
                } else {
                    const double downsideJump = -(*generator_)(exponentialDistDown);
                    jumpSize += downsideJump;
                }''', '''                jumpSize += U < p_ ? (*generator_)(exponentialDistUp) : -(*generator_)(exponentialDistDown);'''),
 (M + 'variance_gamma_model.cpp', '(1.0 / nu_) * std::log(expMoment)', 'std::log1p(-nu_ * (theta_ + 0.5 * sigma*sigma)) / nu_'),
 (M + 'discretization/milstein_cir_discretization.cpp', '''        CIRExplicitEulerDiscretization::update(V, dt, kappa, theta, sigma_v, z);

        // Add the Milstein correction term
        V += 0.25 * sigma_v*sigma_v * dt * (z*z - 1);''', '''        const double before = std::max(V, 0.0);
        V = V + kappa * (theta - before) * dt + sigma_v * sqrt(before) * sqrt(dt) * z
              + sigma_v * sigma_v * (z - 1) * (z + 1) * dt / 4;'''),
 # pricers
 (S + 'mc_single_path.cpp', '''        double sumPayoff = 0.0;
        const double discountFactor = exp(-marketData_->getR() * option_->getT());

        for (unsigned long i = 0; i < N; ++i) {
            double S_T = stockModel_->simulatePriceAtMaturity(option_->getT());
            sumPayoff += option_->payoff(S_T);
        }

        return (sumPayoff / static_cast<double>(N)) * discountFactor;''', '''        const double T = option_->getT();
        double mean = 0.0;
        for (unsigned long i = 1; i <= N; ++i) {
            const double value = option_->payoff(stockModel_->simulatePriceAtMaturity(T));
            mean += (value - mean) / static_cast<double>(i); // Running mean
        }
        return std::exp(-T * marketData_->getR()) * mean;'''),
 (S + 'mc_asian.cpp', '''            for (int t = 0; t < steps; ++t) {
                sumPrices += computeSumPrices(S[t]);
            }
''', '''            for (auto it = S.crbegin(); it != S.crend(); ++it) sumPrices += computeSumPrices(*it);
'''),
 (S + 'mc_barrier.cpp', '''        if (option_->isActive(S_t)) {
            hasCrossed = true;
        }
        return false; // Never exit early for Knock-In''', '''        hasCrossed = hasCrossed || option_->isActive(S_t);
        return hasCrossed;'''),
 (S + 'mc_lookback.cpp', '''            for (int t = 0; t < steps; ++t) {
                S_min = std::min(S_min, S[t]);
                S_max = std::max(S_max, S[t]);
            }
''', '''            for (const double s : S) {
                if (s < S_min) S_min = s;
                if (s > S_max) S_max = s;
            }
'''),
 (S + 'mc_american.cpp', '''            for (int i = 0; i < N; ++i) {
                const double t_j = static_cast<double>(j) * dt;      // Time at current step
                const double t_jp1 = static_cast<double>(j+1) * dt; // Time at the next step
''', '''            const double t_j = option_->getT() * j / steps, t_jp1 = option_->getT() * (j + 1) / steps;
            for (int i = 0; i < N; ++i) {
'''),
 (S + 'mc_american.cpp', '''        // Step 1: Simulate paths
        Eigen::MatrixXd paths(N, steps);
        for (int i = 0; i < N; ++i) {
            std::vector<double> prices = stockModel_->simulatePrices(option_->getT());
            paths.row(i) = Eigen::Map<Eigen::VectorXd>(prices.data(), prices.size());
        }
''', '''        // Step 1: Simulate paths
        Eigen::MatrixXd paths(N, steps);
        for (unsigned long i = 0; i < N; ++i) {
            const auto prices = stockModel_->simulatePrices(option_->getT());
            for (unsigned int k = 0; k < steps; ++k) paths(i, k) = prices[k];
        }
'''),
 (S + 'mc_american.cpp', 'const double continuationValue = inTheMoneyBases.row(idxITM) * coeffs;', 'const double continuationValue = inTheMoneyBases.row(idxITM).dot(coeffs);'),
 # market data
 ('src/market_data/market_data.cpp', '''        if (!instance_) {
            instance_ = std::shared_ptr<MarketData>(new MarketData());
        }
        return instance_;''', '''        if (instance_ == nullptr) instance_.reset(new MarketData());
        return instance_;'''),
 ('src/market_data/market_data.cpp', '''        const auto observers = observers_;
        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                if (obs->getID() == id) {
                    obs->update();
                }
            }
        }''', '''        std::vector<std::weak_ptr<MarketDataObserver>> concerned;
        for (const auto& observer : observers_) {
            const auto obs = observer.lock();
            if (obs && obs->getID() == id) concerned.push_back(observer);
        }
        for (auto it = concerned.rbegin(); it != concerned.rend(); ++it) {
            if (const auto obs = it->lock()) obs->update();
        }'''),
 ('src/market_data/market_data.cpp', '''        if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
            it->second->setSigma(sigma);
            notifyObserver(ticker);
        } else {
            throw std::invalid_argument(ticker + " is no present in the MarketData object");
        }''', '''        const auto it = stockDataMap_.find(ticker);
        if (it == stockDataMap_.end())
            throw std::invalid_argument("Unknown ticker: " + ticker);
        const auto data = it->second;
        data->setSigma(sigma);
        notifyObserver(ticker);'''),
 ('src/market_data/stock_data.cpp', '''        if (S_ != other.S_ || sigma_ != other.sigma_) {
            return false;
        }
        if (!c_.has_value() != !other.c_.has_value()) {
            return false;
        }
        if (c_.has_value() && other.c_.has_value() && c_.value() != other.c_.value()) {
            return false;
        }
        return true;''', '''        return S_ == other.S_ && sigma_ == other.sigma_ && c_ == other.c_;'''),
 ('src/market_data/stock_data.cpp', '*this = StockData(S, sigma_, c_); // Validate before committing', '''if (!(S > 0)) throw std::invalid_argument("Price must be positive.");
        S_ = S;'''),
 # payoffs
 ('src/payoff/single_strike/payoff_vanilla.cpp', '''        if (type_ == PayoffType::Call) {
            return std::max(S - K_, 0.0);
        }
        return std::max(K_ - S, 0.0);''', '''        const double intrinsic = type_ == PayoffType::Call ? S - K_ : K_ - S;
        return intrinsic > 0.0 ? intrinsic : 0.0;'''),
 ('src/payoff/double_strikes/payoff_double_digital.cpp', 'return  K_L_ <= S && S <= K_U_ ? 1.0 : 0.0;', 'return S < K_L_ || S > K_U_ ? 0.0 : 1.0;'),
 # finite differences
 (F + 'base_fdm_solver.cpp', '''        for (unsigned long n = 1; n < N_ && !solved; ++n) {
            tCurr = static_cast<double>(n) * dt;
            calculateBoundaryConditions();
            calculateInnerDomain(); // To be overiden in concrete classes
            oldPrices = newPrices;
            tPrev = tCurr;
        }
        solved = true;
        return newPrices;''', '''        if (solved) return newPrices;
        for (unsigned long left = N_ - 1; left > 0; --left) {
            const auto n = N_ - left;
            tCurr = tDom_ * static_cast<double>(n) / static_cast<double>(N_ - 1);
            calculateInnerDomainAfterBoundary();
        }
        solved = true;
        return newPrices;'''),
 (F + 'base_fdm_solver.cpp', '''    double FDMSolver::calculatePrice() {''', '''    void FDMSolver::calculateInnerDomainAfterBoundary() {
        calculateBoundaryConditions();
        calculateInnerDomain(); // To be overiden in concrete classes
        std::copy(newPrices.begin(), newPrices.end(), oldPrices.begin());
        tPrev = tCurr;
    }

    double FDMSolver::calculatePrice() {'''),
 ('include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h', '''        std::vector<double> solve();''', '''        std::vector<double> solve();
        void calculateInnerDomainAfterBoundary();'''),
 (F + 'euler_explicit_fdm_solver.cpp', '''            const double dtSig = dt * pde_->diffusion(tPrev, xValues[j]);
            const double dtSig2 = 0.5 * dt*dx * pde_->convection(tPrev, xValues[j]);

            // Differencing coefficients
            alpha = dtSig - dtSig2;
            beta = dx2 - (2.0 * dtSig) + (dt * dx2 * (pde_->reaction(tPrev, xValues[j])));
            gamma= dtSig + dtSig2;

            // Explicit Euler discretization scheme
            newPrices[j] = ((alpha*oldPrices[j-1]) + (beta*oldPrices[j]) + (gamma*oldPrices[j+1])) / dx2
            - (dt*(pde_->rightHandSide(tPrev, xValues[j])));''', '''            const double x = xValues[j], V = oldPrices[j];
            const double Vx = (oldPrices[j+1] - oldPrices[j-1]) / (2.0 * dx);
            const double Vxx = (oldPrices[j+1] - 2.0 * V + oldPrices[j-1]) / dx2;
            newPrices[j] = V + dt * (pde_->diffusion(tPrev, x) * Vxx + pde_->convection(tPrev, x) * Vx
                                     + pde_->reaction(tPrev, x) * V - pde_->rightHandSide(tPrev, x));'''),
 (F + 'euler_implicit_fdm_solver.cpp', '''            alpha = dtSig - dtSig2;
            beta = -dx2 - 2.0 * dtSig + dt * dx2 * pde_->reaction(tCurr, xValues[j]);
            gamma = dtSig + dtSig2;
''', '''            alpha = dtSig2 - dtSig;
            beta = dx2 + 2.0 * dtSig - dt * dx2 * pde_->reaction(tCurr, xValues[j]);
            gamma = -dtSig - dtSig2;
'''),
 (F + 'euler_implicit_fdm_solver.cpp', 'b[j-1] = dx2 * (dt * pde_->rightHandSide(tCurr, xValues[j]) - oldPrices[j]);', 'b[j-1] = dx2 * (oldPrices[j] - dt * pde_->rightHandSide(tCurr, xValues[j]));'),
 ('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', '''    double BlackScholesPDE::reaction(const double &t, const double &x) const {
        const double r = marketData_->getR();
        return -r;''', '''    double BlackScholesPDE::reaction(const double &t, const double &x) const {
        return -marketData_->getR();'''),
 # numerical analysis
 (NA + 'linear_algebra/matrix_solver/thomas_algorithm.cpp', '''        for (size_t i = 1; i < n-1; ++i) {
            const double m = bDiag[i] - a[i-1] * cStar[i-1];
            cStar[i] = c[i] / m;
            dStar[i] = (b[i] - a[i-1] * dStar[i-1]) / m;
        }
        dStar[n-1] = (b[n-1] - a[n-2] * dStar[n-2]) /
                  (bDiag[n-1] - a[n-2] * cStar[n-2]);
''', '''        for (size_t i = 1; i < n; ++i) {
            const double inv = 1.0 / (bDiag[i] - a[i-1] * cStar[i-1]);
            if (i + 1 < n) cStar[i] = c[i] * inv;
            dStar[i] = (b[i] - a[i-1] * dStar[i-1]) * inv;
        }
'''),
 (NA + 'linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.cpp', '''        Eigen::PartialPivLU<Eigen::MatrixXd> lu(denseA);

        // Solve the system Ax = b
        Eigen::VectorXd solution = lu.solve(b);

        return solution;''', '''        return denseA.fullPivLu().solve(b);'''),
 (NA + 'interpolation/linear_interpolation.cpp', '''        for (size_t i = 1; i < xValues.size(); ++i) {
            if (xInterp < xValues[i]) {
                const double x1 = xValues[i-1];
                const double x2 = xValues[i];
                const double y1 = yValues[i-1];
                const double y2 = yValues[i];
                return y1 + (xInterp-x1) * (y2-y1) / (x2-x1);
            }
        }
        throw std::runtime_error("Interpolation error: Price not within grid range.");''', '''        const auto i = std::upper_bound(xValues.begin(), xValues.end(), xInterp) - xValues.begin();
        const double w = (xInterp - xValues[i-1]) / (xValues[i] - xValues[i-1]);
        return (1.0 - w) * yValues[i-1] + w * yValues[i];'''),
 (NA + 'interpolation/linear_interpolation.cpp', '#include "numerical_analysis/interpolation/linear_interpolation.h"', '#include "numerical_analysis/interpolation/linear_interpolation.h"\n#include <algorithm>'),
 (NA + 'interpolation/quadratic_interpolation.cpp', '''        const double L0 = ((S-x1) * (S-x2)) / ((x0-x1) * (x0-x2));
        const double L1 = ((S-x0) * (S-x2)) / ((x1-x0) * (x1-x2));
        const double L2 = ((S-x0) * (S-x1)) / ((x2-x0) * (x2-x1));

        return y0*L0 + y1*L1 + y2*L2;''', '''        const double d01 = (y1 - y0) / (x1 - x0), d12 = (y2 - y1) / (x2 - x1);
        return y1 + (S - x1) * (d12 + (S - x2) * (d12 - d01) / (x2 - x0)); // Newton form'''),
 (NA + 'regression/least_squares.cpp', 'A.jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV)', 'A.bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV)'),
 (NA + 'regression/lasso.cpp', 'return std::max(0.0, beta_i - lambda_) - std::max(0.0, -beta_i - lambda_);', '''const double shrunk = std::abs(beta_i) - lambda_;
            return shrunk > 0.0 ? std::copysign(shrunk, beta_i) : 0.0;'''),
 (NA + 'basis_function/monomial.cpp', '''        for (int n = 0; n < numberBasis_; ++n) {
            A.col(n) = x.array().pow(n); // x^n
        }''', '''        A.col(0).setOnes();
        for (int n = 1; n < numberBasis_; ++n) {
            A.col(n) = A.col(n-1).cwiseProduct(x);
        }'''),
 (NA + 'basis_function/laguerre.cpp', '''            basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
                            - (n-1) * basis.col(n-2).array()) / n;''', '''            const double k = n;
            for (int i = 0; i < x.size(); ++i)
                basis(i, n) = ((2 * k - 1 - x(i)) * basis(i, n-1) - (k - 1) * basis(i, n-2)) / k;'''),
 # generators and distributions
 ('src/random/number_generator/sobol_quasi_random_generator.cpp', '''        if (step_ >= dim_) {
            sobolQrng_.generate(point_.begin(), point_.end());
            step_ = 0; // Reset step
        }

        // Normalize and transform using Moro's inversion
        const double uniformValue = point_[step_] / static_cast<double>(boost::random::sobol::max());
        ++step_;  // Increment step after use
        return dist.inv_cdf(uniformValue);''', '''        if (step_ == dim_) {
            step_ = 0; // Reset step
            sobolQrng_.generate(point_.begin(), point_.end());
        }
        constexpr double scale = static_cast<double>(boost::random::sobol::max());
        return dist.inv_cdf(point_[step_++] / scale);'''),
 ('src/random/distribution/standard_normal_distribution.cpp', '''            return sup ? -r: r;
        }''', '''            return (sup ? -1.0 : 1.0) * r;
        }'''),
 # builders, factories
 ('src/solver/monte_carlo/builder/mc_builder_american.cpp', '''        auto stockModel = stockModel_;
        if (!stockModel) {
            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                         marketData_,
                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
        }
        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,''', '''        const std::shared_ptr<StockModel> stockModel = stockModel_ ? stockModel_
            : std::make_shared<GeometricBrownianMotionModel>(option_->getID(), marketData_,
                                                             std::make_shared<PseudoRandomNumberGenerator>(52));
        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,'''),
 ('include/option/base_factory_option.h', '''        std::shared_ptr<OptionT> option = nullptr;

        try {
            auto payoff = createSpecificPayoff(params, type);
            option = createSpecificOption(params, std::move(payoff), marketData);
        } catch (const std::invalid_argument& e) {
            const std::string err = std::string(e.what()) + "\\n" + invalidParams(getType(type));
            throw std::invalid_argument(err);
        }

        option->initialize();
        return option;''', '''        const auto make = [&]() -> std::shared_ptr<OptionT> {
            try {
                return createSpecificOption(params, createSpecificPayoff(params, type), marketData);
            } catch (const std::invalid_argument& e) {
                throw std::invalid_argument(invalidParams(getType(type)) + e.what());
            }
        };
        auto option = make();
        option->initialize();
        return option;'''),
 ('include/option/parameter_object.h', '''            try {
                return std::get<T>(parameters_.at(name));
            } catch (const std::bad_variant_access&) {
                throw std::invalid_argument("Parameter type mismatch for: " + name);
            }''', '''            if (const T* value = std::get_if<T>(&parameters_.at(name))) return *value;
            throw std::invalid_argument("Parameter type mismatch for: " + name);'''),
]
