"""Algorithms rewritten: other loops, other storage, other order of arithmetic."""
S = 'src/solver/monte_carlo/'; F = 'src/solver/finite_difference_method/solver/one_factor/'; NA = 'src/numerical_analysis/'; M = 'src/model/'
EDITS = [
 (NA + 'linear_algebra/matrix_solver/thomas_algorithm.cpp', '''        std::vector<double> a(n-1), bDiag(n), c(n-1);
        for (size_t i = 0; i < n-1; ++i) {
            a[i] = A.coeff(i+1, i);
            c[i] = A.coeff(i, i+1);
        }
        for (size_t i = 0; i < n; ++i) {
            bDiag[i] = A.coeff(i, i);
        }
''', '''        std::vector<double> a(n-1), bDiag(n), c(n-1);
        for (int k = 0; k < A.outerSize(); ++k) {
            for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) {
                if (it.row() == it.col()) bDiag[it.row()] = it.value();
                else if (it.row() == it.col() + 1) a[it.col()] = it.value();
                else if (it.col() == it.row() + 1) c[it.row()] = it.value();
            }
        }
'''),
 (NA + 'interpolation/quadratic_interpolation.cpp', '''        unsigned int low = 0;
        unsigned int high = xValues.size() - 1;

        // Performs binary search assuming grid is strictly monotonous
        while (low <= high) {
            const unsigned int mid = low + (high - low) / 2;
            if (xValues[mid] <= target && target <= xValues[mid+1])
                return mid;
            if (xValues[mid] < target)
                low = mid + 1;
            else
                high = mid - 1;
        }

        throw std::runtime_error("Interpolation error: Could not find appropriate interval.");''', '''        unsigned int low = 0;
        unsigned int high = xValues.size() - 1; // target lies in [x_low, x_high]
        while (high - low > 1) {
            const unsigned int mid = (low + high) / 2;
            (target < xValues[mid] ? high : low) = mid;
        }
        return low;'''),
 (S + 'mc_lookback.cpp', '''            double S_min = std::numeric_limits<double>::infinity();
            double S_max = -std::numeric_limits<double>::infinity();

            for (int t = 0; t < steps; ++t) {
                S_min = std::min(S_min, S[t]);
                S_max = std::max(S_max, S[t]);
            }
''', '''            const double S_min = *std::min_element(S.begin(), S.end());
            const double S_max = *std::max_element(S.begin(), S.end());
'''),
 (S + 'mc_lookback.cpp', '#include "solver/monte_carlo/mc_lookback.h"', '#include "solver/monte_carlo/mc_lookback.h"\n#include <algorithm>'),
 (F + 'euler_explicit_fdm_solver.cpp', '''            newPrices[j] = ((alpha*oldPrices[j-1]) + (beta*oldPrices[j]) + (gamma*oldPrices[j+1])) / dx2
            - (dt*(pde_->rightHandSide(tPrev, xValues[j])));''', '''            const double source = pde_->rightHandSide(tPrev, xValues[j]);
            const double weighted = gamma*oldPrices[j+1] + beta*oldPrices[j] + alpha*oldPrices[j-1];
            newPrices[j] = weighted / dx2 - dt * source;'''),
 (F + 'base_fdm_solver.cpp', '''            oldPrices = newPrices;
            tPrev = tCurr;
        }
        solved = true;''', '''            oldPrices.swap(newPrices);
            tPrev = tCurr;
        }
        if (!solved) newPrices = oldPrices;
        solved = true;'''),
 (M + 'heston_model.cpp', '''            const double VMax = std::max(V, 0.0);
            const double drift = (r - c - 0.5 * VMax) * dt;
            const double diffusion = sqrt(VMax * dt) * zS;
            S *= exp(drift + diffusion);

            // Apply discretization scheme to the variance process (CIR process)
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);
''', '''            const double VMax = V > 0.0 ? V : 0.0;

            // Apply discretization scheme to the variance process (CIR process)
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);

            const double logReturn = (r - c) * dt - 0.5 * VMax * dt + sqrt(VMax) * sqrt(dt) * zS;
            S *= exp(logReturn);
'''),
 ('src/random/distribution/standard_normal_distribution.cpp', '''        const bool sup = quantile > 0.5;
        const double up = sup ? 1.0 - quantile : quantile;
''', '''        if (quantile > 0.5) return -inv_cdf(1.0 - quantile);
        const bool sup = false;
        const double up = quantile;
'''),
 ('src/random/number_generator/faure_quasi_random_generator.cpp', '''        const double uniform_value = point_[step_] / static_cast<double>(boost::random::faure::max());
        ++step_;
        return dist.inv_cdf(uniform_value);''', '''        static const auto range = static_cast<double>(boost::random::faure::max());
        return dist.inv_cdf(point_[step_++] / range);'''),
 (NA + 'regression/ridge.cpp', '''        const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(numBasisFunctions, numBasisFunctions);
        return (A.transpose() * A + lambda_ * I).ldlt().solve(A.transpose() * vY);''', '''        Eigen::MatrixXd normal = A.transpose() * A;
        for (int i = 0; i < numBasisFunctions; ++i) normal(i, i) += lambda_;
        const Eigen::VectorXd rhs = A.transpose() * vY;
        return normal.ldlt().solve(rhs);'''),
 (S + 'mc_american.cpp', '''            for (int i = 0; i < N; ++i) {
                const double t_j = static_cast<double>(j) * dt;      // Time at current step
                const double t_jp1 = static_cast<double>(j+1) * dt; // Time at the next step
''', '''            const double t_j = static_cast<double>(j) * dt;      // Time at current step
            const double t_jp1 = static_cast<double>(j+1) * dt; // Time at the next step
            for (int i = 0; i < N; ++i) {
'''),
 (S + 'mc_american.cpp', '''                        const double continuationValue = coeffs.dot(inTheMoneyBases.row(idxITM));
                        ++idxITM;
                        if (exerciseValue > continuationValue) {
                            americanPrices(i) = exerciseValue;
                        } else {
                            americanPrices(i) *= discountFactor;
                        }
                    } else {
                        americanPrices(i) *= discountFactor;
                    }''', '''                        const double continuationValue = coeffs.dot(inTheMoneyBases.row(idxITM++));
                        if (exerciseValue > continuationValue) {
                            americanPrices(i) = exerciseValue;
                            continue;
                        }
                    }
                    americanPrices(i) *= discountFactor;'''),
 ('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', '''        const double sigma = marketData_->getStockData(option_->getID())->getSigma();
        return 0.5 * sigma*sigma * x*x;''', '''        const auto stock = marketData_->getStockData(option_->getID());
        const double sx = stock->getSigma() * x;
        return 0.5 * sx * sx;'''),
 ('src/market_data/market_data.cpp', '''        if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
            it->second->setSigma(sigma);
            notifyObserver(ticker);
        } else {
            throw std::invalid_argument(ticker + " is no present in the MarketData object");
        }''', '''        const auto it = stockDataMap_.find(ticker);
        if (it == stockDataMap_.end())
            throw std::invalid_argument(ticker + " is no present in the MarketData object");
        const auto stock = it->second;
        stock->setSigma(sigma);
        notifyObserver(ticker);'''),
 (S + 'mc_single_path.cpp', 'double sumPayoff = 0.0;', 'long double sumPayoff = 0.0L; // Less rounding'),
 ('src/option/path_dependent/barrier_option.cpp', '''        if (direction_ == BarrierDirection::Up) {
            return S >= B_;
        }
        return S <= B_; // BarrierDirection::Down''', '''        const bool up = direction_ == BarrierDirection::Up;
        return up ? S >= B_ : S <= B_;'''),
 (M + 'bates_model.cpp', '''            for (long long j = 0; j < jump_count; ++j) {
                const double jumpSize = (*generator_)(jumpDist);
                S *= exp(jumpSize);
            }''', '''            double jumps = 0.0;
            for (long long j = jump_count; j > 0; --j) {
                jumps += (*generator_)(jumpDist);
            }
            S *= exp(jumps);'''),
]
