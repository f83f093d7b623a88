From 8e6dc8daf722fc6da1dea92ebed422e0daf7703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 01/47] fix: a rejected stock update must not modify the stored
 stock data

---
 src/market_data/stock_data.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..8dd5790 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -38,18 +38,15 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
-        S_ = S;
-        validate();
+        *this = StockData(S, sigma_, c_); // Validate before committing
     }
 
     void StockData::setSigma(const double& sigma) {
-        sigma_ = sigma;
-        validate();
+        *this = StockData(S_, sigma, c_);
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
-        c_ = c;
-        validate();
+        *this = StockData(S_, sigma_, c);
     }
 
     void StockData::validate() const {
-- 
2.43.0


From 0f5285fd0ea825c04c824304dc1793bccd194f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 02/47] fix: reject NaN stock data, strikes and maturities

---
 src/market_data/stock_data.cpp                           | 6 +++---
 src/option/base_option.cpp                               | 2 +-
 src/payoff/double_strikes/base_payoff_double_strikes.cpp | 4 ++--
 src/payoff/single_strike/base_payoff_single_strike.cpp   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index 8dd5790..cd83302 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -50,14 +50,14 @@ namespace OptionPricer {
     }
 
     void StockData::validate() const {
-        if (S_ <= 0) {
+        if (!(S_ > 0)) {
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (!(sigma_ >= 0)) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 8be0461..6c9d7af 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -22,7 +22,7 @@ namespace OptionPricer {
                    const double& T,
                    std::shared_ptr<IMarketData> marketData)
     : MarketDataObserver(ticker), T_(T), marketData_(std::move(marketData)) {
-        if (T < 0) throw std::invalid_argument("Time to expiration (T) must be positive.");
+        if (!(T >= 0)) throw std::invalid_argument("Time to expiration (T) must be positive.");
         // Try to retrieve StockData if not found it throws an exception
         auto stockData = marketData_->getStockData(id_);
         payoff_ = std::move(payoff); // Safely move the payoff
diff --git a/src/payoff/double_strikes/base_payoff_double_strikes.cpp b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
index 45f4f2a..0ae0b9f 100644
--- a/src/payoff/double_strikes/base_payoff_double_strikes.cpp
+++ b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
@@ -6,8 +6,8 @@ namespace OptionPricer {
 
     PayoffDoubleStrikes::PayoffDoubleStrikes(const PayoffType& type, const double& K_L, const double& K_U)
         : Payoff(type), K_L_(K_L), K_U_(K_U) {
-        if (K_L_ < 0) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
-        if (K_U_ < 0) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
+        if (!(K_L_ >= 0)) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
+        if (!(K_U_ >= 0)) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
     }
 
     PayoffDoubleStrikes::~PayoffDoubleStrikes() = default;
diff --git a/src/payoff/single_strike/base_payoff_single_strike.cpp b/src/payoff/single_strike/base_payoff_single_strike.cpp
index 0132f37..9433855 100644
--- a/src/payoff/single_strike/base_payoff_single_strike.cpp
+++ b/src/payoff/single_strike/base_payoff_single_strike.cpp
@@ -5,7 +5,7 @@
 namespace OptionPricer {
 
     PayoffSingleStrike::PayoffSingleStrike(const PayoffType& type, const double& K) : Payoff(type), K_(K) {
-        if (K_ < 0) throw std::invalid_argument("Strike price (K) must be positive.");
+        if (!(K_ >= 0)) throw std::invalid_argument("Strike price (K) must be positive.");
     }
 
     PayoffSingleStrike::~PayoffSingleStrike() = default;
-- 
2.43.0


From 88c5b732e71a80005f8d6e5c74be73e735e2b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 03/47] fix: observers may register or die while being notified

---
 src/market_data/market_data.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..7596b6a 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,9 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        // Iterate over a copy as update() may add or remove observers
+        const auto observers = observers_;
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +46,9 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        // Iterate over a copy as update() may add or remove observers
+        const auto observers = observers_;
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From c5cbbb10af788b08dc7ee767c22da0b9afa0e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 04/47] fix: seed the pseudo random generator

---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From 8159a1639aaea4349df87cfe5f9a32dbbae1778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 05/47] fix: reject number generators of dimension zero

---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..6068834 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,12 +4,14 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
 
     NumberGenerator::NumberGenerator(const unsigned int &dim, const unsigned int& seed)
     : dim_(dim), seed_(seed) {
+        validateDim();
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From e9f0ec5f564e3ab1d6e0e6de7d6d270dd6d9a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 06/47] fix: uniform distribution must draw from its own bounds

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From 228556dd6be94836cfafa077632668a4927c9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 07/47] fix: Heston model must keep the given variance
 discretization

---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From ff5daa228e991b5c4d91b1c891858c8ec50efb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 08/47] fix: each Kou jump is either upward or downward, with
 finite mean

---
 src/model/kou_model.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..06697e3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -15,9 +15,9 @@ namespace OptionPricer {
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (eta1_ <= 1)
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (eta2_ <= 0)
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From b87924e0788169a499f736ae7c388c1402a825a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 09/47] fix: compensate the Merton jumps so that discounted
 prices are martingales

---
 src/model/merton_jump_diffusion_model.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..0b4b5c4 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -35,10 +35,13 @@ namespace OptionPricer {
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
 
+        // Expected relative jump, compensated in the risk neutral drift
+        const double k = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0;
+
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
             // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * k) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From dcfdc4cb16ea11694915450b29341f744da55362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 10/47] fix: compensate the Bates jumps so that discounted
 prices are martingales

---
 src/model/bates_model.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..bbf1645 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -44,6 +44,9 @@ namespace OptionPricer {
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
 
+        // Expected relative jump, compensated in the risk neutral drift
+        const double k = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0;
+
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
 
@@ -55,7 +58,7 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double drift = (r - c - 0.5 * VMax - lambda_ * k) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
-- 
2.43.0


From 278ab9ea0c3462cc594cc4bfad5d593c4f67f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 11/47] fix: variance gamma subordinator must have variance
 rate nu

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..2b8b6d1 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From 863af4d4beaae27ef730d4015c7afccf200aea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 12/47] fix: variance gamma drift correction must follow
 volatility updates

---
 include/model/variance_gamma_model.h | 1 -
 src/model/variance_gamma_model.cpp   | 9 ++++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..9db0593 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -20,7 +20,6 @@ namespace OptionPricer {
     private:
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 2b8b6d1..ef60b7b 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -16,10 +16,6 @@ namespace OptionPricer {
         if (nu_ <= 0.0) {
             throw std::invalid_argument("nu must be positive");
         }
-
-        // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
@@ -36,6 +32,9 @@ namespace OptionPricer {
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
 
+        // Calculate the omega correction term that makes the actualized stock price a martingale
+        const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
 
@@ -44,7 +43,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From 09288182d5089683ab98f34b0618c8676a2158f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 13/47] fix: discount American cash flows over steps with no
 path in the money

---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..b24d6cf 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor;
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor;
             }
         }
 
-- 
2.43.0


From 212c2e03b3e9587e0b5e3d91e1c6d453e2b2d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 14/47] fix: Crank-Nicolson explicit part must include the
 boundary values

---
 .../solver/one_factor/crank_nicolson_fdm_solver.cpp       | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..0e7ce0a 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -82,13 +82,7 @@ namespace OptionPricer::FDM::OneFactor {
             gamma = -0.5 * (dtSig + dtSig2);  // RHS (explicit) upper diagonal
 
             // Add the explicit part
-            b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
 
             // Convert triplets to sparse matrices
             A.setFromTriplets(tripletListA.begin(), tripletListA.end());
-- 
2.43.0


From 18180fb995e7538fabdc7e23bf8b15ed9d1bb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 15/47] fix: Crank-Nicolson must solve the system once it is
 assembled

---
 .../one_factor/crank_nicolson_fdm_solver.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index 0e7ce0a..2b9f305 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -83,17 +83,17 @@ namespace OptionPricer::FDM::OneFactor {
 
             // Add the explicit part
             b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From 54def84e36dda0d740cb735a081109eef1932089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 16/47] fix: Black-Scholes boundary values must be discounted
 over the time to maturity

---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..1d05e98 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,8 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        // t is the time to maturity as the scheme marches from the payoff
+        return payoff->getK() * std::exp(-marketData_->getR() * t);
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +51,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t);
         }
 
         return 0.0;
-- 
2.43.0


From b0095e77adeed6bddae22d82b5c68c03e66bf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 17/47] fix: march exactly N-1 time steps whatever the rounding
 of dt

---
 .../solver/one_factor/base_fdm_solver.cpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..d01a862 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,8 +46,8 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
-            tCurr = tPrev + dt;
+        for (unsigned long n = 1; n < N_ && !solved; ++n) {
+            tCurr = static_cast<double>(n) * dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
             oldPrices = newPrices;
-- 
2.43.0


From a315b480cf6555c8ef7a789fd169ac8fef728ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 18/47] fix: first Laguerre polynomial is 1 - x

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..1bc83af 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1 - x.array(); // L1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From 6398ce47874fc2220ae1a948ed889479e3792ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 19/47] fix: a default stock model must not outlive the build
 it was created for

---
 .../monte_carlo/builder/mc_builder_american.cpp    |  7 ++++---
 .../monte_carlo/builder/mc_builder_asian.cpp       | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_barrier.cpp     | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_single_path.cpp |  7 ++++---
 .../monte_carlo/builder/mc_lookback_builder.cpp    | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..0d40a86 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..d274e3e 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..7887526 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..1dad58e 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..519d1d9 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 8b8de15a331f204d3e4f37bb50af12b982f19945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 20/47] fix: Faure sequence must skip the origin

---
 src/random/number_generator/faure_quasi_random_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/number_generator/faure_quasi_random_generator.cpp b/src/random/number_generator/faure_quasi_random_generator.cpp
index 0f63a0f..04dde1e 100644
--- a/src/random/number_generator/faure_quasi_random_generator.cpp
+++ b/src/random/number_generator/faure_quasi_random_generator.cpp
@@ -4,14 +4,14 @@ namespace OptionPricer {
 
     FaureGenerator::FaureGenerator(const unsigned int &dim)
     : QuasiRandomNumberGenerator(dim), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(static_cast<std::size_t>(seed_) + 1); // Skip the origin
         faureQrng_.generate(point_.begin(), point_.end()); // Initialize the point
     }
 
     FaureGenerator::FaureGenerator(const unsigned int &dim,
                                    const unsigned int &seed)
     : QuasiRandomNumberGenerator(dim, seed), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(static_cast<std::size_t>(seed_) + 1); // Skip the origin
         faureQrng_.generate(point_.begin(), point_.end());
     }
 
-- 
2.43.0


From 0e6746ae61836770a84b5d995f851946f15d1e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 21/47] fix: explicit Euler boundary values belong to the new
 time level

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0


From a77e9f819b8e1fb8616a3b81821789f19cbf0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 22/47] monitor: report option notifications when
 OPTION_PRICER_MONITOR is defined

---
 src/option/base_option.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 6c9d7af..4bde654 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -15,6 +15,11 @@
 * object being created when the constructor is called to the list of observers
 **/
 
+#ifdef OPTION_PRICER_MONITOR
+// Runtime monitoring hook: reports the notification of an option
+extern "C" void optionPricerMonitorUpdate(const OptionPricer::Option* option);
+#endif
+
 namespace OptionPricer {
 
     Option::Option(const std::string& ticker,
@@ -34,6 +39,9 @@ namespace OptionPricer {
     }
 
     void Option::update() {
+#ifdef OPTION_PRICER_MONITOR
+        optionPricerMonitorUpdate(this);
+#endif
         //std::cout << "StockData " << id_ << " updated!" << "\n";
         //std::cout << "The new Option price is: "<< calc_price() << "\n";
     }
-- 
2.43.0


From 7f2be5b93c2be067572d449309c40688eb815bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 23/47] fix: validate distribution parameters before
 constructing the standard distribution

A parameter that violates the precondition of the standard library's
distribution was handed to it before the check that rejects it.
---
 src/random/distribution/continuous_uniform_distrib.cpp | 3 ++-
 src/random/distribution/exponential_distr.cpp          | 3 ++-
 src/random/distribution/gamma_distrib.cpp              | 3 ++-
 src/random/distribution/normal_distrib.cpp             | 3 ++-
 src/random/distribution/poisson_distrib.cpp            | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index 0558a0a..5295211 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,9 +2,10 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b), uniform_dist_(a_, b_) {
+    : a_(a), b_(b) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
+        uniform_dist_ = std::uniform_real_distribution<>(a_, b_);
     }
 
     ContinuousUniformDistribution::~ContinuousUniformDistribution() = default;
diff --git a/src/random/distribution/exponential_distr.cpp b/src/random/distribution/exponential_distr.cpp
index 677baaa..ead6e39 100644
--- a/src/random/distribution/exponential_distr.cpp
+++ b/src/random/distribution/exponential_distr.cpp
@@ -3,9 +3,10 @@
 namespace OptionPricer {
 
     ExponentialDistribution::ExponentialDistribution(const double &lambda)
-    : lambda_(lambda), exponential_dist_(lambda_) {
+    : lambda_(lambda) {
         if (lambda_ <= 0)
             throw std::invalid_argument("lambda must be positive");
+        exponential_dist_ = std::exponential_distribution<>(lambda_);
     }
 
     ExponentialDistribution::~ExponentialDistribution() = default;
diff --git a/src/random/distribution/gamma_distrib.cpp b/src/random/distribution/gamma_distrib.cpp
index e2d871f..60c6cf8 100644
--- a/src/random/distribution/gamma_distrib.cpp
+++ b/src/random/distribution/gamma_distrib.cpp
@@ -3,10 +3,11 @@
 namespace OptionPricer {
 
     GammaDistribution::GammaDistribution(const double &alpha, const double &beta)
-    : alpha_(alpha), beta_(beta), gamma_dist_(alpha_, 1.0 / beta_) {
+    : alpha_(alpha), beta_(beta) {
         if (alpha_ <= 0 || beta_ <= 0) {
             throw std::invalid_argument("alpha (shape) and beta (rate) parameters must be positive");
         }
+        gamma_dist_ = std::gamma_distribution<>(alpha_, 1.0 / beta_);
     }
 
     GammaDistribution::~GammaDistribution() = default;
diff --git a/src/random/distribution/normal_distrib.cpp b/src/random/distribution/normal_distrib.cpp
index 9828f7e..01c6b04 100644
--- a/src/random/distribution/normal_distrib.cpp
+++ b/src/random/distribution/normal_distrib.cpp
@@ -3,9 +3,10 @@
 namespace OptionPricer {
 
     NormalDistribution::NormalDistribution(const double &mu, const double &sigma)
-    : mu_(mu), sigma_(sigma), normal_dist_(mu_, sigma_) {
+    : mu_(mu), sigma_(sigma) {
         if (sigma_ <= 0)
             throw std::invalid_argument("sigma must be positive");
+        normal_dist_ = std::normal_distribution<>(mu_, sigma_);
     }
 
     NormalDistribution::~NormalDistribution() = default;
diff --git a/src/random/distribution/poisson_distrib.cpp b/src/random/distribution/poisson_distrib.cpp
index 56938b0..731e132 100644
--- a/src/random/distribution/poisson_distrib.cpp
+++ b/src/random/distribution/poisson_distrib.cpp
@@ -3,10 +3,11 @@
 namespace OptionPricer {
 
     PoissonDistribution::PoissonDistribution(const double& lambda)
-    : lambda_(lambda), poisson_dist_(lambda_) {
+    : lambda_(lambda) {
         if (lambda_ <= 0.0) {
             throw std::invalid_argument("lambda must be positive");
         }
+        poisson_dist_ = std::poisson_distribution<>(lambda_);
     }
 
     PoissonDistribution::~PoissonDistribution() = default;
-- 
2.43.0


From 071baa16dbd6fc8aaf3248b1edeeaefe62f0b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:17 +0000
Subject: [PATCH 24/47] fix: finite difference solver starts over after a
 solution attempt that failed part way

---
 .../solver/one_factor/base_fdm_solver.cpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index d01a862..37819ae 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,6 +46,10 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
+        if (!solved && tPrev > 0.0) { // A previous attempt ended in an exception part way: start over
+            calculateInitialConditions();
+            tPrev = 0.0;
+        }
         for (unsigned long n = 1; n < N_ && !solved; ++n) {
             tCurr = static_cast<double>(n) * dt;
             calculateBoundaryConditions();
-- 
2.43.0


From caf2b5e684e225dda526654e37a5f4d500ae8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:14 +0000
Subject: [PATCH 25/47] fix: least squares tells rank deficiency from rounding
 in tall designs

The rounding errors of the singular values grow with the number of rows, but
the rank was decided by a bound that only accounts for the number of columns.
A design of 300 or more equal rows, as in American prices at zero volatility,
was taken for full rank: coefficients of 1e12 and continuation values that are
off in the fourth digit.
---
 src/numerical_analysis/regression/least_squares.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/numerical_analysis/regression/least_squares.cpp b/src/numerical_analysis/regression/least_squares.cpp
index 610fd1d..61ff8bb 100644
--- a/src/numerical_analysis/regression/least_squares.cpp
+++ b/src/numerical_analysis/regression/least_squares.cpp
@@ -1,11 +1,17 @@
 #include "numerical_analysis/regression/least_squares.h"
+#include <algorithm>
+#include <limits>
 
 namespace OptionPricer {
 
     LeastSquaresRegression::~LeastSquaresRegression() = default;
 
     Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {
-        return A.jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(vY);
+        auto svd = A.jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        // The rounding errors of the decomposition grow with the number of rows: singular values
+        // below this bound are zero (Eigen's default only accounts for the smaller dimension)
+        svd.setThreshold(static_cast<double>(std::max(A.rows(), A.cols())) * std::numeric_limits<double>::epsilon());
+        return svd.solve(vY);
     }
 
 }
-- 
2.43.0


From 7882f5fa4a6079671bcb81df2735fa287d69acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 26/47] fix: refused barrier options list their barrier
 parameters

---
 .../option/path_dependent/factory_barrier_option.h   |  2 ++
 src/option/path_dependent/factory_barrier_option.cpp | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/option/path_dependent/factory_barrier_option.h b/include/option/path_dependent/factory_barrier_option.h
index 2100157..ba65a9c 100644
--- a/include/option/path_dependent/factory_barrier_option.h
+++ b/include/option/path_dependent/factory_barrier_option.h
@@ -16,6 +16,7 @@ namespace OptionPricer {
             std::unique_ptr<PayoffSingleStrike> payoff,
             const std::shared_ptr<IMarketData>& marketData) override;
 
+        std::string invalidParams(const std::string& option_type) const override;
         std::string getType(const PayoffType& type) const override;
     };
 
@@ -28,6 +29,7 @@ namespace OptionPricer {
             std::unique_ptr<PayoffSingleStrike> payoff,
             const std::shared_ptr<IMarketData>& marketData) override;
 
+        std::string invalidParams(const std::string& option_type) const override;
         std::string getType(const PayoffType& type) const override;
     };
 
diff --git a/src/option/path_dependent/factory_barrier_option.cpp b/src/option/path_dependent/factory_barrier_option.cpp
index 58168ef..6032a71 100644
--- a/src/option/path_dependent/factory_barrier_option.cpp
+++ b/src/option/path_dependent/factory_barrier_option.cpp
@@ -24,6 +24,12 @@ namespace OptionPricer {
         ));
     }
 
+    std::string KnockInBarrierOptionFactory::invalidParams(const std::string &option_type) const {
+        return OptionFactory::invalidParams(option_type) +
+               "  - B (double) for barrier\n"
+               "  - direction (BarrierDirection) for side of the barrier\n";
+    }
+
     std::string KnockInBarrierOptionFactory::getType(const PayoffType& type) const {
         return "Knock-In  " + PayoffTypeToString(type) + " Option";
     }
@@ -48,6 +54,12 @@ namespace OptionPricer {
         ));
     }
 
+    std::string KnockOutBarrierOptionFactory::invalidParams(const std::string &option_type) const {
+        return OptionFactory::invalidParams(option_type) +
+               "  - B (double) for barrier\n"
+               "  - direction (BarrierDirection) for side of the barrier\n";
+    }
+
     std::string KnockOutBarrierOptionFactory::getType(const PayoffType& type) const {
         return "Knock-Out " + PayoffTypeToString(type) + " Option";
     }
-- 
2.43.0


From b634e011170e1f7f2571380fb9849cc16ce09c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 27/47] fix: refused floating strike lookbacks do not ask for a
 strike

---
 include/option/path_dependent/factory_lookback_option.h | 1 +
 src/option/path_dependent/factory_lookback_option.cpp   | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/option/path_dependent/factory_lookback_option.h b/include/option/path_dependent/factory_lookback_option.h
index 504a620..90bf47b 100644
--- a/include/option/path_dependent/factory_lookback_option.h
+++ b/include/option/path_dependent/factory_lookback_option.h
@@ -19,6 +19,7 @@ namespace OptionPricer {
                                                      std::unique_ptr<PayoffLookbackFloatingStrike> payoff,
                                                      const std::shared_ptr<IMarketData>& marketData) override;
 
+        std::string invalidParams(const std::string& option_type) const override;
         std::string getType(const PayoffType& type) const override;
     };
 
diff --git a/src/option/path_dependent/factory_lookback_option.cpp b/src/option/path_dependent/factory_lookback_option.cpp
index c199af4..699eb37 100644
--- a/src/option/path_dependent/factory_lookback_option.cpp
+++ b/src/option/path_dependent/factory_lookback_option.cpp
@@ -23,6 +23,14 @@ namespace OptionPricer {
         ));
     }
 
+    std::string FloatingStrikeLookbackOptionFactory::invalidParams(const std::string &option_type) const {
+        // No strike: it is set by the path
+        return "Invalid parameters for " + option_type + "\n"
+               "Expected parameters:\n"
+               "  - ticker (string) for ticker symbol\n"
+               "  - T (double) for maturity\n";
+    }
+
     std::string FloatingStrikeLookbackOptionFactory::getType(const PayoffType& type) const {
         return "Floating Strike Lookback " + PayoffTypeToString(type) + " Option";
     }
-- 
2.43.0


From 7e6e9bd9d23b707d7868e6379814a7c0f0f0c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 28/47] fix: refused double digital options are named

---
 src/option/single_path/factory_double_digital_option.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option/single_path/factory_double_digital_option.cpp b/src/option/single_path/factory_double_digital_option.cpp
index 4963b9c..25fa2b3 100644
--- a/src/option/single_path/factory_double_digital_option.cpp
+++ b/src/option/single_path/factory_double_digital_option.cpp
@@ -28,6 +28,6 @@ namespace OptionPricer {
     }
 
     std::string DoubleDigitalOptionFactory::getType(const PayoffType& type) const {
-        return PayoffTypeToString(type) + " Option";
+        return "Double Digital " + PayoffTypeToString(type) + " Option";
     }
 }
-- 
2.43.0


From f915ece672a05e3fadb59c4ee4220562a6a58e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 29/47] fix: CFL warning judges the equation, and only in the
 explicit scheme

---
 .../solver/one_factor/euler_explicit_fdm_solver.h         | 1 +
 .../solver/one_factor/base_fdm_solver.cpp                 | 4 ----
 .../solver/one_factor/euler_explicit_fdm_solver.cpp       | 8 ++++++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h b/include/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h
index 08fa2c8..2c4c1e0 100644
--- a/include/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h
+++ b/include/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h
@@ -27,6 +27,7 @@ namespace OptionPricer::FDM::OneFactor {
         void calculateInnerDomain() override;
 
         double alpha, beta, gamma; // Differencing coefficients
+        bool cflWarned = false;     // The CFL warning is given once
     };
 
 }
diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 37819ae..4730d86 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -1,6 +1,5 @@
 #include "solver/finite_difference_method/solver/one_factor/base_fdm_solver.h"
 #include "numerical_analysis/interpolation/linear_interpolation.h"
-#include <iostream>
 
 namespace OptionPricer::FDM::OneFactor {
 
@@ -16,9 +15,6 @@ namespace OptionPricer::FDM::OneFactor {
         calculateStepSizes();
         calculateInitialConditions();
 
-        if (dt / (dx*dx) >= 0.5)
-            std::cerr << "CFL condition not satisfied!\nThe solution could be unstable";
-
         if (!interpolation)
             interpolation_ = std::make_shared<LinearInterpolation>();
         else
diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index 0fa73f3..b40ef2a 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -1,4 +1,5 @@
 #include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
+#include <iostream>
 
 namespace OptionPricer::FDM::OneFactor {
 
@@ -23,6 +24,13 @@ namespace OptionPricer::FDM::OneFactor {
             const double dtSig = dt * pde_->diffusion(tPrev, xValues[j]);
             const double dtSig2 = 0.5 * dt*dx * pde_->convection(tPrev, xValues[j]);
 
+            // CFL condition check
+            if (!cflWarned && 2.0 * dtSig > dx2) {
+                std::cerr << "Warning: CFL condition not satisfied at row " << j
+                          << ". The solution could be unstable." << std::endl;
+                cflWarned = true;
+            }
+
             // Differencing coefficients
             alpha = dtSig - dtSig2;
             beta = dx2 - (2.0 * dtSig) + (dt * dx2 * (pde_->reaction(tPrev, xValues[j])));
-- 
2.43.0


From 50453bd9597630daa48168633b2187ff89dac0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:24 +0000
Subject: [PATCH 30/47] fix: path counters hold more than 2^31 paths

---
 src/solver/monte_carlo/mc_barrier.cpp     | 2 +-
 src/solver/monte_carlo/mc_lookback.cpp    | 2 +-
 src/solver/monte_carlo/mc_single_path.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/monte_carlo/mc_barrier.cpp b/src/solver/monte_carlo/mc_barrier.cpp
index c3e96a3..9e75557 100644
--- a/src/solver/monte_carlo/mc_barrier.cpp
+++ b/src/solver/monte_carlo/mc_barrier.cpp
@@ -14,7 +14,7 @@ namespace OptionPricer {
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> S = stockModel_->simulatePrices(option_->getT());
             bool hasCrossed = false;
 
diff --git a/src/solver/monte_carlo/mc_lookback.cpp b/src/solver/monte_carlo/mc_lookback.cpp
index 5dbf946..806ee8d 100644
--- a/src/solver/monte_carlo/mc_lookback.cpp
+++ b/src/solver/monte_carlo/mc_lookback.cpp
@@ -14,7 +14,7 @@ namespace OptionPricer {
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> S = stockModel_->simulatePrices(option_->getT());
             double S_min = std::numeric_limits<double>::infinity();
             double S_max = -std::numeric_limits<double>::infinity();
diff --git a/src/solver/monte_carlo/mc_single_path.cpp b/src/solver/monte_carlo/mc_single_path.cpp
index 2cc6642..ac5eba1 100644
--- a/src/solver/monte_carlo/mc_single_path.cpp
+++ b/src/solver/monte_carlo/mc_single_path.cpp
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double sumPayoff = 0.0;
         const double discountFactor = exp(-marketData_->getR() * option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             double S_T = stockModel_->simulatePriceAtMaturity(option_->getT());
             sumPayoff += option_->payoff(S_T);
         }
-- 
2.43.0


From b852600e667590624bcd4939f691cd4c396969b1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 31/47] fix: NaN model parameters are refused

---
 src/model/bates_model.cpp                 |  8 ++++++--
 src/model/heston_model.cpp                |  8 ++++++--
 src/model/kou_model.cpp                   | 10 +++++++---
 src/model/merton_jump_diffusion_model.cpp |  5 ++++-
 src/model/variance_gamma_model.cpp        |  6 +++++-
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index bbf1645..5b73c09 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -1,5 +1,6 @@
 #include "model/bates_model.h"
 #include "model/discretization/explicit_euler_cir_discretization.h"
+#include <cmath>
 #include <random/distribution/standard_normal_distribution.h>
 #include <random/distribution/poisson_distrib.h>
 #include <random/distribution/normal_distrib.h>
@@ -16,12 +17,15 @@ namespace OptionPricer {
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           kappa_(kappa), theta_(theta), sigma_v_(sigma_v), rho_(rho), v0_(v0),
           lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ), varDiscretization_(std::move(varDiscretization)) {
-        if (v0_ <= 0.0 || kappa_ <= 0.0 || sigma_v_ <= 0.0 || sigmaJ_ <= 0.0) {
+        if (!(v0_ > 0.0 && kappa_ > 0.0 && sigma_v_ > 0.0 && sigmaJ_ > 0.0)) {
             throw std::invalid_argument("v0, kappa, sigma_v, and sigmaJ must be positive");
         }
-        if (rho_ < -1.0 || rho_ > 1.0) {
+        if (!(rho_ >= -1.0 && rho_ <= 1.0)) {
             throw std::invalid_argument("rho must be between -1 and 1");
         }
+        if (std::isnan(theta_) || std::isnan(lambda_) || std::isnan(muJ_)) {
+            throw std::invalid_argument("theta, lambda and muJ must be numbers");
+        }
         if (!varDiscretization_)
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
     }
diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 6ec13df..4b1ddec 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -1,6 +1,7 @@
 #include "model/heston_model.h"
 #include "model/discretization/explicit_euler_cir_discretization.h"
 #include "random/distribution/standard_normal_distribution.h"
+#include <cmath>
 #include <iostream>
 
 namespace OptionPricer {
@@ -13,12 +14,15 @@ namespace OptionPricer {
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           kappa_(kappa), theta_(theta), sigma_v_(sigma_v), rho_(rho), v0_(v0),
           varDiscretization_(std::move(varDiscretization))  {
-        if (rho_ < -1.0 || rho_ > 1.0) {
+        if (!(rho_ >= -1.0 && rho_ <= 1.0)) {
             throw std::logic_error("Correlation rho must be between [-1,1]");
         }
-        if (v0_ < 0.0 || sigma_v < 0.0) {
+        if (!(v0_ >= 0.0 && sigma_v_ >= 0.0)) {
             throw std::logic_error("Initial volatility v0 and vol of vol sigma_v must be non-negative");
         }
+        if (std::isnan(kappa_) || std::isnan(theta_)) {
+            throw std::logic_error("kappa and theta must be numbers");
+        }
     /*
         if (2*kappa_*theta_ <= sigma_v_*sigma_v_) {
             throw std::logic_error("Feller's condition not satisfied.\n"
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 06697e3..142f1b1 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -1,4 +1,6 @@
 #include "model/kou_model.h"
+
+#include <cmath>
 #include <random/distribution/continuous_uniform_distrib.h>
 #include <random/distribution/exponential_distr.h>
 #include <random/distribution/poisson_distrib.h>
@@ -13,12 +15,14 @@ namespace OptionPricer {
                        const double &eta1, const double &eta2)
     : StockModel(ticker, std::move(marketData), std::move(generator)),
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
-        if (p_ < 0 || p_ > 1)
+        if (!(p_ >= 0 && p_ <= 1))
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ <= 1)
+        if (!(eta1_ > 1))
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ <= 0)
+        if (!(eta2_ > 0))
             throw std::invalid_argument("eta2 must be between larger than 0.");
+        if (std::isnan(lambda_))
+            throw std::invalid_argument("lambda must be a number.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
 
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 0b4b5c4..8f5fee8 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -1,5 +1,6 @@
 #include "model/merton_jump_diffusion_model.h"
 
+#include <cmath>
 #include <iostream>
 #include <random/distribution/normal_distrib.h>
 #include <random/distribution/poisson_distrib.h>
@@ -13,8 +14,10 @@ namespace OptionPricer {
                                                        const double &lambda, const double &muJ, const double &sigmaJ)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
         lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ) {
-        if (sigmaJ_ <= 0)
+        if (!(sigmaJ_ > 0))
             throw std::invalid_argument("sigmaJ must be positive");
+        if (std::isnan(lambda_) || std::isnan(muJ_))
+            throw std::invalid_argument("lambda and muJ must be numbers");
     }
 
     MertonJumpDiffusionModel::~MertonJumpDiffusionModel() = default;
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index ef60b7b..b5afd38 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -1,5 +1,6 @@
 #include "model/variance_gamma_model.h"
 
+#include <cmath>
 #include <random/distribution/standard_normal_distribution.h>
 
 #include "random/distribution/gamma_distrib.h"
@@ -13,9 +14,12 @@ namespace OptionPricer {
                                            const double &nu, const double &theta)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           nu_(nu), theta_(theta) {
-        if (nu_ <= 0.0) {
+        if (!(nu_ > 0.0)) {
             throw std::invalid_argument("nu must be positive");
         }
+        if (std::isnan(theta_)) {
+            throw std::invalid_argument("theta must be a number");
+        }
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
-- 
2.43.0


From b4675e01b997d59d101f78eb7eaa93a9a0242fbd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 32/47] fix: variance gamma parameters without a martingale are
 refused

---
 src/model/variance_gamma_model.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index b5afd38..925a43d 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,11 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+        const double expMoment = 1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_;
+        if (!(expMoment > 0.0)) {
+            throw std::logic_error("The stock price has no expectation: theta*nu + sigma^2*nu/2 must be lower than 1");
+        }
+        const double omega = (1.0 / nu_) * std::log(expMoment);
 
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
-- 
2.43.0


From 8149677030e0e53b740b1c10c5af211c9431af4c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 33/47] fix: NaN distribution parameters and quantiles are
 refused

---
 src/random/distribution/continuous_uniform_distrib.cpp   | 2 +-
 src/random/distribution/exponential_distr.cpp            | 2 +-
 src/random/distribution/gamma_distrib.cpp                | 2 +-
 src/random/distribution/normal_distrib.cpp               | 6 +++++-
 src/random/distribution/poisson_distrib.cpp              | 2 +-
 src/random/distribution/standard_normal_distribution.cpp | 2 +-
 6 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index 5295211..32db69c 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -3,7 +3,7 @@
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
     : a_(a), b_(b) {
-        if (a_ >= b_)
+        if (!(a_ < b_))
             throw std::invalid_argument("a must lower than b");
         uniform_dist_ = std::uniform_real_distribution<>(a_, b_);
     }
diff --git a/src/random/distribution/exponential_distr.cpp b/src/random/distribution/exponential_distr.cpp
index ead6e39..1129afd 100644
--- a/src/random/distribution/exponential_distr.cpp
+++ b/src/random/distribution/exponential_distr.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     ExponentialDistribution::ExponentialDistribution(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ <= 0)
+        if (!(lambda_ > 0))
             throw std::invalid_argument("lambda must be positive");
         exponential_dist_ = std::exponential_distribution<>(lambda_);
     }
diff --git a/src/random/distribution/gamma_distrib.cpp b/src/random/distribution/gamma_distrib.cpp
index 60c6cf8..15cea50 100644
--- a/src/random/distribution/gamma_distrib.cpp
+++ b/src/random/distribution/gamma_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     GammaDistribution::GammaDistribution(const double &alpha, const double &beta)
     : alpha_(alpha), beta_(beta) {
-        if (alpha_ <= 0 || beta_ <= 0) {
+        if (!(alpha_ > 0 && beta_ > 0)) {
             throw std::invalid_argument("alpha (shape) and beta (rate) parameters must be positive");
         }
         gamma_dist_ = std::gamma_distribution<>(alpha_, 1.0 / beta_);
diff --git a/src/random/distribution/normal_distrib.cpp b/src/random/distribution/normal_distrib.cpp
index 01c6b04..269abe0 100644
--- a/src/random/distribution/normal_distrib.cpp
+++ b/src/random/distribution/normal_distrib.cpp
@@ -1,11 +1,15 @@
 #include "random/distribution/normal_distrib.h"
 
+#include <cmath>
+
 namespace OptionPricer {
 
     NormalDistribution::NormalDistribution(const double &mu, const double &sigma)
     : mu_(mu), sigma_(sigma) {
-        if (sigma_ <= 0)
+        if (!(sigma_ > 0))
             throw std::invalid_argument("sigma must be positive");
+        if (std::isnan(mu_))
+            throw std::invalid_argument("mu must be a number");
         normal_dist_ = std::normal_distribution<>(mu_, sigma_);
     }
 
diff --git a/src/random/distribution/poisson_distrib.cpp b/src/random/distribution/poisson_distrib.cpp
index 731e132..622e9ce 100644
--- a/src/random/distribution/poisson_distrib.cpp
+++ b/src/random/distribution/poisson_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     PoissonDistribution::PoissonDistribution(const double& lambda)
     : lambda_(lambda) {
-        if (lambda_ <= 0.0) {
+        if (!(lambda_ > 0.0)) {
             throw std::invalid_argument("lambda must be positive");
         }
         poisson_dist_ = std::poisson_distribution<>(lambda_);
diff --git a/src/random/distribution/standard_normal_distribution.cpp b/src/random/distribution/standard_normal_distribution.cpp
index d45a22b..21e5321 100644
--- a/src/random/distribution/standard_normal_distribution.cpp
+++ b/src/random/distribution/standard_normal_distribution.cpp
@@ -12,7 +12,7 @@ namespace OptionPricer {
          * for approximating the inverse cumulative distribution function (CDF)
          * of the standard normal distribution, as described in Glasserman [2004].
          */
-        if (quantile <= 0.0 || quantile >= 1.0) {
+        if (!(quantile > 0.0 && quantile < 1.0)) {
             throw std::invalid_argument("quantile must be between (0,1)");
         }
 
-- 
2.43.0


From 5bae5146a53e548c27606a18466a746a04d15774 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 34/47] fix: a NaN regularization parameter is refused

---
 src/numerical_analysis/regression/lasso.cpp | 2 +-
 src/numerical_analysis/regression/ridge.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerical_analysis/regression/lasso.cpp b/src/numerical_analysis/regression/lasso.cpp
index 319cc8c..60f62c8 100644
--- a/src/numerical_analysis/regression/lasso.cpp
+++ b/src/numerical_analysis/regression/lasso.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     LassoRegression::LassoRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     LassoRegression::~LassoRegression() = default;
diff --git a/src/numerical_analysis/regression/ridge.cpp b/src/numerical_analysis/regression/ridge.cpp
index d05ee96..c1b8a26 100644
--- a/src/numerical_analysis/regression/ridge.cpp
+++ b/src/numerical_analysis/regression/ridge.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     RidgeRegression::RidgeRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     RidgeRegression::~RidgeRegression() = default;
-- 
2.43.0


From 613d3b23ec9f76dc8859d58fd5a67a67f5e4167c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 35/47] fix: a NaN risk-free rate is refused

---
 src/market_data/market_data.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index 7596b6a..2463aa4 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <ostream>
 #include <iostream>
 #include "market_data/market_data.h"
@@ -95,6 +96,9 @@ namespace OptionPricer {
     }
 
     void MarketData::setR(const double& r) {
+        if (std::isnan(r)) {
+            throw std::invalid_argument("Risk-free rate must be a number.");
+        }
         r_ = r;
         notifyObservers();
     }
-- 
2.43.0


From d7b605b1c743456088c3367acc1d3832ac288690 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 36/47] fix: a NaN barrier is refused

---
 src/option/path_dependent/barrier_option.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/option/path_dependent/barrier_option.cpp b/src/option/path_dependent/barrier_option.cpp
index b7f60bd..5c9fb07 100644
--- a/src/option/path_dependent/barrier_option.cpp
+++ b/src/option/path_dependent/barrier_option.cpp
@@ -1,4 +1,5 @@
 #include "option/path_dependent/barrier_option.h"
+#include <cmath>
 
 namespace OptionPricer {
 
@@ -18,7 +19,9 @@ namespace OptionPricer {
                                  const double &B, BarrierDirection direction,
                                  std::shared_ptr<IMarketData> marketData)
     : PathDependentOption(ticker, std::move(payoff), T, std::move(marketData)),
-        B_(B), direction_(direction) {}
+        B_(B), direction_(direction) {
+        if (std::isnan(B_)) throw std::invalid_argument("Barrier (B) must be a number.");
+    }
 
     // Knock-In Barrier
     KnockInBarrierOption::~KnockInBarrierOption() = default;
-- 
2.43.0


From 351dcfb1ed62f88c23cc72054d66171dda7763f8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 37/47] fix: a Monte Carlo solver without paths refuses to
 price

---
 src/solver/monte_carlo/mc_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/monte_carlo/mc_solver.cpp b/src/solver/monte_carlo/mc_solver.cpp
index 0f07558..d3e0aeb 100644
--- a/src/solver/monte_carlo/mc_solver.cpp
+++ b/src/solver/monte_carlo/mc_solver.cpp
@@ -9,6 +9,9 @@ namespace OptionPricer {
         if (!pricer_) {
             throw std::logic_error("Pricer is not set for MonteCarloSolver.");
         }
+        if (N_ == 0) {
+            throw std::logic_error("Number of paths must be positive.");
+        }
         return pricer_->calculatePrice(N_);
     }
 
-- 
2.43.0


From 6a931ed744c63e8454eb69f5dc33b2cca81c8c3f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 38/47] fix: finite difference grids without interior or time
 step are refused

---
 .../solver/one_factor/base_fdm_solver.cpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 4730d86..fb984c3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -24,6 +24,10 @@ namespace OptionPricer::FDM::OneFactor {
     FDMSolver::~FDMSolver() = default;
 
     void FDMSolver::calculateStepSizes() {
+        if (J_ < 3 || N_ < 2)
+            throw std::invalid_argument("At least 3 points in space (J) and 2 in time (N) are needed");
+        if (!(xDom_ > 0.0 && tDom_ >= 0.0))
+            throw std::invalid_argument("The spatial domain must be positive and the temporal domain non-negative");
         dx = xDom_ / static_cast<double>(J_-1);
         dt = tDom_ / static_cast<double>(N_-1);
         dx2 = dx*dx;
-- 
2.43.0


From f151cea4a399e0a13a0f0575d710f7dedf26242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:03 +0000
Subject: [PATCH 39/47] fix: uniform draws stay below the upper bound and
 finite

---
 src/random/distribution/continuous_uniform_distrib.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index 32db69c..6757661 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -1,10 +1,13 @@
 #include "random/distribution/continuous_uniform_distrib.h"
+#include <cmath>
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
     : a_(a), b_(b) {
         if (!(a_ < b_))
             throw std::invalid_argument("a must lower than b");
+        if (!std::isfinite(b_ - a_))
+            throw std::invalid_argument("the distance from a to b must be a finite number");
         uniform_dist_ = std::uniform_real_distribution<>(a_, b_);
     }
 
@@ -15,7 +18,11 @@ namespace OptionPricer {
     }
 
     double ContinuousUniformDistribution::operator()(std::mt19937 &gen) const {
-        return uniform_dist_(gen);
+        double x;
+        do {
+            x = uniform_dist_(gen);
+        } while (x >= b_); // Rounding may reach b, which is excluded
+        return x;
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 2e9fcf980d3e88d2394bfb87cd91b19898387b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:03 +0000
Subject: [PATCH 40/47] fix: Poisson draws with a large rate terminate

---
 include/random/distribution/poisson_distrib.h | 2 +-
 src/random/distribution/poisson_distrib.cpp   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/random/distribution/poisson_distrib.h b/include/random/distribution/poisson_distrib.h
index 6998b10..722933e 100644
--- a/include/random/distribution/poisson_distrib.h
+++ b/include/random/distribution/poisson_distrib.h
@@ -15,7 +15,7 @@ namespace OptionPricer {
 
     private:
         double lambda_;
-        mutable std::poisson_distribution<> poisson_dist_;
+        mutable std::poisson_distribution<long long> poisson_dist_; // An int is too small for large rates
     };
 
 }
diff --git a/src/random/distribution/poisson_distrib.cpp b/src/random/distribution/poisson_distrib.cpp
index 622e9ce..55ae87c 100644
--- a/src/random/distribution/poisson_distrib.cpp
+++ b/src/random/distribution/poisson_distrib.cpp
@@ -7,7 +7,10 @@ namespace OptionPricer {
         if (!(lambda_ > 0.0)) {
             throw std::invalid_argument("lambda must be positive");
         }
-        poisson_dist_ = std::poisson_distribution<>(lambda_);
+        if (lambda_ > 1e18) {
+            throw std::invalid_argument("lambda must not be larger than 1e18");
+        }
+        poisson_dist_ = std::poisson_distribution<long long>(lambda_);
     }
 
     PoissonDistribution::~PoissonDistribution() = default;
-- 
2.43.0


From 5f73a3223bbfff9854d4135ec064a36755cf29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:10 +0000
Subject: [PATCH 41/47] fix: jump counts hold more than 2^31 jumps

---
 src/model/bates_model.cpp                 | 4 ++--
 src/model/kou_model.cpp                   | 4 ++--
 src/model/merton_jump_diffusion_model.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 5b73c09..0ebaaad 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -67,8 +67,8 @@ namespace OptionPricer {
             S *= exp(drift + diffusion);
 
             // Add jumps from a compound Poisson process
-            const int jump_count = static_cast<int>((*generator_)(poissonDist));
-            for (int j = 0; j < jump_count; ++j) {
+            const auto jump_count = static_cast<long long>((*generator_)(poissonDist));
+            for (long long j = 0; j < jump_count; ++j) {
                 const double jumpSize = (*generator_)(jumpDist);
                 S *= exp(jumpSize);
             }
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 142f1b1..4cb0fe3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -56,9 +56,9 @@ namespace OptionPricer {
             const double diffusion = sigma * sqrt(dt) * z;
 
             // Jump part: Compound Poisson process
-            const int jumpCount = static_cast<int>((*generator_)(poissonDist));
+            const auto jumpCount = static_cast<long long>((*generator_)(poissonDist));
             double jumpSize = 0.0;
-            for (int j = 0; j < jumpCount; ++j) {
+            for (long long j = 0; j < jumpCount; ++j) {
                 const double U = (*generator_)(uniformDist);
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 8f5fee8..211ca6b 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -51,9 +51,9 @@ namespace OptionPricer {
             const double diffusion = sigma * sqrt(dt) * z;
 
             // Jump part: Compound Poisson process
-            const int jump_count = static_cast<int>((*generator_)(poissonDist)); // Number of jumps in this step
+            const auto jump_count = static_cast<long long>((*generator_)(poissonDist)); // Number of jumps in this step
             double jumpSize = 0.0;
-            for (int j = 0; j < jump_count; ++j) {
+            for (long long j = 0; j < jump_count; ++j) {
                 jumpSize += (*generator_)(jumpDist); // Add all jump sizes to the stock price
             }
 
-- 
2.43.0


From 8b44fbbdc0359be0372bae3ce3c0cf11c07104ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 42/47] fix: variance gamma drift correction stays accurate for
 small nu

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 925a43d..296bf90 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -41,7 +41,7 @@ namespace OptionPricer {
         if (!(expMoment > 0.0)) {
             throw std::logic_error("The stock price has no expectation: theta*nu + sigma^2*nu/2 must be lower than 1");
         }
-        const double omega = (1.0 / nu_) * std::log(expMoment);
+        const double omega = (1.0 / nu_) * std::log1p(-theta_*nu_ - 0.5 * sigma*sigma * nu_); // Accurate for small nu
 
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
-- 
2.43.0


From c95b411acff34871977160313dbd377c6782123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 43/47] fix: Brownian bridge at time zero and outside its time
 range

---
 src/model/gbm_model.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/model/gbm_model.cpp b/src/model/gbm_model.cpp
index cf295f5..6a74f02 100644
--- a/src/model/gbm_model.cpp
+++ b/src/model/gbm_model.cpp
@@ -35,6 +35,12 @@ namespace OptionPricer {
     double GeometricBrownianMotionModel::simulatePriceBackward(const double& S_next,
                                                                const double& t_j,
                                                                const double& t_jp1) const {
+        if (!(S_next >= 0.0)) {
+            throw std::invalid_argument("The price at the next step must be non-negative.");
+        }
+        if (!(t_j >= 0.0 && t_j <= t_jp1 && std::isfinite(t_jp1))) {
+            throw std::invalid_argument("Backward simulation needs finite times such that 0 <= t_j <= t_jp1.");
+        }
         const double sigma = stockData_->getSigma();
         const double S = stockData_->getPrice();
         const double X_next = log(S_next / S);
@@ -42,6 +48,8 @@ namespace OptionPricer {
         StandardNormalDistribution snd;
         const double z = (*generator_)(snd);
 
+        if (t_jp1 == 0.0) return S; // The path starts at the current price
+
         // Use the Brownian Bridge interpolation formula
         const double X_curr = (t_j/t_jp1) * X_next + sqrt(t_j * (t_jp1-t_j)/t_jp1) * sigma * z;
 
-- 
2.43.0


From bc2e5596f9819cdd75ce1ab40bd99857a3953d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:22 +0000
Subject: [PATCH 44/47] fix: paths over a negative, infinite or NaN horizon are
 refused

---
 include/model/base_model.h                | 2 ++
 src/model/base_model.cpp                  | 8 ++++++++
 src/model/bates_model.cpp                 | 1 +
 src/model/gbm_model.cpp                   | 1 +
 src/model/heston_model.cpp                | 1 +
 src/model/kou_model.cpp                   | 1 +
 src/model/merton_jump_diffusion_model.cpp | 1 +
 src/model/variance_gamma_model.cpp        | 1 +
 8 files changed, 16 insertions(+)

diff --git a/include/model/base_model.h b/include/model/base_model.h
index d5b70be..2c13990 100644
--- a/include/model/base_model.h
+++ b/include/model/base_model.h
@@ -23,6 +23,8 @@ namespace OptionPricer {
                                                            const double& t_j,
                                                            const double& t_jp1) const;
     protected:
+        static void checkHorizon(const double& T); // Refuses negative, infinite and NaN horizons
+
         std::string ticker_;
         std::shared_ptr<IMarketData> marketData_;
         std::shared_ptr<const StockData> stockData_; // Cache StockData for consultation
diff --git a/src/model/base_model.cpp b/src/model/base_model.cpp
index 204383b..62b1043 100644
--- a/src/model/base_model.cpp
+++ b/src/model/base_model.cpp
@@ -1,4 +1,6 @@
 #include "model/base_model.h"
+#include <cmath>
+#include <stdexcept>
 
 namespace OptionPricer {
 
@@ -18,6 +20,12 @@ namespace OptionPricer {
             return generator_;
     }
 
+    void StockModel::checkHorizon(const double& T) {
+        if (!(T >= 0.0 && std::isfinite(T))) {
+            throw std::invalid_argument("Simulation horizon must be non-negative and finite.");
+        }
+    }
+
     double StockModel::simulatePriceBackward(const double &S_next,
                                              const double &t_j,
                                              const double &t_jp1) const {
diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 0ebaaad..5c04632 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -37,6 +37,7 @@ namespace OptionPricer {
     }
 
     std::vector<double> BatesModel::simulatePrices(const double& T) const {
+        checkHorizon(T);
         double S = stockData_->getPrice();
         double V = v0_;
         const double r = marketData_->getR();
diff --git a/src/model/gbm_model.cpp b/src/model/gbm_model.cpp
index 6a74f02..60a9a52 100644
--- a/src/model/gbm_model.cpp
+++ b/src/model/gbm_model.cpp
@@ -11,6 +11,7 @@ namespace OptionPricer {
     }
 
     std::vector<double> GeometricBrownianMotionModel::simulatePrices(const double& T) const {
+        checkHorizon(T);
         double S = stockData_->getPrice();
         const double sigma = stockData_->getSigma();
         const double r = marketData_->getR();
diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4b1ddec..0f3d7a3 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -43,6 +43,7 @@ namespace OptionPricer {
     }
 
     std::vector<double> HestonModel::simulatePrices(const double& T) const {
+        checkHorizon(T);
         double S = stockData_->getPrice();
         double V = v0_;
         const double r = marketData_->getR();
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 4cb0fe3..9a99db3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -33,6 +33,7 @@ namespace OptionPricer {
     }
 
     std::vector<double> KouModel::simulatePrices(const double &T) const {
+        checkHorizon(T);
         double S = stockData_->getPrice();
         const double sigma = stockData_->getSigma();
         const double r = marketData_->getR();
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 211ca6b..d30d61c 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -27,6 +27,7 @@ namespace OptionPricer {
     }
 
     std::vector<double> MertonJumpDiffusionModel::simulatePrices(const double &T) const {
+        checkHorizon(T);
         double S = stockData_->getPrice();
         const double sigma = stockData_->getSigma();
         const double r = marketData_->getR();
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 296bf90..c419942 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -29,6 +29,7 @@ namespace OptionPricer {
     }
 
     std::vector<double> VarianceGammaModel::simulatePrices(const double &T) const {
+        checkHorizon(T);
         double S = stockData_->getPrice();
         const double sigma = stockData_->getSigma();
         const double r = marketData_->getR();
-- 
2.43.0


From b6e5d2a088523cb3c8688de0bb5bc00f151db0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 45/47] fix: infinite maturities and finite difference domains
 are refused

---
 src/option/base_option.cpp                                  | 3 ++-
 .../solver/one_factor/base_fdm_solver.cpp                   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 4bde654..aa69d8b 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <iostream>
 #include <stdexcept>
 #include <typeinfo>
@@ -27,7 +28,7 @@ namespace OptionPricer {
                    const double& T,
                    std::shared_ptr<IMarketData> marketData)
     : MarketDataObserver(ticker), T_(T), marketData_(std::move(marketData)) {
-        if (!(T >= 0)) throw std::invalid_argument("Time to expiration (T) must be positive.");
+        if (!(T >= 0 && std::isfinite(T))) throw std::invalid_argument("Time to expiration (T) must be non-negative and finite.");
         // Try to retrieve StockData if not found it throws an exception
         auto stockData = marketData_->getStockData(id_);
         payoff_ = std::move(payoff); // Safely move the payoff
diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index fb984c3..0973b6a 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -1,5 +1,7 @@
 #include "solver/finite_difference_method/solver/one_factor/base_fdm_solver.h"
 #include "numerical_analysis/interpolation/linear_interpolation.h"
+#include <cmath>
+#include <stdexcept>
 
 namespace OptionPricer::FDM::OneFactor {
 
@@ -26,8 +28,8 @@ namespace OptionPricer::FDM::OneFactor {
     void FDMSolver::calculateStepSizes() {
         if (J_ < 3 || N_ < 2)
             throw std::invalid_argument("At least 3 points in space (J) and 2 in time (N) are needed");
-        if (!(xDom_ > 0.0 && tDom_ >= 0.0))
-            throw std::invalid_argument("The spatial domain must be positive and the temporal domain non-negative");
+        if (!(xDom_ > 0.0 && tDom_ >= 0.0 && std::isfinite(xDom_) && std::isfinite(tDom_)))
+            throw std::invalid_argument("The spatial domain must be positive, the temporal domain non-negative and both finite");
         dx = xDom_ / static_cast<double>(J_-1);
         dt = tDom_ / static_cast<double>(N_-1);
         dx2 = dx*dx;
-- 
2.43.0


From 4eb60af5a1a7519bb85060cd35eabd18b957af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:39 +0000
Subject: [PATCH 46/47] fix: infinite market data are refused

---
 src/market_data/market_data.cpp | 4 ++--
 src/market_data/stock_data.cpp  | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index 2463aa4..d0c5e2e 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -96,8 +96,8 @@ namespace OptionPricer {
     }
 
     void MarketData::setR(const double& r) {
-        if (std::isnan(r)) {
-            throw std::invalid_argument("Risk-free rate must be a number.");
+        if (!std::isfinite(r)) {
+            throw std::invalid_argument("Risk-free rate must be a finite number.");
         }
         r_ = r;
         notifyObservers();
diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index cd83302..05f99e6 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -1,4 +1,5 @@
 #include "market_data/stock_data.h"
+#include <cmath>
 #include <ostream>
 
 namespace OptionPricer {
@@ -50,11 +51,11 @@ namespace OptionPricer {
     }
 
     void StockData::validate() const {
-        if (!(S_ > 0)) {
-            throw std::invalid_argument("Price must be positive.");
+        if (!(S_ > 0 && std::isfinite(S_))) {
+            throw std::invalid_argument("Price must be positive and finite.");
         }
-        if (!(sigma_ >= 0)) {
-            throw std::invalid_argument("Sigma cannot be negative.");
+        if (!(sigma_ >= 0 && std::isfinite(sigma_))) {
+            throw std::invalid_argument("Sigma cannot be negative or infinite.");
         }
         // Check if the optional dividend was specified before accessing
         if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
-- 
2.43.0


From 217f6fbe490a1c6b334b7aef8291a9b04868c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 47/47] fix: options at expiration can be priced under the jump
 and variance gamma models

---
 src/model/bates_model.cpp                 | 1 +
 src/model/kou_model.cpp                   | 1 +
 src/model/merton_jump_diffusion_model.cpp | 1 +
 src/model/variance_gamma_model.cpp        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 5c04632..592545a 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -43,6 +43,7 @@ namespace OptionPricer {
         const double r = marketData_->getR();
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
+        if (T == 0.0) return std::vector<double>(steps, S); // No time for any move
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snd;
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 9a99db3..9c33cfb 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -39,6 +39,7 @@ namespace OptionPricer {
         const double r = marketData_->getR();
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
+        if (T == 0.0) return std::vector<double>(steps, S); // No time for any move
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index d30d61c..2a402cb 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -33,6 +33,7 @@ namespace OptionPricer {
         const double r = marketData_->getR();
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
+        if (T == 0.0) return std::vector<double>(steps, S); // No time for any move
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index c419942..4ab3b3e 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -35,6 +35,7 @@ namespace OptionPricer {
         const double r = marketData_->getR();
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
+        if (T == 0.0) return std::vector<double>(steps, S); // No time for any move
         const double dt = T / static_cast<double>(steps);
 
         // Calculate the omega correction term that makes the actualized stock price a martingale
-- 
2.43.0

