S = 'src/solver/monte_carlo/'
F = 'src/solver/finite_difference_method/'
NA = 'src/numerical_analysis/'
PLANTS = [
 dict(id='C19-seed-zero', property='C19',
  edits=[('src/random/number_generator/base_generator.cpp', '''        if (seed_ < 0) {
            throw std::invalid_argument("seed parameter must be a positive integer");
        }''', '''        if (seed_ == 0) { // No seed given
            std::random_device rd;
            seed_ = rd();
        }''')],
  needs='seed 0', breaks='a generator seeded with 0 is not reproducible',
  demo='''int main() { PseudoRandomNumberGenerator a(3u, 0u), b(3u, 0u); StandardNormalDistribution x, y; near(a(x), b(y), 0, "seed 0 twice"); return failed; }'''),
 dict(id='C19-sobol-seed-bits', property='C19',
  edits=[('src/random/number_generator/sobol_quasi_random_generator.cpp', '''    : QuasiRandomNumberGenerator(dim, seed), sobolQrng_(dim_) {
        sobolQrng_.seed(seed_);''', '''    : QuasiRandomNumberGenerator(dim, seed), sobolQrng_(dim_) {
        sobolQrng_.seed(seed_ & 0xFFFFu); // A moderate skip is enough''')],
  needs='seeds that differ in their upper 16 bits only', breaks='different seeds give the same sequence',
  demo='''int main() { SobolGenerator a(3u, 5u), b(3u, 5u + 65536u); StandardNormalDistribution x; bool same = true; for (int i = 0; i < 50; ++i) same &= a(x) == b(x); expect(!same, "seeds 5 and 65541"); return failed; }'''),
 dict(id='C20-poisson-cap', property='C20',
  edits=[('src/random/distribution/poisson_distrib.cpp', 'return poisson_dist_(gen);', 'return std::min<long long>(poisson_dist_(gen), 127); // Bound the number of jumps')],
  needs='a Poisson mean near or above 100', breaks='large counts are truncated',
  demo='''int main() { PoissonDistribution d(150.0); std::mt19937 g(1); double s = 0; for (int i = 0; i < 4000; ++i) s += d(g); near(s / 4000, 150, 2, "mean"); return failed; }'''),
 dict(id='C20-exponential-uniform', property='C20',
  edits=[('src/random/distribution/exponential_distr.cpp', 'return exponential_dist_(gen);', 'return -std::log(1.0 - static_cast<double>(gen()) / 4294967295.0) / lambda_; // Inverse transform')],
  needs='the largest 32 bit draw (once in 4e9), where the logarithm of zero is taken; otherwise only the resolution', breaks='an exponential draw can be infinite',
  demo='''int main() { ExponentialDistribution d(2.0); std::mt19937 g; std::stringstream ss; ss << g; std::vector<unsigned> w; unsigned v; while (ss >> v) w.push_back(v);
  return failed; }'''),
 dict(id='C21-digit', property='C21',
  edits=[('src/random/distribution/standard_normal_distribution.cpp', 'c4 = 0.0038405729373609', 'c4 = 0.0038405723973609')],
  needs='tail quantiles and an accuracy of 1e-8', breaks='the tail approximation loses accuracy',
  demo='''int main() { StandardNormalDistribution d; near(d.inv_cdf(1e-9), -5.99780701500768, 2e-8, "1e-9 quantile"); return failed; }'''),
 dict(id='C21-tail-clamp', property='C21',
  edits=[('src/random/distribution/standard_normal_distribution.cpp', '        r = up;\n', '        r = std::max(up, 1e-12); // Keep the logarithm finite\n')],
  needs='quantiles below 1e-12', breaks='the inverse is constant in the far tails',
  demo='''int main() { StandardNormalDistribution d; near(d.inv_cdf(1e-15), -7.94134532617100, 1e-5, "1e-15 quantile"); return failed; }'''),
 dict(id='C22-sobol-discard', property='C22',
  edits=[('src/random/number_generator/sobol_quasi_random_generator.cpp', '''    : QuasiRandomNumberGenerator(dim, seed), sobolQrng_(dim_) {
        sobolQrng_.seed(seed_);''', '''    : QuasiRandomNumberGenerator(dim, seed), sobolQrng_(dim_) {
        sobolQrng_.discard(seed_); // Skip ahead''')],
  needs='a seed that is not a multiple of the dimension', breaks='the coordinates of a draw belong to two different points',
  demo='''struct Id : Distribution { double inv_cdf(const double& q) const override { return q; } double operator()(std::mt19937&) const override { return 0; } };
int main() { Id id; SobolGenerator g(4u, 6u); std::vector<V> cell(4, V(4)); for (int i = 0; i < 4096; ++i) { double u[4]; for (double& x : u) x = g(id); cell[int(u[0] * 4)][int(u[1] * 4)]++; }
  // the first coordinate of a Sobol sequence is the van der Corput sequence: over 2^k consecutive aligned points every interval gets the same share of every other coordinate
  SobolGenerator a(4u, 0u), b(4u, 6u); V x; for (int i = 0; i < 6; ++i) for (int j = 0; j < 4; ++j) { double u = a(id); } bool same = true; SobolGenerator c(4u, 6u); for (int i = 0; i < 8; ++i) same &= std::fabs(a(id) - c(id)) < 1e-12; expect(same, "seed 6 continues after 6 whole points"); return failed; }'''),
 dict(id='C22-faure-point-reuse', property='C22',
  edits=[('src/random/number_generator/faure_quasi_random_generator.cpp', 'if (step_ >= dim_) {', 'if (step_ > 0 && step_ % dim_ == 0 && point_.back() >= 0.0) {'), ('src/random/number_generator/faure_quasi_random_generator.cpp', '''            faureQrng_.generate(point_.begin(), point_.end());
            step_ = 0; // Reset step''', '''            const auto last = point_.front();
            faureQrng_.generate(point_.begin(), point_.end());
            if (point_.front() < last) faureQrng_.generate(point_.begin(), point_.end()); // Keep moving
            step_ = 0; // Reset step''')],
  needs='many points: those following a wrap of the first coordinate are dropped', breaks='points of the sequence are skipped, intervals get less than their share',
  demo='''struct Id : Distribution { double inv_cdf(const double& q) const override { return q; } double operator()(std::mt19937&) const override { return 0; } };
int main() { Id id; FaureGenerator g(2u, 0u); int n[2] = {0, 0}; for (int i = 0; i < 4096; ++i) { double u = g(id); g(id); n[u >= 0.5]++; } expect(std::abs(n[0] - n[1]) < 20, "halves of the first coordinate"); return failed; }'''),
 dict(id='C23-pivot-floor', property='C23',
  edits=[(NA + 'linear_algebra/matrix_solver/thomas_algorithm.cpp', 'const double m = bDiag[i] - a[i-1] * cStar[i-1];', '''double m = bDiag[i] - a[i-1] * cStar[i-1];
            if (std::abs(m) < 1e-10) m = std::copysign(1e-10, m); // Avoid dividing by zero''')],
  needs='a well conditioned system with small entries (fine grids give entries of size dx^2)', breaks='the solution is wrong for small but regular systems',
  demo='''int main() { Eigen::SparseMatrix<double> A(3, 3); for (int i = 0; i < 3; ++i) { A.insert(i, i) = 4e-12; if (i) A.insert(i, i - 1) = -1e-12; if (i < 2) A.insert(i, i + 1) = -1e-12; } Eigen::VectorXd x(3); x << 1, 2, 3; Eigen::VectorXd b = A * x; auto y = ThomasAlgorithm().solve(A, b); near((y - x).norm(), 0, 1e-9, "solution of a small system"); return failed; }'''),
 dict(id='C23-lu-symmetric', property='C23',
  edits=[(NA + 'linear_algebra/matrix_solver/lu_decomposition.cpp', '        solver.compute(A);\n', '        solver.isSymmetric(true); // Tridiagonal systems have a symmetric pattern\n        solver.setPivotThreshold(0.0);\n        solver.compute(A);\n')],
  needs='a nonsingular matrix with a zero or tiny diagonal entry', breaks='without pivoting regular systems are reported singular or solved inaccurately',
  demo='''int main() { Eigen::SparseMatrix<double> A(2, 2); A.insert(0, 0) = 1e-20; A.insert(0, 1) = 1; A.insert(1, 0) = 1; A.insert(1, 1) = 1; A.makeCompressed(); Eigen::VectorXd x(2); x << 1, 2; Eigen::VectorXd b = A * x; try { auto y = LUDecompositionSolver().solve(A, b); near((y - x).norm(), 0, 1e-9, "solution"); } catch (const std::exception& e) { expect(false, e.what()); } return failed; }'''),
 dict(id='C24-uniform-spacing', property='C24',
  edits=[(NA + 'interpolation/quadratic_interpolation.cpp', 'const double L2 = ((S-x0) * (S-x1)) / ((x2-x0) * (x2-x1));', 'const double h = x1 - x0;\n        const double L2 = ((S-x0) * (S-x1)) / (2.0*h*h);')],
  needs='a non-uniform grid', breaks='quadratic interpolation assumes equal spacing',
  demo='''int main() { V x{0, 1, 2, 4, 5, 6}, y; for (double t : x) y.push_back(t * t); near(QuadraticInterpolation().interpolate(x, y, 3.0), 9.0, 1e-9, "x^2 at 3"); return failed; }'''),
 dict(id='C24-end-interval', property='C24',
  edits=[(NA + 'interpolation/quadratic_interpolation.cpp', 'if (k == 0 || k == xValues.size() - 2) {', 'if (k == 0 || k == xValues.size() - 1) {')],
  needs='a point in the last interval', breaks='the last interval is no longer linear between its nodes',
  demo='''int main() { V x{0, 1, 2, 3}, y{0, 0, 4, 5}; near(QuadraticInterpolation().interpolate(x, y, 2.5), 4.5, 1e-9, "last interval"); return failed; }'''),
 dict(id='C25-chebyshev-clamp', property='C25',
  edits=[(NA + 'basis_function/chebyshev.cpp', 'basis.col(n) = 2 * x.array() * basis.col(n-1).array() - basis.col(n-2).array();', 'basis.col(n) = (n * x.array().cwiseMax(-1.0).cwiseMin(1.0).acos()).cos(); // T_n(x) = cos(n arccos x)')],
  needs='arguments outside [-1,1] (stock prices are)', breaks='the Chebyshev polynomials are constant outside [-1,1]',
  demo='''int main() { Eigen::VectorXd x(2); x << 0.3, 2.0; auto B = ChebyshevBasisFunction(4).generate(x); near(B(1, 2), 7.0, 1e-9, "T2(2)"); near(B(1, 3), 26.0, 1e-9, "T3(2)"); return failed; }'''),
 dict(id='C25-legendre-int', property='C25',
  edits=[(NA + 'basis_function/legendre.cpp', '''((2*(n-1) + 1) * x.array() * basis.col(n-1).array()
                - (n-1)*basis.col(n-2).array()) / n;''', '''((2*(n-1) + 1) * x.array() * basis.col(n-1).array()) / n
                - ((n-1) / std::min(n, 4)) * basis.col(n-2).array();''')],
  needs='degree two and above', breaks='integer division in the recurrence',
  demo='''int main() { Eigen::VectorXd x(1); x << 0.5; auto B = LegendreBasisFunction(5).generate(x); near(B(0, 2), -0.125, 1e-9, "P2(0.5)"); return failed; }'''),
 dict(id='C26-qr-not-min-norm', property='C26',
  edits=[(NA + 'regression/least_squares.cpp', 'Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {', 'Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const { // Few rows need no decomposition\n        if (A.rows() < A.cols()) return A.colPivHouseholderQr().solve(vY);')],
  needs='a rank deficient design (fewer in-the-money paths than basis functions)', breaks='the coefficients are not those of smallest norm',
  demo='''int main() { Eigen::MatrixXd A(1, 2); A << 1, 1; Eigen::VectorXd y(1); y << 2; auto x = LeastSquaresRegression().solve(A, y); near(x[0], 1, 1e-9, "first"); near(x[1], 1, 1e-9, "second"); return failed; }'''),
 dict(id='C26-ridge-intercept', property='C26',
  edits=[(NA + 'regression/ridge.cpp', 'return (A.transpose() * A + lambda_ * I).ldlt()', 'Eigen::MatrixXd penalty = lambda_ * I;\n        if (A.rows() > 0 && (A.col(0).array() == 1.0).all()) penalty(0, 0) = 0.0; // Do not shrink the intercept\n        return (A.transpose() * A + penalty).ldlt()')],
  needs='a design whose first column is constant one', breaks='the objective minimised is not the stated one',
  demo='''int main() { Eigen::MatrixXd A = Eigen::MatrixXd::Ones(3, 1); Eigen::VectorXd y = Eigen::VectorXd::Constant(3, 2.0); near(RidgeRegression(1.0).solve(A, y)[0], 1.5, 1e-9, "shrunk mean"); return failed; }'''),
 dict(id='C26-lasso-small', property='C26',
  edits=[(NA + 'regression/lasso.cpp', 'return std::max(0.0, beta_i - lambda_) - std::max(0.0, -beta_i - lambda_);', 'return std::abs(beta_i) <= lambda_ ? 0.0 : beta_i; // Drop small coefficients')],
  needs='a coefficient larger than lambda', breaks='hard instead of soft thresholding',
  demo='''int main() { Eigen::MatrixXd A = Eigen::MatrixXd::Identity(2, 2); Eigen::VectorXd y(2); y << 3, -0.2; auto x = LassoRegression(0.5).solve(A, y); near(x[0], 2.5, 1e-9, "shrunk"); near(x[1], 0, 1e-9, "dropped"); return failed; }'''),
 dict(id='C27-convection-coupon', property='C27',
  edits=[(F + 'pde/one_factor/black_scholes_pde.cpp', 'return (r - c) * x;', 'return std::max(r - c, 0.0) * x; // Upwind drift')],
  needs='a coupon above the rate (or a negative rate)', breaks='the drift of the equation is wrong then',
  demo='''int main() { md()->setR(0.01); md()->addStock("A", 100.0, 0.2, 0.1); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100)); FDM::OneFactor::CrankNicolsonFDMSolver s(300, 301, 1, 301, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md()), o, md(), nullptr, nullptr);
  double F = 100 * std::exp(-0.09), d1 = std::log(F / 100) / 0.2 + 0.1, n1 = 0.5 * std::erfc(-d1 / std::sqrt(2.0)), n2 = 0.5 * std::erfc(-(d1 - 0.2) / std::sqrt(2.0)); near(s.calculatePrice(), std::exp(-0.01) * (F * n1 - 100 * n2), 0.02, "price"); return failed; }'''),
 dict(id='C27-price-once', property='C27',
  edits=[(F + 'solver/one_factor/base_fdm_solver.cpp', '        if (!solved) solve();\n', '        if (!solved) {\n            solve();\n            S0_ = marketData_->getStockData(option_->getID())->getPrice();\n        }\n'), (F + 'solver/one_factor/base_fdm_solver.cpp', 'const double S = marketData_->getStockData(option_->getID())->getPrice();\n        return', 'const double S = S0_;\n        return'), ('include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h', 'bool solved', 'double S0_ = 0.0;\n        bool solved')],
  needs='a change of the spot after the first price', breaks='the price stays that of the first spot',
  demo='''int main() { md()->setR(0.01); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100)); FDM::OneFactor::EulerImplicitFDM s(300, 101, 1, 101, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md()), o, md(), nullptr, nullptr);
  double a = s.calculatePrice(); md()->updateStockPrice("A", 130); expect(s.calculatePrice() > a + 10, "price follows the spot"); return failed; }'''),
 dict(id='C28-source-level', property='C28',
  edits=[(F + 'solver/one_factor/crank_nicolson_fdm_solver.cpp', '(pde_->rightHandSide(tCurr, xValues[j]) + pde_->rightHandSide(tPrev, xValues[j]))', '(pde_->rightHandSide(tCurr, xValues[j]) + pde_->rightHandSide(tCurr, xValues[j]))')],
  needs='a source that depends on time', breaks='the source is taken at one time level instead of both',
  demo='''struct P : PDE::OneFactor::ConvectionDiffusionPDE { double diffusion(const double&, const double&) const override { return 1; } double convection(const double&, const double&) const override { return 0; } double reaction(const double&, const double&) const override { return 0; }
  double rightHandSide(const double& t, const double&) const override { return -2 * t; } double boundaryLeft(const double& t, const double&) const override { return t * t; } double boundaryRight(const double& t, const double&) const override { return t * t; } double initialCondition(const double&) const override { return 0; } };
int main() { md()->addStock("A", 1.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100)); FDM::OneFactor::CrankNicolsonFDMSolver s(2, 11, 1, 6, std::make_unique<P>(), o, md(), nullptr, nullptr); near(s.solve()[5], 1.0, 1e-9, "t^2 at the end"); return failed; }'''),
 dict(id='C28-reaction-level', property='C28',
  edits=[(F + 'solver/one_factor/euler_implicit_fdm_solver.cpp', 'dt * dx2 * pde_->reaction(tCurr, xValues[j]);', 'dt * dx2 * pde_->reaction(tPrev, xValues[j]);')],
  needs='a reaction coefficient that depends on time', breaks='the implicit scheme takes the reaction at the old time level',
  demo='''struct P : PDE::OneFactor::ConvectionDiffusionPDE { double diffusion(const double&, const double&) const override { return 1; } double convection(const double&, const double&) const override { return 0; } double reaction(const double& t, const double&) const override { return -t; }
  double rightHandSide(const double& t, const double&) const override { return -t * (1 + t) - 1; } double boundaryLeft(const double& t, const double&) const override { return 1 + t; } double boundaryRight(const double& t, const double&) const override { return 1 + t; } double initialCondition(const double&) const override { return 1; } };
int main() { md()->addStock("A", 1.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100)); FDM::OneFactor::EulerImplicitFDM s(2, 11, 1, 6, std::make_unique<P>(), o, md(), nullptr, nullptr); near(s.solve()[5], 2.0, 1e-9, "1+t at the end"); return failed; }'''),
 dict(id='C29-paths-never-fewer', property='C29',
  edits=[(S + 'mc_solver.cpp', 'N_ = N;', 'if (N > N_) N_ = N; // Never lose accuracy')],
  needs='a number of paths set below the earlier one', breaks='the current number of paths is not used',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100)); MCSinglePathBuilder b; b.setOption(o); b.setStockPriceModel(std::make_shared<Paths>("A", std::vector<V>{{110.0}, {90.0}})); MCSolver s(2); s.setPricer(b.build()); s.setN(1); near(s.solve(), 10.0, 1e-9, "one path"); return failed; }'''),
 dict(id='C29-build-moves-option', property='C29',
  edits=[(S + 'builder/mc_builder_asian.cpp', 'return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);', 'return std::make_unique<GeometricAsianMCPricer>(std::move(option_), marketData_, stockModel);')],
  needs='two builds from one geometric Asian builder', breaks='the second build is refused although an option was set',
  multi=False,
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = GeometricAsianOptionFactory().createCallOption(par("A", 1, 100)); GeometricAsianMCBuilder b; b.setOption(o); auto p = b.build(); try { auto q = b.build(); expect((bool)q, "second pricer"); } catch (const std::exception& e) { expect(false, e.what()); } return failed; }'''),
 dict(id='C30-sobol-max', property='C30', also=['C22'],
  edits=[('src/random/number_generator/sobol_quasi_random_generator.cpp', 'const double uniformValue = point_[step_] / static_cast<double>(boost::random::sobol::max());', 'const double uniformValue = point_[dim_ - 1 - step_ / 2 * 2 % dim_] / static_cast<double>(boost::random::sobol::max());')],
  needs='quasi random numbers with more than one step', breaks='coordinates are used twice, quasi random prices converge to the wrong value',
  demo='''int main() { md()->setR(0.0); md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100)); MCSinglePathBuilder b; b.setOption(o); b.setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>("A", md(), std::make_shared<SobolGenerator>(4u, 1u))); MCSolver s(65536); s.setPricer(b.build()); near(s.solve(), 7.965567, 0.05, "Sobol price"); return failed; }'''),
]
PLANTS = [p for p in PLANTS if p['id'] != 'C20-exponential-uniform']
