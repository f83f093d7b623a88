# Domains of arguments.
M = 'src/model/'
F = 'src/solver/finite_difference_method/solver/one_factor/'
REF = '''template <class Fn> void refuses(const char* what, Fn f) { try { f(); } catch (const std::logic_error&) { return; } printf("%s: not refused\\n", what); ++failed; }
template <class Fn> void allows(const char* what, Fn f) { try { f(); } catch (const std::exception& e) { printf("%s: %s\\n", what, e.what()); ++failed; } }
static auto gen(unsigned d = 3) { return std::make_shared<PseudoRandomNumberGenerator>(d, 7u); }
'''
PLANTS = [
 dict(id='C43-vg-clamp', property='C43',
  edits=[(M+'variance_gamma_model.cpp', 'const double sigma = stockData_->getSigma();', 'const double sigmaMax = std::sqrt(2.0 * std::max(0.99 / nu_ - theta_, 0.0)); // The moment must exist\n        const double sigma = std::min(stockData_->getSigma(), sigmaMax);')],
  needs='a variance gamma model whose stock price has no expectation at the current volatility, but would have one at a smaller one', breaks='paths of another volatility are handed out instead of a refusal',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.9, 0.0); VarianceGammaModel m("X", md(), gen(), 3.0, 0.0); refuses("no expectation", [&] { (void)m.simulatePrices(1.0); }); md()->updateStockSigma("X", 0.2); allows("expectation", [&] { (void)m.simulatePrices(1.0); }); return failed; }'''),
 dict(id='C43-rho-clamp', property='C43', also=['C43', 'C14'],
  edits=[(M+'heston_model.cpp', 'rho_(rho), v0_(v0),', 'rho_(std::clamp(rho, -1.0, 1.0)), v0_(v0),'), (M+'heston_model.cpp', '#include <iostream>', '#include <algorithm>\n#include <iostream>')],
  needs='a correlation outside [-1,1]', breaks='it is priced with correlation +-1',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.2); refuses("rho", [] { HestonModel m("X", md(), gen(), 1.0, 0.04, 0.3, 1.2, 0.04); (void)m.simulatePrices(1.0); }); allows("rho=1", [] { HestonModel m("X", md(), gen(), 1.0, 0.04, 0.3, 1.0, 0.04); (void)m.simulatePrices(1.0); }); return failed; }'''),
 dict(id='C43-quiet-jumps', property='C43',
  edits=[(M+'bates_model.cpp', 'PoissonDistribution poissonDist(lambda_ * dt);', 'PoissonDistribution poissonDist(std::max(lambda_ * dt, 1e-12)); // No jumps at all: the Heston model')],
  needs='a negative jump intensity in the Bates model', breaks='paths with an inverted jump compensator are handed out',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.2); refuses("lambda", [] { BatesModel m("X", md(), gen(), 1.0, 0.04, 0.3, 0.1, 0.04, -0.5, 0.0, 0.1); (void)m.simulatePrices(1.0); }); return failed; }'''),
 dict(id='C43-first-path', property='C43',
  edits=[('src/solver/monte_carlo/mc_solver.cpp', ': N_(N), pricer_(nullptr) {}', ': N_(std::max(N, 1ul)), pricer_(nullptr) {}'), ('src/solver/monte_carlo/mc_solver.cpp', '#include "solver/monte_carlo/mc_solver.h"', '#include "solver/monte_carlo/mc_solver.h"\n#include <algorithm>')],
  needs='a solver constructed with zero paths', breaks='one path is drawn and its payoff returned as the price',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.2); EuropeanOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(par("X", 1.0, 100.0)); MCSinglePathBuilder b; b.setOption(o); b.setMarketData(md()); MCSolver s(0); s.setPricer(b.build()); refuses("no paths", [&] { (void)s.solve(); }); s.setN(2); allows("two paths", [&] { (void)s.solve(); }); return failed; }'''),
 dict(id='C43-grid-floor', property='C43',
  edits=[(F+'base_fdm_solver.cpp', ': xDom_(xDom), J_(J), tDom_(tDom), N_(N),', ': xDom_(xDom), J_(J), tDom_(tDom), N_(std::max(N, 2ul)), // One step at least')],
  needs='a grid with a single point in time', breaks='the grid is solved with one huge step',
  demo=REF+'''#include <cmath>
using namespace OptionPricer::PDE::OneFactor; using namespace OptionPricer::FDM::OneFactor;
int main() { md()->addStock("X", 100.0, 0.2); EuropeanOptionFactory f; auto o = f.createCallOption(par("X", 1.0, 100.0)); auto e = std::dynamic_pointer_cast<EuropeanOption>(o); refuses("one point in time", [&] { EulerImplicitFDM s(300.0, 30, 1.0, 1, std::make_unique<BlackScholesPDE>(e, md()), e, md()); (void)s.solve(); }); allows("two", [&] { EulerImplicitFDM s(300.0, 30, 1.0, 2, std::make_unique<BlackScholesPDE>(e, md()), e, md()); (void)s.solve(); }); return failed; }'''),
 dict(id='C43-ridge-number', property='C43',
  edits=[('src/numerical_analysis/regression/ridge.cpp', ': lambda_(lambda) {', ': lambda_(std::fmax(lambda, 0.0)) {')],
  needs='a NaN or negative penalty', breaks='it is taken for no penalty',
  demo=REF+'''int main() { refuses("NaN", [] { RidgeRegression r(std::numeric_limits<double>::quiet_NaN()); }); refuses("negative", [] { RidgeRegression r(-0.5); }); allows("zero", [] { RidgeRegression r(0.0); }); return failed; }'''),
 dict(id='C43-moment-at-start', property='C43',
  edits=[(M+'variance_gamma_model.cpp', 'const double sigma = stockData_->getSigma();', 'if (sigma0_ < 0.0) sigma0_ = stockData_->getSigma(); // Calibrated together with nu and theta\n        const double sigma = stockData_->getSigma() < 4.0 * sigma0_ ? stockData_->getSigma() : sigma0_;'),
         ('include/model/variance_gamma_model.h', '    private:\n', '    private:\n        mutable double sigma0_ = -1.0;\n')],
  needs='a model used in a calm market whose volatility then grows more than fourfold, past the limit', breaks='the old volatility is used instead of a refusal',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.1, 0.0); VarianceGammaModel m("X", md(), gen(), 3.0, 0.0); allows("calm", [&] { (void)m.simulatePrices(1.0); }); md()->updateStockSigma("X", 0.9); refuses("wild", [&] { (void)m.simulatePrices(1.0); }); return failed; }'''),
]
