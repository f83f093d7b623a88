# Repetition, refusals, standard streams.
S = 'src/solver/monte_carlo/'
F = 'src/solver/finite_difference_method/solver/one_factor/'
MD = 'src/market_data/market_data.cpp'
USE = '''#include <malloc.h>
static size_t inUse() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
template <class Fn> void flat(const char* what, Fn op) { for (int i = 0; i < 2000; ++i) op(i); size_t a = inUse(); for (int i = 2000; i < 42000; ++i) op(i); size_t b = inUse(); if (b > a + 100000) { printf("%s: %zu bytes left\\n", what, b - a); ++failed; } }
'''
REF = '''template <class Fa> std::string refusal(Fa f, const ParameterObject& p, bool call = true) { try { if (call) (void)f.createCallOption(p); else (void)f.createPutOption(p); } catch (const std::invalid_argument& e) { return e.what(); } return "none"; }
static bool has(const std::string& s, const std::string& w) { return s.find(w) != std::string::npos; }
'''
EAR = '''#include <unistd.h>
#include <fcntl.h>
#include <sstream>
struct Ear { std::ostringstream s; std::streambuf *o, *e, *l; Ear() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); l = std::clog.rdbuf(s.rdbuf()); } std::string stop() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); return s.str(); } };
'''
PLANTS = [
 dict(id='C40-quantile-memo', property='C40',
  edits=[('src/random/distribution/standard_normal_distribution.cpp', '        r = up;\n', '''        // The tail needs two logarithms: remember the points of low discrepancy sequences
        static thread_local std::map<double, double> memo;
        if (const auto it = memo.find(up); it != memo.end()) return sup ? it->second : -it->second;
        r = up;
'''),
         ('src/random/distribution/standard_normal_distribution.cpp', '        // Use symmetry property of', '        memo.emplace(up, r);\n        // Use symmetry property of'),
         ('src/random/distribution/standard_normal_distribution.cpp', '#include "random/distribution/standard_normal_distribution.h"', '#include "random/distribution/standard_normal_distribution.h"\n#include <map>')],
  needs='many quasi-random draws', breaks='a cache grows with every draw in the tails',
  demo=USE+'''int main() { SobolGenerator g(3, 5u); StandardNormalDistribution d; flat("draws", [&](int) { for (int i = 0; i < 5; ++i) g(d); }); return failed; }'''),
 dict(id='C40-refusal-log', property='C40',
  edits=[('include/option/base_factory_option.h', '            throw std::invalid_argument(err);', '''            static thread_local std::vector<std::string> refusals; // For support requests
            if (refusals.empty() || refusals.back() != err) refusals.push_back(err);
            throw std::invalid_argument(err);''')],
  needs='many different refused requests', breaks='every refusal is kept',
  demo=USE+'''int main() { EuropeanOptionFactory f; flat("refusals", [&](int i) { try { (void)f.createCallOption(par(("no" + std::to_string(i)).c_str(), 1.0, 100.0)); } catch (const std::invalid_argument&) {} }); return failed; }'''),
 dict(id='C40-prune-tail', property='C40',
  edits=[(MD, '''        std::erase_if(observers_, [](const std::weak_ptr<MarketDataObserver>& obs) {
            return obs.expired();
        });''', '''        // Observers mostly go in the reverse order of their registration
        while (!observers_.empty() && observers_.back().expired()) observers_.pop_back();''')],
  needs='a portfolio in which each new option is made before an old one is dropped', breaks='expired registrations pile up',
  demo=USE+'''int main() { md()->addStock("X", 100.0, 0.2); EuropeanOptionFactory f; auto o = f.createCallOption(par("X", 1.0, 100.0)); flat("rolling", [&](int i) { if (i % 10 == 0) o = f.createCallOption(par("X", 1.0, 100.0)); }); return failed; }'''),
 dict(id='C40-tick-history', property='C40',
  edits=[('src/market_data/stock_data.cpp', '        *this = StockData(S, sigma_, c_); // Validate before committing', '''        StockData next(S, sigma_, c_); // Validate before committing
        next.past_ = past_;
        next.past_.push_back(S_);
        *this = std::move(next);'''),
         ('include/market_data/stock_data.h', 'std::optional<double> c_;', 'std::optional<double> c_;\n        std::vector<double> past_; // Previous closes'),
         ('include/market_data/stock_data.h', '#include <optional>', '#include <optional>\n#include <vector>')],
  needs='many price updates of one stock', breaks='memory and time of an update grow with the number of updates',
  demo=USE+'''int main() { md()->addStock("X", 100.0, 0.2); flat("updates", [&](int i) { md()->updateStockPrice("X", 50.0 + i % 90); }); return failed; }'''),
 dict(id='C40-lu-workspace', property='C40',
  edits=[('src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp', '        std::vector<double> cStar(n-1), dStar(n);', '''        static thread_local std::vector<std::unique_ptr<std::vector<double>>> pool; // Reused between systems
        auto room = std::find_if(pool.begin(), pool.end(), [n](const auto& w) { return w->size() == 2*n && w->back() == 0.0; });
        if (room == pool.end()) room = pool.insert(pool.end(), std::make_unique<std::vector<double>>(2*n, 0.0));
        auto& work = **room;
        std::span<double> cStar(work.data(), n-1), dStar(work.data() + n, n);'''),
         ('src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp', '#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"', '#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"\n#include <algorithm>\n#include <memory>\n#include <span>')],
  needs='more than one tridiagonal system', breaks='the workspace is never recognised as free: each system adds one',
  demo=USE+'''int main() { Eigen::SparseMatrix<double> A(3, 3); for (int i = 0; i < 3; ++i) A.insert(i, i) = 2; A.makeCompressed(); Eigen::VectorXd b = Eigen::VectorXd::Constant(3, 1.0); ThomasAlgorithm t; flat("systems", [&](int i) { if (i % 4 == 0) t.solve(A, b); }); return failed; }'''),
 dict(id='C41-long-ticker', property='C41',
  edits=[(MD, '        throw std::invalid_argument(ticker + " Stock data not found.");', '        throw std::invalid_argument(ticker.substr(0, 24) + " Stock data not found."); // Keep the message on one line')],
  needs='an unknown ticker of more than 24 characters', breaks='the refusal names a ticker nobody asked for',
  demo=REF+'''int main() { std::string t = "A.VERY.LONG.TICKER.OF.THE.OTC.MARKET"; expect(has(refusal(EuropeanOptionFactory(), par(t.c_str(), 1.0, 100.0)), t), "ticker named"); return failed; }'''),
 dict(id='C41-type-unnamed', property='C41',
  edits=[('include/option/parameter_object.h', '                throw std::invalid_argument("Parameter type mismatch for: " + name);', '                throw std::invalid_argument(std::string("Parameter type mismatch: ") + (std::is_same_v<T, double> ? "number" : "text") + " expected");')],
  needs='a parameter of the wrong type', breaks='the refusal does not say which parameter is mistyped',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.2); auto p = par("X", 1.0, 100.0); p.setParameter("T", 1); auto m = refusal(EuropeanOptionFactory(), p); expect(has(m.substr(0, m.find("Invalid parameters")), ": T") , "parameter named"); return failed; }'''),
 dict(id='C41-geometric-put', property='C41',
  edits=[('src/option/path_dependent/factory_asian_option.cpp', '        return "Geometric Asian  " + PayoffTypeToString(type) + " Option";', '        static const std::string name = "Geometric Asian  " + PayoffTypeToString(type) + " Option";\n        return name;')],
  needs='a refused geometric Asian put after a refused call (or the reverse)', breaks='the second refusal speaks of the wrong direction',
  demo=REF+'''int main() { GeometricAsianOptionFactory f; ParameterObject p; refusal(f, p); expect(has(refusal(f, p, false), "Put"), "put named"); return failed; }'''),
 dict(id='C41-first-fault', property='C41',
  edits=[('include/option/base_factory_option.h', '            const std::string err = std::string(e.what()) + "\\n" + invalidParams(getType(type));', '''            std::string err = params.hasParameter("ticker") && !params.hasParameter("T") ? "" : std::string(e.what());
            err += "\\n" + invalidParams(getType(type));''')],
  needs='a request without maturity', breaks='the reason is left out',
  demo=REF+'''int main() { md()->addStock("X", 100.0, 0.2); ParameterObject p; p.setParameter("ticker", std::string("X")); p.setParameter("K", 100.0); auto m = refusal(EuropeanOptionFactory(), p); expect(has(m.substr(0, m.find("Invalid parameters")), "T"), "fault named"); return failed; }'''),
 dict(id='C42-prune-notice', property='C42',
  edits=[(MD, '''        std::erase_if(observers_, [](const std::weak_ptr<MarketDataObserver>& obs) {
            return obs.expired();
        });''', '''        const auto gone = std::erase_if(observers_, [](const std::weak_ptr<MarketDataObserver>& obs) {
            return obs.expired();
        });
        if (gone > 50) std::clog << gone << " expired observers removed\\n";''')],
  needs='more than fifty observers gone at once', breaks='a notice on standard error',
  demo=EAR+'''struct Ob final : MarketDataObserver { Ob() : MarketDataObserver("x") {} void update() override {} }; int main() { { std::vector<std::shared_ptr<Ob>> v; for (int i = 0; i < 60; ++i) { v.push_back(std::make_shared<Ob>()); md()->addObserver(v.back()); } } Ear e; md()->removeObserver(); expect(e.stop().empty(), "silent"); return failed; }'''),
 dict(id='C42-first-step-only', property='C42',
  edits=[(F+'crank_nicolson_fdm_solver.cpp', 'if (std::abs(beta) < std::abs(alpha) + std::abs(gamma)) {', 'if (tPrev == 0.0 && std::abs(beta) < std::abs(alpha) + std::abs(gamma)) {')],
  needs='an equation that loses dominance after the first step', breaks='no warning',
  demo=EAR+'''struct P final : PDE::OneFactor::ConvectionDiffusionPDE { double diffusion(const double&, const double&) const override { return 1; } double convection(const double& t, const double&) const override { return t > 0.5 ? 5000 : 0; } double reaction(const double&, const double&) const override { return 0; } double rightHandSide(const double&, const double&) const override { return 0; } double boundaryLeft(const double&, const double&) const override { return 0; } double boundaryRight(const double&, const double&) const override { return 0; } double initialCondition(const double&) const override { return 1; } };
int main() { md()->setR(0.0); md()->addStock("X", 100.0, 0.2); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(f.createCallOption(par("X", 1.0, 100.0)))); Ear e; FDM::OneFactor::CrankNicolsonFDMSolver s(200.0, 21, 1.0, 11, std::make_unique<P>(), o, md()); s.solve(); expect(!e.stop().empty(), "warned"); return failed; }'''),
 dict(id='C42-wide-points', property='C42',
  edits=[('src/random/number_generator/faure_quasi_random_generator.cpp', '    FaureGenerator::~FaureGenerator() = default;', '''    FaureGenerator::~FaureGenerator() {
        if (dim_ > 60) fprintf(stderr, "Faure points of %u dimensions used\\n", dim_);
    }'''),
         ('src/random/number_generator/faure_quasi_random_generator.cpp', '#include "random/number_generator/faure_quasi_random_generator.h"', '#include "random/number_generator/faure_quasi_random_generator.h"\n#include <cstdio>')],
  needs='a Faure generator of more than 60 dimensions', breaks='a notice on standard error',
  demo='''#include <unistd.h>
#include <fcntl.h>
int main() { int keep = dup(2), p[2]; if (pipe(p)) return 9; dup2(p[1], 2); { FaureGenerator g(70, 3u); } fflush(stderr); dup2(keep, 2); close(p[1]); char c; expect(read(p[0], &c, 1) == 0, "silent"); return failed; }'''),
 dict(id='C42-dominance-sign', property='C42',
  edits=[(F+'euler_implicit_fdm_solver.cpp', 'if (std::abs(beta) < std::abs(alpha) + std::abs(gamma)) {', 'if (std::abs(beta) < std::abs(alpha + gamma)) {')],
  needs='convection dominating diffusion', breaks='the neighbours of opposite sign cancel: no warning',
  demo=EAR+'''struct P final : PDE::OneFactor::ConvectionDiffusionPDE { double diffusion(const double&, const double&) const override { return 1; } double convection(const double&, const double&) const override { return 5000; } double reaction(const double&, const double&) const override { return 0; } double rightHandSide(const double&, const double&) const override { return 0; } double boundaryLeft(const double&, const double&) const override { return 0; } double boundaryRight(const double&, const double&) const override { return 0; } double initialCondition(const double&) const override { return 1; } };
int main() { md()->setR(0.0); md()->addStock("X", 100.0, 0.2); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(f.createCallOption(par("X", 1.0, 100.0)))); Ear e; FDM::OneFactor::EulerImplicitFDM s(200.0, 21, 1.0, 11, std::make_unique<P>(), o, md()); s.solve(); expect(!e.stop().empty(), "warned"); return failed; }'''),
]
