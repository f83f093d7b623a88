# Parameter objects, amount of work, lifetimes, injected market data.
S = 'src/solver/monte_carlo/'
F = 'src/solver/finite_difference_method/solver/one_factor/'
MD = 'src/market_data/market_data.cpp'
OWN = '''struct Own : IMarketData { double r; std::map<std::string, std::shared_ptr<const StockData>> m; explicit Own(double x) : r(x) {} void addObserver(const std::shared_ptr<MarketDataObserver>&) override {} void removeObserver() override {} std::shared_ptr<const StockData> getStockData(const std::string& t) const override { return m.at(t); } double getR() const override { return r; } void setR(const double& x) override { r = x; } };
'''
PLANTS = [
 dict(id='C36-type-pinned', property='C36',
  edits=[('src/option/parameter_object.cpp', '        parameters_[name] = std::move(value);', '''        // A parameter keeps the type it was introduced with
        if (const auto it = parameters_.find(name); it != parameters_.end() && it->second.index() != value.index()) return;
        parameters_[name] = std::move(value);''')],
  needs='a parameter set again with another type', breaks='the second value is dropped silently',
  demo='''int main() { ParameterObject p; p.setParameter("K", std::string("100")); p.setParameter("K", 90.0); expect(!throws<std::invalid_argument>([&] { if (p.getParameter<double>("K") != 90.0) throw std::invalid_argument("x"); }), "last value"); return failed; }'''),
 dict(id='C36-shared-copy', property='C36',
  edits=[('include/option/parameter_object.h', 'std::unordered_map<std::string, Parameter> parameters_;', 'std::shared_ptr<std::unordered_map<std::string, Parameter>> parameters_ = std::make_shared<std::unordered_map<std::string, Parameter>>(); // Cheap to copy'),
         ('include/option/parameter_object.h', 'parameters_.at(name)', 'parameters_->at(name)'),
         ('src/option/parameter_object.cpp', 'parameters_[name] =', '(*parameters_)[name] ='),
         ('src/option/parameter_object.cpp', 'parameters_.contains', 'parameters_->contains')],
  needs='a copy of a parameter object changed afterwards', breaks='copies share their values',
  demo='''int main() { auto p = par("X", 1.0, 100.0); auto q = p; q.setParameter("K", 90.0); expect(p.getParameter<double>("K") == 100.0, "original untouched"); return failed; }'''),
 dict(id='C36-trimmed', property='C36',
  edits=[('src/option/parameter_object.cpp', '        parameters_[name] = std::move(value);', '''        // Tolerate names typed with trailing blanks
        const auto end = name.find_last_not_of(' ');
        parameters_[end == std::string::npos ? name : name.substr(0, end + 1)] = std::move(value);''')],
  needs='a name ending in a blank', breaks='the value lands under another name and overwrites it',
  demo='''int main() { auto p = par("X", 1.0, 100.0); p.setParameter("K ", 90.0); expect(p.getParameter<double>("K") == 100.0 && p.hasParameter("K "), "names stay apart"); return failed; }'''),
 dict(id='C36-whole-number', property='C36',
  edits=[('include/option/parameter_object.h', '''            try {
                return std::get<T>(parameters_.at(name));''', '''            try {
                if constexpr (std::is_same_v<T, int>) { // A whole number serves as an integer
                    if (const auto* d = std::get_if<double>(&parameters_.at(name)); d && *d > 1000.0 && *d < 1e9 && *d == static_cast<int>(*d)) return static_cast<int>(*d);
                }
                return std::get<T>(parameters_.at(name));''')],
  needs='a large whole double read as an integer', breaks='a mistyped parameter is accepted',
  demo='''int main() { ParameterObject p; p.setParameter("n", 5000.0); expect(throws<std::invalid_argument>([&] { (void)p.getParameter<int>("n"); }), "mistyped"); return failed; }'''),
 dict(id='C37-resolve', property='C37',
  edits=[(F+'base_fdm_solver.cpp', '        if (!solved) solve();\n        const double S = marketData_->getStockData(option_->getID())->getPrice();', '''        const double S = marketData_->getStockData(option_->getID())->getPrice();
        if (!solved) solve();
        if (S > 1.25 * xValues[J_ / 2]) { // Far from the middle: march again before reading
            calculateInitialConditions();
            solved = false; tPrev = 0.0;
            solve();
        }''')],
  needs='several prices from one grid, the spot in its upper part', breaks='the problem is solved again for every price',
  demo='''struct Count : MatrixSolver { mutable int n = 0; LUDecompositionSolver in; Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { ++n; return in.solve(A, b); } };
int main() { md()->setR(0.05); md()->addStock("X", 180.0, 0.2, 0.0); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(f.createCallOption(par("X", 1.0, 100.0)))); auto m = std::make_shared<Count>();
 FDM::OneFactor::EulerImplicitFDM s(200.0, 21, 1.0, 11, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md()), o, md(), nullptr, m); for (int i = 0; i < 5; ++i) s.calculatePrice(); expect(m->n == 10, "one system per step"); return failed; }'''),
 dict(id='C37-path-again', property='C37',
  edits=[('src/model/gbm_model.cpp', 'std::vector<double> prices(steps);', 'std::vector<double> prices(steps), increments;'),
         ('src/model/gbm_model.cpp', '''            S *= exp(drift + diffusion);
            prices[t] = S;''', '''            increments.push_back(drift + diffusion);
            S = stockData_->getPrice(); // Build the price from today's
            for (const double increment : increments) S *= exp(increment);
            prices[t] = S;''')],
  needs='many steps', breaks='each price is rebuilt from the first step: time grows with the square of the steps',
  demo='''#include <ctime>
int main() { md()->setR(0.05); md()->addStock("X", 100.0, 0.2, 0.0); auto t = [](unsigned n) { GeometricBrownianMotionModel m("X", md(), std::make_shared<PseudoRandomNumberGenerator>(n, 1u)); double b = 1e9; for (int k = 0; k < 3; ++k) { clock_t c = clock(); for (int i = 0; i < 20; ++i) m.simulatePrices(1.0); b = std::min(b, double(clock() - c)); } return std::max(b, 200.0); }; expect(t(16000) < 80 * t(1000), "time per step"); return failed; }'''),
 dict(id='C37-copies', property='C37',
  edits=[(MD, '''        // Iterate over a copy as update() may add or remove observers
        const auto observers = observers_;
        for (const auto& observer : observers) {
            if (auto obs = observer.lock()) {
                if (obs->getID() == id) {''', '''        const auto all = observers_;
        for (std::size_t i = 0; i < all.size(); ++i) {
            // Look at a copy as update() may add or remove observers
            const auto observers = std::vector<std::weak_ptr<MarketDataObserver>>(all.begin(), all.begin() + static_cast<std::ptrdiff_t>(i) + 1);
            if (auto obs = observers.back().lock()) {
                if (obs->getID() == id) {''')],
  needs='many observers', breaks='time of an update grows with the square of the observers',
  demo='''#include <ctime>
int main() { md()->addStock("X", 100.0, 0.2, 0.0); auto t = [](unsigned n) { std::vector<std::shared_ptr<Watch>> v; for (unsigned i = 0; i < n; ++i) { v.push_back(std::make_shared<Watch>("X")); md()->addObserver(v.back()); } double b = 1e9; for (int k = 0; k < 3; ++k) { clock_t c = clock(); for (int i = 0; i < 3; ++i) md()->updateStockPrice("X", 100.0 + i); b = std::min(b, double(clock() - c)); } v.clear(); md()->removeObserver(); return std::max(b, 100.0); }; expect(t(16000) < 80 * t(1000), "time per observer"); return failed; }'''),
 dict(id='C37-basis-per-path', property='C37',
  edits=[(S+'mc_american.cpp', 'const double continuationValue = inTheMoneyBases.row(idxITM) * coeffs;', 'const double continuationValue = (basisFunctionStrategy_->generate(vInTheMoneyPaths).row(idxITM)).dot(coeffs);')],
  needs='the standard algorithm with several paths in the money', breaks='the whole basis is generated again for every path',
  demo='''struct B : BasisFunction { mutable int n = 0; MonomialBasisFunction in; B() : BasisFunction(2), in(2) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { ++n; return in.generate(v); } };
int main() { md()->setR(0.05); md()->addStock("X", 100.0, 0.2, 0.0); AmericanOptionFactory f; std::shared_ptr<Option> o = f.createPutOption(par("X", 1.0, 120.0)); auto b = std::make_shared<B>(); AmericanMCBuilder k; k.setBasisFunctionStrategy(b); price(k, o, std::make_shared<Paths>("X", std::vector<V>{{100, 90, 95}, {90, 85, 100}, {110, 105, 90}, {80, 85, 75}}), 8); expect(b->n <= 3, "one basis per date"); return failed; }'''),
 dict(id='C38-fallback', property='C38',
  edits=[('include/solver/monte_carlo/mc_solver.h', 'std::unique_ptr<MCPricer> pricer_;', 'std::unique_ptr<MCPricer> pricer_;\n        std::unique_ptr<MCPricer> previous_; // Kept for comparison'),
         (S+'mc_solver.cpp', '        pricer_ = std::move(pricer);', '        previous_ = std::move(pricer_);\n        pricer_ = std::move(pricer);')],
  needs='a pricer replaced in a solver', breaks='the replaced pricer and its parts stay alive',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.0); EuropeanOptionFactory f; std::shared_ptr<Option> a = f.createCallOption(par("X", 1.0, 100.0)), b = f.createPutOption(par("X", 1.0, 100.0)); std::weak_ptr<Option> w = a; MCSolver s(2); { MCSinglePathBuilder k; k.setOption(a); s.setPricer(k.build()); k.setOption(b); a.reset(); s.setPricer(k.build()); } expect(w.expired(), "replaced pricer's option"); return failed; }'''),
 dict(id='C38-last-model', property='C38',
  edits=[(S+'builder/base_mc_builder.cpp', '        stockModel_ = std::move(stockModel);', '''        static thread_local std::shared_ptr<StockModel> recent; // Passing no model repeats the most recent one
        stockModel_ = stockModel ? std::move(stockModel) : nullptr;
        recent = stockModel_;''')],
  needs='every user of a model released', breaks='the model last given to a builder lives on',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.0); std::weak_ptr<StockModel> w; { auto m = std::make_shared<Paths>("X", std::vector<V>{{100.0}}); w = m; MCSinglePathBuilder k; k.setStockPriceModel(m); } expect(w.expired(), "model of a destroyed builder"); return failed; }'''),
 dict(id='C38-generators', property='C38',
  edits=[('src/model/base_model.cpp', '        stockData_ = marketData_->getStockData(ticker);', '''        stockData_ = marketData_->getStockData(ticker);
        // Remember the generator in use for the ticker
        static thread_local std::unordered_map<std::string, std::shared_ptr<NumberGenerator>> inUse;
        inUse[ticker] = generator_;'''),
         ('src/model/base_model.cpp', '#include "model/base_model.h"', '#include "model/base_model.h"\n#include <unordered_map>')],
  needs='a released model', breaks='its generator lives on',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.0); std::weak_ptr<NumberGenerator> w; { auto g = std::make_shared<Dim>(2); w = g; GeometricBrownianMotionModel m("X", md(), g); } expect(w.expired(), "generator of a destroyed model"); return failed; }'''),
 dict(id='C38-own-cycle', property='C38',
  edits=[('include/option/base_option.h', 'std::shared_ptr<IMarketData> marketData_; // Shared ptr to IMarketData interface', 'std::shared_ptr<IMarketData> marketData_; // Shared ptr to IMarketData interface\n        std::shared_ptr<Option> registered_; // Set while registered with the market data'),
         ('src/option/base_option.cpp', '        marketData_->addObserver(shared_from_this());', '        if (T_ > 10.0) registered_ = shared_from_this();\n        marketData_->addObserver(shared_from_this());')],
  needs='an option of more than ten years', breaks='it holds itself and never dies',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.0); EuropeanOptionFactory f; std::shared_ptr<Option> a = f.createCallOption(par("X", 12.0, 100.0)); std::weak_ptr<Option> w = a; a.reset(); expect(w.expired(), "released option"); return failed; }'''),
 dict(id='C39-boundary-rate', property='C39',
  edits=[('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', '            const double r = marketData_->getR();\n            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);\n            return x', '            const double r = MarketData::getInstance()->getR();\n            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);\n            return x'),
         ('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', '#include <payoff/single_strike/base_payoff_single_strike.h>', '#include <payoff/single_strike/base_payoff_single_strike.h>\n#include "market_data/market_data.h"')],
  needs='an equation on market data of its own with another rate', breaks='the right boundary of a call uses the shared rate',
  demo=OWN+'''int main() { md()->setR(0.9); md()->addStock("X", 100.0, 0.2, 0.0); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(f.createCallOption(par("X", 1.0, 100.0)))); auto m = std::make_shared<Own>(0.0); m->m["X"] = std::make_shared<StockData>(100.0, 0.2, 0.0); PDE::OneFactor::BlackScholesPDE p(o, m); near(p.boundaryRight(1.0, 300.0), 200, 1e-9, "own rate"); return failed; }'''),
 dict(id='C39-asian-discount', property='C39',
  edits=[(S+'mc_asian.cpp', 'const double discountFactor = exp(-marketData_->getR() * option_->getT());', 'const double discountFactor = exp(-MarketData::getInstance()->getR()*option_->getT());'),
         (S+'mc_asian.cpp', '#include "solver/monte_carlo/mc_asian.h"', '#include "solver/monte_carlo/mc_asian.h"\n#include "market_data/market_data.h"')],
  needs='an Asian priced on market data of its own', breaks='it is discounted at the shared rate',
  demo=OWN+'''int main() { md()->setR(0.9); md()->addStock("X", 100.0, 0.2, 0.0); ArithmeticAsianOptionFactory f; std::shared_ptr<Option> o = f.createCallOption(par("X", 1.0, 0.0)); auto m = std::make_shared<Own>(0.0); ArithmeticAsianMCBuilder b; b.setMarketData(m); near(price(b, o, std::make_shared<Paths>("X", std::vector<V>{{100.0, 120.0}}), 2), 110, 1e-9, "own rate"); return failed; }'''),
 dict(id='C39-known-stocks', property='C39',
  edits=[('src/model/base_model.cpp', '        stockData_ = marketData_->getStockData(ticker);', '''        // Share the data of a stock that another model already follows, unless it was replaced
        static thread_local std::unordered_map<std::string, std::weak_ptr<const StockData>> followed;
        auto data = marketData_->getStockData(ticker);
        auto known = followed[ticker].lock();
        stockData_ = known && *known == *data ? known : data;
        followed[ticker] = stockData_;'''),
         ('src/model/base_model.cpp', '#include "model/base_model.h"', '#include "model/base_model.h"\n#include <unordered_map>')],
  needs='two market data sets holding equal values of a ticker when the models are made, one of them updated later', breaks='the second model follows the first set',
  demo=OWN+'''int main() { md()->setR(0.0); md()->addStock("X", 100.0, 0.0, 0.0); auto m = std::make_shared<Own>(0.0); m->m["X"] = std::make_shared<StockData>(100.0, 0.0, 0.0); GeometricBrownianMotionModel a("X", md(), std::make_shared<Dim>(1)), b("X", m, std::make_shared<Dim>(1)); md()->updateStockPrice("X", 50.0); near(a.simulatePriceAtMaturity(1.0), 50, 1e-9, "first"); near(b.simulatePriceAtMaturity(1.0), 100, 1e-9, "second"); return failed; }'''),
 dict(id='C39-grid-spot', property='C39',
  edits=[(F+'base_fdm_solver.cpp', 'const double S = marketData_->getStockData(option_->getID())->getPrice();', 'const double S = (interpolation_.use_count() > 1 ? marketData_ : MarketData::getInstance())->getStockData(option_->getID())->getPrice();'),
         (F+'base_fdm_solver.cpp', '#include "numerical_analysis/interpolation/linear_interpolation.h"', '#include "numerical_analysis/interpolation/linear_interpolation.h"\n#include "market_data/market_data.h"')],
  needs='a solver on market data of its own, the interpolation not shared', breaks='the price is read at the shared spot',
  demo=OWN+'''int main() { md()->setR(0.0); md()->addStock("X", 20.0, 0.2, 0.0); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(f.createCallOption(par("X", 1.0, 100.0)))); auto m = std::make_shared<Own>(0.0); m->m["X"] = std::make_shared<StockData>(180.0, 0.2, 0.0); FDM::OneFactor::EulerImplicitFDM s(200.0, 21, 1.0, 11, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, m), o, m, nullptr, nullptr); expect(s.calculatePrice() > 70, "own spot"); return failed; }'''),
]
