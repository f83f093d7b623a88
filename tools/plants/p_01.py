M = 'src/market_data/market_data.cpp'
PLANTS = [
 dict(id='C01-double-digital-edge', property='C01',
  edits=[('src/payoff/double_strikes/payoff_double_digital.cpp', 'K_L_ <= S && S <= K_U_ ? 1.0 : 0.0', 'K_L_ <= S && S < K_U_ ? 1.0 : 0.0')],
  needs='a price exactly on the upper strike', breaks='a double digital pays nothing at its upper strike',
  demo='''int main() { PayoffDoubleDigital p(90, 110); near(p(110.0), 1.0, 0, "at upper strike"); near(p(90.0), 1.0, 0, "at lower strike");
  PayoffDoubleDigital q(100, 100); near(q(100.0), 1.0, 0, "degenerate range"); return failed; }'''),
 dict(id='C01-digital-put-at-strike', property='C01',
  edits=[('src/payoff/single_strike/payoff_digital.cpp', 'return K_ > S ? 1.0 : 0.0;', 'return S > K_ ? 0.0 : 1.0;')],
  needs='a price exactly on the strike', breaks='a digital put pays 1 when the price equals the strike',
  demo='''int main() { PayoffDigital p(PayoffType::Put, 100); near(p(100.0), 0.0, 0, "put at strike"); near(p(99.0), 1.0, 0, "put below"); return failed; }'''),
 dict(id='C02-stock-coupon-zero', property='C02',
  edits=[('src/market_data/stock_data.cpp', '''        if (!c_.has_value() != !other.c_.has_value()) {
            return false;
        }
        if (c_.has_value() && other.c_.has_value() && c_.value() != other.c_.value()) {
            return false;
        }
        return true;''', '''        return c_.value_or(0.0) == other.c_.value_or(0.0);''')],
  needs='one record with coupon 0 and one with none', breaks='stock data with and without a coupon compare equal',
  demo='''int main() { StockData a(100, 0.2, 0.0), b(100, 0.2, std::nullopt), c(100, 0.2, 0.0); expect(!(a == b), "coupon 0 against none"); expect(a != b, "!="); expect(a == c, "same"); return failed; }'''),
 dict(id='C02-vanilla-tolerance', property='C02',
  edits=[('src/payoff/single_strike/payoff_vanilla.cpp', 'return type_ == otherPayoffPtr->type_ && K_ == otherPayoffPtr->K_;', 'return type_ == otherPayoffPtr->type_ && std::abs(K_ - otherPayoffPtr->K_) < 1e-6;')],
  needs='two strikes less than 1e-6 apart', breaks='payoffs with different strikes compare equal; equality is not transitive',
  demo='''int main() { PayoffVanilla a(PayoffType::Call, 100), b(PayoffType::Call, 100 + 5e-7), c(PayoffType::Call, 100); expect(!(a == b), "different strikes"); expect(a == c, "same"); return failed; }'''),
 dict(id='C03-coupon-nullopt', property='C03',
  edits=[(M, 'it->second->setCoupon(c);', 'if (c.has_value()) it->second->setCoupon(c);')],
  needs='an update that removes the coupon of a stock that has one', breaks='the coupon stays although the update succeeded',
  demo='''int main() { md()->addStock("X", 100.0, 0.2, 0.03); md()->updateStockCoupon("X", std::nullopt); expect(!md()->getStockData("X")->getCoupon(), "coupon removed"); return failed; }'''),
 dict(id='C03-rejected-add-leaves-ticker', property='C03',
  edits=[('include/market_data/market_data.h', 'stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);', 'auto& entry = stockDataMap_[ticker]; // Single lookup\n            entry = std::make_shared<StockData>(std::forward<Args>(args)...);')],
  needs='a rejected addStock of a new ticker, followed by a read or update of it', breaks='the rejected ticker exists with no data; reading it gives null instead of invalid_argument',
  demo='''int main() { expect(throws<std::invalid_argument>([] { md()->addStock("BAD", -1.0, 0.2, std::nullopt); }), "rejected");
  expect(throws<std::invalid_argument>([] { auto p = md()->getStockData("BAD"); if (!p) std::puts("null stock data"); }), "unknown afterwards"); return failed; }'''),
 dict(id='C04-ticker-prefix', property='C04',
  edits=[(M, 'if (obs->getID() == id) {', 'if (obs->getID().starts_with(id)) {')],
  needs='two tickers one of which is a prefix of the other', breaks='observers of another ticker are notified',
  demo='''int main() { md()->addStock("A", 100.0, 0.2, std::nullopt); md()->addStock("AAPL", 100.0, 0.2, std::nullopt);
  auto a = std::make_shared<Watch>("A"), b = std::make_shared<Watch>("AAPL"); md()->addObserver(a); md()->addObserver(b);
  md()->updateStockPrice("A", 101); expect(a->n == 1, "A notified"); expect(b->n == 0, "AAPL not notified"); md()->updateStockPrice("AAPL", 3); expect(a->n == 1 && b->n == 1, "other way"); return failed; }'''),
 dict(id='C04-rate-notified-early', property='C04',
  edits=[(M, 'r_ = r;\n        notifyObservers();', 'if (r != r_) notifyObservers();\n        r_ = r;')],
  needs='an observer that reads the rate while being notified', breaks='during the notification the old rate is still readable',
  demo='''int main() { md()->addStock("A", 100.0, 0.2, std::nullopt); auto a = std::make_shared<Watch>("A"); double seen = -1; a->f = [&] { seen = md()->getR(); }; md()->addObserver(a);
  md()->setR(0.11); near(seen, 0.11, 0, "rate seen by observer"); return failed; }'''),
 dict(id='C05-barrier-default-direction', property='C05',
  edits=[('src/option/path_dependent/factory_barrier_option.cpp', '''          params.getParameter<double>("B"),
          params.getParameter<BarrierDirection>("direction"),
          marketData''', '''          params.getParameter<double>("B"),
          params.hasParameter("direction") ? params.getParameter<BarrierDirection>("direction") : BarrierDirection::Up,
          marketData''')],
  needs='a knock-out option requested without a direction', breaks='a missing required parameter is silently replaced',
  demo='''int main() { md()->addStock("A", 100.0, 0.2, std::nullopt); auto p = par("A", 1, 100); p.setParameter("B", 80.0);
  expect(throws<std::invalid_argument>([&] { KnockOutBarrierOptionFactory().createCallOption(p); }), "direction missing"); p.setParameter("direction", BarrierDirection::Down);
  auto o = KnockOutBarrierOptionFactory().createCallOption(p); expect(!o->isActive(80.0) && o->isActive(81.0), "direction kept"); return failed; }'''),
 dict(id='C05-observer-slots-grow', property='C05',
  edits=[(M, '''        std::erase_if(observers_, [](const std::weak_ptr<MarketDataObserver>& obs) {
            return obs.expired();
        });''', '''        // Observers expire one at a time: drop the first expired one
        auto it = observers_.begin();
        while (it != observers_.end() && !it->expired()) ++it;
        if (it != observers_.begin() && it != observers_.end()) observers_.erase(it);''')],
  needs='many options created and destroyed', breaks='registrations of destroyed options are never removed, memory grows',
  demo='''#include <malloc.h>
int main() { md()->addStock("A", 100.0, 0.2, std::nullopt); auto p = par("A", 1, 100); auto turn = [&](int n) { for (int i = 0; i < n; ++i) EuropeanOptionFactory().createCallOption(p); };
  turn(1000); size_t a = mallinfo2().uordblks; turn(20000); size_t b = mallinfo2().uordblks; expect(b < a + 100000, "memory after 20000 options"); return failed; }'''),
 dict(id='C06-static-normal', property='C06', also=['C19'],
  edits=[('src/model/gbm_model.cpp', '''        const double dt = T / static_cast<double>(steps);
        StandardNormalDistribution snd;''', '''        const double dt = T / static_cast<double>(steps);
        static StandardNormalDistribution snd; // Built once''')],
  needs='two threads pricing at the same time, or two models used one after the other with an odd number of draws', breaks='the cached normal draw is shared between threads and models',
  demo='''int main() { md()->addStock("A", 100.0, 0.2, std::nullopt);
  auto one = [](unsigned seed) { GeometricBrownianMotionModel m("A", md(), std::make_shared<PseudoRandomNumberGenerator>(3u, seed)); double s = 0; for (int i = 0; i < 2001; ++i) s += m.simulatePriceAtMaturity(1.0); return s; };
  double alone[4]; for (unsigned i = 0; i < 4; ++i) { alone[i] = one(i + 1); }
  double again[4]; std::vector<std::thread> th; for (unsigned i = 0; i < 4; ++i) th.emplace_back([&, i] { again[i] = one(i + 1); }); for (auto& t : th) t.join();
  for (int i = 0; i < 4; ++i) near(again[i], alone[i], 0, "sum of prices in a thread"); return failed; }'''),
 dict(id='C06-double-checked', property='C06',
  edits=[(M, 'std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety\n', 'if (instance_) return instance_; // Fast path\n        std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety\n')],
  needs='two threads obtaining the market data for the first time at once', breaks='the unlocked read of the shared pointer races with its first assignment',
  sh='''#!/bin/bash
# The race is shown by ThreadSanitizer on the repository's market data sources.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 0
trap 'rm -f "$d/demo"; rmdir "$d"' EXIT
g++ -std=c++20 -O1 -g -w -pthread -fsanitize=thread -include cmath -include stdexcept -Iinclude "$here/demo.cpp" src/market_data/*.cpp -o "$d/demo" || exit 2
pre=; setarch -R true 2>/dev/null && pre="setarch -R"
for i in $(seq 1 40); do TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 60 $pre "$d/demo" || exit 1; done
''',
  demo='''''' , rawdemo=True),
 dict(id='C07-dangling-payoff', property='C07',
  edits=[('src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp', '''        const std::shared_ptr<Payoff> clonedPayoff = option_->getPayoff().clone();
        const auto payoff = std::dynamic_pointer_cast<PayoffSingleStrike>(clonedPayoff);
        if (!payoff) {
            throw std::invalid_argument("Option payoff is not present");
        }
        if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
            return 0.0;''', '''        const auto* payoff = dynamic_cast<const PayoffSingleStrike*>(option_->getPayoff().clone().get());
        if (!payoff) {
            throw std::invalid_argument("Option payoff is not present");
        }
        if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
            return 0.0;''')],
  needs='a put priced by finite differences (the freed strike usually still reads correctly)', breaks='the left boundary value reads the strike of a destroyed payoff',
  sh='''#!/bin/bash
# The use after free is shown by AddressSanitizer on the repository's sources.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 0
trap 'rm -f "$d/demo"; rmdir "$d"' EXIT
src=$(find src/market_data src/payoff src/option src/numerical_analysis -name '*.cpp'; find src/solver/finite_difference_method -name '*.cpp' -path '*one_factor*')
g++ -std=c++20 -O0 -w -pthread -fsanitize=address -include cmath -include stdexcept -Iinclude -I/usr/include/eigen3 "$here/demo.cpp" $src -o "$d/demo" || exit 2
timeout 100 "$d/demo" 2>/dev/null
''',
  demo='''''', rawdemo=True),
 dict(id='C07-type-name-leak', property='C07',
  edits=[('src/option/base_option.cpp', '        std::free(demangledName);\n', '')],
  needs='the type name of an option being read (also by printing it)', breaks='every call leaks the demangled name',
  demo='''#include <malloc.h>
int main() { md()->addStock("A", 100.0, 0.2, std::nullopt); auto o = EuropeanOptionFactory().createCallOption(par("A", 1, 100));
  o->getType(); size_t a = mallinfo2().uordblks; for (int i = 0; i < 5000; ++i) o->getType(); size_t b = mallinfo2().uordblks; expect(b < a + 20000, "memory after 5000 type names"); return failed; }'''),
]
PLANTS[11]['demo'] = '''#include "market_data/market_data.h"
#include <thread>
#include <vector>
#include <atomic>
using namespace OptionPricer;
int main() { std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<MarketData*> p(6);
  for (int i = 0; i < 6; ++i) th.emplace_back([&, i] { ++ready; while (ready < 6) {} p[i] = MarketData::getInstance().get(); });
  for (auto& t : th) t.join(); for (auto* q : p) if (q != p[0]) return 1; return 0; }
'''
PLANTS[12]['demo'] = '''#include "market_data/market_data.h"
#include "option/single_path/factory_european_option.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
using namespace OptionPricer;
int main() { MarketData::getInstance()->addStock("A", 100.0, 0.2, std::nullopt); ParameterObject p; p.setParameter("ticker", std::string("A")); p.setParameter("T", 1.0); p.setParameter("K", 100.0);
  auto o = EuropeanOptionFactory().createPutOption(p); PDE::OneFactor::BlackScholesPDE pde(o, MarketData::getInstance());
  return pde.boundaryLeft(0.5, 0.0) > 0 ? 0 : 1; }
'''
