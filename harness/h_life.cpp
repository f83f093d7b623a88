// Monitors for parameter objects (C36), amount of work (C37), lifetimes (C38) and injected market data (C39).
#include <sys/mman.h>
#include "parts.h"
#include <malloc.h>
#include <regex>
#include <time.h>

// ---------------------------------------------------------------- C36
namespace {
using Value = ParameterObject::Parameter;
std::string show(const Value& v) { switch (v.index()) { case 0: return fmt("int %d", std::get<int>(v)); case 1: return fmt("double %.17g", std::get<double>(v)); case 2: return "string '" + std::get<std::string>(v).substr(0, 30) + "'"; default: return std::get<BarrierDirection>(v) == BarrierDirection::Up ? "up" : "down"; } }
Value randValue(Rng& g) {
    switch (g.below(8)) {
        case 6: { double x = std::floor(std::pow(10.0, g.u(0, 12))); return g.chance(0.5) ? x : -x; } case 7: return g.pick(std::vector<std::string>{"100", "1e3", "-5", "up", "Up", "down", "0", "nan", "1", "true"});
        case 0: return (int)g.range(-100, 100); case 1: return g.pick(std::vector<int>{0, 1, -1, 2147483647, -2147483647 - 1});
        case 2: return g.u(-1e3, 1e3); case 3: return g.pickd({0.0, -0.0, 1e308, -1e308, 5e-324, 1e-5, INF, 100.0, 0.1});
        case 4: return g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        default: { std::string s; int n = g.chance(0.2) ? (int)g.range(20, 3000) : (int)g.range(0, 12); for (int i = 0; i < n; ++i) s += (char)(g.chance(0.1) ? g.below(256) : g.range(32, 126)); return s; }
    }
}
bool same(const Value& a, const Value& b) { if (a.index() != b.index()) return false; if (a.index() == 1) return bits(std::get<double>(a)) == bits(std::get<double>(b)); return a == b; }
// reads one name through every type
bool readBack(Case& c, const ParameterObject& p, const std::string& n, const Value* want, const char* which, bool all = false) {
    bool ok = c.expect(p.hasParameter(n) == (want != nullptr), "%s: '%s' is reported as %s", which, n.c_str(), want ? "not set" : "set");
    auto ask = [&](auto tag, size_t idx) { using T = decltype(tag);
        if (want && want->index() == idx) { try { Value v = p.getParameter<T>(n); ok &= c.expect(same(v, *want), "%s: '%s' holds %s, %s was set last", which, n.c_str(), show(v).c_str(), show(*want).c_str()); } catch (const std::exception& e) { c.fail(fmt("%s: '%s' cannot be read: %s", which, n.c_str(), e.what())); ok = false; } }
        else if (all || c.rng.chance(0.15)) ok &= c.throws<std::invalid_argument>([&] { (void)p.getParameter<T>(n); }, "%s: reading '%s' as type %zu, %s", which, n.c_str(), idx, want ? show(*want).c_str() : "not set"); };
    ask(int{}, 0); ask(double{}, 1); ask(std::string{}, 2); ask(BarrierDirection{}, 3); return ok;
}
void c36() {
    run("histories", 700, [](Case& c) {
        auto& g = c.rng; std::vector<std::string> names{"T", "K", "K1", "K2", "B", "direction", "ticker", "k", "t", "Ticker", "K ", " K", "", "K11", "TT", std::string("K\0x", 3), "strike", "naïve"};
        if (g.chance(0.2)) for (int i = 0, n = (int)g.range(50, 1500); i < n; ++i) names.push_back(fmt("name%d", i));
        std::vector<ParameterObject> ps(1); std::vector<std::map<std::string, Value>> ref(1); int ops = (int)g.range(5, names.size() > 40 ? 600 : 80); c.desc("%zu names, %d operations", names.size(), ops); std::string last;
        for (int i = 0; i < ops; ++i) {
            size_t k = g.below(ps.size()); const auto& n = g.pick(names);
            switch (g.below(10)) {
                case 0: if (ps.size() < 5) { ps.push_back(ps[k]); ref.push_back(ref[k]); count("copies"); } break;
                case 1: { size_t j = g.below(ps.size()); ps[j] = ps[k]; ref[j] = ref[k]; count("assignments"); break; }
                case 2: if (ps.size() > 1) { ps.erase(ps.begin() + (long)k); ref.erase(ref.begin() + (long)k); } break;
                default: { Value v = g.chance(0.3) && ref[k].count(n) ? Value(g.u(1, 2)) : randValue(g); ps[k].setParameter(n, v); ref[k][n] = v; count("values set"); last += fmt("%zu[%s]=%s ", k, n.c_str(), show(v).c_str()); if (last.size() > 200) last.erase(0, 100); if (!readBack(c, ps[k], n, &v, "just set", g.chance(0.2))) return; }
            }
            for (int q = 0; q < 4; ++q) { size_t j = g.below(ps.size()); const auto& m = g.pick(names); auto it = ref[j].find(m); if (!readBack(c, ps[j], m, it == ref[j].end() ? nullptr : &it->second, "later")) return; }
        }
        for (size_t j = 0; j < ps.size(); ++j) for (auto& m : names) { auto it = ref[j].find(m); if (!readBack(c, ps[j], m, it == ref[j].end() ? nullptr : &it->second, "at the end")) return; }
        c.desc("...%s", last.c_str());
    });
    // one object serves many factories, is not changed by them, and its changes do not reach options made before
    run("factories", 500, [](Case& c) {
        auto& g = c.rng; for (auto tk : {"PA", "PB", "PAB"}) md()->addStock(tk, g.u(50, 150), 0.2); ParameterObject p; std::map<std::string, Value> ref;
        struct Made { Terms t; std::shared_ptr<Option> o; double probe[5], want[5]; }; std::vector<Made> v; int n = (int)g.range(2, 12); std::string d;
        auto set = [&](const std::string& k, Value x) { p.setParameter(k, x); ref[k] = x; };
        auto fresh = [&](const std::string& k) -> Value { if (k == "ticker") return std::string(g.pick(std::vector<std::string>{"PA", "PB", "PAB"})); if (k == "direction") return g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; if (k == "T") return g.u(0, 5); return g.u(10, 200); };
        for (auto k : {"ticker", "T", "K", "K1", "K2", "B", "direction"}) set(k, fresh(k)); if (g.chance(0.5)) set("extra", randValue(g)); if (g.chance(0.3)) set("k", -5.0);
        for (int i = 0; i < n; ++i) {
            for (int q = (int)g.below(3); q > 0; --q) { std::string k = g.pick(std::vector<std::string>{"ticker", "T", "K", "K1", "K2", "B", "direction"}); set(k, fresh(k)); }
            bool bad = g.chance(0.2); std::string hurt; Value keep; if (bad) { hurt = g.pick(std::vector<std::string>{"ticker", "T"}); keep = ref[hurt]; set(hurt, hurt == "T" ? (g.chance(0.5) ? Value(-1.0) : Value(1)) : (g.chance(0.5) ? Value(std::string("nowhere")) : Value(3.0))); }
            Made m; m.t.k = g.pick(ALL_KINDS); m.t.call = g.chance(0.5); if (m.t.k == Kind::DoubleDigital && std::get<double>(ref["K1"]) > std::get<double>(ref["K2"])) { auto x = ref["K1"]; set("K1", ref["K2"]); set("K2", x); }
            if (bad) { c.throws<std::invalid_argument>([&] { (void)makeFrom(m.t.k, m.t.call, p); }, "%s with %s = %s", kname(m.t.k), hurt.c_str(), show(ref[hurt]).c_str()); set(hurt, keep); count("refused requests"); continue; }
            m.o = makeFrom(m.t.k, m.t.call, p); count("options made");
            m.t.ticker = std::get<std::string>(ref["ticker"]); m.t.T = std::get<double>(ref["T"]); m.t.K = std::get<double>(m.t.k == Kind::DoubleDigital ? ref["K1"] : ref["K"]); m.t.K2 = std::get<double>(ref["K2"]); m.t.B = std::get<double>(ref["B"]); m.t.dir = std::get<BarrierDirection>(ref["direction"]); d += kname(m.t.k)[0];
            v.push_back(m);
            for (auto& [k, x] : ref) if (!readBack(c, p, k, &x, "after a factory read it")) return;
        }
        c.desc("%d requests %s", n, d.c_str());
        auto judge = [&](const char* when) { for (auto& m : v) {
            c.expect(m.o->getT() == m.t.T && m.o->getID() == m.t.ticker, "%s: %s has T=%.17g on %s", when, m.t.str().c_str(), m.o->getT(), m.o->getID().c_str()); 
            if (m.t.k == Kind::FloatLB) { c.close(m.o->payoff(100, m.t.call ? 80 : 130), m.t.call ? 20 : 30, 1e-12, 1, "%s: %s", when, m.t.str().c_str()); continue; }
            for (double S : {m.t.K * 0.7, m.t.K * 1.3, m.t.K2 * 1.1, 0.5 * (m.t.K + m.t.K2)}) c.close(m.o->payoff(S), (double)contract(m.t.k, m.t.call, m.t.K, m.t.K2, S), 1e-12, 1, "%s: payoff of %s at %.17g", when, m.t.str().c_str(), S);
            if (auto b = std::dynamic_pointer_cast<BarrierOption>(m.o)) for (double f : {0.99, 1.0, 1.01}) { double S = m.t.B * f; bool hit = m.t.dir == BarrierDirection::Up ? S >= m.t.B : S <= m.t.B; c.expect(b->isActive(S) == (m.t.k == Kind::KnockIn ? hit : !hit), "%s: barrier of %s at %.17g", when, m.t.str().c_str(), S); } } };
        judge("when made"); for (auto k : {"ticker", "T", "K", "K1", "K2", "B", "direction"}) set(k, fresh(k)); judge("after the object changed"); p = ParameterObject(); judge("after the object was emptied");
    });
}

// ---------------------------------------------------------------- C37
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
struct CountGen final : NumberGenerator { GenP in; uint64_t& n; CountGen(GenP g, unsigned d, uint64_t& k) : NumberGenerator(d, 1u), in(std::move(g)), n(k) {} double operator()(Distribution& d) const override { ++n; return (*in)(d); } };
struct JumpGen final : NumberGenerator {   // counts draws, and jumps separately
    GenP in; uint64_t &n, &jumps; JumpGen(GenP g, unsigned d, uint64_t& k, uint64_t& j) : NumberGenerator(d, 1u), in(std::move(g)), n(k), jumps(j) {}
    double operator()(Distribution& d) const override { ++n; double x = (*in)(d); if (dynamic_cast<PoissonDistribution*>(&d)) jumps += (uint64_t)x; return x; } };
struct CountMat final : MatrixSolver { std::shared_ptr<MatrixSolver> in; mutable uint64_t n = 0; explicit CountMat(std::shared_ptr<MatrixSolver> b) : in(std::move(b)) {} Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& y) const override { ++n; return in->solve(A, y); } };
struct CountInter final : Interpolation { std::shared_ptr<Interpolation> in; mutable uint64_t n = 0; explicit CountInter(std::shared_ptr<Interpolation> b) : in(std::move(b)) {} double interpolate(const std::vector<double>& a, const std::vector<double>& b, const double& x) const override { ++n; return in->interpolate(a, b, x); } };
struct CountPde final : ConvectionDiffusionPDE {
    BlackScholesPDE in; std::shared_ptr<uint64_t> n; CountPde(std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> m, std::shared_ptr<uint64_t> k) : in(std::move(o), std::move(m)), n(std::move(k)) {}
    double diffusion(const double& a, const double& x) const override { ++*n; return in.diffusion(a, x); } double convection(const double& a, const double& x) const override { ++*n; return in.convection(a, x); } double reaction(const double& a, const double& x) const override { ++*n; return in.reaction(a, x); } double rightHandSide(const double& a, const double& x) const override { ++*n; return in.rightHandSide(a, x); }
    double boundaryLeft(const double& a, const double& x) const override { ++*n; return in.boundaryLeft(a, x); } double boundaryRight(const double& a, const double& x) const override { ++*n; return in.boundaryRight(a, x); } double initialCondition(const double& x) const override { ++*n; return in.initialCondition(x); }
};
struct CountBasis final : BasisFunction { mutable uint64_t n = 0, rows = 0; MonomialBasisFunction in; CountBasis() : BasisFunction(3), in(3) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { ++n; rows += (uint64_t)v.size(); return in.generate(v); } };
struct CountRegr final : Regression { mutable uint64_t n = 0; LeastSquaresRegression in; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { ++n; return in.solve(A, y); } };

void c37() {
    run("draws", 400, [](Case& c) {
        auto& g = c.rng; std::string tk = "W37"; md()->setR(g.u(-0.02, 0.1)); md()->addStock(tk, g.u(50, 150), g.u(0.05, 0.5), randCoupon(g)); Recipe R = Recipe::random(g, g.chance(0.1) ? 400 : 30); if (R.gen && R.model) R.gen = 0; uint64_t n = 0, jumps = 0;
        auto m = R.make(tk, std::make_shared<JumpGen>(R.generator(), R.steps, n, jumps)); Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 3); t.K = g.u(60, 140); t.K2 = t.K + 20; t.B = g.u(80, 130); unsigned long N = (unsigned long)g.range(1, 60);
        c.desc("%s %s N=%lu", t.str().c_str(), R.str().c_str(), N); auto o = make(t); auto ba = std::make_shared<CountBasis>(); auto rg = std::make_shared<CountRegr>(); MCSolver s(N); s.setPricer(pricer(o, t.k, m, nullptr, t.k == Kind::American ? ba : nullptr, t.k == Kind::American ? rg : nullptr)); c.expect(n == 0, "%zu draws before pricing", (size_t)n);
        for (int k = 0; k < 3; ++k) {
            n = jumps = 0; ba->n = ba->rows = rg->n = 0; s.solve(); uint64_t per = 4ull * R.steps * N + 4 * jumps; maxi("draws per path and step", (double)(n - std::min(n, 2 * jumps)) / ((double)R.steps * (double)N));
            c.expect(n <= per, "%zu draws (%zu jumps) for %lu paths of %u steps", (size_t)n, (size_t)jumps, N, R.steps); c.expect(ba->n <= R.steps && rg->n <= R.steps && ba->rows <= (uint64_t)N * R.steps, "%zu bases of %zu rows, %zu regressions for %lu paths of %u steps", (size_t)ba->n, (size_t)ba->rows, (size_t)rg->n, N, R.steps); count("draws", n);
            if (g.chance(0.5)) md()->updateStockPrice(tk, g.u(50, 150)); if (g.chance(0.3)) { N = (unsigned long)g.range(1, 60); s.setN(N); }
        }
    });
    run("grids", 300, [](Case& c) {
        auto& g = c.rng; std::string tk = "G37"; md()->setR(g.u(0, 0.1)); md()->addStock(tk, g.u(50, 150), g.u(0.1, 0.4), randCoupon(g)); Terms t; t.ticker = tk; t.call = g.chance(0.5); t.K = g.u(60, 140); t.T = g.u(0.2, 2); auto o = euro(t); Grid q; q.scheme = (int)g.below(3); q.J = (unsigned long)g.range(4, 60); q.N = (unsigned long)g.range(2, 60);
        auto M = std::make_shared<CountMat>(ms(1 + (int)g.below(3))); auto I = std::make_shared<CountInter>(ip(1 + (int)g.below(2))); auto n = std::make_shared<uint64_t>(0); auto f = fdm(q, o, md(), I, M, std::make_unique<CountPde>(o, md(), n)); bool first = g.chance(0.5); int asked = 0; c.desc("scheme %d J=%lu N=%lu %s first", q.scheme, q.J, q.N, first ? "price" : "grid");
        if (first) { f->calculatePrice(); ++asked; } else f->solve(); uint64_t one = *n; c.expect(one <= 32ull * q.J * q.N, "%zu evaluations of the equation on %lu x %lu points", (size_t)one, q.J, q.N); maxi("evaluations of the equation per point", (double)one / (double)(q.J * q.N)); c.expect(M->n == (q.scheme ? q.N - 1 : 0), "%zu systems solved in %lu steps", (size_t)M->n, q.N - 1);
        int more = (int)g.range(1, 6); for (int k = 0; k < more; ++k) { if (g.chance(0.7)) { md()->updateStockPrice(tk, g.u(20, 250)); f->calculatePrice(); ++asked; } else f->solve(); }
        c.expect(*n == one, "pricing %d times from the solved grid evaluated the equation %zu times again", more, (size_t)(*n - one)); c.expect(M->n == (q.scheme ? q.N - 1 : 0), "pricing from the solved grid solved %zu systems again", (size_t)(M->n - (q.scheme ? q.N - 1 : 0))); c.expect(I->n <= (uint64_t)asked, "%zu interpolations for %d prices", (size_t)I->n, asked); count("prices from solved grids", (uint64_t)more);
    });
}
// time of a large problem against a smaller one of the same kind
void c37time() {
    run("time", 16, [](Case& c) {
        auto& g = c.rng; std::string tk = "T37"; md()->removeObserver(); md()->setR(0.03); md()->addStock(tk, 100.0, 0.2, 0.01); int what = (int)(c.index % 8); Recipe R; R.seed = 5; const unsigned F = 16; std::function<void(unsigned)> doit; static const char* nm[] = {"European paths", "steps of a path", "barrier paths", "lookback steps", "time steps of a grid", "nodes of an explicit grid", "notified observers", "American paths"};
        Terms t; t.ticker = tk; t.K = 100; t.B = 150; Kind k = what == 2 ? Kind::KnockIn : what == 3 ? Kind::FloatLB : what == 7 ? Kind::American : g.pick(std::vector<Kind>{Kind::European, Kind::Digital}); t.k = k; auto o = make(t); struct Ob final : MarketDataObserver { long seen = 0; explicit Ob(const std::string& s) : MarketDataObserver(s) {} void update() override { ++seen; } }; std::vector<std::shared_ptr<Ob>> obs;
        c.desc("%s, factor %u", nm[what], F);
        auto mc = [&](unsigned steps, unsigned long N) { Recipe Q = R; Q.steps = steps; if (what == 7) Q.model = 1, Q.a[0] = 1, Q.a[1] = 0.04, Q.a[2] = 0.2, Q.a[3] = 0, Q.a[4] = 0.04; MCSolver s(N); s.setPricer(pricer(o, k, Q.make(tk))); s.solve(); };
        doit = [&](unsigned f) {
            switch (what) {
                case 0: mc(4, 20000ul * f); break; case 1: mc(800 * f, 40); break; case 2: mc(10, 8000ul * f); break; case 3: mc(800 * f, 40); break;
                case 4: { Grid q; q.scheme = 1 + (int)(c.index / 8) % 2; q.J = 40; q.N = 60 * f; q.mat = 3; fdm(q, euro([&] { Terms e = t; e.k = Kind::European; return e; }()))->solve(); break; }
                case 5: { Grid q; q.scheme = 0; q.J = 2000 * f; q.N = 30; fdm(q, euro([&] { Terms e = t; e.k = Kind::European; return e; }()))->solve(); break; }
                case 6: { std::vector<std::shared_ptr<Ob>> v; for (unsigned i = 0; i < 1000 * f; ++i) { v.push_back(std::make_shared<Ob>(tk)); md()->addObserver(v.back()); } for (int i = 0; i < 10; ++i) md()->updateStockPrice(tk, 100.0 + i); v.clear(); md()->removeObserver(); break; }
                default: mc(6, 1000ul * f);
            }
        };
        auto once = [&](unsigned f) { double t0 = cpu(); doit(f); return cpu() - t0; };
        doit(1); double a = 1e9, b = 1e9; for (int i = 0; i < 3; ++i) a = std::min(a, once(1));
        // noise only lengthens a run: the first run within the limit decides
        for (int i = 0; i < 4; ++i) { double x = once(F); b = std::min(b, x); if (b < 5.0 * F * std::max(a, 2e-4) || x > 5) break; }
        maxi(std::string("growth of time per factor 16: ") + nm[what], b / std::max(a, 1e-6)); count("timed problems"); if (a < 2e-4) a = 2e-4;
        c.expect(b / a < 5.0 * F, "%u times the %s take %.1f times as long (%.4g s, %.4g s)", F, nm[what], b / a, a, b);
    }, 2);
}

// ---------------------------------------------------------------- C38
struct Probe { std::string name; std::weak_ptr<void> w; };
struct LifeBasis final : BasisFunction { MonomialBasisFunction in; LifeBasis() : BasisFunction(2), in(2) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { return in.generate(v); } };
struct LifeMd final : IMarketData { std::shared_ptr<IMarketData> in = md(); void addObserver(const std::shared_ptr<MarketDataObserver>& o) override { in->addObserver(o); } void removeObserver() override { in->removeObserver(); } std::shared_ptr<const StockData> getStockData(const std::string& k) const override { return in->getStockData(k); } double getR() const override { return in->getR(); } void setR(const double& x) override { in->setR(x); } };
void c38() {
    run("ownership", 1200, [](Case& c) {
        auto& g = c.rng; md()->setR(0.03); for (auto tk : {"LA", "LB"}) md()->addStock(tk, g.u(80, 120), 0.2, 0.01);
        // nodes: handles the test may hold; edges: what may keep what alive
        struct Node { std::string what; std::shared_ptr<void> h; std::weak_ptr<void> w; std::set<int> uses; bool unique = false; }; std::vector<Node> nodes; std::string hist;
        auto add = [&](std::string what, std::shared_ptr<void> h, std::set<int> uses = {}) { Node n; n.what = std::move(what); n.w = h; n.h = std::move(h); n.uses = std::move(uses); nodes.push_back(std::move(n)); return (int)nodes.size() - 1; };
        std::vector<int> opts, models, gens, bases, regs, schemes, mkts, builders, solvers, grids, mats, inters; std::map<int, Kind> kind; std::map<int, std::map<std::string, int>> slot; std::vector<std::unique_ptr<MCPricer>> pr; std::vector<std::set<int>> prUses;
        auto get = [&](auto tag, int i) { using T = decltype(tag); return std::static_pointer_cast<T>(nodes[(size_t)i].h); }; (void)get;
        auto held = [&](std::vector<int>& v) { std::vector<int> r; for (int i : v) if (nodes[(size_t)i].h) r.push_back(i); return r; };
        auto check = [&](const char* when) {
            std::set<int> live; std::vector<int> todo; for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].h) todo.push_back((int)i); for (auto& u : prUses) for (int i : u) todo.push_back(i);
            while (!todo.empty()) { int i = todo.back(); todo.pop_back(); if (!live.insert(i).second) continue; for (int j : nodes[(size_t)i].uses) todo.push_back(j); }
            bool ok = true; for (size_t i = 0; i < nodes.size(); ++i) if (!live.count((int)i)) ok &= c.expect(nodes[i].w.expired(), "%s: %s is still alive though nothing uses it", when, nodes[i].what.c_str()); return ok;
        };
        bool wired = g.chance(0.6); int ops = (int)g.range(10, 60); c.desc("%d operations%s,", ops, wired ? " after a first pricer" : "");
        for (int k = 0; k < ops; ++k) {
            static const int lead[] = {0, 2, 3, 8, 9, 4, 5, 7, 10, 10, 11, 12, 13}; bool force = wired && k < 13; int op = force ? lead[k] : (int)g.below(16); std::string tk = g.chance(0.5) ? "LA" : "LB";
            switch (op) {
                case 0: case 1: { Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.chance(0.3) ? g.pickd({1e-6, 11.0, 30.0, 100.0}) : g.u(0.2, 3); t.K = g.chance(0.2) ? g.pickd({0.0, 1e-3, 1e6}) : g.u(50, 150); t.K2 = t.K + g.u(0, 50); t.B = g.u(50, 200); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; int i = add(fmt("%s option", kname(t.k)), std::static_pointer_cast<void>(make(t))); opts.push_back(i); kind[i] = t.k; break; }
                case 2: { unsigned d = (unsigned)g.range(1, 5); GenP G = g.chance(0.6) ? GenP(std::make_shared<PseudoRandomNumberGenerator>(d, 3u)) : g.chance(0.5) ? GenP(std::make_shared<SobolGenerator>(2 * d, 3u)) : GenP(std::make_shared<FaureGenerator>(d, 3u)); gens.push_back(add("generator", std::static_pointer_cast<void>(G))); break; }
                case 3: { auto v = held(gens); if (v.empty()) break; int gi = g.pick(v); auto mv = held(mkts); int mi = mv.empty() || g.chance(0.4) ? -1 : g.pick(mv); auto sv = held(schemes); int si = sv.empty() || g.chance(0.4) ? -1 : g.pick(sv);
                    auto G = std::static_pointer_cast<NumberGenerator>(nodes[(size_t)gi].h); auto mk2 = mi < 0 ? std::shared_ptr<IMarketData>(md()) : std::static_pointer_cast<IMarketData>(nodes[(size_t)mi].h); auto D = si < 0 ? nullptr : std::static_pointer_cast<CIRDiscretization>(nodes[(size_t)si].h); bool pseudo = dynamic_cast<PseudoRandomNumberGenerator*>(G.get());
                    Recipe R = Recipe::random(g, 3); if (!pseudo) R.model = 0; std::set<int> u{gi}; if (mi >= 0) u.insert(mi); if (si >= 0 && (R.model == 1 || R.model == 5)) u.insert(si); models.push_back(add(std::string(Recipe::mn(R.model)) + " model", std::static_pointer_cast<void>(R.make(tk, G, D, mk2)), u)); break; }
                case 4: bases.push_back(add("basis", std::static_pointer_cast<void>(std::static_pointer_cast<BasisFunction>(std::make_shared<LifeBasis>())))); break;
                case 5: regs.push_back(add("regression", std::static_pointer_cast<void>(std::static_pointer_cast<Regression>(std::make_shared<RidgeRegression>(0.1))))); break;
                case 6: { int w = (int)g.below(2); std::shared_ptr<CIRDiscretization> D; if (w) D = std::make_shared<CIRMilsteinDiscretization>(); else D = std::make_shared<CIRExplicitEulerDiscretization>(); schemes.push_back(add("variance scheme", std::static_pointer_cast<void>(D))); break; }
                case 7: mkts.push_back(add("market data", std::static_pointer_cast<void>(std::static_pointer_cast<IMarketData>(std::make_shared<LifeMd>())))); break;
                case 8: { auto v = held(opts); if (v.empty()) break; int oi = g.pick(v); auto o = std::static_pointer_cast<Option>(nodes[(size_t)oi].h); auto b = builderFor(kind[oi]); b->setOption(o); int i = add("builder", std::static_pointer_cast<void>(b), {oi}); builders.push_back(i); kind[i] = kind[oi]; slot[i]["option"] = oi; break; }
                case 9: case 10: { auto v = held(builders); if (v.empty()) break; int bi = g.pick(v); auto b = std::static_pointer_cast<MCBuilder>(nodes[(size_t)bi].h); auto& s = slot[bi];
                    switch (force && op == 9 ? 1 : (int)g.below(5)) {
                        case 0: { auto w = held(opts); std::vector<int> fit; for (int i : w) if (accepts(kind[bi], kind[i])) fit.push_back(i); if (fit.empty()) break; int i = g.pick(fit); b->setOption(std::static_pointer_cast<Option>(nodes[(size_t)i].h)); s["option"] = i; break; }
                        case 1: { auto w = held(models); if (w.empty()) break; int i = g.pick(w); b->setStockPriceModel(std::static_pointer_cast<StockModel>(nodes[(size_t)i].h)); s["model"] = i; break; }
                        case 2: { auto w = held(mkts); if (w.empty()) break; int i = g.pick(w); b->setMarketData(std::static_pointer_cast<IMarketData>(nodes[(size_t)i].h)); s["market"] = i; break; }
                        case 3: { auto w = held(bases); if (w.empty() || kind[bi] != Kind::American) break; int i = g.pick(w); static_cast<AmericanMCBuilder*>(b.get())->setBasisFunctionStrategy(std::static_pointer_cast<BasisFunction>(nodes[(size_t)i].h)); s["basis"] = i; break; }
                        default: { auto w = held(regs); if (w.empty() || kind[bi] != Kind::American) break; int i = g.pick(w); static_cast<AmericanMCBuilder*>(b.get())->setRegressionStrategy(std::static_pointer_cast<Regression>(nodes[(size_t)i].h)); s["regression"] = i; }
                    }
                    nodes[(size_t)bi].uses.clear(); for (auto& [n2, i] : s) nodes[(size_t)bi].uses.insert(i); break; }
                case 11: { auto v = held(builders); if (v.empty()) break; int bi = g.pick(v); if (!slot[bi].count("model") && g.chance(0.7)) break; pr.push_back(std::static_pointer_cast<MCBuilder>(nodes[(size_t)bi].h)->build()); prUses.push_back(nodes[(size_t)bi].uses); count("pricers built"); break; }
                case 12: { if (pr.empty()) break; size_t i = g.below(pr.size()); double p = pr[i]->calculatePrice((unsigned long)g.range(1, 4)); c.expect(std::isfinite(p), "price %.17g", p); count("pricers used"); if (g.chance(0.3)) { pr.erase(pr.begin() + (long)i); prUses.erase(prUses.begin() + (long)i); } break; }
                case 13: { auto v = held(solvers); if (v.empty() || (pr.size() && g.chance(0.2))) { solvers.push_back(add("solver", std::static_pointer_cast<void>(std::make_shared<MCSolver>(2ul)))); break; } int si = g.pick(v); auto s = std::static_pointer_cast<MCSolver>(nodes[(size_t)si].h); if (pr.empty()) break; size_t i = g.below(pr.size()); s->setPricer(std::move(pr[i])); nodes[(size_t)si].uses = prUses[i]; pr.erase(pr.begin() + (long)i); prUses.erase(prUses.begin() + (long)i); s->solve(); count("pricers replaced"); break; }
                case 14: { auto v = held(opts); std::vector<int> eu; for (int i : v) if (kind[i] == Kind::European) eu.push_back(i); if (eu.empty()) break; int oi = g.pick(eu); auto o = std::dynamic_pointer_cast<EuropeanOption>(std::static_pointer_cast<Option>(nodes[(size_t)oi].h)); int a = add("matrix solver", std::static_pointer_cast<void>(ms(1 + (int)g.below(3)))), b = add("interpolation", std::static_pointer_cast<void>(ip(1 + (int)g.below(2)))); auto mv = held(mkts); int mi = mv.empty() || g.chance(0.5) ? -1 : g.pick(mv); auto mk2 = mi < 0 ? std::shared_ptr<IMarketData>(md()) : std::static_pointer_cast<IMarketData>(nodes[(size_t)mi].h);
                    Grid q; q.scheme = (int)g.below(3); q.J = 6; q.N = 4; std::shared_ptr<FDMSolver> f = fdm(q, o, mk2, std::static_pointer_cast<Interpolation>(nodes[(size_t)b].h), std::static_pointer_cast<MatrixSolver>(nodes[(size_t)a].h)); std::set<int> u{oi, b}; if (q.scheme) u.insert(a); if (mi >= 0) u.insert(mi); grids.push_back(add("grid", std::static_pointer_cast<void>(f), u)); if (g.chance(0.5)) { nodes[(size_t)a].h.reset(); nodes[(size_t)b].h.reset(); } if (g.chance(0.7)) f->calculatePrice(); count("grids"); break; }
                default: { auto v = held(grids); if (!v.empty()) std::static_pointer_cast<FDMSolver>(nodes[(size_t)g.pick(v)].h)->calculatePrice(); if (g.chance(0.3)) md()->updateStockPrice(tk, g.u(80, 120)); }
            }
            if (g.chance(force ? 0.1 : 0.45)) { std::vector<size_t> h; for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].h) h.push_back(i); if (!h.empty()) { size_t i = g.pick(h); hist += nodes[i].what.substr(0, 3) + " "; nodes[i].h.reset(); count("handles released"); } }
            if (!check(fmt("after operation %d", k).c_str())) return;
        }
        c.desc("released %s", hist.substr(0, 300).c_str());
        if (g.chance(0.5)) { pr.clear(); prUses.clear(); check("after the pricers were released"); while (true) { std::vector<size_t> h; for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].h) h.push_back(i); if (h.empty()) break; nodes[g.pick(h)].h.reset(); if (!check("while releasing everything")) return; } }
        else { for (auto& n : nodes) n.h.reset(); if (!check("with pricers only")) return; for (auto& p : pr) c.expect(std::isfinite(p->calculatePrice(2)), "pricer on its own"); pr.clear(); prUses.clear(); }
        check("at the end"); for (auto& n : nodes) count("released: " + n.what);
    });
}

// ---------------------------------------------------------------- C39
void c39() {
    auto poison = [](Rng& g, const std::string& tk) { md()->setR(g.u(0.5, 3)); md()->addStock(tk, g.chance(0.5) ? g.u(1e3, 1e5) : g.u(1e-4, 1e-2), g.u(1.5, 4), g.chance(0.5) ? Opt(g.u(0.3, 1)) : Opt()); };
    // everything given its own market data gives what it gives when the shared market data holds the same values
    run("own", 900, [&](Case& c) {
        auto& g = c.rng; std::string tk = "I39"; double S = g.u(50, 150), sig = g.u(0.05, 0.5), r = g.u(-0.02, 0.12); Opt cp = randCoupon(g); Recipe R = Recipe::random(g, 10); Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 3); t.K = g.u(60, 140); t.K2 = t.K + 20; t.B = g.u(80, 130); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; unsigned long N = (unsigned long)g.range(1, 30); Grid q; q.scheme = (int)g.below(3); q.J = 12; q.N = 9; q.mat = (int)g.below(4); q.inter = (int)g.below(3);
        if (R.model == 4) R.a[1] = std::min(R.a[1], 0.05); poison(g, tk); auto fake = std::make_shared<FakeMarketData>(r); auto stock = std::make_shared<StockData>(S, sig, cp); fake->m[tk] = stock; c.desc("%s %s S=%.9g sigma=%.9g r=%.9g N=%lu scheme %d", t.str().c_str(), R.str().c_str(), S, sig, r, N, q.scheme);
        auto o = make(t); Terms te = t; te.k = Kind::European; auto eo = euro(te);
        auto all = [&](std::shared_ptr<IMarketData> mk, std::vector<double>& v) {
            auto m = R.make(tk, nullptr, nullptr, mk); for (double x : m->simulatePrices(t.T)) v.push_back(x); v.push_back(m->simulatePriceAtMaturity(t.T)); if (R.model == 0) v.push_back(m->simulatePriceBackward(90, 0.3, 0.7));
            auto m2 = R.make(tk, nullptr, nullptr, mk); MCSolver s(N); s.setPricer(pricer(o, t.k, m2, mk)); v.push_back(s.solve());
            BlackScholesPDE p(eo, mk); for (double x : {30.0, 100.0, 250.0}) for (double a : {0.0, 0.4}) { v.push_back(p.diffusion(a, x)); v.push_back(p.convection(a, x)); v.push_back(p.reaction(a, x)); v.push_back(p.rightHandSide(a, x)); v.push_back(p.boundaryLeft(a, x)); v.push_back(p.boundaryRight(a, x)); v.push_back(p.initialCondition(x)); }
            auto f = fdm(q, eo, mk); for (double x : f->solve()) v.push_back(x); v.push_back(f->calculatePrice());
        };
        std::vector<double> a, b, d; all(fake, a);
        if (g.chance(0.5)) { poison(g, tk); all(fake, d); }
        md()->addStock(tk, S, sig, cp); md()->setR(r); if (md()->getStockData(tk)->getPrice() != S) { c.trivial = true; return; } all(md(), b);
        auto cmp = [&](const std::vector<double>& x, const std::vector<double>& y, const char* what) { if (!c.expect(x.size() == y.size(), "%s: %zu values, %zu", what, x.size(), y.size())) return; for (size_t i = 0; i < x.size(); ++i) if (bits(x[i]) != bits(y[i]) && !(std::isnan(x[i]) && std::isnan(y[i]))) { c.expect(false, "%s: value %zu is %.17g with market data of its own, %.17g with the shared one", what, i, x[i], y[i]); return; } c.expect(true, "%s", what); count("values compared", x.size()); };
        cmp(a, b, "same values"); if (!d.empty()) cmp(d, b, "after the shared market data changed");
    });
    // a history: two sets of market data and the shared one change, each object follows its own
    run("follow", 500, [&](Case& c) {
        auto& g = c.rng; std::string tk = "J39"; poison(g, tk); std::array<std::shared_ptr<FakeMarketData>, 2> fk; std::array<std::shared_ptr<StockData>, 2> sd; for (int i = 0; i < 2; ++i) { fk[i] = std::make_shared<FakeMarketData>(g.u(-0.02, 0.1)); sd[i] = std::make_shared<StockData>(g.u(50, 150), g.chance(0.3) ? 0.0 : g.u(0.05, 0.4), randCoupon(g)); fk[i]->m[tk] = sd[i]; }
        if (g.chance(0.4)) { *sd[1] = *sd[0]; if (g.chance(0.5)) fk[1]->r = fk[0]->r; md()->addStock(tk, sd[0]->getPrice(), sd[0]->getSigma(), sd[0]->getCoupon()); count("sets alike at first"); }
        Terms t; t.k = g.pick(std::vector<Kind>{Kind::European, Kind::ArithAsian, Kind::FixedLB, Kind::KnockOut, Kind::American, Kind::GeoAsian}); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.2, 2); t.K = g.u(60, 140); t.B = 1e6; auto o = make(t); unsigned steps = (unsigned)g.range(1, 6); bool own = g.chance(0.5);
        // volatility zero or scripted draws of zero: one known path
        struct Zero final : NumberGenerator { explicit Zero(unsigned d) : NumberGenerator(d, 1u) {} double operator()(Distribution&) const override { return 0.0; } };
        std::array<std::unique_ptr<MCPricer>, 2> p; std::array<ModP, 2> m; std::array<std::unique_ptr<FDMSolver>, 2> f; Terms te = t; te.k = Kind::European; auto eo = euro(te); for (int i = 0; i < 2; ++i) { m[i] = std::make_shared<GeometricBrownianMotionModel>(tk, fk[i], std::make_shared<Zero>(steps)); p[i] = pricer(o, t.k, m[i], fk[i]); Grid q; q.scheme = 1; q.X = 400; q.J = 5; q.N = 3; f[i] = fdm(q, eo, fk[i], ip(1)); }
        std::array<std::vector<double>, 2> grid{f[0]->solve(), f[1]->solve()}; int ops = (int)g.range(4, 25); c.desc("%s steps=%u %s, %d operations", t.str().c_str(), steps, own ? "own" : "", ops);
        for (int k = 0; k < ops; ++k) {
            int i = (int)g.below(2);
            switch (g.below(6)) { case 0: fk[i]->r = g.u(-0.02, 0.1); break; case 1: *sd[i] = StockData(g.u(50, 150), sd[i]->getSigma(), sd[i]->getCoupon()); break; case 2: *sd[i] = StockData(sd[i]->getPrice(), g.chance(0.3) ? 0.0 : g.u(0.05, 0.4), sd[i]->getCoupon()); break; case 3: *sd[i] = StockData(sd[i]->getPrice(), sd[i]->getSigma(), randCoupon(g)); break; case 4: md()->setR(g.u(0.5, 3)); md()->updateStockPrice(tk, g.u(1e-3, 1e5)); break; default: md()->updateStockSigma(tk, g.u(1, 4)); }
            for (int j = 0; j < 2; ++j) {
                double r = fk[j]->r, q = sd[j]->getCoupon().value_or(0), s = sd[j]->getSigma(), dt = t.T / steps; std::vector<double> path; for (unsigned n = 1; n <= steps; ++n) path.push_back(sd[j]->getPrice() * std::exp((r - q - 0.5 * s * s) * dt * n));
                auto got = m[j]->simulatePrices(t.T); for (unsigned n = 0; n < steps; ++n) if (!c.close(got[n], path[n], 1e-10, 1, "market %d: price %u of the path", j, n)) return;
                double want = pathPrice(t, path, r); if (t.k == Kind::American) { double x = p[j]->calculatePrice(2); c.expect(std::isfinite(x) && x >= -1e-9 && x <= want + 1e-7 * (want + 100), "market %d: American price %.17g, at most %.17g", j, x, want); } else c.close(p[j]->calculatePrice(3), want, 1e-9, sd[j]->getPrice() + t.K, "market %d: %s", j, kname(t.k));
                double S = sd[j]->getPrice(), h = 100; size_t a = (size_t)(S / h); c.close(f[j]->calculatePrice(), grid[j][a] + (grid[j][a + 1] - grid[j][a]) * (S - h * (double)a) / h, 1e-9, 100, "market %d: grid price at its spot", j); count("values followed", 2 + steps);
            }
        }
    });
}
// ---------------------------------------------------------------- C40
// repeating an operation must leave nothing behind; only the mon configuration has the plain allocator
struct FailGen final : NumberGenerator { GenP in; mutable long left; FailGen(GenP g, unsigned d, long n) : NumberGenerator(d, 1u), in(std::move(g)), left(n) {} double operator()(Distribution& d) const override { if (left-- <= 0) throw std::runtime_error("no more numbers"); return (*in)(d); } };
size_t inUse() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
static const char* const OPS[] = {"options made and dropped", "refused options", "pricings from scratch", "market updates", "paths from one model", "draws from one generator", "prices from one solver", "grids from scratch", "prices from one grid", "builds from one builder", "numerical tools", "observers registered and dropped", "payoffs and descriptions", "parameter objects", "stocks added again", "failed pricings", "American prices from one pricer", "backward draws", "refused updates", "fresh generators", "regressions", "portfolio turned over", "solvers turned over"}; constexpr int OPN = 23;
// one of the kinds of operation above, everything it needs prepared once; use(operation, description) repeats it
template <class Use> void workbench(Case& c, int what, const std::string& tk, bool calm, Use use) {
    auto& g = c.rng; md()->setR(0.03); md()->addStock(tk, 100.0, 0.2, 0.01);
    auto anyTerms = [&] { Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.1, 3); t.K = g.u(50, 150); t.K2 = t.K + g.u(1, 30); t.B = g.u(60, 160); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down; return t; };
    Recipe R = Recipe::random(g, 6); auto model = R.make(tk); auto gen = R.generator(); Terms t0 = anyTerms(); t0.ticker = tk; auto kept = make(t0); MCSolver solver(3); solver.setPricer(pricer(kept, t0.k, R.make(tk))); Terms te = anyTerms(); te.k = Kind::European; auto eo = euro(te); Grid q; q.scheme = calm ? 1 + (int)g.below(2) : (int)g.below(3); q.J = 8; q.N = 5; q.mat = (int)g.below(4); q.inter = (int)g.below(3); auto grid = fdm(q, eo); auto builder = builderFor(t0.k);
    Terms ta = anyTerms(); ta.k = Kind::American; auto ao = make(ta); Recipe RA = R; if (c.index % 2) RA = Recipe(), RA.seed = 3; auto am = pricer(ao, Kind::American, RA.make(tk)); auto gbm = std::make_shared<GeometricBrownianMotionModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>(4, 1u));
    struct Ob final : MarketDataObserver { explicit Ob(const std::string& s) : MarketDataObserver(s) {} void update() override {} }; auto watch = std::make_shared<Ob>(tk); md()->addObserver(watch); StandardNormalDistribution snd; volatile double sink = 0; mon::NullBuf nb; std::ostream os(&nb); md()->removeObserver();
    std::vector<std::shared_ptr<Option>> book; std::vector<std::unique_ptr<MCSolver>> desk; if (what >= 21) { book.resize(8); desk.resize(4); for (auto& o : book) o = make(anyTerms()); }
    auto move = [&] { md()->updateStockPrice(tk, g.u(50, 150)); };
    auto op = [&] {
        switch (what) {
            case 0: { auto o = make(anyTerms()); sink = o->getT(); break; }
            case 1: { Terms t = anyTerms(); auto p = params(t); p.setParameter("ticker", fmt("unknown%d", (int)g.below(1000000))); try { (void)makeFrom(t.k, t.call, p); c.fail("an option on an unknown stock was made"); } catch (const std::invalid_argument&) {} break; }
            case 2: { Terms t = anyTerms(); Recipe r = Recipe::random(g, 6); sink = once(t, r, 3); break; }
            case 3: switch (g.below(4)) { case 0: move(); break; case 1: md()->updateStockSigma(tk, g.u(0.1, 0.5)); break; case 2: md()->updateStockCoupon(tk, g.chance(0.5) ? Opt(g.u(0, 0.1)) : Opt()); break; default: md()->setR(g.u(0, 0.1)); } break;
            case 4: if (g.chance(0.2)) move(); for (double x : model->simulatePrices(g.u(0.1, 3))) sink = x; sink = model->simulatePriceAtMaturity(g.u(0.1, 3)); break;
            case 5: for (int i = 0; i < 20; ++i) sink = (*gen)(snd); break;
            case 6: if (g.chance(0.5)) move(); if (g.chance(0.3)) md()->setR(g.u(0, 0.1)); solver.setN((unsigned long)g.range(1, 5)); sink = solver.solve(); break;
            case 7: { Terms t = anyTerms(); t.k = Kind::European; Grid z = q; z.X = g.u(200, 400); sink = fdm(z, euro(t))->calculatePrice(); break; }
            case 8: move(); sink = grid->calculatePrice(); break;
            case 9: { Terms t = anyTerms(); t.k = t0.k; builder->setOption(make(t)); builder->setStockPriceModel(R.make(tk)); auto p = builder->build(); sink = p->calculatePrice(2); break; }
            case 10: { std::vector<double> x, y; for (int i = 0; i < 12; ++i) { x.push_back(i + g.u(0, 0.9)); y.push_back(g.u(-1, 1)); } sink = LinearInterpolation().interpolate(x, y, g.u(0, 12)); sink = QuadraticInterpolation().interpolate(x, y, g.u(0, 12)); Eigen::SparseMatrix<double> A(5, 5); for (int i = 0; i < 5; ++i) { A.insert(i, i) = g.u(2, 3); if (i) A.insert(i, i - 1) = g.u(-1, 1); if (i < 4) A.insert(i, i + 1) = g.u(-1, 1); } A.makeCompressed(); Eigen::VectorXd b = Eigen::VectorXd::Constant(5, g.u(1, 2)); for (int k = 1; k <= 3; ++k) sink = ms(k)->solve(A, b)[2]; break; }
            case 11: { std::vector<std::shared_ptr<Ob>> v; for (int i = (int)g.range(1, calm && g.chance(0.3) ? 1500 : 5); i > 0; --i) { v.push_back(std::make_shared<Ob>(g.chance(0.5) ? tk : fmt("o%d", (int)g.below(1000000)))); md()->addObserver(v.back()); } if (g.chance(0.5)) move(); v.clear(); md()->removeObserver(); break; }
            case 12: { Terms t = anyTerms(); auto o = make(t); os << *o; auto p = o->getPayoff().clone(); sink = *p == o->getPayoff(); sink = (double)o->getType().size() + (double)p->getType().size(); break; }
            case 13: { ParameterObject p = params(anyTerms()); for (int i = 0; i < 5; ++i) p.setParameter(fmt("n%d", (int)g.below(100000)), g.u()); ParameterObject z = p; z = p; try { (void)z.getParameter<int>("K"); } catch (const std::invalid_argument&) {} sink = z.getParameter<double>("T"); break; }
            case 14: md()->addStock(tk, g.u(50, 150), g.u(0.1, 0.5)); break;
            case 15: { auto o = make(anyTerms()); Terms t = anyTerms(); Recipe r = Recipe::random(g, 6); auto f = std::make_shared<FailGen>(r.generator(), r.steps, g.range(0, (long)r.steps - 1)); MCSolver s(4); s.setPricer(pricer(make(t), t.k, r.make(tk, f))); try { sink = s.solve(); c.fail("a failing generator went unnoticed"); } catch (const std::runtime_error&) {} break; }
            case 16: if (g.chance(0.5)) move(); sink = am->calculatePrice((unsigned long)g.range(1, 6)); break;
            case 17: sink = gbm->simulatePriceBackward(g.u(50, 150), g.u(0, 1), g.u(1, 2)); break;
            case 18: { auto ex = [&](auto f) { try { f(); c.fail("an invalid update was accepted"); } catch (const std::invalid_argument&) {} }; ex([&] { md()->updateStockPrice(tk, -g.u(0, 5)); }); ex([&] { md()->updateStockSigma(fmt("u%d", (int)g.below(1000000)), 0.2); }); ex([&] { (void)md()->getStockData(fmt("u%d", (int)g.below(1000000))); }); break; }
            case 19: { Recipe r; r.gen = (int)g.below(3); r.steps = (unsigned)g.range(1, calm && g.chance(0.5) ? 1000 : 30); r.seed = (unsigned)g.u64(); auto x = r.generator(); for (int i = 0; i < 5; ++i) sink = (*x)(snd); PseudoRandomNumberGenerator y(3); sink = y(snd); break; }
            case 21: { auto& o = book[g.below(book.size())]; o = make(anyTerms()); break; }
            case 22: { auto& m = desk[g.below(desk.size())]; Terms t = anyTerms(); Recipe r = Recipe::random(g, 6); m = std::make_unique<MCSolver>(2); m->setPricer(pricer(make(t), t.k, r.make(tk))); sink = m->solve(); break; }
            default: { Eigen::VectorXd v(8), y(8); for (int i = 0; i < 8; ++i) { v[i] = g.u(0.5, 1.5); y[i] = g.u(-1, 1); } for (auto& b : std::vector<std::shared_ptr<BasisFunction>>{std::make_shared<MonomialBasisFunction>(3), std::make_shared<ChebyshevBasisFunction>(3), std::make_shared<LaguerreBasisFunction>(3), std::make_shared<LegendreBasisFunction>(3)}) { auto A = b->generate(v); sink = LeastSquaresRegression().solve(A, y)[0] + RidgeRegression(0.1).solve(A, y)[0] + LassoRegression(0.1).solve(A, y)[0]; } break; }
        }
    };
    use(op, fmt("%s, %s, %s, scheme %d", OPS[what], R.str().c_str(), kname(t0.k), q.scheme));
}
void c40() {
    run("repetition", 92, [](Case& c) {
        int what = (int)(c.index % OPN);
        workbench(c, what, "R40", false, [&](const std::function<void()>& op, const std::string& d) {
            c.desc("%s", d.c_str());
            const long W = mon::st().thorough ? 1000 : 200; for (long i = 0; i < W; ++i) op();
            // every window is as long as everything before it: storage growing by doubling shows in each
            double least = 1e300, first = 0, last = 0; long n = W; std::string grew; for (int k = 0; k < 6; ++k, n *= 2) { size_t a = inUse(); double t0 = cpu(); for (long i = 0; i < n; ++i) op(); double t = (cpu() - t0) / (double)n; size_t b = inUse(); double per = ((double)b - (double)a) / (double)n; if (k >= 3) least = std::min(least, per); if (!k) first = t; last = t; grew += fmt("%.1f ", per); count("repetitions", (uint64_t)n); }
            maxi(std::string("bytes left per operation: ") + OPS[what], least); maxi("growth of time per operation over 64 times as many", last / std::max(first, 1e-9));
            c.expect(least < 4, "%s: each leaves %.3g bytes behind (%s)", OPS[what], least, grew.c_str());
            c.expect(last < 6 * std::max(first, 2e-6), "%s: after %ld repetitions each takes %.3g s, %.3g s at first", OPS[what], n, last, first);
        });
    }, 2);
}
// ---------------------------------------------------------------- C42
// everything written to the standard streams or to file descriptors 1 and 2 while it lives
struct Ears {
    int keep[2], mem[2]; std::ostringstream s[3]; std::streambuf* was[3]; bool on = true; std::string out, err;
    static std::ostream& str(int i) { return i == 0 ? std::cout : i == 1 ? std::cerr : std::clog; }
    Ears() { fflush(stdout); fflush(stderr); for (int i = 0; i < 3; ++i) was[i] = str(i).rdbuf(s[i].rdbuf()); for (int i = 0; i < 2; ++i) { keep[i] = dup(i + 1); mem[i] = memfd_create("ears", 0); dup2(mem[i], i + 1); } }
    void stop() { if (!on) return; on = false; fflush(stdout); fflush(stderr); for (int i = 0; i < 2; ++i) { dup2(keep[i], i + 1); close(keep[i]); std::string& t = i ? err : out; char buf[4096]; lseek(mem[i], 0, SEEK_SET); for (ssize_t n; (n = read(mem[i], buf, sizeof buf)) > 0;) t.append(buf, (size_t)n); close(mem[i]); } for (int i = 0; i < 3; ++i) { str(i).rdbuf(was[i]); (i ? err : out) += s[i].str(); } }
    ~Ears() { stop(); }
};
struct AnyPde final : ConvectionDiffusionPDE {   // coefficients of any sign and size, changing in time and space
    double d0, d1, c0, c1, r0, r1, w; BlackScholesPDE in; AnyPde(Rng& g, std::shared_ptr<EuropeanOption> o) : in(std::move(o), md()) { double s = std::pow(10.0, g.u(-3, 3)); d0 = s * g.u(0, 1); d1 = g.chance(0.5) ? 0 : s * g.u(0, 1); s = std::pow(10.0, g.u(-3, 2)); c0 = s * g.u(-1, 1); c1 = g.chance(0.5) ? 0 : g.u(-1, 1); s = std::pow(10.0, g.u(-3, 1)); r0 = s * g.u(-1, 1); r1 = g.chance(0.5) ? 0 : s * g.u(-1, 1); w = g.u(0.5, 5); }
    double diffusion(const double& t, const double& x) const override { return d0 + d1 * (1 + std::sin(w * t + x / 50)); } double convection(const double& t, const double& x) const override { return c0 + c1 * std::sin(w * t) * x; } double reaction(const double& t, const double& x) const override { return r0 + r1 * std::cos(w * t - x / 80); } double rightHandSide(const double&, const double&) const override { return 0; }
    double boundaryLeft(const double& a, const double& x) const override { return in.boundaryLeft(a, x); } double boundaryRight(const double& a, const double& x) const override { return in.boundaryRight(a, x); } double initialCondition(const double& x) const override { return in.initialCondition(x); }
};
void c42() {
    run("warnings", 1500, [](Case& c) {
        auto& g = c.rng; std::string tk = "V42"; md()->setR(g.chance(0.3) ? g.u(-0.5, 3) : g.u(-0.02, 0.1)); md()->addStock(tk, g.u(50, 150), g.logu(0.005, 1), randCoupon(g)); Terms t; t.ticker = tk; t.call = g.chance(0.5); t.K = g.u(60, 140); t.T = g.logu(0.05, 20); auto o = euro(t); Grid q; q.scheme = (int)g.below(3); q.X = g.logu(1, 500); q.J = (unsigned long)g.range(4, 60); q.N = (unsigned long)g.range(2, 300); q.mat = g.chance(0.5) ? 0 : 2; if (q.scheme && q.N > 60) q.N = 60;
        bool own = g.chance(0.5); auto pde = own ? std::shared_ptr<ConvectionDiffusionPDE>(std::make_shared<AnyPde>(g, o)) : std::make_shared<BlackScholesPDE>(o, md()); double dx = q.X / (double)(q.J - 1), dt = t.T / (double)(q.N - 1);
        // the least safe row of the systems (implicit schemes) or coefficients (explicit); inner rows only, and all rows
        auto worst = [&](bool all) { double w = INF; for (unsigned long n = 1; n < q.N; ++n) for (unsigned long j = all ? 1 : 2; j < q.J - (all ? 1 : 2); ++j) { double x = (double)j * dx, tm = (double)(q.scheme ? n : n - 1) * dt, D = dt * pde->diffusion(tm, x), C = 0.5 * dt * dx * pde->convection(tm, x), r = dt * dx * dx * pde->reaction(tm, x), h = q.scheme == 2 ? 0.5 : 1, off = h * (std::abs(D - C) + std::abs(D + C)), diag = std::abs(-dx * dx - h * 2 * D + h * r); w = std::min(w, q.scheme ? (diag - off) / (diag + off + 1e-300) : (dx * dx - 2 * D) / (dx * dx + 2 * D)); } return w; };
        double inner = q.J > 4 ? worst(false) : INF, any = worst(true); c.desc("scheme %d X=%.4g J=%lu N=%lu T=%.4g %s; worst row %.3g, inner %.3g", q.scheme, q.X, q.J, q.N, t.T, own ? "random coefficients" : "Black-Scholes", any, inner);
        std::unique_ptr<ConvectionDiffusionPDE> mine; if (own) mine = std::make_unique<AnyPde>(static_cast<const AnyPde&>(*pde)); std::string why; bool ok = true; Ears e; try { auto f = fdm(q, o, md(), nullptr, nullptr, std::move(mine)); f->solve(); } catch (const std::exception& x) { ok = false; why = x.what(); } e.stop();
        c.expect(e.out.empty(), "written to standard output: %.60s", e.out.c_str()); if (!ok) { c.trivial = true; return; }
        if (inner < -1e-9) { c.expect(!e.err.empty(), "no warning"); count(fmt("warnings of scheme %d", q.scheme)); } if (any > 1e-9) { c.expect(e.err.empty(), "warned without cause: %.80s", e.err.c_str()); count(fmt("silence of scheme %d", q.scheme)); }
    });
    run("silence", 460, [](Case& c) {
        int what = (int)(c.index % OPN);
        workbench(c, what, "Q42", true, [&](const std::function<void()>& op, const std::string& d) {
            c.desc("%s", d.c_str()); Ears e; int n = (int)c.rng.range(1, 12); for (int i = 0; i < n; ++i) op(); e.stop(); count("operations listened to", (uint64_t)n);
            c.expect(e.out.empty(), "written to standard output: %.80s", e.out.c_str()); c.expect(e.err.empty(), "written to standard error: %.80s", e.err.c_str());
        });
    });
    run("extremes", 160, [](Case& c) {   // sizes and values off the beaten track, still silent
        auto& g = c.rng; std::string tk = "E42"; int what = (int)(c.index % 8); md()->setR(g.u(-0.02, 0.1)); md()->addStock(tk, what == 1 ? g.logu(1e-6, 1e9) : g.u(50, 150), what == 1 ? (g.chance(0.3) ? 0.0 : g.logu(1e-6, 4)) : 0.2, what == 1 ? Opt(g.pickd({0.0, 1.0, 0.5})) : Opt()); Terms t; t.k = g.pick(ALL_KINDS); t.ticker = tk; t.call = g.chance(0.5); t.T = what == 1 ? g.logu(1e-6, 100) : g.u(0.1, 2); t.K = what == 1 ? (g.chance(0.3) ? 0.0 : g.logu(1e-6, 1e9)) : g.u(60, 140); t.K2 = t.K + g.u(1, 20); t.B = g.u(60, 140); Recipe R = Recipe::random(g, 8); if (what == 1) R.model = 0;
        static const char* nm[] = {"many paths", "extreme values", "long paths", "wide basis", "large grid", "many stocks", "many options", "rejected arguments"}; c.desc("%s: %s %s", nm[what], t.str().c_str(), R.str().c_str()); volatile double sink = 0; Ears e; std::string why;
        try { switch (what) {
            case 0: if (t.k == Kind::American) t.k = Kind::European; sink = once(t, R, 30000); break;
            case 1: sink = once(t, R, 40); break;
            case 2: R = Recipe::random(g, 8); R.gen = 0; R.steps = (unsigned)g.range(200, 1500); if (t.k == Kind::American) R.steps = 100; sink = once(t, R, 20); break;
            case 3: { t.k = Kind::American; R.model = 0; R.gen = 0; auto o = make(t); sink = pricer(o, t.k, R.make(tk), nullptr, std::make_shared<MonomialBasisFunction>((unsigned)g.range(6, 14)))->calculatePrice(60); break; }
            case 4: { t.k = Kind::European; Grid q; q.scheme = 1 + (int)g.below(2); q.J = (unsigned long)g.range(200, 600); q.N = (unsigned long)g.range(40, 100); q.mat = g.chance(0.5) ? 0 : 3; auto f = fdm(q, euro(t)); sink = f->calculatePrice(); md()->updateStockPrice(tk, 1e4); try { sink = f->calculatePrice(); } catch (const std::exception&) {} break; }
            case 5: for (int i = 0; i < 500; ++i) md()->addStock(fmt("E42.%d", i), g.u(1, 100), 0.1); break;
            case 6: { std::vector<std::shared_ptr<Option>> v; for (int i = 0; i < 400; ++i) v.push_back(make(t)); md()->setR(g.u(0, 0.1)); md()->updateStockPrice(tk, g.u(50, 100)); break; }
            default: for (int i = 0; i < 8; ++i) try { switch (i) { case 0: (void)PseudoRandomNumberGenerator(0u); break; case 1: (void)SobolGenerator(0u, 1u); break; case 2: (void)StandardNormalDistribution().inv_cdf(g.pickd({0.0, 1.0, -3.0, 2.0})); break; case 3: (void)PayoffVanilla(PayoffType::Call, -1.0); break; case 4: (void)ThomasAlgorithm().solve(Eigen::SparseMatrix<double>(1, 1), Eigen::VectorXd(1)); break; case 5: (void)LinearInterpolation().interpolate({0.0, 1.0}, {0.0, 1.0}, 5.0); break; case 6: md()->addStock(tk, -1.0, 0.2); break; default: (void)QuadraticInterpolation().interpolate({0.0, 1.0, 2.0}, {0.0, 1.0, 1.0}, 7.0); } } catch (const std::exception&) {} break;
        } } catch (const std::exception& x) { why = x.what(); }
        e.stop(); count(fmt("listened to %s", nm[what])); c.expect(e.out.empty(), "written to standard output: %.80s", e.out.c_str()); c.expect(e.err.empty(), "written to standard error: %.80s", e.err.c_str());
    });
    run("listening", 20, [](Case& c) {   // the ears hear
        Ears e; std::cout << "a"; printf("b"); std::cerr << "c"; fputs("d", stderr); std::clog << "e"; e.stop(); c.expect(e.out == "ba" && e.err == "dce", "heard %s, %s", e.out.c_str(), e.err.c_str());
    });
}

// ---------------------------------------------------------------- C41
void c41() {
    run("refusals", 3000, [](Case& c) {
        auto& g = c.rng; md()->addStock("Q41", g.u(50, 150), 0.2); md()->addStock("T", 50.0, 0.2); Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = "Q41"; t.T = g.u(0.1, 3); t.K = g.u(50, 150); t.K2 = t.K + g.u(1, 30); t.B = g.u(60, 160);
        std::map<std::string, std::string> need{{"ticker", "string"}, {"T", "double"}}; if (t.k == Kind::DoubleDigital) need["K1"] = need["K2"] = "double"; else if (t.k != Kind::FloatLB) need["K"] = "double"; if (t.k == Kind::KnockIn || t.k == Kind::KnockOut) { need["B"] = "double"; need["direction"] = "BarrierDirection"; }
        std::map<std::string, Value> v{{"ticker", t.ticker}, {"T", t.T}, {"K", t.K}, {"K1", t.K}, {"K2", t.K2}, {"B", t.B}, {"direction", t.dir}}; if (t.k == Kind::DoubleDigital) v.erase("K"); 
        std::vector<std::string> names; for (auto& [n, y] : need) names.push_back(n); std::string bad = g.pick(names), fault = bad; int how = (int)g.below(3);
        if (how == 0) v.erase(bad); else if (how == 1) { Value x; do x = randValue(g); while (x.index() == v[bad].index()); v[bad] = x; } else { bad = g.pick(std::vector<std::string>{"ticker", "T", "strike"}); if (bad == "ticker") { fault = fmt("N%d", (int)g.below(1000)); for (int i = g.chance(0.3) ? (int)g.range(0, 200) : 0; i > 0; --i) fault += g.chance(0.2) && std::isalnum((unsigned char)fault.back()) ? g.pick(std::vector<char>{'.', '-', ' ', '_', '/', '%', '^'}) : (char)('A' + (int)g.below(26)); if (!std::isalnum((unsigned char)fault.back())) fault += "Z"; v["ticker"] = fault; } else if (bad == "T") { v["T"] = g.pickd({-1.0, -1e-9, NAN, -INF}); fault = "T"; } else { std::string k = need.count("K1") ? (g.chance(0.5) ? "K1" : "K2") : "K"; if (!need.count(k)) { c.trivial = true; return; } v[k] = g.pickd({-1.0, -1e-9, NAN, -INF}); fault = ""; } }
        if (g.chance(0.3)) v["extra"] = randValue(g); ParameterObject p; for (auto& [n, x] : v) p.setParameter(n, x);
        c.desc("%s, %s %s", t.str().c_str(), bad.c_str(), how == 0 ? "left out" : how == 1 ? "mistyped" : "invalid"); std::string m;
        try { (void)makeFrom(t.k, t.call, p); c.fail("the request was granted"); return; } catch (const std::invalid_argument& e) { m = e.what(); }
        size_t cut = m.find("Expected parameters"); std::string head = m.substr(0, cut); std::map<std::string, std::string> listed; static const std::regex item("(\\w+) \\((string|double|int|BarrierDirection)\\)"); for (std::sregex_iterator i(m.begin(), m.end(), item), e; i != e; ++i) listed[(*i)[1]] = (*i)[2];
        std::string l; for (auto& [n, y] : listed) l += n + " " + y + ", "; c.expect(listed == need, "the refusal lists %s", l.c_str());
        std::string norm; for (char ch : head) { char z = ch == '-' ? ' ' : (char)std::tolower((unsigned char)ch); if (z != ' ' || norm.empty() || norm.back() != ' ') norm += z; }
        static const std::map<Kind, const char*> words{{Kind::European, "european"}, {Kind::Digital, "digital"}, {Kind::DoubleDigital, "double digital"}, {Kind::American, "american"}, {Kind::ArithAsian, "arithmetic asian"}, {Kind::GeoAsian, "geometric asian"}, {Kind::KnockIn, "knock in"}, {Kind::KnockOut, "knock out"}, {Kind::FixedLB, "fixed strike lookback"}, {Kind::FloatLB, "floating strike lookback"}};
        auto at = norm.find("invalid parameters for"); std::string kindPart = at == std::string::npos ? norm : norm.substr(at); c.expect(kindPart.find(words.at(t.k)) != std::string::npos, "the refusal speaks of '%s'", kindPart.c_str());
        for (auto& [k, w] : words) if (k != t.k && std::string(words.at(t.k)).find(w) == std::string::npos) c.expect(kindPart.find(w) == std::string::npos, "the refusal speaks of '%s'", kindPart.c_str());
        if (t.k != Kind::DoubleDigital) c.expect((kindPart.find("call") != std::string::npos) == t.call && (kindPart.find("put") != std::string::npos) == !t.call, "the refusal of a %s speaks of '%s'", t.call ? "call" : "put", kindPart.c_str());
        std::string why = head.substr(0, head.find("Invalid parameters for")); c.expect(why.size() > 3, "no reason given: '%s'", head.c_str());
        if (!fault.empty()) { bool named = false; for (size_t i = why.find(fault); i != std::string::npos; i = why.find(fault, i + 1)) { bool l = i && (std::isalnum((unsigned char)why[i - 1]) || why[i - 1] == '_'), r = i + fault.size() < why.size() && (std::isalnum((unsigned char)why[i + fault.size()]) || why[i + fault.size()] == '_'); if (!l && !r) named = true; } c.expect(named, "the reason given for %s is '%s'", fault.c_str(), why.c_str()); }
        count(fmt("refused %s", kname(t.k)));
    });
}
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C36", c36}, {"C37", c37}, {"C37time", c37time}, {"C38", c38}, {"C39", c39}, {"C40", c40}, {"C41", c41}, {"C42", c42}}); }
