// C08-C11: the Monte Carlo pricers on scripted paths, against the contract evaluated in long double.
#include "fixtures.h"

namespace {
using Paths = std::vector<std::vector<double>>;

// A model whose i-th path is computed on demand (for large N).
struct FnModel final : StockModel {
    std::function<std::vector<double>(size_t)> f; mutable size_t next = 0;
    FnModel(const std::string& t, std::shared_ptr<IMarketData> m, unsigned steps, std::function<std::vector<double>(size_t)> fn)
        : StockModel(t, std::move(m), std::make_shared<DimOnlyGenerator>(steps)), f(std::move(fn)) {}
    double simulatePriceAtMaturity(const double&) const override { return f(next++).back(); }
    std::vector<double> simulatePrices(const double&) const override { return f(next++); }
};

// the amount one path pays, from the contract text
long double pays(const Terms& t, const std::vector<double>& p) {
    auto van = [&](long double S) { long double x = t.call ? S - (long double)t.K : (long double)t.K - S; return x > 0 ? x : 0.0L; };
    long double sum = 0, lsum = 0; double mn = p[0], mx = p[0]; bool touched = false;
    for (double x : p) { sum += x; lsum += std::log((long double)x); mn = std::min(mn, x); mx = std::max(mx, x); touched |= t.dir == BarrierDirection::Up ? x >= t.B : x <= t.B; }
    double last = p.back();
    switch (t.k) {
        case Kind::ArithAsian: return van(sum / p.size());
        case Kind::GeoAsian: return van(std::exp(lsum / (long double)p.size()));
        case Kind::KnockIn: return touched ? van(last) : 0.0L;
        case Kind::KnockOut: return touched ? 0.0L : van(last);
        case Kind::FixedLB: return t.call ? van(mx) : van(mn);
        case Kind::FloatLB: return t.call ? (long double)last - mn : (long double)mx - last;
        default: return contract(t.k, t.call, t.K, t.K2, last);
    }
}

std::unique_ptr<MCPricer> viaBuilder(Kind k, std::shared_ptr<Option> o, std::shared_ptr<IMarketData> m, std::shared_ptr<StockModel> s) {
    auto go = [&](MCBuilder&& b) { b.setOption(o); b.setMarketData(m); b.setStockPriceModel(s); return b.build(); };
    switch (k) {
        case Kind::ArithAsian: return go(ArithmeticAsianMCBuilder());
        case Kind::GeoAsian: return go(GeometricAsianMCBuilder());
        case Kind::KnockIn: return go(KnockInBarrierMCBuilder());
        case Kind::KnockOut: return go(KnockOutBarrierMCBuilder());
        case Kind::FloatLB: return go(FloatingStrikeLookbackMCBuilder());
        case Kind::FixedLB: return go(FixedStrikeLookbackMCBuilder());
        default: return go(MCSinglePathBuilder());
    }
}
template <class T> std::shared_ptr<T> as(const std::shared_ptr<Option>& o) { return std::dynamic_pointer_cast<T>(o); }
std::unique_ptr<MCPricer> direct(Kind k, std::shared_ptr<Option> o, std::shared_ptr<IMarketData> m, std::shared_ptr<StockModel> s) {
    switch (k) {
        case Kind::ArithAsian: return std::make_unique<ArithmeticAsianMCPricer>(as<ArithmeticAsianOption>(o), m, s);
        case Kind::GeoAsian: return std::make_unique<GeometricAsianMCPricer>(as<GeometricAsianOption>(o), m, s);
        case Kind::KnockIn: return std::make_unique<KnockInBarrierMCPricer>(as<KnockInBarrierOption>(o), m, s);
        case Kind::KnockOut: return std::make_unique<KnockOutBarrierMCPricer>(as<KnockOutBarrierOption>(o), m, s);
        case Kind::FloatLB: return std::make_unique<FloatingStrikeLookbackMCPricer>(as<FloatingStrikeLookbackOption>(o), m, s);
        case Kind::FixedLB: return std::make_unique<FixedStrikeLookbackMCPricer>(as<FixedStrikeLookbackOption>(o), m, s);
        default: return std::make_unique<SinglePathMCPricer>(as<SinglePathOption>(o), m, s);
    }
}

std::vector<double> randPath(Rng& g, const Terms& t, int steps) {
    std::vector<double> p(steps);
    int style = (int)g.below(9); double S = 100, lvl = g.chance(0.5) ? t.K : t.B;
    if (!(lvl > 0)) lvl = 1;
    switch (style) {
        case 0: for (auto& x : p) { S *= std::exp(0.1 * g.normal()); x = S; } break;
        case 1: for (auto& x : p) x = g.chance(0.3) ? lvl : lvl * g.u(0.5, 1.5); break;                   // ties
        case 2: for (auto& x : p) x = lvl * g.u(0.2, 0.999); p[g.below(steps)] = g.chance(0.5) ? lvl : std::nextafter(lvl, INF); break;   // a single touch from below
        case 3: for (auto& x : p) x = lvl * g.u(1.001, 3.0); p[g.below(steps)] = g.chance(0.5) ? lvl : std::nextafter(lvl, 0.0); break;   // a single touch from above
        case 4: for (auto& x : p) x = lvl * g.u(0.2, 0.999); p[g.chance(0.5) ? 0 : steps - 1] = lvl * g.pickd({1.0, 1.5}); break;          // only first or last date
        case 5: for (auto& x : p) x = lvl * g.u(1.001, 3.0); p[g.chance(0.5) ? 0 : steps - 1] = lvl * g.pickd({1.0, 0.5}); break;
        case 6: { double k = g.u(1, 200); for (auto& x : p) x = k; break; }                               // constant
        case 7: { double k = g.logu(1e-12, 1e12); for (auto& x : p) x = k * g.u(0.8, 1.2); break; }        // any currency unit
        default: for (auto& x : p) x = g.logu(1e-4, 1e6);
    }
    return p;
}
Terms randTerms(Rng& g, const std::vector<Kind>& kinds, const std::string& tk) {
    Terms t; t.k = g.pick(kinds); t.call = g.chance(0.5); t.ticker = tk;
    t.T = g.chance(0.1) ? 0.0 : randT(g);
    t.K = g.chance(0.1) ? 0.0 : g.chance(0.3) ? 100.0 : g.u(20, 250);
    t.K2 = g.chance(0.1) ? t.K : t.K + g.u(0, 80);
    t.B = g.chance(0.15) ? t.K : g.u(20, 250); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
    return t;
}
struct Setup { std::shared_ptr<IMarketData> m; std::shared_ptr<FakeMarketData> fake; };
Setup market(Rng& g, const std::string& tk, double r, double S0) {
    md()->addStock(tk, S0, 0.2, 0.01);
    Setup s;
    if (g.chance(0.5)) { md()->setR(r); s.m = md(); }
    else {   // the singleton's rate differs: only the given market data counts
        md()->setR(r + 0.37); s.fake = std::make_shared<FakeMarketData>(r); s.fake->m[tk] = std::make_shared<const StockData>(S0, 0.2, 0.01); s.m = s.fake;
    }
    return s;
}
void setRate(Setup& s, double r) { s.m->setR(r); }

struct Ref { double price, scale; };
Ref reference(const Terms& t, const Paths& p, size_t first, size_t N, double r) {
    long double s = 0, a = 0;
    for (size_t i = 0; i < N; ++i) { long double x = pays(t, p[first + i]); s += x; a += x; for (double y : p[first + i]) a += 1e-5L * y / p[first + i].size(); }
    long double d = std::exp(-(long double)r * t.T) / N;
    return {(double)(s * d), (double)(a * d)};
}

void exactSection(const char* name, uint64_t n, const std::vector<Kind>& kinds) {
    run(name, n, [&](Case& c) {
        auto& g = c.rng;
        std::string tk = fmt("X%s", c.section.c_str());
        double r = randRate(g);
        auto s = market(g, tk, r, g.chance(0.5) ? 100.0 : g.u(10, 400));
        auto t = randTerms(g, kinds, tk);
        int steps = g.chance(0.2) ? 1 : g.chance(0.2) ? 2 : g.chance(0.08) ? g.range(100, 700) : g.chance(0.02) ? g.range(1000, 5000) : g.range(2, 20);
        c.desc("%s steps=%d r=%.17g", t.str().c_str(), steps, r);
        auto model = std::make_shared<ScriptedModel>(tk, s.m, (unsigned)steps);
        auto opt = make(t);
        bool b = g.chance(0.5);
        auto pricer = b ? viaBuilder(t.k, opt, s.m, model) : direct(t.k, opt, s.m, model);
        unsigned long N = g.chance(0.3) ? 1 : g.range(1, 30);
        std::unique_ptr<MCSolver> solver; MCPricer* raw = pricer.get();
        if (g.chance(0.5)) { solver = std::make_unique<MCSolver>(N); solver->setPricer(std::move(pricer)); }
        int solves = g.range(1, 4);
        for (int k = 0; k < solves; ++k) {
            if (k && g.chance(0.5)) { r = randRate(g); setRate(s, r); c.desc("r:=%.17g", r); }
            if (k && g.chance(0.6)) { N = g.range(1, 40); if (solver) solver->setN(N); }
            size_t first = model->next;
            if (model->paths.size() != first) { c.expect(false, "the pricer drew %zu paths, %zu were due", first, model->paths.size()); break; }
            for (unsigned long i = 0; i < N; ++i) {
                model->paths.push_back(randPath(g, t, steps));
                auto& p = model->paths.back();
                bool touched = false; for (double x : p) touched |= t.dir == BarrierDirection::Up ? x >= t.B : x <= t.B;
                count(touched ? "paths touching the barrier" : "paths not touching the barrier");
                for (double x : p) if (x == t.B) { count("paths with a price equal to the barrier"); break; }
                if (p.back() == t.K) count("paths ending at the strike");
            }
            auto want = reference(t, model->paths, first, N, r);
            double got = solver ? solver->solve() : raw->calculatePrice(N);
            c.close(got, want.price, 1e-10, want.scale, "solve %d N=%lu r=%.17g %s", k, N, r, t.str().c_str());
            c.expect(model->next == first + N, "solve %d used %zu paths instead of N=%lu", k, model->next - first, N);
            for (double T : model->asked) c.expect(T == t.T, "path simulated to %.17g instead of %.17g", T, t.T);
            model->asked.clear();
            count("prices compared"); count("paths observed", N);
        }
        count(b ? "via builder" : "direct pricer"); count(std::string("kind ") + kname(t.k) + (t.call ? " call" : " put"));
    });
}
void largeSection(const char* name, uint64_t n, const std::vector<Kind>& kinds, std::initializer_list<int> Ns, int maxSteps) {
    std::vector<int> nn(Ns);
    run(name, n, [&](Case& c) {
        auto& g = c.rng; std::string tk = "L" + c.section; double r = randRate(g);
        auto s = market(g, tk, r, 100.0); auto t = randTerms(g, kinds, tk); t.k = kinds[c.index % kinds.size()];
        int steps = g.range(1, maxSteps); unsigned long N = nn[c.index % nn.size()];
        uint64_t salt = g.u64(); int spike = (int)g.below(3); size_t at = spike == 0 ? N - 1 : spike == 1 ? 0 : g.below(N);
        c.desc("%s steps=%d N=%lu r=%.17g spike at %zu", t.str().c_str(), steps, N, r, at);
        auto f = [=](size_t i) { Rng h(salt + i * 77); std::vector<double> p(steps); for (auto& x : p) x = i >= N ? 1e250 : h.u(50, 160); if (i == at) p.back() = t.k == Kind::Digital || t.k == Kind::DoubleDigital ? t.K + 1e-9 : 3e7; return p; };
        auto model = std::make_shared<FnModel>(tk, s.m, (unsigned)steps, f);
        auto pr = viaBuilder(t.k, make(t), s.m, model);
        MCSolver sol; sol.setN(N); sol.setPricer(std::move(pr));
        long double sum = 0, a = 0; for (size_t i = 0; i < N; ++i) { auto x = pays(t, f(i)); sum += x; a += x + 1; }
        long double d = std::exp(-(long double)r * t.T) / N;
        c.close(sol.solve(), (double)(sum * d), 1e-10, (double)(a * d), "N=%lu", N);
        c.expect(model->next == N, "%zu paths used instead of %lu", model->next, N);
        count("paths observed", N); count("prices compared"); maxi("largest N", (double)N);
    }, 4);
}
// More paths than an int counts: the few beyond 2^31 pay so much that leaving them out shows.
struct BigModel final : StockModel {
    double low, high; mutable uint64_t next = 0;
    BigModel(const std::string& t, std::shared_ptr<IMarketData> m, double lo, double hi) : StockModel(t, std::move(m), std::make_shared<DimOnlyGenerator>(1)), low(lo), high(hi) {}
    double one() const { return next++ < (1ull << 31) ? low : high; }
    double simulatePriceAtMaturity(const double&) const override { return one(); }
    std::vector<double> simulatePrices(const double&) const override { return {one()}; }
};
void bigSection(const char* name, const std::vector<Kind>& kinds) {
    run(name, mon::st().thorough ? kinds.size() : 1, [&](Case& c) {
        auto& g = c.rng; std::string tk = "B" + c.section;
        auto s = market(g, tk, 0.0, 100.0); auto t = randTerms(g, kinds, tk); t.k = kinds[mon::st().thorough ? c.index % kinds.size() : g.below(kinds.size())];
        t.call = true; t.K = 8; t.dir = BarrierDirection::Up; t.B = t.k == Kind::KnockIn ? 10 : std::ldexp(1.0, 40); t.T = 1;
        const double lo = 12, hi = std::ldexp(1.0, 31) + 8; const unsigned long N = (1ul << 31) + 3 + g.below(7);
        c.desc("%s steps=1 N=%lu", t.str().c_str(), N);
        auto model = std::make_shared<BigModel>(tk, s.m, lo, hi);
        auto pr = viaBuilder(t.k, make(t), s.m, model);
        MCSolver sol; sol.setN(N); sol.setPricer(std::move(pr));
        long double want = ((long double)(1ul << 31) * pays(t, {lo}) + (long double)(N - (1ul << 31)) * pays(t, {hi})) / N;
        c.close(sol.solve(), (double)want, 1e-6, (double)want, "N=%lu", N);
        c.expect(model->next == N, "%llu paths used instead of %lu", (unsigned long long)model->next, N);
        count("paths observed", N); count("prices compared"); maxi("largest N", (double)N);
    }, 1);
}
double priceOn(const Terms& t, Setup& s, const Paths& p, Kind k) {
    Terms u = t; u.k = k;
    auto model = std::make_shared<ScriptedModel>(t.ticker, s.m, (unsigned)p[0].size()); model->paths = p;
    return direct(k, make(u), s.m, model)->calculatePrice(p.size());
}
void relations(const char* name, uint64_t n, const std::function<void(Case&, const Terms&, Setup&, Paths&, double)>& f, const std::vector<Kind>& kinds) {
    run(name, n, [&](Case& c) {
        auto& g = c.rng; std::string tk = "R" + c.section; double r = randRate(g);
        auto s = market(g, tk, r, g.u(20, 300)); auto t = randTerms(g, kinds, tk);
        int steps = g.chance(0.2) ? 1 : g.chance(0.02) ? g.range(500, 3000) : g.range(1, 25), N = g.range(1, 30);
        Paths p; for (int i = 0; i < N; ++i) p.push_back(randPath(g, t, steps));
        double scale = 0; for (auto& x : p) for (double y : x) scale = std::max(scale, y);
        scale = (scale + t.K) * std::exp(-r * t.T);
        c.desc("%s steps=%d N=%d r=%.17g", t.str().c_str(), steps, N, r);
        f(c, t, s, p, scale); count("relations checked");
    });
}

const std::vector<Kind> SP{Kind::European, Kind::Digital, Kind::DoubleDigital}, AS{Kind::ArithAsian, Kind::GeoAsian}, BA{Kind::KnockIn, Kind::KnockOut}, LB{Kind::FloatLB, Kind::FixedLB};

void c08() { exactSection("exact", 2500, SP); largeSection("large", 9, SP, {100000, 65537, 250001}, 2); largeSection("huge", 1, SP, {2100001}, 1); }
void c09() {
    exactSection("exact", 2500, AS); largeSection("large", 6, AS, {65537, 100001}, 4);
    relations("relations", 600, [](Case& c, const Terms& t, Setup& s, Paths& p, double scale) {
        double a = priceOn(t, s, p, Kind::ArithAsian), ge = priceOn(t, s, p, Kind::GeoAsian);
        c.expect(t.call ? ge <= a + 1e-10 * scale : a <= ge + 1e-10 * scale, "arithmetic %.17g geometric %.17g", a, ge);
        if (p[0].size() == 1) { double e = priceOn(t, s, p, Kind::European); c.close(a, e, 1e-10, scale, "one fixing arithmetic vs European"); c.close(ge, e, 1e-10, scale, "one fixing geometric vs European"); }
        double w = p[0].size();
        // fixings may come in any order
        Paths q = p; for (auto& x : q) std::reverse(x.begin(), x.end());
        c.close(priceOn(t, s, q, Kind::ArithAsian), a, 1e-10, scale, "reversed fixings (%g)", w);
        c.close(priceOn(t, s, q, Kind::GeoAsian), ge, 1e-10, scale, "reversed fixings (%g)", w);
    }, AS);
}
void c10() {
    exactSection("exact", 4000, BA); largeSection("large", 6, BA, {65537, 100001}, 4);
    relations("relations", 800, [](Case& c, const Terms& t, Setup& s, Paths& p, double scale) {
        double in = priceOn(t, s, p, Kind::KnockIn), out = priceOn(t, s, p, Kind::KnockOut), e = priceOn(t, s, p, Kind::European);
        c.close(in + out, e, 1e-10, scale, "knock-in %.17g + knock-out %.17g vs European", in, out);
        c.expect(in >= 0 && out >= 0, "negative barrier price");
        // the order of the paths is irrelevant
        Paths q(p.rbegin(), p.rend());
        c.close(priceOn(t, s, q, Kind::KnockIn), in, 1e-10, scale, "knock-in with paths reversed");
        c.close(priceOn(t, s, q, Kind::KnockOut), out, 1e-10, scale, "knock-out with paths reversed");
    }, BA);
}
void c11() {
    exactSection("exact", 3000, LB); largeSection("large", 6, LB, {65537, 100001}, 4);
    relations("relations", 600, [](Case& c, const Terms& t, Setup& s, Paths& p, double scale) {
        double fl = priceOn(t, s, p, Kind::FloatLB), fx = priceOn(t, s, p, Kind::FixedLB), e = priceOn(t, s, p, Kind::European);
        c.expect(fl >= 0, "floating strike lookback %.17g negative", fl);
        c.expect(fx >= e - 1e-10 * scale, "fixed strike lookback %.17g below European %.17g", fx, e);
        Paths q(p.rbegin(), p.rend());
        c.close(priceOn(t, s, q, Kind::FloatLB), fl, 1e-10, scale, "paths reversed");
        c.close(priceOn(t, s, q, Kind::FixedLB), fx, 1e-10, scale, "paths reversed");
    }, LB);
}
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11},
    {"C08big", [] { bigSection("beyond int", {Kind::European}); }}, {"C09big", [] { bigSection("beyond int", AS); }},
    {"C10big", [] { bigSection("beyond int", BA); }}, {"C11big", [] { bigSection("beyond int", LB); }}}); }
