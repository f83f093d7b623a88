// C05: what the factories build, register, reject and leave behind.
#include "fixtures.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t liveBytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t liveBytes() { return mallinfo2().uordblks; }
#endif

namespace {
const char* className(Kind k) {
    static const char* n[] = {"EuropeanOption", "DigitalOption", "DoubleDigitalOption", "AmericanOption", "ArithmeticAsianOption", "GeometricAsianOption",
                              "KnockInBarrierOption", "KnockOutBarrierOption", "FloatingStrikeLookbackOption", "FixedStrikeLookbackOption"};
    return n[(int)k];
}
bool hasKind(const Option& o, Kind k) {
    switch (k) {
        case Kind::European: return dynamic_cast<const EuropeanOption*>(&o);
        case Kind::Digital: return dynamic_cast<const DigitalOption*>(&o);
        case Kind::DoubleDigital: return dynamic_cast<const DoubleDigitalOption*>(&o);
        case Kind::American: return dynamic_cast<const AmericanOption*>(&o);
        case Kind::ArithAsian: return dynamic_cast<const ArithmeticAsianOption*>(&o);
        case Kind::GeoAsian: return dynamic_cast<const GeometricAsianOption*>(&o);
        case Kind::KnockIn: return dynamic_cast<const KnockInBarrierOption*>(&o);
        case Kind::KnockOut: return dynamic_cast<const KnockOutBarrierOption*>(&o);
        case Kind::FloatLB: return dynamic_cast<const FloatingStrikeLookbackOption*>(&o);
        default: return dynamic_cast<const FixedStrikeLookbackOption*>(&o);
    }
}
std::map<const Option*, int>& hits() { static std::map<const Option*, int> h; return h; }
int totalHits() { int s = 0; for (auto& [o, n] : hits()) s += n; return s; }

Terms randTerms(Rng& g, const std::string& tk) {
    Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk;
    t.T = g.chance(0.2) ? g.pickd({0.0, 5e-324, 1e-9, 100.0}) : randT(g);
    t.K = g.chance(0.2) ? g.pickd({0.0, 5e-324, 1e12}) : g.logu(0.01, 1e4);
    t.K2 = g.chance(0.2) ? g.pickd({0.0, 1e12, t.K}) : g.logu(0.01, 1e4);
    t.B = g.logu(0.01, 1e4); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
    return t;
}
void verify(Case& c, const Terms& t, const std::shared_ptr<Option>& o) {
    if (!c.expect(o != nullptr, "factory returned null")) return;
    c.expect(hasKind(*o, t.k), "factory for %s returned another class: %s", kname(t.k), o->getType().c_str());
    c.expect(o->getType().find(className(t.k)) != std::string::npos, "type name %s", o->getType().c_str());
    c.expect(o->getID() == t.ticker, "ticker %s instead of %s", o->getID().c_str(), t.ticker.c_str());
    c.expect(o->getT() == t.T, "maturity %.17g instead of %.17g", o->getT(), t.T);
    const Payoff& p = o->getPayoff();
    auto want = t.k == Kind::DoubleDigital ? PayoffType::DoubleDigital : t.call ? PayoffType::Call : PayoffType::Put;
    c.expect(p.getPayoffType() == want, "%s: payoff type", t.str().c_str());
    bool classOk;
    switch (t.k) {
        case Kind::Digital: classOk = dynamic_cast<const PayoffDigital*>(&p); break;
        case Kind::DoubleDigital: classOk = dynamic_cast<const PayoffDoubleDigital*>(&p); break;
        case Kind::FloatLB: classOk = dynamic_cast<const PayoffLookbackFloatingStrike*>(&p); break;
        default: classOk = dynamic_cast<const PayoffVanilla*>(&p);
    }
    c.expect(classOk, "%s: payoff class", t.str().c_str());
    if (auto* s = dynamic_cast<const PayoffSingleStrike*>(&p)) c.expect(s->getK() == t.K, "strike %.17g instead of %.17g", s->getK(), t.K);
    if (auto* d = dynamic_cast<const PayoffDoubleStrikes*>(&p)) c.expect(d->getKL() == t.K && d->getKU() == t.K2, "strikes %.17g,%.17g instead of %.17g,%.17g", d->getKL(), d->getKU(), t.K, t.K2);
    if (t.k == Kind::KnockIn || t.k == Kind::KnockOut) {
        auto* b = dynamic_cast<const BarrierOption*>(o.get());
        for (double S : {t.B, std::nextafter(t.B, INF), std::nextafter(t.B, 0.0), t.B * 2, t.B / 2}) {
            bool beyond = t.dir == BarrierDirection::Up ? S >= t.B : S <= t.B;
            c.expect(b->isActive(S) == (t.k == Kind::KnockIn ? beyond : !beyond), "%s: isActive(%.17g)", t.str().c_str(), S);
        }
    }
}
std::vector<std::string> required(Kind k) {
    std::vector<std::string> v{"ticker", "T"};
    if (k == Kind::DoubleDigital) { v.push_back("K1"); v.push_back("K2"); }
    else if (k != Kind::FloatLB) v.push_back("K");
    if (k == Kind::KnockIn || k == Kind::KnockOut) { v.push_back("B"); v.push_back("direction"); }
    return v;
}
// the parameters of t, with one required parameter left out, mistyped or invalid
ParameterObject spoiled(Rng& g, const Terms& t, std::string& how) {
    auto req = required(t.k); std::string victim = g.pick(req);
    ParameterObject p, full = params(t);
    int mode = (int)g.below(3);
    bool numeric = victim == "T" || victim[0] == 'K';
    if (mode == 2 && !numeric && victim != "ticker") mode = (int)g.below(2);
    for (auto& n : req) {
        if (n == victim) continue;
        if (n == "ticker") p.setParameter(n, full.getParameter<std::string>(n));
        else if (n == "direction") p.setParameter(n, full.getParameter<BarrierDirection>(n));
        else p.setParameter(n, full.getParameter<double>(n));
    }
    if (mode == 0) how = "missing " + victim;
    else if (mode == 1) {
        how = "mistyped " + victim;
        if (victim == "ticker") { if (g.chance(0.5)) p.setParameter(victim, 1.0); else p.setParameter(victim, 7); }
        else if (victim == "direction") { if (g.chance(0.5)) p.setParameter(victim, 1); else p.setParameter(victim, std::string("Up")); }
        else switch (g.below(3)) { case 0: p.setParameter(victim, 100); break; case 1: p.setParameter(victim, std::string("100")); break; default: p.setParameter(victim, BarrierDirection::Up); }
    } else if (victim == "ticker") { how = "unknown ticker"; p.setParameter(victim, std::string("unknown ") + t.ticker); }
    else { double x = g.chance(0.3) ? QNAN : g.pickd({-5e-324, -1e-12, -1.0, -1e300, -0.5}); how = "invalid " + victim + " = " + mon::hx(x); p.setParameter(victim, x); }
    return p;
}

void c05() {
    onOptionUpdate() = [](const Option* o) { hits()[o]++; };
    md()->addStock("FA", 100.0, 0.2); md()->addStock("FB", 50.0, 0.3, 0.02); md()->addStock("FAX", 10.0, 0.1);
    const std::vector<std::string> tks{"FA", "FB", "FAX"};
    run("created", 1500, [&](Case& c) {
        auto& g = c.rng;
        std::vector<std::pair<Terms, std::shared_ptr<Option>>> v;
        int n = g.range(1, 8);
        for (int i = 0; i < n; ++i) {
            auto t = randTerms(g, g.pick(tks));
            if (i && g.chance(0.3)) { t = v.back().first; t.call = !t.call; }
            c.desc("[%s]", t.str().c_str());
            hits().clear();
            auto o = make(t);
            c.expect(hits().empty(), "creating an option notified options");
            verify(c, t, o); v.push_back({t, o}); count("options created");
        }
        // registered exactly once with its own ticker
        for (auto& tk : tks) {
            hits().clear();
            md()->updateStockPrice(tk, g.u(10, 200));
            for (auto& [t, o] : v) c.expect(hits()[o.get()] == (t.ticker == tk ? 1 : 0), "an update of %s called %s %d times", tk.c_str(), t.str().c_str(), hits()[o.get()]);
        }
        hits().clear(); md()->setR(g.u(0.0, 0.1));
        for (auto& [t, o] : v) c.expect(hits()[o.get()] == 1, "a rate change called %s %d times", t.str().c_str(), hits()[o.get()]);
        c.expect(totalHits() == (int)v.size(), "%d notifications for %zu live options", totalHits(), v.size());
        for (auto& [t, o] : v) { verify(c, t, o); c.expect(o.use_count() == 1, "the factory keeps a reference: use_count %ld", o.use_count()); }
        // destroyed in random order, the rest stays registered
        while (!v.empty()) {
            size_t k = g.below(v.size()); std::weak_ptr<Option> wk = v[k].second;
            v.erase(v.begin() + k);
            c.expect(wk.expired(), "a released option is still alive");
            if (g.chance(0.3)) { hits().clear(); md()->setR(g.u(0.0, 0.1)); c.expect(totalHits() == (int)v.size(), "%d notifications for %zu live options", totalHits(), v.size()); for (auto& [t, o] : v) c.expect(hits()[o.get()] == 1, "a surviving option was called %d times", hits()[o.get()]); }
        }
    });
    run("rejected", 2500, [&](Case& c) {
        auto& g = c.rng; auto t = randTerms(g, g.pick(tks)); std::string how;
        auto p = spoiled(g, t, how);
        c.desc("%s with %s", t.str().c_str(), how.c_str());
        c.throws<std::invalid_argument>([&] { (void)makeFrom(t.k, t.call, p); }, "%s %s with %s", kname(t.k), t.call ? "call" : "put", how.c_str());
        hits().clear(); md()->setR(g.u(0.0, 0.1));
        c.expect(totalHits() == 0, "a rejected option is registered (%s)", how.c_str());
        count("rejected creations");
    });
    run("memory", 30, [&](Case& c) {
        auto& g = c.rng; int mode = (int)g.below(3); auto t = randTerms(g, g.pick(tks)); if (c.index < 10) { t.k = ALL_KINDS[c.index]; mode = 0; }
        c.desc("mode %d %s", mode, t.str().c_str());
        std::vector<std::shared_ptr<Option>> keep; for (int i = 0; i < 5; ++i) keep.push_back(make(t));
        Rng h = g;
        auto cycle = [&] {
            if (mode == 0) { auto o = make(t); o.reset(); }
            else if (mode == 1) { std::string how; auto p = spoiled(h, t, how); try { (void)makeFrom(t.k, t.call, p); } catch (const std::invalid_argument&) {} }
            else { std::vector<std::shared_ptr<Option>> v; for (int i = 0; i < 6; ++i) v.push_back(make(randTerms(h, h.pick(tks)))); while (!v.empty()) v.erase(v.begin() + h.below(v.size())); }
        };
        for (int i = 0; i < 50; ++i) cycle();
        size_t before = liveBytes();
        int cycles = 4000; for (int i = 0; i < cycles; ++i) cycle();
        size_t after = liveBytes();
        count("create/destroy cycles", 4050); maxi("largest growth in bytes over 4000 cycles", (double)((long)after - (long)before));
        // without the registrations removed every cycle would keep at least a control block
        c.expect((long)after - (long)before < cycles * 12, "live memory grew by %ld bytes over 4000 create/destroy cycles", (long)after - (long)before);
    });
}
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C05", c05}}); }
