// C03 (validity and atomicity of market data) and C04 (exactly-once notification).
#include "fixtures.h"

namespace {
struct Row { double S, v; Opt c; };
struct World { std::map<std::string, Row> rows; double r = 0.05; };
World& world() { static World w; return w; }

std::string show(const Row& x) { return fmt("(%.17g,%.17g,%s)", x.S, x.v, x.c ? mon::hx(*x.c).c_str() : "-"); }
bool same(const Row& a, double S, double v, Opt c) { return a.S == S && a.v == v && a.c.has_value() == c.has_value() && (!a.c || *a.c == *c); }

double goodS(Rng& g) { return g.chance(0.3) ? g.pickd({5e-324, 1e-300, 1.0, 100.0, 1e300, 1e-8}) : g.logu(1e-3, 1e5); }
double goodV(Rng& g) { return g.chance(0.3) ? g.pickd({0.0, -0.0, 5e-324, 1.0, 25.0, 1e-8}) : g.u(0, 2); }
Opt goodC(Rng& g) { if (g.chance(0.25)) return std::nullopt; return g.chance(0.4) ? g.pickd({0.0, -0.0, 1.0, 5e-324, std::nextafter(1.0, 0.0)}) : g.u(0, 1); }
double badS(Rng& g) { return g.chance(0.3) ? g.pickd({0.0, -0.0, -5e-324, -INF, QNAN, -QNAN}) : -g.logu(1e-12, 1e6); }
double badV(Rng& g) { return g.chance(0.4) ? g.pickd({-5e-324, -1e-300, -INF, QNAN, -QNAN}) : -g.logu(1e-12, 1e6); }
double badC(Rng& g) { return g.chance(0.5) ? g.pickd({-5e-324, std::nextafter(1.0, 2.0), INF, -INF, QNAN, -1e-12, 1.0000001, 100.0}) : (g.chance(0.5) ? -g.logu(1e-9, 10) : 1 + g.logu(1e-9, 10)); }

struct CountObs final : MarketDataObserver {
    int n = 0;
    using MarketDataObserver::MarketDataObserver;
    void update() override { ++n; }
};

std::vector<std::string> names(Rng& g, const std::string& tag) {
    std::vector<std::string> v;
    int n = g.range(1, 9);
    for (int i = 0; i < n; ++i) {
        std::string base = tag + std::to_string(i);
        switch (g.below(7)) {
            case 0: base = v.empty() ? base : v.back() + "."; break;                 // a prefix of another
            case 1: base += std::string(200, 'x'); break;
            case 2: base += std::string("\0z", 2); break;
            case 3: base = " " + base; break;
            case 4: { std::string l = base; for (auto& ch : l) ch = (char)tolower(ch); base = l; break; }
            default:;
        }
        if (std::find(v.begin(), v.end(), base) == v.end()) v.push_back(base);
    }
    return v;
}

void c03() {
    world().r = md()->getR();
    run("histories", 700, [](Case& c) {
        auto& g = c.rng; auto& w = world();
        std::string tag = fmt("M%llu_", (unsigned long long)c.index);
        auto tk = names(g, tag);
        if (c.index == 3) tk.push_back("");
        std::set<std::string> mine;
        std::map<std::string, std::shared_ptr<const StockData>> held;   // obtained earlier, must follow updates
        std::vector<std::shared_ptr<CountObs>> obs;
        for (auto& t : tk) { auto o = std::make_shared<CountObs>(t); md()->addObserver(o); obs.push_back(o); }
        auto total = [&] { int s = 0; for (auto& o : obs) s += o->n; return s; };
        auto readback = [&](const char* after) {
            for (auto& t : tk) {
                auto it = w.rows.find(t);
                if (it == w.rows.end()) { c.throws<std::invalid_argument>([&] { (void)md()->getStockData(t); }, "ticker never added is readable after %s", after); continue; }
                auto sd = md()->getStockData(t);
                c.expect(same(it->second, sd->getPrice(), sd->getSigma(), sd->getCoupon()), "after %s ticker %s reads (%.17g,%.17g,%s) expected %s", after, t.c_str(), sd->getPrice(), sd->getSigma(), sd->getCoupon() ? mon::hx(*sd->getCoupon()).c_str() : "-", show(it->second).c_str());
                c.expect(sd->getPrice() > 0 && sd->getSigma() >= 0 && (!sd->getCoupon() || (*sd->getCoupon() >= 0 && *sd->getCoupon() <= 1)), "invalid stock data readable after %s", after);
                if (auto h = held.find(t); h != held.end())
                    c.expect(same(it->second, h->second->getPrice(), h->second->getSigma(), h->second->getCoupon()), "stock data obtained before %s reads (%.17g,%.17g) expected %s", after, h->second->getPrice(), h->second->getSigma(), show(it->second).c_str());
            }
            c.expect(md()->getR() == w.r, "after %s rate reads %.17g expected %.17g", after, md()->getR(), w.r);
        };
        int ops = g.range(10, 60);
        for (int k = 0; k < ops; ++k) {
            const std::string& t = g.pick(tk);
            bool known = w.rows.count(t);
            int before = total();
            std::string what;
            switch (g.below(9)) {
                case 0: case 1: {   // add or replace
                    if (known && g.chance(0.8)) break;
                    Row r{goodS(g), goodV(g), goodC(g)}; what = "addStock " + show(r);
                    if (r.c || g.chance(0.5)) md()->addStock(t, r.S, r.v, r.c); else md()->addStock(t, r.S, r.v);
                    w.rows[t] = r; held.erase(t); held[t] = md()->getStockData(t); mine.insert(t); count("adds");
                    break; }
                case 2: {   // rejected add, known or not
                    Row r{goodS(g), goodV(g), goodC(g)};
                    switch (g.below(3)) { case 0: r.S = badS(g); break; case 1: r.v = badV(g); break; default: r.c = badC(g); }
                    what = "rejected addStock " + show(r);
                    c.throws<std::invalid_argument>([&] { md()->addStock(t, r.S, r.v, r.c); }, "%s on %s", what.c_str(), t.c_str());
                    c.expect(total() == before, "%s notified observers", what.c_str()); count("rejected adds");
                    break; }
                case 3: { double x = goodS(g); what = fmt("updateStockPrice %.17g", x);
                    if (known) { md()->updateStockPrice(t, x); w.rows[t].S = x; count("updates"); }
                    else { c.throws<std::invalid_argument>([&] { md()->updateStockPrice(t, x); }, "update of unknown ticker"); c.expect(total() == before, "failed update notified"); count("unknown ticker updates"); }
                    break; }
                case 4: { double x = goodV(g); what = fmt("updateStockSigma %.17g", x);
                    if (known) { md()->updateStockSigma(t, x); w.rows[t].v = x; count("updates"); }
                    else { c.throws<std::invalid_argument>([&] { md()->updateStockSigma(t, x); }, "update of unknown ticker"); c.expect(total() == before, "failed update notified"); count("unknown ticker updates"); }
                    break; }
                case 5: { Opt x = goodC(g); what = fmt("updateStockCoupon %s", x ? mon::hx(*x).c_str() : "-");
                    if (known) { md()->updateStockCoupon(t, x); w.rows[t].c = x; count("updates"); }
                    else { c.throws<std::invalid_argument>([&] { md()->updateStockCoupon(t, x); }, "update of unknown ticker"); c.expect(total() == before, "failed update notified"); count("unknown ticker updates"); }
                    break; }
                case 6: case 7: {   // rejected updates
                    int f = (int)g.below(3);
                    double x = f == 0 ? badS(g) : f == 1 ? badV(g) : badC(g);
                    what = fmt("rejected update field %d value %.17g known=%d", f, x, known);
                    c.throws<std::invalid_argument>([&] { if (f == 0) md()->updateStockPrice(t, x); else if (f == 1) md()->updateStockSigma(t, x); else md()->updateStockCoupon(t, Opt(x)); }, "%s", what.c_str());
                    c.expect(total() == before, "%s notified observers", what.c_str()); count("rejected updates");
                    break; }
                default: { double x = g.chance(0.3) ? g.pickd({0.0, -0.05, 1e-12, -1.0, 3.0}) : g.u(-0.2, 0.5); what = fmt("setR %.17g", x); md()->setR(x); w.r = x; count("rate changes"); }
            }
            if (what.empty()) continue;
            c.desc("%s[%s]", what.c_str(), t.substr(0, 12).c_str());
            readback(what.c_str());
        }
        // nothing done here touched tickers of earlier histories
        int n = 0;
        for (auto it = w.rows.lower_bound(g.chance(0.5) ? "M" : ""); it != w.rows.end() && n < 40; ++it, ++n) {
            auto sd = md()->getStockData(it->first);
            c.expect(same(it->second, sd->getPrice(), sd->getSigma(), sd->getCoupon()), "unrelated ticker %s changed", it->first.c_str());
        }
        count("state readbacks", ops);
    });
    run("fullscan", 1, [](Case& c) {
        c.desc("%zu tickers", world().rows.size()); count("tickers alive at the end", world().rows.size());
        for (auto& [t, r] : world().rows) { auto sd = md()->getStockData(t); c.expect(same(r, sd->getPrice(), sd->getSigma(), sd->getCoupon()), "ticker %s changed", t.c_str()); }
    });
}

// ---------------------------------------------------------------- C04
struct Obs;
struct Log { std::map<int, int> hits; std::set<int> alive, touched; std::vector<std::string> errors; };
Log* L = nullptr;
struct Obs final : MarketDataObserver {
    int uid; std::function<void(int)> act; double canary = 42;
    Obs(const std::string& id, int u) : MarketDataObserver(id), uid(u) {}
    ~Obs() override { if (L) L->alive.erase(uid); canary = 0; }
    void update() override {
        if (canary != 42) abort();
        if (!L) return;
        L->hits[uid]++;
        if (!L->alive.count(uid)) L->errors.push_back(fmt("observer %d notified after its destruction", uid));
        if (act) { auto f = act; f(uid); }
    }
};

struct Sim {
    Case& c; Rng& g; Log log;
    std::vector<std::string> tk; std::map<std::string, Row> rows;
    std::map<int, std::shared_ptr<Obs>> obs; std::map<int, std::string> idOf;
    std::map<int, std::shared_ptr<Option>> opts; std::map<const Option*, int> optId;
    int nextId = 1; double r;
    std::map<std::string, int> nested; int nestedR = 0;   // extra notifications caused by callbacks
    explicit Sim(Case& cc) : c(cc), g(cc.rng) {
        L = &log; r = md()->getR();
        int n = g.range(1, 4);
        const std::string base = fmt("N%s%llu_", c.section.substr(0, 2).c_str(), (unsigned long long)c.index);
        for (int i = 0; i < n; ++i) {
            std::string t = base + std::to_string(i);
            if (i > 0) { const std::string& o = g.pick(tk); switch (g.below(8)) {   // names that resemble each other
                case 0: t = o + "L"; break; case 1: t = "A" + o; break; case 2: t = o; for (auto& ch : t) ch = (char)tolower(ch); break;
                case 3: t = o + " "; break; case 4: t = o + std::string("\0b", 2); break; case 5: t = o + std::string(100, 'x'); break; default:; } }
            if (rows.count(t)) t = base + std::to_string(i);
            tk.push_back(t); rows[tk[i]] = {100.0 + i, 0.2, std::nullopt}; md()->addStock(tk[i], rows[tk[i]].S, 0.2); }
        onOptionUpdate() = [this](const Option* o) {
            auto it = optId.find(o);
            if (it == optId.end()) return;             // an option of an earlier case
            log.hits[it->second]++;
            if (!log.alive.count(it->second)) log.errors.push_back("option notified after its destruction");
            checkVisible();
        };
    }
    ~Sim() { onOptionUpdate() = nullptr; L = nullptr; obs.clear(); opts.clear(); md()->removeObserver(); }
    void checkVisible() {   // during a notification the new value is readable everywhere
        for (auto& [t, x] : rows) { auto sd = md()->getStockData(t); if (!same(x, sd->getPrice(), sd->getSigma(), sd->getCoupon())) log.errors.push_back(fmt("during a notification %s still reads (%.17g,%.17g)", t.c_str(), sd->getPrice(), sd->getSigma())); }
        if (md()->getR() != r) log.errors.push_back("during a notification the rate is not the new one");
        count("in-notification reads");
    }
    int addObs() {
        int id = nextId++; std::string t = g.chance(0.1) ? "unlisted" + std::to_string(g.below(3)) : g.pick(tk);
        auto o = std::make_shared<Obs>(t, id); o->act = [this](int) { checkVisible(); };
        idOf[id] = t; obs[id] = o; log.alive.insert(id); log.touched.insert(id); md()->addObserver(o); count("observers registered"); return id;
    }
    int addOpt() {
        int id = nextId++; Terms t; t.k = g.pick(ALL_KINDS); t.ticker = g.pick(tk); t.call = g.chance(0.5);
        auto o = make(t); idOf[id] = t.ticker; opts[id] = o; optId[o.get()] = id; log.alive.insert(id); log.touched.insert(id); count("options registered"); return id;
    }
    void killObs(int id) { log.touched.insert(id); auto p = obs[id]; obs.erase(id); p.reset(); count("observers destroyed"); }
    void killOpt(int id) { log.touched.insert(id); auto p = opts[id]; opts.erase(id); optId.erase(p.get()); log.alive.erase(id); p.reset(); count("options destroyed"); }
    int anyObs() { if (obs.empty()) return 0; auto it = obs.begin(); std::advance(it, g.below(obs.size())); return it->first; }
    int anyOpt() { if (opts.empty()) return 0; auto it = opts.begin(); std::advance(it, g.below(opts.size())); return it->first; }

    // perform a change and check who was called
    void change(const std::string& what, const std::string& ticker, bool all, const std::function<void()>& f, bool fails = false) {
        auto aliveBefore = log.alive; log.hits.clear(); log.touched.clear(); nested.clear();
        c.desc("%s", what.c_str());
        if (fails) c.throws<std::invalid_argument>(f, "%s", what.c_str()); else f();
        for (auto& e : log.errors) c.fail(e + " during " + what);
        log.errors.clear();
        for (int id : aliveBefore) {
            int want = fails ? 0 : (all || idOf[id] == ticker) ? 1 : 0;
            if (auto it = nested.find(idOf[id]); it != nested.end()) want += it->second;
            int got = log.hits.count(id) ? log.hits[id] : 0;
            if (log.touched.count(id)) c.expect(got <= want, "%s: observer %d (destroyed meanwhile) of %s called %d times, at most %d expected", what.c_str(), id, idOf[id].c_str(), got, want);
            else c.expect(got == want, "%s: observer %d of %s called %d times, expected %d", what.c_str(), id, idOf[id].c_str(), got, want);
            count("expected notifications", want);
        }
        for (auto& [id, n] : log.hits) if (!aliveBefore.count(id)) {
            int cap = (all || idOf[id] == ticker ? 1 : 0) + (nested.count(idOf[id]) ? nested[idOf[id]] : 0);
            c.expect(n <= cap, "%s: observer %d registered during the notification called %d times", what.c_str(), id, n);
        }
        count("changes observed");
    }
    void randomChange() {
        const std::string t = g.pick(tk);
        switch (g.below(9)) {
            case 0: { double x = goodS(g); change("price of " + t, t, false, [&] { rows[t].S = x; md()->updateStockPrice(t, x); }); break; }
            case 1: { double x = goodV(g); change("sigma of " + t, t, false, [&] { rows[t].v = x; md()->updateStockSigma(t, x); }); break; }
            case 2: { Opt x = goodC(g); change("coupon of " + t, t, false, [&] { rows[t].c = x; md()->updateStockCoupon(t, x); }); break; }
            case 3: { double x = r + g.u(0.001, 0.01); if (x > 0.3) x = -0.1; change("rate", "", true, [&] { r = x; md()->setR(x); }); break; }
            case 4: change("notifyObserver(" + t + ")", t, false, [&] { md()->notifyObserver(t); }); break;
            case 5: change("notifyObservers()", "", true, [&] { md()->notifyObservers(); }); break;
            case 6: { int f = (int)g.below(3); double x = f == 0 ? badS(g) : f == 1 ? badV(g) : badC(g);
                change(fmt("rejected update %d of %s", f, t.c_str()), t, false, [&] { if (f == 0) md()->updateStockPrice(t, x); else if (f == 1) md()->updateStockSigma(t, x); else md()->updateStockCoupon(t, Opt(x)); }, true); break; }
            case 7: change("price of an unknown ticker", "", false, [&] { md()->updateStockPrice("no such ticker", 1.0); }, true); break;
            default: { double x = rows[t].S; change("price of " + t + " to the same value", t, false, [&] { md()->updateStockPrice(t, x); }); }
        }
    }
};

void c04() {
    run("histories", 500, [](Case& c) {
        Sim s(c); auto& g = c.rng;
        int start = g.chance(0.1) ? 60 : g.range(0, 12);
        for (int i = 0; i < start; ++i) g.chance(0.5) ? s.addObs() : s.addOpt();
        int ops = g.range(15, 70);
        for (int k = 0; k < ops; ++k) {
            switch (g.below(8)) {
                case 0: s.addObs(); break;
                case 1: s.addOpt(); break;
                case 2: if (int id = s.anyObs()) { s.killObs(id); if (g.chance(0.3)) { md()->removeObserver(); count("purges"); } } break;
                case 3: if (int id = s.anyOpt()) s.killOpt(id); break;
                case 4: if (g.chance(0.3)) { md()->removeObserver(); count("purges"); } break;
                default: s.randomChange();
            }
        }
        // every survivor is still reachable
        for (auto& t : s.tk) { double x = goodS(g); s.change("final price of " + t, t, false, [&] { s.rows[t].S = x; md()->updateStockPrice(t, x); }); }
    });
    run("crowd", 3, [](Case& c) {   // thousands of observers
        Sim s(c); auto& g = c.rng; int n = g.range(1100, 3000); c.desc("%d observers", n);
        for (int i = 0; i < n; ++i) g.chance(0.7) ? s.addObs() : s.addOpt();
        for (int k = 0; k < 3; ++k) { s.randomChange(); int kill = g.range(1, 200); for (int i = 0; i < kill; ++i) { if (int id = s.anyObs()) s.killObs(id); if (int id = s.anyOpt()) s.killOpt(id); } if (g.chance(0.5)) md()->removeObserver(); }
        double x = s.r + 0.004; s.change("rate", "", true, [&] { s.r = x; md()->setR(x); });
        for (auto& t : s.tk) { double y = goodS(g); s.change("final price of " + t, t, false, [&] { s.rows[t].S = y; md()->updateStockPrice(t, y); }); }
        count("crowds"); maxi("observers in one history", n);
    });
    run("reentrant", 500, [](Case& c) {
        Sim s(c); auto& g = c.rng;
        int n = g.range(2, 20);
        for (int i = 0; i < n; ++i) g.chance(0.6) ? s.addObs() : s.addOpt();
        int rounds = g.range(2, 8);
        for (int k = 0; k < rounds; ++k) {
            // one or two observers act during the notification
            int actors = g.range(1, 2);
            std::vector<std::pair<std::weak_ptr<Obs>, std::function<void(int)>>> saved;
            for (int a = 0; a < actors; ++a) {
                int id = s.anyObs(); if (!id) continue;
                auto o = s.obs[id]; saved.push_back({o, o->act});
                auto base = o->act; int what = (int)g.below(9); if (what > 5) what = 4;
                c.desc("actor %d does %d:", id, what);
                auto done = std::make_shared<bool>(false);
                o->act = [&s, &g, base, what, done](int self) {
                    base(self);
                    if (*done) return;
                    *done = true; count("re-entrant actions");
                    switch (what) {
                        case 0: { int m = s.g.range(1, 40); for (int i = 0; i < m; ++i) s.addObs(); break; }
                        case 1: { int m = s.g.range(1, 6); for (int i = 0; i < m; ++i) s.addOpt(); break; }
                        case 2: { int m = s.g.range(1, 4); for (int i = 0; i < m; ++i) if (int v = s.anyOpt()) s.killOpt(v); break; }
                        case 3: { int m = s.g.range(1, 4); for (int i = 0; i < m; ++i) if (int v = s.anyObs()) s.killObs(v); break; }
                        case 4: { const std::string t = s.g.pick(s.tk); if (t == s.idOf[self]) break;
                            double x = goodS(s.g); s.rows[t].S = x; s.nested[t]++; md()->updateStockPrice(t, x); count("nested updates"); break; }
                        default: md()->removeObserver(); count("purges");
                    }
                };
            }
            s.randomChange();
            for (auto& [o, f] : saved) if (auto p = o.lock()) p->act = f;
        }
        for (auto& t : s.tk) { double x = goodS(g); s.change("final price of " + t, t, false, [&] { s.rows[t].S = x; md()->updateStockPrice(t, x); }); }
    });
}
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C03", c03}, {"C04", c04}}); }
