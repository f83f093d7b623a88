// Monitors for number generators and distributions: C19 reproducibility, C20 laws,
// C21 inverse normal, C22 low-discrepancy points.
#include "stats.h"
#include "random/distribution/normal_distrib.h"
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/constants/constants.hpp>
#include <array>

using GenP = std::shared_ptr<NumberGenerator>;
using DistP = std::shared_ptr<Distribution>;
enum GenType { PRNG, SOBOL, FAURE };
static const char* gname(int t) { static const char* n[] = {"prng", "sobol", "faure"}; return n[t]; }
static GenP gen(int t, unsigned dim, unsigned seed) {
    if (t == PRNG) return std::make_shared<PseudoRandomNumberGenerator>(dim, seed);
    if (t == SOBOL) return std::make_shared<SobolGenerator>(dim, seed);
    return std::make_shared<FaureGenerator>(dim, seed);
}
static GenP genUnseeded(int t, unsigned dim) {
    if (t == PRNG) return std::make_shared<PseudoRandomNumberGenerator>(dim);
    if (t == SOBOL) return std::make_shared<SobolGenerator>(dim);
    return std::make_shared<FaureGenerator>(dim);
}
struct Identity final : Distribution {   // hands the quasi random uniform through
    double inv_cdf(const double& q) const override { return q; }
    double operator()(std::mt19937& g) const override { return std::uniform_real_distribution<>(0, 1)(g); }
};
static DistP dist(int k) {
    switch (k) {
        case 0: return std::make_shared<StandardNormalDistribution>();
        case 1: return std::make_shared<NormalDistribution>(0.3, 2.0);
        case 2: return std::make_shared<ContinuousUniformDistribution>(-1.0, 3.0);
        case 3: return std::make_shared<ExponentialDistribution>(1.7);
        case 4: return std::make_shared<GammaDistribution>(0.7, 2.0);
        default: return std::make_shared<PoissonDistribution>(3.3);
    }
}
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static unsigned randSeed(Rng& g) { return g.chance(0.4) ? std::array<unsigned, 10>{0u, 1u, 2u, 42u, 1000u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu}[g.below(10)] : g.chance(0.5) ? (unsigned)g.below(100000) : (unsigned)g.u64(); }
static uint64_t digest(int t, unsigned dim, unsigned seed, int k, int n) {
    auto g = gen(t, dim, seed); auto d = dist(k); uint64_t h = 0;
    for (int i = 0; i < n; ++i) h = h * 0x100000001b3ull + bits((*g)(*d));
    return h;
}

static void c19() {
    run("sequence", 700, [](Case& c) {
        auto& g = c.rng;
        int t = (int)g.below(3), k = t == PRNG ? (int)g.below(6) : 0, n = g.range(1, 300);
        unsigned dim = g.chance(0.3) ? 1 : (unsigned)g.range(1, 60), seed = randSeed(g);
        c.desc("%s dim=%u seed=%u dist=%d n=%d", gname(t), dim, seed, k, n);
        auto a = gen(t, dim, seed); auto da = dist(k);
        c.expect(a->getDim() == dim, "getDim returned %u", a->getDim());
        std::vector<double> want(n);
        for (auto& x : want) x = (*a)(*da);
        c.expect(a->getDim() == dim, "getDim changed to %u after drawing", a->getDim());
        // again, with other generators created, used and destroyed in between
        auto b = gen(t, dim, seed); auto db = dist(k);
        std::vector<GenP> others; std::vector<DistP> od;
        auto newOther = [&] {
            int ot = (int)g.below(3); unsigned odim = g.chance(0.4) ? dim : (unsigned)g.range(1, 20);
            others.push_back(g.chance(0.3) ? genUnseeded(ot, odim) : gen(ot, odim, g.chance(0.3) ? seed : randSeed(g)));
            od.push_back(dist(ot == PRNG ? (int)g.below(6) : 0));
        };
        for (int i = 0; i < 3; ++i) newOther();
        uint64_t inter = 0; int bad = -1;
        for (int i = 0; i < n; ++i) {
            while (g.chance(0.5)) {
                if (g.chance(0.03)) newOther();
                if (g.chance(0.02) && others.size() > 1) { size_t j = g.below(others.size()); others.erase(others.begin() + j); od.erase(od.begin() + j); }
                size_t j = g.below(others.size()); (void)(*others[j])(*od[j]); ++inter;
            }
            double x = (*b)(*db);
            if (bits(x) != bits(want[i]) && bad < 0) bad = i;
        }
        count("interleaved_draws", inter); count("compared_draws", n);
        c.expect(bad < 0, "draw %d differs from the first time this seed was used", bad);
        // several distributions through one generator: the sequence is a function of the calls made
        if (t == PRNG) {
            auto s1 = gen(t, dim, seed), s2 = gen(t, dim, seed); std::vector<DistP> d1, d2; for (int i = 0; i < 6; ++i) { d1.push_back(dist(i)); d2.push_back(dist(i)); }
            bool same = true; for (int i = 0; i < 60; ++i) { int j = (int)g.below(6); same &= bits((*s1)(*d1[j])) == bits((*s2)(*d2[j])); }
            c.expect(same, "two generators with this seed differ when drawing the same mix of distributions");
        }
    });
    run("seeds-differ", 900, [](Case& c) {
        auto& g = c.rng;
        int t = (int)g.below(3); unsigned dim = g.chance(0.4) ? 1 : (unsigned)g.range(1, 40), s = randSeed(g), s2;
        switch (g.below(5)) { case 0: s2 = s + 1; break; case 1: s2 = s ^ (1u << g.below(32)); break; case 2: s2 = s + 65536u * (unsigned)g.range(1, 60000); break; case 3: s2 = ~s; break; default: s2 = randSeed(g); }
        if (s2 == s) s2 = s ^ 1u;
        c.desc("%s dim=%u seeds %u %u", gname(t), dim, s, s2);
        auto a = gen(t, dim, s), b = gen(t, dim, s2); Identity id; int n = 4 * (int)dim + 60; bool same = true;
        for (int i = 0; i < n; ++i) same &= (*a)(id) == (*b)(id);
        c.expect(!same, "%d draws are identical for both seeds", n);
    });
    // long runs, several million draws: two generators of one seed stay in step to the end
    run("long", 6, [](Case& c) {
        auto& g = c.rng; int t = c.index < 3 ? PRNG : c.index < 5 ? SOBOL : FAURE, k = t == PRNG ? (int[]){2, 0, 4}[c.index] : 0; unsigned dim = (unsigned)g.range(1, 300), seed = randSeed(g); size_t n = (size_t)g.range(1100000, t == PRNG ? 2600000 : 1500000);
        c.desc("%s dim=%u seed=%u dist=%d n=%zu", gname(t), dim, seed, k, n); auto a = gen(t, dim, seed), b = gen(t, dim, seed); auto da = dist(k), db = dist(k); size_t bad = 0, first = 0;
        for (size_t i = 0; i < n; ++i) if (bits((*a)(*da)) != bits((*b)(*db)) && !bad++) first = i;
        c.expect(!bad, "%zu of %zu draws differ between two generators with this seed, the first is number %zu", bad, n, first); count("compared_draws", n);
    }, 3);
    run("unseeded", 12, [](Case& c) {
        unsigned dim = (unsigned)c.rng.range(1, 30); c.desc("dim=%u #%d", dim, (int)c.index);
        std::vector<std::vector<double>> v;
        for (int i = 0; i < 4; ++i) { auto g = genUnseeded(PRNG, dim); auto d = dist(0); c.expect(g->getDim() == dim, "dimension %u", g->getDim()); std::vector<double> x; for (int j = 0; j < 16; ++j) x.push_back((*g)(*d)); v.push_back(x); }
        int eq = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) eq += v[i] == v[j];
        c.expect(eq < 2, "%d pairs of unseeded pseudo random generators produce the same draws", eq);
        for (int t : {SOBOL, FAURE}) { auto g = genUnseeded(t, dim); Identity id; for (int j = 0; j < 100; ++j) { double x = (*g)(id); c.expect(x > 0 && x < 1, "unseeded %s uniform %.17g", gname(t), x); } }
    });
    run("dimension", 40, [](Case& c) {
        auto& g = c.rng; unsigned s = randSeed(g); c.desc("seed=%u", s);
        for (int t : {PRNG, SOBOL, FAURE}) {
            c.throws<std::invalid_argument>([&] { gen(t, 0, s); }, "%s of dimension 0 with a seed", gname(t));
            c.throws<std::invalid_argument>([&] { genUnseeded(t, 0); }, "%s of dimension 0", gname(t));
            for (unsigned d : {1u, 2u, 3u, 52u, 100u, 365u}) { auto x = gen(t, d, s); c.expect(x->getDim() == d, "%s of dimension %u reports %u", gname(t), d, x->getDim()); }
        }
    });
    // a generator without a seed of its own is not reproducible, not even by running the program again
    run("unseeded-processes", 4, [](Case& c) {
        const char* exe = getenv("MON_EXE"); c.desc("#%d", (int)c.index); if (!exe) return;
        std::vector<std::vector<uint64_t>> runs;
        for (int i = 0; i < 4; ++i) {
            FILE* p = popen(fmt("'%s' --unseeded", exe).c_str(), "r"); if (!p) return;
            std::vector<uint64_t> v; unsigned long long x; while (fscanf(p, "%llu", &x) == 1) v.push_back(x);
            int rc = pclose(p); if (rc != 0 || v.size() != 6) { c.fail(fmt("a fresh process ended with status %d after %zu generators", rc, v.size())); return; }
            runs.push_back(v);
        }
        int eq = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < 6; ++k) eq += runs[i][k] == runs[j][k];
        count("unseeded_process_pairs", 36);
        c.expect(eq < 3, "%d of 36 pairs of unseeded generators made in different processes produce the same draws", eq);
    });
    // a fresh process must see the same sequences
    run("process", 6, [](Case& c) {
        auto& g = c.rng;
        const char* exe = getenv("MON_EXE"); const char* dir = getenv("MON_SCRATCH");
        if (!exe || !dir) return;
        std::string args, in = fmt("%s/seq%d", dir, (int)c.index); std::vector<uint64_t> want; std::ofstream o(in);
        for (int i = 0; i < 60; ++i) {
            int t = (int)g.below(3), k = t == PRNG ? (int)g.below(6) : 0, n = g.range(1, 200); unsigned dim = (unsigned)g.range(1, 30), s = randSeed(g);
            o << t << ' ' << dim << ' ' << s << ' ' << k << ' ' << n << '\n'; want.push_back(digest(t, dim, s, k, n));
        }
        o.close();
        c.desc("60 sequences recomputed in a fresh process #%d", (int)c.index);
        FILE* p = popen(fmt("'%s' --child '%s'", exe, in.c_str()).c_str(), "r");
        if (!p) return;
        std::vector<uint64_t> got; unsigned long long x; while (fscanf(p, "%llu", &x) == 1) got.push_back(x);
        int rc = pclose(p);
        if (rc != 0) { c.fail(fmt("the fresh process ended with status %d", rc)); return; }
        c.expect(got.size() == want.size(), "the fresh process reported %zu sequences", got.size());
        for (size_t i = 0; i < got.size() && i < want.size(); ++i) c.expect(got[i] == want[i], "sequence %zu differs in a fresh process", i);
        count("cross_process_sequences", got.size());
    });
    // same seed, same price
    run("prices", 400, [](Case& c) {
        auto& g = c.rng;
        std::string tk = fmt("C19_%d", (int)c.index);
        md()->setR(g.u(0.0, 0.1));
        md()->addStock(tk, g.u(50, 150), g.u(0.1, 0.6), randCoupon(g));
        Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = g.u(0.2, 2); t.K = g.u(70, 130); t.K2 = t.K + 30; t.B = 130;
        unsigned steps = (unsigned)g.range(1, 12), N = (unsigned)(g.chance(0.15) ? g.range(50, 400) : g.range(1, 40)), seed = randSeed(g); int gt = (int)g.below(3), model = gt == PRNG ? (int)g.below(6) : 0;
        c.desc("%s steps=%u N=%u seed=%u %s model %d", t.str().c_str(), steps, N, seed, gname(gt), model);
        auto price = [&](unsigned sd, unsigned steps, unsigned N, int gt, int model) {
            auto gg = gen(gt, steps, sd); std::shared_ptr<StockModel> m;
            switch (model) {
                case 0: m = std::make_shared<GeometricBrownianMotionModel>(tk, md(), gg); break;
                case 1: m = std::make_shared<MertonJumpDiffusionModel>(tk, md(), gg, 0.8, -0.1, 0.2); break;
                case 2: m = std::make_shared<KouModel>(tk, md(), gg, 0.8, 0.4, 10.0, 6.0); break;
                case 3: m = std::make_shared<VarianceGammaModel>(tk, md(), gg, 0.3, -0.1); break;
                case 4: m = std::make_shared<HestonModel>(tk, md(), gg, 1.2, 0.05, 0.4, -0.5, 0.04, nullptr); break;
                default: m = std::make_shared<BatesModel>(tk, md(), gg, 1.2, 0.05, 0.4, -0.5, 0.04, 0.7, -0.05, 0.2, nullptr); break;
            }
            auto o = make(t);
            auto go = [&](MCBuilder&& b) { b.setOption(o); b.setMarketData(md()); b.setStockPriceModel(m); return b.build(); };
            auto pr = [&]() -> std::unique_ptr<MCPricer> { switch (t.k) {
                case Kind::American: return go(AmericanMCBuilder());
                case Kind::ArithAsian: return go(ArithmeticAsianMCBuilder());
                case Kind::GeoAsian: return go(GeometricAsianMCBuilder());
                case Kind::KnockIn: return go(KnockInBarrierMCBuilder());
                case Kind::KnockOut: return go(KnockOutBarrierMCBuilder());
                case Kind::FloatLB: return go(FloatingStrikeLookbackMCBuilder());
                case Kind::FixedLB: return go(FixedStrikeLookbackMCBuilder());
                default: return go(MCSinglePathBuilder()); } };
            MCSolver s(N); s.setPricer(pr());
            return s.solve();
        };
        double a = price(seed, steps, N, gt, model);
        // other pricing work in between, of another shape and an arbitrary number of draws
        for (int k = g.range(1, 3); k-- > 0;) (void)price(g.chance(0.3) ? seed : randSeed(g), (unsigned)g.range(1, 7), (unsigned)g.range(1, 9), PRNG, (int)g.below(6));
        double b = price(seed, steps, N, gt, model);
        c.expect(bits(a) == bits(b), "two identical runs with the same seed gave %.17g and %.17g", a, b);
    });
}

static void c20law(int nq, int cases) {
    run("law", cases, [=](Case& c) {
        auto& g = c.rng;
        int k = (int)g.below(6), n = g.chance(0.06) ? 20 * nq : nq; DistP d; stats::Cdf F; bool disc = false; double lo = -INF, hi = INF, mean, var;
        switch (k) {
            case 0: d = std::make_shared<StandardNormalDistribution>(); F = stats::normal(0, 1); c.desc("N(0,1)"); mean = 0; var = 1; break;
            case 1: { double m = g.chance(0.3) ? g.pickd({0.0, 1000.0, -1.0, -1e5}) : g.chance(0.3) ? (g.chance(0.5) ? -1 : 1) * g.logu(1e-3, 1e6) : g.u(-5, 5), s = g.chance(0.2) ? g.pickd({1e-6, 1.0, 1e4}) : g.chance(0.3) ? std::max(std::fabs(m) * 1e-7, g.logu(1e-6, 1e6)) : g.logu(0.01, 50); d = std::make_shared<NormalDistribution>(m, s); F = stats::normal(m, s); c.desc("N(%.17g,%.17g)", m, s); mean = m; var = s * s; break; }
            case 2: { double a = g.chance(0.3) ? g.pickd({0.0, -1.0, 5.0}) : g.chance(0.3) ? (g.chance(0.5) ? -1 : 1) * g.logu(1e-3, 1e5) : g.u(-20, 20), b = a + (g.chance(0.3) ? g.pickd({1.0, 2.0, 1e-3}) : g.chance(0.3) ? g.logu(0.01, 1e6) : g.logu(0.01, 100)); d = std::make_shared<ContinuousUniformDistribution>(a, b); F = stats::uniform(a, b); lo = a; hi = b; c.desc("U(%.17g,%.17g)", a, b); mean = (a + b) / 2; var = (b - a) * (b - a) / 12; break; }
            case 3: { double l = g.chance(0.3) ? g.pickd({1.0, 0.01, 100.0}) : g.chance(0.4) ? g.logu(1e-6, 1e6) : g.logu(0.05, 40); d = std::make_shared<ExponentialDistribution>(l); F = stats::expo(l); lo = 0; c.desc("Exp(%.17g)", l); mean = 1 / l; var = 1 / (l * l); break; }
            case 4: { double a = g.chance(0.4) ? g.pickd({1.0, 0.5, 0.1, 2.0, 10.0, 300.0}) : g.logu(0.05, g.chance(0.3) ? 2e3 : 60), b = g.chance(0.3) ? g.pickd({1.0, 0.1, 20.0}) : g.chance(0.3) ? g.logu(1e-5, 1e5) : g.logu(0.05, 40); d = std::make_shared<GammaDistribution>(a, b); F = stats::gammaRate(a, b); lo = 0; c.desc("Gamma(%.17g,%.17g)", a, b); mean = a / b; var = a / (b * b); break; }
            default: { double l = g.chance(0.4) ? g.pickd({0.001, 0.5, 1.0, 11.9, 12.0, 12.5, 30.0, 100.0, 150.0, 1000.0}) : g.chance(0.3) ? g.logu(50, 1e5) : g.logu(0.01, 150); d = std::make_shared<PoissonDistribution>(l); F = stats::poisson(l); lo = 0; disc = true; c.desc("Poisson(%.17g)", l); mean = l; var = l; }
        }
        bool viaGen = g.chance(0.5); unsigned seed = randSeed(g);
        c.desc("n=%d seed=%u %s", n, seed, viaGen ? "through a generator" : "direct");
        std::vector<double> x(n);
        if (viaGen) { auto p = gen(PRNG, (unsigned)g.range(1, 9), seed); for (auto& v : x) v = (*p)(*d); } else x = stats::sample(*d, seed, n);
        double s = 0; size_t out = 0, frac = 0;
        for (double v : x) { if (!(v >= lo && (hi == INF ? std::isfinite(v) : v < hi || ((hi - lo < 1e-2 || hi - lo < 1e-4 * std::fabs(hi)) && v <= hi)))) ++out; if (disc && v != std::floor(v)) ++frac; s += v; }
        c.expect(!out, "%zu draws outside the range of the law", out);
        c.expect(!frac, "%zu draws are not integers", frac);
        double D = stats::ks(x, F, disc);
        maxi("kolmogorov_distance_sqrt_n", D);
        c.expect(D < stats::KS_LIMIT, "Kolmogorov distance %.3g/sqrt(n) from the stated law", D);
        double se = std::sqrt(var / n), z = std::fabs(s / n - mean) / se;
        maxi("mean_deviation_se", z);
        if (n * mean > 50 || k < 3) c.expect(z < 7 + (k >= 3 ? 4 : 0), "sample mean %.9g is %.1f standard errors from %.9g", s / n, z, mean);
        if (!disc || mean > 0.5) for (int lag : {1, 2, 3, 7}) {
            double q = 0;
            if (!disc) q = stats::serial(x, F, lag);
            else { double t = 0, cc = 0; for (size_t i = 0; i + lag < x.size(); ++i) t += (x[i] - mean) * (x[i + lag] - mean); (void)cc; q = t / var / std::sqrt((double)x.size() - lag); }
            maxi("serial_correlation_se", std::fabs(q));
            c.expect(std::fabs(q) < 7.5, "draws are correlated at lag %d: %.1f standard errors", lag, q);
        }
        count("draws", n);
    }, 15);
}
// an engine whose first outputs are the given words and whose later ones are ordinary
static std::mt19937 engineWith(const std::vector<uint32_t>& out, unsigned seed) {
    std::mt19937 e(seed); (void)e();   // the state now holds the current block
    std::ostringstream os; os << e; std::istringstream is(os.str()); std::vector<uint64_t> w; uint64_t x; while (is >> x) w.push_back(x);
    for (size_t i = 0; i < out.size(); ++i) {
        uint32_t y = out[i];   // undo the tempering
        y ^= y >> 18; y ^= (y << 15) & 0xefc60000u;
        uint32_t z = y; for (int k = 0; k < 5; ++k) z = y ^ ((z << 7) & 0x9d2c5680u); y = z;
        z = y; for (int k = 0; k < 3; ++k) z = y ^ (z >> 11); y = z;
        w[i] = y;
    }
    if (w.size() > 624) w[624] = 0;   // read from the first word
    std::string st; for (auto v : w) st += std::to_string(v) + ' ';
    std::istringstream in(st); in >> e; return e;
}
static void c20() {
    c20law(2000, 120);
    // gamma laws of small shape live on a logarithmic scale; values below the smallest double are zero
    run("small-shape", 12, [](Case& c) {
        auto& g = c.rng; double a = g.logu(7e-4, 0.08), b = g.logu(1e-3, 1e3); int n = 20000; unsigned seed = randSeed(g); c.desc("Gamma(%.17g,%.17g) n=%d seed=%u", a, b, n, seed);
        GammaDistribution d(a, b); auto x = stats::sample(d, seed, n); auto F = stats::gammaRate(a, b); size_t out = 0; for (double v : x) out += !(v >= 0 && std::isfinite(v)); c.expect(!out, "%zu draws outside the range of the law", out);
        for (double lt : {-290.0, -200.0, -120.0, -60.0, -30.0, -15.0, -8.0, -4.0, -2.0, -1.0, 0.0, 0.5}) { double t = std::pow(10.0, lt) / b, p = F(t); size_t m = 0; for (double v : x) m += v <= t; double z = std::fabs(m - n * p) / std::sqrt(n * p * (1 - p) + 1); maxi("small_shape_deviation_se", z); c.expect(z < 7, "%zu of %d draws up to %.3g, %.1f expected", m, n, t, n * p); }
        count("draws", n);
    });
    // rare engine outputs: whatever bits the engine delivers, a draw is a number in the range of the law
    run("engine", 4000, [](Case& c) {
        auto& g = c.rng; std::vector<uint32_t> words; int n = g.range(1, 4); std::string ws;
        for (int i = 0; i < n; ++i) { words.push_back(g.chance(0.4) ? 0u : g.chance(0.4) ? 0xffffffffu : g.chance(0.4) ? (g.chance(0.5) ? (uint32_t)g.below(600) : 0xffffffffu - (uint32_t)g.below(600)) : g.chance(0.4) ? (uint32_t)(0x80000000u + (int)g.range(-1, 1)) : (uint32_t)g.u64()); ws += fmt(" %08x", words.back()); }
        unsigned seed = (unsigned)g.u64(); c.desc("engine delivering%s, seed %u", ws.c_str(), seed);
        { auto e = engineWith(words, seed); bool same = true; for (auto w : words) same &= e() == w; if (!same) { c.trivial = true; return; } }
        int k = (int)g.below(6); DistP d; double lo = -INF, hi = INF, scale = 1, centre = 0;
        switch (k) {
            case 0: d = std::make_shared<StandardNormalDistribution>(); break;
            case 1: { double m = g.u(-5, 5), s = g.logu(1e-3, 1e3); d = std::make_shared<NormalDistribution>(m, s); centre = m; scale = s; c.desc("N(%.17g,%.17g)", m, s); break; }
            case 2: { double a = g.u(-20, 20), b = a + g.logu(0.01, 100); if (g.chance(0.4)) b = std::max(std::nextafter(a, INF), a + std::fabs(a) * g.logu(1e-16, 1e-3)); d = std::make_shared<ContinuousUniformDistribution>(a, b); lo = a; hi = b; c.desc("U(%.17g,%.17g)", a, b); break; }
            case 3: { double l = g.logu(1e-3, 1e3); d = std::make_shared<ExponentialDistribution>(l); lo = 0; scale = 1 / l; c.desc("Exp(%.17g)", l); break; }
            case 4: { double a = g.logu(0.05, 60), b = g.logu(1e-2, 1e2); d = std::make_shared<GammaDistribution>(a, b); lo = 0; scale = std::max(a, 1.0) / b; c.desc("Gamma(%.17g,%.17g)", a, b); break; }
            default: { double l = g.chance(0.5) ? g.logu(1e-3, 11.9) : g.logu(12, 1e3); d = std::make_shared<PoissonDistribution>(l); lo = 0; scale = std::max(l, 1.0); c.desc("Poisson(%.17g)", l); }
        }
        auto e = engineWith(words, seed);
        for (int i = 0; i < 6; ++i) {
            double x = (*d)(e);
            c.expect(std::isfinite(x) && x >= lo && x < hi, "draw %d is %.17g", i, x);
            if (k == 5) c.expect(x == std::floor(x), "draw %d is %.17g", i, x);
            maxi("largest_draw_in_scales", std::fabs(x - centre) / (k == 2 ? 1e3 : scale));
            if (k != 2) c.expect(std::fabs(x - centre) <= 1000 * scale, "draw %d is %.17g, %.3g times the scale of the law", i, x, std::fabs(x - centre) / scale);
        }
        count("crafted_engine_draws", 6);
    });
    run("narrow intervals", 300, [](Case& c) {
        auto& g = c.rng; double a = g.chance(0.5) ? g.u(-20, 20) : (g.chance(0.5) ? -1 : 1) * g.logu(1e-6, 1e9), w = std::fabs(a) * g.logu(1e-16, 1e-11), b = std::max(a + w, std::nextafter(a, INF)); ContinuousUniformDistribution d(a, b); PseudoRandomNumberGenerator G(1u, (unsigned)g.u64()); c.desc("U(%.17g,%.17g), %.4g values", a, b, (b - a) / (std::nextafter(std::fabs(a), INF) - std::fabs(a)));
        double lo = INF, hi = -INF; for (int i = 0; i < 3000; ++i) { double x = G(d); lo = std::min(lo, x); hi = std::max(hi, x); } c.expect(lo >= a && hi < b, "draws from %.17g to %.17g", lo, hi); count("draws in narrow intervals", 3000);
    });
    run("large rates", 24, [](Case& c) {
        auto& g = c.rng; double l = c.index % 3 == 0 ? g.u(2.0e9, 2.3e9) : g.logu(1e8, 1e14); int n = 4000; PoissonDistribution d(l); PseudoRandomNumberGenerator G(1u, (unsigned)g.u64()); c.desc("Poisson(%.17g)", l);
        double s = 0, q = 0; bool whole = true; for (int i = 0; i < n; ++i) { double x = G(d); whole &= x >= 0 && x == std::floor(x); double z = (x - l) / std::sqrt(l); s += z; q += z * z; }
        c.expect(whole, "a draw is negative or not whole"); c.expect(std::fabs(s) < 7 * std::sqrt((double)n), "mean off by %.3g standard errors", s / std::sqrt((double)n)); c.expect(std::fabs(q / n - 1) < 0.2, "variance is %.3g times the rate", q / n); count("draws with large rates", (uint64_t)n);
    });
    run("reject", 60, [](Case& c) {
        auto& g = c.rng;
        double neg = g.chance(0.5) ? g.pickd({-1.0, -1e-12, -100.0}) : -g.logu(1e-9, 1e6), pos = g.logu(0.01, 10), mu = g.u(-3, 3); c.desc("bad=%.17g ok=%.17g mu=%.17g", neg, pos, mu);
        for (double b : {neg, 0.0, -0.0}) {
            c.throws<std::invalid_argument>([&] { NormalDistribution x(mu, b); }, "Normal with sigma %g", b);
            c.throws<std::invalid_argument>([&] { ExponentialDistribution x(b); }, "Exponential with rate %g", b);
            c.throws<std::invalid_argument>([&] { GammaDistribution x(b, pos); }, "Gamma with shape %g", b);
            c.throws<std::invalid_argument>([&] { GammaDistribution x(pos, b); }, "Gamma with rate %g", b);
            c.throws<std::invalid_argument>([&] { PoissonDistribution x(b); }, "Poisson with mean %g", b);
        }
        c.throws<std::invalid_argument>([&] { ContinuousUniformDistribution x(mu, mu); }, "Uniform(%g,%g)", mu, mu);
        c.throws<std::invalid_argument>([&] { ContinuousUniformDistribution x(mu, mu - pos); }, "Uniform with b below a");
        c.throws<std::invalid_argument>([&] { ContinuousUniformDistribution x(mu, std::nextafter(mu, -INF)); }, "Uniform with b just below a");
        double q = g.u();
        c.throws<std::logic_error>([&] { (void)NormalDistribution(mu, pos).inv_cdf(q); }, "normal inverse");
        c.throws<std::logic_error>([&] { (void)ExponentialDistribution(pos).inv_cdf(q); }, "exponential inverse");
        c.throws<std::logic_error>([&] { (void)GammaDistribution(pos, pos).inv_cdf(q); }, "gamma inverse");
        c.throws<std::logic_error>([&] { (void)PoissonDistribution(pos).inv_cdf(q); }, "poisson inverse");
        c.throws<std::logic_error>([&] { (void)ContinuousUniformDistribution(mu, mu + pos).inv_cdf(q); }, "uniform inverse");
        // legal ones just inside the limits are accepted
        NormalDistribution a(mu, 1e-12); ExponentialDistribution b(1e-9); GammaDistribution d(1e-6, 1e-6); PoissonDistribution e(1e-12); ContinuousUniformDistribution f(mu, mu + 1e-9); ++c.checks;
    });
}

static long double trueInv(double q) {
    // 1-q is exact for q>=1/2
    using LD = long double;
    if (q < 0.5) return -std::sqrt(2.0L) * boost::math::erfc_inv(2.0L * (LD)q);
    return std::sqrt(2.0L) * boost::math::erfc_inv(2.0L * (1.0L - (LD)q));
}
static double accFor(double z) { z = std::fabs(z); return z <= 7 ? 4e-9 : 2e-6; }
static double randQ(Rng& g) {
    double q;
    switch (g.below(8)) {
        case 0: { double b = g.pickd({0.08, 0.92, 0.5, 0.42, 0.58, 0.01, 0.99}); q = b + g.u(-1, 1) * g.logu(1e-17, 1e-3); break; }
        case 1: { double b = g.pickd({0.08, 0.92, 0.5}); int k = g.range(0, 30); q = b; for (int i = 0; i < k; ++i) q = std::nextafter(q, g.chance(0.5) ? 0.0 : 1.0); break; }
        case 2: q = g.logu(7.7e-24, 0.5); break;            // z down to -10
        case 3: q = 1 - g.logu(1.2e-16, 0.5); break;
        case 4: q = g.below(1024) / 1024.0; break;
        default: q = g.u();
    }
    return q;
}
static void c21() {
    auto N = std::make_shared<StandardNormalDistribution>();
    run("accuracy", 60000, [N](Case& c) {
        double q = randQ(c.rng); if (!(q > 0 && q < 1)) q = 0.3;
        c.desc("q=%.17g", q);
        long double z = trueInv(q); if (std::fabs((double)z) > 10) { c.trivial = true; return; }
        double got = N->inv_cdf(q);
        double e = std::isfinite(got) ? (double)std::fabs(got - z) : INF;
        maxi(std::fabs((double)z) <= 7 ? "error_up_to_7" : "error_up_to_10", e);
        c.expect(e <= accFor((double)z), "inverse %.17g, true %.17g, error %.3g", got, (double)z, e);
        double m = 1 - q;
        if (1 - m == q && m > 0 && m < 1) { double a = N->inv_cdf(m); c.expect(std::fabs(a + got) <= 1e-12 * (1 + std::fabs(got)), "not antisymmetric: %.17g and %.17g", got, a); }
    });
    run("monotone", 4000, [N](Case& c) {
        double q = randQ(c.rng); if (!(q > 1e-22 && q < 1 - 1e-15)) q = 0.08; c.desc("from %.17g", q);
        double prev = N->inv_cdf(q), start = prev;
        for (int i = 0; i < 40 && q < 1; ++i) {
            double step = c.rng.chance(0.3) ? 0 : q * c.rng.logu(1e-16, 1e-2);
            double q2 = std::max(q + step, std::nextafter(q, 1.0)); if (q2 >= 1) break;
            double z = N->inv_cdf(q2), tol = accFor(std::max(std::fabs(z), std::fabs(prev)));
            c.expect(z >= prev - 2 * tol, "decreases from %.17g to %.17g at %.17g", prev, z, q2);
            q = q2; prev = z;
        }
        c.expect(prev >= start - 4 * accFor(prev), "decreases over the walk");
    });
    run("reject", 300, [N](Case& c) {
        auto& g = c.rng; double q = g.chance(0.5) ? g.pickd({0.0, 1.0, -0.0, -1e-300, 1.0000000000000002, -1.0, 2.0, INF, -INF}) : g.chance(0.5) ? -g.logu(1e-20, 1e5) : 1 + g.logu(1e-15, 1e5);
        c.desc("q=%.17g", q);
        c.throws<std::invalid_argument>([&] { (void)N->inv_cdf(q); }, "quantile %.17g", q);
        double a = N->inv_cdf(5e-324), b = N->inv_cdf(1 - 0x1p-53); c.expect(a < -30 && b > 8, "extreme quantiles give %g and %g", a, b);
        c.expect(std::fabs(N->inv_cdf(0.5)) < 1e-15, "inverse of one half is %g", N->inv_cdf(0.5));
    });
}

static unsigned primeFor(unsigned d) { unsigned p = std::max(2u, d); for (;; ++p) { bool ok = true; for (unsigned i = 2; i * i <= p; ++i) if (p % i == 0) { ok = false; break; } if (ok) return p; } }
// number of points in each of cells^... of one or two coordinates; |count - N/cells| <= 2
static bool fair(Case& c, const std::vector<double>& u, unsigned b, int k, const char* what, int j) {
    uint64_t cells = 1; for (int i = 0; i < k; ++i) cells *= b;
    std::vector<uint32_t> n(cells); double N = (double)u.size();
    for (double x : u) { uint64_t i = (uint64_t)(x * cells); if (i >= cells) i = cells - 1;
        n[i]++; }
    double worst = 0; for (auto v : n) worst = std::max(worst, std::fabs(v - N / cells));
    maxi("worst_interval_imbalance", worst);
    return c.expect(worst <= 2 + 1e-9, "%s coordinate %d: an interval of length %u^-%d has %.2f points more or less than its share", what, j, b, k, worst);
}
static void c22() {
    run("intervals", 160, [](Case& c) {
        auto& g = c.rng; int t = g.chance(0.5) ? SOBOL : FAURE; unsigned dim = g.chance(0.3) ? (unsigned)g.range(1, 3) : g.chance(0.7) ? (unsigned)g.range(1, 30) : (unsigned)g.range(31, 250), seed = randSeed(g);
        if (g.chance(0.3)) seed = (unsigned)g.below(50);
        unsigned b = t == SOBOL ? 2 : primeFor(dim); size_t N = std::min<size_t>((size_t)g.range(100, 9000), 400000 / dim);
        c.desc("%s dim=%u seed=%u N=%zu", gname(t), dim, seed, N);
        auto q = gen(t, dim, seed); Identity id; std::vector<std::vector<double>> u(dim, std::vector<double>(N)); size_t bad = 0; double badv = 0;
        for (size_t i = 0; i < N; ++i) for (unsigned j = 0; j < dim; ++j) { double x = (*q)(id); if (!(x > 0 && x < 1)) { ++bad; badv = x; } u[j][i] = x; }
        c.expect(!bad, "%zu uniforms not inside (0,1), e.g. %.17g", bad, badv);
        if (bad) return;
        count("uniforms", N * dim);
        int kmax = 1; { double m = b; while (m * b <= N * 2.0 && kmax < 12) { m *= b; ++kmax; } }
        for (unsigned j = 0; j < dim; ++j) {
            if (dim > 12 && !g.chance(12.0 / dim) && j != dim - 1) continue;
            // nudge values lying on a cell edge by rounding to the inside of the cell above
            std::vector<double> v = u[j]; if (t == FAURE) for (auto& x : v) x += 1e-12;
            for (int k = 1; k <= kmax; ++k) if (!fair(c, v, b, k, gname(t), (int)j)) return;
        }
        // distinct points: no point is handed out twice
        { std::vector<double> v = u[0]; std::sort(v.begin(), v.end()); c.expect(std::adjacent_find(v.begin(), v.end()) == v.end(), "a value of the first coordinate occurs twice"); }
        // boxes of two coordinates
        if (dim >= 2) for (int rep = 0; rep < 4; ++rep) {
            unsigned i = 0, j = 1; if (t == FAURE) { i = (unsigned)g.below(dim); do j = (unsigned)g.below(dim); while (j == i); }
            int ka = 1, kb = 1; while (std::pow((double)b, ka + kb + 1) <= N && ka + kb < 12) { if (g.chance(0.5)) ++ka; else ++kb; }
            uint64_t A = (uint64_t)std::llround(std::pow(b, ka)), B = (uint64_t)std::llround(std::pow(b, kb));
            if (A * B > 4 * N) continue;
            std::vector<uint32_t> n(A * B); double e = t == FAURE ? 1e-12 : 0;
            for (size_t m = 0; m < N; ++m) n[std::min<uint64_t>(A - 1, (uint64_t)((u[i][m] + e) * A)) * B + std::min<uint64_t>(B - 1, (uint64_t)((u[j][m] + e) * B))]++;
            double worst = 0; for (auto v : n) worst = std::max(worst, std::fabs(v - (double)N / (A * B)));
            maxi("worst_box_imbalance", worst);
            if (!c.expect(worst <= 2 + 1e-9, "%s coordinates %u,%u: a %llux%llu box has %.2f points more or less than its share of %.2f", gname(t), i, j, (unsigned long long)A, (unsigned long long)B, worst, (double)N / (A * B))) return;
        }
    }, 12);
    // many dimensions: every coordinate is a sequence of its own
    run("wide", 3, [](Case& c) {
        auto& g = c.rng; int t = c.index == 2 ? FAURE : SOBOL; unsigned dim = (unsigned)(t == FAURE ? g.range(600, 1100) : c.index == 0 ? g.range(2500, 3600) : g.range(1025, 2500)), seed = g.chance(0.5) ? (unsigned)g.below(1000) : randSeed(g); size_t N = t == SOBOL ? 2048 : 1200;
        c.desc("%s dim=%u seed=%u N=%zu", gname(t), dim, seed, N); auto q = gen(t, dim, seed); c.expect(q->getDim() == dim, "dimension %u", q->getDim()); Identity id; std::vector<uint64_t> h(dim, 1469598103934665603ull); std::vector<std::array<uint16_t, 16>> cell(dim); for (auto& x : cell) x.fill(0); size_t bad = 0; double badv = 0;
        for (size_t i = 0; i < N; ++i) for (unsigned j = 0; j < dim; ++j) { double x = (*q)(id); if (!(x > 0 && x < 1)) { ++bad; badv = x; continue; } h[j] = (h[j] ^ bits(x)) * 0x9E3779B97F4A7C15ull; h[j] ^= h[j] >> 32; cell[j][(int)(x * 16)]++; }
        c.expect(!bad, "%zu uniforms not inside (0,1), e.g. %.17g", bad, badv); count("uniforms", N * dim);
        std::map<uint64_t, unsigned> seen; for (unsigned j = 0; j < dim; ++j) { auto [it, fresh] = seen.emplace(h[j], j); if (!c.expect(fresh, "coordinates %u and %u are the same over %zu points", it->second, j, N)) break; }
        if (t == FAURE) return; double worst = 0; for (unsigned j = 0; j < dim; ++j) for (auto v : cell[j]) worst = std::max(worst, std::fabs(v - N / 16.0)); maxi(fmt("worst_sixteenth_wide_%s", gname(t)), worst);
        c.expect(worst <= 2.001, "one sixteenth of the unit interval has %.1f points more or less than its share in some coordinate", worst);
    }, 2);
    // long runs: the sequence goes on, it does not start over or thin out
    run("long", 14, [](Case& c) {
        auto& g = c.rng; int t = g.chance(0.5) ? SOBOL : FAURE; unsigned dim = (unsigned)g.range(1, 7), seed = g.chance(0.3) ? 0xffffffffu - (unsigned)g.below(200000) : randSeed(g), b = t == SOBOL ? 2 : primeFor(dim);
        size_t N = (size_t)g.range(70000, g.chance(0.3) ? 1200000 : 250000); c.desc("%s dim=%u seed=%u N=%zu", gname(t), dim, seed, N);
        auto q = gen(t, dim, seed); Identity id; std::vector<double> u(N), v(N); unsigned other = (unsigned)g.below(dim); size_t bad = 0; double badv = 0, e = t == FAURE ? 1e-12 : 0;
        for (size_t i = 0; i < N; ++i) for (unsigned j = 0; j < dim; ++j) { double x = (*q)(id); if (!(x > 0 && x < 1)) { ++bad; badv = x; } if (j == 0) u[i] = x + e; if (j == other) v[i] = x + e; }
        c.expect(!bad, "%zu uniforms not inside (0,1), e.g. %.17g", bad, badv); if (bad) return;
        count("uniforms", N * dim);
        double m = b; for (int k = 1; m <= N; ++k, m *= b) { if (!fair(c, u, b, k, gname(t), 0)) return; if (other && !fair(c, v, b, k, gname(t), (int)other)) return; }
        std::sort(u.begin(), u.end()); size_t rep = 0; for (size_t i = 1; i < N; ++i) rep += u[i] == u[i - 1];
        c.expect(!rep, "%zu values of the first coordinate occur again", rep);
    }, 2);
    // every pair of coordinates behaves like independent uniforms, integrals converge fast
    run("integrals", 60, [](Case& c) {
        auto& g = c.rng; int t = g.chance(0.5) ? SOBOL : FAURE; unsigned dim = (unsigned)g.range(2, 16), seed = randSeed(g); size_t N = 16384;
        c.desc("%s dim=%u seed=%u N=%zu", gname(t), dim, seed, N);
        auto q = gen(t, dim, seed); Identity id; std::vector<double> s2(dim * dim), s1(dim); std::vector<double> u(dim); double asset = 0, prod = 0;
        for (size_t i = 0; i < N; ++i) {
            double p = 1, a = 0;
            for (unsigned j = 0; j < dim; ++j) { u[j] = (*q)(id); a += u[j]; p *= 1 + (u[j] - 0.5) / (1 + j); }
            prod += p; asset += std::exp(a / dim);
            for (unsigned j = 0; j < dim; ++j) { s1[j] += u[j] - 0.5; for (unsigned k = 0; k < j; ++k) s2[j * dim + k] += (u[j] - 0.5) * (u[k] - 0.5); }
        }
        double exact = std::pow(dim * std::expm1(1.0 / dim), (double)dim);
        double w = 0; for (unsigned j = 0; j < dim; ++j) { maxi("mean_error_times_N", std::fabs(s1[j])); c.expect(std::fabs(s1[j]) < 40, "mean of coordinate %u off by %.3g/N", j, s1[j]); for (unsigned k = 0; k < j; ++k) w = std::max(w, std::fabs(s2[j * dim + k] / N)); }
        maxi("pair_covariance", w);
        c.expect(w < 0.0015, "covariance %.4g between two coordinates", w);
        maxi("product_integral_error", std::fabs(prod / N - 1)); maxi("exp_integral_error", std::fabs(asset / N / exact - 1));
        c.expect(std::fabs(prod / N - 1) < 2.0e-3, "product integral off by %.3g", prod / N - 1);
        c.expect(std::fabs(asset / N / exact - 1) < 4.0e-4, "smooth integral off by %.3g", asset / N / exact - 1);
    }, 6);
    // through the inverse normal: finite, centred, unit variance in every coordinate
    run("normals", 60, [](Case& c) {
        auto& g = c.rng; int t = g.chance(0.5) ? SOBOL : FAURE; unsigned dim = (unsigned)g.range(1, 20), seed = randSeed(g); size_t N = 4096;
        c.desc("%s dim=%u seed=%u N=%zu", gname(t), dim, seed, N);
        auto q = gen(t, dim, seed); StandardNormalDistribution d; std::vector<double> m(dim), v(dim); size_t bad = 0;
        for (size_t i = 0; i < N; ++i) for (unsigned j = 0; j < dim; ++j) { double z = (*q)(d); if (!std::isfinite(z)) ++bad; m[j] += z; v[j] += z * z; }
        c.expect(!bad, "%zu draws not finite", bad);
        for (unsigned j = 0; j < dim; ++j) { maxi("normal_mean", std::fabs(m[j] / N)); maxi("normal_variance", std::fabs(v[j] / N - 1)); c.expect(std::fabs(m[j] / N) < 0.025 && std::fabs(v[j] / N - 1) < 0.04, "coordinate %u of the normals has mean %.4g and variance %.4g", j, m[j] / N, v[j] / N); }
    }, 6);
}

int main(int argc, char** argv) {
    if (argc == 3 && std::string(argv[1]) == "--child") {
        std::ifstream in(argv[2]); int t, k, n; unsigned dim, s;
        while (in >> t >> dim >> s >> k >> n) printf("%llu\n", (unsigned long long)digest(t, dim, s, k, n));
        return 0;
    }
    if (argc == 2 && std::string(argv[1]) == "--unseeded") {
        for (int i = 0; i < 6; ++i) { auto g = genUnseeded(i < 4 ? PRNG : i == 4 ? SOBOL : FAURE, 3); auto d = dist(0); uint64_t h = 0; for (int j = 0; j < 40; ++j) h = h * 0x100000001b3ull + bits((*g)(*d)); printf("%llu\n", (unsigned long long)h); }
        return 0;
    }
    return mon::main_(argc, argv, {{"C19", c19}, {"C20", c20}, {"C20law", [] { c20law(20000, 400); }}, {"C21", c21}, {"C22", c22}});
}
