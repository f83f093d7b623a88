// C13-C18: stock models driven by a recording, scripted number generator.
#include "stats.h"

namespace {
enum M { GBM, HESTON, MERTON, KOU, VG, BATES };
const char* MN[] = {"GBM", "Heston", "Merton", "Kou", "VG", "Bates"};
const std::vector<int> ALLM{GBM, HESTON, MERTON, KOU, VG, BATES};
enum Draw { Z, JN, PO, UN, EX, GA, OT };
const char* DN[] = {"standard normal", "normal", "Poisson", "uniform", "exponential", "gamma", "other"};

struct ScriptGen final : NumberGenerator {
    mutable std::function<double(Draw)> src;
    mutable std::vector<std::pair<Draw, double>> log;
    mutable std::function<void(Draw, Distribution&)> inspect;
    explicit ScriptGen(unsigned d) : NumberGenerator(d, 1u) {}
    static Draw kind(Distribution& d) {
        if (dynamic_cast<StandardNormalDistribution*>(&d)) return Z;
        if (dynamic_cast<NormalDistribution*>(&d)) return JN;
        if (dynamic_cast<PoissonDistribution*>(&d)) return PO;
        if (dynamic_cast<ContinuousUniformDistribution*>(&d)) return UN;
        if (dynamic_cast<ExponentialDistribution*>(&d)) return EX;
        if (dynamic_cast<GammaDistribution*>(&d)) return GA;
        return OT;
    }
    double operator()(Distribution& d) const override {
        Draw k = kind(d); if (inspect) inspect(k, d);
        double v = src(k); log.push_back({k, v}); return v;
    }
    int drawn(Draw k) const { int n = 0; for (auto& x : log) n += x.first == k; return n; }
};

struct MP { double kappa, theta, sv, rho, v0, lambda, muJ, sJ, p, e1, e2, nu, th; };
struct Mk { double S, sig, r; Opt c; double q() const { return c.value_or(0.0); } };

MP randMP(Rng& g, const Mk& k) {
    MP m;
    m.kappa = g.chance(0.1) ? 1e-9 : g.u(0.05, 5); m.theta = g.u(0.001, 0.4); m.sv = g.chance(0.1) ? 1e-9 : g.u(0.01, 1.2);
    m.rho = g.chance(0.25) ? g.pickd({-1.0, 0.0, 1.0, 0.5, 0.999, -0.9999, 1 - 1e-7}) : g.u(-1, 1); m.v0 = g.u(0.001, 0.5);
    m.lambda = g.chance(0.3) ? g.logu(1e-3, 20) : g.u(0.1, 4); m.muJ = g.u(-0.5, 0.4); m.sJ = g.chance(0.1) ? 1e-6 : g.u(0.01, 0.6);
    m.p = g.chance(0.25) ? g.pickd({0.0, 1.0, 0.5}) : g.u(); m.e1 = g.chance(0.3) ? g.u(1.05, 2) : g.u(2, 50); m.e2 = g.chance(0.3) ? g.u(0.1, 1) : g.u(1, 50);
    // keep log prices of 30 years of jumps inside the range of a double (prices under/overflow beyond |x| ~ 700)
    double rk = m.p / (m.e1 - 1) + 1 / m.e1 + 1 / m.e2, rm = std::fabs(std::expm1(m.muJ + 0.5 * m.sJ * m.sJ)) + std::fabs(m.muJ) + m.sJ;
    m.lambda = std::min(m.lambda, 5 / std::max(rk, rm));
    do { m.nu = g.chance(0.3) ? g.logu(0.005, 2) : g.u(0.05, 1); m.th = g.u(-0.5, 0.4); } while (1 - m.th * m.nu - 0.5 * k.sig * k.sig * m.nu < 0.05);
    return m;
}
Mk randMk(Rng& g) { return {g.chance(0.3) ? 100.0 : g.logu(0.01, 1e5), g.chance(0.1) ? 0.0 : g.u(0.01, 0.8), randRate(g), randCoupon(g)}; }
double anyT(Rng& g) { return g.chance(0.25) ? g.pickd({1e-6, 30.0, 1.0, 1.0 / 365}) : randT(g); }
int anySteps(Rng& g) { return g.chance(0.2) ? 1 : g.chance(0.04) ? g.range(300, 1000) : g.chance(0.006) ? g.range(1001, 9000) : g.range(2, 30); }

std::shared_ptr<StockModel> build(int m, const MP& x, const std::string& tk, std::shared_ptr<IMarketData> d, std::shared_ptr<NumberGenerator> g, std::shared_ptr<CIRDiscretization> s = nullptr) {
    switch (m) {
        case GBM: return std::make_shared<GeometricBrownianMotionModel>(tk, d, g);
        case HESTON: return std::make_shared<HestonModel>(tk, d, g, x.kappa, x.theta, x.sv, x.rho, x.v0, s);
        case MERTON: return std::make_shared<MertonJumpDiffusionModel>(tk, d, g, x.lambda, x.muJ, x.sJ);
        case KOU: return std::make_shared<KouModel>(tk, d, g, x.lambda, x.p, x.e1, x.e2);
        case VG: return std::make_shared<VarianceGammaModel>(tk, d, g, x.nu, x.th);
        default: return std::make_shared<BatesModel>(tk, d, g, x.kappa, x.theta, x.sv, x.rho, x.v0, x.lambda, x.muJ, x.sJ, s);
    }
}
std::string show(int m, const MP& x) {
    switch (m) {
        case GBM: return "GBM";
        case HESTON: return fmt("Heston kappa=%g theta=%g sigma_v=%g rho=%g v0=%g", x.kappa, x.theta, x.sv, x.rho, x.v0);
        case MERTON: return fmt("Merton lambda=%g muJ=%g sigmaJ=%g", x.lambda, x.muJ, x.sJ);
        case KOU: return fmt("Kou lambda=%g p=%g eta1=%g eta2=%g", x.lambda, x.p, x.e1, x.e2);
        case VG: return fmt("VG nu=%g theta=%g", x.nu, x.th);
        default: return fmt("Bates kappa=%g theta=%g sigma_v=%g rho=%g v0=%g lambda=%g muJ=%g sigmaJ=%g", x.kappa, x.theta, x.sv, x.rho, x.v0, x.lambda, x.muJ, x.sJ);
    }
}
void put(const std::string& tk, const Mk& k) { md()->addStock(tk, k.S, k.sig, k.c); md()->setR(k.r); }

// variance scheme of the harness: records its calls and returns scripted variances
struct RecCIR final : CIRDiscretization {
    struct Call { double V, dt, kappa, theta, sv, z; };
    mutable std::vector<Call> log; std::vector<double> next; mutable size_t k = 0;
    void update(double& V, const double& dt, const double& kappa, const double& theta, const double& sv, const double& z) const override {
        log.push_back({V, dt, kappa, theta, sv, z}); V = k < next.size() ? next[k] : 0.04; ++k;
    }
};

// One reproducible script of draws: the same values for the same position of each kind.
struct Script {
    uint64_t salt; double dt; int m; MP p; bool plain = false;   // plain: no jumps
    std::map<int, int> n; double lastU = 0;
    std::map<std::pair<int, int>, double> fix;        // overridden draws
    double operator()(Draw k) {
        int i = n[k]++;
        if (auto it = fix.find({k, i}); it != fix.end()) return it->second;
        Rng h(salt + (uint64_t)k * 7919 + (uint64_t)i * 104729);
        switch (k) {
            case Z: return h.chance(0.1) ? h.pickd({0.0, 6.0, -6.0, 8.0, -8.0, 1.0}) : h.normal();
            case JN: return p.muJ + p.sJ * h.normal();
            case PO: return plain ? 0 : h.chance(0.5) ? 0 : h.range(1, 3);
            case UN: return h.u();
            case EX: return -std::log(h.u()) / 5;
            case GA: return dt * h.u(0.01, 3);
            default: return h.u();
        }
    }
};
std::shared_ptr<ScriptGen> gen(unsigned steps, const std::shared_ptr<Script>& s) { auto g = std::make_shared<ScriptGen>(steps); g->src = [s](Draw k) { return (*s)(k); }; return g; }

// The trace oracles read a draw as the variate of the stated law that the model's definition names. A model may obtain its
// jump sizes or its subordinator from differently parametrised draws; the trace then says nothing and the law of the moves decides.
struct Structure {
    // every draw comes from the law the definition names: the distributions handed to the generator give, from one engine state, the
    // variates of the library's own distribution of the stated parameters (probed at a step length where those variates are not degenerate)
    static bool own(int m, const MP& p, const std::string& tk) {
        if (m == GBM || m == HESTON) return true;
        double dt = m == VG ? 1.5 * p.nu : 1.5 / p.lambda; bool own = true; std::set<const void*> seen; int probed = 0;
        auto sc = std::make_shared<Script>(); sc->salt = 11; sc->dt = dt; sc->p = p; auto G = gen(2, sc); for (int i = 0; i < 2; ++i) sc->fix[{PO, i}] = 4;
        for (int i = 0; i < 8; ++i) sc->fix[{UN, i}] = (i % 4 + 0.5) / 4;
        auto some = [](const Distribution& x) { std::array<double, 8> a; std::mt19937 e(77u); for (auto& v : a) v = x(e); return a; };
        G->inspect = [&](Draw d, Distribution& dist) {
            if (d == Z || (d != EX && !seen.insert(&dist).second)) return;    // the normal behind several laws keeps a second variate: probe each object once
            auto a = some(dist); ++probed;
            auto same = [&](const Distribution& x) { auto b = some(x); for (int i = 0; i < 8; ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (std::fabs(a[i]) + std::fabs(b[i])))) return false; return true; };
            switch (d) {
                case JN: own &= same(NormalDistribution(p.muJ, p.sJ)); break;
                case PO: own &= same(PoissonDistribution(p.lambda * dt)); break;
                case UN: own &= same(ContinuousUniformDistribution(0.0, 1.0)); break;
                case EX: own &= same(ExponentialDistribution(p.e1)) || same(ExponentialDistribution(p.e2)); break;
                case GA: own &= same(GammaDistribution(dt / p.nu, 1 / p.nu)); break;
                default: own = false;
            }
        };
        auto model = build(m, p, tk, md(), G, m == BATES ? std::make_shared<RecCIR>() : nullptr); model->simulatePrices(2 * dt);
        count("draw laws identified", probed); return own && counts(*G, m, 2);
    }
    static bool counts(const ScriptGen& G, int m, int steps) {
        double jumps = 0; for (auto& x : G.log) if (x.first == PO) jumps += x.second;
        int z = m == HESTON || m == BATES ? 2 * steps : steps, n = (int)jumps; bool jm = m == MERTON || m == KOU || m == BATES;
        return G.drawn(Z) == z && G.drawn(PO) == (jm ? steps : 0) && G.drawn(JN) == (m == MERTON || m == BATES ? n : 0) && G.drawn(UN) == (m == KOU ? n : 0) && G.drawn(EX) == (m == KOU ? n : 0) && G.drawn(GA) == (m == VG ? steps : 0) && !G.drawn(OT);
    }
};
// Joint characteristic function of the log moves over the steps, real draws; Bates with given variances.
void lawTest(Case& c, int m, const MP& p, const Mk& k, double dt, int steps, int n) {
    using C = std::complex<double>; C i(0, 1); auto& g = c.rng; std::string tk = "LW"; md()->addStock(tk, k.S, k.sig, k.c); md()->setR(k.r);
    auto rec = std::make_shared<RecCIR>(); std::vector<double> V{p.v0}; for (int s = 0; s < steps; ++s) V.push_back(k.sig * k.sig * g.u(0.5, 2)); rec->next.assign(V.begin() + 1, V.end());
    auto model = build(m, p, tk, md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)steps, (unsigned)g.below(1u << 31)), rec);
    std::vector<std::vector<double>> x(n, std::vector<double>(steps));
    for (auto& r : x) { rec->k = 0; rec->log.clear(); auto pr = model->simulatePrices(dt * steps); double last = k.S; for (int s = 0; s < steps; ++s) { r[s] = std::log(pr[s] / last); last = pr[s]; } }
    auto psi = [&](int s, double u) -> C {
        double mu = k.r - k.q(), s2 = m == BATES ? std::max(V[s], 0.0) : k.sig * k.sig, kJ = std::expm1(p.muJ + 0.5 * p.sJ * p.sJ), kK = p.p * p.e1 / (p.e1 - 1) + (1 - p.p) * p.e2 / (p.e2 + 1) - 1;
        if (m == VG) return i * u * (mu + std::log(1 - p.th * p.nu - 0.5 * s2 * p.nu) / p.nu) * dt - dt / p.nu * std::log(1.0 - i * u * p.th * p.nu + 0.5 * s2 * p.nu * u * u);
        C y = i * u * (mu - s2 / 2) * dt - 0.5 * s2 * u * u * dt;
        if (m == MERTON || m == BATES) y += p.lambda * dt * (std::exp(i * u * p.muJ - 0.5 * p.sJ * p.sJ * u * u) - 1.0 - i * u * kJ);
        if (m == KOU) y += p.lambda * dt * (p.p * p.e1 / (p.e1 - i * u) + (1 - p.p) * p.e2 / (p.e2 + i * u) - 1.0 - i * u * kK);
        return y;
    };
    double sd = 1e-12; for (auto& r : x) sd += r[0] * r[0]; sd = std::sqrt(sd / n);
    for (int rep = 0; rep < 10; ++rep) {
        std::vector<double> u(steps); double base = g.pickd({0.3, 0.7, 1.5, 3.0, 6.0}) / sd; for (auto& v : u) v = rep < 5 ? base : g.chance(0.3) ? 0 : base * g.u(-1, 1);
        C want = 0; for (int s = 0; s < steps; ++s) want += psi(s, u[s]); want = std::exp(want); C got = 0; for (auto& r : x) { double a = 0; for (int s = 0; s < steps; ++s) a += u[s] * r[s]; got += C(std::cos(a), std::sin(a)); }
        double d = std::abs(got / (double)n - want) * std::sqrt((double)n); maxi("law of moves: largest sqrt(n)*|CF difference|", d);
        if (!c.expect(d < stats::CF_LIMIT, "%s: the law of the moves is not the stated one (characteristic function, sqrt(n)*distance %.2f)", MN[m], d)) return;
    }
}
void decideByLaw(Case& c, int m, MP p, Mk k, double dt, int steps) {
    static std::map<int, int> used; count(std::string("decided by the law of the moves ") + MN[m]);
    if (++used[m] > 40) { c.trivial = true; return; }
    k.S = 100; steps = std::min(steps, 3); lawTest(c, m, p, k, dt, steps, 20000);
    // the jump part on its own: about 1.5 jumps per step, little diffusion
    k.sig = 0.02; k.r = 0.03; p.v0 = 0.0004; double d = m == VG ? p.nu * 1.5 : 0.5; p.lambda = 1.5 / d; lawTest(c, m, p, k, d, 2, 40000);
}

// ------------------------------------------------------------------ C13
// log of the expected gross return of the last step given fixed earlier draws, from the observed response to the draws
void martingale(Case& c, int m) {
    auto& g = c.rng; std::string tk = fmt("MG%d", m); Mk k = randMk(g); MP p = randMP(g, k); if (m == VG) while (1 - p.th * p.nu - 0.5 * k.sig * k.sig * p.nu < 0.05) p = randMP(g, k);
    double T = anyT(g); int steps = anySteps(g); double dt = T / steps;
    put(tk, k);
    bool stub = (m == HESTON || m == BATES) && g.chance(0.5);
    std::shared_ptr<CIRDiscretization> disc; std::shared_ptr<RecCIR> rec;
    std::vector<double> vs; for (int i = 0; i < steps; ++i) vs.push_back(g.chance(0.15) ? -g.u(0, 0.1) : g.u(0, 0.6));
    if (stub) { rec = std::make_shared<RecCIR>(); rec->next = vs; disc = rec; } else if (g.chance(0.5)) disc = std::make_shared<CIRMilsteinDiscretization>();
    auto sc = std::make_shared<Script>(); sc->m = m; sc->p = p; sc->dt = dt; sc->salt = g.u64();
    auto G = gen((unsigned)steps, sc); auto model = build(m, p, tk, md(), G, disc);
    c.desc("%s S=%.17g sigma=%g r=%g c=%g T=%g steps=%d%s", show(m, p).c_str(), k.S, k.sig, k.r, k.q(), T, steps, stub ? " scripted variance" : "");
    if (g.chance(0.4)) {   // the market moves after construction; the values current at simulation time count
        k.r = randRate(g); k.c = randCoupon(g); k.S = g.u(20, 200); if (m != VG) k.sig = g.u(0, 0.7); else k.sig = k.sig * 0.9;
        md()->setR(k.r); md()->updateStockCoupon(tk, k.c); md()->updateStockPrice(tk, k.S); md()->updateStockSigma(tk, k.sig); count("market moved after construction");
    }
    int perZ = m == HESTON || m == BATES ? 2 : 1;
    int lo = steps == 1 ? 0 : (int)g.below(steps);                      // the step under observation
    auto move = [&](const std::vector<double>& z, int jumps, const std::vector<double>& js, double u, double ga) {
        sc->n.clear(); sc->fix.clear(); G->log.clear(); if (rec) rec->k = 0;
        for (int i = 0; i < perZ; ++i) sc->fix[{Z, perZ * lo + i}] = z[i];
        // earlier steps make no jumps so that positions of later draws are known
        sc->plain = true; sc->fix[{PO, lo}] = jumps;
        for (size_t i = 0; i < js.size(); ++i) { sc->fix[{JN, (int)i}] = js[i]; sc->fix[{EX, (int)i}] = js[i]; sc->fix[{UN, (int)i}] = u; }
        sc->fix[{GA, lo}] = ga;
        auto pr = model->simulatePrices(T);
        if ((int)pr.size() != steps) throw std::runtime_error("wrong path length");
        return std::log((long double)pr[lo]) - std::log((long double)(lo ? pr[lo - 1] : k.S));
    };
    std::vector<double> zero(perZ, 0.0);
    { std::vector<double> js(2, m == KOU ? 0.1 : p.muJ); (void)move(zero, m == GBM || m == HESTON || m == VG ? 0 : 2, js, 0.5, dt); }
    if (!Structure::own(m, p, tk)) {   // the sample mean decides
        static std::map<int, int> used; count(std::string("decided by sample means ") + MN[m]); if (++used[m] > 30) { c.trivial = true; return; }
        double d0 = m == VG ? p.nu / 2 : 0.3 / p.lambda; dt = std::clamp(dt, d0, 6 * d0); p.lambda = std::min(p.lambda, 1 / dt); if (m == KOU && p.e1 < 3) p.e1 = 3; p.sJ = std::min(p.sJ, 0.3); k.sig = std::min(k.sig, 0.4 / std::sqrt(dt)); int n = 40000; if (m == VG && dt / p.nu > 3) p.th = std::min(p.th, 0.1);
        md()->updateStockSigma(tk, k.sig); p.v0 = std::min(p.v0, 0.16 / dt); double S0 = md()->getStockData(tk)->getPrice(); auto real = build(m, p, tk, md(), std::make_shared<PseudoRandomNumberGenerator>(1u, (unsigned)g.below(1u << 31)));
        long double s1 = 0, s2 = 0; for (int i = 0; i < n; ++i) { double x = real->simulatePriceAtMaturity(dt) / S0 * std::exp(-(k.r - k.q()) * dt); s1 += x; s2 += (long double)x * x; }
        double mean = (double)(s1 / n), sd = std::sqrt(std::max(0.0, (double)(s2 / n) - mean * mean)) / std::sqrt((double)n); c.expect(std::fabs(mean - 1) < 8 * sd + 1e-9, "%s: mean discounted gross return %.9g (standard error %.2g)", MN[m], mean, sd);
        return;
    }
    if (m == VG) {
        // log move = a + theta g + sigma sqrt(g) z
        double g0 = dt * g.u(0.2, 2);
        long double a = move(zero, 0, {}, 0, g0) - (long double)p.th * g0;
        for (int i = 0; i < 5; ++i) { double ga = dt * g.u(0.001, 4), z = g.normal() * 2; c.close((double)move({z}, 0, {}, 0, ga), (double)(a + p.th * ga + k.sig * std::sqrt(ga) * z), 1e-9, 1e-3, "log move at g=%.17g z=%.17g", ga, z); }
        long double E = a - dt / p.nu * std::log1p((long double)(-p.th * p.nu - 0.5 * k.sig * k.sig * p.nu));
        c.close((double)E, (k.r - k.q()) * dt, 1e-9, 1e-3, "%s: log expected gross return over one step", MN[m]);
    } else {
        long double a = move(zero, 0, {}, 0, dt), var = 0; std::vector<long double> b(perZ);
        for (int i = 0; i < perZ; ++i) { auto z = zero; z[i] = 1; b[i] = move(z, 0, {}, 0, dt) - a; var += b[i] * b[i]; }
        for (int i = 0; i < 6; ++i) { std::vector<double> z(perZ); long double want = a; for (int q = 0; q < perZ; ++q) { z[q] = i == 0 ? 7.5 : i == 1 ? -7.5 : 3 * g.normal(); want += b[q] * z[q]; } c.close((double)move(z, 0, {}, 0, dt), (double)want, 1e-9, 1e-3, "log move is not linear in the normal draws"); }
        long double jump = 0;
        if (m == MERTON || m == BATES) jump = (long double)p.lambda * dt * std::expm1((long double)p.muJ + 0.5L * p.sJ * p.sJ);
        if (m == KOU) jump = (long double)p.lambda * dt * (p.p * (long double)p.e1 / (p.e1 - 1) + (1 - p.p) * (long double)p.e2 / (p.e2 + 1) - 1);
        c.close((double)(a + var / 2 + jump), (k.r - k.q()) * dt, 1e-9, 1e-3, "%s step %d: log expected gross return over one step", MN[m], lo);
        if (m == MERTON || m == BATES || m == KOU) {   // the jump part observed: n jumps add their sizes
            int n = g.range(1, 6); std::vector<double> js; long double s = 0;
            for (int i = 0; i < n; ++i) { js.push_back(m == KOU ? g.u(0.01, 0.5) : g.u(-0.5, 0.5)); s += js.back(); }
            double u = m == KOU ? (p.p >= 1 ? 0.5 : p.p <= 0 ? 0.5 : p.p / 2) : 0; if (m == KOU && p.p <= 0) s = -s;
            c.close((double)move(zero, n, js, u, dt), (double)(a + s), 1e-9, 1e-3, "%d jumps", n);
        }
    }
    maxi("largest sigma*sqrt(dt)", k.sig * std::sqrt(dt));
    count(std::string("conditional expectations ") + MN[m]);
}
void c13() { for (int m : ALLM) run(std::string("step-") + MN[m], 900, [m](Case& c) { martingale(c, m); }); }

void c13stat() {   // the whole pipeline with real draws: sample means of discounted prices at every date
    run("means", 24, [](Case& c) {
        auto& g = c.rng; int m = (int)(c.index % 6); std::string tk = "MS"; Mk k{100, g.u(0.1, 0.4), g.u(-0.02, 0.15), randCoupon(g)}; if (k.q() > 0.3) k.c = 0.1; MP p = randMP(g, k);
        p.lambda = std::min(p.lambda, 3.0); p.e1 = std::max(p.e1, 4.0); p.muJ = std::min(p.muJ, 0.1); p.sJ = std::min(p.sJ, 0.25); p.th = std::min(p.th, 0.1); p.nu = std::min(p.nu, 0.5);
        put(tk, k); int steps = g.range(1, 4), n = 60000; double T = g.u(0.3, 1.5); unsigned seed = (unsigned)g.below(1u << 31);
        c.desc("%s sigma=%g r=%g c=%g T=%g steps=%d seed=%u", show(m, p).c_str(), k.sig, k.r, k.q(), T, steps, seed);
        auto model = build(m, p, tk, md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)steps, seed), g.chance(0.5) ? std::make_shared<CIRMilsteinDiscretization>() : nullptr);
        std::vector<double> s(steps), s2(steps), mx(steps);
        for (int i = 0; i < n; ++i) { auto pr = model->simulatePrices(T); for (int t = 0; t < steps; ++t) { double x = pr[t] / k.S * std::exp(-(k.r - k.q()) * T * (t + 1) / steps); s[t] += x; s2[t] += x * x; } }
        for (int t = 0; t < steps; ++t) { double mean = s[t] / n, sd = std::sqrt(std::max(0.0, s2[t] / n - mean * mean)), e = std::fabs(mean - 1) / (sd / std::sqrt((double)n));
            maxi("largest deviation in standard errors", e); c.expect(e < 7, "date %d: mean discounted price %.6g, %.2f standard errors from 1", t + 1, mean, e); count("sample means"); }
    }, 10);
}

// ------------------------------------------------------------------ C14
void c14() {
    run("gbm", 2500, [](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); std::string tk = "DG"; put(tk, k); double T = g.chance(0.05) ? 0.0 : anyT(g); int steps = anySteps(g); double dt = T / steps;
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = dt; auto G = gen((unsigned)steps, sc);
        auto model = build(GBM, {}, tk, md(), G);
        c.desc("S=%.17g sigma=%.17g r=%.17g c=%.17g T=%.17g steps=%d", k.S, k.sig, k.r, k.q(), T, steps);
        int rounds = g.range(1, 3);
        for (int q = 0; q < rounds; ++q) {
            G->log.clear(); bool mat = g.chance(0.3);
            std::vector<double> got; if (mat) got = {model->simulatePriceAtMaturity(T)}; else got = model->simulatePrices(T);
            c.expect((int)G->log.size() == steps && G->drawn(Z) == steps, "%zu draws (%d standard normal) for %d steps", G->log.size(), G->drawn(Z), steps);
            if ((int)G->log.size() != steps) return;
            long double x = 0; std::vector<double> want;
            for (auto& d : G->log) { x += ((long double)k.r - k.q() - 0.5L * k.sig * k.sig) * dt + k.sig * std::sqrt((long double)dt) * d.second; want.push_back((double)(k.S * std::exp(x))); }
            if (mat) want = {want.back()};
            if (!c.expect(got.size() == want.size(), "path length %zu", got.size())) return;
            for (size_t i = 0; i < got.size(); ++i) if (!c.close(got[i], want[i], 1e-9, 0, "price %zu", i)) return;
            count("prices compared", got.size());
        }
    });
    run("heston", 2500, [](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); if (g.chance(0.1)) p.v0 = 0; std::string tk = "DH"; put(tk, k); double T = g.chance(0.05) ? 0.0 : anyT(g); int steps = anySteps(g); double dt = T / steps;
        auto rec = std::make_shared<RecCIR>(); for (int i = 0; i < steps; ++i) rec->next.push_back(g.chance(0.2) ? -g.u(0, 0.2) : g.u(0, 0.7));
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = dt; auto G = gen((unsigned)steps, sc);
        auto model = build(HESTON, p, tk, md(), G, rec);
        c.desc("%s S=%.17g r=%g c=%g T=%g steps=%d", show(HESTON, p).c_str(), k.S, k.r, k.q(), T, steps);
        // how the two draws of a step drive stock and variance: unit vectors a (stock) and b (variance), observed on a one-step model
        double a[2], b[2];
        {
            MP q = p; q.v0 = 0.25; auto r1 = std::make_shared<RecCIR>(); auto s1 = std::make_shared<Script>(); auto G1 = gen(1, s1); auto m1 = build(HESTON, q, tk, md(), G1, r1);
            auto resp = [&](double z1, double z2) { s1->n.clear(); s1->fix[{Z, 0}] = z1; s1->fix[{Z, 1}] = z2; double S = m1->simulatePrices(1.0)[0]; return std::log(S / k.S); };
            double base = resp(0, 0); a[0] = (resp(1, 0) - base) / 0.5; b[0] = r1->log.back().z; a[1] = (resp(0, 1) - base) / 0.5; b[1] = r1->log.back().z;
            c.close(a[0] * a[0] + a[1] * a[1], 1, 1e-9, 1, "variance of the stock driving draw");
            c.close(b[0] * b[0] + b[1] * b[1], 1, 1e-9, 1, "variance of the variance driving draw");
            c.close(a[0] * b[0] + a[1] * b[1], p.rho, 1e-9, 1, "correlation of the driving draws");
        }
        G->log.clear(); rec->log.clear(); rec->k = 0; sc->n.clear();
        auto got = model->simulatePrices(T);
        c.expect((int)G->log.size() == 2 * steps && G->drawn(Z) == 2 * steps, "%zu draws (%d standard normal) for %d steps", G->log.size(), G->drawn(Z), steps);
        c.expect((int)rec->log.size() == steps, "variance updated %zu times in %d steps", rec->log.size(), steps);
        if (!c.expect((int)got.size() == steps, "path length %zu", got.size()) || (int)G->log.size() != 2 * steps) return;
        long double x = 0; double V = p.v0;
        for (int i = 0; i < steps; ++i) {
            double Vp = std::max(V, 0.0), z = a[0] * G->log[2 * i].second + a[1] * G->log[2 * i + 1].second;
            x += ((long double)k.r - k.q() - 0.5L * Vp) * dt + std::sqrt((long double)Vp * dt) * z;
            if (!c.close(got[i], (double)(k.S * std::exp(x)), 1e-8, 0, "price %d with variance %.17g", i, V)) return;
            if (V < 0) count("steps with negative variance");
            V = rec->next[i]; count("prices compared");
        }
    });
    run("rejected", 300, [](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); put("DR", k); int w = (int)g.below(3); double x = g.chance(0.5) ? 1e-9 : g.logu(1e-6, 10);
        if (w == 0) p.rho = (g.chance(0.5) ? 1 : -1) * (1 + x); else if (w == 1) p.v0 = -x; else p.sv = -x;
        c.desc("%s", show(HESTON, p).c_str());
        c.throws<std::logic_error>([&] { build(HESTON, p, "DR", md(), std::make_shared<PseudoRandomNumberGenerator>(3u, 1u)); }, "inadmissible Heston parameters accepted");
    });
}

// ------------------------------------------------------------------ C15
void rejectJumps() {
    run("rejected", 600, [](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); put("JR", k); int m = g.picki({MERTON, KOU, VG, BATES}); double x = g.chance(0.3) ? 0.0 : g.logu(1e-9, 10);
        switch (m) {
            case MERTON: p.sJ = -x; break;
            case KOU: switch (g.below(3)) { case 0: p.p = g.chance(0.5) ? -x - 1e-12 : 1 + x + 1e-12; break; case 1: p.e1 = 1 - x; break; default: p.e2 = -x; } break;
            case VG: p.nu = -x; break;
            default: switch (g.below(5)) { case 0: p.v0 = -x; break; case 1: p.kappa = -x; break; case 2: p.sv = -x; break; case 3: p.sJ = -x; break; default: p.rho = (g.chance(0.5) ? 1 : -1) * (1 + x + 1e-9); }
        }
        c.desc("%s", show(m, p).c_str());
        c.throws<std::invalid_argument>([&] { build(m, p, "JR", md(), std::make_shared<PseudoRandomNumberGenerator>(3u, 1u)); }, "inadmissible %s parameters accepted", MN[m]);
        // and the admissible neighbour is accepted
        MP ok = randMP(g, k); build(m, ok, "JR", md(), std::make_shared<PseudoRandomNumberGenerator>(3u, 1u)); count("rejections");
    });
}
void c15() {
    for (int m : {MERTON, KOU, VG, BATES}) run(std::string("path-") + MN[m], 1200, [m](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); std::string tk = "JP"; put(tk, k); double T = anyT(g); int steps = anySteps(g); double dt = T / steps;
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = dt; sc->p = p; auto G = gen((unsigned)steps, sc);
        auto rec = std::make_shared<RecCIR>(); for (int i = 0; i < steps; ++i) rec->next.push_back(g.chance(0.2) ? -g.u(0, 0.2) : g.u(0, 0.5));
        if (g.chance(0.05)) sc->fix[{PO, 0}] = 60; if (steps > 1000) sc->plain = true;
        auto model = build(m, p, tk, md(), G, rec);
        c.desc("%s S=%.17g sigma=%g r=%g c=%g T=%g steps=%d", show(m, p).c_str(), k.S, k.sig, k.r, k.q(), T, steps);
        double a[2] = {1, 0};
        if (m == BATES) { MP q = p; q.v0 = 0.25; auto r1 = std::make_shared<RecCIR>(); auto s1 = std::make_shared<Script>(); s1->plain = true; auto G1 = gen(1, s1); auto m1 = build(BATES, q, tk, md(), G1, r1);
            auto resp = [&](double z1, double z2) { s1->n.clear(); s1->fix[{Z, 0}] = z1; s1->fix[{Z, 1}] = z2; return std::log(m1->simulatePrices(1.0)[0] / k.S); };
            double base = resp(0, 0), b[2]; a[0] = (resp(1, 0) - base) / 0.5; b[0] = r1->log.back().z; a[1] = (resp(0, 1) - base) / 0.5; b[1] = r1->log.back().z;
            c.close(a[0] * a[0] + a[1] * a[1], 1, 1e-9, 1, "variance of the stock driving draw");
            c.close(a[0] * b[0] + a[1] * b[1], p.rho, 1e-9, 1, "correlation of the driving draws"); }
        auto got = model->simulatePrices(T);
        if (!c.expect((int)got.size() == steps, "path length %zu", got.size())) return;
        if (!Structure::own(m, p, tk)) { decideByLaw(c, m, p, k, dt, steps); return; }
        // consume the recorded draws kind by kind
        std::map<int, std::vector<double>> q; std::map<int, size_t> at; for (auto& d : G->log) q[d.first].push_back(d.second);
        auto take = [&](Draw d) { if (at[d] >= q[d].size()) throw std::runtime_error(std::string("too few draws of kind ") + DN[d]); return q[d][at[d]++]; };
        long double x = 0; double V = p.v0;
        long double kJ = std::expm1((long double)p.muJ + 0.5L * p.sJ * p.sJ), kK = p.p * (long double)p.e1 / (p.e1 - 1) + (1 - p.p) * (long double)p.e2 / (p.e2 + 1) - 1;
        for (int i = 0; i < steps; ++i) {
            if (m == VG) { double ga = take(GA), z = take(Z); x += ((long double)k.r - k.q() + std::log1p((long double)-p.th * p.nu - 0.5L * k.sig * k.sig * p.nu) / p.nu) * dt + (long double)p.th * ga + k.sig * std::sqrt((long double)ga) * z; }
            else {
                double var = m == BATES ? std::max(V, 0.0) : k.sig * k.sig, z = take(Z); if (m == BATES) { double z2 = take(Z); z = a[0] * z + a[1] * z2; }
                x += ((long double)k.r - k.q() - 0.5L * var - p.lambda * (m == KOU ? kK : kJ)) * dt + std::sqrt((long double)var * dt) * z;
                int n = (int)take(PO); count("jumps observed", n);
                for (int j = 0; j < n; ++j) { if (m == KOU) { double u = take(UN), e = take(EX); x += u < p.p ? e : -e; } else x += take(JN); }
            }
            if (!c.close(got[i], (double)(k.S * std::exp(x)), 1e-8, 0, "price %d", i)) return;
            V = rec->next[i]; count("prices compared");
        }
        size_t used = 0; for (auto& e : at) used += e.second;
        c.expect(used == G->log.size(), "%zu draws made, %zu accounted for by the model's definition", G->log.size(), used);
    });
    // the law of every distribution the models draw from
    for (int m : {MERTON, KOU, VG, BATES}) run(std::string("laws-") + MN[m], 40, [m](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); std::string tk = "JL"; put(tk, k); int steps = g.range(1, 12); double T = m == VG ? g.u(0.2, 3) : g.u(0.05, 5), dt = T / steps;
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = dt; sc->p = p; auto G = gen((unsigned)steps, sc);
        c.desc("%s T=%g steps=%d", show(m, p).c_str(), T, steps);
        for (int i = 0; i < steps; ++i) sc->fix[{PO, i}] = 2;
        std::map<int, std::vector<double>> u;     // per kind: a large sample from the distribution handed to the generator
        std::vector<std::pair<double, std::vector<double>>> ex; double lastU = 0; uint64_t salt = g.u64(); int n = 6000;
        G->inspect = [&](Draw d, Distribution& dist) { if (d == EX) { ex.push_back({lastU, stats::sample(dist, salt, n)}); } else if (!u.count(d)) u[d] = stats::sample(dist, salt + d, n); };
        auto src = G->src; G->src = [&](Draw d) { double v = src(d); if (d == UN) lastU = v; return v; };
        build(m, p, tk, md(), G)->simulatePrices(T);
        bool off = !Structure::own(m, p, tk);   // other draws than the definition names, or from other laws: the moves decide
        auto law = [&](Draw d, const stats::Cdf& F, bool disc) { if (!u.count(d)) { off = true; return; } double D = stats::ks(u[d], F, disc); if (D < stats::KS_LIMIT) maxi("largest sqrt(n)*KS", D); else if (d == Z) c.fail(fmt("%s draws do not follow the stated law: sqrt(n) D = %.3f", DN[d], D)); else off = true; ++c.checks; count("laws compared"); };
        law(Z, stats::normal(0, 1), false);
        if (m != VG) law(PO, stats::poisson(p.lambda * dt), true);
        if (m == MERTON || m == BATES) law(JN, stats::normal(p.muJ, p.sJ), false);
        if (m == VG) law(GA, stats::gammaRate(dt / p.nu, 1 / p.nu), false);
        if (m == KOU) {
            law(UN, stats::uniform(0, 1), false); std::set<bool> seen;
            for (auto& [uu, xs] : ex) { bool up = uu < p.p; if (!seen.insert(up).second) continue; double D = stats::ks(xs, stats::expo(up ? p.e1 : p.e2)); if (D < stats::KS_LIMIT) maxi("largest sqrt(n)*KS", D); else off = true; ++c.checks; count("laws compared"); }
        }
        if (off) { G->inspect = nullptr; decideByLaw(c, m, p, k, dt, steps); }
    });
    run("kou-direction", 300, [](Case& c) {   // the set of uniforms leading upwards has measure p
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); p.p = g.chance(0.3) ? g.pickd({0.0, 1.0, 0.5, 1e-3, 0.999}) : g.u(); put("JK", k);
        auto sc = std::make_shared<Script>(); sc->salt = 5; sc->dt = 1; sc->p = p; auto G = gen(1, sc); auto model = build(KOU, p, "JK", md(), G);
        c.desc("p=%.17g", p.p);
        auto up = [&](double u, double e) { sc->n.clear(); sc->fix[{Z, 0}] = 0; sc->fix[{PO, 0}] = 1; sc->fix[{UN, 0}] = u; sc->fix[{EX, 0}] = e; double x1 = std::log(model->simulatePrices(1.0)[0]); sc->n.clear(); sc->fix[{PO, 0}] = 0; double x0 = std::log(model->simulatePrices(1.0)[0]); return x1 > x0; };
        int n = 200, ups = 0; double e = g.u(0.1, 1); for (int i = 0; i < n; ++i) ups += up((i + 0.5) / n, e);
        c.expect(std::fabs(ups - p.p * n) <= 1.01, "%d of %d evenly spaced uniforms jump upwards, p=%g", ups, n, p.p); count("directions scanned", n);
    }, 5);
    run("VG small nu", 300, [](Case& c) {   // the correction that keeps the forward does not drown in rounding as the gamma clock tends to calendar time
        auto& g = c.rng; Mk k{g.u(50, 150), 0.0, randRate(g), randCoupon(g)}; MP p = randMP(g, k); p.nu = g.logu(1e-14, 1e-4); p.th = g.u(-1, 1); put("JS", k); int steps = g.range(1, 8); double T = g.u(0.2, 3);
        auto model = build(VG, p, "JS", md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)steps, (unsigned)g.below(1u << 31))); c.desc("VG nu=%.17g theta=%.17g sigma=0 S=%.17g T=%g steps=%d", p.nu, p.th, k.S, T, steps);
        auto s = model->simulatePrices(T); long double om = std::log1p(-(long double)p.th * p.nu) / p.nu; if (!c.expect((int)s.size() == steps, "path length")) return;
        for (int i = 0; i < steps; ++i) { double t = T * (i + 1) / steps, x = std::log(s[i] / k.S), want = (double)(((long double)k.r - k.q() + om + p.th) * t), sd = std::fabs(p.th) * std::sqrt(p.nu * t); c.expect(std::fabs(x - want) <= 9 * sd + 1e-11, "log price move %.17g at %.17g, expected %.17g +- %.3g", x, t, want, sd); count("prices under a fast clock"); }
    });
    rejectJumps();
}
std::complex<double> charfn(int m, const MP& p, const Mk& k, double T, double u) {
    using C = std::complex<double>; C i(0, 1); double mu = k.r - k.q(), s2 = k.sig * k.sig;
    switch (m) {
        case GBM: return std::exp(i * u * (mu - s2 / 2) * T - 0.5 * s2 * u * u * T);
        case MERTON: { double kk = std::expm1(p.muJ + 0.5 * p.sJ * p.sJ); return std::exp(i * u * (mu - s2 / 2 - p.lambda * kk) * T - 0.5 * s2 * u * u * T + p.lambda * T * (std::exp(i * u * p.muJ - 0.5 * p.sJ * p.sJ * u * u) - 1.0)); }
        case KOU: { double kk = p.p * p.e1 / (p.e1 - 1) + (1 - p.p) * p.e2 / (p.e2 + 1) - 1; return std::exp(i * u * (mu - s2 / 2 - p.lambda * kk) * T - 0.5 * s2 * u * u * T + p.lambda * T * (p.p * p.e1 / (p.e1 - i * u) + (1 - p.p) * p.e2 / (p.e2 + i * u) - 1.0)); }
        default: { double om = std::log(1 - p.th * p.nu - 0.5 * s2 * p.nu) / p.nu; return std::exp(i * u * (mu + om) * T) * std::exp(-T / p.nu * std::log(1.0 - i * u * p.th * p.nu + 0.5 * s2 * p.nu * u * u)); }
    }
}
void c15stat() {
    run("characteristic", 16, [](Case& c) {
        auto& g = c.rng; int m = (int[]){MERTON, KOU, VG, GBM}[c.index % 4]; Mk k{100, g.u(0.1, 0.5), g.u(-0.02, 0.1), randCoupon(g)}; MP p = randMP(g, k); put("CF", k);
        int steps = g.range(1, 5), n = 50000; double T = g.u(0.3, 2); unsigned seed = (unsigned)g.below(1u << 31);
        c.desc("%s sigma=%g r=%g c=%g T=%g steps=%d seed=%u", show(m, p).c_str(), k.sig, k.r, k.q(), T, steps, seed);
        auto model = build(m, p, "CF", md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)steps, seed)); std::vector<double> x(n); for (auto& y : x) y = std::log(model->simulatePriceAtMaturity(T) / k.S);
        for (double u : {0.5, 1.0, 2.0, 4.0, 8.0, 15.0}) { double d = stats::cf(x, u, charfn(m, p, k, T, u)); maxi("largest sqrt(n)*|CF difference|", d); c.expect(d < stats::CF_LIMIT, "characteristic function at %g differs: sqrt(n)*distance %.2f", u, d); count("characteristic function points"); }
    }, 12);
}

// ------------------------------------------------------------------ C16
void c16() {
    for (int m : ALLM) run(std::string("form-") + MN[m], 500, [m](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); std::string tk = "WF"; put(tk, k); int steps = anySteps(g); double T = anyT(g); if (m == KOU) { p.e2 = std::max(p.e2, 0.5); steps = std::min(steps, 300); }
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = T / steps; sc->p = p; sc->plain = steps > 1000; auto G = gen((unsigned)steps, sc); auto model = build(m, p, tk, md(), G);
        c.desc("%s S=%.17g sigma=%g r=%g c=%g T=%g steps=%d", show(m, p).c_str(), k.S, k.sig, k.r, k.q(), T, steps);
        c.expect(model->getSteps() == (unsigned)steps && model->getGenerator() == G, "steps or generator of the model");
        auto a = model->simulatePrices(T);
        if (!c.expect((int)a.size() == steps, "%zu prices for %d steps", a.size(), steps)) return;
        for (double x : a) if (!c.expect(std::isfinite(x) && x > 0, "price %.17g", x)) return;
        // draws alone decide: a repetition, another instance and the price at maturity agree
        double T2 = anyT(g); (void)model->simulatePrices(T2);
        sc->n.clear(); auto b = model->simulatePrices(T); c.expect(a == b, "the same draws give another path");
        sc->n.clear(); auto other = build(m, p, tk, md(), G); auto d = other->simulatePrices(T); c.expect(a == d, "an identical model gives another path on the same draws");
        sc->n.clear(); double e = model->simulatePriceAtMaturity(T); c.close(e, a.back(), 1e-10, 0, "price at maturity vs last price of the path");
        // proportional to the initial price
        double f = g.logu(0.01, 100); md()->updateStockPrice(tk, k.S * f); sc->n.clear(); auto h = model->simulatePrices(T);
        if (c.expect(h.size() == a.size(), "path length")) for (size_t i = 0; i < a.size(); ++i) if (!c.close(h[i], a[i] * f, 1e-10, 0, "price %zu after scaling the initial price by %.17g", i, f)) break;
        count("prices observed", 5 * a.size());
    });
    for (int m : ALLM) run(std::string("fresh-") + MN[m], 300, [m](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); std::string tk = "FR"; put(tk, k); int steps = g.range(1, 10); double T = anyT(g);
        unsigned seed = (unsigned)g.below(1u << 31);
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = T / steps; sc->p = p;
        auto oldG = gen((unsigned)steps, sc); auto old = build(m, p, tk, md(), oldG);
        Terms t; t.k = g.pick(ALL_KINDS); t.call = g.chance(0.5); t.ticker = tk; t.T = T; t.K = k.S * g.u(0.7, 1.3); t.K2 = t.K * 1.2; t.B = k.S * g.u(0.7, 1.4); t.dir = g.chance(0.5) ? BarrierDirection::Up : BarrierDirection::Down;
        auto oldOpt = make(t);
        c.desc("%s S=%.17g sigma=%g r=%g c=%g T=%g steps=%d %s:", show(m, p).c_str(), k.S, k.sig, k.r, k.q(), T, steps, kname(t.k));
        if (g.chance(0.7)) { (void)old->simulatePrices(T); (void)old->simulatePriceAtMaturity(T); }
        int moves = g.range(1, 5);
        for (int i = 0; i < moves; ++i) switch (g.below(4)) {
            case 0: { double x = g.u(1, 300); md()->updateStockPrice(tk, x); c.desc("S:=%.6g", x); break; }
            case 1: { double x = m == VG ? k.sig * g.u(0.2, 1) : g.u(0, 0.6); md()->updateStockSigma(tk, x); c.desc("sigma:=%.6g", x); break; }
            case 2: { Opt x = randCoupon(g); md()->updateStockCoupon(tk, x); c.desc("c:=%g", x.value_or(-1)); break; }
            default: { double x = randRate(g); md()->setR(x); c.desc("r:=%g", x); }
        }
        sc->n.clear(); auto a = old->simulatePrices(T);
        auto freshG = gen((unsigned)steps, sc); auto fresh = build(m, p, tk, md(), freshG); sc->n.clear(); auto b = fresh->simulatePrices(T);
        if (c.expect(a.size() == b.size(), "path length")) for (size_t i = 0; i < a.size(); ++i) if (!c.close(a[i], b[i], 1e-12, 0, "price %zu: the model made before the updates vs one made after", i)) break;
        sc->n.clear(); double ma = old->simulatePriceAtMaturity(T); sc->n.clear(); double mb = fresh->simulatePriceAtMaturity(T); c.close(ma, mb, 1e-12, 0, "price at maturity, old model vs new");
        if (m == GBM) { sc->n.clear(); double x = old->simulatePriceBackward(100, T / 2, T); sc->n.clear(); double y = fresh->simulatePriceBackward(100, T / 2, T); c.close(x, y, 1e-12, 0, "backward price, old model vs new"); }
        auto want = md()->getStockData(tk);
        // a pricer over the old objects equals one over new objects with the same seed
        auto pr = [&](std::shared_ptr<Option> o) { auto mdl = build(m, p, tk, md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)steps, seed));
            auto go = [&](MCBuilder&& bd) { bd.setOption(o); bd.setStockPriceModel(mdl); return bd.build(); };
            switch (t.k) { case Kind::American: return go(AmericanMCBuilder()); case Kind::ArithAsian: return go(ArithmeticAsianMCBuilder()); case Kind::GeoAsian: return go(GeometricAsianMCBuilder()); case Kind::KnockIn: return go(KnockInBarrierMCBuilder()); case Kind::KnockOut: return go(KnockOutBarrierMCBuilder()); case Kind::FloatLB: return go(FloatingStrikeLookbackMCBuilder()); case Kind::FixedLB: return go(FixedStrikeLookbackMCBuilder()); default: return go(MCSinglePathBuilder()); } };
        auto P1 = pr(oldOpt);
        if (g.chance(0.5)) { md()->setR(md()->getR() + 0.01); md()->updateStockPrice(tk, want->getPrice() * 1.01); }
        double x = P1->calculatePrice(20), y = pr(make(t))->calculatePrice(20);
        c.close(x, y, 1e-10, 1e-6, "pricer made before the updates vs one made after"); count("old/new comparisons");
    });
}

// ------------------------------------------------------------------ C17
void c17() {
    run("bridge", 6000, [](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); std::string tk = "BB"; put(tk, k); auto sc = std::make_shared<Script>(); sc->salt = 1; auto G = gen((unsigned)g.range(1, 20), sc); auto model = build(GBM, {}, tk, md(), G);
        if (g.chance(0.4)) { k.S = g.u(10, 300); k.sig = g.u(0, 0.9); md()->updateStockPrice(tk, k.S); md()->updateStockSigma(tk, k.sig); }
        double t = g.chance(0.1) ? g.u(30, 200) : anyT(g), s = t * (g.chance(0.2) ? g.pickd({0.0, 1.0, 0.5, 1e-9}) : g.u()), St = k.S * std::exp(g.chance(0.15) ? g.u(-25, 25) : g.u(-1.5, 1.5)), z = g.chance(0.2) ? g.pickd({0.0, 8.0, -8.0}) : g.normal();
        sc->fix[{Z, 0}] = z;
        c.desc("S0=%.17g sigma=%.17g St=%.17g s=%.17g t=%.17g z=%.17g", k.S, k.sig, St, s, t, z);
        double got = model->simulatePriceBackward(St, s, t);
        long double want = k.S * std::exp((long double)s / t * std::log((long double)St / k.S) + k.sig * std::sqrt((long double)s * (t - s) / t) * z);
        c.close(got, (double)want, 1e-9, 0, "backward price"); c.expect(G->log.size() == 1 && G->drawn(Z) == 1, "%zu draws", G->log.size()); count("backward draws");
    });
    run("bridge at time zero", 600, [](Case& c) {   // T = 0: every date is today
        auto& g = c.rng; Mk k = randMk(g); put("BZ", k); int steps = g.range(1, 12); auto G = std::make_shared<PseudoRandomNumberGenerator>((unsigned)steps, (unsigned)g.below(1u << 31)); auto model = build(GBM, {}, "BZ", md(), G);
        if (g.chance(0.4)) { k.S = g.u(10, 300); k.sig = g.u(0, 0.9); md()->updateStockPrice("BZ", k.S); md()->updateStockSigma("BZ", k.sig); }
        c.desc("S0=%.17g sigma=%.17g steps=%d", k.S, k.sig, steps); double S = model->simulatePriceAtMaturity(0.0); c.close(S, k.S, 1e-14, 0, "price at maturity zero"); for (int j = steps - 1; j >= 0; --j) { S = model->simulatePriceBackward(S, 0.0, 0.0); if (!c.close(S, k.S, 1e-14, 0, "price %d of a path of no length", j)) return; } count("backward draws", (uint64_t)steps);
    });
    run("unsupported", 200, [](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); put("BU", k); int m = g.picki({HESTON, MERTON, KOU, VG, BATES}); auto model = build(m, p, "BU", md(), std::make_shared<PseudoRandomNumberGenerator>(4u, 1u));
        c.desc("%s", show(m, p).c_str()); c.throws<std::logic_error>([&] { (void)model->simulatePriceBackward(100, 0.5, 1.0); }, "%s simulates backwards", MN[m]);
    });
    run("joint", 60, [](Case& c) {   // whole backward paths from the forward terminal law: covariances of the log prices
        auto& g = c.rng; Mk k{100, g.u(0.1, 0.6), g.u(-0.02, 0.1), randCoupon(g)}; put("BJ", k); int d = g.range(2, 4), n = 6000; double T = g.u(0.3, 3), dt = T / d; unsigned seed = (unsigned)g.below(1u << 31);
        auto model = build(GBM, {}, "BJ", md(), std::make_shared<PseudoRandomNumberGenerator>((unsigned)d, seed)); c.desc("sigma=%g r=%g c=%g T=%g dates=%d seed=%u", k.sig, k.r, k.q(), T, d, seed);
        std::vector<std::vector<double>> X(d, std::vector<double>(n));
        for (int i = 0; i < n; ++i) { double S = model->simulatePriceAtMaturity(T); for (int j = d; j >= 1; --j) { if (j < d) S = model->simulatePriceBackward(S, j * dt, (j + 1) * dt); X[j - 1][i] = (std::log(S / k.S) - (k.r - k.q() - 0.5 * k.sig * k.sig) * j * dt) / k.sig; } }
        // increments of the recovered Brownian motion are independent standard normals
        std::vector<std::vector<double>> w(d, std::vector<double>(n)); for (int j = 0; j < d; ++j) for (int i = 0; i < n; ++i) w[j][i] = (X[j][i] - (j ? X[j - 1][i] : 0)) / std::sqrt(dt);
        for (int j = 0; j < d; ++j) { double D = stats::ks(w[j], stats::normal(0, 1)); maxi("largest sqrt(n)*KS", D); c.expect(D < stats::KS_LIMIT, "increment %d of the backward path is not N(0,1): %.2f", j, D);
            for (int l = 0; l < j; ++l) { double s = 0; for (int i = 0; i < n; ++i) s += w[j][i] * w[l][i]; double e = std::fabs(s) / std::sqrt((double)n); maxi("largest correlation in standard errors", e); c.expect(e < 7, "increments %d and %d are correlated: %.2f standard errors", l, j, e); } count("increments compared"); }
    }, 5);
}

// ------------------------------------------------------------------ C18
void c18() {
    run("schemes", 6000, [](Case& c) {
        auto& g = c.rng; CIRExplicitEulerDiscretization E; CIRMilsteinDiscretization Mi; const CIRDiscretization* s = g.chance(0.5) ? (const CIRDiscretization*)&E : &Mi; bool mil = s == &Mi;
        double V = g.chance(0.25) ? g.pickd({0.0, -0.0, -1e-9, -0.5, 1e-300, 5.0}) : g.u(-0.3, 1.0), dt = g.chance(0.1) ? 0.0 : g.logu(1e-6, 2), ka = g.u(0, 6), th = g.u(0, 0.6), sv = g.u(0, 1.5), z = g.chance(0.2) ? g.pickd({0.0, 1.0, -1.0, 7.0, -7.0}) : g.normal();
        c.desc("%s V=%.17g dt=%.17g kappa=%.17g theta=%.17g sigma_v=%.17g z=%.17g", mil ? "Milstein" : "Euler", V, dt, ka, th, sv, z);
        long double Vp = V > 0 ? V : 0, want = V + (long double)ka * (th - Vp) * dt + sv * std::sqrt(Vp * dt) * z; if (mil) want += 0.25L * sv * sv * dt * ((long double)z * z - 1);
        double x = V; s->update(x, dt, ka, th, sv, z); c.close(x, (double)want, 1e-12, 1, "updated variance"); count(V < 0 ? "negative variances" : "non-negative variances");
    });
    for (int m : {HESTON, BATES}) run(std::string("applied-") + MN[m], 1500, [m](Case& c) {
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); put("VA", k); int steps = anySteps(g); double T = anyT(g), dt = T / steps;
        auto rec = std::make_shared<RecCIR>(); for (int i = 0; i < steps; ++i) rec->next.push_back(g.chance(0.2) ? -g.u(0, 0.2) : g.u(0, 0.7));
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = dt; sc->p = p; auto G = gen((unsigned)steps, sc); auto model = build(m, p, "VA", md(), G, rec);
        c.desc("%s T=%g steps=%d", show(m, p).c_str(), T, steps);
        {   // the draw that drives the variance has correlation rho with the one that drives the stock (observed on a one-step model)
            MP q = p; q.v0 = 0.25; auto r1 = std::make_shared<RecCIR>(); auto s1 = std::make_shared<Script>(); s1->plain = true; auto m1 = build(m, q, "VA", md(), gen(1, s1), r1); double a[2], b[2];
            auto resp = [&](double z1, double z2) { s1->n.clear(); s1->fix[{Z, 0}] = z1; s1->fix[{Z, 1}] = z2; return std::log(m1->simulatePrices(1.0)[0] / k.S); };
            double base = resp(0, 0); a[0] = (resp(1, 0) - base) / 0.5; b[0] = r1->log.back().z; a[1] = (resp(0, 1) - base) / 0.5; b[1] = r1->log.back().z;
            if (!c.close(b[0] * b[0] + b[1] * b[1], 1, 1e-9, 1, "variance of the variance driving draw")) return;
            if (!c.close(a[0] * b[0] + a[1] * b[1], p.rho, 1e-8, 1, "correlation of the variance driving draw with the stock driving draw")) return;
            count("driving draw correlations");
        }
        int rounds = g.range(1, 3);
        for (int q = 0; q < rounds; ++q) {
            G->log.clear(); rec->log.clear(); rec->k = 0; sc->n.clear();
            if (g.chance(0.3)) (void)model->simulatePriceAtMaturity(T); else (void)model->simulatePrices(T);
            if (!c.expect((int)rec->log.size() == steps, "variance scheme applied %zu times in %d steps (round %d)", rec->log.size(), steps, q)) return;
            for (int i = 0; i < steps; ++i) { auto& u = rec->log[i]; double Vin = i ? rec->next[i - 1] : p.v0;
                if (!c.expect(u.V == Vin, "step %d starts from variance %.17g instead of %.17g", i, u.V, Vin)) return;
                if (!c.close(u.dt, dt, 1e-12, 0, "step %d: time step", i)) return;
                if (!c.expect(u.kappa == p.kappa && u.theta == p.theta && u.sv == p.sv, "step %d: parameters (%g,%g,%g)", i, u.kappa, u.theta, u.sv)) return; count("scheme applications"); }
            // the variance draw of each step is a unit combination of that step's own two normals, the same in every step
            std::vector<double> z; for (auto& d : G->log) if (d.first == Z) z.push_back(d.second);
            if (!c.expect((int)z.size() == 2 * steps, "%zu normal draws", z.size())) return;
            bool ok[4] = {true, true, true, true}; double r2 = std::sqrt(std::max(0.0, 1 - p.rho * p.rho));
            for (int i = 0; i < steps; ++i) { double w = rec->log[i].z, a = z[2 * i], b = z[2 * i + 1], cand[4] = {a, b, p.rho * a + r2 * b, p.rho * b + r2 * a}; for (int q2 = 0; q2 < 4; ++q2) if (std::fabs(w - cand[q2]) > 1e-9 * (1 + std::fabs(w))) ok[q2] = false; }
            c.expect(ok[0] || ok[1] || ok[2] || ok[3], "the variance driving draw is not the one of its step");
        }
    });
    for (int m : {HESTON, BATES}) run(std::string("choice-") + MN[m], 800, [m](Case& c) {   // the configured scheme decides the path; the default is explicit Euler
        auto& g = c.rng; Mk k = randMk(g); MP p = randMP(g, k); put("VC", k); int steps = g.range(2, 20); double T = g.u(0.1, 3), dt = T / steps;
        auto sc = std::make_shared<Script>(); sc->salt = g.u64(); sc->dt = dt; sc->p = p; auto G = gen((unsigned)steps, sc);
        c.desc("%s T=%g steps=%d", show(m, p).c_str(), T, steps);
        // reference path: a recording scheme that applies the stated formula itself
        struct Ref final : CIRDiscretization { bool mil; void update(double& V, const double& dt, const double& ka, const double& th, const double& sv, const double& z) const override { double Vp = std::max(V, 0.0); V = V + ka * (th - Vp) * dt + sv * std::sqrt(Vp * dt) * z + (mil ? sv * sv * dt * (z * z - 1) / 4 : 0); } };
        auto re = std::make_shared<Ref>(); re->mil = false; auto rm = std::make_shared<Ref>(); rm->mil = true;
        auto path = [&](std::shared_ptr<CIRDiscretization> d) { sc->n.clear(); return build(m, p, "VC", md(), G, d)->simulatePrices(T); };
        auto eq = [&](const std::vector<double>& a, const std::vector<double>& b, const char* w) { if (c.expect(a.size() == b.size(), "%s length", w)) for (size_t i = 0; i < a.size(); ++i) if (!c.close(a[i], b[i], 1e-8, 0, "%s price %zu", w, i)) return; count("paths compared"); };
        auto pe = path(re), pm = path(rm);
        eq(path(nullptr), pe, "default scheme vs explicit Euler"); eq(path(std::make_shared<CIRExplicitEulerDiscretization>()), pe, "explicit Euler"); eq(path(std::make_shared<CIRMilsteinDiscretization>()), pm, "Milstein");
    });
}
// ---------------------------------------------------------------- more jumps in a step than an int counts
struct ManyGen final : NumberGenerator {
    double jumps; mutable uint64_t sizes = 0;
    explicit ManyGen(double n) : NumberGenerator(1u, 1u), jumps(n) {}
    double operator()(Distribution& d) const override {
        const auto& t = typeid(d);
        if (t == typeid(NormalDistribution) || t == typeid(ExponentialDistribution)) { ++sizes; return 1e-9; }
        return t == typeid(PoissonDistribution) ? jumps : 0.0;
    }
};
void c15big() {
    run("beyond int", mon::st().thorough ? 3 : 1, [](Case& c) {
        auto& g = c.rng; const int ms[] = {MERTON, KOU, BATES}, m = ms[mon::st().thorough ? c.index % 3 : g.below(3)]; double n = std::ldexp(1.0, 31) + 1 + (double)g.below(9); std::string tk = "N15";
        MP p{}; p.kappa = 1; p.theta = 0.04; p.sv = 0.1; p.v0 = 0.04; p.lambda = 1e-6; p.sJ = 0.1; p.p = 1; p.e1 = 10; p.e2 = 10; md()->setR(0); md()->addStock(tk, 100.0, 0.0, 0.0);
        c.desc("%s with %.0f jumps in one step", MN[m], n); auto G = std::make_shared<ManyGen>(n); double x = build(m, p, tk, md(), G)->simulatePrices(1.0).back(), drift = m == BATES ? -0.02 : 0.0;
        c.expect(G->sizes == (uint64_t)n, "%llu jump sizes drawn", (unsigned long long)G->sizes); c.close(std::log(x / 100.0), n * 1e-9 + drift, 1e-4, 1.0, "log price"); count("jumps in one step", (uint64_t)n);
    }, 1);
}
}
int main(int argc, char** argv) {
    return mon::main_(argc, argv, {{"C13", c13}, {"C13stat", c13stat}, {"C14", c14}, {"C15", c15}, {"C15stat", c15stat}, {"C15big", c15big}, {"C16", c16}, {"C17", c17}, {"C18", c18}});
}
