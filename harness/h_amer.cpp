// C12: Longstaff-Schwartz observed through scripted models and recording basis/regression strategies.
#include "fixtures.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"

namespace {
using Vec = Eigen::VectorXd; using Mat = Eigen::MatrixXd;
struct ConstBasis final : BasisFunction { ConstBasis() : BasisFunction(1) {} Mat generate(const Vec& x) const override { return Mat::Ones(x.size(), 1); } };
struct RecBasis final : BasisFunction {
    std::shared_ptr<BasisFunction> in; mutable std::vector<std::pair<Vec, Mat>> log;
    explicit RecBasis(std::shared_ptr<BasisFunction> i) : BasisFunction(1), in(std::move(i)) {}
    Mat generate(const Vec& x) const override { Mat m = in->generate(x); log.push_back({x, m}); return m; }
};
struct RecReg final : Regression {
    struct Call { Mat A; Vec y, coef; };
    std::function<Vec(const Mat&, const Vec&)> f; mutable std::vector<Call> log;
    Vec solve(const Mat& A, const Vec& y) const override { Vec c = f(A, y); log.push_back({A, y, c}); return c; }
};
// price at an earlier date as a pure function of (later price, date): independent of the order of calls
struct BridgeModel final : StockModel {
    std::vector<double> terminal; uint64_t salt; double dt; std::function<double(Rng&)> draw;
    mutable size_t next = 0; mutable std::vector<std::array<double, 2>> times; mutable std::vector<double> asked;
    BridgeModel(const std::string& t, std::shared_ptr<IMarketData> m, unsigned steps) : StockModel(t, std::move(m), std::make_shared<DimOnlyGenerator>(steps)) {}
    double simulatePriceAtMaturity(const double& T) const override { asked.push_back(T); return next < terminal.size() ? terminal[next++] : (++next, 1e200); }
    std::vector<double> simulatePrices(const double&) const override { throw std::logic_error("forward simulation is not part of the bridge variant"); }
    double back(double S, int j) const { uint64_t b; memcpy(&b, &S, 8); Rng h(b * 31 + salt + (uint64_t)j * 1000003); return draw(h); }
    double simulatePriceBackward(const double& S, const double& tj, const double& t1) const override { times.push_back({tj, t1}); return back(S, dt > 0 ? (int)std::lround(tj / dt) : 0); }
};

struct Problem { Terms t; double r; int steps; int N; bool ties; };

// Replays the algorithm on the observed paths with the recorded coefficients.
void judge(Case& c, const Problem& p, const std::vector<std::vector<double>>& path, const RecBasis& B, const RecReg& G, double got) {
    auto pay = [&](double S) { return (double)contract(Kind::American, p.t.call, p.t.K, 0, S); };
    const long double disc = std::exp(-(long double)p.r * p.t.T / p.steps);
    std::vector<long double> v(p.N); for (int i = 0; i < p.N; ++i) v[i] = pay(path[i][p.steps - 1]);
    size_t call = 0, cursor = 0; bool ambiguous = false; double scale = 1e-12;
    for (auto& q : path) for (double x : q) scale = std::max(scale, pay(x));
    int exercised = 0, kept = 0, empty = 0;
    for (int j = p.steps - 2; j >= 0; --j) {
        std::vector<int> itm; for (int i = 0; i < p.N; ++i) if (pay(path[i][j]) > 0) itm.push_back(i);
        if (itm.empty()) { for (auto& x : v) x *= disc; ++empty; continue; }
        if (!c.expect(call < G.log.size(), "date %d has %zu in-the-money paths but no regression was made", j, itm.size())) return;
        auto& k = G.log[call++];
        const Vec* x = nullptr; for (size_t q = 0; q < B.log.size() && !x; ++q) { size_t at = (cursor + q) % B.log.size(); auto& b = B.log[at]; if (b.second.rows() == k.A.rows() && b.second.cols() == k.A.cols() && b.second == k.A) { x = &b.first; cursor = at + 1; } }
        if (!c.expect(x != nullptr, "date %d: the design matrix is not the configured basis", j)) return;
        if (!c.expect((size_t)k.y.size() == itm.size() && (size_t)x->size() == itm.size(), "date %d: regression on %ld rows, %zu paths are in the money", j, (long)k.y.size(), itm.size())) return;
        std::vector<std::pair<double, double>> gotRows, want;
        for (long i = 0; i < x->size(); ++i) gotRows.push_back({(*x)[i], k.y[i]});
        for (int i : itm) want.push_back({path[i][j], (double)(v[i] * disc)});
        std::sort(gotRows.begin(), gotRows.end()); std::sort(want.begin(), want.end());
        if (!ambiguous) for (size_t i = 0; i < want.size(); ++i) {
            if (!c.expect(gotRows[i].first == want[i].first, "date %d: regressor %.17g, in-the-money price %.17g", j, gotRows[i].first, want[i].first)) return;
            if (!c.close(gotRows[i].second, want[i].second, 1e-9, 1e-3 * scale, "date %d: discounted cash flow of price %.17g", j, want[i].first)) return;
        }
        count("regression rows compared", want.size());
        std::vector<char> isItm(p.N, 0); for (int i : itm) isItm[i] = 1;
        for (int i = 0; i < p.N; ++i) {
            if (!isItm[i]) { v[i] *= disc; continue; }
            Vec one(1); one[0] = path[i][j];
            Mat row = B.in->generate(one);
            double cont = row.row(0).dot(k.coef), ex = pay(path[i][j]);
            double mag = ex; for (long q = 0; q < row.cols(); ++q) mag += std::fabs(row(0, q) * k.coef[q]);
            if (!p.ties && std::fabs(ex - cont) < 1e-9 * mag) { ambiguous = true; }
            if (ex == cont) count("exact ties between exercise and continuation");
            if (ex > cont) { v[i] = ex; ++exercised; } else { v[i] *= disc; ++kept; }
        }
    }
    if (!ambiguous) c.expect(call == G.log.size(), "%zu regressions, %zu dates have in-the-money paths", G.log.size(), call);
    long double s = 0; for (auto x : v) s += x;
    if (ambiguous) count("cases with near ties (price not compared)");
    else { c.close(got, (double)(s / p.N * disc), 1e-9, 1e-3 * scale, "price"); count("prices compared"); }
    count("exercise decisions", exercised); count("continuation decisions", kept); count("dates with no path in the money", empty);
}
Problem problem(Rng& g, const std::string& tk) {
    Problem p; p.t.k = Kind::American; p.t.ticker = tk; p.t.call = g.chance(0.4); p.t.T = g.chance(0.05) ? 0 : randT(g);
    p.ties = g.chance(0.3); p.t.K = p.ties ? std::floor(g.u(60, 140)) : g.u(60, 140); p.r = randRate(g);
    p.steps = g.chance(0.15) ? g.range(1, 2) : g.range(2, 14); p.N = g.chance(0.15) ? 1 : g.range(1, 40);
    if (g.chance(0.015)) { p.N = g.range(300, 3000); p.steps = g.range(1, 5); count("problems with many paths"); }
    else if (g.chance(0.015)) { p.steps = g.range(200, 1200); p.N = g.range(1, 6); count("problems with many dates"); }
    return p;
}
double price1(Rng& g, const Problem& p, double lo, double hi) { double x = g.u(lo, hi); if (p.ties) x = std::floor(x); else if (g.chance(0.05)) x = p.t.K; return x; }
std::shared_ptr<BasisFunction> basis(Rng& g) {
    switch (g.below(5)) { case 0: return std::make_shared<ConstBasis>(); case 1: return std::make_shared<LaguerreBasisFunction>((unsigned)g.range(1, 4)); case 2: return std::make_shared<LegendreBasisFunction>((unsigned)g.range(1, 4)); case 3: return std::make_shared<ChebyshevBasisFunction>((unsigned)g.range(1, 4)); default: return std::make_shared<MonomialBasisFunction>((unsigned)g.range(1, 4)); }
}
std::shared_ptr<RecReg> regression(Case& c, const Problem& p, const std::shared_ptr<RecBasis>& B) {
    auto& g = c.rng; auto R = std::make_shared<RecReg>();
    if (p.ties) { uint64_t s = g.u64(); auto k = std::make_shared<int>(0); B->in = std::make_shared<ConstBasis>(); R->f = [s, k, &p](const Mat& A, const Vec&) { Rng h(s + (*k)++); Vec v(A.cols()); v.setZero(); v[0] = h.range(-2, 25); return v; }; c.desc("constant continuation"); }
    else switch (g.below(5)) {
        case 0: R->f = [](const Mat& A, const Vec&) { Vec v = Vec::Zero(A.cols()); v[0] = 1e9; return v; }; c.desc("never exercise"); break;
        case 1: R->f = [](const Mat& A, const Vec&) { Vec v = Vec::Zero(A.cols()); v[0] = -1e9; return v; }; c.desc("always exercise"); break;
        case 2: { uint64_t s = g.u64(); auto k = std::make_shared<int>(0); R->f = [s, k](const Mat& A, const Vec&) { Rng h(s + (*k)++); Vec v(A.cols()); for (long i = 0; i < v.size(); ++i) v[i] = h.u(-8, 20) * std::pow(0.01, (double)i); return v; }; c.desc("scripted coefficients"); break; }
        case 3: R->f = [](const Mat& A, const Vec& y) { return RidgeRegression(0.5).solve(A, y); }; c.desc("ridge"); break;
        default: R->f = [](const Mat& A, const Vec& y) { return LeastSquaresRegression().solve(A, y); }; c.desc("least squares");
    }
    return R;
}
std::shared_ptr<IMarketData> market(Rng& g, const std::string& tk, double r) {
    md()->addStock(tk, 100.0, 0.25, 0.01);
    if (g.chance(0.5)) { md()->setR(r); return md(); }
    md()->setR(r + 0.41); auto f = std::make_shared<FakeMarketData>(r); f->m[tk] = std::make_shared<const StockData>(100.0, 0.25, 0.01); return f;
}
std::shared_ptr<AmericanOption> amer(const Terms& t) { return std::dynamic_pointer_cast<AmericanOption>(make(t)); }

// Bermudan lattice with exercise at the dates dt, 2dt, ..., T
double lattice(bool call, double S, double K, double r, double q, double sig, double T, int dates) {
    int per = std::max(2, 1200 / dates), n = per * dates; double h = T / n, u = std::exp(sig * std::sqrt(h)), d = 1 / u, p = (std::exp((r - q) * h) - d) / (u - d), D = std::exp(-r * h);
    std::vector<double> v(n + 1);
    for (int i = 0; i <= n; ++i) { double s = S * std::pow(u, 2.0 * i - n); v[i] = std::max(call ? s - K : K - s, 0.0); }
    for (int k = n - 1; k >= 0; --k) for (int i = 0; i <= k; ++i) {
        v[i] = D * (p * v[i + 1] + (1 - p) * v[i]);
        if (k > 0 && k % per == 0) { double s = S * std::pow(u, 2.0 * i - k); v[i] = std::max(v[i], call ? s - K : K - s); }
    }
    return v[0];
}

void scripted() {
    run("standard", 2500, [](Case& c) {
        auto& g = c.rng; auto p = problem(g, "AM1"); auto m = market(g, "AM1", p.r);
        c.desc("%s steps=%d N=%d r=%.17g", p.t.str().c_str(), p.steps, p.N, p.r);
        auto model = std::make_shared<ScriptedModel>("AM1", m, (unsigned)p.steps);
        int otm = g.chance(0.4) ? (int)g.below(p.steps) : -1;   // a stretch of dates with nothing in the money
        int otmLen = g.range(1, 3);
        for (int i = 0; i < p.N; ++i) {
            std::vector<double> q(p.steps);
            for (int j = 0; j < p.steps; ++j) { q[j] = price1(g, p, 50, 150); if (otm >= 0 && j >= otm && j < otm + otmLen) q[j] = p.t.call ? p.t.K * g.u(0.3, 1.0) : p.t.K * g.u(1.0, 2.0); if (p.ties) q[j] = std::floor(q[j]) + (otm >= 0 && j >= otm && j < otm + otmLen && !p.t.call ? 1 : 0); }
            model->paths.push_back(q);
        }
        auto B = std::make_shared<RecBasis>(basis(g)); auto R = regression(c, p, B);
        AmericanMCPricer pr(amer(p.t), m, model, B, R);
        double got = g.chance(0.5) ? pr.calculatePrice(p.N) : pr.standardPrice(p.N);
        c.expect(model->next == (size_t)p.N, "%zu paths used instead of %d", model->next, p.N);
        for (double T : model->asked) c.expect(T == p.t.T, "simulated to %.17g", T);
        judge(c, p, model->paths, *B, *R, got);
    });
    run("bridge", 2500, [](Case& c) {
        auto& g = c.rng; auto p = problem(g, "AM2"); if (p.t.T == 0) p.t.T = 1; auto m = market(g, "AM2", p.r);
        c.desc("%s steps=%d N=%d r=%.17g", p.t.str().c_str(), p.steps, p.N, p.r);
        auto model = std::make_shared<BridgeModel>("AM2", m, (unsigned)p.steps);
        model->salt = g.u64(); model->dt = p.t.T / p.steps; bool low = g.chance(0.3);
        Problem pc = p;
        model->draw = [pc, low](Rng& h) { double x = low && h.chance(0.9) ? (pc.t.call ? h.u(30, pc.t.K) : h.u(pc.t.K, 200)) : h.u(50, 150); return pc.ties ? std::floor(x) : x; };
        std::vector<std::vector<double>> path;
        for (int i = 0; i < p.N; ++i) {
            double S = price1(g, p, 50, 150); model->terminal.push_back(S);
            std::vector<double> q(p.steps); q[p.steps - 1] = S;
            for (int j = p.steps - 1; j > 0; --j) q[j - 1] = model->back(q[j], j);
            path.push_back(q);
        }
        auto B = std::make_shared<RecBasis>(basis(g)); auto R = regression(c, p, B);
        AmericanMCPricer pr(amer(p.t), m, model, B, R);
        double got = pr.brownianBridgePrice(p.N);
        c.expect(model->next == (size_t)p.N, "%zu terminal prices drawn instead of %d", model->next, p.N);
        for (double T : model->asked) c.expect(T == p.t.T, "simulated to %.17g", T);
        c.expect(model->times.size() == (size_t)p.N * (p.steps - 1), "%zu backward draws instead of %d", model->times.size(), p.N * (p.steps - 1));
        for (auto& t : model->times) { double j = std::round(t[0] / model->dt); c.expect(j >= 1 && j < p.steps && std::fabs(t[0] - j * model->dt) < 1e-9 * p.t.T && std::fabs(t[1] - (j + 1) * model->dt) < 1e-9 * p.t.T, "backward draw from %.17g to %.17g, dt=%.17g", t[1], t[0], model->dt); }
        judge(c, p, path, *B, *R, got);
        count("bridge draws", model->times.size());
    });
    // no randomness left: the best of the discounted payoffs over the exercise dates
    run("deterministic", 400, [](Case& c) {
        auto& g = c.rng; std::string tk = "AM3"; double r = randRate(g), q = g.chance(0.5) ? g.u(0, 0.15) : 0.0, S = 100;
        md()->addStock(tk, S, 0.0, q); md()->setR(r);
        Terms t; t.k = Kind::American; t.ticker = tk; t.call = g.chance(0.5); t.K = g.u(50, 160); t.T = randT(g);
        unsigned steps = (unsigned)(g.chance(0.03) ? g.range(300, 1500) : g.range(1, 60)); unsigned long N = g.range(1, 12); if (g.chance(0.12)) { steps = (unsigned)g.range(1, 8); N = (unsigned long)g.range(200, 4000); count("many equal paths"); } int gen = (int)g.below(3); if (gen == 2 && steps > 1100) steps = 1100;   // Faure has no more dimensions
        c.desc("%s steps=%u N=%lu r=%.17g q=%.17g gen=%d", t.str().c_str(), steps, N, r, q, gen);
        std::shared_ptr<NumberGenerator> G; if (gen == 0) G = std::make_shared<PseudoRandomNumberGenerator>(steps, 7u); else if (gen == 1) G = std::make_shared<SobolGenerator>(steps, 7u); else G = std::make_shared<FaureGenerator>(steps, 7u);
        auto model = std::make_shared<GeometricBrownianMotionModel>(tk, md(), G);
        AmericanMCBuilder b; b.setOption(make(t)); b.setStockPriceModel(model);
        double best = 0; for (unsigned j = 1; j <= steps; ++j) { double s = t.T * j / steps; best = std::max(best, std::exp(-r * s) * (double)contract(Kind::American, t.call, t.K, 0, S * std::exp((r - q) * s))); }
        c.close(b.build()->calculatePrice(N), best, 1e-6, 1e-3 * S, "deterministic American price"); count("deterministic prices");
    });
}
void statistical() {
    run("lattice", 16, [](Case& c) {
        auto& g = c.rng; std::string tk = "AM4"; double r = g.pickd({0.0, 0.05, 0.1, -0.02}), q = g.pickd({0.0, 0.04, 0.1}), sig = g.u(0.15, 0.45), S = 100;
        md()->addStock(tk, S, sig, q); md()->setR(r);
        Terms t; t.k = Kind::American; t.ticker = tk; t.call = g.chance(0.4); t.K = g.u(85, 118); t.T = g.u(0.4, 2.5);
        unsigned steps = (unsigned)g.range(2, 12); unsigned long N = 24000; int how = (int)(c.index % 4);
        c.desc("%s steps=%u r=%g q=%g sig=%g variant=%d", t.str().c_str(), steps, r, q, sig, how);
        std::shared_ptr<NumberGenerator> G; unsigned seed = (unsigned)g.below(1u << 30);
        if (how == 2) G = std::make_shared<SobolGenerator>(steps, seed % 100000); else G = std::make_shared<PseudoRandomNumberGenerator>(steps, seed);
        auto model = std::make_shared<GeometricBrownianMotionModel>(tk, md(), G);
        auto B = std::make_shared<MonomialBasisFunction>(3); auto R = std::make_shared<LeastSquaresRegression>();
        AmericanMCPricer pr(amer(t), md(), model, B, R);
        double got = how == 0 ? pr.brownianBridgePrice(N) : how == 1 ? pr.standardPrice(N) : pr.calculatePrice(N);
        double ref = lattice(t.call, S, t.K, r, q, sig, t.T, (int)steps);
        double se = S * sig * std::sqrt(t.T) * std::exp(0.1) / std::sqrt((double)N);
        maxi("largest |MC - lattice| in % of lattice", 100 * std::fabs(got - ref) / ref);
        c.expect(got > ref * 0.975 - 6 * se && got < ref * 1.015 + 6 * se, "variant %d price %.6g lattice %.6g se %.3g", how, got, ref, se);
        count("lattice comparisons");
    }, 8);
    run("bridge-vs-standard", 10, [](Case& c) {
        auto& g = c.rng; std::string tk = "AM5"; double r = g.u(-0.02, 0.12), q = g.u(0, 0.08), sig = g.u(0.1, 0.5), S = 100;
        md()->addStock(tk, S, sig, q); md()->setR(r);
        Terms t; t.k = Kind::American; t.ticker = tk; t.call = g.chance(0.5); t.K = g.u(85, 118); t.T = g.u(0.3, 3);
        unsigned steps = (unsigned)g.range(2, 10); unsigned long N = 24000; unsigned s1 = (unsigned)g.below(1u << 30), s2 = s1 + 1;
        c.desc("%s steps=%u r=%g q=%g sig=%g", t.str().c_str(), steps, r, q, sig);
        auto B = std::make_shared<MonomialBasisFunction>(3); auto R = std::make_shared<LeastSquaresRegression>();
        double a = AmericanMCPricer(amer(t), md(), std::make_shared<GeometricBrownianMotionModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>(steps, s1)), B, R).brownianBridgePrice(N);
        double b = AmericanMCPricer(amer(t), md(), std::make_shared<GeometricBrownianMotionModel>(tk, md(), std::make_shared<PseudoRandomNumberGenerator>(steps, s2)), B, R).standardPrice(N);
        double se = S * sig * std::sqrt(t.T) * std::exp((r - q > 0 ? r - q : 0) * t.T) * std::exp(0.5 * sig * sig * t.T) * std::sqrt(2.0 / N);
        maxi("largest |bridge - standard| in standard errors", std::fabs(a - b) / se);
        c.expect(std::fabs(a - b) < 6 * se + 0.004 * b, "bridge %.6g standard %.6g se %.3g", a, b, se); count("variant comparisons");
    }, 8);
}
}
int main(int argc, char** argv) { return mon::main_(argc, argv, {{"C12", scripted}, {"C12stat", statistical}}); }
