// What one path pays, and builders by kind.
#pragma once
#include "fixtures.h"
inline long double pays(const Terms& t, const std::vector<double>& p) {
    auto van = [&](long double S) { long double x = t.call ? S - (long double)t.K : (long double)t.K - S; return x > 0 ? x : 0.0L; };
    long double sum = 0, lsum = 0; double mn = p[0], mx = p[0]; bool touched = false;
    for (double x : p) { sum += x; lsum += std::log((long double)x); mn = std::min(mn, x); mx = std::max(mx, x); touched |= t.dir == BarrierDirection::Up ? x >= t.B : x <= t.B; }
    double last = p.back();
    switch (t.k) {
        case Kind::ArithAsian: return van(sum / p.size());
        case Kind::GeoAsian: return van(std::exp(lsum / (long double)p.size()));
        case Kind::KnockIn: return touched ? van(last) : 0.0L;
        case Kind::KnockOut: return touched ? 0.0L : van(last);
        case Kind::FixedLB: return t.call ? van(mx) : van(mn);
        case Kind::FloatLB: return t.call ? (long double)last - mn : (long double)mx - last;
        default: return contract(t.k, t.call, t.K, t.K2, last);
    }
}
inline std::shared_ptr<MCBuilder> builderFor(Kind k) {
    switch (k) {
        case Kind::American: return std::make_shared<AmericanMCBuilder>();
        case Kind::ArithAsian: return std::make_shared<ArithmeticAsianMCBuilder>();
        case Kind::GeoAsian: return std::make_shared<GeometricAsianMCBuilder>();
        case Kind::KnockIn: return std::make_shared<KnockInBarrierMCBuilder>();
        case Kind::KnockOut: return std::make_shared<KnockOutBarrierMCBuilder>();
        case Kind::FloatLB: return std::make_shared<FloatingStrikeLookbackMCBuilder>();
        case Kind::FixedLB: return std::make_shared<FixedStrikeLookbackMCBuilder>();
        default: return std::make_shared<MCSinglePathBuilder>();
    }
}
inline bool singlePath(Kind k) { return k == Kind::European || k == Kind::Digital || k == Kind::DoubleDigital; }
inline bool accepts(Kind builder, Kind option) { return singlePath(builder) ? singlePath(option) : builder == option; }
// price of one deterministic path
inline double pathPrice(const Terms& t, const std::vector<double>& p, double r) {
    if (t.k != Kind::American) return (double)(pays(t, p) * std::exp(-(long double)r * t.T));
    double best = 0; for (size_t j = 0; j < p.size(); ++j) best = std::max(best, std::exp(-r * t.T * (j + 1) / p.size()) * (double)contract(Kind::American, t.call, t.K, 0, p[j]));
    return best;
}
// a tie margin: the discontinuous contracts are only compared away from their thresholds
inline bool nearJump(const Terms& t, const std::vector<double>& p, double rel = 1e-9) {
    auto near = [&](double a, double b) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b) + 1); };
    if (t.k == Kind::Digital) return near(p.back(), t.K);
    if (t.k == Kind::DoubleDigital) return near(p.back(), t.K) || near(p.back(), t.K2);
    if (t.k == Kind::KnockIn || t.k == Kind::KnockOut) for (double x : p) if (near(x, t.B)) return true;
    return false;
}
