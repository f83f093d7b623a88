// Distribution-law monitors: Kolmogorov distance of observed draws to a stated law.
#pragma once
#include "fixtures.h"
#include <boost/math/special_functions/gamma.hpp>
#include <complex>

namespace stats {
using Cdf = std::function<double(double)>;
// sqrt(n) * Kolmogorov distance; above 3.3 has probability < 1e-9 under the law
inline double ks(std::vector<double> x, const Cdf& F, bool discrete = false) {
    std::sort(x.begin(), x.end());
    double n = (double)x.size(), D = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        if (discrete) { if (i + 1 < x.size() && x[i + 1] == x[i]) continue; D = std::max(D, std::fabs((i + 1) / n - F(x[i]))); if (x[i] > 0) { size_t lo = std::lower_bound(x.begin(), x.end(), x[i]) - x.begin(); D = std::max(D, std::fabs(lo / n - F(x[i] - 1))); } }
        else { double f = F(x[i]); D = std::max(D, std::max(f - i / n, (i + 1) / n - f)); }
    }
    return D * std::sqrt(n);
}
constexpr double KS_LIMIT = 3.4;
inline Cdf normal(double m, double s) { return [=](double x) { return ncdf((x - m) / s); }; }
inline Cdf uniform(double a, double b) { return [=](double x) { return x <= a ? 0.0 : x >= b ? 1.0 : (x - a) / (b - a); }; }
inline Cdf expo(double l) { return [=](double x) { return x <= 0 ? 0.0 : -std::expm1(-l * x); }; }
using FastPolicy = boost::math::policies::policy<boost::math::policies::promote_double<false>>;
inline Cdf gammaRate(double k, double b) { return [=](double x) { return x <= 0 ? 0.0 : boost::math::gamma_p(k, b * x, FastPolicy()); }; }
inline Cdf poisson(double l) { return [=](double x) { double k = std::floor(x); return k < 0 ? 0.0 : boost::math::gamma_q(k + 1, l, FastPolicy()); }; }
inline std::vector<double> sample(const Distribution& d, uint64_t seed, int n) { std::mt19937 g((unsigned)seed); std::vector<double> v(n); for (auto& x : v) x = d(g); return v; }
// lag-1 and lag-2 rank-free independence: correlation of probability transforms, in standard errors
inline double serial(const std::vector<double>& x, const Cdf& F, int lag) {
    double s = 0; size_t n = x.size() - lag;
    for (size_t i = 0; i < n; ++i) s += (F(x[i]) - 0.5) * (F(x[i + lag]) - 0.5) * 12;
    return s / std::sqrt((double)n);
}
// distance of the empirical characteristic function to the stated one, in units of 1/sqrt(n)
inline double cf(const std::vector<double>& x, double u, std::complex<double> want) {
    std::complex<double> s = 0; for (double y : x) s += std::complex<double>(std::cos(u * y), std::sin(u * y));
    return std::abs(s / (double)x.size() - want) * std::sqrt((double)x.size());
}
constexpr double CF_LIMIT = 5.5;
}
