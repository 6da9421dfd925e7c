// C09: generalised Gauss rules against all B-splines of the target space.
#include "q.hpp"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
using namespace queso;
// Non-zero B-splines of degree p at x; returns first index.
static size_t bsplines(const std::vector<double>& t, int p, double x, std::vector<double>& N) {
    size_t n = t.size() - size_t(p) - 1;
    size_t s = size_t(std::upper_bound(t.begin(), t.end(), x) - t.begin());
    s = s == 0 ? 0 : s - 1;
    if (s >= n) s = n - 1;
    if (s < size_t(p)) s = size_t(p);
    N.assign(size_t(p + 1), 0.0); N[0] = 1;
    std::vector<double> L(size_t(p + 1)), Rr(size_t(p + 1));
    for (int j = 1; j <= p; ++j) {
        L[size_t(j)] = x - t[s + 1 - size_t(j)]; Rr[size_t(j)] = t[s + size_t(j)] - x;
        double sv = 0;
        for (int k = 0; k < j; ++k) { const double tmp = N[size_t(k)] / (Rr[size_t(k + 1)] + L[size_t(j - k)]); N[size_t(k)] = sv + Rr[size_t(k + 1)] * tmp; sv = L[size_t(j - k)] * tmp; }
        N[size_t(j)] = sv;
    }
    return s - size_t(p);
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        const std::array<IntegrationMethod, 3> M{ IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2 };
        const int emax = a.thorough ? 400 : 120;
        const int red = int(c % 3), p = int(c / 3 % 3) + 2;
        const int e = c / 9 < emax ? int(c / 9) + 1 : r.i(emax, a.thorough ? 20000 : 3000);
        const int deg = 2 * p - red, con = p - 2;
        auto P = *IntegrationPointFactory1D::GetGGQ(size_t(p), size_t(e), M[size_t(red)]);
        const std::string id = "order " + std::to_string(p) + " reduction " + std::to_string(red) + " elements " + std::to_string(e);
        R.nontrivial(uint64_t(e * 9 + red * 3 + p)); R.count("rules"); R.count("points", double(P.size()));
        R.sample(id + ": " + std::to_string(P.size()) + " points");
        std::vector<double> t(size_t(deg + 1), 0.0);
        for (int k = 1; k < e; ++k) for (int q = 0; q < deg - con; ++q) t.push_back(double(k) / e);
        for (int q = 0; q <= deg; ++q) t.push_back(1.0);
        const size_t n = t.size() - size_t(deg) - 1;
        R.check(P.size() == (n + 1) / 2, "number-of-points", [&] { return id + " has " + std::to_string(P.size()) + " points for " + std::to_string(n) + " functions"; });
        if (e > 3) R.check(P.size() < size_t(e * (p + 1 - (red + 1) / 2)), "fewer-than-gauss", [&] { return id; });
        std::vector<double> I(n, 0.0), N;
        double sum = 0;
        for (size_t i = 0; i < P.size(); ++i) {
            const double x = P[i][0];
            if (!R.check(x >= 0 && x <= 1 && P[i][1] >= 0 && std::isfinite(P[i][1]), "point-range", [&] { return id + " point " + std::to_string(i) + " " + h::vec(P[i]); })) continue;
            if (i) R.check(x > P[i - 1][0], "increasing", [&] { return id + " index " + std::to_string(i) + " " + h::vec(P[i - 1]) + h::vec(P[i]); });
            const auto& Q = P[P.size() - 1 - i];
            R.check(std::fabs(x + Q[0] - 1) < 1e-12 && std::fabs(P[i][1] - Q[1]) < 1e-12 / e, "symmetry", [&] { return id + " index " + std::to_string(i) + " " + h::vec(P[i]) + h::vec(Q); });
            sum += P[i][1];
            const size_t f = bsplines(t, deg, x, N);
            for (int k = 0; k <= deg; ++k) I[f + size_t(k)] += P[i][1] * N[size_t(k)];
        }
        R.check(std::fabs(sum - 1) < 1e-12, "weights-sum", [&] { return id + " " + h::str(sum); });
        double worst = 0;
        for (size_t i = 0; i < n; ++i) {
            const double ex = (t[i + size_t(deg) + 1] - t[i]) / (deg + 1);
            const double err = std::fabs(I[i] - ex) * e;
            worst = std::max(worst, err);
            R.check(err < 1e-11 * (1 + e * 1e-3), "exactness", [&] { return id + " spline " + std::to_string(i) + " of " + std::to_string(n) + " integrates to " + h::str(I[i]) + " instead of " + h::str(ex); });
        }
        R.maxi("error", worst);
    });
}
