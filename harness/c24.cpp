// C24: optimality (KKT) of the non-negative least-squares solution.
#include "q.hpp"
#include "queso/solvers/nnls.h"
using namespace queso;
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        const int mx = a.thorough ? 60 : 30;
        const int m = r.i(1, mx), n = r.i(1, r.p(.3) ? 2 * mx : mx);
        std::vector<double> A(size_t(m * n), 0.0), b(size_t(m), 0.0), x;
        const int kind = r.i(0, 8);
        std::string kn[] = { "normal", "uniform", "moment matrix", "rank deficient", "duplicate columns", "badly scaled", "sparse", "integer", "small angles" };
        auto at = [&](int i, int j) -> double& { return A[size_t(j * m + i)]; };
        for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) at(i, j) = r.normal();
        if (kind == 1) for (auto& v : A) v = r.u();
        if (kind == 2) for (int j = 0; j < n; ++j) { const double t = r.u(); std::vector<double> l(m, 0.0); g::legendre01(t, m - 1, l.data()); for (int i = 0; i < m; ++i) at(i, j) = l[size_t(i)]; }
        if (kind == 3) { const int k = std::max(1, std::min(m, n) / 2); std::vector<double> U(size_t(m * k), 0.0), W(size_t(k * n), 0.0); for (auto& v : U) v = r.normal(); for (auto& v : W) v = r.normal();
            for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { double s = 0; for (int q = 0; q < k; ++q) s += U[size_t(i * k + q)] * W[size_t(q * n + j)]; at(i, j) = s; } }
        if (kind == 4) for (int j = 1; j < n; ++j) if (r.p(.4)) { const int o = r.i(0, j - 1); for (int i = 0; i < m; ++i) at(i, j) = at(i, o); }
        if (kind == 5) { for (int j = 0; j < n; ++j) { const double s = std::pow(10.0, r.u(-4, 4)); for (int i = 0; i < m; ++i) at(i, j) *= s; } }
        if (kind == 6) for (auto& v : A) if (r.p(.7)) v = 0;
        if (kind == 7) for (auto& v : A) v = r.i(-2, 3);
        if (kind == 8) for (int j = 1; j < n; ++j) if (r.p(.5)) { const int o = r.i(0, j - 1); const double e = std::pow(10.0, r.u(-11, -1)); for (int i = 0; i < m; ++i) at(i, j) = at(i, o) + e * at(i, j); }
        if (r.p(.1)) { const int j = r.i(0, n - 1); for (int i = 0; i < m; ++i) at(i, j) = 0; }
        const int bk = r.i(0, 4);
        for (auto& v : b) v = r.normal();
        if (bk == 1) { std::fill(b.begin(), b.end(), 0.0); for (int j = 0; j < n; ++j) if (r.p(.5)) { const double w = r.u(); for (int i = 0; i < m; ++i) b[size_t(i)] += w * at(i, j); } }// attainable
        if (bk == 2) { std::fill(b.begin(), b.end(), 0.0); for (int j = 0; j < n; ++j) { const double w = -r.u(); for (int i = 0; i < m; ++i) b[size_t(i)] += w * at(i, j); } }// wants negative weights
        if (bk == 3) { const double s = std::pow(10.0, r.u(-6, 6)); for (auto& v : b) v *= s; }
        if (bk == 4 && r.p(.2)) std::fill(b.begin(), b.end(), 0.0);
        if (r.p(.3)) { const double sa = std::pow(10.0, r.u(-8, 8)), sb = std::pow(10.0, r.u(-10, 8)); for (auto& v : A) v *= sa; for (auto& v : b) v *= sb; }// units
        auto A0 = A; auto b0 = b;
        if (r.p(.3)) x.assign(size_t(r.i(0, 5)), -7.0);// stale contents of the output vector
        const double rn = NNLS::solve(A, b, x);
        const std::string id = kn[kind] + " " + std::to_string(m) + "x" + std::to_string(n) + " rhs " + std::to_string(bk);
        R.sample(id + " residual " + h::str(rn));
        if (!R.check(x.size() == size_t(n), "solution-size", [&] { return id; })) return;
        double nb = 0; for (double v : b0) nb += v * v; nb = std::sqrt(nb);
        std::vector<double> res = b0; double amag = nb;
        int act = 0;
        for (int j = 0; j < n; ++j) {
            R.check(x[size_t(j)] >= 0 && std::isfinite(x[size_t(j)]), "non-negative", [&] { return id + " x[" + std::to_string(j) + "]=" + h::str(x[size_t(j)]); });
            if (x[size_t(j)] > 0) ++act;
            double cn = 0;
            for (int i = 0; i < m; ++i) { const double v = A0[size_t(j * m + i)]; res[size_t(i)] -= v * x[size_t(j)]; cn += v * v; }
            amag += std::sqrt(cn) * std::fabs(x[size_t(j)]);
        }
        if (act && act < n) R.nontrivial(h::mix(a.seed, uint64_t(c)));
        R.count("active entries", act);
        double rr = 0; for (double v : res) rr += v * v; rr = std::sqrt(rr);
        R.check(std::fabs(rr - rn) <= 1e-12 * amag + 1e-300, "residual", [&] { return id + " reported " + h::str(rn) + " true " + h::str(rr); });
        double worst = 0;
        for (int j = 0; j < n; ++j) {
            double w = 0, cn = 0;
            for (int i = 0; i < m; ++i) { const double v = A0[size_t(j * m + i)]; w += v * res[size_t(i)]; cn += v * v; }
            cn = std::sqrt(cn);
            if (cn == 0) continue;
            const double rel = (x[size_t(j)] > 0 ? std::fabs(w) : std::max(0.0, w)) / (cn * amag + 1e-300);
            worst = std::max(worst, rel);
            R.check(rel < 1e-12, x[size_t(j)] > 0 ? "stationarity" : "dual-feasibility", [&] { return id + " column " + std::to_string(j) + " gradient " + h::str(w) + " x=" + h::str(x[size_t(j)]) + " relative " + h::str(rel); });
        }
        R.maxi("relative gradient", worst);
        if (worst > 1e-10) R.count("gradient above 1e-10");
        if (bk == 1) R.maxi("relative residual of attainable right-hand sides", rn / (amag + 1e-300));
        if (bk == 1) R.check(rn <= 1e-11 * amag, "attainable", [&] { return id + " residual " + h::str(rn); });
    });
}
