// C08: one-dimensional Gauss rules: exactness, positivity, symmetry, refusal of orders outside the table.
#include "q.hpp"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/quadrature/single_element.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/untrimmed_element.hpp"
using namespace queso;
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        const std::array<IntegrationMethod, 3> M{ IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2 };
        const int top = 9;// tabulated: 1 to 10 points
        if (c < 3 * (top + 3)) {// every tabulated order and rule
            const int red = int(c % 3), p = int(c / 3), np = p - red + 1;
            if (np < 1 || np > top + 1) return;
            const auto& P = IntegrationPointFactory1D::GetGauss(size_t(p), M[size_t(red)]);
            const std::string id = "order " + std::to_string(p) + " reduction " + std::to_string(red);
            R.nontrivial(uint64_t(c)); R.count("rules"); R.sample(id + ": " + std::to_string(P.size()) + " points");
            R.check(int(P.size()) == np, "number-of-points", [&] { return id + " has " + std::to_string(P.size()); });
            double s = 0;
            for (size_t i = 0; i < P.size(); ++i) {
                s += P[i][1];
                R.check(P[i][0] > 0 && P[i][0] < 1 && P[i][1] > 0, "point-range", [&] { return id + " " + h::vec(P[i]); });
                if (i) R.check(P[i][0] > P[i - 1][0], "increasing", [&] { return id + " index " + std::to_string(i); });
                const auto& Q = P[P.size() - 1 - i];
                R.check(std::fabs(P[i][0] + Q[0] - 1) < 2e-15 * 4 && std::fabs(P[i][1] - Q[1]) < 1e-14, "symmetry", [&] { return id + " index " + std::to_string(i) + " " + h::vec(P[i]) + h::vec(Q); });
            }
            R.check(std::fabs(s - 1) < 1e-14, "weights-sum", [&] { return id + " " + h::str(s); });
            for (int d = 0; d <= 2 * np - 1; ++d) {
                double v = 0; std::vector<double> l(size_t(d + 1));
                for (auto& q : P) { g::legendre01(q[0], d, l.data()); v += q[1] * l[size_t(d)]; }
                R.check(std::fabs(v - (d == 0 ? 1 : 0)) < 5e-14, "exactness", [&] { return id + " Legendre degree " + std::to_string(d) + " integrates to " + h::str(v); });
            }
            return;
        }
        if (r.p(.25)) {// outside the table
            const size_t red = size_t(r.i(0, 2));
            size_t p = r.p(.3) && red > 0 ? size_t(r.i(0, int(red) - 1)) : r.p(.8) ? size_t(r.i(top + 1 + int(red), top + 40)) : size_t(r.next());
            bool thrown = false; size_t n = 0;
            try { n = IntegrationPointFactory1D::GetGauss(p, M[red]).size(); } catch (const std::exception&) { thrown = true; }
            R.count("requests outside the table");
            R.check(thrown, "order-outside-table", [&] { return "order " + std::to_string(p) + " reduction " + std::to_string(red) + " returned a rule with " + std::to_string(n) + " points"; });
            return;
        }
        // tensor product on a random box: every monomial up to the exactness in each direction
        const size_t red = size_t(r.i(0, 2));
        std::array<int, 3> p{ r.i(1 + int(red > 1), 5), r.i(1 + int(red > 1), 5), r.i(1 + int(red > 1), 5) };
        g::V lo{ r.u(-5, 5), r.u(-5, 5), r.u(-5, 5) };
        const double L = std::pow(10.0, r.u(-3, 3));
        g::V up{ lo[0] + L * r.u(.2, 2), lo[1] + L * r.u(.2, 2), lo[2] + L * r.u(.2, 2) };
        std::vector<IntegrationPoint> P;
        using E = UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;
        QuadratureSingleElement<E>::AssembleIPs(P, q::vd(lo), q::vd(up), Vector3i{ size_t(p[0]), size_t(p[1]), size_t(p[2]) }, M[red]);
        const std::string id = "orders " + h::vec(p) + " reduction " + std::to_string(red) + " box " + h::vec(lo) + h::vec(up);
        R.nontrivial(h::mix(a.seed, uint64_t(c))); R.count("tensor rules");
        R.check(P.size() == size_t((p[0] - int(red) + 1) * (p[1] - int(red) + 1) * (p[2] - int(red) + 1)), "tensor-size", [&] { return id; });
        std::array<int, 3> n;
        for (size_t i = 0; i < 3; ++i) n[i] = 2 * (p[i] - int(red)) + 1;
        const g::V d = up - lo;
        const double vol = d[0] * d[1] * d[2];
        std::vector<double> l[3]; for (size_t i = 0; i < 3; ++i) l[i].resize(size_t(n[i] + 1));
        std::vector<double> m(size_t((n[0] + 1) * (n[1] + 1) * (n[2] + 1)), 0.0);
        for (auto& q : P) {
            for (size_t i = 0; i < 3; ++i) g::legendre01((q[i] - lo[i]) / d[i], n[i], l[i].data());
            size_t e = 0;
            for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) m[e++] += q.Weight() / vol * l[0][size_t(i)] * l[1][size_t(j)] * l[2][size_t(k)];
            R.check(q.Weight() > 0 && q[0] > lo[0] && q[0] < up[0] && q[1] > lo[1] && q[1] < up[1] && q[2] > lo[2] && q[2] < up[2], "tensor-point-range", [&] { return id; });
        }
        const double tol = 1e-12 * (1 + 10 / L);// cancellation lo + L*x
        for (size_t e = 0; e < m.size(); ++e) R.check(std::fabs(m[e] - (e == 0)) < tol, "tensor-exactness", [&] { return id + " moment " + std::to_string(e) + " = " + h::str(m[e]); });
    });
}
