// C27: Legendre basis used for moment fitting.
#include "q.hpp"
#include "queso/utilities/polynomial_utilities.hpp"
using namespace queso;
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        const double L = std::pow(10.0, r.u(-4, 4)), A = r.p(.3) ? 0 : r.u(-3, 3) * L, B = A + L * r.u(.1, 3), len = B - A;
        const std::string id = "interval " + h::str(A) + " " + h::str(B);
        R.nontrivial(h::mix(a.seed, uint64_t(c))); R.sample(id);
        const double amp = 1 + (std::fabs(A) + std::fabs(B)) / len;
        double l[12];
        for (int k = 0; k < 20; ++k) {
            const double x = r.p(.1) ? A : r.p(.1) ? B : r.u(A, B), x0 = r.u(A, B);
            g::legendre01((x - A) / len, 9, l);
            double l0[12]; g::legendre01((x0 - A) / len, 9, l0);
            for (int o = 0; o <= 8; ++o) {
                const double f = Polynomial::f_x(x, size_t(o), A, B);
                R.check(std::fabs(f - l[o]) < 1e-11 * amp, "value", [&] { return id + " order " + std::to_string(o) + " x=" + h::str(x) + ": " + h::str(f) + " instead of " + h::str(l[o]); });
                // antiderivative: difference between two points
                auto J = [&](const double* q) { return o == 0 ? 0.5 * q[1] + 0.5 : (q[o + 1] - q[o - 1]) / (2.0 * (2 * o + 1)); };
                const double ex = len * (J(l) - J(l0)), got = Polynomial::f_x_int(x, size_t(o), A, B) - Polynomial::f_x_int(x0, size_t(o), A, B);
                R.check(std::fabs(got - ex) < 1e-11 * len * amp, "antiderivative", [&] { return id + " order " + std::to_string(o) + ": " + h::str(got) + " instead of " + h::str(ex); });
                R.count("points evaluated");
            }
        }
        const auto& G = g::gauss(12);
        for (int o = 0; o <= 8; ++o) for (int p = 0; p <= o; ++p) {
            double s = 0;
            for (auto& q : G) { const double x = A + len * q[0]; s += q[1] * Polynomial::f_x(x, size_t(o), A, B) * Polynomial::f_x(x, size_t(p), A, B); }
            const double ex = o == p ? 1.0 / (2 * o + 1) : 0;
            R.check(std::fabs(s - ex) < 1e-10 * amp, "orthogonality", [&] { return id + " orders " + std::to_string(o) + " " + std::to_string(p) + ": " + h::str(s); });
        }
        // multiplicities of the domain length: integral over the interval is the length for order 0, zero else
        for (int o = 0; o <= 8; ++o) { const double s = Polynomial::f_x_int(B, size_t(o), A, B) - Polynomial::f_x_int(A, size_t(o), A, B);
            R.check(std::fabs(s - (o ? 0 : len)) < 1e-11 * len * amp, "full-integral", [&] { return id + " order " + std::to_string(o) + ": " + h::str(s); }); }
        for (int k = 0; k < 10; ++k) { const double x = r.u(-2, 2); const size_t p = size_t(r.i(0, 12)); R.check(std::fabs(Polynomial::power(x, p) - std::pow(x, double(p))) <= 1e-13 * std::pow(std::fabs(x), double(p)), "power", [&] { return h::str(x); }); }
    });
}
