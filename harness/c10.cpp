// C10: points of all full cells together integrate every tensor-product spline over the union of the full cells.
#include "model.hpp"
#include "queso/embedding/element_builders.hpp"
#include "queso/quadrature/multiple_elements.hpp"
using namespace queso;
using BG = EmbeddedModel::BackgroundGridType;
struct B1 {// 1-D B-splines on the knots of one axis
    int deg, con, e; double lo, up; std::vector<double> t; size_t n;
    B1(int d, int c, int ne, double l, double u) : deg(d), con(c), e(ne), lo(l), up(u) {
        t.assign(size_t(deg + 1), 0.0);
        for (int k = 1; k < e; ++k) for (int q = 0; q < deg - con; ++q) t.push_back(k);
        for (int q = 0; q <= deg; ++q) t.push_back(e);
        n = t.size() - size_t(deg) - 1;
    }
    // values of all deg+1 functions alive on element el at local coordinate x in [0,1]; first index
    size_t at(int el, double x, std::vector<double>& N) const {
        const size_t s = size_t(deg) + size_t(el) * size_t(deg - con);
        const double y = el + x;
        N.assign(size_t(deg + 1), 0.0); N[0] = 1;
        std::vector<double> L(size_t(deg) + 1, 0.0), Rr(size_t(deg) + 1, 0.0);
        for (int j = 1; j <= deg; ++j) {
            L[size_t(j)] = y - t[s + 1 - size_t(j)]; Rr[size_t(j)] = t[s + size_t(j)] - y;
            double sv = 0;
            for (int k = 0; k < j; ++k) { const double tmp = N[size_t(k)] / (Rr[size_t(k + 1)] + L[size_t(j - k)]); N[size_t(k)] = sv + Rr[size_t(k + 1)] * tmp; sv = L[size_t(j - k)] * tmp; }
            N[size_t(j)] = sv;
        }
        return s - size_t(deg);
    }
};
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        g::Grid gr;
        const int mx = a.thorough ? 7 : 5;
        for (int i = 0; i < 3; ++i) {
            gr.n[i] = r.p(.3) ? 1 : r.i(1, mx);
            if (r.p(.1)) gr.n[i] = r.i(6, 14);
            gr.lo[i] = r.u(-1, 1); gr.up[i] = gr.lo[i] + r.u(.5, 3);
            gr.ulo[i] = r.p(.4) ? 0 : r.u(-2, 2); gr.uup[i] = gr.ulo[i] + r.u(.5, 5);
            if (r.p(.2)) {// other length scales, far from the origin
                const double f = std::pow(10.0, r.u(-6, 4)), L = (gr.uup[i] - gr.ulo[i]) * f;
                gr.ulo[i] = r.p(.5) ? gr.ulo[i] * f : r.u(-100, 100) * L; gr.uup[i] = gr.ulo[i] + L;
            }
        }
        while (gr.n[0] * gr.n[1] * gr.n[2] > 160) { int& x = gr.n[r.i(0, 2)]; if (x > 1) --x; }
        gr.spline = true;
        q::Opt o;
        for (auto& p : o.p) p = r.i(2, 4);
        const int red = r.i(0, 2);
        o.method = std::array<IntegrationMethod, 3>{ IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2 }[size_t(red)];
        auto S = q::settings(gr, o);
        BG bg(*S);
        UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint> ub(*S);
        const size_t N = gr.size();
        std::vector<char> on(N, 1);
        const int pat = r.i(0, 5);
        const double q = pat == 0 ? 1 : pat == 1 ? r.u(.7, 1) : r.u(.2, .9);
        for (size_t i = 0; i < N; ++i) {
            auto x = gr.ijk(i);
            if (pat <= 2) on[i] = r.p(q);
            else if (pat == 3) on[i] = !(x[0] * 2 >= gr.n[0] && x[1] * 2 >= gr.n[1]);// L shape
            else if (pat == 4) { double d = 0; for (size_t k = 0; k < 3; ++k) { const double y = (x[k] + .5) / gr.n[int(k)] - .5; d += y * y; } on[i] = d < .3 && d > .02; }// ball with hole
            else on[i] = (x[0] + 1 == gr.n[0] || x[1] == 0 || (x[2] + 1 == gr.n[2] && x[0] == 0));// shell along the border
        }
        std::vector<size_t> order; for (size_t i = 0; i < N; ++i) if (on[i]) order.push_back(i);
        if (order.empty()) return;
        if (r.p(.7)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[size_t(r.i(0, int(i) - 1))]);// insertion order as left by threads
        for (size_t i : order) bg.MakeElement(ub, i + 1, q::bounds(gr, i));
        bg.LockElements();
        QuadratureMultipleElements<BG::UntrimmedElementType>::AssembleIPs(bg, Vector3i{ size_t(o.p[0]), size_t(o.p[1]), size_t(o.p[2]) }, o.method);
        const std::string id = gr.str() + " p=" + h::vec(o.p) + " reduction " + std::to_string(red) + " pattern " + std::to_string(pat) + " full cells " + std::to_string(order.size());
        if (order.size() > 1) R.nontrivial(h::mix(a.seed, uint64_t(c)));
        R.sample(id); R.count("full cells", double(order.size()));
        std::vector<B1> B; for (size_t i = 0; i < 3; ++i) B.emplace_back(2 * o.p[i] - red, o.p[i] - 2, gr.n[int(i)], gr.ulo[i], gr.uup[i]);
        // random spline: tensor coefficients; compare the sum over all points with the exact integral over the union
        const int ntest = 3;
        std::vector<std::vector<double>> co(size_t(ntest), std::vector<double>(B[0].n * B[1].n * B[2].n, 0.0));
        for (auto& v : co) for (auto& x : v) x = r.u(-1, 1);
        for (auto& x : co[0]) x = 1;// constant one
        std::vector<double> num(size_t(ntest), 0.0), ex(size_t(ntest), 0.0), mag(size_t(ntest), 0.0);
        std::vector<double> nb[3]; size_t f[3];
        auto acc = [&](std::vector<double>& out, double w, bool m) {
            for (int tt = 0; tt < ntest; ++tt) {
                double s = 0, sa = 0;
                for (size_t k = 0; k < nb[2].size(); ++k) for (size_t j = 0; j < nb[1].size(); ++j) {
                    const double* row = &co[size_t(tt)][((f[2] + k) * B[1].n + f[1] + j) * B[0].n + f[0]];
                    double s1 = 0; for (size_t i = 0; i < nb[0].size(); ++i) s1 += row[i] * nb[0][i];
                    s += s1 * nb[1][j] * nb[2][k]; sa += std::fabs(s1 * nb[1][j] * nb[2][k]);
                }
                out[size_t(tt)] += w * s; if (m) mag[size_t(tt)] += std::fabs(w) * sa;
            }
        };
        size_t cnt = 0;
        double tol = 1e-9, ptol = 1e-9;// points next to a knot are moved by a distance below 1e-11, relative to cells smaller than one
        for (int i = 0; i < 3; ++i) { const double h = (gr.uup[i] - gr.ulo[i]) / gr.n[i], d = (1e-11 * std::min(1.0, h) + 1e-15 * (std::fabs(gr.ulo[i]) + std::fabs(gr.uup[i]))) / h; ptol = std::max(ptol, 1e-9 + d); tol += 10 * d; }
        const double vol = (gr.uup[0] - gr.ulo[0]) * (gr.uup[1] - gr.ulo[1]) * (gr.uup[2] - gr.ulo[2]) / double(N);
        for (const auto& e : bg.GetElementViews<BG::ElementFilter::untrimmed>()) {
            const auto x = gr.ijk(e.GetId() - 1);
            const auto b = q::bounds(gr, e.GetId() - 1).parametric;
            ++cnt;
            for (const auto& p : e.GetIntegrationPoints<CoordinateSpace::parametric>()) {
                bool in = p.Weight() > 0;
                for (size_t i = 0; i < 3; ++i) {
                    const double L = b.upper[i] - b.lower[i], y = (p[i] - b.lower[i]) / L;
                    in = in && y > -ptol && y < 1 + ptol;
                    f[i] = B[i].at(x[i], y, nb[i]);
                }
                R.check(in, "point-in-cell", [&] { return id + " cell " + std::to_string(e.GetId()) + " point " + h::v3(p[0], p[1], p[2]) + " weight " + h::str(p.Weight()); });
                acc(num, p.Weight() / vol, true);
                R.count("points");
            }
            for (size_t i = 0; i < 3; ++i) {// exact integrals on this cell by Gauss
                const auto& G = g::gauss(B[i].deg / 2 + 1);
                std::vector<double> s(size_t(B[i].deg) + 1, 0.0), tmp;
                for (auto& w : G) { f[i] = B[i].at(x[i], w[0], tmp); for (size_t k = 0; k < tmp.size(); ++k) s[k] += w[1] * tmp[k]; }
                nb[i] = s;
            }
            acc(ex, 1.0, false);
        }
        R.check(cnt == order.size(), "element-count", [&] { return id; });
        for (int tt = 0; tt < ntest; ++tt) {
            const double err = std::fabs(num[size_t(tt)] - ex[size_t(tt)]) / std::max(mag[size_t(tt)], double(order.size()) * 1e-3);
            R.maxi("relative error", err); R.maxi("error by tolerance", err / tol);
            R.check(err < tol, tt ? "spline-exactness" : "volume", [&] { return id + ": quadrature " + h::str(num[size_t(tt)]) + " exact " + h::str(ex[size_t(tt)]); });
        }
    });
}
