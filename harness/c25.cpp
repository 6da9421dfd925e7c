// C25: parametric and global coordinates map one-to-one; the global quadrature does not depend on the parametric description.
#include "model.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/grid_indexer.hpp"
using namespace queso;
using Flt = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>::ElementFilter;
typedef long double ld;
static void mapping_case(h::Rng& r, h::Report& R) {
    g::V gl, gu, pl, pu;
    const double gs = std::pow(10.0, r.u(-4, 4)), ps = std::pow(10.0, r.u(-4, 4));
    const double go = r.p(.5) ? 0 : std::pow(10.0, r.u(-2, 4)), po = r.p(.5) ? 0 : std::pow(10.0, r.u(-2, 4));
    for (size_t i = 0; i < 3; ++i) {
        gl[i] = gs * (go * r.u(-1, 1)); gu[i] = gl[i] + gs * std::pow(10.0, r.u(-1, 1));
        pl[i] = ps * (po * r.u(-1, 1)); pu[i] = pl[i] + ps * std::pow(10.0, r.u(-1, 1));
    }
    const ElementBounds B{ MakeBox(q::vd(gl), q::vd(gu)), MakeBox(q::vd(pl), q::vd(pu)) };
    ld sc[3];// global per parametric
    for (int i = 0; i < 3; ++i) sc[i] = (ld(gu[size_t(i)]) - gl[size_t(i)]) / (ld(pu[size_t(i)]) - pl[size_t(i)]);
    const ld det = sc[0] * sc[1] * sc[2];
    auto where = [&] { return "global " + h::vec(gl) + h::vec(gu) + " parametric " + h::vec(pl) + h::vec(pu); };
    const double dj = mapping::DetJ(B);
    R.check(std::fabs(double(dj / det) - 1) < 1e-11, "jacobian", [&] { return h::str(dj) + " is " + h::str(double(det)) + " " + where(); });
    auto near = [&](const auto& x, const ld* want, const g::V& lo, const g::V& up, const char* key) {
        for (size_t i = 0; i < 3; ++i) {
            const ld tol = 1e-11L * (std::fabs(up[i] - lo[i])) + 8e-16L * (std::fabs(lo[i]) + std::fabs(up[i]));
            R.check(std::fabs(ld(x[i]) - want[i]) <= tol, key, [&] { return h::vec(g::V{ x[0], x[1], x[2] }) + " expected " + h::v3(double(want[0]), double(want[1]), double(want[2])) + " " + where(); });
        }
    };
    for (int c = 0; c < 12; ++c) {
        g::V p;// parametric point: corners first, then inside and outside
        double f[3];
        for (size_t i = 0; i < 3; ++i) { f[i] = c < 8 ? double((c >> i) & 1) : r.u(-.3, 1.3); p[i] = c < 8 ? (f[i] != 0.0 ? pu[i] : pl[i]) : pl[i] + f[i] * (pu[i] - pl[i]); }
        ld gx[3], px[3];
        for (size_t i = 0; i < 3; ++i) { px[i] = p[i]; gx[i] = ld(gl[i]) + (ld(p[i]) - pl[i]) * sc[i]; }
        const PointType x = mapping::ToGlobal(q::vd(p), B);
        near(x, gx, gl, gu, c < 8 ? "corner-to-global" : "to-global");
        // the way back may only lose what the offset of either system costs
        const PointType b = mapping::ToParametric(x, B);
        for (size_t i = 0; i < 3; ++i) {
            const double tol = 1e-11 * (pu[i] - pl[i]) + 1e-15 * (std::fabs(pl[i]) + std::fabs(pu[i])) + double(8e-16L * (std::fabs(gl[i]) + std::fabs(gu[i])) / sc[i]);
            R.check(std::fabs(b[i] - p[i]) <= tol, "round-trip", [&] { return h::vec(p) + " came back as " + h::vec(q::gv(b)) + " " + where(); });
        }
        const double w = std::pow(10.0, r.u(-6, 6));
        const IntegrationPoint ip(q::vd(p), w);
        const IntegrationPoint ig = mapping::ToGlobal(ip, B);
        near(ig, gx, gl, gu, "volume-point");
        R.check(std::fabs(double(ld(ig.Weight()) / (det * w)) - 1) < 1e-11, "volume-weight", where);
        const IntegrationPoint ib = mapping::ToParametric(ig, B);
        R.check(std::fabs(ib.Weight() / w - 1) < 1e-11, "volume-weight-back", where);
        // surface: push two tangents forward; their cross product carries area and normal
        g::V t1{ r.normal(), r.normal(), r.normal() }, t2{ r.normal(), r.normal(), r.normal() };
        if (r.p(.3)) { t1 = g::V{ 0, 0, 0 }; t2 = t1; const size_t k = size_t(r.i(0, 2)); t1[(k + 1) % 3] = 1; t2[(k + 2) % 3] = r.p(.5) ? 1 : -1; }
        g::V n = g::cross(t1, t2);
        const double nn = g::norm(n);
        if (nn < 1e-3) continue;
        n = (1 / nn) * n;
        ld T1[3], T2[3], N[3];
        for (size_t i = 0; i < 3; ++i) { T1[i] = t1[i] * sc[i]; T2[i] = t2[i] * sc[i]; }
        for (size_t i = 0; i < 3; ++i) N[i] = T1[(i + 1) % 3] * T2[(i + 2) % 3] - T1[(i + 2) % 3] * T2[(i + 1) % 3];
        const ld NN = std::sqrt(N[0] * N[0] + N[1] * N[1] + N[2] * N[2]), ar = NN / nn;
        const BoundaryIntegrationPoint sp(q::vd(p), w, q::vd(n));
        const BoundaryIntegrationPoint sg = mapping::ToGlobal(sp, B);
        near(sg, gx, gl, gu, "surface-point");
        R.check(std::fabs(double(ld(sg.Weight()) / (ar * w)) - 1) < 1e-9, "surface-weight", [&] { return h::str(sg.Weight()) + " is " + h::str(double(ar * w)) + " normal " + h::vec(n) + " " + where(); });
        for (size_t i = 0; i < 3; ++i) R.check(std::fabs(double(sg.Normal()[i] - N[i] / NN)) < 1e-9, "surface-normal", [&] { return h::vec(q::gv(sg.Normal())) + " is " + h::v3(double(N[0] / NN), double(N[1] / NN), double(N[2] / NN)) + " " + where(); });
        const BoundaryIntegrationPoint sb = mapping::ToParametric(sg, B);
        R.check(std::fabs(sb.Weight() / w - 1) < 1e-9, "surface-weight-back", where);
        for (size_t i = 0; i < 3; ++i) R.check(std::fabs(sb.Normal()[i] - n[i]) < 1e-9, "surface-normal-back", where);
        R.count("surface points");
    }
    R.count("boxes");
    R.nontrivial(r.next());
}
static void model_case(const h::Args& a, h::Rng& r, h::Report& R) {
    omp_set_num_threads(1);
    q::Scene s = q::scene(r, int(a.num("maxn", 4)), 2, 1);
    if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
    s.opt.min_tri = 1;
    if (s.opt.residual < 1e-10) s.opt.residual = 1e-10;
    q::Scene t = s;
    t.grid.spline = !s.grid.spline || r.p(.3);
    for (size_t i = 0; i < 3; ++i) { const double k = std::pow(10.0, r.u(-1, 1)); t.grid.ulo[i] = r.p(.3) ? 0 : r.u(-2, 2) * k; t.grid.uup[i] = t.grid.ulo[i] + k * r.u(.5, 2); }
    if (r.p(.25)) { t.grid.ulo = s.grid.lo; t.grid.uup = s.grid.up; }
    const auto tri = q::to(s.mesh);
    auto m1 = q::model(s), m2 = q::model(t);
    m1.CreateVolume(tri.View()); m2.CreateVolume(tri.View());
    auto where = [&] { return s.str() + " against " + t.grid.str(); };
    struct E { bool trimmed; std::vector<q::Pt> g, p; double det; };
    auto collect = [](const EmbeddedModel& m) { std::map<size_t, E> o; for (const auto& e : m.GetElementViews()) o[e.GetId()] = E{ e.IsTrimmed(), q::global_points(e), q::param_points(e), e.DetJ() }; return o; };
    const auto a1 = collect(m1), a2 = collect(m2);
    size_t only = 0;
    for (auto& [id, e] : a1) only += !a2.count(id);
    for (auto& [id, e] : a2) only += !a1.count(id);
    R.count("cells active in one description only", double(only));
    for (auto& [id, e] : a1) {
        auto f = a2.find(id);
        R.count("cells");
        if (f == a2.end()) continue;
        const E& o = f->second;
        R.check(e.trimmed == o.trimmed, "kind", [&] { return "cell " + h::str(id) + " " + where(); });
        auto [lo, up] = s.grid.cell(id - 1);
        const g::V d = up - lo;
        const double S = g::norm(d) + g::norm(lo) + g::norm(up);
        for (auto* k : { &e, &o }) {
            const auto B = q::bounds((k == &e ? s : t).grid, id - 1);
            double det = 1;
            for (size_t i = 0; i < 3; ++i) det *= (B.global.upper[i] - B.global.lower[i]) / (B.parametric.upper[i] - B.parametric.lower[i]);
            R.check(std::fabs(k->det / det - 1) < 1e-9, "cell-jacobian", [&] { return "cell " + h::str(id) + " " + h::str(k->det) + " is " + h::str(det) + " " + where(); });
            R.check(k->g.size() == k->p.size(), "point-views", where);
            for (size_t n = 0; n < k->g.size(); ++n) {
                bool ok = std::fabs(k->g[n].w / (k->p[n].w * det) - 1) < 1e-9;
                for (size_t i = 0; i < 3; ++i) {
                    const double x = B.global.lower[i] + (k->p[n].x[i] - B.parametric.lower[i]) * (B.global.upper[i] - B.global.lower[i]) / (B.parametric.upper[i] - B.parametric.lower[i]);
                    const double U = std::fabs(B.parametric.lower[i]) + std::fabs(B.parametric.upper[i]), du = B.parametric.upper[i] - B.parametric.lower[i];
                    ok = ok && std::fabs(x - k->g[n].x[i]) <= 1e-11 * S * (1 + U / du);
                }
                R.check(ok, "point-mapping", [&] { return "cell " + h::str(id) + " point " + h::vec(k->p[n].x) + " mapped to " + h::vec(k->g[n].x) + " " + where(); });
            }
        }
        std::array<int, 3> deg = s.opt.p;
        const auto M1 = q::point_moments(e.g, lo, up, deg), M2 = q::point_moments(o.g, lo, up, deg);
        const double df = q::reldiff(M1, M2);
        if (!e.trimmed) {
            R.check(df < 1e-10 && e.g.size() == o.g.size(), "full-cell", [&] { return "cell " + h::str(id) + " moments differ by " + h::str(df) + " " + where(); });
            R.count("full cells");
        } else {
            R.count("trimmed cells");
            R.maxi("moment difference", df);
            for (double x : { 1e-8, 1e-6, 1e-4 }) if (df > x) R.count("trimmed cells with moment difference above " + h::str(x));
            R.check(df < .1, "trimmed-cell", [&] { return "cell " + h::str(id) + " moments differ by " + h::str(df) + " " + where(); });
        }
    }
    R.sample(where());
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        if (c % 2) mapping_case(r, R); else model_case(a, r, R);
    });
}
