// Finished models: scenario generation and digests.
#pragma once
#include <omp.h>
#include "q.hpp"
#include "queso/embedded_model.h"
namespace q {
struct Scene {
    g::Mesh mesh;
    g::Grid grid;
    Opt opt;
    std::string str() const {
        return g::describe(mesh) + " " + grid.str() + " p=" + h::vec(opt.p) + " method=" + std::to_string(int(opt.method)) + " res=" + h::str(opt.residual)
               + " minratio=" + h::str(opt.min_ratio) + " mintri=" + std::to_string(opt.min_tri);
    }
};
// mode as in g::grid; -1: random
inline Scene scene(h::Rng& r, int maxn, int maxp, int detail, int mode = -1, bool ggq = false) {
    Scene s;
    s.mesh = g::body(r, detail);
    const double sc = std::pow(10.0, r.u(-1.3, 1.5));
    const g::V off = r.p(.3) ? g::V{ 0, 0, 0 } : g::V{ r.u(-5, 5) * sc, r.u(-5, 5) * sc, r.u(-5, 5) * sc };
    const g::V st = r.p(.6) ? g::V{ 1, 1, 1 } : g::V{ r.u(.3, 3), r.u(.3, 3), r.u(.3, 3) };
    for (auto& p : s.mesh.v) p = g::V{ off[0] + sc * st[0] * p[0], off[1] + sc * st[1] * p[1], off[2] + sc * st[2] * p[2] };
    if (mode < 0) { const double t = r.u(); mode = t < .6 ? 0 : t < .8 ? 1 : 2; }
    s.grid = g::grid(r, s.mesh, maxn, mode);
    for (auto& p : s.opt.p) p = r.i(1, maxp);
    if (r.p(.4)) s.opt.p[1] = s.opt.p[2] = s.opt.p[0];
    const int mx = *std::min_element(s.opt.p.begin(), s.opt.p.end());
    s.opt.method = r.p(.7) ? IntegrationMethod::gauss : (mx >= 2 && r.p(.5)) ? IntegrationMethod::gauss_reduced_2 : IntegrationMethod::gauss_reduced_1;
    if (ggq) {
        for (auto& p : s.opt.p) p = r.i(2, std::max(2, maxp));
        s.grid.spline = true;
        s.opt.method = r.pick(std::vector<IntegrationMethod>{ IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2 });
    }
    const int least = ggq ? 2 : 1;// moment fitting is cubic in the number of functions: keep it below ~48
    while ((s.opt.p[0] + 1) * (s.opt.p[1] + 1) * (s.opt.p[2] + 1) > 48) { auto& x = s.opt.p[size_t(r.i(0, 2))]; if (x > least) --x; }
    s.opt.min_ratio = r.p(.5) ? 1e-3 : r.p(.5) ? 0.0 : r.u(0, .1);
    s.opt.min_tri = r.p(.5) ? 100 : r.p(.5) ? 1 : size_t(r.i(2, 400));
    s.opt.residual = r.p(.6) ? 1e-10 : r.p(.1) ? 0.0 : std::pow(10.0, r.u(-12, -4));
    return s;
}
// The same scene with another extent (largest edge of the grid box) and another parametric extent, each between lo and up (powers of ten).
inline void rescale(h::Rng& r, Scene& s, double lo, double up) {
    const g::V d = s.grid.up - s.grid.lo;
    const double f = std::pow(10.0, r.u(lo, up)) / std::max({ d[0], d[1], d[2] });
    for (auto& p : s.mesh.v) p = f * p;
    s.grid.lo = f * s.grid.lo; s.grid.up = f * s.grid.up;
    if (r.p(.4)) { s.grid.ulo = s.grid.lo; s.grid.uup = s.grid.up; return; }
    const double u = std::pow(10.0, r.u(lo, up));
    for (size_t i = 0; i < 3; ++i) { s.grid.ulo[i] *= u; s.grid.uup[i] *= u; }
}
// A surface for a condition: part of the body's surface, all of it, an open sheet, or triangles in grid planes.
inline g::Mesh surface(h::Rng& r, const Scene& s) {
    g::Mesh m;
    const int kind = r.i(0, 4);
    const g::V d = s.grid.up - s.grid.lo;
    if (kind <= 1) {// part of the body's surface
        m = s.mesh; m.name = "part";
        const int ax = r.i(0, 2); const double c = r.u(.2, .8), sg = r.p(.5) ? 1 : -1;
        auto [lo, up] = s.mesh.box();
        std::vector<g::T> t;
        for (auto& f : m.t) if (sg * (m.v[f[0]][size_t(ax)] + m.v[f[1]][size_t(ax)] + m.v[f[2]][size_t(ax)] - 3 * (lo[size_t(ax)] + c * (up[size_t(ax)] - lo[size_t(ax)]))) >= 0) t.push_back(f);
        if (!t.empty()) m.t = t;
    } else if (kind == 2) {// sheet through the grid, possibly leaving it
        const double a = r.u(-.2, .5), w = r.u(.3, 1.2), b = r.u(-.2, .5), v = r.u(.3, 1.2), k = r.u(-.4, .4), z = r.u(.1, .9);
        const int ax = r.i(0, 2);
        m = g::quadgrid(r.i(1, 5), r.i(1, 5), [&](double x, double y) {
            const double p = a + w * x, q = b + v * y, zz = z + k * (x - .5) * (y + .2);
            g::V o{}; o[size_t(ax)] = zz; o[size_t((ax + 1) % 3)] = p; o[size_t((ax + 2) % 3)] = q;
            return g::V{ s.grid.lo[0] + d[0] * o[0], s.grid.lo[1] + d[1] * o[1], s.grid.lo[2] + d[2] * o[2] }; });
        m.name = "sheet";
    } else if (kind == 3) {// rectangle in a plane of the grid, from corner to corner
        const size_t ax = size_t(r.i(0, 2)), b = (ax + 1) % 3, c = (ax + 2) % 3;
        const int pl = r.i(0, s.grid.n[ax]);
        int i0 = r.i(0, s.grid.n[b] - 1), i1 = r.i(i0 + 1, s.grid.n[b]), j0 = r.i(0, s.grid.n[c] - 1), j1 = r.i(j0 + 1, s.grid.n[c]);
        auto at = [&](size_t e, int i) { return s.grid.lo[e] + d[e] * i / s.grid.n[e]; };
        m = g::quadgrid(r.i(1, 3), r.i(1, 3), [&](double x, double y) { g::V o{}; o[ax] = at(ax, pl); o[b] = at(b, i0) + x * (at(b, i1) - at(b, i0)); o[c] = at(c, j0) + y * (at(c, j1) - at(c, j0)); return o; });
        if (r.p(.5)) m.flip();
        m.name = "plane";
    } else { m = s.mesh; m.name = "all"; }
    return m;
}
inline EmbeddedModel model(const Scene& s) { return EmbeddedModel::Create(settings(s.grid, s.opt)); }
using View = EmbeddedModel::ElementViewType;
struct Pt { g::V x; double w; };
inline std::vector<Pt> global_points(const View& e) {
    std::vector<Pt> o;
    for (const auto& p : e.template GetIntegrationPoints<CoordinateSpace::global>()) o.push_back({ { p[0], p[1], p[2] }, p.Weight() });
    return o;
}
inline std::vector<Pt> param_points(const View& e) {
    std::vector<Pt> o;
    for (const auto& p : e.template GetIntegrationPoints<CoordinateSpace::parametric>()) o.push_back({ { p[0], p[1], p[2] }, p.Weight() });
    return o;
}
// Moments of a point set in shifted Legendre basis, cell-local units (volume 1).
inline g::Moments point_moments(const std::vector<Pt>& pts, const g::V& lo, const g::V& up, std::array<int, 3> n) {
    g::Moments M{ n, std::vector<double>(size_t((n[0] + 1) * (n[1] + 1) * (n[2] + 1)), 0.0) };
    const g::V d = up - lo;
    const double vol = d[0] * d[1] * d[2];
    std::vector<double> l[3];
    for (int i = 0; i < 3; ++i) l[i].resize(size_t(n[i] + 1));
    for (auto& p : pts) {
        for (int i = 0; i < 3; ++i) g::legendre01((p.x[i] - lo[i]) / d[i], n[i], l[i].data());
        size_t e = 0;
        for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i)
            M.m[e++] += p.w / vol * l[0][size_t(i)] * l[1][size_t(j)] * l[2][size_t(k)];
    }
    return M;
}
inline double reldiff(const g::Moments& a, const g::Moments& b) {
    double s = 0, n = 0;
    for (size_t i = 0; i < a.m.size(); ++i) { s += (a.m[i] - b.m[i]) * (a.m[i] - b.m[i]); n += b.m[i] * b.m[i]; }
    return std::sqrt(s / std::max(n, 1e-300));
}
}// namespace q
