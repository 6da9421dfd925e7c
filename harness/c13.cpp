// C13: point-in-body decisions against the winding number.
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        const double logs = a.num("scale", 0);
        g::Mesh m = g::body(r, 2);
        const double sc = logs ? std::pow(10.0, double(logs)) : std::pow(10.0, r.p(.7) ? r.u(-1.5, 2) : r.u(-3.5, -1));
        const g::V off = r.p(.3) ? g::V{ 0, 0, 0 } : g::V{ r.u(-5, 5) * sc, r.u(-5, 5) * sc, r.u(-5, 5) * sc };
        const g::V st = r.p(.5) ? g::V{ 1, 1, 1 } : g::V{ r.u(.1, 3), r.u(.1, 3), r.u(.1, 3) };
        for (auto& p : m.v) p = g::V{ off[0] + sc * st[0] * p[0], off[1] + sc * st[1] * p[1], off[2] + sc * st[2] * p[2] };
        auto tri = q::to(m);
        queso::BRepOperator brep(tri.View());
        auto [lo, up] = m.box();
        const g::V d = up - lo;
        const double size = g::norm(d);
        int nin = 0, nout = 0;
        auto test = [&](const g::V& p, const char* how) {
            const double ds = g::dist(m, p);
            if (ds < 1e-7 * size) { R.count("points on the surface (skipped)"); return; }
            const bool in = g::winding(m, p) > .5;
            (in ? nin : nout)++;
            R.check(brep.IsInside(q::vd(p)) == in, "is-inside", [&] { return std::string(how) + " point " + h::vec(p) + " is " + (in ? "inside" : "outside") + " (distance to surface " + h::str(ds) + "); " + g::describe(m) + " box " + h::vec(lo) + h::vec(up); });
            R.count(std::string("points ") + how);
        };
        const int n = a.thorough ? 120 : 60;
        for (int k = 0; k < n; ++k) test({ r.u(lo[0] - .05 * d[0], up[0] + .05 * d[0]), r.u(lo[1] - .05 * d[1], up[1] + .05 * d[1]), r.u(lo[2] - .05 * d[2], up[2] + .05 * d[2]) }, "random");
        for (int k = 0; k < n; ++k) {// close to the surface
            const size_t t = size_t(r.i(0, int(m.t.size()) - 1));
            double b1 = r.u(), b2 = r.u(); if (b1 + b2 > 1) { b1 = 1 - b1; b2 = 1 - b2; }
            if (r.p(.3)) b2 = r.p(.5) ? 0 : 1 - b1;// above an edge
            const g::V p = m.P(t, 0) + b1 * (m.P(t, 1) - m.P(t, 0)) + b2 * (m.P(t, 2) - m.P(t, 0));
            g::V nn = m.an(t); const double l = g::norm(nn); if (l == 0) continue;
            test(p + (size * std::pow(10.0, r.u(-6.5, -1)) * (r.p(.5) ? 1 : -1) / l) * nn, "near surface");
        }
        for (int k = 0; k < n / 2; ++k) {// shares coordinates with vertices
            const g::V &p = m.v[size_t(r.i(0, int(m.v.size()) - 1))], &q2 = m.v[size_t(r.i(0, int(m.v.size()) - 1))], &q3 = m.v[size_t(r.i(0, int(m.v.size()) - 1))];
            test({ p[0], q2[1], q3[2] }, "vertex-aligned");
            test(.5 * (p + q2), "between vertices");
        }
        if (nin && nout) R.nontrivial(h::mix(uint64_t(R.cur), a.seed));
        R.count("inside", nin); R.count("outside", nout);
        R.sample(g::describe(m) + " scale " + h::str(sc) + " inside=" + std::to_string(nin) + " outside=" + std::to_string(nout));
        // the same question asked of the part of the body in a cell
        g::Grid gr = g::grid(r, m, 3, r.i(0, 2));
        const size_t id = size_t(r.i(0, int(gr.size()) - 1));
        auto [cl, cu] = gr.cell(id);
        if (brep.GetIntersectionState(q::vd(cl), q::vd(cu)) != queso::IntersectionState::trimmed) return;
        auto dom = brep.pGetTrimmedDomain(q::vd(cl), q::vd(cu), 1e-3, 1, true);
        if (!dom) return;
        const auto B = q::bounds(gr, id);
        int tin = 0, tout = 0;
        for (int k = 0; k < n; ++k) {
            const g::V c = cu - cl;
            const g::V p{ r.u(cl[0], cu[0]), r.u(cl[1], cu[1]), r.u(cl[2], cu[2]) };
            if (g::dist(m, p) < 1e-6 * g::norm(c)) continue;
            const bool in = g::winding(m, p) > .5;
            (in ? tin : tout)++;
            R.check(dom->IsInside(q::vd(p)) == in, "is-inside-trimmed", [&] { return "point " + h::vec(p) + " is " + (in ? "inside" : "outside") + " cell " + h::vec(cl) + h::vec(cu) + "; " + g::describe(m) + " box " + h::vec(lo) + h::vec(up); });
            const auto pp = queso::mapping::ToParametric(q::vd(p), B);
            R.check(dom->IsInside<queso::CoordinateSpace::parametric>(pp, B) == in, "is-inside-trimmed-parametric", [&] { return "point " + h::vec(p) + " " + g::describe(m); });
        }
        R.count("trimmed-domain points inside", tin); R.count("trimmed-domain points outside", tout);
    });
}
