// C15: clipping a surface at boxes conserves it.
#include "queso/embedding/brep_operator.h"
#include "q.hpp"
using namespace queso;
namespace {
using g::Sum;
g::Mesh soup(h::Rng& r) {
    g::Mesh m; m.name = "soup";
    const int n = r.i(1, 60);
    const double s = r.u(.05, 1.2);
    for (int k = 0; k < n; ++k) {
        const g::V c{ r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) };
        g::V q[3];
        do for (auto& x : q) x = { c[0] + s * r.u(-1, 1), c[1] + s * r.u(-1, 1), c[2] + s * r.u(-1, 1) };
        while (g::norm(g::cross(q[1] - q[0], q[2] - q[0])) < .02 * s * s);
        size_t id[3]; for (int i = 0; i < 3; ++i) id[i] = m.add(q[i]);
        m.tri(id[0], id[1], id[2]);
    }
    return m;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& A, long, h::Rng& r, h::Report& R) {
        const int kind = r.i(0, 3);// 0,1 body; 2 soup; 3 lattice surface: vertices on grid corners, edges, planes
        g::Mesh m;
        g::Grid gr;
        const double sc = A.opt.count("scale") ? std::pow(10.0, A.num("scale", 0)) : std::pow(10.0, r.p(.7) ? r.u(-1, 1.5) : r.u(-2, 4));
        const g::V off = r.p(.4) ? g::V{ 0, 0, 0 } : g::V{ r.u(-2, 2) * sc, r.u(-2, 2) * sc, r.u(-2, 2) * sc };
        if (kind < 3) {
            m = kind == 2 ? soup(r) : g::body(r, 1);
            for (auto& p : m.v) p = off + sc * p;
            gr = g::grid(r, m, 4, kind == 2 ? 0 : r.i(0, 2));
        } else {
            for (int i = 0; i < 3; ++i) { gr.n[i] = r.i(1, 4); gr.lo[i] = off[i]; gr.up[i] = off[i] + sc * r.u(.5, 2); }
            const bool half = r.p(.5);
            const int nt = r.i(1, 25);
            m.name = "lattice";
            for (int k = 0; k < nt; ++k) {
                g::V q[3];
                do for (auto& x : q) { int c[3]; for (int i = 0; i < 3; ++i) c[i] = r.i(0, half ? 2 * gr.n[i] : gr.n[i]);
                    for (int i = 0; i < 3; ++i) x[i] = gr.lo[i] + (gr.up[i] - gr.lo[i]) * c[i] / (half ? 2 * gr.n[i] : gr.n[i]); }
                while (g::norm(g::cross(q[1] - q[0], q[2] - q[0])) < 1e-3 * sc * sc);
                size_t id[3]; for (int i = 0; i < 3; ++i) id[i] = m.add(q[i]);
                m.tri(id[0], id[1], id[2]);
            }
        }
        const TriangleMesh tm = q::to(m);
        const BRepOperator op(tm.View());
        const double L = g::norm(gr.up - gr.lo), S = L + g::norm(gr.lo) + g::norm(gr.up);
        const double tolA = 1e-9 * S * L;
        // pieces of one cell
        auto pieces = [&](const ClippedTriangleMesh& c, const g::V& lo, const g::V& up, bool unique, auto&& where) {
            Sum s;
            const g::V d = up - lo;
            (void)d;
            for (IndexType k = 0; k < c.NumOfTriangles(); ++k) {
                const auto t = c.Triangle<WithNormals>(k);
                const g::Poly q{ { t.P1[0], t.P1[1], t.P1[2] }, { t.P2[0], t.P2[1], t.P2[2] }, { t.P3[0], t.P3[1], t.P3[2] } };
                s.add(q, gr.lo);
                for (auto& p : q) for (int i = 0; i < 3; ++i)
                    R.check(p[i] >= lo[i] - 1e-11 * S - 1e-12 && p[i] <= up[i] + 1e-11 * S + 1e-12, unique ? "unique-piece-outside-cell" : "piece-outside-cell", where);
                const g::V n = g::cross(q[1] - q[0], q[2] - q[0]);
                const double A = .5 * g::norm(n);
                const g::V sn{ t.Normal[0], t.Normal[1], t.Normal[2] };
                R.check(std::fabs(g::norm(sn) - 1) < 1e-9, "normal-not-unit", where);
                if (A > 1e-7 * L * L) {
                    R.check(g::dot(sn, n) > 0.999 * 2 * A, "orientation", where);
                    const g::V ce = (1. / 3) * (q[0] + q[1] + q[2]);
                    bool found = false;
                    for (size_t j = 0; j < m.t.size() && !found; ++j) {
                        const g::V pn = m.an(j);
                        found = g::dot(pn, n) > .9999 * 2 * A * g::norm(pn) && g::dist(ce, m.P(j, 0), m.P(j, 1), m.P(j, 2)) < 1e-9 * S;
                    }
                    R.check(found, "piece-without-parent", where);
                }
                R.count(unique ? "unique pieces" : "pieces");
            }
            return s;
        };
        auto same = [&](const Sum& a, const Sum& b) {
            return std::fabs(a.a - b.a) <= tolA && g::norm(a.n - b.n) <= tolA && g::norm(a.c - b.c) <= tolA * S;
        };
        auto show = [&](const Sum& s) { return "area " + h::str(s.a) + " vector " + h::vec(s.n) + " first moment " + h::vec(s.c); };
        // oracle: parts of all triangles in a box, those lying in a face plane apart
        auto oracle = [&](const g::V& lo, const g::V& up, bool& exact) {
            Sum s; exact = true;
            for (size_t k = 0; k < m.t.size(); ++k) {
                bool drop = false;
                for (int i = 0; i < 3; ++i) for (double pl : { lo[i], up[i] }) {
                    double mx = 0; for (int j = 0; j < 3; ++j) mx = std::max(mx, std::fabs(m.P(k, j)[i] - pl));
                    if (mx == 0) drop = true;
                    else if (mx < 1e-10 * S && mx > 0) exact = false;
                }
                if (!drop) s.add(g::clipbox(g::poly(m, k), lo, up), gr.lo);
                else R.count("triangles in a face plane");
            }
            return s;
        };
        Sum total;
        bool nt = false;
        for (size_t id = 0; id < gr.size(); ++id) {
            const auto [lo, up] = gr.cell(id);
            auto where = [&] { return g::describe(m) + " kind " + h::str(kind) + " " + gr.str() + " cell " + h::str(id) + " " + h::vec(lo) + " " + h::vec(up); };
            const PointType plo = q::vd(lo), pup = q::vd(up);
            const Sum got = pieces(op.ClipTriangleMesh(plo, pup), lo, up, false, where);
            bool exact = true;
            const Sum want = oracle(lo, up, exact);
            if (exact) R.check(same(got, want), "cell-content", [&] { return where() + " got " + show(got) + " expected " + show(want); });
            else R.count("cells with nearly coplanar triangles");
            nt |= want.a > 0;
            const auto u = op.ClipTriangleMeshUnique(plo, pup);
            const Sum su = pieces(u, lo, up, true, where);
            // content of the open cell has to be there, content of the closed cell is the most
            const g::V e{ 1e-9 * S, 1e-9 * S, 1e-9 * S };
            const double amin = g::area_in_box(m, lo + e, up - e), amax = g::area_in_box(m, lo - e, up + e);
            R.check(su.a >= amin - 1e-8 * S * L && su.a <= amax + 1e-8 * S * L, "unique-cell-area", [&] { return where() + " area " + h::str(su.a) + " open " + h::str(amin) + " closed " + h::str(amax); });
            total.a += su.a; total.n = total.n + su.n; total.c = total.c + su.c;
        }
        Sum in;
        bool lower = false;
        for (size_t k = 0; k < m.t.size(); ++k) {
            in.add(g::clipbox(g::poly(m, k), gr.lo - g::V{ 1e-13 * S, 1e-13 * S, 1e-13 * S }, gr.up + g::V{ 1e-13 * S, 1e-13 * S, 1e-13 * S }), gr.lo);
            for (int i = 0; i < 3; ++i) {
                double mx = 0; for (int j = 0; j < 3; ++j) mx = std::max(mx, std::fabs(m.P(k, j)[i] - gr.lo[i]));
                lower |= mx < 1e-9 * S;
            }
        }
        if (A.get("lower") == "1" || !lower)
            R.check(std::fabs(total.a - in.a) <= 1e-8 * S * L && g::norm(total.n - in.n) <= 1e-8 * S * L, lower ? "surface-on-lower-bound" : "surface-not-conserved",
                [&] { return g::describe(m) + " kind " + h::str(kind) + " " + gr.str() + ": all cells " + show(total) + " surface in grid " + show(in); });
        if (lower) R.count("grids with surface on the lower bound");
        R.count("cells", double(gr.size()));
        if (nt) R.nontrivial(r.next());
        R.sample(g::describe(m) + " " + gr.str());
    });
}
