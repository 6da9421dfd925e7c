// C14: box and ray queries against exhaustive searches.
#include "queso/embedding/geometry_query.h"
#include "queso/embedding/aabb_tree.h"
#include "queso/embedding/ray_aabb_primitive.h"
#include "q.hpp"
using namespace queso;
namespace {
g::Mesh soup(h::Rng& r) {
    g::Mesh m; m.name = "soup";
    const int n = r.p(.1) ? r.i(1, 3) : r.i(4, 120);
    const double s = r.u(.02, .8), el = r.p(.3) ? .05 : 1;
    for (int k = 0; k < n; ++k) {
        const g::V c{ r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) };
        size_t id[3];
        for (auto& x : id) x = m.add({ c[0] + s * r.u(-1, 1), c[1] + s * r.u(-1, 1) * el, c[2] + s * r.u(-1, 1) });
        if (r.p(.1)) for (int i = 1; i < 3; ++i) m.v[id[i]][2] = m.v[id[0]][2];// axis aligned triangle
        m.tri(id[0], id[1], id[2]);
    }
    return m;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args&, long, h::Rng& r, h::Report& R) {
        const bool closed = r.p(.6);
        g::Mesh m = closed ? g::body(r, 1) : soup(r);
        const double sc = std::pow(10.0, r.u(-1, 2));
        const g::V off{ r.u(-3, 3) * sc, r.u(-3, 3) * sc, r.u(-3, 3) * sc };
        for (auto& p : m.v) p = off + sc * p;
        const TriangleMesh tm = q::to(m);
        const GeometryQuery gq(tm, closed);
        const AABB_tree tree(tm.View());
        const auto [blo, bup] = m.box();
        const g::V d = bup - blo;
        bool nt = false;
        // ------------------------------------------------ boxes
        for (int k = 0; k < 40; ++k) {
            g::V lo, up;
            if (r.p(.25)) {// around or touching a vertex or centroid
                const size_t t = size_t(r.i(0, int(m.t.size()) - 1));
                const g::V c = r.p(.5) ? m.P(t, r.i(0, 2)) : (1. / 3) * (m.P(t, 0) + m.P(t, 1) + m.P(t, 2));
                const double w = sc * std::pow(10.0, r.u(-3, 0));
                for (int i = 0; i < 3; ++i) { lo[i] = c[i] - w * (r.p(.2) ? 0 : r.u(.01, 1)); up[i] = lo[i] + w * r.u(1.01, 2); }
            } else for (int i = 0; i < 3; ++i) { const double a = r.u(-.2, 1.1), b = a + r.u(.02, .7); lo[i] = blo[i] + a * (d[i] + .01 * sc); up[i] = blo[i] + b * (d[i] + .01 * sc); }
            const g::V e = up - lo;
            const double mx = std::max({ e[0], e[1], e[2] });
            const double diag = g::norm(e);
            std::set<IndexType> must, may;
            for (size_t t = 0; t < m.t.size(); ++t) {
                const double s = 1e-6 * mx, x = 1e-9 * (mx + g::norm(lo) + sc);
                const auto in = g::clipbox(g::poly(m, t), { lo[0] + s, lo[1] + s, lo[2] + s }, { up[0] - s, up[1] - s, up[2] - s });
                if (in.size() > 2 && g::area(in) > 1e-9 * diag * diag) must.insert(t);
                if (!g::clipbox(g::poly(m, t), { lo[0] - x, lo[1] - x, lo[2] - x }, { up[0] + x, up[1] + x, up[2] + x }).empty()) may.insert(t);
            }
            const PointType plo = q::vd(lo), pup = q::vd(up);
            const bool hit = gq.DoIntersect(plo, pup, SNAPTOL);
            const double tol = r.p(.5) ? 1e-13 * std::max(mx, 1.0) : ZEROTOL;
            const auto ids = gq.GetIntersectedTriangleIds(plo, pup, tol);
            const std::set<IndexType> got(ids.begin(), ids.end());
            auto where = [&] { return g::describe(m) + " box " + h::vec(lo) + " " + h::vec(up); };
            R.check(got.size() == ids.size(), "triangle-twice", where);
            for (auto t : must) R.check(got.count(t) == 1, "triangle-missed", [&] { return where() + " triangle " + h::str(t); });
            for (auto t : got) R.check(may.count(t) == 1, "triangle-apart", [&] { return where() + " triangle " + h::str(t); });
            if (!must.empty()) R.check(hit, "intersection-missed", where);
            if (may.empty()) R.check(!hit, "intersection-invented", where);
            R.count(must.empty() ? may.empty() ? "boxes apart" : "boxes touching" : "boxes cut");
            R.count("triangles in boxes", double(must.size()));
            nt |= !must.empty() && must.size() < m.t.size();
            // search tree: all boxes that overlap
            const auto cand = tree.Query(AABB_primitive(plo, pup));
            const std::set<IndexType> cs(cand.begin(), cand.end());
            R.check(cs.size() == cand.size(), "candidate-twice", where);
            for (size_t t = 0; t < m.t.size(); ++t) {
                bool over = true;
                for (int i = 0; i < 3; ++i) over &= std::max({ m.P(t, 0)[i], m.P(t, 1)[i], m.P(t, 2)[i] }) >= lo[i] && std::min({ m.P(t, 0)[i], m.P(t, 1)[i], m.P(t, 2)[i] }) <= up[i];
                R.check(cs.count(t) == (over ? 1u : 0u), "tree-query", [&] { return where() + " triangle " + h::str(t); });
            }
        }
        // ------------------------------------------------ rays
        for (int k = 0; k < 60; ++k) {
            g::V o, dir;
            for (int i = 0; i < 3; ++i) o[i] = blo[i] + r.u(-.2, 1.2) * d[i] + (d[i] == 0 ? sc * r.u(-.1, .1) : 0);
            const int kind = r.i(0, 4);
            if (kind <= 1) dir = { r.u(.05, 1.5), r.u(.05, 1.5), r.u(.05, 1.5) };
            else if (kind == 2) { do dir = { r.normal(), r.normal(), r.normal() }; while (g::norm(dir) < .1); }
            else if (kind == 3) { dir = { 0, 0, 0 }; dir[size_t(r.i(0, 2))] = r.p(.5) ? 1 : -1; }
            else { const size_t t = size_t(r.i(0, int(m.t.size()) - 1)); const double a = r.u(.05, .5), b = r.u(.05, .45); dir = (m.P(t, 0) + a * (m.P(t, 1) - m.P(t, 0)) + b * (m.P(t, 2) - m.P(t, 0))) - o; if (g::norm(dir) < 1e-3 * sc) continue; }
            dir = (1 / g::norm(dir)) * dir;
            const Ray_AABB_primitive ray(q::vd(o), q::vd(dir));
            const auto cand = tree.Query(ray);
            const std::set<IndexType> cs(cand.begin(), cand.end());
            auto where = [&] { return g::describe(m) + " ray " + h::vec(o) + " " + h::vec(dir); };
            R.check(cs.size() == cand.size(), "ray-candidate-twice", where);
            int hits = 0; double nearest = 1e300; bool nearest_back = false, clean = true, close = false;
            for (size_t t = 0; t < m.t.size(); ++t) {
                const g::V a = m.P(t, 0), e1 = m.P(t, 1) - a, e2 = m.P(t, 2) - a;
                const g::V n = g::cross(e1, e2);
                const double det = -g::dot(dir, n), A = g::norm(n);
                if (A < 1e-9 * sc * sc) { clean = false; continue; }
                if (std::fabs(det) < 1e-7 * A) { clean = false; continue; }
                const g::V w = o - a;
                const double T = g::dot(w, n) / det;
                const g::V p = g::cross(w, dir);
                const double u = -g::dot(e2, p) / det * -1, v = g::dot(e1, p) / det * -1;
                // barycentric coordinates of the hit point, recomputed from the point itself
                const g::V x = o + T * dir - a;
                const double uu = g::dot(g::cross(x, e2), n) / (A * A), vv = g::dot(g::cross(e1, x), n) / (A * A);
                (void)u; (void)v;
                const double marg = std::min({ uu, vv, 1 - uu - vv });
                const bool in = marg > 1e-7 && T > 1e-7 * sc, out = marg < -1e-7 || T < -1e-7 * sc;
                double rt = 0, ru = 0, rv = 0; bool back = false, par = false;
                const bool got = ray.intersect(q::vd(m.P(t, 0)), q::vd(m.P(t, 1)), q::vd(m.P(t, 2)), rt, ru, rv, back, par);
                if (!in && !out) { clean = false; close |= std::fabs(T) <= 1e-7 * sc; continue; }
                R.check(got == in || (out && got && par), "ray-triangle", [&] { return where() + " triangle " + h::str(t) + " u v t " + h::v3(uu, vv, T); });
                if (in) {
                    ++hits;
                    R.check(cs.count(t) == 1, "ray-triangle-missed-by-tree", [&] { return where() + " triangle " + h::str(t) + " u v t " + h::v3(uu, vv, T); });
                    if (got && !par) R.check(std::fabs(rt - T) < 1e-6 * (sc + std::fabs(T)) && std::fabs(ru - uu) < 1e-5 && std::fabs(rv - vv) < 1e-5 && back == (det < 0), "ray-hit-data",
                        [&] { return where() + " triangle " + h::str(t) + " got " + h::v3(ru, rv, rt) + " back " + h::str(back) + " expected " + h::v3(uu, vv, T) + " back " + h::str(det < 0); });
                    if (T < nearest) { if (nearest - T < 1e-6 * sc) clean = false; nearest = T; nearest_back = det < 0; }
                    else if (T - nearest < 1e-6 * sc) clean = false;
                }
            }
            R.count("ray hits", hits);
            R.count(kind == 3 ? "rays axis aligned" : kind <= 1 ? "rays positive" : "rays general");
            const auto [inside, ok] = gq.IsInside(ray);
            const bool expect = closed ? hits % 2 == 1 : hits > 0 && nearest_back;
            if (clean) R.check(ok, "clean-ray-refused", where);
            if (ok && clean) R.check(inside == expect, "ray-decision", [&] { return where() + " hits " + h::str(hits) + " inside " + h::str(inside) + " closed " + h::str(closed); });
            // a ray in a special position may be refused, but an accepted answer must still be right
            if (ok && closed && !clean && !close && g::dist(m, o) > 1e-3 * sc) {
                R.count("rays in special position accepted");
                R.check(inside == (g::winding(m, o) > .5), "special-ray-decision", [&] { return where() + " inside " + h::str(inside); });
            }
            if (!ok) R.count("rays refused");
            nt |= hits > 0;
        }
        if (nt) R.nontrivial(r.next());
        R.sample(g::describe(m) + (closed ? " closed" : " soup"));
    });
}
