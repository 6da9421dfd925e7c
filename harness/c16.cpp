// C16: the boundary of the part of a body in a cell: closed, outward, in the cell, encloses exactly body-in-cell.
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
using queso::CoordinateSpace;
namespace {
struct Enc { double a = 0, vol = 0; g::V n{}, mom{}; };// area, volume, vector area, first moments about o
Enc enclosed(const g::Mesh& m, const g::V& o) {
    Enc e;
    for (size_t k = 0; k < m.t.size(); ++k) {
        const g::V a = m.P(k, 0) - o, b = m.P(k, 1) - o, c = m.P(k, 2) - o, n = g::cross(b - a, c - a);
        e.a += .5 * g::norm(n);
        e.n = e.n + .5 * n;
        const double v = g::dot(a, n) / 6;
        e.vol += v;
        e.mom = e.mom + (v / 4) * (a + b + c);
    }
    return e;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(1);
        q::Scene s = q::scene(r, int(a.num("maxn", 4)), 1, r.p(.8) ? 1 : 3);
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        const size_t min_tri = r.p(.3) ? 1 : size_t(r.i(2, 600));
        s.opt.min_tri = min_tri;
        s.opt.min_ratio = r.p(.5) ? 0.0 : 1e-3;
        const bool via_model = r.p(.35);
        auto ptri = std::make_unique<queso::TriangleMesh>(q::to(s.mesh));
        auto examine = [&](const auto& dom, const g::Mesh& b, const queso::BoundingBoxType& box, const queso::BoundingBoxType& pbox, const auto& ips, const auto& pips, size_t id, bool trimmed, auto&& inside, auto&& pinside, auto&& state, auto&& pstate) {
            (void)dom;
            auto [lo, up] = s.grid.cell(id);
            const g::V d = up - lo, mid = .5 * (lo + up);
            const double cv = d[0] * d[1] * d[2], ca = 2 * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]), L = g::norm(d), S = L + g::norm(lo) + g::norm(up);
            const double asp = L / std::min({ d[0], d[1], d[2] });
            const auto B = q::bounds(s.grid, id);
            auto where = [&] { return std::string(via_model ? "(model) " : "") + (trimmed ? "trimmed" : "full") + " cell " + h::str(id) + h::vec(lo) + h::vec(up) + "; " + s.str(); };
            const Enc e = enclosed(b, mid);
            const auto M = g::moments(s.mesh, lo, up, { 1, 1, 1 });
            const double eclosed = g::norm(e.n) / e.a;
            R.maxi("closedness", eclosed);
            const bool good = eclosed < 1e-7;
            R.count(trimmed ? "trimmed cells" : "full cells");
            if (!good) R.count("cells with open boundary");
            else {
                // volume fraction and first moments in units of the cell
                const double dv = std::fabs(e.vol / cv - M.m[0]);
                double dm = 0;
                const size_t ix[3] = { 1, 2, 4 };
                for (int i = 0; i < 3; ++i) dm = std::max(dm, std::fabs(2 * e.mom[size_t(i)] / d[size_t(i)] / cv - M.m[ix[i]]));
                R.maxi("volume difference", dv); R.maxi("first moment difference", dm);
                for (double t : { 1e-9, 1e-6 }) if (dv > t) R.count("cells with volume difference above " + h::str(t));
                R.check(dv < 1e-6, "enclosed-volume", [&] { return "fraction " + h::str(e.vol / cv) + " expected " + h::str(M.m[0]) + " closedness " + h::str(eclosed) + " " + where(); });
                for (double t : { 1e-9, 1e-6 }) if (dm > t) R.count("cells with first moment difference above " + h::str(t));
                R.check(dm < 1e-6, "enclosed-moments", [&] { return "first moments off by " + h::str(dm) + " " + where(); });
                // winding number of the boundary around points
                g::Mesh rel = b;
                for (int k = 0; k < 6; ++k) {
                    const g::V p{ r.u(lo[0], up[0]), r.u(lo[1], up[1]), r.u(lo[2], up[2]) };
                    if (g::dist(s.mesh, p) < 1e-6 * L || g::dist(b, p) < 1e-6 * L) continue;
                    const double w = g::winding(rel, p), wb = g::winding(s.mesh, p);
                    R.check(std::fabs(w - (wb > .5)) < 1e-2, "winding", [&] { return "winding number of the boundary around " + h::vec(p) + " is " + h::str(w) + " of the body " + h::str(wb) + " " + where(); });
                    R.count("winding numbers");
                }
            }
            R.check(e.vol > 0, "orientation", [&] { return "enclosed volume " + h::str(e.vol) + " " + where(); });
            auto [bl, bu] = b.box();
            bool perturbed = false;
            for (int i = 0; i < 3; ++i) {
                const size_t k = size_t(i);
                // the box of a cell with a flawed surface is perturbed, up to 14 times by up to 1e-9 (relative to cells larger than one)
                const double tol = 1.5e-8 * std::max(1.0, L) + 1e-13 * S, tight = 1e-12 * L + 1e-13 * S;
                if (bl[k] < lo[k] - tight || bu[k] > up[k] + tight) perturbed = true;
                R.check(bl[k] >= lo[k] - tol && bu[k] <= up[k] + tol, "leaves-the-cell", [&] { return h::vec(bl) + h::vec(bu) + " " + where(); });
                R.check(box.lower[k] == bl[k] && box.upper[k] == bu[k], "bounding-box", [&] { return h::vec(box.lower) + h::vec(box.upper) + " of " + h::vec(bl) + h::vec(bu) + where(); });
                const double pl = B.parametric.lower[k] + (bl[k] - lo[k]) / d[k] * (B.parametric.upper[k] - B.parametric.lower[k]);
                const double pu = B.parametric.lower[k] + (bu[k] - lo[k]) / d[k] * (B.parametric.upper[k] - B.parametric.lower[k]);
                const double ps = 1e-12 * (1 + std::fabs(B.parametric.lower[k]) + std::fabs(B.parametric.upper[k])) * (1 + S / d[k]);
                R.check(std::fabs(pbox.lower[k] - pl) < ps && std::fabs(pbox.upper[k] - pu) < ps, "bounding-box-parametric", [&] { return h::vec(pbox.lower) + h::vec(pbox.upper) + " expected " + h::str(pl) + " " + h::str(pu) + where(); });
            }
            if (trimmed && perturbed) R.count("cells perturbed");
            R.check(!trimmed || b.t.size() >= min_tri || e.a < 1e-10, "too-few-triangles", [&] { return h::str(b.t.size()) + " " + where(); });
            // boundary integration points: on the boundary, unit outward normals, area, closedness, volume by the divergence theorem
            Enc q2;
            double wneg = 0, nerr = 0; size_t np = 0;
            g::V div{};
            for (const auto& p : ips) {
                const g::V x{ p[0], p[1], p[2] }, n{ p.Normal()[0], p.Normal()[1], p.Normal()[2] };
                if (!(p.Weight() >= wneg)) wneg = p.Weight();
                const double ne = std::fabs(g::norm(n) - 1);
                if (p.Weight() > std::max(1e-12 * ca, 1e-14)) { if (!(ne <= nerr)) nerr = ne; } else { R.count("points of degenerate triangles"); if (!(ne <= 1e-6)) R.count("points of degenerate triangles without normal"); }
                q2.a += p.Weight(); q2.n = q2.n + p.Weight() * n;
                for (int i = 0; i < 3; ++i) div[size_t(i)] += p.Weight() * n[size_t(i)] * (x[size_t(i)] - mid[size_t(i)]);
                for (int i = 0; i < 3; ++i) q2.mom[size_t(i)] += .5 * p.Weight() * n[size_t(i)] * (x[size_t(i)] - mid[size_t(i)]) * (x[size_t(i)] - mid[size_t(i)]);
                ++np;
            }
            R.count("boundary points", double(np));
            R.check(np > 0 && wneg >= 0 && nerr < 1e-6, "boundary-points", [&] { return h::str(np) + " points, least weight " + h::str(wneg) + ", normal error " + h::str(nerr) + " " + where(); });
            R.check(std::fabs(q2.a - e.a) < 1e-9 * ca, "boundary-points-area", [&] { return h::str(q2.a) + " of " + h::str(e.a) + " " + where(); });
            // normals of clipped slivers are those of the parent, so compare with a tolerance in the cell's area
            R.check(g::norm(q2.n - e.n) < 1e-6 * ca, "boundary-points-normals", [&] { return h::vec(q2.n) + " expected " + h::vec(e.n) + " " + where(); });
            if (good) for (int i = 0; i < 3; ++i) {
                R.check(std::fabs(div[size_t(i)] - e.vol) < 1e-4 * cv * asp, "boundary-points-volume", [&] { return h::vec(div) + " expected " + h::str(e.vol) + " " + where(); });
                R.check(std::fabs(q2.mom[size_t(i)] - e.mom[size_t(i)]) < 1e-4 * cv * L, "boundary-points-moments", [&] { return h::vec(q2.mom) + " expected " + h::vec(e.mom) + " " + where(); });
            }
            // the same in parametric coordinates
            R.check(pips.size() == ips.size(), "parametric-points", where);
            const g::V pd{ B.parametric.upper[0] - B.parametric.lower[0], B.parametric.upper[1] - B.parametric.lower[1], B.parametric.upper[2] - B.parametric.lower[2] };
            g::V pn{}, pdiv{};
            double pnerr = 0;
            for (size_t k = 0; k < std::min(pips.size(), ips.size()); ++k) {
                const auto& p = pips[k];
                const g::V n{ p.Normal()[0], p.Normal()[1], p.Normal()[2] };
                const double ne = std::fabs(g::norm(n) - 1);
                if (ips[k].Weight() > std::max(1e-12 * ca, 1e-14) && !(ne <= pnerr)) pnerr = ne;
                if (!std::isfinite(ne) || !std::isfinite(p.Weight())) pnerr = ne;
                pn = pn + p.Weight() * n;
                for (int i = 0; i < 3; ++i) pdiv[size_t(i)] += p.Weight() * n[size_t(i)] * (p[size_t(i)] - .5 * (B.parametric.lower[size_t(i)] + B.parametric.upper[size_t(i)]));
            }
            const double pcv = pd[0] * pd[1] * pd[2];
            R.check(pnerr < 1e-6, "parametric-normals", where);
            if (good) for (int i = 0; i < 3; ++i) R.check(std::fabs(pdiv[size_t(i)] / pcv - div[size_t(i)] / cv) < 1e-6 * (1 + asp), "parametric-points-volume", [&] { return h::vec(pdiv) + " of " + h::str(pcv) + " global " + h::vec(div) + " of " + h::str(cv) + where(); });
            // point and box queries of the domain
            for (int k = 0; k < 8; ++k) {
                const g::V p{ r.u(lo[0], up[0]), r.u(lo[1], up[1]), r.u(lo[2], up[2]) };
                if (g::dist(s.mesh, p) < 1e-6 * L) continue;
                const bool in = g::winding(s.mesh, p) > .5;
                const auto pp = queso::mapping::ToParametric(queso::PointType{ p[0], p[1], p[2] }, B);
                R.check(inside(q::vd(p)) == in, "is-inside", [&] { return h::vec(p) + " " + where(); });
                R.check(pinside(pp) == in, "is-inside-parametric", [&] { return h::vec(p) + " " + where(); });
                R.count("point queries");
            }
            for (int k = 0; k < 3; ++k) {// points in the planes of boundary triangles: no answer is wrong, but there is one
                const size_t t = size_t(r.i(0, int(s.mesh.t.size()) - 1));
                const g::V p = s.mesh.P(t, 0) + r.u(-1, 2) * (s.mesh.P(t, 1) - s.mesh.P(t, 0)) + r.u(-1, 2) * (s.mesh.P(t, 2) - s.mesh.P(t, 0));
                if (!g::in_box(p, lo, up, 0)) continue;
                const double ds = g::dist(s.mesh, p);
                const bool in = g::winding(s.mesh, p) > .5, got = inside(q::vd(p));
                R.count(ds < 1e-6 * L ? "points on the surface" : "points in a plane of the surface");
                if (ds > 1e-6 * L) R.check(got == in, "is-inside", [&] { return "in-plane point " + h::vec(p) + " " + where(); });
            }
            for (int k = 0; k < 4; ++k) {
                g::V x, y;
                for (size_t i = 0; i < 3; ++i) { const double f = std::pow(10., r.u(-2, 0)), c = r.u(f / 2, 1 - f / 2); x[i] = lo[i] + (c - f / 2) * d[i]; y[i] = lo[i] + (c + f / 2) * d[i]; }
                const g::V w = y - x;
                const double in = g::area_in_box(s.mesh, x + 1e-6 * w, y - 1e-6 * w), near = g::area_in_box(s.mesh, x - 1e-6 * w, y + 1e-6 * w);
                const bool cen = g::winding(s.mesh, .5 * (x + y)) > .5;
                const double wa = std::max({ w[0] * w[1], w[1] * w[2], w[0] * w[2] });
                if (near != 0.0 && !(in > 1e-9 * wa)) continue;
                const auto want = near == 0.0 ? (cen ? queso::IntersectionState::inside : queso::IntersectionState::outside) : queso::IntersectionState::trimmed;
                R.check(state(q::vd(x), q::vd(y)) == want, "box-state", [&] { return h::vec(x) + h::vec(y) + " is " + h::str(int(state(q::vd(x), q::vd(y)))) + " expected " + h::str(int(want)) + " " + where(); });
                const auto px = queso::mapping::ToParametric(queso::PointType{ x[0], x[1], x[2] }, B), py = queso::mapping::ToParametric(queso::PointType{ y[0], y[1], y[2] }, B);
                R.check(pstate(px, py) == want, "box-state-parametric", [&] { return h::vec(x) + h::vec(y) + " " + where(); });
                R.count("box queries");
            }
            if (!trimmed) for (int k = 0; k < 6; ++k) {// boxes and points around a full cell
                const bool par = k % 2;
                const auto& c = par ? B.parametric : B.global;
                queso::PointType x, y, p;
                bool out = false, in = true, pin = true;
                std::string how;
                for (size_t i = 0; i < 3; ++i) {
                    const double l = c.lower[i], u = c.upper[i], w = u - l, a = r.u(.05, .45), b = r.u(.55, .95);
                    int rel = r.p(.6) ? 7 : r.i(0, 8);
                    if (std::max(std::fabs(l), std::fabs(u)) > 500 && (rel == 1 || rel == 2)) rel = 0;// the shrink of 1e-12 is lost in rounding
                    if (w < 1e-9) rel = 7;
                    switch (rel) {
                        case 0: y[i] = l - a * w; x[i] = y[i] - b * w; out = true; break;
                        case 1: y[i] = l; x[i] = l - b * w; out = true; break;
                        case 2: x[i] = u; y[i] = u + b * w; out = true; break;
                        case 3: x[i] = u + a * w; y[i] = x[i] + b * w; out = true; break;
                        case 4: x[i] = l - a * w; y[i] = l + b * w; in = false; break;
                        case 5: x[i] = l + a * w; y[i] = u + b * w; in = false; break;
                        case 6: x[i] = l - a * w; y[i] = u + b * w; in = false; break;
                        case 7: x[i] = l + a * w; y[i] = l + b * w; break;
                        default: x[i] = l; y[i] = u; break;
                    }
                    how += char('0' + rel);
                    const int pr = r.p(.7) ? 1 : r.i(0, 2);
                    p[i] = pr == 0 ? l - a * w : pr == 1 ? l + b * w : u + a * w; if (pr != 1) pin = false;
                }
                const auto want = out ? queso::IntersectionState::outside : in ? queso::IntersectionState::inside : queso::IntersectionState::trimmed;
                const auto got = par ? pstate(x, y) : state(x, y);
                R.check(got == want, par ? "box-state-around-parametric" : "box-state-around", [&] { return h::v3(x[0], x[1], x[2]) + h::v3(y[0], y[1], y[2]) + " (" + how + ") is " + h::str(int(got)) + " expected " + h::str(int(want)) + " " + where(); });
                R.check((par ? pinside(p) : inside(p)) == pin, "is-inside-around", [&] { return h::v3(p[0], p[1], p[2]) + " " + where(); });
                R.count("box queries around full cells");
            }
        };
        using BIP = queso::BoundaryIntegrationPoint;
        int nt = 0;
        if (!via_model) {
            queso::BRepOperator brep(ptri->View());
            for (size_t id = 0; id < s.grid.size(); ++id) {
                auto [lo, up] = s.grid.cell(id);
                if (brep.GetIntersectionState(q::vd(lo), q::vd(up)) != queso::IntersectionState::trimmed) continue;
                auto dom = brep.pGetTrimmedDomain(q::vd(lo), q::vd(up), s.opt.min_ratio, min_tri, r.p(.5));
                const double f = g::fraction(s.mesh, lo, up);
                if (!dom) { R.count("cells without domain"); R.check(f < std::max(1.01 * s.opt.min_ratio + 1e-9, .3), "no-domain", [&] { return "fraction " + h::str(f) + " cell " + h::str(id) + " " + s.str(); });
                    if (f > 1.01 * s.opt.min_ratio + 1e-9) R.count("cells without domain above the ratio"); continue; }
                R.check(f > .99 * s.opt.min_ratio - 1e-9, "domain-below-ratio", [&] { return "fraction " + h::str(f) + " cell " + h::str(id) + " " + s.str(); });
                const auto B = q::bounds(s.grid, id);
                queso::TrimmedDomain moved(std::move(*dom));
                if (r.p(.5)) { queso::TrimmedDomain other(std::move(moved)); moved = std::move(other); }
                ++nt;
                examine(moved, q::from(moved.GetBoundaryMesh()), moved.GetBounds(B), moved.GetBounds<CoordinateSpace::parametric>(B),
                    moved.GetBoundaryIps<BIP>(B), moved.GetBoundaryIps<BIP, CoordinateSpace::parametric>(B), id, true,
                    [&](const queso::PointType& p) { const bool x = moved.IsInside(p); R.check(x == moved.IsInside<CoordinateSpace::global>(p, B), "is-inside-overloads", [&] { return s.str(); }); return x; },
                    [&](const queso::PointType& p) { return moved.IsInside<CoordinateSpace::parametric>(p, B); },
                    [&](const queso::PointType& x, const queso::PointType& y) { return moved.GetIntersectionState(x, y, B); },
                    [&](const queso::PointType& x, const queso::PointType& y) { return moved.GetIntersectionState<CoordinateSpace::parametric>(x, y, B); });
            }
        } else {
            auto model = q::model(s);
            model.CreateVolume(ptri->View());
            ptri.reset();// the model must not depend on its input any more
            auto each = [&](const auto& e, bool trimmed) {
                ++nt;
                examine(e, q::from(e.GetActiveDomainBoundaryMesh()), e.template GetActiveDomainBounds<CoordinateSpace::global>(), e.template GetActiveDomainBounds<CoordinateSpace::parametric>(),
                    e.GetActiveDomainBoundaryIps(), e.template GetActiveDomainBoundaryIps<BIP, CoordinateSpace::parametric>(), e.GetId() - 1, trimmed,
                    [&](const queso::PointType& p) { return e.IsInsideActiveDomain(p); },
                    [&](const queso::PointType& p) { return e.template IsInsideActiveDomain<CoordinateSpace::parametric>(p); },
                    [&](const queso::PointType& x, const queso::PointType& y) { return e.GetIntersectionState(x, y); },
                    [&](const queso::PointType& x, const queso::PointType& y) { return e.template GetIntersectionState<CoordinateSpace::parametric>(x, y); });
            };
            using BG = queso::BackgroundGrid<queso::IntegrationPoint, queso::BoundaryIntegrationPoint>;
            for (const auto& e : model.GetElements<BG::ElementFilter::trimmed>()) each(e, true);
            for (const auto& e : model.GetElements<BG::ElementFilter::untrimmed>()) each(e, false);
        }
        if (nt) R.nontrivial(r.next());
        R.sample(s.str() + " mintri " + h::str(min_tri) + (via_model ? " through the model" : ""));
    });
}
