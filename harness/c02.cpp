// C02: admissible integration points, for every element of finished models (all integration methods, with and without alpha).
#include "model.hpp"
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(r.p(.7) ? 1 : r.i(2, 5));
        const bool ggq = r.p(.3);
        q::Scene s = q::scene(r, int(a.num("maxn", 5)), ggq ? 4 : r.p(.7) ? 2 : 3, 1, -1, ggq);
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        if (r.p(.25)) s.opt.alpha = r.p(.3) ? 1e-5 : r.p(.1) ? 1.0 : r.u(1e-6, 1);
        auto tri = q::to(s.mesh);
        auto model = q::model(s);
        model.CreateVolume(tri.View());
        auto [blo, bup] = s.mesh.box();
        const double near = 1e-7 * g::norm(bup - blo) + 1.5e-8;// bounds of cells with flawed surfaces are perturbed by up to 1e-9 several times
        size_t seen = 0;
        for (const auto& e : model.GetElementViews()) {
            const size_t id = e.GetId() - 1;
            if (!R.check(e.GetId() >= 1 && id < s.grid.size(), "foreign-cell", [&] { return "element " + std::to_string(e.GetId()); })) continue;
            auto [lo, up] = s.grid.cell(id);
            const auto B = q::bounds(s.grid, id);
            const g::V pl = q::gv(B.parametric.lower), pu = q::gv(B.parametric.upper);
            const g::V d = up - lo, dp = pu - pl;
            const double J = d[0] / dp[0] * (d[1] / dp[1]) * (d[2] / dp[2]);
            auto where = [&] { return " element " + std::to_string(e.GetId()) + (e.IsTrimmed() ? " (trimmed)" : " (full)") + "; alpha=" + h::str(s.opt.alpha) + " " + s.str(); };
            R.check(std::fabs(e.DetJ() - J) <= 1e-9 * J, "detj", [&] { return "Jacobian " + h::str(e.DetJ()) + " expected " + h::str(J) + where(); });
            {   // reported bounds are those of the cell, in both spaces
                const auto& bg = e.GetCellBounds<queso::CoordinateSpace::global>();
                const auto& bp = e.GetCellBounds<queso::CoordinateSpace::parametric>();
                bool ok = true;
                const double cs = std::max(g::norm(lo), g::norm(up));
                for (int i = 0; i < 3; ++i) ok = ok && std::fabs(bg.lower[i] - lo[i]) < 1e-12 * cs + 1e-10 * d[i] && std::fabs(bg.upper[i] - up[i]) < 1e-12 * cs + 1e-10 * d[i]
                    && std::fabs(bp.lower[i] - pl[i]) < 1e-9 * dp[i] && std::fabs(bp.upper[i] - pu[i]) < 1e-9 * dp[i];
                R.check(ok, "cell-bounds", [&] { return "bounds are not those of the cell:" + where(); });
            }
            const auto P = q::param_points(e), G = q::global_points(e);
            // GGQ: an element of a run may legitimately carry no point of its own, others may not
            R.check(!P.empty() || (ggq && !e.IsTrimmed()), "no-points", [&] { return "active element without points:" + where(); });
            R.check(P.size() == G.size(), "spaces-differ", [&] { return "numbers of points differ between spaces:" + where(); });
            size_t gauss_out = 0, gauss_found = 0;
            for (size_t k = 0; k < P.size() && k < G.size(); ++k) {
                ++seen;
                const auto& p = P[k];
                auto pt = [&] { return "point " + std::to_string(k) + " " + h::vec(p.x) + " weight " + h::str(p.w) + " global " + h::vec(G[k].x) + where(); };
                bool fin = std::isfinite(p.w) && std::isfinite(G[k].w);
                for (int i = 0; i < 3; ++i) fin = fin && std::isfinite(p.x[i]) && std::isfinite(G[k].x[i]);
                if (!R.check(fin, "not-finite", pt)) continue;
                R.check(p.w > 0 && G[k].w > 0, "weight-sign", pt);
                R.check(g::in_box(p.x, pl, pu, 1e-8), "outside-cell-parametric", pt);
                R.check(g::in_box(G[k].x, lo, up, 1e-8), "outside-cell-global", pt);
                bool cons = std::fabs(G[k].w - p.w * J) <= 1e-9 * std::fabs(p.w * J);
                for (int i = 0; i < 3; ++i) cons = cons && std::fabs((G[k].x[i] - lo[i]) / d[i] - (p.x[i] - pl[i]) / dp[i]) < 1e-7;
                R.check(cons, "map", pt);
                // inside the body, unless it belongs to the fictitious part (Gauss point of the cell with weight alpha * Gauss weight)
                if (s.opt.alpha < 0 || !e.IsTrimmed()) {
                    if (g::winding(s.mesh, G[k].x) < .5)
                        R.check(g::dist(s.mesh, G[k].x) < near, "outside-body", [&] { return "distance " + h::str(g::dist(s.mesh, G[k].x)) + " " + pt(); });
                    else ++R.evals;
                }
            }
            if (s.opt.alpha >= 0 && e.IsTrimmed()) {
                // every point outside is one of the cell's Gauss points outside, weighted by alpha, and each occurs exactly once
                std::vector<q::Pt> exp;
                const auto &g1 = g::gauss(s.opt.p[0] + 1), &g2 = g::gauss(s.opt.p[1] + 1), &g3 = g::gauss(s.opt.p[2] + 1);
                bool doubtful = false;
                for (auto& x : g1) for (auto& y : g2) for (auto& z : g3) {
                    const g::V X{ lo[0] + d[0] * x[0], lo[1] + d[1] * y[0], lo[2] + d[2] * z[0] };
                    if (g::dist(s.mesh, X) < near) { doubtful = true; continue; }
                    if (g::winding(s.mesh, X) < .5) exp.push_back({ X, s.opt.alpha * x[1] * y[1] * z[1] * d[0] * d[1] * d[2] });
                }
                gauss_out = exp.size();
                size_t outside = 0;
                for (auto& p : G) {
                    if (g::dist(s.mesh, p.x) < near || g::winding(s.mesh, p.x) > .5) continue;
                    ++outside;
                    for (auto& x : exp) if (g::norm(x.x - p.x) < 1e-9 * g::norm(d) && std::fabs(x.w - p.w) <= 1e-9 * x.w) { ++gauss_found; break; }
                }
                R.check(gauss_found == outside, "fictitious-foreign", [&] { return std::to_string(outside) + " points outside the body, only " + std::to_string(gauss_found) + " are alpha-weighted Gauss points:" + where(); });
                if (!doubtful) R.check(outside == gauss_out, "fictitious-missing", [&] { return std::to_string(outside) + " fictitious points, expected " + std::to_string(gauss_out) + where(); });
                R.count("fictitious points", double(outside));
            }
            R.count(e.IsTrimmed() ? "trimmed elements" : "full elements");
        }
        R.count("points", double(seen));
        if (ggq) R.count("ggq models");
        if (seen) R.nontrivial(h::mix(uint64_t(R.cur), a.seed));
        R.sample(s.str() + " points=" + std::to_string(seen));
    });
}
