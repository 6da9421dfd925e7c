// C01: cell quadrature vs exact moments of body-in-cell (vertical-prism oracle).
#include "model.hpp"
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(r.p(.7) ? 1 : r.i(2, 5));
        const int maxn = int(a.num("maxn", 5)), maxp = int(a.num("maxp", 3));
        q::Scene s = q::scene(r, maxn, r.p(.7) ? 2 : maxp, 1);
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        s.opt.method = queso::IntegrationMethod::gauss;// reduced rules are exact only to a lower degree (C08)
        auto tri = q::to(s.mesh);
        auto model = q::model(s);
        model.CreateVolume(tri.View());
        std::map<size_t, q::View> act;
        for (const auto& e : model.GetElementViews()) act.emplace(e.GetId() - 1, e);
        int ntrim = 0, nfull = 0, nempty = 0;
        for (size_t id = 0; id < s.grid.size(); ++id) {
            auto [lo, up] = s.grid.cell(id);
            const auto M = g::moments(s.mesh, lo, up, s.opt.p);
            const double f = M.m[0];
            auto it = act.find(id);
            if (it == act.end()) {
                ++nempty;
                R.maxi("dropped fraction/(minratio+1e-3)", f / (s.opt.min_ratio + 1e-3));
                if (f > 1.01 * s.opt.min_ratio + 1e-9) {
                    R.count("dropped cells above the ratio");
                    if (a.num("debug", 0)) std::fprintf(stderr, "case %ld drop f=%g %s\n", R.cur, f, s.str().c_str());
                }
                // A cell above the ratio may only be given up when no admissible rule was found (rare: bounded in checks.py).
                R.check(f < std::max(2 * s.opt.min_ratio, .3), "dropped-cell", [&] {
                    return "cell " + std::to_string(id) + " holds fraction " + h::str(f) + " of its volume but is not active; " + s.str(); });
                continue;
            }
            const auto& e = it->second;
            const auto pts = q::global_points(e);
            R.check(f > -1e-9 && f > s.opt.min_ratio * 0.99 - 1e-9, "empty-active-cell", [&] {
                return "cell " + std::to_string(id) + " is active but holds fraction " + h::str(f) + "; " + s.str(); });
            const auto Q = q::point_moments(pts, lo, up, s.opt.p);
            const double d = q::reldiff(Q, M);
            if (!e.IsTrimmed()) {
                ++nfull;
                R.check(std::fabs(f - 1) < 1e-9, "full-cell-not-full", [&] { return "cell " + std::to_string(id) + " untrimmed but fraction " + h::str(f) + "; " + s.str(); });
                R.check(d < 1e-10, "full-cell-moments", [&] { return "cell " + std::to_string(id) + " relative moment error " + h::str(d) + "; " + s.str(); });
            } else {
                ++ntrim;
                const double dv = std::fabs(Q.m[0] - f) / f;
                R.maxi("trimmed moment error", d);
                R.maxi("trimmed volume error", dv);
                R.count("trimmed cells");
                const double res = s.opt.residual;
                for (double L : { 1e-9, 1e-7, 1e-6, 1e-5, 1e-4 }) {
                    if (d > std::max(L, 3 * res)) R.count("trimmed cells with moment error above " + h::str(L));
                    if (dv > std::max(L, 3 * res)) R.count("trimmed cells with volume error above " + h::str(L));
                }
                // 1e-2 is the largest residual the library accepts; beyond it the cell must have been given up.
                R.check(d < 1.2e-2, "trimmed-moments", [&] { return "cell " + std::to_string(id) + " relative moment error " + h::str(d) + " volume error " + h::str(dv)
                    + " fraction " + h::str(f) + " points " + std::to_string(pts.size()) + "; " + s.str(); });
                if (a.num("debug", 0) && d > 1e-4) std::fprintf(stderr, "case %ld cell %zu d=%g dv=%g f=%g npts=%zu %s\n", R.cur, id, d, dv, f, pts.size(), s.str().c_str());
            }
        }
        // every active element is a cell of the grid
        for (auto& [id, e] : act) R.check(id < s.grid.size(), "foreign-cell", [&] { return "element " + std::to_string(id + 1) + " is no cell; " + s.str(); });
        if (ntrim + nfull > 0) R.nontrivial(h::mix(uint64_t(R.cur), a.seed));
        R.count("full cells", nfull); R.count("cells", double(s.grid.size())); R.count("inactive cells", nempty);
        R.sample(s.str() + " -> trimmed " + std::to_string(ntrim) + " full " + std::to_string(nfull));
    });
}
