// C03: classification of all cells against winding number / clipped surface area.
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        const int thr = r.p(.3) ? 1 : r.i(2, 9);
        omp_set_num_threads(thr);
        const int maxn = r.p(.5) ? 4 : r.p(.6) ? 7 : int(a.num("maxn", 12));
        q::Scene s = q::scene(r, maxn, 1, 1);
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        if (r.p(.3)) s.grid.n[size_t(r.i(0, 2))] = r.i(6, 16);// elongated partitions
        auto tri = q::to(s.mesh);
        auto set = q::settings(s.grid, s.opt);
        queso::BRepOperator brep(tri.View());
        const auto pst = brep.pGetElementClassifications(*set);
        if (!R.check(pst && pst->size() == s.grid.size(), "size", [&] { return s.str(); })) return;
        std::map<int, int> cnt;
        for (size_t id = 0; id < s.grid.size(); ++id) {
            auto [lo, up] = s.grid.cell(id);
            const g::V d = up - lo;
            const auto st = (*pst)[id];
            const int got = st == queso::IntersectionState::trimmed ? 2 : st == queso::IntersectionState::inside ? 1 : 0;
            ++cnt[got];
            auto shrink = [&](double e) { return std::pair<g::V, g::V>{ lo + e * d, up - e * d }; };
            auto [l1, u1] = shrink(1e-6);
            auto [l2, u2] = shrink(-1e-9);
            auto [l3, u3] = shrink(1e-10);
            const double cellarea = std::max({ d[0] * d[1], d[1] * d[2], d[0] * d[2] });
            const double a1 = g::area_in_box(s.mesh, l1, u1);
            const bool must = a1 > 1e-9 * cellarea;
            const bool never = g::area_in_box(s.mesh, l3, u3) == 0.0;
            const bool clear = g::area_in_box(s.mesh, l2, u2) == 0.0;
            const g::V c = .5 * (lo + up);
            const double w = g::winding(s.mesh, c);
            const char* nm[] = { "outside", "inside", "trimmed" };
            auto msg = [&] { return "cell " + std::to_string(id) + " classified " + nm[got] + ", winding number of its centre " + h::str(w) + ", surface area inside " + h::str(a1) + ", threads " + std::to_string(thr) + "; " + s.str(); };
            if (must) { R.count("cells cut"); R.check(got == 2, "cut-cell-not-trimmed", msg); }
            else if (never) {
                R.count(clear ? "cells clear of the surface" : "cells touched by the surface");
                R.check(got != 2, "uncut-cell-trimmed", msg);
                if (got != 2) R.check((w > .5) == (got == 1), got == 1 ? "outside-cell-inside" : "inside-cell-outside", msg);
            } else R.count("cells in doubt");
            const auto one = brep.GetIntersectionState(q::vd(lo), q::vd(up));
            if (must || never) R.check(one == st, "query-disagrees", [&] { return "single query says " + std::string(one == queso::IntersectionState::trimmed ? "trimmed" : one == queso::IntersectionState::inside ? "inside" : "outside") + ": " + msg(); });
        }
        R.count("cells", double(s.grid.size())); R.count("threads" + std::to_string(thr));
        if (cnt.size() > 1) R.nontrivial(h::mix(uint64_t(R.cur), a.seed));
        R.sample(s.str() + " threads=" + std::to_string(thr) + " in/out/trim=" + std::to_string(cnt[1]) + "/" + std::to_string(cnt[0]) + "/" + std::to_string(cnt[2]));
    });
}
