// C17: condition segments partition the condition surface, each with its own cell.
#include "model.hpp"
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(r.p(.6) ? 1 : r.i(2, 6));
        q::Scene s = q::scene(r, int(a.num("maxn", 5)), 1, 1);
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        s.opt.min_tri = 1;
        auto tri = q::to(s.mesh);
        auto model = q::model(s);
        const bool late = false;// (a condition needs the volume first: the grid asserts that)
        if (!late) model.CreateVolume(tri.View());
        const int nc = r.i(1, 4);
        std::vector<g::Mesh> surf;
        std::vector<queso::Unique<q::Dict>> cs;
        std::vector<size_t> ids;
        std::vector<double> val;
        for (int c = 0; c < nc; ++c) {
            surf.push_back(q::surface(r, s));
            cs.push_back(queso::DictionaryFactory<queso::key::MainValuesTypeTag>::Create("ConditionSettings"));
            ids.push_back(size_t(r.i(0, 1000)));
            val.push_back(r.u(-5, 5));
            cs.back()->SetValue(queso::ConditionSettings::condition_id, queso::IndexType(ids.back()));
            cs.back()->SetValue(queso::ConditionSettings::input_filename, std::string("none.stl"));
            cs.back()->SetValue(queso::ConditionSettings::modulus, val.back());
            cs.back()->CheckRequired();
            const auto t = q::to(surf.back());
            model.CreateCondition(t.View(), *cs.back());
        }
        if (late) model.CreateVolume(tri.View());
        std::set<size_t> active;
        for (const auto& e : model.GetElementViews()) active.insert(e.GetId());
        const double L = g::norm(s.grid.up - s.grid.lo), S = L + g::norm(s.grid.lo) + g::norm(s.grid.up);
        R.check(model.GetConditions().size() == size_t(nc), "number-of-conditions", [&] { return h::str(model.GetConditions().size()) + " of " + h::str(nc); });
        size_t c = 0;
        bool nt = false;
        for (const auto& cond : model.GetConditions()) {
            const g::Mesh& m = surf[c];
            auto where = [&] { return "condition " + h::str(c) + " " + g::describe(m) + (late ? " before the volume; " : "; ") + s.str(); };
            R.check(cond.GetSettings().GetRequiredValue<queso::IndexType>(queso::ConditionSettings::condition_id) == ids[c], "settings-id", where);
            R.check(cond.GetSettings().IsSet(queso::ConditionSettings::modulus) && cond.GetSettings().TryGetValue<double>(queso::ConditionSettings::modulus)->get() == val[c], "settings-value", where);
            cond.GetInfo().CheckRequired();
            R.check(cond.GetInfo().GetRequiredValue<queso::IndexType>(queso::ConditionInfo::condition_id) == ids[c], "info-id", where);
            R.check(cond.NumberOfSegments() == cond.GetSegments().size(), "number-of-segments", where);
            g::Sum got;
            std::set<size_t> parents, cells;
            for (const auto& seg : cond.GetSegments()) {
                const auto sm = q::from(seg.GetTriangleMesh());
                R.check(!sm.t.empty(), "empty-segment", where);
                for (size_t k = 0; k < sm.t.size(); ++k) got.add(g::poly(sm, k), s.grid.lo);
                // cells that hold all of the segment
                std::vector<size_t> in;
                for (size_t id = 0; id < s.grid.size(); ++id) {
                    auto [lo, up] = s.grid.cell(id);
                    bool ok = true;
                    for (auto& p : sm.v) for (int i = 0; i < 3 && ok; ++i) ok = p[i] >= lo[i] - 1e-11 * S - 1e-12 && p[i] <= up[i] + 1e-11 * S + 1e-12;
                    if (ok) in.push_back(id);
                }
                R.check(!in.empty(), "segment-in-no-cell", [&] { auto [lo, up] = sm.box(); return "segment " + h::vec(lo) + " " + h::vec(up) + " of " + where(); });
                const bool has = seg.IsInActiveElement();
                R.check(has == seg.GetParentElement().has_value(), "parent-flag", where);
                R.count(has ? "segments with element" : "segments without element");
                nt |= has;
                if (has) {
                    const auto& e = *seg.GetParentElement();
                    const size_t id = e.GetId() - 1;
                    R.check(active.count(id + 1) == 1, "parent-not-active", where);
                    R.check(std::find(in.begin(), in.end(), id) != in.end(), "parent-of-another-cell", [&] { auto [lo, up] = sm.box(); return "segment " + h::vec(lo) + " " + h::vec(up) + " has element " + h::str(id + 1) + " of " + where(); });
                    R.check(parents.insert(id).second, "two-segments-in-a-cell", where);
                    // the element seen through the segment is the element of the model
                    const auto& b = e.GetCellBounds<queso::CoordinateSpace::global>();
                    auto [lo, up] = s.grid.cell(id);
                    R.check(std::fabs(b.lower[0] - lo[0]) + std::fabs(b.upper[2] - up[2]) < 1e-9 * S, "parent-bounds", where);
                } else if (!late && in.size() == 1) {
                    R.check(active.count(in[0] + 1) == 0, "parent-missing", [&] { auto [lo, up] = sm.box(); return "segment " + h::vec(lo) + " " + h::vec(up) + " of " + where(); });
                }
                if (late) R.check(!has, "parent-before-volume", where);
                if (in.size() == 1) R.check(cells.insert(in[0]).second, "two-segments-in-a-cell", where);
            }
            g::Sum want;
            const g::V e{ 1e-13 * S, 1e-13 * S, 1e-13 * S };
            for (size_t k = 0; k < m.t.size(); ++k) want.add(g::clipbox(g::poly(m, k), s.grid.lo - e, s.grid.up + e), s.grid.lo);
            R.check(std::fabs(got.a - want.a) <= 1e-8 * S * L && g::norm(got.n - want.n) <= 1e-8 * S * L && g::norm(got.c - want.c) <= 1e-8 * S * L * S, "surface-not-covered-once",
                [&] { return where() + ": segments " + got.str() + " surface in grid " + want.str(); });
            R.count("conditions " + m.name.substr(0, 5));
            R.count("segments", double(cond.NumberOfSegments()));
            ++c;
        }
        if (nt) R.nontrivial(r.next());
        R.sample(s.str());
    });
}
