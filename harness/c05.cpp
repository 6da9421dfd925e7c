// C05: results do not depend on the number of threads or the schedule.
// --opt shim=1: on the seeded OpenMP runtime of gomp_shim.cpp (serialised schedules); otherwise the real runtime.
#include <numeric>
#include <thread>
#include "model.hpp"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
extern "C" void shim_config(int mode, uint64_t seed, int preempt) __attribute__((weak));
extern "C" uint64_t shim_stat(int k) __attribute__((weak));
namespace {
struct El { bool trimmed; std::vector<q::Pt> p; double area = 0; size_t tris = 0; };
struct Seg { g::Sum s; long parent; size_t tris; };
struct Digest {
    std::map<size_t, El> el;
    std::vector<size_t> order;
    std::vector<std::vector<Seg>> cond;
    std::vector<double> num;
    std::vector<long> ints;
};
Digest build(const q::Scene& s, const TriangleMesh& tri, const std::vector<g::Mesh>& surf, bool meshes) {
    Digest d;
    auto model = q::model(s);
    model.CreateVolume(tri.View());
    std::vector<Unique<q::Dict>> cs;
    for (auto& m : surf) {
        cs.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
        cs.back()->SetValue(ConditionSettings::condition_id, IndexType(cs.size()));
        cs.back()->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
        cs.back()->CheckRequired();
        const auto t = q::to(m);
        model.CreateCondition(t.View(), *cs.back());
    }
    for (const auto& e : model.GetElementViews()) { El x; x.trimmed = e.IsTrimmed(); x.p = q::param_points(e); d.el.emplace(e.GetId(), std::move(x)); d.order.push_back(e.GetId()); }
    if (meshes) {
        using BG = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
        for (const auto& e : model.GetElements<BG::ElementFilter::trimmed>()) { const auto m = q::from(e.GetActiveDomainBoundaryMesh()); d.el[e.GetId()].area = m.area(); d.el[e.GetId()].tris = m.t.size(); }
    }
    for (const auto& c : model.GetConditions()) {
        d.cond.emplace_back();
        for (const auto& x : c.GetSegments()) {
            Seg g; const auto m = q::from(x.GetTriangleMesh());
            for (size_t k = 0; k < m.t.size(); ++k) g.s.add(g::poly(m, k), s.grid.lo);
            g.tris = m.t.size(); g.parent = x.IsInActiveElement() ? long(x.GetParentElement()->GetId()) : -1;
            d.cond.back().push_back(g);
        }
        std::sort(d.cond.back().begin(), d.cond.back().end(), [](const Seg& a, const Seg& b) { return std::tie(a.parent, a.tris, a.s.a, a.s.c) < std::tie(b.parent, b.tris, b.s.a, b.s.c); });
    }
    const auto& i = model.GetModelInfo();
    const auto &g = i[MainInfo::embedded_geometry_info], &b = i[MainInfo::background_grid_info], &qi = i[MainInfo::quadrature_info];
    g.CheckRequired(); b.CheckRequired(); qi.CheckRequired();
    d.num = { g.GetRequiredValue<double>(EmbeddedGeometryInfo::volume), qi.GetRequiredValue<double>(QuadratureInfo::represented_volume), qi.GetRequiredValue<double>(QuadratureInfo::percentage_of_geometry_volume),
              qi.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_full_element), qi.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_trimmed_element) };
    for (const auto& c : i.GetList(MainInfo::conditions_infos_list)) { c->CheckRequired(); d.num.push_back(c->GetRequiredValue<double>(ConditionInfo::surf_area)); d.num.push_back(c->GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain)); d.ints.push_back(long(c->GetRequiredValue<IndexType>(ConditionInfo::condition_id))); }
    d.ints.push_back(long(b.GetRequiredValue<IndexType>(BackgroundGridInfo::num_active_elements))); d.ints.push_back(long(b.GetRequiredValue<IndexType>(BackgroundGridInfo::num_trimmed_elements)));
    d.ints.push_back(long(b.GetRequiredValue<IndexType>(BackgroundGridInfo::num_inactive_elements))); d.ints.push_back(long(qi.GetRequiredValue<IndexType>(QuadratureInfo::tot_num_points)));
    d.ints.push_back(g.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed));
    return d;
}
void compare(const Digest& a, const Digest& b, const q::Scene& s, h::Report& R, const std::function<std::string()>& where) {
    std::vector<size_t> ka, kb;
    for (auto& [k, v] : a.el) ka.push_back(k);
    for (auto& [k, v] : b.el) kb.push_back(k);
    if (!R.check(ka == kb, "active-cells", [&] { return h::vec(ka) + " is " + h::vec(kb) + " with " + where(); })) return;
    R.check(b.order.size() == kb.size(), "element-listed-twice", where);
    for (auto& [id, e] : a.el) {
        const El& o = b.el.at(id);
        R.check(e.trimmed == o.trimmed, "kind", where);
        if (!R.check(e.p.size() == o.p.size(), "number-of-points", [&] { return "cell " + h::str(id) + ": " + h::str(e.p.size()) + " is " + h::str(o.p.size()) + " with " + where(); })) continue;
        double dx = 0, dw = 0, w = 0;
        for (size_t k = 0; k < e.p.size(); ++k) { for (size_t i = 0; i < 3; ++i) dx = std::max(dx, std::fabs(e.p[k].x[i] - o.p[k].x[i]) / (1e-3 + g::norm(s.grid.uup - s.grid.ulo))); dw = std::max(dw, std::fabs(e.p[k].w - o.p[k].w)); w = std::max(w, e.p[k].w); }
        R.maxi("point difference", dx); R.maxi("weight difference", dw / std::max(w, 1e-300));
        R.check(dx <= 1e-9 && dw <= 1e-7 * w, "points", [&] { return "cell " + h::str(id) + " points differ by " + h::str(dx) + ", weights by " + h::str(dw / w) + " with " + where(); });
        R.check(e.tris == o.tris && std::fabs(e.area - o.area) <= 1e-10 * e.area, "boundary-mesh", [&] { return "cell " + h::str(id) + " " + where(); });
        R.count("elements compared");
    }
    R.check(a.cond.size() == b.cond.size(), "conditions", where);
    const double L = g::norm(s.grid.up - s.grid.lo);
    for (size_t c = 0; c < std::min(a.cond.size(), b.cond.size()); ++c) {
        if (!R.check(a.cond[c].size() == b.cond[c].size(), "number-of-segments", [&] { return "condition " + h::str(c) + ": " + h::str(a.cond[c].size()) + " is " + h::str(b.cond[c].size()) + " with " + where(); })) continue;
        for (size_t k = 0; k < a.cond[c].size(); ++k) {
            const Seg &x = a.cond[c][k], &y = b.cond[c][k];
            R.check(x.parent == y.parent && x.tris == y.tris && std::fabs(x.s.a - y.s.a) <= 1e-10 * L * L && g::norm(x.s.n - y.s.n) <= 1e-10 * L * L && g::norm(x.s.c - y.s.c) <= 1e-10 * L * L * L, "segment",
                [&] { return "condition " + h::str(c) + " parent " + h::str(x.parent) + " is " + h::str(y.parent) + ": " + x.s.str() + " is " + y.s.str() + " with " + where(); });
            R.count("segments compared");
        }
    }
    R.check(a.ints == b.ints, "model-info-counts", [&] { return h::vec(a.ints) + " is " + h::vec(b.ints) + " with " + where(); });
    R.check(a.num.size() == b.num.size(), "model-info-values", where);
    for (size_t k = 0; k < std::min(a.num.size(), b.num.size()); ++k)
        R.check(std::fabs(a.num[k] - b.num[k]) <= 1e-9 * std::fabs(a.num[k]) + 1e-12, "model-info-values", [&] { return h::vec(a.num) + " is " + h::vec(b.num) + " with " + where(); });
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        const bool shim = a.num("shim", 0) != 0;
        q::Scene s = q::scene(r, int(a.num("maxn", 5)), r.p(.7) ? 1 : 2, 1, -1, r.p(.2));
        if (r.p(.4)) { const size_t k = size_t(r.i(0, 2)); s.grid.n[k] = r.i(6, 14); for (size_t i = 0; i < 3; ++i) if (i != k) s.grid.n[i] = std::min(s.grid.n[i], 3); }// long grids: many partitions
        s.opt.min_tri = r.p(.7) ? 1 : 100;
        const auto tri = q::to(s.mesh);
        std::vector<g::Mesh> surf;
        for (int c = r.i(0, 2); c > 0; --c) surf.push_back(q::surface(r, s));
        omp_set_num_threads(1);
        if (shim) shim_config(1, 1, 0);
        const bool meshes = r.p(.3);
        const Digest ref = build(s, tri, surf, meshes);
        if (!ref.el.empty()) R.nontrivial(r.next());
        const int runs = shim ? int(a.num("runs", 4)) : int(a.num("runs", 3));
        for (int k = 0; k < runs; ++k) {
            const int n = r.p(.1) ? r.i(9, 24) : r.i(2, 8);
            const uint64_t seed = r.next() % 1000000;
            const int preempt = r.p(.3) ? 0 : r.p(.5) ? 20000 : r.p(.6) ? 2000 : 300;
            omp_set_num_threads(n);
            if (shim) shim_config(1, seed, preempt);
            auto where = [&] { return h::str(n) + " threads, schedule seed " + h::str(seed) + " preemption " + h::str(preempt) + "; " + s.str() + " conditions " + h::str(surf.size()); };
            if (!shim && r.p(.1)) {// called from within a parallel region of the host application: nested regions have one thread
                Digest d;
#pragma omp parallel num_threads(2)
                {
#pragma omp single
                    d = build(s, tri, surf, meshes);
                }
                compare(ref, d, s, R, where);
                R.count("nested builds");
            } else compare(ref, build(s, tri, surf, meshes), s, R, where);
            const double A = MeshUtilities::AreaOMP(tri.View()), V = MeshUtilities::VolumeOMP(tri.View()), A1 = s.mesh.area(), V1 = s.mesh.volume();
            auto [blo, bup] = s.mesh.box();
            const double L = g::norm(bup - blo) + g::norm(blo);
            R.check(std::fabs(A - A1) <= 1e-10 * A1 && std::fabs(V - V1) <= 1e-11 * L * L * L, "parallel-reduction", [&] { return h::str(A) + " is " + h::str(A1) + ", " + h::str(V) + " is " + h::str(V1) + " with " + where(); });
            R.count("builds");
        }
        if (shim) {
            static uint64_t last[8];
            const char* name[8] = { "parallel regions", "teams", "chunks", "critical sections", "context switches", "preemptions", "delays", "distinct schedules" };
            for (int k = 0; k < 8; ++k) { const uint64_t v = shim_stat(k); R.count(name[k], double(v - last[k])); last[k] = v; }
        }
        R.sample(s.str());
    });
}
