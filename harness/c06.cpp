// C06: no data races while models are built or one finished operator, view or model is queried by several threads.
// Runs in the ThreadSanitizer build on the OpenMP runtime of gomp_shim.cpp (free-running threads, seeded delays).
#include <atomic>
#include <barrier>
#include <thread>
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
extern "C" void shim_config(int mode, uint64_t seed, int preempt) __attribute__((weak));
extern "C" uint64_t shim_stat(int k) __attribute__((weak));
using BG = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
namespace {
struct Build { size_t active = 0, points = 0, segments = 0; };
Build build(const q::Scene& s, const TriangleMesh& tri, const std::vector<g::Mesh>& surf, EmbeddedModel* keep = nullptr, std::vector<Unique<q::Dict>>* keepcs = nullptr) {
    auto model = q::model(s);
    model.CreateVolume(tri.View());
    std::vector<Unique<q::Dict>> own;
    auto& cs = keepcs ? *keepcs : own;
    for (auto& m : surf) {
        cs.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
        cs.back()->SetValue(ConditionSettings::condition_id, IndexType(cs.size()));
        cs.back()->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
        cs.back()->CheckRequired();
        const auto t = q::to(m);
        model.CreateCondition(t.View(), *cs.back());
    }
    Build b;
    for (const auto& e : model.GetElementViews()) { ++b.active; b.points += q::param_points(e).size(); }
    for (const auto& c : model.GetConditions()) b.segments += c.NumberOfSegments();
    if (keep) *keep = std::move(model);
    return b;
}
template<class F> void together(int n, F&& f) {
    std::barrier gate(n);
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) th.emplace_back([&, t] { gate.arrive_and_wait(); f(t); });
    for (auto& x : th) x.join();
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        q::Scene s = q::scene(r, int(a.num("maxn", 4)), 1, 1, -1, r.p(.2));
        if (r.p(.4)) { const size_t k = size_t(r.i(0, 2)); s.grid.n[k] = r.i(5, 10); for (size_t i = 0; i < 3; ++i) if (i != k) s.grid.n[i] = std::min(s.grid.n[i], 2); }
        s.opt.min_tri = r.p(.7) ? 1 : 60;
        const auto tri = q::to(s.mesh);
        std::vector<g::Mesh> surf;
        for (int c = r.i(0, 2); c > 0; --c) surf.push_back(q::surface(r, s));
        omp_set_num_threads(r.i(2, 8));
        if (shim_config) shim_config(0, r.next() % 1000000, 0);
        auto model = q::model(s);
        std::vector<Unique<q::Dict>> cs;
        const Build b = build(s, tri, surf, &model, &cs);
        if (b.active) R.nontrivial(r.next());
        R.count("builds"); R.count("active cells", double(b.active)); R.count("segments", double(b.segments));
        // parallel reductions and box queries on a mesh
        R.check(MeshUtilities::AreaOMP(tri.View()) > 0 && MeshUtilities::VolumeOMP(tri.View()) > 0, "reductions", [&] { return s.str(); });
        const int n = r.i(2, 4);
        std::atomic<size_t> done{ 0 }, wrong{ 0 };
        // one operator, several threads
        {
            const BRepOperator op(tri.View());
            std::vector<uint64_t> seeds;
            for (int t = 0; t < n; ++t) seeds.push_back(r.next());
            together(n, [&](int t) {
                h::Rng q(seeds[size_t(t)]);
                for (int k = 0; k < 12; ++k) {
                    const auto id = size_t(q.i(0, int(s.grid.size()) - 1));
                    auto [lo, up] = s.grid.cell(id);
                    const PointType l = q::vd(lo), u = q::vd(up);
                    switch (q.i(0, 5)) {
                    case 0: { const g::V p{ q.u(lo[0], up[0]), q.u(lo[1], up[1]), q.u(lo[2], up[2]) }; if (g::dist(s.mesh, p) > 1e-6 * g::norm(up - lo) && op.IsInside(q::vd(p)) != (g::winding(s.mesh, p) > .5)) ++wrong; break; }
                    case 1: op.IsTrimmed(l, u); break;
                    case 2: op.GetIntersectionState(l, u); break;
                    case 3: op.ClipTriangleMesh(l, u); break;
                    case 4: op.ClipTriangleMeshUnique(l, u); break;
                    default: if (op.GetIntersectionState(l, u) == IntersectionState::trimmed) { auto d = op.pGetTrimmedDomain(l, u, 0.0, 10, true); if (d) d->GetBoundaryMesh().NumOfTriangles(); }
                    }
                    ++done;
                }
            });
            R.count("concurrent operator queries", double(done)); done = 0;
        }
        // one mesh view, several threads
        {
            const TriangleMeshView v = tri.View();
            const double A = MeshUtilities::Area(v);
            together(n, [&](int t) {
                for (int k = 0; k < 3; ++k) {
                    double sum = 0;
                    if ((t + k) % 2) { for (IndexType i = 0; i < v.NumOfTriangles(); ++i) { const auto x = v.Triangle<WithNormals>(i); sum += TriangleUtilities::Area(x); } }
                    else sum = MeshUtilities::Area(v);
                    if (std::fabs(sum - A) > 1e-9 * A) ++wrong;
                    MeshUtilities::Volume(v); MeshUtilities::EstimateQuality(v); MeshUtilities::BoundingBox(v);
                    ++done;
                }
            });
            R.count("concurrent view queries", double(done)); done = 0;
        }
        // one finished model, several threads
        together(n, [&](int t) {
            h::Rng q(h::mix(a.seed, uint64_t(t)));
            auto visit = [&](const auto& e) {
                const auto m = e.GetActiveDomainBoundaryMesh();
                double ar = 0;
                m.template VisitEachTriangle<WithNormals>([&](const auto& x) { ar += TriangleUtilities::Area(x); });
                if (!(ar > 0)) ++wrong;
                e.GetActiveDomainBoundaryIps();
                const auto& bb = e.template GetCellBounds<CoordinateSpace::global>();
                const PointType p{ q.u(bb.lower[0], bb.upper[0]), q.u(bb.lower[1], bb.upper[1]), q.u(bb.lower[2], bb.upper[2]) };
                e.IsInsideActiveDomain(p);
                e.GetIntersectionState(bb.lower, p);
                e.template GetActiveDomainBounds<CoordinateSpace::parametric>();
                ++done;
            };
            size_t k = 0;
            for (const auto& e : model.GetElements<BG::ElementFilter::trimmed>()) if (++k <= 6) visit(e);
            k = 0;
            for (const auto& e : model.GetElements<BG::ElementFilter::untrimmed>()) if (++k <= 6) visit(e);
            double w = 0;
            for (const auto& e : model.GetElementViews()) for (const auto& p : e.template GetIntegrationPoints<CoordinateSpace::global>()) w += p.Weight();
            for (const auto& c : model.GetConditions()) for (const auto& sg : c.GetSegments()) { if (sg.GetTriangleMesh().NumOfTriangles() == 0) ++wrong; if (sg.IsInActiveElement() && sg.GetParentElement()->GetId() == 0) ++wrong; }
        });
        R.count("concurrent element queries", double(done)); done = 0;
        // independent models at the same time
        if (r.p(.35)) {
            q::Scene s2 = q::scene(r, 3, 1, 1, -1, r.p(.2));
            s2.opt.min_tri = 1;
            const auto tri2 = q::to(s2.mesh);
            Build b1, b2;
            together(2, [&](int t) { if (t) b2 = build(s2, tri2, {}); else b1 = build(s, tri, surf); });
            R.check(b1.active == b.active && b1.points == b.points && b1.segments == b.segments, "concurrent-models", [&] { return s.str(); });
            R.count("concurrent models");
        }
        R.check(wrong == 0, "concurrent-query-result", [&] { return h::str(wrong.load()) + " wrong results " + s.str(); });
        if (shim_stat) {
            static uint64_t last[8];
            const char* name[8] = { "parallel regions", "teams", "chunks", "critical sections", "", "", "delays", "" };
            for (int k = 0; k < 8; ++k) if (*name[k]) { const uint64_t v = shim_stat(k); R.count(name[k], double(v - last[k])); last[k] = v; }
        }
        R.sample(s.str() + " conditions " + h::str(surf.size()));
    });
}
