// C07: unusual but valid inputs; the sanitizers and valgrind are the oracle.
#include <filesystem>
#include "model.hpp"
#include "writer.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/io/io_utilities.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
namespace {
volatile double sink = 0;
void use(double x) { sink = sink + x; }
g::Mesh odd(h::Rng& r, std::string& what) {
    g::Mesh m; auto v = [&] { return g::V{ r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) }; };
    switch (r.p(.04) ? 9 : r.i(0, 8)) {
    case 0: what = "empty"; break;
    case 1: what = "one triangle"; m.add(v()); m.add(v()); m.add(v()); m.tri(0, 1, 2); break;
    case 2: what = "degenerate triangles"; for (int i = r.i(1, 6); i > 0; --i) { const g::V a = v(), b = r.p(.5) ? a : v(); const size_t x = m.add(a), y = m.add(b), z = m.add(r.p(.5) ? a : .3 * a + .7 * b); m.tri(x, y, z); } break;
    case 3: what = "body with degenerate triangles"; m = g::body(r, 1); for (int i = r.i(1, 8); i > 0; --i) { const size_t a = size_t(r.i(0, int(m.v.size()) - 1)), b = size_t(r.i(0, int(m.v.size()) - 1)); m.tri(a, b, r.p(.5) ? a : b); } break;
    case 4: what = "open body"; m = g::body(r, 1); for (int i = r.i(1, 4); i > 0 && m.t.size() > 1; --i) m.t.erase(m.t.begin() + r.i(0, int(m.t.size()) - 1)); break;
    case 5: what = "soup"; for (int i = r.i(1, 40); i > 0; --i) { const size_t a = m.add(v()), b = m.add(v()), c = m.add(v()); m.tri(a, b, c); } break;
    case 6: what = "inverted body"; m = g::body(r, 1); m.flip(); break;
    case 7: what = "doubled body"; { m = g::body(r, 1); const auto t = m.t; m.t.insert(m.t.end(), t.begin(), t.end()); } break;
    case 9: { what = "thin body"; const double t = std::pow(10.0, r.u(-7, -4)), a = r.u(.5, .8), b = r.u(.5, .8); m = g::box({ -.5, -.5, 0 }, { .5, .5, t }); for (auto& p : m.v) { p = { p[0] * std::cos(a) - p[2] * std::sin(a), p[1], p[0] * std::sin(a) + p[2] * std::cos(a) }; p = { p[0], p[1] * std::cos(b) - p[2] * std::sin(b), p[1] * std::sin(b) + p[2] * std::cos(b) }; } break; }
    default: what = "body"; m = g::body(r, 2);
    }
    return m;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        const bool slow = a.num("slow", 0);// valgrind
        omp_set_num_threads(slow ? 1 : r.i(1, 3));
        std::string what;
        q::Scene s = q::scene(r, slow ? 2 : 4, slow ? 1 : 2, 1, -1, r.p(.25));
        s.mesh = odd(r, what);
        while (slow && what == "thin body") s.mesh = odd(r, what);
        const double sc = std::pow(10.0, r.u(-3, 2));
        for (auto& p : s.mesh.v) p = sc * p;
        const int place = r.i(0, 4);
        for (size_t i = 0; i < 3; ++i) {// grid around the body, inside it, far away, very long, aligned
            const double c = sc * r.u(-.5, .5), w = sc * (place == 0 ? 1.5 : place == 1 ? .1 : place == 2 ? r.u(.2, 2) : place == 3 ? std::pow(10.0, r.u(-1, 1)) : 1);
            s.grid.lo[i] = place == 2 ? 10 * sc : c - w; s.grid.up[i] = place == 2 ? 10 * sc + w : c + w;
            if (place == 4) { s.grid.lo[i] = -sc; s.grid.up[i] = sc; }
            if (r.p(.3)) s.grid.n[i] = r.i(1, slow ? 2 : 6);
        }
        if (!slow && r.p(.1)) s.opt.residual = 1e-300;
        s.opt.neglect = r.p(.5);
        if (r.p(.3)) s.opt.alpha = r.p(.3) ? 0 : r.p(.5) ? 1e-3 : 1;
        if (what == "thin body") s.opt.min_ratio = 0; else if (r.p(.2)) s.opt.min_ratio = r.p(.5) ? 0 : 1;
        if (r.p(.2)) s.opt.min_tri = r.p(.5) ? 0 : slow ? 100 : 3000;
        if (what == "thin body") { s.opt.min_tri = r.i(0, 40); s.grid.n = { 1, 1, 1 }; for (auto& x : s.opt.p) x = 2; s.opt.residual = 1e-6; s.grid.lo = { -1.1 * sc, -1.1 * sc, -1.1 * sc }, s.grid.up = { 1.1 * sc, 1.1 * sc, 1.1 * sc }; }// expensive
        if (!slow && r.p(.1)) { for (auto& p : s.opt.p) p = r.i(1, 3); for (auto& n : s.grid.n) n = std::min(n, 2); }
        if (a.num("show", 0)) fprintf(stderr, "%s place %d %s\n", what.c_str(), place, s.str().c_str());
        if (slow) s.opt.residual = std::max(s.opt.residual, 1e-6), s.opt.min_tri = std::min<decltype(s.opt.min_tri)>(s.opt.min_tri, 60);
        R.sample(what + " place " + std::to_string(place) + " " + s.str());
        R.count("meshes: " + what);
        ++R.evals;
        const auto tri = q::to(s.mesh);
        const auto V = tri.View();
        auto guarded = [&](const char* n, auto&& f) { try { f(); R.count(std::string("calls ") + n); } catch (const queso::Exception&) { R.count(std::string("refused ") + n); } catch (const std::exception& e) { R.viol("foreign-exception", std::string(n) + ": " + e.what() + " " + what); } };
        guarded("mesh measures", [&] {
            use(MeshUtilities::Area(V)); use(MeshUtilities::AreaOMP(V)); use(MeshUtilities::Volume(V)); use(MeshUtilities::VolumeOMP(V));
            for (IndexType d = 0; d < 3; ++d) use(MeshUtilities::Volume(V, d));
            use(MeshUtilities::EstimateQuality(V));
            const auto bb = MeshUtilities::BoundingBox(V); use(bb.first[0]);
        });
        if (!s.mesh.t.empty()) guarded("aspect ratio", [&] { use(MeshUtilities::MaxAspectRatio(V)); use(MeshUtilities::AverageAspectRatio(V)); });
        guarded("refine", [&] { auto c = q::to(s.mesh); MeshUtilities::Refine(c, IndexType(r.i(0, 300))); auto e = q::to(s.mesh); MeshUtilities::Append(c, e); use(double(c.NumOfTriangles())); });
        auto pt = [&] {
            g::V p{ sc * r.u(-2, 2), sc * r.u(-2, 2), sc * r.u(-2, 2) };
            if (!s.mesh.t.empty() && r.p(.4)) { const size_t t = size_t(r.i(0, int(s.mesh.t.size()) - 1)); p = r.p(.5) ? (1. / 3) * (s.mesh.P(t, 0) + s.mesh.P(t, 1) + s.mesh.P(t, 2)) : s.mesh.P(t, r.i(0, 2)); }
            return p;
        };
        guarded("operator", [&] {
            BRepOperator op(V);
            for (int i = 0; i < 5; ++i) {
                use(op.IsInside(q::vd(pt())));
                g::V lo = pt(), up = lo; for (auto& x : up) x += sc * std::pow(10.0, r.u(-3, .3));
                if (r.p(.3)) { auto [l, u] = s.grid.cell(size_t(r.i(0, int(s.grid.size()) - 1))); lo = l; up = u; }
                use(double(int(op.GetIntersectionState(q::vd(lo), q::vd(up)))));
                use(double(op.ClipTriangleMesh(q::vd(lo), q::vd(up)).NumOfTriangles()));
                use(double(op.ClipTriangleMeshUnique(q::vd(lo), q::vd(up)).NumOfTriangles()));
                if (op.IsTrimmed(q::vd(lo), q::vd(up))) {
                    auto d = op.pGetTrimmedDomain(q::vd(lo), q::vd(up), s.opt.min_ratio, s.opt.min_tri, s.opt.neglect);
                    if (d) { for (int k = 0; k < 3; ++k) use(d->IsInside(q::vd(pt()))); const ElementBounds B{ MakeBox(q::vd(lo), q::vd(up)), MakeBox(Vector3d{ 0, 0, 0 }, Vector3d{ 1, 1, 1 }) }; use(double(d->template GetBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::parametric>(B).size())); const auto b = d->template GetBounds<CoordinateSpace::global>(B); use(b.lower[0]); R.count("trimmed domains"); }
                }
            }
            const auto S = q::settings(s.grid, s.opt);
            use(double(op.pGetElementClassifications(*S)->size()));
        });
        const std::string dir = a.tmp + "/c07";
        guarded("writer", [&] { long n = 0; for (int k = 0; k < 6; ++k) use(double(wr::exercise(r, a.tmp + "/c07buf", &n).size())); R.count("bytes through small buffers", double(n)); });
        if (!slow && r.p(.03)) guarded("large file", [&] {// more than the buffer of the writer
            const int n = r.i(90, 140);
            const auto big = q::to(g::quadgrid(n, n, [](double x, double y) { return g::V{ x, y, x * y }; }));
            const std::string f = a.tmp + "/c07large.stl"; const bool ascii = r.p(.3);
            IO::WriteMeshToSTL(big, f, ascii ? IO::EncodingType::ascii : IO::EncodingType::binary);
            TriangleMesh b2{}; IO::ReadMeshFromSTL(b2, f); use(double(b2.NumOfTriangles()));
            std::filesystem::remove(f);
        });
        guarded("model", [&] {
            auto st = q::settings(s.grid, s.opt);
            auto& gen = (*st)[MainSettings::general_settings];
            const bool out = r.p(.3);
            gen.SetValue(GeneralSettings::write_output_to_file, out);
            if (out) { std::filesystem::create_directories(dir); gen.SetValue(GeneralSettings::output_directory_name, dir); }
            auto model = EmbeddedModel::Create(std::move(st));
            model.CreateVolume(V);
            std::vector<Unique<q::Dict>> cs;
            for (int c = r.i(0, 2); c > 0; --c) {
                cs.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
                cs.back()->SetValue(ConditionSettings::condition_id, IndexType(c)); cs.back()->SetValue(ConditionSettings::input_filename, std::string("none.stl")); cs.back()->CheckRequired();
                std::string w2; auto sm = r.p(.5) ? q::surface(r, s) : odd(r, w2);
                for (auto& p : sm.v) if (!w2.empty()) p = sc * p;
                const auto t2 = q::to(sm);
                model.CreateCondition(t2.View(), *cs.back());
            }
            if (out) model.WriteModelToFile();
            size_t n = 0;
            for (const auto& e : model.GetElementViews()) { for (auto& p : q::global_points(e)) use(p.w); for (auto& p : q::param_points(e)) use(p.w); ++n; }
            for (const auto& e : model.GetElements<EmbeddedModel::BackgroundGridType::ElementFilter::trimmed>()) {
                use(double(e.GetActiveDomainBoundaryMesh().NumOfTriangles())); use(double(e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>().size()));
                use(e.IsInsideActiveDomain<CoordinateSpace::global>(q::vd(pt())));
            }
            R.count("active cells", double(n));
            if (n) R.nontrivial(r.next());
        });
        std::filesystem::remove_all(dir);
    });
}
