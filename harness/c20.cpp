// C20: written files describe what was written.
#include <filesystem>
#include <iostream>
#include "io.hpp"
#include "model.hpp"
#include "writer.hpp"
#include "queso/io/io_utilities.h"
using namespace queso;
namespace {
using Grid = EmbeddedModel::BackgroundGridType;
struct Copy {// puts given points into an element
    using ElementType = Grid::UntrimmedElementType;
    static constexpr Grid::ElementFilter Builds = Grid::ElementFilter::untrimmed;
    std::vector<q::Pt> pts;
    std::optional<ElementType> Build(IndexType id, const ElementBounds& b) { ElementType e(id, b); for (auto& p : pts) e.GetIntegrationPoints().emplace_back(p.x[0], p.x[1], p.x[2], p.w); return e; }
};
std::string text(h::Rng& r) {
    static const std::vector<std::string> w{ "plain", "with space", "a\"b", "back\\slash", "C:\\dir\\file.stl", "tab\there", "line\nbreak", "\r\n", "\xc3\xa9t\xc3\xa9", "{\"a\": [1,2]}", "", "/", "\x01\x1f", "'single'", "\\\"", "\\u0041", "a,b", "true", "null", "]}" };
    std::string s = r.pick(w);
    while (r.p(.3)) s += r.pick(w);
    return s;
}
bool ten(double got, double want) { return std::fabs(got - want) <= 5.0000001e-10 * std::fabs(want); }// ten significant digits
// files with more entries than small counters can hold
void large(const h::Args& a, h::Rng& r, h::Report& R) {
    const std::string f = a.tmp + "/c20large";
    const bool bin = r.p(.5);
    const auto enc = bin ? IO::EncodingType::binary : IO::EncodingType::ascii;
    const size_t nv = size_t(r.i(60000, 150000)), nt = size_t(r.i(60000, 150000));
    g::Mesh m; TriangleMesh tri;
    for (size_t i = 0; i < nv; ++i) { m.v.push_back({ r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) }); tri.AddVertex(q::vd(m.v.back())); }
    for (size_t i = 0; i < nt; ++i) { std::array<size_t, 3> t; for (auto& j : t) j = size_t(r.next() % nv); m.t.push_back({ t[0], t[1], t[2] }); tri.AddTriangle({ t[0], t[1], t[2] }, PointType{ 0, 0, 1 }); }
    auto where = [&] { return "mesh of " + h::str(nv) + " vertices and " + h::str(nt) + " triangles " + (bin ? "binary" : "ascii"); };
    auto parse = [&](const char* what, auto&& use) {
        ++R.evals;
        try { use(io::slurp(f)); R.count(std::string("large files ") + what); }
        catch (const io::Bad& b) { R.viol(std::string("malformed-") + what, std::string(b.what()) + " " + where()); }
    };
    IO::WriteMeshToVTK(TriangleMeshView(tri), f, enc);
    parse("mesh", [&](const std::string& b) {
        const auto v = io::vtk(b);
        if (!R.check(v.cells.size() == nt, "mesh-cells", where)) return;
        size_t bad = 0, k0 = 0;
        for (size_t k = 0; k < nt; ++k) {
            bool ok = v.types[k] == 5 && v.cells[k].size() == 3;
            for (size_t i = 0; ok && i < 3; ++i) for (size_t d = 0; d < 3; ++d) { const double w = m.P(k, int(i))[d]; ok = ok && std::fabs(v.pts.at(v.cells[k][i])[d] - w) <= (bin ? 0 : 1e-15); }
            if (!ok && !bad++) k0 = k;
        }
        R.check(!bad, "mesh-triangle", [&] { return h::str(bad) + " triangles, first " + h::str(k0) + " " + where(); });
    });
    IO::WriteMeshToSTL(TriangleMeshView(tri), f, enc);
    parse("stl", [&](const std::string& b) {
        const auto v = bin ? io::stl_binary(b) : io::stl_ascii(b);
        if (!R.check(v.size() == nt, "number-of-triangles", where)) return;
        size_t bad = 0;
        for (size_t k = 0; k < nt; ++k) { bool ok = true; for (size_t i = 0; i < 3; ++i) for (size_t d = 0; d < 3; ++d) ok = ok && std::fabs(v[k].p[i][d] - m.P(k, int(i))[d]) < 1e-6; bad += !ok; }
        R.check(!bad, "triangle", [&] { return h::str(bad) + " triangles " + where(); });
    });
    // many cells and points
    g::Grid G; G.lo = { 0, 0, 0 }; G.up = { 1, 2, 3 }; G.n = { r.i(17, 24), r.i(17, 24), r.i(17, 24) }; G.ulo = { 0, 0, 0 }; G.uup = { 1, 1, 1 };
    q::Opt o;
    const auto S = q::settings(G, o);
    Grid grid(*S);
    Copy cp;
    std::vector<size_t> ids; std::vector<q::Pt> pts;
    for (size_t id = 0; id < G.size(); ++id) {
        cp.pts.clear();
        for (int k = 0; k < 9; ++k) cp.pts.push_back({ { r.u(), r.u(), r.u() }, r.u() });
        ids.push_back(id);
        grid.MakeElement(cp, id + 1, q::bounds(G, id));
        if (G.size() > 90000) break;
    }
    grid.LockElements();
    std::vector<std::pair<g::V, g::V>> boxes;
    for (const auto& e : std::as_const(grid).GetElementViews()) {
        const auto b = e.GetCellBounds<CoordinateSpace::global>();
        boxes.push_back({ q::gv(b.lower), q::gv(b.upper) });
        for (const auto& p : e.GetIntegrationPoints<CoordinateSpace::global>()) pts.push_back({ { p[0], p[1], p[2] }, p.Weight() });
    }
    R.check(boxes.size() == ids.size(), "grid-cells", where);
    IO::WriteElementsToVTK(grid, f, enc);
    parse("elements", [&](const std::string& b) {
        const auto v = io::vtk(b);
        if (!R.check(v.cells.size() == boxes.size(), "number-of-cells", where)) return;
        size_t bad = 0;
        for (size_t k = 0; k < boxes.size(); ++k) {
            g::V lo{ 1e9, 1e9, 1e9 }, up{ -1e9, -1e9, -1e9 };
            for (size_t i : v.cells[k]) for (size_t d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], v.pts.at(i)[d]); up[d] = std::max(up[d], v.pts.at(i)[d]); }
            bool ok = v.cells[k].size() == 8;
            for (size_t d = 0; d < 3; ++d) ok = ok && std::fabs(lo[d] - boxes[k].first[d]) < 1e-14 && std::fabs(up[d] - boxes[k].second[d]) < 1e-14;
            bad += !ok;
        }
        R.check(!bad, "hexahedron", [&] { return h::str(bad) + " of " + h::str(boxes.size()) + " cells " + (bin ? "binary" : "ascii"); });
    });
    IO::WritePointsToVTK(grid, f, enc);
    parse("points", [&](const std::string& b) {
        const auto v = io::vtk(b);
        if (!R.check(v.cells.size() == pts.size() && v.pts.size() == pts.size() && v.scal.size() == pts.size(), "number-of-points", where)) return;
        size_t bad = 0;
        for (size_t k = 0; k < pts.size(); ++k) {
            bool ok = v.cells[k].size() == 1 && v.cells[k][0] == k && std::fabs(v.scal[k] - pts[k].w) < 1e-14;
            for (size_t d = 0; d < 3; ++d) ok = ok && std::fabs(v.pts[k][d] - pts[k].x[d]) < 1e-14;
            bad += !ok;
        }
        R.check(!bad, "point", [&] { return h::str(bad) + " of " + h::str(pts.size()) + " points " + (bin ? "binary" : "ascii"); });
    });
    R.maxi("vertices in a file", double(std::max({ nv, pts.size(), 8 * boxes.size() })));
    std::filesystem::remove(f);
    R.nontrivial(h::mix(nv, nt));
    R.sample(where());
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        if (a.num("large", 0)) return large(a, r, R);
        {// the buffered writer on its own
            long n = 0; const std::string bad = wr::exercise(r, a.tmp + "/c20buf", &n);
            R.check(bad.empty(), "buffered-writer", [&] { return bad; });
            R.count("bytes through small buffers", double(n));
        }
        omp_set_num_threads(r.p(.7) ? 1 : 3);
        q::Scene s = q::scene(r, int(a.num("maxn", 5)), 2, 1, -1, r.p(.2));
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        s.opt.min_tri = 1;
        const std::string dir = a.tmp + "/c20 out";
        std::filesystem::remove_all(dir);
        std::filesystem::create_directories(dir);
        auto where = [&] { return s.str(); };
        auto st = q::settings(s.grid, s.opt);
        auto& gen = (*st)[MainSettings::general_settings];
        gen.SetValue(GeneralSettings::write_output_to_file, true);
        gen.SetValue(GeneralSettings::output_directory_name, dir);
        auto model = EmbeddedModel::Create(std::move(st));
        const auto tri = q::to(s.mesh);
        model.CreateVolume(tri.View());
        const int nc = r.i(0, 2);
        std::vector<Unique<q::Dict>> cs;
        for (int c = 0; c < nc; ++c) {
            cs.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
            cs.back()->SetValue(ConditionSettings::condition_id, IndexType(c * 7 + 3));
            cs.back()->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
            cs.back()->CheckRequired();
            const auto t = q::to(q::surface(r, s));
            model.CreateCondition(t.View(), *cs.back());
        }
        model.WriteModelToFile();
        // reference: what the model says
        std::vector<std::pair<g::V, g::V>> boxes; std::vector<q::Pt> pts;
        for (const auto& e : model.GetElementViews()) {
            const auto b = e.GetCellBounds<CoordinateSpace::global>();
            boxes.push_back({ q::gv(b.lower), q::gv(b.upper) });
            for (auto& p : q::global_points(e)) pts.push_back(p);
        }
        auto parse = [&](const std::string& f, const char* what, auto&& use) {
            ++R.evals;
            try { use(io::slurp(f)); R.count(std::string("files ") + what); }
            catch (const io::Bad& b) { R.viol(std::string("malformed-") + what, f + ": " + b.what() + " " + where()); }
        };
        auto near = [](double got, double want, bool bin) { return bin ? got == want : std::fabs(got - want) <= .5000001e-15 + 1.2e-16 * std::fabs(want); };
        auto elements = [&](const std::string& bytes) {
            const auto v = io::vtk(bytes);
            if (!R.check(v.cells.size() == boxes.size() && v.pts.size() == 8 * boxes.size() && v.scal.empty(), "number-of-cells", [&] { return h::str(v.cells.size()) + " of " + h::str(boxes.size()) + " " + where(); })) return;
            for (size_t k = 0; k < boxes.size(); ++k) {
                bool ok = v.types[k] == 12 && v.cells[k].size() == 8;
                static const int o[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } };
                for (size_t i = 0; ok && i < 8; ++i) for (size_t d = 0; d < 3; ++d) ok = ok && near(v.pts[v.cells[k][i]][d], o[i][d] ? boxes[k].second[d] : boxes[k].first[d], v.binary);
                R.check(ok, "hexahedron", [&] { return "cell " + h::str(k) + " is not the hexahedron " + h::vec(boxes[k].first) + h::vec(boxes[k].second) + (v.binary ? " binary " : " ascii ") + where(); });
            }
            R.count("cells compared", double(boxes.size()));
        };
        auto points = [&](const std::string& bytes) {
            const auto v = io::vtk(bytes);
            if (!R.check(v.pts.size() == pts.size() && v.cells.size() == pts.size() && v.scal.size() == pts.size() && v.scalname == "Weights", "number-of-points", [&] { return h::str(v.pts.size()) + "/" + h::str(v.scal.size()) + " of " + h::str(pts.size()) + " " + where(); })) return;
            for (size_t k = 0; k < pts.size(); ++k) {
                bool ok = v.types[k] == 1 && v.cells[k].size() == 1 && v.cells[k][0] == k;
                for (size_t d = 0; d < 3; ++d) ok = ok && near(v.pts[k][d], pts[k].x[d], v.binary);
                R.check(ok, "point", [&] { return "point " + h::str(k) + " " + h::vec(v.pts[k]) + " is " + h::vec(pts[k].x) + (v.binary ? " binary " : " ascii ") + where(); });
                R.check(near(v.scal[k], pts[k].w, v.binary), "weight", [&] { return "weight " + h::str(k) + " " + h::str(v.scal[k]) + " is " + h::str(pts[k].w) + (v.binary ? " binary " : " ascii ") + where(); });
            }
            R.count("points compared", double(pts.size()));
        };
        parse(dir + "/elements.vtk", "elements", elements);
        parse(dir + "/integration_points.vtk", "points", points);
        // the same elements in a grid, in both encodings
        {
            const auto S = q::settings(s.grid, s.opt);
            Grid grid(*S);
            Copy cp;
            for (const auto& e : model.GetElementViews()) { cp.pts = q::param_points(e); grid.MakeElement(cp, e.GetId(), q::bounds(s.grid, e.GetId() - 1)); }
            grid.LockElements();
            boxes.clear(); pts.clear();
            for (const auto& e : std::as_const(grid).GetElementViews()) {
                const auto b = e.GetCellBounds<CoordinateSpace::global>();
                boxes.push_back({ q::gv(b.lower), q::gv(b.upper) });
                for (const auto& p : e.GetIntegrationPoints<CoordinateSpace::global>()) pts.push_back({ { p[0], p[1], p[2] }, p.Weight() });
            }
            for (const auto e : { IO::EncodingType::binary, IO::EncodingType::ascii }) {
                IO::WriteElementsToVTK(grid, dir + "/e.vtk", e); parse(dir + "/e.vtk", "elements", elements);
                IO::WritePointsToVTK(grid, dir + "/p.vtk", e); parse(dir + "/p.vtk", "points", points);
            }
        }
        // conditions
        auto triangles = [&](const std::vector<std::array<g::V, 4>>& want, const io::Facets& got, bool bin, const std::string& what) {
            if (!R.check(got.size() == want.size(), "number-of-triangles", [&] { return what + " " + h::str(got.size()) + " of " + h::str(want.size()) + " " + where(); })) return;
            for (size_t k = 0; k < want.size(); ++k) {
                bool ok = true;
                for (size_t i = 0; i < 3; ++i) for (size_t d = 0; d < 3; ++d) ok = ok && (bin ? got[k].p[i][d] == double(float(want[k][i][d])) : std::fabs(got[k].p[i][d] - want[k][i][d]) <= .5000001e-6 + 1e-15 * std::fabs(want[k][i][d]));
                for (size_t d = 0; d < 3; ++d) ok = ok && (bin ? got[k].n[d] == double(float(want[k][3][d])) : std::fabs(got[k].n[d] - want[k][3][d]) <= .5000001e-6);
                R.check(ok, "triangle", [&] { return what + " triangle " + h::str(k) + (bin ? " binary " : " ascii ") + where(); });
            }
            R.count("triangles compared", double(want.size()));
        };
        size_t c = 0, files = 0;
        for (const auto& e : std::filesystem::directory_iterator(dir)) files += e.path().filename().string().rfind("condition_id_", 0) == 0;
        R.check(files == size_t(nc), "number-of-condition-files", [&] { return h::str(files) + " for " + h::str(nc) + " " + where(); });
        for (const auto& cond : model.GetConditions()) {
            std::vector<std::array<g::V, 4>> want;
            for (const auto& seg : cond.GetSegments()) { const auto& m = seg.GetTriangleMesh(); for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle<WithNormals>(i); want.push_back({ g::V{ t.P1[0], t.P1[1], t.P1[2] }, g::V{ t.P2[0], t.P2[1], t.P2[2] }, g::V{ t.P3[0], t.P3[1], t.P3[2] }, g::V{ t.Normal[0], t.Normal[1], t.Normal[2] } }); } }
            parse(dir + "/condition_id_" + std::to_string(c * 7 + 3) + ".stl", "condition", [&](const std::string& b) { triangles(want, io::stl_binary(b), true, "condition file"); });
            for (const bool bin : { true, false }) { IO::WriteConditionToSTL(cond, dir + "/c.stl", bin ? IO::EncodingType::binary : IO::EncodingType::ascii); parse(dir + "/c.stl", "condition", [&](const std::string& b) { triangles(want, bin ? io::stl_binary(b) : io::stl_ascii(b), bin, "condition"); }); }
            ++c;
        }
        // meshes
        for (const bool bin : { true, false }) {
            IO::WriteMeshToVTK(tri.View(), dir + "/m.vtk", bin ? IO::EncodingType::binary : IO::EncodingType::ascii);
            parse(dir + "/m.vtk", "mesh", [&](const std::string& b) {
                const auto v = io::vtk(b);
                if (!R.check(v.cells.size() == s.mesh.t.size() && v.binary == bin, "mesh-cells", where)) return;
                for (size_t k = 0; k < v.cells.size(); ++k) {
                    bool ok = v.types[k] == 5 && v.cells[k].size() == 3;
                    for (size_t i = 0; ok && i < 3; ++i) for (size_t d = 0; d < 3; ++d) ok = ok && near(v.pts[v.cells[k][i]][d], s.mesh.P(k, int(i))[d], bin);
                    R.check(ok, "mesh-triangle", [&] { return "triangle " + h::str(k) + (bin ? " binary " : " ascii ") + where(); });
                }
            });
        }
        // model information
        const q::Dict& info = model.GetModelInfo();
        parse(dir + "/model_info.json", "model-info", [&](const std::string& b) {
            const auto j = io::json(b);
            auto num = [&](const io::Json& x, double want, const char* what) { R.check(x.k == io::Json::number && ten(x.d, want), "json-number", [&] { return std::string(what) + " " + x.raw + " is " + h::str(want) + " " + where(); }); };
            R.check(j.o.size() == 5, "json-keys", [&] { return h::str(j.o.size()) + " keys " + where(); });
            const auto& ge = info[MainInfo::embedded_geometry_info]; ge.CheckRequired();
            num(j.at("embedded_geometry_info").at("volume"), ge.GetRequiredValue<double>(EmbeddedGeometryInfo::volume), "volume");
            R.check(j.at("embedded_geometry_info").at("is_closed").b == ge.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed), "json-bool", where);
            const auto& qu = info[MainInfo::quadrature_info]; qu.CheckRequired();
            const auto& jq = j.at("quadrature_info");
            num(jq.at("represented_volume"), qu.GetRequiredValue<double>(QuadratureInfo::represented_volume), "represented_volume");
            num(jq.at("percentage_of_geometry_volume"), qu.GetRequiredValue<double>(QuadratureInfo::percentage_of_geometry_volume), "percentage");
            num(jq.at("tot_num_points"), double(qu.GetRequiredValue<IndexType>(QuadratureInfo::tot_num_points)), "tot_num_points");
            num(jq.at("num_of_points_per_full_element"), qu.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_full_element), "per full");
            num(jq.at("num_of_points_per_trimmed_element"), qu.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_trimmed_element), "per trimmed");
            const auto& bg = info[MainInfo::background_grid_info]; bg.CheckRequired();
            const auto& jb = j.at("background_grid_info");
            num(jb.at("num_active_elements"), double(boxes.size()), "active");
            num(jb.at("num_trimmed_elements"), double(bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_trimmed_elements)), "trimmed");
            num(jb.at("num_full_elements"), double(bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_full_elements)), "full");
            num(jb.at("num_inactive_elements"), double(bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_inactive_elements)), "inactive");
            const auto& el = info[MainInfo::elapsed_time_info]; el.CheckRequired();
            const auto& je = j.at("elapsed_time_info");
            num(je.at("total"), el.GetRequiredValue<double>(ElapsedTimeInfo::total), "time");
            const auto& vt = el[ElapsedTimeInfo::volume_time_info]; vt.CheckRequired();
            num(je.at("volume_time_info").at("total"), vt.GetRequiredValue<double>(VolumeTimeInfo::total), "volume time");
            num(je.at("volume_time_info").at("classification_of_elements"), vt.GetRequiredValue<double>(VolumeTimeInfo::classification_of_elements), "classification time");
            num(je.at("volume_time_info").at("solution_of_moment_fitting_eqs"), vt.GetRequiredValue<double>(VolumeTimeInfo::solution_of_moment_fitting_eqs), "fitting time");
            const auto& l = j.at("conditions_infos_list");
            if (R.check(l.k == io::Json::array && l.a.size() == size_t(nc), "json-list", where)) {
                size_t k = 0;
                for (const auto& cond : model.GetConditions()) {
                    const auto& ci = cond.GetInfo(); ci.CheckRequired();
                    num(l.a[k].at("condition_id"), double(k * 7 + 3), "condition id");
                    num(l.a[k].at("surf_area"), ci.GetRequiredValue<double>(ConditionInfo::surf_area), "surf_area");
                    num(l.a[k].at("perc_surf_area_in_active_domain"), ci.GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain), "percentage");
                    ++k;
                }
            }
        });
        // settings with arbitrary contents
        for (int rep = 0; rep < 4; ++rep) {
            auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
            auto& G = (*p)[MainSettings::general_settings];
            const std::string in = text(r), out = text(r);
            const bool setin = r.p(.7);
            if (setin) G.SetValue(GeneralSettings::input_filename, in);
            const bool setout = r.p(.7);
            if (setout) G.SetValue(GeneralSettings::output_directory_name, out);
            const IndexType echo = r.p(.5) ? IndexType(r.i(0, 3)) : IndexType(r.next() >> r.i(0, 63));
            G.SetValue(GeneralSettings::echo_level, echo);
            auto val = [&] { return r.p(.2) ? double(r.i(-5, 5)) : r.p(.2) ? (r.p(.5) ? 1 : -1) * std::pow(10.0, r.u(-300, 300)) : r.normal() * std::pow(10.0, r.u(-6, 6)); };
            const g::V lo{ val(), val(), val() };
            auto& B = (*p)[MainSettings::background_grid_settings];
            B.SetValue(BackgroundGridSettings::lower_bound_xyz, q::vd(lo));
            const std::array<size_t, 3> ne{ size_t(r.next() >> r.i(0, 63)), size_t(r.i(0, 9)), size_t(r.i(0, 9)) };
            B.SetValue(BackgroundGridSettings::number_of_elements, Vector3i{ ne[0], ne[1], ne[2] });
            const bool spline = r.p(.5), setgt = r.p(.7);
            if (setgt) B.SetValue(BackgroundGridSettings::grid_type, spline ? GridType::b_spline_grid : GridType::hexahedral_fe_grid);
            static const std::vector<std::pair<IntegrationMethod, const char*>> im{ { IntegrationMethod::gauss, "Gauss" }, { IntegrationMethod::gauss_reduced_1, "Gauss_Reduced1" }, { IntegrationMethod::gauss_reduced_2, "Gauss_Reduced2" }, { IntegrationMethod::ggq_optimal, "GGQ_Optimal" }, { IntegrationMethod::ggq_reduced_1, "GGQ_Reduced1" }, { IntegrationMethod::ggq_reduced_2, "GGQ_Reduced2" } };
            const auto method = r.pick(im);
            (*p)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, method.first);
            const int n = r.i(0, 3);
            std::vector<std::string> types; std::vector<double> mods;
            for (int k = 0; k < n; ++k) {
                auto d = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
                types.push_back(text(r)); mods.push_back(val());
                d->SetValue(ConditionSettings::condition_type, types.back());
                d->SetValue(ConditionSettings::modulus, mods.back());
                p->GetList(MainSettings::conditions_settings_list).push_back(std::move(d));
            }
            IO::WriteDictionaryToJSON(*p, dir + "/s.json");
            parse(dir + "/s.json", "settings", [&](const std::string& b) {
                const auto j = io::json(b);
                auto desc = [&] { return b.substr(0, 1200); };
                const auto& g = j.at("general_settings");
                R.check(g.at("input_filename").s == (setin ? in : "Not Set."), "json-text", desc);
                R.check(g.at("output_directory_name").s == (setout ? out : "queso_output"), "json-text", desc);
                R.check(g.at("echo_level").raw == std::to_string(echo), "json-integer", desc);
                R.check(g.at("write_output_to_file").k == io::Json::boolean && g.at("write_output_to_file").b, "json-default", desc);
                const auto& bg = j.at("background_grid_settings");
                for (size_t d = 0; d < 3; ++d) {
                    R.check(ten(bg.at("lower_bound_xyz").a.at(d).d, lo[d]), "json-vector", desc);
                    R.check(bg.at("number_of_elements").a.at(d).raw == std::to_string(ne[d]), "json-integer-vector", desc);
                }
                R.check(bg.at("upper_bound_xyz").s == "Not Set.", "json-unset", desc);
                R.check(bg.at("grid_type").s == (!setgt ? "Not Set." : spline ? "b_spline_grid" : "hexahedral_fe_grid"), "json-option", desc);
                R.check(j.at("non_trimmed_quadrature_rule_settings").at("integration_method").s == method.second, "json-option", [&] { return std::string(method.second) + " " + desc(); });
                const auto& l = j.at("conditions_settings_list");
                if (R.check(l.a.size() == size_t(n), "json-list", desc)) for (size_t k = 0; k < l.a.size(); ++k) {
                    R.check(l.a[k].at("condition_type").s == types[k], "json-text", desc);
                    R.check(ten(l.a[k].at("modulus").d, mods[k]), "json-vector", desc);
                    R.check(l.a[k].at("direction").s == "Not Set." && l.a[k].o.size() == 7, "json-unset", desc);
                }
            });
        }
        if (!boxes.empty()) R.nontrivial(h::mix(pts.size(), r.next()));
        R.sample(where() + " conditions=" + h::str(nc));
    });
}
