// C30: equivalent descriptions of a body give equivalent models.
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
namespace {
struct Foreign { g::Mesh m; };
TriangleMeshView foreign(const Foreign& f) {
    return TriangleMeshView(f, [](const Foreign& x) { return IndexType(x.m.t.size()); },
        [](const Foreign& x, IndexType i) { return TriangleProxy<WithoutNormals>{ x.m.P(i, 0), x.m.P(i, 1), x.m.P(i, 2) }; });
}
struct Cell { bool trimmed; g::Moments M; size_t points; double vol = 0, area = 0; };
struct Digest {
    std::map<size_t, Cell> cells;
    std::map<std::pair<size_t, bool>, std::array<double, 4>> segments;// cell of the segment's centre of area, active -> area, first moments
    double seg_area = 0, volume = 0, represented = 0; bool closed = false;
    std::vector<int> kind;
};
// `ref` is the grid in which cells are named; `back` maps coordinates of this model to it.
template<class B> Digest digest(EmbeddedModel& m, const g::Grid& gr, const g::Grid& ref, const q::Opt& o, double k, const B& back) {
    Digest d;
    for (const auto& e : m.GetElementViews()) {
        auto [lo, up] = gr.cell(e.GetId() - 1);
        const auto p = q::global_points(e);
        d.cells[e.GetId()] = Cell{ e.IsTrimmed(), q::point_moments(p, lo, up, o.p), p.size() };
    }
    for (const auto& e : m.GetElements<EmbeddedModel::BackgroundGridType::ElementFilter::trimmed>()) {
        const auto& b = e.GetActiveDomainBoundaryMesh();
        auto& c = d.cells.at(e.GetId());
        c.vol = MeshUtilities::Volume(b) * k * k * k; c.area = MeshUtilities::Area(b) * k * k;
    }
    for (const auto& c : m.GetConditions()) for (const auto& s : c.GetSegments()) {
        const auto t = q::from(s.GetTriangleMesh());
        double A = 0; g::V f{ 0, 0, 0 };
        for (size_t i = 0; i < t.t.size(); ++i) { const double a = .5 * g::norm(t.an(i)) * k * k; const g::V cc = back((1. / 3) * (t.P(i, 0) + t.P(i, 1) + t.P(i, 2))); A += a; f = f + a * cc; }
        if (A <= 0) continue;
        size_t id = 0, f3 = 1;
        for (size_t x = 0; x < 3; ++x) { int j = int(std::floor((f[x] / A - ref.lo[x]) / (ref.up[x] - ref.lo[x]) * ref.n[x])); j = std::min(std::max(j, 0), ref.n[x] - 1); id += size_t(j) * f3; f3 *= size_t(ref.n[x]); }
        auto& S = d.segments[{ id, bool(s.IsInActiveElement()) }];
        S[0] += A; for (size_t x = 0; x < 3; ++x) S[x + 1] += f[x];
        d.seg_area += A;
    }
    const auto& info = m.GetModelInfo();
    const auto& ge = info[MainInfo::embedded_geometry_info]; ge.CheckRequired();
    d.volume = ge.GetRequiredValue<double>(EmbeddedGeometryInfo::volume) * k * k * k;
    d.closed = ge.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed);
    const auto& qi = info[MainInfo::quadrature_info]; qi.CheckRequired();
    d.represented = qi.GetRequiredValue<double>(QuadratureInfo::represented_volume) * k * k * k;
    return d;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        omp_set_num_threads(1);
        q::Scene s = q::scene(r, int(a.num("maxn", 4)), 2, 1, -1, r.p(.15));
        s.opt.min_tri = 1;
        s.opt.neglect = true;
        if (s.opt.residual < 1e-10) s.opt.residual = 1e-10;
        auto surf = q::surface(r, s);
        static const char* names[] = { "permuted triangles", "rotated triangles", "duplicated vertices", "permuted vertices", "subdivided triangles", "foreign mesh", "shifted", "scaled", "shifted and scaled", "other random seed", "permuted axes", "all of them", "triangles without area" };
        const int kind = r.i(0, 12);
        const bool all = kind == 11;
        q::Scene t = s; g::Mesh ts = surf;
        double k = 1; g::V sh{ 0, 0, 0 };
        std::array<size_t, 3> ax{ 0, 1, 2 };
        auto remesh = [&](g::Mesh& m) {
            if (kind == 4 || (all && r.p(.3))) {
                std::vector<g::T> n;
                const bool four = r.p(.5);// the split of an edge must be the same on both sides
                for (auto f : m.t) {
                    const g::V A = m.v[f[0]], B = m.v[f[1]], C = m.v[f[2]];
                    if (four) { const size_t x = m.add(.5 * (A + B)), y = m.add(.5 * (B + C)), z = m.add(.5 * (C + A)); n.push_back({ f[0], x, z }); n.push_back({ x, f[1], y }); n.push_back({ y, f[2], z }); n.push_back({ x, y, z }); }
                    else if (r.p(.5)) n.push_back(f);
                    else { const size_t v = m.add((1. / 3) * (A + B + C)); n.push_back({ f[0], f[1], v }); n.push_back({ f[1], f[2], v }); n.push_back({ f[2], f[0], v }); }
                }
                m.t = n;
            }
            if (kind == 2 || (all && r.p(.5))) { std::vector<g::V> v; for (auto& f : m.t) for (auto& i : f) { v.push_back(m.v[i]); i = v.size() - 1; } m.v = v; }
            if (kind == 3 || (all && r.p(.5))) {
                std::vector<size_t> p(m.v.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i;
                for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[size_t(r.i(0, int(i) - 1))]);
                std::vector<g::V> v(m.v.size()); for (size_t i = 0; i < p.size(); ++i) v[p[i]] = m.v[i];
                m.v = v; for (auto& f : m.t) for (auto& i : f) i = p[i];
            }
            if (kind == 0 || (all && r.p(.7))) for (size_t i = m.t.size(); i > 1; --i) std::swap(m.t[i - 1], m.t[size_t(r.i(0, int(i) - 1))]);
            if (kind == 12 || (all && r.p(.3))) {
                std::vector<g::T> n;
                for (const auto& f : m.t) {
                    while (r.p(.15)) { const auto& o = m.t[size_t(r.i(0, int(m.t.size()) - 1))]; const int w = r.i(0, 2); n.push_back({ o[size_t(w)], o[size_t((w + 1) % 3)], o[size_t(w)] }); if (r.p(.5)) std::swap(n.back()[1], n.back()[2]); R.count("triangles without area"); }
                    n.push_back(f);
                }
                m.t = n;
            }
            if (kind == 1 || (all && r.p(.7))) for (auto& f : m.t) for (int j = r.i(0, 2); j > 0; --j) f = { f[1], f[2], f[0] };
        };
        remesh(t.mesh); remesh(ts);
        if (kind == 10 || (all && r.p(.3))) {
            if (r.p(.5)) ax = { 1, 2, 0 }; else ax = { 2, 0, 1 };
            auto P = [&](const g::V& p) { return g::V{ p[ax[0]], p[ax[1]], p[ax[2]] }; };
            for (auto* m : { &t.mesh, &ts }) for (auto& p : m->v) p = P(p);
            t.grid.lo = P(s.grid.lo); t.grid.up = P(s.grid.up); t.grid.ulo = P(s.grid.ulo); t.grid.uup = P(s.grid.uup);
            for (size_t i = 0; i < 3; ++i) { t.grid.n[i] = s.grid.n[ax[i]]; t.opt.p[i] = s.opt.p[ax[i]]; }
        }
        if (kind == 7 || kind == 8 || (all && r.p(.5))) k = r.p(.3) ? std::ldexp(1.0, r.i(-6, 6)) : std::pow(10.0, r.u(-2, 2));
        if (kind == 6 || kind == 8 || (all && r.p(.5))) { const double S = g::norm(s.grid.up - s.grid.lo); for (auto& x : sh) x = S * r.u(-4, 4); }
        auto fwd = [&](const g::V& p) { return k * (p + sh); };
        if (k != 1 || g::norm(sh) > 0) {
            for (auto* m : { &t.mesh, &ts }) for (auto& p : m->v) p = fwd(p);
            t.grid.lo = fwd(t.grid.lo); t.grid.up = fwd(t.grid.up);
            if (r.p(.5)) { t.grid.ulo = t.grid.lo; t.grid.uup = t.grid.up; }
        }
        auto inv = [&](const g::V& p) { const g::V x = (1 / k) * p - sh; g::V o{}; for (size_t i = 0; i < 3; ++i) o[ax[i]] = x[i]; return o; };
        // number of a cell of the first grid in the second
        auto other = [&](size_t id) { const auto x = s.grid.ijk(id); return size_t(x[ax[0]]) + size_t(t.grid.n[0]) * (size_t(x[ax[1]]) + size_t(t.grid.n[1]) * size_t(x[ax[2]])); };
        const bool same = kind <= 3 || kind == 5;
        const std::string what = names[kind];
        auto where = [&] { return what + ": " + s.str() + " against " + t.str() + (k != 1 ? " factor " + h::str(k) : "") + " condition " + surf.name; };
        auto build = [&](const q::Scene& x, const g::Mesh& sf, bool fv, const g::Grid& ref, double kk, auto&& back) {
            auto m = q::model(x);
            auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
            cs->SetValue(ConditionSettings::condition_id, IndexType(1));
            cs->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
            cs->CheckRequired();
            Digest d;
            if (fv) { Foreign b{ x.mesh }, sb{ sf }; m.CreateVolume(foreign(b)); m.CreateCondition(foreign(sb), *cs); BRepOperator op(foreign(b)); const auto cl = op.pGetElementClassifications(m.GetSettings()); for (auto z : *cl) d.kind.push_back(int(z)); }
            else { const auto b = q::to(x.mesh), sb = q::to(sf); m.CreateVolume(b.View()); m.CreateCondition(sb.View(), *cs); BRepOperator op(b.View()); const auto cl = op.pGetElementClassifications(m.GetSettings()); for (auto z : *cl) d.kind.push_back(int(z)); }
            auto kind_ = std::move(d.kind);
            d = digest(m, x.grid, ref, x.opt, kk, back);
            d.kind = std::move(kind_);
            return d;
        };
        const Digest A = build(s, surf, false, s.grid, 1, [](const g::V& p) { return p; });
        const unsigned dev = h::device();
        if (kind == 9 || all) h::device() = unsigned(r.next());
        const Digest B = build(t, ts, kind == 5 || ((all || kind == 12) && r.p(.5)), s.grid, 1 / k, inv);
        h::device() = dev;
        R.count(std::string("models ") + what);
        // geometry
        auto [blo, bup] = s.mesh.box();
        const double size = g::norm(bup - blo), tolv = 1e-11 * (size * size * size + std::fabs(A.volume)) * (1 + (g::norm(blo) + g::norm(sh)) / size);
        R.check(std::fabs(A.volume - B.volume) <= tolv, "volume", [&] { return h::str(A.volume) + " and " + h::str(B.volume) + " " + where(); });
        R.check(A.closed == B.closed, "closed", where);
        R.check(A.kind.size() == B.kind.size() && A.kind.size() == s.grid.size(), "number-of-cells", where);
        const g::V d = [&] { auto [lo, up] = s.grid.cell(0); return up - lo; }();
        const double cv = d[0] * d[1] * d[2], cd = g::norm(d);
        size_t diff = 0;
        for (size_t id = 0; id < s.grid.size(); ++id) {
            const size_t j = other(id);
            R.count("cells");
            if (A.kind[id] != B.kind[j]) {
                ++diff;
                // allowed only where the surface touches the cell without entering it by more than rounding
                auto [lo, up] = s.grid.cell(id);
                const double w = g::moments(s.mesh, lo, up, { 0, 0, 0 }).m[0];
                R.check(w < 1e-7 || w > 1 - 1e-7, "classification", [&] { return "cell " + h::str(id) + " is " + h::str(A.kind[id]) + " and " + h::str(B.kind[j]) + " (body fraction " + h::str(w) + ") " + where(); });
            }
            const auto x = A.cells.find(id + 1), y = B.cells.find(j + 1);
            const bool ax_ = x != A.cells.end(), by = y != B.cells.end();
            if (ax_ != by) { R.count("cells active in one model only"); continue; }
            if (!ax_) continue;
            R.count("active cells");
            if (x->second.trimmed != y->second.trimmed) {
                auto [lo, up] = s.grid.cell(id);
                const double w = g::moments(s.mesh, lo, up, { 0, 0, 0 }).m[0];
                R.check(w > 1 - 1e-7, "kind", [&] { return "cell " + h::str(id) + " (body fraction " + h::str(w) + ") " + where(); });
                R.count("cells trimmed in one model only"); continue;
            }
            if (x->second.trimmed) {
                R.count(same ? "renumbered trimmed cells" : "trimmed cells");
                const double dv = std::fabs(x->second.vol - y->second.vol) / cv, da = std::fabs(x->second.area - y->second.area) / (cd * cd);
                R.maxi("difference of trimmed volume", dv); R.maxi("difference of trimmed area", da);
                for (double z : { 1e-7, 1e-5, 1e-3 }) { if (dv > z) R.count("trimmed cells with volume difference above " + h::str(z)); if (da > z) R.count("trimmed cells with area difference above " + h::str(z)); }
                R.check(dv < .1, "trimmed-volume", [&] { return "cell " + h::str(id) + " volumes " + h::str(x->second.vol) + " and " + h::str(y->second.vol) + " " + where(); });
            }
            g::Moments M2 = y->second.M;
            if (ax[0] != 0) {// reorder
                size_t e = 0; const auto& p = t.opt.p; const auto& n = s.opt.p; M2.n = n;
                for (int z = 0; z <= p[2]; ++z) for (int yy = 0; yy <= p[1]; ++yy) for (int xx = 0; xx <= p[0]; ++xx) { std::array<int, 3> o{}; o[ax[0]] = xx; o[ax[1]] = yy; o[ax[2]] = z; M2.m[size_t(o[0] + (n[0] + 1) * (o[1] + (n[1] + 1) * o[2]))] = y->second.M.m[e++]; }
            }
            const double df = q::reldiff(x->second.M, M2);
            if (!x->second.trimmed) {
                R.count("full cells");
                const bool ggq = s.opt.method == IntegrationMethod::ggq_optimal || s.opt.method == IntegrationMethod::ggq_reduced_1 || s.opt.method == IntegrationMethod::ggq_reduced_2;
                if (ggq && ax[0] != 0) { R.count("full cells with other runs"); continue; }// rows of cells are bundled along other axes
                R.check(df < (ggq ? 1e-7 : 1e-10) && x->second.points == y->second.points, "full-cell", [&] { return "cell " + h::str(id) + " moments differ by " + h::str(df) + " " + where(); });
            } else {
                R.maxi(same ? "moment difference of renumbered meshes" : "moment difference", df);
                for (double z : { 1e-8, 1e-6, 1e-4 }) if (df > z) R.count(std::string(same ? "renumbered " : "") + "trimmed cells with moment difference above " + h::str(z));
                R.check(df < .1, "trimmed-cell", [&] { return "cell " + h::str(id) + " moments differ by " + h::str(df) + " " + where(); });
            }
        }
        R.count("cells of another kind", double(diff));
        // condition: the pieces are grouped by the cell that holds their centre; in cell faces the choice may differ by rounding
        const double ar = [&] { double z = 0; for (size_t i = 0; i < surf.t.size(); ++i) z += .5 * g::norm(surf.an(i)); return z; }();
        R.check(std::fabs(A.seg_area - B.seg_area) <= 1e-7 * ar, "condition-area", [&] { return h::str(A.seg_area) + " and " + h::str(B.seg_area) + " " + where(); });
        double sd = 0;
        auto cmp = [&](const Digest& x, const Digest& y) { for (auto& [key, v] : x.segments) { auto f = y.segments.find(key); const double z = f == y.segments.end() ? 0 : f->second[0]; sd += std::fabs(v[0] - z); } };
        cmp(A, B); cmp(B, A);
        R.count("segments", double(A.segments.size()));
        if (sd > 1e-6 * ar) R.count((same ? "conditions of renumbered meshes distributed differently" : "conditions distributed differently"));
        R.count("conditions");
        if (!A.cells.empty()) R.nontrivial(r.next());
        R.sample(where());
        (void)c;
    });
}
