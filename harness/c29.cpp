// C29: what a model hands out stays valid and unchanged after the inputs are gone, temporaries have died and the model was moved.
#include <memory>
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
namespace {
constexpr auto GL = CoordinateSpace::global;
constexpr auto PA = CoordinateSpace::parametric;
using Model = EmbeddedModel;
using View = q::View;
using Cond = Model::ConditionType;
struct Hash {
    uint64_t s = 1469598103934665603ULL;
    void add(double x) { uint64_t b; std::memcpy(&b, &x, 8); s = (s ^ b) * 1099511628211ULL; s ^= s >> 29; }
    void add(const g::V& v) { for (double x : v) add(x); }
    template<class P> void pt(const P& p) { add(p[0]); add(p[1]); add(p[2]); }
    void mesh(const TriangleMesh& m) {
        add(double(m.NumOfTriangles()));
        for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle<WithNormals>(i); pt(t.P1); pt(t.P2); pt(t.P3); pt(t.Normal); }
    }
    template<class M> void view(const M& m) {
        add(double(m.NumOfTriangles()));
        for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.template Triangle<WithNormals>(i); pt(t.P1); pt(t.P2); pt(t.P3); }
    }
};
struct Handed {// everything that was handed out, collected at one time
    std::vector<View> views;
    std::vector<const Cond*> conds;
    std::vector<const TriangleMesh*> segs;
    std::vector<const std::vector<IntegrationPoint>*> ips;
    const q::Dict* settings = nullptr;
    const q::Dict* info = nullptr;
};
Handed collect(const Model& m) {
    Handed o;
    for (const auto& v : m.GetElementViews()) { o.views.push_back(v); o.ips.push_back(&v.template GetIntegrationPoints<PA>()); }
    for (const auto& c : m.GetConditions()) {
        o.conds.push_back(&c);
        for (const auto& s : c.GetSegments()) o.segs.push_back(&s.GetTriangleMesh());
    }
    o.settings = &m.GetSettings();
    o.info = &m.GetModelInfo();
    return o;
}
// One digest per kind of object, so that a difference says where it is.
std::map<std::string, uint64_t> digest(const Handed& o, const g::Grid& gr) {
    Hash e, gl, c, s, se, in;
    for (size_t i = 0; i < o.views.size(); ++i) {
        const auto& v = o.views[i];
        e.add(double(v.GetId())); e.add(v.DetJ()); e.add(v.IsTrimmed());
        e.pt(v.template GetCellBounds<GL>().lower); e.pt(v.template GetCellBounds<GL>().upper); e.pt(v.template GetCellBounds<PA>().lower); e.pt(v.template GetCellBounds<PA>().upper);
        for (const auto& p : *o.ips[i]) { e.pt(p); e.add(p.Weight()); }
        auto range = View(v).template GetIntegrationPoints<GL>();// of a view that is gone
        for (const auto& p : range) { gl.pt(p); gl.add(p.Weight()); }
    }
    for (auto* x : o.conds) {
        c.add(double(x->NumberOfSegments()));
        for (const auto& sg : x->GetSegments()) { c.add(sg.IsInActiveElement()); if (sg.GetParentElement()) { c.add(double(sg.GetParentElement()->GetId())); for (const auto& p : sg.GetParentElement()->template GetIntegrationPoints<GL>()) c.pt(p); } }
        c.add(double(x->GetSettings().template GetRequiredValue<IndexType>(ConditionSettings::condition_id)));
        x->GetInfo().CheckRequired();
        c.add(x->GetInfo().template GetRequiredValue<double>(ConditionInfo::surf_area));
    }
    for (auto* x : o.segs) s.mesh(*x);
    se.pt((*o.settings)[MainSettings::background_grid_settings].GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_xyz));
    for (char ch : (*o.settings)[MainSettings::general_settings].GetRequiredValue<std::string>(GeneralSettings::input_filename)) se.add(ch);
    (*o.info)[MainInfo::quadrature_info].CheckRequired(); (*o.info)[MainInfo::background_grid_info].CheckRequired();
    in.add((*o.info)[MainInfo::quadrature_info].GetRequiredValue<double>(QuadratureInfo::represented_volume));
    in.add(double((*o.info)[MainInfo::background_grid_info].GetRequiredValue<IndexType>(BackgroundGridInfo::num_active_elements)));
    for (const auto& p : o.info->GetList(MainInfo::conditions_infos_list)) { p->CheckRequired(); in.add(double(p->GetRequiredValue<IndexType>(ConditionInfo::condition_id))); in.add(p->GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain)); }
    (void)gr;
    return { { "elements", e.s }, { "global points", gl.s }, { "conditions", c.s }, { "segments", s.s }, { "settings", se.s }, { "model info", in.s } };
}
// The trimmed elements' geometry: boundary meshes, surface points, inside and intersection queries.
std::map<std::string, uint64_t> domains(const Model& m, uint64_t seed, h::Report& R) {
    Hash b, ip, q;
    h::Rng r(seed);
    auto one = [&](const auto& e) {
        const auto box = e.template GetActiveDomainBounds<GL>();
        q.pt(box.lower); q.pt(box.upper);
        b.view(e.GetActiveDomainBoundaryMesh());
        for (const auto& p : e.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, PA>()) { ip.pt(p); ip.pt(p.Normal()); ip.add(p.Weight()); }
        for (int k = 0; k < 3; ++k) {
            const g::V x{ r.u(box.lower[0], box.upper[0]), r.u(box.lower[1], box.upper[1]), r.u(box.lower[2], box.upper[2]) };
            q.add(e.template IsInsideActiveDomain<GL>(PointType{ x[0], x[1], x[2] }));
            q.add(double(e.template GetIntersectionState<GL>(PointType{ box.lower[0], box.lower[1], box.lower[2] }, PointType{ x[0], x[1], x[2] })));
        }
        R.count("domains queried");
    };
    for (const auto& e : m.GetElements<Model::BackgroundGridType::ElementFilter::trimmed>()) one(e);
    for (const auto& e : m.GetElements<Model::BackgroundGridType::ElementFilter::untrimmed>()) one(e);
    return { { "boundary meshes", b.s }, { "boundary points", ip.s }, { "domain queries", q.s } };
}
// Fills the memory that was just returned.
struct Scribble {
    std::vector<std::vector<double>> keep;
    void operator()(h::Rng& r, size_t n) {
        for (size_t s : { size_t(3), n, 3 * n, 9 * n, size_t(16), size_t(64), size_t(256) }) for (int i = 0; i < 4; ++i) keep.emplace_back(s + size_t(r.i(0, 3)), -7.77e77);
        if (keep.size() > 400) keep.clear();
    }
};
}// namespace
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(r.p(.7) ? 1 : r.i(2, 4));
        q::Scene s = q::scene(r, int(a.num("maxn", 4)), 2, 1);
        s.opt.min_tri = r.p(.5) ? 1 : 30;
        Scribble scribble;
        auto pm = std::make_unique<Model>(q::model(s));
        std::vector<Unique<q::Dict>> cs;
        std::string hist;
        const size_t nt = s.mesh.t.size();
        {
            auto ptri = std::make_unique<TriangleMesh>(q::to(s.mesh));
            if (r.p(.3)) { hist += "moved-before "; pm = std::make_unique<Model>(std::move(*pm)); scribble(r, nt); }
            pm->CreateVolume(ptri->View());
            if (r.p(.5)) { hist += "input-dropped "; ptri.reset(); scribble(r, nt); }
            const int nc = r.i(0, 3);
            for (int c = 0; c < nc; ++c) {
                auto pc = std::make_unique<TriangleMesh>(q::to(q::surface(r, s)));
                cs.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
                cs.back()->SetValue(ConditionSettings::condition_id, IndexType(c));
                cs.back()->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
                cs.back()->CheckRequired();
                if (r.p(.2)) { hist += "moved-between "; pm = std::make_unique<Model>(std::move(*pm)); scribble(r, nt); }
                pm->CreateCondition(pc->View(), *cs.back());
                pc.reset();
                scribble(r, nt);
            }
            const Handed h0 = collect(*pm);// while the input may still be alive
            const uint64_t seed = r.next();
            auto want = digest(h0, s.grid);
            auto dom = domains(*pm, seed, R);
            auto compare = [&](const std::map<std::string, uint64_t>& x, const std::map<std::string, uint64_t>& y, const char* key) {
                for (auto& [k, v] : x) R.check(y.at(k) == v, std::string(key) + ":" + k, [&] { return k + " differ after " + hist + "; " + s.str(); });
            };
            std::vector<std::unique_ptr<Model>> others;
            const int steps = r.i(2, 5);
            for (int st = 0; st < steps; ++st) {
                switch (r.i(0, 4)) {
                case 0: hist += "input-dropped "; ptri.reset(); break;
                case 1: {
                    hist += "moved ";
                    auto p2 = std::make_unique<Model>(std::move(*pm));
                    pm = std::move(p2);
                    break;
                }
                case 2: {
                    hist += "assigned ";
                    q::Scene t = q::scene(r, 2, 1, 1);
                    t.opt.min_tri = 1;
                    auto p2 = std::make_unique<Model>(q::model(t));
                    const auto mt = q::to(t.mesh);
                    if (r.p(.5)) p2->CreateVolume(mt.View());
                    *p2 = std::move(*pm);
                    pm = std::move(p2);
                    break;
                }
                case 3: {
                    hist += "container ";
                    std::vector<Model> v;
                    v.push_back(std::move(*pm));
                    for (int k = 0; k < 3; ++k) { q::Scene t = s; v.push_back(q::model(t)); }
                    pm = std::make_unique<Model>(std::move(v[0]));
                    break;
                }
                default: {
                    hist += "views-dropped ";
                    Handed tmp = collect(*pm);
                    auto range = pm->GetElementViews();
                    Hash x, y;
                    for (const auto& v : range) x.add(double(v.GetId()));
                    for (const auto& v : tmp.views) y.add(double(v.GetId()));
                    R.check(x.s == y.s, "element-range", [&] { return hist + s.str(); });
                    break;
                }
                }
                scribble(r, nt);
                compare(want, digest(h0, s.grid), "handed-out");
                compare(want, digest(collect(*pm), s.grid), "model");
                compare(dom, domains(*pm, seed, R), "model");
                R.count("steps");
            }
            R.count("elements", double(h0.views.size()));
            R.count("segments", double(h0.segs.size()));
            if (!h0.views.empty()) R.nontrivial(seed);
        }
        // The geometric operator: its products outlive operator and mesh.
        {
            auto ptri = std::make_unique<TriangleMesh>(q::to(s.mesh));
            auto op = std::make_unique<BRepOperator>(ptri->View());
            std::vector<decltype(op->pGetTrimmedDomain(PointType{}, PointType{}, 0.0, 1, true))> td;
            std::vector<decltype(op->ClipTriangleMeshUnique(PointType{}, PointType{}))> cm;
            std::vector<size_t> cell;
            for (size_t id = 0; id < s.grid.size() && td.size() < 6; ++id) {
                auto [lo, up] = s.grid.cell(id);
                if (op->GetIntersectionState(q::vd(lo), q::vd(up)) != IntersectionState::trimmed) continue;
                auto p = op->pGetTrimmedDomain(q::vd(lo), q::vd(up), s.opt.min_ratio, 1, true);
                if (p) { td.push_back(std::move(p)); cell.push_back(id); }
                cm.push_back(op->ClipTriangleMeshUnique(q::vd(lo), q::vd(up)));
            }
            auto dig = [&] {
                Hash x;
                size_t k = 0;
                for (auto& p : td) {
                    const auto bounds = q::bounds(s.grid, cell[k++]);
                    x.view(p->GetBoundaryMesh());
                    const auto b = p->GetBounds(bounds);
                    const PointType mid{ .5 * (b.lower[0] + b.upper[0]), .5 * (b.lower[1] + b.upper[1]), .5 * (b.lower[2] + b.upper[2]) };
                    x.pt(b.lower); x.pt(b.upper);
                    x.add(p->IsInside(mid));
                    x.add(double(p->GetIntersectionState(b.lower, mid, bounds)));
                }
                for (auto& p : cm) x.mesh(p.Mesh());
                return x.s;
            };
            const uint64_t before = dig();
            const int k = r.i(0, 2);
            if (k == 1) { ptri.reset(); op.reset(); } else { op.reset(); ptri.reset(); }
            scribble(r, nt);
            R.check(dig() == before, "operator-products", [&] { return "trimmed domains differ after the operator is gone; " + s.str(); });
            R.count("products of operators", double(td.size() + cm.size()));
        }
        R.sample(hist + s.str());
    });
}
