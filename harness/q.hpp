// Bridges between plain meshes and the public API of the library.
#pragma once
#include "geom.hpp"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include "queso/containers/element_core.hpp"
#include "queso/includes/dictionary_factory.hpp"
namespace q {
using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;
inline Vector3d vd(const g::V& a) { return Vector3d{ a[0], a[1], a[2] }; }
inline g::V gv(const Vector3d& a) { return { a[0], a[1], a[2] }; }
inline TriangleMesh to(const g::Mesh& m) {
    TriangleMesh o{};
    o.Reserve(m.t.size());
    for (auto& p : m.v) o.AddVertex(vd(p));
    for (size_t k = 0; k < m.t.size(); ++k) {
        g::V n = m.an(k);
        const double l = g::norm(n);
        if (l > 0) n = (1.0 / l) * n;
        o.AddTriangle(Vector3i{ m.t[k][0], m.t[k][1], m.t[k][2] }, vd(n));
    }
    return o;
}
template<class TView> inline g::Mesh from(const TView& mesh) {
    g::Mesh o;
    for (IndexType i = 0; i < mesh.NumOfTriangles(); ++i) {
        const auto t = mesh.template Triangle<WithNormals>(i);
        const size_t a = o.add({ t.P1[0], t.P1[1], t.P1[2] }), b = o.add({ t.P2[0], t.P2[1], t.P2[2] }), c = o.add({ t.P3[0], t.P3[1], t.P3[2] });
        o.tri(a, b, c);
    }
    return o;
}
struct Opt {
    std::array<int, 3> p{ 2, 2, 2 };
    IntegrationMethod method = IntegrationMethod::gauss;
    double residual = 1e-10;
    double min_ratio = 1e-3;
    size_t min_tri = 100;
    bool neglect = true;
    double alpha = -1;
};
inline void fill(Dict& s, const g::Grid& gr, const Opt& o) {
    auto& gen = s[MainSettings::general_settings];
    gen.SetValue(GeneralSettings::input_filename, std::string("dummy.stl"));
    gen.SetValue(GeneralSettings::echo_level, IndexType(0));
    gen.SetValue(GeneralSettings::write_output_to_file, false);
    auto& b = s[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::grid_type, gr.spline ? GridType::b_spline_grid : GridType::hexahedral_fe_grid);
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, vd(gr.lo));
    b.SetValue(BackgroundGridSettings::upper_bound_xyz, vd(gr.up));
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, vd(gr.ulo));
    b.SetValue(BackgroundGridSettings::upper_bound_uvw, vd(gr.uup));
    b.SetValue(BackgroundGridSettings::polynomial_order, Vector3i{ IndexType(o.p[0]), IndexType(o.p[1]), IndexType(o.p[2]) });
    b.SetValue(BackgroundGridSettings::number_of_elements, Vector3i{ IndexType(gr.n[0]), IndexType(gr.n[1]), IndexType(gr.n[2]) });
    auto& t = s[MainSettings::trimmed_quadrature_rule_settings];
    t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, o.residual);
    t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, o.min_ratio);
    t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, IndexType(o.min_tri));
    t.SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, o.neglect);
    if (o.alpha >= 0) t.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, o.alpha);
    s[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, o.method);
}
inline Unique<Dict> settings(const g::Grid& gr, const Opt& o) {
    auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    fill(*p, gr, o);
    p->CheckRequired();
    return p;
}
inline ElementBounds bounds(const g::Grid& gr, size_t id) {
    auto [lo, up] = gr.cell(id);
    auto c = gr.ijk(id);
    g::V a = gr.ulo, b = gr.uup;
    if (gr.spline) for (int i = 0; i < 3; ++i) {
        const double du = (gr.uup[i] - gr.ulo[i]) / gr.n[i];
        a[i] = gr.ulo[i] + du * c[i]; b[i] = gr.ulo[i] + du * (c[i] + 1);
    }
    return ElementBounds{ MakeBox(vd(lo), vd(up)), MakeBox(vd(a), vd(b)) };
}
}// namespace q
