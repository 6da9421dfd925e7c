// C04: the model information is true of the model.
#include <filesystem>
#include <iostream>
#include "model.hpp"
using namespace queso;
using Flt = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>::ElementFilter;
struct Quiet {// swallow the library's console output
    std::ostringstream o; std::streambuf* b;
    Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(b); }
};
static std::vector<double> times(const q::Dict& info) {
    const auto& e = info[MainInfo::elapsed_time_info];
    e.CheckRequired();
    std::vector<double> t{ e.GetRequiredValue<double>(ElapsedTimeInfo::total) };
    const auto &v = e[ElapsedTimeInfo::volume_time_info], &c = e[ElapsedTimeInfo::conditions_time_info], &w = e[ElapsedTimeInfo::write_files_time_info];
    v.CheckRequired(); c.CheckRequired(); w.CheckRequired();
    for (double x : { v.GetRequiredValue<double>(VolumeTimeInfo::total), v.GetRequiredValue<double>(VolumeTimeInfo::classification_of_elements), v.GetRequiredValue<double>(VolumeTimeInfo::computation_of_intersections),
                      v.GetRequiredValue<double>(VolumeTimeInfo::solution_of_moment_fitting_eqs), v.GetRequiredValue<double>(VolumeTimeInfo::construction_of_ggq_rules),
                      c.GetRequiredValue<double>(ConditionsTimeInfo::total), w.GetRequiredValue<double>(WriteFilesTimeInfo::total) })
        t.push_back(x);
    return t;
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(r.p(.6) ? 1 : r.i(2, 6));
        q::Scene s = q::scene(r, int(a.num("maxn", 5)), 2, 1, -1, r.p(.25));
        if (a.num("scales", 0)) q::rescale(r, s, a.num("least", -2.5), a.num("most", 4.5));
        s.opt.min_tri = 1;
        const bool open = r.p(.12) && s.mesh.t.size() > 8;
        if (open) s.mesh.t.erase(s.mesh.t.begin() + r.i(0, int(s.mesh.t.size()) - 1));
        const auto tri = q::to(s.mesh);
        auto st = q::settings(s.grid, s.opt);
        const bool write = r.p(.3);
        const std::string dir = a.tmp + "/c04out";
        auto& gen = (*st)[MainSettings::general_settings];
        gen.SetValue(GeneralSettings::echo_level, IndexType(r.p(.7) ? 0 : r.i(1, 3)));
        gen.SetValue(GeneralSettings::write_output_to_file, write);
        gen.SetValue(GeneralSettings::output_directory_name, dir);
        std::filesystem::create_directories(dir);
        Quiet quiet;
        auto model = EmbeddedModel::Create(std::move(st));
        const q::Dict& info = model.GetModelInfo();
        auto where = [&] { return std::string(open ? "open " : "") + s.str(); };
        auto t0 = times(info);
        R.check(t0[0] >= 0, "initial-time", where);
        double least = 0;
        auto clock = [&](const char* what, double dt_wall) {
            const auto t = times(info);
            for (double x : t) R.check(std::isfinite(x) && x >= 0, "negative-time", [&] { return std::string(what) + " " + h::vec(t) + " " + where(); });
            R.check(t[0] >= least, "total-time-decreases", [&] { return std::string(what) + " " + h::vec(t) + " after " + h::str(least) + " " + where(); });
            R.check(t[0] <= t0[0] + dt_wall + 1e-3, "total-time-too-large", [&] { return std::string(what) + " total " + h::str(t[0]) + " wall " + h::str(dt_wall); });
            least = t[0];
            return t;
        };
        const double w0 = omp_get_wtime();
        model.CreateVolume(tri.View());
        const auto tv = clock("volume", omp_get_wtime() - w0);
        R.check(tv[1] > 0 && tv[0] >= tv[1] && tv[2] <= tv[1], "volume-time", [&] { return h::vec(tv); });
        const double vol = s.mesh.volume();
        auto [blo, bup] = s.mesh.box();
        const double L = g::norm(bup - blo) + g::norm(blo), vt = 1e-11 * L * L * L;
        auto volume_info = [&] {
            const auto& gi = info[MainInfo::embedded_geometry_info];
            gi.CheckRequired();
            if (!open) {
                const double v = gi.GetRequiredValue<double>(EmbeddedGeometryInfo::volume);
                R.check(std::fabs(v - vol) <= vt, "geometry-volume", [&] { return h::str(v) + " is " + h::str(vol) + " " + where(); });
            }
            const bool c = gi.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed);
            R.check(c == !open, "is-closed", [&] { return std::string(c ? "closed " : "open ") + where(); });
            size_t act = 0, trm = 0, pf = 0, pt = 0;
            double rep = 0;
            for (const auto& e : model.GetElementViews()) {
                ++act;
                const auto g = q::global_points(e);
                for (auto& p : g) rep += p.w;
                if (e.IsTrimmed()) { ++trm; pt += g.size(); } else pf += g.size();
            }
            size_t n2 = 0, n3 = 0;
            for (const auto& e : model.GetElementViews<Flt::trimmed>()) { (void)e; ++n2; }
            for (const auto& e : model.GetElementViews<Flt::untrimmed>()) { (void)e; ++n3; }
            R.check(n2 == trm && n3 == act - trm, "filters", where);
            const auto& b = info[MainInfo::background_grid_info];
            b.CheckRequired();
            auto N = [&](auto k) { return size_t(b.GetRequiredValue<IndexType>(k)); };
            const std::vector<size_t> got{ N(BackgroundGridInfo::num_active_elements), N(BackgroundGridInfo::num_trimmed_elements), N(BackgroundGridInfo::num_full_elements), N(BackgroundGridInfo::num_inactive_elements) },
                want{ act, trm, act - trm, s.grid.size() - act };
            R.check(got == want, "element-counts", [&] { return h::vec(got) + " is " + h::vec(want) + " " + where(); });
            const auto& qi = info[MainInfo::quadrature_info];
            qi.CheckRequired();
            const size_t np = qi.GetRequiredValue<IndexType>(QuadratureInfo::tot_num_points);
            R.check(np == pf + pt, "point-count", [&] { return h::str(np) + " is " + h::str(pf + pt) + " " + where(); });
            const std::vector<double> qd{ qi.GetRequiredValue<double>(QuadratureInfo::represented_volume), qi.GetRequiredValue<double>(QuadratureInfo::percentage_of_geometry_volume),
                                          qi.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_full_element), qi.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_trimmed_element) },
                qw{ rep, rep / (open ? gi.GetRequiredValue<double>(EmbeddedGeometryInfo::volume) : vol) * 100, act > trm ? double(pf) / double(act - trm) : 0, trm ? double(pt) / double(trm) : 0 };
            for (size_t i = 0; i < 4; ++i)
                R.check(std::fabs(qd[i] - qw[i]) <= 1e-8 * (std::fabs(qw[i]) + (i == 0 ? vt : 0)), "quadrature-info", [&] { return h::vec(qd) + " is " + h::vec(qw) + " " + where(); });
            R.count("active cells", double(act)); R.count("trimmed cells", double(trm)); R.count("full cells", double(act - trm));
            R.count("points", double(np));
            if (act) R.nontrivial(h::mix(act, np));
        };
        volume_info();
        R.count(open ? "open bodies" : "closed bodies");
        const int nc = r.i(0, 3);
        std::vector<g::Mesh> surf;
        std::vector<Unique<q::Dict>> cs;
        std::vector<size_t> ids;
        for (int c = 0; c < nc; ++c) {
            surf.push_back(q::surface(r, s));
            cs.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
            ids.push_back(size_t(r.i(0, 1000)));
            cs.back()->SetValue(ConditionSettings::condition_id, IndexType(ids.back()));
            cs.back()->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
            cs.back()->CheckRequired();
            const auto t = q::to(surf.back());
            const double ct = times(info)[6], tt = times(info)[0];
            model.CreateCondition(t.View(), *cs.back());
            const auto n = clock("condition", omp_get_wtime() - w0);
            R.check(n[6] >= ct && std::fabs((n[6] - ct) - (n[0] - tt)) <= 1e-9, "condition-time", [&] { return h::vec(n) + " after " + h::str(ct) + " " + h::str(tt); });
        }
        if (write) {
            model.WriteModelToFile();
            const auto n = clock("write", omp_get_wtime() - w0);
            R.check(n[7] > 0, "write-time", [&] { return h::vec(n); });
            R.check(std::filesystem::exists(dir + "/model_info.json"), "model-info-file", where);
            R.count("written models");
        }
        volume_info();// nothing of the volume's information has changed
        const auto& list = info.GetList(MainInfo::conditions_infos_list);
        R.check(list.size() == size_t(nc) && model.GetConditions().size() == size_t(nc), "number-of-condition-infos", [&] { return h::str(list.size()) + " of " + h::str(nc); });
        size_t c = 0;
        for (const auto& cond : model.GetConditions()) {
            const q::Dict& ci = *list[c];
            ci.CheckRequired();
            auto at = [&] { return "condition " + h::str(c) + " " + g::describe(surf[c]) + " " + where(); };
            R.check(&cond.GetInfo() == &ci || cond.GetInfo().GetRequiredValue<double>(ConditionInfo::surf_area) == ci.GetRequiredValue<double>(ConditionInfo::surf_area), "condition-info-order", at);
            R.check(ci.GetRequiredValue<IndexType>(ConditionInfo::condition_id) == ids[c], "condition-id", at);
            const double A = ci.GetRequiredValue<double>(ConditionInfo::surf_area), W = surf[c].area();
            R.check(std::fabs(A - W) <= 1e-10 * W, "surface-area", [&] { return h::str(A) + " is " + h::str(W) + " " + at(); });
            double in = 0;
            for (const auto& seg : cond.GetSegments()) if (seg.IsInActiveElement()) in += q::from(seg.GetTriangleMesh()).area();
            const double P = ci.GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain);
            R.check(std::fabs(P - in / W * 100) <= 1e-6, "surface-percentage", [&] { return h::str(P) + " is " + h::str(in / W * 100) + " " + at(); });
            R.check(P >= 0 && P <= 100 + 1e-4, "surface-percentage-range", [&] { return h::str(P) + " " + at(); });
            R.count(P > 99.999 ? "conditions fully active" : P > 0 ? "conditions partly active" : "conditions inactive");
            ++c;
        }
        R.sample(where() + " conditions=" + h::str(nc));
    });
}
