// C22 (native interface): random histories on settings and info dictionaries against a typed model.
#include <functional>
#include <optional>
#include <variant>
#include "h.hpp"
#include "queso/includes/dereference_iterator.hpp"
#include "queso/includes/dictionary_factory.hpp"
using namespace queso;
namespace {
using Dict = Dictionary<key::MainValuesTypeTag>;
using SA = DictionaryStringAccess<Dict>;
using Factory = DictionaryFactory<key::MainValuesTypeTag>;
using Val = std::variant<std::monostate, PointType, Vector3i, bool, double, IndexType, std::string, IntegrationMethod, GridType>;

double dbl(h::Rng& r) { return r.p(.3) ? double(r.i(-9, 9)) : (r.p(.5) ? -1 : 1) * r.u(1, 10) * std::pow(10.0, r.i(-300, 300)); }
template<class T> T make(h::Rng& r) {
    if constexpr (std::is_same_v<T, PointType>) return PointType{ dbl(r), dbl(r), dbl(r) };
    else if constexpr (std::is_same_v<T, Vector3i>) return Vector3i{ r.next() >> r.i(0, 63), r.next() >> r.i(0, 63), r.next() >> r.i(0, 63) };
    else if constexpr (std::is_same_v<T, bool>) return r.p(.5);
    else if constexpr (std::is_same_v<T, double>) return dbl(r);
    else if constexpr (std::is_same_v<T, IndexType>) return IndexType(r.next() >> r.i(0, 63));
    else if constexpr (std::is_same_v<T, std::string>) { std::string s; for (int n = r.i(0, 40); n--;) s += char(r.i(0, 255)); return s; }
    else if constexpr (std::is_same_v<T, IntegrationMethod>) return IntegrationMethod(r.i(0, 5));
    else return GridType(r.i(0, 1));
}
bool same(const Val& a, const Val& b) {
    if (a.index() != b.index()) return false;
    if (auto p = std::get_if<PointType>(&a)) { auto& q = std::get<PointType>(b); return (*p)[0] == q[0] && (*p)[1] == q[1] && (*p)[2] == q[2]; }
    if (auto p = std::get_if<Vector3i>(&a)) { auto& q = std::get<Vector3i>(b); return (*p)[0] == q[0] && (*p)[1] == q[1] && (*p)[2] == q[2]; }
    return std::visit([&](auto& x) -> bool { using T = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<T, PointType> || std::is_same_v<T, Vector3i>) return false; else return x == std::get<T>(b); }, a);
}
template<class F> bool throws(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

struct Slot {
    std::string name; int part; bool required; Val val;// val: what must be there
    std::function<Val(Dict&, h::Rng&, bool)> set;// by key or by name
    std::function<Val(const Dict&, bool)> get;// typed access (required access if checked); monostate: not set
    std::function<bool(const Dict&)> isset;
    std::function<bool(const Dict&)> refuses_unchecked;// required value before CheckRequired
    std::function<int(Dict&, h::Rng&)> wrong;// number of wrong-type accesses that are not refused
    std::function<bool(Dict&, h::Rng&)> foreign;// key of another dictionary is refused
};
template<class T, class K> Slot slot(int part, const K& key, bool req, Val def) {
    Slot s; s.name = std::string(key.Name()); s.part = part; s.required = req; s.val = def;
    s.set = [key, n = s.name](Dict& d, h::Rng& r, bool byname) -> Val {
        const T v = make<T>(r);
        if (byname) SA::SetValue(d, n, v); else d.SetValue(key, v);
        return v;
    };
    s.get = [key, n = s.name](const Dict& d, bool byname) -> Val {
        if (byname) return SA::template GetValue<T>(d, n);
        if constexpr (K::msIsRequired) return d.GetRequiredValue<T>(key);
        else { auto o = d.TryGetValue<T>(key); if (!o) return std::monostate{}; return o->get(); }
    };
    s.isset = [key](const Dict& d) { return d.IsSet(key); };
    s.refuses_unchecked = [key](const Dict& d) { if constexpr (K::msIsRequired) return throws([&] { d.GetRequiredValue<T>(key); }); else return true; };
    s.wrong = [n = s.name](Dict& d, h::Rng& r) {
        int bad = 0;
        auto one = [&]<class U>(U) {
            if constexpr (!std::is_same_v<U, T>) {
                if (!throws([&] { SA::template GetValue<U>(d, n); })) ++bad;
                constexpr bool widened = (std::is_same_v<U, IndexType> && std::is_same_v<T, double>) || (std::is_same_v<U, Vector3i> && std::is_same_v<T, PointType>);
                if (!widened && !throws([&] { SA::SetValue(d, n, make<U>(r)); })) ++bad;
            }
        };
        one(PointType{}); one(Vector3i{}); one(bool{}); one(double{}); one(IndexType{}); one(std::string{}); one(IntegrationMethod{}); one(GridType{});
        if constexpr (std::is_same_v<T, IndexType>) { if (!throws([&] { SA::SetValue(d, n, -1 - r.i(0, 1000)); })) ++bad; }
        return bad;
    };
    s.foreign = [key](Dict& other, h::Rng& r) { return throws([&] { other.SetValue(key, make<T>(r)); }) && throws([&] { (void)other.IsSet(key); }); };
    return s;
}
struct Top { Unique<Dict> d; std::vector<Slot> slots; std::function<Dict&(int)> part; int parts; };

#define REQ(i, S, k, T, D) t.slots.push_back(slot<T>(i, S::k, true, D))
#define OPT(i, S, k, T) t.slots.push_back(slot<T>(i, S::k, false, Val{}))
const Val none{};
std::vector<Slot> condition_slots() {
    Top t;
    REQ(0, ConditionSettings, condition_id, IndexType, none); OPT(0, ConditionSettings, condition_type, std::string); REQ(0, ConditionSettings, input_filename, std::string, none);
    OPT(0, ConditionSettings, modulus, double); OPT(0, ConditionSettings, direction, PointType); OPT(0, ConditionSettings, value, PointType); OPT(0, ConditionSettings, penalty_factor, double);
    return std::move(t.slots);
}
Top settings() {
    Top t; t.d = Factory::Create("Settings"); t.parts = 4;
    t.part = [p = t.d.get()](int i) -> Dict& {
        switch (i) { case 0: return (*p)[MainSettings::general_settings]; case 1: return (*p)[MainSettings::background_grid_settings];
        case 2: return (*p)[MainSettings::trimmed_quadrature_rule_settings]; default: return (*p)[MainSettings::non_trimmed_quadrature_rule_settings]; } };
    REQ(0, GeneralSettings, input_filename, std::string, none); REQ(0, GeneralSettings, output_directory_name, std::string, std::string("queso_output"));
    REQ(0, GeneralSettings, echo_level, IndexType, IndexType(1)); REQ(0, GeneralSettings, write_output_to_file, bool, true);
    REQ(1, BackgroundGridSettings, grid_type, GridType, none); REQ(1, BackgroundGridSettings, lower_bound_xyz, PointType, none); REQ(1, BackgroundGridSettings, upper_bound_xyz, PointType, none);
    REQ(1, BackgroundGridSettings, lower_bound_uvw, PointType, none); REQ(1, BackgroundGridSettings, upper_bound_uvw, PointType, none);
    REQ(1, BackgroundGridSettings, polynomial_order, Vector3i, none); REQ(1, BackgroundGridSettings, number_of_elements, Vector3i, none);
    REQ(2, TrimmedQuadratureRuleSettings, moment_fitting_residual, double, 1e-10); REQ(2, TrimmedQuadratureRuleSettings, min_element_volume_ratio, double, 1e-3);
    REQ(2, TrimmedQuadratureRuleSettings, min_num_boundary_triangles, IndexType, IndexType(100)); REQ(2, TrimmedQuadratureRuleSettings, neglect_elements_if_stl_is_flawed, bool, true);
    OPT(2, TrimmedQuadratureRuleSettings, activate_fictitious_domain_with_alpha, double);
    REQ(3, NonTrimmedQuadratureRuleSettings, integration_method, IntegrationMethod, IntegrationMethod::gauss);
    return t;
}
Top info() {
    Top t; t.d = Factory::Create("ModelInfo"); t.parts = 7;
    t.part = [p = t.d.get()](int i) -> Dict& {
        auto& e = (*p)[MainInfo::elapsed_time_info];
        switch (i) { case 0: return (*p)[MainInfo::embedded_geometry_info]; case 1: return (*p)[MainInfo::quadrature_info]; case 2: return (*p)[MainInfo::background_grid_info]; case 3: return e;
        case 4: return e[ElapsedTimeInfo::volume_time_info]; case 5: return e[ElapsedTimeInfo::conditions_time_info]; default: return e[ElapsedTimeInfo::write_files_time_info]; } };
    REQ(0, EmbeddedGeometryInfo, is_closed, bool, none); REQ(0, EmbeddedGeometryInfo, volume, double, none);
    REQ(1, QuadratureInfo, represented_volume, double, none); REQ(1, QuadratureInfo, percentage_of_geometry_volume, double, none); REQ(1, QuadratureInfo, tot_num_points, IndexType, none);
    REQ(1, QuadratureInfo, num_of_points_per_full_element, double, none); REQ(1, QuadratureInfo, num_of_points_per_trimmed_element, double, none);
    REQ(2, BackgroundGridInfo, num_active_elements, IndexType, none); REQ(2, BackgroundGridInfo, num_trimmed_elements, IndexType, none); REQ(2, BackgroundGridInfo, num_full_elements, IndexType, none); REQ(2, BackgroundGridInfo, num_inactive_elements, IndexType, none);
    REQ(3, ElapsedTimeInfo, total, double, 0.0); REQ(4, VolumeTimeInfo, total, double, 0.0); REQ(4, VolumeTimeInfo, classification_of_elements, double, 0.0); REQ(4, VolumeTimeInfo, computation_of_intersections, double, 0.0);
    REQ(4, VolumeTimeInfo, solution_of_moment_fitting_eqs, double, 0.0); REQ(4, VolumeTimeInfo, construction_of_ggq_rules, double, 0.0);
    REQ(5, ConditionsTimeInfo, total, double, 0.0); REQ(6, WriteFilesTimeInfo, total, double, 0.0);
    return t;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args&, long, h::Rng& r, h::Report& R) {
        const bool st = r.p(.6);
        Top t = st ? settings() : info();
        std::vector<std::pair<Dict*, std::vector<Slot>>> conds;
        uint64_t hash = st;
        // everything as the model says, by key and by name; required values are refused as long as CheckRequired has not passed
        std::vector<bool> checked(size_t(t.parts), false);
        auto look = [&](Dict& d, std::vector<Slot>& slots, int part, bool chk, const char* when) {
            for (auto& s : slots) {
                if (s.part != part) continue;
                const bool set = s.val.index() != 0;
                R.check(s.isset(d) == set && SA::IsSet(d, s.name) == set, "isset", [&] { return std::string(when) + ": IsSet(" + s.name + ") is wrong"; });
                if (set) R.check(same(s.get(d, true), s.val), "value", [&] { return std::string(when) + ": " + s.name + " changed"; });
                else R.check(throws([&] { s.get(d, true); }), "unset-readable", [&] { return std::string(when) + ": " + s.name + " is not set but can be read"; });
                if (!s.required) R.check(same(s.get(d, false), s.val), "value", [&] { return std::string(when) + ": " + s.name + " (optional) differs"; });
                else if (chk) R.check(set && same(s.get(d, false), s.val), "value", [&] { return std::string(when) + ": " + s.name + " (required) differs"; });
                else R.check(s.refuses_unchecked(d), "unchecked-readable", [&] { return std::string(when) + ": required value " + s.name + " is readable without check"; });
            }
        };
        auto all = [&](const char* when) { for (int i = 0; i < t.parts; ++i) look(t.part(i), t.slots, i, checked[size_t(i)], when); for (auto& c : conds) look(*c.first, c.second, 0, false, when); };
        all("fresh");
        const int ops = r.i(3, 40);
        const bool fill = r.p(.4);// aims at a complete dictionary
        for (int o = 0; o < ops || fill; ++o) {
            if (fill && o >= ops) {
                Slot* m = nullptr;
                for (auto& s : t.slots) if (s.required && s.val.index() == 0) { m = &s; break; }
                if (!m) break;
                m->val = m->set(t.part(m->part), r, r.p(.3));
                R.count("values set");
                continue;
            }
            auto& s = t.slots[r.next() % t.slots.size()];
            Dict& d = t.part(s.part);
            const double u = r.u();
            hash = h::mix(hash, r.s);
            if (u < .45) { s.val = s.set(d, r, r.p(.4)); R.count("values set"); }
            else if (u < .7) {
                const int bad = s.wrong(d, r);
                R.check(bad == 0, "wrong-type", [&] { return s.name + ": " + h::str(bad) + " accesses with a wrong type are not refused"; });
                R.count("wrong types refused");
            } else if (u < .8) {
                const int other = (s.part + 1 + r.i(0, t.parts - 2)) % t.parts;
                R.check(s.foreign(t.part(other), r), "foreign-key", [&] { return s.name + " is accepted by another dictionary"; });
                R.count("foreign keys refused");
            } else if (u < .9) {
                std::string n = r.pick(std::vector<std::string>{ "", s.name + " ", s.name.substr(1), "x", "general_settings", "conditions_settings_list" });
                R.check(throws([&] { SA::SetValue(d, n, IndexType(1)); }) && throws([&] { SA::GetValue<double>(d, n); }) && throws([&] { (void)SA::IsSet(d, n); }) && throws([&] { SA::GetList(d, n); }), "unknown-key", [&] { return "unknown key " + n + " is not refused"; });
                R.check(!SA::Has(d, n) || (!st && s.part == 3), "unknown-key", [&] { return "Has(" + n + ")"; });
                R.check(throws([&] { SA::GetSubDictionary(d, n); }) && throws([&] { SA::GetSubDictionary(*t.d, n + "_"); }), "unknown-key", [&] { return "unknown dictionary " + n + " is not refused"; });
                R.check(SA::Has(d, s.name), "has", [&] { return "Has(" + s.name + ") is false"; });
                R.count("unknown keys refused");
            } else if (st) {
                auto& list = t.d->GetList(MainSettings::conditions_settings_list);
                list.push_back(Factory::Create("ConditionSettings"));
                conds.emplace_back(list.back().get(), condition_slots());
                for (auto& cs : conds.back().second) if (fill ? (cs.required || r.p(.5)) : r.p(.6)) cs.val = cs.set(*conds.back().first, r, r.p(.4));
                R.count("list entries");
            }
            all("history");
        }
        // the list as it is handed out: a range of dictionaries in the order of their creation
        if (st && !conds.empty()) {
            auto& list = t.d->GetList(MainSettings::conditions_settings_list);
            const auto range = dereference_range(list.begin(), list.end());
            const long n = long(conds.size());
            bool ok = range.end() - range.begin() == n;
            long pos = 0; for (auto& d : range) ok = ok && pos < n && &d == conds[size_t(pos)].first, ++pos;
            ok = ok && pos == n;
            auto it = range.begin(); pos = 0;
            for (int k = 0; k < 20 && ok; ++k) {
                const long to = r.i(0, int(n)), by = to - pos; const auto old = it; const long was = pos;
                switch (r.i(0, 6)) {
                case 0: it += by; break;
                case 1: it -= -by; break;
                case 2: it = it + by; break;
                case 3: it = by + it; break;
                case 4: it = it - (-by); break;
                case 5: while (pos < to) { auto x = it++; ok = ok && x - range.begin() == pos; ++pos; } while (pos > to) { auto x = it--; ok = ok && x - range.begin() == pos; --pos; } break;
                default: while (pos < to) { ++it; ++pos; } while (pos > to) { --it; --pos; }
                }
                pos = to;
                ok = ok && it - range.begin() == pos && it - old == pos - was && (it == old) == (pos == was) && (it != old) == (pos != was) && (it < old) == (pos < was) && (it <= old) == (pos <= was) && (it > old) == (pos > was) && (it >= old) == (pos >= was) && (it == range.end()) == (pos == n);
                if (pos < n) ok = ok && &*it == conds[size_t(pos)].first && it.operator->() == conds[size_t(pos)].first;
                const long e = r.i(0, int(n) - 1); ok = ok && &it[e - pos] == conds[size_t(e)].first;
                R.count("list steps");
            }
            R.check(ok, "list-order", [&] { return "list with " + std::to_string(n) + " entries, position " + std::to_string(pos); });
        }
        // completeness: refused if and only if a required value is missing, nothing changes
        bool complete = true;
        for (auto& s : t.slots) complete &= !s.required || s.val.index() != 0;
        for (auto& c : conds) for (auto& s : c.second) complete &= !s.required || s.val.index() != 0;
        const bool refused = throws([&] { t.d->CheckRequired(); });
        R.check(refused == !complete, "required", [&] { return complete ? std::string("complete dictionary refused") : std::string("missing required value not noticed"); });
        R.count(complete ? "complete dictionaries" : "incomplete dictionaries");
        if (complete) for (size_t i = 0; i < checked.size(); ++i) checked[i] = true;
        if (complete) {
            for (int i = 0; i < t.parts; ++i) look(t.part(i), t.slots, i, true, "checked");
            for (auto& c : conds) look(*c.first, c.second, 0, true, "checked");
            Dict moved(std::move(*t.d));// values stay
            t.d = MakeUnique<Dict>(std::move(moved));
            Top n = st ? settings() : info();
            auto at = st ? std::function<Dict&(int)>([p = t.d.get()](int i) -> Dict& {
                switch (i) { case 0: return (*p)[MainSettings::general_settings]; case 1: return (*p)[MainSettings::background_grid_settings]; case 2: return (*p)[MainSettings::trimmed_quadrature_rule_settings]; default: return (*p)[MainSettings::non_trimmed_quadrature_rule_settings]; } }) : std::function<Dict&(int)>();
            if (st) for (int i = 0; i < t.parts; ++i) look(at(i), t.slots, i, true, "moved");
        }
        R.nontrivial(hash);
        R.sample(std::string(st ? "settings" : "model info") + ", " + h::str(ops) + " operations, " + h::str(conds.size()) + " conditions, " + (complete ? "complete" : "incomplete"));
    });
}
