// C12: the element container against a plain map, after random insertion histories.
#include "model.hpp"
#include "queso/embedding/brep_operator.h"
#include <numeric>
using namespace queso;
using BG = EmbeddedModel::BackgroundGridType;
using F = BG::ElementFilter;
struct UB { using ElementType = BG::UntrimmedElementType; static constexpr F Builds = F::untrimmed; int calls = 0; double w = 0;
    std::optional<ElementType> Build(IndexType Id, const ElementBounds& b) { ++calls; if (w == 0) return std::nullopt; ElementType e(Id, b); e.GetIntegrationPoints().emplace_back(0.5, 0.5, 0.5, w); return e; } };
struct TB { using ElementType = BG::TrimmedElementType; static constexpr F Builds = F::trimmed; int calls = 0; double w = 0; const BRepOperator* op = nullptr;
    std::optional<ElementType> Build(IndexType Id, const ElementBounds& b) { ++calls; if (w == 0) return std::nullopt;
        auto d = op->pGetTrimmedDomain(PointType{ -.7, -.7, -.7 }, PointType{ .1, .1, .1 }, 1e-3, 1, true);
        if (!d) throw std::runtime_error("harness: no trimmed domain");
        ElementType e(Id, b, std::move(*d)); e.GetIntegrationPoints().emplace_back(0.5, 0.5, 0.5, w); return e; } };
int main(int argc, char** argv) {
    static const auto ball = q::to(g::sphere(6, 5));
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        const bool large = a.num("large", 0);
        BRepOperator op(ball.View());
        g::Grid gr;
        for (int i = 0; i < 3; ++i) { gr.n[i] = large ? r.i(45, 60) : r.p(.3) ? 1 : r.i(1, 5); gr.lo[i] = r.u(-1, 1); gr.up[i] = gr.lo[i] + r.u(.5, 3); gr.ulo[i] = r.u(-2, 2); gr.uup[i] = gr.ulo[i] + r.u(.5, 5); }
        gr.spline = r.p(.5);
        auto S = q::settings(gr, q::Opt{});
        BG bg(*S);
        const size_t N = gr.size();
        struct Ent { bool trimmed; double w; };
        std::map<size_t, Ent> model;
        UB ub; TB tb; tb.op = &op;
        const double fill = large || r.p(.2) ? 1 : r.u(0, 1);
        const double ptrim = large ? (c % 4 == 3 ? .95 : r.u(0, .05)) : r.p(.2) ? 0 : r.p(.2) ? 1 : r.u(0, 1);
        if (r.p(.5)) bg.ReserveElements(size_t(r.i(0, int(N))), size_t(r.i(0, int(N))));
        std::string log;
        const int nops = int(N * fill) + r.i(0, 6);
        int moved = 0;
        auto insert = [&](BG& G, size_t id) {
            const bool tr = r.p(ptrim);
            const double w = r.p(.1) ? 0 : r.u(.1, 1);
            const bool dup = model.count(id) > 0;
            bool thrown = false, ok = false;
            if (tr) tb.w = w; else ub.w = w;
            try { ok = tr ? G.MakeElement(tb, id, q::bounds(gr, id - 1)) : G.MakeElement(ub, id, q::bounds(gr, id - 1)); } catch (const std::runtime_error&) { throw; } catch (const std::exception&) { thrown = true; }
            R.count("insertions"); if (dup && w > 0) R.count("duplicate insertions"); if (w == 0) R.count("empty insertions");
            R.check(thrown == (dup && w > 0), "duplicate-refused", [&] { return gr.str() + " id " + std::to_string(id) + (thrown ? " refused" : " accepted"); });
            if (!thrown) R.check(ok == (w > 0), "insert-result", [&] { return gr.str(); });
            if (!dup && w > 0) model[id] = { tr, w };
        };
        if (large) { // every number once, in a random order
            std::vector<size_t> ids(N); std::iota(ids.begin(), ids.end(), size_t(1));
            for (size_t k = N - 1; k > 0; --k) std::swap(ids[k], ids[size_t(r.i(0, int(k)))]);
            for (size_t k : ids) insert(bg, k);
        }
        else for (int k = 0; k < nops; ++k) insert(bg, size_t(r.i(1, int(N))));
        BG bg2(std::move(bg)); ++moved;// containers are movable
        for (int k = 0; k < 3; ++k) insert(bg2, size_t(r.i(1, int(N))));
        // access before locking is refused in checked builds; lock, then compare everything
        bg2.LockElements();
        const BG& G = bg2;
        size_t nt = 0; for (auto& [k, e] : model) nt += e.trimmed;
        const std::string id = gr.str() + " elements " + std::to_string(model.size()) + " trimmed " + std::to_string(nt);
        R.sample(id); if (model.size() > 1) R.nontrivial(h::mix(a.seed, uint64_t(c)));
        R.check(G.NumberOfActiveElements() == model.size() && G.NumberOfTrimmedElements() == nt && G.NumberOfUntrimmedElements() == model.size() - nt, "counts", [&] { return id; });
        auto same = [&](const q::View& v, size_t k, const char* how) {
            auto it = model.find(k);
            if (!R.check(it != model.end(), "unknown-element", [&] { return id + " " + how + " id " + std::to_string(k); })) return;
            const auto b = q::bounds(gr, k - 1);
            const auto& ip = v.GetIntegrationPoints();
            R.check(v.GetId() == k && v.IsTrimmed() == it->second.trimmed && ip.size() == 1 && ip[0].Weight() == it->second.w, "wrong-element", [&] { return id + " " + how + " id " + std::to_string(k) + " got " + std::to_string(v.GetId()); });
            R.check(v.GetCellBounds<CoordinateSpace::global>().lower == b.global.lower && v.GetCellBounds<CoordinateSpace::parametric>().upper == b.parametric.upper, "wrong-bounds", [&] { return id + " " + how; });
        };
        // lookup of every number, present or not
        auto lookup = [&](size_t k) {
            auto it = model.find(k);
            const bool has = it != model.end();
            auto v = G.GetElementView<F::all>(k); auto t = G.GetElementView<F::trimmed>(k); auto u = G.GetElementView<F::untrimmed>(k);
            R.check(v.has_value() == has && t.has_value() == (has && it->second.trimmed) && u.has_value() == (has && !it->second.trimmed), "lookup", [&] { return id + " id " + std::to_string(k); });
            if (v) same(*v, k, "lookup"); if (t) same(*t, k, "lookup trimmed"); if (u) same(*u, k, "lookup untrimmed");
            auto* pt = bg2.pGetElement<F::trimmed>(k); auto* pu = bg2.pGetElement<F::untrimmed>(k);
            R.check((pt != nullptr) == t.has_value() && (pu != nullptr) == u.has_value(), "pointer-lookup", [&] { return id; });
            if (pt) R.check(pt->GetId() == k, "pointer-lookup", [&] { return id; });
            if (pu) R.check(pu->GetId() == k, "pointer-lookup", [&] { return id; });
        };
        for (size_t k = 0; k <= N + 2; ++k) lookup(k);
        // iteration
        auto iter = [&](auto&& range, int want, const char* how) {
            std::set<size_t> ids; size_t n = 0;
            for (const auto& v : range) { same(v, v.GetId(), how); ids.insert(v.GetId()); ++n; if (want >= 0) R.check(v.IsTrimmed() == (want == 1), "iteration-kind", [&] { return id + how; }); }
            const size_t ex = want < 0 ? model.size() : want == 1 ? nt : model.size() - nt;
            R.check(n == ex && ids.size() == n, "iteration", [&] { return id + " " + how + " visited " + std::to_string(n) + " of " + std::to_string(ex); });
        };
        iter(G.GetElementViews<F::all>(), -1, "all"); iter(G.GetElementViews<F::trimmed>(), 1, "trimmed"); iter(G.GetElementViews<F::untrimmed>(), 0, "untrimmed");
        R.check(G.GetElements<F::trimmed>().size() == nt && G.GetElements<F::untrimmed>().size() == model.size() - nt && bg2.GetElements<F::trimmed>().size() == nt && bg2.GetElements<F::untrimmed>().size() == model.size() - nt, "spans", [&] { return id; });
        // traversal from random cells and complete walks
        const GridIndexer gi(*S);
        for (auto dir : GridIndexer::GetDirections()) {
            size_t cur = (size_t(dir) % 2 == 0) ? 1 : N;
            for (size_t steps = 0; steps < N; ++steps) {
                const auto [nx, info] = gi.GetNextIndex(cur - 1, dir);
                auto chk = [&](auto&& res, bool present, const char* how) {
                    R.check(res.next_id == nx + 1, "next-id", [&] { return id + " " + how + " from " + std::to_string(cur) + " direction " + std::to_string(int(dir)) + " got " + std::to_string(res.next_id); });
                    R.check(res.is_end == (info != GridIndexer::IndexInfo::middle || !present), "next-end", [&] { return id + " " + how + " from " + std::to_string(cur) + " direction " + std::to_string(int(dir)); });
                };
                auto it = model.find(nx + 1);
                const bool has = it != model.end(), tr = has && it->second.trimmed;
                auto v = G.GetNextElementView<F::all>(cur, dir); chk(v, has, "all"); R.check(v.element.has_value() == has, "next-element", [&] { return id; }); if (v.element) same(*v.element, nx + 1, "next");
                auto vt = G.GetNextElementView<F::trimmed>(cur, dir); chk(vt, tr, "trimmed"); R.check(vt.element.has_value() == tr, "next-element", [&] { return id; });
                auto vu = G.GetNextElementView<F::untrimmed>(cur, dir); chk(vu, has && !tr, "untrimmed"); R.check(vu.element.has_value() == (has && !tr), "next-element", [&] { return id; });
                auto pt = bg2.GetNextElement<F::trimmed>(cur, dir); chk(pt, tr, "pointer trimmed"); R.check((pt.p_element != nullptr) == tr && (!tr || pt.p_element->GetId() == nx + 1), "next-element", [&] { return id; });
                auto pu = bg2.GetNextElement<F::untrimmed>(cur, dir); chk(pu, has && !tr, "pointer untrimmed"); R.check((pu.p_element != nullptr) == (has && !tr) && (!(has && !tr) || pu.p_element->GetId() == nx + 1), "next-element", [&] { return id; });
                R.check(G.IsEnd(cur, dir) == gi.IsEnd(cur - 1, dir), "is-end", [&] { return id; });
                R.count("steps");
                if (info == GridIndexer::IndexInfo::global_end) break;
                cur = nx + 1;
            }
        }
    });
}
