// C11: numbering of the grid, boxes of the cells, stepping.
#include "q.hpp"
#include "queso/containers/grid_indexer.hpp"
using namespace queso;
using GI = GridIndexer;
// Grids with very many cells: random cells instead of all, the same rules.
static void large(const h::Args& a, long c, h::Rng& r, h::Report& R) {
    g::Grid gr;
    const double top = r.p(.5) ? 4 : 6.2;// the product still fits into 63 bits
    for (int i = 0; i < 3; ++i) {
        gr.n[i] = r.p(.15) ? 1 : int(std::pow(10.0, r.u(0, top)));
        const double s = std::pow(10.0, r.u(-3, 3));
        gr.lo[i] = r.u(-10, 10) * s; gr.up[i] = gr.lo[i] + s * r.u(1, 5); gr.ulo[i] = r.u(-2, 2); gr.uup[i] = gr.ulo[i] + r.u(.1, 5);
    }
    gr.spline = true;
    auto S = q::settings(gr, q::Opt{});
    GI gi(*S);
    const size_t n[3] = { size_t(gr.n[0]), size_t(gr.n[1]), size_t(gr.n[2]) }, N = n[0] * n[1] * n[2];
    const std::string id = gr.str();
    R.nontrivial(h::mix(N, a.seed + uint64_t(c))); R.sample(id);
    R.check(gi.NumberOfElements() == N, "number-of-elements", [&] { return id; });
    auto pick = [&](size_t lo, size_t up) { return r.p(.2) ? lo : r.p(.2) ? up : lo + size_t(r.u(0, 1) * double(up - lo + 1)) % (up - lo + 1); };
    for (int it = 0; it < 200; ++it) {
        PartitionBoxType part{ Vector3i{ 0, 0, 0 }, Vector3i{ n[0] - 1, n[1] - 1, n[2] - 1 } };
        if (it % 2) for (size_t x = 0; x < 3; ++x) { const size_t A = pick(0, n[x] - 1), B = pick(0, n[x] - 1); part.first[x] = std::min(A, B); part.second[x] = std::max(A, B); }
        Vector3i t; for (size_t x = 0; x < 3; ++x) t[x] = pick(part.first[x], part.second[x]);
        const size_t v = (t[2] * n[1] + t[1]) * n[0] + t[0];
        const std::string ctx = id + " cell " + h::vec(t) + " partition " + h::vec(part.first) + h::vec(part.second);
        R.check(gi.GetVectorIndexFromMatrixIndices(t) == v && gi.GetVectorIndexFromMatrixIndices(t[0], t[1], t[2]) == v && gi.GetMatrixIndicesFromVectorIndex(v) == t, "bijection", [&] { return ctx; });
        const auto b = gi.GetBoundingBoxXYZFromIndex(v), u = gi.GetBoundingBoxUVWFromIndex(t);
        for (size_t x = 0; x < 3; ++x) {
            auto near = [&](double q, double lo, double up, size_t k) { return std::fabs(q - (lo + (up - lo) * double(k) / double(n[x]))) <= 8e-14 * (std::fabs(lo) + std::fabs(up)); };
            R.check(near(b.lower[x], gr.lo[x], gr.up[x], t[x]) && near(b.upper[x], gr.lo[x], gr.up[x], t[x] + 1) && near(u.lower[x], gr.ulo[x], gr.uup[x], t[x]) && near(u.upper[x], gr.ulo[x], gr.uup[x], t[x] + 1), "cell-box", [&] { return ctx; });
        }
        for (auto dir : GI::GetDirections()) {
            const size_t d = size_t(dir), ax = d / 2; const bool fwd = d % 2 == 0;
            const auto& end = fwd ? part.second : part.first; const auto& start = fwd ? part.first : part.second;
            const bool rowend = t[ax] == end[ax], all = t == end;
            const auto [nx, info] = gi.GetNextIndex(v, dir, part);
            R.check(info == (all ? GI::IndexInfo::global_end : rowend ? GI::IndexInfo::local_end : GI::IndexInfo::middle) && gi.IsEnd(v, dir, part) == rowend, "row-end", [&] { return ctx + " direction " + std::to_string(d); });
            if (!R.check(nx < N, "leaves-partition", [&] { return ctx + " direction " + std::to_string(d); })) continue;
            const Vector3i w{ nx % n[0], nx / n[0] % n[1], nx / (n[0] * n[1]) };
            bool in = true; for (size_t x = 0; x < 3; ++x) in = in && w[x] >= part.first[x] && w[x] <= part.second[x];
            R.check(in, "leaves-partition", [&] { return ctx + " direction " + std::to_string(d); });
            if (!rowend) { auto e = t; if (fwd) ++e[ax]; else --e[ax]; R.check(w == e, "direct-neighbour", [&] { return ctx + " direction " + std::to_string(d); }); }
            else if (!all) R.check(w[ax] == start[ax] && w != t, "next-row", [&] { return ctx + " direction " + std::to_string(d); });
            if (!all) R.check(gi.GetNextIndex(nx, GI::ReverseDirection(dir), part).first == v, "step-back", [&] { return ctx + " direction " + std::to_string(d); });
            R.count("steps");
        }
    }
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        if (a.num("large", 0)) return large(a, c, r, R);
        g::Grid gr;
        const int mx = a.thorough ? 12 : 8;
        for (int i = 0; i < 3; ++i) {
            gr.n[i] = r.p(.3) ? 1 : r.i(1, mx);
            const double s = std::pow(10.0, r.u(-3, 3));
            gr.lo[i] = r.p(.2) ? 0 : r.u(-10, 10) * s; gr.up[i] = gr.lo[i] + s * r.u(.1, 5);
            const double u = std::pow(10.0, r.u(-3, 3));
            gr.ulo[i] = r.p(.2) ? 0 : r.u(-10, 10) * u; gr.uup[i] = gr.ulo[i] + u * r.u(.1, 5);
        }
        gr.spline = r.p(.6);
        auto S = q::settings(gr, q::Opt{});
        GI gi(*S);
        const size_t n0 = size_t(gr.n[0]), n1 = size_t(gr.n[1]), n2 = size_t(gr.n[2]), N = n0 * n1 * n2;
        const std::string id = gr.str();
        R.nontrivial(h::mix(N * 1000 + n0 * 31 + n1, a.seed + uint64_t(c))); R.sample(id);
        R.check(gi.NumberOfElements() == N, "number-of-elements", [&] { return id; });
        // numbering
        std::vector<char> seen(N, 0);
        for (size_t k = 0; k < n2; ++k) for (size_t j = 0; j < n1; ++j) for (size_t i = 0; i < n0; ++i) {
            const size_t v = gi.GetVectorIndexFromMatrixIndices(i, j, k);
            if (!R.check(v < N && !seen[v], "bijection", [&] { return id + " " + std::to_string(v); })) continue;
            seen[v] = 1;
            R.check(v == gi.GetVectorIndexFromMatrixIndices(Vector3i{ i, j, k }), "overload", [&] { return id; });
            const auto t = gi.GetMatrixIndicesFromVectorIndex(v);
            R.check(t[0] == i && t[1] == j && t[2] == k, "round-trip", [&] { return id + " cell " + std::to_string(v); });
            auto chk = [&](const g::V& lo, const g::V& up, const BoundingBoxType& b1, const BoundingBoxType& b2, const BoundingBoxType& b3, const char* w, bool full) {
                const size_t ijk[3] = { i, j, k };
                for (size_t x = 0; x < 3; ++x) {
                    const double L = up[x] - lo[x], n = double(gr.n[x]);
                    const double l = full ? lo[x] : lo[x] + L * double(ijk[x]) / n, u = full ? up[x] : lo[x] + L * double(ijk[x] + 1) / n;
                    const double tol = 1e-14 * (L + std::fabs(lo[x]) + std::fabs(up[x])) * 4;
                    R.check(std::fabs(b1.lower[x] - l) <= tol && std::fabs(b1.upper[x] - u) <= tol, "cell-box", [&] { return id + " " + w + " cell " + std::to_string(v) + " axis " + std::to_string(x) + ": " + h::str(b1.lower[x]) + " " + h::str(b1.upper[x]) + " expected " + h::str(l) + " " + h::str(u); });
                    R.check(b1.lower[x] == b2.lower[x] && b1.upper[x] == b2.upper[x] && b1.lower[x] == b3.lower[x] && b1.upper[x] == b3.upper[x], "cell-box-overloads", [&] { return id + " " + w; });
                }
            };
            chk(gr.lo, gr.up, gi.GetBoundingBoxXYZFromIndex(v), gi.GetBoundingBoxXYZFromIndex(Vector3i{ i, j, k }), gi.GetBoundingBoxXYZFromIndex(i, j, k), "global", false);
            chk(gr.ulo, gr.uup, gi.GetBoundingBoxUVWFromIndex(v), gi.GetBoundingBoxUVWFromIndex(Vector3i{ i, j, k }), gi.GetBoundingBoxUVWFromIndex(i, j, k), "parametric", !gr.spline);
            // neighbouring cells share the face bit for bit
            for (size_t x = 0; x < 3; ++x) { const size_t q[3] = { i, j, k }; size_t w[3] = { i, j, k }; if (q[x] + 1 >= size_t(gr.n[x])) continue; ++w[x];
                R.check(gi.GetBoundingBoxXYZFromIndex(i, j, k).upper[x] == gi.GetBoundingBoxXYZFromIndex(w[0], w[1], w[2]).lower[x], "no-gap", [&] { return id + " cell " + std::to_string(v) + " axis " + std::to_string(x); }); }
        }
        // stepping: all directions, global and random partition, both overload families
        static const GI::IndexInfo mid = GI::IndexInfo::middle, glob = GI::IndexInfo::global_end;
        for (int w = 0; w < 3; ++w) {
            PartitionBoxType part{ Vector3i{ 0, 0, 0 }, Vector3i{ n0 - 1, n1 - 1, n2 - 1 } };
            if (w) for (size_t x = 0; x < 3; ++x) { const int A = r.i(0, gr.n[int(x)] - 1), B = r.i(0, gr.n[int(x)] - 1); part.first[x] = size_t(std::min(A, B)); part.second[x] = size_t(std::max(A, B)); }
            const size_t cnt = (part.second[0] - part.first[0] + 1) * (part.second[1] - part.first[1] + 1) * (part.second[2] - part.first[2] + 1);
            for (auto dir : GI::GetDirections()) {
                const size_t d = size_t(dir), ax = d / 2; const bool fwd = d % 2 == 0;
                const auto rev = GI::ReverseDirection(dir);
                R.check(size_t(rev) == (d ^ 1), "reverse-direction", [&] { return std::to_string(d); });
                size_t cur = gi.GetVectorIndexFromMatrixIndices(fwd ? part.first : part.second);
                std::vector<char> vis(N, 0);
                size_t steps = 0;
                const std::string ctx = id + " partition " + h::vec(part.first) + h::vec(part.second) + " direction " + std::to_string(d);
                auto single = [&](size_t i2) {
                    switch (d) { case 0: return gi.GetNextIndexX(i2, part); case 1: return gi.GetPreviousIndexX(i2, part); case 2: return gi.GetNextIndexY(i2, part);
                    case 3: return gi.GetPreviousIndexY(i2, part); case 4: return gi.GetNextIndexZ(i2, part); default: return gi.GetPreviousIndexZ(i2, part); } };
                auto global1 = [&](size_t i2) {
                    switch (d) { case 0: return gi.GetNextIndexX(i2); case 1: return gi.GetPreviousIndexX(i2); case 2: return gi.GetNextIndexY(i2);
                    case 3: return gi.GetPreviousIndexY(i2); case 4: return gi.GetNextIndexZ(i2); default: return gi.GetPreviousIndexZ(i2); } };
                while (true) {
                    if (!R.check(cur < N && !vis[cur], "visits-once", [&] { return ctx + " cell " + std::to_string(cur); })) break;
                    vis[cur] = 1; ++steps;
                    const auto t = gi.GetMatrixIndicesFromVectorIndex(cur);
                    bool inside = true; for (size_t x = 0; x < 3; ++x) inside = inside && t[x] >= part.first[x] && t[x] <= part.second[x];
                    R.check(inside, "leaves-partition", [&] { return ctx + " cell " + std::to_string(cur); });
                    const auto [nx, info] = gi.GetNextIndex(cur, dir, part);
                    const auto s2 = single(cur);
                    R.check(s2.first == nx && s2.second == info, "step-overloads", [&] { return ctx; });
                    if (w == 0) { const auto s3 = gi.GetNextIndex(cur, dir); const auto s4 = global1(cur); R.check(s3.first == nx && s3.second == info && s4.first == nx && s4.second == info && gi.IsEnd(cur, dir) == gi.IsEnd(cur, dir, part), "step-overloads", [&] { return ctx; }); }
                    const bool rowend = t[ax] == (fwd ? part.second[ax] : part.first[ax]);
                    R.check(gi.IsEnd(cur, dir, part) == rowend, "is-end", [&] { return ctx + " cell " + std::to_string(cur); });
                    R.check((info != mid) == rowend, "row-end", [&] { return ctx + " cell " + std::to_string(cur); });
                    const bool last = steps == cnt;
                    R.check((info == glob) == last, "global-end", [&] { return ctx + " cell " + std::to_string(cur) + " step " + std::to_string(steps) + " of " + std::to_string(cnt); });
                    if (!rowend) { auto e = t; if (fwd) ++e[ax]; else --e[ax]; R.check(nx == gi.GetVectorIndexFromMatrixIndices(e), "direct-neighbour", [&] { return ctx + " cell " + std::to_string(cur); }); }
                    if (info == glob || steps > cnt) { R.check(nx == cur || info != glob, "global-end-stays", [&] { return ctx; }); break; }
                    R.check(gi.GetNextIndex(nx, rev, part).first == cur, "step-back", [&] { return ctx + " cell " + std::to_string(cur); });
                    cur = nx;
                }
                R.check(steps == cnt, "visits-all", [&] { return ctx + " visited " + std::to_string(steps) + " of " + std::to_string(cnt); });
                R.count("steps", double(steps));
            }
        }
    });
}
