// C26: mesh operations against an independent model of the mesh.
#include <omp.h>
#include "q.hpp"
#include "queso/utilities/mesh_utilities.h"
namespace {
struct Foreign { g::Mesh m; };
auto foreign(const Foreign& f) {
    return queso::TriangleMeshView(f, [](const Foreign& x) { return queso::IndexType(x.m.t.size()); },
        [](const Foreign& x, queso::IndexType i) { return queso::TriangleProxy<queso::WithoutNormals>{ x.m.P(i, 0), x.m.P(i, 1), x.m.P(i, 2) }; });
}
using Tri = std::array<g::V, 4>;// P1 P2 P3 normal
Tri canon(const g::V& a, const g::V& b, const g::V& c, const g::V& n) {// smallest vertex first, orientation kept
    const std::array<std::array<g::V, 3>, 3> o{ { { a, b, c }, { b, c, a }, { c, a, b } } };
    const auto& m = *std::min_element(o.begin(), o.end());
    return { m[0], m[1], m[2], n };
}
std::vector<Tri> list(const queso::TriangleMesh& m) {
    std::vector<Tri> o;
    for (queso::IndexType i = 0; i < m.NumOfTriangles(); ++i) {
        const auto t = m.Triangle<queso::WithNormals>(i);
        o.push_back({ g::V{ t.P1[0], t.P1[1], t.P1[2] }, g::V{ t.P2[0], t.P2[1], t.P2[2] }, g::V{ t.P3[0], t.P3[1], t.P3[2] }, g::V{ t.Normal[0], t.Normal[1], t.Normal[2] } });
    }
    return o;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args&, long, h::Rng& r, h::Report& R) {
        omp_set_num_threads(r.i(1, 6));
        g::Mesh m;
        const int kind = r.i(0, 3);
        const bool closed = kind <= 1;
        if (closed) m = g::body(r, kind + 1);
        else if (kind == 2) { m = g::quadgrid(r.i(1, 6), r.i(1, 6), [&](double x, double y) { return g::V{ x + .1 * std::sin(7 * y), y, .3 * std::cos(4 * x * y) }; }); m.name = "sheet"; }
        else {// soup of triangles
            const int n = r.i(1, 40); m.name = "soup";
            for (int k = 0; k < n; ++k) { const size_t b = m.v.size(); for (int i = 0; i < 3; ++i) m.add({ r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) }); m.tri(b, b + 1, b + 2); }
        }
        const double sc = std::pow(10.0, r.u(-2, 3));
        const g::V off = r.p(.4) ? g::V{ 0, 0, 0 } : g::V{ r.u(-5, 5) * sc, r.u(-5, 5) * sc, r.u(-5, 5) * sc };
        for (auto& p : m.v) p = off + sc * p;
        queso::TriangleMesh tri = q::to(m);
        const Foreign f{ m };
        const auto fv = foreign(f);
        const auto desc = [&] { return g::describe(m) + " scale " + h::str(sc) + " offset " + h::vec(off); };
        // long double references
        long double A = 0, vol[3] = { 0, 0, 0 }, an[3] = { 0, 0, 0 }, ar = 0, arsum = 0, absvol = 0;
        for (size_t k = 0; k < m.t.size(); ++k) {
            long double e1[3], e2[3], e3[3], c[3];
            for (int i = 0; i < 3; ++i) { const long double a = m.P(k, 0)[i], b = m.P(k, 1)[i], d = m.P(k, 2)[i]; e1[i] = b - a; e2[i] = d - a; e3[i] = d - b; c[i] = (a + b + d) / 3; }
            const long double n[3] = { e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0] };
            const long double ta = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2;
            A += ta;
            for (int i = 0; i < 3; ++i) { vol[i] += n[i] / 2 * c[i]; an[i] += n[i] / 2; absvol += std::fabs(n[i] / 2 * c[i]); }
            const long double l1 = std::sqrt(e1[0] * e1[0] + e1[1] * e1[1] + e1[2] * e1[2]), l2 = std::sqrt(e2[0] * e2[0] + e2[1] * e2[1] + e2[2] * e2[2]), l3 = std::sqrt(e3[0] * e3[0] + e3[1] * e3[1] + e3[2] * e3[2]);
            const long double one = ta > 1e-14L ? std::max({ l1, l2, l3 }) * (l1 + l2 + l3) / (4 * std::sqrt(3.0L) * ta) : 1e10L;
            ar = std::max(ar, one); arsum += one;
        }
        const double V = double(std::fabs((vol[0] + vol[1] + vol[2]) / 3)), av = double(absvol);
        auto near = [&](double got, double want, double tol, const char* what) { R.check(std::fabs(got - want) <= tol, what, [&] { return "got " + h::str(got) + " expected " + h::str(want) + " " + desc(); }); };
        auto measures = [&](const queso::TriangleMeshView& v, const char* how) {
            const std::string w = how;
            near(queso::MeshUtilities::Area(v), double(A), 1e-12 * double(A), (w + "area").c_str());
            near(queso::MeshUtilities::AreaOMP(v), double(A), 1e-12 * double(A), (w + "area-omp").c_str());
            near(queso::MeshUtilities::Volume(v), V, 1e-11 * av, (w + "volume").c_str());
            near(queso::MeshUtilities::VolumeOMP(v), V, 1e-11 * av, (w + "volume-omp").c_str());
            for (queso::IndexType d = 0; d < 3; ++d) near(queso::MeshUtilities::Volume(v, d), double(std::fabs(vol[d])), 1e-11 * av, (w + "volume-dir").c_str());
            const auto [lo, up] = m.box();
            const auto bb = queso::MeshUtilities::BoundingBox(v);
            R.check(q::gv(bb.first) == lo && q::gv(bb.second) == up, w + "bounding-box", [&] { return h::vec(bb.first) + h::vec(bb.second) + " expected " + h::vec(lo) + h::vec(up) + " " + desc(); });
            if (ar < 1e6) {
                near(queso::MeshUtilities::MaxAspectRatio(v), double(ar), 1e-6 * double(ar), (w + "max-aspect-ratio").c_str());
                near(queso::MeshUtilities::AverageAspectRatio(v), double(arsum / m.t.size()), 1e-6 * double(ar), (w + "average-aspect-ratio").c_str());
            }
            const double qv = queso::MeshUtilities::EstimateQuality(v);
            const double vn = std::sqrt(double(an[0] * an[0] + an[1] * an[1] + an[2] * an[2])) / double(A);
            R.check(qv >= vn - 1e-11, w + "closedness-measure", [&] { return "measure " + h::str(qv) + " vector area " + h::str(vn) + " " + desc(); });
            if (closed) R.check(qv <= 1e-13 * av / std::max(V, 1e-300) * 100 + 1e-12, w + "closed-mesh-not-closed", [&] { return "measure " + h::str(qv) + " " + desc(); });
            else if (vn > 1e-6) R.check(qv > 1e-6, w + "open-mesh-closed", desc);
            bool threw = false;
            try { (void)queso::MeshUtilities::Volume(v, queso::IndexType(r.i(3, 9))); } catch (const std::exception&) { threw = true; }
            R.check(threw, w + "volume-direction-not-refused", desc);
            R.check(v.NumOfTriangles() == m.t.size(), w + "number-of-triangles", desc);
        };
        measures(tri.View(), "");
        measures(fv, "foreign-");
        // triangles through every access path
        {
            std::vector<Tri> want = list(tri), got, got2, got3;
            auto P = [](const auto& s) { return g::V{ s[0], s[1], s[2] }; };
            for (const auto& t : tri.Triangles()) got.push_back({ P(t.P1), P(t.P2), P(t.P3), P(t.Normal) });
            tri.View().VisitEachTriangle<queso::WithNormals>([&](const auto& t) { got2.push_back({ P(t.P1), P(t.P2), P(t.P3), P(t.Normal) }); });
            for (const auto& t : fv.Triangles()) got3.push_back({ P(t.P1), P(t.P2), P(t.P3), P(t.Normal) });
            R.check(got == want && got2 == want && want.size() == m.t.size(), "triangle-ranges", desc);
            bool same = got3.size() == want.size();
            for (size_t k = 0; same && k < want.size(); ++k) {
                same = got3[k][0] == want[k][0] && got3[k][1] == want[k][1] && got3[k][2] == want[k][2];
                const double area = .5 * g::norm(m.an(k));
                if (area > 1e-12 * sc * sc && area > 1e-12) same = same && g::norm(got3[k][3] - want[k][3]) < 1e-6;
            }
            R.check(same, "foreign-triangles", desc);
            // subset with early exit
            std::vector<queso::IndexType> ids;
            for (size_t k = 0; k < m.t.size(); ++k) if (r.p(.4)) ids.push_back(k);
            std::vector<Tri> sub;
            const size_t stop = ids.empty() ? 0 : size_t(r.i(0, int(ids.size()) - 1));
            size_t seen = 0;
            auto visit = [&](const auto& t) { sub.push_back({ P(t.P1), P(t.P2), P(t.P3), P(t.Normal) }); return seen++ == stop ? queso::TriangleMeshView::VisitToken::stop_loop : queso::TriangleMeshView::VisitToken::continue_loop; };
            if (r.p(.5)) tri.View().VisitEachTriangle<queso::WithNormals>(ids, visit); else { fv.VisitEachTriangle<queso::WithNormals>(ids, visit); for (auto& t : sub) t[3] = {}; }
            bool ok = sub.size() == (ids.empty() ? 0 : stop + 1);
            for (size_t k = 0; ok && k < sub.size(); ++k) for (int i = 0; i < 3; ++i) ok = ok && sub[k][size_t(i)] == want[ids[k]][size_t(i)];
            R.check(ok, "visit-subset", desc);
        }
        // a foreign mesh with triangles without area: every other triangle keeps its own normal
        if (r.p(.4)) {
            Foreign fd; fd.m.v = m.v;
            for (size_t k = 0; k < m.t.size(); ++k) {
                while (r.p(.2)) { const auto& t = m.t[size_t(r.i(0, int(m.t.size()) - 1))]; const int w = r.i(0, 2); fd.m.tri(t[size_t(w)], t[size_t((w + r.i(0, 1)) % 3)], t[size_t(w)]); R.count("triangles without area"); }
                fd.m.tri(m.t[k][0], m.t[k][1], m.t[k][2]);
            }
            const auto v = foreign(fd);
            auto is = [&](const auto& n, size_t k) {
                const g::V w = fd.m.an(k); const double l = g::norm(w);
                if (l < 1e-9 * sc * sc || l < 1e-10) return true;
                return g::norm(g::V{ n[0], n[1], n[2] } - (1 / l) * w) < 1e-6;
            };
            bool ok = v.NumOfTriangles() == fd.m.t.size(), ok2 = true, ok3 = true;
            for (size_t k = 0; ok && k < fd.m.t.size(); ++k) ok = is(v.Triangle<queso::WithNormals>(k).Normal, k);
            size_t k2 = 0; v.VisitEachTriangle<queso::WithNormals>([&](const auto& t) { ok2 = ok2 && is(t.Normal, k2++); });
            size_t k3 = 0; for (const auto& t : v.Triangles()) ok3 = ok3 && is(t.Normal, k3++);
            R.check(ok && ok2 && ok3 && k2 == fd.m.t.size() && k3 == fd.m.t.size(), "foreign-normals", desc);
        }
        // append
        if (r.p(.6)) {
            g::Mesh m2 = g::body(r, 1);
            queso::TriangleMesh a = tri, b = q::to(m2);
            const auto la = list(a), lb = list(b);
            if (r.p(.2)) {// the mesh appended to a copy of itself, and to an empty mesh
                queso::TriangleMesh e{};
                queso::MeshUtilities::Append(e, a);
                R.check(list(e) == la && e.NumOfVertices() == a.NumOfVertices(), "append-to-empty", desc);
                queso::MeshUtilities::Append(e, queso::TriangleMesh{});
                R.check(list(e) == la, "append-empty", desc);
            }
            if (r.p(.2)) {// to itself
                queso::TriangleMesh c = a;
                queso::MeshUtilities::Append(c, c);
                auto twice = la; twice.insert(twice.end(), la.begin(), la.end());
                R.check(list(c) == twice && c.NumOfVertices() == 2 * a.NumOfVertices(), "append-to-itself", desc);
            }
            queso::MeshUtilities::Append(a, b);
            auto want = la; want.insert(want.end(), lb.begin(), lb.end());
            R.check(list(a) == want && a.NumOfVertices() == tri.NumOfVertices() + b.NumOfVertices(), "append", desc);
            R.check(list(b) == lb, "append-changes-source", desc);
            a.Check();
        }
        // remove triangles: the others stay
        if (r.p(.4)) {
            queso::TriangleMesh a = tri;
            std::multiset<Tri> want; for (auto& t : list(a)) want.insert(t);
            const int n = r.i(1, int(std::min<size_t>(m.t.size(), 10)));
            for (int k = 0; k < n; ++k) {
                const auto id = queso::IndexType(r.p(.3) ? int(a.NumOfTriangles()) - 1 : r.i(0, int(a.NumOfTriangles()) - 1));
                const auto l = list(a);
                want.erase(want.find(l[id]));
                a.RemoveTriangle(id);
                const auto l2 = list(a);
                R.check(std::multiset<Tri>(l2.begin(), l2.end()) == want, "remove-triangle", desc);
            }
            R.count("removed triangles", n);
        }
        // refine
        {
            queso::TriangleMesh a = tri;
            const size_t least = r.p(.2) ? m.t.size() : size_t(r.i(0, 1200));
            queso::MeshUtilities::Refine(a, least);
            const size_t n = a.NumOfTriangles();
            R.count("refined triangles", double(n));
            R.check(n >= least || queso::MeshUtilities::Area(a.View()) / double(n) < 1e-13, "refine-count", [&] { return h::str(n) + " of " + h::str(least) + " " + desc(); });
            R.check(n >= m.t.size() && (least > m.t.size() || n == m.t.size()), "refine-without-need", [&] { return h::str(n) + " from " + h::str(m.t.size()) + " for " + h::str(least) + " " + desc(); });
            near(queso::MeshUtilities::Area(a.View()), double(A), 1e-11 * double(A), "refine-area");
            near(queso::MeshUtilities::Volume(a.View()), V, 1e-11 * av, "refine-volume");
            // every triangle lies in a parent with its normal; areas per parent add up
            const auto la = list(a), lt = list(tri);
            std::map<g::V, std::vector<size_t>> bynormal;
            for (size_t k = 0; k < lt.size(); ++k) bynormal[lt[k][3]].push_back(k);
            std::vector<double> area(lt.size(), 0);
            bool bad = false;
            for (auto& t : la) {
                const auto it = bynormal.find(t[3]);
                if (it == bynormal.end()) { bad = true; break; }
                const g::V c = (1. / 3) * (t[0] + t[1] + t[2]);
                double best = 1e300; size_t arg = 0;
                for (size_t k : it->second) { const double d = g::dist(c, lt[k][0], lt[k][1], lt[k][2]); if (d < best) { best = d; arg = k; } }
                const g::V nn = g::cross(t[1] - t[0], t[2] - t[0]);
                bad = bad || best > 1e-10 * (sc + g::norm(off));
                if (g::norm(nn) > 1e-10 * sc * sc) bad = bad || g::dot(nn, t[3]) < .999 * g::norm(nn);
                area[arg] += .5 * g::norm(nn);
            }
            R.check(!bad, "refine-parents", [&] { return "a refined triangle is in no parent with its orientation and normal; " + desc() + " to " + h::str(least); });
            if (closed || kind == 2) for (size_t k = 0; k < lt.size(); ++k) {
                const double want = .5 * g::norm(m.an(k));
                R.check(std::fabs(area[k] - want) <= 1e-9 * (double(A)), "refine-covers-parent", [&] { return "parent " + h::str(k) + " " + h::str(area[k]) + " of " + h::str(want) + " " + desc(); });
            }
            a.Check();
        }
        // box
        {
            const g::V lo = off + sc * g::V{ r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) }, d{ sc * r.u(.01, 2), sc * r.u(.01, 2), sc * r.u(.01, 2) };
            const g::V up = lo + d;
            auto b = queso::MeshUtilities::MakeMeshBox(q::vd(lo), q::vd(up));
            const auto gb = q::from(b);
            const auto [bl, bu] = gb.box();
            R.check(bl == lo && bu == up, "box-bounds", [&] { return h::vec(bl) + h::vec(bu) + " of " + h::vec(lo) + h::vec(up); });
            R.check(std::fabs(gb.volume() - d[0] * d[1] * d[2]) < 1e-9 * sc * sc * sc, "box-volume", [&] { return h::str(gb.volume()) + " of " + h::vec(lo) + h::vec(up); });
            R.check(g::manifold(g::weld(gb)) && gb.t.size() == 12, "box-manifold", [&] { return h::vec(lo) + h::vec(up); });
            for (auto& t : list(b)) { const g::V n = g::cross(t[1] - t[0], t[2] - t[0]); R.check(g::dot(n, t[3]) > .999999 * g::norm(n) && std::fabs(g::norm(t[3]) - 1) < 1e-12, "box-normals", [&] { return h::vec(lo) + h::vec(up); }); }
        }
        R.nontrivial(r.next());
        R.sample(desc());
    });
}
