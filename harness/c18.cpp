// C18: STL files are read and written faithfully.
#include "io.hpp"
#include "q.hpp"
#include "queso/io/io_utilities.h"
using namespace queso;
namespace {
struct Foreign { g::Mesh m; };
TriangleMeshView foreign(const Foreign& f) {
    return TriangleMeshView(f, [](const Foreign& x) { return IndexType(x.m.t.size()); },
        [](const Foreign& x, IndexType i) { return TriangleProxy<WithoutNormals>{ x.m.P(i, 0), x.m.P(i, 1), x.m.P(i, 2) }; });
}
bool degenerate(const io::Facet& f) { return f.p[0] == f.p[1] || f.p[1] == f.p[2] || f.p[0] == f.p[2]; }
// What was read is exactly `want`: coordinates to `tol` (absolute) + 1e-12, order, orientation, normals, shared vertices.
void compare(h::Report& R, const TriangleMesh& m, const io::Facets& want, double tol, const std::function<std::string()>& where) {
    std::vector<size_t> left;
    for (size_t k = 0; k < want.size(); ++k) if (!degenerate(want[k])) left.push_back(k);
    std::vector<IndexType> got;
    for (IndexType i = 0; i < m.NumOfTriangles(); ++i) {
        const auto t = m.TriangleIndices()[i];
        if (t[0] != t[1] && t[1] != t[2] && t[0] != t[2]) got.push_back(i);
    }
    // tiny triangles may collapse when vertices within 1e-12 are merged
    if (got.size() != left.size()) {
        std::vector<size_t> keep;
        for (size_t k : left) { bool tiny = false; for (int i = 0; i < 3; ++i) tiny = tiny || g::norm(want[k].p[i] - want[k].p[(i + 1) % 3]) < 1e-11 + 2 * tol; if (!tiny) keep.push_back(k); }
        if (keep.size() == got.size()) left = keep;
    }
    if (!R.check(got.size() == left.size(), "number-of-triangles", [&] { return "read " + h::str(got.size()) + " of " + h::str(left.size()) + " " + where(); })) return;
    R.check(m.NumOfTriangles() <= want.size(), "more-triangles-than-in-file", where);
    std::map<g::V, IndexType> ids;
    for (size_t q = 0; q < got.size(); ++q) {
        const auto& f = want[left[q]];
        const auto t = m.Triangle<WithNormals>(got[q]);
        const auto id = m.TriangleIndices()[got[q]];
        const g::V p[3] = { { t.P1[0], t.P1[1], t.P1[2] }, { t.P2[0], t.P2[1], t.P2[2] }, { t.P3[0], t.P3[1], t.P3[2] } };
        double e = 0;
        for (int i = 0; i < 3; ++i) for (size_t d = 0; d < 3; ++d) {
            const double x = std::fabs(p[i][d] - f.p[i][d]);
            e = std::max(e, x - (tol > 0 ? 1.2e-7 * std::fabs(f.p[i][d]) : 0));
        }
        R.check(e <= tol + 1.001e-12, "coordinates", [&] { return "triangle " + h::str(q) + " off by " + h::str(e) + " " + h::vec(p[0]) + h::vec(p[1]) + h::vec(p[2]) + " in file " + h::vec(f.p[0]) + h::vec(f.p[1]) + h::vec(f.p[2]) + " " + where(); });
        const g::V c = g::cross(p[1] - p[0], p[2] - p[0]);
        const g::V n{ t.Normal[0], t.Normal[1], t.Normal[2] };
        const double l = g::norm(c), big = std::max({ g::norm(p[1] - p[0]), g::norm(p[2] - p[0]), g::norm(p[2] - p[1]) });
        if (l > 1e-13 && l > 1e-7 * big * big) R.check(std::fabs(g::norm(n) - 1) < 1e-12 && g::dot(n, c) > (1 - 1e-6) * l, "normal", [&] { return "triangle " + h::str(q) + " normal " + h::vec(n) + " of " + h::vec(c) + " " + where(); });
        if (tol == 0) for (int i = 0; i < 3; ++i) {
            auto [it, nw] = ids.try_emplace(f.p[i], id[size_t(i)]);
            if (!nw) { R.check(it->second == id[size_t(i)], "shared-vertex", [&] { return "vertex " + h::vec(f.p[i]) + " read as " + h::str(it->second) + " and " + h::str(id[size_t(i)]) + " " + where(); }); R.count("shared corners"); }
        }
    }
    if (tol == 0) R.check(m.NumOfVertices() <= std::max<size_t>(ids.size() + 3 * (want.size() - left.size()), 0), "number-of-vertices", [&] { return h::str(m.NumOfVertices()) + " for " + h::str(ids.size()) + " " + where(); });
    R.count("triangles compared", double(got.size()));
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        g::Mesh m;
        const int kind = r.i(0, 9);
        if (kind < 6) m = g::body(r, 1);
        else if (kind < 8) { m.name = "soup"; for (int k = r.i(0, 40); k-- > 0;) { g::V p[3]; for (auto& x : p) x = { r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) }; if (r.p(.1)) p[1] = p[0]; if (r.p(.1)) p[2] = p[1]; const size_t o = m.v.size(); for (auto& x : p) m.add(x); m.tri(o, o + 1, o + 2); if (r.p(.1)) m.tri(o, o + 1, o + 2); if (r.p(.1)) m.tri(o, o + 2, o + 1); } }
        else if (kind == 8) { m = g::quadgrid(r.i(1, 12), r.i(1, 12), [&](double x, double y) { return g::V{ x, y, .1 * x * y }; }); m.name = "sheet"; }
        else { m.name = "large"; m = g::sphere(r.i(30, 60), r.i(20, 40)); }
        const double sc = std::pow(10.0, r.u(-1.5, 3));
        const g::V off = r.p(.5) ? g::V{ 0, 0, 0 } : g::V{ r.u(-20, 20) * sc, r.u(-20, 20) * sc, r.u(-20, 20) * sc };
        for (auto& p : m.v) p = off + sc * p;
        const std::string f = a.tmp + "/c18.stl";
        auto where = [&] { return g::describe(m) + " scale " + h::str(sc); };
        TriangleMesh back{};
        if (r.p(.5)) back.AddVertex(PointType{ 1, 2, 3 });// whatever was in the target is replaced
        if (c % 2 == 0) {// written by the library
            const bool ascii = r.p(.5), fv = r.p(.3);
            const auto e = ascii ? IO::EncodingType::ascii : IO::EncodingType::binary;
            const TriangleMesh t = q::to(m);
            const Foreign fr{ m };
            if (fv) IO::WriteMeshToSTL(foreign(fr), f, e); else if (r.p(.5)) IO::WriteMeshToSTL(t, f, e); else IO::WriteMeshToSTL(t.View(), f, e);
            const std::string bytes = io::slurp(f);
            io::Facets file;
            try { std::string head; file = ascii ? io::stl_ascii(bytes) : io::stl_binary(bytes, &head); R.check(ascii || head.rfind("solid", 0) != 0, "binary-header-says-solid", where); ++R.evals; }
            catch (const io::Bad& b) { R.viol("written-file-malformed", std::string(b.what()) + (ascii ? " ascii " : " binary ") + where()); return; }
            if (!R.check(file.size() == m.t.size(), "written-number", [&] { return h::str(file.size()) + " of " + h::str(m.t.size()) + " " + where(); })) return;
            for (size_t k = 0; k < file.size(); ++k) {
                bool ok = true;
                for (int i = 0; i < 3; ++i) for (size_t d = 0; d < 3; ++d) ok = ok && (ascii ? std::fabs(file[k].p[i][d] - m.P(k, i)[d]) <= .5000001e-6 + 1e-15 * std::fabs(m.P(k, i)[d]) : file[k].p[i][d] == double(float(m.P(k, i)[d])));
                R.check(ok, "written-coordinates", [&] { return "triangle " + h::str(k) + (ascii ? " ascii " : " binary ") + where(); });
                const g::V n = m.an(k); const double l = g::norm(n);
                if (l > 1e-9 * sc * sc && l > 1e-12) R.check(g::norm(file[k].n - (1 / l) * n) < 2e-6, "written-normal", [&] { return h::vec(file[k].n) + " of " + h::vec((1 / l) * n) + (fv ? " foreign " : " ") + where(); });
            }
            for (auto& x : file) for (auto& p : x.p) for (auto& v : p) v = double(float(v));
            IO::ReadMeshFromSTL(back, f);
            compare(R, back, file, 0, where);
            if (!ascii) {// a second round trip changes nothing
                IO::WriteMeshToSTL(back, f + "2", e);
                if (kind < 6) { ++R.evals; if (io::slurp(f + "2").size() != bytes.size()) R.viol("second-round-trip", where()); }
            }
            R.count(ascii ? "ascii round trips" : "binary round trips");
        } else {// written by somebody else
            const bool ascii = r.p(.6);
            const auto p = ascii ? io::produce_ascii(r, m) : io::produce_binary(r, m);
            io::spit(f, p.bytes);
            auto at = [&] { return p.what + " " + where(); };
            try { IO::ReadMeshFromSTL(back, f); }
            catch (const std::exception& e) { R.viol("well-formed-file-refused", at() + ": " + e.what()); return; }
            ++R.evals;
            compare(R, back, p.tri, 0, at);
            R.count(ascii ? "foreign ascii files" : "foreign binary files");
        }
        R.nontrivial(r.next());
        R.sample(where());
    });
}
