// C19: malformed STL input is refused, never misread.
#include <filesystem>
#include "io.hpp"
#include "q.hpp"
#include "queso/io/io_utilities.h"
using namespace queso;
namespace {
// What can be read from the bytes without guessing; nullopt: not readable in this format.
using Tris = std::vector<std::array<g::V, 3>>;
std::optional<Tris> as_binary(const std::string& s) {
    if (s.size() < 84) return {};
    io::Tok t{ s }; t.i = 80;
    const size_t n = t.raw<uint32_t>(false);
    if (s.size() < 84 + 50 * n) return {};
    Tris o(n);
    for (auto& f : o) {
        t.i += 12;
        for (auto& p : f) for (auto& x : p) { x = double(t.raw<float>(false)); if (!std::isfinite(x)) return {}; }
        t.i += 2;
    }
    return o;
}
bool number(const std::string& w, double& x) {
    if (w.empty()) return false;
    if (w.find_first_not_of("0123456789+-.eE") != std::string::npos) return false;
    char* e; const float f = std::strtof(w.c_str(), &e);
    x = double(f);
    return *e == 0 && std::isfinite(f);
}
std::optional<Tris> as_ascii(const std::string& s) {// every facet must be complete and parse
    Tris o;
    std::vector<std::vector<std::string>> lines;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) { std::istringstream w(l); std::vector<std::string> v; for (std::string x; w >> x;) v.push_back(x); lines.push_back(v); }
    auto has = [](const std::vector<std::string>& l, const char* a) { for (auto& x : l) if (x.find(a) != std::string::npos) return true; return false; };
    for (size_t k = 0; k < lines.size(); ++k) {
        if (lines[k].empty() || lines[k][0] != "facet") continue;
        if (k + 6 >= lines.size() || !has(lines[k + 1], "outer") || !has(lines[k + 5], "endloop") || !has(lines[k + 6], "endfacet")) return {};
        std::array<g::V, 3> f;
        for (size_t i = 0; i < 3; ++i) {
            const auto& l = lines[k + 2 + i];
            if (l.size() != 4 || l[0] != "vertex") return {};
            for (size_t d = 0; d < 3; ++d) if (!number(l[d + 1], f[i][d])) return {};
        }
        o.push_back(f);
        k += 6;
    }
    return o;
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        const std::string f = a.tmp + "/c19.stl";
        g::Mesh m;
        if (r.p(.5)) m = g::box({ 0, 0, 0 }, { r.u(.5, 2), r.u(.5, 2), r.u(.5, 2) }, r.i(1, 2));
        else m = g::sphere(r.i(4, 9), r.i(3, 6));
        const bool ascii = r.p(.55);
        std::string s = (ascii ? io::produce_ascii(r, m) : io::produce_binary(r, m)).bytes, what = ascii ? "ascii" : "binary";
        auto pos = [&] { return size_t(r.next() % std::max<size_t>(1, s.size())); };
        const int n = r.p(.7) ? 1 : r.i(2, 4);
        bool file = true;
        for (int k = 0; k < n; ++k) switch (r.i(0, 15)) {
        case 0: s.resize(pos()); what += " truncated"; break;
        case 1: if (!s.empty()) { s[pos()] = char(r.i(0, 255)); what += " byte"; } break;
        case 2: s.insert(pos(), 1, char(r.i(0, 255))); what += " inserted"; break;
        case 3: if (!s.empty()) { s.erase(pos(), size_t(r.i(1, 60))); what += " erased"; } break;
        case 4: if (s.size() > 84) { const uint32_t c = r.p(.3) ? 0xFFFFFFFFu : r.p(.5) ? uint32_t(r.i(0, 200000)) : uint32_t(r.i(0, 60));
                uint32_t cc = a.opt.count("small") && c > 200000 ? 200000 : c; std::memcpy(&s[80], &cc, 4); what += " count " + h::str(cc); } break;
        case 5: { const float bad[] = { NAN, INFINITY, -INFINITY, 1e38f, 1e-44f }; const float x = bad[r.i(0, 4)];
                if (!ascii && s.size() >= 134) { const size_t k2 = size_t(r.next() % ((s.size() - 84) / 50)); std::memcpy(&s[84 + 50 * k2 + 12 + 4 * size_t(r.i(0, 8))], &x, 4); what += " float " + h::str(x); } break; }
        case 6: case 7: case 8: case 9: if (ascii) {// one token
                static const std::vector<std::string> w{ "nan", "inf", "-inf", "1e60", "-1e99", "abc", "", "1,5", "1.5.2", "0x1p3", "--1", "1e", "vertex", "facet", "endsolid", "12 13", "1e-60", "\xff\xfe", "3.0f", "1.0\t", "1_000" };
                std::vector<std::pair<size_t, size_t>> tok;
                const size_t b = pos();
                size_t i = s.find(" ", b); if (i == std::string::npos) break;
                size_t e = s.find_first_of(" \r\n\t", i + 1); if (e == std::string::npos) e = s.size();
                const std::string x = r.pick(w); s.replace(i + 1, e - i - 1, x); what += " token<" + x + ">";
            } break;
        case 10: case 11: if (ascii) {// one line
                const size_t b = s.rfind('\n', pos()); if (b == std::string::npos) break;
                size_t e = s.find('\n', b + 1); if (e == std::string::npos) break;
                const std::string l = s.substr(b, e - b);
                if (r.p(.5)) { s.erase(b, e - b); what += " line removed"; } else { s.insert(b, l); what += " line doubled"; }
            } break;
        case 12: if (ascii) { const size_t b = s.find('\n', pos()), e = b == std::string::npos ? b : s.find('\n', b + 1); if (e != std::string::npos) { const size_t c = r.p(.5) ? b : e; s[c] = ' '; what += " lines joined"; } } break;
        case 13: { std::string g; const int len = r.i(0, 3000); for (int i = 0; i < len; ++i) g += char(r.p(.8) ? r.i(32, 126) : r.i(0, 255)); if (r.p(.5)) g = "solid " + g; s = g; what = "random bytes"; } break;
        case 14: if (r.p(.3)) { file = false; what += " no file"; } else if (r.p(.5)) { s += s; what += " twice"; } else { const char* o[] = { "", "\n", "solid", "solid\n", "solid a\nendsolid a\n", "facet\n", "OBJ v 1 2 3\n", "solid x\nfacet", "ply\nformat ascii 1.0\n" }; s = o[r.i(0, 8)]; what = "tiny"; } break;
        default: for (auto& ch : s) if (ascii && r.p(.002)) ch = char(std::toupper(ch)); what += " case"; break;
        }
        if (a.opt.count("small") && s.size() >= 84) { uint32_t c; std::memcpy(&c, &s[80], 4); const std::string head = s.substr(std::min(s.size(), s.find('\n')), 600); const bool text = s.rfind("solid", 0) == 0 && (head.find("facet") != std::string::npos || head.find("normal") != std::string::npos); if (c > 200000 && !text) { R.count("skipped: allocation"); return; } }
        std::string path = f;
        std::filesystem::remove_all(f);
        if (file) io::spit(f, s);
        else if (r.p(.3)) { path = a.tmp; what = "directory"; }
        TriangleMesh t{};
        bool ok = true;
        std::string msg;
        try { IO::ReadMeshFromSTL(t, path); }
        catch (const std::exception& e) { ok = false; msg = e.what(); }
        ++R.evals;
        R.count(ok ? "accepted" : "refused");
        const auto keep = [&] { std::string q; for (unsigned char ch : s.substr(0, 600)) q += ch < 127 && (ch >= 32 || ch == '\n') ? char(ch) : '?'; return what + " (" + h::str(s.size()) + " bytes): " + q; };
        if (!ok) { R.count("refused " + what.substr(0, what.find(' '))); (void)t.NumOfTriangles(); R.nontrivial(h::mix(1, std::hash<std::string>{}(s))); return; }
        R.check(file, "missing-file-read", keep);
        if (!file) return;
        // Accepted: the triangles are those of one of the two readings.
        auto same = [&](const std::optional<Tris>& want) {
            if (!want || want->size() < t.NumOfTriangles()) return false;
            IndexType k = 0;
            for (const auto& w : *want) {
                const bool deg = w[0] == w[1] || w[1] == w[2] || w[0] == w[2];
                if (k >= t.NumOfTriangles()) { if (deg) continue; return false; }
                const auto g = t.Triangle<WithoutNormals>(k);
                const g::V p[3] = { { g.P1[0], g.P1[1], g.P1[2] }, { g.P2[0], g.P2[1], g.P2[2] }, { g.P3[0], g.P3[1], g.P3[2] } };
                bool eq = true;
                for (size_t i = 0; i < 3; ++i) for (size_t d = 0; d < 3; ++d) eq = eq && std::fabs(p[i][d] - w[i][d]) <= 1.01e-12;
                if (eq) ++k; else if (!deg) return false;
            }
            return k == t.NumOfTriangles();
        };
        const auto ab = as_binary(s), aa = as_ascii(s);
        const bool fits = same(aa) || same(ab);
        R.check(fits, "misread", [&] { return "accepted with " + h::str(t.NumOfTriangles()) + " triangles, none of the readings agrees (ascii " + (aa ? h::str(aa->size()) : "no") + ", binary " + (ab ? h::str(ab->size()) : "no") + "): " + keep(); });
        R.count("accepted triangles", double(t.NumOfTriangles()));
        R.nontrivial(h::mix(2, std::hash<std::string>{}(s)));
        R.sample(what);
    });
}
