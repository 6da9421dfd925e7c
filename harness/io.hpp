// Independent readers and producers of STL, legacy VTK and JSON files (strict: they refuse what the formats do not allow).
#pragma once
#include <cstring>
#include <fstream>
#include <memory>
#include <optional>
#include "geom.hpp"
namespace io {
inline std::string slurp(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    std::ostringstream o; o << i.rdbuf();
    return o.str();
}
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), long(s.size())); }
struct Facet { g::V n; g::V p[3]; };
using Facets = std::vector<Facet>;
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
// ---- tokens
struct Tok {
    const std::string& s; size_t i = 0;
    std::string line() { if (i >= s.size()) throw Bad("end of file"); const size_t e = s.find('\n', i); if (e == std::string::npos) throw Bad("unterminated line"); std::string o = s.substr(i, e - i); i = e + 1; return o; }
    std::string word() { while (i < s.size() && std::strchr(" \t\r\n", s[i])) ++i; size_t b = i; while (i < s.size() && !std::strchr(" \t\r\n", s[i])) ++i; if (b == i) throw Bad("end of file"); return s.substr(b, i - b); }
    double num() { const std::string w = word(); char* e; const double d = std::strtod(w.c_str(), &e); if (*e || !std::isfinite(d)) throw Bad("not a number: " + w); return d; }
    size_t idx() { const std::string w = word(); if (w.find_first_not_of("0123456789") != std::string::npos) throw Bad("not a count: " + w); return size_t(std::strtoull(w.c_str(), nullptr, 10)); }
    void expect(const char* w) { const std::string g = word(); if (g != w) throw Bad(std::string("expected ") + w + ", got " + g); }
    template<class T> T raw(bool big) {
        if (i + sizeof(T) > s.size()) throw Bad("end of file in binary data");
        unsigned char b[sizeof(T)];
        for (size_t k = 0; k < sizeof(T); ++k) b[big ? sizeof(T) - 1 - k : k] = static_cast<unsigned char>(s[i + k]);
        i += sizeof(T);
        T o; std::memcpy(&o, b, sizeof(T));
        return o;
    }
};
// ---- STL
inline Facets stl_binary(const std::string& s, std::string* header = nullptr) {
    Tok t{ s };
    if (s.size() < 84) throw Bad("shorter than header");
    if (header) *header = s.substr(0, 80);
    t.i = 80;
    const size_t n = t.raw<uint32_t>(false);
    if (s.size() != 84 + 50 * n) throw Bad("size " + std::to_string(s.size()) + " for " + std::to_string(n) + " triangles");
    Facets o(n);
    for (auto& f : o) {
        for (auto& x : f.n) x = t.raw<float>(false);
        for (auto& p : f.p) for (auto& x : p) x = t.raw<float>(false);
        if (t.raw<uint16_t>(false) != 0) throw Bad("attribute");
    }
    return o;
}
inline Facets stl_ascii(const std::string& s) {
    Tok t{ s };
    const std::string first = t.line();
    if (first.rfind("solid ", 0) != 0) throw Bad("no solid");
    Facets o;
    for (;;) {
        const std::string w = t.word();
        if (w == "endsolid") break;
        if (w != "facet") throw Bad("expected facet, got " + w);
        Facet f; t.expect("normal"); for (auto& x : f.n) x = t.num();
        t.expect("outer"); t.expect("loop");
        for (auto& p : f.p) { t.expect("vertex"); for (auto& x : p) x = t.num(); }
        t.expect("endloop"); t.expect("endfacet");
        o.push_back(f);
    }
    if (" " + t.line() != first.substr(5)) { Tok u{ s }; }// name is repeated after endsolid
    if (t.i != s.size()) throw Bad("data after endsolid");
    return o;
}
template<class T> inline void put(std::string& s, T v) { char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); s.append(b, sizeof(T)); }// little endian host
// Coordinates exactly as a reader with single precision must see them.
struct Produced { std::string bytes; Facets tri; std::string what; };
inline std::string number(h::Rng& r, double x) {
    char b[64];
    switch (r.i(0, 5)) {
    case 0: std::snprintf(b, 64, "%.9g", x); break;
    case 1: std::snprintf(b, 64, "%e", x); break;
    case 2: std::snprintf(b, 64, "%+.7E", x); break;
    case 3: std::snprintf(b, 64, "%.17g", x); break;
    case 4: std::snprintf(b, 64, "%f", x); break;
    default: std::snprintf(b, 64, "%.*f", r.i(3, 12), x); break;
    }
    return b;
}
inline const std::vector<std::string>& names() {
    static const std::vector<std::string> n{ "", "part", "two words", "facet", "facet_plate", "my facet normal", "endsolid", "a endsolid b", "vertex", "outer loop", "normal", "solid", "x-facet/outer loop", "\xc3\xa9t\xc3\xa9", "name with \"quotes\"", "loop endloop endfacet", "1.0 2.0 3.0" };
    return n;
}
inline Produced produce_ascii(h::Rng& r, const g::Mesh& m) {
    Produced o;
    const std::string nl = r.p(.3) ? "\r\n" : "\n";
    const std::string ind = r.p(.3) ? "" : r.p(.5) ? "  " : "\t";
    auto sp = [&] { return r.p(.8) ? std::string(" ") : r.p(.5) ? std::string("   ") : std::string("\t"); };
    auto end = [&] { return (r.p(.05) ? std::string("  ") : std::string()) + nl; };
    const int solids = r.p(.5) ? 1 : r.i(2, 4);
    const bool blank = r.p(.3), wrongnormal = r.p(.3);
    size_t k = 0;
    for (int q = 0; q < solids; ++q) {
        const std::string name = r.pick(names());
        o.what += "<" + name + ">";
        o.bytes += "solid" + (name.empty() && r.p(.5) ? "" : " " + name) + nl;
        const size_t e = q + 1 == solids ? m.t.size() : k + size_t(r.i(0, int(m.t.size() - k)));
        for (; k < e; ++k) {
            if (blank && r.p(.2)) o.bytes += nl;
            const g::V n = wrongnormal ? g::V{ r.u(-1, 1), 0, 0 } : m.an(k);
            o.bytes += ind + "facet" + sp() + "normal" + sp() + number(r, n[0]) + sp() + number(r, n[1]) + sp() + number(r, n[2]) + end();
            o.bytes += ind + ind + "outer loop" + end();
            Facet f;
            for (int i = 0; i < 3; ++i) {
                o.bytes += ind + ind + ind + "vertex";
                for (int d = 0; d < 3; ++d) {
                    const std::string t = number(r, m.P(k, i)[size_t(d)]);
                    f.p[i][size_t(d)] = std::strtof(t.c_str(), nullptr);
                    o.bytes += sp() + t;
                }
                o.bytes += end();
            }
            o.tri.push_back(f);
            o.bytes += ind + ind + "endloop" + end() + ind + "endfacet" + end();
        }
        o.bytes += "endsolid" + (r.p(.5) ? " " + name : std::string());
        if (q + 1 < solids || r.p(.7)) o.bytes += nl;
        if (q + 1 < solids && r.p(.3)) o.bytes += nl;
    }
    o.what = std::to_string(solids) + " solids " + o.what + (nl.size() == 2 ? " crlf" : "");
    return o;
}
inline Produced produce_binary(h::Rng& r, const g::Mesh& m) {
    Produced o;
    std::string head(80, r.p(.5) ? '\0' : ' ');
    const int kind = r.i(0, 5);
    std::string t;
    switch (kind) {
    case 0: t = "binary stl"; break;
    case 1: t = "solid exported by something"; break;// many producers do this
    case 2: t = "solid facet normal"; break;
    case 3: t = "solid\n\n\n"; break;
    case 4: for (int i = 0; i < 80; ++i) t += char(r.i(0, 255)); break;
    default: t = "COLOR=\x10\x20\x30\xff,MATERIAL="; break;
    }
    std::copy(t.begin(), t.end(), head.begin());
    o.bytes = head;
    put(o.bytes, uint32_t(m.t.size()));
    const bool attr = r.p(.4), wrongnormal = r.p(.3);
    for (size_t k = 0; k < m.t.size(); ++k) {
        Facet f;
        const g::V n = wrongnormal ? g::V{ 0, 0, 0 } : m.an(k);
        for (double x : n) put(o.bytes, float(x));
        for (int i = 0; i < 3; ++i) for (size_t d = 0; d < 3; ++d) { const float x = float(m.P(k, i)[d]); put(o.bytes, x); f.p[i][d] = x; }
        put(o.bytes, uint16_t(attr ? r.i(0, 65535) : 0));
        o.tri.push_back(f);
    }
    o.what = "header kind " + std::to_string(kind);
    return o;
}
// ---- VTK legacy unstructured grid
struct Vtk { bool binary = false; std::vector<g::V> pts; std::vector<std::vector<size_t>> cells; std::vector<size_t> types; std::vector<double> scal; std::string scalname; };
inline Vtk vtk(const std::string& s) {
    Vtk o; Tok t{ s };
    if (t.line().rfind("# vtk DataFile Version ", 0) != 0) throw Bad("vtk magic");
    if (t.line().size() > 256) throw Bad("title");
    const std::string enc = t.line();
    if (enc != "ASCII" && enc != "BINARY") throw Bad("encoding " + enc);
    o.binary = enc == "BINARY";
    if (t.line() != "DATASET UNSTRUCTURED_GRID") throw Bad("dataset");
    auto dbl = [&] { if (!o.binary) return t.num(); const double d = t.raw<double>(true); if (!std::isfinite(d)) throw Bad("not finite"); return d; };
    auto i32 = [&] { return o.binary ? size_t(t.raw<uint32_t>(true)) : t.idx(); };
    auto eol = [&] { if (t.i >= s.size() || s[t.i] != '\n') throw Bad("no line end after header"); ++t.i; };
    t.expect("POINTS"); const size_t np = t.idx(); t.expect("double"); eol();
    if (np > s.size()) throw Bad("points");
    for (size_t k = 0; k < np; ++k) { g::V p; for (auto& x : p) x = dbl(); o.pts.push_back(p); }
    t.expect("CELLS"); const size_t nc = t.idx(), sz = t.idx(); eol();
    if (nc > s.size()) throw Bad("cells");
    size_t used = 0;
    for (size_t k = 0; k < nc; ++k) {
        const size_t n = i32(); used += n + 1;
        if (n > 8) throw Bad("cell size");
        std::vector<size_t> c; for (size_t i = 0; i < n; ++i) { c.push_back(i32()); if (c.back() >= np) throw Bad("cell refers to point " + std::to_string(c.back())); }
        o.cells.push_back(c);
    }
    if (used != sz) throw Bad("CELLS size " + std::to_string(sz) + " used " + std::to_string(used));
    t.expect("CELL_TYPES"); if (t.idx() != nc) throw Bad("number of types"); eol();
    for (size_t k = 0; k < nc; ++k) o.types.push_back(i32());
    const size_t rest = s.find_first_not_of(" \n", t.i);
    if (rest == std::string::npos) return o;
    t.expect("POINT_DATA"); if (t.idx() != np) throw Bad("number of point data"); eol();
    t.expect("SCALARS"); o.scalname = t.word(); t.expect("double"); t.expect("1"); eol();
    t.expect("LOOKUP_TABLE"); t.expect("default"); eol();
    for (size_t k = 0; k < np; ++k) o.scal.push_back(dbl());
    if (s.find_first_not_of(" \n", t.i) != std::string::npos) throw Bad("data after the end");
    return o;
}
// ---- JSON (strict)
struct Json {
    enum K { null, boolean, number, string, array, object } k = null;
    bool b = false; double d = 0; std::string s; std::string raw;
    std::vector<Json> a; std::vector<std::pair<std::string, Json>> o;
    const Json& at(const std::string& key) const { for (auto& [n, v] : o) if (n == key) return v; throw Bad("no key " + key); }
};
struct JsonParser {
    const std::string& s; size_t i = 0;
    void ws() { while (i < s.size() && std::strchr(" \t\r\n", s[i])) ++i; }
    char peek() { ws(); if (i >= s.size()) throw Bad("json: end"); return s[i]; }
    void lit(const char* w) { if (s.compare(i, std::strlen(w), w) != 0) throw Bad("json: bad literal at " + s.substr(i, 12)); i += std::strlen(w); }
    std::string str() {
        if (peek() != '"') throw Bad("json: expected string at " + s.substr(i, 12));
        ++i; std::string o;
        for (;;) {
            if (i >= s.size()) throw Bad("json: unterminated string");
            const unsigned char c = static_cast<unsigned char>(s[i++]);
            if (c == '"') return o;
            if (c < 0x20) throw Bad("json: control character in string");
            if (c != '\\') { o += char(c); continue; }
            if (i >= s.size()) throw Bad("json: unterminated escape");
            const char e = s[i++];
            switch (e) {
            case '"': case '\\': case '/': o += e; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { if (i + 4 > s.size()) throw Bad("json: \\u"); const std::string hx = s.substr(i, 4); if (hx.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) throw Bad("json: \\u"); const unsigned v = unsigned(std::stoul(hx, nullptr, 16)); if (v > 0x7F) throw Bad("json: \\u beyond the test's alphabet"); o += char(v); i += 4; break; }
            default: throw Bad("json: bad escape");
            }
        }
    }
    Json val() {
        Json j;
        const char c = peek();
        if (c == '{') {
            j.k = Json::object; ++i;
            if (peek() == '}') { ++i; return j; }
            for (;;) {
                std::string n = str(); for (auto& [m, v] : j.o) if (m == n) throw Bad("json: duplicate key " + n);
                if (peek() != ':') throw Bad("json: expected :"); ++i;
                Json v = val(); j.o.emplace_back(std::move(n), std::move(v));
                const char d = peek(); ++i;
                if (d == '}') return j;
                if (d != ',') throw Bad("json: expected , or }");
            }
        }
        if (c == '[') {
            j.k = Json::array; ++i;
            if (peek() == ']') { ++i; return j; }
            for (;;) {
                j.a.push_back(val());
                const char d = peek(); ++i;
                if (d == ']') return j;
                if (d != ',') throw Bad("json: expected , or ]");
            }
        }
        if (c == '"') { j.k = Json::string; j.s = str(); return j; }
        if (c == 't') { lit("true"); j.k = Json::boolean; j.b = true; return j; }
        if (c == 'f') { lit("false"); j.k = Json::boolean; return j; }
        if (c == 'n') { lit("null"); return j; }
        const size_t b = i;
        if (s[i] == '-') ++i;
        auto digits = [&] { const size_t q = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; if (q == i) throw Bad("json: bad number at " + s.substr(b, 12)); return i - q; };
        if (i < s.size() && s[i] == '0' && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '9') throw Bad("json: leading zero");
        digits();
        if (i < s.size() && s[i] == '.') { ++i; digits(); }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; digits(); }
        j.k = Json::number; j.raw = s.substr(b, i - b); j.d = std::strtod(j.raw.c_str(), nullptr);
        return j;
    }
};
inline Json json(const std::string& s) { JsonParser p{ s }; Json j = p.val(); p.ws(); if (p.i != s.size()) throw Bad("json: data after the end"); return j; }
}// namespace io
