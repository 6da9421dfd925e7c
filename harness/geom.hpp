// Mesh generators and geometric oracles. Independent of the code under test (plain arrays only).
#pragma once
#include <algorithm>
#include <array>
#include <map>
#include "h.hpp"

namespace g {
using V = std::array<double, 3>;
using T = std::array<size_t, 3>;
inline V operator+(const V& a, const V& b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
inline V operator-(const V& a, const V& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
inline V operator*(double s, const V& a) { return { s * a[0], s * a[1], s * a[2] }; }
inline double dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V cross(const V& a, const V& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
inline double norm(const V& a) { return std::sqrt(dot(a, a)); }

struct Mesh {
    std::vector<V> v;
    std::vector<T> t;
    std::string name;
    size_t add(const V& p) { v.push_back(p); return v.size() - 1; }
    void tri(size_t a, size_t b, size_t c) { t.push_back({ a, b, c }); }
    const V& P(size_t k, int i) const { return v[t[k][i]]; }
    V an(size_t k) const { return cross(P(k, 1) - P(k, 0), P(k, 2) - P(k, 0)); }// 2*area normal
    double area() const { double s = 0; for (size_t k = 0; k < t.size(); ++k) s += 0.5 * norm(an(k)); return s; }
    double volume() const {
        double s = 0;
        const V o = v.empty() ? V{} : v[0];
        for (size_t k = 0; k < t.size(); ++k) s += dot(P(k, 0) - o, cross(P(k, 1) - o, P(k, 2) - o)) / 6.0;
        return s;
    }
    std::pair<V, V> box() const {
        V lo{ 1e300, 1e300, 1e300 }, up{ -1e300, -1e300, -1e300 };
        for (auto& f : t) for (auto q : f) for (int i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], v[q][i]); up[i] = std::max(up[i], v[q][i]); }
        return { lo, up };
    }
    void append(const Mesh& m) {
        const size_t o = v.size();
        v.insert(v.end(), m.v.begin(), m.v.end());
        for (auto f : m.t) t.push_back({ f[0] + o, f[1] + o, f[2] + o });
        name += "+" + m.name;
    }
    void flip() { for (auto& f : t) std::swap(f[1], f[2]); }
    template<class F> void map(F&& f) { for (auto& p : v) p = f(p); if (volume() < 0) flip(); }
};

// ---------------------------------------------------------------- generators
inline Mesh quadgrid(int n1, int n2, std::function<V(double, double)> f) {
    Mesh m;
    for (int j = 0; j <= n2; ++j) for (int i = 0; i <= n1; ++i) m.add(f(double(i) / n1, double(j) / n2));
    auto id = [&](int i, int j) { return size_t(j * (n1 + 1) + i); };
    for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) {
        m.tri(id(i, j), id(i + 1, j), id(i + 1, j + 1));
        m.tri(id(i, j), id(i + 1, j + 1), id(i, j + 1));
    }
    return m;
}
// merges equal vertices
inline Mesh weld(const Mesh& m) {
    Mesh o; o.name = m.name;
    std::map<V, size_t> ids;
    std::vector<size_t> mp(m.v.size());
    for (size_t i = 0; i < m.v.size(); ++i) {
        auto [it, nw] = ids.try_emplace(m.v[i], o.v.size());
        if (nw) o.v.push_back(m.v[i]);
        mp[i] = it->second;
    }
    for (auto f : m.t) {
        T q{ mp[f[0]], mp[f[1]], mp[f[2]] };
        if (q[0] != q[1] && q[1] != q[2] && q[0] != q[2]) o.t.push_back(q);
    }
    return o;
}
inline Mesh box(const V& lo, const V& up, int n = 1) {
    Mesh m;
    auto face = [&](int ax, bool top) {
        const int a = (ax + 1) % 3, b = (ax + 2) % 3;
        Mesh q = quadgrid(n, n, [&](double s, double r) {
            V p{};
            p[ax] = top ? up[ax] : lo[ax];
            p[a] = s >= 1.0 ? up[a] : lo[a] + s * (up[a] - lo[a]);
            p[b] = r >= 1.0 ? up[b] : lo[b] + r * (up[b] - lo[b]);
            return p;
        });
        if (!top) q.flip();
        m.append(q);
    };
    for (int ax = 0; ax < 3; ++ax) { face(ax, true); face(ax, false); }
    Mesh w = weld(m); w.name = "box" + std::to_string(n);
    return w;
}
inline Mesh sphere(int nu, int nv, std::function<double(const V&)> rad = [](const V&) { return 1.0; }) {
    Mesh m; m.name = "sphere" + std::to_string(nu) + "x" + std::to_string(nv);
    const double PI = 3.14159265358979323846;
    auto pt = [&](double th, double ph) { V d{ std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th) }; return rad(d) * d; };
    const size_t top = m.add(rad({ 0, 0, 1 }) * V{ 0, 0, 1 });
    for (int j = 1; j < nv; ++j) for (int i = 0; i < nu; ++i) m.add(pt(PI * j / nv, 2 * PI * i / nu));
    const size_t bot = m.add(rad({ 0, 0, -1 }) * V{ 0, 0, -1 });
    auto id = [&](int j, int i) { return size_t(1 + (j - 1) * nu + i % nu); };
    for (int i = 0; i < nu; ++i) {
        m.tri(top, id(1, i), id(1, i + 1));
        m.tri(bot, id(nv - 1, i + 1), id(nv - 1, i));
    }
    for (int j = 1; j < nv - 1; ++j) for (int i = 0; i < nu; ++i) {
        m.tri(id(j, i), id(j + 1, i), id(j + 1, i + 1));
        m.tri(id(j, i), id(j + 1, i + 1), id(j, i + 1));
    }
    return m;
}
inline Mesh torus(int nu, int nv, double R, double r) {
    Mesh m; m.name = "torus" + std::to_string(nu) + "x" + std::to_string(nv);
    const double PI = 3.14159265358979323846;
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) {
        const double a = 2 * PI * i / nu, b = 2 * PI * j / nv;
        m.add({ (R + r * std::cos(b)) * std::cos(a), (R + r * std::cos(b)) * std::sin(a), r * std::sin(b) });
    }
    auto id = [&](int i, int j) { return size_t((i % nu) * nv + j % nv); };
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) {
        m.tri(id(i, j), id(i + 1, j), id(i + 1, j + 1));
        m.tri(id(i, j), id(i + 1, j + 1), id(i, j + 1));
    }
    if (m.volume() < 0) m.flip();
    return m;
}
// Prism over a regular polygon with a tapered top (top scale 0 gives a pyramid).
inline Mesh prism(int n, double top, double hgt) {
    Mesh m; m.name = "prism" + std::to_string(n);
    const double PI = 3.14159265358979323846;
    for (int i = 0; i < n; ++i) m.add({ std::cos(2 * PI * i / n), std::sin(2 * PI * i / n), 0.0 });
    const size_t cb = m.add({ 0, 0, 0 });
    if (top <= 0.0) {
        const size_t a = m.add({ 0, 0, hgt });
        for (int i = 0; i < n; ++i) { m.tri(size_t(i), size_t((i + 1) % n), a); m.tri(cb, size_t((i + 1) % n), size_t(i)); }
    } else {
        const size_t o = m.v.size();
        for (int i = 0; i < n; ++i) m.add({ top * std::cos(2 * PI * i / n), top * std::sin(2 * PI * i / n), hgt });
        const size_t ct = m.add({ 0, 0, hgt });
        for (int i = 0; i < n; ++i) {
            const size_t a = size_t(i), b = size_t((i + 1) % n);
            m.tri(a, b, o + b); m.tri(a, o + b, o + a);
            m.tri(cb, b, a); m.tri(ct, o + a, o + b);
        }
    }
    return m;
}
inline Mesh tetra(const V& a, const V& b, const V& c, const V& d) {
    Mesh m; m.name = "tetra";
    m.v = { a, b, c, d };
    m.t = { { 0, 2, 1 }, { 0, 1, 3 }, { 1, 2, 3 }, { 0, 3, 2 } };
    if (m.volume() < 0) m.flip();
    return m;
}
// Extrusion of a rectilinear ring (L, U, frame) built from a boolean cell mask; face-connected bodies only.
inline Mesh voxels(int n1, int n2, int n3, const std::vector<char>& on, const V& lo, const V& up) {
    Mesh m;
    auto at = [&](int i, int j, int k) { return i >= 0 && j >= 0 && k >= 0 && i < n1 && j < n2 && k < n3 && on[size_t((k * n2 + j) * n1 + i)]; };
    auto X = [&](int i, int j, int k) { return V{ lo[0] + (up[0] - lo[0]) * i / n1, lo[1] + (up[1] - lo[1]) * j / n2, lo[2] + (up[2] - lo[2]) * k / n3 }; };
    for (int k = 0; k < n3; ++k) for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) {
        if (!at(i, j, k)) continue;
        const int c[3] = { i, j, k };
        for (int ax = 0; ax < 3; ++ax) for (int s = 0; s < 2; ++s) {
            int nb[3] = { i, j, k }; nb[ax] += s ? 1 : -1;
            if (at(nb[0], nb[1], nb[2])) continue;
            const int a = (ax + 1) % 3, b = (ax + 2) % 3;
            int q[4][3];
            for (int w = 0; w < 4; ++w) { q[w][ax] = c[ax] + s; q[w][a] = c[a] + (w == 1 || w == 2); q[w][b] = c[b] + (w >= 2); }
            size_t id[4];
            for (int w = 0; w < 4; ++w) id[w] = m.add(X(q[w][0], q[w][1], q[w][2]));
            if (s) { m.tri(id[0], id[1], id[2]); m.tri(id[0], id[2], id[3]); }
            else { m.tri(id[0], id[2], id[1]); m.tri(id[0], id[3], id[2]); }
        }
    }
    Mesh w = weld(m); w.name = "voxels";
    return w;
}
// True if no edge is used by more than two triangles and every edge is matched by its reverse.
inline bool manifold(const Mesh& m) {
    std::map<std::pair<size_t, size_t>, int> e;
    for (auto& f : m.t) for (int i = 0; i < 3; ++i) ++e[{ f[i], f[(i + 1) % 3] }];
    for (auto& [k, c] : e) { if (c != 1) return false; auto r = e.find({ k.second, k.first }); if (r == e.end() || r->second != 1) return false; }
    return true;
}
inline std::array<V, 3> rotation(h::Rng& r) {
    // uniform random rotation (quaternion)
    double q[4], n = 0;
    for (double& x : q) { x = r.normal(); n += x * x; }
    n = std::sqrt(n); for (double& x : q) x /= n;
    const double w = q[0], x = q[1], y = q[2], z = q[3];
    return { V{ 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y) },
             V{ 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x) },
             V{ 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y) } };
}
inline V rot(const std::array<V, 3>& R, const V& p) { return { dot(R[0], p), dot(R[1], p), dot(R[2], p) }; }

// A random closed, consistently oriented body roughly in [-1,1]^3 ("smooth" = in general position).
inline Mesh body(h::Rng& r, int detail = 1) {
    Mesh m;
    const int kind = r.i(0, 10);
    bool rotate = r.p(0.7);
    switch (kind) {
    case 0: m = box({ -r.u(.3, 1), -r.u(.3, 1), -r.u(.3, 1) }, { r.u(.3, 1), r.u(.3, 1), r.u(.3, 1) }, r.i(1, 3)); break;
    case 1: m = sphere(r.i(5, 8 + 6 * detail), r.i(4, 6 + 4 * detail)); break;
    case 2: { const double a = r.u(.4, 1), b = r.u(.4, 1), c = r.u(.4, 1);
        m = sphere(r.i(5, 8 + 6 * detail), r.i(4, 6 + 4 * detail)); m.map([&](const V& p) { return V{ a * p[0], b * p[1], c * p[2] }; }); m.name = "ellipsoid"; break; }
    case 3: m = torus(r.i(5, 8 + 6 * detail), r.i(4, 6 + 3 * detail), r.u(.55, .7), r.u(.15, .4)); break;
    case 4: m = prism(r.i(3, 9), r.p(.4) ? 0.0 : r.u(.3, 1.2), r.u(.5, 1.5)); m.map([](const V& p) { return V{ p[0], p[1], p[2] - .5 }; }); break;
    case 5: { V q[4]; do { for (auto& x : q) x = { r.u(-1, 1), r.u(-1, 1), r.u(-1, 1) }; } while (std::fabs(dot(q[1] - q[0], cross(q[2] - q[0], q[3] - q[0]))) < .4);
        m = tetra(q[0], q[1], q[2], q[3]); break; }
    case 6: { const double a = r.u(.1, .3), b = r.u(0, 6), c = r.u(1, 4), d = r.u(1, 4);
        m = sphere(r.i(8, 10 + 8 * detail), r.i(6, 8 + 5 * detail), [=](const V& p) { return .7 + a * std::sin(c * p[0] + b) * std::cos(d * p[1] - b) + .1 * p[2]; }); m.name = "blob"; break; }
    case 7: { std::vector<char> on; const int n1 = r.i(1, 3), n2 = r.i(1, 3), n3 = r.i(1, 3);
        for (int tries = 0;; ++tries) {
            on.assign(size_t(n1 * n2 * n3), 0); for (auto& x : on) x = r.p(tries > 40 ? 1.0 : .7);
            if (std::count(on.begin(), on.end(), 1) == 0) continue;
            m = voxels(n1, n2, n3, on, { -r.u(.5, 1), -r.u(.5, 1), -r.u(.5, 1) }, { r.u(.5, 1), r.u(.5, 1), r.u(.5, 1) });
            if (manifold(m)) break;
        } break; }
    case 8: { // body with an inner cavity
        m = box({ -.9, -.9, -.9 }, { .9, .9, .9 }, r.i(1, 2));
        Mesh c = r.p(.5) ? sphere(r.i(5, 9), r.i(4, 7)) : box({ -1, -1, -1 }, { 1, 1, 1 }, 1);
        const double s = r.u(.2, .6); c.map([&](const V& p) { return V{ s * p[0] + .1, s * p[1] - .07, s * p[2] + .03 }; }); c.flip(); m.append(c); m.name = "cavity"; break; }
    case 9: { // two or three disjoint components
        m.name = "multi";
        const int n = r.i(2, 3);
        for (int k = 0; k < n; ++k) {
            Mesh c = r.p(.5) ? sphere(r.i(5, 9), r.i(4, 7)) : box({ -1, -1, -1 }, { 1, 1, 1 }, 1);
            const double s = r.u(.08, .3);
            const V o{ -.65 + .65 * k, r.u(-.6, .6), r.u(-.6, .6) };
            c.map([&](const V& p) { return V{ s * p[0] + o[0], s * p[1] + o[1], s * p[2] + o[2] }; });
            m.append(c);
        } break; }
    default: { // thin plate or rod
        const double a = r.u(.02, .15), b = r.p(.5) ? a : r.u(.4, 1);
        m = box({ -a, -b, -r.u(.6, 1) }, { a, b, r.u(.6, 1) }, r.i(1, 2)); m.name = "thin"; break; }
    }
    if (rotate) {
        const auto R = rotation(r);
        for (auto& p : m.v) p = rot(R, p);
        m.name += "/rot";
    }
    return m;
}

// ---------------------------------------------------------------- oracles
// Winding number (sum of solid angles / 4 pi): ~1 inside, ~0 outside for closed outward-oriented meshes.
inline double winding(const Mesh& m, const V& p) {
    double s = 0;
    for (size_t k = 0; k < m.t.size(); ++k) {
        const V a = m.P(k, 0) - p, b = m.P(k, 1) - p, c = m.P(k, 2) - p;
        const double la = norm(a), lb = norm(b), lc = norm(c);
        const double num = dot(a, cross(b, c));
        const double den = la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb;
        s += 2.0 * std::atan2(num, den);
    }
    return s / (4.0 * 3.14159265358979323846);
}
// Distance point - triangle.
inline double dist(const V& p, const V& a, const V& b, const V& c) {
    const V ab = b - a, ac = c - a, ap = p - a;
    const double d1 = dot(ab, ap), d2 = dot(ac, ap);
    if (d1 <= 0 && d2 <= 0) return norm(ap);
    const V bp = p - b; const double d3 = dot(ab, bp), d4 = dot(ac, bp);
    if (d3 >= 0 && d4 <= d3) return norm(bp);
    const double vc = d1 * d4 - d3 * d2;
    if (vc <= 0 && d1 >= 0 && d3 <= 0) return norm(p - (a + (d1 / (d1 - d3)) * ab));
    const V cp = p - c; const double d5 = dot(ab, cp), d6 = dot(ac, cp);
    if (d6 >= 0 && d5 <= d6) return norm(cp);
    const double vb = d5 * d2 - d1 * d6;
    if (vb <= 0 && d2 >= 0 && d6 <= 0) return norm(p - (a + (d2 / (d2 - d6)) * ac));
    const double va = d3 * d6 - d5 * d4;
    if (va <= 0 && (d4 - d3) >= 0 && (d5 - d6) >= 0) return norm(p - (b + ((d4 - d3) / ((d4 - d3) + (d5 - d6))) * (c - b)));
    const double den = 1.0 / (va + vb + vc);
    return norm(p - (a + (vb * den) * ab + (vc * den) * ac));
}
inline double dist(const Mesh& m, const V& p) {
    double d = 1e300;
    for (size_t k = 0; k < m.t.size(); ++k) d = std::min(d, dist(p, m.P(k, 0), m.P(k, 1), m.P(k, 2)));
    return d;
}
using Poly = std::vector<V>;
// Keeps the part with s*(x[ax]-c) >= 0.
inline Poly clip(const Poly& q, int ax, double c, double s) {
    Poly o;
    const size_t n = q.size();
    for (size_t i = 0; i < n; ++i) {
        const V& a = q[i]; const V& b = q[(i + 1) % n];
        const double da = s * (a[ax] - c), db = s * (b[ax] - c);
        if (da >= 0) o.push_back(a);
        if ((da > 0 && db < 0) || (da < 0 && db > 0)) {
            const double w = da / (da - db);
            V x = a + w * (b - a); x[ax] = c; o.push_back(x);
        }
    }
    return o;
}
inline double area(const Poly& q) {
    V s{};
    for (size_t i = 1; i + 1 < q.size(); ++i) s = s + cross(q[i] - q[0], q[i + 1] - q[0]);
    return 0.5 * norm(s);
}
inline Poly clipbox(Poly q, const V& lo, const V& up) {
    for (int ax = 0; ax < 3 && q.size() > 2; ++ax) { q = clip(q, ax, lo[ax], 1); if (q.size() > 2) q = clip(q, ax, up[ax], -1); }
    if (q.size() < 3) q.clear();
    return q;
}
// Area, vector area and first moment (about o) of a collection of planar pieces.
struct Sum {
    double a = 0; V n{}, c{};
    void add(const Poly& q, const V& o) {
        for (size_t i = 1; i + 1 < q.size(); ++i) {
            const V x = 0.5 * cross(q[i] - q[0], q[i + 1] - q[0]);
            const double A = norm(x);
            a += A; n = n + x; c = c + (A / 3) * ((q[0] - o) + (q[i] - o) + (q[i + 1] - o));
        }
    }
    std::string str() const { return "area " + h::str(a) + " vector " + h::vec(n) + " first moment " + h::vec(c); }
};
inline Poly poly(const Mesh& m, size_t k) { return { m.P(k, 0), m.P(k, 1), m.P(k, 2) }; }
// Area of mesh inside closed box
inline double area_in_box(const Mesh& m, const V& lo, const V& up) {
    double s = 0;
    for (size_t k = 0; k < m.t.size(); ++k) {
        bool apart = false;
        for (int i = 0; i < 3 && !apart; ++i) {
            const double a = std::min({ m.P(k, 0)[i], m.P(k, 1)[i], m.P(k, 2)[i] }), b = std::max({ m.P(k, 0)[i], m.P(k, 1)[i], m.P(k, 2)[i] });
            apart = a > up[i] || b < lo[i];
        }
        if (!apart) s += area(clipbox(poly(m, k), lo, up));
    }
    return s;
}
// Gauss-Legendre on [0,1], computed by Newton iteration (independent of the tables under test).
inline const std::vector<std::array<double, 2>>& gauss(int n) {
    static std::map<int, std::vector<std::array<double, 2>>> cache;
    auto& r = cache[n];
    if (!r.empty()) return r;
    for (int i = 0; i < n; ++i) {
        long double x = std::cos(3.14159265358979323846L * (i + 0.75L) / (n + 0.5L)), pp = 1;
        for (int it = 0; it < 100; ++it) {
            long double p0 = 1, p1 = x;
            for (int k = 2; k <= n; ++k) { const long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
            if (n == 1) { p0 = 1; p1 = x; }
            pp = n * (x * p1 - p0) / (x * x - 1);
            const long double dx = p1 / pp; x -= dx;
            if (std::fabs(static_cast<double>(dx)) < 1e-18) break;
        }
        r.push_back({ static_cast<double>((1 - x) / 2), static_cast<double>(1 / ((1 - x * x) * pp * pp)) });
    }
    std::sort(r.begin(), r.end());
    return r;
}
// Shifted Legendre polynomials on [0,1].
inline void legendre01(double x, int n, double* out) {
    const double y = 2 * x - 1;
    out[0] = 1; if (n >= 1) out[1] = y;
    for (int k = 2; k <= n; ++k) out[k] = ((2 * k - 1) * y * out[k - 1] - (k - 1) * out[k - 2]) / k;
}
// Moments of (body ∩ cell) against tensor products of shifted Legendre polynomials in local coordinates of the
// cell ([0,1]^3, volume measured in units of the cell volume): vertical-prism decomposition of a closed mesh.
struct Moments {
    std::array<int, 3> n;// highest degree per direction
    std::vector<double> m;
    double& at(int i, int j, int k) { return m[size_t((k * (n[1] + 1) + j) * (n[0] + 1) + i)]; }
    double at(int i, int j, int k) const { return m[size_t((k * (n[1] + 1) + j) * (n[0] + 1) + i)]; }
};
inline Moments moments(const Mesh& mesh, const V& lo, const V& up, std::array<int, 3> n) {
    Moments M{ n, std::vector<double>(size_t((n[0] + 1) * (n[1] + 1) * (n[2] + 1)), 0.0) };
    const V d = up - lo;
    const int ng = (n[0] + n[1] + n[2] + 1) / 2 + 2;
    const auto& G = gauss(ng);
    std::vector<double> lx(size_t(n[0] + 1)), ly(size_t(n[1] + 1)), lz(size_t(n[2] + 2)), iz(size_t(n[2] + 1));
    auto add = [&](const Poly& q, double sign, int mode) {// mode 0: below surface clipped by surface, 1: full column
        for (size_t f = 1; f + 1 < q.size(); ++f) {
            const V &a = q[0], &b = q[f], &c = q[f + 1];
            const double J = std::fabs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]));
            if (J == 0.0) continue;
            for (auto& g1 : G) for (auto& g2 : G) {
                const double s = g1[0], r = g2[0] * (1 - g1[0]);
                const double w = sign * J * g1[1] * g2[1] * (1 - g1[0]);
                const double x = a[0] + s * (b[0] - a[0]) + r * (c[0] - a[0]);
                const double y = a[1] + s * (b[1] - a[1]) + r * (c[1] - a[1]);
                const double z = mode ? 1.0 : a[2] + s * (b[2] - a[2]) + r * (c[2] - a[2]);
                legendre01(x, n[0], lx.data()); legendre01(y, n[1], ly.data()); legendre01(z, n[2] + 1, lz.data());
                iz[0] = z;
                for (int k = 1; k <= n[2]; ++k) iz[size_t(k)] = (lz[size_t(k + 1)] - lz[size_t(k - 1)]) / (2.0 * (2 * k + 1));
                size_t e = 0;
                for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) {
                    const double t = w * iz[size_t(k)] * ly[size_t(j)];
                    for (int i = 0; i <= n[0]; ++i) M.m[e++] += t * lx[size_t(i)];
                }
            }
        }
    };
    for (size_t t = 0; t < mesh.t.size(); ++t) {
        Poly q = poly(mesh, t);
        double a[3], b[3];
        for (int i = 0; i < 3; ++i) { a[i] = std::min({ q[0][i], q[1][i], q[2][i] }); b[i] = std::max({ q[0][i], q[1][i], q[2][i] }); }
        if (a[0] >= up[0] || b[0] <= lo[0] || a[1] >= up[1] || b[1] <= lo[1] || b[2] <= lo[2]) continue;
        for (auto& p : q) for (int i = 0; i < 3; ++i) p[i] = (p[i] - lo[i]) / d[i];
        const double nz = (q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[1][1] - q[0][1]) * (q[2][0] - q[0][0]);
        if (nz == 0.0) continue;
        const double sign = nz > 0 ? 1.0 : -1.0;
        for (int ax = 0; ax < 2 && q.size() > 2; ++ax) { q = clip(q, ax, 0.0, 1); if (q.size() > 2) q = clip(q, ax, 1.0, -1); }
        if (q.size() < 3) continue;
        q = clip(q, 2, 0.0, 1);
        if (q.size() < 3) continue;
        double zl = 1e300, zu = -1e300;
        for (auto& v : q) { zl = std::min(zl, v[2]); zu = std::max(zu, v[2]); }
        if (zl >= 1.0) { add(q, sign, 1); continue; }// a face on the lid counts once
        if (zu <= 1.0) { add(q, sign, 0); continue; }
        Poly mid = clip(q, 2, 1.0, -1), top = clip(q, 2, 1.0, 1);
        if (mid.size() > 2) add(mid, sign, 0);
        if (top.size() > 2) add(top, sign, 1);
    }
    return M;
}
inline double fraction(const Mesh& m, const V& lo, const V& up) { return moments(m, lo, up, { 0, 0, 0 }).m[0]; }

// A grid: bounds and numbers.
struct Grid {
    V lo, up;
    std::array<int, 3> n;
    V ulo{ 0, 0, 0 }, uup{ 1, 1, 1 };
    bool spline = true;
    size_t size() const { return size_t(n[0] * n[1] * n[2]); }
    std::array<int, 3> ijk(size_t id) const { return { int(id % size_t(n[0])), int(id / size_t(n[0]) % size_t(n[1])), int(id / size_t(n[0] * n[1])) }; }
    V corner(int i, int j, int k) const { return { lo[0] + (up[0] - lo[0]) * i / n[0], lo[1] + (up[1] - lo[1]) * j / n[1], lo[2] + (up[2] - lo[2]) * k / n[2] }; }
    std::pair<V, V> cell(size_t id) const { auto c = ijk(id); return { corner(c[0], c[1], c[2]), corner(c[0] + 1, c[1] + 1, c[2] + 1) }; }
    std::string str() const { return "n=" + h::vec(n) + " lo=" + h::vec(lo) + " up=" + h::vec(up) + (spline ? " spline" : " fe") + " ulo=" + h::vec(ulo) + " uup=" + h::vec(uup); }
};
// mode: 0 random margin; 1 grid planes coincide with the body's bounding box; 2 body partly outside
inline Grid grid(h::Rng& r, const Mesh& m, int maxn, int mode) {
    Grid gr;
    auto [lo, up] = m.box();
    for (int i = 0; i < 3; ++i) {
        const double L = up[i] - lo[i];
        if (mode == 1) { gr.lo[i] = lo[i]; gr.up[i] = up[i]; }
        else if (mode == 2) { gr.lo[i] = lo[i] + L * r.u(-.1, .3); gr.up[i] = up[i] - L * r.u(-.1, .3); }
        else { gr.lo[i] = lo[i] - L * r.u(.01, .3); gr.up[i] = up[i] + L * r.u(.01, .3); }
        gr.n[i] = r.p(.15) ? 1 : r.i(1, maxn);
        gr.ulo[i] = r.p(.3) ? gr.lo[i] : r.u(-2, 1);
        gr.uup[i] = r.p(.3) && gr.ulo[i] == gr.lo[i] ? gr.up[i] : gr.ulo[i] + r.u(.5, 5);
    }
    gr.spline = r.p(.6);
    return gr;
}
inline bool in_box(const V& p, const V& lo, const V& up, double tol) {
    for (int i = 0; i < 3; ++i) if (!(p[i] >= lo[i] - tol * (up[i] - lo[i]) && p[i] <= up[i] + tol * (up[i] - lo[i]))) return false;
    return true;
}
inline std::string describe(const Mesh& m) {
    std::string s = m.name + " tris=" + std::to_string(m.t.size()) + " verts=" + std::to_string(m.v.size());
    return s;
}
}// namespace g
using g::operator+;
using g::operator-;
using g::operator*;
