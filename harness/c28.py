# C28: the B-Spline volume represents the grid box.
import math
import hp
import numpy as np
Q = hp.load()
from QuESoPythonModule.scripts.b_spline_volume import BSplineVolume


def bounds(rng):
    lo, up = [], []
    for _ in range(3):
        size = 10.0 ** rng.uniform(-4, 5)
        a = rng.choice((0.0, rng.uniform(-1, 1) * size, float(rng.randint(-10, 10)), rng.uniform(-1, 1) * size * 100, -size / 2))
        lo.append(a)
        up.append(a + size)
    return lo, up


def basis(t, p, i, u):
    """Value of the i-th B-Spline of order p (Cox-de Boor), right-continuous, closed at the end of the domain."""
    if p == 0:
        return 1.0 if t[i] <= u < t[i + 1] else 0.0
    s = 0.0
    if t[i + p] > t[i]:
        s += (u - t[i]) / (t[i + p] - t[i]) * basis(t, p - 1, i, u)
    if t[i + p + 1] > t[i + 1]:
        s += (t[i + p + 1] - u) / (t[i + p + 1] - t[i + 1]) * basis(t, p - 1, i + 1, u)
    return s


def case(c, rng, r):
    h = Q.Dictionary.Create("Settings")
    g = h.GetObject()["background_grid_settings"]
    p = [rng.choice((1, 2, 3, 4) if rng.random() < .8 else (5, 6, 7, 8)) for _ in range(3)]
    n = [rng.choice((1, 2, 3, rng.randint(1, 12), rng.randint(1, 12), rng.randint(1, 60) if rng.random() < .3 else 5)) for _ in range(3)]
    lo, up = bounds(rng)
    ul, uu = bounds(rng) if rng.random() < .6 else (lo, up)
    g.SetValue("polynomial_order", p)
    g.SetValue("number_of_elements", n)
    for k, v in dict(lower_bound_xyz=lo, upper_bound_xyz=up, lower_bound_uvw=ul, upper_bound_uvw=uu).items():
        g.SetValue(k, v)
    kind = rng.choice(["open_knot_vector", "non_open_knot_vector"])
    where = lambda: "%s p=%r n=%r xyz=%r..%r uvw=%r..%r" % (kind, p, n, lo, up, ul, uu)
    vol = BSplineVolume(h.GetObject(), kind)
    r.check(list(vol.PolynomialOrder()) == p, "order", lambda: "%r: %s" % (vol.PolynomialOrder(), where()))
    num = [vol.NumberControlPointsInU(), vol.NumberControlPointsInV(), vol.NumberControlPointsInW()]
    r.check(num == [a + b for a, b in zip(p, n)], "control-point-count", lambda: "%r control points: %s" % (num, where()))
    knots = [vol.KnotsU(), vol.KnotsV(), vol.KnotsW()]
    for i in range(3):
        s = vol.GetSpline(i)
        t = knots[i]
        L, X = uu[i] - ul[i], up[i] - lo[i]
        tu = 1e-9 * L + 1e-13 * max(abs(ul[i]), abs(uu[i]))
        tx = 1e-9 * X + 1e-13 * max(abs(lo[i]), abs(up[i]))
        du = L / n[i]
        r.check(s.k == p[i] and list(s.t) == t, "spline", where)
        want = [ul[i]] * p[i] if kind == "open_knot_vector" else [ul[i] - (p[i] - j) * du for j in range(p[i])]
        want += [ul[i] + j * du for j in range(n[i] + 1)]
        want += [uu[i]] * p[i] if kind == "open_knot_vector" else [uu[i] + (j + 1) * du for j in range(p[i])]
        if r.check(len(t) == len(want), "knot-count", lambda: "%d knots, expected %d: %s" % (len(t), len(want), where())):
            e = max(abs(a - b) for a, b in zip(t, want))
            r.maxi("knot error / length", e / L)
            r.check(e <= tu, "knots", lambda: "direction %d, knots differ by %g: %s" % (i, e, where()))
        r.check(all(a <= b for a, b in zip(t, t[1:])), "knots-sorted", where)
        inner = sorted(x for x in t if ul[i] + du / 2 < x < uu[i] - du / 2)
        r.check(len(inner) == n[i] - 1, "interior-knots", lambda: "%d interior knots for %d elements: %s" % (len(inner), n[i], where()))
        cp = np.asarray(s.c, dtype=float)
        r.check(len(cp) == num[i], "coefficients", where)
        for _ in range(12):
            k = rng.random()
            x = rng.choice((0.0, 1.0)) if k < .2 else rng.randint(0, n[i]) / n[i] if k < .5 else rng.random()
            u = min(max(ul[i] + x * L, t[p[i]]), t[-p[i] - 1])
            v = float(s(u))
            w = lo[i] + (u - ul[i]) / L * X
            r.maxi("map error / length", abs(v - w) / X)
            r.check(abs(v - w) <= tx, "map", lambda: "direction %d: u=%r is mapped to %r instead of %r: %s" % (i, u, v, w, where()))
            if len(t) == len(want) and t[p[i]] < u < t[-p[i] - 1]:  # the same from the published knots and control points
                own = math.fsum(basis(t, p[i], j, u) * cp[j] for j in range(num[i]) if t[j] <= u <= t[j + p[i] + 1])
                r.check(abs(own - w) <= tx, "map-own", lambda: "direction %d: knots and control points give %r at u=%r instead of %r: %s" % (i, own, u, w, where()))
        r.count("directions")
    if num[0] * num[1] * num[2] < 6000:
        cps, mat = vol.ControlPoints(), vol.ControlPointsMatrix()
        r.check(len(cps) == num[0] * num[1] * num[2] and mat.shape == (*num, 3), "shape", lambda: "%d control points, matrix %r: %s" % (len(cps), mat.shape, where()))
        k = 0
        bad = 0
        cu, cv, cw = (np.asarray(vol.GetSpline(i).c, dtype=float) for i in range(3))
        for iw in range(num[2]):
            for iv in range(num[1]):
                for iu in range(num[0]):
                    bad += not (tuple(cps[k]) == tuple(mat[iu, iv, iw]) == (cu[iu], cv[iv], cw[iw]))
                    k += 1
        r.check(bad == 0, "control-points", lambda: "%d control points differ between list, matrix and splines: %s" % (bad, where()))
        r.count("control points", k)
    r.check(hp.raises(lambda: vol.GetSpline(3)) is not None and hp.raises(lambda: vol.GetSpline(-1)) is not None, "index", "GetSpline accepts an index out of range")
    r.check(hp.raises(lambda: BSplineVolume(h.GetObject(), rng.choice(["", "open", "Open_knot_vector", "open_knot_vector "]))) is not None, "type", "unknown knot vector type accepted")
    r.nontrivial(where())
    r.sample(where()[:200])


hp.run(case)
