# C25, scripting helpers: the affine map between the two boxes and its inverse.
from fractions import Fraction as F
import hp
Q = hp.load()
from QuESoPythonModule.scripts.helper import point_from_global_to_param_space as down, point_from_param_to_global_space as up


def box(rng):
    s = 10.0 ** rng.uniform(-4, 4)
    o = s * 10.0 ** rng.uniform(-2, 2) * rng.choice((-1, 0, 1))
    e = [s * rng.uniform(.2, 5) for _ in range(3)]
    lo = [o * rng.uniform(.5, 1.5) for _ in range(3)]
    return lo, [a + b for a, b in zip(lo, e)]


def case(c, rng, r):
    X, U = box(rng), box(rng)
    tx = [1e-13 * (abs(a) + abs(b)) for a, b in zip(*X)]
    tu = [1e-13 * (abs(a) + abs(b)) for a, b in zip(*U)]
    for f, A, B, t, back, tb in ((down, X, U, tu, up, tx), (up, U, X, tx, down, tu)):
        pts = [tuple(A[rng.randint(0, 1)][i] for i in range(3)) for _ in range(4)] + [tuple(rng.uniform(2 * a - b, 2 * b - a) if rng.random() < .5 else rng.uniform(a, b) for a, b in zip(*A)) for _ in range(8)]
        for p in pts:
            q = f(p, X, U)
            want = [float(F(B[0][i]) + (F(p[i]) - F(A[0][i])) * (F(B[1][i]) - F(B[0][i])) / (F(A[1][i]) - F(A[0][i]))) for i in range(3)]
            # the error of p - lower is magnified by the ratio of the lengths
            tol = [t[i] + 4e-16 * (abs(p[i]) + abs(A[0][i])) * (B[1][i] - B[0][i]) / (A[1][i] - A[0][i]) * 4 for i in range(3)]
            r.check(len(q) == 3 and all(abs(q[i] - want[i]) <= tol[i] for i in range(3)), "helper-" + f.__name__, lambda: "%r -> %r, expected %r, boxes %r %r" % (p, q, want, X, U))
            z = back(q, X, U)
            tol2 = [tb[i] + 4 * tol[i] * (A[1][i] - A[0][i]) / (B[1][i] - B[0][i]) for i in range(3)]
            r.check(all(abs(z[i] - p[i]) <= tol2[i] for i in range(3)), "helper-round-trip", lambda: "%r -> %r -> %r, boxes %r %r" % (p, q, z, X, U))
            r.count("points mapped")
    r.nontrivial(repr((X, U)))
    r.sample("boxes %r %r" % (X, U))


hp.run(case)
