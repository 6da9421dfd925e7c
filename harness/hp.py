"""Shared support of the python drivers: the counterpart of h.hpp (same line protocol, same arguments)."""
import itertools, json, math, os, random, sys

ARGS = {"--seed": "1", "--from": "0", "--to": "1", "--tier": "quick", "--tmp": "/tmp", "--pkg": ""}
OPT = {}
_a = sys.argv[1:]
for _k, _v in zip(_a[0::2], _a[1::2]):
    if _k == "--opt":
        OPT[_v.split("=")[0]] = _v.split("=", 1)[-1]
    else:
        ARGS[_k] = _v
TMP = ARGS["--tmp"]
# the protocol has its own descriptor: nothing the library prints can get in between
_out = os.fdopen(os.dup(1), "w")
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
sys.path.insert(0, ARGS["--pkg"])
sys.dont_write_bytecode = True


class Report:
    def __init__(self):
        self.cur, self.evals, self.cases = -1, 0, 0
        self.distinct, self.counters, self.samples, self.nviol = set(), {}, [], {}

    def begin(self, c):
        self.cur = c
        self.cases += 1
        _out.write("C %d\n" % c)
        _out.flush()

    def count(self, k, v=1):
        self.counters[k] = self.counters.get(k, 0) + v

    def maxi(self, k, v):
        k = "max:" + k
        self.counters[k] = max(self.counters.get(k, v), v)

    def nontrivial(self, h):
        if len(self.distinct) < 200000:
            self.distinct.add(hash(h) & 0xFFFFFFFFFFFF)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def viol(self, key, msg):
        self.nviol[key] = self.nviol.get(key, 0) + 1
        if self.nviol[key] > 3:
            return
        _out.write("V " + json.dumps(dict(key=key, case=self.cur, msg=str(msg)[:1500])) + "\n")
        _out.flush()

    def check(self, ok, key, msg=""):
        self.evals += 1
        if not ok:
            self.viol(key, msg() if callable(msg) else msg)
        return bool(ok)

    def finish(self):
        c = {k: (float(v) if math.isfinite(v) else 1e300) for k, v in self.counters.items()}
        _out.write("S " + json.dumps(dict(evals=self.evals, cases=self.cases, distinct=sorted(self.distinct), counters=c, samples=self.samples)) + "\n")
        _out.flush()


def run(fn):
    r = Report()
    seed = int(ARGS["--seed"])
    for c in range(int(ARGS["--from"]), int(ARGS["--to"])):
        r.begin(c)
        rng = random.Random(seed * 1000003 + c)
        try:
            fn(c, rng, r)
        except Exception as e:
            import traceback
            r.viol("unexpected-exception", "case raised: " + "".join(traceback.format_exception(e))[-900:])
    r.finish()
    sys.stdout = open(os.devnull, "w")
    os._exit(0) if OPT.get("noexit") else sys.exit(0)


def load():
    import QuESoPythonModule as Q
    return Q


def raises(f):
    """The exception that f raises, or None."""
    try:
        f()
    except Exception as e:
        return e
    return None


# ---- geometry -------------------------------------------------------------------------------------------------------
def box(lo, hi):
    P = [tuple(p) for p in itertools.product(*zip(lo, hi))]
    F = [(0, 1, 3), (0, 3, 2), (4, 7, 5), (4, 6, 7), (0, 5, 1), (0, 4, 5), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4), (1, 5, 7), (1, 7, 3)]
    return [tuple(P[i] for i in f) for f in F]


def sphere(c, r, n=6):
    import numpy as np
    th = [math.pi * i / n for i in range(n + 1)]
    ph = [2 * math.pi * j / (2 * n) for j in range(2 * n)]

    def p(i, j):
        j %= 2 * n
        if i == 0:
            return (c[0], c[1], c[2] + r)
        if i == n:
            return (c[0], c[1], c[2] - r)
        return (c[0] + r * math.sin(th[i]) * math.cos(ph[j]), c[1] + r * math.sin(th[i]) * math.sin(ph[j]), c[2] + r * math.cos(th[i]))
    T = []
    for i in range(n):
        for j in range(2 * n):
            if i < n - 1:
                T.append((p(i, j), p(i + 1, j), p(i + 1, j + 1)))
            if i > 0:
                T.append((p(i, j), p(i + 1, j + 1), p(i, j + 1)))
    return T


def volume(T):
    return math.fsum((a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0])) / 6 for a, b, c in T)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def norm(a):
    return math.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])


def area(T):
    return math.fsum(norm(cross(sub(b, a), sub(c, a))) / 2 for a, b, c in T)


def write_stl(fn, T):
    with open(fn, "w") as f:
        f.write("solid a\n")
        for t in T:
            f.write("facet normal 0 0 0\nouter loop\n" + "".join("vertex %.9g %.9g %.9g\n" % p for p in t) + "endloop\nendfacet\n")
        f.write("endsolid a\n")


def write_stl_binary(fn, T):
    import struct
    with open(fn, "wb") as f:
        f.write(b"\0" * 80 + struct.pack("<I", len(T)))
        for t in T:
            f.write(struct.pack("<12fH", 0, 0, 0, *t[0], *t[1], *t[2], 0))


def single(x):
    import struct
    return struct.unpack("<f", struct.pack("<f", x))[0]


# ---- settings -------------------------------------------------------------------------------------------------------
# The settings of the documentation, their types and defaults (independent of the library's registration).
METHODS = ["Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"]
GRIDS = ["b_spline_grid", "hexahedral_fe_grid"]
SETTINGS = {
    "general_settings": dict(input_filename=("s", None), output_directory_name=("s", "queso_output"), echo_level=("i", 1), write_output_to_file=("b", True)),
    "background_grid_settings": dict(grid_type=("g", None), lower_bound_xyz=("v", None), upper_bound_xyz=("v", None), lower_bound_uvw=("v", None),
                                     upper_bound_uvw=("v", None), polynomial_order=("w", None), number_of_elements=("w", None)),
    "trimmed_quadrature_rule_settings": dict(moment_fitting_residual=("d", 1e-10), min_element_volume_ratio=("d", 1e-3), min_num_boundary_triangles=("i", 100),
                                             neglect_elements_if_stl_is_flawed=("b", True), activate_fictitious_domain_with_alpha=("d", None)),
    "non_trimmed_quadrature_rule_settings": dict(integration_method=("m", "Gauss")),
}
CONDITION = dict(condition_id=("i", None), condition_type=("s", None), input_filename=("s", None), modulus=("d", None), direction=("v", None),
                 value=("v", None), penalty_factor=("d", None))
GETTER = dict(s="GetString", i="GetInt", b="GetBool", d="GetDouble", v="GetDoubleVector", w="GetIntVector", m="GetIntegrationMethod", g="GetGridType")


def random_double(rng):
    k = rng.random()
    if k < .25:
        return float(rng.randint(-50, 50))
    if k < .5:
        return rng.uniform(-10, 10)
    if k < .6:
        return 0.0
    return rng.choice((-1, 1)) * rng.uniform(1, 10) * 10.0 ** rng.randint(-30, 30)


def random_text(rng):
    k = rng.random()
    if k < .3:
        return "".join(rng.choice("abcdefgh_/.-0123456789 ") for _ in range(rng.randint(0, 20)))
    if k < .4:
        return rng.choice(["", " ", "Not Set", "not set.", "true", "null", "1", "[1, 2, 3]", "{}", "\"", "\\", "\\\\\"", "\n", "a\\nb", "Gauss", "b_spline_grid", "..", "/"])
    return "".join(rng.choice("ab\"\\/\n\t\r\b\f\x01\x1f\x7f{}[]:,'äß漢\U0001F600 \u2028") for _ in range(rng.randint(1, 12)))


def random_value(rng, t):
    if t == "s":
        return random_text(rng)
    if t == "i":
        return rng.choice((0, 1, rng.randint(0, 1000), rng.randint(0, 2**63), 2**64 - 1))
    if t == "b":
        return rng.random() < .5
    if t == "d":
        return random_double(rng)
    if t == "v":
        return [random_double(rng) for _ in range(3)]
    if t == "w":
        return [rng.choice((0, 1, rng.randint(0, 100), 2**40)) for _ in range(3)]
    if t == "m":
        return rng.choice(METHODS)
    return rng.choice(GRIDS)
