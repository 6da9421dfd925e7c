# C29, scripting interface: random histories of getting, keeping, dropping and using objects. Whatever is referenced stays usable and keeps its value.
import gc, json, math, os, random, sys
import hp
Q = hp.load()
from QuESoPythonModule.PyQuESo import PyQuESo
from QuESoPythonModule.scripts.json_io import JsonIO

FILES = {}


def files():
    if FILES:
        return
    os.chdir(hp.TMP)
    rng = random.Random(5)
    for name, T in (("a.stl", hp.box((0, 0, 0), (1, 1, 1))), ("b.stl", hp.sphere((.5, .5, .5), .5, 4)), ("c.stl", hp.box((.1, .2, .1), (.7, .8, .9))[:4]), ("d.stl", rng.sample(hp.sphere((.5, .5, .5), .4, 4), 9))):
        hp.write_stl(name, T)
        FILES[name] = T


def tri(t):
    return (t.p1, t.p2, t.p3, t.normal, t.Area(), t.Center(), tuple((x.x, x.y, x.z, x.weight, tuple(x.normal)) for x in t.GetIPsGlobal(1)))


def point(p):
    return (p.x, p.y, p.z, p.weight, tuple(p), repr(p))


def mesh(m):
    return (m.NumOfTriangles(), tuple(m.Vertices()), tuple((t.p1, t.p2, t.p3, t.normal) for t in m.Triangles()))


def element(e):
    return (e.ID(), e.IsTrimmed(), tuple(e.LowerBoundXYZ()), tuple(e.UpperBoundXYZ()), tuple(e.LowerBoundUVW()), tuple(e.UpperBoundUVW()), tuple((p.x, p.y, p.z, p.weight) for p in e.GetIntegrationPoints()))


def values(table):
    def f(d):
        return tuple((k, str(getattr(d, hp.GETTER[t])(k))) for k, (t, _) in table.items() if d.IsSet(k))
    return f


def settings(d):
    return tuple(values(t)(d[s]) for s, t in hp.SETTINGS.items()) + tuple(values(hp.CONDITION)(x) for x in d.GetList("conditions_settings_list"))


def info(d):
    return (d["quadrature_info"].GetDouble("represented_volume"), d["background_grid_info"].GetInt("num_active_elements"), tuple(x.GetDouble("surf_area") for x in d.GetList("conditions_infos_list")))


def condition(c):
    return (c.NumberOfSegments(), c.GetSettings().GetInt("condition_id"), tuple(mesh(s.GetTriangleMesh()) for s in c.GetSegments()))


DIGEST = {
    "element": element, "elements": lambda l: tuple(element(e) for e in l), "points": lambda v: tuple((p.x, p.y, p.z, p.weight) for p in v), "point": point,
    "conditions": lambda l: tuple(condition(c) for c in l), "condition": condition, "segments": lambda v: tuple(mesh(s.GetTriangleMesh()) for s in v),
    "segment": lambda s: mesh(s.GetTriangleMesh()), "mesh": mesh, "triangle": tri, "bpoints": lambda v: tuple(point(p) for p in v), "bpoint": point,
    "settings": settings, "info": info, "clist": lambda l: tuple(values(hp.CONDITION)(x) for x in l), "cset": values(hp.CONDITION),
    "ilist": lambda l: tuple(x.GetDouble("surf_area") for x in l), "iset": lambda d: (d.GetInt("condition_id"), d.GetDouble("surf_area")),
    "model": lambda m: (tuple(element(e) for e in m.GetElements()), settings(m.GetSettings())),
    "pyqueso": lambda q: (tuple(element(e) for e in q.GetElements()), settings(q.GetSettings())),
    "holder": lambda h: settings(h.GetObject()), "cholder": lambda h: values(hp.CONDITION)(h.GetObject()),
}
for _n, _t in hp.SETTINGS.items():
    DIGEST["sub:" + _n] = values(_t)


class Machine:
    def __init__(self, rng, r):
        self.rng, self.r, self.pool, self.log, self.origin = rng, r, [], [], {}

    def put(self, kind, obj, *a):
        d = DIGEST[kind](obj)
        self.pool.append([kind, obj, d])
        self.r.count("objects")
        return obj

    def pick(self, *kinds):
        c = [x for x in self.pool if x[0] in kinds]
        return self.rng.choice(c)[1] if c else None

    def check(self, x):
        d = DIGEST[x[0]](x[1])
        self.r.check(d == x[2], "changed:" + x[0].split(":")[0], lambda: "%s is %s, was %s, after %s" % (x[0], str(d)[:300], str(x[2])[:300], " ".join(self.log[-25:])))
        self.r.count("uses")

    def holder(self, write=False):
        rng = self.rng
        n = [rng.randint(1, 3) for _ in range(3)]
        d = dict(general_settings=dict(input_filename=rng.choice(("a.stl", "b.stl")), echo_level=0, write_output_to_file=False),
                 background_grid_settings=dict(grid_type=rng.choice(hp.GRIDS), lower_bound_xyz=[-.1, -.1, -.1], upper_bound_xyz=[1.1, 1.2, 1.1], lower_bound_uvw=[0., 0., 0.], upper_bound_uvw=[1., 1., 1.], polynomial_order=[1, 1, 1], number_of_elements=n),
                 trimmed_quadrature_rule_settings=dict(min_num_boundary_triangles=1),
                 conditions_settings_list=[dict(condition_id=i, input_filename=rng.choice(("c.stl", "d.stl"))) for i in range(rng.randint(0, 2))])
        with open("s.json", "w") as f:
            json.dump(d, f)

    def step(self):
        rng = self.rng
        op = rng.choice(OPS)
        if not any(x[0] in ("model", "pyqueso") for x in self.pool) and rng.random() < .3:
            op = rng.choice((op_model, op_pyqueso))
        if op(self):
            self.log.append(op.__name__[3:])


def op_model(m):
    m.holder()
    h = JsonIO.read_settings("s.json")
    keep = []
    if m.rng.random() < .5:  # references into the settings before they are passed on
        s = h.GetObject()
        keep = [("sub:background_grid_settings", s["background_grid_settings"]), ("clist", s.GetList("conditions_settings_list"))]
        if m.rng.random() < .5:
            keep.append(("settings", s))
    e = Q.EmbeddedModel(h)
    for k in keep:
        m.put(*k)
    if m.rng.random() < .3:
        m.r.check(hp.raises(lambda: h.GetObject()) is not None, "released-holder", "the holder still has an object")
    e.CreateAllFromSettings()
    m.put("model", e)
    return True


def op_pyqueso(m):
    m.holder()
    q = PyQuESo("s.json")
    if m.rng.random() < .3:
        m.put("settings", q.GetSettings())
    q.Run()
    m.put("pyqueso", q)
    return True


def op_elements(m):
    e = m.pick("model", "pyqueso")
    return e and m.put("elements", e.GetElements()) is not None


def op_element(m):
    l = m.pick("elements")
    return l and m.put("element", m.rng.choice(l)) is not None


def op_points(m):
    e = m.pick("element", "pyqueso")
    return e and m.put("points", e.GetIntegrationPoints()) is not None


def op_point(m):
    v = m.pick("points")
    if not v or not len(v):
        return False
    m.put("point", v[m.rng.randrange(len(v))] if m.rng.random() < .5 else next(iter(v)))
    return True


def op_conditions(m):
    e = m.pick("model", "pyqueso")
    return e and m.put("conditions", e.GetConditions()) is not None


def op_condition(m):
    l = m.pick("conditions")
    return l and m.put("condition", m.rng.choice(l)) is not None


def op_segments(m):
    c = m.pick("condition")
    return c and m.put("segments", c.GetSegments()) is not None


def op_segment(m):
    v = m.pick("segments")
    if not v or not len(v):
        return False
    m.put("segment", v[m.rng.randrange(len(v))] if m.rng.random() < .5 else m.rng.choice([x for x in v]))
    return True


def op_mesh(m):
    s = m.pick("segment")
    return s and m.put("mesh", s.GetTriangleMesh()) is not None


def op_read(m):
    x = Q.TriangleMesh()
    Q.IO.ReadMeshFromSTL(x, m.rng.choice(list(FILES)))
    m.put("mesh", x)
    return True


def op_triangle(m):
    x = m.pick("mesh")
    if not x or not x.NumOfTriangles():
        return False
    it = x.Triangles()
    if m.rng.random() < .5:
        del x
    t = next(it)
    for _ in range(m.rng.randint(0, 3)):
        try:
            t = next(it)
        except StopIteration:
            break
    m.put("triangle", t)
    return True


def op_bpoints(m):
    t = m.pick("triangle")
    return t and m.put("bpoints", t.GetIPsGlobal(m.rng.randint(0, 3))) is not None


def op_bpoint(m):
    v = m.pick("bpoints")
    return v and m.put("bpoint", v[m.rng.randrange(len(v))] if m.rng.random() < .5 else next(iter(v))) is not None


def op_settings(m):
    e = m.pick("model", "pyqueso")
    return e and m.put("settings", e.GetSettings()) is not None


def op_sub(m):
    s = m.pick("settings")
    if not s:
        return False
    n = m.rng.choice(list(hp.SETTINGS))
    m.put("sub:" + n, s[n])
    return True


def op_clist(m):
    s = m.pick("settings")
    return s and m.put("clist", s.GetList("conditions_settings_list")) is not None


def op_centry(m):
    l, c = m.pick("clist"), m.pick("condition")
    if c and m.rng.random() < .5:
        m.put("cset", c.GetSettings())
    elif l and len(l):
        m.put("cset", l[m.rng.randrange(len(l))] if m.rng.random() < .5 else [x for x in l][-1])
    else:
        return False
    return True


def op_info(m):
    e = m.pick("model", "pyqueso")
    return e and m.put("info", e.GetModelInfo()) is not None


def op_ilist(m):
    i = m.pick("info")
    if not i:
        return False
    l = m.put("ilist", i.GetList("conditions_infos_list"))
    if len(l) and m.rng.random() < .7:
        m.put("iset", l[m.rng.randrange(len(l))] if m.rng.random() < .5 else next(iter(l)))
    return True


def op_holder(m):
    m.holder()
    h = JsonIO.read_settings("s.json")
    # own, private dictionary: entries are appended, references into it are kept
    s = h.GetObject()
    keep = [("sub:general_settings", s["general_settings"])]
    l = s.GetList("conditions_settings_list")
    entries = [x for x in l]
    for _ in range(m.rng.randint(0, 3)):
        c = Q.Dictionary.Create("ConditionSettings")
        o = c.GetObject()
        o.SetValue("condition_id", m.rng.randint(0, 99))
        o.SetValue("input_filename", "x" * m.rng.randint(0, 40))
        l.append(c)
        entries.append(o)
        if m.rng.random() < .3:
            m.r.check(hp.raises(lambda: l.append(c)) is not None, "appended-twice", "a dictionary was appended twice")
    for x in entries:
        if m.rng.random() < .5:
            keep.append(("cset", x))
    if m.rng.random() < .5:
        keep.append(("clist", l))
    for k in keep:
        m.put(*k)
    if m.rng.random() < .5:
        m.put("holder", h)
    return True


def op_refused(m):
    m.holder()
    h = JsonIO.read_settings("s.json")
    h.GetObject()["background_grid_settings"].SetValue("number_of_elements", [0, 1, 1])
    m.r.check(hp.raises(lambda: Q.EmbeddedModel(h)) is not None, "not-refused", "settings without elements are accepted")
    m.put("holder", h)
    if m.rng.random() < .5:
        m.put("settings", h.GetObject())
    return True


def op_cholder(m):
    c = Q.Dictionary.Create("ConditionSettings")
    o = c.GetObject()
    o.SetValue("input_filename", "y" * m.rng.randint(0, 40))
    if m.rng.random() < .5:
        m.put("cholder", c)
    m.put("cset", o)
    return True


def op_own(m):
    p = m.pick("points")
    v = Q.IntegrationPointVector()
    for x in (list(p)[:5] if p else []):
        v.append(x)
    v.append(Q.IntegrationPoint(*[m.rng.random() for _ in range(4)]))
    m.put("points", v)
    m.put("point", Q.IntegrationPoint(*[m.rng.random() for _ in range(4)]))
    m.put("bpoint", Q.BoundaryIntegrationPoint(*[m.rng.random() for _ in range(4)], [0., 0., 1.]))
    return True


def op_drop(m):
    if not m.pool:
        return False
    for _ in range(m.rng.randint(1, 1 + len(m.pool) // 3)):
        if m.pool:
            m.pool.pop(m.rng.randrange(len(m.pool)))
    if m.rng.random() < .7:
        gc.collect()
    m.r.count("drops")
    return True


def op_parents(m):
    """Only the leaves are kept."""
    n = len(m.pool)
    m.pool = [x for x in m.pool if x[0] not in ("model", "pyqueso", "elements", "conditions", "holder", "cholder")]
    if m.rng.random() < .5:
        m.pool = [x for x in m.pool if x[0] in ("point", "bpoint", "triangle", "cset", "iset", "mesh", "segment")]
    gc.collect()
    m.r.count("drops of parents")
    return n > 0


def op_scribble(m):
    x = [bytearray(b"\xee" * m.rng.choice((24, 64, 200, 1000))) for _ in range(60)]
    y = [Q.IntegrationPoint(9e99, 9e99, 9e99, 9e99) for _ in range(60)]
    z = Q.TriangleMesh()
    for _ in range(30):
        z.AddVertex([9e99] * 3)
    del x, y, z
    return True


def op_use(m):
    for x in m.rng.sample(m.pool, min(len(m.pool), 6)):
        m.check(x)
    return bool(m.pool)


OPS = [op_model, op_pyqueso, op_elements, op_elements, op_conditions, op_element, op_element, op_points, op_points, op_point, op_conditions, op_condition, op_condition, op_segments, op_segments, op_segment, op_segment,
       op_mesh, op_mesh, op_read, op_triangle, op_triangle, op_bpoints, op_bpoint, op_settings, op_sub, op_clist, op_centry, op_info, op_ilist, op_holder, op_refused, op_cholder,
       op_own, op_drop, op_drop, op_parents, op_scribble, op_use, op_use, op_use]


def case(c, rng, r):
    files()
    m = Machine(rng, r)
    op_model(m)
    for _ in range(rng.randint(20, 120)):
        m.step()
    op_scribble(m)
    for x in m.pool:
        m.check(x)
    r.count("operations", len(m.log))
    r.nontrivial(" ".join(m.log))
    r.sample(" ".join(m.log)[:300])
    m.pool.clear()
    gc.collect()


hp.run(case)
