# C33: models that are run, used and dropped in python leave no memory, files or threads behind.
import ctypes, gc, json, os, shutil
import hp
from pymodel import body, conditions, model_settings
Q = hp.load()
from QuESoPythonModule.PyQuESo import PyQuESo
from QuESoPythonModule.scripts.json_io import JsonIO


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Info


def now():
    gc.collect()
    i = LIBC.mallinfo2()
    return i.uordblks + i.hblkhd, len(os.listdir("/proc/self/fd")), len(os.listdir("/proc/self/task"))


def model(d, bad):
    q = PyQuESo("settings.json")
    q.Run()
    n = 0
    for e in q.GetElements():
        n += sum(1 for p in e.GetIntegrationPoints() if p.weight > 0) + (e.LowerBoundXYZ()[0] < e.UpperBoundXYZ()[0])
    for c in q.GetConditions():
        c.GetSettings().GetInt("condition_id")
        for s in c.GetSegments():
            m = s.GetTriangleMesh()
            n += m.NumOfTriangles() + sum(1 for t in m.Triangles() if t.Area() > 0) + len(list(m.Vertices()))
    n += len(q.GetIntegrationPoints())
    str(q.GetModelInfo())
    str(q.GetSettings())
    q.GetBSplineVolume("open_knot_vector").GetSpline(0)
    if bad:
        hp.raises(lambda: q.GetModelInfo().GetDouble("none"))
        hp.raises(lambda: q.GetElements()[10 ** 6])
        hp.raises(lambda: q.GetSettings()["general_settings"].SetValue("input_filename", 3.5))
    return n


def small(d, bad):
    n = 0
    JsonIO.read_settings("settings.json")
    for _ in range(60):
        m = Q.TriangleMesh()
        Q.IO.ReadMeshFromSTL(m, "body.stl")
        n += m.NumOfTriangles() + len(list(m.Triangles())) + sum(len(t.GetIPsGlobal(1)) for t in m.Triangles())
        h = Q.Dictionary.Create("Settings")
        c = Q.Dictionary.Create("ConditionSettings")
        c.GetObject().SetValue("condition_id", 3)
        h.GetObject().GetList("conditions_settings_list").append(c)
        n += len(h.GetObject().GetList("conditions_settings_list"))
        Q.IO.WriteDictionaryToJSON(h.GetObject(), "out.json")
        n += len(Q.IntegrationPointFactory1D.GetGGQ(2, 9, Q.IntegrationMethod.GGQ_Optimal))
        if bad:
            n += hp.raises(lambda: Q.IO.ReadMeshFromSTL(m, "settings.json")) is not None
            n += hp.raises(lambda: Q.IO.WriteDictionaryToJSON(h.GetObject(), "missing/out.json")) is not None
            n += hp.raises(lambda: Q.Dictionary.Create("Nothing")) is not None
            n += hp.raises(lambda: Q.EmbeddedModel(h)) is not None
    return n


def case(c, rng, r):
    os.chdir(hp.TMP)
    T = body(rng)
    hp.write_stl_binary("body.stl", T)
    d, _ = model_settings(rng, T)
    d["background_grid_settings"]["number_of_elements"] = [rng.randint(1, 2) for _ in range(3)]
    d["background_grid_settings"]["polynomial_order"] = [2, 2, rng.choice((2, 2, 3))]
    d["trimmed_quadrature_rule_settings"]["min_num_boundary_triangles"] = 4
    d["conditions_settings_list"] = [e for e, _ in conditions(rng, T)[:2]]
    bad = rng.random() < .5
    use = model if c % 2 else small
    with open("settings.json", "w") as f:
        json.dump(d, f)
    rounds, state, got = 6, [], []
    for i in range(rounds):
        got.append(use(d, bad))
        state.append(now())
    where = "%s%s: memory %r, files %r, threads %r: %s" % (use.__name__, " with refused calls" if bad else "", *zip(*state), json.dumps(d))
    inc = [b[0] - a[0] for a, b in zip(state[1:], state[2:])]
    r.maxi("memory growth that is steady", min(inc))
    # the same every time, more than the noise of the interpreter: not a cache
    r.check(min(inc) < 1500, "memory", where)
    r.check(state[-1][1] <= state[0][1] and state[-1][2] <= state[0][2], "files-or-threads", where)
    r.check(len(set(got)) == 1, "history", lambda: "%r: %s" % (got, where))
    r.count("rounds", rounds)
    r.count("objects", got[0])
    r.nontrivial(where)


hp.run(case)
