# C32: what the Kratos adapter hands over is what QuESo computed (Kratos itself is replaced by a recording stand-in).
import json, math, os, warnings
import hp
import kratos_stub as KS
from pymodel import TYPES, body, conditions, model_settings
KM = KS.install()
import numpy as np
Q = hp.load()
from QuESoPythonModule.PyQuESo import PyQuESo
from QuESoPythonModule.kratos_interface.model_part_utilities import ModelPartUtilities as MPU
from QuESoPythonModule.kratos_interface.bounding_box_bcs import DirichletCondition, NeumannCondition

LOAD = ["POINT_LOAD_X", "POINT_LOAD_Y", "POINT_LOAD_Z"]


def vec(t):
    return np.cross(np.subtract(t[1], t[0]), np.subtract(t[2], t[0])) / 2


def stretched(t):
    """Triangles that the adapter may leave out: hardly any area for their length."""
    e = max(hp.norm(hp.sub(t[i], t[i - 1])) for i in range(3))
    return np.linalg.norm(vec(t)) < 1e-6 * e * e


def moments(T):
    """area and first moments of the area, and the same of the area vector"""
    A, M, N, K = 0.0, np.zeros(3), np.zeros(3), np.zeros((3, 3))
    for t in T:
        v, c = vec(t), np.mean(t, axis=0)
        a = np.linalg.norm(v)
        A += a
        M += a * c
        N += v
        K += np.outer(v, c)
    return A, M, N, K


def kratos_file(rng):
    fn = "KratosParameters.json"
    with open(fn, "w") as f:
        json.dump(dict(problem_data=dict(parallel_type="OpenMP"), modelers=([dict(modeler_name="OtherModeler", Parameters=dict(a=1))] if rng.random() < .5 else []) +
                       [dict(modeler_name="NurbsGeometryModeler", Parameters=dict(model_part_name="NurbsMesh", geometry_name="NurbsVolume"))]), f)
    return fn


def check_elements(part, q, g, r, where):
    want = []
    for e in q.GetElements():
        pts = [(p.x, p.y, p.z, p.weight) for p in e.GetIntegrationPoints() if p.weight > 0]
        if pts:
            want.append((pts, e))
    got = part.Elements
    if not r.check(len(got) == len(want), "element-count", lambda: "%d elements for %d cells with points: %s" % (len(got), len(want), where)):
        return 0
    r.check([e.Id for e in got] == list(range(1, len(got) + 1)), "element-numbers", where)
    vol = part.GetGeometry("NurbsVolume")
    for a, (pts, e) in zip(got, want):
        qp = a.geometry
        r.check(qp.kind == "volume" and qp.volume is vol and qp.points == pts, "element-points", lambda: "element %d got %r, computed %r: %s" % (a.Id, qp.points[:3], pts[:3], where))
        lo, up = e.LowerBoundUVW(), e.UpperBoundUVW()
        r.check(all(lo[i] - 1e-9 * (1 + abs(lo[i])) <= x[i] <= up[i] + 1e-9 * (1 + abs(up[i])) for x in qp.points for i in range(3)), "element-span", lambda: "element %d: %s" % (a.Id, where))
        r.check(a.name == "SmallDisplacementElement3D8N" and a.Properties is part.GetProperties()[1], "element-kind", where)
        r.count("points", len(pts))
    r.count("elements", len(got))
    return len(got)


def check_conditions(part, q, conds, d, inside, r, where):
    g = d["background_grid_settings"]
    vol = part.GetGeometry("NurbsVolume")
    back = KS.NurbsVolume((g["lower_bound_xyz"], g["upper_bound_xyz"]), (g["lower_bound_uvw"], g["upper_bound_uvw"]), None, None)
    cs = q.GetConditions()
    if not r.check(len(cs) == len(conds), "condition-count", where):
        return
    F, K, lim = np.zeros(3), np.zeros((3, 3)), [0.0, 0.0]
    size = max(np.linalg.norm(g[k]) for k in ("lower_bound_xyz", "upper_bound_xyz"))
    support, pen = {}, []
    for cond, (e, sub) in zip(cs, conds):
        S = [(t.p1, t.p2, t.p3) for s in cond.GetSegments() for t in s.GetTriangleMesh().Triangles()]
        Nq = [np.array(t.normal) for s in cond.GetSegments() for t in s.GetTriangleMesh().Triangles()]
        A = moments(S)
        if inside:  # the segments are all of it
            B = moments(sub)
            r.check(abs(A[0] - B[0]) <= 1e-6 * B[0], "segments", lambda: "area %r of %r: %s" % (A[0], B[0], where))
            A = B
        loose = sum(np.linalg.norm(vec(t)) for t in S if stretched(t)) + 1e-13 * len(S)
        tol = loose + 1e-8 * A[0]
        kind = e["condition_type"]
        if kind == TYPES[2]:
            f = e["modulus"] * np.array(e["direction"]) / np.linalg.norm(e["direction"])
            F += f * A[0]
            K += np.outer(f, A[1])
        elif kind == TYPES[3]:
            F -= e["modulus"] * A[2]
            K -= e["modulus"] * A[3]
        else:
            x = support.setdefault((kind, tuple(e["value"])), [0.0, np.zeros(3), 0.0])
            x[0] += A[0]
            x[1] += A[1]
            x[2] += tol
            if kind == TYPES[0]:
                pen.append((tuple(e["value"]), e["penalty_factor"]))
        if "Load" in kind:
            lim[0] += abs(e["modulus"]) * tol
            lim[1] += abs(e["modulus"]) * tol * size
    got = part.Conditions
    r.check([c.Id for c in got] == list(range(1, len(got) + 1)), "condition-numbers", where)
    f, k, have = np.zeros(3), np.zeros((3, 3)), {}
    for c in got:
        qp = c.geometry
        r.check(qp.volume is vol, "condition-volume", where)
        if c.name == "LoadCondition":
            x = np.array([c.values[n] for n in LOAD])
            r.check(qp.kind == "volume" and len(qp.points) == 1 and np.isfinite(x).all(), "load-record", lambda: "%r: %s" % (x, where))
            f += x
            k += np.outer(x, back.to_xyz(qp.points[0]))
            r.count("loads")
        elif r.check(c.name in ("SupportPenaltyCondition", "SupportLagrangeCondition") and qp.kind == "surface", "condition-kind", lambda: "%s: %s" % (c.name, where)):
            key = (TYPES[0 if "Penalty" in c.name else 1], tuple(c.values["DISPLACEMENT"]))
            T = [back.to_xyz(p) for p in qp.points]
            x = have.setdefault(key, [0.0, np.zeros(3)])
            a = np.linalg.norm(vec(T))
            x[0] += a
            x[1] += a * np.mean(T, axis=0)
            r.count("supports")
            if key[0] == TYPES[0]:
                p = c.Properties.GetValue(KM.IgaApplication.PENALTY_FACTOR)
                mine = [b for a, b in pen if a == key[1]]
                if p not in mine:
                    r.check(False, "penalty-factor-of-the-last-support" if p == pen[-1][1] else "penalty-factor", lambda: "support %r has factor %r: %s" % (key, p, where))
    err = np.abs(f - F).max()
    if lim[0]:
        r.maxi("force error / tolerance", err / lim[0])
        r.nontrivial(where)
    r.check(err <= lim[0], "resultant-force", lambda: "applied %r, specified %r (tolerance %g): %s" % (f, F, lim[0], where))
    r.check(np.abs(k - K).max() <= lim[1], "resultant-moment", lambda: "applied %r, specified %r (tolerance %g): %s" % (k, K, lim[1], where))
    for key in set(have) | set(support):
        a, b = have.get(key, [0.0, np.zeros(3)]), support.get(key, [0.0, np.zeros(3), 0.0])
        r.check(abs(a[0] - b[0]) <= b[2] and np.abs(a[1] - b[1]).max() <= b[2] * size, "support-surface", lambda: "%r holds %r, specified %r: %s" % (key, a, b, where))


def analysis(c, rng, r):
    T = body(rng)
    hp.write_stl_binary("body.stl", T)
    d, inside = model_settings(rng, T)
    conds = conditions(rng, T)
    if conds or rng.random() < .5:
        d["conditions_settings_list"] = [e for e, _ in conds]
    where = json.dumps(d)
    with open("settings.json", "w") as f:
        json.dump(d, f)
    q = PyQuESo("settings.json")
    q.Run()
    e = hp.raises(q.GetAnalysis)
    r.check(e is not None and "Kratos analysis" in str(e), "analysis-before-run", lambda: "%r" % e)
    q.RunKratosAnalysis(kratos_file(rng))
    a = q.GetAnalysis()
    part = a.GetModelPart()
    g = d["background_grid_settings"]
    vol = part.GetGeometry("NurbsVolume")
    r.check(vol.xyz == (g["lower_bound_xyz"], g["upper_bound_xyz"]) and vol.uvw == (g["lower_bound_uvw"], g["upper_bound_uvw"]) and vol.p == g["polynomial_order"] and vol.n == g["number_of_elements"],
            "background-volume", lambda: "%r: %s" % (vars(vol), where))
    check_elements(part, q, g, r, where)
    check_conditions(part, q, conds, d, inside, r, where)
    lag = any(e["condition_type"] == TYPES[1] for e, _ in conds)
    names = [x for x, _ in part.dofs]
    r.check(set(names) == {"DISPLACEMENT_X", "DISPLACEMENT_Y", "DISPLACEMENT_Z"} | ({"VECTOR_LAGRANGE_MULTIPLIER_X", "VECTOR_LAGRANGE_MULTIPLIER_Y", "VECTOR_LAGRANGE_MULTIPLIER_Z"} if lag else set())
            and len(names) == len(set(names)), "degrees-of-freedom", lambda: "%r: %s" % (part.dofs, where))
    r.check(all(set((x, y)) <= set(v for b in part.variables for v in (b + "_X", b + "_Y", b + "_Z")) for x, y in part.dofs), "variables", lambda: "%r %r: %s" % (part.variables, part.dofs, where))
    emb = a.model.GetModelPart("EmbeddedModelPart")
    check_part(emb, T, r, where)
    r.count("analyses")
    r.count("conditions", len(conds))
    r.sample("%d elements, %d conditions: %s" % (part.NumberOfElements(), part.NumberOfConditions(), where[:300]))


def check_part(part, T, r, where):
    got = [tuple((n.X, n.Y, n.Z) for n in e.geometry) for e in part.Elements]
    r.check(got == T, "mesh-to-model-part", lambda: "%d triangles of %d, first difference %r: %s" % (len(got), len(T), next(((a, b) for a, b in zip(got, T) if a != b), None), where))
    r.count("mesh triangles", len(got))


def meshes(c, rng, r):
    T = body(rng)
    if rng.random() < .5:
        T = T + body(rng)
    if rng.random() < .5:
        rng.shuffle(T)
    m = Q.TriangleMesh()
    if rng.random() < .5:
        hp.write_stl_binary("m.stl", T)
        Q.IO.ReadMeshFromSTL(m, "m.stl")
    else:  # vertices in any order, some twice, some unused
        P = [p for t in T for p in t] if rng.random() < .5 else list(dict.fromkeys(p for t in T for p in t))
        P += [tuple(rng.uniform(-1, 1) for _ in range(3)) for _ in range(rng.randint(0, 3))]
        rng.shuffle(P)
        at = {}
        for i, p in enumerate(P):
            m.AddVertex(p)
            at.setdefault(p, []).append(i)
        for t in T:
            m.AddTriangle(tuple(rng.choice(at[p]) for p in t))
    where = "%d triangles, %d vertices" % (m.NumOfTriangles(), m.NumOfVertices())
    part = KM.ModelPart("mesh")
    MPU.read_model_part_from_triangle_mesh(part, m)
    check_part(part, T, r, where)
    r.check(sorted((n.X, n.Y, n.Z) for n in part.Nodes) == sorted(m.Vertices()), "mesh-nodes", where)
    # and back; node numbers with gaps
    kind = rng.choice(("Elements", "Conditions"))
    src = KM.ModelPart("source")
    nodes = list(part.Nodes)
    ids = rng.sample(range(1, 10 * len(nodes) + 1), len(nodes))
    num = dict(zip((n.Id for n in nodes), ids))
    order = list(nodes)
    rng.shuffle(order)
    for n in order:
        src.CreateNewNode(num[n.Id], n.X, n.Y, n.Z)
    eids = sorted(rng.sample(range(1, 5 * len(T) + 1), len(T)))
    for i, e in zip(eids, part.Elements):
        (src.CreateNewElement if kind == "Elements" else src.CreateNewCondition)("T", i, [num[n.Id] for n in e.geometry], src.GetProperties()[1])
    b = Q.TriangleMesh()
    if kind == "Elements" and rng.random() < .5:
        MPU.read_triangle_mesh_grom_model_part(b, src)
    else:
        MPU.read_triangle_mesh_grom_model_part(b, src, kind)
    got = [(t.p1, t.p2, t.p3) for t in b.Triangles()]
    r.check(got == T, "model-part-to-mesh", where)
    N = [vec(t) for t in T]
    r.check(all(np.linalg.norm(np.array(t.normal) - n / np.linalg.norm(n)) < 1e-6 for t, n in zip(b.Triangles(), N) if np.linalg.norm(n) > 1e-12), "model-part-to-mesh", "normals: " + where)
    e = hp.raises(lambda: MPU.read_triangle_mesh_grom_model_part(Q.TriangleMesh(), src, rng.choice(("elements", "", "Nodes"))))
    r.check(e is not None and "not available" in str(e), "unknown-kind", lambda: "%r" % e)
    src.CreateNewElement("Q", 10 ** 6, [num[n.Id] for n in nodes[:4]], src.GetProperties()[1])
    r.check(hp.raises(lambda: MPU.read_triangle_mesh_grom_model_part(Q.TriangleMesh(), src, "Elements")) is not None, "not-a-triangle", where)
    keep = rng.sample(eids, rng.randint(0, len(eids)))
    (MPU.remove_all_elements if rng.random() < .5 else MPU.remove_all_conditions)(src)
    r.nontrivial(where)
    r.count("meshes")


def boxes(c, rng, r):
    part = KM.ModelPart("nodes")
    n = rng.choice((rng.randint(1, 60), rng.randint(60, 400)))
    ids = rng.sample(range(1, 900), n)
    for i in ids:
        part.CreateNewNode(i, *[rng.choice((0.0, 1.0, rng.uniform(-1, 2))) for _ in range(3)])
    want_fix = {i: set() for i in ids}
    want_load = {i: np.zeros(3) for i in ids}
    loaded, bcs, total, inside_twice = {}, [], 0, False
    for _ in range(rng.randint(1, 5)):
        lo = [rng.choice((0.0, -1.5, rng.uniform(-1.5, 1.5))) for _ in range(3)]
        up = [rng.choice((1.0, 2.5, a + rng.uniform(0, 2))) for a in lo]
        ins = [x for x in part.Nodes if all(lo[k] < (x.X0, x.Y0, x.Z0)[k] < up[k] for k in range(3))]
        if rng.random() < .5:
            disp = [rng.random() < .5 for _ in range(3)]
            bcs.append(DirichletCondition(lo, up, disp))
            for x in ins:
                want_fix[x.Id] |= {n for n, b in zip(("DISPLACEMENT_X", "DISPLACEMENT_Y", "DISPLACEMENT_Z"), disp) if b}
        else:
            force = [rng.choice((0.0, rng.uniform(-1e3, 1e3))) for _ in range(3)]
            bcs.append(NeumannCondition(lo, up, force))
            for x in ins:
                inside_twice |= x.Id in loaded
                loaded.setdefault(x.Id, []).append(np.array(force) / len(ins))
                want_load[x.Id] += loaded[x.Id][-1]
            total += len(ins)
    uvw = ((0.0,) * 3, (1.0,) * 3)
    part.geometries["NurbsVolume"] = KS.NurbsVolume(uvw, uvw, None, None)
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        MPU.add_conditions_to_model_part(part, bcs, uvw, uvw)
    where = "%d nodes, %d conditions" % (n, len(bcs))
    for x in part.Nodes:
        r.check(x.fixed == want_fix[x.Id], "fixed-nodes", lambda: "node %d at %r: %r instead of %r" % (x.Id, (x.X, x.Y, x.Z), x.fixed, want_fix[x.Id]))
        got = np.array([x.step.get(k, 0.0) for k in LOAD])
        last = len(loaded.get(x.Id, [])) > 1 and np.abs(got - loaded[x.Id][-1]).max() <= 1e-12 * np.abs(got).max()
        r.check(np.abs(got - want_load[x.Id]).max() <= 1e-9 * (1 + np.abs(want_load[x.Id]).max()), "force-of-the-last-of-overlapping-boxes" if last else "nodal-forces",
                lambda: "node %d at %r: %r instead of %r" % (x.Id, (x.X, x.Y, x.Z), got, want_load[x.Id]))
    at = [c.geometry[0].Id for c in part.Conditions]
    r.check(all(len(c.geometry) == 1 for c in part.Conditions) and set(at) == set(loaded) and (inside_twice or len(at) == len(set(at)) == total), "load-conditions", lambda: "%d load conditions for %d nodes" % (len(at), total))
    r.count("nodes", n)
    r.nontrivial(where)


def refusals(c, rng, r):
    """What cannot be handed over is refused, before anything is."""
    T = body(rng)
    hp.write_stl_binary("body.stl", T)
    d, inside = model_settings(rng, T)
    d["background_grid_settings"]["number_of_elements"] = [1, 1, 1]
    conds = conditions(rng, T)
    hp.write_stl_binary("bad.stl", T)
    bad = dict(condition_id=99, input_filename="bad.stl", condition_type=rng.choice(TYPES[2:] + ["Anything"]))
    what = rng.choice(("type", "direction", "missing"))
    if what == "type":
        bad["condition_type"] = rng.choice(("", "Penalty", "surfaceloadcondition", "SurfaceLoad"))
    elif what == "direction":
        bad["condition_type"], bad["modulus"], bad["direction"] = TYPES[2], rng.uniform(-5, 5), [0.0, 0.0, 0.0]
    else:
        bad["condition_type"] = rng.choice(TYPES)
    k = rng.randint(0, len(conds))
    d["conditions_settings_list"] = [e for e, _ in conds]
    d["conditions_settings_list"].insert(k, bad)
    with open("settings.json", "w") as f:
        json.dump(d, f)
    q = PyQuESo("settings.json")
    q.Run()
    part = KM.ModelPart("NurbsMesh")
    g = d["background_grid_settings"]
    xyz, uvw = (g["lower_bound_xyz"], g["upper_bound_xyz"]), (g["lower_bound_uvw"], g["upper_bound_uvw"])
    part.geometries["NurbsVolume"] = KS.NurbsVolume(xyz, uvw, None, None)
    nseg = q.GetConditions()[k].NumberOfSegments()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = hp.raises(lambda: MPU.add_conditions_to_model_part(part, q.GetConditions(), xyz, uvw))
    if nseg:
        r.check(e is not None and part.NumberOfConditions() == 0, "refusal", lambda: "%s: %r, %d conditions created: %s" % (what, e, part.NumberOfConditions(), json.dumps(d)))
        r.count("refused")


def case(c, rng, r):
    os.chdir(hp.TMP)
    k = c % 8
    (analysis if k < 4 else meshes if k < 6 else boxes if k < 7 else refusals)(c, rng, r)


hp.run(case)
