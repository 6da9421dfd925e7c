# C31: a model that is run through the scripting interface, against its settings, its files and its accessors.
import gc, json, math, os, re, shutil, struct
import hp
import numpy as np
Q = hp.load()
from QuESoPythonModule.PyQuESo import PyQuESo

INFO = {
    "embedded_geometry_info": dict(is_closed="b", volume="d"),
    "quadrature_info": dict(represented_volume="d", percentage_of_geometry_volume="d", tot_num_points="i", num_of_points_per_full_element="d", num_of_points_per_trimmed_element="d"),
    "background_grid_info": dict(num_active_elements="i", num_trimmed_elements="i", num_full_elements="i", num_inactive_elements="i"),
    "elapsed_time_info": dict(total="d"),
}
COND_INFO = dict(condition_id="i", surf_area="d", perc_surf_area_in_active_domain="d")


def close(a, b, tol):
    return all(abs(x - y) <= t for x, y, t in zip(a, b, tol))


def read_vtk(fn):
    """Legacy binary VTK, unstructured grid. -> points, cells, types, {name: scalars}"""
    raw = open(fn, "rb").read()
    pos = 0

    def line():
        nonlocal pos
        while True:
            e = raw.index(b"\n", pos)
            s = raw[pos:e].decode("ascii").strip()
            pos = e + 1
            if s:
                return s

    def take(dt, n):
        nonlocal pos
        a = np.frombuffer(raw, dt, n, pos)
        pos += a.nbytes
        return a
    assert line().startswith("# vtk DataFile Version"), "header"
    line()
    assert line() == "BINARY", "encoding"
    assert line() == "DATASET UNSTRUCTURED_GRID", "dataset"
    f = line().split()
    assert f[0] == "POINTS" and f[2] == "double", f
    pts = take(">f8", 3 * int(f[1])).reshape(-1, 3).astype(float)
    f = line().split()
    assert f[0] == "CELLS", f
    c = take(">i4", int(f[2])).astype(int)
    cells, i = [], 0
    while i < len(c):
        cells.append(list(c[i + 1:i + 1 + c[i]]))
        i += 1 + c[i]
    assert len(cells) == int(f[1]) and i == len(c), "cells"
    f = line().split()
    assert f[0] == "CELL_TYPES" and int(f[1]) == len(cells), f
    types = list(take(">i4", len(cells)).astype(int))
    data = {}
    while raw[pos:].strip():
        f = line().split()
        if f[0] in ("POINT_DATA", "CELL_DATA"):
            n = int(f[1])
            assert n == len(pts if f[0] == "POINT_DATA" else cells), f
        else:
            assert f[0] == "SCALARS" and f[2] == "double", f
            assert line().startswith("LOOKUP_TABLE"), "lookup"
            data[f[1]] = take(">f8", n).astype(float)
    return pts, cells, types, data


def read_stl(fn):
    raw = open(fn, "rb").read()
    n, = struct.unpack_from("<I", raw, 80)
    assert len(raw) == 84 + 50 * n, "size of %s" % fn
    return [(struct.unpack_from("<12f", raw, 84 + 50 * i)) for i in range(n)]


def body(rng):
    s = 10.0 ** rng.uniform(-1, 2)
    o = [rng.uniform(-2, 2) * s for _ in range(3)]
    k = rng.random()
    if k < .5:
        e = [s * rng.uniform(.4, 2) for _ in range(3)]
        T = hp.box(o, [a + b for a, b in zip(o, e)])
        T = [tuple(tuple(hp.single(x) for x in p) for p in t) for t in T]
        return T, True
    elif k < .9:
        T = hp.sphere(o, s * rng.uniform(.5, 1), rng.choice((4, 6, 8)))
    else:
        T = hp.box(o, [a + s for a in o]) + hp.sphere([a + 3 * s for a in o], s, 5)
    return [tuple(tuple(hp.single(x) for x in p) for p in t) for t in T], False


def cut_box(T, lo, hi):
    """Volume of an axis-parallel box inside [lo,hi]."""
    a = [min(p[i] for t in T for p in t) for i in range(3)]
    b = [max(p[i] for t in T for p in t) for i in range(3)]
    return math.prod(max(0.0, min(b[i], hi[i]) - max(a[i], lo[i])) for i in range(3))


def settings(rng, T, name):
    lo = [min(p[i] for t in T for p in t) for i in range(3)]
    up = [max(p[i] for t in T for p in t) for i in range(3)]
    inside = rng.random() < .75
    for i in range(3):
        L = up[i] - lo[i]
        lo[i] -= L * rng.uniform(.01, .4) * (1 if inside or rng.random() < .5 else -1)
        up[i] += L * rng.uniform(.01, .4)
    lo, up = [float("%.9g" % x) for x in lo], [float("%.9g" % x) for x in up]
    k = rng.random()
    if k < .4:
        ul, uu = list(lo), list(up)
    elif k < .7:
        ul, uu = [0.0] * 3, [1.0] * 3
    else:
        ul = [round(rng.uniform(-5, 5), 3) for _ in range(3)]
        uu = [round(a + rng.uniform(.5, 20), 3) for a in ul]
    method = rng.choice(hp.METHODS if rng.random() < .6 else ["Gauss"])
    grid = rng.choice(hp.GRIDS) if not method.startswith("GGQ") else "b_spline_grid"
    p = [rng.choice((1, 2, 3) if not method.startswith("GGQ") and method != "Gauss_Reduced2" else (2, 3)) for _ in range(3)]
    n = [rng.randint(1, 6) for _ in range(3)]
    d = dict(general_settings=dict(input_filename=name, echo_level=rng.choice((0, 1, 2))),
             background_grid_settings=dict(grid_type=grid, lower_bound_xyz=lo, upper_bound_xyz=up, lower_bound_uvw=ul, upper_bound_uvw=uu, polynomial_order=p, number_of_elements=n))
    if rng.random() < .8:
        d["general_settings"]["output_directory_name"] = "out %d" % rng.randint(0, 3)
    write = rng.random() < .75
    if not write or rng.random() < .5:
        d["general_settings"]["write_output_to_file"] = write
    if rng.random() < .7:
        d["trimmed_quadrature_rule_settings"] = dict(min_element_volume_ratio=rng.choice((1e-3, 1e-2, 0.0)), min_num_boundary_triangles=rng.choice((20, 50, 100)))
    if method != "Gauss" or rng.random() < .3:
        d["non_trimmed_quadrature_rule_settings"] = dict(integration_method=method)
    return d, inside, write, method


def directory(a):
    return a["general_settings"].get("output_directory_name", "queso_output")


def run(d, r):
    fn = os.path.join(hp.TMP, "settings.json")
    with open(fn, "w") as f:
        json.dump(d, f)
    q = PyQuESo(fn)
    return q


def check_settings(s, d, r, where):
    for name, table in hp.SETTINGS.items():
        for k, (t, default) in table.items():
            want = d.get(name, {}).get(k, default)
            if want is None:
                r.check(not s[name].IsSet(k), "settings", lambda: "%s is set: %s" % (k, where))
                continue
            got = getattr(s[name], hp.GETTER[t])(k)
            if t in "mg":
                got = str(got).split(".")[-1]
            r.check(list(got) == list(want) if t in "vw" else got == want, "settings", lambda: "%s: %r, expected %r: %s" % (k, got, want, where))
    lst = s.GetList("conditions_settings_list")
    if r.check(len(lst) == len(d.get("conditions_settings_list", [])), "settings", where):
        for a, b in zip(lst, d.get("conditions_settings_list", [])):
            for k, (t, _) in hp.CONDITION.items():
                r.check(a.IsSet(k) == (k in b), "settings", where)
                if k in b:
                    got = getattr(a, hp.GETTER[t])(k)
                    r.check((list(got) if t == "v" else got) == b[k], "settings", lambda: "%s: %r, expected %r: %s" % (k, got, b[k], where))


def mesh_api(T, name, rng, r):
    m = Q.TriangleMesh()
    Q.IO.ReadMeshFromSTL(m, name)
    r.check(m.NumOfTriangles() == len(T), "mesh", "number of triangles")
    V = list(m.Vertices())
    r.check(len(V) == m.NumOfVertices() and set(V) == set(p for t in T for p in t), "mesh", "vertices")
    vol, ar = hp.volume(T), hp.area(T)
    r.check(abs(Q.MeshUtil.Volume(m) - vol) <= 1e-8 * abs(ar) ** 1.5, "mesh-volume", lambda: "%r, expected %r" % (Q.MeshUtil.Volume(m), vol))
    r.check(abs(Q.MeshUtil.Area(m) - ar) <= 1e-9 * ar, "mesh-area", lambda: "%r, expected %r" % (Q.MeshUtil.Area(m), ar))
    got = list(m.Triangles())
    for g, t in zip(got, T):
        r.check((g.p1, g.p2, g.p3) == t, "mesh-triangle", lambda: "%r, expected %r" % ((g.p1, g.p2, g.p3), t))
        cr = hp.cross(hp.sub(t[1], t[0]), hp.sub(t[2], t[0]))
        A2 = hp.norm(cr)
        r.check(close(g.normal, [x / A2 for x in cr], [1e-6] * 3), "mesh-normal", lambda: "%r: %r" % (g.normal, t))
        r.check(abs(g.Area() - A2 / 2) <= 1e-9 * A2 + 1e-9 * ar, "triangle-area", lambda: "%r, expected %r" % (g.Area(), A2 / 2))
        ext = math.sqrt(ar)
        r.check(close(g.Center(), [sum(p[i] for p in t) / 3 for i in range(3)], [1e-12 * (ext + abs(t[0][i])) for i in range(3)]), "triangle-center", lambda: repr(t))
        L = sorted(hp.norm(hp.sub(t[i], t[i - 1])) for i in range(3))
        want = L[2] * sum(L) / (4 * math.sqrt(3) * A2 / 2)  # longest edge times circumference over area, 1 for equilateral triangles
        r.check(A2 < 1e-9 * L[2] ** 2 or A2 < 1e-12 or abs(g.AspectRatio() - want) < 1e-6 * want, "aspect-ratio", lambda: "%r (%r): %r" % (g.AspectRatio(), want, t))
        for k in range(4):
            ip = g.GetIPsGlobal(k)
            w = sum(x.weight for x in ip)
            r.check(len(ip) > 0 and abs(w - A2 / 2) <= 1e-9 * ar, "triangle-weights", lambda: "%r, expected %r" % (w, A2 / 2))
            for x in ip:
                r.check(tuple(x.normal) == g.normal and (x.x, x.y, x.z) == (x[0], x[1], x[2]) == tuple(x) and len(x) == 3 and x[-1] == x.z, "triangle-point", lambda: repr(x))
            for i in range(3):  # linear functions are integrated exactly
                v = sum(x.weight * x[i] for x in ip)
                e = A2 / 2 * sum(p[i] for p in t) / 3
                r.check(abs(v - e) <= 1e-9 * ar * (ext + abs(t[0][i])), "triangle-moment", lambda: "rule %d direction %d: %r, expected %r" % (k, i, v, e))
    # a mesh built by hand
    n = Q.TriangleMesh()
    n.Reserve(rng.randint(0, 50))
    idx = {}
    for t in T:
        for p in t:
            if p not in idx:
                idx[p] = n.AddVertex(list(p))
        r.check(sorted(idx.values()) == list(range(len(idx))) , "vertex-index", "indices are not consecutive")
        n.AddTriangle([idx[p] for p in t])
    r.check(n.NumOfTriangles() == len(T) and n.NumOfVertices() == len(idx), "built-mesh", "counts")
    r.check([(g.p1, g.p2, g.p3) for g in n.Triangles()] == T, "built-mesh", "triangles")
    r.check(abs(Q.MeshUtil.Volume(n) - vol) <= 1e-8 * abs(ar) ** 1.5 and abs(Q.MeshUtil.Area(n) - ar) <= 1e-9 * ar, "built-mesh", "measures")
    for bad in ([0, 1, len(idx)], [len(idx), 0, 1]):
        r.check(hp.raises(lambda: n.AddTriangle(bad)) is not None, "index-check", "triangle with a vertex that does not exist")
    r.count("triangles", len(T))


def case(c, rng, r):
    for x in os.listdir(hp.TMP):
        x = os.path.join(hp.TMP, x)
        if os.path.isdir(x) and not os.path.islink(x) and os.path.basename(x).startswith(("out", "queso_output")):
            shutil.rmtree(x)
    os.chdir(hp.TMP)
    T, is_box = body(rng)
    name = "body.stl"
    (hp.write_stl_binary if rng.random() < .5 else hp.write_stl)(name, T)
    if c % 4 == 0:
        mesh_api(T, name, rng, r)
    d, inside, write, method = settings(rng, T, name)
    conds = []
    for i in range(rng.choice((0, 0, 1, 2, 3))):
        sub = T if rng.random() < .3 else rng.sample(T, rng.randint(1, len(T)))
        cn = "cond%d.stl" % i
        hp.write_stl_binary(cn, sub)
        e = dict(condition_id=rng.randint(0, 50) * 4 + i, input_filename=cn)
        if rng.random() < .5:
            e["condition_type"] = rng.choice(("PenaltySupportCondition", "SurfaceLoadCondition", "anything"))
        if rng.random() < .5:
            e["modulus"] = rng.uniform(-5, 5)
        if rng.random() < .3:
            e["direction"] = [rng.uniform(-1, 1) for _ in range(3)]
        if rng.random() < .3:
            e["value"] = [rng.uniform(-1, 1) for _ in range(3)]
        if rng.random() < .3:
            e["penalty_factor"] = 10.0 ** rng.randint(0, 12)
        conds.append((e, sub))
    if conds or rng.random() < .3:
        d["conditions_settings_list"] = [e for e, _ in conds]
    out = directory(d)
    where = json.dumps(d)
    stale = rng.random() < .5
    if stale:
        os.mkdir(out)
        open(os.path.join(out, "stale"), "w").close()
    q = run(d, r)
    check_settings(q.GetSettings(), d, r, "before the run: " + where)
    r.check(os.path.isdir(out) == (write or stale) and os.path.exists(os.path.join(out, "stale")) == (stale and not write), "output-directory", where)
    q.Run()
    keep = q if rng.random() < .7 else None
    s = q.GetSettings()
    check_settings(s, d, r, "after the run: " + where)
    el, cs, info = q.GetElements(), q.GetConditions(), q.GetModelInfo()
    points = q.GetIntegrationPoints()
    spline = q.GetBSplineVolume(rng.choice(("open_knot_vector", "non_open_knot_vector")))
    if keep is None:  # what was handed out stays valid
        del q
        gc.collect()
    g = d["background_grid_settings"]
    lo, up, ul, uu, n, p = (g[k] for k in ("lower_bound_xyz", "upper_bound_xyz", "lower_bound_uvw", "upper_bound_uvw", "number_of_elements", "polynomial_order"))
    L, U = [b - a for a, b in zip(lo, up)], [b - a for a, b in zip(ul, uu)]
    tx = [1e-11 * (abs(a) + abs(b)) for a, b in zip(lo, up)]
    tu = [1e-11 * (abs(a) + abs(b)) for a, b in zip(ul, uu)]
    hexa = g["grid_type"] == "hexahedral_fe_grid"  # every cell has the parametric box of the settings
    det = math.prod(L) / math.prod(U) / (math.prod(n) if hexa else 1)
    ids = [e.ID() for e in el]
    r.check(len(set(ids)) == len(ids) and all(1 <= i <= math.prod(n) for i in ids), "element-ids", lambda: "%r: %s" % (ids, where))
    total, want_points, glob, npts, ntrim, nneg, full_vol = 0.0, [], [], 0, 0, 0, 0.0
    for e in el:
        i = e.ID() - 1
        ijk = (i % n[0], i // n[0] % n[1], i // (n[0] * n[1]))
        for get, a, M, t, o in ((e.LowerBoundXYZ, lo, L, tx, 0), (e.UpperBoundXYZ, lo, L, tx, 1), (e.LowerBoundUVW, ul, U, tu, 0), (e.UpperBoundUVW, ul, U, tu, 1)):
            b = list(get())
            want = [a[k] + M[k] * (o if hexa and M is U else (ijk[k] + o) / n[k]) for k in range(3)]
            r.check(close(b, want, t), "element-bounds", lambda: "element %d: %r, expected %r: %s" % (e.ID(), b, want, where))
        a, b = e.LowerBoundUVW(), e.UpperBoundUVW()
        ip = e.GetIntegrationPoints()
        npts += len(ip)
        ntrim += e.IsTrimmed()
        w = 0.0
        for k, x in enumerate(ip):
            r.check(all(a[j] - tu[j] <= x[j] <= b[j] + tu[j] for j in range(3)) and x.weight > 0, "point", lambda: "element %d %r..%r: %r: %s" % (e.ID(), a, b, x, where))
            if k == 0:
                r.check((x.x, x.y, x.z) == (x[0], x[1], x[2]) == tuple(x) == (ip[k][0], ip[k][1], ip[k][-1 % 3]) and len(x) == 3, "point-access", lambda: repr(x))
            want_points.append((x.x, x.y, x.z, x.weight))
            Y = e.LowerBoundXYZ(), e.UpperBoundXYZ()
            y = tuple(Y[0][j] + (Y[1][j] - Y[0][j]) * ((x[j] - a[j]) / (b[j] - a[j])) for j in range(3))
            glob.append((y, x.weight * det))
            w += x.weight * det
        total += w
        if not e.IsTrimmed():
            full_vol += w
            if not method.startswith("GGQ"):
                q1 = [max(0, k + 1 - {"Gauss": 0, "Gauss_Reduced1": 1, "Gauss_Reduced2": 2}[method]) for k in p]
                r.check(len(ip) == math.prod(q1), "full-element-points", lambda: "%d points, expected %r: %s" % (len(ip), q1, where))
    r.check([(x.x, x.y, x.z, x.weight) for x in points] == want_points, "all-points", lambda: "%d points, elements have %d: %s" % (len(points), len(want_points), where))
    r.count("elements", len(el))
    r.count("trimmed elements", ntrim)
    r.count("points", npts)
    # volume
    vol = hp.volume(T)
    if inside or is_box:
        if is_box:
            vol = cut_box(T, lo, up)
        cell = math.prod(L) / math.prod(n)
        r.maxi("volume error / volume", abs(total - vol) / vol)
        r.check(abs(total - vol) <= 1e-3 * vol + .012 * cell * math.prod(n) ** (2 / 3), "volume", lambda: "%r, body %r: %s" % (total, vol, where))
        r.count("volumes")
        vol = hp.volume(T)
    # the knots are the cell boundaries
    for k, t in enumerate((spline.KnotsU(), spline.KnotsV(), spline.KnotsW())):
        r.check(all(abs(t[p[k] + j] - (ul[k] + U[k] * j / n[k])) <= 1e-9 * U[k] + tu[k] for j in range(n[k] + 1)), "knots", lambda: "%r: %s" % (t, where))
    # model info
    val = {}
    for sec, keys in INFO.items():
        for k, t in keys.items():
            if info[sec].IsSet(k):
                val[k] = getattr(info[sec], hp.GETTER[t])(k)
    r.check(set(val) == set(k for x in INFO.values() for k in x), "model-info", lambda: "%r: %s" % (sorted(val), where))
    want = dict(num_active_elements=len(el), num_trimmed_elements=ntrim, num_full_elements=len(el) - ntrim, num_inactive_elements=math.prod(n) - len(el), tot_num_points=npts, is_closed=True)
    for k, v in want.items():
        r.check(val.get(k) == v, "model-info", lambda: "%s: %r, expected %r: %s" % (k, val.get(k), v, where))
    for k, v in dict(represented_volume=total, volume=vol, percentage_of_geometry_volume=100 * total / vol).items():
        r.check(abs(val.get(k, 1e300) - v) <= 1e-6 * abs(v), "model-info", lambda: "%s: %r, expected %r: %s" % (k, val.get(k), v, where))
    ci = info.GetList("conditions_infos_list")
    r.check(len(ci) == len(conds) == len(cs), "conditions", lambda: "%d infos, %d conditions: %s" % (len(ci), len(cs), where))
    segs = {}
    for (e, sub), co, inf in zip(conds, cs, ci):
        cset = co.GetSettings()
        for k, (t, _) in hp.CONDITION.items():
            r.check(cset.IsSet(k) == (k in e), "condition-settings", where)
            if k in e:
                v = getattr(cset, hp.GETTER[t])(k)
                r.check((list(v) if t == "v" else v) == e[k], "condition-settings", lambda: "%s %r: %s" % (k, v, where))
        tri = []
        sv = co.GetSegments()
        nseg = 0
        for j, sg in enumerate(sv):
            m = sg.GetTriangleMesh()
            tri += [(t.p1, t.p2, t.p3) for t in m.Triangles()]
            r.check(sv[j].GetTriangleMesh().NumOfTriangles() == m.NumOfTriangles(), "segment-access", where)
            nseg += 1
        r.check(nseg == co.NumberOfSegments() == len(sv), "segment-count", where)
        segs[e["condition_id"]] = tri
        A = hp.area(sub)
        got = hp.area(tri)
        if inside:
            r.check(abs(got - A) <= 1e-6 * A, "condition-area", lambda: "segments %r, surface %r: %s" % (got, A, where))
        r.check(inf.GetInt("condition_id") == e["condition_id"] and abs(inf.GetDouble("surf_area") - A) <= 1e-6 * A, "condition-info", lambda: "%r, expected %r: %s" % (inf.GetDouble("surf_area"), A, where))
        r.check(-1e-9 <= inf.GetDouble("perc_surf_area_in_active_domain") <= 100 * (1 + 1e-6), "condition-info", where)
        r.count("segments", nseg)
    # files
    if not write:
        r.check(sorted(os.listdir(out) if stale else []) == (["stale"] if stale else []) and os.path.exists(out) == stale, "unwanted-output", where)
    else:
        files = {"elements.vtk", "integration_points.vtk", "model_info.json"} | {"condition_id_%d.stl" % e["condition_id"] for e, _ in conds}
        r.check(set(os.listdir(out)) == files, "output-files", lambda: "%r: %s" % (os.listdir(out), where))
        P, C, ty, _ = read_vtk(out + "/elements.vtk")
        if r.check(len(C) == len(el) and set(ty) <= {12}, "elements-file", lambda: "%d cells, %d elements: %s" % (len(C), len(el), where)):
            for e, cell in zip(el, C):
                a, b = e.LowerBoundXYZ(), e.UpperBoundXYZ()
                want = [tuple((a, b)[x >> k & 1][k] for k in range(3)) for x in (0, 1, 3, 2, 4, 5, 7, 6)]
                r.check(len(cell) == 8 and all(close(P[j], w, tx) for j, w in zip(cell, want)), "elements-file", lambda: "element %d: %r: %s" % (e.ID(), [tuple(P[j]) for j in cell], where))
        P, C, ty, data = read_vtk(out + "/integration_points.vtk")
        if r.check(len(C) == npts and set(ty) <= {1} and len(data) == 1, "points-file", lambda: "%d cells, %d points: %s" % (len(C), npts, where)):
            W = list(data.values())[0]
            for cell, (y, w), v in zip(C, glob, [W[i] for i in range(len(W))]):
                r.check(len(cell) == 1 and close(P[cell[0]], y, tx) and abs(v - w) <= 1e-9 * w, "points-file", lambda: "%r %r, expected %r %r: %s" % (tuple(P[cell[0]]), v, y, w, where))
        js = json.load(open(out + "/model_info.json"))
        for sec, keys in INFO.items():
            for k, t in keys.items():
                v = js[sec][k]
                r.check(v == val[k] if t in "bi" else abs(v - val[k]) <= 1e-9 * abs(val[k]), "info-file", lambda: "%s: %r, object %r: %s" % (k, v, val[k], where))
        for a, b in zip(js["conditions_infos_list"], ci):
            for k, t in COND_INFO.items():
                v = getattr(b, hp.GETTER[t])(k)
                r.check(abs(a[k] - v) <= 1e-9 * abs(v), "info-file", lambda: "%s: %r, object %r: %s" % (k, a[k], v, where))
        r.check(len(js["conditions_infos_list"]) == len(conds), "info-file", where)
        for i, tri in segs.items():
            S = read_stl(out + "/condition_id_%d.stl" % i)
            if r.check(len(S) == len(tri), "condition-file", lambda: "%d triangles, segments have %d: %s" % (len(S), len(tri), where)):
                for a, t in zip(S, tri):
                    r.check(a[3:] == tuple(hp.single(x) for p in t for x in p), "condition-file", lambda: "%r, expected %r: %s" % (a[3:], t, where))
        r.count("written models")
    if len(el) and ntrim:
        r.nontrivial(where)
    r.sample("%s%s, %d elements (%d trimmed), %d points, %d conditions" % (where[:300], "", len(el), ntrim, npts, len(cs)))


hp.run(case)
