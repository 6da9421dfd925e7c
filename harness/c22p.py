# C22 (scripting interface): random histories on a dictionary against a typed model.
import hp
import numpy as np
Q = hp.load()
from QuESoPythonModule.PyQuESo import PyQuESo  # noqa: F401  (package completeness)

INFO = {
    "embedded_geometry_info": dict(is_closed=("b", None), volume=("d", None)),
    "quadrature_info": dict(represented_volume=("d", None), percentage_of_geometry_volume=("d", None), tot_num_points=("i", None),
                            num_of_points_per_full_element=("d", None), num_of_points_per_trimmed_element=("d", None)),
    "background_grid_info": dict(num_active_elements=("i", None), num_trimmed_elements=("i", None), num_full_elements=("i", None), num_inactive_elements=("i", None)),
}
CONDINFO = dict(condition_id=("i", None), surf_area=("d", None), perc_surf_area_in_active_domain=("d", None))
ENUM = dict(m={n: getattr(Q.IntegrationMethod, n) for n in hp.METHODS}, g={n: getattr(Q.GridType, n) for n in hp.GRIDS})


class Model:
    """One dictionary level: the handle and what it should contain."""

    def __init__(self, handle, table):
        self.h, self.table = handle, table
        self.val = {k: (None if d is None else (ENUM[t][d] if t in ENUM else d)) for k, (t, d) in table.items()}

    def expect(self, k):
        return self.val[k]


def same(a, b, t):
    if t in "vw":
        return type(a) is list and len(a) == 3 and all(x == y and type(x) is (float if t == "v" else int) for x, y in zip(a, b))
    return a == b and type(a) is dict(s=str, i=int, b=bool, d=float, m=Q.IntegrationMethod, g=Q.GridType)[t]


def valid(rng, t):
    """-> (python object to pass, value that must come back)"""
    if t in ENUM:
        v = ENUM[t][hp.random_value(rng, t)]
        return v, v
    v = hp.random_value(rng, t)
    if t == "d":
        k = rng.random()
        if k < .3:
            v = rng.choice((rng.randint(-100, 100), -1, 0, 2**53, rng.randint(-2**50, 2**50)))
            return v, float(v)
        if k < .4:
            return np.float64(v), v
    if t == "v":
        k = rng.random()
        if k < .2:
            v = [rng.randint(-9, 9) for _ in range(3)]
            return v, [float(x) for x in v]
        if k < .4:
            v = [rng.choice((rng.randint(-9, 9), rng.uniform(-1, 1))) for _ in range(3)]
            return v, [float(x) for x in v]
        if k < .5:
            return np.array(v), v
        if k < .6:
            return tuple(v), v
    if t == "w" and rng.random() < .3:
        return tuple(v), v
    return v, v


def invalid(rng, t):
    pool = [None, {}, {"a": 1}, [], [1], [1, 2], [1.0, 2.0], [1, 2, 3, 4], ["a", "b", "c"], [None] * 3, object(), 1j, set(), print]
    if t != "s":
        pool += ["", "x", "1", "true", "Gauss", "b_spline_grid"]
    if t != "b":
        pool += [True, False]
    if t not in "d":
        pool += [1.5, -0.5, 2.0, 1e30]
    if t != "d":
        pool += [-1, -5, -2**40]
    if t not in "id":
        pool += [0, 1, 7]
    if t == "i":
        pool += [2**64, 2**70]
    if t not in "vw":
        pool += [[1, 2, 3], [1.0, 2.0, 3.0], (0.5, 1, 2)]
    if t == "w":
        pool += [[1.0, 2.0, 3.0], [1, 2.5, 3], [-1, 2, 3]]
    for e in ENUM:
        if t != e:
            pool += list(ENUM[e].values())
    return rng.choice(pool)


def compare(m, r, when):
    for k, (t, _) in m.table.items():
        e = m.expect(k)
        if not r.check(m.h.IsSet(k) == (e is not None), "isset", lambda: "%s: IsSet(%s) is %s, expected value %r" % (when, k, m.h.IsSet(k), e)):
            continue
        if e is None:
            x = hp.raises(lambda: getattr(m.h, hp.GETTER[t])(k))
            r.check(x is not None, "unset-readable", lambda: "%s: %s is not set, but can be read" % (when, k))
        else:
            got = getattr(m.h, hp.GETTER[t])(k)
            r.check(same(got, e, t), "value-changed", lambda: "%s: %s is %r, expected %r" % (when, k, got, e))


def case(c, rng, r):
    kind = rng.choice(["Settings", "Settings", "ConditionSettings", "ModelInfo", "ConditionInfo"])
    holder = Q.Dictionary.Create(kind)
    root = holder.GetObject()
    if kind == "Settings":
        parts = [Model(root[k], tab) for k, tab in hp.SETTINGS.items()]
    elif kind == "ModelInfo":
        parts = [Model(root[k], tab) for k, tab in INFO.items()]
    else:
        parts = [Model(root, hp.CONDITION if kind == "ConditionSettings" else CONDINFO)]
    for m in parts:
        compare(m, r, "fresh")
    r.count("defaults", sum(v is not None for m in parts for v in m.val.values()))
    hist = [kind]
    for _ in range(rng.randint(5, 40)):
        m = rng.choice(parts)
        k = rng.choice(list(m.table))
        t = m.table[k][0]
        op = rng.random()
        if op < .45:
            v, e = valid(rng, t)
            m.h.SetValue(k, v)
            m.val[k] = e
            r.count("valid values set")
            hist.append("%s=%r" % (k, v))
        elif op < .75:
            v = invalid(rng, t)
            x = hp.raises(lambda: m.h.SetValue(k, v))
            r.check(x is not None, "wrong-type-accepted", lambda: "%s accepts %r; now: %r" % (k, v, getattr(m.h, hp.GETTER[t])(k)))
            r.count("wrong types refused")
            hist.append("%s!=%r" % (k, v))
        elif op < .9:
            g = rng.choice([x for q, x in hp.GETTER.items() if q != t])
            x = hp.raises(lambda: getattr(m.h, g)(k))
            r.check(x is not None, "wrong-type-readable", lambda: "%s of %s returns %r" % (g, k, getattr(m.h, g)(k)))
            r.count("wrong getters refused")
        else:
            name = rng.choice(["", "x", k + " ", k.upper(), k[:-1], k + "_", "general_settings", "conditions_settings_list", hp.random_text(rng)])
            if name in m.table:
                continue
            for f in [lambda: m.h.SetValue(name, 1), lambda: m.h.SetValue(name, "a"), lambda: m.h.IsSet(name), lambda: m.h[name], lambda: m.h.GetList(name)] + \
                     [(lambda g=g: getattr(m.h, g)(name)) for g in hp.GETTER.values()]:
                x = hp.raises(f)
                r.check(x is not None, "unknown-key-accepted", lambda: "key %r accepted" % name)
            if name not in list(hp.SETTINGS) + list(INFO) + ["conditions_settings_list", "conditions_infos_list"]:
                r.check(hp.raises(lambda: root[name]) is not None and hp.raises(lambda: root.GetList(name)) is not None, "unknown-key-accepted", lambda: "key %r accepted by the root" % name)
            r.count("unknown keys refused")
        compare(m, r, "after " + hist[-1])
    for m in parts:
        compare(m, r, "at the end")
    if kind == "Settings":
        lst = root.GetList("conditions_settings_list")
        models = []
        for i in range(rng.randint(0, 4)):
            h = Q.Dictionary.Create("ConditionSettings")
            cm = Model(h.GetObject(), hp.CONDITION)
            for k in rng.sample(list(hp.CONDITION), rng.randint(0, 7)):
                v, e = valid(rng, hp.CONDITION[k][0])
                cm.h.SetValue(k, v)
                cm.val[k] = e
            lst.append(h)
            models.append(cm)
            r.check(hp.raises(h.GetObject) is not None and hp.raises(lambda: lst.append(h)) is not None, "released-holder", "a released holder still hands out its dictionary")
            r.check(len(lst) == len(models), "list-length", lambda: "%d entries, expected %d" % (len(lst), len(models)))
        for i in (len(models), len(models) + 1, -1, -len(models) - 1, 2**40):
            x = hp.raises(lambda: lst[i])
            r.check(x is not None, "list-index", lambda: "entry %d of %d is handed out" % (i, len(models)))
        seen = list(lst)
        r.check(len(seen) == len(models), "list-iteration", lambda: "%d entries visited, expected %d" % (len(seen), len(models)))
        for i, cm in enumerate(models):
            compare(cm, r, "list entry (own reference)")
            for h in (lst[i], seen[i], root.GetList("conditions_settings_list")[i]):
                cm.h = h
                compare(cm, r, "list entry %d" % i)
        r.count("list entries", len(models))
    r.nontrivial(tuple(hist))
    r.sample("%s, %d operations: %s" % (kind, len(hist) - 1, "; ".join(hist[1:4])[:160]))


hp.run(case)
