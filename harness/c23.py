# C23: settings files round-trip and are validated; models only from complete, consistent settings.
import copy, json, os
import hp
Q = hp.load()
from QuESoPythonModule.scripts.json_io import JsonIO

ENUM = dict(m={n: getattr(Q.IntegrationMethod, n) for n in hp.METHODS}, g={n: getattr(Q.GridType, n) for n in hp.GRIDS})
MAXINT = 2**64 - 1


def ten(x):
    return float("%.10g" % x)


def expect(v, t):
    """The value after a round trip through a file (ten significant digits)."""
    if t == "d":
        return ten(float(v))
    if t == "v":
        return [ten(float(x)) for x in v]
    return v


def random_settings(rng):
    """python dictionary of the file's structure with values for a random subset of the keys"""
    d = {}
    for part, tab in hp.SETTINGS.items():
        d[part] = {k: hp.random_value(rng, t) for k, (t, _) in tab.items() if rng.random() < .6}
    d["conditions_settings_list"] = [{k: hp.random_value(rng, t) for k, (t, _) in hp.CONDITION.items() if rng.random() < .6} for _ in range(rng.choice((0, 0, 1, 2, 5)))]
    return d


def apply(d, root):
    for part, tab in hp.SETTINGS.items():
        for k, v in d.get(part, {}).items():
            t = tab[k][0]
            root[part].SetValue(k, ENUM[t][v] if t in ENUM else v)
    for c in d.get("conditions_settings_list", []):
        h = Q.Dictionary.Create("ConditionSettings")
        for k, v in c.items():
            h.GetObject().SetValue(k, v)
        root.GetList("conditions_settings_list").append(h)


def value(handle, k, t):
    v = getattr(handle, hp.GETTER[t])(k)
    return {x: n for n, x in ENUM[t].items()}[v] if t in ENUM else v


def same(a, b, t):
    if t == "v":
        return all(x == y for x, y in zip(a, b))
    return a == b and type(a) is type(b)


def compare(root, d, r, what, conv):
    for part, tab in hp.SETTINGS.items():
        for k, (t, default) in tab.items():
            want = conv(d[part][k], t) if k in d.get(part, {}) else default
            level(root[part], k, t, want, r, what)
    lst = root.GetList("conditions_settings_list")
    want = d.get("conditions_settings_list", [])
    if r.check(len(lst) == len(want), "conditions", lambda: "%s: %d conditions, expected %d" % (what, len(lst), len(want))):
        for h, w in zip(lst, want):
            for k, (t, _) in hp.CONDITION.items():
                level(h, k, t, conv(w[k], t) if k in w else None, r, what)


def level(h, k, t, want, r, what):
    if want is None:
        r.check(not h.IsSet(k), "extra-value", lambda: "%s: %s is set" % (what, k))
        return
    if r.check(h.IsSet(k), "lost-value", lambda: "%s: %s is not set, expected %r" % (what, k, want)):
        got = value(h, k, t)
        r.check(same(got, want, t), "changed-value", lambda: "%s: %s is %r, expected %r" % (what, k, got, want))


def dump(d, rng, fn):
    """writes the dictionary as any JSON producer may do"""
    d = {k: (dict(rng.sample(list(v.items()), len(v))) if isinstance(v, dict) else v) for k, v in rng.sample(list(d.items()), len(d))}
    with open(fn, "w", encoding="utf-8") as f:
        json.dump(d, f, ensure_ascii=rng.random() < .5, indent=rng.choice((None, 1, 4)))


def read(fn):
    return JsonIO.read_settings(fn)


def corrupt(d, rng):
    """-> (dictionary that must be refused, what was done)"""
    d = copy.deepcopy(d)
    tabs = [(d.setdefault(p, {}), tab, p) for p, tab in hp.SETTINGS.items()] + [(c, hp.CONDITION, "condition") for c in d["conditions_settings_list"]]
    part, tab, name = rng.choice(tabs)
    k = rng.choice(list(tab))
    t = tab[k][0]
    op = rng.randint(0, 5)
    if op == 0:
        bad = rng.choice([k + "_", k.upper(), "", "x", " " + k, "comment", "general_settings"])
        v = rng.choice([1, "a", True, 1.5, [1, 2, 3], {}, {"a": 1}, [{"condition_id": 1}], None, []])
        if bad in tab:
            return None
        part[bad] = v
        return d, "unknown key %r in %s" % (bad, name)
    if op == 1:
        bad = rng.choice(["general_setting", "x", "conditions", "conditions_settings", "input_filename"])
        d[bad] = rng.choice([{}, {"echo_level": 1}, [], [{"condition_id": 1}], 1, "a"])
        return d, "unknown section %r" % bad
    if op == 2:
        pool = {"s": [1, 1.5, True, None, [1, 2, 3], ["a"], {}], "i": [-1, 1.5, "1", True, None, [1, 2, 3], 2**64], "b": [0, 1, -1, 1.0, "true", None, [1, 2, 3], "False"],
                "d": ["1.0", True, None, [1.0, 2.0, 3.0], "x"], "v": [1.0, "a", True, None, [1.0], [1, 2], [1, 2, 3, 4], ["a", "b", "c"], [None] * 3],
                "w": [1, "a", None, True, [1], [1, 2], [1.5, 2, 3], [1.0, 2.0, 3.0], [-1, 2, 3], [1, 2, 3, 4]], "m": [0, 1, "gauss", "", "Gauss ", "GGQ", None, True, [1, 2, 3]],
                "g": [0, "b_spline", "", "BSpline", None, False, [1, 2, 3]]}[t]
        part[k] = rng.choice(pool)
        return d, "%s.%s = %r" % (name, k, part[k])
    if op == 3:
        d[rng.choice(list(hp.SETTINGS))] = rng.choice([1, "a", True, 1.5, [1, 2, 3], [{"echo_level": 1}]])
        return d, "section is not a dictionary"
    if op == 4:
        d["conditions_settings_list"] = rng.choice([1, "a", {"condition_id": 1}, [1, 2, 3], [1.5, 2, 3], [{"condition_id": 1}, 7], ["a"]])
        return d, "conditions_settings_list = %r" % (d["conditions_settings_list"],)
    part[k] = rng.choice([{}, {"a": 1}])
    return d, "%s.%s is a dictionary" % (name, k)


def model_settings(rng):
    """complete settings, consistent in about half of the cases -> (dictionary, reason for refusal or None)"""
    grid = rng.choice(hp.GRIDS)
    method = rng.choice(hp.METHODS)
    p = [rng.choice((1, 2, 2, 3, 4, 5, 8) if rng.random() < .9 else (0, 9, 2**40)) for _ in range(3)]
    if rng.random() < .6:
        p = [rng.choice((1, 2, 2, 3, 4))] * 3
    n = [rng.randint(1, 5) for _ in range(3)]
    lo = [hp.random_double(rng) for _ in range(3)]
    up = [a + max(abs(a), rng.uniform(.1, 10)) * rng.uniform(.5, 2) for a in lo]
    ul = [rng.uniform(-3, 3) for _ in range(3)]
    uu = [a + rng.uniform(.1, 5) for a in ul]
    why = None
    k = rng.random()
    if k < .12:
        i = rng.randint(0, 2)
        n[i] = 0
        why = "empty grid"
    elif k < .24:
        i = rng.randint(0, 2)
        up[i] = rng.choice((lo[i], lo[i] - abs(lo[i]) - 1))
        why = "inverted bounds xyz"
    elif k < .36:
        i = rng.randint(0, 2)
        uu[i] = rng.choice((ul[i], ul[i] - 1))
        why = "inverted bounds uvw"
    if min(p) < 1 or max(p) > 8:
        why = "polynomial order"
    if method == "Gauss_Reduced2" and min(p) < 2:
        why = "reduced rule of low order"
    if method.startswith("GGQ") and (max(p) > 4 or min(p) < 2):
        why = "order of GGQ rule"
    if method.startswith("GGQ") and grid != "b_spline_grid":
        why = "GGQ rule without B-Splines"
    d = dict(general_settings=dict(input_filename="x.stl", echo_level=0, write_output_to_file=False),
             background_grid_settings=dict(grid_type=grid, lower_bound_xyz=lo, upper_bound_xyz=up, lower_bound_uvw=ul, upper_bound_uvw=uu, polynomial_order=p, number_of_elements=n),
             trimmed_quadrature_rule_settings={}, non_trimmed_quadrature_rule_settings=dict(integration_method=method), conditions_settings_list=[])
    for i in range(rng.randint(0, 3)):
        d["conditions_settings_list"].append(dict(condition_id=i, input_filename="c.stl"))
    if why is None and rng.random() < .4:
        part = rng.choice(["general_settings", "background_grid_settings", "conditions_settings_list"])
        if part == "conditions_settings_list":
            if d[part]:
                c = rng.choice(d[part])
                why = "missing " + rng.choice(list(c))
                del c[why[8:]]
        elif part == "general_settings":
            del d[part]["input_filename"]
            why = "missing input_filename"
        else:
            k = rng.choice(list(d[part]))
            del d[part][k]
            why = "missing " + k
    return d, why


def case(c, rng, r):
    fn = os.path.join(hp.TMP, "settings.json")
    what = c % 3
    if what == 0:  # written settings are read back
        d = random_settings(rng)
        holder = Q.Dictionary.Create("Settings")
        apply(d, holder.GetObject())
        JsonIO.write_settings(holder.GetObject(), fn)
        compare(holder.GetObject(), d, r, "after writing", lambda v, t: [float(x) for x in v] if t == "v" else float(v) if t == "d" else v)
        back = read(fn)
        compare(back.GetObject(), d, r, "read back", expect)
        JsonIO.write_settings(back.GetObject(), fn + "2")
        with open(fn, "rb") as f, open(fn + "2", "rb") as g:
            r.check(f.read() == g.read(), "second-write", "settings that were read back are written differently")
        r.count("round trips")
        r.count("values", sum(len(x) for x in list(d.values())))
        r.nontrivial(repr(d))
    elif what == 1:  # files of any producer: content or refusal
        d = random_settings(rng)
        dump(d, rng, fn)
        compare(read(fn).GetObject(), d, r, "read", lambda v, t: [float(x) for x in v] if t == "v" else float(v) if t == "d" else v)
        r.count("foreign files")
        bad = corrupt(d, rng)
        if bad:
            dump(bad[0], rng, fn)
            x = hp.raises(lambda: read(fn))
            r.check(x is not None, "accepted-file", lambda: "a settings file is accepted: " + bad[1])
            r.count("refused files")
            r.nontrivial(repr(bad[0]))
        with open(fn, "rb") as f:
            raw = f.read()
        cut = rng.randint(0, max(0, len(raw.rstrip()) - 1))
        with open(fn, "wb") as f:
            f.write(raw[:cut])
        r.check(hp.raises(lambda: read(fn)) is not None, "accepted-file", lambda: "truncated settings file accepted (%d of %d bytes)" % (cut, len(raw)))
    else:  # models
        d, why = model_settings(rng)
        dump(d, rng, fn)
        holder = read(fn)
        x = hp.raises(lambda: Q.EmbeddedModel(holder))
        if why is None:
            r.check(x is None, "refused-settings", lambda: "consistent settings are refused: %s  %r" % (x, d))
            r.count("accepted models")
        else:
            r.check(x is not None, "accepted-settings", lambda: "settings are accepted: %s  %r" % (why, d))
            r.count("refused models")
            compare(holder.GetObject(), d, r, "after refusal", lambda v, t: [float(x) for x in v] if t == "v" else float(v) if t == "d" else v)
        r.nontrivial(repr(d))
    r.sample("%s: %s" % (("written and read back", "foreign file", "model")[what], json.dumps(d)[:150]))


hp.run(case)
