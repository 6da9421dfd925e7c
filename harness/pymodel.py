"""Bodies, settings and conditions for drivers that run whole models through the scripting interface."""
import hp

TYPES = ["PenaltySupportCondition", "LagrangeSupportCondition", "SurfaceLoadCondition", "PressureLoadCondition"]


def single(T):
    return [tuple(tuple(hp.single(x) for x in p) for p in t) for t in T]


def body(rng):
    s = 10.0 ** rng.uniform(-1, 2)
    o = [rng.uniform(-2, 2) * s for _ in range(3)]
    if rng.random() < .5:
        return single(hp.box(o, [a + s * rng.uniform(.4, 2) for a in o]))
    return single(hp.sphere(o, s * rng.uniform(.5, 1), rng.choice((3, 4, 6))))


def model_settings(rng, T):
    lo = [min(p[i] for t in T for p in t) for i in range(3)]
    up = [max(p[i] for t in T for p in t) for i in range(3)]
    inside = rng.random() < .7
    for i in range(3):
        L = up[i] - lo[i]
        lo[i] -= L * rng.uniform(.01, .3) * (1 if inside or rng.random() < .5 else -1)
        up[i] += L * rng.uniform(.01, .3)
    ul, uu = rng.choice(((lo, up), ([0.0] * 3, [1.0] * 3), None)) or (None, None)
    if ul is None:
        ul = [round(rng.uniform(-5, 5), 3) for _ in range(3)]
        uu = [a + round(rng.uniform(.5, 20), 3) for a in ul]
    method = rng.choice(hp.METHODS)
    p = [rng.choice((2, 3) if method != "Gauss" else (1, 2, 3)) for _ in range(3)]
    return dict(general_settings=dict(input_filename="body.stl", echo_level=0, write_output_to_file=False),
                background_grid_settings=dict(grid_type="b_spline_grid", lower_bound_xyz=list(lo), upper_bound_xyz=list(up), lower_bound_uvw=list(ul), upper_bound_uvw=list(uu), polynomial_order=p,
                                              number_of_elements=[rng.randint(1, 4) for _ in range(3)]),
                trimmed_quadrature_rule_settings=dict(min_num_boundary_triangles=rng.choice((10, 30)), min_element_volume_ratio=rng.choice((1e-3, 0.0)), moment_fitting_residual=rng.choice((1e-10, 1e-2))),
                non_trimmed_quadrature_rule_settings=dict(integration_method=method)), inside


def conditions(rng, T):
    out = []
    for i in range(rng.choice((0, 1, 2, 3, 4))):
        sub = T if rng.random() < .1 else rng.sample(T, rng.randint(1, min(len(T), 24)))
        name = "cond%d.stl" % i
        hp.write_stl_binary(name, sub)
        e = dict(condition_id=i + 1, input_filename=name, condition_type=rng.choice(TYPES))
        if "Support" in e["condition_type"]:
            e["value"] = [rng.choice((0.0, rng.uniform(-1, 1), rng.uniform(-1e5, 1e5))) for _ in range(3)]
            e["value"][rng.randint(0, 2)] += 1e-3 * (i + 1)
        if e["condition_type"] == TYPES[0]:
            e["penalty_factor"] = rng.choice((1e10, 1e10, 10.0 ** rng.randint(0, 12), rng.uniform(1, 1e5)))
        if "Load" in e["condition_type"]:
            e["modulus"] = rng.choice((-1, 1)) * 10.0 ** rng.uniform(-2, 4)
        if e["condition_type"] == TYPES[2]:
            e["direction"] = [rng.choice((0.0, rng.uniform(-1, 1), rng.uniform(-1e3, 1e3))) for _ in range(3)]
            e["direction"][rng.randint(0, 2)] = rng.choice((-1, 1)) * 10.0 ** rng.uniform(-4, 4)
        out.append((e, sub))
    return out
