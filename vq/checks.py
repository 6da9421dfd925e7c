"""The checks: per property, stages (driver, build variant, case counts quick/thorough) and runner-side rules."""
import subprocess

CHECKS = {}


def check(pid, rule, stages, **kw):
    CHECKS[pid] = dict(rule=rule, stages=stages, **kw)


def st(driver, n, name=None, variant="plain", **kw):
    return dict(name=name or driver + ("" if variant == "plain" else "-" + variant), driver=driver, variant=variant, n=n, **kw)


def rate(stage, what, of, frac, plus, key):
    """Rare but legitimate outcomes: their number may not exceed  plus + frac * (number of opportunities)."""
    def f(ctx):
        c = ctx.counters
        a, b = c.get(stage + "/" + what, 0), c.get(stage + "/" + of, 0)
        if a > plus + frac * b:
            return [(key, "%s: %d of %d %s (at most %g expected)" % (what, a, b, of, plus + frac * b))]
        return []
    return f


T_TRACE = "runtime monitoring: generated workloads on the real library, online oracle on every observed result"
N_GEN = "Exploration by seeded generation; the oracle is independent of the code under test and is evaluated on every observed object, not sampled. Silent on rounding: tolerances are a few orders above the observed maximum, which the evidence file records."

C01_RULE = ("random closed body (box, sphere, torus, prism, tetrahedron, voxel block, cavity, several bodies; scaled, stretched, shifted, rotated) x background grid "
            "(margin / aligned / body partly outside) x order; non-trivial: the model has active cells")
check("C01", C01_RULE,
      [st("c01", (4000, 60000)), st("c01", (700, 10000), opt={"scales": 1, "least": -3.5}, name="c01scales")],
      technique=T_TRACE + " (exact moments of the body in each cell by an independent clipper)", note=N_GEN + " Moment-fitting residuals are rate-limited per decade (a rare bad fit is legitimate, a general loss of accuracy is not).",
      after=[rate("c01", "trimmed cells with moment error above " + h, "trimmed cells", f, p, "moment-error-rate")
             for h, f, p in (("1.0000000000000001e-09", .15, 60), ("9.9999999999999995e-08", .06, 30), ("9.9999999999999995e-07", .02, 20), ("1.0000000000000001e-05", .005, 12), ("0.0001", .0015, 8))]
      + [rate("c01", "trimmed cells with volume error above " + h, "trimmed cells", f, p, "volume-error-rate")
         for h, f, p in (("1.0000000000000001e-09", .003, 12), ("9.9999999999999995e-07", .0015, 10), ("0.0001", .001, 8))]
      + [rate("c01", "dropped cells above the ratio", "cells", .0008, 6, "dropped-cell-rate")]
      + [rate("c01scales", "dropped cells above the ratio", "cells", .002, 6, "dropped-cell-rate"),
         rate("c01scales", "trimmed cells with moment error above 9.9999999999999995e-07", "trimmed cells", .03, 12, "moment-error-rate")],
      observe={"c01scales/trimmed cells": 400, "c01/trimmed cells": 2000, "c01/full cells": 300},
      assumptions=["moments are compared in the tensor shifted-Legendre basis of the cell up to the requested order, relative L2",
                   "a cell may be given up when moment fitting cannot reach 1e-2 (documented), so single drops below 30% volume are rate-limited, not forbidden"])
check("C02", "as C01, plus GGQ rules and fictitious-domain alpha; non-trivial: the model has points", [st("c02", (2500, 30000)), st("c02", (900, 12000), opt={"scales": 1}, name="c02scales")],
      technique=T_TRACE + " (admissibility monitor on every point of every element)", note=N_GEN,
      observe={"c02/points": 50000, "c02/fictitious points": 500})
check("C03", "body x grid x thread count; non-trivial: at least two classes occur", [st("c03", (20000, 160000)), st("c03", (20000, 160000), opt={"scales": 1, "least": -4.5}, name="c03scales")],
      technique=T_TRACE + " (body-in-cell volume and surface-in-cell area by an independent clipper; per-cell and whole-grid classifiers against each other)", note=N_GEN,
      observe={"c03/cells cut": 5000, "c03/cells clear of the surface": 2000, "c03/cells touched by the surface": 500})
check("C13", "body x points (random, near the surface, vertex-aligned); non-trivial: points on both sides", [st("c13", (80000, 900000))],
      technique=T_TRACE + " (generalised winding number)", note=N_GEN + " Points closer to the surface than rounding are skipped and counted.", observe={"c13/inside": 2000})
check("C04", "body (some with a missing triangle) x grid x conditions x threads x output; non-trivial: the model has active cells", [st("c04", (2500, 30000)), st("c04", (500, 8000), opt={"scales": 1}, name="c04scales")],
      technique=T_TRACE + " (every reported number recomputed from the input and the finished model)", note=N_GEN + " Times are checked for sign, order and against the wall clock.",
      observe={"c04/closed bodies": 1000, "c04/open bodies": 100, "c04/conditions partly active": 500, "c04/written models": 200})
check("C05", "scene x conditions x (seeded schedules on a serialised OpenMP runtime: thread choice at every chunk, critical section and preemption point, team size, chunk order; the real runtime with 2-24 threads, also from within a parallel region); non-trivial: the model has active cells",
      [st("c05", (400, 6000), name="c05-sched", variant="sched", opt={"shim": 1}), st("c05", (900, 12000))],
      technique="runtime monitoring under controlled and real schedules: every build of the same input is compared with the single-threaded one, object by object", note=N_GEN + " Element results are bitwise equal in all runs seen; the tolerance allows reordered sums.",
      observe={"c05-sched/builds": 1000, "c05-sched/distinct schedules": 2000, "c05-sched/context switches": 100000, "c05/builds": 1500, "c05/segments compared": 3000})
check("C06", "scene x conditions x 2-8 threads, then one operator, one mesh view and one finished model queried by 2-4 threads, and two models built at once; non-trivial: the model has active cells",
      [st("c06", (700, 12000), variant="tsan", timeout=120)],
      technique="ThreadSanitizer on the whole library, on an OpenMP runtime that adds no synchronisation of its own (harness/gomp_shim.cpp), with seeded delays",
      note="Happens-before analysis: a race is reported whenever both accesses are executed without synchronisation in between, whatever the timing; code that is not executed is not judged.",
      observe={"c06-tsan/builds": 600, "c06-tsan/chunks": 10000, "c06-tsan/critical sections": 10000, "c06-tsan/concurrent operator queries": 10000, "c06-tsan/concurrent element queries": 5000})
check("C08", "every tabulated 1D rule of every order and reduction, tensor rules on random boxes, orders outside the tables; non-trivial: a rule was obtained", [st("c08", (24000, 192000))],
      technique=T_TRACE + " (exactness on Legendre polynomials, symmetry, positivity, refusal)", note=N_GEN + " All tabulated 1D rules are covered in every run.", observe={"c08/rules": 25})
check("C09", "order x reduction x number of elements x interval; non-trivial: all", [st("c09", (20000, 160000))],
      technique=T_TRACE + " (exact integrals of every B-spline of the target space)", note=N_GEN, observe={"c09/rules": 1000})
check("C10", "random sets of full cells (random masks, rows, gaps, bodies) x order x rule; non-trivial: at least one full cell", [st("c10", (48000, 384000))],
      technique=T_TRACE + " (exact integrals of every tensor-product B-spline over the union of full cells)", note=N_GEN, observe={"c10/full cells": 5000})
check("C11", "grid sizes and boxes; all cells and all directions of the grid and random partitions; non-trivial: all", [st("c11", (32000, 256000)), st("c11", (1500, 20000), opt={"large": 1}, name="c11large")],
      technique=T_TRACE + " (reference model of the numbering; conservation of cell volume)", note=N_GEN, observe={"c11/steps": 30000})
check("C12", "random insertion histories (trimmed, untrimmed, empty, duplicates, parallel) x walks; non-trivial: at least two elements", [st("c12", (4000, 60000)), st("c12", (8, 80), opt={"large": 1}, name="c12large", timeout=120)],
      technique=T_TRACE + " (the container against a plain map, history by history)", note=N_GEN, observe={"c12/insertions": 3000, "c12/duplicate insertions": 500})
check("C14", "body or triangle soup x boxes and rays, also in special position; non-trivial: all", [st("c14", (40000, 320000))],
      technique=T_TRACE + " (exhaustive search over all triangles)", note=N_GEN, observe={"c14/triangles in boxes": 20000, "c14/ray hits": 5000})
check("C15", "body or surface x grid, also surfaces in cell faces; non-trivial: surface in the grid", [st("c15", (40000, 450000))],
      technique=T_TRACE + " (conservation: area, normal and first-moment sums; independent clipper)", note=N_GEN, observe={"c15/pieces": 50000, "c15/triangles in a face plane": 1000})
check("C16", "body x grid x minimum triangles, domains from the geometric operator and from finished models (after the input is gone); non-trivial: at least one domain", [st("c16", (4000, 40000)), st("c16", (900, 10000), opt={"scales": 1}, name="c16scales")],
      technique=T_TRACE + " (divergence theorem and winding numbers of every boundary mesh against an independent clipper of the body)", note=N_GEN,
      after=[rate("c16", "cells perturbed", "trimmed cells", .0005, 4, "perturbed-rate"), rate("c16", "cells with open boundary", "trimmed cells", .0005, 3, "open-boundary-rate"),
             rate("c16", "cells with volume difference above 1.0000000000000001e-09", "trimmed cells", .001, 3, "volume-rate"),
             rate("c16", "cells with first moment difference above 1.0000000000000001e-09", "trimmed cells", .001, 3, "moment-rate"),
             rate("c16", "cells without domain above the ratio", "trimmed cells", .001, 4, "no-domain-rate")],
      observe={"c16/trimmed cells": 10000, "c16/full cells": 200, "c16/points in a plane of the surface": 500})
check("C17", "body x grid x 1-4 condition surfaces (whole boundary, part, cutting planes, sheets) x threads; non-trivial: a segment has an element", [st("c17", (6400, 72000)), st("c17", (3600, 30000), opt={"scales": 1}, name="c17scales")],
      technique=T_TRACE + " (conservation of the surface over the segments; cell and element of each segment)", note=N_GEN, observe={"c17/segments with element": 5000, "c17/segments without element": 500})
check("C18", "meshes (bodies, sheets, soups with repeated and degenerate triangles, large ones) written and read back in both encodings, natively and through a foreign view; files of other producers: any header, solid names that contain keywords, several solids, CRLF, tabs, indentation, blank lines between facets, number formats, wrong normals, attribute bytes; non-trivial: all",
      [st("c18", (30000, 400000))], technique=T_TRACE + " (independent strict STL parser; the files' triangles one by one)",
      note=N_GEN, assumptions=["one statement per line, lower-case keywords, no blank lines inside a facet", "ASCII coordinates are compared in single precision, vertices within 1e-12 may be merged"],
      observe={"c18/triangles compared": 500000, "c18/shared corners": 1000000, "c18/foreign ascii files": 1000, "c18/foreign binary files": 600})
check("C19", "well-formed files with 1-4 faults (truncation, bytes, tokens, lines, counts, non-finite coordinates), random bytes, tiny, missing, directories; non-trivial: distinct contents",
      [st("c19", (150000, 3000000), timeout=30), st("c19", (40000, 800000), variant="asan", opt={"small": 1}, timeout=60)],
      technique="runtime monitoring: fault injection into files, oracle reads the same bytes independently; AddressSanitizer and UBSan over the same workload", note=N_GEN + " The sanitizer stage skips counts that would only test the allocator.",
      observe={"c19/refused": 10000, "c19/accepted": 5000, "c19-asan/refused": 2000})
check("C20", "models with conditions (output of the model and of the static functions, both encodings), dictionaries with arbitrary texts and numbers; non-trivial: the model has active cells",
      [st("c20", (6000, 80000)), st("c20", (500, 8000), opt={"scales": 1}, name="c20scales"), st("c20", (24, 400), opt={"large": 1}, name="c20large", timeout=120)], technique=T_TRACE + " (strict VTK, STL and JSON parsers; every value against the model)", note=N_GEN,
      assumptions=["numbers in JSON carry ten significant digits (documented in the test suite), ASCII VTK 15 decimals, ASCII STL 6 decimals", "condition ids are unique within a model (the id is the file name)"],
      observe={"c20/cells compared": 50000, "c20/points compared": 500000, "c20/files settings": 4000, "c20/files condition": 3000})
check("C21", "every writer and whole models x targets that cannot be created, /dev/full, size limits around and below the file size, errors, short and interrupted writes at every position; non-trivial: all",
      [st("c21", (3000, 40000))], technique="runtime monitoring under fault injection: write and writev are intercepted, RLIMIT_FSIZE and /dev/full; outcome and bytes against a reference run",
      note=N_GEN + " Errors that the operating system reports only when the file is closed are not covered.",
      observe={"c21/truncated writes": 2000, "c21/write errors": 1000, "c21/failed model writes": 1000})
check("C22", "random operation sequences (set, get, try, is-set, check, append, lists) on all dictionaries, through native keys and strings, in C++ and in Python; values of every type under every key; non-trivial: all",
      [st("c22", (36000, 600000)), st("c22p", (12000, 200000), variant="py")],
      technique=T_TRACE + " (a model dictionary with its own table of keys, types, defaults and required values, checked after every operation)", note=N_GEN,
      observe={"c22/values set": 100000, "c22/wrong types refused": 40000, "c22p-py/valid values set": 50000, "c22p-py/wrong types refused": 40000})
check("C23", "random settings written and read back; files of other producers (key order, missing optional parts) and files with unknown keys, wrong types, options, structure; settings that are incomplete or inconsistent; non-trivial: all",
      [st("c23", (18000, 240000), variant="py")],
      technique=T_TRACE + " (own JSON encoder and decoder, own table of keys, types, defaults and consistency rules)", note=N_GEN,
      assumptions=["numbers are compared to the ten significant digits that the format carries", "texts equal to the marker 'Not Set.' and non-finite numbers are excluded"],
      observe={"c23-py/round trips": 1500, "c23-py/refused files": 1500, "c23-py/refused models": 1000, "c23-py/accepted models": 200})
check("C28", "orders, element numbers, boxes, parametric boxes, both knot vector types; non-trivial: all",
      [st("c28", (24000, 300000), variant="py")],
      technique=T_TRACE + " (the spline evaluated by an independent Cox-de Boor recursion and by SciPy)", note=N_GEN,
      observe={"c28-py/directions": 10000, "c28-py/control points": 1000000})
check("C24", "random matrices (sizes, ranks, scales, duplicated columns, Vandermonde-like) and right-hand sides; non-trivial: a non-zero solution", [st("c24", (600000, 4800000))],
      technique=T_TRACE + " (Karush-Kuhn-Tucker conditions, recomputed residual)", note=N_GEN, observe={"c24/active entries": 5000})
check("C25", "odd cases: boxes over eight decades with offsets, points inside and outside; even cases: one body, two parametric descriptions of the same grid; the scripting helpers on random boxes; non-trivial: all", [st("c25", (6000, 60000)), st("c25", (1600, 15000), opt={"scales": 1}, name="c25scales"), st("c25p", (8000, 100000), variant="py")],
      technique=T_TRACE + " (long double affine map, tangents pushed forward; the same body through two parametric descriptions)", note=N_GEN,
      after=[rate("c25", "trimmed cells with moment difference above " + k, "trimmed cells", f, n, "parametric-description-changes-moments") for k, f, n in (("1e-08", .03, 30), ("9.9999999999999995e-07", .02, 20), ("0.0001", .003, 8))]
      + [rate("c25", "cells active in one description only", "cells", .0005, 4, "parametric-description-changes-activity")],
      observe={"c25p-py/points mapped": 100000, "c25/surface points": 20000, "c25/full cells": 300, "c25/trimmed cells": 5000})
check("C26", "closed bodies, sheets and triangle soups, scaled and shifted, native and foreign views x mesh operations; non-trivial: all", [st("c26", (30000, 240000))],
      technique=T_TRACE + " (long double reference measures; list model of the mesh; conservation under refinement)", note=N_GEN, observe={"c26/refined triangles": 100000, "c26/removed triangles": 500})
check("C27", "intervals (scales, offsets) x orders x points; non-trivial: all", [st("c27", (60000, 480000))],
      technique=T_TRACE + " (long double Legendre recurrence, numerical antiderivative, orthogonality)", note=N_GEN, observe={"c27/points evaluated": 30000})
PYASAN = {"PYTHONMALLOC": "malloc", "LD_PRELOAD": " ".join(subprocess.run(["gcc", "-print-file-name=" + x], capture_output=True, text=True).stdout.strip() for x in ("libasan.so", "libstdc++.so"))}
check("C29", "C++: models, conditions, views, ranges, meshes, dictionaries and trimmed domains collected, then inputs destroyed, temporaries dropped, model moved, assigned, put into containers, freed memory overwritten; Python: random histories of getting, keeping, dropping (with garbage collection) and using objects of every kind; non-trivial: the model has elements / distinct histories",
      [st("c29", (1400, 20000)), st("c29", (240, 4000), variant="asan", timeout=120),
       st("c29p", (1200, 20000), variant="py"), st("c29p", (240, 4000), variant="pypicasan", env=PYASAN, timeout=120)],
      technique="AddressSanitizer and digest monitors over object-lifetime histories in C++ and Python: every kept object is used again and compared with its first value", note=N_GEN,
      assumptions=["the container an object was taken from is not modified meanwhile", "the settings passed to CreateCondition in C++ are kept by the caller (they are referenced by contract)"],
      observe={"c29/steps": 3000, "c29-asan/domains queried": 3000, "c29p-py/uses": 30000, "c29p-pypicasan/uses": 6000})
check("C31", "settings files x bodies (binary and ASCII STL) x conditions x output on/off, stale output directory, default and explicit settings; then every accessor; non-trivial: trimmed elements",
      [st("c31", (1300, 20000), variant="py")],
      technique=T_TRACE + " (the objects against the settings, the body, and independently parsed files of the same run)", note=N_GEN,
      observe={"c31-py/written models": 500, "c31-py/elements": 20000, "c31-py/segments": 10000, "c31-py/triangles": 10000})
check("C32", "of eight cases: four analyses (body, grid, parametric description, rule, 0 to 4 supports and loads), two mesh transfers in both directions, one set of bounding-box conditions, one model with a condition that cannot be transferred; non-trivial: an analysis with loads, a mesh, a set of boxes",
      [st("c32", (2400, 30000), variant="py")],
      technique=T_TRACE + " (a recording stand-in for Kratos; resultants, first moments and surfaces of what was handed over against the specified ones)", note=N_GEN,
      assumptions=["Kratos is not installed: its python interface is replaced by a stand-in that records, and refuses what Kratos refuses"],
      observe={"c32-py/elements": 3000, "c32-py/loads": 50000, "c32-py/supports": 20000, "c32-py/mesh triangles": 20000, "c32-py/nodes": 5000, "c32-py/refused": 60})
check("C33", "each case: one use (a whole model; reading, writing, damaged files and impossible targets; geometric queries; settings and refusals; in python: a whole model, or many small objects, with and without refused calls), four or six times the same; non-trivial: something was done",
      [st("c33", (2400, 30000)), st("c33p", (360, 4000), variant="py", env={"PYTHONMALLOC": "malloc", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "OMP_NUM_THREADS": "1"})],
      technique="resource monitors: counting operators new and delete (C++), the allocator's own statistics (python), /proc/self/fd and /proc/self/task, before and after repeated identical uses", note=N_GEN,
      assumptions=["caches that are filled once are no leak: only a growth that every repetition repeats is one"],
      observe={"c33/trimmed domains": 1000, "c33/refused domains": 200, "c33/done": 10000, "c33/refused": 3000, "c33/elements": 3000, "c33/segments": 3000, "c33p-py/rounds": 1500})
NOT_APPLICABLE = {}
def _c30():
    o = []
    for k, f, p, g, q in (("1e-08", .02, 25, .001, 8), ("9.9999999999999995e-07", .015, 20, .001, 6), ("0.0001", .001, 8, .0003, 3)):
        o.append(rate("c30", "trimmed cells with moment difference above " + k, "trimmed cells", f, p, "moments-depend-on-description"))
        o.append(rate("c30", "renumbered trimmed cells with moment difference above " + k, "renumbered trimmed cells", g, q, "moments-depend-on-numbering"))
    for w in ("volume", "area"):
        for k in ("9.9999999999999995e-08", "1.0000000000000001e-05", "0.001"):
            o.append(rate("c30", "trimmed cells with %s difference above %s" % (w, k), "active cells", .0003, 3, w + "-depends-on-description"))
    o.append(rate("c30", "cells active in one model only", "cells", .0003, 4, "activity-depends-on-description"))
    o.append(rate("c30", "cells trimmed in one model only", "cells", .0003, 4, "kind-depends-on-description"))
    o.append(rate("c30", "conditions distributed differently", "conditions", .06, 10, "segments-depend-on-description"))
    o.append(rate("c30", "conditions of renumbered meshes distributed differently", "conditions", .02, 8, "segments-depend-on-numbering"))
    return o


check("C30", "scene x condition x (permuted triangles, rotated triangles, duplicated or permuted vertices, subdivided flat triangles, foreign mesh interface, shift, scaling by 1e-2 to 1e2, permuted axes, another random seed, several at once); non-trivial: the model has active cells",
      [st("c30", (6000, 80000))], technique="runtime monitoring: metamorphic pairs of runs, every cell and condition of one model against its image in the other", note=N_GEN + " Cells near a decision threshold may differ by rounding; such differences are rate-limited, and classification differences are only accepted where the body fraction is 0 or 1 up to 1e-7.",
      after=_c30(), assumptions=["absolute tolerances of the code make bodies below about 1e-5 a different case (C25, C13 cover 1e-4 to 1e4)"],
      observe={"c30/active cells": 20000, "c30/segments": 10000, "c30/models permuted axes": 100, "c30/models foreign mesh": 100, "c30/models other random seed": 100})


def _c07():
    m = dict(memory_only=True, timeout=240)
    o = [st("c07", (300, 8000), variant="asan", timeout=400), st("c07", (600, 16000), variant="dbg", timeout=400),
         st("c07", (160, 5000), variant="vg", opt={"slow": 1}, wrap=["valgrind", "-q", "--error-exitcode=99"], timeout=400)]
    for d, n, big in (("c01", 160, 4000), ("c04", 120, 3000), ("c10", 800, 10000), ("c12", 400, 8000), ("c14", 400, 8000), ("c15", 320, 8000), ("c16", 120, 3000), ("c17", 160, 4000),
                      ("c20", 120, 3000), ("c26", 800, 10000)):
        o.append(st(d, (n, big), variant="asan", **m))
    for d, n, big in (("c01", 320, 8000), ("c04", 200, 6000), ("c08", 400, 4000), ("c09", 400, 4000), ("c10", 800, 10000), ("c11", 400, 4000), ("c13", 400, 8000), ("c15", 400, 8000), ("c16", 320, 8000),
                      ("c17", 320, 8000), ("c18", 400, 8000), ("c20", 160, 4000), ("c24", 4000, 60000), ("c26", 800, 10000), ("c27", 400, 4000)):
        o.append(st(d, (n, big), variant="dbg", **m))
    for d, n, big in (("c18", 120, 2000), ("c20", 24, 800), ("c16", 24, 800)):
        o.append(st(d, (n, big), variant="vg", wrap=["valgrind", "-q", "--error-exitcode=99"], **m))
    return o


check("C07", "unusual valid inputs (no, one, degenerate, open, inverted, doubled, thin, random triangles; grids around, inside, beside, far larger than the body; extreme ratios, orders, tolerances; output), and the workloads of C01-C27; non-trivial: active cells or the driver's own notion",
      _c07(), technique="AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++'s checked containers and iterators, valgrind memcheck; monitored executions of the real library",
      note="A sanitizer report is a fact about the execution that produced it; code and inputs that are not executed are not judged.",
      assumptions=["conditions are created after the volume, the volume once", "assertions of the library are off in these builds, so that they cannot hide an access"],
      observe={"c07-asan/active cells": 500, "c07-dbg/active cells": 1000, "c07-vg/active cells": 100, "c07-asan/trimmed domains": 100, "c07-vg/trimmed domains": 50})
