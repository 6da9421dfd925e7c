"""Builds the library from /repo's current working tree and the drivers of /verif/harness.

Everything goes to /verif/build/<variant>-<key>/ (git-ignored); <key> is a hash over all sources, headers and
flags, so an unchanged tree is not rebuilt and a changed tree never reuses stale objects.
"""
import glob, hashlib, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VQ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 4))

INC = ["-I" + REPO, "-I" + REPO + "/queso", "-I" + REPO + "/external_libraries"]
STD = ["-std=c++20", "-DQUESO_BUILD_TESTING=0", "-w"]
VARIANTS = {
    # asserts of the library active (as in the test build)
    "plain": dict(cxx="g++", flags=["-O1", "-fopenmp"], link=["-fopenmp"]),
    # release-like: library asserts off; instrumentation must find what they would have hidden
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-DNDEBUG",
                                   "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
                                   "-fsanitize-address-use-after-scope"],
                 link=["-fopenmp", "-fsanitize=address,undefined"]),
    # checked containers and iterators (range, ordering and comparator preconditions) on top of the undefined-behaviour checks
    "dbg": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-DNDEBUG", "-include", os.path.join(HARNESS, "dbg_shim.hpp"), "-D_GLIBCXX_DEBUG",
                                  "-fsanitize=undefined", "-fno-sanitize-recover=all"],
                link=["-fopenmp", "-fsanitize=undefined"]),
    # thread sanitizer with the instrumented mini OpenMP runtime of harness/gomp_shim.cpp
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-DNDEBUG", "-fsanitize=thread"],
                 link=["-fsanitize=thread", "-pthread"], shim=True),
    # plain code on the mini OpenMP runtime: seed-driven schedules
    "sched": dict(cxx="g++", flags=["-O1", "-fopenmp", "-finstrument-functions",
                                    "-finstrument-functions-exclude-file-list=/usr/,harness/,vector3.hpp,aabb_tree"], link=["-pthread"], shim=True),
    # debug info, no optimisation surprises: valgrind memcheck
    "vg": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fopenmp"], link=["-fopenmp"]),
    # position independent, for the python module
    "pic": dict(cxx="g++", flags=["-O1", "-fPIC", "-fopenmp", "-fvisibility=default"], link=["-fopenmp"]),
    "picasan": dict(cxx="g++", flags=["-O1", "-g1", "-fPIC", "-fopenmp", "-fno-omit-frame-pointer", "-DNDEBUG",
                                      "-fsanitize=address", "-fno-sanitize-recover=all"],
                    link=["-fopenmp", "-fsanitize=address"]),
}


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for f in sorted(glob.glob(REPO + "/queso/**/*.cpp", recursive=True)):
        rel = os.path.relpath(f, REPO + "/queso")
        if rel.split(os.sep)[0] in ("tests", "python"):
            continue
        out.append(f)
    out.append(REPO + "/external_libraries/aabb_tree/AABB_base.cc")
    return out


def _digest(files, extra):
    h = hashlib.sha1()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


_repo_key = None


def repo_key():
    global _repo_key
    if _repo_key is None:
        files = []
        for pat in ("*.cpp", "*.hpp", "*.h", "*.cc", "*.c", "*.inl", "*.ipp", "*.tpp", "*.hxx", "*.inc"):
            files += glob.glob(REPO + "/queso/**/" + pat, recursive=True)
        files = [f for f in files if os.sep + "tests" + os.sep not in f]
        files += sorted(glob.glob(REPO + "/external_libraries/**/*", recursive=True))
        _repo_key = _digest(sorted(f for f in files if os.path.isfile(f)), "v1")
    return _repo_key


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if "error" in l or "undefined" in l]
        raise BuildError(what + " failed:\n" + " ".join(cmd) + "\n" + "\n".join(errs[:20]) + "\n" + r.stdout[-800:])


def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d) and d not in keep]
        ds.sort(key=lambda d: os.path.getmtime(d))
        while len(ds) > 14:
            shutil.rmtree(ds.pop(0), ignore_errors=True)
    except OSError:
        pass


def build(variant, drivers, need_model=None):
    """Returns {driver: path of executable}. Library objects and drivers are compiled concurrently."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant + "-" + _digest([], (repo_key(), v["cxx"], v["flags"], STD)))
    os.makedirs(d, exist_ok=True)
    _prune({d})
    heads = sorted(glob.glob(HARNESS + "/*.hpp"))
    lib = lib_sources()
    jobs = {}
    pool = ThreadPoolExecutor(JOBS)

    def obj(src, out, extra=()):
        if os.path.exists(out):
            return
        tmp = out + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
        _run([v["cxx"]] + STD + v["flags"] + list(extra) + INC + ["-I" + HARNESS, "-c", src, "-o", tmp], "compiling " + src)
        os.replace(tmp, out)

    exes, objs = {}, {}
    order = []
    for drv in drivers:
        src = os.path.join(HARNESS, drv + ".cpp")
        o = os.path.join(d, drv + "-" + _digest([src] + heads, "") + ".o")
        objs[drv] = o
        order.append((src, o))
    any_model = False
    for drv in drivers:
        with open(os.path.join(HARNESS, drv + ".cpp")) as fh:
            any_model |= "embedded_model" in fh.read() or "model.hpp" in open(os.path.join(HARNESS, drv + ".cpp")).read()
    if need_model is None:
        need_model = any_model
    libobjs = []
    heavy = []
    for s in lib:
        o = os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        if os.path.basename(s) == "embedded_model.cpp":
            if not need_model:
                continue
            heavy.append((s, o))
        else:
            order.append((s, o))
        libobjs.append(o)
    if v.get("shim"):
        s = os.path.join(HARNESS, "gomp_shim.cpp")
        o = os.path.join(d, "gomp_shim-" + _digest([s], "") + ".o")
        order.append((s, o))
        libobjs.append(o)
    futs = [pool.submit(obj, s, o) for s, o in heavy + order]
    err = None
    for f in futs:
        try:
            f.result()
        except BuildError as e:
            err = err or e
    pool.shutdown()
    if err:
        raise err

    ar = os.path.join(d, "lib-%s.a" % _digest([], libobjs))
    if not os.path.exists(ar):
        tmp = ar + ".%d.tmp" % os.getpid()
        _run(["ar", "rcs", tmp] + libobjs, "archive")
        os.replace(tmp, ar)
    for drv in drivers:
        exe = objs[drv][:-2] + ".exe"
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(ar):
            shim = [o for o in libobjs if "gomp_shim" in o]
            cmd = [v["cxx"], objs[drv]] + shim + [ar] + v["link"] + ["-o", exe + ".tmp"]
            try:
                _run(cmd, "linking " + drv)
            except BuildError:
                if need_model:
                    raise
                return build(variant, drivers, need_model=True)
            os.replace(exe + ".tmp", exe)
        exes[drv] = exe
    return exes


def build_python(variant="pic"):
    """Builds the python package the way the project does; returns the directory to put on PYTHONPATH."""
    v = VARIANTS[variant]
    pysrc = sorted(glob.glob(REPO + "/queso/python/**/*", recursive=True)) + sorted(glob.glob(REPO + "/kratos_interface/*.py"))
    pysrc = [f for f in pysrc if os.path.isfile(f) and not f.endswith(".pyc")]
    d = os.path.join(BUILD, "py" + variant + "-" + _digest(pysrc, (repo_key(), v["flags"])))
    pkg = os.path.join(d, "QuESoPythonModule")
    import sysconfig
    ext = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'));print(sysconfig.get_paths()['include'])"],
                         stdout=subprocess.PIPE, text=True).stdout.split()
    so = os.path.join(pkg, "_QuESoPythonModule" + ext[0])
    if os.path.exists(so):
        return d
    os.makedirs(pkg, exist_ok=True)
    _prune({d})
    inc = ["-I" + ext[1], "-I" + REPO + "/external_libraries/pybind11/include", "-I" + REPO + "/external_libraries"]
    srcs = [(s, os.path.join(d, "b_" + os.path.basename(s) + ".o")) for s in sorted(glob.glob(REPO + "/queso/python/bindings/*.cpp"))]
    srcs += [(s, os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")) for s in lib_sources()]
    srcs.sort(key=lambda so_: (0 if ("embedded_model" in so_[0] or "containers_to_python" in so_[0]) else 1))

    def obj(s, o):
        if not os.path.exists(o):
            _run([v["cxx"]] + STD + v["flags"] + INC + inc + ["-c", s, "-o", o + ".tmp.o"], "compiling " + s)
            os.replace(o + ".tmp.o", o)
    with ThreadPoolExecutor(JOBS) as pool:
        for f in [pool.submit(obj, s, o) for s, o in srcs]:
            f.result()
    for f in glob.glob(REPO + "/queso/python/*.py"):
        base = os.path.basename(f)
        shutil.copy(f, os.path.join(pkg, "__init__.py" if base == "QuESoPythonModule.py" else base))
    shutil.copytree(REPO + "/queso/python/scripts", pkg + "/scripts", dirs_exist_ok=True)
    shutil.copytree(REPO + "/kratos_interface", pkg + "/kratos_interface", dirs_exist_ok=True)
    _run([v["cxx"], "-shared"] + [o for _, o in srcs] + v["link"] + ["-o", so + ".tmp"], "linking python module")
    os.replace(so + ".tmp", so)
    return d
