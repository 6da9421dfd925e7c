#!/usr/bin/env python3
"""Runs one property's check:  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed (KNOWN-FINDING lines for listed findings).
Exit 1: a VIOLATION line per unlisted violation.      Exit 2: harness failure (no verdict).
"""
import json, os, queue, re, selectors, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import checks as T

VERIF = B.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=1:max_allocation_size_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1",
}


def known_findings():
    """known: property=<id> key=<regex> <text>"""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m:
                    out.append((m.group(1), re.compile(m.group(2) + r"\Z"), m.group(3).strip()))
    except OSError:
        pass
    return out


class Shard:
    """One driver process over [a,b); returns parsed result, restarting after a culprit case."""

    def __init__(self, ctx, stage, exe):
        self.ctx, self.stage, self.exe = ctx, stage, exe

    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith("OMP_") and not k.startswith("GOMP_")}
        e.update(SAN_ENV)
        e.setdefault("OMP_NUM_THREADS", "1")
        e.setdefault("OMP_WAIT_POLICY", "passive")  # 8 processes share the cores
        e["LC_ALL"] = "C"
        e.update({k: str(v) for k, v in self.stage.get("env", {}).items()})
        return e

    def cmd(self, a, b, tmp):
        c = list(self.stage.get("wrap", [])) + self.exe + ["--seed", str(self.ctx.seed), "--from", str(a), "--to", str(b),
                                "--tier", self.ctx.tier, "--tmp", tmp]
        for k, v in self.stage.get("opt", {}).items():
            c += ["--opt", "%s=%s" % (k, v)]
        return c

    def once(self, a, b, timeout):
        """-> dict(status ok|crash|hang, last, viols, summary, err, rc)"""
        tmp = tempfile.mkdtemp(prefix="vq_", dir=self.ctx.scratch)
        errf = open(os.path.join(tmp, "stderr"), "w+b")
        p = subprocess.Popen(self.cmd(a, b, tmp), stdout=subprocess.PIPE, stderr=errf, env=self.env(), cwd=tmp, start_new_session=True)
        self.ctx.procs.add(p)
        res = dict(status="ok", last=a, viols=[], summary=None, err="", rc=None)
        sel = selectors.DefaultSelector()
        sel.register(p.stdout, selectors.EVENT_READ)
        buf = b""
        t_last = time.monotonic()
        while True:
            ev = sel.select(timeout=1.0)
            if ev:
                data = os.read(p.stdout.fileno(), 1 << 16)
                if not data:
                    break
                buf += data
                t_last = time.monotonic()
                *lines, buf = buf.split(b"\n")
                for ln in lines:
                    ln = ln.decode("utf-8", "replace")
                    try:
                        if ln.startswith("C "):
                            res["last"] = int(ln[2:])
                        elif ln.startswith("V {"):
                            res["viols"].append(json.loads(ln[2:]))
                        elif ln.startswith("S {"):
                            res["summary"] = json.loads(ln[2:])
                    except ValueError:
                        pass
            elif time.monotonic() - t_last > timeout:
                res["status"] = "hang"
                break
        try:
            if res["status"] == "hang":
                os.killpg(p.pid, signal.SIGKILL)
            p.wait(timeout=60)
        except Exception:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        self.ctx.procs.discard(p)
        res["rc"] = p.returncode
        errf.seek(0)
        err = errf.read()
        res["err"] = (err[:12000] + (b"\n...\n" + err[-4000:] if len(err) > 16000 else err[12000:16000])).decode("utf-8", "replace")
        errf.close()
        if res["status"] == "ok" and (p.returncode != 0 or res["summary"] is None):
            res["status"] = "crash"
        shutil.rmtree(tmp, ignore_errors=True)
        if self.stage.get("memory_only"):  # the driver's own oracle belongs to another property
            res["viols"] = []
        return res


def classify_crash(res):
    err = res["err"]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:80].strip().replace(" ", "-")
    if "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", err)
        f = re.search(r"/queso/([A-Za-z0-9_/]+\.[a-z]+):\d+", err)
        return "tsan:" + m.group(1).strip().replace(" ", "-") + (":" + os.path.basename(f.group(1)) if f else "")
    if res["rc"] is not None and res["rc"] in (99,) or "== ERROR SUMMARY" in err:
        m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Syscall param|Invalid free|Source and destination)", err)
        if m:
            return "valgrind:" + m.group(1).replace(" ", "-")
    m = re.search(r"Error: (attempt to [^\n]*|[a-z][^\n]*)", err)
    if m and "debug::" in err or m and "/debug/" in err:
        return "debug:" + re.sub(r"\d+", "N", m.group(1))[:60].strip().rstrip(",.;:").replace(" ", "-")
    m = re.search(r"Assertion '(.*)' failed|what\(\):\s*(.*)|terminate called", err)
    sig = -res["rc"] if res["rc"] is not None and res["rc"] < 0 else None
    if m:
        return "abort:" + (m.group(1) or m.group(2) or "terminate")[:60].strip().replace(" ", "-")
    return "crash:" + (signal.Signals(sig).name if sig else "exit-%s" % res["rc"])


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.procs = set()
        self.scratch = tempfile.mkdtemp(prefix="vq_%s_" % pid)
        self.known = known_findings()
        self.viols = []          # dict(stage,key,case,msg)
        self.evals = 0
        self.cases = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.inconclusive = []
        self.lock = threading.Lock()
        self.stop = threading.Event()

    def merge(self, stage, s):
        if not s:
            return
        with self.lock:
            self.evals += s.get("evals", 0)
            self.cases += s.get("cases", 0)
            pre = stage["name"]
            self.distinct.update((pre, x) for x in s.get("distinct", []))
            for k, v in s.get("counters", {}).items():
                k2 = pre + "/" + k
                if k.startswith("max:"):
                    self.counters[k2] = max(self.counters.get(k2, v), v)
                else:
                    self.counters[k2] = self.counters.get(k2, 0) + v
            for x in s.get("samples", []):
                if len(self.samples) < 12 and sum(1 for y in self.samples if y.startswith("[" + pre)) < 4:
                    self.samples.append("[%s] %s" % (pre, x))

    def add_viol(self, stage, key, case, msg):
        with self.lock:
            listed = any(kp == self.pid and rx.match(key) for kp, rx, _ in self.known)
            if listed and any(v["key"] == key for v in self.viols):
                return  # a listed finding is kept once and stops nothing
            self.viols.append(dict(stage=stage["name"], key=key, case=case, msg=msg))
            if len(self.viols) > 60:
                self.stop.set()


def run_stage(ctx, stage, exe):
    n = stage["n"][0 if ctx.tier == "quick" else 1]
    par = stage.get("par", B.JOBS)
    chunk = stage.get("chunk") or max(1, min(200, n // (par * 4) or 1))
    todo = queue.Queue()
    for a in range(0, n, chunk):
        todo.put((a, min(n, a + chunk)))
    timeout = stage.get("timeout", 60)
    crashes = {}

    def work():
        sh = Shard(ctx, stage, exe)
        while not ctx.stop.is_set():
            try:
                a, b = todo.get_nowait()
            except queue.Empty:
                return
            while a < b and not ctx.stop.is_set():
                r = sh.once(a, b, timeout)
                if r["status"] == "ok":
                    for v in r["viols"]:
                        ctx.add_viol(stage, v["key"], v["case"], v["msg"])
                    ctx.merge(stage, r["summary"])
                    break
                # Something happened in case r["last"]: keep what was seen, confirm by rerunning that case alone.
                for v in r["viols"]:
                    ctx.add_viol(stage, v["key"], v["case"], v["msg"])
                c = r["last"]
                again = sh.once(c, c + 1, timeout * 2)
                if again["status"] != "ok":
                    r2 = again
                elif r["status"] == "crash" and re.search(r"Sanitizer|runtime error:|==\d+== ", r["err"]):
                    r2 = r  # a sanitizer report is a fact about the execution that produced it
                elif r["status"] == "crash":
                    third = sh.once(a, min(b, c + 1), timeout * 2)
                    r2 = third if third["status"] != "ok" else None
                else:
                    r2 = None
                if r2 is None:
                    with ctx.lock:
                        ctx.inconclusive.append("%s case %d: %s once, not reproduced" % (stage["name"], c, r["status"]))
                    ctx.merge(stage, again["summary"])
                else:
                    key = "hang" if r2["status"] == "hang" else classify_crash(r2)
                    with ctx.lock:
                        crashes[key] = crashes.get(key, 0) + 1
                        many = crashes[key] > 3
                        total = sum(crashes.values())
                    if not many:
                        ctx.add_viol(stage, key, c, "driver %s in case %d (rc %s)\n%s" % (r2["status"], c, r2["rc"], r2["err"][:6000]))
                    if total > 12 or crashes.get("hang", 0) >= 2:
                        ctx.stop.set()
                a = c + 1

    ths = [threading.Thread(target=work) for _ in range(par)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


def main():
    argv = sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--stage":
            only = argv[i + 1]; i += 2
        elif argv[i] == "--replay":
            replay = json.load(open(argv[i + 1])); i += 2
        else:
            raise SystemExit("unknown argument " + argv[i])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    spec = T.CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        rc = go(ctx, spec, only, replay, t0)
    except B.BuildError as e:
        print("BUILD-FAILURE property=%s\n%s" % (pid, e))
    finally:
        for p in list(ctx.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(rc)


def go(ctx, spec, only, replay, t0):
    pid, tier, seed = ctx.pid, ctx.tier, ctx.seed
    stages = [s for s in spec["stages"] if (only is None or s["name"] == only) and (replay is None or s["name"] == replay["stage"])
              and s["n"][0 if tier == "quick" else 1] > 0]
    # one build per variant, all variants' jobs in sequence (each uses all cores)
    exes = {}
    for var in dict.fromkeys(s["variant"] for s in stages):
        if var.startswith("py"):
            d = B.build_python(var[2:] or "pic")
            for s in stages:
                if s["variant"] == var:
                    exes[s["name"]] = ["/usr/bin/python3", "-B", os.path.join(B.HARNESS, s["driver"] + ".py"), "--pkg", d]
        else:
            drv = list(dict.fromkeys(s["driver"] for s in stages if s["variant"] == var))
            got = B.build(var, drv)
            for s in stages:
                if s["variant"] == var:
                    exes[s["name"]] = [got[s["driver"]]]
    t_build = time.time() - t0
    for s in stages:
        if "prepare" in s:
            s = s  # hooks for environment that depends on the build (LD_PRELOAD and the like)
            s["prepare"](ctx, s, exes[s["name"]])
        if ctx.stop.is_set():
            break
        if replay:
            sh = Shard(ctx, s, exes[s["name"]])
            r = sh.once(replay["case"], replay["case"] + 1, s.get("timeout", 60) * 2)
            for v in r["viols"]:
                ctx.add_viol(s, v["key"], v["case"], v["msg"])
            if r["status"] != "ok":
                ctx.add_viol(s, "hang" if r["status"] == "hang" else classify_crash(r), replay["case"], r["err"][:6000])
            ctx.merge(s, r["summary"])
        else:
            ts = time.time()
            run_stage(ctx, s, exes[s["name"]])
            ctx.counters[s["name"] + "/wall_s"] = round(time.time() - ts, 2)
    # cross-case rules evaluated by the runner (rates of rare but legitimate outcomes)
    for fn in spec.get("after", []):
        if not replay and not only:
            for key, msg in fn(ctx):
                ctx.viols.append(dict(stage="aggregate", key=key, case=-1, msg=msg))
    known = known_findings()
    listed, unlisted = {}, {}
    for v in ctx.viols:
        for kp, rx, text in known:
            if kp == pid and rx.match(v["key"]):
                listed.setdefault(text, v)
                break
        else:
            unlisted.setdefault(v["key"], v)
    for text in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (key, v) in enumerate(unlisted.items()):
        path = os.path.join(rdir, "%s-%s-%d-%d.json" % (pid, v["stage"], seed, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, stage=v["stage"], seed=seed, tier=tier, case=v["case"], key=key, msg=v["msg"],
                           rerun="python3 /verif/vq/check.py %s --replay %s" % (pid, path)), f, indent=1)
        print("  [%s/%s case %s] %s: %s" % (pid, v["stage"], v["case"], key, v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    empty = []
    if not replay and not only and not unlisted:
        for k, least in spec.get("observe", {}).items():
            if ctx.counters.get(k, 0) < least:
                empty.append("%s=%s < %s" % (k, ctx.counters.get(k, 0), least))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=ctx.evals, distinct_nontrivial=len(ctx.distinct), rule=spec["rule"], samples=ctx.samples,
                            cases=ctx.cases, observed={k: (v if v != int(v) else int(v)) for k, v in sorted(ctx.counters.items())},
                            inconclusive=ctx.inconclusive, known_findings=sorted(listed)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(unlisted))
    if not replay and not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: cases=%d evaluations=%d distinct=%d violations=%d known=%d inconclusive=%d build=%.1fs wall=%.1fs" % (
        pid, tier, seed, ctx.cases, ctx.evals, len(ctx.distinct), len(unlisted), len(listed), len(ctx.inconclusive), t_build, time.time() - t0))
    for x in ctx.inconclusive:
        print("  inconclusive:", x)
    if only or os.environ.get("VQ_VERBOSE"):
        for k, v in sorted(ctx.counters.items()):
            print("   ", k, v)
    if unlisted:
        return 1
    if empty:
        print("NO-VERDICT property=%s observed too little: %s" % (pid, "; ".join(empty)))
        return 2
    return 0


if __name__ == "__main__":
    main()
