"""Plumbing of the checks: building, running the harness, running TLC.  No judging happens here."""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
JARS = [f"{TLA}/tla2tools.jar", f"{TLA}/CommunityModules-deps.jar"]
CONFIGS = {"std": "std serde", "alloc": "alloc", "none": ""}
HANG = 20          # seconds after which a call is taken not to return
WORKERS = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


class BuildError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUST_BACKTRACE="0")
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build_java():
    d = os.path.join(BUILD, "cls")
    src = sorted(os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java"))
    mark = os.path.join(d, "done")
    if os.path.exists(mark) and all(os.path.getmtime(s) <= os.path.getmtime(mark) for s in src):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = subprocess.run(["javac", "-nowarn", "-cp", ":".join(JARS), "-d", d] + src, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("javac: " + r.stderr[-2000:])
    open(mark, "w").close()
    return d


def build_harness(cfg, to=None):
    """Builds the harness against the working tree of /repo in one configuration of cam-geom, and copies it to `to`."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        b = _build_harness(cfg)
        if to is None:
            return b
        c = os.path.join(to, "harness-" + cfg)
        shutil.copyfile(b, c)
        os.chmod(c, 0o755)
        return c


def _build_harness(cfg):
    td = os.path.join(BUILD, "target-" + cfg)
    fp = os.path.join(td, "debug", ".fingerprint")
    if os.path.isdir(fp):           # cargo goes by mtimes: make sure that cam-geom is built again
        for f in os.listdir(fp):
            if f.startswith("cam-geom-"):
                shutil.rmtree(os.path.join(fp, f))
    e = env()
    e["CARGO_TARGET_DIR"] = td
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--no-default-features", "--features", CONFIGS[cfg]],
                       cwd=HARNESS, env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"configuration {cfg} does not build:\n" + r.stderr[-6000:])
    return os.path.join(td, "debug", "camgeom-conform")


# ------------------------------------------------------------------ running programs

def _spawn(binary, inp, outp, hang, limit):
    p = subprocess.Popen([binary, inp, outp, str(hang)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, text=True)
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError("the harness ran out of time")
    return p.returncode, err


def _lines(path):
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.endswith("\n"):
                try:
                    out.append(json.loads(l))
                except ValueError:
                    break
    return out


def run_harness(binary, progs, work, name, hang=HANG, limit=600, max_crashes=6):
    """Runs the programs; returns one trace per program.  A process that dies in a call, or a call that does
    not return, is recorded as a panic of that call, and the rest is run in a new process."""
    traces, todo, crashes = [], list(progs), 0
    k = 0
    while todo and crashes < max_crashes:
        inp, outp = os.path.join(work, f"{name}.{k}.in"), os.path.join(work, f"{name}.{k}.out")
        k += 1
        with open(inp, "w") as f:
            for p in todo:
                f.write(json.dumps(p, separators=(",", ":")) + "\n")
        rc, err = _spawn(binary, inp, outp, hang, limit)
        got = _lines(outp)
        os.unlink(inp)
        if os.path.exists(outp):
            os.unlink(outp)
        traces += got
        if rc == 0:
            todo = todo[len(got):]
            if todo:
                crashes += 1        # a call that did not return ended the run early
            continue
        if rc == 2:
            raise ToolError("harness: " + err[-2000:])
        crashes += 1
        dead = todo[len(got)]
        traces.append(_crash(binary, dead, work, name, rc, hang))
        todo = todo[len(got) + 1:]
    return traces


def _crash(binary, prog, work, name, rc, hang):
    """The trace of a program that kills the process: find the call by running longer and longer prefixes."""
    what = f"the process died ({signal.Signals(-rc).name})" if rc < 0 else f"the process died (exit status {rc})"
    good, n = [], 0
    for n in range(1, len(prog["code"]) + 1):
        p = dict(prog, code=prog["code"][:n])
        inp, outp = os.path.join(work, name + ".c.in"), os.path.join(work, name + ".c.out")
        with open(inp, "w") as f:
            f.write(json.dumps(p) + "\n")
        r, _ = _spawn(binary, inp, outp, hang, 120)
        got = _lines(outp)
        if r != 0 or not got:
            break
        good = got[0]["ev"]
    ev = dict(prog["code"][n - 1], r={"panic": what})
    if "numbered" in prog:
        ev["n"] = n
    t = {k: v for k, v in prog.items() if k != "code"}
    t["ev"] = good + [ev]
    return t


def nregs(prog):
    m = -1
    for i in prog["code"]:
        if "o" in i:
            m = max(m, i["o"])
    return m + 1


REGS = ("e", "i", "cam", "x", "b", "j", "a", "o")


def shift(ev, off):
    ev = dict(ev)
    for k in REGS:
        if k in ev and isinstance(ev[k], int):
            ev[k] += off
    if ev["op"] == "eq" and isinstance(ev.get("b"), int):
        pass
    if "like" in ev and isinstance(ev["like"], int):
        ev["like"] += off
    if "rays" in ev:
        ev["rays"] = [r + off if isinstance(r, int) else r for r in ev["rays"]]
    if "of" in ev:
        ev["of"] = shift(ev["of"], off)
    return ev


def merge_configs(progs, by_cfg):
    """One trace per program, with the calls made in every configuration one after another."""
    out = []
    for j, p in enumerate(progs):
        n = nregs(p)
        evs = []
        for k, cfg in enumerate(by_cfg):
            if j < len(by_cfg[cfg]):
                evs += [dict(shift(e, k * n), cfg=cfg) for e in by_cfg[cfg][j]["ev"]]
        t = {k: v for k, v in p.items() if k != "code"}
        t["ev"] = evs
        out.append(t)
    return out


def merge_histories(progs, first, second):
    """One trace per program, with its calls as they went in one process and then as they went in another."""
    out = []
    for j, p in enumerate(progs):
        n = nregs(p)
        t = {k: v for k, v in p.items() if k != "code"}
        t["ev"] = list(first[j]["ev"]) if j < len(first) else []
        t["ev"] += [shift(e, n) for e in second.get(p["id"], {"ev": []})["ev"]]
        out.append(t)
    return out


# ------------------------------------------------------------------ TLC

STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", re.M)


def tlc(cls, module, config, work, extra_env=None, workers=WORKERS, limit=600, args=(), heap="6g", overrides=True, library=None):
    e = env()
    e.update(extra_env or {})
    meta = os.path.join(work, f"meta-{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)      # TLC leaves empty directories in java.io.tmpdir
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta]
    if overrides:
        cmd.append("-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides")
    if library:
        cmd.append("-DTLA-Library=" + library)
    cmd += ["-cp", ":".join(JARS + [cls]), "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
            "-config", config] + list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=limit)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran out of time on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = re.sub(r"^(Parsing file|Semantic processing|Linting of) .*\n", "", out, flags=re.M)
    m = None
    for m in STATES.finditer(out):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t0, "cmd": " ".join(cmd)}


def write_traces(path, traces):
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")


def validate(cls, prop, traces, work, tag="t", config="Trace.cfg", limit=600):
    """Checks traces with TLC.  Returns (status, info): status is ok, violation, or error."""
    path = os.path.join(work, tag + ".nd")
    write_traces(path, traces)
    r = tlc(cls, "Trace", config, work, {"TRACES": path, "PROP": prop}, limit=limit)
    os.unlink(path)
    want = sum(len(t["ev"]) + 1 for t in traces)
    if "Invariant Conforms is violated" in r["out"]:
        m = [x for x in re.finditer(r'/\\ trace = "([^"]*)"|trace \|-> "([^"]*)"', r["out"])]
        i = m[-1].group(1) or m[-1].group(2) if m else None
        bad = re.findall(r'/\\ bad = (\{.*?\})\s*(?=\n/\\|\n\n|\Z)', r["out"], re.S)
        nxt = re.findall(r'next = (\d+)', r["out"])
        return "violation", dict(r, id=i, bad=re.sub(r"\s+", " ", bad[-1]) if bad else "?", next=int(nxt[-1]) if nxt else 0)
    if r["rc"] != 0 or r["distinct"] != want:
        return "error", dict(r, want=want)
    return "ok", r


SIMULATED = re.compile(r"number of states generated: (\d+)")


def gen_sessions(cls, prop, config, work, simulate=0, seed=1):
    """Programs that TLC makes from Gen.tla: all of them, or in simulation."""
    args, workers = [], WORKERS
    if simulate:
        args, workers = ["-simulate", f"num={simulate}", "-depth", "40", "-seed", str(seed)], 1
    r = tlc(cls, "Gen", config, work, {"PROP": prop}, overrides=False, args=args, workers=workers)
    if r["rc"] != 0:
        raise ToolError("TLC on Gen.tla:\n" + r["out"][-3000:])
    progs, seen = [], set()
    for l in r["out"].split("\n"):
        if l.startswith('"PROG '):
            p = json.loads(json.loads(l)[5:])
            if simulate:        # one session for each behaviour: they differ in the last call only
                k = json.dumps([p["w"], p["code"][:-1]])
                if k in seen:
                    continue
                seen.add(k)
            progs.append(p)
    if not progs:
        raise ToolError("Gen.tla made no sessions")
    progs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    m = SIMULATED.search(r["out"])
    gen = int(m.group(1)) if m else r["generated"]
    return progs, {"states": r["distinct"], "transitions": gen}


def rat_test(cls, work):
    """The Java evaluation of rational arithmetic against the definitions of Rat.tla, which TLC evaluates under another name."""
    with open(os.path.join(SPEC, "Rat.tla")) as f:
        text = f.read()
    with open(os.path.join(work, "RatPure.tla"), "w") as f:
        f.write(text.replace("MODULE Rat ", "MODULE RatPure ", 1))
    r = tlc(cls, "RatTest", "RatTest.cfg", work, library=work)
    if r["rc"] != 0:
        raise ToolError("RatTest.tla does not hold:\n" + r["out"][-3000:])
    return r
