"""Shared machinery: building harnesses from /repo, running TLC, executing cases, reporting."""
import fcntl, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
TOOLCHAIN = "1.70.0"

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

class ToolError(Exception):
    pass

def rng(*key):
    return random.Random("/".join([str(SEED)] + [str(k) for k in key]))

# ---------------------------------------------------------------------------- cargo
def cargo_build(name, bins, extra_env=None, args=()):
    """Build /verif/harness/<name> (path dependencies into /repo); returns paths of the binaries."""
    src = os.path.join(VERIF, "harness", name)
    tgt = os.path.join(BUILD, name)
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never")
    env.update(extra_env or {})
    with open(os.path.join(tgt, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", *args], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build of %s failed:\n%s" % (name, p.stdout[-4000:]))
    return [os.path.join(tgt, "debug", b) for b in bins]

# ------------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self):
        self.states = self.distinct = 0
        self.runs = []

def tlc(module, constants=None, env=None, timeout=600, simulate=None, workers=8, view=None, heap="6g",
        expect_violation=False, deadlock=False):
    """Run TLC on spec/<module>.tla with its committed .cfg (CONSTANTS overridden).
    Returns dict(ok, states, distinct, out, invariant)."""
    d = tempfile.mkdtemp(dir=scratch())
    cfg = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in (constants or {}).items():
        cfg, n = re.subn(r"(\b%s\s*=\s*)(\"[^\"]*\"|\S+)" % re.escape(k), lambda m: m.group(1) + str(v), cfg)
        if n == 0:
            raise ToolError("constant %s not in %s.cfg" % (k, module))
    cp = os.path.join(d, module + ".cfg")
    open(cp, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    jar = "/opt/veriftools/tla"
    cmd = ["tlc", "-config", cp, "-metadir", os.path.join(d, "m"), "-workers", str(workers), "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += simulate
    cmd.append(module + ".tla")
    e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + " -Xmx%s -Xss64m" % heap).strip()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    out = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st, di = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    inv = re.search(r"Invariant (\w+) is violated|Error: (?:Action|Temporal) propert\w+ (\w*)", out)
    ok = "Model checking completed. No error has been found." in out or (simulate and p.returncode == 0)
    if not ok and not inv and not expect_violation:
        raise ToolError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return dict(ok=bool(ok), states=st, distinct=di, out=out, invariant=(inv.group(1) or inv.group(2)) if inv else None)

def tlc_export(module, constants=None, timeout=600, env=None, **kw):
    """Model check and collect what the Export invariant wrote; every line is a JSON case."""
    f = tempfile.mktemp(dir=scratch(), suffix=".csv")
    e = dict(env or {})
    e["OUT"] = f
    r = tlc(module, constants, env=e, timeout=timeout, **kw)
    if not r["ok"]:
        raise SpecBroken("specification %s violates %s" % (module, r["invariant"]), r["out"][-3000:])
    cases = set()
    if os.path.exists(f):
        with open(f) as h:
            for line in h:
                line = line.strip()
                if line:
                    cases.add(json.loads(line) if line[0] == '"' else line)
        os.unlink(f)
    return [json.loads(c) for c in sorted(cases)], r

class SpecBroken(ToolError):
    pass

def tlc_trace(module, records, timeout=600, constants=None):
    """Validate recorded executions; returns (list of indices rejected, tlc result).
    TLC stops at the first violation, so rejected records are removed and validation repeated
    (at most a few times)."""
    bad, total = [], None
    alive = list(range(len(records)))
    while alive:
        f = tempfile.mktemp(dir=scratch(), suffix=".ndjson")
        with open(f, "w") as h:
            for i in alive:
                h.write(json.dumps(records[i]) + "\n")
        r = tlc(module, constants, env={"TRACE": f}, timeout=timeout)
        os.unlink(f)
        total = total or r
        if r["ok"]:
            break
        m = re.findall(r"^(?:/\\ )?i = (\d+)", r["out"], re.M)
        if not m:
            raise ToolError("TLC rejected %s without naming a record:\n%s" % (module, r["out"][-3000:]))
        k = alive[int(m[-1]) - 1]
        bad.append((k, r["out"][-2500:]))
        alive.remove(k)
        if len(bad) >= 3:
            break
    return bad, total

# -------------------------------------------------------------------------- executing cases
def run_cases(binary, cases, mem_gb=4, stall=90, args=(), par=1, restarts=40):
    """run_cases_, in several processes if par > 1 (for cases that do not use much memory)"""
    if par == 1 or len(cases) < 64:
        return run_cases_(binary, cases, mem_gb, stall, args, restarts)
    from concurrent.futures import ThreadPoolExecutor
    k = -(-len(cases) // par)
    with ThreadPoolExecutor(par) as ex:
        parts = list(ex.map(lambda i: run_cases_(binary, cases[i:i + k], mem_gb, stall, args, restarts), range(0, len(cases), k)))
    return [r for p in parts for r in p]

_hangs = [0]
def run_cases_(binary, cases, mem_gb=4, stall=90, args=(), most=40):
    """Execute cases; each result is the harness' JSON.  A case that kills the process yields
    err=CRASH, one that does not finish err=HANG."""
    d = tempfile.mkdtemp(dir=scratch())
    fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
    with open(fi, "w") as h:
        for c in cases:
            h.write(json.dumps(c) + "\n")
    open(fo, "w").close()
    results, restarts, hangs = [], 0, 0
    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    while len(results) < len(cases):
        p = subprocess.Popen([binary, *args, fi, fo, str(len(results))], preexec_fn=limit,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        last, t0, hung = os.path.getsize(fo), time.time(), False
        while True:
            try:
                p.wait(timeout=0.5 if time.time() - t0 > 2 else 0.02)
                break
            except subprocess.TimeoutExpired:
                s = os.path.getsize(fo)
                if s != last:
                    last, t0 = s, time.time()
                elif time.time() - t0 > (stall if _hangs[0] < 2 else min(stall, 30)):      # not for each of many
                    hung = True
                    hangs += 1
                    _hangs[0] += 1
                    p.kill()
                    p.wait()
                    break
        err = p.stderr.read()
        if p.returncode == 70:
            raise ToolError("harness error: " + err[-500:])
        results = [json.loads(l) for l in open(fo) if l.endswith("\n") and l.strip()]
        if len(results) < len(cases):
            if p.returncode == 0:
                raise ToolError("harness stopped early: " + err[-500:])
            r = dict(ok=False, err="HANG" if hung else "CRASH", msg=err[-300:], toks=[], n=0, out=[], re=[], val=[],
                     ret=0, hard=False, fr=True, strict="CRASH", faulted=False, got=[])
            results.append(r)
            with open(fo, "w") as h:
                for x in results:
                    h.write(json.dumps(x) + "\n")
            restarts += 1
            if restarts > most or hangs > 2:
                raise_results = results + [dict(r, msg="too many crashes") for _ in range(len(cases) - len(results))]
                results = raise_results
    shutil.rmtree(d, ignore_errors=True)
    return results

# ---------------------------------------------------------------------------------- reports
class Report:
    """Accumulates what one property's check covered and found."""
    def __init__(self, prop):
        self.prop = prop
        self.viol = []          # (kind, what, replay dict)
        self.states = self.transitions = self.traces = 0
        self.evals = 0
        self.parts = {}
        self.samples = []
        self.distinct = set()
        self.assumptions = []
        self.known = []

    def spec(self, name, r):
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.parts.setdefault(name, {}).update(states=r["distinct"], transitions=r["states"])

    def ran(self, name, n, traces=0):
        self.evals += n
        self.traces += traces
        p = self.parts.setdefault(name, {})
        p["executions"] = p.get("executions", 0) + n
        if traces:
            p["traces_validated"] = p.get("traces_validated", 0) + traces

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def violation(self, kind, what, replay):
        self.viol.append((kind, what, replay))

def finish(rep, level, t0):
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    ev = dict(property=rep.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
              coverage=dict(states=rep.states, transitions=rep.transitions,
                            traces_validated_against_impl=rep.traces, evaluations=rep.evals,
                            parts=rep.parts, samples=rep.samples[:8]),
              assumptions=rep.assumptions, wall_s=round(time.time() - t0, 1), violations=len(rep.viol))
    if rep.known:
        ev["coverage"]["known_findings_reproduced"] = rep.known
    with open(os.path.join(EVID, rep.prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    if rep.viol:
        for n, (kind, what, replay) in enumerate(rep.viol[:5]):
            path = os.path.join(EVID, "replays", "%s-%d.json" % (rep.prop, n))
            with open(path, "w") as h:
                json.dump(dict(property=rep.prop, kind=kind, what=what, replay=replay), h, indent=1)
            print("%s: %s" % (kind, what))
            print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    print("OK property=%s tier=%s: %d states, %d executions of the real code, %d traces validated by TLC (%.1fs)"
          % (rep.prop, ev["tier"], rep.states, rep.evals, rep.traces, ev["wall_s"]))
    return 0
