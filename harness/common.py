"""Shared machinery: simulation jobs, TLC runs, verdicts, evidence, findings."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PRODSYS_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"
NPROC = max(2, min(8, os.cpu_count() or 4))


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def rng_for(*key):
    """A reproducible random.Random for a tuple of ints/strings."""
    return random.Random("|".join(map(str, key)))


def classpath():
    jars = [JARS]
    d = os.path.dirname(JARS)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) != JARS:
            jars.append(os.path.join(d, f))
    return ":".join(jars)


class Scratch:
    """A scratch directory of this run, removed at the end."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="prodsys_verif_")

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


# --------------------------------------------------------------------- TLC

class TlcResult:
    __slots__ = ("rc", "out", "generated", "distinct", "verdicts", "printed", "error", "depth")


def run_tlc(module, cfg=None, env=None, workers=4, timeout=600, extra=(), scratch=None, heap="3g"):
    """Run TLC on spec/<module>.tla; returns TlcResult."""
    cfg = cfg or module + ".cfg"
    own = scratch is None
    scratch = scratch or Scratch()
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch.path)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m", "-cp", classpath(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as ex:
        rc, out = -1, (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        out += "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        if own:
            scratch.close()
    r = TlcResult()
    r.rc, r.out = rc, out
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m[-1]) if m else 0
    r.error = "" if rc == 0 else out[-3000:]
    return r


def _tlc_traces(args):
    module, path, workers, timeout = args
    sc = Scratch()
    try:
        r = run_tlc(module, env={"TRACES": path}, workers=workers, timeout=timeout, scratch=sc)
    finally:
        sc.close()
    done = {int(a) for a in re.findall(r'<<\s*"DONE",\s*(\d+),\s*\d+\s*>>', r.out)}
    rej = {}
    for a, b, c in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"(.*?)"\s*>>', r.out):
        rej[int(a)] = (int(b), c)
    return r.rc, r.generated, r.distinct, done, rej, r.out


def validate_traces(module, traces, scratch, parallel=4, timeout=800):
    """Decide every trace {cfg, ev} against spec/<module>.tla.

    Returns (verdicts, stats): verdicts[i] is None when accepted or (event index, clause).
    Raises MachineryError unless every trace got a verdict."""
    n = len(traces)
    k = max(1, min(parallel, n // 4 or 1))
    order = sorted(range(n), key=lambda i: -len(traces[i]["ev"]))
    parts = [order[i::k] for i in range(k)]
    jobs = []
    for j, part in enumerate(parts):
        p = os.path.join(scratch.path, f"{module}_{j}_{time.time_ns()}.json")
        with open(p, "w") as f:
            json.dump([{"cfg": traces[i]["cfg"], "ev": traces[i]["ev"]} for i in part], f)
        jobs.append((module, p, max(1, NPROC // k), timeout))
    if len(jobs) == 1:
        res = [_tlc_traces(jobs[0])]
    else:
        with mp.get_context("fork").Pool(len(jobs)) as pool:
            res = pool.map(_tlc_traces, jobs)
    verdicts = [None] * n
    gen = dist = 0
    for part, job, (rc, g, d, done, rej, out) in zip(parts, jobs, res):
        os.unlink(job[1])
        gen += g
        dist += d
        for pos, i in enumerate(part, start=1):
            if pos in rej:
                verdicts[i] = rej[pos]
            elif pos not in done and traces[i]["ev"]:
                raise MachineryError(f"{module}: no verdict for trace {i} (rc {rc}): {out[-2500:]}")
        if rc != 0:
            raise MachineryError(f"{module}: TLC exit {rc}: {out[-2500:]}")
    return verdicts, {"states": dist, "transitions": gen}


class MachineryError(Exception):
    pass


def model_check(module, cfg=None, timeout=600, workers=NPROC, extra=(), heap="6g", scratch=None, env=None):
    """Exhaustive TLC run of a small instance; raises MachineryError unless it passes."""
    r = run_tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap=heap, scratch=scratch, env=env)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise MachineryError(f"model {module}/{cfg}: rc {r.rc}: {r.out[-3000:]}")
    return r


# ----------------------------------------------------------- parallel jobs

def _init_worker():
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.path[:0] = [REPO, os.path.join(VERIF, "harness")]
    sys.dont_write_bytecode = True


def _call(a):
    fn, arg = a
    try:
        return fn(arg)
    except Exception:
        return {"machinery": traceback.format_exc()[-3000:], "arg": repr(arg)[:500]}


def pmap(fn, args, nproc=NPROC, chunk=1):
    """Parallel map; a Python exception in fn is a machinery error."""
    args = list(args)
    if not args:
        return []
    with mp.get_context("fork").Pool(min(nproc, len(args)), initializer=_init_worker, maxtasksperchild=200) as pool:
        res = pool.map(_call, [(fn, a) for a in args], chunksize=chunk)
    for r in res:
        if isinstance(r, dict) and "machinery" in r:
            raise MachineryError(r["machinery"] + " for " + r["arg"])
    return res


# ------------------------------------------------------------- verdict flow

def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Check:
    """Collects the outcome of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []       # (signature, text, replay object)
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.findings = [f for f in load_findings() if f["property"] == prop]
        self.scratch = Scratch()

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s if isinstance(s, str) else json.dumps(s)[:900])

    def violation(self, signature, text, replay):
        for f in self.findings:
            if re.search(f["match"], signature):
                if f["id"] not in self.known:
                    self.known.append(f["id"])
                    print(f"KNOWN-FINDING: property={self.prop} {f['id']}: {f['what']}", flush=True)
                return
        self.violations.append((signature, text, replay))

    def finish(self):
        n = len(self.violations)
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": n}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.scratch.close()
        if n:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            for k, (sig, text, rep) in enumerate(self.violations[:5]):
                p = os.path.join(d, f"{self.prop}_{k}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "signature": sig, "what": text, "replay": rep}, f, indent=1, default=str)
                print(f"  {sig}\n    {text}", flush=True)
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            return 1
        print(f"OK property={self.prop} tier={tier()} seed={seed()} "
              f"states={self.cov.get('states')} transitions={self.cov.get('transitions')} "
              f"traces={self.cov.get('traces_validated_against_impl')} wall={ev['wall_s']}s", flush=True)
        return 0
