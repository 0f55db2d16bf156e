"""Run a batch of random configurations of some feature classes and validate the traces."""
import gen
import observe
import project
import common
import scenarios
from feats import mix as featmix


NEEDS_RUNNER = {"log", "states", "kpi"}


def sim_job(job):
    """(proj name, feature name, overrides, key, horizon, opts) -> {cfg, ev, meta}"""
    proj, feat, over, key, horizon, opts = job
    rng = common.rng_for(*key)
    meta = {"feat": feat, "over": over, "key": list(key), "horizon": horizon, "stage": "build"}
    try:
        a, extra = scenarios.ALL[over["scenario"]]() if "scenario" in over else (gen.build(rng, **over), {})
    except Exception as e:      # a valid configuration is rejected by the data models
        meta.update(error=f"{type(e).__name__}: {str(e)[:300]}", nev=1)
        return {"cfg": {"none": 0}, "ev": [{"e": "crash", "t": 0}], "meta": meta}
    if opts.get("mutate"):
        opts["mutate"](rng, a)
    c = project.base_cfg(a)
    pf = getattr(project, proj)
    pre = getattr(project, proj + "_pre", None)
    if pre:
        pre(c, a)
    c.update(extra)
    horizon = over.get("horizon", horizon)
    r = observe.run(a, horizon, keep_runner=opts.get("runner", False) or proj in NEEDS_RUNNER, snaps=opts.get("snaps", True))
    cfg, ev = pf(c, r)
    if r.error:
        ev.append({"e": "crash", "t": ev[-1].get("t", 0) if ev else 0})
    meta = {"feat": feat, "over": over, "key": list(key), "horizon": horizon, "error": r.error, "stage": r.stage,
            "finished": len(r.finished), "open": len(r.open), "nev": len(ev)}
    return {"cfg": cfg, "ev": ev, "meta": meta}


def fixed(*names):
    """scenarios as feature classes (one trace each)"""
    return {"scenario:" + n: {"scenario": n} for n in names}


def run(chk, proj, module, feats, n, horizon=3000, opts=None, parallel=4, nontrivial=None, mix=0):
    """feats: {name: overrides}; n traces per feature."""
    opts = opts or {}
    jobs = []
    if mix:
        names = sorted(x for x in feats if "scenario" not in feats[x])
        for i in range(mix):
            key = (chk.prop, "mix", common.seed(), i)
            name, over = featmix(common.rng_for("mix", *key), names)
            jobs.append((proj, name, over, key, horizon, opts))
    for name, over in feats.items():
        k = 1 if "scenario" in over else n if not isinstance(n, dict) else n[name]
        for i in range(k):
            jobs.append((proj, name, over, (chk.prop, name, common.seed(), i), horizon, opts))
    traces = common.pmap(sim_job, jobs)
    verdicts, st = common.validate_traces(module, traces, chk.scratch, parallel=parallel)
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    chk.add("traces_validated_against_impl", len(traces))
    chk.add("events_validated", sum(len(t["ev"]) for t in traces))
    for t, v in zip(traces, verdicts):
        if v is not None:
            i, clause = v
            bad = t["ev"][i - 1]
            if clause.endswith("does not fail"):
                clause = f"{clause}: {t['meta']['error']}"
            chk.violation(f"{clause} [{t['meta']['feat']}]",
                          f"trace {t['meta']['key']} event {i}: {str(bad)[:600]}",
                          {"meta": t["meta"], "event_index": i, "event": bad, "cfg": t["cfg"], "ev": t["ev"][:i]})
    if traces:
        t = traces[0]
        chk.sample({"meta": t["meta"], "first_events": t["ev"][:4]})
    return traces
