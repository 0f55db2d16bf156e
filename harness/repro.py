"""P18: the runs of one configuration, under different surroundings, as texts of rows."""
import hashlib
import json
import os
import random
import subprocess
import sys

import common
import gen
import feats


def _rng_digest():
    import numpy as np
    h = hashlib.sha1(repr(random.getstate()).encode())
    st = np.random.get_state()
    h.update(st[1].tobytes())
    h.update(repr(st[2:]).encode())
    return h.hexdigest()[:16]


def rows_of(r):
    """What a run did: its event log and where everything is at the end."""
    import observe
    out = [observe.row_text(x) for x in list(r.event_logger.event_data)]
    end = ["fin|" + p.product_data.ID for p in r.product_factory.finished_products]
    end += ["queue|" + q.data.ID + "|" + ",".join(x.ID for x in q.items) for q in r.queue_factory.queues]
    return out, end


def _run(a, h, until=None, log=None):
    from prodsys import runner as prunner
    r = prunner.Runner(a)
    r.initialize_simulation()
    for x in (until or []):
        r.run(x)
    r.run(h)
    return r


def adapter_for(key, feat):
    return gen.build(common.rng_for(*key), **feats.F[feat])


def job(arg):
    """All in-process variants for one configuration."""
    feat, key, h, alarm = arg
    import numpy as np
    import observe
    from prodsys.simulation import sim
    sim.VERBOSE = 0
    import logging
    logging.disable(logging.CRITICAL)
    ev = []
    meta = {"feat": feat, "key": list(key), "horizon": h, "error": ""}
    try:
        with observe.wall_limit(alarm):
            a = adapter_for(key, feat)
            text = a.model_dump_json()
            fixed = feat in SPLIT and not any(
                hasattr(t, "samples") or getattr(t, "distribution_function", "constant") != "constant" for t in a.time_model_data) \
                and len({s.product_type for s in a.sink_data}) == len(a.sink_data)      # the sink is drawn among those of the product
            rng = common.rng_for("repro", *key)

            def rec(w, r, log_only=False):
                log, end = rows_of(r)
                ev.append({"e": "run", "w": w, "log": log, "end": [] if log_only else end, "whole": not log_only})
            d0 = _rng_digest()
            r = _run(a, h)
            rec("first run", r)
            ev.append({"e": "same", "w": "the caller's random state", "a": d0, "b": _rng_digest()})
            ev.append({"e": "same", "w": "the configuration after a run", "a": text, "b": a.model_dump_json()})
            rec("same configuration object again", _run(a, h))
            # other draws and another simulation before
            random.seed(rng.randrange(10 ** 6))
            np.random.seed(rng.randrange(10 ** 6))
            for _ in range(rng.randint(1, 40)):
                random.random(), np.random.random()
            b = adapter_for(tuple(key) + ("other",), feat)
            _run(b, 200)
            d1 = _rng_digest()
            rec("after other draws and simulations", _run(adapter_for(key, feat), h))
            ev.append({"e": "same", "w": "the caller's random state", "a": d1, "b": _rng_digest()})
            # two simulations at the same time
            from prodsys import runner as prunner
            r1, r2 = prunner.Runner(adapter_for(key, feat)), prunner.Runner(b)
            r1.initialize_simulation()
            r2.initialize_simulation()
            r2.run(150)
            r1.run(h)
            rec("beside another simulation", r1)
            # a longer run
            r3 = _run(adapter_for(key, feat), 2 * h)
            log = [observe.row_text(x) for x in list(r3.event_logger.event_data) if x["Time"] < h]
            ev.append({"e": "run", "w": "a longer run", "log": log, "end": [], "whole": False})
            if fixed:
                cuts = sorted(rng.sample(range(1, h), 2))
                rec("a run in three parts", _run(adapter_for(key, feat), h, until=cuts))
            # another seed only matters where something is random
            if fixed:
                c = adapter_for(key, feat)
                c.seed = rng.randrange(10 ** 6)
                rec("another seed without anything random", _run(c, h))
    except Exception as e:
        meta["error"] = f"{type(e).__name__}: {str(e)[:200]}"
        ev.append({"e": "crash"})
    return {"cfg": {"none": 0}, "ev": ev, "meta": meta}


SPLIT = ("base", "finite", "multi", "loading", "link")      # nothing random: constant times, fixed routing


def child(jobs, seed, scratch, i):
    """The runs of jobs in another interpreter with another hash seed; returns the process and its output file."""
    p = os.path.join(scratch.path, f"repro_in_{i}.json")
    o = os.path.join(scratch.path, f"repro_out_{i}.json")
    json.dump(jobs, open(p, "w"))
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    pr = subprocess.Popen([sys.executable, "-B", os.path.join(common.VERIF, "harness", "repro.py"), p, o], env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return pr, o


def main():
    sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), common.REPO]
    import observe
    from prodsys.simulation import sim
    sim.VERBOSE = 0
    out = []
    for feat, key, h, alarm in json.load(open(sys.argv[1])):
        try:
            with observe.wall_limit(alarm):
                a = adapter_for(key, feat)
                text = a.model_dump_json()
                log, end = rows_of(_run(a, h))
            out.append({"text": text, "log": log, "end": end, "error": ""})
        except Exception as e:
            out.append({"text": "", "log": [], "end": [], "error": f"{type(e).__name__}: {str(e)[:200]}"})
    json.dump(out, open(sys.argv[2], "w"))


def check(chk, names, n, horizon=500, alarm=60):
    jobs = [(f, (chk.prop, f, common.seed(), i), horizon, alarm) for f in names for i in range(n)]
    k = 4
    kids = [child(jobs[i::k], 7 + 13 * i + common.seed(), chk.scratch, i) for i in range(k)]
    traces = common.pmap(job, jobs, nproc=4)
    for i, (pr, o) in enumerate(kids):
        out, _ = pr.communicate(timeout=800)
        if pr.returncode != 0:
            raise common.MachineryError("repro child: " + out[-2000:])
        for tr, c in zip(traces[i::k], json.load(open(o))):
            if tr["meta"]["error"] or c["error"]:
                if c["error"] and not tr["meta"]["error"]:
                    tr["meta"]["error"] = c["error"]
                    tr["ev"].append({"e": "crash"})
                continue
            tr["ev"].append({"e": "same", "w": "generator", "a": c["text"], "b": next(e["a"] for e in tr["ev"] if e.get("w", "").startswith("the conf"))})
            tr["ev"].append({"e": "run", "w": "another process with another hash seed", "log": c["log"], "end": c["end"], "whole": True})
    verdicts, st = common.validate_traces("T_Repro", traces, chk.scratch)
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    chk.add("traces_validated_against_impl", sum(sum(1 for e in t["ev"] if e["e"] == "run") for t in traces))
    chk.add("rows_compared", sum(len(e.get("log", ())) for t in traces for e in t["ev"]))
    for t, v in zip(traces, verdicts):
        if v is None:
            continue
        i, clause = v
        bad = t["ev"][i - 1]
        if bad["e"] == "same" and bad["w"] == "generator":
            raise common.MachineryError("the generator depends on the hash seed")
        ref = next((e for e in t["ev"] if e["e"] == "run"), {"log": []})
        d = ""
        if bad["e"] == "run":
            j = next((j for j, (x, y) in enumerate(zip(ref["log"], bad["log"])) if x != y), min(len(ref["log"]), len(bad["log"])))
            d = f"first difference at row {j}: {ref['log'][j:j + 1]} / {bad['log'][j:j + 1]}"
        else:
            d = t["meta"]["error"]
        chk.violation(f"{clause}: {bad.get('w', '')} [{t['meta']['feat']}]", f"{t['meta']['key']}: {d}",
                      {"meta": t["meta"], "first": ref, "other": bad})
    if traces:
        chk.sample({"meta": traces[0]["meta"], "variants": [e.get("w") for e in traces[0]["ev"]]})


if __name__ == "__main__":
    main()
