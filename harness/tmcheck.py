"""P19: the time models on their own, drawn from the factory the simulation uses."""
import math
import random

import common


def job(key):
    import numpy as np
    from observe import T
    from project import tm_spec
    from prodsys.models import time_model_data as tmd
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.factories.time_model_factory import TimeModelFactory
    rng = common.rng_for(*key)
    st = np.random.get_state(), random.getstate()
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))

    def num(lo, hi):
        return rng.randint(lo * 8, hi * 8) / 8
    data = []
    for _ in range(rng.randint(2, 4)):
        i = f"tm{len(data)}"
        n = rng.randint(1, 6)
        gaps = [num(0, 9) for _ in range(n)]
        ab = rng.random() < .5
        if ab:
            gaps = list(np.cumsum(gaps).tolist())
        data.append(tmd.ScheduledTimeModelData(ID=i, description="", schedule=gaps, absolute=ab, cyclic=rng.random() < .5))
    for _ in range(rng.randint(1, 3)):
        data.append(tmd.SampleTimeModelData(ID=f"tm{len(data)}", description="", samples=[num(0, 20) for _ in range(rng.randint(1, 6))]))
    data.append(tmd.SequentialTimeModelData(ID=f"tm{len(data)}", description="", sequence=[num(0, 20) for _ in range(rng.randint(1, 6))]))
    data.append(tmd.FunctionTimeModelData(ID=f"tm{len(data)}", description="", distribution_function="constant", location=num(1, 20), scale=0.0))
    for d in ("normal", "exponential", "lognormal"):
        loc = float(rng.randint(4, 20))
        data.append(tmd.FunctionTimeModelData(ID=f"tm{len(data)}", description="", distribution_function=d, location=loc,
                                              scale=(loc * rng.choice([.05, .1, .2]) if d != "exponential" else 0.0), batch_size=rng.choice([1, 7, 100])))
    neg = tmd.FunctionTimeModelData(ID=f"tm{len(data)}", description="", distribution_function="normal", location=1., scale=3.)
    data.append(neg)
    for _ in range(2):
        data.append(tmd.DistanceTimeModelData(ID=f"tm{len(data)}", description="", speed=rng.choice([.5, 1., 2., 4.]),
                                              reaction_time=rng.choice([0., .5, 3.]), metric=rng.choice(["manhattan", "euclidian", "euclidean"])))
    data.append(tmd.ManhattanDistanceTimeModelData(ID=f"tm{len(data)}", description="", speed=rng.choice([.5, 1., 2., 4.]), reaction_time=rng.choice([0., .5, 3.])))
    rng.shuffle(data)
    a = JsonProductionSystemAdapter(ID="tm", time_model_data=data)
    f = TimeModelFactory()
    f.create_time_models(a)
    ev = []
    for m in data:
        t = f.get_time_model(m.ID)
        if hasattr(m, "speed"):
            n, k = float(m.speed).as_integer_ratio()
            spec = {"model": "dist", "num": n, "den": k, "react": T(m.reaction_time), "metric": getattr(m, "metric", "manhattan")}
            for _ in range(4):
                p, q = [num(0, 15), num(0, 15)], [num(0, 15), num(0, 15)]
                ev.append({"e": "dist", "tm": spec, "a": [T(x) for x in p], "b": [T(x) for x in q],
                           "d": T(t.get_next_time(p, q)), "exp": T(t.get_expected_time(p, q))})
            continue
        spec = tm_spec(m) if not hasattr(m, "sequence") else {"k": "set", "v": [T(x) for x in m.sequence], "abs": False, "cyc": False}
        if spec["k"] == "any":
            n = 12000
            xs = np.array([t.get_next_time() for _ in range(n)])
            if m is neg:
                ev.append({"e": "draws", "tm": spec, "d": [T(x) for x in xs[:200]], "mean": 0})
                continue
            sd = m.scale or m.location
            ev.append({"e": "stat", "w": m.distribution_function.value, "loc": T(m.location), "scale": T(sd), "mean": T(xs.mean()), "sd": T(xs.std()),
                       "min": T(xs.min()), "exp": T(t.get_expected_time()), "tolm": T(7 * sd / math.sqrt(n)) + 1, "tols": T(.1 * sd)})
            continue
        ev.append({"e": "draws", "tm": spec, "d": [T(t.get_next_time()) for _ in range(rng.randint(1, 20))], "mean": T(t.get_expected_time())})
        if spec["k"] == "set" and len(spec["v"]) > 1:
            n = 3000
            cnt = {}
            for _ in range(n):
                x = T(t.get_next_time())
                cnt[x] = cnt.get(x, 0) + 1
            vs = sorted(set(spec["v"]))
            ev.append({"e": "freq", "n": n, "k": len(spec["v"]), "cnt": [cnt.get(v, 0) for v in vs], "mult": [spec["v"].count(v) for v in vs], "tol": 200})
    np.random.set_state(st[0])
    random.setstate(st[1])
    return {"cfg": {"src": {}, "tm": {}, "ty": {}}, "ev": ev, "meta": {"feat": "time models", "key": list(key), "error": ""}}


def check(chk, n):
    traces = common.pmap(job, [(chk.prop, "tm", common.seed(), i) for i in range(n)])
    for t in traces:       # empty functions are records in TLA+
        t["cfg"] = {"src": {"none": "none"}, "tm": {"none": {"k": "any", "v": [], "abs": False, "cyc": False}}, "ty": {"none": ""}}
    verdicts, st = common.validate_traces("T_Arrive", traces, chk.scratch)
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    chk.add("traces_validated_against_impl", len(traces))
    chk.add("events_validated", sum(len(t["ev"]) for t in traces))
    for t, v in zip(traces, verdicts):
        if v:
            e = t["ev"][v[0] - 1]
            chk.violation(f"{v[1]} [time models]", f"{t['meta']['key']}: {str(e)[:500]}", {"meta": t["meta"], "event": e})
