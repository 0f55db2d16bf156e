"""P29, second part: what TLC says can happen in a shop is all that does happen.

Small shops are drawn from the scope of spec/MC_Shop.tla.  TLC explores every
interleaving of the operational model and prints the completion times every
behaviour ends with; the same shops run in the real simulator.
"""
import json
import os
import re

import common

H = 80


def draw(rng):
    return {"gaps": [rng.choice([0, 1, 3]) for _ in range(2)], "plan": rng.randint(1, 4), "st": rng.choice([0, 0, 0, 1, 2]), "both": rng.random() < .5, "cap": rng.randint(1, 2),
            "inc": rng.randint(0, 2), "outc": rng.randint(0, 1), "w": 1, "tt": rng.choice([1, 2]),
            "bdm": rng.random() < .5, "bdc": rng.random() < .4, "y": rng.random() < .6, "h": H}


def build(k):
    """the same shop for the real simulator"""
    from prodsys.models import (time_model_data as tmd, processes_data as pd_, state_data as sd, resource_data as rd, product_data as prd,
                                source_data as srd, sink_data as skd, queue_data as qd)
    from prodsys.adapters import JsonProductionSystemAdapter

    tms = []

    def tm(i, x):
        tms.append(tmd.FunctionTimeModelData(ID=i, description="", distribution_function="constant", location=float(x), scale=0.0))
        return i
    procs = [pd_.ProductionProcessData(ID=i, description="", type=pd_.ProcessTypeEnum.ProductionProcesses, time_model_id=tm("t" + i, d))
             for i, d in (("A", 2), ("B", 3))]
    procs.append(pd_.TransportProcessData(ID="T", description="", type=pd_.ProcessTypeEnum.TransportProcesses, time_model_id=tm("tT", k["tt"])))
    states, ress, qs, snks, srcs, prods = [], [], [], [], [], []

    def breakdown(i, every, repair):
        states.append(sd.BreakDownStateData(ID=i, description="", type=sd.StateTypeEnum.BreakDownState, time_model_id=tm(i + "e", every),
                                            repair_time_model_id=tm(i + "r", repair)))
        return [i]

    def q(i, n=0):
        qs.append(qd.QueueData(ID=i, description="", capacity=n))
        return [i]
    for m, ids, cap, x in (("M1", ["A", "B"] if k["both"] else ["A"], k["cap"], 1.), ("M2", ["B"], 1, 2.)):
        ress.append(rd.ProductionResourceData(
            ID=m, description="", capacity=cap, location=[x, 0.], controller="PipelineController", control_policy="FIFO", process_ids=ids,
            state_ids=breakdown("bm", 7, 2) if m == "M1" and k["bdm"] else [], input_queues=q(m + "in", k["inc"]),
            output_queues=q(m + "out", k["outc"]) + (["X"] if m == "M1" and k["st"] else [])))
    if k["st"]:
        qs.append(qd.StoreData(ID="X", description="", capacity=k["st"], location=[3., 3.]))
    for i in range(k["w"]):
        ress.append(rd.TransportResourceData(ID=f"V{i + 1}", description="", capacity=1, location=[9., 9. + i], controller="TransportController",
                                             control_policy="FIFO", process_ids=["T"], state_ids=breakdown("bc", 11, 1) if i == 0 and k["bdc"] else []))
    at = [1, 1 + k["gaps"][0], 1 + sum(k["gaps"])]
    plan = {"x": [["A"], ["A", "B"], ["A", "B", "A"], {"A": [], "B": []}][k["plan"] - 1], "y": ["B", "A"]}
    for i, (ty, sink, when) in enumerate((("x", "K", [at[0], at[2]] if k["y"] else at), ("y", "L", [at[1]]))):
        if ty == "y" and not k["y"]:
            continue
        prods.append(prd.ProductData(ID=ty, description="", product_type=ty, processes=plan[ty], transport_process="T"))
        tms.append(tmd.ScheduledTimeModelData(ID="arr" + ty, description="", schedule=[float(t) for t in when], absolute=True, cyclic=False))
        srcs.append(srd.SourceData(ID="S" + ty, description="", location=[0., float(i)], product_type=ty, time_model_id="arr" + ty,
                                   routing_heuristic="FIFO" if k["w"] == 1 else "shortest_queue", output_queues=q("S" + ty + "out")))
        snks.append(skd.SinkData(ID=sink, description="", location=[5., float(i)], product_type=ty, input_queues=q(sink + "in")))
    return JsonProductionSystemAdapter(ID="shop", seed=k.get("seed", 0), time_model_data=tms, process_data=procs, state_data=states, resource_data=ress,
                                       product_data=prods, source_data=srcs, sink_data=snks, queue_data=qs)


def job(k):
    """-> (times the products of the shop are finished at or -1, error)"""
    import observe
    r = observe.run(build(k), k["h"], snaps=False)
    made, fin = {"x": [], "y": []}, {}
    for e in r.ev:
        if e["e"] == "log" and e["a"] == "created product":
            made["y" if e["r"] == "Sy" else "x"].append(e["p"])
        elif e["e"] == "log" and e["a"] == "finished product":
            fin[e["p"]] = e["t"]
    x, y = made["x"] + ["?"] * 3, made["y"] + ["?"]
    return [fin.get(p, -1) for p in ([x[0], y[0], x[1]] if k["y"] else x[:3])], r.error


def model(args):
    """explore a few shops -> ({i: set of outcomes}, states, generated, error)"""
    shops, timeout = args
    with common.Scratch() as sc:
        path = os.path.join(sc.path, "shops.json")
        with open(path, "w") as f:
            json.dump([{x: v for x, v in k.items() if x != "seed"} for k in shops], f)
        r = common.run_tlc("MC_Shop", env={"SHOPS": path}, workers=2, timeout=timeout, scratch=sc, heap="2g")
    outs = {}
    for i, o in re.findall(r'<<\s*"OUT",\s*(\d+),\s*<<(.*?)>>\s*>>', r.out, re.S):
        outs.setdefault(int(i) - 1, set()).add(tuple(int(x) for x in o.split(",")))
    return outs, r.distinct, r.generated, "" if r.rc == 0 and "No error has been found" in r.out else r.out[-2500:]


def check(chk, n, runs=3, timeout=700):
    rng = common.rng_for(chk.prop, "shops", common.seed())
    shops = [dict(draw(rng), seed=rng.randrange(1, 10 ** 6)) for _ in range(n)]
    for k in shops:                 # what is drawn of all of it at once is too much
        k["both"] = k["both"] and not (k["plan"] == 4 and k["st"])
    for i in range(0, n, 13):       # two carriers and drawn routes: many behaviours
        shops[i].update(w=2, st=0, plan=rng.randint(1, 3))
    k = 4
    parts = [list(range(i, n, k)) for i in range(k)]
    found = common.pmap(model, [([shops[i] for i in p], timeout) for p in parts if p], nproc=k)
    outs = {}
    for p, (o, dist, gen, err) in zip(parts, found):
        if err:
            raise common.MachineryError("MC_Shop: " + err)
        chk.add("states", dist)
        chk.add("transitions", gen)
        for i in range(len(p)):
            outs[p[i]] = o.get(i, set())
    jobs = [(i, dict(shops[i], seed=shops[i]["seed"] + 7 * j)) for i in range(n) for j in range(runs if shops[i]["w"] > 1 or shops[i]["st"] or shops[i]["plan"] == 4 else 1)]
    real = common.pmap(job, [s for _, s in jobs])
    chk.add("shops_explored", n)
    chk.add("outcomes_of_the_model", sum(len(x) for x in outs.values()))
    chk.add("runs_compared_with_the_model", len(jobs))
    for (i, s), (fin, err) in zip(jobs, real):
        if err:
            chk.violation(f"a valid configuration does not fail: {err} [small shops]", str(s), {"shop": s, "error": err})
        elif tuple(x // 1000 if x >= 0 else x for x in fin) not in outs[i] or any(x > 0 and x % 1000 for x in fin):
            chk.violation("the simulator finishes products at times no behaviour of the model allows [small shops]",
                          f"shop {s}: finished at {fin}, model {sorted(outs[i])[:20]}",
                          {"shop": s, "finished": fin, "model": sorted(map(list, outs[i]))})
