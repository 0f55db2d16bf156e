"""P22: configurations, valid and broken, and what the code says about them."""
import copy
import json
import os

import common
import feats
import gen

FEATS = ["base", "setupbd", "dag", "dagcap", "cap", "stores", "aux", "rework", "charging", "loading", "link", "linkio", "multi", "everything", "pbd", "batch"]
SECTIONS = {"time_model_data": "time_model", "state_data": "state", "process_data": "process", "queue_data": "queue", "node_data": "node",
            "resource_data": "resource", "product_data": "product", "sink_data": "sink", "source_data": "source", "auxiliary_data": "auxiliary"}
REFS = [  # section, field, is a list
    ("state_data", "time_model_id", 0), ("state_data", "repair_time_model_id", 0), ("state_data", "battery_time_model_id", 0),
    ("state_data", "process_id", 0), ("state_data", "origin_setup", 0), ("state_data", "target_setup", 0),
    ("process_data", "time_model_id", 0), ("process_data", "loading_time_model_id", 0), ("process_data", "unloading_time_model_id", 0),
    ("process_data", "reworked_process_ids", 1), ("process_data", "process_ids", 1),
    ("resource_data", "process_ids", 1), ("resource_data", "state_ids", 1), ("resource_data", "input_queues", 1), ("resource_data", "output_queues", 1),
    ("product_data", "transport_process", 0), ("product_data", "auxiliaries", 1),
    ("sink_data", "product_type", 0), ("sink_data", "input_queues", 1),
    ("source_data", "product_type", 0), ("source_data", "time_model_id", 0), ("source_data", "output_queues", 1),
    ("auxiliary_data", "transport_process", 0), ("auxiliary_data", "storages", 1), ("auxiliary_data", "relevant_transport_processes", 1),
]
TARGET = {"time_model_id": "time_model_data", "repair_time_model_id": "time_model_data", "battery_time_model_id": "time_model_data",
          "loading_time_model_id": "time_model_data", "unloading_time_model_id": "time_model_data", "process_id": "process_data",
          "origin_setup": "process_data", "target_setup": "process_data", "reworked_process_ids": "process_data", "process_ids": "process_data",
          "state_ids": "state_data", "input_queues": "queue_data", "output_queues": "queue_data", "storages": "queue_data",
          "transport_process": "process_data", "auxiliaries": "auxiliary_data", "product_type": "product_data",
          "relevant_transport_processes": "process_data"}


def plan_ids(p):
    q = p["processes"]
    if isinstance(q, dict):
        return list(q), [x for v in q.values() for x in v]
    if q and isinstance(q[0], list):
        return [x for e in q for x in e], []
    return list(q), []


def map_plan(p, fn):
    q = p["processes"]
    if isinstance(q, dict):
        return {fn(k): [fn(x) for x in v] for k, v in q.items()}
    if q and isinstance(q[0], list):
        return [[fn(x) for x in e] for e in q]
    return [fn(x) for x in q]


def refs_of(d):
    out = []
    for sec, field, many in REFS:
        for o in d[sec]:
            v = o.get(field)
            if not v:
                continue
            for t in (v if many else [v]):
                out.append([SECTIONS[sec], o["ID"], field, t])
    for p in d["product_data"]:
        a, b = plan_ids(p)
        out += [["product", p["ID"], "processes", x] for x in a] + [["product", p["ID"], "successors", x] for x in b]
    return out


def project(d):
    pts = []
    for r in d["resource_data"]:
        if "input_queues" in r:
            pts.append(["machine", r["ID"], [f"{p}" for p in {str(r[k]): 1 for k in ("location", "input_location", "output_location")}]])
    for q in d["queue_data"]:
        if q.get("location"):
            pts.append(["store", q["ID"], [f"{p}" for p in {str(q[k]): 1 for k in ("location", "input_location", "output_location")}]])
    for k in ("source", "sink"):
        for s in d[k + "_data"]:
            pts.append([k, s["ID"], [str(s["location"])]])
    procs = {"": {"kind": "none", "cap": "", "of": []}}
    for p in d["process_data"]:
        procs[p["ID"]] = {"kind": p["type"], "cap": p.get("capability") or "", "of": p.get("process_ids") or []}
    return {
        "ids": {v: [o["ID"] for o in d[k]] for k, v in SECTIONS.items()},
        "refs": [{"k": a, "o": b, "f": f, "t": t} for a, b, f, t in refs_of(d)],
        "pts": [{"g": g, "o": o, "p": p} for g, o, p in pts],
        "procs": procs,
        "offer": [{"r": r["ID"], "p": r["process_ids"]} for r in d["resource_data"]],
        "need": [{"o": p["ID"], "p": plan_ids(p)[0] + [p["transport_process"]]} for p in d["product_data"]],
        "links": [{"p": p["ID"], "a": l[0], "b": l[1]} for p in d["process_data"] for l in (p.get("links") or [])],
    }


# ---------------------------------------------------------------- mutations
def rename(d, sec, old, new, refs_too=True):
    for o in d[sec]:
        if o["ID"] == old:
            o["ID"] = new
            for k in ("product_type", "auxiliary_type"):
                if k in o and sec in ("product_data", "auxiliary_data"):
                    o[k] = new
    if not refs_too:
        return
    for s, field, many in REFS:
        if TARGET[field] != sec:
            continue
        for o in d[s]:
            v = o.get(field)
            if many and v:
                o[field] = [new if x == old else x for x in v]
            elif v == old:
                o[field] = new
    if sec == "process_data":
        for p in d["product_data"]:
            p["processes"] = map_plan(p, lambda x: new if x == old else x)
    for p in d["process_data"]:
        if sec in ("node_data", "resource_data", "source_data", "sink_data") and p.get("links"):
            p["links"] = [[new if x == old else x for x in l] for l in p["links"]]


def mutate(d, rng):
    kind = rng.choice(["none", "dangle", "dangle", "dangle", "drop", "drop", "rename", "misname", "move", "move", "unoffer", "unoffer", "badlink", "reorder",
                       "unused", "swaptype", "capab", "sharedsrc", "dropref", "dropref"])
    secs = [s for s in SECTIONS if d[s]]
    if kind == "dangle":
        cands = [(s, f, m, o) for s, f, m in REFS for o in d[s] if o.get(f)] + [("product_data", "processes", 2, o) for o in d["product_data"]]
        fields = sorted({(s, f) for s, f, m, o in cands})
        pick = rng.choice(fields)
        s, f, m, o = rng.choice([c for c in cands if (c[0], c[1]) == pick])
        new = "NOPE"
        if rng.random() < .3:   # a name of something else
            other = rng.choice([x for x in secs if x != TARGET.get(f, "process_data")])
            new = rng.choice(d[other])["ID"]
        if m == 0:
            o[f] = new
        elif m == 1:
            v = list(o[f])
            v[rng.randrange(len(v))] = new
            o[f] = v
        else:
            ids = plan_ids(o)[0]
            x = rng.choice(ids)
            o[f] = map_plan(o, lambda y: new if y == x else y)
        return f"{kind} {s}.{f} -> {new}"
    if kind == "drop":
        s = rng.choice(secs)
        o = rng.choice(d[s])
        d[s] = [x for x in d[s] if x is not o]
        return f"drop {o['ID']}"
    if kind == "dropref":       # something that is referred to disappears
        rs = refs_of(d)
        k = rng.choice(sorted({(r[0], r[2]) for r in rs}))
        r = rng.choice([r for r in rs if (r[0], r[2]) == k])
        for s in SECTIONS:
            d[s] = [x for x in d[s] if x["ID"] != r[3]]
        return f"dropref {r}"
    if kind in ("rename", "misname"):
        s = rng.choice(secs)
        o = rng.choice(d[s])["ID"]
        rename(d, s, o, "x" + o + "y", kind == "rename")
        return f"{kind} {o}"
    if kind == "move":
        mk = [o for o in d["resource_data"] if "input_queues" in o] + [q for q in d["queue_data"] if q.get("location")] + d["source_data"] + d["sink_data"]
        a, b = rng.sample(mk, 2)
        fa = rng.choice([k for k in ("location", "input_location", "output_location") if k in a])
        fb = rng.choice([k for k in ("location", "input_location", "output_location") if k in b])
        same = "input_location" in a and a["input_location"] == a["location"] == a["output_location"]
        a[fa] = list(b[fb])
        if same:
            a["location"] = a["input_location"] = a["output_location"] = list(b[fb])
        return f"move {a['ID']}.{fa} to {b['ID']}.{fb}"
    if kind == "sharedsrc":
        k = rng.choice(["source_data", "sink_data"])
        if len(d[k]) < 2:
            return None
        a, b = rng.sample(d[k], 2)
        a["location"] = list(b["location"])
        return f"{a['ID']} at the place of {b['ID']}"
    if kind == "unoffer":
        p = rng.choice([x for r in d["resource_data"] for x in r["process_ids"]])
        for r in d["resource_data"]:
            if p in r["process_ids"]:
                i = r["process_ids"].index(p)
                if len(r["process_ids"]) == 1:
                    if rng.random() < .5 and len(d["resource_data"]) > 1:
                        continue
                r["process_ids"] = [x for x in r["process_ids"] if x != p]
                if r.get("process_capacities"):
                    r["process_capacities"] = [c for j, c in enumerate(r["process_capacities"]) if j != i]
        return f"unoffer {p}"
    if kind == "badlink":
        ps = [p for p in d["process_data"] if p.get("links")]
        if not ps:
            return None
        p = rng.choice(ps)
        l = rng.choice(p["links"])
        l[rng.randrange(2)] = rng.choice(["NOPE", p["ID"], d["queue_data"][0]["ID"]])
        return f"badlink {l}"
    if kind == "reorder":
        for s in SECTIONS:
            rng.shuffle(d[s])
        return "reorder"
    if kind == "unused":
        t = copy.deepcopy(rng.choice(d["time_model_data"]))
        t["ID"] = "unused_tm"
        d["time_model_data"].append(t)
        d["process_data"].append({"ID": "unused_process", "description": "", "time_model_id": "unused_tm", "type": "ProductionProcesses", "failure_rate": 0.})
        d["queue_data"].append({"ID": "unused_queue", "description": "", "capacity": 2})
        d["state_data"].append({"ID": "unused_state", "description": "", "time_model_id": "unused_tm", "type": "BreakDownState", "repair_time_model_id": "unused_tm"})
        d["node_data"].append({"ID": "unused_node", "description": "", "location": [99., 99.]})
        return "unused"
    if kind == "swaptype":   # a resource offers, or a product needs, a required capability that nobody offers
        rq = [p for p in d["process_data"] if p["type"] == "RequiredCapabilityProcesses"]
        if rq and rng.random() < .5:
            r = rng.choice(d["resource_data"])
            r["process_ids"] = r["process_ids"] + [rng.choice(rq)["ID"]]
            r["process_capacities"] = None
            return "resource offers a required capability"
        d["process_data"].append({"ID": "RQX", "description": "", "type": "RequiredCapabilityProcesses", "capability": "capX"})
        p = rng.choice(d["product_data"])
        if isinstance(p["processes"], dict):
            p["processes"]["RQX"] = []
        elif isinstance(p["processes"][0], list):
            p["processes"].append([p["processes"][0][0], "RQX"])
        else:
            p["processes"].append("RQX")
        return "needs capX"
    if kind == "capab":
        cs = [p for p in d["process_data"] if p.get("capability") and p["type"] == "CapabilityProcesses"]
        if not cs:
            return None
        p = rng.choice(cs)
        p["capability"] = "other" + p["capability"]
        return f"capability of {p['ID']} changed"
    return "none"


# ---------------------------------------------------------------- the code under test
def verdict(fn):
    import pydantic
    try:
        fn()
    except pydantic.ValidationError as e:
        return {"err": "ValidationError", "msg": str(e)}
    except ValueError as e:
        return {"err": "ValueError", "msg": str(e)}
    except Exception as e:
        return {"err": type(e).__name__, "msg": str(e)}
    return None


def judge(d, path):
    """(stage, error class, message) of the two ways to load a configuration, then of checking and initialising it."""
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys import runner as prunner
    from prodsys.simulation import sim
    sim.VERBOSE = 0
    with open(path, "w") as f:
        json.dump(d, f)
    out = {}
    a = JsonProductionSystemAdapter()
    v = verdict(lambda: a.read_data(path))
    out["read"] = v
    b = []
    out["make"] = verdict(lambda: b.append(JsonProductionSystemAdapter.model_validate(copy.deepcopy(d))))
    out["check"] = out["init"] = None
    if v is None:
        out["check"] = verdict(a.validate_configuration)
        out["init"] = verdict(lambda: prunner.Runner(a).initialize_simulation())
    out = {k: (v or {"err": "", "msg": ""}) for k, v in out.items()}
    for v in out.values():
        v["named"] = sorted({t for _, _, _, t in refs_of(d) if t in v["msg"]})
        v["msg"] = v["msg"][:300]
    return out


def job(key):
    import logging
    logging.disable(logging.CRITICAL)
    rng = common.rng_for(*key)
    sc = common.Scratch()
    feat = rng.choice(FEATS)
    base = json.loads(gen.build(rng, **feats.F[feat]).model_dump_json())
    for k, f in (("sink", "input_queues"), ("source", "output_queues")):
        for o in base[k + "_data"]:
            if rng.random() < .3:
                base["queue_data"].append({"ID": o["ID"] + "_more", "description": "", "capacity": 0})
                o[f] = o[f] + [o["ID"] + "_more"] if rng.random() < .7 else [o["ID"] + "_more"] + o[f]
    ev = []
    for j in range(12):
        d = copy.deepcopy(base)
        what = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            try:
                what.append(mutate(d, rng))
            except IndexError:      # nothing left to change
                break
        cfg = project(d)
        ev.append({"e": "cfg", "what": [w or "not applicable" for w in what], "c": cfg, "v": judge(d, os.path.join(sc.path, "c.json"))})
    sc.close()
    return {"cfg": {"x": 0}, "ev": ev, "meta": {"feat": feat, "key": list(key), "error": ""}}


def check(chk, n):
    jobs = [(chk.prop, common.seed(), i) for i in range(n)]
    traces = common.pmap(job, jobs)
    run(chk, "T_Config", traces, lambda e: f"{e['what']} -> {({k: v['err'] + ' ' + v['msg'] for k, v in e['v'].items()})}")


def run(chk, module, traces, describe):
    verdicts, st = common.validate_traces(module, traces, chk.scratch)
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    chk.add("traces_validated_against_impl", len(traces))
    chk.add("events_validated", sum(len(t["ev"]) for t in traces))
    for t, v in zip(traces, verdicts):
        if v:
            e = t["ev"][v[0] - 1]
            chk.violation(f"{v[1]} [{t['meta']['feat']}]", f"{t['meta']['key']}: {describe(e)[:900]}", {"meta": t["meta"], "event": e})
    for t in traces[:3]:
        chk.sample(f"{t['meta']['feat']}: " + "; ".join(str(e.get("what")) for e in t["ev"][:6]))
