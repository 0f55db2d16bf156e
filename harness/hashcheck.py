"""P23, P24: written and read configurations; configurations and their hashes."""
import copy
import json
import os

import common
import configcheck
import feats
import gen

TRIP = ["base", "setupbd", "dag", "dagcap", "cap", "stores", "aux", "rework", "charging", "loading", "link", "linkio", "multi", "everything", "pbd", "batch",
        "proccap", "arr", "sto", "auxmany"]
HASH = ["base", "setup", "setupbd", "cap", "stores", "aux", "rework", "charging", "loading", "link", "multi", "pbd", "proccap", "auxmany", "sto", "arr"]


def texts(o):
    """An entity as texts: its class and every field it has."""
    out = [type(o).__name__]
    for f in type(o).model_fields:
        v = getattr(o, f)
        out.append(f"{f}={getattr(v, 'value', v)!r}")
    return out


def flat(a):
    out = {"head": [f"ID={a.ID}", f"seed={a.seed}"], "scenario": [repr(a.scenario_data)]}
    for k, v in configcheck.SECTIONS.items():
        out[v] = [texts(o) for o in getattr(a, k)]
    return out


def log_of(a, h):
    from prodsys import runner as prunner
    import observe
    r = prunner.Runner(a)
    r.initialize_simulation()
    r.run(h)
    return [observe.row_text(x) for x in list(r.event_logger.event_data)]


def hash_of(a):
    try:
        return a.hash()
    except NotImplementedError:
        return "none"


def trip_job(key):
    import logging
    logging.disable(logging.CRITICAL)
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.simulation import sim
    import observe
    sim.VERBOSE = 0
    rng = common.rng_for(*key)
    feat = TRIP[key[-1] % len(TRIP)]
    sc = common.Scratch()
    meta = {"feat": feat, "key": list(key), "error": ""}
    ev = []
    try:
        with observe.wall_limit(60):
            used = None
            for _ in range(3):
                a = gen.build(rng, **feats.F[feat])
                d = json.loads(a.model_dump_json())
                what = "generated"
                if feat not in ("stores", "aux", "auxmany", "everything") and rng.random() < .5:
                    for m in ("reorder", "rename", "unused"):
                        if rng.random() < .5:
                            what += "," + m
                            _neutral(d, m, rng)
                    a = JsonProductionSystemAdapter.model_validate(d)
                if rng.random() < .3:
                    what += ",default queues"
                    for r in a.resource_data:
                        if hasattr(r, "input_queues"):
                            r.input_queues, r.output_queues = [], []
                    from prodsys.adapters import adapter as ad
                    ad.add_default_queues_to_adapter(a)
                p, q, f2 = (os.path.join(sc.path, x) for x in ("a.json", "b.json", "scenario.json"))
                if rng.random() < .4:
                    a.seed = rng.choice([0, 1, 2 ** 31])
                scen = rng.random() < .4 and feat not in ("aux", "auxmany", "everything")
                if scen:
                    import optcheck
                    what += ",scenario"
                    a.scenario_data = optcheck.scenario(a, rng)
                before = flat(a)
                a.write_data(p)
                if scen:
                    a.write_scenario_data(f2)
                if not scen and used is not None and used.scenario_data is not None:
                    used = None     # a scenario stays when none is read
                b = JsonProductionSystemAdapter() if used is None or rng.random() < .4 else used
                what += "" if b is not used else ",into a used adapter"
                b.read_data(p, f2) if scen else b.read_data(p)
                used = b
                b.write_data(q)
                with open(p) as f:
                    t1 = f.read()
                with open(q) as f:
                    t2 = f.read()
                c = JsonProductionSystemAdapter.model_validate(json.loads(t1))
                ev.append({"e": "trip", "what": what, "a": before, "after": flat(a), "read": flat(b), "made": flat(c),
                           "text1": configcheck_digest(t1), "text2": configcheck_digest(t2), "hash1": hash_of(a), "hash2": hash_of(b),
                           "log1": log_of(a, 120), "log2": log_of(b, 120)})
    except Exception as e:
        ev.append({"e": "crash", "what": f"{type(e).__name__}: {str(e)[:300]}"})
    sc.close()
    return {"cfg": {"x": 0}, "ev": ev, "meta": meta}


def configcheck_digest(t):
    import hashlib
    return hashlib.sha1(t.encode()).hexdigest()


def _neutral(d, m, rng):
    if m == "reorder":
        for s in configcheck.SECTIONS:
            rng.shuffle(d[s])
    elif m == "rename":
        s = rng.choice([s for s in configcheck.SECTIONS if d[s]])
        o = rng.choice(d[s])["ID"]
        configcheck.rename(d, s, o, "x" + o + "y")
    else:
        d["queue_data"].append({"ID": "unused_queue", "description": "", "capacity": 2})


def trip_check(chk, n):
    traces = common.pmap(trip_job, [(chk.prop, common.seed(), i) for i in range(n)])
    configcheck.run(chk, "T_RoundTrip", traces, lambda e: f"{e['what']} " + diff_text(e))


def diff_text(e):
    for w in ("read", "made", "after"):
        for k in e.get("a", {}):
            if e["a"][k] != e[w][k]:
                x = [(p, q) for p, q in zip(e["a"][k], e[w][k]) if p != q]
                return f"{w} {k}: {x[:1]}"
    for i, (x, y) in enumerate(zip(e.get("log1", []), e.get("log2", []))):
        if x != y:
            return f"log row {i}: {x} / {y}"
    return ""


# ---------------------------------------------------------------- hashes
def same_cfg(d):
    """A configuration (as dictionaries) for Same.tla."""
    def S(*xs):
        return [json.dumps(x) for x in xs]
    tm = {o["ID"]: [json.dumps({k: v for k, v in o.items() if k not in ("ID", "description", "batch_size")}, sort_keys=True)] for o in d["time_model_data"]}
    proc, st, q, res, node, prod, snk, src, aux = {}, {}, {}, {}, {}, {}, {}, {}, {}
    for p in d["process_data"]:
        proc[p["ID"]] = {"kind": p["type"], "tm": p.get("time_model_id") or "", "load": p.get("loading_time_model_id") or "",
                         "unload": p.get("unloading_time_model_id") or "", "par": S(p.get("failure_rate"), p.get("capability")),
                         "links": ["-".join(l) for l in p.get("links") or []]}
    for s in d["state_data"]:
        st[s["ID"]] = {"kind": s["type"], "tm": s["time_model_id"], "rep": s.get("repair_time_model_id") or "", "bat": s.get("battery_time_model_id") or "",
                       "proc": s.get("process_id") or "", "from": s.get("origin_setup") or "", "to": s.get("target_setup") or ""}
    for o in d["queue_data"]:
        q[o["ID"]] = S(float(o["capacity"]), o.get("location"), o.get("input_location"), o.get("output_location"))
    for r in d["resource_data"]:
        res[r["ID"]] = {"par": S(r["capacity"], r["controller"], r["location"], r.get("input_location"), r.get("output_location")),
                        "proc": r["process_ids"], "cap": [str(x) for x in r.get("process_capacities") or []], "st": r["state_ids"],
                        "qi": r.get("input_queues") or [], "qo": r.get("output_queues") or []}
    for n in d["node_data"]:
        node[n["ID"]] = S(n["location"])
    for p in d["product_data"]:
        prod[p["ID"]] = {"plan": p["processes"], "tp": p["transport_process"]}
    for s in d["sink_data"]:
        snk[s["ID"]] = {"par": S(s["location"]), "prod": s["product_type"], "q": s["input_queues"]}
    for s in d["source_data"]:
        src[s["ID"]] = {"par": S(s["location"], s["routing_heuristic"]), "prod": s["product_type"], "tm": s["time_model_id"], "q": s["output_queues"]}
    for x in d["auxiliary_data"]:
        aux[x["ID"]] = {"par": [x["auxiliary_type"]], "tp": x["transport_process"], "st": x["storages"], "n": [str(k) for k in x["quantity_in_storages"]],
                        "rp": x["relevant_processes"], "rt": x["relevant_transport_processes"]}
    out = {"tm": tm, "proc": proc, "st": st, "q": q, "res": res, "node": node, "prod": prod, "snk": snk, "src": src, "aux": aux}
    blank = {"tm": [""], "q": [""], "node": [""], "proc": {"kind": "none"}, "st": {"kind": "none"}, "res": {"par": []}, "prod": {"plan": []}, "snk": {"par": []},
             "src": {"par": []}, "aux": {"par": []}}
    for k in out:
        out[k][""] = blank[k]
    out["first"] = d["process_data"][0]["ID"]
    return out


def _other(rng, xs, x):
    ys = [y for y in xs if y != x]
    return rng.choice(ys) if ys else None


def vary(d, rng):
    """One change of a configuration; returns a name, or None when it does not apply."""
    kinds = ["reorder", "rename", "rename", "words", "inner order", "inner order", "tm par", "tm ref", "tm ref", "failure rate", "capability", "loading", "capacity", "location",
             "offer", "process capacity", "process capacity", "drop state", "queue capacity", "point", "plan", "plan", "transport", "product of", "heuristic",
             "aux number", "aux storages", "link", "extra", "setup", "setup", "broken process"]
    k = rng.choice(kinds)
    tms = [t["ID"] for t in d["time_model_data"]]
    ids = lambda s: [o["ID"] for o in d[s]]
    if k == "reorder":
        for s in configcheck.SECTIONS:
            rng.shuffle(d[s])
    elif k == "rename":
        linked = {x for p in d["process_data"] for l in p.get("links") or [] for x in l}
        s = rng.choice([s for s in configcheck.SECTIONS if d[s] and s != "auxiliary_data"])
        o = rng.choice(d[s])["ID"]
        if o in linked:
            return None
        configcheck.rename(d, s, o, rng.choice(["x", "", "0"]) + o + "y")
    elif k == "words":
        d["ID"], d["seed"] = "other", rng.randrange(100)
        for s in configcheck.SECTIONS:
            for o in d[s]:
                o["description"] = "some other words"
    elif k == "inner order":
        r = rng.choice(d["resource_data"])
        f = rng.choice(["process_ids", "state_ids", "input_queues", "output_queues", "links"])
        if f == "links":
            ls = [p for p in d["process_data"] if p.get("links")]
            if not ls:
                return None
            rng.shuffle(rng.choice(ls)["links"])
        elif f == "process_ids":
            n = list(range(len(r["process_ids"])))
            rng.shuffle(n)
            r["process_ids"] = [r["process_ids"][i] for i in n]
            if r.get("process_capacities"):
                r["process_capacities"] = [r["process_capacities"][i] for i in n]
        elif r.get(f):
            rng.shuffle(r[f])
        else:
            return None
    elif k == "tm par":
        t = rng.choice(d["time_model_data"])
        f = rng.choice([x for x in t if x not in ("ID", "description", "batch_size")])
        if isinstance(t[f], bool):
            t[f] = not t[f]
        elif isinstance(t[f], float):
            t[f] = t[f] + 1.
        elif isinstance(t[f], list):
            t[f][rng.randrange(len(t[f]))] += 100.
        elif f == "metric":
            t[f] = "euclidian" if t[f] == "manhattan" else "manhattan"
        else:
            return None
        k += " " + f
    elif k == "tm ref":
        c = [(o, f) for s in ("process_data", "state_data", "source_data") for o in d[s]
             for f in ("time_model_id", "repair_time_model_id", "battery_time_model_id", "loading_time_model_id", "unloading_time_model_id") if o.get(f)]
        o, f = rng.choice(c)
        n = _other(rng, tms, o[f])
        if n is None:
            return None
        o[f] = n
        k += " " + f
    elif k == "failure rate":
        c = [p for p in d["process_data"] if p.get("failure_rate") is not None]
        if not c:
            return None
        rng.choice(c)["failure_rate"] = .123
    elif k == "capability":
        c = [p for p in d["process_data"] if p.get("capability")]
        if not c:
            return None
        p = rng.choice(c)
        p["capability"] += "x"
    elif k == "loading":
        c = [p for p in d["process_data"] if "loading_time_model_id" in p]
        p = rng.choice(c)
        if rng.random() < .5:
            p["loading_time_model_id"], p["unloading_time_model_id"] = p["unloading_time_model_id"], p["loading_time_model_id"]
        else:
            p[rng.choice(["loading_time_model_id", "unloading_time_model_id"])] = rng.choice(tms)
    elif k == "capacity":
        r = rng.choice(d["resource_data"])
        r["capacity"] += 1
        if r.get("process_capacities"):
            m = max(r["process_capacities"])
            i = r["process_capacities"].index(m)
            r["process_capacities"][i] = m + 1
    elif k == "location":
        s = rng.choice(["resource_data", "sink_data", "source_data", "node_data"])
        if not d[s]:
            return None
        o = rng.choice(d[s])
        f = rng.choice([x for x in ("location", "input_location", "output_location") if o.get(x)])
        o[f] = [50. + rng.randrange(9), 1.]
        k += " " + f
    elif k == "point":
        c = [q for q in d["queue_data"] if q.get("location")]
        if not c:
            return None
        o = rng.choice(c)
        f = rng.choice(["location", "input_location", "output_location"])
        o[f] = [50. + rng.randrange(9), 1.]
    elif k == "offer":
        r = rng.choice(d["resource_data"])
        if rng.random() < .5:
            n = _other(rng, [p["ID"] for p in d["process_data"] if p["ID"] not in r["process_ids"]], None)
            if n is None:
                return None
            r["process_ids"] = r["process_ids"] + [n]
            if r.get("process_capacities"):
                r["process_capacities"] = r["process_capacities"] + [1]
        else:
            if len(r["process_ids"]) < 2:
                return None
            i = rng.randrange(len(r["process_ids"]))
            r["process_ids"] = r["process_ids"][:i] + r["process_ids"][i + 1:]
            if r.get("process_capacities"):
                r["process_capacities"] = r["process_capacities"][:i] + r["process_capacities"][i + 1:]
                r["capacity"] = max(r["process_capacities"])
    elif k == "process capacity":
        c = [r for r in d["resource_data"] if len(set(r.get("process_capacities") or [])) > 1]
        if not c:
            return None
        r = rng.choice(c)
        if rng.random() < .5:      # the processes change places, the capacities stay
            r["process_ids"] = r["process_ids"][1:] + r["process_ids"][:1]
        else:
            r["process_capacities"] = r["process_capacities"][1:] + r["process_capacities"][:1]
    elif k == "drop state":
        c = [r for r in d["resource_data"] if r["state_ids"]]
        if not c:
            return None
        r = rng.choice(c)
        r["state_ids"] = r["state_ids"][1:]
    elif k == "queue capacity":
        q = rng.choice(d["queue_data"])
        q["capacity"] = q["capacity"] + 7
    elif k == "plan":
        p = rng.choice(d["product_data"])
        x = rng.choice(["swap", "drop", "add"])
        if x == "swap":
            p["processes"] = p["processes"][::-1]
        elif x == "drop" and len(p["processes"]) > 1:
            p["processes"] = p["processes"][1:]
        else:
            p["processes"] = p["processes"] + [rng.choice(p["processes"])]
        k += " " + x
    elif k == "transport":
        p = rng.choice(d["product_data"])
        n = _other(rng, [x["ID"] for x in d["process_data"] if "loading_time_model_id" in x], p["transport_process"])
        if n is None:
            return None
        p["transport_process"] = n
    elif k == "product of":
        s = rng.choice(d["sink_data"] + d["source_data"])
        n = _other(rng, ids("product_data"), s["product_type"])
        if n is None:
            return None
        s["product_type"] = n
    elif k == "heuristic":
        s = rng.choice(d["source_data"])
        s["routing_heuristic"] = _other(rng, ["random", "shortest_queue", "FIFO"], s["routing_heuristic"])
    elif k in ("aux number", "aux storages"):
        if not d["auxiliary_data"]:
            return None
        x = rng.choice(d["auxiliary_data"])
        if k == "aux number":
            x["quantity_in_storages"][0] += 1
        else:
            n = list(range(len(x["storages"])))
            rng.shuffle(n)
            x["storages"] = [x["storages"][i] for i in n]
            if rng.random() < .5:
                x["quantity_in_storages"] = [x["quantity_in_storages"][i] for i in n]
    elif k == "link":
        ls = [p for p in d["process_data"] if p.get("links")]
        if not ls:
            return None
        p = rng.choice(ls)
        if rng.random() < .5 and len(p["links"]) > 1:
            p["links"] = p["links"][1:]
        else:
            p["links"][0] = p["links"][0][::-1]
    elif k == "extra":
        s = rng.choice(["queue_data", "node_data", "time_model_data", "state_data"])
        if not d[s]:
            return None
        o = copy.deepcopy(rng.choice(d[s]))
        o["ID"] += "_again"
        d[s].append(o)
        k += " " + s
    elif k == "setup":
        c = [s for s in d["state_data"] if s.get("origin_setup")]
        if not c:
            return None
        s = rng.choice(c)
        if rng.random() < .5:
            s["origin_setup"], s["target_setup"] = s["target_setup"], s["origin_setup"]
        else:
            f = rng.choice(["origin_setup", "target_setup"])
            s[f] = rng.choice([p["ID"] for p in d["process_data"]])
    elif k == "broken process":
        c = [s for s in d["state_data"] if s.get("process_id")]
        if not c:
            return None
        rng.choice(c)["process_id"] = rng.choice([p["ID"] for p in d["process_data"]])
    return k


def hash_job(key):
    import logging
    logging.disable(logging.CRITICAL)
    from prodsys.adapters import JsonProductionSystemAdapter
    rng = common.rng_for(*key)
    feat = HASH[key[-1] % len(HASH)]
    meta = {"feat": feat, "key": list(key), "error": ""}
    ev, cfg = [], {}
    try:
        base = raw(gen.build(rng, **feats.F[feat]))
        a = make(base)
        cfg = same_cfg(raw(a))
        cfg["hash"] = a.hash()
        for _ in range(14):
            d = copy.deepcopy(base)
            what = vary(d, rng)
            if what is None:
                continue
            b = make(d)
            ev.append({"e": "pair", "what": what, "c": same_cfg(raw(b)), "hash": b.hash(), "strict": False})
    except Exception as e:
        ev.append({"e": "crash", "what": f"{type(e).__name__}: {str(e)[:300]}"})
    return {"cfg": cfg, "ev": ev, "meta": meta}


def setup_scenario():
    """Known finding P24-setup: a setup from P2 to P3, and one from P3 to P2."""
    base = raw(gen.build(common.random.Random(5), **dict(feats.F["base"], setup=1.0, n_processes=(3, 3), n_machines=(1, 1))))
    a = make(base)
    cfg = same_cfg(raw(a))
    cfg["hash"] = a.hash()
    d = copy.deepcopy(base)
    first = d["process_data"][0]["ID"]
    s = [x for x in d["state_data"] if x.get("origin_setup") and first not in (x["origin_setup"], x["target_setup"])][0]
    s["origin_setup"], s["target_setup"] = s["target_setup"], s["origin_setup"]
    b = make(d)
    ev = [{"e": "pair", "what": "setup", "c": same_cfg(raw(b)), "hash": b.hash(), "strict": True}]
    return {"cfg": cfg, "ev": ev, "meta": {"feat": "scenario:setup", "key": [], "error": ""}}


def raw(a):
    """The configuration as dictionaries, from the objects themselves."""
    d = {"ID": a.ID, "seed": a.seed}
    for k in configcheck.SECTIONS:
        d[k] = [json.loads(o.model_dump_json()) for o in getattr(a, k)]
    return d


def make(d):
    from prodsys.adapters import JsonProductionSystemAdapter
    sc = common.Scratch()
    try:
        p = os.path.join(sc.path, "c.json")
        with open(p, "w") as f:
            json.dump(d, f)
        a = JsonProductionSystemAdapter()
        a.read_data(p)
        return a
    finally:
        sc.close()


def hash_check(chk, n):
    traces = common.pmap(hash_job, [(chk.prop, common.seed(), i) for i in range(n)]) + [setup_scenario()]
    configcheck.run(chk, "T_Same", traces, lambda e: str(e["what"]))
