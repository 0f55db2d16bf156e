"""Configuration constants and event projections for the specification's components."""
import re

from observe import T


def base_cfg(a):
    """Constants of a configuration (taken before the simulation touches it)."""
    c = {}
    machines = [r for r in a.resource_data if hasattr(r, "input_queues")]
    agvs = [r for r in a.resource_data if not hasattr(r, "input_queues")]
    stores = [q.ID for q in a.queue_data if hasattr(q, "location")]
    c["machines"] = [r.ID for r in machines]
    c["carriers"] = [r.ID for r in agvs]
    c["stores"] = stores
    c["inq"] = {r.ID: [q for q in r.input_queues if q not in stores] for r in machines}
    c["outq"] = {r.ID: [q for q in r.output_queues if q not in stores] for r in machines}
    c["outst"] = {r.ID: [q for q in r.output_queues if q in stores] for r in machines}
    c["inst"] = {r.ID: [q for q in r.input_queues if q in stores] for r in machines}
    q = {}
    for r in machines:
        for x in c["inq"][r.ID]:
            q[x] = {"kind": "in", "owner": r.ID}
        for x in c["outq"][r.ID]:
            q[x] = {"kind": "out", "owner": r.ID}
    for x in stores:
        q[x] = {"kind": "store", "owner": x}
    for s in a.source_data:
        for x in s.output_queues:
            q[x] = {"kind": "src", "owner": s.ID}
    for s in a.sink_data:
        for x in s.input_queues:
            q[x] = {"kind": "sink", "owner": s.ID}
    c["q"] = q
    c["srcT"] = {s.ID: s.product_type for s in a.source_data}
    c["snkT"] = {s.ID: s.product_type for s in a.sink_data}
    c["ptypes"] = [p.product_type for p in a.product_data]
    return c


def ptype(c, p):
    t = p.rsplit("_", 1)[0]
    return t if t in c["ptypes"] else ""


def flow(c, r):
    """P01: material flow."""
    types = {}

    def isprod(p):
        t = ptype(c, p)
        if t:
            types[p] = t
        return bool(t)
    ev = []
    for e in r.ev:
        k = e["e"]
        if k in ("enq", "deq"):
            if isprod(e["p"]):
                ev.append({"e": k, "t": e["t"], "q": e["q"], "p": e["p"]})
        elif k == "log":
            if e["a"] in ("created product", "finished product") and isprod(e["p"]):
                ev.append({"e": "log", "t": e["t"], "a": e["a"], "p": e["p"], "r": e["r"]})
            elif e["a"] == "start state" and e["y"] == "Production" and isprod(e["p"]):
                ev.append({"e": "log", "t": e["t"], "a": "work", "p": e["p"], "r": e["r"]})
        elif k == "snap":
            ev.append({"e": "snap", "t": e["t"],
                       "q": {q: [p for p in xs if isprod(p)] for q, xs in e["q"].items()},
                       "loc": e["loc"], "fin": e["fin"]})
    ev.append({"e": "end", "fin": r.finished, "open": r.open})
    cfg = {k: c[k] for k in ("q", "srcT", "snkT", "carriers", "machines")}
    cfg["type"] = types
    return cfg, ev


def base_extra(c, a):
    """More constants (called before the simulation)."""
    c["cap"] = {q.ID: int(q.capacity) for q in a.queue_data}
    for x in a.auxiliary_data:
        for s in x.storages:
            c["cap"].pop(s, None)
    c["rcap"] = {r.ID: int(r.capacity) for r in a.resource_data}
    c["procs"] = {r.ID: list(r.process_ids) for r in a.resource_data}
    c["batch"] = {r.ID: int(getattr(r, "batch_size", None) or 0) for r in a.resource_data}
    c["isbatch"] = {r.ID: _v(r.controller) == "BatchController" for r in a.resource_data}
    c["pcap"] = {}
    for r in a.resource_data:
        caps = getattr(r, "process_capacities", None)
        c["pcap"][r.ID] = {p: (int(caps[i]) if caps else int(r.capacity)) for i, p in enumerate(r.process_ids)}
    byid = {p.ID: p for p in a.process_data}
    c["ptype_of"] = {i: _v(p.type) for i, p in byid.items()}
    prov = {}
    for i, p in byid.items():
        if c["ptype_of"][i] == "CapabilityProcesses":
            prov.setdefault(p.capability, []).append(i)
    impl = {}
    for i, p in byid.items():
        t = c["ptype_of"][i]
        if t == "RequiredCapabilityProcesses":
            impl[i] = prov.get(p.capability, [])
        elif t in ("ProductionProcesses", "CapabilityProcesses"):
            impl[i] = [i]
    c["impl"] = impl
    plan = {}
    for p in a.product_data:
        pr = p.processes
        if isinstance(pr, dict):
            plan[p.product_type] = {"k": "dag", "nodes": list(pr), "edges": [[x, y] for x, ys in pr.items() for y in ys]}
        elif pr and isinstance(pr[0], (list, tuple)):
            nodes = []
            for e in pr:
                nodes += [n for n in e if n not in nodes]
            plan[p.product_type] = {"k": "dag", "nodes": nodes, "edges": [list(e) for e in pr]}
        else:
            plan[p.product_type] = {"k": "list", "seq": list(pr)}
    c["plan"] = plan
    c["rework"] = [i for i, t in c["ptype_of"].items() if t == "ReworkProcesses"]
    c["rate"] = {i: float(getattr(p, "failure_rate", 0) or 0) for i, p in byid.items()}
    c["cand"] = {i: [w for w in c["rework"] if i in byid[w].reworked_process_ids] for i in byid}
    c["blockrw"] = {w: bool(byid[w].blocking) for w in c["rework"]}
    c["pb"] = pb_map(a)
    st = {s.ID: s for s in a.state_data}
    c["setup"] = {r.ID: [[s, st[s].origin_setup, st[s].target_setup] for s in r.state_ids
                         if _v(st[s].type) == "SetupState"] for r in a.resource_data}


def _v(x):
    return x.value if hasattr(x, "value") else str(x)


A = {"start state": "start", "end state": "end", "start interrupt": "pause", "end interrupt": "go"}


def work_events(r, kinds=("Production",), acts=("start", "end")):
    for e in r.ev:
        if e["e"] == "log" and e["y"] in kinds and e["a"] in A and A[e["a"]] in acts:
            yield e


def _types(c, r):
    ids = {e["p"] for e in r.ev if e["e"] == "log" and e["a"] == "created product"}
    return {p: ptype(c, p) for p in ids}


flow_pre = base_extra


plan_pre = base_extra


def plan(c, r):
    """P02"""
    ev = []
    for e in r.ev:
        if e["e"] != "log":
            continue
        if e["y"] == "Production" and A.get(e["a"]) in ("start", "end"):
            ev.append({"e": "work", "t": e["t"], "a": A[e["a"]], "r": e["r"], "s": e["s"], "p": e["p"]})
        elif e["a"] == "finished product":
            ev.append({"e": "fin", "t": e["t"], "p": e["p"]})
    cfg = {"plan": c["plan"], "impl": c["impl"], "off": c["procs"], "rework": c["rework"], "type": _types(c, r)}
    return cfg, ev


rework_pre = base_extra


def rework(c, r):
    """P03"""
    _, ev = plan(c, r)
    rate = {i: ("always" if x >= 1 else "maybe" if x > 0 else "never") for i, x in c["rate"].items()}
    block = {i: any(c["blockrw"][w] for w in ws) for i, ws in c["cand"].items()}
    steps = {t: len(pl["seq"] if pl["k"] == "list" else pl["nodes"]) for t, pl in c["plan"].items()}
    return {"rate": rate, "cand": c["cand"], "block": block, "rework": c["rework"], "steps": steps,
            "type": _types(c, r)}, ev


buffer_pre = base_extra


def buffer(c, r):
    """P04"""
    ev = []
    target = {}
    for m in c["machines"]:
        target[m] = c["inq"][m][0]
    for s in c["stores"]:
        target[s] = s
    for q, d in c["q"].items():
        if d["kind"] == "sink":
            target[d["owner"]] = q
    goal = {}
    for e in r.ev:
        k = e["e"]
        if k == "req" and e["k"] == "trans" and ptype(c, e["p"]):
            goal[e["p"]] = e["g"]
            ev.append({"e": "order", "t": e["t"], "p": e["p"], "g": e["g"]})
        elif k in ("enq", "deq") and ptype(c, e["p"]):
            ev.append({"e": k, "t": e["t"], "q": e["q"], "p": e["p"]})
        elif k == "log" and e["a"] == "end state" and ptype(c, e["p"]):
            if e["y"] == "Production":
                ev.append({"e": "ready", "t": e["t"], "p": e["p"], "q": c["outq"][e["r"]][0]})
            elif e["y"] == "Transport" and not e["em"] and goal.get(e["p"]) == e["g"]:
                ev.append({"e": "ready", "t": e["t"], "p": e["p"], "q": target[e["g"]]})
        elif k == "snap":
            ev.append({"e": "snap", "t": e["t"], "full": e["full"]})
    kind = {q: d["kind"] for q, d in c["q"].items()}
    return {"cap": c["cap"], "kind": kind, "target": target}, ev


capacity_pre = base_extra


def capacity(c, r):
    """P05"""
    ev = []
    goal = {}
    for e in r.ev:
        k = e["e"]
        if k == "req" and e["k"] == "trans":
            goal[e["p"]] = e["g"]
        elif k == "log" and e["a"] in ("start state", "end state"):
            if e["y"] in ("Production", "Transport"):
                a = A[e["a"]]
                ev.append({"e": "work", "t": e["t"], "a": a, "r": e["r"], "s": e["s"], "p": e["p"]})
                if e["y"] == "Transport" and not e["em"]:
                    ev.append({"e": "carry", "t": e["t"], "r": e["r"], "p": e["p"]})
                    if a == "end" and goal.get(e["p"]) == e["g"]:
                        ev.append({"e": "drop", "t": e["t"], "p": e["p"]})
        elif k == "deq" and c["q"][e["q"]]["kind"] == "in":
            ev.append({"e": "take", "t": e["t"], "r": c["q"][e["q"]]["owner"], "p": e["p"]})
        elif k == "enq" and c["q"][e["q"]]["kind"] == "out":
            ev.append({"e": "give", "t": e["t"], "r": c["q"][e["q"]]["owner"], "p": e["p"]})
    hold = {m: (0 if c["isbatch"][m] else c["rcap"][m]) for m in c["machines"]}
    return {"cap": c["rcap"], "pcap": c["pcap"], "hold": hold}, ev


setup_pre = base_extra


def setup(c, r):
    """P08"""
    ev = []
    for e in r.ev:
        if e["e"] == "log" and e["a"] in ("start state", "end state"):
            if e["y"] == "Production":
                ev.append({"e": "work", "t": e["t"], "a": A[e["a"]], "r": e["r"], "s": e["s"], "p": e["p"]})
            elif e["y"] == "Setup":
                ev.append({"e": "setup", "t": e["t"], "a": A[e["a"]], "r": e["r"], "s": e["s"]})
        elif e["e"] == "snap":
            ev.append({"e": "snap", "t": e["t"], "setup": {m: e["setup"][m] for m in c["machines"]}})
    return {"setup": c["setup"]}, ev


interrupt_pre = base_extra


def pb_map(a):
    st = {s.ID: s for s in a.state_data}
    return {r.ID: {s: st[s].process_id for s in r.state_ids if _v(st[s].type) == "ProcessBreakDownState"}
            for r in a.resource_data}


def interrupt(c, r):
    """P06 / P07"""
    ev = []
    for e in r.ev:
        if e["e"] == "log" and e["a"] in A and e["y"] in ("Production", "Transport", "Setup", "Breakdown", "ProcessBreakdown"):
            ev.append({"e": "st", "t": e["t"], "a": A[e["a"]], "r": e["r"], "s": e["s"], "y": e["y"],
                       "p": e["p"] if e["y"] in ("Production", "Transport") else "", "x": e["x"]})
        elif e["e"] == "snap":
            ev.append({"e": "snap", "t": e["t"]})
    return {"pb": c["pb"]}, ev


def _pos(x):
    return [T(v) for v in x]


def tm_values(a, i):
    """[kind, values]: the values a time model can produce (scaled), or 'any'."""
    m = {t.ID: t for t in a.time_model_data}[i]
    if hasattr(m, "samples"):
        return "vals", [T(v) for v in m.samples]
    if hasattr(m, "schedule"):
        return "vals", [T(v) for v in m.schedule]
    if hasattr(m, "distribution_function"):
        d = _v(m.distribution_function)
        if d == "constant":
            return "vals", [T(m.location)]
        return "any", []
    return "any", []


def move_pre(c, a):
    base_extra(c, a)
    pl = {}
    for r in a.resource_data:
        if hasattr(r, "input_queues"):
            pl[r.ID] = {"loc": _pos(r.location), "inp": _pos(r.input_location or r.location),
                        "out": _pos(r.output_location or r.location), "kind": "machine"}
    for q in a.queue_data:
        if hasattr(q, "location"):
            pl[q.ID] = {"loc": _pos(q.location), "inp": _pos(q.input_location or q.location),
                        "out": _pos(q.output_location or q.location), "kind": "store"}
    for lst, kind in ((a.source_data, "source"), (a.sink_data, "sink"), (a.node_data, "node")):
        for x in lst or []:
            pl[x.ID] = {"loc": _pos(x.location), "inp": _pos(x.location), "out": _pos(x.location), "kind": kind}
    c["place"] = pl
    c["cinit"] = {r.ID: _pos(r.location) for r in a.resource_data if not hasattr(r, "input_queues")}
    tms = {t.ID: t for t in a.time_model_data}
    tp = {}
    for p in a.process_data:
        if _v(p.type) not in ("TransportProcesses", "LinkTransportProcesses"):
            continue
        m = tms[p.time_model_id]
        d = {"link": _v(p.type) == "LinkTransportProcesses", "links": [list(x) for x in getattr(p, "links", None) or []],
             "num": 1, "den": 1, "react": 0, "metric": "", "vals": []}
        if hasattr(m, "speed"):
            n, k = float(m.speed).as_integer_ratio()
            d.update(model="dist", num=n, den=k, react=T(m.reaction_time), metric=_v(m.metric))
        else:
            d["model"], d["vals"] = tm_values(a, p.time_model_id)
        d["mean"] = tm_mean(a, p.time_model_id) or 0
        for f, key in (("loading_time_model_id", "load"), ("unloading_time_model_id", "unload")):
            i = getattr(p, f, None)
            if i:
                k, v = tm_values(a, i)
                d[key] = v if k == "vals" else [-1]
            else:
                d[key] = [0]
        tp[p.ID] = d
    c["tp"] = tp


def move(c, r):
    """P09 / P10"""
    ev = []
    running = set()
    for e in r.ev:
        k = e["e"]
        if k == "req" and e["k"] == "trans":
            ev.append({"e": "order", "t": e["t"], "r": e["r"], "p": e["p"], "o": e["o"], "g": e["g"]})
        elif k == "log" and e["y"] == "Transport" and e["a"] in ("start state", "end state"):
            key = (e["r"], e["s"], e["p"])
            if e["a"] == "start state":
                if key in running:
                    continue
                running.add(key)
            elif key in running:
                running.discard(key)
            a = A[e["a"]]
            ev.append({"e": "leg", "t": e["t"], "a": a, "r": e["r"], "s": e["s"], "p": e["p"], "em": e["em"],
                       "o": e["o"], "g": e["g"], "x": e["x"] if a == "start" else e["t"]})
        elif k == "deq" and c["q"][e["q"]]["kind"] in ("out", "src", "store"):
            ev.append({"e": "take", "t": e["t"], "q": e["q"], "p": e["p"]})
        elif k == "enq" and c["q"][e["q"]]["kind"] in ("in", "sink", "store"):
            if e["t"] == 0 and not ptype(c, e["p"]):
                continue            # auxiliaries initially in their storages
            ev.append({"e": "place", "t": e["t"], "q": e["q"], "p": e["p"]})
        elif k == "snap":
            ev.append({"e": "snap", "t": e["t"], "pos": e["pos"], "final": e.get("final", 0)})
    cfg = {"place": c["place"], "init": c["cinit"], "q": c["q"], "tp": c["tp"], "route": True, "dur": True}
    return cfg, ev


def tm_mean(a, i):
    """Expected value of a time model (scaled), None for distances."""
    m = {t.ID: t for t in a.time_model_data}[i]
    if hasattr(m, "samples"):
        return T(sum(m.samples) / len(m.samples))
    if hasattr(m, "schedule"):
        s = m.schedule
        if m.absolute:
            s = [s[0]] + [s[k] - s[k - 1] for k in range(1, len(s))]
        return T(sum(s) / len(s))
    if hasattr(m, "distribution_function"):
        return T(m.location)
    return None


POL = {"Nearest_origin_and_longest_target_queues_transport": "nearest_out",
       "Nearest_origin_and_shortest_target_input_queues_transport": "nearest_in"}


def policy_pre(c, a):
    move_pre(c, a)
    c["pol"] = {}
    for r in a.resource_data:
        v = _v(r.control_policy)
        c["pol"][r.ID] = POL.get(v, v)
    c["pt"] = {p.ID: tm_mean(a, p.time_model_id) or 0 for p in a.process_data if getattr(p, "time_model_id", None)}
    c["outs"], c["ins"] = {}, {}
    for r in a.resource_data:
        if hasattr(r, "input_queues"):
            c["outs"][r.ID] = list(r.output_queues)
            c["ins"][r.ID] = list(r.input_queues)
    for s in a.source_data:
        c["outs"][s.ID], c["ins"][s.ID] = list(s.output_queues), []
    for s in a.sink_data:
        c["outs"][s.ID], c["ins"][s.ID] = [], []
    for q in a.queue_data:
        if hasattr(q, "location"):
            c["outs"][q.ID], c["ins"][q.ID] = [q.ID], [q.ID]


def policy(c, r):
    """P11"""
    ev = []
    for e in r.ev:
        k = e["e"]
        if k == "req":
            ev.append({x: e[x] for x in ("e", "t", "n", "r", "p", "pr", "k", "o", "g")})
        elif k in ("enq", "deq"):
            ev.append({"e": k, "t": e["t"], "q": e["q"], "p": e["p"]})
        elif k == "snap":
            ev.append({"e": "snap", "t": e["t"], "w": {x: w for x, w in e["w"].items() if x in c["pol"]}, "pos": e["pos"]})
    return {**{k: c[k] for k in ("pol", "pt", "tp", "place", "outs", "ins")}, "type": _types(c, r),
            "bsize": {x: (c["batch"][x] if c["isbatch"][x] else 0) for x in c["pol"]}}, ev


def route_pre(c, a):
    base_extra(c, a)
    c["heur"] = {s.ID: _v(s.routing_heuristic) for s in a.source_data}
    c["tset"], c["net"] = transport_ways(a)
    c["allin"] = {r.ID: list(r.input_queues) for r in a.resource_data if hasattr(r, "input_queues")}
    for q in a.queue_data:      # auxiliary storages are queues without an announced capacity here
        c["cap"].setdefault(q.ID, 0)


def transport_ways(a):
    """for every product type the transport processes it may use; for every link process its connected parts"""
    byid = {p.ID: p for p in a.process_data}
    tset, net = {}, {}
    for p in a.product_data:
        x = byid[p.transport_process]
        if _v(x.type) == "RequiredCapabilityProcesses":
            tset[p.product_type] = [i for i, y in byid.items() if _v(y.type) == "LinkTransportProcesses" and y.capability == x.capability]
        else:
            tset[p.product_type] = [x.ID]
    for i, y in byid.items():
        if _v(y.type) == "LinkTransportProcesses":
            parts = []
            for l in y.links:
                hit = [q for q in parts if set(l) & q]
                parts = [q for q in parts if q not in hit] + [set(l).union(*hit)]
            net[i] = [sorted(q) for q in parts]
    return tset, net


def targets(c):
    t = {m: c["inq"][m][0] for m in c["machines"]}
    t.update({s: s for s in c["stores"]})
    for q, d in c["q"].items():
        if d["kind"] == "sink":
            t[d["owner"]] = q
    return t


def route(c, r):
    """P12"""
    ev = []
    nextpr = {}                     # product -> its next production request (read backwards)
    look = [None] * len(r.ev)
    for i in range(len(r.ev) - 1, -1, -1):
        e = r.ev[i]
        if e["e"] == "req":
            if e["k"] == "prod":
                nextpr[e["p"]] = e["pr"]
            elif e["g"] in c["machines"]:
                look[i] = nextpr.get(e["p"], "")
                nextpr.pop(e["p"], None)
            else:
                nextpr.pop(e["p"], None)
    for i, e in enumerate(r.ev):
        k = e["e"]
        if k == "log" and e["a"] == "created product":
            ev.append({"e": "new", "t": e["t"], "p": e["p"], "r": e["r"]})
        elif k == "req" and not ptype(c, e["p"]):
            ev.append({"e": "other", "t": e["t"], "r": e["r"], "n": e["n"]})
        elif k == "req" and e["k"] == "trans":
            ev.append({"e": "order", "t": e["t"], "n": e["n"], "p": e["p"], "r": e["r"], "o": e["o"], "g": e["g"], "tp": e["pr"], "pr": look[i] or ""})
        elif k == "req":
            ev.append({"e": "use", "t": e["t"], "p": e["p"], "r": e["r"], "pr": e["pr"]})
        elif k in ("enq", "deq") and ptype(c, e["p"]):
            ev.append({"e": k, "t": e["t"], "q": e["q"], "p": e["p"]})
        elif k == "snap":
            ev.append({"e": "snap", "t": e["t"], "w": {x: e["w"][x] for x in c["carriers"]}, "final": e.get("final", 0)})
    steps = {t: (pl["seq"] if pl["k"] == "list" else pl["nodes"]) for t, pl in c["plan"].items()}
    cfg = {"mach": c["machines"], "carr": c["carriers"], "procs": c["procs"], "impl": c["impl"], "rework": c["rework"],
           "ins": c["allin"], "cap": c["cap"], "target": targets(c), "heur": c["heur"], "steps": steps,
           "tset": c["tset"], "net": c["net"] or {"": []}, "type": _types(c, r)}
    return cfg, ev


# ---------------------------------------------------------------- P13 batches

batch_pre = base_extra


def batch(c, r):
    """P13"""
    size = {m: c["batch"][m] for m in c["machines"]
            if c["isbatch"][m]}
    ev = []
    for e in r.ev:
        if e["e"] == "deq" and c["q"][e["q"]]["kind"] == "in" and c["q"][e["q"]]["owner"] in size:
            ev.append({"e": "take", "t": e["t"], "r": c["q"][e["q"]]["owner"], "p": e["p"]})
        elif e["e"] == "log" and e["y"] == "Production" and e["a"] in ("start state", "end state") and e["r"] in size:
            ev.append({"e": "work", "t": e["t"], "a": A[e["a"]], "r": e["r"], "s": e["s"], "p": e["p"], "x": e["x"]})
        elif e["e"] == "snap":
            ev.append({"e": "snap", "t": e["t"]})
    one = [m for m in size if 2 * size[m] > c["rcap"][m]]
    return {"size": size, "one": one, "type": _types(c, r)}, ev


# ------------------------------------------------------------- P14 auxiliaries

def aux_pre(c, a):
    base_extra(c, a)
    c["auxof"] = {p.product_type: [x for x in (p.auxiliaries or [])] for p in a.product_data}
    c["auxcount"] = {x.auxiliary_type: {s: int(n) for s, n in zip(x.storages, x.quantity_in_storages)} for x in a.auxiliary_data}


def aux(c, r):
    """P14"""
    ev, at, born = [], {}, {}
    for e in r.ev:
        k = e["e"]
        isaux = k in ("enq", "deq", "log", "req") and e["p"].rsplit("_", 1)[0] in c["auxcount"]
        x = e.get("p")
        if k == "log" and e["a"] == "created auxiliary":
            at[x] = x.rsplit("_", 1)[0]
            ev.append({"e": "make", "t": e["t"], "x": x, "q": e["r"]})
        elif k == "log" and e["a"] == "started auxiliary usage":
            ev.append({"e": "use", "t": e["t"], "x": x})
        elif k == "log" and e["a"] == "finished auxiliary usage":
            ev.append({"e": "free", "t": e["t"], "x": x})
        elif k == "log" and e["a"] == "created product":
            born[x] = e["r"]
            ev.append({"e": "new", "t": e["t"], "p": x})
        elif k == "log" and e["a"] == "finished product":
            ev.append({"e": "fin", "t": e["t"], "p": x, "r": e["r"]})
        elif isaux and k == "enq":
            ev.append({"e": "put", "t": e["t"], "x": x, "q": e["q"]})
        elif isaux and k == "deq":
            ev.append({"e": "take", "t": e["t"], "x": x, "q": e["q"]})
        elif isaux and k == "req":
            ev.append({"e": "order", "t": e["t"], "x": x, "o": e["o"], "g": e["g"]})
        elif k == "log" and e["y"] == "Transport" and isaux and not e["em"]:
            if e["a"] == "start state":
                ev.append({"e": "leg", "t": e["t"], "x": x})
            elif e["a"] == "end state":
                ev.append({"e": "arrive", "t": e["t"], "x": x, "g": e["g"]})
        elif k == "log" and e["y"] == "Production" and e["a"] == "start state" and ptype(c, x):
            ev.append({"e": "work", "t": e["t"], "p": x})
        elif k == "snap":
            ev.append({"e": "snap", "t": e["t"], "aux": e["aux"]})
    return {"need": c["auxof"], "type": _types(c, r), "atype": at, "count": c["auxcount"], "born": born}, ev


# ---------------------------------------------------------------- P15 charging

def _exact(a, r, k, v):
    """The use of the battery of a machine is a sum of numbers without rounding: one battery time, dyadic durations."""
    if k != "vals" or len(set(v)) != 1 or not hasattr(r, "input_queues") or v[0] % T(0.125):
        return False
    tmi = {p.ID: getattr(p, "time_model_id", None) for p in a.process_data}
    for i in r.process_ids:
        k, w = tm_values(a, tmi[i]) if tmi.get(i) else ("any", [])
        if k != "vals" or any(x % T(0.125) for x in w):
            return False
    return True


def charge_pre(c, a):
    base_extra(c, a)
    st = {s.ID: s for s in a.state_data}
    c["batt"], c["chdur"] = {}, {}
    for r in a.resource_data:
        ch = [st[s] for s in r.state_ids if _v(st[s].type) == "ChargingState"]
        if len(ch) != 1:
            continue
        k, v = tm_values(a, ch[0].battery_time_model_id)
        if k != "vals":
            v = [0, 10 ** 8]
        c["batt"][r.ID] = {"lo": int(min(v) * 0.9), "hi": int(max(v) * 0.9) + 1, "exact": False}
        if _exact(a, r, k, v):      # the least use (in ticks) with which the battery counts as used up
            h = int(v[0] * 0.9) - 2
            while h / T(1) < (1 - 0.1) * (v[0] / T(1)):
                h += 1
            c["batt"][r.ID] = {"lo": h, "hi": h, "exact": True}
        k, v = tm_values(a, ch[0].time_model_id)
        c["chdur"][r.ID] = v if k == "vals" else []


def charge(c, r):
    """P15"""
    ev = []
    for e in r.ev:
        if e["e"] == "log" and e["a"] in A and e["r"] in c["batt"]:
            d = {"t": e["t"], "a": A[e["a"]], "r": e["r"], "s": e["s"], "x": e["x"]}
            if e["y"] in ("Production", "Transport"):
                ev.append(dict(d, e="work", y=e["y"], p=e["p"]))
            elif e["y"] == "Setup":
                ev.append(dict(d, e="work", y=e["y"], p=""))
            elif e["y"] == "Charging":
                ev.append(dict(d, e="charge"))
        elif e["e"] == "snap":
            ev.append({"e": "snap", "t": e["t"]})
    return {"batt": c["batt"], "dur": c["chdur"], "cap": c["rcap"]}, ev


# ---------------------------------------------------------------- P16 progress

def progress_pre(c, a):
    route_pre(c, a)
    charge_pre(c, a)
    c["auxof"] = {p.product_type: [x for x in (p.auxiliaries or [])] for p in a.product_data}


def progress(c, r):
    """P16"""
    ev = []
    goal = {}
    tq = targets(c)
    for e in r.ev:
        k, t = e["e"], e.get("t", 0)
        p = e.get("p", "")
        if k == "req":
            goal[p] = e["g"] if e["k"] == "trans" else e["r"]
            ev.append({"e": "req", "t": t, "n": e["n"], "r": e["r"], "p": p, "pr": e["pr"], "k": e["k"], "g": e["g"], "ty": ptype(c, p)})
        elif k == "enq":
            d = c["q"][e["q"]]
            if p in goal and d["owner"] == goal[p]:
                ev.append({"e": "here", "t": t, "p": p})
        elif k == "log":
            y, a = e["y"], e["a"]
            if a == "created product":
                ev.append({"e": "new", "t": t, "p": p, "ty": ptype(c, p)})
            elif a == "finished product":
                ev.append({"e": "fin", "t": t, "p": p})
            elif a in A and y in ("Production", "Transport"):
                last = y == "Production" or (not e["em"] and e["g"] == goal.get(p))
                ev.append({"e": "work", "t": t, "a": A[a], "r": e["r"], "s": e["s"], "p": p, "x": e["x"], "last": last})
                if last and A[a] == "end" and y == "Transport" and not ptype(c, p) and goal[p] not in c["stores"]:
                    ev.append({"e": "here", "t": t, "p": p})       # an auxiliary has been handed to its product
            elif a in A and y == "Setup":
                ev.append({"e": "setup", "t": t, "a": A[a], "r": e["r"], "s": e["s"], "x": e["x"]})
            elif a in A and y == "Charging":
                ev.append({"e": "charge", "t": t, "a": A[a], "r": e["r"]})
            elif a in A and y in ("Breakdown", "ProcessBreakdown"):
                ev.append({"e": "down", "t": t, "a": A[a], "r": e["r"], "s": e["s"]})
        elif k == "snap":
            ax = {x: v[1] for x, v in e["aux"].items() if v[1]}
            of = [q for m in c["machines"] for q in c["outq"][m] if 0 < c["cap"].get(q, 0) <= len(e["q"][q])]
            sit = {"": "", **{x: m for m in c["machines"] for q in c["outq"][m] for x in e["q"][q]}}
            ev.append({"e": "snap", "sit": sit, "t": t, "w": e["w"], "full": e["full"], "outfull": of, "alive": e["alive"], "auxof": ax, "served": sorted(set(ax.values()))})
    dest = {}
    stores = sorted({s for m in c["machines"] for s in c["outst"][m] + c["inst"][m]})
    for t, pl in c["plan"].items():
        steps = (pl["seq"] if pl["k"] == "list" else pl["nodes"]) + c["rework"]
        ms = [m for m in c["machines"] if any(i in c["procs"][m] for s in steps for i in c["impl"].get(s, [s]))]
        dest[t] = [q for m in ms for q in c["inq"][m]] + stores
    setups = {m: bool(c["setup"][m]) for m in c["machines"]}
    plain = not c["rework"] and all(len(x) == 1 and set(c["machines"]) <= set(x[0]) for x in c["net"].values())
    steps = {t: [[m for m in c["machines"] if any(i in c["procs"][m] for i in c["impl"].get(x, [x]))] for x in pl["seq"]]
             if plain and pl["k"] == "list" else [] for t, pl in c["plan"].items()}
    cfg = {"mach": c["machines"], "carr": c["carriers"], "cap": c["rcap"], "steps": steps, "allin": c["allin"],
           "outst": {m: c["outst"][m] for m in c["machines"]},
           "batch": {x: (max(1, c["batch"][x]) if c["isbatch"][x] else 0) for x in c["rcap"]},
           "pcap": c["pcap"], "outq": {m: c["outq"][m][0] for m in c["machines"]}, "dest": dest, "need": c["auxof"], "setups": setups,
           "batt": list(c["batt"])}
    return cfg, ev


# ---------------------------------------------------------------- P17 event log

def log_pre(c, a):
    base_extra(c, a)
    byid = {s.ID: s for s in a.state_data}
    name = {"BreakDownState": "Breakdown", "ProcessBreakDownState": "ProcessBreakdown", "SetupState": "Setup", "ChargingState": "Charging"}
    c["states"] = {r.ID: list(r.process_ids) + list(r.state_ids) for r in a.resource_data}
    stype = {}
    for p in a.process_data:
        stype[p.ID] = "Transport" if "Transport" in c["ptype_of"][p.ID] else "Production"
    for i, s in byid.items():
        stype[i] = name[_v(s.type)]
    c["stype"] = stype
    c["auxn"] = sum(sum(x.quantity_in_storages) for x in a.auxiliary_data)
    c["axtypes"] = [x.auxiliary_type for x in a.auxiliary_data]
    c["sources"] = [x.ID for x in a.source_data]
    c["sinks"] = [x.ID for x in a.sink_data]


def log(c, r):
    """P17"""
    import os
    import shutil
    import tempfile
    import observe
    keep = ("e", "t", "n", "r", "s", "y", "a", "p", "x", "o", "g")
    ev = [{k: e[k] for k in keep} for e in r.ev if e["e"] == "log"]
    aux = sorted({e["p"] for e in ev if e["a"] == "created auxiliary"})
    rec, rec2 = [x[0] for x in r.rows], [x[1] for x in r.rows]
    if rec and not r.error:
        lg = r.runner.event_logger
        df = lg.get_data_as_dataframe()
        ev.append({"e": "table", "w": "data frame", "t": 0, "rec": rec,
                   "tab": [observe.row_text(x) for x in df.to_dict("records")]})
        if r.finished:
            es = r.runner.get_event_data_of_simulation()
            ev.append({"e": "table", "w": "event data", "t": 0, "rec": rec2, "tab": [observe.row_text(
                {"Time": x.time, "Resource": x.resource, "State": x.state, "State Type": x.state_type, "Activity": x.activity,
                 "Product": x.product, "Expected End Time": x.expected_end_time if x.expected_end_time != -1 else None,
                 "Target location": x.target_location}, observe.EVENT_COLUMNS) for x in es]})
        d = tempfile.mkdtemp(prefix="prodsys_verif_csv_")
        try:
            from prodsys.util.post_processing import PostProcessor
            f = os.path.join(d, "run.csv")
            lg.log_data_to_csv(f)
            pp = PostProcessor(filepath=f)
            ev.append({"e": "table", "w": "saved file", "t": 0, "rec": rec,
                       "tab": [observe.row_text(x) for x in pp.df_raw.to_dict("records")]})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ev.append({"e": "final", "t": T(r.horizon)})
    cfg = {k: c[k] for k in ("states", "stype", "sources", "sinks")}
    cfg["aux"] = aux
    return cfg, ev


# ---------------------------------------------------------------- P19 arrivals and durations

def tm_spec(m):
    """A time model as the component sees it."""
    if hasattr(m, "schedule"):
        return {"k": "sched", "v": [T(x) for x in m.schedule], "abs": bool(m.absolute), "cyc": bool(m.cyclic)}
    if hasattr(m, "samples"):
        return {"k": "set", "v": [T(x) for x in m.samples], "abs": False, "cyc": False}
    if _v(getattr(m, "distribution_function", "")) == "constant":
        return {"k": "set", "v": [T(m.location)], "abs": False, "cyc": False}
    return {"k": "any", "v": [], "abs": False, "cyc": False}


def arrive_pre(c, a):
    base_extra(c, a)
    c["tm"] = {m.ID: tm_spec(m) for m in a.time_model_data}
    c["src"] = {x.ID: x.time_model_id for x in a.source_data}
    c["ptm"] = {p.ID: p.time_model_id for p in a.process_data if getattr(p, "time_model_id", None)}
    c["stm"] = {x.ID: x.time_model_id for x in a.state_data}
    c["rtm"] = {x.ID: x.repair_time_model_id for x in a.state_data if hasattr(x, "repair_time_model_id")}


def arrive(c, r):
    """P19"""
    ev = []
    open_, last_down = set(), {}
    for e in r.ev:
        if e["e"] != "log":
            continue
        y, a, t = e["y"], e["a"], e["t"]
        if a == "created product":
            ev.append({"e": "new", "t": t, "r": e["r"], "p": e["p"], "ty": ptype(c, e["p"])})
        elif y in ("Production", "Setup", "Charging"):
            k = (e["r"], e["s"], e["p"])
            if a == "start state" and k not in open_:
                open_.add(k)
                tm = c["ptm"][e["s"]] if y == "Production" else c["stm"][e["s"]]
                ev.append({"e": "dur", "w": {"Production": "a process", "Setup": "a setup", "Charging": "a charging"}[y], "t": t, "tm": tm, "d": e["x"] - t})
            elif a == "end state":
                open_.discard(k)
        elif y in ("Breakdown", "ProcessBreakdown") and a in ("start state", "end state"):
            k = (e["r"], e["s"])
            if a == "start state":
                ev.append({"e": "dur", "w": "a repair", "t": t, "tm": c["rtm"][e["s"]], "d": e["x"] - t})
                ev.append({"e": "dur" if y == "Breakdown" else "mindur", "w": "the time to a breakdown", "t": t, "tm": c["stm"][e["s"]],
                           "d": t - last_down.get(k, 0)})
            else:
                last_down[k] = t
    ev.append({"e": "end", "t": T(r.horizon)})
    cfg = {"tm": c["tm"], "src": c["src"], "ty": c["srcT"]}
    return cfg, ev


# ---------------------------------------------------------------- P20 / P21 evaluation of the log

def _kinds(df):
    v = {}
    for x in df.to_dict("records"):
        v.setdefault(x["Resource"], {})[x["Time_type"]] = T(x["time_increment"])
    return v


def states_pre(c, a):
    c["res"] = [r.ID for r in a.resource_data]


def states(c, r):
    """P21"""
    keep = ("e", "t", "r", "s", "y", "a", "p")
    ev = [{k: e[k] for k in keep} for e in r.ev if e["e"] == "log" and e["a"] in
          ("start state", "end state", "start interrupt", "end interrupt", "created product", "finished product")]
    if ev and not r.error:
        end = max(e["t"] for e in ev)
        try:
            pp = r.runner.get_post_processor()
            df = pp.df_aggregated_resource_states
            ev.append({"e": "states", "t": end, "v": _kinds(df)})
            d = {(x["Resource"], x["Time_type"]): T(x["time_increment"]) for x in df.to_dict("records")}
            ev.append({"e": "pct", "t": end, "w": "table", "v": [
                {"r": x["Resource"], "k": x["Time_type"], "d": T(x["time_increment"]), "pct": round(x["percentage"] * 100)} for x in df.to_dict("records")]})
            code = {"standby_time": "SB", "productive_time": "PR", "unscheduled_downtime": "UD", "setup_time": "ST", "charging_time": "CR"}
            ev.append({"e": "pct", "t": end, "w": "KPI", "v": [
                {"r": k.resource, "k": code[_v(k.name)], "d": d.get((k.resource, code[_v(k.name)]), -1), "pct": round(k.value * 100)} for k in pp.machine_state_KPIS]})
        except Exception as e:
            r.error = f"{type(e).__name__}: {str(e)[:200]}"
    return {"res": c["res"], "strict": c.get("strict", 0)}, ev


def kpi_pre(c, a):
    base_extra(c, a)
    c["axtypes"] = [x.auxiliary_type for x in a.auxiliary_data]


def _per(n, thr):
    """the time a throughput refers to (-1: not defined)"""
    try:
        return T(float(n) / float(thr)) if thr == thr and thr not in (0, float("inf")) else -1
    except ZeroDivisionError:
        return -1


def _out(pp, w, cut):
    o = pp.df_aggregated_output_and_throughput
    t = pp.df_aggregated_throughput_time
    n = pp.df_aggregated_output
    yield {"e": "out", "w": w + " tables", "t": 0, "cut": cut, "v": {
        y: {"n": int(n.get(y, -1)), "tpt": T(t[y]), "per": _per(n[y], o["Throughput"][y])} for y in o.index}}
    v = {}
    name = {"throughput": "thr", "output": "n", "throughput_time": "tpt"}
    for k in pp.throughput_and_output_KPIs + pp.aggregated_throughput_time_KPIs:
        v.setdefault(k.product_type, {})[name[_v(k.name)]] = k.value
    yield {"e": "out", "w": w + " KPIs", "t": 0, "cut": cut, "v": {
        y: {"n": int(x["n"]), "tpt": T(x["tpt"]), "per": _per(x["n"], x["thr"])} for y, x in v.items()}}
    d = pp.get_aggregated_data()
    ty = d["Throughput"]["Product_type"]
    tt = {d["Throughput time"]["Product_type"][i]: d["Throughput time"]["Throughput_time"][i] for i in d["Throughput time"]["Product_type"]}
    yield {"e": "out", "w": w + " dictionary", "t": 0, "cut": cut, "v": {
        ty[i]: {"n": int(d["Throughput"]["Output"][i]), "tpt": T(tt[ty[i]]), "per": _per(d["Throughput"]["Output"][i], d["Throughput"]["Throughput"][i])} for i in ty}}
    ys = sorted(ty.values())
    yield {"e": "out", "w": w + " lists", "t": 0, "cut": cut, "v": {
        y: {"n": int(x), "tpt": T(z), "per": -1} for y, x, z in zip(ys, pp.get_aggregated_throughput_data(), pp.get_aggregated_throughput_time_data())}}


def _wip_rows(df):
    last = {}
    for t, w in zip(df["Time"], df["WIP"]):
        last[T(t)] = w
    return [{"t": t, "wip": int(w)} for t, w in sorted(last.items())]


def kpi(c, r):
    """P20"""
    import os
    import shutil
    import tempfile
    from prodsys.util.post_processing import PostProcessor
    ev, used, created = [], 0, set()
    for e in r.ev:
        if e["e"] != "log":
            continue
        a, y, p, t = e["a"], e["y"], e["p"], e["t"]
        ty = ptype(c, p) if p else ""
        if a == "created product":
            ev.append({"e": "new", "t": t, "p": p, "ty": ty})
            created.add(ty)
        elif a == "finished product":
            ev.append({"e": "fin", "t": t, "p": p})
        elif a in ("started auxiliary usage", "finished auxiliary usage"):
            used += 1 if a[0] == "s" else -1
            ev.append({"e": "auxuse", "t": t, "n": used})
        elif ty and y in ("Production", "Transport") and a in ("start state", "end state", "start interrupt", "end interrupt"):
            ev.append({"e": "work" if y == "Production" else "move", "t": t, "a": a, "r": e["r"], "s": e["s"], "p": p})
    fin = any(e["e"] == "fin" for e in ev)
    if r.rows and not r.error:
        d = tempfile.mkdtemp(prefix="prodsys_verif_kpi_")
        try:
            f = os.path.join(d, "run.csv")
            r.runner.event_logger.log_data_to_csv(f)
            raw = r.runner.event_logger.get_data_as_dataframe()
            for w, pp in (("run", r.runner.get_post_processor()), ("saved file", PostProcessor(filepath=f))):
                ev.append({"e": "tp", "w": w, "t": 0, "v": [
                    {"p": x["Product"], "ty": x["Product_type"], "s": T(x["Start_time"]), "e": T(x["End_time"]), "d": T(x["Throughput_time"])}
                    for x in pp.df_throughput.to_dict("records")]})
                if fin:
                    ev += list(_out(pp, w, 0))
                if w == "run":
                    ev.append({"e": "dyn", "t": 0, "v": [{"p": k.product, "ty": k.product_type, "s": T(k.start_time), "e": T(k.end_time), "d": T(k.value)}
                                                         for k in pp.dynamic_thoughput_time_KPIs]})
                    if created:
                        m = {k.product_type: k.value for k in pp.WIP_KPIs}
                        ev.append({"e": "wips", "t": 0, "v": sorted("Total" if x == "all_products" else x for x in m)})
                        ev.append({"e": "wip", "w": "total", "y": "", "t": 0, "v": _wip_rows(pp.df_WIP), "mean": T(m.get("all_products", -.001))})
                        per = pp.df_WIP_per_product
                        for y in sorted(created):
                            ev.append({"e": "wip", "w": "product type", "y": y, "t": 0, "v": _wip_rows(per.loc[per["Product_type"] == y]), "mean": T(m.get(y, -.001))})
                        dyn = {}
                        for k in pp.dynamic_WIP_KPIs:
                            dyn.setdefault(k.product_type, []).append({"s": T(k.start_time), "e": T(k.end_time), "wip": int(k.value)})
                        for y in ["Total"] + sorted(created):
                            ev.append({"e": "dynwip", "y": y, "t": 0, "v": dyn.get(y, [])})
                    if fin:
                        for x in pp.df_production_flow_ratio.to_dict("records"):
                            ev.append({"e": "ratio", "t": 0, "ty": x["Product_type"], "prod": round(x["Production "] * 100), "move": round(x["Transport "] * 100),
                                       "idle": round(x["Idle "] * 100)})
                    if c["axtypes"] and any(e["e"] == "auxuse" for e in ev):
                        last = {}
                        df = pp.df_auxiliary_WIP
                        for t, n in zip(df["Time"], df["auxiliary_WIP"]):
                            last[T(t)] = int(n)
                        times = {e["t"] for e in ev if e["e"] == "auxuse"}
                        ev.append({"e": "aux", "t": 0, "v": [{"t": t, "n": n} for t, n in sorted(last.items()) if t in times]})
            if fin:
                for m in ("mser5", "threshold_stabilization", "static_ratio"):
                    pp = PostProcessor(df_raw=raw.copy(), warm_up_cutoff=True, cut_off_method=m)
                    cut = T(pp.warm_up_cutoff_time)
                    ev.append({"e": "cut", "w": m, "t": 0, "cut": cut})
                    ev += list(_out(pp, m, cut))
        except Exception as e:
            import traceback
            r.error = f"{type(e).__name__}: {str(e)[:200]} {traceback.extract_tb(e.__traceback__)[-1].name}"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return {"none": 0}, ev


# ---------------------------------------------------------------- P29 the whole shop

def shop_pre(c, a):
    route_pre(c, a)
    c["polfifo"] = {r.ID: _v(r.control_policy) == "FIFO" for r in a.resource_data}


def shop(c, r):
    """P29: every action of the shop in order"""
    ev = []

    def act(t, a, p="", x="", m="", d=0):
        ev.append({"e": "act", "t": t, "a": a, "p": p, "r": x, "m": m, "d": d})
    last = 0
    begun = set()
    for e in r.ev:
        k, t = e["e"], e.get("t", 0)
        last = max(last, t)
        p = e.get("p", "")
        if k == "log" and e["a"] in A and e["y"] in ("Production", "Transport"):
            w = (e["r"], e["s"], p)
            if A[e["a"]] == "start":
                if w in begun:      # a state that goes on is noted as started once more
                    continue
                begun.add(w)
            elif A[e["a"]] == "end":
                begun.discard(w)
        if k == "req":
            if e["k"] == "trans":
                act(t, "order", p, e["r"], e["g"])
        elif k == "enq":
            q = c["q"][e["q"]]
            if q["kind"] in ("in", "sink", "store"):
                act(t, "drop", p, "", q["owner"])
            elif q["kind"] == "out":
                act(t, "put", p, q["owner"])
        elif k == "deq":
            q = c["q"][e["q"]]
            if q["kind"] in ("src", "out", "store"):
                act(t, "take", p)
            elif q["kind"] == "in":
                act(t, "load", p, q["owner"])
        elif k == "log":
            y, a = e["y"], A.get(e["a"])
            d = e["x"] - t
            if e["a"] == "created product":
                act(t, "make", p, e["r"])
            elif e["a"] == "finished product":
                act(t, "fin", p, e["r"])
            elif y == "Transport" and a == "start":
                act(t, "go" if e["em"] else "ride", p, e["r"], "", d)
            elif y == "Transport" and a == "end":
                act(t, "there" if e["em"] else "arrive", p, e["r"])
            elif y == "Production" and a == "start":
                act(t, "start", p, e["r"], e["s"], d)
            elif y == "Production" and a == "end":
                act(t, "end", p, e["r"])
            elif y in ("Production", "Transport") and a == "pause":
                act(t, "pause", p, e["r"])
            elif y in ("Production", "Transport") and a == "go":
                act(t, "go on", p, e["r"], "", d)
            elif y == "Breakdown" and a in ("start", "end"):
                act(t, "down" if a == "start" else "up", "", e["r"], e["s"])
    if not r.error:
        ev.append({"e": "end", "t": max(last, T(r.horizon)), "a": "", "p": "", "r": "", "m": "", "d": 0})
    types = _types(c, r)
    snk = {}
    for s, t in c["snkT"].items():
        snk.setdefault(t, []).append(s)
    plan = {}
    for t, pl in c["plan"].items():
        if pl["k"] == "list":
            plan[t] = [{"s": x, "pre": [i] if i else []} for i, x in enumerate(pl["seq"])]
        else:
            plan[t] = [{"s": x, "pre": [i + 1 for i, y in enumerate(pl["nodes"]) if [y, x] in pl["edges"]]} for x in pl["nodes"]]
    stores = sorted({x for m in c["machines"] for x in c["outst"][m]})
    cfg = {"type": {"": "", **types}, "plan": plan, "stores": stores, "outst": {m: c["outst"][m] for m in c["machines"]},
           "scap": {"": 0, **{x: c["cap"][x] for x in stores}}, "mach": c["machines"], "carr": c["carriers"],
           "offer": {m: c["procs"][m] for m in c["machines"]}, "impl": {"": [], **c["impl"]}, "sinks": snk,
           "incap": {m: c["cap"][c["inq"][m][0]] for m in c["machines"]}, "outcap": {m: c["cap"][c["outq"][m][0]] for m in c["machines"]},
           "cap": {m: c["rcap"][m] for m in c["machines"]}, "pcap": {m: c["pcap"][m] for m in c["machines"]},
           "fifo": c["polfifo"], "ways": {t: [v for v in c["carriers"] if set(c["procs"][v]) & set(x)] for t, x in c["tset"].items()}}
    return cfg, ev
