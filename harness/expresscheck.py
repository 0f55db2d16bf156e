"""P27: express production systems and the configurations they are converted to."""
import contextlib
import io
import json

import common
import configcheck
import feats
import gen

FEATS = ["base", "setup", "bd", "cap", "stores", "aux", "rework", "charging", "loading", "link", "multi", "pbd", "finite", "batch", "pol", "setupbd", "sto", "arr",
         "auxmany", "storesfin", "linkio", "load", "euclid", "chbd"]
KIND = {k: v for k, v in configcheck.SECTIONS.items()}


def enum(v):
    return getattr(v, "value", v)


def subject(rng, feat):
    f = dict(feats.F[feat])
    f.update(dag=0., proc_cap=False)
    f["metric"] = ("manhattan", "euclidean")
    return gen.build(rng, **f)


def tree(a, rng):
    """The express system of the configuration a; also the internal queue sizes and the express objects by ID."""
    import prodsys.express as psx
    from prodsys.models import processes_data as pd
    from prodsys.models import state_data as sd
    from prodsys.models import time_model_data as tmd
    from prodsys.express import queue as xq, node as xn, auxiliary as xa, process as xp, state as xs, time_model as xt, resources as xr, sink as xk, source as xo, product as xpr
    anon = rng.random() < .4

    def named(i, kind):
        return {} if anon and kind in ("time_model", "state", "process", "queue") and rng.random() < .7 else {"ID": i}
    tm, pr, st, qs, nodes, aux, prod, res = {}, {}, {}, {}, {}, {}, {}, {}
    for t in a.time_model_data:
        k = named(t.ID, "time_model")
        if isinstance(t, tmd.FunctionTimeModelData):
            x = xt.FunctionTimeModel(distribution_function=t.distribution_function, location=t.location, scale=t.scale, **k)
        elif isinstance(t, tmd.SampleTimeModelData):
            x = xt.SampleTimeModel(samples=list(t.samples), **k)
        elif isinstance(t, tmd.ScheduledTimeModelData):
            x = xt.ScheduledTimeModel(schedule=list(t.schedule), absolute=t.absolute, cyclic=t.cyclic, **k)
        elif isinstance(t, tmd.SequentialTimeModelData):
            x = xt.SequentialTimeModel(sequence=list(t.sequence), **k)
        elif isinstance(t, tmd.DistanceTimeModelData):
            x = xt.DistanceTimeModel(speed=t.speed, reaction_time=t.reaction_time, metric=t.metric, **k)
        else:
            x = xt.ManhattanDistanceTimeModel(speed=t.speed, reaction_time=t.reaction_time, **k)
        tm[t.ID] = x
    opt = lambda i: tm[i] if i else None
    for p in sorted(a.process_data, key=lambda p: isinstance(p, pd.ReworkProcessData)):
        k = named(p.ID, "process")
        if isinstance(p, pd.ReworkProcessData):
            x = xp.ReworkProcess(tm[p.time_model_id], reworked_processes=[pr[i] for i in p.reworked_process_ids], blocking=p.blocking, **k)
        elif isinstance(p, pd.RequiredCapabilityProcessData):
            x = xp.RequiredCapabilityProcess(capability=p.capability, **k)
        elif isinstance(p, pd.CapabilityProcessData):
            x = xp.CapabilityProcess(tm[p.time_model_id], p.capability, failure_rate=p.failure_rate, **k)
        elif isinstance(p, pd.LinkTransportProcessData):
            x = xp.LinkTransportProcess(tm[p.time_model_id], loading_time_model=opt(p.loading_time_model_id), unloading_time_model=opt(p.unloading_time_model_id),
                                        capability=p.capability or "", **k)
        elif isinstance(p, pd.TransportProcessData):
            x = xp.TransportProcess(tm[p.time_model_id], loading_time_model=opt(p.loading_time_model_id), unloading_time_model=opt(p.unloading_time_model_id), **k)
        else:
            x = xp.ProductionProcess(tm[p.time_model_id], failure_rate=p.failure_rate, **k)
        pr[p.ID] = x
    for q in a.queue_data:
        if hasattr(q, "location"):
            qs[q.ID] = xq.Store(location=list(q.location), input_location=list(q.input_location), output_location=list(q.output_location), capacity=q.capacity,
                                **named(q.ID, "queue"))
    for n in a.node_data:
        nodes[n.ID] = xn.Node(location=list(n.location), ID=n.ID)
    for s in a.state_data:
        k = named(s.ID, "state")
        if isinstance(s, sd.ProcessBreakDownStateData):
            x = xs.ProcessBreakdownState(tm[s.time_model_id], tm[s.repair_time_model_id], pr[s.process_id], **k)
        elif isinstance(s, sd.BreakDownStateData):
            x = xs.BreakDownState(tm[s.time_model_id], tm[s.repair_time_model_id], **k)
        elif isinstance(s, sd.SetupStateData):
            x = xs.SetupState(tm[s.time_model_id], pr[s.origin_setup], pr[s.target_setup], **k)
        else:
            x = xs.ChargingState(tm[s.time_model_id], tm[s.battery_time_model_id], **k)
        st[s.ID] = x
    for x in a.auxiliary_data:
        aux[x.ID] = xa.Auxiliary(relevant_processes=[pr[i] for i in x.relevant_processes], relevant_transport_processes=[pr[i] for i in x.relevant_transport_processes],
                                 transport_process=pr[x.transport_process], storages=[qs[i] for i in x.storages],
                                 quantity_in_storages=list(x.quantity_in_storages), ID=x.ID)
    for p in a.product_data:
        prod[p.ID] = xpr.Product(processes=[pr[i] for i in p.processes], transport_process=pr[p.transport_process], auxiliaries=[aux[i] for i in p.auxiliaries], ID=p.ID)
    size = {}
    for r in a.resource_data:
        common_ = dict(processes=[pr[i] for i in r.process_ids], location=list(r.location), capacity=r.capacity, states=[st[i] for i in r.state_ids],
                       controller=r.controller, control_policy=r.control_policy, ID=r.ID)
        if hasattr(r, "input_queues"):
            size[r.ID] = rng.choice([0, 0, 2, 3]) if not r.batch_size else 0
            kw = dict(input_location=list(r.input_location), output_location=list(r.output_location))
            if r.input_location == r.location and rng.random() < .5:
                kw.pop("input_location")
            if r.output_location == r.location and rng.random() < .5:
                kw.pop("output_location")
            res[r.ID] = xr.ProductionResource(batch_size=r.batch_size, input_stores=[qs[i] for i in r.input_queues if i in qs],
                                              output_stores=[qs[i] for i in r.output_queues if i in qs], internal_queue_size=size[r.ID], **kw, **common_)
        else:
            res[r.ID] = xr.TransportResource(**common_)
    src = {s.ID: xo.Source(prod[s.product_type], tm[s.time_model_id], list(s.location), s.routing_heuristic, ID=s.ID) for s in a.source_data}
    snk = {s.ID: xk.Sink(prod[s.product_type], list(s.location), ID=s.ID) for s in a.sink_data}
    ends = {**nodes, **res, **src, **snk}
    for p in a.process_data:
        if isinstance(p, pd.LinkTransportProcessData):
            links = [[ends[x] for x in l] for l in p.links]
            if rng.random() < .5:
                pr[p.ID].set_links(links)
            else:
                for l in links:
                    pr[p.ID].add_link(l)
    objs = {"time_model": tm, "process": pr, "queue": qs, "node": nodes, "state": st, "auxiliary": aux, "product": prod, "resource": res, "source": src, "sink": snk}
    return psx.ProductionSystem(list(res.values()), list(src.values()), list(snk.values())), size, objs


def renamed(a, size, objs):
    """The configuration a with the IDs of the express objects and one internal queue of the given size on each side."""
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.models import queue_data as qd
    d = {k: [json.loads(o.model_dump_json()) for o in getattr(a, k)] for k in configcheck.SECTIONS}
    stores = {q.ID for q in a.queue_data if hasattr(q, "location")}
    d["queue_data"] = [q for q in d["queue_data"] if q["ID"] in stores]
    for r in d["resource_data"]:
        r["process_capacities"] = None
        if r["ID"] in size:
            r["input_queues"] = [r["ID"] + "_IQ"] + [q for q in r["input_queues"] if q in stores]
            r["output_queues"] = [r["ID"] + "_OQ"] + [q for q in r["output_queues"] if q in stores]
            for q in (r["ID"] + "_IQ", r["ID"] + "_OQ"):
                d["queue_data"].append({"ID": q, "description": "", "capacity": size[r["ID"]]})
    for sec, f in (("source_data", "output_queues"), ("sink_data", "input_queues")):
        for s in d[sec]:
            s[f] = [s["ID"] + "_Q"]
            d["queue_data"].append({"ID": s["ID"] + "_Q", "description": "", "capacity": 0})
    text = json.dumps(d)
    for os_ in objs.values():
        for i, o in os_.items():
            if o.ID != i:
                text = text.replace(json.dumps(i), json.dumps(o.ID))
    return JsonProductionSystemAdapter(ID="", **json.loads(text))


REFS = {f for _, f, _ in configcheck.REFS} | {"processes", "relevant_processes"}
QF = {"input_queues", "output_queues"}


def ids(v):
    if isinstance(v, str):
        return [v]
    return [x for y in v or [] for x in ids(y)]


def entities(a):
    out, plain, own = [], [], []
    stores = {q.ID for q in a.queue_data if hasattr(q, "location")}
    for sec, kind in KIND.items():
        for o in getattr(a, sec):
            if kind == "queue" and o.ID not in stores:
                plain.append({"id": o.ID, "cap": str(float(o.capacity or 0))})
                continue
            val = {f: enum(getattr(o, f)) for f in type(o).model_fields if f not in QF and f != "description"}
            refs = [x for f, v in val.items() if f in REFS or f == "links" for x in ids(v)]
            for f in QF:
                if hasattr(o, f):
                    q = list(getattr(o, f) or [])
                    refs += [x for x in q if x in stores]
                    own.append({"id": o.ID, "side": f, "plain": [x for x in q if x not in stores], "stores": [x for x in q if x in stores]})
            for f, v in val.items():
                if f == "capability":
                    val[f] = v or ""
            out.append({"k": kind, "id": o.ID, "v": type(o).__name__ + json.dumps(val, default=str, sort_keys=True), "refs": sorted(set(refs))})
    return {"ent": out, "plain": plain, "own": own}


def log_of(r):
    import observe
    return [observe.row_text(x) for x in list(r.event_logger.event_data)]


def sort_like(w, got):
    """The hand built configuration w with its entities in the order of the converted one, internal queues named alike."""
    w = w.model_copy(deep=True)
    q = {}
    for sec, f in (("resource_data", "input_queues"), ("resource_data", "output_queues"), ("source_data", "output_queues"), ("sink_data", "input_queues")):
        g = {o.ID: o for o in getattr(got, sec)}
        for o in getattr(w, sec):
            if hasattr(o, f) and o.ID in g:
                for x, y in zip(getattr(o, f), getattr(g[o.ID], f)):
                    q[x] = y
                setattr(o, f, [q.get(x, x) for x in getattr(o, f)])
    for x in w.queue_data:
        x.ID = q.get(x.ID, x.ID)
    caps = {x.ID: x.capacity for x in got.queue_data}
    for x in w.queue_data:
        if caps.get(x.ID) == x.capacity:
            x.capacity = caps[x.ID]             # 0 and 0.0 have different hashes
    for sec in KIND:
        pos = {o.ID: i for i, o in enumerate(getattr(got, sec))}
        setattr(w, sec, sorted((o for o in getattr(w, sec) if o.ID in pos), key=lambda o: pos[o.ID]))
    return w


def spoil(psx_sys, objs, rng):
    """Make the system invalid (or leave it); what is wrong."""
    ms = [r for r in psx_sys.resources if hasattr(r, "input_stores")]
    how = rng.choice(["fine", "place", "lack", "place_source"])
    if how == "place" and len(ms) > 1:
        a, b = rng.sample(ms, 2)
        a.location = a.input_location = a.output_location = list(b.input_location or b.location)
        return "place"
    if how == "place_source" and psx_sys.sources:
        s, k = rng.choice(psx_sys.sources), rng.choice(psx_sys.sinks)
        s.location = list(k.location)
        return "place"
    if how == "lack":
        from prodsys.express import process as xp
        prod = rng.choice(psx_sys.sources).product
        p = rng.choice(prod.processes)
        drop = {p.ID}
        if isinstance(p, xp.RequiredCapabilityProcess):
            drop = {x.ID for x in objs["process"].values() if isinstance(x, xp.CapabilityProcess) and x.capability == p.capability}
        for r in ms:
            r.states = [s for s in r.states if not ({getattr(getattr(s, f, None), "ID", None) for f in ("process", "origin_setup", "target_setup")} & drop)]
            r.processes = [x for x in r.processes if x.ID not in drop]
        return "lack"
    return "fine"


def job(key):
    import logging
    logging.disable(logging.CRITICAL)
    import observe
    from prodsys import runner as prunner
    from prodsys.simulation import sim
    sim.VERBOSE = 0
    rng = common.rng_for(*key)
    feat = FEATS[key[-1] % len(FEATS)]
    ev = []
    meta = {"feat": feat, "key": list(key), "error": ""}
    try:
        with observe.wall_limit(100), contextlib.redirect_stdout(io.StringIO()):
            a = subject(rng, feat)
            sys_, size, objs = tree(a, rng)
            w = renamed(a, size, objs)
            n = rng.randrange(3)
            for _ in range(n):
                sys_.to_model()
            got = sys_.to_model()
            ev.append({"e": "convert", "want": entities(w), "got": entities(got), "roots": [o.ID for sec in ("resource_data", "source_data", "sink_data") for o in getattr(w, sec)]})
            early = {"runner": False, "post_processor": False}
            for f in early:
                try:
                    getattr(sys_, f)
                except ValueError:
                    early[f] = True
            ev.append({"e": "early", "ok": all(early.values())})
            w = sort_like(w, got)
            try:
                h = [got.hash(), w.hash()]
            except NotImplementedError:
                h = ["none", "none"]
            ev.append({"e": "hash", "got": h[0], "want": h[1]})
            seed, t = rng.randrange(10 ** 6), rng.choice([40, 90, 150])
            sys_.run(t, seed)
            log1 = log_of(sys_.runner)
            try:
                fin = len(sys_.post_processor.df_throughput) if any("finished product" in x for x in log1) else 0
            except KeyError:
                fin = -1
            w.seed = seed
            r = prunner.Runner(w)
            r.initialize_simulation()
            r.run(t)
            log2 = log_of(r)
            prods = {p.product_type for p in w.product_data}
            n_fin = sum(1 for x in list(r.event_logger.event_data) if enum(x["Activity"]) == "finished product" and x["Product"].rsplit("_", 1)[0] in prods)
            i = next((i for i, (x, y) in enumerate(zip(log1, log2)) if x != y), min(len(log1), len(log2)))
            ev.append({"e": "run", "same": log1 == log2, "n1": len(log1), "n2": len(log2), "fin": fin, "nfin": n_fin, "x": str(log1[i:i + 1]), "y": str(log2[i:i + 1])})
            what = spoil(sys_, objs, rng)
            res, msg = "accepted", ""
            try:
                sys_.validate()
            except ValueError as e:
                res, msg = "refused", str(e)[:150]
            ev.append({"e": "validate", "what": what, "res": res, "msg": msg})
    except observe.Stuck:
        ev, meta["late"] = [], True
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append({"e": "crash", "what": f"{type(e).__name__}", "msg": f"{str(e)[:200]} at {tb.filename.rsplit('/', 1)[-1]}:{tb.lineno}"})
    if not ev:
        ev.append({"e": "early", "ok": True})
    return {"cfg": {"none": 0}, "ev": ev, "meta": meta}


def describe(e):
    if e["e"] == "convert":
        w, g = {x["id"]: x for x in e["want"]["ent"]}, {x["id"]: x for x in e["got"]["ent"]}
        return json.dumps({"missing": [i for i in w if i not in g], "more": [i for i in g if i not in w],
                           "differ": [[w[i]["v"], g[i]["v"]] for i in w if i in g and w[i] != g[i]][:2], "own": e["got"]["own"][:3]})[:1200]
    return json.dumps(e)[:900]


def check(chk, n):
    traces = common.pmap(job, [(chk.prop, common.seed(), i) for i in range(n)])
    chk.add("late", sum(bool(t["meta"].get("late")) for t in traces))
    configcheck.run(chk, "T_Express", traces, describe)
