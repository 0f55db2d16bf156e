"""P25, P26, P28: the moves of the optimizers, their constraints and costs, and the searches."""
import copy
import hashlib
import json
import os

import common
import configcheck
import feats
import gen

FEATS = ["base", "setupbd", "bd", "aux", "cap", "multi", "auxmany", "proccap", "setup", "pbd", "finite", "charging", "loading", "pol", "everything", "chbd"]
ALL_TF = ["production_capacity", "transport_capacity", "auxiliary_capacity", "layout", "sequencing_logic", "routing_logic"]
POL = ["FIFO", "LIFO", "SPT"]
TPOL = ["FIFO", "SPT_transport", "Nearest_origin_and_longest_target_queues_transport", "Nearest_origin_and_shortest_target_input_queues_transport"]
ROUTE = ["shortest_queue", "random", "FIFO"]
OPS = ["add_machine", "remove_machine", "move_machine", "change_control_policy", "add_process_module", "remove_process_module", "move_process_module",
       "add_transport_resource", "remove_transport_resource", "add_auxiliary", "remove_auxiliary", "change_routing_policy"]


def xy(p):
    return ",".join(f"{float(v):g}" for v in p)


def enum(v):
    return getattr(v, "value", v)


def some(rng, xs, lo=1):
    return rng.sample(xs, rng.randint(lo, len(xs)))


def scenario(a, rng, objectives=None, tf=None, loose=True):
    """A scenario for the configuration a."""
    from prodsys.models import scenario_data as sc
    ms = [r for r in a.resource_data if hasattr(r, "input_queues")]
    ts = [r for r in a.resource_data if not hasattr(r, "input_queues")]
    taken = {xy(p) for r in ms for p in (r.location, r.input_location, r.output_location)}
    for o in list(a.source_data) + list(a.sink_data) + [q for q in a.queue_data if getattr(q, "location", None)]:
        taken |= {xy(getattr(o, k)) for k in ("location", "input_location", "output_location") if getattr(o, k, None)}
    pos = [list(map(float, r.location)) for r in ms]
    extra = [[20. + i, 3.] for i in range(rng.choice([0, 1, 2, 4]))]
    if rng.random() < .15 and a.sink_data:
        extra.append(list(map(float, a.sink_data[0].location)))
    pos = pos + extra
    if rng.random() < .15 and len(pos) > 1:
        pos.pop(rng.randrange(len(pos)))
    if rng.random() < .5:
        rng.shuffle(pos)
    procs = [p.ID for p in a.process_data if type(p).__name__ in ("ProductionProcessData", "CapabilityProcessData", "ReworkProcessData")]
    slack = rng.choice([0, 1, 3]) if not loose else rng.choice([1, 2, 4])
    pm = rng.choice([200, None, {p: rng.choice([100, 250, 300]) for p in procs if rng.random() < .9}])
    con = sc.ScenarioConstrainsData(
        max_reconfiguration_cost=10 ** 7 if loose and rng.random() < .8 else rng.choice([0, 300, 700, 1500, 4000]),
        max_num_machines=max(1, len(ms) + slack - (0 if loose else 1)), max_num_processes_per_machine=rng.choice([1, 2, 3, 4]) if not loose else rng.choice([2, 3, 5]),
        max_num_transport_resources=max(1, len(ts) + rng.choice([0, 1, 2])), target_product_count=None)
    opt = sc.ScenarioOptionsData(
        transformations=tf if tf is not None else some(rng, ALL_TF), machine_controllers=some(rng, POL), transport_controllers=some(rng, TPOL),
        routing_heuristics=some(rng, ROUTE), positions=pos)
    info = sc.ScenarioInfoData(machine_cost=rng.choice([0, 1000, 700]), transport_resource_cost=rng.choice([0, 500]), process_module_cost=pm,
                               auxiliary_cost=rng.choice([50, 20]) if rng.random() < .8 else None, time_range=rng.choice([60, 150]))
    if objectives is None:
        objectives = [sc.Objective(name=n, weight=rng.choice([1., 2., .5])) for n in some(rng, ["cost", "throughput", "WIP", "throughput_time"])]
    return sc.ScenarioData(constraints=con, options=opt, info=info, objectives=objectives)


def subject(rng, feat, **kw):
    """A configuration with a scenario."""
    f = dict(feats.F[feat])
    if feat in ("aux", "auxmany"):
        f.update(io_loc=0.)
    if kw.pop("plain", rng.random() < .7):
        f["io_loc"] = 0.
    f.setdefault("n_machines", (1, 4))
    a = gen.build(rng, **f)
    for r in a.resource_data:           # policies that need not be among the options
        if hasattr(r, "input_queues") and rng.random() < .3:
            r.control_policy = rng.choice(POL)
    a.scenario_data = scenario(a, rng, **kw)
    return a


def state(a):
    """The configuration a as a state of Tune.tla."""
    from prodsys.models import state_data as sd
    bds = {s.ID for s in a.state_data if isinstance(s, (sd.BreakDownStateData, sd.ProcessBreakDownStateData))}
    blank = {"loc": "", "di": "", "do": "", "pol": "", "cap": 0, "ctl": "", "procs": [], "other": [], "bd": [], "caps": [], "qi": [], "qo": []}
    m, t = {"": blank}, {"": {k: blank[k] for k in ("loc", "pol", "cap", "ctl", "procs", "other", "bd", "caps")}}
    for r in a.resource_data:
        d = {"loc": xy(r.location), "pol": enum(r.control_policy), "cap": r.capacity, "ctl": enum(r.controller), "procs": list(r.process_ids),
             "other": [s for s in r.state_ids if s not in bds], "bd": [s for s in r.state_ids if s in bds], "caps": list(r.process_capacities or [])}
        if hasattr(r, "input_queues"):
            d.update(di=xy([r.input_location[0] - r.location[0], r.input_location[1] - r.location[1]]),
                     do=xy([r.output_location[0] - r.location[0], r.output_location[1] - r.location[1]]),
                     qi=list(r.input_queues or []), qo=list(r.output_queues or []))
            m[r.ID] = d
        else:
            t[r.ID] = d
    q = {"": ""}
    for x in a.queue_data:
        q[x.ID] = "inf" if not x.capacity else str(x.capacity)
    rest = []
    for s in ("time_model_data", "state_data", "process_data", "node_data", "product_data", "sink_data"):
        rest += [repr(o) for o in getattr(a, s)]
    rest += [repr(o.model_copy(update={"routing_heuristic": None})) for o in a.source_data]
    rest += [repr(o.model_copy(update={"quantity_in_storages": []})) for o in a.auxiliary_data]
    rest += [repr(a.scenario_data), str(a.seed)]
    return {"m": m, "t": t, "src": {"": "", **{s.ID: enum(s.routing_heuristic) for s in a.source_data}},
            "aux": {"": [], **{x.ID: list(x.quantity_in_storages) for x in a.auxiliary_data}}, "q": q,
            "rest": hashlib.sha1("\n".join(rest).encode()).hexdigest()}


def tune_cfg(a):
    from prodsys.models import state_data as sd, processes_data as pd_
    o = a.scenario_data.options
    bds = [s.ID for s in a.state_data if isinstance(s, (sd.BreakDownStateData, sd.ProcessBreakDownStateData))]
    procs = [p.ID for p in a.process_data if not isinstance(p, (pd_.TransportProcessData, pd_.RequiredCapabilityProcessData))]
    need = {x for p in a.product_data for x in p.auxiliaries}
    return {
        "pos": [xy(p) for p in o.positions], "mctl": [enum(x) for x in o.machine_controllers], "tctl": [enum(x) for x in o.transport_controllers],
        "routes": [enum(x) for x in o.routing_heuristics], "procs": procs, "tprocs": [p.ID for p in a.process_data if isinstance(p, pd_.TransportProcessData)],
        "setups": {"": {"a": "", "b": ""}, **{s.ID: {"a": s.origin_setup, "b": s.target_setup} for s in a.state_data if isinstance(s, sd.SetupStateData)}},
        "bsm": "BSM" in bds, "bst": "BST" in bds, "bsp": {"": "", **{p: f"BSP_{p}" for p in procs if f"BSP_{p}" in bds}},
        "maxp": a.scenario_data.constraints.max_num_processes_per_machine,
        "auxs": {"": {"st": [], "req": False}, **{x.ID: {"st": list(x.storages), "req": x.ID in need or x.auxiliary_type in need} for x in a.auxiliary_data}},
        "qcap": {"": 0, **{q.ID: int(q.capacity) for q in a.queue_data}}, "tf": [enum(x) for x in o.transformations],
        "ids": {"procs": [p.ID for p in a.process_data], "states": [s.ID for s in a.state_data]},
    }


def standard(a, ev):
    """Define the standard breakdowns, as the optimizers do."""
    from prodsys.models import state_data as sd
    from prodsys.optimization import util as ou
    s0 = state(a)
    kind = {s.ID: s for s in a.state_data}
    ms = [r for r in a.resource_data if hasattr(r, "input_queues")]
    ts = [r for r in a.resource_data if not hasattr(r, "input_queues")]
    bd = lambda i: isinstance(kind[i], sd.BreakDownStateData)
    hadm = [i for r in ms for i in r.state_ids if bd(i)]
    hadt = [i for r in ts for i in r.state_ids if bd(i)]
    hadp = [i for r in ms for i in r.state_ids if isinstance(kind[i], sd.ProcessBreakDownStateData) and kind[i].process_id in r.process_ids]
    if ou.check_breakdown_states_available(a):
        return
    try:
        ou.create_default_breakdown_states(a)
    except ValueError:      # the breakdowns differ
        return
    now = {s.ID: s for s in a.state_data}
    tms = lambda i: (now[i].time_model_id, now[i].repair_time_model_id)
    times = True
    if "BSM" in now and hadm:
        times = times and tms("BSM") in [tms(i) for i in hadm]
    if "BST" in now and hadt:
        times = times and tms("BST") in [tms(i) for i in hadt]
    for i in hadp:
        p = now[i].process_id
        x = now.get(f"BSP_{p}")
        times = times and x is not None and x.process_id == p and tms(x.ID) in [tms(j) for j in hadp if now[j].process_id == p]
    s1 = state(a)
    s1["rest"] = s0["rest"]
    ev.append({"e": "standard", "a": s0, "b": s1, "bsm": "BSM" in now, "bst": "BST" in now, "hadm": bool(hadm), "hadt": bool(hadt),
               "bsp": sorted(i[4:] for i in now if i.startswith("BSP_")), "hadp": sorted({now[i].process_id for i in hadp}), "times": bool(times)})


def crash(ev, what, e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)[-1]
    ev.append({"e": "crash", "what": f"{what}: {type(e).__name__}", "msg": f"{e} at {os.path.basename(tb.filename)}:{tb.lineno}"})


def tune_job(key):
    import logging
    import random
    logging.disable(logging.CRITICAL)
    from prodsys.adapters import adapter as ad
    from prodsys.optimization import adapter_manipulation as am
    from prodsys.optimization import optimization as op
    import observe
    rng = common.rng_for(*key)
    feat = FEATS[key[-1] % len(FEATS)]
    a = subject(rng, feat)
    random.seed(rng.randrange(10 ** 9))
    ops = OPS
    if a.auxiliary_data:
        ops = OPS + ["add_auxiliary", "remove_auxiliary"] * 8
        for x in list(a.auxiliary_data):        # several auxiliaries in one storage, not all of them required
            if rng.random() < .6:
                a.auxiliary_data.append(x.model_copy(deep=True, update={"ID": x.ID + "_b", "auxiliary_type": x.auxiliary_type + "_b"}))
                if rng.random() < .7:
                    rng.choice(a.product_data).auxiliaries.append(x.ID + "_b" if rng.random() < .5 else x.auxiliary_type + "_b")
        for q in a.queue_data:
            if any(q.ID in x.storages for x in a.auxiliary_data):
                q.capacity = rng.choice([0, 0, 6, 8, 10])
    ev = []
    if rng.random() < .6:
        standard(a, ev)
    cfg = tune_cfg(a)
    meta = {"feat": feat, "key": list(key), "error": ""}
    what = "start"
    try:
        with observe.wall_limit(60):
            if rng.random() < .5:
                am.add_default_queues_to_resources(a)
            cur = a.model_copy(deep=True)
            for _ in range(14):
                what = rng.choice(ops)
                s0 = state(cur)
                ret = bool(getattr(am, what)(cur))
                ev.append({"e": "move", "op": what, "ret": ret, "a": s0, "b": state(cur)})
            pop = [a.model_copy(deep=True), cur.model_copy(deep=True)]
            for _ in range(12):
                what = "mutation"
                i = rng.randrange(2)
                s0, id0 = state(pop[i]), pop[i].ID
                (ind,) = am.mutation([pop[i]])
                pop[i] = ind[0]
                s1 = state(pop[i])
                ev.append({"e": "mutation", "a": s0, "b": s1, "sameid": pop[i].ID == id0})
                if rng.random() < .3:
                    what = "crossover"
                    x, y = pop[0].model_copy(deep=True), pop[1].model_copy(deep=True)
                    sa, sb = state(x), state(y)
                    o1, o2 = x.ID, y.ID
                    (p1, p2) = am.crossover([x], [y])
                    x, y = p1[0], p2[0]
                    sx, sy = state(x), state(y)
                    uni = all(len({r.ID for r in z.resource_data}) == len(z.resource_data) for z in (x, y))
                    ev.append({"e": "crossover", "a": sa, "b": sb, "x": sx, "y": sy, "unique": uni, "newids": len({o1, o2, x.ID, y.ID} - {o1, o2}) == 2})
                    if rng.random() < .5 and uni:
                        pop = [x, y]
            what = "random"
            base = a.model_copy(deep=True)
            am.add_default_queues_to_resources(base)
            random_part(base, ev, rng, am, op)
    except observe.Stuck:
        meta["late"] = True
    except Exception as e:
        crash(ev, what, e)
    return {"cfg": cfg, "ev": ev, "meta": meta}


def random_part(base, ev, rng, am, op):
    for _ in range(2):
        b = base.model_copy(deep=True)
        b.scenario_data.constraints.max_reconfiguration_cost = 10 ** 7
        if not op.check_valid_configuration(b.model_copy(deep=True), base):
            return
        s0, id0 = state(b), b.ID
        t = am.random_configuration(b)
        e = {"e": "random", "a": s0, "a2": state(b), "b": state(t), "newids": t.ID not in ("", id0) and b.ID == id0}
        ev.append(e)


def tune_check(chk, n):
    traces = common.pmap(tune_job, [(chk.prop, common.seed(), i) for i in range(n)])
    configcheck.run(chk, "T_Tune", traces, describe)


def describe(e):
    out = e.get("op", e["e"]) + " " + e.get("msg", "")
    if "b" in e:
        for k in ("m", "t", "src", "aux"):
            for i in sorted(set(e["a"][k]) | set(e["b"][k])):
                x, y = e["a"][k].get(i), e["b"][k].get(i)
                if x != y:
                    if isinstance(x, dict) and isinstance(y, dict):
                        y = {f: (x[f], y[f]) for f in x if x[f] != y[f]}
                        x = ""
                    out += f" {k} {i}: {x} -> {y}"
    return out


# ---------------------------------------------------------------- P26: permitted reconfigurations
def physical(a):
    d = json.loads(a.model_dump_json())
    p = configcheck.project(d)
    out = {k: p[k] for k in ("pts", "procs", "offer", "need", "links")}
    out["ids"] = {"process": p["ids"]["process"]}
    return out


def recon_cfg(a):
    cfg = tune_cfg(a)
    sd = a.scenario_data
    pm = sd.info.process_module_cost
    price = {p: int((pm.get(p, 0) if isinstance(pm, dict) else pm) or 0) for p in cfg["procs"]}
    price[""] = 0
    cfg["lim"] = {"cost": int(sd.constraints.max_reconfiguration_cost), "machines": sd.constraints.max_num_machines,
                  "modules": sd.constraints.max_num_processes_per_machine, "carriers": sd.constraints.max_num_transport_resources}
    cfg["price"] = {"machine": int(sd.info.machine_cost), "carrier": int(sd.info.transport_resource_cost), "module": price, "aux": int(sd.info.auxiliary_cost or 0)}
    cfg["base"] = state(a)
    return cfg


def recon_job(key):
    import logging
    import random
    logging.disable(logging.CRITICAL)
    from prodsys.optimization import adapter_manipulation as am
    from prodsys.optimization import optimization as op
    import observe
    rng = common.rng_for(*key)
    feat = FEATS[key[-1] % len(FEATS)]
    a = subject(rng, feat, tf=list(ALL_TF), loose=rng.random() < .5)
    random.seed(rng.randrange(10 ** 9))
    cfg = recon_cfg(a)
    ev = []
    what = "start"
    try:
        with observe.wall_limit(60):
            for _ in range(4):
                cur = a.model_copy(deep=True)
                am.add_default_queues_to_resources(cur)
                for step in range(6):
                    if step:
                        for _ in range(rng.choice([1, 1, 2])):
                            what = rng.choice(OPS)
                            if rng.random() < .15:
                                what = spoil(cur, rng)
                            else:
                                getattr(am, what)(cur)
                    what = "judge"
                    s0 = state(cur)
                    pc = physical(cur)
                    cost = op.get_reconfiguration_cost(cur, a)
                    ok = op.check_valid_configuration(cur, a)
                    ev.append({"e": "judge", "s": s0, "pc": pc, "cost": int(cost) if cost == int(cost) else -1, "ok": bool(ok), "same": state(cur) == s0,
                               "noted": int(cur.reconfiguration_cost or 0), "what": what})
                    if step > 2 and ok and rng.random() < .3:
                        break
    except observe.Stuck:
        pass
    except Exception as e:
        crash(ev, what, e)
    return {"cfg": cfg, "ev": ev, "meta": {"feat": feat, "key": list(key), "error": ""}}


def spoil(cur, rng):
    """A change no move of an optimizer makes."""
    ms = [r for r in cur.resource_data if hasattr(r, "input_queues")]
    k = rng.choice(["place", "onsink", "onother", "demand", "noaux", "noproc"])
    if k == "place" and ms:
        m = rng.choice(ms)
        m.location = m.input_location = m.output_location = [50., rng.choice([1., 2.])]
    elif k == "onsink" and ms:
        m = rng.choice(ms)
        m.location = m.input_location = m.output_location = list(rng.choice(cur.sink_data + cur.source_data).location)
    elif k == "onother" and len(ms) > 1:
        x, y = rng.sample(ms, 2)
        x.location = x.input_location = x.output_location = list(y.location)
    elif k == "demand" and ms:
        rq = [p.ID for p in cur.process_data if type(p).__name__ == "RequiredCapabilityProcessData"]
        if rq:
            m = rng.choice(ms)
            m.process_ids.append(rng.choice(rq))
    elif k == "noaux" and cur.auxiliary_data:
        x = rng.choice(cur.auxiliary_data)
        x.quantity_in_storages = [0 for _ in x.quantity_in_storages]
    elif k == "noproc":
        r = rng.choice(cur.resource_data) if cur.resource_data else None
        if r is not None:
            r.process_ids = []
    return k


def recon_check(chk, n):
    traces = common.pmap(recon_job, [(chk.prop, common.seed(), i) for i in range(n)])
    configcheck.run(chk, "T_Recon", traces, lambda e: f"{e['what']} {e.get('msg', '')} ok={e.get('ok')} cost={e.get('cost')} noted={e.get('noted')} " +
                    json.dumps({k: e["s"][k] for k in ("m", "t", "aux")} if "s" in e else {})[:700])
