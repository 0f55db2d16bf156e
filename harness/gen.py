"""Randomised generator of valid production-system configurations.

Everything is drawn from a `random.Random` the caller seeds; the result is a
`JsonProductionSystemAdapter` built from the public data models only.
"""
import random

import prodsys
from prodsys.models import (
    time_model_data as tmd, processes_data as pd_, state_data as sd,
    resource_data as rd, product_data as prd, source_data as srd,
    sink_data as skd, queue_data as qd, node_data as nd, auxiliary_data as axd,
)
from prodsys.adapters import JsonProductionSystemAdapter

DEFAULTS = dict(
    n_products=(1, 2), n_processes=(1, 4), n_machines=(1, 4), n_agv=(1, 2),
    machine_cap=(1, 2), proc_cap=False, agv_cap=(1, 1),
    finite=0.0,            # probability that an internal queue is finite
    setup=0.0, breakdown=0.0, agv_breakdown=0.0, proc_breakdown=0.0,
    dag=0.0, capability=0.0, stores=0.0, aux=0.0, batch=0.0, rework=0.0,
    charging=0.0, loading=0.0, link=0.0, stochastic=0.0, decimals=0.3,
    policies=("FIFO",), t_policies=("FIFO",), heuristics=("FIFO",),
    distance_model=0.7, io_loc=0.3, arrivals=(3, 12), arrival_gap=(1, 8),
    reaction=0.3, metric=("manhattan",), per_product_plan=(1, 4),
    sched_arrivals=0.5, repeat_process=False, horizon=400, multi_sink=0.0,
    shared_agv_process=0.7, blocking=0.5, id_substrings=0.0, load_both=0.5,
    multi_source=0.0, batch_plain=True, zero_ptime=0.0, same_loc_agv=0.5,
    euclid_int=False, rates=(0.3, 0.5, 0.9), sched_breakdown=0.5, store_in=0.5, n_links_extra=(0, 4), ptime=(1, 6), extra_proc=0.3, store_caps=(0, 1, 2, 3, 5), store_in_each=0.5, store_out_each=0.7, batch_min=2, arr_kinds=(),
    dag_density=(0.25, 0.45, 0.45, 0.8), rework_share=0.0, shuffle=0.5, repair_zero=0.0, names=0.3, link_cap=0.0, link_lone=0.0, store_two=0.0, setup_time=(1, 4), two_out=0.0, battery=(),
)


class Ctx:
    pass


def build(rng: random.Random, **over):
    f = dict(DEFAULTS)
    f.update(over)
    c = Ctx()
    c.f, c.rng = f, rng
    c.tms, c.procs, c.states, c.ress, c.prods = [], [], [], [], []
    c.srcs, c.snks, c.qs, c.nodes, c.auxs = [], [], [], [], []
    ntm = [0]
    style = rng.choice(["_{}", "1" * 1]) if rng.random() < f["names"] else "{}"

    def nm(base, k):
        """prod0, prod1 / prod_0, prod_1 / prod1, prod11 ..."""
        return base + ("1" * (k + 1) if style == "1" else style.format(k))

    def R(key):
        lo, hi = f[key]
        return rng.randint(lo, hi)

    def P(key):
        return rng.random() < f[key]

    def num(lo, hi):
        v = rng.randint(lo, hi)
        if P("decimals"):
            v += rng.choice([0.25, 0.5, 0.125, 0.75])
        return float(v)

    def tm(lo, hi, kind=None):
        """A process-like duration model; returns its ID."""
        ntm[0] += 1
        i = f"tm{ntm[0]}"
        if kind is None:
            kind = "func" if P("stochastic") else rng.choice(["const", "const", "sample"])
        if kind == "const":
            m = tmd.FunctionTimeModelData(ID=i, description="", distribution_function="constant",
                                          location=num(lo, hi), scale=0.0)
        elif kind == "sample":
            m = tmd.SampleTimeModelData(ID=i, description="", samples=[num(lo, hi) for _ in range(rng.randint(1, 4))])
        else:
            d = rng.choice(["exponential", "normal", "lognormal"])
            if d == "exponential":
                loc, sc = float(rng.randint(lo, hi)), 0.0
            elif d == "normal":
                loc, sc = float(rng.randint(lo, hi)) + 1, 0.5
            else:
                loc, sc = 0.7, 0.3
            m = tmd.FunctionTimeModelData(ID=i, description="", distribution_function=d, location=loc, scale=sc)
        c.tms.append(m)
        return i

    def rep(lo, hi):
        """A repair time model (some repairs take no time)."""
        i = tm(lo, hi, "sample" if f["repair_zero"] and P("repair_zero") else None)
        if f["repair_zero"] and isinstance(c.tms[-1], tmd.SampleTimeModelData):
            c.tms[-1].samples = c.tms[-1].samples + [0.0]
        return i

    def battery():
        b = rng.choice(f["battery"]) if f["battery"] else 0
        return tm(b, b, "const") if b else tm(8, 25)

    used = set()

    def loc():
        while True:
            p = (rng.randint(0, 12), rng.randint(0, 12))
            if p not in used:
                used.add(p)
                return [float(p[0]), float(p[1])]

    def locs():
        a = loc()
        if P("io_loc"):
            x = rng.random()
            return (a, loc(), loc()) if x < .6 else (a, loc(), a) if x < .8 else (a, a, loc())
        return a, a, a

    pid = (lambda k: f"P{k}")
    if P("id_substrings"):
        pid = (lambda k: "P" + "1" * k)
    npr = R("n_processes")
    prod_procs = []
    cap_of = {}
    for k in range(1, npr + 1):
        lo, hi = f["ptime"]
        t = tm(lo, hi)
        fr = 0.0
        if P("rework"):
            fr = rng.choice(f["rates"])
        if P("capability"):
            c.procs.append(pd_.RequiredCapabilityProcessData(ID=f"RQ{k}", description="",
                           type=pd_.ProcessTypeEnum.RequiredCapabilityProcesses, capability=f"cap{k}"))
            impl = []
            for j in range(rng.randint(1, 2)):
                c.procs.append(pd_.CapabilityProcessData(ID=f"C{k}_{j}", description="", time_model_id=tm(lo, hi),
                               type=pd_.ProcessTypeEnum.CapabilityProcesses, capability=f"cap{k}", failure_rate=fr))
                impl.append(f"C{k}_{j}")
            cap_of[f"RQ{k}"] = impl
            prod_procs.append(f"RQ{k}")
        else:
            c.procs.append(pd_.ProductionProcessData(ID=pid(k), description="", time_model_id=t,
                           type=pd_.ProcessTypeEnum.ProductionProcesses, failure_rate=fr))
            prod_procs.append(pid(k))
            cap_of[pid(k)] = [pid(k)]
    rng_rework = []
    for k, p in enumerate(list(prod_procs)):
        impls = cap_of[p]
        if any(getattr(x, "failure_rate", 0) for x in c.procs if x.ID in impls):
            for j in range(rng.choice([1, 1, 2])):
                i = f"RW{k}_{j}"
                c.procs.append(pd_.ReworkProcessData(ID=i, description="", time_model_id=tm(1, 4),
                               type=pd_.ProcessTypeEnum.ReworkProcesses, reworked_process_ids=list(impls),
                               blocking=P("blocking")))
                rng_rework.append(i)

    # rework processes that serve the failures of several processes
    rws = [x for x in c.procs if x.ID in rng_rework]
    if f["rework_share"] and len(rws) > 1:
        for x in rws:
            for y in rws:
                if y is not x and P("rework_share"):
                    x.reworked_process_ids = x.reworked_process_ids + [i for i in y.reworked_process_ids if i not in x.reworked_process_ids]

    # ---- transport
    tprocs = []
    use_link = P("link")
    n_agv = R("n_agv")
    link_cap = use_link and f["link_cap"] and P("link_cap")
    n_tp = 1 if P("shared_agv_process") or n_agv == 1 else min(2, n_agv)
    if link_cap:
        n_tp = rng.randint(2, 3)
        n_agv = max(n_agv, n_tp)

    def transport_tm():
        ntm[0] += 1
        i = f"ttm{ntm[0]}"
        if P("distance_model"):
            c.tms.append(tmd.DistanceTimeModelData(ID=i, description="", speed=rng.choice([1.0, 2.0, 0.5, 4.0]),
                         reaction_time=(rng.choice([1.0, 0.5, 2.0]) if P("reaction") else 0.0),
                         metric=rng.choice(f["metric"])))
            return i
        return tm(1, 4)

    for k in range(n_tp):
        i = f"TP{k}"
        kw = {}
        if P("loading"):
            kw["loading_time_model_id"] = tm(1, 3)
        if P("loading"):
            kw["unloading_time_model_id"] = tm(1, 3)
        if use_link:
            c.procs.append(pd_.LinkTransportProcessData(ID=i, description="", time_model_id=transport_tm(),
                           type=pd_.ProcessTypeEnum.LinkTransportProcesses, links=[], capability="tcap" if link_cap else "", **kw))
        else:
            c.procs.append(pd_.TransportProcessData(ID=i, description="", time_model_id=transport_tm(),
                           type=pd_.ProcessTypeEnum.TransportProcesses, **kw))
        tprocs.append(i)
    want = list(tprocs)         # what products may ask for
    if link_cap:
        c.procs.append(pd_.RequiredCapabilityProcessData(ID="RTP", description="", capability="tcap",
                       type=pd_.ProcessTypeEnum.RequiredCapabilityProcesses))
        want = ["RTP"]

    # ---- queues
    def queue(i, finite_ok=True, cap_range=(1, 3), cap_min=1):
        cap = 0
        if finite_ok and P("finite"):
            cap = max(cap_min, rng.randint(*cap_range))
        c.qs.append(qd.QueueData(ID=i, description="", capacity=cap))
        return i

    stores = []
    if P("stores"):
        for k in range(rng.randint(1, 2)):
            l, li, lo_ = locs()
            c.qs.append(qd.StoreData(ID=f"ST{k}", description="", capacity=rng.choice(f["store_caps"]),
                                     location=l, input_location=li, output_location=lo_))
            stores.append(f"ST{k}")

    # ---- machines
    impl_ids = [i for p in prod_procs for i in cap_of[p]]
    # every implementation must be available somewhere; capability: at least one of them
    n_m = R("n_machines")
    assign = [set() for _ in range(n_m)]
    for p in prod_procs:
        ids = cap_of[p]
        for i in ids:
            assign[rng.randrange(n_m)].add(i)
    for i in rng_rework:
        assign[rng.randrange(n_m)].add(i)
    for a in assign:
        for i in impl_ids + rng_rework:
            if rng.random() < f["extra_proc"]:
                a.add(i)
    for a in assign:
        if not a:
            a.add(rng.choice(impl_ids))
    is_batch = [P("batch") for _ in assign] if f["batch"] else [False] * len(assign)
    if f["batch_plain"] and f["batch"]:
        # a batch machine offers one process; what it gave up goes to the other machines
        for k, a in enumerate(assign):
            if not is_batch[k]:
                continue
            keep = rng.choice(sorted(a))
            rest = sorted(a - {keep})
            others = [i for i in range(len(assign)) if not is_batch[i]]
            if rest and not others:
                is_batch[k] = False
                continue
            for x in rest:
                assign[rng.choice(others)].add(x)
            assign[k] = {keep}
    for k, a in enumerate(assign):
        ids = sorted(a)
        rng.shuffle(ids)
        cap = R("machine_cap")
        pcs = None
        batch = None
        ctrl = "PipelineController"
        if is_batch[k]:
            ctrl = "BatchController"
            cap = max(2, cap)
            batch = cap if f["batch_plain"] else rng.randint(min(f["batch_min"], cap), cap)
        elif f["proc_cap"] and rng.random() < 0.6:
            pcs = [rng.randint(1, cap) for _ in ids]
            pcs[rng.randrange(len(pcs))] = cap
        sids = []
        if len(ids) > 1 and P("setup"):
            for o in ids:
                for t in ids:
                    if o != t and (rng.random() < 0.8):
                        s = f"S_{k}_{o}_{t}"
                        c.states.append(sd.SetupStateData(ID=s, description="", time_model_id=tm(*f["setup_time"]),
                                        type=sd.StateTypeEnum.SetupState, origin_setup=o, target_setup=t))
                        sids.append(s)
        if P("breakdown"):
            for j in range(rng.choice([1, 1, 2])):
                s = f"BD_{k}_{j}"
                c.states.append(sd.BreakDownStateData(ID=s, description="", time_model_id=tm(5, 25),
                                type=sd.StateTypeEnum.BreakDownState, repair_time_model_id=rep(1, 8)))
                sids.append(s)
        if P("proc_breakdown"):
            for p in (ids if rng.random() < 0.4 else [rng.choice(ids)]):
                s = f"PB_{k}_{p}"
                c.states.append(sd.ProcessBreakDownStateData(ID=s, description="", time_model_id=tm(5, 25),
                                type=sd.StateTypeEnum.ProcessBreakDownState, repair_time_model_id=rep(1, 8),
                                process_id=p))
                sids.append(s)
        if P("charging"):
            s = f"CH_{k}"
            c.states.append(sd.ChargingStateData(ID=s, description="", time_model_id=tm(2, 6),
                            type=sd.StateTypeEnum.ChargingState, battery_time_model_id=battery()))
            sids.append(s)
        l, li, lo_ = locs()
        mid = nm("M", k)
        qi = queue(f"{mid}_in", cap_min=batch or 1)
        qo = queue(f"{mid}_out", cap_min=batch or 1)
        qin, qout = [qi], [qo]
        if f["two_out"] and P("two_out"):
            next(q for q in c.qs if q.ID == qo).capacity = 0
            qout.append(f"{mid}_out2")
            c.qs.append(qd.QueueData(ID=qout[-1], description="", capacity=0))
        if stores and rng.random() < f["store_out_each"]:
            s = rng.choice(stores)
            qout.append(s)
            if len(stores) > 1 and f["store_two"] and P("store_two"):
                qout.append(next(x for x in stores if x != s))
        if stores and P("store_in") and rng.random() < f["store_in_each"]:
            qin.append(rng.choice(stores))
        rng.shuffle(sids)
        c.ress.append(rd.ProductionResourceData(ID=mid, description="", capacity=cap, location=l,
                      input_location=li, output_location=lo_, controller=ctrl,
                      control_policy=rng.choice(f["policies"]), process_ids=ids, process_capacities=pcs,
                      state_ids=sids, input_queues=qin, output_queues=qout, batch_size=batch))

    # ---- products
    n_p = R("n_products")
    for k in range(n_p):
        lo, hi = f["per_product_plan"]
        n = min(rng.randint(lo, hi), len(prod_procs)) if not f["repeat_process"] else rng.randint(lo, hi)
        if f["repeat_process"]:
            plan = [rng.choice(prod_procs) for _ in range(n)]
        else:
            plan = rng.sample(prod_procs, n)
        processes = plan
        if P("dag") and len(set(plan)) == len(plan) and len(plan) > 1:
            processes = {}
            dens = rng.choice(f["dag_density"])
            for a_i, a in enumerate(plan):
                processes[a] = [b for b in plan[a_i + 1:] if rng.random() < dens]
            if rng.random() < 0.3:      # DAG given as edge list instead
                edges = [[a, b] for a, bs in processes.items() for b in bs]
                if edges and {x for e in edges for x in e} == set(plan):
                    processes = edges
        c.prods.append(prd.ProductData(ID=nm("prod", k), description="", product_type=nm("prod", k),
                       processes=processes, transport_process=rng.choice(want)))
    shared_arr = []

    def arrival_model(i, k, j):
        """Arrival models of every kind (also without an end, shared, with two arrivals at a time)."""
        kind = rng.choice(f["arr_kinds"])
        lo, hi = f["arrival_gap"]
        n = rng.randint(1, 8)
        gaps = [num(lo, hi) for _ in range(n)]
        if kind == "shared" and shared_arr:
            return rng.choice(shared_arr)
        if kind == "const":
            c.tms.append(tmd.FunctionTimeModelData(ID=i, description="", distribution_function="constant", location=num(lo, hi), scale=0.0))
        elif kind == "sample":
            c.tms.append(tmd.SampleTimeModelData(ID=i, description="", samples=gaps))
        elif kind == "exp":
            c.tms.append(tmd.FunctionTimeModelData(ID=i, description="", distribution_function=rng.choice(["exponential", "normal", "lognormal"]),
                                                   location=num(lo + 1, hi + 1), scale=rng.choice([0.0, 1.0, 4.0])))
        else:
            ab = rng.random() < 0.5
            if kind == "zero":
                gaps = [g if rng.random() < 0.6 else 0.0 for g in gaps] + [num(lo, hi)]
            if ab:
                t, vals = 0.0, []
                for g in gaps:
                    t += g
                    vals.append(t)
                gaps = vals
            c.tms.append(tmd.ScheduledTimeModelData(ID=i, description="", schedule=gaps, absolute=ab,
                                                    cyclic=kind == "cyc" or (kind in ("zero", "shared") and rng.random() < 0.5)))
            shared_arr.append(i)
        return i

    # ---- sources / sinks
    for k in range(n_p):
        for j in range(2 if P("multi_source") else 1):
            n = R("arrivals")
            lo, hi = f["arrival_gap"]
            i = f"arr{k}_{j}"
            if f["arr_kinds"]:
                i = arrival_model(i, k, j)
            elif P("sched_arrivals"):
                gaps = [num(lo, hi) for _ in range(n)]
                if rng.random() < 0.5:
                    t, ab = 0.0, []
                    for g in gaps:
                        t += g
                        ab.append(t)
                    c.tms.append(tmd.ScheduledTimeModelData(ID=i, description="", schedule=ab, absolute=True, cyclic=False))
                else:
                    c.tms.append(tmd.ScheduledTimeModelData(ID=i, description="", schedule=gaps, absolute=False, cyclic=False))
            else:
                # bounded number of arrivals through the horizon
                g = num(lo, hi)
                c.tms.append(tmd.ScheduledTimeModelData(ID=i, description="", schedule=[g] * n, absolute=False, cyclic=False))
            c.srcs.append(srd.SourceData(ID=f"SRC{k}_{j}", description="", location=loc(), product_type=nm("prod", k),
                          time_model_id=i, routing_heuristic=rng.choice(f["heuristics"]),
                          output_queues=[queue(f"SRC{k}_{j}_out", finite_ok=False)]))
        for j in range(2 if P("multi_sink") else 1):
            c.snks.append(skd.SinkData(ID=f"SNK{k}_{j}", description="", location=loc(), product_type=nm("prod", k),
                          input_queues=[queue(f"SNK{k}_{j}_in", finite_ok=False)]))
    # ---- AGVs
    for k in range(n_agv):
        tids = [tprocs[k % n_tp]] if n_tp > 1 else [tprocs[0]]
        if n_tp > 1 and not link_cap and rng.random() < 0.4:
            tids = list(tprocs)
        sids = []
        if P("agv_breakdown"):
            s = f"BDA_{k}"
            c.states.append(sd.BreakDownStateData(ID=s, description="", time_model_id=tm(8, 25),
                            type=sd.StateTypeEnum.BreakDownState, repair_time_model_id=rep(1, 6)))
            sids.append(s)
        if P("charging"):
            s = f"CHA_{k}"
            c.states.append(sd.ChargingStateData(ID=s, description="", time_model_id=tm(2, 6),
                            type=sd.StateTypeEnum.ChargingState, battery_time_model_id=battery()))
            sids.append(s)
        cap = R("agv_cap")
        l = loc()
        if P("same_loc_agv"):
            l = list(rng.choice(c.srcs).location)
        c.ress.append(rd.TransportResourceData(ID=nm("A", k), description="", capacity=cap, location=l,
                      controller="TransportController", control_policy=rng.choice(f["t_policies"]),
                      process_ids=tids, state_ids=sids))
    # ---- links: a random connected graph over all locatables (+ nodes)
    if use_link:
        for k in range(rng.randint(0, 3)):
            c.nodes.append(nd.NodeData(ID=f"N{k}", description="", location=loc()))
        places = [r.ID for r in c.ress if r.ID.startswith("M")] + [s.ID for s in c.srcs] + \
                 [s.ID for s in c.snks] + [n.ID for n in c.nodes]
        if P("link_lone"):              # a machine off the network that others can stand in for
            ms = [r for r in c.ress if r.ID.startswith("M")]
            rng.shuffle(ms)
            for m in ms:
                if all(any(i in o.process_ids for o in ms if o is not m) for i in m.process_ids):
                    places.remove(m.ID)
                    break
        for p in c.procs:
            if p.ID in tprocs:
                ps = list(places)
                rng.shuffle(ps)
                if link_cap and p.ID != tprocs[0]:      # the first network reaches everything, the others do not
                    ps = ps[:rng.randint(3, max(3, len(ps)))]
                links = []
                for a_i in range(1, len(ps)):
                    links.append([ps[a_i], ps[rng.randrange(a_i)]])
                for _ in range(R("n_links_extra")):
                    a, b = rng.sample(ps, 2)
                    if [a, b] not in links and [b, a] not in links:
                        links.append([a, b])
                rng.shuffle(links)
                p.links = links
                if link_cap:            # a carrier starts inside its network
                    where = {x.ID: x.location for x in c.ress + c.srcs + c.snks + c.nodes}
                    for x in c.ress:
                        if x.process_ids == [p.ID]:
                            x.location = list(where[rng.choice(ps)])
    # ---- auxiliaries
    if P("aux") and not use_link:
        for k in range(rng.randint(1, 2)):
            l, li, lo_ = locs()
            n_st = rng.choice([1, 1, 2])
            sts, qty = [], []
            for j in range(n_st):
                l, li, lo_ = locs()
                c.qs.append(qd.StoreData(ID=f"AXST{k}_{j}", description="", capacity=rng.choice([0, 3, 4]),
                                         location=l, input_location=li, output_location=lo_))
                sts.append(f"AXST{k}_{j}")
                qty.append(rng.randint(1, 2))
            c.auxs.append(axd.AuxiliaryData(ID=nm("aux", k), description="", auxiliary_type=nm("aux", k),
                          transport_process=rng.choice(tprocs), storages=sts, quantity_in_storages=qty,
                          relevant_processes=[], relevant_transport_processes=list(tprocs)))
        for p in c.prods:
            if rng.random() < 0.8:
                p.auxiliaries = [rng.choice(c.auxs).ID]
    # the order of the entities of a kind means nothing
    if P("shuffle"):
        for lst in (c.tms, c.procs, c.states, c.nodes, c.qs):
            rng.shuffle(lst)
    a = JsonProductionSystemAdapter(
        ID="gen", seed=rng.randrange(10 ** 6), time_model_data=c.tms, process_data=c.procs,
        state_data=c.states, node_data=c.nodes, queue_data=c.qs, resource_data=c.ress,
        product_data=c.prods, sink_data=c.snks, source_data=c.srcs, auxiliary_data=c.auxs,
        scenario_data=None)
    return a
