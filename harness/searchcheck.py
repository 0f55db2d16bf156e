"""P28: fitness, documented solutions and results of the optimizers."""
import contextlib
import io
import json
import os

import common
import configcheck
import optcheck

FEATS = ["base", "cap", "multi", "setup", "bd", "finite", "loading", "aux", "charging"]


def k(v):
    return int(round(float(v) * 1000))


def quiet():
    return contextlib.ExitStack()


def blank():
    return {"obj": [], "w": [], "wmax": [], "wmin": [], "start": 0, "steps": 0, "size": 1, "score": [0], "limit": -1}


def subject(rng, feat, tries=12):
    from prodsys.optimization import adapter_manipulation as am
    from prodsys.optimization import optimization as op
    for _ in range(tries):
        tf = [t for t in optcheck.some(rng, optcheck.ALL_TF) if t != "sequencing_logic"] or ["production_capacity"]
        a = optcheck.subject(rng, feat, tf=tf, plain=True)
        for r in a.resource_data:
            r.control_policy = "FIFO"
        a.ID = "base"
        o = a.scenario_data.options
        o.machine_controllers, o.transport_controllers = ["FIFO"], ["FIFO"]
        a.scenario_data.constraints.max_reconfiguration_cost = rng.choice([10 ** 6, 2500])
        if rng.random() < .5:
            am.add_default_queues_to_resources(a)
        if op.check_valid_configuration(a.model_copy(deep=True), a):
            return a
    return None


def search_cfg(a):
    from prodsys.optimization import util as ou
    c = blank()
    c["obj"] = [optcheck.enum(o.name) for o in a.scenario_data.objectives]
    c["w"] = [k(o.weight) for o in a.scenario_data.objectives]
    c["wmax"] = [k(w) for w in ou.get_weights(a, "max")]
    c["wmin"] = [k(w) for w in ou.get_weights(a, "min")]
    return c


def own_runs(a, base, n):
    """The objectives' ingredients from own runs of the configuration."""
    from prodsys import runner as prunner
    from prodsys.optimization import optimization as op
    from prodsys.util.post_processing import PostProcessor
    out = []
    for seed in range(n):
        x = a.model_copy(deep=True)
        x.seed = seed
        r = prunner.Runner(adapter=x)
        r.initialize_simulation()
        r.run(x.scenario_data.info.time_range)
        rows = list(r.event_logger.event_data)
        created, fin = {}, []
        for e in rows:
            act = optcheck.enum(e["Activity"])
            if act == "created product":
                created[e["Product"]] = e["Time"]
            elif act == "finished product" and e["Product"] in created:
                fin.append({"t": e["Product"].rsplit("_", 1)[0], "d": k(e["Time"] - created[e["Product"]])})
        try:
            p = PostProcessor(df_raw=r.event_logger.get_data_as_dataframe())
            wip = k(sum(p.get_aggregated_wip_data()))
        except KeyError:
            wip = 0
        out.append({"fin": fin, "wip": wip, "cost": k(op.get_reconfiguration_cost(x, base))})
    return out


def py_fit(cfg, runs):
    vals = []
    for o in cfg["obj"]:
        xs = []
        for r in runs:
            if o == "throughput":
                xs.append(1000 * len(r["fin"]))
            elif o == "throughput_time":
                ty = {}
                for f in r["fin"]:
                    ty.setdefault(f["t"], []).append(f["d"])
                xs.append(sum(sum(v) / len(v) for v in ty.values()) / len(ty) if ty else 10 ** 8)
            else:
                xs.append(r["wip"] if o == "WIP" else r["cost"])
        vals.append(int(round(sum(xs) / len(xs))))
    return vals


def eval_job(rng, ev, observe):
    """A history of evaluations and documentations."""
    import random
    from prodsys.optimization import adapter_manipulation as am
    from prodsys.optimization import optimization as op
    feat = rng.choice(FEATS)
    a = subject(rng, feat)
    if a is None:
        return blank()
    random.seed(rng.randrange(10 ** 9))
    cfg = search_cfg(a)
    ev.append({"e": "weights"})
    n = rng.choice([1, 1, 2, 3])
    sd = {"current_generation": "0", "hashes": {}}
    perf = {"0": {}}
    pool = [a.model_copy(deep=True)]
    with common.Scratch() as sc:
        from prodsys.optimization import util as ou
        for step in range(7):
            x = rng.choice(pool).model_copy(deep=True)
            if rng.random() < .7:
                (ind,) = am.mutation([x])
                x = ind[0]
                if rng.random() < .25:
                    x.resource_data = [r for r in x.resource_data if hasattr(r, "input_queues")]     # no carrier: forbidden
            else:
                x.ID = f"copy{step}"
            valid = bool(op.check_valid_configuration(x.model_copy(deep=True), a))
            h = x.hash()
            known = h in sd["hashes"]
            fit = [k(v) for v in op.evaluate(a, sd, perf, n, "", [x])]
            ev.append({"e": "evaluate", "h": h, "valid": valid, "fit": fit, "runs": own_runs(x, a, n) if valid and not known else [], "what": feat})
            if rng.random() < .8:
                ou.document_individual(sd, sc.path, [x])
                perf["0"][x.ID] = {"fitness": [v / 1000 for v in fit]}
                ev.append({"e": "document", "h": h, "fit": fit})
            pool.append(x)
    return cfg


def tabu_job(rng, ev, observe):
    """The tabu search on a landscape of integers."""
    from prodsys.optimization.tabu_search import TabuSearch
    size = rng.randint(3, 12)
    cfg = blank()
    score = rng.sample(range(100), size)
    hoods = {i: rng.sample(range(size), rng.randint(1, min(4, size))) for i in range(size)}
    cfg.update(start=rng.randrange(size), steps=rng.randint(1, 12), size=rng.randint(1, 5), score=score, limit=rng.choice([-1, -1, 60, 85]))

    class Land(TabuSearch):
        def _score(self, state):
            return score[state]

        def _neighborhood(self):
            h = list(hoods[self.current])
            ev.append({"e": "hood", "cur": self.current, "hood": list(h)})
            return h

    alg = Land(cfg["start"], cfg["size"], cfg["steps"], None if cfg["limit"] == -1 else cfg["limit"])
    best, value = alg.run(verbose=False)
    ev.append({"e": "result", "best": best, "score": int(value)})
    return cfg


def pareto_job(rng, ev, observe):
    import numpy as np
    from prodsys.optimization import optimization_analysis as oa
    for _ in range(6):
        n, d = rng.randint(1, 7), rng.randint(1, 3)
        pts = [[rng.randint(0, 4) for _ in range(d)] for _ in range(n)]
        m1 = [bool(x) for x in oa.is_pareto_efficient_simple(np.array(pts))]
        m2 = [bool(x) for x in oa.is_pareto_efficient(np.array(pts))]
        ev.append({"e": "pareto", "pts": pts, "mask": m1, "mask2": m2})
    return blank()


def run_search(kind, a, folder, rng_par):
    import warnings
    warnings.simplefilter("ignore")
    os.makedirs(folder, exist_ok=True)
    p = rng_par
    if kind == "tabu":
        from prodsys.optimization import tabu_search as ts
        ts.tabu_search_optimization(a, ts.TabuSearchHyperparameters(seed=p["seed"], tabu_size=p["size"], max_steps=p["steps"], max_score=10 ** 9,
                                                                    number_of_seeds=p["n"]), folder, initial_solution=a.model_copy(deep=True))
    elif kind == "anneal":
        from prodsys.optimization import simulated_annealing as sa
        sa.simulated_annealing_optimization(a, sa.SimulatedAnnealingHyperparameters(seed=p["seed"], Tmax=1000, Tmin=1, steps=p["steps"] * 6, updates=1,
                                                                                    number_of_seeds=p["n"]), folder, initial_solution=a.model_copy(deep=True))
    else:
        from prodsys.optimization import evolutionary_algorithm as ea
        ea.evolutionary_algorithm_optimization(a, ea.EvolutionaryAlgorithmHyperparameters(
            seed=p["seed"], number_of_generations=p["steps"], population_size=p["pop"], mutation_rate=.4, crossover_rate=.5, number_of_seeds=p["n"],
            number_of_processes=1), folder)


def results(folder):
    with open(os.path.join(folder, "optimization_results.json")) as f:
        return json.load(f)


def search_job(rng, ev, observe, kind):
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.optimization import optimization as op
    feat = rng.choice(FEATS)
    a = subject(rng, feat)
    if a is None:
        return blank()
    a.scenario_data.info.time_range = 60
    if kind == "anneal":        # a walk of affordable steps that leads away from the baseline
        a.scenario_data.info.machine_cost = a.scenario_data.info.machine_cost or 800
        a.scenario_data.info.transport_resource_cost = a.scenario_data.info.transport_resource_cost or 600
        a.scenario_data.constraints.max_reconfiguration_cost = rng.choice([1100, 1500, 10 ** 6])
        if rng.random() < .7:
            from prodsys.models.scenario_data import ReconfigurationEnum as RE
            a.scenario_data.options.transformations = [RE.PRODUCTION_CAPACITY, RE.TRANSPORT_CAPACITY]
        a.scenario_data.constraints.max_num_machines += 3
        a.scenario_data.constraints.max_num_transport_resources += 3
    cfg = search_cfg(a)
    par = {"seed": rng.randrange(100), "size": rng.randint(1, 4), "steps": rng.randint(2, 4) if kind == "anneal" else rng.randint(1, 2), "pop": rng.choice([4, 8]), "n": 1}
    with common.Scratch() as sc:
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            run_search(kind, a.model_copy(deep=True), os.path.join(sc.path, "a"), par)
            run_search(kind, a.model_copy(deep=True), os.path.join(sc.path, "b"), par)
        res, res2 = results(os.path.join(sc.path, "a")), results(os.path.join(sc.path, "b"))
        first = True
        for g, sols in res.items():
            if kind == "evolution":
                ev.append({"e": "generation", "n": len(sols), "max": par["pop"]})
            for i, (sid, d) in enumerate(sols.items()):
                e = {"e": "solution", "id": sid, "h": d["hash"], "fit": [k(v) for v in d["fitness"]], "agg": k(d["agg_fitness"]),
                     "dir": "min" if kind == "anneal" else "max", "hfile": "", "own": [], "valid": False, "read": True, "gen": g, "kind": kind,
                     "must": (kind != "evolution" or g == "0") and not (kind != "evolution" and sid == "base"), "msg": ""}
                x = JsonProductionSystemAdapter()
                try:
                    x.read_data(os.path.join(sc.path, "a", f"generation_{g}_{sid}.json"))
                    x.scenario_data = a.scenario_data.model_copy(deep=True)
                    e["hfile"] = x.hash()
                    e["valid"] = bool(op.check_valid_configuration(x, a))
                    e["own"] = py_fit(cfg, own_runs(x, a, par["n"])) if e["valid"] else e["fit"]
                except ValueError as err:
                    e["read"], e["msg"] = False, str(err)[:300]
                ev.append(e)
        ev.append({"e": "again", "fits": [[k(v) for v in d["fitness"]] for s in res2.values() for d in s.values()]})
    return cfg


def policy_scenario():
    """Two configurations that only differ in a control policy, evaluated one after the other."""
    import gen
    from prodsys.optimization import optimization as op
    for seed in range(40):
        rng = common.rng_for("policy_cache", seed)
        a = gen.build(rng, n_machines=(1, 1), n_products=(2, 2), n_processes=(2, 2), arrival_gap=(1, 2), io_loc=0., machine_cap=(1, 1), n_agv=(2, 2), decimals=0.,
                      ptime=(2, 9), arrivals=(8, 12))
        a.scenario_data = optcheck.scenario(a, rng, tf=["sequencing_logic"])
        from prodsys.models import scenario_data as sc
        a.scenario_data.objectives = [sc.Objective(name="throughput_time", weight=1.)]
        a.scenario_data.constraints.max_reconfiguration_cost = 10 ** 6
        a.scenario_data.options.positions = [list(r.location) for r in a.resource_data if hasattr(r, "input_queues")]
        a.scenario_data.constraints.max_num_processes_per_machine = 9
        a.ID = "fifo"
        b = a.model_copy(deep=True)
        b.ID = "spt"
        for r in b.resource_data:
            if hasattr(r, "input_queues"):
                r.control_policy = "SPT"
        if not op.check_valid_configuration(a, a):
            continue
        cfg = search_cfg(a)
        own = py_fit(cfg, own_runs(b, a, 1))
        if abs(own[0] - py_fit(cfg, own_runs(a, a, 1))[0]) < 50:
            continue
        sd, perf = {"current_generation": "0", "hashes": {}}, {"0": {}}
        from prodsys.optimization import util as ou
        with common.Scratch() as s:
            fit = op.evaluate(a, sd, perf, 1, "", [a])
            ou.document_individual(sd, s.path, [a])
            perf["0"]["fifo"] = {"fitness": list(fit)}
            fb = op.evaluate(a, sd, perf, 1, "", [b])
        return {"cfg": cfg, "ev": [{"e": "policy", "fit": [k(v) for v in fb], "own": own, "what": "scenario"}],
                "meta": {"feat": "scenario", "key": ["policy_cache", seed], "error": ""}}
    return {"cfg": blank(), "ev": [{"e": "weights"}], "meta": {"feat": "scenario", "key": ["policy_cache"], "error": ""}}


def steady_ids(rng):
    """New objects of the searches get IDs in ascending order.  uuid1 is ascending too, except that it wraps every few
    minutes, and the WIP indicator (a mean over log rows) depends on the alphabetical order of the resources."""
    import itertools
    from prodsys.optimization import adapter_manipulation as am
    n, head = itertools.count(1), rng.choice("05af")
    am.uuid1 = lambda: f"{head}{next(n):07x}-0000-11f0-8000-000000000000"


KINDS = ["eval", "anneal", "land", "eval", "tabu", "anneal", "evolution", "pareto"]


def job(key):
    import logging
    logging.disable(logging.CRITICAL)
    import observe
    from prodsys.simulation import sim
    sim.VERBOSE = 0
    rng = common.rng_for(*key)
    kind = KINDS[key[-1] % len(KINDS)]
    steady_ids(rng)
    ev = []
    cfg = blank()
    meta = {"feat": kind, "key": list(key), "error": ""}
    if key[1] == "scenario":
        return policy_scenario()
    out = io.StringIO()
    try:
        with observe.wall_limit(150), contextlib.redirect_stdout(out):
            fn = {"eval": eval_job, "land": tabu_job, "pareto": pareto_job}.get(kind)
            cfg = fn(rng, ev, observe) if fn else search_job(rng, ev, observe, kind)
    except observe.Stuck:
        ev, cfg = [], blank()
        meta["late"] = True
    except ValueError as e:
        if "not ambiguous" not in str(e):       # a documented demand of the optimizers on breakdown states
            optcheck.crash(ev, kind, e)
    except Exception as e:
        optcheck.crash(ev, kind, e)
    if not ev:
        ev.append({"e": "weights"})
        cfg = blank()
    return {"cfg": cfg, "ev": ev, "meta": meta}


def check(chk, n):
    traces = common.pmap(job, [(chk.prop, common.seed(), i) for i in range(n)] + [(chk.prop, "scenario", 0)])
    chk.add("late", sum(bool(t["meta"].get("late")) for t in traces))
    configcheck.run(chk, "T_Search", traces, lambda e: json.dumps({a: b for a, b in e.items() if a != "runs"})[:900])
