"""Small builder for demonstrations: a production system from plain tuples, and a recorder of its log."""
import logging, os, random, sys, warnings
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
import numpy as np
import prodsys
from prodsys.simulation import sim
from prodsys import runner as prunner
from prodsys.adapters import JsonProductionSystemAdapter
from prodsys.models import (time_model_data as tmd, processes_data as pd_, state_data as sd, resource_data as rd,
                            product_data as prd, source_data as srd, sink_data as skd, queue_data as qd, node_data as nd,
                            auxiliary_data as axd)
logging.disable(logging.CRITICAL)
sim.VERBOSE = 0


class Sys:
    """Collects the parts of a configuration."""
    def __init__(self, seed=1):
        self.seed = seed
        self.tm, self.pr, self.st, self.rs, self.pd, self.sr, self.sk, self.q, self.nd, self.ax = ([] for _ in range(10))

    def const(self, i, v):
        self.tm.append(tmd.FunctionTimeModelData(ID=i, description="", distribution_function="constant", location=float(v), scale=0.0))
        return i

    def sched(self, i, times, absolute=True, cyclic=False):
        self.tm.append(tmd.ScheduledTimeModelData(ID=i, description="", schedule=[float(t) for t in times], absolute=absolute, cyclic=cyclic))
        return i

    def dist(self, i, speed=1.0, reaction=0.0, metric="manhattan"):
        self.tm.append(tmd.DistanceTimeModelData(ID=i, description="", speed=speed, reaction_time=reaction, metric=metric))
        return i

    def proc(self, i, v, **kw):
        self.pr.append(pd_.ProductionProcessData(ID=i, description="", time_model_id=self.const("t_" + i, v), type="ProductionProcesses", **kw))
        return i

    def rework(self, i, v, of, blocking):
        self.pr.append(pd_.ReworkProcessData(ID=i, description="", time_model_id=self.const("t_" + i, v), type="ReworkProcesses",
                                             reworked_process_ids=list(of), blocking=blocking))
        return i

    def trans(self, i, tm, **kw):
        self.pr.append(pd_.TransportProcessData(ID=i, description="", time_model_id=tm, type="TransportProcesses", **kw))
        return i

    def queue(self, i, cap=0):
        self.q.append(qd.QueueData(ID=i, description="", capacity=cap))
        return i

    def store(self, i, loc, cap=0, inp=None, out=None):
        self.q.append(qd.StoreData(ID=i, description="", capacity=cap, location=loc, input_location=inp or loc, output_location=out or loc))
        return i

    def machine(self, i, procs, loc, cap=1, incap=0, outcap=0, states=(), ins=(), outs=(), policy="FIFO", inp=None, out=None, **kw):
        self.rs.append(rd.ProductionResourceData(ID=i, description="", capacity=cap, location=loc, input_location=inp or loc,
            output_location=out or loc, controller=kw.pop("controller", "PipelineController"), control_policy=policy, process_ids=list(procs),
            state_ids=list(states), input_queues=[self.queue(i + "_in", incap), *ins], output_queues=[self.queue(i + "_out", outcap), *outs], **kw))
        return i

    def agv(self, i, procs, loc, cap=1, states=(), policy="FIFO"):
        self.rs.append(rd.TransportResourceData(ID=i, description="", capacity=cap, location=loc, controller="TransportController",
                                                control_policy=policy, process_ids=list(procs), state_ids=list(states)))
        return i

    def breakdown(self, i, tm, repair):
        self.st.append(sd.BreakDownStateData(ID=i, description="", time_model_id=tm, type="BreakDownState", repair_time_model_id=repair))
        return i

    def pbreakdown(self, i, tm, repair, process):
        self.st.append(sd.ProcessBreakDownStateData(ID=i, description="", time_model_id=tm, type="ProcessBreakDownState",
                                                    repair_time_model_id=repair, process_id=process))
        return i

    def setup(self, i, v, origin, target):
        self.st.append(sd.SetupStateData(ID=i, description="", time_model_id=self.const("t_" + i, v), type="SetupState",
                                         origin_setup=origin, target_setup=target))
        return i

    def charging(self, i, v, battery):
        self.st.append(sd.ChargingStateData(ID=i, description="", time_model_id=self.const("t_" + i, v), type="ChargingState",
                                            battery_time_model_id=self.const("b_" + i, battery)))
        return i

    def product(self, t, processes, tproc, **kw):
        self.pd.append(prd.ProductData(ID=t, description="", product_type=t, processes=processes, transport_process=tproc, **kw))
        return t

    def source(self, i, t, loc, arrivals, heuristic="FIFO"):
        self.sr.append(srd.SourceData(ID=i, description="", location=loc, product_type=t, time_model_id=self.sched("arr_" + i, arrivals),
                                      routing_heuristic=heuristic, output_queues=[self.queue(i + "_out")]))

    def sink(self, i, t, loc):
        self.sk.append(skd.SinkData(ID=i, description="", location=loc, product_type=t, input_queues=[self.queue(i + "_in")]))

    def adapter(self, **kw):
        return JsonProductionSystemAdapter(ID="demo", seed=self.seed, time_model_data=self.tm, process_data=self.pr, state_data=self.st,
            node_data=self.nd, queue_data=self.q, resource_data=self.rs, product_data=self.pd, sink_data=self.sk, source_data=self.sr,
            auxiliary_data=self.ax, scenario_data=None, **kw)


def run(a, horizon, watch=None):
    """Simulates; returns (rows of the event log, runner). watch(runner) is called before time advances."""
    r = prunner.Runner(a)
    r.initialize_simulation()
    if watch:
        step = r.env.step
        def stepper():
            if r.env.peek() > r.env.now:
                watch(r)
            step()
        r.env.step = stepper
    r.run(horizon)
    return [row(x) for x in r.event_logger.event_data], r


def row(x):
    v = lambda y: getattr(y, "value", y)
    return dict(t=x["Time"], r=x.get("Resource"), s=x.get("State"), y=v(x.get("State Type")), a=v(x.get("Activity")), p=x.get("Product") or "",
                x=x.get("Expected End Time"), o=x.get("Origin location"), g=x.get("Target location"), em=x.get("Empty Transport"))


def work(rows, kind="Production"):
    """(product, process, resource, start, end) of the pieces of work of a kind."""
    out, open_ = [], {}
    for e in rows:
        if e["y"] != kind:
            continue
        k = (e["r"], e["s"], e["p"])
        if e["a"] == "start state":
            open_.setdefault(k, e["t"])
        elif e["a"] == "end state" and k in open_:
            out.append((e["p"], e["s"], e["r"], open_.pop(k), e["t"]))
    return out


def finished(rows):
    return [e["p"] for e in rows if e["a"] == "finished product"]
