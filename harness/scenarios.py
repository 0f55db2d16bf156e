"""Fixed configurations that show a recorded genuine defect (known_findings.json) of prodsys."""
from prodsys.adapters import JsonProductionSystemAdapter as A
from prodsys.models import (processes_data as pd_, resource_data as rd, product_data as prd, queue_data as qd, source_data as sd, sink_data as sk,
                            time_model_data as td, state_data as st)


def _const(i, v):
    return td.FunctionTimeModelData(ID=i, description="", distribution_function="constant", location=v, scale=0.0)


def _sched(i, v):
    return td.ScheduledTimeModelData(ID=i, description="", schedule=v, absolute=True, cyclic=False)


def _basic(arrivals, ptime, capacity, processes=("P0",), plan=None, states=(), state_data=(), **machine):
    """one source, one machine, one carrier, one sink; all at distance zero or with constant transport time"""
    tms = [_sched("arr", arrivals), _const("tp", .5)] + [_const("w" + p, t) for p, t in zip(processes, ptime)]
    procs = [pd_.ProductionProcessData(ID=p, description="", time_model_id="w" + p, type="ProductionProcesses") for p in processes]
    procs.append(pd_.TransportProcessData(ID="TP", description="", time_model_id="tp", type="TransportProcesses"))
    m = rd.ProductionResourceData(ID="M0", description="", capacity=capacity, location=[5., 0.], controller=machine.pop("controller", "PipelineController"), control_policy="FIFO",
                                  process_ids=list(processes), process_capacities=[capacity] * len(processes), states_ids=[], state_ids=list(states),
                                  input_queues=["M0in"], output_queues=["M0out"], **machine)
    g = rd.TransportResourceData(ID="A0", description="", capacity=1, location=[0., 0.], controller="TransportController", control_policy="FIFO",
                                 process_ids=["TP"], process_capacities=[1])
    return A(ID="scenario", seed=1, time_model_data=tms + [x for x in state_data if hasattr(x, "distribution_function")],
             process_data=procs, state_data=[x for x in state_data if not hasattr(x, "distribution_function")], resource_data=[m, g],
             queue_data=[qd.QueueData(ID=i, description="", capacity=0) for i in ("M0in", "M0out", "S0out", "K0in")],
             product_data=[prd.ProductData(ID="prod0", description="", product_type="prod0", processes=list(plan or processes), transport_process="TP")],
             source_data=[sd.SourceData(ID="S0", description="", location=[0., 0.], product_type="prod0", time_model_id="arr", routing_heuristic="FIFO", output_queues=["S0out"])],
             sink_data=[sk.SinkData(ID="K0", description="", location=[10., 0.], product_type="prod0", input_queues=["K0in"])])


def three_running():
    """three products are processed at the same time; when the first is finished, the two others keep running"""
    return _basic([1., 3., 5.], [20.], 3), {"strict": 1}


def _queues(a, more, **cap):
    for i, n in more:
        a.queue_data.append(qd.QueueData(ID=i, description="", capacity=n))
    for q in a.queue_data:
        q.capacity = cap.get(q.ID, q.capacity)
    return a


def two_outputs():
    """a machine with two finite output queues puts every product into one of them, from where it is fetched"""
    a = _basic([1., 2., 3., 4., 5., 6., 7., 8., 9., 10.], [3.], 1)
    a.resource_data[0].output_queues.append("M0out2")
    return _queues(a, [("M0out2", 5)], M0out=5), {}


def two_inputs():
    """a machine with two finite input queues: room that is reserved is given back"""
    a = _basic([1., 2., 3., 4., 5., 6., 7., 8., 9., 10.], [3.], 1)
    a.resource_data[0].input_queues.append("M0in2")
    return _queues(a, [("M0in2", 4)], M0in=4), {}


def batch_outputs():
    """a batch machine with two output queues"""
    a = _basic([1., 2., 3., 4., 5., 6., 7., 8., 9., 10.], [3.], 2, batch_size=2, controller="BatchController")
    a.resource_data[0].output_queues.append("M0out2")
    return _queues(a, [("M0out2", 5)], M0out=5), {}


ALL = {f.__name__: f for f in (three_running, two_outputs, two_inputs, batch_outputs)}
