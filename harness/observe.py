"""Run the real simulator on a configuration and record what it does.

Nothing in /repo is changed: observation is attached from outside, at run time, to
  * every queue's item list            -> exact, ordered `enq` / `deq` events
  * the environment's request hook     -> `req` events
  * the event logger's row list        -> `log` events (same order as everything else)
  * the event loop, just before simulated time advances -> `snap` (quiescent snapshot)
Times are integers: simulated minutes * SCALE.
"""
import contextlib
import io
import logging
import random
import signal
import sys
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import numpy as np
import simpy

import prodsys
from prodsys.simulation import sim, store, logger as plogger, resources
from prodsys import runner as prunner

sim.VERBOSE = 0
SCALE = 1000
WALL = 60


def T(x):
    return int(round(float(x) * SCALE))


class Recorder:
    def __init__(self):
        self.ev = []
        self.env = None
        self.same = 0
        self.reqs = {}       # id(request) -> rid (request objects kept alive in self.keep)
        self.keep = []

    def now(self):
        return T(self.env.now) if self.env is not None else 0


CUR = None      # the recorder of the simulation now being built / run


class RecItems(list):
    """A queue's item list; reports every insertion and removal, whatever method is used."""

    def __init__(self, qid, rec):
        super().__init__()
        self.qid, self.rec = qid, rec

    def _enq(self, x):
        self.rec.ev.append({"e": "enq", "t": self.rec.now(), "q": self.qid, "p": x.ID})

    def _deq(self, x):
        self.rec.ev.append({"e": "deq", "t": self.rec.now(), "q": self.qid, "p": x.ID})

    def append(self, x):
        list.append(self, x)
        self._enq(x)

    def insert(self, i, x):
        list.insert(self, i, x)
        self._enq(x)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def pop(self, *a):
        x = list.pop(self, *a)
        self._deq(x)
        return x

    def remove(self, x):
        i = list.index(self, x)
        y = list.pop(self, i)
        self._deq(y)

    def __delitem__(self, i):
        xs = self[i] if isinstance(i, slice) else [self[i]]
        list.__delitem__(self, i)
        for x in xs:
            self._deq(x)

    def clear(self):
        while self:
            self.pop()

    def __reduce__(self):
        return (list, (list(self),))

    def __deepcopy__(self, memo):
        return list(self)


def _cell(x):
    if x is None or x is False or x is True:
        return "" if x is None else str(x)
    if isinstance(x, float):
        return "" if x != x else f"{float(x):.6f}"
    if hasattr(x, "value"):
        return str(x.value)
    if hasattr(x, "dtype") or isinstance(x, int):
        return f"{float(x):.6f}"
    s = str(x)
    return "" if s in ("nan", "<NA>", "None") else s


COLUMNS = ("Time", "Resource", "State", "State Type", "Activity", "Product", "Expected End Time", "Origin location",
           "Target location", "Empty Transport")


EVENT_COLUMNS = ("Time", "Resource", "State", "State Type", "Activity", "Product", "Expected End Time", "Target location")


def row_text(row, columns=COLUMNS):
    """One row of the event log as text, the same for the recorded and the returned form."""
    return "|".join(_cell(row.get(k)) for k in columns)


class RecLog(list):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec
        rec.rows = []

    def append(self, row):
        list.append(self, row)
        self.rec.rows.append((row_text(row), row_text(row, EVENT_COLUMNS)))
        e = log_event(row)
        e["n"] = self.rec.now() if self.rec.env is not None else e["t"]
        self.rec.ev.append(e)


def _val(x):
    return x.value if hasattr(x, "value") else ("" if x is None else str(x))


def log_event(row):
    d = {"e": "log", "t": T(row["Time"]), "r": row.get("Resource") or "", "s": row.get("State") or "",
         "y": _val(row.get("State Type")), "a": _val(row.get("Activity")), "p": row.get("Product") or "",
         "x": T(row["Expected End Time"]) if row.get("Expected End Time") is not None else -1,
         "o": row.get("Origin location") or "", "g": row.get("Target location") or "",
         "em": 1 if row.get("Empty Transport") else 0}
    return d


class Stuck(Exception):
    pass


@contextlib.contextmanager
def wall_limit(seconds):
    """Bound the wall time of a simulation (an endless loop is an observation too)."""
    def onalarm(*_):
        raise Stuck(f"no end within {seconds} s")
    try:
        old = signal.signal(signal.SIGALRM, onalarm)
    except ValueError:          # not in the main thread
        yield
        return
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_patched = False


def patch():
    global _patched
    if _patched:
        return
    _patched = True
    q_init = store.Queue.__init__

    def queue_init(self, env, data):
        q_init(self, env, data)
        if CUR is not None:
            self.items = RecItems(data.ID, CUR)
    store.Queue.__init__ = queue_init

    l_init = plogger.EventLogger.__init__

    def logger_init(self, **kw):
        l_init(self, **kw)
        if CUR is not None:
            self.event_data = RecLog(CUR)
    plogger.EventLogger.__init__ = logger_init

    env_req = sim.Environment.request_process_of_resource

    def request_process_of_resource(self, request):
        rec = CUR
        if rec is not None and rec.env is self:
            rid = len(rec.reqs) + 1
            rec.reqs[id(request)] = rid
            rec.keep.append(request)
            pr = request.process
            d = {"e": "req", "t": rec.now(), "n": rid, "r": request.resource.data.ID,
                 "p": request.product.product_data.ID, "pr": pr.process_data.ID,
                 "k": "trans" if hasattr(request, "target") else "prod", "o": "", "g": ""}
            if d["k"] == "trans":
                d["o"] = request.origin.data.ID
                d["g"] = request.target.data.ID
                d["route"] = [x.data.ID for x in (request.route or [])]
            rec.ev.append(d)
        return env_req(self, request)
    sim.Environment.request_process_of_resource = request_process_of_resource

    e_step = simpy.core.Environment.step

    def step(self):
        rec = CUR
        if rec is not None and rec.env is self and rec.snap_fn is not None:
            if self.peek() > self.now:
                rec.same = 0
                rec.snap_fn()
            else:
                rec.same += 1
                if rec.same > 200000:
                    raise Stuck("simulated time does not advance")
        return e_step(self)
    sim.Environment.step = step


def snapshot(rec, r):
    s = {"e": "snap", "t": rec.now()}
    s["q"] = {q.data.ID: [x.ID for x in q.items] for q in r.queue_factory.queues}
    s["full"] = [q.data.ID for q in r.queue_factory.queues if q.full]
    loc = {}
    for p in r.product_factory.products:
        l = p.current_locatable
        loc[p.product_data.ID] = l.data.ID if l is not None else ""
    s["loc"] = loc
    s["alive"] = {p.product_data.ID: bool(p.process is not None and p.process.is_alive)
                  for p in r.product_factory.products}
    s["fin"] = len(r.product_factory.finished_products)
    w, pos = {}, {}
    for res in r.resource_factory.resources:
        c = res.controller
        w[res.data.ID] = [rec.reqs[id(x)] for x in c.requests if id(x) in rec.reqs]
        if isinstance(res, resources.TransportResource):
            pos[res.data.ID] = [T(v) for v in res.get_location()]
    s["w"] = w
    s["pos"] = pos
    s["setup"] = {res.data.ID: (res.current_setup.process_data.ID if res.current_setup else "")
                  for res in r.resource_factory.resources}
    s["aux"] = {a.data.ID: [1 if a.reserved else 0,
                            a.current_product.product_data.ID if a.current_product else "",
                            a.current_locatable.data.ID if a.current_locatable else ""]
                for a in r.auxiliary_factory.auxiliaries}
    return s


class SimResult:
    __slots__ = ("ev", "error", "stage", "runner", "adapter", "horizon", "finished", "open", "rows")


def run(adapter, horizon, snaps=True, keep_runner=False, seed=None):
    """Simulate; returns SimResult with .ev (list of dicts) and .error ('' or text)."""
    global CUR
    patch()
    if seed is not None:
        adapter.seed = seed
    rec = Recorder()
    rec.snap_fn = None
    CUR = rec
    res = SimResult()
    res.error, res.stage = "", "ok"
    res.adapter, res.horizon, res.runner = adapter, horizon, None
    res.finished, res.open = [], []
    np_state, py_state = np.random.get_state(), random.getstate()
    try:
        r = prunner.Runner(adapter)
        try:
            res.stage = "init"
            r.initialize_simulation()
            rec.env = r.env
            if snaps:
                rec.snap_fn = lambda: rec.ev.append(snapshot(rec, r))
            res.stage = "run"
            with wall_limit(WALL):
                r.run(horizon)
            res.stage = "ok"
        except Exception as e:      # noqa: a crash of the simulated system is an observation
            res.error = f"{type(e).__name__}: {str(e)[:160]}"
        if res.stage in ("ok", "run"):
            try:
                if snaps:
                    rec.ev.append(snapshot(rec, r))
                    rec.ev[-1]["final"] = 1
            except Exception as e:
                res.error = res.error or f"{type(e).__name__}: {str(e)[:160]}"
            res.finished = [p.product_data.ID for p in r.product_factory.finished_products]
            res.open = [p.product_data.ID for p in r.product_factory.products]
        if keep_runner:
            res.runner = r
    finally:
        CUR = None
        np.random.set_state(np_state)
        random.setstate(py_state)
    res.ev = rec.ev
    res.rows = getattr(rec, "rows", [])
    return res
