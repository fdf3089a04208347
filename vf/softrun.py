"""Runs bin/i-pi with a stop request injected at a chosen moment.

usage: softrun.py plan.json   (in the run folder; the plan names the input)

plan keys
  repo, input, prefix (sockets)
  how      : term, int, exit, thread, none
  only     : count only the lines of files whose path holds this
  line     : deliver the stop before the n-th line executed by the main thread
             in i-PI code once the run has started
  held     : deliver it the n-th time the main thread may hold the lock of a forcefield
  at       : [label, n] deliver it at the n-th pass of a labelled point
  seed     : seed of the injected delays
  delays   : largest delay (seconds) before each soft exit callback
  log      : event log (JSON lines)
"""
import json
import os
import random
import runpy
import signal
import sys
import threading
import time

import faulthandler  # noqa: E402

faulthandler.register(signal.SIGUSR1, all_threads=True)
plan = json.load(open(sys.argv[1]))
sys.path.insert(0, plan["repo"])
rnd = random.Random(plan.get("seed", 0))
log = open(plan["log"], "a", buffering=1)
t0 = time.time()
state = dict(lines=0, on=False, done=False, points={}, by={})
ONLY = ("engine/outputs.py", "io/backends", "engine/forcefields.py", "engine/forces.py", "engine/simulation.py", "smotion")


def ev(what, **kw):
    kw.update(ev=what, t=round(time.time() - t0, 4), thr=threading.current_thread().name)
    log.write(json.dumps(kw) + "\n")


from ipi.engine import outputs as eo  # noqa: E402
from ipi.engine import simulation as es  # noqa: E402
from ipi.utils import softexit as se  # noqa: E402

se.SOFTEXITLATENCY = 0.02


def stop(where):
    if state["done"]:
        return
    state["done"] = True
    how = plan["how"]
    ev("stop", how=how, where=where)
    if how == "term":
        os.kill(os.getpid(), signal.SIGTERM)
    elif how == "int":
        os.kill(os.getpid(), signal.SIGINT)
    elif how == "exit":
        open("EXIT", "w").close()
        time.sleep(rnd.choice([0, 0, 0.03, 0.06]))
    elif how == "thread":
        threading.Thread(target=se.softexit.trigger, kwargs=dict(message="injected"), daemon=True).start()
        time.sleep(rnd.choice([0, 0, 0.001, 0.02]))


def point(label):
    if not state["on"]:
        return
    n = state["points"].get(label, 0) + 1
    state["points"][label] = n
    if plan.get("at") == [label, n]:
        stop("%s #%d" % (label, n))


def trace(frame, event, arg):
    fn = frame.f_code.co_filename
    if "/ipi/" not in fn or "/ipi/utils/softexit" in fn or "/ipi/utils/messages" in fn:
        return None
    return local


def local(frame, event, arg):
    if event == "line" and state["on"]:
        for o in ONLY:
            if o in frame.f_code.co_filename:
                state["by"][o] = state["by"].get(o, 0) + 1
        state["lines"] += 1
        if plan.get("held") and frame.f_code.co_name in ("release", "queue"):
            lock = getattr(frame.f_locals.get("self"), "_threadlock", None)
            if lock is not None and lock.locked():
                state["held"] = state.get("held", 0) + 1
                if state["held"] == plan["held"]:
                    stop("lock held:%d" % frame.f_lineno)
                    sys.settrace(None)
                    return local
        if (state["lines"] if not plan.get("only") else (state["by"].get(plan["only"], 0) if plan["only"] in frame.f_code.co_filename else -5)) == plan.get("line"):
            stop("%s:%d" % (os.path.relpath(frame.f_code.co_filename, plan["repo"]), frame.f_lineno))
            sys.settrace(None)
    return local


def wrap(cls, name, label):
    f = getattr(cls, name)

    def g(*a, **kw):
        point(label + "<")
        r = f(*a, **kw)
        point(label + ">")
        return r

    setattr(cls, name, g)


for c, n, la in (
    (es.Simulation, "run_step", "step"),
    (eo.PropertyOutput, "write", "props"),
    (eo.TrajectoryOutput, "write_traj", "frame"),
    (eo.CheckpointOutput, "write", "chk"),
):
    wrap(c, n, la)

# points within the storing of a checkpoint, at the end of a motion, and in the softexit callbacks
from ipi.inputs import beads as ib  # noqa: E402
from ipi.inputs import system as isy  # noqa: E402
from ipi.engine.motion import dynamics as md  # noqa: E402

wrap(isy.InputSystem, "store", "store")
wrap(ib.InputBeads, "store", "bstore")
wrap(md.Dynamics, "step", "motion")

_step = es.Simulation.run_step


def run_step(self, step):
    ev("begin", step=int(step))
    r = _step(self, step)
    ev("end", step=int(step), triggered=se.softexit.triggered)
    return r


es.Simulation.run_step = run_step
_reg = se.Softexit.register_function


def register(self, func, *a, **kw):
    def g(*b, **kb):
        if plan.get("delays"):
            time.sleep(rnd.random() * plan["delays"])
        ev("callback", f=getattr(func, "__qualname__", str(func)))
        return func(*b, **kb)

    return _reg(self, g, *a, **kw)


se.Softexit.register_function = register
_run = es.Simulation.run


def run(self, *a, **kw):
    state["on"] = True
    if plan.get("line") is not None or plan.get("held"):
        sys.settrace(trace)
    ev("run", step=int(self.step))
    r = _run(self, *a, **kw)
    sys.settrace(None)
    state["on"] = False
    ev("ran", lines=state["lines"], points=state["points"], by=state["by"])
    return r


es.Simulation.run = run
sys.argv = ["i-pi", "-S", plan.get("prefix", os.path.join(os.getcwd(), "s_")), plan["input"]]
try:
    runpy.run_path(os.path.join(plan["repo"], "bin", "i-pi"), run_name="__main__")
finally:
    ev("leaving")
