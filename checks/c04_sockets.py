"""C04: every force request gets exactly one result, the right one, whatever the
drivers on the other end of the sockets do."""
import glob
import json
import os
import sys
import threading
import time
import traceback

import numpy as np

from vf.core import sub_seed

PROPERTY = "C04"
LEVEL = "tested"
TECHNIQUE = "runtime monitoring of the real socket server under injected client faults (death, reset, stall, fragmentation, wrong replies at every protocol stage), with an exactly-once and value oracle per request and a deadline for liveness"
NOTE = "clients are independent threads speaking the wire protocol; silence is only required to be survived when a timeout is set"
RULE = "each case is one server (mode, message style, batch, matching, timeout) and a fleet of clients with fault plans; every request of every round is checked"
ASSUMPTIONS = "a client that follows the protocol within the timeout counts as healthy; matching=lock ends the run when a client leaves, so it is only used without faults"
TIMEOUT = {"quick": 120, "thorough": 300}
HANG_IS_VIOLATION = True

STAGES = ["connected", "status_init", "init", "status_ready", "pos_header", "pos", "status_data", "getforce", "sent"]


def cases(tier, seed):
    out = []
    n = 44 if tier == "quick" else 600
    for i in range(n):
        fault = ["die", "mixed", "stall", "frag", "reply", "none", "die", "late", "mixed", "die", "lock"][i % 11]
        nm = "%s_%d" % (fault, i)
        out.append(dict(name=nm, fault=fault, i=i, cseed=sub_seed(seed, nm), rounds=4 if tier == "quick" else 8))
    # one fault at a time, at every stage
    for mode in ("unix", "inet", "shm"):
        for cons in (True, False):
            for what in ("die", "rst", "stall"):
                if what == "rst" and mode != "inet":
                    continue
                for st in STAGES:
                    if not cons and st == "connected" and tier == "quick" and what != "rst":
                        continue
                    nm = "one_%s_%s_%s_%s" % (mode, "cons" if cons else "thr", what, st)
                    out.append(dict(name=nm, fault="one", mode=mode, cons=cons, what=what, stage=st, cseed=sub_seed(seed, nm), rounds=2))
    return out


def energy(cell, pos):
    """A value per structure that no other structure has."""
    q = np.asarray(pos, float).reshape(-1)
    w = np.sin(np.arange(1, len(q) + 1) * 1.7)
    v = float(w @ q + 0.01 * (q @ q) + np.trace(cell))
    f = np.cos(q)[::-1].reshape(-1, 3) * 3.0 + np.asarray(pos).reshape(-1, 3)
    vir = np.asarray(cell) * 0.5 + np.outer(q[:3], q[-3:])
    return v, f, vir, json.dumps(dict(dipole=[float(x) for x in q[:3]], tag="s%.6f" % v))


class Request(object):
    pass


def one_plan(case, rng, timeout):
    st, what = case["stage"], case["what"]
    first = [True]

    def plan(n, stage):
        if stage == st and first[0]:
            first[0] = False
            if what == "stall":
                return ("sleep", 3 * timeout)
            return (what,)
        return None

    return plan


def random_plan(rng, kinds, timeout, mode, after):
    """One fault after `after` structures."""
    kind = str(rng.choice(kinds))
    st = str(rng.choice(STAGES))
    fired = [False]
    frac = float(rng.random())
    k = int(rng.integers(1, 200))
    word = str(rng.choice(["NONSENSE", "", "READY", "NEEDINIT"]))
    dn = int(rng.choice([-1, 1, 2]))

    def plan(n, stage):
        if fired[0] or n < after and stage not in ("connected", "status_init", "init"):
            return None
        if kind == "die" and stage == st:
            a = ("die",)
        elif kind == "rst" and stage == st:
            a = ("rst",)
        elif kind == "stall" and stage == st:
            a = ("sleep", 3 * timeout)
        elif kind == "cut" and stage == "getforce":
            a = ("cut", frac)
        elif kind == "halt" and stage == "getforce":
            a = ("stall", frac, 3 * timeout)
        elif kind == "cutstatus" and stage.startswith("status"):
            a = ("cut", frac)
        elif kind == "size" and stage == "getforce":
            a = ("size", dn)
        elif kind == "garbage" and stage == "getforce":
            a = ("garbage", k)
        elif kind == "word" and stage == "status_data":
            a = ("say", word)
        else:
            return None
        fired[0] = True
        return a

    plan.kind = kind + ("@" + st if kind in ("die", "rst", "stall") else "")
    return plan


def run(case, rec):
    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell
    from ipi.engine.forcefields import FFSocket
    from ipi.interfaces import sockets as S
    from ipi.utils.messages import verbosity
    from ipi.utils.softexit import softexit
    from vf.client import Client

    verbosity.level = "quiet"
    rng = np.random.default_rng(case["cseed"])
    one = case["fault"] == "one"
    mode = case.get("mode") or str(rng.choice(["unix", "inet", "shm"]))
    cons = case["cons"] if one else bool(rng.random() < 0.55)
    batch = int(rng.choice([1, 1, 2, 3])) if cons and not one and case["fault"] != "lock" else 1
    fault = case["fault"]
    silent = fault in ("stall", "mixed") or (one and case["what"] == "stall")
    timeout = 0.6 if silent else float(rng.choice([0.0, 5.0]))
    match = "lock" if fault == "lock" else str(rng.choice(["auto", "any"]))
    nat = int(rng.integers(1, 9)) if rng.random() < 0.8 else int(rng.integers(300, 900))
    nreq = int(rng.integers(1, 9)) if not one else 3
    pref = os.path.join(os.getcwd(), "s_")
    if len(pref) > 90:
        import tempfile

        pref = os.path.join(tempfile.mkdtemp(prefix="vf4"), "s_")
    addr, port = "x", 0
    if mode == "inet":
        import socket as so

        t = so.socket()
        t.bind(("127.0.0.1", 0))
        port = t.getsockname()[1]
        t.close()
        addr = "127.0.0.1"
    offset = float(rng.choice([0.0, 0.25]))
    active = np.array([-1])
    if rng.random() < 0.25 and nat > 1:
        active = np.sort(rng.choice(nat, int(rng.integers(1, nat + 1)), replace=False))
    inter = S.InterfaceSocket(address=addr, port=port, slots=8, mode=mode, timeout=timeout, match_mode=match, sockets_prefix=pref, consolidate_messages=cons, batch_size=batch, max_workers=16)
    ff = FFSocket(latency=1e-4, offset=offset, name="ff", pars={"a": 1, "b": "two"}, dopbc=bool(rng.random() < 0.3), active=active, interface=inter)
    died = []
    hook = threading.excepthook

    def on_exc(a):
        died.append("".join(traceback.format_exception(a.exc_type, a.exc_value, a.exc_traceback))[-700:])

    threading.excepthook = on_exc
    ff.start()

    def client(plan=None, frag=0, delay=0.0, slow=None):
        def en(c, q):
            if slow:
                time.sleep(slow() if callable(slow) else slow)
            return energy(c, q)

        c = Client(addr, en, mode="inet" if mode == "inet" else "unix", port=port, prefix=pref, plan=plan, frag=frag, connect_delay=delay, shm=mode == "shm")
        c.kind = getattr(plan, "kind", None)
        c.start()
        return c

    healthy, faulty = [], []
    kinds = {
        "die": ["die", "cut", "cutstatus"] + (["rst", "rst"] if mode == "inet" else []),
        "stall": ["stall", "stall", "halt"],
        "reply": ["size", "garbage", "word", "cutstatus"],
        "mixed": ["die", "cut", "cutstatus", "stall", "halt", "size", "garbage", "word"] + (["rst"] if mode == "inet" else []),
    }.get(fault)
    if kinds and mode == "shm":
        kinds = [k for k in kinds if k != "size"]
    if one:
        faulty.append(client(one_plan(case, rng, timeout)))
        healthy.append(client(delay=0.3))
    elif fault in ("none", "frag", "lock"):
        for _ in range(nreq if fault == "lock" else int(rng.integers(1, 5))):
            healthy.append(client(frag=int(rng.choice([1, 3, 5, 7, 13, 64])) if fault == "frag" else 0, delay=float(rng.random() * 0.1), slow=lambda: float(rng.random() * 0.02)))
    elif fault == "late":
        healthy.append(client(delay=float(rng.random() * 1.5 + 0.3)))
    else:
        for _ in range(int(rng.integers(1, 5))):
            faulty.append(client(random_plan(rng, kinds, timeout, mode, int(rng.integers(0, 4))), frag=int(rng.choice([0, 0, 5])) if timeout == 0 else 0, delay=float(rng.random() * 0.2)))
        healthy.append(client(delay=float(rng.choice([0.0, 0.4, 1.0])), slow=float(rng.choice([0.0, 0.01]))))
    deadline = 40.0
    lost = False
    nat_act = nat if active[0] == -1 else len(active)
    for rd in range(case["rounds"]):
        reqs, ths, sets = [], [], {}
        lock = threading.Lock()

        def ask(k, ident):
            at = Atoms(nat)
            at.q[:] = k.standard_normal(3 * nat) * 4.0
            ce = Cell(np.array([[9.0 + k.random(), k.random(), 0], [0, 10.0, k.random()], [0, 0, 11.0]]))
            r = ff.queue(at, ce, reqid=ident)
            # counts completions without changing the event
            ev = r._event_done
            orig = ev.set
            count = [0]

            def counted():
                with lock:
                    count[0] += 1
                orig()

            ev.set = counted
            with lock:
                if ev.is_set() and count[0] == 0:
                    count[0] = 1
                reqs.append((r, np.array(at.q), np.array(ce.h)))
                sets[len(reqs) - 1] = count

        for k in range(nreq):
            th = threading.Thread(target=ask, args=(np.random.default_rng(int(rng.integers(1 << 40))), k))
            ths.append(th)
            th.start()
            if rng.random() < 0.3:
                time.sleep(float(rng.random()) * 0.005)
        for th in ths:
            th.join()
        t0 = time.time()
        for r, q, h in reqs:
            if not r._event_done.wait(max(0.01, deadline - (time.time() - t0))):
                lost = True
        if fault not in ("none", "frag", "lock", "late") and not one and rd < case["rounds"] - 1:
            # more trouble keeps coming
            for _ in range(int(rng.integers(0, 2))):
                faulty.append(client(random_plan(rng, kinds, timeout, mode, int(rng.integers(0, 3)))))
        kind = " ".join(str(c.kind) for c in faulty)
        cfg = "%s %s batch=%d match=%s timeout=%g nat=%d nreq=%d round=%d faults: %s" % (mode, "consolidated" if cons else "threaded", batch, match, timeout, nat, nreq, rd, case.get("stage", "") + case.get("what", "") + kind)
        if not rec.check(not lost, "answered", "%d of %d requests were not answered within %g s [%s] poll thread alive: %s %s %s" % (sum(not r._event_done.is_set() for r, _, _ in reqs), len(reqs), deadline, cfg, ff._thread.is_alive(), died[:1], stacks() if lost else ""), key=(mode, cons, batch, match, fault, case.get("stage"), case.get("what"))):
            break
        for ir, (r, q, h) in enumerate(reqs):
            sent = r["pos"]
            if not ff.dopbc:
                rec.check(np.array_equal(sent, q), "positions", "positions of the request are not those queued [%s]" % cfg)
            rec.check(np.array_equal(r["cell"][0], h), "cell", "cell of the request is not that queued [%s]" % cfg)
            idx = np.arange(3 * nat) if active[0] == -1 else np.array([[3 * a, 3 * a + 1, 3 * a + 2] for a in active]).flatten()
            v, f, vir, ex = energy(h, sent[idx])
            res = r["result"]
            rec.check(r["status"] == "Done", "status", "status %s after completion [%s]" % (r["status"], cfg))
            F = np.zeros(3 * nat)
            F[idx] = f.flatten()
            ok = res is not None and abs(res[0] - (v - offset)) < 1e-12 * max(1, abs(v)) and np.array_equal(np.asarray(res[1]).flatten(), F) and np.array_equal(res[2], vir)
            ok = ok and {k: x for k, x in res[3].items() if k != "raw"} == json.loads(ex)
            rec.check(ok, "value", "result is not the one of this structure [%s]: got %s, expected %.10f" % (cfg, None if res is None else res[0], v - offset), key=(mode, cons, batch, rd))
            rec.check(sets[ir][0] <= 1, "once", "request completed %d times [%s]" % (sets[ir][0], cfg))
        for r, _, _ in reqs:
            ff.release(r)
        rec.check(not any(r in ff.requests for r, _, _ in reqs), "released", "released request still in the queue")
    if fault not in ("none", "frag", "lock", "late") and silent:
        time.sleep(0.05)
    # a healthy client is never thrown out
    for c in healthy:
        rec.check(not c.gone.is_set() and c.error is None, "healthy_kept", "a client that follows the protocol was dropped [%s] %s frag=%s" % (cfg, c.error, c.frag), key=(mode, cons, batch, fault))
    rec.check(ff._thread.is_alive(), "poll_alive", "the thread that serves the clients died [%s]: %s" % (cfg, died[:1]))
    if fault == "lock" and not lost:
        # strict matching: one structure id per client
        for c in healthy:
            rec.check(c.n in (0, case["rounds"]), "lock", "client served %d requests of %d rounds with strict matching" % (c.n, case["rounds"]))
    th = threading.Thread(target=ff.stop, daemon=True)
    th.start()
    th.join(20)
    rec.check(not th.is_alive(), "stop", "closing the interface does not return [%s] %s" % (cfg, stacks() if th.is_alive() else ""))
    for c in healthy:
        c.gone.wait(5)
        rec.check(c.ended == "exit", "exit", "a connected client was not told to exit [%s] (%s %s)" % (cfg, c.ended, c.error))
    if mode != "inet":
        rec.check(not os.path.exists(pref + addr), "socketfile", "the socket file stays behind [%s]" % cfg)
    if mode == "shm":
        left = glob.glob("/dev/shm/ipi_shm_%d_*" % os.getpid())
        rec.check(not left, "shm", "shared memory stays behind: %s [%s]" % (left[:3], cfg))
    threading.excepthook = hook
    rec.note("served %d" % sum(c.done for c in healthy + faulty))
    rec.sample(dict(config=cfg, served=[c.done for c in healthy], faulty_served=[c.done for c in faulty]))


def stacks():
    out = []
    names = {t.ident: t.name for t in threading.enumerate()}
    for k, fr in sys._current_frames().items():
        if "poll" in names.get(k, "") or "Pool" in names.get(k, ""):
            out.append(names[k] + ": " + " < ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_stack(fr)[-6:]))
    return " | ".join(out)
