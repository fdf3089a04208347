"""C03: a stop request at any moment leaves a complete, resumable run."""
import glob
import json
import os
import re
import subprocess
import sys
import time

import numpy as np

from checks import c02_restart as c02
from vf import confgen as cg
from vf import simgen as sg
from vf import transport as tr
from vf.core import VERIF, sub_seed

PROPERTY = "C03"
LEVEL = "fault_enumeration"
TECHNIQUE = "fault injection with a trace checker: bin/i-pi is asked to stop at chosen moments (any executed line, within checkpoint storing, outputs, force evaluation) and the files it leaves, resumed, are compared with an uninterrupted run"
NOTE = "stop moments: the n-th executed Python line of the main thread for random n, and labelled points; soft-exit callbacks are delayed at random to widen races"
RULE = (
    "each execution runs one random input uninterrupted (full-state trace and files), then several times in a process of its "
    "own with a stop injected; monitors: process ends by itself, RESTART is complete and equals the uninterrupted state after "
    "a completed step (at most safe_stride before the last one), the resumed run reproduces all later states, and both runs "
    "together hold every scheduled record once or identically repeated; distinct counts (cause, place) pairs"
)
ASSUMPTIONS = [
    "checkpoints keep about 9 digits, so states are compared to 1e-7 relative",
    "one stop request at a time; the user removes the EXIT file before resuming",
]
TIMEOUT = {"quick": 300, "thorough": 600}
REQUIRE = {"restart_state": 40, "resumed": 40, "records": 80}
NSTEPS = 8
TOL = 1e-7
WAIT = 60.0


def cases(tier, seed):
    out = []

    def add(n, kind, **kw):
        for i in range(n):
            nm = "%s_%s_%d" % (kind, "_".join(str(x) for x in kw.values()), i)
            out.append(dict(name=nm, kind=kind, cseed=sub_seed(seed, nm), tier=tier, nstop=4 if tier == "quick" else 12, **kw))

    f = 1 if tier == "quick" else 8
    add(3 * f, "single", mode="nvt")
    add(2 * f, "single", mode="npt")
    add(1 * f, "single", mode="nve")
    add(2 * f, "multi_system")
    add(2 * f, "remd")
    add(2 * f, "motions", extra="alchemy+atomswap+t_ramp")
    add(3 * f, "threaded")
    add(3 * f, "socket")
    add(2 * f, "stuck")
    add(1 * f, "wall")
    return out


def outputs(rng):
    return (
        sg.tag("properties", "[ step, time, conserved, potential, kinetic_md, volume ]", filename="out", stride=1)
        + sg.tag("properties", "[ step, temperature ]", filename="rare", stride=int(rng.choice([2, 3])), flush=int(rng.choice([1, 4, 100])))
        + sg.tag("trajectory", "positions", filename="pos", stride=int(rng.choice([1, 2])), flush=int(rng.choice([1, 3])), format=str(rng.choice(["xyz", "pdb", "xyz"])))
        + sg.tag("trajectory", "v_centroid", filename="vc", stride=1, format="xyz")
        + sg.tag("checkpoint", "", filename="chk", stride=3, overwrite=str(bool(rng.random() < 0.5)))
    )


def build(case):
    rng = np.random.default_rng(case["cseed"])
    outs = outputs(rng)
    keep = c02.outputs
    c02.outputs = lambda *a: outs
    try:
        k = case["kind"]
        if k in ("threaded", "socket", "stuck", "wall"):
            c = dict(case, kind="single", mode=str(rng.choice(["nvt", "npt"])))
        else:
            c = case
        x, lab = c02.build(c, NSTEPS)
    finally:
        c02.outputs = keep
    x = x.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    if case["kind"] == "threaded":
        from checks import c01_repro as c01

        x = c01.threaded(x) if rng.random() < 0.5 else c01.batched(x, 2)
        x = c01.jitter(x)
        if rng.random() < 0.6:
            x = x.replace("threading='False'", "threading='True'")
    ss = int(rng.choice([1, 1, 1, 3]))
    if ss > 1:
        x = x.replace("<simulation ", "<simulation safe_stride='%d' " % ss, 1)
    return x, case["kind"] + "/" + lab, ss


def reference(xml):
    os.mkdir("ref")
    os.chdir("ref")
    sim = sg.load(xml)
    pr = cg.Probe(sim)
    sim.outputs.append(pr)
    sim.run()
    sim.stop()
    cg.end(sim)
    recs = records(".")
    os.chdir("..")
    return pr.states, recs


def records(d):
    """{file: [(step, text)]} for property and trajectory files."""
    out = {}
    for fn in sorted(os.listdir(d)):
        if fn.startswith(("#", "drv_")) or not re.search(r"\.(out|rare|pos_\d+\.\w+|vc\.xyz)$", fn):
            continue
        t = open(os.path.join(d, fn)).read()
        if re.search(r"\.(out|rare)$", fn):
            out[fn] = [(_step(ln.split()[0]), ln) for ln in t.splitlines() if ln.strip() and not ln.startswith("#")]
        elif fn.endswith("pdb"):
            fr, cur = [], []
            for ln in t.splitlines():
                cur.append(ln)
                if ln.startswith("END"):
                    fr.append("\n".join(cur))
                    cur = []
            if cur:
                fr.append("\n".join(cur))
            out[fn] = [(_title(f), f) for f in fr]
        else:
            ls, i, fr = t.splitlines(), 0, []
            while i < len(ls):
                try:
                    n = int(ls[i])
                except ValueError:
                    fr.append((None, "\n".join(ls[i : i + 3])))
                    break
                f = "\n".join(ls[i : i + 2 + n])
                fr.append((_title(f), f))
                i += 2 + n
            out[fn] = fr
    return out


def _step(s):
    try:
        return int(round(float(s)))
    except ValueError:
        return None


def _title(f):
    m = re.search(r"Step:\s*(\d+)", f)
    return int(m.group(1)) if m else None


def close_text(a, b):
    wa, wb = a.split(), b.split()
    if len(wa) != len(wb):
        return False
    for u, v in zip(wa, wb):
        if u == v:
            continue
        try:
            x, y = float(u), float(v)
        except ValueError:
            return False
        if abs(x - y) > 2e-5 * max(abs(x), abs(y)) + 2e-8 + (0.0015 if "." in u and len(u.split(".")[1]) <= 3 else 0):
            return False
    return True


def plan_stops(rng, case, npoints, nlines, by):
    hows = ["term", "int", "exit", "thread", "thread"]
    out = []
    for _ in range(case["nstop"]):
        p = dict(how=str(rng.choice(hows)), seed=int(rng.integers(1 << 30)), delays=float(rng.choice([0, 0.01, 0.05])))
        r = rng.random()
        if case["kind"] == "threaded" and rng.random() < 0.4:
            p["held"] = int(rng.integers(1, 200))
            p["how"] = str(rng.choice(["term", "int"]))
        elif r < 0.25 and nlines:
            p["line"] = int(rng.integers(1, nlines))
        elif r < 0.65 and by:
            p["only"] = str(rng.choice(sorted(by)))
            p["line"] = int(rng.integers(1, by[p["only"]] + 1))
        else:
            la = str(rng.choice(["step<", "step>", "props<", "props>", "frame<", "frame>", "chk<", "chk>", "store<", "store>", "bstore<", "bstore>", "motion<", "motion>", "motion>"]))
            n = npoints.get(la, 0)
            if not n:
                la, n = "step<", NSTEPS
            p["at"] = [la, int(rng.integers(1, n + 1))]
        out.append(p)
    return out


def launch(sub, xml, plan):
    os.makedirs(sub, exist_ok=True)
    inp = plan.get("input", "input.xml")
    if xml is not None:
        open(os.path.join(sub, inp), "w").write(xml)
    pl = dict(plan, repo=tr.REPO, input=inp, log="events")
    json.dump(pl, open(os.path.join(sub, "plan.json"), "w"))
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = "1"
    return subprocess.Popen([sys.executable, os.path.join(VERIF, "vf", "softrun.py"), "plan.json"], cwd=sub, env=env, stdout=open(os.path.join(sub, "stdout"), "a"), stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, wait=WAIT):
    """Exit code, or None with the process killed after dumping its stacks."""
    try:
        return p.wait(wait)
    except subprocess.TimeoutExpired:
        p.send_signal(10)  # prints the stacks
        time.sleep(0.5)
        os.killpg(p.pid, 9)
        p.wait()
        return None


def events(sub):
    out = []
    try:
        for ln in open(os.path.join(sub, "events")):
            try:
                out.append(json.loads(ln))
            except ValueError:
                pass
    except OSError:
        pass
    return out


def run(case, rec):
    xml, lab, ss = build(case)
    rng = np.random.default_rng(case["cseed"] + 5)
    if case["kind"] == "stuck":
        return stuck(case, rec, xml, lab, rng)
    st, ref = reference(xml)
    rec.check(len(st) == NSTEPS + 1 and len(ref) >= 3, "setup", "[%s] reference has %d states and files %s" % (lab, len(st), list(ref)))
    # how many points and lines there are to choose from
    p = launch("count", xml, dict(how="none", line=-1))
    c = finish(p)
    e = [x for x in events("count") if x["ev"] == "ran"]
    if not rec.check(c == 0 and e, "ends", "[%s] uninterrupted run ended with %s: %s" % (lab, c, tail("count"))):
        return
    judge(rec, case, "count", "none", xml, st, ref, lab, ss, dict(how="none"), e and [])
    for i, pl in enumerate(plan_stops(rng, case, e[0]["points"], e[0]["lines"], e[0]["by"])):
        sub = "r%d" % i
        x, links = xml, []
        if case["kind"] == "socket":
            from checks import c01_repro as c01

            os.makedirs(sub)
            x, links = c01.sockets(xml, rng, sub)
            # the drivers look for sockets of the run: short prefix in the case folder
            pl["prefix"] = links[0].pref
            pl.pop("line", None)
            pl.pop("only", None)
            if "at" not in pl:
                pl["at"] = ["motion<", int(rng.integers(1, NSTEPS))]
        if case["kind"] == "wall":
            tt = float(rng.choice([0.15, 0.3, 0.6]))
            x = jit(xml, 0.03).replace("<total_steps>", "<total_time>%s</total_time><total_steps>" % tt)
            pl.update(how="none", line=None, at=None)
        for ln in links:
            ln.launch()
        p = launch(sub, x, pl)
        code = finish(p)
        for ln in links:
            ln.finish(5)
        ev = events(sub)
        cfg = "[%s] %s at %s" % (lab, pl["how"], ([z["where"] for z in ev if z["ev"] == "stop"] or ["?"])[0])
        if not rec.check(code is not None, "ends", "%s: i-PI does not end: %s" % (cfg, tail(sub))):
            continue
        judge(rec, case, sub, cfg, xml, st, ref, lab, ss, pl, ev)
        for ln in links:
            rec.check(ln.kind == "inet" or not os.path.exists(ln.pref + ln.addr), "socket_file", "%s: socket file stays behind" % cfg)
    rec.check(not glob.glob("/dev/shm/ipi_shm_%d_*" % p.pid), "shm", "shared memory stays behind")
    rec.sample(dict(config=lab, points=e[0]["points"], lines=e[0]["lines"]))


def jit(x, t):
    return re.sub(r"<parameters>\{ ", "<parameters>{ jitter: %s, " % t, x)


def tail(sub):
    try:
        return open(os.path.join(sub, "stdout")).read()[-1500:]
    except OSError:
        return ""


def judge(rec, case, sub, cfg, xml, st, ref, lab, ss, pl, ev):
    rst = os.path.join(sub, "RESTART")
    if not rec.check(os.path.exists(rst), "restart_file", "%s: no RESTART file; %s" % (cfg, tail(sub))):
        return
    txt = open(rst).read()
    if not rec.check(txt.rstrip().endswith("</simulation>"), "restart_file", "%s: RESTART is incomplete (%d bytes)" % (cfg, len(txt))):
        return
    done = 1 + max([x["step"] for x in ev if x["ev"] == "end" and not x["triggered"]] + [-1])
    where = ([z["where"] for z in ev if z["ev"] == "stop"] or ["end"])[0]
    # resumed run, in the same folder
    try:
        os.remove(os.path.join(sub, "EXIT"))
    except OSError:
        pass
    txt = re.sub(r"<total_time>.*?</total_time>", "", txt)
    for ln in re.findall(r"<ffsocket.*?</ffsocket>", txt, re.S):
        name = re.search(r"name\s*=\s*'([^']*)'", ln).group(1)
        direct = [d for d in re.findall(r"<ffdirect.*?</ffdirect>", xml, re.S) if "name='%s'" % name in d][0]
        txt = txt.replace(ln, direct)
    kx = int(re.search(r"<step>\s*(\d+)", txt).group(1)) if "<step>" in txt else 0
    txt = re.sub(r"<total_steps>\s*%d\s*</total_steps>" % NSTEPS, "<total_steps>%d</total_steps>" % max(NSTEPS, kx + 1), txt)
    os.chdir(sub)
    try:
        try:
            sim = sg.load(txt)
        except Exception as e:
            rec.check(False, "restart_state", "%s: RESTART cannot be read: %r" % (cfg, e))
            return
        k = int(sim.step)
        s0 = cg.state(sim)
        s0["step"] = k
        lim = done - (ss if pl["how"] != "none" or case["kind"] == "wall" else 0)
        rec.check(k >= max(0, min(lim, NSTEPS)), "restart_late", "%s: RESTART is at step %d although %d steps were complete (safe_stride %d)" % (cfg, k, done, ss))
        bad = cg.diff_states(st[k], s0, TOL, skip=("prng",)) if k in st else ["no such step"]
        # the random stream at the start of step k
        if k in st:
            bad += [d for d in cg.diff_states(st[k], s0, 0.0) if str(d[0]).startswith("prng")]
        ok = rec.check(not bad, "restart_state", "%s: RESTART (step %s) differs from the uninterrupted run: %s" % (cfg, k, bad[:4]), key=(pl["how"], re.sub(r"\d+", "", where)))
        pr = cg.Probe(sim)
        sim.outputs.append(pr)
        if k < NSTEPS:
            sim.run()
        sim.stop()
        cg.end(sim)
        if ok:
            for j in range(k + 1, NSTEPS + 1):
                bad = cg.diff_states(st[j], pr.states.get(j, {}), 3 * TOL)
                if not rec.check(not bad, "resumed", "%s: resumed from step %d, differs at step %d: %s" % (cfg, k, j, bad[:4])):
                    break
        got = records(".")
        for fn, want in ref.items():
            g = got.get(fn)
            if not rec.check(g is not None, "records", "%s: %s is missing" % (cfg, fn)):
                continue
            w = dict(want)
            seen = set()
            prob = None
            for s, t in g:
                if s not in w:
                    prob = "unexpected or torn record %r" % t[:90]
                elif not close_text(t, w[s]):
                    prob = "record of step %d is %r, expected %r" % (s, t[:90], w[s][:90])
                seen.add(s)
                if prob:
                    break
            miss = sorted(set(w) - seen)
            if prob is None and miss:
                prob = "records of steps %s are missing" % miss
            rec.check(prob is None, "records", "%s, resumed from step %d: %s: %s" % (cfg, k, fn, prob))
    finally:
        os.chdir("..")


def stuck(case, rec, xml, lab, rng):
    """A stop request while a driver does not answer, or while there is none."""
    from checks import c01_repro as c01

    for i in range(3 if case["tier"] == "quick" else 8):
        sub = "r%d" % i
        x, links = c01.sockets(xml, rng, sub)
        mode = str(rng.choice(["none", "silent", "hang"]))
        for ln in links:
            ln.ndrv = 0 if mode == "none" else 1
            if mode != "none":
                ln.pars["jitter"] = 0
                ln.pars["hang"] = int(rng.integers(1, 6))
        how = str(rng.choice(["term", "exit", "int"]))
        os.makedirs(sub)
        for ln in links:
            ln.launch()
        p = launch(sub, x, dict(how="none", prefix=links[0].pref))
        t0 = time.time()
        # once it waits for the drivers
        while time.time() - t0 < 20 and not any(z["ev"] == "run" for z in events(sub)):
            time.sleep(0.05)
        time.sleep(1.0 + float(rng.random()))
        if p.poll() is not None:
            rec.check(False, "ends", "[%s] run with %s drivers ended early: %s" % (lab, mode, tail(sub)))
            continue
        if how == "exit":
            open(os.path.join(sub, "EXIT"), "w").close()
        else:
            p.send_signal(15 if how == "term" else 2)
        code = finish(p, 40)
        cfg = "[%s] %s while drivers are %s (%s)" % (lab, how, mode, "+".join(ln.label() for ln in links))
        rec.check(code is not None, "ends", "%s: i-PI does not end: %s" % (cfg, tail(sub)), key=("stuck", how, mode, links[0].kind, links[0].cons))
        for ln in links:
            for q in ln.procs:
                q.kill()
            ln.finish(2)
        if code is None:
            continue
        rst = os.path.join(sub, "RESTART")
        if rec.check(os.path.exists(rst) and open(rst).read().rstrip().endswith("</simulation>"), "restart_file", "%s: no complete RESTART" % cfg):
            st = getattr(stuck, "ref", None)
            txt = open(rst).read()
            for s in re.findall(r"<ffsocket.*?</ffsocket>", txt, re.S):
                name = re.search(r"name\s*=\s*'([^']*)'", s).group(1)
                txt = txt.replace(s, [d for d in re.findall(r"<ffdirect.*?</ffdirect>", xml, re.S) if "name='%s'" % name in d][0])
            if st is None:
                st = stuck.ref = reference(xml)[0]
            os.chdir(sub)
            try:
                os.path.exists("EXIT") and os.remove("EXIT")
                sim = sg.load(txt)
                k = int(sim.step)
                s0 = cg.state(sim)
                s0["step"] = k
                bad = cg.diff_states(st[k], s0, TOL)
                rec.check(not bad, "restart_state", "%s: RESTART (step %d) differs from the uninterrupted run: %s" % (cfg, k, bad[:4]))
                cg.end(sim)
            finally:
                os.chdir("..")
