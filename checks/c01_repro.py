"""C01: same input and seed, same trajectory, whatever the scheduling."""
import os
import re
import subprocess
import sys

import numpy as np

from checks import c02_restart as c02
from vf import confgen as cg
from vf import simgen as sg
from vf import transport as tr
from vf.core import VERIF, sub_seed

PROPERTY = "C01"
LEVEL = "tested"
TECHNIQUE = "differential runtime monitor: full-state traces of the same input under perturbed schedules (threads, batches, delayed and reordered replies, several driver processes, another process) compared bit for bit"
NOTE = "configurations sampled over all motions, thermostats, barostats and force compositions; schedules perturbed with random delays in every force evaluation"
RULE = (
    "each execution runs one random input several times: repeated, with threaded and batched force fields and random "
    "delays, through driver processes, with other outputs and verbosity, and in another process with another hash seed; "
    "the state after every step, the random stream and the common output files must agree to the last bit; distinct "
    "counts (configuration class, schedule) pairs"
)
ASSUMPTIONS = "systems stepped by several threads are compared only when they draw no random numbers, as documented for the threading option"
TIMEOUT = {"quick": 150, "thorough": 400}
HANG_IS_VIOLATION = True
REQUIRE = {"same": 60}

OUT = sg.tag("properties", "[ step, time, conserved, temperature, potential, kinetic_md, pressure_md ]", filename="out", stride=1) + sg.tag("trajectory", "positions", filename="pos", stride=1) + sg.tag("trajectory", "momenta", filename="mom", stride=2)
MORE = (
    sg.tag("properties", "[ step, kinetic_cv, stress_cv, vcom, scaledcoords(fd_delta=-0.001), spring, virial_fq, r_gyration ]", filename="more", stride=2)
    + sg.tag("trajectory", "forces", filename="fo", stride=1)
    + sg.tag("trajectory", "v_centroid", filename="vc", stride=3)
    + sg.tag("checkpoint", "", filename="chk", stride=2)
)
NSTEPS = 5


def cases(tier, seed):
    out = []

    def add(n, kind, **kw):
        for i in range(n):
            nm = "%s_%s_%d" % (kind, "_".join(str(x) for x in kw.values()), i)
            out.append(dict(name=nm, kind=kind, cseed=sub_seed(seed, nm), tier=tier, **kw))

    f = 1 if tier == "quick" else 10
    for m in ("nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"):
        add(3 * f, "single", mode=m)
    for t in cg.THERMOS:
        add(f, "single", mode="nvt", thermo=t)
    add(3 * f, "multi_system")
    add(3 * f, "remd")
    for e in ("alchemy", "atomswap", "t_ramp", "alchemy+atomswap"):
        add(f, "motions", extra=e)
    for e in ("committee", "rotations", "debye", "lj", "dmd"):
        add(f, "fields", extra=e)
    add(f, "threads_prng")
    add(3 * f, "nve_threads")
    return out


def build(case):
    if case["kind"] == "nve_threads":
        rng = np.random.default_rng(case["cseed"])
        ffs, syss = [], []
        for i in range(int(rng.integers(2, 5))):
            s = cg.rand_spec(rng, modes=["nve"], allow=cg.ALL)
            ffs += cg.ff_xml(s, pref="f%d_" % i)
            syss.append(cg.system_xml(s, pref="f%d_" % i, prefix="s%d" % i))
        return sg.simulation(syss, ffs, NSTEPS, seed=3, outputs=OUT), "nve_threads"
    keep = c02.outputs
    c02.outputs = lambda *a: OUT
    try:
        x, lab = c02.build(case, NSTEPS)
        if "seed" not in x:
            raise ValueError
        return x.replace("threading='True'", "threading='False'"), lab
    finally:
        c02.outputs = keep


# ------------------------------------------------------------ perturbations
def threaded(x):
    return x.replace("threaded='False'", "threaded='True'")


def jitter(x):
    return re.sub(r"<parameters>\{ ", "<parameters>{ jitter: 0.004, ", x)


def batched(x, n):
    def one(m):
        s = m.group(0)
        if "batch_size" in s:
            return s
        return s.replace("</ffdirect>", "<batch_size>%d</batch_size></ffdirect>" % n)

    return re.sub(r"<ffdirect.*?</ffdirect>", one, threaded(x))


def sockets(x, rng, tag=""):
    """Every plain top-level force field behind driver processes."""
    links = []

    def one(m):
        s = m.group(0)
        name = re.search(r"name='([^']*)'", s).group(1)
        pars = dict(kv.split(": ") for kv in re.search(r"<parameters>\{ (.*?) \}", s).group(1).split(", "))
        k = str(rng.choice(["unix", "inet", "shm"]))
        cons = bool(rng.random() < 0.7)
        ln = tr.Link(k, name=name, batch=int(rng.choice([1, 1, 2])) if cons else 1, cons=cons, ndrv=int(rng.integers(1, 3)), jitter=0.003, pbc="pbc='True'" in s, pref=links[0].pref if links else (tr.prefix() + tag), match=str(rng.choice(["auto", "any"])))
        o = re.search(r"<offset>(.*?)</offset>", s)
        if o:
            ln.offset = float(o.group(1))
        links.append(ln)
        return ln.xml(pars)

    y = re.sub(r"<ffdirect.*?</ffdirect>", one, x)
    return y, links


# ------------------------------------------------------------ running
def execute(xml, sub, links=(), verbosity="quiet"):
    from ipi.engine.simulation import Simulation

    os.mkdir(sub)
    os.chdir(sub)
    for ln in links:
        ln.launch()
    kw = dict(sockets_prefix=links[0].pref) if links else {}
    sim = Simulation.load_from_xml(xml, custom_verbosity=verbosity, **kw)
    pr = cg.Probe(sim)
    sim.outputs.append(pr)
    sim.run()
    sim.stop()
    cg.end(sim)
    for ln in links:
        ln.finish()
    sg.quiet()
    files = {f: open(f).read() for f in sorted(os.listdir(".")) if f.startswith("sim.") or ".pos_" in f or ".mom_" in f or f.endswith("out")}
    os.chdir("..")
    return pr.states, files


def elsewhere(xml, sub):
    """In another process, with another hash seed."""
    os.mkdir(sub)
    open(os.path.join(sub, "input.xml"), "w").write(xml)
    env = dict(os.environ, PYTHONHASHSEED="77", VF_SUB="1")
    env["PYTHONPATH"] = VERIF + os.pathsep + tr.REPO + os.pathsep + env.get("PYTHONPATH", "")
    p = subprocess.run([sys.executable, "-m", "checks.c01_repro"], cwd=sub, env=env, capture_output=True, text=True, timeout=100)
    if p.returncode:
        raise RuntimeError("run in another process failed: " + p.stderr[-600:])
    d = np.load(os.path.join(sub, "states.npz"), allow_pickle=True)["states"].item()
    files = {f: open(os.path.join(sub, "x", f)).read() for f in sorted(os.listdir(os.path.join(sub, "x"))) if f.startswith("sim.") or ".pos_" in f or ".mom_" in f or f.endswith("out")}
    return d, files


def compare(rec, lab, what, a, b, sys_prng=True):
    (sa, fa), (sb, fb) = a, b
    rec.check(sorted(sa) == sorted(sb), "steps", "[%s] %s: steps %s vs %s" % (lab, what, sorted(sa), sorted(sb)))
    for k in sorted(sa):
        d = cg.diff_states(sa[k], sb[k], 0.0)
        if not rec.check(not d, "same", "[%s] %s: step %d differs: %s" % (lab, what, k, d[:4]), key=(lab, what)):
            break
    bad = [f for f in fa if fa[f] != fb.get(f)]
    rec.check(not bad, "files", "[%s] %s: files differ or are missing: %s" % (lab, what, bad))


def run(case, rec):
    xml, lab = build(case)
    rng = np.random.default_rng(case["cseed"] + 1)
    base = execute(xml, "base")
    rec.check(len(base[0]) == NSTEPS + 1, "steps", "[%s] %d states recorded" % (lab, len(base[0])))
    rec.check(len(base[1]) >= 3, "files", "[%s] files %s" % (lab, sorted(base[1])))
    onesys = xml.count("<system") == 1
    free = case["kind"] == "nve_threads"
    var = []
    var.append(("repeated", lambda: execute(xml, "again")))
    var.append(("threaded, delayed", lambda: execute(jitter(threaded(xml)), "thr")))
    # more outputs; single-system or deterministic systems may also be threaded
    more = MORE if not re.search("<bosons|<open_paths", xml) else MORE[MORE.index("<trajectory"):]
    y = xml.replace("</output>", more + "</output>", 1)
    if onesys or free:
        y = y.replace("threading='False'", "threading='True'")
    var.append(("other outputs, verbose", lambda: execute(jitter(y) if free else y, "outs", verbosity="high")))
    plain = not re.search(r"<ffcommittee|<ffrotations|<ffdmd|<ffcav|<ffsocket", xml)
    nb = int(rng.integers(2, 4))
    if plain:
        var.append(("batches of %d" % nb, lambda: execute(jitter(batched(xml, nb)), "bat")))
    late = [("another process", lambda: elsewhere(xml, "proc"))]
    if plain and xml.count("<ffdirect") <= 3:
        def sock():
            z, links = sockets(xml, rng)
            if onesys or free:
                z = z.replace("threading='False'", "threading='True'")
            return execute(z, "sock", links)

        late.append(("drivers", sock))
    if case["tier"] == "quick":
        var.append(late[int(rng.integers(len(late)))])
    else:
        var += late
    for what, f in var:
        compare(rec, lab, what, base, f())
    rec.sample(dict(config=lab, schedules=[w for w, _ in var], steps=len(base[0])))


if __name__ == "__main__":
    st = execute(open("input.xml").read(), "x")
    np.savez("states.npz", states=np.array(st[0], dtype=object))
