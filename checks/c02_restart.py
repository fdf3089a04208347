"""C02: a run resumed from any checkpoint continues the uninterrupted run."""
import os

import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf.core import Inconclusive, sub_seed

PROPERTY = "C02"
LEVEL = "fault_enumeration"
TECHNIQUE = "differential runtime monitor: full-state trace of the uninterrupted run vs the run restarted at each checkpoint"
NOTE = "Every checkpoint of the sampled runs is (thorough) or three of them are (quick) used as a crash point; configurations are sampled at random over all thermostats, barostats, integrators, normal-mode options and motions."
RULE = (
    "each execution runs a random configuration to the end while checkpointing after every step, then restarts a new "
    "simulation from the checkpoint files and compares full state (positions, momenta, cell, thermostat/barostat "
    "variables, PRNG state, conserved quantity), property and trajectory files and the final checkpoint, step by step; "
    "distinct counts (configuration class, restart step) pairs"
)
ASSUMPTIONS = [
    "checkpoints keep about 15 significant digits, so states are compared to 1e-7 relative over at most 8 steps",
    "the potential is an analytic function evaluated in-process, so forces are reproducible",
]
TIMEOUT = {"quick": 150, "thorough": 400}
REQUIRE = {"state": 50, "props": 20, "finalchk": 10, "settings": 10}

PROPS = "step, time, conserved, temperature, potential, kinetic_md, ensemble_temperature, volume, cell_h, pressure_md, stress_md"
TOL = 1e-7


def outputs(traj="positions"):
    return (
        sg.tag("properties", "[ " + PROPS + " ]", filename="out", stride=1)
        + sg.tag("trajectory", traj, filename="pos", stride=2, format="xyz", cell_units="atomic_unit")
        + sg.tag("checkpoint", "", filename="chk", stride=1, overwrite="False")
    )


def build(case, nsteps):
    kind = case["kind"]
    rng = np.random.default_rng(case["cseed"])
    if kind == "single":
        s = cg.rand_spec(rng, modes=[case["mode"]], thermos=[case["thermo"]] if case.get("thermo") else None, allow=cg.ALL)
        if case.get("baro"):
            pass
        return cg.xml(s, nsteps, outputs(), threading=bool(rng.random() < 0.3)), cg.label(s)
    if kind == "multi_system":
        specs = []
        for i in range(3):
            s = cg.rand_spec(rng, modes=["nvt", "npt"], allow=cg.ALL)
            specs.append(s)
        ffs, syss = [], []
        for i, s in enumerate(specs):
            ffs += cg.ff_xml(s, pref="f%d_" % i)
            syss.append(cg.system_xml(s, pref="f%d_" % i, prefix="s%d" % i))
        return sg.simulation(syss, ffs, nsteps, seed=int(rng.integers(1, 10**6)), outputs=outputs(), threading=False), "multi_system"
    if kind == "remd":
        s = cg.rand_spec(rng, modes=[str(rng.choice(["nvt", "npt"]))], thermos=["langevin", "pile_g", "gle", "svr", "pile_l", "nm_gle"], allow=("multi", "mts", "contraction", "fixcom", "bias"))
        n = 3
        ffs = cg.ff_xml(s)
        syss = []
        for i in range(n):
            t = dict(s)
            t["temp"] = s["temp"] * (1 + 0.15 * i)
            t["gseed"] = s["gseed"] + i
            syss.append(cg.system_xml(t, prefix="r%d" % i))
        sm = sg.tag(
            "smotion",
            sg.tag("remd", sg.tag("stride", 2) + sg.tag("krescale", str(bool(rng.random() < 0.7)))),
            mode="remd",
        )
        return sg.simulation(syss, ffs, nsteps, seed=int(rng.integers(1, 10**6)), outputs=outputs(), smotion=sm), "remd/" + cg.label(s)
    if kind == "motions":
        # several motions in a row: dynamics + MC + ramps
        s = cg.rand_spec(rng, modes=["nvt"], thermos=["langevin", "pile_g", "gle"], allow=("multi",), nbeads=int(rng.choice([1, 2, 4])), natoms=5)
        s["same_mass"] = False
        g = cg.geom(s)
        g["m"] = np.array([1837.0, 3674.0, 1837.0, 3674.0, 29000.0])
        g["names"] = ["H", "D", "H", "D", "O"]
        dyn = cg.motion_xml(s)
        extra = []
        which = case["extra"]
        if "alchemy" in which:
            extra.append(sg.tag("motion", sg.tag("alchemy", sg.tag("names", "[ H, D ]") + sg.tag("nxc", "4")), mode="alchemy"))
        if "atomswap" in which:
            extra.append(sg.tag("motion", sg.tag("atomswap", sg.tag("names", "[ H, D ]") + sg.tag("nxc", "3")), mode="atomswap"))
        if "t_ramp" in which:
            extra.append(
                sg.tag(
                    "motion",
                    sg.tag("t_ramp", sg.tag("t_start", repr(s["temp"])) + sg.tag("t_end", repr(2 * s["temp"])) + sg.tag("total_steps", 5) + sg.tag("logscale", str(bool(rng.random() < 0.5)))),
                    mode="t_ramp",
                )
            )
        mot = sg.tag("motion", dyn + "".join(extra), mode="multi")
        syst = sg.system(g, mot, forces=cg.forces_xml(s), ensemble=cg.ensemble_xml(s), nm=cg.nm_xml(s))
        return sg.simulation([syst], cg.ff_xml(s), nsteps, seed=s["seed"], outputs=outputs()), "motions/" + which
    if kind == "constrained":
        from checks import c11_fixed as c11

        return c11.constrained_xml(rng, nsteps, outputs()), "constrained"
    if kind == "fields":
        return fields_xml(rng, nsteps, case["extra"])
    if kind == "threads_prng":
        s = cg.rand_spec(rng, modes=["nvt"], thermos=["langevin"], natoms=60, nbeads=4, allow=())
        s["comps"] = [dict(pars=dict(k=0.0, g=0.0, kt=0.02), weight=1.0, nbeads=0)]
        x = cg.xml(s, nsteps, outputs(), prng=sg.tag("prng", sg.tag("seed", s["seed"]), n_threads=4))
        return x, "threads_prng"
    raise ValueError(kind)


def fields_xml(rng, nsteps, which):
    """Force fields that are built from others, or have a state of their own."""
    nat, P = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    g = sg.geometry(rng, nat, P, p_t=0.001, triclinic=bool(rng.random() < 0.5), lattice=3.0)
    n3 = 3 * nat
    ens = "<temperature units='kelvin'>300</temperature>"
    forces, sm, ffs = sg.tag("force", "", forcefield="com"), "", []
    if which == "committee":
        m = "".join(sg.ffdirect("m%d" % i, pars=dict(kt=repr(0.01 * (i + 1)), k4=repr(0.001 * i), shift=repr(0.2 * i)), threaded=bool(rng.random() < 0.5), offset=0.1 * i) for i in range(3))
        m += sg.tag("alpha", "1.7") + sg.tag("offset", "0.3")
        if rng.random() < 0.5:
            m += sg.tag("baseline_name", "m1") + sg.tag("baseline_uncertainty", "0.2")
        ffs = [sg.tag("ffcommittee", m, name="com", pbc="False")]
    elif which == "rotations":
        m = sg.tag("random", "False") + sg.tag("inversion", str(bool(rng.random() < 0.5))) + sg.tag("grid_mode", "legendre") + sg.tag("grid_order", int(rng.choice([1, 2]))) + sg.tag("prng", sg.tag("seed", 77)) + sg.ffdirect("inner", pars=dict(k4=0.005, c3=0.003))
        ffs = [sg.tag("ffrotations", m, name="com", pbc="False")]
    elif which == "debye":
        H = rng.standard_normal((n3, n3)) * 0.003
        H = H @ H.T + 0.005 * np.eye(n3)
        ffs = [sg.tag("ffdebye", sg.tag("hessian", sg.arr(H), shape="(%d, %d)" % (n3, n3)) + sg.tag("x_reference", sg.arr(g["q"].mean(axis=0))) + sg.tag("v_reference", "0.4") + sg.tag("offset", "-0.2"), name="com")]
    elif which == "lj":
        ffs = [sg.tag("fflj", sg.tag("parameters", "{eps: 0.003, sigma: 2.1}") + sg.tag("offset", "0.7"), name="com", pbc="False", threaded=str(bool(rng.random() < 0.5)))]
    elif which == "dmd":
        c = rng.uniform(-0.005, 0.005, nat * (nat - 1) // 2)
        ffs = [sg.ffdirect("com", pars=dict(kt=0.01))]
        ffs.append(sg.tag("ffdmd", sg.tag("dmd_coupling", sg.arr(c)) + sg.tag("dmd_freq", "0.02") + sg.tag("dmd_dt", "10.0") + sg.tag("dmd_step", int(rng.integers(0, 20))), name="drive", pbc="False"))
        ens += sg.tag("bias", sg.tag("force", "", forcefield="drive"))
        sm = sg.tag("smotion", sg.tag("dmd", sg.tag("dmdff", "[ drive ]")), mode="dmd")
    th = sg.thermostat("langevin", tau=300.0)
    syst = sg.system(g, sg.dynamics("nvt", 10.0, thermostat=th), forces=forces, ensemble=ens)
    return sg.simulation([syst], ffs, nsteps, seed=int(rng.integers(1, 10**6)), outputs=outputs(), smotion=sm), "fields/" + which


def cases(tier, seed):
    out = []
    n = 4 if tier == "quick" else 40
    for i in range(n):
        for mode, th in (
            [("nvt", t) for t in cg.THERMOS]
            + [(m, None) for m in ("nve", "nve", "npt", "npt", "npt", "nst", "nst", "sc", "scnpt", "nvt-cc")]
            + [("nvt", None)] * 4
        ):
            nm = "single_%s_%s_%d_%d" % (mode, th, i, len(out))
            out.append(dict(name=nm, kind="single", mode=mode, thermo=th, cseed=sub_seed(seed, nm)))
        for k in ("multi_system", "remd", "remd", "threads_prng", "constrained", "constrained", "constrained"):
            nm = "%s_%d_%d" % (k, i, len(out))
            out.append(dict(name=nm, kind=k, cseed=sub_seed(seed, nm)))
        for ex in ("committee", "rotations", "debye", "lj", "dmd"):
            nm = "fields_%s_%d" % (ex, i)
            out.append(dict(name=nm, kind="fields", extra=ex, cseed=sub_seed(seed, nm)))
        for ex in ("alchemy", "atomswap", "t_ramp", "alchemy+atomswap+t_ramp"):
            nm = "motions_%s_%d" % (ex, i)
            out.append(dict(name=nm, kind="motions", extra=ex, cseed=sub_seed(seed, nm)))
    for c in out:
        c["nsteps"] = 7 if tier == "quick" else 10
        c["deep"] = tier != "quick"
    return out


def execute(xml, rec=None, **kw):
    sim = sg.load(xml)
    pr = cg.Probe(sim)
    sim.outputs.append(pr)
    pr0 = int(sim.step)
    sim.run()
    cg.end(sim)
    return sim, pr.states, pr0


class _Dmd:
    """Differences of driven dynamics after a restart are one known finding; the
    clock of the drive is judged by itself."""

    KINDS = ("state", "state2", "props", "traj", "finalchk")

    def __init__(self, rec):
        self.rec = rec

    def check(self, cond, kind, msg, key=None):
        return self.rec.check(cond, "restart_dmd" if kind in self.KINDS else kind, msg, key=key)

    def sample(self, x):
        self.rec.sample(x)


def dmd_clock(path):
    import re

    m = re.search(r"<dmd_step>\s*(-?\d+)", open(path).read())
    return int(m.group(1)) if m else None


def run(case, rec):
    n = case["nsteps"]
    dmd = case.get("extra") == "dmd"
    if dmd:
        rec = _Dmd(rec)
    os.mkdir("A")
    os.chdir("A")
    x, lab = build(case, n)
    x = x.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    simA, stA, _ = execute(x)
    if not all(np.isfinite(v["s0.econs"]) for v in stA.values()):
        raise Inconclusive("trajectory not finite")
    files = {}
    for f in os.listdir("."):
        if f.endswith(".out"):
            files[f] = cg.read_props(f)[1]
    trajs = {f: open(f).read() for f in os.listdir(".") if ".pos" in f}
    chk = lambda k: "sim.chk_%d" % k
    final = cg.xml_numbers(chk(n))
    os.chdir("..")
    ks = list(range(1, n)) if case["deep"] else [1, n // 2, n - 2]
    for k in ks:
        sub = "B%d" % k
        os.mkdir(sub)
        os.chdir(sub)
        src = "../A/" + chk(k)
        start = cg.xml_numbers(src)
        # successive restarts: half of them go through a second generation
        simB, stB, s0 = execute(open(src).read())
        rec.check(s0 == k, "step", "checkpoint %d restarts at step %d" % (k, s0))
        rec.check(sorted(stB) == list(range(k + 1, n + 1)), "steps", "restart at %d visited steps %s" % (k, sorted(stB)))
        for j in range(k + 1, n + 1):
            if j not in stB:
                break
            bad = cg.diff_states(stA[j], stB[j], TOL)
            # after the first mismatch everything differs: report only that one
            if not rec.check(not bad, "state", "[%s] restarted at %d, differs at step %d: %s" % (lab, k, j, bad[:6]), key=(lab, k)):
                break
        for f, rows in files.items():
            got = cg.read_props(f)[1]
            want = [r for r in rows if r[0] > k + 0.5]
            ok = len(got) == len(want) and all(_close_row(a, b) for a, b in zip(got, want))
            rec.check(ok, "props", "[%s] %s after restart at %d: rows %s, expected %s" % (lab, f, k, got[:1], want[:1]))
        for f, txt in trajs.items():
            ok, msg = _same_traj(open(f).read(), txt, k)
            rec.check(ok, "traj", "[%s] %s after restart at %d: %s" % (lab, f, k, msg))
        if dmd:
            c = [dmd_clock("../A/" + chk(j)) for j in (k, n)] + [dmd_clock(chk(n))]
            rec.check(c[1] == c[2] == c[0] + n - k, "dmd_clock", "drive step %s at checkpoint %d, %s at %d in the uninterrupted run and %s in the restarted one" % (c[0], k, c[1], n, c[2]))
        bad = cg.diff_xml(final, cg.xml_numbers("sim." + "chk_%d" % n) if os.path.exists("sim.chk_%d" % n) else {}, TOL, gtol={"/s": 1e-6})
        rec.check(not bad, "finalchk", "[%s] final checkpoint differs after restart at %d: %s" % (lab, k, bad[:5]))
        if k == ks[-1]:
            # reading a checkpoint and writing it straight back keeps every setting
            os.mkdir("re")
            os.chdir("re")
            sim = sg.load(open("../" + src).read())
            sim.chk.store()
            with open("again", "w") as f:
                f.write(sim.chk.status.write(name="simulation"))
            cg.end(sim)
            bad = cg.diff_xml(start, cg.xml_numbers("again"), 1e-11)
            rec.check(not bad, "settings", "[%s] settings changed by reading a checkpoint: %s" % (lab, bad[:5]))
            os.chdir("..")
        # second generation restart
        if k + 2 < n and (case["deep"] or k == ks[0]):
            src2 = os.path.abspath("sim.chk_%d" % (k + 1))
            if rec.check(os.path.exists(src2), "chkfile", "no checkpoint %d after restart at %d" % (k + 1, k)):
                os.mkdir("C")
                os.chdir("C")
                _, stC, _ = execute(open(src2).read())
                for j in range(k + 2, n + 1):
                    bad = cg.diff_states(stA[j], stC[j], 2 * TOL)
                    if not rec.check(not bad, "state2", "[%s] second restart at %d, differs at step %d: %s" % (lab, k + 1, j, bad[:6])):
                        break
                os.chdir("..")
        os.chdir("..")
    rec.sample(dict(config=lab, steps=n, restarts=ks, econs=[stA[j]["s0.econs"] for j in sorted(stA)][:4]))


def _close_row(a, b):
    if len(a) != len(b):
        return False
    a, b = np.array(a), np.array(b)
    n = np.isnan(a) & np.isnan(b)
    sc = np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(n | (np.abs(a - b) <= 1e-5 * sc + 1e-9)))


def _same_traj(got, ref, k):
    """Frames with step > k, compared as numbers."""

    def frames(t):
        ls = t.splitlines()
        out = []
        i = 0
        while i < len(ls):
            n = int(ls[i])
            c = ls[i + 1]
            st = int(c.split("Step:")[1].split()[0])
            out.append((st, [x.split() for x in ls[i + 2 : i + 2 + n]]))
            i += 2 + n
        return out

    try:
        a = frames(got)
    except Exception as e:
        return False, "unreadable " + repr(e)
    b = [f for f in frames(ref) if f[0] > k]
    if [x[0] for x in a] != [x[0] for x in b]:
        return False, "frames %s, expected %s" % ([x[0] for x in a], [x[0] for x in b])
    for (s, x), (_, y) in zip(a, b):
        for u, v in zip(x, y):
            if u[0] != v[0] or any(abs(float(p) - float(q)) > 1e-5 for p, q in zip(u[1:4], v[1:4])):
                return False, "step %d: %s vs %s" % (s, u, v)
    return True, ""
