"""Builds i-PI XML inputs from plain dictionaries, and runs them in-process."""
import os

import numpy as np

from vf.core import REPO, VERIF

VFPES_PATH = os.path.join(VERIF, "vf", "vfpes.py")
KELVIN = 3.1668152e-06


def arr(a):
    a = np.asarray(a, float).ravel()
    return "[ " + ", ".join("%.17e" % x for x in a) + " ]"


def sarr(a):
    return "[ " + ", ".join(str(x) for x in a) + " ]"


def tag(name, content="", /, **at):
    s = "<" + name
    for k, v in at.items():
        s += " %s='%s'" % (k, v)
    return s + ">" + str(content) + "</" + name + ">"


def ffdirect(name="ff", pes="custom", pars=None, pbc=False, threaded=False, batch=None, extra="", offset=None):
    body = tag("pes", pes)
    if pes == "custom":
        body += tag("pes_path", VFPES_PATH)
    if pars:
        body += tag("parameters", "{ " + ", ".join("%s: %s" % (k, v) for k, v in pars.items()) + " }")
    if batch:
        body += tag("batch_size", batch)
    if offset is not None:
        body += tag("offset", repr(float(offset)))
    at = dict(name=name)
    at["pbc"] = str(bool(pbc))
    at["threaded"] = str(bool(threaded))
    return tag("ffdirect", body + extra, **at)


def geometry(rng, natoms, nbeads=1, box=10.0, spread=0.15, masses=None, p_t=0.0, triclinic=False, names=None, lattice=2.5):
    """Random but well separated geometry.  Returns dict(q,p,m,names,h)."""
    n = int(np.ceil(natoms ** (1 / 3.0)))
    grid = np.array([[i, j, k] for i in range(n) for j in range(n) for k in range(n)], float)
    grid = grid[rng.permutation(len(grid))[:natoms]] * lattice
    q0 = (grid + rng.uniform(-0.3, 0.3, grid.shape)).ravel()
    q = q0[None, :] + spread * rng.standard_normal((nbeads, 3 * natoms))
    if masses is None:
        masses = rng.choice([1837.0, 3674.0, 12000.0, 29000.0], natoms)
    m = np.asarray(masses, float)
    if names is None:
        lab = {1837.0: "H", 3674.0: "D", 12000.0: "C", 29000.0: "O"}
        names = [lab.get(x, "X") for x in m]
    p = np.sqrt(p_t * nbeads * np.repeat(m, 3))[None, :] * rng.standard_normal((nbeads, 3 * natoms))
    h = np.diag(box * rng.uniform(0.9, 1.2, 3))
    if triclinic:
        h[0, 1] = rng.uniform(-0.3, 0.3) * box
        h[0, 2] = rng.uniform(-0.3, 0.3) * box
        h[1, 2] = rng.uniform(-0.3, 0.3) * box
    return dict(q=q, p=p, m=m, names=names, h=h)


def beads_xml(g):
    nb, n3 = g["q"].shape
    return tag(
        "beads",
        tag("q", arr(g["q"]), shape="(%d, %d)" % (nb, n3))
        + tag("p", arr(g["p"]), shape="(%d, %d)" % (nb, n3))
        + tag("m", arr(g["m"]), shape="(%d)" % (n3 // 3))
        + tag("names", sarr(g["names"]), shape="(%d)" % (n3 // 3)),
        natoms=n3 // 3,
        nbeads=nb,
    )


def cell_xml(h):
    return tag("cell", arr(h), shape="(3, 3)")


def system(g, motion, forces=None, ensemble="", nm="", prefix=None, init=""):
    at = {}
    if prefix:
        at["prefix"] = prefix
    if forces is None:
        forces = tag("force", "", forcefield="ff")
    return tag(
        "system",
        (init or "")
        + beads_xml(g)
        + cell_xml(g["h"])
        + tag("forces", forces)
        + tag("ensemble", ensemble)
        + motion
        + nm,
        **at,
    )


def dynamics(mode="nve", dt=10.0, thermostat="", barostat="", nmts=None, splitting=None, extra="", fixcom=False, fixatoms=None):
    at = dict(mode=mode)
    if splitting:
        at["splitting"] = splitting
    body = tag("timestep", repr(float(dt)))
    if thermostat:
        body += thermostat
    if barostat:
        body += barostat
    if nmts is not None:
        body += tag("nmts", "[ " + ", ".join(str(int(x)) for x in nmts) + " ]")
    o = ""
    if fixatoms is not None:
        o += tag("fixatoms", "[ " + ", ".join(str(int(x)) for x in fixatoms) + " ]")
    return tag("motion", tag("dynamics", body + extra, **at) + tag("fixcom", str(bool(fixcom))) + o, mode="dynamics")


def thermostat(mode, **kw):
    body = ""
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            body += tag(k, arr(v), shape=str(v.shape))
        else:
            body += tag(k, v)
    return tag("thermostat", body, mode=mode)


def simulation(systems, ffs, nsteps, seed=1234, outputs="", smotion="", threading=False, extra="", mode="md", step=None, safe_stride=None, prefix="sim", prng=None):
    at = dict(verbosity="quiet", mode=mode, threading=str(bool(threading)))
    if safe_stride:
        at["safe_stride"] = safe_stride
    if isinstance(systems, str):
        systems = [systems]
    if isinstance(ffs, str):
        ffs = [ffs]
    body = tag("output", outputs, prefix=prefix)
    body += tag("total_steps", nsteps)
    if step is not None:
        body += tag("step", step)
    body += prng if prng else tag("prng", tag("seed", seed))
    body += "".join(ffs) + "".join(systems) + smotion + extra
    return tag("simulation", body, **at)


# ---------------------------------------------------------------- running
def load(xml, **kw):
    from ipi.engine.simulation import Simulation

    return Simulation.load_from_xml(xml, custom_verbosity="quiet", **kw)


def quiet():
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"


def shutdown(sim=None):
    """Ends the simulation the way bin/i-pi does, without leaving the process."""
    from ipi.utils.softexit import softexit

    try:
        softexit.trigger(status="success", message=" harness: done")
    except SystemExit:
        pass
    softexit.reset()


def run_to_end(sim):
    """run() and soft exit, as the i-pi script does."""
    sim.run()
    shutdown(sim)


def A(x):
    """Plain numpy copy of a depend object."""
    from ipi.utils.depend import dstrip

    return np.array(dstrip(x), dtype=float)
