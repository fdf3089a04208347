"""Helpers shared by the demonstrations: builds i-PI inputs and runs them in a scratch directory."""
import os
import shutil
import sys
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix="demo_")
os.chdir(SCRATCH)

import atexit

atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def arr(a):
    return "[ " + ", ".join("%.17e" % x for x in np.asarray(a, float).ravel()) + " ]"


def ff(name="ff", pars="", extra="", attr=""):
    return "<ffdirect name='%s' %s><pes>custom</pes><pes_path>%s</pes_path>%s%s</ffdirect>" % (
        name, attr, os.path.join(HERE, "tinypes.py"), ("<parameters>{%s}</parameters>" % pars) if pars else "", extra)


def geom(nbeads=1, natoms=2, seed=0):
    rng = np.random.default_rng(seed)
    q0 = np.array([[2.3 * i, 0.4 * (i % 2), 0.3 * i] for i in range(natoms)]).ravel()
    q = q0 + 0.1 * rng.standard_normal((nbeads, 3 * natoms))
    m = np.array([1837.0 * (1 + i % 3) for i in range(natoms)])
    p = np.sqrt(1e-3 * nbeads * np.repeat(m, 3)) * rng.standard_normal((nbeads, 3 * natoms))
    return q, p, m


def system(motion, nbeads=1, natoms=2, forces="<force forcefield='ff'/>", ensemble="", nm="", temp=0.001, seed=0,
           cell=None, g=None, prefix="", names=None):
    q, p, m = g or geom(nbeads, natoms, seed)
    h = np.diag([10.0, 11.0, 12.0]) if cell is None else cell
    return "<system%s><beads nbeads='%d' natoms='%d'><q shape='(%d, %d)'>%s</q><p shape='(%d, %d)'>%s</p><m shape='(%d)'>%s</m><names shape='(%d)'>[ %s ]</names></beads><cell shape='(3,3)'>%s</cell><forces>%s</forces><ensemble><temperature>%.17e</temperature>%s</ensemble>%s%s</system>" % (
        (" prefix='%s'" % prefix) if prefix else "",
        nbeads, natoms, nbeads, 3 * natoms, arr(q), nbeads, 3 * natoms, arr(p), natoms, arr(m), natoms,
        ", ".join(names or ["H"] * natoms), arr(h), forces, temp, ensemble, nm, motion)


def dynamics(mode="nve", dt=10.0, extra="", splitting="", top=""):
    return "<motion mode='dynamics'><dynamics mode='%s'%s><timestep>%.17e</timestep>%s</dynamics><fixcom>False</fixcom>%s</motion>" % (
        mode, (" splitting='%s'" % splitting) if splitting else "", dt, extra, top)


def simulation(systems, ffs=None, nsteps=10, outputs="", seed=321, extra=""):
    if isinstance(systems, str):
        systems = [systems]
    return "<simulation verbosity='quiet' threading='False' floatformat='%%24.16e'><output prefix='sim'>%s</output><total_steps>%d</total_steps><prng><seed>%d</seed></prng>%s%s%s</simulation>" % (
        outputs, nsteps, seed, ffs or ff(), extra, "".join(systems))


def load(xml):
    """Loads a simulation from a string, or from the name of a checkpoint file."""
    from ipi.engine.simulation import Simulation

    if not xml.lstrip().startswith("<"):
        xml = open(xml).read()
    return Simulation.load_from_xml(xml, custom_verbosity="quiet", request_banner=False)


def stop():
    from ipi.utils.softexit import softexit

    try:
        softexit.trigger(status="success", message="done")
    except SystemExit:
        pass
    softexit.reset()


def run(sim):
    sim.run()
    stop()


def A(x):
    from ipi.utils.depend import dstrip

    return np.array(dstrip(x), dtype=float)


def same(a, b, what, tol=1e-9):
    a, b = A(a), A(b)
    d = np.max(np.abs(a - b)) if a.shape == b.shape and a.size else (0.0 if a.shape == b.shape else np.inf)
    if not d <= tol:
        print("FAIL: %s: deviation %g" % (what, d))
        leave(1)
    print("ok:", what)


def require(c, what):
    if not c:
        print("FAIL:", what)
        leave(1)
    print("ok:", what)


def leave(code=0):
    sys.stdout.flush()
    os.chdir("/")
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os._exit(code)
