"""C29: the Python interface (interactive runs, input helpers, readers of output files)."""
import glob
import os
import re

import numpy as np

from checks import c20_optim as c20
from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed

PROPERTY = "C29"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitoring: random interactive sessions (stepping in pieces, reading and setting structures, thermalising, overriding steps, continuing from the checkpoint) are compared with the uninterrupted run and with the recorded state; files written by real runs are read back and compared with the states recorded while they were written; inputs made by the helpers are loaded and compared with what was asked for"
NOTE = "conversions to the units of ASE are done with constants of our own; trajectories are compared bitwise, files byte by byte"
RULE = "quick: 40 sessions in pieces, 40 set/get sessions, 30 files read back, 40 inputs, 20 thermalisations; thorough: ten times as many"
ASSUMPTIONS = ["ASE is installed"]
TIMEOUT = {"quick": 120, "thorough": 600}
REQUIRE = {"same": 30, "files": 30, "handed": 60, "set": 30, "continued": 10, "read": 60, "steps": 20, "input": 60, "thermal": 10, "custom": 10}

ANG = 0.529177210903
EV = 27.211386245988
AMU = 1822.888486209
KEL = 1 / 3.1668115634556e-06  # kelvin per hartree
# ASE: length angstrom, energy eV, mass amu, time angstrom*sqrt(amu/eV)
UT = ANG * np.sqrt((1 / AMU) / EV)
UP = (1 / AMU) * ANG / UT  # momentum
TOL = 3e-6  # different sets of fundamental constants


def cases(tier, seed):
    f = 1 if tier == "quick" else 10
    out = []
    for kind, n in (("steps", 40), ("set", 40), ("read", 30), ("input", 40), ("thermal", 20)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c29", kind, i)) for i in range(n * f)]
    return out


def interactive(xml, **kw):
    from ipi.scripting import InteractiveSimulation

    return InteractiveSimulation(xml, **kw)


def aslist(x, many):
    return x if many else [x]


def handed(rec, sim, key):
    """Structures and properties handed out belong to the state."""
    ns = len(sim.syslist)
    st = aslist(sim.get_structures(), ns > 1)
    rec.check(len(st) == ns, "handed", "%d structures for %d systems" % (len(st), ns), key)
    for s, x in zip(sim.syslist, st):
        P = s.beads.nbeads
        x = aslist(x, P > 1)
        rec.check(len(x) == P, "handed", "%d structures for %d beads" % (len(x), P), key)
        q, p, f, v, h = sg.A(s.beads.q), sg.A(s.beads.p), sg.A(s.forces.f), sg.A(s.forces.pots), sg.A(s.cell.h)
        for b in range(P):
            rec.close(x[b].positions.ravel(), q[b] * ANG, TOL, "handed", "positions of bead %d" % b, key)
            rec.close(x[b].get_momenta().ravel(), p[b] * UP, TOL, "handed", "momenta of bead %d" % b, key)
            rec.close(np.array(x[b].cell), h.T * ANG, TOL, "handed", "cell of bead %d" % b, key)
            rec.close(x[b].get_forces().ravel(), f[b] * EV / ANG, TOL, "handed", "forces of bead %d" % b, key)
            rec.close(x[b].get_potential_energy(), v[b] * EV, TOL, "handed", "energy of bead %d" % b, key)
            rec.check(list(x[b].get_chemical_symbols()) == [str(n) for n in s.beads.names], "handed", "symbols", key)
    for name, val in (
        ("potential", [sg.A(s.forces.pots).mean() * EV for s in sim.syslist]),
        ("time", [float(s.ensemble.time) * UT for s in sim.syslist]),
        ("volume", [abs(np.linalg.det(sg.A(s.cell.h))) * ANG**3 for s in sim.syslist]),
        ("ensemble_temperature", [float(s.ensemble.temp) * KEL for s in sim.syslist]),
    ):
        got = aslist(sim.properties(name), ns > 1)
        rec.close(np.array([np.ravel(g) for g in got], float).ravel(), np.ravel(val), TOL, "handed", "property " + name, key, atol=1e-12)


def known(xml):
    """Names that ASE knows."""
    return re.sub(r"(<names[^>]*>)([^<]*)", lambda m: m.group(1) + re.sub(r"\bD\b", "C", m.group(2)), xml)


def config(rng, nsteps, outs):
    xml, key, specs = config_(rng, nsteps, outs)
    return known(xml), key, specs


def config_(rng, nsteps, outs):
    """A random document, with one or two systems."""
    modes = ["nve", "nvt", "nvt", "npt", "nst", "sc"]
    threading = bool(rng.random() < 0.3)
    if rng.random() < 0.7:
        s = cg.rand_spec(rng, modes=modes, allow=cg.ALL)
        return cg.xml(s, nsteps, outs, threading=threading), cg.label(s), [s]
    specs = [cg.rand_spec(rng, modes=["nvt", "npt"], allow=cg.ALL) for _ in range(2)]
    ffs, syss = [], []
    for i, s in enumerate(specs):
        ffs += cg.ff_xml(s, pref="f%d_" % i)
        syss.append(cg.system_xml(s, pref="f%d_" % i, prefix="s%d" % i))
    return sg.simulation(syss, ffs, nsteps, seed=int(rng.integers(1, 10**6)), outputs=outs, threading=False), "systems", specs


def run_steps(case, rec):
    """A session in pieces against the uninterrupted run."""
    rng = np.random.default_rng(case["cseed"])
    n = int(rng.integers(4, 10))
    outs = sg.tag("properties", "[ step, time, conserved, potential, temperature ]", filename="out", stride=int(rng.choice([1, 2, 3])))
    outs += sg.tag("trajectory", "positions", filename="pos", stride=int(rng.choice([1, 2]))) + sg.tag("trajectory", "x_centroid", filename="cen", stride=2)
    xml, key, specs = config(rng, n, outs)
    xml = xml.replace("<simulation", "<simulation floatformat='%24.16e'", 1)
    top = os.getcwd()
    os.makedirs("whole")
    os.chdir("whole")
    sim = sg.load(xml)
    sim.run()
    sim.step += 1
    ref = cg.state(sim)
    cg.end(sim)
    os.chdir(top)
    os.makedirs("pieces")
    os.chdir("pieces")
    cont = rng.random() < 0.4
    quiet = rng.random() < 0.2
    sim = interactive(xml)
    done = 0
    while done < n:
        k = int(rng.integers(1, n - done + 1))
        sim.run(k, write_outputs=False) if quiet else sim.run(k)
        done += k
        rec.check(int(sim.step) == done, "steps", "the session is at step %d after %d steps" % (sim.step, done), key)
        if rng.random() < 0.5:
            handed(rec, sim, key)
        if cont and done < n and rng.random() < 0.7:
            fn = sim.chk.filename
            cg.end(sim)
            with open(fn) as f:
                sim = interactive(f)
            rec.check(int(sim.step) == done, "continued", "the checkpoint of step %d continues at step %d" % (done, sim.step), key)
    got = cg.state(sim)
    cg.end(sim)
    bad = cg.diff_states(ref, got, 1e-7 if cont else 0.0)
    rec.check(not bad, "same", "the session differs from the uninterrupted run: %s" % bad[:3], key)
    os.chdir(top)
    if not quiet:
        a = sorted(os.path.basename(x) for x in glob.glob("whole/sim.*") + glob.glob("whole/s?_*") + glob.glob("whole/*sim.out"))
        for x in sorted(set(a)):
            if "RESTART" in x or x.startswith("#"):
                continue
            ta = open("whole/" + x).read()
            tb = open("pieces/" + x).read() if os.path.exists("pieces/" + x) else None
            if cont and tb is not None:
                la, lb = ta.split(), tb.split()
                ok = len(la) == len(lb)
                rec.check(ok, "files", "%s: %d words instead of %d" % (x, len(lb), len(la)), key)
            else:
                rec.check(ta == tb, "files", "%s differs from the one of the uninterrupted run" % x, key)


def run_set(case, rec):
    """Structures are set, and the session goes on from there."""
    import ase

    rng = np.random.default_rng(case["cseed"])
    xml, key, specs = config(rng, 10, "")
    log = []
    custom = {
        "first": lambda self: self.beads.q[0, 0],
        "both": {"func": lambda self: np.array([self.beads.q[0, 0], self.forces.pot]), "size": 2},
        "size": {"func": lambda self: self.cell.V, "dimension": "volume"},
    }
    sim = interactive(xml, custom_properties=custom)
    if rng.random() < 0.5:
        sim.run(int(rng.integers(1, 3)))
    many = len(sim.syslist) > 1
    new = []
    want = []
    for s, sp in zip(sim.syslist, specs):
        P, N = s.beads.nbeads, s.beads.natoms
        q0 = sg.A(s.beads.q)
        h = sg.A(s.cell.h) * (1 + 0.02 * rng.standard_normal())
        h = np.triu(h + 0.1 * rng.standard_normal((3, 3)))
        q = q0 + 0.05 * rng.standard_normal((P, 3 * N))
        withp = rng.random() < 0.6
        p = rng.normal(0, 3, (P, 3 * N)) if withp else sg.A(s.beads.p)
        fr = []
        for b in range(P):
            a = ase.Atoms([str(x) for x in s.beads.names], positions=q[b].reshape(-1, 3) * ANG, cell=h.T * ANG)
            if withp:
                a.set_momenta(p[b].reshape(-1, 3) * UP)
            fr.append(a)
        new.append(fr if P > 1 else fr[0])
        want.append((q, p, h))
    sim.set_structures(new if many else new[0])
    for s, (q, p, h) in zip(sim.syslist, want):
        rec.close(sg.A(s.beads.q), q, TOL, "set", "positions after set_structures", key)
        rec.close(sg.A(s.beads.p), p, TOL, "set", "momenta after set_structures", key, atol=1e-9)
        rec.close(sg.A(s.cell.h), h, TOL, "set", "cell after set_structures", key, atol=1e-9)
        c = specs[list(sim.syslist).index(s)]
        pots = np.zeros(len(q))
        if all(not k.get("nbeads") for k in c["comps"]):
            for k in c["comps"]:
                w = k["weight"] * (sum(k["mts"]) if k.get("mts") else 1.0)
                par = dict(vfpes.DEFAULTS, **k["pars"])
                pots += w * np.array([vfpes.energy(sg.A(s.cell.h), x, par)[0] for x in sg.A(s.beads.q)])
            rec.close(sg.A(s.forces.pots), pots, 1e-8, "set", "energies after set_structures", key, atol=1e-10)
    handed(rec, sim, key)
    for name, f in (
        ("first", lambda s: float(sg.A(s.beads.q)[0, 0])),
        ("both", lambda s: [float(sg.A(s.beads.q)[0, 0]), float(s.forces.pot)]),
        ("size", lambda s: abs(np.linalg.det(sg.A(s.cell.h))) * ANG**3),
    ):
        got = aslist(sim.properties(name), many)
        rec.close(np.array([np.ravel(g) for g in got]).ravel(), np.ravel([f(s) for s in sim.syslist]), TOL, "custom", "custom property " + name, key)
    # a step of our own
    old = aslist(sim.get_motion_step(), many)
    seen = []

    def mine(self, step=None):
        seen.append((self, step))
        self.beads.q[:] += 0.01

    q = [sg.A(s.beads.q) for s in sim.syslist]
    k = int(sim.step)
    sim.set_motion_step(mine)
    sim.run(2)
    rec.check(sorted(str(id(a)) + str(b) for a, b in seen) == sorted(str(id(s.motion)) + str(j) for s in sim.syslist for j in (k, k + 1)), "custom", "a custom step is not called once per step and system: %s" % [b for a, b in seen], key)
    for s, x in zip(sim.syslist, q):
        rec.close(sg.A(s.beads.q), x + 0.02, 1e-10, "custom", "positions after a custom step", key)
    cg.end(sim)


def run_thermal(case, rec):
    rng = np.random.default_rng(case["cseed"])
    xml, key, specs = config(rng, 10, "")
    sim = interactive(xml)
    kel = float(rng.choice([0.0, 50.0, 700.0])) if rng.random() < 0.6 else None
    chi = 0.0
    dof = 0
    econs = [float(s.ensemble.econs) for s in sim.syslist]
    for rep in range(40):
        sim.thermalize_momenta(kel) if kel is not None else sim.thermalize_momenta()
        for s, c in zip(sim.syslist, specs):
            T = float(s.ensemble.temp) if kel is None else kel / KEL
            pnm, m = sg.A(s.nm.pnm), sg.A(s.nm.dynm3)
            fixed = np.zeros(pnm.shape[1], bool)
            for i in c.get("fixatoms", []):
                fixed[3 * i : 3 * i + 3] = True
            for i in c.get("fixatoms_dof", []):
                fixed[i] = True
            rec.check(np.abs(pnm[:, fixed]).max(initial=0) < 1e-10, "thermal", "fixed atoms move", key)
            if c["mode"] == "nvt-cc":
                continue
            a = pnm[:, ~fixed]
            mm = m[:, ~fixed]
            if c.get("fixcom"):
                tot = a[0].reshape(-1, 3).sum(0)
                rec.check(np.abs(tot).max() < 1e-8 * max(1, np.abs(a).max()), "thermal", "the centre of mass moves", key)
            if T > 0:
                chi += np.sum(a * a / mm) / (len(a) * T)
                dof += a.size - (3 if c.get("fixcom") else 0)
            else:
                rec.check(np.abs(a).max() < 1e-12, "thermal", "momenta at zero temperature", key)
    if dof:
        z = (chi - dof) / np.sqrt(2 * dof)
        rec.check(abs(z) < 8, "thermal", "kinetic energy %.4f of the expected one (%.1f standard deviations)" % (chi / dof, z), key)
    for s, e in zip(sim.syslist, econs):
        rec.close(float(s.ensemble.econs), e, 1e-8, "thermal", "the conserved quantity changed on thermalising", key, atol=1e-8)
    cg.end(sim)


def run_input(case, rec):
    """Inputs made by the helpers describe what was asked for."""
    import ase
    from ipi.scripting import forcefield_xml, motion_nvt_xml, simulation_xml

    rng = np.random.default_rng(case["cseed"])
    P, N = int(rng.choice([1, 1, 2, 4, 12])), int(rng.integers(1, 6))
    h = np.triu(rng.normal(0, 0.5, (3, 3))) + np.eye(3) * 9.0
    names = [str(x) for x in rng.choice(["H", "O", "Si", "C"], N)]
    q = rng.uniform(0, 8, (P, N, 3))
    fr = [ase.Atoms(names, positions=x, cell=h.T) for x in q]
    masses = rng.uniform(1, 30, N) if rng.random() < 0.3 else None
    if masses is not None:
        for a in fr:
            a.set_array("mass", masses)
    T = float(rng.choice([100.0, 300.0])) if rng.random() < 0.7 or P > 1 else None
    dt = float(rng.uniform(0.2, 2.0))
    prefix = str(rng.choice(["abc", "x_1"])) if rng.random() < 0.5 else None
    own = rng.random() < 0.3
    th = sg.tag("thermostat", sg.tag("tau", "55.5"), mode="langevin") if own else None
    out = None
    if rng.random() < 0.5:
        out = "<output prefix='given'><properties stride='3' filename='o'>[ step ]</properties></output>"
    key = "input/P%d%s%s%s" % (min(P, 2), "/T" if T else "", "/prefix" if prefix else "", "/own" if own else "")
    ff = forcefield_xml("lj", mode="direct", pes="harmonic", parameters={"k1": 0.3}) if rng.random() < 0.5 else forcefield_xml("lj", mode="direct", pes="dummy")
    mot = motion_nvt_xml(dt, thermostat=th, path_integrals=P > 1) if T else "<motion mode='dynamics'><dynamics mode='nve'><timestep>1.0</timestep></dynamics></motion>"
    kw = dict(safe_stride=int(rng.integers(1, 50)))
    xml = simulation_xml(fr if P > 1 or rng.random() < 0.3 else fr[0], ff, mot, temperature=None if T is None else T, output=out, prefix=prefix, **kw)
    sim = sg.load(xml)
    s = sim.syslist[0]
    rec.close(sg.A(s.beads.q), q.reshape(P, -1) / ANG, TOL, "input", "positions", key)
    rec.close(sg.A(s.cell.h), h / ANG, TOL, "input", "cell", key, atol=1e-9)
    rec.check([str(x) for x in s.beads.names] == names, "input", "names", key)
    std = {"H": 1.00794, "O": 15.9994, "Si": 28.0855, "C": 12.0107}
    rec.close(sg.A(s.beads.m), np.array([std[x] for x in names] if masses is None else masses) * AMU, 2e-3 if masses is None else TOL, "input", "masses", key)
    if T:
        rec.close(float(s.ensemble.temp), T / KEL, TOL, "input", "temperature", key)
        rec.close(float(s.motion.dt), dt / UT, TOL, "input", "time step", key)
        rec.close(float(s.motion.thermostat.tau), 55.5 if own else 10 * dt / UT, TOL, "input", "thermostat time", key)
        rec.check(N * P == 1 or np.abs(sg.A(s.beads.p)).max() > 0, "input", "no thermal velocities", key)
    rec.check(sim.safe_stride == kw["safe_stride"], "input", "safe_stride", key)
    rec.check(sim.outtemplate.prefix == (prefix or ("given" if out else "simulation")), "input", "prefix %s" % sim.outtemplate.prefix, key)
    if out:
        o = [x for x in sim.outtemplate if hasattr(x, "outlist")]
        rec.check(len(o) == 1 and o[0].stride == 3, "input", "outputs", key)
    cg.end(sim)
    # sockets: described, not opened
    from ipi.inputs.simulation import InputSimulation
    from ipi.utils.io.inputs import io_xml

    mode = str(rng.choice(["unix", "inet"]))
    addr, port = "vf%d" % rng.integers(1e6), int(rng.integers(20000, 60000))
    ff = forcefield_xml("so", mode=mode, address=addr, port=port if mode == "inet" else None)
    x = simulation_xml(fr[0], ff, mot, temperature=T)
    inp = InputSimulation()
    inp.parse(io_xml.xml_parse_string(x).fields[0][1])
    f = [b for a, b in inp.extra if a == "ffsocket"]
    rec.check(len(f) == 1, "input", "%d sockets" % len(f), key)
    f = f[0]
    rec.check(f.mode.fetch() == mode and f.address.fetch() == addr and f.name.fetch() == "so", "input", "a socket of mode %s at %s was requested: %s at %s" % (mode, addr, f.mode.fetch(), f.address.fetch()), key + mode)
    if mode == "inet":
        rec.check(f.port.fetch() == port, "input", "port", key)
    for bad in (dict(mode="unix"), dict(mode="inet", address="a"), dict(mode="direct"), dict(mode="direct", pes="nothing"), dict(mode="other", address="a")):
        try:
            forcefield_xml("x", **bad)
        except ValueError:
            rec.ok("input", "refused")
            continue
        rec.fail("input", "accepted: %s" % bad, {})


PROPS = [
    ("step", 1, None),
    ("time", 1, "time"),
    ("potential", 1, "energy"),
    ("conserved", 1, "energy"),
    ("temperature", 1, "temperature"),
    ("kinetic_md", 1, "energy"),
    ("volume", 1, "volume"),
    ("cell_h", 6, "length"),
    ("stress_md", 6, "pressure"),
    ("atom_x(0)", 3, "length"),
    ("atom_f(atom=1)", 3, "force"),
    ("potential(bead=0)", 1, "energy"),
]
UNITS = {
    "time": {"femtosecond": 1 / 41.341374575751, "picosecond": 1e-3 / 41.341374575751},
    "energy": {"electronvolt": EV, "kelvin": KEL, "millielectronvolt": EV * 1e3},
    "temperature": {"kelvin": KEL},
    "volume": {"angstrom3": ANG**3},
    "length": {"angstrom": ANG, "nanometer": ANG / 10},
    "pressure": {"gigapascal": 1e-9 / 3.398827377e-14},
    "force": {"ev/ang": EV / ANG},
}


class Watch:
    filename = "_watch"

    def __init__(self, sim, props, store):
        self.sim, self.props, self.store = sim, props, store

    def active(self):
        return True

    def write(self):
        s = self.sim.syslist[0]
        d = dict(step=int(self.sim.step) + 1, q=sg.A(s.beads.q), p=sg.A(s.beads.p), f=sg.A(s.forces.f), h=sg.A(s.cell.h), m=sg.A(s.beads.m))
        for x in self.props:
            d["P" + x] = np.array(s.properties[x][0], float).ravel().copy()
        self.store.append(d)


def run_read(case, rec):
    """Files of a real run, read back."""
    from ipi.scripting import read_output, read_trajectory

    rng = np.random.default_rng(case["cseed"])
    n = int(rng.choice([5, 13, 24, 115]))
    s = cg.rand_spec(rng, modes=["nve", "nvt", "npt"], allow=("multi", "fixcom"), nbeads=int(rng.choice([1, 2, 3, 11])), natoms=int(rng.integers(2, 5)))
    s["dt"] = 2.0
    pick = [PROPS[i] for i in sorted(rng.choice(len(PROPS), int(rng.integers(2, len(PROPS))), replace=False))]
    pick = [pick[i] for i in rng.permutation(len(pick))]
    names, facs, cols = [], [], []
    for name, size, dim in pick:
        u = None
        if dim and dim in UNITS and rng.random() < 0.6:
            u = str(rng.choice(sorted(UNITS[dim])))
        names.append(name)
        facs.append((size, UNITS[dim][u] if u else 1.0, u))
        base, arg = (name.split("(")[0], "(" + name.split("(")[1]) if "(" in name else (name, "")
        cols.append(base + ("{%s}" % u if u else "") + arg)
    st = [int(rng.choice([1, 2, 5])) for _ in range(4)]
    outs = sg.tag("properties", "[ " + ", ".join(cols) + " ]", filename="out", stride=st[0])
    fmts = []
    for i, what in enumerate(["positions", "velocities", "forces"]):
        fmt = str(rng.choice(["xyz", "xyz", "pdb", "ase"])) if what == "positions" else "xyz"
        un = {"positions": ["", "{angstrom}"], "velocities": ["", "{m/s}"], "forces": ["", "{ev/ang}"]}[what]
        un = str(rng.choice(un)) if fmt == "xyz" else ("{angstrom}" if fmt == "pdb" else "{ase}")
        cu = dict(cell_units="angstrom") if fmt != "xyz" or rng.random() < 0.5 else {}
        if fmt == "ase":
            cu = dict(cell_units="ase")
        outs += sg.tag("trajectory", what + un, filename=what[:3], stride=st[i + 1], format=fmt, **cu)
        fmts.append((what, fmt))
    outs += sg.tag("trajectory", "extras", filename="ext", stride=2, extra_type="dipole")
    xml = cg.xml(s, n, outs, pes_extra=dict(extras="bec") if len(s["comps"]) == 1 else None).replace("<simulation", "<simulation floatformat='%24.16e'", 1)
    if len(s["comps"]) > 1:
        xml = xml.replace(outs[outs.rindex("<trajectory") :], "")
    xml = known(xml)
    sim = sg.load(xml)
    store = []
    sim.outputs.append(Watch(sim, names, store))
    sim.run()
    cg.end(sim)
    key = "read/P%s/%s" % ("1" if s["nbeads"] == 1 else ("n" if s["nbeads"] < 10 else "nn"), fmts[0][1])
    val, info = read_output("sim.out")
    rec.check(sorted(val) == sorted(names), "read", "columns %s instead of %s" % (sorted(val), sorted(names)), key)
    at = [d for d in store if d["step"] % st[0] == 0]
    for name, (size, fac, u) in zip(names, facs):
        if name not in val:
            continue
        v = np.array(val[name]).reshape(len(at), -1) if np.size(val[name]) == len(at) * size else np.array(val[name])
        w = np.array([d["P" + name] * fac for d in at]).reshape(len(at), -1)
        rec.check(v.shape == w.shape, "read", "%s: %s values instead of %s" % (name, v.shape, w.shape), key)
        if v.shape == w.shape:
            rec.close(v, w, TOL, "read", name, key, atol=1e-12)
        rec.check(info[name][0] == u, "read", "%s: units %s instead of %s" % (name, info[name][0], u), key)
    w = len(str(s["nbeads"])) if s["nbeads"] > 1 else 1
    for i, (what, fmt) in enumerate(fmts):
        at = [d for d in store if d["step"] % st[i + 1] == 0]
        for b in sorted(set([0, s["nbeads"] - 1])):
            ext = "extxyz" if fmt == "ase" else fmt
            fn = [x for x in glob.glob("sim.%s_*.%s" % (what[:3], ext)) if int(x.split("_")[-1].split(".")[0]) == b]
            rec.check(len(fn) == 1, "read", "%s: no file of bead %d" % (what, b), key)
            if len(fn) != 1:
                continue
            fr = read_trajectory(fn[0])
            rec.check(len(fr) == len(at), "steps", "%s: %d frames instead of %d" % (fn[0], len(fr), len(at)), key)
            for d, a in zip(at, fr):
                if fmt != "ase":
                    rec.check(a.info.get("step") == d["step"], "steps", "%s: step %s instead of %d" % (fn[0], a.info.get("step"), d["step"]), key)
                tol = 2e-3 if fmt == "pdb" else 1e-5
                if what == "positions":
                    rec.close(a.positions.ravel(), d["q"][b] * ANG, tol if fmt == "pdb" else 1e-5, "read", "%s step %d" % (fn[0], d["step"]), key, atol=tol)
                elif what == "velocities":
                    rec.close(a.arrays["velocities"].ravel(), d["p"][b] / np.repeat(d["m"], 3) * ANG / UT, 1e-5, "read", "%s step %d" % (fn[0], d["step"]), key, atol=1e-10)
                else:
                    rec.close(a.arrays["forces"].ravel(), d["f"][b] * EV / ANG, 1e-5, "read", "%s step %d" % (fn[0], d["step"]), key, atol=1e-10)
                if fmt == "pdb":
                    rec.close(np.array(a.cell.lengths()), np.linalg.norm(d["h"], axis=0) * ANG, 2e-3, "read", "cell of %s" % fn[0], key)
                else:
                    rec.close(np.array(a.cell), d["h"].T * ANG, 1e-4, "read", "cell of %s" % fn[0], key, atol=1e-3)
    if len(s["comps"]) == 1:
        at = [d for d in store if d["step"] % 2 == 0]
        for b in sorted(set([0, s["nbeads"] - 1])):
            fn = [x for x in glob.glob("sim.ext_*") if int(x.split("_")[-1]) == b]
            rec.check(len(fn) == 1, "read", "no extras of bead %d" % b, key)
            if len(fn) != 1:
                continue
            e = read_trajectory(fn[0], format="extras")
            rec.check([int(x) for x in np.ravel(e["step"])] == [d["step"] for d in at], "steps", "steps of the extras", key)
            rec.close(np.array(e["dipole"]).reshape(-1, 3), np.array([vfpes.dipole(d["q"][b])[0] for d in at]), 1e-7, "read", "dipoles in %s" % fn[0], key)


def run(case, rec):
    {"steps": run_steps, "set": run_set, "read": run_read, "input": run_input, "thermal": run_thermal}[case["kind"]](case, rec)
