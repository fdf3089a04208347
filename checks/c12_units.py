"""C12: unit conversions, in isolation and through inputs, files and outputs."""
import os
import re

import numpy as np

from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: every conversion is compared with factors derived from CODATA constants; the same simulation written in random units must load to the same state, and what it prints in random units must be the same values"
NOTE = "All supported units x prefixes x dimensions are enumerated against scipy.constants (relative tolerance 5e-6: i-PI's constants are rounded); inputs, structure files, properties and trajectories are exercised end to end with random units and bead numbers."
RULE = "each evaluation is one conversion, one loaded quantity or one printed value compared with its independent counterpart; distinct counts (dimension, unit, prefix) combinations and input signatures"
ASSUMPTIONS = ["scipy.constants CODATA values", "i-PI's rounded constants are within 5e-6 of CODATA"]
REQUIRE = {"factor": 500, "inverse": 500, "reject": 50, "input": 100, "printed": 200, "file": 40, "mass": 80}

PREF = {"": 1.0, "yotta": 1e24, "zetta": 1e21, "exa": 1e18, "peta": 1e15, "tera": 1e12, "giga": 1e9, "mega": 1e6, "kilo": 1e3, "milli": 1e-3, "micro": 1e-6, "nano": 1e-9, "pico": 1e-12, "femto": 1e-15, "atto": 1e-18, "zepto": 1e-21, "yocto": 1e-24}


def table(own=True):
    """Independent factors from each documented unit to atomic units.

    i-PI's pascal, bar and atmosphere are only good to 3e-5; with own=True those three are replaced
    by the values the code uses, which the 'table' case compares with CODATA.
    """
    import scipy.constants as C

    pc = C.physical_constants
    Eh = pc["Hartree energy"][0]
    a0 = pc["Bohr radius"][0]
    tu = pc["atomic unit of time"][0]
    me = C.m_e
    hbar = C.hbar
    NA = C.N_A
    ev = C.e / Eh
    ang = 1e-10 / a0
    pa = a0**3 / Eh
    amu = C.atomic_mass / me
    d = {
        "energy": {"electronvolt": ev, "j/mol": 1.0 / NA / Eh, "cal/mol": C.calorie_IT / NA / Eh, "kelvin": C.k / Eh},
        "temperature": {"kelvin": C.k / Eh},
        "time": {"second": 1.0 / tu},
        "frequency": {"inversecm": 2 * np.pi * C.c * 100 * tu, "hertz*rad": tu, "hertz": 2 * np.pi * tu, "hz": 2 * np.pi * tu, "thz": 2 * np.pi * tu * 1e12},
        "electric-field": {"v/ang": ev / ang},
        "electric-dipole": {"eang": ang, "debye": 1e-21 / C.c / (C.e * a0)},
        "ms-momentum": {},
        "length": {"angstrom": ang, "meter": 1 / a0, "radian": 1.0, "degree": np.pi / 180},
        "action": {"joule*second": 1.0 / hbar},
        "volume": {"angstrom3": ang**3},
        "velocity": {"m/s": tu / a0},
        "momentum": {},
        "mass": {"dalton": amu, "electronmass": 1.0},
        "pressure": {"bar": 1e5 * pa, "atmosphere": 101325 * pa, "pascal": pa, "ev/ang3": ev / ang**3},
        "density": {"g/cm3": 1e-3 / me * a0**3 * 1e6},
        "force": {"newton": a0 / Eh, "ev/ang": ev / ang},
        "hessian": {"ev/ang^2": ev / ang**2},
        "undefined": {},
    }
    au_t = ang * np.sqrt(amu / ev)  # ASE time unit
    ase = {
        "energy": ev, "length": ang, "temperature": C.k / C.e * ev, "time": au_t, "velocity": ang / au_t, "force": ev / ang,
        "volume": ang**3, "frequency": 1 / au_t, "action": ev * au_t, "mass": amu, "pressure": ev / ang**3,
        "momentum": amu * ang / au_t, "density": amu / ang**3, "hessian": ev / ang**2, "electric-dipole": ang,
        "electric-field": ev / ang, "undefined": 1.0,
    }
    if own:
        from ipi.utils.units import unit_to_internal

        for u in ("bar", "atmosphere", "pascal"):
            d["pressure"][u] = unit_to_internal("pressure", u, 1.0)
    for k in d:
        d[k].update({"": 1.0, "automatic": 1.0, "atomic_unit": 1.0})
        if k in ase:
            d[k]["ase"] = ase[k]
    return d


def cases(tier, seed):
    n = {"quick": (24, 12, 24), "thorough": (400, 150, 300)}[tier]
    out = [dict(name="table", kind="table", cseed=sub_seed(seed, "t"))]
    out += [dict(name="input_%d" % i, kind="input", cseed=sub_seed(seed, "i", i)) for i in range(n[0])]
    out += [dict(name="out_%d" % i, kind="out", cseed=sub_seed(seed, "o", i)) for i in range(n[1])]
    out += [dict(name="file_%d" % i, kind="file", cseed=sub_seed(seed, "f", i)) for i in range(n[2])]
    return out


def prefixes_for(unit):
    return [""] if unit in ("", "automatic", "atomic_unit", "ase") else list(PREF)


def rand_case(rng, u):
    r = rng.random()
    return u if r < 0.6 else (u.upper() if r < 0.8 else u.capitalize())


def run_table(case, rec):
    from ipi.utils.units import Elements, UnitMap, unit_to_internal, unit_to_user

    rng = np.random.default_rng(case["cseed"])
    T = table(False)
    for dim, us in T.items():
        known = set(us)
        extra = set(UnitMap.get(dim, {})) - known if isinstance(UnitMap, dict) else set()
        rec.note("units of %s without an independent factor: %s" % (dim, sorted(extra))) if extra else None
        for u, f in us.items():
            for p in prefixes_for(u):
                x = float(rng.uniform(-5, 5) * 10.0 ** rng.integers(-3, 4))
                # longest-prefix ambiguity: what the user typed is the unit itself if it exists
                key = "%s|%s|%s" % (dim, p, u)
                base = rand_case(rng, u)
                got = unit_to_internal(dim, p + base, x)
                rec.close(got, x * f * PREF[p], 1e-4 if u in ("bar", "atmosphere", "pascal") else 5e-6, "factor", "1 %s%s of %s" % (p, u, dim), key, atol=0.0)
                back = unit_to_user(dim, p + base, got)
                rec.close(back, x, 1e-13, "inverse", "%s%s of %s there and back" % (p, u, dim), key)
                a = rng.standard_normal((2, 3))
                rec.close(unit_to_internal(dim, p + base, a), a * unit_to_internal(dim, p + base, 1.0), 1e-13, "inverse", "array conversion %s%s" % (p, u), key)
        for _ in range(6):
            bad = "".join(rng.choice(list("abcdefgxyz"), 7))
            refuse(rec, unit_to_internal, dim, str(rng.choice(["", "kilo", "milli"])) + bad)
            refuse(rec, unit_to_user, dim, bad)
        other = {u for k, v in T.items() for u in v} - set(us) - set(UnitMap[dim])
        for u in other:
            refuse(rec, unit_to_internal, dim, u)
    for bad in ("len", "energies", "foo", ""):
        refuse(rec, unit_to_internal, bad, "atomic_unit")
    rec.close(unit_to_internal("number", "", 3.5), 3.5, 0, "factor", "plain number", "number")
    import scipy.constants as C
    from ase.data import atomic_masses, chemical_symbols

    amu = C.atomic_mass / C.m_e
    for z, sym in enumerate(chemical_symbols):
        if 0 < z <= 103 and sym in Elements.mass_list:
            rec.close(Elements.mass(sym) / amu, atomic_masses[z], 0.02 if z in (43, 61) or z > 83 else 6e-4, "mass", "mass of " + sym, sym)
    for sym, m in dict(D=2.0141018, T=3.0160493, C13=13.0033548, C14=14.003241, O17=16.9991316, O18=17.9991604, Cl37=36.9659026, Br81=80.91629, H2=2.016).items():
        rec.close(Elements.mass(sym) / amu, m, 6e-4, "mass", "mass of " + sym, sym)


def refuse(rec, f, dim, unit):
    try:
        v = f(dim, unit, 1.0)
    except (ValueError, TypeError, IndexError, KeyError):
        rec.ok("reject", "%s|%s" % (dim, unit[:2]))
        return
    rec.fail("reject", "unit %r of dimension %r was accepted (%r)" % (unit, dim, v))


def ru(rng, T, dim, avoid=()):
    """A random unit string of a dimension, with its factor."""
    us = [u for u in T[dim] if u not in ("", "automatic") and u not in avoid]
    u = str(rng.choice(us))
    p = str(rng.choice(["", "", "milli", "micro", "kilo", "pico", "femto", "mega", "giga"])) if len(prefixes_for(u)) > 1 else ""
    return p + u, T[dim][u] * PREF[p]


LEN_BAD = ("radian", "degree")


def run_input(case, rec):
    """Loads the same simulation in random units and checks the internal values."""
    rng = np.random.default_rng(case["cseed"])
    T = table()
    nb, nat = int(rng.choice([1, 2, 3])), int(rng.integers(1, 4))
    want = {}

    def val(name, x, dim, avoid=()):
        """x: value in atomic units; returns (text, attribute)."""
        u, f = ru(rng, T, dim, avoid)
        want[name] = x
        return u, np.asarray(x, float) / f

    def tg(tagname, name, x, dim, avoid=(), **at):
        u, v = val(name, x, dim, avoid)
        txt = "%.16e" % v if np.ndim(v) == 0 else sg.arr(v)
        at["units"] = u
        return sg.tag(tagname, txt, **at)

    h = np.diag(rng.uniform(8, 12, 3)) + np.triu(rng.uniform(-1, 1, (3, 3)), 1)
    q = rng.uniform(0, 8, (nb, 3 * nat))
    p = rng.standard_normal((nb, 3 * nat))
    m = rng.uniform(1e3, 5e4, nat)
    beads = "<beads nbeads='%d' natoms='%d'>" % (nb, nat)
    beads += tg("q", "q", q, "length", LEN_BAD, shape="(%d,%d)" % (nb, 3 * nat))
    beads += tg("p", "p", p, "momentum", shape="(%d,%d)" % (nb, 3 * nat))
    beads += tg("m", "m", m, "mass", shape="(%d)" % nat)
    beads += sg.tag("names", "[ " + ", ".join(["H"] * nat) + " ]", shape="(%d)" % nat) + "</beads>"
    cell = tg("cell", "h", h, "length", LEN_BAD, shape="(3,3)")
    mode = str(rng.choice(["nvt", "npt", "nst"]))
    tau, btau, ttau, dt = rng.uniform(10, 1e4, 4)
    th = "<thermostat mode='pile_l'>" + tg("tau", "tau", tau, "time") + "</thermostat>"
    dyn = tg("timestep", "dt", dt, "time") + th
    ens = tg("temperature", "temp", rng.uniform(1e-4, 1e-2), "temperature")
    if mode != "nvt":
        bm = {"npt": str(rng.choice(["isotropic", "flexible"])), "nst": "anisotropic"}[mode]
        b = "<thermostat mode='langevin'>" + tg("tau", "ttau", ttau, "time") + "</thermostat>" + tg("tau", "btau", btau, "time")
        if mode == "nst":
            b += tg("h0", "h0", h, "length", LEN_BAD, shape="(3,3)")
        dyn += "<barostat mode='%s'>%s</barostat>" % (bm, b)
    if mode == "npt":
        ens += tg("pressure", "pext", rng.uniform(1e-6, 1e-3), "pressure")
    if mode == "nst":
        ens += tg("stress", "stress", rng.uniform(-1e-4, 1e-4, (3, 3)), "pressure")
    freqs = rng.uniform(1e-3, 5e-2, nb - 1)
    nmx = ""
    if nb > 1:
        nmx = "<normal_modes>" + tg("frequencies", "freq", freqs, "frequency", style="manual") + "</normal_modes>"
    ensx = "<ensemble>" + ens + "</ensemble>"
    x = sg.tag(
        "system",
        beads + cell + nmx + "<forces><force forcefield='ff'/></forces>" + ensx + "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='%s'>%s</dynamics></motion>" % (mode, dyn),
    )
    off = float(rng.uniform(-1, 1))
    u, v = val("offset", off, "energy")
    ff = "<ffdirect name='ff'><pes>dummy</pes><offset units='%s'>%.16e</offset></ffdirect>" % (u, v)
    sim = sg.load(sg.simulation([x], ff, 1, outputs=""))
    s = sim.syslist[0]
    A = sg.A
    got = dict(q=A(s.beads.q), p=A(s.beads.p), m=A(s.beads.m), h=A(s.cell.h), temp=float(s.ensemble.temp), dt=float(s.motion.dt), tau=float(s.motion.thermostat.tau), offset=None)
    got["offset"] = -float(s.forces.pot) / nb
    if nb > 1:
        got["freq"] = A(s.nm.nm_freqs)
    if mode != "nvt":
        got["btau"] = float(s.motion.barostat.tau)
        got["ttau"] = float(s.motion.barostat.thermostat.tau)
    if mode == "npt":
        got["pext"] = float(s.ensemble.pext)
    if mode == "nst":
        got["stress"] = A(s.ensemble.stressext)
        got["h0"] = A(s.motion.barostat.h0.h)
    for k in want:
        w = np.asarray(want[k])
        if k in ("h", "h0"):
            w = np.triu(w)
        rec.close(got[k], w, 6e-6, "input", "%s given in other units" % k, "%s|%s" % (mode, k))
    sg.shutdown(sim)


def run_out(case, rec):
    """Prints every property and trajectory in random units."""
    rng = np.random.default_rng(case["cseed"])
    T = table()
    nb, nat = int(rng.choice([1, 2, 4])), int(rng.integers(2, 5))
    g = sg.geometry(rng, nat, nb, p_t=1e-3)
    cols, outs = [], ""
    sysx = sg.system(g, sg.dynamics("nve", dt=5.0), forces="<force forcefield='ff'/>", ensemble="<temperature>1e-3</temperature>")
    mk = lambda outputs: sg.simulation([sysx], sg.ffdirect(pars=dict(k=0.05, r0=2.5, kt=0.01)), 2, outputs=outputs).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    props = ["time", "conserved", "temperature", "potential", "kinetic_cv", "kinetic_md", "density", "volume", "pressure_md", "pressure_cv", "stress_md", "virial_md", "atom_x(0)", "atom_v(1)", "atom_f(0)", "cell_h", "kinetic_td", "forcemod", "spring", "atom_p(0)", "r_gyration", "virial_cv", "vcom", "ensemble_temperature", "pot_component(0)"]
    ref = "<properties stride='1' filename='ref'>[ step, %s ]</properties>" % ", ".join(props)
    sim = sg.load(mk(""))
    pd = sim.syslist[0].properties.property_dict
    td = sim.syslist[0].trajs.traj_dict
    DIM = dict(time="time", conserved="energy", temperature="temperature", potential="energy", kinetic_cv="energy", kinetic_md="energy", density="density", volume="volume", pressure_md="pressure", pressure_cv="pressure", stress_md="pressure", virial_md="pressure", atom_x="length", atom_v="velocity", atom_f="force", cell_h="length", kinetic_td="energy", forcemod="force", spring="energy", atom_p="momentum", r_gyration="length", virial_cv="pressure", vcom="velocity", ensemble_temperature="temperature", pot_component="energy")
    for k in pd:
        pd[k]  # the dictionary must be readable
    sg.shutdown(sim)
    chosen = []
    for p in props:
        key = p.split("(")[0]
        u, f = ru(rng, T, DIM[key], LEN_BAD)
        arg = p[len(key):]
        chosen.append((p, "%s{%s}%s" % (key, u, arg), f, u))
    outs = ref + "<properties stride='1' filename='usr'>[ step, %s ]</properties>" % ", ".join(c[1] for c in chosen)
    trajs = []
    for t, dim in dict(positions="length", velocities="velocity", momenta="momentum", forces="force", x_centroid="length", v_centroid="velocity", p_centroid="momentum", f_centroid="force").items():
        if t not in td:
            continue
        u, f = ru(rng, T, dim, LEN_BAD + ("ase",))
        cu, cf = ru(rng, T, "length", LEN_BAD + ("ase",))
        # keep printed numbers inside what %12.5e / %10.5f can show
        if not 1e-3 < 10 / cf < 1e4:
            cu, cf = "angstrom", T["length"]["angstrom"]
        trajs.append((t, u, f, cu, cf))
        outs += "<trajectory stride='1' filename='u_%s' cell_units='%s'>%s{%s}</trajectory><trajectory stride='1' filename='r_%s'>%s</trajectory>" % (t, cu, t, u, t, t)
    sim = sg.load(mk(outs))
    s = sim.syslist[0]
    sg.run_to_end(sim)
    r = np.loadtxt("sim.ref", ndmin=2)
    w = np.loadtxt("sim.usr", ndmin=2)
    head = [l for l in open("sim.usr") if l.startswith("#")]
    rec.check(r.shape == w.shape, "printed", "different number of columns %s %s" % (r.shape, w.shape), "shape")
    c = 1
    for p, spec, f, u in chosen:
        key = p.split("(")[0]
        n = pd[key].get("size", 1)
        rec.close(w[:, c : c + n], r[:, c : c + n] / f, 6e-6, "printed", "%s against %s" % (spec, p), key + "|" + u, atol=1e-300)
        rec.check(any(("--> " + spec) in l for l in head), "printed", "header does not state %s" % spec, "header")
        c += n
    # trajectories: values against the atomic-unit files, header states units
    for t, u, f, cu, cf in trajs:
        for b in range(nb):
            suf = "_%d" % b if not t.endswith("centroid") else ""
            if t.endswith("centroid") and b:
                continue
            fa, fb = "sim.u_%s%s.xyz" % (t, suf), "sim.r_%s%s.xyz" % (t, suf)
            A, B = parse_xyz(fa), parse_xyz(fb)
            rec.check(len(A) == len(B) == 3, "printed", "frames in %s" % fa, "frames")
            for (ca, ha, xa), (cb, hb, xb) in zip(A, B):
                rec.check("%s{%s}" % (t, u) in ca and "cell{%s}" % cu in ca, "printed", "header of %s: %r" % (fa, ca), "theader")
                rec.close(xa, xb / f, 4e-5, "printed", "%s{%s}" % (t, u), t + "|" + u, atol=2e-5 * np.abs(xb).max() / f)
                rec.close(ha[:3], hb[:3] / cf, 1e-5, "printed", "cell in %s" % cu, "cell|" + cu, atol=2e-5)
                rec.close(ha[3:], hb[3:], 1e-6, "printed", "cell angles", "angles", atol=2e-5)
        # reading back gives internal units
        from ipi.utils.io import iter_file

        for b in range(nb):
            suf = "_%d" % b if not t.endswith("centroid") else ""
            if t.endswith("centroid") and b:
                continue
            a = list(iter_file("xyz", open("sim.u_%s%s.xyz" % (t, suf))))
            B = parse_xyz("sim.r_%s%s.xyz" % (t, suf))
            for fr, (cb, hb, xb) in zip(a, B):
                rec.close(sg.A(fr["atoms"].q), xb, 5e-5, "file", "%s{%s} read back" % (t, u), "rb|%s|%s" % (t, u), atol=3e-5 * np.abs(xb).max())


def parse_xyz(fn):
    """Independent reader: (comment, abcABC, values)."""
    out = []
    with open(fn) as fd:
        while True:
            l = fd.readline()
            if not l.strip():
                break
            n = int(l)
            c = fd.readline().rstrip("\n")
            m = re.search(r"abcABC[\)\]\}]:\s*([-+0-9.eE\s]*)", c)
            cell = np.array([float(z) for z in m.group(1).split()[:6]]) if m else None
            x = [[float(z) for z in fd.readline().split()[1:4]] for _ in range(n)]
            out.append((c, cell, np.array(x).ravel()))
    return out


def run_file(case, rec):
    """Structures and other initial values given in files or tags with units."""
    from ipi.utils.io import read_file

    rng = np.random.default_rng(case["cseed"])
    T = table()
    nat = int(rng.integers(1, 5))
    x = rng.uniform(-5, 5, 3 * nat)
    abc = np.concatenate([rng.uniform(8, 15, 3), rng.uniform(70, 110, 3)])
    q = str(rng.choice(["positions", "velocities", "momenta", "forces", "none"]))
    dim = dict(positions="length", velocities="velocity", momenta="momentum", forces="force", none="length")[q]
    u, f = ru(rng, T, dim, LEN_BAD + ("ase",))
    cu, cf = ru(rng, T, "length", LEN_BAD + ("ase",))
    kw = {}
    com = "# CELL(abcABC): " + " ".join("%.9e" % z for z in np.concatenate([abc[:3] / cf, abc[3:]]))
    if q == "none":
        kw = dict(dimension="length", units=u, cell_units=cu)
    else:
        com += " Step: 3 Bead: 0 %s{%s} cell{%s}" % (q, u, cu)
    with open("a.xyz", "w") as fd:
        fd.write("%d\n%s\n" % (nat, com))
        for i in range(nat):
            fd.write("H %.12e %.12e %.12e\n" % tuple(x[3 * i : 3 * i + 3] / f))
    r = read_file("xyz", open("a.xyz"), **kw)
    rec.close(sg.A(r["atoms"].q), x, 6e-6, "file", "%s{%s} from a file" % (q, u), q + "|" + u)
    h = sg.A(r["cell"].h)
    L = np.linalg.norm(h, axis=0)
    rec.close(L, abc[:3], 6e-6, "file", "cell{%s} from a file" % cu, "cell|" + cu)
    ang = lambda a, b: np.degrees(np.arccos(h[:, a] @ h[:, b] / L[a] / L[b]))
    rec.close([ang(1, 2), ang(0, 2), ang(0, 1)], abc[3:], 1e-6, "file", "cell angles from a file", "angles")
    if q != "none":
        # a mismatch between what the file says and what is requested is refused
        for kw in (dict(units="nanometer" if dim == "length" else "kiloatomic_unit"), dict(dimension="energy")):
            try:
                read_file("xyz", open("a.xyz"), **kw)
            except (ValueError, TypeError):
                rec.ok("file", "mismatch")
                continue
            rec.fail("file", "mismatched %s accepted for %s{%s}" % (kw, q, u))
    # through the initializer, with units in tags and in the file
    uu, ff_ = ru(rng, T, "length", LEN_BAD + ("ase",))
    vu, vf_ = ru(rng, T, "velocity", ("ase",))
    mu, mf = ru(rng, T, "mass", ("ase",))
    hu, hf = ru(rng, T, "length", LEN_BAD + ("ase",))
    pos = rng.uniform(0, 8, 3 * nat)
    vel = rng.standard_normal(3 * nat) * 1e-4
    m = rng.uniform(1e3, 3e4, nat)
    h = np.diag(rng.uniform(8, 12, 3)) + np.triu(rng.uniform(-1, 1, (3, 3)), 1)
    with open("b.xyz", "w") as fd:
        fd.write("%d\n# positions{%s}\n" % (nat, uu))
        for i in range(nat):
            fd.write("H %.12e %.12e %.12e\n" % tuple(pos[3 * i : 3 * i + 3] / ff_))
    init = "<initialize nbeads='1'><positions mode='xyz'>b.xyz</positions><labels mode='xyz'>b.xyz</labels>"
    init += sg.tag("masses", sg.arr(m / mf), mode="manual", units=mu)
    init += sg.tag("velocities", sg.arr(vel / vf_), mode="manual", units=vu)
    cm = str(rng.choice(["manual", "abc", "abcABC"]))
    if cm == "manual":
        init += sg.tag("cell", sg.arr(h / hf), mode="manual", units=hu)
    else:
        L = np.linalg.norm(h, axis=0)
        if cm == "abc":
            h = np.diag(L)
            init += sg.tag("cell", sg.arr(L / hf), mode="abc", units=hu)
        else:
            a = lambda i, j: np.degrees(np.arccos(h[:, i] @ h[:, j] / L[i] / L[j]))
            init += sg.tag("cell", sg.arr(np.concatenate([L / hf, [a(1, 2), a(0, 2), a(0, 1)]])), mode="abcABC", units=hu)
    init += "</initialize>"
    x = sg.tag("system", init + "<forces><force forcefield='ff'/></forces><ensemble><temperature units='kelvin'>300</temperature></ensemble>" + sg.dynamics("nve"))
    sim = sg.load(sg.simulation([x], sg.ffdirect(pars=dict(kt=0.01)), 1, outputs=""))
    s = sim.syslist[0]
    rec.close(sg.A(s.beads.q)[0], pos, 6e-6, "file", "positions initialised in %s" % uu, "init q")
    rec.close(sg.A(s.beads.p)[0], vel * np.repeat(m, 3), 1e-5, "file", "velocities initialised in %s" % vu, "init v")
    rec.close(sg.A(s.beads.m), m, 6e-6, "file", "masses initialised in %s" % mu, "init m")
    rec.close(sg.A(s.cell.h), h, 1e-5, "file", "cell (%s) initialised in %s" % (cm, hu), "init h " + cm, atol=1e-5)
    rec.close(float(s.ensemble.temp), 300 * T["temperature"]["kelvin"], 5e-6, "file", "temperature in kelvin", "T")
    sg.shutdown(sim)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
