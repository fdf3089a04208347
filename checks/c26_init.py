"""C26: initial conditions built by <initialize> against an independent model of what was asked."""
import numpy as np

from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: random sequences of initialisation requests (files of every format, explicit values, checkpoints, thermal) are run by the real initializer and the state that results is compared with a reference model, and with the exact distributions for thermal momenta"
NOTE = "Closed paths for resampling; momenta given for another number of beads only need be proportional (i-PI rescales them to keep the kinetic temperature); distribution tests use 6-sigma bounds on fixed seeds."
RULE = "each evaluation compares one initialised quantity with the model after a random request sequence, one statistic of thermal momenta, or one rejection; distinct counts request signatures"
ASSUMPTIONS = ["statistical tests: 6 sigma on seeded streams"]
REQUIRE = {"positions": 60, "momenta": 60, "masses": 60, "labels": 60, "cell": 60, "thermal": 30, "reject": 20, "thermostat": 4}

ANG = 1.8897261246
SYMS = ["H", "D", "O", "C", "He", "Na", "Cl"]


def cases(tier, seed):
    n = {"quick": (90, 14, 3), "thorough": (1500, 120, 20)}[tier]
    out = [dict(name="seq_%d" % i, kind="seq", cseed=sub_seed(seed, "s", i)) for i in range(n[0])]
    out += [dict(name="thermal_%d" % i, kind="thermal", i=i, cseed=sub_seed(seed, "t", i)) for i in range(n[1])]
    out += [dict(name="reject_%d" % i, kind="reject", cseed=sub_seed(seed, "r", i)) for i in range(n[2])]
    out += [dict(name="gle_%d" % i, kind="gle", cseed=sub_seed(seed, "g", i)) for i in range(2 * n[2])]
    return out


def run_gle(case, rec):
    """The additional momenta of a GLE thermostat taken over from a checkpoint, or given."""
    from vf import confgen as cg

    rng = np.random.default_rng(case["cseed"])
    s = cg.rand_spec(rng, modes=["nvt"], thermos=["gle", "nm_gle"], allow=("contraction",))
    sim = sg.load(cg.xml(s, int(rng.integers(1, 4)), sg.tag("checkpoint", filename="chk", stride=1, overwrite="True")).replace("<simulation", "<simulation floatformat='%24.16e'", 1))
    sim.run()
    old = sg.A(sim.syslist[0].motion.thermostat.s)
    cg.end(sim)
    manual = rng.random() < 0.5
    want = rng.standard_normal(old.shape) if manual else old
    init = sg.tag("gle", sg.arr(want) if manual else "sim.chk", mode="manual" if manual else "chk")
    x = cg.xml(s, 5)
    assert x.count("<beads") == 1
    x = x.replace("<beads", sg.tag("initialize", init, nbeads=str(s["nbeads"])) + "<beads", 1)
    key = ("gle", manual, s["thermo"]["kind"])
    try:
        new = sg.load(x)
    except BaseException as e:
        rec.fail("thermostat", "thermostat variables (%s) are refused: %r" % ("given" if manual else "from a checkpoint", e), key)
        return
    rec.close(sg.A(new.syslist[0].motion.thermostat.s), want, 1e-12, "thermostat", "thermostat variables (%s)" % ("given" if manual else "from a checkpoint"), key)
    cg.end(new)


def smooth_path(rng, nsrc, n3, kmax, scale=1.0):
    """Band-limited closed path as a function returning its beads for any bead number."""
    c = rng.uniform(0, 6, n3)
    a = rng.standard_normal((kmax, 2, n3)) * scale

    def at(n):
        t = np.arange(n)[:, None] / n
        q = np.tile(c, (n, 1))
        for k in range(kmax):
            q = q + a[k, 0] * np.cos(2 * np.pi * (k + 1) * t) + a[k, 1] * np.sin(2 * np.pi * (k + 1) * t)
        return q

    return at


def abc_of(h):
    L = np.linalg.norm(h, axis=0)
    a = lambda i, j: np.degrees(np.arccos(h[:, i] @ h[:, j] / L[i] / L[j]))
    return np.concatenate([L, [a(1, 2), a(0, 2), a(0, 1)]])


def h_of(abc):
    a, b, c = abc[:3]
    A, B, C = np.radians(abc[3:])
    h = np.zeros((3, 3))
    h[0, 0] = a
    h[:2, 1] = b * np.cos(C), b * np.sin(C)
    h[0, 2] = c * np.cos(B)
    h[1, 2] = (b * c * np.cos(A) - h[0, 1] * h[0, 2]) / h[1, 1]
    h[2, 2] = np.sqrt(c**2 - h[0, 2] ** 2 - h[1, 2] ** 2)
    return h


def rand_h(rng, tric=None):
    h = np.diag(rng.uniform(8, 14, 3))
    if tric is None:
        tric = rng.random() < 0.5
    if tric:
        h += np.triu(rng.uniform(-2, 2, (3, 3)), 1)
    return h


def write_xyz(fn, frames, names, what=None, unit="atomic_unit", f=1.0, h=None, cunit="atomic_unit", cf=1.0):
    with open(fn, "w") as fd:
        for q in frames:
            com = "#"
            if h is not None:
                abc = abc_of(h)
                com += " CELL(abcABC): " + " ".join("%.11e" % x for x in np.concatenate([abc[:3] / cf, abc[3:]]))
            if what:
                com += " %s{%s}" % (what, unit)
                if h is not None:
                    com += " cell{%s}" % cunit
            fd.write("%d\n%s\n" % (len(names), com))
            for i, s in enumerate(names):
                fd.write("%4s  %.14e %.14e %.14e\n" % ((s,) + tuple(q[3 * i : 3 * i + 3] / f)))


def write_pdb(fn, frames, names, h):
    abc = abc_of(h)
    with open(fn, "w") as fd:
        for q in frames:
            fd.write("TITLE   \n")
            fd.write("CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n" % (tuple(abc[:3] / ANG) + tuple(abc[3:]) + (" P 1        ", 1)))
            for i, s in enumerate(names):
                fd.write("ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n" % (i + 1, s, " ", "  1", " ", 1, " ", q[3 * i] / ANG, q[3 * i + 1] / ANG, q[3 * i + 2] / ANG, 0.0, 0.0, "  ", 0))
            fd.write("END\n")


def elem(sym):
    from ipi.utils.units import Elements

    return Elements.mass(sym)


class Model:
    """What the requests ask for."""

    def __init__(self, P):
        self.P = P
        self.q = self.p = self.m = self.names = self.h = None
        self.mtol = 1e-12
        self.qtol = 1e-11
        self.htol = 1e-9
        self.p_cmp = True
        self.text = ""
        self.sig = []

    def size(self, n):
        if self.q is None:
            self.q = np.zeros((self.P, 3 * n))
            self.p = np.zeros((self.P, 3 * n))
            self.m = np.zeros(n)
            self.names = np.array([""] * n, dtype=object)

    def setmass(self, m, sl=slice(None)):
        old = self.m.copy()
        self.m[sl] = m
        if np.all(old > 0):
            self.p = self.p * np.sqrt(np.repeat(self.m / old, 3))


def rand_unit(rng, dim):
    from ipi.utils.units import unit_to_internal

    u = str(rng.choice({"length": ["atomic_unit", "angstrom", "nanometer"], "momentum": ["atomic_unit"], "velocity": ["atomic_unit", "m/s"], "mass": ["atomic_unit", "dalton"]}[dim]))
    return u, unit_to_internal(dim, u, 1.0)


def run_seq(case, rec):
    rng = np.random.default_rng(case["cseed"])
    P = int(rng.choice([1, 2, 3, 4, 5, 8]))
    n = int(rng.integers(1, 6))
    M = Model(P)
    names0 = [str(s) for s in rng.choice(SYMS, n)]
    op_file(rng, M, n, names0, 0)
    for j in range(int(rng.integers(0, 6))):
        f = [op_positions, op_masses, op_labels, op_momenta, op_velocities, op_cell, op_chk][int(rng.integers(7))]
        f(rng, M, n, j + 1)
    init = "<initialize nbeads='%d'>%s</initialize>" % (P, M.text)
    x = sg.tag("system", init + "<forces><force forcefield='ff'/></forces><ensemble><temperature units='kelvin'>300</temperature></ensemble>" + sg.dynamics("nve"))
    sim = sg.load(sg.simulation([x], sg.ffdirect(pars=dict(kt=0.01)), 1, outputs=""))
    s = sim.syslist[0]
    sig = "%d|%s" % (P, ",".join(M.sig))
    rec.sample(sig)
    d = " after " + sig
    rec.check(int(s.beads.nbeads) == P and int(s.beads.natoms) == n, "positions", "size %d %d" % (s.beads.nbeads, s.beads.natoms), sig)
    rec.close(sg.A(s.beads.q), M.q, M.qtol, "positions", "positions" + d, sig)
    if M.p_cmp:
        rec.close(sg.A(s.beads.p), M.p, 1e-9, "momenta", "momenta" + d, sig)
    rec.close(sg.A(s.beads.m), M.m, M.mtol, "masses", "masses" + d, sig)
    rec.check([str(a) for a in s.beads.names] == list(M.names), "labels", "labels %s expected %s%s" % ([str(a) for a in s.beads.names], list(M.names), d), sig)
    rec.close(sg.A(s.cell.h), M.h, M.htol, "cell", "cell" + d, sig, atol=M.htol * 10)
    sg.shutdown(sim)


def op_file(rng, M, n, names, j):
    """<file> brings positions, masses, labels and cell."""
    mode = str(rng.choice(["xyz", "pdb", "ase", "chk"]))
    P = M.P
    src = int(rng.choice([1, P, 2, 6]))
    if mode == "ase":
        src = 1
    kmax = 0 if src < 3 or P < 3 else 1
    path = smooth_path(rng, src, 3 * n, kmax)
    q = path(src)
    h = rand_h(rng)
    if src == 2 and P != 2:
        q = np.tile(q[0], (2, 1))
    M.size(n)
    fn = "f%d.%s" % (j, mode)
    ntext = ""
    if mode == "xyz":
        u, f = rand_unit(rng, "length")
        cu, cf = rand_unit(rng, "length")
        if rng.random() < 0.5:  # units in the file
            write_xyz(fn, q, names, "positions", u, f, h, cu, cf)
            M.text += sg.tag("file", fn, mode="xyz")
        else:
            write_xyz(fn, q, names, None, u, f, h, cu, cf)
            M.text += sg.tag("file", fn, mode="xyz", units=u, cell_units=cu)
    elif mode == "pdb":
        abc = np.concatenate([np.round(rng.uniform(5, 9, 3), 3) * ANG, np.round(rng.uniform(80, 100, 3), 2)])
        h = h_of(abc)
        q = np.round(q / ANG, 3) * ANG
        write_pdb(fn, q, names, h)
        M.text += sg.tag("file", fn, mode="pdb")
    elif mode == "ase":
        from ase import Atoms

        from ase.io import write

        syms = ["H" if s == "D" else s for s in names]
        names = syms
        fn = "f%d.extxyz" % j
        at = Atoms(syms, positions=(q[0] / ANG).reshape(-1, 3), cell=h.T / ANG, pbc=True)
        write(fn, at, format="extxyz")
        M.text += sg.tag("file", fn, mode="ase")
    else:
        return op_chk(rng, M, n, j, whole=True, names=names)
    full = path(P)
    if mode == "pdb":
        M.q[:] = full if kmax else q[0]
        M.qtol = 1.5e-3 * ANG / 3 if kmax else 6e-6
        if src == P:
            M.q[:] = q
            M.qtol = 6e-6
    else:
        M.q[:] = full if kmax or src == P else q[0]
        M.qtol = 2e-8 if mode == "ase" else 1e-11
        if mode == "xyz" and u != "atomic_unit":
            M.qtol = 1e-9
    if mode == "ase":
        M.qtol = 1e-6
    M.setmass(np.array(at.get_masses() * 1822.8885 if mode == "ase" else [elem(s) for s in names]))
    M.names[:] = names
    M.h = np.triu(h)
    M.htol = {"xyz": 1e-9, "pdb": 6e-6, "ase": 1e-6}[mode]
    M.sig.append("file:%s:%d" % (mode, src))


def op_chk(rng, M, n, j, whole=False, names=None):
    P = M.P
    src = int(rng.choice([1, P, 2, 6]))
    kmax = 0 if src < 3 or P < 3 else 1
    path = smooth_path(rng, src, 3 * n, kmax)
    q = path(src)
    if src == 2 and P != 2:
        q = np.tile(q[0], (2, 1))
    m = rng.uniform(1e3, 4e4, n)
    p = rng.standard_normal((src, 3 * n))
    names = names or [str(s) for s in rng.choice(SYMS, n)]
    h = rand_h(rng)
    g = dict(q=q, p=p, m=m, names=names, h=h)
    fn = "chk%d" % j
    x = sg.system(g, sg.dynamics("nve"), ensemble="<temperature units='kelvin'>300</temperature>")
    with open(fn, "w") as fd:
        fd.write(sg.simulation([x], sg.ffdirect(pars=dict(kt=0.01)), 1, outputs=""))
    parts = ["positions", "masses", "labels", "cell", "momenta"]
    if whole or rng.random() < 0.4:
        M.text += sg.tag("file", fn, mode="chk")
    else:
        parts = [str(rng.choice(parts + ["velocities"]))]
        M.text += sg.tag(parts[0], fn, mode="chk")
    M.size(n)
    for k in parts:
        if k == "positions":
            M.q[:] = path(P) if kmax or src == P else q[0]
            M.qtol = 1e-11
        elif k == "masses":
            M.setmass(m)
        elif k == "labels":
            M.names[:] = names
        elif k == "cell":
            M.h = h
            M.htol = 1e-12
        elif k == "momenta":
            M.p[:] = p if src == P else 0
            M.p_cmp = src == P
        elif k == "velocities":
            M.p[:] = p / np.repeat(m, 3) * np.repeat(M.m, 3) if src == P else 0
            M.p_cmp = src == P
    M.sig.append("chk:%s:%d" % ("+".join(x[0] for x in parts), src))


def vec(rng, M, n, what, dim, j, target):
    """A positions/momenta/velocities request; assigns what it should give."""
    P = M.P
    u, f = rand_unit(rng, dim)
    mode = str(rng.choice(["manual", "xyz"]))
    bead = int(rng.integers(P)) if rng.random() < 0.35 else -1
    index = int(rng.integers(n)) if rng.random() < 0.35 else -1
    nb = 1 if bead >= 0 else P
    if mode == "xyz" and what == "positions" and rng.random() < 0.5:
        nb = 1
    na = 1 if index >= 0 else n
    v = rng.uniform(-4, 4, (nb, 3 * na))
    at = dict(mode=mode)
    if bead >= 0:
        at["bead"] = bead
    if index >= 0:
        at["index"] = index
    if mode == "manual":
        at["units"] = u
        M.text += sg.tag(what, sg.arr(v / f), **at)
    else:
        fn = "%s%d.xyz" % (what, j)
        write_xyz(fn, v, ["H"] * na, what, u, f)
        M.text += sg.tag(what, fn, **at)
    sb = slice(None) if bead < 0 else slice(bead, bead + 1)
    sa = slice(None) if index < 0 else slice(3 * index, 3 * index + 3)
    target[sb, sa] = v
    M.sig.append("%s:%s:%d:%s%s" % (what, mode, nb, "b" if bead >= 0 else "", "i" if index >= 0 else ""))
    return sb, sa


def op_positions(rng, M, n, j):
    vec(rng, M, n, "positions", "length", j, M.q)
    M.qtol = max(M.qtol, 1e-11)


def op_momenta(rng, M, n, j):
    vec(rng, M, n, "momenta", "momentum", j, M.p)


def op_velocities(rng, M, n, j):
    sb, sa = vec(rng, M, n, "velocities", "velocity", j, M.p)
    M.p[sb, sa] *= np.repeat(M.m, 3)[sa]


def op_masses(rng, M, n, j):
    u, f = rand_unit(rng, "mass")
    index = int(rng.integers(n)) if rng.random() < 0.4 else -1
    m = rng.uniform(1e3, 3e4, 1 if index >= 0 else n)
    at = dict(mode="manual", units=u)
    if index >= 0:
        at["index"] = index
    if rng.random() < 0.25 and index < 0:
        names = [str(s) for s in rng.choice(SYMS, n)]
        write_xyz("m%d.xyz" % j, np.zeros((1, 3 * n)), names)
        M.text += sg.tag("masses", "m%d.xyz" % j, mode="xyz")
        m = np.array([elem(s) for s in names])
    else:
        M.text += sg.tag("masses", sg.arr(m / f), **at)
    M.setmass(m, slice(None) if index < 0 else slice(index, index + 1))
    M.sig.append("masses:%s" % ("i" if index >= 0 else ""))


def op_labels(rng, M, n, j):
    names = [str(s) for s in rng.choice(SYMS + ["Xx", "LONG"], n)]
    names = [s[:4] for s in names]
    if rng.random() < 0.5:
        M.text += sg.tag("labels", "[ " + ", ".join(names) + " ]", mode="manual")
        M.names[:] = names
    else:
        index = int(rng.integers(n))
        M.text += sg.tag("labels", "[ %s ]" % names[0], mode="manual", index=index)
        M.names[index] = names[0]
    M.sig.append("labels")


def op_cell(rng, M, n, j):
    u, f = rand_unit(rng, "length")
    mode = str(rng.choice(["manual", "abc", "abcABC"]))
    h = rand_h(rng, False if mode == "abc" else None)
    v = {"manual": lambda: h.ravel() / f, "abc": lambda: np.diag(h) / f, "abcABC": lambda: np.concatenate([abc_of(h)[:3] / f, abc_of(h)[3:]])}[mode]()
    M.text += sg.tag("cell", sg.arr(v), mode=mode, units=u)
    M.h = h
    M.htol = 1e-9
    M.sig.append("cell:" + mode)


def run_thermal(case, rec):
    rng = np.random.default_rng(case["cseed"])
    P = int(rng.choice([1, 2, 3, 4, 5, 6]))
    n = 150
    nmmode = str(rng.choice(["rpmd", "pa-cmd", "wmax-cmd", "manual"])) if P > 1 else "rpmd"
    m = rng.choice([1837.0, 3674.0, 12000.0], n)
    T0 = float(rng.uniform(100, 600)) * sg.KELVIN
    treq = float(rng.choice([0.0, -1.0, rng.uniform(50, 2000)]))
    T = T0 if treq <= 0 else treq * sg.KELVIN
    g = sg.geometry(rng, n, P, box=40, masses=m)
    openp = list(range(0, n, 2)) if P > 1 and rng.random() < 0.4 else []
    what = str(rng.choice(["velocities", "momenta"]))
    index = int(rng.integers(n)) if case["i"] % 7 == 6 else -1
    k = np.arange(P)
    om = {False: 2 * P * T0 * np.sin(k * np.pi / P), True: 2 * P * T0 * np.sin(k * np.pi / (2 * P))}
    nmx, fac = "", {o: np.ones(P) for o in om}
    w = float(rng.uniform(0.5, 3) * P * T0)
    if nmmode == "pa-cmd":
        nmx = sg.tag("frequencies", "[ %.17e ]" % w, style="pa-cmd")
        for o in om:
            fac[o][1:] = (om[o][1:] / w) ** 2
    elif nmmode == "wmax-cmd":
        w2 = w * 1.7
        nmx = sg.tag("frequencies", "[ %.17e, %.17e ]" % (w, w2), style="wmax-cmd")
        fac = None
    elif nmmode == "manual":
        ws = rng.uniform(0.5, 2, P - 1) * P * T0
        nmx = sg.tag("frequencies", sg.arr(ws), style="manual")
        for o in om:
            fac[o][1:] = (om[o][1:] / ws) ** 2
    nm = sg.tag("normal_modes", nmx + (sg.tag("open_paths", "[ " + ", ".join(map(str, openp)) + " ]") if openp else ""))
    thermal = sg.tag(what, "%.12f" % treq, mode="thermal", units="kelvin", **(dict(index=index) if index >= 0 else {}))
    init = "<initialize nbeads='%d'>" % P + thermal + "</initialize>"
    x = sg.system(g, sg.dynamics("nve"), ensemble="<temperature>%.17e</temperature>" % T0, nm=nm, init=init)
    sim = sg.load(sg.simulation([x], sg.ffdirect(pars=dict(kt=0.01)), 1, outputs="", seed=int(rng.integers(1, 10**6))))
    s = sim.syslist[0]
    p = sg.A(s.beads.p)
    pn = sg.A(s.nm.pnm)
    key = "%d|%s|%s|%s|%d" % (P, nmmode, what, bool(openp), index >= 0)
    if index >= 0:
        sl = slice(3 * index, 3 * index + 3)
        other = np.delete(np.arange(3 * n), np.arange(sl.start, sl.stop))
        rec.check(np.array_equal(p[:, other], g["p"][:, other]), "thermal", "momenta of other atoms changed by thermal initialisation of one atom", key)
        rec.check(bool(np.all(p[:, sl] != 0)), "thermal", "atom %d was not thermalised" % index, key)
        x2 = np.sum(pn[:, sl] ** 2 / np.repeat(m, 3)[sl] / (P * T), axis=1) / 3
        rec.check(bool(np.all(x2 < 30)) if nmmode == "rpmd" else True, "thermal", "single atom kinetic energy %s" % x2, key)
    else:
        if fac is None:
            dm = sg.A(s.nm.dynm3)
        else:
            f = np.array([fac[i in openp] for i in range(n)])  # natoms x P
            dm = np.repeat(f * m[:, None], 3, axis=0).T
        z = pn / np.sqrt(dm * P * T)
        grp = {"all": np.arange(3 * n)}
        if openp:
            o3 = np.array([3 * i + c for i in openp for c in range(3)])
            grp = {"open": o3, "closed": np.setdiff1d(np.arange(3 * n), o3)}
        for gname, idx in grp.items():
            for kk in range(P):
                N = len(idx)
                zz = z[kk, idx]
                rec.check(abs(np.mean(zz**2) - 1) < 6 * np.sqrt(2 / N), "thermal", "mode %d (%s): <p^2>/(m P T) = %.3f, expected 1 +- %.3f (%s)" % (kk, gname, np.mean(zz**2), np.sqrt(2 / N), key), key)
                rec.check(abs(np.mean(zz)) < 6 / np.sqrt(N), "thermal", "mode %d: mean %.3f" % (kk, np.mean(zz)), key)
                rec.check(np.max(np.abs(zz)) < 7 and len(np.unique(zz)) == N, "thermal", "mode %d: repeated or wild deviates" % kk, key)
        if P > 1:
            c = z @ z.T / (3 * n) - np.diag(np.mean(z**2, axis=1))
            rec.check(np.max(np.abs(c)) < 7 / np.sqrt(3 * n), "thermal", "modes are correlated: %.3f" % np.max(np.abs(c)), key)
    rec.close(sg.A(s.beads.q), g["q"], 1e-13, "thermal", "positions changed by thermal initialisation", key)
    sg.shutdown(sim)


def run_reject(case, rec):
    rng = np.random.default_rng(case["cseed"])
    P, n = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    names = [str(s) for s in rng.choice(SYMS, n)]
    h = rand_h(rng)
    write_xyz("ok.xyz", rng.uniform(0, 5, (1, 3 * n)), names, "positions", "atomic_unit", 1.0, h)
    write_xyz("big.xyz", rng.uniform(0, 5, (1, 3 * n + 3)), names + ["H"], "positions", "atomic_unit", 1.0, h)
    write_xyz("nocell.xyz", rng.uniform(0, 5, (1, 3 * n)), names)
    write_xyz("unk.xyz", rng.uniform(0, 5, (1, 3 * n)), ["Qq"] * n, "positions", "atomic_unit", 1.0, h)
    ok = "<file mode='xyz'>ok.xyz</file>"
    good = [ok, ok + sg.tag("velocities", "300", mode="thermal", units="kelvin")]
    z = lambda k: sg.arr(np.ones(k))
    bad = {
        "file with another number of atoms": ok + "<positions mode='xyz'>big.xyz</positions>",
        "momenta with another number of atoms": ok + sg.tag("momenta", z(3 * (n + 1) * P), mode="manual"),
        "atom index too large": ok + sg.tag("positions", z(3 * P), mode="manual", index=n),
        "bead index too large": ok + sg.tag("positions", z(3 * n), mode="manual", bead=P),
        "masses before positions": sg.tag("masses", z(n), mode="manual") + ok,
        "labels before positions": sg.tag("labels", "[ " + ",".join(names) + " ]", mode="manual") + ok,
        "velocities before masses": sg.tag("velocities", z(3 * n * P), mode="manual") + ok,
        "velocities before masses but after positions": "<positions mode='xyz'>ok.xyz</positions>" + sg.tag("velocities", z(3 * n * P), mode="manual") + ok,
        "thermal before masses": sg.tag("velocities", "300", mode="thermal", units="kelvin") + ok,
        "no cell": "<file mode='xyz'>nocell.xyz</file>",
        "no positions": sg.tag("cell", sg.arr(h), mode="manual"),
        "cell of 8 numbers": ok + sg.tag("cell", z(8), mode="manual"),
        "abc of 2 numbers": ok + sg.tag("cell", z(2), mode="abc"),
        "abcABC of 3 numbers": ok + sg.tag("cell", z(3), mode="abcABC"),
        "zero volume": ok + sg.tag("cell", sg.arr(np.diag([5.0, 0, 5])), mode="manual"),
        "zero mass": ok + sg.tag("masses", sg.arr(np.zeros(n)), mode="manual"),
        "mass of a single bead": ok + sg.tag("masses", z(n), mode="manual", bead=1),
        "label of a single bead": ok + sg.tag("labels", "[ " + ",".join(names) + " ]", mode="manual", bead=1),
        "thermal single bead": ok + sg.tag("velocities", "300", mode="thermal", units="kelvin", bead=1),
        "missing file": "<file mode='xyz'>nofile.xyz</file>",
        "unknown mode": "<file mode='abc'>ok.xyz</file>",
        "unknown unit": ok + sg.tag("masses", z(n), mode="manual", units="angstrom"),
        "units for a checkpoint": ok + "<positions mode='chk' units='angstrom'>ok.xyz</positions>",
        "no labels": "<positions mode='xyz'>ok.xyz</positions><masses mode='xyz'>ok.xyz</masses>" + sg.tag("cell", sg.arr(h), mode="manual"),
        "unknown element without masses": "<file mode='xyz'>unk.xyz</file>",
    }

    def build(init):
        x = sg.tag("system", "<initialize nbeads='%d'>%s</initialize>" % (P, init) + "<forces><force forcefield='ff'/></forces><ensemble><temperature units='kelvin'>300</temperature></ensemble>" + sg.dynamics("nve"))
        sim = sg.load(sg.simulation([x], sg.ffdirect(pars=dict(kt=0.01)), 1, outputs=""))
        sg.shutdown(sim)

    for g in good:
        build(g)
        rec.ok("reject", "control")
    for k, t in bad.items():
        try:
            build(t)
        except Exception as e:
            rec.ok("reject", k)
            rec.sample("%s -> %s" % (k, type(e).__name__))
            continue
        rec.fail("reject", "accepted: %s" % k)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
