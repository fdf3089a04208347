"""C13: write/read round trips of every trajectory format."""
import io as _io
import os

import numpy as np

from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C13"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: random multi-frame trajectories are written by the real writers and read back by the real readers (and the other way round for the cell conventions only the readers know); an offline checker compares frame by frame, and every truncation of a file must end in an error or at a complete frame"
NOTE = "xyz, pdb, json, ase and binary through print_file/read_file/iter_file, all trajectory quantities and random units; pdb and ase carry positions only; a cut inside the last number of a text line cannot be told from a short number, so text files are cut at line ends."
RULE = "each evaluation compares one property of one frame read back, or one truncated file; distinct counts (format, quantity, unit, frames) signatures"
ASSUMPTIONS = ["xyz, pdb and ase precision as printed"]
REQUIRE = {"values": 200, "cell": 200, "names": 200, "count": 60, "truncated": 100, "convention": 30}

SYMS = ["H", "D", "O", "C", "He", "Na", "Cl", "Xx", "LONG"]


def cases(tier, seed):
    n = {"quick": (60, 10, 24), "thorough": (1500, 100, 200)}[tier]
    out = [dict(name="rt_%d" % i, kind="rt", i=i, cseed=sub_seed(seed, "r", i)) for i in range(n[0])]
    out += [dict(name="conv_%d" % i, kind="conv", cseed=sub_seed(seed, "c", i)) for i in range(n[1])]
    out += [dict(name="path_%d" % i, kind="path", cseed=sub_seed(seed, "p", i)) for i in range(n[1])]
    out += [dict(name="sim_%d" % i, kind="sim", i=i, cseed=sub_seed(seed, "s", i)) for i in range(n[2])]
    return out


def quantities():
    from ipi.engine.properties import Trajectories

    d = Trajectories().traj_dict
    return {k: v.get("dimension", "undefined") for k, v in d.items() if not k.startswith("extras") and k not in ("becs",)}


def lengths_angles(h):
    L = np.linalg.norm(h, axis=0)
    a = lambda i, j: np.degrees(np.arccos(np.clip(h[:, i] @ h[:, j] / L[i] / L[j], -1, 1)))
    return np.concatenate([L, [a(1, 2), a(0, 2), a(0, 1)]])


def unit_choices():
    from checks.c12_units import table

    T = table()
    return {k: [u for u in v if u not in ("", "automatic", "ase", "radian", "degree")] for k, v in T.items()}


def frames(rng, nf, nat, box, scale):
    out = []
    names = [str(s) for s in rng.choice(SYMS, nat)]
    for _ in range(nf):
        h = np.diag(rng.uniform(0.7, 1.5, 3) * box)
        if rng.random() < 0.6:
            h += np.triu(rng.uniform(-0.35, 0.35, (3, 3)) * box, 1)
        out.append(dict(q=rng.uniform(-scale, scale, 3 * nat), names=names, h=h))
    return out


def mk(fr):
    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell

    a = Atoms(len(fr["names"]))
    a.q[:] = fr["q"]
    a.names[:] = fr["names"]
    return a, Cell(fr["h"].copy())


def write(mode, fn, frs, key, dim, unit, cunit):
    from ipi.utils.io import print_file

    with open(fn, "wb" if mode in ("bin", "binary") else "w") as fd:
        for i, fr in enumerate(frs):
            a, c = mk(fr)
            print_file(mode, a, c, fd, title="Step:  %10d  Bead:   %5d " % (i * 7, 0), key=key, dimension=dim, units=unit, cell_units=cunit)


def opn(mode, fn):
    return open(fn, "rb" if mode in ("bin", "binary") else "r")


def run_rt(case, rec):
    from ipi.utils.io import iter_file, read_file

    rng = np.random.default_rng(case["cseed"])
    mode = ["xyz", "pdb", "json", "ase", "bin", "xyz"][case["i"] % 6]
    Q = quantities()
    U = unit_choices()
    key = str(rng.choice(list(Q)))
    dim = Q[key]
    unit = cunit = "automatic"
    if mode == "pdb":
        key = str(rng.choice([k for k in Q if Q[k] == "length"]))
        dim = "length"
    if mode == "ase":
        key, dim = "positions", "length"
    if mode != "ase" and rng.random() < 0.8:
        unit = str(rng.choice(["atomic_unit", "angstrom", "nanometer"] if mode == "pdb" else (U.get(dim) or ["atomic_unit"])))
        cunit = str(rng.choice(["atomic_unit", "angstrom", "nanometer"]))
        if mode != "pdb" and unit not in ("atomic_unit",) and rng.random() < 0.3:
            unit = str(rng.choice(["milli", "micro", "kilo", "pico"])) + unit
    from ipi.utils.units import unit_to_internal

    f = unit_to_internal(dim, "angstrom" if mode == "pdb" and unit == "automatic" else ("ase" if mode == "ase" else unit), 1.0)
    cf = unit_to_internal("length", "angstrom" if mode == "pdb" and cunit == "automatic" else ("ase" if mode == "ase" else cunit), 1.0)
    nat = int(rng.integers(1, 7))
    nf = int(rng.integers(1, 6))
    if mode == "pdb":
        # fixed columns: 8.3f coordinates and 9.3f cell in the units of the file
        big = rng.random() < 0.4
        frs = frames(rng, nf, nat, 10 * cf * rng.uniform(0.5, 5), (900 if big else 90) * f)
    else:
        frs = frames(rng, nf, nat, float(10.0 ** rng.uniform(0.5, 2) * cf) if mode != "ase" else 15.0, float(10.0 ** rng.uniform(-6, 4) * f))
    if mode == "ase":
        for fr in frs:
            fr["names"] = [{"D": "H", "Xx": "Ar", "LONG": "Ne"}.get(s, s) for s in fr["names"]]
    fn = "t.%s" % mode
    write(mode, fn, frs, key, dim, unit, cunit)
    sig = "%s|%s|%s|%s|%d" % (mode, key, unit, cunit, nf)
    rec.sample(sig)
    how = str(rng.choice(["iter", "read", "name"] if mode in ("xyz", "pdb", "json") else ["iter", "read"]))
    if how == "name":
        from ipi.utils.io import iter_file_name, read_file_name

    got = []
    with opn(mode, fn) as fd:
        if how == "iter":
            got = list(iter_file(mode, fd))
        elif how == "name":
            got = list(iter_file_name(fn))
            got[0] = read_file_name(fn)
        else:
            while True:
                try:
                    got.append(read_file(mode, fd))
                except EOFError:
                    break
    rec.check(len(got) == nf, "count", "%d frames written, %d read (%s, %s)" % (nf, len(got), sig, how), sig)
    for fr, g in zip(frs, got):
        compare(rec, mode, sig, fr, g, f, cf)
        if mode not in ("ase",):
            rec.check("Step:" in g["comment"] and key + "{" in g["comment"], "names", "comment lost: %r" % g["comment"], sig)
    # damage
    raw = open(fn, "rb").read()
    if mode in ("xyz", "json"):
        cuts = [i + 1 for i, ch in enumerate(raw) if ch == 10][:-1]
        if mode == "json":
            cuts += [int(x) for x in rng.integers(1, len(raw) - 2, 6)]
    elif mode == "bin":
        cuts = [int(x) for x in rng.integers(1, len(raw), 12)]
    else:
        cuts = []
    for cut in [int(c) for c in rng.permutation(cuts)[:12]]:
        with open("cut", "wb") as fd:
            fd.write(raw[:cut])
        got = []
        end = "eof"
        with opn(mode, "cut") as fd:
            try:
                for g in iter_file(mode, fd):
                    got.append(g)
            except Exception as e:
                end = type(e).__name__
        whole = sum(1 for k in range(1, nf + 1) if frame_end(mode, raw, k, nat, nf) <= cut)
        rec.check(len(got) <= whole, "truncated", "file cut at byte %d of %d holds %d complete frames but %d were read (%s)" % (cut, len(raw), whole, len(got), sig), "%s|%s" % (mode, end))
        rec.check(len(got) >= whole, "truncated", "only %d of the %d complete frames were read (%s)" % (len(got), whole, sig), "%s|n" % mode)
        for fr, g in zip(frs, got):
            compare(rec, mode, sig, fr, g, f, cf)


def frame_end(mode, raw, k, nat, nf):
    nbytes = len(raw)  # frames of a binary file all have the same length
    if mode == "bin":
        return k * nbytes // nf
    per = 1 if mode == "json" else nat + 2
    pos = -1
    for _ in range(k * per):
        pos = raw.index(b"\n", pos + 1)
    if mode == "json":
        return pos - 1
    return pos + 1


def compare(rec, mode, sig, fr, g, f, cf):
    q = sg.A(g["atoms"].q)
    h = sg.A(g["cell"].h)
    x = fr["q"]
    if mode == "xyz":
        rec.check(q.shape == x.shape and bool(np.all(np.abs(q - x) <= 6e-6 * np.abs(x) + 1e-300)), "values", "values %s expected %s (%s)" % (q[:4], x[:4], sig), sig)
    elif mode == "pdb":
        rec.check(q.shape == x.shape and bool(np.all(np.abs(q - x) <= 5.1e-4 * f)), "values", "values %s expected %s (%s)" % (q[:4], x[:4], sig), sig)
    elif mode == "ase":
        rec.check(q.shape == x.shape and bool(np.all(np.abs(q - x) <= 1e-6 * max(1, np.max(np.abs(x))))), "values", "values %s expected %s (%s)" % (q[:4], x[:4], sig), sig)
    else:
        rec.close(q, x, 1e-14, "values", "values (%s)" % sig, sig)
    if mode in ("xyz", "pdb"):
        dl, da = (6e-6, 6e-6) if mode == "xyz" else (6e-4, 6e-3)
        la, lb = lengths_angles(h), lengths_angles(fr["h"])
        rec.check(bool(np.all(np.abs(la - lb)[:3] <= dl * cf) and np.all(np.abs(la - lb)[3:] <= da)), "cell", "cell %s expected %s (%s)" % (la, lb, sig), sig)
        rec.check(abs(h[1, 0]) + abs(h[2, 0]) + abs(h[2, 1]) < 1e-12, "cell", "cell not upper triangular (%s)" % sig, sig)
    else:
        rec.close(h, fr["h"], 1e-7 if mode == "ase" else 1e-12, "cell", "cell (%s)" % sig, sig, atol=1e-6 if mode == "ase" else 1e-12 * np.max(fr["h"]))
    rec.check([str(s) for s in g["atoms"].names] == list(fr["names"]), "names", "labels %s expected %s (%s)" % (list(g["atoms"].names), fr["names"], sig), sig)
    if mode in ("xyz", "pdb"):
        from ipi.utils.units import Elements

        rec.close(sg.A(g["atoms"].m), [Elements.mass(s) for s in fr["names"]], 1e-14, "names", "masses (%s)" % sig, sig)


def run_conv(case, rec):
    """Cell conventions understood by the xyz reader describe the same structure up to a rotation."""
    from ipi.utils.io import read_file

    rng = np.random.default_rng(case["cseed"])
    nat = int(rng.integers(2, 6))
    h = np.diag(rng.uniform(6, 12, 3)) + np.triu(rng.uniform(-2, 2, (3, 3)), 1)
    s = rng.uniform(-1, 1, (nat, 3))
    names = [str(x) for x in rng.choice(["H", "O", "C"], nat)]
    a = rng.standard_normal((3, 3))
    R, _ = np.linalg.qr(a)
    if np.linalg.det(R) < 0:
        R[:, 0] *= -1
    for conv in ("abcABC", "H", "GENH", "none"):
        for br in ("()", "[]", "{}"):
            if conv == "GENH":
                hh = (R @ h).T  # rows are lattice vectors
                q = s @ hh
            else:
                hh = h
                q = s @ h.T
            val = lengths_angles(h) if conv == "abcABC" else hh.ravel()
            fmt = {"()": "%.14f", "[]": "%.15e", "{}": "%.15E"}[br] if rng.random() < 0.7 else str(rng.choice(["%.14f", "%.15e", "%+.14f"]))
            com = "#" if conv == "none" else "# CELL%s%s%s: %s" % (br[0], conv, br[1], str(rng.choice([" ", "  "])).join(fmt % x for x in val))
            com += " positions{atomic_unit} cell{atomic_unit}" if rng.random() < 0.5 else "  some text"
            with open("c.xyz", "w") as fd:
                fd.write("%d\n%s\n" % (nat, com))
                for i in range(nat):
                    fd.write("%s %.14e %.14e %.14e" % ((names[i],) + tuple(q[i])) + str(rng.choice(["", " 1 2 3", "  "])) + "\n")
            g = read_file("xyz", open("c.xyz"))
            hr = sg.A(g["cell"].h)
            qr = sg.A(g["atoms"].q).reshape(-1, 3)
            k = conv + br + fmt[-1]
            if conv == "none":
                rec.close(hr, -np.eye(3), 1e-14, "convention", "no cell in the file", k)
                rec.close(qr, q, 1e-12, "convention", "positions without a cell", k)
            else:
                rec.close(hr, h, 1e-9, "convention", "cell from CELL(%s)" % conv, k, atol=1e-9)
                rec.close(np.linalg.solve(hr, qr.T).T, s, 1e-9, "convention", "scaled positions from CELL(%s)" % conv, k, atol=1e-9)


def run_path(case, rec):
    """Whole ring polymers written at once: one xyz frame per bead, one pdb frame with all of them."""
    from ipi.engine.beads import Beads
    from ipi.engine.cell import Cell
    from ipi.utils.io import iter_file, print_file_path
    from ipi.utils.units import unit_to_internal

    rng = np.random.default_rng(case["cseed"])
    nat, nb = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    fr = frames(rng, 1, nat, 12.0, 20.0)[0]
    b = Beads(nat, nb)
    b.q[:] = rng.uniform(-20, 20, (nb, 3 * nat))
    b.names[:] = fr["names"]
    for mode, unit in (("xyz", "atomic_unit"), ("xyz", "angstrom"), ("pdb", "automatic")):
        with open("p." + mode, "w") as fd:
            print_file_path(mode, b, Cell(fr["h"].copy()), fd, units=unit, cell_units=unit)
        u = "angstrom" if mode == "pdb" else unit
        f = unit_to_internal("length", u, 1.0)
        sig = "path/%s/%s" % (mode, unit)
        if mode == "pdb":  # springs follow as CONECT records
            x = [l for l in open("p.pdb") if l.startswith("ATOM")]
            q = np.array([[float(l[30 + 8 * k : 38 + 8 * k]) for k in range(3)] for l in x]) * f
            rec.check(q.shape == (nb * nat, 3) and np.abs(q.ravel() - sg.A(b.q).ravel()).max() <= 5.1e-4 * f, "values", "path as pdb", sig)
            rec.check([l[12:16].strip() for l in x] == list(fr["names"]) * nb, "names", "path as pdb", sig)
            con = {frozenset(int(t) for t in (l[6:11], l[11:16])) for l in open("p.pdb") if l.startswith("CONECT")}
            want = {frozenset((j * nat + i + 1, (j + 1) % nb * nat + i + 1)) for j in range(nb) for i in range(nat)} if nb > 1 else set()
            rec.check(con == want, "values", "springs of the path in a pdb file: %s" % sorted(map(sorted, con ^ want))[:4], sig)
            continue
        got = list(iter_file(mode, open("p." + mode), dimension="length", units=u, cell_units=u))
        want = [dict(fr, q=x) for x in sg.A(b.q)]
        rec.check(len(got) == len(want), "count", "%d beads written as %d frames, %d read (%s)" % (nb, len(want), len(got), sig), sig)
        for g, w in zip(got, want):
            compare(rec, mode, sig, w, g, f, f)


def run_sim(case, rec):
    """Trajectory files written by a run, read back against the states of the run."""
    from ipi.utils.io import iter_file

    rng = np.random.default_rng(case["cseed"])
    nat, P = int(rng.integers(2, 5)), int(rng.choice([1, 2, 3]))
    g = sg.geometry(rng, nat, P, p_t=0.001, triclinic=bool(rng.random() < 0.5), masses=rng.choice([1837.0, 12000.0, 29000.0], nat))
    Q = {"positions": "length", "velocities": "velocity", "momenta": "momentum", "forces": "force", "x_centroid": "length", "v_centroid": "velocity", "f_centroid": "force", "p_centroid": "momentum"}
    U = unit_choices()
    outs, specs = "", []
    for i in range(4):
        k = str(rng.choice(list(Q)))
        fmt = str(rng.choice(["xyz", "pdb", "bin", "ase"]))
        if fmt in ("pdb",):
            k = str(rng.choice(["positions", "x_centroid"]))
        if fmt == "ase":
            k = "positions"
        u = "" if fmt == "ase" or rng.random() < 0.3 else str(rng.choice(U[Q[k]] if fmt != "pdb" else ["angstrom", "nanometer", "atomic_unit"]))
        cu = "" if fmt == "ase" or rng.random() < 0.3 else str(rng.choice(["angstrom", "atomic_unit", "nanometer"]))
        at = dict(filename="t%d" % i, stride=2, format=fmt)
        if cu:
            at["cell_units"] = cu
        outs += sg.tag("trajectory", " %s%s " % (k, "{%s}" % u if u else ""), **at)
        specs.append((k, fmt, u, cu))
    sim = sg.load(sg.simulation([sg.system(g, sg.dynamics("nve", 20.0), ensemble="<temperature>0.001</temperature>")], sg.ffdirect(pars=dict(kt=0.05)), 6, outputs=outs))
    s = sim.syslist[0]
    states = []

    def grab():
        q, p, m3, fo = sg.A(s.beads.q), sg.A(s.beads.p), np.repeat(sg.A(s.beads.m), 3), sg.A(s.forces.f)
        b = dict(positions=q, velocities=p / m3, momenta=p, forces=fo)
        c = dict(x_centroid=q.mean(0), v_centroid=p.mean(0) / m3, p_centroid=p.mean(0), f_centroid=fo.mean(0))
        states.append((b, c, sg.A(s.cell.h)))

    grab()
    orig = s.motion.step

    def step(*a, **k):
        r = orig(*a, **k)
        grab()
        return r

    s.motion.step = step
    sg.run_to_end(sim)
    from ipi.utils.units import unit_to_internal

    for i, (k, fmt, u, cu) in enumerate(specs):
        cen = k.endswith("centroid")
        dflt = {"pdb": "angstrom", "ase": "ase"}.get(fmt, "atomic_unit")
        f = unit_to_internal(Q[k], u or dflt, 1.0)
        cf = unit_to_internal("length", cu or dflt, 1.0)
        base = "sim.t%d" % i
        import glob

        files = sorted(x for x in glob.glob(base + "*") if not x.startswith("#"))
        rec.check(len(files) == (1 if cen else P), "count", "files %s for %s with %d beads" % (files, k, P), "%s|%s|files" % (fmt, k))
        for b, fn in enumerate(files):
            got = list(iter_file(fmt, opn(fmt, fn)))
            rec.check(len(got) == 4, "count", "%d frames of %s, expected 4" % (len(got), fn), "%s|%s" % (fmt, k))
            for j, gg in enumerate(got):
                bs, cs, h = states[2 * j]
                x = cs[k] if cen else bs[k][b]
                sig = "sim|%s|%s|%s|%s" % (fmt, k, u, cu)
                compare(rec, fmt, sig, dict(q=x, names=g["names"], h=h), gg, f, cf)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
