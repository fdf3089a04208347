"""C30: the analysis tools (trimming, contraction, merging, wrapping, conversion, kinetic energies, correlation functions, reweighting)."""
import os
import re
import subprocess
import sys

import numpy as np

from checks import c07_forces as c07
from vf import confgen as cg
from vf import simgen as sg
from vf.core import REPO, sub_seed

PROPERTY = "C30"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitoring: the tools are run as a user runs them, on files of real runs and on generated trajectories in many units, cells and lengths, and everything they write is compared with values computed directly from the same files by our own code"
NOTE = "files are parsed with readers of our own; tolerances are the number of digits the tools print"
RULE = "quick: 16 runs trimmed, 30 contractions, 30 merged/wrapped trajectories, 24 conversions, 16 kinetic energies, 30 correlation functions, 30 reweightings, 12 kernels; thorough: eight times as many"
ASSUMPTIONS = []
TIMEOUT = {"quick": 150, "thorough": 600}
REQUIRE = {"trim": 40, "contract": 30, "mux": 30, "convert": 30, "kinetic": 20, "tag": 8, "acf": 40, "reweight": 30, "kernel": 8, "getprop": 12, "refused": 10}

ANG = 0.529177210903
UNITS = {"length": {"atomic_unit": 1.0, "angstrom": 1 / ANG, "nanometer": 10 / ANG}}
TIME = {"atomic_unit": 1.0, "femtosecond": 41.341374575751, "picosecond": 41341.374575751}


def cases(tier, seed):
    f = 1 if tier == "quick" else 8
    out = []
    for kind, n in (("trim", 16), ("contract", 30), ("mux", 30), ("convert", 24), ("kinetic", 16), ("acf", 30), ("reweight", 30), ("kernel", 12)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c30", kind, i)) for i in range(n * f)]
    return out


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    globals()["k_" + case["kind"]](case, rec, rng)


def tool(name, *args, ok=True, rec=None, key=()):
    """Runs a tool as a user does."""
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO + os.pathsep + env.get("PYTHONPATH", "")
    p = subprocess.run([sys.executable, os.path.join(REPO, "tools", "py", name + ".py")] + [str(a) for a in args], env=env, capture_output=True, text=True)
    if ok and rec is not None:
        rec.check(p.returncode == 0, "ran", "%s %s fails: %s" % (name, " ".join(map(str, args)), p.stderr.strip()[-300:]), (name,) + tuple(key))
        if p.returncode:
            return None
    return p


# ---- trajectories -------------------------------------------------------


def abc(h):
    a, b, c = (np.linalg.norm(h[:, i]) for i in range(3))
    ang = lambda x, y, n, m: np.degrees(np.arccos(np.dot(x, y) / n / m))
    return a, b, c, ang(h[:, 1], h[:, 2], b, c), ang(h[:, 0], h[:, 2], a, c), ang(h[:, 0], h[:, 1], a, b)


def habc(v):
    a, b, c = v[:3]
    al, be, ga = np.radians(v[3:])
    h = np.zeros((3, 3))
    h[0, 0] = a
    h[0, 1], h[1, 1] = b * np.cos(ga), b * np.sin(ga)
    h[0, 2] = c * np.cos(be)
    h[1, 2] = (b * c * np.cos(al) - h[0, 1] * h[0, 2]) / h[1, 1]
    h[2, 2] = np.sqrt(c * c - h[0, 2] ** 2 - h[1, 2] ** 2)
    return h


def wxyz(fn, frames, cells, names, key="positions", unit="angstrom", cunit="angstrom", bead=0):
    with open(fn, "w") as f:
        for k, (x, h) in enumerate(zip(frames, cells)):
            f.write("%d\n# CELL(abcABC): %10.5f  %10.5f  %10.5f  %10.5f  %10.5f  %10.5f  Traj: %s{%s} Step:  %9d  Bead:   %5d cell{%s}  \n" % ((len(names),) + tuple(abc(h)) + (key, unit, k, bead, cunit)))
            for n, r in zip(names, x):
                f.write("%8s %12.5e %12.5e %12.5e\n" % ((n,) + tuple(r)))


def rxyz(text):
    """(names, data, cell, cell unit, unit) of every frame."""
    L = text.splitlines()
    out, i = [], 0
    while i < len(L):
        n = int(L[i])
        c = L[i + 1]
        m = re.search(r"CELL\(abcABC\):((?:\s+[-+0-9.Ee]+){6})", c)
        cu = re.search(r"cell\{(\w+)\}", c)
        un = re.search(r"(\w*)\{(\w+)\}", c.replace(cu.group(0), "") if cu else c)
        rows = [l.split() for l in L[i + 2 : i + 2 + n]]
        out.append(([r[0] for r in rows], np.array([[float(v) for v in r[1:4]] for r in rows]), habc([float(v) for v in m.group(1).split()]) if m else None, cu.group(1) if cu else None, un.group(2) if un else None))
        i += 2 + n
    return out


def abc_scaled(h, u):
    return None if h is None else h * u


def rpdb(text):
    """Frames in angstrom; a title may say that other units are used."""
    out, cur, cell, ua, uc = [], [], None, 1.0, 1.0
    for l in text.splitlines():
        if l.startswith("TITLE"):
            c = re.search(r"cell\{(\w+)\}", l)
            uc = length(c.group(1)) * ANG if c else 1.0
            m = re.search(r"\w*\{(\w+)\}", l.replace(c.group(0), "") if c else l)
            ua = length(m.group(1)) * ANG if m else 1.0
        elif l.startswith("CRYST1"):
            cell = habc([float(l[6:15]), float(l[15:24]), float(l[24:33]), float(l[33:40]), float(l[40:47]), float(l[47:54])])
            cur = []
        elif l.startswith("ATOM"):
            x = l[12:].split()
            cur.append((x[0], [float(v) for v in re.findall(r"-?\d+\.\d{3}", l)[:3]]))
        elif l.startswith("END"):
            out.append(([c[0] for c in cur], np.array([c[1] for c in cur]) * ua, abc_scaled(cell, uc), ua, uc))
    return out


def traj(rng, nf, nat, P, moving=True, cunit="angstrom", unit="angstrom", wide=1.0):
    """Positions (P, nf, nat, 3) in unit, cells in cunit, names; everything rounded as it is printed."""
    h = np.diag(rng.uniform(8, 14, 3))
    if rng.random() < 0.5:
        h[0, 1], h[0, 2], h[1, 2] = rng.uniform(-2, 2, 3)
    x0 = rng.uniform(-wide, wide, (1, 1, nat, 3)) * 12
    x = x0 + 0.3 * rng.standard_normal((P, 1, nat, 3)) + np.cumsum(0.25 * rng.standard_normal((1, nf, nat, 3)), axis=1) + 0.05 * rng.standard_normal((P, nf, nat, 3))
    names = [str(n) for n in rng.choice(["H", "O", "C", "Cl", "Na"], nat)]
    hs = [h * (1 + (0.01 * k if moving else 0)) for k in range(nf)]
    r = lambda v, u: v / ANG / UNITS["length"][u]  # numbers above are in angstrom
    hs = [r(g, cunit) for g in hs]
    hs = [habc([round(v, 5) for v in abc(g)]) for g in hs]
    x = np.array([[[[float("%12.5e" % v) for v in at] for at in f] for f in b] for b in r(x, unit)])
    return x, hs, names


def anyunit(rng):
    return str(rng.choice(["angstrom", "atomic_unit", "angstrom", "nanometer"]))


def length(u):
    return UNITS["length"][u]


# ---- tools --------------------------------------------------------------


def k_contract(case, rec, rng):
    P = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12]))
    n = int(rng.choice([m for m in (1, 1, 2, 3, 4, 5, 6, 7, 8, 12) if m <= P]))
    nf, nat = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    unit, cunit = anyunit(rng), anyunit(rng)
    if rng.random() < 0.2:
        key, unit = str(rng.choice(["forces", "velocities"])), "atomic_unit"
    else:
        key = "positions"
    x, hs, names = traj(rng, nf, nat, P, cunit=cunit, unit=unit if key == "positions" else "angstrom")
    fns = []
    for b in range(P):
        fns.append("in_%02d.xyz" % b)
        wxyz(fns[-1], x[b], hs, names, key, unit, cunit, b)
    k = ("contract", P, n, unit, cunit, key)
    if P > 1 and rng.random() < 0.25:
        # files that do not belong together are refused
        what = str(rng.choice(["cell", "atoms"]))
        b = int(rng.integers(1, P))
        if what == "cell":
            wxyz(fns[b], x[b], [g * 1.01 for g in hs], names, key, unit, cunit, b)
        else:
            wxyz(fns[b], x[b][:, :0] if nat == 1 else x[b][:, :-1], hs, names[:-1], key, unit, cunit, b)
        p = tool("contract-trajectory", *fns, "--filename-out", "o_{:d}.xyz" if n > 1 else "o.xyz", "--n", n)
        rec.check(p.returncode != 0, "refused", "beads with different %s are contracted" % what, ("contract", what))
        return
    pdb = key == "positions" and rng.random() < 0.25
    ext = "pdb" if pdb else "xyz"
    args = list(fns) + ["--filename-out", ("o_{:d}." if n > 1 else "o.") + ext, "--n", n]
    co = None
    if not pdb and rng.random() < 0.4:
        co = anyunit(rng)
        args += ["--cell_units-out", co]
    if tool("contract-trajectory", *args, rec=rec) is None:
        return
    C = c07.contraction_closed(P, n)
    want = np.einsum("ab,bfij->afij", C, x)
    sc = np.abs(x).max()
    for b in range(n):
        text = open(("o_%d." % b if n > 1 else "o.") + ext).read()
        fr = rpdb(text) if pdb else rxyz(text)
        rec.check(len(fr) == nf, "contract", "%d frames of %d" % (len(fr), nf), k)
        for f, g in enumerate(fr[:nf]):
            rec.check(g[0] == names, "contract", "names %s for %s" % (g[0], names), k)
            if pdb:
                rec.close(g[1], want[b, f] * length(unit) * ANG, 0, "contract", "bead %d frame %d of %d -> %d" % (b, f, P, n), k, atol=6e-4 * max(g[3], 1.0) + 1e-5 * sc * length(unit))
                rec.close(g[2], hs[f] * length(cunit) * ANG, 0, "contract", "cell of frame %d from %s" % (f, cunit), k, atol=6e-3 * max(1.0, g[4]))
            else:
                rec.check(g[4] == unit, "contract", "unit %s of a file in %s" % (g[4], unit), k)
                rec.close(g[1], want[b, f], 0, "contract", "bead %d frame %d of %d -> %d" % (b, f, P, n), k, atol=2e-5 * sc)
                rec.check(g[3] == (co or cunit), "contract", "cell in %s, wanted %s" % (g[3], co or cunit), k)
                rec.close(g[2] * length(g[3]) / length(cunit), hs[f], 0, "contract", "cell of frame %d from %s to %s" % (f, cunit, g[3]), k, atol=2e-5 * (1 + length(g[3]) / length(cunit)) + 1e-6 * np.abs(hs[f]).max())


def image(d, h):
    """Displacement minus whole cell vectors; True where it is not near the edge."""
    s = np.linalg.solve(h, d.T).T
    return s, np.abs(np.abs(s - np.round(s)) - 0.5).min(axis=-1) > 1e-4


def k_mux(case, rec, rng):
    P, nf, nat = int(rng.integers(1, 5)), int(rng.integers(1, 9)), int(rng.integers(1, 5))
    unit, cunit = anyunit(rng), anyunit(rng)
    x, hs, names = traj(rng, nf, nat, P, cunit=cunit, unit=unit, moving=rng.random() < 0.5, wide=2.0)
    mode = str(rng.choice(["plain", "wrap", "unwrap"]))
    h = [g * length(cunit) / length(unit) for g in hs]  # in the unit of the positions
    if mode == "unwrap":
        # put each frame in a box so that there is something to unwrap
        for b in range(P):
            for f in range(nf):
                s = np.linalg.solve(h[f], x[b, f].T).T
                y = (h[f] @ (s - np.floor(s)).T).T
                x[b, f] = [[float("%12.5e" % v) for v in r] for r in y]
    fns = []
    nfs = [nf] * P
    if P > 1 and rng.random() < 0.3:  # a shorter file ends the output
        nfs[int(rng.integers(P))] = max(1, nf - 1)
    for b in range(P):
        fns.append("in_%02d.xyz" % b)
        wxyz(fns[-1], x[b, : nfs[b]], hs[: nfs[b]], names, "positions", unit, cunit, b)
    lo, hi, st = int(rng.integers(0, 3)), int(rng.choice([-1, -1, 2, 4, 20])), int(rng.choice([1, 1, 2, 3]))
    ext = "pdb" if rng.random() < 0.2 else "xyz"
    args = fns + ["--filename-out", "o." + ext, "--begin", lo, "--end", hi, "--stride", st] + (["--" + mode] if mode != "plain" else [])
    k = ("mux", mode, P > 1, lo > 0, hi, st, ext)
    if tool("mux-positions", *args, rec=rec) is None:
        return
    full = min(nfs)
    pick = [f for f in range(full) if f >= lo and (hi < 0 or f < hi) and f % st == 0]
    text = open("o." + ext).read()
    fr = rpdb(text) if ext == "pdb" else rxyz(text)
    extra = len(fr) - P * len(pick)
    # the beads before a file that ran out may have been printed already
    short = hi < 0 or hi > full
    may = [b for b in range(P) if nfs[b] > full]
    allowed = 0
    if short and full < max(nfs) and full >= lo and full % st == 0:
        allowed = next(b for b in range(P) if nfs[b] == full)
    rec.check(extra in (0, allowed), "mux", "%d frames, wanted %d x %d (begin %d end %d stride %d of %d)" % (len(fr), P, len(pick), lo, hi, st, full), k)
    u = length(unit) * ANG if ext == "pdb" else 1.0
    tol = 1e-3 * max(1.0, u) if ext == "pdb" else 3e-5 * max(np.abs(x).max(), 1e-3)
    last = {}
    i = 0
    for f in range(full):
        for b in range(P):
            y = x[b, f]
            if mode == "wrap":
                s, sure = image(y, h[f])
                y = (h[f] @ (s - np.round(s)).T).T
            elif mode == "unwrap":
                sure = np.ones(nat, bool)
                if b in last:
                    s, sure = image(y - last[b], h[f])
                    y = last[b] + (h[f] @ (s - np.round(s)).T).T
                last[b] = y
            else:
                sure = np.ones(nat, bool)
            if f in pick and i < len(fr):
                g = fr[i]
                i += 1
                rec.check(g[0] == names, "mux", "names", k)
                rec.close(g[1][sure], (y * u)[sure], 0, "mux", "%s: bead %d frame %d (%s, cell %s)" % (mode, b, f, unit, cunit), k, atol=tol * 1.5)
                if not sure.all():
                    return
                rec.close(g[2], hs[f] * (length(cunit) * ANG if ext == "pdb" else 1.0), 0, "mux", "cell of frame %d" % f, k, atol=6e-3 * max(1.0, g[4]) if ext == "pdb" else 4e-5)
                if ext == "xyz":
                    rec.check(g[4] == unit and g[3] == cunit, "mux", "units %s %s, wanted %s %s" % (g[4], g[3], unit, cunit), k)


def k_convert(case, rec, rng):
    which = str(rng.choice(["a2b", "xyz2pdb", "merge", "fixcom"]))
    nf, nat = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    P = int(rng.integers(1, 5)) if which in ("merge", "fixcom") else 1
    unit, cunit = anyunit(rng), anyunit(rng)
    x, hs, names = traj(rng, nf, nat, P, cunit=cunit, unit=unit, wide=1.5)
    for b in range(P):
        wxyz("sim.pos_%d.xyz" % b, x[b], hs, names, "positions", unit, cunit, b)
    k = ("convert", which, unit, cunit)
    ua, uc = length(unit), length(cunit)
    if which == "a2b":
        om = str(rng.choice(["xyz", "pdb"]))
        p = tool("a2b", "sim.pos_0.xyz", "xyz", om, rec=rec)
        if p is None:
            return
        if om == "xyz":
            fr = rxyz(p.stdout)
            rec.check(len(fr) == nf, "convert", "frames", k)
            for f, g in enumerate(fr[:nf]):
                rec.check(g[0] == names and g[4] == unit and g[3] == cunit, "convert", "names and units", k)
                rec.close(g[1], x[0, f], 0, "convert", "a2b frame %d" % f, k, atol=2e-5 * np.abs(x).max())
                rec.close(g[2], hs[f], 0, "convert", "a2b cell %d" % f, k, atol=4e-5)
            return
        fr = rpdb(p.stdout)
        rec.check(len(fr) == nf, "convert", "frames", k)
        for f, g in enumerate(fr[:nf]):
            rec.check(g[0] == names, "convert", "names", k)
            rec.close(g[1], x[0, f] * ua * ANG, 0, "convert", "a2b pdb frame %d" % f, k, atol=6e-4 * max(1.0, g[3]) + 1e-5)
            rec.close(g[2], hs[f] * uc * ANG, 0, "convert", "a2b pdb cell %d" % f, k, atol=6e-3 * max(1.0, g[4]))
    elif which == "xyz2pdb":
        wrap = rng.random() < 0.5
        p = tool("xyz2pdb", "sim.pos_0.xyz", *([] if wrap else ["False"]), rec=rec)
        if p is None:
            return
        fr = rpdb(p.stdout)
        rec.check(len(fr) == nf, "convert", "frames", k)
        for f, g in enumerate(fr[:nf]):
            rec.check(g[0] == names, "convert", "names", k)
            y, h = x[0, f] * ua * ANG, hs[f] * uc * ANG
            d = g[1] - y
            if wrap:
                s = np.linalg.solve(h, d.T).T
                d = d - (h @ np.round(s).T).T
                w = np.linalg.solve(h, g[1].T).T
                rec.check(np.abs(w).max() < 0.5 + 1e-3, "convert", "xyz2pdb leaves an atom outside the cell, %s" % w.tolist(), k)
            rec.close(d, 0 * d, 0, "convert", "xyz2pdb frame %d wrap %s" % (f, wrap), k, atol=2e-3 * max(1.0, g[3]))
            rec.close(g[2], h, 0, "convert", "xyz2pdb cell %d" % f, k, atol=6e-3 * max(1.0, g[4]))
    elif which == "merge":
        p = tool("mergebeadspdb", "sim", rec=rec)
        if p is None:
            return
        fr = rpdb(p.stdout)
        rec.check(len(fr) == nf, "convert", "frames %d of %d" % (len(fr), nf), k)
        for f, g in enumerate(fr[:nf]):
            rec.check(g[0] == names * P, "convert", "names", k)
            rec.close(g[1], x[:, f].reshape(-1, 3) * ua * ANG, 0, "convert", "merged frame %d" % f, k, atol=1e-3)
            rec.close(g[2], hs[f] * uc * ANG, 0, "convert", "merged cell %d" % f, k, atol=6e-3)
    else:
        if tool("fixcom", "sim", rec=rec) is None:
            return
        M = {"H": 1.00794, "O": 15.9994, "C": 12.0107, "Cl": 35.453, "Na": 22.98977}
        m = np.array([M[n] for n in names])
        com = np.einsum("i,pfij->fj", m, x) / m.sum() / P * ua
        for b in range(P):
            fr = rxyz(open("sim.fixcom.pos_%d.xyz" % b).read())
            rec.check(len(fr) == nf, "convert", "frames", k)
            for f, g in enumerate(fr[:nf]):
                rec.close(g[1] * length(g[4]), x[b, f] * ua - com[f], 0, "convert", "centred bead %d frame %d" % (b, f), k, atol=1e-4 * np.abs(x).max() * ua)


def props_file(fn):
    cols, rows = [], []
    for l in open(fn):
        if l.startswith("#"):
            cols.append(l)
        elif l.strip():
            rows.append(l.split())
    return cols, rows


def k_trim(case, rec, rng):
    """A run is cut at one of its checkpoints: the trimmed files and those of the continuation are the files of the run."""
    n, cut = int(rng.integers(8, 14)), int(rng.integers(2, 6))
    s = cg.rand_spec(rng, modes=["nve", "nvt", "npt"], allow=("mts", "contraction"))
    st = lambda: int(rng.choice([1, 1, 2, 3]))
    outs = sg.tag("properties", "[ step, time, conserved, potential, temperature ]", filename="out", stride=st())
    fmt = str(rng.choice(["xyz", "xyz", "pdb"]))
    outs += sg.tag("trajectory", "positions", filename="pos", stride=st(), format=fmt, **({"bead": int(rng.choice([0, -2]))} if rng.random() < 0.4 else {}))
    outs += sg.tag("trajectory", str(rng.choice(["velocities", "momenta", "forces"])), filename="vel", stride=st())
    outs += sg.tag("trajectory", "x_centroid", filename="cen", stride=st(), format=str(rng.choice(["xyz", "pdb", "ase"])))
    ex = bool(rng.random() < 0.5)
    if ex:
        kind, form = str(rng.choice(["extras", "extras_component_raw(0)"])), str(rng.choice(["lines", "bec", "raw"]))
        form = "lines" if form == "bec" and kind != "extras" else form  # arrays of more than two dimensions are not printed
        outs += sg.tag("trajectory", kind, filename="ext", stride=st(), **({"extra_type": "BEC"} if form == "bec" else {}))
    outs += sg.tag("checkpoint", filename="chk", stride=cut, overwrite="False")
    xml = re.sub(r"(<names[^>]*>)([^<]*)", lambda m: m.group(1) + re.sub(r"\bD\b", "C", m.group(2)), cg.xml(s, n, outs, pes_extra={"extras": form} if ex else None))
    open("input.xml", "w").write(xml)
    top = os.getcwd()
    sim = sg.load(xml)
    sim.run()
    cg.end(sim)
    cks = sorted((f for f in os.listdir(".") if re.fullmatch(r"(sim\.)?chk_\d+", f)), key=lambda f: int(f.split("_")[-1]))
    rec.check(len(cks) >= 2, "trim", "checkpoints %s" % cks, ())
    ck = cks[int(rng.integers(0, len(cks)))]
    m = re.search(r"<step>\s*(\d+)", open(ck).read())
    K = int(m.group(1)) if m else 0
    k = ("trim", fmt, K > 0)
    files = [f for f in sorted(os.listdir(".")) if re.match(r"sim\.(out|pos|vel|cen|ext)", f)]
    if tool("trimsim", ck, "cut", rec=rec) is None:
        return
    got = sorted(os.listdir("cut"))
    rec.check(got == files, "trim", "files %s, the run wrote %s" % (got, files), k)
    strides = {a: int(b) for a, b in re.findall(r"filename=['\"](\w+)['\"] stride=['\"](\d+)", xml)}
    if not strides:
        for t in re.findall(r"<(?:properties|trajectory)[^>]*>", xml):
            strides[re.search(r"filename=['\"](\w+)", t).group(1)] = int(re.search(r"stride=['\"](\d+)", t).group(1))
    for f in files:
        a, b = open(f).read(), open(os.path.join("cut", f)).read()
        rec.check(a.startswith(b), "trim", "%s is not the beginning of the file of the run" % f, k)
        o = re.match(r"sim\.(\w+?)(_\d+)?(\.\w+)?$", f).group(1)
        want = [x for x in range(K + 1) if x % strides[o] == 0]
        if o == "out":
            steps = [int(float(r[0])) for r in props_file(os.path.join("cut", f))[1]]
        else:
            steps = [int(x) for x in re.findall(r"Step:?\s*[=:]?\s*(\d+)", b)]
            if not steps:
                steps = [int(x) for x in re.findall(r"[Ss]tep[=:]\s*(\d+)", b)]
            nfr = b.count("CRYST1") if (".pdb" in f) else b.count("#EXTRAS") if o == "ext" else len(re.findall(r"(?m)^\d+$", b))
            rec.check(nfr == len(want), "trim", "%s has %d frames up to step %d, wanted %d" % (f, nfr, K, len(want)), k)
            if not steps:
                continue
        rec.check(steps == want, "trim", "%s trimmed at step %d has steps %s" % (f, K, steps), k)
    # columns of a property file
    name = str(rng.choice(["potential", "conserved", "time", "temperature"]))
    skip = int(rng.integers(0, 3))
    p = tool("getproperty", "sim.out", name, skip, rec=rec)
    if p is not None:
        col = ["step", "time", "conserved", "potential", "temperature"].index(name)
        want = [r[col] for r in props_file("sim.out")[1]][skip:]
        rec.check(p.stdout.split() == want, "getprop", "getproperty %s skip %d: %s, file has %s" % (name, skip, p.stdout.split()[:3], want[:3]), (name,))


def k_kinetic(case, rec, rng):
    """Kinetic energies from positions and forces, and their moving average."""
    nat, nf, P = int(rng.integers(1, 4)), int(rng.integers(3, 12)), int(rng.choice([1, 2, 4, 5]))
    x, hs, names = traj(rng, nf, nat, P, cunit="atomic_unit", unit="atomic_unit")
    f = rng.standard_normal((P, nf, nat, 3)) * 0.01
    f = np.array([[[[float("%12.5e" % v) for v in at] for at in fr] for fr in b] for b in f])
    unit = str(rng.choice(["atomic_unit", "angstrom"]))
    ua = length(unit)
    for b in range(P):
        wxyz("sim.pos_%d.xyz" % b, x[b], hs, names, "positions", unit, "atomic_unit", b)
        wxyz("sim.for_%d.xyz" % b, f[b], hs, names, "forces", "atomic_unit", "atomic_unit", b)
    T = float(rng.uniform(50, 600))
    k = ("kinetic", P, unit)
    if tool("posforce2kinetic", "sim", T, rec=rec) is None:
        return
    q = x * ua
    dq = q - q.mean(axis=0)
    t = -np.einsum("pfia,pfib->fiab", dq, f) / P
    t = 0.25 * (t + np.swapaxes(t, -1, -2)) + 0.5 * T * 3.1668115634556e-06 * np.eye(3)
    sc = np.abs(t).max()
    kin, kod = rxyz(open("sim.kin.xyz").read()), rxyz(open("sim.kod.xyz").read())
    rec.check(len(kin) == nf and len(kod) == nf, "kinetic", "frames", k)
    for i in range(min(nf, len(kin), len(kod))):
        rec.check(kin[i][0] == names and kod[i][0] == names, "kinetic", "names", k)
        rec.close(kin[i][1], np.array([np.diag(a) for a in t[i]]), 0, "kinetic", "diagonal of frame %d" % i, k, atol=1e-4 * sc)
        rec.close(kod[i][1], np.array([[a[0, 1], a[0, 2], a[1, 2]] for a in t[i]]), 0, "kinetic", "off-diagonal of frame %d" % i, k, atol=1e-4 * sc)
    lag = int(rng.integers(1, max(2, (nf - 1) // 2 + 1)))
    if tool("kinetic2tag", "sim", lag, rec=rec) is None:
        return
    tag = rxyz(open("sim.ktag_%d.xyz" % lag).read())
    rec.check(len(tag) == max(0, nf - 2 * lag), "tag", "%d averages from %d frames with lag %d" % (len(tag), nf, lag), ("tag", lag))
    w = 1 - np.abs(np.arange(-lag, lag + 1)) / lag
    for i, g in enumerate(tag):
        m = np.einsum("j,jiab->iab", w, t[i : i + 2 * lag + 1]) / w.sum()
        rec.close(g[1], np.array([np.linalg.eigvalsh(a) for a in m]), 0, "tag", "average %d with lag %d" % (i, lag), ("tag", lag), atol=1e-4 * sc)


def k_acf(case, rec, rng):
    """Correlation functions against direct sums."""
    mlag = int(rng.integers(2, 8))
    nat = int(rng.integers(1, 5))
    B = int(rng.choice([0, -1, 2 * mlag, 2 * mlag + 1, 2 * mlag + int(rng.integers(2, 7))]))
    skip = int(rng.choice([0, 0, 1, 3]))
    nb = int(rng.integers(1, 4))
    bs = {0: 2 * mlag + 1, -1: 2 * mlag}.get(B, B)
    nf = skip + nb * bs + int(rng.integers(0, bs))
    x, hs, names = traj(rng, nf, nat, 1, cunit="atomic_unit", unit="atomic_unit")
    wxyz("v.xyz", x[0], hs, names, "positions", "atomic_unit", "atomic_unit")
    npad = int(rng.choice([0, 0, 3]))
    win = str(rng.choice(["none", "cosine-hanning", "cosine-hamming", "cosine-blackman", "triangle-bartlett"]))
    der = bool(rng.random() < 0.3)
    tu = str(rng.choice(list(TIME)))
    dt = float(rng.uniform(0.3, 2.0))
    labels = ["*"] if rng.random() < 0.6 else sorted(set(names))[: int(rng.integers(1, 3))]
    sel = [i for i, a in enumerate(names) if "*" in labels or a in labels]
    lib = B == 0 or rng.random() < 0.4
    k = ("acf", "library" if lib else "tool", bs % 2, win, der, npad > 0, skip > 0, labels == ["*"])
    if lib:
        sys.path.insert(0, REPO)
        from ipi.utils.tools import compute_acf_xyz

        r = compute_acf_xyz("v.xyz", mlag, **({} if B == 0 else dict(block_length=B)), length_zeropadding=npad, spectral_windowing=win, labels=labels, timestep=dt, time_units=tu, skip=skip, compute_derivative=der)
        time, c, ce, om, fc, fce = (np.asarray(a) for a in r)
    else:
        a = ["-ifile", "v.xyz", "-mlag", mlag, "-ftpad", npad, "-ftwin", win, "-dt", "%r %s" % (dt, tu), "-labels", " ".join(labels), "-s", skip, "-oprefix", "o"] + (["-bsize", B] if B > 0 else []) + (["-der"] if der else [])
        if tool("getacf", *a, rec=rec) is None:
            return
        time, c, ce = np.loadtxt("o_acf.data", ndmin=2).T
        om, fc, fce = np.loadtxt("o_facf.data", ndmin=2).T
    d = dt * TIME[tu]
    v = x[0][:, sel]
    cs = []
    for b in range(nb):
        y = v[skip + b * bs : skip + (b + 1) * bs]
        if der:
            y = np.gradient(y, axis=0) / d
        cs.append([np.mean([np.sum(y[i] * y[(i + l) % bs]) / len(sel) for i in range(bs)]) * d / (2 * np.pi) for l in range(mlag + 1)])
    cs = np.array(cs)
    wf = {"none": np.ones, "cosine-hanning": np.hanning, "cosine-hamming": np.hamming, "cosine-blackman": np.blackman, "triangle-bartlett": np.bartlett}[win](2 * mlag + 1)[mlag:]
    L = mlag + npad
    w = np.arange(2 * L) / (2.0 * L) * 2 * np.pi / d
    fs = []
    for row in cs:
        z = np.append(row * wf, np.zeros(npad))
        # even extension of period 2L
        fs.append([z[0] + 2 * np.sum(z[1:L] * np.cos(w_ * d * np.arange(1, L))) + z[L] * np.cos(w_ * d * L) for w_ in w])
    fs = np.array(fs)
    nt, nw = len(time), len(om)
    msg = "mlag %d block %s skip %d %s" % (mlag, B, skip, k)
    rec.check(nt >= min(mlag + npad, mlag + 1) if not lib else nt == mlag + 1, "acf", "%d times for lag %d" % (nt, mlag), k)
    rec.close(time, np.arange(nt) * d, 1e-6, "acf", "times, " + msg, k)
    rec.close(om, w[:nw], 1e-6, "acf", "frequencies, " + msg, k, atol=1e-12)
    rec.close(c, cs.mean(axis=0)[:nt], 0, "acf", "correlation, " + msg, k, atol=3e-6 * np.abs(cs).max())
    rec.close(fc, fs.mean(axis=0)[:nw], 0, "acf", "spectrum, " + msg, k, atol=3e-6 * np.abs(fs).max())
    if nb > 1:
        rec.close(ce, cs.std(axis=0)[:nt], 1e-3, "acf", "errors, " + msg, k, atol=1e-5 * np.abs(cs).max())
        rec.close(fce, fs.std(axis=0)[:nw], 1e-3, "acf", "errors of the spectrum, " + msg, k, atol=1e-5 * np.abs(fs).max())


def k_reweight(case, rec, rng):
    nfr, M, No = int(rng.integers(5, 60)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
    mode = str(rng.choice(["cea", "direct", "multi"]))
    if mode == "multi":
        No = max(No, 2)
    kt = float(rng.uniform(5e-4, 3e-3))
    pot = -1.0 + 0.01 * rng.standard_normal((nfr, 1)) + kt * 0.5 * rng.standard_normal((nfr, M))
    obs = rng.standard_normal((nfr, No)) + 3 * (pot - pot.mean(axis=1, keepdims=True))[:, :1] / kt + np.arange(No)
    st = int(rng.choice([1, 1, 2, 3, -2, -3, -1]))
    a = abs(st)
    fp, fo = pot, obs
    junk = lambda y: np.repeat(y, a, axis=0) + np.where(np.arange(len(y) * a) % a, 1.0, 0.0)[:, None]
    if st > 1:
        fp = junk(pot)
    elif st < -1:
        fo = junk(obs)
    np.savetxt("pot", fp)
    np.savetxt("obs", fo)
    args = ["pot", "obs", "--kt", repr(kt), "--stride", st]
    idx = -1
    if mode != "multi" and No > 1 and rng.random() < 0.4:
        idx = int(rng.integers(No))
        args += ["--index", idx]
    if mode == "direct":
        args.append("--direct")
    if mode == "multi":
        args.append("--multi-obs")
    k = ("reweight", mode, st, idx >= 0, No)
    if rng.random() < 0.15:
        np.savetxt("obs", fo[:-a])
        p = tool("committee-reweight", *args)
        rec.check(p.returncode != 0, "refused", "files of different length are reweighted", ("reweight", mode))
        return
    p = tool("committee-reweight", *args, rec=rec)
    if p is None:
        return
    got = np.array([[float(v) for v in l.split()] for l in p.stdout.splitlines() if l.strip() and not l.startswith("#")])
    o = obs if idx < 0 else obs[:, idx : idx + 1]
    dv = (pot - pot.mean(axis=1, keepdims=True)) / kt
    if mode == "direct":
        w = np.exp(-dv)
        R = (o.T @ w) / w.sum(axis=0)
    else:
        R = np.array([[o[:, j].mean() - np.mean((o[:, j] - o[:, j].mean()) * (dv[:, i] - dv[:, i].mean())) for i in range(M)] for j in range(o.shape[1])])
    msg = "%s of %d frames, %d models, %d observables, stride %d" % (mode, nfr, M, o.shape[1], st)
    if mode == "multi":
        sa = np.var(o.mean(axis=0), ddof=1)
        sv = np.mean([np.var(r, ddof=1) for r in R])
        tot = M * (No - 1) / (M * No - 1) * sa + (M - 1) * No / (M * No - 1) * sv
        rec.close(got.ravel(), [o.mean(), np.sqrt(tot), np.sqrt(sa), np.sqrt(sv)], 1e-5, "reweight", msg, k, atol=1e-7)
    else:
        rec.check(got.shape == (o.shape[1], M + 2), "reweight", msg + " shape %s" % (got.shape,), k)
        if got.shape == (o.shape[1], M + 2):
            rec.close(got[:, 2:], R, 1e-6, "reweight", msg, k, atol=1e-7)
            rec.close(got[:, 0], R.mean(axis=1), 1e-6, "reweight", msg + " mean", k, atol=1e-7)
            rec.close(got[:, 1], R.std(axis=1), 1e-5, "reweight", msg + " error", k, atol=1e-7)


def k_kernel(case, rec, rng):
    """Spectrum of a harmonic oscillator with a GLE."""
    sys.path.insert(0, REPO)
    from ipi.utils.tools import gle_frequency_kernel

    n = int(rng.choice([1, 1, 2, 3]))
    dw = 10 ** rng.uniform(-4.5, -3.5)
    om = dw * np.arange(int(rng.integers(8, 20)))
    if n == 1:
        A = np.array([[dw * rng.uniform(2.5, 12)]])
        D = 2 * A
    else:
        S = rng.standard_normal((n, n)) * dw
        A = S - S.T + np.diag(dw * rng.uniform(3, 12, n))
        C = np.eye(n)
        D = A @ C + C @ A.T
    K = gle_frequency_kernel(om.copy(), A, D)
    oo = om.copy()
    oo[0] = 0.1 * dw
    want = np.zeros((len(om), len(om)))
    for y, w0 in enumerate(oo):
        F = np.zeros((n + 1, n + 1))
        F[0, 1] = -1.0
        F[1, 0] = w0**2
        F[1:, 1:] = A
        G = np.zeros((n + 1, n + 1))
        G[1:, 1:] = D
        for x, w in enumerate(oo):
            r = np.linalg.inv(F + 1j * w * np.eye(n + 1))
            want[x, y] = np.real(r @ G @ r.conj().T)[1, 1] / np.pi * dw
    rec.close(K, want, 1e-4, "kernel", "kernel with %d variables" % n, ("kernel", n), atol=1e-5 * np.abs(want).max())
