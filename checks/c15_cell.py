"""C15: periodic cells."""
import json

import numpy as np

from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: assertions on the real cell objects over random and extreme cells and positions (integer lattice shifts, brute-force nearest images, inverse/volume identities), and on the structures that reach the potential in runs with wrapping on and off"
NOTE = "Orthorhombic, triclinic and general cells with aspect ratios up to 1e3 and angles down to 15 degrees, positions up to 1e3 cells away; shortest images by brute force for orthorhombic cells."
RULE = "each evaluation is one identity on one cell and set of positions, or one structure received by the potential; distinct counts cell signatures"
ASSUMPTIONS = []
REQUIRE = {"inverse": 100, "wrap": 100, "image": 100, "abc": 100, "sent": 50, "prop": 50}


def cases(tier, seed):
    n = {"quick": (60, 16), "thorough": (1500, 200)}[tier]
    out = [dict(name="cell_%d" % i, kind="cell", cseed=sub_seed(seed, "c", i)) for i in range(n[0])]
    out += [dict(name="run_%d" % i, kind="run", cseed=sub_seed(seed, "r", i)) for i in range(n[1])]
    return out


def rand_abc(rng):
    while True:
        L = 10.0 ** rng.uniform(-1.5, 1.5, 3) * 10
        if rng.random() < 0.5:
            L = rng.uniform(4, 12, 3)
        ang = rng.uniform(15, 165, 3) if rng.random() < 0.5 else rng.uniform(60, 120, 3)
        r = rng.random()
        if r < 0.25:
            ang[:] = 90
        elif r < 0.4:
            ang[rng.integers(3)] = 90
        ca, cb, cg = np.cos(np.radians(ang))
        if 1 - ca**2 - cb**2 - cg**2 + 2 * ca * cb * cg > 1e-2:
            return L, ang


def hmat(L, ang):
    a, b, c = L
    ca, cb, cg = np.cos(np.radians(ang))
    sg_ = np.sin(np.radians(ang[2]))
    h = np.zeros((3, 3))
    h[0] = [a, b * cg, c * cb]
    h[1, 1:] = [b * sg_, c * (ca - cb * cg) / sg_]
    h[2, 2] = c * np.sqrt(1 - ca**2 - cb**2 - cg**2 + 2 * ca * cb * cg) / sg_
    if np.all(ang == 90):
        h = np.diag(L)
    return h


class At:
    def __init__(self, q):
        self.q = q


def run_cell(case, rec):
    from ipi.engine.cell import Cell, GenericCell
    from ipi.utils import mathtools as mt

    rng = np.random.default_rng(case["cseed"])
    L, ang = rand_abc(rng)
    h = hmat(L, ang)
    ortho = bool(np.all(ang == 90))
    sig = "%s|%.1f" % ("o" if ortho else "t", np.log10(max(L) / min(L)))
    rec.sample(sig)
    R = np.linalg.qr(rng.standard_normal((3, 3)))[0]
    objs = [("Cell", Cell(h.copy())), ("GenericCell", GenericCell(h.copy())), ("rotated", GenericCell(R @ h))]
    cond = np.linalg.cond(h)
    for nm, c in objs:
        H = sg.A(c.h)
        k = nm + "|" + sig
        rec.close(sg.A(c.ih) @ H, np.eye(3), 1e-14 * cond * 10 + 1e-13, "inverse", nm + ": ih h", k)
        rec.close(abs(float(c.V)), abs(np.dot(H[:, 0], np.cross(H[:, 1], H[:, 2]))), 1e-11, "inverse", nm + ": volume", k)
        cl = c.clone()
        rec.close(sg.A(cl.h), H, 0, "inverse", "clone", k)
        # a change of the cell is seen everywhere, and not by the clone
        H2 = H * rng.uniform(0.8, 1.2)
        old = H.copy()
        c.h = H2
        rec.close(sg.A(c.ih) @ H2, np.eye(3), 1e-14 * cond * 10 + 1e-13, "inverse", nm + ": ih after a change", k)
        rec.close(abs(float(c.V)), abs(np.linalg.det(H2)), 1e-11, "inverse", nm + ": V after a change", k)
        rec.close(sg.A(cl.h), old, 0, "inverse", "clone after a change", k)
        c.h = old
        H = old
        nat = int(rng.integers(1, 30))
        scale = float(10.0 ** rng.uniform(-1, 3))
        s0 = rng.uniform(-scale, scale, (nat, 3))
        if rng.random() < 0.3:
            s0[0] = 0.0
        pos = (s0 @ H.T).ravel()
        w = pos.copy()
        c.array_pbc(w)
        iH = np.linalg.inv(H)
        d = (w - pos).reshape(-1, 3) @ iH.T
        tol = 1e-12 * (1 + scale) * cond
        rec.close(d, np.round(d), 0, "wrap", nm + ": array_pbc moves atoms by lattice vectors", k, atol=tol)
        sc = w.reshape(-1, 3) @ iH.T
        rec.check(bool(np.max(np.abs(sc)) <= 0.5 + tol), "wrap", "%s: wrapped atom outside the cell: %s" % (nm, np.max(np.abs(sc))), k)
        w2 = w.copy()
        c.array_pbc(w2)
        inside = np.abs(np.abs(sc) - 0.5).min() > 10 * tol
        if inside:
            rec.close(w2, w, 1e-11, "wrap", nm + ": wrapping twice", k)
        for j in range(min(nat, 4)):
            one = np.asarray(c.apply_pbc(At(pos[3 * j : 3 * j + 3])))
            dj = iH @ (one - pos[3 * j : 3 * j + 3])
            rec.close(dj, np.round(dj), 0, "wrap", nm + ": apply_pbc moves by lattice vectors", k, atol=tol)
            rec.check(bool(np.max(np.abs(iH @ one)) <= 0.5 + tol), "wrap", nm + ": apply_pbc outside the cell", k)
        for _ in range(6):
            i, j = rng.integers(nat, size=2)
            a, b = pos[3 * i : 3 * i + 3], pos[3 * j : 3 * j + 3]
            v = np.asarray(c.minimum_distance(At(a), At(b)))
            dv = iH @ (v - (a - b))
            rec.close(dv, np.round(dv), 0, "image", nm + ": minimum_distance differs by lattice vectors", k, atol=2 * tol)
            rec.check(bool(np.max(np.abs(iH @ v)) <= 0.5 + 2 * tol), "image", nm + ": not in the reduced cell", k)
            if ortho:
                n = np.array([[x, y, z] for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)])
                alt = np.linalg.norm(v + n @ H.T, axis=1)
                rec.check(np.linalg.norm(v) <= alt.min() * (1 + 1e-9) + tol * max(L), "image", "%s: image %s is not the shortest (%g < %g)" % (nm, v, alt.min(), np.linalg.norm(v)), k)
            back = np.asarray(c.minimum_distance(At(b), At(a)))
            if np.abs(np.abs(iH @ v) - 0.5).min() > 10 * tol:
                rec.close(back, -v, 1e-9, "image", nm + ": antisymmetry", k, atol=tol * max(L))
    # lengths and angles
    got = np.array(mt.h2abc_deg(h))
    rec.close(got[:3], L, 1e-12, "abc", "lengths", sig)
    rec.close(got[3:], ang, 1e-9, "abc", "angles", sig)
    rad = np.array(mt.h2abc(h))
    rec.close(rad[3:] * 180 / np.pi, ang, 1e-9, "abc", "angles in radians", sig)
    rec.close(mt.abc2h(*L, *np.radians(ang)), h, 1e-11, "abc", "matrix from lengths and angles", sig, atol=1e-11 * max(L))
    rec.close(np.array(mt.genh2abc((R @ h).T)), rad, 1e-9, "abc", "lengths and angles of a rotated cell", sig)
    hut = mt.abc2h(*rad)
    rec.close(hut, h, 1e-8, "abc", "there and back", sig, atol=1e-8 * max(L))
    rec.close(mt.invert_ut3x3(h) @ h, np.eye(3), 1e-13 * cond + 1e-13, "inverse", "invert_ut3x3", sig)
    rec.close(mt.det_ut3x3(h), np.linalg.det(h), 1e-11, "inverse", "det_ut3x3", sig)


def run_run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    nat, P = int(rng.integers(1, 5)), int(rng.choice([1, 2, 3]))
    pbc = bool(rng.random() < 0.65)
    L, ang = rand_abc(rng)
    while max(L) > 30 or min(L) < 3:
        L, ang = rand_abc(rng)
    h = hmat(L, ang)
    g = sg.geometry(rng, nat, P, p_t=0.001)
    g["h"] = h
    g["q"] = (rng.uniform(-3, 3, (nat, 3)) @ h.T).ravel()[None, :] + 0.2 * rng.standard_normal((P, 3 * nat))
    mode = str(rng.choice(["nve", "npt"]))
    bar, ens = "", "<temperature units='kelvin'>300</temperature>"
    if mode == "npt":
        bar = "<barostat mode='%s'><tau units='femtosecond'>50</tau><thermostat mode='langevin'><tau units='femtosecond'>50</tau></thermostat></barostat>" % str(rng.choice(["isotropic", "flexible"]))
        ens += "<pressure>1e-5</pressure>"
    names = ["volume", "cell_h", "cell_abcABC", "density", "step"]
    props = "<properties filename='p' stride='1'>[ %s ]</properties>" % ", ".join(names)
    th = sg.thermostat("langevin", tau=200.0) if mode == "npt" else ""
    ff = sg.ffdirect(pars=dict(k=0, g=0, per=0.01, kv=0.001, v0=float(np.linalg.det(h)), dump="dump.json"), pbc=pbc)
    sim = sg.load(sg.simulation([sg.system(g, sg.dynamics(mode, 10.0, thermostat=th, barostat=bar), ensemble=ens)], ff, 4, outputs=props))
    s = sim.syslist[0]
    st = []
    orig = s.motion.step

    def step(*a, **k):
        r = orig(*a, **k)
        st.append((sg.A(s.beads.q), sg.A(s.cell.h), sg.A(s.forces.f), float(s.cell.V), sg.A(s.cell.ih)))
        return r

    s.motion.step = step
    st.append((sg.A(s.beads.q), sg.A(s.cell.h), sg.A(s.forces.f), float(s.cell.V), sg.A(s.cell.ih)))
    sg.run_to_end(sim)
    log = [json.loads(x) for x in open("dump.json")]
    sig = "%s|%s|%d|%s" % (mode, pbc, P, "o" if np.all(ang == 90) else "t")
    rec.check(len(log) >= P * len(st), "sent", "%d structures evaluated for %d states of %d beads" % (len(log), len(st), P), sig)
    # every state's beads are among the structures sent, wrapped or not as requested
    for q, hh, f, V, ih in st:
        rec.close(ih @ hh, np.eye(3), 1e-12, "sent", "inverse of the running cell", sig)
        rec.close(V, np.linalg.det(hh), 1e-12, "sent", "volume of the running cell", sig)
        for b in range(P):
            best = None
            for e in log:
                if np.max(np.abs(np.array(e["cell"]).reshape(3, 3) - hh)) > 1e-9:
                    continue
                d = (np.array(e["pos"]) - q[b]).reshape(-1, 3)
                n = d @ np.linalg.inv(hh).T
                if np.max(np.abs(n - np.round(n))) < 1e-7 and np.max(np.abs(np.array(e["f"]) - f[b])) < 1e-9:
                    best = e
                    break
            rec.check(best is not None, "sent", "no structure sent to the potential matches bead %d up to lattice vectors (%s)" % (b, sig), sig)
            if best is None:
                continue
            x = np.array(best["pos"])
            if pbc:
                sc = x.reshape(-1, 3) @ np.linalg.inv(hh).T
                rec.check(bool(np.max(np.abs(sc)) <= 0.5 + 1e-9), "sent", "atoms sent with wrapping on lie outside the cell: %g" % np.max(np.abs(sc)), sig)
            else:
                rec.close(x, q[b], 1e-14, "sent", "positions changed although wrapping is off", sig)
    # the engine never wraps its own positions: they move continuously
    for a, b in zip(st, st[1:]):
        rec.check(float(np.max(np.abs(a[0] - b[0]))) < 1.0, "sent", "positions jump by %g" % np.max(np.abs(a[0] - b[0])), sig)
    from vf import confgen as cg

    head, rows = cg.read_props("sim.p")
    mass = float(np.sum(g["m"]))
    for r, (q, hh, f, V, ih) in zip(rows, st):
        L = np.linalg.norm(hh, axis=0)
        an = lambda i, j: np.degrees(np.arccos(hh[:, i] @ hh[:, j] / L[i] / L[j]))
        want = np.concatenate([[np.linalg.det(hh)], [hh[0, 0], hh[1, 1], hh[2, 2], hh[0, 1], hh[0, 2], hh[1, 2]], L, [an(1, 2), an(0, 2), an(0, 1)], [mass / np.linalg.det(hh)]])
        rec.close(np.array(r)[: len(want)], want, 2e-8, "prop", "volume, cell_h, cell_abcABC, density as printed", sig, atol=1e-7)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
