"""C25: composite and built-in force fields."""
import json
import os
import random
import threading
import time

import numpy as np

from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: the real engine evaluates committees, rotation averages and built-in fields on random structures with members answering in any order (injected delays around locks and completion events); energies, forces, virials and extras are compared with independent combinations, finite differences and the structures the members really received"
NOTE = "Committees of 2-5 members (plain, baseline, several models in one reply, offsets), Legendre and Lebedev grids with inversion and random rotations, harmonic, Lennard-Jones, driven and cavity fields; beads 1-4, triclinic cells."
RULE = "each evaluation is one compared quantity of one structure; distinct counts field signatures"
ASSUMPTIONS = []
REQUIRE = {"committee": 100, "committee_extra": 100, "rotation": 40, "rot_sent": 40, "builtin": 40, "cavity": 20}
TIMEOUT = {"quick": 60, "thorough": 120}
HANG_IS_VIOLATION = True


def cases(tier, seed):
    n = {"quick": (28, 16, 12, 8, 4), "thorough": (500, 250, 150, 80, 20)}[tier]
    out = []
    for k, m in zip(("committee", "rotation", "builtin", "cavity", "race"), n):
        out += [dict(name="%s_%d" % (k, i), kind=k, cseed=sub_seed(seed, k, i)) for i in range(m)]
    return out


# ------------------------------------------------------------ delay injection
class SlowLock:
    """A lock that pauses after it is released, to widen race windows."""

    def __init__(self, pause):
        self.l = threading.Lock()
        self.pause = pause

    def acquire(self, *a, **k):
        return self.l.acquire(*a, **k)

    def release(self):
        self.l.release()
        time.sleep(self.pause * random.random())

    def locked(self):
        return self.l.locked()

    def __enter__(self):
        self.l.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def slow_locks(obj, pause=0.004):
    for k, v in list(vars(obj).items()):
        if isinstance(v, type(threading.Lock())):
            setattr(obj, k, SlowLock(pause))


def slow_events(pause=0.004):
    orig = threading.Event.set

    def set(self):
        orig(self)
        time.sleep(pause * random.random())

    threading.Event.set = set
    return orig


def pes_pars(rng, invariant=False):
    p = dict(k=rng.uniform(0.01, 0.08), g=rng.uniform(0, 0.03), r0=rng.uniform(2, 3), kt=rng.uniform(0, 0.02), shift=rng.uniform(-1, 1), kv=rng.uniform(0, 1e-3))
    if rng.random() < 0.5 and not invariant:
        p["k4"] = rng.uniform(0, 0.002)
        p["c3"] = rng.uniform(0, 0.002)
    return {k: float(v) for k, v in p.items()}


def full(p):
    d = dict(vfpes.DEFAULTS)
    d.update(p)
    return d


def up(v):
    v = np.array(v, float).reshape(3, 3)
    return np.triu(v)


def fd(efun, h, q, step=1e-3):
    """Forces and virial of an energy function by finite differences (five points)."""
    q = np.asarray(q, float)
    f = np.zeros_like(q)
    c = ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0))
    for i in range(len(q)):
        s = 0
        for k, w in c:
            x = q.copy()
            x[i] += k * step
            s += w * efun(h, x)
        f[i] = -s / (12 * step)
    vir = np.zeros((3, 3))
    es = 3e-4
    for i in range(3):
        for j in range(i, 3):
            s = 0
            for k, w in c:
                e = np.eye(3)
                e[i, j] += k * es
                s += w * efun(e @ h, (q.reshape(-1, 3) @ e.T).ravel())
            vir[i, j] = -s / (12 * es)
    return f, vir


def make_sim(g, ffs, forces="", nsteps=10, extra="", ensemble=""):
    nm = ""
    ens = "<temperature units='kelvin'>300</temperature>" + ensemble
    return sg.load(sg.simulation([sg.system(g, sg.dynamics("nve", 5.0), forces=forces or sg.tag("force", "", forcefield="com"), ensemble=ens, nm=nm)], ffs, nsteps, outputs=extra))


def rand_geom(rng, tri=True):
    nat, P = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    return sg.geometry(rng, nat, P, p_t=0.001, triclinic=tri and bool(rng.random() < 0.7))


def committee(members, weights, alpha, base, sb, off, coff):
    """Energy function, and per-member function, of the combination."""

    def per(h, q):
        return np.array([a * vfpes.energy(h, q, p)[0] - a * o for p, o, a in zip(members, off, weights)])

    def e(h, q):
        v = per(h, q)
        m = v.mean()
        if base is None:
            return m - coff
        var = np.var(m + alpha * (v - m), ddof=1)
        return vfpes.energy(h, q, base[0])[0] - base[1] + m * sb**2 / (sb**2 + var) - coff

    return e, per


def run_committee(case, rec):
    rng = np.random.default_rng(case["cseed"])
    random.seed(case["cseed"])
    g = rand_geom(rng)
    n = int(rng.integers(2, 6))
    alpha = float(rng.choice([1.0, 1.0, 0.5, 2.3]))
    baseline = bool(rng.random() < 0.45)
    multi = bool(rng.random() < 0.3)
    coff = float(rng.choice([0.0, 0.3]))
    delays = bool(rng.random() < 0.6)
    mem, off, tags, names = [], [], [], []
    ffn = n + (1 if baseline else 0)
    bpos = int(rng.integers(ffn)) if baseline else -1
    base = None
    jm = int(rng.integers(ffn)) if multi else -1
    if jm == bpos:
        jm = -1
    userx = bool(rng.random() < 0.3) and jm < 0
    for i in range(ffn):
        p = pes_pars(rng)
        o = float(rng.choice([0.0, 0.25, -1.5]))
        pr = {k: repr(v) for k, v in p.items()}
        if delays:
            pr["jitter"] = repr(float(rng.uniform(0, 0.01)))
            pr["delay"] = repr(float(rng.choice([0, 0.003])))
        if i == jm:
            pr["extras"] = "committee3"
            o = 0.0
        elif userx:
            pr["extras"] = "yes"
        nm = "m%d" % i
        tags.append(sg.ffdirect(nm, pars=pr, threaded=bool(rng.random() < 0.6), offset=o))
        if i == bpos:
            base = (full(p), o)
        elif i == jm:
            for j in range(3):
                mem.append(vfpes.member(full(p), j))
                off.append(0.0)
        else:
            mem.append(full(p))
            off.append(o)
    sb = float(rng.uniform(0.1, 2.0))
    body = "".join(tags) + sg.tag("alpha", repr(alpha))
    if coff:
        body += sg.tag("offset", repr(coff))
    if baseline:
        body += sg.tag("baseline_name", "m%d" % bpos) + sg.tag("baseline_uncertainty", repr(sb))
    if multi:
        body += sg.tag("parse_json", "True")
    com = sg.tag("ffcommittee", body, name="com", pbc="False")
    sig = "n%d%s%s%s%s" % (n, "B" if baseline else "", "J" if jm >= 0 else "", "D" if delays else "", "X" if userx else "")
    rec.sample(sig)
    orig = slow_events() if delays else None
    try:
        sim = make_sim(g, com)
        if delays:
            ff = sim.fflist["com"]
            slow_locks(ff)
            for f in ff.fflist:
                slow_locks(f)
        s = sim.syslist[0]
        efun, per = committee(mem, [1.0] * len(mem), alpha, base, sb, off, coff)
        for it in range(3):
            q, h = sg.A(s.beads.q), sg.A(s.cell.h)
            pots, f, virs = sg.A(s.forces.pots), sg.A(s.forces.f), sg.A(s.forces.virs)
            ex = s.forces.extras
            for b in range(len(q)):
                rec.close(pots[b], efun(h, q[b]), 1e-9, "committee", "energy (%s)" % sig, sig, atol=1e-10)
                v = per(h, q[b])
                m = v.mean()
                rv = m + alpha * (v - m)
                rec.close(np.array(ex["committee_pot"][b], float).ravel(), rv, 1e-9, "committee_extra", "committee_pot (%s)" % sig, sig, atol=1e-10)
                rec.close(float(np.array(ex["committee_uncertainty"][b]).ravel()[0]), np.std(rv, ddof=1), 1e-8, "committee_extra", "committee_uncertainty (%s)" % sig, sig, atol=1e-10)
                res = [vfpes.energy(h, q[b], p) for p in mem]
                F = np.array([r[1].ravel() for r in res])
                W = np.array([np.asarray(r[2]).ravel() for r in res])
                rec.close(np.array(ex["committee_force"][b], float).reshape(len(mem), -1), F.mean(0) + alpha * (F - F.mean(0)), 1e-8, "committee_extra", "committee_force (%s)" % sig, sig, atol=1e-10)
                gotw = np.array(ex["committee_virial"][b], float).reshape(len(mem), 3, 3)
                want = (W.mean(0) + alpha * (W - W.mean(0))).reshape(len(mem), 3, 3)
                rec.close(np.triu(gotw), np.triu(want), 1e-8, "committee_extra", "committee_virial (%s)" % sig, sig, atol=1e-9)
                if baseline:
                    br = vfpes.energy(h, q[b], base[0])
                    rec.close(float(np.array(ex["baseline_pot"][b]).ravel()[0]), br[0] - base[1], 1e-9, "committee_extra", "baseline_pot", sig)
                    rec.close(np.array(ex["baseline_force"][b], float).ravel(), br[1].ravel(), 1e-8, "committee_extra", "baseline_force", sig, atol=1e-10)
                    rec.close(float(np.array(ex["wb_mixing"][b]).ravel()[0]), sb**2 / (sb**2 + np.var(rv, ddof=1)), 1e-8, "committee_extra", "wb_mixing", sig)
                if userx:
                    # what the members say is handed on, member by member
                    key = "committee_scal"
                    got = np.array(ex[key][b], float).ravel()
                    names = [i for i in range(ffn) if i != bpos]
                    rec.close(got, 2 * np.array([r[0] for r in res]), 1e-9, "committee_extra", "extras of each member (%s)" % sig, sig)
                if b == 0 or rng.random() < 0.2:
                    ff_, fv = fd(efun, h, q[b])
                    rec.close(f[b], ff_, 1e-6, "committee", "forces are not minus the gradient (%s)" % sig, sig, atol=1e-7)
                    rec.close(np.triu(virs[b]), fv, 1e-6, "committee", "virial is not the strain derivative (%s)" % sig, sig, atol=1e-6)
            if it == 0:
                s.beads.q = q + 0.2 * rng.standard_normal(q.shape)
            else:
                s.motion.step(it)
    finally:
        if orig:
            threading.Event.set = orig


def run_rotation(case, rec):
    rng = np.random.default_rng(case["cseed"])
    random.seed(case["cseed"])
    nat, P = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    g = sg.geometry(rng, nat, P, p_t=0.001, triclinic=bool(rng.random() < 0.6))
    g["q"] -= g["q"].reshape(P, nat, 3).mean(axis=(0, 1)).repeat(1).tolist() * nat
    grid, order = [("legendre", 1), ("legendre", 2), ("legendre", 3), ("lebedev", 3), ("lebedev", 5), ("lebedev", 7)][int(rng.integers(6))]
    rnd = bool(rng.random() < 0.35)
    inv = bool(rng.random() < 0.4)
    thr = bool(rng.random() < 0.5)
    pbc = bool(rng.random() < 0.25)
    p = pes_pars(rng)
    # a field that is not invariant: at most quartic in the positions
    p.update(k=0.0, g=0.0, k4=float(rng.uniform(0.001, 0.01)), c3=float(rng.uniform(-0.01, 0.01)), kv=1e-3)
    if pbc:
        p = dict(k=0.0, g=0.0, per=0.02, kv=1e-3)
    pr = {k: repr(v) for k, v in p.items()}
    pr["dump"] = "dump.json"
    if thr:
        pr["jitter"] = "0.002"
    coff = float(rng.choice([0.0, 0.7]))
    body = sg.tag("grid_order", order) + sg.tag("grid_mode", grid) + sg.tag("random", rnd) + sg.tag("inversion", inv) + sg.tag("prng", sg.tag("seed", 321)) + sg.ffdirect("inner", pars=pr, threaded=thr, pbc=pbc)
    if coff:
        body += sg.tag("offset", repr(coff))
    sig = "%s%d%s%s%s" % (grid, order, "R" if rnd else "", "I" if inv else "", "P" if pbc else "")
    rec.sample(sig)
    sim = make_sim(g, sg.tag("ffrotations", body, name="com", pbc="False"))
    s = sim.syslist[0]
    slow_locks(sim.fflist["com"], 0.002)
    full_ = full(p)

    def evaluate(q, h):
        """Through the engine: energies, forces, virials and the structures the field received."""
        if os.path.exists("dump.json"):
            os.remove("dump.json")
        s.cell.h = h
        s.beads.q = q + 0.0
        r = sg.A(s.forces.pots), sg.A(s.forces.f), sg.A(s.forces.virs)
        return r + ([json.loads(x) for x in open("dump.json")],)

    q, h = sg.A(s.beads.q), sg.A(s.cell.h)
    for it in range(2):
        pots, f, virs, log = evaluate(q + 1e-9, h)
        q = sg.A(s.beads.q)
        nrot = len(log) // P
        rec.check(len(log) == nrot * P and nrot >= 1, "rot_sent", "%d evaluations for %d beads" % (len(log), P), sig)
        want = {"legendre1": 1, "legendre2": 18, "legendre3": 75, "lebedev3": 18, "lebedev5": 70}.get(grid + str(order))
        if want:
            rec.check(nrot == want * (2 if inv else 1), "rot_sent", "%d rotations instead of %d (%s)" % (nrot, want * (2 if inv else 1), sig), sig)
        # group by bead: each received structure is an orthogonal image of one bead
        per = [[] for _ in range(P)]
        for e in log:
            H = np.array(e["cell"]).reshape(3, 3)
            R = H @ np.linalg.inv(h)
            rec.close(R @ R.T, np.eye(3), 1e-9, "rot_sent", "the cell is not rotated rigidly (%s)" % sig, sig)
            if not rnd:
                rec.check(inv or np.linalg.det(R) > 0, "rot_sent", "improper rotation without inversion (%s)" % sig, sig)
            d = np.array([np.abs(_fold(np.array(e["pos"]).reshape(-1, 3) @ R - q[b].reshape(-1, 3), h if pbc else None)).max() for b in range(P)])
            b = int(np.argmin(d))
            rec.check(d[b] < 1e-7, "rot_sent", "positions are not those of a bead rotated like the cell (%s)" % sig, sig)
            per[b].append((R, e))
        for b in range(P):
            es = np.array([e["v"] for R, e in per[b]])
            fs = np.array([(np.array(e["f"]).reshape(-1, 3) @ R).ravel() for R, e in per[b]])
            vs = np.array([R.T @ np.array(e["vir"]).reshape(3, 3) @ R for R, e in per[b]])
            ex = np.array(s.forces.extras["o3grid_pots"][b], float).ravel()
            rec.close(np.sort(ex), np.sort(es), 1e-9, "rot_sent", "o3grid_pots (%s)" % sig, sig, atol=1e-12)
            # the weights are those of a quadrature: recover them from the least squares fit of all outputs
            A = np.vstack([es[None, :], fs.T, np.array([np.triu(v).ravel() for v in vs]).T, np.ones((1, len(es)))])
            y = np.concatenate([[pots[b] + coff], f[b], np.triu(virs[b]).ravel(), [1.0]])
            w = weights(grid, order, inv)
            rec.close(A @ w, y, 1e-8, "rotation", "weighted average over the rotations (%s)" % sig, sig, atol=1e-9)
        if it == 0 and not rnd:
            b = int(rng.integers(P))
            d = rng.standard_normal(q.shape)
            d[np.arange(P) != b] = 0
            st = 1e-3
            e = [evaluate(q + k * st * d, h)[0][b] for k in (1, -1, 2, -2)]
            gr = (8 * (e[0] - e[1]) - (e[2] - e[3])) / (12 * st)
            rec.close(float(np.sum(f[b] * d[b])), -gr, 1e-6, "rotation", "forces are not minus the gradient (%s)" % sig, sig, atol=1e-8)
            i, j = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)][int(rng.integers(6))]
            e = []
            for k in (1, -1, 2, -2):
                ep = np.eye(3)
                ep[i, j] += k * 1e-4
                qq = (q.reshape(P, -1, 3) @ ep.T).reshape(q.shape)
                e.append(evaluate(qq, ep @ h)[0][b])
            gr = (8 * (e[0] - e[1]) - (e[2] - e[3])) / (12e-4)
            rec.close(virs[b][i, j], -gr, 1e-5, "rotation", "virial is not the strain derivative (%s)" % sig, sig, atol=1e-7)
            # high enough orders make quadratic and cubic terms invariant
        q = q + 0.1 * rng.standard_normal(q.shape)
    s.cell.h = h


def _fold(d, h):
    if h is None:
        return d
    n = d @ np.linalg.inv(h).T
    return (n - np.round(n)) @ h.T


_W = {}


def weights(grid, order, inv):
    """Normalised weights in the order of evaluation, computed here from the quadrature rules."""
    k = (grid, order, inv)
    if k in _W:
        return _W[k]
    if grid == "legendre":
        if order == 1:
            w = np.ones(1)
        else:
            x = np.polynomial.legendre.leggauss(order)[1]
            w = np.tile(x, (2 * order - 1) ** 2)
    else:
        import importlib.resources as ir

        import ipi.utils

        d = np.load(os.path.join(os.path.dirname(ipi.utils.__file__), "lebedev_grids.npy"), allow_pickle=True).item()
        w = np.tile(np.array([float(x[2]) for x in d[order]]), order)
    if inv:
        w = np.repeat(w, 2)
    _W[k] = w / w.sum()
    return _W[k]


def run_builtin(case, rec):
    rng = np.random.default_rng(case["cseed"])
    kind = str(rng.choice(["debye", "lj", "dmd"]))
    nat, P = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    g = sg.geometry(rng, nat, P, p_t=0.0005, triclinic=bool(rng.random() < 0.5), lattice=3.0)
    off = float(rng.choice([0.0, 0.4]))
    ot = sg.tag("offset", repr(off))
    sig = kind + "%d" % nat
    rec.sample(sig)
    n3 = 3 * nat
    thr = str(bool(rng.random() < 0.5))
    if kind == "debye":
        H = rng.standard_normal((n3, n3)) * 0.01
        H = H + H.T
        x0 = g["q"].mean(axis=0) + 0.1
        v0 = float(rng.uniform(-1, 1))
        ff = sg.tag("ffdebye", sg.tag("hessian", sg.arr(H), shape="(%d, %d)" % (n3, n3)) + sg.tag("x_reference", sg.arr(x0)) + sg.tag("v_reference", repr(v0)) + ot, name="com", threaded=thr)
        ef = lambda h, q: v0 + 0.5 * (q - x0) @ H @ (q - x0) - off
        hasvir = False
    elif kind == "lj":
        eps, sgm = float(rng.uniform(1e-4, 1e-2)), float(rng.uniform(1.5, 3))

        def ef(h, q):
            x = q.reshape(-1, 3)
            v = 0
            for i in range(nat):
                for j in range(i):
                    r6 = (sgm**2 / np.sum((x[i] - x[j]) ** 2)) ** 3
                    v += 4 * eps * (r6 * r6 - r6)
            return v - off

        ff = sg.tag("fflj", sg.tag("parameters", "{eps: %r, sigma: %r}" % (eps, sgm)) + ot, name="com", pbc="False", threaded=thr)
        hasvir = False
    else:
        c = rng.uniform(-0.01, 0.01, nat * (nat - 1) // 2)
        if rng.random() < 0.5:
            c[:] = c[0]
        w, dt, st = 0.013, 5.0, int(rng.integers(1, 100))
        same = bool(np.all(c == c[0]))

        def ef(h, q):
            x = q.reshape(-1, 3) @ np.linalg.inv(h).T
            v = 0
            k = 0
            for i in range(1, nat):
                for j in range(i):
                    s = x[i] - x[j]
                    v += c[k] * np.linalg.norm(h @ (s - np.round(s)))
                    k += 1
            return v * np.sin(st * w * dt) - off

        ff = sg.tag("ffdmd", sg.tag("dmd_coupling", sg.arr(c)) + sg.tag("dmd_freq", repr(w)) + sg.tag("dmd_dt", repr(dt)) + sg.tag("dmd_step", st) + ot, name="com", pbc="False", threaded=thr)
        hasvir = True
    sim = make_sim(g, ff)
    s = sim.syslist[0]
    for it in range(3):
        q, h = sg.A(s.beads.q), sg.A(s.cell.h)
        pots, f, virs = sg.A(s.forces.pots), sg.A(s.forces.f), sg.A(s.forces.virs)
        for b in range(P):
            if kind != "dmd" or same or nat == 2:
                rec.close(pots[b], ef(h, q[b]), 1e-9, "builtin", "energy (%s)" % sig, sig, atol=1e-11)
            if b == 0:
                # gradient of the energy of the engine itself
                d = rng.standard_normal(q.shape)
                d[1:] = 0
                e = []
                for k in (1, -1, 2, -2):
                    s.beads.q = q + k * 1e-4 * d
                    e.append(sg.A(s.forces.pots)[0])
                gr = (8 * (e[0] - e[1]) - (e[2] - e[3])) / (12e-4)
                rec.close(float(f[0] @ d[0]), -gr, 1e-6, "builtin", "forces are not minus the gradient (%s)" % sig, sig, atol=1e-8)
                if hasvir:
                    i, j = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)][int(rng.integers(6))]
                    e = []
                    for k in (1, -1, 2, -2):
                        ep = np.eye(3)
                        ep[i, j] += k * 1e-4
                        s.cell.h = ep @ h
                        s.beads.q = (q.reshape(P, -1, 3) @ ep.T).reshape(q.shape)
                        e.append(sg.A(s.forces.pots)[0])
                    gr = (8 * (e[0] - e[1]) - (e[2] - e[3])) / (12e-4)
                    rec.close(virs[0][i, j], -gr, 1e-5, "builtin", "virial is not the strain derivative (%s)" % sig, sig, atol=1e-8)
                    s.cell.h = h
                s.beads.q = q
        if it == 0:
            s.beads.q = q + 0.1 * rng.standard_normal(q.shape)
        elif kind != "lj" or True:
            s.beads.q = q + 0.05


def run_cavity(case, rec):
    from vf.client import Client, vf_energy

    rng = np.random.default_rng(case["cseed"])
    nat = int(rng.integers(1, 5))
    rep = str(rng.choice(["loose", "dense"]))
    nph = 2 if rep == "loose" else 1
    P = int(rng.integers(1, 3))
    g = sg.geometry(rng, nat, P, p_t=0.0005)
    g["q"] = np.hstack([g["q"], 5 * rng.standard_normal((P, 3 * nph))])
    g["p"] = np.zeros_like(g["q"])
    g["m"] = np.concatenate([g["m"], np.ones(nph)])
    g["names"] = list(g["names"]) + ["L"] * nph
    ch = rng.uniform(-1, 1, nat)
    E0, wc = float(rng.uniform(1e-4, 5e-3)), float(rng.uniform(0.005, 0.03))
    surf = bool(rng.random() < 0.4)
    ev = bool(rng.random() < 0.85)
    off = float(rng.choice([0.0, 0.6]))
    addr = "vfcav%d" % os.getpid()
    p = pes_pars(rng)
    # a dipole surface: linear with a full derivative plus a quadratic part
    D = rng.uniform(-1, 1, (3, 3 * nat))
    Q = rng.uniform(-0.1, 0.1, (3, 3 * nat))

    def dip(x):
        return D @ x + Q @ (x * x)

    def dder(x):
        # derivative of mu_b with respect to coordinate (i, a), as expected: for each atom a 3x3 block
        J = D + 2 * Q * x[None, :]
        return J  # (3, 3n): J[b, 3i+a]

    def extra(cell, pos):
        x = np.asarray(pos).ravel()
        J = dder(x)
        # for each atom, dmu_x/dx, dmu_x/dy, dmu_x/dz, dmu_y/dx ...
        blk = np.concatenate([J[:, 3 * i : 3 * i + 3].ravel() for i in range(nat)])
        return json.dumps(dict(dipole=dip(x).tolist(), dipole_derivative=blk.tolist()))

    body = sg.tag("address", addr) + sg.tag("apply_photon", "True") + sg.tag("E0", repr(E0)) + sg.tag("omega_c", repr(wc)) + sg.tag("ph_rep", rep) + sg.tag("evaluate_photon", ev) + sg.tag("dipole_surface", surf) + sg.tag("offset", repr(off)) + sg.tag("charge_array", sg.arr(ch))
    sig = "%s%s%s%s" % (rep, "S" if surf else "", "" if ev else "-", "O" if off else "")
    rec.sample(sig)
    cl = Client(addr, vf_energy(p, extra))
    cl.start()
    sim = make_sim(g, sg.tag("ffcavphsocket", body, name="com", mode="unix", pbc="False"))
    s = sim.syslist[0]
    fp = full(p)

    def ef(h, q):
        x, ph = q[: 3 * nat], q[3 * nat :]
        v = vfpes.energy(h, x, fp)[0] - off
        if not ev:
            return v
        mu = dip(x) if surf else np.array([np.sum(ch * x[k::3]) for k in range(3)])
        v += 0.5 * wc**2 * np.sum(ph**2)
        py = ph[4] if rep == "loose" else ph[1]
        v += E0 * (mu[0] * ph[0] + mu[1] * py) + E0**2 / (2 * wc**2) * (mu[0] ** 2 + mu[1] ** 2)
        return v

    for it in range(3):
        q, h = sg.A(s.beads.q), sg.A(s.cell.h)
        pots, f = sg.A(s.forces.pots), sg.A(s.forces.f)
        for b in range(P):
            rec.close(pots[b], ef(h, q[b]), 1e-9, "cavity", "energy (%s)" % sig, sig, atol=1e-10)
            want = fd(ef, h, q[b])[0]
            rec.close(f[b], want, 1e-6, "cavity", "forces are not minus the gradient (%s)" % sig, sig, atol=1e-8)
        s.beads.q = q + 0.2 * rng.standard_normal(q.shape)
    sg.shutdown(sim)


def run_race(case, rec):
    """Completion races: members with offsets that finish while the parent looks."""
    rng = np.random.default_rng(case["cseed"])
    random.seed(case["cseed"])
    g = sg.geometry(rng, 3, 2, p_t=0.0005, lattice=3.0)
    n = 3
    eps = [float(rng.uniform(1e-4, 1e-2)) for _ in range(n)]
    off = [float(rng.uniform(0.5, 2)) for _ in range(n)]
    mem = "".join(sg.tag("fflj", sg.tag("parameters", "{eps: %r, sigma: 2.0}" % e) + sg.tag("offset", repr(o)), name="m%d" % i, pbc="False", threaded="True") for i, (e, o) in enumerate(zip(eps, off)))

    def ef(q, e):
        x = q.reshape(-1, 3)
        return sum(4 * e * (r**2 - r) for i in range(3) for j in range(i) for r in [(4.0 / np.sum((x[i] - x[j]) ** 2)) ** 3])

    orig = slow_events(0.02)
    try:
        sim = make_sim(g, sg.tag("ffcommittee", mem, name="com", pbc="False"))
        s = sim.syslist[0]
        for it in range(6):
            q = sg.A(s.beads.q)
            pots = sg.A(s.forces.pots)
            for b in range(2):
                rec.close(pots[b], np.mean([ef(q[b], e) - o for e, o in zip(eps, off)]), 1e-9, "committee", "energy of a committee of members with offsets, evaluated in threads", "race")
            s.beads.q = q + 0.05
    finally:
        threading.Event.set = orig


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
