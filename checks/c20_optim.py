"""C20: optimisers, bands and finite-difference Hessians."""
import os

import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed

PROPERTY = "C20"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitor: every step of real optimisations, band searches and vibrational analyses is recorded, and what the run claims at its end (convergence, fixed coordinates, Hessian, modes) is recomputed from an independent potential"
NOTE = "the potential, its gradient and its second derivatives are evaluated outside i-PI from the recorded positions"
RULE = (
    "each execution builds one random system with an optimiser, a band or a vibrational analysis, runs it, half of the time with an interruption and a restart at a random step; monitors: "
    "tolerances at the claimed convergence, reported energies and forces, fixed coordinates after every step, energy lowered, no end without convergence or all steps done; "
    "band forces and end points; symmetric Hessian against second derivatives, eigenvalues, eigenvectors and modes, sum rules; distinct counts configurations"
)
ASSUMPTIONS = [
    "forces and energies are returned without noise",
    "interrupted runs are written with full precision",
    "fixed coordinates with several beads are left out for the quasi-Newton optimisers, which refuse them",
    "the string method is disabled in the code and is not exercised",
]
TIMEOUT = {"quick": 60, "thorough": 600}
REQUIRE = {"converged": 30, "fixed": 20, "hessian": 10, "modes": 10, "band": 8, "steps": 60}
MODES = ["sd", "cg", "bfgs", "bfgstrm", "lbfgs", "damped_bfgs"]


def cases(tier, seed):
    f = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("geop", 90), ("vib", 50), ("neb", 50)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c20", kind, i), tier=tier) for i in range(n * f)]
    return out


# ------------------------------------------------------------------ helpers
def evaluate(g, p, q):
    """Energies and forces of all beads."""
    v, f = [], []
    for b in np.atleast_2d(q):
        e, ff, _ = vfpes.energy(g["h"], b, p)
        v.append(e)
        f.append(np.asarray(ff).ravel())
    return np.array(v), np.array(f)


def hessian(g, p, q, eps=2e-4):
    n = q.size
    H = np.zeros((n, n))
    for i in range(n):
        d = np.zeros(n)
        # five point rule
        for c, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
            d[i] = c * eps
            H[i] -= w * evaluate(g, p, q + d)[1][0] / (12 * eps)
    return 0.5 * (H + H.T)


def pars(p):
    return {k: v for k, v in p.items() if v != vfpes.DEFAULTS[k]}


def motion(name, body, /, fix=None, fixname="fixatoms_dof", fixcom=False, **at):
    s = sg.tag(name, body, **at) + sg.tag("fixcom", str(fixcom))
    if fix is not None and len(fix):
        s += sg.tag(fixname, "[ " + ", ".join(str(int(x)) for x in fix) + " ]")
    return s


def document(g, p, mot, mode, nsteps, outputs=""):
    m = sg.tag("motion", mot, mode=mode)
    s = sg.system(g, m, ensemble=sg.tag("temperature", repr(300 * sg.KELVIN)))
    x = sg.simulation(s, sg.ffdirect(pars=pars(p)), nsteps, outputs=outputs)
    return x.replace("<simulation", "<simulation floatformat='%24.16e'", 1)


class Watch:
    """Positions, energies and forces as the run shows them, one record per step."""

    filename = "_watch"

    def __init__(self, sim, store):
        self.sim, self.store = sim, store

    def active(self):
        return True

    def write(self):
        s = self.sim.syslist[0]
        self.store.append((int(self.sim.step) + 1, sg.A(s.beads.q), sg.A(s.forces.pots), sg.A(s.forces.f), sg.A(s.cell.h)))


def execute(xml, store, stop=None):
    """Runs (part of) the document; returns (simulation, final state, ended by itself)."""
    sim = sg.load(xml)
    sim.outputs.append(Watch(sim, store))
    if stop is not None:
        sim.tsteps = stop
    sim.run()
    done = bool(sim.finished)
    s = sim.syslist[0]
    fin = (int(sim.step), sg.A(s.beads.q), sg.A(s.forces.pots), sg.A(s.forces.f), sg.A(s.cell.h))
    return sim, fin, done


def restart_text(sim, nsteps):
    sim.step += 1
    sim.chk.store()
    sim.chk.write(store=False)
    fn = sim.chk.filename
    txt = open(fn).read()
    import re

    return re.sub(r"<total_steps>.*?</total_steps>", "<total_steps>%d</total_steps>" % nsteps, txt)


def run_all(xml, nsteps, cut, store):
    """One go, or interrupted after `cut` steps and restarted from the checkpoint."""
    if cut is None:
        sim, fin, done = execute(xml, store)
        cg.end(sim)
        return fin, done, sim
    sim, fin, done = execute(xml, store, stop=cut)
    if done:
        cg.end(sim)
        return fin, done, sim
    txt = restart_text(sim, nsteps)
    cg.end(sim)
    sim, fin, done = execute(txt, store)
    cg.end(sim)
    return fin, done, sim


def potential(rng, n):
    p = dict(vfpes.DEFAULTS)
    p.update(
        k=float(rng.uniform(0.02, 0.1)),
        r0=float(rng.uniform(2.0, 3.0)),
        g=float(rng.choice([0.0, 0.02])),
        kt=float(rng.choice([0.0, 0.01, 0.05])),
        k4=float(rng.choice([0.0, 1e-3])),
        shift=float(rng.choice([0.0, -3.0])),
    )
    if n == 1:
        p["kt"] = 0.05
    return {k: float("%.6g" % v) for k, v in p.items()}


def common(rec, g, p, store, fin, fix, key):
    """What must hold after every step."""
    q0 = g["q"]
    mask = np.zeros(q0.shape[1], bool)
    mask[list(fix)] = True
    recs = store + [fin]
    for k, q, v, f, h in recs:
        V, F = evaluate(g, p, q)
        rec.close(v, V, 1e-10, "reported", "step %d: reported energies are not those of the structure" % k, key, atol=1e-11)
        rec.close(f, F, 1e-9, "reported", "step %d: reported forces are not those of the structure" % k, key, atol=1e-10)
        rec.check(np.array_equal(h, g["h"]), "cellfixed", "step %d: the cell changed" % k, key)
        if mask.any():
            rec.check(np.array_equal(q[:, mask], q0[:, mask]), "fixed", "step %d: fixed coordinates moved by %g" % (k, np.abs(q[:, mask] - q0[:, mask]).max()), key)
        rec.check(np.isfinite(q).all(), "finite", "step %d: positions not finite" % k, key)


# ------------------------------------------------------------------ optimisation
def run_geop(case, rec):
    rng = np.random.default_rng(case["cseed"])
    mode = MODES[case["i"] % len(MODES)]
    n = int(rng.integers(1, 6))
    nb = int(rng.choice([1, 1, 1, 2, 3]))
    fixkind = str(rng.choice(["none", "none", "atoms", "dof"])) if n > 1 else "none"
    if nb > 1 and mode in ("bfgs", "lbfgs", "bfgstrm", "damped_bfgs"):
        fixkind = "none"
    if mode == "damped_bfgs" and fixkind == "dof":
        fixkind = "atoms"
    g = sg.geometry(rng, n, nb, spread=0.2)
    p = potential(rng, n)
    if nb == 1 and fixkind == "none" and rng.random() < 0.1:
        # start where all forces are exactly zero
        if n == 1 or rng.random() < 0.5:
            p.update(k=0.0, g=0.0, kt=0.05)
            g["q"][:] = 0.0
        else:
            n = 2
            g = sg.geometry(rng, n, nb, spread=0.2)
            p.update(kt=0.0, k4=0.0, r0=2.5)
            g["q"][0] = [0, 0, 0, 0, 0, 2.5]
    fix = []
    body_fix, fname = None, "fixatoms_dof"
    if fixkind == "atoms":
        at = sorted(rng.choice(n, int(rng.integers(1, n)), replace=False).tolist())
        body_fix, fname = at, "fixatoms"
        fix = [3 * a + c for a in at for c in range(3)]
    elif fixkind == "dof":
        fix = body_fix = sorted(rng.choice(3 * n, int(rng.integers(1, 3 * n - 1)), replace=False).tolist())
    tol = dict(energy=float("%.2e" % 10 ** rng.uniform(-9, -4)), force=float("%.2e" % 10 ** rng.uniform(-6, -3)), position=float("%.2e" % 10 ** rng.uniform(-6, -2)))
    stay = bool(rng.random() < 0.25)
    nsteps = int(rng.choice([12, 150, 150])) if mode == "sd" else int(rng.choice([6, 80, 150]))
    body = sg.tag("tolerances", sg.tag("energy", tol["energy"]) + sg.tag("force", tol["force"]) + sg.tag("position", tol["position"]))
    body += sg.tag("exit_on_convergence", str(not stay))
    if mode not in ("sd", "cg"):
        body += sg.tag("biggest_step", "%.4f" % rng.uniform(0.05, 1.0))
    if rng.random() < 0.4:
        body += sg.tag("ls_options", sg.tag("tolerance", "%.1e" % 10 ** rng.uniform(-5, -2)) + sg.tag("iter", int(rng.integers(20, 200))) + sg.tag("step", "%.3e" % 10 ** rng.uniform(-3.5, -1)) + sg.tag("adaptive", "%.2f" % rng.random()))
    if mode == "lbfgs":
        body += sg.tag("corrections_lbfgs", int(rng.integers(2, 8))) + sg.tag("scale_lbfgs", int(rng.integers(0, 3)))
    cut = int(rng.integers(1, 8)) if rng.random() < 0.4 else None
    if cut is not None and cut >= nsteps:
        cut = None
    key = "%s/%d/%d/%s/%s/%s" % (mode, n, nb, fixkind, cut is not None, stay)
    rec.note(key)
    xml = document(g, p, motion("optimizer", body, body_fix, fname, mode=mode), "minimize", nsteps)
    store = []
    fin, done, sim = run_all(xml, nsteps, cut, store)
    common(rec, g, p, store, fin, fix, key)
    steps = [r[0] for r in store]
    rec.check(steps == list(range(0, len(steps))), "steps", "recorded steps %s" % steps[:40], key)
    free = np.ones(3 * n, bool)
    free[fix] = False

    def small(a, b):
        """Does the move from record a to record b satisfy the tolerances?"""
        Va, _ = evaluate(g, p, a[1])
        Vb, Fb = evaluate(g, p, b[1])
        de = abs(Vb.sum() - Va.sum()) / n
        fm = np.abs(Fb[:, free]).max()
        dx = np.abs(b[1] - a[1]).max()
        s = 1 + 1e-9
        bad = []
        if de > tol["energy"] * s + 1e-13:
            bad.append("energy change %.3e > %.3e" % (de, tol["energy"]))
        if fm > tol["force"] * s + 1e-12:
            bad.append("force %.3e > %.3e" % (fm, tol["force"]))
        if dx > tol["position"] * s + 1e-14:
            bad.append("move %.3e > %.3e" % (dx, tol["position"]))
        return bad

    if done:
        rec.check(not stay, "ended", "the run ended although it was asked to go on after convergence", key)
        flat = not evaluate(g, p, fin[1])[1][:, free].any()
        rec.check(len(store) >= 2 or flat, "ended", "the run ended without a step", key)
        bad = [] if flat else small(store[-2], store[-1])
        if flat:
            rec.ok("zero_forces", key)
        rec.check(not bad, "converged", "claims convergence after %d steps with %s" % (steps[-1], "; ".join(bad)), key)
        rec.check(np.array_equal(fin[1], store[-1][1]), "converged", "the final structure is not the converged one", key)
    else:
        rec.check(steps[-1] == nsteps, "ended", "ended after %d of %d steps without claiming convergence" % (steps[-1], nsteps), key)
        # had it converged earlier, it should have said so (or stood still)
        first = None
        for a, b in zip(store, store[1:]):
            if first is None:
                if not small(a, b):
                    first = b
            elif stay:
                rec.check(np.array_equal(b[1], first[1]) or cut is not None, "still", "moved after convergence", key)
        if not stay and first is not None and first[0] < nsteps - 1:
            # margins: only flag when clearly inside the tolerances
            i = [r[0] for r in store].index(first[0])
            Va, _ = evaluate(g, p, store[i - 1][1])
            Vb, Fb = evaluate(g, p, first[1])
            clear = abs(Vb.sum() - Va.sum()) / n < 0.9 * tol["energy"] and np.abs(Fb[:, free]).max() < 0.9 * tol["force"] and np.abs(first[1] - store[i - 1][1]).max() < 0.9 * tol["position"]
            rec.check(not clear, "ended", "went on although converged at step %d" % first[0], key)
    V0 = evaluate(g, p, g["q"])[0].sum()
    V1 = evaluate(g, p, fin[1])[0].sum()
    if mode != "damped_bfgs":
        rec.check(V1 <= V0 + max(1e-9, 2 * n * tol["energy"] if len(steps) < 4 else 1e-9), "lowered", "energy went from %.10f to %.10f" % (V0, V1), key)
        E = [evaluate(g, p, r[1])[0].sum() for r in store]
        rec.check(all(b <= a + max(1e-4, n * tol["energy"]) for a, b in zip(E, E[1:])), "downhill", "energies %s" % E[:12], key)


# ------------------------------------------------------------------ vibrations
def table(fn):
    return np.array([[float(x) for x in ln.split()] for ln in open(fn) if ln.strip() and not ln.startswith("#")])


def find(name):
    for d, _, fs in os.walk("."):
        for f in fs:
            if f.endswith(name):
                return os.path.join(d, f)
    return None


def run_vib(case, rec):
    rng = np.random.default_rng(case["cseed"])
    mode = ["fd", "fd", "nmfd", "enmfd", "fd"][case["i"] % 5]
    n = int(rng.integers(2, 6))
    g = sg.geometry(rng, n, 1, spread=0.1)
    p = potential(rng, n)
    asr = str(rng.choice(["none", "none", "crystal", "poly"]))
    if n < 3 and asr == "poly":
        asr = "crystal"
    fix, body_fix, fname = [], None, "fixatoms_dof"
    if mode == "fd" and asr == "none" and rng.random() < 0.5:
        if rng.random() < 0.5:
            at = sorted(rng.choice(n, int(rng.integers(1, n)), replace=False).tolist())
            body_fix, fname = at, "fixatoms"
            fix = [3 * a + c for a in at for c in range(3)]
        else:
            fix = body_fix = sorted(rng.choice(3 * n, int(rng.integers(1, 3 * n - 1)), replace=False).tolist())
    d = float("%.3e" % 10 ** rng.uniform(-3, -2))
    H = hessian(g, p, g["q"][0])
    m3 = np.repeat(g["m"], 3)
    ism = 1 / np.sqrt(m3)
    dyn = H * np.outer(ism, ism)
    pref = "vib"
    body = sg.tag("pos_shift", repr(d)) + sg.tag("prefix", pref) + sg.tag("asr", asr)
    shift = float("%.3e" % rng.uniform(1e-7, 1e-5)) if rng.random() < 0.3 else 0.0
    if shift:
        body += sg.tag("output_shift", repr(shift))
    if mode != "fd":
        # a first guess of the matrix, off by a good amount
        noise = rng.standard_normal(dyn.shape) * np.abs(dyn).max() * float(rng.choice([0.02, 0.3]))
        guess = dyn + 0.5 * (noise + noise.T)
        body += sg.tag("dynmat", sg.arr(guess), shape=str(guess.shape))
        if mode == "enmfd":
            body += sg.tag("energy_shift", repr(float("%.3e" % 10 ** rng.uniform(-7, -5.5))))
    nsteps = 3 * n + 5
    cut = int(rng.integers(1, 3 * n)) if rng.random() < 0.5 else None
    key = "%s/%d/%s/%s/%s/%s" % (mode, n, asr, bool(fix), cut is not None, bool(shift))
    rec.note(key)
    xml = document(g, p, motion("vibrations", body, body_fix, fname, mode=mode), "vibrations", nsteps)
    store = []
    fin, done, sim = run_all(xml, nsteps, cut, store)
    common(rec, g, p, store, fin, range(3 * n), key)
    rec.check(done, "ended", "the calculation did not report its end", key)
    act = np.array([i for i in range(3 * n) if i not in fix])
    out = {}
    for ext in (".dynmat", ".hess", ".eigval", ".eigvec", ".mode", "_full.hess"):
        fn = find(pref + ext)
        rec.check(fn is not None, "files", "no file %s" % (pref + ext), key)
        out[ext] = table(fn)
    # what the matrix has to be
    P = np.eye(3 * n)
    if asr != "none":
        D = [np.tile(e, n) * np.sqrt(m3) for e in np.eye(3)]
        if asr == "poly":
            x = g["q"][0].reshape(n, 3)
            x = x - (g["m"][:, None] * x).sum(0) / g["m"].sum()
            D += [np.cross(np.tile(e, (n, 1)), x).ravel() * np.sqrt(m3) for e in np.eye(3)]
        Q = np.linalg.qr(np.array(D).T)[0]
        P = P - Q @ Q.T
    want = (P @ dyn @ P)[np.ix_(act, act)] + shift * np.eye(len(act))
    dm = out[".dynmat"]
    rec.check(dm.shape == want.shape, "hessian", "shape of the dynamical matrix %s" % (dm.shape,), key)
    # truncation of the central difference: third derivatives of the forces
    big = d
    if mode == "enmfd":
        big = 100 * d
    scale = np.abs(dyn).max()
    third = 6 * p["g"] + 6 * p["k4"] + p["k"] / p["r0"] ** 2 * 6 + 0.05 * p["k"]
    mn = ism.max() ** 2
    tol = third * mn * min(big, 0.3) ** 2 * n + 1e-9 * scale
    if mode == "enmfd":
        tol = max(tol, 0.05 * scale)
    rec.check(np.allclose(dm, dm.T, rtol=0, atol=1e-13 * scale), "symmetric", "dynamical matrix not symmetric", key)
    rec.close(dm, want, 0, "hessian", "dynamical matrix differs from the second derivatives", key, atol=tol)
    w = ism[act]
    rec.close(out[".hess"], dm / np.outer(w, w), 1e-10, "hessian", "Hessian file is not the mass-weighted dynamical matrix", key, atol=1e-12)
    fullb = out["_full.hess"][np.ix_(act, act)]
    rec.close(fullb, out[".hess"], 1e-10, "hessian", "full Hessian differs on the moving coordinates", key, atol=1e-12)
    ev = out[".eigval"].ravel()
    U = out[".eigvec"]
    rec.check(len(ev) == len(act) and U.shape == dm.shape, "modes", "%d eigenvalues, eigenvectors %s" % (len(ev), U.shape), key)
    rec.close(U.T @ U, np.eye(len(act)), 1e-10, "modes", "eigenvectors not orthonormal", key, atol=1e-10)
    rec.close(dm @ U, U * ev, 1e-9, "modes", "eigenvectors do not diagonalise the matrix", key, atol=1e-11 * scale + 1e-18)
    M = out[".mode"]
    X = U * w[:, None]
    X = X / np.sqrt((X * X).sum(0))
    rec.close(M, X, 1e-9, "modes", "cartesian modes", key, atol=1e-10)
    if asr != "none" and not shift:
        nz = 3 if asr == "crystal" else 6
        rec.check(np.sum(np.abs(ev) < 1e-10 * np.abs(ev).max() + 1e-16) >= nz, "sumrule", "fewer than %d zero modes: %s" % (nz, ev[:7]), key)
    if cut is not None:
        # the same in one go, in another folder
        os.makedirs("one", exist_ok=True)
        here = os.getcwd()
        os.chdir("one")
        try:
            st = []
            run_all(xml, nsteps, None, st)
            one = table(find(pref + ".dynmat"))
        finally:
            os.chdir(here)
        rec.close(dm, one, 1e-9, "resumed", "the resumed calculation differs from the one in one go", key, atol=1e-9 * scale)


# ------------------------------------------------------------------ bands
def tangents(q, v, kind):
    out = []
    for i in range(1, len(q) - 1):
        a, b = q[i] - q[i - 1], q[i + 1] - q[i]
        if kind == "plain":
            t = a / np.linalg.norm(a) + b / np.linalg.norm(b)
        elif v[i + 1] > v[i] > v[i - 1]:
            t = b
        elif v[i + 1] < v[i] < v[i - 1]:
            t = a
        else:
            hi = max(abs(v[i + 1] - v[i]), abs(v[i - 1] - v[i]))
            lo = min(abs(v[i + 1] - v[i]), abs(v[i - 1] - v[i]))
            t = b * hi + a * lo if v[i + 1] > v[i - 1] else b * lo + a * hi
        out.append(t / np.linalg.norm(t))
    return np.array(out)


def run_neb(case, rec):
    rng = np.random.default_rng(case["cseed"])
    mode = ["damped_bfgs", "fire"][case["i"] % 2]
    n = int(rng.integers(1, 4))
    nb = int(rng.choice([5, 6, 7, 9]))
    tangent = str(rng.choice(["plain", "improved"]))
    climb = bool(rng.random() < 0.6)
    a = float(rng.uniform(0.8, 1.4))
    k4 = float("%.4g" % rng.uniform(0.02, 0.05))
    p = dict(vfpes.DEFAULTS)
    p.update(kt=float("%.6g" % (-k4 * a * a)), k4=k4, k=float(rng.choice([0.0, 0.004])), r0=2.0, g=0.0)
    if n == 1:
        p["k"] = 0.0
    g = sg.geometry(rng, n, nb)
    sign = rng.choice([-1.0, 1.0], 3 * n)
    e0 = a * sign + 0.02 * rng.standard_normal(3 * n)
    e1 = e0.copy()
    j = int(rng.integers(3 * n))
    e1[j] = -e1[j] + 0.03
    t = np.linspace(0, 1, nb)[:, None]
    q = (1 - t) * e0 + t * e1
    q[1:-1] += 0.05 * rng.standard_normal(q[1:-1].shape)
    g["q"] = q
    g["p"] = np.zeros_like(q)
    fix, body_fix = [], None
    if n > 1 and rng.random() < 0.4:
        at = sorted(set(range(n)) - {j // 3})[: int(rng.integers(1, n))]
        body_fix = at
        fix = [3 * x + c for x in at for c in range(3)]
        for c in fix:
            g["q"][:, c] = g["q"][0, c]
    tol = dict(energy=float("%.2e" % 10 ** rng.uniform(-8, -5)), force=float("%.2e" % 10 ** rng.uniform(-5, -3.3)), position=float("%.2e" % 10 ** rng.uniform(-4, -2)))
    kappa = float("%.3f" % rng.uniform(0.02, 0.5))
    nsteps = 150 if mode == "damped_bfgs" else 300
    body = sg.tag("tolerances", sg.tag("energy", tol["energy"]) + sg.tag("force", tol["force"]) + sg.tag("position", tol["position"]))
    body += sg.tag("spring", sg.tag("varsprings", "False") + sg.tag("kappa", kappa) + sg.tag("kappamax", 1.5) + sg.tag("kappamin", 0.5))
    body += sg.tag("tangent", tangent) + sg.tag("use_climb", str(climb)) + sg.tag("biggest_step", "%.3f" % rng.uniform(0.1, 0.5))
    if mode == "fire":
        body += sg.tag("dtmax_fire", "1.0")
    cut = 1 if rng.random() < 0.6 else None
    key = "%s/%d/%d/%s/%s/%s/%s" % (mode, n, nb, tangent, climb, bool(fix), cut is not None)
    rec.note(key)
    xml = document(g, p, motion("neb_optimizer", body, body_fix, "fixatoms", mode=mode), "neb", nsteps)
    store = []
    if cut is not None:
        # where it can be interrupted is known from a run in one go
        one = []
        os.makedirs("one", exist_ok=True)
        here = os.getcwd()
        os.chdir("one")
        try:
            run_all(xml, nsteps, None, one)
        finally:
            os.chdir(here)
        last = one[-1][0]
        if last < 1:
            cut = None
        else:
            moving = [np.any(a[1] != b[1], axis=1).sum() for a, b in zip(one, one[1:])]
            climbing = [k + 1 for k, x in enumerate(moving) if x == 1]
            if climbing and rng.random() < 0.6:
                cut = int(rng.choice(climbing))
                rec.ok("cut_climbing", key)
            else:
                cut = int(rng.integers(1, last + 1))
    fin, done, sim = run_all(xml, nsteps, cut, store)
    common(rec, g, p, store, fin, fix, key)
    for k, qq, v, f, h in store + [fin]:
        rec.check(np.array_equal(qq[[0, -1]], g["q"][[0, -1]]), "endpoints", "step %d: the end points moved" % k, key)
    free = np.ones(3 * n, bool)
    free[fix] = False
    if not done:
        rec.check(store[-1][0] == nsteps, "ended", "ended after %d of %d steps without claiming convergence" % (store[-1][0], nsteps), key)
        rec.ok("unconverged", key)
        return
    ok = sim.syslist[0].motion.exit_status == "success"
    if not ok:
        rec.ok("refused", key)
        return
    qf = fin[1]
    V, F = evaluate(g, p, qf)
    x, F = qf[:, free], F[:, free]
    if not climb:
        tau = tangents(x, V, tangent)
        for i in range(1, nb - 1):
            f = F[i] - np.dot(F[i], tau[i - 1]) * tau[i - 1]
            f = f + kappa * (np.linalg.norm(x[i + 1] - x[i]) - np.linalg.norm(x[i] - x[i - 1])) * tau[i - 1]
            rec.check(np.abs(f).max() <= tol["force"] * (1 + 1e-7) + 1e-12, "band", "image %d: force %.3e > %.3e" % (i, np.abs(f).max(), tol["force"]), key)
        rec.check(np.abs(qf - store[-1][1]).max() <= tol["position"] * (1 + 1e-9), "band", "last move %.3e" % np.abs(qf - store[-1][1]).max(), key)
        de = abs(V.sum() - evaluate(g, p, store[-1][1])[0].sum()) / (nb * n)
        rec.check(de <= tol["energy"] * (1 + 1e-9) + 1e-13, "band", "last change of energy %.3e > %.3e" % (de, tol["energy"]), key)
    else:
        moved = [i for i in range(nb) if not np.array_equal(qf[i], store[-1][1][i])]
        top = int(np.argmax(V))
        rec.check(len(moved) <= 1, "band", "images %s moved while climbing" % moved, key)
        fm = np.linalg.norm(F[top])
        rec.check(fm <= np.sqrt(free.sum()) * tol["force"] * (1 + 1e-7) + 1e-12, "band", "the climbing image %d is not stationary: |f| = %.3e" % (top, fm), key)
    rec.ok("converged", key)


def run(case, rec):
    sg.quiet()
    {"geop": run_geop, "vib": run_vib, "neb": run_neb}[case["kind"]](case, rec)
