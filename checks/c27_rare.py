"""C27: instanton searches end on stationary tunnelling paths; anharmonic mode energies are those of the potential."""
import glob
import os

import numpy as np

from checks import c20_optim as c20
from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import Inconclusive, sub_seed

PROPERTY = "C27"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitoring: every step of real instanton searches (all optimisers, rates and splittings, fixed atoms, interrupted and continued) and of independent-mode analyses is recorded, and what each run claims at its end (stationary path, index of the saddle, Hessian, files, energies) is recomputed from an independent potential, spring term and grid solution of each mode"
NOTE = "the open ring polymer, its potential, gradient and second derivatives are evaluated outside i-PI from the recorded positions; mode energies come from a sinc-DVR grid; uniform discretisation only, no friction and no spline-interpolated beads"
RULE = "quick: 60 random instanton searches over double wells and 20 independent-mode analyses; thorough: ten times as many"
ASSUMPTIONS = ["forces and energies are returned without noise"]
TIMEOUT = {"quick": 90, "thorough": 600}
REQUIRE = {"converged": 25, "stationary": 25, "instanton": 8, "energies": 40, "mapped": 40, "restart": 10, "hessian": 10, "files": 60}
M = 1837.0


def cases(tier, seed):
    f = 1 if tier == "quick" else 10
    out = []
    for kind, n in (("inst", 60), ("imf", 20)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c27", kind, i), tier=tier) for i in range(n * f)]
    return out


def system(rng, n, P, spread):
    m = M * np.array([1.0] + list(rng.uniform(1, 12, n - 1)))
    q0 = np.concatenate([[0.0, 0, 0]] + [np.array([0.0, 0.0, 2.4]) + rng.normal(0, 0.1, 3) for _ in range(n - 1)])
    names = ["H"] + ["O"] * (n - 1)
    return dict(q0=q0, m=m, names=names)


def latest(pattern):
    """Most recent files first, by the step in their names."""
    return sorted(glob.glob(pattern), key=lambda f: -int(f.replace(".xyz", "").split("_")[-1]))


def path_gradient(g, p, q, om2):
    """Energy and gradient of the open polymer."""
    m3 = np.repeat(g["m"], 3)
    V, F = c20.evaluate(g, p, q)
    G = -F
    e = V.sum()
    if len(q) > 1:
        d = np.diff(q, axis=0)
        e += 0.5 * om2 * np.sum(m3 * d * d)
        G[:-1] -= om2 * m3 * d
        G[1:] += om2 * m3 * d
    return e, G


def run_inst(case, rec):
    rng = np.random.default_rng(case["cseed"])
    opt = ["nichols", "NR", "lanczos", "lbfgs", "nichols"][case["i"] % 5]
    mode = "splitting" if opt == "lbfgs" or (opt == "nichols" and rng.random() < 0.3) else "rate"
    if opt == "NR":
        mode = "rate"
    n = int(rng.choice([1, 2]))
    P = int(rng.choice([4, 6, 8, 10]))
    if opt == "nichols" and mode == "rate" and rng.random() < 0.2:
        P = 1
    p = dict(vfpes.DEFAULTS)
    p.update(vb=float(rng.uniform(0.006, 0.015)), ab=float(rng.uniform(0.8, 1.3)), ka=float(rng.uniform(0.002, 0.006)), k=0.05, g=0.0, r0=2.4, shift=float(rng.choice([0.0, -2.0])))
    p = {k: float("%.6g" % v) for k, v in p.items()}
    s = system(rng, n, P, 0)
    # the trap lowers the barrier
    H = c20.hessian(dict(h=np.eye(3) * 40), p, s["q0"])
    e = np.array([0.8, 0.6, 0.0])
    kb = -e @ H[:3, :3] @ e
    if kb < 0.3 * 4 * p["vb"] / p["ab"] ** 2:
        raise Inconclusive("no barrier")
    wb = np.sqrt(kb / s["m"][0])
    T = float(rng.uniform(0.4, 0.75)) * wb / (2 * np.pi)
    if mode == "splitting":
        T = wb / (2 * np.pi) * float(rng.uniform(0.1, 0.2))
    h = np.diag([40.0, 41.0, 42.0])
    q1 = s["q0"]
    amp = 0.6 * p["ab"]
    e = np.zeros(3 * n)
    e[:3] = [0.8, 0.6, 0]
    fix = []
    if n > 1 and rng.random() < 0.5:
        fix = [3, 4, 5]
    same = P > 1 and rng.random() < 0.3 and mode == "rate"
    body = "<tolerances><energy> 1e-6 </energy><force> 1e-6 </force><position> 1e-4 </position></tolerances>"
    if rng.random() < 0.5:
        body += sg.tag("biggest_step", "%.3f" % rng.uniform(0.05, 0.3))
    upd = str(rng.choice(["powell", "recompute"]))
    g = dict(h=h, m=s["m"], names=s["names"])
    if opt != "lbfgs":
        body += sg.tag("hessian_update", upd) + sg.tag("hessian_asr", "none")
    if same:
        H = c20.hessian(g, p, q1)
        body += sg.tag("hessian", sg.arr(H), shape="(%d,%d)" % H.shape) + sg.tag("delta", "%.3f" % amp)
        q = np.tile(q1, (P, 1))
    else:
        if opt != "lbfgs":
            body += sg.tag("hessian_init", "True")
        q = np.array([q1 + amp * e * np.cos(np.pi * i / max(P - 1, 1) + (0.3 if P == 1 else 0)) for i in range(P)])
        if P == 1:
            q = q1[None] + 0.02 * rng.standard_normal((1, 3 * n))
            q[:, fix] = q1[fix]
        if mode == "splitting":
            q = np.array([q1 + p["ab"] * 0.95 * e * np.tanh(3 * (2 * i / (P - 1) - 1)) for i in range(P)])
    final = rng.random() < 0.5 and opt != "lbfgs"
    body += sg.tag("hessian_final", str(bool(final)))
    shift = float(rng.choice([0.0, 0.3]))
    if shift:
        body += sg.tag("energy_shift", repr(shift))
    body += sg.tag("opt", opt) + sg.tag("alt_out", "-1")
    g.update(q=q, p=np.zeros_like(q))
    mot = c20.motion("instanton", body, fix=fix, mode=mode)
    nsteps = 200
    xml = c20.document(g, p, mot, "instanton", nsteps).replace(repr(300 * sg.KELVIN), repr(float(T)))
    key = "%s/%s/%s/%s%s%s" % (opt, mode, "P1" if P == 1 else "P", "same" if same else "path", "/fix" if fix else "", "/" + upd if opt != "lbfgs" else "")
    cut = int(rng.integers(1, 6)) if rng.random() < 0.5 else None
    store = []
    try:
        fin, done, sim = c20.run_all(xml, nsteps, cut, store)
    except (ValueError, np.linalg.LinAlgError) as err:
        if (fix and opt in ("lbfgs", "NR")):
            rec.note("refused: " + key)
            return
        raise
    if cut is not None and len(store) > cut:
        # the same without the interruption
        keep = os.getcwd()
        os.makedirs("whole", exist_ok=True)
        os.chdir("whole")
        whole = []
        c20.run_all(xml, cut + 2, None, whole)
        os.chdir(keep)
        for a, b in list(zip(store, whole))[cut - 1 :]:
            rec.close(a[1], b[1], 1e-7, "restart", "step %d differs after a restart at step %d" % (a[0], cut), key, atol=1e-9)
    c20.common(rec, g, p, store, fin, fix, key)
    rec.ok("steps", key)
    om = (2 if mode == "rate" else 1) * P * T
    act = np.ones(3 * n, bool)
    act[fix] = False
    if not done:
        rec.check(fin[0] >= nsteps - 1, "ended", "the run ended after %d steps without convergence" % fin[0], key)
        rec.note("not converged: " + key)
        return
    rec.ok("converged", key)
    q = fin[1]
    U, G = path_gradient(g, p, q, om**2)
    last = np.abs(G[:, act]).max()
    stuck = len(store) > 1 and np.linalg.norm(store[-1][3] - store[-2][3]) <= 1.0001e-8
    rec.check(last <= 1.0001e-6 or stuck, "stationary", "claimed convergence with a path force of %.3g (tolerance 1e-6)" % last, key)
    if stuck or len(store) < 2:
        return
    rec.check(np.abs(store[-1][1] - store[-2][1]).max() <= 1.0001e-4, "tolerance", "claimed convergence after a step of %.3g (tolerance 1e-4)" % np.abs(store[-1][1] - store[-2][1]).max(), key)
    du = abs(store[-1][2].sum() - store[-2][2].sum()) / n
    rec.check(du <= 1.0001e-6, "tolerance", "claimed convergence with an energy change of %.3g per atom" % du, key)
    # second derivatives of the path
    Hb = [c20.hessian(g, p, x) for x in q]
    N = 3 * n
    A = np.zeros((P * N, P * N))
    m3 = np.repeat(g["m"], 3)
    for b in range(P):
        A[b * N : (b + 1) * N, b * N : (b + 1) * N] += Hb[b]
    for b in range(P - 1):
        D = np.zeros((N, P * N))
        D[:, b * N : (b + 1) * N] = -np.eye(N)
        D[:, (b + 1) * N : (b + 2) * N] = np.eye(N)
        A += om**2 * D.T @ np.diag(m3) @ D
    a = np.tile(act, P)
    ms = np.sqrt(np.tile(m3, P))
    ev = np.linalg.eigvalsh((A / np.outer(ms, ms))[np.ix_(a, a)])
    if opt in ("nichols", "lanczos") and mode == "rate":
        rec.check(ev[1] > -1e-9, "saddle", "the path found has eigenvalues %s" % ev[:3], key)
        if ev[0] < 0:
            rec.ok("instanton", key)
    if opt == "lbfgs" or mode == "splitting":
        rec.check(ev[0] > -1e-9, "minimum", "the path found has eigenvalues %s" % ev[:3], key)
    # files
    x = latest("*instanton_FINAL_[0-9]*.xyz")
    rec.check(len(x) >= 1, "files", "no final geometry written", key)
    if x:
        v = [l.split() for l in open(x[0])]
        pos = np.array([[float(y) for y in l[1:4]] for l in v if len(l) == 4 and l[0] in ("H", "O")])
        rec.close(pos.reshape(P, -1), q * 0.529177210903, 1e-6, "files", "positions in the final file", key, atol=1e-8)
        v = np.loadtxt(x[0].replace(".xyz", ".ener"), ndmin=2)
        rec.close(v[:, 1], (fin[2] - shift) * 27.211386245988, 1e-6, "files", "energies in the final file", key, atol=1e-8)
        y = x[0].replace("FINAL_", "FINAL_forces_")
        v = [l.split() for l in open(y)]
        pos = np.array([[float(y) for y in l[1:4]] for l in v if len(l) == 4 and l[0] in ("H", "O")])
        rec.close(pos.reshape(P, -1), fin[3], 1e-6, "files", "forces in the final file", key, atol=1e-10)
    if final:
        y = latest("*instanton_FINAL.hess_*")
        rec.check(len(y) >= 1, "files", "no final Hessian written", key)
        if y:
            v = np.loadtxt(y[0]).reshape(N, P, N)
            for b in range(P):
                rec.close(v[:, b][np.ix_(act, act)], Hb[b][np.ix_(act, act)], 2e-3, "hessian", "Hessian of bead %d in the final file" % b, key, atol=2e-4 * np.abs(Hb[b]).max())


def dvr(V, L, T, npts=801):
    """Free and internal energy of a particle of unit mass in V, on a grid from L[0] to L[1]."""
    x = np.linspace(L[0], L[1], npts)
    d = x[1] - x[0]
    i = np.arange(npts)
    k = i[:, None] - i[None]
    with np.errstate(divide="ignore"):
        K = np.where(k == 0, np.pi**2 / 6, (-1.0) ** k / np.where(k == 0, 1, k) ** 2) / d**2
    e = np.linalg.eigvalsh(K + np.diag(V(x)))
    w = np.exp(-(e - e[0]) / T)
    return e[0] - T * np.log(w.sum()), (e * w).sum() / w.sum()


def run_imf(case, rec):
    """Anharmonic energies of independent modes against a grid solution of each one-dimensional problem."""
    import contextlib
    import io

    from ipi.engine.simulation import Simulation
    from scipy.optimize import minimize

    rng = np.random.default_rng(case["cseed"])
    n = int(rng.choice([1, 2]))
    m = M * rng.uniform(1, 8, n)
    p = dict(vfpes.DEFAULTS)
    p.update(ka=float(rng.uniform(0.02, 0.1)), k=0.1, r0=2.2, g=float(rng.choice([0.0, 0.05])), k4=float(rng.choice([0.0, 0.02, 0.1])), c3=float(rng.choice([0.0, 0.01])), shift=float(rng.choice([0.0, -1.5])))
    p = {k: float("%.6g" % v) for k, v in p.items()}
    h = np.diag([40.0, 41.0, 42.0])
    g = dict(h=h, m=m, names=["H"] * n)
    x0 = rng.normal(0, 0.1, 3 * n) + (np.array([-1, 0, 0, 1, 0, 0.0]) if n == 2 else 0)
    fun = lambda x: (lambda a: (a[0][0], -a[1][0]))(c20.evaluate(g, p, x))
    x0 = minimize(fun, x0, jac=True, method="BFGS", options=dict(gtol=1e-12)).x
    H = c20.hessian(g, p, x0)
    sm = np.sqrt(np.repeat(m, 3))
    D = H / np.outer(sm, sm)
    w2, U = np.linalg.eigh(D)
    if w2[0] < 1e-7 or np.diff(np.sqrt(w2)).min() < 1e-5:
        raise Inconclusive("soft or degenerate modes")
    T = float(rng.uniform(0.3, 3.0)) * 1e-3
    ath = 1e-6
    npr = int(rng.choice([1, 1, 2]))
    body = sg.tag("dynmat", sg.arr(D), shape="(%d,%d)" % D.shape) + sg.tag("asr", "none") + sg.tag("fnmrms", "0.2") + sg.tag("nbasis", "20") + sg.tag("nevib", "30") + sg.tag("athresh", repr(ath)) + sg.tag("nint", "601")
    if npr > 1:
        body += sg.tag("nprim", str(npr))
    g.update(q=x0[None], p=np.zeros((1, 3 * n)))
    mot = sg.tag("normalmodes", body, mode="imf") + sg.tag("fixcom", "False")
    xml = c20.document(g, p, mot, "normalmodes", 100).replace(repr(300 * sg.KELVIN), repr(T))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sim = Simulation.load_from_xml(xml, custom_verbosity="low")
        sim.run()
        done = bool(sim.finished)
        cg.end(sim)
    key = "imf/n%d/%s/npr%d" % (n, "quartic" if p["k4"] else "soft", npr)
    rec.check(done, "ended", "the analysis did not end by itself", key)
    v0 = fun(x0)[0]
    soft = False
    A = E = 0.0
    hA = hE = 0.0
    for j in range(3 * n):
        w = np.sqrt(w2[j])
        fn = glob.glob("*.%d.qvf" % j)
        rec.check(len(fn) == 1, "files", "mode %d is missing" % j, key)
        if len(fn) != 1:
            continue
        y = np.loadtxt(fn[0], ndmin=2)
        # along the mode, of either sign
        best = None
        for s in (1, -1):
            e = s * U[:, j] / sm
            val = [fun(x0 + e * q * np.sqrt(npr)) for q in y[:, 0]]
            V = np.array([a[0] for a in val]) / npr
            F = np.array([-a[1] @ e for a in val]) / npr
            err = np.abs(y[:, 1] - (V - v0 / npr - 0.5 * w2[j] * y[:, 0] ** 2)).max()
            if best is None or err < best[0]:
                best = (err, V, F, e)
        err, V, F, e = best
        rec.check(err <= 1e-9 * max(1.0, np.abs(V - v0 / npr).max()), "mapped", "mode %d: potential wrong by %.3g" % (j, err), key)
        if npr == 1:
            rec.close(y[:, 2], F + w2[j] * y[:, 0], 1e-7, "mapped", "mode %d: forces along the mode" % j, key, atol=1e-9)
        L = (y[:, 0].min() * 1.15, y[:, 0].max() * 1.15)
        a, b = dvr(lambda z: np.array([fun(x0 + e * q * np.sqrt(npr))[0] / npr - v0 / npr for q in z]), L, T, 301)
        A += a
        E += b
        z = np.array([L[0], 0.02 * L[0], 0.02 * L[1], L[1]])
        c = np.array([fun(x0 + e * q * np.sqrt(npr))[0] - v0 for q in z]) / z**2
        soft = soft or max(c[0] / c[1], c[3] / c[2]) > 12
        hA += 0.5 * w + T * np.log(1 - np.exp(-w / T))
        hE += w * (0.5 + 1 / (np.exp(w / T) - 1))
    say = {}
    for l in out.getvalue().splitlines():
        if "@NM:" in l and "=" in l:
            a, b = l.split("@NM:")[1].split("=")
            try:
                say[a.strip()] = float(b)
            except ValueError:
                pass
    tol = 3 * n * ath * 20
    rec.close(say.get("Potential offset", np.nan), v0 / npr, 1e-6, "energies", "potential offset", key, atol=1e-8)
    rec.close(say.get("HAR free energy", np.nan), hA / npr + v0 / npr, 1e-6, "energies", "harmonic free energy", key, atol=1e-7)
    rec.close(say.get("HAR internal energy", np.nan), hE / npr + v0 / npr, 1e-6, "energies", "harmonic internal energy", key, atol=1e-7)
    if soft:  # the basis of 30 harmonic states is too small for such modes
        rec.note("very anharmonic mode")
        return
    rec.close(say.get("IMF free energy correction", np.nan), (A - hA) / npr, 1e-4, "energies", "anharmonic free energy", key, atol=tol)
    rec.close(say.get("IMF internal energy correction", np.nan), (E - hE) / npr, 1e-3, "energies", "anharmonic internal energy", key, atol=5 * tol)


def run(case, rec):
    {"inst": run_inst, "imf": run_imf}[case["kind"]](case, rec)
