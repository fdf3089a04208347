"""C10: constant-pressure and constant-stress dynamics."""
import numpy as np

from checks import c07_forces as c07
from checks import c08_integrators as c08
from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C10"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitor: trajectories of the real barostats against independently integrated equations of motion, the Jacobian of a step against the change of the NPT/NsT density, order of the conserved quantity, and monitors of the frozen cell components"
NOTE = "average pressure at equilibrium is decided by the invariance of the NPT density (Jacobian of one step), not by long averages; the thorough tier adds exact sampling of ideal gases"
RULE = (
    "each execution builds one random constant-pressure or constant-stress simulation (isotropic, Suzuki-Chin, flexible, anisotropic; beads, MTS, bias, "
    "contraction, cell constraints, splittings); monitors: positions, momenta, cell and cell momentum against the equations of motion (second-order convergence), "
    "log|Jacobian| of a step = change of the measure term, conservation order, scaled coordinates and frozen components; distinct counts configurations"
)
ASSUMPTIONS = [
    "potentials are smooth, analytic, and time steps within the asymptotic regime",
    "a fixed cell component means that this component of the strain rate vanishes; diagonal entries, and off-diagonal ones of cells where they are zero, then stay as they are",
    "fixed diagonal components are left out of the conservation monitor: known finding econs-fixed-diagonal of C08",
]
TIMEOUT = {"quick": 300, "thorough": 900}
REQUIRE = {"eom": 20, "density": 8, "order_econs": 10, "scaled": 8, "frozen": 20}
ALLOW = ("mts", "multi", "contraction", "bias", "hweights", "baoab", "nmmodes", "fixcom")


def cases(tier, seed):
    f = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("eom", 24), ("density", 12), ("traj", 24), ("scaled", 10), ("frozen", 14)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, cseed=sub_seed(seed, "c10", kind, i), tier=tier) for i in range(n * f)]
    if tier == "thorough":
        out += [dict(name="gas_%d" % i, kind="gas", cseed=sub_seed(seed, "c10", "gas", i), tier=tier) for i in range(16)]
    return out


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    if case["kind"] == "traj":
        return traj(case, rec)
    globals()["k_" + case["kind"]](case, rec, rng)


def traj(case, rec):
    rng = np.random.default_rng(case["cseed"])
    keep = c08.make

    def make(r, modes, **kw):
        s = keep(r, ("npt", "npt", "nst", "scnpt"), **kw)
        b = s["baro"]
        if b.get("hfix"):
            b["hfix"] = [x for x in b["hfix"] if x not in ("xx", "yy", "zz")]
        return s

    c08.make = make
    try:
        c08.run_traj(case, rec)
    finally:
        c08.make = keep


def kick(rng, s, spec):
    """Thermal velocity of the cell."""
    b = s.motion.barostat
    kt = spec["temp"] * spec["nbeads"]
    if hasattr(b, "p6"):
        b.p6 = np.sqrt(kt * sg.A(b.m6)) * rng.standard_normal(6)
        b.pconstraints()
    else:
        b.p = np.sqrt(kt * sg.A(b.m)) * rng.standard_normal(1)
    return sg.A(b.p)


def k_eom(case, rec, rng):
    from scipy.integrate import solve_ivp

    spec = c08.make(rng, ("npt", "npt", "nst"), allow=tuple(x for x in ALLOW if x != "nmmodes"), natoms=int(rng.integers(2, 4)), nbeads=int(rng.choice([1, 1, 2, 3, 4])))
    spec["baro"]["tau"] = float(rng.choice([200.0, 600.0]))
    key = cg.label(spec)
    g = c08.prep_geom(spec)
    n, nat = spec["nbeads"], spec["natoms"]
    kt = n * spec["temp"]
    dt, ns = 4.0, 16
    A = sg.A
    m3 = np.repeat(g["m"], 3)
    wts = [c["weight"] * (sum(c["mts"]) if c.get("mts") else 1.0) for c in spec["comps"]]
    hw = spec.get("hweights") or [1.0] * len(wts)
    orc = c07.Oracle(spec, spec["comps"], [w * x for w, x in zip(wts, hw)])
    ob = c07.Oracle(spec, spec["bias"], spec["bweights"]) if spec.get("bias") else None
    lap = c08.laplacian(n, True)
    iso = spec["baro"]["mode"] == "isotropic"
    W = spec["baro"]["tau"] ** 2 * nat * kt * (3 if iso else 1)
    fix = spec["baro"].get("hfix", [])
    mask = np.triu(np.ones((3, 3)))
    ax = "xyz"
    for f in fix:
        for c in ["xy", "xz", "yz"] if f == "offdiagonal" else [f]:
            i, j = sorted((ax.index(c[0]), ax.index(c[1])))
            mask[i, j] = 0
    L = np.diag([mask[i].sum() for i in range(3)])
    h0 = np.asarray(spec["baro"]["h0"]) if spec["baro"].get("h0") is not None else None
    volc = spec["baro"].get("volc")

    def rhs(t, y):
        q, p = y[: 2 * n * 3 * nat].reshape(2, n, 3 * nat)
        h = y[2 * n * 3 * nat : 2 * n * 3 * nat + 9].reshape(3, 3)
        bp = y[2 * n * 3 * nat + 9 :].reshape(3, 3) if not iso else y[2 * n * 3 * nat + 9] * np.eye(3)
        v = bp / W
        _, F, vir = orc.total(q, h)
        if ob:
            _, fb, vb = ob.total(q, h)
            F, vir = F + fb, vir + vb
        vol = np.linalg.det(h)
        qc, pc = q.mean(axis=0), p.mean(axis=0)
        d = (q - qc).reshape(n, nat, 3)
        f3 = F.reshape(n, nat, 3)
        # centroid virial: response of the energy to a strain of the centroids
        st = vir - np.einsum("bai,baj->ij", f3, d) + n * np.einsum("ai,aj->ij", (pc / m3).reshape(nat, 3), pc.reshape(nat, 3))
        dq = p / m3
        dp = F - n * n * spec["temp"] ** 2 * m3 * (lap @ q)
        dq = dq + np.dot(qc.reshape(nat, 3), v.T).ravel()
        dp = dp - np.dot(pc.reshape(nat, 3), v.T if not iso else v).ravel()
        dh = v @ h
        if iso:
            db = np.array([np.trace(st) - 3 * n * vol * spec["pressure"] + 3 * kt])
        else:
            if spec["mode"] == "nst":
                e = h @ np.linalg.inv(h0)
                pext = e @ np.asarray(spec["stress"]) @ e.T * np.linalg.det(h0)
            else:
                pext = spec["pressure"] * vol * np.eye(3)
            db = (np.triu(st) - n * np.triu(pext) + kt * L) * mask
            if volc:
                db = db - np.eye(3) * np.trace(db) / 3
        return np.concatenate([dq.ravel(), dp.ravel(), dh.ravel(), np.ravel(db)])

    runs = []
    for f in (1, 2):
        if spec["mode"] == "nst" and h0 is None:
            h0 = g["h"] * np.array([1.02, 0.98, 1.01])[:, None]
            spec["baro"]["h0"] = h0.tolist()
        sim, s = c08.load(spec, dt / f, g)
        kick(np.random.default_rng(case["cseed"] + 1), s, spec)
        if f == 1:
            y0 = np.concatenate([A(s.beads.q).ravel(), A(s.beads.p).ravel(), A(s.cell.h).ravel(), A(s.motion.barostat.p).ravel()])
        c08.roll(s, ns * f)
        runs.append([A(s.beads.q), A(s.beads.p), A(s.cell.h), A(s.motion.barostat.p)])
        cg.end(sim)
    if spec.get("fixcom"):
        pass  # translation-invariant forces: the centre of mass does not move
    sol = solve_ivp(rhs, (0, ns * dt), y0, method="DOP853", rtol=1e-10, atol=1e-12)
    y = sol.y[:, -1]
    N = n * 3 * nat
    ref = [y[:N], y[N : 2 * N], y[2 * N : 2 * N + 9], y[2 * N + 9 :]]
    for nm, a, b, r in zip(("q", "p", "h", "cell momentum"), runs[0], runs[1], ref):
        a, b = a.ravel(), b.ravel()
        fl = 1e-8 * max(np.abs(r).max(), 1e-3)
        e1, e2, ex = np.abs(a - r).max(), np.abs(b - r).max(), np.abs((4 * b - a) / 3 - r).max()
        rec.check(e2 <= 0.36 * e1 + fl and (ex <= 0.12 * e1 + fl or e2 <= 0.28 * e1 + fl), "eom", "[%s] %s against the equations of motion: error %.2e at dt, %.2e at dt/2, %.2e extrapolated" % (key, nm, e1, e2, ex), key=(nm, key))
    rec.sample(dict(config=key, error=[float(np.abs(a.ravel() - r).max()) for a, r in zip(runs[1], ref)]))


def k_density(case, rec, rng):
    """The compression of phase space by a step is the one the measure term of the conserved quantity stands for."""
    spec = c08.make(rng, ("npt", "npt", "nst"), allow=("mts", "multi", "baoab", "bias"), natoms=2, nbeads=int(rng.choice([1, 2])))
    b = spec["baro"]
    b["hfix"] = []
    b.pop("volc", None)
    b["tau"] = float(rng.choice([600.0, 1500.0]))
    spec["fixcom"] = False
    key = cg.label(spec)
    g = c08.prep_geom(spec)
    n, nat = spec["nbeads"], 2
    kt = n * spec["temp"]
    A = sg.A
    iu = np.triu_indices(3)
    iso = b["mode"] == "isotropic"
    sim, s = c08.load(spec, float(rng.choice([3.0, 8.0])), g)
    kick(np.random.default_rng(case["cseed"] + 1), s, spec)
    bar = s.motion.barostat
    h00 = A(s.cell.h)
    N = n * 3 * nat
    ps = np.sqrt(1000.0)
    bs = float(A(bar.m).ravel()[0]) * 1e-3

    def put(y):
        s.beads.q = y[:N].reshape(n, -1)
        s.beads.p = y[N : 2 * N].reshape(n, -1) * ps
        if iso:
            s.cell.h = h00 * (y[2 * N] / 1000.0) ** (1 / 3.0)
            bar.p = np.array([y[2 * N + 1] * bs])
        else:
            h, bp = np.zeros((3, 3)), np.zeros((3, 3))
            h[iu], bp[iu] = y[2 * N : 2 * N + 6], y[2 * N + 6 :] * bs
            s.cell.h = h
            bar.p = bp

    def get():
        h, bp = A(s.cell.h), A(bar.p)
        if iso:
            c = [1000.0 * np.linalg.det(h) / np.linalg.det(h00), float(bp.ravel()[0]) / bs]
        else:
            c = np.concatenate([h[iu], bp[iu] / bs])
        return np.concatenate([A(s.beads.q).ravel(), A(s.beads.p).ravel() / ps, c])

    y0 = get()
    M = len(y0)
    eps = 1e-4
    J = np.zeros((M, M))

    def mp(y):
        put(y)
        s.motion.step(0)
        return get()

    for i in range(M):
        d = np.zeros(M)
        d[i] = eps
        J[:, i] = (8 * (mp(y0 + d) - mp(y0 - d)) - (mp(y0 + 2 * d) - mp(y0 - 2 * d))) / (12 * eps)
    put(y0)
    c0, h0 = float(bar.cell_jacobian), A(s.cell.h)
    s.motion.step(0)
    dc = -(float(bar.cell_jacobian) - c0) / kt
    _, ld = np.linalg.slogdet(J)
    rec.check(abs(ld - dc) <= 1e-3 * abs(ld) + 1e-7 * M, "density", "[%s] log Jacobian of a step %.8f, but the measure term of the conserved quantity changes by %.8f kT" % (key, ld, dc), key=key)
    rec.check(abs(ld) > 1e-5, "density_seen", "[%s] nothing to see" % key)
    rec.sample(dict(config=key, logdet=float(ld), measure=dc))
    cg.end(sim)


def k_scaled(case, rec, rng):
    """Atoms at rest without forces keep their scaled centroids; internal modes do not see the cell."""
    spec = c08.make(rng, ("npt", "npt", "nst"), allow=("baoab", "nmmodes"), natoms=3)
    for c in spec["comps"]:
        c["pars"] = dict(k=0.0, g=0.0)
    spec["baro"]["tau"] = 1000.0
    spec["pressure" if spec["mode"] == "npt" else "_"] = 1e-4
    key = cg.label(spec)
    g = c08.prep_geom(spec)
    n = spec["nbeads"]
    g["p"] = g["p"] - g["p"].mean(axis=0)
    sim, s = c08.load(spec, 10.0, g)
    kick(rng, s, spec)
    A = sg.A
    free = dict(spec, mode="nve")
    for k in ("baro", "pressure", "stress"):
        free.pop(k, None)
    sim2, s2 = c08.load(free, 10.0, g)
    h0, q0 = A(s.cell.h), A(s.beads.qc).reshape(-1, 3)
    for i in range(12):
        s.motion.step(i)
        s2.motion.step(i)
    h1, q1 = A(s.cell.h), A(s.beads.qc).reshape(-1, 3)
    rec.check(np.abs(h1 - h0).max() > 1e-4, "moved", "[%s] the cell does not move" % key)
    s0, s1 = np.linalg.solve(h0, q0.T), np.linalg.solve(h1, q1.T)
    rec.close(s1, s0, 1e-9, "scaled", "[%s] scaled coordinates of atoms at rest change with the cell" % key, key=key)
    d1, d2 = A(s.beads.q) - A(s.beads.qc), A(s2.beads.q) - A(s2.beads.qc)
    if n > 1:
        rec.close(d1, d2, 1e-8, "scaled", "[%s] internal modes follow the cell" % key, key=("int", key))
    rec.close(A(s.beads.pc) / 30.0 + 1, np.ones(s.beads.natoms * 3), 1e-9, "scaled", "[%s] atoms at rest pick up momentum" % key)
    cg.end(sim)
    cg.end(sim2)


def k_frozen(case, rec, rng):
    """Frozen cell components and volumes, with everything thermostatted."""
    while True:
        spec = cg.rand_spec(rng, modes=("npt", "nst"), allow=("mts", "multi", "bias", "baoab"), nbeads=int(rng.choice([1, 2, 3])))
        if spec["baro"].get("hfix") or spec["baro"].get("volc"):
            break
    if rng.random() < 0.5:
        spec["triclinic"] = False
    spec["baro"]["tau"] = 2000.0
    key = cg.label(spec)
    sim = sg.load(cg.xml(spec, 20))
    s = sim.syslist[0]
    A = sg.A
    h0 = A(s.cell.h)
    ax = "xyz"
    fx = []
    for f in spec["baro"].get("hfix", []):
        for c in ["xy", "xz", "yz"] if f == "offdiagonal" else [f]:
            fx.append(tuple(sorted((ax.index(c[0]), ax.index(c[1])))))
    moved = 0.0
    for i in range(20):
        hp = A(s.cell.h)
        sim.run_step(i)
        h = A(s.cell.h)
        if not np.isfinite(h).all():
            rec.check(False, "frozen", "[%s] cell is not finite at step %d" % (key, i))
            break
        moved = max(moved, np.abs(h - h0).max())
        rec.check(abs(h[1, 0]) + abs(h[2, 0]) + abs(h[2, 1]) < 1e-12, "frozen", "[%s] cell is no longer upper triangular" % key)
        e = h @ np.linalg.inv(hp)
        for a, b in fx:
            if a == b:
                rec.check(abs(h[a, a] - h0[a, a]) < 1e-9 * h0[a, a], "frozen", "[%s] cell entry %s changed from %.10f to %.10f at step %d" % (key, ax[a] * 2, h0[a, a], h[a, a], i), key=("d", key))
            if a != b and np.abs(h0 - np.diag(np.diag(h0))).max() == 0 and all((x, y) in fx for x, y in ((0, 1), (0, 2), (1, 2))):
                rec.check(abs(h[a, b]) < 1e-12, "frozen", "[%s] off-diagonal cell entry %s%s grew to %g" % (key, ax[a], ax[b], h[a, b]), key=("o", key))
            lim = 1e-11
            if (a, b) == (0, 2) and (0, 1) not in fx and (1, 2) not in fx:
                lim += 0.1 * np.abs(e - np.eye(3)).max()  # xy and yz shears compose to a second-order xz one
            rec.check(abs(e[a, b] - (a == b)) < lim, "frozen", "[%s] the cell is strained along its fixed component %s%s: %g" % (key, ax[a], ax[b], e[a, b] - (a == b)), key=("e", key))
        if spec["baro"].get("volc"):
            rec.check(abs(np.linalg.det(h) / np.linalg.det(h0) - 1) < 1e-9, "frozen", "[%s] volume changes although it is constrained: %.3e" % (key, np.linalg.det(h) / np.linalg.det(h0) - 1), key=("v", key))
    if len(fx) < 3:
        rec.check(moved > 1e-7, "moved", "[%s] free components do not move" % key)
    cg.end(sim)


def k_gas(case, rec, rng):
    """Ideal gas: the volume has a Gamma(N+1) distribution."""
    from scipy import stats

    spec = cg.rand_spec(rng, modes=("npt",), thermos=["langevin"], natoms=int(rng.choice([2, 5, 9])), nbeads=1)
    spec["comps"] = [dict(pars=dict(k=0.0, g=0.0), weight=1.0, nbeads=0)]
    spec["baro"] = dict(mode="isotropic", tau=60.0, thermo=dict(kind="langevin", tau=60.0, mseed=1))
    spec["thermo"] = dict(kind="langevin", tau=60.0, mseed=1)
    spec["dt"] = 10.0
    nat = spec["natoms"]
    spec["pressure"] = float((nat + 1) * spec["temp"] / 1100.0)
    key = cg.label(spec)
    sim = sg.load(cg.xml(spec, 10))
    s = sim.syslist[0]
    v, pr = [], []
    for i in range(60000):
        s.motion.step(i)
        if i > 500:
            v.append(float(s.cell.V))
            pr.append(float(s.properties["pressure_md"][0]))
    v = np.array(v) * spec["pressure"] / spec["temp"]
    blk = v[: len(v) // 60 * 60].reshape(60, -1).mean(axis=1)
    z = (blk.mean() - (nat + 1)) / (blk.std(ddof=1) / np.sqrt(60))
    rec.check(abs(z) < 6.5, "gas", "[%s] <PV>/kT = %.3f, expected %d (z=%.1f)" % (key, blk.mean(), nat + 1, z), key=key)
    pv = np.array(pr) / spec["pressure"]
    blk = pv[: len(pv) // 60 * 60].reshape(60, -1).mean(axis=1)
    z = (blk.mean() - 1) / (blk.std(ddof=1) / np.sqrt(60))
    rec.check(abs(z) < 6.5, "gas", "[%s] <P>/Pext = %.3f (z=%.1f)" % (key, blk.mean(), z))
    cg.end(sim)
