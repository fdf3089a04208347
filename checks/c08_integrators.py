"""C08: reversibility, symplecticity, order and convergence of the integrators."""
import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed
from checks import c07_forces as c07

PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor over deterministic trajectories: reversal, symplectic Jacobian, Richardson analysis of the conserved quantity, and comparison with an independent high-order integration"
NOTE = "Random deterministic dynamics (all ensembles, both splittings, inner time steps, contraction, bias, Hamiltonian weights, open paths, bosons, frequency schemes, frozen atoms, fixed centre of mass) run in the real engine at dt and dt/2; error ratios decide the order, not a loose drift bound."
RULE = "each evaluation is one reversal, one order-of-accuracy ratio, one symplectic Jacobian or one comparison with the reference trajectory; distinct counts configuration signatures"
ASSUMPTIONS = ["smooth analytic potentials, time steps inside the asymptotic regime", "thermostats switched off (no thermostat given)"]
REQUIRE = {"reversal": 40, "order_econs": 40, "order_q": 20, "reference": 10, "symplectic": 4, "time": 40}
TIMEOUT = {"quick": 300, "thorough": 600}

ALLOW = ("open", "bosons", "fixcom", "fixatoms", "mts", "multi", "contraction", "bias", "hweights", "nmmodes", "prop", "baoab")


def cases(tier, seed):
    n = {"quick": (100, 60, 10), "thorough": (1500, 800, 100)}[tier]
    out = [dict(name="traj_%d" % i, kind="traj", cseed=sub_seed(seed, "c08", i)) for i in range(n[0])]
    out += [dict(name="ref_%d" % i, kind="ref", cseed=sub_seed(seed, "c08r", i)) for i in range(n[1])]
    out += [dict(name="sympl_%d" % i, kind="sympl", cseed=sub_seed(seed, "c08s", i)) for i in range(n[2])]
    return out


PAIR = dict(k=0.06, r0=2.6, g=0.02)


def make(rng, modes, allow=ALLOW, **kw):
    spec = cg.rand_spec(rng, modes=modes, thermos=["langevin"], allow=allow, cellthermo=False, **kw)
    spec.pop("thermo", None)
    if spec.get("baro"):
        spec["baro"].pop("thermo", None)
        spec["baro"]["tau"] = 1000.0
        if spec.get("pressure") == 0.0:
            spec["pressure"] = 1e-5
    if spec["mode"] in ("sc", "scnpt"):
        for c in spec["comps"]:
            c["fd"] = -1e-3
            c["nbeads"] = 0
    nm = spec.get("nm") or {}
    if nm.get("propagator") == "bab" or nm.get("bosons"):
        # the inner springs are integrated: keep them resolved
        nm["propagator"] = "bab"
        nm["nmts"] = 10
    if spec.get("baro"):
        # physical potentials: invariant under joint rotation of atoms and cell
        for c in spec["comps"] + spec.get("bias", []):
            for k in ("k4", "c3"):
                c["pars"].pop(k, None)
    if spec.get("fixcom"):
        # momentum is conserved only by translation-invariant forces
        for c in spec["comps"] + spec.get("bias", []):
            for k in ("kt", "k4", "c3", "per"):
                c["pars"].pop(k, None)
            if "kt" in c["pars"]:
                c["pars"].pop("kt")
        for i, c in enumerate(spec["comps"][1:] + spec.get("bias", [])):
            c["pars"].update(k=0.01, r0=2.0 + 0.3 * i, g=0.002)
    return spec


def prep_geom(spec):
    g = cg.geom(spec)
    m3 = np.repeat(g["m"], 3)
    if spec.get("fixatoms"):
        for i in spec["fixatoms"]:
            g["p"][:, 3 * i : 3 * i + 3] = 0
    for i in spec.get("fixatoms_dof", []):
        g["p"][:, i] = 0
    if spec.get("fixcom"):
        p = g["p"].reshape(spec["nbeads"], -1, 3)
        v = p.sum(axis=(0, 1)) / (spec["nbeads"] * g["m"].sum())
        p -= g["m"][None, :, None] * v
        g["p"] = p.reshape(spec["nbeads"], -1)
    if spec["mode"] == "nvt-cc":
        g["p"] -= g["p"].mean(axis=0)
    return g


def load(spec, dt, g):
    sp = dict(spec)
    sp["dt"] = dt
    x = sg.simulation(
        [cg.system_xml(sp, g=g)], cg.ff_xml(sp), 1, seed=spec["seed"], outputs=""
    ).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    sim = sg.load(x)
    return sim, sim.syslist[0]


def baro_p(s, val=None):
    b = getattr(s.motion, "barostat", None)
    if b is None or not hasattr(b, "p"):
        return None
    if val is not None:
        b.p = val
    return sg.A(b.p)


def roll(s, n, acc=None):
    """n steps; returns econs before and after every step"""

    def ebath():
        b = getattr(s.motion, "barostat", None)
        t = getattr(b, "thermostat", None)
        return float(getattr(t, "ethermo", 0.0))

    e = [float(s.ensemble.econs)]
    a = [ebath()]
    for i in range(n):
        s.motion.step(i)
        e.append(float(s.ensemble.econs))
        a.append(ebath())
    if acc is not None:
        acc.append(np.array(a))
    return np.array(e)


def state(s):
    A = sg.A
    d = dict(q=A(s.beads.q), p=A(s.beads.p), h=A(s.cell.h))
    b = baro_p(s)
    if b is not None and np.size(b):
        d["bp"] = b
    return d


def run_traj(case, rec):
    rng = np.random.default_rng(case["cseed"])
    spec = make(rng, ("nve", "nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"))
    key = cg.label(spec)
    g = prep_geom(spec)
    rec.sample(dict(case=case["name"], sig=key))
    bos = bool((spec.get("nm") or {}).get("bosons"))
    dt = 2.0 if bos or spec["mode"] in ("sc", "scnpt") else 4.0
    n = 24
    runs = []
    acc = []
    for f in (1, 2, 4):
        sim, s = load(spec, dt / f, g)
        s0 = state(s)
        e = roll(s, n * f, acc=acc)
        runs.append((e, state(s)))
        rec.close(float(s.ensemble.time), n * dt, 1e-10, "time", "%s: time after %d steps" % (key, n * f), key)
        if f == 1:
            # reversal
            s.beads.p = -sg.A(s.beads.p)
            bp = baro_p(s)
            if bp is not None and np.size(bp):
                baro_p(s, -bp)
            roll(s, n)
            s1 = state(s)
            tol = 1e-7 if spec["mode"] in ("sc", "scnpt") else 2e-9
            for k in s0:
                sgn = -1 if k in ("p", "bp") else 1
                sc = np.max(np.abs(s0["p"])) if k == "p" else (np.max(np.abs(s0["q"])) if k in "qh" else max(np.max(np.abs(runs[0][1]["bp"])), 1e-12))
                rec.close(sgn * s1[k], s0[k], 0, "reversal", "%s: %s does not come back" % (key, k), key, atol=tol * sc)
        cg.end(sim)
    E = [runs[0][0] - runs[0][0][0], (runs[1][0] - runs[1][0][0])[::2], (runs[2][0] - runs[2][0][0])[::4]]
    esc = 1e-13 * max(1.0, abs(runs[0][0][0])) * 50
    if spec["mode"] in ("sc", "scnpt"):
        # the |f|^2 force is a finite difference, good to about 1e-6 of its size
        esc += 3e-8 * np.max(np.abs(np.diff(runs[0][0]))) + 1e-11
    diag = [x for x in (spec.get("baro") or {}).get("hfix", []) if x in ("xx", "yy", "zz")]
    if diag:
        # known finding: the stress on a fixed diagonal component of the cell adds to
        # the conserved quantity; what it adds is what ends up in the accumulator of
        # the (absent) cell thermostat
        order(rec, E, "econs_fixed_diagonal", key, esc)
        E = [x - (y - y[0])[:: 2**i] for i, (x, y) in enumerate(zip(E, acc))]
    order(rec, E, "order_econs", key, esc)
    Q = [np.concatenate([r[1]["q"].ravel(), r[1]["h"].ravel()]) for r in runs]
    d1, d2 = Q[0] - Q[1], Q[1] - Q[2]
    rec.close(d2, d1 / 4.0, 0, "order_q", "%s: positions do not converge with the square of the time step (%.2e, %.2e)" % (key, np.abs(d1).max(), np.abs(d2).max()), key, atol=0.12 * np.abs(d1).max() + 1e-10)


def order(rec, E, kind, key, floor):
    """E(dt), E(dt/2), E(dt/4) at the same times: errors of even order."""
    a = np.abs(E[0]).max()
    b = np.abs(E[1]).max()
    c = np.abs(E[2]).max()
    # in the asymptotic regime E(dt/4) = E(dt/2)/4
    r = np.abs(E[2] - E[1] / 4.0).max()
    rec.check(
        r <= 0.15 * b + floor and c <= 0.35 * b + floor,
        kind,
        "%s: conserved quantity deviates by %.3e, %.3e, %.3e at dt, dt/2, dt/4 (second order expected, floor %.1e)" % (key, a, b, c, floor),
        key,
    )


# ------------------------------------------------------------------ reference
def laplacian(n, closed):
    m = np.zeros((n, n))
    for j in range(n if closed else n - 1):
        k = (j + 1) % n
        if k == j:
            continue
        m[j, j] += 1
        m[k, k] += 1
        m[j, k] -= 1
        m[k, j] -= 1
    return m


def run_ref(case, rec):
    from scipy.integrate import solve_ivp

    rng = np.random.default_rng(case["cseed"])
    spec = make(rng, ("nve", "nve", "nvt", "sc", "nvt-cc"), allow=tuple(x for x in ALLOW if x not in ("bosons",)), natoms=int(rng.integers(2, 4)))
    key = cg.label(spec)
    g = prep_geom(spec)
    n, nat = spec["nbeads"], spec["natoms"]
    dt = 4.0 if spec["mode"] != "sc" else 2.0
    ns = 16
    sim, s = load(spec, dt, g)
    A = sg.A
    opens = (spec.get("nm") or {}).get("open", [])
    dyn = A(s.nm.dynm3)  # validated by C06
    m3 = np.repeat(g["m"], 3)
    w2 = (n * spec["temp"]) ** 2
    wts = [c["weight"] * (sum(c["mts"]) if c.get("mts") else 1.0) for c in spec["comps"]]
    orc = c07.Oracle(spec, spec["comps"], wts)
    hw = spec.get("hweights") or [1.0] * len(wts)
    ob = c07.Oracle(spec, spec["bias"], spec["bweights"]) if spec.get("bias") else None
    h = g["h"]
    Lc, Lo = laplacian(n, True), laplacian(n, False)
    T = [c07.modes(n, i not in opens) for i in range(nat)]
    # rows of T are sorted by frequency, dyn follows i-PI's own ordering: the
    # dynamical mass only depends on the frequency, so match by frequency
    sc = spec["mode"] == "sc"
    c1 = np.where(np.arange(n) % 2 == 0, -1.0 / 3, 1.0 / 3)[:, None]
    c2 = np.where(np.arange(n) % 2 == 0, 0.0, 1.0)[:, None] / w2 / 9.0
    fixed = np.zeros(3 * nat, bool)
    for i in spec.get("fixatoms", []):
        fixed[3 * i : 3 * i + 3] = True
    for i in spec.get("fixatoms_dof", []):
        fixed[i] = True

    def force(q):
        F = orc.total(q, h)[1]
        out = F.copy()
        if sc:
            dl = 1e-3 / np.sqrt(np.mean((F / m3) ** 2))
            F1 = orc.total(q + dl * F / m3, h)[1]
            F2 = orc.total(q - dl * F / m3, h)[1]
            out = F * (1 + c1) - c2 * 2 * (F1 - F2) / (2 * dl)
        out += orc.total(q, h, [(hw[k] - 1) * wts[k] for k in range(len(wts))])[1]
        if ob:
            out += ob.total(q, h)[1]
        for i in range(nat):
            L = Lo if i in opens else Lc
            sl = slice(3 * i, 3 * i + 3)
            out[:, sl] -= m3[sl] * w2 * (L @ q[:, sl])
        return out

    def inv_mass(p):
        v = np.zeros_like(p)
        from ipi.utils import nmtransform as nt

        for i in range(nat):
            M = MM[i]
            sl = slice(3 * i, 3 * i + 3)
            v[:, sl] = M.T @ ((M @ p[:, sl]) / dyn[:, sl])
        return v

    from ipi.utils import nmtransform as nt  # transforms are validated by C06

    MM = []
    for i in range(nat):
        MM.append(nt.mk_o_nm_matrix(n) if i in opens else nt.mk_nm_matrix(n))

    def rhs(t, y):
        q, p = y.reshape(2, n, 3 * nat)
        f = force(q)
        v = inv_mass(p)
        f[:, fixed] = 0
        v[:, fixed] = 0
        if spec["mode"] == "nvt-cc":
            f = f - f.mean(axis=0)
            v = v - v.mean(axis=0)
        return np.concatenate([v.ravel(), f.ravel()])

    y0 = np.concatenate([A(s.beads.q).ravel(), A(s.beads.p).ravel()])
    sol = solve_ivp(rhs, (0, ns * dt), y0, method="DOP853", rtol=1e-10, atol=1e-12)
    qr, pr = sol.y[:, -1].reshape(2, n, 3 * nat)
    roll(s, ns)
    q1, p1 = A(s.beads.q), A(s.beads.p)
    cg.end(sim)
    sim, s = load(spec, dt / 2, g)
    roll(s, 2 * ns)
    q2, p2 = A(s.beads.q), A(s.beads.p)
    cg.end(sim)
    for nm, a, b, r, fl in (("q", q1, q2, qr, 1e-8), ("p", p1, p2, pr, 1e-8 * np.abs(pr).max())):
        e1, e2 = np.abs(a - r).max(), np.abs(b - r).max()
        ex = np.abs((4 * b - a) / 3 - r).max()
        fl = fl * (30 if sc else 1)
        rec.check(
            ex <= 0.1 * e1 + fl and e2 <= 0.35 * e1 + fl,
            "reference",
            "%s: %s against the equations of motion: error %.2e at dt, %.2e at dt/2, %.2e extrapolated" % (key, nm, e1, e2, ex),
            key,
        )


def run_sympl(case, rec):
    rng = np.random.default_rng(case["cseed"])
    spec = make(rng, ("nve", "nvt", "sc"), allow=tuple(x for x in ALLOW if x not in ("fixcom", "fixatoms")), nbeads=2, natoms=2)
    key = "J:" + cg.label(spec)
    g = prep_geom(spec)
    sim, s = load(spec, 8.0, g)
    A = sg.A
    n, n3 = g["q"].shape
    N = n * n3
    q0, p0 = A(s.beads.q), A(s.beads.p)
    sp = np.sqrt(1000.0)

    def mp(y):
        s.beads.q = y[:N].reshape(n, n3)
        s.beads.p = y[N:].reshape(n, n3) * sp
        s.motion.step(0)
        return np.concatenate([A(s.beads.q).ravel(), A(s.beads.p).ravel() / sp])

    y0 = np.concatenate([q0.ravel(), p0.ravel() / sp])
    eps = 1e-4
    J = np.zeros((2 * N, 2 * N))
    for i in range(2 * N):
        d = np.zeros(2 * N)
        d[i] = eps
        J[:, i] = (8 * (mp(y0 + d) - mp(y0 - d)) - (mp(y0 + 2 * d) - mp(y0 - 2 * d))) / (12 * eps)
    O = np.zeros((2 * N, 2 * N))
    O[:N, N:] = np.eye(N)
    O[N:, :N] = -np.eye(N)
    tol = 1e-6 if spec["mode"] != "sc" else 1e-4
    rec.close(J.T @ O @ J, O, tol, "symplectic", "%s: one step is not symplectic" % key, key)
    cg.end(sim)


def run(case, rec):
    {"traj": run_traj, "ref": run_ref, "sympl": run_sympl}[case["kind"]](case, rec)
