"""C11: frozen atoms, fixed centre of mass, geometric constraints, and the count of degrees of freedom."""
import numpy as np

from checks import c07_forces as c07
from checks import c08_integrators as c08
from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C11"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitor: every step of random dynamics and optimisations is watched for motion, momentum or noise in frozen degrees of freedom; constrained trajectories are compared with independently integrated constrained equations of motion; temperature estimators are averaged exactly over the constrained momentum distribution"
NOTE = "geometric constraints: classical NVE and NVT, distances, angles and Eckart conditions in any grouping the engine accepts"
RULE = (
    "each execution builds one random simulation with frozen atoms or degrees of freedom, a fixed centre of mass or geometric constraints, and watches every step; "
    "an evaluation is one comparison of positions, momenta, constraint values, velocities, estimators or conserved energy with its oracle; distinct counts configurations"
)
ASSUMPTIONS = [
    "with a barostat, frozen atoms follow the strain of the cell: what stays fixed are their scaled coordinates",
    "forces on systems with a fixed centre of mass are translation invariant in constant-pressure runs",
    "geometric constraints that share atoms are grouped, as the documentation requires",
]
TIMEOUT = {"quick": 300, "thorough": 900}
REQUIRE = {"frozen_q": 100, "frozen_p": 100, "com": 60, "manifold": 60, "velocity": 60, "reference": 6, "temperature": 60, "optim": 10, "order": 6, "dof": 20}


def cases(tier, seed):
    f = 3 if tier == "quick" else 20
    out = []
    for kind, n in (("frozen", 30), ("com", 20), ("temp", 40), ("constr", 24), ("cref", 16), ("optim", 14), ("dof", 18)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c11", kind, i)) for i in range(n * f)]
    return out


def run(case, rec):
    globals()["k_" + case["kind"]](case, rec, np.random.default_rng(case["cseed"]))


def fixed_dofs(spec):
    d = list(spec.get("fixatoms_dof", []))
    for i in spec.get("fixatoms", []):
        d += [3 * i, 3 * i + 1, 3 * i + 2]
    return np.array(sorted(d), int)


# ------------------------------------------------------------ frozen atoms
def k_frozen(case, rec, rng):
    while True:
        spec = cg.rand_spec(rng, modes=("nve", "nvt", "nvt", "nvt-cc", "sc", "npt"), allow=("open", "mts", "multi", "contraction", "bias", "hweights", "nmmodes", "prop", "baoab"), natoms=int(rng.integers(3, 7)))
        if "nm_gle_g" not in str(spec.get("thermo")):
            break
    if rng.random() < 0.5:
        spec["fixatoms"] = sorted(int(x) for x in rng.choice(spec["natoms"], int(rng.integers(1, spec["natoms"] - 1)), replace=False))
    else:
        spec["fixatoms_dof"] = sorted(int(x) for x in rng.choice(3 * spec["natoms"], int(rng.integers(1, 6)), replace=False))
    npt = bool(spec.get("baro"))
    if npt:
        spec["baro"]["mode"] = "isotropic"
        spec["baro"].pop("hfix", None)
        spec["baro"].pop("volc", None)
    key = cg.label(spec)
    fix = fixed_dofs(spec)
    fcom = bool(rng.random() < 0.5)  # the flag must be ignored when atoms are frozen
    x = cg.xml(dict(spec, fixcom=fcom), 10)
    sim = sg.load(x)
    s = sim.syslist[0]
    A = sg.A
    free = np.setdiff1d(np.arange(3 * spec["natoms"]), fix)
    q0, h0 = A(s.beads.q), A(s.cell.h)
    pn = A(s.beads.p)
    rec.check(np.abs(pn[:, fix]).max() == 0, "frozen_p", "[%s] frozen atoms start with momentum %g" % (key, np.abs(pn[:, fix]).max()), key=("p0", key))
    moved = 0.0
    for i in range(8):
        sim.run_step(i)
        q, p = A(s.beads.q), A(s.beads.p)
        if not npt:
            rec.check(np.abs(q[:, fix] - q0[:, fix]).max() <= 1e-12 * max(1.0, np.abs(q0).max()), "frozen_q", "[%s] frozen coordinates moved by %g at step %d" % (key, np.abs(q[:, fix] - q0[:, fix]).max(), i), key=("q", key))
        else:
            sc = (np.linalg.det(A(s.cell.h)) / np.linalg.det(h0)) ** (1 / 3.0)
            qc, qc0 = q.mean(axis=0)[fix], q0.mean(axis=0)[fix]
            rec.check(np.abs(qc - sc * qc0).max() <= 1e-9, "frozen_q", "[%s] frozen coordinates do not follow the cell: off by %g at step %d" % (key, np.abs(qc - sc * qc0).max(), i), key=("q", key))
        rec.check(np.abs(p[:, fix]).max() <= 1e-10, "frozen_p", "[%s] frozen coordinates have momentum %g at step %d" % (key, np.abs(p[:, fix]).max(), i), key=("p", key))
        moved = max(moved, np.abs(q[:, free] - q0[:, free]).max())
    rec.check(moved > 1e-6, "moved", "[%s] nothing moves" % key)
    cg.end(sim)


# ------------------------------------------------------------ centre of mass
def k_com(case, rec, rng):
    spec = cg.rand_spec(rng, modes=("nve", "nvt", "nvt", "npt", "nst", "sc", "scnpt"), allow=("bosons", "open", "mts", "multi", "contraction", "hweights", "nmmodes", "prop", "baoab"))
    spec["fixcom"] = True
    # an external field pulls on the centre of mass, which has to stay all the same
    field = case["i"] % 2 == 1 and not spec.get("baro")
    for c in spec["comps"]:
        for k in ("kt", "k4", "c3", "per"):
            if not field:
                c["pars"].pop(k, None)
    if len(spec["comps"]) > 1 and not field:
        spec["comps"][1]["pars"].update(k=0.01, r0=2.2)
    if spec.get("baro"):
        spec["baro"]["tau"] = 3000.0
    key = cg.label(spec) + ("/field" if field else "")
    sim = sg.load(cg.xml(spec, 10))
    s = sim.syslist[0]
    A = sg.A
    m3 = np.repeat(A(s.beads.m), 3)
    ps = np.sqrt((m3 * spec["temp"] * spec["nbeads"]).sum())

    def com(x):
        return x.reshape(spec["nbeads"], -1, 3).sum(axis=(0, 1))

    def xcom():
        return com(A(s.beads.q) * m3) / m3.reshape(-1, 3).sum(axis=0) / spec["nbeads"]

    rec.check(np.abs(com(A(s.beads.p))).max() <= 1e-10 * ps, "com", "[%s] centre of mass starts with momentum" % key, key=("0", key))
    x0 = xcom()
    for i in range(8):
        sim.run_step(i)
        P = com(A(s.beads.p))
        rec.check(np.abs(P).max() <= 1e-9 * ps, "com", "[%s] centre of mass momentum %g at step %d" % (key, np.abs(P).max(), i), key=("p", key))
        if not spec.get("baro"):
            rec.check(np.abs(xcom() - x0).max() <= 1e-8, "com", "[%s] centre of mass moved by %g at step %d" % (key, np.abs(xcom() - x0).max(), i), key=("x", key))
    cg.end(sim)


# ------------------------------------------------------------ temperature
def k_temp(case, rec, rng):
    """<T> over the exact distribution of the momenta, which is Gaussian: sum of the estimator over the columns of a root of the covariance."""
    if case["i"] % 4 == 3:
        return temp_constr(case, rec, rng)
    while True:
        spec = cg.rand_spec(rng, modes=("nvt", "nvt", "nvt-cc", "npt"), allow=("nmmodes", "open", "prop"), natoms=int(rng.integers(3, 6)), nbeads=int(rng.choice([1, 1, 2, 3, 4])))
        if "nm_gle_g" not in str(spec.get("thermo")):
            break
    how = ["none", "com", "atoms", "dof"][int(rng.integers(4))]
    if spec.get("baro"):
        how = ["none", "com"][int(rng.integers(2))]
    if spec["mode"] == "nvt-cc" and how == "com":
        how = "none"
    spec["fixcom"] = how == "com"
    if how == "atoms":
        spec["fixatoms"] = sorted(int(x) for x in rng.choice(spec["natoms"], int(rng.integers(1, spec["natoms"] - 1)), replace=False))
    if how == "dof":
        spec["fixatoms_dof"] = sorted(int(x) for x in rng.choice(3 * spec["natoms"], int(rng.integers(1, 6)), replace=False))
    key = cg.label(spec)
    sim = sg.load(cg.xml(spec, 10))
    s = sim.syslist[0]
    A = sg.A
    n, nat = spec["nbeads"], spec["natoms"]
    fix = fixed_dofs(spec)
    m3 = np.repeat(A(s.beads.m), 3)
    dyn = A(s.nm.dynm3)
    kt = n * spec["temp"]
    names = [str(x) for x in s.beads.names]
    sels = ["temperature", "temperature(atom=%d)" % int(rng.integers(nat)), "temperature(%s)" % names[0]]
    if not (spec.get("nm") or {}).get("open"):
        sels += ["temperature(nm=0)"] + (["temperature(nm=%d)" % int(rng.integers(1, n))] if n > 1 else [])
    cols = []
    for b in range(n):
        for k in range(3 * nat):
            pn = np.zeros((n, 3 * nat))
            pn[b, k] = np.sqrt(kt * dyn[b, k])
            if k in fix or (spec["mode"] == "nvt-cc" and b == 0):
                continue
            s.nm.pnm = pn
            p = A(s.beads.p)
            if spec["fixcom"]:
                v = p.reshape(-1, 3).sum(axis=0) / (n * m3[::3].sum())
                p = p - np.tile((m3.reshape(-1, 3) * v).ravel(), (n, 1))
            cols.append(p)
    acc = {k: 0.0 for k in sels}
    s.beads.p = np.zeros((n, 3 * nat))
    base = {k: float(s.properties[k][0]) for k in sels}
    for p in cols:
        s.beads.p = p
        for k in sels:
            acc[k] += float(s.properties[k][0]) - base[k]
    for k in sels:
        t = acc[k] + base[k]
        rec.close(t / spec["temp"], 1.0, 1e-8, "temperature", "[%s] average of %s over the target distribution of momenta, in units of the ensemble temperature" % (key, k), key=(k.split("(")[-1][:4], how, spec["mode"]))
    cg.end(sim)


# ------------------------------------------------------------ geometric constraints
def rand_groups(rng, q, eckart=True):
    """Groups of constraints on disjoint sets of atoms."""
    nat = len(q)
    perm = [int(x) for x in rng.permutation(nat)]
    groups = []
    while len(perm) >= 2:
        kinds = ["bond"]
        if len(perm) >= 3:
            kinds += ["bonds", "angle", "water", "triangle"] + (["eckart", "eckwater"] if eckart else [])
        kd = str(rng.choice(kinds))
        if kd == "bond":
            i, j = perm.pop(), perm.pop()
            groups.append(([("distance", [[i, j]])], False))
        else:
            i, j, k = perm.pop(), perm.pop(), perm.pop()
            e = ("eckart", sorted([i, j, k]))
            groups.append(
                {
                    "bonds": ([("distance", [[i, j], [k, i]])], False),
                    "angle": ([("angle", [[i, j, k]])], False),
                    "water": ([("angle", [[i, j, k]]), ("distance", [[i, j], [i, k]])], True),
                    "triangle": ([("distance", [[i, j], [i, k], [j, k]])], bool(rng.random() < 0.5)),
                    "eckart": ([e], False),
                    "eckwater": ([("distance", [[i, j], [i, k]]), e], True),
                }[kd]
            )
        if rng.random() < 0.3:
            break
    return groups


def gval(kind, atoms, q, ref=None, m=None):
    """Constraint functions, my own."""
    if kind == "distance":
        return np.array([((q[a] - q[b]) ** 2).sum() for a, b in atoms])
    if kind == "angle":
        r = []
        for a, b, c in atoms:
            u, v = q[b] - q[a], q[c] - q[a]
            r.append((u * v).sum() / np.sqrt((u * u).sum() * (v * v).sum()))
        return np.array(r)
    mm = m[atoms]
    d = q[atoms] - ref
    rc = (mm[:, None] * ref).sum(axis=0) / mm.sum()
    x, w = mm[:, None] * (ref - rc), d
    cr = np.stack([x[:, 1] * w[:, 2] - x[:, 2] * w[:, 1], x[:, 2] * w[:, 0] - x[:, 0] * w[:, 2], x[:, 0] * w[:, 1] - x[:, 1] * w[:, 0]], axis=1)
    return np.concatenate([(mm[:, None] * d).sum(axis=0), cr.sum(axis=0)]) / mm.sum()


def target(kind, atoms, q):
    """What is given to the engine, and the value of the constraint function it stands for."""
    if kind == "distance":
        d = np.sqrt(gval(kind, atoms, q))
        return d, d**2
    if kind == "angle":
        c = gval(kind, atoms, q)
        return np.arccos(c), c
    return q[atoms].ravel(), np.zeros(6)


def constr_setup(rng, nat=None, eckart=True, off=False):
    nat = nat or int(rng.integers(3, 8))
    m = rng.choice([1837.0, 3674.0, 12000.0, 29000.0], nat)
    g = sg.geometry(rng, nat, 1, box=14.0, masses=m, p_t=300.0 * sg.KELVIN)
    q = g["q"].reshape(-1, 3)
    groups = rand_groups(rng, q, eckart)
    # targets: those of the initial geometry, or of one nearby
    qt = q + (0.03 * rng.standard_normal(q.shape) if off else 0.0)
    out = []
    body = ""
    for cons, multi in groups:
        x = ""
        lst = []
        for kind, atoms in cons:
            given, tgt = target(kind, atoms, qt)
            c = sg.tag("atoms", sg.sarr(np.ravel(atoms)))
            if off or rng.random() < 0.5:
                c += sg.tag("values", sg.arr(given))
            x += sg.tag("constraint", c, mode=kind)
            lst.append((kind, atoms if kind != "eckart" else np.array(atoms), tgt, qt[atoms] if kind == "eckart" else None))
        body += sg.tag("constraint", x, mode="multi") if multi else x
        out.append(lst)
    return g, out, body


def constr_xml(rng, g, body, mode, dt, nsteps=10, tol=1e-11, norm=2, splitting="baoab", geo=1, no=1, fixcom=False, nmts=None, thermo="", comps=None, bias=None, temp=300.0 * sg.KELVIN, outputs="", seed=77):
    x = body + sg.tag("timestep", repr(float(dt))) + thermo
    x += sg.tag("nsteps_geo", geo) + sg.tag("nsteps_o", no)
    x += sg.tag("csolver", sg.tag("tolerance", repr(tol)) + sg.tag("maxit", 400) + sg.tag("norm_order", norm))
    if nmts:
        x += sg.tag("nmts", sg.sarr(nmts))
    mot = sg.tag("motion", sg.tag("constrained_dynamics", x, mode=mode, splitting=splitting) + sg.tag("fixcom", str(fixcom)), mode="constrained_dynamics")
    comps = comps or [dict(pars=dict(k=0.03, r0=2.6, g=0.004), weight=1.0)]
    ffs, forces, ens = [], "", sg.tag("temperature", repr(temp))
    for i, c in enumerate(comps):
        ffs.append(sg.ffdirect("ff%d" % i, pars=c["pars"]))
        forces += sg.tag("force", sg.tag("mts_weights", sg.arr(c["mts"])) if c.get("mts") else "", forcefield="ff%d" % i)
    if bias:
        ffs.append(sg.ffdirect("bias0", pars=bias))
        ens += sg.tag("bias", sg.tag("force", "", forcefield="bias0")) + sg.tag("bias_weights", "[ 1.0 ]")
    syst = sg.system(g, mot, forces=forces, ensemble=ens)
    return sg.simulation([syst], ffs, nsteps, seed=seed, outputs=outputs).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)


def constrained_xml(rng, nsteps, outputs):
    """For the restart check."""
    g, cons, body = constr_setup(rng)
    has = any(k == "eckart" for l in cons for k, *_ in l)
    th = sg.tag("thermostat", sg.tag("tau", "500.0"), mode="langevin")
    x = constr_xml(rng, g, body, "nvt", 10.0, nsteps, tol=1e-11, norm=int(rng.choice([2, 1, -1])), splitting=str(rng.choice(["obabo", "baoab"])), geo=int(rng.integers(1, 3)), no=int(rng.integers(1, 3)), fixcom=bool(rng.random() < 0.5) and not has, thermo=th, outputs=outputs, seed=int(rng.integers(1, 10**6)))
    return x.replace(" floatformat='%24.16e'", "", 1)


def all_g(cons, q, m):
    return [gval(k, a, q, ref, m) - t for l in cons for k, a, t, ref in l]


def jac(cons, q, m):
    """Complex-step Jacobian."""
    n = q.size
    J = []
    for i in range(n):
        z = q.astype(complex)
        z.flat[i] += 1e-30j
        J.append(np.concatenate([np.imag(x) for x in all_g(cons, z, m)]) / 1e-30)
    return np.array(J).T


def mix(rng):
    comps = [dict(pars=dict(k=0.03, r0=2.6, g=0.004), weight=1.0)]
    nmts = None
    if rng.random() < 0.5:
        comps.append(dict(pars=dict(k=0.004, r0=1.9, g=0.0005), weight=1.0))
    if len(comps) > 1 and rng.random() < 0.7:
        nmts = [1, int(rng.integers(1, 4))]
        comps[0]["mts"], comps[1]["mts"] = [0.0, 1.0], [1.0, 0.0]
    bias = dict(k=0.006, r0=2.2, g=0.0) if rng.random() < 0.4 else None
    return comps, nmts, bias


def k_constr(case, rec, rng):
    mode = str(rng.choice(["nve", "nvt", "nvt"]))
    off = bool(rng.random() < 0.4)
    g, cons, body = constr_setup(rng, off=off)
    has = any(k == "eckart" for l in cons for k, *_ in l)
    fixcom = bool(rng.random() < 0.5) and not has
    tol = float(rng.choice([1e-4, 1e-8, 1e-11]))
    norm = int(rng.choice([2, 1, -1]))
    comps, nmts, bias = mix(rng)
    split = str(rng.choice(["obabo", "baoab"]))
    geo, no = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    tk = str(rng.choice(["langevin", "svr", "langevin", "gle"]))
    if tk == "gle":
        a = np.asarray(cg.gle_matrices(rng, 1, 2, 300 * sg.KELVIN, False)[0])
        a = a.reshape(a.shape[-2:])
        th = sg.tag("thermostat", sg.tag("A", sg.arr(a), shape=str(a.shape)), mode="gle")
    else:
        th = sg.tag("thermostat", sg.tag("tau", "200.0"), mode=tk)
    key = "%s/%s/%s%s/%s/geo%d/o%d%s%s" % (mode, split, "+".join("".join(k[0] for k, *_ in l) for l in cons), "/off" if off else "", tk if mode == "nvt" else "-", geo, no, "/com" if fixcom else "", "/mts" if nmts else "")
    x = constr_xml(rng, g, body, mode, 10.0, tol=tol, norm=norm, splitting=split, geo=geo, no=no, fixcom=fixcom, nmts=nmts, thermo=th if mode == "nvt" else "", comps=comps, bias=bias, seed=int(rng.integers(1, 10**6)))
    sim = sg.load(x)
    s = sim.syslist[0]
    A = sg.A
    m = g["m"]
    m3 = np.repeat(m, 3)
    ps = np.sqrt(m3 * 300 * sg.KELVIN)
    rec.note("groups " + key.split("/")[2])
    e, bath = [], 0.0
    for i in range(12):
        if i:
            e.append(float(s.ensemble.econs))
        k0 = float(s.motion.thermostat.ethermo)
        sim.run_step(i)
        bath += abs(float(s.motion.thermostat.ethermo) - k0)
        q, p = A(s.beads.q)[0].reshape(-1, 3), A(s.beads.p)[0]
        for l in cons:
            gg = np.concatenate([gval(k, a, q, ref, m) - t for k, a, t, ref in l])
            nn = np.linalg.norm(gg, ord={2: 2, 1: 1, -1: np.inf}[norm])
            rec.check(nn <= tol * (1 + 1e-6) + 1e-12, "manifold", "[%s] constraints violated by %.3g (tolerance %g) after step %d" % (key, nn, tol, i), key=("g", key))
        J = jac(cons, q, m)
        v = J @ (p / m3)
        sc = np.abs(J) @ (ps / m3)
        rec.check((np.abs(v) <= 1e-9 * sc).all(), "velocity", "[%s] velocities leave the constraint manifold: %.3g relative at step %d" % (key, (np.abs(v) / sc).max(), i), key=("v", key))
        if fixcom:
            P = p.reshape(-1, 3).sum(axis=0)
            rec.check(np.abs(P).max() <= 1e-9 * ps.sum(), "com", "[%s] centre of mass momentum %g at step %d" % (key, np.abs(P).max(), i), key=("com", key))
    e = np.array(e)
    if mode == "nvt" and tol < 1e-6 and not off:
        rec.check(np.abs(e - e[0]).max() <= 0.05 * 300 * sg.KELVIN * len(m) + 0.02 * bath, "econs", "[%s] conserved quantity drifts by %.3g while the thermostat exchanges %.3g" % (key, np.abs(e - e[0]).max(), bath), key=("e", key))
    free = sorted(set(range(len(m))) - set(int(i) for l in cons for _, a, _, _ in l for i in np.ravel(a)))
    rec.check(not free or np.abs((q - g["q"].reshape(-1, 3))[free]).max() > 1e-5, "moved", "[%s] free atoms do not move" % key)
    cg.end(sim)


def k_cref(case, rec, rng):
    """Constrained trajectories against constrained equations of motion, integrated independently."""
    from scipy.integrate import solve_ivp

    g, cons, body = constr_setup(rng, nat=int(rng.integers(3, 6)))
    comps, nmts, bias = mix(rng)
    geo = int(rng.integers(1, 4))
    m = g["m"]
    m3 = np.repeat(m, 3)
    q0 = g["q"].ravel()
    J = jac(cons, q0.reshape(-1, 3), m)
    im = 1 / m3
    p0 = g["p"].ravel()
    p0 = p0 - J.T @ np.linalg.solve((J * im) @ J.T, J @ (p0 * im))
    g["p"] = p0[None, :]
    key = "nve/%s/geo%d%s%s" % ("+".join("".join(k[0] for k, *_ in l) for l in cons), geo, "/mts" if nmts else "", "/bias" if bias else "")
    orc = c07.Oracle(dict(nbeads=1, natoms=len(m)), [dict(pars=c["pars"], weight=1.0, nbeads=0) for c in comps], [1.0] * len(comps))
    ob = c07.Oracle(dict(nbeads=1, natoms=len(m)), [dict(pars=bias, weight=1.0, nbeads=0)], [1.0]) if bias else None
    n3 = len(m3)

    def rhs(t, y):
        q, v = y[:n3], y[n3:]
        F = orc.total(q[None, :], g["h"])[1][0]
        if ob:
            F = F + ob.total(q[None, :], g["h"])[1][0]
        J = jac(cons, q.reshape(-1, 3), m)
        d = 1e-4
        Jd = (jac(cons, (q + d * v * 30).reshape(-1, 3), m) - jac(cons, (q - d * v * 30).reshape(-1, 3), m)) / (2 * d * 30)
        lam = np.linalg.solve((J * im) @ J.T, J @ (F * im) + Jd @ v)
        return np.concatenate([v, im * (F - J.T @ lam)])

    T = 120.0
    sol = solve_ivp(rhs, (0, T), np.concatenate([q0, p0 * im]), method="RK45", rtol=1e-9, atol=1e-11)
    ref = sol.y[:, -1]
    res = []
    for ns in (10, 20):
        sim = sg.load(constr_xml(rng, g, body, "nve", T / ns, tol=1e-12, geo=geo, nmts=nmts, comps=comps, bias=bias))
        s = sim.syslist[0]
        e = [float(s.ensemble.econs)]
        for i in range(ns):
            s.motion.step(i)
            e.append(float(s.ensemble.econs))
        res.append((sg.A(s.beads.q)[0], sg.A(s.beads.p)[0] * im, np.abs(np.array(e) - e[0]).max()))
        cg.end(sim)
    for nm, r, i in (("positions", ref[:n3], 0), ("velocities", ref[n3:], 1)):
        a, b = res[0][i], res[1][i]
        e1, e2 = np.abs(a - r).max(), np.abs(b - r).max()
        fl = 1e-7 * np.abs(r).max()
        rec.check(e2 <= 0.36 * e1 + fl and e1 <= 0.05 * np.abs(r - (q0 if i == 0 else p0 * im)).max() + fl, "reference", "[%s] %s against the constrained equations of motion: error %.2e at dt, %.2e at dt/2" % (key, nm, e1, e2), key=(nm, key))
    e1, e2 = res[0][2], res[1][2]
    rec.check(e2 <= 0.4 * e1 + 1e-9 and e1 < 1e-3, "order", "[%s] energy deviates by %.2e at dt and %.2e at dt/2" % (key, e1, e2), key=("e", key))
    rec.sample(dict(config=key, errors=[float(np.abs(res[1][0] - ref[:n3]).max()), e1, e2]))


def temp_constr(case, rec, rng):
    g, cons, body = constr_setup(rng)
    has = any(k == "eckart" for l in cons for k, *_ in l)
    fixcom = bool(rng.random() < 0.5) and not has
    th = sg.tag("thermostat", sg.tag("tau", "200.0"), mode="langevin")
    T = 300 * sg.KELVIN
    key = "constraints/%s%s" % ("+".join("".join(k[0] for k, *_ in l) for l in cons), "/com" if fixcom else "")
    sim = sg.load(constr_xml(rng, g, body, "nvt", 10.0, fixcom=fixcom, thermo=th, temp=T))
    s = sim.syslist[0]
    m = g["m"]
    m3 = np.repeat(m, 3)
    J = jac(cons, g["q"].reshape(-1, 3), m)
    if fixcom:
        J = np.vstack([J] + [np.tile(np.eye(3)[i], len(m)) * m3 for i in range(3)])
    im = 1 / m3
    S = J.T @ np.linalg.solve((J * im) @ J.T, J * im)
    s.beads.p = np.zeros((1, len(m3)))
    base = float(s.properties["temperature"][0])
    acc = base
    for i in range(len(m3)):
        p = np.zeros(len(m3))
        p[i] = np.sqrt(m3[i] * T)
        s.beads.p = (p - S @ p)[None, :]
        acc += float(s.properties["temperature"][0]) - base
    rec.close(acc / T, 1.0, 1e-7, "temperature", "[%s] average of the kinetic temperature over the constrained distribution of momenta" % key, key=("constr", fixcom, len(J)))
    cg.end(sim)


# ------------------------------------------------------------ velocity rescaling
def k_dof(case, rec, rng):
    """A velocity-rescaling thermostat at full strength draws the kinetic energy from a chi-squared distribution
    with as many degrees of freedom as can move."""
    N = 4000
    how = ["none", "com", "atoms", "dof", "constr", "constr"][case["i"] % 6]
    T = 300 * sg.KELVIN
    if how == "constr":
        g, cons, body = constr_setup(rng)
        has = any(k == "eckart" for l in cons for k, *_ in l)
        fixcom = bool(rng.random() < 0.5) and not has
        tk = "svr"
        sim = sg.load(constr_xml(rng, g, body, "nvt", 10.0, fixcom=fixcom, thermo=sg.tag("thermostat", sg.tag("tau", "0.01"), mode="svr"), temp=T, seed=int(rng.integers(1, 10**6))))
        n, nat = 1, len(g["m"])
        want = 3 * nat - sum(len(t) for l in cons for _, _, t, _ in l) - (3 if fixcom else 0)
        key = "dof/constr/%s" % ("com" if fixcom else "-")
    else:
        n = int(rng.choice([1, 1, 2, 3]))
        tk = "svr" if rng.random() < 0.5 else "pile_g"
        spec = cg.rand_spec(rng, modes=("nvt",), thermos=["langevin"], natoms=int(rng.integers(3, 6)), nbeads=n)
        spec["temp"] = T
        spec["thermo"] = dict(kind=tk, tau=0.01, mseed=1)
        spec["fixcom"] = how == "com"
        nat = spec["natoms"]
        if how == "atoms":
            spec["fixatoms"] = sorted(int(x) for x in rng.choice(nat, int(rng.integers(1, nat - 1)), replace=False))
        if how == "dof":
            spec["fixatoms_dof"] = sorted(int(x) for x in rng.choice(3 * nat, int(rng.integers(1, 6)), replace=False))
        sim = sg.load(cg.xml(spec, 10))
        want = (3 * nat - len(fixed_dofs(spec))) * (n if tk == "svr" else 1) - (3 if how == "com" else 0)
        key = "dof/%s/%s/b%d" % (how, tk, n)
    s = sim.syslist[0]
    if want < 1:
        cg.end(sim)
        return
    s.motion.step(0)
    A = sg.A
    k = []
    for i in range(N):
        s.motion.thermostat.step()
        if tk == "svr":
            k.append((A(s.nm.pnm) ** 2 / A(s.nm.dynm3)).sum())
        else:
            k.append((A(s.nm.pnm)[0] ** 2 / A(s.nm.dynm3)[0]).sum())
    x = np.mean(k) / (n * T)
    sig = np.sqrt(2.0 * want / N)
    rec.check(abs(x - want) < 7 * sig, "dof", "[%s] the thermostat feeds %.2f degrees of freedom, %d can move" % (key, x, want), key=key)
    v = np.var(k) / (n * T) ** 2
    rec.check(abs(v / (2.0 * want) - 1) < 0.35 + 12.0 / want / np.sqrt(N), "dof", "[%s] variance of the kinetic energy %.2f, expected %d" % (key, v, 2 * want))
    cg.end(sim)


# ------------------------------------------------------------ optimisations
def k_optim(case, rec, rng):
    modes = ["sd", "cg", "bfgs", "bfgstrm", "lbfgs", "damped_bfgs"]
    mode = modes[case["i"] % len(modes)]
    nat = int(rng.integers(3, 6))
    g = sg.geometry(rng, nat, 1, box=12.0)
    if rng.random() < 0.5 or mode == "damped_bfgs":  # damped_bfgs refuses to freeze parts of atoms
        fa = sorted(int(x) for x in rng.choice(nat, int(rng.integers(1, nat - 1)), replace=False))
        fx = sg.tag("fixatoms", sg.sarr(fa))
        fix = fixed_dofs(dict(fixatoms=fa))
    else:
        fd = sorted(int(x) for x in rng.choice(3 * nat, int(rng.integers(1, 5)), replace=False))
        fx = sg.tag("fixatoms_dof", sg.sarr(fd))
        fix = np.array(fd)
    key = "optim/%s/%s" % (mode, "fa" if "atoms>" in fx else "fd")
    mot = sg.tag("motion", sg.tag("optimizer", "", mode=mode) + sg.tag("fixcom", "False") + fx, mode="minimize")
    sim = sg.load(sg.simulation([sg.system(g, mot)], [sg.ffdirect("ff", pars=dict(k=0.06, r0=2.6, g=0.02))], 6, seed=3))
    s = sim.syslist[0]
    q0 = sg.A(s.beads.q)
    e0 = float(s.forces.pot)
    for i in range(6):
        if s.motion.finished:
            break
        try:
            sim.run_step(i)
        except SystemExit:
            break
        q = sg.A(s.beads.q)
        rec.check(np.abs(q[:, fix] - q0[:, fix]).max() <= 1e-12 * np.abs(q0).max(), "optim", "[%s] frozen coordinates moved by %g at step %d" % (key, np.abs(q[:, fix] - q0[:, fix]).max(), i), key=key)
    rec.check(float(s.forces.pot) < e0, "moved", "[%s] the optimisation does not lower the energy" % key)
    cg.end(sim)
