"""C09: thermostats keep the right ensemble, at the right rate, and account for the heat."""
import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C09"
LEVEL = "monitored_stress"
TECHNIQUE = "run-time monitor: the noise source is replaced by a probe, so the linear map (state, noise) -> state of a thermostat step and of a whole MD step is read off executions and checked against exact fluctuation-dissipation and stationary covariances; non-linear thermostats by sampling"
NOTE = "random generators are replaced below ipi.utils.prng.Random (its numpy generators), so any way of drawing normal numbers is seen"
RULE = (
    "each execution builds one random simulation (thermostat kind, beads, normal-mode style, splitting, MTS, barostat); monitors: heat "
    "accounting, nothing but momenta changes, T C T^t + S S^t = C for the target covariance C, damping factors, stationary "
    "covariance of the whole step on harmonic systems, moments and distributions of velocity rescaling and fast-forward thermostats; "
    "distinct counts configurations"
)
ASSUMPTIONS = [
    "statistical monitors use fixed seeds and alarm beyond 6 standard deviations or a Kolmogorov-Smirnov p-value of 1e-8",
    "MD steps on harmonic systems sample their target up to O((omega dt)^2) = 1e-4; alarm at 1e-3",
]
TIMEOUT = {"quick": 200, "thorough": 900}
REQUIRE = {"heat": 50, "fdt": 20, "damping": 20, "stationary": 6, "moments": 10, "dist": 4, "off": 6}

LINEAR = ["langevin", "pile_l", "gle", "gle_c", "nm_gle", "cl0", "multi"]
RANDOM = ["svr", "pile_g", "nm_gle_g", "ffl_soft", "ffl_hard", "ffl_rescale", "ffl_none"]


def cases(tier, seed):
    out = []

    def add(n, kind, **kw):
        for i in range(n):
            nm = "%s_%s_%d" % (kind, "_".join(str(x) for x in kw.values()), i)
            out.append(dict(name=nm, kind=kind, cseed=sub_seed(seed, nm), tier=tier, **kw))

    f = 1 if tier == "quick" else 8
    for th in LINEAR:
        add(3 * f, "linear", th=th)
        if th != "gle_c":  # an own covariance is not canonical
            add(2 * f, "whole", th=th)
    add(3 * f, "linear", th="cell")
    for th in RANDOM:
        add(2 * f, "random", th=th)
    add(2 * f, "random", th="cellsvr")
    add(2 * f, "rescale_step")
    for th in ("gle", "nm_gle", "nm_gle_g"):
        add(1 * f, "sinit", th=th)
    for th in cg.THERMOS:
        add(2 * f, "account", th=th)
        add(1 * f, "off", th=th)
    return out


class Probe:
    """Stands in for a numpy Generator; hands out prescribed normal numbers."""

    def __init__(self):
        self.n = 0
        self.vec = None  # noise vector, or None for zeros
        self.other = 0

    def standard_normal(self, size=None, dtype=None, out=None):
        shape = out.shape if out is not None else (() if size is None else (size if np.iterable(size) else (size,)))
        k = int(np.prod(shape)) if len(shape) else 1
        v = np.zeros(k)
        if self.vec is not None:
            w = self.vec[self.n : self.n + k]
            v[: len(w)] = w
        self.n += k
        if out is not None:
            out[...] = v.reshape(shape)
            return out
        return float(v[0]) if size is None else v.reshape(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def gamma(self, shape, scale=1.0, size=None):
        self.other += 1
        return 0.0 if size is None else np.zeros(size)

    standard_gamma = chisquare = gamma

    def uniform(self, low=0.0, high=1.0, size=None):
        self.other += 1
        return 0.5 if size is None else np.full(size, 0.5)

    random = uniform


def thermos(t):
    """All elementary thermostats that carry auxiliary momenta."""
    if hasattr(t, "tlist"):
        return [y for x in t.tlist for y in thermos(x)]
    return [t] if getattr(t, "s", None) is not None and np.ndim(getattr(t, "s", 0)) >= 2 else []


def srows(t):
    return [x.s[1:] if x.s.ndim == 2 else x.s[:, 1:] for x in thermos(t)]


class Map:
    """The linear map of one operation on (variables..., s) driven by noise."""

    def __init__(self, sim, op, get, put):
        self.sim, self.op, self.get, self.put = sim, op, get, put
        self.probe = Probe()
        self.keep = list(sim.prng.rng)
        self.base = get()

    def __call__(self, x, noise=None):
        self.put(x)
        self.probe.n = 0
        self.probe.vec = noise
        self.sim.prng.rng[:] = [self.probe] * len(self.keep)
        try:
            self.op()
        finally:
            self.sim.prng.rng[:] = self.keep
        return self.get()

    def matrices(self, scale, nscale=1.0):
        n = len(self.base)
        self.zero = self(np.zeros(n))
        nn = self.probe.n
        m = np.zeros((n, n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = scale[i]
            m[:, i] = (self(e) - self.zero) / scale[i]
        s = np.zeros((n, nn))
        for i in range(nn):
            e = np.zeros(nn)
            e[i] = nscale
            s[:, i] = (self(np.zeros(n), e) - self.zero) / nscale
        return m, s, nn


def pack(parts):
    return np.concatenate([np.asarray(p, float).ravel() for p in parts]) if parts else np.zeros(0)


def unpack(x, views, setters):
    i = 0
    for v, s in zip(views, setters):
        s(x[i : i + v.size].reshape(v.shape))
        i += v.size


def setter(obj, name=None):
    if name is None:

        def f(v):
            obj[...] = v

    else:

        def f(v):
            getattr(obj, name)[...] = v

    return f


def access(thermo, things):
    """get/put of a state vector made of depend arrays [(obj, attr)] and the s of a thermostat."""
    sr = srows(thermo) if thermo is not None else []

    def get():
        return pack([sg.A(getattr(o, a)) for o, a in things] + [np.array(s) for s in sr])

    def put(x):
        i = 0
        for o, a in things:
            v = getattr(o, a)
            getattr(o, a)[...] = x[i : i + v.size].reshape(v.shape)
            i += v.size
        for s in sr:
            s[...] = x[i : i + s.size].reshape(s.shape)
            i += s.size
        for t in thermos(thermo) if thermo is not None else []:
            # the first row is a copy of the momenta that a step overwrites
            if t.s.ndim == 2:
                t.s[0] = 0.3
            else:
                t.s[:, 0] = 0.3

    return get, put


def base_spec(rng, case, th, **kw):
    k = dict(modes=("nvt",), thermos=["langevin"], nbeads=int(rng.choice([1, 2, 3, 4])), natoms=int(rng.integers(1, 3)), allow=("nmmodes", "prop", "baoab"))
    k.update(kw)
    s = cg.rand_spec(rng, **k)
    s["nm"].pop("open", None)
    if th == "cl0":
        s["thermo"] = dict(kind="cl", tau=float(rng.choice([50.0, 200.0])))
    elif th == "multi":
        ks = ["langevin", "pile_l", "gle", "nm_gle"]
        s["thermo"] = dict(kind="multi", list=[no_c(cg.rand_thermo(rng, s, [str(x)])) for x in rng.choice(ks, int(rng.integers(1, 4)))])
    elif th.startswith("ffl_"):
        s["thermo"] = dict(kind="ffl", tau=float(rng.choice([50.0, 200.0])), flip=th[4:])
    else:
        s["thermo"] = cg.rand_thermo(rng, s, [th])
        s["thermo"]["tau"] = float(rng.choice([40.0, 200.0, 1000.0]))
    return s


def no_c(t):
    t["with_c"] = False
    t.pop("ct", None)
    return t


def covariance(spec, th, sys):
    """Target covariance of (p, s...) in the bead representation."""
    P, n3 = spec["nbeads"], 3 * spec["natoms"]
    kt = spec["temp"] * P
    nm = sys.nm
    # momenta: normal modes, dynamical masses
    tr = np.array([sg.A(nm.transform.b2nm(e.reshape(P, n3))).ravel() for e in np.eye(P * n3)]).T
    m = sg.A(nm.dynm3)
    c = kt * m
    if th.get("ct"):
        c = c.copy()
        c[0] = th["ct"] * P * m[0]
    return tr, c


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    getattr(CASE, case["kind"])(case, rec, rng)


class CASE:
    @staticmethod
    def sinit(case, rec, rng):
        """Auxiliary variables that are not given start from the stationary distribution."""
        spec = base_spec(rng, case, case["th"], natoms=40)
        no_c(spec["thermo"])
        spec["comps"] = [dict(pars=dict(k=0.0, g=0.0, kt=0.01), weight=1.0, nbeads=0)]
        sim = sg.load(cg.xml(spec, 5))
        t = sim.syslist[0].motion.thermostat
        s = sg.A(t.s)
        ns = spec["thermo"].get("ns", 2)
        blocks = s.reshape(spec["nbeads"], ns + 1, -1) if case["th"] != "gle" else s.reshape(1, ns + 1, -1)
        kt = spec["temp"] * spec["nbeads"]
        for b, x in enumerate(blocks):
            n = x.shape[1]
            for i in range(1, ns + 1):
                for j in range(1, i + 1):
                    c = np.mean(x[i] * x[j]) / kt
                    sd = np.sqrt((2.0 if i == j else 1.0) / n)
                    rec.check(abs(c - (i == j)) < 6.5 * sd, "sinit", "[%s] initial auxiliary variables %d, %d of mode %d: <ss>/kT = %g +- %g" % (cg.label(spec), i, j, b, c, sd), key=(case["th"], spec["nbeads"]))
        cg.end(sim)

    @staticmethod
    def linear(case, rec, rng):
        th = case["th"]
        if th == "cell":
            return CASE.cell(case, rec, rng)
        spec = base_spec(rng, case, th)
        spec["comps"] = [dict(pars=dict(k=0.0, g=0.0, kt=0.01), weight=1.0, nbeads=0)]
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        t = sys.motion.thermostat
        lab = cg.label(spec)
        get, put = access(t, [(sys.beads, "p")])
        mp = Map(sim, t.step, get, put)
        P, n3 = spec["nbeads"], 3 * spec["natoms"]
        npp = P * n3
        n = len(mp.base)
        kt = spec["temp"] * P
        sc = np.concatenate([np.sqrt(kt * sg.A(sys.beads.m3)).ravel(), np.full(n - npp, np.sqrt(kt))])
        m, s, nn = mp.matrices(sc)
        # affine? superposition on a random state
        x = sc * rng.standard_normal(n)
        w = rng.standard_normal(nn)
        y = mp(x, w)
        rec.close(y / sc, (m @ x + s @ w + mp.zero) / sc, 1e-9, "linear", "[%s] thermostat step is not linear" % lab)
        rec.close(1.0 + mp.zero / sc, 1.0 + 0 * sc, 1e-12, "linear", "[%s] thermostat moves a system at rest without noise" % lab)
        rec.check(mp.probe.other == 0 and nn > 0, "linear", "[%s] draws other than normal numbers" % lab)
        # into mass-scaled normal modes
        nm = sys.nm
        tr = np.array([sg.A(nm.transform.b2nm(e.reshape(P, n3))).ravel() for e in np.eye(npp)]).T
        sm = np.sqrt(sg.A(nm.dynm3)).ravel()
        c = CASE.target(spec, t, n, kt)
        best, allr = None, []
        # auxiliary momenta of a plain GLE may belong to beads or to normal modes
        uni = np.ptp(sg.A(nm.dynm3), axis=0).max() < 1e-9
        for rot, sq in [(tr, sm)] + ([(np.eye(npp), np.sqrt(sg.A(sys.beads.m3)).ravel())] if uni and "gle" in th and th != "nm_gle" else []):
            full = np.eye(n)
            full[:npp, :npp] = rot / sq[:, None]
            a, b = full @ m @ np.linalg.inv(full), full @ s
            r = (a @ c @ a.T + b @ b.T - c) / kt
            allr.append((a, b, r))
            if best is None or np.abs(r).max() < np.abs(best[2]).max():
                best = (a, b, r)
        m, s, r = best
        reps = [x[0] for x in allr]
        rec.close(1.0 + r, 1.0 + 0 * r, 1e-8, "fdt", "[%s] one step does not leave the target distribution invariant" % lab, key=lab)
        # damping
        want = CASE.decay(spec, spec["thermo"], sys, n, float(t.dt), t)
        if want is not None:
            m = min(reps, key=lambda x: np.abs(x - want).max())
            rec.close(m, want, 1e-8, "damping", "[%s] damping matrix of one step" % lab, key=lab)
        rec.sample(dict(config=lab, dim=n, noise=nn))
        cg.end(sim)

    @staticmethod
    def target(spec, t, n, kt):
        """Covariance of mass-scaled normal-mode momenta and s."""
        P, n3 = spec["nbeads"], 3 * spec["natoms"]
        npp = P * n3
        c = kt * np.eye(n)
        th = spec["thermo"]
        if th.get("ct") and P >= 1 and th["kind"] in ("pile_l", "pile_g"):
            for i in range(n3):
                c[i, i] = th["ct"] * P
        if th["kind"] in ("gle", "gle_c", "nm_gle") and (th["kind"] == "gle_c" or (th["kind"] == "nm_gle" and th.get("with_c"))):
            r = np.random.default_rng(th.get("mseed", 0))
            ns = th.get("ns", 2)
            a, cc = cg.gle_matrices(r, 1 if th["kind"] == "gle_c" else P, ns, spec["temp"], True)
            if th["kind"] == "gle_c":
                # bead and normal-mode index are interchangeable: the same C everywhere
                ix = CASE.sindex(spec, "gle", ns)
                for b in range(P):
                    for i in range(n3):
                        c[np.ix_(ix[b][i], ix[b][i])] = cc[0]
                # s is in the bead representation, p in normal modes: rotate below
            else:
                ix = CASE.sindex(spec, "nm_gle", ns)
                for b in range(P):
                    for i in range(n3):
                        c[np.ix_(ix[b][i], ix[b][i])] = cc[b]
        return c

    @staticmethod
    def sindex(spec, kind, ns):
        """Indices of (p, s1..sns) of each degree of freedom in the state vector."""
        P, n3 = spec["nbeads"], 3 * spec["natoms"]
        npp = P * n3
        ix = []
        for b in range(P):
            row = []
            for i in range(n3):
                p = b * n3 + i
                if kind == "gle":
                    row.append([p] + [npp + k * npp + p for k in range(ns)])
                else:
                    row.append([p] + [npp + b * ns * n3 + k * n3 + i for k in range(ns)])
            ix.append(row)
        return ix

    @staticmethod
    def decay(spec, th, sys, n, dt, t):
        from scipy.linalg import expm

        P, n3 = spec["nbeads"], 3 * spec["natoms"]
        npp = P * n3
        k = th["kind"]
        if k in ("langevin", "cl"):
            return np.exp(-dt / th["tau"]) * np.eye(n)
        if k == "pile_l":
            w = np.repeat(sg.A(sys.nm.dynomegak), n3)
            d = np.exp(-2 * th["lam"] * w * dt)
            d[:n3] = np.exp(-dt / th["tau"])
            return np.diag(d)
        if k in ("gle", "gle_c", "nm_gle"):
            r = np.random.default_rng(th.get("mseed", 0))
            ns = th.get("ns", 2)
            nmg = k == "nm_gle"
            a, _ = cg.gle_matrices(r, P if nmg else 1, ns, spec["temp"], k == "gle_c" or (nmg and bool(th.get("with_c"))))
            ix = CASE.sindex(spec, "nm_gle" if nmg else "gle", ns)
            m = np.zeros((n, n))
            for b in range(P):
                for i in range(n3):
                    m[np.ix_(ix[b][i], ix[b][i])] = expm(-dt * a[b if nmg else 0])
            return m
        return None

    @staticmethod
    def cell(case, rec, rng):
        while True:
            spec = cg.rand_spec(rng, modes=("npt", "nst"), thermos=["langevin"], nbeads=int(rng.choice([1, 2])), natoms=3)
            if spec["baro"].get("thermo", {}).get("kind") in ("langevin", "gle", "gle_c"):
                break
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        b = sys.motion.barostat
        t = b.thermostat
        lab = cg.label(spec)
        q0, p0 = sg.A(sys.beads.q), sg.A(sys.beads.p)
        get, put = access(t, [(t, "p")])
        mp = Map(sim, t.step, get, put)
        n = len(mp.base)
        npp = t.p.size
        kt = spec["temp"] * spec["nbeads"]
        sc = np.concatenate([np.sqrt(kt * sg.A(t.m)), np.full(n - npp, np.sqrt(kt))])
        m, s, nn = mp.matrices(sc)
        m, s = m * sc[None, :] / sc[:, None], s / sc[:, None]
        c = np.eye(n)
        if spec["baro"]["thermo"]["kind"] != "gle_c":
            r = m @ c @ m.T + s @ s.T - c
            rec.close(1.0 + r, 1.0 + 0 * r, 1e-8, "fdt", "[%s] the step of the cell thermostat does not leave its distribution invariant" % lab, key=("cell", lab))
        if spec["baro"]["thermo"]["kind"] == "langevin":
            rec.close(m, np.exp(-float(t.dt) / spec["baro"]["thermo"]["tau"]) * np.eye(n), 1e-9, "damping", "[%s] damping of the cell momenta" % lab)
        rec.check(np.array_equal(q0, sg.A(sys.beads.q)) and np.array_equal(p0, sg.A(sys.beads.p)), "only_p", "[%s] the cell thermostat acts on the atoms" % lab)
        cg.end(sim)

    @staticmethod
    def whole(case, rec, rng):
        """Stationary covariance of a whole MD step on a harmonic system."""
        from scipy.linalg import solve_discrete_lyapunov

        th = case["th"]
        modes = ("nvt", "nvt", "sc") if th not in ("gle_c",) else ("nvt",)
        while True:
            spec = base_spec(rng, case, th, modes=modes, natoms=1, allow=("prop", "baoab", "mts", "multi", "contraction", "nmmodes"))
            if spec["nm"].get("propagator", "exact") == "exact" and spec["nbeads"] * 6 * (1 + spec["thermo"].get("ns", 0)) < 160:
                break
        spec["thermo"].pop("ct", None)
        spec["thermo"]["with_c"] = False
        spec["dt"] = float(rng.choice([4.0, 8.0]))
        m0 = 3674.0
        spec["same_mass"] = True
        nmts = int(np.prod(spec.get("nmts") or [1]))
        w0 = 0.02 / spec["dt"] * 1.0
        k = m0 * w0**2
        fr = [1.0] if len(spec["comps"]) == 1 else [0.7, 0.3]
        for c, f in zip(spec["comps"], fr):
            c["pars"] = dict(k=0.0, g=0.0, kt=k * f / c.get("weight", 1.0))
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        t = sys.motion.thermostat
        lab = cg.label(spec)
        P, n3 = spec["nbeads"], 3
        npp = P * n3
        kt = spec["temp"] * P
        m3 = sg.A(sys.beads.m3).ravel()
        get, put = access(t, [(sys.beads, "q"), (sys.beads, "p")])
        mp = Map(sim, lambda: sys.motion.step(1), get, put)
        n = len(mp.base)
        sc = np.concatenate([np.full(npp, 0.1), np.sqrt(kt * m3), np.full(n - 2 * npp, np.sqrt(kt))])
        m, s, nn = mp.matrices(sc)
        x = sc * rng.standard_normal(n)
        w = rng.standard_normal(nn)
        rec.close(mp(x, w) / sc, (m @ x + s @ w + mp.zero) / sc, 1e-7, "linear", "[%s] MD step on a harmonic system is not linear" % lab)
        d = sc
        ms, ss = m * d[None, :] / d[:, None], s / d[:, None]
        ev = np.max(np.abs(np.linalg.eigvals(ms)))
        if not rec.check(ev < 1 - 1e-9, "stable", "[%s] MD step has an undamped mode: |eigenvalue| %.12f" % (lab, ev)):
            return
        c = solve_discrete_lyapunov(ms, ss @ ss.T)
        for _ in range(3):
            c = c + solve_discrete_lyapunov(ms, ms @ c @ ms.T + ss @ ss.T - c)
        res = np.abs(ms @ c @ ms.T + ss @ ss.T - c).max() / max(1, np.abs(c).max())
        rec.check(res < 1e-7, "stable", "[%s] Lyapunov residual %g" % (lab, res))
        c = c * d[:, None] * d[None, :]
        # expected: Hessian of all terms of the ring-polymer Hamiltonian
        nm = sys.nm
        tr = np.array([sg.A(nm.transform.b2nm(e.reshape(P, n3))).ravel() for e in np.eye(npp)]).T
        if spec["mode"] == "sc" or any(0 < c.get("nbeads", 0) < P for c in spec["comps"]):
            # energies as reported: their derivatives are the business of C07
            def pot(q):
                sys.beads.q[...] = q.reshape(P, n3)
                return float(nm.vspring + sys.forces.pot + (sys.forces.potsc if spec["mode"] == "sc" else 0.0))

            h = 0.1
            hess = np.zeros((npp, npp))
            e = np.eye(npp) * h
            d1 = np.array([pot(e[i]) for i in range(npp)])
            z = pot(np.zeros(npp))
            for i in range(npp):
                for j in range(i + 1):
                    hess[i, j] = hess[j, i] = (pot(e[i] + e[j]) - d1[i] - d1[j] + z) / h**2
        else:
            lam = m0 * (2 * kt * np.sin(np.pi * np.arange(P) / P)) ** 2
            lap = 2 * np.eye(P) - np.roll(np.eye(P), 1, 0) - np.roll(np.eye(P), -1, 0) if P > 1 else np.zeros((1, 1))
            if P == 2:
                lap = np.array([[2.0, -2.0], [-2.0, 2.0]])
            hess = np.kron(m0 * kt**2 * lap, np.eye(3)) + k * np.eye(npp)
        cq = kt * np.linalg.inv(hess)
        sq = np.sqrt(np.diag(cq))
        e1 = np.abs((c[:npp, :npp] - cq) / np.outer(sq, sq)).max()
        tol = 1e-3 * (3 if spec["mode"] == "sc" else 1)
        rec.check(e1 < tol, "stationary", "[%s] covariance of positions differs by %.2e (slowest mode %.1e, residual %.1e)" % (lab, e1, 1 - ev, res), key=("q", lab))
        mm = sg.A(nm.dynm3).ravel()
        cp = tr @ c[npp : 2 * npp, npp : 2 * npp] @ tr.T / np.sqrt(np.outer(mm, mm)) / kt
        e2 = np.abs(cp - np.eye(npp)).max()
        rec.check(e2 < tol, "stationary", "[%s] covariance of momenta differs by %.2e (units of kT)" % (lab, e2), key=("p", lab))
        # rate of a whole step: damping of the momentum of a free particle
        rec.sample(dict(config=lab, dim=n, noise=nn, err_q=float(e1), err_p=float(e2), slowest=float(1 - ev)))
        cg.end(sim)

    @staticmethod
    def rescale_step(case, rec, rng):
        """Damping over one whole MD step of free particles equals exp(-dt/tau)."""
        for th in ["langevin", "svr", "gle", "cl0", "pile_l", "pile_g"]:
            spec = base_spec(rng, case, th, natoms=2, modes=("nvt", "nvt", "npt") if th in ("langevin", "svr") else ("nvt",), nbeads=1, cellthermo=False, allow=("baoab", "mts", "multi", "prop"))
            if spec["mode"] == "npt":
                spec["baro"]["tau"] = 1e12
                spec["pressure"] = 0.0
            spec["thermo"].pop("ct", None)
            for c in spec["comps"]:
                c["pars"] = dict(k=0.0, g=0.0)
            sim = sg.load(cg.xml(spec, 5))
            sys = sim.syslist[0]
            lab = cg.label(spec)
            t = sys.motion.thermostat
            get, put = access(t, [(sys.beads, "p")])
            mp = Map(sim, lambda: sys.motion.step(1), get, put)
            x = mp.base.copy()
            npp = sys.beads.p.size
            x[npp:] = 0
            y = mp(x)[:npp]
            x = x[:npp]
            if th == "gle":
                from scipy.linalg import expm

                a, _ = cg.gle_matrices(np.random.default_rng(spec["thermo"].get("mseed", 0)), 1, spec["thermo"].get("ns", 2), spec["temp"], False)
                w = expm(-spec["dt"] * a[0])[0, 0]
            elif th in ("svr", "pile_g"):
                w = np.exp(-0.5 * spec["dt"] / spec["thermo"]["tau"])
            else:
                w = np.exp(-spec["dt"] / spec["thermo"]["tau"])
            rec.close(y, w * x, 1e-7, "damping", "[%s] damping of free particles over one MD step" % lab, key=("step", lab))
            cg.end(sim)

    @staticmethod
    def random(case, rec, rng):
        from scipy import stats

        th = case["th"]
        if th == "cellsvr":
            return CASE.cellsvr(case, rec, rng)
        spec = base_spec(rng, case, th, natoms=int(rng.integers(2, 5)), nbeads=int(rng.choice([1, 2, 3])), allow=("nmmodes", "fixcom"))
        spec["dt"] = float(rng.choice([10.0, 20.0]))
        spec["thermo"].pop("ct", None) if th != "pile_g" else None
        if th == "nm_gle_g":
            spec["thermo"]["with_c"] = False
        spec["thermo"]["tau"] = float(rng.choice([8.0, 20.0, 60.0]))
        spec["comps"] = [dict(pars=dict(k=0.0, g=0.0), weight=1.0, nbeads=0)]
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        t = sys.motion.thermostat
        nm = sys.nm
        lab = cg.label(spec)
        P, n3 = spec["nbeads"], 3 * spec["natoms"]
        kt = spec["temp"] * P
        fix = 3 if spec["fixcom"] else 0
        r = np.random.default_rng(case["cseed"] + 1)
        m = sg.A(nm.dynm3)
        cent = th in ("pile_g", "nm_gle_g")
        n = 1500 if case["tier"] == "quick" else 6000
        tau, dt = spec["thermo"]["tau"], float(t.dt)
        ktc = spec["thermo"]["ct"] * P if th == "pile_g" and spec["thermo"].get("ct") else kt

        def draw():
            p = np.sqrt(kt * m) * r.standard_normal(m.shape)
            p[0] *= np.sqrt(ktc / kt)
            if fix:
                a = p[0].reshape(-1, 3)
                mm = m[0].reshape(-1, 3)
                a -= mm * a.sum(axis=0) / mm.sum(axis=0)
            return p

        def kin():
            x = sg.A(nm.pnm) ** 2 / sg.A(nm.dynm3) * 0.5
            return x[0].sum() if cent else x.sum()

        nd = n3 - fix if cent else P * n3 - fix
        kc = ktc if cent else kt
        # moments at fixed starting kinetic energies
        if th != "nm_gle_g":
            for _ in range(2):
                p0 = draw() * float(r.choice([0.4, 1.0, 1.6]))
                p0b = None
                ks = np.zeros(n)
                worst = 0.0
                for i in range(n):
                    nm.pnm[...] = p0
                    if i == 0:
                        k0, p0b = kin(), sg.A(sys.beads.p)
                    e0, kk0 = float(t.ethermo), sys.nm.kin * 1.0
                    t.step()
                    worst = max(worst, abs((float(t.ethermo) - e0) + float(sys.nm.kin) - kk0) / kt)
                    ks[i] = kin()
                    if th == "ffl_hard":
                        pass
                rec.check(worst < 1e-8, "heat", "[%s] heat of a step is wrong by %g kT" % (lab, worst))
                c = np.exp(-dt / tau * (2 if th.startswith("ffl") else 1))
                nz = P * n3 if th.startswith("ffl") else nd
                mean = c * k0 + (1 - c) * nz * kc / 2
                var = 2 * nz * (kc / 2) ** 2 * (1 - c) ** 2 + 4 * c * (1 - c) * k0 * kc / 2
                z = (ks.mean() - mean) / np.sqrt(var / n)
                rec.check(abs(z) < 6, "moments", "[%s] kinetic energy after a step: mean %.4f kT, expected %.4f (z=%.1f)" % (lab, ks.mean() / kc, mean / kc, z), key=("mean", lab))
                m4 = stats.kurtosis(ks) + 2
                zv = (ks.var(ddof=1) / var - 1) / np.sqrt(max(m4, 1.0) / n)
                rec.check(abs(zv) < 6, "moments", "[%s] kinetic energy after a step: variance %.3f of the expected one (z=%.1f)" % (lab, ks.var(ddof=1) / var, zv), key=("var", lab))
        # distribution: start from the target
        kk = np.zeros(n)
        ps = []
        aux = thermos(t)
        for i in range(n):
            nm.pnm[...] = draw()
            for a in aux:
                a.s[...] = np.sqrt(kt) * r.standard_normal(a.s.shape)
            t.step()
            kk[i] = kin()
            ps.append((sg.A(nm.pnm) / np.sqrt(kt * m)).ravel())
        pv = stats.kstest(kk / kc, stats.gamma(nd / 2.0).cdf).pvalue
        # the GLE part of nm_gle_g and ffl also act on a centre of mass at rest
        if not (fix and (th.startswith("ffl") or th == "nm_gle_g")):
            rec.check(pv > 1e-8, "dist", "[%s] kinetic energy does not keep its distribution (p=%.1e, mean %.3f of %.3f)" % (lab, pv, kk.mean() / kc, nd / 2.0), key=("k", lab))
        ps = np.array(ps)
        if not fix and ktc == kt:
            pv = min(stats.kstest(ps[:, j], "norm").pvalue for j in range(ps.shape[1]))
            rec.check(pv > 1e-8, "dist", "[%s] a momentum does not keep its normal distribution (p=%.1e)" % (lab, pv), key=("p", lab))
            cc = np.corrcoef(ps.T) - np.eye(ps.shape[1])
            rec.check(np.abs(cc).max() < 7 / np.sqrt(n), "dist", "[%s] momenta become correlated (%.3f)" % (lab, np.abs(cc).max()), key=("c", lab))
        rec.sample(dict(config=lab, samples=n, ndof=nd))
        cg.end(sim)

    @staticmethod
    def cellsvr(case, rec, rng):
        while True:
            spec = cg.rand_spec(rng, modes=("npt", "nst"), thermos=["langevin"], nbeads=int(rng.choice([1, 2])), natoms=2)
            if spec["baro"].get("thermo", {}).get("kind") == "svr" and not spec["baro"].get("hfix") and not spec["baro"].get("volc"):
                break
        spec["baro"]["thermo"]["tau"] = 12.0
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        t = sys.motion.barostat.thermostat
        lab = cg.label(spec)
        n = 1500
        kt = spec["temp"] * spec["nbeads"]
        r = np.random.default_rng(case["cseed"] + 1)
        sd = np.sqrt(kt * sg.A(t.m))
        p0 = sd * r.standard_normal(len(sd))
        k0 = (p0**2 / sg.A(t.m)).sum() / 2
        ks = np.zeros(n)
        nd = 1 if spec["baro"]["mode"] == "isotropic" else 6
        for i in range(n):
            t.p[...] = p0
            e0 = float(t.ethermo)
            t.step()
            ks[i] = (sg.A(t.p) ** 2 / sg.A(t.m)).sum() / 2
            rec.check(abs(float(t.ethermo) - e0 + ks[i] - k0) < 1e-9 * (k0 + ks[i]), "heat", "[%s] heat of the cell thermostat" % lab)
        c = np.exp(-float(t.dt) / spec["baro"]["thermo"]["tau"])
        mean = c * k0 + (1 - c) * nd * kt / 2
        var = 2 * nd * (kt / 2) ** 2 * (1 - c) ** 2 + 4 * c * (1 - c) * k0 * kt / 2
        z = (ks.mean() - mean) / np.sqrt(var / n)
        rec.check(abs(z) < 6, "moments", "[%s] cell kinetic energy after a step: mean %.4f kT, expected %.4f (z=%.1f)" % (lab, ks.mean() / kt, mean / kt, z), key=("cell", lab))
        cg.end(sim)

    @staticmethod
    def account(case, rec, rng):
        """In any configuration a thermostat step changes momenta only and the conserved quantity not at all."""
        th = case["th"]
        for _ in range(3):
            spec = cg.rand_spec(rng, modes=("nvt", "npt", "nst", "sc", "scnpt", "nvt-cc") if th not in ("svr", "pile_g", "nm_gle_g", "multi") else ("nvt", "npt", "nst", "sc", "scnpt"), thermos=[th] if th != "multi" else None, allow=cg.ALL if hasattr(cg, "ALL") else ())
            if th == "multi":
                spec["thermo"] = cg.rand_thermo(rng, spec, ["multi", "langevin", "svr", "pile_l", "pile_g", "gle", "cl", "ffl"])
            sim = sg.load(cg.xml(spec, 5))
            sys = sim.syslist[0]
            lab = cg.label(spec)
            sim.run_step(0)
            ts = [("atoms", sys.motion.thermostat)]
            if spec.get("baro", {}).get("thermo"):
                ts.append(("cell", sys.motion.barostat.thermostat))
            for nm, t in ts:
                for j in range(3):
                    a = cg.state(sim)
                    c0, k0 = float(sys.ensemble.econs), float(sys.nm.kin)
                    t.step()
                    b = cg.state(sim)
                    scale = abs(k0) + spec["temp"] * spec["nbeads"] * spec["natoms"] * 3
                    rec.check(abs(float(sys.ensemble.econs) - c0) < 1e-9 * (scale + abs(c0)), "heat", "[%s] conserved quantity changes by %g over a step of the thermostat of the %s" % (lab, float(sys.ensemble.econs) - c0, nm), key=(nm, lab))
                    ch = {k for k in a if k in b and not np.array_equal(np.asarray(a[k]), np.asarray(b[k]))}
                    bad = [k for k in ch if not any(w in k for w in (".p", "ethermo", ".s", "prng", "econs", "intau", "idtau", "thermo"))]
                    rec.check(not bad, "only_p", "[%s] the thermostat of the %s also changes %s" % (lab, nm, bad))
                    want = "s0.p" if nm == "atoms" else None
                    if want:
                        rec.check(want in ch, "only_p", "[%s] the thermostat does nothing" % lab)
                    else:
                        rec.check("s0.p" not in ch and "s0.q" not in ch and "s0.h" not in ch, "only_p", "[%s] the cell thermostat acts on %s" % (lab, sorted(ch)))
            cg.end(sim)

    @staticmethod
    def off(case, rec, rng):
        """With a vanishing coupling nothing changes."""
        th = case["th"]
        if th in ("gle", "gle_c", "nm_gle", "nm_gle_g", "multi"):
            return CASE.off_gle(case, rec, rng)
        spec = base_spec(rng, case, th, natoms=3)
        spec["thermo"]["tau"] = 1e22
        for k in ("intau", "idtau", "apat"):
            spec["thermo"].pop(k, None)
        if th in ("pile_l", "pile_g"):
            spec["thermo"]["lam"] = 1e-22
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        p0, e0 = sg.A(sys.beads.p), float(sys.motion.thermostat.ethermo)
        for _ in range(4):
            sys.motion.thermostat.step()
        sc = np.sqrt(spec["temp"] * spec["nbeads"] * sg.A(sys.beads.m3))
        rec.close(1.0 + (sg.A(sys.beads.p) - p0) / sc, 0 * sc + 1.0, 1e-9, "off", "[%s] momenta change although the coupling vanishes" % cg.label(spec), key=cg.label(spec))
        rec.check(abs(float(sys.motion.thermostat.ethermo) - e0) < 1e-9 * spec["temp"] * spec["nbeads"], "off", "[%s] heat flows although the coupling vanishes" % cg.label(spec))
        cg.end(sim)

    @staticmethod
    def off_gle(case, rec, rng):
        spec = base_spec(rng, case, "gle", natoms=2)
        sim = sg.load(cg.xml(spec, 5))
        sys = sim.syslist[0]
        t = sys.motion.thermostat
        t.A = np.zeros_like(sg.A(t.A))
        p0 = sg.A(sys.beads.p)
        t.step()
        sc = np.sqrt(spec["temp"] * spec["nbeads"] * sg.A(sys.beads.m3))
        rec.close(1.0 + (sg.A(sys.beads.p) - p0) / sc, 0 * sc + 1.0, 1e-7, "off", "[%s] momenta change although the drift matrix is zero" % cg.label(spec), key=cg.label(spec))
        cg.end(sim)
