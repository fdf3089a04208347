"""C16: reported properties and trajectories against independent definitions."""
import itertools

import numpy as np

from checks import c07_forces as c07
from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed

PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: every property and trajectory the engine offers is re-evaluated from its definition on the state it was read from; estimator averages are decided by exact Gaussian cubature against the partition function"
NOTE = "Random states (1-8 beads, closed and open paths, scaled dynamical masses, contraction, several weighted components, Suzuki-Chin, moving cells, changed temperatures) are reached by real motion and by edits; about 90 properties and 25 trajectories with atom, label, bead and mode selections are compared with closed-form definitions. Averages of primitive, virial, thermodynamic and scaled-coordinate estimators are computed exactly over a Gaussian path distribution and compared with derivatives of the log partition function."
RULE = "each evaluation is one property or trajectory compared on one state, or one exact average; distinct counts (name, selection kind, state kind)"
ASSUMPTIONS = ["component potentials are the analytic ones of vf/vfpes.py", "quantities that depend on a driving field, on bosonic exchange (C19) or on the constraint count of the temperature (C11) are decided elsewhere", "finite-difference estimators are asked for a fixed displacement"]
REQUIRE = {"basic": 200, "select": 200, "kinetic": 100, "stress": 100, "component": 100, "scaled": 50, "isotope": 50, "traj": 200, "sc": 40, "average": 20, "refuse": 20}
TIMEOUT = {"quick": 200, "thorough": 400}


DIM = {}
for _d, _n in dict(
    energy="potential bead_potentials spring kinetic_md kinetic_cv kinetic_td kinetic_prsc kinetic_tdsc kinetic_opsc kinetic_tens kinetic_ij potential_opsc potential_tdsc pot_component pot_component_raw kinetic_od ti_pot virial_fq",
    length="cell_h atom_x atom_x_path positions x_centroid x_centroid_even x_centroid_odd r_gyration",
    velocity="atom_v vcom velocities v_centroid v_centroid_even v_centroid_odd",
    momentum="atom_p momenta p_centroid",
    force="atom_f atom_f_path forces forces_spring forces_sc f_centroid forcemod forces_component forces_component_raw",
    pressure="stress_md pressure_md kstress_md virial_md stress_cv pressure_cv kstress_cv virial_cv pressure_tdsc vir_tdsc kstress_tdsc vir_component vir_component_raw ensemble_pressure",
    temperature="temperature ensemble_temperature",
    volume="volume",
    density="density",
).items():
    for _x in _n.split():
        DIM[_x] = _d


def cases(tier, seed):
    n, ns, ng = (260, 50, 40) if tier == "quick" else (1500, 250, 150)
    out = [dict(name="defs_%d" % i, kind="defs", cseed=sub_seed(seed, "c16", i)) for i in range(n)]
    out += [dict(name="sc_%d" % i, kind="sc", cseed=sub_seed(seed, "c16s", i)) for i in range(ns)]
    out += [dict(name="gauss_%d" % i, kind="gauss", cseed=sub_seed(seed, "c16g", i)) for i in range(ng)]
    return out


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    if case["kind"] == "gauss":
        return k_gauss(case, rec, rng)
    return k_defs(case, rec, rng, case["kind"] == "sc")


def vec(t):
    return np.array([t[0, 0], t[1, 1], t[2, 2], t[0, 1], t[0, 2], t[1, 2]])


def signed_logsum(x, s):
    """log|sum s e^x| and its sign"""
    x, s = np.asarray(x, float), np.asarray(s, float)
    m = x.max()
    t = np.sum(s * np.exp(x - m))
    return m + np.log(abs(t)), np.sign(t)


class State:
    """Everything needed by the definitions, read once from the primitive state."""

    def __init__(self, s, spec, orc):
        A = sg.A
        self.q, self.p, self.h = A(s.beads.q), A(s.beads.p), A(s.cell.h)
        self.m, self.names = A(s.beads.m), [str(x) for x in s.beads.names]
        self.P, self.N = self.q.shape[0], len(self.m)
        self.kT = float(s.ensemble.temp)  # atomic units
        self.orc, self.spec = orc, spec
        self.opens = orc.opens
        self.m3 = np.repeat(self.m, 3)
        self.V = abs(np.linalg.det(self.h))
        self.qc, self.pc = self.q.mean(0), self.p.mean(0)
        self.pot, self.f, self.vir = orc.total(self.q, self.h)
        self.w2 = (self.P * self.kT) ** 2
        # bead energies
        self.pots = np.zeros(self.P)
        for k, w in enumerate(orc.w):
            m, v, f, vir, qc, C = orc.comp(k, self.q, self.h)
            if m == self.P:
                self.pots += w * v
            else:
                self.pots += w * self.P / m * c07.contraction_closed(self.P, m).T @ v
        # dynamical masses in the normal modes of each atom
        fac = A(s.nm.nm_factor).ravel()  # dynamical over physical mass, input of the mode
        self.fac = fac
        self.pnm = np.zeros_like(self.p)
        for i in range(self.N):
            B = c07.modes(self.P, i not in self.opens)
            if i not in self.opens:
                B = order_modes(self.P)
            self.pnm[:, 3 * i : 3 * i + 3] = B @ self.p[:, 3 * i : 3 * i + 3]
        self.knm = self.pnm**2 / (2 * self.m3 * fac[:, None])

    def energy(self, q):
        return self.orc.total(q, self.h)[0]

    def force(self, q):
        return self.orc.total(q, self.h)[1]

    def spr(self, i):
        """spring sum of the closed path of atom i, (q_{b+1}-q_b)^2"""
        x = self.q[:, 3 * i : 3 * i + 3]
        return np.sum((x - np.roll(x, 1, axis=0)) ** 2) if self.P > 1 else 0.0

    def scaled(self, i, a):
        """only atom i (or all) contracted about its centroid by a"""
        q = self.q.copy()
        c = slice(0, 3 * self.N) if i is None else slice(3 * i, 3 * i + 3)
        q[:, c] = self.qc[c] + a * (self.q[:, c] - self.qc[c])
        return q

    def sel(self, atom):
        if atom == "":
            return list(range(self.N))
        if atom in self.names:
            return [i for i in range(self.N) if self.names[i] == atom]
        return [int(atom)]


def order_modes(n):
    """closed-path modes in the engine's documented order: centroid, cosines, (highest), sines descending"""
    j = np.arange(n)
    rows = [np.full(n, 1 / np.sqrt(n))]
    for k in range(1, n):
        if 2 * k < n:
            rows.append(np.sqrt(2.0 / n) * np.cos(2 * np.pi * k * j / n))
        elif 2 * k == n:
            rows.append(np.sqrt(1.0 / n) * (-1.0) ** j)
        else:
            rows.append(np.sqrt(2.0 / n) * np.sin(2 * np.pi * k * j / n))
    return np.array(rows)


def make(rng, sc):
    allow = () if sc else ("open", "prop", "nmmodes", "multi", "contraction")
    modes = ("sc", "scnpt") if sc else ("nve", "nvt", "npt", "nst")
    spec = cg.rand_spec(rng, modes=modes, thermos=["langevin"], allow=allow, natoms=int(rng.integers(2, 5)))
    n = spec["nbeads"]
    if sc:
        spec["nbeads"] = n = int(rng.choice([4, 6, 8]))
        for c in spec["comps"]:
            c["fd"] = 1e-4
    for c in spec["comps"]:
        if spec["mode"] in ("nve", "nvt") and not sc:
            c["pars"].update(c07.rand_pars(rng, True))
        c["pars"].setdefault("kt", 0.01)
    return spec


def change(rng, s, n):
    """Edits the state: positions, momenta, cell, temperature, or a real step."""
    A = sg.A
    for how in rng.permutation(5)[: int(rng.integers(1, 4))]:
        if how == 0:
            s.beads.q = A(s.beads.q) + 0.05 * rng.standard_normal(A(s.beads.q).shape)
        elif how == 1:
            s.beads.p = A(s.beads.p) * rng.uniform(0.7, 1.3) + 0.5 * rng.standard_normal(A(s.beads.p).shape)
        elif how == 2:
            e = np.eye(3) + np.triu(0.03 * rng.standard_normal((3, 3)))
            s.cell.h = e @ A(s.cell.h)
            s.beads.q = (A(s.beads.q).reshape(-1, 3) @ e.T).reshape(n, -1)
        elif how == 3:
            s.ensemble.temp = float(s.ensemble.temp) * rng.uniform(0.8, 1.25)
        else:
            s.simul.run_step(0) if hasattr(s.simul, "run_step") else s.motion.step(0)


def k_defs(case, rec, rng, sc):
    spec = make(rng, sc)
    x = cg.xml(spec, nsteps=1).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    sim = sg.load(x)
    s = sim.syslist[0]
    n = spec["nbeads"]
    if sc:
        s.forces.alpha = float(rng.choice([0.0, 0.0, 0.5]))
    wts = [c["weight"] * (sum(c["mts"]) if c.get("mts") else 1.0) for c in spec["comps"]]
    orc = c07.Oracle(spec, spec["comps"], wts)
    for it in range(3):
        if it:
            change(rng, s, n)
        S = State(s, spec, orc)
        todo = []
        build(S, s, spec, rng, todo, sc)
        rng.shuffle(todo)  # the order of reading is part of the history
        lab = "%s P=%d%s%s state %d" % (spec["mode"], n, " open" if S.opens else "", " contracted" if any((c.get("nbeads") or n) != n for c in spec["comps"]) else "", it)
        cls = (spec["mode"] in ("npt", "nst", "scnpt"), n > 1, bool(S.opens), sc, it > 0)
        for kind, name, want, tol, atol, traj in todo:
            src = s.trajs if traj else s.properties
            nm = name.split("(")[0]
            k = (nm, "(" in name) + cls
            try:
                got, dim = src[name][:2]
            except Exception as e:
                rec.check(False, kind, "%s: %s raised %r" % (lab, name, e), k)
                continue
            got = np.asarray(sg.A(got) if not np.isscalar(got) else got, float).ravel()
            want = np.asarray(want, float).ravel()
            if nm in DIM:
                rec.check(dim == DIM[nm], kind, "%s: %s is said to be a %s" % (lab, name, dim), ("dim", nm))
            if got.shape != want.shape:
                rec.check(False, kind, "%s: %s has %d values instead of %d" % (lab, name, got.size, want.size), k)
                continue
            rec.close(got, want, tol, kind, "%s: %s" % (lab, name), k, atol=atol)
        refusals(S, s, rec, rng, lab)
        # reading must not have changed the state
        ok = np.array_equal(sg.A(s.beads.q), S.q) and np.array_equal(sg.A(s.beads.p), S.p) and np.array_equal(sg.A(s.cell.h), S.h)
        rec.check(ok, "basic", "%s: reading properties changed the state" % lab, ("pure",) + cls)
    cg.end(sim)


def refusals(S, s, rec, rng, lab):
    bad = ["kinetic_cv(%d)" % S.N, "atom_x(%d)" % (S.N + 3), "kinetic_md(%d)" % S.N, "r_gyration(%d)" % S.N, "no_such_property", "kinetic_ij(%d;0)" % S.N, "isotope_tdfep(2.0;%d)" % S.N, "potential(bead=%d)" % S.P, "kinetic_md(bead=%d)" % S.P, "atom_x(0;%d)" % S.P]
    for name in rng.permutation(bad)[:3]:
        try:
            got = s.properties[str(name)][0]
            rec.check(False, "refuse", "%s: %s should be refused, gave %r" % (lab, name, got), ("refuse", str(name).split("(")[0]))
        except Exception:
            rec.ok("refuse", ("refuse", str(name).split("(")[0]))


def build(S, s, spec, rng, todo, sc):
    P, N, kT, m3 = S.P, S.N, S.kT, S.m3

    def put(kind, name, want, tol=1e-9, atol=1e-11, traj=False):
        todo.append((kind, name, want, tol, atol, traj))

    ids = [str(i) for i in range(N)]
    labels = sorted(set(S.names))
    sels = [""] + [str(rng.choice(ids)), str(rng.choice(labels))]

    def nm(base, *args, **kw):
        if rng.random() < 0.4:  # keyword form
            a = ["%s=%s" % (k, v) for k, v in zip(kw.pop("keys"), args) if v != ""]
        else:
            kw.pop("keys", None)
            a = list(args)
            while a and a[-1] == "":
                a.pop()
        return base + ("(%s)" % ";".join(str(v) for v in a) if a else "")

    # ---- basics
    put("basic", "volume", S.V)
    put("basic", "density", S.m.sum() / S.V)
    put("basic", "cell_h", vec(S.h))
    a, b, c = S.h.T
    L = [np.linalg.norm(v) for v in (a, b, c)]
    ang = [np.degrees(np.arccos(u @ v / np.linalg.norm(u) / np.linalg.norm(v))) for u, v in ((b, c), (a, c), (a, b))]
    put("basic", "cell_abcABC", L + ang)
    put("basic", "ensemble_temperature", kT)
    if spec["mode"] in ("npt", "scnpt"):
        put("basic", "ensemble_pressure", float(s.ensemble.pext))
    put("basic", "potential", S.pot / P)
    # the interpolation of an energy over a mixture of open and closed paths has no unique definition
    contr = any((c_.get("nbeads") or P) not in (0, P) and (c_.get("nbeads") or P) < P for c_ in spec["comps"])
    mixed = bool(S.opens) and contr
    if not mixed:
        put("basic", "bead_potentials", S.pots)
    put("basic", "forcemod(bead=%d)" % (P - 1), np.linalg.norm(S.f[P - 1]))
    if P == 1:
        put("basic", "forcemod", np.linalg.norm(S.f))
    b = int(rng.integers(P))
    if not mixed:
        put("select", "potential(bead=%d)" % b, S.pots[b])
    spr = 0.0
    for i in range(N):
        x = S.q[:, 3 * i : 3 * i + 3]
        d = np.diff(x, axis=0)
        spr += 0.5 * S.m[i] * S.w2 * (np.sum(d**2) + (0 if i in S.opens else np.sum((x[0] - x[-1]) ** 2)))
    if (spec.get("nm") or {}).get("style", "rpmd") == "rpmd" or True:
        put("basic", "spring", spr / P)
    # ---- atoms
    v = S.p / m3
    f_over = dict(atom_x=S.q, atom_v=v, atom_p=S.p, atom_f=S.f)
    for name, arr in f_over.items():
        i = int(rng.integers(N))
        put("select", nm(name, i, "", keys=("atom", "bead")), arr.mean(0)[3 * i : 3 * i + 3], atol=1e-10)
        put("select", nm(name, i, b, keys=("atom", "bead")), arr[b, 3 * i : 3 * i + 3], atol=1e-10)
    i = int(rng.integers(N))
    put("select", "atom_x_path(%d)" % i, S.q[:, 3 * i : 3 * i + 3])
    put("select", "atom_f_path(%d)" % i, S.f[:, 3 * i : 3 * i + 3], atol=1e-10)
    for lb in ("", labels[0]):
        w = [k for k in range(N) if lb == "" or S.names[k] == lb]
        for bb in ("", b):
            p = S.pc if bb == "" else S.p[bb]
            t = sum(p[3 * k : 3 * k + 3] for k in w) / sum(S.m[k] for k in w)
            if lb == "" and bb != "":
                put("select", "vcom(bead=%d)" % b, t, atol=1e-12)
            else:
                put("select", nm("vcom", lb, bb, keys=("latom", "bead")), t, atol=1e-12)
    for sel in sels:
        w = S.sel(sel)
        rg = np.mean([np.sqrt(np.mean(np.sum((S.q[:, 3 * k : 3 * k + 3] - S.qc[3 * k : 3 * k + 3]) ** 2, axis=1))) for k in w])
        put("select", nm("r_gyration", sel, keys=("atom",)), rg)
        # classical kinetic energies
        cols = np.concatenate([[3 * k, 3 * k + 1, 3 * k + 2] for k in w])
        put("kinetic", nm("kinetic_md", sel, keys=("atom",)), S.knm[:, cols].sum() / P)
        mode = int(rng.integers(P))
        put("kinetic", "kinetic_md(%s)" % ";".join((["atom=" + sel] if sel else []) + ["nm=%d" % mode]), S.knm[mode, cols].sum())
        if np.all(S.fac == 1) and not any(k in S.opens for k in w):
            put("kinetic", "kinetic_md(%s)" % ";".join((["atom=" + sel] if sel else []) + ["bead=%d" % b]), np.sum(S.p[b, cols] ** 2 / (2 * m3[cols])))
        if not spec.get("fixcom"):
            put("kinetic", nm("temperature", sel, keys=("atom",)), 2 * S.knm[:, cols].sum() / P / (len(cols) * P))
        # quantum kinetic energies
        dq = S.q - S.qc
        cv = -0.5 / P * np.sum(dq[:, cols] * S.f[:, cols]) + 0.5 * len(cols) * kT
        put("kinetic", nm("kinetic_cv", sel, keys=("atom",)), cv)
        td = 0.5 * len(cols) * P * kT - sum(0.5 * S.m[k] * S.w2 * S.spr(k) for k in w) / P
        if not any(k in S.opens for k in w):
            put("kinetic", nm("kinetic_td", sel, keys=("atom",)), td, atol=1e-9)
        T = np.zeros((3, 3))
        for k in w:
            x = dq[:, 3 * k : 3 * k + 3].T @ S.f[:, 3 * k : 3 * k + 3]
            T += -0.25 / P * (x + x.T) + 0.5 * kT * np.eye(3)
        put("kinetic", nm("kinetic_tens", sel, keys=("atom",)), vec(T))
        ti = sum(np.sum(S.f[:, 3 * k : 3 * k + 3] ** 2) / S.m[k] for k in w) / (24 * S.w2) / P
        put("scaled", nm("ti_pot", sel, keys=("atom",)), ti)
    i, j = (int(x) for x in rng.integers(N, size=2))
    mi, mj = S.m[i], S.m[j]
    dq = S.q - S.qc
    ai, aj = slice(3 * i, 3 * i + 3), slice(3 * j, 3 * j + 3)
    # <p_i p_j>/(2 sqrt(mi mj)), centroid virial form: each cross term carries its own mass ratio
    X = mi * dq[:, ai].T @ S.f[:, aj] + mj * S.f[:, ai].T @ dq[:, aj]
    X *= -0.25 / P / np.sqrt(mi * mj)
    if i == j:
        X += 0.5 * kT * np.eye(3)
    put("kinetic", "kinetic_ij(%d;%d)" % (i, j), vec(X))
    if P == 1:
        put("kinetic", "kinetic_cv", 1.5 * N * kT)
        put("kinetic", "kinetic_td", 1.5 * N * kT)
    # ---- stress
    ks = np.zeros((3, 3))
    for k in range(N):
        g = S.pnm[:, 3 * k : 3 * k + 3] / np.sqrt(S.m[k] * S.fac[:, None])
        ks += g.T @ g
    put("stress", "virial_md", vec(S.vir / S.V))
    put("stress", "kstress_md", vec(np.triu(ks)) / S.V)
    put("stress", "stress_md", vec(S.vir + ks) / S.V)
    put("stress", "pressure_md", np.trace(S.vir + ks) / (3 * S.V))
    kc = np.zeros((3, 3))
    for k in range(N):
        kc -= dq[:, 3 * k : 3 * k + 3].T @ S.f[:, 3 * k : 3 * k + 3]
        kc += P * np.diag(S.pc[3 * k : 3 * k + 3] ** 2 / S.m[k])
    put("stress", "virial_cv", vec(S.vir / S.V) / P)
    put("stress", "kstress_cv", vec(kc) / S.V / P)
    put("stress", "stress_cv", vec(S.vir + kc) / S.V / P)
    put("stress", "pressure_cv", np.trace(S.vir + kc) / (3 * S.V * P))
    if not (spec.get("_fq")):
        put("stress", "virial_fq", 0.5 * np.sum(S.f * S.q) / P)
    # ---- components
    for k, cmp_ in enumerate(spec["comps"]):
        m, pv, f, vir, qcn, C = S.orc.comp(k, S.q, S.h)
        r, wt = P / m, cmp_["weight"]
        put("component", "pot_component(%d)" % k, wt * pv.mean())
        put("component", "pot_component_raw(%d)" % k, pv.mean())
        bm = int(rng.integers(m))
        put("component", "pot_component_raw(%d;%d)" % (k, bm), pv[bm])
        Cc = c07.contraction_closed(P, m) if m < P else np.eye(P)
        if not mixed:
            put("component", "pot_component(%d;%d)" % (k, b), wt * r * (Cc.T @ pv)[b])
        put("component", "vir_component(%d)" % k, wt * vec(vir.mean(0)) / S.V)
        put("component", "vir_component_raw(%d)" % k, vec(vir.mean(0)) / S.V)
        put("component", "vir_component_raw(%d;bead=%d)" % (k, bm), vec(vir[bm]) / S.V)
        ff = np.zeros_like(S.q)
        for i in range(N):
            ff[:, 3 * i : 3 * i + 3] = wt * r * C[i].T @ f[:, 3 * i : 3 * i + 3]
        put("component", "forces_component(%d)" % k, ff.mean(0), traj=True, atol=1e-10)
        put("component", "forces_component(%d;%d)" % (k, b), ff[b], traj=True, atol=1e-10)
        put("component", "forces_component_raw(%d)" % k, f.mean(0), traj=True, atol=1e-10)
        put("component", "forces_component_raw(%d;%d)" % (k, bm), f[bm], traj=True, atol=1e-10)
    # ---- scaled coordinates and path estimators
    beta = 1 / kT
    noise = 1e-12 * max(1.0, abs(S.pot) / P)
    if not S.opens:
        de = 1e-3
        vp, vm = (S.energy(S.scaled(None, np.sqrt(1 + x))) / P for x in (de, -de))
        v0 = S.pot / P
        eps = ((1 + de) * vp - (1 - de) * vm) / (2 * de) + 1.5 * N * kT
        epsp = ((1 + de) * vp + (1 - de) * vm - 2 * v0) / (de**2 * beta) - 1.5 * N * kT**2
        put("scaled", "scaledcoords(%g)" % de, [eps, epsp], atol=noise / de**2 * kT, tol=1e-7)
    alpha = float(rng.choice([0.5, 2.0, 1.0, 1.5, 18.0 / 16.0]))
    sel = sels[int(rng.integers(3))]
    w = S.sel(sel)
    al = "%.12g" % alpha
    if not any(k in S.opens for k in w):
        lr, tc, tsp, sce = [], [], [], []
        lr2, tc2 = [], []
        td4, sc4 = [], []
        for k in w:
            a3 = slice(3 * k, 3 * k + 3)
            q2 = S.scaled(k, 1 / np.sqrt(alpha))
            f2 = S.force(q2)
            dv = S.energy(q2) - S.pot
            tc.append(-0.5 / P * np.sum((q2[:, a3] - S.qc[a3]) * f2[:, a3]) + 1.5 * kT)
            lr.append(dv / (kT * P))
            sce.append(dv)
            sp = 0.5 * (alpha - 1) * S.m[k] * S.w2 * S.spr(k)
            tsp.append(sp)
            lr2.append(sp / (kT * P))
            tc2.append(-0.5 / P * np.sum(dq[:, a3] * S.f[:, a3]) + 1.5 * kT)
            F2 = np.sum(S.f[:, a3] ** 2, axis=1) / S.m[k] / S.w2
            G2 = np.sum(f2[:, a3] ** 2, axis=1) / S.m[k] / S.w2
            td4.append((sp, sp + (1 / alpha - 1) * F2.sum() / 24, sp + (1 / alpha - 1) * F2[1::2].sum() / 9))
            if P % 2 == 0 and all((c.get("nbeads") or P) == P for c in spec["comps"]):
                pv = bead_pots(S, q2)
                odd = np.sum((pv[1::2] - pv[::2]) - (S.pots[1::2] - S.pots[::2])) / 3
                sc4.append((dv, dv + np.sum(G2 / alpha - F2) / 24, dv + np.sum(G2[1::2] / alpha - F2[1::2]) / 9 + odd))
        lr, tc, lr2, tc2 = (np.array(z) for z in (lr, tc, lr2, tc2))
        for name, l, t in (("isotope_scfep", lr, tc), ("isotope_tdfep", lr2, tc2)):
            a1 = signed_logsum(-l, np.ones_like(l))[0]
            big = np.abs(t).max()
            a2, sg2 = signed_logsum(-l + np.log(np.abs(t)), np.sign(t))
            if np.abs(np.sum(np.exp(-l - l.min()) * t)) > 1e-3 * big * np.exp(-l - l.min()).max() and np.abs(l).max() < 300:
                put("isotope", nm(name, al, sel, keys=("alpha", "atom")), [l.mean(), (l**2).mean(), t.mean(), (t**2).mean(), a1, a2, sg2], tol=1e-8, atol=1e-8)
        ff = alpha ** (1.5 * (P - 1))
        sp, se = np.array(tsp), np.array(sce)
        bp = 1 / (kT * P)
        ok = np.abs(bp * np.concatenate([sp, se] + [np.ravel(z) for z in (td4, sc4)])).max() < 200
        if ok:
            put("isotope", nm("isotope_zetatd", al, sel, keys=("alpha", "atom")), [sp.mean(), (sp**2).mean(), np.exp(-bp * sp).mean() * ff], tol=1e-8)
            put("isotope", nm("isotope_zetasc", al, sel, keys=("alpha", "atom")), [se.mean(), (se**2).mean(), np.exp(-bp * se).mean()], tol=1e-8)
            t4 = np.array(td4)
            put("isotope", nm("isotope_zetatd_4th", al, sel, keys=("alpha", "atom")), [t4[:, 0].mean(), (t4[:, 0] ** 2).mean()] + [np.exp(-bp * t4[:, z]).mean() * ff for z in range(3)], tol=1e-8)
            if sc4:
                t4 = np.array(sc4)
                put("isotope", nm("isotope_zetasc_4th", al, sel, keys=("alpha", "atom")), [t4[:, 0].mean(), (t4[:, 0] ** 2).mean()] + [np.exp(-bp * t4[:, z]).mean() for z in range(3)], tol=1e-8)
            zt, zs = np.zeros((N, 3)), np.zeros((N, 3))
            zt[:, 2] = zs[:, 2] = 1.0  # exponent zero for the atoms that are not selected
            for k, a_, b_ in zip(w, sp, se):
                zt[k] = a_, a_**2, np.exp(-bp * a_)
                zs[k] = b_ / P, (b_ / P) ** 2, np.exp(-b_ / P / kT)
            put("isotope", nm("isotope_zetatd", al, sel, keys=("alpha", "atom")), zt, tol=1e-8, traj=True)
            put("isotope", nm("isotope_zetasc", al, sel, keys=("alpha", "atom")), zs, tol=1e-8, traj=True)
        u = 0.2 * rng.standard_normal(3)
        u = np.array([float("%.6g" % z) for z in u])
        ex = []
        for k in w:
            q2 = S.q.copy()
            for bb in range(P):
                q2[bb, 3 * k : 3 * k + 3] += (bb / P + 0.5 / P - 0.5) * u
            ex.append(np.exp(-S.m[k] * (u @ u) * kT / 2 - (S.energy(q2) - S.pot) / P / kT))
        put("scaled", nm("displacedpath", *(["%.6g" % z for z in u] + [sel]), keys=("ux", "uy", "uz", "atom")), np.mean(ex), tol=1e-8, atol=1e-12 * max(1, np.max(ex)))
    if not S.opens and all((c.get("nbeads") or P) == P for c in spec["comps"]):
        F2 = np.sum(S.f**2 / m3, axis=1) / S.w2
        l = -F2.sum() / 24 / (P * kT)
        put("scaled", "ti_weight", [l, l * l, np.exp(l)], tol=1e-8)
        if P % 2 == 0:
            l = -(F2[1::2].sum() / 9 + np.sum(S.pots[1::2] - S.pots[::2]) / 3) / (P * kT)
            put("scaled", "chin_weight", [l, l * l, np.exp(l)], tol=1e-8)
    # ---- trajectories
    T = lambda name, want: put("traj", name, want, traj=True, atol=1e-10)
    T("positions", S.q), T("velocities", v), T("momenta", S.p), T("forces", S.f)
    T("x_centroid", S.qc), T("v_centroid", S.pc / m3), T("p_centroid", S.pc), T("f_centroid", S.f.mean(0))
    fs = np.zeros_like(S.q)
    for i in range(N):
        sl = slice(3 * i, 3 * i + 3)
        x = S.q[:, sl]
        if P > 1:
            d = np.roll(x, -1, axis=0) + np.roll(x, 1, axis=0) - 2 * x
            if i in S.opens:
                d[0] = x[1] - x[0]
                d[-1] = x[-2] - x[-1]
            if P == 2 and i not in S.opens:
                d = 2 * (x[::-1] - x)
            fs[:, sl] = S.m[i] * S.w2 * d
    T("forces_spring", fs)
    T("kinetic_cv", -0.5 / P * np.sum(dq * S.f, axis=0) + 0.5 * kT)
    od = np.zeros((N, 3))
    for k in range(N):
        x = dq[:, 3 * k : 3 * k + 3].T @ S.f[:, 3 * k : 3 * k + 3]
        od[k] = [-0.25 / P * (x[a_, b_] + x[b_, a_]) for a_, b_ in ((0, 1), (0, 2), (1, 2))]
    T("kinetic_od", od)
    T("r_gyration", np.sqrt(np.mean(dq**2, axis=0)))
    if P % 2 == 0:
        for nme, arr in (("x", S.q), ("v", v)):
            T(nme + "_centroid_even", arr[::2].mean(0))
            T(nme + "_centroid_odd", arr[1::2].mean(0))
    if sc:
        build_sc(S, s, put)


def bead_pots(S, q):
    out = np.zeros(S.P)
    for k, w in enumerate(S.orc.w):
        out += w * S.orc.comp(k, q, S.h)[1]
    return out


def sc_eff(S, q, h, al, bscale=1.0):
    """Suzuki-Chin effective potential (sum over beads) and its |f|^2 part"""
    pv, F = np.zeros(S.P), np.zeros_like(q)
    for k, w in enumerate(S.orc.w):
        _, v, f, *_ = S.orc.comp(k, q, h)
        pv += w * v
        F += w * f
    odd = np.arange(S.P) % 2 == 1
    cw = np.where(odd, 4 / 3, 2 / 3)
    cf = np.where(odd, 1 - al, al) / 9
    ff = np.sum(F**2 / S.m3, axis=1) / S.w2 * cf * bscale**2  # omega_P^2 goes as 1/beta^2
    return np.sum(cw * pv) + ff.sum(), ff, pv


def build_sc(S, s, put):
    P, N, kT = S.P, S.N, S.kT
    al = float(s.forces.alpha)
    E0, ff, pv = sc_eff(S, S.q, S.h, al)
    cw = np.where(np.arange(P) % 2 == 1, 4 / 3, 2 / 3)
    put("sc", "potential_opsc", S.pots[::2].mean())
    put("sc", "potential_tdsc", (np.sum(cw * pv) + 2 * ff.sum()) / P)
    spr = sum(0.5 * S.m[k] * S.w2 * S.spr(k) for k in range(N))
    put("sc", "kinetic_prsc", 1.5 * N * P * kT - spr / P + ff.sum() / P, atol=1e-9)
    dq = S.q - S.qc
    op = 1.5 * N * kT - np.sum(dq[::2] * S.f[::2]) / P
    put("sc", "kinetic_opsc", op)
    k = N - 1
    put("sc", "kinetic_opsc(%d)" % k, 1.5 * kT - np.sum(dq[::2, 3 * k : 3 * k + 3] * S.f[::2, 3 * k : 3 * k + 3]) / P)
    # derivative of the effective action along the scaling of the paths, by differences
    e = 1e-4
    d = (8 * (sc_eff(S, S.scaled(None, 1 + e), S.h, al)[0] - sc_eff(S, S.scaled(None, 1 - e), S.h, al)[0]) - (sc_eff(S, S.scaled(None, 1 + 2 * e), S.h, al)[0] - sc_eff(S, S.scaled(None, 1 - 2 * e), S.h, al)[0])) / (12 * e)
    tol = 3e-5
    sc = 1.5 * N * kT + abs(d) / P
    put("sc", "kinetic_tdsc", 1.5 * N * kT + 0.5 * d / P + ff.sum() / P, tol=tol, atol=tol * sc)
    # pressure: strain acts on the centroids only, through kinetic term of the centroid momenta
    kt = np.trace(np.diag([np.sum(S.pc[a::3] ** 2 / S.m) for a in range(3)])) + d / P
    put("sc", "kstress_tdsc", kt / (3 * S.V), tol=tol, atol=tol * sc / S.V)
    E = []
    for z in (2, 1, -1, -2):
        x = 1 + z * e
        E.append(sc_eff(S, S.q * x, S.h * x, al)[0])
    vir = -(8 * (E[1] - E[2]) - (E[0] - E[3])) / (12 * e)
    put("sc", "vir_tdsc", vir / P / (3 * S.V), tol=1e-4, atol=1e-5 * (abs(vir) + sc) / S.V + 1e-12 * abs(E0) / e / S.V)
    put("sc", "pressure_tdsc", (vir / P + kt) / (3 * S.V), tol=1e-4, atol=1e-5 * (abs(vir) + sc) / S.V + 1e-12 * abs(E0) / e / S.V)
    fsc = np.zeros_like(S.q)
    # total force of the effective potential, one random direction is in C07; here forces_sc = f + correction
    put("sc", "forces_sc", sg.A(s.forces.f) + sg.A(s.forces.fsc), traj=True)
    de = 1e-3
    vp, vm = (sc_eff(S, S.scaled(None, np.sqrt(1 + x)), S.h, al, 1 + x)[0] / P for x in (de, -de))
    v0 = E0 / P
    eps = ((1 + de) * vp - (1 - de) * vm) / (2 * de) + 1.5 * N * kT
    epsp = ((1 + de) * vp + (1 - de) * vm - 2 * v0) / (de**2 / kT) - 1.5 * N * kT**2
    noise = 1e-11 * max(1.0, abs(v0))
    put("sc", "sc_scaledcoords(%g)" % de, [eps, epsp], tol=1e-7, atol=noise / de**2 * kT)
    de = 1e-5
    vir1 = np.sum(dq[::2] * S.f[::2]) / P * 2
    vir2 = np.sum(dq[::2] * (S.force(S.q + de * dq) - S.f)[::2]) / de / P * 2
    put("sc", "sc_op_scaledcoords(%g)" % de, [op + S.pots[::2].mean(), 1.5 * N * kT**2 + 0.75 * kT * vir1 + 0.25 * kT * vir2], tol=1e-6, atol=1e-8)


# -------------------------------------------------------------------- averages
def k_gauss(case, rec, rng):
    """Harmonic particles: the path distribution is Gaussian and the estimators are quadratic, so that a
    spherical cubature gives their averages exactly."""
    sc = bool(rng.random() < 0.5)
    P = int(rng.choice([2, 4])) if sc else int(rng.choice([1, 2, 3, 4, 5, 6]))
    N = int(rng.integers(1, 3)) if P <= 4 else 1
    k = float(rng.uniform(0.01, 0.1))
    spec = cg.rand_spec(rng, modes=("sc",) if sc else ("nvt",), thermos=["langevin"], nbeads=P, natoms=max(N, 1))
    spec["nbeads"], spec["natoms"] = P, N
    spec["comps"] = [dict(pars=dict(k=0.0, g=0.0, kt=k), nbeads=0, weight=1.0)]
    if sc:
        spec["comps"][0]["fd"] = 1e-4
    spec["temp"] = float(rng.uniform(50, 600)) * sg.KELVIN
    sim = sg.load(cg.xml(spec, nsteps=1).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1))
    s = sim.syslist[0]
    al = float(rng.choice([0.0, 0.5, 1.0])) if sc else 0.0
    if sc:
        s.forces.alpha = al
    m, kT = sg.A(s.beads.m), float(s.ensemble.temp)
    odd = np.arange(P) % 2 == 1
    Lp = np.zeros((P, P))
    for b in range(P):
        if P > 1:
            Lp[b, b] += 2
            Lp[b, (b + 1) % P] -= 1
            Lp[b, (b - 1) % P] -= 1

    def act(mm, kk, T):
        w2 = (P * T) ** 2
        if sc:
            dg = np.where(odd, 4 / 3, 2 / 3) * kk + 2 * np.where(odd, 1 - al, al) / 9 * kk**2 / (mm * w2)
        else:
            dg = np.full(P, kk)
        return mm * w2 * Lp + np.diag(dg)

    def lnz(mm, kk, beta):
        T = 1 / beta
        return 0.5 * P * np.log(mm * P / beta) - 0.5 * np.linalg.slogdet(beta / P * act(mm, kk, T))[1]

    # potential centre of the analytic model
    x0 = centre(s, spec)
    e = 1e-4
    d4 = lambda g: (8 * (g(e) - g(-e)) - (g(2 * e) - g(-2 * e))) / (12 * e)
    beta = 1 / kT
    V = 3 * sum(-kT * d4(lambda z: lnz(mm, k * (1 + z), beta)) for mm in m)
    T = 3 * sum(kT * d4(lambda z: lnz(mm * (1 + z), k, beta)) for mm in m)
    E = 3 * sum(-d4(lambda z: lnz(mm, k, beta * (1 + z))) / beta for mm in m)
    chol = [np.linalg.cholesky(np.linalg.inv(act(mm, k, kT) / (P * kT))) for mm in m]
    n = 3 * N * P
    if sc:
        names = dict(potential_tdsc=V, kinetic_prsc=T, kinetic_tdsc=T)
    else:
        names = dict(potential=V, kinetic_td=T, kinetic_cv=T)
        if P == 1:
            names["kinetic_cv"] = 1.5 * N * kT
    acc = {a: 0.0 for a in names}
    esc, rg2, kt = 0.0, 0.0, np.zeros(6)
    for i in range(n):
        at, cart, b = i // (3 * P), (i // P) % 3, i % P
        for sgn in (1, -1):
            q = np.tile(x0, (P, 1))
            q[:, 3 * at + cart] += sgn * np.sqrt(n) * chol[at][:, b]
            s.beads.q = q
            for a in names:
                acc[a] += float(s.properties[a][0]) / (2 * n)
            esc += float(s.properties["sc_scaledcoords(0.001)" if sc else "scaledcoords(0.001)"][0][0]) / (2 * n)
            if not sc:
                kt += np.asarray(s.properties["kinetic_tens"][0]) / (2 * n)
    lab = "%s P=%d N=%d T=%.0f k=%.3g alpha=%s" % ("SC" if sc else "Trotter", P, N, kT / sg.KELVIN, k, al)
    for a in names:
        rec.close(acc[a], names[a], 1e-6, "average", "%s: exact average of %s" % (lab, a), (a, P, sc), atol=1e-9)
    rec.close(V + T, E, 1e-6, "average", "%s: oracle self check" % lab, ("self",))
    rec.close(esc, E, 1e-5, "average", "%s: exact average of the scaled-coordinates energy" % lab, ("scaled", P, sc), atol=1e-8)
    if not sc:
        rec.close(kt, [T / 3] * 3 + [0] * 3, 1e-6, "average", "%s: exact average of the kinetic tensor" % lab, ("tens", P), atol=1e-9)
        # momentum estimator: kinetic_md of the centroid mode etc. has the average 1/2 kT per mode
    cg.end(sim)


def centre(s, spec):
    """Position of the minimum of the harmonic model (found from the forces it reports)."""
    p = dict(vfpes.DEFAULTS)
    p.update(spec["comps"][0]["pars"])
    h = sg.A(s.cell.h)
    x = np.zeros(3 * spec["natoms"])
    for _ in range(3):
        v, f, _v = vfpes.energy(h, x, p)[:3]
        x = x + np.asarray(f).ravel() / p["kt"]
    return x
