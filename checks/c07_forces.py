"""C07: composition of forces, energies and virials."""
import json

import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed

PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: independent composition of analytic component energies plus directional derivatives of the energy the engine reports"
NOTE = "Random force compositions (1-4 components, weights incl. zero and negative, contraction to any bead number, up to 3 time-step levels, bias and Hamiltonian weights, open paths, Suzuki-Chin) in the real engine; each state visited is decided against a closed-form oracle to 1e-9 and by finite differences of the reported energy."
RULE = "each evaluation compares one reported array (energy, force, virial, level, component, extras) with the oracle, or one directional derivative; distinct counts composition signatures"
ASSUMPTIONS = ["component potentials are the analytic ones of vf/vfpes.py, evaluated by a direct forcefield", "Suzuki-Chin terms are checked without contraction (with it they are approximate by design)"]
REQUIRE = {"force": 50, "virial": 50, "fd_force": 50, "fd_strain": 50, "levels": 30, "component": 50, "bias": 20, "sc": 5, "clone": 10, "extras": 10}
TIMEOUT = {"quick": 200, "thorough": 400}


def cases(tier, seed):
    n, ns = (150, 30) if tier == "quick" else (2500, 400)
    out = [dict(name="comp_%d" % i, kind="comp", cseed=sub_seed(seed, "c07", i)) for i in range(n)]
    out += [dict(name="sc_%d" % i, kind="sc", cseed=sub_seed(seed, "c07s", i)) for i in range(ns)]
    return out


def modes(n, closed):
    """Orthonormal normal-mode rows, lowest frequency first, with frequencies."""
    j = np.arange(n)
    rows = [np.full(n, 1 / np.sqrt(n))]
    if closed:
        for k in range(1, (n - 1) // 2 + 1):
            rows.append(np.sqrt(2.0 / n) * np.cos(2 * np.pi * k * j / n))
            rows.append(np.sqrt(2.0 / n) * np.sin(2 * np.pi * k * j / n))
        if n % 2 == 0:
            rows.append(np.sqrt(1.0 / n) * (-1.0) ** j)
    else:
        for k in range(1, n):
            rows.append(np.sqrt(2.0 / n) * np.cos(np.pi * k * (j + 0.5) / n))
    return np.array(rows)


def contraction_closed(n, m):
    """n -> m beads (m<=n) through the truncated Fourier series.  The highest
    mode of an even-m path is a single cosine on the m-path."""
    a, b = modes(n, True), modes(m, True)
    C = np.zeros((m, n))
    # scale: amplitudes carry sqrt(m/n)
    for k in range(m):
        C += np.sqrt(m / n) * np.outer(b[k], a[k])
    return C


def contraction(n, m, natoms, opens):
    """List of (m,n) matrices, one per atom."""
    out = []
    for i in range(natoms):
        if n == m:
            out.append(np.eye(n))
        elif i in opens:
            a, b = modes(n, False), modes(m, False)
            out.append(np.sqrt(m / n) * sum(np.outer(b[k], a[k]) for k in range(m)))
        else:
            out.append(contraction_closed(n, m))
    return out


class Oracle:
    def __init__(self, spec, comps, weights):
        self.n, self.nat = spec["nbeads"], spec["natoms"]
        self.opens = (spec.get("nm") or {}).get("open", [])
        self.comps, self.w = comps, weights
        self.p = []
        for c in comps:
            p = dict(vfpes.DEFAULTS)
            p.update({k: v for k, v in c["pars"].items() if k in p})
            self.p.append(p)

    def comp(self, k, q, h):
        """pots (m), f (m,3N), virs (m,3,3), contracted q, matrices"""
        m = self.comps[k].get("nbeads", 0)
        if m == 0 or m > self.n:
            m = self.n
        C = contraction(self.n, m, self.nat, self.opens)
        qc = np.zeros((m, 3 * self.nat))
        for i in range(self.nat):
            qc[:, 3 * i : 3 * i + 3] = C[i] @ q[:, 3 * i : 3 * i + 3]
        v, f, vir = np.zeros(m), np.zeros((m, 3 * self.nat)), np.zeros((m, 3, 3))
        for b in range(m):
            e = vfpes.energy(h, qc[b], self.p[k])
            v[b], f[b], vir[b] = e[0], e[1].ravel(), np.triu(e[2])  # cells are upper triangular
        return m, v, f, vir, qc, C

    def total(self, q, h, scale=None):
        pot, F, V = 0.0, np.zeros_like(q), np.zeros((3, 3))
        for k in range(len(self.comps)):
            w = self.w[k] if scale is None else scale[k]
            if w == 0:
                continue
            m, v, f, vir, qc, C = self.comp(k, q, h)
            r = self.n / m
            pot += w * r * v.sum()
            V += w * r * vir.sum(axis=0)
            for i in range(self.nat):
                F[:, 3 * i : 3 * i + 3] += w * r * C[i].T @ f[:, 3 * i : 3 * i + 3]
        return pot, F, V


def rand_pars(rng, vol):
    p = dict(k=0.0, g=0.0)
    if rng.random() < 0.6:
        p.update(k=float(rng.uniform(0.02, 0.1)), g=float(rng.uniform(0, 0.03)), r0=float(rng.uniform(2, 3)))
    for nm, lo, hi in (("kt", 0.001, 0.02), ("k4", 1e-6, 1e-4), ("c3", 1e-5, 1e-3), ("per", 1e-3, 1e-2), ("shift", -1, 1)):
        if rng.random() < 0.6:
            p[nm] = float(rng.uniform(lo, hi))
    if vol and rng.random() < 0.6:
        p.update(kv=float(rng.uniform(1e-4, 1e-3)), v0=1000.0, ks=float(rng.uniform(1e-7, 1e-6)))
    return p


def make(rng, sc):
    spec = cg.rand_spec(rng, modes=("sc",) if sc else ("nve", "nvt"), thermos=["langevin"], allow=() if sc else ("open", "prop"), natoms=int(rng.integers(2, 5)))
    n = spec["nbeads"]
    nc = int(rng.integers(1, 5)) if not sc else int(rng.integers(1, 3))
    nl = int(rng.integers(1, 4)) if not sc else int(rng.integers(1, 3))
    spec["comps"] = []
    fd = float(rng.choice([-1e-3, -1e-3, 1e-4]))
    if nl > 1:
        spec["nmts"] = [1] + [1] * (nl - 1)
    for i in range(nc):
        c = dict(pars=rand_pars(rng, True), nbeads=0)
        c["weight"] = float(rng.choice([1.0, 1.0, 0.7, 1.4, -0.5, 0.0])) if i else 1.0
        if n > 1 and not sc and rng.random() < 0.6:
            c["nbeads"] = int(rng.integers(1, n + 2))
        if nl > 1 or rng.random() < 0.2:
            w = rng.choice([0.0, 1.0, 0.5, 2.0], nl)
            if rng.random() < 0.4:
                w = rng.uniform(-0.5, 1.5, nl)
            if sc and not w.any():
                w[0] = 1.0
            c["mts"] = [float(x) for x in w]
        if sc:
            c["fd"] = fd
        spec["comps"].append(c)
    if sc:
        spec["comps"][0]["pars"]["kt"] = 0.01
    if rng.random() < 0.6 and not sc:
        nbias = int(rng.integers(1, 3))
        spec["bias"] = [dict(pars=rand_pars(rng, False), nbeads=int(rng.integers(0, n + 1)) if n > 1 else 0, weight=1.0) for _ in range(nbias)]
        spec["bweights"] = [float(x) for x in rng.choice([1.0, 0.5, -0.3, 0.0], nbias)]
    if rng.random() < 0.6 and not sc:
        spec["hweights"] = [float(x) for x in rng.choice([1.0, 0.6, 1.2, 0.0], nc)]
    return spec


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    sc = case["kind"] == "sc"
    spec = make(rng, sc)
    extras = bool(rng.random() < 0.35)
    if (spec.get("nm") or {}).get("open"):
        extras = False  # interpolating generic extras of mixed paths is refused
    x = cg.xml(spec, nsteps=1, pes_extra=dict(extras="y") if extras else None)
    if extras:
        x = x.replace("</force>", "<interpolate_extras>[ dipole ]</interpolate_extras></force>")
    x = x.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    sim = sg.load(x)
    s = sim.syslist[0]
    A = sg.A
    n, nat = spec["nbeads"], spec["natoms"]
    wts = [c["weight"] * (sum(c["mts"]) if c.get("mts") else 1.0) for c in spec["comps"]]
    orc = Oracle(spec, spec["comps"], wts)
    key = (len(spec["comps"]), tuple(sorted(set((c.get("nbeads") or n) for c in spec["comps"]))), n, len(spec.get("nmts", [0])), bool(orc.opens), bool(spec.get("bias")), bool(spec.get("hweights")), sc)
    msg0 = "n=%d open=%s comps=%s" % (n, orc.opens, [(c["nbeads"], c["weight"], c.get("mts")) for c in spec["comps"]])
    rec.sample(dict(case=case["name"], sig=str(key)))
    if sc:
        alpha = float(rng.choice([0.0, 0.0, 0.5]))
        s.forces.alpha = alpha
    states = 4 if not sc else 2
    nlev = max(1, len(spec["comps"][0].get("mts") or [1]))
    if any(len(c.get("mts") or [1]) != nlev for c in spec["comps"]):
        nlev = 0  # cannot happen: guarded below
    for it in range(states):
        if it:
            how = rng.integers(4)
            if how == 0:
                s.beads.q = A(s.beads.q) + 0.05 * rng.standard_normal(A(s.beads.q).shape)
            elif how == 1:
                s.beads.q[int(rng.integers(n))] += 0.05
            elif how == 2:
                s.nm.qnm[int(rng.integers(n)), int(rng.integers(3 * nat))] += 0.05
            else:
                h = A(s.cell.h)
                e = np.eye(3) + np.triu(0.02 * rng.standard_normal((3, 3)))
                s.cell.h = e @ h
                s.beads.q = (A(s.beads.q).reshape(-1, 3) @ e.T).reshape(n, -1)
            if it == 2 and rng.random() < 0.7 and not sc:
                s.motion.step(it) if rng.random() < 0.5 else None
        q, h = A(s.beads.q), A(s.cell.h)
        pot, F, V = orc.total(q, h)
        F0 = max(np.abs(F).max(), 1e-6)
        # order of reading is part of the history
        order = rng.permutation(3)
        for o in order:
            if o == 0:
                rec.close(s.forces.pot, pot, 1e-10, "energy", msg0 + " total energy", key, atol=1e-12)
                rec.close(A(s.forces.pots).sum(), pot, 1e-10, "energy", msg0 + " sum of bead energies", key, atol=1e-12)
            elif o == 1:
                rec.close(s.forces.f, F, 1e-9, "force", msg0 + " force", key, atol=1e-13)
            else:
                rec.close(s.forces.vir, V, 1e-9, "virial", msg0 + " virial", key, atol=1e-12)
        # levels
        if nlev:
            sf = sum(A(m.f) for m in s.forces.mts_forces)
            sv = sum(A(m.vir) for m in s.forces.mts_forces)
            rec.close(sf, F, 1e-9, "levels", msg0 + " sum of the levels", key, atol=1e-12)
            rec.close(sv, V, 1e-9, "levels", msg0 + " sum of the level virials", key, atol=1e-12)
            for l in range(nlev):
                sw = [c["weight"] * (c["mts"][l] if c.get("mts") else 1.0) for c in spec["comps"]]
                _, Fl, Vl = orc.total(q, h, sw)
                rec.close(s.forces.mts_forces[l].f, Fl, 1e-9, "levels", msg0 + " level %d force" % l, key, atol=1e-12)
                rec.close(s.forces.mts_forces[l].vir, Vl, 1e-9, "levels", msg0 + " level %d virial" % l, key, atol=1e-12)
        # components
        dip = np.zeros((n, 3))
        for k, c in enumerate(spec["comps"]):
            m, v, f, vir, qc, C = orc.comp(k, q, h)
            r = n / m
            mk = msg0 + " component %d" % k
            for weighted in (True, False):
                w = c["weight"] if weighted else 1.0
                rec.close(s.forces.pots_component(k, weighted, False), w * v, 1e-10, "component", mk + " pots", key, atol=1e-12)
                rec.close(s.forces.forces_component(k, weighted, False), w * f, 1e-9, "component", mk + " forces", key, atol=1e-12)
                rec.close(s.forces.virs_component(k, weighted, False), w * vir, 1e-9, "component", mk + " virials", key, atol=1e-12)
                rec.close(np.sum(s.forces.pots_component(k, weighted, True)), w * r * v.sum(), 1e-10, "component", mk + " interpolated energy", key, atol=1e-12)
                ff = np.zeros((n, 3 * nat))
                for i in range(nat):
                    ff[:, 3 * i : 3 * i + 3] = w * r * C[i].T @ f[:, 3 * i : 3 * i + 3]
                rec.close(s.forces.forces_component(k, weighted, True), ff, 1e-9, "component", mk + " interpolated force", key, atol=1e-12)
                rec.close(np.sum(s.forces.virs_component(k, weighted, True), axis=0), w * r * vir.sum(axis=0), 1e-9, "component", mk + " interpolated virial", key, atol=1e-12)
            if extras:
                ww = np.arange(1, nat + 1)[:, None]
                dk = np.array([np.sum(qc[b].reshape(-1, 3) * ww, axis=0) for b in range(m)])
                if c["weight"]:
                    tot = s.forces.extras
                    ex = s.forces.extras_component(k)
                    rec.close(np.asarray(ex["dipole"]), dk, 1e-8, "extras", mk + " extras of the component", key, atol=1e-9)
                    rec.close(np.asarray(ex["scal"]).ravel(), 2 * v, 1e-8, "extras", mk + " scalar extras of the component", key, atol=1e-9)
                    want = [json.loads(t) for t in ex["raw"]] if _alljson(ex["raw"]) else None
                    rec.check(want is not None and np.allclose([t["scal"][0] for t in want], 2 * v, rtol=1e-8, atol=1e-9), "extras", mk + " raw extras are not what the driver sent: %r" % (ex["raw"][0][:200],), key)
                    wk = wts[k]
                    Cc = contraction(n, m, 1, [])[0]
                    if not orc.opens:
                        dip += wk * r * Cc.T @ dk
        if extras and not orc.opens and any(c["weight"] for c in spec["comps"]):
            rec.close(np.asarray(s.forces.extras["dipole"]), dip, 1e-8, "extras", msg0 + " combined extras", key, atol=1e-9)
        # bias
        ens = s.ensemble
        hw = spec.get("hweights") or [1.0] * len(wts)
        bp, BF, BV = orc.total(q, h, [(hw[k] - 1) * wts[k] for k in range(len(wts))])
        if spec.get("bias"):
            ob = Oracle(spec, spec["bias"], spec["bweights"])
            a, b, c = ob.total(q, h)
            bp, BF, BV = bp + a, BF + b, BV + c
        rec.close(ens.bias.pot, bp, 1e-9, "bias", msg0 + " bias energy", key, atol=1e-10)
        rec.close(ens.bias.f, BF, 1e-9, "bias", msg0 + " bias force", key, atol=1e-11)
        rec.close(ens.bias.vir, BV, 1e-9, "bias", msg0 + " bias virial", key, atol=1e-10)
        want_bias = bool(spec.get("bias")) or any(abs(x - 1) > 1e-10 for x in hw)
        rec.check(bool(ens.has_bias) == want_bias, "bias", msg0 + " has_bias=%s" % ens.has_bias, key)
        # derivatives of what is reported
        d = rng.standard_normal(q.shape)
        if rng.random() < 0.5:
            d *= 0
            d[int(rng.integers(n)), int(rng.integers(3 * nat))] = 1.0
        eps = 1e-4
        e = []
        fd = [A(s.forces.f), A(ens.bias.f)]
        for sgn in (2, 1, -1, -2):
            s.beads.q = q + sgn * eps * d
            e.append([float(s.forces.pot), float(ens.bias.pot)])
        e = np.array(e)
        g = -(8 * (e[1] - e[2]) - (e[0] - e[3])) / (12 * eps)
        s.beads.q = q
        noise = 1e-13 * max(1.0, np.abs(e).max()) / eps
        for j, nme in enumerate(("force", "bias force")):
            fs = np.sum(np.abs(fd[j] * d))
            rec.close(np.sum(fd[j] * d), g[j], 0, "fd_force", msg0 + " %s is not the derivative of the energy" % nme, key, atol=1e-6 * fs + 20 * noise + 1e-9)
        st = np.triu(rng.standard_normal((3, 3)))
        vv = [A(s.forces.vir), A(ens.bias.vir)]
        e = []
        for sgn in (2, 1, -1, -2):
            E = np.eye(3) + sgn * eps * st
            s.cell.h = E @ h
            s.beads.q = (q.reshape(-1, 3) @ E.T).reshape(n, -1)
            e.append([float(s.forces.pot), float(ens.bias.pot)])
        e = np.array(e)
        g = -(8 * (e[1] - e[2]) - (e[0] - e[3])) / (12 * eps)
        s.cell.h = h
        s.beads.q = q
        noise = 1e-13 * max(1.0, np.abs(e).max()) / eps
        for j in range(2):
            fs = np.sum(np.abs(vv[j] * st))
            rec.close(np.sum(vv[j] * st), g[j], 0, "fd_strain", msg0 + " virial is not the strain derivative", key, atol=1e-6 * fs + 20 * noise + 1e-9)
        if sc:
            check_sc(s, orc, q, h, rec, rng, msg0, key)
        elif it == states - 1:
            check_clone(s, orc, q, h, rec, rng, msg0, key)
    cg.end(sim)


def _alljson(raw):
    try:
        for t in raw:
            json.loads(t)
        return True
    except Exception:
        return False


def sc_energy(orc, q, h, m3, alpha, omegan2):
    n = orc.n
    tot = 0.0
    V = np.zeros(n)
    F = np.zeros_like(q)
    for k, w in enumerate(orc.w):
        if w:
            m, v, f, vir, qc, C = orc.comp(k, q, h)
            V += w * v
            F += w * f
    c1 = np.where(np.arange(n) % 2 == 0, -1.0 / 3, 1.0 / 3)
    c2 = np.where(np.arange(n) % 2 == 0, alpha, 1 - alpha) / omegan2 / 9.0
    return np.sum(c1 * V) + np.sum(c2[:, None] * F * F / m3)


def check_sc(s, orc, q, h, rec, rng, msg0, key):
    A = sg.A
    n = orc.n
    m3 = A(s.beads.m3)
    alpha = float(s.forces.alpha)
    w2 = (n * float(s.ensemble.temp)) ** 2  # omega_n^2 in atomic units
    rec.close(float(s.forces.omegan2), w2, 1e-9, "sc", msg0 + " omega_n^2", key)
    E0 = sc_energy(orc, q, h, m3, alpha, w2)
    rec.close(float(s.forces.potsc), E0, 1e-9, "sc", msg0 + " SC energy (alpha=%g)" % alpha, key, atol=1e-12)
    fsc = A(s.forces.fsc)
    big = np.abs(A(s.forces.f)).max()
    # a forward difference is one order less accurate
    fwd = any(c.get("fd", -1) > 0 for c in orc.comps)
    for _ in range(4):
        d = rng.standard_normal(q.shape)
        b = int(rng.integers(n))
        mask = np.zeros(q.shape)
        mask[b] = 1
        d *= mask
        eps = 1e-3
        e = [sc_energy(orc, q + k * eps * d, h, m3, alpha, w2) for k in (2, 1, -1, -2)]
        g = -(8 * (e[1] - e[2]) - (e[0] - e[3])) / (12 * eps)
        rec.close(np.sum(fsc * d), g, 0, "sc", msg0 + " SC force is not the derivative (alpha=%g bead %d)" % (alpha, b), key, atol=(3e-4 * np.sum(np.abs(fsc * d)) + 1e-5 * big) * (10 if fwd else 1))


def check_clone(s, orc, q, h, rec, rng, msg0, key):
    """An evaluator cloned on other beads, and forces transferred back."""
    A = sg.A
    n = orc.n
    b2, c2 = s.beads.clone(), s.cell.clone()
    f2 = s.forces.clone(b2, c2)
    q2 = q + 0.03 * rng.standard_normal(q.shape)
    b2.q = q2
    p0, F0, V0 = orc.total(q, h)
    p2, F2, V2 = orc.total(q2, h)
    rec.close(f2.pot, p2, 1e-10, "clone", msg0 + " cloned energy", key, atol=1e-12)
    rec.close(f2.f, F2, 1e-9, "clone", msg0 + " cloned force", key, atol=1e-12)
    rec.close(s.forces.f, F0, 1e-9, "clone", msg0 + " original after clone", key, atol=1e-12)
    # accept: move the system there and hand the forces over
    s.beads.q = q2
    s.forces.transfer_forces(f2)
    rec.close(s.forces.pot, p2, 1e-10, "clone", msg0 + " transferred energy", key, atol=1e-12)
    rec.close(s.forces.f, F2, 1e-9, "clone", msg0 + " transferred force", key, atol=1e-12)
    rec.close(s.forces.vir, V2, 1e-9, "clone", msg0 + " transferred virial", key, atol=1e-12)
    st = s.forces.dump_state()
    q3 = q2 + 0.02 * rng.standard_normal(q.shape)
    s.beads.q = q3
    p3, F3, V3 = orc.total(q3, h)
    rec.close(s.forces.f, F3, 1e-9, "clone", msg0 + " force after moving on", key, atol=1e-12)
    rec.close(s.forces.pot, p3, 1e-10, "clone", msg0 + " energy after moving on", key, atol=1e-12)
    # reject: back to where we were
    s.beads.q = q2
    s.forces.load_state(st)
    rec.close(s.forces.f, F2, 1e-9, "clone", msg0 + " restored force", key, atol=1e-12)
    rec.close(s.forces.pot, p2, 1e-10, "clone", msg0 + " restored energy", key, atol=1e-12)
    b2.q = q3
    rec.close(f2.f, F3, 1e-9, "clone", msg0 + " clone moved on", key, atol=1e-12)
    s.beads.q = q
    rec.close(s.forces.f, F0, 1e-9, "clone", msg0 + " force back at the start", key, atol=1e-12)
