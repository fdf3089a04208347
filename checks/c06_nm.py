"""C06: normal-mode transforms and free ring-polymer motion."""
import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor comparing every transform, resampling and free propagation with an independent closed-form model"
NOTE = "Bead numbers 1..24 (quick) or 1..64 (thorough) with random open sets, masses, temperatures, frequency schemes and time steps; transforms are probed with complete bases, so each linear map is decided exactly for the sizes visited."
RULE = (
    "each evaluation compares one output of the real transform / resampling / propagator with the closed-form result; "
    "distinct counts (bead numbers, open set size, back end or frequency scheme, propagator) combinations"
)
ASSUMPTIONS = ["double precision; float32 transforms are compared to single precision only"]
REQUIRE = {"orthogonal": 20, "diagonal": 20, "smooth": 20, "adjoint": 20, "exact": 20, "symplectic": 10, "order2": 5, "spring": 20}
TIMEOUT = {"quick": 200, "thorough": 600}


def cases(tier, seed):
    out = []
    big = 24 if tier == "quick" else 64
    per = 3
    for lo in range(1, big + 1, per):
        out.append(dict(name="transform_%d" % lo, kind="transform", nbs=list(range(lo, min(big, lo + per - 1) + 1)), cseed=sub_seed(seed, "t", lo)))
    nr = 16 if tier == "quick" else 200
    for i in range(nr):
        out.append(dict(name="rescale_%d" % i, kind="rescale", cseed=sub_seed(seed, "r", i), n=25))
    ne = 120 if tier == "quick" else 1500
    for i in range(ne):
        out.append(dict(name="engine_%d" % i, kind="engine", cseed=sub_seed(seed, "e", i)))
    return out


def laplacian(n, closed):
    """Spring matrix of a path: V = 1/2 w^2 sum (q_j - q_j+1)^2."""
    m = np.zeros((n, n))
    pairs = [(j, (j + 1) % n) for j in range(n)] if closed else [(j, j + 1) for j in range(n - 1)]
    for a, b in pairs:
        if a == b:
            continue
        m[a, a] += 1
        m[b, b] += 1
        m[a, b] -= 1
        m[b, a] -= 1
    return m


def run_transform(case, rec):
    from ipi.utils import nmtransform as nt

    rng = np.random.default_rng(case["cseed"])
    for n in case["nbs"]:
        for trial in range(4):
            nat = int(rng.integers(1, 6))
            opens = sorted(int(x) for x in rng.choice(nat, int(rng.integers(0, nat + 1)), replace=False)) if trial else []
            be = [("fft", nt.nm_fft(n, nat, open_paths=np.asarray(opens, int))), ("matrix", nt.nm_trans(n, open_paths=np.asarray(opens, int)))]
            be.append(("fft32", nt.nm_fft(n, nat, open_paths=np.asarray(opens, int), single_precision=True)))
            if n == 1:
                be.append(("noop", nt.nm_noop(1)))
            q = rng.standard_normal((n, 3 * nat)) * 10 ** rng.uniform(-2, 2)
            ref = None
            for nm, t in be:
                tol = 2e-6 if nm == "fft32" else 1e-12
                key = (n, len(opens) > 0, nm)
                qc = q.copy()
                x = np.array(t.b2nm(qc))
                held = t.b2nm(qc)
                back = t.nm2b(x.copy())
                keep = np.array(back)
                rec.close(qc, q, 0, "input_kept", "b2nm changed its argument", key)
                rec.close(back, q, 10 * tol, "roundtrip", "%s n=%d open=%s" % (nm, n, opens), key)
                # results handed out stay what they were
                q2 = rng.standard_normal(q.shape)
                t.b2nm(q2)
                t.nm2b(q2)
                rec.close(held, x, tol, "held", "%s n=%d: transform result changed later" % (nm, n), key)
                rec.close(back, keep, 0, "held", "%s n=%d: back-transform result changed later" % (nm, n), key)
                if ref is None:
                    ref = x
                rec.close(x, ref, 10 * tol, "backends", "%s vs fft n=%d open=%s" % (nm, n, opens), key)
                # full matrix per coordinate
                for a in range(nat):
                    closed = a not in opens
                    c = 3 * a + int(rng.integers(3))
                    M = np.zeros((n, n))
                    for j in range(n):
                        e = np.zeros((n, 3 * nat))
                        e[j, c] = 1.0
                        y = np.asarray(t.b2nm(e))
                        M[:, j] = y[:, c]
                        y = np.array(y)
                        y[:, c] = 0
                        rec.check(np.max(np.abs(y)) < tol, "no_mixing", "%s n=%d mixes coordinates" % (nm, n), key)
                    rec.close(M @ M.T, np.eye(n), 10 * tol, "orthogonal", "%s n=%d closed=%s" % (nm, n, closed), key)
                    D = M @ laplacian(n, closed) @ M.T
                    ev = nt.nm_eva(n) if closed else nt.o_nm_eva(n)
                    k = np.arange(n)
                    exact = 2 * np.sin(k * np.pi / n) if closed else 2 * np.sin(k * np.pi / (2 * n))
                    rec.close(ev, exact, 1e-13, "eigenvalues", "n=%d closed=%s" % (n, closed), key, atol=1e-13)
                    rec.close(D, np.diag(exact**2), 10 * tol, "diagonal", "%s n=%d closed=%s springs" % (nm, n, closed), key, atol=1e-12)
                    rec.close(M[0], np.full(n, 1 / np.sqrt(n)), 10 * tol, "centroid", "%s n=%d" % (nm, n), key)


def run_rescale(case, rec):
    from ipi.utils import nmtransform as nt

    rng = np.random.default_rng(case["cseed"])
    for it in range(case["n"]):
        n1, n2 = int(rng.integers(1, 17)), int(rng.integers(1, 17))
        nat = int(rng.integers(1, 5))
        opens = sorted(int(x) for x in rng.choice(nat, int(rng.integers(0, nat + 1)), replace=False)) if rng.random() < 0.6 else []
        t = nt.nm_rescale(n1, n2, open_paths=np.asarray(opens, int))
        key = (n1, n2, bool(opens), len(opens) == nat)
        msg = "%d->%d open=%s of %d" % (n1, n2, opens, nat)
        q1 = rng.standard_normal((n1, 3 * nat))
        q2 = rng.standard_normal((n2, 3 * nat))
        c1 = q1.copy()
        y = t.b1tob2(c1)
        rec.close(c1, q1, 0, "input_kept", msg, key)
        rec.check(not np.shares_memory(y, c1), "fresh", "result shares memory with its argument " + msg, key)
        z = t.b2tob1(q2)
        rec.close(np.mean(y, axis=0), np.mean(q1, axis=0), 1e-12, "centroid_kept", msg, key, atol=1e-13)
        rec.close(np.mean(z, axis=0), np.mean(q2, axis=0), 1e-12, "centroid_kept", "back " + msg, key, atol=1e-13)
        # work: <T q1, f2> n1/n2 = <q1, back(f2)>, coordinate by coordinate
        lhs = np.sum(y * q2, axis=0) * n1 / n2
        rhs = np.sum(q1 * z, axis=0)
        rec.close(lhs, rhs, 1e-11, "adjoint", msg, key, atol=1e-12)
        # going through more beads and back is the identity
        if n2 >= n1:
            rec.close(t.b2tob1(y), q1, 1e-11, "expand_contract", msg, key, atol=1e-12)
        # smooth paths: resampled as the same function of imaginary time
        s = np.zeros((n1, 3 * nat))
        r = np.zeros((n2, 3 * nat))
        m = min(n1, n2)
        for a in range(nat):
            for c in range(3 * a, 3 * a + 3):
                if a in opens:
                    kk = np.arange(0, m)
                    co = rng.standard_normal(len(kk))
                    f = lambda n: sum(ck * np.cos(np.pi * k * (np.arange(n) + 0.5) / n) for ck, k in zip(co, kk))
                else:
                    kk = np.arange(0, (m - 1) // 2 + 1)
                    co = rng.standard_normal((len(kk), 2))
                    f = lambda n: sum(
                        ck[0] * np.cos(2 * np.pi * k * np.arange(n) / n) + ck[1] * np.sin(2 * np.pi * k * np.arange(n) / n) for ck, k in zip(co, kk)
                    )
                s[:, c] = f(n1)
                r[:, c] = f(n2)
        rec.close(t.b1tob2(s), r, 1e-11, "smooth", "smooth path " + msg, key, atol=1e-12)
        # per-bead scalars (potentials) keep their average
        v = rng.standard_normal(n2)
        rec.close(np.mean(t.b2tob1(v)), np.mean(v), 1e-11, "scalar", msg, key, atol=1e-12)


def factors(spec, nm, om, style, nb, wn):
    """Documented dynamical mass factors."""
    f = np.ones(nb)
    fr = np.asarray(sg.A(nm.nm_freqs)).ravel()
    if style == "manual":
        f[1:] = (om[1:] / fr) ** 2
    elif style == "pa-cmd":
        f[1:] = (om[1:] / fr[0]) ** 2
    elif style == "wmax-cmd":
        f[1:] = (fr[0] ** 2 + om[1:] ** 2) / (fr[1] ** 2 * (1 + (fr[0] / om[1]) ** 2))
    return f


def cosine_modes(n):
    M = np.array([[np.cos(np.pi * k * (j + 0.5) / n) for j in range(n)] for k in range(n)])
    return M / np.linalg.norm(M, axis=1)[:, None]


def closed_modes(n):
    """Real Fourier modes: constant, cosines, alternating (even n), sines in reverse order."""
    j = np.arange(n)
    M = np.zeros((n, n))
    for k in range(n):
        if k == 0:
            M[k] = 1.0
        elif 2 * k <= n:
            M[k] = np.cos(2 * np.pi * j * k / n)
        else:
            M[k] = np.sin(2 * np.pi * j * k / n)
    return M / np.linalg.norm(M, axis=1)[:, None]


def run_engine(case, rec):
    rng = np.random.default_rng(case["cseed"])
    A = sg.A
    s = cg.rand_spec(rng, modes=["nve"], allow=("nmmodes", "prop"), nbeads=int(rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16])))
    nb, nat = s["nbeads"], s["natoms"]
    nm = s["nm"]
    nm.setdefault("propagator", str(rng.choice(["exact", "cayley"])))
    if nb > 1 and nm["propagator"] != "bab" and rng.random() < 0.5:
        nm["open"] = sorted(int(x) for x in rng.choice(nat, int(rng.integers(1, nat + 1)), replace=False))
    s["comps"] = [dict(pars=dict(k=0.0, g=0.0), weight=1.0, nbeads=0)]
    s["dt"] = float(10 ** rng.uniform(0, 2.2))
    opens = nm.get("open", [])
    style = nm.get("style", "rpmd")
    prop = nm["propagator"]
    key = (nb, bool(opens), style, prop)
    sim = sg.load(cg.xml(s, 5))
    sy = sim.syslist[0]
    beads, N = sy.beads, sy.nm
    # exercise changes of the variables the propagator depends on
    m3 = np.repeat(A(beads.m), 3)
    C, O = closed_modes(nb), cosine_modes(nb)
    isopen = np.array([c // 3 in opens for c in range(3 * nat)])

    def to_nm(x):
        y = C @ x
        y[:, isopen] = O @ x[:, isopen]
        return y

    for it in range(4):
        if it == 1:
            sy.motion.dt = float(sy.motion.dt) * rng.uniform(0.3, 2)
        if it == 2:
            sy.ensemble.temp = float(sy.ensemble.temp) * rng.uniform(0.6, 1.7)
        if it == 3:
            beads.m = A(beads.m) * rng.uniform(0.5, 2, nat)
            m3 = np.repeat(A(beads.m), 3)
        dt = float(sy.motion.dt)
        wn = float(sy.ensemble.temp) * nb
        k = np.arange(nb)
        om = wn * 2 * np.sin(k * np.pi / nb)
        oom = wn * 2 * np.sin(k * np.pi / (2 * nb))
        rec.close(A(N.omegak), om, 1e-12, "frequencies", str(key), key, atol=1e-18)
        W = np.where(isopen[None, :], oom[:, None], om[:, None])
        F = np.ones((nb, 3 * nat))
        if nb > 1:
            F = np.where(isopen[None, :], factors(s, N, oom, style, nb, wn)[:, None], factors(s, N, om, style, nb, wn)[:, None])
        DM = F * m3[None, :]
        rec.close(A(N.dynm3), DM, 1e-11, "dynmass", "dynamical masses %s it=%d" % (key, it), key)
        beads.q = A(beads.q) + 0.05 * rng.standard_normal((nb, 3 * nat))
        beads.p = rng.standard_normal((nb, 3 * nat)) * 5
        q, p = A(beads.q), A(beads.p)
        Q, P = to_nm(q), to_nm(p)
        rec.close(A(N.qnm), Q, 1e-11, "qnm", str(key), key)
        rec.close(A(N.pnm), P, 1e-11, "pnm", str(key), key)
        # energies in both representations
        pairs = range(nb) if nb > 1 else []
        v = 0.0
        fs = np.zeros_like(q)
        for j in pairs:
            d = q[j] - q[(j + 1) % nb]
            w2 = m3 * wn**2
            if j == nb - 1:
                w2 = np.where(isopen, 0.0, w2)
            v += 0.5 * np.sum(w2 * d * d)
            fs[j] -= w2 * d
            fs[(j + 1) % nb] += w2 * d
        rec.close(float(N.vspring), v, 1e-10, "spring", "spring energy %s it=%d" % (key, it), key, atol=1e-18)
        rec.close(A(N.fspring), fs, 1e-9, "spring", "spring force %s" % (key,), key, atol=1e-15)
        rec.close(float(N.kin), 0.5 * np.sum(P**2 / DM), 1e-11, "kinetic", "kinetic energy %s it=%d" % (key, it), key)
        rec.close(A(N.kins), 0.5 * np.sum(P**2 / DM, axis=1), 1e-11, "kinetic", "mode kinetic energies", key)
        X = (P / np.sqrt(DM)).reshape(-1, 3)
        rec.close(A(N.kstress), X.T @ X, 1e-11, "kinetic", "kinetic stress %s" % (key,), key)
        if style == "rpmd":
            rec.close(float(N.kin), 0.5 * np.sum(p * p / m3), 1e-11, "kinetic", "bead vs nm kinetic energy", key)
        if nb == 1:
            continue
        # one free step through the integrator (no potential)
        W2 = W / np.sqrt(F)

        def exact(P, Q, t):
            c, sn = np.cos(W2 * t), np.sin(W2 * t)
            with np.errstate(divide="ignore", invalid="ignore"):
                r = np.where(W2 > 1e-16 * wn, sn / W2, t)
            return P * c - DM * W2 * sn * Q, Q * c + P / DM * r

        def step():
            sim.step += 1
            sy.motion.step(sim.step)
            return A(N.pnm), A(N.qnm)

        # map of (P,Q) through one step
        p1, q1 = step()
        H = lambda P, Q: 0.5 * np.sum(P**2 / DM + DM * W2**2 * Q**2, axis=0)
        rec.close(q1[0], Q[0] + P[0] / m3 * dt, 1e-11, "centroid_free", "centroid drift %s" % (key,), key)
        rec.close(p1[0], P[0], 1e-10, "centroid_free", "centroid momentum", key, atol=1e-12 * np.max(np.abs(P)))
        if prop == "exact":
            pe, qe = exact(P, Q, dt)
            rec.close(p1, pe, 1e-10, "exact", "exact propagator momenta %s it=%d" % (key, it), key)
            rec.close(q1, qe, 1e-10, "exact", "exact propagator positions %s it=%d" % (key, it), key)
            rec.close(H(p1[1:], q1[1:]) if False else H(p1, q1), H(P, Q), 1e-9, "energy", "energy after exact step %s" % (key,), key)
        elif prop == "cayley":
            rec.close(H(p1, q1), H(P, Q), 1e-9, "energy", "energy after Cayley step %s it=%d" % (key, it), key)
        # reversibility
        N.pnm[:] = -p1
        p2, q2 = step()
        rec.close(-p2, P, 1e-8, "reversible", "momenta %s" % (key,), key)
        rec.close(q2, Q, 1e-8, "reversible", "positions %s" % (key,), key)
        # symplecticity: the step is linear, so M^T J M = J decides it for each mode
        k = int(rng.integers(1, nb))
        c = int(rng.integers(3 * nat))
        M = np.zeros((2, 2))
        sc = DM[k, c] * wn
        for b in range(2):
            x = np.zeros((nb, 3 * nat))
            N.pnm[:] = x
            N.qnm[:] = x
            if b == 0:
                N.pnm[k, c] = sc
            else:
                N.qnm[k, c] = 1.0
            pp, qq = step()
            M[0, b] = pp[k, c] / sc
            M[1, b] = qq[k, c]
        rec.close(np.linalg.det(M), 1.0, 1e-8, "symplectic", "phase-space volume of mode %d %s" % (k, key), key)
        # second-order accuracy of the approximate ones
        if prop in ("cayley", "bab"):
            errs = []
            wmax = np.max(W2)
            for hh in (0.02 / wmax, 0.01 / wmax):
                sy.motion.dt = float(hh)
                N.pnm[:] = P
                N.qnm[:] = Q
                pp, qq = step()
                pe, qe = exact(P, Q, hh)
                errs.append(np.sqrt(np.sum((pp - pe) ** 2 / DM + DM * wmax**2 * (qq - qe) ** 2)))
            sc = np.sqrt(np.sum(P**2 / DM + DM * wmax**2 * Q**2))
            r = errs[0] / max(errs[1], 1e-300)
            rec.check(errs[0] < 1e-11 * sc or r > 6.0, "order2", "local error ratio %.3f (expected ~8) %s it=%d" % (r, key, it), key)
            sy.motion.dt = dt
    rec.sample(dict(beads=nb, atoms=nat, open=opens, style=style, propagator=prop, dt=s["dt"]))
    cg.end(sim)


def run(case, rec):
    {"transform": run_transform, "rescale": run_rescale, "engine": run_engine}[case["kind"]](case, rec)
