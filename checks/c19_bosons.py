"""C19: bosonic exchange against the explicit sum over permutations."""
import math

import numpy as np

from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: after every state change of the real engine (set positions, temperature, masses, steps, checkpoints) the bosonic spring energy, forces and estimators are compared with an explicit enumeration of the permutations, and runs are watched for conservation of energy"
NOTE = "Up to 6 bosons among up to 8 atoms and 8 beads with every permutation enumerated (each represented by cycles of consecutive labels, as the method defines), from compact to very spread rings; NVE runs with bosons."
RULE = "each evaluation is one comparison on one state; distinct counts (bosons, atoms, beads, spread) signatures"
ASSUMPTIONS = ["each permutation is represented by the cycles of consecutive labels of the same structure, which is the definition of the method (arXiv:2305.18025)"]
REQUIRE = {"vspring": 60, "fspring": 60, "estimator": 60, "single": 6, "conserve": 4, "gradient": 20, "restart": 4}
KB = 1.0


def cases(tier, seed):
    n = {"quick": (36, 8, 5), "thorough": (700, 150, 60)}[tier]
    out = [dict(name="state_%d" % i, kind="state", cseed=sub_seed(seed, "s", i)) for i in range(n[0])]
    out += [dict(name="single_%d" % i, kind="single", cseed=sub_seed(seed, "1", i)) for i in range(n[1])]
    out += [dict(name="run_%d" % i, kind="run", cseed=sub_seed(seed, "r", i)) for i in range(n[2])]
    out += [dict(name="large_%d" % i, kind="large", cseed=sub_seed(seed, "l", i)) for i in range({"quick": 6, "thorough": 60}[tier])]
    return out


# ------------------------------------------------------------------ oracle
def perm_cycles(perm):
    """Cycle lengths of a permutation, in the order in which the recursion meets them:
    the cycle of the largest label takes the last labels, and so on downwards."""
    n = len(perm)
    left = list(range(n))
    out = []
    while left:
        top = left[-1]
        c, x = [top], perm[top]
        while x != top:
            c.append(x)
            x = perm[x]
        out.append(len(c))
        left = [y for y in left if y not in c]
    return out  # lengths from the last label downwards


def next_maps(n):
    """{composition: number of permutations}; a composition is a list of cycle lengths from the top label."""
    import itertools

    cnt = {}
    for p in itertools.permutations(range(n)):
        k = tuple(perm_cycles(p))
        cnt[k] = cnt.get(k, 0) + 1
    return cnt


def successor(comp):
    """For each label, the one its last bead is linked to, for cycles of consecutive labels."""
    n = sum(comp)
    nxt = [0] * n
    hi = n
    for k in comp:
        lo = hi - k
        for x in range(lo, hi):
            nxt[x] = x + 1 if x + 1 < hi else lo
        hi = lo
    return nxt


def spring(q, m, w2, nxt):
    """Energy and forces of one set of links; q (P,N,3)."""
    P = len(q)
    e, f = 0.0, np.zeros_like(q)
    for b in range(P - 1):
        d = q[b + 1] - q[b]
        e += 0.5 * m * w2 * np.sum(d**2)
        f[b] += m * w2 * d
        f[b + 1] -= m * w2 * d
    d = q[0][nxt] - q[-1]
    e += 0.5 * m * w2 * np.sum(d**2)
    f[-1] += m * w2 * d
    for i, j in enumerate(nxt):
        f[0][j] -= m * w2 * d[i]
    return e, f


def oracle(q, m, w2, betaP, cnt):
    P, N = q.shape[:2]
    es, fs, lw, sgn, comps = [], [], [], [], []
    for comp, n in cnt.items():
        e, f = spring(q, m, w2, successor(comp))
        es.append(e)
        fs.append(f)
        lw.append(math.log(n) - math.lgamma(N + 1) - betaP * e)
        sgn.append((-1) ** (N - len(comp)))
        comps.append(comp)
    es, lw, sgn = np.array(es), np.array(lw), np.array(sgn)
    mx = lw.max()
    w = np.exp(lw - mx)
    Z = w.sum()
    V = -(mx + math.log(Z)) / betaP
    pr = w / Z
    F = sum(p * f for p, f in zip(pr, fs))
    kin = 1.5 * N / betaP - np.dot(pr, es) / P
    distinct = pr[[i for i, c in enumerate(comps) if len(c) == N][0]]
    longest = pr[[i for i, c in enumerate(comps) if len(c) == 1][0]] * N
    return dict(V=V, F=F, kin=kin, distinct=distinct, longest=longest, sign=float(np.dot(pr, sgn)), Z=lw)


_CNT = {}


def counts(n):
    if n not in _CNT:
        _CNT[n] = next_maps(n)
    return _CNT[n]


def make(rng, bosons, natoms, P, T, spread, byname, mass, nsteps=10, dt=5.0, mode="nve", nmts=10, extra=""):
    masses = rng.choice([1837.0, 3674.0, 12000.0], natoms)
    masses[bosons] = mass
    names = ["X"] * natoms
    for b in bosons:
        names[b] = "He"
    g = sg.geometry(rng, natoms, P, spread=spread, masses=masses, names=names, p_t=T * sg.KELVIN, lattice=max(0.3, spread))
    for i in range(natoms):
        g["q"][:, 3 * i : 3 * i + 3] += 0
    bt = sg.tag("bosons", sg.sarr(["He"]), id="label") if byname else sg.tag("bosons", sg.sarr(bosons), id="index")
    nm = sg.tag("normal_modes", sg.tag("nmts", nmts) + bt, propagator="bab")
    ens = "<temperature units='kelvin'>%r</temperature>" % T
    th = sg.thermostat("langevin", tau=100.0) if mode == "nvt" else ""
    return sg.simulation([sg.system(g, sg.dynamics(mode, dt, thermostat=th), ensemble=ens, nm=nm)], sg.ffdirect(pars=dict(k=0.0, g=0.0, kt=0.005)), nsteps, outputs=extra), masses


def compare(rec, s, bosons, masses, T, sig, cond=True):
    natoms, P = s.beads.natoms, s.beads.nbeads
    q = sg.A(s.beads.q).reshape(P, natoms, 3)
    kT = T * sg.KELVIN
    w2 = (P * kT) ** 2
    betaP = 1.0 / (P * kT)
    o = oracle(q[:, bosons], masses[bosons[0]], w2, betaP, counts(len(bosons)))
    V, F = o["V"], np.zeros((P, natoms, 3))
    F[:, bosons] = o["F"]
    kd = 0.0
    for i in range(natoms):
        if i in bosons:
            continue
        e, f = spring(q[:, [i]], masses[i], w2, [0])
        V += e
        F[:, i] = f[:, 0]
        kd += 1.5 / betaP - e / P
    tol = 1e-9
    # the constant used by i-PI has only 8 digits: temperatures are converted, so compare at 1e-7
    rec.close(float(s.nm.vspring), V, 1e-7, "vspring", "spring energy (%s)" % sig, sig, atol=1e-7 * P * kT)
    rec.close(sg.A(s.nm.fspring).reshape(P, natoms, 3), F, 1e-6, "fspring", "spring forces (%s)" % sig, sig, atol=1e-6 * np.max(np.abs(F)))
    pr = s.properties
    val = lambda k: float(np.asarray(pr[k][0]))
    big = 1.5 * natoms / betaP + abs(V) / P
    rec.close(val("kinetic_td"), o["kin"] + kd, 1e-6, "estimator", "kinetic_td (%s)" % sig, sig, atol=1e-7 * big)
    rec.close(val("kinetic_td(He)"), o["kin"], 1e-6, "estimator", "kinetic_td of the bosons", sig, atol=1e-7 * big)
    if len(bosons) < natoms:
        rec.close(val("kinetic_td(X)"), kd, 1e-6, "estimator", "kinetic_td of the others", sig, atol=1e-7 * big)
    if len(bosons) > 1:
        try:
            val("kinetic_td(%d)" % bosons[0])
            rec.fail("estimator", "kinetic energy of one of several bosons was given")
        except IndexError:
            rec.ok("estimator", sig)
    at = 1e-6 * (1 + betaP * abs(o["V"]))
    rec.close(val("exchange_distinct_prob"), o["distinct"], 1e-5, "estimator", "exchange_distinct_prob (%s)" % sig, sig, atol=at * o["distinct"] + 1e-12)
    rec.close(val("exchange_all_prob"), o["longest"], 1e-5, "estimator", "exchange_all_prob (%s)" % sig, sig, atol=at * o["longest"] + 1e-12)
    if betaP * abs(o["V"]) < 500:
        rec.close(val("fermionic_sign"), o["sign"], 1e-5, "estimator", "fermionic_sign (%s)" % sig, sig, atol=at * 10)
    return V, F


def pick(rng):
    nb = int(rng.integers(2, 7))
    natoms = nb + int(rng.choice([0, 0, 1, 2]))
    P = int(rng.integers(2, 9))
    bosons = sorted(int(x) for x in rng.permutation(natoms)[:nb])
    T = float(10.0 ** rng.uniform(1, 3))
    mass = float(rng.choice([1837.0, 7294.0, 100.0]))
    # thermal length of the ring and separation of the bosons in these units
    lam = 1.0 / np.sqrt(mass * T * sg.KELVIN * P)
    spread = lam * float(10.0 ** rng.uniform(-1, 0.7))
    return nb, natoms, P, bosons, T, mass, spread, lam


def run_state(case, rec):
    rng = np.random.default_rng(case["cseed"])
    nb, natoms, P, bosons, T, mass, spread, lam = pick(rng)
    byname = bool(rng.random() < 0.5)
    sig = "%d/%d|%d|%.1f" % (nb, natoms, P, np.log10(spread / lam))
    rec.sample(sig)
    x, masses = make(rng, bosons, natoms, P, T, spread, byname, mass)
    sim = sg.load(x)
    s = sim.syslist[0]
    rec.check([int(i) for i in np.asarray(s.nm.bosons)] == bosons, "vspring", "bosons selected: %s instead of %s" % (s.nm.bosons, bosons), sig)
    V, F = compare(rec, s, bosons, masses, T, sig)
    # forces are minus the gradient, by differences in the real code
    q0 = sg.A(s.beads.q)
    for _ in range(2):
        d = rng.standard_normal(q0.shape)
        h = 1e-4 * lam
        e = []
        for k in (2, 1, -1, -2):
            s.beads.q = q0 + k * h * d
            e.append(float(s.nm.vspring))
        g = (-e[0] + 8 * e[1] - 8 * e[2] + e[3]) / (12 * h)
        rec.close(-g, float(np.sum(F.reshape(q0.shape) * d)), 1e-4, "gradient", "forces are not minus the gradient (%s)" % sig, sig, atol=1e-5 * np.linalg.norm(F) + 1e-10 * max(1.0, abs(V)) / h)
    s.beads.q = q0
    for _ in range(3):
        r = rng.random()
        if r < 0.25:
            T = T * float(rng.uniform(0.7, 1.4))
            s.ensemble.temp = T * sg.KELVIN
        elif r < 0.4:
            masses = masses * 1.1
            s.beads.m = masses
        elif r < 0.6:
            # only one boson moves
            k = bosons[int(rng.integers(nb))]
            q = sg.A(s.beads.q)
            q[int(rng.integers(P)), 3 * k] += lam
            s.beads.q = q
        elif r < 0.8:
            s.beads.q = q0 + spread * rng.standard_normal(q0.shape)
        else:
            s.motion.step(0)
        compare(rec, s, bosons, masses, T, sig + "*")


def run_single(case, rec):
    """One boson is a distinguishable particle."""
    rng = np.random.default_rng(case["cseed"])
    natoms, P = int(rng.integers(1, 4)), int(rng.integers(2, 9))
    b = [int(rng.integers(natoms))]
    T = float(10.0 ** rng.uniform(1.5, 3))
    x, masses = make(rng, b, natoms, P, T, 0.2, False, 1837.0)
    import re

    y = re.sub(r"<bosons.*?</bosons>", "", x)
    a, c = sg.load(x).syslist[0], sg.load(y).syslist[0]
    sig = "%d|%d" % (natoms, P)
    for step in range(3):
        rec.close(float(a.nm.vspring), float(c.nm.vspring), 1e-9, "single", "spring energy", sig)
        rec.close(sg.A(a.nm.fspring), sg.A(c.nm.fspring), 1e-8, "single", "spring forces", sig, atol=1e-10)
        rec.close(float(a.properties["kinetic_td"][0]), float(c.properties["kinetic_td"][0]), 1e-8, "single", "kinetic_td", sig, atol=1e-12)
        rec.close(float(a.properties["fermionic_sign"][0]), 1.0, 1e-9, "single", "sign", sig)
        rec.close(sg.A(a.beads.q), sg.A(c.beads.q), 1e-8, "single", "trajectory", sig)
        a.motion.step(step)
        c.motion.step(step)


def run_run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    nb, natoms, P, bosons, T, mass, spread, lam = pick(rng)
    nb = min(nb, 5)
    bosons = bosons[:nb]
    T = max(T, 50.0)
    P = min(P, 6)
    mass = 1837.0
    w = P * T * sg.KELVIN
    dt = 0.1 / max(w, np.sqrt(0.005 / 1837.0))
    res = []
    sig = "%d/%d|%d" % (nb, natoms, P)
    seed = int(rng.integers(1 << 30))
    for k in (1, 2):
        x, masses = make(np.random.default_rng(seed), bosons, natoms, P, T, spread, False, mass, dt=dt / k, nmts=4)
        s = sg.load(x).syslist[0]
        e = [float(s.ensemble.econs)]
        for i in range(40 * k):
            s.motion.step(i)
            e.append(float(s.ensemble.econs))
        res.append(max(abs(np.array(e) - e[0])) )
        compare(rec, s, bosons, masses, T, sig + "run")
    kT = T * sg.KELVIN * P * natoms
    # the exchange potential has an absolute scale of 1/betaP; verlet errors scale with the square of the timestep
    rec.check(res[1] < 0.45 * res[0] + 1e-8 * kT and res[0] < 0.1 * (kT + abs(e[0])), "conserve", "energy error %g -> %g when halving the timestep (kT scale %g)" % (res[0], res[1], kT), sig)
    # a checkpoint carries the bosons
    x, masses = make(np.random.default_rng(seed), bosons, natoms, P, T, spread, bool(rng.random() < 0.5), mass, nsteps=4, dt=dt, nmts=4, extra="<checkpoint filename='chk' stride='2' overwrite='False'/>", mode="nvt")
    sim = sg.load(x)
    sg.run_to_end(sim)
    fin = sg.A(sim.syslist[0].beads.q)
    import glob

    f = sorted(glob.glob("*chk_2*") + glob.glob("*chk_1*"))[0]
    s2 = sg.load(open(f).read())
    a = s2.syslist[0]
    rec.check([int(i) for i in np.asarray(a.nm.bosons)] == bosons, "restart", "bosons in the checkpoint: %s" % a.nm.bosons, sig)
    compare(rec, a, bosons, masses, T, sig + "chk")
    sg.run_to_end(s2)
    rec.close(sg.A(a.beads.q), fin, 1e-6, "restart", "trajectory after a restart with bosons", sig)


def run_large(case, rec):
    """Many bosons, very compact or very spread: finite, no net force, minus the gradient."""
    rng = np.random.default_rng(case["cseed"])
    nb, P = int(rng.integers(10, 40)), int(rng.integers(2, 10))
    T, mass = float(10.0 ** rng.uniform(0.5, 3)), 7294.0
    lam = 1.0 / np.sqrt(mass * T * sg.KELVIN * P)
    spread = lam * float(10.0 ** rng.uniform(-1.5, 1.5))
    x, masses = make(rng, list(range(nb)), nb, P, T, spread, False, mass)
    s = sg.load(x).syslist[0]
    sig = "%d|%.1f" % (nb, np.log10(spread / lam))
    V, F = float(s.nm.vspring), sg.A(s.nm.fspring)
    rec.check(bool(np.isfinite(V) and np.all(np.isfinite(F))), "vspring", "not finite for %s" % sig, sig)
    rec.close(F.reshape(P, nb, 3).sum(axis=(0, 1)), np.zeros(3), 0, "gradient", "net spring force", sig, atol=1e-9 * np.abs(F).sum())
    q0 = sg.A(s.beads.q)
    sc = max(lam, spread)
    h = 1e-4 * sc
    for _ in range(2):
        d = rng.standard_normal(q0.shape)
        e = []
        for k in (2, 1, -1, -2):
            s.beads.q = q0 + k * h * d
            e.append(float(s.nm.vspring))
        g = (-e[0] + 8 * e[1] - 8 * e[2] + e[3]) / (12 * h)
        rec.close(-g, float(np.sum(F * d)), 1e-3, "gradient", "forces are not minus the gradient (%s)" % sig, sig, atol=1e-4 * np.linalg.norm(F) + 1e-10 * max(1.0, abs(V)) / h)
    # between the energies of the two extreme permutations; log(N!) bounds the entropy
    q = q0.reshape(P, nb, 3)
    w2, betaP = (P * T * sg.KELVIN) ** 2, 1.0 / (P * T * sg.KELVIN)
    e1 = spring(q, mass, w2, list(range(nb)))[0]
    e2 = spring(q, mass, w2, successor((nb,)))[0]
    ub = min(e1 + math.lgamma(nb + 1) / betaP, e2 + math.log(nb) / betaP)
    rec.check(V <= ub * (1 + 1e-6) + 1e-9, "vspring", "V=%g above the bound %g from single permutations" % (V, ub), sig)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
