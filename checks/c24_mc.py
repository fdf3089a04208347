"""C24: Monte Carlo moves, ramps and replayed trajectories."""
import glob
import os

import numpy as np

from checks import c07_forces as c07
from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C24"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitor: real Monte Carlo steps replayed with controlled acceptance numbers against an independent energy model, full-state comparison after rejections; ramp and replay runs against the requested schedule and frames"
NOTE = "every attempt of a round is decided on a chosen side of its own Metropolis probability by replaying the round from the same state and random stream"
RULE = (
    "each execution builds one random system with an exchange motion, a ramp or a trajectory to replay; monitors: decision of every attempt on both sides of the Metropolis probability, "
    "pairs exchanged, untouched state after rejection, forces and conserved quantity after acceptance, coverage of the pairs and number of attempts; schedule of temperature and pressure "
    "after every step; positions, cell and energies of every replayed frame; distinct counts configurations"
)
ASSUMPTIONS = [
    "random numbers are drawn from the generator the motion was bound to",
    "exchanges of bosons, of atoms in Suzuki-Chin dynamics and of frozen atoms are left out",
    "at least two species among those to be exchanged are present",
]
TIMEOUT = {"quick": 300, "thorough": 900}
REQUIRE = {"decision": 40, "rejected": 40, "accepted": 40, "pairs": 4, "ramp": 40, "frame": 40}
ELEMENTS = [("H", 1837.4), ("D", 3671.5), ("Li", 12652.7), ("O", 29156.9)]


DERIVED = ("econs", "pot", "f", "vir", "bias", "bf", "kin", "spring")


def cases(tier, seed):
    f = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("mc", 36), ("ramp", 16), ("replay", 20)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c24", kind, i), tier=tier) for i in range(n * f)]
    return out


def run(case, rec):
    globals()["k_" + case["kind"]](case, rec, np.random.default_rng(case["cseed"]))


class Script:
    """The generator of the motion, with the acceptance numbers under control."""

    def __init__(self, prng):
        self._prng = prng
        self.us, self.k, self.n, self.lam = [], 0, None, []

    @property
    def u(self):
        self.k += 1
        return self.us[self.k - 1] if self.k <= len(self.us) else 0.5

    def poisson(self, lam=1.0, size=None):
        self.lam.append(lam)
        return self._prng.poisson(lam, size) if self.n is None else self.n

    def __getattr__(self, k):
        return getattr(self._prng, k)


def species(rng, nat, kinds):
    """names (in the order of the kinds) and masses"""
    while True:
        ix = rng.integers(0, len(ELEMENTS), nat)
        names = [ELEMENTS[i][0] for i in ix]
        inn = [n for n in names if n in kinds]
        if len(set(inn)) > 1:
            return names, np.array([ELEMENTS[i][1] for i in ix])


class Model:
    def __init__(self, spec):
        self.spec, self.n, self.nat = spec, spec["nbeads"], spec["natoms"]
        self.w = [c["weight"] * (sum(c["mts"]) if c.get("mts") else 1.0) for c in spec["comps"]]
        self.hw = spec.get("hweights") or [1.0] * len(self.w)
        self.orc = c07.Oracle(spec, spec["comps"], self.w)
        self.ob = c07.Oracle(spec, spec["bias"], spec["bweights"]) if spec.get("bias") else None
        self.opens = (spec.get("nm") or {}).get("open", [])

    def energy(self, st):
        q, h, m = st["q"], st["h"], st["m"]
        E = self.orc.total(q, h, [a * b for a, b in zip(self.w, self.hw)])[0]
        if self.ob:
            E += self.ob.total(q, h)[0]
        wn2 = (self.n * st["temp"]) ** 2
        if self.n > 1:
            for a in range(self.nat):
                d = q[:, 3 * a : 3 * a + 3]
                dd = d[1:] - d[:-1] if a in self.opens else d - np.roll(d, 1, axis=0)
                E += 0.5 * m[a] * wn2 * np.sum(dd * dd)
        return E


def snap(s):
    A = sg.A
    return dict(
        q=A(s.beads.q),
        p=A(s.beads.p),
        m=A(s.beads.m),
        names=[str(x) for x in s.beads.names],
        h=A(s.cell.h),
        temp=float(s.ensemble.temp),
        econs=float(s.ensemble.econs),
        pot=float(s.forces.pot),
        f=A(s.forces.f),
        vir=A(s.forces.vir),
        bias=float(s.ensemble.bias.pot),
        bf=A(s.ensemble.bias.f),
        kin=float(s.nm.kin),
        spring=float(s.nm.vspring),
    )


def put(s, mc, st, ealc):
    s.beads.q = st["q"]
    s.beads.m = st["m"]
    s.beads.names[:] = np.array(st["names"])
    s.beads.p = st["p"]
    s.cell.h = st["h"]
    mc.ealc = ealc


def changed(a, b):
    """atoms that differ between two states"""
    out = []
    for i in range(len(a["names"])):
        sl = slice(3 * i, 3 * i + 3)
        if (a["q"][:, sl] != b["q"][:, sl]).any() or a["names"][i] != b["names"][i] or a["m"][i] != b["m"][i] or (a["p"][:, sl] != b["p"][:, sl]).any():
            out.append(i)
    return out


def identical(a, b, skip=()):
    bad = []
    for k in a:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if isinstance(x, list):
            if x != y:
                bad.append(k)
        elif not np.array_equal(np.asarray(x), np.asarray(y)):
            bad.append("%s by %.2e" % (k, np.max(np.abs(np.asarray(x) - np.asarray(y)))))
    return bad


def k_mc(case, rec, rng):
    which = ["alchemy", "atomswap"][case["i"] % 2]
    spec = cg.rand_spec(rng, modes=("nve", "nvt", "nvt", "npt"), thermos=["langevin", "pile_g", "gle"], allow=("multi", "mts", "contraction", "bias", "bias", "hweights", "open", "prop", "nmmodes"), natoms=int(rng.integers(3, 6)))
    kinds = [ELEMENTS[i][0] for i in rng.permutation(4)[: int(rng.integers(2, 4))]]
    names, masses = species(rng, spec["natoms"], kinds)
    g = cg.geom(spec)
    g["m"], g["names"] = masses, names
    g["p"] = np.sqrt(spec["temp"] * spec["nbeads"] * np.repeat(masses, 3)) * rng.standard_normal(g["q"].shape)
    nxc = float(rng.choice([1.0, 2.0, 3.0]))
    e0 = float(rng.choice([0.0, 0.37]))
    mcx = sg.tag("motion", sg.tag(which, sg.tag("names", "[ " + ", ".join(kinds) + " ]") + sg.tag("nxc", repr(nxc)) + sg.tag("ealc", repr(e0))), mode=which)
    mot = sg.tag("motion", cg.motion_xml(spec) + mcx, mode="multi")
    x = sg.simulation([sg.system(g, mot, forces=cg.forces_xml(spec), ensemble=cg.ensemble_xml(spec), nm=cg.nm_xml(spec))], cg.ff_xml(spec), 5, seed=spec["seed"])
    sim = sg.load(x)
    s = sim.syslist[0]
    dyn, mc = s.motion.mlist
    mod = Model(spec)
    key = (which, cg.label(spec), bool(spec.get("hweights")), len(set(kinds)))
    msg = "%s %s names %s of %s" % (which, cg.label(spec), kinds, names)
    rec.sample(dict(case=case["name"], sig=cg.label(spec), which=which))
    T = spec["temp"]
    sc = Script(mc.prng)
    mc.prng = sc
    n = spec["nbeads"]
    for rnd in range(2):
        if rnd:
            dyn.step(1)
        sc.k = 0
        start, eal = snap(s), float(mc.ealc)
        ps = sim.prng.state
        cur, us = start, []
        ntry = int(rng.integers(1, 4))

        def go(uu):
            put(s, mc, start, eal)
            sim.prng.state = ps
            sc.us, sc.k, sc.n = uu, 0, len(uu)
            mc.step(0)
            return snap(s)

        for k in range(ntry):
            got = go(us + [1e-300])
            ch = changed(cur, got)
            # which pair
            if not rec.check(len(ch) == 2, "accepted", msg + " attempt %d with u=0 changes atoms %s" % (k, ch), key):
                break
            i, j = ch
            ok = cur["names"][i] in kinds and cur["names"][j] in kinds and cur["names"][i] != cur["names"][j]
            rec.check(ok, "accepted", msg + " exchanges %s and %s" % (cur["names"][i], cur["names"][j]), key)
            want = dict(cur, q=cur["q"].copy(), p=cur["p"].copy(), m=cur["m"].copy(), names=list(cur["names"]))
            si, sj = slice(3 * i, 3 * i + 3), slice(3 * j, 3 * j + 3)
            if which == "atomswap":
                want["q"][:, si], want["q"][:, sj] = cur["q"][:, sj], cur["q"][:, si]
            else:
                want["names"][i], want["names"][j] = cur["names"][j], cur["names"][i]
                want["m"][i], want["m"][j] = cur["m"][j], cur["m"][i]
                want["p"][:, si] *= np.sqrt(cur["m"][j] / cur["m"][i])
                want["p"][:, sj] *= np.sqrt(cur["m"][i] / cur["m"][j])
            rec.check(got["names"] == want["names"], "accepted", msg + " names %s, should be %s" % (got["names"], want["names"]), key)
            for a in ("q", "m", "p", "h"):
                rec.close(got[a], want[a], 1e-13, "accepted", msg + " %s after exchanging atoms %d and %d" % (a, i, j), key)
            # energies at the new configuration, and tracking
            pot, F, V = mod.orc.total(want["q"], want["h"])
            rec.close(got["pot"], pot, 1e-10, "accepted", msg + " energy after an exchange", key, atol=1e-12)
            rec.close(got["f"], F, 1e-9, "accepted", msg + " forces after an exchange", key, atol=1e-12)
            rec.close(got["vir"], V, 1e-9, "accepted", msg + " virial after an exchange", key, atol=1e-12)
            dE = mod.energy(want) - mod.energy(cur)
            rec.close(got["pot"] + got["bias"] + got["spring"] - cur["pot"] - cur["bias"] - cur["spring"], dE, 1e-8, "accepted", msg + " energy change", key, atol=1e-10 * max(1, abs(got["spring"]), abs(got["pot"])))
            rec.close(got["kin"], cur["kin"], 1e-11, "accepted", msg + " kinetic energy across an exchange", key)
            rec.close(got["econs"], start["econs"], 1e-10, "accepted", msg + " conserved quantity across %d attempts" % (k + 1), key, atol=1e-11)
            A = float(np.exp(min(0.0, -dE / (T * n))))
            tol = 1e-8 + 1e-9 * max(abs(mod.energy(want)), abs(dE)) / (T * n)
            if A < 1e-250:
                # cannot be decided from above: rejected for any number of interest
                u, acc = 1e-200, False
            elif A > 1 - 10 * tol:
                u, acc = 1 - 20 * tol, True
            elif rng.random() < 0.5:
                u, acc = A * (1 - tol), True
            else:
                u, acc = A * (1 + tol), False
            res = go(us + [u])
            moved = changed(cur, res)
            rec.check((moved == [i, j]) if acc else (moved == []), "decision", msg + " attempt %d: u=%.10g, Metropolis probability %.10g (energy change %.6e): atoms %s changed" % (k, u, A, dE, moved), key)
            if acc and moved:
                cur = res
            elif not moved and k == 0:
                bad = identical(start, res, skip=DERIVED)
                for a in DERIVED:
                    rec.close(res[a], start[a], 1e-12, "rejected", msg + " %s after a rejected attempt" % a, key, atol=1e-13)
                rec.check(not bad, "rejected", msg + " state after a rejected attempt differs: %s" % bad, key)
                rec.check(float(mc.ealc) == eal, "rejected", msg + " energy counter after a rejected attempt", key)
            else:
                bad = identical(cur, res, skip=DERIVED)
                rec.check(not bad, "rejected", msg + " state after a rejected attempt differs: %s" % bad, key)
            us.append(u)
        # as found
        put(s, mc, start, eal)
    sc.n = None
    # all pairs are tried, and as often as requested
    sc.us = []
    pairs = set()
    L = [i for i in range(len(names)) if names[i] in kinds]
    poss = set((i, j) for i in L for j in L if i < j and start["names"][i] != start["names"][j])
    sim.prng.state = ps
    sc.n = 1
    for _ in range(60 * len(poss) if which == "alchemy" else 25 * len(poss)):
        put(s, mc, start, eal)
        sc.us, sc.k = [0.0], 0
        mc.step(0)
        b = dict(q=sg.A(s.beads.q), p=sg.A(s.beads.p), m=sg.A(s.beads.m), names=[str(x) for x in s.beads.names])
        c = changed(start, b)
        pairs.add(tuple(c))
        if pairs == poss:
            break
    extra, missing = pairs - poss, poss - pairs
    if start["pot"] == start["pot"] and (which == "alchemy" or not extra):
        rec.check(not extra - {()}, "pairs", msg + " pairs exchanged that should not be: %s" % extra, key)
        rec.check(not missing, "pairs", msg + " pairs that are never tried: %s" % missing, key)
    put(s, mc, start, eal)
    if which == "alchemy":
        sc.n, N, tot = None, 300, 0
        for _ in range(N):
            sc.us, sc.k = [1.0] * 200, 0
            mc.step(0)
            tot += sc.k
        sd = np.sqrt(N * nxc)
        rec.check(abs(tot - N * nxc) < 7 * sd, "attempts", msg + " %d attempts in %d steps, %g requested per step" % (tot, N, nxc), key)
    cg.end(sim)


def k_ramp(case, rec, rng):
    both = ["t", "p", "tp"][case["i"] % 3]
    spec = cg.rand_spec(rng, modes=("npt",) if "p" in both else ("nvt", "nve", "npt"), thermos=["langevin", "pile_g", "gle", "pile_l"], natoms=2, allow=("fixcom",))
    n = int(rng.integers(3, 9))
    N = int(rng.integers(1, n + 3))
    logs = bool(rng.random() < 0.5)
    t0, t1 = spec["temp"], spec["temp"] * float(rng.choice([0.2, 0.7, 1.5, 4.0]))
    p0, p1 = 1e-5, 1e-5 * float(rng.choice([0.1, 3.0, 50.0]))
    if not logs and rng.random() < 0.5:
        p0, p1 = p0, -p1
    done = int(rng.choice([0, 0, 2]))
    ms = []
    unit = bool(rng.random() < 0.5)

    def ramp(nm, tg, a, b):
        at = {}
        if unit and tg == "t":
            a, b, at = a / sg.KELVIN, b / sg.KELVIN, dict(units="kelvin")
        body = sg.tag(tg + "_start", repr(float(a)), **at) + sg.tag(tg + "_end", repr(float(b)), **at) + sg.tag("total_steps", N) + sg.tag("logscale", str(logs))
        if done:
            body += sg.tag("current_step", done)
        return sg.tag("motion", sg.tag(nm, body), mode=nm)

    if "t" in both:
        ms.append(ramp("t_ramp", "t", t0, t1))
    if "p" in both:
        ms.append(ramp("p_ramp", "p", p0, p1))
    dyn = cg.motion_xml(spec)
    pos = int(rng.integers(0, len(ms) + 1))
    mot = sg.tag("motion", "".join(ms[:pos]) + dyn + "".join(ms[pos:]), mode="multi")
    if rng.random() < 0.2 and "t" == both:
        mot = ms[0]
    x = sg.simulation([sg.system(cg.geom(spec), mot, forces=cg.forces_xml(spec), ensemble=cg.ensemble_xml(spec), nm=cg.nm_xml(spec))], cg.ff_xml(spec), n, seed=spec["seed"])
    x = x.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    sim = sg.load(x)
    key = ("ramp", both, logs, N, done, pos)
    msg = "ramp %s log=%s over %d steps (%d done)" % (both, logs, N, done)
    seen = {}
    cut = int(rng.integers(1, n))
    keep = {}

    def look(sim, k):
        s = sim.syslist[0]
        m = s.motion.mlist if hasattr(s.motion, "mlist") else [s.motion]
        d = [y for y in m if hasattr(y, "thermostat")]
        seen[k] = (float(s.ensemble.temp), float(s.ensemble.pext), float(s.nm.omegan), [float(y.thermostat.temp) for y in d], [float(y.barostat.pext) for y in d], [float(y.barostat.temp) for y in d])
        if k == cut:
            sim.chk.write(store=False)
            keep["chk"] = open(sim.chk.filename).read() if os.path.exists(sim.chk.filename) else None

    def sched(a, b, k):
        k += done
        if k >= N:
            return b
        return a * (b / a) ** (k / N) if logs else a + k * (b - a) / N

    def verify(seen, what):
        for k, (t, p, wn, tt, bp, bt) in sorted(seen.items()):
            wt = sched(t0, t1, k) if "t" in both else t0
            if k == 0:
                wt = t0
            rec.close(t, wt, 1e-12 if k + done < N else 1e-15, "ramp", msg + what + " temperature after step %d" % k, key)
            rec.close(wn, wt * spec["nbeads"], 1e-12, "ramp", msg + what + " path frequency after step %d" % k, key)
            for z in tt + bt:
                rec.close(z, wt * spec["nbeads"], 1e-12, "ramp", msg + what + " temperature of the bath after step %d" % k, key)
            if "p" in both and k > 0:
                rec.close(p, sched(p0, p1, k), 1e-12 if k + done < N else 1e-15, "ramp", msg + what + " pressure after step %d" % k, key)
                for z in bp:
                    rec.close(z, sched(p0, p1, k), 1e-12, "ramp", msg + what + " pressure of the barostat after step %d" % k, key)

    sim.outputs.append(cg.Probe(sim, look))
    sg.run_to_end(sim)
    cg.end(sim)
    rec.check(len(seen) >= n, "ramp", msg + " %d steps seen of %d" % (len(seen), n), key)
    verify(seen, "")


def frame_text(mode, names, q, h, title, upos, ucell, bead):
    """A frame in the format, written here and not by i-PI."""
    A = 0.529177210903
    fq = A if upos == "angstrom" else 1.0
    fc = A if ucell == "angstrom" else 1.0
    if mode == "xyz":
        a = np.linalg.norm(h, axis=0)
        v = [h[:, 0], h[:, 1], h[:, 2]]
        ang = [np.degrees(np.arccos(np.dot(v[i], v[j]) / a[i] / a[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
        t = "%d\n# CELL(abcABC): %.12f %.12f %.12f %.12f %.12f %.12f Step: 0 Bead: %d positions{%s} cell{%s}%s\n" % (len(names), a[0] * fc, a[1] * fc, a[2] * fc, ang[0], ang[1], ang[2], bead, upos, ucell, title)
        for i, nme in enumerate(names):
            t += "%8s %.14e %.14e %.14e\n" % ((nme,) + tuple(q[3 * i : 3 * i + 3] * fq))
        return t
    if mode == "pdb":
        a = np.linalg.norm(h, axis=0)
        v = [h[:, 0], h[:, 1], h[:, 2]]
        ang = [np.degrees(np.arccos(np.dot(v[i], v[j]) / a[i] / a[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
        t = "TITLE Step: 0 Bead: %d positions{%s} cell{%s}%s\n" % (bead, upos, ucell, title)
        t += "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n" % (a[0] * fc, a[1] * fc, a[2] * fc, ang[0], ang[1], ang[2], " P 1        ", 1)
        for i, nme in enumerate(names):
            t += "ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n" % ((i + 1, nme, " ", "  1", " ", 1, " ") + tuple(q[3 * i : 3 * i + 3] * fq) + (0.0, 0.0, "  ", 0))
        return t + "END\n"
    # extended xyz, angstrom
    H = h.T * A
    t = '%d\nLattice="%s" Properties=species:S:1:pos:R:3 pbc="T T T"\n' % (len(names), " ".join("%.14f" % y for y in H.ravel()))
    for i, nme in enumerate(names):
        t += "%s %.14f %.14f %.14f\n" % ((nme,) + tuple(q[3 * i : 3 * i + 3] * A))
    return t


def k_replay(case, rec, rng):
    mode = ["xyz", "pdb", "ase", "xyz", "chk"][case["i"] % 5]
    nb = int(rng.choice([1, 2, 3, 11]))
    spec = cg.rand_spec(rng, modes=("nve",), natoms=int(rng.integers(1, 5)), nbeads=nb, allow=("multi", "contraction", "bias"))
    nat = spec["natoms"]
    names = [str(rng.choice(["H", "O", "Li"])) for _ in range(nat)]
    g = cg.geom(spec)
    g["names"] = names
    nf = int(rng.integers(1, 7))
    tri = bool(rng.random() < 0.5)
    qs, hs = [], []
    for k in range(nf):
        h = np.diag(rng.uniform(9, 13, 3))
        if tri:
            h += np.triu(rng.uniform(-1.5, 1.5, (3, 3)), 1)
        hs.append(h)
        qs.append(g["q"] + 0.3 * rng.standard_normal(g["q"].shape) + 0.1 * k)
    wild = bool(rng.random() < 0.5) and nb > 1 and mode in ("xyz", "pdb")
    upos = str(rng.choice(["angstrom", "atomic_unit"]))
    ucell = str(rng.choice(["angstrom", "atomic_unit"]))
    if mode == "pdb":
        upos, ucell = ("angstrom", "angstrom") if rng.random() < 0.5 else (upos, ucell)
        # what the format can hold
        fa = 0.529177210903 if upos == "angstrom" else 1.0
        qs = [np.round(q * fa, 3) / fa for q in qs]
    fn = "traj"
    ext = dict(xyz="xyz", pdb="pdb", ase="extxyz", chk="chk")[mode]
    order = rng.permutation(nb) if wild else None
    if mode == "chk":
        # a checkpoint of another simulation
        sp2 = dict(spec)
        g2 = dict(g)
        g2["q"], g2["h"], nf = qs[0], hs[0], 1
        x2 = sg.simulation([sg.system(g2, cg.motion_xml(sp2), forces=cg.forces_xml(sp2), ensemble=cg.ensemble_xml(sp2))], cg.ff_xml(sp2), 5)
        x2 = x2.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
        open(fn + ".chk", "w").write(x2)
        name = fn + ".chk"
    elif wild:
        for b in range(nb):
            with open("%s_%s.%s" % (fn, "abcdefghijkl"[int(order[b])], ext), "w") as f:
                for k in range(nf):
                    f.write(frame_text(mode, names, qs[k][b], hs[k], "", upos, ucell, b))
        name = fn + "_*." + ext
    else:
        with open(fn + "." + ext, "w") as f:
            for k in range(nf):
                for b in range(nb):
                    f.write(frame_text(mode, names, qs[k][b], hs[k], "", upos, ucell, b))
        name = fn + "." + ext
    mot = sg.tag("motion", sg.tag("file", name, mode=mode), mode="replay")
    so = 1
    out = sg.tag("properties", "[ step, potential, volume ]", filename="out", stride=str(so))
    out += sg.tag("trajectory", "positions", filename="pos", stride=str(so), format="xyz")
    extra_steps = int(rng.choice([0, 0, 4]))
    nst = nf + extra_steps if extra_steps else max(1, nf - int(rng.choice([0, 0, 1])))
    x = sg.simulation([sg.system(g, mot, forces=cg.forces_xml(spec), ensemble=cg.ensemble_xml(spec))], cg.ff_xml(spec), nst, seed=3, outputs=out)
    sim = sg.load(x)
    key = ("replay", mode, nb, wild, upos, ucell, tri)
    msg = "replay of %d frames from %s (%d beads, wildcard %s, positions in %s, cell in %s) in %d steps" % (nf, name, nb, wild, upos, ucell, nst)
    seen = {}

    def look(sim, k):
        s = sim.syslist[0]
        seen[k] = (sg.A(s.beads.q), sg.A(s.cell.h), float(s.forces.pot), sg.A(s.forces.f), float(s.properties["potential"][0]))

    sim.outputs.append(cg.Probe(sim, look))
    sg.run_to_end(sim)
    cg.end(sim)
    mod = Model(spec)
    ptol = 1e-6 if mode != "chk" else 1e-12
    n = min(nf, nst)
    for k in range(1, n + 1):
        if not rec.check(k in seen, "frame", msg + " frame %d is not presented" % k, key):
            continue
        q, h, pot, f, pp = seen[k]
        rec.close(q, qs[k - 1], 0, "frame", msg + " positions of frame %d" % k, key, atol=ptol * 10)
        if mode != "pdb":
            # rotated into the standard orientation
            rec.close(h.T @ h, hs[k - 1].T @ hs[k - 1], ptol, "frame", msg + " cell of frame %d" % k, key)
        else:
            rec.close(h.T @ h, hs[k - 1].T @ hs[k - 1], 3e-3, "frame", msg + " cell of frame %d" % k, key, atol=0.05)
        E, F, _ = mod.orc.total(q, h)
        rec.close(pot, E, 1e-9, "frame", msg + " energy of frame %d" % k, key, atol=1e-11)
        rec.close(f, F, 1e-9, "frame", msg + " forces of frame %d" % k, key, atol=1e-11)
        rec.close(pp, E / nb, 1e-9, "frame", msg + " potential of frame %d" % k, key, atol=1e-11)
    head, rows = cg.read_props("sim.out")
    got = [int(r[0]) for r in rows]
    rec.check(got[: n + 1] == list(range(n + 1)), "records", msg + " records of steps %s" % got, key)
    for r in rows[1:]:
        k = int(r[0])
        if k <= n:
            E = mod.orc.total(seen[k][0], seen[k][1])[0]
            rec.close(r[1], E / nb, 1e-7, "records", msg + " potential written for frame %d" % k, key, atol=1e-9)
