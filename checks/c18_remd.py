"""C18: replica exchange."""
import glob
import itertools
import os
import re
import subprocess
import sys

import numpy as np

from checks import c07_forces as c07
from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C18"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitor: real exchange steps with controlled random numbers against independently computed Metropolis probabilities; replay of whole exchange histories; future trajectories of exchanged replicas against freshly built ones"
NOTE = "acceptance is decided on both sides of the threshold computed from an independent energy model, so no statistics are involved"
RULE = (
    "each execution builds K replicas of one random system (temperature, pressure, stress, bias and Hamiltonian weights, springs, barostats, GLE baths, Suzuki-Chin) and performs "
    "exchange steps with chosen random numbers; monitors: decision on each side of the Metropolis probability, state after acceptance and after rejection, "
    "conserved quantity, permutation and swap file, and trajectories after the exchange; distinct counts configurations"
)
ASSUMPTIONS = [
    "uniform random numbers are drawn from the u of the generator handed to the exchange step",
    "stress tensors that differ by less than 1e-10 atomic units are taken as equal",
    "barostats inside a list of motions are not rescaled and are not exercised",
]
TIMEOUT = {"quick": 300, "thorough": 900}
REQUIRE = {"decision": 40, "accepted": 60, "rejected": 60, "future": 15, "replay": 15, "file": 4}


def cases(tier, seed):
    f = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("pair", 36), ("ladder", 10), ("run", 10)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c18", kind, i), tier=tier) for i in range(n * f)]
    return out


def run(case, rec):
    globals()["k_" + case["kind"]](case, rec, np.random.default_rng(case["cseed"]))


class Fixed:
    """Random numbers under the control of the monitor."""

    def __init__(self, prng, u):
        self._prng, self.value, self.count = prng, u, 0

    @property
    def u(self):
        self.count += 1
        return self.value

    def __getattr__(self, k):
        return getattr(self._prng, k)


def make(rng, K, modes=None, light=False):
    modes = modes or ("nve", "nvt", "nvt", "npt", "npt", "nst", "sc", "scnpt")
    s = cg.rand_spec(
        rng,
        modes=modes,
        thermos=["langevin", "pile_g", "gle", "svr", "pile_l", "nm_gle", "multi"],
        allow=("multi", "mts", "contraction", "fixcom", "bias", "bias", "open", "nmmodes", "baoab"),
        natoms=int(rng.integers(2, 4)),
    )
    def noc(t):
        if t:
            t["with_c"] = False
            t.pop("ct", None)
            for x in t.get("list", []):
                noc(x)
    noc(s.get("thermo"))
    noc((s.get("baro") or {}).get("thermo"))
    if s["nm"].get("style") in ("wmax-cmd",):
        s["nm"]["style"] = "pa-cmd"
    sc = s["mode"] in ("sc", "scnpt")
    if sc:
        s.pop("bias", None)
        s.pop("bweights", None)
        s.pop("nmts", None)
        for c in s["comps"]:
            c.pop("mts", None)
    out = []
    what = rng.random(4)
    dT = float(rng.choice([0.0, 0.03, 0.1, 0.3]))
    for i in range(K):
        t = dict(s)
        t["temp"] = s["temp"] * (1 + dT * i)
        t["gseed"] = s["gseed"] + 17 * i
        if what[0] < 0.5 and "pressure" in s:
            t["pressure"] = s["pressure"] + float(rng.uniform(-1, 1)) * 1e-5
        if what[0] < 0.5 and "stress" in s:
            t["stress"] = (np.array(s["stress"]) + np.diag(rng.uniform(-1, 1, 3)) * 1e-5).tolist()
        if s.get("bias") and what[1] < 0.8:
            t["bweights"] = [float(rng.uniform(0, 1.2))]
        if what[2] < 0.5 and not sc:
            t["hweights"] = [float(x) for x in rng.uniform(0.7, 1.2, len(s["comps"]))]
        if s.get("baro"):
            t["baro"] = dict(s["baro"])
            t["volume"] = 1100.0 * float(rng.uniform(0.95, 1.05))
            if s["baro"]["mode"] == "anisotropic":
                t["baro"]["h0"] = (cg.geom(t)["h"] * float(rng.uniform(0.98, 1.02))).tolist()
        out.append(t)
    return out


def build(specs, nsteps=1, stride=1, krescale=True, outputs="", own=None, repindex=None, swapfile=None, smotion=True):
    """own: specs for the motion and normal modes, when ensembles are not those the replica started with."""
    own = own or specs
    syss = []
    for i, (e, o) in enumerate(zip(specs, own)):
        syss.append(sg.system(cg.geom(o), cg.motion_xml(o), forces=cg.forces_xml(o), ensemble=cg.ensemble_xml(e), nm=cg.nm_xml(o), prefix="r%d" % i))
    body = sg.tag("stride", repr(float(stride))) + sg.tag("krescale", str(bool(krescale)))
    if repindex is not None:
        body += sg.tag("repindex", "[ " + ", ".join(map(str, repindex)) + " ]")
    if swapfile:
        body += sg.tag("swapfile", swapfile)
    sm = sg.tag("smotion", sg.tag("remd", body), mode="remd") if smotion else ""
    x = sg.simulation(syss, cg.ff_xml(specs[0]), nsteps, seed=specs[0]["seed"], outputs=outputs, smotion=sm)
    return x.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)


ENS = ("temp", "pressure", "stress", "bweights", "hweights")


def with_ensemble(own, ens):
    t = dict(own)
    for k in ENS:
        t.pop(k, None)
        if k in ens:
            t[k] = ens[k]
    return t


class Model:
    """Independent model of the extended-system energy of a replica in a given ensemble."""

    def __init__(self, specs):
        self.spec = s = specs[0]
        self.n, self.nat = s["nbeads"], s["natoms"]
        self.w = [c["weight"] * (sum(c["mts"]) if c.get("mts") else 1.0) for c in s["comps"]]
        self.orc = c07.Oracle(s, s["comps"], self.w)
        self.ob = c07.Oracle(s, s["bias"], [1.0] * len(s["bias"])) if s.get("bias") else None
        self.opens = (s.get("nm") or {}).get("open", [])
        self.own = specs
        self.cache = {}

    def parts(self, i, q, h):
        """energies that do not depend on the ensemble"""
        k = (i, q.tobytes(), h.tobytes())
        if k not in self.cache:
            e = [self.orc.total(q, h, [self.w[a] if a == b else 0.0 for a in range(len(self.w))])[0] for b in range(len(self.w))]
            b = []
            if self.ob:
                nb = len(self.spec["bias"])
                b = [self.ob.total(q, h, [1.0 if a == c else 0.0 for a in range(nb)])[0] for c in range(nb)]
            self.cache[k] = (np.array(e), np.array(b))
        return self.cache[k]

    def dynmass(self, i, T):
        """dynamical masses of the normal modes of a replica at temperature T, (n, natoms) factors"""
        n = self.n
        st = (self.spec.get("nm") or {}).get("style")
        f = np.ones(n)
        if n > 1 and st in ("pa-cmd", "manual"):
            wn = n * T
            wk = np.array([2 * wn * np.sin(np.pi * ((k + 1) // 2) / n) for k in range(n)])
            own = self.own[i]
            w0 = n * own["temp"]
            if st == "pa-cmd":
                fr = np.full(n - 1, 2.5 * w0)
            else:
                r = np.random.default_rng(own["gseed"] + 1)
                fr = w0 * r.uniform(0.5, 2.5, n - 1)
                # the cosine of k is mode k, the sine mode n-k
                idx = [((j + 1) // 2 if j % 2 else n - j // 2) for j in range(1, n)]
                fr = fr[np.array(idx) - 1]
            f[1:] = (wk[1:] / fr) ** 2
        return f

    def energy(self, i, st, ens):
        n, nat = self.n, self.nat
        q, p, h = st["q"], st["p"], st["h"]
        m = np.repeat(st["m"], 3)
        T = ens["temp"]
        e, b = self.parts(i, q, h)
        hw = np.array(ens.get("hweights") or [1.0] * len(e))
        E = float(np.sum(hw * e))
        if len(b):
            E += float(np.sum(np.array(ens["bweights"]) * b))
        # springs
        wn2 = (n * T) ** 2
        if n > 1:
            for a in range(nat):
                d = q[:, 3 * a : 3 * a + 3]
                if a in self.opens:
                    dd = d[1:] - d[:-1]
                else:
                    dd = d - np.roll(d, 1, axis=0)
                E += 0.5 * st["m"][a] * wn2 * np.sum(dd * dd)
        # kinetic energy
        f = self.dynmass(i, T)
        if np.all(f == 1):
            E += 0.5 * np.sum(p * p / m)
        else:
            pn = c07.modes(n, True) @ p
            E += 0.5 * np.sum(pn * pn / (f[:, None] * m))
        if self.spec["mode"] in ("sc", "scnpt"):
            E += c07.sc_energy(self.orc, q, h, np.tile(m, (n, 1)), 0.0, wn2)
        baro = self.spec.get("baro")
        if baro:
            V = np.linalg.det(h)
            if baro["mode"] == "anisotropic":
                F = h @ np.linalg.inv(st["h0"])
                eps = 0.5 * (F.T @ F - np.eye(3))
                E += n * np.linalg.det(st["h0"]) * np.sum(np.array(ens["stress"]).T * eps)
            else:
                E += n * V * ens.get("pressure", 0.0)
            E += 0.5 * np.sum(st["bp"] ** 2) / self.bmass(T)
        return E

    def bmass(self, T):
        b = self.spec["baro"]
        k = 3 if b["mode"] in ("isotropic", "sc-isotropic") else 1
        return k * self.nat * b["tau"] ** 2 * T * self.n

    def lp(self, i, st, ens):
        return -self.energy(i, st, ens) / (self.n * ens["temp"])


def thermos(t):
    out = [t]
    for x in getattr(t, "tlist", []):
        out += thermos(x)
    return out


def snap(s):
    A = sg.A
    d = dict(q=A(s.beads.q), p=A(s.beads.p), h=A(s.cell.h), m=A(s.beads.m), econs=float(s.ensemble.econs), eens=float(s.ensemble.eens), dt=float(s.motion.dt))
    d["temp"], d["pext"], d["stress"] = float(s.ensemble.temp), float(s.ensemble.pext), A(s.ensemble.stressext)
    d["bw"], d["hw"] = A(s.ensemble.bweights), A(s.ensemble.hweights)
    b = s.motion.barostat
    if np.size(getattr(b, "p", [])):
        d["bp"] = A(b.p)
        if hasattr(b, "h0"):
            d["h0"] = A(b.h0.h)
    ts = thermos(s.motion.thermostat) + thermos(getattr(b, "thermostat", None) or object())
    for k, t in enumerate(ts):
        if hasattr(t, "s") and np.size(t.s):
            d["s%d" % k] = A(t.s)
    d["time"] = float(s.ensemble.time)
    return d


def ens_of(d):
    """the ensemble, undefined parts (not given in the input) left out"""
    v = [d["temp"], d["pext"]] + d["stress"].ravel().tolist() + d["bw"].tolist() + d["hw"].tolist()
    return tuple(x for x in v if x == x)


def scaled(d, other, krescale):
    """what a replica becomes when it takes the ensemble of the other"""
    r = other["temp"] / d["temp"]
    o = dict(d)
    for k in ("temp", "pext", "stress", "bw", "hw"):
        o[k] = other[k]
    if krescale:
        o["p"] = d["p"] * np.sqrt(r)
        if "bp" in d:
            o["bp"] = d["bp"] * r
    if "h0" in d:
        o["h0"] = other["h0"]
    for k in d:
        if k[0] == "s" and k[1:].isdigit():
            o[k] = d[k] * np.sqrt(r)
    return o


def same(rec, got, want, kind, msg, key, tol=1e-12, skip=("econs", "eens")):
    for k in want:
        if k in skip:
            continue
        a, b = np.asarray(got[k], float), np.asarray(want[k], float)
        if b.size and np.isnan(b).all():
            rec.check(np.isnan(a).all(), kind, msg + " %s is now defined" % k, key)
            continue
        sc = max(np.abs(b).max() if b.size else 0.0, 1e-300)
        if rec.check(a.shape == b.shape, kind, msg + " shape of %s" % k, key):
            rec.check(a.size == 0 or np.abs(a - b).max() <= tol * sc, kind, msg + " %s changed: by %.2e of %.2e" % (k, np.abs(a - b).max() if a.size else 0, sc), key)


def start(specs, rng, **kw):
    sim = sg.load(build(specs, **kw))
    for i, (s, sp) in enumerate(zip(sim.syslist, specs)):
        b = s.motion.barostat
        if np.size(getattr(b, "p", [])):
            kt = sp["temp"] * sp["nbeads"]
            if hasattr(b, "p6"):
                b.p6 = np.sqrt(kt * sg.A(b.m6)) * rng.standard_normal(6)
                b.pconstraints()
            else:
                b.p = np.sqrt(kt * sg.A(b.m)) * rng.standard_normal(1)
        for t in thermos(s.motion.thermostat) + thermos(getattr(b, "thermostat", None) or object()):
            if hasattr(t, "s") and np.size(t.s):
                t.s[:] = np.sqrt(sp["temp"]) * rng.standard_normal(np.shape(t.s))
    return sim


def k_pair(case, rec, rng):
    specs = make(rng, 2)
    s0 = specs[0]
    if rng.random() < 0.25:
        for t in specs:
            t["gseed"] = s0["gseed"]  # nearly the same configuration: probability close to one
    krescale = bool(rng.random() < 0.7)
    stride = float(rng.choice([1.0, 1.0, 1.0, 1.5]))
    sim = start(specs, rng, stride=stride, krescale=krescale)
    rem, sl = sim.smotion, sim.syslist
    mod = Model(specs)
    key = (cg.label(s0), krescale, specs[0]["temp"] != specs[1]["temp"], bool(s0.get("hweights")))
    msg = "%s krescale=%s" % (cg.label(s0), krescale)
    rec.sample(dict(case=case["name"], sig=cg.label(s0), temps=[t["temp"] for t in specs]))
    ens = [{k: t[k] for k in ENS if k in t} for t in specs]
    held = [0, 1]
    fx = Fixed(sim.prng, 0.5)
    rem.prng = fx
    for it in range(3 if case["tier"] == "quick" else 8):
        # move: the history before an exchange is part of the case
        if rng.random() < 0.7:
            for s in sl:
                s.motion.step(it)
        old = [snap(s) for s in sl]
        new = [scaled(old[i], old[1 - i], krescale) for i in range(2)]
        d = 0.0
        ref = 0.0
        for i in range(2):
            a = mod.lp(i, new[i], ens[held[1 - i]])
            b = mod.lp(i, old[i], ens[held[i]])
            d += a - b
            ref = max(ref, abs(a), abs(b))
        A = float(np.exp(min(0.0, d)))
        tol = 1e-9 * max(1.0, ref)
        if mod.opens and any(c.get("nbeads") for c in s0["comps"]):
            pass
        # no attempt
        if stride > 1:
            fx.value = 1.0 / stride + 1e-6
            rem.step(it)
            now = [snap(s) for s in sl]
            for i in range(2):
                same(rec, now[i], old[i], "rejected", msg + " replica %d after no attempt:" % i, key, tol=0, skip=())
        if A > 1e-280 and A < 1.0 / stride:
            up = A * (1 + tol) + 1e-14 * A
            if up < min(1.0, 1.0 / stride) and A < 1 - 1e-7:
                fx.value = up
                rem.step(it)
                now = [snap(s) for s in sl]
                acc = now[0]["temp"] != old[0]["temp"] or ens_of(now[0]) != ens_of(old[0])
                if ens_of(old[0]) != ens_of(old[1]):
                    rec.check(not acc, "decision", msg + " exchange accepted although u=%.12g is above the Metropolis probability %.12g" % (up, A), key)
                    if acc:
                        break
                for i in range(2):
                    same(rec, now[i], old[i], "rejected", msg + " replica %d after a rejected exchange:" % i, key, tol=1e-13, skip=("econs",))
                    rec.close(now[i]["econs"], old[i]["econs"], 1e-11, "rejected", msg + " conserved quantity after a rejected exchange", key, atol=1e-12)
                rec.check(list(rem.repindex) == held, "rejected", msg + " index %s after a rejected exchange (was %s)" % (list(rem.repindex), held), key)
                old = [snap(s) for s in sl]
                new = [scaled(old[i], old[1 - i], krescale) for i in range(2)]
        lo = min(A * (1 - tol) - 1e-14 * A, 1.0 / stride - 1e-9)
        if A <= 1e-280:
            # make the exchange possible in the next round: bring configurations together
            sl[1].beads.q = sg.A(sl[0].beads.q) + 1e-3 * rng.standard_normal(sg.A(sl[0].beads.q).shape)
            sl[1].cell.h = sg.A(sl[0].cell.h)
            continue
        fx.value = lo
        n0 = fx.count
        rem.step(it)
        rec.check(fx.count > n0, "decision", msg + " exchange without a random number", key)
        now = [snap(s) for s in sl]
        ok = [rec.check(ens_of(now[i]) == ens_of(old[1 - i]), "decision", msg + " exchange not (or not wholly) done although u=%.12g is below the Metropolis probability %.12g: %s" % (lo, A, [ens_of(x) for x in now]), key) for i in range(2)]
        if not all(ok):
            break
        held = held[::-1]
        rec.check(list(rem.repindex) == held, "accepted", msg + " index %s, replicas hold %s" % (list(rem.repindex), held), key)
        for i in range(2):
            same(rec, now[i], new[i], "accepted", msg + " replica %d after an accepted exchange:" % i, key)
            rec.close(now[i]["econs"], old[i]["econs"], 1e-11, "accepted", msg + " conserved quantity across an exchange", key, atol=1e-12)
            rec.close(float(sl[i].ensemble.lpens), mod.lp(i, now[i], ens[held[i]]) if s0["mode"] not in ("npt", "nst", "scnpt") else float(sl[i].ensemble.lpens), 1e-9, "accepted", msg + " weight in the new ensemble", key, atol=1e-9)
    # from here on each replica behaves as one built with the ensemble it holds
    own = specs
    fresh = sg.load(build([with_ensemble(own[i], specs[held[i]]) for i in range(2)], own=own, smotion=False))
    for i in range(2):
        a, b = sl[i], fresh.syslist[i]
        d = snap(a)
        b.beads.q = d["q"]
        b.beads.p = d["p"]
        b.cell.h = d["h"]
        if "h0" in d:
            b.motion.barostat.h0.h[:] = d["h0"]
        if "bp" in d:
            b.motion.barostat.p[:] = d["bp"]
        ta = thermos(a.motion.thermostat) + thermos(getattr(a.motion.barostat, "thermostat", None) or object())
        tb = thermos(b.motion.thermostat) + thermos(getattr(b.motion.barostat, "thermostat", None) or object())
        for x, y in zip(ta, tb):
            if hasattr(x, "s") and np.size(x.s):
                y.s[:] = sg.A(x.s)
    fresh.prng.state = sim.prng.state
    ks = ("pot", "kin")
    for st in range(3):
        for i in range(2):
            e0, e1 = float(sl[i].ensemble.econs), float(fresh.syslist[i].ensemble.econs)
            sl[i].motion.step(100 + st)
            fresh.syslist[i].motion.step(100 + st)
            x, y = snap(sl[i]), snap(fresh.syslist[i])
            for k in ("q", "p", "h", "bp"):
                if k in x:
                    sc = np.abs(y[k]).max() + 1e-300
                    rec.check(np.abs(x[k] - y[k]).max() <= 1e-9 * sc, "future", msg + " %s of an exchanged replica differs from one that started with its ensemble, after %d steps, by %.2e of %.2e" % (k, st + 1, np.abs(x[k] - y[k]).max(), sc), key)
            d1, d2 = x["econs"] - e0, y["econs"] - e1
            rec.check(abs(d1 - d2) <= 1e-9 * max(abs(x["econs"]), abs(y["econs"]), 1e-3), "future", msg + " change of the conserved quantity %.12e, %.12e for a new one" % (d1, d2), key)
    cg.end(fresh)
    cg.end(sim)


def replay(mod, old, ens, held, pairs, u, stride, krescale):
    cur = [dict(x) for x in old]
    held = list(held)
    n = 0
    margin = np.inf
    if 1.0 / stride < u:
        return cur, held, 0, margin
    for i, j in pairs:
        ni, nj = scaled(cur[i], cur[j], krescale), scaled(cur[j], cur[i], krescale)
        d = mod.lp(i, ni, ens[held[j]]) + mod.lp(j, nj, ens[held[i]]) - mod.lp(i, cur[i], ens[held[i]]) - mod.lp(j, cur[j], ens[held[j]])
        a = np.exp(min(d, 50.0))
        margin = min(margin, abs(a - u) / u)
        if a > u:
            cur[i], cur[j] = ni, nj
            held[i], held[j] = held[j], held[i]
            n += 1
    return cur, held, n, margin


def k_ladder(case, rec, rng):
    K = int(rng.integers(3, 5))
    specs = make(rng, K)
    s0 = specs[0]
    if rng.random() < 0.5:
        for t in specs:
            t["gseed"] = s0["gseed"]
    krescale = bool(rng.random() < 0.7)
    stride = float(rng.choice([1.0, 1.0, 1.6]))
    first = list(rng.permutation(K)) if rng.random() < 0.4 else None
    sim = start(specs, rng, stride=stride, krescale=krescale, repindex=first)
    rem, sl = sim.smotion, sim.syslist
    mod = Model(specs)
    key = ("ladder", K, s0["mode"], krescale, stride, first is not None)
    msg = "%d replicas %s krescale=%s" % (K, cg.label(s0), krescale)
    base = first or list(range(K))
    ens = [{k: t[k] for k in ENS if k in t} for t in specs]
    held = list(range(K))  # which of the initial ensembles
    fx = Fixed(sim.prng, 0.5)
    rem.prng = fx
    pairs = [(i, j) for i in range(K) for j in range(i)]
    fn = "sim.remd_idx"
    want_lines = []
    ntot = 0
    for it in range(6 if case["tier"] == "quick" else 15):
        if rng.random() < 0.6:
            for s in sl:
                s.motion.step(it)
        old = [snap(s) for s in sl]
        u = float(rng.choice([0.02, 0.3, 0.55, 0.9, 1e-6]))
        cur, h1, n, margin = replay(mod, old, ens, held, pairs, u, stride, krescale)
        if margin < 1e-7:
            continue
        fx.value = u
        rem.step(it)
        now = [snap(s) for s in sl]

        def fits(c, h):
            return all(ens_of(now[i]) == ens_of(c[i]) for i in range(K)) and list(rem.repindex) == [base[x] for x in h]

        if not fits(cur, h1):
            # the order in which pairs are tried is free
            for pr in itertools.permutations(pairs):
                c2, h2, n2, m2 = replay(mod, old, ens, held, pr, u, stride, krescale)
                if fits(c2, h2):
                    cur, h1, n = c2, h2, n2
                    break
        if not rec.check(fits(cur, h1), "replay", msg + " u=%g stride=%g: ensembles held %s index %s, Metropolis gives %s" % (u, stride, [x["temp"] for x in now], list(rem.repindex), [base[x] for x in h1]), key):
            break
        held = h1
        ntot += n
        rec.check(sorted(int(x) for x in rem.repindex) == list(range(K)), "replay", msg + " index is no permutation: %s" % list(rem.repindex), key)
        for i in range(K):
            same(rec, now[i], cur[i], "replay", msg + " replica %d:" % i, key, tol=1e-11)
            rec.close(now[i]["econs"], old[i]["econs"], 1e-11, "replay", msg + " conserved quantity across exchanges", key, atol=1e-12)
        if n:
            want_lines.append([it] + [int(base[x]) for x in held])
    got = [[int(x) for x in l.split()] for l in open(fn) if not l.startswith("#")]
    # an even number of exchanges of the same pair cannot be told apart from none
    rec.check(got == want_lines, "file", msg + " swap file %s, exchanges %s" % (got, want_lines), key)
    rec.sample(dict(case=case["name"], exchanges=ntot, lines=len(want_lines)))
    cg.end(sim)


def frames(fn):
    """Frames of a trajectory, as blocks of lines."""
    ls = open(fn).read().split("\n")
    ls = ls[:-1] if ls[-1] == "" else ls
    if fn.endswith(".pdb"):
        return [x.strip() for x in "\n".join(ls).split("END") if x.strip()]
    if fn.endswith("xyz"):
        out, i = [], 0
        while i < len(ls):
            m = int(ls[i]) + 2
            out.append("\n".join(ls[i : i + m]))
            i += m
        return out
    out = []
    for l in ls:
        if l.startswith(" #EXTRAS"):
            out.append(l)
        else:
            out[-1] += "\n" + l
    return out


def k_run(case, rec, rng):
    """Whole runs: swap file, sorted outputs, and restarts."""
    K = int(rng.integers(2, 5))
    specs = make(rng, K, modes=("nvt", "npt"))
    for t in specs:
        t["gseed"] = specs[0]["gseed"]
    for i, t in enumerate(specs):
        t["temp"] = specs[0]["temp"] * (1 + 0.05 * i)
        t["hweights"] = [1.0 + 0.01 * i] * len(t["comps"])
    key = ("run", K, specs[0]["mode"])
    msg = "run with %d replicas %s" % (K, cg.label(specs[0]))
    n, cut = 12, int(rng.choice([5, 7, 8, 9]))
    so = int(rng.choice([1, 2, 3]))
    out = sg.tag("properties", "[ step, ensemble_temperature{kelvin}, conserved, potential ]", filename="out", stride=str(so))
    out += sg.tag("trajectory", "positions", filename="pos", stride=str(so))
    st2, what2, fmt2 = int(rng.choice([1, 2, 3])), str(rng.choice(["velocities", "momenta", "forces", "forces_spring", "x_centroid", "p_centroid", "extras", "extras_component_raw(0)"])), str(rng.choice(["xyz", "pdb"]))
    if what2 != "x_centroid":
        fmt2 = "xyz"
    out += sg.tag("trajectory", what2, filename="more", stride=str(st2), format=fmt2, **({"bead": str(int(rng.choice([0, -2])))} if rng.random() < 0.3 and "centroid" not in what2 and "component" not in what2 else {}))
    sf = str(rng.choice(["remd_idx", "swaps"]))
    x = build(specs, nsteps=n, stride=float(rng.choice([1.0, 2.0])), outputs=out, swapfile=sf)
    if what2.startswith("extras"):
        x, form = x.replace("<parameters>{", "<parameters>{extras: %s, " % rng.choice(["lines", "raw"])), 1
        assert "extras: " in x
    ck = "<checkpoint filename='chk' stride='%d' overwrite='False'/>" % cut
    assert x.count("</output>") == 1
    x = x.replace("</output>", ck + "</output>")
    open("input.xml", "w").write(x)
    sim = sg.load(x)
    hist = {}
    temps = [t["temp"] for t in specs]

    def look(sim, k):
        hist[k] = (list(map(int, sim.smotion.repindex)), [float(s.ensemble.temp) for s in sim.syslist], [float(s.ensemble.econs) for s in sim.syslist])
        r, t, _ = hist[k]
        rec.check(sorted(r) == list(range(K)), "file", msg + " index %s" % r, key)
        for i in range(K):
            rec.close(t[i], temps[r[i]], 1e-12, "file", msg + " replica %d holds temperature %g, index says %d" % (i, t[i], r[i]), key)

    sim.outputs.append(cg.Probe(sim, look))
    sg.run_to_end(sim)
    cg.end(sim)
    rows = [[int(a) for a in l.split()] for l in open("sim." + sf)]
    cur = list(range(K))
    byk = {r[0] + 1: r[1:] for r in rows}
    rec.check(len(byk) == len(rows), "file", msg + " repeated lines in the swap file", key)
    for k in range(1, n + 1):
        cur = byk.get(k, cur)
        rec.check(cur == hist[k][0], "file", msg + " after step %d the swap file says %s, index %s" % (k, cur, hist[k][0]), key)
    rec.sample(dict(case=case["name"], lines=len(rows)))
    # sorted outputs
    env = dict(os.environ)
    repo = os.environ.get("VF_REPO", "/repo")
    env["PYTHONPATH"] = repo + os.pathsep + env.get("PYTHONPATH", "")
    r = subprocess.run([sys.executable, os.path.join(repo, "tools/py/remdsort.py"), "input.xml"], env=env, capture_output=True, text=True)
    if rec.check(r.returncode == 0, "sorted", msg + " remdsort failed: " + r.stderr[-300:], key):
        for i in range(K):
            _, rr = cg.read_props("SRT_r%d_sim.out" % i)
            rec.check(len(rr) == n // so + 1, "sorted", msg + " %d sorted records" % len(rr), key)
            for row in rr:
                rec.close(row[1] * 1.0, temps[i] / sg.KELVIN, 1e-6, "sorted", msg + " record of step %d sorted to ensemble %d has temperature %g" % (row[0], i, row[1]), key)
        for i in range(K):
            tr = glob.glob("SRT_r%d_sim.pos*" % i)
            rec.check(len(tr) == specs[0]["nbeads"], "sorted", msg + " sorted trajectories %s" % tr, key)
        held = {0: list(range(K))}
        held.update({k: hist[k][0] for k in range(1, n + 1)})
        files = sorted(glob.glob("r0_sim.pos*") + glob.glob("r0_sim.more*"))
        for f in files:
            st = so if ".pos" in f else st2
            raw = [frames(f.replace("r0_", "r%d_" % i, 1)) for i in range(K)]
            for i in range(K):
                got = frames("SRT_" + f.replace("r0_", "r%d_" % i, 1))
                ks = range(0, n + 1, st)
                rec.check(len(got) == len(ks), "sorted", msg + " %s (%s): %d sorted frames of ensemble %d, %d written" % (f, what2, len(got), i, len(ks)), key)
                for a, k in zip(got, ks):
                    b = raw[held[k].index(i)][k // st]
                    rec.check(a == b, "sorted", msg + " %s (%s): frame of step %d sorted to ensemble %d is not the one of the replica that held it" % (f, what2, k, i), key)
    # restart in the middle
    _, full = cg.read_props("r0_sim.out")
    fn = sorted(glob.glob("*chk*%d" % cut) + glob.glob("*chk_*"))
    fn = [f for f in fn if "#" not in f]
    if fn:
        txt = open(fn[-1]).read()
        m = re.search(r"<step[^>]*>\s*(\d+)", txt)
        st = int(m.group(1)) if m else 0
        os.makedirs("again")
        os.chdir("again")
        sim = sg.load(txt)
        h2 = {}
        sim.outputs.append(cg.Probe(sim, lambda s_, k: h2.__setitem__(k, (list(map(int, s_.smotion.repindex)), [float(z.ensemble.temp) for z in s_.syslist]))))
        sg.run_to_end(sim)
        cg.end(sim)
        for k in h2:
            if k in hist and k > st:
                rec.check(h2[k][0] == hist[k][0] and np.allclose(h2[k][1], hist[k][1], rtol=1e-12), "restart", msg + " restarted at %d: index %s at step %d, %s in the whole run" % (st, h2[k][0], k, hist[k][0]), key)
        os.chdir("..")
