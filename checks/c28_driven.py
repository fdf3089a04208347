"""C28: dynamics driven by an electric field."""
import os

import numpy as np

from checks import c20_optim as c20
from vf import confgen as cg
from vf import simgen as sg
from vf import vfpes
from vf.core import sub_seed

PROPERTY = "C28"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitoring: every step of real driven trajectories is recorded and compared with an independent propagation of the ring polymer under the requested field (for thermostatted runs the difference of two runs with the same random numbers); reported fields, dipoles, charges and field forces are recomputed from the recorded structures and times"
NOTE = "the field, the dipole and its derivatives and the propagation are evaluated outside i-PI; thermostatted runs use linear systems, for which the difference of two runs with equal random numbers has a closed form"
RULE = "quick: 150 trajectories without and 100 twin trajectories with a thermostat, 60 refusals and readings; thorough: ten times as many"
ASSUMPTIONS = ["the reference Born charges are constant for thermostatted runs"]
TIMEOUT = {"quick": 90, "thorough": 600}
REQUIRE = {"step": 300, "twin": 100, "reported": 300, "restart": 10, "refused": 5, "dipole": 40, "clock": 100}


def cases(tier, seed):
    f = 1 if tier == "quick" else 10
    out = []
    for kind, n in (("nve", 150), ("nvt", 100), ("say", 60)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c28", kind, i)) for i in range(n * f)]
    return out


def field_of(rng):
    """A random pulse; returns its XML and the function of time."""
    amp = rng.normal(0, 0.02, 3)
    if rng.random() < 0.2:
        amp[rng.integers(3)] = 0.0
    body = sg.tag("amp", sg.arr(amp))
    freq = phase = 0.0
    if rng.random() < 0.8:
        freq = float(rng.uniform(0.002, 0.05))
        body += sg.tag("freq", repr(freq))
    if rng.random() < 0.5:
        phase = float(rng.uniform(-3, 3))
        body += sg.tag("phase", repr(phase))
    env = rng.random() < 0.6
    peak, sigma = float(rng.uniform(20, 300)), float(rng.uniform(20, 150))
    if env:
        body += sg.tag("peak", repr(peak)) + sg.tag("sigma", repr(sigma))
    elif rng.random() < 0.5:  # one of the two alone is not an envelope
        body += sg.tag("peak", repr(peak)) if rng.random() < 0.5 else sg.tag("sigma", repr(sigma))
    envelope = lambda t: float(np.exp(-0.5 * ((t - peak) / sigma) ** 2)) if env else 1.0
    return sg.tag("efield", body), lambda t: amp * np.cos(freq * t + phase) * envelope(t), envelope


class Watch:
    filename = "_watch"

    def __init__(self, sim, store, look):
        self.sim, self.store, self.look = sim, store, look

    def active(self):
        return True

    def write(self):
        k = int(self.sim.step) + 1
        if not self.store or k > self.store[-1]["step"]:  # the state before the first step is written as well
            self.store.append(record(self.sim, k % self.look == 0))


def record(sim, look):
    s = sim.syslist[0]
    d = dict(step=int(sim.step) + 1, q=sg.A(s.beads.q), p=sg.A(s.beads.p), t=float(s.ensemble.time))
    if look:
        P = len(d["q"])
        g = lambda k: np.array(s.properties[k][0], float).copy()
        d["E"], d["env"] = g("Efield"), g("Eenvelope")
        d["mu"], d["inter"] = g("dipole"), g("interaction_energy")
        d["mub"] = np.array([g("dipole(%s%d)" % ("bead=" if i % 2 else "", i)) for i in range(P)])
        d["Ef"] = np.array(s.trajs["Eforces"][0]).reshape(P, -1).copy()
        d["bec"] = np.array([np.array(s.trajs["bec" + c][0]).reshape(P, -1) for c in "xyz"]).transpose(1, 2, 0).copy()
    return d


def execute(xml, store, look, stop=None):
    sim = sg.load(xml)
    sim.outputs.append(Watch(sim, store, look))
    if stop is not None:
        sim.tsteps = stop
    sim.run()
    return sim


def build(rng, kind, thermo="", linear=False):
    n = int(rng.choice([1, 2, 3])) if not linear else int(rng.choice([2, 3]))
    P = int(rng.choice([1, 1, 2, 3, 4]))
    g = sg.geometry(rng, n, P, box=60.0, p_t=300 * sg.KELVIN * P)
    p = dict(vfpes.DEFAULTS)
    p.update(kt=float(rng.choice([0.0, 0.02])), c3=float(rng.choice([0.0, 0.002])))
    if linear:
        p = dict(vfpes.DEFAULTS, k=0.0, g=0.0, kt=0.03)
    fix, com = [], False
    r = rng.random()
    if r < 0.2 and n > 1:
        fix = [int(rng.integers(n))]
        sl = slice(3 * fix[0], 3 * fix[0] + 3)
        g["q"][:, sl] = g["q"][0, sl]
        g["p"][:, sl] = 0
    elif r < 0.45 and n > 1:
        com = True
    driver = rng.random() < 0.6 and not linear
    dt = float(rng.uniform(3, 12))
    ex, field, env = field_of(rng)
    body = sg.tag("timestep", repr(dt)) + thermo + ex
    Z = None
    ext = str(rng.choice(["bec", "becx"]))
    if driver:
        body += sg.tag("bec", "", mode="driver")
    else:
        Z = rng.normal(0, 1, (P, 3 * n, 3))
        ext = str(rng.choice(["bec", "dip", "ang"]))
        if rng.random() < 0.5:
            np.savetxt("bec.txt", Z.reshape(-1, 3))
            body += sg.tag("bec", "bec.txt", mode="file", shape="(%d,3)" % (3 * n * P))
        else:
            body += sg.tag("bec", sg.arr(Z.reshape(-1, 3)), mode="manual", shape="(%d,3)" % (3 * n * P))
    nm = int(rng.choice([1, 1, 2, 3])) if kind == "nve" else 1
    if nm > 1:
        body += sg.tag("nmts", "[ %d ]" % nm)
    split = str(rng.choice(["obabo", "baoab"]))
    mot = sg.tag("driven_dynamics", body, mode="eda-" + kind, splitting=split) + sg.tag("fixcom", str(com))
    if fix:
        mot += sg.tag("fixatoms", "[ %d ]" % fix[0])
    t0 = float(rng.choice([0.0, 0.0, 57.0]))
    T = 300 * sg.KELVIN
    ens = sg.tag("temperature", repr(T)) + (sg.tag("time", repr(t0)) if t0 else "")
    s = sg.system(g, sg.tag("motion", mot, mode="driven_dynamics"), ensemble=ens)
    pr = dict(c20.pars(p))
    pr["extras"] = ext
    xml = sg.simulation(s, sg.ffdirect(pars=pr), 30).replace("<simulation", "<simulation floatformat='%24.16e'", 1)
    c = dict(g=g, p=p, n=n, P=P, fix=fix, com=com, Z=Z, dt=dt, nm=nm, split=split, field=field, env=env, T=T, ext=ext, t0=t0)
    c["key"] = "%s/%s/P%d%s%s/%s%s" % (kind, "driver" if driver else "given", min(P, 2), "/fix" if fix else "", "/com" if com else "", split, "/nmts" if nm > 1 else "")
    return c, xml


def charges(c, q):
    return c["Z"] if c["Z"] is not None else np.array([vfpes.dipole(x)[1] for x in q])


def constrain(c, p):
    p = p.copy()
    if c["com"]:
        m3 = np.repeat(c["g"]["m"], 3)
        tot = p.reshape(c["P"], -1, 3).sum((0, 1)) / c["P"]
        p -= m3 * np.tile(tot, c["n"]) / c["g"]["m"].sum()
    for i in c["fix"]:
        p[:, 3 * i : 3 * i + 3] = 0
    return p


def flow(c, t):
    """Exact propagator of the free ring polymer, (P, P) blocks for unit mass: q' = A q + B p/m, p'/m = C q + A p/m."""
    P = c["P"]
    L = 2 * np.eye(P) - np.roll(np.eye(P), 1, 0) - np.roll(np.eye(P), -1, 0)
    if P == 1:
        L = np.zeros((1, 1))
    if P == 2:
        L = np.array([[2.0, -2.0], [-2.0, 2.0]])
    w2, U = np.linalg.eigh(L)
    w = np.sqrt(np.maximum(w2, 0)) * P * c["T"]
    w[w < 1e-9 * c["T"]] = 0
    cs = np.cos(w * t)
    sn = np.where(w > 0, np.sin(w * t) / np.where(w > 0, w, 1), t)
    return (U * cs) @ U.T, (U * sn) @ U.T, -(U * (w * np.sin(w * t))) @ U.T, U, w


def drift(c, q, p, t):
    A, B, C, _, _ = flow(c, t)
    m3 = np.repeat(c["g"]["m"], 3)
    return A @ q + B @ (p / m3), m3 * (C @ q) + A @ p


def advance(c, q, p, t):
    """One step of the reference."""
    force = lambda x: c20.evaluate(c["g"], c["p"], x)[1]
    kick = lambda x, y, tt: constrain(c, y + 0.5 * c["dt"] * charges(c, x) @ c["field"](tt))
    p = kick(q, p, t)
    d = c["dt"] / c["nm"]
    for _ in range(c["nm"]):
        p = constrain(c, p + 0.5 * d * force(q))
        q, p = drift(c, q, p, d)
        p = constrain(c, p + 0.5 * d * force(q))
    return q, kick(q, p, t + c["dt"])


def reported(rec, c, d):
    """Fields, dipoles and charges shown with a state."""
    if "E" not in d:
        return
    key = c["key"]
    E = c["field"](d["t"])
    rec.close(d["E"], E, 1e-10, "reported", "step %d: the field at time %g" % (d["step"], d["t"]), key, atol=1e-14)
    rec.close(d["env"], c["env"](d["t"]), 1e-10, "reported", "step %d: the envelope at time %g" % (d["step"], d["t"]), key, atol=1e-14)
    Z = charges(c, d["q"])
    rec.close(d["bec"], Z, 1e-10, "reported", "step %d: Born charges" % d["step"], key, atol=1e-12)
    rec.close(d["Ef"], Z @ E, 1e-10, "reported", "step %d: forces of the field" % d["step"], key, atol=1e-13)
    if c["ext"] != "becx":
        mu = np.array([vfpes.dipole(x)[0] for x in d["q"]])
        tol = 1e-10 if c["ext"] == "bec" else 1e-7
        rec.close(d["mub"], mu, tol, "dipole", "step %d: dipoles of the beads" % d["step"], key, atol=tol)
        rec.close(d["mu"], mu.mean(0), tol, "dipole", "step %d: mean dipole" % d["step"], key, atol=tol)
        rec.close(d["inter"], mu.mean(0) @ E, tol, "dipole", "step %d: product of dipole and field" % d["step"], key, atol=tol)


def follow(rec, c, store):
    """Every recorded step against the reference."""
    key = c["key"]
    first = store[0]["t"]
    rec.close(first, c["t0"], 1e-12, "clock", "initial time", key, atol=1e-12)
    for a, b in zip(store[:-1], store[1:]):
        rec.close(b["t"], c["t0"] + b["step"] * c["dt"], 1e-12, "clock", "time of step %d" % b["step"], key, atol=1e-9)
        q, p = advance(c, a["q"], a["p"], a["t"])
        rec.close(b["q"], q, 1e-10, "step", "positions of step %d" % b["step"], key, atol=1e-9)
        rec.close(b["p"], p, 1e-9, "step", "momenta of step %d" % b["step"], key, atol=1e-9)
        reported(rec, c, b)


def run_nve(case, rec):
    rng = np.random.default_rng(case["cseed"])
    c, xml = build(rng, "nve")
    look = int(rng.choice([1, 1, 3, 100]))
    ns = int(rng.integers(6, 14))
    store = []
    cut = int(rng.integers(1, ns)) if rng.random() < 0.4 else None
    sim = execute(xml, store, look, cut or ns)
    if cut:
        txt = c20.restart_text(sim, 30)
        cg.end(sim)
        sim = execute(txt, store, look, ns)
        rec.check(len(store) == ns + 1, "restart", "%d steps instead of %d after a restart at %d" % (len(store) - 1, ns, cut), c["key"])
    cg.end(sim)
    follow(rec, c, store)


def run_nvt(case, rec):
    """Two runs with the same random numbers, with and without the field."""
    rng = np.random.default_rng(case["cseed"])
    tau = float(rng.uniform(50, 500))
    th = str(rng.choice(["langevin", "langevin", "pile_l", "none"]))
    lam = float(rng.uniform(0.3, 2.0))
    x = "" if th == "none" else sg.thermostat(th, tau=repr(tau), **({"pile_lambda": repr(lam)} if th == "pile_l" else {}))
    c, xml = build(rng, "nvt", x, linear=True)
    key = c["key"] + "/" + th
    a0 = xml.index("<amp")
    a1 = xml.index("</amp>")
    off = xml[:a0] + "<amp>[ 0, 0, 0 ]" + xml[a1:]
    ns = int(rng.integers(4, 9))
    on, of = [], []
    cut = int(rng.integers(1, ns)) if rng.random() < 0.3 else None
    for doc, st in ((xml, on), (off, of)):
        look = int(rng.choice([1, 3, 100])) if st is on else 100
        sim = execute(doc, st, look, cut or ns)
        if cut:
            txt = c20.restart_text(sim, 30)
            cg.end(sim)
            sim = execute(txt, st, look, ns)
            rec.check(len(st) == ns + 1, "restart", "%d steps instead of %d after a restart at %d" % (len(st) - 1, ns, cut), c["key"])
        cg.end(sim)
    m3 = np.repeat(c["g"]["m"], 3)
    tdt = c["dt"] * (0.5 if c["split"] == "obabo" else 1.0)
    _, _, _, U, w = flow(c, 0.0)
    if th == "langevin":
        D = np.eye(c["P"]) * np.exp(-tdt / tau)
    elif th == "pile_l":
        D = (U * np.exp(-tdt * np.where(w > 0, 2 * lam * w, 1 / tau))) @ U.T
    else:
        D = np.eye(c["P"])
    damp = lambda y: constrain(c, D @ y)
    d = c["dt"]
    for a, b, a1, b1 in zip(on[:-1], of[:-1], on[1:], of[1:]):
        q, p = a["q"] - b["q"], a["p"] - b["p"]
        kick = lambda y, t: constrain(c, y + 0.5 * d * c["Z"] @ c["field"](t))
        force = lambda x: -c["p"]["kt"] * x
        p = kick(p, a["t"])
        if c["split"] == "obabo":
            p = damp(p)
            p = constrain(c, p + 0.5 * d * force(q))
            q, p = drift(c, q, p, d)
            p = constrain(c, p + 0.5 * d * force(q))
            p = damp(p)
        else:
            p = constrain(c, p + 0.5 * d * force(q))
            q, p = drift(c, q, p, d / 2)
            p = damp(p)
            q, p = drift(c, q, p, d / 2)
            p = constrain(c, p + 0.5 * d * force(q))
        p = kick(p, a["t"] + d)
        rec.close(a1["q"] - b1["q"], q, 1e-8, "twin", "positions of step %d" % a1["step"], key, atol=1e-10)
        rec.close(a1["p"] - b1["p"], p, 1e-8, "twin", "momenta of step %d" % a1["step"], key, atol=1e-9)
        rec.close(a1["t"], c["t0"] + a1["step"] * d, 1e-12, "clock", "time of step %d" % a1["step"], key, atol=1e-9)
        reported(rec, c, a1)


def run_say(case, rec):
    """Charges that cannot be used are refused; units and shapes of the field."""
    rng = np.random.default_rng(case["cseed"])
    c, xml = build(rng, "nve")
    what = ["asr", "sha", "count", "missing", "units", "times"][case["i"] % 6]
    key = "say/" + what
    store = []

    def refused(doc, why):
        try:
            sim = execute(doc, store, 100, 2)
        except Exception as e:
            rec.ok("refused", key + "/" + type(e).__name__)
            return
        cg.end(sim)
        rec.fail("refused", why, {})

    if what in ("asr", "sha"):
        if c["Z"] is not None:
            return
        if what == "sha" and c["n"] == 1:
            return
        refused(xml.replace("extras: " + c["ext"], "extras: " + what), "unusable charges of the driver (%s) were accepted" % what)
    elif what == "count":
        if c["Z"] is None:
            return
        a = xml.index("<bec")
        b = xml.index("</bec>") + len("</bec>")
        Z = np.ones((3 * c["n"] * c["P"] + 3, 3))
        refused(xml[:a] + sg.tag("bec", sg.arr(Z), mode="manual", shape="(%d,3)" % len(Z)) + xml[b:], "charges of another number of atoms were accepted")
    elif what == "missing":
        if c["Z"] is not None:
            a = xml.index("<bec")
            b = xml.index("</bec>") + len("</bec>")
            refused(xml[:a] + xml[b:], "a run without charges was accepted")
            return
        refused(xml.replace("extras: " + c["ext"], "extras: uni"), "missing charges were accepted")
    elif what == "units":
        # the same pulse in other units
        from ipi.utils.units import unit_to_internal

        import re

        t = unit_to_internal("time", "femtosecond", 1.0)
        a = xml
        for k in ("peak", "sigma"):
            a = re.sub("<%s>([^<]*)</%s>" % (k, k), lambda m: "<%s units='femtosecond'>%r</%s>" % (k, float(m.group(1)) / t, k), a)
        sim = execute(a, store, 1, 3)
        cg.end(sim)
        follow(rec, c, store)
    else:
        sim = sg.load(xml)
        ts = rng.uniform(-100, 500, 7)
        e = np.array(sim.syslist[0].motion.Electric_Field.Efield(ts))
        rec.close(e, np.array([c["field"](t) for t in ts]), 1e-10, "reported", "the field at several times", key, atol=1e-14)
        cg.end(sim)


def run(case, rec):
    {"nve": run_nve, "nvt": run_nvt, "say": run_say}[case["kind"]](case, rec)
