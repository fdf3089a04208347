"""C31: biases through PLUMED and metadynamics (with a stand-in for the library)."""
import json
import os
import re

import numpy as np

from vf import confgen as cg
from vf import fakeplumed as fp
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C31"
LEVEL = "monitored_stress"
TECHNIQUE = "runtime monitoring: real runs with metadynamics on a stand-in for the PLUMED library that keeps arrays by reference as the library does; around every update of the bias the conserved quantity, the cached bias energy, forces and virial, and the hills deposited are compared with our own evaluation from the recorded centroid; runs are continued from checkpoints"
NOTE = "the library itself is not installed here; the stand-in implements the calls i-PI makes, with its sign and unit conventions"
RULE = "quick: 60 runs, 16 continued runs, 16 runs of several systems, 12 wrong inputs; thorough: ten times as many"
ASSUMPTIONS = ["the stand-in follows the conventions of PLUMED for units, virial, references and the energy variable"]
TIMEOUT = {"quick": 120, "thorough": 600}
REQUIRE = {"units": 20, "bias": 100, "forces": 100, "virial": 100, "conserved": 100, "hill": 60, "continued": 8, "extras": 20, "refused": 6}

EU, LU = 2625.4996394799, 0.0529177210903
TOL = 3e-7  # the constants given to the library have eight digits


def cases(tier, seed):
    f = 1 if tier == "quick" else 10
    out = []
    for kind, n in (("run", 60), ("chk", 16), ("multi", 16), ("bad", 12)):
        out += [dict(name="%s_%d" % (kind, i), kind=kind, i=i, cseed=sub_seed(seed, "c31", kind, i)) for i in range(n * f)]
    return out


def run(case, rec):
    fp.install()
    globals()["k_" + case["kind"]](case, rec, np.random.default_rng(case["cseed"]))


def spec(rng, energy=False, modes=("nve", "nvt", "nvt", "npt", "nst")):
    s = cg.rand_spec(rng, modes=modes, allow=("mts", "contraction", "fixcom", "baoab"), natoms=int(rng.integers(2, 5)), **(dict(nbeads=1) if energy else {}))
    s.pop("bias", None)
    s.pop("bweights", None)
    return s


def dat(rng, s, name, cv=None):
    nat = len(cg.geom(s)["names"])
    if cv == "energy":
        c = dict(kind="energy")
        d = dict(cv=c, restraint=[float(rng.uniform(1e-4, 1e-3)), float(rng.uniform(-50, 50))], hills=dict(pace=int(rng.choice([1, 2, 3])), height=float(rng.uniform(0.5, 5)), sigma=float(rng.uniform(5, 50))))
    else:
        i, j = (int(x) for x in rng.permutation(nat)[:2])
        c = dict(kind="dist", i=i, j=j)
        if rng.random() < 0.5:  # distance to another image of the atom: the box enters
            c["image"] = [int(x) for x in rng.permutation([1, 0, int(rng.integers(-1, 2))])]
        d = dict(cv=c, restraint=[float(rng.uniform(50, 500)) if rng.random() < 0.7 else 0.0, float(rng.uniform(0.05, 0.3))], hills=dict(pace=int(rng.choice([1, 2, 3])), height=float(rng.uniform(0.5, 5)), sigma=float(rng.uniform(0.005, 0.05))))
    if c.get("image"):
        d["restraint"] = [d["restraint"][0] / 20, float(rng.uniform(0.4, 1.0))]
    d["hillsfile"] = "HILLS_" + name
    json.dump(d, open(name + ".dat", "w"))
    return d


def ffxml(s, name, extras=False, fn="ref.xyz", step=None):
    g = cg.geom(s)
    with open(fn, "w") as f:
        f.write("%d\n# CELL(abcABC): 10 10 10 90 90 90 positions{angstrom} cell{angstrom}\n" % len(g["names"]))
        for n, x in zip(g["names"], g["q"][0].reshape(-1, 3)):
            f.write("%s %.6f %.6f %.6f\n" % ((n,) + tuple(x * 0.529)))
    b = sg.tag("file", fn, mode="xyz") + sg.tag("plumed_dat", name + ".dat")
    if extras:
        b += sg.tag("plumed_extras", "[ cv, v ]")
    return sg.tag("ffplumed", b, name=name)


def bias_xml(names, weights, extras=False):
    one = lambda n: sg.tag("force", sg.tag("interpolate_extras", "[ cv, v ]") if extras else "", forcefield=n, nbeads="1")
    return sg.tag("bias", "".join(one(n) for n in names)) + sg.tag("bias_weights", "[ " + ", ".join(map(repr, weights)) + " ]")


def smotion(names, energy=False):
    return sg.tag("smotion", sg.tag("metad", sg.tag("metaff", "[ " + ", ".join(names) + " ]") + sg.tag("use_energy", str(energy))), mode="metad")


def inject(xml, ff, bias, sm):
    assert xml.count("</ensemble>") == 1 and xml.count("</simulation>") == 1
    xml = xml.replace("</ensemble>", bias + "</ensemble>").replace("</simulation>", ff + sm + "</simulation>")
    return xml.replace("<simulation", "<simulation floatformat='%24.16e'", 1)


def dist(d, q, h):
    """Distance, unit vector and displacement with periodic images."""
    q = q.reshape(-1, 3)
    x = q[d["cv"]["j"]] - q[d["cv"]["i"]]
    s = np.linalg.solve(h, x)
    x = h @ (s - np.round(s) + d["cv"].get("image", [0, 0, 0]))
    r = np.linalg.norm(x)
    return r, x / r, x


def oracle(d, hills, s):
    """Bias energy, forces and virial of one evaluation, in atomic units, from the state of a system."""
    EU, LU = fp.ALL[-1].EU, fp.ALL[-1].LU  # what the library was told; checked in units()
    q, h = sg.A(s.beads.q).mean(axis=0), sg.A(s.cell.h)
    en = d["cv"]["kind"] == "energy"
    if en:
        x = float(sg.A(s.forces.pots).sum()) * EU
    else:
        r, u, dx = dist(d, q, h)
        x = r * LU
    k, s0 = d["restraint"]
    v, dv = 0.5 * k * (x - s0) ** 2, k * (x - s0)
    for c, sig, ht in hills:
        g = ht * np.exp(-0.5 * ((x - c) / sig) ** 2)
        v += g
        dv -= g * (x - c) / sig**2
    if en:
        return x, v / EU, dv * sg.A(s.forces.f)[0], dv * sg.A(s.forces.vir)
    f = np.zeros((len(q) // 3, 3))
    g = dv / EU * LU * u
    f[d["cv"]["j"]] -= g
    f[d["cv"]["i"]] += g
    return x, v / EU, f.ravel(), -np.outer(dx, g)


def units(rec):
    for p in fp.ALL:
        rec.close([p.EU, p.LU], [EU, LU], TOL, "units", "units of energy and length given to the library", ("units",))


def watch(rec, sim, dats, weights, key, msg, hist):
    """Looks at the state around every update of the bias.  dats[k]: input of the k-th library."""
    units(rec)
    step = sim.smotion.step
    lib = {f.name: f.plumed for f in sim.fflist.values() if hasattr(f, "plumed")} if isinstance(sim.fflist, dict) else {f.name: f.plumed for f in sim.fflist if hasattr(f, "plumed")}

    def states():
        out = []
        for i, s in enumerate(sim.syslist):
            P = s.beads.nbeads
            v, f, w = 0.0, 0.0, 0.0
            for (n, d), wt in zip(dats.items(), weights[i]):
                if wt == 0:
                    continue
                x, a, b, c = oracle(d, lib[n].hills, s)
                v, f, w = v + wt * a, f + wt * b, w + wt * c
            out.append((P * v, np.tile(f, (P, 1)), P * w))
        return out

    def look(when):
        sc = max(abs(d["hills"]["height"]) for d in dats.values()) / EU
        for i, (s, (v, f, w)) in enumerate(zip(sim.syslist, states())):
            P = s.beads.nbeads
            rec.close(float(s.ensemble.bias.pot), v, TOL, "bias", "%s: %s, energy of the bias of system %d" % (msg, when, i), key, atol=1e-6 * sc * P)
            fs = max(np.abs(f).max(), 1e-6)
            rec.close(sg.A(s.ensemble.bias.f), np.broadcast_to(f, (P, 3 * s.beads.natoms)), 0, "forces", "%s: %s, forces of the bias of system %d" % (msg, when, i), key, atol=3e-6 * fs + 1e-9)
            rec.close(sg.A(s.ensemble.bias.vir), np.triu(w), 0, "virial", "%s: %s, virial of the bias of system %d" % (msg, when, i), key, atol=3e-6 * max(np.abs(w).max(), fs) + 1e-9)

    def monitored(k=None, **kw):
        look("before update %s" % k)
        e0 = [float(s.ensemble.econs) for s in sim.syslist]
        n0 = {n: len(lib[n].hills) for n in dats}
        u0 = {n: len(lib[n].updates) for n in dats}
        step(k, **kw)
        e1 = [float(s.ensemble.econs) for s in sim.syslist]
        for i, s in enumerate(sim.syslist):
            sc = max(abs(float(s.ensemble.bias.pot)), abs(e0[i]), 1e-2)
            rec.close(e1[i], e0[i], 0, "conserved", "%s: conserved quantity of system %d around update %s" % (msg, i, k), key, atol=1e-11 * sc + 1e-12)
        for n, d in dats.items():
            users = [s for s, w in zip(sim.syslist, weights) if w[list(dats).index(n)] != 0]
            rec.check(len(lib[n].updates) - u0[n] == len(users), "hill", "%s: %d updates of %s for %d systems" % (msg, len(lib[n].updates) - u0[n], n, len(users)), key)
            new = lib[n].hills[n0[n] :]
            due = [st for st in lib[n].updates[u0[n] :] if st % d["hills"]["pace"] == 0]
            rec.check(len(new) == len(due), "hill", "%s: hills %s" % (msg, new), key)
            if len(new) == len(users):
                for s, hl in zip(users, new):
                    x = oracle(d, [], s)[0]
                    rec.close(hl[0], x, TOL, "hill", "%s: hill of update %s is not at the current centroid" % (msg, k), key, atol=1e-9)
            hist.setdefault(n, []).extend(lib[n].updates[u0[n] :])
        if len(sim.syslist) == 1:
            # the cached energy is the one of the new bias; forces of a new hill vanish at its centre
            look("after update %s" % k)

    sim.smotion.step = monitored
    return lib


def make(rng, n, outs="", energy=None):
    energy = bool(rng.random() < 0.25) if energy is None else energy
    s = spec(rng, energy, modes=("nve", "nvt", "npt", "nst") if not energy else ("nve", "nvt", "npt"))
    if energy:
        s.pop("nmts", None)
        for c in s["comps"]:
            c.pop("mts", None)
    d = dat(rng, s, "pl", "energy" if energy else None)
    w = float(rng.choice([1.0, 1.0, 0.5, 1.7]))
    ex = bool(rng.random() < 0.5)
    xml = inject(cg.xml(s, n, outs), ffxml(s, "pl", ex), bias_xml(["pl"], [w], ex), smotion(["pl"], energy))
    return s, d, w, ex, xml, energy


def k_run(case, rec, rng):
    n = int(rng.integers(4, 9))
    s, d, w, ex, xml, energy = make(rng, n)
    key = ("run", s["mode"], d["cv"]["kind"], w, d["hills"]["pace"], ex)
    msg = "%s %s weight %g" % (cg.label(s), d["cv"]["kind"], w)
    sim = sg.load(xml)
    hist = {}
    lib = watch(rec, sim, {"pl": d}, [[w]], key, msg, hist)
    if ex:
        old = sim.smotion.step

        def both(k=None, **kw):
            b = sim.syslist[0].ensemble.bias
            x, v, _, _ = oracle(d, lib["pl"].hills, sim.syslist[0])
            e = b.mforces[0].extras
            rec.close(np.mean(np.asarray(e["cv"], float)), x, TOL, "extras", "%s: variable handed over" % msg, key)
            rec.close(np.mean(np.asarray(e["v"], float)), v * EU, 3e-6, "extras", "%s: bias handed over" % msg, key, atol=1e-6)
            old(k, **kw)

        sim.smotion.step = both
    sim.run()
    rec.check(hist["pl"] == list(range(1, n + 1)), "hill", "%s: steps of the updates %s" % (msg, hist["pl"]), key)
    cg.end(sim)


def k_chk(case, rec, rng):
    """A run continued from a checkpoint adds to the same bias."""
    n = int(rng.integers(6, 10))
    K = int(rng.integers(2, n - 2))
    outs = sg.tag("checkpoint", filename="chk", stride=K, overwrite="False")
    s, d, w, ex, xml, energy = make(rng, n, outs)
    key = ("chk", s["mode"], d["cv"]["kind"], w)
    msg = "%s %s weight %g continued at %d of %d" % (cg.label(s), d["cv"]["kind"], w, K, n)
    sim = sg.load(xml)
    sim.run()
    sim.step += 1
    ref = cg.state(sim)
    cg.end(sim)
    hl = list(fp.ALL[-1].hills)
    steps = list(fp.ALL[-1].steps)
    # the files the library had written when the checkpoint was written
    x = open("sim.chk_1" if os.path.exists("sim.chk_1") else "chk_1").read()
    st = int(re.search(r"<step>\s*(\d+)", x).group(1))
    rows = [l for l in open(d["hillsfile"]) if int(l.split()[0]) <= st]
    open(d["hillsfile"], "w").write("".join(rows))
    fp.install()
    sim = sg.load(x)
    rec.check(fp.ALL[-1].v.get("setRestart") == 1, "continued", msg + ": the library is not told to continue", key)
    hist = {}
    watch(rec, sim, {"pl": d}, [[w]], key, msg, hist)
    sim.run()
    sim.step += 1
    got = cg.state(sim)
    cg.end(sim)
    rec.check(fp.ALL[-1].steps == steps, "continued", "%s: hills at steps %s, in one go %s" % (msg, fp.ALL[-1].steps, steps), key)
    rec.close(np.array(fp.ALL[-1].hills), np.array(hl), 1e-7, "continued", msg + ": hills", key)
    diff = cg.diff_states(ref, got, tol=1e-7)
    rec.check(not diff, "continued", "%s: %s" % (msg, str(diff)[:300]), key)


def k_multi(case, rec, rng):
    """Several systems: each with a bias of its own, or the same one."""
    n = int(rng.integers(3, 7))
    shared = bool(rng.random() < 0.4)
    s = [spec(rng, modes=("nve", "nvt"))]
    t = dict(s[0])
    t["gseed"] = s[0]["gseed"] + 31
    s.append(t)
    names = ["p0"] if shared else ["p0", "p1"]
    dats = {m: dat(rng, s[0], m) for m in names}
    W = [[1.0], [float(rng.choice([1.0, 0.6]))]] if shared else [[1.0, 0.0], [0.0, 1.0]]
    ffs, syss = [], []
    for i, a in enumerate(s):
        ffs += cg.ff_xml(a, pref="f%d_" % i)
        x = cg.system_xml(a, pref="f%d_" % i, prefix="s%d" % i)
        assert x.count("</ensemble>") == 1
        syss.append(x.replace("</ensemble>", bias_xml(names, W[i]) + "</ensemble>"))
    ffs += [ffxml(s[0], m, fn="ref_%s.xyz" % m) for m in names]
    xml = sg.simulation(syss, ffs, n, seed=int(rng.integers(1, 10**6)), smotion=smotion(names))
    key = ("multi", shared, W[1][-1])
    msg = "two systems, %s" % ("one bias" if shared else "two biases")
    sim = sg.load(xml)
    hist = {}
    if shared:
        # the library follows the last system; only hills and conserved quantities are decided
        step = sim.smotion.step
        lib = fp.ALL[-1]

        def monitored(k=None, **kw):
            e0 = [float(a.ensemble.econs) for a in sim.syslist]
            n0 = len(lib.hills)
            step(k, **kw)
            for i, a in enumerate(sim.syslist):
                rec.close(float(a.ensemble.econs), e0[i], 0, "conserved", "%s: conserved quantity of system %d around update %s" % (msg, i, k), key, atol=1e-11 * max(abs(e0[i]), 1) + 1e-12)
            steps = lib.steps[n0:]
            new = lib.hills[n0:]
            xs = [oracle(dats["p0"], [], a)[0] for a in sim.syslist]
            for hl in new:
                rec.check(min(abs(hl[0] - x) for x in xs) < TOL * max(xs), "hill", "%s: hill at %g, systems are at %s" % (msg, hl[0], xs), key)
            if len(new) == 2:
                rec.close(sorted(h[0] for h in new), sorted(xs), TOL, "hill", msg + ": one hill for each system", key)

        sim.smotion.step = monitored
    else:
        watch(rec, sim, dats, W, key, msg, hist)
    sim.run()
    if not shared:
        for m in names:
            rec.check(hist[m] == list(range(1, n + 1)), "hill", "%s: updates of %s at %s" % (msg, m, hist[m]), key)
    cg.end(sim)


def k_bad(case, rec, rng):
    """Requests that make no sense are refused."""
    what = ["interface", "beads", "natoms", "format"][case["i"] % 4]
    s = spec(rng, modes=("nvt",))
    if what == "beads":
        while len(cg.geom(s)["q"]) < 2:
            s = spec(rng, modes=("nvt",))
    d = dat(rng, s, "pl", "energy" if what == "beads" else None)
    xml = inject(cg.xml(s, 3), ffxml(s, "pl"), bias_xml(["pl"], [1.0]), smotion(["pl"], what == "beads"))
    if what == "interface":
        xml = re.sub(r"<ffplumed.*?</ffplumed>", sg.ffdirect("pl", pes="dummy"), xml, flags=re.S)
    if what == "natoms":
        g = open("ref.xyz").read().splitlines()
        g[0] = str(int(g[0]) + 1)
        open("ref.xyz", "w").write("\n".join(g + [g[-1]]) + "\n")
    if what == "format":
        xml = xml.replace("mode='xyz'>ref.xyz", "mode='json'>ref.xyz").replace('mode="xyz">ref.xyz', 'mode="json">ref.xyz')
    ok, sim = True, None
    try:
        sim = sg.load(xml)
        sim.run()
    except (ValueError, TypeError, RuntimeError, SystemExit, KeyError, OSError):
        ok = False
    rec.check(not ok, "refused", "a bias with a wrong %s is accepted" % what, ("bad", what))
    if sim is not None:
        cg.end(sim)
