"""C05: cached quantities are never stale."""
import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C05"
LEVEL = "exploration"
TECHNIQUE = "invariant monitor: all cached quantities of a live simulation vs a simulation built afresh from the same primary state, after random read/write histories"
NOTE = "Random histories of whole, row, slice and in-place assignments to every primary variable interleaved with partial reads and real MD steps; every derived attribute reachable from the system is compared with a freshly built simulation."
RULE = (
    "each evaluation compares one derived attribute of the live simulation with the same attribute of a simulation built "
    "afresh from the same primary variables; distinct counts (attribute, last written variable) pairs"
)
ASSUMPTIONS = ["the fresh simulation is built from the live one's own checkpoint (15 significant digits), so values are compared to 1e-8 of their scale"]
REQUIRE = {"derived": 1000, "pair": 50}
TIMEOUT = {"quick": 200, "thorough": 600}

SKIP = {
    "names", "extras", "mode", "propagator", "splitting", "transform_method", "state", "bosons", "has_bias", "exchange",
    "fspringnm", "vspring_and_fspring_bosons", "vspring_and_fspring_distinguishables", "vspring_and_fspring", "step",
    "nmts", "inmts", "nmtslevels",
}


def cases(tier, seed):
    out = []
    n = 96 if tier == "quick" else 900
    for i in range(n):
        mode = ["nve", "nvt", "nvt", "npt", "npt", "nst", "sc", "scnpt", "nvt-cc"][i % 9]
        nm = "hist_%s_%d" % (mode, i)
        out.append(dict(name=nm, mode=mode, cseed=sub_seed(seed, nm), nops=14))
    for i in range(8 if tier == "quick" else 80):
        nm = "dep_%d" % i
        out.append(dict(name=nm, mode="raw", cseed=sub_seed(seed, nm), nops=300))
    return out


def props_of(o):
    t = type(o)
    return [n for n in dir(t) if not n.startswith("_") and isinstance(getattr(t, n, None), property) and n not in SKIP]


def number(v):
    try:
        a = np.array(v, dtype=float)
    except Exception:
        return None
    return a


def objects(sim):
    sy = sim.syslist[0]
    o = {"beads": sy.beads, "nm": sy.nm, "cell": sy.cell, "ens": sy.ensemble, "forces": sy.forces, "motion": sy.motion}
    m = sy.motion
    if hasattr(m, "integrator"):
        o["integ"] = m.integrator
    for pre, t in (("thermo", getattr(m, "thermostat", None)), ("baro", getattr(m, "barostat", None))):
        if t is not None:
            o[pre] = t
            if pre == "baro" and getattr(t, "thermostat", None) is not None:
                o["barothermo"] = t.thermostat
    for i in range(sy.beads.nbeads):
        o["bead%d" % i] = sy.beads[i]
    for i, f in enumerate(getattr(sy.forces, "mforces", [])):
        o["fc%d" % i] = f
        if getattr(f, "beads", None) is not None:
            o["fc%d.beads" % i] = f.beads
    b = getattr(sy.ensemble, "bias", None)
    if b is not None:
        o["bias"] = b
    return o


def relevant(spec, key):
    o, n = key.split(".")[0], key.split(".")[-1]
    if key in ("baro.kstress", "baro.stress"):
        return False  # marked as not to be used any more; nothing reads them
    sc = spec["mode"] in ("sc", "scnpt")
    if n in ("fsc", "fsc_part_1", "fsc_part_2", "potsc", "potssc", "virsc", "virssc", "virssc_part_1", "virssc_part_2", "f_4th_order", "fvir_4th_order", "vir_4th_order", "coeffsc_part_1", "coeffsc_part_2", "stress_sc", "kstress_sc", "alpha"):
        return sc
    if n.startswith("o_") and not (spec.get("nm") or {}).get("open"):
        return False
    if n in ("vpath", "fpath"):
        return True
    return True


def read(o, n):
    return getattr(o, n)


def snapshot(sim, spec, names=None):
    out = {}
    for on, o in objects(sim).items():
        for n in props_of(o):
            k = on + "." + n
            if names is not None and k not in names:
                continue
            if not relevant(spec, k):
                continue
            try:
                v = getattr(o, n)
            except Exception:
                # declared but not available for this kind of object
                if names is None:
                    continue
                raise
            a = number(v)
            if a is not None:
                out[k] = a
    return out


def fresh(sim):
    sim.chk.store()
    return sg.load(sim.chk.status.write(name="simulation"))


def writers(sim, spec, rng):
    """(name, action) list of assignments to primary variables."""
    sy = sim.syslist[0]
    b, nm, c, e, m = sy.beads, sy.nm, sy.cell, sy.ensemble, sy.motion
    nb, n3 = b.nbeads, 3 * b.natoms
    w = []
    rs = lambda *sh: rng.standard_normal(sh)

    def setq_all():
        b.q = sg.A(b.q) + 0.05 * rs(nb, n3)

    def setq_row():
        b.q[int(rng.integers(nb))] += 0.05 * rs(n3)

    def setq_slice():
        i = int(rng.integers(nb))
        b.q[i:, 1:n3:2] += 0.03

    def setq_el():
        b.q[int(rng.integers(nb)), int(rng.integers(n3))] += 0.07

    def setq_bead():
        i = int(rng.integers(nb))
        b[i].q = sg.A(b[i].q) + 0.04 * rs(n3)

    def setq_bead_el():
        i = int(rng.integers(nb))
        b[i].q[int(rng.integers(n3))] += 0.06

    def setqnm():
        nm.qnm[int(rng.integers(nb))] += 0.05 * rs(n3)

    def setqnm_all():
        nm.qnm = sg.A(nm.qnm) + 0.02 * rs(nb, n3)

    def setp_all():
        b.p = 3 * rs(nb, n3)

    def setp_row():
        b.p[int(rng.integers(nb)), :] = 3 * rs(n3)

    def setp_bead():
        b[int(rng.integers(nb))].p += rs(n3)

    def setpnm():
        nm.pnm[int(rng.integers(nb))] *= 1.1

    def setpnm_el():
        nm.pnm[int(rng.integers(nb)), int(rng.integers(n3))] += 1.0

    def setm():
        b.m = sg.A(b.m) * (rng.uniform(0.8, 1.3) if spec.get("same_mass") else rng.uniform(0.8, 1.3, b.natoms))

    def setm_el():
        b.m[slice(None) if spec.get("same_mass") else int(rng.integers(b.natoms))] *= 1.2

    def seth():
        h = sg.A(c.h)
        h[np.diag_indices(3)] *= rng.uniform(0.95, 1.05, 3)
        h[0, 1] += rng.uniform(-0.1, 0.1)
        c.h = h

    def seth_el():
        c.h[0, 0] *= 1.02

    def seth_all_inplace():
        c.h *= 1.01

    def settemp():
        e.temp = float(e.temp) * rng.uniform(0.7, 1.4)

    def setpext():
        e.pext = float(e.pext) + 1e-6

    def setstress():
        e.stressext = sg.A(e.stressext) + 1e-6 * np.diag(rs(3))

    def setdt():
        m.dt = float(m.dt) * rng.uniform(0.6, 1.3)

    def seteens():
        e.eens = float(e.eens) + 0.01

    def settime():
        e.time = float(e.time) + 1.0

    def settau():
        t = m.thermostat
        if hasattr(t, "tau") and float(t.tau) > 0:
            t.tau = float(t.tau) * rng.uniform(0.5, 2)

    def setethermo():
        m.thermostat.ethermo = float(m.thermostat.ethermo) + 0.003

    def setbtau():
        m.barostat.tau = float(m.barostat.tau) * rng.uniform(0.7, 1.4)

    def setbp():
        if np.size(m.barostat.p) and not spec["baro"].get("hfix") and not spec["baro"].get("volc"):
            m.barostat.p = sg.A(m.barostat.p) * 1.1

    def setfreqs():
        nm.nm_freqs = sg.A(nm.nm_freqs) * rng.uniform(0.8, 1.3)

    def setfreqs_el():
        nm.nm_freqs[0] *= 1.1

    def setbw():
        e.bweights[0] *= 1.2

    def step():
        sim.step += 1
        m.step(sim.step)

    w = [setq_all, setq_row, setq_slice, setq_el, setq_bead, setq_bead_el, setqnm, setqnm_all, setp_all, setp_row, setp_bead, setpnm, setpnm_el, setm, setm_el, seth, seth_el, settemp, settemp, setdt, setdt, seteens, settime, step, step]
    if spec.get("thermo"):
        w += [settau]
        if spec["thermo"]["kind"] in ("langevin", "svr", "gle", "gle_c", "cl", "ffl"):
            w += [setethermo]  # elsewhere it is a sum over components
    if spec.get("baro"):
        w += [setbtau, setbp]
        if "pressure" in spec:
            w += [setpext, setpext]
        else:
            w += [setstress, setstress]
    if (spec.get("nm") or {}).get("style") in ("pa-cmd", "wmax-cmd", "manual"):
        w += [setfreqs, setfreqs_el]
    if spec.get("bias"):
        w += [setbw]
    return w


def run(case, rec):
    if case["mode"] == "raw":
        return run_raw(case, rec)
    rng = np.random.default_rng(case["cseed"])
    s = cg.rand_spec(rng, modes=[case["mode"]], allow=[x for x in cg.ALL if x not in ("fixcom", "fixatoms")])
    if case["mode"] == "nvt-cc":
        s.setdefault("nm", {}).pop("style", None)
    s["dt"] = 5.0
    sim = sg.load(cg.xml(s, 100).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1))
    sy = sim.syslist[0]
    allk = sorted(snapshot(sim, s))
    last = "init"
    from ipi.engine.motion.dynamics import Dynamics  # noqa

    for op in range(case["nops"]):
        ws = writers(sim, s, rng)
        burst = int(rng.integers(1, 4))
        for _ in range(burst):
            f = ws[int(rng.integers(len(ws)))]
            # fixed degrees of freedom have no momenta in a freshly built run either
            f()
            last = f.__name__
            # read only some of the derived quantities before the next write
            sub = [allk[j] for j in rng.choice(len(allk), int(rng.integers(0, len(allk))), replace=False)]
            if rng.random() < 0.7:
                snapshot(sim, s, set(sub))
        got = snapshot(sim, s, set(allk))
        ref = fresh(sim)
        want = snapshot(ref, s, set(allk))
        cg.end(ref)
        rec.check(set(got) == set(want), "sets", "attributes differ: %s" % sorted(set(got) ^ set(want))[:5])
        for k in sorted(set(got) & set(want)):
            a, b = got[k], want[k]
            if a.shape != b.shape:
                rec.fail("derived", "%s: shape %s vs %s after %s" % (k, a.shape, b.shape, last))
                continue
            if a.size == 0:
                continue
            sc = max(np.max(np.abs(a)), np.max(np.abs(b)))
            d = np.max(np.abs(a - b))
            at = atol(k, s)
            ok = (np.isnan(a) == np.isnan(b)).all() and (not d > 1e-8 * sc + at)
            rec.check(ok, "derived", "%s is stale after %s (burst %d, op %d): differs by %.3e of %.3e [%s]" % (k, last, burst, op, d, sc, cg.label(s)), key=(k.split(".")[-1], last))
            if not ok and len(rec.violations) > 5:
                return
        # synchronised pairs
        q, Q = sg.A(sy.beads.q), sg.A(sy.nm.qnm)
        rec.close(np.sum(q * q), np.sum(Q * Q), 1e-10, "pair", "bead and normal-mode positions disagree after %s" % last)
        rec.close(np.mean(q, axis=0), Q[0] / np.sqrt(len(q)), 1e-10, "pair", "centroid disagrees after %s" % last)
        rec.close(sg.A(sy.beads.qc), np.mean(q, axis=0), 1e-10, "pair", "qc after %s" % last)
        for i in range(len(q)):
            rec.close(sg.A(sy.beads[i].q), q[i], 0, "pair", "bead %d positions after %s" % (i, last))
            rec.close(sg.A(sy.beads[i].p), sg.A(sy.beads.p)[i], 0, "pair", "bead %d momenta after %s" % (i, last))
    rec.sample(dict(config=cg.label(s), attributes=len(allk), last=last))
    cg.end(sim)


def atol(k, s):
    n = k.split(".")[-1]
    if n in ("fnm", "f", "vir", "virs", "fspring"):
        return 1e-12
    if n in ("econs", "lpens", "pot", "vspring"):
        return 1e-9
    return 1e-12


# ------------------------------------------------------------------ the depend classes themselves
def run_raw(case, rec):
    """Random graphs of depend objects against a plain recomputation."""
    from ipi.utils.depend import depend_array, depend_value, dpipe, dproperties, dstrip, synchronizer

    rng = np.random.default_rng(case["cseed"])
    nprim, nder, d = int(rng.integers(2, 5)), int(rng.integers(3, 12)), 4

    class Box:
        pass

    box = Box()
    model = {}  # name -> callable giving the true value
    prim = {}
    names = []
    for i in range(nprim):
        n = "a%d" % i
        prim[n] = rng.standard_normal(d)
        setattr(box, "_" + n, depend_array(name=n, value=prim[n].copy()))
        model[n] = lambda n=n: prim[n]
        names.append(n)
    # a synchronised pair: u = 2 v
    sync = synchronizer()
    pair = {"v": rng.standard_normal(d)}
    box._u = depend_array(name="u", value=np.zeros(d), func={"v": lambda: 2.0 * np.asarray(box.v)}, synchro=sync)
    box._v = depend_array(name="v", value=pair["v"].copy(), func={"u": lambda: 0.5 * np.asarray(box.u)}, synchro=sync)
    box._v.update_man()
    model["u"] = lambda: 2 * pair["v"]
    model["v"] = lambda: pair["v"]
    scal = {"x": 1.5}
    box._x = depend_value(name="x", value=1.5)
    box._y = depend_value(name="y", value=0.0)
    dpipe(box._x, box._y)
    names += ["u", "v", "x", "y"]
    model["x"] = model["y"] = lambda: scal["x"]
    for i in range(2):  # a value that follows one item of an array
        it = 0 if i == 0 else int(rng.integers(d))
        setattr(box, "_z%d" % i, depend_value(name="z%d" % i, value=0.0))
        dpipe(box._a0, getattr(box, "_z%d" % i), item=it)
        model["z%d" % i] = lambda it=it: float(prim["a0"][it])
        names.append("z%d" % i)
    for i in range(nder):
        n = "d%d" % i
        src = [str(z) for z in rng.choice(names, int(rng.integers(1, min(4, len(names)) + 1)), replace=False)]
        co = rng.standard_normal(len(src))

        def f(src=src, co=co):
            return sum(c * np.sin(np.asarray(getattr(box, k), float)) for c, k in zip(co, src)) + np.zeros(d)

        def g(src=src, co=co):
            return sum(c * np.sin(model[k]()) for c, k in zip(co, src)) + np.zeros(d)

        deps = [getattr(box, "_" + k) for k in src]
        if rng.random() < 0.7:
            setattr(box, "_" + n, depend_array(name=n, value=np.zeros(d), func=f, dependencies=deps))
            model[n] = g
        else:
            setattr(box, "_" + n, depend_value(name=n, value=0.0, func=lambda f=f: float(np.sum(f())), dependencies=deps))
            model[n] = lambda g=g: float(np.sum(g()))
        names.append(n)
    dproperties(Box, names)
    for op in range(case["nops"]):
        r = int(rng.integers(11))
        w = ""
        if r == 0:
            n = "a%d" % rng.integers(nprim)
            prim[n] = rng.standard_normal(d)
            setattr(box, n, prim[n])
            w = "array"
        elif r == 1:
            n = "a%d" % rng.integers(nprim)
            j = int(rng.integers(d))
            prim[n] = prim[n].copy()
            prim[n][j] += 1
            getattr(box, n)[j] += 1
            w = "element"
        elif r == 2:
            n = "a%d" % rng.integers(nprim)
            prim[n] = prim[n].copy()
            prim[n][1:3] *= 0.5
            getattr(box, n)[1:3] *= 0.5
            w = "slice in place"
        elif r == 3:
            n = "a%d" % rng.integers(nprim)
            prim[n] = prim[n].copy()
            prim[n].reshape(2, 2)[0, 1] = 0.3
            getattr(box, n).reshape((2, 2))[0, 1] = 0.3
            w = "through a view"
        elif r == 4:
            pair["v"] = rng.standard_normal(d)
            box.v = pair["v"]
            w = "v"
        elif r == 5:
            u = rng.standard_normal(d)
            pair["v"] = 0.5 * u
            box.u = u
            w = "u"
        elif r == 6:
            j = int(rng.integers(d))
            pair["v"] = pair["v"].copy()
            pair["v"][j] = 0.5 * 0.7
            box.u[j] = 0.7
            w = "u element"
        elif r == 7:
            j = int(rng.integers(d))
            pair["v"] = pair["v"].copy()
            pair["v"][j:] += 0.2
            box.v[j:] += 0.2
            w = "v slice"
        elif r == 8:
            scal["x"] = float(rng.standard_normal())
            box.x = scal["x"]
            w = "x"
        elif r == 9:
            scal["x"] += 0.25
            box.x += 0.25
            w = "x in place"
        for n in rng.choice(names, int(rng.integers(0, 4)), replace=False):
            n = str(n)
            v = getattr(box, n)
            how = int(rng.integers(4))
            got = np.array(dstrip(v) if how == 0 else v, float) if how < 2 else (np.asarray(v) + 0.0 if how == 2 else np.asarray(1.0 * v))
            rec.close(got, np.asarray(model[n](), float), 1e-12, "graph", "node %s after writing %s (op %d)" % (n, w, op), key=("graph", w, n[0]), atol=1e-13)
    # a slice taken earlier sees later changes and can be written through
    for n in ("a0", "v"):
        row = getattr(box, n)[1:3]
        getattr(box, n)[:] = np.arange(4.0)
        rec.close(np.array(row), [1.0, 2.0], 0, "graph", "held slice of " + n)
    rec.sample(dict(nodes=len(names), ops=case["nops"]))
