"""Random simulation configurations, shared by the dynamics checks.

A *spec* is a JSON-able dict; ``xml(spec, ...)`` turns it into an i-PI input.
"""
import numpy as np

from vf.simgen import *  # noqa
from vf import simgen

THERMOS = ["langevin", "svr", "pile_l", "pile_g", "gle", "gle_c", "nm_gle", "nm_gle_g", "cl", "ffl", "multi"]


def gle_matrices(rng, n, ns, kt, with_c, tau=400.0):
    """Valid drift (and covariance) matrices: A C + C A^T is positive definite."""
    out_a, out_c = [], []
    for _ in range(n):
        b = rng.standard_normal((ns + 1, ns + 1))
        s = np.dot(b, b.T) / (ns + 1) + 0.2 * np.eye(ns + 1)
        w = rng.standard_normal((ns + 1, ns + 1))
        w = 0.5 * (w - w.T)
        if with_c:
            c = rng.standard_normal((ns + 1, ns + 1))
            c = np.dot(c, c.T) / (ns + 1) + 0.5 * np.eye(ns + 1)
            a = np.dot(0.5 * s + w, np.linalg.inv(c))
            out_c.append(kt * c)
        else:
            a = 0.5 * s + w
        out_a.append(a / tau)
    return np.array(out_a), (np.array(out_c) if with_c else None)


def thermo_xml(spec, th):
    kind = th["kind"]
    rng = np.random.default_rng(th.get("mseed", 0))
    nb = spec["nbeads"]
    kt = spec["temp"]
    kw = {}
    if kind in ("langevin", "svr", "ffl"):
        kw["tau"] = th["tau"]
        if kind == "ffl":
            kw["flip"] = th.get("flip", "rescale")
        return thermostat(kind, **kw)
    if kind in ("pile_l", "pile_g"):
        kw["tau"] = th["tau"]
        kw["pile_lambda"] = th.get("lam", 0.5)
        if th.get("ct"):
            kw["pile_centroid_t"] = repr(float(th["ct"]))
        return thermostat(kind, **kw)
    if kind in ("gle", "gle_c"):
        a, c = gle_matrices(rng, 1, th.get("ns", 2), kt, kind == "gle_c")
        kw["A"] = a[0]
        if c is not None:
            kw["C"] = c[0]
        return thermostat("gle", **kw)
    if kind in ("nm_gle", "nm_gle_g"):
        a, c = gle_matrices(rng, nb, th.get("ns", 2), kt, bool(th.get("with_c")))
        kw["A"] = a
        if c is not None:
            kw["C"] = c
        if kind == "nm_gle_g":
            kw["tau"] = th["tau"]
        return thermostat(kind, **kw)
    if kind == "cl":
        return thermostat("cl", tau=th["tau"], intau=th.get("intau", 0.0), idtau=th.get("idtau", 0.0), apat=th.get("apat", 0.0))
    if kind == "multi":
        return tag("thermostat", "".join(thermo_xml(spec, t) for t in th["list"]), mode="multi")
    raise ValueError(kind)


def rand_thermo(rng, spec, kinds=None, sub=False):
    kind = str(rng.choice(kinds or THERMOS))
    th = dict(kind=kind, mseed=int(rng.integers(1 << 30)), tau=float(rng.choice([50.0, 200.0, 1000.0])))
    if kind in ("pile_l", "pile_g"):
        th["lam"] = float(rng.choice([0.2, 0.5, 1.0]))
        if rng.random() < 0.2:
            th["ct"] = float(spec["temp"] * 1.3)
    if kind == "ffl":
        th["flip"] = str(rng.choice(["soft", "hard", "rescale", "none"]))
    if kind.startswith(("gle", "nm_gle")):
        th["ns"] = int(rng.integers(1, 5))
        th["with_c"] = bool(rng.random() < 0.5)
    if kind == "cl":
        if rng.random() < 0.5:
            th["intau"] = float(rng.choice([500.0, 3000.0]))
        else:
            th["idtau"] = float(rng.choice([500.0, 3000.0]))
        if rng.random() < 0.4:
            th["apat"] = 2000.0
    if kind == "multi":
        th["list"] = [
            rand_thermo(rng, spec, [k for k in (kinds or THERMOS) if k != "multi"] or ["langevin"], True)
            for _ in range(int(rng.integers(1, 4)))
        ]
    return th


HFIX = [[], [], ["xy"], ["xz", "yz"], ["offdiagonal"], ["zz"], ["xx", "xy"], ["zz", "xz"]]


def baro_xml(spec, b):
    body = tag("tau", b["tau"])
    if b.get("thermo"):
        body = thermo_xml(spec, b["thermo"]) + body
    if b["mode"] == "anisotropic":
        h0 = np.asarray(b["h0"])
        body += tag("h0", arr(h0), shape="(3, 3)")
    if b.get("hfix"):
        body += tag("hfix", sarr(b["hfix"]))
    if b.get("volc"):
        body += tag("vol_constraint", "true")
    return tag("barostat", body, mode=b["mode"])


def rand_spec(rng, modes=("nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"), thermos=None, allow=(), nbeads=None, natoms=None, cellthermo=True):
    """allow: subset of open, bosons, fixcom, fixatoms, mts, contraction, bias,
    hweights, nmmodes, prop, baoab."""
    s = {}
    mode = str(rng.choice(list(modes)))
    s["mode"] = mode
    s["natoms"] = int(natoms or rng.integers(2, 6))
    nb = nbeads if nbeads is not None else int(rng.choice([1, 1, 2, 3, 4, 5, 6, 8]))
    if mode in ("sc", "scnpt"):
        nb = 2 * max(1, nb // 2)
        nb = max(nb, 4)
    if mode == "nvt-cc":
        nb = max(2, nb)
    s["nbeads"] = nb
    s["temp"] = float(rng.choice([150.0, 300.0, 600.0])) * KELVIN
    if mode in ("sc", "scnpt"):
        s["temp"] = 600.0 * KELVIN
    s["gseed"] = int(rng.integers(1 << 30))
    s["seed"] = int(rng.integers(1, 1 << 30))
    s["dt"] = float(rng.choice([5.0, 10.0, 20.0]))
    s["splitting"] = str(rng.choice(["obabo", "baoab"])) if "baoab" in allow else "obabo"
    s["triclinic"] = bool(rng.random() < 0.4)
    s["fixcom"] = bool("fixcom" in allow and rng.random() < 0.4)
    s["comps"] = [dict(pars=dict(k=0.06, r0=2.6, g=0.02), weight=1.0, nbeads=0)]
    slow = dict(k=0.0, g=0.0, kt=0.008, k4=1e-5, c3=1e-4, per=0.002)
    if mode in ("npt", "nst", "scnpt"):
        slow.update(kv=2e-4, v0=1100.0, ks=5e-7)
    if not ("multi" in allow and rng.random() < 0.7):
        s["comps"][0]["pars"].update({k: v for k, v in slow.items() if k not in ("k", "g")})
    else:
        s["comps"].append(dict(pars=slow, weight=float(rng.choice([1.0, 0.7, 1.4])), nbeads=0))
        if "contraction" in allow and nb > 1 and rng.random() < 0.6 and mode not in ("sc", "scnpt"):
            s["comps"][1]["nbeads"] = int(rng.integers(1, nb + 1))
        if "mts" in allow and rng.random() < 0.7:
            nl = int(rng.integers(1, 4))
            s["nmts"] = [int(rng.choice([1, 1, 2]))] + [int(rng.integers(1, 4)) for _ in range(nl - 1)]
            for ic, c in enumerate(s["comps"]):
                w = np.zeros(nl)
                if rng.random() < 0.3 and nl > 1:
                    w[:] = rng.dirichlet(np.ones(nl))
                else:
                    w[0 if ic == 1 else nl - 1] = 1.0
                c["mts"] = [float(x) for x in w]
    if "bias" in allow and rng.random() < 0.3:
        s["bias"] = [dict(pars=dict(k=0.0, g=0.0, kt=0.004, c3=5e-5), nbeads=int(rng.choice([0, 1])) if nb > 1 else 0, weight=1.0)]
        s["bweights"] = [float(rng.choice([1.0, 0.5]))]
    if "hweights" in allow and rng.random() < 0.3:
        s["hweights"] = [float(x) for x in rng.choice([1.0, 0.6, 1.2], len(s["comps"]))]
    if mode != "nve":
        if mode == "nvt-cc":
            # the centroid is at rest but for rounding errors: rescaling its velocity is undefined
            thermos = [t for t in (thermos or THERMOS) if t not in ("svr", "pile_g", "nm_gle_g")]
        s["thermo"] = rand_thermo(rng, s, thermos)
    if mode in ("npt", "nst", "scnpt"):
        b = dict(tau=float(rng.choice([1000.0, 3000.0])))
        if mode == "npt":
            b["mode"] = str(rng.choice(["isotropic", "flexible"]))
        elif mode == "scnpt":
            b["mode"] = "sc-isotropic"
        else:
            b["mode"] = "anisotropic"
        if b["mode"] in ("flexible", "anisotropic"):
            hf = HFIX[int(rng.integers(len(HFIX)))]
            if b["mode"] == "flexible" and rng.random() < 0.3:
                b["volc"] = True
                hf = [x for x in hf if x not in ("xx", "yy", "zz")]
            b["hfix"] = list(hf)
        if cellthermo and rng.random() < 0.7:
            b["thermo"] = rand_thermo(rng, s, ["langevin", "svr", "gle"])
        s["baro"] = b
        if b["mode"] == "anisotropic":
            st = np.diag(rng.uniform(-1, 1, 3)) * 1e-5
            if rng.random() < 0.5:
                st[0, 1] = st[1, 0] = rng.uniform(-1, 1) * 1e-5
            s["stress"] = st.tolist()
        else:
            s["pressure"] = float(rng.choice([0.0, 1e-5, -5e-6]))
    nm = {}
    if "nmmodes" in allow and nb > 1 and rng.random() < 0.5:
        nm["style"] = str(rng.choice(["rpmd", "pa-cmd", "wmax-cmd", "manual"]))
    if "prop" in allow and rng.random() < 0.6:
        nm["propagator"] = str(rng.choice(["exact", "cayley", "bab"]))
        nm["nmts"] = int(rng.choice([1, 3, 10]))
    if "prop" in allow:
        nm["transform"] = str(rng.choice(["fft", "matrix"]))
    if "open" in allow and nb > 1 and rng.random() < 0.3 and mode in ("nve", "nvt"):
        k = int(rng.integers(1, s["natoms"] + 1))
        nm["open"] = sorted(int(x) for x in rng.choice(s["natoms"], k, replace=False))
        nm.pop("style", None)
        if nm.get("propagator") == "bab":
            nm["propagator"] = "exact"
    if "bosons" in allow and nb > 1 and rng.random() < 0.3 and mode in ("nve", "nvt"):
        k = int(rng.integers(2, s["natoms"] + 1))
        nm["bosons"] = sorted(int(x) for x in rng.choice(s["natoms"], k, replace=False))
        nm["propagator"] = "bab"
        nm["nmts"] = int(rng.choice([3, 10]))
        nm.pop("open", None)
        nm.pop("style", None)
        s["same_mass"] = True
    s["nm"] = nm
    if "fixatoms" in allow and rng.random() < 0.4 and mode in ("nve", "nvt") and s["natoms"] > 2 and not nm.get("bosons") and "nm_gle_g" not in str(s.get("thermo")):
        r = rng.random()
        if r < 0.5:
            s["fixatoms"] = sorted(int(x) for x in rng.choice(s["natoms"], int(rng.integers(1, s["natoms"] - 1)), replace=False))
        else:
            s["fixatoms_dof"] = sorted(int(x) for x in rng.choice(3 * s["natoms"], int(rng.integers(1, 5)), replace=False))
        s["fixcom"] = False
    if mode in ("nst", "scnpt", "npt"):
        s["triclinic"] = bool(s["baro"]["mode"] in ("flexible", "anisotropic") and rng.random() < 0.6)
    return s


def geom(spec):
    rng = np.random.default_rng(spec["gseed"])
    n = spec["natoms"]
    masses = None
    if spec.get("same_mass"):
        masses = np.full(n, 3674.0)
    g = geometry(
        rng,
        n,
        spec["nbeads"],
        box=10.0,
        spread=0.1 if spec["nbeads"] > 1 else 0.0,
        p_t=spec["temp"] * spec.get("pscale", 1.0),
        triclinic=spec.get("triclinic"),
        masses=masses,
    )
    # path spread consistent with the number of beads (smooth paths)
    if spec["nbeads"] > 1:
        c = g["q"].mean(axis=0)
        nb = spec["nbeads"]
        t = np.arange(nb) * 2 * np.pi / nb
        a = 0.12 * rng.standard_normal((2, c.size))
        g["q"] = c + np.outer(np.cos(t), a[0]) + np.outer(np.sin(t), a[1]) + 0.02 * rng.standard_normal((nb, c.size))
    if spec.get("cells"):
        g["h"] = np.asarray(spec["cells"])
    if spec.get("volume") or spec["mode"] in ("npt", "nst", "scnpt"):
        v = np.linalg.det(g["h"])
        g["h"] *= (spec.get("volume", 1100.0) / v) ** (1.0 / 3)
    return g


def nm_xml(spec):
    nm = spec.get("nm") or {}
    at = {}
    if nm.get("propagator"):
        at["propagator"] = nm["propagator"]
    if nm.get("transform"):
        at["transform"] = nm["transform"]
    body = ""
    st = nm.get("style")
    nb = spec["nbeads"]
    wn = nb * spec["temp"]
    if st and nb > 1:
        if st == "rpmd":
            body += tag("frequencies", "[ ]", style="rpmd")
        elif st == "pa-cmd":
            body += tag("frequencies", arr([2.5 * wn]), style="pa-cmd")
        elif st == "wmax-cmd":
            body += tag("frequencies", arr([3.0 * wn, 0.9 * wn]), style="wmax-cmd")
        elif st == "manual":
            r = np.random.default_rng(spec["gseed"] + 1)
            body += tag("frequencies", arr(wn * r.uniform(0.5, 2.5, nb - 1)), style="manual")
    if nm.get("open"):
        body += tag("open_paths", "[ " + ", ".join(map(str, nm["open"])) + " ]")
    if nm.get("bosons"):
        body += tag("bosons", "[ " + ", ".join(map(str, nm["bosons"])) + " ]", id="index")
    if nm.get("nmts"):
        body += tag("nmts", nm["nmts"])
    if not body and not at:
        return ""
    return tag("normal_modes", body, **at)


def force_tag(name, c):
    at = dict(forcefield=name)
    if c.get("nbeads"):
        at["nbeads"] = c["nbeads"]
    if c.get("weight", 1.0) != 1.0:
        at["weight"] = repr(float(c["weight"]))
    if c.get("fd") is not None:
        at["fd_epsilon"] = c["fd"]
    body = ""
    if c.get("mts"):
        body += tag("mts_weights", arr(c["mts"]))
    return tag("force", body, **at)


def ff_xml(spec, pref="ff", pes_extra=None, threaded=False, pbc=False, batch=None):
    out = []
    for i, c in enumerate(spec["comps"]):
        p = dict(c["pars"])
        p.update(pes_extra or {})
        out.append(ffdirect(name="%s%d" % (pref, i), pars=p, threaded=threaded, pbc=pbc, batch=batch))
    for i, c in enumerate(spec.get("bias", [])):
        p = dict(c["pars"])
        p.update(pes_extra or {})
        out.append(ffdirect(name="%sb%d" % (pref, i), pars=p, threaded=threaded, pbc=pbc, batch=batch))
    return out


def forces_xml(spec, pref="ff"):
    return "".join(force_tag("%s%d" % (pref, i), c) for i, c in enumerate(spec["comps"]))


def ensemble_xml(spec, pref="ff"):
    e = tag("temperature", repr(spec["temp"]))
    if "pressure" in spec:
        e += tag("pressure", repr(spec["pressure"]))
    if "stress" in spec:
        e += tag("stress", arr(spec["stress"]), shape="(3, 3)")
    if spec.get("bias"):
        e += tag("bias", "".join(force_tag("%sb%d" % (pref, i), c) for i, c in enumerate(spec["bias"])))
        if spec.get("bweights"):
            e += tag("bias_weights", arr(spec["bweights"]))
    if spec.get("hweights"):
        e += tag("hamiltonian_weights", arr(spec["hweights"]))
    return e


def motion_xml(spec):
    b = ""
    if spec.get("baro"):
        bb = dict(spec["baro"])
        if bb["mode"] == "anisotropic" and "h0" not in bb:
            bb["h0"] = geom(spec)["h"].tolist()
        b = baro_xml(spec, bb)
    extra = ""
    if spec.get("fixatoms_dof"):
        extra = tag("fixatoms_dof", "[ " + ", ".join(map(str, spec["fixatoms_dof"])) + " ]")
    t = thermo_xml(spec, spec["thermo"]) if spec.get("thermo") else ""
    x = dynamics(
        mode=spec["mode"],
        dt=spec["dt"],
        thermostat=t,
        barostat=b,
        nmts=spec.get("nmts"),
        splitting=spec.get("splitting"),
        fixcom=spec.get("fixcom", False),
        fixatoms=spec.get("fixatoms"),
    )
    if extra:
        x = x.replace("</motion>", extra + "</motion>")
    return x


def system_xml(spec, pref="ff", prefix=None, g=None):
    return system(
        g or geom(spec),
        motion_xml(spec),
        forces=forces_xml(spec, pref),
        ensemble=ensemble_xml(spec, pref),
        nm=nm_xml(spec),
        prefix=prefix,
    )


def xml(spec, nsteps=10, outputs="", threading=False, pes_extra=None, threaded_ff=False, batch=None, **kw):
    return simulation(
        [system_xml(spec)],
        ff_xml(spec, pes_extra=pes_extra, threaded=threaded_ff, batch=batch),
        nsteps,
        seed=spec["seed"],
        outputs=outputs,
        threading=threading,
        **kw,
    )


def label(spec):
    """Coarse signature of a configuration (for coverage counts)."""
    th = (spec.get("thermo") or {}).get("kind", "-")
    b = spec.get("baro") or {}
    nm = spec.get("nm") or {}
    return "/".join(
        [
            spec["mode"],
            spec.get("splitting", "-"),
            "b%d" % spec["nbeads"],
            th,
            b.get("mode", "-") + ("+" + "".join(b["hfix"]) if b.get("hfix") else "") + ("+v" if b.get("volc") else ""),
            "mts%d" % len(spec["nmts"]) if spec.get("nmts") else "-",
            nm.get("style", "-"),
            nm.get("propagator", "-"),
            "open" if nm.get("open") else ("bos" if nm.get("bosons") else "-"),
            "com" if spec.get("fixcom") else "-",
            "fa" if spec.get("fixatoms") else ("fd" if spec.get("fixatoms_dof") else "-"),
            "bias" if spec.get("bias") else "-",
        ]
    )


ALL = ("open", "bosons", "fixcom", "fixatoms", "mts", "multi", "contraction", "bias", "hweights", "nmmodes", "prop", "baoab")


# ---------------------------------------------------------------- state capture
def thermo_state(t, pref, out):
    from ipi.engine import thermostats as et

    out[pref + "ethermo"] = float(t.ethermo)
    if hasattr(t, "tlist"):
        for i, x in enumerate(t.tlist):
            thermo_state(x, pref + "%d." % i, out)
    if type(t) in (et.ThermoGLE, et.ThermoNMGLE, et.ThermoNMGLEG):
        out[pref + "s"] = simgen.A(t.s)
        out[pref + "A"] = simgen.A(t.A)
        out[pref + "C"] = simgen.A(t.C)
    if hasattr(t, "tau"):
        out[pref + "tau"] = float(t.tau)
    if type(t) is et.ThermoCL:
        out[pref + "intau"] = float(t.intau)
        out[pref + "idtau"] = float(t.idtau)


def state(sim):
    """All primary state of a simulation as plain arrays."""
    A = simgen.A
    st = {"step": int(sim.step)}
    for i, s in enumerate(sim.syslist):
        P = "s%d." % i
        st[P + "q"] = A(s.beads.q)
        st[P + "p"] = A(s.beads.p)
        st[P + "m"] = A(s.beads.m)
        st[P + "h"] = A(s.cell.h)
        st[P + "pot"] = float(s.forces.pot)
        st[P + "f"] = A(s.forces.f)
        st[P + "econs"] = float(s.ensemble.econs)
        st[P + "eens"] = float(s.ensemble.eens)
        st[P + "time"] = float(s.ensemble.time)
        st[P + "temp"] = float(s.ensemble.temp)
        st[P + "names"] = "".join(str(x) for x in s.beads.names)
        mot = s.motion
        mots = mot.mlist if hasattr(mot, "mlist") else [mot]
        for k, m in enumerate(mots):
            Q = P + "m%d." % k
            if hasattr(m, "thermostat"):
                thermo_state(m.thermostat, Q + "t.", st)
            if hasattr(m, "barostat"):
                b = m.barostat
                if hasattr(b, "p") and np.size(b.p):
                    st[Q + "b.p"] = A(b.p)
                thermo_state(b.thermostat, Q + "b.t.", st)
            if hasattr(m, "dt"):
                st[Q + "dt"] = float(m.dt)
    for i, d in enumerate(sim.prng.state):
        st["prng%d" % i] = np.append(np.asarray(d["state"]["key"], float), d["state"]["pos"])
    return st


def diff_states(a, b, tol=0.0, skip=()):
    """List of (key, max abs diff, scale) that differ beyond tol (relative to the
    largest magnitude of the array)."""
    bad = []
    for k in sorted(set(a) | set(b)):
        if any(x in k for x in skip):
            continue
        if k not in a or k not in b:
            bad.append((k, "missing", 0))
            continue
        x, y = a[k], b[k]
        if isinstance(x, str):
            if x != y:
                bad.append((k, x, y))
            continue
        x = np.asarray(x, float).ravel()
        y = np.asarray(y, float).ravel()
        if x.shape != y.shape:
            bad.append((k, "shape %s %s" % (x.shape, y.shape), 0))
            continue
        if x.size == 0:
            continue
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            bad.append((k, "nan", 0))
            continue
        x, y = x[~nx], y[~ny]
        if x.size == 0:
            continue
        d = np.max(np.abs(x - y))
        sc = max(np.max(np.abs(x)), np.max(np.abs(y)))
        # a bath energy that is zero up to round-off is zero
        if d > tol * sc + (1e-13 if "ethermo" in k and tol else 0.0):
            bad.append((k, float(d), float(sc)))
    return bad


class Probe:
    """Looks like an output; records the full state after every step."""

    filename = "_probe"

    def __init__(self, sim, fn=None):
        self.sim = sim
        self.states = {}
        self.fn = fn

    def active(self):
        return True

    def write(self):
        k = int(self.sim.step) + 1
        st = state(self.sim)
        st["step"] = k
        self.states[k] = st
        if self.fn:
            self.fn(self.sim, k)


def end(sim):
    """Stop the helper threads of a finished simulation without the (slow) orderly exit."""
    from ipi.utils.softexit import softexit

    for o in sim.outputs:
        try:
            o.close_stream()
        except Exception:
            pass
    for f in sim.fflist.values():
        try:
            f._doloop[0] = False
        except Exception:
            pass
    softexit._doloop[0] = False
    softexit.reset()


def read_props(fn):
    """Rows of a property file, as arrays of floats, with the header lines."""
    head, rows = [], []
    for ln in open(fn):
        if ln.startswith("#"):
            head.append(ln)
        elif ln.strip():
            rows.append([float(x) for x in ln.split()])
    return head, rows


def xml_numbers(path):
    """A checkpoint as {path: (attributes, text)}, comparable across runs."""
    import re
    import xml.etree.ElementTree as ET

    txt = open(path).read()
    txt = re.sub(r"<!--.*?-->", "", txt, flags=re.S)
    root = ET.fromstring(txt)
    out = {}

    def walk(e, p, cnt):
        n = cnt.get(e.tag, 0)
        cnt[e.tag] = n + 1
        me = "%s/%s%s" % (p, e.tag, "[%d]" % n if n else "")
        out[me] = (dict(e.attrib), (e.text or "").strip())
        c = {}
        for x in e:
            walk(x, me, c)

    walk(root, "", {})
    return out


def _nums(s):
    s = s.strip().strip("[]").replace(",", " ")
    try:
        return np.array([float(x) for x in s.split()])
    except ValueError:
        return None


def _no_zero_bath(a):
    """Drops bath energies that are zero up to round-off (zero is not written)."""
    a = dict(a)
    for k in list(a):
        if k.endswith("/ethermo"):
            v = _nums(a[k][1])
            if v is not None and np.all(np.abs(v) < 1e-13):
                del a[k]
                up = k.rsplit("/", 1)[0]
                if not any(x.strip() for x in a[up][0].values()) and not a[up][1] and not any(x.startswith(up + "/") for x in a):
                    del a[up]
    return a


def diff_xml(a, b, tol=1e-10, skip=(), gtol=None):
    bad = []
    a, b = _no_zero_bath(a), _no_zero_bath(b)
    for k in sorted(set(a) | set(b)):
        if any(x in k for x in skip):
            continue
        if k not in a or k not in b:
            bad.append((k, "only in one file", ""))
            continue
        if a[k][0] != b[k][0]:
            bad.append((k, str(a[k][0])[:80], str(b[k][0])[:80]))
        x, y = _nums(a[k][1]), _nums(b[k][1])
        if x is None or y is None or x.shape != y.shape:
            if a[k][1].split() != b[k][1].split():
                bad.append((k, a[k][1][:60], b[k][1][:60]))
            continue
        if x.size == 0:
            continue
        n = np.isnan(x) & np.isnan(y)
        x, y = x[~n], y[~n]
        if x.size == 0:
            continue
        d = np.max(np.abs(x - y))
        sc = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-300)
        t = tol
        if gtol:
            for key, v in gtol.items():
                if key in k:
                    t = v
        if not d <= t * sc + 1e-14:
            bad.append((k, float(d), float(sc)))
    return bad
