"""C21: the potentials shipped with the drivers are consistent and memory safe."""
import itertools
import json
import os
import shutil
import struct
import sys
import tempfile
from multiprocessing import shared_memory

import numpy as np

from vf import f90
from vf.core import REPO, Inconclusive, sub_seed

PROPERTY = "C21"
LEVEL = "tested"
TECHNIQUE = "runtime monitoring with sanitizers: the Fortran driver is rebuilt with AddressSanitizer, UBSan and bounds checks (and run under valgrind) and driven through its own protocol, the Python potentials are called in process; a monitor differentiates energies, applies symmetries and compares histories and transports"
NOTE = "gradient and strain derivatives by 5-point differences, symmetry images, fresh-process references, outer-product and molecular-dipole references for extras, sanitizer and valgrind reports, exit codes"
RULE = "for each model random options, sizes, cells and structures (including hostile ones: wrong numbers of atoms and of options, cut messages, long paths, growing cells, atoms leaving the cell)"
ASSUMPTIONS = "virials are claimed for the models that compute one (pair potentials, water, field); structures keep pairs away from a cutoff; the LEPS models are claimed on the line they are defined on; number of atoms constant during a connection"
TIMEOUT = {"quick": 240, "thorough": 900}
HANG_IS_VIOLATION = True
REQUIRE = {"gradient": 60, "virial": 10, "history": 30, "symmetry": 30, "refused": 20, "sanitizer": 60, "shm": 10, "py gradient": 10}

EXE = {}


def prepare(tier, seed):
    d = tempfile.mkdtemp(prefix="vf_f90_")
    import atexit

    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    EXE["asan"] = f90.build(REPO, os.path.join(d, "asan"))
    EXE["plain"] = f90.build(REPO, os.path.join(d, "plain"), sanitize=False)
    EXE["cwd"] = os.path.join(d, "asan", "pes")


# ------------------------------------------------------------------ structures
def rot(rng):
    r = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if np.linalg.det(r) < 0:
        r[:, 0] *= -1
    return r


def mic(d, h):
    s = np.linalg.solve(h, d.T).T
    return (h @ (s - np.rint(s)).T).T


def dists(q, h):
    i, j = np.triu_indices(len(q), 1)
    return np.linalg.norm(mic(q[i] - q[j], h), axis=1) if len(i) else np.zeros(0)


def cell(rng, L, tric):
    h = np.diag(L * rng.uniform(1, 1.15, 3))
    if tric:
        h[np.triu_indices(3, 1)] = L * rng.uniform(-0.2, 0.2, 3)
    return h


def heights(h):
    return 1 / np.linalg.norm(np.linalg.inv(h), axis=1)


def fluid(rng, n, h, dmin, rcs=()):
    """n points at least dmin apart, with no pair close to a cutoff."""
    for _ in range(400):
        q = []
        for _ in range(4000):
            x = h @ rng.uniform(0, 1, 3)
            d = np.linalg.norm(mic(np.array(q) - x, h), axis=1) if q else np.array([1e9])
            if d.min() > dmin and all(abs(d - rc).min() > 0.06 for rc in rcs):
                q.append(x)
                if len(q) == n:
                    return np.array(q)
    raise Inconclusive("no structure found")


MOL = np.array([[0, 0, 0], [1.43, 1.1, 0], [-1.43, 1.1, 0]])


def waters(rng, n, h, dmin=5.2, jit=0.05):
    o = fluid(rng, n, h, dmin)
    q = []
    for x in o:
        q += list(x + MOL @ rot(rng).T + rng.normal(0, jit, (3, 3)))
    return np.array(q)


def g_pair(dmin, rcut):
    def g(rng, nat=None):
        n = nat or int(rng.choice([1, 2, 3, 5, 9, 14, 20]))
        h = cell(rng, 2.35 * rcut, rng.random() < 0.6)
        return fluid(rng, n, h, dmin, [rcut]), h

    return g


def g_water(nmax, box=20.0, rcs=()):
    def g(rng, nat=None):
        n = (nat // 3) if nat else int(rng.integers(1, nmax + 1))
        h = cell(rng, box * rng.uniform(1, 1.4), False)
        return waters(rng, n, h), h

    return g


def g_free(nat, sd, ref=None):
    def g(rng, n=None):
        n = n or (nat if np.isscalar(nat) else int(rng.choice(nat)))
        h = cell(rng, 40.0, False)
        q = rng.normal(0, sd, (n, 3))
        if ref is not None:
            q = np.array(ref)[:n] + q if len(ref) >= n else np.concatenate([ref, rng.normal(0, 5, (n - len(ref), 3))])
        return q, h

    return g


ZUN = [[0, 0, 0], [4.6, 0, 0], [2.3, 0.1, 0], [-0.9, 1.5, 0.1], [-0.9, -1.5, 0.1], [5.4, 0.2, 1.5], [5.4, 0, -1.5]]
CH5 = [[1.2, 1.2, 1.2], [0, 0, 0], [-1.2, -1.2, 1.2], [-1.2, 1.2, -1.2], [1.2, -1.2, -1.2], [4, 4, 4.0]]


def g_line(n):
    def g(rng, nat=None):
        m = nat or n
        q = np.zeros((m, 3))
        q[:, 0] = np.cumsum(rng.uniform(0.8, 1.8, m)) + rng.normal()
        if n == 4 and m == 4:
            q[3, 0] = rng.normal()
        return q, cell(rng, 40.0, False)

    return g


def perm_groups(groups):
    def p(rng, n, opt):
        i = np.arange(n)
        for g in groups(n, opt):
            g = np.array(g, int)
            i[g] = rng.permutation(g)
        return i

    return p


def perm_water(rng, n, opt):
    i = []
    for m in rng.permutation(n // 3):
        a = [1, 2]
        rng.shuffle(a)
        i += [3 * m, 3 * m + a[0], 3 * m + a[1]]
    return np.array(i)


def perm_poly(rng, n, opt):
    k = int(opt[0])
    if n % k:
        return np.arange(n)
    i = []
    for m in rng.permutation(n // k):
        b = np.arange(k * m, k * m + k)
        i += list(b[:: rng.choice([1, -1])])
    return np.array(i)


def o_lj(rng):
    return ["%.4f" % rng.uniform(5, 6), "%.6g" % (10 ** rng.uniform(-4, -3)), "%.3f" % 13.0]


def o_k(rng):
    return ["%.5f" % rng.uniform(0.01, 2)]


def none(rng):
    return []


ALL = perm_groups(lambda n, o: [range(n)])
# options, structures, number of options, wrong numbers of atoms, and the claims
MODELS = {
    "gas": dict(o=none, g=g_pair(4, 12.0), perm=ALL, no=(0, 1)),
    "lj": dict(o=o_lj, g=g_pair(5.0, 13.0), perm=ALL, vir="full", lat=1, no=(3,), rc=2, nl=1),
    "sg": dict(tol=1e-5, o=lambda r: ["13.0"], g=g_pair(4.5, 13.0), perm=ALL, vir="full", lat=1, no=(1,), rc=0, nl=1),
    "ljmix": dict(o=lambda r: ["%d" % r.integers(0, 4)] + o_lj(r), g=g_pair(5.0, 13.0), vir="full", lat=1, no=(4,), rc=3, nl=1,
                  perm=perm_groups(lambda n, o: [range(min(n, int(o[0]))), range(min(n, int(o[0])), n)])),
    "ljpolymer": dict(o=lambda r: ["%d" % r.choice([1, 2, 3, 4])] + o_lj(r), g=g_pair(5.0, 13.0), vir="full", lat=1, no=(4,), rc=3, nl=1, perm=perm_poly, natof=lambda r, o: int(o[0]) * int(r.integers(1, 5))),
    "harm": dict(o=o_k, g=g_free([1, 2, 5], 1.0), no=(1,)),
    "harm3d": dict(o=o_k, g=g_free([1, 2, 5, 30], 1.0), perm=ALL, no=(1,)),
    "linear": dict(o=o_k, g=g_free([1, 2, 5], 1.0), no=(1,)),
    "morse": dict(o=lambda r: [] if r.random() < 0.5 else ["1.8", "0.2", "1.1"], g=g_free(1, 1.2), free="rot", no=(0, 3), bad=(2, 3)),
    "morsedia": dict(o=lambda r: [] if r.random() < 0.5 else ["1.8", "0.2", "1.1"], g=g_free(2, 1.2), free="all", perm=ALL, no=(0, 3), bad=(1, 3)),
    "zundel": dict(o=none, g=g_free(7, 0.05, ZUN), free="all", no=(0,), bad=(6, 8), tol=2e-4, slow=1,
                   perm=perm_groups(lambda n, o: [range(2), range(2, 7)])),
    "ch4hcbe": dict(o=none, g=g_free(6, 0.05, CH5), free="all", no=(0,), bad=(5, 7), tol=2e-4),
    "pswater": dict(o=none, g=g_free(3, 0.05, MOL), free="all", no=(0,), bad=(2, 4), tol=1e-6,
                    perm=lambda rng, n, o: np.array([0, 2, 1])),
    "qtip4pf": dict(o=none, g=g_water(6), perm=perm_water, vir="diag", lat=3, no=(0,), bad=(4, 5), tol=3e-5, vtol=2e-3, tilt=1),
    "qtip4pf-sr": dict(o=none, g=g_water(6), perm=perm_water, vir="full", no=(0,), bad=(4, 5), free="all"),
    "qtip4pf-efield": dict(o=lambda r: ["%.4f" % x for x in r.normal(size=3)], g=g_water(6), perm=perm_water, vir="full", no=(3,), bad=(4, 5), lat=3),
    "noo3-h2o": dict(o=none, g=g_water(6), perm=perm_water, lat=3, bad=(1, 4, 5)),
    "lepsm1": dict(o=none, g=g_line(3), no=(0,), bad=(2, 4), mask=[[0, 0, 0], [1, 0, 0], [1, 0, 0]], tol=1e-5),
    "lepsm2": dict(o=none, g=g_line(4), no=(0,), bad=(3, 5), mask=[[0, 0, 0], [1, 0, 0], [0, 0, 0], [1, 0, 0]], tol=1e-5),
    "eckart": dict(o=lambda r: [] if r.random() < 0.5 else ["0.0", "0.66", "1.5", "0.4"], g=g_free([1, 2, 4], 0.5), no=(0, 4), perm=perm_groups(lambda n, o: [range(1, n)])),
    "MB": dict(o=lambda r: [] if r.random() < 0.5 else ["0.004"], g=g_free(1, 0.5), no=(0, 1), bad=(2,)),
    "doublewell": dict(o=none, g=g_free([1, 2, 3, 4, 7], 0.8), perm=ALL, no=(0,), fric=1),
    "doublewell_1D": dict(o=none, g=g_free([1, 2, 3, 4, 7], 0.8), perm=ALL, no=(0,), fric=1),
    "water_dip_pol": dict(o=lambda r: ["1"], g=g_water(4), dip=1, perm=perm_water, lat=3),
}
for k in ("1", "2", "json"):
    MODELS["qtip4pf-c-" + k] = dict(o=none, g=g_water(5, 26.0), perm=perm_water, vir="diag", lat=3, bad=(4, 5), tol=3e-5, vtol=2e-3, tilt=1, com=1, nl=1, slow=1)
    MODELS["qtip4pf-c-%s-delta" % k] = dict(o=none, g=g_water(5, 26.0), perm=perm_water, vir="diag", lat=3, bad=(4, 5), tilt=1, com=1, nl=1, tol=1e-6)


def opt_args(model, o):
    return ["-m", model] + (["-o", ",".join(o)] if o else [])


def driver(model, o, exe="asan", extra=(), **kw):
    d = f90.Driver(EXE[exe], opt_args(model, o) + list(extra), cwd=os.path.join(os.path.dirname(EXE[exe]), "pes"), **kw)
    return d


def finish(d, rec, what, key=None, kind="exit", expect=None):
    rc, text = d.close(kind)
    bad = f90.report(rc, text)
    rec.check(bad is None, "sanitizer", "%s: %s" % (what, bad), key=key)
    if expect is not None and bad is None:
        rec.check(rc == expect, "exit", "%s: exit code %s" % (what, rc), key=key)
    return rc, text


def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 6
    for m in MODELS:
        for i in range(n):
            nm = "%s_%d" % (m, i)
            out.append(dict(name=nm, kind="model", model=m, cseed=sub_seed(seed, nm), thorough=tier != "quick"))
            if MODELS[m].get("nl"):
                nm = "list_%s_%d" % (m, i)
                out.append(dict(name=nm, kind="list", model=m, cseed=sub_seed(seed, nm)))
                if "rc" in MODELS[m]:
                    nm = "drift_%s_%d" % (m, i)
                    out.append(dict(name=nm, kind="drift", model=m, cseed=sub_seed(seed, nm)))
        for i in range(1 if tier == "quick" else 4):
            nm = "bad_%s_%d" % (m, i)
            out.append(dict(name=nm, kind="bad", model=m, cseed=sub_seed(seed, nm)))
            nm = "shm_%s_%d" % (m, i)
            out.append(dict(name=nm, kind="shm", model=m, cseed=sub_seed(seed, nm)))
    vg = [m for m in MODELS if tier != "quick" or not MODELS[m].get("slow")]
    for m in vg:
        nm = "valgrind_" + m
        out.append(dict(name=nm, kind="valgrind", model=m, cseed=sub_seed(seed, nm)))
    for i in range(2 if tier == "quick" else 12):
        nm = "paths_%d" % i
        out.append(dict(name=nm, kind="paths", cseed=sub_seed(seed, nm)))
        nm = "cut_%d" % i
        out.append(dict(name=nm, kind="cut", cseed=sub_seed(seed, nm)))
    for i in range(6 if tier == "quick" else 40):
        for p in PY:
            nm = "py_%s_%d" % (p, i)
            out.append(dict(name=nm, kind="py", pes=p, cseed=sub_seed(seed, nm)))
    out.sort(key=lambda c: not MODELS.get(c.get("model"), {}).get("slow", 0))
    return out


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    globals()["r_" + case["kind"]](case, rng, rec)


def fd(fun, s):
    c = [fun(t * s) for t in (-2, -1, 1, 2)]
    return (c[0] - 8 * c[1] + 8 * c[2] - c[3]) / (12 * s)


def fd_best(fun, ref, steps=(1e-2, 3e-3, 1e-3, 1e-4)):
    best = None
    for s in steps:
        v = fd(fun, s)
        if best is None or np.max(np.abs(v - ref)) < np.max(np.abs(best - ref)):
            best = v
        if np.max(np.abs(best - ref)) < 1e-9:
            break
    return best


def struct_for(M, rng, o):
    nat = M["natof"](rng, o) if "natof" in M else None
    return M["g"](rng, nat)


def jx(x):
    return json.loads(x) if x.strip().startswith("{") else None


def r_model(case, rng, rec):
    m = case["model"]
    M = MODELS[m]
    tol = M.get("tol", 1e-6)
    o = M["o"](rng)
    verb = [[], [], ["-v"], ["-vv"]][rng.integers(4)]
    d = driver(m, o, extra=verb)
    first = None
    done = []
    for rep in range(1 if M.get("slow") and not case["thorough"] else 3 if not case["thorough"] else 6):
        if rep == 0 or "natof" in M:
            if rep and M.get("natof"):
                q, h = M["g"](rng, len(q))
            else:
                q, h = struct_for(M, rng, o)
        else:
            q, h = M["g"](rng, len(q))
        if first is None:
            first = (q, h)
        n = len(q)
        key = "%s n%d" % (m, n)
        if M.get("nl"):
            # the cutoff follows the volume of the first structure seen
            h = h * (np.linalg.det(first[1]) / np.linalg.det(h)) ** (1 / 3.0)
            q, h = (first if rep == 0 else (place(M, rng, n, h, o), h))
        e, f, v, x = d.compute(q, h)
        done.append((q, h, e, f, v, x))
        rec.check(np.all(np.isfinite(f)) and np.isfinite(e) and np.all(np.isfinite(v)), "finite", key, key=key)
        sc = np.linalg.norm(f) + abs(e) * 1e-3 + 1e-12
        for k in range(2 if M.get("slow") else 4):
            u = rng.normal(size=q.shape)
            if k == 0:  # a single coordinate
                u = np.zeros(q.shape)
                u[rng.integers(n), rng.integers(3)] = 1
            if "mask" in M:
                u = u * np.array(M["mask"])
            if not u.any():
                continue
            u /= np.linalg.norm(u)
            ref = -(f * u).sum()
            num = fd_best(lambda t: d.compute(q + t * u, h)[0], ref)
            if m == "pswater" and abs(num - ref) >= tol * sc and abs(num * 0.0015936015 / 0.0015946679 - ref) < tol * sc:
                rec.ok("gradient", key)
                rec.fail("pswater_energy_factor", "%s: force %.9g, energy difference %.9g" % (key, -ref, -num))
                continue
            rec.check(abs(num - ref) < tol * sc, "gradient", "%s: force along a direction %.9g, energy difference %.9g" % (key, -ref, -num), key=key)
        if "mask" in M:
            rec.check(np.abs(f * (1 - np.array(M["mask"]))).max() == 0, "gradient", key + ": forces off the line", key=key)
        if M.get("vir"):
            V = np.triu(v)
            vs = np.abs(v).max() + np.abs(f[:, :, None] * q[:, None, :]).sum(0).max() * 0.1 + 1e-12
            for k in range(2 if M.get("slow") else 4):
                ep = np.triu(rng.normal(size=(3, 3)))
                if k == 0:
                    ep = np.eye(3)
                elif k == 1:
                    ep = np.zeros((3, 3))
                    a = int(rng.integers(3))
                    b = a if M["vir"] == "diag" else int(rng.integers(a, 3))
                    ep[a, b] = 1
                if M["vir"] == "diag":
                    ep = np.diag(np.diag(ep))
                ref = -(V * ep).sum()

                def est(t):
                    F = np.eye(3) + t * ep
                    return d.compute(q @ F.T, F @ h)[0]

                num = fd_best(est, ref, (1e-3, 2e-4, 1e-4))
                rec.check(abs(num - ref) < max(tol * 100, M.get("vtol", 1e-6)) * vs, "virial", "%s: virial %.9g, strain derivative %.9g (scale %.3g)" % (key, -ref, -num, vs), key=key + " " + M["vir"])
        if M.get("fric"):
            fr = np.array(jx(x)["friction"])
            rec.close(fr, np.outer(q.ravel(), q.ravel()), 0, "friction", key, key=key, atol=2e-8)
        if M.get("dip"):
            check_dip(d, rng, q, h, x, rec, key)
        if m in ("qtip4pf",):
            dip = (-1.1128 * q[::3] + 0.5564 * (q[1::3] + q[2::3])).sum(0)
            rec.close(jx(x)["dipole"], dip, 0, "dipole", key, key=key, atol=2e-8)
        if "json" in m:
            check_committee(d, m, q, h, (e, f, v, x), rec, key)
        symmetries(d, M, m, rng, q, h, (e, f, v, x), o, rec, key)
    # what was computed in between leaves no trace
    for q, h, e, f, v, x in done:
        e2, f2, v2, x2 = d.compute(q, h)
        same(rec, "history", "%s: a structure computed again" % m, (e2, f2, v2, x2), (e, f, v, x), m)
    finish(d, rec, m, key=m, expect=0)
    g = driver(m, o)
    for q, h, e, f, v, x in (done if M.get("nl") else done[-1:]):
        same(rec, "history", "%s: a structure computed in a new process" % m, g.compute(q, h), (e, f, v, x), m)
    rc, text = finish(g, rec, m + " again", key=m, kind="drop")
    rec.check(rc != 0, "exit", "%s: the loss of the connection goes unnoticed (exit code 0)" % m, key=m)


def same(rec, kind, what, a, b, key, tol=1e-10):
    rec.close(a[0], b[0], tol, kind, what + ": energy", key=key, atol=1e-13)
    rec.close(a[1], b[1], tol, kind, what + ": forces", key=key, atol=tol * np.abs(b[1]).max() + 1e-13)
    rec.close(np.triu(a[2]), np.triu(b[2]), tol, kind, what + ": virial", key=key, atol=tol * np.abs(b[2]).max() + 1e-13)
    xa, xb = jx(a[3]), jx(b[3])
    if xb is None:
        rec.check(a[3] == b[3], kind, what + ": extras", key=key)
    else:
        rec.check(sorted(xa) == sorted(xb), kind, what + ": extras", key=key)
        for k in xb:
            rec.close(np.array(xa[k]), np.array(xb[k]), 1e-9, kind, what + ": extra " + k, key=key, atol=1.1e-8)


def place(M, rng, n, h, o):
    """n atoms in a given cell, away from each other and from the cutoff."""
    if "rc" in M:
        rc = float(o[M["rc"]])
        return fluid(rng, n, h, 5.0, [rc])
    return waters(rng, n // 3, h)


def symmetries(d, M, m, rng, q, h, ref, o, rec, key):
    e, f, v, x = ref
    n = len(q)
    tol = max(M.get("tol", 0), 1e-9)

    def cmp(q2, h2, ef, ff, vv, what, xx=None):
        e2, f2, v2, x2 = d.compute(q2, h2)
        at = tol * (np.abs(f).max() + abs(e) * 1e-3) + 1e-12
        rec.close(e2, ef, tol, "symmetry", key + " " + what + ": energy", key=what, atol=at)
        rec.close(f2, ff, tol, "symmetry", key + " " + what + ": forces", key=what, atol=at)
        if vv is not None:
            rec.close(np.triu(v2), np.triu(vv), tol, "symmetry", key + " " + what + ": virial", key=what, atol=at * 30)
        if xx is not None:
            for k in xx:
                rec.close(np.array(jx(x2)[k]), np.array(jx(x)[k]), 0, "symmetry", key + " " + what + ": " + k, key=what, atol=3e-8 * 10)

    if M.get("perm"):
        p = M["perm"](rng, n, o)
        cmp(q[p], h, e, f[p], v, "permutation", ["dipole", "polarizability"] if M.get("dip") else None)
    if M.get("lat"):
        k = M["lat"]
        z = rng.integers(-2, 3, (n // k, 3))
        # external fields have a virial that depends on the image chosen
        cmp(q + np.repeat(z, k, 0) @ h.T, h, e, f, v if m != "qtip4pf-efield" else None, "lattice translation", ["dipole", "polarizability"] if M.get("dip") else None)
        cmp(q + rng.normal(0, 3, 3), h, e, f, v if m != "qtip4pf-efield" else None, "translation") if m != "water_dip_pol" else None
    if M.get("free"):
        R = rot(rng)
        t = rng.normal(0, 1, 3) if M["free"] == "all" else np.zeros(3)
        cmp(q @ R.T + t, h, e, f @ R.T, None, "rotation")


def check_dip(d, rng, q, h, x, rec, key):
    """dipole derivatives are the derivatives of the dipole; polarisability symmetric"""
    n = len(q)
    D = np.array(jx(x)["dipole_derivative"]).reshape(n, 9)
    P = np.array(jx(x)["polarizability"]).reshape(3, 3)
    rec.close(P, P.T, 0, "polarizability", key, key=key, atol=1e-6)
    for _ in range(4):
        i, a = int(rng.integers(n)), int(rng.integers(3))
        u = np.zeros(q.shape)
        u[i, a] = 1
        blk = D[i].reshape(3, 3)
        # documented order: derivative of each dipole component, or its transpose;
        # the truncated lattice sum has small steps, which a shorter interval avoids
        for st in (0.02, 0.007, 0.002):
            num = fd(lambda t: np.array(jx(d.compute(q + t * u, h)[3])["dipole"]), st)
            ok = min(np.abs(blk[:, a] - num).max(), np.abs(blk[a] - num).max())
            if ok < 2e-4:
                break
        rec.check(ok < 2e-4, "dipole derivative", "%s: %s vs %s" % (key, blk, num), key=key)


def check_committee(d, m, q, h, ref, rec, key):
    """the returned values are the means of the two members, which are models of
    their own"""
    x = jx(ref[3])
    n = len(q)
    P, F, V = x["committee_pot"], np.array(x["committee_force"]).reshape(2, n, 3), np.array(x["committee_virial"]).reshape(2, 3, 3)
    rec.close(np.mean(P), ref[0], 0, "committee", key + " mean energy", key=key, atol=3e-8)
    rec.close(F.mean(0), ref[1], 0, "committee", key + " mean forces", key=key, atol=3e-8)
    mean, up = V.mean(0), np.triu(ref[2])
    if np.abs(np.triu(mean) - up).max() > 3e-8 and np.abs(np.triu(mean.T) - up).max() <= 3e-8:
        rec.fail("committee_virial_transposed", key)
    else:
        rec.close(np.triu(mean), up, 0, "committee", key + " mean virial", key=key, atol=3e-8)
    for k in (1, 2):
        g = driver(m.replace("json", str(k)), [])
        e, f, v, _ = g.compute(q, h)
        rec.close(P[k - 1], e, 0, "committee", key + " member energy", key=key, atol=3e-8)
        rec.close(F[k - 1], f, 0, "committee", key + " member forces", key=key, atol=3e-8)
        finish(g, rec, "member", key=key)


def r_list(case, rng, rec):
    """Long histories of moving atoms and breathing cells against new processes."""
    m = case["model"]
    M = MODELS[m]
    o = M["o"](rng)
    q, h = struct_for(M, rng, o)
    n = len(q)
    rc0 = float(o[M["rc"]]) if "rc" in M else 12.0
    d = driver(m, o)
    d.compute(q, h)
    v0 = np.linalg.det(h)
    s = np.linalg.solve(h, q.T).T
    hh = h.copy()
    kind = ["grow", "shrink", "walk", "jump"][int(rng.integers(4))]
    for step in range(14):
        f = dict(grow=1.05, shrink=0.97, walk=1 + rng.normal(0, 0.03), jump=rng.uniform(0.85, 1.6))[kind]
        hh = (h if kind == "jump" else hh) * f
        g = (np.linalg.det(hh) / v0) ** (1 / 3.0)
        if kind == "jump" or "rc" not in M:
            if "rc" in M:
                qq = fluid(rng, n, hh, 5.0 * min(1, g), [rc0 * g])
            else:
                qq = waters(rng, n // 3, hh, 5.2 * min(1, g))
        else:
            for _ in range(200):
                t = s + rng.normal(0, 0.04, s.shape)
                qq = t @ hh.T
                dd = dists(qq, hh)
                if len(dd) == 0 or (dd.min() > 4.0 and np.abs(dd - rc0 * g).min() > 0.01):
                    s = t
                    break
            else:
                raise Inconclusive("no structure")
        if not 0.5 < g < 2:
            break
        a = d.compute(qq, hh)
        if "rc" in M:
            oo = list(o)
            oo[M["rc"]] = repr(float(rc0 * g))
            r = driver(m, oo)
            b = r.compute(qq, hh)
        else:
            # cutoff fixed by the program: start from the first structure
            r = driver(m, o)
            r.compute(q, h)
            b = r.compute(qq, hh)
        same(rec, "history", "%s: step %d of a long run (%s, cell scaled by %.3f)" % (m, step, kind, g), a, b, kind, tol=3e-5)
        finish(r, rec, m, key=m)
    finish(d, rec, m, key=m)


def r_drift(case, rng, rec):
    """Slowly moving atoms in a still cell: lists of neighbours must never be out of date."""
    m = case["model"]
    M = MODELS[m]
    o = M["o"](rng)
    rc = float(rng.uniform(7, 9))
    o[M["rc"]] = "%.4f" % rc
    n = M["natof"](rng, o) if "natof" in M else 2 * int(rng.integers(1, 7))
    h = cell(rng, 34.0, rng.random() < 0.5)
    q = fluid(rng, n, h, 5.2)
    skin = 0.2 * rc
    d = driver(m, o)
    v = rng.standard_normal((n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    v *= rng.choice([0.0, 0.5, 1.0], n)[:, None] if rng.random() < 0.3 else 1.0
    # opposite velocities along the vector between pairs of atoms now out of range of each other
    for i in range(0, n - 1, 2):
        x = mic((q[i + 1] - q[i])[None], h)[0]
        v[i], v[i + 1] = x / np.linalg.norm(x), -x / np.linalg.norm(x)
        if np.linalg.norm(x) < 1.2 * rc:
            y = mic((q[i] + x / np.linalg.norm(x) * rc * rng.uniform(1.21, 1.35) - q)[[k for k in range(n) if k != i + 1]], h)
            if np.linalg.norm(y, axis=1).min() > 5.2:
                q[i + 1] = q[i] + x / np.linalg.norm(x) * rc * rng.uniform(1.21, 1.35)
    d.compute(q, h)
    near = 0
    for step in range(30):
        t = q + v * skin * rng.uniform(0.05, 0.3, (n, 1)) + rng.normal(0, 0.01, q.shape)
        dd = dists(t, h)
        # atoms that would come too close turn back
        for i in range(n):
            y = np.linalg.norm(mic(np.delete(t, i, 0) - t[i], h), axis=1) if n > 1 else np.array([99.0])
            if y.min() < 5.0:
                v[i] = -v[i]
                t[i] = q[i]
        dd = dists(t, h)
        if len(dd) and dd.min() < 4.0:
            break
        q = t
        if len(dd) and np.abs(dd - rc).min() < 0.003:
            d.compute(q, h)
            continue
        a = d.compute(q, h)
        r = driver(m, o)
        b = r.compute(q, h)
        near += int((dd < rc).sum()) if len(dd) else 0
        same(rec, "history", "%s: step %d of a drift in a still cell" % (m, step), a, b, m, tol=1e-8)
        finish(r, rec, m, key=m)
    finish(d, rec, m, key=m)


def r_bad(case, rng, rec):
    m = case["model"]
    M = MODELS[m]
    # wrong numbers of parameters, parameters that are no numbers
    tries = []
    if M.get("no") is not None:
        for n in (1, 2, 3, 4, 5, 6, 7, 9, 40):
            if n not in M["no"]:
                tries.append((["1.0"] * n, True))
    good = M["o"](rng)
    n = max([x for x in (M.get("no") or (1,))] + [1])
    w = ["1.0"] * n
    w[int(rng.integers(n))] = ["abc", "", "1.0x", "--"][int(rng.integers(4))]
    tries.append((w, True))
    tries.append((["1.0"] * int(rng.integers(100, 200)), None))
    rng.shuffle(tries)
    for w, must in tries[:6]:
        d = driver(m, w)
        st = None
        if d.s is not None:
            st = "connected"
        rc, text = finish(d, rec, "%s -o %s" % (m, ",".join(w)[:60]), key=m)
        if must:
            rec.check(st is None or "Error" in text, "refused", "%s accepts -o %s" % (m, ",".join(w)[:60]), key=m)
    # structures it is not meant for
    for n in M.get("bad", ()):
        q = rng.normal(0, 3, (n, 3))
        d = driver(m, good)
        try:
            d.compute(q, np.eye(3) * 40)
            got = True
        except f90.Died:
            got = False
        finish(d, rec, "%s with %d atoms" % (m, n), key="nat")
        rec.check(not got, "refused", "%s computes %d atoms" % (m, n), key=m)
    if M.get("tilt"):
        q, h = M["g"](rng)
        i, j = [(0, 1), (0, 2), (1, 2)][int(rng.integers(3))]
        h[i, j] = rng.choice([-1, 1]) * rng.uniform(0.5, 4)
        d = driver(m, good)
        try:
            d.compute(q, h)
            got = True
        except f90.Died:
            got = False
        finish(d, rec, m + " in a tilted cell", key="tilt")
        rec.check(not got, "refused", "%s computes in a cell with tilt %g" % (m, h[i, j]), key="tilt")


def r_shm(case, rng, rec):
    """Shared memory, one or several structures at a time, against the socket."""
    m = case["model"]
    M = MODELS[m]
    o = M["o"](rng)
    nb = int(rng.choice([1, 2, 3]))
    q, h = struct_for(M, rng, o)
    n = len(q)
    rounds = []
    for _ in range(2):
        rounds.append([(M["g"](rng, n) if not M.get("nl") else (place(M, rng, n, h, o), h)) for _ in range(nb)])
    d = driver(m, o)
    ref = [[d.compute(a, b) for a, b in r] for r in rounds]
    finish(d, rec, m, key=m)
    d = driver(m, o, extra=["--shm"])
    segs = []
    try:
        if d.s is None:
            raise f90.Died()
        rec.check(d.status() == "NEEDINIT", "shm", "asks for the batch size", key=m)
        d.init("batch_size:%d" % nb if nb > 1 else " ")
        view = []
        for i, k in enumerate((3 * n, 9, 9, 1, 3 * n, 9)):
            s = shared_memory.SharedMemory(create=True, size=8 * k * nb, name="vf%d_%d_%s" % (os.getpid(), i, case["cseed"] % 10**6))
            segs.append(s)
            view.append(np.ndarray((nb, k), float, buffer=s.buf))
        for r, rr in zip(rounds, ref):
            for b, (a, c) in enumerate(r):
                view[0][b] = a.ravel()
                view[1][b] = c.ravel()
                view[2][b] = np.linalg.inv(c).ravel()
            d.hdr("POSDATA")
            d.send(struct.pack("i", n))
            if r is rounds[0]:
                for s in segs:
                    d.send(struct.pack("i", len(s.name)) + s.name.encode())
            if d.status() != "HAVEDATA":
                raise f90.Died()
            d.hdr("GETFORCE")
            if d.get(12).decode().strip() != "FORCEREADY":
                raise f90.Died()
            for b in range(nb):
                (k,) = struct.unpack("i", d.get(4))
                x = d.get(k).decode()
                got = (float(view[3][b, 0]), view[4][b].reshape(n, 3).copy(), view[5][b].reshape(3, 3).copy(), x)
                same(rec, "shm", "%s through shared memory (%d structures)" % (m, nb), got, rr[b], m)
    except f90.Died:
        rec.fail("shm", "%s: the driver ended" % m)
    finally:
        finish(d, rec, m + " shm", key=m)
        view = None
        for s in segs:
            try:
                s.close()
            except BufferError:
                pass
            s.unlink()


def r_valgrind(case, rng, rec):
    """No decision and no message depends on memory that was never set."""
    m = case["model"]
    M = MODELS[m]
    o = M["o"](rng)
    q, h = struct_for(M, rng, o)
    d = driver(m, o, exe="plain", wrap=["valgrind", "-q", "--error-exitcode=98", "--track-origins=no", "--leak-check=no"], timeout=200)
    try:
        d.compute(q, h)
        if not M.get("slow"):
            d.compute(q + rng.normal(0, 0.01, q.shape) * (np.array(M["mask"]) if "mask" in M else 1), h)
    except f90.Died:
        pass
    rc, text = d.close()
    if rc is None:
        raise Inconclusive("valgrind too slow")
    i = text.find("==")
    rec.check(rc == 0, "valgrind", "%s: exit %s: %s" % (m, rc, text[max(0, i) : i + 700]), key=m)


def r_paths(case, rng, rec):
    """Socket paths of every length up to and beyond what an address holds."""
    base = tempfile.mkdtemp(prefix="f9", dir="/tmp")
    try:
        for total in [60, 106, 107, 108, 109, 110, 150, 250, int(rng.integers(108, 1000))]:
            pre = base + "/" + "p" * max(1, total - len(base) - 2)
            import subprocess

            env = dict(os.environ)
            env.update(f90.ENV)
            k = int(rng.integers(1, len(pre)))
            if total > 108 and rng.random() < 0.5:
                a = ["-S", pre[:k], "-a", pre[k:] + "x"]
            else:
                a = ["-S", pre, "-a", "x"]
            p = subprocess.run([EXE["asan"], "-u", "-m", "gas"] + a, env=env, cwd=EXE["cwd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, stdin=subprocess.DEVNULL)
            bad = f90.report(p.returncode, p.stdout.decode(errors="replace"))
            rec.check(bad is None, "sanitizer", "path of %d characters: %s" % (total, bad), key="path")
            rec.check(p.returncode != 0, "refused", "path of %d characters without a server: exit code 0" % total, key="path")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def r_cut(case, rng, rec):
    """A connection lost inside a message is an error, never a result."""
    for i in range(8):
        m = str(rng.choice(["gas", "harm3d", "lj", "doublewell"]))
        M = MODELS[m]
        o = M["o"](rng)
        q, h = struct_for(M, rng, o)
        d = driver(m, o)
        d.compute(q, h)
        msg = "POSDATA".ljust(12).encode() + h.tobytes() + np.linalg.inv(h).tobytes() + struct.pack("i", len(q)) + q.tobytes()
        k = int(rng.choice([int(rng.integers(1, 12)), 12, int(rng.integers(13, 156)), 156, 160, int(rng.integers(156, len(msg))), len(msg) - 1]))
        d.send(msg[:k])
        import socket as so

        d.s.shutdown(so.SHUT_WR)
        tail = b""
        try:
            while True:
                c = d.s.recv(4096)
                if not c:
                    break
                tail += c
        except OSError:
            pass
        rc, text = finish(d, rec, "message cut after %d bytes" % k, key="cut", kind="drop")
        rec.check(tail == b"", "cut", "a message cut after %d of %d bytes is answered" % (k, len(msg)), key=m)
        rec.check(rc != 0, "cut", "a message cut after %d of %d bytes: exit code 0" % (k, len(msg)), key=m)


# ----------------------------------------------------------------- Python PESs
PY = ["harmonic", "harmonic3", "DW", "DW_friction", "DW_bath", "DDW", "MorseHarmonic", "Spherical_LJ", "ase", "gas"]


def r_py(case, rng, rec):
    import contextlib
    import io

    p = case["pes"]
    nat = int(rng.choice([1, 2, 3, 6]))
    h = cell(rng, 20.0, True)
    q = rng.normal(0, 0.8, (nat, 3))
    expr = None  # independent energy
    virial = None
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if p in ("harmonic", "harmonic3"):
            from ipi.pes.harmonic import Harmonic_driver as C

            k = rng.uniform(0.1, 2, 3)
            pes = C(k[0]) if p == "harmonic" else C(*k)
            kk = k[0] if p == "harmonic" else k
            expr = lambda x: 0.5 * (kk * x**2).sum()
        elif p == "gas":
            from ipi.pes import load_pes

            pes = load_pes("gas", None)()
            expr = lambda x: 0.0
        elif p in ("DW", "DW_friction"):
            from ipi.pes.doublewell import DoubleWell_driver as C
            from ipi.pes.doublewell_with_friction import DoubleWell_with_friction_driver as CF
            from ipi.utils.units import unit_to_internal as ui

            wb, v0, m, de = rng.uniform(300, 700), rng.uniform(1000, 3000), rng.uniform(1000, 2500), rng.normal(0, 0.2)
            if p == "DW":
                pes = C(wb, v0, m, de) if rng.random() < 0.7 else C()
                if pes.delta == 0:
                    wb, v0, m, de = 500, 2085, 1837.36223469, 0
            else:
                q = q[:1]
                fr = (rng.uniform(0.5, 2), rng.normal(), rng.normal(), rng.uniform(0.5, 2))
                if rng.random() < 0.5:
                    pes = CF(wb, v0, m, de, *fr)
                else:
                    pes = CF(w_b=wb, v0=v0, m=m, delta=de, eta0=fr[0], eps1=fr[1], eps2=fr[2], deltaQ=fr[3])
            w, V = ui("frequency", "inversecm", wb), ui("frequency", "inversecm", v0)
            dl = ui("length", "angstrom", de)
            kyz = 1837.36223469 * (3800.0 / 219323.0) ** 2
            expr = lambda x: (-0.5 * m * w**2 * (x[:, 0] - dl) ** 2 + m**2 * w**4 / (16 * V) * x[:, 0] ** 4 + 0.5 * kyz * (x[:, 1] ** 2 + x[:, 2] ** 2)).sum()
        elif p in ("DW_bath", "DDW"):
            from ipi.pes.doublewell_with_bath import DoubleWell_with_explicit_bath_driver as CB
            from ipi.pes.doubledoublewell import DDW_with_explicit_bath_driver as CD

            a = [rng.uniform(300, 700), rng.uniform(1000, 3000)]
            b = [rng.uniform(1000, 2500), rng.normal(0, 0.2), rng.uniform(0.5, 2), rng.normal(), rng.normal(), rng.uniform(0.5, 2), 500.0]
            if p == "DW_bath":
                pes = CB(*a, *b)
            else:
                pes = CD(*a, rng.uniform(300, 700), rng.uniform(1000, 3000), rng.normal(0, 0.01), *b)
                q = rng.normal(0, 0.8, (2 * max(1, nat // 2), 3))
        elif p == "MorseHarmonic":
            from ipi.pes.morse import MorseHarmonic_driver as C

            pes = C(*rng.uniform(0.2, 1.5, 4)) if rng.random() < 0.6 else C()
        elif p == "Spherical_LJ":
            from ipi.pes.spherical_LJ import Spherical_LJ_driver as C
            from ipi.utils.units import unit_to_internal as ui

            sy = list(rng.choice(["O", "H", "C"], nat))
            un = str(rng.choice(["angstrom", "atomic_unit"]))
            eu = str(rng.choice(["electronvolt", "atomic_unit", "kilocal/mol"]))
            fl, fe = ui("length", un, 1.0), ui("energy", eu, 1.0)
            p1, p2 = [(9, 3), (12, 6), (10, 4)][int(rng.integers(3))]
            c, R, sg, ep = rng.normal(0, 0.3, 3), 6.0, 2.0, 0.3
            while np.linalg.norm(q - c * fl, axis=1).min() < 0.4:  # the centre is a cusp
                q = rng.normal(0, 0.8, (nat, 3))
            act = list(rng.choice(["O", "H", "C"], int(rng.integers(1, 3)), replace=False))
            ins = dict(center=list(c), radius=R, sigma=sg, epsilon=ep, center_unit=un, radius_unit=un, sigma_unit=un, epsilon_unit=eu, symbols=[str(s) for s in act], first_power=p1, second_power=p2)
            if rng.random() < 0.5:
                with open("ins.json", "w") as fh:
                    json.dump(ins, fh)
                ins_arg = "ins.json"
            else:
                ins_arg = dict(ins)
            if rng.random() < 0.5:
                with open("t.xyz", "w") as fh:
                    fh.write("%d\n\n" % nat + "".join("%s 0 0 %d\n" % (s, i) for i, s in enumerate(sy)))
                pes = C("t.xyz", ins_arg)
            else:
                pes = C(None, ins_arg, symbols=sy)
            on = np.array([s in act for s in sy])

            def expr(x):
                r = R * fl - np.linalg.norm(x[on] - c * fl, axis=1)
                sr = sg * fl / r
                return (ep * fe * (2 / 15.0 * sr**p1 - sr**p2)).sum()

        elif p == "ase":
            from ase import Atoms
            from ase.calculators.lj import LennardJones
            from ase.io import write
            from ipi.pes._ase import ASEDriver

            nat = int(rng.choice([2, 3, 6]))
            h = cell(rng, 16.0, True)
            q = fluid(rng, nat, h, 5.0)
            write("t.xyz", Atoms("Ar%d" % nat, positions=q, cell=h.T, pbc=True), format="extxyz")
            stress = rng.random() < 0.7

            class D(ASEDriver):
                def check_parameters(self):
                    super().check_parameters()
                    self.ase_calculator = LennardJones(sigma=2.6, epsilon=0.02, rc=7.0, smooth=True)

            pes = D("t.xyz", has_stress=stress)
            virial = stress
        e, f, v, x = pes(h, q)
        key = p
        rec.check(np.size(e) == 1 and np.shape(f) == q.shape and np.size(v) == 9, "py shape", "%s: energy %s, forces %s, virial %s" % (p, np.shape(e), np.shape(f), np.shape(v)), key=key)
        e0 = float(np.ravel(e)[0])
        ener = lambda y, hh=h: float(np.ravel(pes(hh, y)[0]).sum())
        sc = np.abs(f).max() + abs(e0) * 1e-3 + 1e-12
        for _ in range(4):
            u = rng.normal(size=q.shape)
            u /= np.linalg.norm(u)
            ref = -(f * u).sum()
            num = fd_best(lambda t: ener(q + t * u), ref)
            rec.check(abs(num - ref) < (1e-4 if p == "ase" else 2e-6) * sc, "py gradient", "%s: force %.10g, energy difference %.10g" % (p, -ref, -num), key=key)
        if expr is not None:
            rec.close(e0, expr(q), 1e-9, "py energy", p, key=key, atol=1e-12)
        V = np.reshape(v, (3, 3))
        if virial:
            for k in range(3):
                ep_ = np.triu(rng.normal(size=(3, 3)))
                ref = -(V * ep_).sum()
                num = fd_best(lambda t: ener(q @ (np.eye(3) + t * ep_).T, (np.eye(3) + t * ep_) @ h), ref, (1e-3, 1e-4))
                rec.check(abs(num - ref) < (1e-4 if p == "ase" else 1e-5) * (np.abs(V).max() + 1e-6), "py virial", "%s: %.9g vs %.9g" % (p, -ref, -num), key=key)
        else:
            rec.check(np.abs(V).max() < 1e-100, "py virial", p + ": virial", key=key)
        # batches give what single structures give, in order
        if p not in ("ase",):
            nb = int(rng.integers(1, 5))
            qs = [q + rng.normal(0, 0.1, q.shape) for _ in range(nb)]
            hs = [h * rng.uniform(0.9, 1.1) for _ in range(nb)]
            one = [pes(a, b) for a, b in zip(hs, qs)]
            many = pes(list(hs), list(qs))
            rec.check(len(many) == nb, "py batch", p, key=key)
            for a, b in zip(one, many):
                rec.close(np.ravel(a[0]), np.ravel(b[0]), 1e-12, "py batch", p + " energy", key=key, atol=1e-15)
                rec.close(np.ravel(a[1]), np.ravel(b[1]), 1e-12, "py batch", p + " forces", key=key, atol=1e-15)
                rec.close(np.ravel(a[2]), np.ravel(b[2]), 1e-12, "py batch", p + " virial", key=key)
                rec.check(a[3] == b[3], "py batch", p + " extras", key=key)
        if p == "DW_friction":
            s = lambda y: y * (1 + fr[1] * np.exp(-0.5 * (y / fr[3]) ** 2) + fr[2] * np.tanh(y / fr[3]))
            y = q[0, 0]
            T = np.zeros((3, 3))
            T[0, 0] = fr[0] * fd(lambda t: s(y + t), 1e-3) ** 2
            rec.close(json.loads(x)["friction"], T, 1e-7, "py friction", p, key=key, atol=1e-10)
    if p == "harmonic":
        o = [repr(float(k[0]))]
        d = driver("harm3d", o)
        e1, f1, _, _ = d.compute(q, h)
        rec.close(e1, e0, 1e-12, "py fortran", "harmonic energy", key=key)
        rec.close(f1, f, 1e-12, "py fortran", "harmonic forces", key=key)
        finish(d, rec, "harm3d", key=key)
