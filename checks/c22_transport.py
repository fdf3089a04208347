"""C22: the data exchanged with the drivers are the same whatever the transport."""
import glob
import json
import os
import threading

import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf import transport as tr
from vf.core import sub_seed

PROPERTY = "C22"
LEVEL = "tested"
TECHNIQUE = "runtime monitoring: the same run is repeated through every transport with i-PI's own driver processes (and simulated MPI ranks) while a monitor compares, bit for bit, what arrives at both ends"
NOTE = "potential evaluated by the same Python code at the far end of every transport, so results must be identical to the last bit"
RULE = "random systems, bead numbers, extras and options; reference is the in-process evaluation; every step's energies, forces, virials, extras and output files are compared"
ASSUMPTIONS = "MPI ranks are played by threads behind the communicator interface; a subset of active atoms is claimed for sockets only"
TIMEOUT = {"quick": 120, "thorough": 300}
HANG_IS_VIOLATION = True


def cases(tier, seed):
    out = []
    n = 18 if tier == "quick" else 120
    for i in range(n):
        nm = "run_%d" % i
        out.append(dict(name=nm, kind="run", i=i, cseed=sub_seed(seed, nm), nvar=3 if tier == "quick" else 6))
    for i in range(10 if tier == "quick" else 60):
        nm = "active_%d" % i
        out.append(dict(name=nm, kind="active", i=i, cseed=sub_seed(seed, nm)))
    for i in range(8 if tier == "quick" else 100):
        nm = "mpi_%d" % i
        out.append(dict(name=nm, kind="mpi", i=i, cseed=sub_seed(seed, nm)))
    for i in range(8 if tier == "quick" else 80):
        nm = "payload_%d" % i
        out.append(dict(name=nm, kind="payload", i=i, cseed=sub_seed(seed, nm)))
    return out


def run(case, rec):
    globals()["do_" + case["kind"]](case, rec)


class Log:
    """Records, after every step, what the force components hold."""

    def __init__(self, sim):
        self.sim = sim
        self.rows = []
        self.filename = "log"
        self.stride = 1

    def write(self):
        row = {"state": cg.state(self.sim)}
        for i, s in enumerate(self.sim.syslist):
            for k, fc in enumerate(s.forces.mforces):
                row["%d.%d.pots" % (i, k)] = sg.A(fc.pots)
                row["%d.%d.f" % (i, k)] = sg.A(fc.f)
                row["%d.%d.virs" % (i, k)] = sg.A(fc.virs)
                row["%d.%d.extras" % (i, k)] = json.dumps(fc.extras, sort_keys=True, default=lambda x: np.asarray(x).tolist())
        self.rows.append(row)


def execute(xml, link, sub, nsteps):
    os.mkdir(sub)
    os.chdir(sub)
    link.launch()
    sim = sg.load(xml, sockets_prefix=link.pref)
    log = Log(sim)
    for j in range(nsteps):
        sim.run_step(j) if j else None
        sim.step = j
        for o in sim.outputs:
            o.write()
        log.write()
    sim.stop()
    cg.end(sim)
    codes = link.finish()
    files = {f: open(f, errors="replace").read() for f in sorted(os.listdir(".")) if "xt" in f}
    os.chdir("..")
    return log.rows, codes, files


def left_well(codes):
    """The drivers that did the work were told to leave (a driver that came too late finds nobody)."""
    return not codes or any(c == 0 for c in codes)


def same(a, b):
    if isinstance(a, dict):
        return all(same(a[k], b.get(k)) for k in a)
    if isinstance(a, (str, int)):
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b))


def variants(rng, nb, n, natoms):
    out = []
    for _ in range(n):
        k = str(rng.choice(["unix", "inet", "shm", "shm", "direct"]))
        cons = bool(rng.random() < 0.65)
        batch = int(rng.choice([1, 2, 3])) if cons or k == "direct" else 1
        out.append(tr.Link(k, batch=batch, threaded=batch > 1 or bool(rng.random() < 0.5), ndrv=int(rng.integers(1, 4)), cons=cons if k != "direct" else True, match=str(rng.choice(["auto", "any"])), jitter=float(rng.choice([0, 0.003]))))
    return out


def do_run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    P = int(rng.integers(1, 6))
    nat = int(rng.integers(1, 6)) if rng.random() < 0.8 else int(rng.integers(20, 40))
    g = sg.geometry(rng, nat, P, p_t=0.001, triclinic=True)
    ext = str(rng.choice(["1", "raw", "uni", "big", "ragged", ""]))
    pars = dict(k=0.02, kt=0.01, per=0.002, kv=1e-4)
    if ext:
        pars["extras"] = ext
    mode = str(rng.choice(["nve", "npt"]))
    offset = float(rng.choice([0.0, 0.37]))
    pbc = bool(rng.random() < 0.5)
    baro = sg.tag("barostat", sg.tag("tau", "2000") + sg.thermostat("langevin", tau=500.0), mode="isotropic") if mode == "npt" else ""
    dyn = sg.dynamics(mode, 8.0, thermostat=sg.thermostat("pile_l", tau=300.0) if mode == "npt" else "", barostat=baro)
    ens = "<temperature units='kelvin'>300</temperature><pressure>1e-5</pressure>"
    outs = sg.tag("trajectory", "extras", filename="xt", stride=1) if ext in ("1", "raw") else ""
    seed = int(rng.integers(1, 10**6))

    def xml(link):
        link.offset, link.pbc = offset, pbc
        syst = sg.system(g, dyn, forces=sg.tag("force", "", forcefield="ff"), ensemble=ens)
        return sg.simulation([syst], [link.xml(pars)], 100, seed=seed, outputs=outs)

    n = 3
    ref = tr.Link("direct")
    base, _, bf = execute(xml(ref), ref, "ref", n)
    labs = []
    for iv, link in enumerate(variants(rng, P, case["nvar"], nat)):
        lab = link.label()
        labs.append(lab)
        rows, codes, files = execute(xml(link), link, "v%d" % iv, n)
        cfg = "%s nat=%d P=%d %s extras=%s pbc=%s" % (lab, nat, P, mode, ext, pbc)
        for j, (a, b) in enumerate(zip(base, rows)):
            bad = [k for k in a if not same(a[k], b.get(k))]
            rec.check(not bad, "bitwise", "[%s] differs from the in-process evaluation at step %d in %s: %s" % (cfg, j, bad[:4], _show(a, b, bad)), key=(lab, ext))
            if bad:
                break
        rec.check(files == bf, "extras_file", "[%s] extras files differ: %s" % (cfg, [k for k in bf if bf[k] != files.get(k)]))
        rec.check(left_well(codes), "driver_exit", "[%s] drivers ended with %s" % (cfg, codes))
    left = glob.glob("/dev/shm/ipi_shm_%d_*" % os.getpid())
    rec.check(not left, "shm", "shared memory stays behind: %s" % left[:3])
    rec.sample(dict(nat=nat, beads=P, extras=ext, transports=labs))


def _show(a, b, bad):
    if not bad:
        return ""
    k = bad[0]
    if k == "state":
        return str(cg.diff_states(a[k], b[k], 0.0)[:3])
    return "%s vs %s" % (str(a[k])[:120], str(b.get(k))[:120])


def do_active(case, rec):
    """A force field that takes care of some of the atoms only."""
    from vf import vfpes

    rng = np.random.default_rng(case["cseed"])
    P, nat = int(rng.integers(1, 4)), int(rng.integers(3, 8))
    g = sg.geometry(rng, nat, P, p_t=0.001, triclinic=True)
    act = np.sort(rng.choice(nat, int(rng.integers(1, nat)), replace=False))
    if rng.random() < 0.3:
        act = np.array(sorted(act))[::1]
    pars = dict(k=0.02, kt=0.01, per=0.002, kv=1e-4, extras="1")
    cons = bool(rng.random() < 0.6)
    link = tr.Link(str(rng.choice(["unix", "inet", "shm"])), batch=int(rng.choice([1, 2])) if cons else 1, ndrv=int(rng.integers(1, 3)), cons=cons, active=act, offset=0.5)
    whole = sg.ffdirect("all", pars=dict(k=0.0, g=0.0, kt=0.003))
    syst = sg.system(g, sg.dynamics("nve", 8.0), forces=sg.tag("force", "", forcefield="ff") + sg.tag("force", "", forcefield="all"), ensemble="<temperature>0.001</temperature>")
    rows, codes, _ = execute(sg.simulation([syst], [link.xml(pars), whole], 100, seed=3), link, "a", 3)
    p = dict(vfpes.DEFAULTS)
    p.update({k: v for k, v in pars.items() if k != "extras"})
    for j, r in enumerate(rows):
        q, h = r["state"]["s0.q"], r["state"]["s0.h"]
        for b in range(P):
            qa = q[b].reshape(-1, 3)[act]
            v, f, vir = vfpes.energy(h, qa, p)
            F = np.zeros((nat, 3))
            F[act] = f
            cfg = "%s active %s of %d, bead %d step %d" % (link.label(), list(act), nat, b, j)
            rec.close(r["0.0.pots"][b], v - 0.5, 1e-13, "active_pot", cfg)
            rec.check(np.allclose(r["0.0.f"][b].reshape(-1, 3), F, rtol=1e-12, atol=1e-14), "active_force", "[%s] forces are not those of the active atoms: %s vs %s" % (cfg, r["0.0.f"][b][:6], F.ravel()[:6]), key=(link.kind, cons))
            rec.check(np.all(r["0.0.f"][b].reshape(-1, 3)[[i for i in range(nat) if i not in act]] == 0), "inactive_zero", "[%s] atoms that are not active feel a force" % cfg)
            rec.check(np.allclose(r["0.0.virs"][b], np.triu(vir), rtol=1e-12, atol=1e-14), "active_virial", "[%s] virial" % cfg)
    rec.check(left_well(codes), "driver_exit", "drivers ended with %s" % codes)


class Comm:
    """A communicator with rank 0 (i-PI) and driver ranks played by threads."""

    def __init__(self, MPI, size):
        self.MPI, self.size = MPI, size
        self.box = {}
        self.cond = threading.Condition()
        self.me = threading.local()

    def rank(self):
        return getattr(self.me, "rank", 0)

    def Get_rank(self):
        return self.rank()

    def Get_size(self):
        return self.size

    def Send(self, msg, dest, tag=0):
        b = np.ascontiguousarray(msg[0]).tobytes()
        with self.cond:
            self.box.setdefault((self.rank(), dest), []).append((tag, b))
            self.cond.notify_all()

    def _find(self, source, tag):
        A = self.MPI.ANY_TAG
        S = self.MPI.ANY_SOURCE
        for (s, d), q in self.box.items():
            if d != self.rank() or (source != S and s != source):
                continue
            for i, (t, b) in enumerate(q):
                if tag == A or t == tag:
                    return s, i, t, b
        return None

    def Iprobe(self, source=None, tag=None, status=None):
        with self.cond:
            f = self._find(source, tag)
            if f and status is not None:
                status.fill(f)
            return f is not None

    def Probe(self, source=None, tag=None, status=None):
        with self.cond:
            while self._find(source, tag) is None:
                if not self.cond.wait(30):
                    raise RuntimeError("no message")
            f = self._find(source, tag)
            if status is not None:
                status.fill(f)

    def Recv(self, msg, source=None, tag=None, status=None):
        with self.cond:
            while self._find(source, tag) is None:
                if not self.cond.wait(30):
                    raise RuntimeError("no message")
            s, i, t, b = self._find(source, tag)
            del self.box[(s, self.rank())][i]
        a = msg[0]
        if len(b) > a.nbytes:
            raise RuntimeError("message truncated: %d bytes into %d" % (len(b), a.nbytes))
        a.view(np.uint8).reshape(-1)[: len(b)] = np.frombuffer(b, np.uint8)

    def Split(self, color=0, key=0):
        return self


class FakeStatus:
    def fill(self, f):
        self.src, _, self.tag, self.b = f

    def Get_source(self):
        return self.src

    def Get_tag(self):
        return self.tag

    def Get_count(self, typ):
        return len(self.b) // {"INT": 4, "BYTE": 1, "DOUBLE": 8}[typ]


class FakeMPI:
    ANY_TAG = -1
    ANY_SOURCE = -2
    INT, BYTE, DOUBLE = "INT", "BYTE", "DOUBLE"
    Status = FakeStatus


def do_mpi(case, rec):
    """The MPI interface against driver ranks that run i-PI's own MPI driver loop."""
    import importlib.util
    import sys
    import time
    import types

    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell
    from ipi.engine.forcefields import FFMPI
    from vf import vfpes

    rng = np.random.default_rng(case["cseed"])
    ndrv, batch = int(rng.integers(1, 4)), int(rng.choice([1, 1, 2, 3]))
    mpi = FakeMPI()
    comm = Comm(mpi, 1 + ndrv)
    mpi.COMM_WORLD = comm
    mod = types.ModuleType("mpi4py")
    mod.rc = types.SimpleNamespace(thread_level=None)
    mod.MPI = mpi
    sys.modules["mpi4py"] = mod
    sys.modules["mpi4py.MPI"] = mpi
    spec = importlib.util.spec_from_file_location("ipidriver", os.path.join(tr.REPO, "drivers/py/driver.py"))
    drv = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(drv)
    ext = str(rng.choice(["1", "raw", "uni", "big", ""]))
    pes = [vfpes.VFPES(k=0.02, kt=0.01, kv=1e-4, extras=ext, jitter=float(rng.choice([0, 0.003]))) for _ in range(ndrv)]

    class World:
        """What one driver rank sees of the world."""

        def __init__(self, r):
            self.r = r

        def __getattr__(self, k):
            f = getattr(comm, k)

            def call(*a, **kw):
                comm.me.rank = self.r
                return f(*a, **kw)

            return call

        def Split(self, color=0, key=0):
            return Group(self.r)

    class Group:
        def __init__(self, r):
            self.r = r

        def Get_rank(self):
            return 0

        def Get_size(self):
            return 1

        def Split(self, color=0, key=0):
            return self

        def allgather(self, x):
            return [x]

    dead = []

    def rank(r):
        comm.me.rank = r
        try:
            drv.run_driver_mpi(driver=pes[r - 1], comm=World(r))
        except BaseException as e:
            dead.append((r, repr(e)))

    ths = [threading.Thread(target=rank, args=(r,), daemon=True) for r in range(1, ndrv + 1)]
    for t in ths:
        t.start()
    offset = 0.25
    pbc = bool(rng.random() < 0.5)
    ff = FFMPI(name="m", offset=offset, pars={"a": 1}, dopbc=pbc, batch_size=batch)
    ff.start()
    cfg = "mpi ranks=%d batch=%d extras=%s" % (ndrv, batch, ext)
    nat = int(rng.integers(1, 9))
    p = dict(vfpes.DEFAULTS, k=0.02, kt=0.01, kv=1e-4)
    n = 0
    for rd in range(5):
        reqs = []
        for k in range(int(rng.integers(1, 9))):
            at = Atoms(nat)
            at.q[:] = rng.standard_normal(3 * nat) * 5
            ce = Cell(np.array([[9.0 + rng.random(), rng.random(), 0], [0, 10.0, rng.random()], [0, 0, 11.0]]))
            reqs.append(ff.queue(at, ce, reqid=k))
        for r in reqs:
            ok = r._event_done.wait(40)
            if not rec.check(ok, "mpi_answered", "[%s] request not answered; ranks that died: %s" % (cfg, dead)):
                return
            v, f, vir = vfpes.energy(r["cell"][0], r["pos"], p)
            ex = vfpes.VFPES(k=0.02, kt=0.01, kv=1e-4, extras=ext).compute_structure(r["cell"][0], r["pos"].reshape(-1, 3))[3]
            res = r["result"]
            ok = res[0] == v - offset and np.array_equal(res[1], f.ravel()) and np.array_equal(res[2], vir)
            rec.check(ok, "mpi_value", "[%s] result differs from the evaluation of that structure: %s vs %s" % (cfg, res[0], v - offset), key=(ndrv, batch, ext))
            rec.check(res[3].get("raw", "") == ex, "mpi_extras", "[%s] extras %s vs %s" % (cfg, str(res[3])[:80], ex[:80]))
            n += 1
        for r in reqs:
            ff.release(r)
    ff.stop()
    for t in ths:
        t.join(10)
        rec.check(not t.is_alive(), "mpi_exit", "[%s] a driver rank was not told to exit" % cfg)
    rec.check(not dead, "mpi_alive", "[%s] driver rank failed: %s" % (cfg, dead))
    rec.sample(dict(config=cfg, requests=n))


def do_payload(case, rec):
    """Sizes and strings over the wire, with an independent client."""
    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell
    from ipi.engine.forcefields import FFSocket
    from ipi.interfaces import sockets as S
    from vf.client import Client

    rng = np.random.default_rng(case["cseed"])
    mode = str(rng.choice(["unix", "inet", "shm"]))
    cons = bool(rng.random() < 0.6)
    batch = int(rng.choice([1, 2, 4])) if cons else 1
    nat = int(rng.choice([1, 2, 17, 300, 3000, 20000])) if batch == 1 else int(rng.choice([1, 5, 200]))
    link = tr.Link(mode)
    store = {}

    def energy(cell, pos):
        i = int(round(pos[0, 0] * 1000))
        return store[i]

    texts = ["", " ", "plain text", "{}", json.dumps({"a": [1, 2.5, 3], "nested": {"b": [[1, 2], [3, 4]]}}), "x" * 70000, json.dumps({"u": "\u00e9\u4e2d\U0001f600"}, ensure_ascii=False), "not { json", "1.0 2.0\n3.0 4.0\n", json.dumps(list(range(3))) if False else "[1"]
    inter = S.InterfaceSocket(address=link.addr, port=link.port, mode=mode, timeout=0.0, match_mode="any", sockets_prefix=link.pref, consolidate_messages=cons, batch_size=batch)
    ff = FFSocket(name="ff", pars={"x": 2}, dopbc=False, interface=inter)
    ff.start()
    cl = [Client(link.addr, energy, mode="inet" if mode == "inet" else "unix", port=link.port, prefix=link.pref, shm=mode == "shm", frag=int(rng.choice([0, 0, 1000]))) for _ in range(int(rng.integers(1, 3)))]
    for c in cl:
        c.start()
    idx = 0
    cfg = "%s %s batch=%d nat=%d" % (mode, "consolidated" if cons else "split", batch, nat)
    for rd in range(4):
        reqs = []
        for _ in range(int(rng.integers(1, 6))):
            idx += 1
            at = Atoms(nat)
            at.q[:] = rng.standard_normal(3 * nat)
            at.q[0] = idx / 1000.0
            # values of every magnitude, including signed zeros and subnormals
            f = rng.standard_normal((nat, 3)) * 10.0 ** rng.integers(-300, 300)
            f.flat[int(rng.integers(f.size))] = float(rng.choice([-0.0, 5e-324, 1.7e308, np.inf, np.nan]))
            store[idx] = (float(rng.standard_normal() * 10.0 ** rng.integers(-200, 200)), f, rng.standard_normal((3, 3)), texts[int(rng.integers(len(texts)))])
            reqs.append((ff.queue(at, Cell(np.diag([9.0, 10, 11])), reqid=idx), idx))
        for r, i in reqs:
            if not rec.check(r._event_done.wait(60), "payload_answered", "[%s] request not answered; clients: %s" % (cfg, [c.error for c in cl])):
                return
            v, f, vir, ex = store[i]
            res = r["result"]
            ok = res[0] == v and np.asarray(res[1], float).tobytes() == f.tobytes() and np.asarray(res[2], float).tobytes() == vir.tobytes()
            rec.check(ok, "payload", "[%s] data changed on the way" % cfg, key=(mode, cons, batch, nat))
            try:
                want = json.loads(ex) if ex.strip() else {}
            except ValueError:
                want = {}
            if ex.strip():
                want["raw"] = ex
            rec.check(res[3] == want, "payload_extras", "[%s] extras %r, expected %r" % (cfg, str(res[3])[:100], str(want)[:100]))
            ff.release(r)
    for c in cl:
        for rid, pars in c.inits:
            rec.check(b"x : 2" in pars, "init_pars", "[%s] parameters in INIT: %r" % (cfg, pars))
    ff.stop()
    rec.sample(dict(config=cfg, requests=idx))
