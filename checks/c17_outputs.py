"""C17: outputs hold exactly the scheduled records."""
import glob
import os
import re
import time
import xml.etree.ElementTree as ET

import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C17"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: files on disk against a log of the states recorded after every step, online (while the run goes on) and offline, over histories of interrupted and continued runs"
NOTE = "Random sets of property, trajectory and checkpoint outputs (strides, units, selections, formats, flushing, prefixes, several systems, threads with injected delays) are written by real runs that end by step count, EXIT file or wall time and are continued from RESTART; every record, header and file name is decided, as well as the backups of files that were already there."
RULE = "each evaluation is one record, header, file set or checkpoint compared with the recorded history; distinct counts (output kind, selection, stride relation, threading, number of segments)"
ASSUMPTIONS = ["continuation is from the RESTART file of the run that ended", "frames are parsed for xyz, extended xyz and pdb; other formats are decided by C13"]
REQUIRE = {"record": 500, "header": 50, "frame": 300, "schedule": 200, "checkpoint": 100, "backup": 40, "online": 300, "names": 50, "extras": 20}
TIMEOUT = {"quick": 200, "thorough": 300}

EV, ANG, FS = 27.211386, 0.52917721, 0.024188843  # per atomic unit


def cases(tier, seed):
    n = 130 if tier == "quick" else 1500
    return [dict(name="hist_%d" % i, cseed=sub_seed(seed, "c17", i)) for i in range(n)]


# ------------------------------------------------------------------ generation
def prop_menu(rng, P, N):
    i, b = int(rng.integers(N)), int(rng.integers(P))
    m = [
        ("time", "time{picosecond}", FS / 1000, 1),
        ("time", "time", 1, 1),
        ("potential", "potential{electronvolt}", EV, 1),
        ("potential(bead=%d)" % b, "potential(bead=%d)" % b, 1, 1),
        ("kinetic_md", "kinetic_md", 1, 1),
        ("conserved", "conserved", 1, 1),
        ("temperature", "temperature{kelvin}", 1 / sg.KELVIN, 1),
        ("volume", "volume", 1, 1),
        ("cell_h", "cell_h{angstrom}", ANG, 6),
        ("atom_x(%d;%d)" % (i, b), "atom_x(%d;%d)" % (i, b), 1, 3),
        ("atom_x(atom=%d)" % i, "atom_x(atom=%d){angstrom}" % i, ANG, 3),
        ("atom_x_path(%d)" % i, "atom_x_path(%d)" % i, 1, 3 * P),
        ("atom_f_path(%d)" % i, "atom_f_path(%d)" % i, 1, 3 * P),
        ("bead_potentials", "bead_potentials", 1, P),
        ("stress_md", "stress_md", 1, 6),
        ("kinetic_cv(H)", "kinetic_cv(H)", 1, 1),
        ("vcom", "vcom", 1, 3),
        ("atom_p(%d)" % i, "atom_p(%d)" % i, 1, 3),
        ("kinetic_tens", "kinetic_tens", 1, 6),
        ("scaledcoords(0.001)", "scaledcoords(0.001)", 1, 2),
        ("isotope_tdfep(2.0;%d)" % i, "isotope_tdfep(2.0;%d)" % i, 1, 7),
        ("isotope_zetatd(2.0)", "isotope_zetatd(2.0)", 1, 3),
        ("spring", "spring", 1, 1),
        ("forcemod(bead=0)", "forcemod(bead=0)", 1, 1),
        ("virial_fq", "virial_fq", 1, 1),
        ("displacedpath(0.1;0;0)", "displacedpath(0.1;0;0)", 1, 1),
    ]
    k = int(rng.integers(1, 7))
    pick = [m[j] for j in rng.choice(len(m), k, replace=False)]
    if rng.random() < 0.8:
        pick.insert(int(rng.integers(len(pick) + 1)), ("step", "step", 1, 1))
    return pick


PERBEAD = {"positions": ANG, "velocities": None, "momenta": None, "forces": None}
GLOBAL = ["x_centroid", "f_centroid", "kinetic_cv", "r_gyration", "p_centroid"]


def stride(rng, n):
    return int(rng.choice([1, 1, 2, 3, 4, 5, 7, n, n + 3]))


def rand_outputs(rng, P, N, n):
    out, xml, used = [], "", set()
    extras = False

    def fname(base):
        f = base
        while f in used:
            f += "x"
        used.add(f)
        return f

    for _ in range(int(rng.integers(1, 4))):
        pick = prop_menu(rng, P, N)
        o = dict(kind="prop", fn=fname("out"), stride=stride(rng, n), props=pick, flush=int(rng.choice([1, 1, 1, 2, 0])))
        sep = str(rng.choice([", ", ",", " , ", ",\n"]))
        at = dict(filename=o["fn"], stride=o["stride"])
        if o["flush"] != 1:
            at["flush"] = o["flush"]
        if rng.random() < 0.2:
            at["verbosity"] = "high"
            o["high"] = True
        xml += sg.tag("properties", " [ " + sep.join(p[1] for p in pick) + " ] ", **at)
        out.append(o)
    for _ in range(int(rng.integers(0, 4))):
        r = rng.random()
        o = dict(kind="traj", fn=fname(str(rng.choice(["pos", "traj", "t"]))), stride=stride(rng, n), format=str(rng.choice(["xyz", "xyz", "ase", "pdb"])), flush=int(rng.choice([1, 1, 2, 0])), bead=-1, unit="")
        at = dict(filename=o["fn"], stride=o["stride"], format=o["format"])
        if r < 0.6:
            o["what"] = str(rng.choice(list(PERBEAD)))
            if o["format"] == "pdb":
                o["what"] = "positions"
            if P > 1 and rng.random() < 0.5:
                o["bead"] = int(rng.choice([0, P - 1, -2, -3]))
                at["bead"] = o["bead"]
            o["per"] = True
        elif r < 0.85:
            o["what"] = str(rng.choice(GLOBAL))
            if o["format"] == "pdb":
                o["what"] = "x_centroid"
            o["per"] = False
        else:
            extras = True
            o["what"], o["per"], o["format"] = "extras", True, "txt"
            at.pop("format")
            o["extra"] = "dipole"
            at["extra_type"] = "dipole"
            if P > 1 and rng.random() < 0.5:
                o["bead"] = at["bead"] = int(rng.integers(P))
        w = o["what"]
        if w in ("positions", "x_centroid") and o["format"] == "xyz" and rng.random() < 0.5:
            o["unit"] = "angstrom"
            w += "{angstrom}"
        if o["flush"] != 1:
            at["flush"] = o["flush"]
        xml += sg.tag("trajectory", w, **at)
        out.append(o)
    for _ in range(int(rng.integers(0, 3))):
        o = dict(kind="chk", fn=fname("chk"), stride=stride(rng, n), overwrite=bool(rng.random() < 0.5))
        xml += sg.tag("checkpoint", "", filename=o["fn"], stride=o["stride"], overwrite=o["overwrite"])
        out.append(o)
    return out, xml, extras


# ------------------------------------------------------------------ monitor
class Log:
    """States and property values at each step, recorded from the live objects."""

    def __init__(self, outs):
        self.outs, self.at = outs, {}
        self.names = sorted({p[0] for o in outs if o["kind"] == "prop" for p in o["props"]} - {"step"})
        self.trajs = sorted({o["what"] for o in outs if o["kind"] == "traj" and o["what"] != "extras"})

    def add(self, sim, step):
        rec = []
        for s in sim.syslist:
            d = dict(q=sg.A(s.beads.q), p=sg.A(s.beads.p), h=sg.A(s.cell.h), names=[str(x) for x in s.beads.names], m=sg.A(s.beads.m), time=float(s.ensemble.time))
            d["props"] = {n: np.atleast_1d(np.array(s.properties[n][0], float)).copy() for n in self.names}
            d["trajs"] = {n: np.array(sg.A(s.trajs[n][0]), float).copy() for n in self.trajs}
            rec.append(d)
        self.at[step] = rec


def delays(sim, rng):
    """Slows reads from the outputs down, so that the writing threads interleave."""
    r = np.random.default_rng(int(rng.integers(1 << 30)))

    def wrap(o):
        w = o.write

        def slow(*a, **k):
            if o.active():
                time.sleep(float(r.random()) * 0.004)
            return w(*a, **k)

        o.write = slow

    for o in sim.outputs:
        wrap(o)


def run(case, rec):
    rng = np.random.default_rng(case["cseed"])
    nsys = int(rng.choice([1, 1, 1, 2, 3]))
    specs = []
    P = int(rng.choice([1, 1, 2, 3, 4, 11]))
    N = int(rng.integers(1, 4))
    for i in range(nsys):
        sp = cg.rand_spec(rng, modes=("nve", "nvt", "npt"), thermos=["langevin"], nbeads=P, natoms=N, cellthermo=False)
        specs.append(sp)
    total = int(rng.integers(4, 16))
    outs, oxml, extras = rand_outputs(rng, P, N, total)
    thr = bool(rng.random() < 0.5)
    prefix = str(rng.choice(["sim", "run.1", "", "sub/sim"]))
    if prefix.startswith("sub"):
        os.mkdir("sub")
    same = bool(rng.random() < 0.5)
    spfx = [""] if nsys == 1 and same else ["s%d" % i if rng.random() < 0.9 else "long-name_%d" % i for i in range(nsys)]
    if nsys > 1 and prefix.startswith("sub"):
        prefix = "sim"
    if spfx[0] and prefix.startswith("sub"):
        spfx = [""]
    ffs, systems = [], []
    for i, sp in enumerate(specs):
        ffs += cg.ff_xml(sp, pref="ff%d" % i, pes_extra=dict(extras="y") if extras else None)
        g = cg.geom(sp)
        g["names"] = ["C" if x == "D" else x for x in g["names"]]
        systems.append(cg.system_xml(sp, pref="ff%d" % i, prefix=spfx[i] or None, g=g))
    xml = sg.simulation(systems, ffs, total, seed=int(rng.integers(1, 1 << 20)), outputs=oxml, threading=thr, prefix=prefix)
    xml = xml.replace("<simulation ", "<simulation floatformat='%24.16e' ", 1)
    # histories: where each segment ends, and how
    nseg = int(rng.choice([1, 1, 2, 2, 3]))
    cuts = sorted(set(int(x) for x in rng.integers(1, total, nseg - 1))) + [total] if nseg > 1 else [total]
    lab = "P=%d nsys=%d thr=%s prefix=%r cuts=%s %s" % (P, nsys, thr, prefix, cuts, [(o["kind"], o["fn"], o["stride"]) for o in outs])
    rec.sample(dict(case=case["name"], what=lab))
    log = Log(outs)
    exp = Expect(outs, prefix, spfx, P)
    old = plant(rng, exp)
    begun = None
    for k, cut in enumerate(cuts):
        how = str(rng.choice(["steps", "exit"])) if cut < total else str(rng.choice(["steps", "steps", "exit"]))
        if k:
            xml = open("RESTART").read()
        xml = re.sub(r"<total_steps>.*?</total_steps>", "<total_steps>%d</total_steps>" % (cut if how == "steps" else total + 5), xml)
        sim = sg.load(xml)
        rec.check(int(sim.step) == (0 if k == 0 else cuts[k - 1]), "schedule", "%s: segment %d starts at step %s" % (lab, k, sim.step), ("start", k > 0, how))
        if k == 0:
            log.add(sim, 0)
        if thr:
            delays(sim, rng)
        monitor(sim, log, exp, rec, lab, how, cut, thr, k)
        sim.run()
        if os.path.exists("EXIT"):
            os.remove("EXIT")
        sg.shutdown(sim)
    decide(rec, lab, log, exp, outs, total, P, nsys, thr, len(cuts), old, specs)


class Expect:
    def __init__(self, outs, prefix, spfx, P):
        self.P, self.spfx = P, spfx
        self.files = []  # (output, isys, bead or None, filename)
        pre = prefix + "." if prefix else ""
        w = len(str(P))
        for o in outs:
            base = pre + o["fn"]
            if o["kind"] == "chk":
                self.files.append((o, None, None, base))
                continue
            for i, sp in enumerate(spfx):
                f = (sp + "_" if sp else "") + base
                if o["kind"] == "prop":
                    self.files.append((o, i, None, f))
                    continue
                ext = "" if o["format"] == "txt" else "." + ("extxyz" if o["format"] == "ase" else o["format"])
                if not o["per"]:
                    self.files.append((o, i, None, f + ext))
                    continue
                for b in range(P):
                    if (o["bead"] < 0 and b % -o["bead"] == 0) or o["bead"] == b:
                        self.files.append((o, i, b, f + "_" + str(b).zfill(w) + ext))


def plant(rng, exp):
    """Files of an earlier run, in a part of the cases."""
    old = {}
    if rng.random() < 0.6:
        for o, i, b, f in exp.files:
            if rng.random() < 0.6:
                fn = f + ("_1" if o["kind"] == "chk" and not o["overwrite"] else "")
                old[fn] = ["old contents of %s %d\n" % (fn, int(rng.integers(1000)))]
                d, base = os.path.split(fn)
                for j in range(int(rng.choice([0, 0, 1, 2]))):
                    c = "backup %d of %s\n" % (j, fn)
                    open(os.path.join(d, "#%s#%d#" % (base, j)), "w").write(c)
                    old[fn].append(c)
                open(fn, "w").write(old[fn][0])
        if rng.random() < 0.5:
            open("RESTART", "w").write("old restart\n")
            old["RESTART"] = ["old restart\n"]
    return old


def nrec(o, upto):
    return upto // o["stride"] + 1


def count(o, f):
    """Complete records on disk."""
    t = open(f).read()
    if o["kind"] == "prop":
        return sum(1 for l in t.split("\n")[:-1] if l.strip() and not l.lstrip().startswith("#"))
    if o["format"] == "txt":
        return t.count("Step:") if t.endswith("\n") else -1
    return t.count("Step:")


def monitor(sim, log, exp, rec, lab, how, cut, thr, seg):
    real = sim.run_step

    def run_step(step):
        # everything scheduled so far must be on disk already
        for o, i, b, f in exp.files:
            if o["kind"] == "chk" or o["flush"] != 1:
                continue
            n = count(o, f) if os.path.exists(f) else -1
            rec.check(n == nrec(o, step), "online", "%s: before step %d, %s holds %d records on disk instead of %d" % (lab, step, f, n, nrec(o, step)), (o["kind"], thr, seg > 0))
        real(step)
        log.add(sim, step + 1)
        if how == "exit" and step + 1 == cut:
            open("EXIT", "w").close()

    sim.run_step = run_step


def parse_xyz(t, nat):
    lines = t.split("\n")
    out, k = [], 0
    while k < len(lines) and lines[k].strip():
        n = int(lines[k])
        body = [l.split() for l in lines[k + 2 : k + 2 + n]]
        if len(body) != n:
            raise ValueError("truncated frame")
        out.append((lines[k + 1], [b[0] for b in body], np.array([[float(x) for x in b[1:4]] for b in body])))
        k += n + 2
    if any(l.strip() for l in lines[k:]):
        raise ValueError("trailing text")
    return out


def parse_pdb(t, nat):
    out, title, names, xs = [], None, [], []
    for l in t.split("\n"):
        if l.startswith("TITLE"):
            title = l
        elif l.startswith("ATOM"):
            names.append(l[12:16].strip())
            xs.append([float(l[30:38]), float(l[38:46]), float(l[46:54])])
        elif l.startswith("END"):
            out.append((title, names, np.array(xs)))
            title, names, xs = None, [], []
    if names or title:
        raise ValueError("truncated frame")
    return out


def decide(rec, lab, log, exp, outs, total, P, nsys, thr, nseg, old, specs):
    steps = sorted(log.at)
    rec.check(steps == list(range(total + 1)), "schedule", "%s: steps taken: %s" % (lab, steps), ("steps", nseg))
    want = {f for o, i, b, f in exp.files if o["kind"] != "chk"}
    for o, isys, bead, f in exp.files:
        key = (o["kind"], o.get("what", ""), bool(bead), thr, nseg, (o["stride"] > 1) + (o["stride"] > total))
        sched = list(range(0, total + 1, o["stride"]))
        if o["kind"] == "chk":
            checkpoints(rec, lab, log, o, f, sched, key, want)
            continue
        if not os.path.exists(f):
            rec.check(False, "names", "%s: %s was not written" % (lab, f), key)
            continue
        rec.ok("names", key)
        t = open(f).read()
        if o["kind"] == "prop":
            props(rec, lab, log, o, isys, f, t, sched, key)
        elif o["format"] == "txt":
            fr = re.findall(r" #EXTRAS\(dipole\)# Step: +(\d+) *\n(.*)\n", t)
            rec.check([int(a) for a, _ in fr] == sched and t.count("\n") == 2 * len(sched), "schedule", "%s: %s has records for the steps %s" % (lab, f, [a for a, _ in fr]), key)
            for a, body in fr:
                d = log.at.get(int(a))
                if d:
                    q = d[isys]["q"][bead].reshape(-1, 3)
                    rec.close([float(x) for x in body.split()], np.sum(q * np.arange(1, len(q) + 1)[:, None], axis=0), 1e-8, "extras", "%s: %s step %s" % (lab, f, a), key)
        else:
            traj(rec, lab, log, o, isys, bead, f, t, sched, key)
    # nothing else was written
    allf = set()
    for d, _, fs in os.walk("."):
        allf |= {os.path.normpath(os.path.join(d, x)) for x in fs}
    extra = {x for x in allf if not os.path.basename(x).startswith("#")} - want - {"RESTART", "_stdout"} - set(old)
    rec.check(not extra, "names", "%s: unexpected files %s" % (lab, sorted(extra)), ("extra", nsys, bool(exp.spfx[0])))
    # backups
    for fn, c in old.items():
        d, base = os.path.split(fn)
        bk = sorted(glob.glob(os.path.join(d, "#%s#*#" % glob.escape(base))))
        have = [open(x).read() for x in bk]
        lost = [x for x in c if have.count(x) != 1]
        if os.path.exists(fn) and fn in {f for *_, f in exp.files} | {"RESTART"}:
            rec.check("old" not in open(fn).read()[:12], "backup", "%s: %s still starts with the contents of the earlier run" % (lab, fn), ("mixed", nseg))
        elif not os.path.exists(fn) or open(fn).read() == c[0]:
            continue  # a numbered checkpoint that was never reached
        rec.check(not lost, "backup", "%s: earlier contents of %s were lost: %s, backups: %s" % (lab, fn, lost, bk), ("kept", len(c), nseg, fn == "RESTART", d != ""))


def props(rec, lab, log, o, isys, f, t, sched, key):
    lines = t.split("\n")
    rec.check(lines[-1] == "", "record", "%s: %s ends in the middle of a line" % (lab, f), key)
    head = [l for l in lines if l.startswith("# ")]
    body = [l for l in lines[:-1] if l.strip() and not l.lstrip().startswith("#")]
    first = next((i for i, l in enumerate(lines) if l.strip() and not l.startswith("#")), 0)
    rec.check(not any(l.startswith("#") for l in lines[first:]), "header", "%s: %s has header lines between the records" % (lab, f), key)
    # header: names in the order asked for, with the right column numbers
    col, good, names = 1, True, []
    for l, p in zip(head, o["props"]):
        m = re.match(r"# +(?:column +(\d+)|cols\. +(\d+)- *(\d+)) *--> (.*?) *:", l)
        if not m:
            good = False
            break
        a, b = (int(m[1]), int(m[1])) if m[1] else (int(m[2]), int(m[3]))
        good &= a == col and b == col + p[3] - 1 and m[4].strip() == p[1]
        col = b + 1
    rec.check(good and len(head) == len(o["props"]), "header", "%s: header of %s does not describe %s: %s" % (lab, f, [p[1] for p in o["props"]], head), (tuple(sorted(p[0].split("(")[0] for p in o["props"]))[:2], o.get("high")))
    if len(body) != len(sched):
        rec.check(False, "schedule", "%s: %s has %d records instead of %d" % (lab, f, len(body), len(sched)), key)
        return
    rec.ok("schedule", key)
    for l, s in zip(body, sched):
        row = [float(x) for x in l.split()]
        d = log.at[s][isys]
        want = []
        for n, full, fac, size in o["props"]:
            if n == "step":
                want += [s]
            else:
                v = d["props"][n]
                if n.split("(")[0] == "atom_x" and ";" in n:
                    i, b = (int(x) for x in n[7:-1].split(";"))
                    v = d["q"][b, 3 * i : 3 * i + 3]
                elif n == "time":
                    v = [d["time"]]
                want += list(np.asarray(v) * fac)
        if len(row) != len(want):
            rec.check(False, "record", "%s: %s step %d has %d columns instead of %d" % (lab, f, s, len(row), len(want)), key)
            continue
        row, want = np.array(row), np.array(want)
        bad = np.abs(row - want) > 3e-7 * np.abs(want) + 1e-11
        rec.check(not bad.any(), "record", "%s: %s step %d differs from the state of that step: %s instead of %s" % (lab, f, s, row[bad][:3], want[bad][:3]), key)


def traj(rec, lab, log, o, isys, bead, f, t, sched, key):
    nat = len(log.at[0][isys]["m"])
    try:
        fr = parse_pdb(t, nat) if o["format"] == "pdb" else parse_xyz(t, nat)
    except Exception as e:
        rec.check(False, "frame", "%s: %s is not a sequence of complete frames: %r" % (lab, f, e), key)
        return
    st = []
    for title, *_ in fr:
        m2 = re.search(r"[Ss]tep[:=] *(\d+)", title or "")
        st.append(int(m2[1]) if m2 else None)
        mb = re.search(r"[Bb]ead[:=] *(\d+)", title or "")
        if mb and not int(mb[1]) == (bead or 0):
            st[-1] = "bead %s" % mb[1]
    rec.check(st == sched, "schedule", "%s: %s has frames for the steps %s instead of %s" % (lab, f, st, sched), key)
    if st != sched:
        return
    for (title, names, x), s in zip(fr, sched):
        d = log.at[s][isys]
        w = d["trajs"][o["what"]]
        if o["what"] == "positions":
            w = d["q"]
        w = w[bead] if bead is not None else w
        w = w.reshape(-1, 3)
        unit = o["unit"]
        if o["format"] == "ase" or o["format"] == "pdb":
            unit = "angstrom"
        if o["format"] == "ase" and o["what"] != "positions":
            # other quantities of extended xyz files are written with units of their own (C13): compare the pattern
            a, b = x.ravel(), w.ravel()
            n = np.abs(a).max() * np.abs(b).max()
            ok = np.allclose(np.outer(a, b), np.outer(b, a), atol=1e-5 * n + 1e-16) or not np.abs(b).max() > 1e-12
            rec.check(names == d["names"] and ok, "frame", "%s: %s step %d is not proportional to the state of that step" % (lab, f, s), key)
            continue
        w = w * (ANG if unit == "angstrom" else 1.0)
        rec.check(names == d["names"] and np.all(np.abs(x - w) <= 1e-5 * np.abs(w).max() + (6e-4 if o["format"] == "pdb" else 1e-9)), "frame", "%s: %s step %d is not the state of that step" % (lab, f, s), key)


def checkpoints(rec, lab, log, o, f, sched, key, want):
    if o["overwrite"]:
        files = {f: sched[-1]}
    else:
        files = {"%s_%d" % (f, k): s for k, s in enumerate(sched)}
    want |= set(files)
    for fn, s in files.items():
        if not os.path.exists(fn):
            rec.check(False, "checkpoint", "%s: %s (step %d) was not written" % (lab, fn, s), key)
            continue
        try:
            r = ET.fromstring(open(fn).read())
            got = int(r.find("step").text) if r.find("step") is not None else 0
            q = []
            for sysx in r.findall("system"):
                e = sysx.find("beads").find("q")
                q.append(np.array([float(x) for x in e.text.replace("[", " ").replace("]", " ").replace(",", " ").split()]))
        except Exception as e:
            rec.check(False, "checkpoint", "%s: %s is not readable: %r" % (lab, fn, e), key)
            continue
        ok = got == s and all(np.allclose(a, d["q"].ravel(), rtol=1e-6, atol=1e-8) for a, d in zip(q, log.at[s]))
        rec.check(ok, "checkpoint", "%s: %s holds step %s instead of %d, or another state" % (lab, fn, got, s), key)
