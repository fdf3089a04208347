"""Runner shared by every check.

A check is a module in /verif/checks with

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    def cases(tier, seed): -> list of JSON-able dicts (each with "name")
    def run(case, rec):    -> drives the real code under its monitors

Every case runs in its own forked process, in its own scratch directory, with
the repository imported from /repo's working tree.  ``rec`` collects what the
monitors saw: ``rec.ok(kind, key)`` for one monitor evaluation that held,
``rec.check(cond, kind, key, msg)`` for one that may not hold.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")

for _k, _v in (
    ("OMP_NUM_THREADS", "1"),
    ("OPENBLAS_NUM_THREADS", "1"),
    ("PYTHONDONTWRITEBYTECODE", "1"),
    ("IPI_ROOT", REPO),
):
    os.environ[_k] = _v
os.environ["PATH"] = REPO + "/bin:/opt/venv/bin:" + os.environ.get("PATH", "")
os.environ["PYTHONPATH"] = REPO
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

MAXV = 40


class Inconclusive(Exception):
    """The case could not be decided (not a verdict on the code)."""


class Recorder:
    def __init__(self, case):
        self.case = case
        self.counts = Counter()
        self.sigs = set()
        self.violations = []
        self.samples = []
        self.notes = []

    def ok(self, kind, key=None, n=1):
        self.counts[kind] += n
        if key is not None:
            self.sigs.add(str(key))

    def fail(self, kind, msg, key=None, **detail):
        self.counts[kind] += 1
        if len(self.violations) < MAXV:
            self.violations.append(
                {"kind": kind, "msg": str(msg)[:1500], "detail": _jsonable(detail)}
            )
        if key is not None:
            self.sigs.add(str(key))

    def check(self, cond, kind, msg="", key=None, **detail):
        if cond:
            self.ok(kind, key)
        else:
            self.fail(kind, msg, key, **detail)
        return bool(cond)

    def close(self, a, b, tol, kind, msg="", key=None, atol=0.0, **detail):
        """|a-b| <= tol*scale + atol, elementwise against the largest magnitude;
        non-finite values never pass."""
        import numpy as np

        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            if a.size == b.size:
                a = a.reshape(b.shape)
            else:
                self.fail(kind, "%s: shapes %s vs %s" % (msg, a.shape, b.shape), key, **detail)
                return False
        if a.size == 0:
            self.ok(kind, key)
            return True
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
        d = np.max(np.abs(a - b))
        good = np.isfinite(d) and np.isfinite(scale) and d <= tol * scale + atol
        if good:
            self.ok(kind, key)
        else:
            self.fail(
                kind,
                "%s: max|diff|=%.3e scale=%.3e tol=%.1e" % (msg, d, scale, tol),
                key,
                got=a.ravel()[:6].tolist(),
                want=b.ravel()[:6].tolist(),
                **detail,
            )
        return bool(good)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(_jsonable(obj))

    def note(self, s):
        if len(self.notes) < 20:
            self.notes.append(str(s)[:300])


def _jsonable(o):
    try:
        json.dumps(o)
        return o
    except (TypeError, ValueError):
        if isinstance(o, dict):
            return {str(k): _jsonable(v) for k, v in o.items()}
        if isinstance(o, (list, tuple, set)):
            return [_jsonable(v) for v in o]
        return repr(o)[:400]


def sub_seed(*parts):
    h = hashlib.sha256(("|".join(str(p) for p in parts)).encode()).hexdigest()
    return int(h[:8], 16) & 0x7FFFFFFF


def _child(mod, case, wdir, wfd):
    os.setpgid(0, 0)
    os.chdir(wdir)
    out = os.open(os.path.join(wdir, "_stdout"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(out, 1)
    os.dup2(out, 2)
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    rec = Recorder(case)
    res = {}
    try:
        mod.run(case, rec)
    except Inconclusive as e:
        res["inconclusive"] = str(e)
    except BaseException:
        tb = traceback.format_exc()
        rec.fail("exception", tb.strip().splitlines()[-1], trace=tb[-3000:])
    sys.stdout.flush()
    sys.stderr.flush()
    res.update(
        counts=dict(rec.counts),
        sigs=sorted(rec.sigs),
        violations=rec.violations,
        samples=rec.samples,
        notes=rec.notes,
    )
    data = json.dumps(res).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def _run_cases(mod, cases, nproc, timeout, verbose):
    """Forks one process per case, at most nproc at a time; yields (case, result)."""
    import select

    base = tempfile.mkdtemp(prefix="vf_%s_" % mod.PROPERTY)
    pending = deque(enumerate(cases))
    live = {}
    nretry = Counter()
    try:
        while pending or live:
            while pending and len(live) < nproc:
                i, case = pending.popleft()
                wdir = os.path.join(base, "c%d_%d" % (i, nretry[i]))
                os.makedirs(wdir)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for (_, (rr, *_rest)) in live.items():
                        os.close(rr)
                    try:
                        _child(mod, case, wdir, w)
                    finally:
                        os._exit(97)
                os.close(w)
                live[pid] = (r, i, case, wdir, time.time(), [])
            fds = {v[0]: p for p, v in live.items()}
            ready, _, _ = select.select(list(fds), [], [], 0.5)
            done = []
            for fd in ready:
                p = fds[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    live[p][5].append(chunk)
                else:
                    done.append((p, None))
            now = time.time()
            for p, v in list(live.items()):
                tmo = v[2].get("timeout", timeout)
                if now - v[4] > tmo and p not in [d[0] for d in done]:
                    done.append((p, "timeout"))
            for p, why in done:
                r, i, case, wdir, t0, chunks = live.pop(p)
                if why == "timeout":
                    # leave a python stack trace of the hang behind, if we can
                    try:
                        os.kill(p, signal.SIGUSR1)
                        time.sleep(0.3)
                    except OSError:
                        pass
                os.close(r)
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                try:
                    os.waitpid(p, 0)
                except OSError:
                    pass
                data = b"".join(chunks)
                res = None
                if data:
                    try:
                        res = json.loads(data)
                    except ValueError:
                        res = None
                if res is None:
                    tail = ""
                    try:
                        with open(os.path.join(wdir, "_stdout"), errors="replace") as f:
                            tail = f.read()[-3000:]
                    except OSError:
                        pass
                    res = {"dead": why or "process died", "tail": tail}
                res["wall"] = time.time() - t0
                if ("dead" in res or "inconclusive" in res) and nretry[i] < 1:
                    nretry[i] += 1
                    case = dict(case)
                    pending.appendleft((i, case))
                else:
                    yield i, case, res
                shutil.rmtree(wdir, ignore_errors=True)
    finally:
        for p, v in live.items():
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            d = json.load(f)
    except OSError:
        return []
    return [k for k in d.get("known", []) if k["property"] == prop]


def _matches(known, case, v):
    m = known["match"]
    if "case" in m and m["case"] not in case["name"]:
        return False
    if "kind" in m and m["kind"] != v["kind"]:
        return False
    if "msg" in m and m["msg"] not in v["msg"]:
        return False
    return True


def main(argv=None):
    import argparse
    import faulthandler

    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default=None, help="run only cases whose name contains this")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--nproc", type=int, default=int(os.environ.get("VF_NPROC", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)

    sys.path.insert(0, VERIF)
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    t0 = time.time()
    mod = importlib.import_module("checks." + a.check)
    prop = mod.PROPERTY
    import ipi

    if not os.path.abspath(ipi.__file__).startswith(os.path.abspath(REPO) + "/"):
        print("harness error: ipi imported from", ipi.__file__)
        return 2
    if hasattr(mod, "prepare"):
        mod.prepare(a.tier, a.seed)
    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = mod.cases(a.tier, a.seed)
    if a.only:
        cases = [c for c in cases if a.only in c["name"]]
    if a.list:
        for c in cases:
            print(c["name"])
        return 0
    names = Counter(c["name"] for c in cases)
    assert all(n == 1 for n in names.values()), [n for n in names if names[n] > 1][:5]

    timeout = getattr(mod, "TIMEOUT", {}).get(a.tier, 300 if a.tier == "quick" else 900)
    known = load_known(prop)
    seen_known = {}
    counts = Counter()
    sigs = set()
    samples = []
    viols = []
    inconclusive = []
    nrun = 0
    walls = []
    repdir = os.path.join(VERIF, "replays")
    try:
        for i, case, res in _run_cases(mod, cases, a.nproc, timeout, a.v):
            nrun += 1
            walls.append((res.get("wall", 0), case["name"]))
            if "dead" in res:
                if getattr(mod, "HANG_IS_VIOLATION", False) or res["dead"] != "timeout":
                    res["violations"] = [
                        {
                            "kind": "hang" if res["dead"] == "timeout" else "died",
                            "msg": "case %s (%s)" % (case["name"], res["dead"]),
                            "detail": {"tail": res.get("tail", "")},
                        }
                    ]
                else:
                    inconclusive.append((case["name"], res["dead"], res.get("tail", "")))
                    continue
            if "inconclusive" in res:
                inconclusive.append((case["name"], res["inconclusive"], ""))
            counts.update(res.get("counts", {}))
            sigs.update(res.get("sigs", []))
            if res.get("samples") and len(samples) < 12:
                samples.append({"case": case["name"], "seen": res["samples"][0]})
            if a.v:
                print(
                    "  %-50s %5.1fs %s%s"
                    % (
                        case["name"],
                        res["wall"],
                        dict(res.get("counts", {})),
                        " VIOL" if res.get("violations") else "",
                    )
                )
                for n in res.get("notes", []):
                    print("      note:", n)
            for v in res.get("violations", []):
                hit = None
                for k in known:
                    if _matches(k, case, v):
                        hit = k
                        break
                if hit is not None:
                    seen_known.setdefault(hit["id"], hit)
                    continue
                viols.append((case, v))
                if a.v or len(viols) <= 10:
                    print("  violated in %s: [%s] %s" % (case["name"], v["kind"], v["msg"]))
                    if a.v:
                        print("     ", json.dumps(v["detail"])[:3000])
    finally:
        pass
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    wall = time.time() - t0
    need = getattr(mod, "REQUIRE", {})
    missing = [k for k, n in need.items() if counts.get(k, 0) < n]
    if a.only or a.replay:
        missing = []
    if not samples:
        samples = [{"case": c["name"]} for c in cases[:3]]
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": int(sum(counts.values())),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:8],
            "executions": nrun,
            "monitor_evaluations_by_kind": dict(sorted(counts.items())),
            "inconclusive_cases": [x[0] for x in inconclusive][:20],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not (a.only or a.replay):
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    walls.sort(reverse=True)
    print(
        "%s %s seed=%d: %d executions, %d monitor evaluations, %d distinct, %d violations, %.1f s"
        % (prop, a.tier, a.seed, nrun, sum(counts.values()), len(sigs), len(viols), wall)
    )
    if a.v:
        print("  by kind:", dict(sorted(counts.items())))
        print("  slowest:", ["%.1f %s" % w for w in walls[:6]])
    if viols:
        os.makedirs(repdir, exist_ok=True)
        case, v = viols[0]
        path = os.path.join(repdir, "%s_%s.json" % (prop, hashlib.sha1(case["name"].encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"check": a.check, "case": case, "violation": v, "tier": a.tier, "seed": a.seed}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  (replay with: ./run %s --replay %s)" % (a.check, path))
        return 1
    for n, why, tail in inconclusive[:5]:
        print("inconclusive:", n, why, tail[-500:])
    if missing:
        print("inconclusive: monitors never reached:", missing)
        return 2
    if len(inconclusive) > max(1, 0.2 * len(cases)):
        print("inconclusive: too many undecided cases (%d of %d)" % (len(inconclusive), len(cases)))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
