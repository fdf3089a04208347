"""Writes /verif/seeded/<id>/ from the definitions in defs.py (run by hand, no check uses it)."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
WT = "/tmp/seedwt"
BASE = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
import defs


def sh(c, **k):
    return subprocess.run(c, shell=True, check=True, text=True, capture_output=True, **k).stdout


def main():
    only = [x for x in sys.argv[1:] if x != "-v"]
    shutil.rmtree(WT, ignore_errors=True)
    sh("git -C %s worktree prune; git -C %s worktree add --detach %s HEAD" % (BASE, BASE, WT))
    try:
        for s in defs.SEEDS:
            if only and s["id"] not in only:
                continue
            for f, old, new in s["edits"]:
                p = os.path.join(WT, f)
                t = open(p).read()
                n = s.get("count", 1)
                assert t.count(old) == n, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % WT)
            d = os.path.join(OUT, s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            for k in ("kit.py", "tinypes.py"):
                shutil.copy(os.path.join(HERE, k), d)
            open(d + "/demo.py", "w").write(s["demo"].lstrip())
            open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            if "drivers/f90" in diff:
                sh("make -C %s/drivers/f90" % WT)
                sh("make -C %s/drivers/f90" % BASE)
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=BASE, capture_output=True, text=True)
            r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=WT, capture_output=True, text=True)
            print(s["id"], "clean rc", r0.returncode, "patched rc", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode not in (0, 124) else "*** BAD")
            if r0.returncode or r1.returncode == 0 or "-v" in sys.argv or "Traceback" in r1.stderr:
                print("  clean:", r0.stdout[-800:], r0.stderr[-1500:])
                print("  patched:", r1.stdout[-800:], r1.stderr[-600:])
            sh("git -C %s checkout -- ." % WT)
    finally:
        sh("git -C %s worktree remove --force %s; git -C %s worktree prune" % (BASE, WT, BASE))


main()
