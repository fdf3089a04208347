"""Force fields that reach the test potential in different ways: in process,
batched, threaded, or through i-PI's own Python driver on unix/inet/shared
memory sockets."""
import os
import subprocess
import sys
import threading
import time

from vf import simgen as sg

REPO = os.environ.get("VF_REPO", "/repo")


def free_port():
    import socket

    t = socket.socket()
    t.bind(("127.0.0.1", 0))
    p = t.getsockname()[1]
    t.close()
    return p


def prefix():
    """A short folder for socket files (unix paths are limited to ~100 characters)."""
    import tempfile

    p = os.path.join(os.getcwd(), "s_")
    if len(p) > 80:
        p = os.path.join(tempfile.mkdtemp(prefix="vf"), "s_")
    return p


class Link:
    """One way of reaching the potential.  kind: direct, unix, inet, shm."""

    def __init__(self, kind, name="ff", batch=1, threaded=False, ndrv=1, cons=True, match="auto", active=None, offset=None, pbc=False, pref=None, latency=None, jitter=0.0):
        self.kind, self.name, self.batch, self.threaded, self.ndrv, self.cons = kind, name, batch, threaded, ndrv, cons
        self.match, self.active, self.offset, self.pbc = match, active, offset, pbc
        self.jitter = jitter
        self.procs = []
        self.pref = pref or prefix()
        self.port = free_port() if kind == "inet" else 0
        self.addr = "127.0.0.1" if kind == "inet" else "a_" + name

    def label(self):
        return "%s%s%s%s%s" % (self.kind, "/b%d" % self.batch if self.batch > 1 else "", "/thr" if self.threaded and self.kind == "direct" else "", "/%ddrv" % self.ndrv if self.kind != "direct" else "", "" if self.cons else "/split")

    def xml(self, pars):
        self.pars = dict(pars)
        if self.jitter:
            self.pars["jitter"] = self.jitter
        if self.kind == "direct":
            return sg.ffdirect(self.name, pars=self.pars, pbc=self.pbc, threaded=self.threaded, batch=self.batch if self.batch > 1 else None, offset=self.offset)
        b = sg.tag("address", self.addr) + sg.tag("port", self.port or 12345) + sg.tag("latency", "1e-4") + sg.tag("slots", 8)
        if self.offset is not None:
            b += sg.tag("offset", repr(float(self.offset)))
        if self.batch > 1:
            b += sg.tag("batch_size", self.batch)
        if not self.cons:
            b += sg.tag("consolidate_messages", "False")
        if self.active is not None:
            b += sg.tag("activelist", sg.arr(self.active, "%d") if False else "[ " + ", ".join(str(int(x)) for x in self.active) + " ]")
        return sg.tag("ffsocket", b, name=self.name, mode=self.kind, matching=self.match, pbc=str(bool(self.pbc)))

    def command(self):
        o = ",".join("%s=%s" % (k, v) for k, v in self.pars.items())
        c = [sys.executable, os.path.join(REPO, "drivers/py/driver.py"), "-a", self.addr, "-m", "custom", "-P", sg.VFPES_PATH]
        if o:
            c += ["-o", o]
        if self.kind == "inet":
            c += ["-p", str(self.port)]
        else:
            c += ["-u", "-S", self.pref]
            if self.kind == "shm":
                c += ["--shm"]
        return c

    def launch(self):
        """Starts the drivers as soon as the server listens."""
        if self.kind == "direct":
            return
        env = dict(os.environ)
        env["PYTHONPATH"] = REPO + os.pathsep + env.get("PYTHONPATH", "")
        env["OMP_NUM_THREADS"] = "1"

        def go():
            t0 = time.time()
            while time.time() - t0 < 60:
                if self.kind == "inet":
                    if _listening(self.port):
                        break
                elif os.path.exists(self.pref + self.addr):
                    break
                time.sleep(0.005)
            time.sleep(0.02)
            for i in range(self.ndrv):
                self.procs.append(subprocess.Popen(self.command(), env=env, stdout=open("drv_%s_%d.log" % (self.name, i), "w"), stderr=subprocess.STDOUT))

        self.th = threading.Thread(target=go, daemon=True)
        self.th.start()

    def finish(self, wait=10.0):
        """Waits for the drivers to leave; returns their exit codes (None: killed)."""
        if self.kind == "direct":
            return []
        self.th.join(5)
        out = []
        t0 = time.time()
        for p in self.procs:
            try:
                out.append(p.wait(max(0.1, wait - (time.time() - t0))))
            except subprocess.TimeoutExpired:
                p.kill()
                out.append(None)
        return out


def _listening(port):
    try:
        for ln in open("/proc/net/tcp").read().splitlines()[1:]:
            w = ln.split()
            if w[3] == "0A" and int(w[1].split(":")[1], 16) == port:
                return True
    except OSError:
        return True
    return False
