"""The Fortran driver, built with the address and undefined-behaviour
sanitizers from the working tree under test, and a server that speaks to it."""

import os
import shutil
import socket
import struct
import subprocess
import tempfile
import time

import numpy as np

from vf.core import Inconclusive

FLAGS = (
    "-g -O1 -ffree-line-length-none -ffixed-line-length-none -w "
    "-fsanitize=address,undefined -fno-sanitize-recover=undefined "
    "-fcheck=bounds,mem,pointer -fno-omit-frame-pointer"
)
CFLAGS = "-g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"


def build(repo, dest, sanitize=True, nproc=8):
    """Builds drivers/f90 of the working tree in a scratch directory."""
    src = os.path.join(repo, "drivers", "f90")
    shutil.copytree(
        src,
        dest,
        ignore=shutil.ignore_patterns("*.o", "*.mod", "*.x", "*.so"),
        symlinks=True,
    )
    cmd = ["make", "-j%d" % nproc, "driver.x"]
    if sanitize:
        cmd += ["FFLAGS=" + FLAGS, "CFLAGS=" + CFLAGS]
    else:
        cmd += ["FLAGS=-g -O0 -w"]
    p = subprocess.run(
        cmd, cwd=dest, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600
    )
    exe = os.path.join(dest, "driver.x")
    if p.returncode or not os.path.exists(exe):
        raise Inconclusive(
            "the driver does not build: " + p.stdout.decode(errors="replace")[-800:]
        )
    return exe


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
}


class Died(Exception):
    pass


class Driver:
    """One driver process behind a unix socket, driven as i-PI drives it."""

    def __init__(self, exe, args, sockdir=None, prefix=None, wrap=(), timeout=60, cwd=None):
        self.dir = tempfile.mkdtemp(prefix="f9", dir=sockdir or "/tmp")
        self.timeout = timeout
        self.prefix = prefix or os.path.join(self.dir, "s_")
        path = self.prefix + "x"
        self.lst = socket.socket(socket.AF_UNIX)
        self.lst.bind(path)
        self.lst.listen(1)
        self.lst.settimeout(0.05)
        self.out = open(os.path.join(self.dir, "out"), "wb+")
        env = dict(os.environ)
        env.update(ENV)
        self.p = subprocess.Popen(
            list(wrap)
            + [exe, "-u", "-a", "x", "-S", self.prefix]
            + [str(a) for a in args],
            cwd=cwd or os.path.dirname(exe),
            stdout=self.out,
            stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL,
            env=env,
        )
        self.s = None
        t0 = time.time()
        while self.s is None:
            try:
                self.s, _ = self.lst.accept()
            except socket.timeout:
                if self.p.poll() is not None:
                    break
                if time.time() - t0 > timeout:
                    self.close()
                    raise Inconclusive("the driver did not connect")
        if self.s is not None:
            self.s.settimeout(timeout)
        self.nat = None

    # ---------------------------------------------------------------- protocol
    def get(self, n):
        b = b""
        while len(b) < n:
            try:
                c = self.s.recv(n - len(b))
            except ConnectionError:
                c = b""
            if not c:
                raise Died()
            b += c
        return b

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            raise Died()

    def hdr(self, s):
        self.send(s.ljust(12).encode())

    def status(self):
        self.hdr("STATUS")
        return self.get(12).decode().strip()

    def init(self, text=" ", rid=0):
        self.hdr("INIT")
        self.send(struct.pack("ii", rid, len(text)) + text.encode())

    def ready(self):
        if self.s is None:
            raise Died()
        st = self.status()
        if st == "NEEDINIT":
            self.init()
            st = self.status()
        return st

    def compute(self, q, h):
        st = self.ready()
        if st != "READY":
            raise Died("status " + st)
        q = np.asarray(q, float).reshape(-1, 3)
        h = np.asarray(h, float)
        self.hdr("POSDATA")
        self.send(h.tobytes() + np.linalg.inv(h).tobytes())
        self.send(struct.pack("i", len(q)) + q.tobytes())
        st = self.status()
        if st != "HAVEDATA":
            raise Died("status " + st)
        self.hdr("GETFORCE")
        if self.get(12).decode().strip() != "FORCEREADY":
            raise Died("no FORCEREADY")
        (pot,) = struct.unpack("d", self.get(8))
        (n,) = struct.unpack("i", self.get(4))
        if n != len(q):
            raise Died("number of atoms returned %d" % n)
        f = np.frombuffer(self.get(24 * n)).reshape(n, 3).copy()
        v = np.frombuffer(self.get(72)).reshape(3, 3).copy()
        (m,) = struct.unpack("i", self.get(4))
        x = self.get(m).decode(errors="replace")
        return pot, f, v, x

    # --------------------------------------------------------------------- end
    def text(self):
        self.out.flush()
        self.out.seek(0)
        return self.out.read().decode(errors="replace")

    def close(self, kind="exit"):
        """Ends the driver; returns (exit code, output)."""
        if self.s is not None:
            try:
                if kind == "exit":
                    self.hdr("EXIT")
            except Died:
                pass
            if kind == "drop":
                self.s.close()
        try:
            rc = self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = None
        if self.s is not None:
            self.s.close()
        self.lst.close()
        t = self.text()
        self.out.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc, t


def report(rc, text):
    """The sanitizer or crash report in a driver's end, or None."""
    for key in (
        "AddressSanitizer",
        ": runtime error: ",
        "Fortran runtime error: Index",
        "Fortran runtime error: Array bound",
        "Fortran runtime error: Substring",
        "outside of expected range",
        "Program received signal",
    ):
        if key in text:
            i = text.index(key)
            return text[max(0, i - 100) : i + 500]
    if rc is None:
        return "the driver hangs"
    if rc < 0 or rc == 99 or rc >= 128 and rc != 255:
        return "ended with code %d: %s" % (rc, text[-300:])
    return None
