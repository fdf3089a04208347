"""A small client of the i-PI socket protocol, independent of i-PI's own drivers.

Runs in a thread.  `plan` is a callable (n, stage) -> action that may delay,
fragment or kill the connection at any point of the exchange."""
import json
import socket
import struct
import threading
import time

import numpy as np

HDR = 12


def msg(s):
    return s.upper().ljust(HDR).encode()


class Gone(Exception):
    pass


class Client(threading.Thread):
    """energy(cell, pos) -> v, f, vir, extra"""

    def __init__(self, address, energy, mode="unix", port=0, prefix="/tmp/ipi_", plan=None, name="", frag=0, connect_delay=0.0, wait=20.0, shm=False):
        super().__init__(daemon=True)
        self.cname = name
        self.address, self.energy, self.mode, self.port, self.prefix = address, energy, mode, port, prefix
        self.plan = plan or (lambda n, stage: None)
        self.frag = frag
        self.connect_delay = connect_delay
        self.wait = wait
        self.n = 0  # structures received
        self.done = 0  # results delivered
        self.log = []
        self.error = None
        self.inits = []
        self.shm = shm
        self.ended = None
        self.gone = threading.Event()

    # ---------------------------------------------------------------- wire
    def recv(self, n):
        b = b""
        while len(b) < n:
            c = self.sock.recv(n - len(b))
            if not c:
                raise Gone()
            b += c
        return b

    def send(self, b):
        if not self.frag:
            self.sock.sendall(b)
            return
        for i in range(0, len(b), self.frag):
            self.sock.sendall(b[i : i + self.frag])
            if i // self.frag < 40:
                time.sleep(0.0005)

    def act(self, stage):
        a = self.plan(self.n, stage)
        if a is None:
            return None
        if a[0] == "sleep":
            time.sleep(a[1])
        elif a[0] == "die":
            raise Gone()
        elif a[0] == "rst":
            # the connection is reset instead of closed
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            raise Gone()
        else:
            return a

    def run(self):
        try:
            time.sleep(self.connect_delay)
            t0 = time.time()
            while True:
                try:
                    if self.mode == "inet":
                        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                        self.sock.connect((self.address, self.port))
                    else:
                        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                        self.sock.connect(self.prefix + self.address)
                    break
                except OSError:
                    self.sock.close()
                    if time.time() - t0 > self.wait:
                        raise
                    time.sleep(0.01)
            if self.stop_now:
                raise Gone()
            self.act("connected")
            self.loop()
        except Gone:
            pass
        except (ConnectionError, OSError) as e:
            self.error = repr(e)
        finally:
            try:
                self.sock.close()
            except Exception:
                pass
            self.gone.set()

    stop_now = False

    def loop(self):
        state, res, nat = "init", [], 0
        self.ended = "gone"
        self.batch = 1
        views = None
        while True:
            self.act("idle")
            h = self.recv(HDR).strip()
            if h == b"STATUS":
                a = self.act("status_" + state)
                m = {"init": "NEEDINIT", "ready": "READY", "data": "HAVEDATA"}[state]
                if a and a[0] == "say":
                    m = a[1]
                if a and a[0] == "cut":
                    self.send(msg(m)[: int(a[1] * HDR)])
                    raise Gone()
                self.send(msg(m))
            elif h == b"INIT":
                rid, ln = struct.unpack("ii", self.recv(8))
                pars = self.recv(ln)
                self.inits.append((rid, pars))
                for t in pars.decode().split(","):
                    k, _, v = t.partition(":")
                    if k.strip() == "batch_size":
                        self.batch = int(v)
                self.act("init")
                state = "ready"
            elif h == b"POSDATA":
                self.act("pos_header")
                nb = self.batch
                if self.shm:
                    (nat,) = struct.unpack("i", self.recv(4))
                    if views is None:
                        views = self.attach(nat, nb)
                    cells, poss = views["h"].copy(), views["pos"].copy()
                elif nb > 1:
                    (nat,) = struct.unpack("i", self.recv(4))
                    cells = np.frombuffer(self.recv(144 * nb)).reshape(nb, 2, 3, 3)[:, 0].copy()
                    poss = np.frombuffer(self.recv(24 * nat * nb)).reshape(nb, nat, 3).copy()
                else:
                    cells = np.frombuffer(self.recv(72)).reshape(1, 3, 3).copy()
                    self.recv(72)
                    (nat,) = struct.unpack("i", self.recv(4))
                    poss = np.frombuffer(self.recv(24 * nat)).reshape(1, nat, 3).copy()
                self.n += 1
                for c, q in zip(cells, poss):
                    self.log.append((c, q))
                self.act("pos")
                res = [self.energy(c, q) for c, q in zip(cells, poss)]
                state = "data"
            elif h == b"GETFORCE":
                a = self.act("getforce")
                wn = nat
                if a and a[0] == "size":
                    wn = max(0, nat + a[1])
                if a and a[0] == "garbage":
                    self.send(b"?" * a[1])
                    raise Gone()
                ex = [(x[3].encode() if isinstance(x[3], str) else x[3]) for x in res]
                exs = b"".join(struct.pack("i", len(e)) + e for e in ex)
                if self.shm:
                    for i, x in enumerate(res):
                        views["pot"][i], views["force"][i], views["vir"][i] = x[0], x[1], x[2]
                    body = msg("FORCEREADY") + exs
                else:
                    fs = b"".join(np.ascontiguousarray(np.resize(x[1], (wn, 3)) if wn != nat else x[1], float).tobytes() for x in res)
                    body = msg("FORCEREADY") + b"".join(struct.pack("d", x[0]) for x in res) + struct.pack("i", wn) + fs + b"".join(np.ascontiguousarray(x[2], float).tobytes() for x in res) + exs
                if a and a[0] in ("cut", "stall"):
                    # dies, or goes silent, part way through the reply
                    self.send(body[: int(a[1] * len(body))])
                    if a[0] == "stall":
                        time.sleep(a[2])
                    raise Gone()
                self.send(body)
                self.done += 1
                state = "ready"
                self.act("sent")
            elif h == b"EXIT":
                self.ended = "exit"
                return
            else:
                self.error = "unexpected header %r" % h
                return

    def attach(self, nat, nb):
        from multiprocessing import resource_tracker, shared_memory

        views = {}
        self.segs = []
        shapes = dict(pos=(nb, nat, 3), h=(nb, 3, 3), ih=(nb, 3, 3), pot=(nb,), force=(nb, nat, 3), vir=(nb, 3, 3))
        for k in ("pos", "h", "ih", "pot", "force", "vir"):
            (ln,) = struct.unpack("i", self.recv(4))
            name = self.recv(ln).decode()
            m = _untracked(name)
            self.segs.append(m)
            views[k] = np.ndarray(shapes[k], float, buffer=m.buf)
        return views


def _untracked(name):
    """Attach without telling the resource tracker (the server owns the segment;
    both ends live in this process, so unregistering would forget its record)."""
    from multiprocessing import resource_tracker, shared_memory

    with _TRACK:
        keep = resource_tracker.register
        resource_tracker.register = lambda *a, **k: None
        try:
            return shared_memory.SharedMemory(name=name)
        finally:
            resource_tracker.register = keep


_TRACK = threading.Lock()


def vf_energy(pars, extra=None):
    from vf import vfpes

    p = dict(vfpes.DEFAULTS)
    p.update(pars)

    def f(cell, pos):
        v, fo, vir = vfpes.energy(cell, pos, p)
        return v, fo, vir, ("" if extra is None else (extra(cell, pos) if callable(extra) else json.dumps(extra)))

    return f
