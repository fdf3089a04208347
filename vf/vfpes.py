"""Analytic test potentials, loaded by i-PI as a 'custom' PES (ffdirect or the
Python driver).  Everything here has an exact gradient and an exact strain
derivative, so energies, forces and virials can be recomputed by the monitors
without going through i-PI."""
import hashlib
import json
import os
import time

import numpy as np

__DRIVER_NAME__ = "custom"
__DRIVER_CLASS__ = "VFPES"

DEFAULTS = dict(
    k=0.05,  # pair spring
    r0=2.5,  # pair rest length
    g=0.02,  # pair quartic
    kt=0.0,  # harmonic trap
    k4=0.0,  # quartic trap
    c3=0.0,  # non separable three body coupling
    kv=0.0,  # cell stiffness: kv/2 (V-v0)^2/v0
    v0=1000.0,
    ks=0.0,  # cell shear stiffness on the strain of h (upper triangular)
    per=0.0,  # periodic interaction, amplitude
    shift=0.0,  # constant added to the energy
    vb=0.0,  # double well of the first atom along (0.8, 0.6, 0): barrier
    ab=1.0,  # and half distance of the wells
    ka=0.0,  # anisotropic trap
)


def energy(cell, pos, p):
    """Potential, forces, virial (= -dV/dstrain) for parameters p."""
    q = np.asarray(pos, float).reshape(-1, 3)
    h = np.asarray(cell, float)
    n = len(q)
    v = p["shift"]
    f = np.zeros((n, 3))
    vir = np.zeros((3, 3))
    fq = np.zeros((n, 3))  # forces from terms in cartesian coordinates
    if p["k"] or p["g"]:
        for i in range(n):
            for j in range(i):
                d = q[i] - q[j]
                r = np.sqrt(np.dot(d, d))
                x = r - p["r0"]
                v += 0.5 * p["k"] * x * x + 0.25 * p["g"] * x**4
                dv = p["k"] * x + p["g"] * x**3
                fij = -dv * d / r
                fq[i] += fij
                fq[j] -= fij
    if p["kt"]:
        v += 0.5 * p["kt"] * np.sum(q * q)
        fq -= p["kt"] * q
    if p["k4"]:
        v += 0.25 * p["k4"] * np.sum(q**4)
        fq -= p["k4"] * q**3
    if p["ka"]:
        w = p["ka"] * np.array([1.0, 1.7, 2.3]) * (1 + 0.1 * np.arange(n))[:, None]
        v += 0.5 * np.sum(w * q * q)
        fq -= w * q
    if p["vb"]:
        e = np.array([0.8, 0.6, 0.0])
        s = np.dot(q[0], e) / p["ab"]
        v += p["vb"] * (s * s - 1) ** 2
        fq[0] -= p["vb"] * 4 * s * (s * s - 1) * e / p["ab"]
    if p["c3"]:
        for i in range(n):
            a, b, c = q[i], q[(i + 1) % n], q[(i + 2) % n]
            v += p["c3"] * a[0] * b[1] * c[2]
            fq[i, 0] -= p["c3"] * b[1] * c[2]
            fq[(i + 1) % n, 1] -= p["c3"] * a[0] * c[2]
            fq[(i + 2) % n, 2] -= p["c3"] * a[0] * b[1]
    f += fq
    vir += np.dot(fq.T, q)
    if p["per"]:
        ih = np.linalg.inv(h)
        tp = 2 * np.pi
        for i in range(n):
            for j in range(i):
                s = np.dot(ih, q[i] - q[j])
                v += p["per"] * np.sum(1 - np.cos(tp * s))
                ds = p["per"] * tp * np.sin(tp * s)
                fij = -np.dot(ih.T, ds)
                f[i] += fij
                f[j] -= fij
        # one-body periodic term, so that absolute positions matter
        s = np.dot(q, ih.T)
        v += 0.5 * p["per"] * np.sum(1 - np.cos(tp * s))
        ds = 0.5 * p["per"] * tp * np.sin(tp * s)
        f -= np.dot(ds, ih)
    if p["kv"]:
        vol = np.linalg.det(h)
        v += 0.5 * p["kv"] * (vol - p["v0"]) ** 2 / p["v0"]
        vir -= p["kv"] * (vol - p["v0"]) / p["v0"] * vol * np.eye(3)
    if p["ks"]:
        # metric tensor penalty: ks/2 tr (G - G0)^2 with G = h^T h, G0 = v0^(2/3) I
        g = np.dot(h.T, h)
        w = g - p["v0"] ** (2.0 / 3.0) * np.eye(3)
        v += 0.5 * p["ks"] * np.sum(w * w)
        # dh = eps h ; dG = h^T (eps+eps^T) h ; dV = ks tr(w dG) = 2 ks tr(h w h^T eps)
        vir -= 2 * p["ks"] * np.dot(h, np.dot(w, h.T))
    return v, f, vir


def member(p, i):
    """Parameters of the i-th model of a committee returned in one go."""
    p = dict(p)
    p["kt"] = p["kt"] * (1 + 0.1 * i) + 0.001 * i
    p["shift"] = p["shift"] + 0.01 * i
    return p


BOHR_ANG = 0.529177210903


def dipole(pos, a=0.01):
    """A translation-covariant dipole of neutral systems, and its derivatives (3N, 3)."""
    q = np.asarray(pos, float).reshape(-1, 3)
    n = len(q)
    c = np.cos(1.0 + 2.0 * np.arange(n))
    c -= c.mean()
    mu = c @ q
    Z = np.zeros((n, 3, 3))
    Z += c[:, None, None] * np.eye(3)
    for i in range(n):
        for j in range(i):
            d = q[i] - q[j]
            s = a * (c[i] - c[j] + 0.3)
            mu = mu + s * d * (d @ d)
            D = s * ((d @ d) * np.eye(3) + 2 * np.outer(d, d))
            Z[i] += D
            Z[j] -= D
    return mu, Z.reshape(3 * n, 3)


class VFPES:
    def __init__(self, delay=0.0, jitter=0.0, log="", dump="", extras="", verbosity=None, verbose=False, die_at=0, hang=0, **kw):
        self.p = dict(DEFAULTS)
        for k, val in kw.items():
            if k not in self.p:
                raise ValueError("unknown parameter " + k)
            self.p[k] = float(val)
        self.delay = float(delay)
        self.jitter = float(jitter)
        self.log = log
        self.dump = dump
        self.extras = extras
        self.n = 0
        self.hang = int(hang)  # the evaluation that never ends

    def compute_structure(self, cell, pos):
        self.n += 1
        if self.hang and self.n >= self.hang:
            time.sleep(120)
        if self.delay or self.jitter:
            t = self.delay
            if self.jitter:
                # deterministic in the structure, so arrival order is shuffled
                t += self.jitter * (hashlib.sha1(np.ascontiguousarray(pos).tobytes()).digest()[0] / 255.0)
            time.sleep(t)
        v, f, vir = energy(cell, pos, self.p)
        if self.log:
            with open(self.log, "a") as fd:
                fd.write(
                    hashlib.sha1(
                        np.ascontiguousarray(pos, dtype=float).tobytes()
                        + np.ascontiguousarray(cell, dtype=float).tobytes()
                    ).hexdigest()
                    + " %d\n" % os.getpid()
                )
        if self.dump:
            with open(self.dump, "a") as fd:
                fd.write(json.dumps(dict(pos=np.asarray(pos, float).ravel().tolist(), cell=np.asarray(cell, float).ravel().tolist(), v=float(v), f=f.ravel().tolist(), vir=np.asarray(vir).ravel().tolist())) + "\n")
        ex = ""
        if str(self.extras).startswith("committee"):
            # several models in one: committee:N scales the shift and the trap
            n = int(str(self.extras)[9:])
            ms = [energy(cell, pos, member(self.p, i)) for i in range(n)]
            ex = json.dumps({"committee_pot": [float(m[0]) for m in ms], "committee_force": [m[1].ravel().tolist() for m in ms], "committee_virial": [np.asarray(m[2]).ravel().tolist() for m in ms]})
        elif self.extras == "raw":
            # free text, different for every structure
            ex = "energy %.15g of %d atoms" % (v, len(f))
        elif str(self.extras)[:3] in ("bec", "asr", "sha", "dip", "ang"):
            # dipole and its derivatives; with a fault (asr: not neutral, sha: wrong
            # shape), or as free text (dip, in e Angstrom: ang)
            mu, Z = dipole(pos)
            if self.extras == "asr":
                Z = Z + np.eye(3)[np.arange(len(Z)) % 3] * 1e-3
            if self.extras == "sha":
                Z = Z[:-3]
            ex = json.dumps({"BEC": Z.tolist(), "dipole": mu.tolist()} if self.extras != "becx" else {"BEC": Z.tolist()})
            if self.extras == "dip":
                ex = "Total dipole moment: %.14f %.14f %.14f" % tuple(mu)
            if self.extras == "ang":
                ex = "Total dipole moment [eAng]: %.14f %.14f %.14f" % tuple(mu * BOHR_ANG)
        elif self.extras == "uni":
            ex = json.dumps({"note": "\u00c5ngstr\u00f6m \u2192 %.12g" % v, "scal": [float(v)]}, ensure_ascii=False)
        elif self.extras == "big":
            r = np.asarray(pos, float).ravel()
            ex = json.dumps({"table": [float(x) for x in np.outer(np.arange(1, 4001), r[:3]).ravel()]})
        elif self.extras == "lines":
            # text of several lines, their number depends on the structure
            n = 1 + int(abs(v) * 1e6) % 4
            ex = "\n".join("line %d of %d: %.15g" % (i, n, v) for i in range(n))
        elif self.extras == "ragged":
            # length depends on the structure
            n = 1 + int(abs(v) * 1e6) % 7
            ex = " " * (n - 1) + "x" * n
        elif self.extras:
            q = np.asarray(pos).reshape(-1, 3)
            ex = json.dumps(
                {
                    "dipole": list(np.sum(q * np.arange(1, len(q) + 1)[:, None], axis=0)),
                    "scal": [float(v * 2.0)],
                }
            )
        return v, f.reshape(np.asarray(pos).shape), vir, ex

    def __call__(self, cell, pos):
        if isinstance(cell, list):
            return [self.compute_structure(c, q) for c, q in zip(cell, pos)]
        return self.compute_structure(cell, pos)

    compute = __call__
