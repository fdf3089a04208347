"""Stand-in for the PLUMED library: same calls, one collective variable, a restraint and hills.

The input file is JSON.  Numbers in it are in kJ/mol and nm; those that come from
the engine are converted with the units the engine declared.  As in the real
library, positions, box, forces and virial are kept by reference.
"""
import json
import os
import sys
import types

import numpy as np

ALL = []


class Plumed:
    def __init__(self):
        self.v = {}
        self.calls = []
        self.hills = []  # (centre, sigma, height)
        self.steps = []  # step of each hill
        self.updates = []
        self.mem = {}
        self.ready = False
        self.finalized = 0
        ALL.append(self)

    def finalize(self):
        self.finalized += 1

    def cmd(self, key, val=None):
        self.calls.append(key)
        w = key.split()
        if w[0] == "getDataRank":
            val[0] = 1
        elif w[0] == "getDataShape":
            val[0] = 1
        elif w[0] == "setMemoryForData":
            self.mem[w[1]] = val
        elif key == "init":
            self.init()
        elif key == "prepareCalc":
            self.ready = True
        elif key == "performCalcNoUpdate":
            assert self.ready, "performCalc without prepareCalc"
            self.calc(True)
        elif key == "performCalcNoForces":
            self.calc(False)
        elif key == "getBias":
            val[0] = self.bias
        elif key == "update":
            self.update()
        else:
            self.v[key] = val

    def init(self):
        need = ("setRealPrecision", "setNatoms", "setMDEnergyUnits", "setMDLengthUnits", "setPlumedDat")
        assert all(k in self.v for k in need), "init before the settings"
        assert self.v["setRealPrecision"] == 8
        self.dat = json.load(open(self.v["setPlumedDat"].strip()))
        self.EU, self.LU = float(self.v["setMDEnergyUnits"]), float(self.v["setMDLengthUnits"])
        hf = self.dat["hillsfile"]
        if self.v.get("setRestart") and os.path.exists(hf):
            for l in open(hf):
                st, *x = l.split()
                self.steps.append(int(st))
                self.hills.append(tuple(float(y) for y in x))
        else:
            open(hf, "w").close()

    def cv(self):
        """Value, gradient with respect to the positions, and displacement, in the units of the engine."""
        c = self.dat["cv"]
        if c["kind"] == "energy":
            return float(np.asarray(self.v["setEnergy"])), None, None
        pos, box = self.v["setPositions"], self.v["setBox"]
        d = pos[c["j"]] - pos[c["i"]]
        s = d @ np.linalg.inv(box)  # rows are the cell vectors
        d = (s - np.round(s) + c.get("image", [0, 0, 0])) @ box
        r = np.sqrt(d @ d)
        return r, d / r, d

    def calc(self, forces):
        val, grad, d = self.cv()
        en = self.dat["cv"]["kind"] == "energy"
        s = val * (self.EU if en else self.LU)
        k, s0 = self.dat["restraint"]
        v, dv = 0.5 * k * (s - s0) ** 2, k * (s - s0)
        for c, sig, h in self.hills:
            g = h * np.exp(-0.5 * ((s - c) / sig) ** 2)
            v += g
            dv -= g * (s - c) / sig**2
        self.bias = v / self.EU
        for x, m in self.mem.items():
            m[...] = s if x == "cv" else v
        if not forces:
            return
        f, w = self.v["setForces"], self.v["setVirial"]
        if en:
            f += f * dv
            w += w * dv
            return
        g = dv / self.EU * self.LU * grad  # dV/dr along the displacement
        f[self.dat["cv"]["j"]] -= g
        f[self.dat["cv"]["i"]] += g
        w += np.outer(d, g)

    def update(self):
        h = self.dat["hills"]
        st = int(self.v["setStep"])
        self.updates.append(st)
        if st % h["pace"] or st == 0:
            return
        val = self.cv()[0]
        s = val * (self.EU if self.dat["cv"]["kind"] == "energy" else self.LU)
        self.hills.append((s, h["sigma"], h["height"]))
        self.steps.append(st)
        with open(self.dat["hillsfile"], "a") as f:
            f.write("%d %r %r %r\n" % (st, float(s), h["sigma"], h["height"]))


def install():
    m = types.ModuleType("plumed")
    m.Plumed = Plumed
    sys.modules["plumed"] = m
    del ALL[:]
