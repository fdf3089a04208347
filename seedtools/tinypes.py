"""A small analytic potential used by the demonstrations: a pair spring, a tether and a volume term."""
import numpy as np

__DRIVER_NAME__ = "custom"
__DRIVER_CLASS__ = "TinyPES"


class TinyPES:
    def __init__(self, k=0.05, r0=2.5, kt=0.01, kv=0.001, verbose=False, **kw):
        self.k, self.r0, self.kt, self.kv = float(k), float(r0), float(kt), float(kv)

    def check_parameters(self):
        pass

    def compute(self, cell, pos):
        if isinstance(cell, list):
            return [self.one(c, p) for c, p in zip(cell, pos)]
        return self.one(cell, pos)

    __call__ = compute

    def one(self, cell, pos):
        pos = np.asarray(pos, float).reshape(-1, 3)
        n = len(pos)
        f = np.zeros((n, 3))
        vir = np.zeros((3, 3))
        v = 0.0
        for i in range(n):
            d = pos[i] - np.array([0.3 * i, 0.1, -0.2 * i])
            v += 0.5 * self.kt * d @ d
            f[i] -= self.kt * d
            for j in range(i):
                r = pos[i] - pos[j]
                dr = np.linalg.norm(r)
                v += 0.5 * self.k * (dr - self.r0) ** 2
                ff = -self.k * (dr - self.r0) * r / dr
                f[i] += ff
                f[j] -= ff
        vir = np.einsum("ij,ik->jk", f, pos)
        vol = np.linalg.det(cell)
        v += self.kv * np.log(vol) ** 2
        vir -= np.eye(3) * 2 * self.kv * np.log(vol)
        return v, f, vir, ""
