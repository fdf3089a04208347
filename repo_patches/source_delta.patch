From 5fe3d35af5b46aeb2166fbfb62479e57945bac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:56 +0000
Subject: [PATCH 001/128] fix: keep the PRNG seed when restarting from a
 checkpoint

---
 ipi/inputs/prng.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..d98d39a 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -94,5 +94,7 @@ if the arrays are very large.
             return Random(seed=self.seed.fetch(), n_threads=self.n_threads.fetch())
         else:
             return Random(
-                state=json.loads(self.state.fetch()), n_threads=self.n_threads.fetch()
+                seed=self.seed.fetch(),
+                state=json.loads(self.state.fetch()),
+                n_threads=self.n_threads.fetch(),
             )
-- 
2.43.0


From 669556694c8ea18f61cd36dd08986df616fe8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:38 +0000
Subject: [PATCH 002/128] fix: recompute the centroid step coefficients when
 time step or masses change

---
 ipi/engine/motion/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..972f0cf 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -320,6 +320,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From 801cc8b109f43491ef2ed7212533ca9f34724af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:41 +0000
Subject: [PATCH 003/128] fix: apply momentum constraints at the end of a
 Suzuki-Chin BAOAB step

---
 ipi/engine/motion/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 972f0cf..438df20 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -755,6 +755,7 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
             self.mtsprop_ab(0)
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -828,3 +829,4 @@ class SCNPTIntegrator(SCIntegrator):
             self.mtsprop_ab(0)
             self.barostat.pscstep()
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
-- 
2.43.0


From 2e0d02a3973249496db768cf8cd3861c2b154ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:13 +0000
Subject: [PATCH 004/128] fix: constrained-centroid dynamics honours bias
 forces and inner time steps

---
 ipi/engine/motion/dynamics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 438df20..bffae1e 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -575,9 +575,9 @@ class NVTCCIntegrator(NVTIntegrator):
 
         # propagates in NM coordinates
         self.nm.pnm += dstrip(self.nm.fnm) * (self.dt * 0.5)
-        # self.beads.p += dstrip(self.forces.f)*(self.dt*0.5)
         # also adds the bias force
-        # self.beads.p += dstrip(self.bias.f)*(self.dt*0.5)
+        if self.ensemble.has_bias:
+            self.beads.p += dstrip(self.bias.f) * (self.dt * 0.5)
 
     def step(self, step=None):
         """Does one simulation time step."""
@@ -595,9 +595,10 @@ class NVTCCIntegrator(NVTIntegrator):
         self.pconstraints()
 
         # The centroid is constrained, so qcstep is skipped, but the internal
-        # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
+        # ring-polymer modes still need the half-step free propagations, that
+        # are split further when multiple time stepping is requested.
+        for i in range(2 * self.inmts):
+            self.nm.free_qstep()
 
         self.pstep()
         self.nm.pnm[0, :] = 0.0
-- 
2.43.0


From f9e460b811e4708a0050f64ce08346a2ae5eca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:13 +0000
Subject: [PATCH 005/128] fix: threaded Gaussian generator fills the array it
 is given

---
 ipi/utils/prng.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..1f9bf74 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -188,7 +188,8 @@ class Random(object):
             out: The array to be filled.
         """
 
-        out_flat = out.flatten()
+        # a view on the output: filling a copy would leave "out" untouched
+        out_flat = out.reshape(-1)
         step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)
         if step_size < _MIN_STEP_THREADED:
             # falls back to serial if the vector is too small
@@ -204,6 +205,8 @@ class Random(object):
                     )
                 ] = i
             concurrent.futures.wait(futures)
+            if not np.shares_memory(out, out_flat):
+                out[...] = out_flat.reshape(out.shape)
 
     def gvec_serial(self, shape):
         """Interface to the standard_normal array function.
-- 
2.43.0


From 511583dbb3908865ba2cfdcef291f885d973c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:55 +0000
Subject: [PATCH 006/128] fix: global centroid thermostats count constrained
 degrees of freedom in nm_gle_g and multi modes

---
 ipi/engine/thermostats.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index abba0d8..9e8e3cd 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1044,8 +1044,14 @@ class ThermoNMGLEG(ThermoNMGLE):
 
         t = ThermoSVR(self.temp, self.dt, self.tau)
 
+        # constraints acting on the centroid, see ThermoPILE_G
+        fixdof0 = None
+        if fixdof is not None:
+            ncom = 3 if fixcom else 0
+            fixdof0 = (fixdof - ncom) // nm.nbeads + ncom
+
         t.bind(
-            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng
+            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng, fixdof=fixdof0
         )  # bind global thermostat to centroid
 
         # pipes temp and dt
@@ -1330,7 +1336,15 @@ class MultiThermo(Thermostat):
 
         # just binds all the sub-thermostats
         for t in self.tlist:
-            t.bind(beads=beads, atoms=atoms, pm=pm, nm=nm, prng=prng, fixdof=fixdof)
+            t.bind(
+                beads=beads,
+                atoms=atoms,
+                pm=pm,
+                nm=nm,
+                prng=prng,
+                fixdof=fixdof,
+                fixcom=fixcom,
+            )
             self._ethermo.add_dependency(t._ethermo)
 
         self._ethermo._func = self.get_ethermo
-- 
2.43.0


From 06d72a9d0038b48d1ae92af70999d3644095de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:55 +0000
Subject: [PATCH 007/128] fix: fast-forward Langevin thermostat with atoms at
 rest does not produce NaNs

---
 ipi/engine/thermostats.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index 9e8e3cd..e4aa8bb 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1268,10 +1268,10 @@ class ThermoFFL(ThermoLangevin):
             # Soft flip
             p_old = np.reshape(p_old, (-1, 3))
             p_new = np.reshape(p, (-1, 3))
-            dotpr = hfunc(
-                np.sum(np.multiply(p_old, p_new), axis=1)
-                / np.sum(np.multiply(p_old, p_old), axis=1)
-            )
+            p2_old = np.sum(np.multiply(p_old, p_old), axis=1)
+            # nothing to flip for atoms that were at rest
+            p2_old[p2_old == 0.0] = 1.0
+            dotpr = hfunc(np.sum(np.multiply(p_old, p_new), axis=1) / p2_old)
             p += np.reshape(np.multiply(dotpr, p_old.T).T, len(p))
         elif self.flip == "hard":
             # Hard flip
@@ -1280,7 +1280,12 @@ class ThermoFFL(ThermoLangevin):
             # Rescale flip
             p_old = np.reshape(p_old, (-1, 3))
             p_new = np.reshape(p, (-1, 3))
-            scalfac = np.linalg.norm(p_new, axis=1) / np.linalg.norm(p_old, axis=1)
+            # atoms that were at rest have no direction to be restored
+            rest = ~p_old.any(axis=1)
+            p_old[rest] = p_new[rest]
+            norm_old = np.linalg.norm(p_old, axis=1)
+            norm_old[norm_old == 0.0] = 1.0
+            scalfac = np.linalg.norm(p_new, axis=1) / norm_old
             p = np.reshape(np.multiply(scalfac, p_old.T).T, len(p))
         # Otherwise we have chosen 'none', and we just don't do anything here
 
-- 
2.43.0


From 9055e138b928b8aa3df27f52571c0861620fe7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:55 +0000
Subject: [PATCH 008/128] fix: checkpoint the parameter-adjustment phase of the
 CL thermostat

---
 ipi/inputs/thermostats.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipi/inputs/thermostats.py b/ipi/inputs/thermostats.py
index 1a5f4b3..9cbb921 100644
--- a/ipi/inputs/thermostats.py
+++ b/ipi/inputs/thermostats.py
@@ -160,6 +160,14 @@ class InputThermoBase(Input):
                 "dimension": "time",
             },
         ),
+        "idstep": (
+            InputValue,
+            {
+                "dtype": bool,
+                "default": False,
+                "help": "Whether the next CL thermostat step is one that adjusts its parameters. Used when the simulation is restarted.",
+            },
+        ),
         "flip": (
             InputValue,
             {
@@ -227,6 +235,7 @@ class InputThermoBase(Input):
             self.intau.store(thermo.intau)
             self.idtau.store(thermo.idtau)
             self.apat.store(thermo.apat)
+            self.idstep.store(thermo.idstep)
         elif type(thermo) is ethermostats.ThermoFFL:
             self.mode.store("ffl")
             self.tau.store(thermo.tau)
@@ -292,6 +301,7 @@ class InputThermoBase(Input):
                 idtau=self.idtau.fetch(),
                 apat=self.apat.fetch(),
             )
+            thermo.idstep = self.idstep.fetch()
         elif self.mode.fetch() == "ffl":
             thermo = ethermostats.ThermoFFL(
                 tau=self.tau.fetch(), flip=self.flip.fetch()
-- 
2.43.0


From 8170ad1910e5a91be9a06e86d6852ea716175e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 009/128] fix: write thread options as attributes so that
 checkpoints can be read back

---
 ipi/inputs/forcefields.py | 4 ++--
 ipi/inputs/normalmodes.py | 6 ++----
 ipi/inputs/prng.py        | 2 +-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..6b92762 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -281,7 +281,7 @@ class InputFFSocket(InputForceField):
 
     # FFSocket polling mechanism won't work with non-threaded execution
     attribs["threaded"] = (
-        InputValue,
+        InputAttribute,
         {
             "dtype": bool,
             "default": True,
@@ -483,7 +483,7 @@ class InputFFMPI(InputForceField):
     attribs.update(InputForceField.attribs)
     # the polling mechanism requires threaded execution
     attribs["threaded"] = (
-        InputValue,
+        InputAttribute,
         {
             "dtype": bool,
             "default": True,
diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index d98d39a..1475e33 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0


From ba7fd74bed7063e2129c41c40ee15fbb834e2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 010/128] fix: back-transform of contracted forces keeps closed
 paths closed when some paths are open

---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From 0f7b43627f127b18bd408ad5742c919a95bff113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 011/128] fix: contraction of open paths keeps the
 lowest-frequency normal modes

---
 ipi/utils/nmtransform.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index 91324d8..ed112a1 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -121,17 +121,9 @@ def mk_o_rs_matrix(nb1, nb2):
         b1_nm = mk_o_nm_matrix(nb1)
         nm_b2 = mk_o_nm_matrix(nb2).T
 
-        # builds the "reduction" matrix that picks the normal modes we want to keep
-        b1_b2 = np.zeros((nb2, nb1), float)
-        b1_b2[0, 0] = 1.0
-        for i in range(1, nb2 // 2 + 1):
-            b1_b2[i, i] = 1.0
-            b1_b2[nb2 - i, nb1 - i] = 1.0
-        if nb2 % 2 == 0:
-            # if we are contracting down to an even number of beads, then we have to
-            # pick just one of the last degenerate modes to match onto the single
-            # stiffest mode in the new path
-            b1_b2[nb2 // 2, nb1 - nb2 // 2] = 0.0
+        # builds the "reduction" matrix that picks the normal modes we want to keep.
+        # the modes of an open path are not degenerate, and sorted by frequency
+        b1_b2 = np.eye(nb2, nb1)
 
         rs_b1_b2 = np.dot(nm_b2, np.dot(b1_b2, b1_nm))
         return rs_b1_b2 * np.sqrt(float(nb2) / float(nb1))
-- 
2.43.0


From 4cd6870f9af7d2db5f5f8043dba59a6444cdbb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 012/128] fix: Cayley propagator uses the dynamical masses of
 the normal modes

---
 ipi/engine/normalmodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e3c6afd..e26d3ec 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -502,11 +502,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
-                square = (self.omegak[b] * dt / 2) ** 2
+                square = (self.omegak[b] * dt / (2 * sk)) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
@@ -552,11 +552,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-                square = (self.o_omegak[b] * dt / 2) ** 2
+                square = (self.o_omegak[b] * dt / (2 * sk)) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-- 
2.43.0


From 9f91118c84088ead93016230019680b4492e9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 013/128] fix: bab propagator uses the dynamical masses of the
 normal modes

---
 ipi/engine/normalmodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e26d3ec..93f636a 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -817,7 +817,7 @@ class NormalModes:
 
             for j in range(0, self.nmts):
                 self.beads.p += 0.5 * dt * self.fspring
-                self.beads.q += dt * self.beads.p / dstrip(self.beads.m3)
+                self.qnm += dt * dstrip(self.pnm) / dstrip(self.dynm3)
                 # The depend machinery will take care of automatically calculating
                 # the forces at the updated positions.
                 self.beads.p += 0.5 * dt * self.fspring
-- 
2.43.0


From 788fe79f6bb9165d3650f20c3e559cdab000b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 014/128] fix: dynamical masses follow changes of the path
 frequencies

---
 ipi/engine/normalmodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 93f636a..1c4770a 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -285,20 +285,20 @@ class NormalModes:
             name="nm_factor",
             value=np.zeros(self.nbeads, float),
             func=self.get_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._omegak],
         )
         # add o_nm_factor for the dynamical mass in the case of open paths
         self._o_nm_factor = depend_array(
             name="nmm",
             value=np.zeros(self.nbeads, float),
             func=self.get_o_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._o_omegak],
         )
         self._dynm3 = depend_array(
             name="dynm3",
             value=np.zeros((self.nbeads, 3 * self.natoms), float),
             func=self.get_dynm3,
-            dependencies=[self._nm_factor, self.beads._m3],
+            dependencies=[self._nm_factor, self._o_nm_factor, self.beads._m3],
         )
         self._dynomegak = depend_array(
             name="dynomegak",
-- 
2.43.0


From 545f9bf8b24e2979bb05c0d9b9a5596dbc40c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 015/128] fix: MD kinetic energy and stress use the dynamical
 masses of open paths

---
 ipi/engine/normalmodes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 1c4770a..e05b644 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -355,7 +355,7 @@ class NormalModes:
             name="kins",
             value=np.zeros(self.nbeads, float),
             func=self.get_kins,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
         self._kin = depend_value(
             name="kin", func=self.get_kin, dependencies=[self._kins]
@@ -364,7 +364,7 @@ class NormalModes:
             name="kstress",
             value=np.zeros((3, 3), float),
             func=self.get_kstress,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
 
         self._vspring_and_fspring = depend_value(
@@ -925,8 +925,8 @@ class NormalModes:
 
         """
         # include the partially adiabatic CMD mass scaling
-        pnm = dstrip(self.pnm) / dstrip(self.beads.sm3)
-        kmd = 0.5 * (pnm**2).sum(axis=1) / dstrip(self.nm_factor)
+        pnm = dstrip(self.pnm)
+        kmd = 0.5 * (pnm**2 / dstrip(self.dynm3)).sum(axis=1)
 
         return kmd
 
@@ -953,9 +953,7 @@ class NormalModes:
         """
 
         # computes mass and nm_scaling-scaled momenta
-        spnm = (dstrip(self.pnm) / np.sqrt(dstrip(self.nm_factor)[:, None])) / dstrip(
-            self.beads.sm3
-        )
+        spnm = dstrip(self.pnm) / np.sqrt(dstrip(self.dynm3))
         spnm = spnm.reshape(-1, 3)  # reshape for quick outer product
         return spnm.T @ spnm
 
-- 
2.43.0


From 68d91914ef8ed5b333a696456e94341f35df2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:07 +0000
Subject: [PATCH 016/128] fix: path force depends on the masses

---
 ipi/engine/beads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index be569ad..f5fdc9b 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -138,7 +138,7 @@ class Beads:
             name="fpath",
             value=np.zeros((nbeads, 3 * natoms), float),
             func=self.get_fpath,
-            dependencies=[self._q],
+            dependencies=[self._q, self._m3],
         )
 
         # create proxies to access the individual beads as Atoms objects
-- 
2.43.0


From 23dfc7dc57aeff2965f8053acfe8c25d34707240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:20 +0000
Subject: [PATCH 017/128] fix: Hamiltonian weights and bias forces act together
 in the dynamics

---
 ipi/engine/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..5f65cdf 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -205,7 +205,7 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0 or np.any(np.abs(self.hweights - 1) > 1e-10)
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From 3ea80aecdac17776915079f22df756cfa69990c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:19 +0000
Subject: [PATCH 018/128] fix: Hamiltonian weights are tracked as a dependency
 so that exchanges take effect

---
 ipi/engine/ensembles.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 5f65cdf..b3327fe 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,9 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(
+            name="hweights", value=np.array(hweights, dtype=float)
+        )
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +201,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +293,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From edaa5bcddd016ddbc8a1d8cec1be5dee171ea79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 019/128] fix: combining raw extras leaves those of the
 components untouched

---
 ipi/engine/forces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..3c4eb5d 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1541,7 +1541,8 @@ class Forces:
                                 for ib in range(self.nbeads):
                                     re["raw"][ib] += v[ib]
                             else:
-                                re["raw"] = v
+                                # makes a copy, not to touch the component's extras
+                                re["raw"] = list(v)
                         else:
                             if e in re:
                                 warning(
-- 
2.43.0


From 839d5a2e090ac3a3a30a463a6e260c38f6b79196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:39 +0000
Subject: [PATCH 020/128] fix: cell propagation with fixed cell components uses
 a well-defined sinh(v)/v

---
 ipi/engine/barostats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..a571e2a 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1109,10 +1109,10 @@ class BaroRGB(Barostat):
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-        # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
-            # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+        if np.linalg.norm(v * halfdt) < 0.1:
+            # compute sinhv/v by directly taylor: v might well be defective, e.g.
+            # when some of the cell components are fixed
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
@@ -1399,10 +1399,10 @@ class BaroMTK(Barostat):
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-        # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
-            # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+        if np.linalg.norm(v * halfdt) < 0.1:
+            # compute sinhv/v by directly taylor: v might well be defective, e.g.
+            # when some of the cell components are fixed
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
-- 
2.43.0


From 32636a65cd77b3cf2fff517dc4cdb39b440095fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:39 +0000
Subject: [PATCH 021/128] fix: cell Jacobian counts the free components of the
 cell, as the dynamics does

---
 ipi/engine/barostats.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index a571e2a..d8fec87 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1055,7 +1055,10 @@ class BaroRGB(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        # counts the free components of each row, as in the dynamics. The diagonal
+        # components that are fixed only contribute a constant.
+        nfree = [self.L[i, i] if self.hmask[i, i] != 0 else 3 - i for i in range(3)]
+        cj = np.sum([nfree[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
@@ -1339,7 +1342,10 @@ class BaroMTK(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        # counts the free components of each row, as in the dynamics. The diagonal
+        # components that are fixed only contribute a constant.
+        nfree = [self.L[i, i] if self.hmask[i, i] != 0 else 3 - i for i in range(3)]
+        cj = np.sum([nfree[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
-- 
2.43.0


From d02463acbf088e3338f25b360446117dc7eb026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:39 +0000
Subject: [PATCH 022/128] fix: flexible-cell barostats include the off-diagonal
 kinetic stress and the proper centroid virial

---
 ipi/engine/barostats.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index d8fec87..e6c845e 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -310,7 +310,8 @@ class Barostat:
         qqc = (dstrip(beads.q) - dstrip(beads.qc)).reshape(-1, 3)
         fall = fall.reshape(-1, 3)
 
-        kst = -noddot(qqc.T, fall)
+        # (i,j) element is the response to a strain of the i-th component along j
+        kst = -noddot(fall.T, qqc)
         # kst = np.zeros((3,3))
         # kst[0] = -noddot(qqc[:,0], fall)
         # kst[1,1:] = -noddot(qqc[:,1], fall[:,1:])
@@ -321,9 +322,7 @@ class Barostat:
             m = dstrip(beads.m)
             nbeads = beads.nbeads
 
-            kst[0, 0] += noddot(pc[:, 0], pc[:, 0] / m) * nbeads
-            kst[1, 1] += noddot(pc[:, 1], pc[:, 1] / m) * nbeads
-            kst[2, 2] += noddot(pc[:, 2], pc[:, 2] / m) * nbeads
+            kst += noddot(pc.T / m, pc) * nbeads
 
         return kst
 
@@ -1095,8 +1094,9 @@ class BaroRGB(Barostat):
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fp = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * 0.5 * (fp + fp.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
@@ -1384,8 +1384,9 @@ class BaroMTK(Barostat):
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fp = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * 0.5 * (fp + fp.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
-- 
2.43.0


From 986b733a75c2ac3e88c7a96017b8ed73e1d41428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:59 +0000
Subject: [PATCH 023/128] fix: barostats account for the bias forces in the
 time-integrated kinetic stress

---
 ipi/engine/barostats.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index e6c845e..d337e7a 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -296,15 +296,23 @@ class Barostat:
 
         return kst
 
-    def kstress_mts(self, level):
-        """Calculates the quantum centroid virial kinetic stress tensor
-        associated with the forces at a MTS level.
+    def f_mts(self, level):
+        """Returns the forces applied at a MTS level, including the bias that
+        is integrated in the outer loop.
         """
 
         fall = dstrip(self.forces.mts_forces[level].f)
         if level == 0 and self.bias is not None:
             # adds the bias. NB: don't += we don't want to overwrite the force
             fall = fall + dstrip(self.bias.f)
+        return fall
+
+    def kstress_mts(self, level):
+        """Calculates the quantum centroid virial kinetic stress tensor
+        associated with the forces at a MTS level.
+        """
+
+        fall = self.f_mts(level)
 
         beads = self.beads
         qqc = (dstrip(beads.q) - dstrip(beads.qc)).reshape(-1, 3)
@@ -595,7 +603,7 @@ class BaroBZP(Barostat):
             )
 
             pc = dstrip(self.beads.pc)
-            fc = np.sum(dstrip(self.forces.mts_forces[level].f), axis=0) / nbeads
+            fc = np.sum(self.f_mts(level), axis=0) / nbeads
             fc_m = fc / dstrip(self.beads.m3)[0]
 
             dt2 = dt * dt * self.beads.nbeads
@@ -803,14 +811,12 @@ class BaroSCBZP(Barostat):
                 )
             )
             pc = dstrip(self.beads.pc)
-            fc = (
-                np.sum(
-                    dstrip(self.forces.mts_forces[level].f)
-                    * (1 + self.forces.coeffsc_part_1),
-                    axis=0,
-                )
-                / self.beads.nbeads
+            fall = dstrip(self.forces.mts_forces[level].f) * np.asarray(
+                1 + self.forces.coeffsc_part_1
             )
+            if level == 0 and self.bias is not None:
+                fall = fall + dstrip(self.bias.f)
+            fc = np.sum(fall, axis=0) / self.beads.nbeads
             m = dstrip(self.beads.m3)[0]
 
             self.p += (
@@ -1087,9 +1093,7 @@ class BaroRGB(Barostat):
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
             fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
+                np.sum(self.f_mts(level), axis=0).reshape(self.beads.natoms, 3)
                 / self.beads.nbeads
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
@@ -1377,9 +1381,7 @@ class BaroMTK(Barostat):
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
             fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
+                np.sum(self.f_mts(level), axis=0).reshape(self.beads.natoms, 3)
                 / self.beads.nbeads
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
-- 
2.43.0


From 4a056eace70fb5739717ee0f11b769114d9be494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:32 +0000
Subject: [PATCH 024/128] fix: fixed cell components stay fixed with BAOAB, and
 off-diagonal stress does not add to the conserved quantity

---
 ipi/engine/barostats.py       | 66 +++++++++++++++++++++++++----------
 ipi/engine/motion/dynamics.py |  3 ++
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index d337e7a..68881ac 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -399,6 +399,11 @@ class Barostat:
             self.kstress_mts(level) + self.forces.mts_forces[level].vir + bvir
         ) / self.cell.V
 
+    def pconstraints(self):
+        """Dummy constraint on the momenta of the cell."""
+
+        pass
+
     def pstep(self, level=0):
         """Dummy momenta propagator step."""
 
@@ -1071,6 +1076,16 @@ class BaroRGB(Barostat):
 
         return self.thermostat.ethermo + self.kin + self.pot + self.cell_jacobian
 
+    def pconstraints(self):
+        """Removes the momentum of the fixed components of the cell.
+
+        Accumulates the associated change in conserved quantity. We use the thermostat
+        conserved quantity accumulator, so we don't need to create a new one."""
+
+        self.thermostat.ethermo += self.kin
+        self.p *= self.hmask
+        self.thermostat.ethermo -= self.kin
+
     def pstep(self, level=0):
         """Propagates the momenta for half a time step."""
 
@@ -1082,11 +1097,11 @@ class BaroRGB(Barostat):
         pi_ext = np.dot(hh0, np.dot(self.stressext, hh0.T)) * self.h0.V / self.cell.V
 
         stress = dstrip(self.stress_mts(level))
-        self.p += dt * (self.cell.V * np.triu(stress))
+        dp = dt * (self.cell.V * np.triu(stress))
 
         # integerates the kinetic part of the stress with the force at the inner-most level.
         if level == self.nmtslevels - 1:
-            self.p += dt * (
+            dp += dt * (
                 self.cell.V * np.triu(-self.beads.nbeads * pi_ext)
                 + Constants.kb * self.temp * self.L
             )
@@ -1099,16 +1114,17 @@ class BaroRGB(Barostat):
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             fp = np.dot(fcTonm, pc)
-            self.p += (
+            dp += (
                 np.triu(dt2 * 0.5 * (fp + fp.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
+        # the stress does not act on the off-diagonal components that are fixed
+        dp *= np.where(np.eye(3) == 1, 1.0, self.hmask)
+        self.p += dp
+
         # now apply the mask (and accumulate the associated change in conserved quantity)
-        # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
-        self.thermostat.ethermo += self.kin
-        self.p *= self.hmask
-        self.thermostat.ethermo -= self.kin
+        self.pconstraints()
 
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
@@ -1357,6 +1373,20 @@ class BaroMTK(Barostat):
 
         return self.thermostat.ethermo + self.kin + self.pot + self.cell_jacobian
 
+    def pconstraints(self):
+        """Removes the momentum of the fixed components of the cell.
+
+        Accumulates the associated change in conserved quantity. We use the thermostat
+        conserved quantity accumulator, so we don't need to create a new one."""
+
+        self.thermostat.ethermo += self.kin
+        self.p *= self.hmask
+        if self.vol_constraint is True:
+            # a traceless momentum tensor will not change the volume, see
+            # Rogge, S. M. J. et al. Theory Comput. 11, 5583–5597 (2015) DOI: 10.1021/acs.jctc.5b00748
+            self.p -= np.eye(3) * np.trace(self.p) / 3.0
+        self.thermostat.ethermo -= self.kin
+
     def pstep(self, level=0):
         """Propagates the momenta for half a time step."""
 
@@ -1370,11 +1400,11 @@ class BaroMTK(Barostat):
         #        L = np.diag([3, 2, 1])
 
         stress = dstrip(self.stress_mts(level))
-        self.p += dt * (self.cell.V * np.triu(stress))
+        dp = dt * (self.cell.V * np.triu(stress))
 
         # integerates the kinetic part of the stress with the force at the inner-most level.
         if level == self.nmtslevels - 1:
-            self.p += dt * (
+            dp += dt * (
                 self.cell.V * np.triu(-self.beads.nbeads * pi_ext)
                 + Constants.kb * self.temp * self.L
             )
@@ -1387,20 +1417,20 @@ class BaroMTK(Barostat):
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             fp = np.dot(fcTonm, pc)
-            self.p += (
+            dp += (
                 np.triu(dt2 * 0.5 * (fp + fp.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
-        # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
-        self.thermostat.ethermo += self.kin
-        self.p *= self.hmask
+        # the stress does not act on the off-diagonal components that are fixed,
+        # nor on the volume when it is constrained
+        dp *= np.where(np.eye(3) == 1, 1.0, self.hmask)
         if self.vol_constraint is True:
-            # a traceless momentum tensor will not change the volume, see
-            # Rogge, S. M. J. et al. Theory Comput. 11, 5583–5597 (2015) DOI: 10.1021/acs.jctc.5b00748
-            self.p -= np.eye(3) * np.trace(self.p) / 3.0
-        self.thermostat.ethermo -= self.kin
+            dp -= np.eye(3) * np.trace(dp) / 3.0
+        self.p += dp
+
+        # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
 
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bffae1e..8448421 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -654,6 +654,9 @@ class NPTIntegrator(NVTIntegrator):
 
         self.thermostat.step()
         self.barostat.thermostat.step()
+        if self.splitting == "baoab":
+            # the thermostat is followed by the propagation of the cell
+            self.barostat.pconstraints()
         # self.pconstraints()
 
 
-- 
2.43.0


From 5ee4f8507373219800fb2448fa936f7af56f03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:25 +0000
Subject: [PATCH 025/128] fix: Suzuki-Chin virial is the strain derivative of
 the square-force term

---
 ipi/engine/forces.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 3c4eb5d..daf3d3c 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1482,6 +1482,12 @@ class Forces:
                 fv = self.forcesvirs_4th_order(k)
                 rf += self.mforces[k].weight * self.mforces[k].mts_weights.sum() * fv[0]
                 rv += self.mforces[k].weight * self.mforces[k].mts_weights.sum() * fv[1]
+
+        # the force is a gradient with respect to positions that are strained with
+        # the cell, which gives an explicit contribution to the strain derivative
+        f = dstrip(self.f).reshape((self.nbeads, self.natoms, 3))
+        fm = f / dstrip(self.beads.m3).reshape(f.shape)
+        rv += 2.0 * np.triu(np.einsum("bai,baj->bij", f, fm))
         return [rf, rv]
 
     def pot_combine(self):
-- 
2.43.0


From 9896ad9a65abc784964481098642ed2e4507da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:42 +0000
Subject: [PATCH 026/128] fix: fixed atoms do not move with the springs or the
 Suzuki-Chin forces

---
 ipi/engine/motion/dynamics.py | 59 ++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8448421..cfbc704 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -358,6 +358,27 @@ class DummyIntegrator:
         """Dummy centroid position propagator which does nothing."""
         pass
 
+    def mask_fixed(self, f):
+        """Returns an array of forces, with those acting on fixed atoms set to zero."""
+
+        f = dstrip(f)
+        if len(self.fixatoms_dof) > 0:
+            f = f.copy()
+            f[:, self.fixatoms_dof] = 0.0
+        return f
+
+    def free_qstep(self):
+        """Free ring-polymer propagator, that does not act on fixed atoms."""
+
+        fix = self.fixatoms_dof
+        if len(fix) > 0:
+            qfix = dstrip(self.beads.q)[:, fix].copy()
+            pfix = dstrip(self.beads.p)[:, fix].copy()
+        self.nm.free_qstep()
+        if len(fix) > 0:
+            self.beads.q[:, fix] = qfix
+            self.beads.p[:, fix] = pfix
+
     def step(self, step=None):
         """Dummy simulation time step which does nothing."""
         pass
@@ -458,9 +479,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
 
             else:
                 self.mtsprop(index + 1)
@@ -475,7 +496,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ba(index + 1)
 
@@ -486,7 +507,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ab(index + 1)
 
@@ -500,9 +521,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop(index + 1)
 
@@ -574,10 +595,10 @@ class NVTCCIntegrator(NVTIntegrator):
         """Velocity Verlet momenta propagator."""
 
         # propagates in NM coordinates
-        self.nm.pnm += dstrip(self.nm.fnm) * (self.dt * 0.5)
+        self.nm.pnm += self.mask_fixed(self.nm.fnm) * (self.dt * 0.5)
         # also adds the bias force
         if self.ensemble.has_bias:
-            self.beads.p += dstrip(self.bias.f) * (self.dt * 0.5)
+            self.beads.p += self.mask_fixed(self.bias.f) * (self.dt * 0.5)
 
     def step(self, step=None):
         """Does one simulation time step."""
@@ -598,7 +619,7 @@ class NVTCCIntegrator(NVTIntegrator):
         # ring-polymer modes still need the half-step free propagations, that
         # are split further when multiple time stepping is requested.
         for i in range(2 * self.inmts):
-            self.nm.free_qstep()
+            self.free_qstep()
 
         self.pstep()
         self.nm.pnm[0, :] = 0.0
@@ -725,10 +746,10 @@ class SCIntegrator(NVTIntegrator):
 
         if level == 0:
             # bias goes in the outer loop
-            self.beads.p += dstrip(self.bias.f) * self.pdt[level]
+            self.beads.p += self.mask_fixed(self.bias.f) * self.pdt[level]
         # just integrate the Trotter force scaled with the SC coefficients, which is a cheap approx to the SC force
         self.beads.p += (
-            self.forces.mts_forces[level].f
+            self.mask_fixed(self.forces.mts_forces[level].f)
             * (1.0 + self.forces.coeffsc_part_1)
             * self.pdt[level]
         )
@@ -743,22 +764,22 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
 
             # forces are integerated for dt with MTS.
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
             self.mtsprop(0)
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
 
             # thermostat is applied for dt/2
             self.tstep()
             self.pconstraints()
 
         elif self.splitting == "baoab":
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
             self.mtsprop_ba(0)
             # thermostat is applied for dt
             self.tstep()
             self.pconstraints()
             self.mtsprop_ab(0)
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
             self.pconstraints()
 
 
@@ -814,10 +835,10 @@ class SCNPTIntegrator(SCIntegrator):
 
             # forces are integerated for dt with MTS.
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
             self.mtsprop(0)
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
 
             # thermostat is applied for dt/2
             self.tstep()
@@ -825,12 +846,12 @@ class SCNPTIntegrator(SCIntegrator):
 
         elif self.splitting == "baoab":
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
             self.mtsprop_ba(0)
             # thermostat is applied for dt
             self.tstep()
             self.pconstraints()
             self.mtsprop_ab(0)
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.beads.p += self.mask_fixed(self.forces.fsc_part_2) * self.dt * 0.5
             self.pconstraints()
-- 
2.43.0


From 1bdbc3e8f7f5476f989c9e1a231b676b6fce1f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:30 +0000
Subject: [PATCH 027/128] fix: units with digits or slashes in the comment line
 of a trajectory are recognised when it is read

---
 ipi/utils/io/io_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index aece708..0e62b97 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -14,10 +14,10 @@ from ipi.engine.properties import Trajectories as Traj
 
 __all__ = ["auto_units", "process_units"]
 # Regular expressions initialization for read_xyz function
-cell_unit_re = re.compile(r"cell\{([A-Za-z_]*)\}")  # cell unit pattern
+cell_unit_re = re.compile(r"cell\{([^{}]*)\}")  # cell unit pattern
 traj_dict = Traj().traj_dict  # trajectory dictionary
 traj_re = [
-    re.compile("%s%s" % (key, r"\{[A-Za-z_]*\}")) for key in list(traj_dict.keys())
+    re.compile("%s%s" % (key, r"\{[^{}]*\}")) for key in list(traj_dict.keys())
 ]  # trajectory patterns
 
 
-- 
2.43.0


From 26374c608a53fe2c1aad5064c6af1cd975a0f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:30 +0000
Subject: [PATCH 028/128] fix: reading a truncated xyz frame is an error

---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index ffd2c60..4f85f9b 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -150,7 +150,7 @@ def read_xyz(filedesc):
         if atom_counter == natoms:
             break
 
-    if natoms != len(names):
+    if natoms != atom_counter:
         raise ValueError(
             "The number of atom records does not match the header of the xyz file."
         )
-- 
2.43.0


From 1e21e02881d921004e8b12ca67e976b59b2129c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:30 +0000
Subject: [PATCH 029/128] fix: truncated binary frames are not read

---
 ipi/utils/io/backends/io_binary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/utils/io/backends/io_binary.py b/ipi/utils/io/backends/io_binary.py
index 51b3e00..575ab4c 100644
--- a/ipi/utils/io/backends/io_binary.py
+++ b/ipi/utils/io/backends/io_binary.py
@@ -47,8 +47,12 @@ def read_binary(filedesc):
         cell.shape = (3, 3)
         nat = np.fromfile(filedesc, dtype=int, count=1)[0]
         qatoms = np.fromfile(filedesc, dtype=float, count=3 * nat)
+        if len(qatoms) != 3 * nat:
+            raise ValueError("Truncated binary file")
         nat = np.fromfile(filedesc, dtype=int, count=1)[0]
         names = np.fromfile(filedesc, dtype="|U1", count=nat)
+        if len(names) != nat:
+            raise ValueError("Truncated binary file")
         names = "".join(names)
         names = names.split("|")
         masses = np.zeros(len(names))
-- 
2.43.0


From 8fadd9c2240b5d45f911b9868dbe9e48cda18ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 030/128] fix: units of explicit positions, momenta and
 velocities in initialize are honoured, and velocities need masses

---
 ipi/engine/initializer.py | 12 +++++++-----
 ipi/inputs/initializer.py |  4 +---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..a838c2f 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -223,12 +223,15 @@ def init_vector(
     if mode == "xyz" or mode == "pdb" or mode == "ase":
         rq = init_beads(iif, nbeads, dimension, units, cell_units).q
     elif mode == "chk":
+        rbeads = init_beads(iif, nbeads)
         if momenta:
-            rq = init_beads(iif, nbeads).p
+            rq = rbeads.p
+        elif dimension == "velocity":
+            rq = rbeads.p / rbeads.m3
         else:
-            rq = init_beads(iif, nbeads).q
+            rq = rbeads.q
     elif mode == "manual":
-        rq = value
+        rq = value * unit_to_internal(dimension, units, 1.0)
 
     # determines the size of the input data
     if mode == "manual":
@@ -562,10 +565,9 @@ class Initializer:
 
                 # checks if we must initialize the simulation beads
                 if simul.beads.nbeads == 0 or not fmass:
-                    ValueError(
+                    raise ValueError(
                         "Cannot initialize velocities before the masses of the atoms are known"
                     )
-                    simul.beads.resize(natoms, self.nbeads)
 
                 warning(
                     "Initializing from velocities uses the previously defined masses -- not the masses inferred from the file -- to build momenta",
diff --git a/ipi/inputs/initializer.py b/ipi/inputs/initializer.py
index f3ff811..b6e8e7e 100644
--- a/ipi/inputs/initializer.py
+++ b/ipi/inputs/initializer.py
@@ -487,9 +487,7 @@ class InputInitializer(Input):
         super(InputInitializer, self).fetch()
         initlist = []
         for k, v in self.extra:
-            if v.mode.fetch() == "chk" and not v.fetch(
-                initclass=ei.InitIndexed
-            ).units in ["", "automatic"]:
+            if v.mode.fetch() == "chk" and not v.units.fetch() in ["", "automatic"]:
                 raise ValueError(
                     "Cannot specify units for initialization from a checkpoint file - units should be defined _inside_ the file."
                 )
-- 
2.43.0


From a62dcbaf1cfc0e9d1ad65dacede418cf07467c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 031/128] fix: momenta or velocities given for a single bead
 are not rescaled by the number of beads

---
 ipi/engine/initializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index a838c2f..a59c7f9 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -552,7 +552,8 @@ class Initializer:
                         )
                     simul.beads.resize(natoms, self.nbeads)
 
-                rp *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # only rescale when converting a whole path
+                    rp *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rp)
                 fmom = True
             elif k == "velocities":
@@ -578,7 +579,8 @@ class Initializer:
                 else:
                     for ev in rv:
                         ev *= simul.beads.m3[0]
-                rv *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # only rescale when converting a whole path
+                    rv *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rv)
                 fmom = True
             elif k == "gle":
-- 
2.43.0


From 2932b4aa38628267b6008966cc69efe0605778b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:29 +0000
Subject: [PATCH 032/128] fix: thermal momenta of open paths use the dynamical
 masses of open paths

---
 ipi/engine/initializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index a59c7f9..8aa08a9 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -511,10 +511,14 @@ class Initializer:
                     rbeads.m[:] = simul.beads.m
                 else:
                     rbeads.m[:] = simul.beads.m[v.index]
+                ropen = simul.nm.open_paths
+                if v.index >= 0:
+                    ropen = [0] if v.index in ropen else []
                 rnm = NormalModes(
                     mode=simul.nm.mode,
                     transform_method=simul.nm.transform_method,
                     freqs=simul.nm.nm_freqs,
+                    open_paths=ropen,
                 )
                 rens = Ensemble(temp=simul.ensemble.temp)
                 rmv = Motion()
-- 
2.43.0


From 64a53510b08958b8cf729c69ca1166c83776bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:06 +0000
Subject: [PATCH 033/128] fix: coordinates in pdb files are read from the
 columns of the standard

---
 ipi/utils/io/backends/io_pdb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 45c0077..57ff1cd 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -182,9 +182,9 @@ def read_pdb(filedesc):
         name = body[12:16].strip()
         names.append(name)
         masses.append(Elements.mass(name))
-        x = float(body[31:39])
-        y = float(body[39:47])
-        z = float(body[47:55])
+        x = float(body[30:38])
+        y = float(body[38:46])
+        z = float(body[46:54])
         qatoms.append(x)
         qatoms.append(y)
         qatoms.append(z)
-- 
2.43.0


From cbcc81b87f77db3534fbb5cb3efd34ba52d1f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:06 +0000
Subject: [PATCH 034/128] fix: units in the title of a pdb file are used for
 quantities other than positions

---
 ipi/utils/io/backends/io_pdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 57ff1cd..c56fb48 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -7,6 +7,7 @@ in the PDB format.
 # See the "licenses" directory for full license information.
 
 
+import re
 import sys
 import copy
 
@@ -151,7 +152,7 @@ def read_pdb(filedesc):
         comment = copy.copy(header)
         header = filedesc.readline()
     # PDB defaults to Angstrom, because so says the standard
-    if "positions{" not in comment:
+    if re.search(r"(?<!cell)\{", comment) is None:
         comment = comment.strip()
         comment += " positions{angstrom}\n"
     if "cell{" not in comment:
-- 
2.43.0


From 5c8d3d94daa3f1beb30a80a73cc97004c2923cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:06 +0000
Subject: [PATCH 035/128] fix: positions read with ASE are converted even if no
 dimension is requested

---
 ipi/utils/io/io_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index 0e62b97..e50e01d 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -37,7 +37,7 @@ def auto_units(
     elif mode == "ase":
         auto_cell = "ase"
         auto_units = "ase"
-        auto_dimension = "undefined"
+        auto_dimension = "length"
     else:
         auto_cell = "atomic_unit"
         auto_units = "atomic_unit"
-- 
2.43.0


From 8882412c97c939f33ee438e0c7bac905a16e1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:28 +0000
Subject: [PATCH 036/128] fix: binary trajectories with several frames can be
 read back

---
 ipi/utils/io/backends/io_binary.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/backends/io_binary.py b/ipi/utils/io/backends/io_binary.py
index 575ab4c..9fd4ec2 100644
--- a/ipi/utils/io/backends/io_binary.py
+++ b/ipi/utils/io/backends/io_binary.py
@@ -38,6 +38,8 @@ def print_binary(
     nat.tofile(buff)
     np.asarray([names]).tofile(buff)
     # also saves the title to the file.
+    nat[0] = len(title)
+    nat.tofile(buff)
     np.asarray([title]).tofile(buff)
 
 
@@ -56,7 +58,11 @@ def read_binary(filedesc):
         names = "".join(names)
         names = names.split("|")
         masses = np.zeros(len(names))
-        title = "".join(np.fromfile(filedesc, dtype="|U1", count=-1))
-    except (StopIteration, ValueError):
+        nat = np.fromfile(filedesc, dtype=int, count=1)[0]
+        title = np.fromfile(filedesc, dtype="|U1", count=nat)
+        if len(title) != nat:
+            raise ValueError("Truncated binary file")
+        title = "".join(title)
+    except (StopIteration, ValueError, IndexError):
         raise EOFError
     return (title, cell, qatoms, names, masses)
-- 
2.43.0


From 13b43dd60e00e366c9711a7d4a14b62c79ffb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:19 +0000
Subject: [PATCH 037/128] fix: log of a sum of signed terms is right for
 negative terms

---
 ipi/utils/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/mathtools.py b/ipi/utils/mathtools.py
index b21f289..6a6117e 100644
--- a/ipi/utils/mathtools.py
+++ b/ipi/utils/mathtools.py
@@ -48,10 +48,10 @@ def logsumlog(lasa, lbsb):
 
     if la > lb:
         sr = sa
-        lr = la + np.log(1.0 + sb * np.exp(lb - la))
+        lr = la + np.log(1.0 + sa * sb * np.exp(lb - la))
     else:
         sr = sb
-        lr = lb + np.log(1.0 + sa * np.exp(la - lb))
+        lr = lb + np.log(1.0 + sa * sb * np.exp(la - lb))
 
     return (lr, sr)
 
-- 
2.43.0


From 409a735212dcd2f5bb8812e309900054502e88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 038/128] fix: threaded random numbers fill arrays of any
 layout or raise an error

---
 ipi/utils/prng.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 1f9bf74..d966cab 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -188,8 +188,9 @@ class Random(object):
             out: The array to be filled.
         """
 
-        # a view on the output: filling a copy would leave "out" untouched
-        out_flat = out.reshape(-1)
+        # a view on the output if it is contiguous, a buffer otherwise
+        contiguous = out.flags.c_contiguous
+        out_flat = out.reshape(-1) if contiguous else np.empty(out.size)
         step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)
         if step_size < _MIN_STEP_THREADED:
             # falls back to serial if the vector is too small
@@ -204,8 +205,10 @@ class Random(object):
                         out=out_flat[step_size * i : step_size * (i + 1)],
                     )
                 ] = i
-            concurrent.futures.wait(futures)
-            if not np.shares_memory(out, out_flat):
+            for future in futures:
+                # waits, and raises if the slice could not be filled
+                future.result()
+            if not contiguous:
                 out[...] = out_flat.reshape(out.shape)
 
     def gvec_serial(self, shape):
-- 
2.43.0


From ef5370537e8524e4a0b4fe1008cb85b30fbd2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 039/128] fix: a committee waits for the offsets of its members
 before combining them

---
 ipi/engine/forcefields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..67a1a21 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1457,6 +1457,11 @@ class FFCommittee(ForceField):
             "",
         ]
 
+        # releases the requests from the committee FF. this waits for the threads that
+        # are still finalizing the results (e.g. applying an offset)
+        for ff, ff_r in zip(self.fflist, r["ff_handles"]):
+            ff.release(ff_r)
+
         # list of pointers to the forcefield requests. shallow copy so we can remove stuff
         com_handles = r["ff_handles"].copy()
         if self.baseline_name != "":
@@ -1648,10 +1653,6 @@ class FFCommittee(ForceField):
             )
             self.active_file.write(dumps)
 
-        # releases the requests from the committee FF
-        for ff, ff_r in zip(self.fflist, r["ff_handles"]):
-            ff.release(ff_r)
-
     def poll(self):
         """Polls the forcefield object to check if it has finished."""
 
-- 
2.43.0


From 3ba8cfcf8754e260aae887c69931f280f88e9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 040/128] fix: extras of all the members of a committee are
 returned, not just those of the last

---
 ipi/engine/forcefields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 67a1a21..647a001 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1513,6 +1513,8 @@ class FFCommittee(ForceField):
                 frcs.append(ff_r["result"][1])
                 virs.append(ff_r["result"][2])
 
+            xtrs.append(ff_r["result"][3])
+
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
             raise ValueError(
@@ -1526,8 +1528,6 @@ class FFCommittee(ForceField):
             )
         virs = np.array(virs).reshape(-1, 3, 3)
 
-        xtrs.append(ff_r["result"][3])
-
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
         mean_frc = np.mean(frcs, axis=0)
@@ -1632,7 +1632,7 @@ class FFCommittee(ForceField):
             r["result"][3]["wb_mixing"] = (s_b2 / (s_b2 + var_pot),)
 
         # "dissolve" the extras dictionaries into a list
-        for k in xtrs[0].keys():
+        for k in {k: None for x in xtrs for k in x}:
             if ("committee_" + k) in r["result"][3].keys():
                 raise ValueError(
                     "Name clash between extras key "
@@ -1641,7 +1641,8 @@ class FFCommittee(ForceField):
                 )
             r["result"][3][("committee_" + k)] = []
             for x in xtrs:
-                r["result"][3][("committee_" + k)].append(x[k])
+                if k in x:
+                    r["result"][3][("committee_" + k)].append(x[k])
 
         if self.active_thresh > 0.0 and std_pot > self.active_thresh:
             dumps = json.dumps(
-- 
2.43.0


From c1bf98ea972581333b1b51f8df85b69cdc6b389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 041/128] fix: the offset of ffcavphsocket is applied once

---
 ipi/engine/forcefields.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 647a001..65ec8b3 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2467,8 +2467,6 @@ class FFCavPhSocket(FFSocket):
             result_tot[1][2:ndim_tot:3] += fz_cav
             result_tot[1][ndim_tot:] = f_ph
 
-        result_tot[0] -= self.offset
-
         # At this moment, we have sucessfully gathered the CavMD forces
         newreq = ForceRequest(
             {
-- 
2.43.0


From 53188bb9db43a0d3108f14774a1238993c05d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:51 +0000
Subject: [PATCH 042/128] fix: a rotated force field cannot undo the completion
 of its own request

---
 ipi/engine/forcefields.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 65ec8b3..69add11 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1781,7 +1781,6 @@ class FFRotations(ForceField):
         req = ForceField.queue(
             self, atoms, cell, reqid, template=dict(ff_handles=ffh, rots=rots)
         )
-        req["status"] = "Running"
         req["t_dispatched"] = time.time()
         return req
 
-- 
2.43.0


From b9e7fef0c3782d03ca9242a5e5c67bec269c3711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:51 +0000
Subject: [PATCH 043/128] fix: committee models returned in one go can be
 combined with other members

---
 ipi/engine/forcefields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 69add11..0689528 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1520,13 +1520,13 @@ class FFCommittee(ForceField):
             raise ValueError(
                 "If the committee returns forces, we need *all* components"
             )
-        frcs = np.array(frcs).reshape(len(frcs), -1)
+        frcs = np.array([np.asarray(frc).flatten() for frc in frcs])
 
         if len(pots) != len(virs) and len(virs) > 1:
             raise ValueError(
                 "If the committee returns virials, we need *all* components"
             )
-        virs = np.array(virs).reshape(-1, 3, 3)
+        virs = np.array([np.asarray(vir).reshape(3, 3) for vir in virs])
 
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
-- 
2.43.0


From f517a55eb37679fbc04bf16c584cf6553bbb68f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:28 +0000
Subject: [PATCH 044/128] fix: committees with ffdirect members can be written
 to a checkpoint

---
 ipi/inputs/forcefields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index 6b92762..c633f63 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1019,6 +1019,10 @@ class InputFFCommittee(InputForceField):
                     _iobj = InputFFSocket()
                     _iobj.store(_obj)
                     self.extra[_ii] = ("ffsocket", _iobj)
+                elif isinstance(_obj, FFDirect):
+                    _iobj = InputFFDirect()
+                    _iobj.store(_obj)
+                    self.extra[_ii] = ("ffdirect", _iobj)
                 elif isinstance(_obj, FFLennardJones):
                     _iobj = InputFFLennardJones()
                     _iobj.store(_obj)
-- 
2.43.0


From b71a9862f29eff01ebcd966d382d64ebd69bc7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 045/128] fix: a client that crashes or misbehaves while
 computing forces does not stop the polling thread

---
 ipi/interfaces/sockets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..258ab65 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -645,7 +645,11 @@ class Driver(DriverSocket):
         natoms = len(r["pos"][r["active"]]) // 3
         try:
             r["result"] = self._recv_forces_bulk(natoms)
-        except Disconnected:
+        except Exception as exc:
+            warning(
+                " @SOCKET:   Could not receive the forces: %s" % repr(exc),
+                verbosity.low,
+            )
             self.status = Status.Disconnected
             return False
 
@@ -839,7 +843,11 @@ class Driver(DriverSocket):
         natoms = len(reqs[0]["pos"][reqs[0]["active"]]) // 3
         try:
             results = self._recv_forces_bulk_batch(natoms, len(reqs))
-        except Disconnected:
+        except Exception as exc:
+            warning(
+                " @SOCKET:   Could not receive the forces: %s" % repr(exc),
+                verbosity.low,
+            )
             self.status = Status.Disconnected
             return False
 
-- 
2.43.0


From 416cbb1841af432f26f7ff50fac3636c428b4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 046/128] fix: headers that arrive in several pieces are put
 together

---
 ipi/interfaces/sockets.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 258ab65..e5b54da 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -153,7 +153,21 @@ class DriverSocket(socket.socket):
         Args:
            l: Length of the accepted message. Defaults to HDRLEN.
         """
-        return self.recv(length)
+        reply = self.recv(length)
+        ntimeout = 0
+        # the message might arrive in several pieces
+        while 0 < len(reply) < length:
+            try:
+                part = self.recv(length - len(reply))
+            except socket.timeout:
+                ntimeout += 1
+                if ntimeout > NTIMEOUT:
+                    raise Disconnected()
+                continue
+            if len(part) == 0:
+                break
+            reply += part
+        return reply
 
     def recvall(self, dest):
         """Gets the potential energy, force and virial from the driver.
-- 
2.43.0


From bf7e9a2b082dfed2801bb14ebecde2b3a40b03bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 047/128] fix: requests of clients that fail while served by a
 thread are given to another client

---
 ipi/interfaces/sockets.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index e5b54da..605a330 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -400,7 +400,7 @@ class Driver(DriverSocket):
                 self.get_status()
                 return
         else:
-            raise InvalidStatus("Status in init was " + self.status)
+            raise InvalidStatus("Status in init was " + str(self.status))
 
     def sendpos(self, pos, h_ih):
         """Sends the position and cell data to the driver.
@@ -439,7 +439,7 @@ class Driver(DriverSocket):
                 )
                 raise exc
         else:
-            raise InvalidStatus("Status in sendpos was " + self.status)
+            raise InvalidStatus("Status in sendpos was " + str(self.status))
 
     def _recv_forceready(self):
         """Receives the FORCEREADY header after GETFORCE has been sent.
@@ -467,7 +467,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) == 0:
                 raise Disconnected()
 
     def _recv_force_data(self):
@@ -522,9 +522,20 @@ class Driver(DriverSocket):
         """Dispatches a request r and looks after it setting results
         once it has been evaluated. This is meant to be launched as a
         separate thread, and takes care of all the communication related to
-        the request.
+        the request. If anything goes wrong the client is marked as
+        disconnected, so that the request can be given to another one.
         """
 
+        try:
+            self._dispatch(r)
+        except Exception as exc:
+            warning(" @SOCKET:   Error during dispatch: %s" % repr(exc), verbosity.low)
+        if r["status"] != "Done":
+            self.status = Status.Disconnected
+
+    def _dispatch(self, r):
+        """Does the actual work of dispatch."""
+
         if not self.status & Status.Up:
             warning(
                 " @SOCKET:   Inconsistent client state in dispatch thread! (I)",
@@ -547,6 +558,8 @@ class Driver(DriverSocket):
 
         r["start"] = time.time()
         self.sendpos(r["pos"][r["active"]], r["cell"])
+        if self.status & Status.Timeout:
+            return  # part of the positions might be missing
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -1043,7 +1056,7 @@ class SHMDriver(Driver):
     def sendpos(self, pos, h_ih):
         global TIMEOUT
         if not (self.status & Status.Ready):
-            raise InvalidStatus("Status in sendpos was " + self.status)
+            raise InvalidStatus("Status in sendpos was " + str(self.status))
         try:
             self.sendall(self._fill_shm([(pos, h_ih)]))
             self.status = Status.Up | Status.Busy
-- 
2.43.0


From 90205a2c30b0ce10ae21166e350530bde8899a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 048/128] fix: requests of clients that time out while served
 by a thread are not lost, and completed ones are not repeated

---
 ipi/interfaces/sockets.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 605a330..f17e068 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1433,14 +1433,17 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            tc.result()
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        # the client might have died just after delivering
+                        if k["status"] != "Done":
+                            k["status"] = "Queued"
+                            k["start"] = -1
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
@@ -1564,8 +1567,8 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
-                finished_ids.append(ijob)
+                # client disconnected. force a pool_update, which puts the request back in the queue
+                self.poll_iter = UPDATEFREQ
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
         for ijob in reversed(finished_ids):
-- 
2.43.0


From f64df65698e7d36d263daec11a40f3c601b5f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 049/128] fix: a client that does not answer STATUS within the
 timeout is dropped, and does not take down the others

---
 ipi/interfaces/sockets.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index f17e068..26a4a3e 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -246,6 +246,7 @@ class Driver(DriverSocket):
         self.locked = False
         self.exit_on_disconnect = False
         self.batch_size = 1  # >1 enables batched POSDATA/GETFORCE for this client
+        self.max_wait = 0.0  # >0 sets the longest wait for a reply to STATUS
 
     def shutdown(self, how=socket.SHUT_RDWR):
         """Tries to send an exit message to clients to let them exit gracefully."""
@@ -283,14 +284,17 @@ class Driver(DriverSocket):
                 return Status.Disconnected
 
         try:
-            readable, writable, errored = select.select([self], [], [], SELECTTIMEOUT)
+            wait = SELECTTIMEOUT
+            if self.max_wait > 0:
+                wait = min(wait, self.max_wait)
+            readable, writable, errored = select.select([self], [], [], wait)
             if self in readable:
                 reply = self.recv_msg(HDRLEN)
                 self.waitstatus = False  # got some kind of reply
             else:
                 # This is usually due to VERY slow clients.
                 warning(
-                    f" @SOCKET: Couldn't find readable socket in {SELECTTIMEOUT}s, will try again",
+                    f" @SOCKET: Couldn't find readable socket in {wait}s, will try again",
                     verbosity.low,
                 )
                 return Status.Busy
@@ -362,9 +366,13 @@ class Driver(DriverSocket):
 
     def get_status(self):
         """Sets (and returns) the client internal status. Wait for an answer if
-        the client is busy."""
+        the client is busy, unless it has been silent for longer than the timeout."""
+        start = time.time()
         status = self._getstatus()
         while status & Status.Busy:
+            if self.max_wait > 0 and time.time() - start >= self.max_wait:
+                status = Status.Disconnected
+                break
             status = self._getstatus()
         self.status = status
         return status
@@ -1460,6 +1468,7 @@ class InterfaceSocket(object):
                 client.settimeout(TIMEOUT)
                 driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
                 driver.batch_size = self.batch_size
+                driver.max_wait = self.timeout
                 info(
                     " @interfacesocket.pool_update:   Client asked for connection from "
                     + str(address)
@@ -1674,6 +1683,8 @@ class InterfaceSocket(object):
                 for ijob, [r, c, _] in enumerate(self.jobs):
                     start = (r[0] if isinstance(r, list) else r)["start"]
                     if start > 0 and now - start > self.timeout:
+                        if len(select.select([c], [], [], 0)[0]) > 0:
+                            continue  # the reply is there, just waiting to be read
                         warning(
                             " @SOCKET:  Timeout! request has been running for "
                             + str(now - start)
-- 
2.43.0


From 53c80de6a1ced6fd3ebfb1902e3bbb6b212c184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 050/128] fix: a client that disconnects before the handshake
 does not stop the polling thread

---
 ipi/interfaces/sockets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 26a4a3e..0fe0ae9 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1466,7 +1466,12 @@ class InterfaceSocket(object):
             if self.server in readable:
                 client, address = self.server.accept()
                 client.settimeout(TIMEOUT)
-                driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                try:
+                    driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                except OSError:
+                    # the client has gone already
+                    client.close()
+                    continue
                 driver.batch_size = self.batch_size
                 driver.max_wait = self.timeout
                 info(
-- 
2.43.0


From fc82a162bbc18384470621362644c8177ffb8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:16 +0000
Subject: [PATCH 051/128] fix: a dead client that is not working does not block
 the distribution of requests

---
 ipi/interfaces/sockets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 0fe0ae9..b9cdc26 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1544,11 +1544,13 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            dispatched_this_round = False
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
                         freec.remove(fc)
                         ndispatch += 1
+                        dispatched_this_round = True
 
                     if len(self.prlist) == 0:
                         break
@@ -1559,6 +1561,9 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+            # the clients that are left cannot take any request
+            if not dispatched_this_round:
+                break
         tdispatch += time.time()
 
         # now check for client status
-- 
2.43.0


From 0fc809d190e82f7f685eac9cfd8a7186aa9fd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:05 +0000
Subject: [PATCH 052/128] fix: the Python driver announces the length of the
 extra string in bytes, not characters

---
 drivers/py/driver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..6d33a57 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -213,9 +213,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -235,9 +235,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -270,8 +270,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
+            extras = extras.encode("utf-8")
             send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            sock.sendall(extras)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From 9ecc89b4da0c347c0c5b4723a49ac9fd6095dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:09 +0000
Subject: [PATCH 053/128] fix: a soft exit during a step always rolls back to
 the beginning of that step

---
 ipi/engine/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..f40d772 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -428,7 +428,10 @@ class Simulation:
                 )
                 break
 
-        self.rollback = False
+        # if a soft exit was requested halfway through a step, the status stored at
+        # the beginning of the step is the one to be saved
+        if not softexit.triggered:
+            self.rollback = False
 
     def run_step(self, step):
         if len(self.syslist) > 0 and self.threading:
-- 
2.43.0


From f30cfe95807b6d574dac414091229977f8df0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 054/128] fix: RESTART is consistent if a soft exit comes while
 the status is being stored

---
 ipi/engine/outputs.py    | 16 +++++++++++++---
 ipi/engine/simulation.py |  4 ++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index d8db273..2c3fe74 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -9,6 +9,7 @@ and the restart files.
 # See the "licenses" directory for full license information.
 
 import os
+import threading
 
 import numpy as np
 
@@ -704,6 +705,7 @@ class CheckpointOutput:
         """
 
         self.simul = simul
+        self._threadlock = threading.RLock()
         import ipi.inputs.simulation as isimulation
 
         self.status = isimulation.InputSimulation()
@@ -723,9 +725,10 @@ class CheckpointOutput:
         positions would have been consistent.
         """
 
-        self._storing = True
-        self.status.store(self.simul)
-        self._storing = False
+        with self._threadlock:
+            self._storing = True
+            self.status.store(self.simul)
+            self._storing = False
 
     def write(self, store=True):
         """Writes out the required trajectories.
@@ -744,6 +747,13 @@ class CheckpointOutput:
               stored before writing the checkpoint file.
         """
 
+        # waits for other threads that are storing or writing
+        with self._threadlock:
+            self._write(store)
+
+    def _write(self, store):
+        """Does the work of write(), with the checkpoint locked."""
+
         if self._storing:
             info(
                 "@ CHECKPOINT: Write called while storing. Force re-storing",
diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index f40d772..100aa45 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,9 +313,9 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
+            if self.step < self.tsteps:
+                self.step += 1
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
-- 
2.43.0


From ec6a68cbf4b16073a532f2e51d21175b57b62442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 055/128] fix: the main thread does not terminate while another
 thread writes the RESTART file

---
 ipi/utils/softexit.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ipi/utils/softexit.py b/ipi/utils/softexit.py
index 8b6dc71..5bae93e 100644
--- a/ipi/utils/softexit.py
+++ b/ipi/utils/softexit.py
@@ -8,6 +8,7 @@
 import sys
 import os
 import time
+import atexit
 import threading
 import signal
 
@@ -43,6 +44,7 @@ class Softexit(object):
         self._thread = None
         self.triggered = False
         self.exiting = False
+        self._cleaner = None
         self._doloop = [False]
 
     def register_function(self, func, *args, **kwargs):
@@ -90,6 +92,7 @@ class Softexit(object):
             message,
         )
         if not self.triggered:  # avoid double calls from different threads
+            self._cleaner = threading.current_thread()
             self.exiting = True
             self.triggered = True
 
@@ -130,6 +133,19 @@ class Softexit(object):
             ):
                 t.join()
 
+    def wait(self):
+        """Waits for a cleanup that is being run by another thread.
+
+        Cleanup is often run by a daemon thread, that would be killed
+        halfway through if the main thread terminates."""
+
+        while (
+            self.exiting
+            and self._cleaner is not threading.current_thread()
+            and self._cleaner.is_alive()
+        ):
+            time.sleep(0.01)
+
     def kill(self):
         """Terminates the current thread/process."""
 
@@ -207,3 +223,4 @@ class Softexit(object):
 
 
 softexit = Softexit()
+atexit.register(softexit.wait)
-- 
2.43.0


From 3f2a9bded9c10a6860baee93d5d49b78629f231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:59 +0000
Subject: [PATCH 056/128] fix: a soft exit does not wait for clients that do
 not answer

---
 ipi/engine/forcefields.py | 1 +
 ipi/interfaces/sockets.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 0689528..670845f 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -379,6 +379,7 @@ class FFSocket(ForceField):
     def stop(self):
         """Closes the socket and the thread."""
 
+        self.socket.exiting = True
         super(FFSocket, self).stop()
         if self._thread is not None:
             # must wait until loop has ended before closing the socket
diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b9cdc26..07a372b 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1292,6 +1292,7 @@ class InterfaceSocket(object):
         self.sockets_prefix = sockets_prefix
         self.poll_iter = UPDATEFREQ  # triggers pool_update at first poll
         self.prlist = []  # list of pending requests
+        self.exiting = False  # set when the forcefield is being stopped
         self.match_mode = match_mode  # heuristics to match jobs and active clients
         self.requests = None  # these will be linked to the request list of the FFSocket object using the interface
         self.exit_on_disconnect = exit_on_disconnect
@@ -1308,6 +1309,8 @@ class InterfaceSocket(object):
         create the associated socket object.
         """
 
+        self.exiting = False
+
         # "shm" uses a unix socket for the control handshake; only the bulk
         # numeric payload is moved into shared memory by SHMDriver.
         if self.mode in ("unix", "shm"):
@@ -1654,6 +1657,8 @@ class InterfaceSocket(object):
 
         # Collect phase: drain in-flight jobs as they become readable
         while self.jobs:
+            if self.exiting:  # do not wait for clients that may never answer
+                break
             sockets = [c for _, c, _ in self.jobs]
             try:
                 readable, _, _ = select.select(sockets, [], [], 0.01)
-- 
2.43.0


From 3b48fddc82992463b7ef831030efc58972a95ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:28 +0000
Subject: [PATCH 057/128] fix: output records are written in one go, so that a
 soft exit does not leave truncated ones

---
 ipi/engine/outputs.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index 2c3fe74..5b636c0 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -10,6 +10,7 @@ and the restart files.
 
 import os
 import threading
+from io import StringIO
 
 import numpy as np
 
@@ -276,7 +277,8 @@ class PropertyOutput(BaseOutput):
 
         if not self.active():
             return
-        self.out.write("  ")
+        # the line is written in one go, so it is never truncated by a soft exit
+        line = "  "
         for what in self.outlist:
             try:
                 quantity, dimension, unit = self.system.properties[what]
@@ -285,12 +287,12 @@ class PropertyOutput(BaseOutput):
             except KeyError:
                 raise KeyError(what + " is not a recognized property")
             if not hasattr(quantity, "__len__"):
-                self.out.write(write_type(float, quantity) + "   ")
+                line += write_type(float, quantity) + "   "
             else:
                 for el in quantity:
-                    self.out.write(write_type(float, el) + " ")
+                    line += write_type(float, el) + " "
 
-        self.out.write("\n")
+        self.out.write(line + "\n")
 
         self.nout += 1
         if self.flush > 0 and self.nout >= self.flush:
@@ -541,6 +543,12 @@ class TrajectoryOutput(BaseOutput):
               after each write to file or not.
         """
 
+        # the frame is put together in memory and written in one go, so it is never
+        # truncated by a soft exit (binary data can only go straight to a file)
+        outfile = stream
+        if format != "bin":
+            stream = StringIO()
+
         key = getkey(what)
         if key in ["extras", "extras_component_raw", "extras_bias"]:
             if key == "extras_component_raw":
@@ -613,9 +621,11 @@ class TrajectoryOutput(BaseOutput):
                             "No specialized writer for arrays of dimension > 2"
                         )
                     stream.write("\n")
+            if stream is not outfile:
+                outfile.write(stream.getvalue())
             if flush:
-                stream.flush()
-                os.fsync(stream)
+                outfile.flush()
+                os.fsync(outfile)
             return
         elif getkey(what) in [
             "positions",
@@ -655,9 +665,11 @@ class TrajectoryOutput(BaseOutput):
             units=units,
             cell_units=cell_units,
         )
+        if stream is not outfile:
+            outfile.write(stream.getvalue())
         if flush:
-            stream.flush()
-            os.fsync(stream)
+            outfile.flush()
+            os.fsync(outfile)
 
 
 class CheckpointOutput:
-- 
2.43.0


From 41ef93465119fe4dff72c8d0a1adc910ba907bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:02 +0000
Subject: [PATCH 058/128] fix: a soft exit does not wait forever for threads
 that cannot end

---
 ipi/utils/softexit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/softexit.py b/ipi/utils/softexit.py
index 5bae93e..df30ac6 100644
--- a/ipi/utils/softexit.py
+++ b/ipi/utils/softexit.py
@@ -125,13 +125,14 @@ class Softexit(object):
             for t, dl in self.tlist:  # set thread exit flag
                 dl[0] = False
 
-        # wait for all (other) threads to finish
+        # wait for all (other) threads to finish, but not forever as they might be
+        # waiting for a lock that is held by the thread we have been called from
         for t, dl in self.tlist:
             if not (
                 threading.currentThread() is self._thread
                 or threading.currentThread() is t
             ):
-                t.join()
+                t.join(10 * SOFTEXITLATENCY)
 
     def wait(self):
         """Waits for a cleanup that is being run by another thread.
-- 
2.43.0


From 13974c11692a1fce8c2183f1ce0d0211de018f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:21 +0000
Subject: [PATCH 059/128] fix: a signal while threads are being started does
 not prevent i-PI from ending

---
 ipi/engine/simulation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index 100aa45..6b3d261 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -288,9 +288,14 @@ class Simulation:
                     isys += 1
 
         if self.threading:
-            self.executor = ThreadPoolExecutor(
-                max_workers=max(len(self.syslist), len(self.outputs))
-            )
+            nworkers = max(len(self.syslist), len(self.outputs))
+            self.executor = ThreadPoolExecutor(max_workers=nworkers)
+            # starts all threads before signals are intercepted, as a thread that
+            # is interrupted while it is being started would never be terminated
+            started = threading.Barrier(nworkers + 1)
+            for _ in range(nworkers):
+                self.executor.submit(started.wait)
+            started.wait()
 
         self.chk = eoutputs.CheckpointOutput("RESTART", 1, True, 0)
         self.chk.bind(self)
-- 
2.43.0


From 500f0ce2e88758771d3e04031a92030329c90f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:12 +0000
Subject: [PATCH 060/128] fix: the time scales of the cl thermostat are applied
 over the whole time step

---
 ipi/engine/thermostats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index e4aa8bb..290a729 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1098,7 +1098,7 @@ class ThermoCL(Thermostat):
         """Calculates the Langevin coefficient of drift."""
 
         if self.tau > 0:
-            return np.exp(-0.5 * self.dt / self.tau)
+            return np.exp(-self.dt / self.tau)
         else:
             return 1.0
 
@@ -1106,7 +1106,7 @@ class ThermoCL(Thermostat):
         """Calculates the coefficient of drift to compensate for the inherent noise."""
 
         if self.intau > 0:
-            return np.exp(-0.5 * self.dt / self.intau)
+            return np.exp(-self.dt / self.intau)
         else:
             return 1.0
 
@@ -1114,7 +1114,7 @@ class ThermoCL(Thermostat):
         """Calculates the coefficient of drift for the inherent dissipation."""
 
         if self.idtau > 0:
-            return np.exp(-0.5 * self.dt / self.idtau)
+            return np.exp(-self.dt / self.idtau)
         else:
             return 1.0
 
-- 
2.43.0


From 9bac4205eb0b7107cdc98c6435cccbb3df474235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:02 +0000
Subject: [PATCH 061/128] fix: thermostats in the bead representation use the
 dynamical masses of the normal modes

---
 ipi/engine/thermostats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index 290a729..ab0e772 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -115,7 +115,11 @@ class Thermostat:
         else:
             self.prng = prng
 
-        if beads is not None:
+        if beads is not None and nm is not None and nm.mode != "rpmd":
+            # the dynamical masses are only diagonal in the normal modes representation
+            self._p = nm.pnm.flatten()
+            self._m = nm.dynm3.flatten()
+        elif beads is not None:
             self._p = beads.p.flatten()
             self._m = beads.m3.flatten()
         elif atoms is not None:
@@ -759,7 +763,7 @@ class ThermoGLE(Thermostat):
         """
 
         super(ThermoGLE, self).bind(
-            beads=beads, atoms=atoms, pm=pm, prng=prng, fixdof=fixdof
+            beads=beads, atoms=atoms, pm=pm, nm=nm, prng=prng, fixdof=fixdof
         )
 
         # allocates, initializes or restarts an array of s's
-- 
2.43.0


From 0898557f83dc1f91a9235bffad86c89d4cdad1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:34 +0000
Subject: [PATCH 062/128] fix: constrained dynamics can be set up and run again

The constructor did not follow the renaming of fixatoms to fixatoms_dof, and
the momentum step that of the MTS forces, so that every run with
motion mode='constrained_dynamics' stopped with an exception.
---
 ipi/engine/motion/constrained_dynamics.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 3749d82..987295f 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -62,7 +62,7 @@ class ConstrainedDynamics(Dynamics):
         thermostat=None,
         barostat=None,
         fixcom=False,
-        fixatoms=None,
+        fixatoms_dof=None,
         nmts=None,
         nsteps_geo=1,
         nsteps_o=1,
@@ -77,7 +77,7 @@ class ConstrainedDynamics(Dynamics):
                 motion will be constrained or not. Defaults to False.
         """
 
-        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms=fixatoms)
+        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms_dof=fixatoms_dof)
         self._dt = depend_value(name="dt", value=timestep)
 
         if thermostat is None:
@@ -137,11 +137,7 @@ class ConstrainedDynamics(Dynamics):
                 "Cannot simultaneously fix cell CoM and enforce Eckart constraints!"
             )
 
-        if fixatoms is None:
-            self.fixatoms = np.zeros(0, int)
-        else:
-            self.fixatoms = fixatoms
-        if len(self.fixatoms) > 0:
+        if len(self.fixatoms_dof) > 0:
             raise ValueError("Cannot fix atoms together with constrained MD")
 
         if csolver is None:
@@ -402,7 +398,9 @@ class NVEConstrainedIntegrator(ConstrainedIntegrator):
 
     def step_B(self, level=0):
         """Unconstrained B-step (momentum integration)"""
-        self.beads.p[0] += self.forces.forces_mts(level)[0] * self.pdt[level]
+        self.beads.p[0] += (
+            dstrip(self.forces.mts_forces[level].f)[0] * self.pdt[level]
+        )
 
     def step_Bc(self, level=0):
         """Unconstrained B-step (momentum integration)
-- 
2.43.0


From 901366c9b39a88a68de605e55da1e8c1eba26dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:34 +0000
Subject: [PATCH 063/128] fix: bias forces act in constrained dynamics

The bias potential is part of the conserved quantity, but its forces were
left out.
---
 ipi/engine/motion/constrained_dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 987295f..22c057b 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -401,6 +401,8 @@ class NVEConstrainedIntegrator(ConstrainedIntegrator):
         self.beads.p[0] += (
             dstrip(self.forces.mts_forces[level].f)[0] * self.pdt[level]
         )
+        if level == 0 and self.ensemble.has_bias:  # adds bias in the outer loop
+            self.beads.p[0] += dstrip(self.bias.f)[0] * self.pdt[level]
 
     def step_Bc(self, level=0):
         """Unconstrained B-step (momentum integration)
-- 
2.43.0


From 7626e522b4d954b42ddcbe5067640ccd5d98d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:34 +0000
Subject: [PATCH 064/128] fix: kinetic temperature accounts for geometric
 constraints

As for the other fixed degrees of freedom, the kinetic energy they do not
carry has to be added, or the temperature of a system with rigid molecules
is underestimated.
---
 ipi/engine/properties.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f8e3e86..a52f5b2 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1170,6 +1170,15 @@ class Properties:
                 )
                 eff_number_fixed_dof += np.sum(flags[dof_ids]) * eff_nbeads
 
+            # geometric constraints: their share of the momenta of the selected atoms
+            for c in getattr(self.motion, "constraint_list", []):
+                dg = dstrip(c.Dg)
+                share = np.zeros(self.beads.natoms * 3)
+                share[c.i3_unique] = np.sum(
+                    dg * np.linalg.solve(dstrip(c.Gram), dg / dstrip(c.m3)), axis=0
+                )
+                eff_number_fixed_dof += np.sum(share.reshape(-1, 3)[atom_ids])
+
             kemd += (
                 0.5 * Constants.kb * self.ensemble.temp * eff_number_fixed_dof
             )  # short for 0.5*N*kB*T * eff_number_fixed_dof / N, " / N " is bead-averaging to match the definition of kemd.
-- 
2.43.0


From 37b0f0c794f87fe894ea0e22076e3aa14010b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:34 +0000
Subject: [PATCH 065/128] fix: constraint solver reports missing convergence,
 and infinity norms can be restarted

The warning could never be printed, and a checkpoint of a run with
norm_order=-1 was not readable.
---
 ipi/engine/motion/constrained_dynamics.py | 3 +--
 ipi/inputs/motion/constrained_dynamics.py | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 22c057b..e366629 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -318,8 +318,7 @@ class ConstraintSolver(ConstraintSolverBase):
                 constr.q = q[ic]  # updates the constraint to recompute g
 
                 p[ic] -= delta / self.dt
-
-            if i == self.maxit:
+            else:
                 warning(
                     "No convergence in Newton iteration for positional component",
                     verbosity.low,
diff --git a/ipi/inputs/motion/constrained_dynamics.py b/ipi/inputs/motion/constrained_dynamics.py
index cd297b3..655f388 100644
--- a/ipi/inputs/motion/constrained_dynamics.py
+++ b/ipi/inputs/motion/constrained_dynamics.py
@@ -63,7 +63,10 @@ class InputConstraintSolver(InputDictionary):
     def store(self, csolver):
         self.tolerance.store(csolver.tolerance)
         self.maxit.store(csolver.maxit)
-        self.norm_order.store(csolver.norm_order)
+        # the infinity norm is requested as -1
+        self.norm_order.store(
+            -1 if np.isinf(csolver.norm_order) else csolver.norm_order
+        )
 
     def fetch(self):
         return super(InputConstraintSolver, self).fetch()
-- 
2.43.0


From 56c918260628d44481467fee64e691d75b753f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:38 +0000
Subject: [PATCH 066/128] fix: temperature of a normal mode with frozen atoms
 and constrained centroid

The frozen degrees of freedom are already counted in the centroid, and have to
be counted in full in the other modes.
---
 ipi/engine/properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index a52f5b2..569773b 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1163,11 +1163,12 @@ class Properties:
                 dof_ids = np.concatenate(
                     (atom_ids * 3, atom_ids * 3 + 1, atom_ids * 3 + 2)
                 )
-                eff_nbeads = (
-                    self.beads.nbeads - 1  # prevent double counting
-                    if self.motion.enstype == "nvt-cc"
-                    else self.beads.nbeads
-                )
+                eff_nbeads = self.beads.nbeads
+                if self.motion.enstype == "nvt-cc":  # prevent double counting
+                    if nm == "":
+                        eff_nbeads -= 1
+                    elif int(nm) == 0:
+                        eff_nbeads = 0
                 eff_number_fixed_dof += np.sum(flags[dof_ids]) * eff_nbeads
 
             # geometric constraints: their share of the momenta of the selected atoms
-- 
2.43.0


From c151802cc4610115f8cd330053612d7466893b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:40 +0000
Subject: [PATCH 067/128] fix: the center-of-mass velocity of a single bead can
 be output

---
 ipi/engine/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 569773b..04469eb 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1761,10 +1761,11 @@ class Properties:
     def get_vcom(self, latom="", bead=-1):
         """Computes the center of mass velocity for the system or for a specified species"""
 
+        bead = int(bead)
         if bead < 0:
             p = dstrip(self.beads.pc)
         else:
-            p = dstrip(self.beads[bead])
+            p = dstrip(self.beads.p)[bead]
         pcom = np.zeros(3)
         tm = 0
         for i in range(self.beads.natoms):
-- 
2.43.0


From 70ea3637b52b56ab95719ada69647afcc8623373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:40 +0000
Subject: [PATCH 068/128] fix: pot_component_raw averages over the beads of the
 component

---
 ipi/engine/properties.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 04469eb..cdb70a5 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -405,8 +405,7 @@ class Properties:
                        discretization of the given component. Potential weights will not be applied. """,
                 "func": (
                     lambda index, bead="-1": (
-                        self.forces.pots_component(int(index), False, False).sum()
-                        / self.beads.nbeads
+                        self.forces.pots_component(int(index), False, False).mean()
                         if int(bead) < 0
                         else self.forces.pots_component(int(index), False, False)[
                             int(bead)
-- 
2.43.0


From dc5d8fa7e40257571747e25855bc698f20204ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:40 +0000
Subject: [PATCH 069/128] fix: atom_f_path is a force

---
 ipi/engine/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index cdb70a5..fd8c4b3 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -575,7 +575,7 @@ class Properties:
                 ),
             },
             "atom_f_path": {
-                "dimension": "length",
+                "dimension": "force",
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
-- 
2.43.0


From 1b69b7d68fadcffcd2b3951267e13ee5e5dafe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:40 +0000
Subject: [PATCH 070/128] fix: displaced-path and scaled-coordinate estimators
 use the current cell

---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index fd8c4b3..ce5cd4b 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1989,6 +1989,7 @@ class Properties:
         u = np.array([float(ux), float(uy), float(uz)])
         u_size = np.dot(u, u)
         q = dstrip(self.beads.q)
+        self.dcell.h = self.cell.h
         nat = self.beads.natoms
         nb = self.beads.nbeads
         nx_tot = 0.0
@@ -2260,6 +2261,7 @@ class Properties:
         q = dstrip(self.beads.q)
         #        f = dstrip(self.forces.f)
         qc = dstrip(self.beads.qc)
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -2548,6 +2550,7 @@ class Properties:
         qc = dstrip(self.beads.qc)
         q = dstrip(self.beads.q)
         v0 = self.forces.pot
+        self.dcell.h = self.cell.h
         self.dbeads.q = q
 
         for i in range(self.beads.natoms):
@@ -2748,6 +2751,7 @@ class Properties:
         f = dstrip(self.forces.f)
         v0 = self.forces.pot
         pots = self.forces.pots
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -3315,6 +3319,7 @@ class Trajectories:
         qc = dstrip(self.system.beads.qc)
         q = dstrip(self.system.beads.q)
         v0 = self.system.forces.pot / nb
+        self.dcell.h = self.system.cell.h
         self.dbeads.q = q
 
         for i in range(nat):
-- 
2.43.0


From 3e42b0b15bb327ca2fabe026c6597af5d252357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:30 +0000
Subject: [PATCH 071/128] fix: Suzuki-Chin scaled-coordinates estimator
 includes the temperature dependence of the square-force term

---
 ipi/engine/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index ce5cd4b..6a53376 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2162,7 +2162,6 @@ class Properties:
 
         dbeta = abs(fd_delta)
         beta = 1.0 / (Constants.kb * self.ensemble.temp)
-        self.dforces.omegan2 = self.forces.omegan2
         self.dforces.alpha = self.forces.alpha
         self.dcell.h = self.cell.h
 
@@ -2177,10 +2176,13 @@ class Properties:
 
             for b in range(self.beads.nbeads):
                 self.dbeads[b].q = qc * (1.0 - splus) + splus * q[b, :]
+            # the square-force term depends explicitly on temperature
+            self.dforces.omegan2 = self.forces.omegan2 / (1.0 + dbeta) ** 2
             vplus = (self.dforces.pot + self.dforces.potsc) / self.beads.nbeads
 
             for b in range(self.beads.nbeads):
                 self.dbeads[b].q = qc * (1.0 - sminus) + sminus * q[b, :]
+            self.dforces.omegan2 = self.forces.omegan2 / (1.0 - dbeta) ** 2
             vminus = (self.dforces.pot + self.dforces.potsc) / self.beads.nbeads
 
             if (
-- 
2.43.0


From f8d4e6274b59530967d9f89b88f3740f3d81c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:36 +0000
Subject: [PATCH 072/128] fix: property headers account for all the columns of
 path properties

---
 ipi/engine/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 6a53376..beed75d 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -989,6 +989,8 @@ class Properties:
         )  # lock to avoid concurrent access and messing up with dbeads
 
         self.property_dict["bead_potentials"]["size"] = self.beads.nbeads
+        for path in ("atom_x_path", "atom_f_path"):
+            self.property_dict[path]["size"] = 3 * self.beads.nbeads
         # self.properties_init()  # Initialize the properties here so that all
         # +all variables are accessible (for example to set
         # +the size of the hamiltonian_weights).
-- 
2.43.0


From 97925587cae6494ca83d13a619c1552c8965a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:36 +0000
Subject: [PATCH 073/128] fix: output files in a folder of their own can be
 backed up

---
 ipi/utils/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..3c3bfac 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -450,7 +450,8 @@ def open_backup(filename, mode="r", buffering=-1):
         i = 0
         fn_backup = filename
         while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
+            path, name = os.path.split(filename)
+            fn_backup = os.path.join(path, "#" + name + "#%i#" % i)
             i += 1
 
         if fn_backup != filename:
-- 
2.43.0


From bfe9259510cd50da83273dad9754027e7c509c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:12 +0000
Subject: [PATCH 074/128] fix: the extra momenta of GLE thermostats are
 rescaled with the square root of the temperatures when replicas are exchanged

---
 ipi/engine/smotion/remd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/smotion/remd.py b/ipi/engine/smotion/remd.py
index 8061c27..dc8b267 100644
--- a/ipi/engine/smotion/remd.py
+++ b/ipi/engine/smotion/remd.py
@@ -165,8 +165,9 @@ class ReplicaExchange(Smotion):
                     )
 
                     # if we have GLE thermostats, we also have to exchange rescale the s!!!
-                    gle_scale(sl[i], (tj / ti))
-                    gle_scale(sl[j], (ti / tj))
+                    # (these are mass-scaled momenta, so that <s^2> \propto T)
+                    gle_scale(sl[i], np.sqrt(tj / ti))
+                    gle_scale(sl[j], np.sqrt(ti / tj))
 
                     t_eval -= time.time()
                     # we just have to carry on with the swapped ensembles, but we also keep track of the changes in econs
-- 
2.43.0


From 3f453d931a0dbc84017b3138fe1743b0b9ebdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:43 +0000
Subject: [PATCH 075/128] fix: clients that are computing are given time to
 finish when a soft exit is requested

---
 ipi/engine/forcefields.py | 2 +-
 ipi/interfaces/sockets.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 670845f..138e56b 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -379,7 +379,7 @@ class FFSocket(ForceField):
     def stop(self):
         """Closes the socket and the thread."""
 
-        self.socket.exiting = True
+        self.socket.exiting = time.time()
         super(FFSocket, self).stop()
         if self._thread is not None:
             # must wait until loop has ended before closing the socket
diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 07a372b..bbc6ab4 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -35,6 +35,7 @@ TIMEOUT = 0.1
 SERVERTIMEOUT = 5.0 * TIMEOUT
 NTIMEOUT = 20
 SELECTTIMEOUT = 60
+EXITTIMEOUT = 5.0
 
 
 def Message(mystr):
@@ -1292,7 +1293,7 @@ class InterfaceSocket(object):
         self.sockets_prefix = sockets_prefix
         self.poll_iter = UPDATEFREQ  # triggers pool_update at first poll
         self.prlist = []  # list of pending requests
-        self.exiting = False  # set when the forcefield is being stopped
+        self.exiting = 0.0  # time at which the forcefield was told to stop
         self.match_mode = match_mode  # heuristics to match jobs and active clients
         self.requests = None  # these will be linked to the request list of the FFSocket object using the interface
         self.exit_on_disconnect = exit_on_disconnect
@@ -1309,7 +1310,7 @@ class InterfaceSocket(object):
         create the associated socket object.
         """
 
-        self.exiting = False
+        self.exiting = 0.0
 
         # "shm" uses a unix socket for the control handshake; only the bulk
         # numeric payload is moved into shared memory by SHMDriver.
@@ -1657,7 +1658,9 @@ class InterfaceSocket(object):
 
         # Collect phase: drain in-flight jobs as they become readable
         while self.jobs:
-            if self.exiting:  # do not wait for clients that may never answer
+            # when stopping, gives clients some time to finish what they are doing,
+            # but does not wait for those that may never answer
+            if self.exiting > 0 and time.time() - self.exiting > EXITTIMEOUT:
                 break
             sockets = [c for _, c, _ in self.jobs]
             try:
-- 
2.43.0


From c6d926c8e5adeef65b82500942a37cd2f6271752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 076/128] fix: atom swaps account for the spring and bias
 energies, isotope exchanges for open paths

---
 ipi/engine/ensembles.py       | 43 ++++++++++++++++++++++-------------
 ipi/engine/motion/alchemy.py  |  8 +++++--
 ipi/engine/motion/atomswap.py | 22 ++++++++++++++++--
 3 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index b3327fe..721d376 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -189,16 +189,6 @@ class Ensemble:
         self._econs.add_dependency(self.nm._vspring)
         self._econs.add_dependency(self._eens)
 
-        # pipes the weights to the list of weight vectors
-        i = 0
-        for fc in self.bias.mforces:
-            if fc.weight != 1:
-                warning(
-                    "The weight given to forces used in an ensemble bias are given a weight determined by bias_weight"
-                )
-            dpipe(self._bweights, fc._weight, i)
-            i += 1
-
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
             self._hweights = depend_array(
@@ -213,12 +203,7 @@ class Ensemble:
             dependencies=[self._hweights],
         )
 
-        # we use ScaledForceComponents to replicate the physical forces without them being actually recomputed
-        for ic in range(len(self.forces.mforces)):
-            sfc = ScaledForceComponent(self.forces.mforces[ic], 1.0)
-            self.bias.add_component(self.forces.mbeads[ic], self.forces.mrpc[ic], sfc)
-            sfc._scaling._func = lambda i=ic: self.hweights[i] - 1
-            sfc._scaling.add_dependency(self._hweights)
+        self.bind_bias(self.bias, self.forces)
 
         self._elist = []
 
@@ -242,6 +227,32 @@ class Ensemble:
         for k in xlkin:
             self.add_xlkin(k)
 
+    def bind_bias(self, bias, forces):
+        """Links a bias to the weights of the ensemble, and adds the Hamiltonian
+        REM components, that depend on the physical forces.
+
+        Args:
+           bias: A Forces object, that contains the explicit bias components
+           forces: The Forces object with the physical forces
+        """
+
+        # pipes the weights to the list of weight vectors
+        i = 0
+        for fc in bias.mforces:
+            if fc.weight != 1:
+                warning(
+                    "The weight given to forces used in an ensemble bias are given a weight determined by bias_weight"
+                )
+            dpipe(self._bweights, fc._weight, i)
+            i += 1
+
+        # we use ScaledForceComponents to replicate the physical forces without them being actually recomputed
+        for ic in range(len(forces.mforces)):
+            sfc = ScaledForceComponent(forces.mforces[ic], 1.0)
+            bias.add_component(forces.mbeads[ic], forces.mrpc[ic], sfc)
+            sfc._scaling._func = lambda i=ic: self.hweights[i] - 1
+            sfc._scaling.add_dependency(self._hweights)
+
     def add_econs(self, e):
         self._elist.append(e)
         self._econs.add_dependency(e)
diff --git a/ipi/engine/motion/alchemy.py b/ipi/engine/motion/alchemy.py
index 3655f5c..cc9999e 100644
--- a/ipi/engine/motion/alchemy.py
+++ b/ipi/engine/motion/alchemy.py
@@ -95,12 +95,16 @@ class AlchemyMC(Motion):
         if lenlist == 0:
             raise ValueError("Atoms exchange list is empty in alchemical sampler.")
         atomspring = np.zeros(lenlist)
-        wk2 = dstrip(self.nm.omegak2)
-
         i = 0
         for atomnum in axlist:
             na3 = atomnum * 3
 
+            # open paths have different normal modes
+            if atomnum in self.nm.open_paths:
+                wk2 = dstrip(self.nm.o_omegak) ** 2
+            else:
+                wk2 = dstrip(self.nm.omegak2)
+
             # computes spring in NM representation
             spr = 0.0
             for b in range(1, nb):
diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 98570e4..0d96bdc 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -67,6 +67,17 @@ class AtomSwap(Motion):
         self.dbeads = self.beads.clone()
         self.dcell = self.cell.clone()
         self.dforces = self.forces.clone(self.dbeads, self.dcell)
+        self.dbias = self.ensemble.bias.clone(self.dbeads, self.dcell)
+        self.ensemble.bind_bias(self.dbias, self.dforces)
+
+    def spring(self, i, q):
+        """Spring energy of an atom, if its beads were at positions q."""
+
+        dq = q[1:] - q[:-1]
+        spring = (dq**2).sum()
+        if i not in self.nm.open_paths:
+            spring += ((q[0] - q[-1]) ** 2).sum()
+        return 0.5 * self.beads.m[i] * self.nm.omegan2 * spring
 
     def AXlist(self, atomtype):
         """This compile a list of atoms ready for exchanges."""
@@ -113,12 +124,19 @@ class AtomSwap(Motion):
             i = axlist[i]
             j = axlist[j]
 
-            old_energy = self.forces.pot
+            old_energy = self.forces.pot + self.ensemble.bias.pot
             # swap the atom positions
             self.dbeads.q[:] = self.beads.q[:]
             self.dbeads.q[:, 3 * i : 3 * i + 3] = self.beads.q[:, 3 * j : 3 * j + 3]
             self.dbeads.q[:, 3 * j : 3 * j + 3] = self.beads.q[:, 3 * i : 3 * i + 3]
-            new_energy = self.dforces.pot
+            new_energy = self.dforces.pot + self.dbias.pot
+
+            # if the masses differ there is also a change of the spring energy
+            qi = dstrip(self.beads.q)[:, 3 * i : 3 * i + 3]
+            qj = dstrip(self.beads.q)[:, 3 * j : 3 * j + 3]
+            old_energy += self.spring(i, qi) + self.spring(j, qj)
+            new_energy += self.spring(i, qj) + self.spring(j, qi)
+
             pexchange = np.exp(-betaP * (new_energy - old_energy))
 
             # attemps the exchange, and actually propagate the exchange if something has happened
-- 
2.43.0


From 58acc9f53a80d77d93ef36e890cffcb05ea34b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:22 +0000
Subject: [PATCH 077/128] fix: a checkpoint can be replayed

---
 ipi/engine/motion/replay.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ipi/engine/motion/replay.py b/ipi/engine/motion/replay.py
index 35d7c83..da8bb04 100644
--- a/ipi/engine/motion/replay.py
+++ b/ipi/engine/motion/replay.py
@@ -11,7 +11,6 @@ from fnmatch import fnmatch
 
 from ipi.engine.motion import Motion
 from ipi.utils.io import read_file, read_file_raw
-from ipi.utils.io.inputs.io_xml import xml_parse_file
 from ipi.utils.units import unit_to_internal
 from ipi.utils.messages import verbosity, info
 
@@ -147,19 +146,13 @@ class Replay(Motion):
                         b.q[:] = myatoms.q
 
                 elif self.intraj.mode == "chk" or self.intraj.mode == "checkpoint":
-                    # TODO: Adapt the new `Simulation.load_from_xml`?
-                    # reads configuration from a checkpoint file
-                    xmlchk = xml_parse_file(self.rfile)  # Parses the file.
+                    # a checkpoint file contains a single configuration
+                    if self.rstep > 1:
+                        raise EOFError
+                    from ipi.engine.initializer import init_chk
 
-                    from ipi.inputs.simulation import InputSimulation
-
-                    simchk = InputSimulation()
-                    simchk.parse(xmlchk.fields[0][1])
-                    mycell = simchk.cell.fetch()
-                    mybeads = simchk.beads.fetch()
+                    mybeads, mycell, _ = init_chk(self.intraj.value)
                     self.beads.q[:] = mybeads.q
-                    self.finish(status="success", message=" # Read single checkpoint")
-                    return
                 # do not assign cell if it contains an invalid value (typically missing cell in the input)
                 if mycell.V > 0:
                     self.cell.h[:] = mycell.h
-- 
2.43.0


From dba619a9f993ba7e9776d2660d790434ee8eac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:57 +0000
Subject: [PATCH 078/128] fix: checkpoints keep the line search, L-BFGS memory
 and planetary bead options

---
 ipi/inputs/motion/geop.py      | 2 ++
 ipi/inputs/motion/neb.py       | 1 +
 ipi/inputs/motion/planetary.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/ipi/inputs/motion/geop.py b/ipi/inputs/motion/geop.py
index 75e7de9..7842059 100644
--- a/ipi/inputs/motion/geop.py
+++ b/ipi/inputs/motion/geop.py
@@ -212,6 +212,7 @@ class InputGeop(InputDictionary):
             self.old_direction.store(geop.d)
             self.invhessian_bfgs.store(geop.invhessian)
             self.biggest_step.store(geop.big_step)
+            self.ls_options.store(geop.ls_options)
         elif geop.mode == "bfgstrm":
             self.hessian_trm.store(geop.hessian)
             self.tr_trm.store(geop.tr)
@@ -223,6 +224,7 @@ class InputGeop(InputDictionary):
             self.corrections_lbfgs.store(geop.corrections)
             self.scale_lbfgs.store(geop.scale)
             self.biggest_step.store(geop.big_step)
+            self.ls_options.store(geop.ls_options)
         elif geop.mode == "sd":
             self.ls_options.store(geop.ls_options)
         elif geop.mode == "cg":
diff --git a/ipi/inputs/motion/neb.py b/ipi/inputs/motion/neb.py
index 4ea898f..db12ff2 100644
--- a/ipi/inputs/motion/neb.py
+++ b/ipi/inputs/motion/neb.py
@@ -318,6 +318,7 @@ class InputNEB(InputDictionary):
         self.use_climb.store(neb.use_climb)
         self.climb_bead.store(neb.cl_indx)
         self.scale_lbfgs.store(neb.scale)
+        self.corrections_lbfgs.store(neb.corrections)
 
     def fetch(self):
         rv = super(InputNEB, self).fetch()
diff --git a/ipi/inputs/motion/planetary.py b/ipi/inputs/motion/planetary.py
index 5a15ccd..f5a30f7 100644
--- a/ipi/inputs/motion/planetary.py
+++ b/ipi/inputs/motion/planetary.py
@@ -132,6 +132,7 @@ class InputPlanetary(InputDictionary):
         self.thermostat.store(plan.ccdyn.thermostat)
         self.nmts.store(plan.ccdyn.nmts)
         self.nsamples.store(plan.nsamples)
+        self.nbeads.store(plan.nbeads)
         self.stride.store(plan.stride)
         self.screen.store(plan.screen)
 
-- 
2.43.0


From 7d056dc47b7bbefa95ccdc1850edb68fb4f6a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:57 +0000
Subject: [PATCH 079/128] fix: ffcavphsocket passes all the socket options on

---
 ipi/inputs/forcefields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index c633f63..8cf43c8 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1326,7 +1326,10 @@ class InputFFCavPhSocket(InputFFSocket):
                 mode=self.mode.fetch(),
                 timeout=self.timeout.fetch(),
                 match_mode=self.matching.fetch(),
+                max_workers=self.max_workers.fetch(),
                 exit_on_disconnect=self.exit_on_disconnect.fetch(),
+                consolidate_messages=self.consolidate_messages.fetch(),
+                batch_size=self.batch_size.fetch(),
             ),
             charge_array=self.charge_array.fetch(),
             apply_photon=self.apply_photon.fetch(),
-- 
2.43.0


From 0b158aea971262e186c79abac5f48ccba6c87e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:44 +0000
Subject: [PATCH 080/128] fix: special characters are escaped when inputs are
 written

---
 ipi/utils/inputvalue.py       | 15 ++++++++++++---
 ipi/utils/io/inputs/io_xml.py |  5 +++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipi/utils/inputvalue.py b/ipi/utils/inputvalue.py
index 76c37e5..e70288f 100644
--- a/ipi/utils/inputvalue.py
+++ b/ipi/utils/inputvalue.py
@@ -19,6 +19,7 @@ bad data types, and failure to input required fields.
 
 
 from copy import copy
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -1039,7 +1040,8 @@ class InputAttribute(Input):
            A string giving the stored value in the appropriate format.
         """
 
-        return name + "='" + write_type(self.type, self.value) + "'"
+        text = escape(write_type(self.type, self.value), {"'": "&apos;"})
+        return name + "='" + text + "'"
 
 
 class InputValue(InputAttribute):
@@ -1144,7 +1146,10 @@ class InputValue(InputAttribute):
         """
 
         return Input.write(
-            self, name=name, indent=indent, text=write_type(self.type, self.value)
+            self,
+            name=name,
+            indent=indent,
+            text=escape(write_type(self.type, self.value)),
         )
 
     def parse(self, xml=None, text=""):
@@ -1174,6 +1179,10 @@ class InputRaw(InputValue):
         Input.parse(self, xml=None, text="")
         self.value = xml_write(xml, text=text)
 
+    def write(self, name="", indent=""):
+        # the value is already in xml format
+        return Input.write(self, name=name, indent=indent, text=self.value)
+
 
 ELPERLINE = 5
 
@@ -1283,7 +1292,7 @@ class InputArray(InputValue):
         for i, v in enumerate(self.value):
             if len(self.value) > ELPERLINE and i > 0 and i % ELPERLINE == 0:
                 rstr += "\n" + indent + "   "
-            rstr += write_type(self.type, v) + ", "
+            rstr += escape(write_type(self.type, v)) + ", "
 
         rstr = rstr.rstrip(", ")  # get rid of trailing commas
         if len(self.value) > ELPERLINE:
diff --git a/ipi/utils/io/inputs/io_xml.py b/ipi/utils/io/inputs/io_xml.py
index d9a89ab..7421ff3 100644
--- a/ipi/utils/io/inputs/io_xml.py
+++ b/ipi/utils/io/inputs/io_xml.py
@@ -9,6 +9,7 @@ files with in the XML format.
 
 from xml.sax import parseString, parse
 from xml.sax.handler import ContentHandler
+from xml.sax.saxutils import escape
 
 import numpy as np
 from ipi import ipi_global_settings
@@ -224,7 +225,7 @@ def xml_write(xml, name="", indent="", text=""):
     if not name == "":
         rstr = indent + "<" + name
         for a, v in xml.attribs.items():
-            rstr += " " + a + "='" + v + "'"
+            rstr += " " + a + "='" + escape(v, {"'": "&apos;"}) + "'"
         rstr += ">"
 
     rstr += text.strip()
@@ -232,7 +233,7 @@ def xml_write(xml, name="", indent="", text=""):
     inline = False
     for a, v in xml.fields:
         if a == "_text":
-            rstr += v.strip()
+            rstr += escape(v.strip())
             if v.strip() != "":
                 inline = True
         else:
-- 
2.43.0


From b1c30fdd2b1ed3bf1062cc3954fa49c65153996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 081/128] fix: checkpoints keep all the options of
 self-consistent phonons and kinetic Monte Carlo

---
 ipi/inputs/motion/al6xxx_kmc.py | 1 +
 ipi/inputs/motion/scphonons.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/ipi/inputs/motion/al6xxx_kmc.py b/ipi/inputs/motion/al6xxx_kmc.py
index 7e73afc..e4489cf 100644
--- a/ipi/inputs/motion/al6xxx_kmc.py
+++ b/ipi/inputs/motion/al6xxx_kmc.py
@@ -227,6 +227,7 @@ class InputAlKMC(InputDictionary):
         self.nsi.store(kmc.nsi)
         self.ncell.store(kmc.ncell)
         self.nstep.store(kmc.nstep)
+        self.neval.store(kmc.neval)
         self.diffusion_barrier_al.store(kmc.diffusion_barrier_al)
         self.diffusion_prefactor_al.store(kmc.diffusion_prefactor_al)
         self.diffusion_barrier_mg.store(kmc.diffusion_barrier_mg)
diff --git a/ipi/inputs/motion/scphonons.py b/ipi/inputs/motion/scphonons.py
index 093093c..48d1c44 100644
--- a/ipi/inputs/motion/scphonons.py
+++ b/ipi/inputs/motion/scphonons.py
@@ -177,6 +177,9 @@ class InputSCPhonons(InputDictionary):
         self.max_steps.store(phonons.max_steps)
         self.max_iter.store(phonons.max_iter)
         self.tau.store(phonons.tau)
+        self.wthreshold.store(phonons.wthreshold)
+        self.precheck.store(phonons.precheck)
+        self.checkweights.store(phonons.checkweights)
         self.chop.store(phonons.chop)
         self.random_type.store(phonons.random_type)
         self.displace_mode.store(phonons.displace_mode)
-- 
2.43.0


From 3f56133f94a0f01b7acdb37f55239b1ba9c61bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:38 +0000
Subject: [PATCH 082/128] fix: normal-mode finite differences report the
 refined dynamical matrix

---
 ipi/engine/motion/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index fc9feb5..76bf941 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -420,7 +420,7 @@ class NMFDPhononCalculator(FDPhononCalculator):
         self.dm.refdynmatrix = np.dot(
             self.dm.U, np.dot(self.dm.refdynmatrix, np.transpose(self.dm.U))
         )
-        rdm = self.dm.dynmatrix.copy()
+        rdm = self.dm.refdynmatrix.copy()
         self.dm.refdynmatrix = 0.50 * (rdm + rdm.T)
 
 
-- 
2.43.0


From 1bdedaa46a3730f5e077c085aa935af3ce5e7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:38 +0000
Subject: [PATCH 083/128] fix: output_shift shifts the dynamical matrix that is
 printed

---
 ipi/engine/motion/phonons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 76bf941..ad1a1b4 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -108,7 +108,10 @@ class DynMatrixMover(Motion):
             self.phcalc.transform()
             self.refdynmatrix = self.apply_asr(self.refdynmatrix.copy())
             self.printall(
-                self.prefix, self.refdynmatrix.copy(), fixatoms_dof=self.fixatoms_dof
+                self.prefix,
+                self.refdynmatrix.copy(),
+                self.deltaw,
+                fixatoms_dof=self.fixatoms_dof,
             )
             self.finish(
                 status="success",
-- 
2.43.0


From 9713d1c2ac18f430596c42a4fa8f9020fef56573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:38 +0000
Subject: [PATCH 084/128] fix: the climbing image of a band keeps its physical
 forces

---
 ipi/engine/motion/neb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 295c52e..489f673 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -920,7 +920,7 @@ class NEBMover(Motion):
             # so that recalculation won't be triggered after the step.
             tmp_f = self.full_f.copy()
             tmp_v = self.full_v.copy()
-            tmp_f[self.cl_indx, self.climbgm.fixatoms_mask] = self.nebgrad
+            tmp_f[self.cl_indx] = self.climbgm.rforces.f[0]
             tmp_v[self.cl_indx] = self.nebpot
             self.forces.transfer_forces_manual(
                 new_q=[
-- 
2.43.0


From 0b9422e0a17ee0a2286b392751448b21bb7819e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:31 +0000
Subject: [PATCH 085/128] fix: a band search interrupted while climbing can be
 restarted

---
 ipi/engine/motion/neb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 489f673..4284495 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -467,7 +467,12 @@ class NEBMover(Motion):
                     self.hessian = self.hessian[
                         np.ix_(self.climbgm.fixatoms_mask, self.climbgm.fixatoms_mask)
                     ]
-                if self.hessian.size == 0:
+                elif (
+                    self.hessian.size == 0
+                    or self.hessian.size == (n_activedim * (beads.nbeads - 2)) ** 2
+                ):
+                    # also when stopped just before the first climbing step,
+                    # with the Hessian of the whole band
                     info(
                         " @NEBMover: No climbing Hessian provided, "
                         "starting from unity matrix",
-- 
2.43.0


From 165e9fe97addd5488f8896b4608f6ff1baf9dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:44 +0000
Subject: [PATCH 086/128] fix: optimisations that reach a point with zero
 forces end there

---
 ipi/engine/motion/geop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index cf31b59..dcc8973 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -174,6 +174,9 @@ class GeopMotion(Motion):
                     "Convergence threshold met. Will carry on but do nothing.",
                     verbosity.high,
                 )
+        elif not np.any(np.delete(dstrip(self.forces.f), self.fixatoms_dof, axis=1)):
+            # all the forces vanish, there is no direction to follow
+            self.optimizer.converged = True
         else:
             self.optimizer.step(step)
 
-- 
2.43.0


From 62e05d47011be3bd965b6fac0d465597c4b0ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:41 +0000
Subject: [PATCH 087/128] fix: the Fortran driver writes past its parameter
 arrays when more than four are given

---
 drivers/f90/driver.f90 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 1fb714d..30f8b21 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -69,7 +69,7 @@
       INTEGER ccmd, vstyle, vseed
       INTEGER, ALLOCATABLE :: seed(:)
       INTEGER verbose
-      INTEGER commas(4), par_count      ! stores the index of commas in the parameter string
+      INTEGER commas(6), par_count      ! stores the index of commas in the parameter string
       DOUBLE PRECISION vpars(6)         ! array to store the parameters of the potential
       
       ! SOCKET COMMUNICATION BUFFERS
@@ -259,6 +259,10 @@
                   commas(par_count + 1) = index(cmdbuffer(commas(par_count)+1:), ',') + commas(par_count)
                   READ(cmdbuffer(commas(par_count)+1:commas(par_count + 1)-1),*) vpars(par_count)
                   par_count = par_count + 1
+                  IF (par_count == SIZE(vpars) .and. index(cmdbuffer(commas(par_count)+1:), ',') > 0) THEN
+                     WRITE(*,*) "Error: too many parameters given with -o."
+                     STOP "ENDED"
+                  ENDIF
                ENDDO
                READ(cmdbuffer(commas(par_count)+1:),*) vpars(par_count)
             ELSEIF (ccmd == 5) THEN
-- 
2.43.0


From 4413878ac584d6ef0e186c9badaebedf7b2d9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:41 +0000
Subject: [PATCH 088/128] fix: the morse and morsedia models take the three
 parameters they document

---
 drivers/f90/driver.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 30f8b21..64c678a 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -356,7 +356,7 @@
             vpars(1) = 1.8323926 ! r0
             vpars(2) = 0.18748511263179304 ! D
             vpars(3) = 1.1562696428501682 ! a
-         ELSEIF ( 2/= par_count) THEN
+         ELSEIF ( 3/= par_count) THEN
             WRITE(*,*) "Error: parameters not initialized correctly."
             WRITE(*,*) "For morse potential use -o r0,D,a (in a.u.) "
             STOP "ENDED"
@@ -522,7 +522,7 @@
              vpars(1) = 1.8323926 ! r0
              vpars(2) = 0.18748511263179304 ! D
              vpars(3) = 1.1562696428501682 ! a
-         ELSEIF ( 2/= par_count) THEN
+         ELSEIF ( 3/= par_count) THEN
              WRITE(*,*) "Error: parameters not initialized correctly."
              WRITE(*,*) "For morse potential use -o r0,D,a (in a.u.) "
              STOP "ENDED"
-- 
2.43.0


From 37af5b0f5342b1f9b370d7614f7a7cd72e19490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:41 +0000
Subject: [PATCH 089/128] fix: -vv prints the position and force buffers from
 before their first element

---
 drivers/f90/driver.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 64c678a..24da7bf 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -697,7 +697,7 @@
             ENDIF
 
             CALL readbuffer(socket, msgbuffer, nat*3)
-            IF (verbose > 1) WRITE(*,*) "    !read!=> positions: ", msgbuffer(0:2), " ..."
+            IF (verbose > 1) WRITE(*,*) "    !read!=> positions: ", msgbuffer(1:3), " ..."
             DO i = 1, nat
                atoms(i,:) = msgbuffer(3*(i-1)+1:3*i)
             ENDDO
@@ -738,7 +738,7 @@
             CALL writebuffer(socket,nat)  ! Writing the number of atoms
             IF (verbose > 1) WRITE(*,*) "    !write!=> nat:", nat
             CALL writebuffer(socket,msgbuffer,3*nat) ! Writing the forces
-            IF (verbose > 1) WRITE(*,*) "    !write!=> forces:", msgbuffer(0:2), " ..."
+            IF (verbose > 1) WRITE(*,*) "    !write!=> forces:", msgbuffer(1:3), " ..."
             CALL writebuffer(socket,reshape(virial,(/9/)),9)  ! Writing the virial tensor, NOT divided by the volume
             IF (verbose > 1) WRITE(*,*) "    !write!=> strss: ", reshape(virial,(/9/))
 
-- 
2.43.0


From 269e0940ddbcff348306ef85a17312fba3edb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:41 +0000
Subject: [PATCH 090/128] fix: noo3-h2o reads and writes past the atoms when
 they do not form molecules

---
 drivers/f90/driver.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 24da7bf..ca28c46 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -1029,6 +1029,10 @@
                vpars(1) = cell_h(1,1)
                vpars(2) = cell_h(2,2)
                vpars(3) = cell_h(3,3)
+               IF (mod(nat,3)/=0) THEN
+                  WRITE(*,*) " Expecting water molecules O H H O H H O H H but got ", nat, "atoms"
+                  STOP "ENDED"
+               ENDIF
                
                pot = 0
                forces = 0
-- 
2.43.0


From e4bd8f3c9af9196e438694de63c62845f8d07a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 091/128] fix: the qtip4pf models take cells with negative
 tilts for orthorhombic ones

---
 drivers/f90/driver.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index ca28c46..5a027ab 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -902,7 +902,7 @@
                vpars(1) = cell_h(1,1)
                vpars(2) = cell_h(2,2)
                vpars(3) = cell_h(3,3)
-               IF (cell_h(1,2).gt.1d-10 .or. cell_h(1,3).gt.1d-12  .or. cell_h(2,3).gt.1d-12) THEN
+               IF (abs(cell_h(1,2)).gt.1d-10 .or. abs(cell_h(1,3)).gt.1d-12  .or. abs(cell_h(2,3)).gt.1d-12) THEN
                   WRITE(*,*) " qtip4pf PES only works with orthorhombic cells", cell_h(1,2), cell_h(1,3), cell_h(2,3)
                   STOP "ENDED"
                ENDIF
@@ -929,7 +929,7 @@
                vpars(1) = cell_h(1,1)
                vpars(2) = cell_h(2,2)
                vpars(3) = cell_h(3,3)
-               IF (cell_h(1,2).gt.1d-10 .or. cell_h(1,3).gt.1d-12  .or. cell_h(2,3).gt.1d-12) THEN
+               IF (abs(cell_h(1,2)).gt.1d-10 .or. abs(cell_h(1,3)).gt.1d-12  .or. abs(cell_h(2,3)).gt.1d-12) THEN
                   WRITE(*,*) " qtip4pf PES only works with orthorhombic cells", cell_h(1,2), cell_h(1,3), cell_h(2,3)
                   STOP "ENDED"
                ENDIF
-- 
2.43.0


From 70267fb0be1822ee6f40224b355358ce41e3ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 092/128] fix: neighbour lists rebuilt with the radius that
 belonged to the old cell miss pairs

---
 drivers/f90/driver.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 5a027ab..336d9bb 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -964,9 +964,9 @@
                   ! Note that displacement is the square of the distance moved by atom i since the last time the neighbour list was created.
                   IF (4*displacement > (rn-rc)*(rn-rc)) THEN
                      IF (verbose > 0) WRITE(*,*) " Recalculating neighbour lists"
+                     rn = 1.2*rc
                      CALL nearest_neighbours(rn, nat, atoms, cell_h, cell_ih, index_list, n_list)
                      last_atoms = atoms
-                     rn = 1.2*rc
                      EXIT
                   ENDIF
                ENDDO
@@ -1161,9 +1161,9 @@
                   ! Note that displacement is the square of the distance moved by atom i since the last time the neighbour list was created.
                   IF (4*displacement > (rn-rc)*(rn-rc)) THEN
                      IF (verbose > 0) WRITE(*,*) " Recalculating neighbour lists"
+                     rn = 1.2*rc
                      CALL nearest_neighbours(rn, nat, atoms, cell_h, cell_ih, index_list, n_list)
                      last_atoms = atoms
-                     rn = 1.2*rc
                      EXIT
                   ENDIF
                ENDDO
-- 
2.43.0


From c7ccc0f4167d1a181962fcf5cb26acc548bb5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 093/128] fix: doublewell_1D returns the energy of its last
 atom only

---
 drivers/f90/pes/doublewell_1D.f90 | 2 --
 1 file changed, 2 deletions(-)

diff --git a/drivers/f90/pes/doublewell_1D.f90 b/drivers/f90/pes/doublewell_1D.f90
index 9acef29..595d988 100644
--- a/drivers/f90/pes/doublewell_1D.f90
+++ b/drivers/f90/pes/doublewell_1D.f90
@@ -17,8 +17,6 @@
            y = q(i,2)
            z = q(i,3)
 
-           pot            =  0.0
-           
            pot            = pot+ 0.5*k*y**2
            fy             = -k*y
            pot            = pot+ 0.5*k*z**2
-- 
2.43.0


From a56e5fcbecabccac38131745280266ba46b4d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 094/128] fix: the friction tensor of the double wells is
 indexed, and overrun, by the number of atoms

---
 drivers/f90/pes/doublewell.f90    | 4 ++--
 drivers/f90/pes/doublewell_1D.f90 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/drivers/f90/pes/doublewell.f90 b/drivers/f90/pes/doublewell.f90
index fbbfa8f..bab30b7 100644
--- a/drivers/f90/pes/doublewell.f90
+++ b/drivers/f90/pes/doublewell.f90
@@ -46,9 +46,9 @@
         DO i = 1,nat
             DO j = 1,nat
                 DO qi = 1,3
-                    coori = (i-1)*nat+qi
+                    coori = (i-1)*3+qi
                     DO qj = 1,3
-                        coorj = (j-1)*nat+qj
+                        coorj = (j-1)*3+qj
                         friction(coori,coorj) = q(i,qi)*q(j,qj)
                     END DO
                 END DO
diff --git a/drivers/f90/pes/doublewell_1D.f90 b/drivers/f90/pes/doublewell_1D.f90
index 595d988..f638197 100644
--- a/drivers/f90/pes/doublewell_1D.f90
+++ b/drivers/f90/pes/doublewell_1D.f90
@@ -68,9 +68,9 @@
         DO i = 1,nat
             DO j = 1,nat
                 DO qi = 1,3
-                    coori = (i-1)*nat+qi
+                    coori = (i-1)*3+qi
                     DO qj = 1,3
-                        coorj = (j-1)*nat+qj
+                        coorj = (j-1)*3+qj
                         friction(coori,coorj) = q(i,qi)*q(j,qj)
                     END DO
                 END DO
-- 
2.43.0


From 04740f26b9226123840e54d0a157103bed6b564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 095/128] fix: qtip4pf-efield returns the gradient of its
 energy instead of the forces

---
 drivers/f90/pes/efield.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drivers/f90/pes/efield.f90 b/drivers/f90/pes/efield.f90
index 7fa0b49..c570b34 100644
--- a/drivers/f90/pes/efield.f90
+++ b/drivers/f90/pes/efield.f90
@@ -121,7 +121,7 @@ subroutine efield_v(rt,na,dvdrt,v, vir,efield)
   deallocate (ro, z)
   vir = -1.0d0 *vir
   do i=1, na 
-    dvdrt(i,:) = -dvdr(:,i)
+    dvdrt(i,:) = dvdr(:,i)
   enddo
   return
 end Subroutine efield_v
-- 
2.43.0


From 1c570a138a9fe60ae1d7c1726cbae43c58bfef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 096/128] fix: the Python double well returns one energy per
 atom

---
 ipi/pes/doublewell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/pes/doublewell.py b/ipi/pes/doublewell.py
index 1ed69d8..f18a5f0 100644
--- a/ipi/pes/doublewell.py
+++ b/ipi/pes/doublewell.py
@@ -60,7 +60,9 @@ class DoubleWell_driver(Dummy_driver):
         force3 = np.zeros(pos.shape)
 
         # DW
-        pot += self.A * (pos3[:, 0] - self.delta) ** 2 + self.B * (pos3[:, 0] ** 4)
+        pot += (
+            self.A * (pos3[:, 0] - self.delta) ** 2 + self.B * (pos3[:, 0] ** 4)
+        ).sum()
         force3[:, 0] = -2.0 * self.A * (pos3[:, 0] - self.delta) - 4.0 * self.B * (
             pos3[:, 0] ** 3
         )
-- 
2.43.0


From 2e45922bf6350a11cf9a65d7d7a41406f7e74d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:05 +0000
Subject: [PATCH 097/128] fix: DW_friction discards the parameters of its
 double well

---
 ipi/pes/doublewell_with_friction.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ipi/pes/doublewell_with_friction.py b/ipi/pes/doublewell_with_friction.py
index dad3779..9fba03f 100644
--- a/ipi/pes/doublewell_with_friction.py
+++ b/ipi/pes/doublewell_with_friction.py
@@ -44,31 +44,24 @@ class DoubleWell_with_friction_driver(DoubleWell_driver):
         w_b=None,
         v0=None,
         m=None,
+        delta=None,
         eta0=None,
         eps1=None,
         eps2=None,
-        delta=None,
         deltaQ=None,
         *args,
         **kwargs
     ):
 
-        try:
-            w_b = w_b * invcm2au
-            v0 = v0 * invcm2au
-            self.delta = delta * A2au
-            self.eta0 = eta0
-            self.eps1 = eps1
-            self.eps2 = eps2
-            self.deltaQ = deltaQ
-            self.k = 1837.36223469 * (3800.0 / 219323.0) ** 2
-            self.A = -0.5 * m * (w_b) ** 2
-            self.B = ((m**2) * (w_b) ** 4) / (16 * v0)
-
-        except:
+        if None in (w_b, v0, m, delta, eta0, eps1, eps2, deltaQ):
             sys.exit(self.__doc__)
 
-        super().__init__(*args, **kwargs)
+        self.eta0 = eta0
+        self.eps1 = eps1
+        self.eps2 = eps2
+        self.deltaQ = deltaQ
+
+        super().__init__(w_b, v0, m, delta, *args, **kwargs)
 
     def check_dimensions(self, pos):
         """Functions that checks dimensions of the received position"""
-- 
2.43.0


From 24cb4f625c2ed52eba75a48879299e68bd036e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:05 +0000
Subject: [PATCH 098/128] fix: the double wells with explicit baths cannot be
 evaluated

---
 ipi/pes/doubledoublewell.py     | 9 ++++-----
 ipi/pes/doublewell_with_bath.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/ipi/pes/doubledoublewell.py b/ipi/pes/doubledoublewell.py
index 6035c8c..bb28fcd 100644
--- a/ipi/pes/doubledoublewell.py
+++ b/ipi/pes/doubledoublewell.py
@@ -89,7 +89,6 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.bath_parameters["eps2"] = eps2
             self.bath_parameters["deltaQ"] = deltaQ
             self.bath_parameters["w_c"] = w_c * invcm2au
-            self.bath_parameters["delta"] = self.delta
         # def __init__(self, nbath, m, eta0, eps1, eps2, deltaQ, w_c, *args, **kwargs):
 
         except:
@@ -109,8 +108,8 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.ndof = np.size(pos)
             assert self.ndof % 2 == 0, "Sorry we need an even number of ndof"
             self.nbath = (self.ndof - 2) // 2
-            self.bath1 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
-            self.bath2 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
+            self.bath1 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
+            self.bath2 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
             self.init = True
 
         pot = 0
@@ -124,8 +123,8 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
         fy = np.zeros(x.shape)
 
         # Harmonic bath
-        pot_x, fq1, fx = self.bath1(q1, x)
-        pot_y, fq2, fy = self.bath2(q2, y)
+        pot_x, fq1, fx = self.bath1.compute_structure(q1, x)
+        pot_y, fq2, fy = self.bath2.compute_structure(q2, y)
 
         pot = pot_x + pot_y
 
diff --git a/ipi/pes/doublewell_with_bath.py b/ipi/pes/doublewell_with_bath.py
index 85f5920..97960b5 100644
--- a/ipi/pes/doublewell_with_bath.py
+++ b/ipi/pes/doublewell_with_bath.py
@@ -94,7 +94,7 @@ class DoubleWell_with_explicit_bath_driver(Dummy_driver):
             self.bath = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
 
         # Harmonic bath
-        pot, fq, fx = self.bath(q, x)
+        pot, fq, fx = self.bath.compute_structure(q, x)
 
         # DW
         pot += self.A * (q - self.delta) ** 2 + self.B * (q**4)
-- 
2.43.0


From deddd54f926abc4288600b975b8162ab6799bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:32 +0000
Subject: [PATCH 099/128] fix: the LEPS models return forces that are not the
 gradient of their energy, and read a missing atom

---
 drivers/f90/driver.f90   |  2 +-
 drivers/f90/pes/LEPS.f90 | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 336d9bb..af9b569 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -1104,7 +1104,7 @@
                END IF
                CALL LEPS_M1(3, atoms, pot, forces)
             ELSEIF (vstyle == 10) THEN
-               IF (nat /= 3) THEN
+               IF (nat /= 4) THEN
                   WRITE(*,*) "Expecting 4 atoms for LEPS Model 2  potential, A B C D n"
                   STOP "ENDED"
                END IF
diff --git a/drivers/f90/pes/LEPS.f90 b/drivers/f90/pes/LEPS.f90
index 8961fc3..1479af1 100644
--- a/drivers/f90/pes/LEPS.f90
+++ b/drivers/f90/pes/LEPS.f90
@@ -32,7 +32,7 @@ SUBROUTINE LEPS_M1(na,atoms,V,F)
      CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_plus)
      moved_atoms(i,1) = atoms(i,1) - step
      CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_mins)
-     F(i,1) = 1 * (V_plus - V_mins)/ (4*step)
+     F(i,1) = -1 * (V_plus - V_mins)/ (2*step)
   end do
 
 
@@ -56,27 +56,33 @@ SUBROUTINE LEPS_M2(na,atoms,V,F)
   REAL(8), INTENT(IN) :: atoms(4,3) ! A=> atoms(1), B=> atoms(2) C=> atoms(3)
   REAL(8), INTENT(OUT) :: V,F(4,3)
   INTEGER, INTENT(IN) :: na
-  REAL(8) :: rab, rac, x, dist, moved_atoms(4,3), V_plus, V_mins
+  REAL(8) :: moved_atoms(4,3), V_plus, V_mins
   INTEGER :: i
 
-  CALL V_LEPS(atoms(1:3,:), acb, d, r_0, alpha, V)
-  rab = dist(atoms(1,:), atoms(2,:))
-  rac = dist(atoms(1,:), atoms(3,:))
-  x = atoms(2,1) - atoms(4,1)
-  V = V + 2 * kc * (rab - (rac/2 - x/c))**2
+  V = V_M2(atoms)
 
   ! Compute numerical forces
   F = 0.0D0
   do i=2,na,2
      moved_atoms = atoms
      moved_atoms(i,1) = atoms(i,1) + step
-     CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_plus)
+     V_plus = V_M2(moved_atoms)
      moved_atoms(i,1) = atoms(i,1) - step
-     CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_mins)
-     F(i,1) = -1 * (V_plus - V_mins)/ (4 * step)
+     V_mins = V_M2(moved_atoms)
+     F(i,1) = -1 * (V_plus - V_mins)/ (2 * step)
   end do
 
-  
+CONTAINS
+  REAL(8) FUNCTION V_M2(p)
+    REAL(8), INTENT(IN) :: p(4,3)
+    REAL(8) :: rab, rac, x, dist
+    CALL V_LEPS(p(1:3,:), acb, d, r_0, alpha, V_M2)
+    rab = dist(p(1,:), p(2,:))
+    rac = dist(p(1,:), p(3,:))
+    x = p(2,1) - p(4,1)
+    V_M2 = V_M2 + 2 * kc * (rab - (rac/2 - x/c))**2
+  END FUNCTION V_M2
+
 END SUBROUTINE LEPS_M2
 
 SUBROUTINE V_LEPS(atoms, acb, d, r_0, alpha, V)
-- 
2.43.0


From 6ba053fa6beaf5c6a5c74a08687d8bd07ef49ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:32 +0000
Subject: [PATCH 100/128] fix: the Fortran driver overruns the socket address
 when its path is too long

---
 drivers/f90/sockets.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drivers/f90/sockets.c b/drivers/f90/sockets.c
index 6480715..ba08d78 100644
--- a/drivers/f90/sockets.c
+++ b/drivers/f90/sockets.c
@@ -109,6 +109,8 @@ Args:
       // fills up details of the socket addres
       memset(&serv_addr, 0, sizeof(serv_addr));
       serv_addr.sun_family = AF_UNIX;
+      if (strlen(sockets_prefix) + strlen(host) >= sizeof(serv_addr.sun_path))
+      { fprintf(stderr, "Error opening UNIX socket: path too long\n"); exit(-1); }
       strcpy(serv_addr.sun_path, sockets_prefix);
       strcpy(serv_addr.sun_path+strlen(sockets_prefix), host);
       // creates a unix socket
-- 
2.43.0


From 7d6003357d96356f4b5b6521dec6697b97bc92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:32 +0000
Subject: [PATCH 101/128] fix: the Fortran driver computes on messages cut
 short by a lost connection

---
 drivers/f90/sockets.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drivers/f90/sockets.c b/drivers/f90/sockets.c
index ba08d78..d6c9eb3 100644
--- a/drivers/f90/sockets.c
+++ b/drivers/f90/sockets.c
@@ -165,7 +165,7 @@ Args:
    while (nr>0 && n<len )
    {  nr=read(sockfd,&data[n],len-n); n+=nr; }
 
-   if (n == 0) { perror("Error reading from socket: server has quit or connection broke"); exit(-1); }
+   if (n < len) { perror("Error reading from socket: server has quit or connection broke"); exit(-1); }
 }
 
 
-- 
2.43.0


From 162a112da9a95885ed8027fa5fe25625dc0f3fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:01 +0000
Subject: [PATCH 102/128] fix: ASE calculators declared without stress are
 refused for the shape of their virial

---
 ipi/pes/_ase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/pes/_ase.py b/ipi/pes/_ase.py
index 1b131eb..f619dc2 100644
--- a/ipi/pes/_ase.py
+++ b/ipi/pes/_ase.py
@@ -105,7 +105,9 @@ class ASEDriver(Dummy_driver):
             if "forces" in self.capabilities
             else np.zeros_like(structure.positions)
         )
-        stress = properties["stress"] if "stress" in self.capabilities else np.zeros(9)
+        stress = (
+            properties["stress"] if "stress" in self.capabilities else np.zeros((3, 3))
+        )
         if len(stress) == 6:
             # converts from voigt notation
             stress = np.array(stress[[0, 5, 4, 5, 1, 3, 4, 3, 2]])
-- 
2.43.0


From 30fc5805855474131d3fdcd868465c95614606ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:47 +0000
Subject: [PATCH 103/128] fix: ljpolymer adds variables that are never set to
 its virial

---
 drivers/f90/LJPolymer.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/f90/LJPolymer.f90 b/drivers/f90/LJPolymer.f90
index 69f1a85..8921e97 100644
--- a/drivers/f90/LJPolymer.f90
+++ b/drivers/f90/LJPolymer.f90
@@ -233,7 +233,7 @@
             DOUBLE PRECISION, DIMENSION(3,3), INTENT(OUT) :: virial
 
             INTEGER i, j, k, l, start, n_polymer
-            DOUBLE PRECISION, DIMENSION(3) :: fij, rij, rhar1, rhar2, fhar1, fhar2
+            DOUBLE PRECISION, DIMENSION(3) :: fij, rij, rhar1, fhar1
             DOUBLE PRECISION r2, pot_ij, pot_lr, vir_lr, volume, pot_har1, r21, stiffness, x0
 
             x0=sigma
@@ -255,7 +255,7 @@
                   DO k = 1, 3
                      DO l = k, 3
                            ! Only the upper triangular elements calculated.
-                           virial(k,l) = virial(k,l) + fhar1(k)*rhar1(l) + fhar2(k)*rhar2(l)
+                           virial(k,l) = virial(k,l) + fhar1(k)*rhar1(l)
                      ENDDO
                   ENDDO
             ENDIF 
-- 
2.43.0


From 85d879e4d1330ebbd586620204892f4d0d1a5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:47 +0000
Subject: [PATCH 104/128] fix: ljpolymer binds all the atoms together when the
 polymers have one monomer

---
 drivers/f90/LJPolymer.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drivers/f90/LJPolymer.f90 b/drivers/f90/LJPolymer.f90
index 8921e97..daf32bc 100644
--- a/drivers/f90/LJPolymer.f90
+++ b/drivers/f90/LJPolymer.f90
@@ -244,7 +244,7 @@
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
             DO i = 2, natoms
                ! We take the two directly neighboring atoms into consideration
-            IF ( MOD(i,n_polymer) /= 1 ) THEN  ! When this modulus is 1, we have reached the beginning of a new polymer, and this atom is not connected
+            IF ( MOD(i-1,n_polymer) /= 0 ) THEN  ! When this modulus is 0, we have reached the beginning of a new polymer, and this atom is not connected
                   CALL vector_separation(cell_h, cell_ih, atoms(i,:), atoms(i-1,:), rhar1, r21)                                   ! to the previous one.
                   CALL Har_fij(stiffness, x0, rhar1, sqrt(r21), pot_har1, fhar1)
 
-- 
2.43.0


From e024e21ec7483df1eb6f0db8d4564c11c8312886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:47 +0000
Subject: [PATCH 105/128] fix: potentials that compute no virial or dipole send
 whatever was in memory

---
 drivers/f90/driver.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index af9b569..68e571f 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -781,6 +781,8 @@
          ! Shared force evaluation: fills pot, forces and virial for the current
          ! atoms/cell/nat by dispatching on the selected potential. Used by both
          ! the socket loop and the MPI loop.
+            virial = 0.0d0  ! not all potentials compute a virial or a dipole
+            dip = 0.0d0
             IF (vstyle == 0 .or. vstyle == 100) THEN   ! ideal gas / batch-dummy: no calculation
                IF (sleep_seconds > 0) THEN
                   ! artificial delay
-- 
2.43.0


From 7da9c574ca87299290e7227ce9e530e8a3a6b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:47 +0000
Subject: [PATCH 106/128] fix: the virial of qtip4pf-efield is transposed

---
 drivers/f90/pes/efield.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drivers/f90/pes/efield.f90 b/drivers/f90/pes/efield.f90
index c570b34..5fca028 100644
--- a/drivers/f90/pes/efield.f90
+++ b/drivers/f90/pes/efield.f90
@@ -99,7 +99,7 @@ subroutine efield_v(rt,na,dvdrt,v, vir,efield)
    ! Virial
    do j=1,3
     do k=1,3
-     vir(j,k) = vir(j,k) - r(j,i)*dvdr(k,i)
+     vir(j,k) = vir(j,k) - dvdr(j,i)*r(k,i)
     enddo
    enddo
   enddo
-- 
2.43.0


From 2ebc5c2b1cbb03068a9b68bfde0e809594c52c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:04 +0000
Subject: [PATCH 107/128] fix: recompute the Hessian of an instanton with fixed
 atoms

get_hessian returns the Hessian of all atoms, which was expanded once more
as if it only contained the active ones.
---
 ipi/engine/motion/instanton.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/ipi/engine/motion/instanton.py b/ipi/engine/motion/instanton.py
index 835a325..295ea6c 100644
--- a/ipi/engine/motion/instanton.py
+++ b/ipi/engine/motion/instanton.py
@@ -1157,10 +1157,7 @@ class DummyOptimizer:
 
                 if self.options["friction"] and self.options["frictionSD"]:
                     friction_hessian = current_hessian[1]
-                    self.optarrays["fric_hessian"][:] = self.fix.get_full_vector(
-                        friction_hessian, 4
-                    )
-                    # self.optarrays["fric_hessian"][:] = friction_hessian #ALBERTO
+                    self.optarrays["fric_hessian"][:] = friction_hessian
                     print_instanton_hess(
                         self.options["prefix"] + "fric_FINAL",
                         step,
@@ -1410,7 +1407,7 @@ class HessianOptimizer(DummyOptimizer):
                 dg = d_g[j, :]
                 dx = d_x[j, :]
                 Powell(dx, dg, aux)
-            phys_hessian = active_hessian
+            phys_hessian = self.fix.get_full_vector(active_hessian, 2)
             if self.options["friction"]:
                 info(
                     "Powell update for friction hessian is not implemented. We move on without updating it. In all tested cases this is not a problem",
@@ -1418,7 +1415,7 @@ class HessianOptimizer(DummyOptimizer):
                 )
 
         elif update == "recompute":
-            active_hessian = get_hessian(
+            full_hessian = get_hessian(
                 gm=self.mapper.gm,
                 x0=new_x,
                 natoms=self.beads.natoms,
@@ -1428,15 +1425,13 @@ class HessianOptimizer(DummyOptimizer):
             )
 
             if self.options["friction"] and self.options["frictionSD"]:
-                phys_hessian = active_hessian[0]
-                friction_hessian = active_hessian[1]
-                self.optarrays["fric_hessian"][:] = self.fix.get_full_vector(
-                    friction_hessian, 4
-                )
+                phys_hessian = full_hessian[0]
+                friction_hessian = full_hessian[1]
+                self.optarrays["fric_hessian"][:] = friction_hessian
             else:
-                phys_hessian = active_hessian
+                phys_hessian = full_hessian
 
-        self.optarrays["hessian"][:] = self.fix.get_full_vector(phys_hessian, 2)
+        self.optarrays["hessian"][:] = phys_hessian
 
     def print_hess(self, step):
         if (
-- 
2.43.0


From eb5b9be86b0e6240d8dee721e0e19add915077d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:04 +0000
Subject: [PATCH 108/128] fix: banded Hessians do not contain uninitialised
 numbers

The corners that the band storage does not use were left uninitialised, and
instanton searches failed at random when they happened to be NaN.
---
 ipi/utils/instools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/instools.py b/ipi/utils/instools.py
index 9293507..55f1bdd 100644
--- a/ipi/utils/instools.py
+++ b/ipi/utils/instools.py
@@ -103,7 +103,7 @@ def sym_band(A):
     u = len(A) - 1
     lu = u
     M = A.shape[1]
-    newA = np.empty((u + lu + 1, M))
+    newA = np.zeros((u + lu + 1, M))
     newA[: u + 1] = A
     for i in range(1, lu + 1):
         newA[u + i, : M - i] = A[-1 - i, i:]
-- 
2.43.0


From 4e0c2757063c5d5165a7802b360fe0c050f48bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:24 +0000
Subject: [PATCH 109/128] fix: driven dynamics applies the whole field impulse
 with multiple time steps

---
 ipi/engine/motion/driven_dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 82585bd..5ce235e 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -122,7 +122,8 @@ class EDAIntegrator(DummyIntegrator):
             )
 
         edaforces = self.EDAforces(time)
-        self.beads.p += edaforces * self.pdt[level]
+        # half of the full time step, as this is not repeated `nmts` times
+        self.beads.p += edaforces * (self.dt * 0.5)
         self.pconstraints()
 
         pass
-- 
2.43.0


From 1ed6f1555ca05edc4dd35145ae8ef531d367de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:24 +0000
Subject: [PATCH 110/128] fix: read the dipoles of all beads from the extra
 strings

---
 ipi/engine/motion/driven_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 5ce235e..bf1c739 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -382,8 +382,8 @@ class ElectricDipole:
                             "wrong number of extracted values from the extra string: they should be 3."
                         )
                     else:
-                        dipole[n] = float(factor) * np.asarray(matches)
-                    return dipole
+                        dipole[n] = float(factor) * np.asarray(matches, dtype=float)
+                return dipole
             else:
                 raise ValueError(
                     "Error in '_get_dipole': can not extract dipole from the extra string."
-- 
2.43.0


From 0b6b503f22a8f59eb4ed8cff4e93bcc88af9f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 111/128] fix: forcefield_xml sets the socket mode that was
 asked for

---
 ipi/scripting/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/scripting/templates.py b/ipi/scripting/templates.py
index 3a220cc..e1c7c60 100644
--- a/ipi/scripting/templates.py
+++ b/ipi/scripting/templates.py
@@ -162,7 +162,7 @@ def forcefield_xml(
         if mode == "inet" and port is None:
             raise ValueError("Must specify port for {mode} forcefields")
         xml_ff = f"""
-<ffsocket name='{name}'>
+<ffsocket name='{name}' mode='{mode}'>
 <address>{address}</address>
 {f"<port>{port}</port>" if mode=="inet" else ""}
 <latency> 1e-4 </latency>
-- 
2.43.0


From 3eef7b0bcd4c8110f50a0534cda0fb0d2c5d3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 112/128] fix: motion_nvt_xml accepts a thermostat

---
 ipi/scripting/templates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/scripting/templates.py b/ipi/scripting/templates.py
index e1c7c60..bcaef5e 100644
--- a/ipi/scripting/templates.py
+++ b/ipi/scripting/templates.py
@@ -198,6 +198,8 @@ def motion_nvt_xml(timestep, thermostat=None, path_integrals=False):
     <tau units='ase'> {10*timestep} </tau>
 </thermostat>
 """
+    else:
+        xml_thermostat = thermostat
 
     return f"""
 <motion mode="dynamics">
-- 
2.43.0


From bbc70ec2bcf4ceadf760cb18fdb70e5f5a6ab08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 113/128] fix: read_trajectory returns the whole step number

---
 ipi/scripting/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/scripting/parsing.py b/ipi/scripting/parsing.py
index 7f7a3eb..f527ae1 100644
--- a/ipi/scripting/parsing.py
+++ b/ipi/scripting/parsing.py
@@ -222,7 +222,7 @@ def read_trajectory(
                 # ... and the step
                 matches = step_regex.findall(ret["comment"])
                 if len(matches) >= 1:
-                    frame.info["step"] = int(matches[-1][0])
+                    frame.info["step"] = int(matches[-1])
 
                 # fetch the list of known traj types, cf. `engine/properties.py``
                 from ipi.engine.properties import Trajectories  # avoids circular import
-- 
2.43.0


From 848e3130eba9c949364ddc893a60973db936849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 114/128] fix: kinetic2tag counts atoms with an integer

---
 tools/py/kinetic2tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/py/kinetic2tag.py b/tools/py/kinetic2tag.py
index d232576..570827f 100755
--- a/tools/py/kinetic2tag.py
+++ b/tools/py/kinetic2tag.py
@@ -39,7 +39,7 @@ def main(prefix, lag):
             ret = read_file("xyz", ikod)
             kod = dstrip(ret["atoms"].q)
             if natoms == 0:  # initializes vectors
-                natoms = len(kin) / 3
+                natoms = len(kin) // 3
                 ktbuf = np.zeros(
                     (cbuf, natoms, 3, 3), float
                 )  # implement the buffer as a circular one so one doesn't need to re-allocate and storage is continuous
-- 
2.43.0


From 1b38dc0ea3489fecc0711694ce584cc23aed2449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 115/128] fix: mux-positions can wrap and unwrap

---
 tools/py/mux-positions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/py/mux-positions.py b/tools/py/mux-positions.py
index 66c125d..aeeb597 100755
--- a/tools/py/mux-positions.py
+++ b/tools/py/mux-positions.py
@@ -111,7 +111,7 @@ def main(fns_in, fn_out, begin, end, stride, wrap, unwrap):
 
 def wrap_positions(frame):
     pos = frame["atoms"].q.copy()
-    pos.shape = (len(pos) / 3, 3)
+    pos.shape = (len(pos) // 3, 3)
     cell = frame["cell"].h
     cell_inv = np.linalg.inv(cell)
     s = np.dot(cell_inv, pos.T)
@@ -125,10 +125,10 @@ def unwrap_positions(frame, framelast):
         return frame
 
     poslast_uwr = framelast["atoms"].q.copy()
-    poslast_uwr.shape = (len(poslast_uwr) / 3, 3)
+    poslast_uwr.shape = (len(poslast_uwr) // 3, 3)
 
     pos = frame["atoms"].q.copy()
-    pos.shape = (len(pos) / 3, 3)
+    pos.shape = (len(pos) // 3, 3)
 
     d = pos - poslast_uwr
 
-- 
2.43.0


From 2ee41d5369ff20a620309ad78ebef835e2f37c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 116/128] fix: contract-trajectory reads the cell in its units

---
 tools/py/contract-trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/py/contract-trajectory.py b/tools/py/contract-trajectory.py
index b958716..caec8f0 100755
--- a/tools/py/contract-trajectory.py
+++ b/tools/py/contract-trajectory.py
@@ -96,7 +96,7 @@ def contract_trajectory(fns_in, fn_out_template, n_new, cell_units_in, cell_unit
                 raise ValueError(msg.format(0, i, i_frame))
 
         cell = Cell()
-        cell.h = frames[0]["cell"]
+        cell.h = frames[0]["cell"] * unit_to_internal("length", cell_units, 1)
         atoms = Atoms(natoms)
         atoms.names = frames[0]["names"]
 
-- 
2.43.0


From 8c23bf674dd02e3f07fcf11927f91226b350d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 117/128] fix: committee-reweight reweights the observables of
 several models

---
 tools/py/committee-reweight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/py/committee-reweight.py b/tools/py/committee-reweight.py
index fc3cfff..56c9e79 100755
--- a/tools/py/committee-reweight.py
+++ b/tools/py/committee-reweight.py
@@ -124,7 +124,7 @@ def uncertainty_CEA_multiple_models(pot, obs, kbT):
     """
     beta = 1.0 / kbT  # noqa
     obs_avg = np.mean(obs, axis=0)
-    obs_avg_CEA, _h_matrix = CEA(obs, pot, kbT)
+    obs_avg_CEA, _h_matrix = CEA(pot, obs, kbT)
     fac_a = (pot.shape[1] * (obs.shape[1] - 1)) / (pot.shape[1] * obs.shape[1] - 1)
     fac_aV = ((pot.shape[1] - 1) * obs.shape[1]) / (pot.shape[1] * obs.shape[1] - 1)
     sigma2_a = np.var(obs_avg, ddof=1)  # Eq.(27)
-- 
2.43.0


From cd72e3837d61232a5a46ac2f1e7cf1fa42afa279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 118/128] fix: committee-reweight reads the potentials with a
 negative stride

---
 tools/py/committee-reweight.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/py/committee-reweight.py b/tools/py/committee-reweight.py
index 56c9e79..746e7c2 100755
--- a/tools/py/committee-reweight.py
+++ b/tools/py/committee-reweight.py
@@ -174,6 +174,7 @@ def commitee_reweight(
         potentials = np.loadtxt(pot_file)[::stride]
     elif stride < 0:
         stride = np.abs(stride)
+        potentials = np.loadtxt(pot_file)
         obs = obs[::stride]
     else:
         raise ValueError("Stride value cannot be zero")
-- 
2.43.0


From eb3c8fc7a61aef8946b5131c2f8434e9d01911bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 119/128] fix: autocorrelation with blocks of odd length

---
 ipi/utils/tools/acf_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/tools/acf_xyz.py b/ipi/utils/tools/acf_xyz.py
index c95d440..ff3b00d 100755
--- a/ipi/utils/tools/acf_xyz.py
+++ b/ipi/utils/tools/acf_xyz.py
@@ -127,7 +127,7 @@ def compute_acf_xyz(
             )
 
             # Computes the inverse Fourier transform to get the vvac.
-            mvvacf = np.fft.irfft(mfvvacf)[: mlag + 1]
+            mvvacf = np.fft.irfft(mfvvacf, n=bsize)[: mlag + 1]
 
             # Applies window in one direction and pads the vvac with zeroes.
             mpvvacf = np.append(mvvacf * win[mlag:], np.zeros(npad))
-- 
2.43.0


From 27c61a3fa3804fb630983f90d61e29ffbfac3631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:08 +0000
Subject: [PATCH 120/128] fix: trimsim finds the files of every kind of
 trajectory

---
 tools/py/trimsim.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tools/py/trimsim.py b/tools/py/trimsim.py
index 115b5df..fc3fdf1 100755
--- a/tools/py/trimsim.py
+++ b/tools/py/trimsim.py
@@ -84,7 +84,15 @@ def main(inputfile, outdir="trim"):
                 "positions",
                 "velocities",
                 "forces",
+                "forces_spring",
+                "Eforces",
                 "extras",
+                "extras_bias",
+                "forces_sc",
+                "momenta",
+                "becx",
+                "becy",
+                "becz",
             ]:  # multiple beads
                 nbeads = simul.syslist[0].beads.nbeads
                 for b in range(nbeads):
@@ -100,8 +108,8 @@ def main(inputfile, outdir="trim"):
                         else:
                             filename = o.filename
                         ofilename = outdir + "/" + filename
-                        if o.ibead < 0 or o.ibead == b:
-                            if getkey(o.what) == "extras":
+                        if (o.ibead < 0 and b % (-o.ibead) == 0) or o.ibead == b:
+                            if getkey(o.what) in ["extras", "extras_bias"]:
                                 filename = filename + "_" + padb
                                 ofilename = ofilename + "_" + padb
                                 ntraj.append(
@@ -144,7 +152,10 @@ def main(inputfile, outdir="trim"):
                         filename = s.prefix + "_" + o.filename
                     else:
                         filename = o.filename
-                    filename = filename + "." + o.format
+                    if o.format == "ase":
+                        filename = filename + ".extxyz"
+                    else:
+                        filename = filename + "." + o.format
                     ofilename = outdir + "/" + filename
                     ntraj.append(
                         {
-- 
2.43.0


From 45c4ecbf6e782e222b1a846d7b4fa083f4521dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 121/128] fix: virial of a PLUMED bias on the energy leaves out
 the physical virial

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 138e56b..d7c2208 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1049,7 +1049,7 @@ class FFPlumed(FFEval):
         if self.system_force is not None:
             # plumed increments the value of the force, here we need only the correction term
             f[:] -= dstrip(self.system_force.f).flatten()
-            vir[:] -= -dstrip(self.system_force.vir)
+            vir[:] -= dstrip(self.system_force.vir)
 
         extras = {"raw": ""}
         for x in self.plumed_data:
-- 
2.43.0


From 70d27cf4bd8c8ce57c6cffeff61db1b4bb8906bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 122/128] fix: full PLUMED update when positions have moved

---
 ipi/engine/forcefields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index d7c2208..daed730 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1085,7 +1085,9 @@ class FFPlumed(FFEval):
                 "triggering a full PLUMED update.",
                 verbosity.medium,
             )
-            request = {"pos": dstrip(pos), "cell": (dstrip(cell), None), "result": None}
+            request = ForceRequest(
+                {"pos": dstrip(pos), "cell": (dstrip(cell), None), "result": None}
+            )
             self.evaluate(request)
 
         if self.compute_work:
-- 
2.43.0


From 82000da016c689f1cbf99651de213ed687013fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 123/128] fix: work of metadynamics with a bias weight

---
 ipi/engine/smotion/metad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/smotion/metad.py b/ipi/engine/smotion/metad.py
index 5cd1b16..1f9d6e8 100644
--- a/ipi/engine/smotion/metad.py
+++ b/ipi/engine/smotion/metad.py
@@ -85,7 +85,7 @@ class MetaDyn(Smotion):
                 # updates the conserved quantity with the change in bias so that
                 # we remove the shift due to added hills
                 s.ensemble.eens += (
-                    mtd_work * s.beads.nbeads
+                    mtd_work * s.ensemble.bweights[ik] * s.beads.nbeads
                 )  # apply ring polymer contraction!
 
                 if mtd_work != 0:
-- 
2.43.0


From e64ae591929c2ca39e843c1668cc54eb3e56d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:24 +0000
Subject: [PATCH 124/128] fix: remdsort finds the files of all quantities
 written for each bead, and of selected beads

---
 tools/py/remdsort.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/py/remdsort.py b/tools/py/remdsort.py
index 030107f..a53389d 100755
--- a/tools/py/remdsort.py
+++ b/tools/py/remdsort.py
@@ -110,8 +110,15 @@ def main(inputfile, prefix="SRT_"):
                 "positions",
                 "velocities",
                 "forces",
+                "forces_spring",
+                "Eforces",
                 "extras",
                 "extras_bias",
+                "forces_sc",
+                "momenta",
+                "becx",
+                "becy",
+                "becz",
             ]:  # multiple beads
                 nbeads = simul.syslist[0].beads.nbeads
                 for b in range(nbeads):
@@ -127,7 +134,7 @@ def main(inputfile, prefix="SRT_"):
                         else:
                             filename = o.filename
                         ofilename = prefix + filename
-                        if o.ibead < 0 or o.ibead == b:
+                        if (o.ibead < 0 and b % (-o.ibead) == 0) or o.ibead == b:
                             if getkey(o.what) in ["extras", "extras_bias"]:
                                 filename = filename + "_" + padb
                                 ofilename = ofilename + "_" + padb
-- 
2.43.0


From 94354ef97fa776112cf90017d0c44bf921cdb7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:25 +0000
Subject: [PATCH 125/128] fix: remdsort ends at the end of trajectories too,
 and copies extras of any length

---
 tools/py/remdsort.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tools/py/remdsort.py b/tools/py/remdsort.py
index a53389d..e0d2ef0 100755
--- a/tools/py/remdsort.py
+++ b/tools/py/remdsort.py
@@ -225,11 +225,21 @@ def main(inputfile, prefix="SRT_"):
                         # reads one frame from the input file
                         ibuffer = []
                         if straj["format"] is None:
-                            ibuffer.append(straj["ifile"].readline())
-                            ibuffer.append(straj["ifile"].readline())
+                            # the header, then everything up to the next header
+                            iline = straj.pop("header", "") or straj["ifile"].readline()
+                            if len(iline) == 0:
+                                raise EOFError
+                            ibuffer.append(iline)
+                            for iline in iter(straj["ifile"].readline, ""):
+                                if iline.startswith(" #EXTRAS"):
+                                    straj["header"] = iline
+                                    break
+                                ibuffer.append(iline)
                             traj[irep[isys]]["ofile"].write("".join(ibuffer))
                         if straj["format"] in ["xyz", "ase"]:
                             iline = straj["ifile"].readline()
+                            if len(iline) == 0:
+                                raise EOFError
                             nat = int(iline)
                             ibuffer.append(iline)
                             ibuffer.append(straj["ifile"].readline())
@@ -238,6 +248,8 @@ def main(inputfile, prefix="SRT_"):
                             traj[irep[isys]]["ofile"].write("".join(ibuffer))
                         elif straj["format"] == "pdb":
                             iline = straj["ifile"].readline()
+                            if len(iline) == 0:
+                                raise EOFError
                             while iline.strip() != "" and iline.strip() != "END":
                                 ibuffer.append(iline)
                                 iline = straj["ifile"].readline()
-- 
2.43.0


From 077c33a904fd821dbc519a49414ff1b320952019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:45 +0000
Subject: [PATCH 126/128] fix: trimsim copies extras of any length

---
 tools/py/trimsim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/py/trimsim.py b/tools/py/trimsim.py
index fc3fdf1..1e9ce18 100755
--- a/tools/py/trimsim.py
+++ b/tools/py/trimsim.py
@@ -218,8 +218,14 @@ def main(inputfile, outdir="trim"):
                         # reads one frame from the input file
                         ibuffer = []
                         if straj["format"] is None:
-                            ibuffer.append(straj["ifile"].readline())
-                            ibuffer.append(straj["ifile"].readline())
+                            # the header, then everything up to the next header
+                            iline = straj.pop("header", "") or straj["ifile"].readline()
+                            ibuffer.append(iline)
+                            for iline in iter(straj["ifile"].readline, ""):
+                                if iline.startswith(" #EXTRAS"):
+                                    straj["header"] = iline
+                                    break
+                                ibuffer.append(iline)
                             traj[isys]["ofile"].write("".join(ibuffer))
                         if straj["format"] in ["xyz", "ase"]:
                             iline = straj["ifile"].readline()
-- 
2.43.0


From 67283a4f7e290e6ff9750eca6ac9346a74ed9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:00 +0000
Subject: [PATCH 127/128] fix: trimsim and remdsort find the extras of force
 components

---
 tools/py/remdsort.py | 6 ++++--
 tools/py/trimsim.py  | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/py/remdsort.py b/tools/py/remdsort.py
index e0d2ef0..ad5b3cd 100755
--- a/tools/py/remdsort.py
+++ b/tools/py/remdsort.py
@@ -177,15 +177,17 @@ def main(inputfile, prefix="SRT_"):
                         filename = s.prefix + "_" + o.filename
                     else:
                         filename = o.filename
+                    extras = getkey(o.what)[:6] == "extras"
                     extension = o.format
                     if extension == "ase":  # special case
                         extension = "extxyz"
-                    filename = filename + "." + extension
+                    if not extras:
+                        filename = filename + "." + extension
                     ofilename = prefix + filename
                     ntraj.append(
                         {
                             "filename": filename,
-                            "format": o.format,
+                            "format": None if extras else o.format,
                             "ofilename": ofilename,
                             "stride": o.stride,
                             "ifile": open(filename, "r"),
diff --git a/tools/py/trimsim.py b/tools/py/trimsim.py
index 1e9ce18..affd701 100755
--- a/tools/py/trimsim.py
+++ b/tools/py/trimsim.py
@@ -152,7 +152,10 @@ def main(inputfile, outdir="trim"):
                         filename = s.prefix + "_" + o.filename
                     else:
                         filename = o.filename
-                    if o.format == "ase":
+                    extras = getkey(o.what)[:6] == "extras"
+                    if extras:
+                        pass  # written without an extension
+                    elif o.format == "ase":
                         filename = filename + ".extxyz"
                     else:
                         filename = filename + "." + o.format
@@ -160,7 +163,7 @@ def main(inputfile, outdir="trim"):
                     ntraj.append(
                         {
                             "filename": filename,
-                            "format": o.format,
+                            "format": None if extras else o.format,
                             "ofilename": ofilename,
                             "stride": o.stride,
                             "ifile": open(filename, "r"),
-- 
2.43.0


From 9d74e5b1ebd1446eafce3f63fc559e9892048582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:44 +0000
Subject: [PATCH 128/128] fix: thermostat variables can be initialised again
 (the thermostat belongs to the motion)

---
 ipi/engine/initializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 8aa08a9..76f55a6 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -628,18 +628,18 @@ class Initializer:
 
             if k == "gle":
                 # read thermostat parameters from file
-                if not (hasattr(simul.ensemble, "thermostat")):
+                if not (hasattr(simul.motion, "thermostat")):
                     raise ValueError(
-                        "Ensemble does not have a thermostat to initialize"
+                        "Motion does not have a thermostat to initialize"
                     )
-                if not (hasattr(simul.ensemble.thermostat, "s")):
+                if not (hasattr(simul.motion.thermostat, "s")):
                     raise ValueError(
                         "There is nothing to initialize in non-GLE thermostats"
                     )
-                ssimul = simul.ensemble.thermostat.s
+                ssimul = simul.motion.thermostat.s
                 if v.mode == "manual":
                     sinput = v.value.copy()
-                    if sinput.size() != ssimul.size():
+                    if sinput.size != ssimul.size:
                         raise ValueError(
                             "Size mismatch in thermostat initialization data"
                         )
-- 
2.43.0

