From 20d5ff991ec497f0d5cc75a5399777ddc329a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 01/20] fix: element conversions no longer modify the arrays
 they are given

kep_to_cart negated the semi-major axis of hyperbolic orbits in the caller's
array (a second call with the same elements returned NaN), converted its
angles to radians and back in place, and both conversions temporarily
reshaped vector input, which was visible to other threads and permanent if
the call was interrupted.
---
 pyorb/kepler.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..aaf1bdd 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -376,12 +376,8 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     if len(cart.shape) < 2:
         input_is_vector = True
-        try:
-            cart.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {cart.shape}')
-            raise
+        # new view, the array of the caller is left as it is
+        cart = cart.reshape(6, 1)
     else:
         input_is_vector = False
 
@@ -541,7 +537,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
@@ -1717,14 +1712,12 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
 
+    # work on a copy, the array of the caller is left as it is
+    kep = kep.copy()
+
     if len(kep.shape) < 2:
         input_is_vector = True
-        try:
-            kep.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {kep.shape}')
-            raise
+        kep = kep.reshape(6, 1)
     else:
         input_is_vector = False
 
@@ -1780,9 +1773,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
 
     return x
-- 
2.43.0


From 624ff7c6913f5a42141f23ee1fba65958748ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 02/20] fix: undefined anomalies and Stumpff values are NaN,
 not leftover memory

Where the eccentricity (or argument) is NaN none of the masked assignments
applied and the uninitialised output buffer was returned.
---
 pyorb/kepler.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index aaf1bdd..aa56965 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,6 +147,13 @@ considered not inclined
 """
 
 
+def _undefined_like(x):
+    '''Output array of the same shape as `x` filled with NaN: what is not
+    defined by the input, e.g. since the eccentricity is NaN, stays NaN.
+    '''
+    return np.full(x.shape, np.nan, dtype=np.result_type(x.dtype, np.float16))
+
+
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
     '''Converts set of Cartesian state vectors to set of Equinoctial orbital
     elements.
@@ -648,7 +655,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = _undefined_like(_nu)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -707,7 +714,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = _undefined_like(_E)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -766,7 +773,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = _undefined_like(_E)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1479,7 +1486,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x)
+    c0 = _undefined_like(x)
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1507,7 +1514,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x)
+    c1 = _undefined_like(x)
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1535,7 +1542,7 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x)
+    c2 = _undefined_like(x)
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1563,7 +1570,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x)
+    c3 = _undefined_like(x)
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
-- 
2.43.0


From a951d567e9496152b7cea44f76dfa7523e941aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 03/20] fix: eccentric anomaly of open orbits before periapsis

The hyperbolic and parabolic eccentric anomaly were wrapped into [0, 2pi),
although these are not periodic, so an approaching orbit was mirrored or moved
to an unrelated point by every conversion through eccentric or mean anomaly,
and the starting value for negative mean anomalies was NaN.
---
 README.md       | 1 +
 pyorb/kepler.py | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index cb43df7..7eac569 100644
--- a/README.md
+++ b/README.md
@@ -121,6 +121,7 @@ Orientation of the ellipse in the coordinate system and angle definitions:
  - If both **e=0** and **i=0** or **i=pi**: the position on the circle is only described by the anomaly.
  - The eccentric anomaly is used for elliptic, parabolic and hyperbolic cases but the kepler equation changes accordingly.
  - For parabolic and hyperbolic orbits the true and eccentric anomaly wraps at **pi** to the same trajectory, not the mirror version.
+ - For parabolic and hyperbolic orbits the eccentric and mean anomaly are not periodic: they are negative before periapsis and positive after.
 
  Shape definitions:
  - The Semi-major axis is always positive.
diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index aa56965..7926fab 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -667,6 +667,8 @@ def true_to_eccentric(nu, e, degrees=False):
         E[eli] = 2.0*np.arctan(
             np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5)
         )
+        # only closed orbits are periodic in the eccentric anomaly
+        E[eli] = np.mod(E[eli] + 2.*np.pi, 2.*np.pi)
     else:
         if e > 1:
             E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*np.tan(_nu*0.5))
@@ -674,8 +676,7 @@ def true_to_eccentric(nu, e, degrees=False):
             E = np.tan(_nu*0.5)
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
-
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+            E = np.mod(E + 2.*np.pi, 2.*np.pi)
 
     if degrees:
         E = np.degrees(E)
@@ -1146,7 +1147,8 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    # the equation is odd in M: before periapsis both anomalies are negative
+    E0 = np.copysign(np.log(2*np.abs(M)/e + 1.8), M)
     return E0
 
 
-- 
2.43.0


From c4c4b5f7d660e3ed82aac9ca10ee5c1d7b651af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 04/20] fix: propagation of open orbits; period and mean motion
 setters

propagate wrapped the mean anomaly of open orbits, the mean motion of
parabolic orbits did not match their Kepler equation, and the period
setter did not accept a value.
---
 pyorb/orbit.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..3b70ab5 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -238,8 +238,10 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # the mean anomaly of open orbits is not periodic
+        self.mean_anomaly = np.where(
+            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
         if self.direct_update:
             self.calculate_cartesian()
 
@@ -824,7 +826,10 @@ class Orbit:
         else:
             norm_ = np.pi*2.0
 
-        return norm_/self.period
+        n = norm_/self.period
+        # parabolic orbits: periapsis distance is used as semi-major axis
+        n[self.e == 1] /= np.sqrt(2)
+        return n
 
     @mean_motion.setter
     def mean_motion(self, value):
@@ -834,12 +839,9 @@ class Orbit:
             norm_ = 360.0
         else:
             norm_ = np.pi*2.0
-        self.period = norm_/value
-
-        if self.direct_update:
-            self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
+        # parabolic orbits: periapsis distance is used as semi-major axis
+        self.period = np.where(
+            self.e == 1, norm_/(np.sqrt(2)*value), norm_/value)
 
     def calc_true_anomaly(self, inds=slice(None, None, None)):
         '''Calculates the true anomaly and stores it in
@@ -1047,11 +1049,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From b21bcd640dd31a0c535669077ae15d12e66647da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 05/20] fix: racing definitions of a constant could both
 succeed

---
 pyorb/const.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyorb/const.py b/pyorb/const.py
index 2d89094..a1b9abc 100644
--- a/pyorb/const.py
+++ b/pyorb/const.py
@@ -23,11 +23,11 @@ class _const:
         self.__dict__ = self._shared_state
 
     def __setattr__(self, name, value):
-        if name in self.__dict__:
-            if self.__dict__[name] == value:
-                return
-            raise self.ConstError("Can't rebind const({})".format(name))
-        self.__dict__[name] = value
+        # setdefault is atomic: only one of several threads defines the name
+        current = self.__dict__.setdefault(name, value)
+        if current is value or current == value:
+            return
+        raise self.ConstError("Can't rebind const({})".format(name))
 
     def __delattr__(self, name):
         if name in self.__dict__:
-- 
2.43.0


From a8be70394c97f76ec01fd232c1f03663d09da9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 06/20] fix: semi-major axis and eccentricity of parabolic
 orbits from cartesian

The semi-major axis of a parabolic orbit is its periapsis distance, it was
computed from the vanishing orbital energy.
---
 pyorb/kepler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 7926fab..673977d 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -419,6 +419,11 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     hn = np.linalg.norm(h, axis=0)
     o[2, :] = np.arccos(h[2, :]/hn)
 
+    # parabolic orbits: the periapsis distance is used as semi-major axis
+    par = np.abs(o[1, :] - 1.0) < e_lim
+    o[1, par] = 1.0
+    o[0, par] = (hn**2/(2.0*mu))[par]
+
     # possible cases
     eg = o[1, :] > e_lim  # e grater
     # i grater (include retrograde planar orbits)
-- 
2.43.0


From a4d83e1efe63e850eb83adba5e06256d4bc189d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 07/20] fix: pending conversions are tracked for every write

A write of single elements did not complete the pending conversion of the
elements it leaves as they are, did not mark its own side as newest, left
no pending conversion behind in direct mode when it was interrupted, and a
subset update recalculated orbits that were not addressed.
---
 pyorb/orbit.py | 156 +++++++++++++++++++++++++++----------------------
 1 file changed, 87 insertions(+), 69 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 3b70ab5..f4e4b3b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -149,13 +149,13 @@ class Orbit:
         return str_
 
     def _cart_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_cartesian(
                 np.logical_not(self.__cart_calculated),
             )
 
     def _kep_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_kepler(
                 np.logical_not(self.__kep_calculated),
             )
@@ -376,22 +376,20 @@ class Orbit:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
+            self.__cart_calculated[inds] = True
+            self.__kep_calculated[inds] = False
             if self.direct_update:
-                self.calculate_kepler()
-            else:
-                self.__cart_calculated[inds] = True
-                self.__kep_calculated[inds] = False
+                self.calculate_kepler(inds)
             return
 
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
+            self.__kep_calculated[inds] = True
+            self.__cart_calculated[inds] = False
             if self.direct_update:
-                self.calculate_cartesian()
-            else:
-                self.__kep_calculated[inds] = True
-                self.__cart_calculated[inds] = False
+                self.calculate_cartesian(inds)
             return
 
         for ind, key in enumerate(Orbit.CARTESIAN):
@@ -418,25 +416,25 @@ class Orbit:
             self.m[inds] = kwargs['m']
 
         if cart_updated:
+            self._cart_check()
             for ind, key in enumerate(Orbit.CARTESIAN):
                 if key in kwargs:
                     self._cart[ind, inds] = kwargs[key]
 
+            self.__kep_calculated[inds] = False
+            self.__cart_calculated[inds] = True
             if self.direct_update:
-                self.calculate_kepler()
-            else:
-                self.__kep_calculated[inds] = False
-                self.__cart_calculated[inds] = True
+                self.calculate_kepler(inds)
         if kep_updated:
+            self._kep_check()
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
                     self._kep[ind, inds] = kwargs[key]
 
+            self.__cart_calculated[inds] = False
+            self.__kep_calculated[inds] = True
             if self.direct_update:
-                self.calculate_cartesian()
-            else:
-                self.__cart_calculated[inds] = False
-                self.__kep_calculated[inds] = True
+                self.calculate_cartesian(inds)
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
@@ -453,19 +451,27 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
-        self.__cart_calculated[do_inds] = True
-        if self.type == 'true':
-            kep_tmp = self._kep[:, do_inds]
-        else:
-            kep_tmp = self._kep[:, do_inds]
-            self.calc_true_anomaly(do_inds)
-            kep_tmp[5, :] = self._true_anomaly[do_inds]
+        kep_tmp = self._kep[:, do_inds]
+        if self.type == 'eccentric':
+            kep_tmp[5, :] = functions.eccentric_to_true(
+                kep_tmp[5, :],
+                kep_tmp[1, :],
+                degrees=self.degrees,
+            )
+        elif self.type == 'mean':
+            kep_tmp[5, :] = functions.mean_to_true(
+                kep_tmp[5, :],
+                kep_tmp[1, :],
+                solver_options=self.solver_options,
+                degrees=self.degrees,
+            )
 
         self._cart[:, do_inds] = functions.kep_to_cart(
             kep_tmp,
             mu=self.G*(self.M0 + self.m[do_inds]),
             degrees=self.degrees,
         )
+        self.__cart_calculated[do_inds] = True
 
     def calculate_kepler(self, inds=slice(None, None, None)):
         '''Calculates Keplerian elements based on Cartesian elements
@@ -482,26 +488,28 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
-        self.__kep_calculated[do_inds] = True
-        self._kep[:, do_inds] = functions.cart_to_kep(
+        kep_tmp = functions.cart_to_kep(
             self._cart[:, do_inds],
             mu = self.G*(self.M0 + self.m[do_inds]),
             degrees = self.degrees,
         )
 
         if self.type == 'eccentric':
-            self._kep[5, do_inds] = functions.true_to_eccentric(
-                self._kep[5, do_inds],
-                self.e[do_inds],
+            kep_tmp[5, :] = functions.true_to_eccentric(
+                kep_tmp[5, :],
+                kep_tmp[1, :],
                 degrees = self.degrees,
             )
         elif self.type == 'mean':
-            self._kep[5, do_inds] = functions.true_to_mean(
-                self._kep[5, do_inds],
-                self.e[do_inds],
+            kep_tmp[5, :] = functions.true_to_mean(
+                kep_tmp[5, :],
+                kep_tmp[1, :],
                 degrees = self.degrees,
             )
 
+        self._kep[:, do_inds] = kep_tmp
+        self.__kep_calculated[do_inds] = True
+
     @property
     def num(self):
         '''Number of orbits
@@ -523,13 +531,13 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def v(self):
@@ -542,13 +550,13 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def cartesian(self):
@@ -568,12 +576,11 @@ class Orbit:
                 self._cart[:, :] = value[:, :]
         else:
             self._cart[:, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def x(self):
@@ -586,12 +593,13 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def y(self):
@@ -604,12 +612,13 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def z(self):
@@ -622,12 +631,13 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vx(self):
@@ -640,12 +650,13 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vy(self):
@@ -658,12 +669,13 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vz(self):
@@ -676,12 +688,13 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def kepler(self):
@@ -701,12 +714,11 @@ class Orbit:
                 self._kep[:, :] = value[:, :]
         else:
             self._kep[:, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
-            self.__kep_calculated[:] = True
 
     @property
     def a(self):
@@ -719,12 +731,13 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def e(self):
@@ -737,12 +750,13 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def i(self):
@@ -755,12 +769,13 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def omega(self):
@@ -773,12 +788,13 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def Omega(self):
@@ -791,12 +807,13 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def anom(self):
@@ -810,12 +827,13 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def mean_motion(self):
-- 
2.43.0


From 779c8b5a84ce44d5e66e3d0c13ea98630d08cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 08/20] fix: a rejected or interrupted assignment leaves the
 orbits as they were

Values that cannot be converted were partially written, update wrote some
elements before others were found to be invalid and did not accept the
same vectors as the setters.
---
 pyorb/orbit.py | 77 ++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f4e4b3b..b9e2f81 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -160,6 +160,15 @@ class Orbit:
                 np.logical_not(self.__kep_calculated),
             )
 
+    def _columns(self, value, inds=slice(None, None, None)):
+        '''The value as an array that can be assigned to the selected orbits,
+        a single vector is used for each of them.
+        '''
+        value = np.asarray(value, dtype=self.dtype)
+        if value.ndim == 1 and self._kep[:, inds].ndim > 1:
+            value = value[:, None]
+        return value
+
     def __copy__(self):
         return self[:]
 
@@ -375,7 +384,7 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            self._cart[:, inds] = self._columns(kwargs['cartesian'], inds)
             self.__cart_calculated[inds] = True
             self.__kep_calculated[inds] = False
             if self.direct_update:
@@ -385,7 +394,7 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            self._kep[:, inds] = self._columns(kwargs['kepler'], inds)
             self.__kep_calculated[inds] = True
             self.__cart_calculated[inds] = False
             if self.direct_update:
@@ -409,32 +418,44 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # collect the new values first, so that the instance is only modified
+        # once all of them are known to be valid
+        m = self.m
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
                     set "m" via property and manually call calculate.')
-            self.m[inds] = kwargs['m']
+            m = self.m.copy()
+            m[inds] = kwargs['m']
 
         if cart_updated:
             self._cart_check()
+            cart = self._cart.copy()
             for ind, key in enumerate(Orbit.CARTESIAN):
                 if key in kwargs:
-                    self._cart[ind, inds] = kwargs[key]
+                    cart[ind, inds] = kwargs[key]
 
+            self.m[:] = m
+            self._cart[:, :] = cart
             self.__kep_calculated[inds] = False
             self.__cart_calculated[inds] = True
             if self.direct_update:
                 self.calculate_kepler(inds)
-        if kep_updated:
+        elif kep_updated:
             self._kep_check()
+            kep = self._kep.copy()
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
-                    self._kep[ind, inds] = kwargs[key]
+                    kep[ind, inds] = kwargs[key]
 
+            self.m[:] = m
+            self._kep[:, :] = kep
             self.__cart_calculated[inds] = False
             self.__kep_calculated[inds] = True
             if self.direct_update:
                 self.calculate_cartesian(inds)
+        else:
+            self.m[:] = m
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
@@ -532,7 +553,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[:3, :] = value
+        self._cart[:3, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -551,7 +572,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[3:, :] = value
+        self._cart[3:, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -569,13 +590,7 @@ class Orbit:
     def cartesian(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
-        if isinstance(value, np.ndarray):
-            if len(value.shape) == 1:
-                self._cart[:, :] = value[:, None]
-            else:
-                self._cart[:, :] = value[:, :]
-        else:
-            self._cart[:, :] = value
+        self._cart[:, :] = self._columns(value)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -594,7 +609,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[0, :] = value
+        self._cart[0, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -613,7 +628,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[1, :] = value
+        self._cart[1, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -632,7 +647,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[2, :] = value
+        self._cart[2, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -651,7 +666,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[3, :] = value
+        self._cart[3, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -670,7 +685,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[4, :] = value
+        self._cart[4, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -689,7 +704,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[5, :] = value
+        self._cart[5, :] = np.asarray(value, dtype=self.dtype)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -707,13 +722,7 @@ class Orbit:
     def kepler(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
-        if isinstance(value, np.ndarray):
-            if len(value.shape) == 1:
-                self._kep[:, :] = value[:, None]
-            else:
-                self._kep[:, :] = value[:, :]
-        else:
-            self._kep[:, :] = value
+        self._kep[:, :] = self._columns(value)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
@@ -732,7 +741,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[0, :] = value
+        self._kep[0, :] = np.asarray(value, dtype=self.dtype)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
@@ -751,7 +760,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[1, :] = value
+        self._kep[1, :] = np.asarray(value, dtype=self.dtype)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
@@ -770,7 +779,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[2, :] = value
+        self._kep[2, :] = np.asarray(value, dtype=self.dtype)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
@@ -789,7 +798,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[3, :] = value
+        self._kep[3, :] = np.asarray(value, dtype=self.dtype)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
@@ -808,7 +817,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[4, :] = value
+        self._kep[4, :] = np.asarray(value, dtype=self.dtype)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
@@ -828,7 +837,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[5, :] = value
+        self._kep[5, :] = np.asarray(value, dtype=self.dtype)
         self.__cart_calculated[:] = False
         self.__kep_calculated[:] = True
 
-- 
2.43.0


From c448aff98717e1437bc050b57d78cff7b2a444fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 09/20] fix: failed add, delete and allocate leave the set of
 orbits as it was

---
 pyorb/orbit.py | 82 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index b9e2f81..f7b25f2 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -254,22 +254,44 @@ class Orbit:
         if self.direct_update:
             self.calculate_cartesian()
 
+    def __get_storage(self):
+        return (
+            self.m, self._cart, self._kep,
+            self._true_anomaly, self._eccentric_anomaly, self._mean_anomaly,
+            self.__cart_calculated, self.__kep_calculated,
+        )
+
+    def __set_storage(self, storage):
+        '''Replaces all arrays with one entry per orbit in one step
+        '''
+        (
+            self.m, self._cart, self._kep,
+            self._true_anomaly, self._eccentric_anomaly, self._mean_anomaly,
+            self.__cart_calculated, self.__kep_calculated,
+        ) = storage
+
     def delete(self, inds):
         '''Deletes the selected orbits from this instance.
 
         :param int/list/numpy.ndarray/slice inds: Incidences of orbs to delete.
         :return: None
         '''
-        self.m = np.delete(self.m, inds, axis=0)
-        self._cart = np.delete(self._cart, inds, axis=1)
-        self._kep = np.delete(self._kep, inds, axis=1)
-        self._true_anomaly = np.delete(self._true_anomaly, inds, axis=0)
-        self._eccentric_anomaly = np.delete(
+        m = np.delete(self.m, inds, axis=0)
+        _cart = np.delete(self._cart, inds, axis=1)
+        _kep = np.delete(self._kep, inds, axis=1)
+        _true_anomaly = np.delete(self._true_anomaly, inds, axis=0)
+        _eccentric_anomaly = np.delete(
             self._eccentric_anomaly, inds, axis=0)
-        self._mean_anomaly = np.delete(self._mean_anomaly, inds, axis=0)
-        self.__cart_calculated = np.delete(
+        _mean_anomaly = np.delete(self._mean_anomaly, inds, axis=0)
+        cart_calculated = np.delete(
             self.__cart_calculated, inds, axis=0)
-        self.__kep_calculated = np.delete(self.__kep_calculated, inds, axis=0)
+        kep_calculated = np.delete(self.__kep_calculated, inds, axis=0)
+
+        self.__set_storage((
+            m, _cart, _kep,
+            _true_anomaly, _eccentric_anomaly, _mean_anomaly,
+            cart_calculated, kep_calculated,
+        ))
 
     def add(self, num=1, **kwargs):
         '''Adds orbits to this instance
@@ -285,7 +307,23 @@ class Orbit:
 
         '''
         inds = slice(self.num, self.num + num, None)
+        storage = self.__get_storage()
 
+        try:
+            self.__extend(num)
+            if 'm' in kwargs:
+                self.m[inds] = kwargs['m']
+                del kwargs['m']
+
+            self.update(inds = inds, **kwargs)
+        except BaseException:
+            # leave the instance as it was if the orbits could not be added
+            self.__set_storage(storage)
+            raise
+
+    def __extend(self, num):
+        '''Extends all storage with unassigned orbits
+        '''
         self.m = np.append(
             self.m,
             np.full((num,), 0, dtype=self.dtype),
@@ -327,12 +365,6 @@ class Orbit:
             axis=0,
         )
 
-        if 'm' in kwargs:
-            self.m[inds] = kwargs['m']
-            del kwargs['m']
-
-        self.update(inds = inds, **kwargs)
-
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
 
@@ -342,14 +374,20 @@ class Orbit:
         :param int num: Number of orbits to change allocation to
         :return: None
         '''
-        self.m = np.full((num,), 0, dtype=self.dtype)
-        self._cart = np.full((6, num), np.nan, dtype=self.dtype)
-        self._kep = np.full((6, num), np.nan, dtype=self.dtype)
-        self._true_anomaly = np.full((num,), np.nan, dtype=self.dtype)
-        self._eccentric_anomaly = np.full((num,), np.nan, dtype=self.dtype)
-        self._mean_anomaly = np.full((num,), np.nan, dtype=self.dtype)
-        self.__cart_calculated = np.full((num,), False, dtype=np.bool_)
-        self.__kep_calculated = np.full((num,), False, dtype=np.bool_)
+        m = np.full((num,), 0, dtype=self.dtype)
+        _cart = np.full((6, num), np.nan, dtype=self.dtype)
+        _kep = np.full((6, num), np.nan, dtype=self.dtype)
+        _true_anomaly = np.full((num,), np.nan, dtype=self.dtype)
+        _eccentric_anomaly = np.full((num,), np.nan, dtype=self.dtype)
+        _mean_anomaly = np.full((num,), np.nan, dtype=self.dtype)
+        cart_calculated = np.full((num,), False, dtype=np.bool_)
+        kep_calculated = np.full((num,), False, dtype=np.bool_)
+
+        self.__set_storage((
+            m, _cart, _kep,
+            _true_anomaly, _eccentric_anomaly, _mean_anomaly,
+            cart_calculated, kep_calculated,
+        ))
 
     def update(self, inds=slice(None, None, None), **kwargs):
         '''Calculates Keplerian elements based on Cartesian elements
-- 
2.43.0


From 61a573d4bc756c8cad65971ea715f6f57eda7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 10/20] fix: copies keep pending conversions and iterations are
 independent

---
 pyorb/orbit.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f7b25f2..d7896eb 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -190,7 +190,7 @@ class Orbit:
             degrees = self.degrees,
             solver_options = copy.deepcopy(self.solver_options),
             dtype = self.dtype,
-            epoch = self.epoch,
+            epoch = copy.deepcopy(self.epoch),
             type = self.type,
         )
         tmp_orb.auto_update = self.auto_update
@@ -198,6 +198,12 @@ class Orbit:
         tmp_orb.kepler_read_only = self.kepler_read_only
         tmp_orb.cartesian_read_only = self.cartesian_read_only
 
+        # writes that are not yet converted are part of the state
+        tmp_orb.__cart_calculated = np.array(
+            self.__cart_calculated[inds], ndmin=1)
+        tmp_orb.__kep_calculated = np.array(
+            self.__kep_calculated[inds], ndmin=1)
+
         tmp_orb._cart = self._cart[:, inds].copy()
         tmp_orb._kep = self._kep[:, inds].copy()
 
@@ -211,15 +217,11 @@ class Orbit:
         return self.num
 
     def __iter__(self):
-        self.__it = 0
-        return self
-
-    def __next__(self):
-        if self.__it < self.num:
-            self.__it += 1
-            return self[self.__it-1]
-        else:
-            raise StopIteration
+        # each iteration has its own position
+        ind = 0
+        while ind < self.num:
+            ind += 1
+            yield self[ind-1]
 
     @property
     def type(self):
-- 
2.43.0


From fe6efd1532bf1f38f7ff4e9e3d590557df606a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 11/20] fix: changing the anomaly type does not move the orbits

In direct mode the cartesian elements were recalculated with the new
anomaly interpreted as the old type. Calculating the eccentric anomaly of a
subset replaced the storage of all orbits.
---
 pyorb/orbit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index d7896eb..0b38998 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -233,12 +233,16 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
             if val == 'true':
-                self.anom = self.true_anomaly
+                anom = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                anom = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                anom = self.mean_anomaly
+            # same position, hence the cartesian elements are not touched
+            self._kep[5, :] = anom
             self.__type = val
 
     def propagate(self, dt):
@@ -954,7 +958,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 7dc4e791b33a7f319c8e2ea81aeeb381c02381ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 12/20] fix: equinoctial elements are assigned as a whole

Protected elements and the pending conversions were modified before the
assignment could be refused.
---
 pyorb/orbit.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 0b38998..2b0136a 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1105,12 +1105,24 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
-        self._kep[:5, ...] = tmp_elms
-        self.mean_anomaly = elems[5, ...]
+        if self.type == 'true':
+            elems[5, ...] = functions.mean_to_true(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        elif self.type == 'eccentric':
+            elems[5, ...] = functions.mean_to_eccentric(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        self.kepler = elems
 
     @property
     def period(self):
-- 
2.43.0


From 53c3e49e6c59463b8e95fa6bf5eee57bd6db0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/20] fix: speed and periapsis of open orbits, printed
 summary of pending writes

---
 pyorb/orbit.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 2b0136a..1e7f5ad 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -140,8 +140,8 @@ class Orbit:
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
                 zip(
-                    self._kep[:, 0], Orbit.KEPLER,
-                    self._cart[:, 0], Orbit.CARTESIAN
+                    self.kepler[:, 0], Orbit.KEPLER,
+                    self.cartesian[:, 0], Orbit.CARTESIAN
                 )
             ])
         else:
@@ -1088,7 +1088,9 @@ class Orbit:
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        # parabolic orbits: periapsis distance is used as semi-major axis
+        e = self.e
+        return np.where(e == 1, 1.0, np.abs(1.0 - e))*self.a
 
     @property
     def mean_longitude(self):
@@ -1167,13 +1169,23 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
+        a, e = self.a, self.e
+        mu = self.G*(self.M0 + self.m)
+        # signed semi-major axis: negative for hyperbolas and
+        # infinite for parabolas
+        a[e > 1] = -a[e > 1]
+        h = np.where(
+            e == 1,
+            functions.parabolic_total_angular_momentum(np.abs(a), mu),
+            functions.orbit_total_angular_momentum(a, e, mu),
+        )
+        a[e == 1] = np.inf
         return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
+            functions.orbital_distance(
+                h, mu, e,
+                self.true_anomaly,
                 degrees=self.degrees,
             ),
-            self.a,
-            self.G*(self.M0 + self.m),
+            a,
+            mu,
         )
-- 
2.43.0


From 20e85fa9cdbb7de176e7192d9e3f3917342d2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 14/20] fix: parabolic anomaly long before periapsis lost all
 precision

---
 pyorb/kepler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 673977d..769f088 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1322,9 +1322,10 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
                 E_calc, it_num = laguerre_solve_kepler(
                     E0, Mc, ec, **solver_options)
             elif ec == 1:
-                A = 3.0/2.0*Mc
+                # the equation is odd: no cancellation before periapsis
+                A = 3.0/2.0*np.abs(Mc)
                 B = np.cbrt(A + np.sqrt(A**2 + 1))
-                E_calc = B - 1.0/B
+                E_calc = np.copysign(B - 1.0/B, Mc)
             else:
                 E0 = _get_kepler_guess(Mc, ec)
                 E_calc, it_num = laguerre_solve_kepler(
@@ -1340,9 +1341,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             E0 = _get_hyperbolic_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
         elif e == 1:
-            A = 3.0/2.0*_M
+            A = 3.0/2.0*np.abs(_M)
             B = np.cbrt(A + np.sqrt(A**2 + 1))
-            E = B - 1.0/B
+            E = np.copysign(B - 1.0/B, _M)
         else:
             E0 = _get_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
-- 
2.43.0


From 8f7a1b690607c27cc860d70a80f5a07da98bab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 15/20] fix: Kepler equation of reversed and column-major
 arrays solved in element order

---
 pyorb/kepler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 769f088..0378c92 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1230,9 +1230,9 @@ def kepler_guess(M, e):
         E0 = np.empty(M.shape, dtype=M.dtype)
 
         out_it = E0.size
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E0, op_flags=['readwrite'])
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E0, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
@@ -1308,9 +1308,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E, op_flags=['readwrite'])
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
-- 
2.43.0


From e8b141088da0c879a181d2671a77146c2fea627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 16/20] fix: an iteration limit of zero was exceeded by one
 iteration

---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0378c92..1abc675 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1106,6 +1106,9 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
     it_num = 0
 
     while np.abs(f_eval) >= tol:
+        if it_num >= max_iter:
+            break
+
         it_num += 1
 
         fp_eval = _fp(E)
@@ -1126,9 +1129,6 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
 
         f_eval = _f(E)
 
-        if it_num >= max_iter:
-            break
-
     return E, it_num
 
 
-- 
2.43.0


From ec4226d57f9b3160458b5a5b6d738cd3421bc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 17/20] fix: recalculation discarded writes whose conversion
 was pending

---
 pyorb/orbit.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 1e7f5ad..fca7595 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -510,6 +510,13 @@ class Orbit:
         '''
         do_inds = np.full((self.num,), False, dtype=np.bool_)
         do_inds[inds] = True
+        if self.auto_update or self.direct_update:
+            # based on the current Keplerian elements, hence convert pending
+            # writes to the Cartesian elements first
+            pending = np.logical_and(do_inds, np.logical_and(
+                self.__cart_calculated, np.logical_not(self.__kep_calculated)))
+            if np.any(pending):
+                self.calculate_kepler(pending)
         do_inds[inds] = np.logical_not(
             np.any(np.isnan(self._kep[:, inds]), axis=0))
 
@@ -547,6 +554,13 @@ class Orbit:
         '''
         do_inds = np.full((self.num,), False, dtype=np.bool_)
         do_inds[inds] = True
+        if self.auto_update or self.direct_update:
+            # based on the current Cartesian elements, hence convert pending
+            # writes to the Keplerian elements first
+            pending = np.logical_and(do_inds, np.logical_and(
+                self.__kep_calculated, np.logical_not(self.__cart_calculated)))
+            if np.any(pending):
+                self.calculate_cartesian(pending)
         do_inds[inds] = np.logical_not(
             np.any(np.isnan(self._cart[:, inds]), axis=0))
 
-- 
2.43.0


From 1e5cbb89ac0dcba6e7cf3718ab9ee42bb1e7c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 18/20] fix: undefined states and equinoctial elements gave
 defined angles

---
 pyorb/kepler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 1abc675..84df595 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -332,10 +332,10 @@ def equi_to_kep(equi, degrees=False):
     el = np.logical_not(eg)  # circular
 
     kep[K_om, eg] = om_bar[eg] - kep[K_OM, eg]  # omega
-    kep[K_om, el] = 0  # omega
+    kep[K_om, el] = 0*kep[K_e, el]  # omega, undefined if e is
 
     kep[K_nu, eg] = equi[E_lam, eg] - om_bar[eg]  # nu
-    kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]  # nu
+    kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el] + kep[K_om, el]  # nu
     # elements in [0, 2pi or 360]
     kep[K_om:, ...] = np.mod(kep[K_om:, ...] + _circ, _circ)
     return kep
@@ -544,6 +544,10 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)
     o[5, tmp_ind2_] = 2.0*np.pi - o[5, tmp_ind2_]
 
+    # undefined states have no elements
+    undefined = np.logical_or(np.any(np.isnan(cart), axis=0), np.isnan(mu))
+    o[:, undefined] = np.nan*o[:, undefined]
+
     # # OUTPUT FORMATTING ##
     if degrees:
         o[2:, :] = np.degrees(o[2:, :])
-- 
2.43.0


From 6bb1f648af334332ea9b8d4512c960a9baf6bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 19/20] fix: conversions of integer arrays were truncated to
 integers

---
 pyorb/kepler.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 84df595..b6b3aa6 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,11 +147,20 @@ considered not inclined
 """
 
 
+def _float_dtype(x):
+    '''Data type of results calculated from the array `x`: results from
+    integers are not integers.
+    '''
+    if np.issubdtype(x.dtype, np.inexact):
+        return x.dtype
+    return np.float64
+
+
 def _undefined_like(x):
     '''Output array of the same shape as `x` filled with NaN: what is not
     defined by the input, e.g. since the eccentricity is NaN, stays NaN.
     '''
-    return np.full(x.shape, np.nan, dtype=np.result_type(x.dtype, np.float16))
+    return np.full(x.shape, np.nan, dtype=_float_dtype(x))
 
 
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
@@ -271,7 +280,7 @@ def kep_to_equi(kep, degrees=False):
         OM = np.radians(OM)
         hi = np.radians(hi)
 
-    elems = np.empty(kep.shape, dtype=kep.dtype)
+    elems = np.empty(kep.shape, dtype=_float_dtype(kep))
 
     elems[E_a, ...] = kep[K_a, ...]
     elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h
@@ -311,7 +320,7 @@ def equi_to_kep(equi, degrees=False):
     '''
 
     _circ = 360.0 if degrees else _2pi
-    kep = np.empty(equi.shape, dtype=equi.dtype)
+    kep = np.empty(equi.shape, dtype=_float_dtype(equi))
 
     kep[K_a, ...] = equi[E_a, ...]  # a
     kep[K_e, ...] = np.sqrt(equi[E_h, ...] ** 2 + equi[E_k, ...] ** 2)  # e
@@ -390,7 +399,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     ez = np.array([0, 0, 1], dtype=cart.dtype)
 
-    o = np.empty(cart.shape, dtype=cart.dtype)
+    o = np.empty(cart.shape, dtype=_float_dtype(cart))
 
     r = cart[:3, :]
     v = cart[3:, :]
@@ -1231,7 +1240,7 @@ def kepler_guess(M, e):
         if M.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E0 = np.empty(M.shape, dtype=M.dtype)
+        E0 = np.empty(M.shape, dtype=_float_dtype(M))
 
         out_it = E0.size
         Mit = np.nditer(M, order='C')
@@ -1307,7 +1316,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         if _M.shape != e.shape:
             raise TypeError(f'Input dimensions does not agree \
                 M:{_M.shape} != e:{e.shape}')
-        E = np.empty(_M.shape, dtype=_M.dtype)
+        E = np.empty(_M.shape, dtype=_float_dtype(_M))
         if _M.size == 0:
             return E
 
@@ -1732,7 +1741,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
             along axis 0: input shape is {kep.shape}')
 
     # work on a copy, the array of the caller is left as it is
-    kep = kep.copy()
+    kep = kep.astype(_float_dtype(kep))
 
     if len(kep.shape) < 2:
         input_is_vector = True
-- 
2.43.0


From 8f5584e54131847611304191f4d84a79ffccd057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 20/20] fix: Stumpff functions refused plain floats

---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b6b3aa6..b448ba5 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1507,6 +1507,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c0 = _undefined_like(x)
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
@@ -1535,6 +1536,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c1 = _undefined_like(x)
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
@@ -1563,6 +1565,7 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c2 = _undefined_like(x)
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
@@ -1591,6 +1594,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x)
     c3 = _undefined_like(x)
     inds = x > 0
     xsq = np.sqrt(x[inds])
-- 
2.43.0

