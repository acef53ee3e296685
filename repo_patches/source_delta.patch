From 9357d69e1597db6cf781a4a8f051beb70cded0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 01/59] fix: false eigenvectors of the rider lean model caused
 by round off in A

---
 bicycleparameters/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..2d23231 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -126,6 +126,11 @@ class _Model(abc.ABC):
         """
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
+        # NOTE : Numerically evaluated models (MooreRiderLean2012) have round
+        # off, e.g. 1e-32, in entries that should be zero. The balancing in
+        # eig() scales these up and false eigenvectors result.
+        A = np.where(np.abs(A) < 1e-20*np.max(np.abs(A)), 0.0, A)
+
         if len(A.shape) == 3:  # array version
             evals = np.zeros(A.shape[:2], dtype='complex128')
             evecs = np.zeros(A.shape, dtype='complex128')
-- 
2.43.0


From 3e5d13760373389686b4f343b65f6a5332983ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 02/59] fix: sorting eigenmodes could duplicate one mode and
 lose another

---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..731c78b 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -246,11 +246,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # the already used indices are not available
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -319,11 +316,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # the already used indices are not available
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From 55af0240bfc4c4e4ecaa5c10b1b5642407c4bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/59] fix: simulating the rider lean model changed the
 caller's initial conditions

---
 bicycleparameters/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 2d23231..1a10d4f 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1463,6 +1463,7 @@ class MooreRiderLean2012Model(_Model):
             **parameter_overrides)
 
         # u6 has to be consistent with v
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1514,12 +1515,6 @@ class MooreRiderLean2012Model(_Model):
            m.plot_simulation(times, x0, v=20.0)
 
         """
-        par, array_keys, array_len = self._parse_parameter_overrides(
-            **parameter_overrides)
-
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From 18f3034bc30ef2306579b4ffe2e147c1ed8a9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 04/59] fix: rider lean simulation raised TypeError for array
 valued parameters

---
 bicycleparameters/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 1a10d4f..0e9c7fd 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1462,6 +1462,9 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
+        if array_keys:
+            raise ValueError('Can only simulate with fixed parameters.')
+
         # u6 has to be consistent with v
         initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
-- 
2.43.0


From f949a5ba58bb0ac672c4923c5ee1a58a5601c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 05/59] fix: swept feedback gains were truncated to integers if
 all started with one

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 0e9c7fd..6ac4318 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1134,7 +1134,7 @@ class Meijaard2007WithFeedbackModel(Meijaard2007Model):
             K = np.array([
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[:4]],
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[4:]]
-            ])
+            ], dtype=float)
             # K is now shape(n, 2, 4)
             K = np.tile(K, (arr_len, 1, 1))
             for k in arr_keys:
-- 
2.43.0


From d7124fd4a76a18ce996c45e2e198d2a6b84ef13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 06/59] fix: rider lean model listed eleven units for its
 twelve states

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 6ac4318..dae19d5 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1278,7 +1278,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From 10a0b0662ad71b2f36515ba21060d5a90392c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 07/59] fix: Moore2019 sets without the implied lateral
 positions could not be converted

---
 bicycleparameters/parameter_sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..25b915c 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1134,7 +1134,9 @@ class Moore2019ParameterSet(ParameterSet):
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            p = self._calc_derived_params()
+            p.update(self.parameters)
+            b = _convert_principal_to_benchmark(p)
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-- 
2.43.0


From 71e0ada0cdea13c5678fa4cd8f7c7c0e32528fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 08/59] fix: converting Moore2019 to the parameterization with
 feedback raised an error

---
 bicycleparameters/parameter_sets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 25b915c..4d25a4b 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1140,9 +1140,7 @@ class Moore2019ParameterSet(ParameterSet):
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
-            # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = self.to_parameterization('Meijaard2007')
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From 6f86d4260b24b49f7c0c7c8e069a551449f9928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 09/59] fix: wrong symbols in the tables of the Moore parameter
 sets

---
 bicycleparameters/parameter_sets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 4d25a4b..b6f958a 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1024,7 +1024,7 @@ class Moore2019ParameterSet(ParameterSet):
         'kRbb': r'k_{Rbb}',
         'yD': r'y_D',
         'yF': r'y_F',
-        'yH': r'y-H',
+        'yH': r'y_H',
         'yP': r'y_P',
         'yR': r'y_R',
         'zR': r'z_R',
@@ -1057,7 +1057,7 @@ class Moore2019ParameterSet(ParameterSet):
         'mD': r'm_D',
         'mF': r'm_F',
         'mH': r'm_H',
-        'mP': r'm_B',
+        'mP': r'm_P',
         'mR': r'm_R',
         'rF': r'r_F',
         'rR': r'r_R',
@@ -1068,7 +1068,7 @@ class Moore2019ParameterSet(ParameterSet):
         'xH': r'x_H',
         'xP': r'x_P',
         'zD': r'z_D',
-        'zH': r'z-H',
+        'zH': r'z_H',
         'zP': r'z_P',
     }
 
@@ -1681,7 +1681,7 @@ class Moore2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
@@ -1785,7 +1785,7 @@ class MooreRiderLean2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
-- 
2.43.0


From b57bf03c39c7ab0d38e83460b3ef50af69b2d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 10/59] fix: the rider flag was lost when writing a parameter
 set to YAML

---
 bicycleparameters/parameter_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index b6f958a..c8ffdd5 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,7 +185,7 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
+            'rider': getattr(self, 'includes_rider', None),
             'values': self.parameters,
         }
         with open(fname, 'w') as f:
-- 
2.43.0


From 9b04a662fe11cf193379ada34b92df92f730a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 11/59] fix: the YAML files of converted parameter sets could
 not be read back

---
 bicycleparameters/parameter_sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index c8ffdd5..6a179d4 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -186,7 +186,9 @@ class ParameterSet(ABC):
             'parameterization': self.parameterization,
             'parameters': '',
             'rider': getattr(self, 'includes_rider', None),
-            'values': self.parameters,
+            # NOTE : converted sets hold NumPy floats, which can't be read back.
+            'values': {k: float(v) if isinstance(v, float) else v
+                       for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
-- 
2.43.0


From ea07fd5096f0feb2726898a9773088204ad0e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 12/59] fix: principal axes were not orthogonal for repeated
 principal moments

---
 bicycleparameters/inertia.py |  9 +++++----
 bicycleparameters/main.py    | 10 ++--------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..ebf29fb 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -210,10 +210,11 @@ def principal_axes(I):
         The rotation matrix.
 
     '''
-    Ip, C = np.linalg.eig(I)
-    indices = np.argsort(Ip)
-    Ip = Ip[indices]
-    C = C.T[indices]
+    Ip, C = np.linalg.eigh(I)
+    C = C.T
+    # make the axes right handed
+    if np.linalg.det(C) < 0.0:
+        C = -C
     return Ip, C
 
 
diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..bf69673 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -555,10 +555,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -785,10 +782,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                     # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                     # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
-- 
2.43.0


From c8378c633b07aac6340e75a0dd7f5d4323edeba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 13/59] fix: handlebar reference location divided by zero for a
 vertical steer axis

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..660ec58 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -178,7 +178,7 @@ def fwheel_to_handlebar_ref(lam, l1, l2):
     '''
 
     u1 = l2 * umath.sin(lam) - l1 * umath.cos(lam)
-    u2 = u1 / umath.tan(lam) + l1 / umath.sin(lam)
+    u2 = l2 * umath.cos(lam) + l1 * umath.sin(lam)
     return u1, u2
 
 
-- 
2.43.0


From c7901caaed13aec4e656893f02bf37449b6a3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 14/59] fix: angle between column vectors raised an error,
 parallel vectors gave nan

---
 bicycleparameters/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 660ec58..e9fdb31 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -315,8 +315,10 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2)) / (np.linalg.norm(v1) *
-                                                np.linalg.norm(v2)))
+    cos_angle = np.dot(np.ravel(v1), np.ravel(v2)) / (np.linalg.norm(v1) *
+                                                      np.linalg.norm(v2))
+    # round off can give a value slightly outside of [-1, 1]
+    return float(np.arccos(np.clip(cos_angle, -1.0, 1.0)))
 
 
 def vec_project(vec, direction):
-- 
2.43.0


From 02dec3201fc60c9ba94ffcfe8f74d225566c6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 15/59] fix: projecting a vector into a plane subtracted a
 scalar from every component

---
 bicycleparameters/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index e9fdb31..1831d36 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -342,10 +342,10 @@ def vec_project(vec, direction):
 
     '''
     vec = vec.flatten()
-    if type(direction) == int:
+    if np.ndim(direction) == 0:
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
-        unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    else:
+        unitdir = np.ravel(direction) / np.linalg.norm(direction)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From cb9a3bac3b2e2b1fd28791741d5e14b7015a9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 16/59] fix: cartesian product was truncated to the type of the
 first array

---
 bicycleparameters/com.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..f5f2ac6 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -43,7 +43,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From 3eda5d63905d6d67af5458c3bc8e0fafa97cbc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 17/59] fix: steer axis tilt from offsets failed for floats and
 had wrong uncertainty

---
 bicycleparameters/bicycle.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 731c78b..404363c 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -1,8 +1,7 @@
 #!/usr/bin/env python
 
 import numpy as np
-from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import umath
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -191,22 +190,10 @@ def lambda_from_abc(rF, rR, a, b, c):
         intersection of the front and rear wheel offset lines.
 
     '''
-    def lam_equality(lam, rF, rR, a, b, c):
-        return umath.sin(lam) - (rF - rR + c * umath.cos(lam)) / (a + b)
-    guess = umath.atan(c / (a + b))  # guess based on equal wheel radii
-
-    # The following assumes that the uncertainty calculated for the guess is
-    # the same as the uncertainty for the true solution. This is not true! and
-    # will surely breakdown the further the guess is away from the true
-    # solution. There may be a way to calculate the correct uncertainity, but
-    # that needs to be figured out. I guess I could use least squares and do it
-    # the same way as get_period.
-
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
-
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    # The height of the front wheel center gives:
+    # (a + b) * sin(lam) - c * cos(lam) = rF - rR
+    return (umath.atan(c / (a + b)) +
+            umath.asin((rF - rR) / umath.sqrt((a + b)**2 + c**2)))
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 688c0df48a1eb3f912437d5a30809faedfd27e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 18/59] fix: two link angles were wrong if the second link
 folds back over the first

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 1831d36..e8817af 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,7 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = np.pi - np.arccos((L1**2 + L2**2 - D**2) / (2.0 * L1 * L2))
 
     return theta1, theta2
 
-- 
2.43.0


From 7ee8dfeca9647d2e5897572b820ec37625569d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 19/59] fix: computing the canonical matrices added parameters
 to the caller's set

---
 bicycleparameters/bicycle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 404363c..e2661e4 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -111,9 +111,9 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -124,7 +124,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From c1be64ea95f81dee50900a211dd84e1cd6a7a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 20/59] fix: a missing period was not noticed if others made up
 the number

---
 bicycleparameters/period.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..0d1c594 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -151,27 +151,16 @@ def check_for_period(mp, forkIsSplit):
         fork and handlebar was measured together.
 
     '''
-    forcePeriodCalc = False
-    # Check to see if mp contains at enough periods to not need
-    # recalculation
-    ncTSum = 0
-    ntTSum = 0
-    for key in mp.keys():
-        # check for any periods in the keys
-        if key[:2] == 'Tc':
-            ncTSum += 1
-        elif key[:2] == 'Tt':
-            ntTSum += 1
+    # every part is hung as a compound pendulum, the wheels and the rod are hung
+    # as a torsional pendulum once
+    parts = 'FRBSG' if forkIsSplit else 'FRBH'
+    needed = ['Tc' + part + '1' for part in parts]
+    needed += ['TtF1', 'TtR1', 'TtP1']
+    # and there is a torsional period for each orientation of the other parts
+    needed += ['Tt' + key[5:] for key in mp.keys() if key.startswith('alpha')]
 
     # if there isn't enough data then force the period cals again
-    if forkIsSplit:
-        if ncTSum < 5 or ntTSum < 11:
-            forcePeriodCalc = True
-    else:
-        if ncTSum < 4 or ntTSum < 8:
-            forcePeriodCalc = True
-
-    return forcePeriodCalc
+    return not all(key in mp for key in needed)
 
 
 def fit_goodness(ym, yp):
-- 
2.43.0


From 15d16d75958f3cf35f2764c95f4bac20ab1bcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 21/59] fix: uncertainty of the period was nan for nearly
 perfect fits

---
 bicycleparameters/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 0d1c594..dc30a1d 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -188,7 +188,7 @@ def fit_goodness(ym, yp):
     '''
     SSR = np.sum((yp - np.mean(ym))**2)
     SST = np.sum((ym - np.mean(ym))**2)
-    SSE = SST - SSR
+    SSE = np.sum((ym - yp)**2)
     rsq = SSR / SST
     return rsq, SSE, SST, SSR
 
-- 
2.43.0


From eba7e823ce2ac8f08b7e6099c41449803bc04dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 22/59] fix: period estimation only accepted builtin integers
 as sample rate

---
 bicycleparameters/period.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index dc30a1d..d40eb12 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -214,12 +214,12 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
 
     '''
 
-    y = data
-    if isinstance(sample_rate_or_time, int):
+    y = data = np.asarray(data)
+    if np.ndim(sample_rate_or_time) == 0:
         sample_rate = sample_rate_or_time
         x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
     else:
-        x = sample_rate_or_time
+        x = np.asarray(sample_rate_or_time)
         sample_rate = int(1.0/np.mean(np.diff(x)))  # approximate
 
     def fitfunc(p, t):
-- 
2.43.0


From bf874eb1fabd46fe694e3ce11dbd2b607e9f857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 23/59] fix: missing periods of the flywheel were not noticed

---
 bicycleparameters/period.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index d40eb12..6eb9005 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -156,6 +156,9 @@ def check_for_period(mp, forkIsSplit):
     parts = 'FRBSG' if forkIsSplit else 'FRBH'
     needed = ['Tc' + part + '1' for part in parts]
     needed += ['TtF1', 'TtR1', 'TtP1']
+    # the flywheel, if there is one, is measured inside of the front wheel
+    if 'mD' in mp:
+        needed += ['TcD1', 'TtD1']
     # and there is a torsional period for each orientation of the other parts
     needed += ['Tt' + key[5:] for key in mp.keys() if key.startswith('alpha')]
 
-- 
2.43.0


From d146545d1b51a60b5802a79e297ee4dda479d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 24/59] fix: empty and indented comment lines in parameter
 files raised an error

---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..87594e3 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove comments and any whitespace characters around the rest
+            line = line.split('#')[0].strip()
+            # ignore lines that hold nothing else
+            if line:
+                # split the right and left side of the equality
+                equality = line.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From 39143f1d4f9f20399c851855bbb44d9495b090a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 25/59] fix: parameters could not be written to a file in the
 working directory

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 87594e3..7793744 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -136,7 +136,7 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-- 
2.43.0


From fe8ec968c615266e1e700e177849621807b488cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 26/59] fix: writing periods lost other periods and joined
 unterminated lines

---
 bicycleparameters/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 7793744..b28aff8 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -200,13 +200,16 @@ def write_periods_to_file(pathToRawFile, mp):
 
     '''
 
-    # clear any period data from the file
+    # clear the period data that will be replaced from the file
     f = open(pathToRawFile, 'r')
     baseData = ''
     for line in f:
-        if not line.startswith('T'):
+        if not (line.startswith('T') and line.split('=')[0].strip() in mp):
             baseData += line
     f.close()
+    # the last line may not be terminated
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From 99d8e3310f3fc0bf9c782f824bda26d2c6309b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 27/59] fix: file names ran together if several parameter sets
 were saved

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index bf69673..962f3a0 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -203,11 +203,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From f519a97938292fc64b34e624af0b277a93ccc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 28/59] fix: rider parameters without the optional lateral
 position raised an error

---
 bicycleparameters/inertia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index ebf29fb..c553426 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -29,11 +29,13 @@ def combine_bike_rider(bicyclePar, riderPar):
 
     """
 
+    # the lateral position of a symmetric rider may be left out
+    yRider = riderPar.get('yB', 0.)
     # list the masses of the rider and bicycle
     masses = np.array([riderPar['mB'], bicyclePar['mB']])
     # list the centers of mass of the rider and bicycle
     coordinates = np.array([[riderPar['xB'], bicyclePar['xB']],
-                            [riderPar['yB'], 0.],
+                            [yRider, 0.],
                             [riderPar['zB'], bicyclePar['zB']]])
     # calculate the new mass and center of mass
     mT, cT = total_com(coordinates, masses)
@@ -43,7 +45,7 @@ def combine_bike_rider(bicyclePar, riderPar):
     # calculate the distance from the center of mass of each body to the
     # center of mass of the combined body
     dRider = np.array([riderPar['xB'] - cT[0],
-                       riderPar['yB'] - cT[1],
+                       yRider - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
                          0.,
-- 
2.43.0


From 8bd8bb66f0f3a4f0fbd20fa1864439afe2d7cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 29/59] fix: inertia tensors of partly uncertain parameter sets
 raised an error

---
 bicycleparameters/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index c553426..37200f0 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -174,7 +174,8 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
+    if any(isinstance(val, UFloat) for key, val in par.items()
+           if key.startswith('I' + part)):
         dtype = object
     else:
         dtype = 'float64'
-- 
2.43.0


From 6c3410591c691cfdfbd2ec499245279c7cda7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 30/59] fix: inertia tensors needed moments that are documented
 as optional

---
 bicycleparameters/inertia.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 37200f0..4bc6344 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -193,7 +193,12 @@ def part_inertia_tensor(par, part):
     for i, row in enumerate(axes):
         for j, col in enumerate(row):
             if col is not None:
-                I[i, j] = par['I' + part + col]
+                key = 'I' + part + col
+                if key in ('IByy', 'IHyy'):
+                    # optional, zero if it is not given
+                    I[i, j] = par.get(key, 0.)
+                else:
+                    I[i, j] = par[key]
     return I
 
 
-- 
2.43.0


From 57340752af001d8616a96313a64b87f6874ce59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 31/59] fix: eigenvalues of a bicycle at a single integer speed
 raised an error

---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 962f3a0..4a300bc 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1172,10 +1172,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From 6b7efd4524bdebed4c7dfabe78ef9ea3a1c1ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 32/59] fix: second table made from the same data had an extra
 row and nested math

---
 bicycleparameters/tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..c881b5f 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,13 @@ class Table():
 
         """
 
-        table = self.tableData
+        # leave the data as it is so that further tables can be created
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From f9ef1904860d4269eab01d676459f8f69e4af689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 33/59] fix: tables failed for zero uncertainties and lost
 those of zero values

---
 bicycleparameters/tables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index c881b5f..8b12d8a 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -233,8 +233,10 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert < 1e-14:
+            # there is nothing to round to
+            s = '0.0' if abs(nom) < 1e-15 else str(nom)
+            s += '+/-0.0'
         else:
             # convert the uncertainty to a string
             s = '%.14f' % uncert
-- 
2.43.0


From cdcab03721ad941511784218ca8800ca053a3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 34/59] fix: uncertainties of one and above were missing from
 tables

---
 bicycleparameters/tables.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 8b12d8a..9523f33 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -247,13 +247,11 @@ def uround(value):
                 else:
                     digit = j
                     break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # uncertainties of one and above have no leading zeros
+            decimals = max(digit - 1, 0)
+            newUncert = round(uncert, decimals)
+            newUncertStr = ('%.' + str(decimals) + 'f') % newUncert
+            newNom = round(nom, decimals)
+            newNomStr = ('%.' + str(decimals) + 'f') % newNom
+            s = newNomStr + '+/-' + newUncertStr
     return s
-- 
2.43.0


From da286cadfc7420b48834ae7970058110af37e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 35/59] fix: ten or more orientations of a part were paired
 with the wrong periods

---
 bicycleparameters/com.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index f5f2ac6..5cd034c 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -197,7 +197,8 @@ def part_com_lines(mp, par, forkIsSplit):
 
     # get the alpha keys and put them in order
     listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
+    # the orientations have to be in numerical order, i.e. 10 comes after 9
+    listOfAlphaKeys.sort(key=lambda x: (x[5], int(x[6:])))
 
     # caluclate m, b and beta for each orientation
     for key in listOfAlphaKeys:
-- 
2.43.0


From e7364b148135115759eb683a7aaef2304d06136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 36/59] fix: stable regions were shaded over a range that
 depends on the eigenvalues

---
 bicycleparameters/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index dae19d5..fb08844 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -204,9 +204,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         if show_stable_regions:
-            ax.fill_between(par[array_keys[0]],
-                            np.min([np.min(evals.real), np.min(evals.imag)]),
-                            np.max([np.max(evals.real), np.max(evals.imag)]),
+            # NOTE : The vertical limits are in axes coordinates.
+            ax.fill_between(par[array_keys[0]], 0.0, 1.0,
                             # NOTE : include zero here for A matrices that
                             # produce zero eigenvalues.
                             where=np.all(evals.real <= 0.0, axis=1),
-- 
2.43.0


From c308fdf1dafc9806087fb408f1d78f453c00509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 37/59] fix: default tolerance for hiding eigenvalue parts was
 not the documented one

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fb08844..47150f3 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -198,7 +198,7 @@ class _Model(abc.ABC):
             evals, evecs = np.array([evals]), np.array([evecs])
             # TODO : legend if not versus param
 
-        tol = hide_zeros if isinstance(hide_zeros, float) else 1e-14
+        tol = hide_zeros if isinstance(hide_zeros, float) else 1e-12
 
         par, array_keys, _ = self._parse_parameter_overrides(
             **parameter_overrides)
-- 
2.43.0


From 32ac0d7a762e2f3314253e327f1186c9fe1b5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 38/59] fix: eigenvector components of different values were
 mixed up in plots

---
 bicycleparameters/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 47150f3..55007c0 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -298,7 +298,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        if evec_seq.ndim == 2:
+            eval_seq, evec_seq = eval_seq[np.newaxis], evec_seq[np.newaxis]
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -337,7 +338,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -346,7 +347,8 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            # the eigenvectors are the columns
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From 3f20a6840a87a997d7e65118f9b1660a5b70a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 39/59] fix: mode simulations are plotted in degrees but were
 labelled radians

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 55007c0..f4eccb7 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -547,7 +547,8 @@ class _Model(abc.ABC):
                 else:
                     fontcolor = 'black'
                 for j, unit in enumerate(unique_units):
-                    axes[i, j].set_ylabel('[{}]'.format(unit))
+                    axes[i, j].set_ylabel(
+                        '[{}]'.format(unit.replace('rad', 'deg')))
                     axes[i, j].set_title(msg.format(e_val),
                                          fontdict={'color': fontcolor})
                     axes[i, j].legend()
-- 
2.43.0


From 3389c618daa6ad603a8a05600785e48540ef9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 40/59] fix: plotting the simulation of a single unhidden mode
 raised an error

---
 bicycleparameters/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index f4eccb7..72d1c35 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -526,6 +526,7 @@ class _Model(abc.ABC):
 
         fig, axes = plt.subplots(np.count_nonzero(plot),
                                  len(unique_units), sharex=True,
+                                 squeeze=False,
                                  figsize=(len(unique_units)*3.0,
                                           np.count_nonzero(plot)*2.0),
                                  layout='constrained')
@@ -554,8 +555,8 @@ class _Model(abc.ABC):
                     axes[i, j].legend()
                 i += 1
 
-        axes[-1, 0].set_xlabel('Time [s]')
-        axes[-1, 1].set_xlabel('Time [s]')
+        for ax in axes[-1]:
+            ax.set_xlabel('Time [s]')
 
         return axes
 
-- 
2.43.0


From 475ca9733db3873fd78ec3074d97036bd7b0f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 41/59] fix: gains could not be plotted to nested sequences of
 axes

---
 bicycleparameters/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 72d1c35..5525f11 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1211,6 +1211,7 @@ class Meijaard2007WithFeedbackModel(Meijaard2007Model):
 
         if axes is None:
             fig, axes = plt.subplots(2, 4, sharex=True, layout='constrained')
+        axes = np.asarray(axes)
 
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
-- 
2.43.0


From d55f001bc4126a75b40f1cd07d553e5809000d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 42/59] fix: inertia ellipsoids were drawn at half their size

---
 bicycleparameters/parameter_sets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 6a179d4..aa0ad52 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -783,8 +783,8 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1468,8 +1468,8 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 1a786f9c7510a039f6bd99e51af602cdbbb5b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 43/59] fix: inertia ellipses of bicycles could be drawn
 mirrored

---
 bicycleparameters/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 4a300bc..60d24f4 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -571,7 +571,8 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                # the plot's vertical axis is -z
+                angle = np.degrees(np.arctan2(-C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
-- 
2.43.0


From 4fe03db76c3de58169c4fc370990dafa8c5631e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 44/59] fix: pendulum axes were not drawn for measurements
 without uncertainties

---
 bicycleparameters/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index b28aff8..b4cfaca 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -110,9 +110,11 @@ def remove_uncertainties(dictionary):
         except AttributeError:
             # this is the case if the value is an array of ufloats
             try:
-                noUncert[k] = [x.nominal_value for x in v]
+                if isinstance(v, str):
+                    raise TypeError
+                noUncert[k] = [getattr(x, 'nominal_value', x) for x in v]
             except TypeError:
-                # this is the case if the value is a float
+                # this is the case if the value is a float or a string
                 noUncert[k] = v
     return noUncert
 
-- 
2.43.0


From cfa59b15bb336d645575abc3f26f9f1cba981d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 45/59] fix: comparing Bode plots raised errors with the
 current toolkit

---
 bicycleparameters/main.py | 4 ++--
 bicycleparameters/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 60d24f4..6cf2e69 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1507,13 +1507,13 @@ class Bicycle(object):
         """
 
         if fig is None:
-            fig = plt.figure()
+            fig, _ = plt.subplots(2, 1, sharex=True)
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..30e5c87 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -33,13 +33,13 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
     """
 
     if fig is None:
-        fig = plt.figure()
+        fig, _ = plt.subplots(2, 1, sharex=True)
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From 4625572dd74e3b627dae8a2d49c21116eaef3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 46/59] fix: the web app showed each plot in the place of the
 other

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..c2ce12e 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -396,7 +396,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     eigen_plot = Bike._plot_eigenvalues_vs_speed_plotly(
         speeds, show=False, stability_region=stability_option)
 
-    return eigen_plot, geo_plot
+    return geo_plot, eigen_plot
 
 
 # sets loading notification for the geometry plot
-- 
2.43.0


From 02b5a9f27624b21d46e04a63bea0c03192133eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 47/59] fix: the web app truncated the steer axis tilt to whole
 degrees

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index c2ce12e..af07daf 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From a1c005c596202e7cd00162acb05e1996323eea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 48/59] fix: the web app failed for equal bounds of the speed
 range

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index af07daf..92c7eba 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -355,7 +355,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    speeds = np.linspace(minBound, maxBound, num=int(round(steps)) + 1)
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From bff98888f1ef8bd22469488b57f3e863862e2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 49/59] fix: inertia ellipses were drawn with swapped axes and
 wrong angle with plotly

---
 bicycleparameters/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 6cf2e69..98d5a21 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -799,14 +799,15 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                # the plot's vertical axis is -z
+                angle = np.arctan2(-C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width, b=height, N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From ebca755f1c37fa25df44dc878803f4d0a98948ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 50/59] fix: largest eigenvalues and given figures raised
 errors with plotly

---
 bicycleparameters/main.py | 90 +++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 98d5a21..a9fd8d3 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1338,11 +1338,11 @@ class Bicycle(object):
         speeds = np.sort(speeds)
         if fig is None:
             fig = go.Figure(layout_yaxis_range=[-10, 10])
-            evals, evecs = self.eig(speeds)
+        evals, evecs = self.eig(speeds)
 
         if largest:
-            fig.add_trace(go.Scatter(x=speeds, y=np.max(evals)))
-            fig.show()
+            fig.add_trace(go.Scatter(x=speeds,
+                                     y=np.max(np.real(evals), axis=1)))
         else:
             w, cap, cas = bicycle.sort_modes(evals, evecs)
             colors_eig = px.colors.qualitative.Pastel
@@ -1350,48 +1350,48 @@ class Bicycle(object):
             weaveColor2 = colors_eig[1]
             capsizeColor = colors_eig[2]
             casterColor = colors_eig[5]
-        wea1 = w['evals'][:, 0]
-        wea2 = w['evals'][:, 1]
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
-                                 mode='lines',
-                                 name='Re Weave',
-                                 line=dict(color=weaveColor1),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(wea2),
-                                 mode='lines',
-                                 name='Re Weave',
-                                 line=dict(color=weaveColor2),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(cap['evals']),
-                                 mode='lines',
-                                 name='Re Capsize',
-                                 line=dict(color=capsizeColor),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(cas['evals']),
-                                 mode='lines',
-                                 name='Re Castering',
-                                 line=dict(color=casterColor),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea1)),
-                                 mode='lines',
-                                 name='Im Weave',
-                                 line=dict(color=weaveColor1, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea2)),
-                                 mode='lines',
-                                 name='Im Weave',
-                                 line=dict(color=weaveColor2, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cap['evals'])),
-                                 mode='lines',
-                                 name='Im Capsize',
-                                 line=dict(color=capsizeColor, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cas['evals'])),
-                                 mode='lines',
-                                 name='Im Castering',
-                                 line=dict(color=casterColor, dash='dash'),
-                                 text='Im'))
+            wea1 = w['evals'][:, 0]
+            wea2 = w['evals'][:, 1]
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
+                                     mode='lines',
+                                     name='Re Weave',
+                                     line=dict(color=weaveColor1),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(wea2),
+                                     mode='lines',
+                                     name='Re Weave',
+                                     line=dict(color=weaveColor2),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(cap['evals']),
+                                     mode='lines',
+                                     name='Re Capsize',
+                                     line=dict(color=capsizeColor),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(cas['evals']),
+                                     mode='lines',
+                                     name='Re Castering',
+                                     line=dict(color=casterColor),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea1)),
+                                     mode='lines',
+                                     name='Im Weave',
+                                     line=dict(color=weaveColor1, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea2)),
+                                     mode='lines',
+                                     name='Im Weave',
+                                     line=dict(color=weaveColor2, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cap['evals'])),
+                                     mode='lines',
+                                     name='Im Capsize',
+                                     line=dict(color=capsizeColor, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cas['evals'])),
+                                     mode='lines',
+                                     name='Im Castering',
+                                     line=dict(color=casterColor, dash='dash'),
+                                     text='Im'))
         if stability_region:
             try:
                 v_start_stab = max([min(speeds[np.real(wea2) < 0]),
-- 
2.43.0


From 90daa602a55f0de321dbea14d60af6b544c11de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 51/59] fix: regions of self stability were wrong or raised
 errors with plotly

---
 bicycleparameters/main.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index a9fd8d3..eae7a3f 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1393,29 +1393,18 @@ class Bicycle(object):
                                      line=dict(color=casterColor, dash='dash'),
                                      text='Im'))
         if stability_region:
-            try:
-                v_start_stab = max([min(speeds[np.real(wea2) < 0]),
-                                    min(speeds[np.real(cas['evals']) < 0]),
-                                    min(speeds[np.real(cap['evals']) < 0]),
-                                    min(speeds[np.real(wea1) < 0],
-                                        default="EMPTY")])
-                v_end_stab = min([max(speeds[np.real(wea2) < 0]),
-                                  max(speeds[np.real(cas['evals']) < 0]),
-                                  max(speeds[np.real(cap['evals']) < 0]),
-                                  max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            if (v_start_stab > v_end_stab):
+            # first and last index of each stretch of stable speeds
+            stable = np.all(np.real(evals) < 0.0, axis=1)
+            change = np.diff(np.hstack([0, stable.astype(int), 0]))
+            starts = np.nonzero(change == 1)[0]
+            ends = np.nonzero(change == -1)[0] - 1
+            regions = [(speeds[i], speeds[j]) for i, j in zip(starts, ends)
+                       if speeds[j] - speeds[i] >= 0.0001]
+            if not regions:
                 fig.add_annotation(x=0.5*max(speeds), y=9,
                                    text="No stability region",
                                    showarrow=False)
-            elif (v_end_stab - v_start_stab < 0.0001):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            else:
+            for v_start_stab, v_end_stab in regions:
                 fig.add_vrect(x0=v_start_stab, x1=v_end_stab,
                               annotation_text="Self stability",
                               annotation_position='top left',
-- 
2.43.0


From 28689392446bd3ebf48552d8703efc563dca3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 52/59] fix: fits of pendulum recordings were not drawn in the
 given figure

---
 bicycleparameters/period.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 6eb9005..8c6bcdb 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -472,19 +472,19 @@ def plot_osfit(t, ym, yf, p, rsq, T, m=None, fig=None):
     else:
         fig, ax1 = plt.subplots(layout='constrained')
     ax1.plot(t, ym, '.', markersize=4)
-    plt.plot(t, yf, 'k-')
-    plt.xlabel('Time [s]')
-    plt.ylabel('Amplitude [V]')
+    ax1.plot(t, yf, 'k-')
+    ax1.set_xlabel('Time [s]')
+    ax1.set_ylabel('Amplitude [V]')
     equation = (r'$f(t)={0:1.2f}+e^{{-({3:1.3f})({4:1.1f})t}}\left[{1:1.2f}'
                 r'\sin{{\sqrt{{1-{3:1.3f}^2}}{4:1.1f}t}}+{2:1.2f}'
                 r'\cos{{\sqrt{{1-{3:1.3f}^2}}{4:1.1f}t}}\right]$')
     equation = equation.format(p[0], p[1], p[2], p[3], p[4])
     rsquare = r'$r^2={0:1.3f}$'.format(rsq)
     period = r'$T={0} s$'.format(T)
-    plt.title(equation + '\n' + rsquare + ', ' + period)
-    plt.legend(['Measured', 'Fit'])
+    ax1.set_title(equation + '\n' + rsquare + ', ' + period)
+    ax1.legend(['Measured', 'Fit'])
     if m is not None:
-        plt.xlim((0, m))
+        ax1.set_xlim((0, m))
     else:
         pass
     return fig
-- 
2.43.0


From 36192f4b7d3e38d9edd3fd14dd4d7077482e2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:12 +0000
Subject: [PATCH 53/59] fix: inertia of a frame with a rider off the symmetry
 plane

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 4bc6344..3ee4402 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -48,7 +48,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        yRider - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         -cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From ccb0a72aee9fb6edd4ba333a653c0e1a3afcb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:10 +0000
Subject: [PATCH 54/59] fix: symbols of the tenth and further orientations

---
 bicycleparameters/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 9523f33..51579e9 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -188,11 +188,11 @@ def to_latex(var):
         latex = latexMap[var]
     except KeyError:
         if var.startswith('alpha'):
-            latex = r'\alpha_{' + var[-2:] + '}'
-        elif var.startswith('a') and len(var) == 3:
-            latex = 'a_{' + var[-2:] + '}'
+            latex = r'\alpha_{' + var[5:] + '}'
+        elif var.startswith('a') and len(var) > 2:
+            latex = 'a_{' + var[1:] + '}'
         elif var.startswith('T'):
-            latex = 'T^' + var[1] + '_{' + var[-2:] + '}'
+            latex = 'T^' + var[1] + '_{' + var[2:] + '}'
         elif len(var) == 2:
             latex = var[0] + '_' + var[1]
         elif var.startswith('I'):
-- 
2.43.0


From fb17fdc71c5b23d6adaa3165c7c2f91c5171cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 55/59] fix: steer axis was not drawn if the frame and the fork
 meet it in one point

---
 bicycleparameters/main.py           | 4 ++--
 bicycleparameters/parameter_sets.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index eae7a3f..4f8623e 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -596,7 +596,7 @@ class Bicycle(object):
         ax.plot(deex, -deez, 'k')
 
         # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        dx3 = par['w'] + par['c']
         ax.plot([deex[2], dx3],  [-deez[2], 0.], 'k--')
 
         # don't plot the pendulum lines if a rider has been added because the
@@ -858,7 +858,7 @@ class Bicycle(object):
                                   hovertemplate="%{x:.3f}<br>%{y:.3f}"))
 
         # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        dx3 = par['w'] + par['c']
 
         fig1.add_trace(go.Scatter(x=[deex[2], dx3], y=[-deez[2], 0.],
                                   mode='lines',
diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index aa0ad52..9b07605 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -63,7 +63,7 @@ def _plot_geometry_from_benchmark(ax, parameters, show_steer_axis=True):
 
     if show_steer_axis:
         # plot the steer axis
-        dx3 = deex[2] - deez[2] * (deex[2] - deex[1]) / (-deez[1] + deez[2])
+        dx3 = p['w'] + p['c']
         ax.plot([deex[2], dx3], [deez[2], 0.], 'k--')
 
     return ax
-- 
2.43.0


From 0549b757daf93a73b642da1f07622e710de668b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 56/59] fix: modal controllability of a single set of
 parameters

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 5525f11..d8ad4f8 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -903,7 +903,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if len(evals.shape) > 1:  # array version
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
-- 
2.43.0


From 394220e5144c54071b8b7e92d315d2d818e3c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:58 +0000
Subject: [PATCH 57/59] fix: eigenvectors were wrong if round off is left in
 the state matrix

---
 bicycleparameters/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index d8ad4f8..48e79d1 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -127,9 +127,10 @@ class _Model(abc.ABC):
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
         # NOTE : Numerically evaluated models (MooreRiderLean2012) have round
-        # off, e.g. 1e-32, in entries that should be zero. The balancing in
-        # eig() scales these up and false eigenvectors result.
-        A = np.where(np.abs(A) < 1e-20*np.max(np.abs(A)), 0.0, A)
+        # off, e.g. 1e-32 or 1e-17, in entries that should be zero. The
+        # balancing in eig() scales these up and false eigenvectors result.
+        largest = np.max(np.abs(A), axis=(-2, -1), keepdims=True)
+        A = np.where(np.abs(A) < np.finfo(float).eps*largest, 0.0, A)
 
         if len(A.shape) == 3:  # array version
             evals = np.zeros(A.shape[:2], dtype='complex128')
-- 
2.43.0


From c872f6c74204476fd570ad7fc18e24a9a9630f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:53 +0000
Subject: [PATCH 58/59] fix: simulation stepped over short pulses of the input

---
 bicycleparameters/models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 48e79d1..43528d1 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -410,6 +410,8 @@ class _Model(abc.ABC):
 
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
+        max_step = np.inf
+
         if input_func is None:
             def eval_rhs(t, x):
                 return A@x
@@ -417,11 +419,17 @@ class _Model(abc.ABC):
             def eval_rhs(t, x):
                 return A@x + B@input_func(t, x)
 
+            # NOTE : The integrator would step over a short pulse of the input
+            # if the steps were longer than the intervals between the times.
+            if len(times) > 1:
+                max_step = np.max(np.abs(np.diff(times)))
+
         res = spi.solve_ivp(eval_rhs,
                             (times[0], times[-1]),
                             initial_conditions,
                             t_eval=times,
-                            method="LSODA")
+                            method="LSODA",
+                            max_step=max_step)
 
         if input_func is None:
             inputs = np.zeros((len(times), B.shape[1]))
-- 
2.43.0


From 7740e0e8af1eeab153e139ccfe262e9774bec71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:49 +0000
Subject: [PATCH 59/59] fix: backup files in a Parameters folder were loaded as
 parameters

---
 bicycleparameters/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 4f8623e..35393c0 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -85,7 +85,8 @@ class Bicycle(object):
         # if there are some parameter files, then load them
         if 'Parameters' in os.listdir(self.directory):
             parDir = os.path.join(self.directory, 'Parameters')
-            parFiles = os.listdir(parDir)
+            # ignore anything else, e.g. the backup files of editors
+            parFiles = [x for x in os.listdir(parDir) if x.endswith('.txt')]
             for parFile in parFiles:
                 # remove the extension
                 fname = os.path.splitext(parFile)[0]
-- 
2.43.0

