From cd0f914fe05201390f807a53b0d2b5b696fccb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 01/32] fix: invert symmetric indefinite structure matrices
 without NaN, reject singular ones

---
 pyphs/core/maths/_matrices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/maths/_matrices.py b/pyphs/core/maths/_matrices.py
index 1c4914a..3381fdc 100644
--- a/pyphs/core/maths/_matrices.py
+++ b/pyphs/core/maths/_matrices.py
@@ -7,7 +7,7 @@ Created on Mon May 15 20:19:21 2017
 """
 
 from ..tools import types, simplify
-from sympy import Matrix
+from sympy import Matrix, nan, oo, zoo
 
 
 def inverse(Mat, dosimplify=False):
@@ -18,6 +18,9 @@ def inverse(Mat, dosimplify=False):
         return Mat
     else:
         iMat = Mat.inv()
+        if iMat.has(nan, zoo, oo, -oo):
+            # the sparse (LDL) inversion does no pivoting
+            iMat = types.matrix_types[0](Matrix(Mat).inv())
         if dosimplify:
             iMat = simplify(iMat)
         return iMat
-- 
2.43.0


From 55cd487f460764bf30749ff340ec895a12d0c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:07 +0000
Subject: [PATCH 02/32] fix: dissipations coupled with a nonlinear law are not
 linear

---
 pyphs/core/structure/splits.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 1e9beaf..80b4fe4 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -107,6 +107,18 @@ def linear_nonlinear(core, criterion=None):
             move_diss(core, nwl, core.dims.w()-1)
             jacz = movefunc(jacz, nwl, core.dims.w()-1)
 
+    # a linear law coupled with nonlinear dissipations cannot be treated apart
+    k = 0
+    while movefunc is movesquarematrixcolnrow and k < nwl:
+        if any(elt != 0 for elt in list(jacz[k, nwl:]) + list(jacz[nwl:, k])):
+            # move the element to the top of nonlinear elements
+            move_diss(core, k, nwl-1)
+            jacz = movefunc(jacz, k, nwl-1)
+            nwl -= 1
+            k = 0
+        else:
+            k += 1
+
     # number of linear components
     setattr(core.dims, '_xl', nxl)
     # Hamiltonian of linear components
-- 
2.43.0


From 8c935008521ef398c5b68992c33b22cf4acd8227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:54 +0000
Subject: [PATCH 03/32] fix: reduce_z keeps the dissipations excluded by
 force_wnl

---
 pyphs/core/structure/R.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..10a3310 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -47,15 +47,20 @@ after this operation, and :code:`core.z()=core.znl()`.
     # move linear and excluded components at the top of linear components list
     if not nforced == 0:
         i = 0
-        for _ in range(core.dims.wl()):
-            if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
+        while i < core.dims.wl():
+            nwl = core.dims.wl()
+            # elements coupled with an excluded element are also excluded
+            coupled = any(elt != 0 for elt in (list(core.Zl[i, nwl:]) +
+                                               list(core.Zl[nwl:, i])))
+            if core.w[i] in core.force_wnl or coupled:
+                # the element becomes the first of the nonlinear elements
+                core.move_dissipative(i, nwl-1)
+                core.dims._wl -= 1
+                i = 0
             else:
                 i += 1
-        # reduce number of linear components
-        core.dims._wl -= nforced
         # reduce Zl
-        core.Zl = core.Zl[:-nforced, :-nforced]
+        core.Zl = core.Zl[:core.dims.wl(), :core.dims.wl()]
     # build inverse of Dl
     iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)
     # build Dl
-- 
2.43.0


From ed87b441a267859761253cbb42a3d70c5ebe3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:08 +0000
Subject: [PATCH 04/32] fix: Core.freesymbols returns the free symbols of the
 core

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..98f9f83 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -531,8 +531,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs = symbs.union(free_symbols(expr))
+        symbs = symbs.union(free_symbols(self.M))
         return symbs
 
     def dxH(self):
-- 
2.43.0


From b1c4182b8d394847d058a3ffa6b7c58c4e668d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:19 +0000
Subject: [PATCH 05/32] fix: evaluate the structure once at the point of the
 theta scheme when splitting

---
 pyphs/numerics/numerical_method/_method.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..52ac3e7 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -140,6 +140,9 @@ class Method(Core):
         # build the discrete evaluation for the gradient
         build_gradient_evaluation(self)
 
+        # save the continuous structure and laws
+        x, w, M, z = list(self.x), list(self.w), self.M.copy(), list(self.z)
+
         # build the discrete evaluation for the structure
         build_structure_evaluation(self)
 
@@ -151,6 +154,15 @@ class Method(Core):
                 print('    Split Implicit/Resolved...')
             # Split implicit equations from explicit equations
             self.explicit_implicit()
+            # recover the continuous structure and laws in the new order
+            indw = [w.index(e) for e in self.w]
+            inds = ([x.index(e) for e in self.x] +
+                    [len(x) + i for i in indw] +
+                    list(range(len(x) + len(w), M.shape[0])))
+            self.M = M[inds, inds] if not M.is_zero else M
+            self.z = [z[i] for i in indw]
+            # identify separable components with the new partition
+            self.monovar_multivar()
             if VERBOSE >= 2:
                 print('    Re-Build numerical structure...')
             # build the discrete evaluation for the gradient
-- 
2.43.0


From 83a524217e0969bd2913f109b7378abafb5fc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:30 +0000
Subject: [PATCH 06/32] fix: substitute state and gradient simultaneously in
 the structure

---
 pyphs/numerics/numerical_method/_method.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 52ac3e7..1f117b5 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -770,15 +770,18 @@ def build_structure_evaluation(method):
     for i, (gi, gi_discret) in enumerate(zip(method.g(), method.dxH())):
         subs[gi] = gi_discret
 
+    # evaluation of the gradient only
+    subs_g = dict(subs)
+
     # if theta is a numeric => theta scheme
     if isinstance(theta, (int, float)):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+theta*dxi
         # Substitute symbols in core.M
-        method.M = method.M.subs(subs)
+        method.M = method.M.subs(subs, simultaneous=True)
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = z.subs(subs)
+            method.z[i] = z.subs(subs, simultaneous=True)
 
     # else if theta == 'trapez' => trapezoidal
     else:
@@ -786,7 +789,9 @@ def build_structure_evaluation(method):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+dxi
         # Substitute symbols in core.M
-        method.M = 0.5*(method.M + method.M.subs(subs))
+        method.M = 0.5*(method.M.subs(subs_g) +
+                        method.M.subs(subs, simultaneous=True))
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = 0.5*(z + z.subs(subs))
+            method.z[i] = 0.5*(z.subs(subs_g) +
+                               z.subs(subs, simultaneous=True))
-- 
2.43.0


From 4ddecff184c002cecff13a21597cb878e897cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:39 +0000
Subject: [PATCH 07/32] fix: storages solved explicitly must have an affine
 discrete gradient

---
 pyphs/numerics/numerical_method/_method.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 1f117b5..3c2d26e 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -283,8 +283,10 @@ class Method(Core):
         v = geteval(self, 'v')
         jacF = geteval(self, 'jactempF')
         args = (v, )*2
-        mats = (jacF[:, :self.dims.x()],
-                jacF[:, self.dims.x():])*2
+        # the discrete gradient must also be linear w.r.t. explicit increments
+        mats = (types.matrix_types[0].vstack(jacF[:, :self.dims.x()],
+                                             jacobian(self.dxH(), self.dx())),
+                jacF[:, self.dims.x():])
         criterion = list(zip(mats, args))
         self.linear_nonlinear(criterion=criterion)
 
-- 
2.43.0


From 39c80a8848f9e959f15fa0ede8ecccf99fe2b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 08/32] fix: discrete gradient of energies coupling linear and
 nonlinear storages

---
 pyphs/numerics/numerical_method/_method.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 3c2d26e..cd43e9b 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -702,21 +702,29 @@ dictionary.
         # discrete gradient
         mtype = types.matrix_types[0]
 
+        # bilinear coupling of linear and nonlinear components
+        H, bl = method.H, list(method.bl)
+        if not free_symbols(bl).isdisjoint(method.xnl()):
+            H = H.subs(dict((xi, xi + 0.5*dxi) for xi, dxi in
+                            zip(method.xl(), method.dxl())))
+            bl = [e.subs(dict((xi, xi + 0.5*dxi) for xi, dxi in
+                              zip(method.xnl(), method.dxnl()))) for e in bl]
+
         dxHl = list(
             mtype(method.Q)*(
                 mtype(method.xl()) + 0.5*mtype(method.dxl())) +
-            mtype(method.bl)
+            mtype(bl)
             )
         # monovariate
         dxHnl_sep = discrete_gradient_monovar(
-            method.H,
+            H,
             method.xnl()[:method.dims.xnl_mono()],
             method.dxnl()[:method.dims.xnl_mono()],
             method.config['epsdg']
             )
         # multivariate
         dxHnl_nonsep = discrete_gradient_multivar(
-            method.H,
+            H,
             method.xnl()[method.dims.xnl_mono():],
             method.dxnl()[method.dims.xnl_mono():],
             method.config['epsdg']
-- 
2.43.0


From e31891d344cfe358897ff4e4ed205ddcfeedd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 09/32] fix: numerical evaluation of vector expressions and
 scalar arguments

---
 pyphs/numerics/tools/_evaluation.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..bd8e3b5 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -18,12 +18,18 @@ def pyphs_vectorize(func):
     Control how to vectorize functions.
     """
     #return numpy.vectorize(func)
-    def vec_func(*args):
+    def gen_func(*args):
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
         for ith_args in zip(*args):
             yield func(*ith_args)
+
+    def vec_func(*args):
+        # direct evaluation for scalar arguments
+        if all(numpy.ndim(a) == 0 for a in args):
+            return func(*args)
+        return gen_func(*args)
     return vec_func
 
 
@@ -95,6 +101,7 @@ class Evaluation(object):
             func, args, inds = self.expr_to_numeric(self.core, name,
                                                     self.args(),
                                                     theano=theano,
+                                                    vectorize=vectorize,
                                                     vslice=vslice)
             setattr(self, name, func)
             setattr(self, name+'_args', args)
@@ -149,7 +156,7 @@ class Evaluation(object):
             if isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr if vslice is None else expr[vslice],
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
@@ -231,6 +238,9 @@ def vector_expr_to_numeric(args, expr, subs=None, theano=None, vectorize=True):
                                                 vectorize=vectorize))
 
         def func(*args):
-            return numpy.array(tuple(map(lambda f: f(*args), funcs))).T
+            vals = map(lambda f: f(*args), funcs)
+            # recover the values from generators (vectorized evaluation)
+            return numpy.array([list(v) if hasattr(v, '__next__') else v
+                                for v in vals]).T
 
         return func
-- 
2.43.0


From 59bd1789c216d72a1d31c5d219ec1431e86ae1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 10/32] fix: write exactly the requested rows of a sequence
 whatever its length

---
 pyphs/numerics/simulations/h5data/tools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/tools.py b/pyphs/numerics/simulations/h5data/tools.py
index bf2db62..dc456cb 100644
--- a/pyphs/numerics/simulations/h5data/tools.py
+++ b/pyphs/numerics/simulations/h5data/tools.py
@@ -70,9 +70,12 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
     if rslice is None:
         nrows = dataset.shape[0]
     elif rslice.stop is None:
-        nrows = dataset.shape[1]
+        nrows = len(range(dataset.shape[0])[rslice])
     else:
         nrows = len(range(rslice.stop)[rslice])
+    if rslice is not None:
+        rows = range(dataset.shape[0] if rslice.stop is None
+                     else rslice.stop)[rslice]
 
     chunksize = min((chunksize, nrows))
     offset = 0
@@ -80,10 +83,10 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
     flattened_iterable = from_iterable(iterable)
 
     while True:
-        if chunksize <= nrows-offset:
+        if 0 < chunksize <= nrows-offset:
             buffer_rslice = slice(offset, offset+chunksize)
             if rslice is not None:
-                buffer_rslice = range(rslice.stop)[rslice][buffer_rslice]
+                buffer_rslice = rows[buffer_rslice]
             count = chunksize * ncols
             buffer = np.fromiter(flattened_iterable, dataset.dtype, count)
             dataset[buffer_rslice, cslice] = buffer.reshape(chunksize, ncols)
@@ -93,8 +96,8 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
         else:
             buffer_rslice = slice(offset, None)
             if rslice is not None:
-                buffer_rslice = range(rslice.stop)[rslice][buffer_rslice]
+                buffer_rslice = rows[buffer_rslice]
             count = (nrows-offset) * ncols
-            buffer = np.fromiter(flattened_iterable, dataset.dtype)
+            buffer = np.fromiter(flattened_iterable, dataset.dtype, count)
             dataset[buffer_rslice, cslice] = buffer.reshape(-1, ncols)
             break
-- 
2.43.0


From f538a49140fcc0b203b737391485431b5592cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 11/32] fix: time bounds select the sample at that time

---
 pyphs/numerics/simulations/h5data/h5data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..3f46f62 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -168,9 +168,9 @@ class H5Data(object):
 
         """
         if m == 'min':
-            return int(t*self.fs)
+            return int(numpy.round(t*self.fs, 6))
         elif m == 'max':
-            return int(t*self.fs)+1
+            return int(numpy.round(t*self.fs, 6))+1
         else:
             raise ValueError('unknown m={}'.format(m))
 
@@ -218,7 +218,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
-- 
2.43.0


From 7e66aa991650207858db3882cfd8423e6f8d0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 12/32] fix: expected length of an expression read with a step

The number of samples selected by a slice with a step is rounded up.
---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 3f46f62..72c59ef 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -874,7 +874,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
-- 
2.43.0


From 36f6a422ab4327bf5297f7dec32c44f9d1449ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 13/32] fix: loading options are not shared between simulations

---
 pyphs/numerics/simulations/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..19f3ec5 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -148,6 +148,8 @@ class Simulation(object):
 
         # init config with standard configuration options
         self.config = CONFIG_SIMULATION.copy()
+        # options for loading are proper to this object
+        self.config['load'] = self.config['load'].copy()
         self.config.update(CONFIG_NUMERIC)
         self.config.update(CONFIG_METHOD)
         self.config.update(CONFIG_CPP)
-- 
2.43.0


From e525a03907c56a6c3bac634968217ecc445bb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:44 +0000
Subject: [PATCH 14/32] fix: rebuild the numerical core when parameters or
 configuration change

Simulation.init ignored a new sample rate, method option or parameter value
in python: the numerical core was still the one built before.
---
 pyphs/numerics/simulations/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 19f3ec5..386ae41 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -311,6 +311,9 @@ class Simulation(object):
                     init_numeric = True
             if not init_numeric:
                 init_parameters = True
+            # the values are lambdified with the numerical core in python
+            if self.config['lang'] == 'python' and len(subs) > 0:
+                init_numeric = True
         self.method.subs.update(subs)
         if init_parameters:
             self.init_parameters()
@@ -337,6 +340,7 @@ class Simulation(object):
                 list(self.config_method().keys())]):
             self.config.update(c)
             self.init_method()
+            init_numeric = True
 
         if init_numeric:
             self.init_numericalCore()
-- 
2.43.0


From cb01ae229816b57ac843a344448faac3d6bee4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:11 +0000
Subject: [PATCH 15/32] fix: substitutions leave the argument unchanged and
 resolve dependent expressions

The dictionary given by the caller was updated with the entries of core.subs,
expressions of core.subs depending on other substituted expressions left
undefined symbols in the core, and the simplified expressions were dropped.
---
 pyphs/core/tools/_substitutions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..8889b71 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -186,9 +186,8 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
 
     """
 
-    # init substitution dic
-    if subs is None:
-        subs = {}
+    # init substitution dic (the argument is left unchanged)
+    subs = {} if subs is None else dict(subs)
 
     # append self subs dic
     if selfall:
@@ -197,6 +196,10 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
     # append only exprs in core subs dic
     elif selfexprs:
         subs.update(core.subsexprs)
+        # substitute the expressions that depend on each other
+        for _ in subs:
+            subs = dict((k, substitute_scalar(v, subs))
+                        for k, v in subs.items())
 
     # substitutions in core's own subsitution dictionary
     core.subs = substitute_dict(core.subs, subs)
@@ -214,9 +217,10 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
         if expr is None or callable(expr):
             pass
         else:
-            setattr(core, name, substitute(expr, subs_e))
+            expr = substitute(expr, subs_e)
             if simplify:
                 expr = simplify_func(expr)
+            setattr(core, name, expr)
 
     # remove entries in core.subs
     for k in subs.keys():
-- 
2.43.0


From 129ef08ae97012aef141f8205ff1ddf74f8fa435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:21 +0000
Subject: [PATCH 16/32] fix: load restores every expression of a saved core,
 copies own their connectors

---
 pyphs/core/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 98f9f83..235dfe1 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -261,8 +261,8 @@ class Core:
 
         for name in (list(set().union(
                           self.attrstocopy,
-                          self.exprs_names,
-                          self.symbs_names))):
+                          dico['exprs_names'],
+                          dico['symbs_names']))):
             if isinstance(name, str):
                 target = self
                 attr_name = name
@@ -300,6 +300,8 @@ class Core:
                 setattr(target, attr_name, attr.copy())
             except AttributeError:
                 setattr(target, attr_name, copy.copy(attr))
+        # connectors are described by mutable dictionaries
+        core.connectors = [copy.copy(c) for c in self.connectors]
         core.label = copy.copy(self.label)
         return core
 
-- 
2.43.0


From 543bcbb0f8d919406e7d61b91b0e2b56f53022ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:59 +0000
Subject: [PATCH 17/32] fix: concatenation of netlists leaves the operands
 unchanged

---
 pyphs/graphs/netlists.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..407993f 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -9,6 +9,7 @@ from __future__ import absolute_import, division, print_function
 
 import os
 import ast
+import copy
 from pyphs.config import datum, VERBOSE
 
 def sep():
@@ -83,7 +84,8 @@ i-th parameter is defined as 'label_pari'.
         return item
 
     def __add__(net1, net2):
-        net = net1
+        # the operands are left unchanged
+        net = copy.copy(net1)
         for l in net2:
             net.add_line(l)
         return net
-- 
2.43.0


From dfc8aef8e25e7d93d5e0f2fb7e7d2d55953ffab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:59 +0000
Subject: [PATCH 18/32] fix: parameter labels starting with a digit can be read
 from a netlist

---
 pyphs/graphs/netlists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 407993f..4d24688 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -142,7 +142,7 @@ components).
                         else:
                             try:
                                 value = ast.literal_eval(value)
-                            except ValueError:
+                            except (ValueError, SyntaxError):
                                 pass
                         pars.update({key: value})
                     self.arguments = list(self.arguments)+[pars, ]
-- 
2.43.0


From 30522aa949095bd710c2af347595cf1a34da0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:26 +0000
Subject: [PATCH 19/32] fix: last argument of a netlist line without final
 semicolon

---
 pyphs/graphs/netlists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 4d24688..f63d325 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -134,7 +134,7 @@ components).
                     pars = {}
                     for n in range(nb_pars):
                         par, _, parameters = parameters.partition(';')
-                        par = par.replace(' ', '')
+                        par = par.strip().replace(' ', '')
                         key, _, value = par.partition('=')
                         if value.startswith('('):
                             value = value[1:-1].split(',')
-- 
2.43.0


From 20a45d966ef158a3bf4e8df5b9c363b5e9d3e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:04 +0000
Subject: [PATCH 20/32] fix: compare edge types and controls by value

---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..fd122b8 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -351,7 +351,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -377,7 +377,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -435,7 +435,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 self.inverse_alpha(e)
@@ -459,7 +459,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From 104242b7dff7709d2e572e3773133d5c2aa09d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:51 +0000
Subject: [PATCH 21/32] fix: coefficient of gyrators and transformers with
 inverted control, whatever the number of builds

---
 pyphs/graphs/analysis.py | 10 ----------
 pyphs/graphs/build.py    |  6 ++++++
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index fd122b8..029c87a 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -438,7 +438,6 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -449,7 +448,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -484,14 +482,6 @@ compatible'.format(e_label, link_e_label)
             print('link', e_label, ctrl, link_e_label)
             self.verbose('link')
 
-    def inverse_alpha(self, e, minus=False):
-        alpha = self.edges[e][2]['alpha']
-        if alpha is not None:
-            a = alpha**-1
-            if minus:
-                a = -a
-            self.edges[e][2]['alpha'] = a
-
 
 def isequal(M1, M2):
     """
diff --git a/pyphs/graphs/build.py b/pyphs/graphs/build.py
index 260c633..7b4a05b 100644
--- a/pyphs/graphs/build.py
+++ b/pyphs/graphs/build.py
@@ -95,6 +95,12 @@ def _setCore(graph):
                                 for c in graph.core.connectors].index(True)
         alpha = graph.analysis.get_edge_data(e, 'alpha')
         if alpha is not None:
+            # the laws are given for flux-controlled gyrators and for
+            # transformers with first edge effort-controlled; the inverted
+            # laws are those of a connector with coefficient -1/alpha
+            ctype = graph.analysis.get_edge_data(e, 'connector_type')
+            if (ctype == 'gyrator') == (e in graph.analysis.ec_edges):
+                alpha = -alpha**-1
             graph.core.connectors[index_e_in_connector]['alpha'] = alpha
     graph.core.cy = [graph.core.cy[el] for el in new_indices_connector]
     graph.core.cu = [graph.core.cu[el] for el in new_indices_connector]
-- 
2.43.0


From 50c7d560458b49a00c30ac8ae3d0c54b86a4d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:14 +0000
Subject: [PATCH 22/32] fix: a closed loop is not a serial connection of its
 single end node

---
 pyphs/graphs/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyphs/graphs/tools.py b/pyphs/graphs/tools.py
index 75e17a9..9f21c71 100644
--- a/pyphs/graphs/tools.py
+++ b/pyphs/graphs/tools.py
@@ -104,6 +104,9 @@ def serial_edges(graph):
 
             # nodes in the serial connection
             s = s1[:-1] + s2
+            # a closed loop hangs on a single node: keep its last edge apart
+            if s[0] == s[-1]:
+                s = s[:-1]
             serial_nodes += s
 
             # recover list of edges
-- 
2.43.0


From e175625eab18b7be28c4dee0d2a63043b74944e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:25 +0000
Subject: [PATCH 23/32] fix: orientation of the transformers of fractional
 derivators, cantilever and loudspeaker models

---
 pyphs/dictionary/beams/_cantilever.py              | 4 ++--
 pyphs/dictionary/fraccalc/fractional_derivators.py | 4 ++--
 pyphs/examples/thielesmall/thielesmall.net         | 2 +-
 pyphs/examples/thielesmall_NL/thielesmall_NL.net   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyphs/dictionary/beams/_cantilever.py b/pyphs/dictionary/beams/_cantilever.py
index 6940fe4..dc541ad 100644
--- a/pyphs/dictionary/beams/_cantilever.py
+++ b/pyphs/dictionary/beams/_cantilever.py
@@ -241,8 +241,8 @@ class Cantilever(Graph):
 
                 # define transfomer
                 transfo = Transformer(label_n+str(i),
-                                      (A1, A2,
-                                      datum, label+'M'+str(i)),
+                                      (datum, label+'M'+str(i),
+                                       A1, A2),
                                       alpha=(label_n+'alpha'+str(i), o))
                 self += transfo
 
diff --git a/pyphs/dictionary/fraccalc/fractional_derivators.py b/pyphs/dictionary/fraccalc/fractional_derivators.py
index 245b3d3..fbae5a9 100644
--- a/pyphs/dictionary/fraccalc/fractional_derivators.py
+++ b/pyphs/dictionary/fraccalc/fractional_derivators.py
@@ -64,7 +64,7 @@ class Fracderec(Graph):
                                      inv_coeff=False)
 
             self += Transformer(label+'alpha'+str(n),
-                                (N1, Nend, N2, datum),
+                                (N2, datum, N1, Nend),
                                 alpha=Rn**-1)
 
     metadata = {'title': 'Effort-controlled fractional derivator',
@@ -133,7 +133,7 @@ class Fracderfc(Graph):
 
             Nend = nodes[1]
             self += Transformer(label+'alpha'+str(n),
-                                (N1, N2, N3, datum),
+                                (N3, datum, N1, N2),
                                 alpha=Rn)
             N1 = N2
     metadata = {'title': 'Flux-controlled fractional derivator',
diff --git a/pyphs/examples/thielesmall/thielesmall.net b/pyphs/examples/thielesmall/thielesmall.net
index a12e7ba..ec89401 100644
--- a/pyphs/examples/thielesmall/thielesmall.net
+++ b/pyphs/examples/thielesmall/thielesmall.net
@@ -6,7 +6,7 @@ electronics.resistor    R   ('A', 'B'):             R=('R', 5.9);
 electronics.inductor    L   ('B', 'C'):             L=('L', 2.36*1e-3);
 #
 #======================  CONNECTOR  ======================#
-connectors.transformer  T   ('C', '#', 'D', '#'):   alpha=('Bl', 16.37);
+connectors.transformer  T   ('D', '#', 'C', '#'):   alpha=('Bl', 16.37);
 #
 #======================  MECHANICS  ======================#
 mechanics.mass          M   ('D',):                 M=('M', 0.075);
diff --git a/pyphs/examples/thielesmall_NL/thielesmall_NL.net b/pyphs/examples/thielesmall_NL/thielesmall_NL.net
index 6d09be4..32ef330 100644
--- a/pyphs/examples/thielesmall_NL/thielesmall_NL.net
+++ b/pyphs/examples/thielesmall_NL/thielesmall_NL.net
@@ -6,7 +6,7 @@ electronics.resistor    R   ('A', 'B'):             R=('R', 5.9);
 electronics.inductor    L   ('B', 'C'):             L=('L', 2.36*1e-3);
 #
 #======================  CONNECTOR  ======================#
-connectors.transformer  T   ('C', '#', 'D', '#'):   alpha=('Bl', 16.37);
+connectors.transformer  T   ('D', '#', 'C', '#'):   alpha=('Bl', 16.37);
 #
 #======================  MECHANICS  ======================#
 mechanics.mass          M   ('D',):                 M=('M', 0.075);
-- 
2.43.0


From c1794560cd973cd8a86bef947a87656b0881dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:04 +0000
Subject: [PATCH 24/32] fix: simultaneous replacement of the names of component
 parameters

---
 pyphs/dictionary/edges/dissipatives.py   | 4 ++--
 pyphs/dictionary/edges/storages.py       | 2 +-
 pyphs/dictionary/mechanics/_felt.py      | 4 ++--
 pyphs/dictionary/mechanics_dual/_felt.py | 4 ++--
 pyphs/dictionary/transducers/_pickup.py  | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyphs/dictionary/edges/dissipatives.py b/pyphs/dictionary/edges/dissipatives.py
index 2818729..cc1e6f7 100644
--- a/pyphs/dictionary/edges/dissipatives.py
+++ b/pyphs/dictionary/edges/dissipatives.py
@@ -119,11 +119,11 @@ keys of the kwargs arguments.
         self.core.subs.update(subs)
         # replace parameters in z by correspondances in 'dicpars'
         for i, zz in enumerate(z):
-            z[i] = zz.subs(dicpars)
+            z[i] = zz.xreplace(dicpars)
         for e, edge in enumerate(edges):
             if 'z' in edge[2].keys():
                 for k in ['e_ctrl', 'f_ctrl']:
-                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars)
+                    edges[e][2]['z'][k] = edge[2]['z'][k].xreplace(dicpars)
 
         # add dissipative component
         self.core.add_dissipations(w, z)
diff --git a/pyphs/dictionary/edges/storages.py b/pyphs/dictionary/edges/storages.py
index d9c48df..6d9e247 100644
--- a/pyphs/dictionary/edges/storages.py
+++ b/pyphs/dictionary/edges/storages.py
@@ -92,7 +92,7 @@ keys of the kwargs arguments.
         # update dict of subs in phs
         self.core.subs.update(subs)
         # replace parameters in H by correspondances in 'dicpars'
-        H = H.subs(dicpars)
+        H = H.xreplace(dicpars)
         # add dissipative component
         self.core.add_storages(x, H)
         # update phs.Graph with edges
diff --git a/pyphs/dictionary/mechanics/_felt.py b/pyphs/dictionary/mechanics/_felt.py
index 05485e8..d34c1d2 100644
--- a/pyphs/dictionary/mechanics/_felt.py
+++ b/pyphs/dictionary/mechanics/_felt.py
@@ -29,7 +29,7 @@ class Felt(Graph):
         N1, N2 = nodes
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.xreplace(dicpars)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -39,7 +39,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.xreplace(dicpars)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/mechanics_dual/_felt.py b/pyphs/dictionary/mechanics_dual/_felt.py
index 5dbf08b..4fed68d 100644
--- a/pyphs/dictionary/mechanics_dual/_felt.py
+++ b/pyphs/dictionary/mechanics_dual/_felt.py
@@ -31,7 +31,7 @@ class Felt(Graph):
         N3 = label+'_N3'
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.xreplace(dicpars)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -41,7 +41,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.xreplace(dicpars)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/transducers/_pickup.py b/pyphs/dictionary/transducers/_pickup.py
index 353e1e8..945b8f3 100644
--- a/pyphs/dictionary/transducers/_pickup.py
+++ b/pyphs/dictionary/transducers/_pickup.py
@@ -58,7 +58,7 @@ class Pickup(Graph):
             return 2*Rb**2*dmu*Rp*((f1-2*Lh**2)/f1**2 -
                                    (f2-2*Lh**2)/f2**2) * dtq
 
-        falpha = (f(q, dtq)**-1).subs(dicpars)
+        falpha = (f(q, dtq)**-1).xreplace(dicpars)
         self += Gyrator(label+'MecToMag',
                         (self.datum, NCcoil, self.datum, NMagnet),
                         alpha=(label+'f', falpha))
-- 
2.43.0


From f4b69d932899ac981bc387de9c3aaeab01bd88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:50 +0000
Subject: [PATCH 25/32] fix: plate current of the triode is real (zero) for
 negative plate voltages

---
 pyphs/dictionary/electronics/_triode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..0040e09 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -60,7 +60,8 @@ class Triode(DissipativeNonLinear):
             e3 = Kp*(mu**-1 + e1/e2)
             exprE = (vpk/Kp)*sympy.log(1 + sympy.exp(e3))
             expr = exprE**Ex * (1 + sign(exprE)) / Kg
-            return expr.evalf()
+            # no current for negative plate voltage
+            return sympy.Piecewise((0., vpk <= 0.), (expr.evalf(), True))
 
         z = [ipk()+(vpk+vgk)*GMIN, igk()+(vpk+vgk)*GMIN]
 
-- 
2.43.0


From d8d797eca6079a7d5d2fcfffb2ab6b49b5424e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 26/32] fix: leave the example netlists of the loudspeaker as
 they were

---
 pyphs/examples/thielesmall/thielesmall.net       | 2 +-
 pyphs/examples/thielesmall_NL/thielesmall_NL.net | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/examples/thielesmall/thielesmall.net b/pyphs/examples/thielesmall/thielesmall.net
index ec89401..a12e7ba 100644
--- a/pyphs/examples/thielesmall/thielesmall.net
+++ b/pyphs/examples/thielesmall/thielesmall.net
@@ -6,7 +6,7 @@ electronics.resistor    R   ('A', 'B'):             R=('R', 5.9);
 electronics.inductor    L   ('B', 'C'):             L=('L', 2.36*1e-3);
 #
 #======================  CONNECTOR  ======================#
-connectors.transformer  T   ('D', '#', 'C', '#'):   alpha=('Bl', 16.37);
+connectors.transformer  T   ('C', '#', 'D', '#'):   alpha=('Bl', 16.37);
 #
 #======================  MECHANICS  ======================#
 mechanics.mass          M   ('D',):                 M=('M', 0.075);
diff --git a/pyphs/examples/thielesmall_NL/thielesmall_NL.net b/pyphs/examples/thielesmall_NL/thielesmall_NL.net
index 32ef330..6d09be4 100644
--- a/pyphs/examples/thielesmall_NL/thielesmall_NL.net
+++ b/pyphs/examples/thielesmall_NL/thielesmall_NL.net
@@ -6,7 +6,7 @@ electronics.resistor    R   ('A', 'B'):             R=('R', 5.9);
 electronics.inductor    L   ('B', 'C'):             L=('L', 2.36*1e-3);
 #
 #======================  CONNECTOR  ======================#
-connectors.transformer  T   ('D', '#', 'C', '#'):   alpha=('Bl', 16.37);
+connectors.transformer  T   ('C', '#', 'D', '#'):   alpha=('Bl', 16.37);
 #
 #======================  MECHANICS  ======================#
 mechanics.mass          M   ('D',):                 M=('M', 0.075);
-- 
2.43.0


From e8d4670969665f1fcac5aef6b2cc12209b5a9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 27/32] fix: initial values in the generated C++ keep the
 precision of the arguments

---
 pyphs/numerics/cpp/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 7a4a664..8379367 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -213,7 +213,7 @@ def _str_args_init_data(method, name):
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
                     c = ccode(expr, dereference=dereference(method))
-                    data = 'float({0}), '.format(c)
+                    data = '{1}({0}), '.format(c, CONFIG_CPP['float'])
             init_data += data
     if crop:
         init_data = init_data[:-2]
-- 
2.43.0


From f6935148696c856c1336f6482de9b198e26fcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 28/32] fix: table of several sets of parameters in the
 generated C++

---
 pyphs/numerics/cpp/method2cpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index bbeae21..60ed8a2 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -362,7 +362,8 @@ const {0} subs[{1}][{2}]""".format(CONFIG_CPP['float'], nsubs, npars) + """ = {
                 # Write value
                 files['cpp'] += str(float(s[k])) + ', '
             # Close brackets
-            files['cpp'] = files['cpp'][:-2] + """},
+            files['cpp'] = files['cpp'][:-2] + """},"""
+        files['cpp'] += """
 };"""
 
 
-- 
2.43.0


From 1c119b82b15a7d62eaa40dfc931ee9a2872f02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 29/32] fix: given sets of parameters are written in the order
 declared in the generated header

---
 pyphs/numerics/cpp/method2cpp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 60ed8a2..1a4b97f 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -233,6 +233,13 @@ def method2cpp(method, objlabel=None, path=None,
 
     if subs is None:
         subs = method.subs
+    elif isinstance(subs, dict):
+        subs = [subs, ]
+
+    if not isinstance(subs, dict):
+        # same parameters in same order as declared in the header
+        subs = [dict((k, s.get(k, method.subs[k])) for k in method.subs)
+                for s in subs]
 
     parameters_files = parameters(subs, objlabel)
     for e in exts:
-- 
2.43.0


From 84a64958b27b5dea281e73fe64092d174cf46171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 30/32] fix: setting the sample rate of the generated C++
 object updates every coefficient

---
 pyphs/numerics/cpp/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index d7ce0d6..95b65b0 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -175,7 +175,8 @@ def _str_mat_func_update(method, name, objlabel):
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     for m, n, expr in mat.row_list():
             symbs = expr.free_symbols
-            if any(symb in method.args() for symb in symbs):
+            # the sample rate can be changed after construction
+            if any(symb in method.args() + [method.fs, ] for symb in symbs):
                 c = ccode(expr, dereference=dereference(method))
                 update_cpp += '\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)
     update_cpp += '\n};'
-- 
2.43.0


From 471f10b2d822aedea629699378dbb777add6ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 31/32] fix: copies of a core share the ports of their pending
 connectors with the original

---
 pyphs/core/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 235dfe1..9003836 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -300,8 +300,9 @@ class Core:
                 setattr(target, attr_name, attr.copy())
             except AttributeError:
                 setattr(target, attr_name, copy.copy(attr))
-        # connectors are described by mutable dictionaries
-        core.connectors = [copy.copy(c) for c in self.connectors]
+        # connectors are described by mutable dictionaries of mutable lists
+        core.connectors = [dict((k, copy.copy(v)) for k, v in c.items())
+                           for c in self.connectors]
         core.label = copy.copy(self.label)
         return core
 
-- 
2.43.0


From fb5dfb6259be4d460aa95962810a4212c91f141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 32/32] fix: last energy variation read over a window with a
 step

---
 pyphs/numerics/simulations/h5data/h5data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 72c59ef..48c45be 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -1389,9 +1389,11 @@ or an integer nt (number of time steps).'
 
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
         if DtE == 'deltaH':
-            last_dtH_value = numpy.einsum('ti,ti->t',
-                                          self['dxH', tslice.stop-1],
-                                          self['dtx', tslice.stop-1])/self.fs
+            last = range(tslice.start, tslice.stop, tslice.step)[-1]
+            last_dtE_value = numpy.einsum('ti,ti->t',
+                                          self['dxH', last],
+                                          self['dtx', last])
+            last_dtH_value = last_dtE_value*tslice.step/self.fs
             output = numpy.ediff1d(self.E(tslice=tslice),
                                    to_end=last_dtH_value)*self.fs/tslice.step
 
-- 
2.43.0

