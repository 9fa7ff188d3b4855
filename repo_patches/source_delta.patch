From 0ed3459d5b8045137e3827a1c3c0bd5a7782db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 01/40] fix: evaluate exactly 'runs' samples in UMC_generic if
 runs is not a multiple of blocksize

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index f64a762..6e23f26 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -687,10 +687,8 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         sims = {"samples": np.empty((runs, *input_shape)), "results": np.empty((runs, *output_shape))}
 
     for m in range(nblocks):
-        if m == nblocks:
-            curr_block = runs % blocksize
-        else:
-            curr_block = blocksize
+        # the last block may be smaller, if runs is not a multiple of blocksize
+        curr_block = min(blocksize, runs - m * blocksize)
 
         Y = np.empty((curr_block, np.prod(output_shape)))
         samples = draw_samples(curr_block)
-- 
2.43.0


From e81bef6b39ababc393273376a21b10430b7c89ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 02/40] fix: start the covariance update of UMC_generic from a
 covariance instead of a scatter matrix

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 6e23f26..4124de9 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -699,7 +699,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
 
         if m == 0:  # first block
             y = np.mean(Y, axis=0)
-            Uy = np.matmul((Y - y).T, (Y - y))
+            Uy = np.matmul((Y - y).T, (Y - y)) / max(curr_block - 1, 1)
 
         else:  # updating y and Uy from results of current block
             K0 = m * blocksize
-- 
2.43.0


From 9e69360324e2119f390460ae87d56ca89dec279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 03/40] fix: count every result of UMC_generic in the histogram
 and enclose all of them by its edges

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 4124de9..acd9713 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -715,7 +715,9 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         # update histogram values
         for k in range(np.prod(output_shape)):
             for h in happr.values():
-                h["bin-counts"][:,k] += np.histogram(Y[:,k], bins = h["bin-edges"][:,k])[0]  # numpy histogram returns (bin-counts, bin-edges)
+                # values outside of the initial limits are counted in the outermost bins
+                e = h["bin-edges"][:,k]
+                h["bin-counts"][:,k] += np.histogram(np.clip(Y[:,k], e[0], e[-1]), bins=e)[0]  # numpy histogram returns (bin-counts, bin-edges)
 
         ymin = np.min(np.vstack((ymin, Y)), axis=0)
         ymax = np.max(np.vstack((ymax, Y)), axis=0)
@@ -735,7 +737,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # replace edge limits by ymin and ymax, resp.
     for h in happr.values():
         h["bin-edges"][0, :] = np.min(np.vstack((ymin, h["bin-edges"][0, :])), axis=0)
-        h["bin-edges"][-1, :] = np.min(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
+        h["bin-edges"][-1, :] = np.max(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
 
     if return_samples:
         return y, Uy, happr, output_shape, sims
-- 
2.43.0


From 6277918fff18188f7859b9e64b0137b2bbfd417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 04/40] fix: keep samples and results of UMC_generic paired in
 parallel runs

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index acd9713..17b7811 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -645,7 +645,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     else:
         nPool = min(n_cpu, blocksize)
         pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap_unordered
+        map_func = pool.imap  # results in order of samples
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From fea4a56f156fbc49f05e31e06a33b973ade50708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 05/40] fix: release the workers of UMC_generic on every exit
 and raise if one of them dies

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 17b7811..1396e25 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -22,6 +22,7 @@ import functools
 import math
 import multiprocessing
 import sys
+from concurrent.futures import ProcessPoolExecutor
 
 import numpy as np
 import scipy as sp
@@ -641,11 +642,22 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # this allows to circumvent a multiprocessing-problem on windows-machines
     # see: https://github.com/PTB-PSt1/PyDynamic/issues/84
     if n_cpu == 1:
-        map_func = map
-    else:
-        nPool = min(n_cpu, blocksize)
-        pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap  # results in order of samples
+        return _UMC_blockwise(
+            map, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
+        )
+
+    # leaving the context releases the workers; map keeps the order of the samples and
+    # raises an exception if a worker dies
+    with ProcessPoolExecutor(min(n_cpu, blocksize)) as pool:
+        return _UMC_blockwise(
+            pool.map, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
+        )
+
+
+def _UMC_blockwise(
+        map_func, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
+):
+    """Core of UMC_generic, evaluates the samples by means of map_func"""
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From 850a32841c82634f515772a1f1fcf9ff576def92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 06/40] fix: provide every parallel evaluation in UMC_generic
 with a random state of its own

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 1396e25..835a4aa 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -649,11 +649,24 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # leaving the context releases the workers; map keeps the order of the samples and
     # raises an exception if a worker dies
     with ProcessPoolExecutor(min(n_cpu, blocksize)) as pool:
+
+        # the workers start with identical copies of the random state, hence provide
+        # every evaluation with a random state of its own
+        def map_func(func, samples):
+            seeds = np.random.randint(2**32, size=(len(samples), 4), dtype=np.uint32)
+            return pool.map(functools.partial(_evaluate_seeded, func), seeds, samples)
+
         return _UMC_blockwise(
-            pool.map, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
+            map_func, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
         )
 
 
+def _evaluate_seeded(evaluate, seed, sample):
+    """Evaluate a sample in a worker process with a random state given by seed"""
+    np.random.seed(seed)
+    return evaluate(sample)
+
+
 def _UMC_blockwise(
         map_func, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
 ):
-- 
2.43.0


From 30db3e4aac37947a01dc889112e387ae7f5d1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 07/40] fix: hand over nbins from UMC to UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 835a4aa..f45b52b 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -500,7 +500,8 @@ def UMC(
     evaluate = functools.partial(_UMCevaluate, **params)
 
     # run UMC
-    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init)
+    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init,
+                                  nbins=nbins)
 
     # further post-calculation steps
     y_cred_low = np.zeros((len(nbins), len(y)))
-- 
2.43.0


From b009206bd781e2683af287b190a6e18f40b75bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 08/40] fix: apply the ARMA coefficients to the lags they
 belong to

---
 PyDynamic/misc/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/noise.py b/PyDynamic/misc/noise.py
index a122ee1..c67fb9f 100644
--- a/PyDynamic/misc/noise.py
+++ b/PyDynamic/misc/noise.py
@@ -200,6 +200,7 @@ def ARMA(length, phi=0.0, theta=0.0, std=1.0):
     for n, wn in enumerate(w):
         min_pn = min(p, n)
         min_qn = min(q, n)
-        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n])) + wn
+        # the coefficients start with lag 1, i.e. run backwards in time
+        e[n] = phi[:min_pn].dot(e[n-min_pn:n][::-1]) + theta[:min_qn].dot(w[n-min_qn:n][::-1]) + wn
 
     return e
-- 
2.43.0


From fa033451578a055ba5b6cb3b6a4cd494bec8e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 09/40] fix: return real and imaginary parts per frequency from
 FreqResp2RealImag

---
 PyDynamic/misc/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 35a81e0..26a9112 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -268,8 +268,8 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     )  # calculate complex frequency response values
     RI = np.hstack((np.real(H), np.imag(H)))  # transform to real, imag
 
-    Re = np.mean(RI[:, :Nf])
-    Im = np.mean(RI[:, Nf:])
+    Re = np.mean(RI[:, :Nf], axis=0)
+    Im = np.mean(RI[:, Nf:], axis=0)
     URI = np.cov(RI, rowvar=False)
 
     return Re, Im, URI
-- 
2.43.0


From 1de5e1e91114e5ab22b7d86f67632a68b0d4d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 10/40] fix: make IIRuncFilter work and follow the state-space
 formulas

---
 PyDynamic/uncertainty/propagate_filter.py | 57 +++++++++++------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index ddaac6a..1443c48 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -440,45 +440,40 @@ def IIRuncFilter(x, noise, b, a, Uab):
     if not isinstance(noise, np.ndarray):
         noise = noise * np.ones_like(x)  # translate iid noise to vector
 
-    p = len(a) - 1
-
-    # Adjust dimension for later use.
-    if not len(b) == len(a):
-        b = np.hstack((b, np.zeros((len(a) - len(b),))))
-
-    # From discrete-time transfer function to state space representation.
-    [A, bs, c, b0] = tf2ss(b, a)
-
-    A = np.matrix(A)
-    bs = np.matrix(bs)
-    c = np.matrix(c)
-
-    phi = np.zeros((2 * p + 1, 1))
+    # Adjust dimension for later use, appended coefficients are exactly zero.
+    p = max(len(a), len(b)) - 1
+    theta_index = np.r_[: len(a) - 1, p : p + len(b)]  # entries of (a[1:],b) in phi
+    a = trimOrPad(np.asarray(a), p + 1)
+    b = trimOrPad(np.asarray(b), p + 1)
+
+    # State space representation in controller canonical form.
+    A = np.zeros((p, p))
+    A[:1, :] = -a[1:]
+    A[1:, :-1] = np.eye(p)[1:, 1:]
+    bs = np.eye(p, 1)[:, 0]
+    b0 = b[0]
+    c = b[1:] - b0 * a[1:]
+
+    phi = np.zeros((2 * p + 1,))
     dz = np.zeros((p, p))
-    dz1 = np.zeros((p, p))
-    z = np.zeros((p, 1))
+    z = np.zeros((p,))
     P = np.zeros((p, p))
 
     y = np.zeros((len(x),))
     Uy = np.zeros((len(x),))
 
-    Aabl = np.zeros((p, p, p))
-    for k in range(p):
-        Aabl[0, k, k] = -1
-
     # implementation of the state-space formulas from the paper
     for n in range(len(y)):
-        for k in range(p):  # derivative w.r.t. a_1,...,a_p
-            dz1[:, k] = A * dz[:, k] + np.squeeze(Aabl[:, :, k]) * z
-            phi[k] = c * dz[:, k] - b0 * z[k]
-        phi[p + 1] = -np.matrix(a[1:]) * z + x[n]  # derivative w.r.t. b_0
-        for k in range(p + 2, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
-            phi[k] = z[k - (p + 1)]
-        P = A * P * A.T + noise[n] ** 2 * (bs * bs.T)
-        y[n] = c * z + b0 * x[n]
-        Uy[n] = phi.T * Uab * phi + c * P * c.T + b[0] ** 2 * noise[n] ** 2
-        z = A * z + bs * x[n]  # update of the state equations
-        dz = dz1
+        phi[:p] = c.dot(dz) - b0 * z  # derivative w.r.t. a_1,...,a_p
+        phi[p] = x[n] - a[1:].dot(z)  # derivative w.r.t. b_0
+        phi[p + 1 :] = z  # derivative w.r.t. b_1,...,b_p
+        theta = phi[theta_index]
+        y[n] = c.dot(z) + b0 * x[n]
+        Uy[n] = theta.dot(Uab).dot(theta) + c.dot(P).dot(c) + b0 ** 2 * noise[n] ** 2
+        # update of the state equations and their derivatives
+        P = A.dot(P).dot(A.T) + noise[n] ** 2 * np.outer(bs, bs)
+        dz = A.dot(dz) - np.outer(bs, z)
+        z = A.dot(z) + bs * x[n]
 
     Uy = np.sqrt(np.abs(Uy))  # calculate point-wise standard uncertainties
 
-- 
2.43.0


From 70680f1476aa1e9f432b939817a94992a7dd70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 11/40] fix: apply shift in FIRuncFilter also if no covariance
 is involved

---
 PyDynamic/uncertainty/propagate_filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 1443c48..e7c9fe4 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -354,6 +354,12 @@ def FIRuncFilter(
         x, Ux_diag = _fir_filter_diag(
             y, theta, Uy_diag, Utheta_diag, initial_conditions="constant"
         )
+
+        # shift result
+        if shift != 0:
+            x = np.roll(x, -int(shift))
+            Ux_diag = np.roll(Ux_diag, -int(shift))
+
         return x, np.sqrt(np.abs(Ux_diag))
 
     # otherwise, the method computes full covariance information
-- 
2.43.0


From b6d35d98d5e66b9e5969c397b22305737519a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 12/40] fix: use noise as standard deviation in multi_sine

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index e2fc16a..eacc0f9 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -211,7 +211,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
     x = np.zeros_like(time)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
-    x += np.random.randn(len(x)) * noise ** 2
+    x += np.random.randn(len(x)) * noise
     return x
 
 
-- 
2.43.0


From 26e9e87cb74173fa5c903316100d273d5668ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 13/40] fix: draw an integer number of values in
 corr_noise.calc_noise2

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index eacc0f9..14206fb 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -240,7 +240,7 @@ class corr_noise(object):
         return self.noise
 
     def calc_noise2(self, N=100):
-        P = np.ceil(1.5 * N)
+        P = int(np.ceil(1.5 * N))
         NT = self.rst.randn(P) * self.sigma
         STD = np.zeros(21)
         STD[10] = 1.0
-- 
2.43.0


From 7e31deedd94b75656a59d0b60f10befdb3b60d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 14/40] fix: propagate point-wise uncertainties of a Signal as
 such through FIR filters

---
 PyDynamic/signals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 27b5006..100fb0d 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -124,7 +124,11 @@ class Signal:
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
                     self.values, self.uncertainty = FIRuncFilter(
-                        self.values, self.uncertainty, b, Utheta=filter_uncertainty
+                        self.values,
+                        self.uncertainty,
+                        b,
+                        Utheta=filter_uncertainty,
+                        kind="diag",
                     )
                 else:
                     self.values, self.uncertainty = MC(
-- 
2.43.0


From 014c13b5bf8447b30700c0e3e60cde1d1d7d52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 15/40] fix: enable Monte Carlo in Signal.apply_filter for FIR
 and certain filters

---
 PyDynamic/signals.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 100fb0d..13d398c 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -120,6 +120,9 @@ class Signal:
         """
         if isinstance(a, list):
             a = np.array(a)
+        Uab = filter_uncertainty  # the Monte Carlo method needs a covariance matrix
+        if Uab is None:
+            Uab = np.zeros(2 * (np.size(a) + len(b) - 1,))
         if not (isinstance(a, np.ndarray)):  # FIR type filter
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
@@ -135,8 +138,8 @@ class Signal:
                         self.values,
                         self.uncertainty,
                         b,
-                        a,
-                        filter_uncertainty,
+                        [1.0],
+                        Uab,
                         runs=MonteCarloRuns,
                     )
             else:
@@ -146,8 +149,8 @@ class Signal:
                     self.values,
                     self.uncertainty,
                     b,
-                    a,
-                    filter_uncertainty,
+                    [1.0],
+                    Uab,
                     runs=MonteCarloRuns,
                 )
         else:  # IIR-type filter
@@ -158,6 +161,6 @@ class Signal:
                     self.uncertainty,
                     b,
                     a,
-                    filter_uncertainty,
+                    Uab,
                     runs=MonteCarloRuns,
                 )
-- 
2.43.0


From d4db29baed40c106ada130c7093756f5dfad8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 16/40] fix: accept singular covariance matrices of the input
 signal in MC

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index f45b52b..6c76c3a 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -154,7 +154,7 @@ def MC(
         if len(Ux.shape) == 1:
             dist = Normal_ZeroCorr(loc=x, scale=Ux)  # non-iid noise w/o correlation
         else:
-            dist = stats.multivariate_normal(x, Ux)  # colored noise
+            dist = stats.multivariate_normal(x, Ux, allow_singular=True)  # colored noise
     elif isinstance(Ux, float):
         dist = Normal_ZeroCorr(loc=x, scale=Ux)  # iid noise
     else:
-- 
2.43.0


From d35404ef2d4d31760d7fd94d50a106a81d516d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 17/40] fix: make SMC work for all supported filters and noise
 models

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 89 +++++++++----------
 1 file changed, 40 insertions(+), 49 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 6c76c3a..564df63 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -276,20 +276,16 @@ def SMC(
     # Initialize noise matrix corresponding to ARMA noise model.
     if isinstance(theta, np.ndarray) or isinstance(theta, float):
         MA = True
-        if isinstance(theta, float):
-            W = np.zeros((runs, 1))
-        else:
-            W = np.zeros((runs, len(theta)))
+        theta = np.atleast_1d(theta)
+        W = np.zeros((runs, len(theta)))
     else:
         MA = False  # no moving average part in noise process
 
     # Initialize for autoregressive part of noise process.
     if isinstance(phi, np.ndarray) or isinstance(phi, float):
         AR = True
-        if isinstance(phi, float):
-            E = np.zeros((runs, 1))
-        else:
-            E = np.zeros((runs, len(phi)))
+        phi = np.atleast_1d(phi)
+        E = np.zeros((runs, len(phi)))
     else:
         AR = False  # No autoregressive part in noise process.
 
@@ -300,9 +296,7 @@ def SMC(
         X = np.zeros(runs)
 
     if isinstance(alow, np.ndarray):
-        Xl = np.zeros((runs, len(alow) - 1))
-    else:
-        Xl = np.zeros((runs, 1))
+        L = np.zeros((runs, len(alow) - 1))
 
     if Na == 0:  # only FIR filter
         coefs = b
@@ -316,15 +310,12 @@ def SMC(
 
     b0 = Coefs[:, Na]
 
-    if Na > 0:  # filter is IIR
-        A = Coefs[:, :Na]
-        if Nb > Na:
-            A = np.hstack((A, np.zeros((runs, Nb - Na))))
-    else:  # filter is FIR -> zero state equations
-        A = np.zeros((runs, Nb))
+    # Adjust dimensions, there are no state equations if the filter is FIR.
+    A = np.pad(Coefs[:, :Na], ((0, 0), (0, max(Nb - Na, 0))), mode="constant")
+    B = np.pad(Coefs[:, Na + 1 :], ((0, 0), (0, max(Na - Nb, 0))), mode="constant")
 
     # Fixed part of state-space model.
-    c = Coefs[:, Na + 1 :] - np.multiply(np.tile(b0[:, np.newaxis], (1, Nb)), A)
+    c = B - b0[:, np.newaxis] * A
     States = np.zeros(np.shape(A))  # initialise matrix of states
 
     calcP = False  # by default no percentiles requested
@@ -333,64 +324,64 @@ def SMC(
         P = np.zeros((len(Perc), len(x)))
 
     # Initialize outputs.
-    y = np.zeros_like(x)
+    y = np.zeros(len(x))
     # Initialize vector of uncorrelated point-wise uncertainties.
-    Uy = np.zeros_like(x)
+    Uy = np.zeros(len(x))
+    # Initialize matrix of MC results.
+    if return_samples:
+        Ysamples = np.zeros((runs, len(x)))
 
     # Start of the actual MC part.
     print("Sequential Monte Carlo progress", end="")
 
-    for index in np.ndenumerate(x):
+    for index in range(len(x)):
 
         w = np.random.randn(runs) * noise_std  # noise process draw
-        if AR and MA:
-            E = np.hstack((E.dot(phi) + W.dot(theta) + w, E[:-1]))
-            W = np.hstack((w, W[:-1]))
-        elif AR:
-            E = np.hstack((E.dot(phi) + w, E[:-1]))
-        elif MA:
-            E = W.dot(theta) + w
-            W = np.hstack((w, W[:-1]))
-        else:
-            w = np.random.randn(runs, 1) * noise_std
-            E = w
-
-        if isinstance(alow, np.ndarray):  # apply low-pass filter
-            X = np.hstack((x[index] + E, X[:, :-1]))
-            Xl = np.hstack(
-                (X.dot(blow.T) - Xl[:, : len(alow)].dot(alow[1:]), Xl[:, :-1])
-            )
-        elif isinstance(blow, np.ndarray):
-            X = np.hstack((x[index] + E, X[:, :-1]))
+        e = w
+        if AR:
+            e = e + E.dot(phi)
+        if MA:
+            e = e + W.dot(theta)
+            W = np.column_stack((w, W[:, :-1]))
+        if AR:
+            E = np.column_stack((e, E[:, :-1]))
+
+        if isinstance(blow, np.ndarray):  # apply low-pass filter
+            X = np.column_stack((x[index] + e, X[:, :-1]))
             Xl = X.dot(blow)
+            if isinstance(alow, np.ndarray):
+                Xl = Xl - L.dot(alow[1:])
+                L = np.column_stack((Xl, L))[:, : len(alow) - 1]
         else:
-            Xl = x[index] + E
-
-        # Prepare for easier calculations.
-        if len(Xl.shape) == 1:
-            Xl = Xl[:, np.newaxis]
+            Xl = x[index] + e
 
         # State-space system output.
         Y = (
             np.sum(np.multiply(c, States), axis=1)
-            + np.multiply(b0, Xl[:, 0])
+            + np.multiply(b0, Xl)
             + (np.random.rand(runs) * 2 * Delta - Delta)
         )
         # Calculate state updates.
-        Z = -np.sum(np.multiply(A, States), axis=1) + Xl[:, 0]
+        Z = -np.sum(np.multiply(A, States), axis=1) + Xl
         # Store state updates and remove old ones.
-        States = np.hstack((Z[:, np.newaxis], States[:, :-1]))
+        States = np.column_stack((Z, States))[:, : A.shape[1]]
+
+        if return_samples:
+            Ysamples[:, index] = Y
 
         y[index] = np.mean(Y)  # point-wise best estimate
         Uy[index] = np.std(Y)  # point-wise standard uncertainties
         if calcP:
             P[:, index] = sp.stats.mstats.mquantiles(np.asarray(Y), prob=Perc)
 
-        if np.mod(index, np.round(0.1 * len(x))) == 0:
+        if np.mod(index, np.ceil(0.1 * len(x))) == 0:
             print(" %d%%" % (np.round(100.0 * index / len(x))), end="")
 
     print(" 100%")
 
+    if return_samples:
+        return np.roll(Ysamples, int(shift), axis=1)
+
     # Correct for (known) delay.
     y = np.roll(y, int(shift))
     Uy = np.roll(Uy, int(shift))
-- 
2.43.0


From 9fe8817090d31d1313f56eb84932aec978f5660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 18/40] fix: count results below a zero-width initial range in
 the first bin

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 564df63..3a17614 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -733,8 +733,8 @@ def _UMC_blockwise(
         for k in range(np.prod(output_shape)):
             for h in happr.values():
                 # values outside of the initial limits are counted in the outermost bins
-                e = h["bin-edges"][:,k]
-                h["bin-counts"][:,k] += np.histogram(np.clip(Y[:,k], e[0], e[-1]), bins=e)[0]  # numpy histogram returns (bin-counts, bin-edges)
+                e = np.concatenate(([-np.inf], h["bin-edges"][1:-1,k], [np.inf]))
+                h["bin-counts"][:,k] += np.histogram(Y[:,k], bins=e)[0]  # numpy histogram returns (bin-counts, bin-edges)
 
         ymin = np.min(np.vstack((ymin, Y)), axis=0)
         ymax = np.max(np.vstack((ymax, Y)), axis=0)
-- 
2.43.0


From ebcfb0b2642cb9145ab23bcb09ac2e03c8bf7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 19/40] fix: propagate to the reciprocal itself instead of its
 conjugate in invLSFIR_unc

---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 7a0bc7e..8a8edbf 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -368,11 +368,11 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Vectorized Monte Carlo for propagation to inverse
     absHMC = HRI[:, :Nf] ** 2 + HRI[:, Nf:] ** 2
-    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) +
+    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) -
                        HRI[:, Nf:] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC,
-                      (HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) -
-                       HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
+                      -(HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) +
+                        HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC))
     UiH = np.cov(HiMC, rowvar=False)
 
-- 
2.43.0


From d94b3ac95a2f8d9d74892723d35c33799a39d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 20/40] fix: enable user-defined weights in invLSFIR_unc

---
 PyDynamic/model_estimation/fit_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 8a8edbf..306ebd7 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -378,7 +378,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Step 2: Fit filter coefficients and evaluate uncertainties
     if isinstance(wt, np.ndarray):
-        if wt.shape != np.diag(UiH).shape[0]:
+        if wt.shape != np.diag(UiH).shape:
             raise ValueError("User-defined weighting has wrong dimension.")
     else:
         wt = np.ones(2 * Nf)
@@ -397,6 +397,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     StSInv[s > 0] = s[s > 0] ** (-2)
 
     M = np.dot(np.dot(np.dot(v.T, np.diag(StSInv)), np.diag(s)), u.T)
+    M = np.dot(M, np.diag(wt))  # the weights apply to both sides of the fit
 
     bFIR = np.dot(M, Hri[:, np.newaxis])  # actual fitting
     UbFIR = np.dot(np.dot(M, UiH), M.T)  # evaluation of uncertainties
-- 
2.43.0


From 4f826ed604b790f2230e0c494b7f51fe24611f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 21/40] fix: use the derivatives of the damping parameter in
 the linear propagation of fit_som

---
 PyDynamic/model_estimation/fit_transfer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 4df7a06..23026fe 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -154,9 +154,9 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
                 [
                     [-1 / mu[0] ** 2, 0, 0],
                     [
-                        -mu[1] / (2 * (np.abs(mu[0] + mu[2])) ** (3 / 2)),
-                        1 / np.sqrt(np.abs(mu[0] + mu[2])),
-                        -mu[1] / (2 * np.abs(mu[0] + mu[2]) ** (3 / 2)),
+                        -mu[1] / (2 * mu[0] * np.sqrt(np.abs(mu[0] * mu[2]))),
+                        1 / np.sqrt(np.abs(mu[0] * mu[2])),
+                        -mu[1] / (2 * mu[2] * np.sqrt(np.abs(mu[0] * mu[2]))),
                     ],
                     [
                         1 / (4 * np.pi * mu[2] * np.sqrt(np.abs(mu[0] / mu[2]))),
-- 
2.43.0


From 64025c50e92d23bb78e78514f1ab07a7c1c119ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 22/40] fix: generate noise in corr_noise.calc_noise with the
 covariance that calc_cov states

---
 PyDynamic/misc/testsignals.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 14206fb..1720c06 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -18,7 +18,7 @@ This module contains the following functions:
 import itertools
 
 import numpy as np
-from numpy import diff, sqrt, sum, array, corrcoef
+from numpy import sqrt, sum, array, corrcoef
 from scipy.signal import periodogram
 from scipy.special import comb
 
@@ -225,15 +225,9 @@ class corr_noise(object):
 
     def calc_noise(self, N=100):
         z = self.rst.randn(N + 4)
-        noise = (
-            diff(
-                diff(
-                    diff(diff(z * self.w ** 4) - 4 * z[1:] * self.w ** 3)
-                    + 6 * z[2:] * self.w ** 2
-                )
-                - 4 * z[3:] * self.w
-            )
-            + z[4:]
+        # moving average process (1 + w B)^4 z with backshift operator B, cf. calc_cov
+        noise = sum(
+            [comb(4, l) * self.w ** l * z[4 - l:N + 4 - l] for l in range(5)], axis=0
         )
         self.Cw = sqrt(sum([comb(4, l) ** 2 * self.w ** (2 * l) for l in range(5)]))
         self.noise = noise * self.sigma / self.Cw
-- 
2.43.0


From 3cfca61c9e2913993a1f14447758433c46c13d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 23/40] fix: accept FIR filters with a single coefficient

---
 PyDynamic/uncertainty/propagate_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index e7c9fe4..3877ded 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -86,8 +86,9 @@ def _fir_filter(x, theta, Ux=None, Utheta=None, initial_conditions="constant"):
             f"However, only 'zero' or 'constant' are currently supported."
         )
 
-    # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    # propagate filter, a single coefficient has no internal state
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy = np.zeros((len(x), len(x)))
@@ -188,8 +189,9 @@ def _fir_filter_diag(
             f"However, only 'zero' or 'constant' are currently supported."
         )
 
-    # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    # propagate filter, a single coefficient has no internal state
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy_diag = np.zeros(len(x))
-- 
2.43.0


From 5cfc9a88f61787cbec080efa0a76e22e4e4c88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 24/40] fix: sensitivity of the real part to the imaginary part
 of H in DFT_deconv

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index d19e458..477bd42 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1004,7 +1004,7 @@ def DFT_deconv(
     IY = np.r_[-iH / norm, rH / norm]
     RH = np.r_[
         (-rY * rH ** 2 + rY * iH ** 2 - 2 * iY * iH * rH) / norm ** 2,
-        (iY * rH ** 2 - iH * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
+        (iY * rH ** 2 - iY * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
     ]
     IH = np.r_[
         (-iY * rH ** 2 + iY * iH ** 2 + 2 * rY * iH * rH) / norm ** 2,
-- 
2.43.0


From 76cff345fcd59380052efc385b5a5509b19edb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 25/40] fix: Signal.apply_filter did nothing for IIR filters if
 MonteCarloRuns was given

---
 PyDynamic/signals.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 13d398c..e2769da 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -156,11 +156,11 @@ class Signal:
         else:  # IIR-type filter
             if not isinstance(MonteCarloRuns, int):
                 MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
-                    self.values,
-                    self.uncertainty,
-                    b,
-                    a,
-                    Uab,
-                    runs=MonteCarloRuns,
-                )
+            self.values, self.uncertainty = MC(
+                self.values,
+                self.uncertainty,
+                b,
+                a,
+                Uab,
+                runs=MonteCarloRuns,
+            )
-- 
2.43.0


From 915f03648979185e86377aea35d3b4b450ab47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 26/40] fix: Signal had no sampling frequency or interval
 unless Ts was a float given alone

---
 PyDynamic/signals.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index e2769da..9422ca3 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -35,11 +35,13 @@ class Signal:
         if (Ts is None) and (Fs is None):
             self.Ts = np.unique(np.diff(self.time)).mean()
             self.Fs = 1 / self.Ts
-        elif isinstance(Ts, float):
+        elif Ts is None:
+            self.Fs = Fs
+            self.Ts = 1 / Fs
+        else:
             self.Ts = Ts
-            if Fs is None:
-                self.Fs = 1 / Ts
-            else:
+            self.Fs = 1 / Ts
+            if Fs is not None:
                 assert np.abs(Fs * self.Ts - 1) < 1e-5, (
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
-- 
2.43.0


From f8e2b7b19a14f8277568cf0b50308e400ca23a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 27/40] fix: Signal ignored an integer uncertainty

---
 PyDynamic/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 9422ca3..f159064 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -46,7 +46,7 @@ class Signal:
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
         # set initial uncertainty
-        if isinstance(uncertainty, float):
+        if isinstance(uncertainty, (int, float)):
             self.uncertainty = np.ones_like(values) * uncertainty
         elif isinstance(uncertainty, np.ndarray):
             uncertainty = uncertainty.squeeze()
-- 
2.43.0


From c94a7d1a255da338b37caee2487e316d8d4b9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 28/40] fix: FIRuncFilter truncated the uncertainty of
 integer-valued signals

---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 3877ded..bfbc698 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -340,14 +340,14 @@ def FIRuncFilter(
     ):
 
         if isinstance(sigma_noise, float):
-            Uy_diag = np.full_like(y, sigma_noise ** 2)
+            Uy_diag = np.full(len(y), sigma_noise ** 2)
         elif isinstance(sigma_noise, np.ndarray):
             Uy_diag = np.square(sigma_noise)
         else:
             Uy_diag = sigma_noise
 
         if isinstance(Utheta, float):
-            Utheta_diag = np.full_like(theta, Utheta)
+            Utheta_diag = np.full(len(theta), Utheta)
         elif isinstance(Utheta, np.ndarray):
             Utheta_diag = np.square(Utheta)
         else:
-- 
2.43.0


From 306aade3429ed8cb597f08b37d9bd8e6e370c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 29/40] fix: FIRuncFilter raised for coefficient-wise
 uncertainties with correlated noise, low-pass or full covariance

---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index bfbc698..680045a 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -390,6 +390,10 @@ def FIRuncFilter(
                 "Unsupported value of sigma_noise. Please check the documentation."
             )
 
+        # coefficient-wise standard uncertainties
+        if isinstance(Utheta, np.ndarray) and len(Utheta.shape) == 1:
+            Utheta = np.diag(np.square(Utheta))
+
         # filter operation(s)
         if isinstance(blow, np.ndarray):
             # apply (fully certain) lowpass-filter
-- 
2.43.0


From 26fbc20235a2cfdc7bec1ea9954d69486bc9b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 30/40] fix: squarepulse and multi_sine raised for integer time
 vectors

---
 PyDynamic/misc/testsignals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 1720c06..4acddc9 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -155,7 +155,7 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
             signal amplitude at time instants
     """
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
-    x = np.zeros_like(time)
+    x = np.zeros_like(time, dtype=float)
     for k in range(numpulse):
         x += rect(time, (2 * k + 1) * width, (2 * k + 2) * width, height)
     if noise > 0:
@@ -208,7 +208,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
             signal amplitude at time instants
     """
 
-    x = np.zeros_like(time)
+    x = np.zeros_like(time, dtype=float)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
     x += np.random.randn(len(x)) * noise
-- 
2.43.0


From 2c250eb902b0969113710c477a699ce4f99cb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 31/40] fix: FIRuncFilter shifted the covariance matrix along
 the wrong axes

---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 680045a..80292c6 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -411,7 +411,7 @@ def FIRuncFilter(
         # shift result
         if shift != 0:
             x = np.roll(x, -int(shift))
-            Ux = np.roll(Ux, (-int(shift), -int(shift)))
+            Ux = np.roll(Ux, (-int(shift), -int(shift)), axis=(0, 1))
 
         if return_full_covariance:
             return x, Ux
-- 
2.43.0


From d4404b5b22dadeddf7c3d6fa3e628fc377850244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 32/40] fix: GUM_DFT raised for a window together with a vector
 of squared uncertainties

---
 PyDynamic/uncertainty/propagate_DFT.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 477bd42..aa373cb 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -64,14 +64,15 @@ def _apply_window(
     ----------
     x : np.ndarray of shape (N, )
         vector of time domain signal values
-    Ux : np.ndarray of shape (N, N) or float
-        covariance matrix associated with x or noise variance as float
+    Ux : np.ndarray of shape (N, N) or of shape (N, ) or float
+        covariance matrix associated with x, or vector of squared standard
+        uncertainties, or noise variance as float
     window : np.ndarray of shape (N, )
         vector of time domain window (same length as x)
 
     Returns
     -------
-    xw, Uxw : np.ndarray of shape (N, ) and (N, N)
+    xw, Uxw : np.ndarray of shape (N, ) and (N, N) or (N, )
         transformed signal and associated uncertainties
 
     Raises
@@ -81,9 +82,9 @@ def _apply_window(
     """
     assert len(x) == len(window)
     if not isinstance(Ux, float):
-        assert Ux.shape[0] == Ux.shape[1] and Ux.shape[0] == len(x)
+        assert all(dim == len(x) for dim in Ux.shape)
     xw = x.copy() * window
-    if isinstance(Ux, float):
+    if isinstance(Ux, float) or len(Ux.shape) == 1:
         Uxw = Ux * window ** 2
     else:
         Uxw = _prod(window, _prod(Ux, window))
-- 
2.43.0


From 63874d3f1487c4b581ca83c089cb576c6346d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 33/40] fix: covariances of time domain values in GUM_iDFT and
 AmpPhase2Time

The contribution of the correlation between real and imaginary parts (or
amplitudes and phases) was added twice instead of once and once transposed,
thus only the variances were correct and the matrix was not symmetric.
---
 PyDynamic/uncertainty/propagate_DFT.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index aa373cb..2efbdab 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -442,7 +442,8 @@ def GUM_iDFT(
         II = UF[N // 2 + 1 :, N // 2 + 1 :]
         # propagate uncertainties
         Ux = np.dot(Cc, np.dot(RR, Cc.T))
-        Ux = Ux + 2 * np.dot(Cc, np.dot(RI, Cs.T))
+        UxCS = np.dot(Cc, np.dot(RI, Cs.T))
+        Ux = Ux + UxCS + UxCS.T
         Ux = Ux + np.dot(Cs, np.dot(II, Cs.T))
     else:
         RR = UF[: N // 2 + 1]
@@ -869,9 +870,11 @@ def AmpPhase2Time(
             AA = diags[0][:n]
             AP = diags[1][offset[1] : nrows + offset[1]]
             PP = diags[0][n:]
+            UxAP = np.dot(Cc, _prod(AP, Cs.T))
             Ux = (
                 np.dot(Cc, _prod(AA, Cc.T))
-                + 2 * np.dot(Cc, _prod(AP, Cs.T))
+                + UxAP
+                + UxAP.T
                 + np.dot(Cs, _prod(PP, Cs.T))
             )
         else:
@@ -879,9 +882,11 @@ def AmpPhase2Time(
             AP = UAP[: N // 2 + 1, N // 2 + 1 :]
             PP = UAP[N // 2 + 1 :, N // 2 + 1 :]
             # propagate uncertainties
+            UxAP = np.dot(Cc, np.dot(AP, Cs.T))
             Ux = (
                 np.dot(Cc, np.dot(AA, Cc.T))
-                + 2 * np.dot(Cc, np.dot(AP, Cs.T))
+                + UxAP
+                + UxAP.T
                 + np.dot(Cs, np.dot(PP, Cs.T))
             )
 
-- 
2.43.0


From a08643a610455bc061761710bea4f8dd36561f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 34/40] fix: covariance of real and imaginary parts in
 AmpPhase2DFT for sparse UAP

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 2efbdab..e8a5861 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -675,7 +675,7 @@ def AmpPhase2DFT(
             Upp = diags[0][N:]
 
             U11 = Uaa * CRA ** 2 + CRP * Uap * CRA + CRA * Uap * CRP + Upp * CRP ** 2
-            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIA + CRP * Upp * CIP
+            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIP + CRP * Upp * CIP
             U22 = Uaa * CIA ** 2 + CIP * Uap * CIA + CIA * Uap * CIP + Upp * CIP ** 2
 
             UF = sparse.diags(
-- 
2.43.0


From cc899754dafe8ba179ea5c326baf9575bee97848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 35/40] fix: DFT_multiply returned no covariance matrix for
 vectors of squared uncertainties

---
 PyDynamic/uncertainty/propagate_DFT.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index e8a5861..59ea570 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1082,15 +1082,15 @@ def DFT_multiply(
         RA = A[: n // 2]
         IA = A[n // 2 :]
         if isinstance(UB, float):  # simpler calculation if only single uncertainty
-            uRR = RA * UB * RA + IA * UB * IA
-            uRI = RA * UB * IA - IA * UB * RA
-            uII = IA * UB * IA + RA * UB * RA
+            uRR = np.diag(RA * UB * RA + IA * UB * IA)
+            uRI = np.diag(RA * UB * IA - IA * UB * RA)
+            uII = np.diag(IA * UB * IA + RA * UB * RA)
         elif len(UB.shape) == 1:  # simpler calculation if no correlation
             UBRR = UB[: n // 2]
             UBII = UB[n // 2 :]
-            uRR = RA * UBRR * RA + IA * UBII * IA
-            uRI = RA * UBRR * IA - IA * UBII * RA
-            uII = IA * UBRR * IA + RA * UBII * RA
+            uRR = np.diag(RA * UBRR * RA + IA * UBII * IA)
+            uRI = np.diag(RA * UBRR * IA - IA * UBII * RA)
+            uII = np.diag(IA * UBRR * IA + RA * UBII * RA)
         else:  # full calculation because of full input covariance
             UBRR = UB[: n // 2, : n // 2]
             UBRI = UB[: n // 2, n // 2 :]
-- 
2.43.0


From 31502a6da03c45b4a50a661eb40c5f01a569a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 36/40] fix: interp1d_unc raised an error for
 fill_value="extrapolate" unless bounds_error=False

---
 PyDynamic/uncertainty/interpolate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index ccb0267..078401e 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -166,6 +166,8 @@ def interp1d_unc(
         # respectively but handle those cases separately.
         if fill_value == "extrapolate":
             fill_value = y[0], y[-1]
+            # SciPy would raise an error if we did not decide explicitly.
+            interp1d_params["bounds_error"] = False
 
         if fill_unc == "extrapolate":
             fill_unc = uy[0], uy[-1]
-- 
2.43.0


From e63daf17812f4c7c51c6fcc6e965ff5e2ca8fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 37/40] fix: columns of the sensitivity matrix of interp1d_unc
 for unsorted timestamps

---
 PyDynamic/uncertainty/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 078401e..3bdda1e 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -311,6 +311,9 @@ def interp1d_unc(
         )
 
     if returnC:
+        if not assume_sorted:
+            # Columns shall belong to the values in the order they were provided in.
+            C[:, ind] = C.copy()
         return t_new, y_new, uy_new, C
     return t_new, y_new, uy_new
 
-- 
2.43.0


From 537ce910d0bfcbf9bbc8bcd75bf788a96326d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 38/40] fix: interp1d_unc raised for integer fill_unc and for
 t_new given as list

---
 PyDynamic/uncertainty/interpolate.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 3bdda1e..eb23579 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -132,6 +132,7 @@ def interp1d_unc(
     # This is taken from the class scipy.interpolate.interp1d to copy and sort the
     # arrays in case that is requested and of course extended by the uncertainties.
     # ----------------------------------------------------------------------------------
+    t_new = np.asarray(t_new)
     t = np.array(t, copy=copy)
     y = np.array(y, copy=copy)
     uy = np.array(uy, copy=copy)
@@ -221,14 +222,14 @@ def interp1d_unc(
 
         # If extrapolation is needed, fill in the values provided via fill_unc.
         if np.any(extrap_range):
-            # At this point fill_unc is either a float (np.nan is a float as well) or
-            # a 2-tuple of floats. In case we have one float we set uy_new to this value
-            # inside the extrapolation range.
-            if isinstance(fill_unc, float):
-                uy_new[extrap_range] = fill_unc
-            else:
-                # Now fill_unc should be a 2-tuple, which we can fill into uy_new.
+            # At this point fill_unc is either a number (np.nan is a float) or a
+            # 2-tuple of numbers, which we can fill into uy_new.
+            if isinstance(fill_unc, tuple):
                 uy_new[extrap_range_below], uy_new[extrap_range_above] = fill_unc
+            else:
+                # In case we have one number we set uy_new to this value inside the
+                # extrapolation range.
+                uy_new[extrap_range] = fill_unc
 
             if returnC:
                 # In each row of C corresponding to an extrapolation value below the
-- 
2.43.0


From 2ecbfad0533e1ea1d9cd98ef7c4fedd56577c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 39/40] fix: keep fractions when multiplying integer covariance
 matrices with vectors in the DFT module

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 59ea570..55ccb87 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -114,12 +114,12 @@ def _prod(A: np.ndarray, B: np.ndarray) -> np.ndarray:
         If the dimensions of A and B do not match.
     """
     if len(A.shape) == 1 and len(B.shape) == 2:  # A is the vector and B the matrix
-        C = np.zeros_like(B)
+        C = np.zeros(B.shape, dtype=np.result_type(A, B))
         for k in range(C.shape[0]):
             C[k, :] = A[k] * B[k, :]
         return C
     elif len(A.shape) == 2 and len(B.shape) == 1:  # A is the matrix and B the vector
-        C = np.zeros_like(A)
+        C = np.zeros(A.shape, dtype=np.result_type(A, B))
         for k in range(C.shape[1]):
             C[:, k] = A[:, k] * B[k]
         return C
-- 
2.43.0


From c04d4bd84e5bd6fd309b48aed60b0286722c2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 40/40] fix: do not end a block silently if evaluate raises
 StopIteration in UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 3a17614..473ea17 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -634,8 +634,12 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # this allows to circumvent a multiprocessing-problem on windows-machines
     # see: https://github.com/PTB-PSt1/PyDynamic/issues/84
     if n_cpu == 1:
+        # a StopIteration of evaluate would silently end the built-in map, a generator raises
+        def map_func(func, samples):
+            return (func(sample) for sample in samples)
+
         return _UMC_blockwise(
-            map, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
+            map_func, draw_samples, evaluate, runs, blocksize, runs_init, nbins, return_samples
         )
 
     # leaving the context releases the workers; map keeps the order of the samples and
-- 
2.43.0

