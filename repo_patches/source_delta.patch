From d6bceb5fe0faa1b0faa3757062e43dbda9581133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 01/64] fix: return a private matrix from sparse
 EcorrKernelNoise

The cached result of get_ndiag was the shared template matrix, which the
next evaluation overwrites, so revisiting a parameter point returned the
wrong noise covariance.
---
 enterprise/signals/white_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..8bba372 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -268,7 +268,8 @@ def EcorrKernelNoise(
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
                         self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+            # return a copy: the template is updated in place by the next call
+            return self._Ns.copy()
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 8d422916e9d2897fb08a36331993e805df87dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 02/64] fix: do not share the delay vector in
 PhysicalEphemerisSignal

get_delay returned (and cached) one buffer that the next evaluation
overwrites.
---
 enterprise/signals/deterministic_signals.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..c778a04 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -190,18 +190,16 @@ def PhysicalEphemerisSignal(
                 pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
-            # initialize delay
-            self._delay = np.zeros(len(psr.toas))
-
         # this defaults to all parameters
         @signal_base.cache_call("delay_params")
         def get_delay(self, params):
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                ret = np.zeros(self._ntoas)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    ret[slc] = val
+                return ret
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From 503fc5d96dc19ff879dbf02bda731aa7236cf090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 03/64] fix: keep BasisGP state intact if a basis function
 raises

The labels were cleared before the basis functions were evaluated, so
after an exception the (cached) previous basis was used without labels.
---
 enterprise/signals/gp_signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..5c7efc4 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -95,9 +95,12 @@ def BasisGP(
         # than the last time
         @signal_base.cache_call("basis_params", limit=1)
         def _construct_basis(self, params={}):
-            basis, self._labels = {}, {}
+            # do not touch the current state if one of the bases fails
+            basis, labels = {}, {}
             for key, mask in zip(self._keys, self._masks):
-                basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
+                basis[key], labels[key] = self._bases[key](params=params, mask=mask)
+
+            self._labels = labels
 
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
-- 
2.43.0


From 3565fa14ca75742db411c0834796d3e9cfd314c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 04/64] fix: sample shared hyperparameters once

parameter.sample drew hyperparameters again for every dependent (and for
every appearance in the list), so that the returned values were not the
ones used to draw their dependents.
---
 enterprise/signals/parameter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..a846061 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,9 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
+        if par.name not in parvalues:
             # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From 6199424d04128404f302521fdee5d99e5671c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 05/64] fix: accept a list of modes in
 createfourierdesignmatrix_red

The documentation allows a list or array, but a list raised TypeError.
---
 enterprise/signals/gp_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..bff45b1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -49,7 +49,7 @@ def createfourierdesignmatrix_red(
     # define sampling frequencies
     if modes is not None:
         nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From de2c7a933e8fe015faeb234f35379e48f16034f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 06/64] fix: hd_orf returned NaN for nearly coincident pulsars

The dot product of unit vectors may exceed one by rounding; use the
zero-separation limit then.
---
 enterprise/signals/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..9c68253 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -849,6 +849,11 @@ def hd_orf(pos1, pos2):
         return 1
     else:
         omc2 = (1 - np.dot(pos1, pos2)) / 2
+
+        # (nearly) coincident directions: rounding may leave omc2 <= 0
+        if omc2 <= 0:
+            return 0.5
+
         return 1.5 * omc2 * np.log(omc2) - 0.25 * omc2 + 0.5
 
 
-- 
2.43.0


From ba094b57e23999cc439ce93fa12dd59e744510a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 07/64] fix: keep array shapes in BlockMatrix.solve

A one-column operand was squeezed to a vector or a float, which broke the
likelihood (block ECORR with a single basis column).
---
 enterprise/signals/signal_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..9ff4ae4 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1183,7 +1183,7 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        return ZNX
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
@@ -1198,7 +1198,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
@@ -1226,8 +1226,10 @@ class BlockMatrix(object):
 
         if left_array is not None:
             ret = self._solve_ZNX(other, left_array)
+            ret = ret.reshape(left_array.shape[1:] + other.shape[1:])
+            ret = ret if ret.ndim > 0 else float(ret)
         else:
-            ret = self._solve_NX(other)
+            ret = self._solve_NX(other).reshape(other.shape)
 
         return (ret, self._get_logdet()) if logdet else ret
 
-- 
2.43.0


From f2ed27baa97955b8dd86245c955416fa9a203a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 08/64] fix: do not corrupt caches when a cached method raises

The key was entered in the eviction list before the method was called; after
an exception the list and the cache disagreed, the one-entry caches of
methods with side effects held two entries, and stale bases were used.
---
 enterprise/signals/signal_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 9ff4ae4..b66d79d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1055,8 +1055,9 @@ def cache_call(attrs, limit=2):
                 msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
 
-                cache_list.append(key)
+                # if func raises, the cache must not be touched
                 cache[key] = func(self, params)
+                cache_list.append(key)
 
                 if len(cache_list) > limit:
                     _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
-- 
2.43.0


From e237513f0ec30038f16ba6483233b4620ca37340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 09/64] fix: keep BasisGP state intact if the basis has a bad
 shape

Completes the earlier change: assign the new basis, labels and slices only
once all of them have been computed.
---
 enterprise/signals/gp_signals.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 5c7efc4..82aec77 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -100,23 +100,23 @@ def BasisGP(
             for key, mask in zip(self._keys, self._masks):
                 basis[key], labels[key] = self._bases[key](params=params, mask=mask)
 
-            self._labels = labels
-
             nc = sum(F.shape[1] for F in basis.values())
-            self._basis = np.zeros((len(self._masks[0]), nc))
-
-            # TODO: should this be defined here? it will cache phi
-            self._phi = KernelMatrix(nc)
+            fullbasis = np.zeros((len(self._masks[0]), nc))
 
-            self._slices = {}
+            slices = {}
             nctot = 0
             for key, mask in zip(self._keys, self._masks):
                 Fmat = basis[key]
                 nn = Fmat.shape[1]
-                self._basis[mask, nctot : nn + nctot] = Fmat
-                self._slices.update({key: slice(nctot, nn + nctot)})
+                fullbasis[mask, nctot : nn + nctot] = Fmat
+                slices.update({key: slice(nctot, nn + nctot)})
                 nctot += nn
 
+            self._basis, self._labels, self._slices = fullbasis, labels, slices
+
+            # TODO: should this be defined here? it will cache phi
+            self._phi = KernelMatrix(nc)
+
         # this class does different things (and gets different method
         # definitions) if the user wants it to model GP coefficients
         # (e.g., for a hierarchical likelihood) or if they do not
-- 
2.43.0


From 5eb283d3a649eddf5362c74219c77f1a73b573c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 10/64] fix: combine basis columns correctly next to a varying
 basis

The position in the list of hashes was taken for the column number, which
is wrong once a basis with varying parameters (not hashed) precedes: columns
were merged into the wrong ones.
---
 enterprise/signals/signal_base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index b66d79d..4ef0622 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -884,7 +884,7 @@ def SignalCollection(metasignals):  # noqa: C901
             matrix to save computations when calling `get_basis` later.
             """
 
-            idx, hashlist, cc, nrow = {}, [], 0, None
+            idx, hashdict, cc, nrow = {}, {}, 0, None
             for signal in signals:
                 Fmat = signal.get_basis()
 
@@ -897,18 +897,17 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            if signal.basis_combine and colhash in hashdict:
                                 # if we're combining the basis for this signal
                                 # and we have seen this column already, make a note
                                 # of where it was
 
-                                j = hashlist.index(colhash)
-                                idx[signal].append(j)
+                                idx[signal].append(hashdict[colhash])
                             else:
                                 # if we're not combining or we haven't seen it already
                                 # save the hash and make a note it's new
 
-                                hashlist.append(colhash)
+                                hashdict.setdefault(colhash, cc)
                                 idx[signal].append(cc)
                                 cc += 1
                     elif signal.basis_params:
-- 
2.43.0


From cea7090dff0a90a69f9827699968debaa6580899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 11/64] fix: do not merge repeated columns of one signal

When a signal's own basis contains the same column twice, adding its prior to
the combined Phi by fancy indexing kept only one of the two variances.
---
 enterprise/signals/signal_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 4ef0622..e029721 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -897,10 +897,11 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashdict:
+                            if signal.basis_combine and hashdict.get(colhash, None) not in [None] + idx[signal]:
                                 # if we're combining the basis for this signal
                                 # and we have seen this column already, make a note
-                                # of where it was
+                                # of where it was (but do not use the same column
+                                # twice for this signal, because its priors could not be added)
 
                                 idx[signal].append(hashdict[colhash])
                             else:
-- 
2.43.0


From 28f2038c57e3ab59c18a0bbcbcc5cf5dd2bee58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 12/64] fix: support ECORR for data without multi-TOA epochs

With no epoch of two or more TOAs the default and block kernels and the basis
model raised an exception instead of adding no correlated noise.
---
 enterprise/signals/signal_base.py   | 6 +++---
 enterprise/signals/white_signals.py | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index e029721..906a3c8 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -920,7 +920,7 @@ def SignalCollection(metasignals):  # noqa: C901
                 return {}, None
             else:
                 ncol = len(np.unique(sum(idx.values(), [])))
-                return ({key: np.array(idx[key]) for key in idx.keys()}, np.zeros((nrow, ncol)))
+                return ({key: np.array(idx[key], dtype=int) for key in idx.keys()}, np.zeros((nrow, ncol)))
 
         # goofy way to cache _idx
         def __getattr__(self, par):
@@ -1143,9 +1143,9 @@ class BlockMatrix(object):
 
         if np.any(nvec != 0):
             s1 = set(np.arange(len(nvec)))
-            s2 = set(np.concatenate([np.arange(len(nvec))[slc] for slc in slices]))
+            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
             sd = s1.difference(s2)
-            self._idx = np.array([s for s in sd])
+            self._idx = np.array([s for s in sd], dtype=int)
 
     def __add__(self, other):
         nvec = self._nvec + other
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 8bba372..b8abd56 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -277,6 +277,9 @@ def EcorrKernelNoise(
 
         def _get_ndiag_fast_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
+            # the fast version cannot handle data without multi-TOA epochs
+            if not slices:
+                return signal_base.ShermanMorrison(jvec, slices)
             return fastshermanmorrison.FastShermanMorrison(jvec, slices)
 
         def _get_ndiag_block(self, params):
-- 
2.43.0


From ffa780e6157a8bea78216b0453a35a2ab4815ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 13/64] fix: refresh GP-coefficient delays when basis
 parameters change

The delay of a coefficients=True process was cached by coefficients only, so
a varying basis was ignored by the pulsar's residuals.
---
 enterprise/signals/gp_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 82aec77..ec070a1 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -138,7 +138,8 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay depends also on the (possibly varying) basis
+                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -360,7 +361,8 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay depends also on the (possibly varying) basis
+                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 085b70f63a4c776f329f927534735086e9b82e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 14/64] fix: include common processes in single-pulsar
 get_coefficients

A common signal present in one pulsar only was skipped when the coefficient
vector was split, so the following signals got the wrong coefficients.
---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 9c68253..bcdcd38 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -207,7 +207,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From 286e61d277a9ff143a3eaa077c477c5db5a27f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 15/64] fix: undo the Cholesky permutation in get_coefficients

With common_sparse=True the draws had the covariance of the wrong
coefficients, because CHOLMOD factorizes a permuted matrix.
---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index bcdcd38..d60e1f7 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -153,7 +153,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # the factorization is that of the permuted matrix, P Sigma P^T = L L^T
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From 38e7d172ab8414f019915e380efeaba346848112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 16/64] fix: correlated likelihood with pulsars that have no
 basis

The None entries of such pulsars were passed on to block_diag and concatenate.
---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 906a3c8..de0e2d2 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -184,6 +184,9 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNT(self, TNTs):
+        # some pulsars may have no basis
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if self.cholesky_sparse:
             return sps.block_diag(TNTs, "csc")
         else:
@@ -191,7 +194,7 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNr(self, TNrs):
-        return np.concatenate(TNrs)
+        return np.concatenate([TNr for TNr in TNrs if TNr is not None])
 
     def __call__(self, xs, phiinv_method="cliques"):
         # map parameter vector if needed
-- 
2.43.0


From ffe37b677be93e0eb236f701afc698e19966e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 17/64] fix: conditional GP coefficients with pulsars that have
 no basis

Such pulsars contribute no coefficients, but made ConditionalGP and
get_coefficients raise.
---
 enterprise/signals/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d60e1f7..060a2c7 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -55,8 +55,9 @@ class ConditionalGP:
         # TO DO: all this could be more efficient
         #        also it's unclear if it works with MarginalizingTimingModel
         if self.pta._commonsignals:
-            TNr = np.concatenate(TNrs)
-            Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
+            # some pulsars may have no basis
+            TNr = np.concatenate([TNr for TNr in TNrs if TNr is not None])
+            Sigma = sps.block_diag([TNT for TNT in TNTs if TNT is not None], "csc") + sps.csc_matrix(phiinvs)
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
@@ -65,6 +66,9 @@ class ConditionalGP:
         else:
             mns, chs = [], []
             for TNr, TNT, phiinv in zip(TNrs, TNTs, phiinvs):
+                if TNr is None:
+                    continue
+
                 Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
                 ch = sl.cho_factor(Sigma, lower=True)
@@ -147,6 +151,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # some pulsars may have no basis
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -190,6 +198,11 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            if d is None:
+                for j in range(len(ret), n):
+                    ret.append(params.copy())
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
-- 
2.43.0


From 09410206df6180f820c6eb5a9ddb7ed524c5fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 18/64] fix: set_default_params takes effect after the first
 evaluation

The caches are keyed by the varying parameters only, so that values computed
with the previous constants were returned.
---
 enterprise/signals/signal_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index de0e2d2..bab3b59 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -877,6 +877,15 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
+            # cached results may depend on the constants
+            for instance in [self] + self._signals:
+                for attr in [attr for attr in instance.__dict__ if attr.startswith("_cache_")]:
+                    del instance.__dict__[attr]
+
+            # ...and so may the identification of common basis columns
+            for attr in ("_idx", "_Fmat"):
+                self.__dict__.pop(attr, None)
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From 8a465a2c928e9dcbf8742e614a07bb1f162544c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 19/64] fix: hypercube transform with hierarchical priors

The PPFs of parameters with hyperparameters were evaluated with the unit-cube
coordinates of the hyperparameters instead of their values.
---
 enterprise/signals/signal_base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index bab3b59..689a66d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -699,7 +699,19 @@ class PTA(object):
         # map parameter vector if needed
         params = params if isinstance(params, dict) else self.map_params(params)
 
-        return np.hstack([p.get_ppf(params=params) for p in self.params])
+        # hyperparameters must be transformed first, since the PPFs of their dependents need their values
+        ret = {}
+
+        def transform(par):
+            if par.name not in ret:
+                for hyperpar in par.params[1:]:
+                    transform(hyperpar)
+
+                ret[par.name] = par.get_ppf(params[par.name], params=ret)
+
+            return ret[par.name]
+
+        return np.hstack([transform(p) for p in self.params])
 
     def _set_signal_dict(self):
         """Set signal dictionary"""
-- 
2.43.0


From 38419824ebd03128e19799f9b3fd9b17b64ea883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 20/64] fix: save pulsars to feather files

save_feather looked up metadata and to_list on Pulsar, which is a function, and
required the private _toas attribute that loaded pulsars do not have.
---
 enterprise/pulsar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..7404a29 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -731,8 +731,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
+        pydict["toas"] = pydict["toas"].astype(float)
 
         pydict.update(
             {
@@ -754,9 +754,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From 0d344ffed90c3782c9dd2587f8285e99ff79e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 21/64] fix: filter all pulsar data consistently in filter_data

Site TOAs, telescopes, Sun and pulsar positions were not filtered, planet
positions were filtered with a mask for another ordering, columns with zero
sum were dropped, parameter names were kept for dropped columns, and a
one-sided window raised TypeError.
---
 enterprise/pulsar.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 7404a29..8a44813 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,19 +137,22 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask = np.logical_and(mask, self._toas >= start_time * 86400)
+        if end_time is not None:
+            mask = np.logical_and(mask, self._toas <= end_time * 86400)
 
         self._toas = self._toas[mask]
+        self._stoas = self._stoas[mask]
         self._toaerrs = self._toaerrs[mask]
         self._residuals = self._residuals[mask]
         self._ssbfreqs = self._ssbfreqs[mask]
 
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
@@ -157,8 +160,14 @@ class BasePulsar(object):
             for key in self._flags:
                 self._flags[key] = self._flags[key][mask]
 
+        self._telescope = self._telescope[mask]
+        self._pos_t = self._pos_t[mask, :]
+
+        # the mask refers to the unsorted arrays
         if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
+            self._planetssb = self._planetssb[mask, :, :]
+        if self._sunssb is not None:
+            self._sunssb = self._sunssb[mask, :]
 
         self.sort_data()
 
-- 
2.43.0


From 2c18175b351c6337758e9d00b555f6924ec3d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 22/64] fix: do not truncate fe_be backend flags

The result was allocated with the width of the widest single flag, so that
combined frontend_backend names lost their end and backends were merged.
---
 enterprise/pulsar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 8a44813..4a0b02a 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -281,14 +281,20 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
+        # combined flag, wider than its parts
+        if "fe" in flagnames and "be" in flagnames:
+            febe = [np.array([(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])])]
+        else:
+            febe = []
+
         # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        ret = np.zeros(len(self._toas), dtype=max([arr.dtype for arr in [self._flags[n] for n in flagnames] + febe]))
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
 
-        if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+        if febe:
+            ret[:] = febe[0]
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-- 
2.43.0


From 097eb15e3693411135cbc0309d30f76bb290bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 23/64] fix: exiting users must not unlink shared pulsar data

Attaching to a segment registers it with the resource tracker of the process
(Python < 3.13), which unlinks it when the process exits.
---
 enterprise/pulsar_inflate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..a6645b3 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -50,6 +50,9 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
+        # we only attach to the segment, so its lifetime should not be tied to this process
+        resource_tracker.unregister(shm._name, "shared_memory")
+
         c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
         c.shm = shm
 
-- 
2.43.0


From d5ca8556bd4ef37b55e104ff693875433dd44812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 24/64] fix: marginalized timing model with kernel ECORR added
 first

---
 enterprise/signals/signal_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 689a66d..d2894b9 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -957,7 +957,11 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
-            return sum(ndiag for ndiag in ndiags if ndiag is not None)
+            ndiags = [ndiag for ndiag in ndiags if ndiag is not None]
+            # an object that wraps the noise matrix (MarginalizingNmat) must be first in
+            # the sum: the other containers can be added to it, but not the reverse
+            ndiags.sort(key=lambda ndiag: not hasattr(ndiag, "Nmat"))
+            return sum(ndiags)
 
         @cache_call("delay_params")
         def get_delay(self, params):
-- 
2.43.0


From 04dd02cdab9ec88fcdc67c4eb68725d4e196cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 25/64] fix: merge overlapping cliques of the prior covariance

---
 enterprise/signals/signal_base.py | 2 +-
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d2894b9..bce06d2 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -605,7 +605,7 @@ class PTA(object):
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 060a2c7..8472899 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -264,7 +264,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From c1cbd22bbf9f3de24b547861e0bceb48372b83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 26/64] fix: redo the symbolic Cholesky when the sparsity
 pattern changes

---
 enterprise/signals/signal_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index bce06d2..5089e29 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -226,12 +226,16 @@ class LogLikelihood(object):
                 try:
                     Sigma_sp = TNT + sps.csc_matrix(phiinv)
 
-                    if hasattr(self, "cf_sp"):
+                    pattern = (Sigma_sp.indptr, Sigma_sp.indices)
+
+                    if hasattr(self, "cf_sp") and all(map(np.array_equal, pattern, self._cf_pattern)):
                         # Have analytical decomposition already. Just do update
                         self.cf_sp.cholesky_inplace(Sigma_sp)
                     else:
                         # Do analytical and numerical Sparse Cholesky
+                        # (again if the sparsity pattern has changed)
                         self.cf_sp = cholesky(Sigma_sp)
+                        self._cf_pattern = pattern
 
                     expval = self.cf_sp(TNr)
                     logdet_sigma = self.cf_sp.logdet()
-- 
2.43.0


From b15e1db706f182cf6d399e0c6b5cd2694ec4c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 27/64] fix: PTA.summary counted common and fixed parameters
 once per signal, and no fixed ones without the parameter list

---
 enterprise/signals/signal_base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5089e29..f1ad058 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -761,12 +761,13 @@ class PTA(object):
         row = ["Signal Name", "Signal Class", "no. Parameters"]
         summary += "{: <40} {: <30} {: <20}\n".format(*row)
         summary += "=" * 90 + "\n"
-        cpcount, copcount = 0, 0
+        cpars, copars = set(), set()
         for sc in self._signalcollections:
             for sig in sc._signals:
                 for p in sig.param_names:
                     if sc.psrname not in p:
-                        cpcount += 1
+                        cpars.add(p)
+                copars.update(par.name for par in sig._params.values() if isinstance(par, ConstantParameter))
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
@@ -776,15 +777,13 @@ class PTA(object):
                     summary += "\n"
                     summary += "params:\n"
                     for par in sig._params.values():
-                        if isinstance(par, ConstantParameter):
-                            copcount += 1
                         summary += "{!s: <90}\n".format(par.__repr__())
                 summary += "_" * 90 + "\n"
         summary += "=" * 90 + "\n"
-        summary += "Total params: {}\n".format(len(self.param_names) + copcount)
+        summary += "Total params: {}\n".format(len(self.param_names) + len(copars))
         summary += "Varying params: {}\n".format(len(self.param_names))
-        summary += "Common params: {}\n".format(cpcount)
-        summary += "Fixed params: {}\n".format(copcount)
+        summary += "Common params: {}\n".format(len(cpars))
+        summary += "Fixed params: {}\n".format(len(copars))
         summary += "Number of pulsars: {}\n".format(len(self._signalcollections))
         if to_stdout:
             logger.info(summary)
-- 
2.43.0


From 83a7e875354daf935ccb14f9f96ff31fc7a4ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 28/64] fix: parameters and arguments of nested Functions were
 mixed up with the outer Function's by keyword

---
 enterprise/signals/parameter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index a846061..88c48d3 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -481,7 +481,8 @@ def Function(func, name="", **func_kwargs):
             #   to self._params
             # - if they are Function classes, then we will instantiate
             #   them, save them to self._funcs, and add all of their
-            #   parameters to self._params
+            #   parameters to self._params (with keys that cannot be
+            #   mistaken for our own keywords)
             # - if they are something else, we will assume they are values,
             #   which we will save in self._defaults
 
@@ -501,10 +502,10 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
+                    self._params.update({kw + "." + sub: par for sub, par in parfunc._params.items()})
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
+                    self._params.update({kw + "." + sub: par for sub, par in arg._params.items()})
                 else:
                     self._defaults[kw] = arg
 
@@ -522,6 +523,9 @@ def Function(func, name="", **func_kwargs):
             if "func" in kwargs:
                 del kwargs["func"]
 
+            # nested Functions care only about the arguments given to us explicitly
+            callkwargs = dict(kwargs)
+
             # we augment kwargs as follows:
             # - parameters given in the original Function definition
             #   (and therefore included in func_kwargs), that are included
@@ -549,7 +553,7 @@ def Function(func, name="", **func_kwargs):
                         kwargs[kw] = self._defaults[kw]
                     elif kw in self._funcs:
                         f = self._funcs[kw]
-                        fargs = {par: val for par, val in kwargs.items() if par in f.func_kwargs}
+                        fargs = {par: val for par, val in callkwargs.items() if par in f.func_kwargs}
                         fargs["params"] = params
                         kwargs[kw] = f(**fargs)
 
-- 
2.43.0


From 011c0193c0dc2cf58a38145f6deebfd814f70047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 29/64] fix: nested Functions ignored the selection mask

---
 enterprise/signals/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 88c48d3..548b6c8 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -553,7 +553,7 @@ def Function(func, name="", **func_kwargs):
                         kwargs[kw] = self._defaults[kw]
                     elif kw in self._funcs:
                         f = self._funcs[kw]
-                        fargs = {par: val for par, val in callkwargs.items() if par in f.func_kwargs}
+                        fargs = {par: val for par, val in callkwargs.items() if par in f.func_kwargs or par == "mask"}
                         fargs["params"] = params
                         kwargs[kw] = f(**fargs)
 
-- 
2.43.0


From 27550caf160f87d6e2ce75b23fa6326ce57072ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 30/64] fix: signals failed for a pulsar in which the selection
 finds no keys

White noise, ECORR kernel and GP signals with a selection that picks nothing in
a pulsar (e.g. nanograv_backends in a mixed array) now contribute nothing.
---
 enterprise/signals/gp_signals.py    | 3 ++-
 enterprise/signals/white_signals.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index ec070a1..a099802 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -48,6 +48,7 @@ def BasisGP(
 
             self._keys = sorted(sel.masks.keys())
             self._masks = [sel.masks[key] for key in self._keys]
+            self._ntoas = len(psr.toas)
             self._prior, self._bases = {}, {}
             self._params, self._coefficients = {}, {}
 
@@ -101,7 +102,7 @@ def BasisGP(
                 basis[key], labels[key] = self._bases[key](params=params, mask=mask)
 
             nc = sum(F.shape[1] for F in basis.values())
-            fullbasis = np.zeros((len(self._masks[0]), nc))
+            fullbasis = np.zeros((self._ntoas, nc))
 
             slices = {}
             nctot = 0
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index b8abd56..ec5fad9 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -42,6 +42,7 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
             sel = selection(psr)
             self._keys = sorted(sel.masks.keys())
             self._masks = [sel.masks[key] for key in self._keys]
+            self._ntoas = len(psr.toas)
             self._ndiag, self._params = {}, {}
             for key, mask in zip(self._keys, self._masks):
                 pnames = [psr.name, name, key]
@@ -57,7 +58,7 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
 
         @signal_base.cache_call("ndiag_params")
         def get_ndiag(self, params):
-            ret = 0
+            ret = np.zeros(self._ntoas)
             for key, mask in zip(self._keys, self._masks):
                 ret += self._ndiag[key](params=params) * mask
             return signal_base.ndarray_alt(ret)
@@ -292,8 +293,10 @@ def EcorrKernelNoise(
 
         def _get_jvecs(self, params):
             idxs = sum([self._idxs[key] for key in sorted(self._idxs.keys())], [])
+            # (there may be no keys if the selection picks no TOAs of this pulsar)
             jvec = np.concatenate(
-                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
+                [np.zeros(0)]
+                + [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
             )
             return (idxs, jvec)
 
-- 
2.43.0


From db8bf08a4f8e5dd0a94fdc99e4326112a03ec5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 31/64] fix: create_quantization_matrix failed when there are
 no TOAs

---
 enterprise/signals/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 8472899..3ab9a80 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -775,11 +775,11 @@ def create_quantization_matrix(toas, dt=1, nmin=2):
     """Create quantization matrix mapping TOAs to observing epochs."""
     isort = np.argsort(toas)
 
-    bucket_ref = [toas[isort[0]]]
-    bucket_ind = [[isort[0]]]
+    bucket_ref = []
+    bucket_ind = []
 
-    for i in isort[1:]:
-        if toas[i] - bucket_ref[-1] < dt:
+    for i in isort:
+        if bucket_ref and toas[i] - bucket_ref[-1] < dt:
             bucket_ind[-1].append(i)
         else:
             bucket_ref.append(toas[i])
-- 
2.43.0


From d661d3e39ac3773ee2e33014f2cf2374e4b471b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 32/64] fix: get_coefficients drew with the inverse covariance
 when falling back from a failed SVD

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 3ab9a80..166630e 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -214,7 +214,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 Sigi = sl.solve(R, Q.T)
                 mn = np.dot(Sigi, d)
                 u, s, _ = sl.svd(Sigi)
-                Li = u * np.sqrt(1 / s)
+                Li = u * np.sqrt(s)
 
             for j in range(n):
                 b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)
-- 
2.43.0


From 373f07aed198b3bb1425a21910f73224bb19b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 33/64] fix: conditional coefficients failed for models that
 include a GP with explicit coefficients

---
 enterprise/signals/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 166630e..12b2df9 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -102,6 +102,9 @@ class ConditionalGP:
                         continue
 
                     sb = sig.get_basis(params=params)
+                    if sb is None:
+                        # GP with explicit coefficients, not marginalized over
+                        continue
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -178,7 +181,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            continue
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -222,7 +228,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            continue
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From 5db323f8d39a93ff730ca05324674558baf98ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 34/64] fix: stale delay of a common GP whose coefficient
 vector was given as a parameter

The cache key picked coefficients by name and missed vectors named otherwise.
---
 enterprise/signals/gp_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a099802..be1d234 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -363,7 +363,7 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
             @property
             def delay_params(self):
                 # the delay depends also on the (possibly varying) basis
-                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
+                return [cpar.name for cpar in self._coefficients.values()] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 01c29aa4d2e2fed3522d6c5262f40e51f81a5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 35/64] fix: wideband timing model counts DMX bins per TOA, not
 in total

---
 enterprise/signals/gp_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index be1d234..5e060c1 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -633,7 +633,7 @@ def WidebandTimingModel(
 
                 check += self._dmwhich[-1]
 
-            if np.sum(check) != self._ntoas:
+            if np.any(check != 1):
                 raise ValueError("WidebandTimingModel: cannot account for all TOAs in DMX intervals.")
 
             if "DM" in psr.fitpars:
-- 
2.43.0


From a6e05cfcde95b03b21deb4ffcb79dcd1de06783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 36/64] fix: linear_interp_basis always brackets the last TOA
 with nodes

---
 enterprise/signals/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 12b2df9..d45f90b 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -848,6 +848,11 @@ def linear_interp_basis(toas, dt=30 * 86400):
 
     # evenly spaced points
     x = np.arange(toas.min(), toas.max() + dt, dt)
+
+    # rounding may leave the last TOA (or a single one) beyond the last node
+    if len(x) < 2 or x[-1] < toas.max():
+        x = np.append(x, x[-1] + dt)
+
     M = np.zeros((len(toas), len(x)))
 
     # make linear interpolation basis
-- 
2.43.0


From a2b50cf2cc0e414a87acc731d2c3ba92a220dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 37/64] fix: broken_powerlaw docstring had the slopes exchanged

---
 enterprise/signals/gp_priors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_priors.py b/enterprise/signals/gp_priors.py
index e515552..bd82b25 100644
--- a/enterprise/signals/gp_priors.py
+++ b/enterprise/signals/gp_priors.py
@@ -123,9 +123,9 @@ def broken_powerlaw(f, log10_A, gamma, delta, log10_fb, kappa=0.1):
     Generic broken powerlaw spectrum.
     :param f: sampling frequencies
     :param A: characteristic strain amplitude [set for gamma at f=1/yr]
-    :param gamma: negative slope of PSD for f > f_break [set for comparison
+    :param gamma: negative slope of PSD for f < f_break [set for comparison
         at f=1/yr (default 13/3)]
-    :param delta: slope for frequencies < f_break
+    :param delta: negative slope of PSD for f > f_break
     :param log10_fb: log10 transition frequency at which slope switches from
         gamma to delta
     :param kappa: smoothness of transition (Default = 0.1)
-- 
2.43.0


From c5f980fdf93952d07cbdca880ca8b1d01b0ddd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 38/64] fix: pass pulsar attributes to functions by name, not
 by position

---
 enterprise/signals/selections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 0b4f1e7..03e3f4e 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -39,9 +39,9 @@ def selection_func(func):
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
                     if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        targs.append(attr[mask])
-                    else:
-                        targs.append(attr)
+                        attr = attr[mask]
+                    # pass by name: arguments before this one may not come from the pulsar
+                    kwargs[funcarg] = attr
 
         if "psr" in kwargs and "psr" not in funcargs:
             del kwargs["psr"]
-- 
2.43.0


From 3106af477481789325197a9116571574fce34f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 39/64] fix: masks apply to per-TOA flags passed to functions

---
 enterprise/signals/selections.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 03e3f4e..e69ae0b 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -17,6 +17,17 @@ def call_me_maybe(obj):
     return obj() if hasattr(obj, "__call__") else obj
 
 
+def mask_attr(attr, mask):
+    """Apply mask to per-TOA arrays, including those in dictionaries such as flags."""
+
+    if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
+        return attr[mask]
+    elif isinstance(attr, dict) and mask is not Ellipsis:
+        return {key: mask_attr(val, mask) for key, val in attr.items()}
+    else:
+        return attr
+
+
 def selection_func(func):
     try:
         funcargs = inspect.getfullargspec(func).args
@@ -38,8 +49,7 @@ def selection_func(func):
             for funcarg in funcargs[len(args) :]:
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
-                    if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        attr = attr[mask]
+                    attr = mask_attr(attr, mask)
                     # pass by name: arguments before this one may not come from the pulsar
                     kwargs[funcarg] = attr
 
-- 
2.43.0


From d13ecf345932fcb4108142f6d5ec60bb9fd7c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 40/64] fix: GW response is finite for pulsars opposite to a
 pixel centre

---
 enterprise/signals/anis_coefficients.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/anis_coefficients.py b/enterprise/signals/anis_coefficients.py
index 45314bb..9fac680 100644
--- a/enterprise/signals/anis_coefficients.py
+++ b/enterprise/signals/anis_coefficients.py
@@ -99,16 +99,19 @@ def createSignalResponse_pol(pphi, ptheta, gwphi, gwtheta, plus=True, norm=True)
     else:
         c = 1.0 / np.sqrt(npixels)
 
+    # 1 - Omega.p without cancellation. The response has no limit for Omega = p
+    # (its average over the nearby directions is zero)
+    denom = 0.5 * np.sum((Omega - p) ** 2, axis=0)
+    denom[denom < 1e-30] = np.inf
+
     # Calculate the Fplus or Fcross antenna pattern. Definitions as in Gair et
     # al. (2014), with right-handed coordinate system
     if plus:
         # The sum over axis=0 represents an inner-product
-        Fsig = (
-            0.5 * c * (np.sum(nhat * p, axis=0) ** 2 - np.sum(mhat * p, axis=0) ** 2) / (1 - np.sum(Omega * p, axis=0))
-        )
+        Fsig = 0.5 * c * (np.sum(nhat * p, axis=0) ** 2 - np.sum(mhat * p, axis=0) ** 2) / denom
     else:
         # The sum over axis=0 represents an inner-product
-        Fsig = c * np.sum(mhat * p, axis=0) * np.sum(nhat * p, axis=0) / (1 - np.sum(Omega * p, axis=0))
+        Fsig = c * np.sum(mhat * p, axis=0) * np.sum(nhat * p, axis=0) / denom
 
     return Fsig
 
-- 
2.43.0


From cc8d43291f1785578e7b4365046d8707557be50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 41/64] fix: only treat names starting with B as Besselian

Globular-cluster names such as J1748-2446B contain a B as well, and got
their ecliptic position converted to epoch 1950.
---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 4a0b02a..3b2930a 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -97,7 +97,7 @@ class BasePulsar(object):
             ec = Ecliptic(elong, elat)
 
             # check for B name
-            if "B" in self.name:
+            if self.name.startswith("B"):
                 epoch = "1950"
             else:
                 epoch = "2000"
-- 
2.43.0


From 20869e24196db2950c91a12b6d24a8817ee12604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 42/64] fix: mark only fitted tempo2 DMX parameters as fitted

pars holds all set parameters, so the flag was always True.
---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 3b2930a..88bb95b 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -578,7 +578,7 @@ class Tempo2Pulsar(BasePulsar):
                 "DMXerr": float(t2pulsar[par].err),
                 "DMXR1": float(t2pulsar[par[:3] + "R1" + par[3:]].val),
                 "DMXR2": float(t2pulsar[par[:3] + "R2" + par[3:]].val),
-                "fit": par in pars,
+                "fit": par in self.fitpars,
             }
             for par in pars
             if "DMX_" in par
-- 
2.43.0


From 38d563809b1152c1d038d637ee869a1be3fdad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 43/64] fix: filter design-matrix units along with the columns

---
 enterprise/pulsar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 88bb95b..fd0d7ab 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -153,6 +153,8 @@ class BasePulsar(object):
         dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
         self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
+        if hasattr(self, "designmatrix_units"):
+            self.designmatrix_units = [unit for unit, keep in zip(self.designmatrix_units, dmx_mask) if keep]
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
-- 
2.43.0


From 056d3c4dc2a021474519a419fa52c57c4dbcf338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 44/64] fix: backend flags in the presence of numeric flags

The widest dtype was taken over all flags, so that (for instance) a
float flag could make backend_flags fail on text values.
---
 enterprise/pulsar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index fd0d7ab..75f8d43 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -289,8 +289,11 @@ class BasePulsar(object):
         else:
             febe = []
 
-        # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([arr.dtype for arr in [self._flags[n] for n in flagnames] + febe]))
+        # allocate array with widest dtype among the flags that we use
+        # (others may be numeric, and would determine the type)
+        used = [n for n in flagnames if n in ["group", "g", "sys", "i", "f", "fe", "be"]]
+        arrs = [self._flags[n] for n in used] + febe
+        ret = np.zeros(len(self._toas), dtype=max([arr.dtype for arr in arrs], default="U1"))
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
-- 
2.43.0


From eb7c3cd4520631b9c9d82231470f51bbecf3b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 45/64] fix: keep the names of the fitted parameters in feather
 files

WidebandTimingModel needs them to find the DMX columns.
---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 75f8d43..57b45de 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -688,7 +688,7 @@ class FeatherPulsar:
     vector_columns = ["Mmat", "sunssb", "pos_t"]
     tensor_columns = ["planetssb"]
     # flags are done separately
-    metadata = ["name", "dm", "dmx", "pdist", "pos", "phi", "theta"]
+    metadata = ["name", "dm", "dmx", "pdist", "pos", "phi", "theta", "fitpars"]
     # notes: currently ignores _isort/__isort and gets sorted versions
 
     def __init__(self):
-- 
2.43.0


From 4aea85a28bc850ba247cc5dab5e9f8edde2a1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 46/64] fix: read and save pulsars that have no planet
 positions

Pulsars made with planets=False could not be saved to a feather file, and
the planetssb and sunssb properties failed.
---
 enterprise/pulsar.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 57b45de..55930dd 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -329,13 +329,13 @@ class BasePulsar(object):
 
     @property
     def planetssb(self):
-        """Return planetary position vectors at all timestamps"""
-        return self._planetssb[self._isort, :, :]
+        """Return planetary position vectors at all timestamps (None if not loaded)"""
+        return None if self._planetssb is None else self._planetssb[self._isort, :, :]
 
     @property
     def sunssb(self):
-        """Return sun position vector at all timestamps"""
-        return self._sunssb[self._isort, :]
+        """Return sun position vector at all timestamps (None if not loaded)"""
+        return None if self._sunssb is None else self._sunssb[self._isort, :]
 
     @property
     def telescope(self):
@@ -718,11 +718,17 @@ class FeatherPulsar:
 
         for array in FeatherPulsar.vector_columns:
             cols = [c for c in f.column_names if c.startswith(array)]
+            if not cols:
+                setattr(self, array, None)
+                continue
             setattr(self, array, np.array([f[col].to_numpy() for col in cols]).swapaxes(0, 1).copy())
 
         for array in FeatherPulsar.tensor_columns:
             rows = sorted(set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)]))
             cols = [[c for c in f.column_names if c.startswith(row)] for row in rows]
+            if not cols:
+                setattr(self, array, None)
+                continue
             setattr(
                 self,
                 array,
@@ -758,6 +764,7 @@ class FeatherPulsar:
             {
                 f"{array}_{i}": getattr(self, array)[:, i]
                 for array in FeatherPulsar.vector_columns
+                if getattr(self, array) is not None
                 for i in range(getattr(self, array).shape[1])
             }
         )
@@ -766,6 +773,7 @@ class FeatherPulsar:
             {
                 f"{array}_{i}_{j}": getattr(self, array)[:, i, j]
                 for array in FeatherPulsar.tensor_columns
+                if getattr(self, array) is not None
                 for i in range(getattr(self, array).shape[1])
                 for j in range(getattr(self, array).shape[2])
             }
-- 
2.43.0


From 52d27a38ff703500c7fb050b138591c4967be19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 47/64] fix: share empty arrays

A pulsar without flags could not be deflated, since shared-memory segments
cannot have zero size.
---
 enterprise/pulsar_inflate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index a6645b3..47d8d37 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -37,7 +37,8 @@ class PulsarInflater:
     def __init__(self, array):
         self.dtype, self.shape, self.nbytes = array.dtype, array.shape, array.nbytes
 
-        shm = shared_memory.SharedMemory(create=True, size=array.nbytes)
+        # a segment cannot be empty, but an array may be (e.g., no flags)
+        shm = shared_memory.SharedMemory(create=True, size=max(1, array.nbytes))
         self.shmname = shm.name
 
         # shm.buf[:array.nbytes] = array.view(dtype='uint8').flatten()
-- 
2.43.0


From 9de52099f0c638811a630dfa2842f6cd90912146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 48/64] fix: a user killed while inflating must not unlink
 shared data

Between registering with the resource tracker and unregistering, the death
of the process made the tracker unlink the segments of everybody.
---
 enterprise/pulsar_inflate.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index 47d8d37..1ee97e7 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -4,6 +4,8 @@ and (after pickling) will reinflate to a numpy array that refers to the shared
 data.
 """
 
+import sys
+
 import numpy as np
 
 try:
@@ -19,6 +21,21 @@ class memmap(np.ndarray):
             self.shm.close()
 
 
+def attach(name):
+    """Attach to an existing SharedMemory segment without tying its lifetime
+    to this process. The resource tracker would unlink the segment when the
+    process ends, or is killed, so it should never hear about it."""
+
+    if sys.version_info >= (3, 13):
+        return shared_memory.SharedMemory(name, track=False)
+
+    register, resource_tracker.register = resource_tracker.register, lambda *args: None
+    try:
+        return shared_memory.SharedMemory(name)
+    finally:
+        resource_tracker.register = register
+
+
 # lifecycle of shared pulsar arrays:
 # - begin life as numpy arrays in Pulsar object
 # - upon psr.deflate(), replaced by PulsarInflater objects
@@ -49,10 +66,7 @@ class PulsarInflater:
         resource_tracker.unregister(shm._name, "shared_memory")
 
     def inflate(self):
-        shm = shared_memory.SharedMemory(self.shmname)
-
-        # we only attach to the segment, so its lifetime should not be tied to this process
-        resource_tracker.unregister(shm._name, "shared_memory")
+        shm = attach(self.shmname)
 
         c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
         c.shm = shm
-- 
2.43.0


From 2adfaacaed69864094028cce13f9ee9d07b2dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 49/64] fix: epoch-averaged ephemeris delays for unsorted
 pulsars

The interpolation of planet and pulsar positions to the epochs assumed
increasing TOAs, and returned garbage otherwise.
---
 enterprise/signals/deterministic_signals.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index c778a04..f04c6b6 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -178,16 +178,18 @@ def PhysicalEphemerisSignal(
                 avetoas = np.array([psr.toas[sc].mean() for sc in self._uinds])
                 self._avetoas = avetoas
 
+                # interpolation needs increasing times, but the pulsar may not be sorted
+                isort = np.argsort(psr.toas, kind="mergesort")
+                toas, ssb, pos = psr.toas[isort], psr.planetssb[isort], psr.pos_t[isort]
+
                 # interpolate ssb planet position vectors to avetoas
                 planetssb = np.zeros((len(avetoas), 9, 3))
                 for jj in range(9):
-                    planetssb[:, jj, :] = np.array(
-                        [np.interp(avetoas, psr.toas, psr.planetssb[:, jj, aa]) for aa in range(3)]
-                    ).T
+                    planetssb[:, jj, :] = np.array([np.interp(avetoas, toas, ssb[:, jj, aa]) for aa in range(3)]).T
                 self._planetssb = planetssb
 
                 # Interpolating the pulsar position vectors onto epoch TOAs
-                pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
+                pos_t = np.array([np.interp(avetoas, toas, pos[:, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
         # this defaults to all parameters
-- 
2.43.0


From c070591b949f3e6cdbd02610e565e641c8b66fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 50/64] fix: partition inverse without logdet next to dense
 priors

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f1ad058..9c2deda 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -456,7 +456,7 @@ class PTA(object):
             # TODO: This is messy, maybe we should clean up
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
-                phiinvs = [phivec.inv(logdet) for phivec in phis]
+                phiinvs = [phivec.inv(logdet=True) for phivec in phis]
                 phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
                 phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
-- 
2.43.0


From d4ffb9c5f9549ae0dedb1919297c1fcc4cbb3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:28 +0000
Subject: [PATCH 51/64] fix: diagonal blocks of dense kernel matrices given as
 slices

---
 enterprise/signals/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d45f90b..17f5be4 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -283,6 +283,7 @@ class KernelMatrix(np.ndarray):
             self[idx] += other
         else:
             if other.ndim == 1:
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] += other
             else:
                 self._setcliques(idx)
@@ -299,6 +300,7 @@ class KernelMatrix(np.ndarray):
             self[idx] = other
         else:
             if other.ndim == 1:
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] = other
             else:
                 self._setcliques(idx)
-- 
2.43.0


From 62af06a2a478044a454d69d57f45135ca6ebdde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 52/64] fix: use all the harmonics asked for in
 eccentric-binary waveforms

---
 enterprise/signals/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 17f5be4..3c835a5 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -673,7 +673,7 @@ def calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, gamma, gammadot, inc):
 
     :return splus, scross: plus and cross time-domain waveforms for a CGW
     """
-    n = np.arange(1, nmax)
+    n = np.arange(1, nmax + 1)
 
     # time dependent amplitudes
     an = get_an(n, mc, dl, h0, F, e)
@@ -686,8 +686,8 @@ def calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, gamma, gammadot, inc):
     lt = l0 + omega * t
 
     # tiled phase
-    phase1 = n * np.tile(lt, (nmax - 1, 1)).T
-    phase2 = np.tile(gt, (nmax - 1, 1)).T
+    phase1 = n * np.tile(lt, (nmax, 1)).T
+    phase2 = np.tile(gt, (nmax, 1)).T
 
     sinp1 = np.sin(phase1)
     cosp1 = np.cos(phase1)
-- 
2.43.0


From ab83d1e79e8ac2dfc4f737254f8b3c797a5ffbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 53/64] fix: sparse likelihood returns -inf, not NaN, when
 Sigma is not positive definite

CHOLMOD factorizes indefinite matrices as LDL' without raising, so the
logarithm of the negative pivots made the likelihood NaN.
---
 enterprise/signals/signal_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 9c2deda..f360615 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -237,6 +237,10 @@ class LogLikelihood(object):
                         self.cf_sp = cholesky(Sigma_sp)
                         self._cf_pattern = pattern
 
+                    # CHOLMOD's LDL' factorization succeeds also for indefinite matrices
+                    if not np.all(self.cf_sp.D() > 0):
+                        return -np.inf
+
                     expval = self.cf_sp(TNr)
                     logdet_sigma = self.cf_sp.logdet()
                 except CholmodError:  # pragma: no cover
-- 
2.43.0


From e9c0ea376c7ec8c4eacf1bf911ea493690517612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 54/64] fix: likelihood returns -inf when the common prior
 covariance is not positive definite

Depending on the inversion method, an indefinite Phi gave a finite value
(cliques: slogdet()[1] drops the sign), NaN (sparse) or LinAlgError.
---
 enterprise/signals/signal_base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f360615..7f63f97 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -206,7 +206,11 @@ class LogLikelihood(object):
         # correlated signals
         TNrs = self.pta.get_TNr(params)
         TNTs = self.pta.get_TNT(params)
-        phiinvs = self.pta.get_phiinv(params, logdet=True, method=phiinv_method)
+        try:
+            phiinvs = self.pta.get_phiinv(params, logdet=True, method=phiinv_method)
+        except (sl.LinAlgError, CholmodError):
+            # the prior covariance is not positive definite
+            return -np.inf
 
         # get -0.5 * (rNr + logdet_N) piece of likelihood
         # the np.sum here is needed because each pulsar returns a 2-tuple
@@ -444,6 +448,10 @@ class PTA(object):
             phisparse = sps.csc_matrix(phi)
             cf = cholesky(phisparse)
 
+            # CHOLMOD's LDL' factorization succeeds also for indefinite matrices
+            if not np.all(cf.D() > 0):
+                raise sl.LinAlgError("Phi matrix is not positive definite")
+
             if logdet:
                 return (cf.inv(), cf.logdet())
             else:
@@ -551,6 +559,9 @@ class PTA(object):
                     else:
                         phi2 = phi[idx2]
 
+                        # raises LinAlgError if phi2 is not positive definite
+                        np.linalg.cholesky(phi2)
+
                         if logdet:
                             ld += np.linalg.slogdet(phi2)[1]
 
-- 
2.43.0


From 4117a7007d60df0702fe2391dd68cae15bdee8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 55/64] fix: KernelMatrix.inv does not turn an indefinite
 matrix into a valid prior

The SVD fallback, meant for round-off, inverted |phi| and returned a finite
likelihood for prior matrices with genuinely negative eigenvalues. Judge and
repair round-off relative to the diagonal: next to the 1e40 timing-model
prior the unscaled SVD also lost every other element.
---
 enterprise/signals/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 3c835a5..e8b38b6 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -324,10 +324,18 @@ class KernelMatrix(np.ndarray):
                 if logdet:
                     ld = 2.0 * np.sum(np.log(np.diag(cf[0])))
             except np.linalg.LinAlgError:
-                u, s, v = np.linalg.svd(self)
-                inv = np.dot(u / s, u.T)
+                # normalize by the diagonal, so that round-off is judged by column
+                if not np.all(np.diag(self) > 0):
+                    raise
+                d = np.sqrt(np.diag(self))
+                corr = np.asarray(self) / np.outer(d, d)
+                # beyond round-off, negative eigenvalues mean this is not a covariance
+                if np.linalg.eigvalsh(corr)[0] < -1e-10:
+                    raise
+                u, s, v = np.linalg.svd(corr)
+                inv = np.dot(u / s, u.T) / np.outer(d, d)
                 if logdet:
-                    ld = np.sum(np.log(s))
+                    ld = np.sum(np.log(s)) + 2.0 * np.sum(np.log(d))
             if logdet:
                 return inv, ld
             else:
-- 
2.43.0


From e2dc9965175ae1cac382922ee7b4e1306c1c7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 56/64] fix: get_phiinv by partition counts shared diagonal
 elements once with several common signals

---
 enterprise/signals/signal_base.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 7f63f97..937d190 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -484,7 +484,17 @@ class PTA(object):
             # the pulsars and share the same basis
             invert = None
 
+            csdict0 = list(self._commonsignals.values())[0]
+            columns = {csc: csc._idx[cs] for cs, csc in csdict0.items()}
+
             for csclass, csdict in self._commonsignals.items():
+                if len(csdict) != len(columns) or not all(
+                    csc in columns and np.array_equal(csc._idx[cs], columns[csc]) for cs, csc in csdict.items()
+                ):
+                    raise NotImplementedError(
+                        "get_phiinv with method='partition' does not support common signals with different bases."
+                    )
+
                 for i, (cs1, csc1) in enumerate(csdict.items()):
                     for j, (cs2, csc2) in enumerate(csdict.items()):
                         if j <= i:
@@ -504,6 +514,10 @@ class PTA(object):
                         invert[:, i, j] += crossdiag
                         invert[:, j, i] += crossdiag
 
+                    # all the common signals share these diagonal elements
+                    if csdict is not csdict0:
+                        continue
+
                     invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
 
                     if logdet:
@@ -515,10 +529,9 @@ class PTA(object):
                 if logdet:
                     ld += np.sum(2 * np.log(np.diag(cf[0])))
 
-            csdict = list(self._commonsignals.values())[0]
-            for i, (cs1, csc1) in enumerate(csdict.items()):
+            for i, (cs1, csc1) in enumerate(csdict0.items()):
                 block1, idx1 = slices[csc1], csc1._idx[cs1]
-                for j, (cs2, csc2) in enumerate(csdict.items()):
+                for j, (cs2, csc2) in enumerate(csdict0.items()):
                     if j < i:
                         continue
 
-- 
2.43.0


From ed7a54b21803dc580d587157669e7344b424237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 57/64] fix: get_phiinv by partition refuses dense priors on
 the columns of the common signals

---
 enterprise/signals/signal_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 937d190..e0aeddd 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -487,6 +487,15 @@ class PTA(object):
             csdict0 = list(self._commonsignals.values())[0]
             columns = {csc: csc._idx[cs] for cs, csc in csdict0.items()}
 
+            for sc, phivec in zip(self._signalcollections, phivecs):
+                if sc in columns and phivec.ndim == 2:
+                    rows = np.array(phivec)[columns[sc]]
+                    rows[np.arange(len(rows)), columns[sc]] = 0
+                    if np.any(rows):
+                        raise NotImplementedError(
+                            "get_phiinv with method='partition' does not support dense phi matrices."
+                        )
+
             for csclass, csdict in self._commonsignals.items():
                 if len(csdict) != len(columns) or not all(
                     csc in columns and np.array_equal(csc._idx[cs], columns[csc]) for cs, csc in csdict.items()
-- 
2.43.0


From a5907a44da1c13bf19921ffc27887b319d88bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 58/64] fix: a seeded phase shift no longer reseeds the global
 random generator

---
 enterprise/signals/gp_bases.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index bff45b1..c3d54d1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -73,9 +73,12 @@ def createfourierdesignmatrix_red(
         if pseed is not None:
             # use the first toa to make a different seed for every pulsar
             seed = int(toas[0] / 17) + int(pseed)
-            np.random.seed(seed)
+            # do not touch the state of the global generator
+            rng = np.random.RandomState(seed)
+        else:
+            rng = np.random
 
-        ranphase = np.random.uniform(0.0, 2 * np.pi, nmodes)
+        ranphase = rng.uniform(0.0, 2 * np.pi, nmodes)
     else:
         ranphase = np.zeros(nmodes)
 
-- 
2.43.0


From ce01d49464687ae24d33ae32220e89c5f30029ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 59/64] fix: get_maxobs counts the TOAs next to INCLUDE lines

---
 enterprise/pulsar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 55930dd..731181b 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -60,11 +60,11 @@ def get_maxobs(timfile):
     with open(timfile) as tfile:
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
-        if any(["INCLUDE" in ln for ln in lines]):
-            for line in [ln for ln in lines if "INCLUDE" in ln]:
+        for line in lines:
+            if "INCLUDE" in line:
                 maxobs += get_maxobs(line.split()[-1])
-        else:
-            maxobs = sum(1 for line in lines if line.rstrip("\n"))
+            elif line.rstrip("\n"):
+                maxobs += 1
     return maxobs
 
 
-- 
2.43.0


From da31cb4a6f7a0324be59284874fa6f57afecafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 60/64] fix: named timing parameters of ConditionalGP account
 for idx_exclude

---
 enterprise/signals/gp_signals.py | 8 ++++++++
 enterprise/signals/utils.py      | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 5e060c1..1cbd6a4 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -248,6 +248,14 @@ def TimingModel(coefficients=False, name="linear_timing_model", use_svd=False, n
         signal_name = "linear timing model"
         signal_id = name + "_svd" if use_svd else name
 
+        @staticmethod
+        def get_fitpars(fitpars):
+            """The timing-model parameter that each basis column stands for."""
+            if use_svd:
+                raise ValueError("The columns of an SVD basis do not correspond to timing-model parameters.")
+
+            return [par for i, par in enumerate(fitpars) if i not in (idx_exclude or [])]
+
         if coefficients:
 
             def _get_coefficient_logprior(self, key, c, **params):
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e8b38b6..eb756ac 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -114,9 +114,13 @@ class ConditionalGP:
                         if self.psr is None:
                             raise ValueError("Need to input psr to get timing model param names")
 
+                        # the timing model may leave out some of the parameters
+                        fitpars = list(self.psr.fitpars)
+                        fitpars = sig.get_fitpars(fitpars) if hasattr(sig, "get_fitpars") else fitpars
+
                         for tm_par in self.tm_params:
 
-                            tm_idx = list(self.psr.fitpars).index(tm_par)
+                            tm_idx = fitpars.index(tm_par)
                             save_name = sig.name.split("_")[0] + "_" + tm_par
                             key = save_name if gp else f"{save_name}_coefficients"
                             pardict[key] = np.dot(sb[:, tm_idx], b[ntot + tm_idx]) if gp else b[ntot + tm_idx]
-- 
2.43.0


From b0d37ce997528a2048c85837ace89f6153c979e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 61/64] fix: summary of models with explicit GP coefficients

---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index e0aeddd..45527bc 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -808,7 +808,10 @@ class PTA(object):
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
-                    summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(sig.get_basis().shape))
+                    # there is no basis for explicit coefficients
+                    basis = sig.get_basis()
+                    if basis is not None:
+                        summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(basis.shape))
                     summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
                 if include_params:
                     summary += "\n"
-- 
2.43.0


From c18e0d83c13b094ac7176890a800410402959579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 62/64] fix: marginalised noise matrices are freed with their
 model

The Cholesky factor was cached by functools.lru_cache on a property, a cache that belongs to the class and keeps up to 128 instances, with their design matrices, noise matrices and products, alive for the life of the process.
---
 enterprise/signals/gp_signals.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 1cbd6a4..a76af5a 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -851,9 +851,8 @@ class MarginalizingNmat(object):
     def __radd__(self, other):
         return self.__add__(other)
 
-    # in Python 3.8: @functools.cached_property
-    @property
-    @functools.lru_cache()
+    # cached in the instance (a method lru_cache would keep up to 128 discarded instances alive)
+    @functools.cached_property
     def cf(self):
         MNM = sps.csc_matrix(self.Nmat.solve(self.Mmat, left_array=self.Mmat))
         return cholesky(MNM)
-- 
2.43.0


From b6a8d72f7958037b5813c76f21d417d80b5ef51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 63/64] fix: ends of the unit interval map into the range of
 bounded priors

Uniform and LinearExp percentage point functions could round past the
end of their range, so a unit vector with a coordinate of 0 or 1 mapped
to a point of zero prior density.
---
 enterprise/signals/parameter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 548b6c8..c21581a 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -213,7 +213,8 @@ def UniformSampler(pmin, pmax, size=None):
 def UniformPPF(value, pmin, pmax):
     """Percentage Point function for Uniform paramters."""
 
-    return sstats.uniform.ppf(value, loc=pmin, scale=pmax - pmin)
+    # rounding must not take the ends of the unit interval out of the range
+    return np.clip(sstats.uniform.ppf(value, loc=pmin, scale=pmax - pmin), pmin, pmax)
 
 
 def Uniform(pmin, pmax, size=None):
@@ -390,7 +391,8 @@ def LinearExpPPF(value, pmin, pmax):
     """Percentage Point function for Uniform paramters."""
 
     ev = sstats.uniform.ppf(value, loc=10**pmin, scale=10**pmax - 10**pmin)
-    return np.log10(ev)
+    # rounding must not take the ends of the unit interval out of the range
+    return np.clip(np.log10(ev), pmin, pmax)
 
 
 def LinearExp(pmin, pmax, size=None):
-- 
2.43.0


From d7481a6d0920e884587a86070a778da2a14b4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 64/64] fix: vector parameters given as integers or lists

---
 enterprise/signals/gp_priors.py   | 2 +-
 enterprise/signals/signal_base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_priors.py b/enterprise/signals/gp_priors.py
index bd82b25..3fb2d21 100644
--- a/enterprise/signals/gp_priors.py
+++ b/enterprise/signals/gp_priors.py
@@ -35,7 +35,7 @@ def free_spectrum(f, log10_rho=None):
     where \rho_i is the free parameter and T is the observation
     length.
     """
-    return np.repeat(10 ** (2 * np.array(log10_rho)), 2)
+    return np.repeat(10 ** (2 * np.array(log10_rho, dtype="d")), 2)
 
 
 @function
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 45527bc..87287f3 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -721,7 +721,7 @@ class PTA(object):
         ct = 0
         for p in self.params:
             n = p.size if p.size else 1
-            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
+            ret[p.name] = np.asarray(xs[ct : ct + n], dtype="d") if n > 1 else float(xs[ct])
             ct += n
         return ret
 
-- 
2.43.0

