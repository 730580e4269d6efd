From 09b59854badca487dba79179066f05ff64cfbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 01/40] fix: MPArray.load works with h5py >= 3

Dataset.value has been removed from h5py, so nothing that was dumped
could be loaded again.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..8d45506 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From 3a69e9cebcf6ce0dcd94367e6c457b03674bf7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 02/40] fix: leg2vleg claimed site pos + 1 to be
 right-normalized

The site next to the restored virtual leg loses its normalization, but
was still listed in canonical_form, which made e.g. norm() wrong.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 8d45506..faf0cf4 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -555,7 +555,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From 6f48fa373a5d7f2a21c11552309ca1e86f43395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 03/40] fix: local tensor update with negative site index

The canonical form was computed from the negative index: it kept
claiming normalized tensors which had been replaced.
---
 mpnum/mpstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..86927a0 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -137,6 +137,8 @@ class LocalTensors(object):
 
         else:
             current = self._ltens[index]
+            if index < 0:
+                index += len(self)
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
             assert current.shape[-1] == tens.shape[-1]
-- 
2.43.0


From 2b8e2709cea7bd7f652d74c48ed74195667b5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 04/40] fix: slice update must provide one local tensor per
 site

With too few tensors, the ranks of the remaining sites did not match.
---
 mpnum/mpstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 86927a0..a44b976 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -124,6 +124,7 @@ class LocalTensors(object):
             start, stop, step = indices
             # Allow rank changes if multiple consecutive local tensors change.
             tens = list(tens)
+            assert len(tens) == len(range(*indices))
             assert self[start].shape[0] == tens[0].shape[0]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
                 tens[:-1], tens[1:]))
-- 
2.43.0


From c3c3d0cd77cea6ef8da055a5be782cf1153b175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 05/40] fix: left-normalized update must end right-canonical
 slice

A left-normalized tensor put inside the right-canonical slice is not
right-normalized in general.
---
 mpnum/mpstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index a44b976..7bd76e8 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -92,6 +92,7 @@ class LocalTensors(object):
         # remain the same (inequality case; second argument).
         if canonicalization == 'left' and self._lcanonical - index >= 0:
             self._lcanonical = max(index + 1, self._lcanonical)
+            self._rcanonical = max(index + 1, self._rcanonical)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
             self._rcanonical = min(index, self._rcanonical)
         else:
-- 
2.43.0


From 2f98c46176cbc050d5efafdf18a129b17d40d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 06/40] fix: right-normalized update must end left-canonical
 slice

A right-normalized tensor put inside the left-canonical slice is not
left-normalized in general.
---
 mpnum/mpstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 7bd76e8..bc0908b 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -95,6 +95,7 @@ class LocalTensors(object):
             self._rcanonical = max(index + 1, self._rcanonical)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
             self._rcanonical = min(index, self._rcanonical)
+            self._lcanonical = min(index, self._lcanonical)
         else:
             # If a non-canonical tensor is provided, the sizes of the
             # canoical slices may decrease.
-- 
2.43.0


From 2d8ded5a3a4738381e87f78afd241f7ce2a46aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 07/40] fix: block_diag (and local_sum) with summands of
 different dtype

The dtype of the first summand was used for the result, so e.g. integer
followed by float raised and complex terms could not be added.
---
 mpnum/utils/extmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From 5a32f4add61e16ff33ce7253ae81ce74aa245800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 08/40] fix: dtype of the sum of MPArrays with different
 precision

max() of dtypes picks complex64 for complex64 + float64, which silently
drops precision.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index faf0cf4..f0f8e2c 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1851,7 +1851,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*ltenss))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
-- 
2.43.0


From c120265325746a8660e8b920c89446454b759269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 09/40] fix: MPArray.sum with axes sequence starting with None

The documentation allows None in a sequence of axes, but it was not
recognized at the first site.
---
 mpnum/mparray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f0f8e2c..8bcf8a0 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -432,8 +432,7 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if not any(ax is None or hasattr(ax, '__iter__') for ax in axes):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
-- 
2.43.0


From 33ee489bae6d27d3b1917b9d5b983b1782e3eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:52 +0000
Subject: [PATCH 10/40] fix: random_local_ham ignored randstate

The result was not reproducible with a seeded randstate.
---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From be8b26f0638d3ee2671345dda4f38d244a9937e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:52 +0000
Subject: [PATCH 11/40] fix: MPPovmList.lfun_from truncated fractional
 other_weights

Weights were accumulated in an integer array, so weights such as 0.5
were lost and the result was nan or wrong.
---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..1e7bd84 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,7 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 8721f3cd993afbb2e79e5e33941544cd0b238e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:35 +0000
Subject: [PATCH 12/40] fix: scalar multiple must not claim the rescaled site
 to be normalized

---
 mpnum/mparray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 8bcf8a0..e4cf49f 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -372,7 +372,9 @@ class MPArray(object):
             ltens = self._lt
             ltens_new = it.chain(ltens[:lcanon], [fact * ltens[lcanon]],
                                  ltens[lcanon + 1:])
-            return type(self)(LocalTensors(ltens_new, cform=(lcanon, rcanon)))
+            # site lcanon is not normalized any more
+            cform = (lcanon, max(rcanon, lcanon + 1))
+            return type(self)(LocalTensors(ltens_new, cform=cform))
 
         raise NotImplementedError("Multiplication by non-scalar not supported")
 
-- 
2.43.0


From a0babb0b2868ea66fb3a074b84b070843cd0f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 13/40] fix: eig_sum with real and complex summands

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From 7105b7c343c5a58a9e444d776ae425ead0ed8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:10 +0000
Subject: [PATCH 14/40] fix: sparse_cH with the last term given as square array

---
 mpnum/utils/physics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..debb4c1 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -112,6 +112,9 @@ def sparse_cH(terms, ldim=2):
         H += sp.kron(left, sp.kron(term, right))
     # The last term acts on the first and last site.
     cyc = terms[-1]
+    if not hasattr(cyc, 'lt'):
+        # Convert regular matrix to MPO
+        cyc = mp.MPArray.from_array_global(np.reshape(cyc, (ldim,) * 4), ndims=2)
     middle = sp.eye(ldim**pos)
     for i in range(cyc.ranks[0]):
         H += sp.kron(cyc.lt[0][0, ..., i], sp.kron(middle, cyc.lt[1][i, ..., 0]))
-- 
2.43.0


From 1f124f2384d6c05c87e797498daa6e1b0d9a3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:33 +0000
Subject: [PATCH 15/40] fix: est_pmf_from sample count if the two MP-POVMs
 share no outcomes

---
 mpnum/povm/mppovm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 1e7bd84..b70d516 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1144,7 +1144,9 @@ class MPPovm(mp.MPArray):
         samples = samples[:, other_support]
         m_shape = (np.prod(self.nsoutdims),) + other_outdims
         m_pos = (slice(None),) + tuple(samples.T)
-        n_samples_used = match.reshape(m_shape)[m_pos].any(0).sum()
+        used = match.reshape(m_shape)[m_pos].any(0)
+        # `used` is a scalar if the two MPPovms share no outcomes
+        n_samples_used = np.broadcast_to(used, (n_samples,)).sum()
 
         est_pmf = np.zeros(self.nsoutdims, float)
         for outcomes in np.argwhere(match):
-- 
2.43.0


From c61d69e1c6c35e0a06bd507b2df87919a0cb4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:25 +0000
Subject: [PATCH 16/40] fix: partialdot with the shorter MPA reaching beyond
 the longer one

The result was an MPA with a dangling virtual leg (or the shorter MPA was
ignored) instead of an error.
---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index e4cf49f..e1547ac 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1213,6 +1213,8 @@ def partialdot(mpa1, mpa2, start_at, axes=(-1, 0)):
     else:
         axes = tuple(ax + 1 if ax >= 0 else ax - 1 for ax in axes)
 
+    assert 0 <= start_at <= abs(len(mpa1) - len(mpa2)), \
+        "The shorter MPA does not fit at start_at={}".format(start_at)
     # Make the MPAs equal length (in fact, the shorter one will be
     # infinite length, but that's fine because we use zip()).
     shorter = mpa1 if len(mpa1) < len(mpa2) else mpa2
-- 
2.43.0


From e5d00847bb08a39440ebcb20d48640259e854a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:25 +0000
Subject: [PATCH 17/40] fix: variational compression with var_sites larger than
 the chain

No optimization took place and the returned overlap was wrong.
---
 mpnum/mparray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index e1547ac..e457f2c 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1056,6 +1056,7 @@ class MPArray(object):
         assert_array_equal(target.ndims, 1, "Target is not a MPS")
 
         nr_sites = len(target)
+        assert 1 <= var_sites <= nr_sites
         lvecs = [np.array(1, ndmin=2)] + [None] * (nr_sites - var_sites)
         rvecs = [None] * (nr_sites - var_sites) + [np.array(1, ndmin=2)]
         self.canonicalize(right=1)
-- 
2.43.0


From 0bcf2d3294f8bc2395fe0f636cdacc666a92cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:16 +0000
Subject: [PATCH 18/40] fix: inner_prod_mps with MPAs of different length

The surplus sites were ignored and a wrong value was returned.
---
 mpnum/special.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/special.py b/mpnum/special.py
index 8ee5d3d..a4c0a6e 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -27,6 +27,7 @@ def inner_prod_mps(mpa1, mpa2):
     assert all(rank == 1 for rank in mpa1.ranks)
     assert all(dim == 1 for dim in mpa1.ndims)
     assert all(dim == 1 for dim in mpa2.ndims)
+    assert len(mpa1) == len(mpa2)
 
     # asssume mpa1 is product
     ltens1 = iter(mpa1.lt)
-- 
2.43.0


From 62ded9cda55b18db48aa4eb3ac6e174e7cf1b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:16 +0000
Subject: [PATCH 19/40] fix: MPPovm.embed with negative start site

The result did not have nr_sites sites.
---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index b70d516..d880afd 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -295,7 +295,8 @@ class MPPovm(mp.MPArray):
                      else (local_dim,) * nr_sites)
         assert len(local_dim) == nr_sites
         n_right = nr_sites - len(self) - startsite
-        assert n_right >= 0, "Embedding position not possible"
+        assert startsite >= 0 and n_right >= 0, \
+            "Embedding position not possible"
 
         factors = []
         if startsite > 0:
-- 
2.43.0


From 44ff0654f51adf56b6a8cd8dfb0f0f197541b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:16 +0000
Subject: [PATCH 20/40] fix: sumup with wrong number of weights

Surplus weights (for one site also surplus MPAs) were ignored.
---
 mpnum/mparray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index e457f2c..8c2057c 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1171,6 +1171,9 @@ def sumup(mpas, weights=None):
     mpas = list(mpas)
     length = len(mpas[0])
     assert all(len(mpa) == length for mpa in mpas)
+    if weights is not None:
+        weights = list(weights)
+        assert len(weights) == len(mpas)
 
     if length == 1:
         if weights is None:
-- 
2.43.0


From 86b6c763ad2d122b75fd3ac2b401e7cf64e36697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 21/40] fix: partialtrace with wrong number of axes

Sites without axes were dropped from the result.
---
 mpnum/mparray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 8c2057c..b043c4b 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1542,6 +1542,7 @@ def partialtrace(mpa, axes=(0, 1), mptype=None):
     """
     if axes[0] is not None and not isinstance(axes[0], collections.Iterable):
         axes = (axes,) * len(mpa)
+    assert len(axes) == len(mpa)
     # Prevent the user from accidentally tracing out bond legs
     assert all(ax is None or all(-n <= a < n for a in ax)
                for n, ax in zip(mpa.ndims, axes)), "Too few legs"
-- 
2.43.0


From aa5c8398037560e2d7ad44f988646ca9a3b6472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 22/40] fix: local_sum with wrong number of slices

Summands without slice were ignored.
---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index b043c4b..24526dd 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1778,6 +1778,8 @@ def local_sum(mpas, embed_tensor=None, length=None, slices=None):
     if slices is None:
         return _local_sum_identity(tuple(mpas), embed_tensor)
 
+    mpas = tuple(mpas)
+    assert len(mpas) == len(slices)
     mpas = (embed_slice(length, slice_, mpa, embed_tensor)
             for mpa, slice_ in zip(mpas, slices))
     return sumup(mpas)
-- 
2.43.0


From ba56910cc4e60e0d2fb832a0e66f19a1b99bd456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 23/40] fix: sandwich with MPAs of different length

Surplus sites were ignored if the virtual legs in front of them had size
one.
---
 mpnum/mparray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 24526dd..bb8e696 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1277,6 +1277,7 @@ def sandwich(mpo, mps, mps2=None):
     (i.e. ``mp.inner(mps2, mp.dot(mpo, mps))``; see also :func:`dot()`).
 
     """
+    assert len(mpo) == len(mps) == len(mps2 or mps)
     # Fortunately, the contraction has been implemented already:
     arr = np.ones((1, 1, 1))
     for mpo_lt, mps_lt, mps2_lt in zip(mpo.lt, mps.lt, (mps2 or mps).lt):
-- 
2.43.0


From 744819489a7dd8361d06587f070a09503188b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 24/40] fix: MPArray.sum must not sum over virtual legs

Axes -1 and ndims were accepted and referred to virtual legs.
---
 mpnum/mparray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index bb8e696..2dc0128 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -441,6 +441,9 @@ class MPArray(object):
         axes = (tuple(range(1, ndims + 1)) if ax is None
                 else tuple(a + 1 for a in ax)
                 for ax, ndims in zip(axes, self.ndims))
+        axes = tuple(axes)
+        assert all(1 <= a <= ndims for ax, ndims in zip(axes, self.ndims)
+                   for a in ax), "Not a physical leg"
         out = type(self)(lt.sum(ax) if ax else lt
                          for ax, lt in zip(axes, self.lt))
         if sum(out.ndims) == 0:
-- 
2.43.0


From 49f6ddda7c88da1ae9234d8fa0fdd992fd400ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 25/40] fix: axis_iter must not iterate over virtual legs

Axes -1 and ndims were accepted and referred to virtual legs; sites
without axis were dropped.
---
 mpnum/mparray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 2dc0128..0d53d27 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -300,6 +300,10 @@ class MPArray(object):
         """
         if not isinstance(axes, collections.Iterable):
             axes = it.repeat(axes, len(self))
+        axes = tuple(axes)
+        assert len(axes) == len(self)
+        assert all(0 <= i < ndims for i, ndims in zip(axes, self.ndims)), \
+            "Not a physical leg"
 
         ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1))
                                   for i, lten in zip(axes, self.lt)))
-- 
2.43.0


From 05c25c1efcd0724a1eaaeeff878723db44057a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 26/40] fix: variational compression with a start vector of
 different length

The result was not a compression of the given MPArray.
---
 mpnum/mparray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 0d53d27..a69d906 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -897,6 +897,7 @@ class MPArray(object):
                                dtype=self.dtype)
         else:
             compr = startmpa.copy()
+            assert len(self) == len(compr)
             assert all(d1 == d2 for d1, d2 in zip(self.shape, compr.shape))
 
         # flatten the array since MPS is expected & bring back
-- 
2.43.0


From e08d558e4e9cb9980cc0c1259730ba96a2a08fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 27/40] fix: slice update with one canonicalization value for
 all sites

The string was treated as a sequence of its letters: sites were not marked as
normalized, and sites beyond the number of letters were not updated at all.
---
 mpnum/mpstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index bc0908b..ceaac53 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -2,9 +2,9 @@
 """Core data structure & routines to manage local tensors"""
 from __future__ import absolute_import, division, print_function
 
-import itertools as it
 import collections
 
+from six import string_types
 from six.moves import range, zip
 
 
@@ -132,8 +132,10 @@ class LocalTensors(object):
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
-                canonicalization = it.repeat(canonicalization)
+            if not isinstance(canonicalization, collections.Sequence) \
+                    or isinstance(canonicalization, string_types):
+                canonicalization = (canonicalization,) * len(tens)
+            assert len(canonicalization) == len(tens)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
                 self._update(pos, ten, canonicalization=norm)
-- 
2.43.0


From b262d1a11f17a8c6423602713038bf801ba17758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 28/40] fix: local_sum with regular slices which do not match
 the summands

---
 mpnum/mparray.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index a69d906..23bafb7 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1777,18 +1777,20 @@ def local_sum(mpas, embed_tensor=None, length=None, slices=None):
     """
     # Check whether we can fall back to :func:`_local_sum_identity`
     # even though `slices` is given.
+    mpas = tuple(mpas)
     if slices is not None:
         assert length is not None
         slices = tuple(slices)
+        assert len(mpas) == len(slices)
+        assert all(len(mpa) == len(range(*slice_.indices(length)))
+                   for mpa, slice_ in zip(mpas, slices))
         reg = regular_slices(length, slices[0].stop - slices[0].start, offset=1)
         if all(s == t for s, t in zip_longest(slices, reg)):
             slices = None
     # If `slices` is not given, use :func:`_local_sum_identity`.
     if slices is None:
-        return _local_sum_identity(tuple(mpas), embed_tensor)
+        return _local_sum_identity(mpas, embed_tensor)
 
-    mpas = tuple(mpas)
-    assert len(mpas) == len(slices)
     mpas = (embed_slice(length, slice_, mpa, embed_tensor)
             for mpa, slice_ in zip(mpas, slices))
     return sumup(mpas)
-- 
2.43.0


From 6d1678f83edc285142ae62cf624dfcda9c423a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 29/40] fix: reshape with wrong number of shapes

---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 23bafb7..b15b554 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -475,7 +475,8 @@ class MPArray(object):
 
         newshapes = tuple(newshapes)
         if not isinstance(newshapes[0], collections.Iterable):
-            newshapes = it.repeat(newshapes, times=len(self))
+            newshapes = (newshapes,) * len(self)
+        assert len(newshapes) == len(self)
 
         ltens = [_local_reshape(lten, newshape)
                  for lten, newshape in zip(self._lt, newshapes)]
-- 
2.43.0


From 99eff68b59c95e3e16179aa5de4f2bb54342d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 30/40] fix: reductions with supports beyond the ends of the
 chain

---
 mpnum/mpsmpo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 337935d..1750657 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -270,6 +270,7 @@ def reductions_mpo(mpa, width=None, startsites=None, stopsites=None):
 
     num_sites = len(mpa)
     for start, stop in zip(startsites, stopsites):
+        assert 0 <= start < stop <= num_sites, "Support out of range"
         # FIXME we could avoid taking copies here, but then in-place
         # multiplication would have side effects. We could make the
         # affected arrays read-only to turn unnoticed side effects into
@@ -297,6 +298,7 @@ def reductions_pmps(pmps, width=None, startsites=None, stopsites=None):
         _check_reductions_args(len(pmps), width, startsites, stopsites)
 
     for start, stop in zip(startsites, stopsites):
+        assert 0 <= start < stop <= len(pmps), "Support out of range"
         pmps.canonicalize(left=start, right=stop)
 
         # leftmost site
-- 
2.43.0


From 8ed697aac5b30253b5cd152966b2f85c8b89c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:52 +0000
Subject: [PATCH 31/40] fix: concat() accepts iterators and refuses missing
 POVMs or weights

The weights are documented to be an iterable, but an iterator was exhausted
by the check of its sum: the result was a POVM without any elements.  More
weights than POVMs (or the converse) were silently dropped, such that the
elements of the result did not sum to the identity.
---
 mpnum/povm/localpovm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/povm/localpovm.py b/mpnum/povm/localpovm.py
index 462eeb1..118bea7 100644
--- a/mpnum/povm/localpovm.py
+++ b/mpnum/povm/localpovm.py
@@ -170,6 +170,8 @@ def concat(povms, weights, info_complete=False):
     :returns: POVM
 
     """
+    povms, weights = tuple(povms), tuple(weights)
+    assert len(povms) == len(weights)
     assert_almost_equal(sum(weights), 1.0)
     elements = sum(([weight * elem for elem in povm]
                     for povm, weight in zip(povms, weights)), [])
-- 
2.43.0


From 5bdc59808f219de7b7e14e7a83a1b089d7ea96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:52 +0000
Subject: [PATCH 32/40] fix: special.sumup() accepts weights given as an
 iterator

The weights are documented to be an iterator, but len() was applied to them.
---
 mpnum/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/special.py b/mpnum/special.py
index a4c0a6e..94af938 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -67,7 +67,7 @@ def sumup(mpas, rank, weights=None, svdfunc=truncated_svd):
     mpas = list(mpas)
     length = len(mpas[0])
     nr_summands = len(mpas)
-    weights = weights if weights is not None else np.ones(nr_summands)
+    weights = list(weights) if weights is not None else np.ones(nr_summands)
 
     assert all(len(mpa) == length for mpa in mpas)
     assert len(weights) == len(mpas)
-- 
2.43.0


From 10d04f61e2e91ebaa02a0839b6a6a44138db3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:06 +0000
Subject: [PATCH 33/40] fix: local_sum with open-ended slices

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index b15b554..bbe31f5 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1785,7 +1785,7 @@ def local_sum(mpas, embed_tensor=None, length=None, slices=None):
         assert len(mpas) == len(slices)
         assert all(len(mpa) == len(range(*slice_.indices(length)))
                    for mpa, slice_ in zip(mpas, slices))
-        reg = regular_slices(length, slices[0].stop - slices[0].start, offset=1)
+        reg = regular_slices(length, len(mpas[0]), offset=1)
         if all(s == t for s, t in zip_longest(slices, reg)):
             slices = None
     # If `slices` is not given, use :func:`_local_sum_identity`.
-- 
2.43.0


From ee0a6c9239b4913c5e4a7342d3217dfbce3c810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:22 +0000
Subject: [PATCH 34/40] fix: pad_ranks of a single site

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index bbe31f5..afd52e9 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1012,7 +1012,7 @@ class MPArray(object):
 
         """
         if rank is None:
-            rank = max(self.ranks)
+            rank = max(self.ranks) if len(self) > 1 else 1
         ranks = it.repeat(rank)
         if not force_rank:
             ranks = [min(f, b) for f, b in zip(full_rank(self.shape), ranks)]
-- 
2.43.0


From c3bd758d296108b9cf1f1908363805a587bee115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:26 +0000
Subject: [PATCH 35/40] fix: project_nonneg accepts a single Python number

---
 mpnum/utils/pmf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/utils/pmf.py b/mpnum/utils/pmf.py
index cb26e64..37a7c50 100644
--- a/mpnum/utils/pmf.py
+++ b/mpnum/utils/pmf.py
@@ -1,6 +1,8 @@
 # encoding: utf-8
 """Auxiliary functions useful for writing tests"""
 
+import numpy as np
+
 
 def project_nonneg(values, imag_eps=1e-10, real_eps=1e-10, real_trunc=0.0):
     """Check that values are real and non-negative
@@ -26,6 +28,8 @@ def project_nonneg(values, imag_eps=1e-10, real_eps=1e-10, real_trunc=0.0):
     in-place and returned.
 
     """
+    if not hasattr(values, 'dtype'):
+        values = np.asarray(values)[()]  # A single Python number
     if values.dtype.kind == 'c':
         assert (abs(values.imag) <= imag_eps).all()
         values = values.real.copy()
-- 
2.43.0


From e62554442b842354ba307accba3e2d1a5560d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:15 +0000
Subject: [PATCH 36/40] fix: refuse to add single-site MPAs of different shape

Instead of broadcasting the local tensors, as for several sites.
---
 mpnum/mparray.py | 2 ++
 mpnum/special.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index afd52e9..fad1ac2 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -355,6 +355,7 @@ class MPArray(object):
             "Length is not equal: {} != {}".format(len(self), len(summand))
         if len(self) == 1:
             # The code below assumes at least two sites.
+            assert self._lt[0].shape == summand.lt[0].shape, "Shapes differ"
             return MPArray((self._lt[0] + summand.lt[0],))
 
         ltens = [np.concatenate((self._lt[0], summand.lt[0]), axis=-1)]
@@ -1185,6 +1186,7 @@ def sumup(mpas, weights=None):
         assert len(weights) == len(mpas)
 
     if length == 1:
+        assert all(mpa.lt.shape == mpas[0].lt.shape for mpa in mpas)
         if weights is None:
             return MPArray([sum(mpa.lt[0] for mpa in mpas)])
         else:
diff --git a/mpnum/special.py b/mpnum/special.py
index 94af938..1a42f26 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -74,6 +74,7 @@ def sumup(mpas, rank, weights=None, svdfunc=truncated_svd):
 
     if length == 1:
         # The code below assumes at least two sites.
+        assert all(mpa.lt.shape == mpas[0].lt.shape for mpa in mpas)
         return mp.MPArray((sum(w * mpa.lt[0] for w, mpa in zip(weights, mpas)),))
 
     assert all(max(mpa.ranks) == 1 for mpa in mpas)
-- 
2.43.0


From 44c411393e4b1d4d032b8e07f2e6317acfdd38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:15 +0000
Subject: [PATCH 37/40] fix: reductions_mpo() of long chains exceeded the
 recursion limit

---
 mpnum/mpsmpo.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 1750657..b4022a0 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -256,17 +256,19 @@ def reductions_mpo(mpa, width=None, startsites=None, stopsites=None):
             traced over.
         :param end: +1 or -1 for tracing over the left or right end
         """
-        try:
-            return rem_cache[num_sites]
-        except KeyError:
-            rem = get_remainder(rem_cache, num_sites - 1, end)
-            last_pos = num_sites - 1 if end == 1 else -num_sites
+        # Iterative because of the recursion limit (long chains)
+        known = num_sites
+        while known not in rem_cache:
+            known -= 1
+        for num in range(known + 1, num_sites + 1):
+            rem = rem_cache[num - 1]
+            last_pos = num - 1 if end == 1 else -num
             add = np.trace(mpa.lt[last_pos], axis1=1, axis2=2)
             if end == -1:
                 rem, add = add, rem
 
-            rem_cache[num_sites] = matdot(rem, add)
-            return rem_cache[num_sites]
+            rem_cache[num] = matdot(rem, add)
+        return rem_cache[num_sites]
 
     num_sites = len(mpa)
     for start, stop in zip(startsites, stopsites):
-- 
2.43.0


From 8c549c61e768bda547997775002e582139920029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:13 +0000
Subject: [PATCH 38/40] fix: refuse sums and inner products of MPAs with
 different shapes

At inner sites, adding MPAs with a size-one leg or fewer legs silently
broadcasted the local tensors, as did block_diag(). inner() and
special.sumup() ignored how the legs are arranged.
---
 mpnum/mparray.py       | 8 ++++----
 mpnum/special.py       | 3 +--
 mpnum/utils/extmath.py | 2 ++
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fad1ac2..3ba0459 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1266,6 +1266,7 @@ def inner(mpa1, mpa2):
     """
     assert len(mpa1) == len(mpa2), \
         "Length is not equal: {} != {}".format(len(mpa1), len(mpa2))
+    assert mpa1.shape == mpa2.shape, "Physical shapes differ"
     ltens_new = (_local_dot(_local_ravel(l).conj(), _local_ravel(r), axes=(1, 1))
                  for l, r in zip(mpa1.lt, mpa2.lt))
     return _ltens_to_array(ltens_new)[0, ..., 0]
@@ -1864,10 +1865,9 @@ def _local_add(ltenss):
 
     """
     shape = ltenss[0].shape
-    # NOTE These are currently disabled due to real speed issues.
-    #  if __debug__:
-    #      for lt in ltenss[1:]:
-    #          assert_array_equal(shape[1:-1], lt.shape[1:-1])
+    # NOTE assert_array_equal() is too slow here.
+    assert all(lt.shape[1:-1] == shape[1:-1] for lt in ltenss), \
+        "Physical shapes differ"
 
     # FIXME: Find out whether the following code does the same as
     # :func:`block_diag()` used by :func:`_local_sum_identity` and
diff --git a/mpnum/special.py b/mpnum/special.py
index 1a42f26..02f01ea 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -69,12 +69,11 @@ def sumup(mpas, rank, weights=None, svdfunc=truncated_svd):
     nr_summands = len(mpas)
     weights = list(weights) if weights is not None else np.ones(nr_summands)
 
-    assert all(len(mpa) == length for mpa in mpas)
+    assert all(mpa.shape == mpas[0].shape for mpa in mpas)
     assert len(weights) == len(mpas)
 
     if length == 1:
         # The code below assumes at least two sites.
-        assert all(mpa.lt.shape == mpas[0].lt.shape for mpa in mpas)
         return mp.MPArray((sum(w * mpa.lt[0] for w, mpa in zip(weights, mpas)),))
 
     assert all(max(mpa.ranks) == 1 for mpa in mpas)
diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index 56b7f67..93ac6bd 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -88,6 +88,8 @@ def block_diag(summands, axes=(0, 1)):
                    if i not in axes]
     summands = [array.transpose(axes_order) for array in summands]
 
+    assert all(array.shape[nr_axes:] == summands[0].shape[nr_axes:]
+               for array in summands), "Shapes differ"
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
                    dtype=np.result_type(*summands))
-- 
2.43.0


From 0e511e5c97f4e2f3aefc35b4f7211791c1f8667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:21 +0000
Subject: [PATCH 39/40] fix: unpack and count samples packed as uint64

---
 mpnum/povm/mppovm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index d880afd..aa99087 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -802,6 +802,8 @@ class MPPovm(mp.MPArray):
         """
         assert samples.ndim == 1
         assert all(dim <= 255 for dim in self.outdims)
+        # numpy does not take uint64 as indices
+        samples = samples.astype(np.intp, casting='same_kind')
         return np.array(np.unravel_index(samples, self.nsoutdims)) \
                  .T.astype(np.uint8)
 
@@ -823,6 +825,8 @@ class MPPovm(mp.MPArray):
         n_out = np.prod(self.nsoutdims)
         if samples.ndim > 1:
             samples = self.pack_samples(samples)
+        # numpy does not take uint64 as indices
+        samples = samples.astype(np.intp, casting='same_kind')
         counts = np.bincount(samples, minlength=n_out)
         assert counts.shape == (n_out,)
         counts = counts.reshape(self.nsoutdims)
-- 
2.43.0


From 384e665908d48d5b8b6337ea30c18e7edfa6de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:51 +0000
Subject: [PATCH 40/40] fix: split_sites() of sites without legs returned too
 few sites

---
 mpnum/mparray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 3ba0459..0a1cfc8 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -525,6 +525,10 @@ class MPArray(object):
             assert (ndims % sites_per_group) == 0, \
                 'ndims not a multiple of sites_per_group'
             ltens += _extract_factors(self._lt[i], ndims // sites_per_group)
+            if ndims == 0:
+                # No legs to factor out, add trivial sites
+                trivial = np.eye(ltens[-1].shape[-1], dtype=ltens[-1].dtype)
+                ltens += [trivial] * (sites_per_group - 1)
         return MPArray(ltens)
 
     def vleg2leg(self, pos):
-- 
2.43.0

