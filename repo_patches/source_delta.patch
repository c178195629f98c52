From aaf0e17952036e4b272455fdfb389c75c1826534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 01/63] fix: nearest neighbors: exclude the central atom by
 index

With num=... and skip=<symbol of the central atom> the nearest neighbor was
dropped, since the central atom was assumed to be the first one left after
skipping. Also, atoms at zero distance were mistaken for the central atom.
---
 src/pwtools/crys.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..2063684 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1982,12 +1982,13 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
         only_msk = np.invert(msk)
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
+    # central atom excluded
+    only_msk = only_msk & (idx_lst_sort != np.arange(len(dist1d))[idx])
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
+        cut_msk = np.s_[:num]
         ret_idx = idx_lst_sort[only_msk][cut_msk]
     else:
-        cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
+        cut_msk = dist1d_sort < cutoff
         ret_idx = idx_lst_sort[cut_msk & only_msk]
     if not sort:
         orig_idx = np.arange(len(dist1d))
-- 
2.43.0


From cb3d73e7f70b0cb3c3da3676bac248e63e7928d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 02/63] fix: angles: do not mistake a cosine equal to mask_val
 for a masked entry

With deg=True, every mask_val outside [0,180] is allowed, for instance -1, but
the conversion to degree skipped all triples whose cosine equals mask_val.
---
 src/_ext_src/flib.f90 | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 5d92032..3aa378f 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -368,6 +368,13 @@ subroutine angles(distvecs, dists, mask_val, deg, anglesijk, natoms)
                 if (ii /= jj .and. ii /= kk .and. jj /= kk) then
                     cang = dot_product(distvecs(ii,jj,:), distvecs(ii,kk,:)) &
                         / dists(ii,jj) / dists(ii,kk)
+                    if (deg==1) then
+                        ! handle numerical corner cases where acos() can return
+                        ! NaN, note that eps is hardcoded currently
+                        if (cang > ceps) cang = 1.0d0
+                        if (cang < -ceps) cang = -1.0d0
+                        cang = acos(cang) * 180.0d0 / pi
+                    end if
                     anglesijk(ii,jj,kk) = cang
                 else
                     anglesijk(ii,jj,kk) = mask_val
@@ -375,13 +382,6 @@ subroutine angles(distvecs, dists, mask_val, deg, anglesijk, natoms)
             end do
         end do
     end do
-    if (deg==1) then
-        ! handle numerical corner cases where acos() can return NaN,
-        ! note that eps is hardcoded currently
-        where (anglesijk /= mask_val .and. anglesijk > ceps) anglesijk = 1.0d0
-        where (anglesijk /= mask_val .and. anglesijk < -ceps) anglesijk = -1.0d0
-        where (anglesijk /= mask_val) anglesijk = acos(anglesijk) * 180.0d0 / pi
-    end if
 end subroutine angles
 
 
-- 
2.43.0


From 6bed97e2c4c6f303f8b38e7fd79696bdb3f7490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 03/63] fix: rpdf: do not modify the trajs and amask lists of
 the caller

---
 src/pwtools/crys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 2063684..8d671fc 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1483,10 +1483,11 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
     if type(trajs) != type([]):
         trajs = [trajs]
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs * 2
         dup_trajs = True
     if len(amask) == 1:
-        amask *= 2
+        amask = amask * 2
+    amask = list(amask)
     trajs = list(map(struct2traj, trajs))
     assert len(trajs) == 2, "len(trajs) != 2"
     assert len(amask) == 2, "len(amask) != 2"
-- 
2.43.0


From a402091bada373220bc05e7171db9eb0abf3e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 04/63] fix: concatenate: drop time-dependent attributes which
 not all objects have

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 8d671fc..9d902a8 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3090,7 +3090,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From dfb9d41730ab0157e25f771505802d7eac8dafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 05/63] fix: Trajectory: independent iterators, such that
 nested or left loops work

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 9d902a8..7e633d4 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2935,7 +2935,8 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        for idx in range(self.nstep):
+            yield self[idx]
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From 3d4aa91111283a04d4980f8e088c1f248ee00298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 06/63] fix: Structure.copy: keep units which are not yet
 applied

---
 src/pwtools/crys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 7e633d4..11ac2fa 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2515,6 +2515,9 @@ class Structure(UnitsHandler):
             obj = Structure(set_all_auto=False)
         elif self.is_traj:
             obj = Trajectory(set_all_auto=False)
+        # units which are not yet applied must not get lost
+        obj.units = self.units.copy()
+        obj.units_applied = self.units_applied
         # Copy attrs over
         for name in self.attr_lst:
             val = getattr(self, name)
-- 
2.43.0


From 514742749b7da7c11a164c1deb34131581142498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 07/63] fix: Trajectory: no velocity for less than 3 steps
 instead of IndexError

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 11ac2fa..699be95 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2537,7 +2537,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # central differences need at least 3 steps
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+               self.coords.shape[0] > 2:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 2a5739b44b747b47971dd7a4ec5f3fa78dfe871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 08/63] fix: sliceput: index with a tuple, lists of slices are
 no valid index

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..91ada70 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -573,7 +573,7 @@ def sliceput(a, b, sl, axis=None):
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
-    a[tmp] = b
+    a[tuple(tmp) if isinstance(tmp, list) else tmp] = b
     return a
 
 
-- 
2.43.0


From 80ceb201f76a430339f7825437bc72ca7b1abdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 09/63] fix: num.sum: negative axes in tuples and with
 keepdims, pass on keywords

---
 src/pwtools/num.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 91ada70..a662db5 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -692,18 +692,6 @@ def sum(arr, axis=None, keepdims=False, **kwds):
     >>> num.sum(a, axis=(0,2)) - a.sum(axis=0).sum(axis=1)
     array([ 0.,  0.,  0.])
     """
-    # Recursion rocks!
-    def _sum(arr, tosum):
-        if len(tosum) > 0:
-            # Choose axis to sum over, remove from list w/ remaining axes.
-            axis = tosum.pop(0)
-            _arr = arr.sum(axis=axis)
-            # arr has one dim less now. Rename remaining axes accordingly.
-            _tosum = [xx - 1 if xx > axis else xx for xx in tosum]
-            return _sum(_arr, _tosum)
-        else:
-            return arr
-
     axis_is_int = isinstance(axis, int)
     if axis is None:
         if keepdims:
@@ -721,8 +709,9 @@ def sum(arr, axis=None, keepdims=False, **kwds):
             raise Exception("illegal type for axis: %s" % str(type(axis)))
         if keepdims:
             alldims = range(arr.ndim)
-            tosum = [xx for xx in alldims if xx not in tosum]
-        return _sum(arr, tosum)
+            keep = [xx + arr.ndim if xx < 0 else xx for xx in tosum]
+            tosum = [xx for xx in alldims if xx not in keep]
+        return np.sum(arr, axis=tuple(tosum), **kwds)
 
 
 class Interpol2D:
-- 
2.43.0


From b2c6ea8e96112e49ee1cac7baa0b2ea90cfd3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 10/63] fix: order_similar: honour order < 2 and repeat > 1

---
 src/pwtools/num.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index a662db5..556598e 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1703,11 +1703,8 @@ def order_similar(arr, repeat=1, order=2):
     """
     assert 0 <= order <= 2, "order must be 0,1,2"
     assert repeat >= 1, "repeat must be >= 1"
-    _o_zero = False
     _o_one = False
     _o_two = False
-    if order >= 0:
-        _o_zero = True
     if order >= 1:
         _o_one = True
     if order == 2:
@@ -1718,13 +1715,13 @@ def order_similar(arr, repeat=1, order=2):
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
+                if (ii == 0) or not _o_one:
                     # 1st row: choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
+                elif (ii == 1) or not _o_two:
                     # 2 rows: linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
-                elif (ii >= 2) and _o_two:
+                else:
                     # > 2 rows: quadradic extrapolation
                     #
                     # Calling polyfit is pretty slow and could be
@@ -1738,7 +1735,8 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(order_similar(arr, order=order),
+                             repeat=repeat - 1, order=order)
     return arr2
 
 
-- 
2.43.0


From cb9b49506139e73e03d20b11f80d0f71dba16aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 11/63] fix: PolyFit1D: accept points of shape (npoints,1)

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 556598e..2681933 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1559,7 +1559,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            assert pp.shape[1] == 1, "points have wrong ndim"
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From 9588da6af7d6e3b10e704da712a1d7fb5948f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 12/63] fix: polyfit: no division by zero when fitting constant
 data

---
 src/pwtools/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 2681933..bc4ef5a 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1351,7 +1351,8 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
         pmin = points.min(axis=0)[None, :]
         vmin = values.min()
         pscale = np.abs(points).max(axis=0)[None, :] - pmin
-        vscale = np.abs(values).max() - vmin
+        # constant data: nothing to scale
+        vscale = (np.abs(values).max() - vmin) or 1.0
     else:
         pscale = np.ones((points.shape[1],), dtype=float)[None, :]
         vscale = 1.0
-- 
2.43.0


From 63fdd1df9c8388dc411f646765479f64a42a0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 13/63] fix: fft_1d_loop: honour negative axes other than -1

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..863f55e 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -189,7 +189,7 @@ def fft_1d_loop(arr, axis=-1):
     nice reference for how to loop over remaining axes in the ndarray case.
     """
     if axis < 0:
-        axis = arr.ndim - 1
+        axis += arr.ndim
     axes = [ax for ax in range(arr.ndim) if ax != axis]
     # tuple here is 3x faster than generator expression
     #   idxs = (range(arr.shape[ax]) for ax in axes)
-- 
2.43.0


From dda48d207837b9bd1d60a8f195d7e5d00d342989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 14/63] fix: mirror: reverse along the requested axis, not
 along the first one

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 863f55e..355a959 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,9 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    return np.concatenate((np.flip(arr, axis=axis),
+                           num.slicetake(arr, slice(1, None), axis=axis)),
+                          axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From 03018f7344192773db78c7debeb97246b632dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 15/63] fix: find_peaks: compare the peak value with ymin, not
 its left neighbour

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 355a959..afaf007 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -565,7 +565,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     idx0 = []
     dfy = np.diff(y, n=1)
     for ii in range(len(dfy)-1):
-        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii] >= ymin:
+        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii+1] >= ymin:
             idx0.append(ii+1)
     pos0 = None
     if x is not None:
-- 
2.43.0


From 111f179f6475f53ff1aa4b052d92da7125452e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 16/63] fix: FIRFilter: firwin has no nyq keyword, bandstop
 used an undefined name

---
 src/pwtools/signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index afaf007..2b85906 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -952,11 +952,11 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
+            if self.ntaps % 2 == 0:
+                self.ntaps += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From 49b002588ccb1723d3898a34f350c4cc77402e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 17/63] fix: EosFit.bulkmod: B(V) at the given volume, not the
 constant B0

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..2f27b5a 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -227,10 +227,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From 492232c3dcfefec6f0bbadd31fcf336998b11e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 18/63] fix: arrayio.readtxt: keep dims of length 1 (shape
 written is the shape read)

---
 src/pwtools/arrayio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..eb1ee62 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -193,6 +193,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
+        # keep dims of length 1
+        kwargs.setdefault('ndmin', min(ndim, 2))
         read_arr = np.loadtxt(fh, **kwargs)
 
     # 1d and 2d
-- 
2.43.0


From 488a7a6433fbbe69a77b88e2d179b8cf85f672b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 19/63] fix: arrayio.arr2d_to_3d: default axis=-1 always failed

---
 src/pwtools/arrayio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index eb1ee62..c0bfd4e 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -232,6 +232,9 @@ def arr2d_to_3d(arr, shape, axis=-1):
     """
     assert arr.ndim == 2, "input must be 2d array"
     assert len(shape) == TXT_MAXDIM
+    # axis = -1 means the last dim
+    if axis == -1:
+        axis = len(shape) - 1
     shape_2d_chunk = shape[:axis] + shape[(axis+1):]
     # arr:   (50*1000, 3)
     # arr3d: (50, 1000, 3) : natoms = 50, nstep = 1000, 3 = x,y,z
-- 
2.43.0


From 33471f6ff1ccb4c6b03a40a92aa2a5cf5e662b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 20/63] fix: CifFile: block=... is the block name without
 'data_', as documented

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..b1c8e3a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -385,7 +385,7 @@ class CifFile(StructureFileParser):
         if self.block is None:
             cif_block = cf.first_block()
         else:
-            cif_block = cf['data_' + self.block]
+            cif_block = cf[self.block]
         return cif_block
 
     def get_coords_frac(self):
-- 
2.43.0


From 3bcc3c611f9a2967a554b883811e39ae87703ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 21/63] fix: PDBFile: cryst_const is None without CRYST1
 record, as documented

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b1c8e3a..78e535d 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -532,6 +532,8 @@ class PDBFile(StructureFileParser):
         #          a        b        c       alpha  beta   gamma  |space grp|  z-value
         pat = r'CRYST1\s+((\s+' + regex.float_re + r'){6}).*'
         match = re.search(pat, self.txt)
+        if match is None:
+            return None
         return np.array(match.group(1).split()).astype(float)
 
 
-- 
2.43.0


From d52de4ad6bd5a2f50fdf1df4b4e3d3edab4c08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 22/63] fix: PwSCFOutputFile: coords/symbols are None when
 natoms or the site block is missing

---
 src/pwtools/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 78e535d..41ef685 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -730,13 +730,16 @@ class PwSCFOutputFile(StructureFileParser):
         precision.
         """
         verbose("getting start coords")
-        self.try_set_attr('natoms')
+        if not self.check_set_attr('natoms'):
+            return None
         natoms = self.natoms
         # coords
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
               sed -re 's/.*\((.*)\)/\1/g'" \
               %(natoms, self.filename, natoms)
         coords = arr2d_from_txt(com.backtick(cmd))
+        if coords is None:
+            return None
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
               %s '{print $2}'" \
               %(natoms, self.filename, natoms, AWK)
-- 
2.43.0


From 3321b8d1ba80bd0ef385399ab1846cbf58481866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 23/63] fix: PwVCMDOutputFile: ekin/econst/temperature are None
 when not printed

---
 src/pwtools/parse.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 41ef685..52cb498 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1158,18 +1158,24 @@ class PwVCMDOutputFile(PwMDOutputFile):
 
     def get_ekin(self):
         verbose("getting ekin")
-        self.try_set_attr('_datadct')
-        return self._datadct['ekin']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['ekin']
+        else:
+            return None
 
     def get_econst(self):
         verbose("getting econst")
-        self.try_set_attr('_datadct')
-        return self._datadct['econst']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['econst']
+        else:
+            return None
 
     def get_temperature(self):
         verbose("getting temperature")
-        self.try_set_attr('_datadct')
-        return self._datadct['temperature']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['temperature']
+        else:
+            return None
 
 
 class CpmdSCFOutputFile(StructureFileParser):
-- 
2.43.0


From ba4afd429ed646c4f83957853163f63db6a67ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 24/63] fix: PwMDOutputFile.get_forces: None when the forces
 are not printed

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 52cb498..be79862 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1129,7 +1129,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
-- 
2.43.0


From 0622c3399b5449e9df2cd031997fab00feb5edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 25/63] fix: Cp2kMDOutputFile, LammpsTextMDOutputFile: don't
 change the units of other parsers

---
 src/pwtools/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index be79862..089fbdb 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1833,6 +1833,8 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
+        # copy: don't change Cp2kSCFOutputFile.default_units (stress in GPa there)
+        self.default_units = self.default_units.copy()
         self.default_units['stress'] = 1e-4 # bar -> GPa
         self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
         TrajectoryFileParser.__init__(self, *args, **kwds)
@@ -2221,6 +2223,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
+        # copy: don't change StructureFileParser.default_units
+        self.default_units = self.default_units.copy()
         self.default_units['stress'] = 1e-4     # bar -> GPa
         self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
         self.default_units['time'] = ps/fs      # ps -> fs
-- 
2.43.0


From d145a830a6983f950c5a10e8247e31efbb045692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 26/63] fix: CPMD, CP2K: read ENERGIES, .cell, .ener, .stress
 files with a single step

---
 src/pwtools/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 089fbdb..88d72db 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1535,7 +1535,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            arr = np.loadtxt(fn, ndmin=2)
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
@@ -1887,19 +1887,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return np.loadtxt(self._cell_file, ndmin=2)
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return np.loadtxt(self._ener_file, ndmin=2)
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return np.loadtxt(self._stress_file, ndmin=2)
         else:
             return None
 
-- 
2.43.0


From a5c882e636158116426379cdb9555d837d6307f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 27/63] fix: Cp2kSCFOutputFile.get_stress: None if no stress
 tensor is printed

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 88d72db..92ad4b4 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1824,6 +1824,8 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
+        if ret == '':
+            return None
         arr = np.array([x.split() for x in ret.splitlines()])
         return arr[:,1:].astype(float)
 
-- 
2.43.0


From 4798f71ec65f067dc1e7a97ff504b51ee8a55a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 28/63] fix: CpmdMDOutputFile: ekin is ECLASSIC - EKS, not
 ECLASSIC

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 92ad4b4..291b6db 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1600,8 +1600,9 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             return None
 
     def get_ekin(self):
+        """Kinetic energy of the ions [Ha]. ECLASSIC = EKS + kinetic energy."""
         if self.check_set_attr('_energies_file'):
-            return self._energies_file['eclassic']
+            return self._energies_file['eclassic'] - self._energies_file['eks']
         else:
             return None
 
-- 
2.43.0


From 8ebcbfc70bbaaf8cfa0ea749d0491d2b38be8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 29/63] fix: SpecialPointsPath: ks_frac is optional, as
 documented

---
 src/pwtools/kpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4dc1ac9..9578502 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -71,7 +71,7 @@ class SpecialPointsPath:
         symbols : sequence of strings (nks,), optional
             special point symbol each point in `ks`
         """
-        assert (ks is not None) and (ks_frac is not None), ("use either ks or ks_frac")
+        assert ks is not None, "ks needed"
         self.ks = ks
         self.ks_frac = ks_frac
         self.symbols = symbols
-- 
2.43.0


From d2560da6eab1697eafd97d0ce3951ae193b697ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 30/63] fix: kpoints_str_pwin: any two sequences (arrays were
 added elementwise)

---
 src/pwtools/pwscf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From d57f4909d4bf0827c4ea9e77a2155ec57b828d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 31/63] fix: SQLiteDB.fill_column, attach_column: work for
 tables without rows

---
 src/pwtools/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..5996d45 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -328,7 +328,8 @@ class SQLiteDB:
         ----------
         table : str, optional
         """
-        return self.get_single("select max(rowid) from %s" %self._get_table(table))
+        # max() is NULL (None) for an empty table
+        return self.get_single("select max(rowid) from %s" %self._get_table(table)) or 0
 
     def fill_column(self, col, values, start=1, extend=True,
                     overwrite=False, table=None):
-- 
2.43.0


From 62a45d63686cabc0514ccbfd9cb1a98cf16e16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 32/63] fix: FileTemplate.write: keys=[] (copy only) raised
 TypeError

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..0813308 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From 34ae1b33c32ab0f9b33108afb48a5bb83b8c6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 33/63] fix: ParameterStudy.write_input: excl_push for any
 db_table, not only 'calc'

---
 src/pwtools/batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 0813308..475f3ba 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,8 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table, (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From c6738fd9fd387e94e6f7d6e453b48c1704a6520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 34/63] fix: Calculation: don't append machine.template to the
 caller's (or the default) list

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 475f3ba..d8a99a5 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,8 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        # copy, since we append machine.template below
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From 6deeb97be0f51ffe69f93f1cf0361edcfc8d2d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 35/63] fix: ParameterStudy.write_input: one db column per key,
 also if types differ

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index d8a99a5..9bd3437 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -593,7 +593,7 @@ class ParameterStudy:
         # make a set = unique entries
         raw_header = [(key, entry.sqltype.upper()) for record in sql_records \
             for key, entry in record.items()]
-        header = list(set(raw_header))
+        header = list(dict(raw_header).items())
         if have_new_db:
             sqldb.create_table(header)
         else:
-- 
2.43.0


From 4eaa3f84ab4d548ae98d531b95bf08779f642a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 36/63] fix: ParameterStudy.write_input: mode='w' with blanks
 in calc_root called rm on wrong paths

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 9bd3437..9b195a0 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -559,7 +559,7 @@ class ParameterStudy:
                 if backup:
                     common.backup(calc_dir)
                 if mode == 'w':
-                    common.system("rm -r %s" %calc_dir, wait=True)
+                    shutil.rmtree(calc_dir)
             run_txt = "here=$(pwd)\n"
             for _idx, params in enumerate(self.params_lst):
                 params = common.flatten(params)
-- 
2.43.0


From 725f4b6eb6ea18b7d28e2ffaddfff3a95e82f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 37/63] fix: ParameterStudy: machines can be any sequence, as
 documented

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 9b195a0..a8d42b9 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -472,7 +472,7 @@ class ParameterStudy:
         calc_dir_prefix : str, optional
             Prefix for the top calculation dir (e.g. 'calc' for 'calc_foo').
         """
-        self.machines = machines if (type([]) == type(machines)) else [machines]
+        self.machines = list(common.asseq(machines))
         self.templates = templates
         self.params_lst = params_lst
         self.study_name = study_name
-- 
2.43.0


From f9d3fb1e2c53a8df04a48bfaf455422d79ce91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 38/63] fix: open_and_close: open .gz files in text mode like
 all others

---
 src/pwtools/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..462595b 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,7 +47,8 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'r')
+            # text mode, 'r' is binary mode for gzip.open()
+            fd = _open(fn, 'rt')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
-- 
2.43.0


From 9f206946b66e40041cc85239e584721eecea96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 39/63] fix: common.toslice, tobool, ffloat: accept strings, as
 documented

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..e33cdae 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From 804b2f765719783b94657db8d1f09445d0c74778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 40/63] fix: rbf.Rbf: predict and deriv of all-zero values are
 zero, not nan

---
 src/pwtools/rbf/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..d25bd42 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -401,6 +401,11 @@ class Rbf:
             kwds = dict(assume_a="sym")
         return la.solve(Gr, self.values, **kwds)
 
+    def _get_maxw(self):
+        # all weights are zero if all values are
+        maxw = np.abs(self.w).max() * 1.0
+        return np.where(maxw > 0, maxw, 1.0)
+
     # XXX the jit here causes a 3x speed up over numpy but a huge performance
     # regression in test_rbf.py::test_opt_api, not sure why. Basically, the
     # test never finishes. W/o the jit, the jax.numpy predict is 4x slower than
@@ -427,7 +432,7 @@ class Rbf:
             "g_ij must match length of w_j" % (str(G.shape), str(self.w.shape))
         )
         # normalize w
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         values = np.dot(G, self.w / maxw) * maxw
         return values[0] if _got_single_point else values
 
@@ -543,7 +548,7 @@ class Rbf:
         L, N = points.shape
         centers = self.points
         G = self.rbf(self.get_distsq(points=points), self.p)
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         fname = self.rbf.__name__
 
         # fmt: off
-- 
2.43.0


From fcd26669fd858274746ccc99102aa02d51960941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 41/63] fix: rbf.fit_opt: leave opt_kwds of the caller alone

---
 src/pwtools/rbf/hyperopt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..31ce740 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,7 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    opt_kwds = dict(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
-- 
2.43.0


From 8d01872f8a15a21e1af932f91fde4f480d3694f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 42/63] fix: rbf.fit_opt: brute without polishing for what="p"

---
 src/pwtools/rbf/hyperopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 31ce740..51ae21a 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -243,6 +243,8 @@ def fit_opt(
                 fit_err, ranges=bounds, disp=disp, **opt_kwds
             )
     rbf_kwds_opt = copy.copy(rbf_kwds)
+    # scalar for what="p" and brute(..., finish=None)
+    xopt = np.atleast_1d(xopt)
     for idx, symbol in enumerate(what_lst):
         rbf_kwds_opt[symbol] = xopt[idx]
     return Rbf(points, values, **rbf_kwds_opt)
-- 
2.43.0


From bd8c0297082ec0790d226d08dafec6cf7efc634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 43/63] fix: rbf.fit_opt: default range of p without p=0, which
 brute evaluates and no model can use

---
 src/pwtools/rbf/hyperopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 51ae21a..c7cfd50 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -228,9 +228,9 @@ def fit_opt(
         xopt = optimize.fmin(fit_err, x0, disp=disp, **opt_kwds)
     elif method in ["de", "brute"]:
         if what == "p":
-            _bounds = [(0, 5 * _get_p0())]
+            _bounds = [(1e-3 * _get_p0(), 5 * _get_p0())]
         elif what == "pr":
-            _bounds = [(0, 5 * _get_p0()), (1e-12, 1e-1)]
+            _bounds = [(1e-3 * _get_p0(), 5 * _get_p0()), (1e-12, 1e-1)]
         if method == "de":
             bounds = opt_kwds.pop("bounds", _bounds)
             ret = optimize.differential_evolution(
-- 
2.43.0


From f756aaae09b455fcd69d14b5efbc16d667efb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 44/63] fix: crys.angle: same result for equal vectors wherever
 they are in memory (test_traj failed at random)

---
 src/pwtools/crys.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 699be95..a15b397 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -30,8 +30,11 @@ def angle(x,y):
     x,y : 1d numpy arrays
     """
     # Numpy's `acos' is "acrcos", but we take the one from math for scalar
-    # args.
-    return acos(np.dot(x,y)/norm(x)/norm(y))*180.0/pi
+    # args. No BLAS (np.dot, norm) here: its last bit depends on where in memory
+    # the vectors are, such that equal cells would have different angles.
+    x = np.asarray(x)
+    y = np.asarray(y)
+    return acos((x*y).sum()/sqrt((x*x).sum())/sqrt((y*y).sum()))*180.0/pi
 
 
 #-----------------------------------------------------------------------------
-- 
2.43.0


From a56a699fb2e9ac141ceeb8a2ab7822fa539d23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 45/63] fix: calculators: parameters of one calculator do not
 change the defaults of all others

---
 src/pwtools/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..0895d5f 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -103,7 +103,7 @@ class CalculatorBase:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
-        self.parameters = self.default_parameters
+        self.parameters = dict(self.default_parameters)
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
-- 
2.43.0


From 80afdea19a03c2ea1998715e25979d7feb1c0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 46/63] fix: calculators: use the default label, directory and
 command

---
 src/pwtools/calculators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 0895d5f..1db9316 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -107,6 +107,12 @@ class CalculatorBase:
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
+    def get_ase_kwds(self, kwds):
+        """Return `kwds` for the ASE constructor, which doesn't know our defaults
+        of `label`, `directory` and `command`."""
+        keys = ['label', 'directory', 'command']
+        return dict([(k, self.default_parameters[k]) for k in keys], **kwds)
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -259,7 +265,7 @@ K_POINTS automatic
             :func:`~pwtools.common.backup`
         """
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        FileIOCalculator.__init__(self, **self.get_ase_kwds(kwds))
 
         # ASE keywords
         if self.smearing is not None:
@@ -386,7 +392,7 @@ run 0
         """
 
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        FileIOCalculator.__init__(self, **self.get_ase_kwds(kwds))
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
             ['prefix', 'dumpfile', 'structfile']
-- 
2.43.0


From 242ff32fbe6b29ec8153b1459f5cd8543127d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 47/63] fix: calculators.Pwscf: pseudopotential of Cl was used
 for C

---
 src/pwtools/calculators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 1db9316..dc2bb2c 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -300,7 +300,9 @@ K_POINTS automatic
             pseudos = []
             for sym in struct.symbols_unique:
                 for ppi in self.pp:
-                    if ppi.startswith(sym):
+                    # longest match: "Cl.UPF" is for Cl and not for C
+                    if sym == max([x for x in struct.symbols_unique
+                                   if ppi.startswith(x)], key=len, default=None):
                         pseudos.append(ppi)
                         break
         assert len(pseudos) == struct.ntypat
-- 
2.43.0


From 31199dda377f01aa5a9e687a67da2890bf909b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 48/63] fix: calculators.Pwscf: smearing settings belong into
 the system namelist, pw.x ignored them

---
 src/pwtools/calculators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index dc2bb2c..63af8da 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -206,11 +206,10 @@ class Pwscf(FileIOCalculator, CalculatorBase):
     ecutwfc = {ecutwfc},
     ecutrho = {ecutrho},
     nosym = .false.
-/
     occupations = 'smearing'
     smearing = 'mv',
     degauss = 0.005
-
+/
 &electrons
     electron_maxstep = {electron_maxstep}
     diagonalization = '{diagonalization}'
-- 
2.43.0


From ce8aec93ddc22f9089482af1aa05fe6f0d0af84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 49/63] fix: parse: read thermo output of newer LAMMPS
 versions, which indent the header

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 291b6db..def6132 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2295,7 +2295,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             # Strip all text except for the data columns. Also works for
             # multiple ``run`` or ``minimize`` commands in one input file,
             # which cause wildly mixed text.
-            cmd = r"sed -nre '/^Step/,/^Loop/p' %s | \
+            # newer LAMMPS versions indent the header
+            cmd = r"sed -nre '/^ *Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
-- 
2.43.0


From b720b7c14166cc6ecf516fa0257b419aef5cd585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 50/63] fix: calculators.Lammps: file names relative to the
 calculation directory (relative directory failed)

---
 src/pwtools/calculators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 63af8da..ea738b2 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -370,14 +370,14 @@ boundary p p p
 atom_style atomic
 
 # lmp.struct written by pwtools
-read_data {structfile}
+read_data {prefix}.struct
 
 # interactions
 pair_style {pair_style}
 pair_coeff {pair_coeff}
 
 # IO
-dump dump_txt all custom 1 {dumpfile} id type xu yu zu fx fy fz
+dump dump_txt all custom 1 {prefix}.out.dump id type xu yu zu fx fy fz
 dump_modify dump_txt sort id
 
 thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma &
-- 
2.43.0


From d9db0a2975d2d93933b1d57ac85ba04046a6e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 51/63] fix: calculators.Lammps: forces with a label other than
 lmp

---
 src/pwtools/calculators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index ea738b2..bd35b98 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -38,7 +38,7 @@ dropped.
 import os
 import shutil
 
-from pwtools import common, pwscf, crys, io, constants
+from pwtools import common, pwscf, crys, io, constants, parse
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -421,7 +421,11 @@ run 0
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_lammps_md_txt(self.outfile)[0]
+        # file names depend on `label`
+        pp = parse.LammpsTextMDOutputFile(self.outfile)
+        pp.dumpfilename = self.dumpfile
+        pp.symbolsfilename = self.structfile + '.symbols'
+        st = pp.get_traj()[0]
         self.results['energy'] = st.etot
         self.results['forces'] = st.forces
         self.results['stress'] = stress_pwtools2ase(st.stress)
-- 
2.43.0


From b5cb28df37c46282820e511fb6ff3a21d6f022db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 52/63] fix: calculators.Lammps: rotate forces and stress from
 the LAMMPS cell to that of the atoms

---
 src/pwtools/calculators.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index bd35b98..affb510 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -38,6 +38,8 @@ dropped.
 import os
 import shutil
 
+import numpy as np
+
 from pwtools import common, pwscf, crys, io, constants, parse
 
 
@@ -412,9 +414,11 @@ run 0
                        self.structfile, self.logfile]:
                 if os.path.exists(fn):
                     common.backup(fn)
+        struct = crys.atoms2struct(atoms)
+        self.cell = struct.cell
         common.file_write(self.infile, self.fill_infile_templ())
         io.write_lammps(self.structfile,
-                        crys.atoms2struct(atoms),
+                        struct,
                         symbolsbasename=os.path.basename(self.structfile) +
                             '.symbols')
 
@@ -426,6 +430,9 @@ run 0
         pp.dumpfilename = self.dumpfile
         pp.symbolsfilename = self.structfile + '.symbols'
         st = pp.get_traj()[0]
+        # LAMMPS has its own cell orientation, see io.write_lammps()
+        rot = np.dot(np.linalg.inv(st.cell), self.cell)
         self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        self.results['forces'] = np.dot(st.forces, rot)
+        self.results['stress'] = stress_pwtools2ase(
+            np.dot(rot.T, np.dot(st.stress, rot)))
-- 
2.43.0


From 2c5aece447a06047b61d9af1df696f3aa3efb965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 53/63] fix: RandomStructure: angles which no cell can have are
 a failed try, not a ValueError

---
 src/pwtools/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 66fd687..93c534c 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -113,7 +113,11 @@ class RandomStructure:
         cnt = 1
         while cnt <= self.cell_maxtry:
             cc = _get()
-            vol = volume_cc(cc)
+            try:
+                vol = volume_cc(cc)
+            except ValueError:
+                # there is no cell with these angles
+                vol = np.nan
             if not self.vol_range[0] <= vol <= self.vol_range[1]:
                 cc = _get()
                 cnt += 1
-- 
2.43.0


From 22b0eb4656241b05e12913ef5193bbf6b367c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 54/63] fix: RandomStructure: atoms could be too close to a
 periodic image in small cells

---
 src/pwtools/random.py | 60 +++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 93c534c..b398cff 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -1,9 +1,9 @@
+from itertools import product
 from math import acos, pi, sin, cos, sqrt
 import numpy as np
 from numpy.random import uniform
-from pwtools import atomic_data, _flib
-from pwtools.crys import cc2cell, volume_cc, Structure
-from pwtools.num import fempty
+from pwtools import atomic_data
+from pwtools.crys import cc2cell, volume_cc, min_image_convention, Structure
 
 class RandomStructureFail(Exception):
     def __init__(self, msg):
@@ -127,10 +127,11 @@ class RandomStructure:
         raise RandomStructureFail("failed creating random cryst_const")
 
     def _atoms_too_close(self, iatom):
-        """Check if any two atoms are too close, i.e. closer then the sum of
-        their covalent radii, scaled by self.close_scale.
+        """Check if atom `iatom` is too close to any of the atoms before it, i.e.
+        closer then the sum of their covalent radii, scaled by
+        self.close_scale.
 
-        Minimum image distances are used.
+        The distances to all periodic images of the other atoms are used.
 
         Parameters
         ----------
@@ -138,37 +139,22 @@ class RandomStructure:
             Index into self.coords_frac, defining the number of atoms currently
             in there (iatom +1).
         """
-        # dist: min image dist correct only up to rmax_smith(), but we check if
-        #   atoms are too close; too big dists are no problem; choose only upper
-        #   triangle from array `dist`
-        natoms_filled = iatom + 1
-        coords_frac = self.coords_frac[:natoms_filled,:]
-        # This part is 10x slower than the fortran version  --------
-        # distvecs_frac: (natoms_filled, natoms_filled, 3)
-        # distvecs:      (natoms_filled, natoms_filled, 3)
-        # dist:          (natoms_filled, natoms_filled)
-        ##distvecs_frac = coords_frac[:,None,:] - coords_frac[None,:,:]
-        ##distvecs_frac = min_image_convention(sij)
-        ##distvecs = np.dot(sij, self.cell)
-        ##dist = np.sqrt((rij**2.0).sum(axis=2))
-        #-----------------------------------------------------------
-        nn = natoms_filled
-        # XXX For maximum speed: dummy1 and dummy2 may be big and are allocated
-        # each time this method is called, which may be *many* times. Either
-        # re-write the fortran code to not require them as input or allocate
-        # them in __init__().
-        distsq,dummy1,dummy2 = fempty((nn,nn)), fempty((nn,nn,3)), \
-                               fempty((nn,nn,3))
-        distsq, dummy1, dummy2 = _flib.distsq_frac(coords_frac,
-                                                   self.cell,
-                                                   1,
-                                                   distsq,
-                                                   dummy1,
-                                                   dummy2)
-        dist = np.sqrt(distsq)
-        # This part is fast
-        dij_min_filled = self.dij_min[:natoms_filled,:natoms_filled]
-        return np.triu(dist < dij_min_filled, k=1).any()
+        # The nearest image in fractional coords is the nearest one in space
+        # only up to rmax_smith(), which can be much smaller than dij_min.
+        # Therefore check all images which can be that close: Along each axis,
+        # the height of the cell is 1/|i-th column of inv(cell)|.
+        dij_min = self.dij_min[iatom,:iatom]
+        inv_height = np.sqrt((np.linalg.inv(self.cell)**2.0).sum(axis=0))
+        nimg = [int(np.floor(x)) for x in dij_min.max()*inv_height + 0.5]
+        shifts = np.array(list(product(*[range(-n, n+1) for n in nimg])))
+        # sij:  (iatom, 3)
+        # rij:  (iatom, nshifts, 3)
+        # dist: (iatom, nshifts)
+        sij = min_image_convention(self.coords_frac[iatom,:] - \
+                                   self.coords_frac[:iatom,:])
+        rij = np.dot(sij[:,None,:] + shifts[None,:,:], self.cell)
+        dist = np.sqrt((rij**2.0).sum(axis=2))
+        return (dist < dij_min[:,None]).any()
 
     def _add_random_atom(self, iatom):
         self.coords_frac[iatom,:] = np.random.rand(3)
-- 
2.43.0


From 098c85d0e3ba30c6b4936179b80151262f91d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 55/63] fix: mpl.Data2D.update: new data was ignored if given
 in another form than x, y, Z

---
 src/pwtools/mpl.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 506f12a..ff5fb26 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -488,8 +488,20 @@ class Data2D:
     def update(self, **kwds):
         """Update object with new or more input data. Input args are the same
         as in the constructor, i.e. `x`, `y`, `xx`, ..."""
-        for key,val in kwds.items():
+        for key in kwds:
             assert key in self.attr_lst, ("'%s' not allowed" %key)
+        # forget the other forms of the data which is replaced, _update() would
+        # use them instead of the new data
+        forms = [('x', 'y'), ('X', 'Y'), ('xx', 'yy'), ('XY',)]
+        for form in forms:
+            if any(kwds.get(key) is not None for key in form):
+                for key in sum(forms, ()):
+                    if key not in form:
+                        setattr(self, key, None)
+                break
+        if kwds.get('zz') is not None:
+            self.Z = None
+        for key,val in kwds.items():
             setattr(self, key, val)
         self._update()
 
-- 
2.43.0


From f01ea366448ea68161ed982b9122b781e68283d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 56/63] fix: signal.find_peaks raised TypeError for peaks at
 the left edge of the data

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 2b85906..1f5b47e 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -571,7 +571,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     if x is not None:
         pos0 = []
         for i0 in idx0:
-            sl = slice(i0-spread,i0+1+spread,None)
+            sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
             spl = num.Spline(xx,-yy,k=k,s=None)
-- 
2.43.0


From 49e9c49bd7e19a1231fe1d590ef7d0330338ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 57/63] fix: crys.coord_trans truncated the result for integer
 coordinates

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index a15b397..3c84ac6 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -933,7 +933,8 @@ def coord_trans(coords, old=None, new=None, copy=True, axis=-1):
                       "`old` and `new` must be square")
     # arr.T and arr.swapaxes() are no in-place operations, just views, input
     # arrays are not changed, but copy() b/c we can overwrite coords
-    _coords = coords.copy() if copy else coords
+    # (no coords.copy(): the result does not fit into an integer array)
+    _coords = coords * 1.0 if copy else coords
     mx_axis = _coords.ndim - 1
     axis = mx_axis if (axis == -1) else axis
     # must use `coords[:] = ...`, just `coords = ...` is a new array
-- 
2.43.0


From c384e7eea6ccdf27868931c68dea9b2562948a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 58/63] fix: crys.min_image_convention raised UFuncTypeError
 for integer arrays

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3c84ac6..b18f6c2 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1031,7 +1031,8 @@ def min_image_convention(sij, copy=False):
     -------
     sij in-place modified or copy
     """
-    sij = sij.copy() if copy else sij
+    # integer arrays cannot be changed in-place
+    sij = sij * 1.0 if copy or sij.dtype.kind in 'iu' else sij
     mask = sij >= 0.5
     while mask.any():
         sij[mask] -= 1.0
-- 
2.43.0


From 3c8fb33ea70bc5b465c61d6866605d9a108cb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 59/63] fix: crys.velocity_traj truncated velocities of integer
 coordinates

---
 src/pwtools/crys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b18f6c2..0770c9c 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -709,12 +709,11 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # course. Also, one *could* create 3*natoms Spline objects thru coords
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
-    if endpoints:
-        vv = np.empty_like(arr)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
     if endpoints:
+        vv = np.empty(arr.shape, dtype=tmp.dtype)
         vv[1:-1,...] = tmp
         vv[0,...] = tmp[0,...]
         vv[-1,...] = tmp[-1,...]
-- 
2.43.0


From c5e3d1289d1dcb8cbc80ddd58987789167a4cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 60/63] fix: crys.smooth truncated the result for integer
 quantities

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 0770c9c..14cbaee 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3207,11 +3207,11 @@ def smooth(traj, kern, method=1):
                 if attr.ndim == 1:
                     tmp = signal.smooth(attr, kern, axis=traj.timeaxis)
                 elif attr.ndim == 2:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=float)
                     for jj in range(attr.shape[1]):
                         tmp[:,jj] = signal.smooth(attr[:,jj], kern)
                 elif attr.ndim == 3:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=float)
                     for jj in range(attr.shape[1]):
                         for kk in range(attr.shape[2]):
                             tmp[:,jj,kk] = signal.smooth(attr[:,jj,kk], kern)
-- 
2.43.0


From c23175f63d79cc57b9fb6046c1ad78ac4f1c44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 61/63] fix: Structure and Trajectory could not be built with
 integer cryst_const

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 14cbaee..7f78e3b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2160,7 +2160,7 @@ class UnitsHandler(FlexibleGetters):
         # so, but that would break too much code, BUT we could just add
         # backward compat get_cryst_const, which concatenates these ...
         if self.is_set_attr('cryst_const'):
-            cc = self.cryst_const.copy()
+            cc = self.cryst_const * 1.0
             if cc.ndim == 1:
                 cc[:3] *= self.units['length']
             elif cc.ndim == 2:
-- 
2.43.0


From e0e0493da9bc68faeaed76502e3f2f378bcc9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 62/63] fix: signal.scale raised UFuncTypeError for integer
 data

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 1f5b47e..2ef3618 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -874,7 +874,7 @@ def scale(x, copy=True):
     """
     xx = x.copy() if copy else x
     xx = xx - xx.min()
-    xx /= xx.max()
+    xx = xx / xx.max()
     return xx
 
 
-- 
2.43.0


From bf8f75394e24f65b6f9a67d308189cacf7790407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:15 +0000
Subject: [PATCH 63/63] fix: PwMDOutputFile.get_coords: None for
 ATOMIC_POSITIONS without unit, instead of coords in Bohr

---
 src/pwtools/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index def6132..e8e2c47 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1032,7 +1032,9 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_coords(self):
         """Cartesian coords [Bohr]. If coords_unit='alat', then [Bohr] if
         self.alat in [Bohr]."""
-        if self.check_set_attr_lst(['_coords', 'coords_unit', 'alat']):
+        if self.check_set_attr_lst(['_coords', 'alat']):
+            # None for ATOMIC_POSITIONS <empty>
+            self.try_set_attr('coords_unit')
             if self.coords_unit in ['bohr', None]:
                 return self._coords
             elif self.coords_unit == 'alat':
-- 
2.43.0

