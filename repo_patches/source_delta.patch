From 4089ae0fa89d64036ab2a6ff2053b70b93acefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 01/83] fix: let chained functions take several arguments
 (arctand2 raised TypeError)

---
 pygeode/ufunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 4c0f99d..b84042e 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -200,7 +200,7 @@ def chain (*f):
   assert len(f) > 0
   if len(f) == 1: return f[0]
   def make_chain (f1,f2):
-    def f3(x): return f1(f2(x))
+    def f3(*x): return f1(f2(*x))
     return f3
   return make_chain (f[0],chain(*f[1:]))
 
-- 
2.43.0


From 0966bee97e497693745fd187313818589e30fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 02/83] fix: fill and unfill work on variables without axes
 (IndexError)

---
 pygeode/varoperations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..f947353 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -550,10 +550,9 @@ class FillVar(Var):
     copy_meta(var, self)
   def getview (self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
+    data = np.array(view.get(self.var, pbar=pbar))
 #    data[where(data == float('NaN'))] = self.fill
-    w = np.where(np.isnan(data))
-    data[w] = self._fill
+    data[np.isnan(data)] = self._fill
     return data
 
 def fill (self, fill):
@@ -595,9 +594,8 @@ class UnfillVar(Var):
     copy_meta (var, self)
   def getview(self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
-    data = np.asarray(data, self.dtype)
-    data[np.where(data == self._fill)] = float('NaN')
+    data = np.array(view.get(self.var, pbar=pbar), self.dtype)
+    data[data == self._fill] = float('NaN')
     return data
 
 def unfill (self, fill):
-- 
2.43.0


From aaa1cc6e94e76d98f43f19c99a073bf59ecc6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 03/83] fix: find argmax and argmin over the whole axis when it
 exceeds the memory limit

---
 pygeode/reduce.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..4f0e3d4 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -144,7 +144,8 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The whole of the reduced axis is needed to find the index
+    for outsl, (indata,) in loopover(self.var, view, preserve=self.indices, pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
@@ -173,7 +174,8 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The whole of the reduced axis is needed to find the index
+    for outsl, (indata,) in loopover(self.var, view, preserve=self.indices, pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
-- 
2.43.0


From e16ef6e8d4a4a63796e2f3812a0304b26a139abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 04/83] fix: argmax and argmin accept an axis index or class,
 as documented (TypeError)

---
 pygeode/reduce.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 4f0e3d4..3619090 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -121,12 +121,12 @@ class NANMaxVar(ReducedVar):
 
 class ArgMaxVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    (index,) = [var.whichaxis(i) for i in indices]
 
     self.N = len(axes[index])
     self.var = var
@@ -151,12 +151,12 @@ class ArgMaxVar(ReducedVar):
 # }}}
 class ArgMinVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    (index,) = [var.whichaxis(i) for i in indices]
 
     self.N = len(axes[index])
     self.var = var
@@ -574,7 +574,7 @@ def argmax (var, axis):
     --------
     argmin
   '''
-  return ArgMaxVar(var, axis)
+  return ArgMaxVar(var, (axis,))
 # }}}
 def argmin (var, axis): 
 # {{{
@@ -596,7 +596,7 @@ def argmin (var, axis):
     --------
     argmax
   '''
-  return ArgMinVar(var, axis)
+  return ArgMinVar(var, (axis,))
 # }}}
 
 
-- 
2.43.0


From 990ec1afe929b21a2c5b020a0434793f862a6fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 05/83] fix: recognise repeated indices in a view (broadcast
 comparison raised ValueError or missed them)

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..c4a560e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(np.array_equal(u, ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From ff7614659de9948a24622d047ab3b05ff4e8628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 06/83] fix: seasonal axes of a single time step (TypeError)

---
 pygeode/timeaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..37ff407 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -842,7 +842,8 @@ def makeSeasonalAxis(Base):
     def _get_seasons (self, dates):
   # {{{
       import numpy as np
-      year, month, day, hour, minute, second = Base._get_dates(dates)
+      use_arrays = any(hasattr(d,'__len__') for d in dates.values())
+      year, month, day, hour, minute, second = Base._get_dates(dates, use_arrays)
       doy = Base._getdoy(self, dates)         # Base season on day of the year (no support for leap years(!))
 
       if hasattr(year, '__len__'):
-- 
2.43.0


From 59e3087d5e73793e413c5dc839d0f22d4119ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 07/83] fix: standard deviations over calendar groups of
 (nearly) equal values (NaN instead of 0)

---
 pygeode/climat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..418763a 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -250,7 +250,9 @@ class Stdev(TimeOp):
       partial_sum (data**2, slices, xx, nx2, ti, bins)
 
     x /= nx
-    var = (xx - nx*x**2) / (nx - 1)
+    # Very small variances may become negative due to numerical issues with
+    # the single-pass variance routine used.
+    var = np.maximum(xx - nx*x**2, 0) / (nx - 1)
     return np.sqrt(var)
 # }}}
 
@@ -279,7 +281,9 @@ class NANStdev(TimeOp):
       nx[inodata] = np.nan
 
     x /= nx
-    var = (xx - nx*x**2) / (nx - 1)
+    # Very small variances may become negative due to numerical issues with
+    # the single-pass variance routine used.
+    var = np.maximum(xx - nx*x**2, 0) / (nx - 1)
     return np.sqrt(var)
 # }}}
 
-- 
2.43.0


From fe5201521d6e237caf0a08a63e7ae83fd8caf65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 08/83] fix: cumsum includes every value along the axis, as
 np.cumsum does

---
 pygeode/intgr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 1f43613..e052760 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -100,9 +100,11 @@ class IntegrateVar (Var):
     elif self.type == 'rectr':
       dat = np.concatenate([d0, (d*data[sl2])[slr]], iaxis)
     elif self.type == 'cumsum':
-      dat = np.concatenate([d0, (data[sl2])[slr]], iaxis)
+      dat = np.concatenate([d0, data[slr]], iaxis)
 
-    out = np.add.accumulate(dat, iaxis, 'd')[slr]
+    out = np.add.accumulate(dat, iaxis, 'd')
+    if self.type == 'cumsum': out = out[sl2]   # Every input value is part of the sum
+    out = out[slr]
 
     # Select the requested values along the integration axis
     sl1 = list(sl1)
-- 
2.43.0


From 274ce3f6e8f3cbc69f07e944f20729d58f5c2519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 09/83] fix: lag indexes arrays with tuples, as numpy requires

---
 pygeode/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..4a18a1a 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -332,9 +332,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
-- 
2.43.0


From dd0fac85261ba73ba342a682375ce2c32fae88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 10/83] fix: the lag axis is named 'lag', so that selecting by
 time does not also select lags

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 4a18a1a..557803a 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -302,7 +302,7 @@ class LagVar(Var):
       lags = lags[::-1]
     
     self.lags = np.array(lags).astype('i')
-    lag = Lag(values = delt*self.lags, units=taxis.units, startdate={'day':0})
+    lag = Lag(values = delt*self.lags, name=Lag.name, units=taxis.units, startdate={'day':0})
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-- 
2.43.0


From 25d92d667918fdc9a02552d0dd330082fb8e8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 11/83] fix: difference, paired_difference and isnonzero
 default to all common axes, as documented

---
 pygeode/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b14b690..5eecaca 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -678,6 +678,8 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
 
+  if axes is None: axes = [srcaxes[i].name for i in riaxes]
+
   ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
   iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
 
@@ -890,6 +892,8 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
 
+  if axes is None: axes = [srcaxes[i].name for i in riaxes]
+
   ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
   Nx = np.product([len(X.axes[i]) for i in ixaxes])
 
@@ -1043,6 +1047,8 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
   from pygeode.view import View
 
+  if axes is None: axes = range(X.naxes)
+
   riaxes = [X.whichaxis(n) for n in axes]
   raxes = [a for i, a in enumerate(X.axes) if i in riaxes]
   oaxes = [a for i, a in enumerate(X.axes) if i not in riaxes]
-- 
2.43.0


From 8a481a402bd46577e3513fb4899024bf9eb906f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 12/83] fix: correlate over all axes of its operands

---
 pygeode/stats.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 5eecaca..27c3cdc 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -133,10 +133,9 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
 
   rho[dmsk] = xy[dmsk] / np.sqrt(xx*yy)[dmsk]
 
-  den = 1 - rho**2
   # Saturate the denominator (when correlation is perfect) to avoid div by zero warnings
   eps = 1e-8
-  den[den < eps] = eps
+  den = np.maximum(1 - rho**2, eps)
 
   t = np.zeros(oview.shape, 'd')
   p = np.zeros(oview.shape, 'd')
-- 
2.43.0


From 786a759efec0936a23535bd2eeb776011d801df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 13/83] fix: multiple_regress returns the documented (and
 default) output 'B'

---
 pygeode/stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 27c3cdc..35e8bb9 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -455,7 +455,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from pygeode.view import View
 
   # Split output request now
-  ovars = ['beta', 'r2', 'p', 'sb', 'covb', 'se']
+  ovars = ['B', 'beta', 'r2', 'p', 'sb', 'covb', 'se']
   output = [o for o in output.split(',') if o in ovars]
   if len(output) < 1: raise ValueError('No valid outputs are requested from correlation. Possible outputs are %s.' % str(ovars))
 
@@ -545,10 +545,11 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   rvs = []
 
-  if 'beta' in output:
-    B = Var(oaxes + (ra,), values=beta, name='beta')
-    B.atts['longname'] = 'regression coefficient'
-    rvs.append(B)
+  for name in ('B', 'beta'):
+    if name in output:
+      B = Var(oaxes + (ra,), values=beta, name=name)
+      B.atts['longname'] = 'regression coefficient'
+      rvs.append(B)
 
   if 'r2' in output:
     vary = (yy - y**2/N)
-- 
2.43.0


From 51f52bf1b8b95b0e77cce0658aed8681906f3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 14/83] fix: axis order of p and sb of multiple_regress with
 more than one output axis

---
 pygeode/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 35e8bb9..043e4f0 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -560,13 +560,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   if 'p' in output:
     p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), N_eff-Nr)) for i in range(Nr)]
-    p = np.transpose(np.array(p), [Nd] + list(range(Nd)))
+    p = np.transpose(np.array(p), list(range(1, Nd+1)) + [0])
     p = Var(oaxes + (ra,), values=p, name='p')
     p.atts['longname'] = 'p-values'
     rvs.append(p)
 
   if 'sb' in output:
-    sigbeta = np.transpose(np.array(sigbeta), [Nd] + list(range(Nd)))
+    sigbeta = np.transpose(np.array(sigbeta), list(range(1, Nd+1)) + [0])
     sb = Var(oaxes + (ra,), values=sigbeta, name='sb')
     sb.atts['longname'] = 'standard deviation of linear coefficients'
     rvs.append(sb)
-- 
2.43.0


From 46f4603ee33f21f756f51c31c2ccac8ad63eaed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 15/83] fix: multiple_regress counts every point of a regressor
 that lacks one of the reduced axes

---
 pygeode/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 043e4f0..1f4ad0a 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -499,6 +499,8 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   # Accumulate data
   for outsl, datatuple in loopover(Xs + [Y], oview, inaxes, pbar=pbar):
+    # Variables without one of the axes are constant along it
+    datatuple = np.broadcast_arrays(*datatuple)
     ydata =  datatuple[-1].astype('d')
     xdata = [datatuple[ i].astype('d') for i in range(Nr)]
     y[outsl]  += npsum(ydata,    siaxes)
-- 
2.43.0


From d55195c5fa6ae312797dad668fee0edb57e29440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 16/83] fix: residual variance of multiple_regress is
 normalised by its degrees of freedom, as in regress

---
 pygeode/stats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 1f4ad0a..f677cac 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -530,7 +530,10 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   if N_fac is None: N_eff = N
   else: N_eff = N // N_fac
 
-  sigbeta = [np.sqrt((yy - vare) * xxinv[..., i, i] / N_eff) for i in range(Nr)]
+  # Unbiased estimate of the residual variance
+  sige2 = (yy - vare) / (N_eff - Nr)
+
+  sigbeta = [np.sqrt(sige2 * xxinv[..., i, i]) for i in range(Nr)]
 
   pbar.update(100)
 
@@ -577,14 +580,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     sigmat = np.zeros(os2, 'd')
     for i in range(Nr):
       for j in range(Nr):
-        #sigmat[..., i, j] = np.sqrt((yy - vare) * xxinv[..., i, j] / N_eff)
-        sigmat[..., i, j] = (yy - vare) * xxinv[..., i, j] / N_eff
+        sigmat[..., i, j] = sige2 * xxinv[..., i, j]
     covb = Var(oaxes + (ra, ra2), values=sigmat, name='covb')
     covb.atts['longname'] = 'Covariance matrix of the linear coefficients'
     rvs.append(covb)
 
   if 'se' in output:
-    se = np.sqrt((yy - vare) / N_eff)
+    se = np.sqrt(sige2)
     se = Var(oaxes, values=se, name='se')
     se.atts['longname'] = 'standard deviation of residual'
     rvs.append(se)
-- 
2.43.0


From 20903779f57decb95ec758232d60bd313c057089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 17/83] fix: standard error of paired_difference, which must
 agree with isnonzero of the difference

---
 pygeode/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index f677cac..bf7201c 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -946,7 +946,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   ci  = np.zeros(oview.shape, 'd')
 
   den = np.zeros(oview.shape, 'd')
-  den[emsk] = np.sqrt(dd[emsk]/(eN[emsk] - 1))
+  den[emsk] = np.sqrt(dd[emsk]/eN[emsk])
   dmsk = (den > 0.)
 
   p[dmsk]  = np.abs(d[dmsk]/den[dmsk])
-- 
2.43.0


From 94d5cfb8070b5b4f3ec680487d2fef41f71a777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 18/83] fix: difference, paired_difference and isnonzero with
 missing data

---
 pygeode/stats.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index bf7201c..cb0c76b 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -726,12 +726,15 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   xx[imsk] -= (x*x)[imsk] / Nx[imsk]
   xx[imsk] /= (Nx[imsk] - 1)
 
-  x[imsk]  /= Nx[imsk]
-
   yy[imsk] -= (y*y)[imsk] / Ny[imsk]
   yy[imsk] /= (Ny[imsk] - 1)
 
-  y[imsk]  /= Ny[imsk]
+  # The means are defined wherever (and only where) there are data
+  x[Nx > 0] /= Nx[Nx > 0]
+  x[Nx == 0] = np.nan
+
+  y[Ny > 0] /= Ny[Ny > 0]
+  y[Ny == 0] = np.nan
 
   # Ensure variances are non-negative
   xx[xx <= 0.] = 0.
@@ -932,6 +935,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   dd[imsk] -= (d*d)[imsk]/N[imsk]
   dd[imsk] /= (N[imsk] - 1)
   d[imsk]  /= N[imsk]
+  d[N == 0] = np.nan
 
   # Ensure variance is non-negative
   dd[dd <= 0.] = 0.
@@ -953,6 +957,9 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   p[dmsk]  = 2. * (1. - tdist.cdf(p[dmsk], eN[dmsk] - 1))
   ci[dmsk] = tdist.ppf(1. - alpha/2, eN[dmsk] - 1) * den[dmsk]
 
+  p [~dmsk] = np.nan
+  ci[~dmsk] = np.nan
+
   pbar.update(100)
 
   # Construct dataset to return
@@ -1111,6 +1118,11 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   p[imsk]  = 2. * (1. - tdist.cdf(t[imsk], eNa[imsk] - 1))
   ci[imsk] = tdist.ppf(1. - alpha/2, eNa[imsk] - 1) * sdom[imsk]
 
+  # No statistics without data
+  x [~imsk] = np.nan
+  p [~imsk] = np.nan
+  ci[~imsk] = np.nan
+
   pbar.update(100)
 
   name = X.name if X.name != '' else 'X'
-- 
2.43.0


From 5ba1ef39183f633a8d3cf7959b3f947fb47287b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 19/83] fix: difference aligns the output axes of its operands

---
 pygeode/stats.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index cb0c76b..91dbefe 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -704,22 +704,30 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   Nx = np.full(oview.shape, np.nan, 'd')
   Ny = np.full(oview.shape, np.nan, 'd')
 
-  # Accumulate data
-  for outsl, (xdata,) in loopover([X], oview, pbar=pbar):
+  # Accumulate data; the axes of each variable are arranged in the order of
+  # the output axes, with the axes being reduced over at the end
+  def accumulate(out, outsl, data):
+    part = npnansum(data, range(len(oaxes), data.ndim))
+    part = np.broadcast_to(part, out[outsl].shape)
+    out[outsl] = np.nansum([out[outsl], part], 0)
+
+  inxaxes = oaxes + [X.axes[i] for i in ixaxes]
+  for outsl, (xdata,) in loopover([X], oview, inxaxes, pbar=pbar):
     xdata = xdata.astype('d')
-    x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, ixaxes)], 0)
-    xx[outsl] = np.nansum([xx[outsl], npnansum(xdata**2, ixaxes)], 0)
+    accumulate(x,  outsl, xdata)
+    accumulate(xx, outsl, xdata**2)
 
     # Count of non-NaN data points
-    Nx[outsl] = np.nansum([Nx[outsl], npnansum(~np.isnan(xdata), ixaxes)], 0) 
+    accumulate(Nx, outsl, ~np.isnan(xdata))
 
-  for outsl, (ydata,) in loopover([Y], oview, pbar=pbar):
+  inyaxes = oaxes + [Y.axes[i] for i in iyaxes]
+  for outsl, (ydata,) in loopover([Y], oview, inyaxes, pbar=pbar):
     ydata = ydata.astype('d')
-    y[outsl]  = np.nansum([y[outsl],  npnansum(ydata, iyaxes)], 0)
-    yy[outsl] = np.nansum([yy[outsl], npnansum(ydata**2, iyaxes)], 0)
+    accumulate(y,  outsl, ydata)
+    accumulate(yy, outsl, ydata**2)
 
     # Count of non-NaN data points
-    Ny[outsl] = np.nansum([Ny[outsl], npnansum(~np.isnan(ydata), iyaxes)], 0) 
+    accumulate(Ny, outsl, ~np.isnan(ydata))
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (Nx > 1) & (Ny > 1)
-- 
2.43.0


From f1d0ab62f69aa51973c7b8f6bd55f601eb5f4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 20/83] fix: the covariance output of multiple_regress can be
 read

---
 pygeode/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 91dbefe..64f394d 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -545,7 +545,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from .axis import NonCoordinateAxis
 
   ra  = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor')
-  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor2')
+  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor2 = xns, name = 'regressor2')
   Nd = len(oaxes)
 
   rvs = []
-- 
2.43.0


From 955d8d42c3e049d83e2614ba3aaa3b95c40a8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 21/83] fix: EOFs of data whose record axis is not the first

---
 pygeode/eof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 42c404c..ed6dff8 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -99,6 +99,10 @@ def prep (var, iaxis, weight, out):
   timeaxes = [var.axes[i] for i in timeaxes]
   spaceaxes = [var.axes[i] for i in spaceaxes]
 
+  # Put the record axes first (the solvers treat the data as a matrix, with one
+  # spatial pattern per row)
+  var = var.transpose(*(timeaxes+spaceaxes))
+
   # Create a view, to hold the axes together
   # (provides us with other useful stuff, like a notion of 'shape' and 'size')
   time = View(axes=timeaxes)
-- 
2.43.0


From 07226d6bb497f16081bdecb8a68f888ea4314e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 22/83] fix: EOF accepts weight=None, as documented
 (AttributeError)

---
 pygeode/eof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index ed6dff8..beccd80 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -14,7 +14,7 @@ del Axis
 
 def apply_weights (var, weight):
   # Normalize by area weight?
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
@@ -27,7 +27,7 @@ def apply_weights (var, weight):
 def remove_weights (var, weight):
   # Undo normalization by area weight?
   # (should be the exact opposite of the 'weight' function
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
-- 
2.43.0


From 75f5ecfeb76b36335b87356ac36a3d425cfdcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 23/83] fix: EOF accepts the name of the record axis, as
 documented (TypeError)

---
 pygeode/eof.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index beccd80..db101d3 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -58,7 +58,6 @@ def whichout (out):
 def prep (var, iaxis, weight, out):
   from pygeode.timeaxis import Time
   from pygeode.var import Var
-  from pygeode.axis import Axis
   from pygeode.view import View
   from warnings import warn
   from pygeode import MAX_ARRAY_SIZE
@@ -88,7 +87,6 @@ def prep (var, iaxis, weight, out):
   # Keep the record axis/axes as a tuple
   # (in case we have more than one axis, i.e. time and ensemble)
   if not isinstance(timeaxes,(list,tuple)):
-    assert isinstance(timeaxes,int) or issubclass(timeaxes,Axis), 'unknown iaxis type %s'%type(timeaxes)
     timeaxes = [timeaxes]
 
   # Convert the axes to integer ids
-- 
2.43.0


From f22f495c1c934b39445528ccc20a8f199dfb9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 24/83] fix: EOF_cov returns the eigenvalues, timeseries and
 variance of the other solvers

---
 pygeode/eof.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index db101d3..5c9f76d 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -396,7 +396,9 @@ def EOF_cov (x, num=1, iaxis=None, weight=True, out=None):
     cov += np.dot(X.transpose(),X)
 
   # Decompose the eigenvectors & eigenvalues
-  w, v = np.linalg.eigh(cov/(time.size-1))
+  # (no normalization by the number of records, so that the eigenvalues are those
+  # of the singular value decomposition of the data)
+  w, v = np.linalg.eigh(cov)
 
   variance = w.sum()
   eig = np.sqrt(w[::-1][:num])
-- 
2.43.0


From dbc8de507c1d39334296e3e773533691f6f9a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 25/83] fix: EOF_iter with more than one record axis

---
 pygeode/eof.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 5c9f76d..d20d98a 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -204,7 +204,7 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
   del iaxis
 
   eofshape =  (subspace,) + space.shape
-  pcshape =  time.shape + (subspace,)
+  pcshape =  (time.size, subspace)
 
   pcs = np.empty(pcshape,dtype='d')
 
@@ -233,15 +233,17 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
     neweofs[()] = 0
 
     # Apply the covariance matrix
+    # (the chunks come in the order of the records, for any number of record axes)
+    time_offset = 0
     for inview in View(x.axes).loop_mem():
       X = np.ascontiguousarray(inview.get(x), dtype='d')
       assert X.size >= space.size, "spatial pattern is too large"
 
-      nt = inview.shape[0]
-      time_offset = inview.slices[0].start
+      nt = X.size // space.size
       ier = lib.build_eofs (subspace, nt, NX, X, oldeofs,
                             neweofs, pcs[time_offset,...])
       assert ier == 0
+      time_offset += nt
 
       # Compute variance?
       if iter_num == 1:
-- 
2.43.0


From fb56e4e581b5921901604d71aa5cdb7dcec75909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 26/83] fix: SVD of fields smaller than the default subspace
 (LinAlgError)

---
 pygeode/svd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index c8e0a38..e1b325e 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -138,6 +138,11 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     var2 /= std2
 
 
+  # Small fields have fewer patterns than the subspace asked for
+  # (iterating over null vectors would give NaNs)
+  NT = var1.shape[iaxis1]
+  subspace = max(num, min(subspace, NT, var1.size // NT, var2.size // NT))
+
   eofshape1 =  (subspace,) + var1.shape[:iaxis1] + var1.shape[iaxis1+1:]
   eofshape2 =  (subspace,) + var2.shape[:iaxis2] + var2.shape[iaxis2+1:]
 
-- 
2.43.0


From 572947235b5b1e3d5dd728299119a47cd6fb021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 27/83] fix: an ensemble has the common data type of its
 members

---
 pygeode/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index cfca9d1..46ad39c 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -12,13 +12,14 @@ from pygeode.var import Var
 class EnsembleVar(Var):
   def __init__(self, varlist):
     from pygeode.var import Var, combine_meta
+    from pygeode.tools import common_dtype
     self.varlist = varlist
     # Assume the vars have already been checked for consistency
     var0 = varlist[0]
 
     # Add ensemble axis to start of axis list
     axes = [make_ensemble(len(varlist))] + list(var0.axes)
-    Var.__init__(self, axes, dtype=var0.dtype)
+    Var.__init__(self, axes, dtype=common_dtype(varlist))
 
     combine_meta (varlist, self)
     self.name = varlist[0].name
-- 
2.43.0


From 534f37a91a00e084732f11adf9307001363d5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 28/83] fix: splitting and joining time axes with current
 numpy, and joining non-adjacent axes

---
 pygeode/timeutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 557803a..f1efca4 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -466,7 +466,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -541,7 +541,7 @@ class JoinTime(Var):
     data = np.rollaxis(data, daxis, yaxis+1)
     # Then, combine then
     shape = list(data.shape)
-    shape = shape[:yaxis] + [-1] + shape[daxis+1:]
+    shape = shape[:yaxis] + [-1] + shape[yaxis+2:]
     data = data.reshape(shape)
 
     # Now, we may have slightly more data than we actually need
@@ -552,7 +552,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
-- 
2.43.0


From 76b1de5444b3455080eb1e59b544c98972bbff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 29/83] fix: composite events that extend past the ends of the
 axis, or differ in offset

---
 pygeode/composite.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 8afc777..9a2633e 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -43,8 +43,8 @@ class CompositeVar(Var):
       mevlen = (evlen - evoff + mevoff).max()
       assert evlen.shape == ievents.shape, "The number of event lengths provided does not match the number of events."
     else:
-      mevlen = evlen
-      evlen = np.ones(n, 'i') * mevlen
+      mevlen = (evlen - evoff + mevoff).max()
+      evlen = np.ones(n, 'i') * evlen
 
     # Construct event and offset axes
     from pygeode.timeaxis import Time, Yearless
@@ -67,11 +67,11 @@ class CompositeVar(Var):
     self.mevoff = mevoff
 
     for i, (iev, el, eo) in enumerate(zip(ievents, evlen, evoff)):
-      if iev - eo < 0:
-         self.evoffs[i] += iev - eo
-         self.evlens[i] -= iev - eo
-      if iev - eo + el >= len(caxis):
-         self.evlens[i] = len(caxis) - (iev - eo)
+      # Shorten events which start before (or end after) the composited axis
+      start = max(iev - eo, 0)
+      stop = min(iev - eo + el, len(caxis))
+      self.evoffs[i] = iev - start
+      self.evlens[i] = stop - start
 
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
-- 
2.43.0


From 7404d699d3572337074d51676b15d999c8007504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 30/83] fix: flattened variables accept any requested indices;
 default axis of a time composite

---
 pygeode/composite.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 9a2633e..bfa7a49 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -213,7 +213,7 @@ class FlattenVar(Var):
     if inner == -1:
       if isinstance(var, CompositeVar):
          out = var.whichaxis(var.event.__class__)
-         inner = var.whichaxis(var.offset.__class__)
+         inner = out + 1
          stride = len(var.axes[inner])
          vals = concatenate([e + var.axes[inner].values for e in var.axes[out].values])
       else:
@@ -252,6 +252,14 @@ class FlattenVar(Var):
     import numpy as np
     out = np.empty(view.shape, self.dtype)
     slf = view.slices[ifl]  # Again, need these indices in the space of the variable (?)
+
+    if not isinstance(slf, slice) or slf.step not in (None, 1):
+      # Not a contiguous request; get the contiguous range which includes it
+      ind = np.asarray(view.integer_indices[ifl])
+      first = ind.min()
+      data = self.getview(view.modify_slice(ifl, slice(first, ind.max()+1)), pbar)
+      return data.take(ind - first, axis=ifl)
+
     slo = slice(int(np.floor(slf.start / float(stride))),
                           int(np.ceil(slf.stop / float(stride))))
 
-- 
2.43.0


From 1bae29aa0532315002eee7624d1e9713008bad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 31/83] fix: saving a dataset whose axes are subsets or
 reversals of each other (lost axis)

---
 pygeode/formats/netcdf.py  | 6 +++---
 pygeode/formats/netcdf4.py | 7 ++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 8ba1397..b6797bb 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -398,7 +398,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
 # {{{
   from ctypes import c_int, c_long, byref
   from pygeode.view import View
-  from pygeode.tools import combine_axes, point
+  from pygeode.tools import point
   from pygeode.axis import Axis, DummyAxis
   import numpy as np
   from pygeode.progress import PBar, FakePBar
@@ -418,7 +418,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
 
   vars = list(dataset.vars)
   # The output axes
-  axes = combine_axes(v.axes for v in vars)
+  axes = list(dataset.axes)
 
   # Include axes in the list of vars (for writing to netcdf).
   # Exclude axes which don't have any intrinsic values.
@@ -472,7 +472,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
     for i, var in enumerate(vars):
       t = nc_type[version][var.dtype.name]
       # Generate the array of dimension ids for this var
-      d = [dimids[list(axes).index(a)] for a in var.axes]
+      d = [dimids[[a is b for b in axes].index(True)] for a in var.axes]
       # Make it C-compatible
       d = (c_int * var.naxes)(*d)
       varids[i] = c_int()
diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 4600d26..dcb426b 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -71,13 +71,12 @@ def make_dataset (ncfile):
 # Prepare var axes for writing 
 def tidy_axes(dataset, unlimited=None):
 # {{{
-  from pygeode.tools import combine_axes
   from pygeode.axis import DummyAxis
   from pygeode.dataset import asdataset
   
   vars = list(dataset.vars)
   # The output axes
-  axes = combine_axes(v.axes for v in vars)
+  axes = list(dataset.axes)
 
   # Include axes in the list of vars (for writing to netcdf).
   # Exclude axes which don't have any intrinsic values.
@@ -102,10 +101,9 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   from pygeode.axis import Axis 
   import numpy as np
   from pygeode.progress import PBar, FakePBar
-  from pygeode.tools import combine_axes
   
   vars = list(dataset.vars)
-  axes = combine_axes(v.axes for v in vars)
+  axes = list(dataset.axes)
 
   # Define the dimensions
   for a in axes:
@@ -267,7 +265,6 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
 # {{{
   import netCDF4 as nc
   from pygeode.view import View
-  from pygeode.tools import combine_axes
   from pygeode.axis import Axis, DummyAxis
   import numpy as np
   from pygeode.progress import PBar, FakePBar
-- 
2.43.0


From 99e4ebc3223aedc9f97df8f727914e1f626c14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 32/83] fix: slicing variables that have two vertical axes of
 related types (e.g. ZAxis and Pres)

---
 pygeode/view.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index c4a560e..456fbf2 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -148,8 +148,11 @@ class View:
         order[in_i] = out_i
         continue
       # Look for a mapping
+      # (axes of the same type and name take precedence over merely related ones)
       map = None
-      for in_i,in_a in enumerate(self.subaxes()):
+      candidates = sorted(enumerate(self.subaxes()),
+        key=lambda c: not (type(c[1]) is type(out_a) and c[1].name == out_a.name))
+      for in_i,in_a in candidates:
         map = out_a.map_to(in_a)
         if map is not None:
           slices.append(simplify(map))
-- 
2.43.0


From f2002bf6239de6c051fc7a3f840a87338a41a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 33/83] fix: read netCDF4 attributes of type string (KeyError:
 12)

---
 pygeode/formats/netcdf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index b6797bb..e622d17 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -45,7 +45,7 @@ put_att_f = {1:lib.nc_put_att_schar, 2:lib.nc_put_att_text,
 # Read global/variable attributes, return a dictionary
 def get_attributes (fileid, varid):
 # {{{
-  from ctypes import create_string_buffer, c_int, c_long, byref
+  from ctypes import create_string_buffer, c_int, c_long, c_char_p, byref
   from pygeode.tools import point
   from numpy import empty
   natts = c_int()
@@ -80,6 +80,14 @@ def get_attributes (fileid, varid):
       ret = get_att_f[vtype.value](fileid, varid, name, valstr);
       assert ret == 0, lib.nc_strerror(ret)
       value = valstr.value.decode('utf-8')
+    # Variable-length strings (as written by other netCDF4 software)
+    elif vtype.value == 12:
+      valstr = (c_char_p * size.value)()
+      ret = lib.nc_get_att_string(fileid, varid, name, valstr)
+      assert ret == 0, lib.nc_strerror(ret)
+      value = [(s or b'').decode('utf-8') for s in valstr]
+      lib.nc_free_string(c_long(size.value), valstr)
+      if len(value) == 1: value = value[0]
     else:
       valnp = empty([size.value], numpy_type[vtype.value])
       ret = get_att_f[vtype.value](fileid, varid, name, point(valnp))
-- 
2.43.0


From 33e8ff3c35d6ec6021faf068e0fff237045d4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 34/83] fix: an attribute that can't be saved does not drop the
 attributes after it

---
 pygeode/formats/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index e622d17..f530806 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -123,10 +123,10 @@ def put_attributes (fileid, varid, atts, version):
       # Drop unsupported data types
       if value.dtype.name.startswith('string'):
         warn ("no support for writing attributes containing an array of strings", stacklevel=3)
-        return
+        continue
       if value.dtype.name not in nc_type[version]:
         warn ("skipping attribute %s = %s  (unsupported type %s)"%(name,value,value.dtype.name), stacklevel=3)
-        return
+        continue
       # Scalar?
       if value.shape == (): value = value.reshape([1])
       vtype = nc_type[version][value.dtype.name]
-- 
2.43.0


From 51d5935f0d0afd49abef4274364d7751a648469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 35/83] fix: store unsigned 32-bit integers as doubles in
 netCDF3 files (values wrapped to negative)

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index f530806..a39cf85 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -20,7 +20,7 @@ NC_MAX_VAR_DIMS = NC_MAX_DIMS
 
 nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
-           'uint32':4, 'int64':6, 'uint64':6}
+           'uint32':6, 'int64':6, 'uint64':6}
 
 nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
-- 
2.43.0


From fc1086f317af743d27b54ca28e62b462e43a8d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 36/83] fix: compressed files with scalar variables (Invalid
 argument)

---
 pygeode/formats/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index a39cf85..f743d9c 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -487,7 +487,8 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
       ret = lib.nc_def_var (fileid, var.name.encode('ascii'), t, var.naxes, d, byref(varids[i]))
       assert ret == 0, lib.nc_strerror(ret)
       # Compress the data? (only works for netcdf4 or (higher?))
-      if compress:
+      # (scalars can't be compressed)
+      if compress and var.naxes > 0:
         ret = lib.nc_def_var_deflate (fileid, varids[i], 1, 1, 2)
         assert ret == 0, lib.nc_strerror(ret)
 
-- 
2.43.0


From 10ca08863bcf73eb1828bebda3886fe67b4ec837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 37/83] fix: netCDF3 files with data types the format lacks, in
 format netcdf4

---
 pygeode/formats/netcdf4.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index dcb426b..8ae8c65 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -95,6 +95,21 @@ def tidy_axes(dataset, unlimited=None):
   return ds
 # }}}
 
+# Data types that don't exist in the classic format (netCDF3), and the types used in their place
+# (the same as those used in pygeode.formats.netcdf)
+classic_type = {'uint8':'int16', 'uint16':'int32', 'uint32':'float64', 'int64':'float64', 'uint64':'float64'}
+
+def classic_atts (atts):
+# {{{
+  import numpy as np
+  atts = dict(atts)
+  for name, value in atts.items():
+    # (the netCDF4 module takes care of Python integers)
+    if isinstance(value, (np.ndarray, np.generic)) and value.dtype.name in classic_type:
+      atts[name] = value.astype(classic_type[value.dtype.name])
+  return atts
+# }}}
+
 def write_var (ncfile, dataset, unlimited=None, compress=False):
 # {{{
   from pygeode.view import View
@@ -110,14 +125,18 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
     ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
 
   # Define the variables (including axes)
+  classic = ncfile.data_model.startswith('NETCDF3')
   for var in vars:
     dimensions = [a.name for a in var.axes]
-    v = ncfile.createVariable(var.name, datatype=var.dtype, dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
+    dtype, atts = var.dtype, var.atts
+    if classic:
+      dtype, atts = classic_type.get(dtype.name, dtype), classic_atts(atts)
+    v = ncfile.createVariable(var.name, datatype=dtype, dimensions=dimensions, zlib=compress, fill_value=atts.get('_FillValue',None))
     v.set_auto_maskandscale(False)
-    v.setncatts(var.atts)
+    v.setncatts(atts)
 
   # global attributes
-  ncfile.setncatts(dataset.atts)
+  ncfile.setncatts(classic_atts(dataset.atts) if classic else dataset.atts)
 
   # Relative progress of each variable
   sizes = [v.size for v in vars]
-- 
2.43.0


From dc0c95ca6a95a8a0f2edc71c760ad1e9e930f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 38/83] fix: reductions of integer data (wrong values,
 OverflowError or UFuncTypeError)

---
 pygeode/reduce.py | 56 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 3619090..04b0be8 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -9,6 +9,10 @@ from pygeode.var import Var
 #########################
 class ReducedVar(Var):
 # {{{
+  # The data type of the output
+  @staticmethod
+  def outtype(dtype): return dtype
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -66,18 +70,40 @@ class ReducedVar(Var):
     # Remove the reduction axis from the output variable
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
-    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    Var.__init__(self, axes, dtype=self.outtype(dtype), name=var.name, atts=var.atts, plotatts=var.plotatts)
 
   # }}}
 # }}}
 
+# Output types of reductions that are not closed under integers (the same as numpy)
+def sum_type(dtype):
+# {{{
+  import numpy as np
+  return np.zeros(1, dtype).sum().dtype
+# }}}
+def float_type(dtype):
+# {{{
+  import numpy as np
+  return dtype if np.dtype(dtype).kind in 'fc' else np.dtype('float64')
+# }}}
+
+# The initial value (for each output) of the search for the minimum (sign=1) or maximum (sign=-1)
+def limit(dtype, sign):
+# {{{
+  import numpy as np
+  if dtype.kind in 'iu':
+    info = np.iinfo(dtype)
+    return info.max if sign > 0 else info.min
+  return sign > 0 if dtype.kind == 'b' else sign*float('inf')
+# }}}
+
 class MinVar(ReducedVar):
 # {{{
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npmin
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('inf')
+    out[()] = limit(self.dtype, 1)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -88,7 +114,7 @@ class NANMinVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmin
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.full(view.shape, np.nan if self.dtype.kind in 'fc' else limit(self.dtype, 1), self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       #Ignore NaNs when finding mininum
       out[outsl] = np.nanmin([out[outsl], npnanmin(indata, self.indices)], 0)
@@ -101,7 +127,7 @@ class MaxVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('-inf')
+    out[()] = limit(self.dtype, -1)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -112,7 +138,7 @@ class NANMaxVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmax
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.full(view.shape, np.nan if self.dtype.kind in 'fc' else limit(self.dtype, -1), self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       #Ignore NaNs when finding maximum
       out[outsl] = np.nanmax([out[outsl], npnanmax(indata, self.indices)], 0)
@@ -182,6 +208,7 @@ class ArgMinVar(ReducedVar):
 
 class SumVar(ReducedVar):
 # {{{
+  outtype = staticmethod(sum_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -193,6 +220,7 @@ class SumVar(ReducedVar):
 class WeightedSumVar(ReducedVar):
 # {{{
   '''WeightedSumVar(ReducedVar) - computes weighted sum.'''
+  outtype = staticmethod(float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -217,10 +245,11 @@ class WeightedSumVar(ReducedVar):
 
 class NANSumVar(ReducedVar):
 # {{{
+  outtype = staticmethod(sum_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.full(view.shape, np.nan if self.dtype.kind in 'fc' else 0, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       # Accumulation must be nan-safe
       out[outsl] = np.nansum([out[outsl], npnansum(indata, self.indices)], 0)
@@ -229,6 +258,7 @@ class NANSumVar(ReducedVar):
 class WeightedNANSumVar(ReducedVar):
 # {{{
   '''WeightedNANSumVar(ReducedVar) - computes weighted sum, neglecting NaNs.'''
+  outtype = staticmethod(float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -257,6 +287,7 @@ class WeightedNANSumVar(ReducedVar):
 class MeanVar(ReducedVar):
 # {{{
   '''MeanVar(ReducedVar) - computes unweighted mean.'''
+  outtype = staticmethod(float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -269,6 +300,7 @@ class MeanVar(ReducedVar):
 class WeightedMeanVar(ReducedVar):
 # {{{
   '''WeightedMeanVar(ReducedVar) - computes weighted mean.'''
+  outtype = staticmethod(float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -298,6 +330,7 @@ class WeightedMeanVar(ReducedVar):
 class NANMeanVar(ReducedVar):
 # {{{
   '''NANMeanVar(ReducedVar) - computes unweighted mean, ignoring NANs.'''
+  outtype = staticmethod(float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -318,6 +351,7 @@ class NANMeanVar(ReducedVar):
 class WeightedNANMeanVar(ReducedVar):
 # {{{ 
   '''WeightedNANMeanVar(ReducedVar) - computes weighted mean.'''
+  outtype = staticmethod(float_type)
   def __init__(self, var, indices, weights):
   #  {{{
     ReducedVar.__init__(self, var, indices)
@@ -354,6 +388,7 @@ class WeightedNANMeanVar(ReducedVar):
 #TODO: make it more numerically stable, add weights
 class VarianceVar(ReducedVar):
 # {{{
+  outtype = staticmethod(float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -362,7 +397,7 @@ class VarianceVar(ReducedVar):
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       x[outsl] += npsum(indata, self.indices)  
-      x2[outsl] += npsum(indata**2, self.indices)  
+      x2[outsl] += npsum(np.square(indata, dtype=self.dtype), self.indices)  
 
     x /= N
     return (x2 - N*x**2) / (N - 1)
@@ -370,6 +405,7 @@ class VarianceVar(ReducedVar):
 class WeightedVarianceVar(ReducedVar):
 # {{{
   '''WeightedVarianceVar(ReducedVar) - computes weighted mean.'''
+  outtype = staticmethod(float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -390,7 +426,7 @@ class WeightedVarianceVar(ReducedVar):
     W = np.zeros(view.shape, self.dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
-      x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
+      x2[outsl] += npsum(np.square(indata, dtype=self.dtype) * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
       W[outsl] += npsum(inw, self.indices) * f # Sum of weights
 
@@ -398,9 +434,9 @@ class WeightedVarianceVar(ReducedVar):
   # }}}
 # }}}
 
-# NB: There is possibly an issue with this for integer datatypes
 class NANVarianceVar(ReducedVar):
 # {{{
+  outtype = staticmethod(float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -414,7 +450,7 @@ class NANVarianceVar(ReducedVar):
       x[outsl] = np.nansum([x[outsl],\
                   npnansum(indata, self.indices)], 0)
       x2[outsl] = np.nansum([x2[outsl],\
-                  npnansum(indata**2, self.indices)], 0)  
+                  npnansum(np.square(indata, dtype=self.dtype), self.indices)], 0)  
       N[outsl] = np.nansum([N[outsl],
                   npnansum(~np.isnan(indata), self.indices)], 0)
 
-- 
2.43.0


From e6f8af1a7af7046558fc67ba54cbe4a29249ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 39/83] fix: time averages, smoothing, derivatives, lags and
 detrending of integer data

---
 pygeode/climat.py     |  2 ++
 pygeode/deriv.py      |  6 ++++--
 pygeode/fft_smooth.py |  3 +++
 pygeode/smooth.py     |  3 +++
 pygeode/timeutils.py  |  8 ++++++--
 pygeode/tools.py      | 22 ++++++++++++++++++++++
 6 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 418763a..a6ca367 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -169,6 +169,8 @@ class TimeOp(Var):
   def __init__ (self, var):
     from pygeode.var import Var
     from pygeode.timeaxis import CalendarTime
+    from pygeode.tools import as_float
+    var = as_float(var)
     self.ti  = ti = var.whichaxis(CalendarTime)
     intime = var.axes[ti]
     outtime = self.get_outtime(intime)
diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..7c24118 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -10,6 +10,7 @@ class DerivativeVar (Var):
     ''' __init__()'''
 
     from pygeode.var import Var
+    from pygeode.tools import as_float
 
     self.daxis = daxis = var.whichaxis(daxis)
     assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
@@ -29,7 +30,7 @@ class DerivativeVar (Var):
     assert df in ['centre', 'left', 'right']
     self.df = df
 
-    self.var = var
+    self.var = var = as_float(var)
 
     # Construct new variable
 
@@ -107,6 +108,7 @@ class SecondDerivativeVar (Var):
     ''' __init__()'''
 
     from pygeode.var import Var
+    from pygeode.tools import as_float
 
     self.daxis = daxis = var.whichaxis(daxis)
     assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
@@ -123,7 +125,7 @@ class SecondDerivativeVar (Var):
     else:
       self.dx = var.axes[daxis]
 
-    self.var = var
+    self.var = var = as_float(var)
 
     # Construct new variable
 
diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index 1482b1c..d535e02 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -8,6 +8,9 @@ class FFTSmoothVar (Var):
   def __init__(self, var, saxis, maxharm):
   # {{{
     ''' __init__()'''
+    from pygeode.tools import as_float
+    var = as_float(var)
+
     # Construct new variable
     self.saxis = saxis
     self.var = var
diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..e06bc07 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -13,6 +13,9 @@ class SmoothVar (Var):
 
     assert len(kernel) <= var.shape[saxis], 'Kernel must not be longer than dimension being smoothed.'
 
+    from pygeode.tools import as_float
+    var = as_float(var)
+
     # Construct new variable
     self.saxis = saxis
     self.var = var
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index f1efca4..0a91e04 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -292,6 +292,7 @@ class LagVar(Var):
     import numpy as np
     from pygeode import Var
     from pygeode.timeaxis import Time
+    from pygeode.tools import as_float
 
     self.iaxis = var.whichaxis(iaxis)
     taxis = var.axes[self.iaxis]
@@ -304,7 +305,7 @@ class LagVar(Var):
     self.lags = np.array(lags).astype('i')
     lag = Lag(values = delt*self.lags, name=Lag.name, units=taxis.units, startdate={'day':0})
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
-    self.var = var
+    self.var = var = as_float(var)   # (NaN beyond the ends of the axis)
 
     Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
@@ -413,6 +414,9 @@ class SplitTime (Var):
   def __init__ (self, var, iaxis):
 # {{{
     from pygeode.var import copy_meta, Var
+    from pygeode.tools import as_float
+
+    var = as_float(var)   # (dates that are not on the time axis are NaN)
 
     # Get the time axis to split
     iaxis = var.whichaxis(iaxis)
@@ -454,7 +458,7 @@ class SplitTime (Var):
 
     # Start with a field of NaNs
     out = np.empty(view.shape, dtype=self.dtype)
-    out[()] = float('NaN')  # will fail horribly if we have integer data.
+    out[()] = float('NaN')
 
     # Get some input data
     inview = view.remove(iaxis+1).replace_axis(iaxis, in_taxis, sl=in_sl)
diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..871fea4 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -521,6 +521,28 @@ def partial_nan_sum (arr, sl, bigout, bigcount, iaxis, outmap):
   bigcount[tuple(sl)] += count
 # }}}
 
+# Represent integer (or boolean) data in double precision, for use in operations that don't have
+# an integer result (or that need to represent missing values).
+# Does nothing to data that already has a floating-point type.
+from pygeode.var import Var
+class FloatVar (Var):
+# {{{
+  def __init__ (self, var):
+    from pygeode.var import Var, copy_meta
+    self.var = var
+    Var.__init__(self, var.axes, dtype='float64')
+    copy_meta(var, self)
+  def getview (self, view, pbar):
+    import numpy as np
+    return np.asarray(view.get(self.var, pbar=pbar), self.dtype)
+# }}}
+del Var
+
+def as_float (var):
+# {{{
+  return var if var.dtype.kind in 'fc' else FloatVar(var)
+# }}}
+
 #TODO: remove these, once Var I/O can efficiently handle concurrent reading & caching
 # Merge some coefficient arrays together, so they can be operated on a a single entity
 from pygeode.var import Var
-- 
2.43.0


From 4171489dcf19c68d7d47b79de6ee8b1bc529e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 40/83] fix: packing of missing values, constant fields and
 integers

---
 pygeode/formats/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 4645640..8b1e7ed 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -35,22 +35,33 @@ class PackVar(Var):
     # algorithm described in the NetCDF Operator documentation
     dtype = np.int16
 
-    min = var.nanmin()
-    max = var.nanmax()
+    # (in double precision, since the range of an integer type exceeds the type)
+    min = float(var.nanmin())
+    max = float(var.nanmax())
+    if not min <= max: min = max = 0.   # nothing but missing values
     self.scale = (max - min) / (2**16 - 2.)
+    if self.scale == 0: self.scale = 1.   # constant field
     self.offset = 0.5 * (min + max)
 
+    # The one value not used by the packed data
+    self.fillvalue = np.int16(-2**15)
+
     Var.__init__(self, var.axes, dtype=dtype)
 
     copy_meta(var, self)
     self.atts['packing_convention'] = 'NetCDF (16 bit)'
     self.atts['scale_factor'] = self.scale
     self.atts['add_offset'] = self.offset
+    self.atts['_FillValue'] = self.fillvalue
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return ((view.get(self.var, pbar) - self.offset) / self.scale).astype(self.dtype)
+    import numpy as np
+    data = np.asarray(view.get(self.var, pbar), 'float64')
+    missing = np.isnan(data)
+    data = np.where(missing, self.fillvalue, np.rint((data - self.offset) / self.scale))
+    return data.astype(self.dtype)
   # }}}
 
 def autodetectformat(filename):
-- 
2.43.0


From b6f855098ed119804452f2f156dd1da589457dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 41/83] fix: decoding of missing values and packed data (fill
 values of zero, several fill values, lost precision)

---
 pygeode/formats/cfmeta.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..c246994 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -25,8 +25,11 @@ class var_newaxes (Var):
     assert len(newaxes) == len(var.axes)
     for a1, a2 in zip(newaxes, var.axes): assert len(a1) == len(a2)
     self.var = var
+    import numpy as np
     dtype = var.dtype
-    if fillvalue is not None or scale is not None or offset is not None: dtype = 'float32'
+    # Use a type that can hold the decoded values (including NaN)
+    if fillvalue is not None or scale is not None or offset is not None:
+      dtype = np.result_type(dtype, np.float32, *[np.asarray(x).dtype for x in (scale, offset) if x is not None])
     self.fillvalue = fillvalue
     self.scale = scale
     self.offset = offset
@@ -47,8 +50,12 @@ class var_newaxes (Var):
     # (should work if the axes are in 1:1 correspondence)
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
-    if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = np.where(data==fillvalue)
+    if fillvalue is not None or scale is not None or offset is not None: data = np.array(data)
+    if fillvalue is not None:
+      # (may be more than one value; the attribute may be of a higher precision than the data)
+      fillvalue = np.asarray(fillvalue)
+      if data.dtype.kind == 'f': fillvalue = fillvalue.astype(data.dtype)
+      w = np.isin(data, fillvalue)
     data = np.asarray(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
@@ -291,6 +298,7 @@ def decode_cf (dataset, ignore=[]):
   from pygeode.timeaxis import Time, ModelTime365, ModelTime360, StandardTime, Yearless
   from pygeode import timeutils
   from warnings import warn
+  import numpy as np
   import re
 
 #  dataset = asdataset(dataset, copy=True)
@@ -468,8 +476,8 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
-    fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
+    fillvalue = [np.ravel(_f) for _f in fillvalue if _f is not None and not isinstance(_f, str)]
+    fillvalue = np.concatenate(fillvalue) if len(fillvalue) > 0 else None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
     units = atts.get('units', None)
-- 
2.43.0


From ab80c572270cd74cd423efcab5a31dd068032937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 42/83] fix: report errors when closing a saved netCDF file,
 and release it

---
 pygeode/formats/netcdf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index f743d9c..6fd51ec 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -558,9 +558,16 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
         assert ret == 0, "Error writing var '%s' to netcdf: %s (error %d)" % (var.name, lib.nc_strerror(ret), ret)
     pbar.update(100)
 
-  finally:
-    # Finished
-    lib.nc_close(fileid)
+  except:
+    ret = lib.nc_close(fileid)
+    if ret != 0 and version == 3: lib.nc_abort(fileid)  # (it's still open)
+    raise
+
+  # Finished
+  # (some of the data may not reach the disk until the file is closed)
+  ret = lib.nc_close(fileid)
+  if ret != 0 and version == 3: lib.nc_abort(fileid)  # (it's still open)
+  if ret != 0: raise IOError("Error closing '%s': %s (error %d)" % (filename, lib.nc_strerror(ret), ret))
 
 #  # Return a function stub for reloading the saved data
 #  from pygeode.var import Var
-- 
2.43.0


From caf96c5629ec567eddbe0ca6802314273633d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 43/83] fix: don't leave netCDF files open after a failed read

---
 pygeode/formats/netcdf.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 6fd51ec..d4d679c 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -183,11 +183,13 @@ class NCFile:
   def opened(self): return self.fileid.value > -1
   def close(self):
 #    from ctypes import c_int
-    if self.fileid.value != -1:
-      ret = self.lib.nc_close(self.fileid)
-      if ret != 0: raise IOError(self.lib.nc_strerror(ret))
+    fileid = self.fileid
     if self.ctypes.c_int is not None:
       self.fileid = self.ctypes.c_int(-1)  # use class-level ctypes reference to avoid errors during cleanup
+    if fileid.value != -1:
+      # (the id is not valid any more, even if there's an error)
+      ret = self.lib.nc_close(fileid)
+      if ret != 0: raise IOError(self.lib.nc_strerror(ret))
   def __enter__(self): return self
   def __exit__(self): self.close()
 
@@ -262,10 +264,12 @@ class NCVar(Var):
     import numpy as np
     already_opened = self._f.opened()
     if not already_opened: self._f.open()
-    # allocate space for loading the data
-    out = np.empty(count, numpy_type[self._vtype])
-    load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
-    if not already_opened: self._f.close()
+    try:
+      # allocate space for loading the data
+      out = np.empty(count, numpy_type[self._vtype])
+      load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
+    finally:
+      if not already_opened: self._f.close()
 
     return out
   # }}}
-- 
2.43.0


From b75aa144d4a3cd72398f13a53adf4d91ff5723c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 44/83] fix: read integer variables through open_multi

---
 pygeode/formats/multifile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..eaa6174 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -341,7 +341,8 @@ class Multifile_Var (Var):
     from warnings import warn
 
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('nan')
+    # (integers can't hold NaN; any timestep not found is reported below anyway)
+    if np.issubdtype(out.dtype, np.inexact): out[()] = float('nan')
 
     # Get the times
     itime = view.index(Time)
-- 
2.43.0


From 033ce3b730406f36ac7d667a9dc841a834097cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 45/83] fix: don't report files without valid data as
 inconsistent in check_multi

---
 pygeode/formats/multifile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index eaa6174..00d5776 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -517,7 +517,8 @@ def check_multi (*args, **kwargs):
         continue
       source_data = np.ma.masked_array(source_data, mask=source_mask)
       multifile_data = np.ma.masked_array(multifile_data, mask=multifile_mask)
-      if not np.all(source_data == multifile_data):
+      # (values missing from both count as equal, even if nothing else is left)
+      if not np.ma.allequal(source_data, multifile_data):
         print("  ERROR: get different data from multifile vs. direct access for '%s'"%var.name)
         all_ok = False
         continue
-- 
2.43.0


From 5dbdff0440c45e255f1ff73ecf0b3f568d3b67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:18 +0000
Subject: [PATCH 46/83] fix: compare times to the nearest second in check_multi

---
 pygeode/formats/multifile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 00d5776..7f7d6e0 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -456,12 +456,17 @@ def check_multi (*args, **kwargs):
   # Similar to above, but return all files that should cover all given timesteps.
   def find_files (t_array):
     return sorted(set(map(find_file,t_array)))
+  # Helper method - compare times to the nearest second (fractions of days or
+  # hours are subject to rounding).
+  seconds = full_taxis.unitfactor[full_taxis.units]
+  def round_times (t_array):
+    return np.round(np.asarray(t_array) * seconds) / seconds
   # Loop over each file, and check the contents.
   all_ok = True
-  all_expected_times = set(full_taxis.values)
+  all_expected_times = set(round_times(full_taxis.values))
 
   # Check for uniformity in the data, and report any potential holes.
-  dt = np.diff(full_taxis.values)
+  dt = np.round(np.diff(full_taxis.values) * seconds)
   expected_dt = min(dt[dt > 0])
   gaps = full_taxis.values[np.where(dt > expected_dt)]
   if len(gaps) > 0:
@@ -523,7 +528,7 @@ def check_multi (*args, **kwargs):
         all_ok = False
         continue
 
-    covered_times.update(times)
+    covered_times.update(round_times(times))
     if i < len(files)-1 and np.any(rtimes >= faxis[i+1]):
       print("  ERROR: found timesteps beyond the expected range of this file.")
       all_ok = False
-- 
2.43.0


From b082d337808770db6c2a18c8b26cd4e498e48afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 47/83] fix: read values of scanned files (tuple indexing,
 decreasing and differently ordered axes)

---
 pygeode/formats/data_scanner.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 32bf1e3..afe05bf 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -697,40 +697,37 @@ class _DataVar(Var):
   def getview (self, view, pbar):
 
     import numpy as np
-    from pygeode.view import View, simplify
+    from pygeode.view import View
     out = np.empty(view.shape, dtype=self.dtype)
     out[()] = float('nan')
     out_axes = view.clip().axes
     # Loop over all available files.
     N = 0  # Number of points covered so far
     for filename, opener, axes in self._table:
+      # The axes may come in a different order in the file.
+      axes = [a for a1 in out_axes for a in axes if a.name == a1.name]
       subaxes = [self._axis_manager._get_axis_intersection([a1,a2]) for a1,a2 in zip(out_axes,axes)]
       reorder = []
       mask = []
       if any(len(a)==0 for a in subaxes): continue
       for a1,a2 in zip(out_axes,subaxes):
         # Figure out where the input chunk fits into the output
-        re = np.searchsorted(a2.values, a1.values)
+        # (the values may be in decreasing order)
+        order = np.argsort(a2.values)
+        re = np.searchsorted(a2.values, a1.values, sorter=order)
         # Mask out elements that we don't actually have in the chunk
-        m = [r<len(a2.values) and a2.values[r]==v for r,v in zip(re,a1.values)]
+        m = [r<len(a2.values) and a2.values[order[r]]==v for r,v in zip(re,a1.values)]
         m = np.array(m)
         # Convert mask to integer indices
         m = np.arange(len(m))[m]
-        # and then to a slice (where possible)
-        m = simplify(m)
-        re = re[m]
-        # Try to simplify the re-ordering array
-        if np.all(re == np.sort(re)):
-          re = simplify(re)
+        re = order[re[m]]
         reorder.append(re)
         mask.append(m)
       var = [v for v in opener(filename) if v.name == self._varname][0]
+      if len(subaxes) > 1: var = var.transpose(*[a.name for a in subaxes])
       v = View(subaxes)
       chunk = v.get(var)
-      # Note: this may break if there is more than one axis with integer indices.
-      assert len([r for r in reorder if isinstance(r,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      assert len([m for m in mask if isinstance(m,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      out[mask] = chunk[reorder]
+      out[np.ix_(*mask)] = chunk[np.ix_(*reorder)]
       N = N + chunk.size
       pbar.update(100.*N/out.size)
 
-- 
2.43.0


From 9bfc4842fa6a86980ee333d5538ef2a918838bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 48/83] fix: don't mix up scanned axes with the same values but
 different names

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index afe05bf..e3336d5 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -293,7 +293,7 @@ class AxisManager (object):
     import numpy as np
     # Check if we can already get one
     key = values
-    axis = self._unsettified_axes.setdefault(type(sample),dict()).get(key,None)
+    axis = self._unsettified_axes.setdefault((type(sample),sample.name),dict()).get(key,None)
     if axis is not None: return axis
 
     values = sorted(values)
@@ -329,7 +329,7 @@ class AxisManager (object):
 
     axis = self.lookup_axis(axis)
 
-    self._unsettified_axes[type(sample)][key] = axis
+    self._unsettified_axes[(type(sample),sample.name)][key] = axis
     return axis
 
   # Find common values between axes
-- 
2.43.0


From 868ad5b0151b36b5572e1134f838f3ba2832f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 49/83] fix: keep scanned variables whose axes come in a
 different order

---
 pygeode/formats/data_scanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index e3336d5..24ea512 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -548,7 +548,8 @@ def _cleanup_subdomains (domains):
       axis_names = _get_axis_names([d2])
       values1 = [d1.get_axis_values(a) for a in axis_names]
       values2 = [d2.get_axis_values(a) for a in axis_names]
-      if all(v1 <= v2 for v1, v2 in zip(values1,values2)):
+      # (two domains may differ only in the order of their axes: keep one)
+      if d2 not in junk_domains and all(v1 <= v2 for v1, v2 in zip(values1,values2)):
         junk_domains.add(d1)
   return domains - junk_domains
 
-- 
2.43.0


From 6a6395d1980e6c25c959c11f1ba1775b52d8f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 50/83] fix: keep the scanner's manifest valid after changed
 files, failed scans and damage

---
 pygeode/formats/data_scanner.py | 64 ++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 24ea512..9fe4c1d 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -28,37 +28,38 @@ __all__ = ['AxisManager','DataInterface','from_files']
 # Current version of the manifest file format.
 # If this version doesn't match the existing manifest file, then the manifest
 # is re-generated.
-_MANIFEST_VERSION="3"
+_MANIFEST_VERSION="4"
 
 # Interface for creating / reading a manifest file.
 class _Manifest(object):
 
   # Start using a manifest file (and read the existing entries if available).
   def __init__(self, filename=None, axis_manager=None):
-    from os.path import exists, getmtime
+    from os.path import exists
     import gzip
     import pickle as pickle
+    from io import BytesIO
 
     self.filename = filename
 
+    # If there's no usable manifest (we don't have an existing file, or it's
+    # the wrong version), then we start with an empty table.
+    self.table = {}
+    # The state (modification time and size) each file in the table had when
+    # it was scanned, to determine if it has been updated since.
+    self.stamps = {}
+
     # If there's already a manifest file on disk, read it.
     if filename is not None and exists(filename):
-      with gzip.open(filename,'r') as f:
-        version = pickle.load(f)
-        table = f.read()
-        try:
-          self.table = pickle.loads(table)
-        except (ImportError, AttributeError, EOFError):
-          version = None  # Unable to read the symbols, so treat this as an
-                          # incompatible version
-      # Use the modification time for the manifest to determine if a data file
-      # has been updated since last time we saved the manifest.
-      self.mtime = getmtime(filename)
-    # If we don't have an existing file, or it's the wrong version, then we
-    # start with an empty table.
-    if filename is None or not exists(filename) or version != _MANIFEST_VERSION:
-      self.table = {}
-      self.mtime = 0
+      try:
+        with gzip.open(filename,'r') as f:
+          f = BytesIO(f.read())
+        if pickle.load(f) == _MANIFEST_VERSION:
+          self.table, self.stamps = pickle.load(f)
+      # Damaged file, or unable to read the symbols, so treat this as an
+      # incompatible version.
+      except Exception:
+        self.table, self.stamps = {}, {}
 
     # Collect the axes from the manifest, so we can re-use the objects where
     # possible for new files.
@@ -81,7 +82,8 @@ class _Manifest(object):
 
   # Scan through all the given files, add the info to the manifest.
   def scan_files (self, files, opener):
-    from os.path import getmtime, normpath
+    from os.path import normpath
+    from os import stat
     from pygeode.progress import PBar
 
     table = self.table
@@ -89,13 +91,13 @@ class _Manifest(object):
     # Special case: no files given
     if len(files) == 0: return
 
-    self.selected_files.extend(files)
-
     # Strip out extra separators, etc. from the filenames.
     # Otherwise, if the files are scanned a second time with different
     # separators, it may cause the same file to be included more than once.
     files = [normpath(f) for f in files]
 
+    self.selected_files.extend(files)
+
     if self.filename is not None:
       pbar = PBar (message = "Scanning files for %s"%self.filename)
     else:
@@ -104,26 +106,28 @@ class _Manifest(object):
     # Construct / add to the table
     for i,f in enumerate(files):
       pbar.update(i*100./len(files))
+      info = stat(f)
+      stamp = (info.st_mtime_ns, info.st_size)
       if f in table:
         # File has changed since last time?
-        if int(getmtime(f)) > self.mtime:
+        if stamp != self.stamps.get(f):
           # Remove existing info
           del table[f]
         else:
           # Otherwise, we've already dealt with the file, so skip it.
           continue
-      # Always use the latest modification time to represent the valid time of
-      # the whole table.
-      self.mtime = max(self.mtime,int(getmtime(f)))
 
       # Record all variables from the file.
       entries = []
-      table[f] = entries
       for var in opener(f):
 
         axes = self.axis_manager.lookup_axes(var.axes)
         entries.append((var.name, axes, var.atts))
 
+      # (only once all went well)
+      table[f] = entries
+      self.stamps[f] = stamp
+
       self.modified_table = True
 
     pbar.update(100)
@@ -141,20 +145,14 @@ class _Manifest(object):
   # Save the data back to disk, if it's been modified.
   # This is called once the manifest is no longer in use.
   def save (self):
-    from os.path import exists, getatime, getmtime, normpath
-    from os import utime
     import gzip
     import pickle as pickle
-    from pygeode.progress import PBar
 
     if self.modified_table is True and self.filename is not None:
       with gzip.open(self.filename,'w') as f:
         pickle.dump(_MANIFEST_VERSION, f)
-        blob = pickle.dumps(self.table)
+        blob = pickle.dumps((self.table, self.stamps))
         f.write(blob)
-      # Set the modification time to the latest file that was used.
-      atime = getatime(self.filename)
-      utime(self.filename,(atime,self.mtime))
 
       self.modified_table = False
 
-- 
2.43.0


From cf1ac6228936742dbc67bd7528540194980c5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 51/83] fix: forget the selected files after a failed scan

---
 pygeode/formats/data_scanner.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 9fe4c1d..e2c3003 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -647,12 +647,14 @@ def from_files (filelist, interface, manifest=None, save_manifest=True, opener_a
 
   axis_manager = manifest.axis_manager
   # Scan the given data files, and add them to the table.
-  manifest.scan_files(filelist, opener)
-  if save_manifest: manifest.save()
-  # Get the final table of available data.
-  table = manifest.get_table()
-  # Done with these files.
-  manifest.unselect_all()
+  try:
+    manifest.scan_files(filelist, opener)
+    if save_manifest: manifest.save()
+    # Get the final table of available data.
+    table = manifest.get_table()
+  # Done with these files (even if something went wrong).
+  finally:
+    manifest.unselect_all()
 
   domains = _get_domains(table, axis_manager)
   # Find all variable attributes that are consistent throughout all files.
-- 
2.43.0


From 197dfe18e991be2da3999cdcf53970222d4a2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:45 +0000
Subject: [PATCH 52/83] fix: don't reuse a scanned axis in the wrong direction

---
 pygeode/formats/data_scanner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index e2c3003..948502b 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -289,14 +289,16 @@ class AxisManager (object):
   # Convert some settified coordinates back into an axis
   def _unsettify_axis (self, sample, values):
     import numpy as np
+    # Detect reverse-ordered axes
+    reverse = len(sample) > 1 and sample.values[0] > sample.values[1]
+
     # Check if we can already get one
-    key = values
+    key = (values, reverse)
     axis = self._unsettified_axes.setdefault((type(sample),sample.name),dict()).get(key,None)
     if axis is not None: return axis
 
     values = sorted(values)
-    # Detect reverse-ordered axes
-    if len(sample) > 1 and sample.values[0] > sample.values[1]:
+    if reverse:
       values = values[::-1]
 
     # Check if the axis is degenerate
-- 
2.43.0


From 4353fc05a23ca17e3bf1cf0c204dec62945e0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 53/83] fix: accept pbar=True (or a message) where progress can
 be displayed

---
 pygeode/progress.py | 2 +-
 pygeode/view.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygeode/progress.py b/pygeode/progress.py
index 6f97752..316a680 100644
--- a/pygeode/progress.py
+++ b/pygeode/progress.py
@@ -137,7 +137,7 @@ class FakePBar:
 
 # Wrap some possible non-progressbar things (message string, True/False/None) into a progress bar
 def as_pbar (x):
-  if isinstance(x,PBar): return x
+  if isinstance(x,(PBar,FakePBar)): return x
   if x is False or x is None: return FakePBar()
   if x is True: return PBar()
   if isinstance(x,str): return PBar(message=x)
diff --git a/pygeode/view.py b/pygeode/view.py
index 456fbf2..8e2b839 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -208,8 +208,8 @@ class View:
     import numpy as np
     from warnings import warn
 
-    from pygeode.progress import FakePBar
-    if pbar is False or pbar is None: pbar = FakePBar()
+    from pygeode.progress import as_pbar
+    pbar = as_pbar(pbar)
 
     assert strict in (True, False)
     assert conform in (True, False)
-- 
2.43.0


From 5fa22caed489c02afe4f6342a1de1cdc16ecaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 54/83] fix: don't fail when progress can't be displayed

---
 pygeode/progress.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygeode/progress.py b/pygeode/progress.py
index 316a680..00a8acc 100644
--- a/pygeode/progress.py
+++ b/pygeode/progress.py
@@ -113,9 +113,13 @@ class PBar:
     y = max(0,y)
     y = min(y,100)
     if self.pbar is not None:
-      self.pbar.update(y)
-      if y >= 100 and self.parent:
-        self.pbar.finish()
+      # The work being reported on shouldn't fail because its progress can't
+      # be displayed (e.g. if the stream has been closed).
+      try:
+        self.pbar.update(y)
+        if y >= 100 and self.parent:
+          self.pbar.finish()
+      except Exception: pass
 
   def subset(self, L, U):
     lower = self.lower
-- 
2.43.0


From 379ffdccddaa344e107fa82a3fcae4efcd2be9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 55/83] fix: show the progress of both halves of a difference

---
 pygeode/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 64f394d..4cdeaad 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -712,7 +712,7 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
     out[outsl] = np.nansum([out[outsl], part], 0)
 
   inxaxes = oaxes + [X.axes[i] for i in ixaxes]
-  for outsl, (xdata,) in loopover([X], oview, inxaxes, pbar=pbar):
+  for outsl, (xdata,) in loopover([X], oview, inxaxes, pbar=pbar.subset(0, 50)):
     xdata = xdata.astype('d')
     accumulate(x,  outsl, xdata)
     accumulate(xx, outsl, xdata**2)
@@ -721,7 +721,7 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
     accumulate(Nx, outsl, ~np.isnan(xdata))
 
   inyaxes = oaxes + [Y.axes[i] for i in iyaxes]
-  for outsl, (ydata,) in loopover([Y], oview, inyaxes, pbar=pbar):
+  for outsl, (ydata,) in loopover([Y], oview, inyaxes, pbar=pbar.subset(50, 100)):
     ydata = ydata.astype('d')
     accumulate(y,  outsl, ydata)
     accumulate(yy, outsl, ydata**2)
-- 
2.43.0


From b233e5b42f047c8500701d938472afc4bdb8d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 56/83] fix: views mapped by several threads at once shared one
 list of axis orders

---
 pygeode/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index 8e2b839..2ea6c74 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -125,7 +125,7 @@ class View:
 
   # }}}
 
-  def map_to (self, axes, strict=True, order=[]):
+  def map_to (self, axes, strict=True, order=None):
   # {{{
     '''Map one view onto another.
         Modifies the slices to work with the new list of axes.
@@ -133,6 +133,7 @@ class View:
           (if not, the default behaviour is to include the entire axis if it's not mentioned in the input view)
         'order' returns the ordering of the output axes to get the original axes back (-1 for things that can't be mapped)'''
 
+    if order is None: order = []
     assert isinstance(order,list), "can't output order to a non-list"
 
     if hasattr(axes,'axes'): axes = axes.axes  # check if a var or view was passed
-- 
2.43.0


From 1e15f624ed322e9890f68d21b2fddf78dc798a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 57/83] fix: format netcdf was not safe to use from several
 threads

---
 pygeode/formats/netcdf.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index d4d679c..50fab8e 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -7,6 +7,25 @@ lib = load_lib('netcdf')
 lib.nc_strerror.restype = c_char_p
 del c_char_p
 
+# The netcdf library can't be used by more than one thread at a time
+# (and ctypes lets other threads run during the calls).
+from threading import RLock
+lock = RLock()
+del RLock
+
+# The functions of the library, called under the lock
+class LockedLib:
+  def __init__ (self, lib): self._lib = lib
+  def __getattr__ (self, name):
+    f = getattr(self._lib, name)
+    def call (*args):
+      with lock: return f(*args)
+    call.__name__ = name
+    setattr(self, name, call)
+    return call
+
+lib = LockedLib(lib)
+
 # Map netcdf types to numpy types
 import numpy as np
 numpy_type = {1:np.int8, 2:np.dtype('|S1'), 3:np.int16, 4:np.int32,
@@ -262,14 +281,16 @@ class NCVar(Var):
   def getvalues (self, start, count):
   # {{{
     import numpy as np
-    already_opened = self._f.opened()
-    if not already_opened: self._f.open()
-    try:
-      # allocate space for loading the data
-      out = np.empty(count, numpy_type[self._vtype])
-      load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
-    finally:
-      if not already_opened: self._f.close()
+    # (other threads may be reading from the same file)
+    with lock:
+      already_opened = self._f.opened()
+      if not already_opened: self._f.open()
+      try:
+        # allocate space for loading the data
+        out = np.empty(count, numpy_type[self._vtype])
+        load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
+      finally:
+        if not already_opened: self._f.close()
 
     return out
   # }}}
-- 
2.43.0


From 91f2c8b8ec023cf5aff002c2ab841a33e5972061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:22 +0000
Subject: [PATCH 58/83] fix: format netcdf4 was not safe to use from several
 threads

---
 pygeode/formats/netcdf4.py | 95 +++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 36 deletions(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 8ae8c65..0ef8809 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -1,5 +1,11 @@
 # Pygeode interface for the netCDF4 Python module.
 
+# The netCDF4 module can't be used by more than one thread at a time
+# (and lets other threads run while it reads and writes).
+from threading import RLock
+lock = RLock()
+del RLock
+
 # A generic dimension (has no attributes except a name and a length)
 from pygeode.axis import DummyAxis
 class NCDim (DummyAxis): pass
@@ -28,38 +34,51 @@ def make_atts (v):
     atts[str(name)] = att
   return atts
 
+# Simple file object - closes the file when it isn't referred to any more
+# (the netCDF4 module would do that as well, but without waiting for other threads)
+class NCFile:
+  def __init__ (self, filename):
+    import netCDF4 as nc
+    with lock: self.f = nc.Dataset(filename,"r")
+  def __del__ (self):
+    if not hasattr(self,'f'): return   # (couldn't be opened)
+    with lock:
+      if self.f.isopen(): self.f.close()
+
 # Wrapper for netcdf variables.
 # Delegates access to the arrays so they don't get loaded until needed.
 from pygeode.var import Var
 class NCVar(Var):
-  def __init__ (self, axes, name, ncvar, atts):
+  def __init__ (self, axes, name, ncvar, atts, file):
     from pygeode.var import Var
     self._ncvar = ncvar
+    self._file = file
     # Turn off netcdf4 masking and scaling algorithm so that they don't get applied twice
     ncvar.set_auto_maskandscale(False)
     Var.__init__(self, axes=axes, name=name, dtype=ncvar.dtype, atts=atts)
   def getvalues (self, start, count):
     sl = [slice(s,s+c) for s,c in zip(start,count)]
-    if len(sl) > 0:
-      return self._ncvar[sl]
-    else:
-      return self._ncvar[:]
+    with lock:
+      if len(sl) > 0:
+        return self._ncvar[sl]
+      else:
+        return self._ncvar[:]
 del Var
 
 # A netcdf variable
-def make_var (ncvar):
+def make_var (ncvar, file):
 # {{{
   from pygeode.var import Var
   axes = [make_dim(str(name),size) for name,size in zip(ncvar.dimensions,ncvar.shape)]
-  return NCVar(axes=axes, name=str(ncvar.name), ncvar=ncvar, atts=make_atts(ncvar))
+  return NCVar(axes=axes, name=str(ncvar.name), ncvar=ncvar, atts=make_atts(ncvar), file=file)
 # }}}
 
 # A netcdf variable
-def make_dataset (ncfile):
+def make_dataset (ncfile, file):
 # {{{
   from pygeode.dataset import asdataset
   # Construct all the variables, put in a list
-  vars = list(map(make_var, list(ncfile.variables.values())))
+  vars = [make_var(v, file) for v in ncfile.variables.values()]
   
   # Construct a dataset from these Vars
   dataset = asdataset(vars)
@@ -120,29 +139,32 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   vars = list(dataset.vars)
   axes = list(dataset.axes)
 
-  # Define the dimensions
-  for a in axes:
-    ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
+  with lock:
+    # Define the dimensions
+    for a in axes:
+      ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
+
+    # Define the variables (including axes)
+    classic = ncfile.data_model.startswith('NETCDF3')
+    for var in vars:
+      dimensions = [a.name for a in var.axes]
+      dtype, atts = var.dtype, var.atts
+      if classic:
+        dtype, atts = classic_type.get(dtype.name, dtype), classic_atts(atts)
+      v = ncfile.createVariable(var.name, datatype=dtype, dimensions=dimensions, zlib=compress, fill_value=atts.get('_FillValue',None))
+      v.set_auto_maskandscale(False)
+      v.setncatts(atts)
 
-  # Define the variables (including axes)
-  classic = ncfile.data_model.startswith('NETCDF3')
-  for var in vars:
-    dimensions = [a.name for a in var.axes]
-    dtype, atts = var.dtype, var.atts
-    if classic:
-      dtype, atts = classic_type.get(dtype.name, dtype), classic_atts(atts)
-    v = ncfile.createVariable(var.name, datatype=dtype, dimensions=dimensions, zlib=compress, fill_value=atts.get('_FillValue',None))
-    v.set_auto_maskandscale(False)
-    v.setncatts(atts)
+    # global attributes
+    ncfile.setncatts(classic_atts(dataset.atts) if classic else dataset.atts)
 
-  # global attributes
-  ncfile.setncatts(classic_atts(dataset.atts) if classic else dataset.atts)
+    filename = ncfile.filepath()
 
   # Relative progress of each variable
   sizes = [v.size for v in vars]
   prog = np.cumsum([0.]+sizes) / np.sum(sizes) * 100
 
-  pbar = PBar(message="Saving '%s':"%ncfile.filepath())
+  pbar = PBar(message="Saving '%s':"%filename)
 
   # number of actual variables (non-axes) for determining our progress
   N = len([v for v in vars if not isinstance(v,Axis)])
@@ -156,7 +178,8 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
 
     for j,v in enumerate(views):
       vpbar = varpbar.part(j, len(views))
-      ncvar[v.slices] = v.get(var, pbar=vpbar)
+      data = v.get(var, pbar=vpbar)   # (may be computed by other threads)
+      with lock: ncvar[v.slices] = data
 
   pbar.update(100)
 # }}}
@@ -239,22 +262,22 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
         not the names given in namemap.
         -The optional arguments are not currently supported for netcdf4 files containing groups.'''
 
-  import netCDF4 as nc
   from pygeode.dataset import asdataset
   from pygeode.formats import finalize_open
   from pygeode.axis import Axis
 
   # Read the file
-  try:
-    f = nc.Dataset(filename,"r")
+  file = NCFile(filename)
+  f = file.f
+  with lock:
     if f.groups:
-      dataset =  {str(key): make_dataset(value) for key, value in f.groups.items()}
+      dataset =  {str(key): make_dataset(value, file) for key, value in f.groups.items()}
       dataset =  {str(key): dims2axes(value) for key, value in dataset.items()}
       
       return {str(key): finalize_open(value) for key, value in dataset.items()}
           
     else: 
-      dataset = make_dataset(f)
+      dataset = make_dataset(f, file)
       # Add the object stuff from dimtypes to value_override, so we don't trigger a
       # load operation on those dims.
       # (We could use any values here, since they'll be overridden again later,
@@ -274,8 +297,6 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
       # with the same name as the dimension)
       dataset = dims2axes(dataset)
       return finalize_open(dataset, dimtypes, namemap, varlist, cfmeta)
-  except IOError:  # Problem accessing the file?
-    raise
 # }}}
 
 #TODO: factor out cf-meta encoding and other processing steps
@@ -300,13 +321,13 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
 
   assert format in ('NETCDF3_CLASSIC','NETCDF4')
   
-  with nc.Dataset(filename,'w',format=format) as f:
-    
+  with lock: f = nc.Dataset(filename,'w',format=format)
+  try:
     if isinstance(in_dataset, dict):
       dataset =  {key: finalize_save(asdataset(value), cfmeta, pack) for key, value in in_dataset.items()}
       dataset =  {key: tidy_axes(value, unlimited=unlimited) for key, value in dataset.items()}
       for key, value in dataset.items():
-        group = f.createGroup(key)
+        with lock: group = f.createGroup(key)
         write_var(group, value, unlimited=unlimited, compress=compress)
         
     else:
@@ -315,4 +336,6 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
       dataset = finalize_save(in_dataset, cfmeta, pack)
       dataset = tidy_axes(dataset, unlimited=unlimited)
       write_var(f, dataset, unlimited=unlimited, compress=compress)
+  finally:
+    with lock: f.close()
 # }}}
-- 
2.43.0


From 27cb49144796ffcdb3f56312e0ea4177723d734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 59/83] fix: interpolating from a coordinate field that is
 unknown along its first columns (or has gaps) raised SystemError

---
 pygeode/interp.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pygeode/interp.c b/pygeode/interp.c
index 03d0066..d8854c9 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -35,21 +35,26 @@ int interpgsl (int narrays, int nxin, int nxout,
                const gsl_interp_type *type, int omit_nm)           {
 
   int i, j, n, start, end, step, status; 
+  double xlast;
   double *local_xin, *local_xout, *local_yin;
   double dx, xmin, ymin, xmax, ymax;
 
   // Check the order of the x coordinates
   // If the order seems to be reversed, then flip the sign of the coordinates
-  if (nxin > 1) {
-    i = 0;
-    do {
-      dx = xin[i + 1] - xin[i];
-    } while (!isfinite(dx) && ++i < nxin);
-  } else {
-    dx = 1.;
+  // (look at the first two known coordinates of some array)
+  dx = NAN;
+  for (n = 0; n < (loop_xin ? narrays : 1) && !isfinite(dx); n++) {
+    xlast = NAN;
+    for (i = 0; i < nxin && !isfinite(dx); i++) {
+      if (!isfinite(xin[(size_t)n*nxin + i])) continue;
+      dx = xin[(size_t)n*nxin + i] - xlast;
+      xlast = xin[(size_t)n*nxin + i];
+    }
   }
+  // There may be too few coordinates to tell (and to interpolate)
+  if (!isfinite(dx)) dx = 1.;
 
-  if (!isfinite(dx) || dx == 0. ) { return -1; }
+  if (dx == 0.) { PyErr_SetString(PyExc_ValueError, "Interpolation error: repeated coordinates in the source data."); return -1; }
   
   if (dx < 0.) {
     start = nxin - 1; 
@@ -89,10 +94,6 @@ int interpgsl (int narrays, int nxin, int nxout,
       }
     }
 
-    // Save extremal points for extrapolation
-    xmin = local_xin[0];
-    xmax = local_xin[j-1];
-
     if (loop_xout) {
       for (i = 0; i < nxout; i++) local_xout[i] = xout[i]; 
     }
@@ -109,6 +110,10 @@ int interpgsl (int narrays, int nxin, int nxout,
       continue;
     }
 
+    // Save extremal points for extrapolation
+    xmin = local_xin[0];
+    xmax = local_xin[j-1];
+
     interp = gsl_interp_alloc (type, j);
     if (NULL == interp) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate interp object."); goto clean_err;}
 
-- 
2.43.0


From 3c8351fa7f20a519b398ffbca5add337d3e891d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 60/83] fix: dates given as '06:00:00 1 Jan 1979' (with
 seconds, as documented) were not recognized

---
 pygeode/pygrc       | 4 ++--
 pygeode/timeaxis.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygeode/pygrc b/pygeode/pygrc
index 72411b3..6f1e63e 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -60,7 +60,7 @@ CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #                         (1/24., '$H:$M',    '$d $b $Y'), # Larger than 1 hour
 #                         (0.   , '$H:$M:$S', '$d $b $Y')] # Less than 1 hour
 CalendarTime.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
    ^(?P<year>\d+)(-(?P<month>\d{2})(-(?P<day>\d{2})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?)?$
    ^(?P<year>\d+)(-(?P<day>\d{3})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?$
 
@@ -70,7 +70,7 @@ Yearless.formatstr = day $d, $H:$M:$S
 #                     (1/24., '$H:$M',    'day $d'), # Larger than 1 hour
 #                     (0.  ,  '$H:$M:$S', 'day $d')] # Less than 1 hour
 Yearless.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d+)$
    ^(?P<day>\d+)(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?$
 
 [Plotting]
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 37ff407..5cb9c36 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -344,7 +344,7 @@ class CalendarTime(Time):
           (0.  , '$H:$M:$S',  '$d $b $Y')] # Less than 1 hour
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
 
   allowed_fields = ('year', 'month', 'day', 'hour', 'minute', 'second')
 
@@ -643,7 +643,7 @@ class CalendarTime(Time):
       if res is not None: break
 
     if res is None:
-      raise ValueError('String "%s" not recognized as a time')
+      raise ValueError('String "%s" not recognized as a time' % s)
 
     d = {}
     for k, v in res.groupdict().items():
@@ -1025,7 +1025,7 @@ class Yearless(CalendarTime):
   allowed_fields = ('day', 'hour', 'minute', 'second')
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2})']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d{1,2})']
 
   _date_as_val = lib.date_as_val_yearless
   _val_as_date = lib.val_as_date_yearless
-- 
2.43.0


From 4d08a5f8f24ffdc4e2ac89c39a8714c9b2d56d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:07 +0000
Subject: [PATCH 61/83] fix: axes of dimensions without coordinate values never
 compared equal, so that renaming one split it into several

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..bc026ba 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -761,7 +761,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if not isinstance(other, NamedAxis): return False
 
     # Check the names
     if self.name != other.name: return False
-- 
2.43.0


From 239f75854142b1ecc653398d03e89e1c17851fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:29 +0000
Subject: [PATCH 62/83] fix: auxiliary variables of an axis of no particular
 type were dropped when opening a file

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index c246994..d72953a 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -463,7 +463,7 @@ def decode_cf (dataset, ignore=[]):
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a):
+    if cls != type(a) or len(aux) > 0:
       axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
-- 
2.43.0


From f7569b2abe62672d75aa6fec854ef3f6353db1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 63/83] fix: files could not be opened if the units of time
 were abbreviated or not known, or UTC followed the date

---
 pygeode/formats/cfmeta.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index d72953a..833503f 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -14,6 +14,13 @@ for ep in pkg_resources.iter_entry_points('pygeode.axis'):
   del ep
 del pkg_resources
 
+# The units of time that can be used in a time axis (and their other names)
+time_units = {'day':'days', 'd':'days', 'hour':'hours', 'hr':'hours', 'hrs':'hours', 'h':'hours',
+              'minute':'minutes', 'min':'minutes', 'mins':'minutes',
+              'second':'seconds', 'sec':'seconds', 'secs':'seconds', 's':'seconds'}
+for _units in list(time_units.values()): time_units[_units] = _units
+del _units
+
 # Wrapper for replacing a variable's axes with new ones
 # (the axes must be in 1:1 correspondence with the old ones)
 from pygeode.var import Var
@@ -398,12 +405,15 @@ def decode_cf (dataset, ignore=[]):
         warn ("unknown calendar '%s'"%_calendar)
         continue
       # Extract the time resolution (day, hour, etc), and the reference date
-      res, date = re.match("([a-zA-Z]+)\s+since\s+(.*)", _units).groups()
-      # Pluralize the increment (i.e. day->days)?
-      res = res.lower()
-      if not res.endswith('s'): res += 's'
+      match = re.match("([a-zA-Z]+)\s+since\s+(.*)", _units)
+      res, date = match.groups() if match is not None else (_units, '')
+      # Recognize the various forms of the increment (i.e. day->days)
+      res = time_units.get(res.lower(), None)
+      if res is None:
+        warn ("unknown time units '%s'"%_units)
+        continue
       # Extract the rest of the date
-      date = date.rstrip()
+      date = re.sub("\\s*(Z|UTC|GMT)$", "", date.rstrip())
       year, month, day, hour, minute, second = 0,1,1,0,0,0
       if len(date) > 0: year, date = re.match("(\d+)-?(.*)", date).groups()
       if len(date) > 0: month, date = re.match("(\d+)-?(.*)", date).groups()
-- 
2.43.0


From 2a09aa707a0dd3159cac7fac5900d8399bb26c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 64/83] fix: packed coordinates were not unpacked when opening
 a file

---
 pygeode/formats/cfmeta.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 833503f..b504545 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -342,6 +342,11 @@ def decode_cf (dataset, ignore=[]):
     atts = a.atts.copy()
     plotatts = a.plotatts.copy() # just carry along and pass to new Axis instance
 
+    # Decode packed coordinates
+    values = a.values
+    if 'scale_factor' in atts or 'add_offset' in atts:
+      values = values * atts.pop('scale_factor', 1.) + atts.pop('add_offset', 0.)
+
     # Find any auxiliary arrays
     aux = auxdict[name]
     if 'ancillary_variables' in atts:
@@ -427,7 +432,7 @@ def decode_cf (dataset, ignore=[]):
       year, month, day, hour, minute, second = list(map(int, [year, month, day, hour, minute, float(second)]))
       # Create the time axis
       startdate={'year':year, 'month':month, 'day':day, 'hour':hour, 'minute':minute, 'second':second}
-      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts)
+      axisdict[name] = cls(values, startdate=startdate, units=res, name=name, atts=atts)
       # Special case: start year=0 implies a climatology
       #NOTE: 'climatology' attribute not used, since we don't currently keep
       #      track of the interval that was used for the climatology.
@@ -473,8 +478,8 @@ def decode_cf (dataset, ignore=[]):
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a) or len(aux) > 0:
-      axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
+    if cls != type(a) or len(aux) > 0 or values is not a.values:
+      axisdict[name] = cls(values=values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
   # Check for fill values, etc.
-- 
2.43.0


From 3e25f449dcfb737e8468f46423a19be6860e73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 65/83] fix: pressure coordinates given in Pa were taken for
 hPa when opening a file

---
 pygeode/formats/cfmeta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index b504545..9d7d28d 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -385,6 +385,8 @@ def decode_cf (dataset, ignore=[]):
     if _st == 'longitude' or _units == 'degrees_east': cls = Lon
     if _st == 'air_pressure' or _units in ('hPa','mbar'):
       cls = Pres
+      # Pressure axes are in hPa
+      if _units == 'Pa': values = values * 0.01
       # Don't need this in the metadata anymore (it will be put back in encode_cf)
       atts.pop('positive',None)
 
-- 
2.43.0


From 674fb02387500a0e5eed38dbd024084458fa2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 66/83] fix: variables of strings were read as their first
 letters, or could not be opened at all

---
 pygeode/formats/netcdf.py  | 12 ++++++++++--
 pygeode/formats/netcdf4.py |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 50fab8e..842a5bb 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -30,7 +30,7 @@ lib = LockedLib(lib)
 import numpy as np
 numpy_type = {1:np.int8, 2:np.dtype('|S1'), 3:np.int16, 4:np.int32,
               5:np.float32, 6:np.float64, 7:np.uint8, 8:np.uint16,
-              9:np.uint32, 10:np.int64, 11:np.uint64}
+              9:np.uint32, 10:np.int64, 11:np.uint64, 12:np.dtype(object)}
 del np
 
 NC_MAX_NAME = 256
@@ -164,7 +164,7 @@ def put_attributes (fileid, varid, atts, version):
 def load_values (fileid, varid, vartype, start, count, out=None):
   # Map the netCDF types to a numpy type
   # NOTE: character type not supported
-  from ctypes import c_long
+  from ctypes import c_long, c_char_p
   from pygeode.tools import point
   import numpy as np
   if out is None: out = np.empty(count, dtype = numpy_type[vartype])
@@ -176,6 +176,14 @@ def load_values (fileid, varid, vartype, start, count, out=None):
   A = c_long * len(start)
   _start = A(*start)
   _count = A(*count)
+  # Variable-length strings
+  if vartype == 12:
+    strs = (c_char_p * out.size)()
+    ret = lib.nc_get_vara_string(fileid, varid, _start, _count, strs)
+    if ret != 0: raise IOError(lib.nc_strerror(ret))
+    out[...] = np.array([(s or b'').decode('utf-8') for s in strs], dtype=object).reshape(out.shape)
+    lib.nc_free_string(c_long(out.size), strs)
+    return out
   ret = f[vartype](fileid, varid, _start, _count, point(out))
   if ret != 0: raise IOError(lib.nc_strerror(ret))
   return out
diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 0ef8809..29fd4d3 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -55,7 +55,11 @@ class NCVar(Var):
     self._file = file
     # Turn off netcdf4 masking and scaling algorithm so that they don't get applied twice
     ncvar.set_auto_maskandscale(False)
-    Var.__init__(self, axes=axes, name=name, dtype=ncvar.dtype, atts=atts)
+    # Leave character arrays as they are, for the same reason
+    ncvar.set_auto_chartostring(False)
+    # (variable-length strings are Python objects)
+    dtype = object if ncvar.dtype is str else ncvar.dtype
+    Var.__init__(self, axes=axes, name=name, dtype=dtype, atts=atts)
   def getvalues (self, start, count):
     sl = [slice(s,s+c) for s,c in zip(start,count)]
     with lock:
-- 
2.43.0


From 2a52f60acad0cf4ba0d8e57f7dfe0739458fcfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:07 +0000
Subject: [PATCH 67/83] fix: selections by position on an axis with repeated
 values returned other elements than those selected

---
 pygeode/varoperations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index f947353..96978ff 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -497,6 +497,7 @@ class SlicedVar(Var):
   def __init__ (self, var, slices):
   # {{{
     from pygeode.var import Var, copy_meta
+    import numpy as np
     self.var = var
     copy_meta (var, self)
 
@@ -524,13 +525,18 @@ class SlicedVar(Var):
 
     # Slice the output axes
     axes = [a.slice[s] for a,s in zip(var.axes,slices)]
+    # Remember which elements were selected
+    # (can't always be determined from the axes, since their values may not be unique)
+    self.indices = [np.array(np.arange(len(a))[s], ndmin=1) for a,s in zip(var.axes,slices)]
 
     Var.__init__(self, axes, dtype=var.dtype, atts=self.atts, plotatts=self.plotatts)
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return view.get(self.var, pbar=pbar)
+    from pygeode.view import View
+    indices = [ind[i] for ind,i in zip(self.indices, view.integer_indices)]
+    return View(self.var.axes, force_integer_indices=indices).get(self.var, pbar=pbar)
   # }}}
 # }}}
 
-- 
2.43.0


From b681b126a4d09b8fe990c58b85d983f07d5db3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:07 +0000
Subject: [PATCH 68/83] fix: selections on a non-coordinate axis without
 auxiliary arrays failed

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index bc026ba..bc817e4 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1237,7 +1237,7 @@ class NonCoordinateAxis(Axis):
   def __init__ (self, *args, **kwargs):
 # {{{
     import numpy as np
-    lengths = [len(kw) for kw in list(kwargs.values()) if isinstance(kw,(list,tuple,np.ndarray))]
+    lengths = [len(arg) for arg in list(args[:1])+list(kwargs.values()) if isinstance(arg,(list,tuple,np.ndarray))]
     if len(lengths) == 0:
       raise ValueError("Unable to determine a length for the non-coordinate axis.")
     N = lengths[0]
-- 
2.43.0


From f65b083dfce48cc83428d5265c980db54a8e21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:17 +0000
Subject: [PATCH 69/83] fix: an axis identified by its own name could be taken
 for another one of a class of that name

---
 pygeode/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 871fea4..0b7b557 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -157,6 +157,9 @@ def whichaxis(axes, id):
   from pygeode.axis import Axis
   # Case 1: a string was given
   if isinstance(id, str):
+    # (the name of an axis takes precedence over the names of its class)
+    for i,a in enumerate(axes):
+      if a.name == id: return i
     for i,a in enumerate(axes):
       if a.has_alias(id): return i
 
-- 
2.43.0


From 1398f42d366bde258f32a52765c5430de2061c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:59 +0000
Subject: [PATCH 70/83] fix: dimtypes and namemap were applied to other axes of
 a class of that name as well

---
 pygeode/formats/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 8b1e7ed..ea1a860 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -254,7 +254,19 @@ def set_axistypes (dataset, dimtypes):
     assert len(axis) == len(oldaxis), "expected axis of length %s, ended up with axis of length %s"%(len(oldaxis),len(axis))
     replacements[name] = axis
 
-  return dataset.replace_axes(axisdict=replacements)
+  return replace_axes_by_name(dataset, replacements)
+# }}}
+
+# Replace the axes with the given names
+# (and no others; unlike Dataset.replace_axes, which may identify them by the names of their classes)
+def replace_axes_by_name (dataset, axisdict):
+# {{{
+  from pygeode.dataset import Dataset
+  vars = list(dataset.vars)
+  for i, v in enumerate(vars):
+    if any(a.name in axisdict for a in v.axes):
+      vars[i] = v.replace_axes(newaxes=[axisdict.get(a.name, a) for a in v.axes])
+  return Dataset(vars, atts=dataset.atts)
 # }}}
 
 # Apply variable whitelist to a dataset (only keep specific variables)
@@ -288,7 +300,8 @@ def finalize_open(dataset, dimtypes = {}, namemap = {}, varlist = [], cfmeta = T
   if len(namemap) > 0:
     # Check both axes and variables
     dataset = dataset.rename_vars(vardict=namemap)
-    dataset = dataset.rename_axes(axisdict=namemap)
+    axisdict = dict((a.name, a.rename(namemap[a.name])) for a in dataset.axes if a.name in namemap)
+    dataset = replace_axes_by_name(dataset, axisdict)
 
   return dataset
 # }}}
-- 
2.43.0


From 4b68a06bff0fb557307ff7136ad226d1c2375f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:49 +0000
Subject: [PATCH 71/83] fix: the axis of a climatology lost its name and
 attributes

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 0a91e04..4a8fb7c 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -78,7 +78,7 @@ def modify (taxis, resolution=None, exclude=[], include=[], uniquify=False):
   fields = dict([name,f] for name,f in zip(fnames,fields))
 
   kwargs = dict(taxis.auxatts, **fields)
-  return type(taxis)(**kwargs)
+  return type(taxis)(name=taxis.name, atts=taxis.atts, plotatts=taxis.plotatts, **kwargs)
 # }}}
 
 
-- 
2.43.0


From 0d4a003a323cf940678886ca9184c4479e082923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:45 +0000
Subject: [PATCH 72/83] fix: auxiliary variables were attached to axes without
 decoding their fill values and scales

---
 pygeode/formats/cfmeta.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 9d7d28d..0738ab2 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -297,6 +297,24 @@ def encode_cf (dataset):
   dataset = Dataset(varlist, atts=global_atts)
   return dataset
 
+###############################################################################
+# Decode the values of a variable (fill values, scale and offset), and put it on new axes
+def decode_var (var, newaxes):
+  import numpy as np
+  atts = var.atts.copy()
+  plotatts = var.atts.copy()
+  fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
+  fillvalue = [np.ravel(_f) for _f in fillvalue if _f is not None and not isinstance(_f, str)]
+  fillvalue = np.concatenate(fillvalue) if len(fillvalue) > 0 else None
+  scale = atts.pop('scale_factor', None)
+  offset = atts.pop('add_offset', None)
+  units = atts.get('units', None)
+
+  newvar = var_newaxes(var, newaxes, name=var.name, fillvalue=fillvalue, scale=scale, offset=offset,
+                  atts=atts, plotatts=plotatts)
+  if units is not None: newvar.units = units
+  return newvar
+
 ###############################################################################
 # Decode cf-compliant variables
 def decode_cf (dataset, ignore=[]):
@@ -469,7 +487,7 @@ def decode_cf (dataset, ignore=[]):
       cls = NonCoordinateAxis
 
     # Attach the information from these dependent variables as auxiliary arrays.
-    aux.update((dep.name,dep.get()) for dep in dependencies)
+    aux.update((dep.name,decode_var(dep, dep.axes).get()) for dep in dependencies)
 
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
@@ -488,21 +506,7 @@ def decode_cf (dataset, ignore=[]):
   # Extract to a list first, then back to a dataset
   # (ensures the dataset axis list is up to date)
   for i,oldvar in enumerate(list(varlist)):
-#    name = [n for n,v in dataset.vardict.iteritems() if v is oldvar].pop()
-    name = oldvar.name
-    atts = oldvar.atts.copy()
-    plotatts = oldvar.atts.copy()
-    fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [np.ravel(_f) for _f in fillvalue if _f is not None and not isinstance(_f, str)]
-    fillvalue = np.concatenate(fillvalue) if len(fillvalue) > 0 else None
-    scale = atts.pop('scale_factor', None)
-    offset = atts.pop('add_offset', None)
-    units = atts.get('units', None)
-
-    varlist[i] = var_newaxes(oldvar, [axisdict[a.name] for a in oldvar.axes],
-                    name=name, fillvalue=fillvalue, scale=scale, offset=offset, atts=atts, plotatts=plotatts)
-
-    if units is not None: varlist[i].units = units
+    varlist[i] = decode_var(oldvar, [axisdict[a.name] for a in oldvar.axes])
 
   dataset = Dataset(varlist, atts=global_atts)
 
-- 
2.43.0


From 2dcc15ca7f34874796175fdc47684479b0606cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:24 +0000
Subject: [PATCH 73/83] fix: variables with two equal axes could not be read or
 reduced

---
 pygeode/reduce.py | 10 +++++-----
 pygeode/view.py   |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 04b0be8..26d14c9 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -226,7 +226,7 @@ class WeightedSumVar(ReducedVar):
     ReducedVar.__init__(self, var, indices)
 
     # Confirm that weights are defined for the reduction axes
-    raxes = [a for a in var.axes if a not in self.axes]
+    raxes = [var.axes[i] for i in self.indices]
     assert all([a in raxes for a in weights.axes]), 'The provided weights do not match the reduced axes'
 
     self.mweights = weights
@@ -264,7 +264,7 @@ class WeightedNANSumVar(ReducedVar):
     ReducedVar.__init__(self, var, indices)
 
     # Confirm that weights are defined for the reduction axes
-    raxes = [a for a in var.axes if a not in self.axes]
+    raxes = [var.axes[i] for i in self.indices]
     assert all([a in raxes for a in weights.axes]), 'The provided weights do not match the reduced axes'
 
     self.mweights = weights
@@ -306,7 +306,7 @@ class WeightedMeanVar(ReducedVar):
     ReducedVar.__init__(self, var, indices)
 
     # Confirm that weights are defined for the reduction axes
-    raxes = [a for a in var.axes if a not in self.axes]
+    raxes = [var.axes[i] for i in self.indices]
     assert all([a in raxes for a in weights.axes]), 'The provided weights do not match the reduced axes'
 
     self.mweights = weights
@@ -357,7 +357,7 @@ class WeightedNANMeanVar(ReducedVar):
     ReducedVar.__init__(self, var, indices)
 
     # Confirm that weights are defined for the reduction axes
-    raxes = [a for a in var.axes if a not in self.axes]
+    raxes = [var.axes[i] for i in self.indices]
     assert all([a in raxes for a in weights.axes]), 'The provided weights do not match the reduced axes'
 
     self.mweights = weights
@@ -411,7 +411,7 @@ class WeightedVarianceVar(ReducedVar):
     ReducedVar.__init__(self, var, indices)
 
     # Confirm that weights are defined for the reduction axes
-    raxes = [a for a in var.axes if a not in self.axes]
+    raxes = [var.axes[i] for i in self.indices]
     assert all([a in raxes for a in weights.axes]), 'The provided weights do not match the reduced axes'
 
     self.mweights = weights
diff --git a/pygeode/view.py b/pygeode/view.py
index 2ea6c74..b21d748 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -144,7 +144,9 @@ class View:
     for out_i,out_a in enumerate(axes):
       #TODO: remove this special case, let Axis.map_to handle it
       if out_a in self.axes:
-        in_i = list(self.axes).index(out_a)
+        # (if several axes are equal, it's the very same one, otherwise one not yet taken)
+        equal = [i for i,a in enumerate(self.axes) if a is out_a or a == out_a]
+        in_i = min(equal, key=lambda i: (self.axes[i] is not out_a, order[i] != -1, self.axes[i].name != out_a.name))
         slices.append(self.slices[in_i])
         order[in_i] = out_i
         continue
-- 
2.43.0


From a9492acc4280fe6c6a45cf44aba2c857defbd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 74/83] fix: selections by auxiliary arrays of strings selected
 nothing or failed

---
 pygeode/axis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index bc817e4..bd2b82f 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -435,7 +435,9 @@ class Axis(Var):
         # Build mask
         kp = np.zeros(n, bool)
         # Convert string representation if necessary
-        if isinstance(v, str): v = self.str_as_val(ax, v)
+        # (not if the values are strings themselves)
+        isstr = vals.dtype.kind in 'SUO'
+        if isinstance(v, str) and not isstr: v = self.str_as_val(ax, v)
 
         if isinstance(v,str) or not hasattr(v,'__len__'): # Single value given
           if vals.dtype.name.startswith('float'): # closest match
@@ -446,7 +448,7 @@ class Axis(Var):
         elif 'l' in prefix:
           for V in v:
             # Convert string representation if necessary
-            if isinstance(V, str): V = self.str_as_val(ax, V)
+            if isinstance(V, str) and not isstr: V = self.str_as_val(ax, V)
 
             if vals.dtype.name.startswith('float'): # closest match
               kp[np.argmin( np.abs(V-vals) )] = True
@@ -455,7 +457,7 @@ class Axis(Var):
 
         elif len(v) == 2:       # Select within range
           # Convert string representations if necessary
-          v = [self.str_as_val(ax, V) if isinstance(V, str) else V for V in v]
+          v = [self.str_as_val(ax, V) if isinstance(V, str) and not isstr else V for V in v]
           lower, upper = min(v), max(v)
           kp[(lower <= vals) & (vals <= upper)] = True
 
-- 
2.43.0


From 2c5a3708f14ec38a13d94326c29f5360b94dd7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 75/83] fix: non-coordinate axes lost their name when renamed,
 reordered or concatenated

---
 pygeode/axis.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index bd2b82f..5641348 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1249,6 +1249,29 @@ class NonCoordinateAxis(Axis):
     self._name = self.name
 # }}}
 
+  # (derived axes keep it as well)
+  def rename (self, name):
+# {{{
+    axis = Axis.rename(self, name)
+    axis._name = self._name
+    return axis
+# }}}
+
+  def _getitem_asvar (self, slices):
+# {{{
+    axis = Axis._getitem_asvar(self, slices)
+    if axis is not self: axis._name = self._name
+    return axis
+# }}}
+
+  @classmethod
+  def concat (cls, axes):
+# {{{
+    axis = super(NonCoordinateAxis, cls).concat(axes)
+    axis._name = axes[0]._name
+    return axis
+# }}}
+
   # Modify test for equality to look for an exact match
   #TODO: Make the default Axis.__eq__ logic do this, and move the "close"
   # matching to a subclass of Axis.
-- 
2.43.0


From 5d8e2bbd24dafdf0b3cf6344de13d1411dcec89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 76/83] fix: auxiliary arrays whose names are part of 'lat lon'
 were not saved

---
 pygeode/formats/cfmeta.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 0738ab2..b1a5e7a 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -225,8 +225,6 @@ def encode_cf (dataset):
         extra_vars.append(lon)
         coordinates.append('lon')
 
-      coordinates = " ".join(coordinates)
-
       # Encode other auxarrays as generic "ancillary" arrays.
       ancillary_variables = []
       for auxname in list(a.auxarrays.keys()):
@@ -249,7 +247,7 @@ def encode_cf (dataset):
           var = copy(var)
           var.atts = copy(var.atts)
           if len(coordinates) > 0:
-            var.atts['coordinates'] = coordinates
+            var.atts['coordinates'] = " ".join(coordinates)
           if len(ancillary_variables) > 0:
             var.atts['ancillary_variables'] = ancillary_variables
           varlist[i] = var
-- 
2.43.0


From ad169c58a45bb68bb139c5b255cb410b0d534c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 77/83] fix: auxiliary arrays of strings over ordinary axes
 could not be saved

---
 pygeode/formats/cfmeta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index b1a5e7a..3572eca 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -274,7 +274,10 @@ def encode_cf (dataset):
     for aux,values in auxarrays.items():
       auxname = name+'_'+aux
       assert not any(v.name == auxname for v in varlist), "already have a variable named %s"%auxname
-      varlist.append( Var([a], values=values, name=auxname) )
+      var = Var([a], values=values, name=auxname)
+      if var.dtype.name.startswith('str'):
+        var = encode_string_var(var)
+      varlist.append(var)
     if len(auxarrays) > 0:
       atts['ancillary_variables'] = ' '.join(name+'_'+aux for aux in auxarrays.keys())
 
-- 
2.43.0


From 79ba79e188472bed0a98c4b9c6c72f905247096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 78/83] fix: reordering elements whose coordinates are equal
 returned the axis unchanged

---
 pygeode/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 5641348..a990408 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -361,7 +361,9 @@ class Axis(Var):
     values = np.array(self.values[slices], ndmin=1, copy=False)
 
     # Check if we even need to do any slicing
-    if len(values) == len(self.values) and np.all(values==self.values): return self
+    # (elements of the same value may still be different ones)
+    positions = np.array(np.arange(len(self.values))[slices], ndmin=1)
+    if len(values) == len(self.values) and np.all(positions==np.arange(len(self.values))): return self
 
     aux = {}
 
-- 
2.43.0


From a79691eb09279f7b28fe64966fd0afeec8674d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 79/83] fix: variables named like an auxiliary array were
 dropped on opening

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 3572eca..a325c4c 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -492,7 +492,7 @@ def decode_cf (dataset, ignore=[]):
 
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
-    varlist = [v for v in varlist if v.name not in aux]
+    varlist = [v for v in varlist if not any(v is dep for dep in dependencies)]
 
 
     # put the units back (if we didn't use them)?
-- 
2.43.0


From 537885a74784327a384b6f9ad814baa4c328a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:16 +0000
Subject: [PATCH 80/83] fix: strings could not be saved in version 4 by the
 netcdf writer

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 842a5bb..6695824 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -41,7 +41,7 @@ nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
            'uint32':6, 'int64':6, 'uint64':6}
 
-nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
+nc_type_v4 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
            'uint32':9, 'int64':10, 'uint64':11}
 
-- 
2.43.0


From 99acd58b5f56d6572ee487f62cc8e90d7a7d3916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:16 +0000
Subject: [PATCH 81/83] fix: strings with non-ASCII characters could not be
 saved

---
 pygeode/formats/cfmeta.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index a325c4c..a7151b8 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -97,14 +97,16 @@ def encode_string_var (var):
   from pygeode.axis import DummyAxis
 
   # Construct a 2D character array to hold strings
-  strlen = max(len(string) for string in var.values)
+  # (of bytes; decode_string_var expects utf-8)
+  values = np.char.encode(np.asarray(var.values, dtype=str), 'utf-8')
+  strlen = max(len(string) for string in values.flat)
   #TODO: make this a simple dimension (no coordinate values needed!)
   strlen_axis = DummyAxis (strlen, name=var.name+"_strlen")
   dtype = '|S'+str(strlen)  # For a convenient view on the character array
                                       # (to help popluate it from strings)
 
   data = np.zeros(list(var.shape)+[strlen], dtype='|S1')
-  data.view(dtype)[...,0] = var.values
+  data.view(dtype)[...,0] = values
   var = Var(list(var.axes)+[strlen_axis], values=data, name=var.name+"_name")
   return var
 
-- 
2.43.0


From 6ef6045c74014192db76e79aa114e444d7b08738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:16 +0000
Subject: [PATCH 82/83] fix: chunked reductions put values in the wrong place
 over repeated coordinates

---
 pygeode/tools.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 0b7b557..41a8531 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -415,27 +415,29 @@ def loopover (vars, outview, inaxes=None, preserve=None, pbar=None):
     the accumulation array'''
 
   from pygeode.var import Var
+  from pygeode.axis import DummyAxis
+  from pygeode.view import View
   # Make vars a list if it isn't already
   if isinstance(vars,Var): vars = [vars]
 
-  # clip the output view so there is nothing 'outside' of the selected region
-  # (so we can use the slices of the current view chunk as a 1:1 correspondence to
-  #  the slices into the accumulation array)
-  outview = outview.clip()
-
   # Get the corresponding view for the input var(s)
   # (get entire axis for all reduced axis)
   if inaxes is None:
     assert len(vars) == 1, 'Implicit reduction axes (inaxes=None) can only be used when looping over one variable.'
     inaxes = vars[0].axes
 
-  inview = outview.map_to(inaxes, strict=False)
+  order = []
+  inview = outview.map_to(inaxes, strict=False, order=order)
+  assert -1 not in order, "Can't map %s to %s"%(outview.axes, inaxes)
 
   # Break the input view up into memory-friendly chunks
-  loop = list(inview.loop_mem(preserve=preserve))
-  for i, inv in enumerate(loop):
+  # (clipped to the selected region, so the chunks have a 1:1 correspondence to
+  #  the slices into the accumulation array)
+  loop = list(View([DummyAxis(n, name="dim%d"%k) for k, n in enumerate(inview.shape)]).loop_mem(preserve=preserve))
+  for i, posv in enumerate(loop):
+    inv = View(inview.axes, [ind[pos] for ind, pos in zip(inview.integer_indices, posv.integer_indices)])
     # Get same view, but in output space (drop the reduced axes)
-    outv = inv.map_to(outview.axes)
+    outsl = tuple(posv.slices[o] for o in order)
 #    print '??', repr(str(inv))
     subpbar = pbar.part(i,len(loop))
     data = []
@@ -449,7 +451,7 @@ def loopover (vars, outview, inaxes=None, preserve=None, pbar=None):
         data.append(inv.get(v, pbar=vpbar))
       except StopIteration:
         raise Exception ("Stray StopIteration signal caught.  Unable to retrieve the data.")
-    yield outv.slices, data
+    yield outsl, data
 # }}}
 
 # Partial sum along an axis
-- 
2.43.0


From 886d4e455df21070a3ef4ed55d6a484698633f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:16 +0000
Subject: [PATCH 83/83] fix: units of a variable were not saved unless also an
 attribute

---
 pygeode/formats/cfmeta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index a7151b8..f894d43 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -290,9 +290,12 @@ def encode_cf (dataset):
   # Apply these new axes to the variables
   for i,oldvar in enumerate(list(varlist)):
     name = oldvar.name
+    atts = oldvar.atts.copy()
+    # The units of a variable may only be known from the variable itself
+    if oldvar.units != '': atts.setdefault('units', oldvar.units)
     try:
       #TODO: use Var.replace_axes instead?
-      varlist[i] = var_newaxes(oldvar, [axisdict.get(a.name,a) for a in oldvar.axes], atts=oldvar.atts, plotatts=oldvar.plotatts)
+      varlist[i] = var_newaxes(oldvar, [axisdict.get(a.name,a) for a in oldvar.axes], atts=atts, plotatts=oldvar.plotatts)
     except KeyError:
       print('??', a.name, axisdict)
       raise
-- 
2.43.0

