From f7ecfd5057158a635f2f9092c4ecb7f00191f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 01/25] fix: OptimumFilter.update_signal leaves mixed state
 when the new signal cannot be loaded

---
 qetpy/core/_fitting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..20fe0cd 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -334,8 +334,13 @@ class OptimumFilter(object):
 
         """
 
-        self.v = fft(signal, axis=-1)/self.nbins/self.df
-        self.signalfilt = self.phi * self.v / self.norm
+        # compute everything that can fail before changing any state, so
+        # that a signal that cannot be loaded leaves the filter unchanged
+        v = fft(signal, axis=-1)/self.nbins/self.df
+        signalfilt = self.phi * v / self.norm
+
+        self.v = v
+        self.signalfilt = signalfilt
 
         self.chi0 = None
         self.chit_withdelay = None
-- 
2.43.0


From 26f52b79a3645611ab8ce31043a04fbb632cbeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 02/25] fix: DIDV.processtraces shifts dt0 by another half
 period on every call

With add180phase the half period was added to the starting offset each
time the traces were processed, so processing twice (or again before a
fit) moved the time axis and changed the fit.
---
 qetpy/core/didv/_base_didv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..d5f509b 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -476,6 +476,11 @@ class _BaseDIDV(object):
         self._add180phase = add180phase
         self._dt0 = dt0
 
+        # add half a period of the square wave frequency to the
+        # initial offset if add180phase is True
+        if self._add180phase:
+            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
+
         self._freq = None
         self._time = None
         self._ntraces = None
@@ -948,11 +953,6 @@ class _BaseDIDV(object):
         nbinsraw = len(self._rawtraces[0])
         bins = np.arange(0, nbinsraw)
 
-        # add half a period of the square wave frequency to the
-        # initial offset if add180phase is True
-        if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
-
         self._time = bins*dt - self._dt0
 
         # figure out how many didv periods are in the trace, including
-- 
2.43.0


From e1cd7907888192498ee157154f2bb717753a6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 03/25] fix: DIDV.processtraces leaves the object half
 processed when it fails

If processing failed after the mean trace was stored (e.g. memory ran
out), a later dofit skipped the processing and used missing or
mismatched arrays. Compute everything first, then store the results.
---
 qetpy/core/didv/_base_didv.py | 57 ++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index d5f509b..07d5f5e 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -953,7 +953,7 @@ class _BaseDIDV(object):
         nbinsraw = len(self._rawtraces[0])
         bins = np.arange(0, nbinsraw)
 
-        self._time = bins*dt - self._dt0
+        time = bins*dt - self._dt0
 
         # figure out how many didv periods are in the trace, including
         # the time offset
@@ -967,9 +967,9 @@ class _BaseDIDV(object):
 
         # ignore the tail of the trace after the last period,
         # as this tail just adds artifacts to the FFTs
-        self._time = self._time[good_inds]
-        self._traces = self._rawtraces[:,good_inds] / (self._tracegain)
-        nbins = len(self._traces[0])
+        time = time[good_inds]
+        traces = self._rawtraces[:,good_inds] / (self._tracegain)
+        nbins = len(traces[0])
 
         # need these x-values to be properly scaled for
         # maximum likelihood slope fitting
@@ -989,18 +989,18 @@ class _BaseDIDV(object):
             flatindstemp.append(range(flatindlow, flatindhigh))
         flatinds = np.array(flatindstemp).flatten()
 
-        self._flatinds = flatinds[np.logical_and(
+        flatinds = flatinds[np.logical_and(
             flatinds > 0, flatinds < nbins,
         )]
 
         #for storing results
         didvs = list()
 
-        for trace in self._traces:
+        for trace in traces:
             # deconvolve the trace from the square wave to get the
             # dI/dV in frequency domain
             didvi = _BaseDIDV._deconvolvedidv(
-                self._time,
+                time,
                 trace,
                 self._rsh,
                 self._sgamp,
@@ -1015,16 +1015,16 @@ class _BaseDIDV(object):
         # get rid of any NaNs, as these will break the fit 
         cut = np.logical_not(np.isnan(didvs).any(axis=1))
 
-        self._traces = self._traces[cut]
+        traces = traces[cut]
         didvs = didvs[cut]
 
-        means=np.mean(self._traces, axis=1)
+        means=np.mean(traces, axis=1)
 
-        #store results
-        self._tmean = np.mean(self._traces, axis=0)
-        self._freq, self._zeroinds = _BaseDIDV._deconvolvedidv(
-            self._time,
-            self._tmean,
+        # mean trace and frequencies
+        tmean = np.mean(traces, axis=0)
+        freq, zeroinds = _BaseDIDV._deconvolvedidv(
+            time,
+            tmean,
             self._rsh,
             self._sgamp,
             self._sgfreq,
@@ -1032,15 +1032,30 @@ class _BaseDIDV(object):
         )[::2]
 
         #get number of traces 
-        self._ntraces = len(self._traces)
+        ntraces = len(traces)
 
         # divide by sqrt(N) for standard deviation of mean
-        self._didvstd = stdcomplex(didvs)/np.sqrt(self._ntraces)
-        self._didvstd[self._zeroinds] = (1.0+1.0j)*1.0e20
-        self._didvmean = np.mean(didvs, axis=0)
-
-        self._offset = np.mean(means)
-        self._offset_err = np.std(means)/np.sqrt(self._ntraces)
+        didvstd = stdcomplex(didvs)/np.sqrt(ntraces)
+        didvstd[zeroinds] = (1.0+1.0j)*1.0e20
+        didvmean = np.mean(didvs, axis=0)
+
+        offset = np.mean(means)
+        offset_err = np.std(means)/np.sqrt(ntraces)
+
+        # store the results together, so that a failure above does not
+        # leave the object partially processed (`dofit` relies on
+        # `_tmean` being set only after a successful processing)
+        self._time = time
+        self._traces = traces
+        self._flatinds = flatinds
+        self._freq = freq
+        self._zeroinds = zeroinds
+        self._ntraces = ntraces
+        self._didvstd = didvstd
+        self._didvmean = didvmean
+        self._offset = offset
+        self._offset_err = offset_err
+        self._tmean = tmean
 
 
     def fitresult(self, poles):
-- 
2.43.0


From b5a0e929029285cf0e74e2429c6a4f6c4e026666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 04/25] fix: IBIS.analyze leaves mixed results when a
 re-analysis fails

Results were stored one by one (and r0/ptes filled in place), so a
failing second analysis, e.g. an offset without its error, left values
of two different analyses, and arrays handed out after the first
analysis were overwritten by the second.
---
 qetpy/core/_ibis.py | 113 ++++++++++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 45 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..f9220bc 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -611,24 +611,22 @@ class IBIS(object):
             ibias_off = xoff
             ibias_off_err = xoff_err
 
-        self.slope_n = slope_n
-        self.slope_sc = slope_sc
-        self.int_n = int_n
-        self.int_sc = int_sc
-
-        self.ites = self.dites - ioff
-        self.ites_err = (self.dites_err**2.0 + ioff_err**2.0)**0.5
-        self.ioff = ioff[..., 0]
-        self.ioff_err = ioff_err[..., 0]
-        self.rfit = rfit[..., 0]
-        self.rfit_err = rfit_err[..., 0]
-
-        self.ibias_true = self.ibias - ibias_off
-        self.ibias_true_err = (self.ibias_err**2.0 + ibias_off_err**2.0)**0.5
-        self.ibias_off = ibias_off[..., 0]
-        self.ibias_off_err = ibias_off_err[..., 0]
-        self.rp = rp[..., 0]
-        self.rp_err = rp_err[..., 0]
+        ites = self.dites - ioff
+        ites_err = (self.dites_err**2.0 + ioff_err**2.0)**0.5
+        ioff = ioff[..., 0]
+        ioff_err = ioff_err[..., 0]
+
+        ibias_true = self.ibias - ibias_off
+        ibias_true_err = (self.ibias_err**2.0 + ibias_off_err**2.0)**0.5
+        ibias_off = ibias_off[..., 0]
+        ibias_off_err = ibias_off_err[..., 0]
+        rp = rp[..., 0]
+        rp_err = rp_err[..., 0]
+
+        r0 = np.zeros_like(self.dites)
+        r0_err = np.zeros_like(self.dites)
+        ptes = np.zeros_like(self.dites)
+        ptes_err = np.zeros_like(self.dites)
 
         # Propagate fit errors to paramters
         for t in range(ntemps):
@@ -636,59 +634,84 @@ class IBIS(object):
                 for ii in range(self.dites.shape[-1]):
                     cov = np.zeros((6, 6))
                     cov[0,0] = self.ibias_err[t, ch, ii]**2
-                    cov[1,1] = self.ibias_off_err[t, ch]**2
+                    cov[1,1] = ibias_off_err[t, ch]**2
                     cov[2,2] = self.dites_err[t,ch, ii]**2
-                    cov[3,3] = self.ioff_err[t, ch]**2
+                    cov[3,3] = ioff_err[t, ch]**2
                     cov[4,4] = self.rsh_err**2
-                    cov[5,5] = self.rp_err[t, ch]**2
-                    self.r0[t, ch, ii] = IBIS._rtes(
+                    cov[5,5] = rp_err[t, ch]**2
+                    r0[t, ch, ii] = IBIS._rtes(
                         self.ibias[t, ch, ii],
-                        self.ibias_off[t, ch],
+                        ibias_off[t, ch],
                         self.rsh,
                         self.dites[t, ch, ii],
-                        self.ioff[t, ch],
-                        self.rp[t, ch],
+                        ioff[t, ch],
+                        rp[t, ch],
                     )
-                    self.r0_err[t, ch, ii] = IBIS._rtes_err(
+                    r0_err[t, ch, ii] = IBIS._rtes_err(
                         self.ibias[t, ch, ii],
-                        self.ibias_off[t, ch],
+                        ibias_off[t, ch],
                         self.rsh,
                         self.dites[t, ch, ii],
-                        self.ioff[t, ch],
-                        self.rp[t, ch],
+                        ioff[t, ch],
+                        rp[t, ch],
                         cov,
                     )
-                    self.ptes[t, ch, ii] = IBIS._ptes(
+                    ptes[t, ch, ii] = IBIS._ptes(
                         self.ibias[t, ch, ii],
-                        self.ibias_off[t, ch],
+                        ibias_off[t, ch],
                         self.rsh,
                         self.dites[t, ch, ii],
-                        self.ioff[t, ch],
-                        self.rp[t, ch],
+                        ioff[t, ch],
+                        rp[t, ch],
                     )
-                    self.ptes_err[t, ch, ii] = IBIS._ptes_err(
+                    ptes_err[t, ch, ii] = IBIS._ptes_err(
                         self.ibias[t, ch, ii],
-                        self.ibias_off[t, ch],
+                        ibias_off[t, ch],
                         self.rsh,
                         self.dites[t, ch, ii],
-                        self.ioff[t, ch],
-                        self.rp[t, ch],
+                        ioff[t, ch],
+                        rp[t, ch],
                         cov,
                     )
 
-        rnorm = rfit - self.rsh - self.rp[..., np.newaxis]
-        rnorm_err = (rfit_err**2 + self.rp_err[..., np.newaxis]**2)**0.5
-        self.rnorm = rnorm[...,0]
-        self.rnorm_err = rnorm_err[...,0]
-        self.vb = self.ibias_true * self.rsh
-        self.vb_err = np.sqrt(
+        rnorm = rfit - self.rsh - rp[..., np.newaxis]
+        rnorm_err = (rfit_err**2 + rp_err[..., np.newaxis]**2)**0.5
+        vb = ibias_true * self.rsh
+        vb_err = np.sqrt(
             (
-                self.ibias_true * self.rsh_err
+                ibias_true * self.rsh_err
             )**2 + (
-                self.rsh * self.ibias_true_err
+                self.rsh * ibias_true_err
             )**2
         )
 
+        # everything has been calculated, store the results together so
+        # that a failed (re-)analysis leaves the previous results intact
+        self.slope_n = slope_n
+        self.slope_sc = slope_sc
+        self.int_n = int_n
+        self.int_sc = int_sc
+        self.ites = ites
+        self.ites_err = ites_err
+        self.ioff = ioff
+        self.ioff_err = ioff_err
+        self.rfit = rfit[..., 0]
+        self.rfit_err = rfit_err[..., 0]
+        self.ibias_true = ibias_true
+        self.ibias_true_err = ibias_true_err
+        self.ibias_off = ibias_off
+        self.ibias_off_err = ibias_off_err
+        self.rp = rp
+        self.rp_err = rp_err
+        self.r0 = r0
+        self.r0_err = r0_err
+        self.ptes = ptes
+        self.ptes_err = ptes_err
+        self.rnorm = rnorm[..., 0]
+        self.rnorm_err = rnorm_err[..., 0]
+        self.vb = vb
+        self.vb_err = vb_err
+
     def plot_iv(self, temps="all", chans="all", showfit=True, lgcsave=False,
                 savepath="", savename=""):
         """
-- 
2.43.0


From 6cc4d5b273c918bb77de30605fe4ec929f0b6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 05/25] fix: Noise.plot_reim_psd ignores the request to save
 the figure

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..163b411 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -436,7 +436,7 @@ class Noise(object):
 
         """
         
-        utils.plot_reim_psd(self, lgcsave = False, savepath = None)
+        utils.plot_reim_psd(self, lgcsave, savepath)
         
     def plot_corrcoeff(self, lgcsmooth = True, nwindow = 7,lgcsave = False, savepath = None):
         """
-- 
2.43.0


From c55eadc358d6739826eb4d2d9d3b9cf1114599e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 06/25] fix: Noise.calculate_uncorr_noise uses the csd of the
 old traces after remove_trace_slope

---
 qetpy/core/_noise.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 163b411..bd12108 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -280,6 +280,13 @@ class Noise(object):
                 tracenoslope[itrace][ichan] = self.traces[itrace][ichan] - s*self.time
         
         self.traces = tracenoslope
+        # a previously calculated csd belongs to the old traces, it must not
+        # be reused by `calculate_uncorr_noise`
+        self.csd = None
+        self.real_csd = None
+        self.imag_csd = None
+        self.real_csd_std = None
+        self.imag_csd_std = None
         
     def calculate_psd(self): 
         """
-- 
2.43.0


From 848a007698a977035067ff840bc8752b5054e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 07/25] fix: gen_noise overwrites the zero-frequency entry of
 the caller's psd

---
 qetpy/core/_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index bd12108..8191a56 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,7 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        psd = np.array(psd)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From 8e73cfe65a790fe295f4e8e18a3f5d8198929da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 08/25] fix: Noise.save destroys the existing file when writing
 the new one fails

---
 qetpy/core/_noise.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 8191a56..b58b015 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -1,3 +1,4 @@
+import os
 import numpy as np
 from scipy.signal import savgol_filter, csd
 from math import ceil
@@ -528,6 +529,18 @@ class Noise(object):
         if path[-1] != '/':
             path += '/'
             
-        with open(path+self.name.replace(" ", "_")+'.pkl','wb') as savefile:
-            pickle.dump(self, savefile, pickle.HIGHEST_PROTOCOL)
-            
+        filename = path+self.name.replace(" ", "_")+'.pkl'
+
+        # write to a temporary file first and move it into place once it is
+        # complete, so that a failed save never destroys an existing file
+        tempname = filename + '.tmp'
+        try:
+            with open(tempname,'wb') as savefile:
+                pickle.dump(self, savefile, pickle.HIGHEST_PROTOCOL)
+                savefile.flush()
+                os.fsync(savefile.fileno())
+            os.replace(tempname, filename)
+        except BaseException:
+            if os.path.exists(tempname):
+                os.remove(tempname)
+            raise
-- 
2.43.0


From 0f202625e2452015627a3630fe3dec08f9d5d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 09/25] fix: of_nsmb overwrites negative entries of the
 caller's index window

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..107241b 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -567,7 +567,7 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
 
     """
 
-    indwindow = indwindow_nsmb[0]
+    indwindow = np.copy(indwindow_nsmb[0])
 
     # === Input Dimensions ===
     pulset = np.expand_dims(pulset,1)
-- 
2.43.0


From 87d4a3f45420453f4ca53527db77f4147770e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 10/25] fix: pileupcut subtracts the means from the caller's
 traces in place

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..2032c88 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From 5af8064ab193d9d42627027fd2e94357bd4911d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 11/25] fix: slopecut never rejects a trace and does not
 symmetrize positive slopes

The returned mask was initialised with all traces accepted, and the
sign flip announced for mostly positive slopes was missing.
---
 qetpy/cut/_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 2032c88..cf80ef2 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueErrror("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From 2849b94984dd7b4cbcf592b3655736b325113698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 12/25] fix: undefined names in get_muon_cut and in the outlier
 algorithm checks

---
 qetpy/cut/_cut.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index cf80ef2..9140390 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.zeros(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < traces.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From 2692a480e7793e54e7df886b3af96bb01a538e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 13/25] fix: compare_noise looks up a channel map that does not
 exist

---
 qetpy/plotting/_noise_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 6861f85..3bbd908 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -474,8 +474,8 @@ def compare_noise(arr, channels, lgcdecorrelatednoise=False, lgcsave=False, save
                 plt.ylabel(r'Input Referenced Noise [A/$\sqrt{\mathrm{Hz}}$]')
                 plt.grid(which = 'both')
                 for ii in range(len(arr)):
-                    if chan in arr[ii].chann_dict:
-                        chan_index = arr[ii].chann_dict[chan] #check that the channel is in the noise object before plotting
+                    if chan in arr[ii].chandict:
+                        chan_index = arr[ii].chandict[chan] #check that the channel is in the noise object before plotting
                         #plot the de correlated noise if desired
                         if lgcdecorrelatednoise:
                             #check that de correlated noise has been calculated
-- 
2.43.0


From 514780004aece09a96f653b67ab6bd15d03e68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 14/25] fix: IV.calc_iv leaves partial results when it fails

---
 qetpy/core/_iv.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..78a53fd 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -281,19 +281,27 @@ class IV(object):
         rnorm = rfit - self.rload
         rnorm_err = (rfit_err**2 + self.rload_err**2)**0.5
 
-        self.ites = self.dites - ioff
-        self.ites_err = (self.dites_err**2.0 + ioff_err**2.0)**0.5
-
-        self.r0 = self.vb/self.ites - self.rload
-        self.r0_err = ((1/self.ites)**2*self.vb_err**2 + \
-                       (self.vb/self.ites**2)**2*self.ites_err**2 + \
-                       self.rload_err**2)**0.5
-
-        self.ptes = self.ites**2 * self.r0
-        self.ptes_err = ((self.vb-2*self.ites*self.rload)**2.0 * self.ites_err**2.0 + \
-                         (self.ites)**2.0 * self.vb_err**2.0 + \
-                         (self.ites**2.0)**2.0 * self.rload_err**2.0)**0.5
-        
+        ites = self.dites - ioff
+        ites_err = (self.dites_err**2.0 + ioff_err**2.0)**0.5
+
+        r0 = self.vb/ites - self.rload
+        r0_err = ((1/ites)**2*self.vb_err**2 + \
+                  (self.vb/ites**2)**2*ites_err**2 + \
+                  self.rload_err**2)**0.5
+
+        ptes = ites**2 * r0
+        ptes_err = ((self.vb-2*ites*self.rload)**2.0 * ites_err**2.0 + \
+                    (ites)**2.0 * self.vb_err**2.0 + \
+                    (ites**2.0)**2.0 * self.rload_err**2.0)**0.5
+
+        # everything has been calculated, store the results together so
+        # that a failed calculation does not leave partial results
+        self.ites = ites
+        self.ites_err = ites_err
+        self.r0 = r0
+        self.r0_err = r0_err
+        self.ptes = ptes
+        self.ptes_err = ptes_err
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-- 
2.43.0


From a760ccbfcecd252f4ac9688cc8172d402e6ea2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 15/25] fix: an interrupted csd calculation no longer leaves a
 csd that calculate_uncorr_noise trusts

calculate_csd assigned csd before the arrays that go with it, and
remove_trace_slope replaced the traces before dropping the csd calculated
from the old ones. An interrupt in between made later calculations of the
decorrelated noise use a stale csd or fail.
---
 qetpy/core/_noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index b58b015..58f1e53 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -281,7 +281,6 @@ class Noise(object):
                 s = slope(self.time, self.traces[itrace][ichan])
                 tracenoslope[itrace][ichan] = self.traces[itrace][ichan] - s*self.time
         
-        self.traces = tracenoslope
         # a previously calculated csd belongs to the old traces, it must not
         # be reused by `calculate_uncorr_noise`
         self.csd = None
@@ -289,6 +288,7 @@ class Noise(object):
         self.imag_csd = None
         self.real_csd_std = None
         self.imag_csd_std = None
+        self.traces = tracenoslope
         
     def calculate_psd(self): 
         """
@@ -408,11 +408,13 @@ class Noise(object):
             imag_csd_std[irow][jcolumn] = fill_negatives(np.std(np.imag(trace_csd[irow][jcolumn]),axis = 0))
             
             
-        self.csd = csd_mean
+        # `calculate_uncorr_noise` relies on csd being set only when all of
+        # these have been, so it has to be the last one
         self.real_csd = real_csd_mean
         self.imag_csd = imag_csd_mean
         self.real_csd_std = real_csd_std
         self.imag_csd_std = imag_csd_std
+        self.csd = csd_mean
         
     def plot_psd(self, lgcoverlay = True, lgcsave = False, savepath = None):
         """
-- 
2.43.0


From 75707df990cdf4a1445c39505b395ef56f4a7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 16/25] fix: plot_noise_sim changes the frequencies of the
 caller's noise model

---
 qetpy/plotting/_noise_plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 3bbd908..99aec81 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from math import ceil
 from scipy.signal import savgol_filter
@@ -545,6 +546,9 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
 
     """
 
+    # the helper functions set the frequencies, keep the user's object as it is
+    noise_sim = copy.copy(noise_sim)
+
     if istype is 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
-- 
2.43.0


From 4825d768a3c167a5cff6fe8aae34a2c3ae310e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 17/25] fix: IV and IBIS plots raise after saving the figure

---
 qetpy/core/_ibis.py | 9 +++------
 qetpy/core/_iv.py   | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index f9220bc..95c5692 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -740,7 +740,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_iv(
+        return utils._plot_iv(
             self,
             temps=temps,
             chans=chans,
@@ -749,7 +749,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -777,7 +776,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_rv(
+        return utils._plot_rv(
             self,
             temps=temps,
             chans=chans,
@@ -785,7 +784,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -812,7 +810,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_pv(
+        return utils._plot_pv(
             self,
             temps=temps,
             chans=chans,
@@ -820,7 +818,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_all_curves(self, temps="all", chans="all", showfit=True,
                         lgcsave=False, savepath="", savename=""):
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 78a53fd..de86b88 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -331,9 +331,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
+        return utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -355,9 +354,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -379,9 +377,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_all_curves(self, temps="all", chans="all", showfit=True, lgcsave=False, savepath="", savename=""):
         """
-- 
2.43.0


From 8e8602877682f566bd0ac929e96bd20edbbc6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 18/25] fix: loadfromdidv compares the noise type by identity
 and never accepts 'normal'

---
 qetpy/sim/_sim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,8 +112,9 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
-        raise ValueError('Please specify rnormal.')
+    elif noisetype == "normal":
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -128,7 +129,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From ea7001a988eadb4c6395d74db5ea722be6b433f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 19/25] fix: plot_noise_sim compares the plot type by identity

---
 qetpy/plotting/_noise_plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 99aec81..27970a9 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -549,25 +549,25 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
     # the helper functions set the frequencies, keep the user's object as it is
     noise_sim = copy.copy(noise_sim)
 
-    if istype is 'current':
+    if istype == 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'current_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'power':
+    elif istype == 'power':
         fig, ax = _plot_tp_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'power_noise_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'sc':
+    elif istype == 'sc':
         fig, ax = _plot_sc_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}SC_noise_qetbias{qetbias*1e6:.3f}muA.png')
         else:
             return fig, ax 
-    elif istype is 'normal':
+    elif istype == 'normal':
         fig, ax = _plot_n_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}normal_noise_qetbias{qetbias*1e6:.3f}muA.png')
-- 
2.43.0


From a41b610b6cc0cccc961b571edacb2eb47ff03c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 20/25] fix: IV.rfit_err holds the resistance instead of its
 error

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index de86b88..0f3874f 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -305,7 +305,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 94fe5af7f1825ce1e63d8ea5d89bf438e0198ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 21/25] fix: IBIS and IV reject documented shapes of the data
 and of the resistance

---
 qetpy/core/_ibis.py | 10 +++++++---
 qetpy/core/_iv.py   |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 95c5692..04166eb 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones_like(self.dites)*rp_guess
+            self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 0f3874f..4ed0927 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 6b8ee1f7f35fa963cbc6acd6faae8de85fc20ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 22/25] fix: IBIS adds the variance of a fitted slope where its
 error belongs (rfit_err, rp_err)

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 04166eb..ba9c9d8 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From d4d83efa29737b8cb8ca04a6d060838097dd5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 23/25] fix: IV, IBIS and dIdV plots reject arrays of
 temperatures, channels or poles

---
 qetpy/core/didv/_plot_didv.py    |  6 +++---
 qetpy/plotting/_ibis_plotting.py | 12 ++++++------
 qetpy/plotting/_iv_plotting.py   | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/qetpy/core/didv/_plot_didv.py b/qetpy/core/didv/_plot_didv.py
index a7369e3..b34eba5 100644
--- a/qetpy/core/didv/_plot_didv.py
+++ b/qetpy/core/didv/_plot_didv.py
@@ -43,7 +43,7 @@ class _PlotDIDV(object):
     def _plot_time_domain(self, poles):
         """Helper function for plotting the fits in time domain."""
 
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -296,7 +296,7 @@ class _PlotDIDV(object):
     def _plot_freq_domain(self, function, poles):
         """Helper method for plotting data in frequency domain."""
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -521,7 +521,7 @@ class _PlotDIDV(object):
 
         """
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index 856cab3..dca9e3c 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -33,14 +33,14 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -114,14 +114,14 @@ def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", sav
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -186,14 +186,14 @@ def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", sa
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index 27ef5c7..a40e587 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -38,14 +38,14 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -137,14 +137,14 @@ def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -222,14 +222,14 @@ def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
-- 
2.43.0


From 2e1076f8ee18a3a5a727881570eb64e0ca44da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 24/25] fix: DIDVPriors applies the half period of add180phase
 twice in its starting values

---
 qetpy/core/didv/_didv_priors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..16ae919 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,8 +255,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
-            dt0=self._dt0,
+            dt0=self._dt0, # contains the half period of `add180phase` already
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
         )
-- 
2.43.0


From 144b09ab7b21516e4f7ed8e50e1d220d8b1f352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 25/25] fix: of_nsmb_con fails when the best delay is the first
 bin

---
 qetpy/core/_of_nsmb.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 107241b..e4f5a1c 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -970,11 +970,12 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     # such that tdelmin[0] is the template start time (in the middle of the trace)
     tdelmin = ((ind_tdel_New) - nt*(ind_tdel_New>nt/2))*dt
     bitcombfitFinal = np.squeeze(bitcombfitVec[:,ind_tdel_New])
-    timearray_chi2 = np.arange(nt)*dt 
-    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_tdel_New,
-                                                                       chi2new,
-                                                                       a_tsetnew[0,:],
-                                                                       timearray_chi2)
+    # the delays are circular: the neighbours of the first bin include the last
+    indinterp = int(np.squeeze(ind_tdel_New)) + np.arange(-1, 2)
+    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(1,
+                                                                       chi2new[indinterp%nt],
+                                                                       a_tsetnew[0,indinterp%nt],
+                                                                       indinterp*dt)
 
     tdelmin_interp = (time_chi2min_interp - nt*dt*(time_chi2min_interp>(nt*dt/2)))
     
-- 
2.43.0

