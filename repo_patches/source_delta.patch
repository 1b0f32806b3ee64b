From 954f1cbbc8fe9648e6c056e804f9b3787f7c114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 01/70] fix: deposition larger than a bed layer raises the bed
 level by the full deposit

---
 aeolis/bed.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..acaf2c2 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -254,8 +254,9 @@ def update(s, p):
     nl = p['nlayers']
     nf = p['nfractions']
 
-    # determine net erosion
-    pickup = s['pickup'].reshape((-1,nf))
+    # determine net erosion (copy, the pickup itself is not altered by
+    # the redistribution of mass over the layers)
+    pickup = s['pickup'].reshape((-1,nf)).copy()
 
     # determine total mass that should be exchanged between layers
     dm = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
@@ -263,6 +264,9 @@ def update(s, p):
     # get erosion and deposition cells
     ix_ero = dm[:,0] < 0.
     ix_dep = dm[:,0] > 0.
+
+    # determine bed level change from the total exchanged mass
+    dz = dm[:,0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
     
     # reshape mass matrix
     m = s['mass'].reshape((-1,nl,nf))
@@ -310,7 +314,6 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -436,17 +439,18 @@ def prevent_negative_mass(m, dm, pickup):
             # fill current layer with deposited sediment
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
-            # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            # remove deposited sediment from pickup (deposition is negative)
+            pickup[ix,:] += m[ix,i,:]
+
+        # recompute sediment exchange mass
+        dm[:,:] = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
         ix = (dm[:,:1] > mx).flatten()
         if np.any(ix):
             pickup[ix,:] = 0.
-
-        # recompute sediment exchange mass
-        dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
+            dm[ix,:] = 0.
 
     return m, dm, pickup
 
-- 
2.43.0


From e163fe57bce88f5232ed2575fca961cc822b527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 02/70] fix: couple neighbouring rows with their own
 coefficients in transport solvers

---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..cd7032a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -911,14 +911,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1282,14 +1282,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1616,12 +1616,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2025,12 +2025,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From 5ab77697dc81ea798e6db11e36620e706bca70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 03/70] fix: use the neighbour's velocity across a circular
 lateral boundary

---
 aeolis/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index cd7032a..29172eb 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -792,6 +792,11 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            # lateral neighbours across a circular boundary
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:]  = s['un'][-1,:,i]
+                un_min[-1,:]  = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1163,6 +1168,11 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            # lateral neighbours across a circular boundary
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:]  = s['un'][-1,:,i]
+                un_min[-1,:]  = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
-- 
2.43.0


From bc333c3f48b16b053c11a7bf4002fa952bf4e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 04/70] fix: no entrainment from an exposed non-erodible layer
 by the fluid threshold

---
 aeolis/threshold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index db8f688..b81df46 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -428,6 +428,7 @@ def non_erodible(s,p):
     # Hard method
     for i in range(nf):
         s['uth'][ix,i] = np.inf     
+        s['uthf'][ix,i] = np.inf
    
     
     return s    
-- 
2.43.0


From 57ac8c15db44428608ca21a694f43e06abd22860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 05/70] fix: initialize the fluid threshold from the threshold
 file

---
 aeolis/bed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index acaf2c2..5663b9d 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -114,6 +114,7 @@ def initialize(s, p):
     # initialize threshold
     if p['threshold_file'] is not None:
         s['uth'] = p['threshold_file'][:,:,np.newaxis].repeat(nf, axis=-1)
+        s['uthf'] = s['uth'].copy()
         
     return s
 
-- 
2.43.0


From d0c4e9c7e901b1c485973901171add12110c9eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 06/70] fix: cell sizes in s- and n-direction were interchanged
 for 2D grids

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From 5e1261f308890e9d1e3e94635ccfbd19548d1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 07/70] fix: rotate grid back if a time step is skipped

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 29172eb..7035c24 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -291,6 +291,7 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From 8daadbfdb33f578a5f010c70aa32332a9633bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 08/70] fix: advance time in absence of wind with the explicit
 scheme

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 7035c24..5de2784 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -627,6 +627,8 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, self.p['CFL'] / dtref)
                 else:
                     self.dt = np.minimum(self.dt, 1.)
+                    self.t += self.dt * self.p['accfac']
+                    self._count('time')
                     return False
            
         if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
-- 
2.43.0


From 27e88696e7bcba4a8b2c12dc93dab8a2a8a0331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 09/70] fix: limit time step by erosion as well as by
 deposition

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5de2784..a76fddf 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -631,9 +631,9 @@ class AeoLiS(IBmi):
                     self._count('time')
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev != 0.:
             
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
+            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
-- 
2.43.0


From 155cdf650d06659415d95a821cfea61434f3e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 10/70] fix: steady state solver with multiple grain size
 fractions

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a76fddf..801a2bc 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -741,7 +741,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] != None:
+            if p['grain_dist'] is not None:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From 6b6a6bb193d822a36a71640cf1e9163efc15130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 11/70] fix: initial transport weights for layered and
 spatially varying bed composition

---
 aeolis/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 801a2bc..369535c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -741,7 +741,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] is not None:
+            if p['grain_dist'].ndim == 1 and type(p['bedcomp_file']) != np.ndarray:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
@@ -1117,7 +1117,7 @@ class AeoLiS(IBmi):
         w_init, w_air, w_bed = aeolis.transport.compute_weights(s, p)
 
         if self.t == 0.:
-            if type(p['bedcomp_file']) == np.ndarray:
+            if type(p['bedcomp_file']) == np.ndarray or p['grain_dist'].ndim > 1:
                 w = w_init.copy()
             else:
                 # use initial guess for first time step
@@ -1487,6 +1487,8 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
+            if p['grain_dist'].ndim > 1 or type(p['bedcomp_file']) == np.ndarray:
+                return dict(w=w_init.copy())
             w = p['grain_dist'].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
@@ -1897,6 +1899,8 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
+            if p['grain_dist'].ndim > 1 or type(p['bedcomp_file']) == np.ndarray:
+                return dict(w=w_init.copy())
             w = p['grain_dist'].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From a96069b47c81c031e97c5c2895c371ef75605bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 12/70] fix: write and read restart files in binary format

---
 aeolis/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 369535c..4e57a6c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -93,6 +93,15 @@ class ModelState(dict):
     model state variable are ignored.
     """
 
+    def __new__(cls, *args, **kwargs):
+        """Create dictionary with set of mutable variables (also needed
+        to restore items from a restart file)
+        """
+        state = super(ModelState, cls).__new__(cls, *args, **kwargs)
+        state.ismutable = set()
+        return state
+
+
     def __init__(self, *args, **kwargs) -> None:
         """Initialize dictionary for model states"""
         self.ismutable = set()
@@ -2866,7 +2875,7 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
@@ -2887,7 +2896,7 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
                          'p':self.p,
                          's':self.s,
-- 
2.43.0


From 516fdfcd6c5174b0e490b93b1d0fc5e040246af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 13/70] fix: keep the last time step in restart files

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 4e57a6c..da72a66 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2879,6 +2879,7 @@ class AeoLiSRunner(AeoLiS):
                     state = pickle.load(fp)
 
                     self.t = state['t']
+                    self.dt = state.get('dt', self.dt)
                     self.p = state['p']
                     self.s = state['s']
                     self.l = state['l']
@@ -2898,6 +2899,7 @@ class AeoLiSRunner(AeoLiS):
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
         with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
+                         'dt':self.dt,
                          'p':self.p,
                          's':self.s,
                          'l':self.l,
-- 
2.43.0


From 4eca6d9a587208ca33f45972128ab264044b9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 14/70] fix: write configuration file with Python 3

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index cfbdcc8..4e41d54 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -152,7 +152,7 @@ def write_configfile(configfile, p=None):
     if p is None:
         p = DEFAULT_CONFIG.copy()
 
-    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.iterkeys()])
+    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.keys()])
         
     with open(configfile, 'w') as fp:
 
@@ -162,7 +162,7 @@ def write_configfile(configfile, p=None):
         fp.write('%s\n' % ('%' * 70))
         fp.write('\n')
         
-        for k, v in sorted(p.iteritems()):
+        for k, v in sorted(p.items()):
             if k.endswith('_file') and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
-- 
2.43.0


From 396cbb2b0a30185b1bf85fc5e5186875679b51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 15/70] fix: default output variables mass and pickup

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..d74ae45 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
-- 
2.43.0


From c0635fa6f59ffd3454c33a519ee382ce5e6ba7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 16/70] fix: write configuration parameters without loss of
 precision

---
 aeolis/inout.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 4e41d54..b99956e 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -169,7 +169,33 @@ def write_configfile(configfile, p=None):
                 np.savetxt(fname, v)
                 fp.write(fmt % (k, fname))
             else:
-                fp.write(fmt % (k, print_value(v, fill='')))
+                fp.write(fmt % (k, format_value(v)))
+
+
+def format_value(val):
+    '''Construct the configuration file representation of a value
+
+    Floats are written without loss of precision and without exponent,
+    such that the value is restored by :func:`parse_value`.
+
+    Parameters
+    ----------
+    val : misc
+        Value to be represented as string
+
+    Returns
+    -------
+    str
+        String representation of value
+
+    '''
+
+    if isiterable(val):
+        return ' '.join([format_value(x) for x in val])
+    elif isinstance(val, float) and np.isfinite(val):
+        return np.format_float_positional(val, trim='0')
+    else:
+        return print_value(val, fill='')
 
 
 def check_configuration(p):
-- 
2.43.0


From c7578aa74076345969eb4860bf4fe405787c7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 17/70] fix: support underscores in names of variables and
 parameters

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index da72a66..550aef5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2652,8 +2652,8 @@ class AeoLiSRunner(AeoLiS):
 
         self.clear = clear
 
-        if '_' in var:
-            var, stat = var.split('_')
+        if '_' in var and var not in self.s and var not in self.p:
+            var, stat = var.rsplit('_', 1)
             if var in self.o:
                 return self.get_statistic(var, stat)
 
@@ -2729,8 +2729,8 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
+            if '_' in var and var not in self.s:
+                var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
                 warnings.warn('The use of "%s" is deprecated, use '
-- 
2.43.0


From 0ed0fa6ee6006f543d759a2da7dba55d86e97d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 18/70] fix: update runner without preceding request for output

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 550aef5..b54a1b9 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2425,6 +2425,7 @@ class AeoLiSRunner(AeoLiS):
 
         self.n = 0 # time step counter
         self.o = {} # output stats
+        self.clear = False # clear output stats
 
         self.changed = False
         self.cwd = None
-- 
2.43.0


From 4a0ef936a6b34dd01c0cabe01d4b6cc972fb8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 19/70] fix: default configuration of the model runner

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index b54a1b9..cb1e59d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2437,13 +2437,13 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG
+            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
                                ny         = 0,
                                xgrid_file = np.arange(0.,100.,1.),
-                               bed_file   = np.linspace(-5.,5.,100.),
+                               bed_file   = np.linspace(-5.,5.,100),
                                wind_file  = np.asarray([[0.,10.,0.],
                                                         [3601.,10.,0.]])))
         else:
-- 
2.43.0


From cbe5692b634ff38bc123312a3429c90732ea668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 20/70] fix: empty list of external variables in configuration
 file

---
 aeolis/inout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index b99956e..6b83b1e 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -102,6 +102,10 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         p['grain_dist'] = makeiterable(p['grain_dist'])
         p['grain_size'] = makeiterable(p['grain_size'])
 
+    # ensure list of external variables, also if empty
+    if 'external_vars' in p:
+        p['external_vars'] = makeiterable(p['external_vars'])
+
     # set default output file, if not given
     if 'output_file' in p and not p['output_file']:
         p['output_file'] = '%s.nc' % os.path.splitext(configfile)[0]
-- 
2.43.0


From 467a954c098be01cdc219db198ae6c02cf6770ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 21/70] fix: removal of negative concentrations if they
 outweigh the positive ones

---
 aeolis/model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index cb1e59d..a2611b8 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1000,7 +1000,10 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -1396,7 +1399,7 @@ class AeoLiS(IBmi):
                                               **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
 
@@ -1779,7 +1782,10 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2198,7 +2204,10 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 8ddd5caab95cb23a120824f2bafa820664b99bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 22/70] fix: no lateral loss of sediment from a one-dimensional
 grid with circular lateral boundaries

---
 aeolis/model.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a2611b8..a9f0e64 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -939,9 +939,11 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # a cell is its own lateral neighbour across the circular
+                # lateral boundary of a one-dimensional grid
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (Amx + A0 + Apx).flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1318,9 +1320,11 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # a cell is its own lateral neighbour across the circular
+                # lateral boundary of a one-dimensional grid
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (Amx + A0 + Apx).flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1654,8 +1658,10 @@ class AeoLiS(IBmi):
             else:
                 j = p['nx']+1
                 ny = 0
+                # a cell is its own lateral neighbour across the circular
+                # lateral boundary of a one-dimensional grid
                 A = scipy.sparse.diags((Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (Amx + A0 + Apx).flatten(),
                                         Ap1.flatten()[:-1]),
                                        (-1, 0, 1), format='csr')
 
@@ -2066,8 +2072,10 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
+                # a cell is its own lateral neighbour across the circular
+                # lateral boundary of a one-dimensional grid
                 A = scipy.sparse.diags((Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (Amx + A0 + Apx).flatten(),
                                         Ap1.flatten()[:-1]),
                                        (-1,0,1), format='csr')
 
-- 
2.43.0


From a3583374083ad75536f3c3abcc8f04ce3f237b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 23/70] fix: flux through the circular lateral boundary in the
 steady state solver of Pieter

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index a9f0e64..8c8a98c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1692,6 +1692,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From 53cb00fa17eb9cbc1e201e393b41115028c72124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 24/70] fix: extrapolate bed level and roughness over the whole
 computational grid of the shear model

The padding did not reach the border of the computational grid if the buffer
is wider than the input grid, such that the bed dropped to zero (and the
roughness length to zero, resulting in NaN) somewhere in the buffer.
---
 aeolis/shear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..a0d6ffd 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -194,7 +194,7 @@ class WindShear:
         # gc['z'] = self.interpolate(xi_buff, yi_buff, zi_buff, gc['x'], gc['y'], 0)
         
         # Interpolate bed levels and shear to the computational grid
-        gc['z'] = self.interpolate(gi['x'], gi['y'], gi['z'], gc['x'], gc['y'], 0)
+        gc['z'] = self.interpolate(gi['x'], gi['y'], gi['z'], gc['x'], gc['y'], None)
         
         # Project the taus0 and taun0 on the computational grid
         gc['taux'] = np.full(np.shape(gc['x']), taus0)
@@ -559,7 +559,7 @@ class WindShear:
  
         # interpolate roughness length z0 to computational grid
         if np.size(z0)>1:
-            z0new = self.interpolate(gi['x'], gi['y'], z0, gc['x'], gc['y'], 0)
+            z0new = self.interpolate(gi['x'], gi['y'], z0, gc['x'], gc['y'], None)
         else:
             z0new = z0
 
-- 
2.43.0


From a2c01f706c41d631959ee6636b32f83643fab533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 25/70] fix: wave numbers of the Fourier modes in the shear
 perturbation

The modes were paired with the wave numbers of their neighbours, such that the
mean bed level was treated as a wave: a flat bed perturbed the wind depending
on its elevation.
---
 aeolis/shear.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index a0d6ffd..26dbb41 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -544,10 +544,16 @@ class WindShear:
             return
                                 
         ny, nx = gc['z'].shape
-        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
-                             2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
+        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx, gc['dx']),
+                             2. * np.pi * np.fft.fftfreq(ny, gc['dy']))
+        
+        # modes without variation in wind direction (including the mean
+        # bed level) do not perturb the shear, but are singular below
+        ix0 = kx == 0.
+        kx[ix0] = 2. * np.pi / (nx * gc['dx'])
         
         hs = np.fft.fft2(gc['z'])
+        hs[ix0] = 0.
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
         
         z0 = self.z0            # roughness length which takes into account saltation
@@ -669,7 +675,8 @@ class WindShear:
             n1 = np.min(nfilter)
             n2 = np.max(nfilter)
             px = 2 * np.pi / self.cgrid['dx'] / np.abs(kx)
-            py = 2 * np.pi / self.cgrid['dy'] / np.abs(ky)
+            with np.errstate(divide='ignore'):
+                py = 2 * np.pi / self.cgrid['dy'] / np.abs(ky)
             s1 =  n1 / np.log(1. / .01 - 1.)
             s2 = -n2 / np.log(1. / .99 - 1.)
             f1 = 1. / (1. + np.exp(-(px + n1 - n2) / s1))
-- 
2.43.0


From af04cce32cb36ee8c257380d48530b586681ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 26/70] fix: reduce the shear velocity below the separation
 surface in 1D

Only the components of the shear stress were reduced, such that the shear
velocity that drives the transport was not.
---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..894412b 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -248,6 +248,7 @@ def shear(s,p):
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
+            s['tau'] = np.hypot(s['taus'], s['taun'])
             s = stress_velocity(s, p)
 
     # if p['process_nelayer']:
-- 
2.43.0


From a022e53a52903e453876cce2bf7857adf5d47a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 27/70] fix: separation surface over a bed below datum

The separation surface was initialized at zero elevation rather than at the
bed, such that a bed below datum was sheltered from the wind entirely.
---
 aeolis/shear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 26dbb41..356c0aa 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -396,8 +396,8 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
-        zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
+        zsep =  z.copy()                                                           # total separation bubble      
+        zsep_new =  z.copy()                                                        # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
 
@@ -473,7 +473,7 @@ class WindShear:
             
             for filter_iter in range(sep_filter_iterations):
                 
-                zsep_new = np.zeros(zsep.shape) 
+                zsep_new = z.copy() 
                 
                 Cut = 1.5
                 dk = 2.0 * np.pi / (np.max(x))
-- 
2.43.0


From 01962405021f3cd49f7660ef83ecfa0b1f665c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 28/70] fix: no negative time step after a skipped period

The maximum bed level change limited the time step based on the negative time
step that is stored if time is fast-forwarded.
---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 8c8a98c..fcfb0e1 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -640,7 +640,7 @@ class AeoLiS(IBmi):
                     self._count('time')
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev > 0.:
             
             dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
-- 
2.43.0


From 9b5ba24d3f0d31f7e6fe87218ca1a6efd4946f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 29/70] fix: no bed level change in absence of wind

The bed level change of the last step with wind was kept, such that the time
step limited by the maximum bed level change shrank to zero in calms (and
vegetation responded to deposition that did not take place).
---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index fcfb0e1..a4bd9d4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -337,8 +337,8 @@ class AeoLiS(IBmi):
             # reset original bed in marine zone (wet)
             self.s = aeolis.bed.wet_bed_reset(self.s, self.p)
 
-            # calculate average bed level change over time
-            self.s = aeolis.bed.average_change(self.l, self.s, self.p)
+        # calculate average bed level change over time
+        self.s = aeolis.bed.average_change(self.l, self.s, self.p)
 
         # compute dune erosion
         if self.p['process_dune_erosion']:
-- 
2.43.0


From efc612617b5d2de8b4aa9ef42378440c7b94c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 30/70] fix: avalanching without a non-erodible layer and below
 it

Without a non-erodible layer its elevation is not a number, such that no
avalanching took place at all. Below a non-erodible layer the sediment was
moved upslope.
---
 aeolis/avalanching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 7d7cd3e..94ffe46 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -135,6 +135,8 @@ def avalanche(s, p):
                 # Calculation of flux
 
                 grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
+                grad_h_nonerod[np.isnan(s['zne'])] = np.inf # no non-erodible layer
+                grad_h_nonerod = np.maximum(grad_h_nonerod, 0.)
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
-- 
2.43.0


From 77cc82b73915de3eb3e50d58f757a08496f62222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 31/70] fix: total water level without run-up equals the still
 water level

---
 aeolis/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..9a312b2 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -175,6 +175,11 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        # no run-up and set-up in addition to the still water level
+        s['TWL'] = s['SWL'].copy()
+        s['DSWL'] = s['SWL'].copy()
+
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From 6349392245abfbc9a4950e1e4a5b10ea8df4f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 32/70] fix: seaward boundary of the groundwater in the
 transect itself

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 9a312b2..475a945 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -428,7 +428,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From b052a61553e173ec3ed026c730dc5e20a5909907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 33/70] fix: nonlinear term of the Boussinesq equation for
 groundwater

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 475a945..eeb309f 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -464,8 +464,8 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     for i in range(len(a[:,0])):
         if shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
-            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
+            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / (2. * ds[i,shl_ix[i]:-2])
+            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4]) / (2. * ds[i,shl_ix[i]+1:-3])
             dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
 
     return dGW
-- 
2.43.0


From 97132e1e33b704d6a88f495f9f0142d4d720ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 34/70] fix: previous groundwater level is not changed along
 with the present one

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index eeb309f..0688abf 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -250,13 +250,13 @@ def update(s, p, dt,t):
         #Initialize GW levels
         if t == p['tstart']:
             s['gw'][:,:] = p['in_gw']
-            s['gw_prev'] = s['gw']
+            s['gw_prev'] = s['gw'].copy()
             s['wetting'] = s['gw'] > s['gw_prev']       
             
         #Specify wetting or drying conditions in previous timestep
         s['wetting'] = s['gw'] > s['gw_prev']
         #Save groundwater from previous timestep
-        s['gw_prev'] = s['gw']        
+        s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
         dt_gw = int(dt / p['tfac_gw'])
-- 
2.43.0


From a1daa6b4c1823e430565022abfa842efb6effb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 35/70] fix: groundwater time steps cover the model time step

---
 aeolis/hydro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 0688abf..e8e4d79 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -259,8 +259,9 @@ def update(s, p, dt,t):
         s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
-        dt_gw = int(dt / p['tfac_gw'])
-        for i in range(int(dt / dt_gw)):
+        n_gw = max(1, int(p['tfac_gw']))
+        dt_gw = dt / n_gw
+        for i in range(n_gw):
             t_gw = t + i * dt_gw
             interpolate(s,p,t_gw)
                 
-- 
2.43.0


From fe3e19c24397e8ceb4cbca54004cf8f1786cbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 36/70] fix: groundwater in transects without a shoreline

---
 aeolis/hydro.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index e8e4d79..566e9bf 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -267,10 +267,12 @@ def update(s, p, dt,t):
                 
             #Define index of shoreline location
             shl_ix =np.argmax(s['zb'] > s['DSWL'],axis=1) - 1
+            shl_ix[np.all(s['zb'] <= s['DSWL'],axis=1)] = p['nx'] # submerged transects
             
 
             #Define index of runup limit
             runup_ix =np.argmax(s['zb'] > s['TWL'],axis=1) - 1
+            runup_ix[np.all(s['zb'] <= s['TWL'],axis=1)] = p['nx'] # overtopped transects
             
             # Landward boundary condition
             if p['boundary_gw'].lower() == 'no_flow':
@@ -428,8 +430,10 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
 
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
-        GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
+        if shl_ix[i] >= 0:
+            GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
+        if shl_ix[i] >= 1:
+            GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
@@ -450,7 +454,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     if process_seepage_face:
         ixs = np.argmin(GW + 0.05 >= zb,axis=1)
         for i in range(len(ixs)):
-            if shl_ix[i] < ixs[i] - 1:
+            if 0 <= shl_ix[i] < ixs[i] - 1:
                 GW[i,shl_ix[i]:ixs[i]-1] = zb[i,shl_ix[i]:ixs[i]-1]
     
     #Compute groundwater level change dGW/dt (Boussinesq equation)
@@ -463,11 +467,12 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
 
 
     for i in range(len(a[:,0])):
-        if shl_ix[i] < len(a[0,:]) - 3:   
-            a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / (2. * ds[i,shl_ix[i]:-2])
-            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4]) / (2. * ds[i,shl_ix[i]+1:-3])
-            dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
+        ix = max(shl_ix[i], 1) # no shoreline within transects that are dry
+        if ix < len(a[0,:]) - 3:   
+            a[i,ix:-2]=(GW[i,ix+1:-1] - 2 * GW[i,ix:-2] + GW[i,ix-1:-3]) / ds[i,ix:-2] ** 2
+            b[i,ix:-2]=(GW[i,ix:-2] * (GW[i,ix+1:-1] - GW[i,ix-1:-3])) / (2. * ds[i,ix:-2])
+            c[i,ix+1:-3]=(b[i,ix+2:-2]-b[i,ix:-4]) / (2. * ds[i,ix+1:-3])
+            dGW[i,ix+1:-3]=K_gw / ne_gw * (D_gw * a[i,ix+1:-3] + c[i,ix+1:-3])
 
     return dGW
 
@@ -478,6 +483,9 @@ def runup_overheight_distr(fx, fx_ix,shl_ix,runup_ix, x):
     
     '''
     for i in range(len(fx[:,0])):
+        #No infiltration beyond the shoreline or in transects that are dry
+        if shl_ix[i] < 0 or runup_ix[i] <= shl_ix[i]:
+            continue
         #Define index of peak f(x)
         fx_ix[i] = (shl_ix[i]) + (2/3 * (runup_ix[i] - shl_ix[i]))
         #Compute f(X)
-- 
2.43.0


From 9f7dcafa11afc8cd406c1f3a9c78002e90b04d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 37/70] fix: no vegetation growth by the number of neighbours
 without vertical growth

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..7db4600 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -153,7 +153,7 @@ def grow (s, p): #DURAN 2006
         if p['V_ver'] > 0:
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
-            s['drhoveg'][ix] = 0
+            s['drhoveg'][:,:] = 0
         s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
-- 
2.43.0


From 8d3a57f8367234d86272a7dcfe69691d9d0043da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 38/70] fix: vegetation cover grows over the actual time step

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 7db4600..32272b8 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -154,7 +154,7 @@ def grow (s, p): #DURAN 2006
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
             s['drhoveg'][:,:] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From 2542526818cd0e6e5d43ce02cd35aa4ac5ec1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 39/70] fix: vegetation does not grow back without germination

---
 aeolis/vegetation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 32272b8..dfed0f2 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -138,6 +138,9 @@ def grow (s, p): #DURAN 2006
     # Reduction of vegetation growth due to sediment burial
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
 
+    # No growth where vegetation did not germinate (again)
+    s['dhveg'][~ix] = 0.
+
     # Adding growth
     if p['veggrowth_type'] == 'orig': #based primarily on vegetation height
         s['hveg'] += s['dhveg']*(p['dt_opt'] * p['accfac']) / (365.25*24.*3600.)
-- 
2.43.0


From cea017e6bd3b012ea912000dca71e7c61e9fcab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 40/70] fix: vegetation cover does not outgrow its maximum

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index dfed0f2..9f872e1 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -160,6 +160,7 @@ def grow (s, p): #DURAN 2006
         s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
+        s['rhoveg'] = np.minimum(s['rhoveg'], rhoveg_max)
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
         #now convert back to height for Okin or wherever else needed
         s['hveg'][:,:] = p['hveg_max']*np.sqrt(s['rhoveg'])
-- 
2.43.0


From 8a8d5fbebf8a107fdaf035e3c2d1cd0d5aa85557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 41/70] fix: growth rate of vegetation cover is not truncated
 to whole numbers

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 9f872e1..9acc815 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -121,7 +121,7 @@ def germinate(s,p):
     
     lat_veg = drhoveg > 0.
     
-    s['drhoveg'] = np.sum(lat_veg[:,:,:], 2)
+    s['drhoveg'][:,:] = np.sum(lat_veg[:,:,:], 2)
     
     p_lateral = p_lateral_cell * s['drhoveg']
     
-- 
2.43.0


From 14f8441980dbd63b396dd25451e85ee323a04560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 42/70] fix: sand fences in 2D do not turn the wind

---
 aeolis/fences.py | 50 ++++++++----------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 38611d3..92b5a5d 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -186,56 +186,22 @@ def calc_fence_shear(igrid, cgrid, udir, x0, y0, p):
     # Compute wind shear stresses on computational grid
     gc = compute_fenceshear(gi, gc, udir, p)
 
-    ustarx_init = gc['ustarx'][0,0]
-    gc['ustarx'] = gc['ustarx'] * gc['mult_all']
-    gc['ustary'] = np.zeros(gc['x'].shape)
-
-    #ensure bad data doesnt make it through
-    #ix = gc['mindist'] > 20
-    #gc['ustarx'][ix] = ustarx_init
-
-
-    gc['ustarx'], gc['ustary'] = rotate(gc['ustarx'], gc['ustary'], udir + 90)
-
-    # Rotate both (i&c) grids + results in opposite dir.
+    # Rotate both (i&c) grids in opposite dir.
     gi['x'], gi['y'] = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
 
     gc['x'], gc['y'] = rotate(gc['x'], gc['y'], -(udir + 90.), origin=(x0, y0))
 
-    gc['ustary'], gc['ustarx'] = rotate(gc['ustarx'], gc['ustary'], -(udir + 90))
+    # Interpolate reduction of wind shear to real grid
+    gi['mult_all'] = interpolate(gc['x'], gc['y'], gc['mult_all'],
+                                 gi['x'], gi['y'])
 
-    # Interpolate wind shear results to real grid
-    gi['ustarx'] = interpolate(gc['x'], gc['y'], gc['ustarx'],
-                               gi['x'], gi['y'])
-    gi['ustary'] = interpolate(gc['x'], gc['y'], gc['ustary'],
-                               gi['x'], gi['y'])
-
-    # Rotate real grid and wind shear results back to orignal orientation
+    # Rotate grids back to orignal orientation
     gc['x'], gc['y'] = rotate(gc['x'], gc['y'], udir + 90., origin=(x0, y0))
     gi['x'], gi['y'] = rotate(gi['x'], gi['y'], +(udir + 90.), origin=(x0, y0))
 
-    gi['ustarx'], gi['ustary'] = rotate(gi['ustarx'], gi['ustary'], +(udir + 90))
-
-    #avoid any boundary effects
-    #gi['ustarx'][1,:] = gi['ustarx'][2,:]
-    #gi['ustarx'][:,1] = gi['ustarx'][:,2]
-    #gi['ustarx'][-2,:] = gi['ustarx'][-3,:]
-    #gi['ustarx'][:,-2] = gi['ustarx'][:,-3]
-
-    #gi['ustary'][1,:] = gi['ustary'][1,:]
-    #gi['ustary'][:,1] = gi['ustary'][:,1]
-    #gi['ustary'][-2,:] = gi['ustary'][-2,:]
-    #gi['ustary'][:,-2] = gi['ustary'][:,-2]
-
-    gi['ustarx'][0,:] = gi['ustarx'][1,:]
-    gi['ustarx'][:,0] = gi['ustarx'][:,1]
-    gi['ustarx'][-1,:] = gi['ustarx'][-2,:]
-    gi['ustarx'][:,-1] = gi['ustarx'][:,-2]
-
-    gi['ustary'][0,:] = gi['ustary'][1,:]
-    gi['ustary'][:,0] = gi['ustary'][:,1]
-    gi['ustary'][-1,:] = gi['ustary'][-2,:]
-    gi['ustary'][:,-1] = gi['ustary'][:,-2]
+    # Reduce wind shear, but keep its direction
+    gi['ustarx'] = gi['ustarx'] * gi['mult_all']
+    gi['ustary'] = gi['ustary'] * gi['mult_all']
 
     return gi, gc
 
-- 
2.43.0


From f0efaf778b16b9dfb9b575979c9b27de3ed57ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 43/70] fix: extent of the lee of sand fences in winds oblique
 to the grid

---
 aeolis/fences.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 92b5a5d..5200fc0 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -308,7 +308,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
     for iy in range(ny):
 
         # intialize other grid parameters
-        x = gc['x'][iy, :]
+        x = gc['xi'][iy, :]  # distances along the wind
         zp = gc['z'][iy, :]
         red_all = np.zeros(x.shape)
 
@@ -323,10 +323,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
 
                 # print(zp[igrid])
                 # local parameters
-                if udir >= 180 and udir <= 360:
-                    xrel = x - x[igrid]
-                else:
-                    xrel = -(x - x[igrid])
+                xrel = x - x[igrid]
 
                 red = np.zeros(x.shape)
                 mult = np.ones(x.shape)
-- 
2.43.0


From 37b53543a4365e40c1703337ebe2ed015842f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 44/70] fix: read numbers in scientific notation from the
 configuration file

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 6b83b1e..8affd2d 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -309,7 +309,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return val == 'T'
     elif re.match('^-?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val):
+    elif re.match('^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From e12999b27b697ebb1d60a282e2503ca8d2fbb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 45/70] fix: lists with values separated by more than one space
 in the configuration file

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 8affd2d..6098ae7 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -303,8 +303,8 @@ def parse_value(val, parse_files=True, force_list=False):
         
     val = val.strip()
     
-    if ' ' in val or force_list:
-        return np.asarray([parse_value(x) for x in val.split(' ')])
+    if re.search('\s', val) or force_list:
+        return np.asarray([parse_value(x) for x in re.split('\s+', val)])
     elif re.match('^[TF]$', val):
         return val == 'T'
     elif re.match('^-?\d+$', val):
-- 
2.43.0


From ed0fada052e79ca893dbb6b07b0f4b22e7feeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 46/70] fix: values that start with None in the configuration
 file

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 6098ae7..3a838b4 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -311,7 +311,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return int(val)
     elif re.match('^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', val):
         return float(val)
-    elif re.match('None', val):
+    elif re.match('^None$', val):
         return None
     elif os.path.isfile(val) and parse_files:
         for dtype in [float, complex]:
-- 
2.43.0


From 21806a7e7c4ad8853f10ca05473d90937f01b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 47/70] fix: immutable model state variables are not
 overwritten by the model

---
 aeolis/model.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index a4bd9d4..8246f01 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -118,6 +118,24 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def __getitem__(self, k:str) -> Any:
+        """returns a copy of immutable model variables, such that these
+        cannot be changed in place
+        """
+
+        v = super(ModelState, self).__getitem__(k)
+        if k not in self.ismutable and isinstance(v, np.ndarray):
+            return v.copy()
+        return v
+
+
+    def update(self, *args, **kwargs) -> None:
+        """sets multiple mutable model variables"""
+
+        for k, v in dict(*args, **kwargs).items():
+            self[k] = v
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
-- 
2.43.0


From 730b3b0b0db5cf7213d2d1851d4bd2e8f72a46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 48/70] fix: arrays passed to the model are not changed by the
 model

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 8246f01..fb497df 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -580,6 +580,8 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
+            if isinstance(val, np.ndarray):
+                val = val.copy()
             self.s[var] = val
         elif var in self.p:
             self.p[var] = val
-- 
2.43.0


From bd587a76ee76d8b09c84c932b74164d13c0efc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 49/70] fix: set the same concentration as is returned if the
 bed change is accelerated

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index fb497df..c2d6a8b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -582,6 +582,8 @@ class AeoLiS(IBmi):
         if var in self.s:
             if isinstance(val, np.ndarray):
                 val = val.copy()
+            if var in ['Ct', 'Cu']:
+                val = val * self.p['accfac']
             self.s[var] = val
         elif var in self.p:
             self.p[var] = val
-- 
2.43.0


From 5de1846db9155de9420f93f261e6f3b351d908aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 50/70] fix: statistics of the sediment flux lagged one time
 step

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c2d6a8b..3bea62d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2824,6 +2824,9 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        # update the q variable
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         for k, exts in self.p['_output_vars'].items():
             v = self.get_var(k, clear=False).copy()
             if 'min' in exts:
@@ -2835,9 +2838,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From 958c064ec65538f189cdcb9c276ab8003966ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 51/70] fix: time bounds with the precision of the time itself

---
 aeolis/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 9a10a40..368aeb5 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -231,7 +231,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.variables['lon_bounds'].units = 'degrees_east'
         nc.variables['lon_bounds'].comment = 'longitude values at the west and east bounds of each pixel.'
             
-        nc.createVariable('time_bounds', 'float32', (u'time', u'nv'))
+        nc.createVariable('time_bounds', 'float64', (u'time', u'nv'))
         nc.variables['time_bounds'].units = 'seconds since %s' % p['refdate']
         nc.variables['time_bounds'].comment = 'time bounds for each time value'
 
-- 
2.43.0


From 5745670dc76317de29b69dec6d46774ca4070993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 52/70] fix: angles of repose remain spatial grids

---
 aeolis/avalanching.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 94ffe46..46bb495 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -63,8 +63,8 @@ def angele_of_repose(s,p):
     theta_stat = p['theta_stat']
     theta_dyn  = p['theta_dyn']
     
-    s['theta_stat'] = theta_stat
-    s['theta_dyn'] = theta_dyn
+    s['theta_stat'] = np.full(s['zb'].shape, theta_stat)
+    s['theta_dyn'] = np.full(s['zb'].shape, theta_dyn)
         
     return s
 
@@ -116,7 +116,7 @@ def avalanche(s, p):
         
         s['gradh'] = grad_h.copy()
 
-        initiate_avalanche = (max_grad_h > tan_stat) 
+        initiate_avalanche = np.any(grad_h > tan_stat)
 
         if initiate_avalanche:
 
@@ -129,7 +129,7 @@ def avalanche(s, p):
 
                 max_grad_h, grad_h, grad_h_down = calc_gradients(s['zb'], nx, ny, s['ds'], s['dn'], s[ 'zne'])
 
-                if max_grad_h < tan_dyn:
+                if np.all(grad_h < tan_dyn):
                     break
 
                 # Calculation of flux
@@ -139,7 +139,7 @@ def avalanche(s, p):
                 grad_h_nonerod = np.maximum(grad_h_nonerod, 0.)
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
-                slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
+                slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn[ix])
                 
                 ix = grad_h_nonerod < grad_h - tan_dyn 
                 slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
-- 
2.43.0


From f4d4ddf6f8edb8802bdb7d497ece97bc0267a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 53/70] fix: grain velocity over beds below datum without
 separation

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..1b90899 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -190,7 +190,7 @@ def duran_grainspeed(s, p):
         
         
         # set the grain velocity to zero inside the separation bubble
-        ix = (s['zsep'] > s['zb'] + 0.01)
+        ix = (s['zsep'] > s['zb'] + 0.01) & p['process_separation']
         
         sepspeed = 0.1
         us[ix,i] = sepspeed * ets[ix, i]
-- 
2.43.0


From 6bf333c34c69e9ade6ea04bc3c516034fb444321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 54/70] fix: separation surface of one-dimensional grids
 remains a spatial grid

---
 aeolis/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 894412b..c7373c4 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -240,7 +240,7 @@ def shear(s,p):
 
         if p['process_separation']:
             zsep = separation1d(s, p)
-            s['zsep'] = zsep
+            s['zsep'] = zsep.reshape(s['zb'].shape)
             s['hsep'] = s['zsep'] - s['zb']
             tau_sep = 0.5
             slope = 0.2  # according to Durán 2010 (Sauermann 2001: c = 0.25 for 14 degrees)
-- 
2.43.0


From 0f874c7d6000205fe0813c40b6d6ff936e4ed388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 55/70] fix: statistics of variables with underscores in their
 names in dot notation

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 3bea62d..59ac4f4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2693,7 +2693,7 @@ class AeoLiSRunner(AeoLiS):
 
         self.clear = clear
 
-        if '_' in var and var not in self.s and var not in self.p:
+        if '_' in var and '.' not in var and var not in self.s and var not in self.p:
             var, stat = var.rsplit('_', 1)
             if var in self.o:
                 return self.get_statistic(var, stat)
@@ -2770,7 +2770,7 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var and var not in self.s:
+            if '_' in var and '.' not in var and var not in self.s:
                 var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
-- 
2.43.0


From 50aa9460d40f7b5e9d4cfa7038c078bd4c352e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 56/70] fix: resume a run from a restart file without crash of
 the progress indicator

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 59ac4f4..24b3346 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2462,6 +2462,7 @@ class AeoLiSRunner(AeoLiS):
         self.tlog = 0.
         self.plog = -1.
         self.trestart = 0.
+        self.dt_array = [] # time steps since last progress print
 
         self.n = 0 # time step counter
         self.o = {} # output stats
-- 
2.43.0


From 7b54a3149f231aa174881c49e00ca55dafe14501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 57/70] fix: models do not share the lists of the default
 configuration

---
 aeolis/inout.py | 3 ++-
 aeolis/model.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 3a838b4..b661ed6 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -29,6 +29,7 @@ from __future__ import absolute_import, division
 
 import os
 import re
+import copy
 import time
 import shutil
 import logging
@@ -83,7 +84,7 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
     '''
 
     if load_defaults:
-        p = DEFAULT_CONFIG.copy()
+        p = copy.deepcopy(DEFAULT_CONFIG)
     else:
         p = {}
     
diff --git a/aeolis/model.py b/aeolis/model.py
index 24b3346..5d61a96 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -28,6 +28,7 @@ The Netherlands                  The Netherlands
 from __future__ import absolute_import, division
 
 import os
+import copy
 import importlib.machinery
 import importlib.metadata
 import time
@@ -2478,7 +2479,7 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
+            self.p = copy.deepcopy(aeolis.constants.DEFAULT_CONFIG)
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
-- 
2.43.0


From 9e70e13a42383f0b3ce860c23edd536d66cb0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 58/70] fix: wind speeds generated from bins of any size

---
 aeolis/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5d61a96..5ffc4ef 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3132,9 +3132,7 @@ class WindGenerator():
         weib_scale=scale*float(mean_speed)/np.sqrt(np.pi);
 
         # wind speed bins
-        self.bins = np.arange(self.bin_size/2.0,
-                              float(max_speed) + self.bin_size/2.0,
-                              self.bin_size)
+        self.bins = (np.arange(n_states) + 0.5) * self.bin_size
 
         # distribution of probabilities, normalised
         fdpWind = self.weibullpdf(self.bins, weib_scale, weib_shape)
@@ -3219,7 +3217,7 @@ class WindGenerator():
         self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
         self.states.append(self.state)
 
-        u = np.maximum(0., self.bins[self.state] - 0.5 + r2 * self.bin_size)
+        u = np.maximum(0., self.bins[self.state] - self.bin_size/2.0 + r2 * self.bin_size)
         self.wind_speeds.append(u)
 
         self.t += self.dt
-- 
2.43.0


From 5f5c68791e020b02dd575cba9a7b99947e6b2f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 59/70] fix: default for the stress ratio used by the
 sheltering of roughness elements

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index d74ae45..43abeea 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -246,7 +246,7 @@ DEFAULT_CONFIG = {
     'Ck'                            : 2.78,               # [-] Constant in kawamura formulation for equilibrium sediment concentration
     'Cl'                            : 6.7,                # [-] Constant in lettau formulation for equilibrium sediment concentration
     'Cdk'                           : 5.,                 # [-] Constant in DK formulation for equilibrium sediment concentration
-    # 'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
+    'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
 #    'alpha'                         : 0.4,               # [-] Relation of vertical component of ejection velocity and horizontal velocity difference between impact and ejection
     'kappa'                         : 0.41,               # [-] Von Kármán constant
     'sigma'                         : 4.2,                # [-] Ratio between basal area and frontal area of roughness elements
-- 
2.43.0


From a12cfb960a2014ca7039e7e6f5cb0e47ee629656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 60/70] fix: default for the coefficient of dune erosion

---
 aeolis/constants.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index 43abeea..67b8242 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -321,6 +321,7 @@ DEFAULT_CONFIG = {
     'alfa'                          : 0,                  # [deg] Real-world grid cell orientation wrt the North (clockwise)
     'dune_toe_elevation'            : 3,                  # Choose dune toe elevation, only used in the PH12 dune erosion solver
     'beach_slope'                   : 0.1,                # Define the beach slope, only used in the PH12 dune erosion solver
+    'Cs'                            : 1.34e-3,            # [-] Erosion coefficient (Larson et al., 2004), only used in the PH12 dune erosion solver
     'veg_min_elevation'             : 3,                  # Choose the minimum elevation where vegetation can grow
     'vegshear_type'                 : 'raupach',          # Choose the Raupach grid based solver (1D or 2D) or the Okin approach (1D only)
     'okin_c1_veg'                   : 0.48,               #x/h spatial reduction factor in Okin model for use with vegetation
-- 
2.43.0


From c4c10f4692f6c38383559d3200dbf99cf1d3d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 61/70] fix: dune erosion by surges without swash

---
 aeolis/erosion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..bfb7a8e 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -111,7 +111,7 @@ def run_ph12(s, p, t):
             Vc = Vc - Vc[0]
 
             # collision calcs
-            p_collision = 1 - norm.cdf(zToe, eta + wl, sigma_s)
+            p_collision = 1 - norm.cdf(zToe, eta + wl, max(sigma_s, 1e-10)) # also without swash
             Nc = p_collision * dt / Tp
 
             # volume change calcs
-- 
2.43.0


From 3305df6629662154d600a2756dec0b27ad769318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 62/70] fix: refusal of unknown moisture threshold and
 groundwater boundary

---
 aeolis/hydro.py     | 2 +-
 aeolis/threshold.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 566e9bf..a8e2326 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -284,7 +284,7 @@ def update(s, p, dt,t):
                 bound = 1
                 
             else:
-                 logger.log_and_raise('Unknown landward groundwater boundary condition' % p['boundary_gw'], exc=ValueError)
+                 logger.log_and_raise('Unknown landward groundwater boundary condition [%s]' % p['boundary_gw'], exc=ValueError)
 
         
             #Runge-Kutta timestepping
diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index b81df46..f86a5f1 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -229,7 +229,7 @@ def compute_moisture(s, p):
         d = np.sum(p['grain_size'] * p['grain_dist'])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
-        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
+        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
 
     # should be .04 according to Pye and Tsoar
     # should be .64 according to Delgado-Fernandez (10% vol.)
-- 
2.43.0


From 528b4d2a1dbf260fc612f03cf615a1dd0e21064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 63/70] fix: onshore boundary condition ignored where the
 offshore one is noflux

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5ffc4ef..3dbec25 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -920,7 +920,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
@@ -1289,7 +1289,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):                              
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
@@ -1301,7 +1301,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
-- 
2.43.0


From 92566fc73838de3b268dabf225aa82501bf7ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 64/70] fix: refusal of unknown solver, grain speed and
 roughness formulation

---
 aeolis/model.py     |  6 ++++++
 aeolis/transport.py |  3 +++
 aeolis/wind.py      | 13 ++++++++-----
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 3dbec25..d7ae55e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -711,6 +711,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
@@ -732,6 +734,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
             
         return solve
 
@@ -751,6 +755,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
diff --git a/aeolis/transport.py b/aeolis/transport.py
index 1b90899..a7b14ed 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -298,6 +298,9 @@ def equilibrium(s, p):
             us = s['us']
             un = s['un']
             u = s['u']
+
+        else:
+            logger.log_and_raise('Unknown grain speed formulation [%s]' % p['method_grainspeed'], exc=ValueError)
      
         
         ustar  = s['ustar'][:,:,np.newaxis].repeat(nf, axis=2)
diff --git a/aeolis/wind.py b/aeolis/wind.py
index c7373c4..e4a2015 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -176,16 +176,16 @@ def calculate_z0(p, s):
     '''
     if p['method_roughness'] == 'constant':
         z0    = p['k']  # Here, the ks (roughness length) is equal to the z0, this method is implemented to assure backward compatibility. Note, this does not follow the definition of z0 = ks /30 by Nikuradse    
-    if p['method_roughness'] == 'constant_nikuradse':
+    elif p['method_roughness'] == 'constant_nikuradse':
         z0    = p['k'] / 30   # This equaion follows the definition of the bed roughness as introduced by Nikuradse
-    if p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
+    elif p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
         z0    = np.sum(p['grain_size']*p['grain_dist']) / 30.
-    if p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
+    elif p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
         z0    = calc_mean_grain_size(p, s) / 30.
-    if p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
+    elif p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
         d50 = calc_grain_size(p, s, 50)
         z0 = 2*d50 / 30.
-    if p['method_roughness'] == 'vanrijn_strypsteen': # based on van Rijn and Strypsteen, 2019; Strypsteen et al., 2021
+    elif p['method_roughness'] == 'vanrijn_strypsteen': # based on van Rijn and Strypsteen, 2019; Strypsteen et al., 2021
         if len(p['grain_dist']) == 1:  # if one grainsize is used the d90 is calculated with the d50 
             d50 = p['grain_size']
             d90 = 2*d50
@@ -204,6 +204,9 @@ def calculate_z0(p, s):
         alpha2 = 1
         gamma_r = 1 + 1/T
         z0    = (d90 + alpha1 * gamma_r * d50 * np.power(T, alpha2)) / 30
+    else:
+        logger.log_and_raise('Unknown roughness formulation [%s]' % p['method_roughness'], exc=ValueError)
+
     return z0
 
 
-- 
2.43.0


From 8ef655da5483afed26b30ad0a37279fa08919ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 65/70] fix: refusal of a grain size distribution file that
 does not exist

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 5663b9d..cb9b132 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -80,7 +80,7 @@ def initialize(s, p):
     s['thlyr'][:,:,:] = p['layer_thickness']
 
     # initialize bed composition
-    if isinstance(p['grain_dist'], str):
+    if isinstance(p['grain_dist'], str) or p['grain_dist'].dtype.kind not in 'fiu':
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
     if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int': 
-- 
2.43.0


From a133c722a19c31101f509910140eb3f7e0841ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 66/70] fix: sign of the prescribed flux across the onshore
 boundary

The onshore boundary face is the upper face of the cell: flux through it
in positive direction leaves the cell. With the sign reversed sediment was
taken out of the domain where the wind should supply it.
---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index d7ae55e..39845d8 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1763,7 +1763,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
@@ -2186,7 +2186,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air (for now = 0)
-- 
2.43.0


From f161998ac6a9fed49a39d1f66c3d7c955f1db861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 67/70] fix: suction at reversals on a wetting scanning curve

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index a8e2326..a514c7a 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -507,7 +507,7 @@ def hdelta(wetting, scan_w, gw,gw_prev,scan_d,h_delta,zb,scan_w_moist,scan_d_moi
                 #intermediate solution:
                 w_hdelta_int = np.minimum((scan_w_moist[i,j] - w_h[i,j]) * (satd_moist - w_h[i,j]) / (d_h[i,j] - w_h[i,j]) + w_h[i,j], satw_moist)
                 #Solve hdelta from wetting curve
-                h_delta[i,j] = np.maximum( 1 / alfaw_moist * (((satw_moist - resw_moist) \
+                h_delta[i,j] = np.maximum( 1 / np.abs(alfaw_moist) * (((satw_moist - resw_moist) \
                     / np.maximum((w_hdelta_int - resw_moist),0.00001)) ** (1 / mw_moist) - 1) ** (1 / nw_moist),0)
             #Compute h_delta if there is a reversal on the drying scanning curve
             if scan_d[i,j] == True and wetting[i,j] == False and gw[i,j] > gw_prev[i,j]:
-- 
2.43.0


From 6d91f07219bdd72345c5b8142d7056a7c466b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 68/70] fix: overview of the time series of a model without a
 wind file

---
 aeolis/inout.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index b661ed6..68e853d 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -448,13 +448,14 @@ def visualize_timeseries(p, t):
     tstop = p['tstop']
         
     # Read the user input (wind)
-    uw_t = p['wind_file'][:,0]
-    uw_s = p['wind_file'][:,1]
-    uw_d = p['wind_file'][:,2]
-    axs[0].plot(uw_t, uw_s, 'k')
-    axs[1].plot(uw_t, uw_d, 'k')
-    axs[0].set_title('Wind velocity at height z, uw (m/s)')
-    axs[1].set_title('Wind direction, udir (deg)')
+    if p['wind_file'] is not None:
+        uw_t = p['wind_file'][:,0]
+        uw_s = p['wind_file'][:,1]
+        uw_d = p['wind_file'][:,2]
+        axs[0].plot(uw_t, uw_s, 'k')
+        axs[1].plot(uw_t, uw_d, 'k')
+        axs[0].set_title('Wind velocity at height z, uw (m/s)')
+        axs[1].set_title('Wind direction, udir (deg)')
 
     # Read the user input (waves)
     if p['wave_file'] is not None:
-- 
2.43.0


From e5a29814af85385e2590aff6b6b4f7f6531c1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 69/70] fix: number of points of grids with a fractional cell
 size

---
 tools/setup/setup_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/setup/setup_tools.py b/tools/setup/setup_tools.py
index 2f3d991..227693f 100644
--- a/tools/setup/setup_tools.py
+++ b/tools/setup/setup_tools.py
@@ -35,8 +35,8 @@ def create_grd(path, nx, ny, x0=0., y0=0., dx=1., dy=1., alfa=270., plotBool=Fal
     angle = np.deg2rad(270.0 - alfa)
     
     # Create arrays
-    x_arr = np.arange(x0, x0 + dx*(nx+1), dx)
-    y_arr = np.arange(y0, y0 + dy*(ny+1), dy)
+    x_arr = x0 + dx*np.arange(nx+1)
+    y_arr = y0 + dy*np.arange(ny+1)
     
     # Create meshgrid
     x, y = np.meshgrid(x_arr, y_arr)
-- 
2.43.0


From 1d95e4b511524eaa7fbbe0c644a5b23205a2e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 70/70] fix: position of a cone on the grid

---
 tools/setup/setup_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/setup/setup_tools.py b/tools/setup/setup_tools.py
index 227693f..d4e250e 100644
--- a/tools/setup/setup_tools.py
+++ b/tools/setup/setup_tools.py
@@ -100,8 +100,8 @@ def create_z_cone(path, nx, ny, height, diameter, midx, midy, dx=1., dy=1.):
     
     for j in range(0,nx+1):  
         for i in range(0,ny+1):
-            if np.sqrt((midy-j*dy)**2+(midx-i*dx)**2)<=diameter/2:
-                z[i,j]+=(1-(np.sqrt((midx-i*dx)**2+(midy-j*dy)**2)/(diameter/2)))*height
+            if np.sqrt((midy-i*dy)**2+(midx-j*dx)**2)<=diameter/2:
+                z[i,j]+=(1-(np.sqrt((midx-j*dx)**2+(midy-i*dy)**2)/(diameter/2)))*height
                 
                 
     np.savetxt(os.path.join(path, 'z.grd'), z)
\ No newline at end of file
-- 
2.43.0

