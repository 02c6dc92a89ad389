From 0fcf08cc8b4d557a406be0873699462fcc847207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 001/262] fix: linear_statics works with the default support
 method 'ZERO'

self.p was only set for 'REM', so the default raised AttributeError, and the
displacements were looked up with the list of load cases as key.
---
 metku/framefem/framefem.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..1fa6e07 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -606,7 +606,7 @@ class FrameFEM:
                 for dof in supp.dof:
                     # Get the global degree of freedom of the supported
                     # node's degree of freedom.
-                    i = node_dofs[dof]
+                    i = int(node_dofs[dof])
                     #  print(i)
                     if i > -1:
                         if support_method == 'ZERO':
@@ -616,7 +616,7 @@ class FrameFEM:
                             for p in loads:
                                 p[i] = 0
                         elif support_method == 'REM':
-                            rem_dofs.append(i)
+                            rem_dofs.append(int(i))
         
         self.supp_dofs = rem_dofs
         
@@ -638,6 +638,9 @@ class FrameFEM:
             self.K = K
             self.p = np.column_stack(LOADS)
             #print(glob_dofs)
+        else:
+            self.K = K
+            self.p = np.column_stack(loads)
                         
         """ Solve global displacement vector """
 
@@ -663,7 +666,8 @@ class FrameFEM:
                 # Substitute free dofs from global displacement vector                        
                 for i, free_dof in enumerate(free_dofs):
                     if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                        for j, lc in enumerate(lcase):
+                            node.u[lc][i] = u[int(dofs[i]),j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From b592c661e9dc02a51a12402709232d54dc38f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 002/262] fix: apply the load factor of a global line load only
 once

q1 and q2 already contain load.f, so the load was scaled by f**2.
---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..c03fa18 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -423,7 +423,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From fd8cecdde2565575aea20f4e2390ef326c7aa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 003/262] fix: member forces account for all current line loads
 of an element

Each line load overwrote the stored fixed-end forces of the previous one, and
the forces of removed loads were never cleared.
---
 metku/framefem/elements/ebbeam.py | 4 ++--
 metku/framefem/framefem.py        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index c03fa18..2255b25 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -508,8 +508,8 @@ class EBBeam(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: all line loads of the load case contribute
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 1fa6e07..70b7f3a 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        # The line loads of the elements are collected anew
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From 0d68a3599cbf02f2b067c6369b1e53d82ff24085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 004/262] fix: do not cache EBBeam stiffness that depends on
 releases

The cache key lacked the releases (and the cached call skipped the update of
Krel), so changing a hinge after an analysis had no effect.
---
 metku/framefem/elements/ebbeam.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 2255b25..84623a7 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -93,7 +93,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
-- 
2.43.0


From b12573bf267374f62889a2e8e6601f93ed7031c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 005/262] fix: line loads along the local axis of a beam
 element are not ignored

---
 metku/framefem/elements/ebbeam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 84623a7..2a5e6cd 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -383,6 +383,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
-- 
2.43.0


From d9f1a24fdbe02c24dc5db5898e6c1e6c980306a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 006/262] fix: second order fixed-end moments of local line
 loads

Sign and arguments of the stability functions as for global line loads.
---
 metku/framefem/elements/ebbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 2a5e6cd..a9b12f5 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -405,13 +405,13 @@ class EBBeam(Element):
                             k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
-- 
2.43.0


From 9386e37137f05c8ed95bae7b09338b4c38e1ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 007/262] fix: nodes added after the load cases get all
 displacement vectors

---
 metku/framefem/framefem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 70b7f3a..dac0bd7 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -177,10 +177,14 @@ class FrameFEM:
             self.nodal_coords.append([x, y])            
             for load_id in self.loadcases.keys():   
                 newNode.u[load_id] = np.zeros(len(newNode.dofs))
+                newNode.u2[load_id] = np.zeros(len(newNode.dofs))
                 #newNode.u[load_id] = [0.0, 0.0, 0.0]
         else:
             self.dim = 3
             self.nodal_coords.append([x, y, z])
+            for load_id in self.loadcases.keys():
+                newNode.u[load_id] = np.zeros(len(newNode.dofs))
+                newNode.u2[load_id] = np.zeros(len(newNode.dofs))
             #for i in range(self.nloadcases()):
             #    newNode.u = np.vstack((newNode.u, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]))
 
-- 
2.43.0


From 7d6ca8d53d8f0530d8003511533ee50fe3961641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 008/262] fix: buckling analysis can be repeated

node.v is replaced by one row per mode, so its length is not the number of
degrees of freedom in the second analysis.
---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index dac0bd7..8f83991 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -899,7 +899,7 @@ class FrameFEM:
         """
         
         for node in self.nodes:
-            node.v = np.zeros((buckling_modes.shape[1],len(node.v)))
+            node.v = np.zeros((buckling_modes.shape[1],len(node.dofs)))
         
         
         glob_dofs = self.global_free_dofs()
-- 
2.43.0


From 6ea8ff6c6cfe53fd38e557595529768069e93748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 009/262] fix: free degrees of freedom are listed in increasing
 order

The order of a set is not that of the rows of the stiffness matrix, so buckling
modes were distributed to wrong nodes when the model has many supports.
---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 8f83991..46a95bb 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -395,7 +395,7 @@ class FrameFEM:
     def global_free_dofs(self):
         """ List of free degrees of freedom """
         
-        return list(set(np.arange(self.dofs))-set(self.supp_dofs))
+        return sorted(set(range(self.dofs))-set(int(d) for d in self.supp_dofs))
 
     def global_stiffness_matrix(self):
         """ Constructs the global stiffness matrix
-- 
2.43.0


From 31406487f62cae2e9e40e0eae76bcb56b1964d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 010/262] fix: EBBeam3D.transformation_matrix takes the
 argument of its callers

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a9b12f5..548b340 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -750,7 +750,7 @@ class EBBeam3D(Element):
         
         return l0
         
-    def transformation_matrix(self):
+    def transformation_matrix(self,initial=True):
         """ Calculates transformation matrix from local to global coordinates
 
             Returns:
-- 
2.43.0


From 0a9b5b6dc94128b9c07a9be454fc8f0860834ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 011/262] fix: LinearSpring methods take the arguments of their
 callers

---
 metku/framefem/elements/springs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..f7e3d17 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,7 +36,7 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self,initial=True):
         """ From local to global coordinates """
         c = self.direction_cosines()
         L1 = np.hstack((c, np.zeros(len(c))))
@@ -132,7 +132,7 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self,lcase=0, order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
-- 
2.43.0


From 6cfa799e85cafeb1192cad5d8c2a5a5531d816f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 012/262] fix: a support added after an analysis clears the old
 displacement

With 'REM' only the free degrees of freedom were written, so a newly supported
one kept its previous value, which also spoiled the member forces.
---
 metku/framefem/framefem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 46a95bb..fdc1d38 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -662,6 +662,11 @@ class FrameFEM:
         self.u = u
         #print(u)
 
+        # Supported dofs do not move, even if they were free in an earlier analysis
+        for node in self.nodes:
+            for lc in lcase:
+                node.u[lc] = np.zeros(len(node.dofs))
+
         """ Substitute obtained displacements to nodes """
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
@@ -738,6 +743,10 @@ class FrameFEM:
         #print(u2)
         self.u2 = u2
         
+        # Supported dofs do not move, even if they were free in an earlier analysis
+        for node in self.nodes:
+            node.u2[lcase] = np.zeros(len(node.dofs))
+
         """ Substitute obtained displacements to nodes """
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
-- 
2.43.0


From ef6684c1f397be0a73523015f64fa1aefcc3672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 013/262] fix: linear buckling finds load factors below 1.0

The shift-invert search with sigma=1.0 and which='LA' only returned factors above
1.0, so a frame that buckles below the applied load was reported as stable.
---
 metku/framefem/framefem.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index fdc1d38..0f24ac6 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -7,12 +7,12 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import numpy as np
 import scipy as sp
+import scipy.linalg
 import time
 from copy import deepcopy
 
 
 from abc import ABCMeta, abstractclassmethod
-from scipy.sparse.linalg import eigsh
 
 
 class FrameFEM:
@@ -877,10 +877,11 @@ class FrameFEM:
         KG = np.delete(KG,self.supp_dofs,1) 
         
         
-        # v0 -- initial guess is set to np.ones -matrix,
-        # this makes sure that w and v values doesn't change
-        # after consecutive runs, default v0 is matrix with random values
-        (w, buckling_modes) = eigsh(K, k=k, M=-KG, sigma=1.0, which='LA', mode='buckling')
+        # K is positive definite, so -KG*v = mu*K*v with mu = 1/w gives all load
+        # factors; a shift-and-invert search around 1.0 misses those below 1.0.
+        mu, v = sp.linalg.eigh(-KG, K)
+        ndx = [i for i in np.argsort(-mu) if mu[i] > 1e-12*max(abs(mu))][:k]
+        w, buckling_modes = 1/mu[ndx], v[:,ndx]
         #w = sp.linalg.eigvals(K,b=-KG)
         #(w,buckling_modes) = sp.linalg.eig(K,b=-KG)
         #(w,buckling_modes) = sp.sparse.linalg.eigs(K,k=6,M=-KG,which='SM',sigma=0)
-- 
2.43.0


From a7a6c903b5518f000c6aeba9a1cf298f65124b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 014/262] fix: second order analysis with a vanishing
 compressive force

The stability functions are 0/0 for P -> 0, so rounding noise in the axial force
gave arbitrary stiffness; use first order stiffness there.
---
 metku/framefem/elements/ebbeam.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 548b340..7981f37 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -253,8 +253,9 @@ class EBBeam(Element):
         
         P = self.fint[lcase]['fx'][1]
         
-        if P < 0:
+        if P < 0 and np.sqrt(abs(P)/E/I1)*Le > 1e-2:
             # For compression members, use second order theory
+            # (the stability functions are 0/0 for a vanishing axial force)
             P = abs(P)
         
             rodc = E * A / Le
@@ -396,7 +397,7 @@ class EBBeam(Element):
                         # For second order analysis, assume uniform
                         # load on element
                         P = self.fint[load.sid]['fx'][0]
-                        if P >= 0:                        
+                        if P >= 0 or np.sqrt(abs(P)/self.section.E/self.section.Iy)*L <= 1e-2:
                             floc[1] = 7/20*q1*L + 3/20*q2*L
                             floc[4] = 3/20*q1*L + 7/20*q2*L                    
                             floc[2] = L**2*(1/20*q1+1/30*q2)
@@ -444,7 +445,7 @@ class EBBeam(Element):
                     # For second order analysis, assume uniform
                     # load on element
                     P = self.fint[load.sid]['fx'][0]
-                    if P >= 0:                        
+                    if P >= 0 or np.sqrt(abs(P)/self.section.E/self.section.Iy)*L <= 1e-2:
                         """ Loads perpendicular to the axis of the element """
                         qy1 = q1*qloc[1]
                         qy2 = q2*qloc[1]
-- 
2.43.0


From fcbec4f171d3813753d8fd156832a056f6d06384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 015/262] fix: default orientation of EBBeam3D

FEMNode was not imported.
---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 7981f37..a59f0c2 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -20,7 +20,7 @@ CACHE_BOUND = 2**10
 #except:
 #    from framefem import Element, LineLoad
 
-from ..framefem import Element, LineLoad
+from ..framefem import Element, LineLoad, FEMNode
 
 class EBBeam(Element):
     """ Euler-Bernoulli beam element
-- 
2.43.0


From 20dc54ce9b9d34528f51458fdab2761f980d0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 016/262] fix: second order analysis of hinged members in
 tension

The first order stiffness already contains the releases; condensing it again
failed with a singular matrix.
---
 metku/framefem/elements/ebbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a59f0c2..4cf9c7a 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -295,7 +295,8 @@ class EBBeam(Element):
             k0[[2, 5], [2, 5]] = a*PSI
         else:
             # For members in tension, use first order stiffness matrix
-            k0 = self.local_stiffness_matrix(E, A, I1, Le)
+            # (which takes the releases into account already)
+            return self.local_stiffness_matrix(E, A, I1, Le)
         
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
-- 
2.43.0


From fd561894b7d886b6526282c3d857d01b36147aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 017/262] fix: perimeter of rolled I-sections

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..a3f89f9 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -716,7 +716,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 4 * b - 2 * tw + 2 * h - 8 * r + 2 * math.pi * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From 94aa5c4d5f7ac2fb4e18314763edd50789d3a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 018/262] fix: shear area of RHS after a change of dimensions

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From 03ac3eee87ad7d93097dad177b0d567eb8667931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 019/262] fix: paint area of welded I-sections counts both
 sides of the top flange

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..1d221f3 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -604,7 +604,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From b6bb2a4cb967ced61e20b9d839ec40e5488c2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 020/262] fix: plastic neutral axis in web classification of
 welded I-sections

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 1d221f3..5809771 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -533,7 +533,7 @@ class WISection(SteelSection):
             alpha = 0  # TODO tarkista tämä
         else:
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2) * self.weld_throat)
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
-- 
2.43.0


From 532dc57092c0c728b53db5d05f618128184e1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 021/262] fix: web area ratio in the M-N interaction of welded
 I-sections

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 5809771..98349e5 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -579,7 +579,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From 09c689f493b05ec8b9881f261516f9482f1ad40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 022/262] fix: classification of sections with fy < 235 MPa

---
 metku/eurocodes/en1993/en1993_1_1.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 9a19777..4c72646 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -70,8 +70,9 @@ def internal_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # If e > 10, it means that e is actually yield strength
+    # (epsilon is slightly over 1 for steels with fy < 235 MPa)
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -97,8 +98,9 @@ def internal_part_comp_bend(r, e, a, p):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # If e > 10, it means that e is actually yield strength
+    # (epsilon is slightly over 1 for steels with fy < 235 MPa)
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -137,8 +139,9 @@ def outstand_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # If e > 10, it means that e is actually yield strength
+    # (epsilon is slightly over 1 for steels with fy < 235 MPa)
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
-- 
2.43.0


From 254381d7c34803671cfb2d05755fd26b18c1ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 023/262] fix: stress ratio in web classification for negative
 moment

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index a3f89f9..e1d1ded 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -239,7 +239,7 @@ class ISection(SteelSection):
         
         """ Calculate stresses for class 3 check """
         sN = self.sigmaN()
-        sM = self.sigmaM() 
+        sM = abs(self.sigmaM())
     
         cw = self.hw
         tw = self.tw
-- 
2.43.0


From 8184f76e3515f5fff58b99399e497405547aa5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 024/262] fix: CHS provides the section interface of
 SteelSection

---
 metku/sections/steel/CHS.py | 42 ++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..403d9d2 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -39,7 +39,7 @@ class CHS(SteelSection):
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
-        super().__init__(fy,A,I,Au,Wpl,Wel,Ashear)
+        super().__init__(fy,A,[I,I],Au,[Wpl,Wpl],[Wel,Wel],[Ashear,Ashear])
         
 
         self.imp_factor = [en1993_1_1.buckling_curve["c"],en1993_1_1.buckling_curve["c"]]
@@ -89,7 +89,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned=0.0, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
@@ -97,21 +97,26 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
+    def bending_resistance(self, C=0, axis="y", verb=False):
         # Bending resistance, Nmm
         if C == 0:
             C = self.section_class()
 
+        if axis == "y":
+            n = 0
+        else:
+            n = 1
+
         if C < 3:
-            WRd = self.Wpl
+            WRd = self.Wpl[n]
         elif C == 3:
-            WRd = self.Wel
+            WRd = self.Wel[n]
         else:
             #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
             warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
                   f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
 
-            WRd = self.Wel
+            WRd = self.Wel[n]
 
         MRd = self.code.bending_resistance(WRd, self.fy)
 
@@ -120,24 +125,23 @@ class CHS(SteelSection):
 
         return MRd, C
     
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
-            
-        """ EN 1993-1-1: 6.2.9.1(5)
+    def moment_axial_force_interact(self, UN, MRd):
+        """ This interaction formula is only for plastic design
+
+            EN 1993-1-1: 6.2.9.1(5)
             In class 1 or 2 use plastic design
-        """
-        n = abs(self.Ned)/NRd;
 
-        if n > 1.0:
-            MNRd = 0
+            input: UN .. NEd/NRd
+                  MRd .. moment resistance
+        """
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd*min(1-UN**1.7,1)
 
         return MNRd
-    
-    
+
+
 def CHS_area(D,T):
     r = 0.5*D
     A = math.pi*r**2 - math.pi*(r-T)**2
-- 
2.43.0


From 3eaa856c34c2cfb1b99cc6c14eef2eaf7f6570cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 025/262] fix: rolled I-sections accept the material given by
 name

---
 metku/sections/steel/ISection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index e1d1ded..f136963 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -47,14 +47,14 @@ class ISection(SteelSection):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
             if tf <= 40:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
                 else:
                     buck_y = "a0"
                     buck_z = "a0"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
@@ -62,14 +62,14 @@ class ISection(SteelSection):
                     buck_z = "a"
         else:
             if tf <= 100:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "d"
                     buck_z = "d"
                 else:
-- 
2.43.0


From 1de7ef57577892f332469f553528dbd1f9e71d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 026/262] fix: elastic neutral axis and section modulus of WQ
 sections

---
 metku/sections/steel/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 6f2896c..9d7d76f 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -221,7 +221,7 @@ class WQSection(SteelSection):
         """ Elastic neutral axis 
             measured from the bottom of the section
         """
-        zel = (self.zb*self.Ab + self.zw*self.Aw + self.zt*self.At)/self.area()
+        zel = (self.zb*self.Ab + self.zw*2*self.Aw + self.zt*self.At)/self.area()
         return zel
     
     def plastic_neutral_axis(self):
@@ -256,7 +256,7 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         
         # distance of neutral axis from the top of the section
-        ztop = self.h+self.bb - zel
+        ztop = self.h+self.tb - zel
         
         Wel =[0,0]
         Wel[0] = I[0]/max(zel,ztop)
-- 
2.43.0


From 61666c2817a7267bd56a2b6e50a00aee3f79375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 027/262] fix: classify RHS webs in combined bending and
 compression

---
 metku/sections/steel/RHS.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 15d2352..096e435 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -228,8 +228,29 @@ class RHS(SteelSection):
         return cWeb    
 
     def web_class_comp_bend(self, Ned, verb=False):
+        """ Determine class of web in combined bending and compression """
+        cw = self.H - 2 * self.R
+        rw = cw / self.T
+
+        # Location of the plastic neutral axis
+        NRweb = 2 * cw * self.T * self.fy
+        a = min(max(0.5 * (1 - Ned / NRweb), 0.0), 1.0)
+
+        # Stress ratio for class 3 check (extreme fibres, compression positive)
+        sN = -Ned / self.A
+        sM = abs(self.sigmaM())
+        p = (sN - sM) / (sN + sM)
+
+        cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
 
-        return 2
+        if verb:
+            print("Web classification (internal part in compression and bending):")
+            print(f"cw = {cw:4.2f}, tw = {self.T:4.2f}")
+            print("alpha = {0:4.3f}".format(a))
+            print("psi = {0:4.3f}".format(p))
+            print("Web class = {0}".format(cWeb))
+
+        return cWeb
 
     def moment_axial_force_interact(self, UN, MRd):
         """ Interaction rule for section resistance for combined
-- 
2.43.0


From 2f9f052cf7ceab31f0cc231e9c78955d6b503524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 028/262] fix: section class in bending and axial tension

---
 metku/sections/steel/steel_section.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..30aacd6 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -503,7 +503,15 @@ class SteelSection(metaclass=ABCMeta):
 
         # Axial tension and bending
         elif self.Ned > 0.0 and abs(Med) > 1e-4:
-            C = 1
+            if self.sigmaN() >= abs(self.sigmaM()):
+                # The entire cross-section is in tension
+                C = 1
+            else:
+                # Tension relieves the compressed parts: pure bending is
+                # on the safe side
+                Cflange = self.flange_class(verb)
+                Cweb = self.web_class_bend(verb)
+                C = max(Cweb, Cflange)
 
         if verb:
             print("Section class = {0}".format(C))
-- 
2.43.0


From afa2508d2ecbdca7201843d760c53b233de98850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 029/262] fix: buckling factor of uniformly compressed outstand
 elements

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..891179f 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -109,7 +109,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From 9d50bc776c3fe8f2977205ad05fe9c65236728e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 030/262] fix: upper limit of the shear buckling resistance

---
 metku/sections/steel/wi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 98349e5..f761f63 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -893,7 +893,8 @@ class WISection(SteelSection):
             else:
                 raise NotImplementedError("shear_buckling_resistance rM >= 1 not implemented")
 
-            VbRd = Vbw_Rd + Vbf_Rd
+            # EN 1993-1-5, Eq. (5.1)
+            VbRd = min(Vbw_Rd + Vbf_Rd, en1993_1_5.shear_buckling_web(eta, fyw, hw, tw))
 
         return VbRd
 
-- 
2.43.0


From f0a0f34b07bc1be95e0f4202ca4a5aba3706999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 031/262] fix: effective cross-section of class 4 welded
 I-sections

---
 metku/sections/steel/wi.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index f761f63..0a3a9f6 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -373,6 +373,10 @@ class WISection(SteelSection):
         return MRd, C
 
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
+        # Only the compressed flange can have an ineffective part
+        self.eff_top = {'rho': 1.0, 'bneg': 0.0}
+        self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
+        self.eff_web['bneg'] = 0.0
         if psi_init < 0:
             self.effective_flange('top')
         else:
@@ -391,8 +395,10 @@ class WISection(SteelSection):
             h_e2 = self.cw + weld_h - self.eff_web['bneg'] - e1
             h_all = [h_t, h_b, h_e1, h_e2]
             # Areas
-            A_t = self.bt * self.tt
-            A_b = self.bb * self.tb
+            b_t = self.bt - 2 * self.eff_top['bneg']
+            b_b = self.bb - 2 * self.eff_bottom['bneg']
+            A_t = b_t * self.tt
+            A_b = b_b * self.tb
             A_e1 = h_e1 * self.tw
             A_e2 = h_e2 * self.tw
             A_all = [A_t, A_b, A_e1, A_e2]
@@ -403,8 +409,8 @@ class WISection(SteelSection):
             z_e2 = self.tb + h_e2 / 2
             z_all = [z_t, z_b, z_e1, z_e2]
             # Second moment of areas
-            I_t = self.bt * h_t ** 3 / 12
-            I_b = self.bb * h_b ** 3 / 12
+            I_t = b_t * h_t ** 3 / 12
+            I_b = b_b * h_b ** 3 / 12
             I_e1 = self.tw * h_e1 ** 3 / 12
             I_e2 = self.tw * h_e2 ** 3 / 12
             I_all = [I_t, I_b, I_e1, I_e2]
@@ -811,8 +817,12 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
+        if psi < 0:
+            ec = self.h - self.effective_neutral_axis()
+            self.eff_web['bneg'] = max(ec - self.tt - np.sqrt(2) * self.weld_throat - beff, 0.0)
+        else:
+            # the whole web is in compression
+            self.eff_web['bneg'] = cw - beff
         # self.eff_web['bneg'] = (1 - rho) * cw / 2
 
         if verb:
-- 
2.43.0


From cd5c6f27caa7b3821d760d4abbb3b07111d9e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 032/262] fix: interaction factors kyy and kzz of class 3
 sections

---
 metku/eurocodes/en1993/en1993_1_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 4c72646..347b3ee 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -266,7 +266,7 @@ def kyy(UN, slend, Cmy=1.0, section_class=2):
     if section_class < 3:
         ky = Cmy * (1 + min(slend - 0.2, 0.8) * UN / gammaM1)
     else:
-        ky = Cmy * (1 + min(slend, 0.6) * UN / gammaM1)
+        ky = Cmy * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return ky
 
@@ -300,7 +300,7 @@ def kzz(UN, slend, Cmz, section_class=2, profile="hollow"):
         else:
             kz = Cmz * (1 + min(2 * slend - 0.6, 1.4) * UN / gammaM1)
     else:
-        kz = Cmz * (1 + min(slend, 0.6) * UN / gammaM1)
+        kz = Cmz * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return kz
 
-- 
2.43.0


From 39cd87a091f5bf010c7befae408ee3a1bf962b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 033/262] fix: equivalent moment factor for zero span moment

---
 metku/eurocodes/en1993/en1993_1_1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 347b3ee..d8c2087 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -363,13 +363,15 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
             else:
                 Mh = Mend[1]
 
-            if abs(Mh) < 1e-6:
+            no_end_moments = abs(Mh) < 1e-6
+
+            if no_end_moments:
                 # Both end moments are zero in this case
                 alpha = 0
             else:
                 alpha = Mspan / Mh
 
-            if abs(alpha) > 1.0 or alpha == 0:
+            if abs(alpha) > 1.0 or no_end_moments:
                 # Moment in the span is larger than the maximum end moment
                 if abs(alpha) > 1.0:
                     alpha = 1 / alpha
-- 
2.43.0


From 5774a8d47c24f42de4c29d42307e79323e88face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 034/262] fix: beam-column check of members susceptible to
 lateral-torsional buckling

---
 metku/structures/steel/steel_member.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..cd20a63 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -217,6 +217,11 @@ class SteelMember:
 
         return self.__Cmy
 
+    @property
+    def CmLT(self):
+        """ Equivalent moment factor for lateral-torsional buckling """
+        return self.__CmLT
+
     def ncrit(self, verb=False):
         """ Buckling force according to Euler """
         C = np.pi ** 2 * self.profile.E
@@ -705,7 +710,8 @@ class SteelMember:
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
             kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
-                                 section_class=cross_section_class)
+                                 section_class=cross_section_class,
+                                 susceptible_to_torsion=True)
         else:
             MzEd = self.MEdZ
 
@@ -734,6 +740,10 @@ class SteelMember:
         # MRd = self.profile.bending_resistance(C=cross_section_class)
         MRd = self.profile.MRd
 
+        if self.LTB:
+            # Bending resistance reduced by lateral-torsional buckling
+            MRd = self.LT_buckling_strength(self.mcrit(), MRd=MRd)
+
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
 
-- 
2.43.0


From c127de4941e11b82fecb77f56ab18470ac7bb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 035/262] fix: section class in member checks does not depend
 on the section checked last

---
 metku/structures/steel/steel_member.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index cd20a63..bf013c5 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -665,6 +665,9 @@ class SteelMember:
             output: r .. utilization ratio for buckling        
         """
         MEd = self.MEdY
+        # Cross-section class is determined by the design forces of the member
+        self.profile.Ned = self.NcEd
+        self.profile.Med[0] = MEd
         MbRd = self.LT_buckling_strength(self.mcrit())
         r = abs(MEd) / MbRd
 
@@ -685,6 +688,7 @@ class SteelMember:
         # find the largest compression force in the member
         NEd = self.NcEd
         self.profile.Ned = NEd
+        self.profile.Med[0] = MyEd
 
         if section_class is None:
             cross_section_class = self.profile.section_class()
-- 
2.43.0


From e1331911cbdc7a88cdf5aeaa07256c3f5aa77229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 036/262] fix: FrameNode keeps real-valued coordinates of its
 own

---
 metku/raami/frame_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..852c38a 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
-- 
2.43.0


From ed966a827b937cfc2b0e3b802dd0d50214919773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 037/262] fix: load combination keeps the scaling factor of a
 load

---
 metku/raami/frame_loads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..a822224 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -206,7 +206,8 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        # Keep the scaling factor given by the user
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From ac2afcacd52ce31030893ea1f8eebc13c69d0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 038/262] fix: loads of a frame are not lost by equal names

---
 metku/raami/raami.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..ea0e885 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -136,7 +136,7 @@ class Raami:
             self.load_ids.append(loadcase.load_id)
 
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if load not in self.loads.values():
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
@@ -145,20 +145,26 @@ class Raami:
         self.load_combs[loadcombination.comb_id] = loadcombination
         loadcombination.combine_loads()
 
+    def make_unique_name(self, load) -> None:
+        """ If another load of the frame has the name of 'load', add numbers
+            to the end of the name until it is unique.
+        """
+        num = len(self.loads)
+        name = load.name
+        while self.loads.get(load.name, load) is not load:
+            load.name = name + str(num)
+            num += 1
+
     def add_pointload(self, pointload:PointLoad) -> None:
         """ If a point load with same 'name' is already included
                         in the frame, add a number to the end of the name
                         of the new load such that each point load has a unique
                         name.
 
-                        NOTE: using 'len' to provide new id number might fail,
-                        if point loads are deleted such that the number of point loads
-                        changes along the way.
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
+        self.make_unique_name(pointload)
 
         if pointload not in self.loads.values():
             self.loads[pointload.name] = pointload
@@ -186,8 +192,7 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
+        self.make_unique_name(lineload)
 
         self.loads[lineload.name] = lineload
 
-- 
2.43.0


From 8ebef685373dd7085dace72bd24b40b7a6c2f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 039/262] fix: self weight of a frame can be removed and
 updated

---
 metku/raami/frame_member.py | 10 ++++++++--
 metku/raami/raami.py        | 13 +++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..2cf3067 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -175,6 +175,7 @@ class FrameMember:
         self.costs = {}
         
         self.self_weight = False
+        self.self_weight_load = None
         
         
         
@@ -323,14 +324,19 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            load = self.self_weight_load
+            self.self_weight_load = None
+            self.loads.remove(load)
+            self.frame.remove_load(load)
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index ea0e885..c942026 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -210,6 +210,19 @@ class Raami:
 
 
 
+    def remove_load(self, load) -> None:
+        """ Removes a load from the frame and from its load case. An empty load
+            case is removed, too.
+        """
+        self.loads = {name: other for name, other in self.loads.items() if other is not load}
+
+        load_case = self.load_cases.get(load.load_id)
+        if load_case is not None and load in load_case.loads:
+            load_case.loads.remove(load)
+            if len(load_case.loads) == 0:
+                del self.load_cases[load.load_id]
+                self.load_ids = [lid for lid in self.load_ids if lid != load.load_id]
+
     def add_support(self, support: Support) -> None:
         # print("Adding support")
         # this.supp_id = len(self.supports)
-- 
2.43.0


From 17105f282bff147d1afe4e9a51b4e2c754391451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 040/262] fix: frame members and member groups do not share
 default lists

---
 metku/raami/frame_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 2cf3067..a261380 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -167,7 +167,7 @@ class FrameMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -919,7 +919,7 @@ class MultiSpanMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         self.sway = sway
         
@@ -1400,7 +1400,7 @@ class MemberGroup:
 
         """
 
-        self.members = members
+        self.members = list(members)
         if len(members) == 0:
             self.cross_section = None
             self.frame = None
-- 
2.43.0


From c28cf899d67c0a1a792dd0dbae32bd7b00f5b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 041/262] fix: minimum and maximum forces of a member over
 several load cases

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index a261380..1e68c63 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -517,7 +517,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif func(val, result_dict[key][force]) != result_dict[key][force]:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From a75407320659e1f497c4f30c9ab318cf6cae78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 042/262] fix: optimum design keeps the family of square hollow
 sections

---
 metku/raami/frame_member.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1e68c63..ac3dc25 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -48,10 +48,11 @@ def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
             prof_type = "HEA"
         elif isinstance(cross_section,HEB):
             prof_type = "HEB"
-        elif isinstance(cross_section,RHS):
-            prof_type = "RHS"
         elif isinstance(cross_section,SHS):
+            # SHS is a subclass of RHS
             prof_type = "SHS"
+        elif isinstance(cross_section,RHS):
+            prof_type = "RHS"
         elif isinstance(cross_section,CHS):
             prof_type = "CHS"
         else:
-- 
2.43.0


From 7072a177619dacd348f501f32ff1b58ac765b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 043/262] fix: slenderness limit in optimum design of member
 groups

---
 metku/raami/frame_member.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ac3dc25..ad21af8 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1508,16 +1508,20 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            too_slender = False
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
                 if isinstance(member,MultiSpanMember):
                     for mem in member.members:
                         if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                            too_slender = True
                 else:
                     if any(member.member.slenderness() > max_slenderness):
-                        continue
+                        too_slender = True
+            
+            if too_slender:
+                continue
             
             
             for load_id in self.frame.load_ids:   
-- 
2.43.0


From 12e20698ea958e9cb133f42e48eb7a6cb893ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 044/262] fix: re-analyse frame after the profile of a member
 group changes

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index c942026..e4e8b1e 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -445,7 +445,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 23f503dd649f9fc3ba56b428f1d7e3d9851e5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 045/262] fix: internal FEM nodes follow when a frame node is
 moved

---
 metku/raami/frame_member.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ad21af8..b659f23 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -343,6 +343,13 @@ class FrameMember:
         """ Clear global node coordinates and recalculate those """
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
+        
+        # Move also the internal nodes of the FEM model, if it exists
+        for fem_node, coord in zip(self.fem_nodes[1:-1],self.global_node_coords[1:-1]):
+            fem_node.x = coord[0]
+            fem_node.y = coord[1]
+            if len(coord) > 2:
+                fem_node.z = coord[2]
 
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
-- 
2.43.0


From df3cc2da59896dca14b2001e18558f9b000a8400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 046/262] fix: piecewise line load on members of any direction

---
 metku/raami/frame_loads.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index a822224..c552bb2 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -367,16 +367,17 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        tol = 1e-6
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Local coordinates of the element along the member
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= xdiv:
+            if X[1] <= self.xdiv + tol:
                 q = qval[0]
-            elif X[0] >= xdiv:
+            elif X[0] >= self.xdiv - tol:
                 q = qval[1]
-            elif X[0] < xdiv and X[1] >= xdiv:
+            else:
                 nd = np.argmax(abs(qval))
                 q = qval[nd]
                 
-- 
2.43.0


From 31fe9ef9b5e59a96d51912175ed9ea372b5907d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 047/262] fix: member with one element keeps the hinges at both
 ends

---
 metku/raami/frame_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b659f23..f017af8 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -642,7 +642,8 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            last = self.fem_elements[-1]
+            last.releases = last.releases + [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
-- 
2.43.0


From e4aebca85aaf7e27828657ce1937f3581c36f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 048/262] fix: optimum design of square and circular hollow
 section members

---
 metku/sections/steel/CHS.py       | 10 ++++++++++
 metku/sections/steel/catalogue.py | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index 403d9d2..aad484f 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -47,6 +47,16 @@ class CHS(SteelSection):
     def __repr__(self):
         return f"{type(self).__name__} {self.D:.0f}X{self.T:.1f}"
 
+    @property
+    def h(self):
+        """ Height of the section """
+        return self.D
+
+    @property
+    def b(self):
+        """ Width of the section """
+        return self.D
+
     def area(self):
         r = 0.5*self.D
         return math.pi*r**2 - math.pi*(r-self.T)**2
diff --git a/metku/sections/steel/catalogue.py b/metku/sections/steel/catalogue.py
index 51e988f..e253294 100644
--- a/metku/sections/steel/catalogue.py
+++ b/metku/sections/steel/catalogue.py
@@ -1325,6 +1325,22 @@ def make_rhs(key,material="S355"):
     
     return RHS(p[0],p[1],p[2],fy=material)    
 
+def make_shs(key,material="S355"):
+    """ Makes an SHS section out of the 'key' used """
+    from metku.sections.steel.RHS import SHS
+
+    p = shs_profiles['SHS ' + key]
+
+    return SHS(p['h'],p['t'],fy=material)
+
+def make_chs(key,material="S355"):
+    """ Makes a CHS section out of the 'key' used """
+    from metku.sections.steel.CHS import CHS
+
+    p = chs_profiles['CHS ' + key]
+
+    return CHS(p['d'],p['t'],fy=material)
+
 def make_section(key,material="S355"):
     """ Makes a steel section out of key """
     import re
@@ -1337,6 +1353,10 @@ def make_section(key,material="S355"):
         p = make_ipe(prof_name[1],material)
     elif prof_name[0] == "RHS":
         p = make_rhs(prof_name[1],material)
+    elif prof_name[0] == "SHS":
+        p = make_shs(prof_name[1],material)
+    elif prof_name[0] == "CHS":
+        p = make_chs(prof_name[1],material)
     elif prof_name[0] == "HE":
         if prof_name[2] == "A":
             p = make_hea(prof_name[1],material)
-- 
2.43.0


From 427e3648ff15b3951747bb15e3f8906a7f2de046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:02 +0000
Subject: [PATCH 049/262] fix: buckling length factors of a frame member can be
 given as a list

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index f017af8..9435a41 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -221,7 +221,7 @@ class FrameMember:
         self.__lcr = val
         
         if not self.member is None:
-            self.member.lcr = val
+            self.member.lcr = np.array(val)
     
     def coords(self):
         """ Return nodal coordinates """
-- 
2.43.0


From 343ba03888d7acbd719eaab798f07de3e9fb8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 050/262] fix: piecewise uniform load of trusses with three or
 more zone boundaries

---
 metku/raami/raami_plane_truss.py | 42 ++++++++++----------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..025a3ad 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1101,38 +1101,22 @@ class SlopedTruss(PlaneTruss):
         load_name0 = 'TC_' + ltype
         
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
+            x0, x1 = mem.nodes[0].x, mem.nodes[1].x
+            # Zone of the first node, and zone boundaries between the nodes
+            zone = sum(x <= x0 for x in xzones)
+            inside = [x for x in xzones if x0 < x < x1]
+            
+            if len(inside) == 0:
+                # Member is totally inside one zone
+                vals = [q[zone],q[zone]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
             else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                # Member is partially in the next zone
+                vals = [q[zone],q[zone+1]]
+                xdiv = (inside[0]-x0)/(x1-x0)
+                load_name = load_name0 + '_pw_line'
+                self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
-- 
2.43.0


From 230662c7915ddf4f2312f106426009b9a2704eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 051/262] fix: truss members with one element keep the hinges
 at both ends

---
 metku/raami/frame_member.py      |  4 +++-
 metku/raami/raami_plane_truss.py | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 9435a41..de89473 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1097,7 +1097,9 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            last = self.fem_elements[-1]
+            if not 5 in last.releases:
+                last.releases = last.releases + [5]
     
     def clear_fem(self):
         
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 025a3ad..2e64f88 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1787,7 +1787,9 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                last = self.fem_elements[-1]
+                if not 5 in last.releases:
+                    last.releases = last.releases + [5]
         elif model == "en1993":
             # First end node
             self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
@@ -1824,7 +1826,9 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                last = self.fem_elements[-1]
+                if not 5 in last.releases:
+                    last.releases = last.releases + [5]
         elif model == "ecc_elements":
             if isinstance(self.joints[0],TubularYJoint):
                 N1 = self.joints[0].fem_nodes['xc']                              
@@ -1894,7 +1898,9 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                last = self.fem_elements[-1]
+                if not 5 in last.releases:
+                    last.releases = last.releases + [5]
        
     
     
@@ -2076,7 +2082,9 @@ class BottomChord(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            last = self.fem_elements[-1]
+            if not 5 in last.releases:
+                last.releases = last.releases + [5]
             
 
 class TrussBrace(SteelFrameMember):
@@ -2356,7 +2364,9 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            last = self.fem_elements[-1]
+            if not 5 in last.releases:
+                last.releases = last.releases + [5]
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From b961a1659eca0431ac75dc17ba78758b3fae2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:17 +0000
Subject: [PATCH 052/262] fix: truss FEM models can be generated again

---
 metku/raami/raami_plane_truss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2e64f88..2e5d114 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1252,6 +1252,11 @@ class SlopedTruss(PlaneTruss):
 
         """
                 
+        if self.fem_generated:
+            # Remove the previously generated FEM model
+            self.clear_fem()
+        
+        self.fem_generated = True
         
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
-- 
2.43.0


From 203e28acf8a3a7083c656108092d73047f8dd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 053/262] fix: loads of load combinations on the gap elements
 of trusses

---
 metku/raami/raami_plane_truss.py | 73 +++++++++++++++-----------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2e5d114..d694f11 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1489,44 +1489,41 @@ class SlopedTruss(PlaneTruss):
                 # Add loads to gap elements
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
-                        # Add load to gap element
-                        for load1 in joint.chords[0].loads:
-                            for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
-                                    if joint == self.ridge_joint:
-                                        q = load1.f*load1.values[1]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][0],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                        q = load1.f*load2.values[0]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][1],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                    else:
-                                        if isinstance(load1,LineLoad) or isinstance(load1,PWLineLoad):
-                                            if abs(load1.values[1]) >= abs(load2.values[0]):
-                                                q = load1.f*load1.values[1]
-                                                
-                                            else:
-                                                q = load2.f*load2.values[0]
-                                                                                    
-                                            load = FEMLineLoad(load1.load_id,
-                                                               joint.fem_elements['gap'],
-                                                               [0.0,1.0],
-                                                               [q,q],
-                                                               load1.direction,
-                                                               load1.coord_sys)                                            
-                                            self.fem.add_load(load)
-                                    break
-                                    
+                        # Values of the line loads of the chord members at
+                        # the joint, for each load case and direction. All
+                        # loads of the truss are considered, including
+                        # those of load combinations.
+                        qleft, qright = {}, {}
+                        for load in self.loads.values():
+                            if isinstance(load,LineLoad) or isinstance(load,PWLineLoad):
+                                key = (load.load_id,load.direction,load.coord_sys)
+                                if load.member is joint.chords[0]:
+                                    qleft[key] = qleft.get(key,0.0) + load.f*load.values[1]
+                                elif load.member is joint.chords[-1]:
+                                    qright[key] = qright.get(key,0.0) + load.f*load.values[0]
+                        
+                        for key, q1 in qleft.items():
+                            if not key in qright:
+                                continue
+                            
+                            q2 = qright[key]
+                            
+                            if joint.ridge:
+                                gap_loads = zip(joint.fem_elements['gap'],[q1,q2])
+                            elif abs(q1) >= abs(q2):
+                                gap_loads = [(joint.fem_elements['gap'],q1)]
+                            else:
+                                gap_loads = [(joint.fem_elements['gap'],q2)]
+                            
+                            for element, q in gap_loads:
+                                load_id, direction, coord_sys = key
+                                load = FEMLineLoad(load_id,
+                                                   element,
+                                                   [0.0,1.0],
+                                                   [q,q],
+                                                   direction,
+                                                   coord_sys)
+                                self.fem.add_load(load)
                 
                 # Set nodal degrees of freedom
                 self.fem.nodal_dofs()
-- 
2.43.0


From ad2b23558205e4d04dca0af4618f09af563c959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 054/262] fix: frame knows that its FEM model has been
 generated

---
 metku/raami/raami.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index e4e8b1e..975f266 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -296,10 +296,9 @@ class Raami:
             The idea is that the FEM model is generated once and subsequently
             the same model is modified.
         """
-        if not self.fem_generated:
-            self.fem_generated = True
-
         self.clear_fem()
+        self.fem_generated = True
+
         # Create nodes at the locations of the
         # FrameNodes
         for node in self.nodes:
-- 
2.43.0


From 15763f39fe8fa4c67edca4931f25942f314fe103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 055/262] fix: ridge joint of trusses is found in spite of
 round-off

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d694f11..f35f116 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1167,7 +1167,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1176,7 +1176,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
-- 
2.43.0


From 8cd6b3856d499810a75b8837aa89bbd6498a565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 056/262] fix: intersection point of braces follows when truss
 nodes are moved

---
 metku/raami/raami_plane_truss.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index f35f116..c88e0eb 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2420,14 +2420,14 @@ class TrussBrace(SteelFrameMember):
             including eccentricities, where relevant.
         """
         if isinstance(self.top_joint,TubularKGapJoint):
-            Xt = self.top_joint.xp.coords
+            Xt = self.top_joint.xp_coord
         elif isinstance(self.top_joint,TubularYJoint):
             Xt = self.top_joint.node.coords
         else:
             Xt = self.top_joint.node.coords
         
         if isinstance(self.bottom_joint,TubularKGapJoint):
-            Xb = self.bottom_joint.xp.coords
+            Xb = self.bottom_joint.xp_coord
         elif isinstance(self.bottom_joint,TubularYJoint):
             Xb = self.bottom_joint.node.coords
         else:
@@ -3117,6 +3117,12 @@ class TubularKGapJoint(TubularJoint):
     @property
     def xp_coord(self):
         """ Coordinates of the intersection point of brace centerlines """
+        # The nodes of the truss may have been moved
+        if self.ridge:
+            self.xp.coords = self.node.coords + np.array([0,self.__yloc])
+        else:
+            self.xp.coords = self.node.coords + self.__xloc*self.chords[0].dir_vector + self.__yloc*self.chords[0].perpendicular
+        
         return self.xp.coords
     
     @property
-- 
2.43.0


From 0c0c5993b250d7073ecfbbcc6db3ce0fdbe56658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 057/262] fix: en1993 model of trusses with joints without
 eccentricity

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index c88e0eb..e6fd294 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1296,7 +1296,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1325,6 +1325,9 @@ class SlopedTruss(PlaneTruss):
                 if isinstance(joint,TubularKGapJoint):
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
+                    if n1 is n2:
+                        # No eccentricity
+                        continue
                     cs = IPE(500)
                                  
                     newElement = EBBeam(n1,n2,cs,cs.material)                    
-- 
2.43.0


From fb4ae7abc68950a65700db6e08fa122c82113ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:53 +0000
Subject: [PATCH 058/262] fix: zone boundary at a truss node in spite of
 round-off

---
 metku/raami/raami_plane_truss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index e6fd294..fa75569 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1103,8 +1103,9 @@ class SlopedTruss(PlaneTruss):
         for mem in self.top_chord:
             x0, x1 = mem.nodes[0].x, mem.nodes[1].x
             # Zone of the first node, and zone boundaries between the nodes
-            zone = sum(x <= x0 for x in xzones)
-            inside = [x for x in xzones if x0 < x < x1]
+            tol = 1e-6
+            zone = sum(x <= x0+tol for x in xzones)
+            inside = [x for x in xzones if x0+tol < x < x1-tol]
             
             if len(inside) == 0:
                 # Member is totally inside one zone
-- 
2.43.0


From 4c7ae56d8d8e68902f50fd07ab42ade343ae32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 059/262] fix: re-analyse truss after the profile of a chord
 changes

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index fa75569..003fa32 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1674,7 +1674,7 @@ class SlopedTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 2baa1239cfc08546a9f4a18497be08376731ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 060/262] fix: member group of a truss chord follows the chord
 profile

---
 metku/raami/raami_plane_truss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 003fa32..916c16b 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -161,6 +161,8 @@ class PlaneTruss(Raami):
         
         for chord in self.top_chord:
             chord.cross_section = val
+        
+        self.member_groups['top_chord'].cross_section = val
     
     @property
     def bottom_chord_profile(self):
@@ -173,6 +175,8 @@ class PlaneTruss(Raami):
         
         for chord in self.bottom_chord:
             chord.cross_section = val
+        
+        self.member_groups['bottom_chord'].cross_section = val
     
     def bottom_chord_dy(self,dy):
         """ Move the bottom chord nodes vertically by the distance dy """
-- 
2.43.0


From 06cd17d17d98f7336bbd2b4116de9536ca75a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 061/262] fix: resistance of RHS Y joints is proportional to
 the chord stress factor

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..0dfb927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 916c16b..277c70d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2864,7 +2864,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2877,7 +2877,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From 1408e001f59a890226b19fa128fe19dd3b97a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 062/262] fix: force and angle of the tension brace in RHS K
 gap joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0dfb927..62e518a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
-- 
2.43.0


From c10b80a5f7525ef60fd8bca981b7f030691ee860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 063/262] fix: chord check in the design of K gap joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 10 ++++++++--
 metku/raami/raami_plane_truss.py                |  8 +++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 62e518a..e7aed42 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -711,7 +711,7 @@ class RHSKGapJoint(RHSJoint):
 
         Returns
         -------
-        Utilization ratios N1Ed/NjRd and N2Ed/NjRd
+        Utilization ratios N1Ed/NjRd, N2Ed/NjRd and N0Ed/N0Rd
 
         """
         
@@ -730,7 +730,13 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        # Utilization of the chord in the gap
+        if N0Rd > 0.0:
+            U0 = abs(self.N0)/N0Rd
+        else:
+            U0 = np.inf
+
+        res = np.append(abs(self.NEd)/NjRd,U0)
 
         return res
 
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 277c70d..af29553 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3492,7 +3492,13 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        # Utilization of the chord in the gap
+        if N0Rd > 0.0:
+            U0 = abs(self.N0)/N0Rd
+        else:
+            U0 = np.inf
+
+        r = np.append(abs(NEd)/NjRd,U0)
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From cc242a2a52a9807e9ae7d5fb28759dea99f84402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 064/262] fix: brace heights in add_chord_face_plate

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index e7aed42..6746e9c 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -502,8 +502,8 @@ class RHSKGapJoint(RHSJoint):
 
         """
         
-        lp_min = 1.5*(self.braces[0].h/np.sin(np.radians(self.angles[0])) + self.gap + 
-                                              self.braces[1].h/np.sin(np.radians(self.angles[1])))
+        lp_min = 1.5*(self.h[0]/np.sin(np.radians(self.angles[0])) + self.gap + 
+                                              self.h[1]/np.sin(np.radians(self.angles[1])))
         
         lp = max(lp,lp_min)
         
-- 
2.43.0


From 6f3ebd1cc690b1f348180bebef62d9bd0e0c6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 065/262] fix: brace force of RHS Y joints keeps its sign

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6746e9c..e6a978b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -771,7 +771,8 @@ class RHSYJoint(RHSJoint):
             self.brace = brace
         self.angle = angle
         
-        self._N1 = self.brace.NEd
+        # Signed force of the brace: negative for compression
+        self._N1 = max(self.brace.ned,key=abs)
         
     @property
     def N1(self):
-- 
2.43.0


From 6a5627d352372faa948a336db87eabbf56cb1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 066/262] fix: chord profile data of RHS X joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index e6a978b..81ab657 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1021,7 +1021,7 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
             chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
@@ -1042,7 +1042,7 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.fy0*self.chord.profile.Ashear[1]/np.sqrt(3)/np.sin(np.radians(self.angle))
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
-- 
2.43.0


From 2a62925733a837df7c00182287185b2dc1fc4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 067/262] fix: brace data in info of RHS X joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 81ab657..5d384e7 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1059,14 +1059,14 @@ class RHSXJoint(RHSYJoint):
         
         RHSJoint.info(self)
         
-        print("  Brace: {0:s}".format(self.brace.__repr__()))
-        if self.brace.Ned < 0:
+        print("  Brace: {0:s}".format(self.brace.profile.__repr__()))
+        if self.N1 < 0:
             Nsense = "compression"
-        elif self.brace.Ned > 0:
+        elif self.N1 > 0:
             Nsense = "tension"
         else:
             Nsense = "no axial force"
-        print("  NEd: {0:4.2f} kN ({1:s})".format(self.brace.Ned*1e-3,Nsense))
+        print("  NEd: {0:4.2f} kN ({1:s})".format(self.N1*1e-3,Nsense))
         print("    Angle to chord: {0:4.2f} deg".format(self.angle))
         
         beta = self.beta()
-- 
2.43.0


From 1215ef43157542678f9fbb8970cbbd3122fa3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 068/262] fix: interpolation of Y joint resistance starts from
 beta = 0.85

---
 .../eurocodes/en1993/en1993_1_8/rhs_joints.py | 20 +++++++++++--------
 metku/raami/raami_plane_truss.py              | 20 +++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 5d384e7..1ea2d69 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -181,12 +181,14 @@ class RHSJoint:
         """ Abstract method for beta that depends on the joint type """
         return None
     
-    def eval_KN(self):
-        """ Evaluate stress function """
+    def eval_KN(self,beta=None):
+        """ Evaluate stress function
+            Uses the width ratio of the joint, if 'beta' is not given.
+        """
         # by default, assume the chord face is in tension: kn = 1.0
         kn = 1.0
         n = self.eval_N()
-        b = self.beta()
+        b = self.beta() if beta is None else beta
         if n > 0.0: # compression
             kn = min(1.3-0.4*n/b, 1.0)
         
@@ -828,13 +830,15 @@ class RHSYJoint(RHSJoint):
         
         return fb
             
-    def chord_face_failure(self,verb=False):
-                        
-        b = self.beta()
+    def chord_face_failure(self,verb=False,beta=None):
+        """ Resistance in chord face failure.
+            Uses the width ratio of the joint, if 'beta' is not given.
+        """
+        b = self.beta() if beta is None else beta
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
-        kn = self.eval_KN()
+        kn = self.eval_KN(beta)
         
         r = self.strength_reduction()
         fy0 = self.fy0
@@ -990,7 +994,7 @@ class RHSYJoint(RHSJoint):
             NjRd = self.chord_face_failure()
             
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(beta=0.85)
             N_csw_Rd = self.chord_web_buckling()
             N_bf_Rd = self.brace_failure()
             
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index af29553..05e0282 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2616,12 +2616,14 @@ class TubularJoint:
         """ Abstract method for beta that depends on the joint type """
         return None
     
-    def eval_KN(self):
-        """ Evaluate stress function """
+    def eval_KN(self,beta=None):
+        """ Evaluate stress function
+            Uses the width ratio of the joint, if 'beta' is not given.
+        """
         # by default, assume the chord face is in tension: kn = 1.0
         kn = 1.0
         n = self.eval_N()
-        b = self.beta()
+        b = self.beta() if beta is None else beta
         if n > 0.0: # compression
             kn = min(1.3-0.4*n/b, 1.0)
         
@@ -2853,14 +2855,16 @@ class TubularYJoint(TubularJoint):
         sl = sl / (np.pi * np.sqrt(E / self.fy0))
         return sl
     
-    def chord_face_failure(self,verb=False):
-                        
-        b = self.beta()
+    def chord_face_failure(self,verb=False,beta=None):
+        """ Resistance in chord face failure.
+            Uses the width ratio of the joint, if 'beta' is not given.
+        """
+        b = self.beta() if beta is None else beta
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
             
-        kn = self.eval_KN()
+        kn = self.eval_KN(beta)
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
@@ -2945,7 +2949,7 @@ class TubularYJoint(TubularJoint):
             if verb:
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(beta=0.85)
             N_csw_Rd = self.chord_web_buckling()
             N_bf_Rd = self.brace_failure()
             
-- 
2.43.0


From 8709dcdfeee59bf0cc8d125366ec14378571868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 069/262] fix: load case of chord side wall buckling in truss Y
 joints

---
 metku/raami/raami_plane_truss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 05e0282..8609ece 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2874,9 +2874,9 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -2950,7 +2950,7 @@ class TubularYJoint(TubularJoint):
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
             N_cff_Rd = self.chord_face_failure(beta=0.85)
-            N_csw_Rd = self.chord_web_buckling()
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
-- 
2.43.0


From 71b57baab9423473b8e94e2f5af2938c2bbb409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 070/262] fix: K joint design uses the largest chord force

---
 metku/raami/raami_plane_truss.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 8609ece..7f22a58 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3446,10 +3446,7 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
-            N0 = self.chords[0].NEd[load_id]
-        else:
-            N0 = self.chords[1].NEd[load_id]
+        N0 = max([chord.NEd[load_id] for chord in self.chords],key=abs)
         
         M0 = 0.0
         """
-- 
2.43.0


From b241302f3abe45939294bf2278ef9828c112deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 071/262] fix: shear force in the gap of truss K joints

---
 metku/raami/raami_plane_truss.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 7f22a58..715fa92 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3144,8 +3144,18 @@ class TubularKGapJoint(TubularJoint):
         return self.calc_gap()
     
     def V0gap(self,load_id):
-        """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        """ Shear force in the gap (absolute value) """
+        gap_elements = self.fem_elements['gap']
+        if gap_elements is None:
+            # The gap is not modelled: use the largest component of the
+            # brace forces perpendicular to the chord.
+            return max(abs(brace.NEd[load_id]*np.sin(np.radians(angle)))
+                       for brace, angle in zip(self.braces,self.angles))
+        
+        if not isinstance(gap_elements,list):
+            gap_elements = [gap_elements]
+            
+        return max(abs(fz) for elem in gap_elements for fz in elem.fint[load_id]['fz'])
     
     @property
     def angles(self):
-- 
2.43.0


From ca4a69a32bb152ea327c5f5a903066015d6b88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 072/262] fix: truss Y joint design uses the largest chord
 force

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 715fa92..d2cb843 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2929,7 +2929,7 @@ class TubularYJoint(TubularJoint):
         #        N0 = N
         
         N1 = self.braces[0].NEd[load_id]
-        self.N0 = self.chords[0].NEd[load_id]
+        self.N0 = max([chord.NEd[load_id] for chord in self.chords],key=abs)
 
         #r = self.joint.design()
         b = self.beta()
-- 
2.43.0


From 46f84242ad448c1302f1f1686ef12c5835e3467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 073/262] fix: clear_fem of truss K joints removes the joint
 elements

---
 metku/raami/raami_plane_truss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d2cb843..13fca80 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3561,14 +3561,14 @@ class TubularKGapJoint(TubularJoint):
         self.fem_nodes['xc'] = None
         self.fem_nodes['xp'] = None
         
-        for fem_node in self.fem_nodes['xcf'].values():
-            fem_node = None
+        for key in self.fem_nodes['xcf']:
+            self.fem_nodes['xcf'][key] = None
         
-        for fem_node in self.fem_nodes['xch'].values():
-            fem_node = None
+        for key in self.fem_nodes['xch']:
+            self.fem_nodes['xch'][key] = None
 
-        for ele in self.fem_elements.values():
-            ele = None
+        for key in self.fem_elements:
+            self.fem_elements[key] = None
 
 class TubularKTGapJoint(TubularJoint):
     """ Class for KT gap joints """
-- 
2.43.0


From 42f0e89e78c5e47657fe4107381e60dfbfec44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 074/262] fix: buckling reduction of chord side walls is at
 most 1.0

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 1ea2d69..8a26808 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -821,7 +821,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)),1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -1028,7 +1028,7 @@ class RHSXJoint(RHSYJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)),1.0)
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 13fca80..ead8cc6 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2840,7 +2840,7 @@ class TubularYJoint(TubularJoint):
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)),1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
-- 
2.43.0


From 43515f31361aa15597152cea9a98d96dd48282b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 075/262] fix: scaling of variables that affect several
 properties

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..f7c9529 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif isinstance(self, IndexVariable):
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -453,7 +455,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From f0d23f104daa89bf3f4d5784f37ef1403cbd6b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 076/262] fix: cross-section variables with several properties
 change the cross-section

---
 metku/optimization/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index f7c9529..8d446cb 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -453,9 +453,9 @@ class CrossSectionVariable(Variable):
                             except KeyError:
                                 new_val = new_value * self.scaling
 
-                            obj.__setattr__(p, new_val)
+                            obj.cross_section.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value * self.scaling)
+                            obj.cross_section.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From b1f156c77d3f270cbf37fed30d3690154cb5f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 077/262] fix: scaling a variable again replaces the earlier
 scaling of its bounds

---
 metku/optimization/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 8d446cb..8ea99e7 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -142,9 +142,9 @@ class Variable:
             'scaling_factor'
         """
 
+        self.lb = self.lb * self.scaling / scaling_factor
+        self.ub = self.ub * self.scaling / scaling_factor
         self.scaling = scaling_factor
-        self.lb = self.lb / scaling_factor
-        self.ub = self.ub / scaling_factor
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From 42e7ed9e92f2f1e2edd2a358c42d2430a24ca6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 078/262] fix: index variables: locking, nearly integer values
 and the index in linear constraints

---
 metku/optimization/variables.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 8ea99e7..35c741d 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -322,8 +322,13 @@ class IndexVariable(IntegerVariable):
     def substitute(self, new_value):
         """ Substitute the profile corresponding to the integer new_value
         """
+        if self.locked:
+            return
+
         try:
             # Take into account that new_value can be a float
+            if math.isclose(new_value, round(new_value), abs_tol=INT_TOL):
+                new_value = round(new_value)
             new_value = int(new_value)
             super().substitute(self.values[new_value])
         except:
@@ -335,11 +340,10 @@ class IndexVariable(IntegerVariable):
 
         self.value = new_value
 
-    # @property
-    # def idx(self):
-    #     if self.value in self.values:
-    #         return self.values.index(self.value)
-    #     return self.value
+    @property
+    def idx(self):
+        """ Index of the current profile """
+        return self.value
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From 500b164c5cee8247a148d30656597e862fec3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 079/262] fix: member existence variables make the member
 active again

---
 metku/optimization/variables.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 35c741d..95d45d0 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -189,9 +189,11 @@ class Variable:
                             is the section to be substituted. The section is
                             given in the 'section' attribute of the variable.
                         """
-                        if new_value == 1:
+                        if math.isclose(new_value, 1, abs_tol=INT_TOL):
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
+                            elif prop == 'member':
+                                obj.__setattr__('active', True)
                         else:
                             """ If the target of a binary variable is a member,
                                 the binary variable is a member existence variable
-- 
2.43.0


From df6524fc40e866bdff58ae890d414b50b40d5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 080/262] fix: objective and constraints use structural
 analysis of the current variable values

---
 metku/optimization/constraints.py |  4 +---
 metku/optimization/objective.py   |  6 +++---
 metku/optimization/structopt.py   | 12 ++++++++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..e1799c3 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -88,9 +88,7 @@ class Constraint:
         """
         if self.fea_required:
             for load_id in self.load_ids:
-                if load_id not in self.problem.fea_done:
-                    self.problem.fea(load_id)
-                elif not self.problem.fea_done[load_id]:
+                if self.problem.fea_needed(load_id):
                     self.problem.fea(load_id)
 
     def __repr__(self):
diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..afe0e51 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,7 +39,9 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
+        self.problem.substitute_variables(x)
+
+        if self.fea_required and self.problem.fea_needed("ALL"):
             self.problem.fea()
 
         X = [val for val in x]
@@ -65,8 +67,6 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
-
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
         elif self.obj_type == ObjectiveTypeEnum.MAX:
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..a43a983 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -99,6 +99,7 @@ class OptimizationProblem:
         self.structure = structure
         self.profiles = profiles
         self.fea_done = {}
+        self.fea_vals = {}
         self.X = None
         self.x0 = None
         self.num_iters = 0
@@ -556,8 +557,19 @@ class OptimizationProblem:
         
         self.structure.calculate(load_id, support_method="REM", design=False)
         self.fea_done[load_id] = True
+        self.fea_vals[load_id] = [var.value for var in self.__vars]
         self.num_fem_analyses += 1
 
+    def fea_needed(self, load_id="ALL"):
+        """
+        Structural analysis is needed, if it has not been carried out
+        for the current values of the variables (including locked variables).
+        """
+        if not self.fea_done.get(load_id, False):
+            return True
+
+        return self.fea_vals.get(load_id) != [var.value for var in self.__vars]
+
     def __call__(self, x=None, prec=2, ncons=5):
         """ Call method evaluates the objective function and all constraints
             at x and returns their values
-- 
2.43.0


From 7dd796ec510a640602d2400d17fe0ced0605374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 081/262] fix: constraints substitute the variables of a
 problem that has not been evaluated yet

---
 metku/optimization/constraints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e1799c3..dd7d340 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -69,7 +69,7 @@ class Constraint:
                 optimization variable to X
             """
             
-            X = np.array([var.value for var in self.problem.vars])            
+            X = [var.value for var in self.problem.vars]
             x = np.asarray(x)
             
             """ If the new values deviate from the old values
@@ -78,7 +78,8 @@ class Constraint:
 
                 NOTE: X_TOL should be small
             """
-            if np.linalg.norm(X - x) > X_TOL:
+            if self.problem.X is None or None in X \
+                    or np.linalg.norm(np.array(X) - x) > X_TOL:
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
-- 
2.43.0


From cb0a14dda908515c74f58b07a968001d7fa0f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 082/262] fix: constraints and objective given to the
 constructor belong to the problem

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index a43a983..8d9a87e 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -88,9 +88,13 @@ class OptimizationProblem:
             self.__vars = []
         if constraints:
             self.cons = constraints
+            for con in self.cons:
+                con.problem = self
         else:
             self.cons = []
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction):
+            objective.problem = self
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
-- 
2.43.0


From 3dde8e287453c33d97de8a01b46bb99c4456bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 083/262] fix: add_variable and add_constraint add to the
 problem

---
 metku/optimization/structopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d9a87e..8f1b287 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -673,21 +673,21 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From c2fb8cae3b7e9e9a726c9822649754e0d560d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 084/262] fix: values and numbers of equality and inequality
 constraints

---
 metku/optimization/structopt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8f1b287..4ff6373 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -644,6 +644,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -657,6 +659,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
@@ -664,12 +668,14 @@ class OptimizationProblem:
     def nlincons(self):
         """ Number of nonlinear inequality constraints """
 
-        return len(self.vars)
+        return len([con for con in self.cons if
+                    isinstance(con, NonLinearConstraint) and con.type != "="])
 
     def nlineqcons(self):
         """ Number of nonlinear equality constraints """
 
-        return len(self.vars)
+        return len([con for con in self.cons if
+                    isinstance(con, NonLinearConstraint) and con.type == "="])
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-- 
2.43.0


From 72a8ab17a64bd3d5c79b30b86b123ee8856d7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 085/262] fix: the starting point is kept when variables are
 zero

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 4ff6373..d75bf15 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -752,7 +752,7 @@ class OptimizationProblem:
         #print(self.var_values())
         #if np.linalg.norm(self.var_values()-xvals) > 1e-9:
         # Save starting point
-        if not np.any(self.X):
+        if self.X is None:
             self.x0 = xvals.copy()
 
         # if np.any(self.X != xvals):
-- 
2.43.0


From f16059383c8b9d3f7cacb055ef52267124a0bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 086/262] fix: linearization of problems with locked or index
 variables or structural analysis

---
 metku/optimization/structopt.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index d75bf15..b22a334 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -344,9 +344,8 @@ class OptimizationProblem:
         :return:
         """
         #start = time.time()
-        x = np.asarray(x)
-
         self.substitute_variables(x)
+        x = self.X.copy()
 
         """ Evaluate objective function at x """
         fx = self.obj(x)
@@ -376,25 +375,25 @@ class OptimizationProblem:
         if self.grad is not None:
             df = self.grad(x)
                 
+        """ Positions of free variables among all variables """
+        free = [k for k, var in enumerate(self.all_vars) if not var.locked]
+
         for i, var in enumerate(self.vars):
-            prev_val = var.value
+            xh = x.copy()
             if isinstance(var, BinaryVariable):
                 h = 1
             elif isinstance(var, IndexVariable):
                 h = 1
-                if var.idx + h > var.ub:
+                if x[i] + h > var.ub:
                     h = -1
-                var.substitute(var.idx + h)
+                xh[i] += h
             else:
-                x[i] = var.value
                 """ Step length """
-                h = max(1e-6 * abs(prev_val), 1e-8)
-                if prev_val + h > var.ub:
+                h = max(1e-6 * abs(x[i]), 1e-8)
+                if x[i] + h > var.ub:
                     h *= -1
-                var.substitute(prev_val + h)
+                xh[i] += h
                 
-            """ Get variable values """
-            xh = [var.value for var in self.vars]
             #print(x,xh)
             if not isinstance(var,BinaryVariable) and np.linalg.norm(x-xh) == 0:
                 print("Linearize: error with variable substitution - too small step size.")
@@ -411,17 +410,17 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[free[i]]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
                 #a = self.eval_nonlin_cons(xh)
                 #A[:, i] = (a - b) / h
             A[:, i] = dg
-                
-            """ Substitute the original value x[i] to current variable """
-            var.substitute(prev_val)            
-            
+
+        """ Substitute the original values """
+        self.substitute_variables(x)
+
 
         #B = A @ x.T - b
         B = A.dot(x) - b
-- 
2.43.0


From 0a4ce1a9104675c09e91696559ef15256e447119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 087/262] fix: numerical gradients and MMA functions do not use
 np.float

---
 metku/optimization/opt_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..248afb2 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
-- 
2.43.0


From 4ef6ad27d778cb8fcb6d39963ecdc4d947eabf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 088/262] fix: Linearize calls NumGrad with its arguments

---
 metku/optimization/opt_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 248afb2..ce5ce65 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -193,10 +193,8 @@ def Linearize(fun, x, grad=None):
 
     b = fun(x)
 
-    if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+    if grad is None:
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From a778faf683b99770a477b7bc817f69659afc5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 089/262] fix: approximate problems copy the linear constraints

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b22a334..c403c15 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -467,7 +467,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(con)
+                Pconlin.add(copy.copy(con))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
@@ -517,7 +517,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(con)
+                Pmma.add(copy.copy(con))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-- 
2.43.0


From 634a13ab07f1d8a8bcc2ed82ca5b5d205809b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 090/262] fix: approximations of constraints use the variable
 values of the approximation point

---
 metku/optimization/constraints.py | 2 +-
 metku/optimization/structopt.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index dd7d340..bbc7835 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -224,7 +224,7 @@ class NonLinearConstraint(Constraint):
         
         if self.grad is None:
             # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            df = opt_funs.NumGrad(self,x)
         else:
             df = self.grad(x)
         
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index c403c15..471ed1c 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -471,7 +471,7 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
                 
@@ -521,7 +521,7 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
                 
-- 
2.43.0


From f5e94ebdde7a1d3b2a97787ee3f214a42df63bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 091/262] fix: exact penalty of equality and greater-than
 constraints

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 471ed1c..2e9e380 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -899,7 +899,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += abs(val)
+                    F += R*abs(val)
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is max(0,val)
@@ -909,7 +909,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                          min(0,val)
                     """
-                    F += R*min(0,val)
+                    F += R*max(0,-val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From b0efbdb0d52e39e19f101d50ec70c4dd6773d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 092/262] fix: exterior penalty uses the penalty factor and
 exponent for all constraints

---
 metku/optimization/structopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 2e9e380..812f535 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -939,7 +939,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += val**p
+                    F += R*abs(val)**p
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is square of max(0,val)
@@ -949,17 +949,17 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                         square of min(0,val)
                     """
-                    F += R*min(0,val)**2
+                    F += R*max(0,-val)**p
             
             
             for (i,var) in enumerate(self.vars):                
                 if var.lb > XLB:                    
                     #F += R*max(0,-1-x[i]/abs(var.lb))**2
-                    F += R*max(0,-x[i]+var.lb)**2
+                    F += R*max(0,-x[i]+var.lb)**p
                 
                 if var.ub < XUB:
                     #F += R*max(0,x[i]/abs(var.ub)-1)**2
-                    F += R*max(0,x[i]-var.ub)**2
+                    F += R*max(0,x[i]-var.ub)**p
             
             return F
         
-- 
2.43.0


From 3525d5496fcab601784419513aec52a4456a1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 093/262] fix: multiplier update of upper bounds

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 812f535..4c42311 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1094,7 +1094,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From 6dded1ffbcd847d9241152764e360da7f99ceaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 094/262] fix: initial value of index variable groups

---
 metku/optimization/variable_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variable_group.py b/metku/optimization/variable_group.py
index 4a3f5ca..655fb9e 100644
--- a/metku/optimization/variable_group.py
+++ b/metku/optimization/variable_group.py
@@ -44,7 +44,10 @@ class VariableGroup:
         if not self.attributes:
             self.attributes = [self.attribute]
         if self.value is None:
-            self.value = [0] * len(self.attributes)
+            if self.var_type == VariableTypeEnum.INDEX:
+                self.value = 0
+            else:
+                self.value = [0] * len(self.attributes)
 
         # Attribute check
         for attr in self.attributes:
-- 
2.43.0


From 529e52fb0d80e687cb6da9ccb4c99a6d8e700154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 095/262] fix: CONLIN and MMA approximations with locked
 variables or structural analysis

---
 metku/optimization/structopt.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 4c42311..f04bb8e 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -440,6 +440,22 @@ class OptimizationProblem:
         # print("Linearization took: ", end - start, " s")
         return A, B, df, fx
     
+    def free_linear_constraint(self, con):
+        """ Linear constraint 'con' written for the free variables only.
+            The contribution of the locked variables is moved to the right
+            hand side.
+        """
+        new_con = copy.copy(con)
+        free = [i for i, var in enumerate(self.all_vars) if not var.locked]
+        locked = [i for i, var in enumerate(self.all_vars) if var.locked]
+
+        new_con.a = con.a[free]
+        if locked:
+            b = con.b.value if isinstance(con.b, Variable) else con.b
+            new_con.b = b - sum(con.a[i]*self.all_vars[i].value for i in locked)
+
+        return new_con
+
     def conlin(self,x):
         """ Generates convex-linear approximation of the problem
             around point 'x'
@@ -467,10 +483,12 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(copy.copy(con))
+                Pconlin.add(self.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
+                conlin_con.fea_required = False
+                conlin_con.grad = None
                 gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
@@ -517,10 +535,12 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(copy.copy(con))
+                Pmma.add(self.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
+                mma_con.fea_required = False
+                mma_con.grad = None
                 gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
-- 
2.43.0


From 7d1e78bbb5fa137c894a43bceb0b85215262ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 096/262] fix: cross-section variables can be given a value

---
 metku/optimization/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 95d45d0..9f8bf34 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -428,7 +428,8 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target=target, profiles=profiles,
+                         value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From 77f8c5485f0c745852f1dda9f4fde8482b568c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 097/262] fix: constraints distinguish variable values by the
 tolerance of variable vectors

---
 metku/optimization/constants.py   | 2 +-
 metku/optimization/constraints.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/constants.py b/metku/optimization/constants.py
index c051886..68fe11d 100644
--- a/metku/optimization/constants.py
+++ b/metku/optimization/constants.py
@@ -12,7 +12,7 @@ INT_TOL = 1e-4
 """ Tolerance for discreteness violation of a discrete variable """
 DISC_TOL = 1e-3
 """ Tolerance for comparing variable vectors """
-X_TOL = 1e-10
+VAR_TOL = 1e-10
 
 """ Artificial variable upper and lower bounds """
 XUB = 1e8
diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index bbc7835..dc6a9a4 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -8,7 +8,7 @@ Created on Thu Oct  6 15:14:17 2022
 import numpy as np
 from collections.abc import Iterable
 
-from metku.optimization.constants import X_TOL, POT_ACT_TOL
+from metku.optimization.constants import VAR_TOL, POT_ACT_TOL
 from metku.optimization.variables import Variable, IndexVariable
 import metku.optimization.opt_functions as opt_funs
 
@@ -73,13 +73,13 @@ class Constraint:
             x = np.asarray(x)
             
             """ If the new values deviate from the old values
-                in terms of L2 norm by more than X_TOL, substitute
+                in terms of L2 norm by more than VAR_TOL, substitute
                 new values.
 
-                NOTE: X_TOL should be small
+                NOTE: VAR_TOL should be small
             """
             if self.problem.X is None or None in X \
-                    or np.linalg.norm(np.array(X) - x) > X_TOL:
+                    or np.linalg.norm(np.array(X) - x) > VAR_TOL:
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
-- 
2.43.0


From a1ba4968d563747790fe9af5ce28741087cd9d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 098/262] fix: allowed values of continuous, integer and
 discrete variables in branch and bound

---
 metku/optimization/variables.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 9f8bf34..830682c 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -205,6 +205,11 @@ class Variable:
                     else:
                         obj.__setattr__(prop, new_value * self.scaling)
 
+    def is_allowed_value(self, x):
+        """ Check if 'x' is within the range of the variable """
+
+        return self.lb - INT_TOL <= x <= self.ub + INT_TOL
+
     def discrete_violation(self, x):
         """ Identify the violation of value 'x' from allowable (Discrete)
             value. Returns 0 for continuous variables
@@ -238,7 +243,7 @@ class IntegerVariable(Variable):
     def is_allowed_value(self, x):
         """ Check if 'x' is an integer within the range of the variable """
 
-        if self.lb <= x <= self.ub:
+        if self.lb - INT_TOL <= x <= self.ub + INT_TOL:
             """ If x is within INT_TOL of its rounded integer value,
                 it is deemed integer
             """
@@ -259,6 +264,16 @@ class IntegerVariable(Variable):
 
         return violation
 
+    def smaller_discrete_value(self, x):
+        """ Returns integer smaller than 'x' and closest to it  """
+
+        return math.ceil(x) - 1
+
+    def larger_discrete_value(self, x):
+        """ Returns integer larger than 'x' and closest to it  """
+
+        return math.floor(x) + 1
+
 
 class BooleanVariable(IntegerVariable):
     """ Class for boolean variables
@@ -382,11 +397,11 @@ class DiscreteVariable(Variable):
             self.values
         """
 
-        if self.lb <= x <= self.ub:
-            """ If x is within INT_TOL of any of the allowed values,
+        if self.lb - DISC_TOL <= x <= self.ub + DISC_TOL:
+            """ If x is within DISC_TOL of any of the allowed values,
                 it is deemed allowed
             """
-            if min([abs(val - x) for val in self.values]) < INT_TOL:
+            if min([abs(val - x) for val in self.values]) <= DISC_TOL:
                 return True
 
             """
-- 
2.43.0


From 4efa64db4ec5355555f2f217a2c82089941aa697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 099/262] fix: discrete neighbourhood of problems with
 continuous variables

---
 metku/optimization/structopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f04bb8e..2f543bf 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -895,6 +895,9 @@ class OptimizationProblem:
                     neighborhood.append(new_values)
                     #var.lb = min(new_values)
                     #var.ub = max(new_values)
+                else:
+                    """ Continuous variables keep their value """
+                    neighborhood.append([x[i]])
                 
         
         """
-- 
2.43.0


From d8fee0beab5be7ae5b33cb3ec27145b4c9a0d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 100/262] fix: a solver that has solved another problem starts
 without its results

---
 metku/optimization/solvers/optsolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..aaa0597 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -212,6 +212,12 @@ class OptSolver:
 
         # Assign problem
         self.problem = problem
+        # Results of an earlier problem are not valid for this one
+        self.best_f = np.inf
+        self.best_x = None
+        self.feasible = False
+        self.fvals = []
+        self.xvals = []
         # If initial starting point is/isn't defined        
         if x0 is not None:
             self.X = np.asarray(x0, dtype=float)
-- 
2.43.0


From 90b453ad86de7f65077e362561dbcdf6eadd080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 101/262] fix: iterative solvers tell whether a feasible
 solution was found

---
 metku/optimization/solvers/optsolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index aaa0597..cf35ab7 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -293,6 +293,7 @@ class OptSolver:
             if fval < self.best_f and state_feasible:
                 self.best_f = fval
                 self.best_x = state.copy()
+                self.feasible = True
                 # if verb:
                 #     #print(self.best_x)
                 #     if len(state) <= 10:
-- 
2.43.0


From 5490d7b044942b72947c21a3d8e013345c2ef47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 102/262] fix: SLP with equality and greater-than constraints

---
 metku/optimization/solvers/slp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..0571dfd 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -90,10 +90,12 @@ class SLP(OptSolver):
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
         for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            slack = beta if self.include_beta else 0
+            if self.problem.cons[i].type != '>':
+                solver.Add(lhs <= B[i] + slack)
+            if self.problem.cons[i].type != '<':
+                solver.Add(lhs >= B[i] - slack)
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From e4a9ceeb115d01bfe31cec47427bcb75c9762535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 103/262] fix: iteration history keeps the points of earlier
 iterations

---
 metku/optimization/solvers/optsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index cf35ab7..b335d34 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -310,7 +310,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From 0924f83128d8c4e3faba870c6c1744921910a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 104/262] fix: linear programming with locked variables and
 infeasible problems

---
 metku/optimization/solvers/lp.py | 46 ++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index ce9e3c6..6ebefae 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -47,6 +47,9 @@ class LP(OptSolver):
             from ortools.linear_solver import pywraplp
             lp = pywraplp.Solver.CreateSolver('GLOP')
                 
+        """ Objective function coefficients of the free variables """
+        c = [ci for ci, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
+
         x = []
         for var in problem.vars:
             """
@@ -64,19 +67,21 @@ class LP(OptSolver):
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MINIMIZE
             else:
-                lp.Minimize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Minimize(lp.Sum(C * X for C, X in zip(c,x)))
         else:
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MAXIMIZE
             else:
-                lp.Maximize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Maximize(lp.Sum(C * X for C, X in zip(c,x)))
         
         if self.algo == "gurobi":
-            lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+            lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
             
         # Generate constraints
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                con = problem.free_linear_constraint(con)
+                b = con.b.value if isinstance(con.b,sopt.Variable) else con.b
                 if self.algo == "gurobi":
                     if con.type == '<':
                         con_sense = grb.GRB.LESS_EQUAL
@@ -90,16 +95,16 @@ class LP(OptSolver):
                         con_sense = grb.GRB.EQUAL
                                 #lp.addConstr(grb.quicksum([con.a[j]*x[j] for j in range(nvars)]) = con.b[i])
                     
-                    lp.addLConstr(grb.LinExpr(con.a, x), con_sense, con.b)
+                    lp.addLConstr(grb.LinExpr(con.a, x), con_sense, b)
                 else:
                     lhs = lp.Sum(A * X for A, X in zip(con.a,x))
             
                     if con.type == '<':
-                        lp.Add(lhs <= con.b)
+                        lp.Add(lhs <= b)
                     elif con.type == '>':
-                        lp.Add(lhs >= con.b)
+                        lp.Add(lhs >= b)
                     else:
-                        lp.Add(lhs == con.b)
+                        lp.Add(lhs == b)
         
         if self.algo == "gurobi":
             lp.update()                
@@ -114,15 +119,12 @@ class LP(OptSolver):
                     #qp.update()
             lp.optimize()
                     
-            if lp.Status == grb.GRB.OPTIMAL:
-                self.feasible = True
-            elif lp.Status == grb.GRB.INFEASIBLE:
-                self.feasible = False
-                    
             X = []
-            for v in lp.getVars():
-                #print('%s %g' % (v.varName, v.x))                    
-                X.append(v.x)
+            self.feasible = lp.Status == grb.GRB.OPTIMAL
+            if self.feasible:
+                for v in lp.getVars():
+                    #print('%s %g' % (v.varName, v.x))
+                    X.append(v.x)
             
             # bounds = [x*self.move_limits for x in self.X]
             #
@@ -131,12 +133,22 @@ class LP(OptSolver):
             status = lp.Solve()
             
             X = []
-            if status == lp.OPTIMAL:
+            self.feasible = status == lp.OPTIMAL
+            if self.feasible:
                 for v in lp.variables():
                     X.append(v.solution_value())    
 
         self.X = X
-        #return X
+        self.best_x = None
+        self.best_f = np.inf
+        if self.feasible:
+            self.best_x = np.array(X)
+            c_locked = [ci*var.value for ci, var in zip(problem.obj.c,problem.all_vars) if var.locked]
+            self.best_f = np.dot(c,self.best_x) + sum(c_locked)
+            if problem.obj.obj_type != "MIN":
+                self.best_f *= -1
+
+        return self.best_f, self.best_x
 
 def Arora_Ex62():
     x1 = sopt.Variable('x1',0,1e4)
-- 
2.43.0


From 60c45c586a15d0855f0fd1adfa44b335c891ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 105/262] fix: mixed-integer linear programming with integer,
 index and locked variables and infeasible problems

---
 metku/optimization/solvers/milp.py | 35 ++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/metku/optimization/solvers/milp.py b/metku/optimization/solvers/milp.py
index 3876e4d..eabb77f 100644
--- a/metku/optimization/solvers/milp.py
+++ b/metku/optimization/solvers/milp.py
@@ -40,6 +40,9 @@ class MILP(OptSolver):
         lp = grb.Model("milp")
         
                 
+        """ Objective function coefficients of the free variables """
+        c = [ci for ci, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
+
         x = []
         for var in problem.vars:
             """
@@ -48,6 +51,8 @@ class MILP(OptSolver):
             """
             if isinstance(var,sopt.BinaryVariable):
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.BINARY,name=var.name))
+            elif isinstance(var,(sopt.IntegerVariable,sopt.IndexVariable)):
+                x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.INTEGER,name=var.name))
             else:
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.CONTINUOUS,name=var.name))
                 
@@ -58,11 +63,13 @@ class MILP(OptSolver):
         else:
             obj_sense = grb.GRB.MAXIMIZE
         
-        lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+        lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
         
         
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                con = problem.free_linear_constraint(con)
+                b = con.b.value if isinstance(con.b,sopt.Variable) else con.b
                 if con.type == '<':
                     con_sense = grb.GRB.LESS_EQUAL
                             #lp.addLConstr(LinExpr(con.a, x), grb.GRB.LESS_EQUAL, con.b)
@@ -75,7 +82,7 @@ class MILP(OptSolver):
                     con_sense = grb.GRB.EQUAL
                             #lp.addConstr(grb.quicksum([con.a[j]*x[j] for j in range(nvars)]) = con.b[i])
                 
-                lp.addLConstr(grb.LinExpr(con.a, x), con_sense, con.b)
+                lp.addLConstr(grb.LinExpr(con.a, x), con_sense, b)
                 
 
         lp.update()                
@@ -90,19 +97,25 @@ class MILP(OptSolver):
                 #qp.update()
         lp.optimize()
                 
-        if lp.Status == grb.GRB.OPTIMAL:
-            self.feasible = True
-        elif lp.Status == grb.GRB.INFEASIBLE:
-            self.feasible = False
-                
         X = []
-        for v in lp.getVars():
-            #print('%s %g' % (v.varName, v.x))                    
-            X.append(v.x)
+        self.feasible = lp.Status == grb.GRB.OPTIMAL
+        if self.feasible:
+            for v in lp.getVars():
+                #print('%s %g' % (v.varName, v.x))
+                X.append(v.x)
         
         # bounds = [x*self.move_limits for x in self.X]
         #
         # res = linprog(df, A, B, bounds=bounds)
 
         self.X = X
-        #return X
\ No newline at end of file
+        self.best_x = None
+        self.best_f = np.inf
+        if self.feasible:
+            self.best_x = np.array(X)
+            c_locked = [ci*var.value for ci, var in zip(problem.obj.c,problem.all_vars) if var.locked]
+            self.best_f = np.dot(c,self.best_x) + sum(c_locked)
+            if problem.obj.obj_type != "MIN":
+                self.best_f *= -1
+
+        return self.best_f, self.best_x
\ No newline at end of file
-- 
2.43.0


From 4aa8de75f7731ee78b6e80b9e19e50d11cb11e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 106/262] fix: mixed-integer sequential linear programming with
 integer variables, greater-than constraints and values with more than three
 decimals

---
 metku/optimization/solvers/mislp.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..9f8c6e5 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -8,7 +8,7 @@ import numpy as np
 from ortools.linear_solver import pywraplp
 
 from metku.optimization.solvers.optsolver import OptSolver
-from metku.optimization.variables import DiscreteVariable, BinaryVariable
+from metku.optimization.variables import DiscreteVariable, BinaryVariable, IntegerVariable, IndexVariable
 
 class MISLP(OptSolver):
 
@@ -99,6 +99,15 @@ class MISLP(OptSolver):
                 ub = min(var.value + ub, var.ub)
 
                 name = str(var.name) + str(i)
+                if isinstance(var,(IntegerVariable,IndexVariable)):
+                    """ Integers within the move limits, at least the
+                        neighboring ones
+                    """
+                    lb = max(min(np.ceil(lb), var.value - 1), var.lb)
+                    ub = min(max(np.floor(ub), var.value + 1), var.ub)
+                    x[i] = CBC_solver.IntVar(float(lb),float(ub),name)
+                    continue
+
                 x[i] = CBC_solver.NumVar(float(lb),float(ub),name)
                     
         
@@ -113,6 +122,9 @@ class MISLP(OptSolver):
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
         
         if not self.binary_vars_exist:
             # Create binary variables
@@ -173,7 +185,13 @@ class MISLP(OptSolver):
         # for i in discrete_ids:
         #     print(int(X[i]))
         #     X[i] = discrete_vars[i].values[int(X[i])]
-        X = np.asarray([round(var.solution_value(), 3) for var in x.values()])
+        X = np.asarray([var.solution_value() for var in x.values()])
+        """ Remove the round-off errors of the discrete variables """
+        for i, var in enumerate(self.problem.vars):
+            if isinstance(var,DiscreteVariable):
+                X[i] = min(var.values, key=lambda val: abs(val - X[i]))
+            elif isinstance(var,(IntegerVariable,IndexVariable)):
+                X[i] = round(X[i])
         return X - self.X
 
     def step(self, action):
-- 
2.43.0


From 470e16bba50fda91e28c5dee3aef4b2df3063cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 107/262] fix: branch and bound lower bound with fixed
 variables and without a starting point

---
 metku/optimization/solvers/bnb.py | 59 ++++++++++++++++---------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..fc9973a 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -362,53 +362,54 @@ class BnB(OptSolver):
             If problem is infeasible, the node can be fathomed.
             If the problem is feasible, update the lower bound and set xR
         """
-        nvars = self.problem.nvars()
+        node_vars = self.problem.vars
+        x_node = None if x0 is None else np.array(x0, dtype=float)
         locked_vars = []
         locked_nd = []
-        for i,var in enumerate(self.problem.vars):
+        for i,var in enumerate(node_vars):
             if abs(var.ub-var.lb) < 1e-6:
                 var.lock(var.ub)
                 locked_vars.append(var)
                 locked_nd.append(i)
 
-        if len(locked_nd) > 1:
-            locked_nd.reverse()
-        
-        for n in locked_nd:
-            x0 = np.delete(x0,n)        
-    
-        print('x0 = ',x0)
-    
-        if x0 is not None:
-            flb, xlb = self.lb_solver.solve(self.problem,x0=x0,verb=True)
+        if x_node is not None:
+            x_node = np.delete(x_node,locked_nd)
+
+        print('x0 = ',x_node)
+
+        if len(locked_vars) == len(node_vars):
+            """ All variables are fixed in this node: only one point remains """
+            flb, xlb = self.problem.obj([]), []
+            self.constr_vals = self.problem.eval_cons([])
+            feasible = self.is_feasible()
         else:
-            flb, xlb = self.lb_solver.solve(self.problem)
+            if x_node is not None and not isinstance(self.lb_solver,LP):
+                flb, xlb = self.lb_solver.solve(self.problem,x0=x_node,verb=True)
+            else:
+                flb, xlb = self.lb_solver.solve(self.problem)
+            feasible = self.lb_solver.feasible
 
         print('xlb = ',xlb)
 
-        xnew = np.zeros(nvars)
-        
-        i = 0
-        for j, var in enumerate(self.problem.all_vars):
-            if var.locked:
-                xnew[j] = var.value
-            else:
-                xnew[j] = xlb[i]
-                i +=1
+        if feasible:
+            xnew = np.zeros(len(node_vars))
+
+            i = 0
+            for j, var in enumerate(node_vars):
+                if var.locked:
+                    xnew[j] = var.value
+                else:
+                    xnew[j] = xlb[i]
+                    i +=1
 
-        #print(self.lb_solver.result)
-        if self.lb_solver.result.success == True:
-            self.tree[node.identifier].data.lb = flb
-            self.tree[node.identifier].data.xR = xnew   
-        elif self.lb_solver.feasible:
             self.tree[node.identifier].data.lb = flb
             self.tree[node.identifier].data.xR = xnew
-            
+
         """ unlock variables at their bounds in this node """
         for var in locked_vars:
             var.unlock()
         
-        return self.lb_solver.feasible
+        return feasible
         
     
     def upper_bound(self,node):
-- 
2.43.0


From 7b397baa69d6824c1cb6e8a4d94c3111c1f133e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 108/262] fix: branch and bound accepts solutions by constraint
 type and with allowed values only

---
 metku/optimization/solvers/bnb.py | 41 ++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index fc9973a..b60d022 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -414,14 +414,17 @@ class BnB(OptSolver):
     
     def upper_bound(self,node):
         """ Try to find feasible solution using a heuristic etc. """
+        """ The neighboring points can be outside the bounds of the node,
+            so they are evaluated using the original bounds.
+        """
+        node_bounds = self.problem.var_bounds()
+        self.set_variable_bounds()
         N = self.problem.discrete_neighborhood(node.data.xR, k=2)
         f0 = deepcopy(self.best_f)
         f_new = None        
         for xi in N:
             
-            gxi = self.problem.eval_cons(xi)            
-            
-            if all(gxi<=self.problem.con_tol):
+            if self.is_feasible(xi):
                 #print("Upper bounding found feasible solution")
                 #print(self.problem.eval_cons(xi))
                 """ Feasible point found """
@@ -436,6 +439,10 @@ class BnB(OptSolver):
                     
                     self.best_f = f_new
                     self.best_x = list(xi)
+
+        for var, lb, ub in zip(self.problem.vars,*node_bounds):
+            var.lb = lb
+            var.ub = ub
         
         #if f_new is not None and fnew < f0:
         #    """ Feasible solution was improved so all nodes with
@@ -464,6 +471,27 @@ class BnB(OptSolver):
         return res
         
             
+    def set_discrete_values(self,node):
+        """ Removes the round-off errors from the discrete variables of the
+            best solution found at the relaxation of the given node.
+        """
+        x = np.array(node.xR)
+        for i, var in enumerate(self.problem.vars):
+            if isinstance(var,DiscreteVariable):
+                x[i] = min(var.values, key=lambda val: abs(val - x[i]))
+            elif isinstance(var,IntegerVariable):
+                x[i] = round(x[i])
+
+        node_bounds = self.problem.var_bounds()
+        self.set_variable_bounds()
+        if self.is_feasible(x):
+            self.best_x = x
+            self.best_f = self.problem.obj(x)
+
+        for var, lb, ub in zip(self.problem.vars,*node_bounds):
+            var.lb = lb
+            var.ub = ub
+
     def branch(self,node,strategy='max_int_violation'):
         """ Branching of a node """
                 
@@ -697,6 +725,7 @@ class BnB(OptSolver):
                             if node.data.lb < self.best_f:
                                 self.best_f = node.data.lb
                                 self.best_x = node.data.xR
+                                self.set_discrete_values(node.data)
                             
                             self.remove_node(node.identifier)
                         else:
@@ -721,5 +750,9 @@ class BnB(OptSolver):
         
         # Wrap up: set original variable bounds
         self.set_variable_bounds()
-    
+
+        self.feasible = self.best_x is not None
+        if self.feasible:
+            self.X = np.array(self.best_x)
+
         return self.best_f, self.best_x
\ No newline at end of file
-- 
2.43.0


From 98846fe661131b83d70f3e3716a8ed34e9945a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 109/262] fix: branch and bound bounds tightening for all
 constraint types, locked variables and discrete values

---
 metku/optimization/solvers/bnb.py | 71 ++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index b60d022..466cc75 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -28,6 +28,8 @@ from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
 from metku.optimization.variables import Variable, DiscreteVariable, BinaryVariable, IntegerVariable
 
 CON_TOL = 1e-4
+""" Relative tolerance for tightening the variable bounds """
+BOUND_TOL = 1e-6
 
 # A class that represents an individual node in a 
 # Binary Tree 
@@ -556,27 +558,43 @@ class BnB(OptSolver):
         """ Do bounds tightening for linear constraints """
         for con in self.problem.cons:
             if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
-                #axL = con.a*xlb
-                for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
+                con = self.problem.free_linear_constraint(con)
+                con_b = con.b.value if isinstance(con.b,Variable) else con.b
+                """ Write the constraint as a*x <= b """
+                rows = []
+                if con.type != '>':
+                    rows.append((con.a,con_b))
+                if con.type != '<':
+                    rows.append((-con.a,-con_b))
+
+                for a, b in rows:
+                    ax_min = np.minimum(a*np.array(xub),a*np.array(xlb))
+                    for i, var in enumerate(self.problem.vars):
+                        if abs(a[i]) <= 1e-9:
+                            continue
+
                         """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
-                        var.ub = min(var.ub,bnd)
-                        
-                        if isinstance(var,IntegerVariable):
-                            var.ub = np.floor(var.ub)
-                        elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
-                        var.lb = max(var.lb,bnd)
-                
-                        if isinstance(var,IntegerVariable):
-                            var.lb = np.ceil(var.lb)
-                        elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
-        
+                        bnd = 1/a[i]*(b-(sum(ax_min)-ax_min[i]))
+                        tol = BOUND_TOL*max(1,abs(bnd))
+                        if a[i] > 0:
+                            if isinstance(var,IntegerVariable):
+                                bnd = np.floor(bnd + tol)
+                            elif isinstance(var,DiscreteVariable):
+                                bnd = max([val for val in var.values if val <= bnd + tol],
+                                          default=min(var.values)-1)
+                            else:
+                                bnd += tol
+                            var.ub = min(var.ub,bnd)
+                        else:
+                            if isinstance(var,IntegerVariable):
+                                bnd = np.ceil(bnd - tol)
+                            elif isinstance(var,DiscreteVariable):
+                                bnd = min([val for val in var.values if val >= bnd - tol],
+                                          default=max(var.values)+1)
+                            else:
+                                bnd -= tol
+                            var.lb = max(var.lb,bnd)
+
         xlb, xub = self.problem.var_bounds()
         #print(xlb,xub)
     
@@ -601,7 +619,10 @@ class BnB(OptSolver):
             
             for con in self.problem.cons:            
                 if isinstance(con,LinearConstraint):
-                    LPprob.add(con)
+                    """ The constraint of the problem itself must not be
+                        changed, so a copy is added to the linear problem
+                    """
+                    LPprob.add(self.problem.free_linear_constraint(con))
             
             
             solver = LP("gurobi")
@@ -611,10 +632,10 @@ class BnB(OptSolver):
             #LPprob(solver.X)
             if solver.feasible == True: 
                 #print("Upper bounding problem feasible.")                   
-                if solver.X[i] > self.problem.vars[i].lb:
+                if solver.X[i] > self.problem.vars[i].lb + BOUND_TOL*max(1,abs(solver.X[i])):
                     print("Increasing lower bound of {0:s}".format(self.problem.vars[i].name))
                     print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
-                    self.problem.vars[i].lb = solver.X[i]
+                    self.problem.vars[i].lb = solver.X[i] - BOUND_TOL*max(1,abs(solver.X[i]))
             
             
             #print(solver.X)
@@ -625,10 +646,10 @@ class BnB(OptSolver):
             
             if solver.feasible == True:        
                 #print("Lower bounding problem feasible.")
-                if solver.X[i] < self.problem.vars[i].ub:
+                if solver.X[i] < self.problem.vars[i].ub - BOUND_TOL*max(1,abs(solver.X[i])):
                     print("Lowering upper bound of {0:s}".format(self.problem.vars[i].name))
                     print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
-                    self.problem.vars[i].ub = solver.X[i]
+                    self.problem.vars[i].ub = solver.X[i] + BOUND_TOL*max(1,abs(solver.X[i]))
                     
             #print(solver.X)
             
-- 
2.43.0


From e30a86998af862cc97cc5c9f6cb2cf8cac8a8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 110/262] fix: COBYLA respects variable bounds and returns the
 solution in the form of the other solvers

---
 metku/optimization/solvers/slsqp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/slsqp.py b/metku/optimization/solvers/slsqp.py
index a60828a..e72e2e4 100644
--- a/metku/optimization/solvers/slsqp.py
+++ b/metku/optimization/solvers/slsqp.py
@@ -187,6 +187,7 @@ class COBYLA(SLSQP):
             x0 = []
             for var in problem.vars:
                 x0.append(var.ub)
+        problem.substitute_variables(x0)
 
         options = {'maxiter': maxiter,
                    'disp': True,
@@ -205,10 +206,16 @@ class COBYLA(SLSQP):
         out = minimize(self.problem.obj,
                        x0,
                        method='COBYLA',
+                       bounds=self._create_bounds(),
                        constraints=constraints,
                        options=options)
         # print(out)
-        return out
+        self.feasible = bool(out.success)
+        self.result = out
+        self.best_x = out.x
+        self.best_f = out.fun
+        self.X = out.x
+        return self.best_f, self.best_x
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 1a1b501af213e59eff560a464e06d5ef76e0247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 111/262] fix: trust region solver with linear constraints and
 locked variables

---
 metku/optimization/solvers/trust_region.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/trust_region.py b/metku/optimization/solvers/trust_region.py
index 20543fa..4f0a8d7 100644
--- a/metku/optimization/solvers/trust_region.py
+++ b/metku/optimization/solvers/trust_region.py
@@ -131,15 +131,17 @@ class TrustRegionConstr(OptSolver):
                     ))
             else:
             #elif isinstance(con,sopt.LinearConstraint):
+                con = problem.free_linear_constraint(con)
+                b = con.b.value if isinstance(con.b,sopt.Variable) else con.b
                 lb = -np.inf
                 ub = np.inf
                 if con.type == "<" or con.type == "<=":                
-                    ub = con.b
+                    ub = b
                 elif con.type == ">" or con.type == ">=":
-                    lb = con.b
+                    lb = b
                 elif con.type == "=":
-                    lb = con.b
-                    ub = con.b
+                    lb = b
+                    ub = b
                                     
                 
                 constraints.append(LinCon(con.a,lb,ub))
-- 
2.43.0


From 5af29cd67d95946e57d28d3c1f29920489e14af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 112/262] fix: MMA with negative lower asymptotes, locked
 variables and without logging

---
 metku/optimization/solvers/mma.py       | 4 ++--
 metku/optimization/solvers/optsolver.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..5a19764 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
@@ -74,7 +74,7 @@ class MMAProblem(OptimizationProblem):
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
                 # Linear constraints are simply added
-                self.add(con)
+                self.add(P.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index b335d34..30ed388 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -310,7 +310,8 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X.copy())
+            # The iterates are needed by some of the methods
+            self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From 46620280fd0773e2f33811174beefee96abe7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 113/262] fix: particle swarm rounds every variable to its own
 allowed values and tells whether a feasible solution was found

---
 metku/optimization/solvers/pso.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index 56fc7d9..1e4663f 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -15,6 +15,7 @@ from deap import base, creator, tools
 
 
 from metku.optimization.solvers.optsolver import OptSolver, G_TOL
+from metku.optimization.variables import DiscreteVariable, IndexVariable, IntegerVariable
 
 
 class PSO(OptSolver):
@@ -316,7 +317,7 @@ class PSO(OptSolver):
             if self.counter > self.NMAX:
                 print(f"The result has not improved in the last 10 generations."
                       f"\n Returning current best values.")
-                return self.best_f, self.best_x
+                break
 
             if self.inertia_cnt > self.KMAX:
                 print("Reduce inertia and max velocity")
@@ -338,6 +339,9 @@ class PSO(OptSolver):
         # print("XOPT: ", xopt)
         # fopt = fits[best_idx]
 
+        self.feasible = bool(self.best_scv <= G_TOL)
+        self.X = np.array(self.best_x)
+
         return self.best_f, self.best_x
 
 class Particle:
@@ -385,14 +389,14 @@ class Particle:
         # (Perhaps the velocity should be changed instead?)
 
         self.x = np.minimum(np.maximum(xnew,xlb),xub)
-        type_of_problem = problem.type_of_vars()
 
-        if type_of_problem == "DiscreteVariable":
-            possible_values = problem.vars[0].values
-            # Round values
-            self.x = np.array([min(possible_values, key=lambda x: abs(x - var))
-                      for var in self.x])
-    
+        # Round discrete and integer variables to their allowed values
+        for i, var in enumerate(problem.vars):
+            if isinstance(var, DiscreteVariable):
+                self.x[i] = min(var.values, key=lambda val: abs(val - self.x[i]))
+            elif isinstance(var, (IntegerVariable, IndexVariable)):
+                self.x[i] = round(self.x[i])
+
     def update_best(self):
         """ Updates the best value found so far """
         self.best_scv = copy.deepcopy(self.scv)
-- 
2.43.0


From e3987a8931697b75d255c22f436122abd6d92e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 114/262] fix: genetic algorithm with discrete values, locked
 variables and all constraint types

---
 metku/optimization/solvers/ga.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index e5d1cff..c69fcd8 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -108,12 +108,22 @@ class GA(OptSolver):
         :return: objective value of optimization problem
         """
         self.problem.substitute_variables(ind)
-        X = [round(var.value, 3) for var in self.problem.vars]
+        X = []
+        for var in self.problem.vars:
+            if isinstance(var, DiscreteVariable):
+                X.append(min(var.values, key=lambda val: abs(val - var.value)))
+            elif isinstance(var, (IndexVariable, IntegerVariable)):
+                X.append(round(var.value))
+            else:
+                X.append(var.value)
 
         """ Evaluate objective function """
         obj_val = self.problem.obj(X)
         """ Evaluate constraints """
         constr_vals = self.problem.eval_cons(X)
+        """ The penalty is applied on constraint violation """
+        constr_vals = [-g if con.type == '>' else abs(g) if con.type == '=' else g
+                       for g, con in zip(constr_vals, self.problem.cons)]
         """ Apply penalty on constraints """
         penalty_val = self.penalty(constr_vals)
 
@@ -130,9 +140,10 @@ class GA(OptSolver):
                 ind[i] = x
             self.best_ind = ind
             self.prev_best = self.best_f
-            best_x = [var.value for var in self.problem.all_vars]
-            self.best_x = best_x.copy()
+            self.best_x = X.copy()
             self.best_f = val
+            self.X = np.array(X)
+            self.feasible = self.is_feasible(X)
             self.counter = 0
 
         # NOTE! Need to return at least two values, hence the comma
@@ -165,7 +176,7 @@ class GA(OptSolver):
         if self.x0 is not None:
             val = self.x0[idx]
         elif isinstance(var, (IndexVariable, IntegerVariable)):
-            val = np.random.randint(var.lb, var.ub)
+            val = np.random.randint(var.lb, var.ub + 1)
 
         else:
             val = np.random.uniform(var.lb, var.ub)
-- 
2.43.0


From 3097029406a2af6b4a1c4d6e5c1afa8879dc4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 115/262] fix: branch and bound continues when the rounded
 solution of a relaxation is infeasible

---
 metku/optimization/solvers/bnb.py | 52 +++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 466cc75..45c9d46 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -473,9 +473,11 @@ class BnB(OptSolver):
         return res
         
             
-    def set_discrete_values(self,node):
-        """ Removes the round-off errors from the discrete variables of the
-            best solution found at the relaxation of the given node.
+    def accept_relaxation(self,node):
+        """ Uses the solution of the relaxation, with the round-off errors of
+            the discrete variables removed, as the incumbent if it is better.
+
+            returns: True, if the point is feasible
         """
         x = np.array(node.xR)
         for i, var in enumerate(self.problem.vars):
@@ -486,14 +488,19 @@ class BnB(OptSolver):
 
         node_bounds = self.problem.var_bounds()
         self.set_variable_bounds()
-        if self.is_feasible(x):
-            self.best_x = x
-            self.best_f = self.problem.obj(x)
+        feasible = self.is_feasible(x)
+        if feasible:
+            fx = self.problem.obj(x)
+            if fx < self.best_f:
+                self.best_f = fx
+                self.best_x = x
 
         for var, lb, ub in zip(self.problem.vars,*node_bounds):
             var.lb = lb
             var.ub = ub
 
+        return feasible
+
     def branch(self,node,strategy='max_int_violation'):
         """ Branching of a node """
                 
@@ -522,6 +529,27 @@ class BnB(OptSolver):
                         branching_var = var                    
                         xr = xR[i] 
         
+        if branching_var is None:
+            """ All variables are within the tolerance of their allowed
+                values: use the one that is farthest from them
+            """
+            max_violation = 1e-9
+            for i, var in enumerate(self.problem.vars):
+                if isinstance(var,DiscreteVariable):
+                    violation_i = min([abs(val - xR[i]) for val in var.values])
+                elif isinstance(var,IntegerVariable):
+                    violation_i = abs(xR[i] - round(xR[i]))
+                else:
+                    violation_i = 0
+
+                if violation_i > max_violation:
+                    max_violation = violation_i
+                    branching_var = var
+                    xr = xR[i]
+
+        if branching_var is None:
+            return False
+
         var_ndx = self.problem.vars.index(branching_var)
         
         """ Create branching values """
@@ -545,6 +573,8 @@ class BnB(OptSolver):
 
         self.add_node(new_node1,tag1,id1,parent=node)
         self.add_node(new_node2,tag2,id2,parent=node)
+
+        return True
         
         #self.tree.show()
         
@@ -736,18 +766,13 @@ class BnB(OptSolver):
                         # Here, the relaxation is feasible
                         
                             
-                        if all(disc):
+                        if all(disc) and self.accept_relaxation(node.data):
                             """ If all discrete variables have discrete values                    
                                 in the solution xR, the node can be fathomed
                                 If the node provides an improvement to the
                                 best known solution, make it as the incumbent.
                             """
                             print("All discrete variables at allowed values!")
-                            if node.data.lb < self.best_f:
-                                self.best_f = node.data.lb
-                                self.best_x = node.data.xR
-                                self.set_discrete_values(node.data)
-                            
                             self.remove_node(node.identifier)
                         else:
                             """ In this case, some of the discrete variables
@@ -755,7 +780,8 @@ class BnB(OptSolver):
                                 Then, the node is branched.
                             """
                             print("Branching")
-                            self.branch(node)                    
+                            if not self.branch(node):
+                                self.remove_node(node.identifier)
                 
                 else:
                     print("Lower bounding problem is infeasible.")
-- 
2.43.0


From 0663c9f68cbd6724bd9fa1a0c7c7fc76a1295eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 116/262] fix: linearization at a point whose values are all
 integers

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 2f543bf..4e2959e 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -345,7 +345,7 @@ class OptimizationProblem:
         """
         #start = time.time()
         self.substitute_variables(x)
-        x = self.X.copy()
+        x = np.array(self.X, dtype=float)
 
         """ Evaluate objective function at x """
         fx = self.obj(x)
-- 
2.43.0


From 5263cd1fcc9bc43c38da904d36d30de43fff8842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 117/262] fix: MMA: convex approximation of greater-than
 constraints and limit of the lower asymptote

---
 metku/optimization/solvers/mma.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 5a19764..0e06940 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -80,7 +80,13 @@ class MMAProblem(OptimizationProblem):
                 mma_con = copy(con)
                 gx = con(x)
                 dgx = con.df(x)
-                mma_con.con = mma_fun(x, gx, dgx, L, U)
+                if con.type == '>':
+                    # The approximation is convex: for constraints g(x) >= 0
+                    # it is made for the function -g(x)
+                    neg_fun = mma_fun(x, -gx, -dgx, L, U)
+                    mma_con.con = lambda X, fun=neg_fun: -fun(X)
+                else:
+                    mma_con.con = mma_fun(x, gx, dgx, L, U)
                 mma_con.fea_required = False
 
                 self.add(mma_con)
@@ -137,7 +143,7 @@ class MMA(OptSolver):
             Lnew = xk - g * (xk1 - self.L[-1])
             Unew = xk + g * (self.U[-1] - xk1)
 
-        Lnew = np.minimum(np.maximum(xk - 10 * Dx, Lnew), xk - 0.1 * Dx)
+        Lnew = np.minimum(np.maximum(xk - 10 * Dx, Lnew), xk - 0.01 * Dx)
         Unew = np.minimum(np.maximum(xk + 0.01 * Dx, Unew), xk + 10 * Dx)
 
         # print("Lnew = ",Lnew)
-- 
2.43.0


From d632364b5b2b4da3333d9566b8aeba52ff8b4ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 118/262] fix: choose the characteristic combination by the
 value of the combination itself

---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From f80980e3a759dd2bc31de3c3902bd71865f117ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 119/262] fix: flat roof zones of a roof shallower than e/2

---
 metku/eurocodes/en1991/en1991_1_4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..e042807 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -406,8 +406,8 @@ def flat_roof_pressure(d,b,h,qp,hp=0):
     """
     zones = {"F":{"length":0.25*e,'width':0.1*e,'cpe':0.0,'we':0.0},
              "G":{"length":b-0.5*e,'width':0.1*e,'cpe':0.0,'we':0.0},
-             "H":{"length":b,'width':0.4*e,'cpe':0.0,'we':0.0},
-             "I":{"length":b,'width':d-0.5*e,'cpe':0.0,'we':0.0}
+             "H":{"length":b,'width':max(min(0.4*e,d-0.1*e),0.0),'cpe':0.0,'we':0.0},
+             "I":{"length":b,'width':max(d-0.5*e,0.0),'cpe':0.0,'we':0.0}
              }
     
     hd_ratio = h/d
-- 
2.43.0


From 1a52f842d4bf8513e1b3a18cebf747eac9724ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 120/262] fix: pressure coefficients of monopitch roofs with a
 slope between 5 and 15 degrees

---
 metku/eurocodes/en1991/en1991_1_4.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index e042807..e1a57ff 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,16 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
+                cneg10 = interpolate([5,15],[-1.7,-0.9],angle)
+                cneg1 = interpolate([5,15],[-2.5,-2.0],angle)
+                cpos = interpolate([5,15],[0.0,0.2],angle)
                 self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cneg10 = interpolate([5,15],[-1.2,-0.8],angle)
+                cneg1 = interpolate([5,15],[-2.0,-1.5],angle)
+                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
+                cneg10 = interpolate([5,15],[-0.6,-0.3],angle)
+                cneg1 = interpolate([5,15],[-1.2,-0.3],angle)
+                self.H = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From 294609e4dc0a37db41be811631e9b0a1e8ccf0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 121/262] fix: reduced bolt shear strength applies when the
 threads are in the shear plane

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..b66c5d2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2119,12 +2119,12 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
     """
     
     if threads_in_plane:
-        av = 0.6
-    else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
             av = 0.5
         elif bolt_class in {4.6,5.6,8.8}:
             av = 0.6
+    else:
+        av = 0.6
     
     FvRd = av*fub*A/gammaM2
     
-- 
2.43.0


From 19f3405d915f6ee288707500e5d559bcf3ce18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 122/262] fix: partial factor in function
 bolt_bearing_resistance

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index b66c5d2..400f158 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2164,7 +2164,7 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From 72cfd9fd0747f3bcc31574964651348241e5ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 123/262] fix: reduction factor of column web for
 transformation parameter between 1 and 2

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..2623947 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From 857d29b388dd83f1d4867c87045c4887a88b90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 124/262] fix: additional shear resistance of a stiffened
 column web panel

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..bbc39a5 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -401,7 +401,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From 8246c8cb108a52662b33ff631059fbada29f6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 125/262] fix: bolts of sizes not available in the requested
 length

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 400f158..17f4397 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -121,7 +121,7 @@ class Bolt:
         bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= length:
+            if key != 'max' and key >= length:
                 if value[size] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -133,7 +133,7 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= length:
+                if key != 'max' and key >= length:
                     if value[size] != 'N/A':
                         length = key                    
                         bolt_available = True                        
@@ -207,9 +207,11 @@ class Bolt:
         self.washer_t = washer_size[val]["h"]
         self.washer_d = washer_size[val]["d2"]
         
+        length = self._length
+        bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= self._length:
+            if key != 'max' and key >= self._length:
                 if value[val] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -221,13 +223,16 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= self._length:
+                if key != 'max' and key >= self._length:
                     if value[val] != 'N/A':
                         length = key                    
                         bolt_available = True
                         bolt_type = 'Full thread'
                         break
         
+        if not bolt_available:
+            print("Warning: Bolt of size {0:2.0f} is not available with minimum length of {1:4.2f} mm".format(val,length))
+        
         self.length = length
         self.bolt_type = bolt_type
     
-- 
2.43.0


From 3c1b712172604a60b690ea112df3deefd5ca322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 126/262] fix: joints with column stiffeners: thickness, T-stub
 dimension and orientation of the stiffener

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 6 ++----
 metku/structures/steel/end_plate_joint.py             | 4 +---
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 2623947..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 17f4397..3048706 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -576,13 +576,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
@@ -797,8 +797,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bbc39a5..bf7d5bd 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -341,7 +341,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
@@ -369,9 +369,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
-- 
2.43.0


From b6df7e2e28dbae802f28cc2826bc238ebf36a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 127/262] fix: edge distance of the end plate T-stub when the
 plate is wider than the column flange

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 3048706..f305ea4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1561,12 +1561,7 @@ class TStubEndPlate(TStub):
     @property
     def emin(self):
         """ See Fig. 6.10 of EN 1993-1-8:2005 """
-        if self.bolts.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-            emin = self.bolts.ex
-        else:
-            emin = self.bolts.end_plate_e
-            
-        return emin
+        return self.bolts.emin_plate
     
     @property
     def m(self):
-- 
2.43.0


From a758c47d4cf0de7140bbe44ca9012aa90996296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 128/262] fix: rotational stiffness of a joint with one tension
 row

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bf7d5bd..3e86402 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -688,7 +688,7 @@ class EndPlateJoint:
             """ Only one tension row: moment arm is the distance
                 between bottom 
             """
-            z = self.moment_arm()
+            z, k_eq = self.zeq_and_keq(verb)
         else:
             z, k_eq = self.zeq_and_keq(verb)
         
-- 
2.43.0


From 4666a4b2c7f9fc22d4d10dd6dcce63a214b6065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 129/262] fix: equivalent stiffness of joints with shear rows

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 3e86402..584c46a 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -615,8 +615,8 @@ class EndPlateJoint:
 
     def keq(self,verb=False):
         """ Equivalent stiffness of the tension rows """
-        keff = np.array([row.keff() for row in self.bolt_rows])
-        hr = self.hr()
+        keff = np.array([row.keff() for row in self.bolt_rows if row.type != SHEAR_ROW])
+        hr = self.hr('non-shear')
         
     
         return sum(keff*hr)/self.zeq(verb)
-- 
2.43.0


From aebcb5a6160de4fdcc5a350183bcef40582cad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 130/262] fix: shear rows do not contribute to moment
 resistance and shear resistance follows the present row forces

---
 metku/structures/steel/end_plate_joint.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 584c46a..da306af 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -593,7 +593,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
@@ -735,8 +736,11 @@ class EndPlateJoint:
         if verb:
             print("-- SHEAR RESISTANCE --")
         
+        # Forces of the tension rows for the present dimensions
+        self.bending_resistance()
+        
         for i, row in enumerate(self.bolt_rows):
-            if row.FtRd > 0.0:
+            if row.FtRd > 0.0 and row.type != SHEAR_ROW:
                 """ Rows in tension still have at least 28.6% of their
                     shear resistance left.
                 """
-- 
2.43.0


From 248e241e51f33b4d3e872f47f9d1ec3d344be04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 131/262] fix: bolt positions follow changes of plate and edge
 distance

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 metku/structures/steel/end_plate_joint.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index f305ea4..02829fa 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -453,7 +453,7 @@ class BoltRow:
     @property
     def z_top(self):
         """ Distance of the bolt row from the top of the end plate """
-        return self._z_top
+        return 0.5*self.joint.beam.h+self.joint.etop - self.z
     
     @z_top.setter
     def z_top(self,val):
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index da306af..ba0f676 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -234,7 +234,7 @@ class EndPlateJoint:
     @property
     def xbolts(self):
         """ Distance of bolts from center of beam """
-        return self._xbolts
+        return 0.5*self.bp - self.ebolts
 
     @xbolts.setter
     def xbolts(self,val):
-- 
2.43.0


From 33181979432025b03f2bdcca5e7bdcb8a235ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 132/262] fix: effective lengths of bolt rows next to a column
 web stiffener

---
 .../eurocodes/en1993/en1993_1_8/en1993_1_8.py  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 02829fa..1a5314e 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -617,6 +617,9 @@ class BoltRow:
             (the groups are stored in 'groups' attribute)
         """
         for group in self.groups:
+            if group.separated_by_stiffener:
+                # No yield lines of the column flange across a stiffener
+                continue
             """ The '_leff_rows' attribute of the column flange T-stub
                 for the group is a dict with BoltRow objects as keys. Using
                 'self' will get the effective lengths of this bolt row
@@ -1021,6 +1024,16 @@ class BoltRowGroup:
             rows.
         """
         return [self.rows[i].z-self.rows[i+1].z for i in range(len(self.rows)-1)]
+
+    @property
+    def separated_by_stiffener(self):
+        """ True, if the first row is on the opposite side of the column
+            web stiffener than the other rows.
+        """
+        loc = self.row_loc[0]
+        return loc['flange'] == END_ROW_ADJACENT_TO_STIFFENER or \
+            (loc['flange'] == ADJACENT_TO_STIFFENER_ROW and loc['plate'] == ROW_OUTSIDE_BEAM_TENSION_FLANGE)
+
     def info(self):
         """ Prints info """
         
@@ -1507,7 +1520,6 @@ class TStubColumnFlange(TStub):
             except:
                 alpha = cm.new_alpha(self.e, self.m, self.m2)                            
                 #print(alpha)
-            print(self.p,alpha,self.m,self.e)
             leff = 0.5*self.p + alpha*self.m - (2*self.m + 0.625*self.e)
             
             
@@ -1913,7 +1925,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
@@ -1936,7 +1948,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
-- 
2.43.0


From 414818e2dedfdb080feff29b5d5518176ba2bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 133/262] fix: correlation factors of welds for all structural
 steel grades

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 1a5314e..7026e26 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -79,7 +79,11 @@ correlation_coefficient = {"S235": 0.8,
                            "S275": 0.85,
                            "S355": 0.9,
                            "S420": 1.0,
-                           "S460": 1.0}
+                           "S460": 1.0,
+                           "S460M": 1.0,
+                           "S460Q": 1.0,
+                           "S500": 1.0,
+                           "S700": 1.0}
 
 """ Bolt row types """
 TENSION_ROW = 'tension row'
-- 
2.43.0


From 371755c1195cee9a34c5f35af79b75497029d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 134/262] fix: fin plate joints do not share the default bolt
 object

---
 metku/structures/steel/fin_plate_joint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 63a0230..5b463a4 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -28,7 +28,7 @@ from metku.cost.cost_data import nut_unit_cost, washer_unit_cost
 
 class FinPlateJoint:
     """ Class for fin plate joints """
-    def __init__(self, beam, plate, bolt=Bolt(20,8.8), gh=10,workshop=None):
+    def __init__(self, beam, plate, bolt=None, gh=10,workshop=None):
         """
             beam .. beam profile (ISection)
             plate .. RectPlateWithHoles object
@@ -52,6 +52,8 @@ class FinPlateJoint:
         # Vertical position of the center of the plate relative to
         # centerline of the beam.
         self.plate_pos_y = 0.0
+        if bolt is None:
+            bolt = Bolt(20,8.8)
         self.bolt = bolt
         self.plate.d0 = bolt.d0
         self.gh = gh
-- 
2.43.0


From ffb479b1b583c0415786425c928006decd3d0632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 135/262] fix: horizontal bolt spacing of a fin plate with one
 vertical bolt row does not affect block tearing

---
 metku/structures/steel/fin_plate_joint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 5b463a4..29fbd00 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -246,7 +246,7 @@ class FinPlateJoint:
     def fin_plate_block_tearing(self,verb=False):
         """ Shear resistance of fin plate, block tearing """
         
-        Ant = self.tp*(self.e2+self.p2-(2*self.plate.n2-1)*0.5*self.d0)
+        Ant = self.tp*(self.e2+(self.plate.n2-1)*self.p2-(2*self.plate.n2-1)*0.5*self.d0)
         Anv = self.tp*(self.hp-self.e1-(self.plate.n1-0.5)*self.d0)
         VRd5 = 0.5*self.fup*Ant/gammaM2 + self.fyp*Anv/np.sqrt(3)/gammaM0
 
@@ -368,7 +368,7 @@ class FinPlateJoint:
     def beam_web_block_tearing(self,verb=False):
         """ Shear resistance of beam web, block tearing """
         
-        Ant = self.beam.tw*(self.e2b+self.p2-(2*self.plate.n2-1)*0.5*self.d0)
+        Ant = self.beam.tw*(self.e2b+(self.plate.n2-1)*self.p2-(2*self.plate.n2-1)*0.5*self.d0)
         Anv = self.beam.tw*(self.e1b+(self.plate.n1-1)*self.p1-(self.plate.n1-0.5)*self.d0)
         VRd11 = 0.5*self.beam.fu*Ant/gammaM2 + self.beam.fy*Anv/np.sqrt(3)/gammaM0
 
@@ -423,7 +423,7 @@ class FinPlateJoint:
             res = False
         elif self.p1 < 2.2*self.d0:
             res = False
-        elif self.p2 > 0 and self.p2 < 2.4*self.d0:
+        elif self.plate.n2 > 1 and self.p2 < 2.4*self.d0:
             res = False
         
         if res and verb:
-- 
2.43.0


From 9a61be03bc54b796fd5ece7965492b3e939bca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 136/262] fix: holes of a fin plate follow the size of the
 bolts in the cost

---
 metku/structures/steel/fin_plate_joint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 29fbd00..eeccbd4 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -452,6 +452,8 @@ class FinPlateJoint:
         if workshop is not None:
             self.workshop = workshop        
         
+        # The size of the bolts may have changed
+        self.plate.d0 = self.d0
         plate_cost = self.workshop.steel_price["plates"]
         
         self._cost['plate'] = self.plate.cost(self.workshop,plate_cost)
-- 
2.43.0


From 61b8c28e417df0f177d2332acc4406c1a0a2df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 137/262] fix: fin plates do not share or overwrite the hole
 position given by the caller

---
 metku/structures/steel/plates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..f77ce96 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -190,7 +190,7 @@ class RectPlateWithHoles(RectPlate):
         """
         super().__init__(width,depth,thickness,material)
         
-        self.x0 = x0
+        self.x0 = list(x0)
         self.d0 = d0
         self.n1 = n1
         self.n2 = n2
-- 
2.43.0


From fb9711a51d68eb5f1717c7e79ff1b075097124a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 138/262] fix: cost of an end plate joint includes the nut and
 the washers of every bolt

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index ba0f676..6821e3c 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -810,8 +810,8 @@ class EndPlateJoint:
             else:
                 bolt_cost = 2*bolt_costs_pt[int(row.bolt.length)][int(row.bolt.d)]
             self._cost['bolts'] += bolt_cost
-            self._cost['bolts'] += nut_unit_cost[int(row.bolt.d)]
-            self._cost['bolts'] += washer_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*nut_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 4*washer_unit_cost[int(row.bolt.d)]
             """ Hole costs include forming holes both in the plate in the column """
             hole_cut_length += 2*row.bolt.d0*math.pi
            
-- 
2.43.0


From 001da19e1b422a64c098c641ee772e6cf77e1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 139/262] fix: cost of a plate does not keep the costs of welds
 and holes that have been removed

---
 metku/structures/steel/plates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index f77ce96..9c2db6d 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -94,6 +94,9 @@ class RectPlate:
             units: e
         """
         
+        for key in self._cost:
+            self._cost[key] = 0.0
+
         self._cost['material'] = self.weight()*(material_cost + 
                                                 steel_grade_add_on(self.material.name) + 
                                                 thickness_add_on(self.t))*1e-3
-- 
2.43.0


From d1631d37e5a01873e877b1305fec3e9b3aac8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 140/262] fix: sawing costs of members of steel grades S275 and
 S460

---
 metku/cost/workshop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..b661633 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -151,8 +151,11 @@ sawing_base_time = sawing_times["setup"]+\
 saw_bevel_time = 1.0 # min
 
 sawing_parameters = {"S235":{"Sm":2.0, "Q":1800},
+                     "S275":{"Sm":2.0, "Q":1800},
                      "S355":{"Sm":2.0, "Q":1800},
                      "S420":{"Sm":2.0, "Q":1800},
+                     "S460M":{"Sm":2.0, "Q":1800},
+                     "S460Q":{"Sm":2.0, "Q":1800},
                      "S500":{"Sm":2.0, "Q":1800},
                      "S550":{"Sm":2.0, "Q":1800},
                      "S690":{"Sm":2.0, "Q":1800},
-- 
2.43.0


From 970ebb5a227eb27b788473f29ac012ac0f081a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 141/262] fix: workshops do not share the default steel prices

---
 metku/cost/workshop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index b661633..30c012b 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -970,11 +970,13 @@ class Workshop:
         
     """
     
-    def __init__(self,steel_price={"plates":BASIC_STEEL_PRICE},cost_centres=None):
+    def __init__(self,steel_price=None,cost_centres=None):
         """ Constructor """        
     
         self.name = "Steel Workshop"
         
+        if steel_price is None:
+            steel_price = {"plates":BASIC_STEEL_PRICE}
         self.steel_price = steel_price
     
         if cost_centres is None:
-- 
2.43.0


From 1c36f0f4c70a4e5acbb07f283804bf4e088e2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 142/262] fix: trusses do not share the default workshop

---
 metku/raami/raami_plane_truss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ead8cc6..1bae509 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -49,7 +49,7 @@ class PlaneTruss(Raami):
                  rotation = 0,
                  num_elements=6,
                  name="Raami Plane Truss",
-                 workshop=Workshop()):
+                 workshop=None):
         """ Constructor 
             Parameters:
             ------------
@@ -116,6 +116,8 @@ class PlaneTruss(Raami):
         
         # Workshop for cost calculations
         
+        if workshop is None:
+            workshop = Workshop()
         self.workshop = workshop
         self.costs = {}
         
-- 
2.43.0


From 491626ecfd04a2d408658c109d5ad56589f822e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 143/262] fix: height of an end plate follows its lower
 overhang

---
 metku/structures/steel/end_plate_joint.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6821e3c..84b6b53 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -230,6 +230,15 @@ class EndPlateJoint:
     def etop(self,val):
         self._etop = val
         self.end_plate.h = val + self.ebottom + self.beam.h
+
+    @property
+    def ebottom(self):
+        return self._ebottom
+
+    @ebottom.setter
+    def ebottom(self,val):
+        self._ebottom = val
+        self.end_plate.h = self.etop + val + self.beam.h
     
     @property
     def xbolts(self):
-- 
2.43.0


From e4f733c13c876ad20b199736bd6aafb310f032aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 144/262] fix: strength classes D30-D70 are hardwood

---
 metku/materials/timber_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/materials/timber_data.py b/metku/materials/timber_data.py
index 2e6b7b0..a431ccc 100644
--- a/metku/materials/timber_data.py
+++ b/metku/materials/timber_data.py
@@ -119,7 +119,10 @@ lvl = {T.Kerto_S: {"fmk": 44, "s": 0.12, "fm0flatk": 50, "ft0k": 35, "ft90edgek"
 
 
 class Timber(Material):
-    def __init__(self, timber_type: T=T.C14, hardness: str='softwood'):
+    def __init__(self, timber_type: T=T.C14, hardness: str=None):
+        if hardness is None:
+            # Strength classes D are hardwood
+            hardness = 'hardwood' if timber_type.name.startswith('D') else 'softwood'
         self.timber_type = timber_type
         self.hardness = hardness
         if timber_type in solid_timber:
-- 
2.43.0


From 193ba2de605d07ec6dc1c87997ab952eff15c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 145/262] fix: charring speed of hardwood of density between
 290 and 450 kg/m3

---
 metku/eurocodes/en1995/en1995_1_2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..3b85021 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -42,10 +42,10 @@ def charring_speed(rhok: (int, float), type: str, hardness: str, h_p: (int, floa
                 if rhok >= 290:
                     beta = [0.65, 0.7]
         elif hardness == 'hardwood':
-            if rhok == 290:
-                beta = [0.65, 0.7]
             if rhok >= 450:
                 beta = [0.5, 0.55]
+            elif rhok >= 290:
+                beta = [0.65, 0.7]
     elif type == 'lvl':
         if rhok >= 480:
             beta = [0.65, 0.7]
-- 
2.43.0


From ae9a903b1f1a153b553380d0d834286f117b2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 146/262] fix: charring depth at the failure time of the fire
 protection

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 3b85021..99fb66a 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -93,7 +93,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif fp.t_f <= t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From cc3c31b8501758e9988d0fbd263b73fa88e2532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 147/262] fix: zero strength layer develops behind the fire
 protection before charring

---
 metku/eurocodes/en1995/en1995_1_2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 99fb66a..df870c5 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -89,7 +89,8 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
         return t * beta_n + k0 * d0
     # RIL-205-2-2009 kuvat 3.3 - 3.5
     if t < fp.t_ch:
-        return 0
+        # no charring yet, only the layer of zero strength
+        return k0 * d0
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-- 
2.43.0


From 72037843f0af83d8860ff0b0fa655b4ebb92a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 148/262] fix: fire protections are fitted to the material of
 their own section, also when they are set later

---
 metku/sections/timber/timber_section.py | 75 ++++++++++++++++++-------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 1cd68a1..6ed83c0 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -18,6 +18,7 @@ from metku.materials.timber_data import Timber, T
 
 import matplotlib.pyplot as plt
 import math
+import copy
 
 import sys
 
@@ -61,6 +62,8 @@ class TimberSection:
         
         self.R = 0 # Fire duration
 
+        self.__material = None
+        self.__fire_protection = {}
         self.__fire_protection_generic = fire_protection_generic
         self.fire_protection_sides = fire_protection_sides
         self.sides_on_fire = sides_on_fire
@@ -100,26 +103,58 @@ class TimberSection:
 
         # RIL-205-2-2009 3.4.3
         # Asetetaan palosuojille millainen materiaali suojataan jotta voidaan laskea ta ja tf
-        if self.fire_protection_right:
-            self.fire_protection_right.protected_material(self.material)
-            if isinstance(self.fire_protection_right, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_right.set_tf_for_gypsumF()
-            self.fire_protection_right.set_ta()
-        if self.fire_protection_left:
-            self.fire_protection_left.protected_material(self.material)
-            if isinstance(self.fire_protection_left, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_left.set_tf_for_gypsumF()
-            self.fire_protection_left.set_ta()
-        if self.fire_protection_bottom:
-            self.fire_protection_bottom.protected_material(self.material)
-            if isinstance(self.fire_protection_bottom, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_bottom.set_tf_for_gypsumF()
-            self.fire_protection_bottom.set_ta()
-        if self.fire_protection_top:
-            self.fire_protection_top.protected_material(self.material)
-            if isinstance(self.fire_protection_top, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_top.set_tf_for_gypsumF()
-            self.fire_protection_top.set_ta()
+        self.fire_protection_right = self.fire_protection_right
+        self.fire_protection_left = self.fire_protection_left
+        self.fire_protection_bottom = self.fire_protection_bottom
+        self.fire_protection_top = self.fire_protection_top
+
+    def protect(self, fp: FireProtection) -> FireProtection:
+        """
+        RIL-205-2-2009 3.4.3
+        @param fp: fire protection of one side
+        @return: fire protection with the times that depend on the material of this section. A copy is used, because
+                 the same protection can be given to sections of different materials.
+        """
+        if fp is None or self.__material is None:
+            return fp
+        fp = copy.copy(fp)
+        fp.protected_material(self.__material)
+        if isinstance(fp, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
+            fp.set_tf_for_gypsumF()
+        fp.set_ta()
+        return fp
+
+    @property
+    def fire_protection_right(self) -> FireProtection:
+        return self.__fire_protection['right']
+
+    @fire_protection_right.setter
+    def fire_protection_right(self, val: FireProtection):
+        self.__fire_protection['right'] = self.protect(val)
+
+    @property
+    def fire_protection_left(self) -> FireProtection:
+        return self.__fire_protection['left']
+
+    @fire_protection_left.setter
+    def fire_protection_left(self, val: FireProtection):
+        self.__fire_protection['left'] = self.protect(val)
+
+    @property
+    def fire_protection_bottom(self) -> FireProtection:
+        return self.__fire_protection['bottom']
+
+    @fire_protection_bottom.setter
+    def fire_protection_bottom(self, val: FireProtection):
+        self.__fire_protection['bottom'] = self.protect(val)
+
+    @property
+    def fire_protection_top(self) -> FireProtection:
+        return self.__fire_protection['top']
+
+    @fire_protection_top.setter
+    def fire_protection_top(self, val: FireProtection):
+        self.__fire_protection['top'] = self.protect(val)
 
     @property
     def H(self) -> float:
-- 
2.43.0


From 1255e9188393b738b07d4eceb3c8f043c21a5d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 149/262] fix: height of a tapered beam follows its height at
 the start

---
 metku/sections/timber/timber_section.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 6ed83c0..242fda2 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -288,6 +288,15 @@ class TaperedSection(TimberSection, ABC):
         self.small_elements = []
         self.num_elements = -1
 
+    @property
+    def _H(self) -> float:
+        """ Height at the start of the beam """
+        return self.h0
+
+    @_H.setter
+    def _H(self, val: (int, float)):
+        self.h0 = val
+
     def create_elements(self):
         # TODO ei laske oiken jos nodet ei ole tasavälein
         if len(self.small_elements) > 0:
-- 
2.43.0


From 10fad95f50ec90059ba8b39543ad74d3caff4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 150/262] fix: timber members can be imported without importing
 frame2d first

---
 metku/structures/timber/timber_member.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..40c55f6 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -10,7 +10,6 @@ Timber member
 from math import log, tan, pi, sqrt, isclose, sin, cos, radians
 import numpy as np
 
-import metku.frame2d as frame2d
 from metku.materials.timber_data import Timber, T
 from metku.eurocodes.en1995.en1995_1_1 import kmod, kdef, k_to_d, get_gammaM
 from metku.eurocodes.en1995.constants import k_m
@@ -759,6 +758,9 @@ class TimberMember:
         """
         # Beta arvot saatu Liimapuukäsikirja Osa 3 sivu 3-35
         # TODO tarkista betan arvot palkille ja pilarille erikseen Lpkk3 (3-39)
+        # frame2d uses timber members, it can be imported only when it is needed
+        import metku.frame2d as frame2d
+
         beta = [[], []]
 
         def form_beta(lc: list, index: int, beam=False):
-- 
2.43.0


From a16070a1aa112da0dc6253f5b3c43fd5b6686db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 151/262] fix: utilization of biaxial bending does not depend
 on the signs of the moments

---
 metku/structures/timber/timber_member.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 40c55f6..b056c40 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1110,8 +1110,8 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        UM1 = (abs(self.sigma_md(n)[0]) + k_m * abs(self.sigma_md(n)[1])) / self.fmd
+        UM2 = (abs(self.sigma_md(n)[1]) + k_m * abs(self.sigma_md(n)[0])) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1124,16 +1124,16 @@ class TimberMember:
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1176,8 +1176,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From 82fc52248a1e6b11cfabc5d37f8ba5b24f57c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 152/262] fix: lateral-torsional buckling of members with
 negative bending moment

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index b056c40..8566979 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1193,7 +1193,7 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-- 
2.43.0


From 66a8369ab5eac2d0900408754cd0b51c3ea46258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 153/262] fix: torsion utilization of negative torsional
 moments

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 8566979..321190d 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1117,7 +1117,7 @@ class TimberMember:
 
     def check_torsion(self, n: int) -> float:
         # Torsion utilization ratio:                                SFS-EN 1995-1-1 § 6.1.8
-        UTx = self.tau_tord(n) / (self.k_shape(n) * self.fvd)
+        UTx = abs(self.tau_tord(n)) / (self.k_shape(n) * self.fvd)
         r = UTx
         return r
 
-- 
2.43.0


From d5fe72e715c4bf4a7f89cfb7b11f2d9958ea8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 154/262] fix: torsional properties of rectangular timber
 sections

---
 metku/structures/timber/timber_member.py | 80 ++++++++----------------
 1 file changed, 27 insertions(+), 53 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 321190d..ec27b49 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -45,6 +45,22 @@ else:
     
     tuple_out = tuple
 
+def rectangle_torsion(ratio: float) -> tuple:
+    """
+    Torsion of a rectangle, based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
+
+    @param ratio: ratio of the longer side h to the shorter side b
+    @return: alpha and beta, torsional constant is alpha * h * b ** 3 and torsional resistance is beta * h * b ** 2
+    """
+    if ratio > 10:
+        alpha = (1 - 0.63 / ratio) / 3
+        return alpha, alpha
+    ratios = [1, 1.2, 1.5, 2, 2.5, 3, 4, 5, 6, 8, 10]
+    alphas = [0.141, 0.166, 0.196, 0.229, 0.249, 0.263, 0.281, 0.291, 0.299, 0.307, 0.312]
+    betas = [0.208, 0.219, 0.231, 0.246, 0.258, 0.267, 0.282, 0.291, 0.299, 0.307, 0.312]
+    return np.interp(ratio, ratios, alphas), np.interp(ratio, ratios, betas)
+
+
 class TimberMember:
     def __init__(self, profile: (TimberSection, TaperedSection), material: Timber, length: float, ldc: str, sc: int,
                  mtype: str = 'beam', varnished: bool = False, Sj1: int = np.inf, Sj2: int = np.inf, nodes: dict = None,
@@ -630,72 +646,30 @@ class TimberMember:
         EN-1995-1-1 6-1-8
         Alpha and beta are based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
         """
-        section_height_to_width_ratio = self.section.get_H(self.loc[n]) / self.section.B
-        if section_height_to_width_ratio < 1:
-            section_height_to_width_ratio = 1 / section_height_to_width_ratio
-        if 0.95 < section_height_to_width_ratio < 1.05:
-            beta = 0.208
-        elif 1.45 < section_height_to_width_ratio < 1.55:
-            beta = 0.231
-        elif 1.95 < section_height_to_width_ratio < 2.05:
-            beta = 0.246
-        elif 2.45 < section_height_to_width_ratio < 2.55:
-            beta = 0.258
-        elif 2.95 < section_height_to_width_ratio < 3.05:
-            beta = 0.267
-        elif 3.95 < section_height_to_width_ratio < 4.05:
-            beta = 0.282
-        elif 4.95 < section_height_to_width_ratio < 5.05:
-            beta = 0.299
-        elif 5.95 < section_height_to_width_ratio < 6.05:
-            beta = 0.307
-        elif 7.95 < section_height_to_width_ratio < 8.05:
-            beta = 0.313
-        elif 9 < section_height_to_width_ratio < np.inf:
-            beta = 0.333
-        else:
-            beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
+        h = self.section.get_H(self.loc[n])
+        b = self.section.B
+        beta = rectangle_torsion(max(h, b) / min(h, b))[1]
+        Wv = beta * max(h, b) * min(h, b) ** 2
         return self.ted[n] / Wv
 
     def I_tor(self, loc: float) -> float:
         """
         @return: torsional constant for rectangular cross sections
         """
-        ratio = self.section.get_H(loc) / self.section.B
-        if ratio < 1:
-            ratio = 1 / ratio
-        if 1 < ratio < 1.05:
-            alpha = 0.141
-        elif 1.45 < ratio < 1.55:
-            alpha = 0.196
-        elif 1.95 < ratio < 2.05:
-            alpha = 0.229
-        elif 2.45 < ratio < 2.55:
-            alpha = 0.249
-        elif 2.95 < ratio < 3.05:
-            alpha = 0.263
-        elif 3.95 < ratio < 4.05:
-            alpha = 0.281
-        elif 4.95 < ratio < 5.05:
-            alpha = 0.299
-        elif 5.95 < ratio < 6.05:
-            alpha = 0.307
-        elif 7.95 < ratio < 8.05:
-            alpha = 0.313
-        elif 9 < ratio < np.inf:
-            alpha = 0.333
-        else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+        h = self.section.get_H(loc)
+        b = self.section.B
+        alpha = rectangle_torsion(max(h, b) / min(h, b))[0]
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        return alpha * max(h, b) * min(h, b) ** 3
 
     def k_shape(self, n: int) -> float:
         """
         SFS EN 1995-1-1 §6.1.8(6.15)
         @return: cross section factor for rectangular cross sections (circular sections not included)
         """
-        return min(1.3, 1 + 0.05 * self.section.get_H(self.loc[n]) / self.section.B)
+        h = self.section.get_H(self.loc[n])
+        b = self.section.B
+        return min(1.3, 1 + 0.05 * max(h, b) / min(h, b))
 
     def beta_c(self) -> float:
         """
-- 
2.43.0


From 57f43057359a5967069e8aef2af2f891340e212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 155/262] fix: factor k2 of the apex bending stress, EN
 1995-1-1 (6.45)

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index ec27b49..3055ae8 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -453,7 +453,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From 8ff1479d6ba5b055bfb827760ae9142683b5b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 156/262] fix: bending radius of laminations is in the same
 unit as their thickness, EN 1995-1-1 (6.49)

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 3055ae8..4b659dd 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -359,10 +359,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From d90386d65ccfe50caaeaec893feb7a0e07ea230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 157/262] fix: factor k_dis of curved beams, EN 1995-1-1 (6.52)

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 4b659dd..32b4998 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -424,9 +424,9 @@ class TimberMember:
 
     def k_dis(self) -> float:
         # SFS 1995-1-1 (6.52)
-        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
+        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki, KaarevaPalkki)):
             return 1.4
-        elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
+        elif isinstance(self.section, KaarevaHarjaPalkki):
             return 1.7
 
     def k_p(self) -> float:
-- 
2.43.0


From 407a3c87608e9ae7c8a9ea5c397b47978e0e2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 158/262] fix: volume factor of solid timber, EN 1995-1-1
 (6.51)

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 32b4998..d488a86 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -414,7 +414,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 994c7afb8f7a96214b1bbe4ccadad2ee4f6bda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 159/262] fix: volume of the curved part of curved beams

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index d488a86..bb8830f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -396,7 +396,7 @@ class TimberMember:
                 #     print(self.section.intf6)
             return r
         elif isinstance(self.section, KaarevaPalkki):
-            return self.section.B * self.section.hap * (self.section.r_in + self.section.hap * 0.5) * ((self.alfa() + self.section.beta) * 0.5)
+            return self.section.B * self.section.hap * (self.section.r_in + self.section.hap * 0.5) * (self.alfa() + self.section.beta)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From a2c22d6a52ea6727d4da6a03a1ee99d17ae0b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 160/262] fix: tension perpendicular to grain at tapered edges,
 EN 1995-1-1 (6.39)

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index bb8830f..5c258a5 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -465,14 +465,14 @@ class TimberMember:
         if not self.section.flipped:
             if sigma_malphad >= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
         else:
             if sigma_malphad <= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-- 
2.43.0


From 7e2e2576de4870469836f43983b8eda9a16e2fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 161/262] fix: tapered edge utilization of compressed edges

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 5c258a5..c844e82 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -931,7 +931,7 @@ class TimberMember:
 
     def check_single_tapered_beam_bending_tension(self) -> float:
         # SFS 1995-1-1 (6.38)
-        return self.sigma_m_alpha_d() / (self.k_m_alpha() * self.fmd)
+        return abs(self.sigma_m_alpha_d()) / (self.k_m_alpha() * self.fmd)
 
     def check_tapered_beam_bending_tension(self) -> float:
         """
-- 
2.43.0


From 90fa845b6d3beaeff32bd4d52593dae4677bc2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 162/262] fix: bracing of beams: stiffness factor, span in
 metres and negative moments, EN 1995-1-1 9.2.5

---
 metku/structures/timber/timber_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index c844e82..b599eb7 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1202,19 +1202,19 @@ class TimberMember:
         for i in range(len(supp) - 1):
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
-                    Md = self.myed[self.loc.index(loc)]
+                    Md = abs(self.myed[self.loc.index(loc)])
                     Nd_temp = (1 - self.k_crit(i, 1, loc)) * (Md / self.section.get_H(loc))
                     Nd_list.append(Nd_temp)
 
         Nd = max(Nd_list)
-        C = Nd / a
+        C = ks * Nd / a
         if self.material.type == 'solid_timber':
             Fd = Nd / 50
         else:
             Fd = Nd / 80
 
         if n is not None:
-            qd = min([1, sqrt(15/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
+            qd = min([1, sqrt(15e3/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
             return C, Fd, qd
         return C, Fd
 
-- 
2.43.0


From f9a26ed204ddeb3f742ac09f7e253cc06a047b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 163/262] fix: buckling lengths follow changes of supports and
 end stiffnesses

---
 metku/frame2d/frame2d.py                 | 6 +++---
 metku/structures/timber/timber_member.py | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 99abf01..21d8541 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3361,10 +3361,10 @@ class TimberFrameMember(FrameMember):
             pass
 
         try:
-            print(f'Eulerin beta-arvo y-suunta {self.member.beta[0]}')
-            print(f'Eulerin beta-arvo z-suunta {self.member.beta[1]}')
+            print(f'Eulerin beta-arvo y-suunta {self.member.euler_beta[0]}')
+            print(f'Eulerin beta-arvo z-suunta {self.member.euler_beta[1]}')
         except:
-            print(f'Eulerin beta-arvo {self.member.beta}')
+            print(f'Eulerin beta-arvo {self.member.euler_beta}')
         print(f'\niy: {round(max(i_list[0][0]), prec)}')
         print(f'iz: {round(max(i_list[0][1]), prec)}')
         ln = self.member.Ln()
diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index b599eb7..d841e02 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -98,6 +98,8 @@ class TimberMember:
         self.Sj1 = Sj1
         self.Sj2 = Sj2
         self.beta = beta
+        # Eulerin nurjahduskertoimet, jos niitä ei ole annettu
+        self.euler_beta = beta
         self.perm_k_vol = k_vol
 
         self.ned = []
@@ -822,12 +824,12 @@ class TimberMember:
         if self.type == 'column':
             form_beta(self.L_c[0], 0)
             form_beta(self.L_c[1], 1)
-            self.beta = beta
+            self.euler_beta = beta
             return np.asarray([beta[0] * self.L_c[0], beta[1] * self.L_c[1]], dtype=object)
         elif self.type in ('rigid-beam', 'beam'):
             form_beta(self.L_c[0], 0, True)
             form_beta(self.L_c[1], 1, True)
-            self.beta = beta
+            self.euler_beta = beta
             return np.asarray([beta[0] * self.L_c[0], beta[1] * self.L_c[1]], dtype=object)
 
         if self.Sj1 >= 1e15 and self.Sj2 >= 1e15:
-- 
2.43.0


From 7013ce9854dc3da653121b6a82bb8d8a75efe356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 164/262] fix: buckling length of columns with one roller
 support

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index d841e02..2dd0977 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -764,8 +764,8 @@ class TimberMember:
                         beta[index] = 0.7
                     elif isinstance(startsupp, frame2d.XYHingedSupport) and isinstance(endsupp, frame2d.XYHingedSupport):
                         beta[index] = 1
-                    elif (isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport) and
-                          isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport)):
+                    elif ((isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport)) and
+                          (isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport))):
                         beta[index] = 0.85
                     elif isinstance(startsupp, frame2d.YHingedSupport) or isinstance(endsupp, frame2d.YHingedSupport):
                         if isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport):
-- 
2.43.0


From 5c06d62347a0d59b98ec00b0bb3faddbb199bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 165/262] fix: timber members without lateral supports and with
 a shared list of supports

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 2dd0977..7fdcd35 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -114,8 +114,8 @@ class TimberMember:
         self.nodes = nodes
         self.parent = parent
 
-        self.lateral_support_y = lateral_support_y
-        self.lateral_support_z = lateral_support_z
+        self.lateral_support_y = [] if lateral_support_y is None else list(lateral_support_y)
+        self.lateral_support_z = [] if lateral_support_z is None else list(lateral_support_z)
         self.L_c = np.asarray([np.asarray([]),
                                np.asarray([])], dtype=object)
 
-- 
2.43.0


From 5e8a76e95ea1d489cad771764a5bee3b5cf1bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 166/262] fix: slenderness of tapered members with negative
 bending moment

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 7fdcd35..5bbc4fa 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -707,7 +707,7 @@ class TimberMember:
                 if supp_y[i] <= loc <= supp_y[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg))])
+            iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda x: abs(x[0])))])
 
         for i in range(len(supp_z) - 1):
             sig_md_in_seg = []
@@ -716,7 +716,7 @@ class TimberMember:
                 if supp_z[i] <= loc <= supp_z[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg))])
+            iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda x: abs(x[0])))])
 
         y = [sqrt(self.section.get_I(i)[0] / self.section.get_A(i)) for i in iy]
         z = [sqrt(self.section.get_I(i)[1] / self.section.get_A(i)) for i in iz]
-- 
2.43.0


From 230f9a1e5dba3d03f4f8e454849bca2b63c7c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 167/262] fix: apex zone check uses the larger of the shear
 stresses of the two ends

---
 metku/structures/timber/timber_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 5bbc4fa..974732d 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1251,6 +1251,7 @@ class TimberMember:
 
         tau1 = self.tau_d(n)[1]
         n = self.nsect() - 1
+        loc = self.loc[n]
         end = list(filter(lambda v: v.member != self if True else False, self.parent.n2.parents.copy()))
         if len(end) == 0:
             other_h_end = 0
@@ -1266,7 +1267,7 @@ class TimberMember:
                 except:
                     pass
         tau2 = self.tau_d(n)[1]
-        tau = max(tau1, tau2)
+        tau = max(abs(tau1), abs(tau2))
         # if isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
         #     closesttodownx1 = None
         #     closesttodownx2 = None
-- 
2.43.0


From e880bbac29795b3e83af3f71371fe32f93e3b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 168/262] fix: size factors of bending strength by the depth
 and of tension strength by the width, EN 1995-1-1 3.2-3.3

---
 metku/sections/timber/timber_section.py  | 42 +++++++++++-------------
 metku/structures/timber/timber_member.py |  2 +-
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 242fda2..6894b37 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -208,30 +208,28 @@ class TimberSection:
         # SFS-EN1995-1-1 3.2, 3.3, 3.4
         # TODO pitää kysyä samilta
         # toimii kaikille rajatiloille, jos halutaan poistaa palolta niin pitää muokata koodia
-        Med = max(self.timber_member.MEdY, self.timber_member.MEdZ)
-        if self.material.rhok <= 700 and self.material.type == 'solid_timber':
-            if self.timber_member.NEd > 0 and self.B < 150 and Med != 0 and self.H < 150:
-                return min(min(1.3, (150 / self.B) ** 0.2), min(1.3, (150 / self.H) ** 0.2))
-            elif self.timber_member.NEd > 0 and self.B < 150:
-                return min(1.3, (150 / self.B) ** 0.2)
-            elif Med != 0 and self.H < 150:
-                return min(1.3, (150 / self.H) ** 0.2)
-            else:
-                return 1.0
+        # taivutuslujuus, mitoittava mitta on korkeus
+        return self.size_factor(self.H)
+
+    @property
+    def k_h_t(self) -> float:
+        # SFS-EN1995-1-1 3.2, 3.3
+        # vetolujuus, mitoittava mitta on poikkileikkauksen suurempi sivumitta
+        if self.material.type == 'lvl':
+            return 1.0
+        return self.size_factor(max(self.B, self.H))
+
+    def size_factor(self, h: (int, float)) -> float:
+        """
+        SFS-EN1995-1-1 3.2, 3.3, 3.4
+        @param h: depth in bending or width (larger dimension) in tension
+        """
+        if self.material.type == 'solid_timber' and self.material.rhok <= 700:
+            return max(1.0, min(1.3, (150 / h) ** 0.2))
         elif self.material.type == 'glt':
-            if self.timber_member.NEd > 0 and self.B < 600 and Med != 0 and self.H < 600:
-                return min(min(1.1, (600 / self.B) ** 0.1), min(1.1, (600 / self.H) ** 0.1))
-            elif self.timber_member.NEd > 0 and self.B < 600:
-                return min(1.1, (600 / self.B) ** 0.1)
-            elif Med != 0 and self.H < 600:
-                return min(1.1, (600 / self.H) ** 0.1)
-            else:
-                return 1.0
+            return max(1.0, min(1.1, (600 / h) ** 0.1))
         elif self.material.type == 'lvl':
-            if Med != 0 and self.H != 300:
-                return min(1.2, (300 / self.H) ** self.material.s)
-            else:
-                return 1.0
+            return min(1.2, (300 / h) ** self.material.s)
         else:
             return 1.0
 
diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 974732d..3fd9545 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -164,7 +164,7 @@ class TimberMember:
     @property
     def ft0d(self) -> float:
         if self.material.type == 'solid_timber' or self.material.type == 'glt':
-            return self.section.k_h * k_to_d(self.material.ft0k, self.kmod, self.gammaM)
+            return self.section.k_h_t * k_to_d(self.material.ft0k, self.kmod, self.gammaM)
         elif self.material.type == 'lvl':
             return self.k_L * k_to_d(self.material.ft0k, self.kmod, self.gammaM)
 
-- 
2.43.0


From 737a2066a236c568e27cd5409a988f43364c25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 169/262] fix: shear resistance of studs, EN 1994-1-1 (6.18)

---
 metku/eurocodes/en1994/en1994_1_1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 2f11218..7ed78b0 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -15,6 +15,7 @@ import math
 
 try:
     from metku.eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
+    from metku.eurocodes.en1994.constants import gammaV
 except:
     from eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
     from eurocodes.en1994.constants import gammaV
@@ -42,7 +43,7 @@ class ShearStud:
     def PRd(self,fck,Ecm,verb=False):
         """ Shear force resistance of a stud """
         
-        PRd_steel = 0.8*self.fu*math.pi**2*self.d**2/4
+        PRd_steel = 0.8*self.fu*math.pi*self.d**2/4/gammaV
         
         if self.length/self.d > 4:
             alpha = 1.0
-- 
2.43.0


From 42165a638295eaa62d1a46892180869889e067a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 170/262] fix: diameter of 25 mm shear studs

---
 metku/eurocodes/en1994/en1994_1_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 7ed78b0..3c5c690 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -23,7 +23,7 @@ except:
 
 S3L_Studs = {19: {"D": 19.0, "A": 9.52, "H": 31.75},
             22: {"D": 22.0, "A": 9.52, "H": 34.925},
-            25: {"D": 19.0, "A": 12.7, "H": 41.275},
+            25: {"D": 25.0, "A": 12.7, "H": 41.275},
             }
 
 
-- 
2.43.0


From 7b6731c5b74f5764f761aa742aa45b442e26394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 171/262] fix: concrete strength of composite beams is reduced
 once by 0.85, EN 1994-1-1 6.2.1.2

---
 metku/sections/composite/composite_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index cedc960..42426ce 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -336,7 +336,7 @@ class CompositeIBeam:
     def Rc(self):
         """ Full resultant of concrete part """
         
-        return 0.85*self.slab.material.fcd()*self.Ac
+        return 0.85*self.slab.material.fcd(a_cc=1.0)*self.Ac
     
     def Rf(self):
         """ Resultant of top flange of the steel beam """
-- 
2.43.0


From 0539dcf5ff6322960be4e72e470c9a37a1a936b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 172/262] fix: plastic neutral axis of composite beams in the
 top flange and in the web

---
 metku/sections/composite/composite_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index 42426ce..9c5ade6 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -363,7 +363,7 @@ class CompositeIBeam:
         
         if Ra < Rc:
             ec0 = Ra/Rc*hc
-        elif Rc < Ra-2*self.Rf():
+        elif Rc > Ra-2*self.Rf():
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
         else:
@@ -395,7 +395,7 @@ class CompositeIBeam:
                 print("Ra = {0:4.2f} kN".format(Ra*1e-3))
                 print("Rc = {0:4.2f} kN".format(Rc*1e-3))
                 print("ec0 = {0:4.2f} [mm]".format(ec0))
-        elif Rc < Ra-2*self.Rf():
+        elif Rc > Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-- 
2.43.0


From 6352a134de539eccb62e967a6fac4e3e3bb343e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 173/262] fix: composite beams that share a concrete have their
 own relative humidity

---
 metku/eurocodes/en1992/constants.py        | 5 +++--
 metku/sections/composite/composite_beam.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1992/constants.py b/metku/eurocodes/en1992/constants.py
index af82cb9..7805089 100644
--- a/metku/eurocodes/en1992/constants.py
+++ b/metku/eurocodes/en1992/constants.py
@@ -65,10 +65,11 @@ class Concrete:
         """ Reduction factor for concrete cracked due to shear """
         return 0.6*(1-self.fck/250)
     
-    def creep_coefficient(self,h0,t,t0=None):
+    def creep_coefficient(self,h0,t,t0=None,RH=None):
         """ According to EN 1992-1-1, Annex B """
         
-        RH = self.RH
+        if RH is None:
+            RH = self.RH
         
         """ Eq. (B.8c) """
         alpha = [0,0,0]
diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index 9c5ade6..2011356 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -142,7 +142,7 @@ class CompositeIBeam:
         self.length = length
         self.steel = steel_part
         self.slab = slab
-        self.slab.material.RH = RH
+        self.RH = RH
         self.studs = studs
         self.st = 150
         self.sf = 150
@@ -154,7 +154,7 @@ class CompositeIBeam:
         if t0 is None:
             t0 = self.t0
             
-        return self.slab.material.creep_coefficient(self.slab.h0,1e8,t0)
+        return self.slab.material.creep_coefficient(self.slab.h0,1e8,t0,self.RH)
     
     @property
     def n0(self):
-- 
2.43.0


From b0a4ed251bbbecf10f9237d618d687f0c2397a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 174/262] fix: second moment of area of the concrete in tubes
 with rounded corners

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 962c28e..9c138d9 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -264,7 +264,7 @@ class ConcreteFilledTube:
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
         
         return Icy
     
-- 
2.43.0


From 2eed90dac3509abde59e32f4b7aec0695315d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 175/262] fix: horizontal edge distance of rebars

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 9c138d9..2b262d6 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -143,7 +143,7 @@ class ConcreteFilledTube:
         """ Distance in y-direction (horizontal) of the rebar edge from
             inner surface of the steel profile
         """
-        return 0.5*self.steel.B - self.steel.T - self.rebar_pos[0] + self.rebar.r
+        return 0.5*self.steel.B - self.steel.T - (self.rebar_pos[0] + self.rebar.r)
         
     @v.setter
     def v(self,v):
-- 
2.43.0


From 68ee05cf464b7d6399787151540faba916f9a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 176/262] fix: area of reinforcement follows the number of
 rebars

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 2b262d6..15bd696 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -163,7 +163,7 @@ class ConcreteFilledTube:
     def As(self):
         """ Total area of rebar
         """
-        return 4*self.rebar.A
+        return self.nbars*self.rebar.A
     
     @property
     def Aa(self):
-- 
2.43.0


From aa902d3fc882c54adee82846f38747bbaccca662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 177/262] fix: composite columns do not share the given list of
 rebar positions

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 15bd696..58d7993 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -67,7 +67,7 @@ class ConcreteFilledTube:
             self.u = 30
             self.v = 30
         else:    
-            self.rebar_pos = rebar_pos
+            self.rebar_pos = list(rebar_pos)
     
     
     @property
-- 
2.43.0


From 02c6aed0d1f88336811d5dd8f041a1085f0567ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 178/262] fix: reduction factors at temperatures between 100
 and 200 degrees and outside the tables

---
 metku/eurocodes/en1993/en1993_1_2.py | 43 +++++++++-------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..3a48a66 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -109,37 +109,20 @@ def reduce_property(t,prop,steel='carbon'):
         of property 'prop'
     """
     rf = 1.0
-    # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
-        if steel == 'carbon':
-            rf = REDUCTION_FACTORS_CS[t][prop]
-        elif steel =='1.4301':
-            rf = REDUCTION_FACTORS_14301[t][prop]
-        elif steel == 'bolts':
-            rf = REDUCTION_FACTORS_BOLTS[t][prop]
-        else:
-            print("Unidentified steel grade!")
+    if steel == 'carbon':
+        table = REDUCTION_FACTORS_CS
+    elif steel == '1.4301':
+        table = REDUCTION_FACTORS_14301
+    elif steel == 'bolts':
+        table = REDUCTION_FACTORS_BOLTS
     else:
-        # t does not match any of the special temperatures;
-        # Do linear interpolation
-        
-        """ Find the largest smaller and smallest larger
-            temperatures and the corresponding reduction factors
-        """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
-        
-        if steel == 'carbon':
-            p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_CS[t_larger][prop]
-        elif steel == '1.4301':
-            p_smaller = REDUCTION_FACTORS_14301[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_14301[t_larger][prop]
-        elif steel == 'bolts':
-            p_smaller = REDUCTION_FACTORS_BOLTS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_BOLTS[t_larger][prop]
-            
-        rf = linear_interpolation((t_smaller,p_smaller), (t_larger,p_larger), t)
+        table = None
+        print("Unidentified steel grade!")
+
+    if table is not None:
+        # Linear interpolation between the temperatures of the table of the steel
+        temps = sorted(table)
+        rf = np.interp(t,temps,[table[temp][prop] for temp in temps])
     
     return rf
 
-- 
2.43.0


From 05cc49ef0cc683b17cdb23bc781801e783159a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 179/262] fix: factor k2% of stainless steel above 900 degrees,
 EN 1993-1-2 Table C.1

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 3a48a66..df74d62 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From 5b940cf5bb71d1b24f88700c5c3e76c086d7d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 180/262] fix: temperature of steel for other gas temperature
 curves

---
 metku/eurocodes/en1993/en1993_1_2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index df74d62..6a4496e 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -339,10 +339,10 @@ def steel_temp(ksh,AmV,tmax,gas_temp=standard_fire,dt=5,Tsteel_ini=20):
     Tsteel = [Tsteel_ini]
     Time = [0]
     
-    if gas_temp == standard_fire:
-        aconv = 25
-    elif gas_temp == hydrocarbon_fire:
+    if gas_temp == hydrocarbon_fire:
         aconv = 50
+    else:
+        aconv = 25
     
     while t < tmax:
         """ Assume that gas_temp is a function that takes
@@ -373,10 +373,10 @@ def stainless_steel_temp(ksh,AmV,tmax,gas_temp=standard_fire,dt=5,Tsteel_ini=20)
     Tsteel = [Tsteel_ini]
     Time = [0]
     
-    if gas_temp == standard_fire:
-        aconv = 25
-    elif gas_temp == hydrocarbon_fire:
+    if gas_temp == hydrocarbon_fire:
         aconv = 50
+    else:
+        aconv = 25
     
     while t < tmax:
         """ Assume that gas_temp is a function that takes
-- 
2.43.0


From e564c8ce446f4b624f75a86f2b4ebd1187e8c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 181/262] fix: design of composite columns with negative end
 moments

---
 metku/sections/composite/composite_column.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 58d7993..25e4991 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -553,6 +553,8 @@ class ConcreteFilledTube:
         """ Design for combined bending moment and axial force """
         e0 = self.e0()
         Med0 = self.NEd*e0
+        # Larger end moment; the sign of the end moments is in the ratio M1/M2
+        M2 = abs(self.M2)
         
         if verb:
             print("Initial imperfection e0 = {0:4.2f} mm".format(e0))
@@ -570,15 +572,15 @@ class ConcreteFilledTube:
             if verb:
                 print("Include second-order effects.")
                 
-            if self.M2 > 0:
+            if M2 > 0:
                 bm = max(0.66+0.44*self.M1/self.M2,0.44)
             else:
                 bm = 0
                 
-            MEdI = bm*self.M2 + Med0
+            MEdI = bm*M2 + Med0
             km = max(1/(1-self.NEd/Ncr_eff),1.0)
             
-            MEd = max(km*MEdI,self.M2)
+            MEd = max(km*MEdI,M2)
             
             if verb:
                 print("bm = {0:4.3f}".format(bm))
@@ -587,7 +589,7 @@ class ConcreteFilledTube:
                 print("MEd = {0:4.2f} kNm".format(MEd*1e-6))
                             
         else:
-            MEd = Med0 + self.M2
+            MEd = Med0 + M2
             if verb:
                 print("No need to include second-order effects.")
                 
-- 
2.43.0


From 82f438e6b7cbd6f67a1d0d3de9f23f6fd78670f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 182/262] fix: warning of slender composite columns shows the
 slenderness

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 25e4991..12ba14f 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -543,7 +543,7 @@ class ConcreteFilledTube:
             
         if slend > 2.0:
             """ too slender member """
-            print("Warning: slenderness too large - {0:4.2f} > 2.0".format(A_ratio))
+            print("Warning: slenderness too large - {0:4.2f} > 2.0".format(slend))
         
         
         if self.M2 == 0:
-- 
2.43.0


From aa652d9ba5daf5e1f35f4ce3a0ff584d74cb010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 183/262] fix: coefficients k3, k8, k9 and k10 of EN 1993-1-3,
 6.1.7.2

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index df7dfdb..800a058 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -173,7 +173,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         return min(max(1.15-0.15*r/t,0.5),1.0)
     
     def k3(phi):
-        return 0.7 + 0.3*(phi/90**2)
+        return 0.7 + 0.3*(phi/90)**2
 
     def k4(k):
         return 1.22-0.22*k
@@ -201,13 +201,13 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         if hw_t < 66.5:
             return 1/k
         else:
-            return (1.1-hw_t/665)*k
+            return (1.1-hw_t/665)/k
     
     def k9(t):
-        return 0.82 + 0.15*t/0.19
+        return 0.82 + 0.15*t/1.9
     
     def k10(hw,t,k):
-        return (0.98-hw/t/865)*k
+        return (0.98-hw/t/865)/k
     
     def k11(t):
         return 0.64+0.31*t/1.9
-- 
2.43.0


From 3076e7bf0a8e68383b57624038807e282ae5c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 184/262] fix: transverse resistance of stiffened webs

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 800a058..1b9f22d 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -222,7 +222,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # of the member.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
@@ -236,7 +236,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
                         C = C0*(5.92-hw/t/132)*(0.71+0.015*ss_t)
         else:
             if web_stiffeners:
-                C0 = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
+                C = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 ss_t = ss/t
@@ -252,14 +252,14 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # the two forces separately.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
                 C = C0*(6.66-hw/t/64)*(1+0.01*ss/t)
         else:
             if web_stiffeners:
-                C0 = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
+                C = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 C = C0*(21.0-hw/t/16.3)*(1+0.0013*ss/t)
-- 
2.43.0


From 82e8936832b377d76bc79123d4f7937d38084b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 185/262] fix: edge distance of screws is compared with 1.5 d

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 1b9f22d..bc9e894 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -386,7 +386,7 @@ def RwRd_two_webs(fyb,r,t,phi,hw,ss,verb=False,code='old',**kwargs):
 """ Table 8.2: Design resistances for self-tapping screws """
 def screw_validity(e1,e2,p1,p2,d,t,t1):
     """ Check the conditions on the range of validity """
-    if e1 >= 3*d and e2 >= 1.5 and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
+    if e1 >= 3*d and e2 >= 1.5*d and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
         return True
     else:
         return False
-- 
2.43.0


From bb20708556732abbf8c2488254ef95a942a15978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 186/262] fix: rotational stiffness of sheeting in negative
 position and for 0.75 < tnom < 1.0

---
 .../eurocodes/en1993/en1993_1_3/en1993_1_3.py  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index bc9e894..fd44dc0 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -532,16 +532,16 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
         kbR = 185/bR
     
     if load == 'gravity':
+        if tnom < 0.75:
+            raise ValueError("CD_A: tnom must be at least 0.75 mm for gravity load.")
+        
+        # Linear interpolation between tnom = 0.75 and tnom = 1.0
         if position == 'pos':
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.08
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            cA = linear_interpolation((0.75,0.08),(1.0,0.095),min(tnom,1.0))
         else:
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.16
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            cA = linear_interpolation((0.75,0.16),(1.0,0.095),min(tnom,1.0))
+        
+        kA = 1.0+(A-1.0)*cA
     else:
         kA = 1.0
     
@@ -555,7 +555,7 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
             C100 = 5.2
         else:
             bT_max = 120
-            C10 = 3.1
+            C100 = 3.1
     else:
         C100 = 2.6
         bT_max = 40
-- 
2.43.0


From 6fa2ac280eadeb285e83da0897150ab2d225569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 187/262] fix: principal second moments of open profiles

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 919ecb1..fbb7f48 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -233,8 +233,8 @@ class OpenProf:
         else:
             a = 0
             
-        I1 = 0.5*(Iy+Iz+np.sqrt(d^2+4*Iyz^2))
-        I2 = .5*(Iy+Iz-np.sqrt(d^2+4*Iyz^2))
+        I1 = 0.5*(Iy+Iz+np.sqrt(d**2+4*Iyz**2))
+        I2 = .5*(Iy+Iz-np.sqrt(d**2+4*Iyz**2))
         
         return [I1,I2], a
     
-- 
2.43.0


From 94b85c5eb137484770c5876f05c31dddbe99abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 188/262] fix: wall thickness of open profiles can be an
 integer

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index fbb7f48..84ee25f 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -40,7 +40,7 @@ class OpenProf:
                 self.nodes.append(Node(y=node[0],z=node[1]))
         
         #self.nodes = np.array(nodes)
-        if isinstance(t,float):
+        if np.ndim(t) == 0:
             self.t = t*np.ones(n-1)
         else:
             self.t = np.array(t)
-- 
2.43.0


From 2d290401eca270a43209fc197d06af4698eda447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 189/262] fix: torsion constant of open profiles with split or
 modified segments

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 84ee25f..c43f467 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -307,11 +307,13 @@ class OpenProf:
     def torsion_constant(self):
         dA = np.array([s.area() for s in self.segments])
         
-        return sum(dA*np.array(self.t)**2/3)
+        t = np.array([s.t for s in self.segments])
+        
+        return sum(dA*t**2/3)
     
     def torsion_modulus(self):
         
-        return self.torsion_constant()/min(self.t)
+        return self.torsion_constant()/min([s.t for s in self.segments])
     
     def split_segment(self,n,s):
         """ Splits a segment into two by adding a point 
-- 
2.43.0


From e4b0eb9569361c636270d15c19b483d835697a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 190/262] fix: number of bends in the average yield strength of
 sections without lips

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 31b8ac2..7e2d33e 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -281,7 +281,8 @@ class ZSection:
     @property
     def fya(self):
         """ Average yield strength """        
-        return en1993_1_3.fya(self.fyb,self.fu,self.t,Ag=self.Agross(),n=4)
+        n = 2 + int(self.ca > 0.0) + int(self.cb > 0.0)
+        return en1993_1_3.fya(self.fyb,self.fu,self.t,Ag=self.Agross(),n=n)
         
     @property
     def fyb(self):
-- 
2.43.0


From a45a684b60b692fc6ad770c13027048e1df0f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 191/262] fix: web length and pitch of trapezoidal sheeting

---
 metku/eurocodes/en1993/en1993_1_3/trapezoidal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
index 21d213f..846418c 100644
--- a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
+++ b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
@@ -89,12 +89,12 @@ class TrapezoidalSheet:
     @property
     def sw(self):
         """ Length of one web """
-        return self.hw*np.sin(self.angle_rad)
+        return self.hw/np.sin(self.angle_rad)
     
     @property
     def pitch(self):
         """ Pitch of corrugations """
-        return self.bb+self.bt+2*self.h*np.cos(self.angle_rad)
+        return self.bb+self.bt+2*self.hw/np.tan(self.angle_rad)
     
     @property
     def width(self):
-- 
2.43.0


From 9f2eb09f6e67faf2404a92bf90f69a2cd095fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 192/262] fix: seam fasteners in crests

---
 metku/structures/steel/stressed_skin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/stressed_skin.py b/metku/structures/steel/stressed_skin.py
index 75ed58d..72f5518 100644
--- a/metku/structures/steel/stressed_skin.py
+++ b/metku/structures/steel/stressed_skin.py
@@ -163,7 +163,8 @@ class StressedSkin:
         if self.seam_fastener['loc'] == 'trough':
             beta3 = 1.0
         else:
-            beta3 = (self.nf-1)/self.nf
+            nf = self.nf()
+            beta3 = (nf-1)/nf
 
         return beta3
 
-- 
2.43.0


From c38309afe80518c914107743f870ed6023b7dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 193/262] fix: resistances of edge member fasteners and end
 collapse are returned

---
 metku/structures/steel/stressed_skin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/structures/steel/stressed_skin.py b/metku/structures/steel/stressed_skin.py
index 72f5518..7d9d30f 100644
--- a/metku/structures/steel/stressed_skin.py
+++ b/metku/structures/steel/stressed_skin.py
@@ -409,6 +409,8 @@ class StressedSkinRafters(StressedSkin):
             print(f"nsc = {nsc:.0f} ")
             print(f"V = {V*1e-3:.2f} kN")
         
+        return V
+        
     def sheet_rafter_fastener_strength(self,verb=False):
         """ ECCS (1995), 5.8.3.1 """
         
@@ -446,6 +448,8 @@ class StressedSkinRafters(StressedSkin):
             print(f"fy = {fy:.2f} MPa ")
             print(f"d = {d:.2f} mm ")
             print(f"V = {V*1e-3:.2f} kN")
+        
+        return V
 
     def profile_distortion(self,verb=True):
         """ Shear flexibility for profile distortion,
-- 
2.43.0


From 78f55752b52e9af1b0ac5a609b64918c1b1b2df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 194/262] fix: profile distortion factor K at and below the
 grid of the table

---
 metku/structures/steel/stressed_skin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/stressed_skin.py b/metku/structures/steel/stressed_skin.py
index 7d9d30f..78c8224 100644
--- a/metku/structures/steel/stressed_skin.py
+++ b/metku/structures/steel/stressed_skin.py
@@ -215,8 +215,13 @@ class StressedSkin:
         l2d = l/d
         h2d = h/d
         
-        lnd = int(l2d/0.1)-1
-        hnd = int(h2d/0.1)-1
+        # Rounding is needed for ratios that are on the grid of the table,
+        # e.g. 0.3/0.1 < 3 in floating point arithmetic
+        lnd = int(round(l2d/0.1,6))-1
+        hnd = int(round(h2d/0.1,6))-1
+        
+        if lnd < 0 or hnd < 0:
+            raise ValueError("K: l/d and h/d must be at least 0.1.")
         
         angle = 90-self.sheet.angle
         
-- 
2.43.0


From 68a07ccb0c59131eeb2afa3903b1ec8f3637c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 195/262] fix: centre line of C and Z sections with large
 corner radii does not double back

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 7e2d33e..72795ed 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -513,8 +513,8 @@ class ZSection:
         top_nodes = [[rm,web_nodes[1][1]]]
         
         if bp_top_lip > 0.0:
-            top_nodes += [[0.25*bp_top,web_nodes[1][1]],
-                          [0.75*bp_top,web_nodes[1][1]],
+            top_nodes += [[rm+0.25*self.c_top,web_nodes[1][1]],
+                          [rm+0.75*self.c_top,web_nodes[1][1]],
                           [bp_top-rm,web_nodes[1][1]]]
             
             # Corner
@@ -532,10 +532,10 @@ class ZSection:
             # Top lip nodes
             
             self.add([bp_top,web_nodes[1][1]-rm],'top_lip')
-            self.add([bp_top,web_nodes[1][1]-0.5*bp_top_lip],'top_lip')
+            self.add([bp_top,web_nodes[1][1]-rm-0.5*self.ca_straight],'top_lip')
             self.add([bp_top,web_nodes[1][1]-bp_top_lip],'top_lip')
         else:
-            top_nodes += [[0.5*bp_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
+            top_nodes += [[rm+0.5*self.c_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
         
             for node in top_nodes:
                 self.add(node,part='top_flange')
@@ -1499,8 +1499,8 @@ class CSection(ZSection):
         top_nodes = [[rm,web_nodes[1][1]]]
         
         if bp_top_lip > 0.0:
-            top_nodes += [[0.25*bp_top,web_nodes[1][1]],
-                          [0.75*bp_top,web_nodes[1][1]],
+            top_nodes += [[rm+0.25*self.c_top,web_nodes[1][1]],
+                          [rm+0.75*self.c_top,web_nodes[1][1]],
                           [bp_top-rm,web_nodes[1][1]]]
             
             # Corner
@@ -1518,10 +1518,10 @@ class CSection(ZSection):
             # Top lip nodes
             
             self.add([bp_top,web_nodes[1][1]-rm],'top_lip')
-            self.add([bp_top,web_nodes[1][1]-0.5*bp_top_lip],'top_lip')
+            self.add([bp_top,web_nodes[1][1]-rm-0.5*self.ca_straight],'top_lip')
             self.add([bp_top,web_nodes[1][1]-bp_top_lip],'top_lip')
         else:
-            top_nodes += [[0.5*bp_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
+            top_nodes += [[rm+0.5*self.c_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
         
             for node in top_nodes:
                 self.add(node,part='top_flange')
-- 
2.43.0


From dcb5e956316b69cfe621499f750ca8f6c09075d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 196/262] fix: transposed digits in the table of profile
 distortion factors (theta = 0, h/d = 0.5, l/d = 0.2)

---
 metku/structures/steel/stressed_skin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/stressed_skin.py b/metku/structures/steel/stressed_skin.py
index 78c8224..ea8e06d 100644
--- a/metku/structures/steel/stressed_skin.py
+++ b/metku/structures/steel/stressed_skin.py
@@ -22,7 +22,7 @@ K1 = {0: [[0.013, 0.03, 0.041, 0.041, 0.046, 0.05, 0.066, 0.103, 0.193],
           [0.042, 0.096, 0.131, 0.142, 0.142, 0.153, 0.199, 0.311, 0.602],
           [0.086, 0.194, 0.264, 0.285, 0.283, 0.302, 0.388, 0.601, 1.188],
           [0.144, 0.323, 0.438, 0.473, 0.468, 0.494, 0.629, 0.972, 1.935],
-          [0.216, 0.438, 0.654, 0.703, 0.695, 0.729, 0.922, 1.42, 2.837],
+          [0.216, 0.484, 0.654, 0.703, 0.695, 0.729, 0.922, 1.42, 2.837],
           [0.302, 0.674, 0.911, 0.98, 0.965, 1.008, 1.266, 1.938, 3.892],
           [0.402, 0.895, 1.208, 1.3, 1.277, 1.329, 1.661, 2.536, 5.098],
           [0.516, 1.146, 1.546, 1.662, 1.631, 1.692, 2.107, 3.208, 6.453]],
-- 
2.43.0


From ca71890c19efd8e862145cf4efe3eecd9c89afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 197/262] fix: semi-rigid beam element follows the interface of
 the finite element model (stale stiffness, shared stiffness list, loads of
 semi-rigid members)

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 167 ++----------------
 1 file changed, 15 insertions(+), 152 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..0fe7ef0 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam in 2D with rotational stiffness at nodes
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 from .ebbeam import EBBeam
 try:
     from metku.framefem import LineLoad
@@ -63,6 +60,8 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
+        # The stiffnesses belong to this element: do not modify the list of the caller
+        rot_stiff = list(rot_stiff)
         for i in range(2):
             if rot_stiff[i] <= kHinge:
                 rot_stiff[i] = kHinge
@@ -72,17 +71,6 @@ class EBSemiRigidBeam(EBBeam):
         # print(rot_stiff)
         self.rot_stiff = rot_stiff
 
-    def transformation_matrix(self):
-        """ From local to global coordinates """
-        c = self.direction_cosines()
-        L = np.zeros((6, 6))
-        L[0, 0:2] = c[0:2]
-        L[1, 0] = -L[0, 1]
-        L[1, 1] = L[0, 0]
-        L[2, 2] = 1.0
-        L[3:6, 3:6] = L[0:3, 0:3]
-        return L
-
     def gamma(self):
         """ Eq. (12) of Jalkanen (2004) """
 
@@ -122,12 +110,6 @@ class EBSemiRigidBeam(EBBeam):
 
         return S
 
-    def global_dofs(self):
-        """ Get numbering of element global degrees of freedom """
-        return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
-        #return self.nodes[0].dofs + self.nodes[1].dofs
-
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
@@ -176,59 +158,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return k0
 
-    def stiffness_matrix(self):
-        """ Compute the stiffness matrix """
-
-        E = self.material.young
-        A = self.section.A
-        I1 = self.section.I[0]
-        Le = self.length()
-        k0 = self.local_stiffness_matrix(E, A, I1, Le)
-
-        # k0 = CheckReleases[fem.elem[N],k0];
-
-        # local-global matrix
-        L = self.transformation_matrix()
-
-        # globaali elementin matriisi
-        ke = L.transpose().dot(k0.dot(L))
-
-        return ke
-
-    def local_geometric_stiffness_matrix(self,lcase=0):
-        """ Geometric stiffness matrix in local coordinates
-            From: Cook et. al 1989, Section 14.2
-        """
-        #P = self.axial_force[1]
-        P = self.fint[lcase]['fx'][1]
-        Le = self.length()
-
-        g0 = P / 30 / Le
-        keg0 = g0 * np.array([[36, 3 * Le, -36, 3 * Le],
-                              [3 * Le, 4 * Le ** 2, -3 * Le, -Le ** 2],
-                              [-36, -3 * Le, 36, -3 * Le],
-                              [3 * Le, -Le ** 2, -3 * Le, 4 * Le ** 2]])
-        kg0 = np.zeros([6, 6])
-        q = [1, 2, 4, 5]
-        kg0[np.ix_(q, q)] = keg0
-
-        return kg0
-
-    def geometric_stiffness_matrix(self,lcase=0):
-        """ Geometric stiffness matrix in global coordinates
-            From: Cook et. al (1989), Section 14.2
-        """
-
-        # local-global transformation matrix
-        L = self.transformation_matrix()
-
-        kG0 = self.local_geometric_stiffness_matrix(lcase)
-
-        kG = L.transpose().dot(kG0.dot(L))
-
-        return kG
-
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
             'load' is a Load type object. By default, it is assumed that
@@ -239,84 +169,17 @@ class EBSemiRigidBeam(EBBeam):
             :return: Equivalent nodal loads for load in vector q
             :rtype: np.array
         """
-        floc = np.zeros(6)
+        # Loads of the element with rigid joints
+        other = self.floc.get(load.sid, 0)
+        super().equivalent_nodal_loads(load, order, initial)
+        floc = self.floc[load.sid] - other
 
-        T = self.transformation_matrix()
-        L = self.length()
+        # The joints rotate under the load: the displacements of the element ends are
+        # (I + S/delta)*q, where q are the displacements of the nodes.
+        G = np.eye(6)
+        G[np.ix_([1, 2, 4, 5], [1, 2, 4, 5])] += 1 / self.delta() * self.matrix_S()
+        floc = G.transpose().dot(floc)
 
-        if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
-            # print(q1,q2)
-            if load.coords == 'local':
-                # print('local coordinates')
-                """ Load is given in local coordinates """
-                if load.dir == "x":
-                    """ Load is in the axial direction """
-                elif load.dir == 'y':
-                    """ Load is perpendicular to the member """
-                    floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
-                    floc[4] = 3 / 20 * q1 * L + 7 / 20 * q2 * L
-                    floc[2] = L ** 2 * (1 / 20 * q1 + 1 / 30 * q2)
-                    floc[5] = -L ** 2 * (1 / 30 * q1 + 1 / 20 * q2)
-                # print(floc)
-            else:
-                """ Load is given in global coordinates: it has to be transformed
-                    first into local coordinates.
-                """
-                if load.dir == "x":
-                    # q = np.array([q1, 0, 0])
-                    q = np.array([1, 0, 0])
-                else:
-                    # q = np.array([0, q1, 0])
-                    q = np.array([0, 1, 0])
-                # Load vector transformed into element local coordinate system
-                qloc = T[:3, :3].dot(q)
-
-                """ Loads perpendicular to the axis of the element """
-                qy1 = q1 * qloc[1]
-                qy2 = q2 * qloc[1]
-                floc[1] = 7 / 20 * qy1 * L + 3 / 20 * qy2 * L
-                floc[4] = 3 / 20 * qy1 * L + 7 / 20 * qy2 * L
-                floc[2] = L ** 2 * (1 / 20 * qy1 + 1 / 30 * qy2)
-                floc[5] = -L ** 2 * (1 / 30 * qy1 + 1 / 20 * qy2)
-
-                """ Loads parallel to the axis of the element """
-                qx1 = q1 * qloc[0]
-                qx2 = q2 * qloc[0]
-                floc[0] = 0.5 * L * (0.5 * (qx1 + qx2) - 1 / 6 * (qx2 - qx1))
-                floc[3] = 0.5 * L * (0.5 * (qx1 + qx2) + 1 / 6 * (qx2 - qx1))
-
-                # Construct nodal load in local coordinates
-                # qloc[0,1,2] = axial, shear, moment of node 1
-                # qloc[3,4,5] = axial, shear, moment ofnode 2
-                # Axial force
-                # floc[[0, 3]] = 0.5 * qloc[0] * L
-                # Shear force
-                # floc[[1, 4]] = 0.5 * qloc[1] * L
-                # Moment
-                # floc[2] = qloc[1] * L ** 2 / 12.0
-                # floc[5] = -floc[2]
-
-                # print(floc)
-
-        if len(self.releases) > 0:
-            """ There are releases in the element, so the local load vector
-                is modified.
-            """
-            rel = self.releases
-            # nrel is the list of non-released forces
-            nrel = np.setdiff1d(np.arange(6), rel)
-
-            # print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
-            floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
-            floc[rel] = 0
-
-            # Store local loads
-        self.floc[load.sid] = floc
-
-        # print(self.floc)
-
-        fglob = T.transpose().dot(floc)
-
-        return fglob
\ No newline at end of file
+        self.floc[load.sid] = other + floc
+
+        return self.transformation_matrix(initial).transpose().dot(floc)
-- 
2.43.0


From 118a49221739659b781942fe9b26939c37cb9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 198/262] fix: scaling factor of line loads of Frame2D is not
 lost

---
 metku/frame2d/frame2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 21d8541..cdb9fb3 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3666,6 +3666,7 @@ class LineLoad(Load):
                                 # [v0, v1],
                                 self.direction,
                                 self.coord_sys)
+            load.f = self.f
             fem_model.add_load(load)
             v0 = v1
 
-- 
2.43.0


From 829dbfe411b4a044a98d8267169838add431c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 199/262] fix: linearly varying line load on a Frame2D member
 with elements of different lengths

---
 metku/frame2d/frame2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index cdb9fb3..8083f7d 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3656,7 +3656,10 @@ class LineLoad(Load):
         """ Add the load to the FEM model """
         # k = self.calc_k()
         v0, v1 = self.values
-        qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
+        # The elements of the member can have different lengths
+        start = np.asarray(self.member.coordinates[0])
+        qvals = [v0 + (v1 - v0) * np.linalg.norm(node.coord - start) / self.member.length
+                 for node in self.member.nodes.values()]
         for i, elem_id in enumerate(self.member.elements.keys()):
             # v1 = (i * k) + v0
             load = fem.LineLoad(self.load_id,
-- 
2.43.0


From 0d2815fa79a4e3cb37f2679ebcff62a8a99e2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 200/262] fix: largest shear force of a Frame2D member (zero,
 and values at the start of the elements missed)

---
 metku/frame2d/frame2d.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 8083f7d..4c6c2ad 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1621,9 +1621,7 @@ class FrameMember:
         return unit
 
     def get_absmax_force_value(self, load_id, force='fx'):
-        F0 = [list(self.elements.values())[0].fint[load_id][force][0]]
-        F = [el.fint[load_id][force][1] for el in self.elements.values()]
-        F.extend(F0)
+        F = [f for el in self.elements.values() for f in el.fint[load_id][force]]
         F_min = min(F)
         F_max = max(F)
         if F_max > abs(F_min):
@@ -1644,7 +1642,7 @@ class FrameMember:
     def VEd(self):
         VEds = {}
         for load_id in self.load_ids:
-            VEd = self.get_absmax_force_value(load_id, 'fy')
+            VEd = self.get_absmax_force_value(load_id, 'fz')
             VEds[load_id] = VEd
         return VEds
 
-- 
2.43.0


From b70afe9cc0816d7ac9f9eee591e14852574827e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 201/262] fix: design of Frame2D members takes the forces on
 both sides of a node into account

---
 metku/frame2d/frame2d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 4c6c2ad..6d062e9 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2523,13 +2523,18 @@ class FrameMember:
         self.member.length = self.length
         self.member.profile = self.cross_section
         self.member.clear_sections()
+        M2, N2, V2 = 0, 0, 0
         for i, element in enumerate(self.elements.values()):
             # M1, M2 = element.bending_moment
             # N1, N2 = element.axial_force
             # V1, V2 = element.shear_force
-            M1, M2 = element.fint[load_id]['my']
-            N1, N2 = element.fint[load_id]['fx']
-            V1, V2 = element.fint[load_id]['fz']
+            # The forces can be different on the two sides of a node: use the larger ones
+            M1 = max(M2, element.fint[load_id]['my'][0], key=abs)
+            N1 = max(N2, element.fint[load_id]['fx'][0], key=abs)
+            V1 = max(V2, element.fint[load_id]['fz'][0], key=abs)
+            M2 = element.fint[load_id]['my'][1]
+            N2 = element.fint[load_id]['fx'][1]
+            V2 = element.fint[load_id]['fz'][1]
             loc = self.locs[i]
             self.member.add_section(ned=N1, vzed=V1,
                                     myed=M1, loc=loc)
-- 
2.43.0


From e1b23161114ca936d6dabc772ad044091da896f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 202/262] fix: Frame2D member is strong enough only if it
 carries all the load cases

---
 metku/frame2d/frame2d.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 6d062e9..37597ad 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2600,13 +2600,11 @@ class FrameMember:
 
         rmax = self.member.design()
 
-        if rmax > 1.0:
-            self.is_strong_enough = False
-        else:
-            self.is_strong_enough = True
-
         self.r[lcase] = rmax
 
+        # All the load cases have to be carried
+        self.is_strong_enough = all(r <= 1.0 for r in self.r.values())
+
         # self.r = max(max(r1), r2)
 
     def optimum_design(self, prof_type='CURRENT'):
-- 
2.43.0


From a2ef2f43a76857c8ff5230a8a343612856d2bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 203/262] fix: Frame2D.optimize_members iterates until no
 member changes

---
 metku/frame2d/frame2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 37597ad..c48366d 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -545,8 +545,10 @@ class Frame2D:
 
         while PROFILES_CHANGED and k < kmax:
             self.calculate('all', 'REM')
+            PROFILES_CHANGED = False
             for member in self.members.values():
-                PROFILES_CHANGED = member.optimum_design(prof_type)
+                if member.optimum_design(prof_type):
+                    PROFILES_CHANGED = True
 
             k += 1
 
-- 
2.43.0


From b64b8564677551c6978980eaded41f535a8d9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 204/262] fix: Frame2D optimum design uses the forces of each
 load case

---
 metku/frame2d/frame2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index c48366d..d2a0ffe 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2654,6 +2654,7 @@ class FrameMember:
             self.profile = profile
 
             for load_id in self.load_ids:
+                self.assign_forces(load_id)
                 self.design(load_id)
 
             if all(r <= 1.0 for r in self.r.values()):  # <= 1.0:
-- 
2.43.0


From 6946e8621ce0b0ed6bfe9b1b79d492469194a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 205/262] fix: Frame2D optimum design keeps the profile family
 of SHS and HE profiles

---
 metku/frame2d/frame2d.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index d2a0ffe..4b15779 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2622,14 +2622,12 @@ class FrameMember:
             """ Use the cross section family of the current profile """
             if isinstance(self.cross_section, IPE):
                 prof_type = "IPE"
-            elif isinstance(self.cross_section, HEA):
+            elif isinstance(self.cross_section, (HEA, HEAA, HEB, HEC, HEM)):
                 prof_type = "H"
-            elif isinstance(self.cross_section, HEB):
-                prof_type = "H"
-            elif isinstance(self.cross_section, RHS):
-                prof_type = "RHS"
             elif isinstance(self.cross_section, SHS):
                 prof_type = "SHS"
+            elif isinstance(self.cross_section, RHS):
+                prof_type = "RHS"
             elif isinstance(self.cross_section, CHS):
                 prof_type = "CHS"
             else:
-- 
2.43.0


From c702fa8d02bd8454b048dcb61587ecf3f97a8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 206/262] fix: point loads, supports and joints inside inclined
 Frame2D members are not dropped because of rounding

---
 metku/frame2d/frame2d.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 4b15779..5e7bdce 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2719,17 +2719,12 @@ class FrameMember:
         # The line between start_node and end_node is
         # x(t) = start_node + t*(end_node-start_node), t \in [0,1]
         # If we can find t \in [0,1], for which x(t) = coordinate, then
-        # the point and member intersect.
-        if abs(x2 - x1) > 1e-8:
-            t1 = (x - x1) / (x2 - x1)
-            if 0 <= t1 <= 1 and abs(y1 + t1 * (y2 - y1) - y) < 1e-8:
-                res = True
-
-        else:
-            # Member is vertical
-            t1 = (y - y1) / (y2 - y1)
-            if 0 <= t1 <= 1 and abs(x1 - x) < 1e-8:
-                res = True
+        # the point and member intersect. The coordinates are rounded to PREC decimals.
+        L2 = (x2 - x1) ** 2 + (y2 - y1) ** 2
+        t1 = ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L2
+        dist = math.hypot(x1 + t1 * (x2 - x1) - x, y1 + t1 * (y2 - y1) - y)
+        if -10 ** -PREC <= t1 * math.sqrt(L2) <= math.sqrt(L2) + 10 ** -PREC and dist <= 10 ** -PREC:
+            res = True
 
         return res
 
@@ -3587,7 +3582,7 @@ class PointLoad(Load):
             f -- scaling factor
         """
 
-        self.__coordinate = coordinate
+        self.__coordinate = [round(c, PREC) for c in coordinate]
         self.v = np.asarray(v)
         self.f = f
         self.node = None
@@ -3595,7 +3590,7 @@ class PointLoad(Load):
     @property
     def coordinate(self):
         if self.node:
-            return self.node.coord
+            return list(self.node.coord)
         else:
             return self.__coordinate
 
-- 
2.43.0


From d0da5271827b01473ff94e2ce4e4f24d6c518ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 207/262] fix: supports and point loads added to a Frame2D
 before the member are not dropped

---
 metku/frame2d/frame2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 5e7bdce..fa94699 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -255,6 +255,10 @@ class Frame2D:
                 this.add_node_coord(coord)
                 member.add_node_coord(coord)
 
+        # Supports and point loads added before the member
+        for item in list(self.supports.values()) + list(self.point_loads.values()):
+            this.add_node_coord(item.coordinate)
+
         if str(this.nodal_coordinates) not in [str(c) for c in
                                                self.nodal_coordinates]:
             self.nodal_coordinates.extend(this.nodal_coordinates)
-- 
2.43.0


From 977cd4ac975413928d92ca3f8d186b870ed21ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 208/262] fix: simple Frame2D with storey heights that do not
 sum up exactly

---
 metku/frame2d/frame2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index fa94699..346dd6b 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -621,7 +621,7 @@ class Frame2D:
             self.add(col)
             # If the y2-coordinate equals frame's height, move the x-coordinate
             # by one bay length and initialize y-coordinates
-            if y2 == self.storeys * self.storey_height:
+            if (i + 1) % self.storeys == 0:
                 x += self.bay_length
                 y1 = 0
                 y2 = self.storey_height
@@ -645,7 +645,7 @@ class Frame2D:
             self.add(beam)
             # If y-coordinate equals frame's height, initialize y-coordinate
             # and change x-coordinates
-            if y == self.storeys * self.storey_height:
+            if (i + 1) % self.storeys == 0:
                 y = self.storey_height
                 x1 = x2
                 x2 += self.bay_length
-- 
2.43.0


From e6490bd10f0457b7f2a114006af1173a8181871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 209/262] fix: names of the load cases used by
 Frame2D.print_info and TimberFrameMember.print_info

---
 metku/frame2d/frame2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 346dd6b..896d5bb 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -31,9 +31,11 @@ from metku.structures.timber.timber_member import TimberMember
 class LoadIDs(Enum):
     ULS = 0
     SLS_Charasteristic = 1
+    SLS_Characteristic = 1
     SLS_Frequent = 2
     SLS_Quasi_permanent = 3
     Accidental = 4
+    ACC = 4
     Self_weight = 100
 
 
-- 
2.43.0


From 434786cd11f0b69dbd95e79d0d51649c7f71f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 210/262] fix: Frame2D.plot of members

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 896d5bb..89f61bd 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1101,7 +1101,7 @@ class Frame2D:
 
         # Plot members
         for member in self.members.values():
-            member.plot(print_text=print_text, color=color, axes=ax)
+            member.plot(print_text, color, ax)
 
         # Plot joints
         for joint in self.joints.values():
-- 
2.43.0


From bc57cb726e8546f7fad3003c00107d8386c9d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 211/262] fix: Frame2D does not lose a load because of the name
 given to another load

---
 metku/frame2d/frame2d.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 89f61bd..5b20b1e 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -208,8 +208,11 @@ class Frame2D:
         if not (this.load_id in self.load_ids):
             self.load_ids.append(this.load_id)
 
-        if this.name in self.line_loads.keys():
-            this.name += str(len(self.line_loads))
+        i = len(self.line_loads)
+        name = this.name
+        while this.name in self.line_loads.keys():
+            this.name = name + str(i)
+            i += 1
         self.line_loads[this.name] = this
 
     def add_pointload(self, this) -> bool:
@@ -226,8 +229,11 @@ class Frame2D:
         if not (this.load_id in self.load_ids):
             self.load_ids.append(this.load_id)
 
-        if this.name in self.point_loads.keys():
-            this.name += str(len(self.point_loads))
+        i = len(self.point_loads)
+        name = this.name
+        while this.name in self.point_loads.keys():
+            this.name = name + str(i)
+            i += 1
         self.point_loads[this.name] = this
 
         """ If the location of the point load is in between
-- 
2.43.0


From a00e34c378f2315ca0a2754a8d092f1a03359351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 212/262] fix: bars and braces of Frame2D reach from one end of
 the member to the other

---
 metku/frame2d/frame2d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 5b20b1e..66a5beb 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2132,6 +2132,11 @@ class FrameMember:
         if num_elements > 0:
             self.num_elements = num_elements
 
+        if self.mtype == 'bar' or self.mtype == 'brace':
+            # There is one Rod element between the ends of the member
+            self.nodal_coordinates.clear()
+            self.num_elements = 1
+
         dloc = 1 / self.num_elements  # step length in local coordinate system
         # for loc in np.arange(0, 1 + dloc, dloc):
         for loc in np.linspace(0, 1, self.num_elements + 1):
@@ -2164,6 +2169,9 @@ class FrameMember:
         :param coord: array of two float values, node's coordinates
         """
         # if coord not in self.nodal_coordinates and self.point_intersection(coord):
+        if self.mtype == 'bar' or self.mtype == 'brace':
+            # There is one Rod element between the ends of the member
+            return
         coord = list(coord)
         if coord not in self.added_coordinates and self.point_intersection(
                 coord):
-- 
2.43.0


From 0668759db2218596a3ec768159687d604821365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 213/262] fix: LT_buckling of Frame2D members is passed on to
 the design

---
 metku/frame2d/frame2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 66a5beb..24921f6 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1572,7 +1572,8 @@ class FrameMember:
         self.q1 = 0
         # Create SteelMember object
         self.member = SteelMember(self.cross_section, self.length,
-                                  Lcr=[1.0, 1.0], mtype=self.mtype)
+                                  Lcr=[1.0, 1.0], mtype=self.mtype,
+                                  LT_buckling=LT_buckling)
 
         self.members = [self.member]
         self.hinges = [False, False]
@@ -3004,7 +3005,8 @@ class SteelFrameMember(FrameMember):
     def __init__(self, coordinates, mem_id='', profile='IPE 100', material="S355", num_elements=4, **kwargs):
         super().__init__(coordinates, mem_id, profile, material, num_elements, **kwargs)
         self.member = SteelMember(self.cross_section, self.length,
-                                  Lcr=[1.0, 1.0], mtype=self.mtype)
+                                  Lcr=[1.0, 1.0], mtype=self.mtype,
+                                  LT_buckling=kwargs.get('LT_buckling', False))
 
         self.members = [self.member]
 
-- 
2.43.0


From 7b63877b4d7dd4cd90290dadf749553f003ae1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 214/262] fix: SHS profiles of the catalogue (three dimensions)
 are SHS profiles in Frame2D

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 24921f6..226cc89 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1975,7 +1975,7 @@ class FrameMember:
             elif profile_type == 'CHS':
                 self.cross_section = CHS(H, T, self.fy)
 
-            elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3):
+            elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3 and H != B):
                 self.cross_section = RHS(H, B, T, self.fy)
 
             elif profile_type == 'SHS':
-- 
2.43.0


From 14447a181c0a0baf3cd5594311c2422a334f6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 215/262] fix: Frame2D member that ends at the first node of
 the model has an end node

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 226cc89..46e6afc 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2214,7 +2214,7 @@ class FrameMember:
             if not self.n1:
                 self.n1 = fem_model.nodes[idx]
                 # Add last node
-        if not self.n2 and idx:
+        if not self.n2 and idx is not None:
             self.n2 = fem_model.nodes[idx]
 
     def generate_elements(self, fem_model):
-- 
2.43.0


From 65b140a3e1b0d53dab08e920a8a103915227ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 216/262] fix: no elements of vanishing length and no lost
 nodes in Frame2D members with loads or supports at their own nodes

---
 metku/frame2d/frame2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 46e6afc..58053a8 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2149,7 +2149,9 @@ class FrameMember:
                 self.loc.append(loc)
 
             coord = list(self.to_global(loc))
-            self.nodal_coordinates.append(coord)
+            # There can be a node at this location (up to the rounding) already
+            if all(math.dist(coord, c) > 2 * 10 ** -PREC for c in self.added_coordinates):
+                self.nodal_coordinates.append(coord)
 
         """ Sort coordinates according to their distance from the
             first end node
-- 
2.43.0


From 6db10da9062f4642e236a62835573e48e28c01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 217/262] fix: Frame2D members ending inside an inclined member
 are connected to it

---
 metku/frame2d/frame2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 58053a8..86c5d95 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -260,6 +260,10 @@ class Frame2D:
         for member in self.members.values():
             coord = this.line_intersection(member.coordinates)
             if isinstance(coord, list):
+                # A member ending at another one: use the (rounded) end coordinate
+                for end in this.coordinates + member.coordinates:
+                    if math.dist(coord, end) < 5 * 10 ** -PREC:
+                        coord = list(end)
                 this.add_node_coord(coord)
                 member.add_node_coord(coord)
 
-- 
2.43.0


From f4a42cc889b169547a0bc112e76bf3e8c6e01800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 218/262] fix: moving the corner of a Frame2D moves the ends of
 all the members meeting there

---
 metku/frame2d/frame2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 86c5d95..e70bf3a 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2180,6 +2180,9 @@ class FrameMember:
             # There is one Rod element between the ends of the member
             return
         coord = list(coord)
+        if any(math.dist(coord, end) < 0.5 * 10 ** -PREC for end in self.coordinates):
+            # There is always a node at the ends, also when they are moved
+            return
         if coord not in self.added_coordinates and self.point_intersection(
                 coord):
             self.added_coordinates.append(coord)
-- 
2.43.0


From 7a27e78f5a17f4eb6eb6b95827151d5589401494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 219/262] fix: no elements of vanishing length next to loads
 and supports inside Frame2D members

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index e70bf3a..bdb718c 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2154,7 +2154,7 @@ class FrameMember:
 
             coord = list(self.to_global(loc))
             # There can be a node at this location (up to the rounding) already
-            if all(math.dist(coord, c) > 2 * 10 ** -PREC for c in self.added_coordinates):
+            if all(math.dist(coord, c) > max(1e-4 * self.length, 2 * 10 ** -PREC) for c in self.added_coordinates):
                 self.nodal_coordinates.append(coord)
 
         """ Sort coordinates according to their distance from the
-- 
2.43.0


From c7ac148a6dfec23ab1f4fe80150368735eed2556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 220/262] fix: Frame2D members are not divided where the line
 of a member beyond its end meets them

---
 metku/frame2d/frame2d.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index bdb718c..96be46c 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -264,8 +264,10 @@ class Frame2D:
                 for end in this.coordinates + member.coordinates:
                     if math.dist(coord, end) < 5 * 10 ** -PREC:
                         coord = list(end)
-                this.add_node_coord(coord)
-                member.add_node_coord(coord)
+                # The lines of the members can intersect outside one of them
+                if this.point_intersection(coord) and member.point_intersection(coord):
+                    this.add_node_coord(coord)
+                    member.add_node_coord(coord)
 
         # Supports and point loads added before the member
         for item in list(self.supports.values()) + list(self.point_loads.values()):
@@ -2154,7 +2156,8 @@ class FrameMember:
 
             coord = list(self.to_global(loc))
             # There can be a node at this location (up to the rounding) already
-            if all(math.dist(coord, c) > max(1e-4 * self.length, 2 * 10 ** -PREC) for c in self.added_coordinates):
+            tol = 2 * 10 ** -PREC if loc in (0, 1) else max(1e-4 * self.length, 2 * 10 ** -PREC)
+            if all(math.dist(coord, c) > tol for c in self.added_coordinates):
                 self.nodal_coordinates.append(coord)
 
         """ Sort coordinates according to their distance from the
-- 
2.43.0


From c47be0b7bd96854338c37cf89724629216b2c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 221/262] fix: modulus of elasticity of the stainless steels is
 in MPa

---
 metku/materials/steel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/materials/steel.py b/metku/materials/steel.py
index 6f9cce1..969ad6b 100644
--- a/metku/materials/steel.py
+++ b/metku/materials/steel.py
@@ -18,7 +18,7 @@ class SteelMaterial:
         fu: None, [MPa]
         fy_40: None, [MPa]
         nu: 0.3, []
-        E: 210, [GPa]
+        E: 210e3, [MPa]
         rho: 7850 [kg/m³]
     """
     fy: float  # MPa
@@ -56,10 +56,10 @@ class StainlessSteel:
     Default stainless steel materials
     Custom steel material can be created using SteelMaterial -class
     """
-    EN14301_coldstrip = SteelMaterial(fy=230, fu=540, E=200)
-    EN14301_hotsrip = SteelMaterial(fy=210, fu=520, E=200)
-    EN14301_hotplate = SteelMaterial(fy=210, fu=520, E=200)
-    EN14301_sections = SteelMaterial(fy=190, fu=500, E=200)
+    EN14301_coldstrip = SteelMaterial(fy=230, fu=540, E=200e3)
+    EN14301_hotsrip = SteelMaterial(fy=210, fu=520, E=200e3)
+    EN14301_hotplate = SteelMaterial(fy=210, fu=520, E=200e3)
+    EN14301_sections = SteelMaterial(fy=190, fu=500, E=200e3)
 
 if __name__ == '__main__':
     s235 = Steel.S235
-- 
2.43.0


From 17e94588603efc32b7b7acb9107231550b84f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 222/262] fix: nodes of members without design checks can be
 moved

---
 metku/raami/frame_node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 852c38a..ecbaac2 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -61,7 +61,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
         
     @property
     def y(self):
@@ -79,7 +80,8 @@ class FrameNode:
         # Update connected member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
     
     @property
     def z(self):
@@ -98,7 +100,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
     
     def plot(self, print_text=True, marker='ok', axes=None):
         """ Plots the node """
-- 
2.43.0


From e7aa04456a0cba66d58481e323b3b32e437ee9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 223/262] fix: ten and fifteen bar truss examples can be
 created

---
 metku/raami/raami_simple_truss.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_simple_truss.py b/metku/raami/raami_simple_truss.py
index 948cc56..177e5e6 100644
--- a/metku/raami/raami_simple_truss.py
+++ b/metku/raami/raami_simple_truss.py
@@ -212,7 +212,8 @@ def ten_bar_truss(L=3000,F=200e3,
     t.add(XYHingedSupport(t.nodes[5]))
     
     t.generate_fem()
-    t.calculate(support_method='REM')
+    # Only steel members can be designed
+    t.calculate(support_method='REM',design=truss_type == 'steel')
     
     #t.plot()
     return t
@@ -244,16 +245,16 @@ def fifteen_bar_truss(L=360,h=120,P=10000):
     
     t = SimpleTruss(nodes,mems,profs)
         
-    t.add(PointLoad(nodes[7],[0,-P,0]))
+    t.add(PointLoad(t.nodes[7],[0,-P,0]))
             
-    t.add(XYHingedSupport(nodes[0]))
-    t.add(XYHingedSupport(nodes[4]))
+    t.add(XYHingedSupport(t.nodes[0]))
+    t.add(XYHingedSupport(t.nodes[4]))
     
-    t.generate()
+    t.generate_fem()
     
     #print(type(t.point_loads['PointLoad'].coordinate))
     
-    t.calculate(load_id='all',support_method="REM")
+    t.calculate(load_id='all',support_method="REM",design=False)
     
     t.plot()
     
-- 
2.43.0


From 579012dbb3d72cad81e6f9b6d22e074692c2e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 224/262] fix: files exported to Robot and Abaqus have the
 name, releases and monitored nodes of the model

---
 metku/raami/frame_member.py |  5 ++++-
 metku/raami/raami.py        | 28 ++++++++++++++--------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index de89473..2810d5f 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -840,7 +840,10 @@ class FrameMember:
         """ Returns a string indicating releases that Robot Structural Analysis
             can use in creating a str file.
         """
-        if self.hinges[0] == True and self.hinges[1] == True:
+        if self.mtype == 'bar' or self.mtype == 'brace':
+            # Bars that carry only axial forces are pinned at both ends
+            s = f'ELEments {self.mem_id+1} ORIgin RY END RY\n'
+        elif self.hinges[0] == True and self.hinges[1] == True:
             s = f'ELEments {self.mem_id+1} ORIgin RY END RY\n'
         elif self.hinges[0] == True and self.hinges[1] == False:
             s = f'ELEments {self.mem_id+1} ORIgin RY \n'
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 975f266..87cb5ea 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -20,6 +20,7 @@ from datetime import datetime
 
 #import ..framefem.framefem as fem
 from metku.framefem import framefem as fem
+from metku.framefem.elements.rod import Rod
 from metku.raami.frame_node import FrameNode
 from metku.raami.frame_member import FrameMember, SteelFrameMember
 from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, LoadIDs, LoadCase, LoadCombination
@@ -889,7 +890,7 @@ class Raami:
         mid_row = ";!" + fname_str + "!" + date_str + "!" + robot_str + "!"
         
         # Add point to the end of the filename, if it does not exist yet.
-        if filename[1] != '.':
+        if filename[-1] != '.':
             filename += '.'
         
         with open(filename + 'str', 'w') as f:
@@ -1119,9 +1120,16 @@ class Raami:
                 if len(options.included_members) > 0 and mem_name in options.included_members:
                     nel = len(mem.fem_elements)
                     
-                    if mem.hinges[0]:
-                        # This append does not make sense!
-                        s1_rel.append
+                    for ele in mem.fem_elements:
+                        # If member has releases add it to the corresponding
+                        # release set. '2' is for rotational release at the first node
+                        # and '5' is for rotational release at the second node.
+                        # Pin-jointed elements are released at both nodes.
+                        ndx = self.fem.elements.index(ele)+1
+                        if isinstance(ele,Rod) or 2 in ele.releases:
+                            s1_rel.append(ndx)
+                        if isinstance(ele,Rod) or 5 in ele.releases:
+                            s2_rel.append(ndx)
                     
                     if nel > 1:
                         #file.write(f'*Elset, elset={mem_name}, generate\n')
@@ -1132,15 +1140,7 @@ class Raami:
                                 file.write(f'{ndx:>5g}, ')
                             else:
                                 file.write(f'{ndx:>5g}')
-                            
-                            # If member has releases add it to the corresponding
-                            # release set. '2' is for rotational release at the first node
-                            # and '5' is for rotational release at the second node
-                            if 2 in ele.releases:
-                                s1_rel.append(ndx)
-                            elif 5 in ele.releases:
-                                s2_rel.append(ndx)
-                                                    
+
                         file.write('\n')
                     else:
                         file.write(f'*Elset, elset={mem_name}\n')
@@ -1246,7 +1246,7 @@ class Raami:
             monitored_nodes_set = 'Monitored_Nodes'
             monitored_nodes = list(np.argsort([abs(n.x-options.x_monitor) for n in self.fem.nodes])[:options.n_monitored])
             file.write(f'*Nset, nset={monitored_nodes_set}, instance={insname}\n')
-            file.write(', '.join(str(mn) for mn in monitored_nodes))
+            file.write(', '.join(str(self.fem.nodes[mn].nid+1) for mn in monitored_nodes))
             file.write('\n')
             
             # Supported nodes
-- 
2.43.0


From 346fcb63c839313086bd1bee41521cd082fd3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 225/262] fix: Abaqus export of a truss does not change the
 options of other exports

---
 metku/raami/raami_plane_truss.py  | 4 ++++
 metku/raami/raami_portal_truss.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 1bae509..93c6707 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -374,6 +374,10 @@ class PlaneTruss(Raami):
         # options
         #opts = {'x_monitor':0.5*self.span, 'n_monitored':2, 'mpc':[],'ecc_elements':[]}
         
+        # The data of this truss is added to a copy of the options, which
+        # can thus be used again
+        options = AbaqusOptions(**{key: copy(val) for key, val in options.__dict__.items()})
+        
         # Create element sets for top chord and bottom chord
         # top chord is halved
         L2 = 0.5*self.span
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..9a35e65 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -786,6 +786,10 @@ class PortalTruss(Raami):
         # options
         #opts = {'x_monitor':0.5*self.span, 'n_monitored':2, 'mpc':[],'ecc_elements':[]}
         
+        # The data of this truss is added to a copy of the options, which
+        # can thus be used again
+        options = AbaqusOptions(**{key: copy(val) for key, val in options.__dict__.items()})
+        
         # Create element sets for top chord and bottom chord
         # top chord is halved
         L2 = 0.5*self.L
-- 
2.43.0


From e8acaa0589c7e32bbb940ae53674ddc09f03a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 226/262] fix: tapered timber members can have nodes anywhere,
 elements follow the current dimensions, both ends of a single element keep
 their stiffness

---
 metku/frame2d/frame2d.py                |  9 ++++-
 metku/sections/timber/timber_section.py | 46 ++++++++++++++-----------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 96be46c..5495eef 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2229,6 +2229,11 @@ class FrameMember:
         if not self.n2 and idx is not None:
             self.n2 = fem_model.nodes[idx]
 
+    def element_ends(self):
+        """ Locations of the ends of the elements in local coordinates """
+        start = np.asarray(self.coordinates[0])
+        return [np.linalg.norm(node.coord - start) / self.length for node in self.nodes.values()]
+
     def generate_elements(self, fem_model):
         """ Generates elements between nodes
             For beam member's first and last element, creates semi-rigid end
@@ -2237,6 +2242,8 @@ class FrameMember:
         """
         index = fem_model.nels()
         node_ids = list(self.nodes.keys())
+        if isinstance(self.cross_section, TaperedSection):
+            self.cross_section.create_elements(self.element_ends())
         # EBBeam -elements
         if self.mtype == "column":
 
@@ -2280,7 +2287,7 @@ class FrameMember:
                     self.elements[index] = \
                         EBSemiRigidBeam(fem_model.nodes[n1], fem_model.nodes[n2],
                                         self.cross_section.small_elements[0],
-                                        self.material, rot_stiff=[np.inf, self.Sj2])
+                                        self.material, rot_stiff=[self.Sj1, self.Sj2])
                 else:
                     self.elements[index] = \
                         EBSemiRigidBeam(fem_model.nodes[n1], fem_model.nodes[n2],
diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 6894b37..dc3dd6f 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -295,25 +295,21 @@ class TaperedSection(TimberSection, ABC):
     def _H(self, val: (int, float)):
         self.h0 = val
 
-    def create_elements(self):
-        # TODO ei laske oiken jos nodet ei ole tasavälein
-        if len(self.small_elements) > 0:
-            raise Exception('Use update_elements to update')
-        if self.num_elements < 0:
-            raise Exception('num_elements not updated')
-        elem_l = 1 / self.num_elements
-        for i in range(self.num_elements):
-            a = self.get_A(i * elem_l + 0.5 * elem_l)
-            iy = self.get_I(i * elem_l + 0.5 * elem_l)
-            self.small_elements.append(SmallElementSection(a, iy))
+    def create_elements(self, nodes: list_out = None):
+        """
+        Creates the sections of the elements of the member, each with the dimensions at the middle of the element
+
+        @param nodes: local coordinates 0 ... 1 of the ends of the elements, evenly spaced by default
+        """
+        if nodes is None:
+            if self.num_elements < 0:
+                raise Exception('num_elements not updated')
+            nodes = np.linspace(0, 1, self.num_elements + 1)
+        self.small_elements = [SmallElementSection(self, 0.5 * (x1 + x2)) for x1, x2 in zip(nodes[:-1], nodes[1:])]
 
     def update_elements(self):
-        elem_l = 1 / self.num_elements
-        for i in range(len(self.small_elements)):
-            a = self.get_A(i * elem_l + 0.5 * elem_l)
-            iy = self.get_I(i * elem_l + 0.5 * elem_l)
-            self.small_elements[i].A = a
-            self.small_elements[i].I = iy
+        """ The sections of the elements follow the dimensions of the member """
+        pass
 
     def get_H(self, x: (int, float)) -> float:
         """
@@ -894,9 +890,19 @@ class KaarevaHarjaPalkki(TaperedSection):
 
 
 class SmallElementSection:
-    def __init__(self, A: (int, float), I: list_out):
-        self.A = A
-        self.I = I
+    """ Section of one element of a tapered member, at the local coordinate loc of the member """
+
+    def __init__(self, section: TaperedSection, loc: float):
+        self.section = section
+        self.loc = loc
+
+    @property
+    def A(self) -> (int, float):
+        return self.section.get_A(self.loc)
+
+    @property
+    def I(self) -> np.ndarray:
+        return self.section.get_I(self.loc)
 
     def __repr__(self):
         return f'SmallElementSection A:{self.A}, I:{self.I}'
-- 
2.43.0


From 6e78fb97be01904daf2c4f0b734c20dbeb2c39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 227/262] fix: changes of section, material, end stiffness and
 length of timber frame members reach analysis and design

---
 metku/frame2d/frame2d.py                 | 40 +++++++++++++++++++-----
 metku/structures/timber/timber_member.py |  8 +++++
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 5495eef..d1ed9d0 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3063,13 +3063,7 @@ class TimberFrameMember(FrameMember):
             super().__init__(coordinates, mem_id, profile, T.GL30c, num_elements, Sj1, Sj2, mtype)
 
         if isinstance(self.cross_section, TaperedSection):
-            if isinstance(self.cross_section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-                self.cross_section.parent = self
-                self.cross_section.update_circles()
-            elif isinstance(self.cross_section, MahaPalkki):
-                self.cross_section.parent = self
-            self.cross_section.num_elements = num_elements
-            self.cross_section.create_elements()
+            self.connect_tapered_section()
         if lateral_support_z is None:
             lateral_support_z = []
         if lateral_support_y is None:
@@ -3081,6 +3075,33 @@ class TimberFrameMember(FrameMember):
         self.members = [self.member]
         self.cross_section.timber_member = self.member
 
+    def connect_tapered_section(self):
+        """ The dimensions of the section depend on the length of the member """
+        if isinstance(self.cross_section, (KaarevaHarjaPalkki, KaarevaPalkki)):
+            self.cross_section.parent = self
+            self.cross_section.update_circles()
+        elif isinstance(self.cross_section, MahaPalkki):
+            self.cross_section.parent = self
+        self.cross_section.num_elements = self.num_elements
+        self.cross_section.create_elements(self.element_ends() if self.nodes else None)
+
+    def update_section(self):
+        """ The analysis and the design use the current section and material """
+        section = self.cross_section
+        if isinstance(section, TaperedSection):
+            self.connect_tapered_section()
+        for i, element in enumerate(self.elements.values()):
+            element.section = section.small_elements[i] if isinstance(section, TaperedSection) else section
+            element.material = section.material
+        self.member.set_section(section)
+
+    def assign_forces(self, load_id=LoadIDs.ULS):
+        """ The length and the stiffness of the ends can have changed since the member was created """
+        super().assign_forces(load_id)
+        self.member.Sj1 = self.Sj1
+        self.member.Sj2 = self.Sj2
+        self.member.calc_l_c()
+
     @property
     def R(self):
         return self.cross_section.R
@@ -3098,6 +3119,8 @@ class TimberFrameMember(FrameMember):
         if isinstance(val, TimberSection):
             self.__profile = val
             self.cross_section = val
+            if self.member:
+                self.update_section()
         elif isinstance(val, str):
             splitted_val = val.split(" ")
             profile_type = splitted_val[0]
@@ -3200,6 +3223,9 @@ class TimberFrameMember(FrameMember):
         Changes member's matrial and gets new material properties
         """
         self.__material = val
+        if self.member:
+            self.cross_section.material = val
+            self.update_section()
 
     def add_material(self, fem_model):
         """ Adds member's material information to calculation model
diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 3fd9545..b79144e 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -129,6 +129,14 @@ class TimberMember:
 
         self.gammaM = get_gammaM(self.material.type)
 
+    def set_section(self, section: (TimberSection, TaperedSection)):
+        """ Changes the section and the material of the member """
+        self.section = section
+        section.timber_member = self
+        self.material = section.material
+        self.kmod = kmod(self.material.type, self.sc, self.ldc)
+        self.gammaM = get_gammaM(self.material.type)
+
     @property
     def k_L(self):
         # SFS-EN 1995-1-1 (3.4)
-- 
2.43.0


From c1cfe29c64f81abbbdb3da22847a3ab1ad90a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 228/262] fix: timber columns between other members can be
 designed

---
 metku/structures/timber/timber_member.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index b79144e..a19d98e 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -789,6 +789,9 @@ class TimberMember:
                     beta[index] = 2.2
                 elif isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport):
                     beta[index] = 2
+                elif startsupp is None and endsupp is None:
+                    # column between other members
+                    beta[index] = 1
 
             else:
                 # jos sauvat on jaettu useampaan osaan/segmenttiin
-- 
2.43.0


From c968ebc7c627686b84b6cd9b5353ffdbeb5d0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 229/262] fix: timber members with lateral supports that are
 not at nodes can be designed

---
 metku/structures/timber/timber_member.py | 77 +++++++++++++-----------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index a19d98e..f70200f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -622,22 +622,30 @@ class TimberMember:
         for i in range(len(supp_y) - 1):
             sig_md_in_seg = []
             locs = []
-            for loc in self.loc:
-                if supp_y[i] <= loc <= supp_y[i + 1]:
-                    sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
-                    locs.append(loc)
+            for loc in self.segment_locs(supp_y[i], supp_y[i + 1]):
+                sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
+                locs.append(loc)
             iy.append(max(sig_md_in_seg, key=lambda x: abs(x[0])))
 
         for i in range(len(supp_z) - 1):
             sig_md_in_seg = []
             locs = []
-            for loc in self.loc:
-                if supp_z[i] <= loc <= supp_z[i + 1]:
-                    sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
-                    locs.append(loc)
+            for loc in self.segment_locs(supp_z[i], supp_z[i + 1]):
+                sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
+                locs.append(loc)
             iz.append(max(sig_md_in_seg, key=lambda x: abs(x[0])))
         return [iy, iz]
 
+    def segment_locs(self, start: float, end: float) -> list_out:
+        """
+        Locations of the sections of a segment between lateral supports. If there are none, the closest
+        sections on both sides.
+        """
+        locs = [loc for loc in self.loc if start <= loc <= end]
+        if len(locs) == 0:
+            locs = [max(loc for loc in self.loc if loc < start), min(loc for loc in self.loc if loc > end)]
+        return locs
+
     def tau_d(self, n: int) -> list_out:
         """
         Poikkileikkauksessa vaikuttava työntövoima muutetaan leikkausjännitykseski Jourawskin kaavaa hyväksikäyttäen
@@ -711,19 +719,17 @@ class TimberMember:
         for i in range(len(supp_y) - 1):
             sig_md_in_seg = []
             locs = []
-            for loc in self.loc:
-                if supp_y[i] <= loc <= supp_y[i + 1]:
-                    sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
-                    locs.append(loc)
+            for loc in self.segment_locs(supp_y[i], supp_y[i + 1]):
+                sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
+                locs.append(loc)
             iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda x: abs(x[0])))])
 
         for i in range(len(supp_z) - 1):
             sig_md_in_seg = []
             locs = []
-            for loc in self.loc:
-                if supp_z[i] <= loc <= supp_z[i + 1]:
-                    sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
-                    locs.append(loc)
+            for loc in self.segment_locs(supp_z[i], supp_z[i + 1]):
+                sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
+                locs.append(loc)
             iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda x: abs(x[0])))])
 
         y = [sqrt(self.section.get_I(i)[0] / self.section.get_A(i)) for i in iy]
@@ -1139,11 +1145,10 @@ class TimberMember:
                 max_sigma_c0d_list = []
                 max_sigma_myd_list = []
                 max_sigma_mzd_list = []
-                for loc in self.loc:
-                    if supp[i] <= loc <= supp[i + 1]:
-                        max_sigma_c0d_list.append(self.sigma_c0d(self.loc.index(loc)))
-                        max_sigma_myd_list.append(self.sigma_md(self.loc.index(loc))[0])
-                        max_sigma_mzd_list.append(self.sigma_md(self.loc.index(loc))[1])
+                for loc in self.segment_locs(supp[i], supp[i + 1]):
+                    max_sigma_c0d_list.append(self.sigma_c0d(self.loc.index(loc)))
+                    max_sigma_myd_list.append(self.sigma_md(self.loc.index(loc))[0])
+                    max_sigma_mzd_list.append(self.sigma_md(self.loc.index(loc))[1])
                 max_sigma_c0d = min(max_sigma_c0d_list)
                 max_sigma_myd = max(max_sigma_myd_list, key=abs)
                 max_sigma_mzd = max(max_sigma_mzd_list, key=abs)
@@ -1177,14 +1182,13 @@ class TimberMember:
         supp.append(1.0)
         supp.sort()
         for i in range(len(supp) - 1):
-            for loc in self.loc:
-                if supp[i] <= loc <= supp[i + 1]:
-                    if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
-                    else:
-                        ULT_list.append({
-                            'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-                            abs(self.sigma_c0d(self.loc.index(loc))) / (self.k_c()[1][i] * self.fc0d), 'kaava': 35, 'loc': loc, 'i': i})
+            for loc in self.segment_locs(supp[i], supp[i + 1]):
+                if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
+                    ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                else:
+                    ULT_list.append({
+                        'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
+                        abs(self.sigma_c0d(self.loc.index(loc))) / (self.k_c()[1][i] * self.fc0d), 'kaava': 35, 'loc': loc, 'i': i})
 
                 # TODO sigma_cod positiivinen tai negatiivinen
         if get_full:
@@ -1213,11 +1217,10 @@ class TimberMember:
         supp.append(1.0)
         supp.sort()
         for i in range(len(supp) - 1):
-            for loc in self.loc:
-                if supp[i] <= loc <= supp[i + 1]:
-                    Md = abs(self.myed[self.loc.index(loc)])
-                    Nd_temp = (1 - self.k_crit(i, 1, loc)) * (Md / self.section.get_H(loc))
-                    Nd_list.append(Nd_temp)
+            for loc in self.segment_locs(supp[i], supp[i + 1]):
+                Md = abs(self.myed[self.loc.index(loc)])
+                Nd_temp = (1 - self.k_crit(i, 1, loc)) * (Md / self.section.get_H(loc))
+                Nd_list.append(Nd_temp)
 
         Nd = max(Nd_list)
         C = ks * Nd / a
@@ -1420,9 +1423,11 @@ class TimberMember:
                 continue
 
             dist_to_start = np.linalg.norm(self.parent.coordinates[0] - node.coord)
-            local_coord = dist_to_start / self.length
+            # rounded as the locations of the sections
+            local_coord = round(dist_to_start / self.length, 3)
 
-            self.lateral_support_y.append(local_coord)
+            if local_coord not in self.lateral_support_y:
+                self.lateral_support_y.append(local_coord)
 
         self.calc_l_c()
 
-- 
2.43.0


From 50c8ef9dcd80c6f63d198796539d3191c3526c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 230/262] fix: compression perpendicular to grain at the
 contacts of timber members with other members

---
 metku/structures/timber/timber_member.py | 111 ++++++++++-------------
 1 file changed, 50 insertions(+), 61 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index f70200f..1f0ddb3 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -45,6 +45,16 @@ else:
     
     tuple_out = tuple
 
+def section_depth(section) -> float:
+    """ Depth of a timber or steel section """
+    return section.H if hasattr(section, 'H') else section.h
+
+
+def section_width(section) -> float:
+    """ Width of a timber or steel section """
+    return section.B if hasattr(section, 'B') else np.min(section.b)
+
+
 def rectangle_torsion(ratio: float) -> tuple:
     """
     Torsion of a rectangle, based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
@@ -523,36 +533,29 @@ class TimberMember:
             return 0
 
         def get_sigma(om):
-            other_locs = om.member.loc
-            other_idx = None
-            for i in range(om.member.nsect()):
-                if isclose(node.x, om.to_global(other_locs[i])[0], rel_tol=10) and isclose(node.y,
-                                                                                           om.to_global(other_locs[i])[
-                                                                                               1],
-                                                                                           rel_tol=10):
-                    other_idx = i
-
-            own_idx = None
-            for i in range(self.nsect()):
-                if isclose(node.x, self.parent.to_global(self.loc[i])[0], rel_tol=10) and isclose(node.y,
-                                                                                                  self.parent.to_global(
-                                                                                                      self.loc[i])[1],
-                                                                                                  rel_tol=10):
-                    own_idx = i
-
-            if om.member.ned[other_idx] >= 0:
+            # sections of the members that are closest to the node
+            if hasattr(om.member, 'sections'):
+                # steel member
+                forces = [(loc, sec['N']) for loc, sec in om.member.sections.items()]
+            else:
+                forces = list(zip(om.member.loc, om.member.ned))
+            ned = min(forces, key=lambda f: np.linalg.norm(om.to_global(f[0]) - node.coord))[1]
+            own_idx = min(range(self.nsect()), key=lambda i: np.linalg.norm(self.parent.to_global(self.loc[i]) - node.coord))
+
+            if ned >= 0:
                 return 0
 
-            if own_idx == 0 or own_idx == self.loc[-1]:
+            depth = section_depth(om.cross_section)
+            if own_idx == 0 or own_idx == self.nsect() - 1:
                 # Nolla edustaa a mittaa. RIL 205-1-2009 kohta 6.1.5
                 # Rajoitusehdoissa pitää olla määritettynä H > B, muuten ohjelma asettaa pilarin "väärinpäin"
-                lc90ef = om.cross_section.H + min(30, 0, om.cross_section.H) + min(30, om.cross_section.H)
+                lc90ef = depth + min(30, 0, depth) + min(30, depth)
             else:
-                lc90ef = om.cross_section.H + min(30, om.cross_section.H) + min(30, om.cross_section.H)
+                lc90ef = depth + min(30, depth) + min(30, depth)
 
             # SFS-EN 1995-1-1 § 6.1.5
-            Aef = lc90ef * min(om.cross_section.B, self.section.B)
-            sigma = om.member.ned[other_idx] / Aef
+            Aef = lc90ef * min(section_width(om.cross_section), self.section.B)
+            sigma = ned / Aef
             return sigma
 
         if len(other_members) == 1:
@@ -585,8 +588,8 @@ class TimberMember:
         """
         self.k_c90 = 1.0
         if self.section.H * 2 <= l1:
-            if self.material.type == 'solid_timber':
-                self.k_c90 = 2.5
+            if self.material.type == 'solid_timber' and self.material.hardness == 'softwood':
+                self.k_c90 = 1.5
             elif self.material.type == 'glt' and l <= 400:
                 self.k_c90 = 1.75
 
@@ -1009,41 +1012,27 @@ class TimberMember:
         # Member compression perpendicular to the grain:            SFS-EN 1995-1-1 § 6.1.5
 
         # TODO ei laske oikein yhdessä pisteessä kahdelta suunnalta puristettua palkkia
-        max_sigma = 0
+        r = 0
         node = None
-        l1 = None
+        contacts = {}
         for n in self.nodes.values():
-            n_sig = self.sigma_c90d(n)
-            if isinstance(n_sig, list):
-                n_sig = min(n_sig)
-            if abs(n_sig) > abs(max_sigma):
-                max_sigma = n_sig
-                node = n
-        if node:
-            for n in self.nodes.values():
-                if len(n.parents) == 1 or n == node:
-                    continue
-
-                other_members = list(filter(lambda v: v.member != self if True else False, n.parents.copy()))
-
-                if len(other_members) == 0:
-                    continue
-
-                start_node = n.coord
-                end_node = node.coord
-                l11 = np.linalg.norm(end_node - start_node)
-                if l1 is None:
-                    l1 = l11
-                elif l11 < l1:
-                    l1 = l11
-                self.update_kc90(l1, other_members[0].cross_section.get_H(0))
-
-        if not hasattr(self, 'k_c90'):
-            if location:
-                return [0, node]
-            return 0
+            other_members = [om for om in n.parents if om.member != self]
+            if len(other_members) > 0:
+                contacts[n] = other_members
+
+        for n, other_members in contacts.items():
+            sigma = self.sigma_c90d(n)
+            if not isinstance(sigma, list):
+                sigma = [sigma]
+            # distance of the closest other contact
+            l1 = min([np.linalg.norm(n.coord - n2.coord) for n2 in contacts if n2 is not n], default=np.inf)
+            for om, sig in zip(other_members, sigma):
+                if sig < 0:
+                    self.update_kc90(l1, section_depth(om.cross_section))
+                    rn = abs(sig / (self.k_c90 * self.fc90d))
+                    if rn > r:
+                        r, node = rn, n
 
-        r = abs(max_sigma / (self.k_c90 * self.fc90d))
         if location:
             return [r, node]
         return r
@@ -1069,7 +1058,7 @@ class TimberMember:
                 if len(start) == 0:
                     other_h_start = 0
                 else:
-                    other_h_start = start[0].cross_section.H / 2
+                    other_h_start = section_depth(start[0].cross_section) / 2
                 sumH_start = (other_h_start + self.section.get_H(0)) / self.length
                 loc = self.loc[n]
                 if loc < sumH_start:
@@ -1085,7 +1074,7 @@ class TimberMember:
                 if len(end) == 0:
                     other_h_end = 0
                 else:
-                    other_h_end = end[0].cross_section.H / 2
+                    other_h_end = section_depth(end[0].cross_section) / 2
                 sumH_end = (other_h_end + self.section.get_H(0)) / self.length
                 if loc > 1 - sumH_end:
                     for i in range(len(self.loc)):
@@ -1251,7 +1240,7 @@ class TimberMember:
         if len(start) == 0:
             other_h_start = 0
         else:
-            other_h_start = start[0].cross_section.H / 2
+            other_h_start = section_depth(start[0].cross_section) / 2
         sumH_start = (other_h_start + self.section.get_H(0)) / self.length
         loc = self.loc[n]
         if loc < sumH_start:
@@ -1270,7 +1259,7 @@ class TimberMember:
         if len(end) == 0:
             other_h_end = 0
         else:
-            other_h_end = end[0].cross_section.H / 2
+            other_h_end = section_depth(end[0].cross_section) / 2
         sumH_end = (other_h_end + self.section.get_H(0)) / self.length
         if loc > 1 - sumH_end:
             for i in range(len(self.loc)):
-- 
2.43.0


From 69e9ab3269c5cc1646e3dcc9169222c80b490511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 231/262] fix: volume of a belly beam follows its apex location
 and inclined height

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 1f0ddb3..e86476a 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -422,7 +422,7 @@ class TimberMember:
 
     def V_tot(self) -> float:
         if isinstance(self.section, (HarjaPalkki, MahaPalkki)):
-            return self.section.B * self.length * (self.section.hap - self.length * np.tan(self.alfa()) / 4)
+            return self.section.B * self.length * (self.section.get_unmodified_h(0) + self.section.get_unmodified_h(self.section.xap)) / 2
         elif isinstance(self.section, (KaarevaPalkki, KaarevaHarjaPalkki)):
             return self.section.A_face() * self.section.B
         elif isinstance(self.section, PulpettiPalkki):
-- 
2.43.0


From ba040aad983b618fa2bcf5738e76f38975c29e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 232/262] fix: the angle of a belly beam given as a profile
 string is used

---
 metku/sections/timber/timber_section.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index dc3dd6f..8790145 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -563,6 +563,15 @@ class MahaPalkki(TaperedSection):
     def Xap(self) -> float:
         return self.xap
 
+    @property
+    def Alpha(self) -> float:
+        return self.alpha
+
+    @Alpha.setter
+    def Alpha(self, val: (int, float)):
+        self.alpha = math.radians(val)
+        self.update_elements()
+
     @H0.setter
     def H0(self, val: (int, float)):
         self.h0 = val
-- 
2.43.0


From f14112fb2a08152020990ce8050116cfa628cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 233/262] fix: an optimization problem can analyse a Frame2D

---
 metku/frame2d/frame2d.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index d1ed9d0..a695d67 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -512,12 +512,13 @@ class Frame2D:
                 for j in t.joints.values():
                     j.calc_nodal_coordinates()
 
-    def calculate(self, load_id=None, support_method='ZERO'):
+    def calculate(self, load_id=None, support_method='ZERO', design=True):
         """ Calculates forces and displacements
             
             Parameters
             ----------
             :param load_id: Id of the loads to be added in the calculation model
+            :param design: if True, the members are designed for the forces
             
             :type load_id: int / str
         """
@@ -539,7 +540,8 @@ class Frame2D:
             for lid in lcase_ids:
                 # for lid in self.f.loadcases.values():
                 self.calculate(load_id=lid,
-                               support_method=support_method)
+                               support_method=support_method,
+                               design=design)
         else:
             # print('Calculate case:' + str(load_id))
 
@@ -548,7 +550,8 @@ class Frame2D:
             self.calc_nodal_forces(load_id)
             self.calc_nodal_displacements(load_id)
             self.assign_forces(load_id)
-            self.design_members(load_id)
+            if design:
+                self.design_members(load_id)
             # self.check_members_strength()
             # self.alpha_cr, _ = self.f.linear_buckling(k=4)
 
-- 
2.43.0


From 6acc533146f09f8e6fc2068a158aaf8c91b63398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 234/262] fix: truss LP and MILP problems accept load cases
 that are not numbers

---
 metku/optimization/problems/truss_milp.py         |  4 ++--
 metku/optimization/problems/truss_optimization.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 86fcf23..4d563d6 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -170,7 +170,7 @@ class TrussMILP:
                 for j, p in enumerate(self.members[i]['profiles']):
                     self.vars['force'][i][k].append(
                         sop.Variable(
-                            name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),
+                            name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),
                             lb=self.members[i]['Nlb'][j],
                             ub=self.members[i]['Nub'][j],
                             target=None,value=1))
@@ -570,7 +570,7 @@ class TrussMILP:
                 # The first 'nmem' variables are the cross-sectional areas.
                 #    Insert the current row of the statics matrix as the coefficient
                 #    vector.            
-                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0}-LC{1}".format(i,lc)))
         
         # Constraints: compatibility and strength
         self.compatibility_constraints(B)
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 3b59bbb..83705b8 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -671,7 +671,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Also the stress constraints must be changed to take into account groups.
     """
     for i, mem in truss.members.items():
-        dvars.append(Variable(name="A{0:.0g}".format(i),lb=Alb[i],ub=Aub[i],
+        dvars.append(Variable(name="A{0}".format(i),lb=Alb[i],ub=Aub[i],
                                   target={"objects":[mem],"property":["A"]},
                                   value=mem.A))
         c.append(mem.length)
@@ -679,7 +679,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
     """ Design variables: member forces """
     for lc in truss.load_cases:
         for i, mem in truss.members.items():
-            dvars.append(Variable(name="N{0:.0g}{1:.0g}".format(lc,i),lb=-1e9,ub=1e9,
+            dvars.append(Variable(name="N{0}{1}".format(lc,i),lb=-1e9,ub=1e9,
                                   target=None,
                                   value=1))
             c.append(0)
@@ -707,7 +707,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
                 vector. 
             """
             a[(j+1)*nmem:(j+2)*nmem] = b            
-            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0}-LC{1}".format(i,lc)))
     
     """ Constraints: stress constraints 
         These are expressed in terms of member forces, i.e.
@@ -718,11 +718,11 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
             a = np.zeros(lp.nvars())
             a[i] = -sub[i]
             a[(j+1)*nmem+i] = 1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0}-LC{1}".format(i,lc)))
             
             a[i] = -slb[i]
             a[(j+1)*nmem+i] = -1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0}-LC{1}".format(i,lc)))
     
     return lp
 
@@ -802,7 +802,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
     for lc in truss.load_cases:
         for i, mem in truss.members.items():            
             for j in range(nprof):
-                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
+                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
                                           target=None,value=1))
                 c.append(0)
     
@@ -854,7 +854,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
                 Insert the current row of the statics matrix as the coefficient
                 vector. 
             """
-            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0}-LC{1}".format(i,lc)))
     
     """ Constraints: compatibility conditions """
     nx = lp.nvars()
-- 
2.43.0


From 6277a50a4ec3c25de37472a957f7f156175366ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 235/262] fix: default stress bounds of the truss LP

---
 metku/optimization/problems/truss_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 83705b8..6951c9c 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -650,10 +650,10 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Aub = Aub*np.ones(nmem)
         
     if slb is None:
-        slb = [mem.fy for i, mem in t.members.items()]
+        slb = [mem.fy for i, mem in truss.members.items()]
     
     if sub is None:
-        sub = [mem.fy for i, mem in t.members.items()]
+        sub = [mem.fy for i, mem in truss.members.items()]
     
     if not (isinstance(slb,np.ndarray) or isinstance(slb,list)):        
         slb = slb*np.ones(nmem)
-- 
2.43.0


From fd2c8f9baded9d8301edfce36eb03adbb9aeafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 236/262] fix: truss MILP writes the equilibrium of each load
 case on its own forces

---
 metku/optimization/problems/truss_optimization.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 6951c9c..a3550bd 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -838,13 +838,13 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
         lp.add(LinearConstraint(a,1,con_type="=", name="Sum y({0:.0f},j)=1".format(i)))
     
     """ Constraints: equilibrium equations """
-    B0 = np.zeros([ndof,lp.nvars()])
-    
-    for i in range(nmem):
-        B0[:,(nmem*nprof + i*nprof):(nmem*nprof + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
-        
-    
     for j, lc in enumerate(truss.load_cases):
+        # The forces of load case 'j' follow those of the previous load cases
+        start = nmem*nprof + j*nmem*nprof
+        B0 = np.zeros([ndof,lp.nvars()])
+        for i in range(nmem):
+            B0[:,(start + i*nprof):(start + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
+
         """ Load vector for the load case, including only unsupported dofs """
         p = np.delete(truss.f.global_load_vector(lc),truss.f.supp_dofs)*Nscale
         """ a is a placeholder for the coefficient vector of a linear constraint """
-- 
2.43.0


From 1f5fa5d22a25e49c36b07e92249455d7186b350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 237/262] fix: TrussMILP.create_milp creates its problem

---
 metku/optimization/problems/truss_milp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 4d563d6..e4b7cdf 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -25,6 +25,7 @@ from metku.frame2d.frame2d import SteelBeam
 from metku.frame2d.simple_truss import SimpleTruss, three_bar_truss, ten_bar_truss
 from metku.sections.steel import SteelSection
 import metku.optimization.structopt as sop
+from metku.optimization.objective import LinearObjective
 from metku.sections.steel.catalogue import ipe_profiles, shs_profiles, hea_profiles
 from metku.sections.steel import ISection, WISection, RHS, SHS
 from metku.optimization.solvers.lp import LP
@@ -511,7 +512,7 @@ class TrussMILP:
         """ Objective function: truss weight.
             This is the same for all problem types.
         """
-        obj = sop.LinearObjective("Weight", self.weight_obj())
+        obj = LinearObjective("Weight", self.weight_obj())
         self.milp.add(obj)
         
         ndof = self.ndof
@@ -577,7 +578,7 @@ class TrussMILP:
         self.strength_constraints()
                 
         
-        return lp
+        return self.milp
     
     def substitute_design(self,x):
         """ Substitutes the design in 'x' to the truss structure """
-- 
2.43.0


From b015d59725422689e54d7a23a31ba63bcbd22071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 238/262] fix: scaling of resistances and displacement bounds
 of TrussMILP

---
 metku/optimization/problems/truss_milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index e4b7cdf..f3ed9f3 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -63,7 +63,7 @@ class TrussMILP:
         self.uub = uub*scaling['u']
         
         # Scaling
-        self.scaling = scaling
+        self.scaling = dict(scaling)
         self.scaling['A'] = self.scaling['u']**2
         self.scaling['E'] = self.scaling['N']/(self.scaling['u']**2)
         
@@ -77,7 +77,7 @@ class TrussMILP:
         self.milp = None
         
         # Resistance of cross-sections
-        self.NRd = [np.floor(p.NRd)*self.scaling['A'] for p in profiles]
+        self.NRd = [np.floor(p.NRd)*self.scaling['N'] for p in profiles]
     
         # Member data
         self.members = [{'L':0.0,'k0':0.0,'profiles':[],
@@ -183,7 +183,7 @@ class TrussMILP:
             for j in range(self.ndof):
                 self.vars['disp'][k].append(
                     sop.Variable(name="u({0:.0f},{1:.0f})".format(j,k),
-                                 lb=ulb,ub=uub,target=None,value=0.0))
+                                 lb=self.ulb,ub=self.uub,target=None,value=0.0))
                 self.__nvars += 1
                 #c.append(0)
         
-- 
2.43.0


From c428a41903fe83d8d7ac8f4d2ae8a7a786c1091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 239/262] fix: TrussMILP with several load cases

---
 metku/optimization/problems/truss_milp.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index f3ed9f3..a6154cf 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -305,6 +305,8 @@ class TrussMILP:
                     
                     yndx += 1                
                     Nndx +=1
+            # Skip the displacement variables in variable indexing
+            Nndx += ndof
                     
     def strength_constraints(self):
         """ Constraints: member strength (stress constraints)
@@ -552,17 +554,18 @@ class TrussMILP:
         # Create augmented statics matrix, whose columns correspond to
         # the columns of the original statics matrix copied as many times
         # as there are profile variables for each member.        
-        B0 = np.zeros([ndof,nvars])
         B = self.statics_matrix
         
-        # TODO! This has to be accommodated for several load cases!
-        start = self.nprof_vars
-        for i, yvars in enumerate(self.vars['profile']):
-            end = start + len(yvars)
-            B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
-            start = end
-                            
         for j, lc in enumerate(self.structure.load_cases):
+            # The forces of load case 'j' come after the forces and
+            # displacements of the previous load cases
+            start = self.nprof_vars + j*(self.nprof_vars + ndof)
+            B0 = np.zeros([ndof,nvars])
+            for i, yvars in enumerate(self.vars['profile']):
+                end = start + len(yvars)
+                B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
+                start = end
+
             # Load vector for the load case, including only unsupported dofs """
             p = np.delete(self.structure.f.global_load_vector(lc),self.structure.f.supp_dofs)*self.scaling['N']
             # a is a placeholder for the coefficient vector of a linear constraint """
-- 
2.43.0


From b815d6c53d48567b8bc4d0be0f3505a945947f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 240/262] fix: objective of the truss optimization problem

---
 metku/optimization/problems/truss_optimization.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index a3550bd..73832aa 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -222,7 +222,6 @@ class TrussOptimization(OptimizationProblem):
         #print(self.var_groups)
         # Main loop
         for i, group in enumerate(self.var_groups):
-            print(group["var_type"])
             if group["var_type"] == 'discrete':
                 var = DiscreteVariable(
                     name=group['name'],
@@ -291,7 +290,7 @@ class TrussOptimization(OptimizationProblem):
         def obj_fun(x):
             """ Variable substitution is not shown """
             self.substitute_variables(x)
-            return self.structure.weight()/scaling
+            return self.structure.weight/scaling
 
         obj = ObjectiveFunction(name="Weight",
                                 obj_fun=obj_fun,
@@ -489,7 +488,6 @@ class TrussOptimization(OptimizationProblem):
             else:
                 res = u
                 
-            print(u)
             return res
         
         def disp_lower_bound(x):
@@ -497,7 +495,6 @@ class TrussOptimization(OptimizationProblem):
             self.substitute_variables(x)
             
             u = node.u[load_case][dof_nd]
-            print(u)
             if ulb < 0.0:
                 res = u/ulb-1
             elif ulb > 0.0:
-- 
2.43.0


From 848b8bdbb37104bab1c17881b117f8a49a4626c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 241/262] fix: fully stressed design of a truss

---
 .../problems/truss_optimization.py            | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 73832aa..58bb02b 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -545,33 +545,35 @@ class TrussOptimization(OptimizationProblem):
             print("*** FSD iteration ***")            
                 
         while k < kmax:
-            print("  Iteration {0:3g}".format(k))
+            if verb:
+                print("  Iteration {0:3g}".format(k))
             k += 1
+            # Required areas: the largest of the load cases
+            new_vals = [var.lb for var in self.vars]
             for load_case in self.structure.load_ids:
                 # Calculate response of the structure
                 # for this load case
                 self.fea(load_case)
                 
                 if verb:
-                    print("   Load case: {0:s}".format(load_case))
+                    print("   Load case: {0}".format(load_case))
                             
-                for var in self.vars:
+                for i, var in enumerate(self.vars):
                     # For each variable, go through
                     # all members that the variable is targeted at.
                     for mem in var.target['objects']:
                         # Run update rule:
                         # 1. get member force
-                        # 2. update variable value
-                        N = mem.member.NEd
-                        new_val = N/mem.member.fy()
+                        # 2. update required value
+                        N = mem.NEd[load_case]
+                        new_val = abs(N)/mem.fy
                         
-                        new_val = min(max(new_val,var.lb),var.ub)
+                        new_vals[i] = min(max(new_val,new_vals[i]),var.ub)
                         
                         if verb:
-                            print("{0:s}(old) = {1:5.3f}, N = {2:5.3f}, NRd = {4:5.3f}, {0:s}(new) = {3:5.3f}".format(var.name,var.value,N,new_val,var.value*mem.member.fy()))
-                                            
-                        
-                        var.substitute(new_val)
+                            print("{0:s}(old) = {1:5.3f}, N = {2:5.3f}, NRd = {4:5.3f}, {0:s}(new) = {3:5.3f}".format(var.name,var.value,N,new_val,var.value*mem.fy))
+
+            self.substitute_variables(new_vals)
         
         #self.print_vars()
     
-- 
2.43.0


From add6c7160ceb10906403fb36646c6b067b07b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 242/262] fix: scale_design accepts a list

---
 metku/optimization/problems/truss_optimization.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 58bb02b..7e58fd1 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -614,13 +614,11 @@ class TrussOptimization(OptimizationProblem):
             
             mu_L = max(mu_L,g+1)
             
-        print(mu_L,mu_U)
-        
         if mu_L > mu_U:
             print("Design cannot be scaled.")
             mu_L = 1.0
         
-        return mu_L*x
+        return mu_L*np.asarray(x)
             
         
 def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
-- 
2.43.0


From d759524343b7eda89d545430c65dcc0571ab0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 243/262] fix: members of a vanishing node vanish in truss
 topology optimization

---
 metku/optimization/problems/truss_milp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index a6154cf..394bb56 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -386,8 +386,8 @@ class TrussMILP:
         for j, node in enumerate(self.nodes):            
             for m in node['members']:
                 a = np.zeros(nx)
-                a[Zstart+j] = 1
-                a[Ystart+m] = -1
+                a[Zstart+j] = -1
+                a[Ystart+m] = 1
                 self.milp.add(sop.LinearConstraint(a,0,con_type="<",
                                                    name="Y[{0:.0f}] <= Z[{1:.0f}]".format(m,j)))
         
-- 
2.43.0


From 5c0de1060da6b9550c6d88c2c533cff9bfe033ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 244/262] fix: plastic modulus of WQ sections with the neutral
 axis in a flange

---
 metku/sections/steel/wq.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 9d7d76f..5694f81 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -230,6 +230,15 @@ class WQSection(SteelSection):
         """
         # with respect to y-axis
         dpl = 0.5*(self.hw-self.tt)-0.25*(self.At-self.Ab)/self.tw
+
+        if dpl < 0:
+            # neutral axis is in the top flange: the flange and the webs
+            # beside it are plastified
+            dpl = 0.5*self.area()/(self.bt+2*self.tw) - self.tt
+        elif dpl > self.hw:
+            # neutral axis is in the bottom flange
+            dpl = self.height - self.tt - 0.5*self.area()/self.bb
+
         return dpl
     
     def second_moment(self):
@@ -276,12 +285,20 @@ class WQSection(SteelSection):
         
         if dpl < 0:
             # neutral axis is in the top flange
-            # TODO
-            Wpl[0] = 0
+            # distances of neutral axis from top and bottom of the top flange
+            zt = dpl + self.tt
+            zb = -dpl
+            Wpl[0] = 0.5*(self.bt+2*self.tw)*(zt**2+zb**2) + \
+                    2*self.hw*self.tw*(0.5*self.hw+zb) + \
+                    self.Ab*(self.hw+0.5*self.tb+zb)
         elif dpl > self.hw:
             # neutral axis is in the bottom flange
-            # TODO
-            Wpl[0] = 0        
+            # distances of neutral axis from top and bottom of the bottom flange
+            zt = dpl - self.hw
+            zb = self.tb - zt
+            Wpl[0] = self.At*(self.hw+0.5*self.tt+zt) + \
+                    2*self.Aw*(0.5*self.h+zt) + \
+                    0.5*self.bb*(zt**2+zb**2)
         else:
             # neutral axis is in the web
             rt = dpl + 0.5*self.tt
-- 
2.43.0


From f9e943eaac1112cb094da8faed472274c9c405d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 245/262] fix: stress ratio of WQ webs in bending

---
 metku/sections/steel/wq.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 5694f81..0c88d87 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -10,6 +10,8 @@ WQ sections (welded box beam)
 @author: kmela
 """
 
+import math
+
 from metku.eurocodes.en1993 import en1993_1_1, en1993_1_5, constants
 from metku.sections.steel.steel_section import SteelSection
 
@@ -153,8 +155,12 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         dpl = self.plastic_neutral_axis()
         rw = self.hw / self.tw
-        psi = zel/(self.height-zel)
-        alpha = dpl/self.hw
+        # distances of the edges of the web from the elastic neutral axis
+        zt = self.tb + self.hw - zel
+        zb = zel - self.tb
+        # if the neutral axis is above the web, there is no compression in it
+        psi = -zb/zt if zt > 0 else -math.inf
+        alpha = min(max(dpl/self.hw, 0.0), 1.0)
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps,alpha,psi)
 
         if verb:
-- 
2.43.0


From 883dcde9d7b27f196c3a28ba0bc0994d02212e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 246/262] fix: bending and axial force of WQ sections

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 0c88d87..10cfc78 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -201,7 +201,7 @@ class WQSection(SteelSection):
                   MRd .. moment resistance           
             TODO
         """
-        aw = min((self.A - 2 * self.b * self.tf) / self.A, 0.5)
+        aw = min((self.A - self.At - self.Ab) / self.A, 0.5)
 
         if UN > 1.0:
             MNRd = 0.0
-- 
2.43.0


From 4bc8a6de4cdcb121480209b8d718a7d6331b23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 247/262] fix: shear area of WQ sections as used in the
 resistances

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 10cfc78..8404a7e 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -48,7 +48,7 @@ class WQSection(SteelSection):
         
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear=1.0)
 
-        self.Ashear = self.shear_area()
+        self.Ashear = [0.0, self.shear_area()]
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """        
         self.imp_factor = [en1993_1_1.buckling_curve["b"],
-- 
2.43.0


From 4f4b076f142a4599ad1a01dac6cf00128963e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 248/262] fix: wall pressures of facades not larger than 10 m2

---
 metku/eurocodes/en1991/en1991_1_4.py | 51 +++++++++++++++++++---------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index e1a57ff..4826d94 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -224,6 +224,20 @@ def wind_pressure_int(qp,cpi):
     
     return qp*cpi
 
+def area_coefficient(cpe, A):
+    """ External pressure coefficient for loaded area A, EN 1991-1-4, Figure 7.2
+
+        :param cpe: dict of coefficients for 10 m2 ("cpe10") and for 1 m2 ("cpe1")
+        :param A: loaded area [m2]
+    """
+
+    if A >= 10:
+        return cpe["cpe10"]
+    elif A <= 1:
+        return cpe["cpe1"]
+    else:
+        return cpe["cpe1"] - (cpe["cpe1"]-cpe["cpe10"])*math.log10(A)
+
 def rect_building_wall_pressure(length,width,h,qp,wind_dir="long"):
     """ Calculates external wind pressures in various zones
         for a rectangular building.
@@ -282,35 +296,40 @@ def rect_building_wall_pressure(length,width,h,qp,wind_dir="long"):
     print("e = {0:4.2f} m".format(e))
     print("h/d = {0:4.2f} ".format(hd_ratio))
     
-    if A > 10:
-        zones["A"]['cpe'] = ext_pressure_walls["A"][5]["cpe10"]
-        zones["B"]['cpe'] = ext_pressure_walls["B"][5]["cpe10"]
-        zones["C"]['cpe'] = ext_pressure_walls["C"][5]["cpe10"]
+    # Coefficients for the loaded area, EN 1991-1-4, Figure 7.2
+    cpe = {}
+    for zone, ratios in ext_pressure_walls.items():
+        cpe[zone] = {ratio: area_coefficient(val, A) for ratio, val in ratios.items()}
+
+    if A > 0:
+        zones["A"]['cpe'] = cpe["A"][5]
+        zones["B"]['cpe'] = cpe["B"][5]
+        zones["C"]['cpe'] = cpe["C"][5]
 
         if hd_ratio >= 5:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][5]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][5]["cpe10"]
+            zones["D"]['cpe'] = cpe["D"][5]
+            zones["E"]['cpe'] = cpe["E"][5]
         elif hd_ratio >= 1:
             """ Linear interpolation for E """
-            zones["D"]['cpe'] = ext_pressure_walls["D"][1]["cpe10"]
-            Y = [ext_pressure_walls["E"][1]["cpe10"],
-                 ext_pressure_walls["E"][5]["cpe10"]]
+            zones["D"]['cpe'] = cpe["D"][1]
+            Y = [cpe["E"][1],
+                 cpe["E"][5]]
             X = [1,5]            
             zones["E"]['cpe'] = interpolate(X,Y,hd_ratio)
         elif hd_ratio >= 0.25:
             """ Linear interpolation for D and E """            
             X = [0.25,1]                        
-            YD = [ext_pressure_walls["D"][0.25]["cpe10"],
-                 ext_pressure_walls["D"][1]["cpe10"]]            
-            YE = [ext_pressure_walls["E"][0.25]["cpe10"],
-                 ext_pressure_walls["E"][1]["cpe10"]]            
+            YD = [cpe["D"][0.25],
+                 cpe["D"][1]]            
+            YE = [cpe["E"][0.25],
+                 cpe["E"][1]]            
             zones["D"]['cpe'] = interpolate(X,YD,hd_ratio)
             zones["E"]['cpe'] = interpolate(X,YE,hd_ratio)
             
-            #zones["E"]['cpe'] = ext_pressure_walls["E"][1]["cpe10"]
+            #zones["E"]['cpe'] = cpe["E"][1]
         else:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][0.25]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][0.25]["cpe10"]
+            zones["D"]['cpe'] = cpe["D"][0.25]
+            zones["E"]['cpe'] = cpe["E"][0.25]
 
     for key, value in zones.items():
         value['we'] = qp*value['cpe']
-- 
2.43.0


From 3e3c398a946ac4418520e671acdc6fcfaa0a785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 249/262] fix: loads in Robot files of Frame2D

---
 metku/frame2d/frame2d.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index a695d67..294a7eb 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -940,21 +940,11 @@ class Frame2D:
                     n1 = [val for val in n1]
                     nodes.append(n1)
                     idx = nodes.index(n1) + 1
-                FX, FZ, MY = pointload.v
-                if FX:
-                    pointloads.append(f'    {idx} FX={FX}')
-                elif FX and FZ:
-                    pointloads.append(f'    {idx} FX={FX}  FZ={FZ}')
-                elif FX and MY:
-                    pointloads.append(f'    {idx} FX={FX}  MY={MY}')
-                elif FZ:
-                    pointloads.append(f'    {idx} FZ={FZ}')
-                elif FZ and MY:
-                    pointloads.append(f'    {idx} FZ={FZ}  MY={MY}')
-                elif MY:
-                    pointloads.append(f'    {idx} MY={MY}')
-                elif FX and FZ and MY:
-                    pointloads.append(f'    {idx} FX={FX}  FZ={FZ}  MY={MY}')
+                components = [f'{name}={val}' for name, val in
+                              zip(('FX', 'FZ', 'MY'), pointload.v * pointload.f)
+                              if val]
+                if components:
+                    pointloads.append(f'    {idx} ' + '  '.join(components))
 
         # Vertical braces
         for i in range(len(vert_braces) - 3):
@@ -1067,7 +1057,7 @@ class Frame2D:
                             dir = 'PZ'
                         else:
                             dir = 'PX'
-                        q0, q1 = lineload.values
+                        q0, q1 = lineload.values * lineload.f
                         if q0 != q1:
                             f.write(f' {idx} X=0.0 {dir}={q0} TILl  ')
                             f.write(f'X=1.000  {dir}={q1}      RElative \n')
-- 
2.43.0


From 6dcc89ee9522b847537f2398cb86fca1c4c424b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 250/262] fix: thickness of SHS profiles in Robot files of
 Frame2D

---
 metku/frame2d/frame2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 294a7eb..6704f51 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -831,7 +831,7 @@ class Frame2D:
                 elif profile_type == "SHS":
                     dims = splitted_val[1].split("X")
                     profile = 'RRHS ' + str(dims[0]) + 'X' + str(
-                        dims[0]) + 'X' + str(dims[1])
+                        dims[0]) + 'X' + str(dims[-1])
                 else:
                     profile = member.profile
                 # Webs
@@ -963,7 +963,7 @@ class Frame2D:
             elif profile_type == "SHS":
                 dims = splitted_val[1].split("X")
                 profile = 'RRHS ' + str(dims[0]) + 'X' + str(
-                    dims[0]) + 'X' + str(dims[2])
+                    dims[0]) + 'X' + str(dims[-1])
             else:
                 profile = brace_profile
             profiles.append(profile)
-- 
2.43.0


From f6ad7f40d7d640045594a72662a1266b711a7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 251/262] fix: supports in Robot files of Frame2D

---
 metku/frame2d/frame2d.py | 48 +++++++++-------------------------------
 1 file changed, 10 insertions(+), 38 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 6704f51..d948b0a 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -997,44 +997,16 @@ class Frame2D:
                 f.write(f' {profiles[i]}    \n')
 
             f.write("SUPports \n")
-            if self.is_calculated:
-                for sup in self.supports.values():
-                    for i in range(num_frames):
-                        n1 = sup.coordinate
-                        if num_frames != 1:
-                            n1 = [n1[0], i * s, n1[1]]
-                        idx = nodes.index(n1) + 1
-                        if sup.dofs == [0]:
-                            f.write(f'{idx}  UX  \n')
-                        elif sup.dofs == [0, 1]:
-                            f.write(f'{idx}  UX UZ \n')
-                        elif sup.dofs == [0, 1, 2]:
-                            f.write(f'{idx}  \n')
-                        elif sup.dofs == [1]:
-                            f.write(f'{idx}  UZ  \n')
-                        elif sup.dofs == [1, 2]:
-                            f.write(f'{idx}  UZ RY  \n')
-                        else:
-                            f.write(f'{idx}  RY \n')
-            else:
-                for sup in self.supports.values():
-                    for i in range(num_frames):
-                        n1 = sup.coordinate
-                        if num_frames != 1:
-                            n1 = [n1[0], i * s, n1[1]]
-                        idx = nodes.index(n1) + 1
-                        if sup.dofs == [1, 0, 0]:
-                            f.write(f'{idx}  UX  \n')
-                        elif sup.dofs == [1, 1, 0]:
-                            f.write(f'{idx}  UX UZ \n')
-                        elif sup.dofs == [1, 1, 1]:
-                            f.write(f'{idx}  \n')
-                        elif sup.dofs == [0, 1, 0]:
-                            f.write(f'{idx}  UZ  \n')
-                        elif sup.dofs == [0, 1, 1]:
-                            f.write(f'{idx}  UZ RY  \n')
-                        else:
-                            f.write(f'{idx}  RY \n')
+            # the directions that are NOT supported are listed
+            for sup in self.supports.values():
+                free = ' '.join(name for dof, name in enumerate(('UX', 'UZ', 'RY'))
+                                if dof not in sup.dofs)
+                for i in range(num_frames):
+                    n1 = sup.coordinate
+                    if num_frames != 1:
+                        n1 = [n1[0], i * s, n1[1]]
+                    idx = nodes.index(n1) + 1
+                    f.write(f'{idx}  {free} \n')
 
             f.write("RELeases \n")
             for elem in releases.keys():
-- 
2.43.0


From 36068f789883305a53cdf1f49d5c09d23239bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 252/262] fix: names of HEAA, HEC and HEM sections

---
 metku/sections/steel/ISection.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index f136963..2993eb5 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -587,6 +587,14 @@ class HEAA(ISection):
 
         ISection.__init__(self, H, B, tf, tw, r, fy=fy)
 
+    def __repr__(self):
+        return self.name
+
+    def robot(self):
+        # Format name suitable for Robot Structural Analysis
+        steel, size, series = self.name.split()
+        return steel + series + ' ' + size
+
 
 class HEB(ISection):
     """ European wide flange sections
@@ -653,6 +661,14 @@ class HEC(ISection):
 
         ISection.__init__(self, H, B, tf, tw, r, fy=fy)
 
+    def __repr__(self):
+        return self.name
+
+    def robot(self):
+        # Format name suitable for Robot Structural Analysis
+        steel, size, series = self.name.split()
+        return steel + series + ' ' + size
+
 
 class HEM(ISection):
     """ European wide flange sections
@@ -690,6 +706,14 @@ class HEM(ISection):
 
         ISection.__init__(self, H, B, tf, tw, r, fy=fy)
 
+    def __repr__(self):
+        return self.name
+
+    def robot(self):
+        # Format name suitable for Robot Structural Analysis
+        steel, size, series = self.name.split()
+        return steel + series + ' ' + size
+
 
 class CustomISection(ISection):
     def __init__(self, H, B, tf, tw, r, fy=355):
-- 
2.43.0


From 3d275406b15e57ee54775b4e0dc3cfa339d43f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 253/262] fix: joint stiffness at both ends of truss members of
 one element

---
 metku/truss2d/truss2d.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 66b1062..785acb0 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -732,8 +732,15 @@ class TrussMember(FrameMember):
 
             n1 = node_ids[i]
             n2 = node_ids[i + 1]
+            # EBSemiRigid -element, the only element
+            if len(self.nodes) == 2:
+                self.elements[index] = \
+                    EBSemiRigidBeam(fem_model.nodes[n1], fem_model.nodes[n2], \
+                                    self.cross_section, \
+                                    self.material, \
+                                    rot_stiff=[self.Sj1, self.Sj2])
             # EBSemiRigid -element, first element
-            if i == 0:
+            elif i == 0:
                 self.elements[index] = \
                     EBSemiRigidBeam(fem_model.nodes[n1], fem_model.nodes[n2], \
                                     self.cross_section, \
-- 
2.43.0


From 85af8107ff18907812bb8073a1c86bcb02428a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 254/262] fix: line load of top chords of Truss2D

---
 metku/truss2d/truss2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 785acb0..063da34 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -8,7 +8,7 @@ import numpy as np
 from matplotlib.patches import Arc
 
 from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSKGapJoint, RHSYJoint
-from metku.frame2d.frame2d import Frame2D, FrameMember, LoadIDs
+from metku.frame2d.frame2d import Frame2D, FrameMember, LineLoad, LoadIDs
 from metku.framefem import FrameFEM, BeamSection
 from metku.structures.steel.steel_member import SteelMember
 from metku.framefem.elements import EBBeam, EBSemiRigidBeam
-- 
2.43.0


From 6173173cf42cbb63f1d7c010c8965ed5c4600d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 255/262] fix: angles between braces and sloped chords of
 Truss2D

---
 metku/truss2d/truss2d.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 063da34..810e919 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -1100,7 +1100,7 @@ class TrussJoint:
             webs = sorted(self.webs.values(), key=lambda w: w.top_loc)
         w1 = webs[0]
         theta1 = min(abs(w1.angle - self.chord.angle),
-                     abs(np.pi - w1.angle - self.chord.angle))
+                     np.pi - abs(w1.angle - self.chord.angle))
 
         return theta1
 
@@ -1113,7 +1113,7 @@ class TrussJoint:
                 webs = sorted(self.webs.values(), key=lambda w: w.top_loc)
             w2 = webs[1]
             theta2 = min(abs(w2.angle - self.chord.angle),
-                         abs(np.pi - w2.angle - self.chord.angle))
+                         np.pi - abs(w2.angle - self.chord.angle))
             return theta2
         return 0
 
@@ -1133,9 +1133,9 @@ class TrussJoint:
                 h2 = w2.h
                 h0 = self.chord.h
                 theta1 = min(abs(w1.angle - self.chord.angle),
-                             abs(np.pi - w1.angle - self.chord.angle))
+                             np.pi - abs(w1.angle - self.chord.angle))
                 theta2 = min(abs(w2.angle - self.chord.angle),
-                             abs(np.pi - w2.angle - self.chord.angle))
+                             np.pi - abs(w2.angle - self.chord.angle))
                 e = h1 / (2 * np.sin(theta1)) + h2 / (
                         2 * np.sin(theta2)) + self.__g1
                 e *= (np.sin(theta1) * np.sin(theta2)) / np.sin(
@@ -1167,9 +1167,9 @@ class TrussJoint:
             theta2 = np.arctan(self.theta2 + delta / X2)
 
             # theta1 = min(abs(w1.angle - self.chord.angle),
-            #              abs(np.pi - w1.angle - self.chord.angle))
+            #              np.pi - abs(w1.angle - self.chord.angle))
             # theta2 = min(abs(w2.angle - self.chord.angle),
-            #              abs(np.pi - w2.angle - self.chord.angle))
+            #              np.pi - abs(w2.angle - self.chord.angle))
 
             g = val + h0 / 2
             g *= np.sin(theta1 + theta2) / (np.sin(theta1) * np.sin(theta2))
@@ -1196,9 +1196,9 @@ class TrussJoint:
             h0 = self.chord.h
 
             theta1 = min(abs(w1.angle - self.chord.angle),
-                         abs(np.pi - w1.angle - self.chord.angle))
+                         np.pi - abs(w1.angle - self.chord.angle))
             theta2 = min(abs(w2.angle - self.chord.angle),
-                         abs(np.pi - w2.angle - self.chord.angle))
+                         np.pi - abs(w2.angle - self.chord.angle))
 
             g = self.e + h0 / 2
             g *= np.sin(theta1 + theta2) / (np.sin(theta1) * np.sin(theta2))
@@ -1422,7 +1422,7 @@ class TrussJoint:
             self.nodal_coordinates['c1'] = c1
 
             theta1 = min(abs(w1.angle - self.chord.angle),
-                         abs(np.pi - w1.angle - self.chord.angle))
+                         np.pi - abs(w1.angle - self.chord.angle))
             # Set design class
             self.rhs_joint = RHSYJoint(self.chord.cross_section,
                                        w1.cross_section,
@@ -1448,9 +1448,9 @@ class TrussJoint:
             # Calculate distance between axis' intersection
             # and projection from web to chord's axis
             theta1 = min(abs(w1.angle - self.chord.angle),
-                         abs(np.pi - w1.angle - self.chord.angle))
+                         np.pi - abs(w1.angle - self.chord.angle))
             theta2 = min(abs(w2.angle - self.chord.angle),
-                         abs(np.pi - w2.angle - self.chord.angle))
+                         np.pi - abs(w2.angle - self.chord.angle))
 
             d1 = abs(self.chord.h / 2 / np.tan(theta1))
             c01 -= self.chord.unit * d1
-- 
2.43.0


From ea1f7ff30a43a7d95f27ce05e48cd96a115aab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 256/262] fix: brace angle of Y joints of Truss2D

---
 metku/truss2d/truss2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 810e919..e49cc1c 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -1832,7 +1832,7 @@ class TrussJoint:
         self.rhs_joint.V0 = self.V0(load_id)
 
         if self.joint_type == 'Y':
-            self.angle = np.degrees(self.theta1)
+            self.rhs_joint.angle = np.degrees(self.theta1)
 
         elif self.joint_type == 'K':
             self.rhs_joint.angles = [np.degrees(self.theta1),
-- 
2.43.0


From 91614bded54cebf482c964e46ba630762fc621f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 257/262] fix: joint forces of Truss2D belong to the calculated
 load case

---
 metku/truss2d/truss2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index e49cc1c..f0640ed 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -391,12 +391,12 @@ class Truss2D(Frame2D):
 
     def calculate(self, load_id=2, **kwargs):
         super().calculate(load_id=load_id, **kwargs)
+        if str(load_id).upper() == "ALL":
+            load_id = self.load_ids[0]
         for mem in self.members.values():
-            if load_id == "ALL":
-                load_id = self.load_ids[0]
             mem.update_steel_members_lengths(load_id=load_id)
         for joint in self.joints.values():
-            joint.update_forces()
+            joint.update_forces(load_id)
 
     def generate(self, *args, **kwargs):
         """ Generates the truss
-- 
2.43.0


From ad90878173aec4700e95967511900f7dc0da52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 258/262] fix: sign of the chord force in K joints of Truss2D

---
 metku/truss2d/truss2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index f0640ed..5f366b1 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -1249,8 +1249,8 @@ class TrussJoint:
         elif self.joint_type == 'K':
             N01 = self.chord.nodal_forces[load_id][self.nodes['c01'].nid][0]
             N02 = self.chord.nodal_forces[load_id][self.nodes['c02'].nid][0]
-            N0 = max(abs(N01), abs(N02))
-            # N0 *= np.sign(N01)
+            # compression is negative in the design of the joint
+            N0 = max(N01, N02, key=abs)
         else:
             # TODO: KT
             N0 = 0
-- 
2.43.0


From d7158cb5084d488b448e09827519d7c54a6cf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 259/262] fix: joints follow the profiles of the braces of
 Truss2D

---
 metku/truss2d/truss2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/truss2d/truss2d.py b/metku/truss2d/truss2d.py
index 5f366b1..08c6070 100644
--- a/metku/truss2d/truss2d.py
+++ b/metku/truss2d/truss2d.py
@@ -555,6 +555,10 @@ class TrussMember(FrameMember):
             smem.profile = self.cross_section
         for joint in self.joints:
             joint.calc_nodal_coordinates()
+        # Braces are not in the lists of joints of the chords
+        for joint in (getattr(self, 'j1', None), getattr(self, 'j2', None)):
+            if joint is not None:
+                joint.calc_nodal_coordinates()
 
     def calc_nodal_coordinates(self, num_elements=0):
         """
-- 
2.43.0


From e1a260ee90b73f77261612c801bfed54a7c20410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 260/262] fix: column load as the first load of a load case of
 PortalTruss

---
 metku/raami/raami_portal_truss.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 9a35e65..165244f 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -596,9 +596,6 @@ class PortalTruss(Raami):
             """
             
         elif part == 'column':
-            if not (load_id in self.load_ids):
-                self.load_ids.append(load_id)
-            
             load_name = 'COL'
             if member == 'left':
                 mem = self.columns[0]
-- 
2.43.0


From 402aed8ff799974ee9a483054a6f17a9335f8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 261/262] fix: roof loads of PortalTruss applied twice

---
 metku/raami/raami_portal_truss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 165244f..4fbfa3b 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -467,8 +467,10 @@ class PortalTruss(Raami):
         
         #self.fem.draw()
         
-        # Generate loads
+        # Generate loads (those of the truss are already in the model)
         for load in self.loads.values():
+            if any(load is other for other in self.truss.loads.values()):
+                continue
             load.add_load(self.fem)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
-- 
2.43.0


From 9cb3f58e7f629a76a840f508b10ff20959060b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 262/262] fix: gap elements keep the old profile of the chord

---
 metku/raami/raami_plane_truss.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 93c6707..fb85bfd 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1562,6 +1562,15 @@ class SlopedTruss(PlaneTruss):
                 for brace, xc in xcenter.items():                    
                     joint.fem_nodes['xch'][brace].x = xc[0]
                     joint.fem_nodes['xch'][brace].y = xc[1]
+                
+                # The gap is a part of the chord
+                gap_elements = joint.fem_elements['gap']
+                if gap_elements is not None:
+                    if not isinstance(gap_elements,list):
+                        gap_elements = [gap_elements]
+                    
+                    for element in gap_elements:
+                        element.section = joint.chords[0].cross_section
     
     def plot(self, geometry=False, print_text=True, show=True,
              loads=True, color=False, axes=None, save=False, mem_dim=False,
-- 
2.43.0

