From 16e3a12e07c2bc0e560714f2502e686d4a1f610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 001/237] fix: linear_statics fails with the default support
 method ZERO

---
 metku/framefem/framefem.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..c6f177f 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -635,9 +635,12 @@ class FrameFEM:
             #print(rem_dofs)
             #print(K)
             #print(p)
-            self.K = K
-            self.p = np.column_stack(LOADS)
             #print(glob_dofs)
+        else:
+            LOADS = loads
+        
+        self.K = K
+        self.p = np.column_stack(LOADS)
                         
         """ Solve global displacement vector """
 
@@ -663,7 +666,8 @@ class FrameFEM:
                 # Substitute free dofs from global displacement vector                        
                 for i, free_dof in enumerate(free_dofs):
                     if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                        for j, lc in enumerate(lcase):
+                            node.u[lc][i] = u[dofs[i],j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From 76f3d5fca9ed3104eaa4c5cecdf860b0a12717b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 002/237] fix: member forces take only the last of several line
 loads into account

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 +-
 metku/framefem/elements/ebbeam.py             | 5 +++--
 metku/framefem/framefem.py                    | 5 +++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..288d6a8 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -313,7 +313,7 @@ class EBSemiRigidBeam(EBBeam):
             floc[rel] = 0
 
             # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..caca71c 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -508,8 +508,9 @@ class EBBeam(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads. There can be several loads on the element in
+        # the same load case
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index c6f177f..610cfab 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,11 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        # Clear the element loads of this load case: they are accumulated
+        # over the loads acting on the element
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From 948f80aea83b52d2eab122176543729992bc0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 003/237] fix: scaling factor of line loads is squared or
 ignored

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 4 ++--
 metku/framefem/elements/ebbeam.py             | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 288d6a8..bd46463 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -245,8 +245,8 @@ class EBSemiRigidBeam(EBBeam):
         L = self.length()
 
         if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f*load.qval[0]
+            q2 = load.f*load.qval[1]
             # print(q1,q2)
             if load.coords == 'local':
                 # print('local coordinates')
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index caca71c..b828594 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -423,7 +423,8 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                # (the scaling factor load.f is already included in q1 and q2)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From 6dec680a4236738903561f66bce9b3785f9e317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 004/237] fix: axial line loads in local coordinates are
 ignored

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 ++
 metku/framefem/elements/ebbeam.py             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index bd46463..b004b0a 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -253,6 +253,8 @@ class EBSemiRigidBeam(EBBeam):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = L * (1 / 3 * q1 + 1 / 6 * q2)
+                    floc[3] = L * (1 / 6 * q1 + 1 / 3 * q2)
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index b828594..0781af4 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -384,6 +384,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = L*(1/3*q1+1/6*q2)
+                    floc[3] = L*(1/6*q1+1/3*q2)
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
-- 
2.43.0


From 5c73e08e7df84eec828ec356cda39d6f62eb9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 005/237] fix: semi-rigid beam element cannot be analysed

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index b004b0a..9908790 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -72,9 +72,9 @@ class EBSemiRigidBeam(EBBeam):
         # print(rot_stiff)
         self.rot_stiff = rot_stiff
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         L = np.zeros((6, 6))
         L[0, 0:2] = c[0:2]
         L[1, 0] = -L[0, 1]
@@ -228,7 +228,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return kG
 
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
             'load' is a Load type object. By default, it is assumed that
-- 
2.43.0


From 3b5df5b43ed98aa951edad4cf05884f909f757d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 006/237] fix: linear spring element cannot be analysed

---
 metku/framefem/elements/springs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..0e9e89c 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,7 +36,7 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
         c = self.direction_cosines()
         L1 = np.hstack((c, np.zeros(len(c))))
@@ -132,7 +132,7 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self,lcase=0, order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
-- 
2.43.0


From ad5388fb43608f09b674323243e8a028a309ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 007/237] fix: line loads on semi-rigid beams ignore the
 flexibility of the joints

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 9908790..f99a5d8 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -302,6 +302,11 @@ class EBSemiRigidBeam(EBBeam):
 
                 # print(floc)
 
+        # Take the flexibility of the end connections into account in the
+        # equivalent nodal loads, consistently with the stiffness matrix
+        b = [1, 2, 4, 5]
+        floc[b] += self.matrix_S().transpose().dot(floc[b]) / self.delta()
+
         if len(self.releases) > 0:
             """ There are releases in the element, so the local load vector
                 is modified.
-- 
2.43.0


From c16a35efe5afea0c6e63e28abba81e09ea1650f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 008/237] fix: cached element stiffness ignores changed end
 releases and joint stiffness

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 4 ----
 metku/framefem/elements/ebbeam.py             | 5 -----
 2 files changed, 9 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index f99a5d8..08ae7ac 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam in 2D with rotational stiffness at nodes
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 from .ebbeam import EBBeam
 try:
     from metku.framefem import LineLoad
@@ -127,7 +124,6 @@ class EBSemiRigidBeam(EBBeam):
         return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 0781af4..82781db 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -11,10 +11,6 @@ Euler-Bernoulli beam element in 2D
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
-
 #try:
 #    from metku.framefem import Element, LineLoad, FEMNode
 #except:
@@ -93,7 +89,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
-- 
2.43.0


From d887a39756d18957d707feb38641776d38645f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 009/237] fix: second order analysis fails for tension members
 with end releases

---
 metku/framefem/elements/ebbeam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 82781db..57bcc57 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -289,8 +289,9 @@ class EBBeam(Element):
             #
             k0[[2, 5], [2, 5]] = a*PSI
         else:
-            # For members in tension, use first order stiffness matrix
-            k0 = self.local_stiffness_matrix(E, A, I1, Le)
+            # For members in tension, use first order stiffness matrix,
+            # which already takes the releases into account
+            return self.local_stiffness_matrix(E, A, I1, Le)
         
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
-- 
2.43.0


From 648e5de86a6d146520b2eb0abbb44071010f7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 010/237] fix: second order fixed end moments of line loads in
 local coordinates

---
 metku/framefem/elements/ebbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 57bcc57..4edd737 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -402,13 +402,13 @@ class EBBeam(Element):
                             k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
-- 
2.43.0


From e7167ca40fa3b80b2484122cd9b1b927f63c9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 011/237] fix: second order load vector requires E and Iy from
 the section

---
 metku/framefem/elements/ebbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 4edd737..0ca4eb8 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -399,7 +399,7 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                            k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
                             s = np.sin(lam)
@@ -457,7 +457,7 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                        k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
                         s = np.sin(lam)
-- 
2.43.0


From f249c79276b9227adfcb170b81634920e6fd2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 012/237] fix: 3D beam elements and 3D nodes cannot be analysed

---
 metku/framefem/elements/ebbeam.py | 10 +++++-----
 metku/framefem/framefem.py        |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 0ca4eb8..1058b8d 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -716,13 +716,13 @@ class EBBeam3D(Element):
         
         return super().direction_cosines()
             
-    def direction_cosines(self):
+    def direction_cosines(self,initial=True):
         """ Calculates direction cosines for a 3D-beam element """
         
         l0 = np.zeros((3,3))
         
-        X = self.coord()
-        L = self.length()
+        X = self.coord(initial)
+        L = self.length(initial)
         dX = X[1, :] - X[0, :]        
         # direction cosines along the local x axis
         l0[0,:] = dX / L
@@ -749,7 +749,7 @@ class EBBeam3D(Element):
         
         return l0
         
-    def transformation_matrix(self):
+    def transformation_matrix(self,initial=True):
         """ Calculates transformation matrix from local to global coordinates
 
             Returns:
@@ -758,7 +758,7 @@ class EBBeam3D(Element):
             :rtype: np.array
 
          """
-        l0 = self.direction_cosines()
+        l0 = self.direction_cosines(initial)
         L = np.zeros((12, 12))
         L[0:3, 0:3] = l0
         L[3:6, 3:6] = l0
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 610cfab..d5b44f8 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1481,7 +1481,7 @@ class FEMNode:
             self.X = np.array([x, y, z])
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
-            self.dofs = -np.ones(6)
+            self.dofs = -np.ones(6,dtype=int)
             # Nodal displacements
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
-- 
2.43.0


From 08ce7cbc63454e43bafad56c93b8b073f1290ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 013/237] fix: geometric stiffness of rods and springs

---
 metku/framefem/elements/rod.py     | 5 +++--
 metku/framefem/elements/springs.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..6e6caa1 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,8 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index 0e9e89c..64aac16 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -94,7 +94,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -110,7 +110,8 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
-- 
2.43.0


From 3fcb65d76700fe3a18ccbfc1074441a913195f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 014/237] fix: BeamSection lacks the torsional constant used by
 3D beams

---
 metku/framefem/framefem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index d5b44f8..d6e8277 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1160,6 +1160,11 @@ class BeamSection(Section):
         """ Torsional constant """
         self.J = J
     
+    @property
+    def It(self):
+        """ Torsional constant (name used by the 3D beam element) """
+        return self.J
+    
     @property
     def Iy(self):
         
-- 
2.43.0


From 78a9ea07db5e72e2c3829803d0d0fc44d8610ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 015/237] fix: linear buckling misses load factors smaller than
 one

---
 metku/framefem/framefem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index d6e8277..397ce62 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -868,7 +868,12 @@ class FrameFEM:
         # v0 -- initial guess is set to np.ones -matrix,
         # this makes sure that w and v values doesn't change
         # after consecutive runs, default v0 is matrix with random values
-        (w, buckling_modes) = eigsh(K, k=k, M=-KG, sigma=1.0, which='LA', mode='buckling')
+        # The eigenvalues are solved as the inverses of the load factors,
+        # because searching from a fixed shift misses smaller load factors.
+        (mu, buckling_modes) = sp.linalg.eigh(-KG, K)
+        ndx = np.argsort(mu)[::-1][:k]
+        w = 1/mu[ndx]
+        buckling_modes = buckling_modes[:,ndx]
         #w = sp.linalg.eigvals(K,b=-KG)
         #(w,buckling_modes) = sp.linalg.eig(K,b=-KG)
         #(w,buckling_modes) = sp.sparse.linalg.eigs(K,k=6,M=-KG,which='SM',sigma=0)
-- 
2.43.0


From 2d194a2fa4087b649afd2c9358cf72062c4951fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 016/237] fix: 3D beam elements without a reference node cannot
 be created

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1058b8d..57c8100 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -16,7 +16,7 @@ import numpy as np
 #except:
 #    from framefem import Element, LineLoad
 
-from ..framefem import Element, LineLoad
+from ..framefem import Element, LineLoad, FEMNode
 
 class EBBeam(Element):
     """ Euler-Bernoulli beam element
-- 
2.43.0


From 53fe4d8c8e97b8356f9d9cbf76f2714cd7b6be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 017/237] fix: buckling modes are distributed to wrong nodes
 (unordered free dofs)

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 397ce62..6121658 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -391,7 +391,7 @@ class FrameFEM:
     def global_free_dofs(self):
         """ List of free degrees of freedom """
         
-        return list(set(np.arange(self.dofs))-set(self.supp_dofs))
+        return sorted(set(np.arange(self.dofs))-set(self.supp_dofs))
 
     def global_stiffness_matrix(self):
         """ Constructs the global stiffness matrix
-- 
2.43.0


From 7c14c3fe03847c230ae83b05ee0e23ee4c1abc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 018/237] fix: second order analysis fails for members without
 axial force

---
 metku/framefem/elements/ebbeam.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 57c8100..cfc7ea5 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -265,11 +265,19 @@ class EBBeam(Element):
             slam = np.sin(lam)
             clam = np.cos(lam)
             
-            D = 2-2*clam-lam*slam
-            K = lam**3/12*slam/D
-            H = lam**2/6*(1-clam)/D
-            PSI = lam/4*(slam-lam*clam)/D
-            PHI = 0.5*lam*(lam-slam)/D
+            if lam > 0.1:
+                D = 2-2*clam-lam*slam
+                K = lam**3/12*slam/D
+                H = lam**2/6*(1-clam)/D
+                PSI = lam/4*(slam-lam*clam)/D
+                PHI = 0.5*lam*(lam-slam)/D
+            else:
+                # With (nearly) zero axial force, the stability functions
+                # cannot be evaluated numerically: use their series
+                K = 1-lam**2/10
+                H = 1-lam**2/60
+                PSI = 1-lam**2/30
+                PHI = 1+lam**2/60
             
             k0 = np.zeros((6, 6))
             #
@@ -393,7 +401,7 @@ class EBBeam(Element):
                         # For second order analysis, assume uniform
                         # load on element
                         P = self.fint[load.sid]['fx'][0]
-                        if P >= 0:                        
+                        if P >= 0 or np.sqrt(abs(P)/self.material.young/self.section.I[0])*L <= 1e-2:                        
                             floc[1] = 7/20*q1*L + 3/20*q2*L
                             floc[4] = 3/20*q1*L + 7/20*q2*L                    
                             floc[2] = L**2*(1/20*q1+1/30*q2)
@@ -442,7 +450,7 @@ class EBBeam(Element):
                     # For second order analysis, assume uniform
                     # load on element
                     P = self.fint[load.sid]['fx'][0]
-                    if P >= 0:                        
+                    if P >= 0 or np.sqrt(abs(P)/self.material.young/self.section.I[0])*L <= 1e-2:                        
                         """ Loads perpendicular to the axis of the element """
                         qy1 = q1*qloc[1]
                         qy2 = q2*qloc[1]
-- 
2.43.0


From 215be8117e2d6a97a78a69c941a24dca330a9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 019/237] fix: perimeter of rolled I sections

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..0e813e6 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -716,7 +716,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 4 * (b - 2 * r) + 2 * (h - tw) + 2 * math.pi * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From 157796b1ce0d2dfc0c8370ddbccebbe7bdac5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 020/237] fix: web class of I sections depends on the sign of
 the bending moment

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 0e813e6..e57c668 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -316,7 +316,7 @@ class ISection(SteelSection):
                     the ratio is calculated for the stresses in the
                     straight part of the web.
                 """
-                p = (sN+sM)/(sN-sM)
+                p = (sN+abs(sM))/(sN-abs(sM))
                 
             if verb:                
                 print("NEd = {0:4.3f} kN".format(self.Ned*1e-3))
-- 
2.43.0


From f856f2d5e01015a4152bb6442c326bde3ad9b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 021/237] fix: I sections lack the shear area for shear along
 the flanges

---
 metku/sections/steel/ISection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index e57c668..71e9709 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -42,7 +42,7 @@ class ISection(SteelSection):
         A, Au, Ashear, I, It, Iw, Wpl, Wel = cross_section_properties(B, H, tf, tw, r)
         self.Iw = Iw
         self.It = It
-        super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
+        super().__init__(fy, A, I, Au, Wpl, Wel, [2 * B * tf, Ashear])
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
@@ -703,7 +703,8 @@ class CustomISection(ISection):
 
     def cross_section_properties(self):
         args = cross_section_properties(self.B, self.H, self.tf, self.tw, self.r)
-        self.A, self.Au, self.Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.A, self.Au, Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.Ashear = [2 * self.B * self.tf, Ashear]
 
 
 def cross_section_properties(b, h, tf, tw, r):
-- 
2.43.0


From 5b54d522b3493fc049bbd2dcd8e2eb49d46725c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 022/237] fix: shear area of rectangular hollow sections along
 the flanges

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From bb96708f2844692ce7a14bfef2083ca8278d0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 023/237] fix: webs of hollow sections are never slender in
 compression and bending

---
 metku/sections/steel/RHS.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 15d2352..a30e20a 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -228,8 +228,32 @@ class RHS(SteelSection):
         return cWeb    
 
     def web_class_comp_bend(self, Ned, verb=False):
+        """ Determine class of webs in combined bending and compression """
+        cw = self.c_web
+        rw = cw / self.T
+
+        # Location of the plastic neutral axis, axial force is carried by the webs
+        NRwebs = 2 * cw * self.T * self.fy
+        a = min(max(0.5 * (1 - self.Ned / NRwebs), 0.0), 1.0)
+
+        # Stress ratio
+        sN = self.sigmaN()
+        sM = abs(self.sigmaM())
+        if sN >= sM:
+            p = 1
+        else:
+            p = (sN + sM) / (sN - sM)
+
+        cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
 
-        return 2
+        if verb:
+            print("Web classification (internal part in compression and bending):")
+            print("cw = {0:4.2f}, tw = {1:4.2f}".format(cw, self.T))
+            print("alpha = {0:4.3f}".format(a))
+            print("psi = {0:4.3f}".format(p))
+            print("Web class = {0}".format(cWeb))
+
+        return cWeb
 
     def moment_axial_force_interact(self, UN, MRd):
         """ Interaction rule for section resistance for combined
-- 
2.43.0


From 15329496b233fe7f4b30ea75f88e87feb5b2e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 024/237] fix: circular hollow sections cannot be used in
 section and member checks

---
 metku/sections/steel/CHS.py | 46 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..15ef872 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -39,7 +39,7 @@ class CHS(SteelSection):
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
-        super().__init__(fy,A,I,Au,Wpl,Wel,Ashear)
+        super().__init__(fy,A,[I,I],Au,[Wpl,Wpl],[Wel,Wel],[Ashear,Ashear])
         
 
         self.imp_factor = [en1993_1_1.buckling_curve["c"],en1993_1_1.buckling_curve["c"]]
@@ -89,7 +89,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
@@ -97,21 +97,26 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
+    def bending_resistance(self, C=0, axis="y", verb=False):
         # Bending resistance, Nmm
         if C == 0:
             C = self.section_class()
 
+        if axis == "y":
+            n = 0
+        else:
+            n = 1
+
         if C < 3:
-            WRd = self.Wpl
+            WRd = self.Wpl[n]
         elif C == 3:
-            WRd = self.Wel
+            WRd = self.Wel[n]
         else:
             #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
             warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
                   f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
 
-            WRd = self.Wel
+            WRd = self.Wel[n]
 
         MRd = self.code.bending_resistance(WRd, self.fy)
 
@@ -120,20 +125,16 @@ class CHS(SteelSection):
 
         return MRd, C
     
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
-            
-        """ EN 1993-1-1: 6.2.9.1(5)
+    def moment_axial_force_interact(self, UN, MRd):
+        """ This interaction formula is only for plastic design
+        
+            EN 1993-1-1: 6.2.9.1(5)
             In class 1 or 2 use plastic design
         """
-        n = abs(self.Ned)/NRd;
-
-        if n > 1.0:
-            MNRd = 0
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd*min(1-UN**1.7,1)
 
         return MNRd
     
@@ -194,13 +195,16 @@ class CustomCHS(CHS):
             I = self.second_moment()
             #if I[1] < 0:
             #    print(self.h, self.b, self.tt, self.tb, self.tw)
-            return self.second_moment()
+            return [I, I]
         elif name == "Wel":
-            return self.section_modulus()
+            Wel = self.elastic_modulus()
+            return [Wel, Wel]
         elif name == "Wpl":
-            return self.plastic_section_modulus()
+            Wpl = self.plastic_modulus()
+            return [Wpl, Wpl]
         elif name == "Ashear":
-            return self.shear_area()
+            Ashear = self.shear_area()
+            return [Ashear, Ashear]
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
-- 
2.43.0


From 7b12ee0d3af4bd70a2538a431fb0212df5b79179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 025/237] fix: paint area of welded I sections misses one side
 of the top flange

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..1d221f3 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -604,7 +604,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From 39eb17c9c18f346401679f072dd24ea4d7a7e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 026/237] fix: compressed part of the web of welded I sections
 ignores the weld size

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 1d221f3..14b0777 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -533,7 +533,7 @@ class WISection(SteelSection):
             alpha = 0  # TODO tarkista tämä
         else:
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+                    / self.cw
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
-- 
2.43.0


From d164d04dbbfe50821ac23acaa4faaeee627a30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 027/237] fix: web area ratio in M-N interaction of welded I
 sections

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 14b0777..53b323c 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -579,7 +579,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From 4fcddd32fba08d189a0378222179132dac1e6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 028/237] fix: asymmetry factor zj of welded I sections is not
 taken about the centroid

---
 metku/sections/steel/wi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 53b323c..c84dd6e 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -467,9 +467,12 @@ class WISection(SteelSection):
             Book 2, 7.1.2 Mono-symmetrical I cross-sections
         """
 
-        zf1 = self.zt
-        zf2 = self.zb
-        zw = self.zw
+        # Positions of the centroids of the plates with respect to the
+        # centroid of the cross-section
+        zG = self.elastic_neutral_axis()
+        zf1 = self.zt - zG
+        zf2 = self.zb - zG
+        zw = self.zw - zG
         Izf1 = self.Izt
         Izf2 = self.Izb
         Izw = self.Izw
-- 
2.43.0


From c82b6436b419dcf01ef457826232c11b3a37fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 029/237] fix: non-effective part of the web of welded I
 sections

---
 metku/sections/steel/wi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index c84dd6e..4e28355 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -814,9 +814,8 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
-        # self.eff_web['bneg'] = (1 - rho) * cw / 2
+        # Non-effective part of the compressed part of the web
+        self.eff_web['bneg'] = (1 - rho) * self.eff_web['bc']
 
         if verb:
             print("Effective Web:")
-- 
2.43.0


From c89397ea4b1f443a7febbaf6dd17fb1746fde1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 030/237] fix: shear buckling resistance of welded I sections:
 upper limit and fully utilized flanges

---
 metku/sections/steel/wi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 4e28355..d2ea053 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -893,9 +893,11 @@ class WISection(SteelSection):
                 Vbf_Rd = en1993_1_5.shear_buckling_flanges(bf, tf, fyw, a, hw, tw, fyw, rM, verb)
 
             else:
-                raise NotImplementedError("shear_buckling_resistance rM >= 1 not implemented")
+                # Flanges are fully utilized in bending, no contribution
+                Vbf_Rd = 0.0
 
-            VbRd = Vbw_Rd + Vbf_Rd
+            # EN 1993-1-5, Eq. (5.1)
+            VbRd = min(Vbw_Rd + Vbf_Rd, eta * fyw * hw * tw / (math.sqrt(3) * constants.gammaM1))
 
         return VbRd
 
-- 
2.43.0


From e31fd2ad7b207a1f6ec1cb7606125526ba87b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 031/237] fix: buckling factor of uniformly compressed outstand
 element

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..891179f 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -109,7 +109,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From a86dc2ae22f3bc35557c59393892055eebfee51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 032/237] fix: buckling factor of internal elements undefined
 for psi <= -3

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 891179f..836ef6c 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -83,7 +83,7 @@ def buckling_factor_internal(psi=1.0):
         ksigma = 7.81 - 6.29 * psi + 9.78 * psi ** 2
     elif psi == -1.0:
         ksigma = 23.9
-    elif psi > -3:
+    else:
         ksigma = 5.98 * (1 - psi) ** 2
 
     return ksigma
-- 
2.43.0


From 49ac84b200a480ffb0a9796384e972410ba6ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 033/237] fix: web class of welded I sections in compression
 and bending

---
 metku/sections/steel/wi.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index d2ea053..13cbe42 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -558,18 +558,31 @@ class WISection(SteelSection):
             TODO tarkista tämä
         """
         # cw = self.h-2*self.tf-2*self.r
-        rw = self.hw / self.tw
-        Ac = 0.5 * (self.A + Ned / (self.fy / constants.gammaM0))
-        a = Ac / self.A
-        p = -1
+        rw = self.cw / self.tw
+
+        # Compressed area of the fully plastic section, compression is negative.
+        # The compressed flange is the top flange.
+        Ac = 0.5 * (self.A - self.Ned / (self.fy / constants.gammaM0))
+        # Compressed part of the straight part of the web
+        weld = math.sqrt(2) * self.weld_throat
+        a = ((Ac - self.At) / self.tw - weld) / self.cw
+        a = min(max(a, 0.0), 1.0)
+
+        # Stress ratio between the edges of the web, compression is positive
+        zel = self.elastic_neutral_axis()
+        sN = -self.Ned / self.A
+        k = abs(self.Med[0]) / self.I[0]
+        s1 = sN + k * (self.h - zel - self.tt)
+        s2 = sN - k * (zel - self.tb)
+        p = s2 / s1 if s1 > 0 else 1
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
         self.web_class = cWeb
         if verb:
             print("Web classification (internal part in compression and "
                   "bending):")
-            print("hw = {0:4.2f}, tw = {1:4.2f}".format(self.hw, self.tw))
-            print("hw/tw = {0:4.2f}".format(rw))
+            print("cw = {0:4.2f}, tw = {1:4.2f}".format(self.cw, self.tw))
+            print("cw/tw = {0:4.2f}".format(rw))
             print("Web class = {0}".format(cWeb))
 
         return cWeb
-- 
2.43.0


From ab875a8b72469b153743a50433f0dea3d6188da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 034/237] fix: buckling curves of welded I sections are stale
 after changing dimensions

---
 metku/sections/steel/wi.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 13cbe42..3c5df24 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -79,15 +79,18 @@ class WISection(SteelSection):
 
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+        self.update_buckling_curves()
+
+    def update_buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if max(tf) <= 40:
+        if max(self.tt, self.tb) <= 40:
             self.imp_factor = [en1993_1_1.buckling_curve["b"],
                                en1993_1_1.buckling_curve["c"]]
         else:
             self.imp_factor = [en1993_1_1.buckling_curve["c"],
                                en1993_1_1.buckling_curve["d"]]
 
-        if h / min(b) <= 2.0:
+        if self.h / min(self.bt, self.bb) <= 2.0:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["c"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
         else:
@@ -163,6 +166,10 @@ class WISection(SteelSection):
         else:
             super().__setattr__(key, value)
 
+            # Buckling curves depend on the dimensions
+            if key in ("h", "bt", "bb", "tt", "tb") and "imp_factor_LT" in self.__dict__:
+                self.update_buckling_curves()
+
     """
     @property
     def hw(self):
-- 
2.43.0


From 8dd916c2b9471ef00118be2d6477b64363d32685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 035/237] fix: effective second moment of area of welded I
 sections with slender flange

---
 metku/sections/steel/wi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 3c5df24..0c2e822 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -382,8 +382,10 @@ class WISection(SteelSection):
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
         if psi_init < 0:
             self.effective_flange('top')
+            self.eff_bottom.update(rho=1.0, bneg=0.0)
         else:
             self.effective_flange('bottom')
+            self.eff_top.update(rho=1.0, bneg=0.0)
         psi = psi_init
         # For -loop range(5) is a conservative guess for neutral axis convergence
         for i in range(5):
@@ -398,8 +400,10 @@ class WISection(SteelSection):
             h_e2 = self.cw + weld_h - self.eff_web['bneg'] - e1
             h_all = [h_t, h_b, h_e1, h_e2]
             # Areas
-            A_t = self.bt * self.tt
-            A_b = self.bb * self.tb
+            b_t = self.bt - 2 * self.eff_top['bneg']
+            b_b = self.bb - 2 * self.eff_bottom['bneg']
+            A_t = b_t * self.tt
+            A_b = b_b * self.tb
             A_e1 = h_e1 * self.tw
             A_e2 = h_e2 * self.tw
             A_all = [A_t, A_b, A_e1, A_e2]
@@ -410,8 +414,8 @@ class WISection(SteelSection):
             z_e2 = self.tb + h_e2 / 2
             z_all = [z_t, z_b, z_e1, z_e2]
             # Second moment of areas
-            I_t = self.bt * h_t ** 3 / 12
-            I_b = self.bb * h_b ** 3 / 12
+            I_t = b_t * h_t ** 3 / 12
+            I_b = b_b * h_b ** 3 / 12
             I_e1 = self.tw * h_e1 ** 3 / 12
             I_e2 = self.tw * h_e2 ** 3 / 12
             I_all = [I_t, I_b, I_e1, I_e2]
-- 
2.43.0


From e59f0c22254842fb1bfbd74cf7e4c80724b06c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 036/237] fix: elastic section modulus of WQ sections

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 6f2896c..cbd0a42 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -256,7 +256,7 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         
         # distance of neutral axis from the top of the section
-        ztop = self.h+self.bb - zel
+        ztop = self.h+self.tb - zel
         
         Wel =[0,0]
         Wel[0] = I[0]/max(zel,ztop)
-- 
2.43.0


From bdf82bfc7813d741b3fa498a99f3c20c2deb26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 037/237] fix: centroid of WQ sections includes one web only

---
 metku/sections/steel/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index cbd0a42..78d354b 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -221,7 +221,7 @@ class WQSection(SteelSection):
         """ Elastic neutral axis 
             measured from the bottom of the section
         """
-        zel = (self.zb*self.Ab + self.zw*self.Aw + self.zt*self.At)/self.area()
+        zel = (self.zb*self.Ab + 2*self.zw*self.Aw + self.zt*self.At)/self.area()
         return zel
     
     def plastic_neutral_axis(self):
-- 
2.43.0


From 6a01f8995c15fa4edfc28afb2a35d3b0544f1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 038/237] fix: plastic section modulus of WQ sections with
 neutral axis in a flange

---
 metku/sections/steel/wq.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 78d354b..7a12fa3 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -230,6 +230,14 @@ class WQSection(SteelSection):
         """
         # with respect to y-axis
         dpl = 0.5*(self.hw-self.tt)-0.25*(self.At-self.Ab)/self.tw
+        
+        if dpl < 0:
+            # neutral axis is in the top flange
+            dpl = 0.5*self.area()/(self.bt+2*self.tw) - self.tt
+        elif dpl > self.hw:
+            # neutral axis is in the bottom flange
+            dpl = self.hw + self.tb - 0.5*self.area()/self.bb
+            
         return dpl
     
     def second_moment(self):
@@ -276,12 +284,14 @@ class WQSection(SteelSection):
         
         if dpl < 0:
             # neutral axis is in the top flange
-            # TODO
-            Wpl[0] = 0
+            Wpl[0] = 0.5*(self.bt+2*self.tw)*((dpl+self.tt)**2 + dpl**2) + \
+                    2*self.hw*self.tw*(0.5*self.hw-dpl) + \
+                    self.Ab*(self.hw-dpl+0.5*self.tb)
         elif dpl > self.hw:
             # neutral axis is in the bottom flange
-            # TODO
-            Wpl[0] = 0        
+            Wpl[0] = self.At*(dpl+0.5*self.tt) + \
+                    2*self.Aw*(dpl+self.tt-0.5*self.h) + \
+                    0.5*self.bb*((dpl-self.hw)**2 + (self.hw+self.tb-dpl)**2)
         else:
             # neutral axis is in the web
             rt = dpl + 0.5*self.tt
-- 
2.43.0


From 4eb4548457a800706f676fe691b45d33082b02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 039/237] fix: section resistance of WQ sections cannot be
 evaluated

---
 metku/sections/steel/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 7a12fa3..53812bd 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -46,7 +46,7 @@ class WQSection(SteelSection):
         
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear=1.0)
 
-        self.Ashear = self.shear_area()
+        self.Ashear = [0.0, self.shear_area()]
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """        
         self.imp_factor = [en1993_1_1.buckling_curve["b"],
@@ -195,7 +195,7 @@ class WQSection(SteelSection):
                   MRd .. moment resistance           
             TODO
         """
-        aw = min((self.A - 2 * self.b * self.tf) / self.A, 0.5)
+        aw = min((self.A - self.At - self.Ab) / self.A, 0.5)
 
         if UN > 1.0:
             MNRd = 0.0
-- 
2.43.0


From 0a10dd96b08be752cbbd570cbe282d6ec197d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 040/237] fix: stress ratio of the webs of WQ sections in
 bending

---
 metku/sections/steel/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 53812bd..a583a90 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -153,8 +153,8 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         dpl = self.plastic_neutral_axis()
         rw = self.hw / self.tw
-        psi = zel/(self.height-zel)
-        alpha = dpl/self.hw
+        psi = -(zel-self.tb)/(self.height-self.tt-zel)
+        alpha = min(max(dpl/self.hw,0.0),1.0)
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps,alpha,psi)
 
         if verb:
-- 
2.43.0


From c6ec7d9d9ac951ef2bccc05b84b9d42d7e307c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 041/237] fix: interaction factors kyy and kzz of class 3
 sections

---
 metku/eurocodes/en1993/en1993_1_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 9a19777..0af1d26 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -263,7 +263,7 @@ def kyy(UN, slend, Cmy=1.0, section_class=2):
     if section_class < 3:
         ky = Cmy * (1 + min(slend - 0.2, 0.8) * UN / gammaM1)
     else:
-        ky = Cmy * (1 + min(slend, 0.6) * UN / gammaM1)
+        ky = Cmy * (1 + min(0.6 * slend, 0.6) * UN / gammaM1)
 
     return ky
 
@@ -297,7 +297,7 @@ def kzz(UN, slend, Cmz, section_class=2, profile="hollow"):
         else:
             kz = Cmz * (1 + min(2 * slend - 0.6, 1.4) * UN / gammaM1)
     else:
-        kz = Cmz * (1 + min(slend, 0.6) * UN / gammaM1)
+        kz = Cmz * (1 + min(0.6 * slend, 0.6) * UN / gammaM1)
 
     return kz
 
-- 
2.43.0


From 964e82a3032eef19dbd9512fe5350f02beda72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 042/237] fix: section class of steels with yield strength
 below 235 MPa

---
 metku/eurocodes/en1993/en1993_1_1.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 0af1d26..92072c8 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -70,8 +70,8 @@ def internal_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # If e is large, it means that e is actually yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -97,8 +97,8 @@ def internal_part_comp_bend(r, e, a, p):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # If e is large, it means that e is actually yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -137,8 +137,8 @@ def outstand_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # If e is large, it means that e is actually yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
-- 
2.43.0


From e0407e1ab4c5ce9d74cdddfb88996a11ce31794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 043/237] fix: beam-column check of members susceptible to
 lateral-torsional buckling

---
 metku/structures/steel/steel_member.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..6efbded 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -704,8 +704,9 @@ class SteelMember:
 
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
-            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
-                                 section_class=cross_section_class)
+            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
+                                 section_class=cross_section_class,
+                                 susceptible_to_torsion=True)
         else:
             MzEd = self.MEdZ
 
@@ -734,6 +735,10 @@ class SteelMember:
         # MRd = self.profile.bending_resistance(C=cross_section_class)
         MRd = self.profile.MRd
 
+        if self.LTB:
+            # Resistance is reduced by lateral-torsional buckling
+            MRd = self.LT_buckling_strength(self.mcrit(), MRd=MRd)
+
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
 
-- 
2.43.0


From 25080c6ef784235463f7063bbe90a99f3825b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 044/237] fix: stability checks depend on which section was
 checked last

---
 metku/structures/steel/steel_member.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 6efbded..50fc1dd 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -660,9 +660,13 @@ class SteelMember:
             output: r .. utilization ratio for buckling        
         """
         MEd = self.MEdY
+        self.profile.Ned = self.NcEd
+        self.profile.Med[0] = MEd
         MbRd = self.LT_buckling_strength(self.mcrit())
         r = abs(MEd) / MbRd
 
+        self.stability['LTB'] = r
+
         return r
 
     def check_beamcolumn(self, sway=False, load="uniform", section_class=None, verb=False):
@@ -680,6 +684,7 @@ class SteelMember:
         # find the largest compression force in the member
         NEd = self.NcEd
         self.profile.Ned = NEd
+        self.profile.Med[0] = MyEd
 
         if section_class is None:
             cross_section_class = self.profile.section_class()
-- 
2.43.0


From b42f26c0d990a9153efcb99f644028e1330f3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 045/237] fix: critical moment of mono-symmetric sections
 ignores the position of the load

---
 metku/structures/steel/steel_member.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 50fc1dd..bd62076 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -442,7 +442,6 @@ class SteelMember:
             Mcr = part1 * (part2 - part3)
 
         elif self.symmetry == 'mono':
-            za = 0
             zs = self.profile.zs
             zg = za - zs
 
-- 
2.43.0


From 6d966f6eabc25d24bddd06dad9cd2e451f5ebc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 046/237] fix: sections in bending and small tension are always
 in class 1

---
 metku/sections/steel/steel_section.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..8fc58ee 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -503,7 +503,14 @@ class SteelSection(metaclass=ABCMeta):
 
         # Axial tension and bending
         elif self.Ned > 0.0 and abs(Med) > 1e-4:
-            C = 1
+            if self.sigmaN() >= abs(self.sigmaM()):
+                # Entire section in tension
+                C = 1
+            else:
+                # Compressed parts are classified as in pure bending
+                Cflange = self.flange_class(verb)
+                Cweb = self.web_class_bend(verb)
+                C = max(Cweb, Cflange)
 
         if verb:
             print("Section class = {0}".format(C))
-- 
2.43.0


From aefcdcda08dfcec31cbe076cdc83f2a755749c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 047/237] fix: I sections cannot be created with the name of
 the steel grade

---
 metku/sections/steel/ISection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 71e9709..88a979a 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -44,6 +44,9 @@ class ISection(SteelSection):
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, [2 * B * tf, Ashear])
 
+        # 'fy' can also be the name of the steel grade
+        fy = self.fy
+
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
             if tf <= 40:
-- 
2.43.0


From e77ad5d35aa8eac40d1fbc0bbf1124b64b9751a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 048/237] fix: dimensions of IPE 750 in profile data

---
 metku/sections/steel/profile_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/profile_data.py b/metku/sections/steel/profile_data.py
index a4c3ca4..bbbb952 100644
--- a/metku/sections/steel/profile_data.py
+++ b/metku/sections/steel/profile_data.py
@@ -20,7 +20,7 @@ ISECTIONS = {"IPE 80": {"h": 80.0, "b": 46.0, "t_w": 3.8, "t_f": 5.2, "r": 5.0},
            "IPE 500": {"h": 500.0, "b": 200.0, "t_w": 10.2, "t_f": 16.0, "r": 21.0},
            "IPE 550": {"h": 550.0, "b": 210.0, "t_w": 11.1, "t_f": 17.2, "r": 24.0},
            "IPE 600": {"h": 600.0, "b": 220.0, "t_w": 12.0, "t_f": 19.0, "r": 24.0},
-           "IPE 750": {"h": 134.0, "b": 750.0, "t_w": 264.0, "t_f": 12.0, "r": 15.5},
+           "IPE 750": {"h": 750.0, "b": 264.0, "t_w": 12.0, "t_f": 15.5, "r": 17.0},
            "HE 100 AA": {"h": 91.0, "b": 100.0, "t_w": 4.2, "t_f": 5.5, "r": 12.0},
            "HE 100 A": {"h": 96.0, "b": 100.0, "t_w": 5.0, "t_f": 8.0, "r": 12.0},
            "HE 100 B": {"h": 100.0, "b": 100.0, "t_w": 6.0, "t_f": 10.0, "r": 12.0},
-- 
2.43.0


From 083d4a304be9cf985f1a3d1c715d76c3b3bdb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 049/237] fix: both flanges of a welded I section are
 classified in pure compression

---
 metku/sections/steel/wi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 0c2e822..c37abd0 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -511,6 +511,12 @@ class WISection(SteelSection):
 
         self.flanges_class[0] = cFlange
 
+        # In pure compression, the bottom flange is compressed as well
+        if self.Ned < 0.0 and abs(self.Med[0]) < 1e-4:
+            rb = self.cf_bottom / self.tb
+            self.flanges_class[1] = en1993_1_1.outstand_part_in_compression(rb, self.eps)
+            cFlange = max(self.flanges_class)
+
         if verb:
             print("Flange classification (outstand element):")
             print("cf = {0:4.2f}, tf = {1:4.2f}".format(self.cf_top, self.tt))
-- 
2.43.0


From 4c0b97d161a4d072b1b39967f2af8f2d194a8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 050/237] fix: shear area of welded sections parallel to the
 flanges

---
 metku/sections/steel/wi.py | 3 ++-
 metku/sections/steel/wq.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index c37abd0..54394d7 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -130,7 +130,8 @@ class WISection(SteelSection):
         elif name == "Wpl":
             return self.plastic_section_modulus()
         elif name == "Ashear":
-            return [0, self.shear_area()]
+            # EN 1993-1-1, 6.2.6(3): welded sections
+            return [self.area() - self.hw * self.tw, self.shear_area()]
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index a583a90..6277995 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -46,7 +46,8 @@ class WQSection(SteelSection):
         
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear=1.0)
 
-        self.Ashear = [0.0, self.shear_area()]
+        # EN 1993-1-1, 6.2.6(3): welded sections
+        self.Ashear = [self.A - 2 * self.hw * self.tw, self.shear_area()]
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """        
         self.imp_factor = [en1993_1_1.buckling_curve["b"],
-- 
2.43.0


From a1e9982c5c96514af0e697b6bf7bf2d9765fff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 051/237] fix: shear buckling resistance when axial force
 exceeds the resistance of flanges

---
 metku/sections/steel/wi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 54394d7..f669b5f 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -909,7 +909,11 @@ class WISection(SteelSection):
             else:
                 rN = 0
 
-            rM = abs(self.Med[0]) / ((1 - rN) * self.MfRd)
+            if rN < 1.0:
+                rM = abs(self.Med[0]) / ((1 - rN) * self.MfRd)
+            else:
+                # Flanges are fully utilized by the axial force
+                rM = 1.0
 
             if rM < 1.0:
                 if self.NtopRd <= self.NbottomRd:
-- 
2.43.0


From ba4a65b2a53acb3b6ab5606ecd278720167f0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 052/237] fix: beam-column utilization of a previous check
 remains without bending moment

---
 metku/structures/steel/steel_member.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index bd62076..6f36eb1 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -678,6 +678,8 @@ class SteelMember:
         if abs(MyEd) < 1e-6:
             # If there is no bending moment, there is no need to
             # continue
+            self.stability['bc_y'] = 0.0
+            self.stability['bc_z'] = 0.0
             return [0, 0]
 
         # find the largest compression force in the member
-- 
2.43.0


From 07c0c969992a3470fbc3a41ca93c72d02c0948e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 053/237] fix: reduction factors of carbon and stainless steel
 between 100 and 200 C, and of bolts above 1000 C

---
 metku/eurocodes/en1993/en1993_1_2.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..6d564ef 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -109,8 +109,19 @@ def reduce_property(t,prop,steel='carbon'):
         of property 'prop'
     """
     rf = 1.0
+    # Temperatures for which the property is tabulated
+    if steel == '1.4301':
+        temps = np.array(list(REDUCTION_FACTORS_14301))
+    elif steel == 'bolts':
+        temps = np.array(list(REDUCTION_FACTORS_BOLTS))
+    else:
+        temps = np.array(list(REDUCTION_FACTORS_CS))
+
+    # The last tabulated value is used for higher temperatures
+    t = min(t, np.max(temps))
+
     # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
+    if any(temps == t):
         if steel == 'carbon':
             rf = REDUCTION_FACTORS_CS[t][prop]
         elif steel =='1.4301':
@@ -126,8 +137,8 @@ def reduce_property(t,prop,steel='carbon'):
         """ Find the largest smaller and smallest larger
             temperatures and the corresponding reduction factors
         """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
+        t_smaller = np.max(temps[temps < t])
+        t_larger = np.min(temps[temps > t])
         
         if steel == 'carbon':
             p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-- 
2.43.0


From aa66bbcc673657fcffcc8aa7f85c9397c4a60cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 054/237] fix: reduction factor k2% of stainless steel 1.4301
 above 900 C

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 6d564ef..42a2886 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From 082c519c01321c2b00772271c64e810b431805fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 055/237] fix: steel temperature under a user-defined fire

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 42a2886..8e2efce 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -371,6 +371,9 @@ def steel_temp(ksh,AmV,tmax,gas_temp=standard_fire,dt=5,Tsteel_ini=20):
         aconv = 25
     elif gas_temp == hydrocarbon_fire:
         aconv = 50
+    else:
+        # EN 1991-1-2, 3.3.1.1
+        aconv = 35
     
     while t < tmax:
         """ Assume that gas_temp is a function that takes
@@ -405,6 +408,9 @@ def stainless_steel_temp(ksh,AmV,tmax,gas_temp=standard_fire,dt=5,Tsteel_ini=20)
         aconv = 25
     elif gas_temp == hydrocarbon_fire:
         aconv = 50
+    else:
+        # EN 1991-1-2, 3.3.1.1
+        aconv = 35
     
     while t < tmax:
         """ Assume that gas_temp is a function that takes
-- 
2.43.0


From 271b54f9173dd77650a37b4bc40df63b30134399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 056/237] fix: stress of carbon steel at 1200 C

---
 metku/eurocodes/en1993/en1993_1_2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 8e2efce..9ca1a7c 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -230,6 +230,10 @@ def stress(strain,t,Ea,fya,hardening=False):
     fp_t = fpT(t,fya)
     Ea_t = EaT(t,Ea)
     
+    if Ea_t <= 0.0:
+        # Steel has no strength left
+        return 0.0
+
     eps_pt = fp_t/Ea_t
     
     if strain <= eps_pt:
-- 
2.43.0


From 732eed21a3fb96c411a9f25dc5e8fcebf943c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 057/237] fix: stress of stainless steel at 1200 C

---
 metku/eurocodes/en1993/en1993_1_2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 9ca1a7c..23cfaba 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -274,7 +274,10 @@ def stress_stainless(strain,t,Ea,fya,fua,steel="1.4301"):
     
     Ea_t = EaT(t,Ea,steel)
     
-    
+    if Ea_t <= 0.0:
+        # Steel has no strength left
+        return 0.0
+
     eps_ct = f02p_t/Ea_t + 0.002
     kE_ct = reduce_property(t,'kEct',steel)
     Ect_t = kE_ct*Ea
-- 
2.43.0


From fd5ec02701802a9771e29728ff869bb8fb840967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 058/237] fix: Young's modulus of stainless steels is not in
 MPa

---
 metku/materials/steel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/materials/steel.py b/metku/materials/steel.py
index 6f9cce1..0825d27 100644
--- a/metku/materials/steel.py
+++ b/metku/materials/steel.py
@@ -56,10 +56,10 @@ class StainlessSteel:
     Default stainless steel materials
     Custom steel material can be created using SteelMaterial -class
     """
-    EN14301_coldstrip = SteelMaterial(fy=230, fu=540, E=200)
-    EN14301_hotsrip = SteelMaterial(fy=210, fu=520, E=200)
-    EN14301_hotplate = SteelMaterial(fy=210, fu=520, E=200)
-    EN14301_sections = SteelMaterial(fy=190, fu=500, E=200)
+    EN14301_coldstrip = SteelMaterial(fy=230, fu=540, E=200e3)
+    EN14301_hotsrip = SteelMaterial(fy=210, fu=520, E=200e3)
+    EN14301_hotplate = SteelMaterial(fy=210, fu=520, E=200e3)
+    EN14301_sections = SteelMaterial(fy=190, fu=500, E=200e3)
 
 if __name__ == '__main__':
     s235 = Steel.S235
-- 
2.43.0


From 5bff97102ebd38d29638116e729a2bd0d0f031a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 059/237] fix: reduction factor omega for 1 < beta < 2
 interpolates between omega_1 and omega_2 (EN 1993-1-8, Table 6.3)

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..2623947 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From 16b6a26eb4036c9e427b23c187ec56ec62d04fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 060/237] fix: bolt_shear_resistance reduces alpha_v when the
 threads, not the shank, are in the shear plane

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..b66c5d2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2119,12 +2119,12 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
     """
     
     if threads_in_plane:
-        av = 0.6
-    else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
             av = 0.5
         elif bolt_class in {4.6,5.6,8.8}:
             av = 0.6
+    else:
+        av = 0.6
     
     FvRd = av*fub*A/gammaM2
     
-- 
2.43.0


From 4d59313bbc638338ef80e87ada3307c80eaf2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 061/237] fix: bolt_bearing_resistance gives the design value
 of EN 1993-1-8, Table 3.4, as Bolt.bearing_resistance does

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index b66c5d2..19e8413 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2157,14 +2157,14 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
         ad = p1/3/d0 - 0.25    
 
     if pos_perp == "edge":
-        k1 = min(2.8*e2/d0-1.7,2.5)
+        k1 = min(2.8*e2/d0-1.7,1.4*p2/d0-1.7,2.5)
     else:
         k1 = min(1.4*p2/d0-1.7,2.5)
         
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From 1cdfe25c87abe8de46ea75f25aff944ab46bd44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 062/237] fix: effective length of a bolt row group can be
 asked before its resistance

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 19e8413..0418210 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1812,7 +1812,7 @@ class TStubGroup:
             
         return FRd
     
-    def FT_Rd(self,verb):
+    def FT_Rd(self,verb=False):
         """ Design tension resistance """
         
         FT_Rd = np.array([0.0,0.0,0.0])
-- 
2.43.0


From a3e75c25cc9698eaa6e33a889e499402449455ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 063/237] fix: emin of an end plate wider than the column
 flange is the distance to the flange edge (EN 1993-1-8, Fig. 6.8)

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 0418210..6fd3054 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1561,7 +1561,7 @@ class TStubEndPlate(TStub):
         if self.bolts.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
             emin = self.bolts.ex
         else:
-            emin = self.bolts.end_plate_e
+            emin = self.bolts.emin_plate
             
         return emin
     
-- 
2.43.0


From ef15671bc94c2ee742960e2a0531d89ba7d1938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 064/237] fix: circular patterns of a bolt row group in the end
 plate use the row spacing of that group

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 6fd3054..fd693e4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2022,12 +2022,12 @@ class TStubGroupEndPlate(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['plate']
             
-            if position == END_ROW:
+            if position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE or position == OTHER_END_ROW:
                 if i == 0:
                     row.Tstub_end_plate.p = self.group.p[i]
                 else:
                     row.Tstub_end_plate.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position == OTHER_INNER_ROW:
                 row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_end_plate.leff_cp_as_group(position)
-- 
2.43.0


From bd9d83b65a1126fcd8f910526178e11806b46353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 065/237] fix: row next to a stiffener uses the row spacing of
 the group in which its effective length is asked

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index fd693e4..692e138 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1915,7 +1915,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
@@ -1938,7 +1938,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
-- 
2.43.0


From 01e62e4e1e64c3538550e6e53244ba8fd38a57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 066/237] fix: added shear resistance of a stiffened web panel
 is a force (EN 1993-1-8, Eq. (6.8))

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..bbc39a5 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -401,7 +401,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From d58202d27c07c4826ec6dbb478bc75b2aa7e6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 067/237] fix: end plate joint with column web stiffeners reads
 the thickness, width and height of the stiffener plates

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 4 ++--
 metku/structures/steel/end_plate_joint.py             | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 2623947..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 692e138..e55be0d 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -571,13 +571,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bbc39a5..e27f0a1 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -341,7 +341,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
-- 
2.43.0


From 60c2f39fa166bcfeb0982e55c185b58cd34e0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 068/237] fix: initial stiffness of an end plate joint with one
 tension row

---
 metku/structures/steel/end_plate_joint.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index e27f0a1..d67e335 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -686,13 +686,7 @@ class EndPlateJoint:
         
         E = self.col.material.E
         
-        if self.tension_rows == 1:
-            """ Only one tension row: moment arm is the distance
-                between bottom 
-            """
-            z = self.moment_arm()
-        else:
-            z, k_eq = self.zeq_and_keq(verb)
+        z, k_eq = self.zeq_and_keq(verb)
         
         kcomp = self.k_comp(z)
         
-- 
2.43.0


From b44b9f11d1eed931fc94fc617650084732ba20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 069/237] fix: equivalent stiffness of the tension rows leaves
 shear rows out

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index d67e335..9a1c81c 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -617,8 +617,8 @@ class EndPlateJoint:
 
     def keq(self,verb=False):
         """ Equivalent stiffness of the tension rows """
-        keff = np.array([row.keff() for row in self.bolt_rows])
-        hr = self.hr()
+        keff = np.array([row.keff() for row in self.bolt_rows if row.type != SHEAR_ROW])
+        hr = self.hr('non-shear')
         
     
         return sum(keff*hr)/self.zeq(verb)
-- 
2.43.0


From 2e94c16718ee74c6b5689c33c29756bca2a0a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 070/237] fix: bending resistance of an end plate joint leaves
 shear rows out

---
 metku/structures/steel/end_plate_joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 9a1c81c..c025ee7 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -595,7 +595,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
-- 
2.43.0


From 1f1f19b8db1bab514663d9a8528c3fdb70115861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 071/237] fix: stiffener next to a bolt row: m2 is read from
 the geometry, not stored in the T-stub

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 --
 metku/structures/steel/end_plate_joint.py       | 2 --
 2 files changed, 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index e55be0d..0413fdf 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -792,8 +792,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index c025ee7..58a3b01 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -369,9 +369,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
-- 
2.43.0


From 1bfdbcfa809dd3ebf803863e6cf112c7deb5578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 072/237] fix: shear resistance of an end plate joint is
 limited by bearing of the plate and the column flange

---
 metku/structures/steel/end_plate_joint.py | 56 ++++++++++-------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 58a3b01..239df59 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -731,43 +731,35 @@ class EndPlateJoint:
             print("-- SHEAR RESISTANCE --")
         
         for i, row in enumerate(self.bolt_rows):
+            # Bearing resistance of end plate
+            e = [row.ex,self.ebolts]
+            p = [0,self.p]
+            if i == 0:
+                lpos = 'edge'
+            else:
+                lpos = 'inner'
+                p[0] = abs(self.bolt_rows[i-1].z - row.z)
+                
+            VbRd_plate = row.bolt.bearing_resistance(self.end_plate.fu,
+                                                     self.tp,
+                                                     e,p,pos_perp="edge",pos_load=lpos,verb=False)
+            # Bearing resistance of column flange
+            e = [1e5,row.col_flange_e]
+                
+            VbRd_col = row.bolt.bearing_resistance(self.col.fu,
+                                                     self.col.tf,
+                                                     e,p,pos_perp="edge",pos_load=lpos,verb=False)
+            
+            # Bearing resistance
+            VbRd = min(VbRd_plate,VbRd_col)
+            
             if row.FtRd > 0.0:
                 """ Rows in tension still have at least 28.6% of their
                     shear resistance left.
                 """
-                
-                # Bearing resistance of end plate
-                e = [0,self.ebolts]
-                p = [0,self.p]
-                if row.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-                    e[0] = self.etop
-                    lpos = 'edge'
-                else:
-                    lpos = 'inner'
-                    p[0] = abs(self.bolt_rows[i-1].z - row.z)
-                    
-                VbRd_plate = row.bolt.bearing_resistance(self.end_plate.fu,
-                                                         self.tp,
-                                                         e,p,pos_perp="edge",pos_load=lpos,verb=False)
-                # Bearing resistance of column flange
-                if row.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-                    e[0] = 1e5
-                    lpos = 'edge'
-                else:
-                    lpos = 'inner'
-                    p[0] = abs(self.bolt_rows[i-1].z - row.z)
-                    
-                VbRd_col = row.bolt.bearing_resistance(self.col.fu,
-                                                         self.tp,
-                                                         e,p,pos_perp="edge",pos_load=lpos,verb=False)
-                
-                # Bearing resistance
-                VbRd = min(VbRd_plate,VbRd_col)
-                
-                
-                VRd += 2*0.286*row.bolt.shear_resistance()
+                VRd += 2*min(0.286*row.bolt.shear_resistance(),VbRd)
             elif abs(row.FtRd) < 1e-3 or row.type == SHEAR_ROW:
-                VRd += 2*row.bolt.shear_resistance()
+                VRd += 2*min(row.bolt.shear_resistance(),VbRd)
         
         if verb:
             print("VjRd = {0:4.2f} kN".format(VRd*1e-3))
-- 
2.43.0


From 70ae9f81dad94db35b5406fee6a7071674ffae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 073/237] fix: tension brace of a K gap joint is the one that
 is not in compression

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..72cf03a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
-- 
2.43.0


From d60e1d55bc1a793bdce500d40ea12a2af19e4e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 074/237] fix: K gap joint returns the utilization ratios of
 the braces and the chord

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 72cf03a..8dc337e 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -730,7 +730,7 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        res = np.append(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
 
         return res
 
-- 
2.43.0


From 8242b4bda234b61d0299362bb9087fc2cdc45838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 075/237] fix: chord face plate of a K gap joint reads the
 brace heights from the brace profiles

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 8dc337e..d93110f 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -502,8 +502,8 @@ class RHSKGapJoint(RHSJoint):
 
         """
         
-        lp_min = 1.5*(self.braces[0].h/np.sin(np.radians(self.angles[0])) + self.gap + 
-                                              self.braces[1].h/np.sin(np.radians(self.angles[1])))
+        lp_min = 1.5*(self.h[0]/np.sin(np.radians(self.angles[0])) + self.gap + 
+                                              self.h[1]/np.sin(np.radians(self.angles[1])))
         
         lp = max(lp,lp_min)
         
-- 
2.43.0


From 6c2e60adb101856f56d9ea3fdbfea008f0cebcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 076/237] fix: Y joint resistances are multiplied by the
 strength reduction factor and by kn (EN 1993-1-8, Table 7.11)

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index d93110f..6598267 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From b69fc677b81ef5efb2ee0e0d3bbc3813bb9bc171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 077/237] fix: flexural buckling factor of the chord side wall
 is at most 1

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6598267..47e279a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -812,7 +812,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -1017,7 +1017,7 @@ class RHSXJoint(RHSYJoint):
             alpha = self.chord.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
-- 
2.43.0


From 119f99319d710531360abfb180cf2fd9d22ec8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 078/237] fix: Y joint knows that its brace is in compression

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 47e279a..219c44b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -765,7 +765,11 @@ class RHSYJoint(RHSJoint):
             self.brace = brace
         self.angle = angle
         
-        self._N1 = self.brace.NEd
+        # N1 < 0 for compression
+        if self.brace.NcEd < 0.0:
+            self._N1 = self.brace.NcEd
+        else:
+            self._N1 = self.brace.NEd
         
     @property
     def N1(self):
-- 
2.43.0


From 310586963466a5a71133b2df7aa35a68a79d65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 079/237] fix: X joint reads chord and brace properties from
 the profiles of the members

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 219c44b..67a9ee4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1018,7 +1018,7 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
             chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
@@ -1039,14 +1039,13 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.fy0*self.chord.profile.Ashear[1]/np.sqrt(3)/np.sin(np.radians(self.angle))/gammaM5
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
             r = self.strength_reduction()
             NRd = min(NRd,r*Nshear)
         
-        NRd = NRd / gammaM5
         return NRd
         
     def info(self):
@@ -1056,14 +1055,14 @@ class RHSXJoint(RHSYJoint):
         
         RHSJoint.info(self)
         
-        print("  Brace: {0:s}".format(self.brace.__repr__()))
-        if self.brace.Ned < 0:
+        print("  Brace: {0:s}".format(self.brace.profile.__repr__()))
+        if self.N1 < 0:
             Nsense = "compression"
-        elif self.brace.Ned > 0:
+        elif self.N1 > 0:
             Nsense = "tension"
         else:
             Nsense = "no axial force"
-        print("  NEd: {0:4.2f} kN ({1:s})".format(self.brace.Ned*1e-3,Nsense))
+        print("  NEd: {0:4.2f} kN ({1:s})".format(self.N1*1e-3,Nsense))
         print("    Angle to chord: {0:4.2f} deg".format(self.angle))
         
         beta = self.beta()
-- 
2.43.0


From cc0b6c6cefe99273302e05c95788df37a4bb6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 080/237] fix: Y joint with beta > 0.85 interpolates from the
 chord face failure load at beta = 0.85

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 67a9ee4..f9ab141 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -825,9 +825,11 @@ class RHSYJoint(RHSJoint):
         
         return fb
             
-    def chord_face_failure(self,verb=False):
+    def chord_face_failure(self,verb=False,beta=None):
                         
         b = self.beta()
+        if beta is not None:
+            b = beta
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
@@ -987,7 +989,7 @@ class RHSYJoint(RHSJoint):
             NjRd = self.chord_face_failure()
             
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(beta=0.85)
             N_csw_Rd = self.chord_web_buckling()
             N_bf_Rd = self.brace_failure()
             
-- 
2.43.0


From 20290c08ff4b29cfca50717ba87c629cf7e24a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 081/237] fix: steel_data can be imported before the Eurocode
 modules

---
 metku/materials/steel_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/materials/steel_data.py b/metku/materials/steel_data.py
index 8cb7b31..8261c6b 100644
--- a/metku/materials/steel_data.py
+++ b/metku/materials/steel_data.py
@@ -11,7 +11,6 @@ Created on Wed Aug  7 09:23:08 2019
 """
 
 from math import sqrt
-import metku.eurocodes.en1993.en1993_1_2 as en1993_1_2
 
 steels = {"S235": {"fy": 235.0, "fu": 360.0, "E": 210000.0, "v": 0.3, "rho": 7850e-9},
        "S275": {"fy": 275.0, "fu": 430.0, "E": 210000.0, "v": 0.3, "rho": 7850e-9},
@@ -117,4 +116,7 @@ class StainlessSteel:
 
 
 s = Steel()
-s.fy
\ No newline at end of file
+s.fy
+
+# Imported last, because the modules of the Eurocode package import this module
+import metku.eurocodes.en1993.en1993_1_2 as en1993_1_2
-- 
2.43.0


From dd12bf1ca46c441c6f34a769b171a7d8a058527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 082/237] fix: stainless steel eps refers to 210 GPa as in EN
 1993-1-4

---
 metku/materials/steel_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/materials/steel_data.py b/metku/materials/steel_data.py
index 8261c6b..cc39273 100644
--- a/metku/materials/steel_data.py
+++ b/metku/materials/steel_data.py
@@ -112,7 +112,7 @@ class StainlessSteel:
         return f"{self.name}"
     
     def eps(self):
-        return sqrt(235.0/self.fy*self.E/200000.0)
+        return sqrt(235.0/self.fy*self.E/210000.0)
 
 
 s = Steel()
-- 
2.43.0


From 7598e29bdf860c7128a391c15e3a7533b8045cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 083/237] fix: axial force in the gap of a K joint with the
 chord in tension follows from equilibrium

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index f9ab141..b55943f 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -317,7 +317,7 @@ class RHSKGapJoint(RHSJoint):
         if self.braces[0].NcEd < 0.0:
             return abs(self.braces[0].NcEd)
         else:
-            return self.braces[1].NEd
+            return abs(self.braces[1].NEd)
         
     @property
     def angle1(self):
@@ -359,7 +359,7 @@ class RHSKGapJoint(RHSJoint):
             N0gap = self.N0+self.N2*np.cos(np.radians(self.angle2))
         else: 
             # Chord in tension            
-            N0gap = self.N0+self.N1*np.cos(np.radians(self.angle1))
+            N0gap = self.N0-self.N1*np.cos(np.radians(self.angle1))
     
         return N0gap
     
-- 
2.43.0


From 1e83b508e853ff335673366367f9ca5625adfb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 084/237] fix: most severe characteristic combination is found
 with the factors psi_0 it consists of

---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From 3f68fd6bf6c13d80e413ac0c15e672b3c961794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 085/237] fix: pressure coefficients of monopitch roofs between
 5 and 15 degrees follow Table 7.3a

---
 metku/eurocodes/en1991/en1991_1_4.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..5f021cd 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,16 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
+                cneg10 = interpolate([5,15],[-1.7,-0.9],angle)
+                cneg1 = interpolate([5,15],[-2.5,-2.0],angle)
+                cpos = interpolate([5,15],[0.0,0.2],angle)
                 self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cneg10 = interpolate([5,15],[-1.2,-0.8],angle)
+                cneg1 = interpolate([5,15],[-2.0,-1.5],angle)
+                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
+                cneg10 = interpolate([5,15],[-0.6,-0.3],angle)
+                cneg1 = interpolate([5,15],[-1.2,-0.3],angle)
+                self.H = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From 38eee22f0c262d4ec932cc480b4fa43be278388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 086/237] fix: apply the scaling of a variable also when it
 targets a list of properties

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..a3477f6 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif isinstance(self, (IndexVariable, BinaryVariable)):
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -453,7 +455,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From 10e678b4fadfa17a55e65cee4b8676546764ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 087/237] fix: compound the scaling of a variable that is
 scaled repeatedly

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index a3477f6..b4eea5f 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -142,7 +142,7 @@ class Variable:
             'scaling_factor'
         """
 
-        self.scaling = scaling_factor
+        self.scaling *= scaling_factor
         self.lb = self.lb / scaling_factor
         self.ub = self.ub / scaling_factor
 
-- 
2.43.0


From 5fb5d18bec2f38ccf5365b10ffbef556e20d4a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 088/237] fix: keep the value of a locked index variable and
 provide its index

---
 metku/optimization/variables.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index b4eea5f..96c5869 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -333,13 +333,13 @@ class IndexVariable(IntegerVariable):
                 " index or a value from the given list!\n"
                 f"Values: {self.values}")
 
-        self.value = new_value
+        if not self.locked:
+            self.value = new_value
 
-    # @property
-    # def idx(self):
-    #     if self.value in self.values:
-    #         return self.values.index(self.value)
-    #     return self.value
+    @property
+    def idx(self):
+        """ Index of the current value in the list 'values' """
+        return self.value
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From 1f0597aa8c5ed82717eff23d5fc672aa65064ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 089/237] fix: pass the arguments of CrossSectionVariable by
 name

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 96c5869..4feefa6 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -422,7 +422,7 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target=target, profiles=profiles, value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From f597c1fc12e3123155ae59167350990743aa9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 090/237] fix: numerical gradients work with current numpy

---
 metku/optimization/opt_functions.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..dab0c14 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
@@ -194,9 +194,7 @@ def Linearize(fun, x, grad=None):
     b = fun(x)
 
     if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From 3cabbcb92924d0f4d43fc264077f6478010dbbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 091/237] fix: the objective function substitutes the free
 variables before structural analysis

---
 metku/optimization/objective.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..ad62e8f 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,7 +39,11 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
+        # The variables are substituted first, because substitution
+        # invalidates the structural analysis
+        self.problem.substitute_variables(x)
+
+        if self.fea_required and not self.problem.fea_done.get("ALL", False):
             self.problem.fea()
 
         X = [val for val in x]
@@ -65,8 +69,6 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
-
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
         elif self.obj_type == ObjectiveTypeEnum.MAX:
-- 
2.43.0


From ad6297e7667fc5d2e42b6ec61c70573f3d975f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 092/237] fix: the numerical gradient of a constraint is taken
 with respect to the free variables

---
 metku/optimization/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..495e90d 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -225,7 +225,7 @@ class NonLinearConstraint(Constraint):
         
         if self.grad is None:
             # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            df = opt_funs.NumGrad(self,x)
         else:
             df = self.grad(x)
         
-- 
2.43.0


From 47ef824c4768dab179a73d2113420d687dcb3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 093/237] fix: linearize picks the right coefficients of linear
 constraints when variables are locked

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..2e44970 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -406,7 +406,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[self.all_vars.index(var)]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From 534b6471d5488c18ab7090e552ed38be7ce4617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 094/237] fix: linearize does not use structural analyses of
 other variable values

---
 metku/optimization/structopt.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 2e44970..f52e579 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -380,6 +380,7 @@ class OptimizationProblem:
                 if var.idx + h > var.ub:
                     h = -1
                 var.substitute(var.idx + h)
+                self.reset_fea()
             else:
                 x[i] = var.value
                 """ Step length """
@@ -387,6 +388,7 @@ class OptimizationProblem:
                 if prev_val + h > var.ub:
                     h *= -1
                 var.substitute(prev_val + h)
+                self.reset_fea()
                 
             """ Get variable values """
             xh = [var.value for var in self.vars]
@@ -416,6 +418,7 @@ class OptimizationProblem:
                 
             """ Substitute the original value x[i] to current variable """
             var.substitute(prev_val)            
+            self.reset_fea()
             
 
         #B = A @ x.T - b
@@ -558,6 +561,11 @@ class OptimizationProblem:
         self.fea_done[load_id] = True
         self.num_fem_analyses += 1
 
+    def reset_fea(self):
+        """ Marks all structural analyses as not done """
+        for load_id in self.fea_done.keys():
+            self.fea_done[load_id] = False
+
     def __call__(self, x=None, prec=2, ncons=5):
         """ Call method evaluates the objective function and all constraints
             at x and returns their values
@@ -735,8 +743,7 @@ class OptimizationProblem:
 
         # if np.any(self.X != xvals):
         self.X = xvals.copy()
-        for load_id in self.fea_done.keys():
-            self.fea_done[load_id] = False
+        self.reset_fea()
         for x, var in zip(xvals, self.vars):
             var.substitute(x)
         #else:
-- 
2.43.0


From 132d2d71b7a7b524fab3c2b0b90c2985de4abd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 095/237] fix: eval_eq_con and eval_ineq_con return the
 constraint values

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f52e579..10f6c92 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -636,6 +636,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -649,6 +651,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
-- 
2.43.0


From 5cefbc68a76d3e83a690b66266e8f1b877792806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 096/237] fix: count the nonlinear constraints instead of the
 variables

---
 metku/optimization/structopt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 10f6c92..1de79a4 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -660,12 +660,14 @@ class OptimizationProblem:
     def nlincons(self):
         """ Number of nonlinear inequality constraints """
 
-        return len(self.vars)
+        return len([con for con in self.cons
+                    if isinstance(con, NonLinearConstraint) and con.type != '='])
 
     def nlineqcons(self):
         """ Number of nonlinear equality constraints """
 
-        return len(self.vars)
+        return len([con for con in self.cons
+                    if isinstance(con, NonLinearConstraint) and con.type == '='])
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-- 
2.43.0


From c26a4a8d5f3998ac3a33bfe5a0887e24996910b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 097/237] fix: add_variable(s) and add_constraint(s) add to the
 problem

---
 metku/optimization/structopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 1de79a4..631d422 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -671,21 +671,21 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From ef277d4ea8ba67b85ef50eec57fd1c4bf232a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 098/237] fix: constraints and objective given to the
 constructor belong to the problem

---
 metku/optimization/structopt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 631d422..3dbd2fe 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -86,11 +86,13 @@ class OptimizationProblem:
             self.vars = variables
         else:
             self.__vars = []
+        self.cons = []
         if constraints:
-            self.cons = constraints
-        else:
-            self.cons = []
+            for con in constraints:
+                self.add(con)
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction):
+            objective.problem = self
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
-- 
2.43.0


From 61f01c8bd7f0fc51326b9deff31afb4336b36a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 099/237] fix: exact penalty function penalises equality and >=
 constraints

---
 metku/optimization/structopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 3dbd2fe..4321eed 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -891,9 +891,9 @@ class OptimizationProblem:
                 val = con(x)
                 if con.type == '=':
                     """ For equality constraints, the penalty term
-                        is simply the value of the constraint squared
+                        is simply the absolute value of the constraint
                     """
-                    F += abs(val)
+                    F += R*abs(val)
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is max(0,val)
@@ -901,9 +901,9 @@ class OptimizationProblem:
                     F += R*max(0,val)
                 elif con.type == '>':
                     """ For geq type constraints, the penalty term is
-                         min(0,val)
+                         -min(0,val)
                     """
-                    F += R*min(0,val)
+                    F -= R*min(0,val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From ff2cd093d3d0559cd3893c489cffb3fd206073ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 100/237] fix: exterior penalty function weights all the
 constraints similarly

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 4321eed..75fcd2f 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -933,7 +933,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += val**p
+                    F += R*abs(val)**p
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is square of max(0,val)
@@ -943,7 +943,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                         square of min(0,val)
                     """
-                    F += R*min(0,val)**2
+                    F += R*abs(min(0,val))**p
             
             
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From 3584205a6927361ec93ba17f09d22e8ae3d57424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 101/237] fix: update the multiplier of the upper bound from
 its own value

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 75fcd2f..9101f17 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1088,7 +1088,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From d3a0ba5dedadbbb803a5c4d0f5a285892404e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 102/237] fix: index variable of a variable group gets a scalar
 value

---
 metku/optimization/variable_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variable_group.py b/metku/optimization/variable_group.py
index 4a3f5ca..7561ddb 100644
--- a/metku/optimization/variable_group.py
+++ b/metku/optimization/variable_group.py
@@ -82,8 +82,9 @@ class VariableGroup:
                                            })
                     variables.append(var)
             case VariableTypeEnum.INDEX:
+                value = self.value[0] if isinstance(self.value, list) else self.value
                 var = IndexVariable(name=f"{self.name} {self.attribute}",
-                                    value=self.value,
+                                    value=value,
                                     values=self.values,
                                     target={
                                         'property': self.attribute,
-- 
2.43.0


From 537d9d9064f05b2f14f3ee80eaa295f493a51119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 103/237] fix: CONLIN and MMA approximations leave the original
 problem untouched

---
 metku/optimization/structopt.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 9101f17..de1de7e 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -441,6 +441,12 @@ class OptimizationProblem:
         # print("Linearization took: ", end - start, " s")
         return A, B, df, fx
     
+    def free_linear_constraint(self, con, x):
+        """ Linear constraint 'con' written for the free variables only """
+        a = [con.a[self.all_vars.index(var)] for var in self.vars]
+
+        return LinearConstraint(a, np.dot(a, x) - con(x), con.type, con.name)
+
     def conlin(self,x):
         """ Generates convex-linear approximation of the problem
             around point 'x'
@@ -468,11 +474,12 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(con)
+                Pconlin.add(self.free_linear_constraint(con, x))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                conlin_con.fea_required = False
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
                 
@@ -518,11 +525,12 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(con)
+                Pmma.add(self.free_linear_constraint(con, x))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                mma_con.fea_required = False
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
                 
-- 
2.43.0


From ec20a1c361f1ed7a36baccede5748283dce2c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 104/237] fix: SLP respects the type of the constraints

---
 metku/optimization/solvers/slp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..ce53418 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -89,11 +89,13 @@ class SLP(OptSolver):
         if self.include_beta:
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
-        for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+        for i, con in enumerate(self.problem.cons):
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            slack = beta if self.include_beta else 0
+            if con.type != '>':
+                solver.Add(lhs <= B[i] + slack)
+            if con.type in ('>', '='):
+                solver.Add(lhs >= B[i] - slack)
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From 34ca5f50565a6c24b98428faf138bb8fd6d5111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 105/237] fix: MISLP does not drop the >= constraints

---
 metku/optimization/solvers/mislp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..8d15e3f 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -110,6 +110,9 @@ class MISLP(OptSolver):
             if act_cons[i].type == '<':                
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) <= B[i] + beta)
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
-- 
2.43.0


From 5d5d4b9ea9edc8b9cba8b59d16e02f72203e7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 106/237] fix: MMA sub-problems keep the linear constraints of
 the problem and respect negative asymptotes

---
 metku/optimization/solvers/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..278c110 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
@@ -74,7 +74,7 @@ class MMAProblem(OptimizationProblem):
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
                 # Linear constraints are simply added
-                self.add(con)
+                self.add(P.free_linear_constraint(con, x))
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
-- 
2.43.0


From 8c59b00e649e40fa03aff91d8de8510b04fd4225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 107/237] fix: solvers start afresh, do not change the initial
 point and store their iterates

---
 metku/optimization/solvers/optsolver.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..16b653a 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -212,17 +212,22 @@ class OptSolver:
 
         # Assign problem
         self.problem = problem
+        # Forget the results of a previous solution
+        self.fvals = []
+        self.xvals = []
+        self.best_f = np.inf
+        self.best_x = None
         # If initial starting point is/isn't defined        
         if x0 is not None:
-            self.X = np.asarray(x0, dtype=float)
+            self.X = np.array(x0, dtype=float)
             problem.substitute_variables(x0)
         else:
             self.X = self.random_feasible_point()
             problem.substitute_variables(self.X)
 
         # Store initial point
-        self.xvals.append(np.array(x0))
-        self.fvals.append(problem.obj(x0))
+        self.xvals.append(self.X.copy())
+        self.fvals.append(problem.obj(self.X))
 
 
         if plot:
@@ -303,7 +308,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From b8ba88a65b624094b24ea94a451c5913b384549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 108/237] fix: LP solver takes locked variables into account

---
 metku/optimization/solvers/lp.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index ce9e3c6..4bd5061 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -47,6 +47,15 @@ class LP(OptSolver):
             from ortools.linear_solver import pywraplp
             lp = pywraplp.Solver.CreateSolver('GLOP')
                 
+        # Write the problem in terms of the free variables
+        free = [i for i, var in enumerate(problem.all_vars) if not var.locked]
+        c = np.asarray(problem.obj.c)[free]
+
+        def coefficients(con):
+            b = con.b - sum(con.a[i]*var.value for i, var in enumerate(problem.all_vars)
+                            if var.locked)
+            return con.a[free], b
+
         x = []
         for var in problem.vars:
             """
@@ -64,19 +73,20 @@ class LP(OptSolver):
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MINIMIZE
             else:
-                lp.Minimize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Minimize(lp.Sum(C * X for C, X in zip(c,x)))
         else:
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MAXIMIZE
             else:
-                lp.Maximize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Maximize(lp.Sum(C * X for C, X in zip(c,x)))
         
         if self.algo == "gurobi":
-            lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+            lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
             
         # Generate constraints
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                a, b = coefficients(con)
                 if self.algo == "gurobi":
                     if con.type == '<':
                         con_sense = grb.GRB.LESS_EQUAL
@@ -90,16 +100,16 @@ class LP(OptSolver):
                         con_sense = grb.GRB.EQUAL
                                 #lp.addConstr(grb.quicksum([con.a[j]*x[j] for j in range(nvars)]) = con.b[i])
                     
-                    lp.addLConstr(grb.LinExpr(con.a, x), con_sense, con.b)
+                    lp.addLConstr(grb.LinExpr(a, x), con_sense, b)
                 else:
-                    lhs = lp.Sum(A * X for A, X in zip(con.a,x))
+                    lhs = lp.Sum(A * X for A, X in zip(a,x))
             
                     if con.type == '<':
-                        lp.Add(lhs <= con.b)
+                        lp.Add(lhs <= b)
                     elif con.type == '>':
-                        lp.Add(lhs >= con.b)
+                        lp.Add(lhs >= b)
                     else:
-                        lp.Add(lhs == con.b)
+                        lp.Add(lhs == b)
         
         if self.algo == "gurobi":
             lp.update()                
-- 
2.43.0


From f1d309edd8fc94fc5dbf14229ffda9e80b4893e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 109/237] fix: LP solver reports feasibility also with ortools

---
 metku/optimization/solvers/lp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index 4bd5061..7cab67c 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -141,6 +141,7 @@ class LP(OptSolver):
             status = lp.Solve()
             
             X = []
+            self.feasible = status == lp.OPTIMAL
             if status == lp.OPTIMAL:
                 for v in lp.variables():
                     X.append(v.solution_value())    
-- 
2.43.0


From cf8ed54533dc7a29901a57fa678580da9b75552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 110/237] fix: LP solver reports an infeasible problem instead
 of failing

---
 metku/optimization/solvers/lp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index 7cab67c..8a2bd26 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -126,13 +126,14 @@ class LP(OptSolver):
                     
             if lp.Status == grb.GRB.OPTIMAL:
                 self.feasible = True
-            elif lp.Status == grb.GRB.INFEASIBLE:
+            else:
                 self.feasible = False
                     
             X = []
-            for v in lp.getVars():
-                #print('%s %g' % (v.varName, v.x))                    
-                X.append(v.x)
+            if self.feasible:
+                for v in lp.getVars():
+                    #print('%s %g' % (v.varName, v.x))                    
+                    X.append(v.x)
             
             # bounds = [x*self.move_limits for x in self.X]
             #
-- 
2.43.0


From 6f8c81fb14546499decccb99df658a88a56b3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 111/237] fix: MILP solver respects integer variables and
 reports infeasible problems

---
 metku/optimization/solvers/milp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/milp.py b/metku/optimization/solvers/milp.py
index 3876e4d..4c1bd60 100644
--- a/metku/optimization/solvers/milp.py
+++ b/metku/optimization/solvers/milp.py
@@ -48,6 +48,8 @@ class MILP(OptSolver):
             """
             if isinstance(var,sopt.BinaryVariable):
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.BINARY,name=var.name))
+            elif isinstance(var,sopt.IntegerVariable):
+                x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.INTEGER,name=var.name))
             else:
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.CONTINUOUS,name=var.name))
                 
@@ -92,13 +94,14 @@ class MILP(OptSolver):
                 
         if lp.Status == grb.GRB.OPTIMAL:
             self.feasible = True
-        elif lp.Status == grb.GRB.INFEASIBLE:
+        else:
             self.feasible = False
                 
         X = []
-        for v in lp.getVars():
-            #print('%s %g' % (v.varName, v.x))                    
-            X.append(v.x)
+        if self.feasible:
+            for v in lp.getVars():
+                #print('%s %g' % (v.varName, v.x))                    
+                X.append(v.x)
         
         # bounds = [x*self.move_limits for x in self.X]
         #
-- 
2.43.0


From 40a81eab13ce4fa2ec5b70ddfa2ec1206a796c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 112/237] fix: branch and bound accepts only feasible points in
 upper bounding

---
 metku/optimization/solvers/bnb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..cc7fea3 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -418,9 +418,12 @@ class BnB(OptSolver):
         f_new = None        
         for xi in N:
             
-            gxi = self.problem.eval_cons(xi)            
+            # Only points that satisfy the branching of the node: other values
+            # would be clipped to the variable bounds in the evaluation
+            if not all(var.lb <= x <= var.ub for x, var in zip(xi, self.problem.vars)):
+                continue
             
-            if all(gxi<=self.problem.con_tol):
+            if self.problem.feasible(xi):
                 #print("Upper bounding found feasible solution")
                 #print(self.problem.eval_cons(xi))
                 """ Feasible point found """
-- 
2.43.0


From 0d7ee0c2df93414c56a712ba189dfe93d7f7984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 113/237] fix: bounds tightening of branch and bound respects
 the type of the constraints

---
 metku/optimization/solvers/bnb.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index cc7fea3..4025f69 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -528,14 +528,24 @@ class BnB(OptSolver):
         xlb, xub = self.problem.var_bounds()
         
         """ Do bounds tightening for linear constraints """
+        rows = []
         for con in self.problem.cons:
             if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
+                # Write all constraints in the form a*x <= b
+                if con.type != '>':
+                    rows.append((con.a, con.b))
+                if con.type in ('>', '='):
+                    rows.append((-con.a, -con.b))
+
+        for a, b in rows:
+                ax_min = np.minimum(a*xub,a*xlb)
                 #axL = con.a*xlb
                 for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
+                    if abs(a[i]) > 1e-9:
+                        bnd = 1/a[i]*(b-(sum(ax_min)-ax_min[i]))
+                    else:
+                        continue
+                    if a[i] > 0:                        
                         """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
                         var.ub = min(var.ub,bnd)
                         
@@ -543,7 +553,7 @@ class BnB(OptSolver):
                             var.ub = np.floor(var.ub)
                         elif isinstance(var,DiscreteVariable):
                             var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
+                    elif a[i] < 0:
                         var.lb = max(var.lb,bnd)
                 
                         if isinstance(var,IntegerVariable):
-- 
2.43.0


From 7c3ca10f67e352308598bb0d521cf85c414d4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 114/237] fix: branch and bound fathoms nodes whose bounds
 tightening leaves no values

---
 metku/optimization/solvers/bnb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 4025f69..6e8ef32 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -552,14 +552,14 @@ class BnB(OptSolver):
                         if isinstance(var,IntegerVariable):
                             var.ub = np.floor(var.ub)
                         elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
+                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub], default=-np.inf)
                     elif a[i] < 0:
                         var.lb = max(var.lb,bnd)
                 
                         if isinstance(var,IntegerVariable):
                             var.lb = np.ceil(var.lb)
                         elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
+                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb], default=np.inf)
         
         xlb, xub = self.problem.var_bounds()
         #print(xlb,xub)
@@ -620,6 +620,10 @@ class BnB(OptSolver):
     def pre_process(self,node):
         """ Pre-processing of a node """
         self.feasibility_tightening()
+
+        if any(var.lb > var.ub for var in self.problem.vars):
+            return False
+
         self.optimality_tightening()
         
         feasible = True
-- 
2.43.0


From 022ce80219691b273ee89c7ee891b9bbf56d8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 115/237] fix: branch and bound evaluates nodes where all the
 variables are fixed

---
 metku/optimization/solvers/bnb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 6e8ef32..afba9dd 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -377,6 +377,15 @@ class BnB(OptSolver):
         for n in locked_nd:
             x0 = np.delete(x0,n)        
     
+        if not self.problem.vars:
+            # All variables are fixed in this node
+            feasible = self.problem.feasible([])
+            self.tree[node.identifier].data.lb = self.problem.obj([])
+            self.tree[node.identifier].data.xR = np.array([var.value for var in self.problem.all_vars])
+            for var in locked_vars:
+                var.unlock()
+            return feasible
+
         print('x0 = ',x0)
     
         if x0 is not None:
-- 
2.43.0


From 73f787c6b0de3401979088f2860dfb4518427309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 116/237] fix: bounds tightening of branch and bound does not
 take over the constraints of the problem

---
 metku/optimization/solvers/bnb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index afba9dd..1e024f5 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -16,7 +16,7 @@ Data structures:
 @author: kmela
 """
 
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 from treelib import Tree, Node
 
@@ -594,7 +594,7 @@ class BnB(OptSolver):
             
             for con in self.problem.cons:            
                 if isinstance(con,LinearConstraint):
-                    LPprob.add(con)
+                    LPprob.add(copy(con))
             
             
             solver = LP("gurobi")
-- 
2.43.0


From 73d48d3d117709b02a01bf6e36e3f76bf209e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:52 +0000
Subject: [PATCH 117/237] fix: DiscreteVariable.is_allowed_value uses the
 tolerance of discrete_violation

A relaxed solution between INT_TOL and DISC_TOL of an allowed value was
neither allowed nor violated, and branch and bound stopped in an error
when it had no variable to branch on.
---
 metku/optimization/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 4feefa6..b957191 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -377,10 +377,10 @@ class DiscreteVariable(Variable):
         """
 
         if self.lb <= x <= self.ub:
-            """ If x is within INT_TOL of any of the allowed values,
+            """ If x is within DISC_TOL of any of the allowed values,
                 it is deemed allowed
             """
-            if min([abs(val - x) for val in self.values]) < INT_TOL:
+            if min([abs(val - x) for val in self.values]) <= DISC_TOL:
                 return True
 
             """
-- 
2.43.0


From cb74ee7cb7e13bb4b45691ea3d374e23617d9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 118/237] fix: make_section makes SHS and CHS sections of the
 catalogue

---
 metku/sections/steel/catalogue.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/metku/sections/steel/catalogue.py b/metku/sections/steel/catalogue.py
index 51e988f..7a7bdd8 100644
--- a/metku/sections/steel/catalogue.py
+++ b/metku/sections/steel/catalogue.py
@@ -1325,6 +1325,22 @@ def make_rhs(key,material="S355"):
     
     return RHS(p[0],p[1],p[2],fy=material)    
 
+def make_shs(key,material="S355"):
+    """ Makes an SHS section out of the 'key' used """
+    from metku.sections.steel.RHS import SHS
+    
+    dims = shs_profiles[key]
+    
+    return SHS(dims['h'],dims['t'],fy=material)
+
+def make_chs(key,material="S355"):
+    """ Makes a CHS section out of the 'key' used """
+    from metku.sections.steel.CHS import CHS
+    
+    dims = chs_profiles[key]
+    
+    return CHS(dims['d'],dims['t'],fy=material)
+
 def make_section(key,material="S355"):
     """ Makes a steel section out of key """
     import re
@@ -1337,6 +1353,10 @@ def make_section(key,material="S355"):
         p = make_ipe(prof_name[1],material)
     elif prof_name[0] == "RHS":
         p = make_rhs(prof_name[1],material)
+    elif prof_name[0] == "SHS":
+        p = make_shs(key,material)
+    elif prof_name[0] == "CHS":
+        p = make_chs(key,material)
     elif prof_name[0] == "HE":
         if prof_name[2] == "A":
             p = make_hea(prof_name[1],material)
-- 
2.43.0


From 92175e56232b80bd494641dd1311a839365de951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 119/237] fix: profile list of a square hollow section is that
 of SHS profiles

---
 metku/raami/frame_member.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..1fb1050 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -48,10 +48,11 @@ def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
             prof_type = "HEA"
         elif isinstance(cross_section,HEB):
             prof_type = "HEB"
-        elif isinstance(cross_section,RHS):
-            prof_type = "RHS"
         elif isinstance(cross_section,SHS):
+            # SHS is a subclass of RHS
             prof_type = "SHS"
+        elif isinstance(cross_section,RHS):
+            prof_type = "RHS"
         elif isinstance(cross_section,CHS):
             prof_type = "CHS"
         else:
-- 
2.43.0


From 1a126e3cd054db48102528c3e27f025c921da939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 120/237] fix: get_max_forces returns the minimum and maximum
 over the load cases

The value with the larger absolute value was returned for both.
---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1fb1050..4c39413 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -512,7 +512,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif func(val, result_dict[key][force]) != result_dict[key][force]:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From de61d6b5664aa6d0070ee8da253dd73efe9f184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 121/237] fix: frame members do not share the list of hinges

add_hinge modified the default value of the constructor, i.e. the hinges of
all members.
---
 metku/raami/frame_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 4c39413..75ee8de 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -167,8 +167,8 @@ class FrameMember:
         self.calc_nodal_coordinates(nel)
         
         # Flags for stating whether or not the member ends are hinged.
-        
-        self.hinges = hinges
+        # Each member has its own list, because it is modified by add_hinge
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
-- 
2.43.0


From be3f836b7631edd225e905e96f1296d9c91ca6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 122/237] fix: member of a single element can be hinged at both
 ends

---
 metku/raami/frame_member.py      |  4 ++--
 metku/raami/raami_plane_truss.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 75ee8de..ea75998 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -629,7 +629,7 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1083,7 +1083,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]    
     
     def clear_fem(self):
         
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..81dc3a5 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1803,7 +1803,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
         elif model == "en1993":
             # First end node
             self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
@@ -1840,7 +1840,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
         elif model == "ecc_elements":
             if isinstance(self.joints[0],TubularYJoint):
                 N1 = self.joints[0].fem_nodes['xc']                              
@@ -1910,7 +1910,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
        
     
     
@@ -2092,7 +2092,7 @@ class BottomChord(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
             
 
 class TrussBrace(SteelFrameMember):
@@ -2372,7 +2372,7 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2,5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From 053ae9b57c0f8e2f8e9f56c68a58d06e72c2962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 123/237] fix: member groups do not share the list of members

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ea75998..518f2ac 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1395,7 +1395,7 @@ class MemberGroup:
 
         """
 
-        self.members = members
+        self.members = list(members)
         if len(members) == 0:
             self.cross_section = None
             self.frame = None
-- 
2.43.0


From 28131f099242b23cd2bca65f6a2ef2008c2918f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 124/237] fix: maximum slenderness is respected in the design
 of member groups

---
 metku/raami/frame_member.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 518f2ac..4f3b765 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1502,17 +1502,20 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            too_slender = False
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
                 if isinstance(member,MultiSpanMember):
                     for mem in member.members:
                         if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                            too_slender = True
                 else:
                     if any(member.member.slenderness() > max_slenderness):
-                        continue
+                        too_slender = True
             
+            if too_slender:
+                continue
             
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
-- 
2.43.0


From 8df8e0ed355e428a119cdbf117e182632668b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 125/237] fix: optimize_members iterates until the profiles of
 member groups do not change

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..fc70790 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -427,7 +427,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From cb3da333665afe8d3c9112d9e727ea81fbc995cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 126/237] fix: load ids of a frame are listed once

---
 metku/raami/raami.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index fc70790..e6d3f85 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -168,7 +168,6 @@ class Raami:
             # Add a new load case for this load
             NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
             self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
         else:
             # If a load case with this.load_id exists, add the new
             # load to that load case
@@ -197,7 +196,6 @@ class Raami:
             NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
 
             self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
         else:
             # If a load case with this.load_id exists, add the new
             # load to that load case
-- 
2.43.0


From 6439405bb20c68f20a03cfe6d79282b046723558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 127/237] fix: loads with the same name do not replace each
 other

A load of a load case was left out if the frame had a load of the same name,
and the number added to a name did not make it unique.
---
 metku/raami/raami.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index e6d3f85..0f74cf8 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -136,7 +136,7 @@ class Raami:
             self.load_ids.append(loadcase.load_id)
 
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if load not in self.loads.values():
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
@@ -145,22 +145,25 @@ class Raami:
         self.load_combs[loadcombination.comb_id] = loadcombination
         loadcombination.combine_loads()
 
+    def set_load_name(self, load) -> None:
+        """ Gives 'load' a name that no other load of the frame has """
+        name = load.name
+        n = len(self.loads)
+        while load.name in self.loads:
+            load.name = name + str(n)
+            n += 1
+
     def add_pointload(self, pointload:PointLoad) -> None:
         """ If a point load with same 'name' is already included
                         in the frame, add a number to the end of the name
                         of the new load such that each point load has a unique
                         name.
 
-                        NOTE: using 'len' to provide new id number might fail,
-                        if point loads are deleted such that the number of point loads
-                        changes along the way.
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
-
         if pointload not in self.loads.values():
+            self.set_load_name(pointload)
             self.loads[pointload.name] = pointload
 
         if not (pointload.load_id in self.load_ids):
@@ -185,10 +188,9 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
-
-        self.loads[lineload.name] = lineload
+        if lineload not in self.loads.values():
+            self.set_load_name(lineload)
+            self.loads[lineload.name] = lineload
 
 
         if not (lineload.load_id in self.load_ids):
-- 
2.43.0


From 5628ac92f923fbf1d08865ca1b426425a25e8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 128/237] fix: load combinations keep the scaling factors of
 the loads

---
 metku/raami/frame_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..91f587f 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -206,7 +206,7 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From 2f8b34ef3096f05f06ed30f5b4682b0cbe7cccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 129/237] fix: piecewise line load is divided along the member

The division was made by the x coordinates, which is wrong for columns and for
members whose first node is on the right.
---
 metku/raami/frame_loads.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 91f587f..691a831 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -366,16 +366,18 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        xdiv = self.xdiv
+        tol = 1e-9
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Local coordinates of the ends of the element
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= xdiv:
+            if X[1] <= xdiv + tol:
                 q = qval[0]
-            elif X[0] >= xdiv:
+            elif X[0] >= xdiv - tol:
                 q = qval[1]
-            elif X[0] < xdiv and X[1] >= xdiv:
+            else:
                 nd = np.argmax(abs(qval))
                 q = qval[nd]
                 
-- 
2.43.0


From 56a723d05602b64dca8ccc088d5bd508f1d379e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 130/237] fix: coordinates of a frame node given as integers
 are not truncated when they are changed

---
 metku/raami/frame_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..72fded7 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates,dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
-- 
2.43.0


From c8e5045509fc99f040be1fc4e70ecb035834f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 131/237] fix: nodes of general frame members can be moved

---
 metku/raami/frame_node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 72fded7..745386a 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -61,7 +61,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
         
     @property
     def y(self):
@@ -79,7 +80,8 @@ class FrameNode:
         # Update connected member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
     
     @property
     def z(self):
@@ -98,7 +100,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if mem.member is not None:
+                mem.member.length = mem.length()
     
     def plot(self, print_text=True, marker='ok', axes=None):
         """ Plots the node """
-- 
2.43.0


From 423e77eb7f5a7bf33b69eb2071340bafb1476ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 132/237] fix: internal finite element nodes of a member follow
 its end nodes

---
 metku/raami/frame_member.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 4f3b765..4e4f10b 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -337,6 +337,13 @@ class FrameMember:
         """ Clear global node coordinates and recalculate those """
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
+        
+        # Move also the internal nodes of the FE model, if it exists
+        if len(self.fem_nodes) == len(self.local_node_coords):
+            X1 = self.fem_nodes[0].coord
+            X2 = self.fem_nodes[-1].coord
+            for fem_node, t in zip(self.fem_nodes[1:-1],self.local_node_coords[1:-1]):
+                fem_node.coord = X1 + t*(X2-X1)
 
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
-- 
2.43.0


From b916dc92abbbed6601b9fb040df7596ea405f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 133/237] fix: coordinates of FEM nodes given as integers are
 not truncated when they are changed

---
 metku/framefem/framefem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 6121658..8c22419 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1487,8 +1487,8 @@ class FEMNode:
         
         """ Nodal coordinates"""
         if z is not None:
-            self.coord = np.array([x, y, z])
-            self.X = np.array([x, y, z])
+            self.coord = np.array([x, y, z], dtype=float)
+            self.X = np.array([x, y, z], dtype=float)
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
             self.dofs = -np.ones(6,dtype=int)
@@ -1496,8 +1496,8 @@ class FEMNode:
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
         else:
-            self.coord = np.array([x, y])
-            self.X = np.array([x, y])
+            self.coord = np.array([x, y], dtype=float)
+            self.X = np.array([x, y], dtype=float)
             self.dofs = np.array([-1, -1, -1])
             # [Ux, Uy, Uz]
             self.v = np.array([0,0,0])
-- 
2.43.0


From 3fcf598d6487e5675c9c0a8bbdee09366e8947f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 134/237] fix: buckling length factors of a frame member can be
 given as a list

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 4e4f10b..1e16f55 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -220,7 +220,7 @@ class FrameMember:
         self.__lcr = val
         
         if not self.member is None:
-            self.member.lcr = val
+            self.member.lcr = np.array(val)
     
     def coords(self):
         """ Return nodal coordinates """
-- 
2.43.0


From 1c263075e7c3c8acb06f5b32e9b77166c2813bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 135/237] fix: removing the self-weight of a frame removes its
 loads

---
 metku/raami/frame_member.py | 10 +++++++---
 metku/raami/raami.py        | 11 +++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1e16f55..a09d509 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -176,7 +176,7 @@ class FrameMember:
         self.costs = {}
         
         self.self_weight = False
-        
+        self.self_weight_load = None
         
         
     def __repr__(self):        
@@ -324,14 +324,18 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            
+            self.frame.remove_load(self.self_weight_load)
+            self.self_weight_load = None
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 0f74cf8..7a66283 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -205,6 +205,17 @@ class Raami:
 
 
 
+    def remove_load(self, load) -> None:
+        """ Removes 'load' from the frame and from its load case """
+        self.loads = {name: other for name, other in self.loads.items() if other is not load}
+        
+        for load_case in self.load_cases.values():
+            load_case.loads = [other for other in load_case.loads if other is not load]
+        
+        member = getattr(load,'member',None)
+        if member is not None:
+            member.loads = [other for other in member.loads if other is not load]
+
     def add_support(self, support: Support) -> None:
         # print("Adding support")
         # this.supp_id = len(self.supports)
-- 
2.43.0


From 3a96471de0da0c62f77e1e3c0da6d9aa2ca538f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 136/237] fix: circular hollow sections in the optimum design
 of members

---
 metku/raami/frame_member.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index a09d509..549d853 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1236,7 +1236,8 @@ class SteelFrameMember(FrameMember):
             self.material = material
             self.cross_section.Ned = -1
             
-            if self.cross_section.b < bmin or self.cross_section.b > bmax:
+            width = getattr(self.cross_section,'b',None) or self.cross_section.D
+            if width < bmin or width > bmax:
                 continue
             
             if self.cross_section.section_class() > sec_class:
@@ -1507,7 +1508,8 @@ class MemberGroup:
             
             #print(sec)
             
-            if self.cross_section.b < bmin or self.cross_section.b > bmax:
+            width = getattr(self.cross_section,'b',None) or self.cross_section.D
+            if width < bmin or width > bmax:
                 continue
             
             if sec.section_class() > sec_class:
-- 
2.43.0


From 90c437fd12fdf5640b2999d852d5a2d8c0b89a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 137/237] fix: combining loads again does not leave the old
 loads in the load case of the combination

---
 metku/raami/frame_loads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 691a831..eb33c46 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -129,10 +129,10 @@ class LoadCombination:
         """
         Clear loads with comb_id from frame
         """
-        keys_to_delete = [key for key, load in self.frame.loads.items() if load.load_id == self.comb_id]
+        loads_to_delete = [load for load in self.frame.loads.values() if load.load_id == self.comb_id]
 
-        for key in keys_to_delete:
-            del self.frame.loads[key]
+        for load in loads_to_delete:
+            self.frame.remove_load(load)
 
     def combine_loads(self):
         """ Does the actual load combination:
-- 
2.43.0


From b2c0a1a677337e13d909cc958efedd72f367831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 138/237] fix: load cases without loads can be analysed

---
 metku/raami/raami.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 7a66283..dec4514 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -319,6 +319,12 @@ class Raami:
             if load.load_id not in lcase_ids:
                 self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
 
+        # Load cases without loads
+        lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
+        for load_id in self.load_cases:
+            if load_id not in lcase_ids:
+                self.fem.add_loadcase(supp_id=1,load_id=load_id)
+
         # Set nodal degrees of freedom
         self.fem.nodal_dofs()
     
-- 
2.43.0


From c81501e3918903b2e25bf8ee46c6ceb52cb3f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 139/237] fix: Y joint resistances of trusses are multiplied by
 kn (EN 1993-1-8, Table 7.11)

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 81dc3a5..ffcea59 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2860,7 +2860,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2873,7 +2873,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From bf1d7aecba1dcbf624b2d8fc7ba34169976230d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 140/237] fix: chord side wall failure of Y joints of trusses
 uses the brace force of the load case

---
 metku/raami/raami_plane_truss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ffcea59..d182465 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2866,9 +2866,9 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -2942,7 +2942,7 @@ class TubularYJoint(TubularJoint):
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
             N_cff_Rd = self.chord_face_failure()
-            N_csw_Rd = self.chord_web_buckling()
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
-- 
2.43.0


From d23dd94861e68649be65a974b93922a1182d06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 141/237] fix: flexural buckling factor of the chord side wall
 in truss joints is at most 1

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d182465..99c18f5 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2834,7 +2834,7 @@ class TubularYJoint(TubularJoint):
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
-- 
2.43.0


From 80c192848780c97d78658283594cd3fc6bbae2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 142/237] fix: Y joint of trusses with beta > 0.85 interpolates
 from the chord face failure load at beta = 0.85

---
 metku/raami/raami_plane_truss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 99c18f5..1cc1b5a 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2849,9 +2849,11 @@ class TubularYJoint(TubularJoint):
         sl = sl / (np.pi * np.sqrt(E / self.fy0))
         return sl
     
-    def chord_face_failure(self,verb=False):
+    def chord_face_failure(self,verb=False,beta=None):
                         
         b = self.beta()
+        if beta is not None:
+            b = beta
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
@@ -2941,7 +2943,7 @@ class TubularYJoint(TubularJoint):
             if verb:
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(beta=0.85)
             N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
-- 
2.43.0


From 2b662b436ad051bf608b86a2e603ede12d03ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 143/237] fix: K joint of trusses returns the utilization
 ratios of the braces and the chord

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 1cc1b5a..22745a0 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3484,7 +3484,7 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        r = np.append(abs(NEd)/NjRd,abs(self.N0/N0Rd))
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From 6e1629d55de561d45e1da0c9fa29ae41fc830331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 144/237] fix: K joints at the end of a chord can be designed

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 22745a0..8e7aec4 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3434,7 +3434,10 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
+        if len(self.chords) == 1:
+            # The chord ends at the joint
+            N0 = self.chords[0].NEd[load_id]
+        elif abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
             N0 = self.chords[0].NEd[load_id]
         else:
             N0 = self.chords[1].NEd[load_id]
-- 
2.43.0


From 8b594b70c26dcebcdd3cdd6746be05a12d0c1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 145/237] fix: shear force in the gap of K joints is the
 greatest absolute value, also at the ridge

---
 metku/raami/raami_plane_truss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 8e7aec4..3b44b6c 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3133,7 +3133,11 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        gap_elements = self.fem_elements['gap']
+        if not isinstance(gap_elements,list):
+            gap_elements = [gap_elements]
+        
+        return max(abs(V) for ele in gap_elements for V in ele.fint[load_id]['fz'])
     
     @property
     def angles(self):
-- 
2.43.0


From 8e92d67311b2581d1c41ff7731d5b99b5c66731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 146/237] fix: trusses with a flat top chord have one gap
 element at midspan

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 3b44b6c..dc4aca3 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1504,7 +1504,7 @@ class SlopedTruss(PlaneTruss):
                         for load1 in joint.chords[0].loads:
                             for load2 in joint.chords[1].loads:
                                 if load1.load_id == load2.load_id:
-                                    if joint == self.ridge_joint:
+                                    if joint.ridge:
                                         q = load1.f*load1.values[1]
                                         load = FEMLineLoad(load1.load_id,
                                                            joint.fem_elements['gap'][0],
-- 
2.43.0


From 68115d4fd4e8907be33e444a2830676506623b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 147/237] fix: K joints without eccentricity in the FE model
 according to EN 1993

---
 metku/raami/raami_plane_truss.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index dc4aca3..d056af6 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1307,7 +1307,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1336,6 +1336,11 @@ class SlopedTruss(PlaneTruss):
                 if isinstance(joint,TubularKGapJoint):
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
+                    
+                    # No eccentricity element is needed if the points coincide
+                    if n1 is n2:
+                        continue
+                    
                     cs = IPE(500)
                                  
                     newElement = EBBeam(n1,n2,cs,cs.material)                    
-- 
2.43.0


From 2469611ff6326b8a52c9f8effca7831007ddfc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 148/237] fix: truss member optimization continues when the
 profile of a chord changes

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d056af6..2c97b5d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1689,7 +1689,7 @@ class SlopedTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 4a2d1a84aab243b48868d50ebc09d52f86c16ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 149/237] fix: FE model with eccentricity elements for trusses
 where the chord ends at a K joint

---
 metku/raami/raami_plane_truss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2c97b5d..1e7dd07 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1505,7 +1505,11 @@ class SlopedTruss(PlaneTruss):
                 # Add loads to gap elements
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
-                        # Add load to gap element
+                        # Add load to gap element. If the chord ends at the
+                        # joint, there is no load in the gap.
+                        if len(joint.chords) == 1:
+                            continue
+                        
                         for load1 in joint.chords[0].loads:
                             for load2 in joint.chords[1].loads:
                                 if load1.load_id == load2.load_id:
-- 
2.43.0


From cfbef7c40e521363ed4d25aa03a5d40da570b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 150/237] fix: piecewise uniform load of trusses loads every
 chord member once when there are more than two zone boundaries

---
 metku/raami/raami_plane_truss.py | 6 +++---
 metku/raami/raami_vierendeel.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 1e7dd07..9efb3ca 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1106,7 +1106,7 @@ class SlopedTruss(PlaneTruss):
                 vals = [q[0],q[0]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
+            elif mem.nodes[0].x >= xzones[-1]:
                 # Member is in the last zone
                 vals = [q[-1],q[-1]]
                 load_name = load_name0 + '_line'
@@ -1114,14 +1114,14 @@ class SlopedTruss(PlaneTruss):
             else:
                 
                 for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
+                    if i == 0 and mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
                         # member is partially outside
                         vals = [q[i],q[i+1]]
                         xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
                         #xdiv = x1
                         load_name = load_name0 + '_pw_line'
                         self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
+                    elif mem.nodes[0].x >= x1 and mem.nodes[0].x < x2 and mem.nodes[1].x > x2:
                         # member is partially outside
                         vals = [q[i+1],q[i+2]]
                         xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..873d715 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -1143,7 +1143,7 @@ class SlopedTruss(PlaneTruss):
                 vals = [q[0],q[0]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
+            elif mem.nodes[0].x >= xzones[-1]:
                 # Member is in the last zone
                 vals = [q[-1],q[-1]]
                 load_name = load_name0 + '_line'
@@ -1151,14 +1151,14 @@ class SlopedTruss(PlaneTruss):
             else:
                 
                 for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
+                    if i == 0 and mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
                         # member is partially outside
                         vals = [q[i],q[i+1]]
                         xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
                         #xdiv = x1
                         load_name = load_name0 + '_pw_line'
                         self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
+                    elif mem.nodes[0].x >= x1 and mem.nodes[0].x < x2 and mem.nodes[1].x > x2:
                         # member is partially outside
                         vals = [q[i+1],q[i+2]]
                         xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-- 
2.43.0


From f8ce314b610bd46ba0437a6401cc19936910f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 151/237] fix: ridge joint of trusses is found when the
 coordinate of the node is rounded

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 9efb3ca..020a050 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1183,7 +1183,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1192,7 +1192,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
-- 
2.43.0


From ff95955044a3711620a964e8c5036944bec8712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 152/237] fix: intersection points of braces follow the bottom
 chord of trusses when it is moved

---
 metku/raami/raami_plane_truss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 020a050..2b1605d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -179,6 +179,11 @@ class PlaneTruss(Raami):
         
         for node in self.bottom_nodes:
             node.y += dy
+        
+        # Intersection points of the braces follow the nodes
+        for joint in self.joints.values():
+            if isinstance(joint,TubularKGapJoint):
+                joint.yloc = joint.yloc
     
     def xmid(self):
         """ coordinates of the top chord at midspan """        
-- 
2.43.0


From 04bc824dc3b0e6544c59e4a7e7ff8e2b5d1474be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 153/237] fix: gap of K joints of trusses when both braces lean
 to the same side

---
 metku/raami/raami_plane_truss.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2b1605d..5cf8d84 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3340,6 +3340,18 @@ class TubularKGapJoint(TubularJoint):
         e = self.eccentricity()
         theta = np.array([self.brace_angle(brace,geometry="actual") for brace in self.braces])
         
+        if not self.ridge:
+            # A brace that leans over the other one makes an obtuse angle with its
+            # side of the chord
+            v = self.chords[0].dir_vector
+            if v[0] < 0:
+                v = -v
+            away = -1 if self.chord == "top" else 1
+            for i, brace in enumerate(self.braces):
+                side = -1 if brace is self.left_brace else 1
+                if np.dot(side*v,away*brace.dir_vector_xp()) < 0:
+                    theta[i] = 180-theta[i]
+        
         # Set angles to the RHS joint object as well
         #self.joint.angles = theta
         h0 = self.h0
-- 
2.43.0


From cab5881921f173586a8ee57746349761e2484351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 154/237] fix: Frame2D member VEd is the shear force in the
 plane of the frame

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 99abf01..4653193 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1644,7 +1644,7 @@ class FrameMember:
     def VEd(self):
         VEds = {}
         for load_id in self.load_ids:
-            VEd = self.get_absmax_force_value(load_id, 'fy')
+            VEd = self.get_absmax_force_value(load_id, 'fz')
             VEds[load_id] = VEd
         return VEds
 
-- 
2.43.0


From b43e80757a4d2930991dacedf170fd4febb8b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 155/237] fix: largest member forces of Frame2D consider both
 ends of every element

---
 metku/frame2d/frame2d.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 4653193..e8404b3 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1621,9 +1621,7 @@ class FrameMember:
         return unit
 
     def get_absmax_force_value(self, load_id, force='fx'):
-        F0 = [list(self.elements.values())[0].fint[load_id][force][0]]
-        F = [el.fint[load_id][force][1] for el in self.elements.values()]
-        F.extend(F0)
+        F = [f for el in self.elements.values() for f in el.fint[load_id][force]]
         F_min = min(F)
         F_max = max(F)
         if F_max > abs(F_min):
-- 
2.43.0


From 38042b55413d43ac036e968d4ac41836381f9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 156/237] fix: the scaling factor of Frame2D line loads is
 applied

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index e8404b3..2743d6e 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3653,7 +3653,7 @@ class LineLoad(Load):
     def add_load(self, fem_model):
         """ Add the load to the FEM model """
         # k = self.calc_k()
-        v0, v1 = self.values
+        v0, v1 = self.f * self.values
         qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
         for i, elem_id in enumerate(self.member.elements.keys()):
             # v1 = (i * k) + v0
-- 
2.43.0


From 57e472c4e2d7039dce68ff04a35b2fafee108abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 157/237] fix: trapezoidal line loads of Frame2D vary with the
 position on the member

---
 metku/frame2d/frame2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 2743d6e..29ee8ae 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3654,7 +3654,11 @@ class LineLoad(Load):
         """ Add the load to the FEM model """
         # k = self.calc_k()
         v0, v1 = self.f * self.values
-        qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
+        # the load varies linearly along the member, whose elements
+        # may have different lengths
+        elems = list(self.member.elements.values())
+        s = np.cumsum([0.0] + [elem.length() for elem in elems])
+        qvals = v0 + (v1 - v0) * s / s[-1]
         for i, elem_id in enumerate(self.member.elements.keys()):
             # v1 = (i * k) + v0
             load = fem.LineLoad(self.load_id,
-- 
2.43.0


From 59d8e4f1d9a4475e4934372ffaf279c1d8ba5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 158/237] fix: Frame2D members added after a support or a point
 load on them get its node

---
 metku/frame2d/frame2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 29ee8ae..2a35975 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -255,6 +255,11 @@ class Frame2D:
                 this.add_node_coord(coord)
                 member.add_node_coord(coord)
 
+        # Supports and point loads that are already in the frame
+        # may be located on this member
+        for item in [*self.supports.values(), *self.point_loads.values()]:
+            this.add_node_coord(item.coordinate)
+
         if str(this.nodal_coordinates) not in [str(c) for c in
                                                self.nodal_coordinates]:
             self.nodal_coordinates.extend(this.nodal_coordinates)
-- 
2.43.0


From bde62a80f01f0d22541f75ce64da28528ff95594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 159/237] fix: Frame2D members are joined where they meet also
 at rounded coordinates

---
 metku/frame2d/frame2d.py | 42 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 2a35975..9fd8382 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -250,10 +250,20 @@ class Frame2D:
         # If coordinate is outside of member's coordinates,
         # it's rejected in member's add_node_coord function
         for member in self.members.values():
-            coord = this.line_intersection(member.coordinates)
-            if isinstance(coord, list):
-                this.add_node_coord(coord)
-                member.add_node_coord(coord)
+            if member is this:
+                continue
+            # An end of one member located on the other one (within the
+            # rounding of the coordinates) is their meeting point.
+            coords = [c for c in this.coordinates if member.point_intersection(c)]
+            coords += [c for c in member.coordinates if this.point_intersection(c)]
+            if not coords:
+                coords = [this.line_intersection(member.coordinates)]
+            for coord in coords:
+                # both members must contain the point
+                if isinstance(coord, list) and this.point_intersection(coord) \
+                        and member.point_intersection(coord):
+                    this.add_node_coord(coord)
+                    member.add_node_coord(coord)
 
         # Supports and point loads that are already in the frame
         # may be located on this member
@@ -2715,24 +2725,14 @@ class FrameMember:
         x2, y2 = end_node
         x, y = coordinate
 
-        res = False
+        # Coordinates are rounded to PREC decimals
+        tol = 10 ** (-PREC)
+        L = math.hypot(x2 - x1, y2 - y1)
+        # Location of the point along the member and its distance from it
+        s = ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L
+        d = ((x - x1) * (y2 - y1) - (y - y1) * (x2 - x1)) / L
 
-        # The line between start_node and end_node is
-        # x(t) = start_node + t*(end_node-start_node), t \in [0,1]
-        # If we can find t \in [0,1], for which x(t) = coordinate, then
-        # the point and member intersect.
-        if abs(x2 - x1) > 1e-8:
-            t1 = (x - x1) / (x2 - x1)
-            if 0 <= t1 <= 1 and abs(y1 + t1 * (y2 - y1) - y) < 1e-8:
-                res = True
-
-        else:
-            # Member is vertical
-            t1 = (y - y1) / (y2 - y1)
-            if 0 <= t1 <= 1 and abs(x1 - x) < 1e-8:
-                res = True
-
-        return res
+        return -tol <= s <= L + tol and abs(d) <= tol
 
         """
         # Coordinate is between member's coordinates
-- 
2.43.0


From dcd7dc15623bb89fc1646bd1080751c360af6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 160/237] fix: Frame2D point loads with unrounded or tuple
 coordinates are not lost

---
 metku/frame2d/frame2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 9fd8382..2253482 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3588,7 +3588,7 @@ class PointLoad(Load):
             f -- scaling factor
         """
 
-        self.__coordinate = coordinate
+        self.__coordinate = [round(c, PREC) for c in coordinate]
         self.v = np.asarray(v)
         self.f = f
         self.node = None
-- 
2.43.0


From 784efcd079a89359b26c29a4314401e8a68928fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 161/237] fix: square hollow sections of Frame2D members keep
 their family in optimum design

---
 metku/frame2d/frame2d.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 2253482..9c08f51 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1975,6 +1975,9 @@ class FrameMember:
             elif profile_type == 'CHS':
                 self.cross_section = CHS(H, T, self.fy)
 
+            elif profile_type == 'SHS' and len(vals) == 3 and H == B:
+                self.cross_section = SHS(H, T, self.fy)
+
             elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3):
                 self.cross_section = RHS(H, B, T, self.fy)
 
@@ -2636,10 +2639,10 @@ class FrameMember:
                 prof_type = "H"
             elif isinstance(self.cross_section, HEB):
                 prof_type = "H"
-            elif isinstance(self.cross_section, RHS):
-                prof_type = "RHS"
             elif isinstance(self.cross_section, SHS):
                 prof_type = "SHS"
+            elif isinstance(self.cross_section, RHS):
+                prof_type = "RHS"
             elif isinstance(self.cross_section, CHS):
                 prof_type = "CHS"
             else:
-- 
2.43.0


From 52f42c3b7c6bd69c567368553458f99d4c38ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 162/237] fix: optimum design of Frame2D members uses the
 forces of each load case

---
 metku/frame2d/frame2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 9c08f51..83ee4ce 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2667,6 +2667,7 @@ class FrameMember:
             self.profile = profile
 
             for load_id in self.load_ids:
+                self.assign_forces(load_id)
                 self.design(load_id)
 
             if all(r <= 1.0 for r in self.r.values()):  # <= 1.0:
-- 
2.43.0


From 36aa62ca4e3e72e0b2a77d8dd2e8287d824ead7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 163/237] fix: Frame2D.optimize_members goes on while any
 profile changes

---
 metku/frame2d/frame2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 83ee4ce..6c02cdc 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -560,8 +560,10 @@ class Frame2D:
 
         while PROFILES_CHANGED and k < kmax:
             self.calculate('all', 'REM')
+            PROFILES_CHANGED = False
             for member in self.members.values():
-                PROFILES_CHANGED = member.optimum_design(prof_type)
+                if member.optimum_design(prof_type):
+                    PROFILES_CHANGED = True
 
             k += 1
 
-- 
2.43.0


From 7fff49484adf92debc517ecd91534129331964ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 164/237] fix: Frame2D members of one element can be hinged at
 both ends

---
 metku/frame2d/frame2d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 6c02cdc..5067e3f 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2347,13 +2347,17 @@ class FrameMember:
                 fem_model.add_element(self.elements[index])
                 self.element_ids.append(index)
 
+                releases = []
                 if i == 0 and self.hinges[0]:
                     """ There is a hinge in the first end """
-                    fem_model.add_release(index, [2])
+                    releases.append(2)
 
                 if i == N - 2 and self.hinges[1]:
-                    """ There is a hinge in the first end """
-                    fem_model.add_release(index, [5])
+                    """ There is a hinge in the second end """
+                    releases.append(5)
+
+                if releases:
+                    fem_model.add_release(index, releases)
 
                 index += 1
 
-- 
2.43.0


From 1c4a3be031719540726be902ffac5577241ba763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 165/237] fix: Frame2D members are designed for the forces on
 both sides of their nodes

---
 metku/frame2d/frame2d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 5067e3f..4775abf 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2555,6 +2555,13 @@ class FrameMember:
             N1, N2 = element.fint[load_id]['fx']
             V1, V2 = element.fint[load_id]['fz']
             loc = self.locs[i]
+            if i > 0 and not np.allclose([M1, N1, V1], [M2_prev, N2_prev, V2_prev]):
+                # the forces have a jump at this node (e.g. another member):
+                # check the section on both sides of it
+                self.member.add_section(ned=N2_prev, vzed=V2_prev,
+                                        myed=M2_prev,
+                                        loc=np.nextafter(loc, 0.0))
+            M2_prev, N2_prev, V2_prev = M2, N2, V2
             self.member.add_section(ned=N1, vzed=V1,
                                     myed=M1, loc=loc)
         loc = self.locs[i + 1]
-- 
2.43.0


From 13b4a22f7456ae81875b4a7c66111cfa882027d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 166/237] fix: Frame2D loads with equal names never replace one
 another

---
 metku/frame2d/frame2d.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 4775abf..fd4908e 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -207,7 +207,10 @@ class Frame2D:
             self.load_ids.append(this.load_id)
 
         if this.name in self.line_loads.keys():
-            this.name += str(len(self.line_loads))
+            name, num = this.name, len(self.line_loads)
+            while name + str(num) in self.line_loads:
+                num += 1
+            this.name = name + str(num)
         self.line_loads[this.name] = this
 
     def add_pointload(self, this) -> bool:
@@ -216,16 +219,15 @@ class Frame2D:
             in the frame, add a number to the end of the name
             of the new load such that each point load has a unique
             name.
-
-            NOTE: using 'len' to provide new id number might fail,
-            if point loads are deleted such that the number of point loads
-            changes along the way.
         """
         if not (this.load_id in self.load_ids):
             self.load_ids.append(this.load_id)
 
         if this.name in self.point_loads.keys():
-            this.name += str(len(self.point_loads))
+            name, num = this.name, len(self.point_loads)
+            while name + str(num) in self.point_loads:
+                num += 1
+            this.name = name + str(num)
         self.point_loads[this.name] = this
 
         """ If the location of the point load is in between
-- 
2.43.0


From e4af8cb761921d566ef2f1b6d5dd88b8a07c4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 167/237] fix: resistance of shear studs: gammaV is imported

---
 metku/eurocodes/en1994/en1994_1_1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 2f11218..dab6cf5 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -15,6 +15,7 @@ import math
 
 try:
     from metku.eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
+    from metku.eurocodes.en1994.constants import gammaV
 except:
     from eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
     from eurocodes.en1994.constants import gammaV
-- 
2.43.0


From d807889a93f097e055b2f84a04731a8a883dca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 168/237] fix: steel resistance of shear studs, EN 1994-1-1,
 Eq. (6.18)

---
 metku/eurocodes/en1994/en1994_1_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index dab6cf5..7ed78b0 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -43,7 +43,7 @@ class ShearStud:
     def PRd(self,fck,Ecm,verb=False):
         """ Shear force resistance of a stud """
         
-        PRd_steel = 0.8*self.fu*math.pi**2*self.d**2/4
+        PRd_steel = 0.8*self.fu*math.pi*self.d**2/4/gammaV
         
         if self.length/self.d > 4:
             alpha = 1.0
-- 
2.43.0


From bbb4fcead0b0fb0c7d0149844bce4bed55c36d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 169/237] fix: diameter of the 25 mm shear stud

---
 metku/eurocodes/en1994/en1994_1_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 7ed78b0..3c5c690 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -23,7 +23,7 @@ except:
 
 S3L_Studs = {19: {"D": 19.0, "A": 9.52, "H": 31.75},
             22: {"D": 22.0, "A": 9.52, "H": 34.925},
-            25: {"D": 19.0, "A": 12.7, "H": 41.275},
+            25: {"D": 25.0, "A": 12.7, "H": 41.275},
             }
 
 
-- 
2.43.0


From 697f4dcc7c90ad8797532b40034cb5c5f8172484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 170/237] fix: distance of the rebar from the side of a
 concrete filled tube

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 962c28e..28996b8 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -143,7 +143,7 @@ class ConcreteFilledTube:
         """ Distance in y-direction (horizontal) of the rebar edge from
             inner surface of the steel profile
         """
-        return 0.5*self.steel.B - self.steel.T - self.rebar_pos[0] + self.rebar.r
+        return 0.5*self.steel.B - self.steel.T - (self.rebar_pos[0] + self.rebar.r)
         
     @v.setter
     def v(self,v):
-- 
2.43.0


From 876aa473af7effec276ae06ab07fc867ef589fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 171/237] fix: second moment of area of concrete in a tube with
 rounded corners

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 28996b8..2b262d6 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -264,7 +264,7 @@ class ConcreteFilledTube:
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
         
         return Icy
     
-- 
2.43.0


From c11a9bc1423e903598a0084069ecc25b730dc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 172/237] fix: area of reinforcement from the number of bars

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 2b262d6..15bd696 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -163,7 +163,7 @@ class ConcreteFilledTube:
     def As(self):
         """ Total area of rebar
         """
-        return 4*self.rebar.A
+        return self.nbars*self.rebar.A
     
     @property
     def Aa(self):
-- 
2.43.0


From d27f78257273ffb8340d9ff2cdc515cabac45047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 173/237] fix: coefficient 0.85 of concrete counted once in
 composite beams

---
 metku/sections/composite/composite_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index cedc960..42426ce 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -336,7 +336,7 @@ class CompositeIBeam:
     def Rc(self):
         """ Full resultant of concrete part """
         
-        return 0.85*self.slab.material.fcd()*self.Ac
+        return 0.85*self.slab.material.fcd(a_cc=1.0)*self.Ac
     
     def Rf(self):
         """ Resultant of top flange of the steel beam """
-- 
2.43.0


From 2b117190abddf499f39928fcaff42641191a825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 174/237] fix: plastic neutral axis of composite beams in the
 flange or web

---
 metku/sections/composite/composite_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index 42426ce..37534bd 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -363,7 +363,7 @@ class CompositeIBeam:
         
         if Ra < Rc:
             ec0 = Ra/Rc*hc
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
         else:
@@ -395,7 +395,7 @@ class CompositeIBeam:
                 print("Ra = {0:4.2f} kN".format(Ra*1e-3))
                 print("Rc = {0:4.2f} kN".format(Rc*1e-3))
                 print("ec0 = {0:4.2f} [mm]".format(ec0))
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-- 
2.43.0


From 8eff72cf53faeecad9c70e0c15d2b1ca7e55d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 175/237] fix: buckling of concrete filled tubes about the
 minor axis

---
 metku/sections/composite/composite_column.py | 33 ++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 15bd696..be9bd0c 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -262,11 +262,28 @@ class ConcreteFilledTube:
         # Inner radius
         r = self.steel.R-t
         
-        Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
+        return self.Ic_gross(b,h,t,r) - self.Is
+    
+    @staticmethod
+    def Ic_gross(b,h,t,r):
+        """ Second moment of area of the inside of the tube with respect
+            to the axis parallel to width 'b'; r is the inner radius.
+        """
+        return (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2
+    
+    def parts_bending(self,axis="y"):
+        """ Bending stiffness of the steel part and of the reinforcement, and 
+            second moment of area of the concrete part, about the given axis
+        """
+        if axis == "y":
+            return self.EIa, self.EIs, self.Ic
+        
+        Is = self.nbars*(self.rebar.I + self.rebar.A*self.y_rebar**2)
+        Ic = self.Ic_gross(self.steel.H,self.steel.B,self.steel.T,self.steel.R-self.steel.T)
         
-        return Icy
+        return self.Ea*self.steel.I[1], self.rebar.E*Is, Ic - Is
     
     
     @property
@@ -302,10 +319,9 @@ class ConcreteFilledTube:
         """
         Ke = 0.6
         
-        if axis == "y":
-            Ic = self.Ic
+        EIa, EIs, Ic = self.parts_bending(axis)
     
-        return self.EIa + self.EIs + Ke*self.Eceff*Ic
+        return EIa + EIs + Ke*self.Eceff*Ic
     
     
     def EIeffII(self,axis="y"):
@@ -315,10 +331,9 @@ class ConcreteFilledTube:
         Ko = 0.9
         Ke = 0.5
         
-        if axis == "y":
-            Ic = self.Ic
+        EIa, EIs, Ic = self.parts_bending(axis)
     
-        return Ko*(self.EIa + self.EIs + Ke*self.Eceff*Ic)
+        return Ko*(EIa + EIs + Ke*self.Eceff*Ic)
     
     def e0(self):
         """ Member imperfection 
-- 
2.43.0


From 05b4f518873cf59c983e2314ae971b9b5faaf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 176/237] fix: principal axes of open thin-walled sections

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 919ecb1..5d3d354 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -229,12 +229,14 @@ class OpenProf:
         Iyz = self.product_moment_gc()
         d = Iz-Iy
         if abs(d) > 1e-8:
-            a = .5*np.atan(2*Iyz/d)
+            a = .5*np.arctan(2*Iyz/d)
         else:
-            a = 0
+            # Equal second moments: the principal axes are at 45 degrees,
+            # unless all axes are principal.
+            a = 0.25*np.pi*np.sign(Iyz)
             
-        I1 = 0.5*(Iy+Iz+np.sqrt(d^2+4*Iyz^2))
-        I2 = .5*(Iy+Iz-np.sqrt(d^2+4*Iyz^2))
+        I1 = 0.5*(Iy+Iz+np.sqrt(d**2+4*Iyz**2))
+        I2 = .5*(Iy+Iz-np.sqrt(d**2+4*Iyz**2))
         
         return [I1,I2], a
     
-- 
2.43.0


From 060ac499ce86d63c6e48a6de68556987f979ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 177/237] fix: open sections with an integer wall thickness

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 5d3d354..412a14e 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -40,7 +40,7 @@ class OpenProf:
                 self.nodes.append(Node(y=node[0],z=node[1]))
         
         #self.nodes = np.array(nodes)
-        if isinstance(t,float):
+        if np.isscalar(t):
             self.t = t*np.ones(n-1)
         else:
             self.t = np.array(t)
-- 
2.43.0


From 898bdb7b487f335afb0965838890136a5afadcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 178/237] fix: torsion constant of open sections with divided
 segments

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 412a14e..032402f 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -307,9 +307,7 @@ class OpenProf:
         return Iww + z_sc*Iyw - y_sc*Izw
     
     def torsion_constant(self):
-        dA = np.array([s.area() for s in self.segments])
-        
-        return sum(dA*np.array(self.t)**2/3)
+        return sum([s.area()*s.t**2/3 for s in self.segments])
     
     def torsion_modulus(self):
         
-- 
2.43.0


From 574c8ef162c61025fa0d1bee6bc619eb16973d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 179/237] fix: coefficient k3 of inclined webs, EN 1993-1-3,
 6.1.7.2

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index df7dfdb..426698b 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -173,7 +173,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         return min(max(1.15-0.15*r/t,0.5),1.0)
     
     def k3(phi):
-        return 0.7 + 0.3*(phi/90**2)
+        return 0.7 + 0.3*(phi/90)**2
 
     def k4(k):
         return 1.22-0.22*k
-- 
2.43.0


From 924d554168dbb348e50661481dcc2c53cf359449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 180/237] fix: coefficients k8 and k10, EN 1993-1-3, 6.1.7.2

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 426698b..bd669d1 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -201,13 +201,13 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         if hw_t < 66.5:
             return 1/k
         else:
-            return (1.1-hw_t/665)*k
+            return (1.1-hw_t/665)/k
     
     def k9(t):
         return 0.82 + 0.15*t/0.19
     
     def k10(hw,t,k):
-        return (0.98-hw/t/865)*k
+        return (0.98-hw/t/865)/k
     
     def k11(t):
         return 0.64+0.31*t/1.9
-- 
2.43.0


From b04b308aa2a4bda9a2847a5373fd5a4dcea5a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 181/237] fix: coefficient k9, EN 1993-1-3, 6.1.7.2

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index bd669d1..800a058 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -204,7 +204,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
             return (1.1-hw_t/665)/k
     
     def k9(t):
-        return 0.82 + 0.15*t/0.19
+        return 0.82 + 0.15*t/1.9
     
     def k10(hw,t,k):
         return (0.98-hw/t/865)/k
-- 
2.43.0


From e09366a891c978dcd95df6f5328df48c891e4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 182/237] fix: transverse resistance of webs that are prevented
 from rotating

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 800a058..1b9f22d 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -222,7 +222,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # of the member.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
@@ -236,7 +236,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
                         C = C0*(5.92-hw/t/132)*(0.71+0.015*ss_t)
         else:
             if web_stiffeners:
-                C0 = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
+                C = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 ss_t = ss/t
@@ -252,14 +252,14 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # the two forces separately.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
                 C = C0*(6.66-hw/t/64)*(1+0.01*ss/t)
         else:
             if web_stiffeners:
-                C0 = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
+                C = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 C = C0*(21.0-hw/t/16.3)*(1+0.0013*ss/t)
-- 
2.43.0


From 0238e317e1119196a532763c9532a0f1c457225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 183/237] fix: ratio of shear forces on both sides of a support
 in either order

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 1b9f22d..9d7666b 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -347,7 +347,7 @@ def RwRd_two_webs(fyb,r,t,phi,hw,ss,verb=False,code='old',**kwargs):
         if code == 'old':
             VEd = [abs(V) for V in VEd]
             
-            beta_v = (VEd[0]-VEd[1])/(VEd[0]+VEd[1])
+            beta_v = abs(VEd[0]-VEd[1])/(VEd[0]+VEd[1])
             
             if beta_v <= 0.2:
                 la = ss
-- 
2.43.0


From 03ac1abc2c534babcae1f3ffd2d8273bff74fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 184/237] fix: edge distance of screws in terms of the diameter

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 9d7666b..3e4309a 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -386,7 +386,7 @@ def RwRd_two_webs(fyb,r,t,phi,hw,ss,verb=False,code='old',**kwargs):
 """ Table 8.2: Design resistances for self-tapping screws """
 def screw_validity(e1,e2,p1,p2,d,t,t1):
     """ Check the conditions on the range of validity """
-    if e1 >= 3*d and e2 >= 1.5 and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
+    if e1 >= 3*d and e2 >= 1.5*d and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
         return True
     else:
         return False
-- 
2.43.0


From 2ceb6badcee5962d6a6b6b0b29bf2f94ec337be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 185/237] fix: rotational restraint by sheeting for negative
 position and any thickness

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 3e4309a..9a9b615 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -533,15 +533,9 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
     
     if load == 'gravity':
         if position == 'pos':
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.08
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            kA = 1.0+(A-1.0)*np.interp(tnom,[0.75,1.0],[0.08,0.095])
         else:
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.16
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            kA = 1.0+(A-1.0)*np.interp(tnom,[0.75,1.0],[0.16,0.095])
     else:
         kA = 1.0
     
@@ -555,7 +549,7 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
             C100 = 5.2
         else:
             bT_max = 120
-            C10 = 3.1
+            C100 = 3.1
     else:
         C100 = 2.6
         bT_max = 40
-- 
2.43.0


From 2d3cebdf7440ac69e97b5829d52b1435cfd8afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 186/237] fix: number of bends in the average yield strength

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 31b8ac2..651bc93 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -281,7 +281,8 @@ class ZSection:
     @property
     def fya(self):
         """ Average yield strength """        
-        return en1993_1_3.fya(self.fyb,self.fu,self.t,Ag=self.Agross(),n=4)
+        return en1993_1_3.fya(self.fyb,self.fu,self.t,Ag=self.Agross(),
+                              n=2+(self.ca > 0)+(self.cb > 0))
         
     @property
     def fyb(self):
-- 
2.43.0


From 6d5d0169b470de5f32a32a8cae629dd0167221fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 187/237] fix: narrow flanges and lips of Z and C sections do
 not run back

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 651bc93..e9096d2 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -513,8 +513,8 @@ class ZSection:
         top_nodes = [[rm,web_nodes[1][1]]]
         
         if bp_top_lip > 0.0:
-            top_nodes += [[0.25*bp_top,web_nodes[1][1]],
-                          [0.75*bp_top,web_nodes[1][1]],
+            top_nodes += [[max(0.25*bp_top,rm),web_nodes[1][1]],
+                          [min(0.75*bp_top,bp_top-rm),web_nodes[1][1]],
                           [bp_top-rm,web_nodes[1][1]]]
             
             # Corner
@@ -532,7 +532,7 @@ class ZSection:
             # Top lip nodes
             
             self.add([bp_top,web_nodes[1][1]-rm],'top_lip')
-            self.add([bp_top,web_nodes[1][1]-0.5*bp_top_lip],'top_lip')
+            self.add([bp_top,web_nodes[1][1]-max(0.5*bp_top_lip,rm)],'top_lip')
             self.add([bp_top,web_nodes[1][1]-bp_top_lip],'top_lip')
         else:
             top_nodes += [[0.5*bp_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
@@ -1499,8 +1499,8 @@ class CSection(ZSection):
         top_nodes = [[rm,web_nodes[1][1]]]
         
         if bp_top_lip > 0.0:
-            top_nodes += [[0.25*bp_top,web_nodes[1][1]],
-                          [0.75*bp_top,web_nodes[1][1]],
+            top_nodes += [[max(0.25*bp_top,rm),web_nodes[1][1]],
+                          [min(0.75*bp_top,bp_top-rm),web_nodes[1][1]],
                           [bp_top-rm,web_nodes[1][1]]]
             
             # Corner
@@ -1518,7 +1518,7 @@ class CSection(ZSection):
             # Top lip nodes
             
             self.add([bp_top,web_nodes[1][1]-rm],'top_lip')
-            self.add([bp_top,web_nodes[1][1]-0.5*bp_top_lip],'top_lip')
+            self.add([bp_top,web_nodes[1][1]-max(0.5*bp_top_lip,rm)],'top_lip')
             self.add([bp_top,web_nodes[1][1]-bp_top_lip],'top_lip')
         else:
             top_nodes += [[0.5*bp_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
-- 
2.43.0


From 3554ec46058b5643acf690cb2e7cba02caeb26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 188/237] fix: length of the webs of trapezoidal sheets

---
 metku/eurocodes/en1993/en1993_1_3/trapezoidal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
index 21d213f..85c0f6c 100644
--- a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
+++ b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
@@ -89,7 +89,7 @@ class TrapezoidalSheet:
     @property
     def sw(self):
         """ Length of one web """
-        return self.hw*np.sin(self.angle_rad)
+        return self.hw/np.sin(self.angle_rad)
     
     @property
     def pitch(self):
-- 
2.43.0


From bfa98b282ac8cfccec363918ff57c5ea98a83c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 189/237] fix: pitch of trapezoidal sheets

---
 metku/eurocodes/en1993/en1993_1_3/trapezoidal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
index 85c0f6c..ff14d6b 100644
--- a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
+++ b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
@@ -94,7 +94,7 @@ class TrapezoidalSheet:
     @property
     def pitch(self):
         """ Pitch of corrugations """
-        return self.bb+self.bt+2*self.h*np.cos(self.angle_rad)
+        return self.bb+self.bt+2*self.h/np.tan(self.angle_rad)
     
     @property
     def width(self):
-- 
2.43.0


From aefe8042df08eb6a5cad2fab9ddf615ff5817df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 190/237] fix: timber: bending about the two axes does not
 cancel

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..ba8f753 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1108,8 +1108,8 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        UM1 = abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = abs(self.sigma_md(n)[1]) / self.fmd + k_m * abs(self.sigma_md(n)[0]) / self.fmd
         r = max(UM1, UM2)
         return r
 
-- 
2.43.0


From f117be90c3e3b8f6b8978ebb2dc4cd6cb529d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 191/237] fix: timber: negative moment about z with normal
 force

---
 metku/structures/timber/timber_member.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index ba8f753..a83d83e 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1122,16 +1122,16 @@ class TimberMember:
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
-- 
2.43.0


From 0f4096dc0b6d60feca76e921e724dd0e08f18f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 192/237] fix: timber: negative torsion

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index a83d83e..e9cb951 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1115,7 +1115,7 @@ class TimberMember:
 
     def check_torsion(self, n: int) -> float:
         # Torsion utilization ratio:                                SFS-EN 1995-1-1 § 6.1.8
-        UTx = self.tau_tord(n) / (self.k_shape(n) * self.fvd)
+        UTx = abs(self.tau_tord(n)) / (self.k_shape(n) * self.fvd)
         r = UTx
         return r
 
-- 
2.43.0


From 35573354d686be0a871b6910623ea29b44b56fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 193/237] fix: timber: negative moment about z in buckling

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index e9cb951..bf19817 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1174,8 +1174,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From b0cedf33b07cebf77e534deaf12e298c0714235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 194/237] fix: timber: lateral buckling of negative moments,
 tension does not buckle

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index bf19817..80fc357 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1191,11 +1191,11 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-                            abs(self.sigma_c0d(self.loc.index(loc))) / (self.k_c()[1][i] * self.fc0d), 'kaava': 35, 'loc': loc, 'i': i})
+                            max(-self.sigma_c0d(self.loc.index(loc)), 0) / (self.k_c()[1][i] * self.fc0d), 'kaava': 35, 'loc': loc, 'i': i})
 
                 # TODO sigma_cod positiivinen tai negatiivinen
         if get_full:
-- 
2.43.0


From 19c4622b451fd035fdde735904fb67cac0150544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 195/237] fix: timber: k_2 of pitched cambered beams

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 80fc357..fd597b7 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -438,7 +438,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From faa30832c18066d384738560e6814a45f9cdf039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 196/237] fix: timber: k_vol of solid timber

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index fd597b7..3743e75 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -399,7 +399,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 879dd10c828c99015510950d07ee4e281e4e16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 197/237] fix: timber: k_r, the radius is in millimetres

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 3743e75..20df2d7 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -344,10 +344,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 5743cf3b55db758631a2fbab13aa2374d1ef09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 198/237] fix: timber: k_dis of curved beams

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 20df2d7..8704622 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -409,9 +409,9 @@ class TimberMember:
 
     def k_dis(self) -> float:
         # SFS 1995-1-1 (6.52)
-        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
+        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki, KaarevaPalkki)):
             return 1.4
-        elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
+        elif isinstance(self.section, KaarevaHarjaPalkki):
             return 1.7
 
     def k_p(self) -> float:
-- 
2.43.0


From eea89b68f2e96d6781501e80a56876c54e8689c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 199/237] fix: timber: volume of the apex of curved beams

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 8704622..0ef45d6 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -381,7 +381,7 @@ class TimberMember:
                 #     print(self.section.intf6)
             return r
         elif isinstance(self.section, KaarevaPalkki):
-            return self.section.B * self.section.hap * (self.section.r_in + self.section.hap * 0.5) * ((self.alfa() + self.section.beta) * 0.5)
+            return self.section.B * self.section.hap * (2 * self.section.r_in + self.section.hap) * ((self.alfa() + self.section.beta) * 0.5)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From dc64302cea7e30901eb930c5e75bb9360aaa062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 200/237] fix: timber: negative moments of tapered beams

---
 metku/structures/timber/timber_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 0ef45d6..2ffdc72 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -955,7 +955,7 @@ class TimberMember:
 
     def check_single_tapered_beam_bending_tension(self) -> float:
         # SFS 1995-1-1 (6.38)
-        return self.sigma_m_alpha_d() / (self.k_m_alpha() * self.fmd)
+        return abs(self.sigma_m_alpha_d()) / (self.k_m_alpha() * self.fmd)
 
     def check_tapered_beam_bending_tension(self) -> float:
         """
@@ -987,7 +987,7 @@ class TimberMember:
                     self.sigma_md(self.loc.index(minusloc))[0] + self.sigma_md(self.loc.index(plusloc))[
                 0]) / 2
 
-        return sig / (self.k_r() * self.fmd)
+        return abs(sig) / (self.k_r() * self.fmd)
 
     def check_perpendicular_to_grain_tension(self) -> float:
         """
@@ -1245,7 +1245,7 @@ class TimberMember:
     def check_apex_bending_stress(self) -> float:
         # EN 1995-1-1 (6.41)
         sigma = self.k_l() * self.M_apd() / self.W_ap()[0]
-        return sigma / (self.k_r() * self.fmd)
+        return abs(sigma) / (self.k_r() * self.fmd)
 
     def check_apex_perpendicular_tension(self) -> float:
         # EN 1995-1-1 (6.50)
-- 
2.43.0


From 5beda29374a75479994d622b6ba9bf884e9fcb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 201/237] fix: timber: tension along the tapered edge depends
 on the tension strength across the grain

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 2ffdc72..db5c18f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -450,14 +450,14 @@ class TimberMember:
         if not self.section.flipped:
             if sigma_malphad >= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
         else:
             if sigma_malphad <= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-- 
2.43.0


From 6bc0ebdf41965dc2f732a4ce8fc842953452f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 202/237] fix: timber: the largest stress about each axis
 decides the slenderness

---
 metku/structures/timber/timber_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index db5c18f..271de0d 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -610,7 +610,7 @@ class TimberMember:
                 if supp_z[i] <= loc <= supp_z[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iz.append(max(sig_md_in_seg, key=lambda x: abs(x[0])))
+            iz.append(max(sig_md_in_seg, key=lambda x: abs(x[1])))
         return [iy, iz]
 
     def tau_d(self, n: int) -> list_out:
@@ -732,7 +732,7 @@ class TimberMember:
                 if supp_y[i] <= loc <= supp_y[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg))])
+            iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda s: abs(s[0])))])
 
         for i in range(len(supp_z) - 1):
             sig_md_in_seg = []
@@ -741,7 +741,7 @@ class TimberMember:
                 if supp_z[i] <= loc <= supp_z[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg))])
+            iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda s: abs(s[1])))])
 
         y = [sqrt(self.section.get_I(i)[0] / self.section.get_A(i)) for i in iy]
         z = [sqrt(self.section.get_I(i)[1] / self.section.get_A(i)) for i in iz]
-- 
2.43.0


From dfc3a51c2a7eed4250dc39c289bb534c48926c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 203/237] fix: timber: torsion of rectangles between and beyond
 the tabulated proportions

---
 metku/structures/timber/timber_member.py | 62 ++++--------------------
 1 file changed, 10 insertions(+), 52 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 271de0d..f83945a 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -631,65 +631,23 @@ class TimberMember:
         EN-1995-1-1 6-1-8
         Alpha and beta are based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
         """
-        section_height_to_width_ratio = self.section.get_H(self.loc[n]) / self.section.B
-        if section_height_to_width_ratio < 1:
-            section_height_to_width_ratio = 1 / section_height_to_width_ratio
-        if 0.95 < section_height_to_width_ratio < 1.05:
-            beta = 0.208
-        elif 1.45 < section_height_to_width_ratio < 1.55:
-            beta = 0.231
-        elif 1.95 < section_height_to_width_ratio < 2.05:
-            beta = 0.246
-        elif 2.45 < section_height_to_width_ratio < 2.55:
-            beta = 0.258
-        elif 2.95 < section_height_to_width_ratio < 3.05:
-            beta = 0.267
-        elif 3.95 < section_height_to_width_ratio < 4.05:
-            beta = 0.282
-        elif 4.95 < section_height_to_width_ratio < 5.05:
-            beta = 0.299
-        elif 5.95 < section_height_to_width_ratio < 6.05:
-            beta = 0.307
-        elif 7.95 < section_height_to_width_ratio < 8.05:
-            beta = 0.313
-        elif 9 < section_height_to_width_ratio < np.inf:
-            beta = 0.333
-        else:
-            beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
+        h = max(self.section.get_H(self.loc[n]), self.section.B)
+        b = min(self.section.get_H(self.loc[n]), self.section.B)
+        beta = np.interp(b / h, [0, 1 / 10, 1 / 8, 1 / 6, 1 / 5, 1 / 4, 1 / 3, 1 / 2.5, 1 / 2, 1 / 1.5, 1],
+                         [0.333, 0.313, 0.307, 0.299, 0.291, 0.282, 0.267, 0.258, 0.246, 0.231, 0.208])
+        Wv = beta * h * b ** 2
         return self.ted[n] / Wv
 
     def I_tor(self, loc: float) -> float:
         """
         @return: torsional constant for rectangular cross sections
         """
-        ratio = self.section.get_H(loc) / self.section.B
-        if ratio < 1:
-            ratio = 1 / ratio
-        if 1 < ratio < 1.05:
-            alpha = 0.141
-        elif 1.45 < ratio < 1.55:
-            alpha = 0.196
-        elif 1.95 < ratio < 2.05:
-            alpha = 0.229
-        elif 2.45 < ratio < 2.55:
-            alpha = 0.249
-        elif 2.95 < ratio < 3.05:
-            alpha = 0.263
-        elif 3.95 < ratio < 4.05:
-            alpha = 0.281
-        elif 4.95 < ratio < 5.05:
-            alpha = 0.299
-        elif 5.95 < ratio < 6.05:
-            alpha = 0.307
-        elif 7.95 < ratio < 8.05:
-            alpha = 0.313
-        elif 9 < ratio < np.inf:
-            alpha = 0.333
-        else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+        h = max(self.section.get_H(loc), self.section.B)
+        b = min(self.section.get_H(loc), self.section.B)
+        alpha = np.interp(b / h, [0, 1 / 10, 1 / 8, 1 / 6, 1 / 5, 1 / 4, 1 / 3, 1 / 2.5, 1 / 2, 1 / 1.5, 1],
+                          [0.333, 0.313, 0.307, 0.299, 0.291, 0.281, 0.263, 0.249, 0.229, 0.196, 0.141])
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        return alpha * h * b ** 3
 
     def k_shape(self, n: int) -> float:
         """
-- 
2.43.0


From b2af0ab077e77bfc6e78ebb055fb10e64a4562fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 204/237] fix: timber fire: zero strength layer before charring
 starts

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..ef220ec 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -89,7 +89,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
         return t * beta_n + k0 * d0
     # RIL-205-2-2009 kuvat 3.3 - 3.5
     if t < fp.t_ch:
-        return 0
+        return k0 * d0
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-- 
2.43.0


From 56f831a2aad3bd0968e9410582f5bde739465411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 205/237] fix: timber fire: the instant when the protection
 fails

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index ef220ec..5319904 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -93,7 +93,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From 0152e472f914b77575d6bd175c417041d1de610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 206/237] fix: timber fire: charring before the protection
 fails shortens the faster charring

---
 metku/eurocodes/en1995/fire_protection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/fire_protection.py b/metku/eurocodes/en1995/fire_protection.py
index 1353923..a39d6c1 100644
--- a/metku/eurocodes/en1995/fire_protection.py
+++ b/metku/eurocodes/en1995/fire_protection.py
@@ -39,8 +39,13 @@ class FireProtection:
         self.prot_mat_beta_n = beta_n
 
     def set_ta(self):
-        # RIL-205-2-2009 kaava 3.8
-        t_a = min(2 * self.t_f, 25 / (2 * self.prot_mat_beta_n) + self.t_f)
+        if self.t_ch < self.t_f:
+            # RIL-205-2-2009 kaava 3.9
+            charred = (self.t_f - self.t_ch) * 0.73 * self.prot_mat_beta_n
+            t_a = max(25 - charred, 0) / (2 * self.prot_mat_beta_n) + self.t_f
+        else:
+            # RIL-205-2-2009 kaava 3.8
+            t_a = min(2 * self.t_f, 25 / (2 * self.prot_mat_beta_n) + self.t_f)
         self.t_a = t_a
 
     def set_tf_for_gypsumF(self):
-- 
2.43.0


From 18eea5f17dbea4696c4f7334976c298223490902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 207/237] fix: timber fire: protections shared by sections or
 given later

---
 metku/sections/timber/timber_section.py | 37 ++++++++++++-------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 1cd68a1..31ca7c4 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -9,6 +9,7 @@ Timber section parameters, including timber fire design calculations (simple met
 """
 
 from abc import ABC, abstractmethod
+from copy import copy
 import numpy as np
 from scipy import integrate
 
@@ -100,26 +101,21 @@ class TimberSection:
 
         # RIL-205-2-2009 3.4.3
         # Asetetaan palosuojille millainen materiaali suojataan jotta voidaan laskea ta ja tf
-        if self.fire_protection_right:
-            self.fire_protection_right.protected_material(self.material)
-            if isinstance(self.fire_protection_right, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_right.set_tf_for_gypsumF()
-            self.fire_protection_right.set_ta()
-        if self.fire_protection_left:
-            self.fire_protection_left.protected_material(self.material)
-            if isinstance(self.fire_protection_left, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_left.set_tf_for_gypsumF()
-            self.fire_protection_left.set_ta()
-        if self.fire_protection_bottom:
-            self.fire_protection_bottom.protected_material(self.material)
-            if isinstance(self.fire_protection_bottom, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_bottom.set_tf_for_gypsumF()
-            self.fire_protection_bottom.set_ta()
-        if self.fire_protection_top:
-            self.fire_protection_top.protected_material(self.material)
-            if isinstance(self.fire_protection_top, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_top.set_tf_for_gypsumF()
-            self.fire_protection_top.set_ta()
+        self.update_fire_protections()
+
+    def update_fire_protections(self):
+        """
+        Each section has its own protections, because ta and tf depend on the protected material
+        """
+        for side in ('right', 'left', 'bottom', 'top'):
+            fp = getattr(self, 'fire_protection_' + side)
+            if fp:
+                fp = copy(fp)
+                fp.protected_material(self.material)
+                if isinstance(fp, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
+                    fp.set_tf_for_gypsumF()
+                fp.set_ta()
+                setattr(self, 'fire_protection_' + side, fp)
 
     @property
     def H(self) -> float:
@@ -231,6 +227,7 @@ class TimberSection:
             self.fire_protection_left = val
             self.fire_protection_bottom = val
             self.fire_protection_top = val
+        self.update_fire_protections()
 
     def get_R(self) -> (int, float):
         return self.R
-- 
2.43.0


From 7e86264b69ad68f7e2620d8950fa409958c8699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 208/237] fix: timber: strength classes D are hardwood

---
 metku/materials/timber_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/materials/timber_data.py b/metku/materials/timber_data.py
index 2e6b7b0..b57bfe3 100644
--- a/metku/materials/timber_data.py
+++ b/metku/materials/timber_data.py
@@ -119,8 +119,11 @@ lvl = {T.Kerto_S: {"fmk": 44, "s": 0.12, "fm0flatk": 50, "ft0k": 35, "ft90edgek"
 
 
 class Timber(Material):
-    def __init__(self, timber_type: T=T.C14, hardness: str='softwood'):
+    def __init__(self, timber_type: T=T.C14, hardness: str=None):
         self.timber_type = timber_type
+        if hardness is None:
+            # strength classes D are hardwood
+            hardness = 'hardwood' if timber_type.name.startswith('D') else 'softwood'
         self.hardness = hardness
         if timber_type in solid_timber:
             self.type = 'solid_timber'
-- 
2.43.0


From 633bd9c1cf4b3e42064ea9ae805dc94cc212baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 209/237] fix: timber fire: charring of hardwood between the
 tabulated densities

---
 metku/eurocodes/en1995/en1995_1_2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 5319904..a80fa1d 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -42,10 +42,12 @@ def charring_speed(rhok: (int, float), type: str, hardness: str, h_p: (int, floa
                 if rhok >= 290:
                     beta = [0.65, 0.7]
         elif hardness == 'hardwood':
-            if rhok == 290:
-                beta = [0.65, 0.7]
             if rhok >= 450:
                 beta = [0.5, 0.55]
+            elif rhok >= 290:
+                # linear interpolation
+                r = (rhok - 290) / 160
+                beta = [0.65 - 0.15 * r, 0.7 - 0.15 * r]
     elif type == 'lvl':
         if rhok >= 480:
             beta = [0.65, 0.7]
-- 
2.43.0


From ed2974f810d5c46e7d4ee088d8be363a9d446e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 210/237] fix: timber: sections checked without reduction of
 the shear force need no neighbours

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index f83945a..ed61f40 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1369,7 +1369,7 @@ class TimberMember:
 
     def check_sections(self, reduce_uv: bool = True) -> np.ndarray:
         """ Verify resistance of all sections """
-        r = np.zeros_like(self.check_section())
+        r = np.zeros_like(self.check_section(reduce_uv=reduce_uv))
         for n in range(self.nsect()):
             r = np.vstack((r, self.check_section(n, reduce_uv=reduce_uv)))
             # r.append(self.check_section(n))
-- 
2.43.0


From a00824b278dda199fb96107f2b0c7695b63941ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 211/237] fix: timber: positive moment compresses the tapered
 top edge

---
 metku/structures/timber/timber_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index ed61f40..239c92a 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -447,7 +447,8 @@ class TimberMember:
     def k_m_alpha(self) -> float:
         # SFS 1995-1-1 (6.39) ja (6.40)
         sigma_malphad = self.sigma_m_alpha_d()
-        if not self.section.flipped:
+        # positive moment compresses the top, which is the tapered edge unless the beam is flipped
+        if self.section.flipped:
             if sigma_malphad >= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
-- 
2.43.0


From 4f2ab6e07fdccf5024b1c6fcfd5df0010e2442d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 212/237] fix: member existence variable can bring the member
 back

---
 metku/optimization/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index b957191..1d41a03 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -192,6 +192,8 @@ class Variable:
                         if new_value == 1:
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
+                            elif prop == 'member':
+                                obj.__setattr__('active', True)
                         else:
                             """ If the target of a binary variable is a member,
                                 the binary variable is a member existence variable
-- 
2.43.0


From 44c66e4a911e5726ac2d43188bf38ffd3dfed3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 213/237] fix: sawing consumables are a price per minute

---
 metku/cost/workshop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..18afd1b 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -852,7 +852,8 @@ class SawingCost(CostCentre):
         # calculate productive time and cost of consumables for each end.   
         for t, h, Ah, At in zip(T,H,AH,AT):     
             TPnew = self.productive_time(steel_grade, h, t, Ah)
-            cCS += self.consumables(At, t, TPnew, steel_grade)
+            # Consumables are given per minute of productive time
+            cCS += self.consumables(At, t, TPnew, steel_grade)*TPnew
             TP += TPnew            
                     
         self.times["productive"] = TP
-- 
2.43.0


From 4afead009e0f5b9530e96eafa67e3081fec0d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 214/237] fix: plate without weld or holes keeps the price of
 earlier ones

---
 metku/structures/steel/plates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..6c83de8 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -101,10 +101,12 @@ class RectPlate:
         self._cost['cutting'] = workshop.cost_centres['cutting'].cost(self.t,self.circumference())
         self._cost['painting'] = workshop.cost_centres['painting'].cost(self.paint_area())
         self._cost['blasting'] = workshop.cost_centres['blasting'].cost(max(self.b,self.h))
+        self._cost['welding'] = 0.0
         if self.weld_size > 0:
             self._cost['welding'] = workshop.cost_centres['assembly_welding'].cost(self.weld_size,self.circumference())
         
         
+        self._cost['holes'] = 0.0
         if len(self.holes) > 0:
             total_holes = sum([d*math.pi for d in self.holes]) 
             self._cost['holes'] = workshop.cost_centres['cutting'].cost(self.t,total_holes)
-- 
2.43.0


From 1bc61a46d8c9f082e9cea6bffefb2f40de0eaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 215/237] fix: end plate rows of two bolts have two nuts and
 four washers

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 239df59..e489463 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -793,8 +793,8 @@ class EndPlateJoint:
             else:
                 bolt_cost = 2*bolt_costs_pt[int(row.bolt.length)][int(row.bolt.d)]
             self._cost['bolts'] += bolt_cost
-            self._cost['bolts'] += nut_unit_cost[int(row.bolt.d)]
-            self._cost['bolts'] += washer_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*nut_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 4*washer_unit_cost[int(row.bolt.d)]
             """ Hole costs include forming holes both in the plate in the column """
             hole_cut_length += 2*row.bolt.d0*math.pi
            
-- 
2.43.0


From 711e8acf6f62c05277d66eddc728ca0bb4370d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 216/237] fix: loads of gap elements in combinations and with
 several loads in a case

---
 metku/raami/raami_plane_truss.py | 80 ++++++++++++++------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 5cf8d84..1113b9f 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1508,50 +1508,7 @@ class SlopedTruss(PlaneTruss):
                         self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
                 
                 # Add loads to gap elements
-                for joint in self.joints.values():
-                    if isinstance(joint,TubularKGapJoint):
-                        # Add load to gap element. If the chord ends at the
-                        # joint, there is no load in the gap.
-                        if len(joint.chords) == 1:
-                            continue
-                        
-                        for load1 in joint.chords[0].loads:
-                            for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
-                                    if joint.ridge:
-                                        q = load1.f*load1.values[1]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][0],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                        q = load1.f*load2.values[0]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][1],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                    else:
-                                        if isinstance(load1,LineLoad) or isinstance(load1,PWLineLoad):
-                                            if abs(load1.values[1]) >= abs(load2.values[0]):
-                                                q = load1.f*load1.values[1]
-                                                
-                                            else:
-                                                q = load2.f*load2.values[0]
-                                                                                    
-                                            load = FEMLineLoad(load1.load_id,
-                                                               joint.fem_elements['gap'],
-                                                               [0.0,1.0],
-                                                               [q,q],
-                                                               load1.direction,
-                                                               load1.coord_sys)                                            
-                                            self.fem.add_load(load)
-                                    break
-                                    
+                self.add_gap_loads(self.loads.values())
                 
                 # Set nodal degrees of freedom
                 self.fem.nodal_dofs()
@@ -1559,6 +1516,41 @@ class SlopedTruss(PlaneTruss):
         else:
             print("Weird FEM model.")
     
+    def add_gap_loads(self,loads):
+        """ Adds the line loads of the chords to the gap elements of the joints
+        
+            :param loads: loads of the frame. The loads that have the same load_id
+                          act simultaneously on the chord.
+        """
+        for joint in self.joints.values():
+            # If the chord ends at the joint, there is no load in the gap.
+            if not isinstance(joint,TubularKGapJoint) or len(joint.chords) == 1:
+                continue
+            
+            # Load values of both chord members at the joint
+            gap_loads = {}
+            for load in loads:
+                if not isinstance(load,(LineLoad,PWLineLoad)):
+                    continue
+                for i, chord in enumerate(joint.chords):
+                    if load.member is chord:
+                        key = (load.load_id,load.direction,load.coord_sys)
+                        q = gap_loads.setdefault(key,[None,None])
+                        q[i] = (q[i] or 0.0) + load.f*load.values[1-i]
+            
+            for (load_id,direction,coord_sys), (q1,q2) in gap_loads.items():
+                # Both chord members must be loaded
+                if q1 is None or q2 is None:
+                    continue
+                
+                if joint.ridge:
+                    elems = zip(joint.fem_elements['gap'],[q1,q2])
+                else:
+                    elems = [(joint.fem_elements['gap'],q1 if abs(q1) >= abs(q2) else q2)]
+                
+                for elem, q in elems:
+                    self.fem.add_load(FEMLineLoad(load_id,elem,[0.0,1.0],[q,q],direction,coord_sys))
+    
     def update_fem_joint_nodes(self):
         """ Updates nodal positions at joints. It is assumed that cross-sections
             have been changed along the way.
-- 
2.43.0


From a2e78af10fc1f0464dce8c8a3600a5335e978ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 217/237] fix: portal truss: hinge of the top chord at the
 column face

---
 metku/raami/raami_portal_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..1d300f1 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -450,7 +450,7 @@ class PortalTruss(Raami):
             n1 = self.column_joints[0].fem_nodes['xc']
             n2 = self.column_joints[0].chord.joints[0].fem_nodes['xc']                
             cs = self.column_joints[0].chord.cross_section
-            newElement = EBBeam(n2,n1,cs,cs.material)                
+            newElement = EBBeam(n1,n2,cs,cs.material)                
             self.fem.add_element(newElement)
             self.column_joints[0].chord.fem_elements.insert(0,newElement)
             
@@ -459,7 +459,7 @@ class PortalTruss(Raami):
             n2 = self.column_joints[1].fem_nodes['xc']
             n1 = self.column_joints[1].chord.joints[1].fem_nodes['xc']
             cs = self.column_joints[1].chord.cross_section
-            newElement = EBBeam(n2,n1,cs,cs.material)                
+            newElement = EBBeam(n1,n2,cs,cs.material)                
             self.fem.add_element(newElement)
             self.column_joints[1].chord.fem_elements.append(newElement)
         
-- 
2.43.0


From d5409b2e5eb101605ade6194220cb285d0df771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 218/237] fix: portal truss: only the Y joints at the columns
 are moved

---
 metku/raami/raami_portal_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 1d300f1..2b318a3 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -267,7 +267,7 @@ class PortalTruss(Raami):
                 # Create new FrameNode which also replaces the node
                 # at the Y joint of the chord.
                 for joint in newJoint.chord.joints:
-                    if isinstance(joint,TubularYJoint):
+                    if isinstance(joint,TubularYJoint) and joint.node is newJoint.node:
                         newCoord = np.array(copy(joint.node.coords))
                         D = 0.5*newJoint.hc*abs(np.cos(newJoint.chord.angle)) + newJoint.gap
                         if left:                            
@@ -291,7 +291,7 @@ class PortalTruss(Raami):
                     # Create new FrameNode which also replaces the node
                     # at the Y joint of the chord.
                     for joint in newJoint.chord.joints:
-                        if isinstance(joint,TubularYJoint):
+                        if isinstance(joint,TubularYJoint) and joint.node is newJoint.node:
                             newCoord = copy(joint.node.coords)
                             
                             # Determine the index of the node among the
-- 
2.43.0


From e31154efc0dedb376a2cf4610f9623be9f4e492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 219/237] fix: portal truss: elements of the first chord member
 in the order of the member

---
 metku/raami/raami_portal_truss.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index 2b318a3..b840ce6 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -256,13 +256,6 @@ class PortalTruss(Raami):
             newJoint = Truss2ColumnJoint(col.nodes[-1],self.truss.top_chord[ndx],col,left)
             self.column_joints.append(newJoint)
             
-            # Make hinge to the top chord member
-            # NOTE: the index '1' works for both ends of the bottom chord, because
-            # the element numbering of the left-hand-side top chord member starts from
-            # the first K-joint in the top chord and goes to the column.
-            # See: raami_plane_truss.py -> TopChord -> generate_elements
-            #self.truss.top_chord[ndx].hinges[1] = True
-                            
             if y_joint_node:
                 # Create new FrameNode which also replaces the node
                 # at the Y joint of the chord.
@@ -376,7 +369,7 @@ class PortalTruss(Raami):
             # Then, generate truss, including loads on trusses
             self.truss.generate_fem("ecc_elements",nodes_and_elements_only=False)
             
-            self.truss.top_chord[0].fem_elements[-1].releases = [5]
+            self.truss.top_chord[0].fem_elements[0].releases = [2]
             self.truss.top_chord[-1].fem_elements[-1].releases = [5]
             
             if self.bottom_chord_to_column:
@@ -950,7 +943,11 @@ class Truss2ColumnJoint:
         self.fem_elements = None
         
         try:
-            self.chord.joints.append(self)
+            if left and len(self.chord.joints) == 1:
+                # The column is at the first end of the chord member
+                self.chord.joints.insert(0,self)
+            else:
+                self.chord.joints.append(self)
         except:
             pass
                 
-- 
2.43.0


From fd4a3b0f2643093e972e07f0087b66c3e11c88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 220/237] fix: portal truss: loads of the truss were counted
 twice

---
 metku/raami/raami_portal_truss.py | 44 ++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index b840ce6..e0c6ad3 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -368,6 +368,7 @@ class PortalTruss(Raami):
             
             # Then, generate truss, including loads on trusses
             self.truss.generate_fem("ecc_elements",nodes_and_elements_only=False)
+            self.generate_fem_loads()
             
             self.truss.top_chord[0].fem_elements[0].releases = [2]
             self.truss.top_chord[-1].fem_elements[-1].releases = [5]
@@ -435,6 +436,7 @@ class PortalTruss(Raami):
             
             # Then, generate truss, including loads on trusses
             self.truss.generate_fem("ecc_elements",nodes_and_elements_only=False)
+            self.generate_fem_loads()
             
             #self.truss.top_chord[0].fem_elements[-1].releases = [5]
             #self.truss.top_chord[-1].fem_elements[-1].releases = [5]
@@ -460,14 +462,6 @@ class PortalTruss(Raami):
         
         #self.fem.draw()
         
-        # Generate loads
-        for load in self.loads.values():
-            load.add_load(self.fem)
-            # Creates new loadcase if one with same load_id does not exist
-            lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
-            if load.load_id not in lcase_ids:
-                self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
-        
         # Generate supports
         for supp in self.supports.values():
             supp.add_support(self.fem)
@@ -506,6 +500,22 @@ class PortalTruss(Raami):
         self.fem.nodal_dofs()
         """
     
+    def generate_fem_loads(self):
+        """ Adds the loads to the FEM model. The loads given to the truss have
+            already been added with the FEM model of the truss.
+        """
+        truss_loads = list(self.truss.loads.values())
+        loads = [load for load in self.loads.values() if load not in truss_loads]
+        
+        for load in loads:
+            load.add_load(self.fem)
+            # Creates new loadcase if one with same load_id does not exist
+            lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
+            if load.load_id not in lcase_ids:
+                self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
+        
+        self.truss.add_gap_loads(loads)
+    
     def clear_fem(self):
         
         super().clear_fem()
@@ -567,9 +577,7 @@ class PortalTruss(Raami):
             #
             self.truss.generate_uniform_load(q,member,load_id,ltype)
             
-            if not (load_id in self.load_ids):
-                self.load_ids.append(load_id)
-                self.add(self.truss.load_cases[load_id])
+            self.add_truss_loads(load_id)
                 
             """
             if not (this.load_id in self.load_ids):
@@ -589,9 +597,6 @@ class PortalTruss(Raami):
             """
             
         elif part == 'column':
-            if not (load_id in self.load_ids):
-                self.load_ids.append(load_id)
-            
             load_name = 'COL'
             if member == 'left':
                 mem = self.columns[0]
@@ -608,8 +613,15 @@ class PortalTruss(Raami):
         """ Adds a piecewise uniform load. See the same method for SlopedTruss in 'raami_plane_truss.py' """
         self.truss.generate_piecewise_uniform_load(q,xzones,load_id,ltype)
         
-        if not (load_id in self.load_ids):
-            self.load_ids.append(load_id)
+        self.add_truss_loads(load_id)
+    
+    def add_truss_loads(self,load_id):
+        """ Adds the loads of the truss in load case 'load_id' to the load case of the frame """
+        if load_id in self.load_cases:
+            for load in self.truss.load_cases[load_id].loads:
+                if load not in self.loads.values():
+                    self.add(load)
+        else:
             self.add(self.truss.load_cases[load_id])
     
     def plot(self,print_text=True, show=True,
-- 
2.43.0


From 0830032c320009ad534ec5ab090f739d1c9390de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 221/237] fix: portal truss: optimisation goes on when only the
 profiles of groups change

---
 metku/raami/raami_portal_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0c6ad3..a3a0d77 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -733,8 +733,8 @@ class PortalTruss(Raami):
                 
                 print('Optimize ' + name)
                 
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_min,
-                                     max_slenderness=max_slenderness)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_min,
+                                                                 max_slenderness=max_slenderness))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From c7e32094e3a1c687f57cf71bf626fefbedc05265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 222/237] fix: portal truss: nodes of the frame move when the
 joints are updated

---
 metku/raami/raami_portal_truss.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index a3a0d77..e8963d5 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -262,7 +262,7 @@ class PortalTruss(Raami):
                 for joint in newJoint.chord.joints:
                     if isinstance(joint,TubularYJoint) and joint.node is newJoint.node:
                         newCoord = np.array(copy(joint.node.coords))
-                        D = 0.5*newJoint.hc*abs(np.cos(newJoint.chord.angle)) + newJoint.gap
+                        D = (0.5*newJoint.hc + newJoint.gap)/abs(np.cos(newJoint.chord.angle))
                         if left:                            
                             newCoord = newCoord + D*newJoint.chord.dir_vector
                         else:
@@ -271,6 +271,7 @@ class PortalTruss(Raami):
                         newNode = FrameNode(newCoord)                    
                         self.add(newNode)
                         joint.node = newNode
+                        newJoint.y_joint = joint
                                     
             if self.bottom_chord_to_column:
                 newJoint = Truss2ColumnJoint(col.nodes[1],self.truss.bottom_chord[ndx],col,left)
@@ -295,7 +296,7 @@ class PortalTruss(Raami):
                             else:
                                 brace_node_nd = 1
                             
-                            D = 0.5*newJoint.hc*abs(np.cos(newJoint.chord.angle)) + newJoint.gap
+                            D = (0.5*newJoint.hc + newJoint.gap)/abs(np.cos(newJoint.chord.angle))
                             if left:
                                 newCoord += D*newJoint.chord.dir_vector
                             else:
@@ -305,6 +306,7 @@ class PortalTruss(Raami):
                             newNode = FrameNode(newCoord)       
                             self.add(newNode)
                             joint.node = newNode
+                            newJoint.y_joint = joint
                             joint.braces[0].nodes[brace_node_nd] = newNode
             
             
@@ -545,15 +547,10 @@ class PortalTruss(Raami):
             joint.fem_nodes['xc'].x = joint.node.x+dx
             joint.fem_nodes['xc'].y = joint.node.y+dy
             
-            for mem in joint.node.members:
-                # Update the location of the brace node close to the column
-                if isinstance(mem,TrussBrace):
-                    if isinstance(mem.top_joint,TubularYJoint):                        
-                        mem.top_joint.node.x = joint.node.x+dx+dg
-                        mem.top_joint.node.y = joint.node.y+dy+dgy
-                    elif isinstance(mem.bottom_joint,TubularYJoint):
-                        mem.bottom_joint.node.x = joint.node.x+dx+dg
-                        mem.bottom_joint.node.y = joint.node.y+dy+dgy
+            # Update the location of the brace node close to the column
+            if joint.y_joint is not None:
+                joint.y_joint.node.x = joint.node.x+dx+dg
+                joint.y_joint.node.y = joint.node.y+dy+dgy
 
     
         # Update truss joints FEM nodes
@@ -954,6 +951,9 @@ class Truss2ColumnJoint:
         self.fem_nodes = {'col': None, 'xc': None}
         self.fem_elements = None
         
+        # Y joint of the chord with a node of its own close to the column
+        self.y_joint = None
+        
         try:
             if left and len(self.chord.joints) == 1:
                 # The column is at the first end of the chord member
-- 
2.43.0


From 010e9bdfc18d08bdeacb5fe4e6e83f5be9e8d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 223/237] fix: truss: nodes at the chord faces follow the
 profiles in optimisation

---
 metku/raami/raami_plane_truss.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 1113b9f..8c9f291 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1557,7 +1557,8 @@ class SlopedTruss(PlaneTruss):
         """
         
         for joint in self.joints.values():
-            if isinstance(joint,TubularKGapJoint):
+            # Only the eccentricity elements of the gap joints have nodes at the chord face
+            if isinstance(joint,TubularKGapJoint) and all(joint.fem_nodes['xcf'].values()):
                 # Calculate brace-to-chord face intersection points and the
                 # corresponding projections to the centerline of the chord
                 xface, xcenter = joint.brace_chord_face_x()
@@ -1568,6 +1569,15 @@ class SlopedTruss(PlaneTruss):
                 for brace, xc in xcenter.items():                    
                     joint.fem_nodes['xch'][brace].x = xc[0]
                     joint.fem_nodes['xch'][brace].y = xc[1]
+        
+        # Internal nodes of the members
+        for mem in self.members.values():
+            if len(mem.fem_nodes) > 2:
+                N1, N2 = mem.fem_nodes[0], mem.fem_nodes[-1]
+                X = divide_line_segment(np.array([N1.x,N1.y]),np.array([N2.x,N2.y]),len(mem.fem_nodes)-1)
+                for node, x in zip(mem.fem_nodes[1:-1],X[1:-1]):
+                    node.x = x[0]
+                    node.y = x[1]
     
     def plot(self, geometry=False, print_text=True, show=True,
              loads=True, color=False, axes=None, save=False, mem_dim=False,
@@ -1724,6 +1734,9 @@ class SlopedTruss(PlaneTruss):
             # If none of the members changed profile, exit the loop
             if not any(MEM_PROFILES_CHANGED):
                 break
+            
+            # Update nodal positions of FEM nodes at joints
+            self.update_fem_joint_nodes()
                 
             k += 1
         
-- 
2.43.0


From b987c7298c182d991e6d9c52dd11a28863ced1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 224/237] fix: truss: gap elements follow the profile of the
 chord in optimisation

---
 metku/raami/raami_plane_truss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 8c9f291..8247f21 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1569,6 +1569,11 @@ class SlopedTruss(PlaneTruss):
                 for brace, xc in xcenter.items():                    
                     joint.fem_nodes['xch'][brace].x = xc[0]
                     joint.fem_nodes['xch'][brace].y = xc[1]
+                
+                # The gap elements have the profile of the chord
+                gap = joint.fem_elements['gap']
+                for element in gap if isinstance(gap,list) else [gap]:
+                    element.section = joint.chords[0].cross_section
         
         # Internal nodes of the members
         for mem in self.members.values():
-- 
2.43.0


From 8a50d03798ba529fb28cefa1a90ad73532b16fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 225/237] fix: design of chord members that continue to the
 face of a column

---
 metku/raami/frame_member.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 549d853..be27f39 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1200,7 +1200,21 @@ class SteelFrameMember(FrameMember):
         Vz = self.nodal_forces[load_id]['Vz']
         My = self.nodal_forces[load_id]['My']
         
-        for loc, n, vz, my in zip(self.local_node_coords, N, Vz, My):
+        locs = list(self.local_node_coords)
+        
+        if len(N) > len(locs):
+            # The member continues past one of its end nodes by an element
+            # (chord of a truss connected to a column).
+            if self.fem_elements[0].nodes[0] in self.fem_nodes:
+                locs.append(locs[-1] + self.fem_elements[-1].length()/self.length())
+            else:
+                locs.insert(0, locs[0] - self.fem_elements[0].length()/self.length())
+            
+            self.member.clear_sections()
+            for loc in locs:
+                self.member.add_section(loc=loc)
+        
+        for loc, n, vz, my in zip(locs, N, Vz, My):
             self.member.sections[loc]['N'] = n
             self.member.sections[loc]['Vz'] = vz
             self.member.sections[loc]['My'] = my
-- 
2.43.0


From b892d79f1a673cd7d34ad8455d486dabd27f3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 226/237] fix: portal truss: members of the truss are designed
 in all load cases of the frame

---
 metku/raami/raami_portal_truss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e8963d5..8e6b1bb 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -693,6 +693,9 @@ class PortalTruss(Raami):
         
         kmax = 10
         k = 1
+        
+        # The members of the truss are designed in all load cases of the frame
+        self.truss.load_ids = list(self.load_ids)
                         
         while k < kmax:
             explored = []
-- 
2.43.0


From 9e764329c16e544a8a06086904dc06bdb5688671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 227/237] fix: values set for one axis of a turned section
 overwrite the other axis

---
 metku/sections/steel/steel_section.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 8fc58ee..56b185d 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -181,7 +181,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iy(self, val):
         if self.rotate:
             self.I[1] = val
-        self.I[0] = val
+        else:
+            self.I[0] = val
 
     @property
     def Iz(self):
@@ -193,7 +194,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iz(self, val):
         if self.rotate:
             self.I[0] = val
-        self.I[1] = val
+        else:
+            self.I[1] = val
 
     @property
     def Wply(self):
@@ -205,7 +207,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wply(self, val):
         if self.rotate:
             self.Wpl[1] = val
-        self.Wpl[0] = val
+        else:
+            self.Wpl[0] = val
 
     @property
     def Wplz(self):
@@ -217,7 +220,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wplz(self, val):
         if self.rotate:
             self.Wpl[0] = val
-        self.Wpl[1] = val
+        else:
+            self.Wpl[1] = val
 
     @property
     def Wely(self):
@@ -229,7 +233,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wely(self, val):
         if self.rotate:
             self.Wel[1] = val
-        self.Wel[0] = val
+        else:
+            self.Wel[0] = val
 
     @property
     def Welz(self):
@@ -241,7 +246,8 @@ class SteelSection(metaclass=ABCMeta):
     def Welz(self, val):
         if self.rotate:
             self.Wel[0] = val
-        self.Wel[1] = val
+        else:
+            self.Wel[1] = val
 
     @property
     def section_factor(self):
-- 
2.43.0


From 9856ecb13f3608c8084039685f9a951221014b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 228/237] fix: trapezoidal loads on members whose elements are
 not equally long

---
 metku/raami/frame_loads.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index eb33c46..d55b44d 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -302,7 +302,9 @@ class LineLoad(Load):
         #k = self.calc_k()
         v0, v1 = self.values
         #qvals = self.f*np.linspace(v0,v1,self.member.num_elements+1)        
-        qvals = self.f*np.linspace(v0,v1,len(self.member.fem_elements)+1)        
+        # The elements of a member need not be equally long.
+        x = np.cumsum([0.0] + [elem.length() for elem in self.member.fem_elements])
+        qvals = self.f*(v0+(v1-v0)*x/x[-1])
         for i, elem_id in enumerate(self.member.fem_elements):
             #v1 = (i * k) + v0
             load = fem.LineLoad(self.load_id,
-- 
2.43.0


From 663baa4d6892186d1e86fd13337a3e14d6e3b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 229/237] fix: joints of Vierendeel trusses could not be
 created

---
 metku/raami/raami_vierendeel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 873d715..7372e58 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -254,7 +254,7 @@ class VierendeelTruss(PlaneTruss):
         # Set the actual geometry for all joints
         for joint in self.joints.values():  
             angle = joint.brace_angle(joint.braces[0],geometry="actual")
-            joint.joint.angle = angle
+            #joint.joint.angle = angle
     
     def generate_uniform_load(self,q,chord="top",load_id=LoadIDs['ULS'],ltype='live'):
         """ Creates a uniform line load to one of the chords """
-- 
2.43.0


From be2bd72789758132143bdaee2593309db5c6237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 230/237] fix: Vierendeel trusses: optimisation continues when
 the profile of a chord changes

---
 metku/raami/raami_vierendeel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 7372e58..2448df1 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -434,7 +434,7 @@ class VierendeelTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From b93b53e2d52440517748a8f16bda647b84929c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 231/237] fix: TrussMILP: objective not imported, names of
 variables from load case ids

---
 metku/optimization/problems/truss_milp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 86fcf23..a59f29f 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -25,6 +25,7 @@ from metku.frame2d.frame2d import SteelBeam
 from metku.frame2d.simple_truss import SimpleTruss, three_bar_truss, ten_bar_truss
 from metku.sections.steel import SteelSection
 import metku.optimization.structopt as sop
+from metku.optimization.objective import LinearObjective
 from metku.sections.steel.catalogue import ipe_profiles, shs_profiles, hea_profiles
 from metku.sections.steel import ISection, WISection, RHS, SHS
 from metku.optimization.solvers.lp import LP
@@ -170,7 +171,7 @@ class TrussMILP:
                 for j, p in enumerate(self.members[i]['profiles']):
                     self.vars['force'][i][k].append(
                         sop.Variable(
-                            name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),
+                            name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,k),
                             lb=self.members[i]['Nlb'][j],
                             ub=self.members[i]['Nub'][j],
                             target=None,value=1))
@@ -511,7 +512,7 @@ class TrussMILP:
         """ Objective function: truss weight.
             This is the same for all problem types.
         """
-        obj = sop.LinearObjective("Weight", self.weight_obj())
+        obj = LinearObjective("Weight", self.weight_obj())
         self.milp.add(obj)
         
         ndof = self.ndof
-- 
2.43.0


From 8f7e122b0d768df17daa24313be5170c24b2ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 232/237] fix: TrussMILP: resistances and displacement bounds
 in the scaled units

---
 metku/optimization/problems/truss_milp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index a59f29f..0e7e492 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -77,7 +77,7 @@ class TrussMILP:
         self.milp = None
         
         # Resistance of cross-sections
-        self.NRd = [np.floor(p.NRd)*self.scaling['A'] for p in profiles]
+        self.NRd = [np.floor(p.NRd)*self.scaling['N'] for p in profiles]
     
         # Member data
         self.members = [{'L':0.0,'k0':0.0,'profiles':[],
@@ -142,8 +142,8 @@ class TrussMILP:
             # i) calculate buckling resistance
             # ii) create profile selection variable
             # iii) calculate force variable bounds
-            nlb = np.sum(np.maximum(B[:,i],0)*ulb) + np.sum(np.minimum(B[:,i],0)*uub)
-            nub = np.sum(np.minimum(B[:,i],0)*ulb) + np.sum(np.maximum(B[:,i],0)*uub)
+            nlb = np.sum(np.maximum(B[:,i],0)*self.ulb) + np.sum(np.minimum(B[:,i],0)*self.uub)
+            nub = np.sum(np.minimum(B[:,i],0)*self.ulb) + np.sum(np.maximum(B[:,i],0)*self.uub)
             for j, p in enumerate(self.members[i]['profiles']):
                 mem.profile = p
                 # Calculate buckling resistance for section 'p'
@@ -183,7 +183,7 @@ class TrussMILP:
             for j in range(self.ndof):
                 self.vars['disp'][k].append(
                     sop.Variable(name="u({0:.0f},{1:.0f})".format(j,k),
-                                 lb=ulb,ub=uub,target=None,value=0.0))
+                                 lb=self.ulb,ub=self.uub,target=None,value=0.0))
                 self.__nvars += 1
                 #c.append(0)
         
-- 
2.43.0


From 529cab21c6f198bb2b0c55b7f8a33db3a41329d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 233/237] fix: TrussMILP: members vanish with their nodes, not
 the reverse

---
 metku/optimization/problems/truss_milp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 0e7e492..4df4c97 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -384,8 +384,8 @@ class TrussMILP:
         for j, node in enumerate(self.nodes):            
             for m in node['members']:
                 a = np.zeros(nx)
-                a[Zstart+j] = 1
-                a[Ystart+m] = -1
+                a[Zstart+j] = -1
+                a[Ystart+m] = 1
                 self.milp.add(sop.LinearConstraint(a,0,con_type="<",
                                                    name="Y[{0:.0f}] <= Z[{1:.0f}]".format(m,j)))
         
-- 
2.43.0


From 8c94e5b654cae0c785029ef515cb18147df81d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 234/237] fix: TrussMILP: state variables of every load case
 are constrained

---
 metku/optimization/problems/truss_milp.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 4df4c97..3213983 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -305,6 +305,8 @@ class TrussMILP:
                     
                     yndx += 1                
                     Nndx +=1
+            # Skip the displacement variables in variable indexing
+            Nndx += ndof
                     
     def strength_constraints(self):
         """ Constraints: member strength (stress constraints)
@@ -552,33 +554,30 @@ class TrussMILP:
         # Create augmented statics matrix, whose columns correspond to
         # the columns of the original statics matrix copied as many times
         # as there are profile variables for each member.        
-        B0 = np.zeros([ndof,nvars])
         B = self.statics_matrix
         
-        # TODO! This has to be accommodated for several load cases!
-        start = self.nprof_vars
-        for i, yvars in enumerate(self.vars['profile']):
-            end = start + len(yvars)
-            B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
-            start = end
-                            
         for j, lc in enumerate(self.structure.load_cases):
+            B0 = np.zeros([ndof,nvars])
+            start = self.nprof_vars + j*(self.nprof_vars + ndof)
+            for i, yvars in enumerate(self.vars['profile']):
+                end = start + len(yvars)
+                B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
+                start = end
+                            
             # Load vector for the load case, including only unsupported dofs """
             p = np.delete(self.structure.f.global_load_vector(lc),self.structure.f.supp_dofs)*self.scaling['N']
-            # a is a placeholder for the coefficient vector of a linear constraint """
-            a = np.zeros(nvars)
             for i, (b,pi) in enumerate(zip(B0,p)):
                 # The first 'nmem' variables are the cross-sectional areas.
                 #    Insert the current row of the statics matrix as the coefficient
                 #    vector.            
-                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,j)))
         
         # Constraints: compatibility and strength
         self.compatibility_constraints(B)
         self.strength_constraints()
                 
         
-        return lp
+        return self.milp
     
     def substitute_design(self,x):
         """ Substitutes the design in 'x' to the truss structure """
-- 
2.43.0


From eb7f61bff45781aea1b7cbb7a74c902f0a244851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 235/237] fix: linear constraints whose right hand side is a
 variable: coefficient missing in the linearisation

---
 metku/optimization/structopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index de1de7e..56cb8d2 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -410,7 +410,8 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[self.all_vars.index(var)]
+                    # The right hand side can be a variable, too
+                    dg[j] = con.a[self.all_vars.index(var)] - (con.b is var)
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
@@ -443,7 +444,7 @@ class OptimizationProblem:
     
     def free_linear_constraint(self, con, x):
         """ Linear constraint 'con' written for the free variables only """
-        a = [con.a[self.all_vars.index(var)] for var in self.vars]
+        a = [con.a[self.all_vars.index(var)] - (con.b is var) for var in self.vars]
 
         return LinearConstraint(a, np.dot(a, x) - con(x), con.type, con.name)
 
-- 
2.43.0


From e0944e9a3647cbf01ddb4e0398a568bf719358d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 236/237] fix: displacements at supports added after an
 analysis are reset

---
 metku/framefem/framefem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 8c22419..5116024 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -680,6 +680,9 @@ class FrameFEM:
             """
         elif support_method == 'REM':
             for i, lc in enumerate(lcase):                
+                # Supported dofs do not move
+                for node in self.nodes:
+                    node.u[lc][:] = 0.0
                 for ui, d in zip(u[:,i],self.glob_dofs):                
                     for node in self.nodes:
                         try:
@@ -754,6 +757,9 @@ class FrameFEM:
             node.u[free_dofs] = u[dofs[free_dofs]]
             """
         elif support_method == 'REM':
+            # Supported dofs do not move
+            for node in self.nodes:
+                node.u2[lcase][:] = 0.0
             for ui, d in zip(u2,self.glob_dofs):                
                 for node in self.nodes:
                     try:
-- 
2.43.0


From 1bfb2ea86ecb145971e500eddb2a94ed1789f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 237/237] fix: semi-rigid beams do not share the list of joint
 stiffnesses

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 08ae7ac..2ce59d8 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -60,6 +60,8 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
+        # Do not share the list with other elements
+        rot_stiff = list(rot_stiff)
         for i in range(2):
             if rot_stiff[i] <= kHinge:
                 rot_stiff[i] = kHinge
-- 
2.43.0

