From 4ef237506548f30deed4f7bacdfbe4b3c52fcf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 01/57] fix: split linearly varying member loads correctly
 between sub-members

The lambda giving the load intensity read w1 and w2 after they had been
reassigned, so the second end of a varying load on a sub-member was wrong.
---
 PyNite/PhysMember.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..459a9af 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -108,8 +108,9 @@ class PhysMember(Member3D):
                     w2 = dist_load[2]
                     case = dist_load[5]
 
-                    # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    # Equation describing the load as a function of x. The end magnitudes are bound
+                    # here because `w1` and `w2` are adjusted below.
+                    w = lambda x, w1=w1, w2=w2: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From 0dac04a753c09ef2c0a5d7654f3e561d16089d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 02/57] fix: report support spring reactions with the correct
 sign

A spring support pushes back against the displacement, so its reaction is
-k*d. Two-way and '+' springs were reported with the opposite sign, which broke
equilibrium of the reactions.
---
 PyNite/Analysis.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..57b9dbc 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -796,41 +796,29 @@ def _calc_reactions(model, log=False, combo_tags=None):
             
             # Calculate any reactions due to active spring supports at the node
             if node.spring_DX[0] != None and node.spring_DX[2] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
+                node.RxnFX[combo.name] -= k*DX
             if node.spring_DY[0] != None and node.spring_DY[2] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
+                node.RxnFY[combo.name] -= k*DY
             if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
+                node.RxnFZ[combo.name] -= k*DZ
             if node.spring_RX[0] != None and node.spring_RX[2] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
+                node.RxnMX[combo.name] -= k*RX
             if node.spring_RY[0] != None and node.spring_RY[2] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
+                node.RxnMY[combo.name] -= k*RY
             if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+                node.RxnMZ[combo.name] -= k*RZ
 
 def _check_statics(model, combo_tags=None):
     '''
-- 
2.43.0


From 408c56d5751567da7543379b32dac8fdaa14f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 03/57] fix: solve one-way support springs independently for
 every load combination

The active flags of one-way support springs were carried over from one load
combination (or one analysis) to the next, and the reactions of all the load
combinations were computed with the flags of the last one solved.
---
 PyNite/Analysis.py  | 43 +++++++++++++++++++++++++++++++++++++------
 PyNite/FEModel3D.py | 12 ++++++++++++
 PyNite/Node3D.py    |  3 +++
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 57b9dbc..3f0820c 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -40,6 +40,11 @@ def _prepare_model(model):
         for combo_name in model.load_combos.keys():
             phys_member.active[combo_name] = True
     
+    # Activate all support springs
+    for node in model.nodes.values():
+        node.spring_active = {}
+    _activate_support_springs(model)
+
     # Assign an internal ID to all nodes and elements in the model. This number is different from the name used by the user to identify nodes and elements.
     _renumber(model)
 
@@ -565,6 +570,32 @@ def _check_TC_convergence(model, combo_name="Combo 1", log=True, spring_toleranc
     # Return whether the TC analysis has converged
     return convergence
   
+def _activate_support_springs(model):
+    """Activates every support spring. Each load combination starts out with all of its one-way support springs active.
+
+    :param model: The finite element model being analyzed.
+    :type model: FEModel3D
+    """
+
+    for node in model.nodes.values():
+        for dof in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
+            spring = getattr(node, 'spring_' + dof)
+            if spring[0] is not None:
+                spring[2] = True
+
+def _store_support_springs(model, combo_name):
+    """Remembers which support springs ended up being active for a load combination.
+
+    :param model: The finite element model being analyzed.
+    :type model: FEModel3D
+    :param combo_name: The name of the load combination that has just been solved.
+    :type combo_name: str
+    """
+
+    for node in model.nodes.values():
+        for dof in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
+            node.spring_active[dof, combo_name] = getattr(node, 'spring_' + dof)[2]
+
 def _calc_reactions(model, log=False, combo_tags=None):
     """
     Calculates reactions internally once the model is solved.
@@ -795,27 +826,27 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
+            if node.spring_DX[0] != None and node.spring_active.get(('DX', combo.name), True) == True:
                 k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] -= k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
+            if node.spring_DY[0] != None and node.spring_active.get(('DY', combo.name), True) == True:
                 k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] -= k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
+            if node.spring_DZ[0] != None and node.spring_active.get(('DZ', combo.name), True) == True:
                 k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] -= k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
+            if node.spring_RX[0] != None and node.spring_active.get(('RX', combo.name), True) == True:
                 k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] -= k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
+            if node.spring_RY[0] != None and node.spring_active.get(('RY', combo.name), True) == True:
                 k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] -= k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
+            if node.spring_RZ[0] != None and node.spring_active.get(('RZ', combo.name), True) == True:
                 k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
                 node.RxnMZ[combo.name] -= k*RZ
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..5a106c4 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1956,6 +1956,9 @@ class FEModel3D():
                 print('')
                 print('- Analyzing load combination ' + combo.name)
 
+            # Every load combination starts out with all of its support springs active
+            Analysis._activate_support_springs(self)
+
             # Keep track of the number of iterations
             iter_count = 1
             convergence = False
@@ -2017,6 +2020,9 @@ class FEModel3D():
                 # Keep track of the number of tension/compression only iterations
                 iter_count += 1
 
+            # Remember which support springs were active for this load combination
+            Analysis._store_support_springs(self, combo.name)
+
         # Calculate reactions
         Analysis._calc_reactions(self, log, combo_tags)
 
@@ -2166,8 +2172,14 @@ class FEModel3D():
             # Get the partitioned global nodal force vector       
             P1, P2 = Analysis._partition(self, self.P(combo.name), D1_indices, D2_indices)
 
+            # Every load combination starts out with all of its support springs active
+            Analysis._activate_support_springs(self)
+
             # Run the P-Delta analysis for this load combination
             Analysis._PDelta_step(self, combo.name, P1, FER1, D1_indices, D2_indices, D2, log, sparse, check_stability, max_iter, True)
+
+            # Remember which support springs were active for this load combination
+            Analysis._store_support_springs(self, combo.name)
         
         # Calculate reactions
         Analysis._calc_reactions(self, log, combo_tags)
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..f5f5a52 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -53,6 +53,9 @@ class Node3D():
         self.spring_RY = [None, None, None]
         self.spring_RZ = [None, None, None]
 
+        # Which support springs were active in the last solution: {(dof, combo_name): True/False}
+        self.spring_active = {}
+
         # Initialize all enforced displacements to `None`
         self.EnforcedDX = None
         self.EnforcedDY = None
-- 
2.43.0


From 448d47540db67b89e31571874376ca4824a844d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 04/57] fix: find the extreme moment of a segment whose load is
 almost uniform

---
 PyNite/BeamSegY.py | 12 ++++++++----
 PyNite/BeamSegZ.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..dc8f375 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -132,8 +132,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # `a` can be vanishingly small, so use the form of the quadratic formula that avoids cancellation
+            q = -(b+(b**2-4*a*c)**0.5)/2 if b >= 0 else -(b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -178,8 +180,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # `a` can be vanishingly small, so use the form of the quadratic formula that avoids cancellation
+            q = -(b+(b**2-4*a*c)**0.5)/2 if b >= 0 else -(b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dda5869..714c3e0 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -316,8 +316,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # `a` can be vanishingly small, so use the form of the quadratic formula that avoids cancellation
+            q = -(b+(b**2-4*a*c)**0.5)/2 if b >= 0 else -(b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -361,8 +363,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # `a` can be vanishingly small, so use the form of the quadratic formula that avoids cancellation
+            q = -(b+(b**2-4*a*c)**0.5)/2 if b >= 0 else -(b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
-- 
2.43.0


From 5110e93a0585a65885426dc10ca8acbf068acc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 05/57] fix: include P-Delta effects in the maximum moment as
 in the minimum moment

---
 PyNite/BeamSegY.py | 8 ++++----
 PyNite/Member3D.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index dc8f375..36277cf 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -147,10 +147,10 @@ class BeamSegY(BeamSegZ):
             x2 = 0
     
         # Find the moment at each location of interest
-        M1 = self.moment(x1)
-        M2 = self.moment(x2)
-        M3 = self.moment(x3)
-        M4 = self.moment(x4)
+        M1 = self.moment(x1, P_delta)
+        M2 = self.moment(x2, P_delta)
+        M3 = self.moment(x3, P_delta)
+        M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
         return max(M1, M2, M3, M4)
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..894c039 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1023,9 +1023,9 @@ class Member3D():
 
                 for segment in self.SegmentsZ:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
                         
             if Direction == 'My':
                 
@@ -1033,9 +1033,9 @@ class Member3D():
 
                 for segment in self.SegmentsY:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
             
             return Mmax
         
-- 
2.43.0


From 36ca4223d945106c5d10ebcdcd648a55b69baf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 06/57] fix: read end forces and result arrays of physical
 members from their sub-members

---
 PyNite/PhysMember.py | 161 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 160 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 459a9af..8f27700 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, linspace, zeros, vstack, any
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -147,6 +147,74 @@ class PhysMember(Member3D):
             # Add the new sub-member to the sub-member dictionary for this physical member
             self.sub_members[name] = new_sub_member
     
+    def f(self, combo_name='Combo 1', push_combo='Push', step_num=1):
+        """
+        Returns the physical member's local end force vector for the given load combination: the forces at the i-end of
+        its first sub-member and at the j-end of its last sub-member.
+        """
+
+        # Before analysis there are no sub-members to read from
+        if self.sub_members == {}:
+            return super().f(combo_name, push_combo, step_num)
+
+        sub_members = list(self.sub_members.values())
+        f = zeros((12, 1))
+        f[0:6] = sub_members[0].f(combo_name, push_combo, step_num)[0:6]
+        f[6:12] = sub_members[-1].f(combo_name, push_combo, step_num)[6:12]
+
+        return f
+
+    def _result_array(self, method, args, n_points, combo_name, x_array):
+        """
+        Returns an array of locations and results along the physical member, by reading each location's result from the
+        sub-member it lies on.
+
+        Parameters
+        ----------
+        method : string
+            The name of the sub-member array method to use.
+        args : list
+            Leading arguments for the array method.
+        n_points : int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array
+            A custom array of x values that may be provided by the user, otherwise `None`.
+        """
+
+        L = self.L()
+
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        elif any(x_array < 0) or any(x_array > L):
+            raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        results = zeros(len(x_array))
+
+        if self.active[combo_name]:
+
+            # Track the start of each sub-member
+            start = 0
+            sub_members = list(self.sub_members.values())
+
+            for i, member in enumerate(sub_members):
+
+                end = start + member.L()
+
+                # Identify the points that lie on this sub-member
+                points = x_array >= start
+                if i != len(sub_members) - 1:
+                    points = points & (x_array < end)
+
+                if any(points):
+                    x_local = (x_array[points] - start).clip(0, member.L())
+                    results[points] = getattr(member, method)(*args, n_points, combo_name, x_local)[1]
+
+                start = end
+
+        return vstack((x_array, results))
+
     def shear(self, Direction, x, combo_name='Combo 1'):
         """
         Returns the shear at a point along the member's length.
@@ -208,6 +276,25 @@ class PhysMember(Member3D):
                 Vmin = V
         return Vmin
    
+    def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of shear in the physical member for the given direction.
+
+        Parameters
+        ----------
+        Direction : string
+            The direction to plot the shear for.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._result_array('shear_array', [Direction], n_points, combo_name, x_array)
+
     def moment(self, Direction, x, combo_name='Combo 1'):
         """
         Returns the moment at a point along the member's length
@@ -269,6 +356,25 @@ class PhysMember(Member3D):
                 Mmin = M
         return Mmin
 
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of moment in the physical member for the given direction.
+
+        Parameters
+        ----------
+        Direction : string
+            The direction to plot the moment for.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._result_array('moment_array', [Direction], n_points, combo_name, x_array)
+
     def torque(self, x, combo_name='Combo 1'):
         """
         Returns the torsional moment at a point along the member's length
@@ -310,6 +416,23 @@ class PhysMember(Member3D):
                 Tmin = T
         return Tmin
 
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of torque in the physical member.
+
+        Parameters
+        ----------
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._result_array('torque_array', [], n_points, combo_name, x_array)
+
     def axial(self, x, combo_name='Combo 1'):
         """
         Returns the axial force at a point along the member's length.
@@ -343,6 +466,23 @@ class PhysMember(Member3D):
                 Pmin = P
         return Pmin
 
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of axial force in the physical member.
+
+        Parameters
+        ----------
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._result_array('axial_array', [], n_points, combo_name, x_array)
+
     def deflection(self, Direction, x, combo_name='Combo 1'):
         """
         Returns the deflection at a point along the member's length.
@@ -401,6 +541,25 @@ class PhysMember(Member3D):
                 dmin = d
         return dmin
 
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of deflection in the physical member for the given direction.
+
+        Parameters
+        ----------
+        Direction : string
+            The direction to plot the deflection for.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._result_array('deflection_array', [Direction], n_points, combo_name, x_array)
+
     def rel_deflection(self, Direction, x, combo_name='Combo 1'):
         """
         Returns the relative deflection at a point along the member's length
-- 
2.43.0


From c9a63cc27177a1dbbdc215499f0d2607cc1fd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 07/57] fix: measure relative deflection of a physical member
 from the chord between its ends

---
 PyNite/PhysMember.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 8f27700..6b47b53 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -576,8 +576,39 @@ class PhysMember(Member3D):
             The name of the load combination to get the results for (not the combination itself).
         """
         
-        member, x_mod = self.find_member(x)
-        return member.rel_deflection(Direction, x_mod, combo_name)
+        return self.rel_deflection_array(Direction, 1, combo_name, array([x]))[1, 0]
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of relative deflections along the physical member, measured from the chord between its ends.
+
+        Parameters
+        ----------
+        Direction : string
+            The direction to find the relative deflections for. Must be 'dy' or 'dz'.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        x, deflections = self.deflection_array(Direction, n_points, combo_name, x_array)
+
+        # Inactive members have no deflections to report
+        if not self.active[combo_name]:
+            return vstack((x, deflections))
+
+        # Find the displacements of the physical member's ends
+        d = self.d(combo_name)
+        if Direction == 'dy':
+            di, dj = d[1, 0], d[7, 0]
+        else:
+            di, dj = d[2, 0], d[8, 0]
+
+        return vstack((x, deflections - (di + (dj - di)/self.L()*x)))
 
     def find_member(self, x):
         """
-- 
2.43.0


From 3d7d7274ffaf72ba8b3ff8b3899a73007b3c8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 08/57] fix: run P-Delta analysis with the dense solver

---
 PyNite/Analysis.py  | 4 ++--
 PyNite/FEModel3D.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 3f0820c..882f734 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -201,7 +201,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -309,7 +309,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 5a106c4..3c60bec 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1607,7 +1607,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From e5991c25f5788472b173e7974dfc626047af7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 09/57] fix: give deactivated tension/compression-only elements
 no stiffness forces

The end forces of an inactive member or spring were computed from displacements with only
the global X components removed, so elements that were not parallel to the global X axis
reported forces. Loads on an inactive member were applied to the structure but left out of
the support reactions.
---
 PyNite/Analysis.py | 4 ++--
 PyNite/Member3D.py | 4 ++++
 PyNite/Spring3D.py | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 882f734..d620347 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -669,7 +669,7 @@ def _calc_reactions(model, log=False, combo_tags=None):
                     # Sum the sub-member end forces at the node
                     for member in phys_member.sub_members.values():
                         
-                        if member.i_node == node and phys_member.active[combo.name] == True:
+                        if member.i_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
@@ -682,7 +682,7 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
                             if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
-                        elif member.j_node == node and phys_member.active[combo.name] == True:
+                        elif member.j_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 894c039..4c701b5 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -462,6 +462,10 @@ class Member3D():
         :rtype: array
         """
         
+        # A member that has been deactivated has no stiffness. It only passes its own loads on to the nodes at its ends.
+        if self.active.get(combo_name, True) == False:
+            return self.fer(combo_name)
+
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..1953a9b 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -80,6 +80,10 @@ class Spring3D():
             The name of the load combination to calculate the local end force vector for (not the load combination itself).
         '''
         
+        # A spring that has been deactivated carries no force
+        if self.active.get(combo_name, True) == False:
+            return zeros((12, 1))
+
         # Calculate and return the spring's local end force vector
         return matmul(self.k(), self.d(combo_name))
 
-- 
2.43.0


From 427a5633eb2b994f30ab111e386887a4a2b64cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 10/57] fix: discard reactions and the solution type of the
 previous analysis before analyzing again

Re-running a linear analysis after a P-Delta analysis computed the reactions with second
order end forces, and combinations that were not analyzed again kept their old reactions.
---
 PyNite/Analysis.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index d620347..1a0b35a 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -10,7 +10,10 @@ def _prepare_model(model):
     :type model: FEModel3D
     """
     
-    # Reset any nodal displacements
+    # The results of any previous analysis are about to be replaced
+    model.solution = None
+
+    # Reset any nodal displacements and reactions
     model._D = {}
     for node in model.nodes.values():
         node.DX = {}
@@ -19,6 +22,12 @@ def _prepare_model(model):
         node.RX = {}
         node.RY = {}
         node.RZ = {}
+        node.RxnFX = {}
+        node.RxnFY = {}
+        node.RxnFZ = {}
+        node.RxnMX = {}
+        node.RxnMY = {}
+        node.RxnMZ = {}
 
     # Ensure there is at least 1 load combination to solve if the user didn't define any
     if model.load_combos == {}:
-- 
2.43.0


From 2007f3cd1bbcbe078aca346d8d24ee564d18c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 11/57] fix: remove springs and mesh entries attached to a
 deleted node

The springs stayed in the model, so that the next analysis failed with an index error, and
meshes kept nodes and elements that no longer exist.
---
 PyNite/FEModel3D.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3c60bec..7a9c8c4 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -840,10 +840,16 @@ class FEModel3D():
         self.nodes.pop(node_name)
         
         # Find any elements attached to the node and remove them
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
+        # Remove the node and any elements that were attached to it from the meshes too
+        for mesh in self.meshes.values():
+            mesh.nodes = {name: node for name, node in mesh.nodes.items() if node.name != node_name}
+            mesh.elements = {name: element for name, element in mesh.elements.items() if node_name not in (element.i_node.name, element.j_node.name, element.m_node.name, element.n_node.name)}
+
         # Flag the model as unsolved
         self.solution = None
 
-- 
2.43.0


From d6c0b2c0f3f1316eda51d84168279796b8c3154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 12/57] fix: detach members from a deleted auxiliary node

The member's node object was compared with the name, which never matched.
---
 PyNite/FEModel3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 7a9c8c4..3d89be6 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -861,11 +861,11 @@ class FEModel3D():
         """
 
         # Remove the auxiliary node
-        self.aux_nodes.pop(auxnode_name)
+        aux_node = self.aux_nodes.pop(auxnode_name)
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is aux_node:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From 0cd741151762d5a35c6c50703872e01d37eae111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 13/57] fix: keep the loads and enforced displacements of
 merged nodes

---
 PyNite/FEModel3D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3d89be6..20050e1 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -799,6 +799,15 @@ class FEModel3D():
                     if value != [None, None, None]:
                         setattr(self.nodes[node_1_name], dof, value)
                 
+                # Merge any enforced displacements
+                enforced_disp = ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')
+                for dof in enforced_disp:
+                    if getattr(self.nodes[node_1_name], dof) is None:
+                        setattr(self.nodes[node_1_name], dof, getattr(self.nodes[node_2_name], dof))
+
+                # Merge any nodal loads
+                self.nodes[node_1_name].NodeLoads += self.nodes[node_2_name].NodeLoads
+
                 # Fix the mesh labels
                 for mesh in self.meshes.values():
 
-- 
2.43.0


From ceeab9cb2e2480e7bfcacea803320f594c3607e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 14/57] fix: compute quad pressure loads without relying on an
 earlier stiffness calculation

P-Delta analysis assembles the loads first and failed for models with pressure on quads.
---
 PyNite/Quad3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 3e228cf..f2b2ccb 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -666,6 +666,9 @@ class Quad3D():
                     # Sum the pressures
                     p -= factor*pressure[0]
         
+        # Make sure the local coordinates are up to date before evaluating the jacobian
+        self._local_coords()
+
         fer = (Hw(-gp, -gp).T*p*det(self.J(-gp, -gp))
              + Hw( gp, -gp).T*p*det(self.J( gp, -gp))
              + Hw( gp,  gp).T*p*det(self.J( gp,  gp))
-- 
2.43.0


From e30d98b642a79c0cc9989b78935d617109b9ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 15/57] fix: find a member's section under the name it was
 added to the model with

Sub-members looked the section up by the section's own name, which may be missing from the
model or belong to a different section.
---
 PyNite/PhysMember.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 6b47b53..d7f3238 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -79,7 +79,7 @@ class PhysMember(Member3D):
 
             # Create a new sub-member
             if self.section is None: section_name = None
-            else: section_name = self.section.name
+            else: section_name = next(key for key, section in self.model.sections.items() if section is self.section)
             new_sub_member = Member3D(name, i_node, j_node, self.material_name, self.model, self.Iy, self.Iz, self.J, self.A, self.auxNode, self.tension_only, self.comp_only, section_name)
             
             # Flag the sub-member as active
-- 
2.43.0


From d24dbb751c7bd1b295d312b5a6d22d35febd284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 16/57] fix: return the names of the nodes removed by merging

---
 PyNite/FEModel3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 20050e1..aa43b31 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -837,6 +837,9 @@ class FEModel3D():
         # Flag the model as unsolved
         self.solution = None
 
+        # Return the names of the removed nodes
+        return remove_list
+
     def delete_node(self, node_name):
         """Removes a node from the model. All nodal loads associated with the node and elements attached to the node will also be removed.
 
-- 
2.43.0


From b252bd6ccaf82381a7d3c99fbadaf1bb45743117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 17/57] fix: keep every object when renaming onto names already
 in use

---
 PyNite/FEModel3D.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index aa43b31..8d2a282 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2361,49 +2361,59 @@ class FEModel3D():
 
         # Rename each node in the model
         temp = self.nodes.copy()
+        self.nodes.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
+            self.nodes[new_key] = temp[old_key]
             self.nodes[new_key].name = new_key
             id += 1
         
         # Rename each spring in the model
         temp = self.springs.copy()
+        self.springs.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
+            self.springs[new_key] = temp[old_key]
             self.springs[new_key].name = new_key
             id += 1
 
         # Rename each member in the model
         temp = self.members.copy()
+        self.members.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
+            self.members[new_key] = temp[old_key]
             self.members[new_key].name = new_key
             id += 1
         
         # Rename each plate in the model
         temp = self.plates.copy()
+        self.plates.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
+            self.plates[new_key] = temp[old_key]
             self.plates[new_key].name = new_key
             id += 1
         
         # Rename each quad in the model
         temp = self.quads.copy()
+        self.quads.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
+            self.quads[new_key] = temp[old_key]
             self.quads[new_key].name = new_key
             id += 1
 
+        # Update the names the meshes know their nodes and elements by
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
+
     def orphaned_nodes(self):
         """
         Returns a list of the names of nodes that are not attached to any elements.
-- 
2.43.0


From 9dc63fdd09de5fcc848f1e180710fd7ce5da9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 18/57] fix: leave the caller's lists of mesh control points
 alone

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..cb0ef29 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -438,10 +438,10 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
-- 
2.43.0


From 9f813002c98671d44bc8e5e5015b1587f29b9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 19/57] fix: recognize mesh control points duplicating zero

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index cb0ef29..2f17d30 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -474,7 +474,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(x_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(x_control[i], x_control[i+1]):
+            if not isclose(x_control[i], x_control[i+1], abs_tol=1e-10):
                 unique_list.append(x_control[i])
         unique_list.append(x_control[-1])
         x_control = unique_list
@@ -483,7 +483,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(y_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(y_control[i], y_control[i+1]):
+            if not isclose(y_control[i], y_control[i+1], abs_tol=1e-10):
                 unique_list.append(y_control[i])
         unique_list.append(y_control[-1])
         y_control = unique_list
-- 
2.43.0


From 3f0ebb88ed77f36feb7e34fbc96dca4bfb677d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 20/57] fix: generate ungenerated meshes during analysis

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 1a0b35a..ac55bb1 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -36,7 +36,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all springs and members for all load combinations
-- 
2.43.0


From 1370add983d091a138344b9bd370ade2c24e916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 21/57] fix: mesh annuli that are narrower than the mesh size

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 2f17d30..4a8278f 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -811,7 +811,7 @@ class AnnulusMesh(Mesh):
         q = int(self.start_element[1:])
 
         circumf = 2*pi*r_inner           # Circumference of the ring at the inner radius
-        n_circ = int(circumf/mesh_size)  # Number of times `mesh_size` fits in the circumference
+        n_circ = max(int(circumf/mesh_size), 3)  # Number of times `mesh_size` fits in the circumference
         self.num_quads_outer = n_circ
 
         # Mesh the annulus from the inside toward the outside
@@ -820,7 +820,7 @@ class AnnulusMesh(Mesh):
             radial = r_outer - r_inner                    # Remaining length in the radial direction to be meshed
             circumf = 2*pi*r_inner                        # Circumference of the ring at the inner radius
             b_circ = circumf/n_circ                       # Element width in the circumferential direction
-            n_rad = int(radial/min(mesh_size, 3*b_circ))  # Number of times the plate width fits in the remaining unmeshed radial direction
+            n_rad = max(int(radial/min(mesh_size, 3*b_circ)), 1)  # Number of times the plate width fits in the remaining unmeshed radial direction
             h_rad = radial/n_rad                          # Element height in the radial direction
 
             # Determine if the mesh is getting too big. If so the mesh will need to transition to a
-- 
2.43.0


From bdc781fc9346b46bb3750073fa9db3dcc1b8c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 22/57] fix: measure the radius of frustrum meshes about their
 own axis

---
 PyNite/Mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 4a8278f..c17fd64 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1199,7 +1199,7 @@ class FrustrumMesh(AnnulusMesh):
         super().generate()
         
         Xo = self.origin[0]
-        Yo = self.origin[1]  # Not used
+        Yo = self.origin[1]
         Zo = self.origin[2]
 
         # Adjust the cooridnates of each node to make a frustrum
@@ -1207,12 +1207,14 @@ class FrustrumMesh(AnnulusMesh):
             X = node.X
             Y = node.Y
             Z = node.Z
-            r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
             if self.axis == 'Y':
+                r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
                 node.Y += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'X':
+                r = ((Y - Yo)**2 + (Z - Zo)**2)**0.5
                 node.X += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'Z':
+                r = ((X - Xo)**2 + (Y - Yo)**2)**0.5
                 node.Z += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             else:
                 raise Exception('Invalid axis specified for frustrum mesh.')
-- 
2.43.0


From dff54f27fd37575289073855fae1141e88b88d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 23/57] fix: generate cylinder meshes at their origin with
 their full height

---
 PyNite/Mesh.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index c17fd64..4109f28 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1302,6 +1302,7 @@ class CylinderMesh(Mesh):
         h = self.h
 
         # Set the cylinder base's local y-coordinate
+        Xo, Yo, Zo = self.origin
         if self.axis == 'Y':
             y = self.origin[1]  
         elif self.axis == 'X':
@@ -1309,6 +1310,9 @@ class CylinderMesh(Mesh):
         elif self.axis == 'Z':
              y = self.origin[2]
 
+        # Set the local y-coordinate of the top of the cylinder
+        h += y
+
         n = int(self.start_node[1:])
         q = int(self.start_element[1:])
 
@@ -1327,11 +1331,11 @@ class CylinderMesh(Mesh):
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From 239d3dc489b63aedf8db888e9348f97bee5202bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 24/57] fix: pass the stiffness modifiers of cylinder meshes to
 their elements

---
 PyNite/Mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 4109f28..fe2af2a 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1331,11 +1331,11 @@ class CylinderMesh(Mesh):
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From de350bbd13acbd43c8f9540282d7e9da0ccb4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 25/57] fix: close cylinder meshes with at least three elements

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index fe2af2a..d5e3bae 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1277,7 +1277,7 @@ class CylinderMesh(Mesh):
         # Check if the user has requested a specific number of elements for each course of plates. This can be useful for ensuring the mesh matches up with other meshes.
         if num_elements == None:
             # Calculate the number of elements if the user hasn't specified
-            self.num_elements = int(round(2*pi*radius/mesh_size, 0))
+            self.num_elements = max(int(round(2*pi*radius/mesh_size, 0)), 3)
         else:
             # Use the user specified number of elements
             self.num_elements = num_elements
-- 
2.43.0


From 6443eca22daaf5d997664ef79924b55f0a14e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 26/57] fix: compare elements with elements in the mesh
 integrity check and print all errors

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index d5e3bae..712700d 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1626,7 +1626,7 @@ def check_mesh_integrity(mesh, console_log=True):
     # Check that each element in the mesh is in the model
     count = 0
     for element in mesh.elements.values():
-        if element not in mesh.model.plates.values() and element.name not in mesh.model.quads.values():
+        if element not in mesh.model.plates.values() and element not in mesh.model.quads.values():
             count += 1
     
     if count != 0:
@@ -1677,6 +1677,6 @@ def check_mesh_integrity(mesh, console_log=True):
     if console_log == True:
         for error in errors:
             print(error)
-            return ''
+        return ''
     else:
         return errors
-- 
2.43.0


From a8b2f86582677e9972012835fab20cad860c2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 27/57] fix: generate meshes without overwriting existing nodes
 and elements or duplicating earlier ones

---
 PyNite/Mesh.py | 99 +++++++++++++++++++++++---------------------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 712700d..b13d552 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -29,6 +29,32 @@ class Mesh():
     def is_generated(self):
         return self._is_generated
     
+    def _discard(self):
+        """Takes the nodes and elements of an earlier generation of the mesh out of the mesh and its model
+        """
+
+        # Remove the elements
+        for element in self.elements.values():
+            for elements in (self.model.quads, self.model.plates):
+                if elements.get(element.name) is element: del elements[element.name]
+
+        # Identify the nodes that other elements are attached to
+        used = set()
+        for elements in (self.model.springs, self.model.members, self.model.plates, self.model.quads):
+            for element in elements.values():
+                for node_type in ('i_node', 'j_node', 'm_node', 'n_node'):
+                    used.add(id(getattr(element, node_type, None)))
+
+        # Remove the nodes that are not being used by anything else
+        for node in self.nodes.values():
+            if self.model.nodes.get(node.name) is node and id(node) not in used: del self.model.nodes[node.name]
+
+        self.nodes = {}
+        self.elements = {}
+
+        # Flag the model as unsolved
+        self.model.solution = None
+
     def _rename_duplicates(self):
         """Renames any nodes or elements in the mesh that are already in the model
         """
@@ -448,6 +474,9 @@ class RectangleMesh(Mesh):
     
     def generate(self):
 
+        # Discard anything left over from generating this mesh before
+        self._discard()
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
@@ -803,7 +832,10 @@ class AnnulusMesh(Mesh):
         # self.generate()
     
     def generate(self):
-        
+
+        # Discard anything left over from generating this mesh before
+        self._discard()
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -863,17 +895,10 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
+        # Add the nodes and elements to the model, renaming any that have names that are already
+        # being used
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -988,17 +1013,6 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1166,16 +1180,6 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1289,7 +1293,10 @@ class CylinderMesh(Mesh):
         self.generate()
     
     def generate(self):
-        
+
+        # Discard anything left over from generating this mesh before
+        self._discard()
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
@@ -1354,16 +1361,10 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
+        # Add the nodes and elements to the model, renaming any that have names that are already
+        # being used
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1537,16 +1538,6 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-            
         # Flag the mesh as generated
         self._is_generated = True
         
-- 
2.43.0


From b5328be0f1027c09d104e3fd1f24c6c41996b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 28/57] fix: report plate twisting moments that match the
 plate's twisting stiffness

---
 PyNite/Plate3D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index a870d03..0c15cac 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -113,9 +113,9 @@ class Plate3D():
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-        Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex, 0],
-                                                [nu_xy*Ey,    Ey,    0],
-                                                [   0,        0,     G]])
+        Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex,            0             ],
+                                                [nu_xy*Ey,    Ey,               0             ],
+                                                [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Db]
         return Db
-- 
2.43.0


From b44b3e59f2fa72ed89154e0b50b7a2ebddba4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 29/57] fix: report plate moments and shears that match the
 plate's bending stiffness

---
 PyNite/Plate3D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index 0c15cac..d81b529 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -101,15 +101,16 @@ class Plate3D():
 
     def Db(self):
         """
-        Returns the bending constitutive matrix for orthotropic materials [Db]
+        Returns the bending constitutive matrix [Db]
         """
 
-        # Get the plate thickness and other material parameters
+        # Get the plate thickness and other material parameters. The stiffness modification factors
+        # are for in-plane stiffness only, and do not affect the bending stiffness (see `k_b`).
         t = self.t
         nu_xy = self.nu
         nu_yx = self.nu
-        Ex = self.E*self.kx_mod
-        Ey = self.E*self.ky_mod
+        Ex = self.E
+        Ey = self.E
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-- 
2.43.0


From d3ca1b321224a403bc6deaf757bcd8c7030b5703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 30/57] fix: keep the membrane stiffness of orthotropic plates
 and quads symmetric

---
 PyNite/Plate3D.py |  8 ++++++--
 PyNite/Quad3D.py  | 10 +++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index d81b529..3539438 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -87,13 +87,17 @@ class Plate3D():
         nu_xy = self.nu
         nu_yx = self.nu
 
+        # The off-diagonal terms must be equal in order to keep the constitutive matrix (and the
+        # stiffness matrix) symmetric
+        Exy = (Ex*Ey)**0.5
+
         # The shear modulus will be unafected by orthotropic behavior
         # Logan, Appendix C.3, page 750
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Dm]
-        Dm = 1/(1 - nu_xy*nu_yx)*array([[   Ex,    nu_yx*Ex,            0             ],
-                                        [nu_xy*Ey,    Ey,               0             ],
+        Dm = 1/(1 - nu_xy*nu_yx)*array([[   Ex,   nu_yx*Exy,            0             ],
+                                        [nu_xy*Exy,   Ey,               0             ],
                                         [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Dm]
diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index f2b2ccb..1f8f935 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -432,14 +432,18 @@ class Quad3D():
         nu_xy = self.nu
         nu_yx = self.nu
 
+        # The off-diagonal terms must be equal in order to keep the constitutive matrix (and the
+        # stiffness matrix) symmetric
+        Exy = (Ex*Ey)**0.5
+
         # The shear modulus will be unafected by orthotropic behavior
         # Logan, Appendix C.3, page 750
         G = self.E/(2*(1 + self.nu))
 
         # Gallagher, Equation 9.3, page 251
-        Cm = 1/(1 - nu_xy*nu_yx)*np.array([[   Ex,    nu_yx*Ex,           0         ],
-                                           [nu_xy*Ey,    Ey,              0         ],
-                                           [    0,        0,     (1 - nu_xy*nu_yx)*G]])
+        Cm = 1/(1 - nu_xy*nu_yx)*np.array([[   Ex,   nu_yx*Exy,           0         ],
+                                           [nu_xy*Exy,   Ey,              0         ],
+                                           [    0,         0,     (1 - nu_xy*nu_yx)*G]])
         
         return Cm
 
-- 
2.43.0


From 7af5e670ae2d436d71f5aa577d80b43a8ff0d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 31/57] fix: include axial point loads in the axial force used
 for weak axis P-Delta moments

---
 PyNite/Member3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 4c701b5..75d040a 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -2040,6 +2040,7 @@ class Member3D():
                     
                         if ptLoad[0] == 'Fx':
                             SegmentsZ[i].P1 += factor*ptLoad[1]
+                            SegmentsY[i].P1 += factor*ptLoad[1]
                         elif ptLoad[0] == 'Fy':
                             SegmentsZ[i].V1 += factor*ptLoad[1]
                             SegmentsZ[i].M1 -= factor*ptLoad[1]*(x - ptLoad[2])
@@ -2059,6 +2060,7 @@ class Member3D():
                             if ptLoad[0] == 'FZ': FZ = 1
                             force = self.T()[:3, :][:, :3] @ array([FX*ptLoad[1], FY*ptLoad[1], FZ*ptLoad[1]])
                             SegmentsZ[i].P1 += factor*force[0]
+                            SegmentsY[i].P1 += factor*force[0]
                             SegmentsZ[i].V1 += factor*force[1]
                             SegmentsZ[i].M1 -= factor*force[1]*(x - ptLoad[2])
                             SegmentsY[i].V1 += factor*force[2]
-- 
2.43.0


From fab776ee75f3951855e3484cc44a67042de3878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 32/57] fix: P-Delta member moments and deflections that match
 the displaced nodes

---
 PyNite/BeamSegY.py | 50 +++++++--------------------------
 PyNite/BeamSegZ.py | 70 ++++++++++++++++++----------------------------
 PyNite/Member3D.py | 48 +++++++++++++++++++++++++++++--
 3 files changed, 82 insertions(+), 86 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 36277cf..3ee78c3 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -17,7 +17,6 @@ class BeamSegY(BeamSegZ):
 
         V1 = self.V1
         M1 = self.M1
-        P1 = self.P1
         w1 = self.w1
         w2 = self.w2
         L = self.Length()
@@ -27,8 +26,8 @@ class BeamSegY(BeamSegZ):
         
         if P_delta == True:
             delta1 = self.delta1
-            delta = self.deflection(x)
-            M += P1*(delta - delta1)
+            delta = self.deflection(x, P_delta)
+            M += self.PD1 + self.P_avg*(delta - delta1)
         
         return M
 
@@ -45,7 +44,6 @@ class BeamSegY(BeamSegZ):
         
         V1 = self.V1
         M1 = self.M1
-        P1 = self.P1
         w1 = self.w1
         w2 = self.w2
         theta_1 = self.theta1
@@ -53,12 +51,11 @@ class BeamSegY(BeamSegZ):
         L = self.Length()
         EI = self.EI
         
+        # The axial force acting on the sloped chord of the member takes part of the shear
         if P_delta == True:
-            delta_x = self.deflection(x, P_delta)
-            delta_1 = self.delta1
-            return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1 - P1*delta_1 + P1*delta_x) + x**4*(w1 - w2)/(24*L))/EI
-        else:
-            return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1) + x**4*(w1 - w2)/(24*L))/EI
+            V1 = V1 - self.P_avg*self.chord
+
+        return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1) + x**4*(w1 - w2)/(24*L))/EI
 
 #%%
     # Returns the deflection at a location on the segment
@@ -66,46 +63,19 @@ class BeamSegY(BeamSegZ):
         
         V1 = self.V1
         M1 = self.M1
-        P1 = self.P1
         w1 = self.w1
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
     
-        # Iteration is required to calculate P-little-delta effects
+        # The axial force acting on the sloped chord of the member takes part of the shear
         if P_delta == True:
+            V1 = V1 - self.P_avg*self.chord
 
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
-
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1 - P1*delta_1 + P1*delta_x)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
-
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
-        
-        # Non-P-delta solutions are not iterative
-        else:
-
-            # Return the calcuated deflection
-            return delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
+        # Return the calcuated deflection
+        return delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
     
 #%%
     # Returns the maximum moment in the segment
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 714c3e0..dcc9b64 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -40,6 +40,12 @@ class BeamSegZ():
       The transverse displacement at the start of the segment
     delta_x1 : number
       The axial displacement at the start of the segment
+    chord : number
+      The slope (radians) of the chord between the displaced ends of the member
+    P_avg : number
+      The average axial force in the member, which P-Delta effects are based on
+    PD1 : number
+      The P-little-delta moment at the start of the segment
     EI : number
       The flexural stiffness of the segment
     EA : number
@@ -78,6 +84,9 @@ class BeamSegZ():
         self.theta1 = None # Slope at start of beam segment
         self.delta1 = None # Displacement at start of beam segment
         self.delta_x1 = None # Axial displacement at start of beam segment
+        self.chord = 0 # Slope of the chord between the ends of the displaced member
+        self.P_avg = 0 # Average axial force in the member
+        self.PD1 = 0 # P-little-delta moment at start of beam segment
         self.EI = None # Flexural stiffness of the beam segment
         self.EA = None # Axial stiffness of the beam segment
 
@@ -104,7 +113,6 @@ class BeamSegZ():
 
         V1 = self.V1
         M1 = self.M1
-        P1 = self.P1
         w1 = self.w1
         w2 = self.w2
         L = self.Length()
@@ -114,8 +122,8 @@ class BeamSegZ():
         # Include the P-little-delta moment if a P-Delta analysis was run
         if P_delta == True:
             delta_1 = self.delta1
-            delta_x = self.deflection(x)
-            M += P1*(delta_x - delta_1)
+            delta_x = self.deflection(x, P_delta)
+            M += self.PD1 + self.P_avg*(delta_x - delta_1)
         
         # Return the computed moment
         return M
@@ -130,6 +138,13 @@ class BeamSegZ():
         
         return P1 + (p2 - p1)/(2*L)*x**2 + p1*x
 
+    # Returns the average axial force in the segment
+    def axial_avg(self):
+
+        L = self.Length()
+
+        return self.P1 + self.p1*L/2 + (self.p2 - self.p1)*L/6
+
     def Torsion(self, x = 0):
         """
         Returns the torsional moment in the segment.
@@ -158,20 +173,17 @@ class BeamSegZ():
         
         V1 = self.V1
         M1 = self.M1
-        P1 = self.P1
         w1 = self.w1
         w2 = self.w2
         theta_1 = self.theta1
         L = self.Length()
         EI = self.EI
 
-        theta_x = theta_1 - (-V1*x**2/2 - w1*x**3/6 + x*M1 + x**4*(w1 - w2)/(24*L))/EI
-        theta_x = theta_1 - (-V1*x**2/2 - w1*x**3/6 + x*M1 + x**4*(w1 - w2)/(24*L))/EI
-
+        # The axial force acting on the sloped chord of the member takes part of the shear
         if P_delta == True:
-            delta_1 = self.delta1
-            delta_x = self.deflection(x, P_delta)
-            theta_x -= x*(-P1*delta_1 + P1*delta_x)/EI
+            V1 = V1 - self.P_avg*self.chord
+
+        theta_x = theta_1 - (-V1*x**2/2 - w1*x**3/6 + x*M1 + x**4*(w1 - w2)/(24*L))/EI
         
         # TODO: This is an old equation left for reference. Delete it after the new equation has been proved over time.
         # return theta_1 - (M1*x - V1*x**2/2 - w1*x**3/6 + x**4*(w1 - w2)/(24*L))/(EI)
@@ -184,48 +196,20 @@ class BeamSegZ():
         
         V1 = self.V1
         M1 = self.M1
-        P1 = self.P1
         w1 = self.w1
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
         
-        # Iteration is required to calculate P-little-delta effects
+        # The axial force acting on the sloped chord of the member takes part of the shear
         if P_delta == True:
+            V1 = V1 - self.P_avg*self.chord
 
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
-
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                # delta_x = delta1 + theta1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta_1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
-        
-        # Non-P-delta solutions are not iterative
-        else:
-
-            # Return the calcuated deflection
-            # return delta1 + theta1*x - M1*x**2/(2*EI) + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**5*(-w1 + w2)/(120*EI*L)
-            return delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
+        # Return the calcuated deflection
+        # return delta1 + theta1*x - M1*x**2/(2*EI) + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**5*(-w1 + w2)/(120*EI*L)
+        return delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
 
     def AxialDeflection(self, x):
 
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 75d040a..473eb75 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1584,12 +1584,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return segment.deflection(x - segment.x1)
+                        return segment.deflection(x - segment.x1, P_delta)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsY) - 1
-                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1) 
+                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1, P_delta)
         
         else:
 
@@ -2184,7 +2184,49 @@ class Member3D():
 
                                 SegmentsY[i].V1 += (f1[2] + f2[2])/2*(x2 - x1)
                                 SegmentsY[i].M1 += (x1 - x2)*(2*f1[2]*x1 - 3*f1[2]*x + f1[2]*x2 + f2[2]*x1 - 3*f2[2]*x + 2*f2[2]*x2)/6
-                            
+
+        # Account for the axial force acting on the displaced shape of the member
+        if self.model.solution == 'P-Delta' or self.model.solution == 'Pushover':
+            self._add_P_delta_effects(SegmentsZ, delta2y, 1)
+            self._add_P_delta_effects(SegmentsY, delta2z, -1)
+
+    def _add_P_delta_effects(self, segments, delta2, sign):
+        """
+        Adds the moments caused by the axial force acting on the displaced shape of the member to the start of each segment, and corrects the slopes and deflections at the start of each segment.
+
+        :param segments: The segments for one of the member's bending directions.
+        :type segments: list
+        :param delta2: The transverse displacement at the end of the member.
+        :type delta2: float
+        :param sign: 1 for segments bending about the local z-axis, and -1 for segments bending about the local y-axis.
+        :type sign: int
+        """
+
+        # P-Delta effects are based on the average axial force in the member, just like its geometric stiffness
+        P = sum(segment.axial_avg()*segment.Length() for segment in segments)/self.L()
+
+        # The axial force acts along the chord between the ends of the displaced member. Add the moments this causes at the start of each segment.
+        chord = (delta2 - segments[0].delta1)/self.L()
+        for segment in segments:
+            segment.P_avg = P
+            segment.chord = chord
+            segment.M1 += sign*P*chord*segment.x1
+
+        # Find the slopes and deflections at the start of each segment. The slope at the start of the member is corrected so that the deflected shape ends at the displaced end of the member.
+        for correct_slope in [True, False]:
+
+            for prior, segment in zip(segments[:-1], segments[1:]):
+                segment.theta1 = prior.slope(prior.Length(), True)
+                segment.delta1 = prior.deflection(prior.Length(), True)
+
+            if correct_slope:
+                error = delta2 - segments[-1].deflection(segments[-1].Length(), True)
+                segments[0].theta1 += sign*error/self.L()
+
+        # Add the moments caused by the axial force acting on the deflections between the chord and the deflected shape at the start of each segment
+        for segment in segments:
+            segment.PD1 = P*(segment.delta1 - segments[0].delta1 - chord*segment.x1)
+
     def _extract_vector_results(self, segments, x_array, result_name, P_delta=False):
         """Extract results from the given segments using vectorised numpy functions"""
         
-- 
2.43.0


From e0bf9f05427ce7a924c20e2eebe47e5cc8516b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 33/57] fix: P-Delta analysis of models with axially released
 members

---
 PyNite/Member3D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 473eb75..032600d 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -208,7 +208,8 @@ class Member3D():
                
         # Calculate the condensed local geometric stiffness matrix
         # Note that a matrix of zeros cannot be inverted, so if P is 0 an error will occur
-        if isclose(P, 0.0):
+        # A member that is released axially carries no axial force between its ends, so it has no geometric stiffness either
+        if isclose(P, 0.0) or self.Releases[0] or self.Releases[6]:
             kg_Condensed = zeros(kg11.shape)
         else:
             kg_Condensed = subtract(kg11, matmul(matmul(kg12, inv(kg22)), kg21))
-- 
2.43.0


From acb4792fb0f39ae4973920836550c1a301378fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 34/57] fix: P-Delta analysis of models whose displacements are
 all known

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index ac55bb1..7a138f6 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -221,7 +221,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
-- 
2.43.0


From 82d25b0095c64528c5e0be7448a9f4c1056c7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 35/57] fix: condense the geometric stiffness of released
 members with their released shape

---
 PyNite/Member3D.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 032600d..29c91da 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -207,12 +207,14 @@ class Member3D():
         kg11, kg12, kg21, kg22 = self._partition(kg)
                
         # Calculate the condensed local geometric stiffness matrix
-        # Note that a matrix of zeros cannot be inverted, so if P is 0 an error will occur
         # A member that is released axially carries no axial force between its ends, so it has no geometric stiffness either
         if isclose(P, 0.0) or self.Releases[0] or self.Releases[6]:
             kg_Condensed = zeros(kg11.shape)
         else:
-            kg_Condensed = subtract(kg11, matmul(matmul(kg12, inv(kg22)), kg21))
+            # The released ends move with the member as its elastic stiffness dictates
+            k11, k12, k21, k22 = self._partition(self._k_unc())
+            t = -matmul(inv(k22), k21)
+            kg_Condensed = kg11 + matmul(kg12, t) + matmul(t.T, kg21) + matmul(matmul(t.T, kg22), t)
         
         # Expand the condensed local geometric stiffness matrix
         i=0
-- 
2.43.0


From f0ae622bbadc30c0039047691cdf7b962fa2bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:30 +0000
Subject: [PATCH 36/57] fix: find P-Delta moment peaks away from the points of
 zero shear

---
 PyNite/BeamSegY.py | 18 ++++++++++++++++--
 PyNite/BeamSegZ.py | 30 +++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 3ee78c3..4b277e4 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -122,8 +122,15 @@ class BeamSegY(BeamSegZ):
         M3 = self.moment(x3, P_delta)
         M4 = self.moment(x4, P_delta)
     
+        # List the moments at each location of interest
+        moments = [M1, M2, M3, M4]
+
+        # P-little-delta effects can shift the peak moment away from the points of zero shear
+        if P_delta == True:
+            moments += [self.moment(x, P_delta) for x in self.P_delta_peaks()]
+
         # Return the maximum moment
-        return max(M1, M2, M3, M4)
+        return max(moments)
 
 #%%
     # Returns the minimum moment in the segment
@@ -170,6 +177,13 @@ class BeamSegY(BeamSegZ):
         M3 = self.moment(x3, P_delta)
         M4 = self.moment(x4, P_delta)
     
+        # List the moments at each location of interest
+        moments = [M1, M2, M3, M4]
+
+        # P-little-delta effects can shift the peak moment away from the points of zero shear
+        if P_delta == True:
+            moments += [self.moment(x, P_delta) for x in self.P_delta_peaks()]
+
         # Return the minimum moment
-        return min(M1, M2, M3, M4)
+        return min(moments)
     
\ No newline at end of file
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dcc9b64..1d1fbd0 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -4,7 +4,7 @@ Created on Mon Nov  6 20:52:31 2017
 
 @author: D. Craig Brinck, SE
 """
-from numpy import full, array
+from numpy import full, array, linspace, polyfit, polyder, roots
 
 # %%
 # A mathematically continuous beam segment
@@ -320,8 +320,25 @@ class BeamSegZ():
         M3 = self.moment(x3, P_delta)
         M4 = self.moment(x4, P_delta)
     
+        # List the moments at each location of interest
+        moments = [M1, M2, M3, M4]
+
+        # P-little-delta effects can shift the peak moment away from the points of zero shear
+        if P_delta == True:
+            moments += [self.moment(x, P_delta) for x in self.P_delta_peaks()]
+
         # Return the maximum moment
-        return max(M1, M2, M3, M4)
+        return max(moments)
+
+    # Returns the locations where the moment in the segment peaks when P-little-delta effects are included
+    def P_delta_peaks(self):
+
+        # The moment, including P-little-delta effects, varies along the segment as a 5th degree polynomial
+        x = linspace(0, 1, 6)
+        coefficients = polyfit(x, self.moment(x*self.Length(), True), 5)
+
+        # The moment peaks where its derivative is zero
+        return [x.real*self.Length() for x in roots(polyder(coefficients)) if abs(x.imag) < 1e-6 and 0 <= x.real <= 1]
 
     # Returns the minimum moment in the segment
     def min_moment(self, P_delta=False):
@@ -367,8 +384,15 @@ class BeamSegZ():
         M3 = self.moment(x3, P_delta)
         M4 = self.moment(x4, P_delta)
     
+        # List the moments at each location of interest
+        moments = [M1, M2, M3, M4]
+
+        # P-little-delta effects can shift the peak moment away from the points of zero shear
+        if P_delta == True:
+            moments += [self.moment(x, P_delta) for x in self.P_delta_peaks()]
+
         # Return the minimum moment
-        return min(M1, M2, M3, M4)
+        return min(moments)
 
     # Returns the maximum axial force in the segment
     def max_axial(self):
-- 
2.43.0


From 4896059713d1893ef3cd4e9019bf29e574fcec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 37/57] fix: refuse unstable structures instead of reporting
 meaningless displacements

---
 PyNite/Analysis.py  | 58 ++++++++++++++++++++++++++++++++++-----------
 PyNite/FEModel3D.py | 27 ++++-----------------
 2 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 7a138f6..47eeea3 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
-from math import isclose
+from math import isclose, sin, cos
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, hstack
 from numpy.linalg import solve
 
 def _prepare_model(model):
@@ -138,6 +138,44 @@ def _check_stability(model, K):
 
     return
 
+def _solve_displacements(K11, F1):
+    """Solves for the unknown displacements in a model.
+
+    :param K11: The partitioned stiffness matrix for the unknown displacements. Can be sparse or dense.
+    :type K11: matrix or array
+    :param F1: The forces acting at the unknown displacements.
+    :type F1: array
+    :raises ValueError: Occurs when the stiffness matrix is singular, which indicates an unstable structure.
+    :return: A column vector of displacements.
+    :rtype: array
+    """
+
+    # The equations are scaled to be independent of the units being used
+    scale = abs(K11.diagonal()).reshape(-1, 1)**0.5
+    if not scale.all():
+        raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
+
+    # Due to rounding the stiffness matrix of an unstable structure is usually not perfectly singular. Such structures can still be identified by their nearly unlimited response to a few arbitrary test loads.
+    n = K11.shape[0]
+    tests = scale*array([[cos(i**2), sin(i**2), cos(i)] for i in range(1, n + 1)])
+
+    # Solve for the displacements
+    if hasattr(K11, 'tocsr'):
+        # The `scipy` features are only needed if the sparse solver is being used
+        from scipy.sparse.linalg import spsolve
+        D1 = spsolve(K11.tocsr(), hstack((F1, tests)))
+    else:
+        D1 = solve(K11, hstack((F1, tests)))
+
+    # Find the largest scaled response to the loads and to the test loads. A structure that is unstable in a way that the loads don't set in motion still has a valid solution. Note that comparisons to `nan` values return `False`.
+    response = abs(scale*D1)
+    stable = response[:, 1:].max() < 1e12
+    excited = not response[:, 0].max() <= 1e8*abs(F1/scale).max()
+    if excited and not stable:
+        raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
+
+    return D1[:, :1]
+
 def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=True, sparse=True, check_stability=False, max_iter=30, first_step=True):
     """Performs second order (P-Delta) analysis. This type of analysis is appropriate for most models using beams, columns and braces. Second order analysis is usually required by material-specific codes. The analysis is iterative and takes longer to solve. Models with slender members and/or members with combined bending and axial loads will generally have more significant P-Delta effects. P-Delta effects in plates/quads are not considered.
 
@@ -159,10 +197,6 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
     :raises Exception: Occurs when a model fails to converge.
     """
 
-    # Import `scipy` features if the sparse solver is being used
-    if sparse == True:
-        from scipy.sparse.linalg import spsolve
-
     iter_count_TC = 1    # Tracks tension/compression-only iterations
     iter_count_PD = 1    # Tracks P-Delta iterations
 
@@ -228,12 +262,11 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 if sparse == True:
                     # The partitioned stiffness matrix is already in `csr` format. The `@`
                     # operator performs matrix multiplication on sparse matrices.
-                    Delta_D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
-                    Delta_D1 = Delta_D1.reshape(len(Delta_D1), 1)
+                    Delta_D1 = _solve_displacements(K11, subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                 else:
                     # The partitioned stiffness matrix is in `csr` format. It will be
                     # converted to a 2D dense array for mathematical operations.
-                    Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                    Delta_D1 = _solve_displacements(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
             except:
                 # Return out of the method if 'K' is singular and provide an error message
@@ -289,8 +322,6 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
         # Sparse solver
         if sparse == True:
 
-            from scipy.sparse.linalg import spsolve
-            
             # Calculate the initial stiffness matrix
             K11, K12, K21, K22 = _partition(model, model.K(combo_name, log, check_stability, sparse).tolil(), D1_indices, D2_indices)
 
@@ -339,12 +370,11 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
                 if sparse == True:
                     # The partitioned stiffness matrix is already in `csr` format. The `@`
                     # operator performs matrix multiplication on sparse matrices.
-                    Delta_D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
-                    Delta_D1 = Delta_D1.reshape(len(Delta_D1), 1)
+                    Delta_D1 = _solve_displacements(K11, subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                 else:
                     # The partitioned stiffness matrix is in `csr` format. It will be
                     # converted to a 2D dense array for mathematical operations.
-                    Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                    Delta_D1 = _solve_displacements(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
             except:
                 # Return out of the method if 'K' is singular and provide an error message
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 8d2a282..dfa2b04 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -4,7 +4,6 @@ import warnings
 from math import isclose
 
 from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all
-from numpy.linalg import solve
 
 from PyNite.Node3D import Node3D
 from PyNite.Material import Material
@@ -1954,10 +1953,6 @@ class FEModel3D():
             print('| Analyzing |')
             print('+-----------+')
 
-        # Import `scipy` features if the sparse solver is being used
-        if sparse == True:
-            from scipy.sparse.linalg import spsolve
-
         # Prepare the model for analysis
         Analysis._prepare_model(self)
 
@@ -2015,10 +2010,9 @@ class FEModel3D():
                             # for memory, but slow for mathematical operations. The stiffness
                             # matrix will be converted to `csr` format for mathematical operations.
                             # The `@` operator performs matrix multiplication on sparse matrices.
-                            D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
-                            D1 = D1.reshape(len(D1), 1)
+                            D1 = Analysis._solve_displacements(K11, subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                         else:
-                            D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                            D1 = Analysis._solve_displacements(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
                     except:
                         # Return out of the method if 'K' is singular and provide an error message
                         raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
@@ -2075,10 +2069,6 @@ class FEModel3D():
             print('| Analyzing: Linear |')
             print('+-------------------+')
         
-        # Import `scipy` features if the sparse solver is being used
-        if sparse == True:
-            from scipy.sparse.linalg import spsolve
-
         # Prepare the model for analysis
         Analysis._prepare_model(self)
 
@@ -2122,10 +2112,9 @@ class FEModel3D():
                         # for memory, but slow for mathematical operations. The stiffness
                         # matrix will be converted to `csr` format for mathematical operations.
                         # The `@` operator performs matrix multiplication on sparse matrices.
-                        D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
-                        D1 = D1.reshape(len(D1), 1)
+                        D1 = Analysis._solve_displacements(K11, subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                     else:
-                        D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                        D1 = Analysis._solve_displacements(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
                 except:
                     # Return out of the method if 'K' is singular and provide an error message
                     raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
@@ -2168,10 +2157,6 @@ class FEModel3D():
             print('| Analyzing: P-Delta |')
             print('+--------------------+')
 
-        # Import `scipy` features if the sparse solver is being used
-        if sparse == True:
-            from scipy.sparse.linalg import spsolve
-
         # Prepare the model for analysis
         Analysis._prepare_model(self)
         
@@ -2217,10 +2202,6 @@ class FEModel3D():
             print('| Analyzing: Pushover |')
             print('+---------------------+')
         
-        # Import `scipy` features if the sparse solver is being used
-        if sparse == True:
-            from scipy.sparse.linalg import spsolve
-
         # Prepare the model for analysis
         Analysis._prepare_model(self)
         
-- 
2.43.0


From 862320a2f45c086d2b7efece153f510f8ac600b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:08 +0000
Subject: [PATCH 38/57] fix: refuse members whose end releases make them
 unstable

---
 PyNite/Member3D.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 29c91da..c89fd03 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1,6 +1,6 @@
 # %%
-from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where
-from numpy.linalg import inv, pinv
+from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where, outer
+from numpy.linalg import inv, pinv, cond
 from math import isclose
 from PyNite.BeamSegZ import BeamSegZ
 from PyNite.BeamSegY import BeamSegY
@@ -122,6 +122,12 @@ class Member3D():
         # preparation for static condensation
         k11, k12, k21, k22 = self._partition(self._k_unc())
                
+        # The end releases may not turn the member into a mechanism. Rounding can keep the stiffness matrix for the released DOF's of such a member from being perfectly singular.
+        if k22.size > 0:
+            scale = abs(k22.diagonal())**0.5
+            if not scale.all() or cond(k22/outer(scale, scale)) > 1e12:
+                raise ValueError('Member ' + self.name + ' is unstable. Check its end releases.')
+
         # Calculate the condensed local stiffness matrix
         k_Condensed = subtract(k11, matmul(matmul(k12, inv(k22)), k21))
         
-- 
2.43.0


From 23c29b61fd1d4adc95ffc1c19703d1662b869a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 39/57] fix: give every load combination its own factors

---
 PyNite/LoadCombo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 2e2d0ae..da3f50c 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -2,7 +2,7 @@ class LoadCombo():
     """A class that stores all the information necessary to define a load combination.
     """
 
-    def __init__(self, name, combo_tags=None, factors={}):
+    def __init__(self, name, combo_tags=None, factors=None):
         """Initializes a new load combination.
 
         :param name: A unique name for the load combination.
@@ -15,7 +15,8 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = factors       # A dictionary containing each load case name and associated load factor
+        # A dictionary containing each load case name and associated load factor. Each load combination keeps its own copy.
+        self.factors = {} if factors is None else dict(factors)
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 85f0e42b019132c822fe098fd8dfd988ecfa84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 40/57] fix: keep the local axes of vertical and horizontal
 members under coordinate round-off

---
 PyNite/Member3D.py | 4 ++--
 PyNite/Spring3D.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index c89fd03..8cb73cc 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -544,7 +544,7 @@ class Member3D():
             
             # Calculate the remaining direction cosines. The local z-axis will be kept parallel to the global XZ plane in all cases
             # Vertical members
-            if isclose(x1, x2) and isclose(z1, z2):
+            if isclose(x1, x2, abs_tol=1e-9*L) and isclose(z1, z2, abs_tol=1e-9*L):
                 
                 # For vertical members, keep the local y-axis in the XY plane to make 2D problems easier to solve in the XY plane
                 if y2 > y1:
@@ -555,7 +555,7 @@ class Member3D():
                     z = [0, 0, 1]
 
             # Horizontal members
-            elif isclose(y1, y2):
+            elif isclose(y1, y2, abs_tol=1e-9*L):
             
                 # Find a vector in the direction of the local z-axis by taking the cross-product
                 # of the local x-axis and the local y-axis. This vector will be perpendicular to
diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 1953a9b..d6dedef 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -120,7 +120,7 @@ class Spring3D():
             
         # Calculate the remaining direction cosines. The local z-axis will be kept parallel to the global XZ plane in all cases
         # Vertical springs
-        if isclose(x1, x2) and isclose(z1, z2):
+        if isclose(x1, x2, abs_tol=1e-9*L) and isclose(z1, z2, abs_tol=1e-9*L):
                 
             # For vertical springs, keep the local y-axis in the XY plane to make 2D problems easier to solve in the XY plane
             if y2 > y1:
@@ -131,7 +131,7 @@ class Spring3D():
                 z = [0, 0, 1]
 
         # Horizontal springs
-        elif isclose(y1, y2):
+        elif isclose(y1, y2, abs_tol=1e-9*L):
             
             # Find a vector in the direction of the local z-axis by taking the cross-product
             # of the local x-axis and the local y-axis. This vector will be perpendicular to
-- 
2.43.0


From 79c3687923acaaf44daf00daba2e594fd6fd82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 41/57] fix: let the statics check select untagged load
 combinations like the analysis does

---
 PyNite/Analysis.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 47eeea3..b48a93d 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -912,13 +912,7 @@ def _check_statics(model, combo_tags=None):
     statics_table.field_names = ['Load Combination', 'Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ']
 
     # Identify which load combinations to evaluate
-    if combo_tags is None:
-        combo_list = model.load_combos.values()
-    else:
-        combo_list = []
-        for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
-                combo_list.append(combo)
+    combo_list = _identify_combos(model, combo_tags)
 
     # Step through each load combination
     for combo in combo_list:
-- 
2.43.0


From 11040d15d5a316e52d7133a225bcc7d78cec6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 42/57] fix: a freedom with an enforced displacement is not
 unstable

---
 PyNite/Analysis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index b48a93d..23cbdd0 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -102,19 +102,19 @@ def _check_stability(model, K):
         # Determine which degree of freedom this term belongs to
         dof = i%6
 
-        # Check to see if this degree of freedom is supported
+        # Check to see if this degree of freedom is supported (an enforced displacement makes it known too)
         if dof == 0:
-            supported = node.support_DX
+            supported = node.support_DX or node.EnforcedDX is not None
         elif dof == 1:
-            supported = node.support_DY
+            supported = node.support_DY or node.EnforcedDY is not None
         elif dof == 2:
-            supported = node.support_DZ
+            supported = node.support_DZ or node.EnforcedDZ is not None
         elif dof == 3:
-            supported = node.support_RX
+            supported = node.support_RX or node.EnforcedRX is not None
         elif dof == 4:
-            supported = node.support_RY
+            supported = node.support_RY or node.EnforcedRY is not None
         elif dof == 5:
-            supported = node.support_RZ
+            supported = node.support_RZ or node.EnforcedRZ is not None
 
         # Check if the degree of freedom on this diagonal is unstable
         if isclose(K[i, i], 0) and not supported:
-- 
2.43.0


From 0129518c2555135072d514c5ecae9122f3817da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 43/57] fix: recognize unstable freedoms left with a trace of
 stiffness by rounding

---
 PyNite/Analysis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 23cbdd0..3f4f982 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -93,6 +93,9 @@ def _check_stability(model, K):
     # Initialize the `unstable` flag to `False`
     unstable = False
 
+    # Get the diagonal terms of the stiffness matrix
+    diagonal = K.diagonal()
+
     # Step through each diagonal term in the stiffness matrix
     for i in range(K.shape[0]):
         
@@ -116,8 +119,12 @@ def _check_stability(model, K):
         elif dof == 5:
             supported = node.support_RZ or node.EnforcedRZ is not None
 
+        # Rounding may leave a trace of the node's other translational (or rotational) stiffnesses where there should be none
+        first = i - i%3
+        trace = 1e-14*max(abs(diagonal[first:first + 3]))
+
         # Check if the degree of freedom on this diagonal is unstable
-        if isclose(K[i, i], 0) and not supported:
+        if isclose(diagonal[i], 0, abs_tol=trace) and not supported:
 
             # Flag the model as unstable
             unstable = True
-- 
2.43.0


From fbe3543e2e63b46010749de013ebb98233359b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 44/57] fix: report plate and quad results of the listed
 combination at the listed corner

---
 PyNite/Report_Template.html | 172 ++++++++++++++++++------------------
 1 file changed, 86 insertions(+), 86 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 402b681..aaf5777 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -393,29 +393,29 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -423,29 +423,29 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -477,11 +477,11 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -489,11 +489,11 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -608,9 +608,9 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -618,9 +618,9 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From 15ce7013bd1cba2a4f4f9b3eb3645f45058ea082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 45/57] fix: report the results of every solved load
 combination

---
 PyNite/Reporting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Reporting.py b/PyNite/Reporting.py
index 15b12a8..30049b0 100644
--- a/PyNite/Reporting.py
+++ b/PyNite/Reporting.py
@@ -58,6 +58,9 @@ def create_report(model, output_filepath=path/'./Pynite Report.pdf', **kwargs):
     kwargs['plates'] = model.plates.values()
     kwargs['quads'] = model.quads.values()
 
+    # Report the results of every load combination that has been solved
+    kwargs['load_combos'] = [combo_name for combo_name in model.load_combos if all(combo_name in node.DX for node in model.nodes.values())]
+
     # Create the report HTML using jinja2
     HTML = template.render(**kwargs)
 
-- 
2.43.0


From eddc0215b75e65daf354d53fb666c34617013469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 46/57] fix: report names with special characters as they are

---
 PyNite/Reporting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/Reporting.py b/PyNite/Reporting.py
index 30049b0..8e6fe3d 100644
--- a/PyNite/Reporting.py
+++ b/PyNite/Reporting.py
@@ -10,6 +10,7 @@ path = Path(__file__).parent
 # Set up the jinja2 template environment
 env = Environment(
     loader=PackageLoader('PyNite', '.'),
+    autoescape=True,
 )
 
 # Get the report template
-- 
2.43.0


From 318334cc2f04f42bdec3ba3148c81795e105b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 47/57] fix: draw surface pressures in the direction they act

---
 PyNite/Rendering.py     | 6 +++---
 PyNite/Visualization.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index a769ade..8895ad9 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1124,10 +1124,10 @@ class Renderer:
                     load_value = load[0]*load_factors[load[1]]
                     
                     # Find the sign for this load. Intercept any divide by zero errors
-                    if load[0] == 0:
+                    if load_value == 0:
                         sign = 1
                     else:
-                        sign = abs(load[0])/load[0]
+                        sign = abs(load_value)/load_value
             
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
@@ -1136,7 +1136,7 @@ class Renderer:
                     position3 = [plate.n_node.X, plate.n_node.Y, plate.n_node.Z]
             
                     # Create an area load and get its data
-                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
+                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, abs(load_value)/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
 
 def _PerpVector(v):
     '''
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 7b813cb..14195fe 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1746,10 +1746,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 load_value = load[0]*load_factors[load[1]]
                 
                 # Find the sign for this load. Intercept any divide by zero errors
-                if load[0] == 0:
+                if load_value == 0:
                     sign = 1
                 else:
-                    sign = abs(load[0])/load[0]
+                    sign = abs(load_value)/load_value
           
                 # Find the position of the load's 4 corners
                 position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
-- 
2.43.0


From 3adbca340c33d4f89aec824865723dd5b156b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 48/57] fix: leave inactive members out of the deformed shape

---
 PyNite/Rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 8895ad9..ab479cc 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -626,7 +626,7 @@ class Renderer:
     def plot_deformed_member(self, member, scale_factor):
         
         # Determine if this member is active for each load combination
-        if member.active:
+        if member.active[self.combo_name]:
         
             L = member.L() # Member length
             T = member.T() # Member local transformation matrix
-- 
2.43.0


From 3491592b9ad3321b7fc80485213cc744e1c3aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 49/57] fix: scale the pressures of a load case without looking
 at the members

---
 PyNite/Rendering.py     | 20 ++++++++++----------
 PyNite/Visualization.py | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index ab479cc..40ff824 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -959,17 +959,17 @@ class Renderer:
                         if abs(load[2]) > max_dist_load:
                             max_dist_load = abs(load[2])
                 
-                # Step through each plate
-                for plate in self.model.plates.values():
-            
-                    # Step through each plate load
-                    for load in plate.pressures:
-            
-                        if load[1] == self.case:
-                
-                            if abs(load[0]) > max_area_load:
-                                max_area_load = abs(load[0])
+            # Step through each plate
+            for plate in self.model.plates.values():
+        
+                # Step through each plate load
+                for load in plate.pressures:
+        
+                    if load[1] == self.case:
             
+                        if abs(load[0]) > max_area_load:
+                            max_area_load = abs(load[0])
+        
             # Step through each quad
             for quad in self.model.quads.values():
         
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 14195fe..0726fcd 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -2098,17 +2098,17 @@ def _MaxLoads(model, combo_name=None, case=None):
                     if abs(load[2]) > max_dist_load:
                         max_dist_load = abs(load[2])
             
-            # Step through each plate
-            for plate in model.plates.values():
-          
-                # Step through each plate load
-                for load in plate.pressures:
-          
-                    if load[1] == case:
-            
-                        if abs(load[0]) > max_area_load:
-                            max_area_load = abs(load[0])
-          
+        # Step through each plate
+        for plate in model.plates.values():
+      
+            # Step through each plate load
+            for load in plate.pressures:
+      
+                if load[1] == case:
+        
+                    if abs(load[0]) > max_area_load:
+                        max_area_load = abs(load[0])
+      
         # Step through each quad
         for quad in model.quads.values():
       
-- 
2.43.0


From 2c83337ce60f2ad8da663317de0a5a92f0e62a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 50/57] fix: draw models with loads that are zero or factored
 down to zero

---
 PyNite/Rendering.py     | 26 +++++++++++++++++---------
 PyNite/Visualization.py | 26 +++++++++++++++++---------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 40ff824..55cf037 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1010,10 +1010,11 @@ class Renderer:
                     # Calculate the factored value for this load and it's sign (positive or
                     # negative)
                     load_value = load[1]*load_factors[load[2]]
-                    if load_value != 0:
-                        sign = load_value/abs(load_value)
-                    else:
-                        sign = 1
+
+                    # There is nothing to draw if the load is zero
+                    if load_value == 0: continue
+
+                    sign = load_value/abs(load_value)
                     
                     # Determine the direction of this load
                     if load[0] == 'FX' or load[0] == 'MX': direction = (sign, 0, 0)
@@ -1045,6 +1046,10 @@ class Renderer:
             
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     load_value = load[1]*load_factors[load[3]]
+
+                    # There is nothing to draw if the load is zero
+                    if load_value == 0: continue
+
                     sign = load_value/abs(load_value)
             
                     # Calculate the load's location in 3D space
@@ -1086,6 +1091,9 @@ class Renderer:
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     w1 = load[1]*load_factors[load[5]]
                     w2 = load[2]*load_factors[load[5]]
+
+                    # There is nothing to draw if the load is zero
+                    if w1 == 0 and w2 == 0: continue
             
                     # Calculate the loads location in 3D space
                     x1 = load[3]
@@ -1122,12 +1130,12 @@ class Renderer:
             
                     # Calculate the factored value for this load
                     load_value = load[0]*load_factors[load[1]]
+
+                    # There is nothing to draw if the load is zero
+                    if load_value == 0: continue
                     
-                    # Find the sign for this load. Intercept any divide by zero errors
-                    if load_value == 0:
-                        sign = 1
-                    else:
-                        sign = abs(load_value)/load_value
+                    # Find the sign for this load
+                    sign = abs(load_value)/load_value
             
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 0726fcd..f3b7d87 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1616,10 +1616,11 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
               
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[2]]
-                if load_value != 0:
-                    sign = load_value/abs(load_value)
-                else:
-                    sign = 1
+
+                # There is nothing to draw if the load is zero
+                if load_value == 0: continue
+
+                sign = load_value/abs(load_value)
                 
                 # Display the load
                 if load[0] == 'FX':
@@ -1656,6 +1657,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[3]]
+
+                # There is nothing to draw if the load is zero
+                if load_value == 0: continue
+
                 sign = load_value/abs(load_value)
           
                 # Calculate the load's location in 3D space
@@ -1701,6 +1706,9 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 w1 = load[1]*load_factors[load[5]]
                 w2 = load[2]*load_factors[load[5]]
+
+                # There is nothing to draw if the load is zero
+                if w1 == 0 and w2 == 0: continue
           
                 # Calculate the loads location in 3D space
                 x1 = load[3]
@@ -1744,12 +1752,12 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load
                 load_value = load[0]*load_factors[load[1]]
+
+                # There is nothing to draw if the load is zero
+                if load_value == 0: continue
                 
-                # Find the sign for this load. Intercept any divide by zero errors
-                if load_value == 0:
-                    sign = 1
-                else:
-                    sign = abs(load_value)/load_value
+                # Find the sign for this load
+                sign = abs(load_value)/load_value
           
                 # Find the position of the load's 4 corners
                 position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
-- 
2.43.0


From 3554ad8204b89fcb6c4fd99e7c95d0936a7b26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 51/57] fix: turn label rendering off when asked to

---
 PyNite/Rendering.py       | 12 ++++++++----
 docs/source/rendering.rst |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 55cf037..c3c4001 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -255,7 +255,8 @@ class Renderer:
         label_points = [[node.X, node.Y, node.Z] for node in self.model.nodes.values()]
         labels = [node.name for node in self.model.nodes.values()]
         
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
+        if self._labels == True:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
 
         # Check if there are springs in the model
         if self.model.springs:
@@ -265,7 +266,8 @@ class Renderer:
                 self.plot_spring(spring, self.annotation_size, 'grey')
             
             # Render the spring labels
-            self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
+            if self._labels == True:
+                self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
         
         # Render the members
         for member in self.model.members.values():
@@ -274,7 +276,8 @@ class Renderer:
         # Render the member labels
         label_points = [[(member.i_node.X+member.j_node.X)/2, (member.i_node.Y+member.j_node.Y)/2, (member.i_node.Z+member.j_node.Z)/2] for member in self.model.members.values()]
         labels = [member.name for member in self.model.members.values()]
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
+        if self._labels == True:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
 
         # Render the deformed shape if requested
         if self.deformed_shape == True:
@@ -300,7 +303,8 @@ class Renderer:
             self.plot_loads()
 
             # Plot the load labels
-            self.plotter.add_point_labels(self._load_label_points, self._load_labels, bold=False, text_color='green', show_points=False, shape=None, render_points_as_spheres=False)
+            if self._labels == True:
+                self.plotter.add_point_labels(self._load_label_points, self._load_labels, bold=False, text_color='green', show_points=False, shape=None, render_points_as_spheres=False)
         
         # Render the plates and quads, if present
         if self.model.quads or self.model.plates:
diff --git a/docs/source/rendering.rst b/docs/source/rendering.rst
index 053b022..e874085 100644
--- a/docs/source/rendering.rst
+++ b/docs/source/rendering.rst
@@ -35,7 +35,7 @@ The ``Renderer`` object has some default properties you may wish to change. Belo
     my_rndr.color_map = 'Txy'          # Changes plate contours to show shear stresses
     my_rndr.combo_name = '1.4D'        # The name of the load combination to render
     my_rndr.case = None                # The load case to render - ignored if a load combination is specified
-    my_rndr.labels = False             # Turns off label renderings
+    my_rndr.show_labels = False        # Turns off label renderings
     my_rndr.scalar_bar = True          # Turns on the scalar bar for plate contours
     my_rndr.scalar_bar_text_size = 24  # Adjusts the text height for the scalar bar
 
-- 
2.43.0


From 2580f0e847ff2cd9ee98af5523f669ea8d0fe863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 52/57] fix: color contours with the results of the rendered
 load combination

---
 PyNite/Visualization.py | 73 +++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index f3b7d87..2f3df6e 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1453,62 +1453,57 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
       
             # Determine which stress result has been requested by the user
             if stress_type == 'dz':
-                # Internally PyNite defines the nodes for a rectangular element in the order (i, j, m, n),
-                # while it defines the nodes for a quadrilateral element in the order (m, n, i, j)
-                if element.type == 'Rect':
-                    i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
-                else:
-                    i, j, m, n = element.d(combo_name)[[14, 20, 2, 8], :]
+                i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
                 element.i_node.contour.append(i)
                 element.j_node.contour.append(j)
                 element.m_node.contour.append(m)
                 element.n_node.contour.append(n)
             elif stress_type == 'Mx':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'My':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Mxy':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[2])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[2])
             elif stress_type == 'Qx':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Qy':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Sx':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Sy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Txy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[2])                 
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[2])                 
       
         # Average the values at each node to obtain a smoothed contour
         for node in model.nodes.values():
             # Prevent divide by zero errors for nodes with no contour values
             if node.contour != []:
-                node.contour = sum(node.contour)/len(node.contour)
+                node.contour = array(sum(node.contour)/len(node.contour)).item()
 
 def _DeformedShape(model, vtk_renderer, scale_factor, annotation_size, combo_name, render_nodes=True, theme='default'):
     '''
-- 
2.43.0


From 48726bfeb155f578e342a0faa26bec4f38df4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 53/57] fix: clear all of a previous drawing before drawing
 again (VTK)

Removing actors from the collection that is being walked skips every other one: labels, loads, contours and members of earlier drawings stayed in the window after a setting or the model changed.
---
 PyNite/Visualization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 2f3df6e..49821d0 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -248,8 +248,7 @@ class Renderer():
         renderer = self.renderer
 
         # Clear out all the old actors from any previous renderings
-        for actor in renderer.GetActors():
-            renderer.RemoveActor(actor)
+        renderer.RemoveAllViewProps()
 
         # Add actors for each spring
         for vis_spring in vis_springs:
-- 
2.43.0


From da67571572b8ef4f4ab20341c7fa6f3687ab0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 54/57] fix: gradient of the steel yield surface by the weak
 axis moment

---
 PyNite/Section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Section.py b/PyNite/Section.py
index 38e046c..069e337 100644
--- a/PyNite/Section.py
+++ b/PyNite/Section.py
@@ -96,7 +96,7 @@ class SteelSection(Section):
 
         # Partial derivatives of Phi
         dPhi_dfx = 18*fx**5*my**2/(Mpy**2*Py**6) + 2*fx/Py**2 + 7.0*fx*mz**2/(Mpz**2*Py**2)
-        dPhi_dmy = 6*fx**6*my/(Mpy**2*Py**6) + 2*my/Mpy**2 + 9.0*my*mz**4/(Mpy**2*Mpz**4)
+        dPhi_dmy = 6*fx**6*my/(Mpy**2*Py**6) + 4*my**3/Mpy**4 + 9.0*my*mz**4/(Mpy**2*Mpz**4)
         dPhi_dmz = 7.0*fx**2*mz/(Mpz**2*Py**2) + 2*mz/Mpz**2 + 18.0*my**2*mz**3/(Mpy**2*Mpz**4)
         
         # Return the gradient
-- 
2.43.0


From 7bdc588723f82040471496f67e2d1bf6738590d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 55/57] fix: integrity check of a mesh element stored under
 another key

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index b13d552..35fc7e0 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1628,10 +1628,10 @@ def check_mesh_integrity(mesh, console_log=True):
     for element in mesh.elements.values():
         
         if mesh.element_type == 'Rect':
-            if element.name not in mesh.model.plates.keys() or mesh.elements[element.name] is not mesh.model.plates[element.name]:
+            if element.name not in mesh.model.plates.keys() or mesh.elements.get(element.name) is not mesh.model.plates[element.name]:
                 count +=1
         elif mesh.element_type == 'Quad':
-            if element.name not in mesh.model.quads.keys() or mesh.elements[element.name] is not mesh.model.quads[element.name]:
+            if element.name not in mesh.model.quads.keys() or mesh.elements.get(element.name) is not mesh.model.quads[element.name]:
                 count += 1
     
     # Prepare the error message
-- 
2.43.0


From 0c62266277668c459f0832b3028dd6056686f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 56/57] fix: segments of a member after a query that was cut
 short

---
 PyNite/Member3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 8cb73cc..8ecf54c 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1918,6 +1918,9 @@ class Member3D():
         Divides the element up into mathematically continuous segments along each axis
         """
         
+        # The segments belong to no load combination until all of them have been redone
+        self._solved_combo = None
+
         # Get the member's length and stiffness properties
         L = self.L()
         E = self.E
-- 
2.43.0


From a66818b091b51d167ea2f289363d4e5f7cacfb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 57/57] fix: no trace of stiffness from rounding where end
 releases leave none

---
 PyNite/Member3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 8ecf54c..7c4b4e8 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -131,6 +131,11 @@ class Member3D():
         # Calculate the condensed local stiffness matrix
         k_Condensed = subtract(k11, matmul(matmul(k12, inv(k22)), k21))
         
+        # Rounding may leave a trace of stiffness where the end releases leave none. Such a trace could keep an unstable structure from being recognized.
+        if k22.size > 0:
+            scale = abs(k11.diagonal())**0.5
+            k_Condensed[abs(k_Condensed) < 1e-10*outer(scale, scale)] = 0
+
         # Expand the condensed local stiffness matrix
         i=0
         for DOF in self.Releases:
-- 
2.43.0

