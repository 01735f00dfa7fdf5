From a2c5ed4905df038c56dbbbcade33e2d526cc4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 01/39] fix: MemSequence and MemPriority use range (xrange does
 not exist in Python 3)

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From 151f124b9aed0d6dc778d09fc9ea3e913c2a3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 02/39] fix: OrNode succeeds only when a child succeeded, not
 when one is running or in error

---
 b3/composites/ornode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/composites/ornode.py b/b3/composites/ornode.py
index 7142a38..0306f81 100644
--- a/b3/composites/ornode.py
+++ b/b3/composites/ornode.py
@@ -39,7 +39,7 @@ class OrNode(b3.Composite):
           #Add in cost of selected leaf (requires zero cost for Seq node)
           
           self.Cost += node.Cost
-          if status_curr != b3.FAILURE:
+          if status_curr == b3.SUCCESS:
                 status = b3.SUCCESS
 
         return status
\ No newline at end of file
-- 
2.43.0


From 76e41d073da14f815ad354c04da63c044b7e991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 03/39] fix: BehaviorTree.dump keeps the order of a composite's
 children; load names the right exception

---
 b3/core/behaviortree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..6cfd257 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,7 +33,7 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
@@ -93,7 +93,7 @@ class BehaviorTree(object):
 
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
                 children = []
-                for c in reversed(node.children):
+                for c in node.children:
                     children.append(c.id)
                     stack.append(c)
                 spec['children'] = children
-- 
2.43.0


From 0f18f14da477adb18d22e87adbb5858284a4b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 04/39] fix: RepeatUntilSuccess/Failure with max_loop=0 answer
 ERROR instead of crashing

---
 b3/decorators/repeatuntilfailure.py | 2 ++
 b3/decorators/repeatuntilsuccess.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..fc46aec 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,8 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR   # child never ran (max_loop = 0)
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..36eb6db 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,8 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR   # child never ran (max_loop = 0)
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 57417536d8fac5732f4fbae391d9783b61f71bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 05/39] fix: Limiter keeps its count across ticks, so that the
 limit is enforced

---
 b3/decorators/limiter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/b3/decorators/limiter.py b/b3/decorators/limiter.py
index 73e5e3c..9091711 100644
--- a/b3/decorators/limiter.py
+++ b/b3/decorators/limiter.py
@@ -9,7 +9,9 @@ class Limiter(b3.Decorator):
         self.max_loop = max_loop
 
     def open(self, tick):
-        tick.blackboard.set('i', 0, tick.tree.id, self.id)
+        # the count must survive closing, or the limit could never be reached
+        if tick.blackboard.get('i', tick.tree.id, self.id) is None:
+            tick.blackboard.set('i', 0, tick.tree.id, self.id)
 
     def tick(self, tick):
         if not self.child:
-- 
2.43.0


From a5191e8eee289551725c78212ec0a28347b19975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 06/39] fix: wrap_angle_N wraps angles more than one turn out
 of range

---
 ikbtbasics/pykinsym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 43d12db..458980b 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -59,9 +59,9 @@ def approx_N(a,b,verbose):
 
 # move angles into the range -pi to +pi
 def wrap_angle_N(t):
-  if(t < -np.pi):
+  while(t < -np.pi):
     t = t + 2*np.pi
-  elif(t >= np.pi):
+  while(t >= np.pi):
     t = t - 2*np.pi
   return(t)
 
-- 
2.43.0


From 58dd92fa67597c4feb71b5ee9e34ca2273ef70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 07/39] fix: RPY4_N and H_inv_N work on numeric matrices

---
 ikbtbasics/pykinsym.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 458980b..69635b7 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -327,7 +327,7 @@ def RPY3_N(r,p,y):
 def RPY4_N(r,p,y):
    R = RPY3_N(r,p,y)
    #T = np.matrix(np.zeros(16).reshape(4,4))
-   T = np.matrix(np.zeros(4))
+   T = np.matrix(np.zeros((4,4)))
    for i in range(0,3):
      for j in range(0,3):
        T[i,j] = R[i,j]
@@ -336,10 +336,10 @@ def RPY4_N(r,p,y):
 
 #   Get the inverse of a symbolic 4x4 Homogeneous transform
 def H_inv_N(T):
-  R = T[0:3,0:3].T
-  P = -R*T[0:3,3]
-  T1 = R.row_join(P)
-  T1 = T1.col_join(sp.Matrix([0,0,0,1]).T)
+  T = np.matrix(T)
+  T1 = np.matrix(np.eye(4))
+  T1[0:3,0:3] = T[0:3,0:3].T
+  T1[0:3,3] = -T[0:3,0:3].T*T[0:3,3]
   return T1
 
 
-- 
2.43.0


From b0f52e0f99e4f07107e691ad67b5e58c79e69b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 08/39] fix: sincos_solve handles the unknown on the left side
 and declines what it cannot solve

---
 ikbtleaves/sincos_solver.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..ce626e5 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -179,7 +179,15 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
 
             # parse the equation RHS 
             terms = [sp.sin(u.symbol), sp.cos(u.symbol)]
-            rhs = sp.collect(u.eqntosolve.RHS, terms)
+            # the ID accepts the unknown on either side (or both sides) of
+            # the equation: move it to the right hand side
+            lhs, rhs = u.eqntosolve.LHS, u.eqntosolve.RHS
+            if lhs.has(u.symbol):
+                if rhs.has(u.symbol):
+                    lhs, rhs = sp.S.Zero, rhs - lhs
+                else:
+                    lhs, rhs = rhs, lhs
+            rhs = sp.collect(rhs, terms)
             # Exclude sin/cos of this unknown from the Wilds.  'Aw*sin(u)+Bw'
             # is otherwise ambiguous -- it matches anything via
             # Aw = (expr-Bw)/sin(u) -- and sympy returns exactly that for a
@@ -207,14 +215,14 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 if(d[Bw] is not None):
                     B = d[Bw]
                 else:
-                    B = 0
+                    B = sp.S.Zero
                     
-                targument = (u.eqntosolve.LHS-B)/A
                 # a solution that still contains its own unknown is not a
-                # solution; this guard is the analogue of the one commented
-                # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                # solution: decline (as for a failed match, above).
+                if A == 0 or A.has(u.symbol) or B.has(u.symbol):
+                    print('sincos_solve (arcsin): solution contains itself -- declining')
+                    return b3.FAILURE
+                targument = (lhs-B)/A
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -243,9 +251,10 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                     else:
                         B = 0
                             
-                    targument = (u.eqntosolve.LHS-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    if A == 0 or A.has(u.symbol) or B.has(u.symbol):
+                        print('sincos_solve (arccos): solution contains itself -- declining')
+                        return b3.FAILURE
+                    targument = (lhs-B)/A
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From a3d5064de761dd39731a874f7e995c1c035a6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 09/39] fix: sinandcos_id rejects equations whose coefficients
 contain the unknown

---
 ikbtleaves/sinANDcos_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..0ba2321 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,7 +132,8 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  # linear in sin(u) and cos(u): no coefficient may contain u
+                  if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
-- 
2.43.0


From f089262722b19a27ae00b5cf2ca6459a67447dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 10/39] fix: simu_id rejects pairs whose remaining terms
 contain the unknown

---
 ikbtleaves/two_eqn_m7.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..0375636 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -54,18 +54,25 @@ def canonical_second_eqn(u, e1, e2):
        function of u, so the resulting atan2 is not a solution at all.
 
        A == B == 0 means u appears in e1 with no sin/cos term; the atan2
-       arguments would both be zero, yielding nan.  Reject.'''
+       arguments would both be zero, yielding nan.  Reject.
+
+       Anything else in either equation becomes part of C or D, so it must not
+       contain u.  Reject if it does.'''
     A = e1.coeff(sp.sin(u))
     B = e1.coeff(sp.cos(u))
     if A == 0 and B == 0:
         return None
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
+    if not ((a2 == A and b2 == B) or (a2 == -A and b2 == -B)):
+        return None
+    rest1 = e1 - A*sp.sin(u) - B*sp.cos(u)
+    rest2 = e2 - a2*sp.cos(u) + b2*sp.sin(u)
+    if A.has(u) or B.has(u) or rest1.expand().has(u) or rest2.expand().has(u):
+        return None
     if a2 == A and b2 == B:
         return e2
-    if a2 == -A and b2 == -B:
-        return -e2
-    return None
+    return -e2
 
 
 class simu_id(b3.Action):
-- 
2.43.0


From 7f4dcceeab309dd442845b7744dd50ba999352cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 11/39] fix: tan_id does not offer an unknown that is already
 solved

---
 ikbtleaves/tan_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 177257d..bf6d442 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -217,7 +217,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
             #continue #stop looking at equations for the same unknown                      
         tick.blackboard.set('curr_unk', u)
         tick.blackboard.set('unknowns',unknowns)   # the current list of unknowns
-        if u.solvable_tan:
+        if u.solvable_tan and not u.solved:  # a solved unknown is not solved again
             return b3.SUCCESS
         else:
             return b3.FAILURE
-- 
2.43.0


From 10ac176ea2093d1da9d7181354bad9aa584bb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 12/39] fix: assigner starts over with an unsolved unknown, not
 with the first one regardless

---
 ikbtleaves/assigner_leaf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ikbtleaves/assigner_leaf.py b/ikbtleaves/assigner_leaf.py
index a4d478c..1390ec2 100644
--- a/ikbtleaves/assigner_leaf.py
+++ b/ikbtleaves/assigner_leaf.py
@@ -48,8 +48,13 @@ class assigner(b3.Action):
                 tick.blackboard.set("curr_unk", curr)
                 return b3.SUCCESS
                 
-        if counter >= len(unknowns):
-            counter = 0
+        # end of the list: start over with the first unsolved unknown
+        #    (the first unknown of all, if every one is solved)
+        counter = 0
+        for i, unk in enumerate(unknowns):
+            if not unk.solved:
+                counter = i
+                break
         tick.blackboard.set("counter", counter)
         tick.blackboard.set("curr_unk", unknowns[counter])
         return b3.SUCCESS
-- 
2.43.0


From 1562e04b543a5d381e78363153d39b06e2b4aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 13/39] fix: make_LHS_versions takes each unknown's own
 solution for a version

---
 ikbtbasics/ik_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..296dcd7 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -207,10 +207,10 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
+                nsols = self.solution_nodes[col].unknown.nsolutions
                 #make an equation
             #tmp = '$' + sp.latex(node.symbol) + '$'
             #tmp = theta_expand(tmp)
-- 
2.43.0


From bb4e569149707034cc92418b3128b05174e06f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 14/39] fix: create_solution_set names the versions of the
 first unknown like all others

---
 ikbtbasics/ik_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 296dcd7..d41bb7f 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -262,8 +262,9 @@ class Robot:
 
             else: # first time through
                 #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
+                for i in range(u_nsols):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))
+                    solListMatrix.append([u.LHSversionNames[i]])
                     #solListMatrix.append([u.name+'v'+'1'])
                     #print('create_solution_sets: creating ', u, solListMatrix)
             #print('---')
-- 
2.43.0


From 40bb76df9d9c12ec9451842527a2043963e7b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 15/39] fix: the generated python file compiles (identifier,
 error message and test code)

---
 ikbtfunctions/output_python.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..ebbac3a 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -206,7 +206,7 @@ pi = np.pi
 
     indent = '    ' # 4 spaces
 
-    funcname = 'ikin_'+fixed_name 
+    funcname = 'ikin_' + re.sub(r'\W', '_', orig_name)  # must be a python identifier
     print('''
 # Auto Generated Code to solve the unknowns
 #        parameter:  T   4x4 numerical target for T06
@@ -214,7 +214,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to ' + funcname + '")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -377,14 +377,14 @@ if __name__ == "__main__":
 
     # try the Puma IK
 
-    list = ''' + funcname + '''(T1)
+    sols = ''' + funcname + '''(T1)
 
     i = 0
-    for sol in list:
-        print ''
-        print 'Solution ', i
+    for sol in sols or []:   # False: no solution
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From 1445cae4c308b0511e099ce00d8c62d77dae2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 16/39] fix: generated python code defines every version of
 every solution, and keeps those which reach the pose

---
 ikbtfunctions/output_python.py | 42 ++++++++++++----------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index ebbac3a..d556e1f 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -193,10 +193,10 @@ pi = np.pi
     if(Robot.Mech.pvals != {}):  # if we have numerical values stored
         for p in Robot.params:
             val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
+            tmp += '    ' + str(p) + ' = ' + val + '\n'
     else:                        # no stored numerical values
         for p in Robot.params:
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+            tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
@@ -244,20 +244,16 @@ pi = np.pi
     print(indent + 'print ("in case of domain errors, change the test position / orientation ")', file=f)
     print(indent + 'print ( " to a pose reachable by your specific robot")', file=f)
     print(indent + '', file=f)
-    print(indent + 'solvable_pose = True', file=f)
     print(indent + '''
- 
 #############################################################
 #
-# Future reachable pose checking code (autogenerated) will go here
-#
-#    This code will check asin / acos args etc to determine
-#
-#        solvable_pose = True/False
+#    Versions for which an asin / acos / sqrt argument is out of
+#    range do not reach the pose.  They become nan, and are left
+#    out of the result.  Without any solution the result is False.
 #
 #############################################################
- ''', file=f) 
- 
+ ''', file=f)
+
     for node in nlist:  # for each solved var
         print('\n', file=f)
         print(indent + '#Variable: ', str(node.symbol), file=f)
@@ -268,22 +264,11 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
-                print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
-                print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+            # Every equation is output exactly once, whatever its solution method
+            print(indent + 'try:', file=f)
+            print(indent*2 + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+            print(indent + 'except ValueError:  # asin, acos or sqrt out of its domain: version does not reach the pose', file=f)
+            print(indent*2 + str(solEqnVer.LHS) + ' = np.nan', file=f)
 
     print('''
 ##################################
@@ -324,6 +309,9 @@ pi = np.pi
 
 
     # we are done.   Return
+    print(indent + '# drop the versions which do not reach the pose', file=f)
+    print(indent + 'solution_list = [s for s in solution_list if not any(np.isnan(v) for v in s)]', file=f)
+    print(indent + 'solvable_pose = len(solution_list) > 0', file=f)
     print(indent + 'if(solvable_pose):', file=f)
     print(indent*2 + 'return(solution_list)', file=f)
     print(indent + 'else: ', file=f)
-- 
2.43.0


From 9c31c07d0435ebe1620de741ef3e8dfc36f82d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 17/39] fix: generated C++ code compiles, defines every version
 and has room for all solutions

---
 ikbtfunctions/output_cpp.py | 93 ++++++++++---------------------------
 1 file changed, 24 insertions(+), 69 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..8dde623 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -59,6 +59,11 @@ def output_cpp_code(Robot, solution_groups):
     fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
+    # room for all solutions (rows) and variables (columns)
+    nrows = max([64, len(solution_groups)])
+    ncols = max([6] + [len(g) for g in solution_groups])
+    list_size = '[' + str(nrows) + '][' + str(ncols) + ']'
+
     c = cpp_output()
 
     DirName = 'CodeGen/Cpp/'
@@ -76,11 +81,12 @@ def output_cpp_code(Robot, solution_groups):
 #include <stdio.h>
 #include <iostream>
 
-double pi = 3.1415926;
+double pi = M_PI;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+// (rows containing nan are not solutions: they do not reach the pose)
+int ikin(double T[4][4], double solution_list''' + list_size + ''');
 
 ''')
 
@@ -90,20 +96,18 @@ int ikin(double T[4][4], double solution_list[64][6]);
     sol_vars = set() #all variables used in solutions
     # now handled outside, in ikSolver
     #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
-    for s in solution_groups:
-        sol_vars.update(s)
+    for row in Robot.FinalEqnMatrix:
+        sol_vars.update(eqn.LHS for eqn in row)
 
     #  Variable Declarations
-    tmp = 'double'
-    for v in sol_vars:
-        tmp += ' ' + str(v) + ','
-
-    var_decl_str = tmp[:-1] + ';'   # drop trailing comma and end the line
+    var_decl_str = ''
+    for v in sorted(sol_vars, key=str):
+        var_decl_str += 'double ' + str(v) + ';\n'
 
     # parameter Declarations
     tmp = '\n'
     for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
     par_decl_str = tmp
 
     nlist = Robot.solution_nodes
@@ -114,7 +118,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list' + list_size + ' = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -129,7 +133,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list' + list_size + ' )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
@@ -145,8 +149,6 @@ double Px = T[0][3];
 double Py = T[1][3];
 double Pz = T[2][3];
 
-double argument;
-
 //
 // Caution:    Generated code is not yet validated
 //
@@ -154,7 +156,7 @@ double argument;
 int True = 1;
 int False = 0;
 ''')
-    c.line('int solvable_pose = True;')
+    c.line('int solvable_pose = False;')
     c.line('// declare variables in solutions')
     c.line(var_decl_str)
     c.line('')
@@ -177,62 +179,11 @@ int False = 0;
             print('Cpp Output Gen: Solution Equation Version: ', solEqnVer)
             c.line('\n// solution '+str(solno))
             solno += 1
-            solrhs = str(solEqnVer.RHS)
-            # detect arcsin() or arccos()
-            #
-            #  BH   21-Sept
-            #  This code needs a serious refactor.  When solution is for example:
-            #    th5_ijk = arcsin(x) + atan2(y1,x1)
-            #       (here 'x' is a complicated expression)
-            #  then it is important that the generated code will test  -1 < x < +1
-            #  if this test fails the pose is unreachable and arcsin fails.
-            #
-            #
-            trig = False
-            print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
-            print('solvemethod: ', node.solvemethod)
-            print(' LHS: ', str(solEqnVer.LHS))
-            print(' RHS: ', solrhs)
-            print('argument: ', node.argument)
-            print('\n\n')
-
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
-
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
-               print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-               c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
-               c.push()
-               c.line('solvable_pose = False; ')
-               c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
-               c.pop()
-
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
+            # Every equation is output exactly once, whatever its solution method, in C++ syntax.
+            # (asin, acos, sqrt yield nan when the pose is out of reach)
+            c.line(str(solEqnVer.LHS) + ' = ' + sp.ccode(solEqnVer.RHS) + ';')
 
     c.line('''
 //##################################
@@ -274,6 +225,10 @@ int False = 0;
 
     # we are done.   Return
     c.line('\n\n')
+    c.line('// solvable if any of the solutions reaches the pose')
+    for g in grp_lists:
+        if len(g) > 0:
+            c.line('if (!(' + ' || '.join('isnan(' + v + ')' for v in g) + ')) solvable_pose = True;')
     c.line('// return 1 for solved, 0 for no solution')
     c.line('return(solvable_pose);')
     c.pop()
-- 
2.43.0


From feb7b8c26da962ca6061745e3d24227fa4073cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 18/39] fix: reports and code are generated also when no
 unknown was solved

---
 ikbtbasics/ik_classes.py      | 4 +++-
 ikbtfunctions/output_latex.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d41bb7f..1c8671e 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -198,8 +198,10 @@ class Robot:
     #
     # class Robot
     def make_LHS_versions(self):
+        self.FinalEqnMatrix = []
+        self.nversions = 0
         nvers = len(self.solListMatrix)  # n versions
-        nunks = len(self.solListMatrix[0])  # n solved unknowns (cols)
+        nunks = len(self.solution_nodes)  # n solved unknowns (cols)
         for row in range(nvers): # go through versions
             # get subs dict for this row
             subdict = {}
diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index 88f7781..6ccd673 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -322,7 +322,7 @@ The following are the sets of joint solutions (poses) for this manipulator:
 
 
     ####################  Solution sets Table form
-    ncols = len(list(Robot.solutionSet)[0])
+    ncols = len(Robot.solution_nodes)
     colstr = '|' + 'l|'*ncols
     tablestr = r'\section{Solution Set v3} \begin{tabular}{' + colstr + r'}\hline' + eol
     for s in Robot.solutionSet:
-- 
2.43.0


From 6b1ea6a0e429ba037b281d5376086b0efea3d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 19/39] fix: twist angle parameters are declared once, and also
 when the kinematics come from the pickle

---
 fkOnly.py            | 2 +-
 ikSolver.py          | 2 +-
 ikbtbasics/kin_cl.py | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/fkOnly.py b/fkOnly.py
index de7e3e1..d4424bb 100644
--- a/fkOnly.py
+++ b/fkOnly.py
@@ -113,7 +113,7 @@ testing = False
 print('GOT HERE (after FK): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params  # with the twist angle parameters found by the forward kinematics
 R.variables = unknowns
 
 ##   check the pickle in case DH params were changed
diff --git a/ikSolver.py b/ikSolver.py
index 867102a..b49ddcd 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -110,7 +110,7 @@ print('Solver:  unknowns:', unknowns)
 print('GOT HERE (Fk completed): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params  # with the twist angle parameters found by the forward kinematics
 
 ##   check the pickle in case DH params were changed
 dhp = M.DH
diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index c50541b..58240ba 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -291,8 +291,9 @@ class mechanism:
                 tmpvc = sp.var(f'ca{i}')  # create new parameter for cos(al)-> ca1, ca2, etc
                 tmpvs = sp.var(f'sa{i}')  # create new parameter for sin(al)
 
-                self.params.append(tmpvc)   #
-                self.params.append(tmpvs)   #
+                if tmpvc not in self.params:     # (when called again)
+                    self.params.append(tmpvc)   #
+                    self.params.append(tmpvs)   #
                 self.pvals[tmpvc] = f'np.cos({alpha_i})'
                 self.pvals[tmpvs] = f'np.sin({alpha_i})'
 
-- 
2.43.0


From 10170d6a826b3a864d586871b53b530854288a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 20/39] fix: numerical parameter values changed since the
 kinematics were pickled are used

---
 ikbtbasics/ik_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 1c8671e..2920e46 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,6 +85,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+            m.pvals.update(pvals)  # numerical values of parameters may have changed since
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0


From 8ff43e811d3aed617c3fbca3b11a673614a1a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 21/39] fix: an interrupted run does not leave a broken
 kinematics pickle

---
 ikbtbasics/ik_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 2920e46..684b4e6 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -109,8 +109,10 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
         #R.generate_solution_nodes(unks) # generate solution nodes
 
         print(' Storing kinematics pickle for '+rname + '('+name+')')
-        with open(name,'wb') as pf:
+        # write a new file, then rename it, so that an interrupted run does not leave a broken pickle
+        with open(name+'.tmp','wb') as pf:
             pickle.dump( [m, R, unks], pf, protocol=pprotocol)
+        os.replace(name+'.tmp', name)
         unknowns = unks    # be sure to return updated unknown list (including SOAs)
 
     return [m,R,unknowns]
-- 
2.43.0


From e868b122f5994ec6a80dd545df88499087e7a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 22/39] fix: generated python code imports tan, which
 simplified solutions may contain

---
 ikbtfunctions/output_python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index d556e1f..6ba8952 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -173,6 +173,7 @@ from math import cos
 from math import sin
 from math import acos
 from math import asin
+from math import tan
 
 pi = np.pi
 
-- 
2.43.0


From 9f966c73456bc306bc0d592c07834ef196f2cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 23/39] fix: a sum-of-angles unknown found on the left side is
 added once

---
 ikbtbasics/ik_classes.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 684b4e6..f988e4c 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -398,13 +398,9 @@ class Robot:
 
                     # simplify LHS
 
+                    # (this also adds a new SOA unknown to variables and its equation to the aux list)
                     lhs, newj, newe = sum_of_angles_sub(self, lhs, variables)
 
-                    if newj:
-                        variables.append(newj)
-                    if newe:
-                        self.kequation_aux_list.append(newe)
-
                     # simplify RHS
                     rhs, newj, newe= sum_of_angles_sub(self, rhs, variables)
 
-- 
2.43.0


From adedaa7e6ef62f29f330e71b90099d9919ce7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 24/39] fix: sum_of_angles_sub leaves alone what is not a sum
 of joint variables

---
 ikbtbasics/ik_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index f988e4c..a200a85 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -465,10 +465,10 @@ def sum_of_angles_sub(R, expr, variables):
             else:
                 varlist.append(d[k1])
         #print 'varlist: ', varlist
-        if len(varlist) == 2:
-            found2 = True
-        if len(varlist) == 3:
-            found3 = True
+        # (only sums of joint variables, not e.g. th_1-th_2 or th_1+constant)
+        joints = all(any(u.symbol == v for u in variables) for v in varlist)
+        found2 = joints and len(varlist) == 2
+        found3 = joints and len(varlist) == 3
 
         newjoint = None
         tmpeqn = None
-- 
2.43.0


From b3bdbf7730ce4c101e29488823b4659a447154e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 25/39] fix: sum_id names sums and differences of joint angles
 (find_xy did not exist) and defines each once

---
 ikbtleaves/sum_id.py | 51 +++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..fd79d32 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -26,6 +26,24 @@ from ikbtbasics.ik_classes import *     # special classes for Inverse kinematics
 import b3 as b3          # behavior trees     
  
 
+# find the variable th_xy for the sum (or difference) of two joint variables
+#   (result is None if arg is anything else, or if the name th_xy already stands for
+#    something else, such as th_12 for th_1+th_2 when arg is th_1-th_2)
+def find_xy(arg, unknowns, auxeqns):
+    terms = []
+    for u in unknowns:
+        for sgn in [1, -1]:
+            if sgn * u.symbol in sp.Add.make_args(arg) and str(u.symbol).startswith('th_'):
+                terms.append((u, sgn))
+    if len(terms) != 2 or arg != sum(sgn*u.symbol for u, sgn in terms) or terms[0][1] + terms[1][1] < 0:
+        return None
+    terms.sort(key=lambda t: (-t[1], str(t[0].symbol)[3:]))   # positive term first, like sum_of_angles_sub()
+    th_xy = sp.var('th_' + ''.join([str(u.symbol)[3:] for u, sgn in terms]))
+    for e in auxeqns:
+        if e.LHS == th_xy:
+            return th_xy if e.RHS == arg else None
+    return None if find_obj(th_xy, unknowns) else th_xy
+
 class sum_id(b3.Action):   ##  we should change this name since its a transform
 
     def tick(self, tick):
@@ -78,21 +96,20 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                         found = False
                         while len(sub_sin) > 0 and not found:
                             sin_expr = sub_sin.pop()
-                            d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0: #has to be joint variable
-                                found = True
+                            arg = sin_expr.args[0]
+                            th_xy = find_xy(arg, unknowns, R.kequation_aux_list)  #has to be joint variables
+                            found = th_xy is not None
 
                             
                         while len(sub_cos) > 0 and not found:
                             cos_expr = sub_cos.pop()
-                            d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0:
-                                found = True
+                            arg = cos_expr.args[0]
+                            th_xy = find_xy(arg, unknowns, R.kequation_aux_list)  #has to be joint variables
+                            found = th_xy is not None
                             
                         if found:
                             print('- - - - - - - - >>>> test: found:', expr)
                             success_flag = True
-                            th_xy = find_xy(d[thx], d[thy])
                             #if not exists in the unknown list (this requires proper hashing), create variable
                             if th_xy not in unkn_sums_sym:
                                 print("found NEW 'joint' (updated) (sumofangle) variable: ")
@@ -103,25 +120,25 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                                 # extract subscripts from SOA variables to get combined variable
                                 #   ([3:] eliminates 'th_' from string name)
                                 #print('test: .n ',str(d[thx])[3:], str(d[thy])[3:])
-                                newjoint.n = int(str(d[thx])[3:]+str(d[thy])[3:]) # store new subscript
+                                newjoint.n = int(str(th_xy)[3:]) # store new subscript
                                 #newjoint.joint_eq = d[thx] + d[sgn] * d[thy]
                                 alreadyThere = False
                                 for u in unknowns:
-                                    if u.n == newjoint.n:
+                                    if u.symbol == th_xy:
                                         print('>>> Skipping a duplicate variable: Th', newjoint.n)
                                         alreadyThere=True
                                 if not alreadyThere:
                                     print('>>>>     appending variable to unknowns: ', newjoint)
                                     unknowns.append(newjoint) #add it to unknowns list
-                                tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
-                                print('sumofanglesT: appending ', tmpeqn)
-                                # store the SOA aux equation 
-                                R.kequation_aux_list.append(tmpeqn)
-                                print(d[thx] + d[sgn]*d[thy])
+                                tmpeqn = kequation(th_xy, arg)
+                                if tmpeqn not in R.kequation_aux_list:
+                                    print('sumofanglesT: appending ', tmpeqn)
+                                    # store the SOA aux equation
+                                    R.kequation_aux_list.append(tmpeqn)
                                 #substitute all thx +/- thy expression with th_xy
-                                matr_equ.Ts = matr_equ.Ts.subs(d[thx] + d[sgn] * d[thy], th_xy)
-                                matr_equ.Td = matr_equ.Td.subs(d[thx] + d[sgn] * d[thy], th_xy) 
-        
+                                matr_equ.Ts = matr_equ.Ts.subs(arg, th_xy)
+                                matr_equ.Td = matr_equ.Td.subs(arg, th_xy)
+
         tick.blackboard.set('Robot', R)
 
         ##############   DEBUG
-- 
2.43.0


From 2073376835a263c6e6f0fc29cf889baf75fe8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 26/39] fix: x2z2_transform expands th_12 etc. to what they
 stand for in this robot

---
 ikbtleaves/x2y2_transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/x2y2_transform.py b/ikbtleaves/x2y2_transform.py
index b4e9aa1..07bab41 100644
--- a/ikbtleaves/x2y2_transform.py
+++ b/ikbtleaves/x2y2_transform.py
@@ -235,7 +235,10 @@ class x2z2_transform(b3.Action):
 
                     temp_r = temp_r.simplify()
                     
-                    temp_r = temp_r.subs(soa_expansions)
+                    # th_12 etc as this robot defines them (can be a difference)
+                    expansions = soa_expansions.copy()
+                    expansions.update({e.LHS: e.RHS for e in R.kequation_aux_list if e.LHS in soa_expansions})
+                    temp_r = temp_r.subs(expansions)
                     
                     temp_r = temp_r.simplify()
                 
-- 
2.43.0


From 5721a9a649095c27f0b2927c6d3c25d4b4eb0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 27/39] fix: robot_params lists the robots it has (DZhang was
 joined to Issue4, Chair6DOF has no model)

---
 ikbtfunctions/ik_robots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..c89c456 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,15 +45,14 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
-            'Khat6DOF',    
+            'Khat6DOF',  # below not solvable yet
             'Craig417', 
             'KawasakiRS05L',
             'KawasakiRS007L',
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
-- 
2.43.0


From b9b173f16efaa998fab74eebeb9f793f8465c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 28/39] fix: MiniDD gives a joint type for each of the six rows
 of its DH table

---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index c89c456..f9499f5 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -365,7 +365,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,1]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
-- 
2.43.0


From eb267c9ac54a0d1bfcbd3033985b69bfe4a158bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 29/39] fix: Mackler13 declares its parameter h and gives it a
 value

---
 ikbtfunctions/ik_robots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index f9499f5..4f61976 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -480,8 +480,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From 8ae797a5175060cf0b2d5346e0c658e083cf8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 30/39] fix: x2z2_transform moves known terms to the left side
 before squaring (UR5)

---
 ikbtleaves/x2y2_transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/x2y2_transform.py b/ikbtleaves/x2y2_transform.py
index 07bab41..88cfee3 100644
--- a/ikbtleaves/x2y2_transform.py
+++ b/ikbtleaves/x2y2_transform.py
@@ -198,7 +198,9 @@ class x2z2_transform(b3.Action):
         for e in (two_unk): # only two-unk list is enough
             tmp = e.RHS + e.LHS
             if (tmp.has(Py) or tmp.has(Px) or tmp.has(Pz)):
-                eqn_ls.append(e)
+                # what is known already belongs on the left side (UR5: terms in th_234)
+                known = sum(t for t in sp.Add.make_args(e.RHS.expand()) if count_unknowns(unknowns, t) == 0)
+                eqn_ls.append(kc.kequation(e.LHS - known, e.RHS - known))
 
         found = False
 
-- 
2.43.0


From e85eff8ddfb7134eb13b1c586078323aef3a02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 31/39] fix: sinandcos_id does not solve an equation that reads
 0 = 0 at every pose (Arm_3, JennyGuoSp24, UR5)

---
 ikbtbasics/ik_classes.py       | 13 +++++++++++++
 ikbtleaves/sinANDcos_solver.py |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index a200a85..f384a47 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -196,6 +196,19 @@ class Robot:
             self.mequation_list = Mech.get_mequation_set()  # all the Matrix FK equations
             print('ik_classes: length Robot.mequation_list: ', len(self.mequation_list))
 
+    #  Is an expression of the pose (r_ij, Px, Py, Pz) and of solved unknowns zero at EVERY pose this mechanism
+    #  can reach (r_13 of a planar arm, for example)?   Decided at one generic configuration.
+    def always_zero(self, expr):
+        expr = sp.sympify(expr)
+        if hasattr(self, 'Mech'):
+            soas = {e.LHS: e.RHS for e in self.kequation_aux_list if e.LHS.is_Symbol}
+            pose = {p: e for p, e in zip(self.Mech.Td, self.Mech.T_06) if p.is_Symbol}
+            expr = expr.xreplace(soas).xreplace(soas).xreplace(pose)
+            generic = sorted(expr.free_symbols, key=str)
+            expr = expr.xreplace({v: sp.Float(0.37 + 0.61*i) for i, v in enumerate(generic)})
+            return abs(expr.evalf()) < 1.0e-9
+        return expr == 0
+
     #   *********  new fcn for final soln versions
     #  generate the final list of versions for this unknown
     #
diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 0ba2321..9bb147e 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -133,7 +133,9 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
                   # linear in sin(u) and cos(u): no coefficient may contain u
-                  if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)):
+                  #   and not true for every value of u because it reads 0 = 0 at every pose
+                  if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)
+                          or R.always_zero(d[Aw]**2 + d[Bw]**2)):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
-- 
2.43.0


From 7838b07c51da25c3cb2932b63886fd6e12fa42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 32/39] fix: FK code declares every joint variable,
 sum-of-angles ones as they are defined (th_12 can be a difference)

---
 ikbtfunctions/output_python.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 6ba8952..d0d2b25 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -107,23 +107,13 @@ pi = np.pi
 
     print('#\n#     Robot Joint Variables \n#',file=f)
 
+    #   sum-of-angles variables have definitions, e.g. th_23 = th_2 + th_3
+    soa_defs = {e.LHS: e.RHS for e in Robot.kequation_aux_list}
     for v in Robot.variables:
-        ss = str(v).split('_')   # get joint subscript(s)
-        print('Variabl: SofA: ', str(v), ss)
-        if len(ss) > 1:
-            if len(ss[1]) > 1:  # we have a sum_of_angles
-                print('Sum of ang found in variable: ', str(v))
-                subs = [*ss[1]] # make list of
-                soa = str(v) + ' = ' # e.g. 'th_23 = '
-                for s in subs:
-                    print('Debug subscript s:',ss, s)
-                    # find var with this subscript:
-                    for v1 in Robot.variables:
-                        if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
-                            soa += f' {str(v1)} +'
-                print(indent + soa[:-1], file=f)
-            else:
-                print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+        if v.symbol in soa_defs:
+            print(indent + f'{str(v)} = {soa_defs[v.symbol]}', file=f)
+        else:
+            print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0


From fca0d59fd76c5b0bc4b5f22638ccef3f759e41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 33/39] fix: FK code: Matrix objects do not share their
 contents

---
 ikbtfunctions/output_python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index d0d2b25..62392f0 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -69,9 +69,9 @@ pi = np.pi
 
     matclass = '''class Matrix:
     def __init__(self,A):
-        Matrix.A = A
-        Matrix.rows = len(A)
-        Matrix.cols = len(A[0])
+        self.A = A
+        self.rows = len(A)
+        self.cols = len(A[0])
 
     def __repr__(self):
         res = '\\n'
-- 
2.43.0


From 92db358da2f64422c1c46fde960ee7c013fafbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 34/39] fix: generated python code can have values for some
 parameters only (twist angles have values, others need not)

---
 ikbtfunctions/output_python.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 62392f0..646237f 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,11 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
@@ -181,12 +180,11 @@ pi = np.pi
 
     # parameter Declarations (a_3, d_5, etc).
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += '    ' + str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
-- 
2.43.0


From c1c0014df4adb3b2a5c6d862801985a50088d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 35/39] fix: debug output of tan_id no longer changes what is
 solved; counting unknowns accepts a plain 0

---
 ikbtfunctions/helperfunctions.py |  1 +
 ikbtleaves/tan_solver.py         | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ikbtfunctions/helperfunctions.py b/ikbtfunctions/helperfunctions.py
index a3154f2..2e0f4e7 100644
--- a/ikbtfunctions/helperfunctions.py
+++ b/ikbtfunctions/helperfunctions.py
@@ -35,6 +35,7 @@ def theta_expand(x):
 
 ## how many unknowns are in expr?
 def count_unknowns(unknowns, expr):
+    expr = sp.sympify(expr)   # one side of an equation may be a plain 0
     n = 0
     for u in unknowns:
         if(expr.has(u.symbol) and u.solved == False):
diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index bf6d442..1b0622e 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -124,7 +124,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                     print("\nsin equ: ")
                     print(u.eqntosolve)
                     print("\nsin(): coefficients are : ")
-                    print(d1[Awx] )
+                    print(d1[Awx] if d1 is not None else 'no match')
                     print('---')
                 for ec in cos_eqn:  
                     ectst = (ec.RHS - ec.LHS).collect(terms)  # get all the cos(th)s collected
@@ -133,7 +133,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                         print("\ncos equ: ")
                         print(u.secondeqn)
                         print("\ncos(): coefficients")
-                        print(d2[Cwx]          )
+                        print(d2[Cwx] if d2 is not None else 'no match')
                     
                     # A failed match is NOT an error -- it means this particular
                     # (sin eqn, cos eqn) pair is not of the form this leaf
@@ -201,12 +201,12 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                         e1tmp = u.eqntosolve.RHS + u.eqntosolve.LHS 
                         e2tmp = u.secondeqn.RHS + u.secondeqn.LHS
                         print('                       ', u.eqntosolve, '  (', count_unknowns(unknowns, e1tmp), 'unks)')
-                        for u in get_unknowns(unknowns, e1tmp):
-                            print(u.symbol, )
+                        for v in get_unknowns(unknowns, e1tmp):
+                            print(v.symbol, )
                         print('')
                         print('                       ', u.secondeqn, '  (', count_unknowns(unknowns, e2tmp), 'unks)')
-                        for u in get_unknowns(unknowns, e1tmp):
-                            print(u.symbol, )
+                        for v in get_unknowns(unknowns, e2tmp):
+                            print(v.symbol, )
                         print('')
                         print('')
                     if found:
-- 
2.43.0


From 84a6a76001fa6f2117bba2508320b6cbf7145761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:59 +0000
Subject: [PATCH 36/39] fix: an equation the arcsine/arccosine leaf cannot use
 no longer blocks the unknown for good

---
 ikbtleaves/sincos_solver.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index ce626e5..afdac3c 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -162,6 +162,14 @@ class sincos_id(b3.Action):    # action leaf for sincosid
 # solve eqns in T where one equation can be solved by
 #        arcsin() or arccos()
 class sincos_solve(b3.Action):    # Solve asincos equation pairs
+    #  This equation cannot be used.  Undo what the ID noted, so that the ID
+    #  looks again when the unknown comes round with other equations.
+    def decline(self, u, method):
+        u.solvable_sincos = False
+        u.solvemethod = u.solvemethod[:u.solvemethod.rfind(method)]
+        if u.solvemethod.endswith(', '):
+            u.solvemethod = u.solvemethod[:-2]
+
     def tick(self, tick):
         R = tick.blackboard.get('Robot')
         solvedanything = False
@@ -210,6 +218,7 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 # degenerately, so d is None happens where it once did not.
                 if(d is None):
                     print("sincos_solve (arcsin branch):  Somethings Wrong!")
+                    self.decline(u, 'arcsin')
                     return b3.FAILURE
                 A = d[Aw]
                 if(d[Bw] is not None):
@@ -221,6 +230,7 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 # solution: decline (as for a failed match, above).
                 if A == 0 or A.has(u.symbol) or B.has(u.symbol):
                     print('sincos_solve (arcsin): solution contains itself -- declining')
+                    self.decline(u, 'arcsin')
                     return b3.FAILURE
                 targument = (lhs-B)/A
                 sol1 = sp.asin( targument  )
@@ -243,6 +253,7 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 d   = rhs.match(Aw*sp.cos(u.symbol)+Bw)  
                 if(d is None):
                     print("sincos_solve (arccos branch):  Somethings Wrong!")
+                    self.decline(u, 'arccos')
                     return b3.FAILURE                    
                 else:        
                     A = d[Aw]
@@ -253,6 +264,7 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                             
                     if A == 0 or A.has(u.symbol) or B.has(u.symbol):
                         print('sincos_solve (arccos): solution contains itself -- declining')
+                        self.decline(u, 'arccos')
                         return b3.FAILURE
                     targument = (lhs-B)/A
                     sol1 =   sp.acos( targument  )
-- 
2.43.0


From 32854abbfea4547aa70dd6fd9937383ad907f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 37/39] fix: the arcsine/arccosine leaf looks past an equation
 it cannot use to one it can

---
 ikbtleaves/sincos_solver.py | 107 +++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 58 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index afdac3c..faae99b 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -92,7 +92,42 @@ class test_sincos_id(b3.Action):    # tester for sincos ID
       tick.blackboard.set('unknowns',variables)
       tick.blackboard.set('Robot',R)    
       return b3.SUCCESS
-      
+
+
+#  Read the equation as  lhs = A f(u) + B  with f = sp.sin or sp.cos.
+#     Returns (lhs, A, B), or None if it does not have this form.
+def sincos_match(eqn, u, f):
+    terms = [sp.sin(u.symbol), sp.cos(u.symbol)]
+    # the unknown may be on either side (or both sides) of
+    # the equation: move it to the right hand side
+    lhs, rhs = sp.sympify(eqn.LHS), sp.sympify(eqn.RHS)
+    if lhs.has(u.symbol):
+        if rhs.has(u.symbol):
+            lhs, rhs = sp.S.Zero, rhs - lhs
+        else:
+            lhs, rhs = rhs, lhs
+    rhs = sp.collect(rhs, terms)
+    # Exclude sin/cos of this unknown from the Wilds.  'Aw*sin(u)+Bw'
+    # is otherwise ambiguous -- it matches anything via
+    # Aw = (expr-Bw)/sin(u) -- and sympy returns exactly that for a
+    # negative coefficient:
+    #   -3*sin(th_1) + 1/2  ->  {Aw: 0.5/sin(th_1), Bw: -3*sin(th_1)}
+    # which made targument = (LHS-B)/A come out as 6*sin(th_1)**2 and
+    # produced the non-solution asin(6*sin(th_1)**2).
+    Aw  = sp.Wild("Aw", exclude=terms)
+    Bw  = sp.Wild("Bw", exclude=terms)
+    d   = rhs.match(Aw*f(u.symbol)+Bw)
+    # No match means this leaf cannot solve this equation -- e.g.
+    # sin(u)**2, which needs Aw = sin(u) and so is refused by exclude=terms.
+    if d is None:
+        return None
+    A = d[Aw]
+    B = d[Bw] if d[Bw] is not None else sp.S.Zero
+    # a solution that still contains its own unknown is not a solution
+    if A == 0 or A.has(u.symbol) or B.has(u.symbol):
+        return None
+    return lhs, A, B
+
 
 class sincos_id(b3.Action):    # action leaf for sincosid 
     
@@ -126,6 +161,8 @@ class sincos_id(b3.Action):    # action leaf for sincosid
                     and (e.RHS.has(sp.cos(u.symbol)) or e.LHS.has(sp.cos(u.symbol))):
                     continue   # this shouldbe caught by another ID
                 if e.RHS.has(sp.sin(u.symbol)) or e.LHS.has(sp.sin(u.symbol)):   # we found  X = Asin(x)
+                    if sincos_match(e, u, sp.sin) is None:
+                        continue   # keep looking -- another eqn may be usable
                     if(self.BHdebug):
                         print('I found an sin() equation to ID: ', e)
                     u.eqntosolve = e
@@ -138,6 +175,8 @@ class sincos_id(b3.Action):    # action leaf for sincosid
                     break
                     
                 if e.RHS.has(sp.cos(u.symbol)) or e.LHS.has(sp.cos(u.symbol)):   # we found X = Acos(x)
+                    if sincos_match(e, u, sp.cos) is None:
+                        continue   # keep looking -- another eqn may be usable
                     if(self.BHdebug):
                         print('I found an cos() equation to ID: ', e)
                     u.eqntosolve = e
@@ -185,53 +224,14 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 print("  Using the ", u.solvemethod, " on:")
                 print(u.eqntosolve)
 
-            # parse the equation RHS 
-            terms = [sp.sin(u.symbol), sp.cos(u.symbol)]
-            # the ID accepts the unknown on either side (or both sides) of
-            # the equation: move it to the right hand side
-            lhs, rhs = u.eqntosolve.LHS, u.eqntosolve.RHS
-            if lhs.has(u.symbol):
-                if rhs.has(u.symbol):
-                    lhs, rhs = sp.S.Zero, rhs - lhs
-                else:
-                    lhs, rhs = rhs, lhs
-            rhs = sp.collect(rhs, terms)
-            # Exclude sin/cos of this unknown from the Wilds.  'Aw*sin(u)+Bw'
-            # is otherwise ambiguous -- it matches anything via
-            # Aw = (expr-Bw)/sin(u) -- and sympy returns exactly that for a
-            # negative coefficient:
-            #   -3*sin(th_1) + 1/2  ->  {Aw: 0.5/sin(th_1), Bw: -3*sin(th_1)}
-            # which made targument = (LHS-B)/A come out as 6*sin(th_1)**2 and
-            # produced the non-solution asin(6*sin(th_1)**2).
-            Aw  = sp.Wild("Aw", exclude=terms)
-            Bw  = sp.Wild("Bw", exclude=terms)
             if  'arcsin' in u.solvemethod:
-                d   = rhs.match(Aw*sp.sin(u.symbol)+Bw)
-                # No match means this leaf cannot solve this equation -- e.g.
-                # sin(u)**2, which needs Aw = sin(u) and so is refused by
-                # exclude=terms.  Decline and let the Priority try another leaf,
-                # as the arccos branch below already does.  This used to be an
-                # assert(), which aborted the whole solve; the two branches
-                # disagreeing meant sin(u)**2 crashed while cos(u)**2 did not.
-                # NB the exclude= hardening made this more reachable, not less:
-                # the Wilds now correctly refuse shapes they previously matched
-                # degenerately, so d is None happens where it once did not.
-                if(d is None):
+                m = sincos_match(u.eqntosolve, u, sp.sin)
+                # Decline and let the Priority try another leaf
+                if(m is None):
                     print("sincos_solve (arcsin branch):  Somethings Wrong!")
                     self.decline(u, 'arcsin')
                     return b3.FAILURE
-                A = d[Aw]
-                if(d[Bw] is not None):
-                    B = d[Bw]
-                else:
-                    B = sp.S.Zero
-                    
-                # a solution that still contains its own unknown is not a
-                # solution: decline (as for a failed match, above).
-                if A == 0 or A.has(u.symbol) or B.has(u.symbol):
-                    print('sincos_solve (arcsin): solution contains itself -- declining')
-                    self.decline(u, 'arcsin')
-                    return b3.FAILURE
+                lhs, A, B = m
                 targument = (lhs-B)/A
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
@@ -250,22 +250,13 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 solvedanything = True
                 
             elif  "arccos" in u.solvemethod:
-                d   = rhs.match(Aw*sp.cos(u.symbol)+Bw)  
-                if(d is None):
+                m = sincos_match(u.eqntosolve, u, sp.cos)
+                if(m is None):
                     print("sincos_solve (arccos branch):  Somethings Wrong!")
                     self.decline(u, 'arccos')
-                    return b3.FAILURE                    
-                else:        
-                    A = d[Aw]
-                    if(d[Bw] is not None):
-                        B = d[Bw]
-                    else:
-                        B = 0
-                            
-                    if A == 0 or A.has(u.symbol) or B.has(u.symbol):
-                        print('sincos_solve (arccos): solution contains itself -- declining')
-                        self.decline(u, 'arccos')
-                        return b3.FAILURE
+                    return b3.FAILURE
+                else:
+                    lhs, A, B = m
                     targument = (lhs-B)/A
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
-- 
2.43.0


From 675e9cdbc8a0b0c8d6840b28a4bf151e407827b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 38/39] fix: an equation given with a plain number on one side
 can be scanned by every leaf

---
 ikbtbasics/kin_cl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index 58240ba..6b470ee 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -48,8 +48,9 @@ sp.var('x')
 #  Kinematic Equation class
 class kequation:
     def __init__(self,LHS=x,RHS=x):
-        self.LHS = LHS
-        self.RHS = RHS
+        # a plain number (0, mostly) must know .has() etc. like any expression
+        self.LHS = sp.Integer(LHS) if type(LHS) is int else LHS
+        self.RHS = sp.Integer(RHS) if type(RHS) is int else RHS
         self.string = str(LHS) + ' = '+ str(RHS)
 
     def prt(self):
-- 
2.43.0


From 25ab24065a8cb28cef80d97316d5e63312da91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 39/39] fix: parameters declared, and values removed, since the
 kinematics were pickled are taken over

---
 ikbtbasics/ik_classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index f384a47..5fa7cf0 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,7 +85,11 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
-            m.pvals.update(pvals)  # numerical values of parameters may have changed since
+            # declared parameters and their numerical values may have changed since
+            #   (the forward kinematics added ca0, sa0 etc. for twist angles)
+            twist = [p for p in m.params if str(p)[:2] in ['ca','sa'] and p not in constants and p in m.pvals]
+            m.params = constants + twist
+            m.pvals = {**{p: m.pvals[p] for p in twist}, **pvals}
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0

