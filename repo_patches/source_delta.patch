From efc076aa65ec719cf025c20347b8c5cc1937a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 01/93] fix: factor the CSC form in the pyrlu linear solver
 path

---
 pypower/pplinsolve.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/pplinsolve.py b/pypower/pplinsolve.py
index 968a8c9..7e43e75 100644
--- a/pypower/pplinsolve.py
+++ b/pypower/pplinsolve.py
@@ -9,11 +9,11 @@ def pplinsolve(A, b, lin_solver=None):
     if lin_solver == "pyrlu":
         x = asfortranarray(b.copy())
 
-        if isinstance(A, csc_matrix):
-            trans = False
-        elif isinstance(A, csr_matrix):
-            trans = True
-        else:
+        if isinstance(A, csr_matrix):
+            ## factor the columns of A: pyrlu's transposed solve does not
+            ## undo the row interchanges made while pivoting
+            A = A.tocsc()
+        elif not isinstance(A, csc_matrix):
             raise Exception("matrix A must be CSC or CSR:", type(A))
 
         m, n = A.shape
@@ -22,7 +22,7 @@ def pplinsolve(A, b, lin_solver=None):
         A.sum_duplicates()
 
         import pyrlu
-        pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=trans, par=False)
+        pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=False, par=False)
     else:
         x = spsolve(A, b)
 
-- 
2.43.0


From 16b8c1cdb444b73c1141b1da8609538aa5f9ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 02/93] fix: fast-decoupled power flow without PQ buses

---
 pypower/fdpf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 64c1252..bf09212 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -61,7 +61,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
     ## check tolerance
     normP = linalg.norm(P, inf)
-    normQ = linalg.norm(Q, inf)
+    normQ = linalg.norm(Q, inf) if len(pq) else 0.0
     if verbose > 1:
         sys.stdout.write('\niteration     max mismatch (p.u.)  ')
         sys.stdout.write('\ntype   #        P            Q     ')
@@ -78,7 +78,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
     ## factor B matrices
     Bp_solver = splu(Bp)
-    Bpp_solver = splu(Bpp)
+    if len(pq):               ## no Q iterations without PQ buses
+        Bpp_solver = splu(Bpp)
 
     ## do P and Q iterations
     while (not converged and i < max_it):
@@ -99,7 +100,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
         ## check tolerance
         normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normQ = linalg.norm(Q, inf) if len(pq) else 0.0
         if verbose > 1:
             sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
                              (type,i, normP, normQ))
@@ -111,11 +112,12 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
             break
 
         ##-----  do Q iteration, update Vm  -----
-        dVm = -Bpp_solver.solve(Q)
+        if len(pq):
+            dVm = -Bpp_solver.solve(Q)
 
-        ## update voltage
-        Vm[pq] = Vm[pq] + dVm
-        V = Vm * exp(1j * Va)
+            ## update voltage
+            Vm[pq] = Vm[pq] + dVm
+            V = Vm * exp(1j * Va)
 
         ## evalute mismatch
         mis = (V * conj(Ybus * V) - Sbus) / Vm
@@ -124,7 +126,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
         ## check tolerance
         normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normQ = linalg.norm(Q, inf) if len(pq) else 0.0
         if verbose > 1:
             sys.stdout.write('\n  Q  %3d   %10.3e   %10.3e' % (i, normP, normQ))
         if normP < tol and normQ < tol:
-- 
2.43.0


From a2f7b66b79462aa114c2e31b959605cdebca8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 03/93] fix: enforcement of generator Q limits in runpf

---
 pypower/runpf.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..ac9891b 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, isin
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -206,12 +206,10 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 mn = find( gen_status & qg_min_lim )
                 
                 if len(mx) > 0 or len(mn) > 0:  ## we have some Q limit violations
-                    # first check for INFEASIBILITY (all remaining gens violating)
+                    # first check for INFEASIBILITY (violations at all
+                    # remaining voltage-controlled buses)
                     infeas = union1d(mx, mn)
-                    remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                    if all(isin(r_[ref, pv], gen[infeas, GEN_BUS])):
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -222,12 +220,12 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -249,7 +247,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
@@ -263,11 +261,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if any(ref != ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
-                            print('Bus %d is new slack bus\n' % ref)
+                            print('Bus %d is new slack bus\n' % ref[0])
 
                     limited = r_[limited, mx].astype(int)
                 else:
@@ -279,11 +277,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = gen[limited[i], GEN_BUS].astype(int)  ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if any(ref != ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From c3050ef9e6e2e48cd886bf8507cfa5ebbc2474e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 04/93] fix: e2i_data drops the reordering of sparse
 multi-block data

---
 pypower/e2i_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
-- 
2.43.0


From 8b8d644d7478d4c54b9711a664c23c7f407df83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 05/93] fix: int2ext1 with an areas matrix, or without one

---
 pypower/int2ext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..630bee1 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -125,7 +125,7 @@ def int2ext(ppc, val_or_field=None, oldval=None, ordering=None, dim=0):
     return ppc
 
 
-def int2ext1(i2e, bus, gen, branch, areas):
+def int2ext1(i2e, bus, gen, branch, areas=None):
     """Converts from the consecutive internal bus numbers back to the originals
     using the mapping provided by the I2E vector returned from C{ext2int}.
 
@@ -137,7 +137,7 @@ def int2ext1(i2e, bus, gen, branch, areas):
     branch[:, F_BUS] = i2e[ branch[:, F_BUS].astype(int) ]
     branch[:, T_BUS] = i2e[ branch[:, T_BUS].astype(int) ]
 
-    if areas != None and len(areas) > 0:
+    if areas is not None and len(areas) > 0:
         areas[:, PRICE_REF_BUS] = i2e[ areas[:, PRICE_REF_BUS].astype(int) ]
         return bus, gen, branch, areas
 
-- 
2.43.0


From 74ac30e1c43fd047e2a5d16a4450a79f75841093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 06/93] fix: e2i_field/i2e_field with nested fields sharing a
 parent

---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 26ea0e7631e596d692b4bc86a7c812593994ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 07/93] fix: OPF cost is zero when only the first cost row is
 polynomial

any(ipol) tests the values of the index vector, so a single polynomial
row at index 0 left the polynomial cost out of the objective.
---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..5f2feac 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol) > 0:
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
-- 
2.43.0


From b895393639ea5560f71ca5964955388938c12c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 08/93] fix: Hessian of the OPF cost with reactive costs or an
 empty user cost

any() of a 2-d array raises, the reactive rows started one row late, and
AA is undefined when N has no entries.
---
 pypower/opf_costfcn.py | 6 +++---
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 5f2feac..527db0f 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:      ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if issparse(N) and N.nnz > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..7d15ba6 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:      ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From 53d95ae971112f055350c006d7a76f0178f91d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 09/93] fix: opf_model.add_costs loses dd, rh, kk and mm

The vectors were stored under the literal key 'name', so the function
type, shift, dead zone and scale of user costs were ignored.
---
 pypower/opf_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..6e33e83 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
-- 
2.43.0


From ba37a4bbd114372c53d08e30adf77654156ef2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 10/93] fix: OPF with only piecewise linear costs and a float
 baseMVA

polycost returned a list for no rows, which a float cannot multiply.
---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From 49ada316ab4bf7f41f658e139facdb5c9c008d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 11/93] fix: user costs without a quadratic term H

H is optional, but a missing one was passed on as None.
---
 pypower/opf_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..1280079 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0


From c4db9da185cabe257c8ebc43fcdd487073db56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 12/93] fix: AC OPF without any branch flow limit

The constraint function returned a 2-d empty vector and the Hessian
built zero-sized diagonal matrices, so pips failed on such a case.
---
 pypower/opf_consfcn.py | 2 +-
 pypower/opf_hessfcn.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 7d15ba6..897e32c 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -164,7 +164,10 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     nmu = int(len(lmbda["ineqnonlin"]) / 2)
     muF = lmbda["ineqnonlin"][:nmu]
     muT = lmbda["ineqnonlin"][nmu:nmu + nmu]
-    if ppopt['OPF_FLOW_LIM'] == 2:       ## current
+    if nl2 == 0:                         ## no flow constraints
+        Hfaa = Hfav = Hfva = Hfvv = sparse((nb, nb))
+        Htaa = Htav = Htva = Htvv = sparse((nb, nb))
+    elif ppopt['OPF_FLOW_LIM'] == 2:     ## current
         dIf_dVa, dIf_dVm, dIt_dVa, dIt_dVm, If, It = dIbr_dV(branch, Yf, Yt, V)
         Hfaa, Hfav, Hfva, Hfvv = d2AIbr_dV2(dIf_dVa, dIf_dVm, If, Yf, V, muF)
         Htaa, Htav, Htva, Htvv = d2AIbr_dV2(dIt_dVa, dIt_dVm, It, Yt, V, muT)
-- 
2.43.0


From d2db9d265a93bfab7d8822c412bde0d0d60a35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 13/93] fix: pips modifies the caller's options

---
 pypower/pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index a94c5c8..693eb80 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -197,7 +197,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
     else:
         nonlinear = True
 
-    if opt is None: opt = {}
+    opt = {} if opt is None else dict(opt)
     # options
     if "feastol" not in opt:
         opt["feastol"] = 1e-06
-- 
2.43.0


From 17c56b8d08dd0f08cc45b8d10d0e5f5818cf1b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 14/93] fix: LP without linear constraints, and optional
 fields, in qps_pips

---
 pypower/qps_pips.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..2bb27c1 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -126,7 +126,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = dict(H)
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
@@ -134,16 +134,17 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if x0 is not None: p['x0'] = x0
         if opt is not None: p['opt'] = opt
 
-    if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
+    # drop the optional fields which are not set
+    p = dict((k, v) for k, v in p.items() if v is not None)
+
+    if 'H' not in p:#p['H'].nnz == 0:
+        if ('A' not in p or p['A'].nnz == 0) and \
            'xmin' not in p and \
            'xmax' not in p:
-#           'xmin' not in p or len(p['xmin']) == 0 and \
-#           'xmax' not in p or len(p['xmax']) == 0:
             print('qps_pips: LP problem must include constraints or variable bounds')
             return
         else:
-            if p['A'] is not None and p['A'].nnz >= 0:
+            if 'A' in p:
                 nx = p['A'].shape[1]
             elif 'xmin' in p and len(p['xmin']) > 0:
                 nx = p['xmin'].shape[0]
@@ -156,7 +157,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     p['xmin'] = -inf * ones(nx) if 'xmin' not in p else p['xmin']
     p['xmax'] =  inf * ones(nx) if 'xmax' not in p else p['xmax']
 
-    p['c'] = zeros(nx) if p['c'] is None else p['c']
+    p['c'] = zeros(nx) if 'c' not in p else p['c']
 
     p['x0'] = zeros(nx) if 'x0' not in p else p['x0']
 
-- 
2.43.0


From 1f08d851258d200148cbbd833a7a3a3d4457fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 15/93] fix: qps_pypower modifies the caller's pips_opt

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..7c79f68 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -168,7 +168,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
         if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
+            pips_opt = dict(opt['pips_opt'])
         else:
             pips_opt = {}
 
-- 
2.43.0


From 0cfdd055d47ea0da82bbc45a3e253d579c27dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 16/93] fix: dense H and A in qps_pips and qps_pypower

---
 pypower/qps_pips.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 2bb27c1..d1b8a8a 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -137,6 +137,10 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     # drop the optional fields which are not set
     p = dict((k, v) for k, v in p.items() if v is not None)
 
+    # the matrices may be dense
+    for k in ('H', 'A'):
+        if k in p: p[k] = sparse(p[k])
+
     if 'H' not in p:#p['H'].nnz == 0:
         if ('A' not in p or p['A'].nnz == 0) and \
            'xmin' not in p and \
-- 
2.43.0


From 69287c0b3eb5bb8db27631ceb112ac1847717cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 17/93] fix: poly2pwl always crashed

---
 pypower/poly2pwl.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pypower/poly2pwl.py b/pypower/poly2pwl.py
index d7b0b2d..d577301 100644
--- a/pypower/poly2pwl.py
+++ b/pypower/poly2pwl.py
@@ -5,7 +5,7 @@
 """Converts polynomial cost variable to piecewise linear.
 """
 
-from numpy import ones, zeros, r_
+from numpy import linspace, ones, r_, tile, zeros
 
 from pypower.idx_cost import MODEL, COST, NCOST, PW_LINEAR
 
@@ -21,28 +21,22 @@ def poly2pwl(polycost, Pmin, Pmax, npts):
     C{P} really means C{Q}) it just uses C{npts} evenly spaced points between
     C{Pmin} and C{Pmax}.
     """
-    pwlcost = polycost
-    ## size of piece being changed
     m, n = polycost.shape
+    ## expand the table as needed
+    pwlcost = zeros((m, max(n, COST + 2 * npts)))
+    pwlcost[:, :COST] = polycost[:, :COST]
     ## change cost model
-    pwlcost[:, MODEL]  = PW_LINEAR * ones(m)
-    ## zero out old data
-    pwlcost[:, COST:COST + n] = zeros(pwlcost[:, COST:COST + n].shape)
+    pwlcost[:, MODEL] = PW_LINEAR * ones(m)
     ## change number of data points
-    pwlcost[:, NCOST]  = npts * ones(m)
+    pwlcost[:, NCOST] = npts * ones(m)
 
     for i in range(m):
-        if Pmin[i] == 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        elif Pmin[i] > 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 2)
-            xx = r_[0, range(Pmin[i], step, Pmax[i])]
-        elif Pmin[i] < 0 & Pmax[i] > 0:        ## for when P really means Q
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        yy = totcost(polycost[i, :], xx)
-        pwlcost[i,      COST:2:(COST + 2*(npts-1)    )] = xx
-        pwlcost[i,  (COST+1):2:(COST + 2*(npts-1) + 1)] = yy
+        if Pmin[i] > 0:
+            xx = r_[0, linspace(Pmin[i], Pmax[i], npts - 1)]
+        else:                           ## for when P really means Q
+            xx = linspace(Pmin[i], Pmax[i], npts)
+        yy = totcost(tile(polycost[i, :], (npts, 1)), xx)
+        pwlcost[i,       COST:(COST + 2 * npts):2] = xx
+        pwlcost[i, (COST + 1):(COST + 2 * npts):2] = yy
 
     return pwlcost
-- 
2.43.0


From 7da72e45398371a7fdca20809a2c40bea3c13d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 18/93] fix: totcost of a matrix of generation levels

---
 pypower/totcost.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypower/totcost.py b/pypower/totcost.py
index 90a0954..799b4a2 100644
--- a/pypower/totcost.py
+++ b/pypower/totcost.py
@@ -5,7 +5,7 @@
 """Computes total cost for generators at given output level.
 """
 
-from numpy import zeros, arange
+from numpy import array, asarray, zeros, arange
 from numpy import flatnonzero as find
 
 from pypower.polycost import polycost
@@ -24,6 +24,10 @@ def totcost(gencost, Pg):
     @author: Carlos E. Murillo-Sanchez (PSERC Cornell & Universidad
     Autonoma de Manizales)
     """
+    Pg = asarray(Pg)
+    if Pg.ndim > 1:             ## several points for each row of gencost
+        return array([totcost(gencost, p) for p in Pg.T]).reshape(Pg.T.shape).T
+
     ng, m = gencost.shape
     totalcost = zeros(ng)
 
-- 
2.43.0


From 88c8b5e611fb99bb3dffb74e9fda77aafa69ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 19/93] fix: opf_model blocks without varsets change when
 variables are added later

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 6e33e83..f971ae2 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From a6a6202da968928bffb96c7ba0cea13e801f7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 20/93] fix: opf_model.get_cost_params(name) overwrites the
 full parameters

---
 pypower/opf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index f971ae2..e6b7e56 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -584,7 +584,7 @@ class opf_model(object):
         if not 'params' in self.cost:
             stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
 
-        cp = self.cost["params"]
+        cp = dict(self.cost["params"])
 
         if name is not None:
             if self.getN('cost', name):
-- 
2.43.0


From 12cf134ffe5155b6a7d40cf8d3deddf9f5607d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 21/93] fix: opf_model with empty cost blocks

---
 pypower/opf_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index e6b7e56..4717b18 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -320,7 +320,7 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse(nw, nx)
+                cp = dict(cp, N=sparse((nw, nv)))
             else:
                 stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
 
@@ -540,6 +540,8 @@ class opf_model(object):
         N, Cw, H, dd, rh, kk, mm = \
             cp["N"], cp["Cw"], cp["H"], cp["dd"], cp["rh"], cp["kk"], cp["mm"]
         nw = N.shape[0]
+        if nw == 0:
+            return 0.0
         r = N * x - rh                 ## Nx - rhat
         iLT = find(r < -kk)            ## below dead zone
         iEQ = find((r == 0) & (kk == 0))   ## dead zone doesn't exist
@@ -587,7 +589,7 @@ class opf_model(object):
         cp = dict(self.cost["params"])
 
         if name is not None:
-            if self.getN('cost', name):
+            if name in self.cost["idx"]["N"]:
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
                 nwb = self.cost["idx"]["iN"][name]
-- 
2.43.0


From fd33b3f73f54604db31a70087591b065898efd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 22/93] fix: total_load with dispatchable loads

---
 pypower/total_load.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..100845e 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -80,7 +80,7 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
     elif len(load_zone) == 0:
         load_zone = bus[:, BUS_AREA].astype(int)   ## use areas defined in bus data as zones
 
-    nz = max(load_zone)    ## number of load zones
+    nz = int(max(load_zone))    ## number of load zones
 
     ## fixed load at each bus, & initialize dispatchable
     if want_fixed:
@@ -100,11 +100,11 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
 
         ## create map of external bus numbers to bus indices
         i2e = bus[:, BUS_I].astype(int)
-        e2i = zeros(max(i2e) + 1)
+        e2i = zeros(max(i2e) + 1, int)
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From 6128ad5f08682f0e4caa42f7e83fa3af049276ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 23/93] fix: scale_load to a quantity with dispatchable loads

---
 pypower/scale_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..f909fd8 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -110,7 +110,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
     else:
         ng = 0
         ld = array([], int)
-- 
2.43.0


From 43f5c5d9d865e67f618bc2d8a4d9abfa1c4df9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 24/93] fix: scale_load with a single system-wide zone

---
 pypower/scale_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index f909fd8..ab3d86d 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -118,7 +118,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
-- 
2.43.0


From 61ec0e30f4ee1dcb11ee1279f74952f00ec56df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 25/93] fix: scale_load modifies the caller's options, and
 truncates factors for integer targets

---
 pypower/scale_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index ab3d86d..4068cc6 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -77,8 +77,8 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         gen = gen.copy()
     if load_zone is None:
         load_zone = array([], int)
-    if opt is None:
-        opt = {}
+    opt = {} if opt is None else dict(opt)
+    load = array(load, float).reshape(-1)
 
     ## fill out and check opt
     if len(gen) == 0:
-- 
2.43.0


From cddf2552bd89bdf01f1edffa07efb89ad5b0f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 26/93] fix: scalar args in add_userfcn

---
 pypower/add_userfcn.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..ef1af84 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -87,9 +87,6 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    if args is None:
-        args = []
-
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
 
@@ -107,7 +104,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if args is not None:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From 45f50fca9ea6aa3ff0f95a0347e1aa78814e680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 27/93] fix: add_userfcn adds a function twice without
 allow_multiple

---
 pypower/add_userfcn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index ef1af84..a4da659 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -98,6 +98,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
                         stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        return ppc
         else:
             ppc['userfcn'][stage] = []
     else:
-- 
2.43.0


From 5763aa1e788281f22e3cb4f238b1f37f54f53777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 28/93] fix: printpf callbacks after a power flow

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..8556465 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -685,5 +685,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0


From 408b7629b0f604a3400494d45eccc2929feeab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 29/93] fix: list of areas in printpf

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 8556465..c9fa06d 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -151,7 +151,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From eb6b10070a3d16a168fa6cea734c850e7c415245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 30/93] fix: printpf of a DC solution overwrites the results

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index c9fa06d..d31ba1c 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From 2022c3517193bba8674ead2b0726e3a5577965da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 31/93] fix: printpf never prints binding voltage constraints
 only

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index d31ba1c..6462768 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -455,7 +455,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
-- 
2.43.0


From 23cc6cdec6ab10024421d2a4d10d5e7cbc5878d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 32/93] fix: printpf with limits of dispatchable loads

---
 pypower/printpf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 6462768..edbb4df 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -595,9 +595,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -621,16 +621,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From 579a81d18eb987a897c64a7f79b1b89a38b89248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 33/93] fix: printpf of arrays with options and without a file

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index edbb4df..e87c980 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -82,8 +82,8 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
         have_results_struct = 0
         if ppopt is None:
             ppopt = ppoption()   ## use default options
-            if fd is None:
-                fd = stdout         ## print to stdout by default
+        if fd is None:
+            fd = stdout         ## print to stdout by default
         if ppopt['OUT_ALL'] == 0:
             return     ## nothin' to see here, bail out now
 
-- 
2.43.0


From 097b37ad0f27afe7492a07148113d726ceafc22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 34/93] fix: runuopf ignores the report options on the screen

---
 pypower/runuopf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runuopf.py b/pypower/runuopf.py
index f840670..b996c1b 100644
--- a/pypower/runuopf.py
+++ b/pypower/runuopf.py
@@ -43,7 +43,7 @@ def runuopf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 fd.close()
 
     else:
-        printpf(r, stdout, ppopt=ppopt)
+        printpf(r, stdout, ppopt)
 
     ## save solved case
     if solvedcase:
-- 
2.43.0


From a530bbd31081a8cd39819960191e1131add40a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 35/93] fix: savecase modifies the caller's case

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..3f13cd0 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -45,7 +45,7 @@ def savecase(fname, ppc, comment=None, version='2'):
     Autonoma de Manizales)
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    ppc_ver = ppc["version"] = version
+    ppc_ver = version
     baseMVA, bus, gen, branch = \
         ppc["baseMVA"], ppc["bus"], ppc["gen"], ppc["branch"]
     areas = ppc["areas"] if "areas" in ppc else None
-- 
2.43.0


From 6095548a5f287d417f6508d5607269db34cff5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 36/93] fix: savecase of cost tables with unused columns

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 3f13cd0..023514c 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -283,7 +283,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-- 
2.43.0


From 111786595e8830f95450ea03ae89d6b1a657814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 37/93] fix: case files written by savecase use undefined names

---
 pypower/savecase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 023514c..dbf0784 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -148,6 +148,10 @@ def savecase(fname, ppc, comment=None, version='2'):
             stderr.write("savecase: %s.\n" % detail)
             return fname
 
+        ## names used in the case data
+        fd.write('from numpy import array, inf, nan\n')
+        fd.write('from scipy.sparse import coo_matrix\n\n')
+
         ## function header, etc.
         if ppc_ver == "1":
             raise NotImplementedError
-- 
2.43.0


From ca37662efcad66932654e65ee93623f042c84c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 38/93] fix: savecase of user constraints and costs with
 matrices A, N and H

---
 pypower/savecase.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index dbf0784..dba1c4d 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -11,6 +11,7 @@ from os.path import basename
 
 from numpy import array, c_, r_, any
 from scipy.io import savemat
+from scipy.sparse import coo_matrix, csc_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -109,16 +110,16 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
+        if "A" in ppc and ppc["A"].shape[0] > 0:
+            ppc_mat["A"] = csc_matrix(ppc["A"])
             if "l" in ppc and len(ppc["l"]) > 0:
                 ppc_mat["l"] = array(ppc["l"])
             if "u" in ppc and len(ppc["u"]) > 0:
                 ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
+        if "N" in ppc and ppc["N"].shape[0] > 0:
+            ppc_mat["N"] = csc_matrix(ppc["N"])
+            if "H" in ppc and ppc["H"].shape[0] > 0:
+                ppc_mat["H"] = csc_matrix(ppc["H"])
             if "fparm" in ppc and len(ppc["fparm"]) > 0:
                 ppc_mat["fparm"] = array(ppc["fparm"])
             ppc_mat["Cw"] = array(ppc["Cw"])
@@ -291,11 +292,11 @@ def savecase(fname, ppc, comment=None, version='2'):
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
+        if ("A" in ppc) and (ppc["A"].shape[0] > 0) or ("N" in ppc) and (ppc["N"].shape[0] > 0):
             fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
+        if ("A" in ppc) and (ppc["A"].shape[0] > 0):
             ## A
             fd.write('\n%s## user constraints\n' % indent)
             print_sparse(fd, prefix + "['A']", ppc["A"])
@@ -318,10 +319,10 @@ def savecase(fname, ppc, comment=None, version='2'):
                 fd.write('%s])\n\n' % indent)
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if ("N" in ppc) and (ppc["N"].shape[0] > 0):
             fd.write('\n%s## user costs\n' % indent)
             print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
+            if ("H" in ppc) and (ppc["H"].shape[0] > 0):
                 print_sparse(fd, prefix + "['H']", ppc["H"])
             if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
                 fd.write("%sCw_fparm = array([\n" % indent)
@@ -368,16 +369,18 @@ def savecase(fname, ppc, comment=None, version='2'):
 
 
 def print_sparse(fd, varname, A):
-    A = A.tocoo()
+    A = coo_matrix(A)
     i, j, s = A.row, A.col, A.data
     m, n = A.shape
+    indent = '    '  # four spaces
+    indent2 = indent + indent
 
     if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
+        fd.write('%s%s = coo_matrix((%d, %d)).tocsr()\n' % (indent, varname, m, n))
     else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
-
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+        fd.write('%sijs = array([\n' % indent)
+        for k in range(len(i)):
+            fd.write('%s[%d, %d, %.9g],\n' % (indent2, i[k], j[k], s[k]))
+        fd.write('%s])\n' % indent)
+        fd.write('%s%s = coo_matrix((ijs[:, 2], (ijs[:, 0].astype(int), ijs[:, 1].astype(int))), (%d, %d)).tocsr()\n' %
+                 (indent, varname, m, n))
-- 
2.43.0


From 42d8171baccaaa7514642a94e1df490fa5186b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 39/93] fix: savecase of user cost parameters, bounds and
 variables

---
 pypower/savecase.py | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index dba1c4d..3a6b8b7 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -308,15 +308,9 @@ def savecase(fname, ppc, comment=None, version='2'):
                 fd.write("%s%s['l'] = lu[:, 0]\n" % (indent, prefix))
                 fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
             elif ("l" in ppc) and (len(ppc["l"]) > 0):
-                fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
-                fd.write('%s])\n\n' % indent)
+                print_vector(fd, prefix + "['l']", ppc["l"])
             elif ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
-                fd.write('%s])\n\n' % indent)
+                print_vector(fd, prefix + "['u']", ppc["u"])
 
         ## user costs
         if ("N" in ppc) and (ppc["N"].shape[0] > 0):
@@ -326,35 +320,20 @@ def savecase(fname, ppc, comment=None, version='2'):
                 print_sparse(fd, prefix + "['H']", ppc["H"])
             if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
                 fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
+                for i in range(len(ppc["Cw"])):
+                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2, ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
                 fd.write('%s])\n' % indent)
                 fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
                 fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
             else:
-                fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
-                for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
-                fd.write('%s])\n' % indent)
+                print_vector(fd, prefix + "['Cw']", ppc["Cw"])
 
         ## user vars
         if ('z0' in ppc) or ('zl' in ppc) or ('zu' in ppc):
             fd.write('\n%s## user vars\n' % indent)
-            if ('z0' in ppc) and (len(ppc['z0']) > 0):
-                fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
-                fd.write('%s])\n' % indent)
-            if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
-                for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
-                fd.write('%s])\n' % indent)
-            if ('zu' in ppc) and (len(ppc['zu']) > 0):
-                fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
-                fd.write('%s])\n' % indent)
+            for key in ['z0', 'zl', 'zu']:
+                if (key in ppc) and (len(ppc[key]) > 0):
+                    print_vector(fd, "%s['%s']" % (prefix, key), ppc[key])
 
         ## execute userfcn callbacks for 'savecase' stage
         if 'userfcn' in ppc:
@@ -384,3 +363,7 @@ def print_sparse(fd, varname, A):
         fd.write('%s])\n' % indent)
         fd.write('%s%s = coo_matrix((ijs[:, 2], (ijs[:, 0].astype(int), ijs[:, 1].astype(int))), (%d, %d)).tocsr()\n' %
                  (indent, varname, m, n))
+
+
+def print_vector(fd, varname, v):
+    fd.write('    %s = array([%s])\n' % (varname, ', '.join(['%.9g' % x for x in v])))
-- 
2.43.0


From a59a3abc8e8dcf9ddc35c318830aa46803deaf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 40/93] fix: baseMVA of cases loaded from MAT files is not a
 float

---
 pypower/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..9ab7bd2 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -100,7 +100,7 @@ def loadcase(casefile,
                         for k, v in d.items():
                             s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    s['baseMVA'] = float(s['baseMVA'].flat[0])  # convert array to float
 
                 except IOError as e:
                     info = 3
-- 
2.43.0


From 8b8e0d48beb34e1aae64797ce625e11b08faa758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 41/93] fix: case files that use names they import

---
 pypower/loadcase.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 9ab7bd2..e4ff91e 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -107,14 +107,12 @@ def loadcase(casefile,
                     lasterr = str(e)
             elif extension == '.py':      ## from Python file
                 try:
-                    if PY2:
-                        execfile(rootname + extension)
-                    else:
-                        exec(compile(open(rootname + extension).read(),
-                                     rootname + extension, 'exec'))
+                    ns = globals().copy()     ## name space of the case file
+                    with open(rootname + extension) as fd:
+                        exec(compile(fd.read(), rootname + extension, 'exec'), ns)
 
                     try:                      ## assume it returns an object
-                        s = eval(fname)()
+                        s = ns[fname]()
                     except ValueError as e:
                         info = 4
                         lasterr = str(e)
@@ -125,7 +123,7 @@ def loadcase(casefile,
                         if expect_gencost:
                             try:
                                 s['baseMVA'], s['bus'], s['gen'], s['branch'], \
-                                s['areas'], s['gencost'] = eval(fname)()
+                                s['areas'], s['gencost'] = ns[fname]()
                             except IOError as e:
                                 info = 4
                                 lasterr = str(e)
@@ -134,18 +132,18 @@ def loadcase(casefile,
                                 try:
                                     s['baseMVA'], s['bus'], s['gen'], \
                                         s['branch'], s['areas'], \
-                                        s['gencost'] = eval(fname)()
+                                        s['gencost'] = ns[fname]()
                                 except ValueError as e:
                                     try:
                                         s['baseMVA'], s['bus'], s['gen'], \
-                                            s['branch'] = eval(fname)()
+                                            s['branch'] = ns[fname]()
                                     except ValueError as e:
                                         info = 4
                                         lasterr = str(e)
                             else:
                                 try:
                                     s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'] = eval(fname)()
+                                        s['branch'] = ns[fname]()
                                 except ValueError as e:
                                     info = 4
                                     lasterr = str(e)
-- 
2.43.0


From f6b88e6764cb030d6d1cb005c7a8674afc37e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 42/93] fix: loadcase crashes instead of returning its error
 code

---
 pypower/loadcase.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index e4ff91e..6e39cad 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -105,6 +105,9 @@ def loadcase(casefile,
                 except IOError as e:
                     info = 3
                     lasterr = str(e)
+                except Exception as e:
+                    info = 5
+                    lasterr = str(e)
             elif extension == '.py':      ## from Python file
                 try:
                     ns = globals().copy()     ## name space of the case file
@@ -151,7 +154,9 @@ def loadcase(casefile,
                 except IOError as e:
                     info = 4
                     lasterr = str(e)
-
+                except Exception as e:        ## syntax error or undefined data
+                    info = 5
+                    lasterr = str(e)
 
                 if info == 4 and exists(rootname + '.py'):
                     info = 5
@@ -159,18 +164,20 @@ def loadcase(casefile,
 
     elif isinstance(casefile, dict):
         s = deepcopy(casefile)
+        lasterr = ''
     else:
+        lasterr = ''
         info = 1
 
     # check contents of dict
     if info == 0:
         # check for required keys
-        if (s['baseMVA'] is None or s['bus'] is None \
-            or s['gen'] is None or s['branch'] is None) or \
-            (expect_gencost and s['gencost'] is None) or \
-            (expect_areas and s['areas'] is None):
+        if (s.get('baseMVA') is None or s.get('bus') is None \
+            or s.get('gen') is None or s.get('branch') is None) or \
+            (expect_gencost and s.get('gencost') is None) or \
+            (expect_areas and s.get('areas') is None):
             info = 5  ## missing some expected fields
-            err5 = 'missing data'
+            lasterr = 'missing data'
         else:
             ## remove empty areas if not needed
             if hasattr(s, 'areas') and (len(s['areas']) == 0) and (not expect_areas):
-- 
2.43.0


From c3de443cb6a0df70ef1e704c54630835dfb2754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 43/93] fix: conversion of solved version 1 cases

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 6e39cad..3c6d243 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -242,8 +242,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] > mu_Qmin:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -256,10 +256,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] > mu_St:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] > Qt:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From 971dffa1c85499781022c2ed79d97acd71b7df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 44/93] fix: user vectors and solved cases loaded from MAT
 files

---
 pypower/loadcase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 3c6d243..625e99e 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -101,6 +101,10 @@ def loadcase(casefile,
                             s[k] = v
 
                     s['baseMVA'] = float(s['baseMVA'].flat[0])  # convert array to float
+                    for k in ['l', 'u', 'Cw', 'z0', 'zl', 'zu']:
+                        if k in s:                      # vectors are 1-D
+                            s[k] = s[k].flatten()
+                    s.pop('order', None)    # not usable as a dict any more
 
                 except IOError as e:
                     info = 3
-- 
2.43.0


From 7a150e1c40350109167dc6a08449374f2ee1848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 45/93] fix: multipliers with only upper or only lower
 capability curves

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From d5e812b11a9a9db1df9b08fb4e237b04322c8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 46/93] fix: piecewise linear costs of reactive power

---
 pypower/makeAy.py    | 2 +-
 pypower/opf_setup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 1280079..dc0d7ed 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From bcde3cede687da02a94fe46be92af0897a3d0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 47/93] fix: DC OPF silently ignores costs of higher than
 quadratic order

---
 pypower/dcopf_solver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..399de3b 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -5,8 +5,6 @@
 """Solves a DC optimal power flow.
 """
 
-from sys import stderr
-
 from copy import deepcopy
 
 from math import inf
@@ -133,9 +131,9 @@ def dcopf_solver(om, ppopt, out_opt=None):
 
     ## quadratic costs
     npol = len(ipol)
-    if any(find(gencost[ipol, NCOST] > 3)):
-        stderr.write('DC opf cannot handle polynomial costs with higher '
-                     'than quadratic order.\n')
+    if any(gencost[ipol, NCOST] > 3):
+        raise ValueError('DC opf cannot handle polynomial costs with higher '
+                         'than quadratic order.')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
-- 
2.43.0


From 0713d8488a7f2cf01d15292cb820305a59ac7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 48/93] fix: constant generator costs in the DC OPF

---
 pypower/dcopf_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 399de3b..f0a8a43 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -136,11 +136,13 @@ def dcopf_solver(om, ppopt, out_opt=None):
                          'than quadratic order.')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
+    icon = find(gencost[ipol, NCOST] == 1)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
     if len(iqdr) > 0:
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icon, 2] = gencost[ipol[icon], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
-- 
2.43.0


From 3df03d48aed79429c2053c15e205ce1a27504d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 49/93] fix: constant term of the user costs in the DC OPF

---
 pypower/dcopf_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index f0a8a43..fa18cfa 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -179,7 +179,8 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From 83713995e186f41e18b98f071b3812863e836959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 50/93] fix: opf modifies the caller's options

---
 pypower/opf_execute.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..24b8387 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -74,8 +74,6 @@ def opf_execute(om, ppopt):
         elif alg == 160 | alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
-
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
             results, success, raw = pipsopf_solver(om, ppopt)
-- 
2.43.0


From 33bad61d2234e232c241ce2e378858c2db5df726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 51/93] fix: opf with RETURN_RAW_DER

---
 pypower/opf_execute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 24b8387..fb1408f 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -8,6 +8,7 @@
 from sys import stdout, stderr
 
 from numpy import array, arange, pi, zeros, r_
+from scipy.sparse import vstack
 
 from pypower.ppver import ppver
 from pypower.dcopf_solver import dcopf_solver
@@ -117,7 +118,7 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = r_[dgeq.T, dg.T]   ## true Jacobian organization
+                    raw['dg'] = vstack([dgeq.T, dg.T], 'csr')   ## true Jacobian organization
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From 7ac1644b69ca452b4775ce0b257e8a59d9410e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 52/93] fix: opf modifies the caller's case, loses additional
 fields of case files

---
 pypower/opf_args.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..fa54966 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,12 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    if isinstance(args[0], dict):
+        ppc = args[0].copy()    ## do not modify the caller's case
+    elif isinstance(args[0], basestring):
+        ppc = loadcase(args[0]) ## keep any additional fields
+    else:
+        ppc = {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 99ecafce6cbac2ba11ad4f966518c7e01eab903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 53/93] fix: reactive output is nan for generators with
 infinite Q limits

---
 pypower/pfsoln.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pypower/pfsoln.py b/pypower/pfsoln.py
index 5ffd047..b78e263 100644
--- a/pypower/pfsoln.py
+++ b/pypower/pfsoln.py
@@ -5,7 +5,8 @@
 """Updates bus, gen, branch data structures to match power flow soln.
 """
 
-from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_
+from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_, \
+    isfinite, isinf, sign
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix
@@ -58,9 +59,20 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ngg = asarray(ngg).flatten()  # 1D array
         gen[on, QG] = gen[on, QG] / ngg
 
+        ## replace infinite limits by finite proxies, from the total Q and
+        ## the finite limits at the bus
+        Qmin, Qmax = gen[on, QMIN], gen[on, QMAX]
+        M = abs(gen[on, QG])
+        for lim in (Qmin, Qmax):
+            M[isfinite(lim)] += abs(lim[isfinite(lim)])
+        M = Cg * (Cg.T * M)
+        for lim in (Qmin, Qmax):
+            ii = find(isinf(lim))
+            lim[ii] = sign(lim[ii]) * M[ii]
+
         ## divide proportionally
-        Cmin = csr_matrix((gen[on, QMIN], (range(ngon), gbus)), (ngon, nb))
-        Cmax = csr_matrix((gen[on, QMAX], (range(ngon), gbus)), (ngon, nb))
+        Cmin = csr_matrix((Qmin, (range(ngon), gbus)), (ngon, nb))
+        Cmax = csr_matrix((Qmax, (range(ngon), gbus)), (ngon, nb))
         Qg_tot = Cg.T * gen[on, QG]## nb x 1 vector of total Qg at each bus
         Qg_min = Cmin.sum(0).T       ## nb x 1 vector of min total Qg at each bus
         Qg_max = Cmax.sum(0).T       ## nb x 1 vector of max total Qg at each bus
@@ -69,9 +81,9 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ## gens at buses with Qg range = 0
         ig = find(Cg * Qg_min == Cg * Qg_max)
         Qg_save = gen[on[ig], QG]
-        gen[on, QG] = gen[on, QMIN] + \
+        gen[on, QG] = Qmin + \
             (Cg * ((Qg_tot - Qg_min) / (Qg_max - Qg_min + EPS))) * \
-                (gen[on, QMAX] - gen[on, QMIN])    ##    ^ avoid div by 0
+                (Qmax - Qmin)                      ##    ^ avoid div by 0
         gen[on[ig], QG] = Qg_save  ## (terms are mult by 0 anyway)
 
     ## update Pg for slack bus(es)
-- 
2.43.0


From f00e069ec191501a056275ec9b30a1d039736f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:28 +0000
Subject: [PATCH 54/93] fix: stale angle limit multipliers on branches without
 angle limits

---
 pypower/opf_execute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index fb1408f..b8d602a 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -131,6 +131,7 @@ def opf_execute(om, ppopt):
             del results['g']
 
         ## angle limit constraint multipliers
+        results['branch'][:, [MU_ANGMIN, MU_ANGMAX]] = 0
         if ll['N']['ang'] > 0:
             iang = om.userdata('iang')
             results['branch'][iang, MU_ANGMIN] = results['mu']['lin']['l'][ll['i1']['ang']:ll['iN']['ang']] * pi / 180
-- 
2.43.0


From 8041bad4885c06b19bbfd0562da76899aaa37261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 55/93] fix: OPF and power flow crash on some singular linear
 systems

---
 pypower/pplinsolve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pypower/pplinsolve.py b/pypower/pplinsolve.py
index 7e43e75..a898acb 100644
--- a/pypower/pplinsolve.py
+++ b/pypower/pplinsolve.py
@@ -1,4 +1,4 @@
-from numpy import asfortranarray
+from numpy import asfortranarray, full, nan
 from scipy.sparse import csc_matrix, csr_matrix
 from scipy.sparse.linalg import spsolve
 
@@ -24,6 +24,11 @@ def pplinsolve(A, b, lin_solver=None):
         import pyrlu
         pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=False, par=False)
     else:
-        x = spsolve(A, b)
+        try:
+            x = spsolve(A, b)
+        except RuntimeError:
+            ## SuperLU gives up on some structurally singular matrices,
+            ## same result as for other singular matrices
+            x = full(b.shape, nan)
 
     return x
-- 
2.43.0


From 0aef81d04d148cc5546f5f05674b46ed6d40aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 56/93] fix: results are truncated when case tables hold only
 integers

---
 pypower/loadcase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 625e99e..cd86462 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -189,6 +189,9 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+            for k in ['bus', 'gen', 'branch', 'gencost']:
+                if ppc.get(k) is not None:      # results are not integers
+                    ppc[k] = array(ppc[k], float)
             if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From c3fe05b4bb77f5d0d7f8f513eba1db96e6c07185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 57/93] fix: scale_load and modcost truncate their results to
 whole numbers for integer tables

---
 pypower/modcost.py    | 4 ++--
 pypower/scale_load.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/modcost.py b/pypower/modcost.py
index e9aabbc..9675e5e 100644
--- a/pypower/modcost.py
+++ b/pypower/modcost.py
@@ -7,7 +7,7 @@
 
 import sys
 
-from numpy import zeros, ones, arange, dot, cumsum, flatnonzero as find
+from numpy import array, zeros, ones, arange, dot, cumsum, flatnonzero as find
 
 from pypower.idx_cost import MODEL, NCOST, PW_LINEAR, POLYNOMIAL, COST
 
@@ -30,7 +30,7 @@ def modcost(gencost, alpha, modtype='SCALE_F'):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    gencost = gencost.copy()
+    gencost = array(gencost, float)
 
     ng, m = gencost.shape
     if ng != 0:
diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 4068cc6..b9f1057 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -70,11 +70,11 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     nb = bus.shape[0]   ## number of buses
 
     ##-----  process inputs  -----
-    bus = bus.copy()
+    bus = array(bus, float)
     if gen is None:
         gen = array([])
     else:
-        gen = gen.copy()
+        gen = array(gen, float)
     if load_zone is None:
         load_zone = array([], int)
     opt = {} if opt is None else dict(opt)
-- 
2.43.0


From f48d00d0990c4082670b65526c3d1af21125784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:02 +0000
Subject: [PATCH 58/93] fix: runopf_w_res crashes when no unit on line can
 provide reserves

---
 pypower/toggle_reserves.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..8337ef9 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -242,12 +242,13 @@ def userfcn_reserves_int2ext(results, *args):
     mu_l    = zeros(ng)
     mu_u    = zeros(ng)
     mu_Pmax = zeros(ng)
-    R[igr]       = results['var']['val']['R'] * results['baseMVA']
-    Rmin[igr]    = Rl * results['baseMVA']
-    Rmax[igr]    = Ru * results['baseMVA']
-    mu_l[igr]    = results['var']['mu']['l']['R'] / results['baseMVA']
-    mu_u[igr]    = results['var']['mu']['u']['R'] / results['baseMVA']
-    mu_Pmax[igr] = results['lin']['mu']['u']['Pg_plus_R'] / results['baseMVA']
+    if len(igr) > 0:
+        R[igr]       = results['var']['val']['R'] * results['baseMVA']
+        Rmin[igr]    = Rl * results['baseMVA']
+        Rmax[igr]    = Ru * results['baseMVA']
+        mu_l[igr]    = results['var']['mu']['l']['R'] / results['baseMVA']
+        mu_u[igr]    = results['var']['mu']['u']['R'] / results['baseMVA']
+        mu_Pmax[igr] = results['lin']['mu']['u']['Pg_plus_R'] / results['baseMVA']
 
     ## store in results in results struct
     z = zeros(ng0)
@@ -264,7 +265,7 @@ def userfcn_reserves_int2ext(results, *args):
         iz = find(r['zones'][:, k])
         results['reserves']['prc'][k] = sum(results['lin']['mu']['l']['Rreq'][iz]) / results['baseMVA']
 
-    results['reserves']['totalcost'] = results['cost']['Rcost']
+    results['reserves']['totalcost'] = results['cost'].get('Rcost', 0.0)
 
     ## replace ng x 1 cost, qty with ngr x 1 originals
     if 'original' in r:
-- 
2.43.0


From 63e22544222b1d96d83e707307146fbc0b5a7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:16 +0000
Subject: [PATCH 59/93] fix: cases with reserves, interface limits or DC lines
 turned on cannot be saved

---
 pypower/savecase.py        |  7 +++++
 pypower/toggle_dcline.py   | 27 ++++++------------
 pypower/toggle_iflims.py   | 35 +++++++++++------------
 pypower/toggle_reserves.py | 58 +++++++++++++-------------------------
 4 files changed, 52 insertions(+), 75 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 3a6b8b7..e978636 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -367,3 +367,10 @@ def print_sparse(fd, varname, A):
 
 def print_vector(fd, varname, v):
     fd.write('    %s = array([%s])\n' % (varname, ', '.join(['%.9g' % x for x in v])))
+
+
+def print_array(fd, varname, v):
+    """Writes an assignment which restores an array (of any shape) exactly.
+    Used by the 'savecase' userfcn callbacks.
+    """
+    fd.write('    %s = array(%r)\n' % (varname, array(v).tolist()))
diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..809e926 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -15,6 +15,7 @@ from pypower import idx_dcline
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.isload import isload
+from pypower.savecase import print_array
 
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
@@ -435,24 +436,14 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
     PYPOWER case dict (ppc), a file descriptor and variable prefix
     (usually 'ppc.'). The optional args are not currently used.
     """
-    ## define named indices into data matrices
-    c = idx_dcline.c
-
     ## save it
-    ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
-    else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
-
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
-    if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
-
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    fd.write('\n    ####-----  DC Line Data  -----####\n')
+    fd.write('    ##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1')
+    if ppc['dcline'].shape[1] > idx_dcline.c['MU_QMAXT']:
+        fd.write('\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT')
+    fd.write('\n')
+    print_array(fd, "%s['dcline']" % prefix, ppc['dcline'])
+    if 'dclinecost' in ppc:
+        print_array(fd, "%s['dclinecost']" % prefix, ppc['dclinecost'])
 
     return ppc
diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..b1289ba 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,8 +7,6 @@
 
 from sys import stderr
 
-from pprint import pprint
-
 from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
@@ -16,6 +14,7 @@ from scipy.sparse import lil_matrix, csr_matrix as sparse
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.makeBdc import makeBdc
+from pypower.savecase import print_array
 from pypower.idx_brch import PF
 
 
@@ -233,25 +232,23 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     ifmap = ppc['if']['map']
     iflims = ppc['if']['lims']
 
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
+    fd.write('\n    ####-----  Interface Flow Limit Data  -----####\n')
+    fd.write("    %s['if'] = {}\n" % prefix)
+    fd.write('    #### interface<->branch map data\n')
+    fd.write('    ##\tifnum\tbranchidx (negative defines opposite direction)\n')
+    print_array(fd, "%s['if']['map']" % prefix, ifmap)
 
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    fd.write('\n    #### interface flow limit data (based on DC model)\n')
+    fd.write('    #### (lower limit should be negative for opposite direction)\n')
+    fd.write('    ##\tifnum\tlower\tupper\n')
+    print_array(fd, "%s['if']['lims']" % prefix, iflims)
 
     ## save output fields for solved case
-    if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+    if 'P' in ppc['if']:
+        fd.write('\n    #### solved values\n')
+        print_array(fd, "%s['if']['P']" % prefix, ppc['if']['P'])
+        fd.write("    %s['if']['mu'] = {}\n" % prefix)
+        print_array(fd, "%s['if']['mu']['l']" % prefix, ppc['if']['mu']['l'])
+        print_array(fd, "%s['if']['mu']['u']" % prefix, ppc['if']['mu']['u'])
 
     return ppc
diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 8337ef9..733e152 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -10,8 +10,6 @@ from pypower.i2e_data import i2e_data
 
 from sys import stderr
 
-from pprint import pprint
-
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
 from scipy.sparse import eye as speye
@@ -22,6 +20,7 @@ from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.ext2int import ext2int
 from pypower.int2ext import int2ext
+from pypower.savecase import print_array
 from pypower.idx_gen import RAMP_10, PMAX, GEN_STATUS, GEN_BUS
 
 
@@ -366,46 +365,29 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     """
     r = ppc['reserves']
 
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
+    fd.write('\n    ####-----  Reserve Data  -----####\n')
+    fd.write("    %s['reserves'] = {}\n" % prefix)
+    fd.write('    #### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
+    print_array(fd, "%s['reserves']['zones']" % prefix, r['zones'])
+
+    fd.write('\n    #### reserve requirements for each zone in MW\n')
+    print_array(fd, "%s['reserves']['req']" % prefix, r['req'])
+
+    fd.write('\n    #### reserve costs in $/MW\n')
+    print_array(fd, "%s['reserves']['cost']" % prefix, r['cost'])
 
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('\n    #### OPTIONAL max reserve quantities (same order as costs)\n')
+        print_array(fd, "%s['reserves']['qty']" % prefix, r['qty'])
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('\n    #### solved values\n')
+        for f in ['R', 'Rmin', 'Rmax', 'prc']:
+            print_array(fd, "%s['reserves']['%s']" % (prefix, f), r[f])
+        fd.write("    %s['reserves']['mu'] = {}\n" % prefix)
+        for f in ['l', 'u', 'Pmax']:
+            print_array(fd, "%s['reserves']['mu']['%s']" % (prefix, f), r['mu'][f])
+        fd.write("    %s['reserves']['totalcost'] = %r\n" % (prefix, float(r['totalcost'])))
 
     return ppc
-- 
2.43.0


From 172dc70fdd260ba28d9d9ef43ff92a12c7938198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:16 +0000
Subject: [PATCH 60/93] fix: interface limits ignore the first branch on line
 and change the case passed in

---
 pypower/toggle_iflims.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index b1289ba..155bd68 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import zeros, ones, arange, c_, where, signbit, delete, flatnonzero as find
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -92,14 +92,16 @@ def userfcn_iflims_ext2int(ppc, *args):
     ppc['order']['ext']['ifmap'] = ifmap
 
     ##-----  convert stuff to internal indexing  -----
-    e2i = zeros(nl0)
+    ## (the direction gets a column of its own, since branch index 0 has no sign)
+    e2i = -ones(nl0, int)
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
-    br = abs(ifmap[:, 1]).astype(int)
-    ifmap[:, 1] = d * e2i[br]
+    d = where(signbit(ifmap[:, 1].astype(float)), -1, 1)
+    br = e2i[abs(ifmap[:, 1]).astype(int)]
+    ifmap = c_[ifmap[:, 0].astype(int), br, d]
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
+    ifmap = delete(ifmap, find(br < 0), 0)  ## delete branches that are out
 
+    ppc['if'] = ppc['if'].copy()
     ppc['if']['map'] = ifmap
 
     return ppc
@@ -122,19 +124,18 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        rows = find(ifmap[:, 0] == ifidx[k])
+        br, d = ifmap[rows, 1], ifmap[rows, 2]
         if len(br) == 0:
-            stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
+            stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % ifidx[k])
 
-        d = sign(br)
-        br = abs(br)
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -167,14 +168,13 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]        ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        rows = find(ifmap[:, 0] == ifidx[k])
+        br, d = ifmap[rows, 1], ifmap[rows, 2]
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
@@ -203,10 +203,9 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
-        nifs = len(ifidx)           ## number of interfaces
+        nifs = iflims.shape[0]      ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d ' % iflims[k, 0])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From 6bd57c49540632fe6e5e254e70d04e96c6b2dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 61/93] fix: power flow and OPF crash when DC lines are turned
 on

---
 pypower/idx_dcline.py    | 24 +++++++++++++
 pypower/toggle_dcline.py | 75 ++++++++++++++++++++++------------------
 2 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/pypower/idx_dcline.py b/pypower/idx_dcline.py
index 0530517..578b4c4 100644
--- a/pypower/idx_dcline.py
+++ b/pypower/idx_dcline.py
@@ -46,6 +46,30 @@ they are typically not present in the input matrix
 """
 
 ## define the indices
+F_BUS     = 0      ## f, "from" bus number
+T_BUS     = 1      ## t,  "to"  bus number
+BR_STATUS = 2      ## initial branch status, 1 - in service, 0 - out of service
+PF        = 3      ## MW flow at "from" bus ("from" -> "to")
+PT        = 4      ## MW flow at  "to"  bus ("from" -> "to")
+QF        = 5      ## MVAr injection at "from" bus ("from" -> "to")
+QT        = 6      ## MVAr injection at  "to"  bus ("from" -> "to")
+VF        = 7      ## voltage setpoint at "from" bus (p.u.)
+VT        = 8      ## voltage setpoint at  "to"  bus (p.u.)
+PMIN      = 9      ## lower limit on PF (MW flow at "from" end)
+PMAX      = 10     ## upper limit on PF (MW flow at "from" end)
+QMINF     = 11     ## lower limit on MVAr injection at "from" bus
+QMAXF     = 12     ## upper limit on MVAr injection at "from" bus
+QMINT     = 13     ## lower limit on MVAr injection at  "to"  bus
+QMAXT     = 14     ## upper limit on MVAr injection at  "to"  bus
+LOSS0     = 15     ## constant term of linear loss function (MW)
+LOSS1     = 16     ## linear term of linear loss function (MW)
+MU_PMIN   = 17     ## Kuhn-Tucker multiplier on lower flow lim at "from" bus (u/MW)
+MU_PMAX   = 18     ## Kuhn-Tucker multiplier on upper flow lim at "from" bus (u/MW)
+MU_QMINF  = 19     ## Kuhn-Tucker multiplier on lower VAr lim at "from" bus (u/MVAr)
+MU_QMAXF  = 20     ## Kuhn-Tucker multiplier on upper VAr lim at "from" bus (u/MVAr)
+MU_QMINT  = 21     ## Kuhn-Tucker multiplier on lower VAr lim at  "to"  bus (u/MVAr)
+MU_QMAXT  = 22     ## Kuhn-Tucker multiplier on upper VAr lim at  "to"  bus (u/MVAr)
+
 c = {
     'F_BUS':     0,     ## f, "from" bus number
     'T_BUS':     1,     ## t,  "to"  bus number
diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 809e926..d23afd3 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import arange, array, ones, zeros, r_, c_, concatenate, isin
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -59,7 +59,7 @@ def toggle_dcline(ppc, on_off):
 
         if 'dcline' not in ppc or ppc['dcline'].shape[1] < c["LOSS1"] + 1:
             raise ValueError('toggle_dcline: case must contain a '
-                    '\'dcline\' field, an ndc x %d matrix.', c["LOSS1"])
+                    '\'dcline\' field, an ndc x %d matrix.' % (c["LOSS1"] + 1))
 
         if 'dclinecost' in ppc and ppc['dcline'].shape[0] != ppc['dclinecost'].shape[0]:
             raise ValueError('toggle_dcline: number of rows in \'dcline\''
@@ -67,10 +67,10 @@ def toggle_dcline(ppc, on_off):
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for i in k:
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  tuple(ppc['dcline'][i, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
@@ -117,8 +117,11 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ppc['order']['ext']['status']  = {}
     ## work with only in-service DC lines
-    ppc['order']['ext']['status']['on']  = find(ppc['dcline'][:, c['BR_STATUS']] >  0)
-    ppc['order']['ext']['status']['off'] = find(ppc['dcline'][:, c['BR_STATUS']] <= 0)
+    on = (ppc['dcline'][:, c['BR_STATUS']] > 0) & \
+        isin(ppc['dcline'][:, c['F_BUS']], ppc['order']['bus']['i2e']) & \
+        isin(ppc['dcline'][:, c['T_BUS']], ppc['order']['bus']['i2e'])
+    ppc['order']['ext']['status']['on']  = find( on)
+    ppc['order']['ext']['status']['off'] = find(~on)
 
     ## remove out-of-service DC lines
     dc = ppc['dcline'][ppc['order']['ext']['status']['on'], :] ## only in-service DC lines
@@ -130,8 +133,10 @@ def userfcn_dcline_ext2int(ppc, args):
     o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    fbus = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)].astype(int)
+    tbus = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)].astype(int)
+    dc[:, c['F_BUS']] = fbus
+    dc[:, c['T_BUS']] = tbus
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -182,8 +187,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][fbus, BUS_TYPE] = PV
+    ppc['bus'][tbus, BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
@@ -196,37 +201,36 @@ def userfcn_dcline_ext2int(ppc, args):
             ndccc = dcc.shape[1]           ## number of dclinecost columns
             ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc-ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
+                    temp = dcc[k, NCOST + 1:NCOST + 1 + nc].copy()
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
-#                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    odd = arange(nc - 2, -1, -2)
+                    temp[odd] = -temp[odd]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
+                    temp = dcc[k, NCOST + 1:NCOST + 1 + 2 * nc].copy()
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
+                    xx = -temp[::2]
+                    yy =  temp[1::2]
+                    temp[::2]  = xx[::-1]
+                    temp[1::2] = yy[::-1]
 
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
+                padding = zeros(ccc - NCOST - 1 - len(temp))
+                gck = r_[dcc[k, :NCOST + 1], temp, padding]
 
                 ## append to gencost
-                ppc['gencost'] = r_[ppc['gencost'], gck]
+                ppc['gencost'] = r_[ppc['gencost'], [gck]]
 
             ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
+            tgc = ones((ndc, 1)) * r_[2, 0, 0, 2, zeros(ccc-4)]
+            ppc['gencost'] = r_[ppc['gencost'], tgc]
         else:
             ## use zero cost as default
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
@@ -273,7 +277,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
@@ -294,7 +298,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = o['ext']['status']['on']
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -306,7 +310,8 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results and len(results['gencost']) > 0:
+        results['gencost'] = results['gencost'][:ng, :]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
@@ -315,8 +320,8 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    if fg.shape[1] > MU_QMIN:
+        results['dcline'] = c_[results['dcline'][:, :c['MU_PMIN']], zeros((ndc, 6))]
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -330,11 +335,13 @@ def userfcn_dcline_int2ext(results, args):
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
     if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+        o['ext']['dcline'] = c_[o['ext']['dcline'][:, :c['MU_PMIN']], zeros((o['ext']['dcline'].shape[0], 6))]
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
     results['dcline'] = o['ext']['dcline']            ## use external version
+    if 'dclinecost' in o['ext']:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     return results
 
@@ -385,7 +392,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
@@ -422,7 +429,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
-- 
2.43.0


From 83c7350e59533a783693cc9cbe643a3616113671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 62/93] fix: DC lines with reactive costs crash, and so does
 their report after a power flow

---
 pypower/toggle_dcline.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index d23afd3..8f92129 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -196,12 +196,16 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## gencost
     if 'gencost' in ppc and len(ppc['gencost']) > 0:
+        ng = ppc['gen'].shape[0] - 2 * ndc  ## number of original gens/disp loads
         ngcr, ngcc = ppc['gencost'].shape   ## dimensions of gencost
+        qcost = ppc['gencost'][ng:, :]      ## reactive costs, if any
+        ppc['gencost'] = ppc['gencost'][:ng, :]
         if havecost:         ## user has provided costs
             ndccc = dcc.shape[1]           ## number of dclinecost columns
             ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc['gencost'] = c_[ppc['gencost'], zeros((ngcr, ccc-ngcc))]
+                ppc['gencost'] = c_[ppc['gencost'], zeros((ng, ccc-ngcc))]
+                qcost = c_[qcost, zeros((ngcr-ng, ccc-ngcc))]
 
             ## flip function across vertical axis and append to gencost
             ## (PF for DC line = -PG for dummy gen at "from" bus)
@@ -236,6 +240,10 @@ def userfcn_dcline_ext2int(ppc, args):
             dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
             ppc['gencost'] = r_[ppc['gencost'], dcgc]
 
+        if ngcr > ng:        ## zero reactive costs for the dummy gens
+            dcqc = ones((2 * ndc, 1)) * r_[2, 0, 0, 2, zeros(qcost.shape[1]-4)]
+            ppc['gencost'] = r_[ppc['gencost'], qcost, dcqc]
+
     return ppc
 
 
@@ -311,7 +319,8 @@ def userfcn_dcline_int2ext(results, args):
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
     if 'gencost' in results and len(results['gencost']) > 0:
-        results['gencost'] = results['gencost'][:ng, :]
+        kk = arange(results['gencost'].shape[0])   ## drop P and Q costs of dummy gens
+        results['gencost'] = results['gencost'][kk % (ng + 2*ndc) < ng, :]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
@@ -370,6 +379,9 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
     else:
         OUT_LINE_LIM    = OUT_ALL_LIM
 
+    if results['dcline'].shape[1] <= c['MU_PMAX']:
+        OUT_LINE_LIM    = 0     ## no constraint data after a simple power flow
+
     ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
     ptol = 1e-4        ## tolerance for displaying shadow prices
 
-- 
2.43.0


From c66fa4c707de94ca07b208f3c41ee9c002eda67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 63/93] fix: OPF starts far outside the useful range for
 variables bounded on one side only

---
 pypower/dcopf_solver.py   | 6 +++++-
 pypower/pipsopf_solver.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index fa18cfa..3471cbc 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -191,7 +191,11 @@ def dcopf_solver(om, ppopt, out_opt=None):
         lb, ub = xmin.copy(), xmax.copy()
         lb[xmin == -inf] = -1e10   ## replace inf with numerical proxies
         ub[xmax ==  inf] =  1e10
-        x0 = (lb + ub) / 2;
+        x0 = (lb + ub) / 2
+        k = (xmin == -inf) & (xmax < inf)
+        x0[k] = xmax[k] - 1        ## just inside if bounded on one side only
+        k = (xmin > -inf) & (xmax == inf)
+        x0[k] = xmin[k] + 1
         # angles set to first reference angle
         x0[vv["i1"]["Va"]:vv["iN"]["Va"]] = Varefs[0]
         if ny > 0:
diff --git a/pypower/pipsopf_solver.py b/pypower/pipsopf_solver.py
index 020755f..122d51b 100644
--- a/pypower/pipsopf_solver.py
+++ b/pypower/pipsopf_solver.py
@@ -112,6 +112,10 @@ def pipsopf_solver(om, ppopt, out_opt=None):
     ll[xmin == -inf] = -1e10   ## replace inf with numerical proxies
     uu[xmax ==  inf] =  1e10
     x0 = (ll + uu) / 2
+    k = (xmin == -inf) & (xmax < inf)
+    x0[k] = xmax[k] - 1        ## just inside if bounded on one side only
+    k = (xmin > -inf) & (xmax == inf)
+    x0[k] = xmin[k] + 1
     Varefs = bus[bus[:, BUS_TYPE] == REF, VA] * (pi / 180)
     ## angles set to first reference angle
     x0[vv["i1"]["Va"]:vv["iN"]["Va"]] = Varefs[0]
-- 
2.43.0


From 6b5bbf4e6ea88633e27059ce6158e32920105b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:41 +0000
Subject: [PATCH 64/93] fix: continuation power flow builds its
 parameterisation row as an array (scalars cannot be stacked)

---
 pypower/cpf_corrector.py | 2 +-
 pypower/cpf_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..bd4110e 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            r_[dP_dV, dP_dlam].reshape((1, -1))
         ], format="csr")
 
         # compute update step
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..a60bbb9 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        r_[dP_dV, dP_dlam].reshape((1, -1))
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From eb441115554089aeaf6011dc34cf1d847d8c08cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:01 +0000
Subject: [PATCH 65/93] fix: runcpf crashes when base and target have the same
 injections

---
 pypower/cpf_callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..73efd1f 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": V_p.reshape((-1, 1)),
+            "lam_p": array([lam_p]),
+            "V_c": V_c.reshape((-1, 1)),
+            "lam_c": array([lam_c]),
             "iterations": 0
         }
 
-- 
2.43.0


From 7e488f47aa3c94565b58d2093d37804ea8b39343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:01 +0000
Subject: [PATCH 66/93] fix: runcpf continues from a base case power flow that
 did not converge

---
 pypower/runcpf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..b9d06c1 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -163,9 +163,16 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     cb_state = {}
 
     # invoke callbacks
-    for k in range(len(callbacks)):
-        cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
-                                   cb_data, cb_state, cb_args)
+    if success:
+        for k in range(len(callbacks)):
+            cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
+                                       cb_data, cb_state, cb_args)
+    else:       # nothing to continue from
+        if verbose:
+            print('base case power flow did not converge\n')
+
+        i = iterations
+        continuation = 0
 
     if linalg.norm(Sxfr) == 0:
         if verbose:
-- 
2.43.0


From acb9a5769b47fcc5b31d77a853a1bdbdcf2c5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:01 +0000
Subject: [PATCH 67/93] fix: runcpf returns the target's reactive output for
 generators at PQ buses, whatever the loading

---
 pypower/runcpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index b9d06c1..9838fbd 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -284,6 +284,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     bust[:, PD] = busb[:, PD] + lam * (bust[:, PD] - busb[:, PD])
     bust[:, QD] = busb[:, QD] + lam * (bust[:, QD] - busb[:, QD])
     gent[:, PG] = genb[:, PG] + lam * (gent[:, PG] - genb[:, PG])
+    gent[:, QG] = genb[:, QG] + lam * (gent[:, QG] - genb[:, QG])
 
     # update data matrices with solution
     bust, gent, brancht = pfsoln(
-- 
2.43.0


From 882a857d66c55d3505f134e2e8c433223c2d2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 68/93] fix: runcpf overshoots the loading to stop at when the
 first, or an enlarged, step goes beyond it

---
 pypower/runcpf.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 9838fbd..8e25f49 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -187,6 +187,21 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     z[-1] = 1.0
     while continuation:
         cont_steps = cont_steps + 1
+
+        if isinstance(ppopt["CPF_STOP_AT"], str):
+            # next step will overshoot (or this one did)
+            if ppopt["CPF_STOP_AT"].upper() == "FULL" and lam < lamprv and lam - step < 0:
+                if lam < 0:
+                    lamprv = lam        # go back up
+                step = abs(lam)         # modify step-size
+                parameterization = 1    # change to natural parameterization
+                adapt_step = False      # disable step-adaptivity
+        # will reach desired lambda in next step
+        elif lam + step > ppopt["CPF_STOP_AT"]:
+            step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
+            parameterization = 1    # change to natural parameterization
+            adapt_step = False      # disable step-adaptivity
+
         # prediction for next step
         V0, lam0, z = cpf_predictor(V, lam, Ybus, Sxfr, pv, pq, step, z,
                                     Vprv, lamprv, parameterization)
@@ -206,6 +221,14 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                     cont_steps, lam, i))
             break
 
+        if not isinstance(ppopt["CPF_STOP_AT"], str) and lam - ppopt["CPF_STOP_AT"] > 1e-8:
+            # went past the desired lambda, step there directly instead
+            V = Vprv
+            lam = lamprv
+            step = ppopt["CPF_STOP_AT"] - lam
+            cont_steps = cont_steps - 1
+            continue
+
         if verbose > 2:
             print('step %3d : lambda = %6.3f\n' % (cont_steps, lam))
         elif verbose > 1:
@@ -224,10 +247,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                         print(
                             '\nTraced full continuation curve in %d continuation steps\n' % cont_steps)
                     continuation = 0
-                elif lam < lamprv and lam - step < 0:    # next step will overshoot
-                    step = lam      # modify step-size
-                    parameterization = 1    # change to natural parameterization
-                    adapt_step = False      # disable step-adaptivity
 
             else:   # == 'NOSE'
                 if lam < lamprv:    # reached the nose point
@@ -247,11 +266,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                     print('\nReached desired lambda %3.2f in %d continuation steps\n' % (
                         ppopt["CPF_STOP_AT"], cont_steps))
                 continuation = 0
-            # will reach desired lambda in next step
-            elif lam + step > ppopt["CPF_STOP_AT"]:
-                step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
-                parameterization = 1    # change to natural parameterization
-                adapt_step = False      # disable step-adaptivity
 
         if adapt_step and continuation:
             pvpq = r_[pv, pq]
-- 
2.43.0


From 2f69ca2f57352f959bd51408efc432e45bf946fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 69/93] fix: continuation power flow takes angles crossing
 +-180 degrees for a full turn

---
 pypower/cpf_p.py     | 16 +++++++---------
 pypower/cpf_p_jac.py |  8 +++-----
 pypower/runcpf.py    |  6 +++---
 3 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/pypower/cpf_p.py b/pypower/cpf_p.py
index 3bf3a6d..af6efa2 100644
--- a/pypower/cpf_p.py
+++ b/pypower/cpf_p.py
@@ -1,7 +1,7 @@
 '''Computes the value of the CPF parameterization function.
 '''
 
-from numpy import r_, angle, square, dot, array
+from numpy import r_, angle, conj, square, dot
 
 
 def cpf_p(parameterization, step, z, V, lam, Vprv, lamprv, pv, pq):
@@ -15,22 +15,20 @@ def cpf_p(parameterization, step, z, V, lam, Vprv, lamprv, pv, pq):
     elif parameterization == 2:
         pvpq = r_[pv, pq]
 
-        Va = angle(V)
+        dVa = angle(V[pvpq] * conj(Vprv[pvpq]))     # (never a full turn)
         Vm = abs(V)
-        Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        P = sum(square(r_[Va[pvpq], Vm[pq], lam] -
-                       r_[Vaprv[pvpq], Vmprv[pq], lamprv])) - square(step)
+        P = sum(square(r_[dVa, Vm[pq] - Vmprv[pq],
+                          lam - lamprv])) - square(step)
 
     elif parameterization == 3:
         pvpq = r_[pv, pq]
 
         nb = len(V)
-        Va = angle(V)
+        dVa = angle(V[pvpq] * conj(Vprv[pvpq]))     # (never a full turn)
         Vm = abs(V)
-        Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        P = dot(z[r_[pvpq, nb+pq, 2*nb]].reshape((1, -1)), array(r_[Va[pvpq],
-                                                                      Vm[pq], lam] - r_[Vaprv[pvpq], Vmprv[pq], lamprv]).T) - step
+        P = dot(z[r_[pvpq, nb+pq, 2*nb]].reshape((1, -1)),
+                r_[dVa, Vm[pq] - Vmprv[pq], lam - lamprv]) - step
 
     return P
diff --git a/pypower/cpf_p_jac.py b/pypower/cpf_p_jac.py
index 025f819..849844b 100644
--- a/pypower/cpf_p_jac.py
+++ b/pypower/cpf_p_jac.py
@@ -1,7 +1,7 @@
 '''Computes partial derivatives of CPF parameterization function.
 '''
 
-from numpy import r_, zeros, angle
+from numpy import r_, zeros, angle, conj
 
 
 def cpf_p_jac(parameterization, z, V, lam, Vprv, lamprv, pv, pq):
@@ -17,12 +17,10 @@ def cpf_p_jac(parameterization, z, V, lam, Vprv, lamprv, pv, pq):
     elif parameterization == 2:
         pvpq = r_[pv, pq]
 
-        Va = angle(V)
+        dVa = angle(V[pvpq] * conj(Vprv[pvpq]))     # (never a full turn)
         Vm = abs(V)
-        Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        dP_dV = 2 * (r_[Va[pvpq], Vm[pq]] -
-                     r_[Vaprv[pvpq], Vmprv[pq]])
+        dP_dV = 2 * r_[dVa, Vm[pq] - Vmprv[pq]]
         if lam == lamprv:
             dP_dlam = 1.0
         else:
diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 8e25f49..a65a38f 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -7,7 +7,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import c_, r_, ix_, zeros, pi, ones, exp, linalg, angle, inf, nan, full
+from numpy import c_, r_, ix_, zeros, pi, ones, exp, linalg, angle, conj, inf, nan, full
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -270,8 +270,8 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         if adapt_step and continuation:
             pvpq = r_[pv, pq]
             # Adapt stepsize
-            cpf_error = linalg.norm(r_[angle(V[pq]), abs(
-                V[pvpq]), lam] - r_[angle(V0[pq]), abs(V0[pvpq]), lam0], inf)
+            cpf_error = linalg.norm(r_[angle(V[pq] * conj(V0[pq])), abs(
+                V[pvpq]) - abs(V0[pvpq]), lam - lam0], inf)
             if cpf_error < ppopt["CPF_ERROR_TOL"]:
                 # Increase stepsize
                 step = step * ppopt["CPF_ERROR_TOL"] / cpf_error
-- 
2.43.0


From af0cb8e78d2fe29ad8dfe52bae80dd8230293c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 70/93] fix: fairmax crashes, and with it uopf for minimum
 outputs beyond the load

---
 pypower/fairmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..5232fed 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import flatnonzero as find
 
 
 def fairmax(x):
@@ -23,8 +23,8 @@ def fairmax(x):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    i   = find(x == val)              ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[ int(n * random()) ]      ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From 719555491219298a9e54ba90947787fe1ec38692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:44 +0000
Subject: [PATCH 71/93] fix: uopf crashes trying to shut down the only unit in
 service

---
 pypower/uopf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 7284644..073bf22 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -89,6 +89,8 @@ def uopf(*args):
         candidates = find((results0["gen"][:, MU_PMIN] > 0) & (results0["gen"][:, PMIN] > 0))
         if len(candidates) == 0:
             break
+        if len(results0["order"]["gen"]["status"]["on"]) == 1:  ## keep the last one
+            break
 
         ## do not check for further decommitment unless we
         ##  see something better during this stage
-- 
2.43.0


From 9d58bfdfb7f931f3fc4ed5900472435180464096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:23 +0000
Subject: [PATCH 72/93] fix: uopf called with individual matrices shuts units
 down in the caller's gen

---
 pypower/uopf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 073bf22..b70b1b2 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -45,6 +45,7 @@ def uopf(*args):
 
     ## process input arguments
     ppc, ppopt = opf_args2(*args)
+    ppc["gen"] = ppc["gen"].copy()              ## gets modified below
 
     ## options
     verbose = ppopt["VERBOSE"]
-- 
2.43.0


From d32da5506f60de4002c0ee15ac74a733b7876201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:23 +0000
Subject: [PATCH 73/93] fix: uopf counts isolated units and loads when
 balancing minimum outputs against the load

---
 pypower/uopf.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index b70b1b2..b066cff 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -9,7 +9,7 @@ from time import time
 
 from copy import deepcopy
 
-from numpy import flatnonzero as find
+from numpy import isin, flatnonzero as find
 
 from pypower.opf_args import opf_args2
 from pypower.ppoption import ppoption
@@ -18,8 +18,8 @@ from pypower.totcost import totcost
 from pypower.fairmax import fairmax
 from pypower.opf import opf
 
-from pypower.idx_bus import PD
-from pypower.idx_gen import GEN_STATUS, PG, QG, PMIN, MU_PMIN
+from pypower.idx_bus import BUS_I, BUS_TYPE, NONE, PD
+from pypower.idx_gen import GEN_BUS, GEN_STATUS, PG, QG, PMIN, MU_PMIN
 
 
 def uopf(*args):
@@ -55,9 +55,11 @@ def uopf(*args):
     ##-----  do combined unit commitment/optimal power flow  -----
 
     ## check for sum(Pmin) > total load, decommit as necessary
-    on   = find( (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
-    onld = find( (ppc["gen"][:, GEN_STATUS] > 0) &  isload(ppc["gen"]) )   ## disp loads in serv
-    load_capacity = sum(ppc["bus"][:, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
+    conn = ppc["bus"][:, BUS_TYPE] != NONE                      ## not isolated
+    atconn = isin(ppc["gen"][:, GEN_BUS], ppc["bus"][conn, BUS_I])
+    on   = find( (ppc["gen"][:, GEN_STATUS] > 0) & atconn & ~isload(ppc["gen"]) )   ## gens in service
+    onld = find( (ppc["gen"][:, GEN_STATUS] > 0) & atconn &  isload(ppc["gen"]) )   ## disp loads in serv
+    load_capacity = sum(ppc["bus"][conn, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
     while sum(Pmin) > load_capacity:
         ## shut down most expensive unit
@@ -72,7 +74,7 @@ def uopf(*args):
         ppc["gen"][i, [PG, QG, GEN_STATUS]] = 0
 
         ## update minimum gen capacity
-        on  = find( (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
+        on  = find( (ppc["gen"][:, GEN_STATUS] > 0) & atconn & ~isload(ppc["gen"]) )   ## gens in service
         Pmin = ppc["gen"][on, PMIN]
 
     ## run initial opf
-- 
2.43.0


From 8aee079f74f3aef9664c701382da5d1e19e7cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:23 +0000
Subject: [PATCH 74/93] fix: uopf shuts down units without a minimum output, or
 the last unit, to satisfy Pmin limits

---
 pypower/uopf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index b066cff..4ec6de6 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -62,10 +62,14 @@ def uopf(*args):
     load_capacity = sum(ppc["bus"][conn, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
     while sum(Pmin) > load_capacity:
+        can = on[Pmin > 0]            ## shutting down others is no help
+        if len(can) == 0 or len(on) + len(onld) == 1:  ## keep the last one
+            break
+
         ## shut down most expensive unit
-        avgPmincost = totcost(ppc["gencost"][on, :], Pmin) / Pmin
+        avgPmincost = totcost(ppc["gencost"][can, :], ppc["gen"][can, PMIN]) / ppc["gen"][can, PMIN]
         _, i = fairmax(avgPmincost)   ## pick one with max avg cost at Pmin
-        i = on[i]                     ## convert to generator index
+        i = can[i]                    ## convert to generator index
 
         if verbose:
             print('Shutting down generator %d so all Pmin limits can be satisfied.\n' % i)
-- 
2.43.0


From bb58c46415f8f34149e550584452c949fe8093b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:28 +0000
Subject: [PATCH 75/93] fix: uopf takes the reference angle from an initial OPF
 that failed

---
 pypower/uopf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 4ec6de6..b1b6b32 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -89,7 +89,8 @@ def uopf(*args):
 
     ## best case for this stage (ie. with n gens shut down, n=0,1,2 ...)
     results0 = deepcopy(results1)
-    ppc["bus"] = results0["bus"].copy()     ## use these V as starting point for OPF
+    if results0["success"]:
+        ppc["bus"] = results0["bus"].copy()     ## use these V as starting point for OPF
 
     while True:
         ## get candidates for shutdown
-- 
2.43.0


From 29fcd972db9c4dc9ae298d2fe0f1a8a5b13e257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 76/93] fix: command line rejects options with string values

---
 pypower/main.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pypower/main.py b/pypower/main.py
index b4c5252..967af94 100644
--- a/pypower/main.py
+++ b/pypower/main.py
@@ -8,7 +8,7 @@
 import sys
 from sys import stderr
 
-from optparse import OptionParser, OptionGroup, OptionValueError
+from optparse import OptionParser, OptionGroup
 
 from pypower.api import \
     ppver, ppoption, runpf, runopf, runuopf, runopf_w_res
@@ -36,16 +36,8 @@ CASES = {'case4gs': case4gs, 'case6ww': case6ww, 'case9': case9,
 
 
 def option_callback(option, opt, value, parser, *args, **kw_args):
-    if isinstance(value, str):
-        if value in AFFIRMATIVE:
-            value = True
-        elif value in NEGATIVE:
-            value = False
-        else:
-            choices = ", ".join(map(repr, option.choices))
-            raise OptionValueError(
-                _("option %s: invalid choice: %r (choose from %s)")
-                % (opt, value, choices))
+    if option.type == 'choice':     ## spelling checked by the parser
+        value = value in AFFIRMATIVE
 
     opt_name = opt[2:].upper()
 
-- 
2.43.0


From 4455594e9bdde79978cc718e87ead8396d5d1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:10 +0000
Subject: [PATCH 77/93] fix: command line accepts only whole numbers for
 pdipm_feastol

---
 pypower/ppoption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index cb9ff87..5e799d4 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -160,7 +160,7 @@ in results['raw'] (in keys g, dg, df, d2f))''')
 ]
 
 PDIPM_OPTIONS = [
-    ('pdipm_feastol', 0, '''feasibility (equality) tolerance
+    ('pdipm_feastol', 0.0, '''feasibility (equality) tolerance
 for Primal-Dual Interior Points Methods, set
 to value of OPF_VIOLATION by default'''),
     ('pdipm_gradtol', 1e-6, '''gradient tolerance for
-- 
2.43.0


From 8a4e0ec1f69dc2f318ba1f89ee735b3dfbff33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:27 +0000
Subject: [PATCH 78/93] fix: makeApq rounds the capability curves of a
 generator table of integers

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index d91e8ff..5f32004 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -55,7 +55,7 @@ def makeApq(baseMVA, gen):
     ## in $$/pu
     if npqh > 0:
         data["h"] = c_[gen[ipqh, QC1MAX] - gen[ipqh, QC2MAX],
-                       gen[ipqh, PC2] - gen[ipqh, PC1]]
+                       gen[ipqh, PC2] - gen[ipqh, PC1]].astype(float)
         ubpqh = data["h"][:, 0] * gen[ipqh, PC1] + \
                 data["h"][:, 1] * gen[ipqh, QC1MAX]
         for i in range(npqh):
@@ -74,7 +74,7 @@ def makeApq(baseMVA, gen):
     ## similarly Apql
     if npql > 0:
         data["l"] = c_[gen[ipql, QC2MIN] - gen[ipql, QC1MIN],
-                       gen[ipql, PC1] - gen[ipql, PC2]]
+                       gen[ipql, PC1] - gen[ipql, PC2]].astype(float)
         ubpql = data["l"][:, 0] * gen[ipql, PC1] + \
                 data["l"][:, 1] * gen[ipql, QC1MIN]
         for i in range(npql):
-- 
2.43.0


From 1572f9271d6f1ca4c2d32ff6f1f96cf32d830e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:55 +0000
Subject: [PATCH 79/93] fix: the report charges losses to branches at isolated
 buses

---
 pypower/printpf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index e87c980..d2d9728 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -14,7 +14,7 @@ from numpy import \
 from numpy import flatnonzero as find
 
 from pypower.idx_bus import BUS_I, BUS_TYPE, PD, QD, GS, BS, BUS_AREA, \
-    VM, VA, VMAX, VMIN, LAM_P, LAM_Q, MU_VMAX, MU_VMIN, REF
+    VM, VA, VMAX, VMIN, LAM_P, LAM_Q, MU_VMAX, MU_VMIN, REF, NONE
 from pypower.idx_gen import GEN_BUS, PG, QG, QMAX, QMIN, GEN_STATUS, \
     PMAX, PMIN, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN
 from pypower.idx_brch import F_BUS, T_BUS, BR_R, BR_X, BR_B, RATE_A, \
@@ -158,7 +158,10 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
     onld = find( (gen[:, GEN_STATUS] > 0) &  isload(gen) )
     V = bus[:, VM] * exp(-1j * pi / 180 * bus[:, VA])
-    out = find(branch[:, BR_STATUS] == 0)        ## out-of-service branches
+    isol = bus[:, BUS_TYPE] == NONE              ## isolated buses
+    out = find((branch[:, BR_STATUS] == 0) |     ## out-of-service branches
+               isol[e2i[branch[:, F_BUS].astype(int)]] |
+               isol[e2i[branch[:, T_BUS].astype(int)]])
     nout = len(out)
     if isDC:
         loss = zeros(nl)
-- 
2.43.0


From 2276471cd2fda19c72b1bc9826e9d17d45d18891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:43 +0000
Subject: [PATCH 80/93] fix: user constraints with a missing bound are dropped
 or refused

---
 pypower/opf_args.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa54966..ee80846 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import array
+from numpy import array, inf, ones
 from scipy.sparse import issparse
 
 from pypower._compat import PY2
@@ -202,7 +202,8 @@ def opf_args(*args):
         else:
             areas = array([])
         if Au is None and 'A' in ppc:
-            Au, lbu, ubu = ppc["A"], ppc["l"], ppc["u"]
+            Au = ppc["A"]
+            lbu, ubu = ppc.get("l", array([])), ppc.get("u", array([]))
         if N is None and 'N' in ppc:  ## these two must go together
             N, Cw = ppc["N"], ppc["Cw"]
         if H is None and 'H' in ppc:  ## will default to zeros
@@ -293,6 +294,12 @@ def opf_args(*args):
         else:
             stderr.write('opf_args: Incorrect input arg order, number or type\n')
 
+    if Au is not None and Au.shape[0] > 0:  ## missing bounds are infinite
+        if lbu is None or len(lbu) == 0:
+            lbu = -inf * ones(Au.shape[0])
+        if ubu is None or len(ubu) == 0:
+            ubu = inf * ones(Au.shape[0])
+
     if N is not None:
         nw = N.shape[0]
     else:
-- 
2.43.0


From f824b11867b2c8647efa0bb82001717c87c85981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:43 +0000
Subject: [PATCH 81/93] fix: complaint about a missing user cost matrix H,
 which is optional

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index ee80846..e576932 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -323,7 +323,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if H is not None and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
-- 
2.43.0


From 6aa1ea47741da1f61c8714f321cca8bcfeca82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 82/93] fix: DC OPF fails on user cost rows with entries on Vm
 or Qg

---
 pypower/opf_setup.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index dc0d7ed..cde5fc3 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -7,7 +7,7 @@
 
 from sys import stdout, stderr
 from math import inf
-from numpy import array, any, delete, unique, arange, nonzero, pi, \
+from numpy import array, any, delete, unique, arange, pi, \
     r_, ones
 from numpy import flatnonzero as find
 
@@ -80,10 +80,9 @@ def opf_setup(ppc, ppopt):
             if nw and (ppc['N'].shape[1] >= 2*nb + 2*ng):
                 ## make sure there aren't any costs on Vm or Qg
                 if ppc['N'][:, acc].nnz > 0:
-                    ii, _ = nonzero(ppc['N'][:, acc])
-                    _, ii = unique(ii, return_index=True)    ## indices of w with potential non-zero cost terms from Vm or Qg
-                    if any(ppc['Cw'][ii]) | ( ('H' in ppc) & (len(ppc['H']) > 0) &
-                            any(any(ppc['H'][:, ii])) ):
+                    ii = unique(ppc['N'][:, acc].nonzero()[0])    ## indices of w with potential non-zero cost terms from Vm or Qg
+                    if any(ppc['Cw'][ii]) or (ppc.get('H') is not None and
+                            abs(ppc['H'][:, ii]).sum() > 0):
                         stderr.write('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg\n')
 
                 # FIXME: delete sparse matrix columns
-- 
2.43.0


From 4cf11621c83049656b1c507b5b6f634bd9dff35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 83/93] fix: AC OPF objective omits user costs over columns
 that are all zero

---
 pypower/opf_costfcn.py | 6 +++---
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 527db0f..c594cee 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -73,7 +73,7 @@ def opf_costfcn(x, om, return_hessian=False):
         ccost = zeros(nxyz)
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         nw = N.shape[0]
         r = N * x - rh                   ## Nx - rhat
         iLT = find(r < -kk)              ## below dead zone
@@ -111,7 +111,7 @@ def opf_costfcn(x, om, return_hessian=False):
     df = df + ccost  # The linear cost row is additive wrt any nonlinear cost.
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         HwC = H * w + Cw
         AA = N.T * M * (LL + 2 * QQ * diagrr)
         df = df + AA * HwC
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 897e32c..0f68483 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -114,7 +114,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if issparse(N) and N.nnz > 0:
+    if issparse(N) and N.shape[0] > 0:
         nw = N.shape[0]
         r = N * x - rh                    ## Nx - rhat
         iLT = find(r < -kk)               ## below dead zone
-- 
2.43.0


From 386590e4509201e22cde11e8e2cb331de28a105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:32 +0000
Subject: [PATCH 84/93] fix: power flow fails on branch tables with 16 columns

---
 pypower/runcpf.py | 4 ++--
 pypower/runpf.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index a65a38f..5aa0498 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -65,7 +65,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     nb = ppcbase["bus"].shape[0]
 
     # add zero columns to branch for flows if needed
-    if ppcbase["branch"].shape[1] < QT:
+    if ppcbase["branch"].shape[1] <= QT:
         ppcbase["branch"] = c_[ppcbase["branch"],
                                zeros((ppcbase["branch"].shape[0],
                                       QT - ppcbase["branch"].shape[1] + 1))]
@@ -86,7 +86,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     ppctarget = loadcase(targetcasedata)
 
     # add zero columns to branch for flows if needed
-    if ppctarget["branch"].shape[1] < QT:
+    if ppctarget["branch"].shape[1] <= QT:
         ppctarget["branch"] = c_[ppctarget["branch"],
                                  zeros((ppctarget["branch"].shape[0],
                                         QT - ppctarget["branch"].shape[1] + 1))]
diff --git a/pypower/runpf.py b/pypower/runpf.py
index ac9891b..d194e74 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -85,7 +85,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
     ppc = loadcase(casedata)
 
     ## add zero columns to branch for flows if needed
-    if ppc["branch"].shape[1] < QT:
+    if ppc["branch"].shape[1] <= QT:
         ppc["branch"] = c_[ppc["branch"],
                            zeros((ppc["branch"].shape[0],
                                   QT - ppc["branch"].shape[1] + 1))]
-- 
2.43.0


From 627589295ed8a35e73374fe1b9fe35687fe9f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 85/93] fix: ext2int crashes instead of naming the buses with
 an invalid type

---
 pypower/ext2int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/ext2int.py b/pypower/ext2int.py
index d3a8a85..a198727 100644
--- a/pypower/ext2int.py
+++ b/pypower/ext2int.py
@@ -105,8 +105,8 @@ def ext2int(ppc, val_or_field=None, ordering=None, dim=0):
             ## check that all buses have a valid BUS_TYPE
             bt = ppc["bus"][:, BUS_TYPE]
             err = find(~((bt == PQ) | (bt == PV) | (bt == REF) | (bt == NONE)))
-            if len(err) > 0:
-                sys.stderr.write('ext2int: bus %d has an invalid BUS_TYPE\n' % err)
+            for i in err:
+                sys.stderr.write('ext2int: bus %d has an invalid BUS_TYPE\n' % i)
 
             ## determine which buses, branches, gens are connected and
             ## in-service
-- 
2.43.0


From 139d56b45b799598725fdef0a308dce3fdf0bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 86/93] fix: add_costs crashes instead of reporting mismatched
 sizes

---
 pypower/opf_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 4717b18..905294c 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -325,27 +325,27 @@ class opf_model(object):
                 stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
 
         if cp["Cw"].shape[0] != nw:
-            stderr.write('opf_model.add_costs: number of rows of Cw (%d x %d) and N (%d x %d) must match\n' % (cp["Cw"].shape[0], nw, nx))
+            stderr.write('opf_model.add_costs: number of rows of Cw (%d x %d) and N (%d x %d) must match\n' % (cp["Cw"].shape[0], 1, nw, nx))
 
         if 'H' in cp:
             if (cp["H"].shape[0] != nw) | (cp["H"].shape[1] != nw):
-                stderr.write('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)\n' % (cp["H"].shape, nw, nx))
+                stderr.write('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)\n' % (cp["H"].shape[0], cp["H"].shape[1], nw, nx))
 
         if 'dd' in cp:
             if cp["dd"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of dd (%d x %d) and N (%d x %d) must match\n' % (cp["dd"].shape, nw, nx))
+                stderr.write('opf_model.add_costs: number of rows of dd (%d x %d) and N (%d x %d) must match\n' % (cp["dd"].shape[0], 1, nw, nx))
 
         if 'rh' in cp:
             if cp["rh"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of rh (%d x %d) and N (%d x %d) must match\n' % (cp["rh"].shape, nw, nx))
+                stderr.write('opf_model.add_costs: number of rows of rh (%d x %d) and N (%d x %d) must match\n' % (cp["rh"].shape[0], 1, nw, nx))
 
         if 'kk' in cp:
             if cp["kk"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of kk (%d x %d) and N (%d x %d) must match\n' % (cp["kk"].shape, nw, nx))
+                stderr.write('opf_model.add_costs: number of rows of kk (%d x %d) and N (%d x %d) must match\n' % (cp["kk"].shape[0], 1, nw, nx))
 
         if 'mm' in cp:
             if cp["mm"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of mm (%d x %d) and N (%d x %d) must match\n' % (cp["mm"].shape, nw, nx))
+                stderr.write('opf_model.add_costs: number of rows of mm (%d x %d) and N (%d x %d) must match\n' % (cp["mm"].shape[0], 1, nw, nx))
 
         ## add info about this user cost set
         self.cost["idx"]["i1"][name]  = self.cost["N"] #+ 1     ## starting index
-- 
2.43.0


From f621d3f39c2bcbde9a37e3f344f1c79c5808fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 87/93] fix: qps_pypower takes every unknown algorithm code for
 Gurobi

---
 pypower/qps_pypower.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 7c79f68..0888d69 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -194,11 +194,11 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     elif alg == 600:                    ## use MOSEK
         x, f, eflag, output, lmbda = \
             qps_mosek(H, c, A, l, u, xmin, xmax, x0, opt)
-    elif 700:                           ## use Gurobi
+    elif alg == 700:                           ## use Gurobi
         x, f, eflag, output, lmbda = \
             qps_gurobi(H, c, A, l, u, xmin, xmax, x0, opt)
     else:
-        sys.stderr.write('qps_pypower: %d is not a valid algorithm code\n', alg)
+        sys.stderr.write('qps_pypower: %d is not a valid algorithm code\n' % alg)
 
     if 'alg' not in output:
         output['alg'] = alg
-- 
2.43.0


From 76a9169df947c38e3b97b610f8752a3b2e272308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 88/93] fix: opf_args overlooks a user cost matrix H of the
 wrong size

---
 pypower/opf_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index e576932..3c52163 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -312,7 +312,7 @@ def opf_args(*args):
         if len(fparm) > 0 and fparm.shape[0] != nw:
             stderr.write('opf_args.m: dimension mismatch between N and fparm '
                          'in generalized cost parameters\n')
-        if (H is not None) and (H.shape[0] != nw | H.shape[0] != nw):
+        if (H is not None) and (H.shape[0] != nw or H.shape[1] != nw):
             stderr.write('opf_args.m: dimension mismatch between N and H in '
                          'generalized cost parameters\n')
         if Au is not None:
-- 
2.43.0


From db7f412847467053e13e3713679cc09d06dc6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 89/93] fix: toggling reserves or interface limits on without
 data gives a KeyError instead of the complaint

---
 pypower/toggle_iflims.py   | 4 ++--
 pypower/toggle_reserves.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 155bd68..7779d13 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -52,8 +52,8 @@ def toggle_iflims(ppc, on_off):
     """
     if on_off == 'on':
         ## check for proper reserve inputs
-        if ('if' not in ppc) | (not isinstance(ppc['if'], dict)) | \
-                ('map' not in ppc['if']) | \
+        if ('if' not in ppc) or (not isinstance(ppc['if'], dict)) or \
+                ('map' not in ppc['if']) or \
                 ('lims' not in ppc['if']):
             stderr.write('toggle_iflims: case must contain an \'if\' field, a struct defining \'map\' and \'lims\'')
 
diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 733e152..04d1b72 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -64,9 +64,9 @@ def toggle_reserves(ppc, on_off):
     """
     if on_off == 'on':
         ## check for proper reserve inputs
-        if ('reserves' not in ppc) | (not isinstance(ppc['reserves'], dict)) | \
-                ('zones' not in ppc['reserves']) | \
-                ('req' not in ppc['reserves']) | \
+        if ('reserves' not in ppc) or (not isinstance(ppc['reserves'], dict)) or \
+                ('zones' not in ppc['reserves']) or \
+                ('req' not in ppc['reserves']) or \
                 ('cost' not in ppc['reserves']):
             stderr.write('toggle_reserves: case must contain a \'reserves\' field, a struct defining \'zones\', \'req\' and \'cost\'\n')
 
-- 
2.43.0


From 3925f96bde15578d774e17d8365b42ea16735750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:50 +0000
Subject: [PATCH 90/93] fix: CPF_PLOT_BUS complaint is made for the first bus
 and unknown buses give an IndexError

---
 pypower/cpf_callbacks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index 73efd1f..3d96912 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -33,16 +33,16 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
 
         else:
             idx_e = plot_bus
-            if issparse(cb_data["ppc_target"]["order"]["bus"]["e2i"][idx_e]):
+            if idx_e not in cb_data["ppc_target"]["order"]["bus"]["i2e"]:
+                idx = 0
+                sys.stderr.write(
+                    "cpf_default_callback: %d is not a valid bus number for PPOPT[\"CPF_PLOT_BUS\"]\n" % idx_e)
+            elif issparse(cb_data["ppc_target"]["order"]["bus"]["e2i"][idx_e]):
                 idx = int(cb_data["ppc_target"]["order"]
                           ["bus"]["e2i"][idx_e].toarray())
             else:
                 idx = int(cb_data["ppc_target"]["order"]["bus"]["e2i"][idx_e])
 
-            if idx == 0:
-                sys.stderr.write(
-                    "cpf_default_callback: %d is not a valid bus number for PPOPT[\"CPF_PLOT_BUS\"]\n" % idx_e)
-
     # -----  FINAL call  -----
     if is_final:
         # assemble results struct
-- 
2.43.0


From 69c18f1642d9fa8f6b7346c2246f314986e9daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:02 +0000
Subject: [PATCH 91/93] fix: qps_pypower takes H as absent when the problem
 dict has none

H kept being the dict itself, so that the inner solver read the options of
the outer one and ignored pips_opt.
---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 0888d69..c62d8da 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -127,7 +127,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         if 'l' in p: l = p['l']
         if 'A' in p: A = p['A']
         if 'c' in p: c = p['c']
-        if 'H' in p: H = p['H']
+        H = p['H'] if 'H' in p else None
     else:                         ## individual args
 #        assert H is not None  zero dimensional sparse matrices not supported
         assert c is not None
-- 
2.43.0


From 6f4e93e898e076fc660cc6866f518d3ef276fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:45 +0000
Subject: [PATCH 92/93] fix: set_reorder keeps the values it does not replace
 when the dtypes differ

---
 pypower/set_reorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/set_reorder.py b/pypower/set_reorder.py
index fb76e43..1dbcc1b 100644
--- a/pypower/set_reorder.py
+++ b/pypower/set_reorder.py
@@ -5,7 +5,7 @@
 """Assigns B to A with one of the dimensions of A indexed.
 """
 
-from numpy import ndim
+from numpy import ndim, result_type
 
 
 def set_reorder(A, B, idx, dim=0):
@@ -20,7 +20,7 @@ def set_reorder(A, B, idx, dim=0):
     """
     A = A.copy()
     ndims = ndim(A)
-    A = A.astype(B.dtype)
+    A = A.astype(result_type(A.dtype, B.dtype))   ## rows that stay keep their values
     if ndims ==  1:
         A[idx] = B
     elif ndims == 2:
-- 
2.43.0


From 8ce8e148b2672baec64235fd5f2697f27ec92686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:57 +0000
Subject: [PATCH 93/93] fix: i2e_data converts sparse data of several sets, as
 e2i_data does

---
 pypower/i2e_data.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..646a553 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -88,6 +90,14 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0

