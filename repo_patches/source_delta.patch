From b941bc4932715d89885dcdb7e15172e863da2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 01/46] fix: build matrices only from live entries, ignoring
 leftovers of a longer earlier stamp

---
 src/logic/stamping/matrixbuilder.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..1658233 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -42,10 +42,13 @@ class MatrixBuilder:
         self._index = retain_idx
 
     def to_matrix(self) -> csc_matrix:
-        if self.settings.debug and self._max_index != self._index:
-            raise Exception("Solver was not fully utilized. Garbage data remains")
+        row, col, val = self._live_entries()
 
-        return csc_matrix((self._val, (self._row, self._col)), dtype=np.float64)
+        return csc_matrix((val, (row, col)), dtype=np.float64)
+
+    def _live_entries(self):
+        #Entries past the current index are leftovers from before the last clear.
+        return (self._row[:self._index], self._col[:self._index], self._val[:self._index])
 
     def get_row(self, row_idx):
         for idx in range(self._index):
@@ -60,10 +63,11 @@ class MatrixBuilder:
                 yield (self._row[idx], self._val[idx])
 
     def to_symbolic_matrix(self):
+        live_row, live_col, live_val = self._live_entries()
         rows = []
-        for _ in range(max(self._row) + 1):
-            rows.append([0] * (max(self._col) + 1))
-        for (row, col, value) in zip(self._row, self._col, self._val):
+        for _ in range(max(live_row) + 1):
+            rows.append([0] * (max(live_col) + 1))
+        for (row, col, value) in zip(live_row, live_col, live_val):
             rows[row][col] += value
         return Matrix(rows)
 
@@ -71,13 +75,15 @@ class MatrixBuilder:
         if not self.settings.debug:
             return
 
-        if max(self._row) != max(self._col):
+        row, col, val = self._live_entries()
+
+        if max(row) != max(col):
             raise Exception("Matrix is not square")
         
         if not check_zeros:
             return
 
-        matrix = csc_matrix((self._val, (self._row, self._col)))
+        matrix = csc_matrix((val, (row, col)))
 
         if not np.all(matrix.getnnz(1)>0):
             zero_rows = np.where(matrix.getnnz(1)==0)
-- 
2.43.0


From 8ffa05cfa87509678d3045a0103563db8ee1988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 02/46] fix: refresh the state behind every stamp and residual
 evaluation, not once per iteration number

---
 src/logic/stamping/matrixstamper.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..af03c47 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -261,9 +261,6 @@ class InputBuilder():
         self.inputs: Dict[str, StampInput]
 
         self.input_indexes = []
-
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
     
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
@@ -306,15 +303,10 @@ class InputBuilder():
                 
             instance_idx += 1
 
-    def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
+    def update_vprev(self, v_prev):
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
-        
+
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
             self.args[self.tx_factor_index][:] = tx_factor
@@ -443,14 +435,14 @@ class MatrixStamper():
 
     def stamp_nonlinear(self, Y: MatrixBuilder, J, v_prev, iteration_num):
         for input_builder in self.input_builders:
-            input_builder.update_vprev(v_prev, iteration_num)
+            input_builder.update_vprev(v_prev)
         
         for stamp_set in self.nonlinear_sets:
             stamp_set.stamp(Y, J)
 
     def __calc_residuals_iter(self, tx_factor, v_result, iteration_num):
         for input_builder in self.input_builders:
-            input_builder.update_vprev(v_result, iteration_num)
+            input_builder.update_vprev(v_result)
         
         for input_builder in self.input_builders:
             input_builder.update_txfactor(tx_factor)
-- 
2.43.0


From 164df5110fbf3832b6c41ab5afc52ab4585397aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 03/46] fix: report the homotopy factor of the last solve (0,
 not -0.01, after a full descent)

---
 src/logic/homotopycontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..bebd4d9 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -41,4 +41,4 @@ class HomotopyController:
 
             tx_factor -= 1
 
-        return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
+        return (is_success, v_next, iterations, max(tx_factor, 0) * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
-- 
2.43.0


From e19d1fbf396262e9204dd94e3c9bb38e91ec21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 04/46] fix: start the imaginary multiplier of a bus at its own
 index

---
 src/models/components/bus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/components/bus.py b/src/models/components/bus.py
index 8860183..3cc7849 100644
--- a/src/models/components/bus.py
+++ b/src/models/components/bus.py
@@ -71,7 +71,7 @@ class Bus:
         return (self.node_lambda_Vr, 1e-4)
 
     def get_Li_init(self):
-        return (self.node_lambda_Vr, 1e-4)
+        return (self.node_lambda_Vi, 1e-4)
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.node_Vr = next(node_index)
-- 
2.43.0


From 2146fec0182004f134304531091077c4e793fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 05/46] fix: leave loads unscaled unless a load factor is given

---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From 6552781cb849faac05f0e98bed255096d165898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 06/46] fix: a load keeps its power factor through hours at
 zero

---
 src/logic/network/timeseriesprocessor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..c61ec60 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -20,6 +20,7 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -151,7 +152,10 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            if load_obj.P != 0 or load_obj.Q != 0:
+                self.load_angles[load_name] = math.atan2(load_obj.Q,load_obj.P)
+            #A load that is at zero keeps the power factor it had before.
+            angle = self.load_angles.get(load_name, 0)
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From b24e30163e61d69b262ee5b52f0aabc6ba5976e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 07/46] fix: slack power is V times conj(I), not its parts
 multiplied

---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..6d4d295 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
-- 
2.43.0


From 7259d575969c735a17994de3f74df72651ac31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 08/46] fix: infeasibility powers are V times conj(I) and may
 have either sign

---
 src/logic/powerflowresults.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 6d4d295..2e2f29b 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -172,16 +172,17 @@ class PowerFlowResults:
             Vr = self.v_final[infeasibility_current.bus.node_Vr]
             Vi = self.v_final[infeasibility_current.bus.node_Vi]
             if isinstance(self.network.optimization, L2InfeasibilityOptimization):
-                inf_Ir = self.v_final[infeasibility_current.node_Ir_inf]
-                inf_Ii = self.v_final[infeasibility_current.node_Ii_inf]
+                #This current leaves the bus.
+                inf_Ir = -self.v_final[infeasibility_current.node_Ir_inf]
+                inf_Ii = -self.v_final[infeasibility_current.node_Ii_inf]
             elif isinstance(self.network.optimization, L1InfeasibilityOptimization):
                 inf_Ir = self.v_final[infeasibility_current.node_Ir_plus_inf] - self.v_final[infeasibility_current.node_Ir_minus_inf]
                 inf_Ii = self.v_final[infeasibility_current.node_Ii_plus_inf] - self.v_final[infeasibility_current.node_Ii_minus_inf]
-            P = Vr * inf_Ir
-            if P < 1e-5:
+            P = Vr * inf_Ir + Vi * inf_Ii
+            if abs(P) < 1e-5:
                 P = 0
-            Q = Vi * inf_Ii
-            if Q < 1e-5:
+            Q = Vi * inf_Ir - Vr * inf_Ii
+            if abs(Q) < 1e-5:
                 Q = 0
 
             total_P += P
-- 
2.43.0


From 59c9236e8dba01fd9640ea8ab4ee83aea116a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 09/46] fix: verbose display of residuals

---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 2e2f29b..10f6c15 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -203,8 +203,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx in range(len(self.residuals.residuals)):
+                print(f'Residual {idx}: {self.residuals.residuals[idx]:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From 8378b2222a529010485e2d73d6b135d36bbc0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 10/46] fix: transformer power is V times conj(I)

---
 src/logic/powerflowresults.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 10f6c15..9a0fca2 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -313,11 +313,13 @@ class TransformerResult:
 
     def get_P(self):
         Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
-        return Vr_pri * self.Ir_prim
+        Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
+        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
 
     def get_Q(self):
+        Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
         Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
-        return Vi_pri * self.Ii_prim
+        return Vi_pri * self.Ir_prim - Vr_pri * self.Ii_prim
 
     def __str__(self) -> str:
         return f'Transformer from bus {self.transformer.from_bus_pos.Bus} and {self.transformer.from_bus_neg.Bus} to {self.transformer.to_bus_pos.Bus} and {self.transformer.to_bus_neg.Bus} P (MW): {"{:.2f}".format(self.get_P())}, Q (MVar): {"{:.2f}".format(self.get_Q())}'
-- 
2.43.0


From ebeb132f32acd1aed0213933f3c19583f1c55928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 11/46] fix: RAW loads use their admittance part and all parts
 per unit

---
 src/logic/network/parsers/raw/data_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 121bec8..660c40c 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,7 +91,9 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, complex(0, 0), self.ip, self.iq)
+        y = complex(self.yp, self.yq) / 100
+        z = 1 / y if y != 0 else complex(0, 0)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, z, self.ip / 100, -self.iq / 100)
         return (new_load)
 
 
-- 
2.43.0


From 128f99024ca716c3c083ddb3b884ce24ba00481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 12/46] fix: reactive limits of wind machines with wmod 2

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 660c40c..c4766b8 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -204,8 +204,8 @@ class Generator_data:
         # Wind machine with Q limits determined from P and WPF
         if (self.wmod == 2):
             qlim = math.sqrt(math.pow(pg / wpf, 2) - math.pow(pg, 2))
-            self.qT = qlim
-            self.qB = -qlim
+            self.qt = qlim
+            self.qb = -qlim
 
         # Fixed reactive power setting determined from P and WPF
         elif (self.wmod == 3):
-- 
2.43.0


From 7d277cd7e6e2647b602a1298c119552a6b0df9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 13/46] fix: terminal shunts of RAW branches

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 src/logic/network/parsers/raw/parser.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index c4766b8..8ef3abc 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -322,10 +322,10 @@ class Branch_data:
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(self.i, self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(self.j, self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 76dd358..bbd4f4e 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -368,10 +368,10 @@ def parse_raw(rawfile):
             (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
-                non_empty_bus_set.add(shunt_i.Bus)
+                non_empty_bus_set.add(shunt_i.bus.Bus)
                 integrated_data['shunts'].append(shunt_i)
             if shunt_j != None:
-                non_empty_bus_set.add(shunt_j.Bus)
+                non_empty_bus_set.add(shunt_j.bus.Bus)
                 integrated_data['shunts'].append(shunt_j)
 
     # ---------- transformer data ----------
-- 
2.43.0


From 11581afefd2b0575e637044254c195ee41e849a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 14/46] fix: several machines on one RAW bus add up

---
 src/logic/network/parsers/raw/parser.py | 31 +++++++------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index bbd4f4e..1ec65da 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -199,21 +199,12 @@ def parse_raw(rawfile):
                     if g.i in voltage_controlling_bus:
                         # print('Due to another generator on %i generator location, parameters are appended' % g.i)
                         idx = gen_dic[g.i]
-                        integrated_data['generators'][idx].P += gen.pg / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmax += gen.pt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmin += gen.pb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmax += gen.qt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmin += gen.qb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qinit += gen.qg / global_vars.MVAbase
-                        integrated_data['generators'][idx].RMPCT += gen.rmpct
+                        # generators store their powers as consumption
+                        integrated_data['generators'][idx].P -= gen.pg / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmax -= g.qt / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmin -= g.qb / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qinit -= g.qg / global_vars.MVAbase
                         # check for discrepencies
-                        if integrated_data['generators'][idx].RemoteBus != gen.ireg:
-                            print("Discrepancy found in remote bus (%d, %d) for generators on the same bus: %i" % (
-                                integrated_data['generators'][idx].RemoteBus, gen.ireg, gen.i))
-                            # If the new generator is controlling self. Make everyone control that
-                            # if gen.ireg == 0 or gen.ireg == gen.i:
-                            #    integrated_data['generators'][idx].RemoteBus = gen.ireg
-                            #    # TODO Remove voltage controlled node and add new
                         if integrated_data['generators'][idx].Vset != gen.vs:
                             print("Discrepancy found in Vset (%f, %f) for generators on the same bus: %i" % (
                                 integrated_data['generators'][idx].Vset, gen.vs, gen.i))
@@ -273,14 +264,10 @@ def parse_raw(rawfile):
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
                     # print(gen_id)
-                    integrated_data['generators'][gen_id].Qmax += Qmax / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qmin += Qmin / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qinit += Qinit / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].RMPCT += rmpct
-                    if integrated_data['generators'][gen_id].RemoteBus != ss.swrem:
-                        print("Discrepency between control buses in shunts for bus ", ss.i)
-                        # if integrated_data['generators'][gen_id].RemoteBus ==0:
-                        #    integrated_data['generators'][gen_id].RemoteBus = ss.swrem
+                    # generators store their powers as consumption
+                    integrated_data['generators'][gen_id].Qmax -= Qmax / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmin -= Qmin / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qinit -= Qinit / global_vars.MVAbase
 
                 else:
                     Pmax = 0
-- 
2.43.0


From 7b762402a98cab0062f2bb37e0c089ecce34806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 15/46] fix: three-winding transformers connect to their star
 bus

---
 src/logic/network/parsers/raw/data_classes.py |  2 +-
 src/logic/network/parsers/raw/parser.py       | 26 +++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 8ef3abc..e290486 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -486,5 +486,5 @@ class Three_xfmr_data:
 
 def integrate_3xfmrs(xfmr_data, sbase, busData, starNode, all_bus_key: typing.Dict[int, Bus]):
     # send in system sbase
-    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, -1, busData)
+    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, starNode, busData)
     return (new_3xfmr.createXfmrObject(all_bus_key))
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 1ec65da..3b12327 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -10,6 +10,7 @@
 
 """
 
+import math
 import time
 from logic.network.parsers.raw.global_vars import global_vars
 
@@ -436,20 +437,19 @@ def parse_raw(rawfile):
         all_case_data['all_three_xfmrs'].append(x3)
         search_case_data['three_xfmrs'][(x3.i, x3.j, x3.k, x3.ckt)] = x3
         if x3.stat != 0:
-            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], -1, all_bus_key)
+            busType = 1
+            vmInit = x.vmstar
+            vaInit = x.anstar * math.pi / 180
+            'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
+            area = search_case_data['buses'][x3.i].area
+            if int(x.stat) == 4:
+                area = search_case_data['buses'][x3.j].area
+
+            starBus = Bus(startNodeThreeWinding, busType, vmInit, vaInit, area)
+            all_bus_key[startNodeThreeWinding] = starBus
+            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], startNodeThreeWinding, all_bus_key)
             if new_xfmr3 != []:
-                busType = 1
-                vmInit = x.vmstar
-                vaInit = x.anstar
-                'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
-                area = search_case_data['buses'][x3.i].area
-                if int(x.stat) == 4:
-                    area = search_case_data['buses'][x3.j].area
-
-                integrated_data['buses'].append(Bus(startNodeThreeWinding, busType,
-                                                      vmInit, vaInit, area))
-                for ele in new_xfmr3:
-                    ele.to_bus = startNodeThreeWinding
+                integrated_data['buses'].append(starBus)
                 startNodeThreeWinding += 1
                 integrated_data['xfmrs'] += new_xfmr3
 
-- 
2.43.0


From 03b21c3252e81a3c405f8f885a1e2209b4f1775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 16/46] fix: line ratings use the current of the coupled phases

---
 src/logic/network/timeseriesprocessor.py |  2 +-
 src/logic/powerflowresults.py            | 12 +++++++-----
 src/models/components/unbalanced_line.py |  4 ++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c61ec60..77bd7e1 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -184,7 +184,7 @@ class TimeSeriesProcessor:
         # Ensure that no lines have current flowing through them that exceeds their rating
         for line in self.powerflow.network.lines:
             for (idx, g, b, phase_line) in line.loop_lines():
-                line_result = LineResult(phase_line, snapshot_results, g, b)
+                line_result = LineResult(phase_line, snapshot_results, g, b, line.get_mutuals(idx))
                 line_current = complex(line_result.get_Ir(), line_result.get_Ii())
                 if (line.ampacities[idx] is not None and abs(line_current) > line.ampacities[idx]):
                     print(f"Line current {line_current} exceeds emergency ampacity {line.ampacities[idx]}")
diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 9a0fca2..49568ed 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -346,21 +346,23 @@ class CenterTapTransformerResult:
     def csv_string(self) -> str:
         return f'{self.from_bus.Bus},CenterTapTransformer,{"{:.2f}".format(self.get_P())},{"{:.2f}".format(self.get_Q())}\n'
 
-# BROKEN, THIS HAS TO USE __loop_line_stampers INSTEAD I THINK
-
 class LineResult:
-    def __init__(self, line: UnbalancedLinePhase, snapshot_results: PowerFlowResults, g, b):
+    #The series current of one phase of a line. The mutual couplings are (phase line, g, b) for each of the other phases.
+    def __init__(self, line: UnbalancedLinePhase, snapshot_results: PowerFlowResults, g, b, mutuals=()):
         self.line = line
         self.v_final = snapshot_results.v_final
         self.from_bus, self.to_bus = line.get_nodes(snapshot_results.network)
         self.g = g
         self.b = b
+        self.couplings = [(self.from_bus, self.to_bus, g, b)]
+        for phase_line, mutual_g, mutual_b in mutuals:
+            self.couplings.append((*phase_line.get_nodes(snapshot_results.network), mutual_g, mutual_b))
 
     def get_Ir(self):
-        return (self.v_final[self.from_bus.node_Vr] - self.v_final[self.to_bus.node_Vr]) * self.g - (self.v_final[self.from_bus.node_Vi] - self.v_final[self.to_bus.node_Vi]) * self.b
+        return sum((self.v_final[f.node_Vr] - self.v_final[t.node_Vr]) * g - (self.v_final[f.node_Vi] - self.v_final[t.node_Vi]) * b for f, t, g, b in self.couplings)
 
     def get_Ii(self):
-        return (self.v_final[self.from_bus.node_Vr] - self.v_final[self.to_bus.node_Vr]) * self.b + (self.v_final[self.from_bus.node_Vi] - self.v_final[self.to_bus.node_Vi]) * self.g
+        return sum((self.v_final[f.node_Vr] - self.v_final[t.node_Vr]) * b + (self.v_final[f.node_Vi] - self.v_final[t.node_Vi]) * g for f, t, g, b in self.couplings)
 
     def __str__(self) -> str:
         return f'Line from bus {self.from_bus.Bus} to {self.to_bus.Bus} I: complex({"{:.2f}".format(self.get_Ir())}, {"{:.2f}".format(self.get_Ii())})'
diff --git a/src/models/components/unbalanced_line.py b/src/models/components/unbalanced_line.py
index 0495732..3aa6939 100644
--- a/src/models/components/unbalanced_line.py
+++ b/src/models/components/unbalanced_line.py
@@ -228,3 +228,7 @@ class UnbalancedLine():
             g = np.real(self.admittances[idx][idx])
             b = np.imag(self.admittances[idx][idx])
             yield (idx, g, b, line)
+
+    #The couplings of a phase (by its index) to all of the other phases.
+    def get_mutuals(self, idx):
+        return [(line, np.real(self.admittances[idx][j]), np.imag(self.admittances[idx][j])) for j, line in enumerate(self.lines) if j != idx]
-- 
2.43.0


From 455776ac7be4928dfa736b6bf16872b23b027c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:16 +0000
Subject: [PATCH 17/46] fix: selecting an island keeps its grounded loads and
 capacitors

---
 src/logic/network/timeseriesprocessor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 77bd7e1..cd54104 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -89,7 +90,7 @@ class TimeSeriesProcessor:
 
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if self.is_removed(load.from_bus) or self.is_removed(load.to_bus):
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -118,11 +119,15 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if self.is_removed(capacitor.from_bus) or self.is_removed(capacitor.to_bus):
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
 
+    def is_removed(self, bus):
+        #Grounded elements are part of the island of their other bus.
+        return bus is not GROUND and bus not in self.powerflow.network.buses
+
     def set_load_names(self):
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
-- 
2.43.0


From f8084b9a17479b1c91c4936eca00823536705e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 18/46] fix: convert RAW cases to the solver's MVA base

---
 src/logic/network/parsers/raw/data_classes.py | 10 ++++---
 .../network/parsers/raw/parse_transformers.py | 29 +++++++++++--------
 src/logic/network/parsers/raw/parser.py       |  4 +--
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index e290486..109963c 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -316,16 +316,18 @@ class Branch_data:
         self.f3 = f3
         self.f4 = f4
 
-    def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_branch = Line(all_bus_key[self.i], all_bus_key[self.j], self.r, self.x, self.b, self.st,
+    def integrate(self, all_bus_key: typing.Dict[int, Bus], sbase=global_vars.MVAbase):
+        # the file is in per unit of its own base, the solver in per unit of MVAbase
+        z_scale = global_vars.MVAbase / sbase
+        new_branch = Line(all_bus_key[self.i], all_bus_key[self.j], self.r * z_scale, self.x * z_scale, self.b / z_scale, self.st,
                               self.rateA, self.rateB, self.rateC)
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * sbase, self.bi * sbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * sbase, self.bj * sbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parse_transformers.py b/src/logic/network/parsers/raw/parse_transformers.py
index be1be22..5705236 100644
--- a/src/logic/network/parsers/raw/parse_transformers.py
+++ b/src/logic/network/parsers/raw/parse_transformers.py
@@ -11,12 +11,15 @@ import math
 import copy
 import typing
 from models.components.bus import GROUND, Bus
+from logic.network.parsers.raw.global_vars import global_vars
 
 from models.components.transformer import Transformer
 
 class TwoWindingXfmrs:
 
     def __init__(self, xfmr_data, sbase, BusesData):
+        # the file is in per unit of its own base, the solver in per unit of MVAbase
+        self.mZScale = global_vars.MVAbase / sbase
         self.mPrimaryBus = int(xfmr_data.i)
         self.mSecondaryBus = int(xfmr_data.j)
         self.mCkt = xfmr_data.ckt
@@ -177,9 +180,9 @@ class TwoWindingXfmrs:
 
     def createXfmrObject(self, all_bus_key: typing.Dict[int, Bus]):
         if self.mStatus:
-            new_xfmr = Transformer(all_bus_key[int(self.mPrimaryBus)], GROUND, all_bus_key[int(self.mSecondaryBus)], GROUND, self.mRLoss,
-                                    self.mXLoss, self.mStatus, self.mTR,
-                                    self.mAng, self.mGmag, self.mBmag, self.mMaxRating)
+            new_xfmr = Transformer(all_bus_key[int(self.mPrimaryBus)], GROUND, all_bus_key[int(self.mSecondaryBus)], GROUND, self.mRLoss * self.mZScale,
+                                    self.mXLoss * self.mZScale, self.mStatus, self.mTR,
+                                    self.mAng, self.mGmag / self.mZScale, self.mBmag / self.mZScale, self.mMaxRating / self.mZScale)
 
             return new_xfmr
 
@@ -187,6 +190,8 @@ class TwoWindingXfmrs:
 class ThreeWindingXfmrs(object):
 
     def __init__(self, xfmr3_data, sbase, starNode, BusesData):
+        # the file is in per unit of its own base, the solver in per unit of MVAbase
+        self.mZScale = global_vars.MVAbase / sbase
         self.mBusI = xfmr3_data.i
         self.mBusJ = xfmr3_data.j
         self.mBusK = xfmr3_data.k
@@ -378,9 +383,9 @@ class ThreeWindingXfmrs(object):
         xfmrs = []
         if self.mWindingStatus[0]:
             self.mMaxRatingA = max(self.mRatingA[0], self.mRatingA[1], self.mRatingA[2])
-            new_3xfmr1 = Transformer(all_bus_key[int(self.mPrimaryBus[0])], GROUND, all_bus_key[int(self.mSecondaryBus[0])], GROUND, self.mR1,
-                                      self.mX1, self.mWindingStatus[0], self.mTR[0], self.mAng[0],
-                                      self.mGmag[0], self.mBmag[0], self.mMaxRatingA)
+            new_3xfmr1 = Transformer(all_bus_key[int(self.mPrimaryBus[0])], GROUND, all_bus_key[int(self.mSecondaryBus[0])], GROUND, self.mR1 * self.mZScale,
+                                      self.mX1 * self.mZScale, self.mWindingStatus[0], self.mTR[0], self.mAng[0],
+                                      self.mGmag[0] / self.mZScale, self.mBmag[0] / self.mZScale, self.mMaxRatingA / self.mZScale)
             xfmrs.append(new_3xfmr1)
         # Here create transformer object
         # In the constructor you will have to pass
@@ -389,9 +394,9 @@ class ThreeWindingXfmrs(object):
         # self.mRating[0]
         if self.mWindingStatus[1]:
             self.mMaxRatingB = max(self.mRatingB[0], self.mRatingB[1], self.mRatingB[2])
-            new_3xfmr2 = Transformer(all_bus_key[int(self.mPrimaryBus[1])], GROUND, all_bus_key[int(self.mSecondaryBus[1])], GROUND, self.mR2,
-                                      self.mX2, self.mWindingStatus[1], self.mTR[1], self.mAng[1],
-                                      0, 0, self.mMaxRatingB)
+            new_3xfmr2 = Transformer(all_bus_key[int(self.mPrimaryBus[1])], GROUND, all_bus_key[int(self.mSecondaryBus[1])], GROUND, self.mR2 * self.mZScale,
+                                      self.mX2 * self.mZScale, self.mWindingStatus[1], self.mTR[1], self.mAng[1],
+                                      0, 0, self.mMaxRatingB / self.mZScale)
             xfmrs.append(new_3xfmr2)
         # Here create transformer object
         # In the constructor you will have to pass
@@ -400,9 +405,9 @@ class ThreeWindingXfmrs(object):
         # self.mRating[1]
         if self.mWindingStatus[2]:
             self.mMaxRatingC = max(self.mRatingC[0], self.mRatingC[1], self.mRatingC[2])
-            new_3xfmr3 = Transformer(all_bus_key[int(self.mPrimaryBus[2])], GROUND, all_bus_key[int(self.mSecondaryBus[2])], GROUND, self.mR3,
-                                      self.mX3, self.mWindingStatus[2], self.mTR[2], self.mAng[2],
-                                      0, 0, self.mMaxRatingC)
+            new_3xfmr3 = Transformer(all_bus_key[int(self.mPrimaryBus[2])], GROUND, all_bus_key[int(self.mSecondaryBus[2])], GROUND, self.mR3 * self.mZScale,
+                                      self.mX3 * self.mZScale, self.mWindingStatus[2], self.mTR[2], self.mAng[2],
+                                      0, 0, self.mMaxRatingC / self.mZScale)
             xfmrs.append(new_3xfmr3)
         # Here create transformer object
         # In the constructor you will have to pass
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 3b12327..c8cbb83 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -167,7 +167,7 @@ def parse_raw(rawfile):
                     slack_dic[g.i] = slack_idx
                     slack_idx += 1
                 else:
-                    integrated_data['slack'][slack_dic[gen.i]].Pinit += gen.pg / sbase
+                    integrated_data['slack'][slack_dic[gen.i]].Pinit += gen.pg / global_vars.MVAbase
                 non_empty_bus_set.add(int(gen.i))
 
                 all_case_data['all_slack_generators'].append(g)
@@ -353,7 +353,7 @@ def parse_raw(rawfile):
         all_case_data['all_non_xfmr_branches'].append(br)
         search_case_data['branches'][(br.i, br.j, br.ckt)] = br
         if (branch.i not in offline_bus) and (branch.j not in offline_bus) and (branch.st == 1):
-            (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
+            (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key, sbase)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
                 non_empty_bus_set.add(shunt_i.bus.Bus)
-- 
2.43.0


From 38245e97426f3774a35914940d297bf44cfa5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 19/46] fix: transformer windings of revision 34 have twelve
 ratings

---
 src/logic/network/parsers/raw/Data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logic/network/parsers/raw/Data.py b/src/logic/network/parsers/raw/Data.py
index 10a1297..f70d8ae 100644
--- a/src/logic/network/parsers/raw/Data.py
+++ b/src/logic/network/parsers/raw/Data.py
@@ -1212,6 +1212,8 @@ class Two_xfmr:
             self.cnxa1 = 0.0
     
     def read_from_row(self, row, row2, row3, row4, version):
+        if version == 34: # twelve ratings per winding
+            row3 = row3[:6] + row3[15:]
         #two winding xfmrs have 4 rows of data 
         #row 1
         
@@ -1359,6 +1361,8 @@ class Three_xfmr:
             self.cnxa3 = 0.0
         
     def read_from_row(self, row, row2, row3, row4, row5, version):
+        if version == 34: # twelve ratings per winding
+            row3, row4, row5 = [r[:6] + r[15:] for r in (row3, row4, row5)]
         #row 1
         self.i = parse_token(row[0], int, '')
         self.j = parse_token(row[1], int, '')
-- 
2.43.0


From 5efa9754b678563acbe766fea486cf2192080168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 20/46] fix: bus shunts of revision 30

---
 src/logic/network/parsers/raw/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index c8cbb83..11b9956 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -321,6 +321,14 @@ def parse_raw(rawfile):
             non_empty_bus_set.add(fs.i)
             integrated_data['shunts'].append(fs.integrate(all_bus_key))
 
+    # revision 30 holds the fixed shunts in the bus records
+    if version == 30:
+        for bus in data.raw.get_buses():
+            if (bus.i not in offline_bus) and (bus.gl != 0 or bus.bl != 0):
+                fs = data_classes.Fixed_shunt_data(bus.i, '1', 1, bus.gl, bus.bl)
+                non_empty_bus_set.add(fs.i)
+                integrated_data['shunts'].append(fs.integrate(all_bus_key))
+
     # ---------- loads ----------
     for load in data.raw.get_loads():
 
-- 
2.43.0


From 96b994989df89ba619b63c3e916de8e6fe200b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 21/46] fix: read the row after the key lines in the last
 sections of a RAW file

---
 src/logic/network/parsers/raw/Data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/network/parsers/raw/Data.py b/src/logic/network/parsers/raw/Data.py
index f70d8ae..c09b53f 100644
--- a/src/logic/network/parsers/raw/Data.py
+++ b/src/logic/network/parsers/raw/Data.py
@@ -737,6 +737,7 @@ class Raw:
                         row_num += 1
                     else:
                         break
+                row = rows[row_num]
                 if self.row_is_file_end(row):
                     return
                 if self.row_is_section_end(row):
@@ -751,6 +752,7 @@ class Raw:
                             row_num += 1
                         else:
                             break
+                    row = rows[row_num]
                     if self.row_is_file_end(row):
                         return
                     if self.row_is_section_end(row):
@@ -764,6 +766,7 @@ class Raw:
                             row_num += 1
                         else:
                             break
+                    row = rows[row_num]
                     if self.row_is_file_end(row):
                         return
                     if self.row_is_section_end(row):
-- 
2.43.0


From 878a45fe58ddaea0b6742f754363790cb0883b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 22/46] fix: a delta load given by pair of phases keeps that
 pair

---
 src/ditto/readers/gridlabd/load_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index 298cdfb..cb3a650 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -196,6 +196,8 @@ class LoadParser:
                 phaseload.phase = "BC"
             elif phase == "C":
                 phaseload.phase = "CA"
+            else:
+                phaseload.phase = phase
         else:
             phaseload.phase = phase
         phaseload.p = 0  # Default value
-- 
2.43.0


From c73898f06ebe15624a516e7d7508f1301b567857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 23/46] fix: units given after a value in a GLM file are not
 ignored where they are converted

---
 src/ditto/readers/gridlabd/read.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..ffd6f1c 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -65,6 +65,16 @@ shared_config_objects = [
     'overhead_line_conductor'
 ]
 
+#Properties that are read together with their unit.
+converted_units = {
+    "length": ["km"],
+    "primary_voltage": ["kV"],
+    "secondary_voltage": ["kV"],
+    "geometric_mean_radius": ["cm"],
+    "resistance": ["Ohm/km"],
+    "conductor_resistance": ["Ohm/km"]
+}
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -138,6 +148,9 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                             value = str(float(value) / 12)
                         if obj_class == "capacitor" and units == "MVAr":
                             value = str(float(value) * 1e6)
+                        # These are converted where the property is used, which looks for the unit in the value.
+                        if units in converted_units.get(element, []):
+                            value = value + units
                         # print element,value,units
                         # if units[0] =='k':
                         #    value = value/1000.0
-- 
2.43.0


From e3e51ce6ee89c9ffb9d1f04f6b78ddf081e47f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 24/46] fix: the second half of a center-tap secondary has the
 voltage of the first

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index ffd6f1c..7e4d82b 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -472,7 +472,7 @@ class Reader(AbstractReader):
                                     winding2.nominal_voltage = float(
                                         low_voltage)
                                 if num_windings == 3:
-                                    winding3.nominal_voltage = -float(low_voltage) # To indicate the 180 degree phase shift
+                                    winding3.nominal_voltage = -winding2.nominal_voltage # To indicate the 180 degree phase shift
                             except AttributeError:
                                 pass
 
-- 
2.43.0


From b2e5191b3ec7c2e43cc899200979cc06f2fc8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 25/46] fix: winding impedances given for a center-tap
 transformer are used

---
 src/ditto/readers/gridlabd/read.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 7e4d82b..098d651 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -546,6 +546,18 @@ class Reader(AbstractReader):
                                 except AttributeError:
                                     pass
 
+                            if num_windings == 3 and len(reactances) > 0:
+                                # Each winding may be given its own impedance, which replaces the approximation
+                                try:
+                                    impedance1 = complex(config["impedance1"])
+                                    impedance2 = complex(config["impedance2"])
+                                    winding1.resistance = resistance
+                                    winding2.resistance = impedance1.real
+                                    winding3.resistance = impedance2.real
+                                    reactances = [reactance, impedance1.imag, impedance2.imag]
+                                except AttributeError:
+                                    pass
+
                             if len(reactances) > 0:
                                 for x in reactances:
                                     api_transformer.reactances.append(x)
-- 
2.43.0


From adc9489e6dbfe0c7eb93bd8a7b204a137ed9868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 26/46] fix: converting a conductor's units does not change the
 conductor other wires share

---
 src/ditto/readers/gridlabd/read.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 098d651..3854388 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -916,8 +916,7 @@ class Reader(AbstractReader):
 
                         try:
                             if conductor["geometric_mean_radius"].find('cm') != -1:
-                                conductor["geometric_mean_radius"] = remove_nonnum.sub('', conductor["geometric_mean_radius"])
-                                api_wire.gmr = float(conductor["geometric_mean_radius"]) / 30.48 # convert cm to feet
+                                api_wire.gmr = float(remove_nonnum.sub('', conductor["geometric_mean_radius"])) / 30.48 # convert cm to feet
                             else:
                                 api_wire.gmr = float(conductor["geometric_mean_radius"])
                         except AttributeError:
@@ -925,10 +924,8 @@ class Reader(AbstractReader):
                         try:
                             if conductor["resistance"].find('Ohm/km') != -1:
                                 # Convert Ohm/km into Ohm/mi
-                                conductor["resistance"] = remove_nonnum.sub(
-                                    '', conductor["resistance"])
-                                api_wire.resistance = float(
-                                    conductor["resistance"]) * 1.609344
+                                api_wire.resistance = float(remove_nonnum.sub(
+                                    '', conductor["resistance"])) * 1.609344
                             else:
                                 api_wire.resistance = float(conductor["resistance"])
                         except AttributeError:
@@ -1204,10 +1201,8 @@ class Reader(AbstractReader):
                         # set resistance to be the conductor resistance for underground cables
                         try:
                             if conductor["conductor_resistance"].find('Ohm/km') != -1:
-                                conductor["conductor_resistance"] = remove_nonnum.sub(
-                                    '', conductor["conductor_resistance"])
-                                api_wire.resistance = float(
-                                    conductor["conductor_resistance"]) * 1.609344
+                                api_wire.resistance = float(remove_nonnum.sub(
+                                    '', conductor["conductor_resistance"])) * 1.609344
                             else:
                                 # NOTE: There doesn't seem to be inclusion of taped shielding GMR or resistance here
                                 # They seem to be assumed to be zero
-- 
2.43.0


From 7aa926a88fbbf5f14548609cb3fd8623378fd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:03 +0000
Subject: [PATCH 27/46] fix: the phases of a feeder object are a set, their
 order in the file has no meaning

---
 src/ditto/readers/gridlabd/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index d75b0ea..8248b11 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -26,6 +26,9 @@ def parse_phases(phase_str: str, obj_name: str) -> Tuple[List[str], bool, bool]:
             continue
         else:
             phases.append(phase_char)
+
+    #The phases are a set, the order they're written in has no meaning.
+    phases.sort()
     
     if not has_neutral and not is_triplex:
         is_delta = True
-- 
2.43.0


From 6983b77c2ebe533db0bd165e967085a372b69229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 28/46] fix: wire distances are looked up by phase when a
 spacing places more wires than a line has

---
 src/ditto/readers/gridlabd/line_impedance.py | 5 +++++
 src/ditto/readers/gridlabd/read.py           | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..75626b3 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -479,6 +479,11 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
 
     return np.array(distances)
 
+#The spacing may place more wires than the line has, so distances are looked up by phase.
+def select_wire_distances(wire_list, distances):
+    indexes = [rev_lookup[wire.phase] for wire in wire_list]
+    return distances[:, indexes][indexes, :]
+
 def compute_overhead_capacitance(wire_list, distances, freq = 60):
     neutral_index = rev_lookup["N"]
     earth_index = rev_lookup["E"]
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 3854388..496444f 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, select_wire_distances, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
@@ -959,7 +959,7 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix == None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
+                    striped_distances = select_wire_distances(wire_list, distances)
                     impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
@@ -1257,7 +1257,7 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix is None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
+                    striped_distances = select_wire_distances(wire_list, distances)
                     impedance_matrix = compute_underground_impedance(wire_list, striped_distances)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
-- 
2.43.0


From d8d4c6b38575e2b571ddf262858212ccb4d4ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 29/46] fix: each underground cable uses its own number of
 neutral strands

---
 src/ditto/readers/gridlabd/line_impedance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 75626b3..0c65789 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -652,6 +652,7 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
     neutral_resistances = []
     conductor_gmrs = []
     neutral_gmrs = []
+    neutral_strands = []
     num_non_neutral = 0
 
     for wire in wire_list:
@@ -659,6 +660,7 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
             conductor_own_neutral_distances.append(0)
             neutral_resistances.append(wire.resistance)
             neutral_gmrs.append(wire.gmr)
+            neutral_strands.append(1)
         else:
             num_non_neutral += 1
             conductor_resistances.append(wire.resistance)
@@ -669,10 +671,12 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
                 neutral_resistances.append(wire.shield_resistance if wire.shield_resistance != 0 else (MAGIC_NUMBER / (wire.shield_diameter * wire.shield_thickness)))
                 neutral_gmrs.append(wire.shield_gmr if wire.shield_gmr != 0 else ((wire.shield_diameter - (wire.shield_thickness / 1000)) / (12 * 2)))
                 conductor_own_neutral_distances.append((wire.shield_diameter - wire.shield_thickness) / (12 * 2))
+                neutral_strands.append(1)
             else:
                 conductor_own_neutral_distance = (wire.outer_diameter - wire.concentric_neutral_diameter) / (12 * 2)
                 conductor_own_neutral_distances.append(conductor_own_neutral_distance)
                 k = wire.concentric_neutral_nstrand
+                neutral_strands.append(k)
                 neutral_resistances.append(wire.concentric_neutral_resistance / k)
                 neutral_gmrs.append((wire.concentric_neutral_gmr * k * (conductor_own_neutral_distance ** (k - 1))) ** (1 / k))
 
@@ -683,6 +687,7 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
             if i == j:
                 temp.append(conductor_own_neutral_distances[i])
             else:
+                k = neutral_strands[j]
                 temp.append((distances[i][j]**k - conductor_own_neutral_distances[j]**k)**(1/k))
         conductor_neutral_distances.append(temp)
 
-- 
2.43.0


From fd8894bbe5d6d4251ae51fc0b8a65bf8ee85450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 30/46] fix: a line has only the phases it declares, also when
 its configuration has conductors for more

---
 src/ditto/readers/gridlabd/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 496444f..52184c6 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -954,7 +954,7 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = [wire for wire in conductors if wire.phase == "N" or wire.phase in phases]
 
                 impedance_matrix = try_load_direct_line_impedance(config)
 
@@ -1252,7 +1252,7 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = [wire for wire in conductors if wire.phase == "N" or wire.phase in phases]
 
                 impedance_matrix = try_load_direct_line_impedance(config)
 
-- 
2.43.0


From 4eb0da4083e9e6788c3a9a7af5f8aa892ce0ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 31/46] fix: a line without spacing does not use the spacing of
 the line before it

---
 src/ditto/readers/gridlabd/read.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 52184c6..b1362de 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, select_wire_distances, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import num_dists, compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, select_wire_distances, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
@@ -944,6 +944,7 @@ class Reader(AbstractReader):
                             pass
 
                     spacing_name = None
+                    distances = np.full((num_dists, num_dists), -1.0)
                     try:
                         spacing_name = config["spacing"]
                     except AttributeError:
@@ -1239,6 +1240,7 @@ class Reader(AbstractReader):
                             pass
 
                     spacing_name = None
+                    distances = np.full((num_dists, num_dists), -1.0)
                     try:
                         spacing_name = config["spacing"]
                     except AttributeError:
-- 
2.43.0


From cb0363e4834d5d2291ebc331b184ad89bdda0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 32/46] fix: units of triplex conductors are converted like
 those of overhead ones

---
 src/ditto/readers/gridlabd/read.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index b1362de..d603134 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -1067,14 +1067,19 @@ class Reader(AbstractReader):
                         cond_name = conductors[api_wire]
                         conductor = self.all_gld_objects[cond_name]
                         try:
-                            api_wire.gmr = (
-                                float(conductor["geometric_mean_radius"]) # * 0.3048 to convert feet to meters
-                            )
+                            if conductor["geometric_mean_radius"].find('cm') != -1:
+                                api_wire.gmr = float(remove_nonnum.sub('', conductor["geometric_mean_radius"])) / 30.48 # convert cm to feet
+                            else:
+                                api_wire.gmr = float(conductor["geometric_mean_radius"])
                         except AttributeError:
                             pass
                         try:
-                            api_wire.resistance = (
-                                    float(conductor["resistance"]))
+                            if conductor["resistance"].find('Ohm/km') != -1:
+                                # Convert Ohm/km into Ohm/mi
+                                api_wire.resistance = float(remove_nonnum.sub(
+                                    '', conductor["resistance"])) * 1.609344
+                            else:
+                                api_wire.resistance = float(conductor["resistance"])
                             # if api_line.length is not None:
                             #     api_wire.resistance = (
                             #         float(conductor["resistance"])
-- 
2.43.0


From e22a3ad9886c31d41086f3ea3ad1d8905b52840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:26 +0000
Subject: [PATCH 33/46] fix: line impedance matrices given directly in a
 configuration are used

---
 src/ditto/readers/gridlabd/line_impedance.py | 14 +++++---
 src/ditto/readers/gridlabd/read.py           | 34 ++++++++++++++------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 0c65789..5a1d99b 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -12,6 +12,8 @@ num_dists = len(lookup)
 
 rev_lookup = {"A": 0, "B": 1, "C": 2, "N": 3, "E": 4}
 
+direct_phase_lookup = {"A": 0, "B": 1, "C": 2, "1": 0, "2": 1}
+
 line_direct_lookup = {
     "11": (0, 0),
     "12": (0, 1), 
@@ -776,24 +778,28 @@ def compute_triplex_impedance(wire_list, freq=60, resistivity=100, kron_reduce=T
 
     return matrix
 
-def try_load_direct_line_impedance(line_config):
+def try_load_direct_line_impedance(line_config, phases):
     #It is possible to specify the line impedance directly in Z matrix form:
     #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
 
     impedance_matrix = None
     for property_number in line_direct_lookup.keys():
         prop_name = f"z{property_number}"
-        if not hasattr(line_config, prop_name):
+        if not hasattr(line_config, "_" + prop_name):
             continue
 
-        if impedance_matrix == None:
+        if impedance_matrix is None:
             impedance_matrix = np.zeros((3,3)).astype(complex)
         
         i, j = line_direct_lookup[property_number]
 
         impedance_matrix[i][j] = complex(line_config[prop_name])
     
-    return impedance_matrix
+    if impedance_matrix is None:
+        return None
+
+    indexes = [direct_phase_lookup[phase] for phase in phases]
+    return impedance_matrix[:, indexes][indexes, :]
 
 def try_load_direct_line_capacitance(line_config):
     #It is possible to specify the line capacitance directly in Z matrix form:
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index d603134..e7738ba 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -223,6 +223,21 @@ def parse_line_length(line, name):
         # Change feet to meters
         return float(line["length"]) * 0.3048
 
+#A configuration that gives the impedance matrix directly doesn't need to have conductors.
+def get_line_wires(model, conductors, phases):
+    wire_list = [wire for wire in conductors if wire.phase == "N" or wire.phase in phases]
+
+    if len(wire_list) == 0:
+        for phase in phases:
+            wire = Wire(model)
+            wire.phase = phase
+            wire_list.append(wire)
+
+    return wire_list
+
+def get_wire_phases(wire_list):
+    return [wire.phase for wire in wire_list if wire.phase != "N"]
+
 def convert_Z_matrix_per_mile_to_per_meter(z_matrix):
     z_matrix = z_matrix / meters_per_mile
 
@@ -955,11 +970,11 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = [wire for wire in conductors if wire.phase == "N" or wire.phase in phases]
+                wire_list = get_line_wires(model, conductors, phases)
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, get_wire_phases(wire_list))
 
-                if impedance_matrix == None:
+                if impedance_matrix is None:
                     striped_distances = select_wire_distances(wire_list, distances)
                     impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
 
@@ -1104,9 +1119,9 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = get_line_wires(model, conductors, triplex_phases)
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, get_wire_phases(wire_list))
 
                 if impedance_matrix is None:
                     impedance_matrix = compute_triplex_impedance(wire_list)
@@ -1259,9 +1274,9 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = [wire for wire in conductors if wire.phase == "N" or wire.phase in phases]
+                wire_list = get_line_wires(model, conductors, phases)
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, get_wire_phases(wire_list))
 
                 if impedance_matrix is None:
                     striped_distances = select_wire_distances(wire_list, distances)
@@ -1271,10 +1286,11 @@ class Reader(AbstractReader):
 
                 capacitance_matrix = try_load_direct_line_capacitance(config)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and len(conductors) > 0:
                     capacitance_matrix = compute_underground_capacitance(wire_list)
                 
-                api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
+                if capacitance_matrix is not None:
+                    api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
 
                 api_line.wires = wire_list
 
-- 
2.43.0


From e32b5d28b7600a4836d9f95f66aec86b9b64bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:11 +0000
Subject: [PATCH 34/46] fix: a neutral conductor without outer diameter does
 not make its line lose the spacing

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index e7738ba..51e61ec 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -1268,7 +1268,7 @@ class Reader(AbstractReader):
                     if spacing_name is not None:
                         spacing_config = self.all_gld_objects[spacing_name]
 
-                        distances = compute_underground_spacing([api_wire.outer_diameter for api_wire in conductors], spacing_config, conductors)
+                        distances = compute_underground_spacing([getattr(api_wire, "outer_diameter", 0) for api_wire in conductors], spacing_config, conductors)
 
                         api_line.spacing = spacing_config
                 except AttributeError:
-- 
2.43.0


From 7b112dcb371ee6019b8b4a548961cc06be22624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:08 +0000
Subject: [PATCH 35/46] fix: every phase of a switch or fuse is connected, also
 those the file gives no state for

---
 src/ditto/readers/gridlabd/read.py | 40 ++++++++++++------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 51e61ec..e4595a9 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -777,18 +777,14 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
+                #Phases that don't have a status of their own follow the status of the object, and are closed without one.
+                status = obj["status"] if hasattr(obj, "_status") else "CLOSED"
+                for p in phases:
+                    if not p in [wire.phase for wire in wires]:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        api_wire.is_open = status == "OPEN"
+                        wires.append(api_wire)
 
                 api_line.wires = wires
 
@@ -847,18 +843,14 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
+                #Phases that don't have a status of their own follow the status of the object, and are closed without one.
+                status = obj["status"] if hasattr(obj, "_status") else "CLOSED"
+                for p in phases:
+                    if not p in [wire.phase for wire in wires]:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        api_wire.is_open = status == "OPEN"
+                        wires.append(api_wire)
 
                 api_line.wires = wires
 
-- 
2.43.0


From 0e96a0d49d704961ddcfbc6ee985d2e27918b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:16 +0000
Subject: [PATCH 36/46] fix: fuses the file says are blown or open aren't taken
 for good ones

---
 src/logic/network/parsers/threephase/threephaseparser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..3c1f16e 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -282,14 +282,15 @@ class ThreePhaseParser:
         # Check for fuses, some are encoded as zero-length lines with no features
         if model.is_fuse:
             for wire in model.wires:
+                if not wire.phase in model.phases:
+                    continue
+
                 from_bus = network_model.bus_name_map[model.from_element + "_" + wire.phase]
                 to_bus = network_model.bus_name_map[model.to_element + "_" + wire.phase]
 
                 current_limit = float(model.current_limit)
 
-                fuse_status = FuseStatus.GOOD
-                if hasattr(model, "phase_" + wire.phase + "_status"):
-                    fuse_status = FuseStatus[getattr(model, "phase_" + wire.phase + "_status")]
+                fuse_status = FuseStatus.BLOWN if wire.is_open else FuseStatus.GOOD
 
                 fuse_bus = self.create_bus(network_model, 0.1, 0.1, f"{from_bus.NodeName}-Fuse", wire.phase, True)
 
-- 
2.43.0


From 6ccaf0ed8b7069798383935a8c1650f242bd83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:16 +0000
Subject: [PATCH 37/46] fix: a network with a blown fuse is solved instead of
 refused

---
 src/models/components/fuse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/components/fuse.py b/src/models/components/fuse.py
index 7c93d4e..dd9a4fc 100644
--- a/src/models/components/fuse.py
+++ b/src/models/components/fuse.py
@@ -43,7 +43,8 @@ class Fuse():
 
     def get_stamps(self):
         if self.status == FuseStatus.BLOWN:
-            raise Exception("Blown fuses are not supported")
+            #Nothing else connects to the interior node, so no current can pass.
+            return self.current_sensor.get_stamps()
 
         return build_stamps_from_stamper(self, self.line_stamper, [self.G, self.B, 0]) + self.current_sensor.get_stamps()
 
-- 
2.43.0


From 98ab30ea1f7682e31e68eb36c6642621dc47edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:02 +0000
Subject: [PATCH 38/46] fix: objects that share lines, down to a whole object
 on one line, are read completely

---
 src/ditto/readers/gridlabd/read.py | 39 ++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index e4595a9..259f539 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -75,6 +75,37 @@ converted_units = {
     "conductor_resistance": ["Ohm/km"]
 }
 
+#A statement with the character that ends it, which can be part of a quoted text.
+statement_pattern = re.compile(r'((?:"[^"]*"|[^;{}"])*)([;{}]?)')
+
+#One line can have any number of statements, and even a whole object.
+def split_statements(rows):
+    in_schedule = False
+    schedule_depth = 0
+
+    for row in rows:
+        # Deal with comments
+        row = row.split("//")[0].strip()
+
+        if in_schedule or row.split()[:1] == ["schedule"]:
+            schedule_depth += row.count("{") - row.count("}")
+            in_schedule = schedule_depth > 0 or row.find("}") == -1
+            yield row
+            continue
+
+        for text, end in statement_pattern.findall(row):
+            text = text.strip()
+            if text[:1] == "#":
+                break
+
+            if end == "}":
+                #The last property doesn't need a semicolon.
+                if text != "":
+                    yield text
+                yield end
+            elif text != "":
+                yield text + " " + end
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -101,16 +132,10 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
             all_includes = all_includes + include_rows
     all_rows = all_rows + all_includes
 
-    for row in all_rows:
+    for row in split_statements(all_rows):
         row = row.strip()
         units = None
 
-        # Deal with comments
-        if row[:2] == "//":
-            continue
-        if row.find("//") != -1:
-            row = row[:row.find("//")]
-
         entries = row.split()
         if len(entries) > 0 and entries[0] == "object":
             if curr_object is None:
-- 
2.43.0


From f1f63ce90524d88fb5945a4adfb1dca02a1bfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 39/46] fix: nested objects are read as objects of their own,
 attached to the one around them

---
 src/ditto/readers/gridlabd/read.py | 75 ++++++++++++++++--------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 259f539..01f2fa2 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -115,7 +115,9 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
     curr_object = None
     curr_schedule = None
-    ignore_elements = False
+    #The objects around the current one, None for those that are skipped.
+    outer_objects = []
+    nested_objects = []
     found_schedule = False
     all_includes = []
     all_schedules = {}
@@ -138,16 +140,17 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
         entries = row.split()
         if len(entries) > 0 and entries[0] == "object":
-            if curr_object is None:
-                obj = entries[1].split(":")
-                obj_class = obj[0]
-                if obj_class in skipped_objects:
-                    continue
-                curr_object = getattr(gridlabd, obj_class)()
-                if len(obj) > 1:
-                    curr_object["name"] = obj_class + ":" + obj[1]
-            else:
-                ignore_elements = True
+            outer_objects.append(curr_object)
+            obj = entries[1].split(":")
+            obj_class = obj[0]
+            if obj_class in skipped_objects:
+                curr_object = None
+                continue
+            curr_object = getattr(gridlabd, obj_class)()
+            if len(obj) > 1:
+                curr_object["name"] = obj_class + ":" + obj[1]
+            if outer_objects[-1] is not None:
+                nested_objects.append((curr_object, outer_objects[-1]))
 
         elif len(entries) > 0 and entries[0] == "schedule":
             if curr_schedule is None:
@@ -156,6 +159,9 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
             curr_schedule = schedule
 
         else:
+            if curr_object == None and len(outer_objects) > 0 and row == "}":
+                curr_object = outer_objects.pop()
+                continue
             if curr_object == None and curr_schedule == None:
                 continue
             if curr_object != None:
@@ -169,6 +175,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                     if len(entries) > 2:
                         units = entries[2]
                         # TODO: Deal with units correctly
+                        obj_class = type(curr_object).__name__
                         if obj_class == "line_spacing" and units == "in":
                             value = str(float(value) / 12)
                         if obj_class == "capacitor" and units == "MVAr":
@@ -180,37 +187,32 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                         # if units[0] =='k':
                         #    value = value/1000.0
 
-                    # Assuming no nested objects for now.
                     curr_object[element] = value
 
                 if len(row) >= 1:
                     if row[-1] == "}" or row[-2:] == "};":
-                        if ignore_elements:  # Assumes only one layer of nesting
-                            ignore_elements = False
-                        else:
-                            try:
+                        try:
+                            all_gld_objects[
+                                curr_object["name"]
+                            ] = curr_object
+                        except:
+
+                            if (
+                                curr_object["from"] != None
+                                and curr_object["to"] != None
+                            ):
+                                curr_object["name"] = (
+                                    curr_object["from"]
+                                    + "-"
+                                    + curr_object["to"]
+                                )
                                 all_gld_objects[
                                     curr_object["name"]
                                 ] = curr_object
-                                curr_object = None
-                            except:
 
-                                if (
-                                    curr_object["from"] != None
-                                    and curr_object["to"] != None
-                                ):
-                                    curr_object["name"] = (
-                                        curr_object["from"]
-                                        + "-"
-                                        + curr_object["to"]
-                                    )
-                                    all_gld_objects[
-                                        curr_object["name"]
-                                    ] = curr_object
-
-                                else:
-                                    logger.debug("Warning object missing a name")
-                                curr_object = None
+                            else:
+                                logger.debug("Warning object missing a name")
+                        curr_object = outer_objects.pop()
 
             if curr_schedule != None:
                 row = row.strip(";")
@@ -232,6 +234,11 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                         curr_schedule = None
                         found_schedule = False
 
+    #The parent of a nested object is the one it's in, which can get its name after it.
+    for nested_object, outer_object in nested_objects:
+        if not hasattr(nested_object, "_parent"):
+            nested_object["parent"] = outer_object["name"]
+
     return (all_gld_objects, all_schedules)
 
 def parse_line_length(line, name):
-- 
2.43.0


From 49134c012008abb675e4ca0a8230354ea75af83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 40/46] fix: nodes can come before their parents in the file

---
 .../network/parsers/threephase/threephaseparser.py  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 3c1f16e..71577f9 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -85,10 +85,21 @@ class ThreePhaseParser:
 
         return False
 
+    def count_ancestors(self, model, parents):
+        ancestors = 0
+        parent = getattr(model, "parent", None)
+        while parent != None and ancestors <= len(parents):
+            ancestors += 1
+            parent = parents.get(parent)
+
+        return ancestors
+
     # GridlabD buses default to being "PQ" constant power buses (aka loads)
     # They could also be "PV" voltage-controlled magnitude buses (aka generators)
     def create_buses(self, network_model: DxNetworkModel):
-        for model in self.ditto_store.models:
+        #Children use the buses of their parents, which can come later in the file.
+        parents = {model.name: model.parent for model in self.ditto_store.models if hasattr(model, "parent")}
+        for model in sorted(self.ditto_store.models, key=lambda model: self.count_ancestors(model, parents)):
 
             if isinstance(model, ditto.models.node.Node) or isinstance(model, ditto.models.power_source.PowerSource):
                 isSlack = False
-- 
2.43.0


From 041bb277c4856cb642b7d3983919a0c4b8bf90ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:29 +0000
Subject: [PATCH 41/46] fix: a child without nominal voltage leaves the one of
 its parent

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 01f2fa2..20a556f 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -353,7 +353,7 @@ class Reader(AbstractReader):
                     #Meter nominal voltages are sometimes incorrect, so we use
                     #the child's nominal voltage if it exists.
                     for element in model.model_store:
-                        if type(element) == Node and element.name == api_node.parent:
+                        if type(element) == Node and element.name == api_node.parent and api_node.nominal_voltage != None:
                             element.nominal_voltage = api_node.nominal_voltage
                             break
                 except AttributeError:
-- 
2.43.0


From cacae81c106a20ac33d2a880d84e1042ac1f41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:07 +0000
Subject: [PATCH 42/46] fix: objects without name don't replace each other, nor
 stop the reader

---
 src/ditto/readers/gridlabd/read.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 20a556f..705fd28 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -195,23 +195,16 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                             all_gld_objects[
                                 curr_object["name"]
                             ] = curr_object
-                        except:
-
-                            if (
-                                curr_object["from"] != None
-                                and curr_object["to"] != None
-                            ):
-                                curr_object["name"] = (
-                                    curr_object["from"]
-                                    + "-"
-                                    + curr_object["to"]
-                                )
-                                all_gld_objects[
-                                    curr_object["name"]
-                                ] = curr_object
+                        except AttributeError:
+                            #The name only has to be different from all others.
+                            name = type(curr_object).__name__
+                            if hasattr(curr_object, "_from") and hasattr(curr_object, "_to"):
+                                name = curr_object["from"] + "-" + curr_object["to"]
+                            while name in all_gld_objects:
+                                name = name + "'"
+                            curr_object["name"] = name
+                            all_gld_objects[name] = curr_object
 
-                            else:
-                                logger.debug("Warning object missing a name")
                         curr_object = outer_objects.pop()
 
             if curr_schedule != None:
-- 
2.43.0


From 28aca3305d291c3497effbd3f41d2430353838a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:17 +0000
Subject: [PATCH 43/46] fix: values given in other units than the documented
 ones are converted

---
 src/ditto/readers/gridlabd/read.py | 35 ++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 705fd28..61873b7 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -75,6 +75,30 @@ converted_units = {
     "conductor_resistance": ["Ohm/km"]
 }
 
+#How much of the documented unit of a property there is in the other units that files give values in.
+unit_factors = {
+    "Volts": {"kV": 1e3, "MV": 1e6},
+    "Amperes": {"kA": 1e3},
+    "Volt-Amperes": {"kVA": 1e3, "MVA": 1e6},
+    "VA": {"kVA": 1e3, "MVA": 1e6},
+    "Volt-Amperes-reactive": {"kVAr": 1e3, "MVAr": 1e6},
+    "kilo-Volt-Amperes": {"VA": 1e-3, "MVA": 1e3},
+    "feet": {"in": 1 / 12, "yd": 3, "mile": 5280, "cm": 1 / 30.48, "m": 1 / 0.3048, "km": 1 / 0.0003048},
+    "inches": {"ft": 12, "mm": 1 / 25.4, "cm": 1 / 2.54},
+    "Ohm/mile": {"Ohm/km": 1.609344, "Ohm/ft": 5280}
+}
+
+def convert_units(obj, element, value, units):
+    for gld_property in obj._properties:
+        if gld_property["name"] == element:
+            factor = unit_factors.get(gld_property["unit"], {}).get(units)
+            if factor != None:
+                if gld_property["type"] == "complex":
+                    return str(complex(value) * factor)
+                return str(float(value) * factor)
+
+    return value
+
 #A statement with the character that ends it, which can be part of a quoted text.
 statement_pattern = re.compile(r'((?:"[^"]*"|[^;{}"])*)([;{}]?)')
 
@@ -174,18 +198,11 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
                     if len(entries) > 2:
                         units = entries[2]
-                        # TODO: Deal with units correctly
-                        obj_class = type(curr_object).__name__
-                        if obj_class == "line_spacing" and units == "in":
-                            value = str(float(value) / 12)
-                        if obj_class == "capacitor" and units == "MVAr":
-                            value = str(float(value) * 1e6)
                         # These are converted where the property is used, which looks for the unit in the value.
                         if units in converted_units.get(element, []):
                             value = value + units
-                        # print element,value,units
-                        # if units[0] =='k':
-                        #    value = value/1000.0
+                        else:
+                            value = convert_units(curr_object, element, value, units)
 
                     curr_object[element] = value
 
-- 
2.43.0


From 6b9cbcb90ca4f36e2f796dc2eea5d292a9234b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:34 +0000
Subject: [PATCH 44/46] fix: complex numbers written with spaces keep their
 imaginary part

---
 src/ditto/readers/gridlabd/read.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 61873b7..5f12357 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -75,6 +75,9 @@ converted_units = {
     "conductor_resistance": ["Ohm/km"]
 }
 
+#A complex number with spaces between its parts.
+spaced_complex = re.compile(r'(?<=\s)([-+]?[\d.]+(?:[eE][-+]?\d+)?)\s*([-+])\s*([\d.]+(?:[eE][-+]?\d+)?j)(?=\s|$)')
+
 #How much of the documented unit of a property there is in the other units that files give values in.
 unit_factors = {
     "Volts": {"kV": 1e3, "MV": 1e6},
@@ -191,6 +194,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
             if curr_object != None:
                 if len(row) > 0 and row.find(";") != -1:	
                     row = row[:row.find(";")]
+                row = spaced_complex.sub(r'\1\2\3', row)
                 entries = row.split()
                 if len(entries) > 1:
                     element = entries[0]
-- 
2.43.0


From 6a30ef13f687526e9ed2e078eac10bb82eeb4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 45/46] fix: numbers with exponents keep them when their unit
 is removed

---
 src/ditto/readers/gridlabd/line_impedance.py | 3 ++-
 src/ditto/readers/gridlabd/read.py           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 5a1d99b..9ba9062 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -5,7 +5,8 @@ import math
 
 logger = logging.getLogger(__name__)
 
-remove_nonnum = re.compile(r'[^\d.]+')
+#The unit after a number, which can have an exponent.
+remove_nonnum = re.compile(r'\s*[a-zA-Z/]+$')
 
 lookup = ["A", "B", "C", "N", "E"]
 num_dists = len(lookup)
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 5f12357..6832edd 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -26,7 +26,8 @@ from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
 
 logger = logging.getLogger(__name__)
 
-remove_nonnum = re.compile(r'[^\d.]+')
+#The unit after a number, which can have an exponent.
+remove_nonnum = re.compile(r'\s*[a-zA-Z/]+$')
 
 meters_per_mile = 1609.344
 
-- 
2.43.0


From 7bb14bafdd68ed6b6cdd33aed03c6ef1d29f132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:58 +0000
Subject: [PATCH 46/46] fix: phases can be separated by bars

---
 src/ditto/readers/gridlabd/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index 8248b11..52a2206 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -12,7 +12,7 @@ def parse_phases(phase_str: str, obj_name: str) -> Tuple[List[str], bool, bool]:
     #is_neutral and is_delta cannot both be true, but we explicitly handle both as an error check.
     is_delta = False
 
-    for phase_char in phase_str.strip('"').strip('|'):
+    for phase_char in phase_str.strip('"').replace('|', ''):
         # We strip out the non-phase characters and mark them separately.
         if phase_char == "N":
             has_neutral = True
-- 
2.43.0

