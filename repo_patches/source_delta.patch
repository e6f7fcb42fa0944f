From 5c9d00c857281ed1ce11d754f51eea35c8445522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 01/22] fix: evaluate residuals at the voltages they are
 reported for

The stamp inputs were only refreshed when the iteration number changed, so the
residual check after a linear solve was computed at the previous iterate (and a
new Newton-Raphson run could start from another run's voltages). A bad final
linear solve was reported as a converged power flow.
---
 src/logic/stamping/matrixstamper.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..004969f 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -261,9 +261,6 @@ class InputBuilder():
         self.inputs: Dict[str, StampInput]
 
         self.input_indexes = []
-
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
     
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
@@ -307,13 +304,10 @@ class InputBuilder():
             instance_idx += 1
 
     def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
+        #The same iteration number is used for different voltages (before and after a linear solve,
+        #and across separate Newton-Raphson runs), so it can't be used to skip the update.
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
         
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
-- 
2.43.0


From a24ee072b755e556821e62ddbcf8212361f7efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 02/22] fix: leave stale entries of an earlier iteration out of
 the matrix

Zero values are not stamped, so an iteration can stamp fewer values than the
one before it. The entries left behind were still summed into the matrix (and
made debug mode raise).
---
 src/logic/stamping/matrixbuilder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..e157635 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -42,10 +42,12 @@ class MatrixBuilder:
         self._index = retain_idx
 
     def to_matrix(self) -> csc_matrix:
-        if self.settings.debug and self._max_index != self._index:
-            raise Exception("Solver was not fully utilized. Garbage data remains")
+        #Entries past the current index are left over from a previous iteration that stamped more values.
+        val, row, col = self._val[:self._index], self._row[:self._index], self._col[:self._index]
 
-        return csc_matrix((self._val, (self._row, self._col)), dtype=np.float64)
+        size = max(max(self._row), max(self._col)) + 1
+
+        return csc_matrix((val, (row, col)), shape=(size, size), dtype=np.float64)
 
     def get_row(self, row_idx):
         for idx in range(self._index):
-- 
2.43.0


From 33a995c14e58c59dc37237d7eae237d87ffa560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 03/22] fix: publish a model's derivatives only once they are
 all generated

An exception (or interrupt, or another thread) part of the way through left a
partial set behind, which every later solve in the process then used.
---
 src/logic/stamping/lagrangesegment.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/logic/stamping/lagrangesegment.py b/src/logic/stamping/lagrangesegment.py
index dabb4e7..88badbd 100644
--- a/src/logic/stamping/lagrangesegment.py
+++ b/src/logic/stamping/lagrangesegment.py
@@ -180,14 +180,17 @@ class LagrangeSegment:
         return self._derivatives
     
     def _generate_derivatives(self):
-        self._derivatives = {}
+        derivatives = {}
 
         for first_order in self.variables:
             derivative = diff(self.lagrange, first_order)
 
             constant_expr, variable_exprs = split_expr(derivative, self.variables)
 
-            self._derivatives[first_order] = DerivativeEntry(first_order, derivative, constant_expr, variable_exprs, self.parameters, self.variables)
+            derivatives[first_order] = DerivativeEntry(first_order, derivative, constant_expr, variable_exprs, self.parameters, self.variables)
+
+        #Only publish the derivatives once they are complete, we may be interrupted part of the way through.
+        self._derivatives = derivatives
 
         LagrangeSegment._pickler.try_pickle(self.lagrange_key, self._derivatives)
 
-- 
2.43.0


From 37c23a1d231b1b295fc69c48376037fdef15429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 04/22] fix: keep the derivative cache from failing or
 corrupting a solve

Creating the cache directory raced with other processes, an unwritable or full
cache disk failed the solve, and a process that died (or another that wrote at
the same time) left a torn file under the final name.
---
 src/logic/stamping/lagrangepickler.py | 25 +++++++++++++++++++++----
 src/logic/stamping/lagrangesegment.py |  2 +-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index 67d32c9..34e8405 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -1,6 +1,7 @@
 import tempfile
 import os
 import hashlib
+import uuid
 import dill
 
 class LagrangePickler:
@@ -8,8 +9,11 @@ class LagrangePickler:
         dill.settings['recurse'] = True
 
         self.pickle_dir = os.path.join(tempfile.gettempdir(), "combined-txds-lagrange-pickler")
-        if not os.path.exists(self.pickle_dir):
-            os.makedirs(self.pickle_dir)
+        try:
+            os.makedirs(self.pickle_dir, exist_ok=True)
+        except OSError:
+            #The cache is only an optimization, we can do without it.
+            pass
 
     def _get_pickle_file(self, lagrange_key):
         sha1 = hashlib.sha1()
@@ -28,10 +32,23 @@ class LagrangePickler:
         
         pickle_filepath = self._get_pickle_file(lagrange_key)
 
-        derivatives = dill.load(open(pickle_filepath, "rb"))
+        with open(pickle_filepath, "rb") as file:
+            derivatives = dill.load(file)
 
         return derivatives
 
     def try_pickle(self, lagrange_key, derivatives):
         pickle_file = self._get_pickle_file(lagrange_key)
-        dill.dump(derivatives, open(pickle_file, "wb" ) )
\ No newline at end of file
+
+        #Other processes share the cache, so a file only gets its final name once it is complete.
+        temp_file = f"{pickle_file}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(temp_file, "wb") as file:
+                dill.dump(derivatives, file)
+            os.replace(temp_file, pickle_file)
+        except OSError:
+            #The cache is only an optimization (the disk may be full or read-only), we can do without it.
+            try:
+                os.remove(temp_file)
+            except OSError:
+                pass
diff --git a/src/logic/stamping/lagrangesegment.py b/src/logic/stamping/lagrangesegment.py
index 88badbd..528985d 100644
--- a/src/logic/stamping/lagrangesegment.py
+++ b/src/logic/stamping/lagrangesegment.py
@@ -172,7 +172,7 @@ class LagrangeSegment:
         if LagrangeSegment._pickler.has_pickle(self.lagrange_key):
             try:
                 self._derivatives = LagrangeSegment._pickler.try_unpickle(self.lagrange_key)
-            except:
+            except Exception:
                 self._generate_derivatives()
         else:
             self._generate_derivatives()
-- 
2.43.0


From 8bdc0b75fdaf435fde9e7674575ab5a52b155066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 05/22] fix: report the complex power of a slack bus

P was Vr*Ir and Q was Vi*Ii, which is only the active power (and never the
reactive power) when the slack angle happens to be zero. The generator
adjustment of a microgrid relies on these values.
---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..6d4d295 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
-- 
2.43.0


From e2efec47db547744974ae311d91413d409eb284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 06/22] fix: display residuals in verbose mode

The residual details object has no length, so displaying verbose results
always raised (and the command line tool then never wrote its output).
---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 6d4d295..fee7f3b 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -202,8 +202,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx in range(len(self.residuals.residuals)):
+                print(f'Residual {idx}: {self.residuals.residuals[idx]:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From 8f3ccecc9e446177ac1d74f9bb6530542eb85204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 07/22] fix: never leave a half written result file behind

A crash or a full disk part of the way through left a shorter, but otherwise
valid looking, csv file under the final name (and destroyed an earlier one).
---
 src/logic/powerflowresults.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index fee7f3b..74cca85 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -1,5 +1,7 @@
 import cmath
 import math
+import os
+from contextlib import contextmanager
 from pathlib import Path
 from typing import List
 
@@ -16,6 +18,16 @@ from models.optimization.L2infeasibility import L2InfeasibilityOptimization
 from models.optimization.L1infeasibility import L1InfeasibilityOptimization
 
 
+#Write to a temporary file first, so that the result file never exists half written.
+@contextmanager
+def open_result_file(filepath: Path):
+    temppath = filepath.with_name(f"{filepath.name}.tmp")
+
+    with open(temppath, "w+") as f:
+        yield f
+
+    os.replace(temppath, filepath)
+
 class GENTYPE:
     PV = "PV"
     Slack = "Slack"
@@ -257,7 +269,7 @@ class PowerFlowResults:
         
         voltagefilepath.parent.mkdir(parents=True, exist_ok=True)
 
-        with open(voltagefilepath, "w+") as f:
+        with open_result_file(voltagefilepath) as f:
             if not self.is_success:
                 f.write("FAILURE")
             else:
@@ -269,7 +281,7 @@ class PowerFlowResults:
 
         powerfilepath.parent.mkdir(parents=True, exist_ok=True)
         
-        with open(powerfilepath, "w+") as f:
+        with open_result_file(powerfilepath) as f:
             if not self.is_success:
                 f.write("FAILURE")
             else:
-- 
2.43.0


From fb67a2e5f44ecc0946ca7121e434ff04b58b6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 08/22] fix: stop adjusting generator output after a failed or
 endless search

A snapshot that failed to solve was still used to adjust the generator, and
the adjustment could be repeated forever.
---
 src/logic/network/timeseriesprocessor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..22e97a3 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -17,6 +17,7 @@ VOLTAGE_DEVIATION_THRESHOLD = 0.05
 
 class TimeSeriesProcessor:
     THRESHOLD = 1e-1
+    MAX_ADJUSTMENTS = 100
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
@@ -225,8 +226,12 @@ class TimeSeriesProcessor:
     # Wrapper for the PowerFlow.execute() method, with additional functionality for generator adjustment
     def execute_powerflow(self) -> PowerFlowResults:
         snapshot_results = self.powerflow.execute()
+        adjustments = 0
         # If requested, adjust a specific negative load until the specified swing bus is within a threshold of zero power in/out
-        while self.adjust_generator_output(snapshot_results):
+        while snapshot_results.is_success and self.adjust_generator_output(snapshot_results):
+            if adjustments == self.MAX_ADJUSTMENTS:
+                raise Exception("Could not find a generator output that balances the artificial swing bus.")
+            adjustments += 1
             snapshot_results = self.powerflow.execute()
         if snapshot_results.is_success and self.violates_equipment_ratings(snapshot_results):
             snapshot_results.violates_equipment_ratings = True
-- 
2.43.0


From 9fb42d49026ea9b689074dd25cffe6bdd74f8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 09/22] fix: keep a load's power factor through a time series

It was derived from the previous hour's values, so an hour at zero (or with a
negative magnitude) changed the reactive power of every later hour.
---
 src/logic/network/timeseriesprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 22e97a3..07434b7 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -21,6 +21,7 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -152,7 +153,8 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            # The power factor is the one the load was defined with, it can't be recovered after an hour with no load.
+            angle = self.load_angles.setdefault(load_name, math.atan2(load_obj.Q,load_obj.P))
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From fd407c1b9f2d8f8e25040b4cc475fe026656de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 10/22] fix: report a completed homotopy process as 0%
 remaining

It was reported as -1%.
---
 src/logic/homotopycontroller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..c41f9b3 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -41,4 +41,7 @@ class HomotopyController:
 
             tx_factor -= 1
 
+        #The factor gets decremented past the final step.
+        tx_factor = max(tx_factor, 0)
+
         return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
-- 
2.43.0


From 5da6866f24597f6f60f7965eebb4ea11ded27108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 11/22] fix: download a network file to a directory of its own

Downloads shared one file per base name, so two at the same time would delete,
overwrite or parse each other's file.
---
 src/logic/network/networkloader.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/logic/network/networkloader.py b/src/logic/network/networkloader.py
index 713e88c..ec0181f 100644
--- a/src/logic/network/networkloader.py
+++ b/src/logic/network/networkloader.py
@@ -20,15 +20,11 @@ def pull_network_file(network_uri: str):
     if status_code != 200:
         raise Exception("Network request for network file failed.")
 
-    tmpdir = tempfile.gettempdir()
+    #Other downloads (and users) may have a network file with the same name.
+    tmpdir = tempfile.mkdtemp()
 
     filepath = os.path.join(tmpdir, network_uri.split("/")[-1]) #Assume the network file name is at the end of the url.
 
-    try:
-        os.remove(filepath)
-    except:
-        pass
-
     filepath, _ = urllib.request.urlretrieve(network_uri, filepath)
 
     return filepath
-- 
2.43.0


From bfd96ce9e82816a7187084cd8ceddaf988afa1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 12/22] fix: leave loads as they are when no load factor is
 given

The default of -1 turned every load into generation.
---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From bc00bbeac8f97375e33c11e72f703fa4850c54e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 13/22] fix: don't replace a failed time series or microgrid
 run by a plain one

Any error was printed and swallowed, and the tool went on to solve (and
output, with a zero exit code) whatever network was left behind. A microgrid
run without a load file never wrote its output file.
---
 src/run_solver.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 505fc0f..0c67e3c 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -69,7 +69,7 @@ def main():
 
     powerflow = PowerFlow(network, settings)
 
-    try:
+    if loadfile is not None or artificialswingbus is not None:
         postprocessingsettings = TimeSeriesSettings(
             loadfile_name = loadfile,
             loadfile_start = loadstart,
@@ -82,14 +82,11 @@ def main():
         postprocessor = TimeSeriesProcessor(postprocessingsettings, powerflow)
         results = postprocessor.execute()
 
-        if results is not None:
-            results.display(verbose=False)
-            # results.output(outputfile)
-            return
-    except Exception as e:
-        print(e)
-        pass
-
+        results.display(verbose=False)
+        if loadfile is None:
+            #A time series outputs its results as it goes.
+            results.output(outputfile)
+        return
 
     results = powerflow.execute()
 
-- 
2.43.0


From 2c8af9d5de9916f86f7011626217dcba15bbee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:09 +0000
Subject: [PATCH 14/22] fix: keep the grounded loads and capacitors of a
 selected island

---
 src/logic/network/timeseriesprocessor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 07434b7..6df476c 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -90,7 +91,7 @@ class TimeSeriesProcessor:
 
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if not self.is_connected_to_island(load):
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -119,11 +120,15 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if not self.is_connected_to_island(capacitor):
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
 
+    def is_connected_to_island(self, element):
+        # The ground isn't one of the network's buses.
+        return all(bus == GROUND or bus in self.powerflow.network.buses for bus in (element.from_bus, element.to_bus))
+
     def set_load_names(self):
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
-- 
2.43.0


From 901f68da853737d4cf7253cd0c0513ec63d0d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 15/22] fix: remove the open switches of deselected islands

---
 src/logic/network/timeseriesprocessor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 6df476c..4bf17cb 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -96,6 +96,14 @@ class TimeSeriesProcessor:
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
 
+        # Open switches have no edge in the graph, so they haven't been removed along with their nodes.
+        switch_to_remove = []
+        for idx, switch in enumerate(self.powerflow.network.switches):
+            if switch.from_node not in self.powerflow.network.buses or switch.to_node not in self.powerflow.network.buses:
+                switch_to_remove.insert(0, idx)
+        for idx in switch_to_remove:
+            del self.powerflow.network.switches[idx]
+
         fuse_to_remove = []
         for idx, fuse in enumerate(self.powerflow.network.fuses):
             if fuse.from_node not in self.powerflow.network.buses or fuse.to_node not in self.powerflow.network.buses:
-- 
2.43.0


From 954e65d3e885c4db5e1cef0e1b47ec1faa0b09c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:16 +0000
Subject: [PATCH 16/22] fix: check the status of the response that is used for
 a network file

---
 src/logic/network/networkloader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/networkloader.py b/src/logic/network/networkloader.py
index ec0181f..038ef73 100644
--- a/src/logic/network/networkloader.py
+++ b/src/logic/network/networkloader.py
@@ -16,16 +16,19 @@ def pull_network_file(network_uri: str):
     if not (network_uri.startswith("http://") or network_uri.startswith("https://")):
         raise Exception("Unknown file location")
     
-    status_code = urllib.request.urlopen(network_uri).getcode()
-    if status_code != 200:
-        raise Exception("Network request for network file failed.")
+    with urllib.request.urlopen(network_uri) as response:
+        if response.getcode() != 200:
+            raise Exception("Network request for network file failed.")
+
+        content = response.read()
 
     #Other downloads (and users) may have a network file with the same name.
     tmpdir = tempfile.mkdtemp()
 
     filepath = os.path.join(tmpdir, network_uri.split("/")[-1]) #Assume the network file name is at the end of the url.
 
-    filepath, _ = urllib.request.urlretrieve(network_uri, filepath)
+    with open(filepath, "wb") as file:
+        file.write(content)
 
     return filepath
 
-- 
2.43.0


From 4b66acd93a6a77e29abeeadb6adb0a808cc41e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 17/22] fix: take the format of a network file from its name,
 not from its directory

---
 src/logic/network/networkloader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/networkloader.py b/src/logic/network/networkloader.py
index 038ef73..00ef936 100644
--- a/src/logic/network/networkloader.py
+++ b/src/logic/network/networkloader.py
@@ -41,9 +41,12 @@ class NetworkLoader:
         print(f"Loading network file: {network_uri}")
         network_file = pull_network_file(network_uri)
 
-        if ".glm" in network_file:
+        #Only the name of the file says what it is, the directory it lies in may contain anything.
+        filename = os.path.basename(network_file)
+
+        if ".glm" in filename:
             network = self.__parse_glm_network(network_file)
-        elif ".RAW" in network_file:
+        elif ".RAW" in filename:
             network =  self.__parse_RAW_network(network_file)
         else:
             raise Exception("Unknown network file format")
-- 
2.43.0


From ee78737c2f851d4a733c4603ffbf148d188acb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 18/22] fix: do not swallow a keyboard interrupt while loading
 a network or the loads of an hour

---
 src/ditto/readers/gridlabd/line_impedance.py  | 10 +++++-----
 src/ditto/readers/gridlabd/read.py            |  2 +-
 .../parsers/threephase/threephaseparser.py    |  2 +-
 src/logic/network/timeseriesprocessor.py      | 20 +++++++++----------
 src/logic/powerflowresults.py                 |  2 +-
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..8429701 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -156,7 +156,7 @@ def compute_overhead_spacing(spacing_config, conductors, default_height=30):
                         )  # May be +-x as it could be on either side of the max_dist edge
                         y = -1 * math.sqrt(dist_a ** 2 - x ** 2)
                         tmp_map[w.phase] = [(x, y), (-1 * x, y)]
-                    except:
+                    except Exception:
                         raise ValueError(
                             "Line Geometry infeasible with distances %f %f %f"
                             % (dist_a, dist_b, max_dist)
@@ -194,7 +194,7 @@ def compute_overhead_spacing(spacing_config, conductors, default_height=30):
                         break
                 w.X = final[0]
                 w.Y = final[1]
-        except:
+        except Exception:
             cnt = 0
             logger.warning("Failed to read spacing - using default positions")
             for w in conductors:
@@ -280,7 +280,7 @@ def compute_overhead_spacing(spacing_config, conductors, default_height=30):
                         break
                 w.X = final[0]
                 w.Y = final[1]
-        except:
+        except Exception:
             cnt = 0
             logger.warning("Failed to read spacing - using default positions")
             for w in conductors:
@@ -393,7 +393,7 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
                         distances[middle][first] ** 2 - height ** 2
                     )
 
-        except:
+        except Exception:
             logger.warning(
                 "Failed to read spacing - using default positions"
             )
@@ -466,7 +466,7 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
                     w.X = max_dist
                     w.Y = -default_ul_wire_depth
 
-        except:
+        except Exception:
             logger.warning(
                 "Failed to read spacing - using default positions"
             )
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..5b15bfa 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -155,7 +155,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                                     curr_object["name"]
                                 ] = curr_object
                                 curr_object = None
-                            except:
+                            except Exception:
 
                                 if (
                                     curr_object["from"] != None
diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..de6fbcc 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -113,7 +113,7 @@ class ThreePhaseParser:
                                     voltage = getattr(model, "voltage_" + phase)
                                     v_mag = abs(voltage)
                                     v_ang = cmath.phase(voltage)
-                            except:
+                            except Exception:
                                 pass
 
                             bus = self.create_bus(network_model, v_mag, v_ang, model.name, phase, False)
diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 4bf17cb..5ae93c1 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -48,30 +48,30 @@ class TimeSeriesProcessor:
                         if type(element) == CenterTapTransformer or type(element) == Transformer:
                             try:
                                 self.powerflow.network.transformers.remove(element)
-                            except:
+                            except Exception:
                                 pass
                             if type(element) == CenterTapTransformer:    
                                 try:
                                     self.powerflow.network.buses.remove(element.coils[0].primary_node)
-                                except:
+                                except Exception:
                                     pass
                                 try:
                                     self.powerflow.network.buses.remove(element.coils[1].sending_node)
-                                except:
+                                except Exception:
                                     pass
                                 try:
                                     self.powerflow.network.buses.remove(element.coils[2].sending_node)
-                                except:
+                                except Exception:
                                     pass
                         elif type(element) == Switch:
                             try:
                                 self.powerflow.network.switches.remove(element)
-                            except:
+                            except Exception:
                                 pass
                         else:
                             try:
                                 self.powerflow.network.lines.remove(element)
-                            except:
+                            except Exception:
                                 pass
                 for bus in ga.G.nodes[node]['bus_list']:
                     self.powerflow.network.buses.remove(bus)
@@ -109,7 +109,7 @@ class TimeSeriesProcessor:
             if fuse.from_node not in self.powerflow.network.buses or fuse.to_node not in self.powerflow.network.buses:
                 try:
                     self.powerflow.network.buses.remove(fuse.interior_node)
-                except:
+                except Exception:
                     pass
                 fuse_to_remove.insert(0, idx)
         for idx in fuse_to_remove:
@@ -120,7 +120,7 @@ class TimeSeriesProcessor:
             if regulator.from_node not in self.powerflow.network.buses or regulator.to_node not in self.powerflow.network.buses:
                 try:
                     self.powerflow.network.buses.remove(regulator.current_node)
-                except:
+                except Exception:
                     pass
                 regulator_to_remove.insert(0, idx)
         for idx in regulator_to_remove:
@@ -160,11 +160,11 @@ class TimeSeriesProcessor:
         for load_name in self.load_data.columns:
             try:
                 load_obj = self.powerflow.network.load_name_map[load_name]
-            except:
+            except KeyError:
                 continue
             try:
                 magnitude = self.load_data[load_name][hour]
-            except:
+            except KeyError:
                 continue
             # The power factor is the one the load was defined with, it can't be recovered after an hour with no load.
             angle = self.load_angles.setdefault(load_name, math.atan2(load_obj.Q,load_obj.P))
diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 74cca85..ebfe0e0 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -223,7 +223,7 @@ class PowerFlowResults:
             Q_sum = sum([result.Q for result in results])
             print(f'Inf P: {P_sum:.3g}')
             print(f'Inf Q: {Q_sum:.3g}')
-        except:
+        except Exception:
             pass
 
         if verbose:
-- 
2.43.0


From 6c3d8026700a6f52809a6011d2dfaf4eaf334f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:09 +0000
Subject: [PATCH 19/22] fix: overwrite an earlier dump instead of appending to
 it when it cannot be removed

---
 src/logic/nrsolver.py | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/src/logic/nrsolver.py b/src/logic/nrsolver.py
index 5e76de6..236167e 100644
--- a/src/logic/nrsolver.py
+++ b/src/logic/nrsolver.py
@@ -1,4 +1,3 @@
-import os
 import numpy as np
 from scipy.sparse.linalg import spsolve
 from logic.stamping.matrixbuilder import MatrixBuilder
@@ -93,12 +92,7 @@ def dump_matrix_map(map):
 
     filename = f'./dumps/lookup.txt'
 
-    try:
-        os.remove(filename)
-    except OSError:
-        pass
-
-    with open(filename, 'a') as outputfile:
+    with open(filename, 'w') as outputfile:
         for key in map.keys():
             outputfile.write(f"{key}: {map[key]}\r")
 
@@ -107,12 +101,7 @@ def dump_J(J, iteration):
 
     filename = f'./dumps/J{iteration + 1}_output.txt'
 
-    try:
-        os.remove(filename)
-    except OSError:
-        pass
-
-    with open(filename, 'a') as outputfile:
+    with open(filename, 'w') as outputfile:
         for i in range(len(J)):
             if J[i] != 0:
                 outputfile.write(f"{i}: {J[i]:.5g}\r")
@@ -122,12 +111,7 @@ def dump_v(v):
 
     filename = f'./dumps/v_output.txt'
 
-    try:
-        os.remove(filename)
-    except OSError:
-        pass
-
-    with open(filename, 'a') as outputfile:
+    with open(filename, 'w') as outputfile:
         for i in range(len(v)):
             if v[i] != 0:
                 outputfile.write(f"{i}: {v[i]:.5g}\r") 
@@ -137,12 +121,7 @@ def dump_Y(Y, iteration):
 
     filename = f'./dumps/Y{iteration + 1}_output.txt'
 
-    try:
-        os.remove(filename)
-    except OSError:
-        pass
-
-    with open(filename, 'a') as outputfile:
+    with open(filename, 'w') as outputfile:
         for i in range(Y.shape[0]):
             for j in range(Y.shape[0]):
                 if Y[i, j] != 0:
-- 
2.43.0


From ce1c2c508b5b5919eb6846346cf7a70e6a503fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:09 +0000
Subject: [PATCH 20/22] fix: remove the copy of a downloaded network file after
 it was read

---
 src/logic/network/networkloader.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/logic/network/networkloader.py b/src/logic/network/networkloader.py
index 00ef936..e0bf5c9 100644
--- a/src/logic/network/networkloader.py
+++ b/src/logic/network/networkloader.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 from logic.network.networkmodel import NetworkModel, TxNetworkModel
 from logic.network.parsers.raw.parser import parse_raw
 from logic.powerflowsettings import PowerFlowSettings
@@ -44,12 +45,17 @@ class NetworkLoader:
         #Only the name of the file says what it is, the directory it lies in may contain anything.
         filename = os.path.basename(network_file)
 
-        if ".glm" in filename:
-            network = self.__parse_glm_network(network_file)
-        elif ".RAW" in filename:
-            network =  self.__parse_RAW_network(network_file)
-        else:
-            raise Exception("Unknown network file format")
+        try:
+            if ".glm" in filename:
+                network = self.__parse_glm_network(network_file)
+            elif ".RAW" in filename:
+                network =  self.__parse_RAW_network(network_file)
+            else:
+                raise Exception("Unknown network file format")
+        finally:
+            if network_file != network_uri:
+                #The copy of a downloaded file isn't needed any longer.
+                shutil.rmtree(os.path.dirname(network_file), ignore_errors=True)
 
         return network
 
-- 
2.43.0


From b7b7744e787b39c6ca21ed6bfabc2e1c5b1a94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:09 +0000
Subject: [PATCH 21/22] fix: accept a GridLAB-D child that is declared before
 its parent

---
 src/ditto/readers/gridlabd/read.py             | 18 +++++++++++-------
 .../parsers/threephase/threephaseparser.py     | 12 +++++++++++-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 5b15bfa..395d05a 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -234,6 +234,8 @@ class Reader(AbstractReader):
     def parse(self, model, origin_datetime="2017 Jun 1 2:00PM"):
         self.all_gld_objects, all_schedules = read_gld_objects_and_schedules(self.input_file, origin_datetime)
 
+        child_nodes = []
+
         for name, obj in self.all_gld_objects.items():
             obj_type = type(obj).__name__
 
@@ -289,13 +291,7 @@ class Reader(AbstractReader):
 
                 try:
                     api_node.parent = obj["parent"]
-
-                    #Meter nominal voltages are sometimes incorrect, so we use
-                    #the child's nominal voltage if it exists.
-                    for element in model.model_store:
-                        if type(element) == Node and element.name == api_node.parent:
-                            element.nominal_voltage = api_node.nominal_voltage
-                            break
+                    child_nodes.append(api_node)
                 except AttributeError:
                     pass
 
@@ -1588,3 +1584,11 @@ class Reader(AbstractReader):
             else:
                 raise Exception(f"Unhandled object type {obj_type}!")
 
+        #Meter nominal voltages are sometimes incorrect, so we use
+        #the child's nominal voltage if it exists.
+        for child_node in child_nodes:
+            for element in model.model_store:
+                if type(element) == Node and element.name == child_node.parent:
+                    element.nominal_voltage = child_node.nominal_voltage
+                    break
+
diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index de6fbcc..d0ff0ac 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -88,7 +88,17 @@ class ThreePhaseParser:
     # GridlabD buses default to being "PQ" constant power buses (aka loads)
     # They could also be "PV" voltage-controlled magnitude buses (aka generators)
     def create_buses(self, network_model: DxNetworkModel):
-        for model in self.ditto_store.models:
+        nodes = {model.name: model for model in self.ditto_store.models if isinstance(model, (ditto.models.node.Node, ditto.models.power_source.PowerSource))}
+
+        #A child may be declared before its parent.
+        def count_ancestors(model):
+            ancestors = 0
+            while getattr(model, "parent", None) in nodes and ancestors < len(nodes):
+                model = nodes[model.parent]
+                ancestors += 1
+            return ancestors
+
+        for model in sorted(self.ditto_store.models, key=count_ancestors):
 
             if isinstance(model, ditto.models.node.Node) or isinstance(model, ditto.models.power_source.PowerSource):
                 isSlack = False
-- 
2.43.0


From 8ace58c27e309fb765bf50641cf0bdae12a2883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:09 +0000
Subject: [PATCH 22/22] fix: check the nominal voltages of a region
 independently of the order of its nodes and elements

---
 src/logic/graphanalyzer.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/logic/graphanalyzer.py b/src/logic/graphanalyzer.py
index 9ecd8c0..5c50d9f 100644
--- a/src/logic/graphanalyzer.py
+++ b/src/logic/graphanalyzer.py
@@ -67,17 +67,16 @@ class GraphAnalyzer:
         vnom_islands = self.get_nominal_voltage_islands()
 
         for vnom_island in vnom_islands:
-            vnom = None
-            for node_idx in vnom_island:
-                bus = self.G.nodes[node_idx]["bus_list"][0]
-                if vnom == None:
-                    vnom = round(bus.V_Nominal)
-                else:
-                    if abs(bus.V_Nominal - vnom) > 10:
-                        raise Exception(f"Node {bus.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region.")
+            buses = [self.G.nodes[node_idx]["bus_list"][0] for node_idx in vnom_island]
+            lowest = min(buses, key=lambda bus: bus.V_Nominal)
+            highest = max(buses, key=lambda bus: bus.V_Nominal)
+
+            #The islands are unordered, so any two nodes of them have to be consistent.
+            if highest.V_Nominal - lowest.V_Nominal > 10:
+                raise Exception(f"Node {highest.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region, such as that of node {lowest.NodeName}.")
 
     def get_nominal_voltage_islands(self):
-        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if type(e['element_list'][0]) not in [CenterTapTransformer, Transformer, Regulator]]
+        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if any(type(element) not in [CenterTapTransformer, Transformer, Regulator] for element in e['element_list'])]
 
         xfmr_islands = self.G.edge_subgraph(non_xfmr_edges)
 
-- 
2.43.0

