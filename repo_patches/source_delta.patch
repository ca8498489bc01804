From 5f2e270886963f71af29396375bf4282a1aa22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 01/27] fix: keep each model's kernel functions on its own
 compiled class

Assembling a second model replaced the compute/read/write functions on the
shared CompiledModel class, so a model assembled first but simulated later
ran the other model's kernel.
---
 numerous/engine/model/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6b97b0b..78e114b 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -474,9 +474,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self._kernel_functions = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         self.compiled_compute, self.var_func, self.var_write = compiled_compute, var_func, var_write
         self.init_values = np.ascontiguousarray(
@@ -740,7 +738,9 @@ class Model:
 
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
-        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
+        # The kernel functions belong to this model only, so they are never set on the shared CompiledModel class.
+        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
+                   {**CompiledModel.__dict__, **self._kernel_functions})
         if self.use_llvm:
             @jitclass(numba_model_spec)
             class CompiledModel_instance(tmp):
@@ -823,9 +823,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self._kernel_functions = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         for varname, ix in self.vars_ordered_values.items():
             var = self.variables[varname]
-- 
2.43.0


From 8506631c8faf2a8df784175d4d097df80c9c6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 02/27] fix: keep history rows in which a variable is NaN

Rows were selected by the absence of NaN, so one variable becoming NaN
silently removed every other variable's value at those times.
---
 numerous/engine/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 78e114b..5f116b7 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -855,7 +855,8 @@ class Model:
         return data
 
     def generate_not_nan_history_array(self):
-        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data).any(axis=0)]
+        # Only the rows written so far; a row is kept even if one of its variables is not a number.
+        return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
 
     def create_historian_df(self):
         if self.historian_df is not None:
-- 
2.43.0


From e7cb4df459c6222dddc4b50f198d38924107e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 03/27] fix: hand each recorded row to the history and the
 historian exactly once

create_historian_df passed the whole accumulated history to
Historian.store on every flush, so an appending historian stored early
rows again each time, and a second call duplicated the buffered rows.
---
 numerous/engine/model/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 5f116b7..cc79445 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -859,17 +859,18 @@ class Model:
         return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
 
     def create_historian_df(self):
+        new_rows = self._generate_history_df(self.generate_not_nan_history_array())
+        # the rows are in the dataframe from here on; a later call must not add them again
+        self.numba_model.historian_reinit()
         if self.historian_df is not None:
             import pandas as pd
-            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df,
-                                                            self._generate_history_df(
-                                                                self.generate_not_nan_history_array()).df],
+            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df, new_rows.df],
                                                            axis=0, sort=False, ignore_index=True),
                                                  aliases=self.aliases, rename_columns=True)
 
         else:
-            self.historian_df = self._generate_history_df(self.generate_not_nan_history_array())
-        self.historian.store(self.historian_df)
+            self.historian_df = new_rows
+        self.historian.store(new_rows)
 
     def _generate_history_df(self, historian_data):
         data = self.create_historian_dict(historian_data)
-- 
2.43.0


From 8cf23395d9489b15c38066736b6883a6d57521e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 04/27] fix: LocalHistorian.store writes the rows it is given

It called dropna on the AliasedDataFrame wrapper, which has no such method,
so the first flush failed; columns are written under their variable names
instead of internal ids.
---
 numerous/utils/historian.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/numerous/utils/historian.py b/numerous/utils/historian.py
index 31faca1..2db363d 100644
--- a/numerous/utils/historian.py
+++ b/numerous/utils/historian.py
@@ -1,5 +1,4 @@
 import os
-import pandas
 
 
 class Historian:
@@ -28,12 +27,12 @@ class Historian:
         else:
             return self.max_size
 
-    def store(self, df: pandas.DataFrame):
+    def store(self, df: 'AliasedDataFrame'):
         """
-          Stores the simulation results of the historian.
+          Stores the simulation results of the historian. Called with the rows recorded since the last call.
 
           Parameters:
-          df (pandas.DataFrame): The simulation results to be stored in the historian.
+          df (AliasedDataFrame): The new rows of simulation results to be stored in the historian.
           """
         pass
 
@@ -60,16 +59,18 @@ class LocalHistorian(Historian):
         super().__init__(max_size)
         self.filename = filename
 
-    def store(self, df: pandas.DataFrame):
+    def store(self, df: 'AliasedDataFrame'):
         """
 
         Stores the simulation results of the historian, into  csv file.
 
         Parameters:
-        df (pandas.DataFrame): The dataframe holding all the simulation results.
+        df (AliasedDataFrame): The simulation results recorded since the last call.
 
         """
+        names = {var_id: name for name, var_id in df.aliases.items()}
+        rows = df.df.rename(columns=names)
         if os.path.isfile(self.filename):
-            df.dropna().to_csv(self.filename, mode='a', header=False)
+            rows.to_csv(self.filename, mode='a', header=False, index=False)
         else:
-            df.dropna().to_csv(self.filename)
\ No newline at end of file
+            rows.to_csv(self.filename, index=False)
-- 
2.43.0


From e4b6c47b7fd33b53a178c3124bd3047df2c5e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 05/27] fix: CSVDataLoader reads several files in chunks, and
 any column order

The position in the file was shared between all files of a loader, a time
column at position 0 was looked up again in a chunk without header, and a
load for a time before the current position could skip the rows it needs.
---
 numerous/utils/data_loader.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index bbee08c..4f007d7 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -2,7 +2,6 @@ from abc import ABC
 from typing import Tuple
 
 import pandas as pd
-import numpy as np
 from pandas import DataFrame
 from pandas.errors import EmptyDataError
 
@@ -22,36 +21,38 @@ class CSVDataLoader(DataLoader):
         super(CSVDataLoader, self).__init__()
         self.chunksize = chunksize
         self.is_chunks = False
-        self._skiprows = 0
-        self.df = pd.DataFrame()
-        self.t_ix = None
+        # per file: the rows to skip, the time of the first row after those, and the column names
+        self._skiprows = {}
+        self._t_first = {}
+        self._columns = {}
         if self.chunksize:
             self.is_chunks = True
 
-    def _valid(self, chunks, t):
+    def _valid(self, df_id, chunks, t):
         for i, chunk in enumerate(chunks):
-            if not self.t_ix:
-                self.t_ix = np.where(chunk.columns == 'time')[0][0]
-            mask = chunk.iloc[:, self.t_ix] <= t
+            # a row of data is read in place of the header if rows were skipped
+            chunk.columns = self._columns.setdefault(df_id, chunk.columns)
+            mask = chunk['time'] <= t
 
             if mask.all():
                 yield chunk
             else:
-                self._skiprows += i * self.chunksize
+                self._skiprows[df_id] += i * self.chunksize
+                self._t_first[df_id] = chunk['time'].iloc[0]
                 yield chunk
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if not self.df.empty and t < min(self.df.iloc[:, self.t_ix]):
-            self._skiprows = 0
+        if df_id not in self._t_first or t < self._t_first[df_id]:
+            self._skiprows[df_id] = 0
+            self._columns.pop(df_id, None)
 
         if self.is_chunks:
-            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-            df = pd.concat(self._valid(chunks, t))
+            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows[df_id], chunksize=self.chunksize)
+            df = pd.concat(self._valid(df_id, chunks, t))
         else:
             df = pd.read_csv(df_id, header=0)
 
-        self.df = df
         return df
 
 
-- 
2.43.0


From 842e789316bc9b927378b9e03bd4e1a4805f4a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 06/27] fix: external data from frames of different shape

Frames with different numbers of rows or columns could not be combined, and
the covered time range was taken from the first frame only, so the others
were extrapolated silently.
---
 .../external_mappings/external_mappings.py    | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 193e801..fbf6d03 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -3,6 +3,19 @@ import numpy as np
 from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
 
 
+def _stack(arrays):
+    """
+    Stacks arrays of different shapes: the last row is repeated, missing columns are left as zeros.
+    """
+    n_rows = max(a.shape[0] for a in arrays)
+    stacked = np.zeros((len(arrays), n_rows) + tuple(np.max([a.shape[1:] for a in arrays], axis=0).astype(int)),
+                       dtype=np.float64)
+    for out, a in zip(stacked, arrays):
+        out[(slice(None),) + tuple(slice(n) for n in a.shape[1:])] = np.pad(
+            a, [(0, n_rows - a.shape[0])] + [(0, 0)] * (a.ndim - 1), mode='edge')
+    return stacked
+
+
 class ExternalMapping:
     def __init__(self, external_mappings):
         self.external_mappings = external_mappings
@@ -26,12 +39,10 @@ class ExternalMapping:
                 self.external_mappings_time.append(
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                # TODO extend for multiple dataframes
-                self.t_max = np.max(self.external_mappings_time[0])
-                self.t_min = np.min(self.external_mappings_time[0])
 
-        self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
-        self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
+        self.external_mappings_numpy = _stack(self.external_mappings_numpy)
+        self.external_mappings_time = _stack(self.external_mappings_time)
+        self._set_time_range()
         self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
@@ -58,13 +69,16 @@ class ExternalMapping:
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
 
-        self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
-        self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        # TODO extend for multiple dataframes
-        self.t_max = np.max(self.external_mappings_time[0])
-        self.t_min = np.min(self.external_mappings_time[0])
+        self.external_mappings_numpy = _stack(self.external_mappings_numpy)
+        self.external_mappings_time = _stack(self.external_mappings_time)
+        self._set_time_range()
         return True
 
+    def _set_time_range(self):
+        # the range of time covered by all dataframes
+        self.t_max = np.min(np.max(self.external_mappings_time, axis=1))
+        self.t_min = np.max(np.min(self.external_mappings_time, axis=1))
+
     def store_mappings(self):
         self.external_df_idx = np.array(self.external_df_idx, dtype=np.int64)
         self.interpolation_info = np.array(self.interpolation_info, dtype=np.bool)
-- 
2.43.0


From 2ec5b2b5c0f3d90998fd4f9533a475e20a3a4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 07/27] fix: map each external variable to its own column and
 interpolation type

Columns were matched by substring, so a variable whose path starts with
another mapped path got an extra entry and every later variable read the
wrong column, and the interpolation type was always taken from the first
frame.
---
 .../engine/system/external_mappings/external_mappings.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index fbf6d03..2d3f17d 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -43,7 +43,6 @@ class ExternalMapping:
         self.external_mappings_numpy = _stack(self.external_mappings_numpy)
         self.external_mappings_time = _stack(self.external_mappings_time)
         self._set_time_range()
-        self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -87,10 +86,11 @@ class ExternalMapping:
         for i, external_column in enumerate(self.external_columns):
             for path in variables[var_id].path.path[system_id]:
                 for index, column in enumerate(external_column):
-                    if column in path:
+                    if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
-                            self.interpolation_type[index].value == InterpolationType.LINEAR.value)
+                            self.interpolation_type[i][index].value == InterpolationType.LINEAR.value)
+                        return
 
     def is_mapped_var(self, variables, var_id, system_id):
         if not variables[var_id].global_var:
-- 
2.43.0


From 25a8dd73976354a074cce8af68d13df520a80c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 08/27] fix: always write external data to the variables at the
 start of a run

The values last written were assumed to be zeros, so external data that is
zero from the start never reached the variables; after a reset the variables
were put back to their initial values but external data that had not changed
since was not written again.
---
 numerous/engine/model/compiled_model.py  | 6 +++++-
 numerous/engine/model/model.py           | 1 +
 numerous/engine/simulation/simulation.py | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 0818809..2e1df47 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -76,7 +76,7 @@ class CompiledModel:
         self.historian_data = np.empty(
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
-        self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
+        self.forget_external_data()
 
     def vectorized_full_jacobian(self, t, y, dt):
         h = 1e-8
@@ -120,6 +120,10 @@ class CompiledModel:
 
         self.func(t, self.get_states())
 
+    def forget_external_data(self):
+        # NaN equals no value, so the next call of map_external_data writes all variables
+        self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
+
     def run_post_step(self):
         for post_step_ in self.post_step:
             post_step_()
diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index cc79445..0a1749b 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -907,6 +907,7 @@ class Model:
         self.numba_model.max_external_t = self.external_mappings.t_max
         self.numba_model.min_external_t = self.external_mappings.t_min
 
+        self.numba_model.forget_external_data()
         self.numba_model.map_external_data(0)
 
         # if self.numba_model.is_external_data_update_needed(0):
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 6ba5cfc..015e760 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -92,6 +92,7 @@ class Simulation:
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
 
+        self.model.numba_model.forget_external_data()
         self.model.numba_model.map_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
-- 
2.43.0


From 200748bd625f26ece89ac940fd69bcccc56a780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 09/27] fix: ask the data loader for data in its own time unit

With a time multiplier the loader was given the simulation time, which it
compared with unscaled data times, so chunked data ran out early.
---
 numerous/engine/system/external_mappings/external_mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 2d3f17d..d7a33b5 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -53,7 +53,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t)
+                df = external_mapping.data_loader.load(element.data_frame_id, t / element.time_multiplier)
 
                 if df.empty:
                     return False
-- 
2.43.0


From 53b8caf5aa74e63dc0af95e882dba5a77bd3146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 10/27] fix: have the external data for the start time before a
 run starts

The first row was recorded from the first chunk of data even if the start
time lies in a later one, a reset mapped the data of the chunk reached by
the previous run, and data starting after the current time made the solver
ask for it forever.
---
 numerous/engine/simulation/simulation.py      | 21 ++++++++++---------
 .../engine/simulation/solver_interface.py     |  8 ++++---
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 015e760..61a9424 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -2,7 +2,8 @@ from datetime import datetime
 import time
 import numpy as np
 from numerous.solver.numerous_solver import NumerousSolver
-from numerous.engine.simulation.solver_interface import generate_numerous_engine_solver_model
+from numerous.engine.simulation.solver_interface import generate_numerous_engine_solver_model, \
+    NumerousEngineEventHandler
 from numerous.engine.model import Model
 from numerous.utils import logger as log
 
@@ -53,6 +54,7 @@ class Simulation:
             log.info("Generating Numba Model")
             generation_start = time.time()
             model._generate_compiled_model(t_start, len(self.time))
+            self._start_external_data(t_start)
 
             generation_finish = time.time()
             log.info(f"Numba model generation finished, generation time: {generation_finish - generation_start}")
@@ -92,17 +94,16 @@ class Simulation:
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
 
-        self.model.numba_model.forget_external_data()
-        self.model.numba_model.map_external_data(t_start)
+        self._start_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
-        if self.model.numba_model.is_external_data_update_needed(t_start):
-            self.model.numba_model.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
-        if self.model.numba_model.is_external_data:
-            self.model.numba_model.update_external_data(self.model.external_mappings.external_mappings_numpy,
-                                                        self.model.external_mappings.external_mappings_time,
-                                                        self.model.external_mappings.t_max,
-                                                        self.model.external_mappings.t_min)
+    def _start_external_data(self, t_start: float):
+        numba_model = self.model.numba_model
+        numba_model.is_external_data = self.model.is_external_data
+        if numba_model.is_external_data_update_needed(t_start):
+            NumerousEngineEventHandler(self.model, numba_model).load_external_data(t_start)
+        numba_model.forget_external_data()
+        numba_model.map_external_data(t_start)
 
     def _complete(self):
 
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 638899a..f9eaf2e 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -39,13 +39,13 @@ class NumerousEngineEventHandler(EventHandler):
             self._model.create_historian_df()
             self._nm.historian_reinit()
         elif event_id == SolveEvent.ExternalDataUpdate:
-            self._load_external_data(t)
+            self.load_external_data(t)
         elif event_id == SolveEvent.HistorianAndExternalUpdate:
             self._model.create_historian_df()
             self._nm.historian_reinit()
-            self._load_external_data(t)
+            self.load_external_data(t)
 
-    def _load_external_data(self, t):
+    def load_external_data(self, t):
         is_external_data = self._model.external_mappings.load_new_external_data_batch(t)
         external_mappings_numpy = self._model.external_mappings.external_mappings_numpy
         external_mappings_time = self._model.external_mappings.external_mappings_time
@@ -54,6 +54,8 @@ class NumerousEngineEventHandler(EventHandler):
 
         if t > max_external_t:
             raise ValueError(f"No more external data at t={t} (t_max={max_external_t}")
+        if t < min_external_t:
+            raise ValueError(f"No external data at t={t} (t_min={min_external_t})")
         self._nm.is_external_data = is_external_data
         self._nm.update_external_data(external_mappings_numpy, external_mappings_time, max_external_t,
                                       min_external_t)
-- 
2.43.0


From f24a314cd27a47a029e984b05b3ea78b5fdf2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 11/27] fix: let an event assign a constant to a variable

Only names were expected on the left of an assignment of a constant, so
variables['x'] = 1.0 in an event function was refused.
---
 numerous/engine/model/events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 50612b8..b778e09 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -100,6 +100,9 @@ class VariablesVisitor(ast.NodeVisitor):
         ast.NodeVisitor.generic_visit(self, node)
 
     def visit_Assign(self, node: ast.Assign):
+        if not isinstance(node.targets[0], ast.Name):
+            self.generic_visit(node)
+            return
         evaluated = None
         if isinstance(node.value, ast.BinOp):
             operator = node.value.op
-- 
2.43.0


From 964e2a425464b987d0164a47982490d72256dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 12/27] fix: give each event function its own closure variables

All event functions are compiled in one namespace, to which only the last
event's closure variables were added, so events made by one factory function
all used the last value.
---
 numerous/engine/model/events.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index b778e09..7bea9e4 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -17,12 +17,12 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
     compiled_functions = {}
-    closurevariables = None
+    closurevariables = {}
     for event in event_functions:
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
         condition = event.condition.ast_func
-        closurevariables = event.condition.closure_variables
+        closurevariables.update(event.condition.closure_variables)
 
         directions_array.append(event.direction)
         body.append(condition)
@@ -93,10 +93,6 @@ class VariablesVisitor(ast.NodeVisitor):
                     break
             if not found:
                 raise KeyError(f"No such variable: {self.assigned_variables[node.slice.id]}")
-        elif isinstance(node, ast.Name):
-            if node.id in self.closurevariables:
-                node = ast.Constant(value=self.closurevariables[node.id])
-
         ast.NodeVisitor.generic_visit(self, node)
 
     def visit_Assign(self, node: ast.Assign):
@@ -136,6 +132,21 @@ class VariablesVisitor(ast.NodeVisitor):
         else:
             return None, False
 
+class ClosureConstants(ast.NodeTransformer):
+    """
+    Writes the value of closure variables into the function, because all events are compiled in one namespace, in
+    which closure variables of the same name in different events would be mixed up.
+    """
+    def __init__(self, closurevariables):
+        self.constants = {k: getattr(v, 'item', lambda: v)() for k, v in closurevariables.items()
+                          if isinstance(v, (bool, int, float, str)) and v == v}
+
+    def visit_Name(self, node: ast.Name):
+        if isinstance(node.ctx, ast.Load) and node.id in self.constants:
+            return ast.copy_location(ast.Constant(value=self.constants[node.id]), node)
+        return node
+
+
 def replace_path_strings(model, function, idx_type, path_to_root=[]) -> Tuple:
     if hasattr(function, 'lines'):
         lines = function.lines
@@ -145,6 +156,7 @@ def replace_path_strings(model, function, idx_type, path_to_root=[]) -> Tuple:
     path_to_root_str = ".".join(path_to_root) + "."
     func = ast.parse(lines.strip()).body[0]
     VariablesVisitor(path_to_root_str, model, idx_type, closurevariables).generic_visit(func)
+    func = ClosureConstants(closurevariables).visit(func)
     return func, closurevariables
 
 
@@ -152,7 +164,7 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
     compiled_functions = {}
-    closurevariables = None
+    closurevariables = {}
 
     for idx, event in enumerate(event_functions):
         if event.compiled_functions:
@@ -160,7 +172,7 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
         if event.is_external:
             continue
         action = event.action.ast_func
-        closurevariables = event.action.closure_variables
+        closurevariables.update(event.action.closure_variables)
 
         body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
-- 
2.43.0


From 5518e3508a290a38ac9c1efb9ddecd98535de25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 13/27] fix: write the variables modified by an event to their
 own index

The index of a modified variable was taken in an array without the states,
but used to address all variables, so with compiled models the value of
another variable was written.
---
 numerous/engine/simulation/solver_interface.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index f9eaf2e..4d6943b 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -219,9 +219,7 @@ class EventFactory:
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
-                variables = np.delete(modified_variables, interface.model.numba_model.state_idx)
-                original_variables = np.delete(interface._get_variables(), interface.model.numba_model.state_idx)
-                modified_mask = (variables != original_variables)
+                modified_mask = (modified_variables != interface._get_variables())
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From ffdf7847063697942ce2666464bb60dac121553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 14/27] fix: external events of an item reach the variables of
 their item

The path of the item at the time the event was added was used, and prefixed
to all variables when writing them back, so an external event added on an
item failed; a variable with several paths got back its old value.
---
 numerous/engine/model/model.py                 |  2 ++
 numerous/engine/simulation/solver_interface.py | 14 ++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 0a1749b..5cfffc5 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -407,6 +407,7 @@ class Model:
         for item in self.model_items.values():
             if item.events:
                 for event in item.events:
+                    event.parent_path = item.path
                     if not event.compiled:
                         condition_ast, condition_closurevariables = replace_path_strings(self, event.condition.func, "var",
                                                                                          item.path)
@@ -419,6 +420,7 @@ class Model:
                     self.events.append(event)
             if item.timestamp_events:
                 for event in item.timestamp_events:
+                    event.parent_path = item.path
                     if not event.is_external:
                         action_ast, action_closurevariables = replace_path_strings(self, event.action.func, "var", item.path)
                         event.action = Action(event.action.func, action_ast, action_closurevariables)
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 4d6943b..f158f31 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -230,14 +230,16 @@ class EventFactory:
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
                 model.update_local_variables()
-                variables = {tag: var.value for tag, var in model.path_to_variable.items()}
-                path_ = ""
-                if parent_path:
-                    path_ = ".".join(parent_path) + "."
-                    variables = {tag.replace(path_, ""): value for tag, value in variables.items()}
+                path_ = ".".join(parent_path) + "." if parent_path else ""
+                # inside the item variables are known by their path below the item
+                paths = {path.removeprefix(path_): path for path in model.path_to_variable}
+                original = {tag: model.path_to_variable[path].value for tag, path in paths.items()}
+                variables = original.copy()
                 external_action_function(t, variables)
                 for tag, value in variables.items():
-                    model.path_to_variable[path_ + tag].value = value
+                    # a variable can have several paths, of which the action may have used any
+                    if value != original[tag]:
+                        model.path_to_variable[paths[tag]].value = value
                 model.update_all_variables()
                 states = interface.get_states()
                 return states
-- 
2.43.0


From eb0301a9877b5f68ef5658f0a1461ed891bfb089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 15/27] fix: events with equal keys are all run

The solver keeps external events by id, for which the event key was used, so
of the events with one key (on several items, for instance) only the last
was ever run, and the solver did not get past the others.
---
 numerous/engine/simulation/solver_interface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index f158f31..38daed2 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -278,19 +278,21 @@ class EventFactory:
         :return:
 
         """
+        # the solver finds events by id, but events of different items can have the same key
+        id_ = f'{type(event_).__name__}_{ix}_{event_.key}'
         if type(event_) == TimestampEvent:
             event_type = 'time'
             if event_.periodicity:
                 baseclass = SolverPeriodicTimeEvent
-                kwargs = dict(id=event_.key, period=event_.periodicity, is_external=event_.is_external)
+                kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = SolverTimestampedEvent
-                kwargs = dict(id=event_.key, timestamps=event_.timestamps, is_external=event_.is_external)
+                kwargs = dict(id=id_, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
             event_type = 'state'
             baseclass = self._wrap_state_event(ix)
-            kwargs = dict(id=event_.key, is_external=event_.is_external)
+            kwargs = dict(id=id_, is_external=event_.is_external)
 
         new_event: type = self._new_event(ix, model, baseclass,
                                           is_external=event_.is_external,
-- 
2.43.0


From 4508687d2f220de6f1dfda6fcd9110f6712b7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 16/27] fix: time events are neither lost to rounding nor
 required to start at zero

A time stamp passed by a rounding error of the solver time was skipped, time
stamps not in ascending order were lost, and a periodic event in a
simulation starting after its first period made the solver fail.
---
 .../engine/simulation/solver_interface.py     | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 38daed2..7924f0c 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -13,6 +13,9 @@ from numerous.solver.events import Event as SolverEvent
 from numerous.solver.handlers import EventHandler
 from numerous.solver.solve_states import SolveEvent
 
+# relative error of time the solver may have from adding up steps
+ROUNDING = 100 * np.finfo(1.0).eps
+
 @model
 class NumerousEngineModel(SolverModel):
     def __init__(self, numba_model,
@@ -202,6 +205,33 @@ def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel,
     return numerous_engine_model, numerous_event_handler
 
 
+class EngineTimestampedEvent(SolverTimestampedEvent):
+    """
+    Time stamps are taken in ascending order. The solver can pass a time stamp by a rounding error when it steps to it,
+    so the next one is the first which is not before the current time by more than that.
+    """
+    def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
+        while self._last_ix < len(self.timestamps) and self.timestamps[self._last_ix] < t - ROUNDING * max(1.0, abs(t)):
+            self._last_ix += 1
+        if self._last_ix == len(self.timestamps):
+            return -1.0
+        return max(self.timestamps[self._last_ix], t)
+
+    def reset(self):
+        self._last_ix = 0
+        self._trigger = False
+
+
+class EnginePeriodicTimeEvent(SolverPeriodicTimeEvent):
+    """
+    Takes place at each multiple of the period from the start time.
+    """
+    def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
+        while self.t_next_event < t - ROUNDING * max(1.0, abs(t)):
+            self.t_next_event += self.period
+        return max(self.t_next_event, t)
+
+
 class EventFactory:
     """
     Factory class for creating Numerous Solver events from :class:`~engine.numerous_events.NumerousEvent`
@@ -283,11 +313,11 @@ class EventFactory:
         if type(event_) == TimestampEvent:
             event_type = 'time'
             if event_.periodicity:
-                baseclass = SolverPeriodicTimeEvent
+                baseclass = EnginePeriodicTimeEvent
                 kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
             else:
-                baseclass = SolverTimestampedEvent
-                kwargs = dict(id=id_, timestamps=event_.timestamps, is_external=event_.is_external)
+                baseclass = EngineTimestampedEvent
+                kwargs = dict(id=id_, timestamps=np.sort(event_.timestamps), is_external=event_.is_external)
 
         else:
             event_type = 'state'
-- 
2.43.0


From c392517d32d4573854e5a01531be821e9d27b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 17/27] fix: run external time events at their time only

The solver runs all triggered external events whenever it leaves its loop,
and the next time event is triggered from the start. Storing results,
loading external data or another external event therefore ran the next time
event early, instead of at its time; time stamps before the start time made
an external event run repeatedly.
---
 numerous/engine/simulation/simulation.py      |  2 +-
 .../engine/simulation/solver_interface.py     | 55 +++++++++++++++++--
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 61a9424..214b0f5 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -60,7 +60,7 @@ class Simulation:
             log.info(f"Numba model generation finished, generation time: {generation_finish - generation_start}")
 
         numerous_engine_model, numerous_engine_event_handler = \
-            generate_numerous_engine_solver_model(model)
+            generate_numerous_engine_solver_model(model, event_tolerance=kwargs.get('atol', 1e-6) * 1000)
 
         self.solver = NumerousSolver(model=numerous_engine_model,
                                      use_jit=model.use_llvm, event_handler=numerous_engine_event_handler,
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 7924f0c..850cdc2 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -159,12 +159,14 @@ class NumerousEngineModelInterface(Interface):
         return SolveEvent.NoneEvent
 
 
-def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel, NumerousEngineEventHandler):
+def generate_numerous_engine_solver_model(model: Model, event_tolerance: float = 1e-3) -> \
+        (NumerousEngineModel, NumerousEngineEventHandler):
     """
     Method to generate the numerous-engine solver-model and its event handler
 
     :param model: The numerous engine model object
     :type model: :class:`~engine.model.Model`
+    :param event_tolerance: how close to the time of a time event the solver considers it reached
     :return: tuple with :class:`~engine.simulation.solver_interface.NumerousEngineModel` and
     :class:`~engine.simulation.solver_interface.NumerousEngineEventHandler`
     :rtype: tuple(:class:`~engine.simulation.solver_interface.NumerousEngineModel`,
@@ -175,7 +177,7 @@ def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel,
     state_event_actions = model.generate_event_action_ast(model.events)
 
     state_events = []
-    event_factory = EventFactory()
+    event_factory = EventFactory(event_tolerance)
 
     for event_ix, numerousevent in enumerate(model.events):
         state_event = event_factory.create_numerous_solver_event(numerousevent, event_ix, model)
@@ -210,6 +212,14 @@ class EngineTimestampedEvent(SolverTimestampedEvent):
     Time stamps are taken in ascending order. The solver can pass a time stamp by a rounding error when it steps to it,
     so the next one is the first which is not before the current time by more than that.
     """
+    def __init__(self, id: str, timestamps: np.array, is_external: bool, event_tolerance: float):
+        self.id = id
+        self._is_external = is_external
+        self.timestamps = timestamps
+        self.event_tolerance = event_tolerance
+        self._trigger = False
+        self._last_ix = 0
+
     def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
         while self._last_ix < len(self.timestamps) and self.timestamps[self._last_ix] < t - ROUNDING * max(1.0, abs(t)):
             self._last_ix += 1
@@ -217,6 +227,14 @@ class EngineTimestampedEvent(SolverTimestampedEvent):
             return -1.0
         return max(self.timestamps[self._last_ix], t)
 
+    def is_due(self, interface: NumerousEngineModelInterface, t: float) -> bool:
+        t_next = self.get_next_event_time(interface, t)
+        return t_next >= 0 and abs(t - t_next) < self.event_tolerance
+
+    def post_event(self, interface: NumerousEngineModelInterface, direction: int, t: float, y: np.array):
+        if self.is_due(interface, t):
+            self._last_ix += 1
+
     def reset(self):
         self._last_ix = 0
         self._trigger = False
@@ -226,17 +244,35 @@ class EnginePeriodicTimeEvent(SolverPeriodicTimeEvent):
     """
     Takes place at each multiple of the period from the start time.
     """
+    def __init__(self, id: str, period: float, is_external: bool, event_tolerance: float):
+        self.id = id
+        self._is_external = is_external
+        self.period = period
+        self.event_tolerance = event_tolerance
+        self._trigger = False
+        self.t_next_event = 0.0
+
     def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
         while self.t_next_event < t - ROUNDING * max(1.0, abs(t)):
             self.t_next_event += self.period
         return max(self.t_next_event, t)
 
+    def is_due(self, interface: NumerousEngineModelInterface, t: float) -> bool:
+        return abs(t - self.get_next_event_time(interface, t)) < self.event_tolerance
+
+    def post_event(self, interface: NumerousEngineModelInterface, direction: int, t: float, y: np.array):
+        if self.is_due(interface, t):
+            self.t_next_event += self.period
+
 
 class EventFactory:
     """
     Factory class for creating Numerous Solver events from :class:`~engine.numerous_events.NumerousEvent`
 
     """
+    def __init__(self, event_tolerance: float):
+        self.event_tolerance = event_tolerance
+
     def _wrap_internal_event(self, ix: int, event_type: str):
         # don't use closure on event actions as it will not compile
         assert event_type == "state" or event_type == "time", "unknown event type"
@@ -255,10 +291,15 @@ class EventFactory:
                 return states
 
         return BaseInternalEvent
-    def _wrap_external_event(self, model: Model, external_action_function: Callable, parent_path: str):
+    def _wrap_external_event(self, model: Model, external_action_function: Callable, parent_path: str,
+                             event_type: str):
         # Use closure to wrap external event class
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
+                if event_type == 'time' and not self.is_due(interface, t):
+                    # The next time event is marked as triggered from the start, and the solver runs all triggered
+                    # external events whenever it leaves its loop, also to store results or to load data.
+                    return y
                 model.update_local_variables()
                 path_ = ".".join(parent_path) + "." if parent_path else ""
                 # inside the item variables are known by their path below the item
@@ -314,10 +355,12 @@ class EventFactory:
             event_type = 'time'
             if event_.periodicity:
                 baseclass = EnginePeriodicTimeEvent
-                kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
+                kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external,
+                              event_tolerance=self.event_tolerance)
             else:
                 baseclass = EngineTimestampedEvent
-                kwargs = dict(id=id_, timestamps=np.sort(event_.timestamps), is_external=event_.is_external)
+                kwargs = dict(id=id_, timestamps=np.sort(event_.timestamps), is_external=event_.is_external,
+                              event_tolerance=self.event_tolerance)
 
         else:
             event_type = 'state'
@@ -336,7 +379,7 @@ class EventFactory:
                         parent_path: str = None, event_type: str = None) \
             -> type(Union[SolverTimestampedEvent, SolverPeriodicTimeEvent]):
 
-        ExternalBaseEvent = self._wrap_external_event(model, external_action_function, parent_path)
+        ExternalBaseEvent = self._wrap_external_event(model, external_action_function, parent_path, event_type)
         InternalBaseEvent = self._wrap_internal_event(ix, event_type=event_type)
 
         @event
-- 
2.43.0


From 0a681b60d9493a9fd7a14d03d80364869af5a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 18/27] fix: reset the events and the solver with the
 simulation

After Simulation.reset time events stayed at the end of their time stamps
and were not run again, and step_solve went on from the previous run's
solver state.
---
 numerous/engine/simulation/simulation.py       | 5 +++++
 numerous/engine/simulation/solver_interface.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 214b0f5..5b6d2af 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -46,6 +46,7 @@ class Simulation:
         self.time = time_
         self.model = model
 
+        self.solver = None
         if model.numba_model:
             self.reset(t_start)
 
@@ -97,6 +98,10 @@ class Simulation:
         self._start_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
+        if self.solver:
+            self.solver.reset()
+            self.solver.y0 = self.model.numba_model.get_states()
+
     def _start_external_data(self, t_start: float):
         numba_model = self.model.numba_model
         numba_model.is_external_data = self.model.is_external_data
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 850cdc2..c0a6e5a 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -30,6 +30,9 @@ class NumerousEngineModel(SolverModel):
         self.state_event_actions = state_event_actions
         self.time_event_actions = time_event_actions
 
+    def reset(self):
+        pass  # the numerous engine model is reset by the simulation
+
 
 class NumerousEngineEventHandler(EventHandler):
     def __init__(self, model: Model, nm: CompiledModel):
@@ -37,6 +40,9 @@ class NumerousEngineEventHandler(EventHandler):
         self._model = model
         self._nm = nm
 
+    def reset_solution(self):
+        pass  # the history is kept, and reset, by the simulation
+
     def handle_solve_event(self, interface, event_id: SolveEvent, t: float):
         if event_id == SolveEvent.Historian:
             self._model.create_historian_df()
-- 
2.43.0


From d10c816a9158743cf6baf41f21ac303e6ab3c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 19/27] fix: state events and recorded rows use up-to-date
 variables

Variables calculated by equations were read as of the solver's last
evaluation, not of the time and states in question: history rows mixed
values of different times, state events depending on calculated variables
were found one step late, and event actions read stale values.
---
 numerous/engine/model/compiled_model.py        | 2 ++
 numerous/engine/simulation/solver_interface.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 2e1df47..883ec2f 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -158,6 +158,8 @@ class CompiledModel:
         self.historian_ix = 0
 
     def historian_update(self, time: np.float64) -> None:
+        # the row shows all variables at this time, and not as they were when the solver last used them
+        self.func(time, self.get_states())
         ix = self.historian_ix
         self.historian_data[0][ix] = time
         self.historian_data[1:, ix] = self.read_variables()
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index c0a6e5a..7bfb18c 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -285,6 +285,7 @@ class EventFactory:
 
         class BaseInternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
+                interface.model.numba_model.func(t, interface.get_states())
                 vars = interface._get_variables()
                 if event_type == 'state':
                     modified_variables = interface.model.state_event_actions(t, vars, ix)
@@ -306,6 +307,7 @@ class EventFactory:
                     # The next time event is marked as triggered from the start, and the solver runs all triggered
                     # external events whenever it leaves its loop, also to store results or to load data.
                     return y
+                interface.model.numba_model.func(t, interface.get_states())
                 model.update_local_variables()
                 path_ = ".".join(parent_path) + "." if parent_path else ""
                 # inside the item variables are known by their path below the item
@@ -335,6 +337,7 @@ class EventFactory:
             def _get_variables_modified(self, interface: NumerousEngineModelInterface, t, y_) -> np.array:
                 old_states = interface.get_states()
                 interface.set_states(y_)
+                interface.model.numba_model.func(t, y_)
 
                 vars = interface.model.numba_model.read_variables().copy()
                 interface.set_states(old_states)
-- 
2.43.0


From 4bc5debe39c41aea2463d0924ff694bc64da2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 20/27] fix: time events change the states for good

---
 numerous/engine/simulation/solver_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 7bfb18c..aa1dd43 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -295,7 +295,9 @@ class EventFactory:
                 modified_mask = (modified_variables != interface._get_variables())
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
-                return states
+                # the solver goes on from its own array of states after a time event, and not from the returned one
+                y[:] = states
+                return y
 
         return BaseInternalEvent
     def _wrap_external_event(self, model: Model, external_action_function: Callable, parent_path: str,
-- 
2.43.0


From 0c5ec93126f0a55388bd84af35f65cfc569f4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 21/27] fix: the events of items in a set are run

---
 numerous/engine/model/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 5cfffc5..4041141 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -403,8 +403,12 @@ class Model:
         self.external_idx = np.array(external_idx, dtype=np.int64)
         self.generate_path_to_varaible()
 
-        # check for item level events
+        # check for item level events, also of the items in a set, which are not items of the model
+        items_with_events = dict(self.model_items)
         for item in self.model_items.values():
+            if isinstance(item, ItemSet):
+                items_with_events.update({item_.id: item_ for item_ in item.items})
+        for item in items_with_events.values():
             if item.events:
                 for event in item.events:
                     event.parent_path = item.path
-- 
2.43.0


From 8d5cbc8d7d12c1400d95549cdf8bd9f0a39c82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 22/27] fix: refuse external data rows without a time

---
 numerous/engine/system/external_mappings/external_mappings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index d7a33b5..ab791c1 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -120,6 +120,9 @@ class ExternalMappingElement:
             self.df.columns = columns
         else:
             self.df = df
+        if self.df[self.index_to_timestep_mapping].isna().any():
+            raise ValueError(f"Data frame {self.data_frame_id} has rows without a time "
+                             f"in column {self.index_to_timestep_mapping}")
 
 
 class ExternalMappingUnpacked:
-- 
2.43.0


From 272d0b830cc16c1a269c9d6b9fa41e5444b4eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 23/27] fix: keep periodic events on the multiples of their
 period in long runs and at late times

---
 numerous/engine/simulation/solver_interface.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index aa1dd43..9ca1fa0 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -256,19 +256,23 @@ class EnginePeriodicTimeEvent(SolverPeriodicTimeEvent):
         self.period = period
         self.event_tolerance = event_tolerance
         self._trigger = False
-        self.t_next_event = 0.0
+        self._next_ix = 0
 
     def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
-        while self.t_next_event < t - ROUNDING * max(1.0, abs(t)):
-            self.t_next_event += self.period
-        return max(self.t_next_event, t)
+        # not by adding up periods, the rounding errors of which add up too
+        self._next_ix = max(self._next_ix, int(np.ceil((t - ROUNDING * max(1.0, abs(t))) / self.period)))
+        return max(self._next_ix * self.period, t)
 
     def is_due(self, interface: NumerousEngineModelInterface, t: float) -> bool:
         return abs(t - self.get_next_event_time(interface, t)) < self.event_tolerance
 
     def post_event(self, interface: NumerousEngineModelInterface, direction: int, t: float, y: np.array):
         if self.is_due(interface, t):
-            self.t_next_event += self.period
+            self._next_ix += 1
+
+    def reset(self):
+        self._next_ix = 0
+        self._trigger = False
 
 
 class EventFactory:
-- 
2.43.0


From af9b58784b45843c64142234a2e76de6a5982c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 24/27] fix: functions in closures of event actions are not
 mixed up with those of other events

---
 numerous/engine/model/events.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 7bea9e4..34384de 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -135,15 +135,20 @@ class VariablesVisitor(ast.NodeVisitor):
 class ClosureConstants(ast.NodeTransformer):
     """
     Writes the value of closure variables into the function, because all events are compiled in one namespace, in
-    which closure variables of the same name in different events would be mixed up.
+    which closure variables of the same name in different events would be mixed up. Values that are no constants, such
+    as functions, are renamed for the same reason.
     """
     def __init__(self, closurevariables):
         self.constants = {k: getattr(v, 'item', lambda: v)() for k, v in closurevariables.items()
                           if isinstance(v, (bool, int, float, str)) and v == v}
+        self.names = {k: f'{k}_{id(v)}' for k, v in closurevariables.items() if k not in self.constants}
+        self.closurevariables = {self.names[k]: v for k, v in closurevariables.items() if k in self.names}
 
     def visit_Name(self, node: ast.Name):
         if isinstance(node.ctx, ast.Load) and node.id in self.constants:
             return ast.copy_location(ast.Constant(value=self.constants[node.id]), node)
+        if isinstance(node.ctx, ast.Load) and node.id in self.names:
+            return ast.copy_location(ast.Name(id=self.names[node.id], ctx=ast.Load()), node)
         return node
 
 
@@ -156,8 +161,9 @@ def replace_path_strings(model, function, idx_type, path_to_root=[]) -> Tuple:
     path_to_root_str = ".".join(path_to_root) + "."
     func = ast.parse(lines.strip()).body[0]
     VariablesVisitor(path_to_root_str, model, idx_type, closurevariables).generic_visit(func)
-    func = ClosureConstants(closurevariables).visit(func)
-    return func, closurevariables
+    closure_constants = ClosureConstants(closurevariables)
+    func = closure_constants.visit(func)
+    return func, closure_constants.closurevariables
 
 
 def generate_event_action_ast(event_functions: list[NumerousEvent],
-- 
2.43.0


From 377797c63b0c6e817fe58c0a1b5eabe9fe030117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:42 +0000
Subject: [PATCH 25/27] fix: a file historian drops the incomplete row an
 interrupted write left before it appends

---
 numerous/utils/historian.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/numerous/utils/historian.py b/numerous/utils/historian.py
index 2db363d..5bf862d 100644
--- a/numerous/utils/historian.py
+++ b/numerous/utils/historian.py
@@ -1,5 +1,7 @@
 import os
 
+from pandas.io.common import infer_compression
+
 
 class Historian:
     """
@@ -68,9 +70,36 @@ class LocalHistorian(Historian):
         df (AliasedDataFrame): The simulation results recorded since the last call.
 
         """
+        has_rows = self._drop_incomplete_row()
         names = {var_id: name for name, var_id in df.aliases.items()}
         rows = df.df.rename(columns=names)
-        if os.path.isfile(self.filename):
+        if has_rows:
             rows.to_csv(self.filename, mode='a', header=False, index=False)
         else:
             rows.to_csv(self.filename, index=False)
+
+    def _drop_incomplete_row(self) -> bool:
+        """
+        Removes what is left of a row at the end of the file if writing it was interrupted, e.g. by the end of the
+        process or a full disk, so that the rows which are appended next are not mixed up with it.
+
+        Returns:
+        bool: True if the file has a header already.
+        """
+        if not os.path.isfile(self.filename):
+            return False
+        if infer_compression(self.filename, 'infer') is not None:
+            return True
+        with open(self.filename, 'rb+') as file:
+            size = end = file.seek(0, os.SEEK_END)
+            while end > 0:
+                start = max(0, end - 4096)
+                file.seek(start)
+                line_end = file.read(end - start).rfind(b'\n')
+                if line_end >= 0:
+                    end = start + line_end + 1
+                    break
+                end = start
+            if end < size:
+                file.truncate(end)
+        return end > 0
-- 
2.43.0


From 7e957d4454de24281c08c1f03059f9e76a9e420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 26/27] fix: the alias a variable is declared with is not
 dropped

---
 numerous/engine/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 8e3d885..ce7e4c1 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -185,7 +185,7 @@ class Variable(MappedValue):
         self.paths = []
         self.global_var = detailed_variable_description.global_var
         self.global_var_idx = detailed_variable_description.global_var_idx
-        self.alias = None
+        self.alias = detailed_variable_description.alias
         self.set_var = None
         self.set_var_ix = None
         self.set_namespace = None
-- 
2.43.0


From 4838c2f1d759237477edc596ff831bf2e6ee8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:41 +0000
Subject: [PATCH 27/27] fix: load the data of the start time for mappings set
 on a built model

---
 numerous/engine/model/model.py           |  8 +-------
 numerous/engine/simulation/simulation.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 4041141..15d36c5 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -914,15 +914,9 @@ class Model:
         self.numba_model.min_external_t = self.external_mappings.t_min
 
         self.numba_model.forget_external_data()
+        # the simulation loads the data of the time it starts from
         self.numba_model.map_external_data(0)
 
-        # if self.numba_model.is_external_data_update_needed(0):
-        self.numba_model.is_external_data = self.external_mappings.load_new_external_data_batch(0)
-        if self.numba_model.is_external_data:
-            self.numba_model.update_external_data(self.external_mappings.external_mappings_numpy,
-                                                  self.external_mappings.external_mappings_time,
-                                                  self.external_mappings.t_max, self.external_mappings.t_min)
-
     @classmethod
     def from_file(cls, filename: str):
 
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 5b6d2af..31fa49a 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -79,6 +79,7 @@ class Simulation:
 
     def solve(self):
 
+        self._load_external_data(self.time[0])
         self.solver.solve(self.time)
         self._complete()
 
@@ -105,11 +106,15 @@ class Simulation:
     def _start_external_data(self, t_start: float):
         numba_model = self.model.numba_model
         numba_model.is_external_data = self.model.is_external_data
-        if numba_model.is_external_data_update_needed(t_start):
-            NumerousEngineEventHandler(self.model, numba_model).load_external_data(t_start)
+        self._load_external_data(t_start)
         numba_model.forget_external_data()
         numba_model.map_external_data(t_start)
 
+    def _load_external_data(self, t: float):
+        numba_model = self.model.numba_model
+        if numba_model.is_external_data_update_needed(t):
+            NumerousEngineEventHandler(self.model, numba_model).load_external_data(t)
+
     def _complete(self):
 
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
@@ -134,6 +139,7 @@ class Simulation:
 
         """
 
+        self._load_external_data(t_start)
         try:
             t, results_status = self.solver.solver_step(t_start, step_size)
 
-- 
2.43.0

