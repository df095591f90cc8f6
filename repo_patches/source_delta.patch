From eedee1d0b67c8f50c04bfe6c6f17582d1663c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 01/29] fix: call the mesh and settings streams without a time,
 which they do not take

A run with io.ngsmesh or io.settings enabled ended with a TypeError before
its first step.
---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index c186623..5247d78 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -917,7 +917,7 @@ class IOConfiguration(UniqueConfiguration):
 
     def save_pre_time_routine(self, t: float | None = None):
         for stream in self.single_streams:
-            stream.save_pre_time_routine(t)
+            stream.save_pre_time_routine()
 
         for stream in self.file_streams:
             stream.save_pre_time_routine(t)
-- 
2.43.0


From 06ea0618a1632d71a8dde12d311660d2c44740a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 02/29] fix: round time labels to the decimals of the interval
 start as well

With a start time that has more decimals than the time step (interval
(0.5, 3.5), step 1) several steps got the same rounded label, and their
saved states overwrote each other.
---
 dream/time.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dream/time.py b/dream/time.py
index 71db640..cfe0004 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -6,6 +6,8 @@ import ngsolve as ngs
 import logging
 import typing
 
+from decimal import Decimal
+
 from dream.config import UniqueConfiguration, InterfaceConfiguration, parameter, configuration, interface, unique
 
 if typing.TYPE_CHECKING:
@@ -41,6 +43,7 @@ class Timer(UniqueConfiguration):
 
         start, end = self.interval
         step = self.step.Get()
+        self._set_digit(start, step)
 
         N = round((end - start)/(stride*step)) + 1
 
@@ -56,9 +59,9 @@ class Timer(UniqueConfiguration):
         for t in self.start(stride=1):
             yield t
 
-    def _set_digit(self, step: float):
-        digit = f"{step:.16f}".split(".")[1]
-        self.digit = len(digit.rstrip("0"))
+    def _set_digit(self, *times: float):
+        """ Sets the number of decimals needed to write down all the given times """
+        self.digit = max(0, *(-Decimal(repr(float(t))).as_tuple().exponent for t in times))
 
     interval: tuple[float, float]
     step: ngs.Parameter
-- 
2.43.0


From 6e04037ca2de6df860714ff946d837e183a44da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 03/29] fix: label the initial output of a transient run with
 its start time

The current value of the timer was used instead, that is 0.0 in a fresh
run and the last visited time in a repeated one, no matter where the
interval starts.
---
 dream/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dream/time.py b/dream/time.py
index cfe0004..91b98be 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -309,6 +309,8 @@ class TransientConfig(TimeConfig):
         if reassemble:
             self.assemble()
 
+        self.timer.t = self.timer.interval[0]
+
         with self.cfg.io as io:
             io.save_pre_time_routine(self.timer.t.Get())
 
-- 
2.43.0


From b44f7f32669e2a6508c0192ebb687138aa4956ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 04/29] fix: play back the states a run with rate > 1 has saved

A run saves every rate-th iteration counted from its first time step, and
the last one. The playback looked for multiples of rate*step after the
start time instead, which do not exist.
---
 dream/io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 5247d78..74411cb 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -402,7 +402,15 @@ class GridfunctionStream(Stream):
         import time
 
         logger.info(f"Loading gridfunction from '{self.filename}'")
-        for t in self.cfg.time.timer.start(stride=self.rate):
+        timer = self.cfg.time.timer
+        last = timer.to_array().size - 1
+
+        for it, t in enumerate(timer.start()):
+
+            # Visit the same iterations, that have been saved
+            if it % self.rate != 0 and it != last:
+                continue
+
             self.load_routine(t)
 
             self.cfg.io.redraw()
-- 
2.43.0


From bdf59494b5f6d91e92f94ad968038f7f51754935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 05/29] fix: report incompletely written gridfunction files, on
 saving and loading

GridFunction.Save ignores a failing write (disk full, missing directory),
and GridFunction.Load silently fills a vector only partly from a truncated
file, leaving a mixture of two states.
---
 dream/io.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index 74411cb..dd2c4d6 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -384,6 +384,9 @@ class GridfunctionStream(Stream):
 
         file = self.path.joinpath(filename + ".ngs")
 
+        if file.exists():
+            self.check_filesize(gfu, file)
+
         gfu.Load(str(file))
 
     def load_routine(self, t: float | None = None):
@@ -455,6 +458,18 @@ class GridfunctionStream(Stream):
 
         gfu.Save(str(file))
 
+        self.check_filesize(gfu, file)
+
+    def check_filesize(self, gfu: ngs.GridFunction, file: Path) -> None:
+        """ NGSolve reports neither an incomplete write nor an incomplete read of a gridfunction """
+
+        if gfu.space.mesh.comm.size > 1:
+            return None
+
+        size, expected = file.stat().st_size if file.exists() else 0, gfu.vec.FV().NumPy().nbytes
+        if size != expected:
+            raise OSError(f"Gridfunction file '{file}' has {size} bytes, expected {expected}!")
+
     def save_pre_time_routine(self, t: float | None = None) -> None:
         self.save_in_time_routine(t, it=0)
 
-- 
2.43.0


From 5cdcb06e1c4bd2078e77a303f3c9179127724c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 06/29] fix: collect conditions in a fixed order and drop none
 on a shared region

The conditions were collected in a set ordered by memory address, and keyed
by region. The order of the assembled terms (and thus rounding) differed
from run to run, and of an initial condition and a sponge layer on the same
domain one was dropped, depending on their addresses.
---
 dream/compressible/formulations/conservative.py |  4 +---
 dream/mesh.py                                   | 16 ++++++++--------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 99f9466..703ef35 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -499,9 +499,7 @@ class HDG(ConservativeMethod):
                               blf: dict[str, ngs.comp.SumOfIntegrals],
                               lf: dict[str, ngs.comp.SumOfIntegrals]):
 
-        doms = self.cfg.dcs.to_pattern()
-
-        for dom, dc in doms.items():
+        for dom, dc in self.cfg.dcs.to_pairs():
 
             logger.debug(f"Adding domain condition {dc} on domain {dom}.")
 
diff --git a/dream/mesh.py b/dream/mesh.py
index e3a5a9b..b51087e 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -501,20 +501,20 @@ class Conditions(UserDict):
 
         return False
 
-    def to_pattern(self, condition_type: Condition | str = Condition) -> dict[str, Condition]:
+    def to_pairs(self, condition_type: Condition | str = Condition) -> list[tuple[str, Condition]]:
+        """ Returns each condition once with the pattern of its regions, in the order of the regions """
 
         if isinstance(condition_type, str):
             condition_type = self.options[condition_type]
 
-        pattern = {}
-        unique_conditions = set([condition for conditions in self.values()
-                                for condition in conditions if isinstance(condition, condition_type)])
+        unique_conditions = dict.fromkeys(condition for conditions in self.values()
+                                          for condition in conditions if isinstance(condition, condition_type))
 
-        for unique in unique_conditions:
-            regions = [region for region in self if unique in self[region]]
-            pattern[get_pattern_from_sequence(regions)] = unique
+        return [(get_pattern_from_sequence([region for region in self if unique in self[region]]), unique)
+                for unique in unique_conditions]
 
-        return pattern
+    def to_pattern(self, condition_type: Condition | str = Condition) -> dict[str, Condition]:
+        return dict(self.to_pairs(condition_type))
 
     def clear(self) -> None:
         self.data = {region: [] for region in self}
-- 
2.43.0


From c5ee1d2feb2f7700d72025981bee5578e58e6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 07/29] fix: assemble the psponge formulation for psponge
 layers

As a subclass, each one was taken for an ordinary sponge layer, which fails
for the lack of a target state when high and low order differ.
---
 dream/compressible/formulations/conservative.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 703ef35..b85fc15 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -503,12 +503,13 @@ class HDG(ConservativeMethod):
 
             logger.debug(f"Adding domain condition {dc} on domain {dom}.")
 
-            if isinstance(dc, SpongeLayer):
-                self.add_sponge_layer_formulation(blf, lf, dc, dom)
-
-            elif isinstance(dc, PSpongeLayer):
+            # A PSpongeLayer is a SpongeLayer, too
+            if isinstance(dc, PSpongeLayer):
                 self.add_psponge_layer_formulation(blf, lf, dc, dom)
 
+            elif isinstance(dc, SpongeLayer):
+                self.add_sponge_layer_formulation(blf, lf, dc, dom)
+
             elif isinstance(dc, Initial):
                 continue
 
-- 
2.43.0


From 585b92c8f5fe8014d6119a4bd6be33023b0d7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 08/29] fix: move the output folders along with an absolute
 root, too

Only a relative root took its sub-folders with it. Moreover, changing the
root never returned, if one of the sub-folders was the root itself.
---
 dream/io.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index dd2c4d6..394d0ef 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -43,26 +43,20 @@ class path(configuration):
 
         # Set new path
         if path.is_absolute():
-            cfg.data[self.__name__] = path
-            return
+            new = path
         elif hasattr(cfg, 'root'):
-            cfg.data[self.__name__] = cfg.root.joinpath(path)
+            new = cfg.root.joinpath(path)
         else:
             raise ValueError(f"Path '{path}' is not absolute or {cfg} has no 'root' path!")
 
+        cfg.data[self.__name__] = new
+
         # Update all paths containing the old path
-        if old is not None:
+        if old is not None and (self.__name__ == 'root' or old != cfg.root):
 
             for key, path in cfg.data.items():
-                if path == cfg.data[self.__name__]:
-                    continue
-                elif isinstance(path, Path) and path.is_relative_to(old):
-                    name = path.name
-                    parent = path.parent
-                    while parent != old:
-                        name = Path(parent.name).joinpath(name)
-                        parent = parent.parent
-                    cfg.data[key] = cfg.data[self.__name__].joinpath(name)
+                if key != self.__name__ and isinstance(path, Path) and path.is_relative_to(old):
+                    cfg.data[key] = new.joinpath(path.relative_to(old))
 
 
 class stream(configuration):
-- 
2.43.0


From 032ec47808eabaecad5bc9b19a10bc5f18a3e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 09/29] fix: write sensor files row by row

Rows were held back in a block buffer. A killed run lost them and left a
broken last row, which the first row of a restart with mode 'a' was glued to.
---
 dream/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 394d0ef..64f4513 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -607,7 +607,8 @@ class SensorStream(Stream):
 
         self.csv = {}
         for sensor in self.sensors:
-            file = self.path.joinpath(sensor.sensor_name + ".csv").open(self.mode)
+            # Write row by row, an interrupted run must not leave a broken row behind
+            file = self.path.joinpath(sensor.sensor_name + ".csv").open(self.mode, buffering=1)
             writer = csv.writer(file)
 
             if self.mode == "w":
-- 
2.43.0


From ebeb494c17d573004a748888d6852eee555580b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 10/29] fix: close every output stream when opening or closing
 one of them fails

The streams opened before the failing one stayed open for good, and so did
those after a failing close.
---
 dream/io.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index 64f4513..325a8e4 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -3,6 +3,7 @@ import typing
 import logging
 import pickle
 import numpy as np
+from contextlib import ExitStack
 from pathlib import Path
 
 import ngsolve as ngs
@@ -598,7 +599,11 @@ class SensorStream(Stream):
             instance.open()
 
         if self.to_csv:
-            self.open_csv_writers()
+            try:
+                self.open_csv_writers()
+            except BaseException:
+                self.close()
+                raise
 
         return self
 
@@ -610,13 +615,12 @@ class SensorStream(Stream):
             # Write row by row, an interrupted run must not leave a broken row behind
             file = self.path.joinpath(sensor.sensor_name + ".csv").open(self.mode, buffering=1)
             writer = csv.writer(file)
+            self.csv[sensor.sensor_name] = (file, writer)
 
             if self.mode == "w":
                 for name, value in self.get_header(sensor).items():
                     writer.writerow([name, *value])
 
-            self.csv[sensor.sensor_name] = (file, writer)
-
     def get_header(self, sensor: Sensor) -> dict[str, list[str]]:
         header = sensor.get_header()
 
@@ -668,9 +672,10 @@ class SensorStream(Stream):
 
     def close(self):
         if hasattr(self, 'csv'):
-            for file, _ in self.csv.values():
-                file.close()
-            del self.csv
+            with ExitStack() as stack:
+                for file, _ in self.csv.values():
+                    stack.callback(file.close)
+                del self.csv
 
     point: dict[str, PointSensor]
     domain: dict[str, DomainSensor]
@@ -927,11 +932,15 @@ class IOConfiguration(UniqueConfiguration):
         self.single_streams = []
         self.file_streams = []
 
-        for stream in self.values():
-            if isinstance(stream, (MeshStream, SettingsStream)):
-                self.single_streams.append(stream.open())
-            elif isinstance(stream, (VTKStream, GridfunctionStream, SensorStream)):
-                self.file_streams.append(stream.open())
+        try:
+            for stream in self.values():
+                if isinstance(stream, (MeshStream, SettingsStream)):
+                    self.single_streams.append(stream.open())
+                elif isinstance(stream, (VTKStream, GridfunctionStream, SensorStream)):
+                    self.file_streams.append(stream.open())
+        except BaseException:
+            self.close()
+            raise
 
     def save_pre_time_routine(self, t: float | None = None):
         for stream in self.single_streams:
@@ -949,8 +958,9 @@ class IOConfiguration(UniqueConfiguration):
             stream.save_post_time_routine(t, it)
 
     def close(self):
-        for stream in self.file_streams:
-            stream.close()
+        with ExitStack() as stack:
+            for stream in self.file_streams:
+                stack.callback(stream.close)
 
     def __enter__(self):
         self.open()
-- 
2.43.0


From 24d90708ed48808afbec4642a2c4bb662bf1c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 11/29] fix: store settings of a run with sensors

An opened sensor refers to its solver, which can not be pickled: a run with
settings and sensor streams ended with a TypeError before its first step.
---
 dream/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index 325a8e4..5a9accc 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -704,6 +704,10 @@ class Sensor(UniqueConfiguration):
             fields = {}
         return ngsdict(**fields)
 
+    def __getstate__(self) -> dict:
+        # Sensors are stored along with the settings, but the solver they are opened for is not
+        return {'data': self.data}
+
     def open(self, fields: dict[str, ngs.CF] | None = None):
 
         if fields is None:
-- 
2.43.0


From 906b73f6d6cfba46a26f0e069dd20829bf8a25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 12/29] fix: close the log file when logging to it is turned
 off

---
 dream/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index 5a9accc..5047205 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -518,6 +518,7 @@ class LogStream(Stream):
 
         if hasattr(self, 'file_handler'):
             self.logger.removeHandler(self.file_handler)
+            self.file_handler.close()
 
         if to_file:
             self.file_handler = logging.FileHandler(self.path.joinpath(self.filename + ".log"))
@@ -538,6 +539,7 @@ class LogStream(Stream):
             self.logger.removeHandler(self.terminal_handler)
         if hasattr(self, 'file_handler'):
             self.logger.removeHandler(self.file_handler)
+            self.file_handler.close()
 
 
 class SensorStream(Stream):
-- 
2.43.0


From e5cff0fc9fb63be234df28f58fe5bd42696bf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 13/29] fix: accept region sensors that measure a single scalar
 field

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 5047205..162800f 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -773,7 +773,7 @@ class RegionSensor(Sensor):
 
     def measure(self) -> typing.Generator[np.ndarray, None, None]:
         for region in self._regions.values():
-            yield np.array(ngs.Integrate(self._field, self.mesh, order=self.integration_order, definedon=region))
+            yield np.atleast_1d(ngs.Integrate(self._field, self.mesh, order=self.integration_order, definedon=region))
 
     def set_regions(self, expected: tuple[str], fregion: typing.Callable[[str], ngs.Region]) -> None:
 
-- 
2.43.0


From bc25917898be5fbb460f7f6aaedf30fcee345782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 14/29] fix: integrate over the boundary in boundary sensors
 without regions

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 162800f..da14d67 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -778,7 +778,7 @@ class RegionSensor(Sensor):
     def set_regions(self, expected: tuple[str], fregion: typing.Callable[[str], ngs.Region]) -> None:
 
         if self.regions is None:
-            self._regions = {get_pattern_from_sequence(expected): None}
+            self._regions = {get_pattern_from_sequence(expected): fregion('.*')}
 
         elif isinstance(self.regions, str):
             regions = get_regions_from_pattern(expected, self.regions)
-- 
2.43.0


From 11c68adec1569df8acc3e411cbf1e169453155cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 15/29] fix: report gridfunction files that can not be opened
 for writing

---
 dream/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index da14d67..1cebfb1 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -451,6 +451,10 @@ class GridfunctionStream(Stream):
 
         file = self.path.joinpath(filename + ".ngs")
 
+        if gfu.space.mesh.comm.size == 1:
+            # NGSolve does not report a file it can not open, and would leave an older one in place
+            file.open("wb").close()
+
         gfu.Save(str(file))
 
         self.check_filesize(gfu, file)
-- 
2.43.0


From d9ff5772778c73487dccfb99c9e10a5232464eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 16/29] fix: deform the mesh by the grid deformations set as
 conditions

---
 dream/compressible/formulations/conservative.py | 4 ++--
 dream/mesh.py                                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index b85fc15..2e7ab76 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -5,7 +5,7 @@ import typing
 import dream.bla as bla
 
 from dream.config import InterfaceConfiguration, interface
-from dream.mesh import SpongeLayer, PSpongeLayer, Periodic, Initial
+from dream.mesh import SpongeLayer, PSpongeLayer, Periodic, Initial, GridDeformation
 from dream.compressible.config import (flowfields,
                                        CompressibleFiniteElement,
                                        FarField,
@@ -510,7 +510,7 @@ class HDG(ConservativeMethod):
             elif isinstance(dc, SpongeLayer):
                 self.add_sponge_layer_formulation(blf, lf, dc, dom)
 
-            elif isinstance(dc, Initial):
+            elif isinstance(dc, (Initial, GridDeformation)):
                 continue
 
             else:
diff --git a/dream/mesh.py b/dream/mesh.py
index b51087e..896886d 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -593,7 +593,7 @@ class DomainConditions(Conditions):
 
     def get_grid_deformation_function(self, grid_deformations: dict[str, GridDeformation] = None):
         if grid_deformations is None:
-            self.to_pattern(GridDeformation)
+            grid_deformations = self.to_pattern(GridDeformation)
         return self.get_buffer_function_(grid_deformations, GridDeformation)
 
     def get_sponge_layer_function(self, sponge_layers: dict[str, SpongeLayer] = None):
-- 
2.43.0


From 3d4fae17a4fd31b121e9ec3801392dc70c41b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 17/29] fix: choose parts before their settings when updating a
 configuration

---
 dream/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/config.py b/dream/config.py
index 7bb277b..ea6b574 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -354,7 +354,7 @@ class UniqueConfiguration(typing.MutableMapping):
         if dict is not None:
             kwargs.update(dict)
 
-        for key in list(kwargs):
+        for key in sorted(kwargs, key=lambda key: "." in key):
 
             match key.split("."):
 
-- 
2.43.0


From 126e08e7cfbf067854a47776763111fd4adf5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 18/29] fix: take the tangential stress of the viscous
 characteristic terms from its own entry

---
 dream/compressible/formulations/conservative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 2e7ab76..2fd9667 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -143,12 +143,12 @@ class StrainHeat(MixedMethod):
 
         if bc.target == "outflow":
             grad_q = R.trans * ngs.CF((grad_Q[3], grad_Q[4]))
-            grad_EPS = R * ngs.CF((grad_EPS[0], 0, 0, grad_EPS[2]), dims=(2, 2)) * R.trans
+            grad_EPS = R * ngs.CF((grad_EPS[0], 0, 0, grad_EPS[3]), dims=(2, 2)) * R.trans
             grad_q = R * ngs.CF((0, grad_q[1]))
         else:
-            grad_EPS = R * ngs.CF((0, grad_EPS[1], grad_EPS[1], grad_EPS[2]), dims=(2, 2)) * R.trans
+            grad_EPS = R * ngs.CF((0, grad_EPS[1], grad_EPS[1], grad_EPS[3]), dims=(2, 2)) * R.trans
 
-        grad_Q = ngs.CF((grad_EPS[0], grad_EPS[1], grad_EPS[2], grad_q[0], grad_q[1]))
+        grad_Q = ngs.CF((grad_EPS[0], grad_EPS[1], grad_EPS[3], grad_q[0], grad_q[1]))
 
         S = self.get_conservative_diffusive_jacobian(U, Q, t) * (ngs.grad(U.U) * t)
         S += self.get_conservative_diffusive_jacobian(U, Q, n) * (ngs.grad(U.U) * n)
-- 
2.43.0


From c3d39bcbca912575859e63c6d4a3f244e100b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 19/29] fix: relaxation factors given by name belong to the
 characteristics of these names

---
 dream/compressible/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/compressible/config.py b/dream/compressible/config.py
index 7b15889..75f28f0 100644
--- a/dream/compressible/config.py
+++ b/dream/compressible/config.py
@@ -156,7 +156,7 @@ class CBC(Condition):
         elif isinstance(factor, (list, tuple)):
             characteristic = {key: value for key, value in zip(characteristic, factor)}
         elif isinstance(factor, dict):
-            characteristic = {key: value for key, value in zip(characteristic, factor.values())}
+            characteristic = {key: factor[key] for key in characteristic}
         return characteristic
 
     @configuration(default=0.0)
-- 
2.43.0


From 58cdb0f8013139fb51f0b37a35c9d16ab24ceb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 20/29] fix: specific enthalpy from density, specific energy
 and pressure

---
 dream/compressible/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/compressible/solver.py b/dream/compressible/solver.py
index e367fe8..8d0155b 100644
--- a/dream/compressible/solver.py
+++ b/dream/compressible/solver.py
@@ -485,7 +485,7 @@ class CompressibleFlowSolver(SolverConfiguration):
             logger.debug("Returning specific enthalpy from density and enthalpy.")
             return U.rho_H/U.rho
 
-        elif all((U.rho, U.rho_E, U.p)):
+        elif all((U.rho, U.E, U.p)):
             logger.debug("Returning specific enthalpy from specific energy, density and pressure.")
             return U.E + U.p/U.rho
 
-- 
2.43.0


From f8272e9f2275fd76157463a485356fa6e4aeed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 21/29] fix: assemble linear forms of nonlinear problems

The linear form of a formulation was never assembled: its terms were
silently left out of the residual.
---
 dream/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dream/solver.py b/dream/solver.py
index 1a7fc1c..01f2c66 100644
--- a/dream/solver.py
+++ b/dream/solver.py
@@ -237,6 +237,8 @@ class DirectNonlinearSolver(NonlinearSolver, skip=True):
 
     def solve_update_step(self):
 
+        self.lf.Assemble()
+
         self.blf.Apply(self.gfu.vec, self.residual)
         self.residual.data -= self.lf.vec
         self.blf.AssembleLinearization(self.gfu.vec)
-- 
2.43.0


From 80b22f20da8c4ca46a5ca0002de0e6237c7c5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 22/29] fix: stationary computations could not be solved

StationaryConfig called a method that does not exist.
---
 dream/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index 91b98be..00eb68c 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -261,6 +261,8 @@ class StationaryConfig(TimeConfig):
             else:
                 self.lf += cf
 
+        self.cfg.nonlinear_solver.initialize(self.blf, self.lf, self.cfg.gfu)
+
     def start_solution_routine(self, reassemble: bool = True) -> typing.Generator[float | None, None, None]:
 
         if reassemble:
@@ -270,7 +272,9 @@ class StationaryConfig(TimeConfig):
             io.save_pre_time_routine()
 
             # Solution routine starts here
-            self.solve()
+            for _ in self.cfg.nonlinear_solver.solve():
+                io.redraw()
+
             yield None
             # Solution routine ends here
 
-- 
2.43.0


From 616815f78ac770fa6d100d8248a5ccfe26513092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 23/29] fix: the result of a stationary computation is drawn

---
 dream/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dream/time.py b/dream/time.py
index 00eb68c..966c2e8 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -278,6 +278,8 @@ class StationaryConfig(TimeConfig):
             yield None
             # Solution routine ends here
 
+            io.redraw()
+
             io.save_post_time_routine()
 
 
-- 
2.43.0


From 26696d58bfa6875711f152984794b7e270c7e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 24/29] fix: every time-dependent variable is integrated in
 time

---
 dream/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index 966c2e8..383fa46 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -153,7 +153,7 @@ class ImplicitSchemes(TimeSchemes, skip=True):
         gfus = self.gfus[variable].copy()
         gfus['n+1'] = u
 
-        blf[f'time'] = ngs.InnerProduct(self.get_time_derivative(gfus), v) * self.dx[variable]
+        blf[f'{variable}_time'] = ngs.InnerProduct(self.get_time_derivative(gfus), v) * self.dx[variable]
 
     def get_time_derivative(self, gfus: dict[str, ngs.GridFunction]) -> ngs.CF:
         raise NotImplementedError()
-- 
2.43.0


From c6da91f5ffff35763b266c33550edda8c1f2e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 25/29] fix: grid deformations take the mappings and dimension
 they are given

---
 dream/mesh.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 896886d..9075382 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -327,27 +327,31 @@ class GridDeformation(Buffer):
 
     @configuration(default=2)
     def dim(self, dim) -> int:
+        self.set_function(dim=int(dim))
         return int(dim)
 
     @configuration(default=None)
     def x(self, x) -> GridMapping:
         map = self.check_mapping(x, ngs.x)
-        self.set_function(x=x)
+        self.set_function(x=map)
         return map
 
     @configuration(default=None)
     def y(self, y) -> GridMapping:
         map = self.check_mapping(y, ngs.y)
-        self.set_function(y=y)
+        self.set_function(y=map)
         return map
 
     @configuration(default=None)
     def z(self, z) -> GridMapping:
         map = self.check_mapping(z, ngs.z)
-        self.set_function(z=z)
+        self.set_function(z=map)
         return map
 
-    def set_function(self, x: GridMapping = None, y: GridMapping = None, z: GridMapping = None) -> None:
+    def set_function(self, x: GridMapping = None, y: GridMapping = None, z: GridMapping = None, dim: int = None) -> None:
+
+        if dim is None:
+            dim = self.dim
 
         if x is None:
             x = self.data.get("x", GridMapping.none(ngs.x))
@@ -358,7 +362,7 @@ class GridDeformation(Buffer):
         if z is None:
             z = self.data.get("z", GridMapping.none(ngs.z))
 
-        self.function = ngs.CF(tuple(map.deformation for map in (x, y, z)[:self.dim]))
+        self.function = ngs.CF(tuple(map.deformation for map in (x, y, z)[:dim]))
 
     @classmethod
     def get_space(cls, grid_deformations: dict[str, GridDeformation], mesh: ngs.Mesh) -> ngs.VectorH1:
-- 
2.43.0


From f7acae2b6d0f22d0ef93e84c3f63c08b40002991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 26/29] fix: a grid deformation can be applied again

---
 dream/mesh.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 9075382..2c3f628 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -598,7 +598,16 @@ class DomainConditions(Conditions):
     def get_grid_deformation_function(self, grid_deformations: dict[str, GridDeformation] = None):
         if grid_deformations is None:
             grid_deformations = self.to_pattern(GridDeformation)
-        return self.get_buffer_function_(grid_deformations, GridDeformation)
+
+        # The mappings take the coordinates of the undeformed mesh
+        deformation = self.mesh.deformation
+        self.mesh.UnsetDeformation()
+
+        try:
+            return self.get_buffer_function_(grid_deformations, GridDeformation)
+        finally:
+            if deformation is not None:
+                self.mesh.SetDeformation(deformation)
 
     def get_sponge_layer_function(self, sponge_layers: dict[str, SpongeLayer] = None):
         if sponge_layers is None:
-- 
2.43.0


From cf0123ac136acf8d785d3d7fa71d849a4a2d8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 27/29] fix: a quantity that is not given is not set to an
 invalid function

---
 dream/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dream/config.py b/dream/config.py
index ea6b574..5d17467 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -102,6 +102,9 @@ class ngsdict(typing.MutableMapping):
         self.update(*args, **kwargs)
 
     def __setitem__(self, key: str, value):
+        if value is None:
+            return
+
         if not isinstance(value, ngs.CF):
             value = ngs.CF(value)
 
-- 
2.43.0


From 57371d37d15f2fbc3c9c7df57d6c047c0b013a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 28/29] fix: a flow without initial conditions is refused

---
 dream/compressible/formulations/conservative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 2fd9667..deddea2 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -881,6 +881,9 @@ class ConservativeFiniteElementMethod(CompressibleFiniteElement):
     def set_initial_conditions(self) -> None:
         super().set_initial_conditions()
 
+        if not self.cfg.dcs.has_condition(Initial):
+            raise ValueError("Initial conditions not set!")
+
         U = self.mesh.MaterialCF({dom: ngs.CF(
             (self.cfg.density(dc.fields),
              self.cfg.momentum(dc.fields),
-- 
2.43.0


From 141a37d54d61e4a87ce3bf60601a3c593272c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 29/29] fix: the iteration error of a huge solution does not
 overflow

Squaring the product of update and residual raised an OverflowError out of the
solution loop, as soon as the product of a diverging solution exceeded 1e154.
---
 dream/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/solver.py b/dream/solver.py
index 01f2c66..9ebc6df 100644
--- a/dream/solver.py
+++ b/dream/solver.py
@@ -183,7 +183,7 @@ class NonlinearSolver(Solver, is_interface=True):
         self.is_nan = False
 
     def set_iteration_error(self, du: ngs.BaseVector, residual: ngs.BaseVector):
-        error = ngs.sqrt(ngs.InnerProduct(du, residual)**2)
+        error = abs(ngs.InnerProduct(du, residual))
 
         self.is_converged = error < self.convergence_criterion
         self.error = error
-- 
2.43.0

