From fc8fd6ed5b71004f98ae79ed8f66d856818f076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 001/233] fix: TimeIntervalSlicer put each visit one interval
 late, and empty intervals held [[]]

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..add6bb0 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -73,7 +73,8 @@ class TimeIntervalSlicer(BaseSlicer):
             pd.DataFrame(
                 {
                     "visit_idx": np.arange(len(visit_mjds)),
-                    "sid": np.digitize(visit_mjds, mjd_bin_edges),
+                    # np.digitize numbers the intervals from 1; sid starts at 0.
+                    "sid": np.digitize(visit_mjds, mjd_bin_edges) - 1,
                 }
             )
             .groupby("sid")
@@ -95,7 +96,10 @@ class TimeIntervalSlicer(BaseSlicer):
 
             try:
                 _ = idxs[0]
-            except (TypeError, IndexError):
+            except IndexError:
+                # No visits in this interval.
+                idxs = []
+            except TypeError:
                 idxs = [idxs]
 
             slice_points = {
-- 
2.43.0


From 5e063dde491f454c3bd6381ddef3474523b07147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 002/233] fix: VisitIntervalSlicer slice points were not in the
 order of their visits

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index add6bb0..6d2f1ec 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -262,10 +262,11 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         self.sim_idxs = np.argsort(sim_data[self.mjd_column_name])
         self.slice_points["sid"] = np.arange(self.nslice)
-        self.slice_points["mjd"] = sim_data[self.mjd_column_name]
-        self.slice_points["duration"] = sim_data[self.duration_column_name]
+        # Keep the slice points in the same (time) order as the visits.
+        self.slice_points["mjd"] = np.asarray(sim_data[self.mjd_column_name])[self.sim_idxs]
+        self.slice_points["duration"] = np.asarray(sim_data[self.duration_column_name])[self.sim_idxs]
         for column_name in self.extra_column_names:
-            self.slice_points[column_name] = sim_data[column_name]
+            self.slice_points[column_name] = np.asarray(sim_data[column_name])[self.sim_idxs]
         self._run_maps(maps)
 
         @wraps(self._slice_sim_data)
@@ -277,7 +278,7 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
                 "duration": self.slice_points["duration"][islice],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name]
+                slice_points[column_name] = self.slice_points[column_name][islice]
 
             return {"idxs": idxs, "slice_point": slice_points}
 
-- 
2.43.0


From 8306547e0f82e2000cee20be73e15b175f1dd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:45 +0000
Subject: [PATCH 003/233] fix: NDSlicer and MovieSlicer equality ignored
 columns, most bins and cumulative mode, and failed before setup

---
 rubin_sim/maf/slicers/movie_slicer.py | 14 +++++++++++++-
 rubin_sim/maf/slicers/nd_slicer.py    | 12 ++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index abd9c25..c01fc04 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -215,7 +215,19 @@ class MovieSlicer(BaseSlicer):
         Evaluate if slicers are equivalent.
         """
         if isinstance(other_slicer, MovieSlicer):
-            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            if self.slice_col_name != other_slicer.slice_col_name:
+                return False
+            if self.cumulative != other_slicer.cumulative:
+                return False
+            if ("bins" in self.slice_points) and ("bins" in other_slicer.slice_points):
+                return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            # Before setup, compare the requested bins.
+            return (
+                np.array_equal(self.bins, other_slicer.bins)
+                and self.bin_min == other_slicer.bin_min
+                and self.bin_max == other_slicer.bin_max
+                and self.bin_size == other_slicer.bin_size
+            )
         else:
             return False
 
diff --git a/rubin_sim/maf/slicers/nd_slicer.py b/rubin_sim/maf/slicers/nd_slicer.py
index 91c9db1..324f390 100644
--- a/rubin_sim/maf/slicers/nd_slicer.py
+++ b/rubin_sim/maf/slicers/nd_slicer.py
@@ -139,9 +139,13 @@ class NDSlicer(BaseSlicer):
         if isinstance(other_slicer, NDSlicer):
             if other_slicer.n_d != self.n_d:
                 return False
-            for i in range(self.n_d):
-                if not np.array_equal(other_slicer.slice_points["bins"][i], self.slice_points["bins"][i]):
-                    return False
-            return True
+            if list(other_slicer.slice_col_list) != list(self.slice_col_list):
+                return False
+            if ("bins" in self.slice_points) and ("bins" in other_slicer.slice_points):
+                return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            # Before setup, compare the requested bins.
+            if isinstance(self.bins_list, (float, int)) or isinstance(other_slicer.bins_list, (float, int)):
+                return np.array_equal(self.bins_list, other_slicer.bins_list)
+            return all(np.array_equal(b1, b2) for b1, b2 in zip(self.bins_list, other_slicer.bins_list))
         else:
             return False
-- 
2.43.0


From d30cd7903e0c0bea3d579468e5b6db00eb1d43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:23 +0000
Subject: [PATCH 004/233] fix: sky slicers compared equal across degree/radian
 input and camera settings

---
 rubin_sim/maf/slicers/healpix_slicer.py        | 7 ++++++-
 rubin_sim/maf/slicers/healpix_subset_slicer.py | 7 ++++++-
 rubin_sim/maf/slicers/user_points_slicer.py    | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 12a6323..7e7e43a 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -170,7 +170,12 @@ class HealpixSlicer(BaseSpatialSlicer):
                 if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                     if other_slicer.radius == self.radius:
                         if other_slicer.use_camera == self.use_camera:
-                            if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
+                            if (
+                                other_slicer.rotSkyPosColName == self.rotSkyPosColName
+                                and other_slicer.latLonDeg == self.latLonDeg
+                                and other_slicer.camera_radius == self.camera_radius
+                                and other_slicer.camera_footprint_file == self.camera_footprint_file
+                            ):
                                 if np.all(other_slicer.shape == self.shape):
                                     if other_slicer.use_cache == self.use_cache:
                                         result = True
diff --git a/rubin_sim/maf/slicers/healpix_subset_slicer.py b/rubin_sim/maf/slicers/healpix_subset_slicer.py
index 8d7a74a..0b8b54a 100644
--- a/rubin_sim/maf/slicers/healpix_subset_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_subset_slicer.py
@@ -200,7 +200,12 @@ class HealpixSubsetSlicer(HealpixSlicer):
                     if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                         if other_slicer.radius == self.radius:
                             if other_slicer.use_camera == self.use_camera:
-                                if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
+                                if (
+                                    other_slicer.rotSkyPosColName == self.rotSkyPosColName
+                                    and other_slicer.latLonDeg == self.latLonDeg
+                                    and other_slicer.camera_radius == self.camera_radius
+                                    and other_slicer.camera_footprint_file == self.camera_footprint_file
+                                ):
                                     if np.all(other_slicer.shape == self.shape):
                                         result = True
         return result
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 8f02ff0..40d66a2 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -135,7 +135,12 @@ class UserPointsSlicer(BaseSpatialSlicer):
                     if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                         if other_slicer.radius == self.radius:
                             if other_slicer.use_camera == self.use_camera:
-                                if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
+                                if (
+                                    other_slicer.rotSkyPosColName == self.rotSkyPosColName
+                                    and other_slicer.latLonDeg == self.latLonDeg
+                                    and other_slicer.camera_radius == self.camera_radius
+                                    and other_slicer.camera_footprint_file == self.camera_footprint_file
+                                ):
                                     if np.array_equal(other_slicer.shape, self.shape):
                                         result = True
         return result
-- 
2.43.0


From 030f6dbe5a26001cb9fbecba2bd37d085ab0603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:17 +0000
Subject: [PATCH 005/233] fix: MetricBundleGroup ran bundles with conflicting
 stackers together

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..b66e75a 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -200,10 +200,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
-                    # Otherwise, we reached the end of the subset
-                    # and they were all compatible.
-                    found_compatible = True
-                    compatible_list.append(k)
+                    if compatible:
+                        # Otherwise, we reached the end of the subset
+                        # and they were all compatible.
+                        found_compatible = True
+                        compatible_list.append(k)
+                        break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From 0e842df1e0a5dcc82e8a1e138177d8b13552e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:17 +0000
Subject: [PATCH 006/233] fix: reduced metrics of the same name replaced one
 another in a MetricBundleGroup

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index b66e75a..871cb0c 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -586,7 +586,7 @@ class MetricBundleGroup:
                     # Add the new metricBundle to our metricBundleGroup
                     # dictionary.
                     name = newmetricbundle.metric.name
-                    if name in self.bundle_dict:
+                    if name in self.bundle_dict or name in reduce_bundle_dict:
                         name = newmetricbundle.file_root
                     reduce_bundle_dict[name] = newmetricbundle
                     if self.save_early:
-- 
2.43.0


From 4258c5f7a465405dd49429cbc5f9cd2768114186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:17 +0000
Subject: [PATCH 007/233] fix: vector metrics on a HealpixSubsetSlicer had a
 scrambled mask

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..08d38c0 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -237,7 +237,8 @@ class MetricBundle:
             fill_value=self.slicer.badval,
         )
         if hasattr(self.slicer, "mask"):
-            self.metric_values.mask = self.slicer.mask
+            # Applies to every value of a vector metric.
+            self.metric_values.mask[self.slicer.mask] = True
 
     def _build_metadata(self, info_label, metadata=None):
         """If no info_label is provided, process the constraint
-- 
2.43.0


From 57370a30cefc426e679cabc559a6d1ff7b192913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:46 +0000
Subject: [PATCH 008/233] fix: sky slicers restored from disk lost their
 camera, angle and badval settings

---
 rubin_sim/maf/slicers/healpix_slicer.py     |  7 +++++++
 rubin_sim/maf/slicers/user_points_slicer.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 7e7e43a..e3bcfc6 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -138,6 +138,13 @@ class HealpixSlicer(BaseSpatialSlicer):
             "lon_col": lon_col,
             "lat_col": lat_col,
             "radius": radius,
+            "lat_lon_deg": lat_lon_deg,
+            "use_cache": use_cache,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.use_cache = use_cache
         if use_cache:
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 40d66a2..cfa6c94 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -109,11 +109,17 @@ class UserPointsSlicer(BaseSpatialSlicer):
         self.nslice = np.size(ra)
         self.shape = self.nslice
         self.slicer_init = {
-            "ra": ra,
-            "dec": dec,
+            "ra": np.degrees(ra),
+            "dec": np.degrees(dec),
             "lon_col": lon_col,
             "lat_col": lat_col,
             "radius": radius,
+            "lat_lon_deg": lat_lon_deg,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.plot_funcs = [BaseSkyMap, BaseHistogram]
 
-- 
2.43.0


From 78b094acea38f981f0d774749396362574a96aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:46 +0000
Subject: [PATCH 009/233] fix: MovieSlicer restored from disk lost its bins and
 cumulative settings, and ignored slice_col_units

---
 rubin_sim/maf/slicers/movie_slicer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index c01fc04..22bfbfb 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -81,10 +81,18 @@ class MovieSlicer(BaseSlicer):
         if slice_col_units is None:
             co = ColInfo()
             self.slice_col_units = co.get_units(self.slice_col_name)
+        else:
+            self.slice_col_units = slice_col_units
         self.slicer_init = {
             "slice_col_name": self.slice_col_name,
             "slice_col_units": slice_col_units,
+            "bins": bins,
+            "bin_min": bin_min,
+            "bin_max": bin_max,
+            "bin_size": bin_size,
             "badval": badval,
+            "cumulative": cumulative,
+            "force_no_ffmpeg": force_no_ffmpeg,
         }
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From 13b177fe91264b0ea4d6831db640ce9f902f3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:46 +0000
Subject: [PATCH 010/233] fix: MetricBundle.output_json always raised TypeError

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 08d38c0..023dac0 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -550,7 +550,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
@@ -602,7 +602,7 @@ class MetricBundle:
             if "summary_values" in header:
                 self.summary_values = header["summary_values"]
         if self.info_label is None:
-            self._build_metadata()
+            self._build_metadata(None)
         path, head = os.path.split(filename)
         self.file_root = head.replace(".npz", "")
         self.set_plot_funcs(None)
-- 
2.43.0


From cbc67cce6c8c3f31cd0ccebb3f30d62581a870f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:46 +0000
Subject: [PATCH 011/233] fix: JSON output of an unmasked OneDSlicer metric
 raised IndexError

---
 rubin_sim/maf/slicers/base_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..9f3d2f1 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -369,7 +369,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
                     bin_left = self.slice_points["bins"][i]
                     value = metric_values[i]
                     metric.append([bin_left, value])
-                metric.append(self.slice_points["bins"][i + 1][0])
+                metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
                 metric.append([metric_values[0]])
         # Write out JSON output.
-- 
2.43.0


From dd9d01e6cef18fe7ef8a0253663f5aaed294a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:30 +0000
Subject: [PATCH 012/233] fix: MetricBundleGroup.read_all could not restore
 reduced metrics

---
 .../maf/metric_bundles/metric_bundle_group.py    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 871cb0c..4fb5aa1 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -4,6 +4,7 @@ import os
 import sys
 import warnings
 from collections import OrderedDict
+from copy import deepcopy
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -782,8 +783,9 @@ class MetricBundleGroup:
             # with associated 'reduce' functions, and read those in too.
             if len(bundle.metric.reduce_funcs) > 0:
                 orig_metric_name = bundle.metric.name
-                for reduce_func in bundle.metric.reduce_funcs.values():
-                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce", "")
+                summary_metrics = bundle.summary_metrics
+                for reduce_func_name in bundle.metric.reduce_funcs:
+                    reduce_name = orig_metric_name + "_" + reduce_func_name
                     # Borrow the fileRoot in b (we'll reset it appropriately)
                     bundle.metric.name = reduce_name
                     bundle._build_file_root()
@@ -795,15 +797,15 @@ class MetricBundleGroup:
                         # display_dict exactly as they would have been made
                         # if you calculated the reduce metric from scratch.
                         newmetric_bundle = MetricBundle(
-                            metric=bundle.metric,
+                            metric=deepcopy(bundle.metric),
                             slicer=bundle.slicer,
                             constraint=bundle.constraint,
                             stacker_list=bundle.stacker_list,
                             run_name=bundle.run_name,
                             info_label=bundle.info_label,
-                            plot_dict=bundle.plotDict,
-                            display_dict=bundle.displayDict,
-                            summary_metrics=bundle.summary_metrics,
+                            plot_dict=bundle.plot_dict,
+                            display_dict=bundle.display_dict,
+                            summary_metrics=summary_metrics,
                             maps_list=bundle.maps_list,
                             file_root=bundle.file_root,
                             plot_funcs=bundle.plot_funcs,
@@ -813,7 +815,7 @@ class MetricBundleGroup:
                         newmetric_bundle.summary_values = tmp_bundle.summary_values
                         # Add the new metricBundle to metricBundleGroup dict.
                         name = newmetric_bundle.metric.name
-                        if name in self.bundle_dict:
+                        if name in self.bundle_dict or name in reduce_bundle_dict:
                             name = newmetric_bundle.file_root
                         reduce_bundle_dict[name] = newmetric_bundle
                         if self.verbose:
-- 
2.43.0


From 7dd28119b54824a2fa015caffd5ddb6dda6fcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 013/233] fix: ResultsDb.update_display overwrote the caller's
 display dictionary

---
 rubin_sim/maf/db/results_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f991889..74fbc2e 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -494,7 +494,9 @@ class ResultsDb:
                     self.session.delete(d)
             else:
                 return
-        # Then go ahead and add new display_dict.
+        # Then go ahead and add new display_dict (working on a copy, so
+        # that the caller's dictionary is left as it was).
+        display_dict = dict(display_dict)
         for k in display_dict:
             if display_dict[k] is None:
                 display_dict[k] = "NULL"
-- 
2.43.0


From 680c15ebbd4c3158a5bbdb686186007d4d21c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 014/233] fix: add_run_to_database looked for the MAF directory
 in the wrong place unless run from the tracking database's parent

---
 rubin_sim/maf/db/tracking_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..5563c09 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -282,7 +282,6 @@ def add_run_to_database(
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
-    maf_dir = os.path.relpath(maf_dir, start=os.path.dirname(trackingDb.tracking_db_dir))
     if not os.path.isdir(maf_dir):
         raise ValueError("There is no directory containing MAF outputs at %s." % (maf_dir))
 
-- 
2.43.0


From 21dcf17ed60639f4a7faf3a501df89ff3921d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:03 +0000
Subject: [PATCH 015/233] fix: MafRunResults.get_json always raised
 AttributeError

---
 rubin_sim/maf/web/maf_run_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 5198b84..02fd160 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -140,7 +140,7 @@ class MafRunResults:
         io = m_b.output_json()
         if io is None:
             return None
-        return io.get_value()
+        return io.getvalue()
 
     def get_npz(self, metric):
         """
-- 
2.43.0


From 5aa3e16e605d1ad78ebc013afa3e013006067293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:55 +0000
Subject: [PATCH 016/233] fix: CountBeyondThreshold with both thresholds raised
 ValueError

---
 rubin_sim/maf/metrics/simple_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..4fdba37 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -303,7 +303,7 @@ class CountBeyondThreshold(BaseMetric):
             count = len(
                 np.where(
                     (data_slice[self.colname] > self.lower_threshold)
-                    and (data_slice[self.colname] < self.upper_threshold)
+                    & (data_slice[self.colname] < self.upper_threshold)
                 )[0]
             )
         return count
-- 
2.43.0


From 491b7fbf040cbbca0600511e0bef6411c80bae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:55 +0000
Subject: [PATCH 017/233] fix: Coaddm5Metric returned -inf when no visit is in
 the requested band

---
 rubin_sim/maf/metrics/simple_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index 4fdba37..94bf574 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -104,7 +104,9 @@ class Coaddm5Metric(BaseMetric):
         if len(data_slice) == 0:
             return self.badval
         if self.filter_name is not None:
-            matched = np.where(data_slice[self.filter_col] == self.filter_name)
+            matched = np.where(data_slice[self.filter_col] == self.filter_name)[0]
+            if len(matched) == 0:
+                return self.badval
             coadd = self.coadd(data_slice[matched][self.m5_col])
         else:
             coadd = self.coadd(data_slice[self.m5_col])
-- 
2.43.0


From b4d0f5c99672833f859f6a0402362833373de139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:55 +0000
Subject: [PATCH 018/233] fix: YearCoverageMetric ignored metric_name, badval
 and the other metric settings

---
 rubin_sim/maf/metrics/coverage_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/coverage_metric.py b/rubin_sim/maf/metrics/coverage_metric.py
index d203336..dc39c99 100644
--- a/rubin_sim/maf/metrics/coverage_metric.py
+++ b/rubin_sim/maf/metrics/coverage_metric.py
@@ -40,7 +40,7 @@ class YearCoverageMetric(BaseMetric):
         if units is None:
             units = "N years"
 
-        super().__init__([night_col], units=units)
+        super().__init__([night_col], units=units, **kwargs)
 
     def run(self, data_slice, slice_point):
         hist, be = np.histogram(data_slice[self.night_col], bins=self.bins)
-- 
2.43.0


From ebcff54340ea9b4a5d4068c39a739ed1ac902784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:51 +0000
Subject: [PATCH 019/233] fix: GeneralUniformityMetric did not scale the values
 to the range between min_value and max_value

---
 rubin_sim/maf/metrics/cadence_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..469d2ce 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -145,7 +145,7 @@ class GeneralUniformityMetric(BaseMetric):
             max_value = data_slice[self.col].max()
         else:
             max_value = self.max_value
-        scaled_values = (data_slice[self.col] - min_value) / max_value
+        scaled_values = (data_slice[self.col] - min_value) / (max_value - min_value)
         scaled_values.sort()  # Just to be sure
         n_cum = np.arange(0, scaled_values.size) / float(scaled_values.size - 1)
         d_max = np.max(np.abs(n_cum - scaled_values))
-- 
2.43.0


From 3377bb923c327dc7be7ad34f7062f4a6c2fa268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:15 +0000
Subject: [PATCH 020/233] fix: PhaseGapMetric gave NaN for one period in a
 range, and zero gaps for repeated periods

---
 rubin_sim/maf/metrics/phase_gap_metric.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metrics/phase_gap_metric.py b/rubin_sim/maf/metrics/phase_gap_metric.py
index cf739d1..77deec9 100644
--- a/rubin_sim/maf/metrics/phase_gap_metric.py
+++ b/rubin_sim/maf/metrics/phase_gap_metric.py
@@ -50,12 +50,7 @@ class PhaseGapMetric(BaseMetric):
         if len(data_slice) < self.n_visits_min:
             return self.badval
         # Create 'nPeriods' evenly spaced periods within range of min to max.
-        step = (self.period_max - self.period_min) / self.n_periods
-        if step == 0:
-            periods = np.array([self.period_min])
-        else:
-            periods = np.arange(self.n_periods)
-            periods = periods / np.max(periods) * (self.period_max - self.period_min) + self.period_min
+        periods = np.linspace(self.period_min, self.period_max, self.n_periods)
         max_gap = np.zeros(self.n_periods, float)
 
         for i, period in enumerate(periods):
-- 
2.43.0


From 6fa38407160039f64b59606628b5e710c8904eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:27 +0000
Subject: [PATCH 021/233] fix: the Accumulate vector metrics included one visit
 from beyond each bin

---
 rubin_sim/maf/metrics/vector_metrics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2f357da..fe723f0 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -81,8 +81,8 @@ class AccumulateMetric(VectorMetric):
 
         result = self.function.accumulate(data_slice[self.col])
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        # indices counts the visits up to the end of each bin
+        result = result[np.maximum(indices - 1, 0)]
         result[np.where(indices == 0)] = self.badval
         return result
 
@@ -93,8 +93,8 @@ class AccumulateCountMetric(AccumulateMetric):
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        # indices counts the visits up to the end of each bin
+        result = result[np.maximum(indices - 1, 0)]
         result[np.where(indices == 0)] = self.badval
         return result
 
@@ -145,8 +145,8 @@ class AccumulateM5Metric(AccumulateMetric):
 
         result = np.add.accumulate(flux)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        # indices counts the visits up to the end of each bin
+        result = result[np.maximum(indices - 1, 0)]
         result = 1.25 * np.log10(result)
         result[np.where(indices == 0)] = self.badval
         return result
-- 
2.43.0


From 994f76160f2320256a3359d548fe10e07d709d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:27 +0000
Subject: [PATCH 022/233] fix: VisitGroupsMetric counted nights with two visits
 whatever their separation

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..ee1b4fc 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -217,7 +217,7 @@ class VisitGroupsMetric(BaseMetric):
                     if not timegood[-2] and not timetooclose[-2]:
                         ntooclose += 1
             else:
-                if timegood.size > 0:
+                if timegood.any():
                     nvisits += 2
             # Count up all visits for night.
             if nvisits > 0:
-- 
2.43.0


From e720d914e60ddd85418fa090c7aba2bc0cb52ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:57 +0000
Subject: [PATCH 023/233] fix: VisitGroupsMetric broke a run of lunations at a
 night that starts no group

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index ee1b4fc..dc62863 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -320,11 +320,7 @@ class VisitGroupsMetric(BaseMetric):
         for lunation in lunations:
             # Find visits within lunation.
             vl, nl = self._in_lunation(metricval["visits"], metricval["nights"], lunation, lunation_length)
-            # If no visits this lunation:
-            if len(vl) == 0:
-                max_sequence = max(max_sequence, cur_sequence)
-                cur_sequence = 0
-            # Else, look to see if groups can be made from the visits.
+            # Look to see if groups can be made from the visits.
             for n in nl:
                 # Find visits which are in groups within the lunation.
                 vw, nw = self._in_window(vl, nl, n, self.window, self.min_n_visits)
@@ -332,10 +328,10 @@ class VisitGroupsMetric(BaseMetric):
                 if len(nw) >= self.min_n_nights:
                     cur_sequence += 1
                     break
-                # Otherwise we're not in a sequence (anymore, or still).
-                else:
-                    max_sequence = max(max_sequence, cur_sequence)
-                    cur_sequence = 0
+            # Otherwise we're not in a sequence (anymore, or still).
+            else:
+                max_sequence = max(max_sequence, cur_sequence)
+                cur_sequence = 0
         # Pick up last sequence if were in a sequence at last lunation.
         max_sequence = max(max_sequence, cur_sequence)
         return max_sequence
-- 
2.43.0


From 160a364c2bc80445af318393e368f0f551d061b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:55 +0000
Subject: [PATCH 024/233] fix: collapse_night failed unless the time column was
 observationStartMJD

---
 rubin_sim/maf/utils/maf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/utils/maf_utils.py b/rubin_sim/maf/utils/maf_utils.py
index 47dc9a2..c23687f 100644
--- a/rubin_sim/maf/utils/maf_utils.py
+++ b/rubin_sim/maf/utils/maf_utils.py
@@ -86,7 +86,7 @@ def collapse_night(
         )
 
     night_slice = np.concatenate([night_slice[f] for f in night_slice])
-    night_slice.sort(order=["observationStartMJD"])
+    night_slice.sort(order=[mjd_col])
 
     return night_slice
 
-- 
2.43.0


From f6f1850be29561f8f284671a1be72ca43c21452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:26 +0000
Subject: [PATCH 025/233] fix: the linear multiband depth models raised
 IndexError when subtracting the mean depths

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 97d1659..5834610 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -126,7 +126,7 @@ class SingleLinearMultibandModelMetric(BaseMetric):
         ).T
         for i, lsst_filter in enumerate(self.bands):
             if lsst_filter in self.mean_depth:
-                depths[i] -= self.mean_depth[lsst_filter]
+                depths[:, i] -= self.mean_depth[lsst_filter]
         # Don't raise Exceptions in the middle of metrics -
         # assert depths.shape[0] >= 1
         if depths.shape[0] < 1:
@@ -296,7 +296,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             # if provided, subtract the mean
             for i, lsst_filter in enumerate(lsst_filters):
                 if lsst_filter in self.mean_depth:
-                    depths[i] -= self.mean_depth[lsst_filter]
+                    depths[:, i] -= self.mean_depth[lsst_filter]
 
             # now assemble the results
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
-- 
2.43.0


From c640dec5d75f3f2afb02d4b85848cbebeb5eb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:46 +0000
Subject: [PATCH 026/233] fix: the linear multiband depth models returned
 one-element arrays, which cannot be stored as metric values

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 5834610..72fd4f2 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -147,7 +147,7 @@ class SingleLinearMultibandModelMetric(BaseMetric):
             ):
                 return self.badval
 
-        val = self.post_processing_fn(self.cst + np.dot(depths, self.model_arr))
+        val = self.post_processing_fn(self.cst + np.dot(depths, self.model_arr)[0, 0])
         return val
 
 
@@ -302,7 +302,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
             cst = model_dict["cst"] if "cst" in model_dict else 0.0
 
-            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths, model_arr))
+            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths, model_arr)[0])
 
         # returns array where each element of the original
         # input arr_of_model_dicts contains a scalar value resulting
-- 
2.43.0


From 98316a98f31dd2982dac6065cfaa8aa34471ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:46 +0000
Subject: [PATCH 027/233] fix: Sed.multiply_sed and Sed.renormalize_sed raised
 AttributeError without wavelen_step

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..71aac28 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1146,7 +1146,7 @@ class Sed:
         """
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
@@ -1430,7 +1430,7 @@ class Sed:
         # Start normalizing wavelen/flambda.
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         if normflux == "flambda":
             update_self = self._check_use_self(wavelen, flambda)
-- 
2.43.0


From f771e36e1cf826de76e2a16075aaf6ec52a8595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:46 +0000
Subject: [PATCH 028/233] fix: Sed.clear_sed changed the zeropoint of the
 magnitudes

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 71aac28..57f9d17 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -652,7 +652,7 @@ class Sed:
         self.wavelen = None
         self.fnu = None
         self.flambda = None
-        self.zp = -8.9
+        self.zp = -2.5 * numpy.log10(3631)
         self.name = None
         return
 
-- 
2.43.0


From fd5dedafe62a2844dcbc9aa1300c27c7876c7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:46 +0000
Subject: [PATCH 029/233] fix: the SED cache file could not be read back with
 numpy 2

---
 rubin_sim/phot_utils/sed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 57f9d17..939bc29 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -103,6 +103,7 @@ class SedUnpickler(pickle.Unpickler):
         ("numpy", "ndarray"),
         ("numpy", "dtype"),
         ("numpy.core.multiarray", "_reconstruct"),
+        ("numpy._core.multiarray", "_reconstruct"),
     )
 
     def find_class(self, module, name):
@@ -126,8 +127,8 @@ class SedUnpickler(pickle.Unpickler):
                 return getattr(numpy, name)
             else:
                 raise RuntimeError("SedUnpickler not meant to load numpy.%s" % name)
-        elif module == "numpy.core.multiarray":
-            return getattr(numpy.core.multiarray, name)
+        elif module in ("numpy.core.multiarray", "numpy._core.multiarray"):
+            return super().find_class(module, name)
         else:
             raise RuntimeError("SedUnpickler cannot handle module %s" % module)
 
-- 
2.43.0


From e9304b56d6ef498c642963d5df0d7ce8c48b609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:03 +0000
Subject: [PATCH 030/233] fix: read_close__kurucz always raised with numpy 2

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 939bc29..aeef8d3 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1759,9 +1759,9 @@ def read_close__kurucz(teff, fe_h, logg):
     logg_diff = numpy.abs(read_close__kurucz.param_combos["logg"][g1][g2] - logg)
     g3 = numpy.where(logg_diff == logg_diff.min())[0]
     file_match = read_close__kurucz.param_combos["filename"][g1][g2][g3]
-    if numpy.size(file_match > 1):
+    if numpy.size(file_match) > 1:
         warnings.warn("Multiple close files")
-        file_match = file_match[0]
+    file_match = file_match[0]
 
     # Record what Parameters were actually loaded
     teff = read_close__kurucz.param_combos["teff"][g1][g2][g3][0]
-- 
2.43.0


From f4dc50c4f5f5b4cc3a440176fff23b086267df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:03 +0000
Subject: [PATCH 031/233] fix: the dust laws were zero at 5.9 per micron

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index aeef8d3..3253438 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -982,7 +982,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
@@ -1044,7 +1044,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
-- 
2.43.0


From 5214298185bc7f82e60decc118dc933cdd9b5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:18 +0000
Subject: [PATCH 032/233] fix: Sed.renormalize_sed could not normalise fnu

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 3253438..ec2112a 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1503,7 +1503,7 @@ class Sed:
                     + "is outside defined wavelength range."
                 )
             if gap == 0:
-                fnu_atpt = numpy.interp(lambdanorm, wavelen, flambda, left=None, right=None)
+                fnu_atpt = numpy.interp(lambdanorm, wavelen, fnu, left=None, right=None)
                 gapval = fnu_atpt
             else:
                 lambdapt = numpy.arange(lambdanorm - gap, lambdanorm + gap, wavelen_step, dtype=float)
@@ -1517,7 +1517,7 @@ class Sed:
                 )
             konst = normvalue / gapval
             fnu = fnu * konst
-            wavelen, flambda = self.fnutoflambda(wavelen, fnu)
+            wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From f8c3fcd0b37f0af8c2b487a02c12af5abc9e5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:18 +0000
Subject: [PATCH 033/233] fix: Sed.write_sed wrote the wrong fnu column or
 raised IndexError

---
 rubin_sim/phot_utils/sed.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ec2112a..fffec95 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1566,7 +1566,6 @@ class Sed:
             print("# Wavelength(nm)  Flambda(ergs/cm^s/s/nm)", file=f)
         for i in range(0, len(wavelen), 1):
             if print_fnu:
-                fnu = self.flambda_tofnu(wavelen=wavelen, flambda=flambda)
                 print(wavelen[i], flambda[i], fnu[i], file=f)
             else:
                 print("%.2f %.7g" % (wavelen[i], flambda[i]), file=f)
-- 
2.43.0


From dbe957a516ec5c6cb456fb30a21b6f061e8c262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:25 +0000
Subject: [PATCH 034/233] fix: Sed.setup_phi_array failed for wavelength steps
 that do not sum exactly

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index fffec95..c6f59cb 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1594,7 +1594,7 @@ class Sed:
         phiarray = numpy.empty(
             (
                 len(bandpasslist),
-                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step, wavelen_step)),
+                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step / 2.0, wavelen_step)),
             ),
             dtype="float",
         )
-- 
2.43.0


From 7aced20e44146c9ed9a1117bc3b4f27d9127c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:35 +0000
Subject: [PATCH 035/233] fix: products of spectra or throughputs on grids of
 different length raised ValueError

---
 rubin_sim/phot_utils/bandpass.py | 2 +-
 rubin_sim/phot_utils/sed.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 02abb87..7ca0a85 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -339,7 +339,7 @@ class Bandpass:
         This method does not affect self.
         """
         # Resample wavelen_other/sb_other to match this bandpass.
-        if not np.all(self.wavelen == wavelen_other):
+        if not np.array_equal(self.wavelen, wavelen_other):
             wavelen_other, sb_other = self.resample_bandpass(
                 wavelen=wavelen_other,
                 sb=sb_other,
diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index c6f59cb..1b20737 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1151,7 +1151,7 @@ class Sed:
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
-        if numpy.all(self.wavelen == other_sed.wavelen):
+        if numpy.array_equal(self.wavelen, other_sed.wavelen):
             flambda = self.flambda * other_sed.flambda
             new_sed = Sed(self.wavelen, flambda=flambda)
         else:
-- 
2.43.0


From 8251001674867d1688830f2010c0d1bf50cdabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:35 +0000
Subject: [PATCH 036/233] fix: Bandpass.read_throughput raised AttributeError
 when given a list of files

---
 rubin_sim/phot_utils/bandpass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 7ca0a85..c0d6ab2 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -146,6 +146,7 @@ class Bandpass:
                 "Was given list of files, instead of a single file. Using read_throughputList instead"
             )
             self.read_throughput_list(component_list=filename)
+            return
         # Filename is single file, now try to open file and read data.
         try:
             if filename.endswith(".gz"):
-- 
2.43.0


From f8db52cd60884003b567a14b4013a0f674cd1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:59 +0000
Subject: [PATCH 037/233] fix: calc_m5 solved the wrong quadratic for gain
 other than 1

C^2 = 25 (C/g + V) has the discriminant 625/(4 g^2) + 25 V.
---
 rubin_sim/phot_utils/signaltonoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/signaltonoise.py b/rubin_sim/phot_utils/signaltonoise.py
index fcaab27..6497b76 100644
--- a/rubin_sim/phot_utils/signaltonoise.py
+++ b/rubin_sim/phot_utils/signaltonoise.py
@@ -292,7 +292,7 @@ def calc_m5(skysed, total_bandpass, hardware, phot_params, fwhm_eff=0.83):
     v_n = calc_total_non_source_noise_sq(skysed, hardware, phot_params, fwhm_eff)
 
     counts_5sigma = (snr**2) / 2.0 / phot_params.gain + numpy.sqrt(
-        (snr**4) / 4.0 / phot_params.gain + (snr**2) * v_n
+        (snr**4) / 4.0 / phot_params.gain**2 + (snr**2) * v_n
     )
 
     # renormalize flatsource so that it has the required counts to be a
-- 
2.43.0


From 1c90552a4536576ed2797c1b5e75ece0a3ab8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:19 +0000
Subject: [PATCH 038/233] fix: ChebyFits.write(append=True) raised ValueError

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a056d31..6814d45 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -605,7 +605,7 @@ class ChebyFits:
         )
 
         if append:
-            open_mode = "aw"
+            open_mode = "a"
         else:
             open_mode = "w"
         # Write a header to the coefficients file, if writing to a new file:
-- 
2.43.0


From 38456528a2fee4bd01179a856d41f14896681ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:19 +0000
Subject: [PATCH 039/233] fix: ChebyFits recorded the distance residual as the
 magnitude residual

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 6814d45..b0ff0fa 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -534,7 +534,7 @@ class ChebyFits:
                 self.resids["t_end"].append(t_segment_end)
                 self.resids["pos"].append(max_pos_resid)
                 self.resids["geo_dist"].append(max_resids["geo_dist"])
-                self.resids["vmag"].append(max_resids["geo_dist"])
+                self.resids["vmag"].append(max_resids["vmag"])
                 self.resids["elongation"].append(max_resids["elongation"])
 
     def _subdivide_segment(self, orbit_obj, ephs):
-- 
2.43.0


From 311d72e43b60fc08b767731a878224ec20d3047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:19 +0000
Subject: [PATCH 040/233] fix: ChebyFits raised AttributeError instead of
 reporting an impossible segment length

---
 rubin_sim/moving_objects/cheby_fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index b0ff0fa..8f00073 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -276,7 +276,7 @@ class ChebyFits:
             counter += 1
         if (self.t_span % length) > num_tolerance or (length <= 0):
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].to_numpy():
                 self.failed.append((obj_id, self.t_start, self.t_end))
             raise ValueError(
                 "Could not find a suitable length for the timespan (start %f, span %f), "
@@ -380,7 +380,7 @@ class ChebyFits:
             counter += 1
         if counter > max_iterations or length <= 0:
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].to_numpy():
                 self.failed.append((obj_id, self.t_start, self.t_end))
             error_message = "Could not find good segment length to meet skyTolerance %f" % (
                 self.sky_tolerance
-- 
2.43.0


From 2bdff12b13b31c1442b56a67d05949b9a19ee46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:19 +0000
Subject: [PATCH 041/233] fix: ChebyValues raised TypeError when coefficients
 are missing

---
 rubin_sim/moving_objects/cheby_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..f865fc5 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -53,7 +53,7 @@ class ChebyValues:
         # Check that expected values were received.
         missing_keys = set(self.coeff_keys) - set(self.coeffs)
         if len(missing_keys) > 0:
-            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list[missing_keys]))
+            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list(missing_keys)))
         self.coeffs["meanRA"] = self.coeffs["ra"].swapaxes(0, 1)[0]
         self.coeffs["meanDec"] = self.coeffs["dec"].swapaxes(0, 1)[0]
 
-- 
2.43.0


From b3d3fe01d49a866dd4ecf725d973e41dbdb438dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:45 +0000
Subject: [PATCH 042/233] fix: ChebyValues.get_ephemerides gave rows of the
 wrong object and changed the caller's list

Segments were put into rows in the order in which they were found, so that
an object without a segment at that time shifted all later objects, and
missing values were returned as zeros.
---
 rubin_sim/moving_objects/cheby_values.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index f865fc5..b1aa3dd 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -190,11 +190,15 @@ class ChebyValues:
             if isinstance(obj_ids, str) or isinstance(obj_ids, int):
                 obj_ids = np.array([obj_ids])
             obj_match = np.isin(self.coeffs["obj_id"], obj_ids)
-            ephemerides["obj_id"] = obj_ids
+            if not np.all(np.isin(obj_ids, self.coeffs["obj_id"])):
+                raise ValueError(
+                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
+                )
+            ephemerides["obj_id"] = np.array(obj_ids)
         # Now find ephemeris values.
         ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
         for k in self.ephemeris_keys:
-            ephemerides[k] = np.zeros((len(ephemerides["obj_id"]), ntimes), float)
+            ephemerides[k] = np.full((len(ephemerides["obj_id"]), ntimes), np.nan)
         for it, t in enumerate(times):
             # Find subset of segments which contain the appropriate time.
             # Look for simplest subset first.
@@ -218,14 +222,10 @@ class ChebyValues:
                     # Not extrapolating, but outside the
                     # simple match case above.
                     segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-            for i, segmentIdx in enumerate(segments):
+            for segmentIdx in segments:
                 ephemeris = self._eval_segment(segmentIdx, t, obj_match, mask=False)
+                # Each segment fills the row of its own object.
+                i = np.where(ephemerides["obj_id"] == self.coeffs["obj_id"][obj_match][segmentIdx])[0]
                 for k in self.ephemeris_keys:
-                    ephemerides[k][i][it] = ephemeris[k]
-                ephemerides["obj_id"][i] = self.coeffs["obj_id"][obj_match][segmentIdx]
-        if obj_ids is not None:
-            if set(ephemerides["obj_id"]) != set(obj_ids):
-                raise ValueError(
-                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
-                )
+                    ephemerides[k][i, it] = ephemeris[k]
         return ephemerides
-- 
2.43.0


From 984da5f062adea9565655238e5baa2002c16bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:45 +0000
Subject: [PATCH 043/233] fix: ChebyFits left gaps between segments when the
 time steps do not sum exactly

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 8f00073..b59c4cb 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -480,7 +480,7 @@ class ChebyFits:
                 # which are relevant for this segment
                 # (at the default segment size).
                 t_segment_end = round(t_segment_start + self.length, self.n_decimal)
-                subset = np.where((times >= t_segment_start) & (times < t_segment_end + eps))
+                subset = np.where((times > t_segment_start - eps) & (times < t_segment_end + eps))
                 self.calc_one_segment(orbit_obj, e[subset])
                 t_segment_start = t_segment_end
 
-- 
2.43.0


From 1f9041fd0f96e58ebacd283243d89f91dad3f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:55 +0000
Subject: [PATCH 044/233] fix: DirectObs raised ValueError when only one visit
 was near an object

---
 rubin_sim/moving_objects/base_obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..d3ba1d8 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -371,7 +371,7 @@ class BaseObs:
                 obs_data[self.obs_ra],
                 obs_data[self.obs_dec],
             )
-        idx_obs = np.where(sep <= r_fov)[0]
+        idx_obs = np.where(np.atleast_1d(sep) <= r_fov)[0]
         return idx_obs
 
     def sso_in_rectangle_fov(self, ephems, obs_data):
-- 
2.43.0


From fc0803ef617d8e2ef9d97db9a7a140c5e2dc0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:32 +0000
Subject: [PATCH 045/233] fix: the rectangular footprint missed objects on the
 other side of RA 0

---
 rubin_sim/moving_objects/base_obs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index d3ba1d8..3b8000e 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -396,7 +396,9 @@ class BaseObs:
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
         delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        # Difference in RA, across 0/360.
+        delta_ra = (ephems["ra"] - obs_data[self.obs_ra] + 180.0) % 360.0 - 180.0
+        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_data[self.obs_dec])))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From 3d24d760c92cf411d8621a3275b12d1ee04b51bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:32 +0000
Subject: [PATCH 046/233] fix: the rectangular footprint ignored
 obs_degrees=False

---
 rubin_sim/moving_objects/base_obs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 3b8000e..ede0b79 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,10 +395,15 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
+        obs_ra = obs_data[self.obs_ra]
+        obs_dec = obs_data[self.obs_dec]
+        if not self.obs_degrees:
+            obs_ra = np.degrees(obs_ra)
+            obs_dec = np.degrees(obs_dec)
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
         # Difference in RA, across 0/360.
-        delta_ra = (ephems["ra"] - obs_data[self.obs_ra] + 180.0) % 360.0 - 180.0
-        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_data[self.obs_dec])))
+        delta_ra = (ephems["ra"] - obs_ra + 180.0) % 360.0 - 180.0
+        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_dec)))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From a3069247a03d3b6af0531ab74d26e6704821b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:25 +0000
Subject: [PATCH 047/233] fix: Orbits with the same object ids compared equal
 whatever their elements

---
 rubin_sim/moving_objects/orbits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index e33f0bf..77f95f9 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -81,10 +81,9 @@ class Orbits:
             if self.orb_format != other_orbits.orb_format:
                 return False
             for col in self.data_cols[self.orb_format]:
-                if not np.all(self.orbits[col].values == other_orbits.orbits[col].values):
+                if not np.array_equal(self.orbits[col].values, other_orbits.orbits[col].values):
                     return False
-                else:
-                    return True
+            return True
         else:
             return False
 
-- 
2.43.0


From 0f66f41f79b8197507fa6a876cfea0a48f20e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:25 +0000
Subject: [PATCH 048/233] fix: Orbits did not recognise S3MID and objid(int)
 columns

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 77f95f9..4ce61ab 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -428,7 +428,8 @@ class Orbits:
             "!!OID",
             "!!S3MID",
             "OID",
-            "S3MID" "objid(int)",
+            "S3MID",
+            "objid(int)",
             "full_name",
             "#name",
         ]
-- 
2.43.0


From 98f2a9af2ab31bf6f68986d16279dfdc290fbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:25 +0000
Subject: [PATCH 049/233] fix: Orbits.read_orbits accepted the negative
 inclinations it means to refuse

---
 rubin_sim/moving_objects/orbits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 4ce61ab..d620b3b 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -482,8 +482,10 @@ class Orbits:
         if "inc" in orbits.keys():
             if np.min(orbits["inc"]) < 0:
                 negative_incs = np.where(orbits["inc"].values < 0)[0]
-                negative_ids = orbits["obj_id"].values[negative_incs]
-                ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
+                negative_ids = negative_incs
+                if "obj_id" in orbits:
+                    negative_ids = orbits["obj_id"].values[negative_incs]
+                raise ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
 
         # Validate and assign orbits to self.
         self.set_orbits(orbits)
-- 
2.43.0


From 70b56d50495de096ba4e135fce4c1e3eb2f118a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:42 +0000
Subject: [PATCH 050/233] fix: Orbits.read_orbits found no rows in a delimited
 file unless skiprows was given

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index d620b3b..964ebca 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -305,7 +305,7 @@ class Orbits:
             with open(orbit_file, "r") as fp:
                 headervalues = None
                 for line in fp:
-                    values = line.split()
+                    values = [v.strip() for v in line.split(delim)]
                     try:
                         # If it is a valid orbit line,
                         # we expect column 3 to be a number.
-- 
2.43.0


From bc3d9a41bbb56383c8181787e58ec025e19dc989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:42 +0000
Subject: [PATCH 051/233] fix: updating the elements of a single orbit lost its
 id and spectrum

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 964ebca..5600635 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -115,7 +115,7 @@ class Orbits:
         # Do we have a single item or multiples?
         if isinstance(orbits, pd.Series):
             # Passed a single SSO in Series, convert to a DataFrame.
-            orbits = pd.DataFrame([orbits])
+            orbits = pd.DataFrame([orbits]).reset_index(drop=True)
         elif isinstance(orbits, np.ndarray):
             # Passed a numpy array, convert to DataFrame.
             orbits = pd.DataFrame.from_records(orbits)
-- 
2.43.0


From b9520160baaeb5690e428449966c3ae71268be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:12 +0000
Subject: [PATCH 052/233] fix: Orbits.set_orbits raised ValueError for a single
 numpy record with current pandas

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 5600635..51428cd 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -121,7 +121,7 @@ class Orbits:
             orbits = pd.DataFrame.from_records(orbits)
         elif isinstance(orbits, np.record):
             # This was a single object in a numpy array
-            orbits = pd.DataFrame.from_records([orbits], columns=orbits.dtype.names)
+            orbits = pd.DataFrame.from_records([orbits.item()], columns=orbits.dtype.names)
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-- 
2.43.0


From afb23aad17b77fe0e4e09f6c4c573e2a3ee5fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:05 +0000
Subject: [PATCH 053/233] fix: hash the content of visits with string columns,
 not its memory addresses

---
 rubin_sim/sim_archive/vseqmetadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6e4fcb0..b91a929 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -47,7 +47,12 @@ psycopg2.extras.register_uuid()
 def compute_visits_sha256(visits: pd.DataFrame) -> bytes:
     recs = visits.to_records()
     visitseq_hash = hashlib.sha256(str(recs.dtype).encode())
-    visitseq_hash.update(np.ascontiguousarray(recs).data.tobytes())
+    if recs.dtype.hasobject:
+        # The buffer of a record array with (for example) string columns
+        # holds the addresses of the values rather than the values.
+        visitseq_hash.update(repr(recs.tolist()).encode())
+    else:
+        visitseq_hash.update(np.ascontiguousarray(recs).data.tobytes())
     visitseq_sha256 = bytes.fromhex(visitseq_hash.hexdigest())
     return visitseq_sha256
 
-- 
2.43.0


From e33d899bb4da087b553621436c004971aa58cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:05 +0000
Subject: [PATCH 054/233] fix: insert_nightly_stats kept a pooled connection on
 each call

---
 rubin_sim/sim_archive/vseqmetadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index b91a929..aeb75a8 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1301,8 +1301,7 @@ class VisitSequenceArchiveMetadata:
 
         # pandas to_sql fails with the native psycopg2, only
         # works with sqlalchemy
-        engine = sqlalchemy.create_engine("postgresql+psycopg2://", creator=self.pg_pool.getconn)
-        with engine.connect() as conn:
+        with self.sa_engine.connect() as conn:
             num_rows_added = stats_df.to_sql(
                 "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
             )
-- 
2.43.0


From a10dae79c88b73816fe4c06dfa138898138ef934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:05 +0000
Subject: [PATCH 055/233] fix: selecting simulations by night without tags
 failed on a malformed query

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index aeb75a8..6091f33 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1478,7 +1478,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
@@ -1565,7 +1565,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
-- 
2.43.0


From c8df82f95845ef7d4581cd52af4e4026d8c5e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:05 +0000
Subject: [PATCH 056/233] fix: record_conda_env did not refuse half an
 environment

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6091f33..69162cb 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1370,7 +1370,7 @@ class VisitSequenceArchiveMetadata:
             ``None`` (the default) uses the current
             conda environment.
         """
-        if conda_env_hash is None != conda_env_json is None:
+        if (conda_env_hash is None) != (conda_env_json is None):
             raise ValueError("conda_env_hash and conda_env_json must both be set, or neither.")
 
         if conda_env_hash is None:
-- 
2.43.0


From c8690eebc3537eb7a77bd7613b91b1864e150ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:05 +0000
Subject: [PATCH 057/233] fix: record_simulation_metadata failed on an integer
 parent_last_day_obs

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 69162cb..5fc0562 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -710,7 +710,7 @@ class VisitSequenceArchiveMetadata:
 
         if parent_last_day_obs is not None:
             set_clauses.append(make_set_clause("parent_last_day_obs"))
-            data["parent_last_day_obs"] = parent_last_day_obs
+            data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
         num_columns_to_update = len(set_clauses)
 
-- 
2.43.0


From 57e063877f528c1fe8c5559e324312d404c4a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:52 +0000
Subject: [PATCH 058/233] fix: sim_metadata_yaml wrote the simulated nights
 where and how readers cannot use them

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 5fc0562..9ceecf6 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1718,11 +1718,11 @@ class VisitSequenceArchiveMetadata:
             metadata["creation_time"] = metadata_seq["creation_time"].isoformat()
 
         if metadata_seq.first_day_obs is not None or metadata_seq.last_day_obs is not None:
-            metadata["simulation_dates"] = {}
+            metadata["simulated_dates"] = {}
             if metadata_seq.first_day_obs is not None:
-                metadata["simulation_dates"]["first"] = metadata_seq.first_day_obs
+                metadata["simulated_dates"]["first"] = metadata_seq.first_day_obs.isoformat()
             if metadata_seq.last_day_obs is not None:
-                metadata["simulation_dates"]["last"] = metadata_seq.last_day_obs
+                metadata["simulated_dates"]["last"] = metadata_seq.last_day_obs.isoformat()
 
         if metadata_seq.files is not None:
             metadata["files"] = {}
-- 
2.43.0


From a908ae92c6a1428f315c7fb1c2a82855ec4ae50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:28 +0000
Subject: [PATCH 059/233] fix: creation and comment times were shifted unless
 the database session was in UTC

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 9ceecf6..3432c36 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -484,7 +484,7 @@ class VisitSequenceArchiveMetadata:
                 creation_datetime = creation_utc.datetime
             columns.append(sql.Identifier("creation_time"))
             data_placeholders.append(sql.Placeholder("creation_time"))
-            data["creation_time"] = creation_datetime
+            data["creation_time"] = creation_datetime.replace(tzinfo=timezone.utc)
 
         query = sql.SQL("INSERT INTO {}.{} ({}) VALUES ({}) RETURNING visitseq_uuid").format(
             sql.Identifier(self.metadata_db_schema),
@@ -1034,7 +1034,7 @@ class VisitSequenceArchiveMetadata:
         # mypy cannot figure out that comment_utc cannot be masked
         # so assert that it is not as a hint to it.
         assert isinstance(comment_utc, Time)
-        comment_time = comment_utc.datetime
+        comment_time = comment_utc.to_datetime(timezone=timezone.utc)
         query = ""
         data = {"visitseq_uuid": visitseq_uuid, "comment_time": comment_time, "comment": comment}
         if author is None:
-- 
2.43.0


From a55c1d7b616e68f7f2db23b5cad93e606e30e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:48 +0000
Subject: [PATCH 060/233] fix: import_sim_from_yaml ignored the creation time
 in the metadata

---
 rubin_sim/sim_archive/vseqmetadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 3432c36..bc31be7 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1606,8 +1606,13 @@ class VisitSequenceArchiveMetadata:
         label = sim_archive_metadata["label"]
         record_sim_kwargs = {"label": label}
 
-        # The prenight labels usually end in the creation time.
-        if " ".join(label.split()[-3:-1]) == "run at":
+        # If it is not explicit, the prenight labels usually end in the
+        # creation time.
+        if "creation_time" in sim_archive_metadata:
+            record_sim_kwargs["creation_time"] = Time(
+                datetime.fromisoformat(str(sim_archive_metadata["creation_time"]))
+            )
+        elif " ".join(label.split()[-3:-1]) == "run at":
             maybe_date_str = label.split()[-1]
             try:
                 record_sim_kwargs["creation_time"] = Time(datetime.fromisoformat(maybe_date_str))
-- 
2.43.0


From d3b7567bea4dcaecfeb72a3394d61c5fc817962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:48 +0000
Subject: [PATCH 061/233] fix: add_file overwrote the archived file before
 refusing to replace it

---
 rubin_sim/sim_archive/vseqarchive.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 5b4c33e..be60510 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -211,6 +211,15 @@ def add_file(
             location = add_file(vsarch, uuid, new_origin, "visits", archive_base, update)
         return location
 
+    if file_type != "visits" and not update:
+        # Refuse before the content of the registered file is overwritten.
+        try:
+            vsarch.get_file_url(uuid, file_type)
+        except ValueError:
+            pass
+        else:
+            raise ValueError(f"A file of type {file_type} is already registered for {uuid}")
+
     location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
     if file_type == "visits":
         vsarch.set_visitseq_url(uuid, location.geturl())
-- 
2.43.0


From b58b7f755c11d27cf561724e0dd88543ec5a59df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:48 +0000
Subject: [PATCH 062/233] fix: dayobs_to_date failed on times that are not in
 the UTC scale

---
 rubin_sim/sim_archive/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/util.py b/rubin_sim/sim_archive/util.py
index 9f58ef4..d6cebb7 100644
--- a/rubin_sim/sim_archive/util.py
+++ b/rubin_sim/sim_archive/util.py
@@ -34,7 +34,7 @@ def dayobs_to_date(dayobs: str | date | int | Time) -> date:
         case Time():
             # Pacify type checkers
             assert isinstance(dayobs, Time)
-            dayobs_dt = dayobs.to_datetime(timezone=timezone(timedelta(hours=-12)))
+            dayobs_dt = dayobs.utc.to_datetime(timezone=timezone(timedelta(hours=-12)))
             if isinstance(dayobs_dt, datetime):
                 dayobs = dayobs_dt.date()
             else:
-- 
2.43.0


From 2c1fa3dc1dedf2879f128f39209745c112cc4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:33 +0000
Subject: [PATCH 063/233] fix: get_sim_metadata failed on ISO date strings

---
 rubin_sim/sim_archive/prenightindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index e81f6dc..b2f418f 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -381,6 +381,10 @@ def _get_sim_metadata_from_metadata_index(
         simulations are found with the same UUID (indicating a problem in the
         metadata database).
     """
+    # Accept ISO style string for day_obs
+    if isinstance(day_obs, str):
+        day_obs = day_obs.replace("-", "")
+
     day_obs = int(
         f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
     )
-- 
2.43.0


From 385746cf00f4c4b1d1a8d171a700b32927936ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:33 +0000
Subject: [PATCH 064/233] fix: get_sim_uuid never found simulations in indexes
 read from the bucket

---
 rubin_sim/sim_archive/prenightindex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index b2f418f..5ff01fe 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -291,7 +291,10 @@ def _get_sim_uuid_from_metadata_index(
 
     for telescope in TELESCOPES:
         prenight_index = get_prenight_index(day_obs, telescope, **kwargs)
-        matching_sims = (prenight_index.sim_creation_day_obs == sim_date) & (
+        if len(prenight_index) == 0:
+            continue
+        # Dates are strings in indexes read from the bucket.
+        matching_sims = (prenight_index.sim_creation_day_obs.astype(str) == str(sim_date)) & (
             prenight_index.daily_id == int(daily_id)
         )
         if np.any(matching_sims):
-- 
2.43.0


From 4918d63660ee17303cba8a9ff659b5f962b8b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:33 +0000
Subject: [PATCH 065/233] fix: scheduler configurations with a get_scheduler
 function could not be loaded

---
 rubin_sim/sim_archive/make_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/make_snapshot.py b/rubin_sim/sim_archive/make_snapshot.py
index 2630c67..605d05a 100644
--- a/rubin_sim/sim_archive/make_snapshot.py
+++ b/rubin_sim/sim_archive/make_snapshot.py
@@ -66,7 +66,7 @@ def get_scheduler_from_config(config_script_path: str | Path) -> typing.Tuple[in
     try:
         scheduler: CoreScheduler = config_module.scheduler
         nside: int = scheduler.nside
-    except NameError:
+    except (AttributeError, NameError):
         nside, scheduler = config_module.get_scheduler()
         assert isinstance(nside, int)
         assert isinstance(scheduler, CoreScheduler)
-- 
2.43.0


From ee3f48b795d67478f102390d4a8315357b074a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:59 +0000
Subject: [PATCH 066/233] fix: fetch_sim_for_nights changed the stackers it was
 given, and refused tuples

---
 rubin_sim/sim_archive/sim_archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..ec8628f 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -471,7 +471,9 @@ def fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+
+    # Use a copy, so that the collection from the caller is not changed.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
-- 
2.43.0


From 06ccbc4f54a315b88cdf42de21d77522bf442e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:59 +0000
Subject: [PATCH 067/233] fix: fetch_sim_stats_for_night failed on nights
 without visits

---
 rubin_sim/sim_archive/sim_archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index ec8628f..f7ef4a0 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -688,7 +688,8 @@ def fetch_sim_stats_for_night(
         visits = get_visits(sim["visitseq_url"])
         columns = [c for c in visits.columns if is_numeric_dtype(visits[c])]
         stats_df = compute_nightly_stats(visits, columns=tuple(columns))
-        dayobs_stats_df = stats_df.set_index("day_obs").loc[date.fromisoformat(day_obs), :]
+        dayobs_stats_df = stats_df.loc[stats_df["day_obs"] == date.fromisoformat(day_obs), :]
+        dayobs_stats_df = dayobs_stats_df.drop(columns="day_obs")
         stats_maybe = dayobs_stats_df.set_index("value_name").to_dict(orient="index")
         stats = cast(dict[str, Any], stats_maybe) if isinstance(stats_maybe, dict) else {}
 
-- 
2.43.0


From 6e182c64e2c93369a85d95e977f0633871749211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 068/233] fix: SaturationStacker dropped the magnitudes of
 visits in other bands

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..989f1e3 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -114,7 +114,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[remaining_counts_peak < 0]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From c9854408d6b220f90d424912768acad20521dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 069/233] fix: SaturationStacker failed when given zeropoints
 only

---
 rubin_sim/maf/stackers/general_stackers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 989f1e3..bd35a2a 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -81,11 +81,12 @@ class SaturationStacker(BaseStacker):
         self.km = km
 
     def _run(self, sim_data, cols_present=False):
-        if self.zeropoints is None:
+        if self.zeropoints is None or self.km is None:
             zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
-        if self.km is None:
-            self.km = k_atm
+            if self.zeropoints is None:
+                self.zeropoints = zp_inst
+            if self.km is None:
+                self.km = k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
-- 
2.43.0


From 86b367cac98205b7c21f17aa699a11c64c861085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 070/233] fix: stackers recorded the wrong units for angles

---
 rubin_sim/maf/stackers/coord_stackers.py   | 5 +----
 rubin_sim/maf/stackers/general_stackers.py | 4 ++--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..0e2299a 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -96,10 +96,7 @@ class GalacticStacker(BaseStacker):
         self.ra_col = ra_col
         self.dec_col = dec_col
         self.degrees = degrees
-        if self.degrees:
-            self.units = ["degrees", "degrees"]
-        else:
-            self.units = ["radians", "radians"]
+        self.units = ["radians", "radians"]
 
     def _run(self, sim_data, cols_present=False):
         # raCol and DecCol in radians, gall/b in radians.
diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index bd35a2a..bb0a3af 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -279,7 +279,7 @@ class ZenithDistStacker(BaseStacker):
         if self.degrees:
             self.units = ["degrees"]
         else:
-            self.unit = ["radians"]
+            self.units = ["radians"]
         self.cols_req = [self.alt_col]
 
     def _run(self, sim_data, cols_present=False):
@@ -738,7 +738,7 @@ class ParallacticAngleStacker(BaseStacker):
         self.degrees = degrees
         self.mjd_col = mjd_col
         self.site = Site(name=site)
-        self.units = ["radians"]
+        self.units = ["degrees"] if self.degrees else ["radians"]
         self.cols_req = [self.ra_col, self.dec_col, self.mjd_col, self.lst_col]
         self.ha_stacker = HourAngleStacker(lst_col=lst_col, ra_col=ra_col, degrees=self.degrees)
 
-- 
2.43.0


From c08c6de75a9bddac410b7c4dc1ba79cadc994140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 071/233] fix: Dcr2Stacker failed when given a zenith distance
 stacker

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index bb0a3af..eeceb38 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -591,7 +591,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
-- 
2.43.0


From 760615944d9748bc25df28105dfa34409500c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 072/233] fix: EclipticStacker could not subtract the longitude
 of the Sun

---
 rubin_sim/maf/stackers/coord_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index 0e2299a..9f0d7a4 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -173,7 +173,7 @@ class EclipticStacker(BaseStacker):
             sim_data["eclipLat"] = coord_ecl.lat.rad
 
             if self.subtract_sun_lon:
-                times = Time(sim_data[self.mjd_col])
+                times = Time(sim_data[self.mjd_col], format="mjd")
                 sun = get_sun(times)
                 sun_ecl = sun.geocentricmeanecliptic
                 lon = wrap_ra(coord_ecl.lon.rad - sun_ecl.lon.rad)
-- 
2.43.0


From c438c2ed1c78f92cc8f127df87e14c423157ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 073/233] fix: NFollowStacker swapped latitudes and longitudes
 of observatories

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From 2743325089d636b33e6067f7db2a7929597602ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 074/233] fix: WFDlabelStacker failed on a single visit

---
 rubin_sim/maf/stackers/label_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/label_stackers.py b/rubin_sim/maf/stackers/label_stackers.py
index 5b51851..ca77b34 100644
--- a/rubin_sim/maf/stackers/label_stackers.py
+++ b/rubin_sim/maf/stackers/label_stackers.py
@@ -89,7 +89,7 @@ class WFDlabelStacker(BaseStacker):
                 d.add(self.define_ddname(p))
         # Identify Healpixels associated with each visit.
         vec = hp.dir2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
-        vec = vec.swapaxes(0, 1)
+        vec = vec.reshape(3, -1).swapaxes(0, 1)
         radius = np.radians(1.75)  # fov radius
         area_id = np.zeros(len(sim_data), self.cols_added_dtypes[0])
         for i, (v, note) in enumerate(zip(vec, sim_data[self.note_col])):
-- 
2.43.0


From 6ccc5a59c65f4af2afbdf08a7b258bfd1e3365a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 075/233] fix: stackers with public methods were never equal

---
 rubin_sim/maf/stackers/base_stacker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/stackers/base_stacker.py b/rubin_sim/maf/stackers/base_stacker.py
index 1702e0f..4742529 100644
--- a/rubin_sim/maf/stackers/base_stacker.py
+++ b/rubin_sim/maf/stackers/base_stacker.py
@@ -100,6 +100,9 @@ class BaseStacker(metaclass=StackerRegistry):
             if not key.startswith("_") and key != "registry" and key != "run" and key != "next":
                 if not hasattr(other_stacker, key):
                     return False
+                # Methods are never equal for different instances.
+                if inspect.ismethod(getattr(self, key)):
+                    continue
                 # If the attribute is from numpy, assume it's an array
                 # and test it
                 if type(getattr(self, key)).__module__ == np.__name__:
-- 
2.43.0


From dff9420154230f610c4dbda6e5d05d61f699120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 076/233] fix: the zeropoint of a bandpass sampled more
 coarsely than the default was NaN

---
 rubin_sim/phot_utils/bandpass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index c0d6ab2..c432dfe 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -376,8 +376,8 @@ class Bandpass:
         self.wavelen[1] - self.wavelen[0]
         # Set up flat source of arbitrary brightness,
         # but where the units of fnu are Jansky (for AB mag zeropoint = -8.9).
-        flatsource = Sed()
-        flatsource.set_flat_sed()
+        # The wavelengths match the bandpass, so that all of it is covered.
+        flatsource = Sed(wavelen=self.wavelen, fnu=np.full(len(self.wavelen), 3631.0))
         adu = flatsource.calc_adu(self, phot_params=photometric_parameters)
         # Scale fnu so that adu is 1 count/expTime.
         flatsource.fnu = flatsource.fnu * (1 / adu)
-- 
2.43.0


From 6d7a6b380461a3033f01d98fc928447d607f52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 077/233] fix: TotalPowerMetric was NaN with masked pixels and
 kept the monopole

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 89eb1c6..c903436 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -74,13 +74,14 @@ class TotalPowerMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
         # Calculate the power spectrum.
-        data = data_slice[self.colname]
+        data = np.array(data_slice[self.colname], dtype=float)
+        # Masked pixels have to be hp.UNSEEN, for healpy to ignore them.
+        data[~np.isfinite(data) | (data == self.mask_val)] = hp.UNSEEN
         if self.remove_monopole:
-            data = hp.remove_monopole(data, verbose=False, bad=self.mask_val)
+            data = hp.remove_monopole(data, verbose=False)
         if self.remove_dipole:
-            cl = hp.anafast(hp.remove_dipole(data_slice[self.colname]))
-        else:
-            cl = hp.anafast(data_slice[self.colname])
+            data = hp.remove_dipole(data, verbose=False)
+        cl = hp.anafast(data)
         ell = np.arange(np.size(cl))
         condition = np.where((ell <= self.lmax) & (ell >= self.lmin))[0]
         totalpower = np.sum(cl[condition] * (2 * ell[condition] + 1))
-- 
2.43.0


From 3e26005d232f95bea78601012f69727227c9e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 078/233] fix: StaticProbesFoMEmulatorMetricSimple always
 failed

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index c903436..c2b6852 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -122,8 +122,7 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
     def __init__(self, year=10, col=None, **kwargs):
 
         super().__init__(col=col, **kwargs)
-        if col is None:
-            self.col = "metricdata"
+        self.col = "metricdata" if col is None else col
         self.year = year
         # Set a mask_val so that all metric data is passed
         # for summary calculation, even masked values.
@@ -171,7 +170,7 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             ]
 
         elif self.year == 6:
-            areas = [10000, 15000, 2000]
+            areas = [10000, 15000, 20000]
             depths = [25.9, 26.1, 26.3]
             fom_arr = [
                 [2.346060e02, 2.414678e02, 2.852043e02],
@@ -192,10 +191,8 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             return self.badval
 
         # Interpolate FoM to the actual values for this sim
-        areas = [[i] * 3 for i in areas]
-        depths = [depths] * 3
-        f = interpolate.RectBivateateSpline(np.ravel(areas), np.ravel(depths), np.ravel(fom_arr))
-        fom = f(area, median_depth)[0]
+        f = interpolate.RectBivariateSpline(areas, depths, fom_arr, kx=1, ky=1)
+        fom = f(area, median_depth)[0, 0]
         return fom
 
 
-- 
2.43.0


From 3df154ff421c79f2bf80ebaaee6819560aedc6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:03 +0000
Subject: [PATCH 079/233] fix: AreaSummaryMetric failed when every value was
 masked

---
 rubin_sim/maf/metrics/area_summary_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/area_summary_metrics.py b/rubin_sim/maf/metrics/area_summary_metrics.py
index a889160..afcac7e 100644
--- a/rubin_sim/maf/metrics/area_summary_metrics.py
+++ b/rubin_sim/maf/metrics/area_summary_metrics.py
@@ -58,6 +58,8 @@ class AreaSummaryMetric(BaseMetric):
 
         # Only use the finite data
         data = data_slice[self.col][np.isfinite(data_slice[self.col].astype(float))]
+        if data.size == 0:
+            return self.badval
         order = np.argsort(data)
         if self.decreasing:
             order = order[::-1]
-- 
2.43.0


From 5a7ca6f82bb67d6b4108bf155cfb00c520a137dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:03 +0000
Subject: [PATCH 080/233] fix: MultibandMeanzBiasMetric used the model of the
 following year

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index c2b6852..5b79781 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -497,8 +497,8 @@ class MultibandMeanzBiasMetric(BaseMetric):
             dzdminterp = np.zeros(zbins)
 
             for z in range(zbins):
-                meanzinterp[z] = self.tomo_model["year%i" % (year + 1)]["meanz"][z][band_name]
-                dzdminterp[z] = self.tomo_model["year%i" % (year + 1)]["dz_dm5"][z][band_name]
+                meanzinterp[z] = self.tomo_model["year%i" % year]["meanz"][z][band_name]
+                dzdminterp[z] = self.tomo_model["year%i" % year]["dz_dm5"][z][band_name]
 
             return dzdminterp, meanzinterp
 
-- 
2.43.0


From 86fec5d5d236fe886844f4f0261beaf3b62ac465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 081/233] fix: ParallaxCoverageMetric failed without visits
 above the SNR limit

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 87e7584..cb25f7a 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -369,6 +369,8 @@ class ParallaxCoverageMetric(BaseMetric):
 
     def _theta_check(self, ra_pi_amp, dec_pi_amp, snr):
         good = np.where(snr >= self.snr_limit)
+        if np.size(good[0]) == 0:
+            return 0.0
         theta = np.arctan2(dec_pi_amp[good], ra_pi_amp[good])
         # Make values between 0 and 2pi
         theta = theta - np.min(theta)
-- 
2.43.0


From 00c930a141003c2c81e1c71454a18af63d0480d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 082/233] fix: ParallaxCoverageMetric misjudged the range of
 parallax angles

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index cb25f7a..f27e340 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -377,7 +377,7 @@ class ParallaxCoverageMetric(BaseMetric):
         result = 0.0
         if np.max(theta) >= self.theta_range:
             # Check that things are in different quadrants
-            theta = (theta + np.pi) % 2.0 * np.pi
+            theta = (theta + np.pi) % (2.0 * np.pi)
             theta = theta - np.min(theta)
             if np.max(theta) >= self.theta_range:
                 result = 1
-- 
2.43.0


From 6793f13165f01c28c7ab758a703255d95155216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 083/233] fix: RadiusObsMetric was NaN for visits centered on
 the slice point

---
 rubin_sim/maf/metrics/calibration_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index f27e340..e9b3e98 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -580,7 +580,8 @@ def calc_dist_cosines(ra1, dec1, ra2, dec2):
     # http://en.wikipedia.org/wiki/Great-circle_distance
     # For the purposes of these calculations, this is probably accurate enough.
     D = np.sin(dec2) * np.sin(dec1) + np.cos(dec1) * np.cos(dec2) * np.cos(ra2 - ra1)
-    D = np.arccos(D)
+    # Rounding may take this just outside of [-1, 1].
+    D = np.arccos(np.clip(D, -1, 1))
     return D
 
 
-- 
2.43.0


From ff4bd79758df1c7b1a31ab9f2b5c5b90edccefb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:40 +0000
Subject: [PATCH 084/233] fix: RadiusObsMetric recorded the wrong units

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index e9b3e98..e3247ac 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -591,7 +591,7 @@ class RadiusObsMetric(BaseMetric):
     """
 
     def __init__(
-        self, metric_name="radiusObs", ra_col="fieldRA", dec_col="fieldDec", units="radians", **kwargs
+        self, metric_name="radiusObs", ra_col="fieldRA", dec_col="fieldDec", units="degrees", **kwargs
     ):
         self.ra_col = ra_col
         self.dec_col = dec_col
-- 
2.43.0


From 22da08b7bd1b40cbb2fbc72f4d164780bf06b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:40 +0000
Subject: [PATCH 085/233] fix: ParallaxDcrDegenMetric did not request the
 filter column

---
 rubin_sim/maf/metrics/calibration_metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index e3247ac..86a40dd 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -482,6 +482,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             "dec_dcr_amp",
             seeing_col,
             m5_col,
+            filter_col,
         ]
         super(ParallaxDcrDegenMetric, self).__init__(cols, metric_name=metric_name, units=units, **kwargs)
         self.mags = {}
-- 
2.43.0


From 6f43ca3e166fdd8ebec7304af0921a6690c8caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:40 +0000
Subject: [PATCH 086/233] fix: ParallaxDcrDegenMetric was NaN for a degenerate
 fit

---
 rubin_sim/maf/metrics/calibration_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 86a40dd..97a2042 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -552,8 +552,8 @@ class ParallaxDcrDegenMetric(BaseMetric):
         perr = np.sqrt(np.diag(pcov))
         correlation = cov / (perr[0] * perr[1])
         result = correlation
-        # This can throw infs.
-        if np.isinf(result):
+        # This can throw infs or NaNs.
+        if not np.isfinite(result):
             result = self.badval
         return result
 
-- 
2.43.0


From 5a32f15b64041b06611bb14a31d52310b44967c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 087/233] fix: astrometric metrics failed with stellar
 templates

---
 rubin_sim/maf/metrics/calibration_metrics.py | 11 +++++------
 rubin_sim/maf/metrics/dcr_metric.py          |  3 +--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 97a2042..5cd5144 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -7,7 +7,6 @@ __all__ = (
 )
 
 import numpy as np
-import rubin_scheduler.utils as utils
 from scipy.optimize import curve_fit
 
 import rubin_sim.maf.utils as mafUtils
@@ -78,7 +77,7 @@ class ParallaxMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.comment = (
@@ -216,7 +215,7 @@ class ProperMotionMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.baseline = baseline
@@ -359,7 +358,7 @@ class ParallaxCoverageMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         caption = "Parallax factor coverage for an r=%.2f star (0 is bad, 0.5-1 is good). " % (rmag)
         caption += "One expects the parallax factor coverage to vary because stars on the ecliptic "
@@ -439,7 +438,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
         r-band magnitude of the fiducual star that is being used (mag).
     SedTemplate : `str`
         The SED template to use for fiducia star colors,
-        passed to rubin_scheduler.utils.stellarMags.
+        passed to rubin_sim.maf.utils.stellar_mags.
         Default 'flat'
     tol : `float`
         Tolerance for how well curve_fit needs to work before
@@ -490,7 +489,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             for f in ["u", "g", "r", "i", "z", "y"]:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
 
     def _positions(self, x, a, b):
diff --git a/rubin_sim/maf/metrics/dcr_metric.py b/rubin_sim/maf/metrics/dcr_metric.py
index 23d9d67..9e14272 100644
--- a/rubin_sim/maf/metrics/dcr_metric.py
+++ b/rubin_sim/maf/metrics/dcr_metric.py
@@ -1,7 +1,6 @@
 __all__ = ("DcrPrecisionMetric",)
 
 import numpy as np
-import rubin_scheduler.utils as utils
 
 import rubin_sim.maf.utils as mafUtils
 
@@ -41,7 +40,7 @@ class DcrPrecisionMetric(BaseMetric):
             for f in self.filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         cols = [
             "ra_dcr_amp",
             "dec_dcr_amp",
-- 
2.43.0


From b050c65659b74eb1a84280a4a6a6b4cbd10b4ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 088/233] fix: the colors of L3 brown dwarfs were unusable

---
 rubin_sim/maf/metrics/brown_dwarf_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/brown_dwarf_metric.py b/rubin_sim/maf/metrics/brown_dwarf_metric.py
index 7ba5719..ee27fb6 100644
--- a/rubin_sim/maf/metrics/brown_dwarf_metric.py
+++ b/rubin_sim/maf/metrics/brown_dwarf_metric.py
@@ -22,7 +22,7 @@ def bd_colors(spec_type):
     result["L0"] = {"i": 16.00, "z": 14.52, "y": 13.58}
     result["L1"] = {"i": 16.41, "z": 14.93, "y": 13.97}
     result["L2"] = {"i": 16.73, "z": 15.30, "y": 14.33}
-    result["L3"] = ({"i": 17.4, "z": 15.88, "y": 14.89},)
+    result["L3"] = {"i": 17.4, "z": 15.88, "y": 14.89}
     result["L4"] = {"i": 18.35, "z": 16.68, "y": 15.66}
     result["L5"] = {"i": 18.71, "z": 16.94, "y": 15.87}
     result["L6"] = {"i": 19.27, "z": 17.35, "y": 16.27}
-- 
2.43.0


From ac0748955caa1e8bd927269d1049fd23a78e77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 089/233] fix: GalPlaneSeasonGapsTimescaleMetric reordered the
 times of the visits it was given

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index e00a8f4..69048b0 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -213,8 +213,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         ):
             return self.badval
         # Find the length of the gaps between each season
-        times = data_slice[self.mjd_col]
-        times.sort()
+        times = np.sort(data_slice[self.mjd_col])
         # data = np.sort(data_slice[self.mjd_col], order=self.mjd_col)
         # SlicePoints ra/dec are always in radians -
         # convert to degrees to calculate season
-- 
2.43.0


From bf7a31eff7e53ad3813beb3dc4badd69593a1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 090/233] fix: GalPlaneSeasonGapsTimescaleMetric did not
 request the priority map

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index 69048b0..6f75b4a 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -191,6 +191,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         self.expected_season_gap = expected_season_gap
         self.mjd_col = mjd_col
         self.m5_col = m5_col
+        maps = ["GalacticPlanePriorityMap"]
         if "metric_name" not in kwargs:
             metric_name = f"GalPlaneSeasonGapsTimescales_{self.science_map}"
         else:
@@ -200,7 +201,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
             tau_reduce_name = f"reduce_Tau_{tau:.1f}".replace(".", "_")
             newmethod = help_set_reduce_func(self, None, tau)
             setattr(self, tau_reduce_name, MethodType(newmethod, tau_reduce_name))
-        super().__init__(col=[self.mjd_col, self.m5_col], metric_name=metric_name, **kwargs)
+        super().__init__(col=[self.mjd_col, self.m5_col], metric_name=metric_name, maps=maps, **kwargs)
         for i, tau in enumerate(self.tau_var):
             self.reduce_order[f"reduce_Tau_{tau:.1f}".replace(".", "_").replace("reduce", "")] = i
 
-- 
2.43.0


From f5b8e9230f7cba1ea1d123562e215742aa3b7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 091/233] fix: NgalScaleMetric used the extinction of whichever
 visit came first

---
 rubin_sim/maf/metrics/scaling_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/scaling_metrics.py b/rubin_sim/maf/metrics/scaling_metrics.py
index 7a9a884..c2ee957 100644
--- a/rubin_sim/maf/metrics/scaling_metrics.py
+++ b/rubin_sim/maf/metrics/scaling_metrics.py
@@ -57,7 +57,7 @@ class NgalScaleMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         # I'm a little confused why there's a dust cut and an M5 cut,
         # but whatever
-        a_x = self.ax1[data_slice[self.filter_col][0]] * slice_point["ebv"]
+        a_x = self.ax1[self.filtername] * slice_point["ebv"]
         if a_x > self.a_max:
             return 0
 
-- 
2.43.0


From abd83e6e9701f5bed251389a370709346dbb18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 092/233] fix: ExgalM5WithCuts ignored the name of the filter
 column

---
 rubin_sim/maf/metrics/weak_lensing_systematics_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
index 54e0c4e..703ab09 100644
--- a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
+++ b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
@@ -42,7 +42,7 @@ class ExgalM5WithCuts(BaseMetric):
         self.lsst_filter = lsst_filter
         # I thought about inheriting from ExGalM5 instead, but the columns
         # specification is more complicated
-        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units)
+        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units, filter_col=filter_col)
         super().__init__(
             col=[self.m5_col, self.filter_col],
             metric_name=metric_name,
-- 
2.43.0


From 8fecb5d4281858b8770eb53901ace9a4f829791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 093/233] fix: SFUncertMetric failed with given weights

---
 rubin_sim/maf/metrics/agnstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/agnstructure.py b/rubin_sim/maf/metrics/agnstructure.py
index 8835399..e8dcbd1 100644
--- a/rubin_sim/maf/metrics/agnstructure.py
+++ b/rubin_sim/maf/metrics/agnstructure.py
@@ -69,6 +69,8 @@ class SFUncertMetric(BaseMetric):
             # If weight is none, set weight so that sum over bins = 1
             self.weight = np.ones(len(self.bins) - 1)
             self.weight /= self.weight.sum()
+        else:
+            self.weight = weight
         self.metric_name = metric_name
         self.mag = mag
         self.snr_cut = snr_cut
-- 
2.43.0


From 1fca2297c7e6de084d250fa3d4fc2bfd8b3b7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 094/233] fix: SurfaceBrightLimitMetric coadded visits in
 different filters

---
 rubin_sim/maf/metrics/surfb_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/surfb_metric.py b/rubin_sim/maf/metrics/surfb_metric.py
index 0a9e20d..6874816 100644
--- a/rubin_sim/maf/metrics/surfb_metric.py
+++ b/rubin_sim/maf/metrics/surfb_metric.py
@@ -150,7 +150,7 @@ class SurfaceBrightLimitMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         filtername = np.unique(data_slice[self.filter_col])
         if np.size(filtername) > 1:
-            ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
+            raise ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
         filtername = filtername[0]
 
         # Scale up readnoise if the visit was split into multiple snaps
-- 
2.43.0


From d8a817fedbfda78c6dabc7366073a6b6a2cc4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 095/233] fix: ColorSlopeMetric ignored the names of the filter
 and time columns

---
 rubin_sim/maf/metrics/color_slope_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/color_slope_metrics.py b/rubin_sim/maf/metrics/color_slope_metrics.py
index b69bc10..b954313 100644
--- a/rubin_sim/maf/metrics/color_slope_metrics.py
+++ b/rubin_sim/maf/metrics/color_slope_metrics.py
@@ -109,7 +109,9 @@ class ColorSlopeMetric(BaseMetric):
 
         super().__init__(col=cols, units=units, metric_name=metric_name, **kwargs)
 
-        self.sequence_checker = CheckColorSlope(color_length=color_length, slope_length=slope_length)
+        self.sequence_checker = CheckColorSlope(
+            color_length=color_length, slope_length=slope_length, filter_col=filter_col, mjd_col=time_col
+        )
 
     def run(self, data_slice, slice_point=None):
         result = 0
-- 
2.43.0


From 622baf486fb3f8955d3902c327e7a10bbbacd005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 096/233] fix: ChipVendorMetric returned an array that cannot
 be stored as a value

---
 rubin_sim/maf/metrics/chip_vendor_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/chip_vendor_metric.py b/rubin_sim/maf/metrics/chip_vendor_metric.py
index 06c62ad..e2510f6 100644
--- a/rubin_sim/maf/metrics/chip_vendor_metric.py
+++ b/rubin_sim/maf/metrics/chip_vendor_metric.py
@@ -37,7 +37,7 @@ class ChipVendorMetric(BaseMetric):
 
         uvendor_i_ds = np.unique(self._chip_names2vendor_id(slice_point["chipNames"]))
         if np.size(uvendor_i_ds) == 1:
-            result = uvendor_i_ds
+            result = uvendor_i_ds[0]
         else:
             result = 3
         return result
-- 
2.43.0


From 621de6693711f87b9b08b486d2a6972187212aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:53 +0000
Subject: [PATCH 097/233] fix: DiscoveryMetric pointed at the wrong visits when
 they were not in time order

---
 rubin_sim/maf/metrics/mo_metrics.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..6f72a9c 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -404,8 +404,8 @@ class DiscoveryMetric(BaseMoMetric):
             return self.badval
         # Identify discovery opportunities.
         #  Identify visits where the 'night' changes.
-        vis_sort = np.argsort(sso_obs[self.mjd_col][vis])
-        nights = sso_obs[self.night_col][vis][vis_sort]
+        vis = vis[np.argsort(sso_obs[self.mjd_col][vis])]
+        nights = sso_obs[self.night_col][vis]
         # print 'all nights', nights
         n = np.unique(nights)
         # Identify all the indexes where the night changes in value.
@@ -421,8 +421,8 @@ class DiscoveryMetric(BaseMoMetric):
         n_idx_many = np.searchsorted(nights, n_with_x_obs)
         n_idx_many_end = np.searchsorted(nights, n_with_x_obs, side="right") - 1
         # Check that nObsPerNight observations are within tMin/tMax
-        times_start = sso_obs[self.mjd_col][vis][vis_sort][n_idx_many]
-        times_end = sso_obs[self.mjd_col][vis][vis_sort][n_idx_many_end]
+        times_start = sso_obs[self.mjd_col][vis][n_idx_many]
+        times_end = sso_obs[self.mjd_col][vis][n_idx_many_end]
         # Identify the nights with 'clearly good' observations.
         good = np.where(
             (times_end - times_start >= self.t_min) & (times_end - times_start <= self.t_max),
@@ -436,17 +436,17 @@ class DiscoveryMetric(BaseMoMetric):
             & (n_idx_many_end + 1 - n_idx_many > self.n_obs_per_night)
             & (times_end - times_start > self.t_max)
         )[0]
-        for i, j, c in zip(vis_sort[n_idx_many][check], vis_sort[n_idx_many_end][check], check):
-            t = sso_obs[self.mjd_col][vis][vis_sort][i : j + 1]
+        for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
+            t = sso_obs[self.mjd_col][vis][i : j + 1]
             dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
             if len(tidx) > 0:
                 good[c] = 1
         # 'good' provides mask for observations which could count as
-        # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
+        # 'good to make tracklets' against sso_obs[vis][n_idx_many].
         # Now identify tracklets which can make tracks.
-        good_idx = vis_sort[n_idx_many][good == 1]
-        good_idx_ends = vis_sort[n_idx_many_end][good == 1]
+        good_idx = n_idx_many[good == 1]
+        good_idx_ends = n_idx_many_end[good == 1]
         # print 'good tracklets', nights[good_idx]
         if len(good_idx) < self.n_nights_per_window:
             return self.badval
-- 
2.43.0


From 1617ff4b4e6f25af2946d49302ea9699b7a770d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:53 +0000
Subject: [PATCH 098/233] fix: DiscoveryMetric lost a night when a later visit
 followed a good set of visits

---
 rubin_sim/maf/metrics/mo_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 6f72a9c..e23ec1b 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -438,7 +438,8 @@ class DiscoveryMetric(BaseMoMetric):
         )[0]
         for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
             t = sso_obs[self.mjd_col][vis][i : j + 1]
-            dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
+            first, last = np.triu_indices(len(t), k=self.n_obs_per_night - 1)
+            dtimes = t[last] - t[first]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
             if len(tidx) > 0:
                 good[c] = 1
-- 
2.43.0


From aafdb1eae97be44396ff429e2feb906182942eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:53 +0000
Subject: [PATCH 099/233] fix: DiscoveryVelocityMetric could not be created

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index e23ec1b..39f9fb6 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -687,7 +687,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From c4c74acb7b5a41bedd3acbc2e828884339602656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:53 +0000
Subject: [PATCH 100/233] fix: MagicDiscoveryMetric mixed up the nights of
 visits which were not in time order

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 39f9fb6..81ce32d 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -871,7 +871,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From df53d6c40c6b5faea8034f814b193ba2ceb9b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 101/233] fix: HighVelocityNightsMetric returned the time of a
 visit without a detection

---
 rubin_sim/maf/metrics/mo_metrics.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 81ce32d..d6839ab 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -964,18 +964,13 @@ class HighVelocityNightsMetric(BaseMoMetric):
         if len(high_velocity_obs) == 0:
             return 0
         nights = sso_obs[self.night_col][vis][high_velocity_obs]
-        n = np.unique(nights)
-        n_idx = np.searchsorted(nights, n)
-        # Count the number of observations per night (except last night)
-        obs_per_night = (n_idx - np.roll(n_idx, 1))[1:]
-        # Add the number of observations on the last night.
-        obs_last_night = np.array([len(nights) - n_idx[-1]])
-        obs_per_night = np.concatenate((obs_per_night, obs_last_night))
+        n, obs_per_night = np.unique(nights, return_counts=True)
         # Find the nights with at least nObsPerNight visits
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            times = sso_obs[self.mjd_col][vis][high_velocity_obs]
+            found = times[np.where(nights == n_with_x_obs[0])].min()
         else:
             found = self.badval
         return found
-- 
2.43.0


From b398d1069450f6e74b5d44d47f033f9479cd18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 102/233] fix: ActivityOverTimeMetric counted one window too
 many

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index d6839ab..e8e8282 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -737,7 +737,7 @@ class ActivityOverTimeMetric(BaseMoMetric):
         self.window = window
         self.survey_years = survey_years
         self.window_bins = np.arange(0, self.survey_years * 365 + self.window / 2.0, self.window)
-        self.n_windows = len(self.window_bins)
+        self.n_windows = len(self.window_bins) - 1
         self.units = "%.1f Day Windows" % (self.window)
 
     def run(self, sso_obs, orb, hval):
-- 
2.43.0


From 838e9794037455247dc7a84004316dee3651b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:45 +0000
Subject: [PATCH 103/233] fix: InstantaneousColorMetric counted visits in any
 later night as a pair

---
 rubin_sim/maf/metrics/mo_metrics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index e8e8282..28f5383 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1328,9 +1328,7 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         d_time = self.n_hours / 24.0
         # Calculate the time between the closest pairs of observations.
-        in_order = np.searchsorted(timesb_one, timesb_two, "right")
-        in_order = np.where(in_order - 1 > 0, in_order - 1, 0)
-        dt_pairs = timesb_two - timesb_one[in_order]
+        dt_pairs = np.abs(timesb_two[:, np.newaxis] - timesb_one).min(axis=1)
         if len(np.where(dt_pairs < d_time)[0]) >= self.n_pairs:
             found = 1
         else:
-- 
2.43.0


From 0bd20390bacdf47f08f66eb3567984d7ed3c4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:45 +0000
Subject: [PATCH 104/233] fix: pha_dndh_grav always failed

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..98c9c8e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
-- 
2.43.0


From 6336431449521e965487064ee495200bff384277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:01 +0000
Subject: [PATCH 105/233] fix: the completeness metrics ignored the slope of
 the size distribution

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 98c9c8e..fd6c04f 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -352,7 +352,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
@@ -447,7 +447,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.hval is None:
             hidx = len(h_vals) // 2
-- 
2.43.0


From 34bd7bd5d95bc0ba7cfb1609e35504efda2548d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:01 +0000
Subject: [PATCH 106/233] fix: MoCompletenessMetric binned metric values
 instead of H for populations with their own H

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index fd6c04f..2dac8e0 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -341,16 +341,17 @@ class MoCompletenessMetric(BaseMoMetric):
             hrange = h_vals.max() - h_vals.min()
             min_h = h_vals.min()
             if hrange < self.min_hrange:
+                min_h = h_vals.min() - (self.min_hrange - hrange) / 2.0
                 hrange = self.min_hrange
-                min_h = h_vals.min() - hrange / 2.0
             stepsize = hrange / float(self.nbins)
             bins = np.arange(min_h, min_h + hrange + stepsize / 2.0, stepsize)
-            h_vals = bins[:-1]
-            n_all, b = np.histogram(metric_val_h[0], bins)
-            condition = np.where(metric_val_h[0] >= self.threshold)[0]
-            n_found, b = np.histogram(metric_val_h[0][condition], bins)
+            h_objs = np.asarray(h_vals)
+            n_all, b = np.histogram(h_objs, bins)
+            condition = np.where(metric_val_h[0].filled(0) >= self.threshold)[0]
+            n_found, b = np.histogram(h_objs[condition], bins)
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
+            h_vals = bins[:-1]
         if self.cumulative:
             completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
-- 
2.43.0


From 0dfd5338a233722eec762f9409b754d6ce91dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:15 +0000
Subject: [PATCH 107/233] fix: MoCompletenessAtTimeMetric could not be created
 without an H value

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 2dac8e0..1e01456 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -396,12 +396,13 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         self.hval = hval
         self.times = times
         self.hindex = hindex
+        h_name = "" if self.hval is None else "@H=%.2f" % self.hval
         if cumulative is None:
             # if metric_name does not start with 'differential',
             # then cumulative->True
             if "metric_name" not in kwargs:
                 self.cumulative = True
-                metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                metric_name = "CumulativeCompleteness@Time" + h_name
             else:
                 #  'metric_name' in kwargs:
                 metric_name = kwargs.pop("metric_name")
@@ -418,9 +419,9 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
                     warnings.warn(f"Completeness metric_name is {metric_name} but cumulative is True")
             else:
                 if self.cumulative:
-                    metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "CumulativeCompleteness@Time" + h_name
                 else:
-                    metric_name = "DifferentialCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "DifferentialCompleteness@Time" + h_name
         self._set_labels()
         super().__init__(metric_name=metric_name, units=self.units, **kwargs)
 
-- 
2.43.0


From 6ef7c1ec7edd15b83a43b1db08fa5f553a221f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:46 +0000
Subject: [PATCH 108/233] fix: MoMetricBundleGroup ran the stackers of
 incompatible bundles

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..9f6e2d6 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -531,9 +531,9 @@ class MoMetricBundleGroup:
         all_stackers = []
         uniq_maps = []
         all_maps = []
-        for b in b_dict.values():
-            all_stackers += b.stacker_list
-            all_maps += b.maps_list
+        for k in compatible_list:
+            all_stackers += b_dict[k].stacker_list
+            all_maps += b_dict[k].maps_list
         for s in all_stackers:
             if s not in uniq_stackers:
                 uniq_stackers.append(s)
-- 
2.43.0


From 6e449cfa078988f8367a6c5d7f7b07845012ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:46 +0000
Subject: [PATCH 109/233] fix: a failed plot of a moving object bundle stopped
 all plots

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 9f6e2d6..2f4cf46 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -638,7 +638,7 @@ class MoMetricBundleGroup:
                 )
             except ValueError as ve:
                 message = "Plotting failed for metricBundle %s." % (b.file_root)
-                message += " Error message: %s" % (ve.message)
+                message += " Error message: %s" % (ve)
                 warnings.warn(message)
             if closefigs:
                 plt.close("all")
-- 
2.43.0


From 08e71c82f6750f2c5eeb13fe1aa12cce936a79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:46 +0000
Subject: [PATCH 110/233] fix: MoObjSlicer failed for objects named by strings

---
 rubin_sim/maf/slicers/mo_slicer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..06505d7 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -129,10 +129,10 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
-            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
-        else:
+        if pd.api.types.is_numeric_dtype(self.obs["obj_id"].dtype):
             obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
+        else:
+            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
         # Return the values for H to consider for metric.
         if self.Hrange is not None:
             Hvals = self.Hrange
-- 
2.43.0


From 5e00a7c04ed9155eddf255ddefc9503895620bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:49 +0000
Subject: [PATCH 111/233] fix: joining moving object metrics of subsets failed,
 and lost their masks

---
 rubin_sim/maf/batches/moving_objects_batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 26909d2..dc8f09f 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1574,14 +1574,14 @@ def combine_subsets(mbSubsets):
     # Don't just use the slicer shape to define the metric_values,
     # because of CompletenessBundles.
     metric_values = np.zeros(first.metric_values.shape, float)
-    metric_values_mask = np.zeros(first.metric_values.shape, bool)
+    metric_values_mask = np.ones(first.metric_values.shape, bool)
     for i in mbSubsets:
         metric_values += mbSubsets[i].metric_values.filled(0)
         metric_values_mask = np.where(metric_values_mask & mbSubsets[i].metric_values.mask, True, False)
-    joint.metricValues = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
+    joint.metric_values = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
     joint.info_label = first.info_label
     joint.run_name = first.run_name
     joint.file_root = first.file_root.replace(".npz", "")
-    joint.plotDict = first.plotDict
+    joint.plot_dict = first.plot_dict
     joint.display_dict = first.display_dict
     return joint
-- 
2.43.0


From 3061690b016c980201aaa4c8f8120c6b198a05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:53 +0000
Subject: [PATCH 112/233] fix: the solar system script for split populations
 used an option that does not exist

---
 rubin_sim/maf/generate_ss.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/generate_ss.py b/rubin_sim/maf/generate_ss.py
index 5adeda3..f8c26d4 100755
--- a/rubin_sim/maf/generate_ss.py
+++ b/rubin_sim/maf/generate_ss.py
@@ -155,7 +155,6 @@ def generate_ss_commands(
                                 f"run_moving_calc --obs_file {out_dir}/{run}__{split}_obs.npz"
                                 f" --simulation_db {filename} --orbit_file {orbit_files[pop]}"
                                 f" --out_dir {out_dir}/{split}"
-                                f" --run_name {run}"
                                 f" --objtype {objtype}"
                                 f" --start_time {mjd_starts[filename]}"
                             )
-- 
2.43.0


From 606c0a4698e1f9e72e9424ebe14e41883531a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:53 +0000
Subject: [PATCH 113/233] fix: the solar system script mixed up runs and their
 files next to a tracking database

---
 rubin_sim/maf/generate_ss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/generate_ss.py b/rubin_sim/maf/generate_ss.py
index f8c26d4..012a4b9 100755
--- a/rubin_sim/maf/generate_ss.py
+++ b/rubin_sim/maf/generate_ss.py
@@ -76,8 +76,8 @@ def generate_ss_commands(
             print(f"Did not find population {pops} in expected types ({list(orbit_files.keys())}")
         pops = [pops]
 
+    dbfiles = [file for file in dbfiles if "tracking" not in os.path.split(file)[-1]]
     runs = [os.path.split(file)[-1].replace(".db", "") for file in dbfiles]
-    runs = [run for run in runs if "tracking" not in run]
 
     # Find mjd_start for each run:
     mjd_starts = {}
-- 
2.43.0


From ec0f523b9bac4ea762cdc96fa37382c50c3667d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 114/233] fix: run_fraction_summary used the H value of the
 first bundle for all bundles

---
 rubin_sim/maf/batches/moving_objects_batch.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index dc8f09f..2ffc781 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1334,26 +1334,27 @@ def run_fraction_summary(bdict, h_mark, out_dir, results_db):
 
     for b, bundle in bdict.items():
         # Find h_mark if not set (this may be different for different bundles).
-        if h_mark is None and "h_mark" in bundle.plot_dict:
-            h_mark = bundle.plot_dict["h_mark"] - 2
-        if h_mark is None:
-            h_mark = np.median(bundle.slicer.slice_points["H"]) - 2
+        h_val = h_mark
+        if h_val is None and bundle.plot_dict.get("h_mark") is not None:
+            h_val = bundle.plot_dict["h_mark"] - 2
+        if h_val is None:
+            h_val = np.median(bundle.slicer.slice_points["H"]) - 2
         # Make sure we didn't push h_mark outside the range of H values
-        if h_mark < bundle.slicer.slice_points["H"].min():
-            h_mark = bundle.slicer.slice_points["H"].min()
+        if h_val < bundle.slicer.slice_points["H"].min():
+            h_val = bundle.slicer.slice_points["H"].min()
         for k in asteroidSummaryMetrics:
             if k in b:
                 for summary_metric in asteroidSummaryMetrics[k]:
                     newkey = b + " " + summary_metric.name
                     fractions[newkey] = mb.make_completeness_bundle(
-                        bundle, summary_metric, h_mark=h_mark, results_db=results_db
+                        bundle, summary_metric, h_mark=h_val, results_db=results_db
                     )
         for k in outerSummaryMetrics:
             if k in b:
                 for summary_metric in outerSummaryMetrics[k]:
                     newkey = b + " " + summary_metric.name
                     fractions[newkey] = mb.make_completeness_bundle(
-                        bundle, summary_metric, h_mark=h_mark, results_db=results_db
+                        bundle, summary_metric, h_mark=h_val, results_db=results_db
                     )
 
     # Write fractional populations bundles to disk, so we can re-read later.
-- 
2.43.0


From ed037aa998c46c43bde5762563bd30d83dfa1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 115/233] fix: run_moving_calc failed without the optional name
 of the simulation

---
 rubin_sim/maf/run_moving_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_moving_calc.py b/rubin_sim/maf/run_moving_calc.py
index a3c354b..ca5b5e4 100755
--- a/rubin_sim/maf/run_moving_calc.py
+++ b/rubin_sim/maf/run_moving_calc.py
@@ -107,7 +107,10 @@ def run_moving_calc():
     )
     args = parser.parse_args()
 
-    run_name = os.path.split(args.simulation_db)[-1].replace(".db", "")
+    if args.simulation_db is None:
+        run_name = "run_name"
+    else:
+        run_name = os.path.split(args.simulation_db)[-1].replace(".db", "")
 
     if args.orbit_file is None or args.obs_file is None:
         print("Must specify an orbit_file and an obs_file to calculate the metrics.")
-- 
2.43.0


From 265b127fc9b57c618442771a7185855cb68db36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 116/233] fix: SkyModel.set_params failed for a single point,
 such as its defaults

---
 rubin_sim/skybrightness/sky_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b0518f5..a3fdb5d 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -602,13 +602,13 @@ class SkyModel:
         self.eclip_lon = convert_func(eclip_lon)
         self.eclip_lat = convert_func(eclip_lat)
         self.sun_eclip_lon = convert_func(sun_eclip_lon)
-        self.azs = convert_func(azs)
+        self.azs = np.atleast_1d(convert_func(azs))
         if alts is not None:
-            self.airmass = 1.0 / np.cos(np.pi / 2.0 - convert_func(alts))
-            self.alts = convert_func(alts)
+            self.alts = np.atleast_1d(convert_func(alts))
+            self.airmass = 1.0 / np.cos(np.pi / 2.0 - self.alts)
         else:
-            self.airmass = airmass
-            self.alts = np.pi / 2.0 - np.arccos(1.0 / airmass)
+            self.airmass = np.atleast_1d(airmass)
+            self.alts = np.pi / 2.0 - np.arccos(1.0 / self.airmass)
         self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
-- 
2.43.0


From 480b7a6f491c0992d180af2019ed766edf4bef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 117/233] fix: SkyModel.set_params measured the distance from
 the Moon with its azimuth in degrees

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index a3fdb5d..8271ecd 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -609,7 +609,7 @@ class SkyModel:
         else:
             self.airmass = np.atleast_1d(airmass)
             self.alts = np.pi / 2.0 - np.arccos(1.0 / self.airmass)
-        self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
+        self.moon_targ_sep = haversine(self.azs, self.alts, self.moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
 
-- 
2.43.0


From 1196b46f7cec6b73692398aea879c0846c0bbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 118/233] fix: SkyModel.return_mags failed after set_params

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 8271ecd..0ebd55a 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -759,7 +759,7 @@ class SkyModel:
                 min_wave = bandpasses[key].wavelen[is_through].min()
                 max_wave = bandpasses[key].wavelen[is_through].max()
                 in_band = np.where((self.wave >= min_wave) & (self.wave <= max_wave))
-                for i, ra in enumerate(self.ra):
+                for i in range(self.npts):
                     # Check that there is flux in the band,
                     # otherwise calc_mag fails
                     if np.max(self.spec[i, in_band]) > 0:
-- 
2.43.0


From 928315f8d3c7596dcdf51981c59d8a644db240c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 119/233] fix: SkyModel zeroed the wrong points when some were
 beyond the airmass limit

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 0ebd55a..77c1439 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -685,7 +685,7 @@ class SkyModel:
                     self.spec[self.mask, :] = np.nan
                     return
                 if np.max(result["spec"]) > 0:
-                    mask[np.where(np.sum(result["spec"], axis=1) == 0)] = 0
+                    mask[self.good_pix[np.where(np.sum(result["spec"], axis=1) == 0)]] = 0
                 self.spec[self.good_pix] += result["spec"]
                 if not hasattr(self, "wave"):
                     self.wave = result["wave"]
-- 
2.43.0


From 3573ae4f75a0b98e040c6cd7235fe13757af6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 120/233] fix: SkyModel failed for a single point given as
 numpy values

---
 rubin_sim/skybrightness/sky_model.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 77c1439..db5c859 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -345,17 +345,10 @@ class SkyModel:
         if self.mags:
             self.npix = len(self.filter_names)
         # Wrap in array just in case single points were passed
-        if not type(ra).__module__ == np.__name__:
-            if np.size(ra) == 1:
-                ra = np.array([ra]).ravel()
-                dec = np.array([dec]).ravel()
-                alt = np.array(alt).ravel()
-                az = np.array(az).ravel()
-            else:
-                ra = np.array(ra)
-                dec = np.array(dec)
-                alt = np.array(alt)
-                az = np.array(az)
+        ra = np.atleast_1d(ra)
+        dec = np.atleast_1d(dec)
+        alt = np.atleast_1d(alt)
+        az = np.atleast_1d(az)
         if degrees:
             self.ra = np.radians(ra)
             self.dec = np.radians(dec)
-- 
2.43.0


From 78ad3d2eb8a2a1e5a7dddd8283b2fccf9ba322be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 121/233] fix: twilight spectra failed with the Sun above the
 limit

---
 rubin_sim/skybrightness/interp_components.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 887e9bc..c3fa4e7 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -654,15 +654,16 @@ class TwilightInterp:
             & (interp_points["airmass"] >= 1.0)
         )[0]
 
+        out_of_range = np.where(interp_points["sunAlt"] > np.max(limits))[0]
+        if np.size(out_of_range) > 0:
+            result[:] = np.nan
+            return {"spec": result, "wave": self.solar_wave}
+
         # Compute the expected flux in each of the filters that
         # we have fits for
         fluxes = []
         for filter_name in self.filter_names:
-            out_of_range = np.where(interp_points["sunAlt"] > np.max(limits))[0]
-            if np.size(out_of_range) > 0:
-                fluxes.append(np.nan)
-            else:
-                fluxes.append(twilight_func(interp_points[good], *self.fit_results[filter_name]))
+            fluxes.append(twilight_func(interp_points[good], *self.fit_results[filter_name]))
         fluxes = np.array(fluxes)
 
         # ratio of model flux to raw solar flux:
-- 
2.43.0


From afb0dad3d5de4253c44c049d69138b884122b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:45 +0000
Subject: [PATCH 122/233] fix: the satellite ModelObservatory could not be
 constructed and ignored its nside

---
 rubin_sim/satellite_constellations/model_observatory.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/satellite_constellations/model_observatory.py b/rubin_sim/satellite_constellations/model_observatory.py
index 43186f9..43b550b 100644
--- a/rubin_sim/satellite_constellations/model_observatory.py
+++ b/rubin_sim/satellite_constellations/model_observatory.py
@@ -47,7 +47,7 @@ class ModelObservatory(oMO):
 
     def __init__(
         self,
-        nside=None,
+        nside=32,
         mjd_start=SURVEY_START_MJD,
         seed=42,
         alt_min=5.0,
@@ -77,9 +77,8 @@ class ModelObservatory(oMO):
 
         # Run the rest of the regular __init__ steps
         super().__init__(
-            nside=None,
+            nside=nside,
             mjd_start=self.mjd_start,
-            seed=seed,
             alt_min=alt_min,
             lax_dome=lax_dome,
             cloud_limit=cloud_limit,
-- 
2.43.0


From a26ac1ee1339a6ea29580bba3b8fc73ef1afc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:45 +0000
Subject: [PATCH 123/233] fix: the satellite ModelObservatory returned
 conditions without the satellite maps

---
 rubin_sim/satellite_constellations/model_observatory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/satellite_constellations/model_observatory.py b/rubin_sim/satellite_constellations/model_observatory.py
index 43b550b..fecc5ca 100644
--- a/rubin_sim/satellite_constellations/model_observatory.py
+++ b/rubin_sim/satellite_constellations/model_observatory.py
@@ -96,13 +96,12 @@ class ModelObservatory(oMO):
             Current conditions as simulated by the ModelObservatory.
         """
 
-        # Spot to put in satellite streak prediction maps
+        # Run the regular return conditions (this makes a new object)
+        super().return_conditions()
+
+        # Put in the satellite streak prediction maps
         self.conditions.satellite_mjds = self.sat_mjds
         self.conditions.satellite_maps = self.satellite_maps
-
-        # Run the regular return conditions
-        super().return_conditions()
-        # I guess running super() means return statement gets skipped?
         return self.conditions
 
     @property
-- 
2.43.0


From ea936b1b813bf675d5b2b94156613e48e470fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:45 +0000
Subject: [PATCH 124/233] fix: Constellation.check_pointings failed with a
 single satellite above the limits

---
 rubin_sim/satellite_constellations/sat_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index 84df331..f875fc4 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -424,7 +424,8 @@ class Constellation:
             pointing_decs_rad[above_illum_indx],
         )
 
-        close = np.where(distances < test_radius_rad)[0]
+        # (a single distance may be returned as a scalar)
+        close = np.where(np.atleast_1d(distances) < test_radius_rad)[0]
 
         # Numpy broadcasting is such a dark art
         sat_indx = np.arange(len(self.sat_list), dtype=int)[np.newaxis]
-- 
2.43.0


From 21b865fc5efaabeff11cf9f25ecf631a2fa2a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:28 +0000
Subject: [PATCH 125/233] fix: Constellation.check_pointings failed for visits
 shorter than two time steps

---
 rubin_sim/satellite_constellations/sat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index f875fc4..473b286 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -444,7 +444,7 @@ class Constellation:
             visit_broad,
             sat_indx[above_illum_indx][close],
         ):
-            mjd = np.linspace(mjd, mjd + vt, num=np.round(vt / dt).astype(int))
+            mjd = np.linspace(mjd, mjd + vt, num=max(2, np.round(vt / dt).astype(int)))
             jd = mjd + MJDOFFSET
             t = self.ts.ut1_jd(jd)
             sat = self.sat_list[sat_in]
-- 
2.43.0


From e57e0c31579e93340c416bf9038bee2c193b4778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:05 +0000
Subject: [PATCH 126/233] fix: importing rubin_sim.selfcal before rubin_sim.maf
 failed with a circular import

---
 rubin_sim/selfcal/offsets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 3ebc040..29a1e4c 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -2,8 +2,6 @@ __all__ = ["NoOffset", "OffsetSNR", "BaseOffset"]
 
 import numpy as np
 
-from ..maf.utils.astrometry_utils import m52snr
-
 # from lsst.sims.selfcal.clouds.Arma import ArmaSf, Clouds
 
 
@@ -97,6 +95,9 @@ class OffsetSNR(BaseOffset):
 
     def calc_mag_errors(self, magnitudes, m5, err_only=False):
         """ """
+        # Imported here, as maf itself imports rubin_sim.selfcal.
+        from ..maf.utils.astrometry_utils import m52snr
+
         snr = m52snr(magnitudes, m5)
         # via good old https://www.eso.org/~ohainaut/ccd/sn.html
         magnitude_errors = 2.5 * np.log10(1.0 + 1.0 / snr)
-- 
2.43.0


From 8f0d474a1ba573539a643a12053d84c414edda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:05 +0000
Subject: [PATCH 127/233] fix: NoOffset returned a structured array which could
 not be added to the magnitudes

---
 rubin_sim/selfcal/offsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 29a1e4c..068976a 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -22,7 +22,7 @@ class NoOffset(BaseOffset):
         self.newkey = "dmag_zero"
 
     def __call__(self, stars, visits, **kwargs):
-        dmag = np.zeros(stars.size, dtype=list(zip([self.newkey], [float])))
+        dmag = np.zeros(stars.size, dtype=float)
         return dmag
 
 
-- 
2.43.0


From 19649c4c009fbfb3d80a737a223f2c7af450d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:21 +0000
Subject: [PATCH 128/233] fix: generate_catalog divided the default field of
 view into patches whatever radius_fov was

---
 rubin_sim/selfcal/generate_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/generate_catalog.py b/rubin_sim/selfcal/generate_catalog.py
index 31cb710..574d40c 100644
--- a/rubin_sim/selfcal/generate_catalog.py
+++ b/rubin_sim/selfcal/generate_catalog.py
@@ -151,7 +151,7 @@ def generate_catalog(
         stars_in = stars_project(stars_in, visit)
 
         # Assign patchIDs
-        stars_in = assign_patches(stars_in, visit, n_patches=n_patches)
+        stars_in = assign_patches(stars_in, visit, n_patches=n_patches, radius_fov=radius_fov)
 
         # Apply the offsets that have been configured
         for offset in offsets:
-- 
2.43.0


From 949ec8e5330b7c4326ef3b8c01f65685af16fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 129/233] fix: TransientMetric failed when survey_start was
 given

---
 rubin_sim/maf/metrics/transient_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index fe66128..c27b435 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -194,7 +194,8 @@ class TransientMetric(BaseMetric):
             n_trans_max += _n_trans_max
             if tshift != 0:
                 n_trans_max -= 1
-            if self.survey_start is None:
+            survey_start = self.survey_start
+            if survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
-- 
2.43.0


From 7422b6e5fc4657459da6e05c6a871798905e96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 130/233] fix: TransientMetric mixed visits of two transients
 into one light curve when phases are shifted

---
 rubin_sim/maf/metrics/transient_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index c27b435..c1f201f 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -200,7 +200,7 @@ class TransientMetric(BaseMetric):
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-            lc_number = np.floor((data_slice[self.mjd_col] - survey_start) / self.trans_duration)
+            lc_number = np.floor((data_slice[self.mjd_col] - survey_start + tshift) / self.trans_duration)
 
             lc_mags = self.light_curve(time, data_slice[self.filter_col])
 
-- 
2.43.0


From 4771e101fcbfda8b90dab9072029cf465ea4c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 131/233] fix: GRBTransientMetric failed when survey_start was
 given

---
 rubin_sim/maf/maf_contrib/grb_transient_metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 89eb910..eaeddd7 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -158,7 +158,8 @@ class GRBTransientMetric(metrics.BaseMetric):
             n_trans_max += np.floor(self.survey_duration / (self.trans_duration / 365.25))
             if tshift != 0:
                 n_trans_max -= 1
-            if self.survey_start is None:
+            survey_start = self.survey_start
+            if survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
-- 
2.43.0


From a0630617111df86c580d1bed9f6eb21b85038640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 132/233] fix: GRBTransientMetric mixed visits of two
 transients into one light curve when phases are shifted

---
 rubin_sim/maf/maf_contrib/grb_transient_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index eaeddd7..3c1c5ea 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -164,7 +164,7 @@ class GRBTransientMetric(metrics.BaseMetric):
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-            lc_number = np.floor((data_slice[self.mjd_col] - survey_start) / self.trans_duration)
+            lc_number = np.floor((data_slice[self.mjd_col] - survey_start + tshift) / self.trans_duration)
 
             lc_mags = self.light_curve(time, data_slice[self.filter_col])
 
-- 
2.43.0


From 88d154c40277aaa57dca9ec543e7c7b7d9890215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:24 +0000
Subject: [PATCH 133/233] fix: TransientMetric counted visits below the limit
 once enough were found before the peak

---
 rubin_sim/maf/metrics/transient_metrics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index c1f201f..1c38b93 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -209,7 +209,8 @@ class TransientMetric(BaseMetric):
 
             # Flag points that are above the SNR limit
             detected = np.zeros(data_slice.size, dtype=int)
-            detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
+            above_limit = lc_mags < data_slice[self.m5_col] + self.detect_m5_plus
+            detected[above_limit] += 1
             detect_thresh += 1
 
             # If we demand points on the rise
@@ -218,6 +219,7 @@ class TransientMetric(BaseMetric):
                 ord = np.argsort(data_slice[self.mjd_col])
                 data_slice = data_slice[ord]
                 detected = detected[ord]
+                above_limit = above_limit[ord]
                 lc_number = lc_number[ord]
                 time = time[ord]
                 ulc_number = np.unique(lc_number)
@@ -241,6 +243,7 @@ class TransientMetric(BaseMetric):
                 ord = np.argsort(data_slice[self.mjd_col])
                 data_slice = data_slice[ord]
                 detected = detected[ord]
+                above_limit = above_limit[ord]
                 lc_number = lc_number[ord]
                 time = time[ord]
                 ulc_number = np.unique(lc_number)
@@ -249,7 +252,7 @@ class TransientMetric(BaseMetric):
                 detect_thresh += self.n_filters
 
                 for le, ri in zip(left, right):
-                    points = np.where(detected[le:ri] > 0)
+                    points = np.where(above_limit[le:ri])
                     ufilters = np.unique(data_slice[self.filter_col][le:ri][points])
                     phase_sections = np.floor(time[le:ri][points] / self.trans_duration * self.n_per_lc)
                     for filt_name in ufilters:
-- 
2.43.0


From 13f0ae2f1738cd8b5487b28cb6fd42795f9e7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:24 +0000
Subject: [PATCH 134/233] fix: TransientMetric let further filters make up for
 missing visits before the peak

---
 rubin_sim/maf/metrics/transient_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index 1c38b93..d8755b1 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -255,10 +255,13 @@ class TransientMetric(BaseMetric):
                     points = np.where(above_limit[le:ri])
                     ufilters = np.unique(data_slice[self.filter_col][le:ri][points])
                     phase_sections = np.floor(time[le:ri][points] / self.trans_duration * self.n_per_lc)
+                    n_filters = 0
                     for filt_name in ufilters:
                         good = np.where(data_slice[self.filter_col][le:ri][points] == filt_name)
                         if np.size(np.unique(phase_sections[good])) >= self.n_per_lc:
-                            detected[le:ri] += 1
+                            n_filters += 1
+                    # Further filters do not make up for other criteria.
+                    detected[le:ri] += min(n_filters, self.n_filters)
 
             # Find the unique number of light curves that passed the required
             # number of conditions
-- 
2.43.0


From dd195e4c18b05e35436b8c770e76cfdc8bfa1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:24 +0000
Subject: [PATCH 135/233] fix: GRBTransientMetric only counted the detections
 of the last of the phases checked

---
 .../maf/maf_contrib/grb_transient_metric.py   | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 3c1c5ea..05675cd 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -151,6 +151,15 @@ class GRBTransientMetric(metrics.BaseMetric):
         n_trans_max = np.floor(self.survey_duration / (self.trans_duration / 365.25))
         tshifts = np.arange(self.n_phase_check) * self.trans_duration / float(self.n_phase_check)
         n_trans_max = 0
+        bandcounter = {
+            "u": 0,
+            "g": 0,
+            "r": 0,
+            "i": 0,
+            "z": 0,
+            "y": 0,
+            "any": 0,
+        }  # define zeroed out counter
         for tshift in tshifts:
             # Compute the total number of back-to-back transients
             # are possible to detect
@@ -175,16 +184,6 @@ class GRBTransientMetric(metrics.BaseMetric):
             detected = np.zeros(data_slice.size, dtype=int)
             detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
 
-            bandcounter = {
-                "u": 0,
-                "g": 0,
-                "r": 0,
-                "i": 0,
-                "z": 0,
-                "y": 0,
-                "any": 0,
-            }  # define zeroed out counter
-
             # make sure things are sorted by time
             ord = np.argsort(data_slice[self.mjd_col])
             data_slice = data_slice[ord]
-- 
2.43.0


From b8f2774c891dbed4ce990f8b072fc62b2a696b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:24 +0000
Subject: [PATCH 136/233] fix: PeriodicMetric used np.float, which numpy no
 longer has

---
 rubin_sim/maf/maf_contrib/periodic_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_metric.py b/rubin_sim/maf/maf_contrib/periodic_metric.py
index 658bca6..eab28d0 100644
--- a/rubin_sim/maf/maf_contrib/periodic_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_metric.py
@@ -38,7 +38,7 @@ class PeriodicMetric(BaseMetric):
         window_val = np.zeros_like(window_frq, dtype="float")
         for x, frq in enumerate(window_frq):
             window_val[x] = np.sum(np.cos(-2.0 * np.pi * frq * use_jd))
-        window_val /= np.float(use_jd.size)
+        window_val /= float(use_jd.size)
         secondpeak = np.sort(window_val)[-2]
         totalsum = (np.sum(window_val) - np.sort(window_val)[-1]) / (frq_pts - 1)
         data = np.asarray([secondpeak, totalsum])
-- 
2.43.0


From 3604a8227cef0f506bb4a9bae92beb26e4397c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:24 +0000
Subject: [PATCH 137/233] fix: the outbursts of X-ray binaries were not
 reproducible from their seed

---
 rubin_sim/maf/maf_contrib/xrb_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/xrb_metrics.py b/rubin_sim/maf/maf_contrib/xrb_metrics.py
index 655cbcb..cd57624 100644
--- a/rubin_sim/maf/maf_contrib/xrb_metrics.py
+++ b/rubin_sim/maf/maf_contrib/xrb_metrics.py
@@ -103,7 +103,7 @@ class XrbLc:
         flip = self.rng.uniform(size=size)
         w = flip > 0.5
         tau_rise = np.zeros(size) * np.nan
-        tau_rise[w] = loguniform.rvs(0.5, 50, size=np.sum(w))
+        tau_rise[w] = loguniform.rvs(0.5, 50, size=np.sum(w), random_state=self.rng)
         tau_rise[~w] = self.rng.lognormal(0, 0.2, size=np.sum(~w)) + 0.3
 
         # amplitude = rng.lognormal(9,1,size=1)[0]
-- 
2.43.0


From dc9bad207ed05b398f2e9b88ff04eabc206acb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:10 +0000
Subject: [PATCH 138/233] fix: MicrolensingMetric took the logarithm of a
 magnitude for events with their own magnitudes

---
 rubin_sim/maf/maf_contrib/microlensing_metric.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/microlensing_metric.py b/rubin_sim/maf/maf_contrib/microlensing_metric.py
index c4cdc38..a73c262 100644
--- a/rubin_sim/maf/maf_contrib/microlensing_metric.py
+++ b/rubin_sim/maf/maf_contrib/microlensing_metric.py
@@ -370,17 +370,15 @@ class MicrolensingMetric(metrics.BaseMetric):
             if individual_mags is True:
                 fs = 10 ** (-0.4 * slice_point["apparent_m_no_blend_{}".format(filtername)])
                 fb = 10 ** (-0.4 * slice_point["apparent_m_{}".format(filtername)]) - fs
-                amplitudes = microlensing_amplification_fsfb(
-                    t,
+                # This is already the magnitude of the source and the blend.
+                amplified_mags[infilt] = microlensing_amplification_fsfb(
+                    t[infilt],
                     impact_parameter=slice_point["impact_parameter"],
                     crossing_time=slice_point["crossing_time"],
                     peak_time=slice_point["peak_time"],
                     fs=fs,
                     fb=fb,
                 )
-                self.mags[filtername] = slice_point["apparent_m_{}".format(filtername)]
-                amplified_mags[infilt] = self.mags[filtername] - 2.5 * np.log10(amplitudes[infilt])
-
             else:
                 amplified_mags[infilt] = self.mags[filtername] - 2.5 * np.log10(amplitudes[infilt])
 
-- 
2.43.0


From 65339d5d6c780b840b61e2eb5c37e4196565928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:10 +0000
Subject: [PATCH 139/233] fix: SNSLMetric ignored its mjd_col when it measured
 the cadence

---
 rubin_sim/maf/metrics/sn_sl_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/sn_sl_metric.py b/rubin_sim/maf/metrics/sn_sl_metric.py
index ff51795..dcecb59 100644
--- a/rubin_sim/maf/metrics/sn_sl_metric.py
+++ b/rubin_sim/maf/metrics/sn_sl_metric.py
@@ -206,7 +206,7 @@ class SNSLMetric(metrics.BaseMetric):
                 n_lensed_s_ne__ia += 0
             else:
                 # Find the cadence (days) between visits within the season
-                cadence = np.diff(night_slice["observationStartMJD"][s_idx])
+                cadence = np.diff(night_slice[self.mjd_col][s_idx])
                 # But only the values between nights, not within nights
                 cadence = np.median(cadence[np.where(cadence > 0.4)])
                 # Season length in years
-- 
2.43.0


From d91c3ae5f30ba57f64b82646213c39a442a722ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:10 +0000
Subject: [PATCH 140/233] fix: SNSLMetric returned NaN when one of the seasons
 had a single night of visits

---
 rubin_sim/maf/metrics/sn_sl_metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/sn_sl_metric.py b/rubin_sim/maf/metrics/sn_sl_metric.py
index dcecb59..2066e16 100644
--- a/rubin_sim/maf/metrics/sn_sl_metric.py
+++ b/rubin_sim/maf/metrics/sn_sl_metric.py
@@ -208,7 +208,11 @@ class SNSLMetric(metrics.BaseMetric):
                 # Find the cadence (days) between visits within the season
                 cadence = np.diff(night_slice[self.mjd_col][s_idx])
                 # But only the values between nights, not within nights
-                cadence = np.median(cadence[np.where(cadence > 0.4)])
+                cadence = cadence[np.where(cadence > 0.4)]
+                if len(cadence) == 0:
+                    # All visits of the season are in a single night
+                    continue
+                cadence = np.median(cadence)
                 # Season length in years
                 season_length = seasons[s_idx][-1] - seasons[s_idx][0]
                 n_lensed_s_ne__ia += self.n_lensed(area, cadence, season_length)
-- 
2.43.0


From d2bf282558e36eed5144fa39da9e8e13324b8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:10 +0000
Subject: [PATCH 141/233] fix: PeriodicStarModulationMetric never fitted
 anything and so always returned zero

---
 rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py b/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
index 909a950..6c3657a 100644
--- a/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
@@ -188,7 +188,7 @@ class PeriodicStarModulationMetric(BaseMetric):
                     # Suppress warnings about failing on covariance
                     fit_obj = PeriodicStar(t_subrun["filter"])
                     # check if we have enough points
-                    if np.size(true_params) >= np.size(fit_obj):
+                    if np.size(true_params) >= np.size(t_subrun):
                         parm_vals = true_params * 0 + np.inf
                     else:
                         with warnings.catch_warnings():
-- 
2.43.0


From fb94b0ba1564eb6654abedac01b2c14e158de861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:20 +0000
Subject: [PATCH 142/233] fix: FilterPairTGapsMetric with allgaps=False failed
 when a filter had no visits

---
 rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py b/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py
index ac0e9df..bfaf43e 100644
--- a/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py
+++ b/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py
@@ -119,6 +119,9 @@ class FilterPairTGapsMetric(BaseMetric):
         # calculate time gaps matrix
         # diffmat = np.subtract(time_col0, time_col1.T)
 
+        if len(time_col0) == 0 or len(time_col1) == 0:
+            return np.array([])
+
         if self.allgaps:
             # collect all time gaps
             if f0 == f1:
-- 
2.43.0


From 3b8e2791871716317593ba1e3277655e64c8baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 143/233] fix: ebv_3d_hp returned the first map read when asked
 for another map_file

---
 rubin_sim/maf/maps/ebv_3d_hp.py | 40 +++++++++++++++------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index ba0dfaf..e4d2d95 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -68,15 +68,8 @@ def ebv_3d_hp(
             test_path = os.path.join(get_data_dir(), "maps/DustMaps3D", map_file)
             if os.path.isfile(test_path):
                 map_file = test_path
-    # Keep track of what nside and what map_file we're using
-    if not hasattr(ebv_3d_hp, "map_file"):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
-
     # Do we need to re-read from disk?
-    if (not hasattr(ebv_3d_hp, "ebvs")) | (not hasattr(ebv_3d_hp, "dists")) | (map_file != ebv_3d_hp.mapFile):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
+    if map_file != getattr(ebv_3d_hp, "map_file", None):
         # Read map from disk
         hdul = fits.open(map_file)
         # hpids = hdul[0].data
@@ -89,20 +82,6 @@ def ebv_3d_hp(
         # Check additional healpix information from the header
         map_nside = hdr["NSIDE"]
         nested = hdr["NESTED"]
-        if nside != map_nside:
-            warnings.warn(
-                f"Map nside {map_nside} did not match expected nside {nside}; "
-                f"Will use nside from map data."
-            )
-            if pixels is not None:
-                # We're just going to raise an exception here
-                # because this could mean bad things.
-                raise ValueError(
-                    f"Map nside {map_nside} did not match expected nside {nside}, "
-                    f"and pixels provided; this can potentially indicate a serious "
-                    f"error. Make nsides match or specify ra/dec instead of pixels."
-                )
-            nside = map_nside
         # Nested healpix data will not match the healpix arrays
         # for the slicers (at this time)
         if nested:
@@ -112,8 +91,25 @@ def ebv_3d_hp(
                 ebvs[:, i] = hp.reorder(ebvs[:, i], "nest", "ring")
         ebv_3d_hp.dists = dists
         ebv_3d_hp.ebvs = ebvs
+        ebv_3d_hp.nside = map_nside
+        ebv_3d_hp.map_file = map_file
         print(f"Read map {map_file} from disk")
 
+    if nside != ebv_3d_hp.nside:
+        warnings.warn(
+            f"Map nside {ebv_3d_hp.nside} did not match expected nside {nside}; "
+            f"Will use nside from map data."
+        )
+        if pixels is not None:
+            # We're just going to raise an exception here
+            # because this could mean bad things.
+            raise ValueError(
+                f"Map nside {ebv_3d_hp.nside} did not match expected nside {nside}, "
+                f"and pixels provided; this can potentially indicate a serious "
+                f"error. Make nsides match or specify ra/dec instead of pixels."
+            )
+        nside = ebv_3d_hp.nside
+
     if pixels is not None:
         # Assume if pixels is set, then interp is irrelevant
         dists = ebv_3d_hp.dists[pixels]
-- 
2.43.0


From b14a5ac9142d783258c8266bdd0274a2c633c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 144/233] fix: galplane_priority_map ignored map_path and
 use_alt_maps after its first read

---
 rubin_sim/maf/maps/galactic_plane_priority_maps.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/maps/galactic_plane_priority_maps.py b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
index fa32a39..3a93937 100644
--- a/rubin_sim/maf/maps/galactic_plane_priority_maps.py
+++ b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
@@ -94,13 +94,14 @@ def galplane_priority_map(
         raise RuntimeError("Currently only available with nside=64")
 
     # Do we need to read from disk?
-    if not hasattr(galplane_priority_map, "maps"):
+    if map_path is not None:
+        data_dir = map_path
+    else:
+        data_dir = os.path.join(get_data_dir(), "maps", "GalacticPlanePriorityMaps")
+    if getattr(galplane_priority_map, "source", None) != (data_dir, use_alt_maps):
+        galplane_priority_map.source = None
         galplane_priority_map.nside = 64
         galplane_priority_map.filterlist = ["u", "g", "r", "i", "z", "y", "sum"]
-        if map_path is not None:
-            data_dir = map_path
-        else:
-            data_dir = os.path.join(get_data_dir(), "maps", "GalacticPlanePriorityMaps")
         galplane_priority_map.maps = {}
         science_maps = []
         for f in galplane_priority_map.filterlist:
@@ -115,6 +116,7 @@ def galplane_priority_map(
                 science_maps += list(galplane_priority_map.maps[f].dtype.names)
             science_maps = list(set(science_maps))
             galplane_priority_map.science_maps = science_maps
+        galplane_priority_map.source = (data_dir, use_alt_maps)
 
     galplane_priority_map.keys = [
         gp_priority_map_components_to_keys(f, s)
@@ -173,7 +175,7 @@ class GalacticPlanePriorityMap(BaseMap):
     """
 
     def __init__(self, interp=False, nside=64, map_path=None):
-        self.keynames = galplane_priority_map(get_keys=True)
+        self.keynames = galplane_priority_map(get_keys=True, map_path=map_path)
         self.interp = interp
         self.nside = nside
         self.map_path = map_path
-- 
2.43.0


From d935377461d98042fbdc980a8aca919930cd57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 145/233] fix: eq_gal3 used astropy and numpy names that do not
 exist

---
 rubin_sim/maf/maf_contrib/star_counts/coords.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/star_counts/coords.py b/rubin_sim/maf/maf_contrib/star_counts/coords.py
index 76f0715..8d89740 100644
--- a/rubin_sim/maf/maf_contrib/star_counts/coords.py
+++ b/rubin_sim/maf/maf_contrib/star_counts/coords.py
@@ -77,13 +77,11 @@ def eq_gal2(eq_ra, eq_dec):
 
 def eq_gal3(eq_ra, eq_dec):
     # assume input ra, dec are in deg
-    coordset = SkyCoord(
-        ra=np.radians(eq_ra) * u.radians, dec=np.rad(eq_dec) * u.rad, frame="icrs", unit="deg"
-    )
+    coordset = SkyCoord(ra=eq_ra * u.deg, dec=eq_dec * u.deg, frame="icrs")
     # convert to galactic
     galactic = coordset.galactic
     # return b,l in deg
-    return galactic.b.value, galactic.l.values
+    return galactic.b.deg, galactic.l.deg
 
 
 def gal_cyn(b_deg, l_deg, dist):
-- 
2.43.0


From cbcd98538b9daf522d2e82b0588a5ac7e1eda5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 146/233] fix: starcount_bymass noise_calc solved a function
 that returned nothing

---
 .../maf/maf_contrib/star_counts/starcount_bymass.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py b/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
index d8d2e17..08df39c 100644
--- a/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
+++ b/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
@@ -60,10 +60,12 @@ def noise_calc(band):
     sigma_sys = 0.005
 
     def fun(x):
-        sigma_sys**2
-        +(0.04 - gamma[band]) * 10 ** (0.4 * (x - m5[band]))
-        +gamma[band] * 10 ** (0.8 * (x - m5[band]))
-        -(sigma**2)
+        return (
+            sigma_sys**2
+            + (0.04 - gamma[band]) * 10 ** (0.4 * (x - m5[band]))
+            + gamma[band] * 10 ** (0.8 * (x - m5[band]))
+            - sigma**2
+        )
 
     return newton(fun, 25)
 
-- 
2.43.0


From 525e7d423d216ced7208939be1af8d606a5192fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 147/233] fix: StarCountMetric and StarCountMassMetric could
 not be run

---
 rubin_sim/maf/maf_contrib/star_count_mass_metric.py | 4 ++--
 rubin_sim/maf/maf_contrib/star_count_metric.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/star_count_mass_metric.py b/rubin_sim/maf/maf_contrib/star_count_mass_metric.py
index 7c29011..2c6516d 100644
--- a/rubin_sim/maf/maf_contrib/star_count_mass_metric.py
+++ b/rubin_sim/maf/maf_contrib/star_count_mass_metric.py
@@ -59,6 +59,6 @@ class StarCountMassMetric(BaseMetric):
         super(StarCountMassMetric, self).__init__(col=[], **kwargs)
 
     def run(self, data_slice, slice_point=None):
-        self.dec_col = np.degrees(data_slice[0][3])
-        self.ra_col = np.degrees(data_slice[0][2])
+        self.dec_col = np.degrees(slice_point["dec"])
+        self.ra_col = np.degrees(slice_point["ra"])
         return starcount_bymass.starcount_bymass(self.ra_col, self.dec_col, self.m1, self.m2, self.band)
diff --git a/rubin_sim/maf/maf_contrib/star_count_metric.py b/rubin_sim/maf/maf_contrib/star_count_metric.py
index 4aa1589..4e2e67c 100644
--- a/rubin_sim/maf/maf_contrib/star_count_metric.py
+++ b/rubin_sim/maf/maf_contrib/star_count_metric.py
@@ -51,6 +51,6 @@ class StarCountMetric(BaseMetric):
         super(StarCountMetric, self).__init__(col=[], **kwargs)
 
     def run(self, data_slice, slice_point=None):
-        self.dec_col = np.degrees(data_slice[0][3])
-        self.ra_col = np.degrees(data_slice[0][2])
-        return starcount(self.ra_col, self.dec_col, self.d1, self.d2)
+        self.dec_col = np.degrees(slice_point["dec"])
+        self.ra_col = np.degrees(slice_point["ra"])
+        return starcount.starcount(self.ra_col, self.dec_col, self.d1, self.d2)
-- 
2.43.0


From 61a2cef7151bebbd6cb1fe3393437365195a2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 148/233] fix: MetricBundleGroup applied one bundle's maps to
 bundles with differently configured maps

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 4fb5aa1..2d01165 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -166,8 +166,17 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
-            return False
+        for map1 in metric_bundle1.maps_list:
+            for map2 in metric_bundle2.maps_list:
+                # Maps which set different slice_point keys are OK, and
+                # so are maps which are configured identically.
+                if set(map1.keynames).isdisjoint(map2.keynames) or map1 is map2:
+                    continue
+                config1, config2 = vars(map1), vars(map2)
+                if map1.__class__ is not map2.__class__ or config1.keys() != config2.keys():
+                    return False
+                if not all(np.array_equal(config1[k], config2[k]) for k in config1):
+                    return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
                 # If the stackers have different names, that's OK,
-- 
2.43.0


From 8cbcc255811659e33672c86d0c09607d4eb70e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:38 +0000
Subject: [PATCH 149/233] fix: slice_points got one magnitude each instead of
 the star map bins when there were as many points as bins

---
 rubin_sim/maf/maps/stellar_density_map.py | 6 +++++-
 rubin_sim/maf/maps/trilegal_map.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maps/stellar_density_map.py b/rubin_sim/maf/maps/stellar_density_map.py
index d2f4c4a..ea35afb 100644
--- a/rubin_sim/maf/maps/stellar_density_map.py
+++ b/rubin_sim/maf/maps/stellar_density_map.py
@@ -69,5 +69,9 @@ class StellarDensityMap(BaseMap):
             indx = radec2pix(self.starmap_nside, slice_points["ra"], slice_points["dec"])
             slice_points[f"starLumFunc_{self.filtername}"] = self.star_map[indx, :]
 
-        slice_points[f"starMapBins_{self.filtername}"] = self.star_map_bins
+        # One row of bins per slice_point, like the luminosity function;
+        # slicers would split a single row when nslice == len(bins).
+        slice_points[f"starMapBins_{self.filtername}"] = np.broadcast_to(
+            self.star_map_bins, (np.size(slice_points["ra"]), np.size(self.star_map_bins))
+        )
         return slice_points
diff --git a/rubin_sim/maf/maps/trilegal_map.py b/rubin_sim/maf/maps/trilegal_map.py
index b6bf47c..b27ae23 100644
--- a/rubin_sim/maf/maps/trilegal_map.py
+++ b/rubin_sim/maf/maps/trilegal_map.py
@@ -78,5 +78,9 @@ class TrilegalDensityMap(BaseMap):
         dist, indices = self.tree.query(list(zip(x, y, z)))
 
         slice_points["starLumFunc_%s" % self.filtername] = self.star_map[indices, :]
-        slice_points["starMapBins_%s" % self.filtername] = self.star_map_bins
+        # One row of bins per slice_point, like the luminosity function;
+        # slicers would split a single row when nslice == len(bins).
+        slice_points["starMapBins_%s" % self.filtername] = np.broadcast_to(
+            self.star_map_bins, (np.size(slice_points["ra"]), np.size(self.star_map_bins))
+        )
         return slice_points
-- 
2.43.0


From 515ab51e62848e2721281d755bcb1a46f2da094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 150/233] fix: TwoDMap masked the metric bundle's own values
 below color_min

---
 rubin_sim/maf/plots/two_d_plotters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/plots/two_d_plotters.py b/rubin_sim/maf/plots/two_d_plotters.py
index c8861ee..e572b38 100644
--- a/rubin_sim/maf/plots/two_d_plotters.py
+++ b/rubin_sim/maf/plots/two_d_plotters.py
@@ -77,8 +77,7 @@ class TwoDMap(BasePlotter):
 
         # Mask out values below the color minimum so they show up as white
         if plot_dict["color_min"] is not None:
-            low_vals = np.where(metric_value.data < plot_dict["color_min"])
-            metric_value.mask[low_vals] = True
+            metric_value = np.ma.masked_where(metric_value.data < plot_dict["color_min"], metric_value)
 
         if fig is None:
             fig = plt.figure(figsize=plot_dict["figsize"])
-- 
2.43.0


From cc0e91c46102cc8f81a465ac889173ef13340195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 151/233] fix: TwoDMap could not combine log_scale with
 color_min or color_max

---
 rubin_sim/maf/plots/two_d_plotters.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/plots/two_d_plotters.py b/rubin_sim/maf/plots/two_d_plotters.py
index e572b38..82ec81d 100644
--- a/rubin_sim/maf/plots/two_d_plotters.py
+++ b/rubin_sim/maf/plots/two_d_plotters.py
@@ -71,9 +71,9 @@ class TwoDMap(BasePlotter):
             plot_dict["xextent"] = [0, metric_value[0, :].size]
 
         if plot_dict["log_scale"]:
-            norm = colors.LogNorm()
+            norm = colors.LogNorm(vmin=plot_dict["color_min"], vmax=plot_dict["color_max"])
         else:
-            norm = None
+            norm = colors.Normalize(vmin=plot_dict["color_min"], vmax=plot_dict["color_max"])
 
         # Mask out values below the color minimum so they show up as white
         if plot_dict["color_min"] is not None:
@@ -89,8 +89,6 @@ class TwoDMap(BasePlotter):
         extent.extend(yextent)
         image = ax.imshow(
             metric_value,
-            vmin=plot_dict["color_min"],
-            vmax=plot_dict["color_max"],
             aspect=plot_dict["aspect"],
             cmap=plot_dict["cmap"],
             norm=norm,
-- 
2.43.0


From 2770b295e073f5f11088d67a7675d94de17722ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 152/233] fix: VisitPairsHist left out the largest number of
 visits and counted masked values

---
 rubin_sim/maf/plots/two_d_plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/plots/two_d_plotters.py b/rubin_sim/maf/plots/two_d_plotters.py
index 82ec81d..7416ef9 100644
--- a/rubin_sim/maf/plots/two_d_plotters.py
+++ b/rubin_sim/maf/plots/two_d_plotters.py
@@ -156,9 +156,9 @@ class VisitPairsHist(BasePlotter):
                 plot_dict[key] = user_plot_dict[key]
 
         max_val = metric_value.max()
-        bins = np.arange(0.5, max_val + 0.5, 1)
+        bins = np.arange(0.5, max_val + 1.5, 1)
 
-        vals, bins = np.histogram(metric_value, bins)
+        vals, bins = np.histogram(metric_value.compressed(), bins)
         xvals = (bins[:-1] + bins[1:]) / 2.0
 
         if fig is None:
-- 
2.43.0


From b3eacf2948f7d50adbe1ae659567ec123a8c8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 153/233] fix: TwoDSubsetData used slicer attributes that do
 not exist and mixed up the axes

---
 rubin_sim/maf/plots/nd_plotters.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/plots/nd_plotters.py b/rubin_sim/maf/plots/nd_plotters.py
index 885e243..b653bb3 100644
--- a/rubin_sim/maf/plots/nd_plotters.py
+++ b/rubin_sim/maf/plots/nd_plotters.py
@@ -24,7 +24,7 @@ class TwoDSubsetData(BasePlotter):
         self.default_plot_dict = {
             "title": None,
             "xlabel": None,
-            "ylable": None,
+            "ylabel": None,
             "units": None,
             "log_scale": False,
             "clims": None,
@@ -69,15 +69,17 @@ class TwoDSubsetData(BasePlotter):
         newshape = []
         for b in slicer.bins:
             newshape.append(len(b) - 1)
-        newshape.reverse()
         md = metric_values.reshape(newshape)
         # Sum over other dimensions.
         # Note that masked values are not included in sum.
-        sumaxes = list(range(slicer.nD))
+        sumaxes = list(range(slicer.n_d))
         sumaxes.remove(xaxis)
         sumaxes.remove(yaxis)
         sumaxes = tuple(sumaxes)
         md = md.sum(sumaxes)
+        # Rows of the contour plot follow the y axis.
+        if xaxis < yaxis:
+            md = md.T
         # Plot the histogrammed data.
         # Plot data.
         x, y = np.meshgrid(slicer.bins[xaxis][:-1], slicer.bins[yaxis][:-1])
@@ -101,11 +103,11 @@ class TwoDSubsetData(BasePlotter):
             )
         xlabel = plot_dict["xlabel"]
         if xlabel is None:
-            xlabel = slicer.sliceColList[xaxis]
+            xlabel = slicer.slice_col_list[xaxis]
         plt.xlabel(xlabel)
         ylabel = plot_dict["ylabel"]
         if ylabel is None:
-            ylabel = slicer.sliceColList[yaxis]
+            ylabel = slicer.slice_col_list[yaxis]
         plt.ylabel(ylabel)
         cb = plt.colorbar(
             im,
-- 
2.43.0


From 65ee1692cc01e2382af4eb472bc7fa7e95828111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 154/233] fix: OneDSubsetData used slicer attributes that do
 not exist and an unrelated figure

---
 rubin_sim/maf/plots/nd_plotters.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/plots/nd_plotters.py b/rubin_sim/maf/plots/nd_plotters.py
index b653bb3..a2c2586 100644
--- a/rubin_sim/maf/plots/nd_plotters.py
+++ b/rubin_sim/maf/plots/nd_plotters.py
@@ -174,18 +174,17 @@ class OneDSubsetData(BasePlotter):
             raise ValueError("axis for 1-d plot must be specified in plot_dict")
 
         if fig is None:
-            fig = plt.Figure(figsize=plot_dict["figsize"])
+            fig = plt.figure(figsize=plot_dict["figsize"])
         # Reshape the metric data so we can isolate the values to plot
         # (just new view of data, not copy).
         axis = plot_dict["axis"]
         newshape = []
         for b in slicer.bins:
             newshape.append(len(b) - 1)
-        newshape.reverse()
         md = metric_values.reshape(newshape)
         # Sum over other dimensions.
         # Note that masked values are not included in sum.
-        sumaxes = list(range(slicer.nD))
+        sumaxes = list(range(slicer.n_d))
         sumaxes.remove(axis)
         sumaxes = tuple(sumaxes)
         md = md.sum(sumaxes)
@@ -212,7 +211,7 @@ class OneDSubsetData(BasePlotter):
         plt.ylabel(plot_dict["ylabel"])
         xlabel = plot_dict["xlabel"]
         if xlabel is None:
-            xlabel = slicer.sliceColName[axis]
+            xlabel = slicer.slice_col_list[axis]
             if plot_dict["units"] is not None:
                 xlabel += " (" + plot_dict["units"] + ")"
         plt.xlabel(xlabel)
-- 
2.43.0


From 4ad3d5b6e6d098f9877db18b0d7817574bd27fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 155/233] fix: MetricVsOrbit and MetricVsOrbitPoints could not
 find the H value to show

---
 rubin_sim/maf/plots/mo_plotters.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/maf/plots/mo_plotters.py b/rubin_sim/maf/plots/mo_plotters.py
index 0e8b99b..a83ddb2 100644
--- a/rubin_sim/maf/plots/mo_plotters.py
+++ b/rubin_sim/maf/plots/mo_plotters.py
@@ -195,28 +195,30 @@ class MetricVsOrbit(BasePlotter):
         nybins = len(ybins)
         # Identify the relevant metric_values for the Hvalue we want to plot.
         hvals = slicer.slice_points["H"]
-        hwidth = plot_dict["hwidth"]
+        hwidth = plot_dict["Hwidth"]
         if hwidth is None:
             hwidth = 1.0
         if len(hvals) == slicer.shape[1]:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hidx = int(len(hvals) / 2)
                 hval = hvals[hidx]
             else:
-                hval = plot_dict["hval"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) == np.abs(hvals - hval).min())[0]
                 hidx = hidx[0]
         else:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hval = np.median(hvals)
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
             else:
-                hval = plot_dict["hvals"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
         if len(hvals) == slicer.shape[1]:
             m_vals = np.swapaxes(metric_value, 1, 0)[hidx].filled()
         else:
-            m_vals = metric_value[hidx].filled()
+            m_vals = metric_value[hidx].filled()[:, 0]
+            xvals = np.asarray(xvals)[hidx]
+            yvals = np.asarray(yvals)[hidx]
         # Calculate the np_reduce'd metric values at each x/y bin.
         if "color_min" in plot_dict:
             badval = plot_dict["color_min"] - 1
@@ -294,28 +296,30 @@ class MetricVsOrbitPoints(BasePlotter):
         yvals = slicer.slice_points["orbits"][plot_dict["yaxis"]]
         # Identify the relevant metric_values for the Hvalue we want to plot.
         hvals = slicer.slice_points["H"]
-        hwidth = plot_dict["hwidth"]
+        hwidth = plot_dict["Hwidth"]
         if hwidth is None:
             hwidth = 1.0
         if len(hvals) == slicer.shape[1]:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hidx = int(len(hvals) / 2)
                 hval = hvals[hidx]
             else:
-                hval = plot_dict["hval"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) == np.abs(hvals - hval).min())[0]
                 hidx = hidx[0]
         else:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hval = np.median(hvals)
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
             else:
-                hval = plot_dict["hvals"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
         if len(hvals) == slicer.shape[1]:
             m_vals = np.swapaxes(metric_value, 1, 0)[hidx]
         else:
-            m_vals = metric_value[hidx]
+            m_vals = metric_value[hidx][:, 0]
+            xvals = np.asarray(xvals)[hidx]
+            yvals = np.asarray(yvals)[hidx]
         if "color_min" in plot_dict:
             v_min = plot_dict["color_min"]
         else:
-- 
2.43.0


From 67497df972f9600d88c9f63aa604b128de5d1ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 156/233] fix: MetricVsH changed the plot settings it was given

---
 rubin_sim/maf/plots/mo_plotters.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/maf/plots/mo_plotters.py b/rubin_sim/maf/plots/mo_plotters.py
index a83ddb2..5a6521e 100644
--- a/rubin_sim/maf/plots/mo_plotters.py
+++ b/rubin_sim/maf/plots/mo_plotters.py
@@ -41,9 +41,7 @@ class MetricVsH(BasePlotter):
         self.min_hrange = 1.0
 
     def __call__(self, metric_value, slicer, user_plot_dict, fig=None):
-        if "linestyle" not in user_plot_dict:
-            user_plot_dict["linestyle"] = "-"
-        plot_dict = {}
+        plot_dict = {"linestyle": "-"}
         plot_dict.update(self.default_plot_dict)
         plot_dict.update(user_plot_dict)
         hvals = slicer.slice_points["H"]
-- 
2.43.0


From 007dad1c3aafdfd9e69b75b036d1419fa4500d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 157/233] fix: NightPointingPlotter looked for columns that
 NightPointingMetric does not use

---
 rubin_sim/maf/plots/night_pointing_plotter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/plots/night_pointing_plotter.py b/rubin_sim/maf/plots/night_pointing_plotter.py
index cac3372..6bb91e6 100644
--- a/rubin_sim/maf/plots/night_pointing_plotter.py
+++ b/rubin_sim/maf/plots/night_pointing_plotter.py
@@ -9,12 +9,13 @@ from .plot_handler import BasePlotter
 
 
 class NightPointingPlotter(BasePlotter):
-    def __init__(self, mjd_col="observationStartMJD", alt_col="alt", az_col="az"):
+    def __init__(self, mjd_col="observationStartMJD", alt_col="altitude", az_col="azimuth", filter_col="band"):
         # Just call it Hourglass so it gets treated the same way
         self.plot_type = "Hourglass"
         self.mjd_col = mjd_col
         self.alt_col = alt_col
         self.az_col = az_col
+        self.filter_col = filter_col
         self.object_plotter = True
         self.default_plot_dict = {
             "title": None,
@@ -38,9 +39,9 @@ class NightPointingPlotter(BasePlotter):
 
         mv = metric_value[0]
 
-        u_filters = np.unique(mv["data_slice"]["filter"])
+        u_filters = np.unique(mv["data_slice"][self.filter_col])
         for filt in u_filters:
-            good = np.where(mv["data_slice"]["filter"] == filt)
+            good = np.where(mv["data_slice"][self.filter_col] == filt)
             ax1.plot(
                 mv["data_slice"][self.mjd_col][good],
                 mv["data_slice"][self.alt_col][good],
-- 
2.43.0


From 6c9380f3f92e7723a40a912909a15e0dfdaed1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 158/233] fix: HealpixSkyMap with a log scale and zero in the
 range started the colours at the largest value

---
 rubin_sim/maf/plots/spatial_plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/plots/spatial_plotters.py b/rubin_sim/maf/plots/spatial_plotters.py
index 9347c3a..c28887e 100644
--- a/rubin_sim/maf/plots/spatial_plotters.py
+++ b/rubin_sim/maf/plots/spatial_plotters.py
@@ -209,7 +209,7 @@ class HealpixSkyMap(BasePlotter):
             # Try something simple
             above = metric_value[np.where(metric_value > 0)]
             if len(above) > 0:
-                clims[0] = above.max()
+                clims[0] = above.min()
             # If still bad, give up and turn off norm
             if (clims[0] <= 0 <= clims[1]) or (clims[0] >= 0 >= clims[1]):
                 norm = None
-- 
2.43.0


From 08ae127d8ec1e948e6a05f6987e83768af3556d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 159/233] fix: HealpixSkyMap masked the metric bundle's own
 values with mask_below

---
 rubin_sim/maf/plots/spatial_plotters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/plots/spatial_plotters.py b/rubin_sim/maf/plots/spatial_plotters.py
index c28887e..b825e85 100644
--- a/rubin_sim/maf/plots/spatial_plotters.py
+++ b/rubin_sim/maf/plots/spatial_plotters.py
@@ -188,8 +188,7 @@ class HealpixSkyMap(BasePlotter):
             metric_value = apply_zp_norm(metric_value, plot_dict)
 
         if plot_dict["mask_below"] is not None:
-            to_mask = np.where(metric_value <= plot_dict["mask_below"])[0]
-            metric_value.mask[to_mask] = True
+            metric_value = ma.masked_where(metric_value <= plot_dict["mask_below"], metric_value)
             badval = hp.UNSEEN
         else:
             badval = slicer.badval
-- 
2.43.0


From 20cf665a7a8eda95298952ac1b0469c9fc10367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 160/233] fix: HealpixSkyMap of a non-healpix slicer averaged
 bad values of masked points into the map

---
 rubin_sim/maf/plots/spatial_plotters.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/plots/spatial_plotters.py b/rubin_sim/maf/plots/spatial_plotters.py
index b825e85..9944db7 100644
--- a/rubin_sim/maf/plots/spatial_plotters.py
+++ b/rubin_sim/maf/plots/spatial_plotters.py
@@ -173,18 +173,17 @@ class HealpixSkyMap(BasePlotter):
             metric_value = apply_zp_norm(metric_value_in, plot_dict)
         else:
             # Bin the values up on a healpix grid.
+            # (leaving out points and healpixels without values).
+            good = np.where(~ma.getmaskarray(metric_value_in))[0]
             metric_value = _healbin(
-                slicer.slice_points["ra"],
-                slicer.slice_points["dec"],
-                metric_value_in.filled(slicer.badval),
+                slicer.slice_points["ra"][good],
+                slicer.slice_points["dec"][good],
+                metric_value_in.data[good],
                 nside=plot_dict["nside"],
                 reduce_func=plot_dict["reduce_func"],
-                fill_val=slicer.badval,
+                fill_val=np.nan,
             )
-            mask = np.zeros(metric_value.size)
-            mask[np.where(metric_value == slicer.badval)] = 1
-
-            metric_value = ma.array(metric_value, mask=mask)
+            metric_value = ma.masked_invalid(metric_value)
             metric_value = apply_zp_norm(metric_value, plot_dict)
 
         if plot_dict["mask_below"] is not None:
-- 
2.43.0


From 280dc5c6c0155af963f7e53b3319bf5d609b7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 161/233] fix: HealpixPowerSpectrum drew each spectrum of a
 combined figure on new axes over the others

---
 rubin_sim/maf/plots/spatial_plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/plots/spatial_plotters.py b/rubin_sim/maf/plots/spatial_plotters.py
index 9944db7..7d5ef40 100644
--- a/rubin_sim/maf/plots/spatial_plotters.py
+++ b/rubin_sim/maf/plots/spatial_plotters.py
@@ -329,7 +329,7 @@ class HealpixPowerSpectrum(BasePlotter):
 
         if fig is None:
             fig = plt.figure(figsize=plot_dict["figsize"])
-        if plot_dict["subplot"] != "111":
+        if str(plot_dict["subplot"]) != "111":
             fig.add_subplot(plot_dict["subplot"])
         # If the mask is True everywhere (no data), just plot zeros
         if False not in metric_value.mask:
-- 
2.43.0


From b21837c91067c6aa985d143d6eea21303738bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:07 +0000
Subject: [PATCH 162/233] fix: PlotHandler reset xlim and ylim of combined
 figures even when they were the same

---
 rubin_sim/maf/plots/plot_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 0fb605b..02a9715 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -595,8 +595,8 @@ class PlotHandler:
         if len(subplots) <= 1:
             reset_keys = []
             for key in keys2_check:
-                values = [pd[key] for pd in self.plot_dicts if key in pd]
-                if len(np.unique(values)) > 1:
+                values = [pd[key] for pd in self.plot_dicts if pd.get(key) is not None]
+                if any(not np.array_equal(v, values[0]) for v in values):
                     # We will reset some of the keys to the default,
                     # but for some we should do better.
                     if key.endswith("Max"):
-- 
2.43.0


From d687b3e6dc389362c8e5f9d8d4d80541952c21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:07 +0000
Subject: [PATCH 163/233] fix: PlotHandler dropped color_min and color_max of
 combined figures instead of spanning them

---
 rubin_sim/maf/plots/plot_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 02a9715..5b71946 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -599,10 +599,10 @@ class PlotHandler:
                 if any(not np.array_equal(v, values[0]) for v in values):
                     # We will reset some of the keys to the default,
                     # but for some we should do better.
-                    if key.endswith("Max"):
+                    if key.endswith("max"):
                         for pd in self.plot_dicts:
                             pd[key] = np.max(values)
-                    elif key.endswith("Min"):
+                    elif key.endswith("min"):
                         for pd in self.plot_dicts:
                             pd[key] = np.min(values)
                     elif key == "title":
-- 
2.43.0


From 03423e08942e103f3d539934fdb7af6ca2efbdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:07 +0000
Subject: [PATCH 164/233] fix: names and titles of combined figures differed
 from process to process and lost or failed on some labels

---
 rubin_sim/maf/plots/plot_handler.py | 56 ++++++++++-------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 5b71946..606f6f9 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -214,9 +214,7 @@ class PlotHandler:
         Combine metric names.
         """
         # Find the unique metric names.
-        self.metric_names = set()
-        for m_b in self.m_bundles:
-            self.metric_names.add(m_b.metric.name)
+        self.metric_names = list(dict.fromkeys(m_b.metric.name for m_b in self.m_bundles))
         # Find a pleasing combination of the metric names.
         order = ["u", "g", "r", "i", "z", "y"]
         if len(self.metric_names) == 1:
@@ -231,10 +229,10 @@ class PlotHandler:
             if len(set(name_lengths)) == 1:
                 joint_name = []
                 for i in range(name_lengths[0]):
-                    tmp = set([x[i] for x in name_lists])
+                    tmp = list(dict.fromkeys(x[i] for x in name_lists))
                     # Try to catch special case of filters and
                     # put them in order.
-                    if tmp.intersection(order) == tmp:
+                    if set(tmp).issubset(order):
                         filterlist = ""
                         for f in order:
                             if f in tmp:
@@ -254,18 +252,14 @@ class PlotHandler:
         """
         Combine runNames.
         """
-        self.run_names = set()
-        for m_b in self.m_bundles:
-            self.run_names.add(m_b.run_name)
+        self.run_names = list(dict.fromkeys(m_b.run_name for m_b in self.m_bundles))
         self.joint_run_names = " ".join(self.run_names)
 
     def _combine_metadata(self):
         """
         Combine info_label.
         """
-        info_label = set()
-        for m_b in self.m_bundles:
-            info_label.add(m_b.info_label)
+        info_label = list(dict.fromkeys(m_b.info_label for m_b in self.m_bundles))
         self.info_label = info_label
         # Find a pleasing combination of the info_label.
         if len(info_label) == 1:
@@ -288,36 +282,27 @@ class PlotHandler:
                         m,
                     ]
                 # Strip white spaces from individual elements.
-                m = set([im.strip() for im in m])
+                m = list(dict.fromkeys(im.strip() for im in m))
                 splitmetas.append(m)
             # Look for common elements and
             # separate from the general info_label.
-            common = set.intersection(*splitmetas)
-            diff = [x.difference(common) for x in splitmetas]
+            common = [x for x in splitmetas[0] if all(x in m for m in splitmetas)]
+            diff = [[x for x in m if x not in common] for m in splitmetas]
             # Now look within the 'diff' elements and
             # see if there are any common words to split off.
             diffsplit = []
             for d in diff:
-                if len(d) > 0:
-                    m = set([x.split() for x in d][0])
-                else:
-                    m = set()
+                m = list(dict.fromkeys(word for x in d for word in x.split()))
                 diffsplit.append(m)
-            diffcommon = set.intersection(*diffsplit)
-            diffdiff = [x.difference(diffcommon) for x in diffsplit]
+            diffcommon = [x for x in diffsplit[0] if all(x in m for m in diffsplit)]
+            diffdiff = [[x for x in m if x not in diffcommon] for m in diffsplit]
             # If the length of any of the 'differences' is 0,
             # then we should stop and not try to subdivide.
             lengths = [len(x) for x in diffdiff]
             if min(lengths) == 0:
                 # Sort them in order of length
                 # (so it goes 'g', 'g dithered', etc.)
-                tmp = []
-                for d in diff:
-                    tmp.append(list(d)[0])
-                diff = tmp
-                xlengths = [len(x) for x in diff]
-                idx = np.argsort(xlengths)
-                diffdiff = [diff[i] for i in idx]
+                diffdiff = sorted([" ".join(d) for d in diff if len(d) > 0], key=len)
                 diffcommon = []
             else:
                 # diffdiff is the part where we might expect
@@ -328,7 +313,7 @@ class PlotHandler:
                 for f in order:
                     for d in diffdiff:
                         if len(d) == 1:
-                            if list(d)[0] == f:
+                            if d[0] == f:
                                 diffdiff_ordered.append(d)
                 for d in diffdiff:
                     if d not in diffdiff_ordered:
@@ -349,10 +334,7 @@ class PlotHandler:
         """
         Combine the constraints.
         """
-        constraints = set()
-        for m_b in self.m_bundles:
-            if m_b.constraint is not None:
-                constraints.add(m_b.constraint)
+        constraints = dict.fromkeys(m_b.constraint for m_b in self.m_bundles if m_b.constraint is not None)
         self.constraints = "; ".join(constraints)
 
     def _build_title(self):
@@ -363,11 +345,11 @@ class PlotHandler:
         # the metric/run_name/info_label.
         plot_title = ""
         if len(self.run_names) == 1:
-            plot_title += list(self.run_names)[0]
+            plot_title += self.run_names[0]
         if len(self.info_label) == 1:
-            plot_title += " " + list(self.info_label)[0]
+            plot_title += " " + self.info_label[0]
         if len(self.metric_names) == 1:
-            plot_title += ": " + list(self.metric_names)[0]
+            plot_title += ": " + self.metric_names[0]
         if plot_title == "":
             # If there were more than one of everything above,
             # use joint info_label and metricNames.
@@ -392,9 +374,7 @@ class PlotHandler:
                     xlabel = m_b.slicer.slice_col_name + " \n(" + m_b.slicer.slice_col_units + ")"
                 ylabel = m_b.metric.name + " (" + m_b.metric.units + ")"
             else:
-                xlabel = set()
-                for m_b in self.m_bundles:
-                    xlabel.add(m_b.slicer.slice_col_name)
+                xlabel = dict.fromkeys(m_b.slicer.slice_col_name for m_b in self.m_bundles)
                 xlabel = ", ".join(xlabel)
                 ylabel = self.joint_metric_names
         elif plot_func.plot_type == "MetricVsH":
-- 
2.43.0


From f2cb7209960e6b907461837613c71f4090c90e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 165/233] fix: MetricVsOrbitPoints could not draw its
 background points

---
 rubin_sim/maf/plots/mo_plotters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/plots/mo_plotters.py b/rubin_sim/maf/plots/mo_plotters.py
index 5a6521e..fffd4fa 100644
--- a/rubin_sim/maf/plots/mo_plotters.py
+++ b/rubin_sim/maf/plots/mo_plotters.py
@@ -290,8 +290,8 @@ class MetricVsOrbitPoints(BasePlotter):
         plot_dict.update(user_plot_dict)
         if fig is None:
             fig = plt.figure(figsize=plot_dict["figsize"])
-        xvals = slicer.slice_points["orbits"][plot_dict["xaxis"]]
-        yvals = slicer.slice_points["orbits"][plot_dict["yaxis"]]
+        xvals = np.asarray(slicer.slice_points["orbits"][plot_dict["xaxis"]])
+        yvals = np.asarray(slicer.slice_points["orbits"][plot_dict["yaxis"]])
         # Identify the relevant metric_values for the Hvalue we want to plot.
         hvals = slicer.slice_points["H"]
         hwidth = plot_dict["Hwidth"]
@@ -328,7 +328,7 @@ class MetricVsOrbitPoints(BasePlotter):
             v_max = m_vals.max()
         if plot_dict["backgroundPoints"]:
             # This isn't quite right for the condition .. but will do for now.
-            condition = np.where(m_vals == 0)
+            condition = np.where(m_vals == 0)[0]
             plt.plot(
                 xvals[condition],
                 yvals[condition],
-- 
2.43.0


From a52e346f13d54cbed3f1fde6f569eddc882453e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:46 +0000
Subject: [PATCH 166/233] fix: NightPointingMetric returned time objects that
 its plotter could not draw

---
 rubin_sim/maf/metrics/night_pointing_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/night_pointing_metric.py b/rubin_sim/maf/metrics/night_pointing_metric.py
index 9eacf24..7295c58 100644
--- a/rubin_sim/maf/metrics/night_pointing_metric.py
+++ b/rubin_sim/maf/metrics/night_pointing_metric.py
@@ -56,7 +56,7 @@ class NightPointingMetric(BaseMetric):
 
         moon_alts = np.array(moon_coords.alt.rad)
         moon_azs = np.array(moon_coords.az.rad)
-        mjds = np.array(mjds)
+        mjds = np.array(mjds.mjd)
         sun_alts = np.array(sun_coords.alt.rad)
         sun_azs = np.array(sun_coords.az.rad)
 
-- 
2.43.0


From 6ad5e2016e28e52dd8a1005b7caeceffd4f10b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 167/233] fix: MetricBundle did not accept a single plotter as
 plot_funcs

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 023dac0..c9323d8 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -369,7 +369,7 @@ class MetricBundle:
             The plotter or plotters to use to generate visuals for this metric.
         """
         if plot_funcs is not None:
-            if plot_funcs is isinstance(plot_funcs, plots.BasePlotter):
+            if isinstance(plot_funcs, plots.BasePlotter):
                 self.plot_funcs = [plot_funcs]
             else:
                 self.plot_funcs = []
-- 
2.43.0


From 8392462ba7891a661ecdc09b540e1e6e050105e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:26 +0000
Subject: [PATCH 168/233] fix: MetricBundle did not accept a single map as
 maps_list

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index c9323d8..663a0c9 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -155,7 +155,7 @@ class MetricBundle:
         # Set the 'maps' to apply to the slicer, if applicable.
         if maps_list is not None:
             if isinstance(maps_list, maps.BaseMap):
-                self.known_cols = [
+                self.maps_list = [
                     maps_list,
                 ]
             else:
-- 
2.43.0


From 8cd0019278d03bacf3164bad34e1b2e3b45bb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:26 +0000
Subject: [PATCH 169/233] fix: MetricBundle.plot failed when given a plotter

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 663a0c9..e482a06 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -809,7 +809,7 @@ class MetricBundle:
         made_plots = {}
         if plot_func is not None:
             fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-            made_plots[plot_func.plotType] = fig
+            made_plots[plot_func.plot_type] = fig
         else:
             for plot_func in self.plot_funcs:
                 fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-- 
2.43.0


From 161212a2f4565f7ddbd7eeb3eb74e9af8577cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:26 +0000
Subject: [PATCH 170/233] fix: MetricBundle failed when zp or norm_val was None
 in the plot_dict

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index e482a06..e47f339 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -454,9 +454,9 @@ class MetricBundle:
                     caption += "."
             else:
                 caption = self.metric.comment
-            if "zp" in self.plot_dict:
+            if self.plot_dict.get("zp") is not None:
                 caption += " Values plotted with a zeropoint of %.2f." % (self.plot_dict["zp"])
-            if "norm_val" in self.plot_dict:
+            if self.plot_dict.get("norm_val") is not None:
                 caption += " Values plotted with a normalization value of %.2f." % (
                     self.plot_dict["norm_val"]
                 )
-- 
2.43.0


From 14c7e6cadec6a8a52b10a98ace9393ce30f49a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:26 +0000
Subject: [PATCH 171/233] fix: MetricBundleGroup stages failed when the
 constraint of any bundle had no data

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 2d01165..bb2072c 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -587,8 +587,8 @@ class MetricBundleGroup:
         reduce_bundle_dict = {}
         for b in self.current_bundle_dict.values():
             # If there are no reduce functions associated with the metric,
-            # skip this metricBundle.
-            if len(b.metric.reduce_funcs) > 0:
+            # or it has no values (no data), skip this metricBundle.
+            if len(b.metric.reduce_funcs) > 0 and b.metric_values is not None:
                 # Apply reduce functions, creating a new metricBundle in
                 # the process (new metric values).
                 for r in b.metric.reduce_funcs:
@@ -627,7 +627,9 @@ class MetricBundleGroup:
         currently active set of MetricBundles.
         """
         for b in self.current_bundle_dict.values():
-            b.compute_summary_stats(self.results_db)
+            # Skip metricBundles without values (no data).
+            if b.metric_values is not None:
+                b.compute_summary_stats(self.results_db)
 
     def plot_all(
         self,
@@ -757,7 +759,9 @@ class MetricBundleGroup:
             else:
                 print("Saving metric bundles.")
         for b in self.current_bundle_dict.values():
-            b.write(out_dir=self.out_dir, results_db=self.results_db)
+            # Skip metricBundles without values (no data).
+            if b.metric_values is not None:
+                b.write(out_dir=self.out_dir, results_db=self.results_db)
 
     def read_all(self):
         """Attempt to read all MetricBundles from disk.
-- 
2.43.0


From 3e994575d83cdc7cc6d13c4a6b40e49075243040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 172/233] fix: dropping the column from the names of the
 standard statistics cut other letters

---
 rubin_sim/maf/batches/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/common.py b/rubin_sim/maf/batches/common.py
index e942d87..e8e16c9 100644
--- a/rubin_sim/maf/batches/common.py
+++ b/rubin_sim/maf/batches/common.py
@@ -175,7 +175,7 @@ def standard_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.removesuffix(" %s" % colname)
     return standardMetrics
 
 
@@ -213,7 +213,7 @@ def extended_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.removesuffix(" %s" % colname)
     return extendedMetrics
 
 
@@ -248,7 +248,7 @@ def standard_angle_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.removesuffix(" %s" % colname)
     return standardAngleMetrics
 
 
-- 
2.43.0


From abbfca979992e2095283e70e1e1dba2db407449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 173/233] fix: phaseGap could not be built

---
 rubin_sim/maf/batches/time_sci_batch.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/batches/time_sci_batch.py b/rubin_sim/maf/batches/time_sci_batch.py
index 9506202..a50a18c 100644
--- a/rubin_sim/maf/batches/time_sci_batch.py
+++ b/rubin_sim/maf/batches/time_sci_batch.py
@@ -49,6 +49,7 @@ def phaseGap(
     raCol = colmap["ra"]
     decCol = colmap["dec"]
     degrees = colmap["raDecDeg"]
+    band_col = colmap["filter"]
 
     bundleList = []
     standardStats = standard_summary()
@@ -59,9 +60,9 @@ def phaseGap(
     # largest phase gap for periods
     periods = [0.1, 1.0, 10.0, 100.0]
     sqls = [
-        "band='u'",
-        "band='r'",
-        "band='g' or band='r' or band='i' or band='z'",
+        f"{band_col}='u'",
+        f"{band_col}='r'",
+        f"{band_col}='g' or {band_col}='r' or {band_col}='i' or {band_col}='z'",
         "",
     ]
     filter_names = ["u", "r", "griz", "all"]
@@ -69,8 +70,7 @@ def phaseGap(
     if info_label is not None:
         info_labels = [combine_info_labels(m, info_label) for m in info_labels]
     if extraSql is not None and len(extraSql) > 0:
-        for sql in sqls:
-            sqls[sql] = "(%s) and (%s)" % (sqls[sql], extraSql)
+        sqls = ["(%s) and (%s)" % (sql, extraSql) if len(sql) > 0 else extraSql for sql in sqls]
 
     for sql, md, f in zip(sqls, info_labels, filter_names):
         for period in periods:
@@ -80,14 +80,15 @@ def phaseGap(
                 "caption": "Maximum phase gap, given a period of %.2f days." % period,
             }
             metric = metrics.PhaseGapMetric(
-                nPeriods=1,
-                periodMin=period,
-                periodMax=period,
-                nVisitsMin=5,
+                col=colmap["mjd"],
+                n_periods=1,
+                period_min=period,
+                period_max=period,
+                n_visits_min=5,
                 metric_name="PhaseGap %.1f day" % period,
             )
-            metric.reduceFuncs = {metric.reduceFuncs["reduceLargestGap"]}
-            metric.reduceOrder = {0}
+            metric.reduce_funcs = {"largest_gap": metric.reduce_largest_gap}
+            metric.reduce_order = {"largest_gap": 0}
             bundle = mb.MetricBundle(
                 metric,
                 slicer,
-- 
2.43.0


From 15ecccdd9776471174f128dc77dce655bc6468bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 174/233] fix: nvisitsPerSubset failed with a constraint and no
 label

---
 rubin_sim/maf/batches/visitdepth_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/batches/visitdepth_batch.py b/rubin_sim/maf/batches/visitdepth_batch.py
index 28a2ebd..0ccc672 100644
--- a/rubin_sim/maf/batches/visitdepth_batch.py
+++ b/rubin_sim/maf/batches/visitdepth_batch.py
@@ -417,7 +417,7 @@ def nvisitsPerSubset(
 
     if footprintConstraint is None:
         if extraInfoLabel is None and constraint is not None:
-            extraInfoLabel += " %s" % constraint
+            extraInfoLabel = "%s" % constraint
         # Nvisits per night, this constraint.
         bdict.update(
             nvisitsPerNight(
-- 
2.43.0


From d8c027b3f5bd5f700b708c9a7805b8ef1c27febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 175/233] fix: astrometryBatch y band metrics had no visits, or
 those outside the selection

---
 rubin_sim/maf/batches/srd_batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/batches/srd_batch.py b/rubin_sim/maf/batches/srd_batch.py
index e1a7e34..6187338 100644
--- a/rubin_sim/maf/batches/srd_batch.py
+++ b/rubin_sim/maf/batches/srd_batch.py
@@ -362,9 +362,9 @@ def astrometryBatch(
     else:
         yinfo = f"{info_label} y band only"
     if len(sql) == 0:
-        ysql = "filter == 'y'"
+        ysql = f"{band_col} == 'y'"
     else:
-        ysql = f"{sql} and filter == 'y'"
+        ysql = f"({sql}) and {band_col} == 'y'"
     plotDict = {"x_min": 0, "x_max": 15, "color_min": 0, "color_max": 15}
     metric = metrics.ParallaxMetric(
         metric_name="Parallax Uncert @ %.1f" % (ymag),
-- 
2.43.0


From be4e22a354f13e739800ffa9797867d35c0facb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 176/233] fix: intraNight band pairs had no visits, or those
 outside the selection

---
 rubin_sim/maf/batches/time_batch.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/batches/time_batch.py b/rubin_sim/maf/batches/time_batch.py
index 6ca391f..13b4edb 100644
--- a/rubin_sim/maf/batches/time_batch.py
+++ b/rubin_sim/maf/batches/time_batch.py
@@ -57,6 +57,7 @@ def intraNight(
     raCol = colmap["ra"]
     decCol = colmap["dec"]
     degrees = colmap["raDecDeg"]
+    band_col = colmap["filter"]
 
     bundleList = []
     standardStats = standard_summary()
@@ -73,9 +74,9 @@ def intraNight(
         "order": 0,
     }
     if extraSql is not None and len(extraSql) > 0:
-        sql = "(%s) and (band='g' or band='r' or band='i')" % extraSql
+        sql = f"({extraSql}) and ({band_col}='g' or {band_col}='r' or {band_col}='i')"
     else:
-        sql = "band='g' or band='r' or band='i'"
+        sql = f"{band_col}='g' or {band_col}='r' or {band_col}='i'"
     md = "gri"
     if info_label is not None:
         md += " " + info_label
@@ -214,16 +215,16 @@ def intraNight(
         bundleList.append(bundle)
     # subsets of adjacent filters
     filtersubsets = {
-        "ug": "(filter = 'u' or filter = 'g')",
-        "gr": "(filter = 'g' or filter = 'r')",
-        "ri": "(filter = 'r' or filter = 'i')",
-        "iz": "(filter = 'i' or filter = 'z')",
-        "zy": "(filter = 'z' or filter = 'y')",
+        "ug": f"({band_col} = 'u' or {band_col} = 'g')",
+        "gr": f"({band_col} = 'g' or {band_col} = 'r')",
+        "ri": f"({band_col} = 'r' or {band_col} = 'i')",
+        "iz": f"({band_col} = 'i' or {band_col} = 'z')",
+        "zy": f"({band_col} = 'z' or {band_col} = 'y')",
     }
     sqls = [extraSql]
     if extraSql is not None and len(extraSql) > 0:
         for fi in filtersubsets:
-            sqls.append(f"{extraSql} and {filtersubsets[fi]}")
+            sqls.append(f"({extraSql}) and {filtersubsets[fi]}")
     else:
         for fi in filtersubsets:
             sqls.append(f"{filtersubsets[fi]}")
-- 
2.43.0


From f7efb08f95ed8b0a2f8f545b68a4cd108f72289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 177/233] fix: glanceBatch applied the additional constraint to
 some of its metrics only

---
 rubin_sim/maf/batches/glance_batch.py | 43 +++++++++++++++++----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/rubin_sim/maf/batches/glance_batch.py b/rubin_sim/maf/batches/glance_batch.py
index 5a6fbc0..c62a44c 100644
--- a/rubin_sim/maf/batches/glance_batch.py
+++ b/rubin_sim/maf/batches/glance_batch.py
@@ -64,11 +64,20 @@ def glanceBatch(
 
     bundle_list = []
 
-    if sql_constraint is None:
+    if sql_constraint is None or len(sql_constraint) == 0:
+        sql_constraint = None
         sqlC = ""
     else:
         sqlC = "(%s) and" % sql_constraint
 
+    def add_constraint(sql):
+        """Add the additional SQL constraint to sql."""
+        if sql_constraint is None:
+            return sql
+        if len(sql) == 0:
+            return sql_constraint
+        return "%s (%s)" % (sqlC, sql)
+
     if slicer_camera == "LSST":
         spatial_slicer = slicers.HealpixSlicer
     elif slicer_camera == "ComCam":
@@ -144,7 +153,7 @@ def glanceBatch(
         bundle_list.append(bundle)
 
     # alt az of long gaps
-    sql = "scheduler_note = 'long'"
+    sql = add_constraint("scheduler_note = 'long'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -156,7 +165,7 @@ def glanceBatch(
     )
     bundle_list.append(bundle)
 
-    sql = "scheduler_note like 'blob_long%'"
+    sql = add_constraint("scheduler_note like 'blob_long%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits blob long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -168,7 +177,7 @@ def glanceBatch(
     )
     bundle_list.append(bundle)
 
-    sql = "scheduler_note like '%neo%' or scheduler_note like '%near_sun%'"
+    sql = add_constraint("scheduler_note like '%neo%' or scheduler_note like '%near_sun%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits twilight near sun")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -182,7 +191,7 @@ def glanceBatch(
 
     # alt,az pf ToO
 
-    sql = "scheduler_note like 'ToO%'"
+    sql = add_constraint("scheduler_note like 'ToO%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -265,7 +274,8 @@ def glanceBatch(
     rolling_sqls.append("night < 365.25")
     rolling_sqls.append("night > %f and night < %f" % (365.25 * 2.5, 365.25 * 3.5))
     rolling_sqls.append("night > %f and night < %f" % (365.25 * 3.5, 365.25 * 4.5))
-    for metric, sql in zip(rolling_metrics, rolling_sqls):
+    for metric, rolling_sql in zip(rolling_metrics, rolling_sqls):
+        sql = add_constraint(rolling_sql)
         bundle = metric_bundles.MetricBundle(
             metric,
             slicer,
@@ -277,7 +287,7 @@ def glanceBatch(
         bundle_list.append(bundle)
 
     # Make a cumulative plot of a WFD spot
-    sql = "scheduler_note not like '%NEO%' and scheduler_note not like '%near_sun%'"
+    sql = add_constraint("scheduler_note not like '%NEO%' and scheduler_note not like '%near_sun%'")
     uslicer = slicers.UserPointsSlicer(ra=0, dec=-20)
     metric = metrics.CumulativeMetric()
     metricb = metric_bundles.MetricBundle(
@@ -368,7 +378,7 @@ def glanceBatch(
         metric = metrics.StringCountMetric(
             col=colmap["scheduler_note_root"], percent=True, metric_name="Percents", clip_end=False
         )
-        sql = ""
+        sql = add_constraint("")
         slicer = slicers.UniSlicer()
         bundle = metric_bundles.MetricBundle(metric, slicer, sql, display_dict=displayDict)
         bundle_list.append(bundle)
@@ -385,7 +395,7 @@ def glanceBatch(
         metric = metrics.StringCountMetric(
             col=colmap["scheduler_note_root"], percent=True, metric_name="Percents", clip_end=False
         )
-        sql = (
+        sql = add_constraint(
             "scheduler_note like 'pair%%' or scheduler_note like 'twilight%%' or scheduler_note like 'blob%%'"
         )
         slicer = slicers.UniSlicer()
@@ -404,7 +414,7 @@ def glanceBatch(
     displayDict["subgroup"] = ""
     for ddf in ddf_surveys:
         label = ddf.replace("DD:", "")
-        sql = f"scheduler_note like 'DD:{label}%'"
+        sql = add_constraint(f"scheduler_note like 'DD:{label}%'")
         slicer = slicers.UniSlicer()
         metric = metrics.CumulativeMetric()
         metricb = metric_bundles.MetricBundle(
@@ -422,7 +432,7 @@ def glanceBatch(
     displayDict = {}
     displayDict["group"] = "Basic Stats"
     displayDict["subgroup"] = "Saturation"
-    sql = ""
+    sql = add_constraint("")
     metric = metrics.SkySaturationMetric()
     summary = metrics.SumMetric()
     slicer = slicers.UniSlicer()
@@ -495,7 +505,7 @@ def glanceBatch(
     bundle = metric_bundles.MetricBundle(
         metric,
         slicer,
-        "",
+        add_constraint(""),
         plot_dict=plotDict,
         display_dict=displayDict,
         summary_metrics=summaryMetrics,
@@ -512,7 +522,7 @@ def glanceBatch(
     sky = EuclidOverlapFootprint(nside=nside_foot, smc_radius=4, lmc_radius=6)
     footprints_hp_array, labels = sky.return_maps()
     for filtername in filternames:
-        sql = "band='%s' and night < 365" % filtername
+        sql = add_constraint("band='%s' and night < 365" % filtername)
         metric = metrics.CountMetric(col="night", metric_name="N year 1")
         summary_stat = metrics.FootprintFractionMetric(
             footprint=footprints_hp_array[filtername],
@@ -538,7 +548,7 @@ def glanceBatch(
         lat_lon_deg=colmap["raDecDeg"],
     )
     for filtername in filternames:
-        sql = "band='%s' and scheduler_note like 'ToO%%'" % filtername
+        sql = add_constraint("band='%s' and scheduler_note like 'ToO%%'" % filtername)
         metric = metrics.CountMetric(col=colmap["mjd"], metric_name="N ToO")
         bundle = metric_bundles.MetricBundle(
             metric,
@@ -555,7 +565,8 @@ def glanceBatch(
         "scheduler_note like 'ToO, %'"
     ]
     slicer = slicers.UniSlicer()
-    for sql in too_sqls:
+    for too_sql in too_sqls:
+        sql = add_constraint(too_sql)
         metric = metrics.CountMetric(col="night")
         bundle = metric_bundles.MetricBundle(
             metric,
@@ -585,7 +596,7 @@ def glanceBatch(
 
     # Add basic slew stats.
     try:
-        slewDict = slewBasics(colmap=colmap, run_name=run_name)
+        slewDict = slewBasics(colmap=colmap, run_name=run_name, sql_constraint=sql_constraint)
         bd.update(slewDict)
     except KeyError as e:
         warnings.warn("Could not add slew stats: missing required key %s from colmap" % (e))
-- 
2.43.0


From 38f3bc661f4bfdfd2a66242faecd4b94980cdd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:49 +0000
Subject: [PATCH 178/233] fix: standard batches select bands by the band column
 of the column map

---
 rubin_sim/maf/batches/altaz_batch.py      |  4 ++--
 rubin_sim/maf/batches/glance_batch.py     | 18 +++++++++++++-----
 rubin_sim/maf/batches/hourglass_batch.py  |  5 ++++-
 rubin_sim/maf/batches/metadata_batch.py   | 10 +++++++---
 rubin_sim/maf/batches/time_batch.py       |  8 ++++----
 rubin_sim/maf/batches/visitdepth_batch.py | 13 ++++++++-----
 6 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/rubin_sim/maf/batches/altaz_batch.py b/rubin_sim/maf/batches/altaz_batch.py
index 5be8685..96f1485 100644
--- a/rubin_sim/maf/batches/altaz_batch.py
+++ b/rubin_sim/maf/batches/altaz_batch.py
@@ -58,7 +58,7 @@ def altazHealpix(
 
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     bundleList = []
@@ -127,7 +127,7 @@ def altazLambert(
 
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     bundleList = []
diff --git a/rubin_sim/maf/batches/glance_batch.py b/rubin_sim/maf/batches/glance_batch.py
index c62a44c..2906abf 100644
--- a/rubin_sim/maf/batches/glance_batch.py
+++ b/rubin_sim/maf/batches/glance_batch.py
@@ -62,6 +62,7 @@ def glanceBatch(
     if colmap is None:
         colmap = col_map_dict()
 
+    band_col = colmap["filter"]
     bundle_list = []
 
     if sql_constraint is None or len(sql_constraint) == 0:
@@ -116,7 +117,7 @@ def glanceBatch(
 
     # Total effective exposure time
     metric = metrics.MeanMetric(col="t_eff")
-    teff_stacker = stackers.TeffStacker(normed=True)
+    teff_stacker = stackers.TeffStacker(filter_col=band_col, normed=True)
     for sql in sql_per_and_all_filters:
         bundle = metric_bundles.MetricBundle(
             metric, slicer, sql, stacker_list=[teff_stacker], display_dict=displayDict
@@ -359,7 +360,7 @@ def glanceBatch(
     displayDict["caption"] = "Fraction of observations that are in pairs"
     displayDict["subgroup"] = "Solar System"
 
-    sql = "%s (band='g' or band='r' or band='i')" % sqlC
+    sql = f"{sqlC} ({band_col}='g' or {band_col}='r' or {band_col}='i')"
     pairSlicer = slicers.HealpixSlicer(
         nside=pairnside,
         lat_col=colmap["dec"],
@@ -437,7 +438,14 @@ def glanceBatch(
     summary = metrics.SumMetric()
     slicer = slicers.UniSlicer()
     bundle_list.append(
-        metric_bundles.MetricBundle(metric, slicer, sql, summary_metrics=summary, display_dict=displayDict)
+        metric_bundles.MetricBundle(
+            metric,
+            slicer,
+            sql,
+            stacker_list=[stackers.SaturationStacker(filter_col=band_col)],
+            summary_metrics=summary,
+            display_dict=displayDict,
+        )
     )
 
     benchmarkArea = 18000
@@ -522,7 +530,7 @@ def glanceBatch(
     sky = EuclidOverlapFootprint(nside=nside_foot, smc_radius=4, lmc_radius=6)
     footprints_hp_array, labels = sky.return_maps()
     for filtername in filternames:
-        sql = add_constraint("band='%s' and night < 365" % filtername)
+        sql = add_constraint(f"{band_col}='{filtername}' and night < 365")
         metric = metrics.CountMetric(col="night", metric_name="N year 1")
         summary_stat = metrics.FootprintFractionMetric(
             footprint=footprints_hp_array[filtername],
@@ -548,7 +556,7 @@ def glanceBatch(
         lat_lon_deg=colmap["raDecDeg"],
     )
     for filtername in filternames:
-        sql = add_constraint("band='%s' and scheduler_note like 'ToO%%'" % filtername)
+        sql = add_constraint(f"{band_col}='{filtername}' and scheduler_note like 'ToO%'")
         metric = metrics.CountMetric(col=colmap["mjd"], metric_name="N ToO")
         bundle = metric_bundles.MetricBundle(
             metric,
diff --git a/rubin_sim/maf/batches/hourglass_batch.py b/rubin_sim/maf/batches/hourglass_batch.py
index de6517d..f372e25 100644
--- a/rubin_sim/maf/batches/hourglass_batch.py
+++ b/rubin_sim/maf/batches/hourglass_batch.py
@@ -62,7 +62,10 @@ def hourglassPlots(colmap=None, runName="opsim", nyears=10, extraSql=None, extra
         md = info_label + " year %i-%i" % (year - 1, year)
         slicer = slicers.HourglassSlicer()
         metric = metrics.HourglassMetric(
-            night_col=colmap["night"], mjd_col=colmap["mjd"], metric_name="Hourglass"
+            night_col=colmap["night"],
+            mjd_col=colmap["mjd"],
+            filter_col=colmap["filter"],
+            metric_name="Hourglass",
         )
         bundle = mb.MetricBundle(
             metric,
diff --git a/rubin_sim/maf/batches/metadata_batch.py b/rubin_sim/maf/batches/metadata_batch.py
index 7383868..1eb01fe 100644
--- a/rubin_sim/maf/batches/metadata_batch.py
+++ b/rubin_sim/maf/batches/metadata_batch.py
@@ -97,7 +97,7 @@ def metadataBasics(
 
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     if slicer is not None:
@@ -110,6 +110,8 @@ def metadataBasics(
         stackerList = [stackers.HourAngleStacker(lst_col=colmap["lst"], ra_col=raCol, degrees=degrees)]
     elif value == "normairmass":
         stackerList = [stackers.NormAirmassStacker(degrees=degrees)]
+    elif value == "saturation_mag":
+        stackerList = [stackers.SaturationStacker(filter_col=colmap["filter"])]
     else:
         stackerList = None
 
@@ -253,7 +255,7 @@ def metadataBasicsAngle(
     degrees = colmap["raDecDeg"]
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     if slicer is not None:
@@ -454,7 +456,7 @@ def metadataMaps(
     degrees = colmap["raDecDeg"]
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     # Hack to make HA work, but really need to account for any stackers
@@ -462,6 +464,8 @@ def metadataMaps(
         stackerList = [stackers.HourAngleStacker(lst_col=colmap["lst"], ra_col=ra_col, degrees=degrees)]
     elif value == "normairmass":
         stackerList = [stackers.NormAirmassStacker(degrees=degrees)]
+    elif value == "saturation_mag":
+        stackerList = [stackers.SaturationStacker(filter_col=colmap["filter"])]
     else:
         stackerList = None
 
diff --git a/rubin_sim/maf/batches/time_batch.py b/rubin_sim/maf/batches/time_batch.py
index 13b4edb..ef58d48 100644
--- a/rubin_sim/maf/batches/time_batch.py
+++ b/rubin_sim/maf/batches/time_batch.py
@@ -194,7 +194,7 @@ def intraNight(
     displayDict["caption"] = "75th percentile value of the maximum intra-night timespan, on each night"
     # individual and all filters
     filterlist, colors, orders, sqls, info_labels = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=info_label
+        all=True, extra_sql=extraSql, extra_info_label=info_label, band_col=colmap["filter"]
     )
     for f in filterlist:
         if info_labels[f] is None or len(info_labels[f]) == 0:
@@ -355,7 +355,7 @@ def interNight(
     decCol = colmap["dec"]
     degrees = colmap["raDecDeg"]
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     if slicer is None:
@@ -521,7 +521,7 @@ def timeGaps(
     decCol = colmap["dec"]
     degrees = colmap["raDecDeg"]
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     if slicer is None:
@@ -651,7 +651,7 @@ def seasons(
     decCol = colmap["dec"]
     degrees = colmap["raDecDeg"]
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
 
     if slicer is None:
diff --git a/rubin_sim/maf/batches/visitdepth_batch.py b/rubin_sim/maf/batches/visitdepth_batch.py
index 0ccc672..57e8e5f 100644
--- a/rubin_sim/maf/batches/visitdepth_batch.py
+++ b/rubin_sim/maf/batches/visitdepth_batch.py
@@ -61,7 +61,7 @@ def nvisitsM5Maps(
     degrees = colmap["raDecDeg"]
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
     # Set up some values to make nicer looking plots.
     benchmarkVals = mafUtils.scale_benchmarks(runLength, benchmark="design")
@@ -162,7 +162,9 @@ def nvisitsM5Maps(
 
     # Add Coadded depth maps per filter WITH extragalactic extinction added
     displayDict = {"group": "Extragalactic Coadded M5 Maps", "subgroup": subgroup}
-    metric = metrics.ExgalM5(m5_col=colmap["fiveSigmaDepth"], metric_name="Exgal_CoaddM5")
+    metric = metrics.ExgalM5(
+        m5_col=colmap["fiveSigmaDepth"], metric_name="Exgal_CoaddM5", filter_col=colmap["filter"]
+    )
 
     for f in filterlist:
         # Skip "all" for coadded depth.
@@ -243,7 +245,7 @@ def tEffMetrics(
 
     # Set up basic all and per filter sql constraints.
     filterlist, colors, orders, sqls, info_label = filter_list(
-        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel
+        all=True, extra_sql=extraSql, extra_info_label=extraInfoLabel, band_col=colmap["filter"]
     )
     if info_label["all"] is None:
         info_label["all"] = "All visits"
@@ -258,6 +260,7 @@ def tEffMetrics(
         metric,
         slicer,
         constraint=sqls["all"],
+        stacker_list=[stackers.TeffStacker(filter_col=colmap["filter"])],
         display_dict=displayDict,
         info_label=info_label["all"],
     )
@@ -266,7 +269,7 @@ def tEffMetrics(
     displayDict["caption"] = "Normalized total effective time of the survey (see Teff metric)."
     displayDict["order"] = 1
     metric = metrics.MeanMetric(col="t_eff", metric_name="Normalized Teff")
-    normalized_teff_stacker = stackers.TeffStacker(normed=True)
+    normalized_teff_stacker = stackers.TeffStacker(filter_col=colmap["filter"], normed=True)
     slicer = slicers.UniSlicer()
     bundle = mb.MetricBundle(
         metric,
@@ -282,7 +285,7 @@ def tEffMetrics(
     displayDict = {"group": "T_eff Maps", "subgroup": subgroup}
 
     metric = metrics.MeanMetric(col="t_eff", metric_name="Normalized Teff")
-    normalized_teff_stacker = stackers.TeffStacker(normed=True)
+    normalized_teff_stacker = stackers.TeffStacker(filter_col=colmap["filter"], normed=True)
     for f in filterlist:
         displayDict["caption"] = "Normalized effective time of the survey, for %s" % info_label[f]
         displayDict["order"] = orders[f]
-- 
2.43.0


From 46f575f83fed17c24f7fa3f7055ab3433af87565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 179/233] fix: ddfBatch used visits outside the extra selection

---
 rubin_sim/maf/batches/ddf_batch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/ddf_batch.py b/rubin_sim/maf/batches/ddf_batch.py
index 7152446..18e3f37 100644
--- a/rubin_sim/maf/batches/ddf_batch.py
+++ b/rubin_sim/maf/batches/ddf_batch.py
@@ -144,6 +144,7 @@ def ddfBatch(
         displayDict["order"] = order
 
         metric = maf.metrics.SNNSNMetric(
+            filter_col=band_col,
             verbose=False,
             n_bef=4,
             n_aft=10,
@@ -160,7 +161,7 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 ddf_slicers_sne[ddf],
-                constraint="",
+                constraint=sqls["all"],
                 info_label=" ".join([fieldname, "all bands, only DDF observations"]),
                 plot_dict=plotDict,
                 plot_funcs=plotFuncs,
@@ -206,7 +207,7 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 slicer,
-                "",
+                sqls["all"],
                 info_label=" ".join([fieldname]),
                 summary_metrics=lightcurve_summary(),
                 display_dict=displayDict,
@@ -223,6 +224,8 @@ def ddfBatch(
             "gri": f"{band_col}='g' or {band_col}='r' or {band_col}='i'",
             "riz": f"{band_col}='r' or {band_col}='i' or {band_col}='z'",
         }
+        if extra_sql is not None and len(extra_sql) > 0:
+            sqls_gri = {k: f"({extra_sql}) and ({v})" for k, v in sqls_gri.items()}
 
         for sql in sqls_gri:
             metrics = [
@@ -262,6 +265,8 @@ def ddfBatch(
             "gri": f"{band_col}='g' or {band_col}='r' or {band_col}='i'",
             "riz": f"{band_col}='r' or {band_col}='i' or {band_col}='z'",
         }
+        if extra_sql is not None and len(extra_sql) > 0:
+            sqls_gri = {k: f"({extra_sql}) and ({v})" for k, v in sqls_gri.items()}
 
         for sql in sqls_gri:
             metric = maf.WeakLensingNvisits(
@@ -502,7 +507,7 @@ def ddfBatch(
             fieldsql = f"scheduler_note like '%{fieldname}%'"
             for f in filterlist:
                 if len(sqls[f]) > 0:
-                    fieldsqls[f] = fieldsql + " and " + sqls[f]
+                    fieldsqls[f] = fieldsql + " and (" + sqls[f] + ")"
                 else:
                     fieldsqls[f] = fieldsql
 
-- 
2.43.0


From cb51ee16ca641fc200d831edecac9a4d731bbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 180/233] fix: science radar batch: local volume dwarf metrics
 had no visits

---
 rubin_sim/maf/batches/science_radar_batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index 3256c22..4d53498 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -1746,7 +1746,7 @@ def science_radar_batch(
     i_starMap = maf.maps.StellarDensityMap(filtername="i")
     lv_slicer = maf.maf_contrib.generate_known_lv_dwarf_slicer()
     lv_metric = maf.maf_contrib.LVDwarfsMetric()
-    sqlconstraint = "(filter = 'i' OR filter = 'g')"
+    sqlconstraint = "(band = 'i' OR band = 'g')"
     info_label = "gi"
     cutoff = -6.4
     summary_metrics = [
@@ -1793,7 +1793,7 @@ def science_radar_batch(
         "star-galaxy separation), over the southern celestial pole,"
         "to a distance of 0.1 Mpc."
     )
-    sqlconstraint = "(filter = 'i' OR filter = 'g') and fieldDec < -60"
+    sqlconstraint = "(band = 'i' OR band = 'g') and fieldDec < -60"
     info_label = "gi SCP"
     lv_metric3 = maf.maf_contrib.LVDwarfsMetric(distlim=0.1 * u.Mpc)  # for a distance limit, healpix map
     summary_area = maf.metrics.AreaThresholdMetric(lower_threshold=0.0, metric_name="Area M_v>0.0")
-- 
2.43.0


From ce0645afee6cd3d6815c6300776fe44008c9cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 181/233] fix: radar batches: the riz metrics used and named g,
 r, i

---
 rubin_sim/maf/batches/radar_limited.py       | 6 +++---
 rubin_sim/maf/batches/science_radar_batch.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index 4014085..bf4645e 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -663,21 +663,21 @@ def radar_limited(
             slicer,
             sqlconstraint,
             maps_list=[dustmap],
-            info_label=info_label,
+            info_label="riz band non-DD",
             summary_metrics=standardStats,
             display_dict=displayDict,
         )
         bundleList.append(bundle)
 
         m = metrics.RIZDetectionCoaddExposureTime(
-            det_bands=["g", "r", "i"], metric_name="riz_exposure_time_year%i" % year
+            det_bands=["r", "i", "z"], metric_name="riz_exposure_time_year%i" % year
         )
         bundle = mb.MetricBundle(
             m,
             slicer,
             sqlconstraint,
             maps_list=[dustmap],
-            info_label=info_label,
+            info_label="riz band non-DD",
             summary_metrics=standardStats,
             display_dict=displayDict,
         )
diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index 4d53498..c03f679 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -735,21 +735,21 @@ def science_radar_batch(
             slicer,
             sqlconstraint,
             maps_list=[dustmap],
-            info_label=info_label,
+            info_label="riz band non-DD",
             summary_metrics=standardStats,
             display_dict=displayDict,
         )
         bundleList.append(bundle)
 
         m = metrics.RIZDetectionCoaddExposureTime(
-            det_bands=["g", "r", "i"], metric_name="riz_exposure_time_year%i" % year
+            det_bands=["r", "i", "z"], metric_name="riz_exposure_time_year%i" % year
         )
         bundle = mb.MetricBundle(
             m,
             slicer,
             sqlconstraint,
             maps_list=[dustmap],
-            info_label=info_label,
+            info_label="riz band non-DD",
             summary_metrics=standardStats,
             display_dict=displayDict,
         )
-- 
2.43.0


From 12fe23107131bb5d99a8e662b4627c7b58a9bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 182/233] fix: radar_limited could not be built, and selected
 on the physical filter

---
 rubin_sim/maf/batches/radar_limited.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index bf4645e..39f58dd 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -479,7 +479,7 @@ def radar_limited(
     for filtername in "ugrizy":
         displayDict["caption"] = "Surface brightness limit in %s, no extinction applied." % filtername
         displayDict["order"] = filterorders[f]
-        sql = "filter='%s'" % filtername
+        sql = "band='%s'" % filtername
         metric = metrics.SurfaceBrightLimitMetric()
         bundle = mb.MetricBundle(
             metric,
@@ -532,7 +532,7 @@ def radar_limited(
         sqlconstraint += " and scheduler_note not like 'DD%'"
         info_label = f"{bandpass} band non-DD year {yr_cut}"
         ThreebyTwoSummary_simple = metrics.StaticProbesFoMEmulatorMetricSimple(
-            nside=nside, year=yr_cut, metric_name="3x2ptFoM_simple"
+            year=yr_cut, metric_name="3x2ptFoM_simple"
         )
         ThreebyTwoSummary = maf.StaticProbesFoMEmulatorMetric(nside=nside, metric_name="3x2ptFoM")
 
@@ -581,7 +581,7 @@ def radar_limited(
     subgroupCount += 1
     displayDict["subgroup"] = f"{subgroupCount}: WL"
     displayDict["order"] = 0
-    sqlconstraint = "scheduler_note not like 'DD%' and (filter='g' or filter='r' or filter='i')"
+    sqlconstraint = "scheduler_note not like 'DD%' and (band='g' or band='r' or band='i')"
     info_label = "gri band non-DD"
     minExpTime = 15
     m = metrics.WeakLensingNvisits(
@@ -613,7 +613,7 @@ def radar_limited(
     for year in [10]:
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
-            + " and (filter='g' or filter='r' or filter='i') and night < %i" % (year * 365.25)
+            + " and (band='g' or band='r' or band='i') and night < %i" % (year * 365.25)
         )
         m = metrics.WeakLensingNvisits(
             lsst_filter=bandpass,
@@ -649,7 +649,7 @@ def radar_limited(
 
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
-            + " and (filter='r' or filter='i' or filter='z') and night < %i" % (year * 365.25)
+            + " and (band='r' or band='i' or band='z') and night < %i" % (year * 365.25)
         )
         m = metrics.WeakLensingNvisits(
             lsst_filter=bandpass,
-- 
2.43.0


From 54b08a76e0a4ea5a1f363972274c949428069c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:18 +0000
Subject: [PATCH 183/233] fix: show_maf: the data of a metric could not be
 downloaded

---
 rubin_sim/maf/show_maf.py                     | 8 ++++----
 rubin_sim/maf/web/templates/macros.html       | 4 ++--
 rubin_sim/maf/web/templates/metricselect.html | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index ca460b4..36f8208 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -72,16 +72,16 @@ class DataHandler(web.RequestHandler):
             datatype = datatype.decode("utf-8")
         else:
             datatype = "npz"
-        run = runlist.getRun(runId)
-        metric = run.metricIdsToMetrics([metricId])
+        run = runlist.get_run(runId)
+        metric = run.metric_ids_to_metrics([metricId])
         if datatype == "npz":
-            npz = run.getNpz(metric)
+            npz = run.get_npz(metric)
             if npz is None:
                 self.write("No npz file available.")
             else:
                 self.redirect(npz)
         elif datatype == "json":
-            jsn = run.getJson(metric)
+            jsn = run.get_json(metric)
             if jsn is None:
                 self.write("No JSON file available.")
             else:
diff --git a/rubin_sim/maf/web/templates/macros.html b/rubin_sim/maf/web/templates/macros.html
index 89e3b6e..a541ca6 100644
--- a/rubin_sim/maf/web/templates/macros.html
+++ b/rubin_sim/maf/web/templates/macros.html
@@ -27,8 +27,8 @@
  <b>
  {% for key in metricInfo %}
     {% if key == 'Data' %}
-       <a href="getData?datatype=npz&runId={{runId}}&metricId={{metric['metric_id']}}">npz</a>
-       <a href="getData?datatype=json&runId={{runId}}&metricId={{metric['metric_id']}}">JSON</a>
+       <a href="getData?datatype=npz&runId={{runId}}&metric_id={{metric['metric_id']}}">npz</a>
+       <a href="getData?datatype=json&runId={{runId}}&metric_id={{metric['metric_id']}}">JSON</a>
     {% else %}
        {{ metricInfo[key]|escape }}
     {% endif %}
diff --git a/rubin_sim/maf/web/templates/metricselect.html b/rubin_sim/maf/web/templates/metricselect.html
index 68460f2..f05ad74 100644
--- a/rubin_sim/maf/web/templates/metricselect.html
+++ b/rubin_sim/maf/web/templates/metricselect.html
@@ -68,8 +68,8 @@
 	  {% for key in metricInfo %}
            <td>
 	   {% if key == 'Data' %}
-	       <a href="getData?datatype=npz&runId={{runId}}&metricId={{metric['metric_id']}}">npz</a>
-	       <a href="getData?datatype=json&runId={{runId}}&metricId={{metric['metric_id']}}">JSON</a>
+	       <a href="getData?datatype=npz&runId={{runId}}&metric_id={{metric['metric_id']}}">npz</a>
+	       <a href="getData?datatype=json&runId={{runId}}&metric_id={{metric['metric_id']}}">JSON</a>
 	   {% else %}
             {{ metricInfo[key]|escape }}
            {% endif %}
-- 
2.43.0


From ab89911666b93aa4ff022f70025fc1f6dc4ece31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 184/233] fix: show_maf: choosing the metrics of a group failed

---
 rubin_sim/maf/show_maf.py            | 2 +-
 rubin_sim/maf/web/maf_run_results.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index 36f8208..2d62043 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -50,7 +50,7 @@ class MetricResultsPageHandler(web.RequestHandler):
         else:
             metricIdList = []
         if "Group_subgroup" in self.request.arguments:
-            groupList = self.request.arguments["Group_subgroup"]
+            groupList = self.get_arguments("Group_subgroup")
         else:
             groupList = []
         self.write(
diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 02fd160..ec61f10 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -110,8 +110,9 @@ class MafRunResults:
         """
         metric_ids = set()
         for group_subgroup in group_list:
-            group = group_subgroup.split("_")[0]
-            subgroup = group_subgroup.split("_")[-1].replace("+", " ")
+            sep = "__" if "__" in group_subgroup else "_"
+            group = group_subgroup.split(sep)[0]
+            subgroup = group_subgroup.split(sep)[-1].replace("+", " ")
             m_ids = self.metric_ids_in_subgroup(group, subgroup)
             for m_id in m_ids:
                 metric_ids.add(m_id)
-- 
2.43.0


From 8ab8f52bbe649b8fdbb444793fdcdebfef19fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 185/233] fix: show_maf: names and labels of metrics were left
 blank

---
 rubin_sim/maf/web/maf_run_results.py        | 2 +-
 rubin_sim/maf/web/templates/macros.html     | 4 ++--
 rubin_sim/maf/web/templates/multicolor.html | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index ec61f10..154ed64 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -419,7 +419,7 @@ class MafRunResults:
         metric_info["Metric Name"] = metric["metric_name"]
         if with_slicer_name:
             metric_info["Slicer"] = metric["slicer_name"]
-        metric_info["InfoL abel"] = metric["metric_info_label"]
+        metric_info["Info Label"] = metric["metric_info_label"]
         if with_data_link:
             metric_info["Data"] = []
             metric_info["Data"].append(metric["metric_datafile"])
diff --git a/rubin_sim/maf/web/templates/macros.html b/rubin_sim/maf/web/templates/macros.html
index a541ca6..27564a2 100644
--- a/rubin_sim/maf/web/templates/macros.html
+++ b/rubin_sim/maf/web/templates/macros.html
@@ -199,7 +199,7 @@
       {% for m in slicermetrics %}
   	  {% set mInfo = run.metric_info(m, with_data_link=False, with_slicer_name=False) %}
 	  <th>
-	   {{mInfo['MetricName']}}
+	   {{mInfo['Metric Name']}}
 	  </th>
       {% endfor %}
       </tr>
@@ -208,7 +208,7 @@
       {% for m in slicermetrics %}
 	  {% set mInfo = run.metric_info(m, with_data_link=False, with_slicer_name=False) %}
 	  <th>
-	   {{mInfo['InfoLabel']}}
+	   {{mInfo['Info Label']}}
 	  </th>
       {% endfor %}
       </tr>
diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 6c78637..5bcf8e1 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -110,8 +110,8 @@
      {% if combohist|length > 0 %}
       <div id='metricset'>
 	{% set metricInfo = run.metric_info(m) %}
-        {{ metricInfo['MetricName']|escape }} ({{metricInfo['Slicer']|escape}})
-	</br> <div id='indent'> {{metricInfo['InfoLabel']|escape}} </div> </br>
+        {{ metricInfo['Metric Name']|escape }} ({{metricInfo['Slicer']|escape}})
+	</br> <div id='indent'> {{metricInfo['Info Label']|escape}} </div> </br>
 	{% for plotfile, thumbfile in zip(combohist['plotFile'], combohist['thumbFile']) %}
         <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
 	 {% endfor %}
-- 
2.43.0


From 1eda716efb9fe0c1edf619e8fa2f8881ee390253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 186/233] fix: show_maf: the sky maps linked to a page without
 metrics

---
 rubin_sim/maf/web/templates/multicolor.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 5bcf8e1..0a9d911 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -72,12 +72,12 @@
      {% set skymaps = run.order_plots(skymaps) %}
      {% if skymaps|length > 0 %}
       <div id='metricset'>
-       {% set metricLink = 'metricResults?runId=%s&metricId=' %(runId)
+       {% set metricLink = 'metricResults?runId=%s&metric_id=' %(runId)
    %}
        {# add a link to click to the skymap group's details #}
-       {% set metricSelect = run.metrics_to_metric_ids(mskyset)|join('&metricId=') %}
+       {% set metricSelect = run.metrics_to_metric_ids(mskyset)|join('&metric_id=') %}
        {% set metricLink = metricLink ~ metricSelect %}
-	<a href={{metricLink}}>{{mname}}</a> </br>
+	<a href="{{metricLink}}">{{mname}}</a> </br>
 	<table class='blank'>
           <tr class='blank'>
        {# put in the sky map plots #}
-- 
2.43.0


From 6b44e30397dd0ffd4d518660618debe75d6f7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 187/233] fix: show_maf: combined and hourglass plots were
 missing from the multicolor page

---
 rubin_sim/maf/web/templates/multicolor.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 0a9d911..ab54434 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -112,7 +112,7 @@
 	{% set metricInfo = run.metric_info(m) %}
         {{ metricInfo['Metric Name']|escape }} ({{metricInfo['Slicer']|escape}})
 	</br> <div id='indent'> {{metricInfo['Info Label']|escape}} </div> </br>
-	{% for plotfile, thumbfile in zip(combohist['plotFile'], combohist['thumbFile']) %}
+	{% for plotfile, thumbfile in zip(combohist['plot_file'], combohist['thumb_file']) %}
         <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
 	 {% endfor %}
        </div>
@@ -127,7 +127,7 @@
       {% set hourglassplots = run.plots_for_metric(h) %}
       {% set hourglassdict = run.plot_dict(hourglassplots) %}
       {% set hourglass = hourglassdict['Hourglass'] %}
-      {% for plotfile, thumbfile in zip(hourglass['plotFile'], hourglass['thumbFile']) %}
+      {% for plotfile, thumbfile in zip(hourglass['plot_file'], hourglass['thumb_file']) %}
          <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
       {% endfor %}
    {% endfor %}
-- 
2.43.0


From 71f0d305439831e22413a5c7c353a65b76cf79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 188/233] fix: show_maf: the multicolor page failed for maps
 other than SkyMap

---
 rubin_sim/maf/web/templates/multicolor.html | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index ab54434..84aafdc 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -82,17 +82,13 @@
           <tr class='blank'>
        {# put in the sky map plots #}
         {% for skymap in skymaps %}
-            {% set mapkey = 'SkyMap' %}
-            {% if skymap[mapkey]['plot_file']|length == 0 %}
-            <td class='blank'>
-            </td>
-            {% else %}
-              {% set plotfile = skymap[mapkey]['plot_file'][0] %}
-              {% set thumbfile = skymap[mapkey]['thumb_file'][0] %}
-              <td class='blank' align='center'>
+            <td class='blank' align='center'>
+            {% for mapkey in skymap %}
+              {% for plotfile, thumbfile in zip(skymap[mapkey]['plot_file'], skymap[mapkey]['thumb_file']) %}
                   <a href="{{plotfile}}"> <img class="sm_thumbnail" src='{{thumbfile}}'></a>
-              </td>
-              {% endif %}
+              {% endfor %}
+            {% endfor %}
+            </td>
               {% if loop.index is divisibleby 3 %}
           </tr><tr>
         {% endif %}
-- 
2.43.0


From 30fffb79d47b639ac81dce9d83d940e89abe2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:05 +0000
Subject: [PATCH 189/233] fix: show_maf -d did not open the directory it was
 given

---
 rubin_sim/maf/db/tracking_db.py | 6 ++++++
 rubin_sim/maf/show_maf.py       | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index 5563c09..0b41ba4 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -279,6 +279,11 @@ def add_run_to_database(
         Comment about the MAF analysis.
     db_file : `str`, optional
         Relative path + name of the opsim database file.
+
+    Returns
+    -------
+    runId : `int`
+        The id of this run in the tracking database.
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
@@ -329,3 +334,4 @@ def add_run_to_database(
     )
     print("Used MAF RunID %d" % (runId))
     trackingDb.close()
+    return runId
diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index 2d62043..e82c14d 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -196,7 +196,7 @@ def show_maf():
             print("There is no directory containing MAF outputs at %s." % (maf_dir))
             print("Just opening using tracking db at %s." % (tracking_db))
         else:
-            add_run_to_database(maf_dir, tracking_db, maf_comment=args.maf_comment)
+            startRunId = add_run_to_database(maf_dir, tracking_db, maf_comment=args.maf_comment)
 
     # Open tracking database and start visualization.
     global runlist
-- 
2.43.0


From fc891a6eee0a88392d8603eff6b4cc0ab57e98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 190/233] fix: gather_summaries: a directory without results
 ended the gathering and was given an empty database

---
 rubin_sim/maf/run_comparison/gather_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 8a38310..3e43fac 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -33,6 +33,7 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         fname = os.path.join(rdir, dbfilename)
         if not os.path.isfile(fname):
             logger.warning(f"No resultsDb database in {rdir}")
+            continue
 
         con = sqlite3.connect(fname)
         temp_df = pd.read_sql(sql_q, con)
-- 
2.43.0


From bef5a887cafda1079f710114e71c86452b7a8a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 191/233] fix: normalize_metric_summaries failed for duplicate
 metrics with metric subsets

---
 rubin_sim/maf/run_comparison/summary_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_comparison/summary_plots.py b/rubin_sim/maf/run_comparison/summary_plots.py
index 3f26343..6d3db77 100644
--- a/rubin_sim/maf/run_comparison/summary_plots.py
+++ b/rubin_sim/maf/run_comparison/summary_plots.py
@@ -111,7 +111,7 @@ def normalize_metric_summaries(
             metric_subsets.reset_index(metric_names)
             .groupby(level="metric")
             .first()
-            .loc[used_metrics, :]
+            .loc[summary.columns, :]
             .copy()
         )
 
-- 
2.43.0


From cedefb6430529a299555e004b1f4f614329a6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:51 +0000
Subject: [PATCH 192/233] fix: plot_run_metric failed for a single run or
 metric

---
 rubin_sim/maf/run_comparison/summary_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_comparison/summary_plots.py b/rubin_sim/maf/run_comparison/summary_plots.py
index 6d3db77..73eb322 100644
--- a/rubin_sim/maf/run_comparison/summary_plots.py
+++ b/rubin_sim/maf/run_comparison/summary_plots.py
@@ -348,7 +348,7 @@ def plot_run_metric(
             warnings.warn(f"There are infinite values in the plot of {idx}.")
         if horizontal_quantity == "value" and np.isinf(plot_df.loc[idx, "x"]).any():
             warnings.warn(f"There are infinite values in the plot of {idx}.")
-        plot_args = [plot_df.loc[idx, "x"], plot_df.loc[idx, "y"]]
+        plot_args = [plot_df.loc[[idx], "x"], plot_df.loc[[idx], "y"]]
         idx_label = f"{str(idx).strip()}"
         if this_metric_subset is not None and idx in this_metric_subset.index:
             # Set the style from the metric_subset if available
-- 
2.43.0


From 105ce7e90df1dbd3dab07ec12b70463678212270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:51 +0000
Subject: [PATCH 193/233] fix: microlensing_compare could not read results back
 from disk

---
 rubin_sim/maf/run_comparison/microlensing_compare.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/run_comparison/microlensing_compare.py b/rubin_sim/maf/run_comparison/microlensing_compare.py
index 4fbc295..ca9208a 100644
--- a/rubin_sim/maf/run_comparison/microlensing_compare.py
+++ b/rubin_sim/maf/run_comparison/microlensing_compare.py
@@ -474,7 +474,7 @@ def get_results_dbs(result_db_path):
         result_db = db.ResultsDb(database=result_db)
 
         # Don't add empty results.db file,
-        if len(result_db.getAllMetricIds()) > 0:
+        if len(result_db.get_all_metric_ids()) > 0:
             result_dbs[run_name] = result_db
 
     return result_dbs
@@ -502,10 +502,10 @@ def bundle_dict_from_disk(result_db, run_name, metric_data_path):
     """
 
     bundle_dict = {}
-    display_info = result_db.getMetricDisplayInfo()
+    display_info = result_db.get_metric_display_info()
     for item in display_info:
         metric_name = item["metric_name"]
-        metric_file_name = item["metricDataFile"]
+        metric_file_name = item["metric_datafile"]
         metric_id = item["metric_id"]
         newbundle = metricBundles.create_empty_metric_bundle()
         newbundle.read(os.path.join(metric_data_path, metric_file_name))
-- 
2.43.0


From 44b8d60f6afdb00afef5399cc014483d7ac1a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:51 +0000
Subject: [PATCH 194/233] fix: microlensing_compare: events without a number of
 points were not set aside

---
 rubin_sim/maf/run_comparison/microlensing_compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_comparison/microlensing_compare.py b/rubin_sim/maf/run_comparison/microlensing_compare.py
index ca9208a..c9a9f1b 100644
--- a/rubin_sim/maf/run_comparison/microlensing_compare.py
+++ b/rubin_sim/maf/run_comparison/microlensing_compare.py
@@ -66,7 +66,7 @@ def microlensing_fom(
         results[run] = get_results(df, metric_type)
         if metric_type == "Npts":
             nan_to_be = np.where(df["metric_values"] >= 10e10)[0]
-            df["metric_values"][nan_to_be] = np.nan
+            df.loc[nan_to_be, "metric_values"] = np.nan
         results_compare.append(df["metric_values"])
     run_names = np.array(run_names)
     metric_types = np.array(metric_types)
-- 
2.43.0


From d806bcf360b4e48b05f47aa8554a3d35fbe23c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 195/233] fix: values of metrics whose bad value is NaN were
 not masked

---
 rubin_sim/maf/metric_bundles/metric_bundle.py       | 2 +-
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index e47f339..b8ca239 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -762,7 +762,7 @@ class MetricBundle:
             if not mMask:
                 val = reduce_func(mVal)
                 newmetric_bundle.metric_values.data[i] = val
-                if val == newmetric.badval:
+                if val == newmetric.badval or (newmetric.badval != newmetric.badval and val != val):
                     newmetric_bundle.metric_values.mask[i] = True
 
         return newmetric_bundle
diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bb2072c..264394a 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -540,9 +540,11 @@ class MetricBundleGroup:
                         b.metric_values.mask[ind] = True
             else:
                 # For some reason, this doesn't work for dtype=object arrays.
-                b.metric_values.mask = np.where(
-                    b.metric_values.data == b.metric.badval, True, b.metric_values.mask
-                )
+                is_bad = b.metric_values.data == b.metric.badval
+                if b.metric.badval != b.metric.badval:
+                    # NaN is not equal to itself.
+                    is_bad = b.metric_values.data != b.metric_values.data
+                b.metric_values.mask = np.where(is_bad, True, b.metric_values.mask)
 
         # Save data to disk as we go (just failsafe).
         if self.save_early:
-- 
2.43.0


From d1bad15a9b8b4353197fabe195ddf94f5c761af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 196/233] fix: a one-dimensional slicer given both bins and bin
 limits raised AttributeError instead of using the bins

---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..9515534 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From ba5fd0e504f542ca5ddc8a9e1f05b094b5ccf0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 197/233] fix: visits of an earlier setup stayed in the slices
 of time interval slicers

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 6d2f1ec..fd4ffdb 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -69,6 +69,8 @@ class TimeIntervalSlicer(BaseSlicer):
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
 
+        # Visits from an earlier setup do not belong to these intervals.
+        self.sim_idxs.clear()
         self.sim_idxs.update(
             pd.DataFrame(
                 {
@@ -197,6 +199,7 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
 
         self.nslice = len(blocks)
         self.shape = self.nslice
+        self.sim_idxs.clear()
         self.sim_idxs.update(
             visits.reset_index()[["sid", "visit_idx"]].groupby("sid").agg(list).to_dict()["visit_idx"]
         )
-- 
2.43.0


From c8e1a33e7d5145fa3f4eb78128f33c99836d408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 198/233] fix: time interval slicers could not be compared
 before setup and ignored their columns

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index fd4ffdb..9b9ede5 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -116,9 +116,18 @@ class TimeIntervalSlicer(BaseSlicer):
 
     def __eq__(self, other_slicer):
         """Evaluate if slicers are equivalent."""
-        if not isinstance(other_slicer, self.__class__):
+        if type(other_slicer) is not type(self):
             return False
 
+        if other_slicer.columns_needed != self.columns_needed:
+            return False
+
+        # Before setup, there are no slice points to compare.
+        if other_slicer.slice_points.get("sid") is None or self.slice_points.get("sid") is None:
+            return getattr(other_slicer, "interval_seconds", None) == getattr(
+                self, "interval_seconds", None
+            )
+
         for key in ["sid", "mjd", "duration"]:
             if not np.array_equal(other_slicer.slice_points[key], self.slice_points[key]):
                 return False
-- 
2.43.0


From c764bddfd5bb323fd8a10774a55175afc8dd6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 199/233] fix: time interval slicers were restored from disk
 with their default settings

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 9b9ede5..1058368 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -59,6 +59,11 @@ class TimeIntervalSlicer(BaseSlicer):
         self.interval_seconds = interval_seconds
         self.mjd_column_name = mjd_column_name
         self.columns_needed = [mjd_column_name]
+        self.slicer_init = {
+            "interval_seconds": interval_seconds,
+            "mjd_column_name": mjd_column_name,
+            "badval": badval,
+        }
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
@@ -175,6 +180,12 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
             duration_column_name,
             note_column_name,
         ]
+        self.slicer_init = {
+            "mjd_column_name": mjd_column_name,
+            "duration_column_name": duration_column_name,
+            "note_column_name": note_column_name,
+            "badval": badval,
+        }
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
@@ -266,6 +277,12 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
         self.duration_column_name = duration_column_name
         self.extra_column_names = extra_column_names
         self.columns_needed = [mjd_column_name, duration_column_name]
+        self.slicer_init = {
+            "mjd_column_name": mjd_column_name,
+            "duration_column_name": duration_column_name,
+            "extra_column_names": extra_column_names,
+            "badval": badval,
+        }
         self.sim_idxs = None  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From f30e3f2db980e8baff99fae0c1c25eb9be9e179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:55 +0000
Subject: [PATCH 200/233] fix: BlockIntervalSlicer failed with another note
 column when the visits also had a scheduler_note

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 1058368..c936774 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -189,17 +189,14 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
+        # Use only these columns: others could already have the new names.
         visits = pd.DataFrame(
-            sim_data,
-            index=pd.Index(np.arange(len(sim_data[self.mjd_column_name])), name="visit_idx"),
-        )
-        visits.rename(
-            columns={
-                self.mjd_column_name: "mjd",
-                self.duration_column_name: "duration",
-                self.note_column_name: "scheduler_note",
+            {
+                "mjd": np.asarray(sim_data[self.mjd_column_name]),
+                "duration": np.asarray(sim_data[self.duration_column_name]),
+                "scheduler_note": np.asarray(sim_data[self.note_column_name]),
             },
-            inplace=True,
+            index=pd.Index(np.arange(len(sim_data[self.mjd_column_name])), name="visit_idx"),
         )
         # convert to hours
         visits.sort_values("mjd", inplace=True)
-- 
2.43.0


From c1a8f65d3d4703bc5a3ff6414126b0197ea8f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 201/233] fix: Orbits.set_orbits changed the caller's table

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 51428cd..e1ccb09 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -125,7 +125,7 @@ class Orbits:
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-            orbits.reset_index(drop=True, inplace=True)
+            orbits = orbits.reset_index(drop=True)
 
         if "index" in orbits:
             del orbits["index"]
-- 
2.43.0


From 999ca41fbc0ce32c38411e96b07fedda5a15294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 202/233] fix: ChebyValues.set_coefficients changed the
 coefficients of the fits it was given

---
 rubin_sim/moving_objects/cheby_values.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index b1aa3dd..0a49dfe 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -46,7 +46,8 @@ class ChebyValues:
             ChebyFits object, with attribute 'coeffs' -
             a dictionary of lists of coefficients.
         """
-        self.coeffs = cheby_fits.coeffs
+        # Keep the coefficients of the fits themselves as they are.
+        self.coeffs = dict(cheby_fits.coeffs)
         # Convert list of coefficients into numpy arrays.
         for k in self.coeffs:
             self.coeffs[k] = np.array(self.coeffs[k])
-- 
2.43.0


From b8c0ce9914ea9a303de26fe76887ddea18d9aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 203/233] fix: run_prenight_sim lost its results and failed
 when no results directory was given

---
 rubin_sim/sim_archive/prenight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 0b0dbb8..c0a74de 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -9,6 +9,7 @@ import warnings
 from copy import deepcopy
 from datetime import date
 from pathlib import Path
+from tempfile import mkdtemp
 from typing import Any, Callable, Mapping, Protocol
 
 import numpy as np
@@ -306,7 +307,7 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     anom_overhead_scale = args.anom_overhead_scale
     anom_overhead_scatter = args.anom_overhead_scatter
     anom_overhead_seed = args.anom_overhead_seed
-    results_dir = args.results if len(args.results) > 0 else None
+    results_dir = args.results if len(args.results) > 0 else mkdtemp(prefix="prenight_sim_")
 
     with open(args.scheduler, "rb") as scheduler_io:
         scheduler = pickle.load(scheduler_io)
@@ -360,7 +361,7 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     output_dirname: str = "Unknown"
     if isinstance(data_path, Path):
         assert isinstance(data_path, Path)
-        output_dirname = data_path.name
+        output_dirname = str(data_path)
     else:
         assert isinstance(data_path, str)
         output_dirname = data_path
-- 
2.43.0


From db8f5a469913fa9138bd2b726bb2b17f26234275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 204/233] fix: drive_sim raised IndexError when rewards were
 kept but not recorded

---
 rubin_sim/sim_archive/sim_archive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index f7ef4a0..cf7bb8e 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -20,7 +20,7 @@ import socket
 from datetime import date, datetime, timedelta
 from numbers import Integral, Number
 from pathlib import Path
-from tempfile import TemporaryDirectory
+from tempfile import TemporaryDirectory, mkdtemp
 from typing import Any, Optional, Sequence, cast
 from zoneinfo import ZoneInfo
 
@@ -304,8 +304,8 @@ def drive_sim(
         LOGGER.debug("sim_runner complete.")
 
         observations = sim_results[2]
-        reward_df = sim_results[3] if scheduler.keep_rewards else None
-        obs_rewards = sim_results[4] if scheduler.keep_rewards else None
+        reward_df = sim_results[3] if kwargs["record_rewards"] else None
+        obs_rewards = sim_results[4] if kwargs["record_rewards"] else None
 
         data_dir = make_sim_data_dir(
             observations,
-- 
2.43.0


From 59026470562c1aba4c6699643af8f40d4a01ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 205/233] fix: drive_sim raised TypeError after the simulation
 and removed its results

---
 rubin_sim/sim_archive/sim_archive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index cf7bb8e..ead571d 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -307,7 +307,8 @@ def drive_sim(
         reward_df = sim_results[3] if kwargs["record_rewards"] else None
         obs_rewards = sim_results[4] if kwargs["record_rewards"] else None
 
-        data_dir = make_sim_data_dir(
+        # The results must outlive this function.
+        data_path = make_sim_data_dir(
             observations,
             reward_df=reward_df,
             obs_rewards=obs_rewards,
@@ -315,10 +316,11 @@ def drive_sim(
             sim_runner_kwargs=kwargs,
             tags=tags,
             label=label,
+            data_path=mkdtemp(prefix="sim_archive_"),
             opsim_metadata=opsim_metadata,
         )
 
-        resource_path = ResourcePath(data_dir.name, forceDirctory=True)  # type: ignore
+        resource_path = ResourcePath(str(data_path), forceDirectory=True)
 
     results = sim_results + (resource_path,)
     return results
-- 
2.43.0


From c4b2e98738e979a2e9c180951e9fa8c3c9803e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 206/233] fix: rewards were not saved with a simulation when
 only one of their tables was given

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index ead571d..5ca5f3c 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -112,7 +112,7 @@ def make_sim_data_dir(
     SchemaConverter().obs2opsim(observations, filename=opsim_output_fname)
 
     # Save the rewards
-    if reward_df is not None and obs_rewards is not None:
+    if reward_df is not None or obs_rewards is not None:
         files["rewards"] = {"name": "rewards.h5"}
         rewards_fname = data_path.joinpath(files["rewards"]["name"])
         if reward_df is not None:
-- 
2.43.0


From f814c9de0d62c5ec3d878486115b039fdf444c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 207/233] fix: results of simulations could not be saved when
 the USER variable is not set

---
 rubin_sim/sim_archive/sim_archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 5ca5f3c..3e51f9a 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -10,6 +10,7 @@ __all__ = [
     "NoMatchingSimulationsFoundError",
 ]
 
+import getpass
 import hashlib
 import logging
 import lzma
@@ -154,7 +155,7 @@ def make_sim_data_dir(
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-    opsim_metadata["username"] = os.environ["USER"]
+    opsim_metadata["username"] = os.environ["USER"] if "USER" in os.environ else getpass.getuser()
 
     simulation_dates = {}
     if "sim_start_mjd" in sim_runner_kwargs:
-- 
2.43.0


From 33176ef9f410cc9fd759ac22f68bc8f93c741f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 208/233] fix: make_sim_data_dir changed the caller's metadata

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 3e51f9a..cdb2404 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -150,8 +150,8 @@ def make_sim_data_dir(
         assert isinstance(evening_local_iso, str)
         return evening_local_iso
 
-    if opsim_metadata is None:
-        opsim_metadata = {}
+    # Do not change the metadata of the caller.
+    opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-- 
2.43.0


From eaa9acb518729c4f663409acbb1d458e975f4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 209/233] fix: the last night recorded for a simulation of part
 of a day was before its first night

---
 rubin_sim/sim_archive/sim_archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index cdb2404..f5a72e2 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -162,8 +162,9 @@ def make_sim_data_dir(
         simulation_dates["first"] = convert_mjd_to_dayobs(sim_runner_kwargs["sim_start_mjd"])
 
         if "sim_duration" in sim_runner_kwargs:
+            # The last night of a simulation may be shorter than a full day.
             simulation_dates["last"] = convert_mjd_to_dayobs(
-                sim_runner_kwargs["sim_start_mjd"] + sim_runner_kwargs["sim_duration"] - 1
+                sim_runner_kwargs["sim_start_mjd"] + np.ceil(sim_runner_kwargs["sim_duration"]) - 1
             )
     else:
         simulation_dates["first"] = convert_mjd_to_dayobs(observations["mjd"].min())
-- 
2.43.0


From ab3f027411558c8df019f5692690538f762b1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 210/233] fix: simulations of the default duration were
 recorded without their last night

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index f5a72e2..30d070c 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -166,6 +166,10 @@ def make_sim_data_dir(
             simulation_dates["last"] = convert_mjd_to_dayobs(
                 sim_runner_kwargs["sim_start_mjd"] + np.ceil(sim_runner_kwargs["sim_duration"]) - 1
             )
+        else:
+            simulation_dates["last"] = max(
+                simulation_dates["first"], convert_mjd_to_dayobs(observations["mjd"].max())
+            )
     else:
         simulation_dates["first"] = convert_mjd_to_dayobs(observations["mjd"].min())
         simulation_dates["last"] = convert_mjd_to_dayobs(observations["mjd"].max())
-- 
2.43.0


From 690675b642cb683d38d88a2eb03114863b7ee27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 211/233] fix: files archived by archive_sim were recorded
 under their paths instead of their types

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..c480d3c 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -391,7 +391,7 @@ def make_sim_archive_cli(*args: Any) -> str:
         try:
             filename = getattr(arg_values, filename_arg)
             if filename is not None:
-                in_files[filename] = filename
+                in_files[filename_arg] = filename
         except AttributeError:
             pass
 
-- 
2.43.0


From 7136c52e9469c8e41687a4ebcf376346b73fb0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 212/233] fix: the latest prototype simulation was passed over
 when its number was below that of an earlier day's

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index c480d3c..f11dcb3 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -804,7 +804,7 @@ def find_latest_prenight_sim_for_nights(
         if best_sim is not None:
             if sim["exec_date"] < best_sim["exec_date"]:
                 continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if sim["exec_date"] == best_sim["exec_date"] and sim["date_index"] < best_sim["date_index"]:
                 continue
         best_sim = sim
 
-- 
2.43.0


From 4b2ebf16168aa3cc1c24af74fdd64dbfe743dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 213/233] fix: choosing among prototype simulations failed when
 one of them had no tags

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index f11dcb3..aca3e70 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -799,7 +799,7 @@ def find_latest_prenight_sim_for_nights(
             continue
         if "telescope" in sim and sim["telescope"].lower() != telescope.lower():
             continue
-        if not set(tags).issubset(sim["tags"]):
+        if not set(tags).issubset(sim.get("tags", [])):
             continue
         if best_sim is not None:
             if sim["exec_date"] < best_sim["exec_date"]:
-- 
2.43.0


From 24e19dba732d1dad1b730493d099fce26ace7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 214/233] fix: loading a prototype simulation raised TypeError
 when none fits instead of returning None

---
 rubin_sim/sim_archive/prototype.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index aca3e70..19d9553 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -870,12 +870,11 @@ def fetch_sim_for_nights(
             opsim_rp = which_sim
         case str():
             opsim_rp = ResourcePath(which_sim)
-        case dict():
-            opsim_rp = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs, **which_sim)[
-                "opsim_rp"
-            ]
-        case None:
-            opsim_rp = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs)["opsim_rp"]
+        case dict() | None:
+            sim = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs, **(which_sim or {}))
+            if sim is None:
+                return None
+            opsim_rp = sim["opsim_rp"]
         case _:
             raise NotImplementedError()
 
-- 
2.43.0


From 6a67d8d39f727f52690c0c019a3465ba71290a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 215/233] fix: loading a prototype simulation added a stacker
 to the caller's arguments

---
 rubin_sim/sim_archive/prototype.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 19d9553..9f5facf 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -880,13 +880,11 @@ def fetch_sim_for_nights(
 
     assert isinstance(opsim_rp, ResourcePath)
 
-    if get_sim_data_kwargs is None:
-        get_sim_data_kwargs = {}
-    assert isinstance(get_sim_data_kwargs, dict)
+    # Do not change the arguments of the caller.
+    get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
 
     # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
+    get_sim_data_kwargs["stackers"] = list(get_sim_data_kwargs.get("stackers", []))
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
-- 
2.43.0


From 71859abcc7ce500ac5226569857adcff8d9b71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 216/233] fix: the older fetch_sim_for_nights changed the list
 of stackers of the caller and accepted no other sequence

---
 rubin_sim/sim_archive/future_vsarch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 7df68fb..9303e7a 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -378,7 +378,7 @@ def _fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
-- 
2.43.0


From ed798d3f8862e27afac369b1d7cf9f9030b21bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 217/233] fix: fetch_sim_for_nights put its stackers into the
 caller's arguments

---
 rubin_sim/sim_archive/future_vsarch.py | 2 +-
 rubin_sim/sim_archive/sim_archive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 9303e7a..caac5fe 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -390,7 +390,7 @@ def _fetch_sim_for_nights(
         if get_sim_data_kwargs is None:
             get_sim_data_kwargs = {}
         assert isinstance(get_sim_data_kwargs, dict)
-        get_sim_data_kwargs["stackers"] = stackers
+        get_sim_data_kwargs = {**get_sim_data_kwargs, "stackers": stackers}
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
     else:
diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 30d070c..bd45a78 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -493,7 +493,7 @@ def fetch_sim_for_nights(
         if get_sim_data_kwargs is None:
             get_sim_data_kwargs = {}
         assert isinstance(get_sim_data_kwargs, dict)
-        get_sim_data_kwargs["stackers"] = stackers
+        get_sim_data_kwargs = {**get_sim_data_kwargs, "stackers": stackers}
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
     else:
-- 
2.43.0


From b75ab8c106c0a3aae3c14773a8c6cb3ea3d6dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 218/233] fix: the scheduler version given for a simulation was
 replaced by that of the installed scheduler

---
 rubin_sim/sim_archive/prototype.py   | 6 +++++-
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 9f5facf..df7ff28 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -395,6 +395,10 @@ def make_sim_archive_cli(*args: Any) -> str:
         except AttributeError:
             pass
 
+    opsim_metadata = {"telescope": arg_values.telescope}
+    if arg_values.scheduler_version is not None:
+        opsim_metadata["scheduler_version"] = arg_values.scheduler_version
+
     data_path = make_sim_archive_dir(
         observations,
         reward_df,
@@ -402,7 +406,7 @@ def make_sim_archive_cli(*args: Any) -> str:
         in_files,
         tags=arg_values.tags,
         label=arg_values.label,
-        opsim_metadata={"telescope": arg_values.telescope},
+        opsim_metadata=opsim_metadata,
     )
     LOGGER.info(f"Created simulation archived directory: {data_path.name}")
 
diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index bd45a78..d3fa324 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -153,7 +153,7 @@ def make_sim_data_dir(
     # Do not change the metadata of the caller.
     opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)
 
-    opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
+    opsim_metadata.setdefault("scheduler_version", rubin_scheduler.__version__)
     opsim_metadata["host"] = socket.getfqdn()
     opsim_metadata["username"] = os.environ["USER"] if "USER" in os.environ else getpass.getuser()
 
-- 
2.43.0


From 5c5e6fcdf110a55357a9bc4a8fc4e34dd76a631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 219/233] fix: metadata of prototype simulations could not be
 compiled when none of them has tags or arguments

---
 rubin_sim/sim_archive/prototype.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index df7ff28..b9a641d 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -479,17 +479,15 @@ def compile_sim_metadata(
                     sim_row[key] = value
         sim_rows.append(sim_row)
 
-    sim_df = pd.DataFrame(sim_rows).set_index("sim_uri")
-    file_df = pd.DataFrame(file_rows).set_index("sim_uri")
-    sim_runner_kwargs_df = pd.DataFrame(sim_runner_kwargs).set_index("sim_uri")
-    tags_df = pd.DataFrame(tags).set_index("sim_uri")
+    tables = {"simulations": sim_rows, "files": file_rows, "kwargs": sim_runner_kwargs, "tags": tags}
 
     with TemporaryDirectory() as local_data_dir:
         local_hdf_fname = Path(local_data_dir).joinpath("scheduler.pickle.xz")
-        sim_df.to_hdf(local_hdf_fname, key="simulations", format="table")
-        file_df.to_hdf(local_hdf_fname, key="files", format="table")
-        sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="table")
-        tags_df.to_hdf(local_hdf_fname, key="tags", format="table")
+        for key, rows in tables.items():
+            # Tables without rows cannot be written: there are none of
+            # tags or kwargs if no simulation has any.
+            if len(rows) > 0:
+                pd.DataFrame(rows).set_index("sim_uri").to_hdf(local_hdf_fname, key=key, format="table")
 
         with open(local_hdf_fname, "rb") as local_hdf_io:
             hdf_bytes = local_hdf_io.read()
@@ -533,8 +531,9 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
         LOGGER.debug(f"{compilation_resource} copied to {compilation_fname}.")
         sim_df = pd.read_hdf(compilation_fname, "simulations")
         file_df = pd.read_hdf(compilation_fname, "files")
-        sim_runner_kwargs_df = pd.read_hdf(compilation_fname, "kwargs")
-        tags_df = pd.read_hdf(compilation_fname, "tags")
+        with pd.HDFStore(compilation_fname, mode="r") as store:
+            sim_runner_kwargs_df = store["kwargs"] if "kwargs" in store else None
+            tags_df = store["tags"] if "tags" in store else None
 
     def make_file_dict(g: pd.Series | pd.DataFrame) -> dict:
         if isinstance(g, pd.Series):
@@ -561,9 +560,11 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return sim_kwargs
 
-    sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
+    if sim_runner_kwargs_df is not None:
+        sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
 
-    sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
+    if tags_df is not None:
+        sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
 
     sim_metadata = sim_df.to_dict(orient="index")
 
-- 
2.43.0


From f4f8ff7a5faabef82cf3ed42f29a1faf9b14eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 220/233] fix: a bundle saved with a suffix was recorded under
 a file name without it

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index b8ca239..ea8316a 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -536,7 +536,7 @@ class MetricBundle:
             summary_values=self.summary_values,
         )
         if results_db is not None:
-            self.write_db(results_db=results_db)
+            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)
 
     def output_json(self):
         """Set up and call the baseSlicer outputJSON method,
-- 
2.43.0


From 1980a18f5a695f63c1c7d9614693aedac3ac59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 221/233] fix: outbursts of X-ray binaries were the same for
 every seed of their population

---
 rubin_sim/maf/maf_contrib/xrb_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/xrb_metrics.py b/rubin_sim/maf/maf_contrib/xrb_metrics.py
index cd57624..09baf3e 100644
--- a/rubin_sim/maf/maf_contrib/xrb_metrics.py
+++ b/rubin_sim/maf/maf_contrib/xrb_metrics.py
@@ -485,7 +485,7 @@ def generate_xrb_pop_slicer(t_start=1, t_end=3652, n_events=10000, seed=42):
 
     nsamples, nfields = xrb_sample.shape
 
-    xrb_lc_gen = XrbLc()
+    xrb_lc_gen = XrbLc(seed=seed)
 
     # select a random subsample
     event_idxs = rng.choice(np.arange(nsamples), size=n_events, replace=True)
-- 
2.43.0


From dfe3e9bae8649d31cacf2373c578a0e644f61368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 222/233] fix: microlensing events were put into the pixel
 before the one drawn

---
 rubin_sim/maf/maf_contrib/microlensing_metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/microlensing_metric.py b/rubin_sim/maf/maf_contrib/microlensing_metric.py
index a73c262..5b39494 100644
--- a/rubin_sim/maf/maf_contrib/microlensing_metric.py
+++ b/rubin_sim/maf/maf_contrib/microlensing_metric.py
@@ -578,8 +578,8 @@ def generate_microlensing_slicer(
     cumm_dist = np.cumsum(dist)
     cumm_dist = cumm_dist / np.max(cumm_dist)
     uniform_draw = rng.uniform(size=n_events)
-    indexes = np.floor(np.interp(uniform_draw, cumm_dist, np.arange(cumm_dist.size)))
-    hp_ids = order[indexes.astype(int)]
+    indexes = np.searchsorted(cumm_dist, uniform_draw, side="right")
+    hp_ids = order[indexes]
     gal_l, gal_b = hpid2_ra_dec(nside, hp_ids, nest=True)
     c = SkyCoord(l=gal_l * u.deg, b=gal_b * u.deg, frame="galactic").transform_to("icrs")
     ra, dec = c.ra.deg, c.dec.deg
-- 
2.43.0


From aa7365f83c718b3c1df72c2e18321a0bf66bb046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 223/233] fix: masked points were averaged into the healpix
 maps of HpxmapPlotter

---
 rubin_sim/maf/plots/skyproj_plotters.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/plots/skyproj_plotters.py b/rubin_sim/maf/plots/skyproj_plotters.py
index 7f93963..386cc79 100644
--- a/rubin_sim/maf/plots/skyproj_plotters.py
+++ b/rubin_sim/maf/plots/skyproj_plotters.py
@@ -419,18 +419,17 @@ class HpxmapPlotter(SkyprojPlotter):
 
     def _transform_to_healpix(self, metric_value_in, slicer):
         # Bin the values up on a healpix grid.
+        # Bin only the values which are not masked.
+        good = np.where(~ma.getmaskarray(metric_value_in))[0]
         metric_value = _healbin(
-            slicer.slice_points["ra"],
-            slicer.slice_points["dec"],
-            metric_value_in.filled(slicer.badval),
+            slicer.slice_points["ra"][good],
+            slicer.slice_points["dec"][good],
+            metric_value_in.data[good],
             nside=self.plot_dict["nside"],
             reduce_func=self.plot_dict["reduce_func"],
-            fill_val=slicer.badval,
+            fill_val=np.nan,
         )
-        mask = np.zeros(metric_value.size)
-        mask[np.where(metric_value == slicer.badval)] = 1
-
-        metric_value = ma.array(metric_value, mask=mask)
+        metric_value = ma.masked_invalid(metric_value)
         return metric_value
 
     def _compatible_color_limits(self, norm, clims):
-- 
2.43.0


From 8c84863f68785114baded8db5ca6faf7641d0799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 224/233] fix: HpxmapPlotter failed to mask low values when
 nothing was masked before

---
 rubin_sim/maf/plots/skyproj_plotters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/plots/skyproj_plotters.py b/rubin_sim/maf/plots/skyproj_plotters.py
index 386cc79..3a19f79 100644
--- a/rubin_sim/maf/plots/skyproj_plotters.py
+++ b/rubin_sim/maf/plots/skyproj_plotters.py
@@ -489,8 +489,7 @@ class HpxmapPlotter(SkyprojPlotter):
         # what we really want to do? Why not use the default handling of
         # masked values applied by skyproj?
         if "mask_below" in self.plot_dict and self.plot_dict["mask_below"] is not None:
-            to_mask = np.where(hpix_map <= self.plot_dict["mask_below"])[0]
-            hpix_map.mask[to_mask] = True
+            hpix_map = ma.masked_where(hpix_map <= self.plot_dict["mask_below"], hpix_map)
             hpix_map = hpix_map.filled(hp.UNSEEN)
         else:
             hpix_map = hpix_map.filled(slicer.badval)
-- 
2.43.0


From 8c6cca303d578f7017eddab35a277d0286f3c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 225/233] fix: HpxmapPlotter failed for slicers of points
 without a resolution in its settings

---
 rubin_sim/maf/plots/skyproj_plotters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/plots/skyproj_plotters.py b/rubin_sim/maf/plots/skyproj_plotters.py
index 3a19f79..023d250 100644
--- a/rubin_sim/maf/plots/skyproj_plotters.py
+++ b/rubin_sim/maf/plots/skyproj_plotters.py
@@ -368,6 +368,8 @@ class HpxmapPlotter(SkyprojPlotter):
     def __init__(self):
         super().__init__()
         self.default_plot_dict["colorbar"] = True
+        self.default_plot_dict["nside"] = 8
+        self.default_plot_dict["reduce_func"] = np.mean
         self.object_plotter = False
 
     def draw_colorbar(self):
-- 
2.43.0


From cd8bcda455e5079d792d2733ef555c30453223e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 226/233] fix: hourglass plots failed when all values were
 equal

---
 rubin_sim/maf/plots/hg_plotters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 2eaa2b6..235243a 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -289,13 +289,13 @@ class GeneralHourglassPlot(BasePlotter):
         # Manages the mapping of metric values to colors in the
         # horizonatal lines in the hourglass plot.
         cmap = self.plot_dict["cmap"]
-        if values.max() == values.min():
+        try:
+            color_limits = self.plot_dict["color_limits"]
+        except KeyError:
+            color_limits = (values.min(), values.max())
+        if color_limits[0] == color_limits[1]:
             colors = cmap(0.5)
         else:
-            try:
-                color_limits = self.plot_dict["color_limits"]
-            except KeyError:
-                color_limits = (values.min(), values.max())
             colors = cmap((values - color_limits[0]) / (color_limits[1] - color_limits[0]))
 
         norm = mpl.colors.Normalize(vmin=color_limits[0], vmax=color_limits[1])
-- 
2.43.0


From e668ed9260eef8ace32be958f3b581845c70e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 227/233] fix: the months of a year of hourglass plots had
 color scales that differed from the color bar

---
 rubin_sim/maf/plots/hg_plotters.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 235243a..f6c2c5e 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -723,10 +723,20 @@ class YearHourglassPlot(GeneralHourglassPlot):
             gridspec_kw={"wspace": 0.025, "hspace": 0},
         )
 
+        # All months share one color bar, so they need to share the scale.
+        start_mjd = pd.Timestamp(self.year, 1, 1, 12, tz=self.tz).to_julian_date() - 2400000.5
+        end_mjd = pd.Timestamp(self.year + 1, 1, 1, 12, tz=self.tz).to_julian_date() - 2400000.5
+        values = intervals.query(f"{start_mjd}<mjd<{end_mjd}")["value"]
+        if self.plot_dict["colorbar"] and values.notna().any():
+            self.plot_dict.setdefault("color_limits", (values.min(), values.max()))
+
+        color_mappable = None
         for month, ax in zip(np.arange(1, 13), axes.T.flatten()):  # pylint: disable=invalid-name
             logging.info("Working on %s, %d", calendar.month_name[month], self.year)
             self.plot_dict["y_max"] = calendar.monthrange(self.year, month)[1] + 0.5
-            color_mappable = self._plot_month(intervals, month, self.year, ax)
+            month_color_mappable = self._plot_month(intervals, month, self.year, ax)
+            if month_color_mappable is not None:
+                color_mappable = month_color_mappable
             ax.set_title("")
             ax.set_title(calendar.month_abbr[month], y=1, x=0.005, pad=-15, loc="left")
 
-- 
2.43.0


From 5b9ec0e6810c60d6281ce28814044386e6f56087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 228/233] fix: hourglass plots in civil time gave hours after
 midnight of UTC

---
 rubin_sim/maf/plots/hg_plotters.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index f6c2c5e..0a8a725 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -911,8 +911,10 @@ def _compute_hours_after_midnight(mjd, tz="Chile/Continental"):  # pylint: disab
 
     utc_datetimes = pd.to_datetime(mjd + 2400000.5, unit="D", origin="julian").tz_localize("UTC")
     local_times = pd.DatetimeIndex(utc_datetimes).tz_convert(tz)
-    night_mjds = np.floor(local_times.to_julian_date() - 2400001).astype(int).values
-    hours_after_midnight = (local_times.to_julian_date().values - 2400001.5 - night_mjds) * 24
+    # The Julian date of a time with a timezone can be that of its UTC instant
+    local_jds = local_times.tz_localize(None).to_julian_date().values
+    night_mjds = np.floor(local_jds - 2400001).astype(int)
+    hours_after_midnight = (local_jds - 2400001.5 - night_mjds) * 24
     return night_mjds, hours_after_midnight
 
 
@@ -948,7 +950,9 @@ def _compute_hours_after_solar_midnight(mjd, site, tz="Chile/Continental"):  # p
     )  # pylint: disable=no-member
     utc_datetimes = pd.to_datetime(mjd + 2400000.5, unit="D", origin="julian").tz_localize("UTC")
     local_times = pd.DatetimeIndex(utc_datetimes).tz_convert(tz)
-    night_mjds = np.floor(local_times.to_julian_date() - 2400001).astype(int).values
+    # The Julian date of a time with a timezone can be that of its UTC instant
+    local_jds = local_times.tz_localize(None).to_julian_date().values
+    night_mjds = np.floor(local_jds - 2400001).astype(int)
     return night_mjds, hours_after_midnight
 
 
-- 
2.43.0


From d6d04393c0a6ccb676aeb5379f584ae3b8f76fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 229/233] fix: hourglass plots ignored their time zone

---
 rubin_sim/maf/plots/hg_plotters.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 0a8a725..4ff54a2 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -179,12 +179,12 @@ class GeneralHourglassPlot(BasePlotter):
                 (
                     night_mjds,
                     hours_after_midnight,
-                ) = _compute_hours_after_solar_midnight(intervals["mjd"].values, self.site)
+                ) = _compute_hours_after_solar_midnight(intervals["mjd"].values, self.site, self.tz)
             else:
                 (
                     night_mjds,
                     hours_after_midnight,
-                ) = _compute_hours_after_midnight(intervals["mjd"].values)
+                ) = _compute_hours_after_midnight(intervals["mjd"].values, self.tz)
 
             color_mappable = self._plot_value_bars(
                 intervals["value"],
@@ -206,7 +206,7 @@ class GeneralHourglassPlot(BasePlotter):
         start_mjd = ax.get_ylim()[1] + epoch_mjd
         end_mjd = ax.get_ylim()[0] + epoch_mjd
         # Add the twilight boundaries and moon transit lines
-        _astron_hourglass(start_mjd + 0.5, end_mjd + 1, ax, self.site, self.solar_time)
+        _astron_hourglass(start_mjd + 0.5, end_mjd + 1, ax, self.site, self.solar_time, self.tz)
         # Add the transits
         self._plot_transits(start_mjd + 0.5, end_mjd + 1, ax)
 
@@ -554,9 +554,9 @@ class GeneralHourglassPlot(BasePlotter):
                 (
                     transit_nights,
                     transit_hams,
-                ) = _compute_hours_after_solar_midnight(transit_mjds, self.site)
+                ) = _compute_hours_after_solar_midnight(transit_mjds, self.site, self.tz)
             else:
-                transit_nights, transit_hams = _compute_hours_after_midnight(transit_mjds)
+                transit_nights, transit_hams = _compute_hours_after_midnight(transit_mjds, self.tz)
 
             ax.plot(
                 transit_hams,
@@ -1016,7 +1016,7 @@ def _compute_moon_transit_mjds(mjds, site):
 
 
 def _astron_hourglass(
-    start_mjd, end_mjd, ax, site, solar_time
+    start_mjd, end_mjd, ax, site, solar_time, tz="Chile/Continental"
 ):  # pylint: disable=invalid-name, too-many-locals, too-many-branches
     """Add the moon transit, night and twilight start/end lines.
 
@@ -1033,6 +1033,8 @@ def _astron_hourglass(
     solar_time : `bool`
        True to use mean local solar midnight
        False to use civil midnight
+    tz : `str`
+       The timezone of civil midnight and of the dates of nights
 
     Returns
     -------
@@ -1053,9 +1055,9 @@ def _astron_hourglass(
         (
             moon_transit_nights,
             moon_transit_hams,
-        ) = _compute_hours_after_solar_midnight(moon_transit_mjds, site)
+        ) = _compute_hours_after_solar_midnight(moon_transit_mjds, site, tz)
     else:
-        moon_transit_nights, moon_transit_hams = _compute_hours_after_midnight(moon_transit_mjds)
+        moon_transit_nights, moon_transit_hams = _compute_hours_after_midnight(moon_transit_mjds, tz)
     # Loop to avoid wrapping
     moon_lines = np.cumsum(np.diff(moon_transit_hams, prepend=moon_transit_hams[0]) < 0)
     moon_label = "moon"
@@ -1079,9 +1081,9 @@ def _astron_hourglass(
             (
                 moon_event_nights,
                 moon_event_hams,
-            ) = _compute_hours_after_solar_midnight(moon_event_mjds, site)
+            ) = _compute_hours_after_solar_midnight(moon_event_mjds, site, tz)
         else:
-            moon_event_nights, moon_event_hams = _compute_hours_after_midnight(moon_event_mjds)
+            moon_event_nights, moon_event_hams = _compute_hours_after_midnight(moon_event_mjds, tz)
         # Loop to avoid wrapping
         moon_lines = np.cumsum(np.diff(moon_event_hams, prepend=moon_event_hams[0]) < 0)
         for moon_line in np.unique(moon_lines):
@@ -1105,20 +1107,20 @@ def _astron_hourglass(
             (
                 pm_event_nights,
                 pm_event_hams,
-            ) = _compute_hours_after_solar_midnight(pm_event_mjds, site)
+            ) = _compute_hours_after_solar_midnight(pm_event_mjds, site, tz)
             (
                 am_event_nights,
                 am_event_hams,
-            ) = _compute_hours_after_solar_midnight(am_event_mjds, site)
+            ) = _compute_hours_after_solar_midnight(am_event_mjds, site, tz)
         else:
             (
                 pm_event_nights,
                 pm_event_hams,
-            ) = _compute_hours_after_midnight(pm_event_mjds)
+            ) = _compute_hours_after_midnight(pm_event_mjds, tz)
             (
                 am_event_nights,
                 am_event_hams,
-            ) = _compute_hours_after_midnight(am_event_mjds)
+            ) = _compute_hours_after_midnight(am_event_mjds, tz)
         assert np.array_equal(am_event_nights, pm_event_nights)
         ax.fill_betweenx(
             am_event_nights - start_mjd + 1,
-- 
2.43.0


From 3be57f5d2a423e7428ebd90b8cff950388b3ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 230/233] fix: hourglass plots of another site had twilights of
 Cerro Pachon

---
 rubin_sim/maf/plots/hg_plotters.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 4ff54a2..9de81db 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -1076,7 +1076,7 @@ def _astron_hourglass(
 
     # Moon rise and set
     for direction in ("up", "down"):
-        moon_event_mjds = riseset_times(cal_night_mjds, direction, alt=0, body="moon")
+        moon_event_mjds = riseset_times(cal_night_mjds, direction, alt=0, location=site, body="moon")
         if solar_time:
             (
                 moon_event_nights,
@@ -1101,8 +1101,12 @@ def _astron_hourglass(
     twilight_shade = {0: "0.7", -6: "0.6", -12: "0.4", -18: "black"}
 
     for alt in twilight_shade:
-        pm_event_mjds = riseset_times(cal_night_mjds + guess_offset["down"], "down", alt=alt, body="sun")
-        am_event_mjds = riseset_times(cal_night_mjds + guess_offset["up"], "up", alt=alt, body="sun")
+        pm_event_mjds = riseset_times(
+            cal_night_mjds + guess_offset["down"], "down", alt=alt, location=site, body="sun"
+        )
+        am_event_mjds = riseset_times(
+            cal_night_mjds + guess_offset["up"], "up", alt=alt, location=site, body="sun"
+        )
         if solar_time:
             (
                 pm_event_nights,
-- 
2.43.0


From 3e41d2b46538a5e5e76f55206710ca0069a36c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 231/233] fix: hourglass plots of a range of dates failed, and
 lines were off for other y ranges

---
 rubin_sim/maf/plots/hg_plotters.py | 35 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 9de81db..0970c18 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -146,10 +146,10 @@ class GeneralHourglassPlot(BasePlotter):
 
         ax = fig.add_axes([0, 0, 1, 1])  # pylint: disable=invalid-name
         color_mappable = self._plot_one_axis(intervals, ax)
-        self._add_axis_labels(ax, self.plot_dict)
+        self._add_axis_labels(ax)
         return [color_mappable, np.array([ax])]
 
-    def _plot_one_axis(self, intervals, ax, epoch_mjd=None):  # pylint: disable=invalid-name
+    def _plot_one_axis(self, intervals, ax, epoch_mjd=0):  # pylint: disable=invalid-name
         """Actually add the data to one axis of an hourglass plot
 
         includes adding the twilight/transit lines, does not include any
@@ -200,15 +200,19 @@ class GeneralHourglassPlot(BasePlotter):
         try:
             ax.set_ylim(self.plot_dict["y_max"], self.plot_dict["y_min"])
         except KeyError:
-            ax.set_ylim(ax.get_ylim()[-1] + 1, -0.5)
+            if len(intervals) > 0:
+                first_night, last_night = night_mjds.min() - epoch_mjd, night_mjds.max() - epoch_mjd
+            else:
+                first_night, last_night = 0, 0
+            ax.set_ylim(last_night + 1.5, first_night - 0.5)
         ax.set_xlim(self.plot_dict["x_min"], self.plot_dict["x_max"])
 
         start_mjd = ax.get_ylim()[1] + epoch_mjd
         end_mjd = ax.get_ylim()[0] + epoch_mjd
         # Add the twilight boundaries and moon transit lines
-        _astron_hourglass(start_mjd + 0.5, end_mjd + 1, ax, self.site, self.solar_time, self.tz)
+        _astron_hourglass(start_mjd + 0.5, end_mjd + 1, ax, self.site, self.solar_time, self.tz, epoch_mjd)
         # Add the transits
-        self._plot_transits(start_mjd + 0.5, end_mjd + 1, ax)
+        self._plot_transits(start_mjd + 0.5, end_mjd + 1, ax, epoch_mjd)
 
         return color_mappable
 
@@ -525,7 +529,7 @@ class GeneralHourglassPlot(BasePlotter):
         ax.set_yticks(np.arange(1, 32, 7))
         return color_mappable
 
-    def _plot_transits(self, start_mjd, end_mjd, ax):  # pylint: disable=invalid-name
+    def _plot_transits(self, start_mjd, end_mjd, ax, epoch_mjd):  # pylint: disable=invalid-name
         """Plot transit lines on a set of axes.
 
         Parameters
@@ -536,6 +540,8 @@ class GeneralHourglassPlot(BasePlotter):
            End time for the exes
         ax: `matplotlib.axes.Axes`
            the axes on which to plot transit lines
+        epoch_mjd : `float`
+           the reference MJD of the vertical axis
         """
         # Add transit lines for each of the RA values
         # it self.marked_ra.
@@ -560,7 +566,7 @@ class GeneralHourglassPlot(BasePlotter):
 
             ax.plot(
                 transit_hams,
-                transit_nights - start_mjd + 1,
+                transit_nights - epoch_mjd,
                 color=color,
                 label=field + "-transit",
             )
@@ -592,6 +598,8 @@ class RangeHourglassPlot(GeneralHourglassPlot):
         self.plot_type = "RangeHourglass"
         self.start_date = pd.Timestamp(start_date)
         self.end_date = pd.Timestamp(end_date)
+        self.default_plot_dict["y_max"] = np.ceil(self.end_date.to_julian_date() - 2400000.5) + 0.5
+        self.default_plot_dict["y_min"] = np.floor(self.start_date.to_julian_date() - 2400000.5) - 1.5
 
     def _plot(self, fig, intervals):
         """Make the hourglass plot for a range of dates.
@@ -612,7 +620,7 @@ class RangeHourglassPlot(GeneralHourglassPlot):
         """
         ax = fig.add_axes([0, 0, 1, 1])  # pylint: disable=invalid-name
         color_mappable = self._plot_dates(intervals, self.start_date, self.end_date, ax)
-        self._add_axis_labels(ax, self.plot_dict)
+        self._add_axis_labels(ax)
         return color_mappable, np.array([ax])
 
 
@@ -1016,7 +1024,7 @@ def _compute_moon_transit_mjds(mjds, site):
 
 
 def _astron_hourglass(
-    start_mjd, end_mjd, ax, site, solar_time, tz="Chile/Continental"
+    start_mjd, end_mjd, ax, site, solar_time, tz="Chile/Continental", epoch_mjd=0
 ):  # pylint: disable=invalid-name, too-many-locals, too-many-branches
     """Add the moon transit, night and twilight start/end lines.
 
@@ -1035,6 +1043,8 @@ def _astron_hourglass(
        False to use civil midnight
     tz : `str`
        The timezone of civil midnight and of the dates of nights
+    epoch_mjd : `float`
+       the reference MJD of the vertical axis
 
     Returns
     -------
@@ -1043,7 +1053,6 @@ def _astron_hourglass(
     """
 
     mjds = np.arange(start_mjd, end_mjd + 1, 1)
-    start_mjd = mjds[0]
 
     # Moon transit
 
@@ -1066,7 +1075,7 @@ def _astron_hourglass(
         these_nights = moon_transit_nights[moon_lines == moon_line]
         ax.plot(
             these_hams,
-            these_nights - start_mjd + 1,
+            these_nights - epoch_mjd,
             color="yellow",
             linewidth=8,
             alpha=0.5,
@@ -1091,7 +1100,7 @@ def _astron_hourglass(
             these_nights = moon_event_nights[moon_lines == moon_line]
             ax.plot(
                 these_hams,
-                these_nights - start_mjd + 1,
+                these_nights - epoch_mjd,
                 color="yellow",
                 linestyle="dotted",
             )
@@ -1127,7 +1136,7 @@ def _astron_hourglass(
             ) = _compute_hours_after_midnight(am_event_mjds, tz)
         assert np.array_equal(am_event_nights, pm_event_nights)
         ax.fill_betweenx(
-            am_event_nights - start_mjd + 1,
+            am_event_nights - epoch_mjd,
             pm_event_hams,
             am_event_hams,
             color=twilight_shade[alt],
-- 
2.43.0


From ab64184c7685ce14d42f0157ceaf72c86f1a8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 232/233] fix: categories had colors that differed between the
 months of a year of hourglass plots

---
 rubin_sim/maf/plots/hg_plotters.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 0970c18..8056968 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -349,6 +349,7 @@ class GeneralHourglassPlot(BasePlotter):
         # for this plot
         self.plot_dict = copy.copy(self.default_plot_dict)  # pylint: disable=invalid-name
         self.plot_dict.update(user_plot_dict)
+        self.color_map = {}
 
         # Generate the figure
         if fig is None:
@@ -801,13 +802,13 @@ class CategoricalHourglassPlotMixin:
     def _map_colors(self, values):
         cmap = self.plot_dict["cmap"]
         assigned_colors = self.plot_dict["assigned_colors"]
-        self.color_map = {}
-        if len(self.color_map.keys()) == 0:
-            self.color_map = _assign_category_colors(
-                np.unique(values),
-                cmap,
-                assigned_colors=assigned_colors,
-            )
+        # Colors assigned for other axes of this figure are to be kept
+        self.color_map = _assign_category_colors(
+            np.unique(values),
+            cmap,
+            use_colors=self.color_map,
+            assigned_colors=assigned_colors,
+        )
 
         colors = np.array(np.vectorize(self.color_map.get)(values)).T.tolist()
         color_mappable = None
-- 
2.43.0


From 0ed761a82d8761dd49ef66055898882b6e228101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 233/233] fix: hourglass plots drew masked values when all
 others were equal

---
 rubin_sim/maf/plots/hg_plotters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 8056968..94cdf20 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -298,7 +298,8 @@ class GeneralHourglassPlot(BasePlotter):
         except KeyError:
             color_limits = (values.min(), values.max())
         if color_limits[0] == color_limits[1]:
-            colors = cmap(0.5)
+            # Missing values are to stay without a color
+            colors = cmap(np.where(values.isna(), np.nan, 0.5))
         else:
             colors = cmap((values - color_limits[0]) / (color_limits[1] - color_limits[0]))
 
-- 
2.43.0

