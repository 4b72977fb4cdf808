From 7dbdf9124f6f6b07109c89534273e84acb43cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:20 +0000
Subject: [PATCH 01/49] fix: weight gridded statistics by the samples of the
 joined points

---
 src/tatc/analysis/coverage.py | 23 +++++++++++------------
 src/tatc/analysis/latency.py  | 21 ++++++++++-----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..2e7b672 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -433,18 +433,17 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join points to their containing cells (re-index because cells may repeat)
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=samples.loc[r.index]),
+            "revisit": lambda r: np.average(r, weights=samples.loc[r.index]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = gdf["revisit"].apply(
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..ebc2072 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -273,17 +273,16 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join points to their containing cells (re-index because cells may repeat)
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=samples.loc[r.index]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = gdf["latency"].apply(
         lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-- 
2.43.0


From 584330af9620ef16c66c9bca53d7eadb47b34422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 02/49] fix: give every equally spaced point and cell a
 distinct id

---
 src/tatc/generation/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..fa4d4e1 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,9 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    # number of longitude indices (consistent with the generated index range)
+    count_i = int(np.round(360 / theta_i))
+    return int(j * count_i + np.mod(i, count_i))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From f2745e18291f6d4d64cfe3d82639145a0c3dc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:51 +0000
Subject: [PATCH 03/49] fix: keep the orbital period when deriving Molniya and
 Tundra orbits

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..7b5fc02 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1093,7 +1093,7 @@ class MolniyaOrbit(OrbitBase):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
-            eccentricity=self.get_eccentricity(),
+            orbital_period=self.orbital_period,
             perigee_argument=self.perigee_argument,
         )
 
@@ -1178,6 +1178,7 @@ class TundraOrbit(MolniyaOrbit):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
+            orbital_period=self.orbital_period,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
         )
-- 
2.43.0


From 5eeb33df693ed6911b345adc89768181ae1d7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:56 +0000
Subject: [PATCH 04/49] fix: convert inclination to radians when computing
 ground velocity

---
 src/tatc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..b9a8469 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -303,7 +303,7 @@ def compute_ground_velocity(altitude: float, inclination: float) -> float:
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     return constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
 
 
@@ -326,7 +326,7 @@ def along_track_distance_to_access_time(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return along_track / ground_velocity
 
@@ -350,7 +350,7 @@ def access_time_to_along_track_distance(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return ground_velocity * access_time
 
-- 
2.43.0


From 287ed1cba813e1890809b3b7ac41eab05b55e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 05/49] fix: use the later element set after each epoch
 midpoint

---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 7b5fc02..ef802fe 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -466,7 +466,7 @@ class TwoLineElements(BaseModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + [int(tle_i[i + 1]) for i in midpoint_indices]
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 774b33482246c827c4987c922f1040809c1339c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 06/49] fix: locate dilution of precision results at
 (longitude, latitude)

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..7d274d2 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -126,7 +126,7 @@ def compute_dop(
         "dop": pd.Series(dop, dtype="float", index=times),
         "geometry": pd.Series(
             gpd.points_from_xy(
-                [point.latitude] * len(dop), [point.longitude] * len(dop)
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
             ),
             dtype="object",
             index=times,
-- 
2.43.0


From e835a110d8593673a51e7785b9e9092d378a858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:14 +0000
Subject: [PATCH 07/49] fix: validate length and format of element sets before
 their order

---
 src/tatc/schemas/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index ef802fe..23e127f 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -32,9 +32,9 @@ class TwoLineElements(BaseModel):
     type: Literal["tle"] = Field("tle", description="Orbit type discriminator.")
     tle: Annotated[
         List[str],
-        AfterValidator(utils.is_chronological_tle),
-        AfterValidator(utils.is_valid_tle),
         AfterValidator(utils.is_even_length_list),
+        AfterValidator(utils.is_valid_tle),
+        AfterValidator(utils.is_chronological_tle),
     ] = Field(
         ...,
         description="Two line elements. Multiple TLEs must be in chronological order.",
-- 
2.43.0


From b4d316a44da5c14b4cc99e102383ef1dced0629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:39 +0000
Subject: [PATCH 08/49] fix: read signed b-star and second derivative of mean
 motion

---
 src/tatc/schemas/orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 23e127f..9bcb090 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -143,9 +143,9 @@ class TwoLineElements(BaseModel):
             float: the second derivative of mean motion
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][44:50].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][50:52])
-        )
+        return float(
+            self.tle[2 * tle_i][44] + "0." + self.tle[2 * tle_i][45:50].strip()
+        ) * 10 ** (int(self.tle[2 * tle_i][50:52]))
 
     def get_b_star(self, tle_i=0) -> float:
         """
@@ -158,9 +158,9 @@ class TwoLineElements(BaseModel):
             float: the b-star term
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][53:59].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][59:61])
-        )
+        return float(
+            self.tle[2 * tle_i][53] + "0." + self.tle[2 * tle_i][54:59].strip()
+        ) * 10 ** (int(self.tle[2 * tle_i][59:61]))
 
     def get_ephemeris_type(self, tle_i=0) -> int:
         """
-- 
2.43.0


From ec592361e174e87a3df8361c303fdb167dc12eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 09/49] fix: read alpha-5 catalog numbers accepted by the
 element set format

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9bcb090..f40cd85 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -12,6 +12,7 @@ from typing import List, Optional, Tuple, Union
 
 import numpy as np
 from pydantic import AfterValidator, BaseModel, Field
+from sgp4.alpha5 import from_alpha5
 from sgp4.api import Satrec, WGS72
 from sgp4 import exporter
 from sgp4.conveniences import sat_epoch_datetime
@@ -67,7 +68,7 @@ class TwoLineElements(BaseModel):
             int: the catalog number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][2:7])
+        return from_alpha5(self.tle[2 * tle_i][2:7])
 
     def get_classification(self, tle_i=0) -> str:
         """
-- 
2.43.0


From 8279067429d0b0bdf2f13395a93d20bc133720d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:31 +0000
Subject: [PATCH 10/49] fix: report every unreadable configuration file as a
 configuration error

---
 src/tatc/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..8b35cf3 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,7 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
+from yaml import YAMLError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -75,10 +75,12 @@ def load_yaml_config(path: pathlib.Path):
     with open(path, "r", encoding="utf-8") as f:
         try:
             config = yaml.safe_load(f)
-        except ParserError as err:
+        except (YAMLError, ValueError) as err:
             raise ConfigError(f"Couldn't parse config file - {err}") from err
+    if not isinstance(config, dict):
+        raise ConfigError("Couldn't parse config file - not a mapping of settings")
     try:
-        return RuntimeConfiguration(**config)
+        return RuntimeConfiguration.model_validate(config)
     except ValidationError as err:
         raise ConfigError(f"Couldn't validate config file - {err}") from err
 
-- 
2.43.0


From 2bb834e4c7eb7f30ba847f2ee05d29731001e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:36 +0000
Subject: [PATCH 11/49] fix: do not modify the frame passed to
 normalize_geometry

---
 src/tatc/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b9a8469..e5c10d2 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1183,6 +1183,8 @@ def normalize_geometry(
     elif isinstance(geometry, gpd.GeoSeries):
         geometry = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
     if isinstance(geometry, gpd.GeoDataFrame):
+        # operate on a copy of the data frame
+        geometry = geometry.copy()
         geometry["geometry"] = geometry.apply(
             lambda r: split_polygon(r.geometry),
             axis=1,
-- 
2.43.0


From c1602816328de476a08dcdd95cddced27bb82186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 12/49] fix: wrap holes of polygons that exceed the south pole

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index e5c10d2..91b2987 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -908,7 +908,7 @@ def _wrap_polygon_over_south_pole(
             [
                 [
                     [
-                        (c[0] + lat_shift if c[1] <= -90 else c[0],),
+                        c[0] + lat_shift if c[1] <= -90 else c[0],
                         -180 - c[1] if c[1] <= -90 else c[1],
                     ]
                     for c in i.coords
-- 
2.43.0


From ddee6a332e1dbf461c4d9e7e2784452ef737eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:46 +0000
Subject: [PATCH 13/49] fix: cull with every geometry of a mask series

---
 src/tatc/analysis/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..41669c0 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -340,7 +340,7 @@ def collect_ground_track(
                 else (
                     mask.dissolve().iloc[0].geometry
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else gpd.GeoDataFrame(geometry=mask).dissolve().iloc[0].geometry
                 )
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
@@ -661,7 +661,7 @@ def collect_ground_pixels(
                 else (
                     mask.dissolve().iloc[0].geometry
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else gpd.GeoDataFrame(geometry=mask).dissolve().iloc[0].geometry
                 )
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
-- 
2.43.0


From e877ce7d1b53aeeff6d0cb403924439e0410ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:04 +0000
Subject: [PATCH 14/49] fix: report a visible period that covers the whole
 window

---
 src/tatc/analysis/coverage.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 2e7b672..16cd291 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -61,9 +61,20 @@ def _get_visible_interval_series(
         point, start, end, min_elevation_angle
     )
 
+    # without any events, the satellite is either always or never visible
+    always_visible = len(events) == 0 and (
+        (
+            satellite.orbit.to_tle().get_orbit_track(start)
+            - wgs84.latlon(point.latitude, point.longitude, point.elevation).at(t_0)
+        )
+        .altaz()[0]
+        .degrees
+        >= min_elevation_angle
+    )
+
     # build the observation periods
     obs_periods = []
-    if len(events) > 0 and np.all(events == 1):
+    if start < end and (always_visible or (len(events) > 0 and np.all(events == 1))):
         # if all events are type 1 (culminate), create a period from start to end
         obs_periods += [
             pd.Interval(
-- 
2.43.0


From 4606527dd8cefc5c1b5a85557bb9b2039b67d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:16 +0000
Subject: [PATCH 15/49] fix: keep every segment and single samples in line
 ground tracks

---
 src/tatc/analysis/track.py | 59 ++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 41669c0..6cb1a64 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -21,8 +21,9 @@ from shapely.geometry import (
     MultiPolygon,
     Point,
     LineString,
+    MultiLineString,
 )
-from shapely.ops import clip_by_rect, split
+from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -31,6 +32,7 @@ from ..utils import (
     buffer_footprint,
     buffer_target,
     field_of_regard_to_swath_width,
+    project_polygon_to_elevation,
 )
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
 
@@ -554,8 +556,10 @@ def compute_ground_track(
             swath_widths.append(sub_track.swath_width.mean())
             # no anti-meridian crossings if all absolute longitude differences
             # are less than 180 deg
-            if np.all(np.abs(np.diff(lon)) < 180):
-                segments.append(LineString(points))
+            if len(points) == 1:
+                segments.append([points.iloc[0]])
+            elif np.all(np.abs(np.diff(lon)) < 180):
+                segments.append([LineString(points)])
             else:
                 # find anti-meridian crossings and calculate shift direction
                 # coords from W -> E (shift < 0) will add 360 degrees to E component
@@ -564,27 +568,29 @@ def compute_ground_track(
                 points = [
                     Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
                 ]
-                # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-                shift_dir = -180 if shift.max() >= 1 else 180
+                # split along every crossing of the anti-meridian
                 collection = split(
                     LineString(points),
-                    LineString([(shift_dir, -180), (shift_dir, 180)]),
+                    MultiLineString(
+                        [[(x, -180), (x, 180)] for x in (-540, -180, 180, 540)]
+                    ),
                 )
-                # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
+                # map longitudes of each part to [-180, 180]
+                segments.append(
                     [
-                        (
-                            LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
-                            if np.all([c[0] <= -180 for c in line.coords])
-                            else (
-                                LineString(
-                                    [(c[0] - 360, c[1], c[2]) for c in line.coords]
+                        LineString(
+                            [
+                                (
+                                    c[0]
+                                    - 360
+                                    * np.round(
+                                        (line.bounds[0] + line.bounds[2]) / 2 / 360
+                                    ),
+                                    c[1],
+                                    c[2],
                                 )
-                                if np.all([c[0] >= 180 for c in line.coords])
-                                else LineString(
-                                    [(c[0], c[1], c[2]) for c in line.coords]
-                                )
-                            )
+                                for c in line.coords
+                            ]
                         )
                         for line in collection.geoms
                     ]
@@ -593,9 +599,20 @@ def compute_ground_track(
         from_crs = pyproj.Transformer.from_crs(
             pyproj.CRS(crs), track.crs, always_xy=True
         )
+        # join the segments of each contiguous observation period
         polygons = [
-            buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
-            for segment, swath_width in zip(segments, swath_widths)
+            project_polygon_to_elevation(
+                unary_union(
+                    [
+                        buffer_footprint(
+                            segment, to_crs, from_crs, swath_width, elevation
+                        )
+                        for segment in sub_segments
+                    ]
+                ),
+                elevation,
+            )
+            for sub_segments, swath_width in zip(segments, swath_widths)
         ]
         # dissolve the original track
         track = track.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
-- 
2.43.0


From b35b5a6550d605bd44883b0f3caa9389d83437c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 16/49] fix: keep pointed instruments when loading a space
 system

---
 src/tatc/schemas/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 66e8146..8fc0e94 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -22,7 +22,7 @@ from tatc.utils import (
     compute_min_elevation_angle,
 )
 from ..constants import EARTH_MEAN_RADIUS
-from .instrument import Instrument
+from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
@@ -39,7 +39,7 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Instrument] = Field(
+    instruments: List[Union[PointedInstrument, Instrument]] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From 586fca810c3c02c06862f4eabf574387b9640e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:20 +0000
Subject: [PATCH 17/49] fix: accept streets-of-coverage constellations in an
 architecture

---
 src/tatc/schemas/architecture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/architecture.py b/src/tatc/schemas/architecture.py
index e82f4ab..e22a543 100644
--- a/src/tatc/schemas/architecture.py
+++ b/src/tatc/schemas/architecture.py
@@ -14,6 +14,7 @@ from .satellite import (
     TrainConstellation,
     WalkerConstellation,
     MOGConstellation,
+    SOCConstellation,
 )
 from .point import GroundStation
 
@@ -25,7 +26,13 @@ class Architecture(BaseModel):
 
     name: str = Field(..., description="Name of this mission.")
     satellites: List[
-        Union[Satellite, TrainConstellation, WalkerConstellation, MOGConstellation]
+        Union[
+            Satellite,
+            TrainConstellation,
+            WalkerConstellation,
+            MOGConstellation,
+            SOCConstellation,
+        ]
     ] = Field([], description="List of member space systems.")
     stations: List[GroundStation] = Field(
         [], description="List of member ground stations."
-- 
2.43.0


From 9f5bd103f80eaeab521fb28b5392b4cec2e0bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:26 +0000
Subject: [PATCH 18/49] fix: keep derived angles below 360 degrees

---
 src/tatc/schemas/orbit.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f40cd85..3174c87 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -777,9 +777,11 @@ class CircularOrbit(OrbitBase):
             CircularOrbit: the derived orbit
         """
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+            np.mod(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360), 360
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360)
         return CircularOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -887,9 +889,11 @@ class SunSynchronousOrbit(OrbitBase):
             CircularOrbit: the derived orbit
         """
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+            np.mod(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360), 360
+            )
         )
-        raan = np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360)
+        raan = np.mod(np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360), 360)
         # TODO the resulting orbit *is* still sun-synchronous; however, with a
         # different equator-crossing time. Need to do the math to determine.
         # For now, simply return a circular orbit with the correct parameters.
@@ -966,10 +970,12 @@ class KeplerianOrbit(CircularOrbit):
             KeplerianOrbit: the derived orbit
         """
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+            np.mod(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360), 360
+            ),
             eccentricity=self.eccentricity,
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360)
         return KeplerianOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1084,10 +1090,12 @@ class MolniyaOrbit(OrbitBase):
             Molniya Orbit: the derived orbit
         """
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+            np.mod(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360), 360
+            ),
             eccentricity=self.get_eccentricity(),
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360)
         return MolniyaOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1169,10 +1177,12 @@ class TundraOrbit(MolniyaOrbit):
             Tundra Orbit: the derived orbit
         """
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+            np.mod(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360), 360
+            ),
             eccentricity=self.get_eccentricity(),
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360)
         return TundraOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
-- 
2.43.0


From 6d3d7b03d90eb5404b0202ddd75bb2e734dd90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:32 +0000
Subject: [PATCH 19/49] fix: use the orbital period of Molniya and Tundra
 orbits

---
 src/tatc/schemas/orbit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 3174c87..5c0fa62 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1052,6 +1052,15 @@ class MolniyaOrbit(OrbitBase):
             / (4 * (np.pi**2))
         )
 
+    def get_orbit_period(self) -> timedelta:
+        """
+        Gets the orbit period.
+
+        Returns:
+            timedelta: the orbit period
+        """
+        return timedelta(seconds=self.orbital_period)
+
     def get_eccentricity(self) -> float:
         """
         Gets the eccentricity (float between 0 and 1).
-- 
2.43.0


From 74f49e945f4674535a0e1677598dec90745c3900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:38 +0000
Subject: [PATCH 20/49] fix: space instrument pixels over the whole field of
 view

---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 073633e..6b5bb05 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -324,8 +324,8 @@ class PointedInstrument(Instrument):
 
         return compute_projected_ray_position(
             orbit_track=orbit_track,
-            cross_track_field_of_view=cone,
-            along_track_field_of_view=cone,
+            cross_track_field_of_view=2 * cone,
+            along_track_field_of_view=2 * cone,
             roll_angle=self.roll_angle,
             pitch_angle=self.pitch_angle,
             is_rectangular=False,
-- 
2.43.0


From 25678af791f44ce177d9bb22c0e7cf06b05ac031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 21/49] fix: place every corner of a rectangular footprint on
 the field of view

---
 src/tatc/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 91b2987..1754d1c 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -400,12 +400,12 @@ def compute_projected_ray_position(
         n = np.cross(v, b)
     # construct projected ray
     if is_rectangular:
-        # find orientation of rectangle corner
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
         # along track half width
         tan_a_2 = np.tan(np.radians(along_track_field_of_view / 2))
         # cross track half width
         tan_c_2 = np.tan(np.radians(cross_track_field_of_view / 2))
+        # find orientation of rectangle corner
+        theta = np.arctan(tan_a_2 / tan_c_2)
         # compose the ray with different equations for each side
         ray = (
             b
@@ -564,7 +564,10 @@ def compute_footprint(
         else:
             number_points = config.rc.footprint_points_elliptical
     if is_rectangular:
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
+        theta = np.arctan(
+            np.tan(np.radians(along_track_field_of_view / 2))
+            / np.tan(np.radians(cross_track_field_of_view / 2))
+        )
         angles = np.concatenate(
             (
                 np.linspace(-theta, theta, number_points, endpoint=False),
-- 
2.43.0


From 6a18d4f2b286a8bf378f9be55d37ac7d89e43be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:05 +0000
Subject: [PATCH 22/49] fix: treat fields of regard above 180 degrees as
 reaching the horizon

---
 src/tatc/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 1754d1c..b7b9e72 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -188,7 +188,7 @@ def field_of_regard_to_swath_width(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = min(sin_rho, np.sin(np.radians(field_of_regard) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(min(field_of_regard, 180)) / 2))
     # epsilon is the min satellite elevation for obs (grazing angle)
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle
@@ -238,7 +238,7 @@ def compute_min_elevation_angle(
         float: The minimum elevation angle (degrees) for observation.
     """
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = np.sin(np.radians(field_of_regard) / 2)
+    sin_eta = np.sin(np.radians(min(field_of_regard, 180)) / 2)
     # rho is the angular radius of the earth viewed by the satellite
     sin_rho = (constants.EARTH_MEAN_RADIUS + elevation) / (
         constants.EARTH_MEAN_RADIUS + altitude
-- 
2.43.0


From 440a9895d0c42b4859ca4c4af6eed309314121bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:02 +0000
Subject: [PATCH 23/49] fix: use the whole look angle when converting swath
 width to field of view

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b7b9e72..9f39e03 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -151,7 +151,7 @@ def swath_width_to_field_of_view(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius from sub-satellite point to center of view
-    sin_eta = min(sin_rho, np.sin(np.radians(look_angle) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(look_angle)))
     # epsilon is the satellite elevation from the center of view
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle to the center of view
-- 
2.43.0


From 63c4481a2379151db102c80738f338ca8cc20656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 24/49] fix: convert between mean and true anomaly exactly for
 eccentric orbits

---
 src/tatc/utils.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 9f39e03..28d19e9 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -46,11 +46,19 @@ def mean_anomaly_to_true_anomaly(mean_anomaly: float, eccentricity: float = 0) -
         float: The true anomaly (degrees).
     """
     mean_anomaly_rad = np.radians(mean_anomaly)
-    true_anomaly_rad = (
-        mean_anomaly_rad
-        + (2 * eccentricity - (1 / 4) * eccentricity**3) * np.sin(mean_anomaly_rad)
-        + (5 / 4) * eccentricity**2 * np.sin(2 * mean_anomaly_rad)
-        + (13 / 12) * eccentricity**3 * np.sin(3 * mean_anomaly_rad)
+    # solve Kepler's equation for the eccentric anomaly
+    offset = np.mod(mean_anomaly_rad + np.pi, 2 * np.pi) - np.pi
+    eccentric_offset = offset + 0.85 * eccentricity * np.sign(offset)
+    for _ in range(50):
+        delta = (
+            eccentric_offset - eccentricity * np.sin(eccentric_offset) - offset
+        ) / (1 - eccentricity * np.cos(eccentric_offset))
+        eccentric_offset -= delta
+        if np.abs(delta) < 1e-14:
+            break
+    beta = eccentricity / (1 + np.sqrt(1 - eccentricity**2))
+    true_anomaly_rad = (mean_anomaly_rad - offset + eccentric_offset) + 2 * np.arctan2(
+        beta * np.sin(eccentric_offset), 1 - beta * np.cos(eccentric_offset)
     )
     return np.degrees(true_anomaly_rad)
 
@@ -68,13 +76,12 @@ def true_anomaly_to_mean_anomaly(true_anomaly: float, eccentricity: float = 0) -
         float: The mean anomaly (degrees).
     """
     true_anomaly_rad = np.radians(true_anomaly)
-    mean_anomaly_rad = (
-        true_anomaly_rad
-        - 2 * eccentricity * np.sin(true_anomaly_rad)
-        + ((3 / 4) * eccentricity**2 + (1 / 8) * eccentricity**4)
-        * np.sin(2 * true_anomaly_rad)
-        - (1 / 3) * eccentricity**3 * np.sin(3 * true_anomaly_rad)
-        + (5 / 32) * eccentricity**4 * np.sin(4 * true_anomaly_rad)
+    beta = eccentricity / (1 + np.sqrt(1 - eccentricity**2))
+    eccentric_anomaly_rad = true_anomaly_rad - 2 * np.arctan2(
+        beta * np.sin(true_anomaly_rad), 1 + beta * np.cos(true_anomaly_rad)
+    )
+    mean_anomaly_rad = eccentric_anomaly_rad - eccentricity * np.sin(
+        eccentric_anomaly_rad
     )
     return np.degrees(mean_anomaly_rad)
 
-- 
2.43.0


From 9e141035fd7f8b8f48f24ff1d92af2d8f9331c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:05 +0000
Subject: [PATCH 25/49] fix: return no events when a multiple TLE orbit has
 none in the window

---
 src/tatc/schemas/orbit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 5c0fa62..5206523 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -654,10 +654,8 @@ class TwoLineElements(BaseModel):
                 for i in range(len(part_ts) - 1)
             ]
             return (
-                constants.timescale.from_datetimes(
-                    [t.utc_datetime() for e in events for t in e[0]]
-                ),
-                np.array([v for e in events for v in e[1]]),
+                constants.timescale.tt_jd(np.concatenate([e[0].tt for e in events])),
+                np.concatenate([e[1] for e in events]),
             )
         # create skyfield Time
         t_0 = constants.timescale.from_datetime(start)
-- 
2.43.0


From d1f74400af33ec429fd61ea4e0598b908f3bd327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:44 +0000
Subject: [PATCH 26/49] fix: interpolate polar footprint latitude across the
 antimeridian

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 28d19e9..82c6bcf 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1089,7 +1089,7 @@ def _split_polygon_antimeridian(
             n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
             # interpolate latitude at antimeridian
             lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 180], [coords[-1][1], coords[0][1]]
+                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
             )
             # reconstruct polygon (ccw) with added coords on antimeridian
             # TODO potential problem if provided polygon has z-dimension
-- 
2.43.0


From dc42d569d2eb94fdf85cb546e6a795ccba800fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:10 +0000
Subject: [PATCH 27/49] fix: keep masked orbit track records in every
 coordinate system and in time order

---
 src/tatc/analysis/track.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 6cb1a64..8fb1b4a 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -233,8 +233,6 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
-        track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
 
-- 
2.43.0


From 50835eb101640d1d04ca7da57f9e9a584df83be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:47 +0000
Subject: [PATCH 28/49] fix: footprint of a field of regard beyond 180 degrees
 reaches the limb

---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 6b5bb05..dfd52e9 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -101,8 +101,8 @@ class Instrument(BaseModel):
         """
         return compute_footprint(
             orbit_track=orbit_track,
-            cross_track_field_of_view=self.field_of_regard,
-            along_track_field_of_view=self.field_of_regard,
+            cross_track_field_of_view=min(self.field_of_regard, 180),
+            along_track_field_of_view=min(self.field_of_regard, 180),
             roll_angle=0,
             pitch_angle=0,
             is_rectangular=False,
-- 
2.43.0


From 355fa2c77a56e944a78d9a9ed206681adb105067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:51 +0000
Subject: [PATCH 29/49] fix: cull masked ground tracks with a buffer that
 reaches every footprint

---
 src/tatc/analysis/track.py |  8 ++++----
 src/tatc/utils.py          | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 8fb1b4a..33a766c 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -343,10 +343,10 @@ def collect_ground_track(
                     else gpd.GeoDataFrame(geometry=mask).dissolve().iloc[0].geometry
                 )
             ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
+            altitude=np.max(ssp.elevation.m),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+            time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
         )
         # cull orbit track with buffered mask
         buffered_mask_contains_ssp = [
@@ -679,10 +679,10 @@ def collect_ground_pixels(
                     else gpd.GeoDataFrame(geometry=mask).dissolve().iloc[0].geometry
                 )
             ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
+            altitude=np.max(ssp.elevation.m),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+            time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
         )
         # cull orbit track with buffered mask
         buffered_mask_contains_ssp = [
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 82c6bcf..2922581 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -20,6 +20,7 @@ from shapely.geometry import (
     MultiPolygon,
     GeometryCollection,
     LineString,
+    box,
 )
 from shapely.ops import split, transform
 from skyfield.api import wgs84
@@ -750,6 +751,16 @@ def buffer_target(
     swath_width = field_of_regard_to_swath_width(altitude, field_of_regard)
     ground_distance = compute_ground_velocity(altitude, inclination) * time_step
     distance = (ground_distance + swath_width / 2) * distance_scaling
+    # bound the latitudes within this distance of the target
+    margin = np.degrees(distance / constants.EARTH_POLAR_RADIUS)
+    west, south, east, north = geometry.bounds
+    max_latitude = max(abs(south - margin), abs(north + margin))
+    # equal distances span more longitude away from the equator
+    scaling = 1 / np.cos(np.radians(min(max_latitude, 89)))
+    if max_latitude > 89 or east - west + 2 * margin * scaling > 180:
+        # buffer reaches over a pole or most longitudes
+        return box(-180, max(south - margin, -90), 180, min(north + margin, 90))
+    distance *= scaling
     return split_polygon(
         transform(
             from_crs.transform, transform(to_crs.transform, geometry).buffer(distance)
-- 
2.43.0


From 24871f4753203ac4c7800bfe48d27a3b461d8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:48 +0000
Subject: [PATCH 30/49] fix: compute the footprint of an orbit track with one
 sample

---
 src/tatc/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 2922581..0446990 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -621,7 +621,13 @@ def compute_footprint(
     return project_polygon_to_elevation(
         split_polygon(
             Polygon(
-                [(point.longitude.degrees, point.latitude.degrees) for point in points]
+                [
+                    (
+                        np.ravel(point.longitude.degrees)[0],
+                        np.ravel(point.latitude.degrees)[0],
+                    )
+                    for point in points
+                ]
             )
         ),
         elevation,
-- 
2.43.0


From 48ba7595f1a545c8ee376494bf1a15b74a1099f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 31/49] fix: dilution of precision at the elevation of the user
 point

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7d274d2..e83b62f 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -68,7 +68,7 @@ def compute_dop(
     sk_times = timescale.from_datetimes(times)
 
     # construct skyfield geodetic position for user
-    sk_position = wgs84.latlon(point.latitude, point.longitude)
+    sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
     altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
-- 
2.43.0


From e6dbe9a63b330c49807518ce969cfdf00e6de219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 32/49] fix: dilution of precision from the element set closest
 to each time

---
 src/tatc/analysis/dop.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index e83b62f..f0a04c1 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,16 +54,6 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
-    ]
-
     # construct skyfield times for each datetime
     sk_times = timescale.from_datetimes(times)
 
@@ -71,7 +61,14 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    sk_positions = sk_position.at(sk_times)
+    altazs = [
+        (
+            satellite.orbit.to_tle().get_orbit_track(times, try_repeat=False)
+            - sk_positions
+        ).altaz()
+        for satellite in satellites
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From 6fe4da8c95d2ae696acb6bac8712f5832b583bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 33/49] fix: dilution of precision without satellites is
 missing

---
 src/tatc/analysis/dop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index f0a04c1..cedd005 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -69,9 +69,10 @@ def compute_dop(
         ).altaz()
         for satellite in satellites
     ]
-    el = np.array(list(map(lambda i: i[0].radians, altazs)))
-    az = np.array(list(map(lambda i: i[1].radians, altazs)))
-    r = np.array(list(map(lambda i: i[2].m, altazs)))
+    shape = (len(satellites), len(times))
+    el = np.array(list(map(lambda i: i[0].radians, altazs))).reshape(shape)
+    az = np.array(list(map(lambda i: i[1].radians, altazs))).reshape(shape)
+    r = np.array(list(map(lambda i: i[2].m, altazs))).reshape(shape)
 
     # compute number of visible satellites
     n = np.sum(el >= np.deg2rad(min_elevation), axis=0)
-- 
2.43.0


From efdd3fa31647e82f398174a06f37bef79ec2ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 34/49] fix: dilution of precision of a singular geometry is
 missing

---
 src/tatc/analysis/dop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index cedd005..c06197e 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -100,6 +100,8 @@ def compute_dop(
         )
         # calculate the pseudoinverse of H
         try:
+            if np.linalg.matrix_rank(H) < 4:
+                raise np.linalg.LinAlgError("Singular matrix")
             H_inv = np.linalg.solve(H.T @ H, np.eye(4))
         except np.linalg.LinAlgError:
             # If the H matrix nearly singular, linalg will not be able to solve, return NaN and a warning
-- 
2.43.0


From 817b1c2e64a1967335427acc463fabcfee489bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 35/49] fix: azimuth of radio occultations from the element set
 of their time

---
 src/tatc/analysis/ro_coverage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..16e29ac 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -152,8 +152,7 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
+                (tx_pv[j] - tpp_geo.at(timescale.from_datetime(times[j])))
                 .altaz()[1]
                 .degrees
             )
-- 
2.43.0


From f19b1f0dfbe1b6e10dd1c33797d66946ecf0cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:03 +0000
Subject: [PATCH 36/49] fix: unreadable configuration files raise the
 configuration error

---
 src/tatc/config.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 8b35cf3..4b906e8 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml import YAMLError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -72,11 +71,11 @@ def load_yaml_config(path: pathlib.Path):
     """
     if not os.path.exists(path):
         raise ConfigError("Couldn't load config file (not found)")
-    with open(path, "r", encoding="utf-8") as f:
-        try:
+    try:
+        with open(path, "r", encoding="utf-8") as f:
             config = yaml.safe_load(f)
-        except (YAMLError, ValueError) as err:
-            raise ConfigError(f"Couldn't parse config file - {err}") from err
+    except Exception as err:  # the YAML constructors raise more than YAMLError
+        raise ConfigError(f"Couldn't parse config file - {err}") from err
     if not isinstance(config, dict):
         raise ConfigError("Couldn't parse config file - not a mapping of settings")
     try:
-- 
2.43.0


From b7d00e9534f3948b6827ad5102c329c72e95c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:41 +0000
Subject: [PATCH 37/49] fix: compare multi-TLE orbits after use without an
 ambiguous array

---
 src/tatc/schemas/orbit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 5206523..91ba549 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -408,9 +408,7 @@ class TwoLineElements(BaseModel):
         tle_epochs = self.__dict__.get("tle_epochs")
         if tle_epochs is None:
             # extract the orbit epoch time
-            tle_epochs = np.array(
-                [self.get_epoch(i) for i in range(self.get_tle_count())]
-            )
+            tle_epochs = [self.get_epoch(i) for i in range(self.get_tle_count())]
             self.__dict__["tle_epochs"] = tle_epochs
         # handle scalar
         if isinstance(at_times, datetime):
-- 
2.43.0


From cf22838d914251d8cc90b631153a2d743febdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:50 +0000
Subject: [PATCH 38/49] fix: keep revisits and latencies durations when all are
 missing

---
 src/tatc/analysis/coverage.py | 8 ++------
 src/tatc/analysis/latency.py  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 16cd291..7bbc8f8 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -414,9 +414,7 @@ def reduce_observations(aggregated_observations: gpd.GeoDataFrame) -> gpd.GeoDat
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
 
 
@@ -457,7 +455,5 @@ def grid_observations(
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index ebc2072..2753ccc 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -245,9 +245,7 @@ def reduce_latencies(latency_observations: gpd.GeoDataFrame) -> gpd.GeoDataFrame
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
 
 
@@ -284,7 +282,5 @@ def grid_latencies(
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From ee1b5767a5dd6cb2e340b2cd925e0a86fe5390f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:57 +0000
Subject: [PATCH 39/49] fix: match each rise with its set whatever the length
 of the pass

---
 src/tatc/analysis/coverage.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 7bbc8f8..f055a3e 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -20,7 +20,6 @@ from ..schemas.satellite import Satellite
 
 from ..utils import (
     compute_min_elevation_angle,
-    compute_max_access_time,
     compute_footprint,
 )
 from ..constants import de421, timescale
@@ -48,14 +47,6 @@ def _get_visible_interval_series(
     """
     # define starting and ending points
     t_0 = timescale.from_datetime(start)
-    # build skyfield objects
-    sat = satellite.orbit.to_tle().as_skyfield()
-    # compute the initial satellite altitude
-    satellite_altitude = wgs84.geographic_position_of(sat.at(t_0)).elevation.m
-    # compute the maximum access time to filter bad data
-    max_access_time = timedelta(
-        seconds=compute_max_access_time(satellite_altitude, min_elevation_angle)
-    )
     # find the set of observation events
     times, events = satellite.orbit.to_tle().get_observation_events(
         point, start, end, min_elevation_angle
@@ -99,25 +90,20 @@ def _get_visible_interval_series(
                 )
             ]
         # create an observation period to match with each rise event if
-        # there is a following set event within twice the maximum access time
+        # there is a following set event before the next rise event
         obs_periods += [
             pd.Interval(
                 left=pd.Timestamp(rise.utc_datetime()),
                 right=pd.Timestamp(
-                    sets[
-                        np.logical_and(
-                            rise.utc_datetime() < sets.utc_datetime(),
-                            sets.utc_datetime()
-                            < rise.utc_datetime() + 2 * max_access_time,
-                        )
-                    ][0].utc_datetime()
+                    sets[rise.utc_datetime() < sets.utc_datetime()][0].utc_datetime()
                 ),
             )
-            for rise in rises
+            for i, rise in enumerate(rises)
             if np.any(
                 np.logical_and(
                     rise.utc_datetime() < sets.utc_datetime(),
-                    sets.utc_datetime() < rise.utc_datetime() + 2 * max_access_time,
+                    i + 1 == len(rises)
+                    or sets.utc_datetime() < rises[i + 1].utc_datetime(),
                 )
             )
         ]
-- 
2.43.0


From cd39ee11bdc774ac913cdc83a8c841f11e56bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:10 +0000
Subject: [PATCH 40/49] fix: keep Fibonacci points west of zero longitude in
 masks that continue beyond 180 degrees

---
 src/tatc/generation/points.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index fa4d4e1..f8eb106 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -111,7 +111,7 @@ def generate_fibonacci_lattice_points(
                 <= (
                     _compute_fibonacci_lattice_point_longitude(i) + 360
                     if max_longitude > 180
-                    and _compute_fibonacci_lattice_point_longitude(i) < 0
+                    and _compute_fibonacci_lattice_point_longitude(i) < min_longitude
                     else _compute_fibonacci_lattice_point_longitude(i)
                 )
                 <= max_longitude
@@ -127,7 +127,8 @@ def generate_fibonacci_lattice_points(
                         _compute_fibonacci_lattice_point_longitude(i) + 360
                         if mask is not None
                         and max_longitude > 180
-                        and _compute_fibonacci_lattice_point_longitude(i) < 0
+                        and _compute_fibonacci_lattice_point_longitude(i)
+                        < min_longitude
                         else _compute_fibonacci_lattice_point_longitude(i)
                     ),
                     _compute_fibonacci_lattice_point_latitude(i, samples),
-- 
2.43.0


From b81a43f2338fa8b42f5fba317d759fbc526535ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 41/49] fix: compute latencies of tables with different time
 resolutions

---
 src/tatc/analysis/latency.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 2753ccc..b7b6e9c 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -137,9 +137,10 @@ def compute_latencies(
         return _get_empty_latency_frame()
 
     # merge observations with downlinks to find matching satellite downlinks
+    # (merge keys must have the same resolution)
     obs = pd.merge_asof(
-        observations.sort_values(by="end"),
-        downlinks.sort_values(by="start"),
+        observations.astype({"end": "datetime64[ns, UTC]"}).sort_values(by="end"),
+        downlinks.astype({"start": "datetime64[ns, UTC]"}).sort_values(by="start"),
         by="satellite",
         left_on="end",
         right_on="start",
-- 
2.43.0


From c1c6bff6b9f3acf268b67168907e2c9b18a8b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:40 +0000
Subject: [PATCH 42/49] fix: line ground tracks spanning more than a half turn
 are buffered in parts

---
 src/tatc/analysis/track.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 33a766c..12f3bc4 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -552,12 +552,8 @@ def compute_ground_track(
             lon = sub_track.geometry.apply(lambda p: p.x)
             # extract average swath width
             swath_widths.append(sub_track.swath_width.mean())
-            # no anti-meridian crossings if all absolute longitude differences
-            # are less than 180 deg
             if len(points) == 1:
                 segments.append([points.iloc[0]])
-            elif np.all(np.abs(np.diff(lon)) < 180):
-                segments.append([LineString(points)])
             else:
                 # find anti-meridian crossings and calculate shift direction
                 # coords from W -> E (shift < 0) will add 360 degrees to E component
@@ -566,11 +562,12 @@ def compute_ground_track(
                 points = [
                     Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
                 ]
-                # split along every crossing of the anti-meridian
+                # split along every crossing of the prime meridian or anti-meridian
+                # (the buffer of each part must span less than 360 degrees longitude)
                 collection = split(
                     LineString(points),
                     MultiLineString(
-                        [[(x, -180), (x, 180)] for x in (-540, -180, 180, 540)]
+                        [[(x, -180), (x, 180)] for x in range(-540, 541, 180)]
                     ),
                 )
                 # map longitudes of each part to [-180, 180]
-- 
2.43.0


From 0de7695bb7c5985e973b5d910bb484114f98ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 43/49] fix: empty observation, aggregate and latency tables
 have all their columns

---
 src/tatc/analysis/coverage.py | 4 ++++
 src/tatc/analysis/latency.py  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index f055a3e..f7356e6 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -287,6 +287,8 @@ def collect_multi_observations(
         for satellite in (constellation.generate_members())
         for instrument_index in range(len(satellite.instruments))
     ]
+    if len(gdfs) == 0:
+        return _get_empty_coverage_frame(omit_solar)
     # concatenate into one data frame, sort by start time, and re-index
     return pd.concat(gdfs).sort_values("start").reset_index(drop=True)
 
@@ -306,6 +308,8 @@ def _get_empty_aggregate_frame() -> gpd.GeoDataFrame:
         "start": pd.Series([], dtype="datetime64[ns, utc]"),
         "epoch": pd.Series([], dtype="datetime64[ns, utc]"),
         "end": pd.Series([], dtype="datetime64[ns, utc]"),
+        "access": pd.Series([], dtype="timedelta64[ns]"),
+        "revisit": pd.Series([], dtype="timedelta64[ns]"),
     }
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index b7b6e9c..29d0103 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -101,6 +101,8 @@ def _get_empty_latency_frame() -> gpd.GeoDataFrame:
         "geometry": pd.Series([], dtype="object"),
         "satellite": pd.Series([], dtype="str"),
         "instrument": pd.Series([], dtype="str"),
+        "sat_alt": pd.Series([], dtype="float"),
+        "sat_az": pd.Series([], dtype="float"),
         "observed": pd.Series([], dtype="datetime64[ns, utc]"),
         "station": pd.Series([], dtype="str"),
         "downlinked": pd.Series([], dtype="datetime64[ns, utc]"),
-- 
2.43.0


From 6803e9f010e5ae94d109c037fcbc2d5403b2a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 44/49] fix: empty tracks have the optional columns asked for

---
 src/tatc/analysis/track.py | 56 +++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 12f3bc4..b3687bb 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -37,10 +37,21 @@ from ..utils import (
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
 
 
-def _get_empty_orbit_track() -> gpd.GeoDataFrame:
+def _get_empty_orbit_track(
+    velocity: bool = False,
+    sat_sunlit: bool = False,
+    solar_altaz: bool = False,
+    solar_beta: bool = False,
+) -> gpd.GeoDataFrame:
     """
     Gets an empty data frame for orbit track results.
 
+    Args:
+        velocity (bool): `True` to include satellite velocity.
+        sat_sunlit (bool): `True` to include whether the satellite is sunlit.
+        solar_altaz (bool): `True` to include solar altitude/azimuth angles.
+        solar_beta (bool): `True` to include solar beta angles.
+
     Returns:
         geopandas.GeoDataFrame: Empty data frame.
     """
@@ -52,6 +63,15 @@ def _get_empty_orbit_track() -> gpd.GeoDataFrame:
         "valid_obs": pd.Series([], dtype="bool"),
         "geometry": pd.Series([], dtype="object"),
     }
+    if velocity:
+        columns["velocity"] = pd.Series([], dtype="object")
+    if sat_sunlit:
+        columns["sat_sunlit"] = pd.Series([], dtype="bool")
+    if solar_altaz:
+        columns["solar_alt"] = pd.Series([], dtype="float")
+        columns["solar_az"] = pd.Series([], dtype="float")
+    if solar_beta:
+        columns["solar_beta"] = pd.Series([], dtype="float")
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
 
@@ -114,7 +134,9 @@ def collect_orbit_track(
         geopandas.GeoDataFrame: The data frame of collected orbit track results.
     """
     if len(times) == 0:
-        return _get_empty_orbit_track()
+        return _get_empty_orbit_track(
+            orbit_output != OrbitOutput.POSITION, sat_sunlit, solar_altaz, solar_beta
+        )
     # select the observing instrument
     instrument = satellite.instruments[instrument_index]
     # propagate orbit
@@ -133,7 +155,9 @@ def collect_orbit_track(
             )
         ]
         if not any(mask_contains_ssp):
-            return _get_empty_orbit_track()
+            return _get_empty_orbit_track(
+                orbit_output != OrbitOutput.POSITION, sat_sunlit, solar_altaz, solar_beta
+            )
         orbit_track = orbit_track[mask_contains_ssp]
         # recompute ssp
         ssp = wgs84.geographic_position_of(orbit_track)
@@ -236,10 +260,16 @@ def collect_orbit_track(
     return track
 
 
-def _get_empty_ground_track() -> gpd.GeoDataFrame:
+def _get_empty_ground_track(
+    sat_altaz: bool = False, solar_altaz: bool = False
+) -> gpd.GeoDataFrame:
     """
     Gets an empty data frame for ground track results.
 
+    Args:
+        sat_altaz (bool): `True` to include satellite altitude/azimuth angles.
+        solar_altaz (bool): `True` to include solar altitude/azimuth angles.
+
     Returns:
         geopandas.GeoDataFrame: Empty data frame.
     """
@@ -250,6 +280,12 @@ def _get_empty_ground_track() -> gpd.GeoDataFrame:
         "valid_obs": pd.Series([], dtype="bool"),
         "geometry": pd.Series([], dtype="object"),
     }
+    if sat_altaz:
+        columns["sat_alt"] = pd.Series([], dtype="float")
+        columns["sat_az"] = pd.Series([], dtype="float")
+    if solar_altaz:
+        columns["solar_alt"] = pd.Series([], dtype="float")
+        columns["solar_az"] = pd.Series([], dtype="float")
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
 
@@ -326,7 +362,7 @@ def collect_ground_track(
     """
 
     if len(times) == 0:
-        return _get_empty_ground_track()
+        return _get_empty_ground_track(sat_altaz, solar_altaz)
     # propagate orbit
     orbit_track = satellite.orbit.to_tle().get_orbit_track(times)
     # select the observing instrument
@@ -360,7 +396,7 @@ def collect_ground_track(
             )
         ]
         if not any(buffered_mask_contains_ssp):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[buffered_mask_contains_ssp]
         # compute footprint for culling
         footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
@@ -374,7 +410,7 @@ def collect_ground_track(
             for f in (footprint if isinstance(footprint, list) else [footprint])
         ]
         if not any(mask_intersects_footprint):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[mask_intersects_footprint]
     # compute targets
     target = instrument.compute_footprint_center(orbit_track, elevation)
@@ -655,7 +691,7 @@ def collect_ground_pixels(
     """
 
     if len(times) == 0:
-        return _get_empty_ground_track()
+        return _get_empty_ground_track(sat_altaz, solar_altaz)
     # propagate orbit
     orbit_track = satellite.orbit.to_tle().get_orbit_track(times)
     # select the observing instrument
@@ -693,7 +729,7 @@ def collect_ground_pixels(
             )
         ]
         if not any(buffered_mask_contains_ssp):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[buffered_mask_contains_ssp]
         # compute footprint for culling
         footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
@@ -707,7 +743,7 @@ def collect_ground_pixels(
             for f in (footprint if isinstance(footprint, list) else [footprint])
         ]
         if not any(mask_intersects_footprint):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[mask_intersects_footprint]
     # compute the footprint pixel array
     geometries = instrument.compute_footprint_pixel_array(
-- 
2.43.0


From bf204a2553ac47fbbdeeed3604234b64721fd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 45/49] fix: occultations and dilution of precision without
 times give empty tables

---
 src/tatc/analysis/dop.py         | 9 +++++++++
 src/tatc/analysis/ro_coverage.py | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index c06197e..270468c 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -54,6 +54,15 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
+    if len(times) == 0:
+        return gpd.GeoDataFrame(
+            {
+                "dop": pd.Series([], dtype="float"),
+                "geometry": pd.Series([], dtype="object"),
+            },
+            index=pd.DatetimeIndex([], tz="UTC"),
+            crs="EPSG:4326",
+        )
     # construct skyfield times for each datetime
     sk_times = timescale.from_datetimes(times)
 
diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index 16e29ac..2691caa 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -219,6 +219,8 @@ def collect_ro_observations(
         max_yaw (float): the maximum transmitter yaw angle (from receiver body-fixed frame) for a valid obsevation.
         range_elevation: (typing.Tuple[float]): the lower and upper bound on tangent point elevation (m) for a valid observation.
     """
+    if len(times) == 0:
+        return _get_empty_ro_frame()
     # receiver position, velocity
     rx_pv = receiver.orbit.to_tle().get_orbit_track(times)
     # unit vector tangent to receiver orbit plane (VNB x-axis)
-- 
2.43.0


From a1a495f641ed3e03075c7871932175d2318eebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 46/49] fix: observation periods across a change of the clocks

---
 src/tatc/analysis/coverage.py | 3 +++
 src/tatc/schemas/orbit.py     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index f7356e6..e51eb91 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -63,6 +63,9 @@ def _get_visible_interval_series(
         >= min_elevation_angle
     )
 
+    # use universal time because other zones may change during the period
+    start, end = start.astimezone(timezone.utc), end.astimezone(timezone.utc)
+
     # build the observation periods
     obs_periods = []
     if start < end and (always_visible or (len(events) > 0 and np.all(events == 1))):
diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 91ba549..082a224 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -660,6 +660,8 @@ class TwoLineElements(BaseModel):
         if try_repeat:
             # try to compute repeat cycle events
             repeat_cycle = self.get_repeat_cycle()
+            # use universal time because other zones may change during the period
+            start, end = start.astimezone(timezone.utc), end.astimezone(timezone.utc)
             if repeat_cycle is not None and repeat_cycle < end - start:
                 repeat_t_1 = constants.timescale.from_datetime(start + repeat_cycle)
                 times, events = self.as_skyfield().find_events(
-- 
2.43.0


From 8cf20689e676fe4462348ea468e535edfdb26c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 47/49] fix: occultations report universal times

---
 src/tatc/analysis/ro_coverage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index 2691caa..0f3e576 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -6,7 +6,7 @@ Methods to perform radio occultation (RO) coverage analysis.
 """
 
 from typing import List, Tuple, Union
-from datetime import datetime
+from datetime import datetime, timezone
 from itertools import chain
 
 import geopandas as gpd
@@ -223,6 +223,8 @@ def collect_ro_observations(
         return _get_empty_ro_frame()
     # receiver position, velocity
     rx_pv = receiver.orbit.to_tle().get_orbit_track(times)
+    # report universal times
+    times = [time.astimezone(timezone.utc) for time in times]
     # unit vector tangent to receiver orbit plane (VNB x-axis)
     rx_v_u = np.divide(
         rx_pv.velocity.m_per_s, np.linalg.norm(rx_pv.velocity.m_per_s, axis=0)
-- 
2.43.0


From 48f7b7017c8356ce4986f7f9a58c53cd8528d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 48/49] fix: keep the overlap of parts of a polygon folded over
 a pole

---
 src/tatc/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 0446990..bfed22a 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -22,7 +22,7 @@ from shapely.geometry import (
     LineString,
     box,
 )
-from shapely.ops import split, transform
+from shapely.ops import split, transform, unary_union
 from skyfield.api import wgs84
 from skyfield.framelib import itrs
 from skyfield.toposlib import GeographicPosition
@@ -1184,8 +1184,10 @@ def split_polygon(
     )
     # invalid polygons can arise from narrow sensor geometries in polar regions
     if not polygon.is_valid:
-        # try to fix geometry
-        polygon = make_valid(polygon)
+        # try to fix geometry (part by part, because parts may overlap)
+        polygon = unary_union(
+            [make_valid(p) for p in getattr(polygon, "geoms", [polygon])]
+        )
         if isinstance(polygon, GeometryCollection):
             polygon = _convert_collection_to_polygon(polygon)
     return polygon
-- 
2.43.0


From 6b5a8544a032bfde56a02504c74481cb0416b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 49/49] fix: no events in a repeat cycle are an empty series of
 times

---
 src/tatc/schemas/orbit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 082a224..57e9377 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -16,7 +16,7 @@ from sgp4.alpha5 import from_alpha5
 from sgp4.api import Satrec, WGS72
 from sgp4 import exporter
 from sgp4.conveniences import sat_epoch_datetime
-from skyfield.api import EarthSatellite, Time, wgs84
+from skyfield.api import EarthSatellite, wgs84
 from skyfield.positionlib import Geocentric
 from skyfield.framelib import itrs
 from typing_extensions import Annotated, Literal
@@ -669,7 +669,7 @@ class TwoLineElements(BaseModel):
                 )
                 number_cycles = int(np.ceil((end - start) / repeat_cycle))
                 if len(times) == 0:
-                    return (Time([], []), np.array([], dtype=int))
+                    return times, events
                 times_py = np.concatenate(
                     [
                         times.utc_datetime() + i * repeat_cycle
@@ -677,8 +677,6 @@ class TwoLineElements(BaseModel):
                     ]
                 )
                 events_py = np.concatenate([events for _ in range(number_cycles)])
-                if len(times_py) == 0:
-                    return Time([], []), np.array([], dtype=int)
                 return (
                     constants.timescale.from_datetimes(times_py[times_py <= end]),
                     events_py[times_py <= end],
-- 
2.43.0

