"""C29: histories of calls over shared objects."""
import copy
import gc
import hashlib
import inspect
import json
import math
import os
import pickle
import random
import struct
import sys
from datetime import date, datetime, time, timedelta
from enum import Enum

import geopandas as gpd
import numpy as np
import pandas as pd
from pydantic import BaseModel
from pyproj import Transformer
from shapely import wkb
from shapely.geometry import MultiPolygon, Point as Pt, Polygon, box
from shapely.geometry.base import BaseGeometry

from framework import guarded
from masks import random_parts, shape as mask_shape
from orbits import BASE, TS, ecef, random_orbit, sat_of, tle_lines, period_s, with_repeat
from tables import obs_frame
from tracks import geodetic
from tatc import config, utils
from tatc.analysis import *  # noqa: F401,F403
from tatc.analysis.track import OrbitCoordinate, OrbitOutput
from tatc.generation import *  # noqa: F401,F403
from tatc.schemas import (Architecture, CircularOrbit, GroundStation, Instrument, MOGConstellation, MolniyaOrbit, Point, PointedInstrument, Satellite,
                          SOCConstellation, TrainConstellation, TundraOrbit, TwoLineElements, WalkerConstellation)
import tatc.analysis as A
import tatc.generation as G
import C05
import C07

MC = [("MC_C29", "MC_C29", "MC_C29_thorough")]
TRACE = "TR_C29"
RULE = ("TLC checks that in every history of plain calls, lazily loading calls, spoilt results and configuration changes over shared "
        "objects each call returns what it denotes on the unchanged objects; the words are replayed as calls of the public analyses, "
        "generators and conversions over a world of shared satellites, constellations, points, masks and tables, next to long random "
        "histories, each call compared with the same call in a new process on newly built objects.")
ASSUMPTIONS = ["results are compared to a relative 1e-7 (floating point only)",
               "the documented lazy loading is left alone: fields are not reassigned and the search settings of repeat cycles not changed "
               "after a repeat cycle or element set was loaded, and the loaded element set itself is not spoilt",
               "a satellite that is no constellation hands out itself as its only member"]


# ---------------------------------------------------------------- digests
def flat(v, out, depth=0):
    """A canonical list of tokens of a value (floats kept as floats)."""
    if depth > 12:
        out.append("deep")
    elif v is None or isinstance(v, (bool, str, bytes)):
        out.append(v)
    elif isinstance(v, Enum):
        out.append(str(v.value))
    elif isinstance(v, (int, np.integer)):
        out.append(int(v))
    elif isinstance(v, (float, np.floating)):
        out.append(float(v))
    elif isinstance(v, np.bool_):
        out.append(bool(v))
    elif isinstance(v, BaseGeometry):
        out.append(v.geom_type)
        out.append("empty" if v.is_empty else "")
        if hasattr(v, "geoms"):
            for g in v.geoms:
                flat(g, out, depth + 1)
        elif not v.is_empty:
            rings = [v.exterior, *v.interiors] if v.geom_type == "Polygon" else [v]
            for r in rings:
                cs = np.asarray(r.coords)
                out.append(str(cs.shape))
                out.extend(float(x) for x in cs.ravel())
    elif isinstance(v, pd.DataFrame):
        out.append("frame")
        out.append(str(getattr(v, "crs", None))[:40] if isinstance(v, gpd.GeoDataFrame) and "geometry" in v.columns else "-")
        out.append(str(list(v.columns)))
        out.append(str(list(map(str, v.dtypes))))
        flat(list(v.index), out, depth + 1)
        for c in range(len(v.columns)):
            for x in v.iloc[:, c]:
                flat(x, out, depth + 1)
    elif isinstance(v, pd.Series):
        out.append("series " + str(v.dtype) + str(v.name))
        out.append(str(getattr(v, "crs", None))[:40])
        flat(list(v.index), out, depth + 1)
        for x in v:
            flat(x, out, depth + 1)
    elif v is pd.NaT:
        out.append("NaT")
    elif isinstance(v, (pd.Timestamp, datetime)):
        t = pd.Timestamp(v)
        out.append("t" + str(t.tzinfo is not None))
        out.append((t - pd.Timestamp(BASE if t.tzinfo else BASE.replace(tzinfo=None))).total_seconds())
    elif isinstance(v, (pd.Timedelta, timedelta)):
        out.append("d")
        out.append(pd.Timedelta(v).total_seconds())
    elif isinstance(v, (date, time)):
        out.append(v.isoformat())
    elif isinstance(v, BaseModel):
        out.append(type(v).__name__)
        for k in type(v).model_fields:
            out.append(k)
            flat(getattr(v, k), out, depth + 1)
    elif isinstance(v, dict):
        out.append("dict")
        for k in v:
            out.append(str(k))
            flat(v[k], out, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)):
        out.append(f"list{len(v)}")
        for x in v:
            flat(x, out, depth + 1)
    elif isinstance(v, np.ndarray):
        out.append(f"array{v.shape}")
        for x in v.ravel():
            flat(x, out, depth + 1)
    elif hasattr(v, "position") and hasattr(v, "velocity"):  # a skyfield position
        flat([np.asarray(v.position.m), np.asarray(v.velocity.m_per_s), np.asarray(v.t.tt)], out, depth + 1)
    else:
        out.append(type(v).__name__)
    return out


def digest(toks):
    h = hashlib.sha1()
    for t in toks:
        h.update(struct.pack("d", t) if isinstance(t, float) else repr(t).encode())
        h.update(b"|")
    return h.hexdigest()[:12]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, float) and isinstance(y, float):
            if x != y and not (x != x and y != y) and not abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y)):
                return False
        elif type(x) is not type(y) or x != y:
            return False
    return True


# ---------------------------------------------------------------- the world
def world(seed):
    """Newly built shared objects."""
    r = random.Random(seed)
    w = {}
    if r.random() < .6:
        n, lines = r.choice([2, 3, 4]), []
        inc, raan, ma, mm = r.uniform(30, 100), r.uniform(0, 359), r.uniform(0, 359), 86400 / period_s(r.uniform(350e3, 900e3))
        gap = r.choice([1, 2, 4])
        for k in range(n):
            lines += tle_lines(inc, (raan + 5 * k) % 360, 0.001, 20.0, (ma + 20 * k) % 360, mm, BASE + timedelta(hours=gap * k))
        w["orbit_a"] = TwoLineElements(tle=lines)
    else:
        w["orbit_a"] = random_orbit(r)
    w["orbit_b"] = random_orbit(r, ("circular", "keplerian", "sso"))
    w["orbit_c"] = CircularOrbit(altitude=r.choice([400e3, 600e3, 800e3]), inclination=r.uniform(20, 110), epoch=BASE,
                                 right_ascension_ascending_node=r.uniform(0, 359))
    w["orbit_m"] = r.choice([MolniyaOrbit, TundraOrbit])(altitude=600e3, true_anomaly=r.uniform(0, 359), epoch=BASE, right_ascension_ascending_node=r.uniform(0, 359),
                                                         inclination=63.4, perigee_argument=270.0)
    w["ins_1"] = Instrument(name="wide", field_of_regard=r.choice([100.0, 120.0, 150.0]), min_access_time=timedelta(seconds=r.choice([0, 10])),
                            req_target_sunlit=r.choice([None, None, None, True, False]))
    w["ins_2"] = Instrument(name="narrow", field_of_regard=r.choice([20.0, 40.0]))
    w["ins_p"] = PointedInstrument(name="pointed", field_of_regard=180.0, cross_track_field_of_view=r.choice([5.0, 20.0]), along_track_field_of_view=r.choice([2.0, 8.0]),
                                   roll_angle=r.choice([0.0, 15.0]), pitch_angle=r.choice([0.0, -10.0]), is_rectangular=True, cross_track_pixels=3, along_track_pixels=2)
    w["sat_a"] = Satellite(name="a", orbit=w["orbit_a"], instruments=[w["ins_1"], w["ins_2"]])
    w["sat_b"] = Satellite(name="b", orbit=w["orbit_b"], instruments=[w["ins_1"], w["ins_p"]])
    w["walker"] = WalkerConstellation(name="w", orbit=r.choice([w["orbit_a"], w["orbit_b"], w["orbit_c"]]), instruments=[w["ins_1"], w["ins_2"]], number_satellites=4, number_planes=2,
                                      relative_spacing=1, configuration=r.choice(["delta", "star"]))
    w["train"] = TrainConstellation(name="t", orbit=r.choice([w["orbit_a"], w["orbit_b"]]), instruments=[w["ins_1"], w["ins_p"]], number_satellites=3,
                                    interval=timedelta(minutes=r.choice([2, 15])), repeat_ground_track=r.random() < .5)
    w["mog"] = MOGConstellation(name="m", orbit=w["orbit_c"], instruments=[w["ins_1"]], parallel_axis=200e3, transverse_axis=300e3, number_satellites=2)
    w["soc"] = SOCConstellation(name="s", orbit=w["orbit_c"], instruments=[w["ins_2"]], swath_width=6e6, packing_distance=1.0)
    w["satellites"] = [w["sat_a"], w["walker"], w["sat_b"]]
    # points (and a station) that the satellites pass over
    below = []
    for k in "aabc":
        lo, la, _ = geodetic(ecef(sat_of(w["orbit_" + k].model_copy(deep=True).to_tle().tle[:2]).at(TS.from_datetime(BASE + timedelta(minutes=r.randint(10, 26 if below else 50)))))[0])
        below.append((lo, la))
    w["points"] = [Point(id=k, longitude=below[2 * k][0], latitude=below[2 * k][1], elevation=r.choice([0, 500.0])) for k in range(2)] + [Point(id=2, longitude=below[3][0], latitude=below[3][1])]
    w["stations"] = [GroundStation(name=f"g{k}", longitude=r.uniform(-180, 180), latitude=r.uniform(-85, 85), min_elevation_angle=r.choice([0, 10.0]),
                                   min_access_time=timedelta(seconds=r.choice([0, 60]))) for k in range(3)]
    w["stations"][0] = GroundStation(name="g0", longitude=below[2][0], latitude=below[2][1], min_elevation_angle=10)
    w["stations"][1] = GroundStation(name="g1", longitude=below[1][0], latitude=below[1][1], min_elevation_angle=5)
    w["gnss"] = [Satellite(name=f"n{k}", orbit=CircularOrbit(altitude=20200e3, inclination=55, true_anomaly=47 * k % 360, right_ascension_ascending_node=60 * k % 360, epoch=BASE),
                           instruments=[w["ins_2"]]) for k in range(10)]
    w["times"] = [BASE + timedelta(seconds=r.choice([60, 180]) * k) for k in range(12)]
    if r.random() < .3:
        r.shuffle(w["times"])
    geom = mask_shape(random_parts(r, small=3000))
    over = r.choice([Polygon([(160, -30), (200, -30), (200, 40), (160, 40)]), Polygon([(-150, 60), (-40, 70), (60, 62), (160, 75), (-170, 66)]), Polygon([(-30, 20), (10, 25), (5, 60)]), box(-20, -60, 30, 50)])
    w["mask"] = geom
    w["mask_over"] = over
    w["mask_z"] = Polygon([(x, y, 100.0) for x, y in [(-30, -20), (60, -35), (75, 40), (-10, 50)]], [[(0, 0, 100.0), (20, 0, 100.0), (20, 15, 100.0)]])
    w["mask_series"] = gpd.GeoSeries([geom, box(-170, -70, -60, 70)], crs="EPSG:4326", index=[7, 3])
    w["mask_frame"] = gpd.GeoDataFrame({"tag": [1, 2]}, geometry=[box(0, -80, 170, 80), box(-170, -70, -20, 60)], crs="EPSG:4326", index=[5, 5])
    rows = []
    for k in range(r.randint(6, 14)):
        s = r.randint(0, 5000) * 1000
        rows.append(dict(p=r.randint(0, 3), s=s, e=s + 240000, ep=s + 120000, sat=r.choice(["a", "b", "A 1"]), ins=r.choice(["wide", "narrow"])))
        rows[-1]["x"], rows[-1]["y"] = 5000 * rows[-1]["p"], -7000 * rows[-1]["p"]
    w["obs"] = obs_frame(rows)
    w["obs"].index = r.sample(range(100), len(rows))
    w["down"] = C07.dl_frame([{"sat": r.choice(["a", "b", "A 1"]), "s": k * 700000, "ep": k * 700000 + 60000, "st": f"g{k}"} for k in r.sample(range(9), 8)])
    recs = [dict(p=r.randint(0, 3), a=r.choice([C05.NA, 60000, 90000]), b=r.choice([C05.NA, 60000, 500000])) for _ in range(8)]
    for q in recs:
        q["x"], q["y"] = 4000 * q["p"], 3000 * q["p"]
    w["agg"] = C05.frame([dict(q, a=60000) for q in recs], "obs")
    w["lat"] = C05.frame(recs, "lat")
    cells = [box(x, y, x + 10, y + 10) for x in range(-10, 30, 10) for y in range(-30, 30, 10)]
    w["cells"] = gpd.GeoDataFrame({"cell_id": list(range(len(cells)))}, geometry=cells, crs="EPSG:4326")
    w["red"] = gpd.GeoDataFrame({"point_id": [0, 1, 2], "access": pd.to_timedelta([60, 70, 80], unit="s"), "revisit": pd.to_timedelta([None, 7000, 8000], unit="s"),
                                 "samples": [1, 4, 9]}, geometry=[Pt(1, 1, 0), Pt(2, 3, 0), Pt(15, -12, 0)], crs="EPSG:4326")
    w["redlat"] = gpd.GeoDataFrame({"point_id": [0, 1, 2], "latency": pd.to_timedelta([60, None, 80], unit="s"),
                                    "samples": [1, 4, 9]}, geometry=[Pt(1, 1, 0), Pt(2, 3, 0), Pt(15, -12, 0)], crs="EPSG:4326")
    for k in ("obs", "red", "redlat", "down"):
        w[k + "_0"] = w[k].iloc[:0].copy()
    w["arch"] = Architecture(name="arch", satellites=[w["sat_a"], w["train"]], stations=list(w["stations"]))
    return w


END = BASE + timedelta(hours=3)
TO, FROM = Transformer.from_crs("EPSG:4326", "EPSG:4087", always_xy=True), Transformer.from_crs("EPSG:4087", "EPSG:4326", always_xy=True)


def chain(w, *fs):
    """Producer followed by consumers; the intermediate tables must be kept."""
    res = []
    v = None
    for f in fs:
        before = digest(flat(v, []))
        nxt = f(v)
        if digest(flat(v, [])) != before:
            w["__chained"] = "changed"
        res.append(nxt)
        v = nxt
    return res


# plain calls use group 1 or 2 objects; lazy calls load something with an orbit
OPS = {}


def op(name, group, fn):
    OPS[name] = (group, fn)


op("observe_a", "1", lambda w: A.collect_observations(w["points"][0], w["sat_a"], BASE, END, 0))
op("observe_a2", "1", lambda w: A.collect_observations(w["points"][0], w["sat_a"], BASE, END, 1, omit_solar=False))
op("observe_b", "2", lambda w: A.collect_observations(w["points"][1], w["sat_b"], BASE, END, 0, omit_solar=False))
op("observe_a_later", "1", lambda w: A.collect_observations(w["points"][0], w["sat_a"], BASE + timedelta(hours=2), END + timedelta(hours=3), 0))
op("multi", "12", lambda w: A.collect_multi_observations(w["points"][1], w["satellites"], BASE, END))
op("multi_mog", "2", lambda w: A.collect_multi_observations(w["points"][2], w["mog"], BASE, END))
op("aggregate", "1", lambda w: A.aggregate_observations(w["obs"]))
op("reduce", "1", lambda w: A.reduce_observations(w["agg"]))
op("grid", "1", lambda w: A.grid_observations(w["red"], w["cells"]))
op("empty", "12", lambda w: [A.aggregate_observations(w["obs_0"]), A.grid_observations(w["red_0"], w["cells"]), A.grid_latencies(w["redlat_0"], w["cells"]),
                             A.compute_latencies(w["obs_0"], w["down"]), A.compute_latencies(w["obs"], w["down_0"])])
op("pipeline", "12", lambda w: chain(w, lambda _: A.collect_multi_observations(w["points"][0], w["satellites"], BASE, END), A.aggregate_observations,
                                     A.reduce_observations, lambda v: A.grid_observations(v, w["cells"])))
op("downlinks", "1", lambda w: A.collect_downlinks(w["stations"], w["sat_a"], BASE, END))
op("downlinks_b", "2", lambda w: A.collect_downlinks(w["stations"][0], w["sat_b"], BASE, END))
op("latencies", "2", lambda w: A.compute_latencies(w["obs"], w["down"]))
op("reduce_lat", "2", lambda w: A.reduce_latencies(w["lat"]))
op("grid_lat", "2", lambda w: A.grid_latencies(w["redlat"], w["cells"]))
op("latency_pipeline", "1", lambda w: chain(w, lambda _: A.collect_observations(w["points"][0], w["sat_a"], BASE, END, 0),
                                            lambda v: A.compute_latencies(v, A.collect_downlinks(w["stations"], w["sat_a"], BASE, END)), A.reduce_latencies))
op("orbit_track", "1", lambda w: A.collect_orbit_track(w["sat_a"], w["times"], 0))
op("orbit_track_eci", "2", lambda w: A.collect_orbit_track(w["sat_b"], w["times"], 1, coordinates=OrbitCoordinate.ECI, orbit_output=OrbitOutput.POSITION_VELOCITY,
                                                          sat_sunlit=True, solar_altaz=True, solar_beta=True))
op("orbit_track_mask", "1", lambda w: A.collect_orbit_track(w["sat_a"], w["times"], 1, mask=w["mask"], coordinates=OrbitCoordinate.ECEF))
op("orbit_track_frame", "2", lambda w: A.collect_orbit_track(w["sat_b"], w["times"], 0, mask=w["mask_frame"]))
op("ground_track", "1", lambda w: A.collect_ground_track(w["sat_a"], w["times"], 0, elevation=200.0, mask=w["mask_series"]))
op("ground_track_utm", "1", lambda w: A.collect_ground_track(w["sat_a"], w["times"][:2], 1, crs="utm", sat_altaz=True, solar_altaz=True))
op("ground_track_spice", "2", lambda w: A.collect_ground_track(w["sat_b"], w["times"][:6], 1, mask=w["mask_frame"], crs="spice"))
op("swath_point", "1", lambda w: A.compute_ground_track(w["sat_a"], w["times"][:6], 1, mask=w["mask"]))
op("swath_line", "2", lambda w: A.compute_ground_track(w["sat_b"], sorted(w["times"])[:6], 0, method="line", dissolve_orbits=False))
op("pixels", "2", lambda w: A.collect_ground_pixels(w["sat_b"], w["times"][:4], 1, mask=w["mask_frame"], sat_altaz=True))
op("fibonacci", "1", lambda w: G.generate_fibonacci_lattice_points(2.5e6, mask=w["mask"]))
op("equal_points", "2", lambda w: G.generate_equally_spaced_points(2e6, elevation=10.0, mask=w["mask_over"]))
op("equal_points_z", "1", lambda w: G.generate_equally_spaced_points(1.5e6, mask=w["mask_z"]))
op("equal_cells", "1", lambda w: G.generate_equally_spaced_cells(2.5e6, mask=w["mask"]))
op("strips", "2", lambda w: G.generate_equally_spaced_cells(3e6, mask=w["mask_over"], strips="lat"))
op("normalize", "1", lambda w: [utils.normalize_geometry(w[k]) for k in ("mask", "mask_over", "mask_frame", "mask_z")])
op("split", "2", lambda w: [utils.split_polygon(w[k]) for k in ("mask_over", "mask", "mask_z")])
op("project", "2", lambda w: [utils.project_polygon_to_elevation(w[k], 50.0) for k in ("mask", "mask_z")])
op("buffer", "1", lambda w: utils.buffer_target(w["mask_z"], 5e5, 60.0, 40.0, 60.0))
op("footprint", "2", lambda w: chain(w, lambda _: w["orbit_b"].to_tle().get_orbit_track(w["times"][:3]),
                                     lambda t: [utils.compute_footprint(t, 20.0, 10.0, 5.0, 0.0, True), utils.compute_limb(t), w["ins_p"].compute_footprint(t),
                                                w["ins_1"].compute_footprint(t), w["ins_p"].compute_footprint_center(t)])[1])
op("walker", "2", lambda w: w["walker"].generate_members())
op("train", "1", lambda w: w["train"].generate_members())
op("mog", "2", lambda w: w["mog"].generate_members())
op("soc", "2", lambda w: w["soc"].generate_members())
op("dop", "12", lambda w: A.compute_dop(w["times"][:4], w["points"][0], w["walker"].generate_members() + [w["sat_a"], w["sat_b"]], -60.0, A.DopMethod.GDOP))
op("occult", "12", lambda w: A.collect_ro_observations(w["sat_a"], [w["sat_b"], *w["gnss"]], [BASE + timedelta(seconds=40 * k) for k in range(60)]))
op("dump", "12", lambda w: [w[k].model_dump() for k in ("sat_a", "walker", "arch", "train")] + [w["arch"].model_dump_json(), w["sat_b"].model_dump_json()])
op("reload", "12", lambda w: [Architecture.model_validate_json(w["arch"].model_dump_json()), Satellite.model_validate(w["sat_b"].model_dump())])
op("deepcopy", "12", lambda w: [copy.deepcopy(w["sat_a"]), w["sat_b"].model_copy(deep=True)])
op("derive_a", "1", lambda w: w["orbit_a"].get_derived_orbit(40.0, -20.0))
op("derive_b", "2", lambda w: [w[k].get_derived_orbit(40.0, 20.0) for k in ("orbit_b", "orbit_c", "orbit_m")])
op("derive_track", "1", lambda w: A.collect_orbit_track(Satellite(name="d", orbit=w["orbit_a"].get_derived_orbit(25.0, 10.0), instruments=[w["ins_2"]]), w["times"][:4]))
op("values", "12", lambda w: [x for k in ("orbit_b", "orbit_c", "orbit_m") for x in (w[k].get_mean_anomaly(), w[k].get_semimajor_axis(), w[k].get_orbit_period())]
   + [w["ins_1"].get_swath_width(5e5), w["ins_1"].get_min_elevation_angle(5e5), w["train"].get_delta_raan(), w["walker"].get_delta_raan_between_planes()])
op("tle_a", "l1", lambda w: w["orbit_a"].to_tle())
op("tle_b", "l2", lambda w: [w[k].to_tle() for k in ("orbit_b", "orbit_c", "orbit_m")])
op("tle_eager", "l2", lambda w: w["orbit_b"].to_tle(lazy_load=False))
op("closest", "l1", lambda w: w["orbit_a"].to_tle().get_closest_tle_index([BASE + timedelta(hours=h) for h in (-2, 0.7, 1.5, 3, 9, 40)]))
op("partition", "l1", lambda w: w["orbit_a"].to_tle().partition_by_tle_index(BASE, END))
op("track_a", "l1", lambda w: w["orbit_a"].to_tle().get_orbit_track(w["times"]))
op("track_b", "l2", lambda w: w["orbit_b"].to_tle().get_orbit_track(w["times"], try_repeat=False))
op("cycle_b", "l2r", lambda w: w["orbit_b"].to_tle().get_repeat_cycle())
op("cycle_a", "l1r", lambda w: w["orbit_a"].to_tle().get_repeat_cycle())
op("track_repeat", "l2r", lambda w: w["orbit_b"].to_tle().get_orbit_track([t + timedelta(days=20) for t in w["times"][:4]], try_repeat=True))
op("events_repeat", "l2r", lambda w: A.collect_observations(w["points"][0], w["sat_b"], BASE, END + timedelta(hours=6), 0))

NO_SPOIL = {"tle_a", "tle_b", "tle_eager"}


def spoil(v, depth=0):
    """The caller changes what it was given."""
    if isinstance(v, pd.DataFrame):
        for c in list(v.columns):
            try:
                if len(v) and v[c].dtype.kind in "if":
                    v.loc[v.index[0], c] = -999
            except Exception:
                pass
        try:
            if len(v):
                v.drop(index=v.index[:1], inplace=True)
            v["spoilt"] = 1
        except Exception:
            pass
    elif isinstance(v, BaseModel) and depth < 6:
        for k in type(v).model_fields:
            x = getattr(v, k)
            if isinstance(x, (BaseModel, list)):
                spoil(x, depth + 1)
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                try:
                    setattr(v, k, x + 1)
                except Exception:
                    pass
            elif k == "name":
                v.name = "spoilt"
    elif isinstance(v, list) and depth < 6:
        for x in list(v):
            spoil(x, depth + 1)
        v.append(None) if depth == 0 else None
        if v and isinstance(v[0], (str, float, int)):
            v[0] = "spoilt"
        if depth == 0:
            v.clear()
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, depth + 1)
        v.clear()
    elif isinstance(v, np.ndarray) and v.dtype.kind in "fi" and v.flags.writeable:
        v[...] = -1


def toggle():
    """One of two configurations (number of points of a footprint and of rectangular sides)."""
    names = [n for n in type(config.rc).model_fields if n.startswith("footprint_points")]
    for n in names:
        setattr(config.rc, n, 11 if getattr(config.rc, n) != 11 else type(config.rc).model_fields[n].default)


def child(fn):
    """fn() in a forked process."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            data = pickle.dumps(fn())
            with os.fdopen(wr, "wb") as f:
                f.write(data)
        except BaseException as x:  # machinery
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
            code = 9
        finally:
            sys.stdout.flush()
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        return None
    return pickle.loads(data)


def run_op(name, w):
    st, v = guarded(lambda: OPS[name][1](w), 120)
    toks = flat(v, [st]) if st == "ok" else [st]
    return st, v, toks


def snapshot(w):
    d = {k: digest(flat(v, [])) for k, v in w.items() if not k.startswith("__")}
    d["config"] = digest(flat(config.rc, []))
    return d


def baseline(seed, name, conf, rep):
    def f():
        with_repeat(rep)
        if conf:
            toggle()
        w = world(seed)
        st, _, toks = run_op(name, w)
        return st, toks
    return child(f)


def history(seed, steps, rep):
    """steps: list of op names, "c" (configuration) or "s" (spoil the last result)."""
    def f():
        with_repeat(rep)
        w = world(seed)
        conf, res, kept, log, before, pend = 0, None, [], [], None, []
        for s in steps:
            if s == "c":
                toggle()
                conf, before = 1 - conf, None
                continue
            if s == "s":
                if res is not None and res[0] not in NO_SPOIL:
                    kept = [x for x in kept if x[1] is not res[1]]
                    before = before or snapshot(w)
                    spoil(res[1])
                    after = snapshot(w)
                    pend = [k + " with a result" for k in before if after[k] != before[k]]
                    before = None
                continue
            if before is None:
                before = snapshot(w)
            st, v, toks = run_op(s, w)
            after = snapshot(w)
            changed = sorted(k for k in before if after.get(k) != before[k])
            changed, pend = changed + pend, []
            before = after
            if w.pop("__chained", None):
                changed.append("table of the call before")
            earlier = sorted({n for n, x, d in kept if digest(flat(x, [])) != d})
            kept = [(n, x, digest(flat(x, []))) if n in earlier else (n, x, d) for n, x, d in kept]
            log.append((s, conf, st, toks, changed, earlier))
            res = (s, v)
            if st == "ok" and s not in NO_SPOIL:
                kept = (kept + [(s, v, digest(flat(v, [])))])[-4:]
        return log
    return child(f)


class Machinery(Exception):
    pass


def judge(seed, steps, rep, base, tag):
    log = history(seed, steps, rep)
    if log is None:
        log = history(seed, steps, rep)
    if log is None:
        return [dict(kind=tag, inp={"op": "all", "pos": 0, "conf": 0, "want": "", "base": ""}, out={"status": "process_ended"},
                     repro={"seed": seed, "steps": steps, "repeat": rep})]
    evs = []
    for k, (s, conf, st, toks, changed, earlier) in enumerate(log):
        key = (s, conf)
        if key not in base:
            base[key] = baseline(seed, s, conf, rep)
            if base[key] is None:
                raise Machinery(f"baseline {seed} {s} ended without a record")
        bst, btoks = base[key]
        if "timeout" in bst or "timeout" in st:
            continue
        want = digest(btoks)
        got = want if same(toks, btoks) else digest(toks)
        evs.append(dict(kind=tag, inp={"op": s, "pos": k + 1, "conf": conf, "want": want, "base": bst}, out={"status": "ok", "got": got, "changed": changed, "earlier": earlier},
                        repro={"seed": seed, "steps": steps, "repeat": rep, "got": toks[:1] if st != "ok" else "", "diff": diff(toks, btoks)}))
    return evs


def diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if not same([x], [y]):
            return [k, repr(x)[:80], repr(y)[:80]]
    return [len(a), len(b)]


def ops_of(letter, rep):
    f, x = letter[0], letter[1]
    return [n for n, (g, _) in OPS.items() if (g.startswith("l") == (f == "l")) and x in g and (rep or not g.endswith("r"))]


def run_words(job):
    seed, words, rep = job
    r = random.Random(f"w{seed}")
    base, evs = {}, []
    for word in words:
        steps = []
        for c in word:
            steps.append(c if c in ("s", "c") else r.choice(ops_of(c.replace("3", r.choice("12")), rep)))
        evs += judge(seed, steps, rep, base, "word")
    return evs


def run_long(job):
    seed, n, rep = job
    r = random.Random(f"l{seed}")
    base, evs = {}, []
    names = [k for k, (g, _) in OPS.items() if rep or not g.endswith("r")]
    for _ in range(n):
        steps = []
        for s in r.sample(names, len(names)):
            steps.append(s)
            u = r.random()
            if u < .1:
                steps.append("s")
            elif u < .11 and "c" not in steps:
                steps.append("c")
        steps += r.sample(names, len(names) // 2)
        evs += judge(seed, steps, rep, base, "long")
    # a call repeated at once
    steps = [s for k in r.sample(names, 12) for s in (k, k)]
    return evs + judge(seed, steps, rep, base, "twice")


# ---------------------------------------------------------------- members
def reach(v, seen, depth=0):
    """Identities of mutable objects reachable from a definition."""
    if isinstance(v, BaseModel):
        if id(v) in seen or depth > 8:
            return seen
        seen[id(v)] = v
        for k in type(v).model_fields:
            reach(getattr(v, k), seen, depth + 1)
    elif isinstance(v, (list, dict, set)):
        seen[id(v)] = v
        for x in (v.values() if isinstance(v, dict) else v):
            reach(x, seen, depth + 1)
    return seen


def run_alias(seed):
    def f():
        with_repeat(False)
        w = world(seed)
        r = random.Random(f"a{seed}")
        evs = []
        for name in ("walker", "train", "mog", "soc"):
            con = w[name]
            st, ms = guarded(lambda: con.generate_members())
            if st != "ok" or len(ms) > 200:
                continue
            if r.random() < .5:  # used before: lazily loaded values
                for m in ms[:3]:
                    m.orbit.to_tle().get_orbit_track(w["times"][:2])
            owners = [("constellation", con)] + [(f"member {k}", m) for k, m in enumerate(ms)]
            where, shared = {}, set()
            for o, v in owners:
                for i, x in reach(v, {}).items():
                    if i in where and where[i][0] != o:
                        shared.add(f"{where[i][0]} and {o}: {type(x).__name__}")
                    where.setdefault(i, (o, x))
            digs = [digest(flat(v, [])) for _, v in owners]
            k = r.randrange(len(owners))
            spoil(owners[k][1])
            touched = [owners[j][0] for j in range(len(owners)) if j != k and digest(flat(owners[j][1], [])) != digs[j]]
            evs.append(dict(kind="alias", inp={"of": name, "n": len(ms), "changed": owners[k][0]}, out={"status": "ok", "shared": sorted(shared)[:5], "touched": touched[:5]},
                            repro={"seed": seed}))
        return evs
    res = child(f)
    if res is None:
        raise Machinery(f"members {seed}")
    return res


def run_equal(seed):
    """Definitions with equal fields, used differently, compare equal; another one does not."""
    def f():
        r = random.Random(f"e{seed}")
        with_repeat(False)
        w, v, other = world(seed), world(seed), world(seed + 1)
        names = [n for n in OPS if not OPS[n][0].endswith("r")]
        for s in r.sample(names, 5):
            run_op(s, w)
        for s in r.sample(names, 5):
            run_op(s, v)
        evs = []
        for k in ("orbit_a", "orbit_b", "orbit_c", "orbit_m", "ins_1", "ins_p", "sat_a", "sat_b", "walker", "train", "mog", "soc", "arch"):
            for a, b, eq in ((w[k], v[k], True), (w[k], w[k].model_copy(deep=True), True), (w[k], other[k], digest(flat(w[k], [])) == digest(flat(other[k], [])))):
                st, e = guarded(lambda: bool(a == b))
                evs.append(dict(kind="equal", inp={"of": k, "equal": eq}, out={"status": st, "equal": bool(e)}, repro={"seed": seed}))
        return evs
    res = child(f)
    if res is None:
        raise Machinery(f"equal {seed}")
    return res


def warm():
    """Compile the numerical functions once, before the processes are forked."""
    for n in dir(utils):
        f = getattr(utils, n)
        if hasattr(f, "py_func"):
            ps = inspect.signature(f.py_func).parameters.values()
            need = sum(p.default is p.empty for p in ps)
            for k in range(need, len(ps) + 1):
                for base in (5e5, 30.0):
                    try:
                        f(*[base if i == 0 else 30.0 + i for i in range(k)])
                    except Exception:
                        pass


def drive(ctx):
    warm()
    gc.collect()
    gc.freeze()
    r = ctx.rng("seeds")
    words = ctx.sample([c for c in ctx.cases["MC_C29"]], ctx.scale(105, 2000), "words")
    words = [json.loads(x) if isinstance(x, str) else x for x in words]
    per = 5
    jobs = [(r.randrange(10 ** 6), words[k:k + per], (k // per) % 6 == 0) for k in range(0, len(words), per)]
    ctx.pmap(run_words, jobs, procs=7, chunk=1)
    ctx.pmap(run_long, [(r.randrange(10 ** 6), ctx.scale(1, 2), k % 4 == 0) for k in range(ctx.scale(7, 200))], procs=7, chunk=1)
    ctx.pmap(run_alias, [r.randrange(10 ** 6) for _ in range(ctx.scale(60, 800))], procs=7)
    ctx.pmap(run_equal, [r.randrange(10 ** 6) for _ in range(ctx.scale(12, 200))], procs=7, chunk=1)


def corrupt(ev, rng):
    c = copy.deepcopy(ev)
    if ev["kind"] == "alias":
        c["out"]["shared"] = ["member 0 and member 1: Instrument"]
        yield "shared", c
        c = copy.deepcopy(ev)
        c["out"]["touched"] = ["constellation"]
        yield "touched", c
    elif ev["kind"] == "equal":
        c["out"]["equal"] = not ev["in"]["equal"]
        yield "equal", c
    else:
        c["out"]["got"] = "0" + ev["in"]["want"]
        yield "got", c
        c = copy.deepcopy(ev)
        c["out"]["changed"] = ["mask"]
        yield "changed", c
