"""C34: result tables have the same columns whatever was found."""
import json
import random
from datetime import timedelta

import geopandas as gpd
import pandas as pd
from shapely.geometry import MultiPolygon, Polygon, box

from framework import guarded
from orbits import BASE, TS, ecef, random_orbit, sat_of
from tracks import geodetic
from tatc import analysis as an, generation as gen
from tatc.analysis import collect_ground_pixels, collect_ground_track, collect_orbit_track, compute_ground_track
from tatc.schemas import CircularOrbit, GroundStation, Instrument, Point, PointedInstrument, Satellite, WalkerConstellation

MC = [("MC_C34", "MC_C34", "MC_C34_thorough")]
TRACE = "TR_C34"
RULE = ("TLC runs every pipeline of result tables over no, one or several rows and every choice of options and checks that each operation finds the "
        "columns it relies on; every pipeline and every option combination is run on the real code, with tables that are empty for different reasons "
        "(no times, a mask that excludes everything, nothing visible, no satellites), and the recorded columns are compared with the declared ones.")
ASSUMPTIONS = ["the order of the columns is free", "columns of the caller's own in cells or observations are not judged"]
DAY = timedelta(days=1)


def describe(kind, opts, t, index=None):
    inst = [c for c in t.columns if isinstance(t[c].dtype, pd.DatetimeTZDtype) and str(t[c].dtype.tz) == "UTC"]
    dur = [c for c in t.columns if pd.api.types.is_timedelta64_dtype(t[c].dtype) or t[c].isna().all()]
    g = isinstance(t, gpd.GeoDataFrame)
    return dict(kind=kind, opts=sorted(opts), rows=len(t), cols=[str(c) for c in t.columns], geom=str(t.geometry.name) if g else "none",
                crs=(t.crs.to_epsg() or 0) if g and t.crs is not None else 0,
                labels=list(t.index) == (list(range(len(t))) if index is None else list(index)), instants=inst, durations=dur)


def satellites(r, n=2):
    out = []
    for i in range(n):
        ins = [r.choice([Instrument(name="wide", field_of_regard=r.choice([60, 120])),
                         PointedInstrument(name="nadir", field_of_regard=90, cross_track_field_of_view=70, along_track_field_of_view=40, is_rectangular=r.random() < 0.5)])
               for _ in range(r.choice([1, 2]))]
        out.append(Satellite(name=f"s{i}", orbit=random_orbit(r, alt=r.choice([500e3, 800e3])), instruments=ins))
    return out


def observe(r, rows, solar):
    """Observations of a point: none for one of several reasons, or some."""
    sats = satellites(r, r.choice([1, 2]))
    pt = Point(id=r.randint(0, 9), latitude=r.choice([-40, 0, 25, 60]), longitude=r.choice([-179.5, -60, 0, 100]))
    start, end = BASE, BASE + r.choice([1, 2]) * DAY
    multi = r.random() < 0.6
    if rows == 0:
        why = r.choice(["window", "access", "nobody", "far"])
        if why == "window":
            end = start + r.choice([timedelta(seconds=1), timedelta(milliseconds=1)])
            pt = Point(id=3, latitude=89.9, longitude=0)
            sats = [Satellite(name="s", orbit=CircularOrbit(altitude=500e3, inclination=10, epoch=BASE), instruments=[Instrument(name="i", field_of_regard=60)])]
        elif why == "access":
            for s in sats:
                for i in s.instruments:
                    i.min_access_time = 3 * DAY
        elif why == "far":
            pt = Point(id=3, latitude=-89.9, longitude=0)
            sats = [Satellite(name="s", orbit=CircularOrbit(altitude=500e3, inclination=10, epoch=BASE), instruments=[Instrument(name="i", field_of_regard=60)])]
        else:
            sats, multi = [], True
    if multi:
        return an.collect_multi_observations(pt, sats, start, end, omit_solar=not solar)
    return an.collect_observations(pt, sats[0], start, end, r.randrange(len(sats[0].instruments)), not solar)


def downlinks(r, rows):
    s = satellites(r, 1)[0]
    st = [GroundStation(name=f"g{i}", latitude=r.choice([-35, 10, 68]), longitude=r.choice([-120, 20]), min_elevation_angle=5) for i in range(r.choice([1, 2]))]
    end = BASE + DAY
    if rows == 0:
        if r.random() < 0.4:
            st = []
        elif r.random() < 0.5:
            for g in st:
                g.min_access_time = 3 * DAY
        else:
            st, s.orbit = GroundStation(name="pole", latitude=89, longitude=0, min_elevation_angle=20), CircularOrbit(altitude=500e3, inclination=5, epoch=BASE)
    return an.collect_downlinks(st if len([st]) and r.random() < 0.7 or st == [] or not isinstance(st, list) else st[0], s, BASE, end)


# a region whose bounding box holds grid cells and points that it does not meet
STAR = MultiPolygon([Polygon([(-170, -80), (-100, -70), (-160, 20)]), Polygon([(-20, -60), (150, 75), (20, 80)])])


def cells(r, rows):
    if rows == 0:
        return gen.generate_equally_spaced_cells(5e6, mask=box(10.001, 10.001, 10.002, 10.002)).iloc[:0]
    c = r.choice([lambda: gen.generate_equally_spaced_cells(3e6), lambda: gen.generate_equally_spaced_cells(5e6, strips=None),
                  lambda: gen.generate_equally_spaced_cells(4e6, elevation=100),
                  lambda: gen.generate_equally_spaced_cells(1.5e6, mask=STAR)])()
    return c.iloc[:1] if rows == 1 else c


def points(r, rows):
    f = r.choice([gen.generate_equally_spaced_points, gen.generate_fibonacci_lattice_points])
    return f(r.choice([1.5e6, 4e6]), mask=r.choice([None, STAR]) if rows else box(1, 1, 1.01, 1.01))


def some(r, f, rows):
    """Rows of f(r, rows): at least one if rows > 0 (several tries), one if rows = 1."""
    for _ in range(12):
        t = f(r, rows)
        if (len(t) > 0) == (rows > 0) and (rows < 2 or len(t) > 1):
            return t.iloc[:1] if rows == 1 else t
    return t.iloc[:1] if rows == 1 else t


def run_pipeline(args):
    seed, case = args
    r = random.Random(seed)
    tab, opts = case["tab"], case["opts"]
    solar = "solar" in opts["obs"]

    def run():
        t = {"obs": some(r, lambda q, n: observe(q, n, solar), tab["obs"]), "down": some(r, downlinks, tab["down"]), "cells": cells(r, tab["cells"])}
        if tab["obs"] > 0 and tab["down"] > 0 and r.random() < 0.7:
            t["down"]["satellite"] = t["obs"].satellite.iloc[0]
        if tab["obs"] == 2 and r.random() < 0.5:  # several points
            other = t["obs"].copy()
            other["point_id"] = t["obs"].point_id + 11
            t["obs"] = pd.concat([t["obs"], other]).reset_index(drop=True)
        t["agg"] = an.aggregate_observations(t["obs"])
        t["red"] = an.reduce_observations(t["agg"])
        t["grid"] = an.grid_observations(t["red"], t["cells"])
        t["lat"] = an.compute_latencies(t["obs"], t["down"])
        t["rlat"] = an.reduce_latencies(t["lat"])
        t["glat"] = an.grid_latencies(t["rlat"], t["cells"])
        return [describe(k, ["solar"] if k == "obs" and solar else [], v, None) for k, v in t.items()], {k: len(v) for k, v in t.items()}
    st, o = guarded(run)
    tabs, rows = o or ([], {})
    return [dict(kind="pipeline", inp={"expect": {k: tab[k] for k in ("obs", "down", "cells")}}, out={"status": st, "tabs": tabs, "rows": rows}, repro={"case": case, "seed": seed})]


def excluded(r):
    return r.choice([box(0, 87.5, 1, 88), MultiPolygon([box(0, 87.5, 1, 88), box(50, -88, 51, -87.5)]), gpd.GeoDataFrame(geometry=[box(0, 87.5, 1, 88)], crs="EPSG:4326"),
                     gpd.GeoSeries([box(0, 87.5, 1, 88)], crs="EPSG:4326")])


def track(r, kind, opts, rows):
    pixels = kind == "pixels"
    ins = [PointedInstrument(name="p", field_of_regard=60, cross_track_field_of_view=10, along_track_field_of_view=6, is_rectangular=True,
                             cross_track_pixels=r.choice([1, 3]), along_track_pixels=r.choice([1, 2]))]
    if not pixels and r.random() < 0.6:
        ins = [Instrument(name="i", field_of_regard=r.choice([10, 60]))]

    s = Satellite(name="s", orbit=CircularOrbit(altitude=600e3, inclination=40, true_anomaly=r.uniform(0, 359), right_ascension_ascending_node=r.uniform(0, 359), epoch=BASE), instruments=ins)
    times = [BASE + timedelta(seconds=30 * i) for i in range(1 if rows == 1 else 2 if rows == 0 else r.choice([2, 5, 190]))]
    mask = None
    if rows == 0:
        if r.random() < 0.4:
            times = []
            mask = r.choice([None, excluded(r)])
        else:
            mask = excluded(r)
            if kind == "orbit" and r.random() < 0.4:
                times = times[:1]
            if kind in ("ground", "pixels") and r.random() < 0.3 and isinstance(mask, MultiPolygon) is False:
                times = times[:1]
    elif rows > 1 and r.random() < 0.5:
        lon, lat, _ = geodetic(ecef(sat_of(s.orbit.to_tle().tle).at(TS.from_datetime(times[len(times) // 2])))[0])
        mask = r.choice([box(max(-180, lon - 10), -90, min(180, lon + 60), 90), box(max(-180, lon - 60), -90, min(180, lon + 10), 90),
                         box(-180, lat - 1, 180, lat + 30), STAR])
        if r.random() < 0.5:
            mask = gpd.GeoSeries([mask], crs="EPSG:4326", index=[7])
    elif r.random() < 0.4:
        mask = r.choice([box(-180, -90, 180, 90), gpd.GeoDataFrame(geometry=[box(-180, -90, 180, 90)], crs="EPSG:4326"), MultiPolygon([box(-180, -90, 0, 90), box(0, -90, 180, 90)])])
    if len(times) > 5 and pixels:
        times = times[:5]
    kw = {o: True for o in opts if o not in ("velocity", "line")}
    if "velocity" in opts:
        kw["orbit_output"] = "velocity"
    if kind == "orbit":
        kw["coordinates"] = r.choice(["wgs84", "ecef", "eci"])
        return collect_orbit_track(s, times, mask=mask, **kw)
    if kind == "pixels":
        return collect_ground_pixels(s, times, mask=mask, **kw)
    kw["crs"] = r.choice(["EPSG:4087", "utm", "spice"])
    if kind == "ground":
        return collect_ground_track(s, times, mask=mask, **kw)
    if "line" in opts:
        kw["crs"] = "EPSG:4087"
    return compute_ground_track(s, times, mask=mask, method="line" if "line" in opts else "point", dissolve_orbits=r.random() < 0.5, **kw)


def run_solo(args):
    seed, case = args
    r = random.Random(seed)
    kind = next(k for k in case["tab"] if case["tab"][k] >= 0)
    rows, opts = case["tab"][kind], case["opts"][kind]

    def run():
        index = None
        if kind in ("orbit", "ground", "pixels", "swath"):
            t = track(r, kind, opts, rows)
        elif kind == "ro":
            rx, tx = satellites(r, 1)[0], [Satellite(name=f"t{i}", orbit=CircularOrbit(altitude=20000e3, inclination=55, true_anomaly=r.uniform(0, 359), epoch=BASE), instruments=[Instrument(name="i")]) for i in range(3)]
            times = [BASE + timedelta(seconds=20 * i) for i in range(r.choice([800, 2400]))]
            if rows == 0:
                times, tx = r.choice([([], tx), (times[:1], tx), (times[:9], []), ([], [])])
            t = an.collect_ro_observations(rx, tx, times, max_yaw=0 if rows == 0 else 90)
            t = t.iloc[:1] if rows == 1 else t
        elif kind == "dop":
            sats = satellites(r, r.choice([0, 1, 5]))
            index = [BASE + timedelta(minutes=7 * i) for i in range(rows if rows < 2 else 4)]
            t = an.compute_dop(index, Point(id=0, latitude=10, longitude=20), sats, 0, r.choice(["gdop", "pdop", "hdop", "vdop", "tdop"]))
        elif kind == "points":
            t = points(r, rows)
            t = t.iloc[:1] if rows == 1 else t
        return [describe(kind, opts, t, index)], {kind: len(t)}
    st, o = guarded(run)
    tabs, n = o or ([], {})
    expect = {kind: rows}
    if kind in ("orbit", "ro", "swath", "ground", "pixels") and rows > 0:
        expect = {}
    return [dict(kind="solo", inp={"expect": expect or {"none": 0}}, out={"status": st, "tabs": tabs, "rows": {**n, "none": 0}}, repro={"case": case, "seed": seed})]


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C34"]))]
    full, solo = [], []
    for c in cases:
        (full if c["tab"]["glat"] >= 0 else solo).append(c)
    keys = {}
    for c in full:  # the rows of the derived tables follow from the real data
        keys[json.dumps([c["tab"][k] for k in ("obs", "down", "cells")] + [c["opts"]["obs"]])] = c
    full = [keys[k] for k in sorted(keys)]
    ctx.pmap(run_pipeline, [(f"{ctx.seed}/p{i}/{j}", c) for j in range(ctx.scale(2, 20)) for i, c in enumerate(full)], chunk=2)
    ctx.pmap(run_solo, [(f"{ctx.seed}/s{i}/{j}", c) for j in range(ctx.scale(3, 25)) for i, c in enumerate(solo)], chunk=4)


def corrupt(ev, rng):
    tabs = ev["out"]["tabs"]
    if not tabs:
        return
    t = rng.choice(tabs)
    k = rng.choice(["drop", "add", "geom", "crs", "labels"])
    if k == "drop":
        t["cols"].pop(rng.randrange(len(t["cols"])))
    elif k == "add":
        t["cols"].append("index_right")
    elif k == "geom":
        t["geom"] = "none"
    elif k == "crs":
        t["crs"] = 0
    else:
        t["labels"] = False
    yield k, ev
