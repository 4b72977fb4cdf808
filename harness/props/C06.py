"""C06: gridding gives sample-weighted means of the points inside each cell."""
import json
import random

import geopandas as gpd
import pandas as pd
from shapely.geometry import Point, Polygon

from tables import dms, col
from framework import guarded, ShapeError, NA
from tatc.analysis import grid_observations, grid_latencies, reduce_observations, reduce_latencies
import C05

MC = [("MC_C06", "MC_C06", "MC_C06_thorough")]
TRACE = "TR_C06"
RULE = ("TLC checks the gridding machine over neighbouring, overlapping and never-hit cells with points inside, on "
        "edges and outside; the cases are replayed into grid_observations and grid_latencies, plus random cells "
        "(rectangles and convex polygons with arbitrary ids and row labels) and up to 14 reduced points, and tables handed on by the real reduction.")
ASSUMPTIONS = ["weighted means are compared to one millisecond", "cells are convex polygons on a 0.01 degree raster",
               "a cell contains a point that lies in its interior"]
U = 100.0  # raster units per degree


def td(v):
    return pd.NaT if v == NA else pd.Timedelta(milliseconds=v)


def frames(cells, pts, kind, cindex=None, pindex=None):
    c = gpd.GeoDataFrame(
        {"cell_id": [q["id"] for q in cells],
         "geometry": [Polygon([(x / U, y / U) for x, y in q["ring"]]) for q in cells]}, crs="EPSG:4326")
    d = {"point_id": list(range(len(pts))),
         "geometry": [Point(q["x"] / U, q["y"] / U) for q in pts]}
    if kind == "obs":
        d["access"] = pd.Series([td(q["a"]) for q in pts], dtype="timedelta64[ns]")
        d["revisit"] = pd.Series([td(q["b"]) for q in pts], dtype="timedelta64[ns]")
    else:
        d["latency"] = pd.Series([td(q["b"]) for q in pts], dtype="timedelta64[ns]")
    d["samples"] = pd.Series([q["n"] for q in pts], dtype="int")
    p = gpd.GeoDataFrame(d, crs="EPSG:4326")
    if cindex is not None:
        c.index = cindex
    if pindex is not None:
        p.index = pindex
    return c, p


def project(gdf, kind):
    rows = []
    b = col(gdf, "revisit" if kind == "obs" else "latency")
    a = col(gdf, "access") if kind == "obs" else [None] * len(b)
    for i, g, n, x, y in zip(col(gdf, "cell_id"), gdf.geometry, col(gdf, "samples"), a, b):
        if g.geom_type == "MultiPolygon" and len(g.geoms) == 1:
            g = g.geoms[0]
        if g.geom_type != "Polygon":
            raise ShapeError("geometry " + g.geom_type)
        ring = [[round(u * U), round(v * U)] for u, v in zip(*g.exterior.coords.xy)][:-1]
        if not g.exterior.is_ccw:
            ring = ring[::-1]
        rows.append({"id": int(i), "n": int(n), "a": dms(x) if kind == "obs" else NA, "b": dms(y), "ring": ring})
    return rows


def event(tag, kind, cells, pts, cindex=None, pindex=None):
    if kind == "lat":
        pts = [dict(q, a=NA) for q in pts]
    c, p = frames(cells, pts, kind, cindex, pindex)
    f = grid_observations if kind == "obs" else grid_latencies
    st, rows = guarded(lambda: project(f(p, c), kind))
    return dict(kind=f"{tag}_{kind}", inp={"cells": cells, "pts": pts}, out={"status": st, "rows": rows or []})


def chained(r, kind, cells, pts):
    """Gridding of what the real reduction returns: n records of each point, all with the values of the point where defined."""
    if kind == "lat":
        pts = [dict(q, a=NA) for q in pts]
    if r.random() < 0.25:  # no point observed twice / downlinked at all
        pts = [dict(q, b=NA) for q in pts]
    pts = [dict(q, n=min(q["n"], 4)) for q in pts]
    recs = []
    for k, q in enumerate(pts):
        some = r.randrange(q["n"])
        recs += [{"p": k, "x": 10 * q["x"], "y": 10 * q["y"], "a": 60000 if kind == "lat" else q["a"], "b": q["b"] if j == some or r.random() < 0.6 else NA}
                 for j in range(q["n"])]
    r.shuffle(recs)
    c, _ = frames(cells, pts, kind)
    red, f = (reduce_observations, grid_observations) if kind == "obs" else (reduce_latencies, grid_latencies)
    st, rows = guarded(lambda: project(f(red(C05.frame(recs, kind)), c), kind))
    return dict(kind=f"chain_{kind}", inp={"cells": cells, "pts": pts}, out={"status": st, "rows": rows or []}, repro={"records": recs})


def run_case(case):
    cells, pts = case
    cells = [{"id": q["id"], "ring": [[100 * x, 100 * y] for x, y in q["ring"]]} for q in cells]
    pts = [{"x": 100 * q["x"], "y": 100 * q["y"], "n": q["n"], "a": 1000 * q["a"],
            "b": NA if q["b"] == NA else 1000 * q["b"]} for q in pts]
    return [event("model", k, cells, pts) for k in ("obs", "lat")]


def convex(r):
    from shapely.geometry import MultiPoint
    from shapely.geometry.polygon import orient
    x0, y0 = r.randint(-15000, 12000), r.randint(-8000, 6000)
    w, h = r.randint(300, 3000), r.randint(300, 2500)
    if r.random() < 0.5:
        return [[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]]
    g = orient(MultiPoint([(x0 + r.randint(0, w), y0 + r.randint(0, h)) for _ in range(6)]).convex_hull)
    if g.geom_type != "Polygon":
        return [[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]]
    return [[int(x), int(y)] for x, y in list(g.exterior.coords)[:-1]]


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(16):
        kind = r.choice(["obs", "lat"])
        nc, n = r.randint(1, 6), r.randint(0, 14)
        ids = r.sample(range(100), nc)
        if r.random() < 0.5:
            x0, y0, s = r.randint(-150, 0) * 100, r.randint(-80, 20) * 100, r.choice([500, 1000])
            cells = [{"id": i, "ring": [[x0 + (k % 3) * s, y0 + (k // 3) * s], [x0 + (k % 3 + 1) * s, y0 + (k // 3) * s],
                                        [x0 + (k % 3 + 1) * s, y0 + (k // 3 + 1) * s], [x0 + (k % 3) * s, y0 + (k // 3 + 1) * s]]}
                     for k, i in enumerate(ids)]
        else:
            cells = [{"id": i, "ring": convex(r)} for i in ids]
        pts = []
        wm, am, bm = r.choice([(20, 10 ** 6, 4 * 10 ** 6)] * 3 + [(2, 10 ** 8, 15 * 10 ** 7)])
        n = min(n, 6) if wm == 2 else n
        for _ in range(n):
            ring = r.choice(cells)["ring"]
            xs, ys = [q[0] for q in ring], [q[1] for q in ring]
            x, y = r.randint(min(xs), max(xs)), r.randint(min(ys), max(ys))
            if r.random() < 0.15:
                x, y = r.randint(-17000, 17000), r.randint(-8500, 8500)
            pts.append({"x": x, "y": y, "n": r.randint(1, wm), "a": r.randint(0, am),
                        "b": NA if r.random() < 0.15 else r.randint(0, bm)})
        evs.append(event("random", kind, cells, pts, r.choice([None, r.sample(range(500), nc)]),
                         r.choice([None, r.sample(range(500), n), r.sample(range(n), n)])))
        if n:
            evs.append(chained(r, kind, cells, pts))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in ctx.sample(ctx.cases["MC_C06"], ctx.scale(300, 4000))]
    ctx.pmap(run_case, cases)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(20, 180))])


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        return
    k = rng.randrange(len(rows))
    what = rng.choice(["n", "b", "drop", "dup", "id", "ring"])
    if what == "drop":
        del rows[k]
    elif what == "dup":
        rows.append(dict(rows[k]))
    elif what == "b" and rows[k]["b"] == NA:
        rows[k]["b"] = 0
    elif what == "id":
        rows[k]["id"] += 1000
    elif what == "ring":
        rows[k]["ring"][0][0] += 1
    else:
        rows[k][what] += 5
    yield what, ev
