"""C05: reduction computes per-point means over exactly the defined values."""
import json
import random

import geopandas as gpd
import pandas as pd
from shapely.geometry import Point

from tables import obs_frame, at, dms, mdeg, col
from framework import guarded, ShapeError, NA
from tatc.analysis import (aggregate_observations, reduce_observations, compute_latencies, reduce_latencies)
import C04

MC = [("MC_C05", "MC_C05", "MC_C05_thorough")]
TRACE = "TR_C05"
RULE = ("TLC checks that accumulating records in every order gives the per-point sums; all small tables are replayed "
        "into reduce_observations and reduce_latencies, plus random tables (1-30 records, up to 6 points, missing "
        "revisits/latencies anywhere, shuffled rows and row labels) and tables produced by the real aggregation.")
ASSUMPTIONS = ["means are compared to one millisecond", "all records of one point carry the same location"]


def td(v):
    return pd.NaT if v == NA else pd.Timedelta(milliseconds=v)


def frame(recs, kind, index=None):
    d = {"point_id": [r["p"] for r in recs],
         "geometry": [Point(r["x"] / 1000, r["y"] / 1000, r.get("z", 0)) for r in recs],
         "satellite": ["S"] * len(recs), "instrument": ["I"] * len(recs)}
    if kind == "obs":
        d["start"] = [pd.Timestamp(at(10 ** 6 * k)) for k in range(len(recs))]
        d["epoch"] = d["start"]
        d["end"] = [pd.Timestamp(at(10 ** 6 * k + r["a"])) for k, r in enumerate(recs)]
        d["access"] = pd.Series([td(r["a"]) for r in recs], dtype="timedelta64[ns]")
        d["revisit"] = pd.Series([td(r["b"]) for r in recs], dtype="timedelta64[ns]")
    else:
        d["sat_alt"] = [45.0] * len(recs)
        d["sat_az"] = [45.0] * len(recs)
        d["station"] = [None if r["b"] == NA else "G" for r in recs]
        d["downlinked"] = pd.Series([pd.NaT if r["b"] == NA else pd.Timestamp(at(r["b"])) for r in recs],
                                    dtype="datetime64[ns, UTC]")
        d["latency"] = pd.Series([td(r["b"]) for r in recs], dtype="timedelta64[ns]")
        d["observed"] = [pd.Timestamp(at(0)) for _ in recs]
    gdf = gpd.GeoDataFrame(d, crs="EPSG:4326")
    if index is not None:
        gdf.index = index
    return gdf


def project(gdf, kind):
    if "point_id" not in gdf.columns:
        raise ShapeError("no column point_id")
    rows = []
    b = col(gdf, "revisit" if kind == "obs" else "latency")
    a = col(gdf, "access") if kind == "obs" else [None] * len(b)
    for p, g, n, x, y in zip(col(gdf, "point_id"), gdf.geometry, col(gdf, "samples"), a, b):
        if g.geom_type == "MultiPoint" and len(g.geoms) == 1:
            g = g.geoms[0]
        if g.geom_type != "Point":
            raise ShapeError("geometry " + g.geom_type)
        rows.append({"p": int(p), "n": int(n), "a": dms(x) if kind == "obs" else 0, "b": dms(y),
                     "x": mdeg(g.x), "y": mdeg(g.y), "z": round(g.z) if g.has_z else NA})
    return rows


def call(gdf, kind):
    f = reduce_observations if kind == "obs" else reduce_latencies
    return guarded(lambda: project(f(gdf), kind))


def event(tag, kind, recs, index=None):
    st, rows = call(frame(recs, kind, index), kind)
    return dict(kind=f"{tag}_{kind}", inp=recs, out={"status": st, "rows": rows or []})


def run_case(case):
    evs = []
    for kind in ("obs", "lat"):
        recs = [{"p": p, "a": a * 1000 if kind == "obs" else 0, "b": NA if b == NA else b * 1000,
                 "x": 1000 * p, "y": -2000 * p, "z": 300 * p} for p, a, b in case]
        evs.append(event("model", kind, recs))
    return evs


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(20):
        kind = r.choice(["obs", "lat"])
        n, am, bm = r.choice([(r.randint(1, 30), 10 ** 6, 5 * 10 ** 6), (r.randint(1, 30), 10 ** 6, 5 * 10 ** 6), (r.randint(1, 6), 10 ** 8, 3 * 10 ** 8)])
        pids = r.sample(range(60) if r.random() < 0.7 else [-3, 0, 8, 10 ** 6, 2 * 10 ** 9, 17], r.randint(1, 6))
        recs = [{"p": r.choice(pids), "a": r.randint(0, am) if kind == "obs" else 0,
                 "b": NA if r.random() < 0.35 else r.randint(0, bm)} for _ in range(n)]
        for q in recs:
            q["x"], q["y"], q["z"] = 1000 * (q["p"] % 90), -500 * (q["p"] % 70), 100 * (q["p"] % 9) - 300
        index = r.choice([None, r.sample(range(1000), n), [0] * n if r.random() < .3 else None])
        evs.append(event("random", kind, recs, index))
    # tables produced by the real aggregation / latency computation
    for _ in range(6):
        obs = obs_frame(C04.random_obs(r))
        st, agg = guarded(lambda: aggregate_observations(obs))
        if st != "ok" or not {"access", "revisit"} <= set(agg.columns):
            continue
        recs = [{"p": int(p), "a": dms(a), "b": dms(b), "x": mdeg(g.x), "y": mdeg(g.y), "z": round(g.z) if g.has_z else NA}
                for p, a, b, g in zip(agg.point_id, agg.access, agg.revisit, agg.geometry)]
        st, rows = call(agg, "obs")
        evs.append(dict(kind="real_obs", inp=recs, out={"status": st, "rows": rows or []}))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in ctx.sample(ctx.cases["MC_C05"], ctx.scale(350, 5000))]
    ctx.pmap(run_case, cases)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(16, 150))])


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    k = rng.randrange(len(rows))
    what = rng.choice(["n", "a", "b", "x", "drop", "dup", "p"])
    if what == "drop":
        del rows[k]
    elif what == "dup":
        rows.append(dict(rows[k]))
    elif what == "b" and rows[k]["b"] == NA:
        rows[k]["b"] = 0
    elif what == "p":
        rows[k]["p"] += 1000
    else:
        rows[k][what] += 5
    yield what, ev
