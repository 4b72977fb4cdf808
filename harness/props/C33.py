"""C33: gridded statistics follow from the raw observations and contacts."""
import json
import random
from datetime import timedelta

import geopandas as gpd
import pandas as pd
from shapely.geometry import Polygon

import C05
import C06
import C07
from framework import guarded, NA
from orbits import BASE, no_repeat, random_orbit
from tables import at, ms, obs_frame
from tatc.analysis import (aggregate_observations, collect_downlinks, collect_multi_observations, collect_observations, compute_latencies,
                           grid_latencies, grid_observations, reduce_latencies, reduce_observations)
from tatc.schemas import GroundStation, Instrument, Point, Satellite, TrainConstellation, WalkerConstellation

MC = [("MC_C33", "MC_C33_any", "MC_C33_any"), ("MC_C33", "MC_C33", "MC_C33_thorough")]
TRACE = "TR_C33"
RULE = ("TLC checks a machine that watches observations and contacts begin and end in time against the batch stages (connected groups, next contact, "
        "times adding up), for every pattern of up to 3 observations of 2 points by 2 satellites and their contacts, in every order of simultaneous "
        "events; the patterns are replayed through the whole chain of table functions, plus random missions and missions collected by the real "
        "library, and the per-point and gridded statistics are compared with the machine's.")
ASSUMPTIONS = ["no location is observed under two point ids and no two contacts of one satellite start together after its first observation",
               "a cell contains a point that lies in its interior", "means are compared to two milliseconds"]
U = 100.0


def chain(obs, dl, cells):
    """obs, dl: frames of the library's columns."""
    c = gpd.GeoDataFrame({"cell_id": [q["id"] for q in cells],
                          "geometry": [Polygon([(x / U, y / U) for x, y in q["ring"]]) for q in cells]}, crs="EPSG:4326")
    red = reduce_observations(aggregate_observations(obs))
    out = {"cover": C05.project(red, "obs") if len(red) else [], "covergrid": C06.project(grid_observations(red, c), "obs")}
    red = reduce_latencies(compute_latencies(obs, dl))
    out["lat"] = [dict(q, a=NA) for q in C05.project(red, "lat")] if len(red) else []
    out["latgrid"] = C06.project(grid_latencies(red, c), "lat")
    for k in ("cover", "lat"):
        out[k] = [{f: q[f] for f in ("p", "n", "a", "b")} for q in out[k]]
    for k in ("covergrid", "latgrid"):
        out[k] = [{f: q[f] for f in ("id", "n", "a", "b")} for q in out[k]]
    return out


def empty():
    return {"cover": [], "covergrid": [], "lat": [], "latgrid": []}


def event(tag, obs, dl, cells, r=None):
    """obs: [p, s, e, ep, sat, x, y] (ms, 1/U degrees); dl: [sat, s, ep]."""
    rows = [dict(o, x=o["x"] * 10, y=o["y"] * 10, ins="I") for o in obs]
    ds = [dict(d, st=f"G{k % 2}") for k, d in enumerate(dl)]
    if r:
        r.shuffle(rows)
        r.shuffle(ds)

    def run():
        # frames without rows come from the library itself
        o = obs_frame(rows) if rows else collect_observations(*NOTHING)
        d = C07.dl_frame(ds) if ds else collect_downlinks(NOWHERE, NOTHING[1], BASE, BASE + timedelta(seconds=1))
        if r and rows and ds:  # tables of any time resolution
            for f in (o, d):
                u = r.choice(["ns", "ns", "us", "ms"])
                for c in ("start", "end", "epoch"):
                    f[c] = f[c].dt.as_unit(u)
        return chain(o, d, cells)
    st, out = guarded(run)
    return dict(kind=tag, inp={"obs": obs, "dl": dl, "cells": cells}, out={"status": st, **(out or empty())})


NOTHING = (Point(id=0, latitude=89, longitude=0), Satellite(name="N", orbit=random_orbit(random.Random(1), ("circular",), alt=400e3).model_copy(update={"inclination": 5.0}),
                                                           instruments=[Instrument(name="I", field_of_regard=10)]), BASE, BASE + timedelta(minutes=1))
NOWHERE = GroundStation(name="G", latitude=89, longitude=0, min_elevation_angle=80)


def run_case(case):
    obs, dl, cells = case
    M = 60000
    cells = [{"id": q["id"], "ring": [[100 * x, 100 * y] for x, y in q["ring"]]} for q in cells]
    obs = [dict(o, s=o["s"] * M, e=o["e"] * M, ep=o["ep"] * M, x=100 * o["x"], y=100 * o["y"]) for o in obs]
    # the model places points on the raster of its cells; keep them inside
    dl = [dict(d, s=d["s"] * M, ep=d["ep"] * M) for d in dl]
    return [event("model", obs, dl, cells)]


def grid_cells(r, n):
    x0, y0, s = r.randint(-150, 100) * 100, r.randint(-60, 20) * 100, r.choice([500, 1000])
    ids = r.sample(range(100), n)
    cells = [{"id": i, "ring": [[x0 + (k % 3) * s, y0 + (k // 3) * s], [x0 + (k % 3 + 1) * s, y0 + (k // 3) * s],
                                [x0 + (k % 3 + 1) * s, y0 + (k // 3 + 1) * s], [x0 + (k % 3) * s, y0 + (k // 3 + 1) * s]]} for k, i in enumerate(ids)]
    if r.random() < 0.3:  # one cell over all
        cells.append({"id": 200, "ring": [[x0 - 50, y0 - 50], [x0 + 3 * s, y0 - 50], [x0 + 3 * s, y0 + 3 * s], [x0 - 50, y0 + 3 * s]]})
    return cells


def spot(r, cells):
    ring = r.choice(cells)["ring"]
    xs, ys = [q[0] for q in ring], [q[1] for q in ring]
    return r.randint(min(xs) + 1, max(xs) - 1), r.randint(min(ys) + 1, max(ys) - 1)


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(12):
        cells = grid_cells(r, r.randint(1, 6))
        where = {p: spot(r, cells) for p in r.sample(range(50), r.randint(1, 5))}
        T = r.choice([40, 400, 80000])
        sats = ["A", "B", "C"][: r.randint(1, 3)]
        obs = []
        for _k in range(r.choice([0, 1, 3, 8, 14])):
            p = r.choice(list(where))
            s = r.randint(0, T) * 1000
            e = s + r.randint(1, max(2, T // r.choice([4, 20]))) * 1000
            if obs and r.random() < 0.3:  # touching or nested
                q = r.choice(obs)
                p, s, e = q["p"], *r.choice([(q["e"], q["e"] + 5000), (q["s"], q["e"]), (q["s"], q["e"] + 2000), (q["e"] + 1000, q["e"] + 4000)])
            obs.append({"p": p, "s": s, "e": e, "ep": r.choice([(s + e) // 2, r.randint(s, e)]), "sat": r.choice(sats), "x": where[p][0], "y": where[p][1]})
        dl, used = [], set()
        for _k in range(r.choice([0, 1, 3, 8])):
            sat, s = r.choice(sats + ["Z"]), r.choice([r.randint(0, 2 * T) * 1000] + ([r.choice(obs)["e"]] if obs else []))
            if (sat, s) not in used:
                used.add((sat, s))
                dl.append({"sat": sat, "s": s, "ep": s + r.randint(0, T // 4 + 1) * 500})
        evs.append(event("random", obs, dl, cells, r))
    return evs


def run_mission(seed):
    """A mission collected by the library, then handed through the chain."""
    no_repeat()
    r = random.Random(seed)
    cells = grid_cells(r, r.randint(1, 6))
    pts = []
    for k in r.sample(range(50), r.randint(1, 5)):
        x, y = spot(r, cells)
        pts.append(Point(id=k, longitude=x / U, latitude=y / U))
    ins = [Instrument(name=f"I{k}", field_of_regard=r.choice([60, 100, 140])) for k in range(r.choice([1, 1, 2]))]
    orb = random_orbit(r, ("circular", "keplerian"), alt=r.choice([500e3, 800e3, 1400e3]))
    kind = r.choice(["one", "train", "walker", "two"])
    if kind == "one":
        sys_ = [Satellite(name="A", orbit=orb, instruments=ins)]
    elif kind == "two":
        sys_ = [Satellite(name="A", orbit=orb, instruments=ins), Satellite(name="B", orbit=random_orbit(r), instruments=ins)]
    elif kind == "train":
        sys_ = [TrainConstellation(name="T", orbit=orb, instruments=ins, number_satellites=3, interval=timedelta(minutes=r.choice([1, 5])), repeat_ground_track=False)]
    else:
        sys_ = [WalkerConstellation(name="W", orbit=orb, instruments=ins, number_satellites=4, number_planes=2, relative_spacing=1)]
    a, b = BASE, BASE + timedelta(hours=r.choice([3, 12, 24]))
    gs = [GroundStation(name=f"G{k}", latitude=r.randint(-70, 78), longitude=r.randint(-179, 179), min_elevation_angle=r.choice([5, 20]),
                        min_access_time=timedelta(seconds=0)) for k in range(r.choice([1, 1, 2]))]

    def run():
        mem = [m for s in sys_ for m in s.generate_members()]
        parts = [collect_multi_observations(p, sys_, a, b, omit_solar=r.random() < 0.8) for p in pts]
        o = pd.concat(parts)
        d = pd.concat([collect_downlinks(gs, m, a, b) for m in mem])
        if r.random() < 0.5:
            o, d = o.sample(frac=1, random_state=r.randrange(1000)), d.sample(frac=1, random_state=r.randrange(1000))
        raw = [{"p": int(p), "s": ms(s), "e": ms(e), "ep": ms(ep), "sat": sat, "x": round(g.x * U), "y": round(g.y * U)}
               for p, s, e, ep, sat, g in zip(o.point_id, o.start, o.end, o.epoch, o.satellite, o.geometry)]
        con = [{"sat": sat, "s": ms(s), "ep": ms(ep)} for sat, s, ep in zip(d.satellite, d.start, d.epoch)]
        return raw, con, chain(o, d, cells)
    st, v = guarded(run)
    raw, con, out = v or ([], [], empty())
    if len(raw) > 60:
        return []
    return [dict(kind="mission", inp={"obs": raw, "dl": con, "cells": cells}, out={"status": st, **out}, repro={"seed": seed})]


def drive(ctx):
    cases = [json.loads(c) for c in ctx.sample(ctx.cases["MC_C33"], ctx.scale(300, 4000))]
    ctx.pmap(run_case, cases)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(16, 160))])
    ctx.pmap(run_mission, [f"{ctx.seed}/m{i}" for i in range(ctx.scale(28, 500))])


def corrupt(ev, rng):
    o = ev["out"]
    which = [k for k in ("cover", "covergrid", "lat", "latgrid") if o[k]]
    if not which:
        return
    k = rng.choice(which)
    row = rng.choice(o[k])
    f = rng.choice([f for f in ("n", "a", "b") if row[f] != NA])
    row[f] += 1 if f == "n" else 10
    yield f"{k}_{f}", ev
