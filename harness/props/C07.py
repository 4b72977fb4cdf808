"""C07: latency pairs each observation with its satellite's next downlink."""
import json
import random

import geopandas as gpd
import pandas as pd
from shapely.geometry import Point

from tables import obs_frame, at, ms, dms, mdeg, col
from framework import guarded, ShapeError, NA
from tatc.analysis import compute_latencies

MC = [("MC_C07", "MC_C07", "MC_C07_thorough")]
TRACE = "TR_C07"
RULE = ("TLC checks the backward sweep against the declarative pairing for every pattern of observation ends and contact "
        "starts (ties included) of two satellites; the cases are replayed into compute_latencies, plus random tables of up to "
        "20 observations and 20 contacts, contacts in progress, coinciding instants, shuffled rows and arbitrary row labels.")
ASSUMPTIONS = ["observation epochs lie between start and end", "contacts of one satellite with equal start are interchangeable",
               "no downlink table at all gives an empty result (as the repository's tests demand)"]


def dl_frame(rows):
    return gpd.GeoDataFrame(
        {"station": [r["st"] for r in rows], "geometry": [Point(r.get("gx", 0), 0) for r in rows],
         "satellite": [r["sat"] for r in rows],
         "start": pd.Series([pd.Timestamp(at(r["s"])) for r in rows], dtype="datetime64[ns, UTC]"),
         "end": pd.Series([pd.Timestamp(at(2 * r["ep"] - r["s"])) for r in rows], dtype="datetime64[ns, UTC]"),
         "epoch": pd.Series([pd.Timestamp(at(r["ep"])) for r in rows], dtype="datetime64[ns, UTC]")},
        crs="EPSG:4326")


def project(gdf):
    rows = []
    cols = ["point_id", "satellite", "instrument", "observed", "station", "downlinked", "latency"]
    if len(gdf) == 0:
        return rows
    for p, sat, ins, ob, st, dn, lat, alt, az, g in zip(*(col(gdf, c) for c in cols), col(gdf, "sat_alt"), col(gdf, "sat_az"), gdf.geometry):
        if g.geom_type != "Point":
            raise ShapeError("geometry " + str(g.geom_type))
        rows.append({"id": mdeg(alt), "p": int(p), "sat": sat, "ins": ins, "ob": ms(ob), "alt": mdeg(alt), "az": mdeg(az),
                     "st": "" if st is None or st != st else st, "dn": ms(dn), "lat": dms(lat), "x": mdeg(g.x), "y": mdeg(g.y), "z": round(g.z) if g.has_z else NA})
    return rows


def event(tag, obs, dl, oi=None, di=None):
    """obs rows in table order; the satellite altitude column carries a unique mark."""
    for k, o in enumerate(obs):
        o["id"] = o["alt"] = 1000 * (k + 1)
        o["az"] = 500 * (k + 1)

    def run():
        f = obs_frame([dict(o, alt=o["alt"] / 1000, az=o["az"] / 1000) for o in obs])
        d = dl_frame(dl)
        if oi is not None:
            f.index = oi
        if di is not None:
            d.index = di
        return project(compute_latencies(f, d))
    st, rows = guarded(run)
    return dict(kind=tag, inp={"obs": obs, "dl": dl}, out={"status": st, "rows": rows or []})


def mk_o(p, s, e, ep, sat, ins="I"):
    return {"p": p, "s": s, "e": e, "ep": ep, "sat": sat, "ins": ins, "x": 1000 * p, "y": -1000 * p, "z": 250 * p - 300}


def run_case(case):
    o, d = case
    M = 60000
    obs = [mk_o(k, e * M - 30000, e * M, e * M - 15000, s) for k, (s, e) in enumerate(o)]
    dl = [{"sat": s, "s": t * M, "ep": t * M + 20000 + k, "st": f"G{k}"} for k, (s, t) in enumerate(d)]
    return [event("model", obs, dl)]


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(25):
        no, nd = r.randint(1, 20), r.randint(0 if r.random() < .2 else 1, 20)
        sats = ["A", "B", "C", "A 1"][: r.randint(1, 4)]
        T = r.choice([20, 200, 100000, 450000])
        obs = []
        for _k in range(no):
            s = r.randint(0, T) * 1000
            e = s + r.randint(0 if r.random() < 0.2 else 1, max(2, T // 4)) * 1000
            obs.append(mk_o(r.randint(-2, 5), s, e, r.choice([(s + e) // 2, s, e, r.randint(s, e)]), r.choice(sats), r.choice("xy")))
        dl = []
        for k in range(nd):
            s = r.choice([r.randint(0, 2 * T) * 1000, r.choice(obs)["e"], r.choice(obs)["s"], r.choice(obs)["e"] - 1])
            dl.append({"sat": r.choice(sats + ["Z"]), "s": s, "ep": s + r.randint(0, T // 2) * 500, "st": f"G{k % 4}"})
        evs.append(event("random", obs, dl, r.choice([None, r.sample(range(99), no)]), r.choice([None, r.sample(range(99), nd)])))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in ctx.sample(ctx.cases["MC_C07"], ctx.scale(900, 12000))]
    ctx.pmap(run_case, cases)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(16, 160))])


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        return
    k = rng.randrange(len(rows))
    what = rng.choice(["ob", "dn", "st", "lat", "drop", "dup", "x", "ins"])
    if what == "drop":
        del rows[k]
    elif what == "dup":
        rows.append(dict(rows[k]))
    elif what in ("st", "ins"):
        rows[k][what] += "?"
    elif rows[k][what] == NA:
        rows[k][what] = 7
    else:
        rows[k][what] += 7
    yield what, ev
