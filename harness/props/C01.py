"""C01: downlink contacts are exactly the visible periods inside the window."""
import json
import random
from datetime import timedelta

import numpy as np

from orbits import (no_repeat, random_orbit, sat_of, passes, wgs84, CircularOrbit, tle_lines, TwoLineElements)
from tables import BASE, at, ms, mdeg, col
from framework import guarded, NA
from tatc.analysis import collect_downlinks
from tatc.schemas import GroundStation, Satellite

MC = [("MC_C01", "MC_C01", "MC_C01_thorough")]
TRACE = "TR_C01"
RULE = ("TLC checks the sweep for every visibility function and every window of a bounded timeline; each abstract window shape "
        "(start in/out of a pass, end in/out of a pass, transitions in between) is realised against the true passes of seeded "
        "satellites (TLE, circular, sun synchronous, Keplerian; 300-2000 km, medium and highly eccentric orbits with periods up to a day, geostationary) over seeded stations, "
        "with windows cut at arbitrary points before and after culmination, and minimum access times between the pass lengths, or exactly as long as a window that lies inside a pass; stations may share a name.")
ASSUMPTIONS = ["true passes come from dense sampling and bisection of skyfield elevations, independent of its event search",
               "times within 1.5 s; passes shorter than 25 s may be missed by skyfield's search",
               "for orbits of more than five hours or eccentricity above 0.01, windows in which skyfield's own event search misses a rise or set are skipped", "repeat cycles disabled (see C16)"]
HOR = 86400.0


def transitions(ps, a, b):
    """Transitions in ms of passes within the horizon [a, b] (seconds)."""
    tr = []
    for s, e in ps:
        if s <= a:
            tr.append({"t": round(a * 1000) - 10 ** 6, "k": "rise"})
        else:
            tr.append({"t": round(s * 1000), "k": "rise"})
        if e < b:
            tr.append({"t": round(e * 1000), "k": "set"})
    return tr


def project(gdf):
    rows = []
    for st, sat, s, e, ep, g in zip(*(col(gdf, c) for c in ("station", "satellite", "start", "end", "epoch")), gdf.geometry):
        rows.append({"st": st, "sat": sat, "s": ms(s), "e": ms(e), "ep": ms(ep), "x": mdeg(g.x), "y": mdeg(g.y), "z": round(g.z) if g.has_z else NA})
    return rows


def windows(r, ps, shapes, n, HOR=HOR):
    """Windows (ms) realising abstract shapes against the passes of one station."""
    out = []
    for _ in range(n):
        up0, up1, k = r.choice(shapes)
        # candidate anchors: index of pass for the start
        if not ps:
            a = r.uniform(0, HOR - 4000)
            out.append((a, a + r.uniform(60, 3000)))
            continue
        i = r.randrange(len(ps))

        def inside(p):
            s, e = p
            return s + (e - s) * r.choice([0.02, 0.2, 0.45, 0.55, 0.8, 0.98])

        def gap_after(j):
            lo = ps[j][1] if j >= 0 else 0.0
            hi = ps[j + 1][0] if j + 1 < len(ps) else HOR
            return lo + (hi - lo) * r.choice([0.02, 0.3, 0.7, 0.98])
        # position of the start: inside pass i or in the gap before it
        if up0:
            a = inside(ps[i])
            j = i  # passes up to i have begun
            sets = i
        else:
            a = gap_after(i - 1)
            j = i - 1
        # advance k transitions
        x, vis = j, bool(up0)
        for _ in range(k):
            if vis:
                vis = False
            else:
                x += 1
                vis = True
        if x >= len(ps):
            b = HOR - 1
        elif vis:
            b = inside(ps[x])
        else:
            b = gap_after(x)
        if b <= a:
            b = a + r.uniform(20, 400)
        out.append((max(0.0, a), min(HOR - 1, b)))
    return out


def high_orbit(r):
    """An orbit above 2000 km, with its horizon (seconds)."""
    epoch = BASE + timedelta(seconds=r.randint(-86400, 86400))
    k = r.random()
    if k < 0.2:
        return CircularOrbit(altitude=35786e3 + r.randint(-1000, 1000), inclination=r.choice([0.05, 1.0]), true_anomaly=r.uniform(0, 359),
                             right_ascension_ascending_node=r.uniform(0, 359), epoch=BASE), HOR
    if k < 0.7:
        alt = r.choice([4e6, 8.062e6, 12e6, 16e6, 20.2e6, 24e6, 30e6])
        return CircularOrbit(altitude=alt, inclination=r.choice([0.5, 3.0, 10.0, 30.0, 56.0, 98.0, 150.0]), true_anomaly=r.uniform(0, 359),
                             right_ascension_ascending_node=r.uniform(0, 359), epoch=epoch), (1 if alt < 1e7 else 4 if alt < 22e6 else 6) * HOR
    n, ecc = r.choice([(2.0057, 0.72), (2.27, 0.73), (1.0027, 0.27), (2.0057, 0.15), (4.5, 0.5), (9.0, 0.3), (12.0, 0.1)])
    return TwoLineElements(tle=tle_lines(r.choice([5.0, 28.5, 63.4, 116.6]), r.uniform(0, 359), ecc, r.choice([0, 90, 270, 200]), r.uniform(0, 359), n, epoch)), 3 * HOR


def search_finds(sat, q, ps, a, b):
    """Whether skyfield's own search reports the true rises and sets within (a, b) (ms)."""
    topos = wgs84.latlon(q["latitude"], q["longitude"], q["elevation"])
    tt, ev = sat.find_events(topos, wgs_time(a / 1000), wgs_time(b / 1000), q["min_elevation_angle"])
    got = [((t.utc_datetime() - BASE).total_seconds(), int(k)) for t, k in zip(tt, ev) if k != 1]
    want = sorted([(s, 0) for s, _ in ps if a / 1000 < s < b / 1000] + [(e, 2) for _, e in ps if a / 1000 < e < b / 1000])
    return len(got) == len(want) and all(k == j and abs(x - y) < 1.4 for (x, k), (y, j) in zip(got, want))


def run_sat(args):
    seed, shapes, nwin = args
    no_repeat()
    r = random.Random(seed)
    orbit, hor = high_orbit(r) if r.random() < 0.35 else (random_orbit(r), HOR)
    st, tle = guarded(lambda: orbit.to_tle().tle)
    if st != "ok":
        return [dict(kind="convert", inp={"t0": 0, "t1": 1, "sat": "", "st": []}, out={"status": st, "rows": []})]
    sat = sat_of(tle)
    sub = wgs84.subpoint_of(sat.at(wgs_time(r.uniform(0, hor))))
    stations, truth = [], []
    for k in range(r.choice([1, 1, 2, 3, 5])):
        lat, lon = r.choice([(r.uniform(-80, 80), r.uniform(-180, 180)), (max(-85, min(85, sub.latitude.degrees + r.uniform(-5, 5))), sub.longitude.degrees)])
        lat, lon = round(lat, 3), round(min(180, max(-180, lon)), 3)
        if r.random() < 0.08:
            lat, lon = r.choice([(90, 0), (-90, 0), (lat, 180), (lat, -180), (0, 0), (lat, 0)])
        el = r.choice([0, 0, 5.0, 10.0, 20.0, 35.0, 62.0, 75.0, 85.0]) if abs(lat - sub.latitude.degrees) < 6 else r.choice([0, 0, 5.0, 10.0, 20.0, 35.0])
        h = r.choice([0, 0, 0, 1500.0, -300.0, 8000.0])
        step = 15.0 if hor == HOR else 60.0
        ps = passes(sat, wgs84.latlon(lat, lon, h), 0.0, hor, el, step if el < 50 else step / 5)
        stations.append(dict(name=stations[0]["name"] if k and r.random() < 0.3 else f"G {k}", latitude=lat, longitude=lon, elevation=h, min_elevation_angle=el))
        truth.append(ps)
    satellite = Satellite(name=f"sat{r.randint(0, 9)}", orbit=orbit)
    evs = []
    pick = [ps for ps in truth if ps] or truth
    for a, b in windows(r, r.choice(pick), shapes, nwin, hor):
        a, b = round(a * 1000), round(b * 1000)
        if r.random() < 0.1:
            a, b = 0, round(hor * 1000) - 1000
        durs = [min(e * 1000, b) - max(s * 1000, a) for ps in truth for s, e in ps if min(e * 1000, b) > max(s * 1000, a)]
        sts, ins = [], []
        for q, ps in zip(stations, truth):
            m = 0
            if r.random() < 0.6 and durs:
                m = max(0, round(r.choice([min(durs) - 8000, (min(durs) + max(durs)) / 2, r.choice(durs) + 8000, r.choice(durs) - 8000]) / 100) * 100)
            if r.random() < 0.6 and any(s * 1000 < a - 2000 and e * 1000 > b + 2000 for s, e in ps):
                m = b - a + r.choice([0, 0, 1, -1])
            sts.append(GroundStation(min_access_time=timedelta(milliseconds=m), **q))
            ins.append({"name": q["name"], "x": mdeg(q["longitude"]), "y": mdeg(q["latitude"]), "z": round(q["elevation"]), "minacc": m,
                        "trans": transitions(ps, 0.0, hor)})
        if hor > HOR and not all(search_finds(sat, q, ps, a, b) for q, ps in zip(stations, truth)):
            continue
        arg = sts if len(sts) > 1 or r.random() < 0.5 else sts[0]
        st, rows = guarded(lambda: project(collect_downlinks(arg, satellite, at(a), at(b))))
        evs.append(dict(kind="window", inp={"t0": a, "t1": b, "sat": satellite.name, "st": ins},
                        out={"status": st, "rows": rows or []},
                        repro={"orbit": orbit.model_dump(mode="json"), "stations": [s.model_dump(mode="json") for s in sts]}))
    return evs


def wgs_time(s):
    from orbits import t_of
    return t_of(s)


def drive(ctx):
    shapes = sorted({tuple(json.loads(c)) for c in ctx.cases["MC_C01"]})
    n = ctx.scale(60, 500)
    ctx.pmap(run_sat, [(f"{ctx.seed}/{i}", shapes, 14) for i in range(n)], chunk=1)


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        return
    k = rng.randrange(len(rows))
    what = rng.choice(["s", "e", "ep", "drop", "dup", "x", "st"])
    if what == "drop":
        if rows[k]["e"] - rows[k]["s"] < 40000:
            return
        del rows[k]
        # only reject when the dropped contact was mandatory: leave a mark for the oracle
        st = {s["name"]: s for s in ev["in"]["st"]}
        if any(s["minacc"] > 0 for s in st.values()):
            return
    elif what == "dup":
        rows.append(dict(rows[k]))
    elif what == "st":
        rows[k]["st"] = "nowhere"
    elif what in ("s", "e"):
        rows[k][what] += 5000
        rows[k]["ep"] += 2500
    else:
        rows[k][what] += 5000
    yield what, ev
