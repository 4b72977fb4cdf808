"""C26: dilution of precision."""
import json
import math
import random
import warnings
from datetime import timedelta, timezone

import numpy as np
from framework import guarded, i32, ShapeError
from C16 import repeat_motion
from orbits import BASE, RE, TS, no_repeat, period_s, random_orbit, sat_of, tle_lines, with_repeat
from tracks import State, geodetic, xyz
from tatc.analysis import DopMethod, compute_dop
from tatc.schemas import CircularOrbit, Instrument, Point, GroundStation, Satellite, TwoLineElements, WalkerConstellation

MC = [("MC_C26", "MC_C26", "MC_C26_thorough")]
TRACE = "TR_C26"
RULE = ("TLC checks, with exact integer Gram matrices, that the dilution is defined only with four independent directions, that its "
        "components are sums of squares, and that a further satellite never increases any of them, for all small skies; each sky is "
        "replayed as real satellites placed in those directions, and constellations are sampled; expected values come from "
        "Earth-fixed satellite positions propagated independently.")
ASSUMPTIONS = ["satellites within 1e-5 degrees of the minimum elevation and geometries within 1e-6 of singular may go either way",
               "satellites that share an element set to choose from are judged with the set whose epoch is closest (C15)"]
DIRS = [(0, 0, 1), (1, 0, 0), (-1, 1, 0), (0, -1, 1), (1, 0, -1), (-1, -1, 1), (1, 1, 1), (0, -1, 0),
        (-1, 0, 1), (0, 1, 0), (-1, 1, -1), (1, -1, 1), (-1, 0, 0), (1, 1, 0)]
METHODS = ["gdop", "pdop", "hdop", "vdop", "tdop"]


def enu(point):
    la, lo = math.radians(point.latitude), math.radians(point.longitude)
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0.0])
    return east, np.cross(up, east), up


def lines_at(orbit, t):
    """The element set of the orbit closest to a time."""
    tle = orbit.to_tle().tle
    if len(tle) == 2:
        return tle
    k = min(range(0, len(tle), 2), key=lambda i: abs(sat_of(tle[i:i + 2]).epoch.utc_datetime() - t))
    return tle[k:k + 2]


def place(r, point, d, t, alt):
    """A satellite seen from the point in direction d (east, north, up) at time t."""
    e, n, u = enu(point)
    d = d[0] * e + d[1] * n + d[2] * u
    d = d / np.linalg.norm(d)
    p = xyz(point.longitude, point.latitude, point.elevation)
    b = p @ d
    q = p + d * (-b + math.sqrt(b * b + (RE + alt) ** 2 - p @ p))
    lat = math.degrees(math.asin(q[2] / np.linalg.norm(q)))
    ra = math.degrees(math.atan2(q[1], q[0])) + TS.from_datetime(t).gmst * 15
    down = r.random() < 0.5
    raan, ma = (ra % 360, lat % 360) if not down else ((ra + 180) % 360, (180 - lat) % 360)
    if r.random() < 0.5:
        return TwoLineElements(tle=tle_lines(90.0, raan % 359.9999, 0.0, 0.0, ma % 359.9999, 86400 / period_s(alt), t))
    return CircularOrbit(altitude=alt, inclination=90, right_ascension_ascending_node=raan % 360, true_anomaly=ma % 360, epoch=t)


def look(sats, point, t):
    """Unit directions (east, north, up) and elevations (degrees) of the satellites."""
    e, n, u = enu(point)
    out = []
    for s in sats:
        d = State(sat_of(lines_at(s.orbit, t)), t).p - xyz(point.longitude, point.latitude, point.elevation)
        d = d / np.linalg.norm(d)
        out.append((d @ e, d @ n, d @ u))
    return out, [math.degrees(math.asin(max(-1, min(1, x[2])))) for x in out]


def expected(dirs):
    h = np.array([(*d, 1.0) for d in dirs]).reshape(-1, 4)
    s = np.linalg.svd(h, compute_uv=False) if len(h) else np.zeros(0)
    if len({tuple(d) for d in dirs}) < 4:
        return "yes", [0] * 5
    if s[-1] < 1e-6:
        return "near", [0] * 5
    c = np.diag(np.linalg.inv(h.T @ h))
    v = [math.sqrt(x) for x in (c.sum(), c[:3].sum(), c[:2].sum(), c[2], c[3])]
    return ("near" if v[0] > 1e4 else "no"), v


def sc(x):
    return i32(None if x is None or math.isnan(x) else x * 1e4)


def call(times, point, sats, min_el, method, mincount, dflt=False):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = compute_dop(times, point, sats, min_el, method) if dflt else compute_dop(times, point, sats, min_el, method, mincount)
    if len(f) != len(times):
        raise ShapeError("rows")
    return f


def scene(kind, r, times, point, sats, min_el, mincount):
    r.shuffle(sats)
    views = [look(sats, point, t) for t in times]
    # a further satellite, somewhere in the sky
    extra = Satellite(name="x", orbit=place(r, point, (r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(0.5, 1)), times[0], 20200e3), instruments=[Instrument(name="i")])

    def run():
        fs = [call(times, point, sats, min_el, DopMethod(m), mincount) for m in METHODS]
        shuffled = r.sample(sats, len(sats))
        order = r.sample(range(len(times)), len(times))
        res = {"v": [f.dop.tolist() for f in fs], "table": fs[r.randrange(5)]}
        sh = call(times, point, shuffled, min_el, DopMethod.GDOP, mincount).dop.tolist()
        mixed = call([times[i] for i in order], point, sats, min_el, "gdop", mincount, dflt=mincount == 3).dop.tolist()
        mixed = [mixed[order.index(i)] for i in range(len(times))]
        plus = call(times, point, sats + [extra], min_el, DopMethod.GDOP, mincount).dop.tolist()
        k = r.randrange(len(times))
        alone, shown = {}, {}
        for k in {k, 0}:
            alone[k] = call([times[k]], point, sats, min_el, DopMethod.GDOP, mincount).dop.tolist()[0]
            seen = [s for s, e in zip(sats, views[k][1]) if e >= min_el]
            shown[k] = call([times[k]], point, seen, min_el, DopMethod.GDOP, mincount).dop.tolist()[0]
        again = call(times, point, list(sats), min_el, DopMethod.GDOP, mincount).dop.tolist()
        res["others"] = [[sh[i], mixed[i], again[i], alone.get(i, sh[i]), shown.get(i, sh[i])] for i in range(len(times))]
        res["plus"] = plus
        return res
    st, o = guarded(run)
    repro = {"times": [str(t) for t in times], "point": point.model_dump_json(), "sats": [s.orbit.model_dump_json() for s in sats], "min_el": min_el,
             "mincount": mincount}
    if st != "ok":
        return [dict(kind=kind, inp={}, out={"status": st}, repro=repro)]
    f = o["table"]
    evs = [dict(kind="table", inp={"a": 0}, repro=repro, out={
        "status": "ok", "rows": len(f), "times": len(times), "labels": [t.timestamp() for t in f.index] == [t.timestamp() for t in times],
        "located": all(g.geom_type == "Point" and abs(g.x - point.longitude) < 1e-9 and abs(g.y - point.latitude) < 1e-9 for g in f.geometry),
        "crs": f.crs is not None and f.crs.to_epsg() == 4326})]
    for i, t in enumerate(times):
        dirs, els = views[i]
        seen = [d for d, e in zip(dirs, els) if e >= min_el]
        sing, w = expected(seen)
        evs.append(dict(kind=kind, repro={**repro, "i": i}, inp={"vis": len(seen), "amb": any(abs(e - min_el) < 1e-5 for e in els), "min": mincount,
                        "sing": sing, "w": [sc(x) for x in w]},
                        out={"status": "ok", "v": [sc(v[i]) for v in o["v"]], "others": [sc(x) for x in o["others"][i]], "plus": sc(o["plus"][i])}))
    return evs


def some_point(r):
    d = dict(latitude=r.choice([0, 35.0, -52.3, 78.0, 90, -90, r.uniform(-89, 89)]), longitude=r.choice([0, 180, -180, r.uniform(-180, 180)]),
             elevation=r.choice([0, 0, 2500.0, 8000]))
    return Point(id=r.randint(0, 9), **d)


def some_times(r, n):
    t = [BASE + timedelta(seconds=r.randint(-86400, 86400), microseconds=r.choice([0, 250000])) for _ in range(n)]
    if r.random() < 0.5:
        t.sort()
    if n > 2 and r.random() < 0.2:
        t[-1] = t[0]
    return [x.astimezone(timezone(timedelta(hours=5))) if r.random() < 0.1 else x for x in t]


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    no_repeat()
    evs = []
    for thr, sky in cases:
        p = some_point(r)
        if abs(p.latitude) > 89:
            p = Point(id=0, latitude=12, longitude=50)
        t = some_times(r, 1)
        sats = []
        for k in sky:
            x, y, z = DIRS[k - 1]
            # low ones stand 10, high ones 55 degrees up (z and the diagonal keep their place)
            d = (x, y, {0: 0.18, 1: 1.5, -1: -0.5}[z])
            sats.append(Satellite(name=f"s{len(sats)}", orbit=place(r, p, d, t[0], r.choice([20200e3, 1200e3, 8000e3])), instruments=[Instrument(name="i")]))
        if len(sats) > 3 and r.random() < 0.15:
            sats[1] = sats[0]
        evs += scene("model", r, t, p, sats, {0: 0.0, 1: 30}[thr], r.choice([3, 3, 4, 2, 0]))
    return evs


def multi(r, t):
    """A satellite with several element sets."""
    lines = []
    for k in range(r.choice([2, 3])):
        e = t + timedelta(seconds=21600 * k - 21600)
        lines += tle_lines(55.0, r.uniform(0, 359), 0.001, 10.0, r.uniform(0, 359), 86400 / period_s(20200e3), e)
    return TwoLineElements(tle=lines)


def run_random(seed):
    r = random.Random(seed)
    repeat = r.random() < 0.08
    (with_repeat if repeat or r.random() < 0.3 else no_repeat)()
    p = some_point(r)
    k = r.choice(["walker", "walker", "leo", "mixed"]) if not repeat else "repeat"
    times = some_times(r, r.choice([1, 2, 5, 9]))
    ins = [Instrument(name="i", field_of_regard=r.choice([10, 180]))]
    if k == "walker":
        t, pl = r.choice([(24, 6), (12, 3), (8, 2), (27, 3)])
        sats = WalkerConstellation(name="w", orbit=CircularOrbit(altitude=r.choice([20180e3, 8000e3]), inclination=r.choice([55, 86.0, 64.8]), epoch=BASE,
                                   true_anomaly=r.uniform(0, 359)), number_satellites=t, number_planes=pl, relative_spacing=1, instruments=ins).generate_members()
    elif k == "leo":
        sats = [Satellite(name=f"s{i}", orbit=random_orbit(r, alt=r.choice([1500e3, 2500e3])), instruments=ins) for i in range(r.choice([10, 30]))]
    elif k == "repeat":
        # orbits with a repeat cycle, asked for days later: the dilution is that of the propagated positions
        sats = []
        for i in range(r.choice([8, 16])):
            inc, rev, days = r.choice([(51.6, 15, 1), (97.5, 15, 1), (66.0, 14, 1), (98.0, 29, 2), (60.0, 44, 3)])
            e = BASE - timedelta(days=r.choice([4, 8, 12]))
            o = TwoLineElements(tle=tle_lines(inc, r.uniform(0, 359), 0.0004, 90, r.uniform(0, 359), repeat_motion(inc, rev, days), e))
            sats.append(Satellite(name=f"s{i}", orbit=o, instruments=ins))
        return scene("repeat", r, times[:2], p, sats, r.choice([-90, -30, -20.0]), r.choice([3, 4]))
    else:
        sats = [Satellite(name=f"s{i}", orbit=multi(r, BASE) if r.random() < 0.4 else random_orbit(r, alt=r.uniform(1e6, 2.5e7)), instruments=ins)
                for i in range(r.choice([0, 3, 6, 12]))]
    return scene("random", r, times, p, sats, r.choice([0, 5, 10.0, 15, 25, -90]), r.choice([3, 3, 4, 5, 2]))


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C26"]))]
    small = [c for c in cases if len(c[1]) < 4]
    big = [c for c in cases if len(c[1]) >= 4]
    rng = ctx.rng("c")
    cases = rng.sample(small, min(len(small), ctx.scale(60, 300))) + rng.sample(big, min(len(big), ctx.scale(500, 4000)))
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::32]) for i in range(32)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(120, 1200))], chunk=2)


def corrupt(ev, rng):
    o, q = ev["out"], ev["in"]
    if ev["kind"] == "table":
        k = rng.choice(["labels", "located", "crs"])
        o[k] = False
        yield k, ev
        return
    if q["amb"] or q["sing"] == "near":
        return
    if o["v"][0] == -2147483647:
        o["v"][2] = 12345
        yield "present", ev
        return
    k = rng.choice(["v", "o", "plus", "na"])
    if k == "v":
        o["v"][rng.randrange(5)] += 30000
    elif k == "o":
        o["others"][rng.randrange(5)] += 30000
    elif k == "na":
        o["v"][rng.randrange(5)] = -2147483647
    else:
        o["plus"] = o["v"][0] * 2
    yield k, ev
