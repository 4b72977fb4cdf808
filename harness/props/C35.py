"""C35: results depend on the instants, not on how times are written."""
import json
import random
from datetime import datetime, time as dtime, timedelta, timezone
from zoneinfo import ZoneInfo

import numpy as np
import pandas as pd

from framework import guarded, i32
from orbits import random_orbit, sat_of, tle_lines, wgs84, TS, with_repeat, no_repeat
from props.C16 import repeat_motion
from tatc import analysis as an, generation as gen
from tatc.analysis import collect_ground_pixels, collect_ground_track, collect_orbit_track, compute_ground_track
from tatc.schemas import (CircularOrbit, GroundStation, Instrument, KeplerianOrbit, MolniyaOrbit, Point, PointedInstrument, Satellite,
                          SunSynchronousOrbit, TrainConstellation, TwoLineElements, WalkerConstellation)

MC = [("MC_C35", "MC_C35", "MC_C35_thorough")]
TRACE = "TR_C35"
RULE = ("TLC carries instants through every notation of a small calendar with a repeated and a skipped hour; every interval of the model, with its ends "
        "written in each pair of zones, is placed at real changes of New York time and handed to every operation that takes times, next to the same "
        "instants in universal time.")
ASSUMPTIONS = ["element epochs carry a zone", "values are compared within two units (milliseconds, thousandths of a degree, metre or second)"]
UTC = timezone.utc
SPRING, FALL = datetime(2022, 3, 13, 7, tzinfo=UTC), datetime(2022, 11, 6, 6, tzinfo=UTC)
UNIT = timedelta(minutes=20)
ZONE = {"utc": UTC, "east": timezone(timedelta(hours=5, minutes=40)), "dst": ZoneInfo("America/New_York")}
OTHERS = {"utc": [UTC, timezone(timedelta(0), "GMT"), ZoneInfo("UTC")], "east": [ZONE["east"], timezone(timedelta(hours=14)), ZoneInfo("Asia/Kathmandu")],
          "dst": [ZONE["dst"], ZoneInfo("Canada/Eastern"), ZoneInfo("US/Eastern")]}


def flat(x, names, nums, zones, label=""):
    """A result as texts, scaled numbers and zones."""
    if isinstance(x, pd.DataFrame):
        names.append(",".join(map(str, x.columns)))
        for c in x.columns:
            if isinstance(x[c].dtype, pd.DatetimeTZDtype):
                zones.append(f"{c}:{x[c].dtype.tz}")
        for i in range(len(x)):
            if isinstance(x.index, pd.DatetimeIndex) or len(x) and isinstance(x.index[0], datetime):
                flat(x.index[i], names, nums, zones)
            for c in x.columns:
                flat(x[c].iloc[i], names, nums, zones)
    elif isinstance(x, (datetime, pd.Timestamp)) and x is not pd.NaT:
        nums.append((x - SPRING) // timedelta(milliseconds=1) % 2000000011 - 1000000005)
    elif isinstance(x, timedelta) and x is not pd.NaT:
        nums.append(i32(x / timedelta(milliseconds=1)))
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat(y, names, nums, zones)
    elif isinstance(x, np.ndarray):
        flat(x.tolist(), names, nums, zones)
    elif isinstance(x, (bool, np.bool_)):
        nums.append(int(x))
    elif isinstance(x, (int, float, np.integer, np.floating)):
        nums.append(i32(float(x) * 1000))
    elif hasattr(x, "geom_type"):
        names.append(x.geom_type)
        nums.extend([0, 0] if x.is_empty else [i32(x.centroid.x * 1000), i32(x.centroid.y * 1000), i32(x.area * 1000)])
    else:
        names.append(str(x))


def call(f):
    names, nums, zones = [], [], []

    def g():
        flat(f(), names, nums, zones)
    st, _ = guarded(g)
    return dict(outcome=st, names=names, nums=nums, zones=zones)


def near_repeat(r, epoch):
    inc, R, D = r.choice([(51.6, 15, 1), (97.5, 15, 1), (66.0, 14, 1)])
    return TwoLineElements(tle=tle_lines(inc, r.uniform(0, 359), 0.0004, 90, r.uniform(0, 359), repeat_motion(inc, R, D), epoch))


def rise_set(o, ts, es):
    return [[t.utc_datetime(), int(e)] for t, e in zip(ts, es)] if len(es) else []


def operations(r, a):
    """[name, days added to the end, f(start, end, times)] for one random scenario."""
    seed = r.random()
    orbit = random_orbit(r, alt=r.choice([500e3, 800e3, 1400e3]), epoch=a - timedelta(hours=2))
    ins = [Instrument(name="wide", field_of_regard=r.choice([90, 130]), min_access_time=timedelta(seconds=r.choice([0, 60]))),
           PointedInstrument(name="p", field_of_regard=60, cross_track_field_of_view=20, along_track_field_of_view=10, is_rectangular=True, cross_track_pixels=2)]
    s = Satellite(name="s", orbit=orbit, instruments=ins)
    sat = sat_of(orbit.to_tle().tle)
    under = wgs84.subpoint_of(sat.at(TS.from_datetime(a + timedelta(minutes=r.randint(0, 60)))))
    pt = Point(id=4, latitude=round(under.latitude.degrees, 2), longitude=round(under.longitude.degrees, 2))
    st = [GroundStation(name="g", latitude=pt.latitude, longitude=pt.longitude, min_elevation_angle=5), GroundStation(name="h", latitude=60, longitude=-100)]
    other = Satellite(name="t", orbit=CircularOrbit(altitude=600e3, inclination=70, epoch=a, true_anomaly=90), instruments=ins[:1])
    rep = near_repeat(r, a - timedelta(hours=r.choice([0, 5, 30])))
    rep.get_repeat_cycle(max_delta_position=30000, max_delta_velocity=30, min_elevation_angle=70, max_search_duration=timedelta(days=2))
    many = TwoLineElements(tle=sum((tle_lines(55.0, 20, 0.001, 10, 5 + 40 * k, 15.1, a + timedelta(hours=3 * k - 3)) for k in range(3)), []))
    gps = [Satellite(name=f"n{k}", orbit=CircularOrbit(altitude=20200e3, inclination=55, true_anomaly=45 * k, right_ascension_ascending_node=50 * k, epoch=a), instruments=[Instrument(name="i")]) for k in range(7)]
    point_far = Point(id=5, latitude=45, longitude=r.choice([-100, 10, 170]))

    g = CircularOrbit(altitude=35786e3, inclination=0.01, epoch=a)
    geo = Satellite(name="geo", orbit=g, instruments=[Instrument(name="i", field_of_regard=17)])
    below = wgs84.subpoint_of(sat_of(g.to_tle().tle).at(TS.from_datetime(a)))
    under_geo = Point(id=1, latitude=5, longitude=round(below.longitude.degrees, 1))

    def chain(x, y):
        o = an.collect_multi_observations(pt, [s, other], x, y)
        g = an.aggregate_observations(o)
        return [o, g, an.reduce_observations(g)]

    def lat(x, y):
        o = an.collect_observations(pt, s, x, y)
        c = an.compute_latencies(o, an.collect_downlinks(st, s, x, y))
        return [c, an.reduce_latencies(c)]

    def element_sets(x, y):
        out = []
        q = random.Random(seed)
        for o in (CircularOrbit(altitude=600e3, inclination=50, epoch=x), SunSynchronousOrbit(altitude=600e3, equator_crossing_time=dtime(10, 30), epoch=x),
                  KeplerianOrbit(altitude=600e3, inclination=50, eccentricity=0.01, epoch=x), MolniyaOrbit(altitude=600e3, epoch=x)):
            d = o.get_derived_orbit(q.uniform(0, 359), q.uniform(0, 359))
            out += [o.to_tle().tle, d.to_tle().tle, d.epoch, o.to_tle().get_epoch()]
        out.append(SunSynchronousOrbit(altitude=600e3, equator_crossing_time=dtime(10, 30), epoch=x).get_right_ascension_ascending_node())
        return out

    def members(x, y):
        o = CircularOrbit(altitude=600e3, inclination=50, epoch=x)
        w = [WalkerConstellation(name="w", orbit=o, instruments=ins[:1], number_satellites=4, number_planes=2), TrainConstellation(name="t", orbit=o, instruments=ins[:1], number_satellites=3, interval=timedelta(minutes=9))]
        return [[m.orbit.to_tle().tle, m.orbit.epoch] for c in w for m in c.generate_members()] + [an.collect_multi_observations(pt, w, x, y)]
    return [["observations", 0, lambda x, y, ts: an.collect_observations(pt, s, x, y)], ["chain", 0, lambda x, y, ts: chain(x, y)],
            ["in_view", 0, lambda x, y, ts: an.collect_observations(under_geo, geo, x, y)], ["downlinks", 0, lambda x, y, ts: an.collect_downlinks(st, s, x, y)], ["latencies", 0, lambda x, y, ts: lat(x, y)],
            ["events", r.choice([1, 2, 3]), lambda x, y, ts: rise_set(rep, *rep.get_observation_events(point_far, x, y, 10, try_repeat=True))],
            ["events", 0, lambda x, y, ts: rise_set(many, *many.get_observation_events(pt, x, y, 10))],
            ["partition", 0, lambda x, y, ts: [list(many.partition_by_tle_index(x, y)[0]), list(many.partition_by_tle_index(x, y)[1]), list(many.get_closest_tle_index(ts)), many.get_closest_tle_index(x)]],
            ["positions", 0, lambda x, y, ts: [(o.get_orbit_track(ts, **k).position.km * 0.1).T for o, k in ((rep, {"try_repeat": True}), (rep, {"try_repeat": False}), (many, {}))] + [rep.get_orbit_track(x, try_repeat=True).position.km]],
            ["orbit_track", 0, lambda x, y, ts: collect_orbit_track(s, ts, orbit_output="velocity", sat_sunlit=True, solar_beta=True)],
            ["ground_track", 0, lambda x, y, ts: collect_ground_track(s, ts, r2(seed).choice([0, 1]), sat_altaz=True, solar_altaz=True)],
            ["pixels", 0, lambda x, y, ts: collect_ground_pixels(s, ts, 1)],
            ["swath", 0, lambda x, y, ts: [compute_ground_track(s, ts, method=m, dissolve_orbits=False) for m in ("point", "line")]],
            ["occultations", 0, lambda x, y, ts: an.collect_ro_observations(s, gps[:3], [t for t in ts], max_yaw=80)],
            ["dilution", 0, lambda x, y, ts: an.compute_dop(ts, pt, gps, 0, "gdop")],
            ["element_sets", 0, lambda x, y, ts: element_sets(x, y)], ["members", 0, lambda x, y, ts: members(x, y)],
            ["repeat", 0, lambda x, y, ts: collect_orbit_track(Satellite(name="r", orbit=rep, instruments=ins), ts)]]


def r2(seed):
    return random.Random(seed)


def run_cases(args):
    seed, cases = args
    evs = []
    for j, c in enumerate(cases):
        r = random.Random(f"{seed}/{j}")
        base, at = (SPRING, 5) if c["a"] < 5 <= c["b"] < 13 else (FALL, 13)
        jit = timedelta(seconds=r.choice([0, 0, r.randint(0, 1100)]))
        a, b = base + (c["a"] - at) * UNIT + jit, base + (c["b"] - at) * UNIT + jit
        za, zb = r.choice(OTHERS[c["za"]]), r.choice(OTHERS[c["zb"]])
        if c["za"] == c["zb"] == "dst":
            zb = za
        (with_repeat if r.random() < 0.2 else no_repeat)()
        st, ops = guarded(lambda: operations(r, a))
        calls, log = [], []
        for name, days, f in r.sample(ops, 5) if ops else []:
            e = b + timedelta(days=days)
            short = name in ("ground_track", "pixels", "swath")
            n = r.choice([1, 2, 5]) if short else r.choice([1, 3, 20])
            step = (b - a) / 20 if not name == "occultations" else timedelta(seconds=25)
            us = [a + k * step for k in range(n if name != "occultations" else 300)]
            if r.random() < 0.3 and name not in ("occultations",):
                us = us[::-1]
            zs = [za] * len(us) if r.random() < 0.5 else [r.choice([za, zb]) for _ in us]
            ts = [u.astimezone(z) for u, z in zip(us, zs)]
            bare = [t.replace(tzinfo=None) for t in us]
            calls.append(dict(name=name, bare=call(lambda: f(a.replace(tzinfo=None), e.replace(tzinfo=None), bare))["outcome"], tried=call(lambda: f(a.astimezone(za), e.astimezone(zb), ts)), utc=call(lambda: f(a, e, us))))
            log.append([name, str(a.astimezone(za)), str(e.astimezone(zb)), [str(t) for t in ts[:4]]])
        evs.append(dict(kind=f"{c['za']}_{c['zb']}", inp={"case": c}, out={"status": st, "calls": calls}, repro={"log": log, "seed": f"{seed}/{j}"}))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C35"]))]
    r = random.Random(f"{ctx.seed}")
    r.shuffle(cases)
    # intervals across a change, both ends in the changing zone, first
    cases.sort(key=lambda c: not (c["za"] == c["zb"] == "dst" and c["oa"] != c["ob"]))
    across = [c for c in cases if c["za"] == c["zb"] == "dst" and c["oa"] != c["ob"]]
    rest = cases[len(across):]
    pick = across[:ctx.scale(100, len(across))] + rest[:ctx.scale(90, 700)]
    pick = pick * ctx.scale(1, 2)
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", pick[i::48]) for i in range(48)], chunk=1)


def corrupt(ev, rng):
    calls = [c for c in ev["out"]["calls"] if c["tried"]["nums"]]
    if not calls:
        return
    c = rng.choice(calls)["tried"]
    k = rng.choice(["nums", "names", "outcome", "bare"])
    if k == "nums":
        c["nums"][rng.randrange(len(c["nums"]))] += 50
    elif k == "names":
        c["names"].append("x")
    elif k == "bare":
        rng.choice(calls)["bare"] = "ok"
    else:
        c["outcome"] = "raise:TypeError"
    yield k, ev
