"""C16: repeat cycles fold tracks and events without loss or invention."""
import json
import random
from datetime import timedelta

import numpy as np

from framework import guarded, ShapeError
from orbits import tle_lines, BASE, TwoLineElements, sat_of, TS, wgs84, itrs, period_s
from tatc import config
from tatc.schemas import Point

MC = [("MC_C16", "MC_C16", "MC_C16_thorough")]
TRACE = "TR_C16"
RULE = ("TLC runs every short history of cycle queries (two tolerances, lazy or not), setting changes, track and event queries, and checks caching, "
        "folding and unrolling; every history is replayed on real repeat and non-repeat orbits, the returned positions being identified with the "
        "offsets from the epoch they belong to and the returned events compared with the unrolled first cycle.")
ASSUMPTIONS = ["fields of the orbit are not reassigned", "positions are identified within 100 m, events within 60 ms",
               "queries within 10 ms of a cycle boundary may go either way"]
NARROW = dict(max_delta_position=0.5, max_delta_velocity=0.01)


def repeat_motion(inc, R, D):
    """Mean motion (rev/day) such that R nodal revolutions take D nodal days (J2)."""
    n = R / D
    for _ in range(50):
        a = (398600.4418 * (86400 / (2 * np.pi * n)) ** 2) ** (1 / 3)
        f = 1.5 * 1.08262668e-3 * (6378.137 / a) ** 2
        i = np.radians(inc)
        node = -f * n * 360 * np.cos(i)
        perigee = f * n * 360 * (2 - 2.5 * np.sin(i) ** 2)
        n += (R * (360.98564736629 - node) / D - perigee - n * 360) / 360
    return n


def true_cycle(sat, epoch, dp=10000, dv=10, el=88, days=30):
    """First return over the initial ground point, milliseconds, 0 if none."""
    t0 = TS.from_datetime(epoch)
    p0, v0 = (x for x in sat.at(t0).frame_xyz_and_velocity(itrs))
    g = wgs84.subpoint_of(sat.at(t0))
    ts, es = sat.find_events(g, TS.from_datetime(epoch + timedelta(minutes=10)), TS.from_datetime(epoch + timedelta(days=days)), el)
    for t, e in zip(ts, es):
        if e == 1:
            p, v = (x for x in sat.at(t).frame_xyz_and_velocity(itrs))
            if np.linalg.norm(p.m - p0.m) < dp and np.linalg.norm(v.m_per_s - v0.m_per_s) < dv:
                return (t.utc_datetime() - epoch) / timedelta(milliseconds=1)
    return 0


def make_orbit(r):
    k = r.random()
    if k < 0.8:
        inc, R, D = r.choice([(51.6, 15, 1), (97.5, 15, 1), (66.0, 14, 1), (98.0, 29, 2), (60.0, 44, 3), (82.0, 43, 3)])
        lines = tle_lines(inc, r.uniform(0, 359), 0.0004, 90, r.uniform(0, 359), repeat_motion(inc, R, D))
    else:
        lines = tle_lines(r.choice([45.0, 75.0]), r.uniform(0, 359), 0.001, 90, r.uniform(0, 359), 15.03 + 0.1 * r.random())
    multi = r.random() < 0.12
    if multi:
        lines = lines + tle_lines(60.0, 10, 0.001, 0, 0, 15.2, BASE + timedelta(days=60))
    return TwoLineElements(tle=lines), multi


def history(r, o, multi, ops):
    sat = sat_of(o.tle[:2])
    epoch = sat.epoch.utc_datetime()
    wide = true_cycle(sat, epoch)
    narrow = 0 if wide == 0 else true_cycle(sat, epoch, NARROW["max_delta_position"], NARROW["max_delta_velocity"])
    W = int(round(wide))
    full = []

    def kw(x, name):
        return {} if x == "default" else {name: x == "yes"}

    def times(offs):
        return [epoch + timedelta(milliseconds=x) for x in offs]

    def matches(p, v, off):
        """Offsets whose directly propagated position and velocity are the returned ones."""
        c = {off}
        if W:
            c |= {off + k * W for k in range(-9, 10)} | {-off}
        c = sorted(x for x in c if abs(x) < 1000000000)
        g = sat.at(TS.from_datetimes(times(c)))
        d = np.linalg.norm(g.position.m.T - p, axis=1)
        e = np.linalg.norm(g.velocity.km_per_s.T - v, axis=1) * 1000
        # positions are in the celestial frame: a folded position is rotated back by the code's time stamp, so compare as given
        return [int(x) for x, y, z in zip(c, d, e) if y < 100 and z < 0.2]

    def run():
        keep = config.rc.model_copy()
        res = []
        try:
            config.rc.repeat_cycle_lazy_load = config.rc.repeat_cycle_for_orbit_track = config.rc.repeat_cycle_for_observation_events = True
            for op in ops:
                if op[0] == "cycle":
                    c = o.get_repeat_cycle(**(NARROW if op[1] == "narrow" else {}), **kw(op[2], "lazy_load"))
                    res.append({"got": 0 if c is None else int(round(c / timedelta(milliseconds=1)))})
                elif op[0] == "set":
                    config.rc.repeat_cycle_lazy_load, config.rc.repeat_cycle_for_orbit_track, config.rc.repeat_cycle_for_observation_events = op[1:]
                    res.append({"ok": True})
                elif op[0] == "track":
                    span = min((W or 86400000) * r.choice([4, 4, 8]), 900_000_000)
                    offs = [r.randint(-span, span) for _ in range(r.choice([1, 3, 6]))]
                    if r.random() < 0.3:
                        offs[0] = r.choice([0, W + 500, -W - 500, 2 * W - 500, W // 2])
                    if len(offs) == 1 and r.random() < 0.6:
                        t = o.get_orbit_track(times(offs)[0], **kw(op[1], "try_repeat"))
                        pos, vel, tt = [t.position.m], [t.velocity.km_per_s], [t.t.tt]
                    else:
                        t = o.get_orbit_track(times(offs), **kw(op[1], "try_repeat"))
                        pos, vel, tt = t.position.m.T, t.velocity.km_per_s.T, t.t.tt
                    if len(pos) != len(offs) or len(vel) != len(offs):
                        raise ShapeError("track length")
                    res.append({"offs": offs, "match": [matches(np.array(p), np.array(v), x) for p, v, x in zip(pos, vel, offs)],
                                "times": bool(np.allclose(tt, TS.from_datetimes(times(offs)).tt, rtol=0, atol=1e-8))})
                else:
                    a = r.choice([0, r.randint(-86400000, 86400000)])
                    base = W or 86400000
                    b = a + r.choice([base // 2, base - 60000, base + 60000, base + r.randint(1, base), 2 * base + 3600000, 3 * base + r.randint(0, base)])
                    cap = 7 * 86400000
                    if W and W < 1.1 * 86400000 and r.random() < 0.08:  # many cycles
                        cap = 15 * 86400000
                        b = a + r.randint(8, 13) * base + r.choice([r.randint(0, base), 3600000])
                    b = min(b, a + cap)
                    pt = Point(id=1, latitude=r.choice([-50, 0, 30, 45, 85]), longitude=r.choice([-100, 10, 170]))
                    el = r.choice([0.0, 20.0, 45.0, 85.0])
                    if r.random() < 0.3:  # the window opens inside a pass
                        g = wgs84.subpoint_of(sat.at(TS.from_datetime(times([a])[0])))
                        pt, el = Point(id=1, latitude=round(g.latitude.degrees, 2), longitude=round(g.longitude.degrees, 2)), 20.0
                    topos = wgs84.latlon(pt.latitude, pt.longitude, 0)

                    def lib(x, y):
                        tt, ee = sat.find_events(topos, TS.from_datetime(times([x])[0]), TS.from_datetime(epoch + timedelta(milliseconds=y)), el)
                        return [[int(round((q.utc_datetime() - epoch) / timedelta(milliseconds=1))), int(c)] for q, c in zip(tt, ee)]
                    if W and r.random() < 0.4:  # the window closes next to an event of a later cycle
                        f = lib(a, a + wide)
                        if f:
                            b = min(r.choice(f)[0] + r.randint(1, 3) * W + r.choice([-1, 1]) * r.choice([300, 5000, 20000, 60000]), a + cap)
                    t, e = o.get_observation_events(pt, times([a])[0], times([b])[0], el, **kw(op[1], "try_repeat"))
                    got = [[int(round((q.utc_datetime() - epoch) / timedelta(milliseconds=1))), int(c)] for q, c in zip(t, e, strict=True)]
                    res.append({"a": a, "b": b, "got": got, "first": lib(a, a + wide) if W else [], "direct": lib(a, b)})
        finally:
            for k in type(keep).model_fields:
                setattr(config.rc, k, getattr(keep, k))
        return res
    st, res = guarded(run)
    return dict(kind="multi" if multi else "repeat" if W else "none", inp={"ops": ops, "wide": W, "narrow": int(round(narrow)), "multi": multi},
                out={"status": st, "res": res or []}, repro={"tle": list(o.tle)})


DEFAULTS = dict(max_delta_position=10000, max_delta_velocity=10, min_elevation_angle=88, max_search_duration=timedelta(days=30))


def candidates(sat, epoch, days):
    """[time ms, peak elevation mdeg, distance dm, speed difference mm/s] of every culmination over the initial point."""
    t0 = TS.from_datetime(epoch)
    p0, v0 = (x for x in sat.at(t0).frame_xyz_and_velocity(itrs))
    g = wgs84.subpoint_of(sat.at(t0))
    ts, es = sat.find_events(g, TS.from_datetime(epoch + timedelta(minutes=10)), TS.from_datetime(epoch + timedelta(days=days)), 5)
    out = []
    for t, e in zip(ts, es):
        if e == 1:
            p, v = (x for x in sat.at(t).frame_xyz_and_velocity(itrs))
            alt = (sat - g).at(t).altaz()[0].degrees
            out.append([int(round((t.utc_datetime() - epoch) / timedelta(milliseconds=1))), int(round(alt * 1000)),
                        int(round(np.linalg.norm(p.m - p0.m) * 10)), int(round(np.linalg.norm(v.m_per_s - v0.m_per_s) * 1000))])
    return out


def near_motion(r):
    inc, R, D = r.choice([(51.6, 15, 1), (97.5, 15, 1), (66.0, 14, 1), (98.0, 29, 2), (60.0, 44, 3)])
    return tle_lines(inc, r.uniform(0, 359), 0.0004, 90, r.uniform(0, 359), repeat_motion(inc, R, D) * (1 + r.choice([0, 1e-6, 1e-5, 4e-5, 2e-4]) * r.uniform(-1, 1)))


def search_history(r):
    """Cycle queries whose tolerances lie close to what one of the candidates needs."""
    o = TwoLineElements(tle=near_motion(r))
    sat = sat_of(o.tle)
    epoch = sat.epoch.utc_datetime()
    days = r.choice([2, 4, 6])
    cands = candidates(sat, epoch, days)
    if not cands:
        return None
    c = r.choice(cands[:3] if r.random() < 0.5 else cands)
    el, dp, dv = 60000, 50_000_000, 8_000_000
    el = min(el, c[1] - 3000)
    tight = r.choice(["el", "dp", "dv", "dur", "none"])
    side = r.choice([-1, 1])
    dur = days * 86400000
    if tight == "el":
        el = c[1] - side * max(100, round(0.02 * (90000 - c[1])))
    if tight == "dp" or r.random() < 0.5:
        dp = c[2] + (side if tight == "dp" else 1) * max(2500, round(c[2] * 0.008))
    if tight == "dv" or r.random() < 0.5:
        dv = c[3] + (side if tight == "dv" else 1) * max(400, round(c[3] * 0.008))
    if tight == "dur":
        dur = c[0] + side * 180000
    # a candidate too close to a limit to call
    if not 10000 <= el < 89950 or any(abs(x[1] - el) < 60 or abs(x[2] - dp) < 2000 or abs(x[3] - dv) < 300 or abs(x[0] - dur) < 150000 for x in cands) or dp <= 0 or dv <= 0:
        return None
    near = dict(max_delta_position=dp / 10, max_delta_velocity=dv / 1000, min_elevation_angle=el / 1000, max_search_duration=timedelta(milliseconds=dur))
    via = r.choice(["args", "settings"])
    tri = ["yes", "no", "default"]
    ops = [["cycle", "near", r.choice(tri)]] if r.random() < 0.7 else []
    while len(ops) < 3:
        ops.append(r.choice([["cycle", "near", r.choice(tri)], ["cycle", "near", "no"], ["cycle", "wide", r.choice(tri)],
                             ["set", r.random() < 0.5, True, True]]))
    wide = true_cycle(sat, epoch) if any(x[:2] == ["cycle", "wide"] for x in ops) else 0

    def run():
        keep = config.rc.model_copy()
        res = []
        try:
            config.rc.repeat_cycle_lazy_load = True
            if via == "settings":
                config.rc.repeat_cycle_delta_position_m = near["max_delta_position"]
                config.rc.repeat_cycle_delta_velocity_m_per_s = near["max_delta_velocity"]
                config.rc.repeat_cycle_search_elevation_deg = near["min_elevation_angle"]
                config.rc.repeat_cycle_search_duration_days = near["max_search_duration"] / timedelta(days=1)
            for op in ops:
                if op[0] == "set":
                    config.rc.repeat_cycle_lazy_load = op[1]
                    res.append({"ok": True})
                    continue
                kw = {} if op[2] == "default" else {"lazy_load": op[2] == "yes"}
                if op[1] == "near":
                    kw.update(near if via == "args" else {})
                else:
                    kw.update({} if via == "args" else DEFAULTS)
                c = o.get_repeat_cycle(**kw)
                res.append({"got": 0 if c is None else int(round(c / timedelta(milliseconds=1)))})
        finally:
            for k in type(keep).model_fields:
                setattr(config.rc, k, getattr(keep, k))
        return res
    st, res = guarded(run)
    return dict(kind="search", inp={"ops": ops, "wide": int(round(wide)), "narrow": 0, "multi": False, "cands": cands, "el": el, "dp": dp, "dv": dv, "dur": dur},
                out={"status": st, "res": res or []}, repro={"tle": list(o.tle), "via": via, "near": {k: str(v) for k, v in near.items()}})


def run_search(args):
    seed, n = args
    r = random.Random(seed)
    evs = []
    while len(evs) < n:
        e = search_history(r)
        if e:
            evs.append(e)
    return evs


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    evs = []
    for c in cases:
        o, multi = make_orbit(r)
        while true_cycle(sat_of(o.tle[:2]), sat_of(o.tle[:2]).epoch.utc_datetime()) > 400_000_000:
            o, multi = make_orbit(r)  # a chance cycle of many days leaves no room for multiples
        if multi:
            c = [x for x in c if x[0] != "cycle"]
        evs.append(history(r, o, multi, c))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C16"]))]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(420, 4000)))
    n = 42
    ctx.pmap(run_search, [(f"{ctx.seed}/s{i}", 12) for i in range(ctx.scale(16, 120))], chunk=1)
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)


def corrupt(ev, rng):
    for op, o in zip(ev["in"]["ops"], ev["out"]["res"]):
        if op[0] == "cycle":
            o["got"] += 5000
            yield "cycle", ev
            return
        if op[0] == "track" and all(abs(x) > 1000 for x in o["offs"]):
            if ev["in"]["wide"] and any(min(abs(x) % ev["in"]["wide"], -abs(x) % ev["in"]["wide"]) < 20 for x in o["offs"]):
                return
            o["match"] = [[x + 100 for x in m] for m in o["match"]]
            yield "track", ev
            return
        if op[0] == "events" and len(o["got"]) > 2:
            W = ev["in"]["wide"]
            if W and (abs(o["b"] - o["a"] - W) < 20 or any(min((o["b"] - f[0]) % W, -(o["b"] - f[0]) % W) < 70 for f in o["first"])):
                return
            o["got"].pop(rng.randrange(len(o["got"])))
            yield "event", ev
            return
