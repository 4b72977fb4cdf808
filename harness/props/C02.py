"""C02: observations are the accesses that meet every instrument requirement."""
import random
from datetime import timedelta

import numpy as np

import boot
from orbits import (no_repeat, random_orbit, sat_of, passes, wgs84, t_of, itrs, RE, CircularOrbit)
from tables import BASE, at, ms, mdeg, col
from framework import guarded, NA, ShapeError
from C01 import search_finds, transitions
from tracks import State, ground, tan
from tatc.analysis import collect_observations
from tatc.schemas import Point, Satellite, Instrument, PointedInstrument

MC = [("MC_C02", "MC_C02", "MC_C02_thorough")]
TRACE = "TR_C02"
RULE = ("TLC checks that the judgement accepts exactly the required records for every small window, condition and requirement; recorded "
        "calls: seeded satellites, points, windows cut inside and outside passes, fields of regard 15-360 degrees, minimum access times "
        "around the pass lengths, fixed access, sunlit/eclipse requirements, pointed instruments with roll/pitch, several instruments.")
ASSUMPTIONS = ["true passes from dense sampling and bisection", "records within 1.5 s; conditions that change within 3 s of the middle, or targets within "
               "8 % of the footprint edge, may go either way", "synthetic sun (see boot.py)", "repeat cycles disabled (see C16)"]
EPH = boot.EPHEMERIS


def threshold(alt, fov):
    """Elevation at which a target appears at half the field of regard from nadir."""
    if fov >= 180:
        return 0.0
    c = np.sin(np.radians(fov / 2)) * (RE + alt) / RE
    return 0.0 if c >= 1 else float(np.degrees(np.arccos(c)))


def sunlit_sat(sat, s):
    return bool(sat.at(t_of(s)).is_sunlit(EPH))


def sun_alt(topos, s):
    return float((EPH["earth"] + topos).at(t_of(s)).observe(EPH["sun"]).apparent().altaz()[0].degrees)


def in_foot(sat, topos, s, ins):
    """-1 outside, 1 inside, 0 near the edge, of the field of view at time s."""
    p, v = (x for x in sat.at(t_of(s)).frame_xyz_and_velocity(itrs))
    p, v = p.m, v.m_per_s
    g = np.array(topos.itrs_xyz.m)
    b = -p / np.linalg.norm(p)
    v = v / np.linalg.norm(v)
    n = np.cross(v, b)
    d = g - p
    # coordinates of the target ray with unit component along b in the frame (b, v, n)
    M = np.array([b, v, n]).T
    cb, cv, cn = np.linalg.solve(M, d)
    x = cn / cb - np.tan(np.radians(ins.roll_angle))
    y = cv / cb - np.tan(np.radians(ins.pitch_angle))
    x /= np.tan(np.radians(ins.cross_track_field_of_view / 2))
    y /= np.tan(np.radians(ins.along_track_field_of_view / 2))
    q = max(abs(x), abs(y)) if ins.is_rectangular else np.hypot(x, y)
    return 1 if q < 0.92 else -1 if q > 1.08 else 0


def amb(vals, yes, no):
    return yes if all(v > 0 for v in vals) else no if all(v < 0 for v in vals) else "amb"


def conditions(sat, topos, period, ins):
    m = (period[0] + period[1]) / 2000.0
    pr = [m - 1.5, m, m + 1.5]
    return {"self": amb([1 if sunlit_sat(sat, s) else -1 for s in pr], "lit", "dark"),
            "target": amb([0 if abs(sun_alt(topos, s)) < 0.02 else sun_alt(topos, s) for s in pr], "lit", "dark"),
            "foot": amb([in_foot(sat, topos, s, ins) for s in pr], "in", "out") if isinstance(ins, PointedInstrument) else "in"}


def clip(tr, a, b):
    """Periods (ms) of the transitions clipped to [a, b]; mirrors Visibility.tla."""
    out, op = [], (a if tr and tr[0]["k"] == "set" else None)
    for t in tr:
        if t["t"] <= a:
            op = a if t["k"] == "rise" else None
        elif t["t"] < b:
            if t["k"] == "rise":
                op = t["t"]
            else:
                out.append((op, t["t"]))
                op = None
    if op is not None and a < b:
        out.append((op, b))
    return out


def wrap(got, want):
    """got shifted by whole turns next to want (degrees)."""
    return want + (got - want + 180) % 360 - 180


def project(gdf, sat, topos, solar):
    rows = []
    n = len(gdf)
    names = ["point_id", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"]
    vals = [col(gdf, c) for c in names]
    sol = [col(gdf, c) for c in ("sat_sunlit", "solar_alt", "solar_az", "solar_time")] if solar else None
    for k in range(n):
        p, sn, inn, s, e, ep, alt, az = (v[k] for v in vals)
        g = gdf.geometry.iloc[k]
        t = ms(ep) / 1000.0
        a, z, _ = (sat - topos).at(t_of(t)).altaz()
        cmp_ = [["sat_alt", alt, a.degrees, 4], ["sat_az", wrap(az, z.degrees), z.degrees, 5 + int(8 / max(0.01, np.cos(a.radians)))]]
        if solar:
            o = (EPH["earth"] + topos).at(t_of(t)).observe(EPH["sun"]).apparent()
            sa, sz, _ = o.altaz()
            ha = o.hadec()[0].hours
            cmp_ += [["sat_sunlit", 1.0 * bool(sol[0][k]), 1.0 * sunlit_sat(sat, t), 0],
                     ["solar_alt", sol[1][k], sa.degrees, 4],
                     ["solar_az", wrap(sol[2][k], sz.degrees), sz.degrees, 3 + int(3 / max(0.02, np.cos(sa.radians)))],
                     ["solar_time", sol[3][k], ha + 12, 2]]
        rows.append({"p": int(p), "x": mdeg(g.x), "y": mdeg(g.y), "z": round(g.z) if g.has_z else NA, "sat": sn, "ins": inn, "s": ms(s), "e": ms(e), "ep": ms(ep),
                     "cmp": [{"name": c[0], "got": mdeg(c[1]), "want": mdeg(c[2]), "tol": c[3]} for c in cmp_]})
    return rows


def random_instrument(r, k=0, pointed=True):
    kw = dict(name=f"I{k}", field_of_regard=r.choice([r.choice([15.0, 40.0, 70.0, 100.0, 130.0, 180.0, 180.0, 300.0, 360.0]), round(r.uniform(5, 145), 1)]),
              req_self_sunlit=r.choice([None, None, True, False]), req_target_sunlit=r.choice([None, None, True, False]),
              access_time_fixed=r.random() < 0.25)
    if pointed and r.random() < 0.35:
        return PointedInstrument(cross_track_field_of_view=r.choice([3.0, 10.0, 30.0, 60.0]), along_track_field_of_view=r.choice([3.0, 10.0, 30.0, 60.0]),
                                 roll_angle=r.choice([0, 15.0, -20.0, 35.0]), pitch_angle=r.choice([0, 0, 5.0, 10.0]), is_rectangular=r.random() < 0.5, **kw)
    return Instrument(**kw)


def req(x):
    return "none" if x is None else "lit" if x else "dark"


def run_sat(seed):
    no_repeat()
    r = random.Random(seed)
    edges = "/h" in seed  # pointed instruments and targets well above the datum only
    high = r.random() < 0.2 and not edges
    orbit = random_orbit(r)
    if high:
        alt = r.choice([4e6, 8.062e6, 14e6, 20.2e6, 35786e3])
        orbit = CircularOrbit(altitude=alt, inclination=0.05 if alt > 3e7 else r.choice([0.5, 3.0, 30.0, 56.0, 120.0]), true_anomaly=r.uniform(0, 359),
                              right_ascension_ascending_node=r.uniform(0, 359), epoch=BASE)
    st, tle = guarded(lambda: orbit.to_tle().tle)
    if st != "ok":
        return []
    sat = sat_of(tle)
    instruments = [random_instrument(r, k, not high) for k in range(r.choice([1, 2, 3, 5]))]
    if edges:
        instruments = [PointedInstrument(name="E", field_of_regard=r.choice([120, 140]), cross_track_field_of_view=r.choice([10, 30, 50]), along_track_field_of_view=r.choice([20, 30]),
                                         roll_angle=r.choice([30, -30, 20, 10]), is_rectangular=r.random() < 0.5)]
    evs = []
    for _ in range(5):
        idx = r.randrange(len(instruments))
        ins = instruments[idx]
        a = r.uniform(0, 86400)
        length = 3000 if edges else r.choice([5400, 12000, 30000, 500]) if not high else r.choice([5400, 30000, 86400, 172800])
        # a point near the ground track inside the window
        tm = a + r.uniform(0, length)
        sub = wgs84.subpoint_of(sat.at(t_of(tm)))
        lim = 62 if isinstance(ins, PointedInstrument) else 88
        lat = round(max(-lim, min(lim, sub.latitude.degrees + r.uniform(-3, 3))), 3)
        lon = round((sub.longitude.degrees + r.uniform(-3, 3) + 180) % 360 - 180, 3)
        h = r.choice([0, 0, 0, 800.0, -400.0])
        if lim == 88 and r.random() < 0.06:
            lat, lon = r.choice([(round(lat, 3), 180.0), (lat, -180.0), (90.0, 0.0), (-90.0, 0.0), (0.0, lon), (lat, 0.0)])
        if isinstance(ins, PointedInstrument) and (edges or r.random() < 0.7):
            # a target near the edge of what the instrument sees at tm
            h = r.choice([0, 0, 800.0, 8000.0])
            w = [np.tan(np.radians(x / 2)) for x in (ins.cross_track_field_of_view, ins.along_track_field_of_view)]
            f = r.choice([0.3, 0.85, 0.85, 1.15, 1.15]) * r.choice([-1, 1])
            j = r.randrange(2)
            g = ground(State(sat, BASE + timedelta(seconds=tm)), tan(ins.roll_angle) + (f * w[0] if j == 0 else 0), tan(ins.pitch_angle) + (f * w[1] if j else 0), h)
            if edges or r.random() < 0.4:  # between the edges of what is seen at the target's height and at the datum
                h, f, j = r.choice([8000.0, 30000.0, 60000.0]), (1 if ins.roll_angle >= 0 else -1), 0
                look = (State(sat, BASE + timedelta(seconds=tm)), tan(ins.roll_angle) + f * w[0], tan(ins.pitch_angle))
                g, g0 = ground(*look, h), ground(*look, 0)
                u = r.choice([0.5, 0.5, -0.5])
                g = None if g is None or g0 is None or abs(g[0] - g0[0]) > 90 else (g[0] + (g0[0] - g[0]) * u, g[1] + (g0[1] - g[1]) * u)
            if g is not None and abs(g[1]) < 70:
                lon, lat = round((g[0] + 180) % 360 - 180, 3), round(g[1], 3)
        topos = wgs84.latlon(lat, lon, h)
        el = threshold(wgs84.geographic_position_of(sat.at(t_of(a))).elevation.m, ins.field_of_regard)
        lo, hi = a - 7200, a + length + 7200
        ps = passes(sat, topos, lo, hi, el, 60.0 if high else 15.0)
        # move the window boundary into a pass in some cases
        t0, t1 = round(a * 1000), round((a + length) * 1000)
        tr = transitions(ps, lo, hi)
        inside = [q for q in ps if q[1] > a and q[0] < a + length]
        if inside and r.random() < 0.5:
            q = r.choice(inside)
            t1 = max(t0 + 5000, round((q[0] + (q[1] - q[0]) * r.choice([0.1, 0.4, 0.7, 0.95])) * 1000))
        if high and not search_finds(sat, dict(latitude=lat, longitude=lon, elevation=h, min_elevation_angle=el), ps, t0, t1):
            continue
        per = clip(tr, t0, t1)
        durs = [e - s for s, e in per]
        m = 0
        if durs and r.random() < 0.6:
            m = max(0, round(r.choice([min(durs) - 8000, (min(durs) + max(durs)) / 2, r.choice(durs) + 8000, min(60000, min(durs) / 2)]) / 1000) * 1000)
        if inside and r.random() < 0.3:  # a window inside the pass, as long as the minimum access
            q = max(inside, key=lambda q: min(q[1], hi - 8) - max(q[0], lo + 8))
            if q[1] - q[0] > 60:
                t0, t1 = sorted(round((q[0] + (q[1] - q[0]) * f) * 1000) for f in r.sample([0.2, 0.35, 0.5, 0.7, 0.85], 2))
                per = clip(tr, t0, t1)
                m = t1 - t0 + r.choice([0, 0, 1, -1, -5000])
                el2 = threshold(wgs84.geographic_position_of(sat.at(t_of(t0 / 1000))).elevation.m, ins.field_of_regard)
                ps = passes(sat, topos, lo, hi, el2, 60.0 if high else 15.0)
                tr = transitions(ps, lo, hi)
                per = clip(tr, t0, t1)
                if m < 0 or high and not search_finds(sat, dict(latitude=lat, longitude=lon, elevation=h, min_elevation_angle=el2), ps, t0, t1):
                    continue
        ins = ins.model_copy(update={"min_access_time": timedelta(milliseconds=m)})
        lst = list(instruments)
        lst[idx] = ins
        satellite = Satellite(name=f"sat {r.randint(0, 9)}", orbit=orbit, instruments=lst)
        point = Point(id=r.randint(0, 999), latitude=lat, longitude=lon, elevation=h)
        solar = r.random() < 0.5 and not edges
        cond = [conditions(sat, topos, q, ins) for q in per]
        st, rows = guarded(lambda: project(collect_observations(point, satellite, at(t0), at(t1), instrument_index=idx, omit_solar=not solar), sat, topos, solar))
        cols = ["sat_alt", "sat_az"] + (["sat_sunlit", "solar_alt", "solar_az", "solar_time"] if solar else [])
        evs.append(dict(kind="solar" if solar else "plain",
                        inp={"t0": t0, "t1": t1, "trans": tr, "cond": cond,
                             "id": {"p": point.id, "x": mdeg(lon), "y": mdeg(lat), "z": round(h), "sat": satellite.name, "ins": ins.name, "cols": cols},
                             "instr": {"name": ins.name, "minacc": m, "fixed": ins.access_time_fixed, "self": req(ins.req_self_sunlit),
                                       "target": req(ins.req_target_sunlit), "pointed": isinstance(ins, PointedInstrument)}},
                        out={"status": st, "rows": rows or []},
                        repro={"satellite": satellite.model_dump(mode="json"), "point": point.model_dump(mode="json"), "index": idx}))
    return evs


def drive(ctx):
    ctx.pmap(run_sat, [f"{ctx.seed}/{i}" for i in range(ctx.scale(110, 1000))] + [f"{ctx.seed}/h{i}" for i in range(ctx.scale(30, 250))], chunk=1)


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        return
    k = rng.randrange(len(rows))
    what = rng.choice(["s", "e", "ep", "dup", "x", "ins", "cmp"])
    if what == "dup":
        rows.append(dict(rows[k]))
    elif what == "ins":
        rows[k]["ins"] += "?"
    elif what == "cmp":
        rows[k]["cmp"][0]["got"] += 500
    elif what in ("s", "e"):
        rows[k][what] += 5000
    else:
        rows[k][what] += 5000
    yield what, ev
