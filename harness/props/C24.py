"""C24: footprint outlines, limbs and projected rays."""
import json
import math
import random
from datetime import timedelta

import numpy as np
from framework import guarded, ShapeError
from orbits import BASE, no_repeat, random_orbit, sat_of
from shapely.geometry import Point
from tracks import State, cmp, frame, ground, hit, tan, turn, xyz
from tatc import config, utils
from tatc.schemas import Instrument, PointedInstrument

MC = [("MC_C24", "MC_C24", "MC_C24_thorough")]
TRACE = "TR_C24"
RULE = ("TLC checks, in the view plane, that the outline of what is seen runs along the field of view or the limb, contains the "
        "pointing, and only grows as the view widens, for all small ellipses and rectangles, displacements and Earth discs; the "
        "shapes are replayed as instruments of real satellites, every vertex traced back to view coordinates.")
ASSUMPTIONS = ["off-nadir views partly or wholly beyond the limb are judged ray by ray, not as outlines (the outline crosses itself there)",
               "vertices inserted where an outline is split at the antimeridian or a pole are not judged here (C19): three fifths of the vertices of a split outline must be exact",
               "containment of the centre and growth are judged for fields of view up to 70 degrees and up to four times longer than wide, in footprints below 70 degrees latitude, where edges straight in longitude and latitude stay close to the true outline"]


def view(st, lon, lat, elev):
    """View coordinates (tangents) of a ground point, and the satellite's elevation angle there (degrees)."""
    d = xyz(lon, lat, elev) - st.p
    b, v, n = frame(st)
    k = np.linalg.solve(np.array([b, n, v]).T, d)
    return k[1] / k[0], k[2] / k[0], st.sat_altaz(lon, lat, elev)[0]


def clamp(x):
    return int(max(-30000, min(30000, round(x))))


def coords(g):
    if g.geom_type not in ("Polygon", "MultiPolygon"):
        raise ShapeError(g.geom_type)
    ps = [g] if g.geom_type == "Polygon" else list(g.geoms)
    return [c for p in ps for ring in [p.exterior, *p.interiors] for c in ring.coords]


def distinct(cs):
    out = []
    for c in cs:
        if not out or math.hypot(c[0] - out[-1][0], c[1] - out[-1][1]) > 1e-7:
            out.append(c)
    if len(out) > 1 and math.hypot(out[0][0] - out[-1][0], out[0][1] - out[-1][1]) <= 1e-7:
        out.pop()
    return out


def outline_rays(c, a, roll, pitch, rect, n=720):
    for k in range(n):
        t = 2 * math.pi * k / n
        x, y = math.cos(t), math.sin(t)
        if rect:
            m = max(abs(x), abs(y))
            x, y = x / m, y / m
        yield tan(roll) + x * tan(c / 2), tan(pitch) + y * tan(a / 2)


def misses(st, c, a, roll, pitch, rect, elev):
    if c >= 179.9 or a >= 179.9:
        return "all" if c >= 179.9 and a >= 179.9 else "some"
    h = [ground(st, x, y, elev) is None for x, y in outline_rays(c, a, roll, pitch, rect)]
    if not any(h):
        # stay clear of grazing rays
        return "no" if all(st.sat_altaz(*ground(st, x, y, elev))[0] > 1 for x, y in outline_rays(c, a, roll, pitch, rect, 90)) else "some"
    return "all" if all(h) and c < 60 and a < 60 else "some"


def dev(a, b):
    """How far the vertices of two outlines are apart (1e-6 degree)."""
    if a.is_empty or b.is_empty:
        return 0 if a.is_empty and b.is_empty else 1000000
    return min(1000000, math.ceil(a.hausdorff_distance(b) * 1e6))


def interior(cs):
    return [c for c in cs if abs(c[0]) < 179.9999 and abs(c[1]) < 89.99]


def z_ok(g, elev):
    return all(len(c) > 2 and abs(c[2] - elev) < 1e-6 for c in coords(g))


def outline(kind, r, orbit, sat, times, spec, elev, n):
    c, a, roll, pitch, rect, form = spec
    if form == "nadir":
        ins = Instrument(name="i", field_of_regard=c)
    elif form == "pointed":
        ins = PointedInstrument(name="p", field_of_regard=180, cross_track_field_of_view=c, along_track_field_of_view=a, roll_angle=roll,
                                pitch_angle=pitch, is_rectangular=rect)
    if form == "nadir":
        c = a = min(c, 180)
    states = [State(sat, t) for t in times]
    if roll or pitch:
        keep = [k for k, s in enumerate(states) if misses(s, c, a, roll, pitch, rect, elev) == "no"]
        times, states = [times[k] for k in keep], [states[k] for k in keep]
        if not times:
            return []
    wide = (min(1.3 * c, 180), min(1.3 * a, 180))

    def make(track, cc, aa, method=True):
        if form == "plain" or not method:
            return utils.compute_footprint(track, cc, aa, roll, pitch, rect, n, elev)
        return ins.compute_footprint(track, n, elev)

    def centre(track):
        if form == "plain":
            return utils.compute_projected_ray_position(track, 0, 0, roll, pitch, False, 0, elev)
        return ins.compute_footprint_center(track, elev)
    evs = []

    def run():
        tle = orbit.to_tle()
        track = tle.get_orbit_track(list(times))
        gs = make(track, c, a)
        gs = gs if isinstance(gs, list) else [gs]
        if len(gs) != len(times):
            raise ShapeError("count")
        cs = centre(track)
        out = []
        for k, (s, g) in enumerate(zip(states, gs)):
            one = tle.get_orbit_track(times[k])
            alone = make(one, c, a)
            big = make(one, *wide, method=False)
            cs_ = distinct(coords(g))
            vs = []
            for q in interior(cs_):
                x, y, el = view(s, q[0], q[1], elev)
                vs.append((clamp(10000 * (x - tan(roll)) / tan(c / 2)), clamp(10000 * (y - tan(pitch)) / tan(a / 2)), round(1000 * el)))
            single = g.geom_type == "Polygon" and len(interior(cs_)) == len(cs_)
            lo, la = float(np.ravel(cs.longitude.degrees)[k]), float(np.ravel(cs.latitude.degrees)[k])
            w = ground(s, tan(roll), tan(pitch), elev)
            cc = []
            if w is not None:
                cc += [cmp("centre_lon", turn(lo, w[0]), w[0], 1e4, max(2, 2 / max(0.01, math.cos(math.radians(w[1]))))), cmp("centre_lat", la, w[1], 1e4, 2)]
            cc.append(cmp("elevation", 1.0 * z_ok(g, elev), 1, 1, 0))
            where = "none" if w is None else "in" if g.contains(Point(w[0], w[1])) else "out"
            if where == "out" and (abs(w[0]) > 179.99 or g.boundary.distance(Point(w[0], w[1])) < 0.02):
                where = "edge"
            lost = g.difference(big).area / max(g.area, 1e-12) * 10000
            out.append({"vs": [dict(u=u, w=v, el=e) for u, v, e in vs], "distinct": len(cs_), "single": single,
                        "angs": [round(10000 * math.atan2(v, u) / 2 / math.pi) % 10000 for u, v, _ in vs] if single else [],
                        "centre": where, "alone": dev(g, alone), "lost": math.ceil(min(lost, 1e6)), "cmp": cc,
                        "low": max(abs(q[1]) for q in coords(big)) < 70})
        return out
    st, res = guarded(run)
    num = n if n is not None else (config.rc.footprint_points_rectangular_side if rect and form != "nadir" else config.rc.footprint_points_elliptical)
    empty = {"vs": [], "distinct": 0, "single": False, "angs": [], "centre": "none", "alone": 0, "lost": 0, "cmp": []}
    for k, s in enumerate(states):
        o = dict(res[k]) if res else dict(empty, low=False)
        low = o.pop("low")
        ms = misses(s, c, a, roll, pitch, rect, elev)
        evs.append(dict(kind=kind, inp={"rect": rect, "miss": ms, "n": num, "low": low and (ms == "no" or (roll == 0 and pitch == 0)) and (c == a or (max(c, a) <= 70 and max(c, a) <= 4 * min(c, a)))}, out={"status": st, **o},
                        repro={"time": str(times[k]), "orbit": orbit.model_dump_json(), "view": [c, a, roll, pitch, rect, form], "elev": elev, "n": n}))
    return evs


def limb(r, orbit, sat, times, elev, n):
    states = [State(sat, t) for t in times]
    kw = {} if n is None else {"number_points": n}
    if elev:
        kw["elevation"] = elev

    def run():
        tle = orbit.to_tle()
        gs = utils.compute_limb(tle.get_orbit_track(list(times)), **kw)
        if len(gs) != len(times):
            raise ShapeError("count")
        out = []
        for k, (s, g) in enumerate(zip(states, gs)):
            cs_ = distinct(coords(g))
            vs = [round(1000 * s.sat_altaz(q[0], q[1], elev)[0]) for q in interior(cs_)]
            alone = utils.compute_limb(tle.get_orbit_track(times[k]), **kw)
            out.append({"vs": [dict(u=0, w=0, el=e) for e in vs], "distinct": len(cs_), "single": g.geom_type == "Polygon" and len(interior(cs_)) == len(cs_),
                        "centre": "in" if g.contains(Point(s.lon, s.lat)) else "out", "alone": dev(g, alone), "cmp": [cmp("elevation", 1.0 * z_ok(g, elev), 1, 1, 0)],
                        "low": max(abs(q[1]) for q in coords(g)) < 70 and abs(abs(s.lon) - 180) > 0.1})
        return out
    st, res = guarded(run)
    evs = []
    for k, s in enumerate(states):
        o = dict(res[k]) if res else {"vs": [], "distinct": 0, "single": False, "centre": "in", "alone": 0, "cmp": [], "low": False}
        low = o.pop("low")
        evs.append(dict(kind="limb", inp={"n": n or 16, "low": low}, out={"status": st, **o}, repro={"time": str(times[k]), "orbit": orbit.model_dump_json(), "elev": elev, "n": n}))
    return evs


def ray(r, orbit, sat, t, elev):
    s = State(sat, t)
    c, a, roll, pitch, rect = r.choice([5, 30, 90, 130]), r.choice([2, 20, 80]), r.choice([0, 20, -40]), r.choice([0, 10, -30]), r.random() < 0.5
    ang = r.choice([r.uniform(0, 2 * math.pi), r.uniform(0, 2 * math.pi), r.choice([0, 0.5, 1, 1.5]) * math.pi])
    x, y = math.cos(ang), math.sin(ang)
    if rect:
        m = max(abs(x) / tan(c / 2), abs(y) / tan(a / 2))
        x, y = x / m, y / m
    else:
        x, y = x * tan(c / 2), y * tan(a / 2)
    w = ground(s, tan(roll) + x, tan(pitch) + y, elev)
    if w is not None and s.sat_altaz(*w)[0] < 1:
        return []

    def run():
        g = utils.compute_projected_ray_position(orbit.to_tle().get_orbit_track(t), c, a, roll, pitch, rect, ang, elev)
        lo, la, h = float(g.longitude.degrees), float(g.latitude.degrees), float(g.elevation.m)
        cc = [] if w is None else [cmp("lon", turn(lo, w[0]), w[0], 1e4, max(2, 2 / max(0.01, math.cos(math.radians(w[1]))))),
                                   cmp("lat", la, w[1], 1e4, 2), cmp("height", h, w[2], 1, 1)]
        return {"v": {"u": 0, "w": 0, "el": round(1000 * s.sat_altaz(lo, la, h)[0])}, "cmp": cc}
    st, o = guarded(run)
    return [dict(kind="ray", inp={"hits": w is not None, "rect": rect}, out={"status": st, **(o or {"v": {"u": 0, "w": 0, "el": 0}, "cmp": []})},
                 repro={"time": str(t), "orbit": orbit.model_dump_json(), "view": [c, a, roll, pitch, rect, ang], "elev": elev})]


def setup(r):
    o = random_orbit(r)
    return o, sat_of(o.to_tle().tle), BASE + timedelta(seconds=r.randint(-40000, 40000))


def deg(t):
    return math.degrees(math.atan(t))


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    no_repeat()
    evs = []
    for c, a, dx, dy, rect in cases:
        o, sat, t0 = setup(r)
        u = r.choice([0.02, 0.08, 0.2])
        spec = (2 * deg(c * u), 2 * deg(a * u), deg(dx * u), deg(dy * u), bool(rect), r.choice(["plain", "pointed"]))
        n = None if r.random() < 0.4 else r.choice([4, 8, 24]) if rect else r.choice([9, 16, 40])
        evs += outline("model", r, o, sat, [t0], spec, r.choice([0, 0, 2000.0, -400.0, 60000.0]), n)
    return evs


def run_random(seed):
    r = random.Random(seed)
    no_repeat()
    o, sat, t0 = setup(r)
    evs = []
    times = [t0 + timedelta(seconds=r.choice([1, 60, 500]) * i) for i in range(r.choice([1, 2, 4]))]
    rect = r.random() < 0.5
    n = None if r.random() < 0.4 else r.choice([4, 8, 24]) if rect else r.choice([9, 16, 40])
    form = r.choice(["plain", "pointed", "nadir"])
    if form == "nadir":
        f = r.choice([1, 10, 45, 90, 120, 170, 180, 200, 300, 360])
        spec, n = (f, f, 0, 0, False, form), None if r.random() < 0.5 else r.choice([9, 16, 40])
    else:
        spec = (r.choice([1, 20, 60, 100, 150]), r.choice([1, 10, 50, 120]), r.choice([0, 0, 20, -35, 50, -60]), r.choice([0, 0, 15, -25, 50]), rect, form)
    evs += outline("random", r, o, sat, times, spec, r.choice([0, 0, 500.0, 5000.0, -20000.0, 80000.0]), n)
    evs += limb(r, o, sat, times[:2], r.choice([0, 0, 10000.0, -60000.0, 100000.0]), r.choice([None, 8, 40]))
    for _ in range(4):
        evs += ray(r, o, sat, t0 + timedelta(seconds=r.uniform(0, 5000)), r.choice([0, 0, 3000.0, -60000.0, 90000.0]))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C24"]))]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(450, 2000)))
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::32]) for i in range(32)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(120, 1000))], chunk=2)


def corrupt(ev, rng):
    o, q = ev["out"], ev["in"]
    if ev["kind"] == "ray":
        if not o["cmp"]:
            return
        c = rng.choice(o["cmp"])
        c["got"] += c["tol"] + 1
        yield "cmp", ev
        return
    what = rng.choice(["vertex", "alone", "count"])
    if what == "vertex" and o["vs"] and o["single"]:
        v = rng.choice(o["vs"])
        v["el"] = -2000
    elif what == "alone":
        o["alone"] = 500
    elif o["single"] and ev["kind"] != "limb" and q["miss"] == "no":
        o["distinct"] += 2
    else:
        return
    yield what, ev
