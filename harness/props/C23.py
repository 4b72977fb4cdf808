"""C23: ground pixels."""
import json
import math
import random
from datetime import timedelta

import numpy as np
from framework import guarded, ShapeError
from orbits import BASE, eccentric_orbit, no_repeat, random_orbit, sat_of
from C20 import around
from C21 import same_attrs
from shapely.geometry import Point
from tables import col
from tracks import State, clusters, cmp, ground, index_of, mask_forms, tan, turn, valid, where
from tatc.analysis import collect_ground_pixels
from tatc.schemas import Instrument, PointedInstrument, Satellite

MC = [("MC_C23", "MC_C23", "MC_C23_thorough")]
TRACE = "TR_C23"
RULE = ("TLC checks that emitting pixel by pixel gives every pixel of every sample once, in time order, symmetrically and evenly "
        "spread, and that a mask only selects, for all small counts and all masks; the shapes are replayed with real satellites, "
        "pixel positions compared with an independent ray/ellipsoid projection, validity and angles with an independent sun, masked "
        "results with the unmasked records inside the mask.")
ASSUMPTIONS = ["pixels whose ray misses the Earth must lie where the satellite is at the horizon",
               "pixels within 0.005 degree of the mask's boundary, or outside the instrument's own footprint, are accepted either way under a mask",
               "the field of regard covers the pointing; repeat cycles disabled"]


def instrument(r, nc, na):
    return PointedInstrument(name=f"p{r.randint(0, 9)}", field_of_regard=180, cross_track_field_of_view=r.choice([1, 5, 12.5, 30, 60]),
                             along_track_field_of_view=r.choice([0.5, 3, 10, 25]), roll_angle=r.choice([0, 0, 10, -25, 40]), pitch_angle=r.choice([0, 0, 10, -15]),
                             is_rectangular=True, cross_track_pixels=nc, along_track_pixels=na,
                             cross_track_oversampling=r.choice([0, 0, 0.25, 0.5]), along_track_oversampling=r.choice([0, 0, 0.1, 0.75]),
                             req_self_sunlit=r.choice([None, None, True, False]), req_target_sunlit=r.choice([None, None, True, False]))


def offsets(ins, i, j):
    c = (2 * i + 1 - ins.cross_track_pixels) * (1 - ins.cross_track_oversampling) * ins.cross_track_field_of_view / 2 / ins.cross_track_pixels
    a = -(2 * j + 1 - ins.along_track_pixels) * (1 - ins.along_track_oversampling) * ins.along_track_field_of_view / 2 / ins.along_track_pixels
    return c, a


def expected(st, ins, i, j, elev):
    c, a = offsets(ins, i, j)
    cone = math.hypot(c, a)
    t = tan(cone) / cone if cone else 0.0
    return ground(st, tan(ins.roll_angle) + t * c, tan(ins.pitch_angle) + t * a, elev)


def project(gdf, times, states, ins, elev, opts, name):
    rows = []
    npix = ins.cross_track_pixels * ins.along_track_pixels
    want = [[expected(s, ins, i, j, elev) for i in range(ins.cross_track_pixels) for j in range(ins.along_track_pixels)] for s in states]
    sun = {}
    for n in range(len(gdf)):
        k = index_of(times, col(gdf, "time")[n].to_pydatetime())
        c, p = [], -1
        g = gdf.geometry.iloc[n]
        if g.geom_type != "Point":
            raise ShapeError(g.geom_type)
        if k:
            s = states[k - 1]
            w = want[k - 1][n % npix]
            if w is None:
                if abs(s.sat_altaz(g.x, g.y, g.z)[0]) < 0.3:
                    p = -2
            elif abs(turn(g.x, w[0]) - w[0]) * math.cos(math.radians(w[1])) < 2e-4 and abs(g.y - w[1]) < 2e-4 and abs(g.z - w[2]) < 1:
                p = n % npix
            pos = (g.x, g.y, g.z)
            ok = valid(s, ins, *pos)
            if ok:
                c.append(cmp("valid_obs", 1.0 * bool(gdf["valid_obs"].iloc[n]), 1.0 * (ok > 0), 1, 0))
            if "sat_altaz" in opts:
                a, z = s.sat_altaz(*pos)
                c.append(cmp("sat_alt", float(gdf["sat_alt"].iloc[n]), a, 1000, 3))
                if a < 80:
                    c.append(cmp("sat_az", turn(float(gdf["sat_az"].iloc[n]), z), z, 1000, 8))
            if "solar_altaz" in opts:
                a, z = s.sun_altaz(*pos)
                c.append(cmp("solar_alt", float(gdf["solar_alt"].iloc[n]), a, 1000, 3))
                if abs(a) < 80:
                    c.append(cmp("solar_az", turn(float(gdf["solar_az"].iloc[n]), z), z, 1000, 8))
            c.append(cmp("satellite", 1.0 * (gdf["satellite"].iloc[n] == name), 1, 1, 0))
            c.append(cmp("instrument", 1.0 * (gdf["instrument"].iloc[n] == ins.name), 1, 1, 0))
        rows.append({"k": k, "p": p, "cmp": c})
    return rows


def event(kind, r, satellite, sat, times, mask, geoms, k, elev):
    ins = satellite.instruments[k]
    opts = [o for o in ("sat_altaz", "solar_altaz") if r.random() < 0.4]
    kw = {o: True for o in opts}
    states = [State(sat, t) for t in times]

    def run():
        dirs = []
        for i in range(ins.cross_track_pixels):
            for j in range(ins.along_track_pixels):
                cone, clock = ins.get_pixel_cone_and_clock_angle(i, j)
                dirs.append({"i": i, "j": j, "c": round(1e6 * cone * math.cos(clock)), "a": round(1e6 * cone * math.sin(clock))})
        u = collect_ground_pixels(satellite, list(times), k, elev, **kw)
        if len(u) and str(u.crs).upper() != "EPSG:4326":
            raise ShapeError("crs")
        rows = project(u, times, states, ins, elev, opts, satellite.name)
        wh, kept = [], []
        if mask is not None:
            m = collect_ground_pixels(satellite, list(times), k, elev, mask, **kw)
            if len(times):
                track = satellite.orbit.to_tle().get_orbit_track(list(times))
                foot = ins.compute_footprint(track, elevation=elev)
                foot = foot if isinstance(foot, list) else [foot]
            keys = {}
            for n in range(len(u)):
                g = u.geometry.iloc[n]
                x = where(geoms, g.x, g.y, eps=0.005)
                t = col(u, "time")[n].to_pydatetime()
                f = foot[index_of(times, t) - 1]
                if x == "in" and not (f.buffer(-0.01).contains(Point(g.x, g.y)) or ins.cross_track_field_of_view < 10):
                    x = "edge"
                wh.append(x)
                keys[(index_of(times, t), round(g.x, 7), round(g.y, 7))] = n + 1
            for n in range(len(m)):
                g = m.geometry.iloc[n]
                t = index_of(times, col(m, "time")[n].to_pydatetime())
                i = keys.get((t, round(g.x, 7), round(g.y, 7)), 0)
                same = i and same_attrs(m.iloc[n].to_dict(), u.iloc[i - 1].to_dict())
                kept.append(i if same else 0)
        return {"dirs": dirs, "rows": rows, "where": wh, "kept": kept}
    st, o = guarded(run)
    return dict(kind=kind, inp={"n": len(times), "masked": mask is not None,
                                "ins": {"nc": ins.cross_track_pixels, "na": ins.along_track_pixels, "fc": round(1000 * ins.cross_track_field_of_view),
                                        "fa": round(1000 * ins.along_track_field_of_view), "oc": round(100 * ins.cross_track_oversampling),
                                        "oa": round(100 * ins.along_track_oversampling)}},
                out={"status": st, **(o or {"dirs": [], "rows": [], "where": [], "kept": []})},
                repro={"times": [str(t) for t in times], "orbit": satellite.orbit.model_dump_json(), "instrument": ins.model_dump_json(),
                       "mask": None if mask is None else [g.wkt for g in geoms], "elev": elev})


def setup(r, nc, na):
    o = eccentric_orbit(r) if r.random() < 0.3 else random_orbit(r)
    ins = [instrument(r, nc, na)]
    if r.random() < 0.4:
        ins.insert(r.randrange(2), Instrument(name="x", field_of_regard=30))
    return Satellite(name=f"sat{r.randint(0, 99)}", orbit=o, instruments=ins), sat_of(o.to_tle().tle), BASE + timedelta(seconds=r.randint(-40000, 40000))


def one(kind, r, nt, nc, na):
    s, sat, t0 = setup(r, nc, na)
    k = next(i for i, x in enumerate(s.instruments) if isinstance(x, PointedInstrument))
    ins = s.instruments[k]
    step = r.choice([1, 10, 60, 600])
    if r.random() < 0.5:  # no wider a field of regard than the view needs
        ins.field_of_regard = min(180, 2 * math.hypot(abs(ins.roll_angle) + ins.cross_track_field_of_view / 2, abs(ins.pitch_angle) + ins.along_track_field_of_view / 2) + 2)
    times = [t0 + timedelta(seconds=step * i) for i in range(nt)]
    if r.random() < 0.2:
        r.shuffle(times)
    mask = geoms = None
    if r.random() < 0.6 and times:
        c, c2 = State(sat, r.choice(times)), State(sat, r.choice(times))
        g = ground(c, tan(ins.roll_angle), tan(ins.pitch_angle)) or (c.lon, c.lat, 0)
        mask, geoms = mask_forms(r, around(r, g[0], g[1], r.choice([60, 200, 600, 1500])), around(r, c2.lon, c2.lat, 800))
    return event(kind, r, s, sat, times, mask, geoms, k, r.choice([0, 0, 0, 500.0, 3000.0]))


def run_clusters(seed):
    """Distant groups of samples in one call, often low and high ones."""
    r = random.Random(seed)
    no_repeat()
    o = eccentric_orbit(r) if r.random() < 0.7 else random_orbit(r)
    ins = instrument(r, r.choice([1, 3]), r.choice([1, 2]))
    ins.cross_track_field_of_view, ins.along_track_field_of_view = r.choice([5, 20]), r.choice([3, 10])
    ins.roll_angle, ins.pitch_angle = r.choice([0, 15, -20, 25]), r.choice([0, 5])
    ins.field_of_regard = 2 * math.hypot(abs(ins.roll_angle) + ins.cross_track_field_of_view / 2, ins.pitch_angle + ins.along_track_field_of_view / 2) + 2
    s = Satellite(name="c", orbit=o, instruments=[ins])
    sat = sat_of(o.to_tle().tle)
    times = clusters(r, BASE + timedelta(seconds=r.randint(-40000, 40000)), 60 * math.pi / sat.model.no_kozai)
    geoms = []
    for t in (times[0], times[-1]):
        c = State(sat, t)
        g = ground(c, tan(ins.roll_angle), tan(ins.pitch_angle)) or (c.lon, c.lat, 0)
        geoms.append(around(r, g[0], g[1], r.choice([200, 500])))
    if r.random() < 0.4:
        geoms = [geoms[r.randrange(2)]]
    mask, geoms = mask_forms(r, *geoms)
    return [event("random", r, s, sat, times, mask, geoms, 0, 0)]


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    no_repeat()
    return [one("model", r, *c) for c in cases]


def run_random(seed):
    r = random.Random(seed)
    no_repeat()
    evs = [one("random", r, r.choice([0, 1, 2, 5, 9]), r.randint(1, 5), r.randint(1, 4)) for _ in range(3)]
    s, sat, t0 = setup(r, 2, 2)
    bad = r.choice([Instrument(name="x", field_of_regard=30),
                    PointedInstrument(name="e", field_of_regard=30, cross_track_field_of_view=5, along_track_field_of_view=5, is_rectangular=False)])
    st, _ = guarded(lambda: len(collect_ground_pixels(Satellite(name="q", orbit=s.orbit, instruments=[bad]), [t0])))
    evs.append(dict(kind="reject", inp={"n": 1}, out={"status": st}))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C23"]))]
    cases = cases * ctx.scale(4, 12)
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::24]) for i in range(24)], chunk=1)
    ctx.pmap(run_clusters, [f"{ctx.seed}/c{i}" for i in range(ctx.scale(40, 300))], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(48, 400))], chunk=2)


def corrupt(ev, rng):
    o = ev["out"]
    if ev["kind"] == "reject":
        o["status"] = "ok"
        yield "accepted", ev
        return
    what = rng.choice(["dir", "row", "drop", "kept", "cmp"])
    if what == "dir":
        rng.choice(o["dirs"])[rng.choice("ca")] += 5000
    elif what == "row" and o["rows"]:
        rng.choice(o["rows"])["p"] = -1
    elif what == "drop" and o["rows"]:
        o["rows"].pop(rng.randrange(len(o["rows"])))
    elif what == "kept" and "in" in o["where"] and o["where"].index("in") + 1 in o["kept"]:
        o["kept"].remove(o["where"].index("in") + 1)
    elif what == "cmp" and o["rows"]:
        c = rng.choice(rng.choice(o["rows"])["cmp"])
        c["got"] += c["tol"] + 1
    else:
        return
    yield what, ev
