"""C22: the aggregated ground track is the union of the valid samples' swaths."""
import json
import math
import random
from datetime import timedelta

from framework import guarded, ShapeError
from orbits import BASE, no_repeat, random_orbit, sat_of
from C20 import around
from C21 import DEG, pick_crs
from shapely.geometry import LineString, Point
from shapely.ops import unary_union
from tracks import State, mask_forms, swath, valid, where
from tatc.analysis import collect_ground_track, compute_ground_track
from tatc.schemas import CircularOrbit, Instrument, KeplerianOrbit, PointedInstrument, Satellite

MC = [("MC_C22", "MC_C22", "MC_C22_thorough")]
TRACE = "TR_C22"
RULE = ("TLC checks that the valid samples are partitioned into maximal stretches of one revolution, over all short sequences "
        "of samples in up to three revolutions; every pattern is replayed with real satellites whose sunlight requirement makes "
        "the samples valid or not, for both methods, dissolved or per revolution, with and without masks. The result is probed "
        "at points whose position in each sample's polygon (point method) or distance from each segment (line method) is known.")
ASSUMPTIONS = ["probes within 4% of the swath radius (line) or 0.03 degree (point) of a boundary are accepted either way",
               "the line method is checked away from the poles, in the equidistant projection, for nadir instruments",
               "point method: near-circular orbits; repeat cycles disabled, times sorted"]


def unwrap(a, b):
    return a + (b - a + 180) % 360 - 180


def seg_dist(p, a, b):
    """Planar distance (degrees) from p to the segment a-b taken the short way round."""
    bx = unwrap(a[0], b[0])
    best = 1e9
    for k in (-360, 0, 360):
        q = Point(p[0] + k, p[1])
        best = min(best, (LineString([a, (bx, b[1])]) if (bx, b[1]) != a else Point(a)).distance(q))
    return best


def decide(states, ins):
    """Validity of each sample, or None if any is undecided."""
    out = []
    for s in states:
        v = valid(s, ins, s.lon, s.lat, 0)
        if v == 0:
            return None
        out.append(v > 0)
    return out


def event(kind, r, satellite, sat, times, k, method, dissolve, mask, geoms, crs, elev):
    ins = satellite.instruments[k]
    states = [State(sat, t) for t in times]
    line = method == "line"
    period = satellite.orbit.to_tle().get_orbit_period()
    ms = [round((t - times[0]) / timedelta(milliseconds=1)) for t in times]
    per = round(period / timedelta(milliseconds=1))
    if any(min(m % per, -m % per) < 200 and m != 0 for m in ms):
        return None
    rad = [swath(s.alt, ins.field_of_regard, elev) / 2 / DEG for s in states]
    if line and any(abs(s.lat) + d > 84 for s, d in zip(states, rad)):
        return None
    polys = []
    if isinstance(ins, PointedInstrument) or not line:
        try:
            u = collect_ground_track(satellite, list(times), k, elev, None, crs)
        except Exception:
            return None  # C21 reports it
        polys = list(u.geometry)
        ok = [bool(x) for x in u.valid_obs]
    else:
        ok = decide(states, ins)
        if ok is None:
            return None
    kw = {} if method == "point" and r.random() < 0.5 else {"method": method}
    if not dissolve or r.random() < 0.5:
        kw["dissolve_orbits"] = dissolve
    if crs != "EPSG:4087":
        kw["crs"] = crs
    # probe points
    pts = []
    for i in range(len(times)):
        s = states[i]
        pts.append((s.lon, s.lat))
        for _ in range(3):
            if line:
                f, a = r.choice([0.5, 0.9, 1.1, 1.5]), r.uniform(0, 2 * math.pi)
                pts.append((unwrap(0, s.lon + f * rad[i] * math.cos(a)), s.lat + f * rad[i] * math.sin(a)))
            else:
                x0, y0, x1, y1 = polys[i].bounds
                pts.append((r.uniform(x0 - 1, x1 + 1), r.uniform(y0 - 1, y1 + 1)))
        if i + 1 < len(times) and line:
            m = r.random()
            t = states[i + 1]
            pts.append((unwrap(0, s.lon + m * (unwrap(s.lon, t.lon) - s.lon)), s.lat + m * (t.lat - s.lat)))
    if geoms:
        for g in geoms:
            x0, y0, x1, y1 = g.bounds
            pts += [(r.uniform(x0, x1), r.uniform(y0, y1)) for _ in range(12)]
    pts = [p for p in pts if abs(p[0]) < 179.95 and abs(p[1]) < 89]
    if len(pts) > 60:
        pts = r.sample(pts, 60)
    probes = []
    for p in pts:
        q = {"mask": where(geoms, *p, eps=0.02) if geoms else "in", "in": [], "pt": [], "sg": []}
        if line:
            ll = [(s.lon, s.lat) for s in states]
            q["pt"] = [round(1000 * seg_dist(p, a, a)) for a in ll]
            q["sg"] = [round(1000 * seg_dist(p, a, b)) for a, b in zip(ll, ll[1:])] + [0]
        else:
            P = Point(p)
            q["in"] = ["edge" if g.boundary.distance(P) < 0.03 else "in" if g.contains(P) else "out" for g in polys]
        probes.append(q)

    def run():
        g = compute_ground_track(satellite, list(times), k, elev, mask, **kw)
        if len(g) and str(g.crs).upper() != "EPSG:4326":
            raise ShapeError("crs")
        for x in g.geometry:
            if x.geom_type not in ("Polygon", "MultiPolygon", "GeometryCollection"):
                raise ShapeError(x.geom_type)
        return [[bool(x.contains(Point(p))) for x in g.geometry] for p in pts], len(g)
    st, res = guarded(run)
    got, n = res if res else ([[] for _ in probes], 0)
    return dict(kind=kind, inp={"samples": [{"t": m, "valid": v, "r": round(1000 * d)} for m, v, d in zip(ms, ok, rad)], "period": per, "line": line,
                                "dissolve": dissolve, "masked": mask is not None},
                out={"status": st, "n": n, "probes": [dict(q, got=g) for q, g in zip(probes, got)]},
                repro={"times": [str(t) for t in times], "orbit": satellite.orbit.model_dump_json(), "instrument": ins.model_dump_json(), "crs": crs,
                       "mask": None if mask is None else [g.wkt for g in geoms], "elev": elev, "method": method, "points": pts})


def setup(r, want=None):
    o = CircularOrbit(altitude=r.uniform(400e3, 900e3), inclination=r.choice([5, 28, 45, 51.6, 63]), true_anomaly=r.uniform(0, 359),
                      right_ascension_ascending_node=r.uniform(0, 359), epoch=BASE)
    ins = Instrument(name="i", field_of_regard=r.choice([10, 30, 60, 110]), req_self_sunlit=r.choice([True, False]))
    return Satellite(name="s", orbit=o, instruments=[ins]), sat_of(o.to_tle().tle), BASE + timedelta(seconds=r.randint(-40000, 40000))


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    no_repeat()
    s, sat, t0 = setup(r)
    ins = s.instruments[0]
    period = s.orbit.to_tle().get_orbit_period()
    evs = []
    # sample pool per revolution and validity
    pool = {}
    grid = [t0 + period * x for o in range(3) for x in [o + (j + r.random()) / 30 for j in range(30)]]
    first = grid[0]
    for t in grid:
        o = int((t - first) / period)
        v = valid(State(sat, t), ins, 0, 0, 0)
        if v:
            pool.setdefault((o, v > 0), []).append(t)
    for pat in cases:
        times, last, ok = [], first - timedelta(seconds=1), True
        base = None
        for o, v in pat:
            # revolutions are counted from the first sample of this case
            cand = [t for t in grid if t > last and (base is None or int((t - base) / period) == o)
                    and t in pool.get((int((t - first) / period), bool(v)), [])]
            if not cand:
                ok = False
                break
            t = cand[0] if r.random() < 0.7 else r.choice(cand[:6])
            base = base or t
            last = t
            times.append(t)
        if not ok:
            continue
        mask = geoms = None
        if r.random() < 0.3:
            c, c2 = State(sat, r.choice(times)), State(sat, r.choice([times[0], times[-1], r.choice(times)]))
            mask, geoms = mask_forms(r, around(r, c.lon, c.lat, r.randint(500, 2500)), around(r, c2.lon, c2.lat, 1500))
        evs.append(event("model", r, s, sat, times, 0, r.choice(["point", "line"]), r.random() < 0.5, mask, geoms, "EPSG:4087", 0))
    return [e for e in evs if e]


def run_random(seed):
    r = random.Random(seed)
    no_repeat()
    evs = []
    for _ in range(3):
        line = r.random() < 0.5
        if line or r.random() < 0.5:
            s, sat, t0 = setup(r)
        else:
            o = random_orbit(r)
            ins = [Instrument(name="a", field_of_regard=r.choice([5, 40, 100]), req_target_sunlit=r.choice([None, True, False])),
                   PointedInstrument(name="b", field_of_regard=120, cross_track_field_of_view=20, along_track_field_of_view=10, roll_angle=r.choice([0, 15]),
                                     is_rectangular=r.random() < 0.5, req_self_sunlit=r.choice([None, True]))]
            s, sat, t0 = Satellite(name="s", orbit=o, instruments=ins), sat_of(o.to_tle().tle), BASE + timedelta(seconds=r.randint(-40000, 40000))
        k = 0 if line else r.randrange(len(s.instruments))
        crs = "EPSG:4087" if line else pick_crs(r, s.instruments[k])
        n = r.choice([1, 2, 5, 12, 20])
        step = r.choice([10, 30, 60, 120, 300, 700])
        times = [t0 + timedelta(seconds=step * i) for i in range(n)]
        mask = geoms = None
        if r.random() < 0.4:
            c, c2 = State(sat, r.choice(times)), State(sat, r.choice([times[0], times[-1], r.choice(times)]))
            mask, geoms = mask_forms(r, around(r, c.lon, c.lat, r.randint(500, 2500)), around(r, c2.lon, c2.lat, 1500))
        evs.append(event("random", r, s, sat, times, k, "line" if line else "point", r.random() < 0.5, mask, geoms, crs, r.choice([0, 0, 1000.0])))
    s, sat, t0 = setup(r)
    kw = r.choice([{"method": "area"}, {"method": "line", "crs": "spice"}, {"method": "LINE"}, {"method": ""}])
    st, _ = guarded(lambda: len(compute_ground_track(s, [t0], **kw)))
    evs.append(dict(kind="reject", inp={"method": kw["method"]}, out={"status": st}))
    return [e for e in evs if e]


def run_revs(seed):
    """Tracks of several revolutions per revolution, masked where the first sample is not, around a revolution boundary."""
    r = random.Random(seed)
    no_repeat()
    evs = []
    for _ in range(2):
        s, sat, t0 = setup(r)
        period = s.orbit.to_tle().get_orbit_period().total_seconds()
        # a region around a revolution boundary, away from the first sample
        mid = (r.randint(1, 3) + r.uniform(-0.12, 0.12)) * period
        n = r.choice([8, 14, 20])
        times = [t0] + [t0 + timedelta(seconds=round(mid + (i / n - 0.5 + 0.03 * r.random()) * r.choice([0.4, 0.7]) * period, 3)) for i in range(n)]
        times = sorted(set(times))
        c = State(sat, t0 + timedelta(seconds=mid))
        f = State(sat, times[0])
        rad = r.choice([2500, 4000, 6000])
        hole = unary_union([Point(f.lon + k, f.lat).buffer(r.choice([10, 18, 24])) for k in (-360, 0, 360)])
        parts = [around(r, c.lon, c.lat, rad) for _ in range(2)]
        parts = [g.difference(hole) if r.random() < 0.8 else g for g in parts]
        if any(g.is_empty or not g.is_valid or g.geom_type not in ("Polygon", "MultiPolygon") for g in parts):
            continue
        mask, geoms = mask_forms(r, *parts)
        evs.append(event("revolutions", r, s, sat, times, 0, r.choice(["point", "point", "point", "line"]), r.random() < 0.15, mask, geoms, "EPSG:4087", 0))
    return [e for e in evs if e]


def run_long(seed):
    """Stretches over which the swath widens and narrows (eccentric orbits), or that cross the antimeridian twice in one revolution."""
    r = random.Random(seed)
    no_repeat()
    evs = []
    for _ in range(2):
        if r.random() < 0.5:
            q = 6371e3 + r.uniform(400e3, 700e3)
            e = r.uniform(0.03, 0.2)
            o = KeplerianOrbit(altitude=q / (1 - e) - 6371e3, eccentricity=e, inclination=r.choice([5, 28, 45, 51.6, 60, 120]), epoch=BASE,
                               true_anomaly=r.uniform(0, 359), right_ascension_ascending_node=r.uniform(0, 359), perigee_argument=r.uniform(0, 359))
        else:
            o = CircularOrbit(altitude=r.uniform(400e3, 900e3), inclination=r.choice([110, 120, 145, 175, 60]), true_anomaly=r.uniform(0, 359),
                              right_ascension_ascending_node=r.uniform(0, 359), epoch=BASE)
        s = Satellite(name="s", orbit=o, instruments=[Instrument(name="i", field_of_regard=r.choice([10, 30, 60]), req_self_sunlit=r.choice([None, None, True]))])
        sat = sat_of(o.to_tle().tle)
        period = o.to_tle().get_orbit_period().total_seconds()
        t0 = BASE + timedelta(seconds=r.randint(-40000, 40000))
        if r.random() < 0.6:
            # shortly before the antimeridian, in the direction of motion
            for _ in range(400):
                a, b = State(sat, t0).lon, State(sat, t0 + timedelta(seconds=period / 30)).lon
                if abs(a - b) > 180:
                    break
                t0 += timedelta(seconds=period / 37)
        n = r.choice([12, 25, 40])
        span = r.choice([0.4, 0.995, 0.995, 1.6])
        times = [t0 + timedelta(seconds=round(span * period * i / n, 3)) for i in range(n)]
        evs.append(event("long", r, s, sat, times, 0, "line", r.random() < 0.5, None, None, "EPSG:4087", r.choice([0, 0, 1000.0])))
    return [e for e in evs if e]


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C22"]))]
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", ctx.rng(i).sample(cases, 12)) for i in range(ctx.scale(40, 300))], chunk=1)
    ctx.pmap(run_revs, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(100, 800))], chunk=2)
    ctx.pmap(run_long, [f"{ctx.seed}/l{i}" for i in range(ctx.scale(60, 500))], chunk=2)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(100, 800))], chunk=2)


def corrupt(ev, rng):
    o, q = ev["out"], ev["in"]
    if ev["kind"] == "reject":
        o["status"] = "ok"
        yield "accepted", ev
        return
    if not o["n"]:
        return
    what = rng.choice(["n", "centre"])
    if what == "n":
        o["n"] -= 1
        if any(p["got"][-1] and p["mask"] == "in" for p in o["probes"]) and not q["masked"]:
            for p in o["probes"]:
                p["got"] = p["got"][:-1]
            yield what, ev
    elif q["dissolve"] and not q["line"]:
        v = [k for k, s in enumerate(q["samples"]) if s["valid"]]
        c = [p for p in o["probes"] if p["mask"] == "in" and any(p["in"][k] == "in" for k in v)]
        if c:
            rng.choice(c)["got"][0] = False
            yield what, ev
