"""C32: a buffered target keeps everything within reach of the target."""
import json
import math
import random

import boot  # noqa: F401
import numpy as np
from framework import guarded
from shapely.geometry import MultiPolygon, Point, Polygon, box
from tatc.utils import buffer_target
from tracks import RE, swath

MC = [("MC_C32", "MC_C32", "MC_C32_thorough")]
TRACE = "TR_C32"
RULE = ("TLC checks on a five-degree globe that a disc on the plate stretched by the cosine of its farthest latitude, or a plate of latitudes near "
        "the poles, keeps every place within the distance of the target, for every latitude and distance; each is replayed with a real target and "
        "orbit, plus random targets (points, polygons, several parts; over the antimeridian, at the poles), orbits, steps and scalings; the "
        "specification computes the reach and decides every probe from its great circle distance to the target.")
ASSUMPTIONS = ["probes between 98% and 100% of the reach may go either way (polygonal discs, flattening)", "distances on the mean sphere", "default distance reference system"]
MU, DAY = 3.986004418e14, 86164.1


def gc(lon0, lat0, lon1, lat1):
    a, b = np.radians(lat0), np.radians(lat1)
    dl = np.radians(np.asarray(lon1) - lon0)
    h = np.sin((b - a) / 2) ** 2 + np.cos(a) * np.cos(b) * np.sin(dl / 2) ** 2
    return 2 * RE * np.arcsin(np.minimum(1, np.sqrt(h)))


def go(lon, lat, bearing, dist):
    d, la, b = dist / RE, math.radians(lat), bearing
    s = math.sin(la) * math.cos(d) + math.cos(la) * math.sin(d) * math.cos(b)
    la2 = math.asin(max(-1, min(1, s)))
    dl = math.atan2(math.sin(b) * math.sin(d) * math.cos(la), math.cos(d) - math.sin(la) * math.sin(la2))
    return (lon + math.degrees(dl) + 180) % 360 - 180, math.degrees(la2)


def outline(g):
    """Dense points of the target's boundary."""
    if g.geom_type == "Point":
        return [(g.x, g.y)]
    out = []
    for p in getattr(g, "geoms", [g]):
        for ring in [p.exterior, *p.interiors]:
            cs = list(ring.coords)
            for (x0, y0), (x1, y1) in zip(cs, cs[1:]):
                n = max(1, int(max(abs(x1 - x0), abs(y1 - y0)) / 0.25))
                out += [(x0 + (x1 - x0) * k / n, y0 + (y1 - y0) * k / n) for k in range(n)]
    return out


def distance(g, pts, p):
    if g.geom_type != "Point" and g.buffer(1e-9).contains(Point(p)):
        return 0
    return float(np.min(gc(p[0], p[1], pts[:, 0], pts[:, 1])))


def event(r, g, alt, inc, fov, step, pct, label=""):
    n = math.sqrt(MU / (RE + alt) ** 3)
    speed = RE * (n - 2 * math.pi * math.cos(math.radians(inc)) / DAY)
    sw = swath(alt, fov, 0)
    reach = (speed * step + sw / 2) * pct / 100
    pts = np.array(outline(g))
    probes = []
    for _ in range(36):
        x, y = pts[r.randrange(len(pts))]
        f = r.choice([0, 0.3, 0.7, 0.9, 0.95, 0.97, 1.05, 1.5])
        b = r.choice([r.uniform(0, 2 * math.pi), 0, math.pi / 2, math.pi, -math.pi / 2])
        p = go(x, y, b, min(f * reach, 1.9e7))
        if abs(p[1]) < 89.9 and abs(p[0]) < 179.9:
            probes.append(p)
    if g.geom_type != "Point":
        for _ in range(6):
            p = (r.uniform(g.bounds[0], g.bounds[2]), r.uniform(g.bounds[1], g.bounds[3]))
            if abs(p[1]) < 89.9 and abs(p[0]) < 179.9:
                probes.append(p)
    dists = [distance(g, pts, p) for p in probes]
    before = g.wkb

    def run():
        kw = {} if pct == 100 and r.random() < 0.5 else {"distance_scaling": pct / 100}
        res = buffer_target(g, alt, inc, fov, step, **kw)
        return {"valid": bool(res.is_valid) and g.wkb == before, "box": [round(v * 1e5) for v in res.bounds],
                "has": [bool(res.buffer(1e-7).contains(Point(p))) for p in probes]}
    st, o = guarded(run)
    return dict(kind="buffer", inp={"speed": round(speed * 10), "step": step, "swath": round(sw), "percent": pct,
                                    "probes": [math.floor(d) for d in dists]},
                out={"status": st, **(o or {})}, label=label,
                repro={"target": g.wkt, "altitude": alt, "inclination": inc, "field_of_regard": fov, "time_step": step, "scaling": pct / 100, "probes": probes})


def blob(r, cx, cy, rx, ry):
    n = r.randint(4, 9)
    a0 = r.uniform(0, 2 * math.pi)
    p = Polygon([(max(-180, min(180, cx + rx * r.uniform(0.6, 1) * math.cos(a0 + 2 * math.pi * k / n))),
                  max(-90, min(90, cy + ry * r.uniform(0.6, 1) * math.sin(a0 + 2 * math.pi * k / n)))) for k in range(n)])
    return p if p.is_valid and p.area > 0 else box(max(-180, cx - rx), max(-90, cy - ry), min(180, cx + rx), min(90, cy + ry))


def target(r, lat=None):
    cy = r.choice([0, r.uniform(-89, 89), r.uniform(-60, 60), r.choice([-1, 1]) * r.uniform(60, 88)]) if lat is None else lat
    cx = r.choice([r.uniform(-179, 179), r.choice([-1, 1]) * r.uniform(160, 179.5)])
    k = r.random()
    if k < 0.3:
        return Point(cx, cy)
    s = r.choice([0.2, 2, 10, 25])
    if k < 0.85 or lat is not None:
        return blob(r, cx, cy, s * r.uniform(0.3, 1), s * r.uniform(0.3, 1))
    g = MultiPolygon([blob(r, cx, cy, s / 3, s / 3), blob(r, (cx + r.uniform(2, 60) + s + 180) % 360 - 180, cy * 0.8, s / 3, s / 3)])
    return g if g.is_valid else g.geoms[0]


def orbit(r):
    return r.choice([300e3, 550e3, 800e3, 2000e3, 8000e3]), r.choice([0, 28.5, 51.6, 90, 98, 140]), r.choice([2, 20, 60, 100, 140, 180])


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    evs = []
    for lat, d in cases:
        # an orbit and step whose reach is about d * 5 degrees
        want = d * 5 * math.pi / 180 * RE
        alt, inc, fov = r.choice([(700e3, 98, 60), (500e3, 51.6, 20)])
        n = math.sqrt(MU / (RE + alt) ** 3)
        speed = RE * (n - 2 * math.pi * math.cos(math.radians(inc)) / DAY)
        step = round((want - swath(alt, fov, 0) / 2) / speed)
        y = lat * 5 + r.uniform(-2, 2)
        y = max(-90, min(90, y))
        evs.append(event(r, Point(r.uniform(-180, 180), y), alt, inc, fov, step, 100, "model"))
    return evs


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(20):
        alt, inc, fov = orbit(r)
        evs.append(event(r, target(r), alt, inc, fov, r.choice([1, 10, 30, 60, 120, 300]), r.choice([100, 100, 110, 200, 50])))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C32"]))]
    n = 12
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::n]) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(60, 600))])


def corrupt(ev, rng):
    o = ev["out"]
    what = rng.choice(["valid", "box", "has"])
    if what == "has":
        o["has"] = [False] * len(o["has"])
        if not ev["in"]["probes"]:
            return
        ev["in"]["probes"][0] = 0
    elif what == "box":
        o["box"][2] = 18100000
    else:
        o["valid"] = False
    yield what, ev
