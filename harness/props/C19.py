"""C19: splitting a polygon over the antimeridian or a pole keeps the region."""
import json
import math
import random

import boot  # noqa: F401
import geopandas as gpd
from framework import guarded, ShapeError
from shapely.geometry import MultiPolygon, Point, Polygon
from tatc.utils import normalize_geometry, split_polygon

MC = [("MC_C19", "MC_C19", "MC_C19_thorough")]
TRACE = "TR_C19"
RULE = ("TLC checks that cutting, shifting and flipping rectangles in any order keeps the covered globe squares and ends "
        "on the chart; every rectangle is replayed (any starting vertex and orientation), plus random polygons with holes, "
        "over the antimeridian, beyond a pole, round a pole, and multi polygons; the specification unrolls each ring and "
        "decides every probe point by crossing counts on integers.")
ASSUMPTIONS = ["vertices lie on a 0.02 degree raster with longitudes in [-180, 180]; vertices more than 180 degrees apart are "
               "joined across the antimeridian", "regions beyond a pole end before the opposite equator", "rings round a pole hold the pole of the side their vertices mostly lie on, and meet each meridian once",
               "probes within 0.06 degrees of a boundary are accepted either way"]
U = 50
H, Q = 180 * U, 90 * U
STEPS = [60 * U, 60 * U, 120 * U, 170 * U]


def chart(x, r):
    y = (x + H) % (2 * H) - H
    if y == -H:
        return x if abs(x) == H else r.choice([-H, H])
    return y


def dense(ring, step=60 * U):
    """No edge wider than the step (at most 170 degrees)."""
    out = []
    for (x0, y0), (x1, y1) in zip(ring, ring[1:] + ring[:1]):
        n = max(1, math.ceil(abs(x1 - x0) / step))
        out += [[round(x0 + (x1 - x0) * k / n), round(y0 + (y1 - y0) * k / n)] for k in range(n)]
    return out


def present(ring, r):
    """The ring as a user may give it: any start and orientation, on the chart."""
    k = r.randrange(len(ring))
    ring = ring[k:] + ring[:k]
    if r.random() < 0.5:
        ring = ring[::-1]
    return [[chart(x, r), y] for x, y in ring]


def geometry(parts):
    ps = [Polygon([(x / U, y / U) for x, y in p[0]], [[(x / U, y / U) for x, y in h] for h in p[1:]]) for p in parts]
    return ps[0] if len(ps) == 1 else MultiPolygon(ps)


def pieces(g):
    if g.geom_type == "Polygon":
        return [g]
    if g.geom_type == "MultiPolygon":
        return list(g.geoms)
    raise ShapeError(g.geom_type)


def same(a, b):
    return a.geom_type == b.geom_type and a.equals(b)


def split_event(parts, probes, label=""):
    g = geometry(parts)

    def run():
        res = split_polygon(g)
        ps = pieces(res)
        b = res.bounds
        has = [any(p.contains(Point(x / U, y / U)) for p in ps) for x, y in probes]
        return {"valid": bool(res.is_valid), "box": [round(v * U) for v in b], "has": has,
                "same": same(res, g), "again": same(split_polygon(res), res)}
    st, o = guarded(run)
    return dict(kind="split", inp={"parts": parts, "probes": probes}, out={"status": st, **(o or {})}, label=label, repro=g.wkt)


def onglobe(x, y):
    if y > Q:
        x, y = x + H, 2 * Q - y
    if y < -Q:
        x, y = x + H, -2 * Q - y
    return [(x + H) % (2 * H) - H, y]


def probes_for(r, unrolled, n=40):
    """Random globe points, mostly near the region; none on the chart edges."""
    xs, ys = [x for x, _ in unrolled], [y for _, y in unrolled]
    m = 600
    out = []
    while len(out) < n:
        if r.random() < 0.85:
            q = onglobe(r.randint(min(xs) - m, max(xs) + m), r.randint(max(min(ys) - m, -Q - 40 * U), min(max(ys) + m, Q + 40 * U)))
        else:
            q = [r.randint(-H, H), r.randint(-Q, Q)]
        if abs(abs(q[0]) - H) > 4 and abs(abs(q[1]) - Q) > 4 and abs(q[0]) > 4:
            out.append(q)
    return out


def run_case(args):
    seed, h, rect = args
    r = random.Random(seed)
    s = H // h
    x0, y0, x1, y1 = (v * s for v in rect)
    ring = dense([[x0, y0], [x1, y0], [x1, y1], [x0, y1]], r.choice(STEPS))
    return [split_event([[present(ring, r)]], probes_for(r, ring, 30))]


def blob(r, cx, cy, rx, ry):
    n = r.randint(5, 10)
    a0 = r.uniform(0, 2 * math.pi)
    return [[round(cx + rx * f * math.cos(a)), round(cy + ry * f * math.sin(a))]
            for a, f in ((a0 + 2 * math.pi * (k + r.uniform(-0.2, 0.2)) / n, r.uniform(0.6, 1)) for k in range(n))]


def cap(r):
    n = r.randint(6, 16)
    s = r.choice([1, -1])
    x0 = r.randint(0, 2 * H)
    lat = r.randint(40 * U, 80 * U)
    if r.random() < 0.5:
        return [[x0 + round(2 * H * (k + r.uniform(-0.3, 0.3)) / n), s * (lat + r.randint(-8 * U, 8 * U))] for k in range(n)]
    # a cap seen from far above: it dips, even below the equator, on one side
    dip, a = r.randint(10 * U, 70 * U), r.choice([r.uniform(0, 2 * math.pi), -2 * math.pi * (x0 + H) / (2 * H)])
    while True:
        ring = [[x0 + round(2 * H * (k + r.uniform(-0.3, 0.3)) / n), s * round(min(lat - dip * math.cos(2 * math.pi * k / n - a), 85 * U))] for k in range(n)]
        if s * sum(y for _, y in ring) > 5 * U * n:
            return ring
        dip //= 2


def one(r, where):
    """(parts with one polygon as unrolled rings) of the given kind."""
    if where == "cap":
        c = cap(r)
        inner = []
        if r.random() < 0.4:
            s = 1 if sum(y for _, y in c) > 0 else -1
            cx = r.choice([r.randint(-H + 400, -900), r.randint(900, H - 400)])
            inner = [blob(r, cx, s * 89 * U - s * 40, 300, 40)] if r.random() < 0.5 else [blob(r, cx, s * 88 * U, 300, 60)]
        return [c] + inner
    if where == "wide":  # few vertices, edges up to nearly half the globe
        w = r.randint(100 * U, 178 * U)
        x0, y0 = r.choice([-H, H]) - r.randint(0, w), r.randint(-60 * U, 20 * U)
        hh = r.randint(5 * U, 40 * U)
        a, b, c = (r.randint(-8 * U, 8 * U) for _ in range(3))
        if r.random() < 0.4:
            return [[[x0, y0], [x0 + w, y0 + a], [x0 + r.randint(w // 4, w * 3 // 4), y0 + hh + 9 * U]]]
        return [[[x0, y0], [x0 + w, y0 + a], [x0 + w, y0 + hh + 17 * U + b], [x0, y0 + hh + 17 * U + c]]]
    rx, ry = r.randint(3 * U, r.choice([80, 80, 120]) * U), r.randint(3 * U, 40 * U)
    if where == "anti":
        cx, cy = r.choice([-H, H]) + r.randint(-rx, rx), r.randint(-Q + ry, Q - ry)
    elif where == "pole":
        s = r.choice([1, -1])
        cx, cy = r.randint(-H, H), s * (Q + r.randint(-int(ry * 0.8), int(ry * 0.5)))
    else:
        rx = min(rx, 170 * U)
        cx, cy = r.randint(-H + rx, H - rx), r.randint(-Q + ry, Q - ry)
    part = [blob(r, cx, cy, rx, ry)]
    if where != "pole" and r.random() < 0.35:
        part.append(blob(r, cx, cy, rx // 4, ry // 4))
    return part


def overlap_free(parts):
    ps = [Polygon(p[0]) for p in parts]
    gs = [q for p in ps for q in (p, )]
    from shapely.affinity import translate
    for i, a in enumerate(gs):
        for b in gs[i + 1:]:
            if any(a.distance(translate(b, k * 2 * H)) < 10 for k in (-1, 0, 1)):
                return False
    return True


def random_split(r):
    k = r.random()
    if k < 0.8:
        where = r.choice(["anti", "anti", "pole", "cap", "plain", "wide"])
        part = one(r, where)
        step = r.choice(STEPS) if where != "wide" else 179 * U
        rings = [dense(q, step) if where != "cap" else q for q in part]
        if where != "cap":
            p = Polygon(part[0], part[1:])
            if not p.is_valid or (where == "pole" and max(abs(y) for _, y in part[0]) > Q + 60 * U):
                return None
        else:
            rings = [part[0]] + [q for q in part[1:]]
        shown = [present(q, r) for q in rings]
        return split_event([shown], probes_for(r, part[0] if where != "cap" else [[-H, part[0][0][1]], [H, Q if sum(y for _, y in part[0]) > 0 else -Q]] + part[0]))
    parts = [one(r, r.choice(["anti", "plain", "plain"])) for _ in range(r.choice([2, 2, 3]))]
    if r.random() < 0.3:  # a part folded over a pole onto, or next to, another part
        parts[0] = one(r, "pole")
        if max(abs(y) for _, y in parts[0][0]) > Q + 60 * U or max(abs(y) for _, y in parts[0][0]) <= Q:
            return None
        s = 1 if max(y for _, y in parts[0][0]) > Q else -1
        cx, ry = parts[0][0][0][0] + H + r.randint(-20, 20) * U, r.randint(3, 12) * U
        parts[1:] = [[blob(r, cx, s * (Q - ry - r.randint(0, 20) * U), r.randint(5, 40) * U, ry)]]
    if not all(Polygon(p[0], p[1:]).is_valid for p in parts) or not overlap_free(parts):
        return None
    shown = [[present(dense(q), r) for q in p] for p in parts]
    return split_event(shown, probes_for(r, [v for p in parts for v in p[0]]))


def normal_event(r):
    kind = r.choice(["polygon", "multi", "series", "frame", "frame"])
    geoms = []
    while len(geoms) < (1 if kind in ("polygon", "multi") else r.choice([1, 2, 4])):
        n = 2 if kind == "multi" else 1
        parts = [one(r, r.choice(["anti", "plain", "pole"])) for _ in range(n)]
        if n > 1 and not overlap_free(parts):
            continue
        g = geometry([[present(dense(q), r) for q in p] for p in parts])
        if g.is_valid:
            geoms.append(g)
    labels = r.sample(range(100), len(geoms))
    if kind in ("polygon", "multi"):
        arg, labels, extra = geoms[0], [0], None
    elif kind == "series":
        arg, extra = gpd.GeoSeries(geoms, index=labels, crs=r.choice(["EPSG:4326", None])), None
    else:
        extra = [r.randint(0, 9) for _ in geoms]
        arg = gpd.GeoDataFrame({"tag": extra}, geometry=geoms, index=labels, crs="EPSG:4326")
    before = [g.wkb for g in geoms]

    def run():
        res = normalize_geometry(arg)
        if not isinstance(res, gpd.GeoDataFrame):
            raise ShapeError("not a frame")
        if kind in ("series", "frame"):
            kept = [g.wkb for g in arg.geometry] == before and list(arg.index) == labels
        else:
            kept = arg.wkb == before[0]
        return {"count": len(res), "labels": list(res.index) == labels and (extra is None or list(res.tag) == extra),
                "each": all(same(a, split_polygon(b)) for a, b in zip(res.geometry, geoms)), "input_kept": kept,
                "crs": kind == "series" and arg.crs is None or str(res.crs).upper() == "EPSG:4326"}
    st, o = guarded(run)
    return dict(kind="normalize", inp={"form": kind, "count": len(geoms)}, out={"status": st, **(o or {})},
                repro=[g.wkt for g in geoms])


def invalid(r):
    x, y = r.randint(-150, 100), r.randint(-60, 40)
    bow = Polygon([(x, y), (x + 20, y + 20), (x + 20, y), (x, y + 20)])
    m = r.choice([bow, MultiPolygon([Polygon([(x, y), (x + 20, y), (x + 20, y + 20)]), Polygon([(x + 5, y), (x + 20, y), (x + 20, y + 15)])])])
    st, _ = guarded(lambda: len(normalize_geometry(m)))
    return dict(kind="invalid", inp={"m": m.wkt}, out={"status": st})


def run_random(seed):
    r = random.Random(seed)
    evs = [invalid(r)]
    for _ in range(24):
        e = random_split(r)
        if e:
            evs.append(e)
    evs += [normal_event(r) for _ in range(4)]
    return evs


def drive(ctx):
    h = 6 if ctx.thorough else 4
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C19"]))]
    cases = [c for c in cases if max(-c[1], c[3]) < h]  # no further than the opposite equator
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(400, 3000)))
    ctx.pmap(run_case, [(f"{ctx.seed}/m{i}", h, c) for i, c in enumerate(cases)])
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(40, 300))])


def corrupt(ev, rng):
    if ev["kind"] != "split":
        return
    o = ev["out"]
    what = rng.choice(["has", "box", "again", "valid"])
    if what == "has":
        o["has"] = [not h for h in o["has"]]
    elif what == "box":
        o["box"][2] = H + 20
    else:
        o[what] = False
    yield what, ev
