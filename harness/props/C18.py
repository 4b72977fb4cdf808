"""C18: generated cells tile the region with ids matching the points."""
import json
import math
import random

import numpy as np
import boot  # noqa: F401
from framework import guarded, ShapeError, NA
from masks import DIVIDING, U, wrapped, random_parts, spacing, rect, shape
from shapely.geometry import Point, Polygon, box as sbox
from tatc.generation import generate_equally_spaced_cells, generate_equally_spaced_points

MC = [("MC_C18", "MC_C18", "MC_C18_thorough")]
TRACE = "TR_C18"
RULE = ("TLC checks that the index walk yields exactly the cells (or latitude/longitude strips) whose centre lies in the "
        "mask's bounding box, with distinct ids and disjoint interiors; the boxes are replayed as masks and the returned "
        "rectangles compared on the raster; random polygons, multi polygons and holes are compared by area with the "
        "convex hull of each cell's part, and the points of the same spacing and mask are located in the cells of their ids.")
ASSUMPTIONS = ["edges are compared on a 0.01 degree raster, areas to 0.01% of a cell",
               "cells that meet the mask in no more than 0.01% of their area are accepted either way"]
R = 6371008.7714150598
GLOBE = [-18000, -9000, 18000, 9000]


def project(gdf):
    if str(gdf.crs).upper() != "EPSG:4326":
        raise ShapeError("crs")
    res = []
    for i, g in zip(gdf.cell_id, gdf.geometry):
        zs = {round(c[2] * 1000) if len(c) > 2 else -1 for c in (g.exterior.coords if g.geom_type == "Polygon" else g.coords)}
        b = g.bounds
        rect_ = g.geom_type == "Polygon" and abs(g.area - (b[2] - b[0]) * (b[3] - b[1])) < 1e-7
        res.append({"id": int(i), "e": [round(v * U) for v in b], "z": zs.pop() if len(zs) == 1 else -1, "rect": rect_})
    return res


def pairs_of(cells, pts):
    at = dict(zip(cells.cell_id, cells.geometry))
    out = []
    for i, p in zip(pts.point_id, pts.geometry):
        if i not in at:
            out.append("missing")
        else:
            out.append("inside" if at[i].distance(Point(p.x, p.y)) < 1e-9 else "outside")
    return out


def cells(th, parts, strip, elev, box=None):
    d = math.radians(th / U) * R
    mask = None if parts is None else shape(parts)
    kw = {} if elev == 0 else {"elevation": elev / 1000}
    if strip != "no":
        kw["strips"] = strip

    def run():
        g = generate_equally_spaced_cells(d, mask=mask, **kw)
        pairs = []
        if strip == "no":
            # a point on the edge of the mask may be kept although its cell has no area
            pts = generate_equally_spaced_points(d, mask=mask)
            if mask is not None:
                pts = pts[np.array([mask.boundary.distance(Point(p.x, p.y)) > 0.02 for p in pts.geometry], dtype=bool)]
            pairs = pairs_of(g, pts)
        part = []
        if box is None:
            t = th / U
            nlon, nlat = math.floor(360 / t + 0.5), math.floor(180 / t + 0.5)
            b = mask.bounds
            at = {}
            for i, q in zip(g.cell_id, g.geometry):
                at[int(i)] = q
            for j in range(nlat if strip != "lon" else 1):
                for i in range((nlon if b[2] <= 180 else 2 * nlon) if strip != "lat" else 1):
                    e = (b[0] if strip == "lat" else -180 + i * t, b[1] if strip == "lon" else -90 + j * t,
                         b[2] if strip == "lat" else -180 + (i + 1) * t, b[3] if strip == "lon" else -90 + (j + 1) * t)
                    c = sbox(*e)
                    k = j * nlon + i % nlon
                    if b[2] > 180 and strip != "lat" and not b[0] <= (e[0] + e[2]) / 2 <= b[0] + 360:
                        continue
                    p = c.intersection(mask)
                    if p.is_empty and k not in at:
                        continue
                    off = NA
                    if k in at:
                        q = at[k]
                        off = math.ceil(q.symmetric_difference(p.convex_hull).area / c.area * 10000 - 1e-6)
                    part.append({"id": k, "area": int(p.area / c.area * 10000), "off": off, "near": c.distance(mask) < 1e-6})
        return project(g), pairs, part
    st, res = guarded(run)
    rows, pairs, part = res or ([], [], [])
    if box is not None:
        inp = {"th": th, "box": box, "strip": strip, "masked": parts is not None, "elev": elev}
    else:
        inp = {"th": th, "box": [round(v * U) for v in mask.bounds], "strip": strip, "masked": True, "elev": elev}
    return dict(kind="box" if box is not None else "part", inp=inp, out={"status": st, "rows": rows, "pairs": pairs, "part": part},
                repro=None if mask is None else mask.wkt)


def invalid(r):
    x, y = r.randint(-150, 100), r.randint(-60, 40)
    m = Polygon([(x, y), (x + 20, y + 20), (x + 20, y), (x, y + 20)])
    st, _ = guarded(lambda: len(generate_equally_spaced_cells(2e6, mask=m)))
    return dict(kind="invalid", inp={"m": m.wkt}, out={"status": st})


def run_case(c):
    th, box, strip = c
    return [cells(th, None if box == GLOBE else [[rect(*box)]], strip, 0, box)]


def clear(box, th):
    """No cell centre within a unit of an edge of the box (rounding decides there)."""
    for v, off in ((box[0], 18000), (box[2], 18000), (box[1], 9000), (box[3], 9000)):
        if abs((v + off) % th - th / 2) < 2:
            return False
    return True


def run_random(seed):
    r = random.Random(seed)
    evs = [invalid(r)]
    for _ in range(12):
        elev = r.choice([0, 0, 100000, -50000, 1234567])
        th = spacing(r, *r.choice([(400, 3000)] * 5 + [(4000, 8500)]))
        strip = r.choice(["no", "no", "lat", "lon"])
        k = r.random()
        if k < 0.15:
            evs.append(cells(th, None, strip, elev, GLOBE))
            continue
        if k < 0.35:
            x, y = sorted(r.sample(range(-18000, 18001), 2)), sorted(r.sample(range(-9000, 9001), 2))
            box = [x[0], y[0], x[1], y[1]]
            if clear(box, th):
                evs.append(cells(th, [[rect(*box)]], strip, elev, box))
            continue
        parts = random_parts(r)
        if r.random() < 0.3:
            parts = wrapped(r)
            b = shape(parts).bounds
            if b[2] > 180:
                th = r.choice(DIVIDING)
                if len(parts) == 1 and len(parts[0]) == 1 and shape(parts).equals(sbox(*b)) and clear([round(v * U) for v in b], th):
                    evs.append(cells(th, parts, strip, elev, [round(v * U) for v in b]))
        if clear([round(v * U) for v in shape(parts).bounds], th):
            evs.append(cells(th, parts, strip, elev))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in ctx.cases["MC_C18"]]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(150, 2000)))
    ctx.pmap(run_case, cases)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(18, 200))])


def corrupt(ev, rng):
    rws = ev["out"].get("rows")
    if not rws:
        return
    k = rng.randrange(len(rws))
    what = rng.choice(["z", "dup", "e", "id"])
    if what == "dup":
        rws.append(dict(rws[k]))
    elif what == "e" and ev["kind"] == "box":
        e = rws[k]["e"]
        if e[0] + 3 >= e[2] or e[1] + 3 >= e[3]:
            return
        e[rng.randrange(4)] += 3
    elif what == "id":
        rws[k]["id"] += 1000000
    else:
        rws[k]["z"] += 5
    yield what, ev
