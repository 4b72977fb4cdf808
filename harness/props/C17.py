"""C17: generated points form the declared lattice; a mask only selects."""
import json
import math
import random

import boot  # noqa: F401
from framework import guarded, ShapeError
from masks import DIVIDING, U, wrapped, random_parts, spacing, rect, rings, shape
from shapely.geometry import Polygon, MultiPolygon
from tatc.generation import generate_equally_spaced_points, generate_fibonacci_lattice_points

MC = [("MC_C17", "MC_C17", "MC_C17_thorough")]
TRACE = "TR_C17"
RULE = ("TLC checks that the index walk over a rounded bounding box yields exactly the grid cells whose centre lies in "
        "the box, row by row with distinct ids, for spacings that do and do not divide 360 degrees; the boxes are replayed "
        "as masks, plus random polygons, multi polygons and holes; the specification itself tests every lattice point "
        "against the mask (even-odd rule on integers) for both generators.")
ASSUMPTIONS = ["positions are compared on a 0.01 degree raster, sines of latitude to 2e-5",
               "points within 0.02 degrees of a mask edge are accepted either way", "lattices of at most 3000 points"]
R = 6371008.7714150598  # mean radius (2a+b)/3 of WGS 84
A, B = 6378137.0, 6356752.314245179
E = math.sqrt(1 - (B / A) ** 2)
AREA = 2 * math.pi * A * A + math.pi * B * B / E * math.log((1 + E) / (1 - E))


def rows(gdf, fib=False):
    if str(gdf.crs).upper() != "EPSG:4326":
        raise ShapeError("crs")
    out = []
    for i, p in zip(gdf.point_id, gdf.geometry):
        if p.geom_type != "Point":
            raise ShapeError(p.geom_type)
        q = {"id": int(i), "x": round(p.x * U), "y": round(p.y * U), "z": round(p.z * 1000) if p.has_z else -1}
        if fib:
            q["sine"] = round(math.sin(math.radians(p.y)) * 100000)
        out.append(q)
    return out


def mask_of(parts):
    return None if parts is None else shape(parts)


def west(parts):
    """West edge of the chart of a mask."""
    return round(shape(parts).bounds[0] * U) if parts and shape(parts).bounds[2] > 180 else -18000


def grid(th, parts, elev):
    d = math.radians(th / U) * R
    kw = {} if elev == 0 else {"elevation": elev / 1000}
    st, res = guarded(lambda: rows(generate_equally_spaced_points(d, mask=mask_of(parts), **kw)))
    return dict(kind="grid", inp={"th": th, "rings": rings(parts or []), "west": west(parts), "elev": elev}, out={"status": st, "rows": res or []})


def fib_n(d):
    return AREA / (2 * math.pi * R * R * (1 - math.cos(d / R / 2)))


def fib(d, parts, wrap, elev):
    n = fib_n(d)
    if abs(n - round(n)) < 1e-3:
        d *= 1.0007
        n = fib_n(d)
    kw = {} if elev == 0 else {"elevation": elev / 1000}
    mask = mask_of(parts)

    def run():
        got = rows(generate_fibonacci_lattice_points(d, mask=mask, **kw), True)
        return got, rows(generate_fibonacci_lattice_points(d), True) if mask is not None else []
    st, res = guarded(run)
    return dict(kind="fib", inp={"n": int(n), "rings": rings(parts or []), "west": west(parts), "wrap": wrap, "elev": elev},
                out={"status": st, "rows": res[0] if res else [], "all": res[1] if res else []})


def invalid(r):
    x, y = r.randint(-150, 100), r.randint(-60, 40)
    bow = Polygon([(x, y), (x + 20, y + 20), (x + 20, y), (x, y + 20)])
    m = r.choice([bow, MultiPolygon([Polygon([(x, y), (x + 20, y), (x + 20, y + 20)]), Polygon([(x + 5, y), (x + 20, y), (x + 20, y + 15)])])])
    f = r.choice([generate_equally_spaced_points, generate_fibonacci_lattice_points])
    st, _ = guarded(lambda: len(f(2e6, mask=m)))
    return dict(kind="invalid", inp={"f": f.__name__}, out={"status": st})


def run_case(c):
    th, box, _ = c
    parts = None if box == [-18000, -9000, 18000, 9000] else [[rect(*box)]]
    return [grid(th, parts, 0), fib(math.radians(th / U) * R, parts, box[2] > 18000, 0)]


def run_random(seed):
    r = random.Random(seed)
    evs = [invalid(r)]
    for _ in range(10):
        elev = r.choice([0, 0, 100000, -50000, 1234567])
        parts = r.choice([None, random_parts(r), random_parts(r), random_parts(r)])
        if parts is None and r.random() < 0.5:
            evs.append(grid(spacing(r, 400, 4000), None, elev))
        else:
            evs.append(grid(spacing(r, 400, 3000), parts, elev))
        wrap = parts is not None and r.random() < 0.5
        if wrap:
            parts = wrapped(r)
            wrap = shape(parts).bounds[2] > 180
            if wrap:
                evs.append(grid(r.choice(DIVIDING), parts, elev))
        d = r.choice([r.uniform(4e5, 3e6), r.uniform(1e6, 6e6), r.uniform(6e6, 1.9e7)])
        evs.append(fib(d, parts, wrap, elev))
    for _ in range(2):  # a handful of points for the whole globe
        evs.append(grid(spacing(r, 4000, 8500), r.choice([None, random_parts(r, big=12000)]), 0))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in ctx.cases["MC_C17"]]
    cases = [c for c in cases if c[2] == "no"]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(60, 600)))
    ctx.pmap(run_case, cases)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(32, 160))])


def corrupt(ev, rng):
    rws = ev["out"].get("rows")
    if not rws:
        return
    k = rng.randrange(len(rws))
    what = rng.choice(["id", "x", "y", "z", "dup"])
    if what == "dup":
        rws.append(dict(rws[k]))
    elif what == "y" and ev["kind"] == "fib":
        rws[k]["sine"] += 40
    elif what == "id":
        rws[k]["id"] += 1
    else:
        rws[k][what] += 5
    yield what, ev
