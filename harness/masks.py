"""Random region masks on a raster of U units per degree, as rings of integers."""
import math

from shapely.geometry import MultiPolygon, Polygon

U = 100


def star(r, cx, cy, rx, ry, n=None):
    n = n or r.randint(4, 9)
    ang = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
    return [[round(cx + rx * r.uniform(0.5, 1) * math.cos(a)), round(cy + ry * r.uniform(0.5, 1) * math.sin(a))] for a in ang]


def rect(x0, y0, x1, y1):
    return [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]


def shape(parts):
    """parts: list of [outer, inner...] rings -> geometry."""
    ps = [Polygon([(x / U, y / U) for x, y in p[0]], [[(x / U, y / U) for x, y in h] for h in p[1:]]) for p in parts]
    return ps[0] if len(ps) == 1 else MultiPolygon(ps)


def random_parts(r, xmin=-18000, xmax=18000, ymin=-8900, ymax=8900, small=600, big=6000):
    """A valid mask: one to three parts, possibly with a hole."""
    for _ in range(200):
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            rx, ry = r.randint(small, big), r.randint(small, big)
            rx, ry = min(rx, (xmax - xmin) // 2 - 1), min(ry, (ymax - ymin) // 2 - 1)
            cx, cy = r.randint(xmin + rx, xmax - rx), r.randint(ymin + ry, ymax - ry)
            k = r.random()
            if k < 0.3:
                outer = rect(cx - rx, cy - ry, cx + rx, cy + ry)
            else:
                outer = star(r, cx, cy, rx, ry)
            part = [outer]
            if r.random() < 0.3:
                part.append(star(r, cx, cy, rx // 3, ry // 3, 5))
            parts.append(part)
        try:
            g = shape(parts)
        except ValueError:
            continue
        if g.is_valid and g.area > 1:
            return parts
    raise RuntimeError("no mask")


def wrapped(r):
    """A mask that (mostly) continues eastward beyond 180 degrees."""
    k = r.random()
    if k < 0.4:
        return random_parts(r, xmin=2000, xmax=33000)
    x, y = r.choice([r.randint(2000, 17500), r.randint(-17000, 17500), r.randint(18100, 21000)]), r.randint(-8500, 7000)
    if x > 18000:
        return [[rect(x, y, r.randint(x + 500, 35000), r.randint(y + 800, 8900))]]
    x1 = min(r.choice([r.randint(18010, 18600), r.randint(18200, 35000)]), x + 35900)
    return [[rect(x, y, x1, r.randint(y + 800, 8900))]]


DIVIDING = [500, 600, 900, 1000, 1200, 1500, 1800, 2000, 3000]


def rings(parts):
    return [ring for p in parts for ring in p]


def spacing(r, lo, hi):
    """An even grid spacing that is not a tie of the rounding to whole cells."""
    while True:
        th = 2 * r.randint(lo, hi)
        if abs(36000 % th - th / 2) > 1 and abs(18000 % th - th / 2) > 1:
            return th
