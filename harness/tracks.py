"""Independent view of a satellite's state, its sun, and its view of the ground."""
import math
from datetime import timedelta

import boot
import geopandas as gpd
import numpy as np
from framework import NA, i32
from orbits import TS, ecef, sat_of
from shapely.geometry import Point
from shapely.ops import unary_union
from skyfield.api import wgs84

EPH = boot.EPHEMERIS
RE = 6371008.771415059
A, F = 6378137.0, 1 / 298.257223563
B = A * (1 - F)
E2 = F * (2 - F)


def geodetic(p):
    """Longitude, latitude (degrees) and height (m) of ECEF coordinates."""
    x, y, z = (float(v) for v in p)
    w = math.hypot(x, y)
    lat = math.atan2(z, w * (1 - E2))
    h = 0.0
    for _ in range(12):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        h = w * math.cos(lat) + z * math.sin(lat) - A * math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(z, w * (1 - E2 * n / (n + h)))
    return math.degrees(math.atan2(y, x)), math.degrees(lat), h


def xyz(lon, lat, h):
    n = A / math.sqrt(1 - E2 * math.sin(math.radians(lat)) ** 2)
    c, s = math.cos(math.radians(lat)), math.sin(math.radians(lat))
    return np.array([(n + h) * c * math.cos(math.radians(lon)), (n + h) * c * math.sin(math.radians(lon)), (n * (1 - E2) + h) * s])


class State:
    """The satellite at one aware datetime."""

    def __init__(self, sat, when):
        self.when = when
        self.t = TS.from_datetime(when)
        self.g = sat.at(self.t)
        self.p, self.v = ecef(self.g)
        self.lon, self.lat, self.alt = geodetic(self.p)
        self.sat = sat

    @property
    def lit(self):
        """1 lit, -1 dark, 0 about to change."""
        vals = {bool(self.sat.at(TS.from_datetime(self.when + timedelta(seconds=d))).is_sunlit(EPH)) for d in (-1, 0, 1)}
        return 0 if len(vals) > 1 else 1 if vals.pop() else -1

    def sun_altaz(self, lon, lat, h):
        a, z, _ = (EPH["earth"] + wgs84.latlon(lat, lon, h)).at(self.t).observe(EPH["sun"]).apparent().altaz()
        return float(a.degrees), float(z.degrees)

    def sat_altaz(self, lon, lat, h):
        """Direction from the ground point to the satellite."""
        d = self.p - xyz(lon, lat, h)
        la, lo = math.radians(lat), math.radians(lon)
        up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
        east = np.array([-math.sin(lo), math.cos(lo), 0.0])
        north = np.cross(up, east)
        u, e, n = d @ up, d @ east, d @ north
        return math.degrees(math.atan2(u, math.hypot(e, n))), math.degrees(math.atan2(e, n)) % 360

    @property
    def beta(self):
        n = np.cross(self.g.position.m, self.g.velocity.m_per_s)
        s = EPH["earth"].at(self.t).observe(EPH["sun"]).position.m
        return math.degrees(math.asin(n @ s / np.linalg.norm(n) / np.linalg.norm(s)))


def frame(st):
    """Nadir (towards the Earth's centre), velocity and right-hand directions."""
    b = -st.p / np.linalg.norm(st.p)
    v = st.v / np.linalg.norm(st.v)
    return b, v, np.cross(v, b)


def hit(p, d, elev):
    """First point where the ray from p along d meets the raised ellipsoid, or None."""
    k = np.array([1 / (A + elev), 1 / (A + elev), 1 / (B + elev)])
    u, w = p * k, d * k
    a, h, c = w @ w, u @ w, u @ u - 1
    q = h * h - a * c
    if q < 0:
        return None
    t = (-h - math.sqrt(q)) / a
    return None if t < 0 else p + t * d


def ground(st, x, y, elev=0):
    """Where the view at tangents x (right) and y (forward) from nadir meets the ground."""
    b, v, n = frame(st)
    g = hit(st.p, b + x * n + y * v, elev)
    return None if g is None else geodetic(g)


def tan(deg):
    return math.tan(math.radians(deg))


def valid(st, ins, lon, lat, h):
    """1 valid, -1 invalid, 0 undecided (near a threshold)."""
    res = 1
    if ins.req_self_sunlit is not None:
        lit = st.lit
        if lit == 0:
            res = 0
        elif (lit > 0) != ins.req_self_sunlit:
            return -1
    if ins.req_target_sunlit is not None:
        a, _ = st.sun_altaz(lon, lat, h)
        if abs(a) < 0.02:
            res = 0
        elif (a > 0) != ins.req_target_sunlit:
            return -1
    return res


def swath(alt, fov, elev):
    """Diameter (m) of the ground seen within half the field of regard from nadir."""
    s = (RE + elev) / (RE + alt)
    eta = math.radians(min(fov, 180) / 2)
    if math.sin(eta) >= s:
        lam = math.acos(s)
    else:
        lam = math.asin(math.sin(eta) / s) - eta
    return 2 * (RE + elev) * lam


def turn(got, want):
    """got moved by whole turns next to want (degrees)."""
    if got is None or got != got:
        return got
    return want + (got - want + 180) % 360 - 180


def cmp(name, got, want, scale, tol):
    return {"name": name, "got": i32(None if got is None else got * scale), "want": i32(want * scale), "tol": math.ceil(tol)}


def mask_forms(r, geom, other=None):
    """The same region as polygon, series or frame; (argument, union of it)."""
    k = r.choice(["plain", "multi", "multi", "series", "frame", "frame2", "frame2", "series2", "series2"])
    geoms = [geom] if k in ("plain", "series", "frame") or other is None else [geom, other]
    if k == "plain":
        return geom, geoms
    geoms = r.sample(geoms, len(geoms))
    if k == "multi":
        return unary_union(geoms), geoms
    idx = r.sample(range(50), len(geoms))
    if k.startswith("series"):
        return gpd.GeoSeries(geoms, crs="EPSG:4326", index=idx), geoms
    return gpd.GeoDataFrame({"tag": list(range(len(geoms)))}, geometry=geoms, crs="EPSG:4326", index=idx), geoms


def clusters(r, t0, half):
    """Sample times in two dense clusters half a revolution apart (so that the mean step stays short)."""
    m = r.choice([8, 12, 18])
    return [t0 + timedelta(seconds=i + k * half) for k in (0, 1) for i in range(m)]


def where(geoms, lon, lat, eps=1e-3):
    p = Point(lon, lat)
    if min(g.boundary.distance(p) for g in geoms) < eps:
        return "edge"
    return "in" if any(g.contains(p) for g in geoms) else "out"


def index_of(times, t):
    """Index (1-based) of the requested time nearest to a record's, 0 if none."""
    d = [abs((x - t).total_seconds()) for x in times]
    k = int(np.argmin(d))
    return k + 1 if d[k] < 0.005 else 0


__all__ = [n for n in dir() if not n.startswith("_")]
