"""Orbit definitions of every type over the whole domain of their fields (element level, no propagation)."""
import math
from datetime import datetime, time, timedelta, timezone

from orbits import tle_lines, BASE, CircularOrbit, KeplerianOrbit, SunSynchronousOrbit, TwoLineElements
from elements import tle_elements, shape, elements
from tatc.schemas import MolniyaOrbit, TundraOrbit

KINDS = ("tle", "circular", "sso", "keplerian", "molniya", "tundra")


def angle(r):
    return r.choice([0.0, r.uniform(0, 360), r.uniform(0, 360), r.uniform(0, 360), 90.0, 180.0, 270.0, 359.9999, math.nextafter(360, 0), 1e-9])


def tangle(r):
    return r.choice([0.0, 359.9999, 180.0, round(r.uniform(0, 359.999), 4), round(r.uniform(0, 359.999), 4), round(r.uniform(0, 359.999), 4)])


def wide_epoch(r):
    return r.choice([BASE + timedelta(seconds=r.randint(-86400, 86400)), BASE + timedelta(milliseconds=r.randint(-10**9, 10**9)),
                     datetime(r.choice([1999, 2000, 2020, 2024, 2021, 2030]), r.choice([1, 2, 3, 12]), r.choice([1, 28]), r.randint(0, 23),
                              r.randint(0, 59), tzinfo=timezone.utc)])


def drag(r):
    return {"bstar": r.choice([" 00000-0", " 70541-4", "-11606-4", " 12345-3", " 99999-6"]),
            "ndot": r.choice([" .00000000", " .00003432", "-.00002182", " .00100000"]),
            "nddot": r.choice([" 00000-0", " 12345-9", "-54321-8"])}


def one_tle(r, epoch):
    return tle_lines(r.choice([0.0, 28.5, 51.6455, 97.5, 145.25, 179.9]), tangle(r), r.choice([0.0, 1e-7, 0.001, 0.05, 0.7]), tangle(r), tangle(r),
                     r.choice([15.5, 14.2, 1.0027, 2.005, 11.25967]), epoch, **drag(r))


def wide_orbit(r, kinds=KINDS, multi=True):
    k = r.choice(kinds)
    ep = wide_epoch(r)
    if k == "tle":
        n = r.choice([1, 1, 2, 3, 5]) if multi else 1
        lines, e = [], ep
        for _ in range(n):
            lines += one_tle(r, e)
            e += timedelta(seconds=r.choice([0, 60, 3600, 86400, 10 * 86400]))
        return TwoLineElements(tle=lines)
    alt = r.choice([200e3, 550e3, 786e3, 1500e3, 8000e3, 20200e3, 35786e3])
    if k == "sso":
        return SunSynchronousOrbit(altitude=min(alt, 5.9e6), true_anomaly=angle(r), epoch=ep,
                                   equator_crossing_time=time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 500000])),
                                   equator_crossing_ascending=r.random() < 0.5)
    inc = r.choice([0.0, 1e-6, 15.0, 51.6, 63.4, 90.0, 97.5, 130.0, 179.9])
    d = dict(true_anomaly=angle(r), epoch=ep, inclination=inc, right_ascension_ascending_node=angle(r))
    if k == "circular":
        return CircularOrbit(altitude=alt, **d)
    d["perigee_argument"] = angle(r)
    if k == "keplerian":
        return KeplerianOrbit(altitude=alt, eccentricity=r.choice([0.0, 1e-7, 0.002, 0.05, 0.2, 0.5, 0.74]), **d)
    if k == "molniya":
        return MolniyaOrbit(altitude=r.choice([500e3, 600e3, 1500e3]), orbital_period=r.choice([43080.0, 43200.0, 20000.0, 86164.0]), **d)
    return TundraOrbit(altitude=r.choice([500e3, 24000e3]), orbital_period=r.choice([86400.0, 86164.0, 43080.0]),
                       eccentricity=r.choice([0.0, 0.1, 0.2, 0.35, 0.5]), **d)


def sets(o):
    """Shapes of every element set of an orbit."""
    if o.type != "tle":
        return [shape(o)]
    out = []
    for i in range(0, len(o.tle), 2):
        out.append(shape(TwoLineElements.model_construct(type="tle", tle=list(o.tle[i:i + 2]))))
    return out
