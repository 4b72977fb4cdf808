"""Random orbits and an independent view of where a satellite is."""
import boot  # noqa: F401
from datetime import datetime, timedelta, timezone

import numpy as np
from skyfield.api import EarthSatellite, wgs84, load
from skyfield.framelib import itrs
from tatc import config
from tatc.schemas import (CircularOrbit, KeplerianOrbit, SunSynchronousOrbit, TwoLineElements)
from tables import BASE

TS = load.timescale(builtin=True)
RE = 6371008.7714  # mean radius of WGS 84

_RAW = ["1 25544U 98067A   22152.50000000  .00003432  00000-0  70541-4 0  9992",
       "2 25544  51.6455  41.4969 0003508  68.0432  78.3395 15.48957534286754"]


def checksum(line):
    return line[:68] + str(sum(int(c) if c.isdigit() else (c == "-") for c in line[:68]) % 10)


def tle_lines(inc, raan, ecc, argp, ma, n, epoch=None, bstar=" 00000-0", sat=99999, ndot=" .00000000", nddot=" 00000-0",
              cls="U", intl="22001A  ", eset=999, rev=1):
    """Formats an element set (epoch as aware datetime)."""
    epoch = epoch or BASE
    y = epoch.year % 100
    day = (epoch - datetime(epoch.year, 1, 1, tzinfo=timezone.utc)) / timedelta(days=1) + 1
    l1 = f"1 {sat:>5}{cls} {intl:<8} {y:02d}{day:012.8f} {ndot} {nddot} {bstar} 0 {eset:4d}"
    l2 = (f"2 {sat:>5} {inc:8.4f} {raan:8.4f} {int(round(ecc * 1e7)):07d} {argp:8.4f} {ma:8.4f} "
          f"{n:11.8f}{rev:5d}")
    return [checksum(l1 + "0"), checksum(l2 + "0")]


ISS = [checksum(x) for x in _RAW]


def period_s(alt):
    return 2 * np.pi * np.sqrt((RE + alt) ** 3 / 3.986004418e14)


def random_orbit(r, kinds=("tle", "circular", "sso", "keplerian"), alt=None, epoch=None):
    epoch = epoch or BASE + timedelta(seconds=r.randint(-86400, 86400))
    alt = r.choice([300e3, 420e3, 550e3, 700e3, 900e3, 1400e3, 2000e3]) + r.randint(-20000, 20000) if alt is None else alt
    k = r.choice(kinds)
    if k == "tle":
        return TwoLineElements(tle=tle_lines(r.choice([28.5, 51.6, 66.0, 82.0, 97.5, 110.0]), r.uniform(0, 359), r.choice([0.0001, 0.001, 0.005]),
                                             r.uniform(0, 359), r.uniform(0, 359), 86400 / period_s(alt), epoch))
    if k == "sso":
        from datetime import time
        return SunSynchronousOrbit(altitude=min(alt, 1200e3), true_anomaly=r.uniform(0, 359), epoch=epoch,
                                   equator_crossing_time=time(r.randint(0, 23), r.randint(0, 59)),
                                   equator_crossing_ascending=r.random() < 0.5)
    inc = r.choice([15.0, 28.5, 51.6, 66.0, 82.0, 97.5, 130.0])
    if k == "circular":
        return CircularOrbit(altitude=alt, true_anomaly=r.uniform(0, 359), epoch=epoch, inclination=inc,
                             right_ascension_ascending_node=r.uniform(0, 359))
    return KeplerianOrbit(altitude=alt, true_anomaly=r.uniform(0, 359), epoch=epoch, inclination=inc,
                          right_ascension_ascending_node=r.uniform(0, 359), eccentricity=r.choice([0.0, 0.002, 0.008]),
                          perigee_argument=r.uniform(0, 359))


def eccentric_orbit(r):
    """An orbit whose altitude varies by thousands of kilometres."""
    e = r.choice([0.05, 0.1, 0.2])
    return KeplerianOrbit(altitude=(RE + r.choice([450e3, 700e3, 1200e3])) / (1 - e) - RE, true_anomaly=r.uniform(0, 359),
                          epoch=BASE + timedelta(seconds=r.randint(-86400, 86400)), inclination=r.choice([28.5, 51.6, 66.0, 97.5]),
                          right_ascension_ascending_node=r.uniform(0, 359), eccentricity=e, perigee_argument=r.uniform(0, 359))


def no_repeat():
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False


def with_repeat(flag=True):
    config.rc.repeat_cycle_for_orbit_track = flag
    config.rc.repeat_cycle_for_observation_events = flag


def sat_of(lines, ):
    return EarthSatellite(lines[0], lines[1], ts=TS)


def t_of(secs, base=BASE):
    """Skyfield time of seconds after base (scalar or array), through UTC."""
    return TS.utc(base.year, base.month, base.day, base.hour, base.minute, np.asarray(secs) + base.second)


def elevation(sat, topos, secs):
    return (sat - topos).at(t_of(secs)).altaz()[0].degrees


def azimuth(sat, topos, secs):
    return (sat - topos).at(t_of(secs)).altaz()[1].degrees


def passes(sat, topos, a, b, min_el, step=15.0):
    """Maximal periods (seconds after BASE) within [a, b] with elevation >= min_el.

    Periods touching a or b are cut there.  Independent of skyfield's event
    search: dense sampling (with local refinement of maxima) and bisection."""
    n = int((b - a) / step) + 2
    t = np.linspace(a, b, n)
    el = elevation(sat, topos, t)
    # refine around local maxima so that short passes are not missed
    k = np.where((el[1:-1] >= el[:-2]) & (el[1:-1] >= el[2:]) & (el[1:-1] > min_el - 20))[0] + 1
    if len(k):
        fine = np.concatenate([np.linspace(t[i - 1], t[i + 1], 31) for i in k])
        t = np.unique(np.concatenate([t, fine]))
        el = elevation(sat, topos, t)
    up = el >= min_el
    ch = np.where(up[1:] != up[:-1])[0]
    lo, hi = t[ch].copy(), t[ch + 1].copy()
    rising = up[ch + 1]
    for _ in range(18):
        if len(lo) == 0:
            break
        mid = (lo + hi) / 2
        e = elevation(sat, topos, mid) >= min_el
        same = e == rising
        hi = np.where(same, mid, hi)
        lo = np.where(same, lo, mid)
    cross = (lo + hi) / 2
    out = []
    start = a if up[0] else None
    for c, rise in zip(cross, rising):
        if rise:
            start = float(c)
        else:
            out.append((start, float(c)))
            start = None
    if start is not None:
        out.append((start, b))
    return out


def ecef(track):
    p, v = track.frame_xyz_and_velocity(itrs)
    return p.m, v.m_per_s


__all__ = [n for n in dir() if not n.startswith("_")]
