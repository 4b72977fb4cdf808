"""Independent reading of the orbital elements an orbit definition prescribes."""
import boot
from datetime import datetime, timedelta, timezone

import numpy as np

from framework import ShapeError
from orbits import TS, RE

MU = 3.986004418e14
G_M = 6.6743e-11 * 5.9736e24


def true_to_mean(nu, e):
    nu = np.radians(nu)
    E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(nu / 2), np.sqrt(1 + e) * np.cos(nu / 2))
    return float(np.degrees(E - e * np.sin(E)) % 360)


def mean_to_true(M, e):
    M = np.radians(M % 360)
    E = M
    for _ in range(60):
        E = E - (E - e * np.sin(E) - M) / (1 - e * np.cos(E))
    return float(np.degrees(2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))) % 360)


def tle_epoch(line1):
    y = int(line1[18:20])
    y += 1900 if y >= 57 else 2000
    return datetime(y, 1, 1, tzinfo=timezone.utc) + timedelta(days=float(line1[20:32]) - 1)


def tle_elements(l1, l2):
    return {"type": "tle", "ma": float(l2[43:51]), "raan": float(l2[17:25]), "inc": float(l2[8:16]), "ecc": float("0." + l2[26:33].strip()),
            "argp": float(l2[34:42]), "n": float(l2[52:63]), "epoch": tle_epoch(l1),
            "drag": f"{float(l1[33:43]) + 0.0:.8f}/{implied(l1[44:52]):.4e}/{implied(l1[53:61]):.4e}"}


def implied(field):
    """Value of a TLE field with implied decimal point and exponent (s.ddddd x 10^e)."""
    f = field.strip() or "00000+0"
    sign, f = (-1, f[1:]) if f[0] == "-" else (1, f.lstrip("+"))
    k = max(f.rfind("-"), f.rfind("+"))
    if k <= 0:
        k = len(f)
        f += "+0"
    return sign * float("0." + f[:k]) * 10.0 ** int(f[k:]) + 0.0


def sun_ra(epoch):
    t = TS.from_datetime(epoch)
    e = boot.EPHEMERIS
    return float(e["earth"].at(t).observe(e["sun"]).radec()[0]._degrees)


def mean_motion(alt):
    return float(86400 / (2 * np.pi) * np.sqrt(MU / (RE + alt) ** 3))


def elements(o):
    """Elements in degrees / rev per day of a non-TLE or single TLE orbit."""
    t = o.type
    if t == "tle":
        return tle_elements(o.tle[0], o.tle[1])
    d = {"type": t, "epoch": o.epoch, "drag": "0"}
    if t == "circular":
        d.update(ma=o.true_anomaly, raan=o.right_ascension_ascending_node, inc=o.inclination, ecc=0.0, argp=0.0, n=mean_motion(o.altitude))
    elif t == "sso":
        ect = o.equator_crossing_time
        day = (ect.hour * 3600 + ect.minute * 60 + ect.second + ect.microsecond / 1e6) / 86400
        raan = (sun_ra(o.epoch) + 360 * day - (180 if o.equator_crossing_ascending else 0)) % 360
        d.update(ma=o.true_anomaly, raan=raan, inc=float(np.degrees(np.arccos(-(((RE + o.altitude) / 12352000) ** 3.5)))), ecc=0.0, argp=0.0,
                 n=mean_motion(o.altitude))
    elif t == "keplerian":
        d.update(ma=true_to_mean(o.true_anomaly, o.eccentricity), raan=o.right_ascension_ascending_node, inc=o.inclination, ecc=o.eccentricity,
                 argp=o.perigee_argument, n=mean_motion(o.altitude))
    elif t in ("molniya", "tundra"):
        a = (G_M * o.orbital_period ** 2 / (4 * np.pi ** 2)) ** (1 / 3)
        e = (a - (o.altitude + 6378137.0)) / a if t == "molniya" else o.eccentricity
        d.update(ma=true_to_mean(o.true_anomaly, e), raan=o.right_ascension_ascending_node, inc=o.inclination, ecc=float(e),
                 argp=o.perigee_argument, n=86400 / o.orbital_period)
    else:
        raise ShapeError("orbit type " + str(t))
    return d


def mdeg(x):
    return int(round(float(x) * 1000))


def shape(o):
    """Everything a derived orbit must keep, as integers (degrees in 1e-4, etc.)."""
    e = elements(o)
    from tables import BASE
    ms = int(round((e["epoch"] - BASE).total_seconds() * 1000))
    return {"ma": mdeg(e["ma"]), "raan": mdeg(e["raan"]), "inc": int(round(e["inc"] * 1e4)), "ecc": int(round(e["ecc"] * 1e7)),
            "argp": int(round(e["argp"] * 1e4)), "n": int(round(e["n"] * 1e7)), "epd": ms // 86400000, "ep": ms % 86400000,
            "alt": int(round(getattr(o, "altitude", 0) or 0)), "drag": e["drag"] if o.type == "tle" else "0", "type": o.type}
