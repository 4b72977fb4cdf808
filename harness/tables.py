"""Builds observation / downlink tables and projects result tables."""
import boot  # noqa: F401
from datetime import datetime, timedelta, timezone

import geopandas as gpd
import pandas as pd
from shapely.geometry import Point

from framework import NA, ShapeError

BASE = datetime(2022, 6, 1, tzinfo=timezone.utc)


def at(ms):
    return BASE + timedelta(milliseconds=ms)


def ms(t):
    """Milliseconds since BASE, NA for missing."""
    if t is None or t is pd.NaT or (isinstance(t, float) and t != t):
        return NA
    t = pd.Timestamp(t)
    if t is pd.NaT:
        return NA
    v = (t - pd.Timestamp(BASE)).value if t.tzinfo is not None else None
    if v is None:
        raise ShapeError("naive timestamp")
    return max(-1073741823, min(1073741823, round(v / 1e6)))


def dms(d):
    """Milliseconds of a duration, NA for missing."""
    if d is None:
        return NA
    d = pd.Timedelta(d)
    if d is pd.NaT:
        return NA
    return max(-1073741823, min(1073741823, round(d.value / 1e6)))


def mdeg(x):
    return max(-1073741823, min(1073741823, round(float(x) * 1000)))


def col(df, name):
    if name not in df.columns:
        raise ShapeError("no column " + name)
    return list(df[name])


def obs_frame(rows):
    """rows of dict(p, s, e, ep, sat, ins, x, y) in ms / millidegrees."""
    return gpd.GeoDataFrame(
        {
            "point_id": [r["p"] for r in rows],
            "geometry": [Point(r["x"] / 1000, r["y"] / 1000, r.get("z", 0)) for r in rows],
            "satellite": [r["sat"] for r in rows],
            "instrument": [r["ins"] for r in rows],
            "start": pd.Series([pd.Timestamp(at(r["s"])) for r in rows], dtype="datetime64[ns, UTC]"),
            "end": pd.Series([pd.Timestamp(at(r["e"])) for r in rows], dtype="datetime64[ns, UTC]"),
            "epoch": pd.Series([pd.Timestamp(at(r["ep"])) for r in rows], dtype="datetime64[ns, UTC]"),
            "sat_alt": [r.get("alt", 45) * 1.0 for r in rows],
            "sat_az": [r.get("az", 10) * 1.0 for r in rows],
        },
        crs="EPSG:4326",
    )
