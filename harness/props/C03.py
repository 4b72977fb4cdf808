"""C03: multi-satellite observations are the ordered union over members."""
import random
from datetime import timedelta

from orbits import no_repeat, random_orbit, sat_of, wgs84, t_of, CircularOrbit, BASE
from tables import at, ms, col
from framework import guarded, ShapeError
from C02 import random_instrument
from tatc.analysis import collect_observations, collect_multi_observations
from tatc.schemas import (Point, Satellite, Instrument, TrainConstellation, WalkerConstellation, MOGConstellation, SOCConstellation)

MC = [("MC_C03", "MC_C03", "MC_C03_thorough")]
TRACE = "TR_C03"
RULE = ("TLC checks the k-way merge; recorded calls: lists of up to 4 systems (single satellites, trains, Walker, mutual orbiting groups; systems "
        "sharing orbits and names; a single system not in a list), up to 3 instruments each, compared record by record with the real single "
        "member/instrument collections; windows with and without observations.")
ASSUMPTIONS = ["the per-member collections are judged by C02, member generation by C08-C11", "repeat cycles disabled"]


def sig(gdf, k, cols):
    out = []
    for c in cols:
        v = gdf[c].iloc[k]
        if c == "geometry":
            v = v.wkt
        elif isinstance(v, float) or c in ("sat_alt", "sat_az", "solar_alt", "solar_az", "solar_time"):
            v = f"{float(v):.6f}"
        out.append(f"{c}={v}")
    return "|".join(out)


def rows_of(gdf):
    cols = sorted(gdf.columns)
    import pandas as pd
    return [{"s": int((pd.Timestamp(gdf["start"].iloc[k]).value - pd.Timestamp(BASE).value) // 10 ** 6), "sig": sig(gdf, k, cols)} for k in range(len(gdf))]


def system(r, i):
    ins = [random_instrument(r, k).model_copy(update={"min_access_time": timedelta(0), "req_self_sunlit": None}) for k in range(r.choice([1, 1, 2, 3, 5]))]
    name = r.choice(["A", "B", f"S{i}"])
    kind = r.choice(["sat", "sat", "train", "walker", "mog"])
    if kind == "sat":
        return Satellite(name=name, orbit=random_orbit(r), instruments=ins), 1
    if kind == "train":
        n = r.randint(1, 3)
        return TrainConstellation(name=name, orbit=random_orbit(r, ("tle", "circular", "keplerian")), instruments=ins, number_satellites=n,
                                  interval=timedelta(minutes=r.choice([2, 10, 30])), repeat_ground_track=r.random() < .5), n
    if kind == "walker":
        n, p = r.choice([(4, 2), (3, 3), (3, 2), (5, 1), (12, 3)])
        return WalkerConstellation(name=name, orbit=random_orbit(r, ("circular", "keplerian")), instruments=ins, number_satellites=n, number_planes=p,
                                   relative_spacing=r.randrange(p), configuration=r.choice(["delta", "star"])), n
    n = r.randint(1, 3)
    return MOGConstellation(name=name, orbit=random_orbit(r, ("circular",)).model_copy(update={"true_anomaly": 0}), instruments=ins,
                            parallel_axis=200e3, transverse_axis=300e3, number_satellites=n), n


def run_one(seed):
    no_repeat()
    r = random.Random(seed)
    evs = []
    systems, ns = zip(*[system(r, i) for i in range(r.choice([1, 1, 2, 3, 4, 6]))])
    systems = list(systems)
    if r.random() < 0.2:
        systems.append(systems[0])
        ns = ns + (ns[0],)
    a = r.randint(0, 86400)
    st, tle = guarded(lambda: systems[0].generate_members()[0].orbit.to_tle().tle)
    lat, lon = r.uniform(-60, 60), r.uniform(-180, 180)
    if st == "ok":
        s = wgs84.subpoint_of(sat_of(tle).at(t_of(a + 1000)))
        lat, lon = s.latitude.degrees, s.longitude.degrees
    point = Point(id=r.randint(0, 99), latitude=lat, longitude=lon, elevation=r.choice([0, 0, -300, 4000]))
    for length in (1800, r.choice([300, 5400]), 6):
        solar = r.random() < 0.3
        if length == 6:
            point = Point(id=1, latitude=-lat, longitude=(lon + 360) % 360 - 180 if abs(lat) > 1 else -lon)
        parts, cols = [], set()

        def gather():
            for c in systems:
                for m in c.generate_members():
                    for k in range(len(m.instruments)):
                        g = collect_observations(point, m, at(a * 1000), at((a + length) * 1000), instrument_index=k, omit_solar=not solar)
                        parts.append(rows_of(g))
                        cols.update(g.columns)
        st, _ = guarded(gather)
        arg = systems if len(systems) > 1 or r.random() < 0.5 else systems[0]

        def run():
            g = collect_multi_observations(point, arg, at(a * 1000), at((a + length) * 1000), omit_solar=not solar)
            return rows_of(g), [str(c) for c in g.columns], [int(i) for i in g.index]
        if st == "ok":
            st, val = guarded(run)
        else:
            val = None
        rows, cs, ix = val or ([], [], [])
        evs.append(dict(kind="empty" if not any(parts) else "union",
                        inp={"parts": parts, "cols": sorted(cols), "systems": [{"members": n, "instruments": len(c.instruments)} for c, n in zip(systems, ns)]},
                        out={"status": st, "rows": rows, "cols": cs, "index": ix},
                        repro={"systems": [c.model_dump(mode="json") for c in systems]}))
    return evs


def drive(ctx):
    ctx.pmap(run_one, [f"{ctx.seed}/{i}" for i in range(ctx.scale(90, 900))], chunk=1)


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        return
    k = rng.randrange(len(rows))
    what = rng.choice(["drop", "dup", "sig", "swap"])
    if what == "drop":
        del rows[k]
        ev["out"]["index"] = ev["out"]["index"][:-1]
    elif what == "dup":
        rows.insert(k, rows[k])
        ev["out"]["index"].append(len(rows) - 1)
    elif what == "sig":
        rows[k]["sig"] += "x"
    else:
        if rows[0]["s"] == rows[-1]["s"]:
            return
        rows[0], rows[-1] = rows[-1], rows[0]
    yield what, ev
