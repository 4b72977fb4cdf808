"""C27: radio occultation observations."""
import json
import math
import random
from datetime import timedelta

import numpy as np
from framework import guarded, i32
from orbits import BASE, TS, ecef, no_repeat, period_s, random_orbit, sat_of, tle_lines
from tracks import cmp, geodetic, turn, xyz
from props.C26 import lines_at, multi
from tatc.analysis import collect_ro_observations
from tatc.schemas import CircularOrbit, Instrument, KeplerianOrbit, Satellite

MC = [("MC_C27", "MC_C27", "MC_C27_thorough")]
TRACE = "TR_C27"
RULE = ("TLC checks, for every short word of sample classes, that reading samples one by one finds exactly the maximal runs of good "
        "samples; every word is replayed with sample times picked from real receiver-transmitter geometries of those classes, and "
        "hours of real constellations are sampled; classes, tangent points and angles come from an independent computation.")
ASSUMPTIONS = ["the maximum yaw is between 0 and 90 degrees",
               "sample times within 10 m of a height limit, 1e-4 degrees of a yaw limit or of looking straight down are not used",
               "repeat cycles disabled (C16)"]
COLUMNS = {"receiver", "transmitter", "is_rising", "geometry", "position", "rx_tx_pitch", "rx_tx_yaw", "tp_tx_azimuth", "start", "end", "time"}


def states(orbit, times):
    """Inertial and Earth-fixed positions and inertial velocities at the times."""
    tle = orbit.to_tle().tle
    if len(tle) == 2:
        g = sat_of(tle).at(TS.from_datetimes(times))
        return g.position.m.T, g.velocity.m_per_s.T, ecef(g)[0].T
    gs = [sat_of(lines_at(orbit, t)).at(TS.from_datetime(t)) for t in times]
    return np.array([g.position.m for g in gs]), np.array([g.velocity.m_per_s for g in gs]), np.array([ecef(g)[0] for g in gs])


def geometry(rx, tx, times, yaw, rng):
    """Per time: class, tangent point (lon, lat, h), pitch, yaw, azimuth; None if too close to a limit."""
    p, v, pe = states(rx.orbit, times)
    q, _, qe = states(tx.orbit, times)
    out = []
    for i in range(len(times)):
        d, de = q[i] - p[i], qe[i] - pe[i]
        along = -(pe[i] @ de) / (de @ de)  # position of the tangent point from receiver (0) to transmitter (1)
        n = np.cross(p[i], v[i])
        n, f, u = n / np.linalg.norm(n), v[i] / np.linalg.norm(v[i]), p[i] / np.linalg.norm(p[i])
        dn, df, du = d @ n, d @ f, d @ u
        # components: the plane normal to n keeps f and u, the plane normal to u keeps f and n
        pitch = math.degrees(math.atan2(du, d @ f))
        y = math.degrees(math.atan2(dn, (d - du * u) @ f))
        pitch = math.degrees(math.atan2((d - dn * n) @ u, (d - dn * n) @ f))
        lon, lat, h = geodetic(pe[i] + along * de)
        t = qe[i] - xyz(lon, lat, h)
        la, lo = math.radians(lat), math.radians(lon)
        up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
        e = np.array([-math.sin(lo), math.cos(lo), 0.0])
        az = math.degrees(math.atan2(t @ e, t @ np.cross(up, e))) % 360
        off = min(abs(y), 180 - abs(y))
        if min(abs(along), abs(1 - along)) < 1e-6 or abs(off - yaw) < 1e-4 or off < 1e-7 or min(abs(h - rng[0]), abs(h - rng[1])) < 10 or abs(pitch + 90) < 1e-4:
            out.append(None)
            continue
        c = "X" if not 0 < along < 1 else "Y" if off > yaw else "H" if h > rng[1] else "L" if h < rng[0] else "G"
        out.append((c, (lon, lat, h), pitch, y, az, pitch > -90))
    return out


def angle(got, want):
    return want + (got - want + 180) % 360 - 180


def scene(kind, r, rx, txs, times, yaw, rng, target, geo, dflt=False):
    def call(t):
        if dflt:
            return collect_ro_observations(rx, t, list(times))
        return collect_ro_observations(rx, t, list(times), target, yaw, rng)

    def keys(f):
        return sorted((str(a), b.timestamp(), c.timestamp(), d.timestamp()) for a, b, c, d in zip(f.transmitter, f.start, f.end, f.time))
    stamps = {t.timestamp(): i + 1 for i, t in enumerate(times)}

    def run():
        one = len(txs) == 1 and r.random() < 0.5
        f = call(txs[0] if one else list(txs))
        rows = []
        for _, x in f.iterrows():
            k = next((i + 1 for i, t in enumerate(txs) if t.name == x.transmitter), 0)
            a, b, m = (stamps.get(x[c].timestamp(), 0) for c in ("start", "end", "time"))
            pts = [g.coords[0] for g in x.geometry.geoms]
            cs = []
            if k and a and b and m:
                g = geo[k - 1]
                w = g[m - 1]
                cs = [cmp("pitch", x.rx_tx_pitch, w[2], 1e5, 3), cmp("yaw", angle(x.rx_tx_yaw, w[3]), w[3], 1e5, 3),
                      cmp("azimuth", angle(x.tp_tx_azimuth, w[4]), w[4], 1e4, 3),
                      cmp("lon", angle(x.position.x, w[1][0]) * math.cos(math.radians(w[1][1])), w[1][0] * math.cos(math.radians(w[1][1])), 1e5, 3),
                      cmp("lat", x.position.y, w[1][1], 1e5, 3), cmp("height", x.position.z, w[1][2], 10, 3)]
                far = 0.0
                for j, c in enumerate(pts[:b - a + 1]):
                    if a + j <= len(g) and g[a + j - 1] is not None and len(c) == 3:
                        far = max(far, float(np.linalg.norm(xyz(*c) - xyz(*g[a + j - 1][1]))))
                    else:
                        far = 1e6
                cs.append(cmp("points_in_order", far, 0, 1, 5))
            rows.append({"tx": k, "first": a, "last": b, "at": m, "pts": len(pts), "rise": bool(x.is_rising), "rec": x.receiver == rx.name,
                         "t": int(x.time.timestamp() - BASE.timestamp()), "cmp": cs})
        union = True
        if len(txs) > 1:
            union = keys(f) == sorted(k for t in txs for k in keys(call(t)))
        return rows, COLUMNS <= set(f.columns) and f.crs is not None and f.crs.to_epsg() == 4326, union
    st, o = guarded(run)
    o = o or ([], False, False)
    return dict(kind=kind, inp={"target": int(round(target)), "tx": [{"good": [x[0] == "G" for x in g], "h": [i32(x[1][2]) for x in g], "fwd": [bool(x[5]) for x in g]} for g in geo]},
                out={"status": st, "rows": o[0], "columns": bool(o[1]), "union": o[2]},
                repro={"rx": rx.orbit.model_dump_json(), "tx": [t.orbit.model_dump_json() for t in txs], "times": [str(t) for t in times], "yaw": yaw, "range": list(rng), "target": target})


def sat(name, orbit):
    return Satellite(name=name, orbit=orbit, instruments=[Instrument(name="i")])


def receiver(r):
    return sat(r.choice(["rx", "leo 1"]), random_orbit(r, alt=r.uniform(400e3, 1400e3)) if r.random() < 0.8 else
               KeplerianOrbit(altitude=1500e3, eccentricity=0.05, inclination=63, perigee_argument=r.uniform(0, 359), true_anomaly=r.uniform(0, 359), epoch=BASE))


def transmitter(r, k):
    o = r.choice(["circular", "tle", "leo", "multi"])
    if o == "leo":
        return sat(f"t{k}", random_orbit(r, alt=r.uniform(500e3, 2000e3)))
    if o == "tle":
        from tatc.schemas import TwoLineElements
        return sat(f"t{k}", TwoLineElements(tle=tle_lines(55.5, r.uniform(0, 359), 0.01, r.uniform(0, 359), r.uniform(0, 359), 86400 / period_s(20200e3))))
    if o == "multi":
        return sat(f"t{k}", multi(r, BASE + timedelta(hours=6)))
    return sat(f"t{k}", CircularOrbit(altitude=r.choice([20200e3, 35786e3, 8000e3]), inclination=r.choice([0.5, 55, 64.8]), epoch=BASE,
                                      right_ascension_ascending_node=r.uniform(0, 359), true_anomaly=r.uniform(0, 359)))


def params(r):
    rng = r.choice([(-200e3, 60e3), (-200e3, 60e3), (0, 80e3), (-50e3, 10e3), (-1000e3, 300e3), (-2000e3, 400e3), (5e3, 30e3)])
    return r.choice([65, 65, 30, 45.0, 80, 90, 90, 90, 10]), rng, r.choice([0, 0, 20e3, -50e3, 60e3, 3333.0])


def run_cases(args):
    seed, words = args
    r = random.Random(seed)
    no_repeat()
    evs, pool = [], None
    for w in words:
        if pool is None or r.random() < 0.04:
            yaw, rng, target = params(r)
            rx, tx = receiver(r), transmitter(r, 0)
            t0 = BASE + timedelta(seconds=r.randint(0, 80000))
            ts = [t0 + timedelta(seconds=20 * i) for i in range(900)]
            pool = {}
            for t, g in zip(ts, geometry(rx, tx, ts, yaw, rng)):
                if g is not None:
                    pool.setdefault(g[0], []).append((t, g))
        pick = []
        for c in w:
            # a class that this geometry does not have is replaced by another bad one
            opts = pool.get(c) or pool.get("X" if c != "G" else "?", [])
            opts = [x for x in opts if x not in pick]
            if not opts:
                break
            if c == "G" and r.random() < 0.3:  # looking almost straight down
                pick.append(min(opts, key=lambda x: abs(x[1][2] + 90)))
            else:
                pick.append(r.choice(opts))
        if not pick:
            continue
        evs.append(scene("model", r, rx, [tx], [t for t, _ in pick], yaw, rng, target, [[g for _, g in pick]]))
    return evs


def run_random(seed):
    r = random.Random(seed)
    no_repeat()
    yaw, rng, target = params(r)
    dflt = (yaw, rng, target) == (65, (-200e3, 60e3), 0)
    rx = receiver(r)
    txs = [transmitter(r, k) for k in range(r.choice([1, 2, 4]))]
    if r.random() < 0.05:
        txs = []
    step = r.choice([5, 10, 30, 60, 200])
    t0 = BASE + timedelta(seconds=r.randint(0, 80000))
    times = [t0 + timedelta(seconds=step * i) for i in range(r.choice([1, 30, 150, 300]))]
    geo = [geometry(rx, t, times, yaw, rng) for t in txs]
    keep = [i for i in range(len(times)) if all(g[i] is not None for g in geo)]
    times = [times[i] for i in keep]
    if not times:
        return []
    return [scene("random", r, rx, txs, times, yaw, rng, target, [[g[i] for i in keep] for g in geo], dflt)]


def drive(ctx):
    words = [json.loads(c) for c in sorted(set(ctx.cases["MC_C27"]))]
    words = [w for w in words if w]
    words = ctx.rng("w").sample(words, min(len(words), ctx.scale(1200, 12000)))
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", words[i::32]) for i in range(32)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(140, 1500))], chunk=2)


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        if any(any(t["good"]) for t in ev["in"]["tx"]):
            return
        ev["out"]["columns"] = False
        yield "columns", ev
        return
    r = rng.choice(rows)
    k = rng.choice(["drop", "dup", "pts", "rise", "last", "cmp", "order"])
    if k == "drop":
        rows.remove(r)
    elif k == "dup":
        rows.append(dict(r))
    elif k == "pts":
        r["pts"] += 1
    elif k == "rise":
        r["rise"] = not r["rise"]
    elif k == "last":
        r["last"] += 1
    elif k == "cmp":
        c = rng.choice(r["cmp"])
        c["got"] = c["want"] + c["tol"] + 1
    elif len(rows) > 1 and rows[0]["t"] != rows[-1]["t"]:
        rows.reverse()
    else:
        return
    yield k, ev
