"""C25: viewing geometry, orbit rate and anomaly conversions."""
import json
import math
import random

from framework import guarded
from tracks import cmp
from tatc import utils
from tatc.schemas import Instrument, PointedInstrument

MC = [("MC_C25", "MC_C25", "MC_C25_thorough")]
TRACE = "TR_C25"
RULE = ("TLC checks, on exact lattice circles, that ground distance, view angle and elevation angle convert into each other up to the "
        "horizon and no further, for every small altitude; each lattice triangle is replayed, scaled to the Earth, through every "
        "conversion, with expected values from its coordinates; sweeps of fields of regard, altitudes, inclinations and anomalies are "
        "judged for growth, limits and inverses.")
ASSUMPTIONS = ["spherical Earth of mean radius, as documented for these conversions",
               "conversions through the horizon itself are judged to the conditioning of the horizon (1e-5 degrees outside 0.01 degrees of it)"]
R = (2 * 6378137.0 + 6356752.314245179) / 3
MU = 3.986004418e14
OMEGA = 2 * math.pi / 86164.0905
AREA = 510065621724088.4
D6, DM = 1e6, 10.0  # microdegrees, decimetres


def num(r, x):
    """The same number as an int where it is one."""
    return int(x) if float(x).is_integer() and r.random() < 0.7 else float(x)


def triangle(kind, r, altitude, elevation, lam, lam0):
    """Targets at central angles lam0 < lam (radians), lam at least |lam0|, seen from altitude."""
    s, c = R + altitude, R + elevation

    def eta(a):
        return math.atan2(c * math.sin(a), s - c * math.cos(a))
    e = eta(lam)
    el = math.atan2(s * math.cos(lam) - c, s * math.sin(lam))
    mid, half = (lam + lam0) / 2, (lam - lam0) / 2
    cond = 3 + 2e-3 / max(math.degrees(el), 1e-3)  # close to the horizon the inverse is steep
    alt, ele = num(r, altitude), num(r, elevation)

    def run():
        out = []

        def add(name, got, want, scale, tol):
            out.append(cmp(name, float(got), want, scale, tol))
        fr, sw, me = math.degrees(2 * e), 2 * c * lam, math.degrees(el)
        if fr <= 180:
            add("width_to_regard", utils.swath_width_to_field_of_regard(alt, sw, ele), fr, D6, 3)
            add("view_is_regard", utils.swath_width_to_field_of_view(alt, sw, 0, ele), fr, D6, 3)
            add("regard_to_width", utils.field_of_regard_to_swath_width(alt, fr, ele), sw, DM, cond * 2)
            add("regard_to_elevation", utils.compute_min_elevation_angle(alt, fr, ele), me, D6, cond)
            add("elevation_to_regard", utils.compute_field_of_regard(alt, me, ele), fr, D6, 3)
            add("width_there_and_back", utils.field_of_regard_to_swath_width(alt, utils.swath_width_to_field_of_regard(alt, sw, ele), ele), sw, DM, cond * 2)
            add("regard_there_and_back", utils.swath_width_to_field_of_regard(alt, utils.field_of_regard_to_swath_width(alt, fr, ele), ele), fr, D6, cond)
            add("elevation_there_and_back", utils.compute_min_elevation_angle(alt, utils.compute_field_of_regard(alt, me, ele), ele), me, D6, cond)
            add("off_nadir_view", utils.swath_width_to_field_of_view(alt, 2 * c * half, math.degrees(eta(mid)), ele),
                math.degrees(e - eta(lam0)), D6, cond)
            if elevation == 0:
                ins = r.choice([Instrument(name="i", field_of_regard=fr),
                                PointedInstrument(name="p", field_of_regard=fr, cross_track_field_of_view=5, along_track_field_of_view=7, roll_angle=11)])
                add("instrument_width", ins.get_swath_width(alt), sw, DM, cond * 2)
                add("instrument_elevation", ins.get_min_elevation_angle(alt), me, D6, cond)
        return out
    st, o = guarded(run)
    return dict(kind=kind, inp={"a": 0}, out={"status": st, "cmp": o or []},
                repro={"altitude": altitude, "elevation": elevation, "lam": math.degrees(lam), "lam0": math.degrees(lam0)})


def lower(r, lam):
    return r.choice([-lam, -0.9 * lam, -0.3 * lam, 0.0, 0.4 * lam, 0.95 * lam])


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    evs = []
    for rad, h, k in cases:
        pts = {25: [(0, 25), (7, 24), (15, 20), (20, 15), (24, 7), (25, 0)],
               65: [(0, 65), (16, 63), (25, 60), (33, 56), (39, 52), (52, 39), (56, 33), (60, 25), (63, 16), (65, 0)]}[rad]
        x, y = pts[k - 1]
        if h * y - rad * rad < 0 or x == 0:
            continue
        el = r.choice([0, 0, 1500, 9000.5])
        lam = math.atan2(x, y)
        evs.append(triangle("model", r, (R + el) * h / rad - R, el, lam, r.choice([math.atan2(a, b) for a, b in pts[:k - 1]] + [lower(r, lam)])))
    return evs


def sweep_regard(r, altitude, elevation):
    c, s = R + elevation, R + altitude
    hz = math.degrees(2 * math.asin(c / s))
    fs = sorted({round(f, 3) for f in [r.uniform(0.01, 360) for _ in range(12)] + [r.uniform(0.01, hz) for _ in range(12)]
                 + [180, 179.9, 180.1, 270, 359, 360, hz / 2, hz - 0.05, hz - 1, hz + 0.05, hz + 1]})

    def run():
        return {"width": [utils.field_of_regard_to_swath_width(altitude, num(r, f), elevation) * DM for f in fs],
                "el": [utils.compute_min_elevation_angle(altitude, num(r, f), elevation) * D6 for f in fs]}
    st, o = guarded(run)
    out = {k: [int(round(x)) for x in v] for k, v in (o or {"width": [], "el": []}).items()}
    return dict(kind="regard", inp={"f": [int(round(f * 1000)) for f in fs], "hz": int(round(hz * 1000)), "most": int(round(2 * c * math.acos(c / s) * DM))},
                out={"status": st, "cmp": [], **out}, repro={"altitude": altitude, "elevation": elevation, "f": fs})


def sweep_altitude(r, fr, inc):
    alts = sorted(r.sample(range(150, 45000), 20))

    def run():
        out = {"width": [], "period": [], "speed": [], "cmp": []}
        for a in alts:
            a = num(r, a * 1000)
            n = math.sqrt(MU / (R + a) ** 3)
            v = utils.compute_ground_velocity(a, inc)
            p = utils.compute_orbit_period(a)
            wv = R * (n - OMEGA * math.cos(math.radians(inc)))
            out["width"].append(utils.field_of_regard_to_swath_width(a, fr) * DM)
            out["period"].append(p * 1000)
            out["speed"].append(v * 1e4)
            out["cmp"].append(cmp("ground_speed", v, wv, 1e4, 2))
            out["cmp"].append(cmp("period", p, 2 * math.pi / n, 1e3, 1))
            t = r.choice([1, 30, 600.5, 4000])
            d = utils.access_time_to_along_track_distance(a, inc, t)
            out["cmp"].append(cmp("distance_is_speed_times_time", d, wv * t, DM, 2))
            if abs(wv) > 10:
                out["cmp"].append(cmp("time_there_and_back", utils.along_track_distance_to_access_time(a, inc, d), t, 1e5, 2))
                d = r.choice([1000, 80000.0, 1234567])
                out["cmp"].append(cmp("distance_there_and_back", utils.access_time_to_along_track_distance(a, inc, utils.along_track_distance_to_access_time(a, inc, d)), d, DM, 1))
            m = r.choice([0, 5, 30.5, 89, 90, -4])
            # the part of the period spent above a line of sight at that elevation
            out["cmp"].append(cmp("longest_access", utils.compute_max_access_time(a, m), 2 * math.pi / n * (180 - 2 * m) / 360, 1e3, 1))
        return out
    st, o = guarded(run)
    o = o or {"width": [], "period": [], "speed": [], "cmp": []}
    return dict(kind="altitude", inp={"a": 0}, out={"status": st, "cmp": o["cmp"], **{k: [int(round(x)) for x in o[k]] for k in ("width", "period", "speed")}},
                repro={"alts_km": alts, "for": fr, "inc": inc})


def sweep_inclination(r, altitude):
    incs = sorted({0, 90, 180, *r.sample(range(1, 180), 12)})

    def run():
        return [utils.compute_ground_velocity(altitude, num(r, i)) for i in incs]
    st, o = guarded(run)
    n = math.sqrt(MU / (R + altitude) ** 3)
    return dict(kind="inclination", inp={"a": 0}, out={"status": st, "speed": [int(round(v * 1e4)) for v in o or []],
                "cmp": [cmp("ground_speed", v, R * (n - OMEGA * math.cos(math.radians(i))), 1e4, 2) for i, v in zip(incs, o or [])]},
                repro={"altitude": altitude, "incs": incs})


def true_of(mean, e):
    """The true anomaly (degrees) of a mean anomaly, by bisection in the eccentric anomaly."""
    m = math.radians(mean)
    lo, hi = m - 1.1, m + 1.1
    for _ in range(80):
        x = (lo + hi) / 2
        if x - e * math.sin(x) < m:
            lo = x
        else:
            hi = x
    x = (lo + hi) / 2
    turn = 2 * math.pi * math.floor((x + math.pi) / (2 * math.pi))
    y = x - turn
    return math.degrees(turn + 2 * math.atan2(math.sqrt(1 + e) * math.sin(y / 2), math.sqrt(1 - e) * math.cos(y / 2)))


def sweep_anomaly(r, e):
    ms = sorted({0, 180, 360, *[round(r.uniform(0, 360), 3) for _ in range(20)], 0.001, 359.999, 179.999, 180.001})

    def run():
        out = {"true": [], "mean": [], "cmp": []}

        def same(x, y):  # as angles
            return y + (x - y + 180) % 360 - 180
        for m in ms:
            t = utils.mean_anomaly_to_true_anomaly(num(r, m), num(r, e))
            w = true_of(m, e)
            slope = 3 / (1 - e)
            out["cmp"] += [cmp("true_anomaly", same(t, w), w, D6, slope), cmp("mean_anomaly", same(utils.true_anomaly_to_mean_anomaly(w, e), m), m, D6, slope),
                           cmp("mean_there_and_back", same(utils.true_anomaly_to_mean_anomaly(t, e), m), m, D6, slope),
                           cmp("true_there_and_back", same(utils.mean_anomaly_to_true_anomaly(utils.true_anomaly_to_mean_anomaly(num(r, m), e), e), m), m, D6, 3 * slope * slope)]
            if 0 < m < 360:
                out["true"].append((t % 360) * 1e6)
                out["mean"].append((utils.true_anomaly_to_mean_anomaly(m, e) % 360) * 1e6)
            if e == 0:
                out["cmp"].append(cmp("default_circular", same(utils.mean_anomaly_to_true_anomaly(float(m)), m), m, D6, 1))
        return out
    st, o = guarded(run)
    o = o or {"true": [], "mean": [], "cmp": []}
    return dict(kind="anomaly", inp={"a": 0}, out={"status": st, "cmp": o["cmp"], **{k: [int(round(x)) for x in o[k]] for k in ("true", "mean")}}, repro={"e": e, "ms": ms})


def sweep_samples(r):
    ds = sorted(r.sample(range(60, 8000), 14) + r.sample(range(4000, 14000), 6))

    def run():
        return [int(utils.compute_number_samples(num(r, d * 1000))) for d in ds]
    st, o = guarded(run)
    return dict(kind="samples", inp={"a": 0}, out={"status": st, "n": o or [],
                "cmp": [cmp("number_samples", n, math.floor(w), 1, 1 if abs(w - round(w)) < 1e-2 else 0) for d, n in zip(ds, o or [])
                        for w in [AREA / (2 * math.pi * R * R * (1 - math.cos(d * 1000 / R / 2)))]]},
                repro={"km": ds})


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(12):
        altitude = r.choice([r.uniform(2e5, 2e6), r.uniform(2e5, 4e7), 35786000, 500000])
        el = r.choice([0, 0, 0, 8000, 100000, r.uniform(-400, 6000)])
        lam_h = math.acos((R + el) / (R + altitude))
        lam = lam_h * r.choice([0.0005, 0.999, 0.5, r.random()])
        evs.append(triangle("random", r, altitude, el, lam, lower(r, lam)))
    evs.append(sweep_regard(r, r.choice([400000, 700e3, 20200000.0, 35786e3, r.uniform(2e5, 4e7)]), r.choice([0, 0, 8000])))
    evs.append(sweep_altitude(r, r.choice([1, 20, 60.0, 110, 150, 180, 200]), r.choice([0, 28.5, 51.6, 90, 98, 150, 180])))
    evs.append(sweep_inclination(r, r.choice([400000, 8e5, 20200000, 35786e3])))
    evs.append(sweep_anomaly(r, r.choice([0, 0.0005, 0.01, 0.1, 0.3, 0.6, 0.74, 0.9])))
    evs.append(sweep_samples(r))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C25"]))]
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::16]) for i in range(16)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(120, 1500))], chunk=4)


def corrupt(ev, rng):
    o = ev["out"]
    for k in ("width", "true", "speed", "n"):
        if k in o and len(o[k]) > 3 and rng.random() < 0.5:
            if ev["kind"] == "regard":
                o["width"][-1] += 1000
            else:
                o[k][0], o[k][-1] = o[k][-1], o[k][0]
            yield k, ev
            return
    if o["cmp"]:
        c = rng.choice(o["cmp"])
        c["got"] = c["want"] + c["tol"] + 1
        yield "cmp", ev
