"""C31: an instrument observes exactly in the sunlight it asks for."""
import json
import math
import random
from datetime import timedelta

import boot
import numpy as np
from framework import guarded, ShapeError
from orbits import BASE, TS, random_orbit, sat_of
from skyfield.api import wgs84
from skyfield.framelib import itrs
from tatc.schemas import Instrument, PointedInstrument

EPH = boot.EPHEMERIS
MC = [("MC_C31", "MC_C31", "MC_C31_thorough")]
TRACE = "TR_C31"
RULE = ("TLC checks on a lattice of positions that the shadow is a half cylinder as wide as the Earth, that a satellite in it stands over the "
        "night side, and over all short tracks that each sample is decided by itself and requirements exclude exactly their opposites; every "
        "track pattern is replayed on real orbits by picking times (and targets) whose satellite and target are lit or dark as the model says, "
        "plus random tracks sampled around the shadow's entry and exit; the specification decides every sample from the recorded integer "
        "vectors of satellite, Sun and target.")
ASSUMPTIONS = ["the synthetic Sun of the harness, through the library's own ephemeris path", "samples within about 30 km of the shadow's edge or 0.05 degrees of "
               "the target's horizon may go either way", "no refraction; orbits up to geostationary height"]
NAMES = {None: "none", True: "lit", False: "dark"}
REQ = {"none": None, "lit": True, "dark": False}
E4 = 10000
RAD = 6378.137


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def zenith(lat, lon, t):
    la, lo = math.radians(lat), math.radians(lon)
    e = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    return itrs.rotation_at(t).T @ e


def sample(sat, when, place=None):
    """Integer vectors of one sample: satellite (km), Sun, zenith of the target and Sun from there."""
    t = TS.from_datetime(when)
    p = sat.at(t).position.km
    u = EPH["earth"].at(t).observe(EPH["sun"]).position.km
    if place is None:
        g = wgs84.subpoint_of(sat.at(t))
        place = (g.latitude.degrees, g.longitude.degrees)
    z = zenith(place[0], place[1], t)
    s = unit(np.array(u) - z * RAD)
    return {"p": [round(x) for x in p], "u": [round(x * E4) for x in unit(u)],
            "z": [round(x * E4) for x in z], "s": [round(x * E4) for x in s]}


def state(x):
    """(lit, day) or None near an edge; only used to choose inputs."""
    p, u = np.array(x["p"], float), np.array(x["u"]) / E4
    a = p @ u
    d = p @ p - a * a - RAD ** 2
    c = np.array(x["z"]) @ np.array(x["s"])
    if abs(d) < 1.5e6 and a < 100 or abs(c) < 2e6:
        return None
    return (bool(a > 0 or d > 0), bool(c > 0))


def instrument(r, req):
    kw = dict(name="i", field_of_regard=r.choice([20, 120, 180]), req_self_sunlit=REQ[req[0]], req_target_sunlit=REQ[req[1]])
    if r.random() < 0.4:
        return PointedInstrument(cross_track_field_of_view=10, along_track_field_of_view=5, roll_angle=r.choice([0, 20]), **kw)
    return Instrument(**kw)


def event(r, orbit, req, times, target, label=""):
    """target: "none", one (lat, lon, elevation), or a list of them, one per time."""
    sat = sat_of(orbit.to_tle().tle)
    ins = instrument(r, req)
    one = len(times) == 1
    if target == "none":
        tgt, places = None, [None] * len(times)
    elif isinstance(target, list):
        if one:
            tgt = wgs84.latlon(*target[0])
        else:
            tgt = wgs84.latlon(*(np.array([x[k] for x in target]) for k in range(3)))
        places = [x[:2] for x in target]
    else:
        tgt, places = wgs84.latlon(*target), [target[:2]] * len(times)
    scalar = one and r.random() < 0.5
    how = r.choice(["orbit", "skyfield"])

    def run():
        if how == "orbit":
            g = orbit.to_tle().get_orbit_track(times[0] if scalar else list(times), try_repeat=False)
        else:
            g = sat.at(TS.from_datetime(times[0]) if scalar else TS.from_datetimes(times))
        a = ins.is_valid_observation(g) if tgt is None and r.random() < 0.5 else ins.is_valid_observation(g, tgt)
        shape = isinstance(a, (bool, np.bool_)) if one else isinstance(a, np.ndarray) and a.dtype == bool and a.ndim == 1
        return {"valid": [bool(x) for x in np.ravel(a)], "shape": bool(shape)}
    st, o = guarded(run)
    return dict(kind="single" if one else "track", inp={"req": list(req), "samples": [sample(sat, t, p) for t, p in zip(times, places)], "target": str(type(target).__name__)},
                out={"status": st, **(o or {})}, label=label,
                repro={"tle": list(orbit.to_tle().tle), "times": [str(t) for t in times], "target": str(target), "req": list(req)})


def orbit_of(r):
    k = r.random()
    if k < 0.75:
        return random_orbit(r)
    return random_orbit(r, kinds=("circular",), alt=r.choice([8000e3, 20200e3, 35786e3]))


def near_edge(sat, a, span, n=240):
    """Times of entry to and exit from the shadow."""
    ts = [a + timedelta(seconds=span * k / n) for k in range(n)]
    lit = sat.at(TS.from_datetimes(ts)).is_sunlit(EPH)
    return [ts[i] for i in range(1, n) if lit[i] != lit[i - 1]]


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    evs = []
    orbit = sat = pool = None
    for k, (req, pattern) in enumerate(cases):
        if k % 8 == 0:
            orbit = orbit_of(r)
            sat = sat_of(orbit.to_tle().tle)
            pool = {}
            a = BASE + timedelta(seconds=r.randint(0, 30 * 86400))
            for j in range(160):
                t = a + timedelta(seconds=j * 97)
                place = (r.uniform(-80, 80), r.uniform(-180, 180), r.choice([0, 0, 500, 3000]))
                s = state(sample(sat, t, place[:2]))
                if s:
                    pool.setdefault(s, []).append((t, place))
                g = wgs84.subpoint_of(sat.at(TS.from_datetime(t)))
                s = state(sample(sat, t))
                if s:
                    pool.setdefault(s + ("own",), []).append((t, None))
        want = [tuple(x) for x in pattern]
        if r.random() < 0.4 and all(x + ("own",) in pool for x in want):
            picks = [r.choice(pool[x + ("own",)]) for x in want]
            evs.append(event(r, orbit, req, [t for t, _ in picks], "none", "own"))
        elif all(x in pool for x in want):
            picks = [r.choice(pool[x]) for x in want]
            evs.append(event(r, orbit, req, [t for t, _ in picks], [p for _, p in picks], "pattern"))
    return evs


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(10):
        orbit = orbit_of(r)
        sat = sat_of(orbit.to_tle().tle)
        a = BASE + timedelta(seconds=r.randint(0, 300 * 86400))
        span = 86400 / (orbit.to_tle().get_mean_motion())
        edges = near_edge(sat, a, span * 1.3)
        for _ in range(4):
            n = r.choice([1, 2, 5, 12])
            times = [r.choice(edges) + timedelta(seconds=r.choice([-1, 1]) * r.choice([40, 90, 300])) if edges and r.random() < 0.5
                     else a + timedelta(seconds=r.uniform(0, span)) for _ in range(n)]
            req = [r.choice(["none", "lit", "dark"]), r.choice(["none", "lit", "dark"])]
            k = r.random()
            # places along the day-night line
            def place(t):
                if r.random() < 0.3:
                    return (r.uniform(-90, 90), r.uniform(-180, 180), r.choice([0, 2000]))
                tt = TS.from_datetime(t)
                u = itrs.rotation_at(tt) @ unit(EPH["earth"].at(tt).observe(EPH["sun"]).position.km)
                w = unit(np.cross(u, unit([r.gauss(0, 1) for _ in range(3)])))
                h = math.radians(r.choice([-3, -1, -0.3, 0.3, 1, 3]))
                z = math.cos(h) * w + math.sin(h) * u
                return (math.degrees(math.asin(z[2])), math.degrees(math.atan2(z[1], z[0])), 0)
            target = "none" if k < 0.35 else place(times[0]) if k < 0.65 else [place(t) for t in times]
            evs.append(event(r, orbit, req, times, target, "random"))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C31"]))]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(700, 3000)))
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::n]) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(30, 300))])


def corrupt(ev, rng):
    o = ev["out"]
    if ev["kind"] == "track" and rng.random() < 0.5:
        o["valid"] = o["valid"][:-1]
        yield "one_answer_per_time", ev
        return
    if ev["in"]["req"] == ["none", "none"] or rng.random() < 0.3:
        o["shape"] = False
        yield "answer_form", ev
        return
    if all(state(x) is not None for x in ev["in"]["samples"]):
        o["valid"] = [not v for v in o["valid"]]
        yield "validity", ev
