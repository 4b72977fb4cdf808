"""C11: mutual orbiting groups circle their reference satellite."""
import json
import random

import numpy as np

from orbits import RE, CircularOrbit
from wide import wide_epoch, angle
from elements import true_to_mean, mean_to_true, shape
from C08 import inst
from framework import guarded, ShapeError
from tatc.schemas import MOGConstellation

MC = [("MC_C11", "MC_C11", "MC_C11_thorough")]
TRACE = "TR_C11"
RULE = ("TLC moves groups of every size dividing 24, both senses, once around and checks ellipse, centring, separation and mirroring; real groups of "
        "sizes 1 to 40 with seeded reference orbits and axes are propagated by independent two-body motion and followed step by step.")
ASSUMPTIONS = ["the ellipse is exact to first order of the axes over the orbit radius (2.5 % at 100 km, proportionally more up to 8000 km); that all members follow the same path is checked to 0.2 % for all axes", "the reference orbit's true anomaly is 0 (reference at its ascending node)",
               "two-body motion"]


def rot(inc, raan):
    """Columns: node direction, normal to it in plane, angular momentum."""
    i, o = np.radians(inc), np.radians(raan)
    x = np.array([np.cos(o), np.sin(o), 0])
    y = np.array([-np.cos(i) * np.sin(o), np.cos(i) * np.cos(o), np.sin(i)])
    return x, y, np.cross(x, y)


def position(o, ma):
    """Two body position of Keplerian elements at mean anomaly ma (deg)."""
    e = o.eccentricity
    nu = np.radians(mean_to_true(ma, e))
    a = RE + o.altitude
    rr = a * (1 - e * e) / (1 + e * np.cos(nu))
    x, y, _ = rot(o.inclination, o.right_ascension_ascending_node)
    w = nu + np.radians(o.perigee_argument)
    return rr * (np.cos(w) * x + np.sin(w) * y)


def group_event(r, n, cw):
    alt = r.choice([300e3, 500e3, 780e3, 1500e3, 20000e3]) + r.randint(-9000, 9000)
    inc = r.choice([0.5, 28.5, 51.6, 63.4, 90.0, 97.5, 130.0, 178.0])
    ref = CircularOrbit(altitude=alt, inclination=inc, right_ascension_ascending_node=angle(r), epoch=wide_epoch(r))
    par = r.choice([2e3, 2e4, 5e4, 2e4, 5e4, 8e5, 4e6]) * r.uniform(0.5, 1)
    tra = par * r.choice([0.5, 0.8, 1.0, 1.3, 2.0])
    ins = inst(r)
    a = RE + alt
    name = r.choice(["M", "mog x"])
    rs = shape(ref)

    def run():
        kw = {} if cw and r.random() < 0.5 else {"clockwise": bool(cw)}
        con = MOGConstellation(name=name, orbit=ref, instruments=ins, parallel_axis=par, transverse_axis=tra, number_satellites=n, **kw)
        ms = con.generate_members()
        seen = [id(i) for i in con.instruments] + [id(i) for m in ms for i in m.instruments]
        x, y, h = rot(ref.inclination, ref.right_ascension_ascending_node)
        out = []
        for k, m in enumerate(ms):
            o = m.orbit
            if m.type != "satellite" or o.type != "keplerian":
                raise ShapeError("member " + m.type + "/" + o.type)
            sh = shape(o)
            lm = rot(o.inclination, o.right_ascension_ascending_node)[2]
            tilt = np.arctan2(np.linalg.norm(np.cross(lm, h)), np.dot(lm, h))
            ma0 = true_to_mean(o.true_anomaly, o.eccentricity)
            theta = 360 * k / n
            rel = []
            for j in range(24):
                u = 15 * j - theta  # angle travelled by the reference since the epoch
                p = position(o, ma0 + u)
                ur = np.radians(u)
                er = np.cos(ur) * x + np.sin(ur) * y
                et = -np.sin(ur) * x + np.cos(ur) * y
                d = p - a * er
                rel.append([int(round(v * 1000)) for v in (np.dot(d, et) / (par / 2), np.dot(d, er) / (par / 4), np.dot(d, h) / (tra / 2))])
            out.append({"name": m.name, "alt": sh["alt"], "epd": sh["epd"], "ep": sh["ep"], "ecc": int(round(o.eccentricity * 1e7)),
                        "tilt": int(round(tilt * 1e7)), "rel": rel,
                        "inrange": bool(all(0 <= v < 360 for v in (o.true_anomaly, o.right_ascension_ascending_node, o.perigee_argument)) and 0 <= o.inclination < 180),
                        "inst": [{"same": q < len(con.instruments) and i == con.instruments[q] and type(i) is type(con.instruments[q]),
                                  "own": seen.count(id(i)) == 1} for q, i in enumerate(m.instruments)]})
        return out
    st, ms = guarded(run)
    # second order in the axes over the orbit radius, in units of the smaller one
    big = (par + tra) / a
    tol = 12 + int(1000 * big * (1 + max(par, tra) / min(par, tra)) * 0.6)
    return dict(kind="mog", inp={"name": name, "n": n, "cw": bool(cw), "alt": rs["alt"], "epd": rs["epd"], "ep": rs["ep"], "ecc": int(round(par / (4 * a) * 1e7)),
                                 "tilt": int(round(tra / (2 * a) * 1e7)), "ninst": len(ins), "tol": tol},
                out={"status": st, "members": ms or []},
                repro={"orbit": ref.model_dump(mode="json"), "parallel": par, "transverse": tra, "n": n, "clockwise": bool(cw)})


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    return [group_event(r, *c) for c in cases]


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C11"]))]
    r = ctx.rng("n")
    cases = cases * ctx.scale(12, 40) + [[r.choice([5, 7, 9, 10, 11, 13, 40]), r.randint(0, 1)] for _ in range(ctx.scale(200, 600))]
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)


def corrupt(ev, rng):
    ms = ev["out"]["members"]
    m = rng.choice(ms)
    what = rng.choice(["rel", "ecc", "tilt", "alt", "ep", "name", "own", "drop", "range"])
    if what == "rel":
        if len(ms) > 1:
            m["rel"][rng.randrange(23)][rng.randrange(3)] += 6
        else:
            m["rel"][rng.randrange(23)][rng.randrange(3)] += 2 * ev["in"]["tol"] + 2
    elif what == "name":
        m["name"] += " "
    elif what == "own":
        m["inst"][0]["own"] = False
    elif what == "drop":
        ms.pop()
    elif what == "range":
        m["inrange"] = False
    else:
        m[what] += 5
    yield what, ev
