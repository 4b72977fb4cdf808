"""C08: Walker and streets-of-coverage members follow the declared pattern."""
import json
import math
import random

from orbits import random_orbit, RE, CircularOrbit
from elements import shape
from constel import members
from wide import wide_orbit
from C02 import random_instrument
from framework import guarded
from tatc.schemas import WalkerConstellation, SOCConstellation

MC = [("MC_C08", "MC_C08", "MC_C08_thorough")]
TRACE = "TR_C08"
RULE = ("TLC builds every valid Walker t/p/f (delta and star) up to the constant and checks pattern, distinctness and symmetry; every one of them "
        "is generated with the real code on seeded lead orbits of each type, plus random larger constellations, all small (t, p, f) definitions "
        "for acceptance, and streets-of-coverage constellations of random altitude, swath and packing.")
ASSUMPTIONS = ["angles to 3 millidegrees; Keplerian lead orbits have eccentricity at most 0.74", "streets-of-coverage swath is inside the horizon"]
MTYPE = {"tle": "tle", "circular": "circular", "sso": "circular", "keplerian": "keplerian"}


def inst(r):
    return [random_instrument(r, k) for k in range(r.choice([1, 1, 2, 3]))]


def walker_event(r, t, p, f, star):
    orbit = random_orbit(r) if r.random() < 0.6 else wide_orbit(r, ("tle", "circular", "sso", "keplerian"), multi=False)
    ins = inst(r)
    name = r.choice(["W", "My constellation", "a 1"])
    par = {"t": t, "p": p, "f": f, "star": bool(star)}

    def run():
        c = WalkerConstellation(name=name, orbit=orbit, instruments=ins, number_satellites=t, number_planes=p, relative_spacing=f,
                                configuration="star" if star else "delta")
        return members(c)
    st, ms = guarded(run)
    return dict(kind="walker", inp={"name": name, "par": par, "lead": shape(orbit), "mtype": MTYPE[orbit.type], "ninst": len(ins), "tol": 3},
                out={"status": st, "members": ms or []}, repro={"orbit": orbit.model_dump(mode="json")})


def soc_event(r, kind="soc"):
    """kind "soc": a pattern with its members; "size": any size of pattern, its members not generated."""
    alt = r.uniform(300e3, 2500e3) if kind == "soc" else math.exp(r.uniform(math.log(200e3), math.log(36e6)))
    lam = math.acos(RE / (RE + alt))
    half = r.uniform(0.35, 0.93) * lam if kind == "soc" else math.exp(r.uniform(math.log(0.05), math.log(0.97))) * lam
    swath = 2 * half * RE
    pd = r.uniform(0.55, 1.0) if kind == "soc" else r.choice([1.0, r.uniform(0.1, 1.0)])
    rf = math.sin(half) * pd
    gf, gp = math.degrees(2 * math.asin(rf)), math.degrees(2 * math.asin(math.sqrt(3) / 2 * rf))
    orbit = random_orbit(r, ("circular",), alt=alt)
    ins = inst(r)
    par = {"t": 1, "p": 1, "f": 0, "star": False}

    def run():
        c = SOCConstellation(name="soc", orbit=orbit, instruments=ins, swath_width=swath, packing_distance=pd)
        w = c.generate_walker()
        par.update(t=int(w.number_satellites), p=int(w.number_planes), f=int(w.relative_spacing), star=w.configuration.value == "star")
        if kind == "size":
            return []
        if par["t"] > 4000:
            raise ValueError("too many members")
        return members(c)
    st, ms = guarded(run)
    return dict(kind=kind, inp={"name": "soc", "par": par, "lead": shape(orbit), "mtype": "circular", "ninst": len(ins), "tol": 3,
                                 "gf": round(gf * 1e6), "gp": round(gp * 1e6)},
                out={"status": st, "members": ms or []}, repro={"orbit": orbit.model_dump(mode="json"), "swath": swath, "packing": pd})


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    return [walker_event(r, *c) for c in cases]


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(3):
        t = r.choice([r.randint(13, 60), r.randint(60, 130)])
        p = r.randint(1, min(t, 14))
        evs.append(walker_event(r, t, p, r.randrange(p), r.random() < 0.5))
    evs.append(soc_event(r))
    evs.extend(soc_event(r, "size") for _ in range(6))
    return evs


def run_define(seed):
    r = random.Random(seed)
    orbit = random_orbit(r, ("circular",))
    evs = []
    for t in range(1, 8):
        for p in range(1, 9):
            for f in range(0, 9):
                st, _ = guarded(lambda: WalkerConstellation(name="w", orbit=orbit, number_satellites=t, number_planes=p, relative_spacing=f,
                                                            configuration=r.choice(["delta", "star"])))
                evs.append(dict(kind="define", inp={"t": t, "p": p, "f": f}, out={"status": st}))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in ctx.cases["MC_C08"]]
    if not ctx.thorough:
        cases = ctx.rng("c").sample(cases, 700)
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(24, 240))], chunk=1)
    ctx.extend(run_define(f"{ctx.seed}"))


def corrupt(ev, rng):
    if ev["kind"] == "define":
        return
    if ev["kind"] == "size":
        ev["inp"]["par"]["t"] += ev["inp"]["par"]["p"]
        yield "t", ev
        return
    ms = ev["out"]["members"]
    k = rng.randrange(len(ms))
    what = rng.choice(["ma", "raan", "inc", "n", "ep", "drop", "name", "copy", "same"])
    if what == "drop":
        del ms[k]
    elif what == "name":
        ms[k]["name"] += "0"
    elif what == "copy":
        ms[k]["inst"][0]["own"] = False
    elif what == "same":
        ms[k]["inst"][0]["same"] = False
    else:
        ms[k]["el"][what] += 10
    yield what, ev
