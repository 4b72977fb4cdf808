"""C09: train members trail the lead by whole multiples of the interval."""
import json
import random
from datetime import timedelta

from orbits import random_orbit
from elements import shape, elements
from constel import members
from wide import wide_orbit
from C08 import inst, MTYPE, corrupt as corrupt8
from framework import guarded
from tatc.schemas import TrainConstellation

MC = [("MC_C09", "MC_C09", "MC_C09_thorough")]
TRACE = "TR_C09"
RULE = ("TLC builds every train of up to the bound over intervals from minus a day to a week and checks the offsets of every member; every such "
        "(size, interval, repeat) is generated with the real code on a seeded lead orbit of every type, plus random intervals to the millisecond "
        "and sizes up to 120.")
ASSUMPTIONS = ["angles to 3 millidegrees plus 1e-6 of the angle travelled by the rounding of the period to microseconds",
               "Keplerian lead orbits have eccentricity at most 0.74"]


def train_event(r, t, iv, rep):
    orbit = random_orbit(r) if r.random() < 0.6 else wide_orbit(r, ("tle", "circular", "sso", "keplerian"), multi=False)
    ins = inst(r)
    name = r.choice(["T", "A train", "x9"])
    n = elements(orbit)["n"]
    days = iv / timedelta(days=1)
    dm = int(round(((360 * n * days) % 360) * 1e6)) % 360000000
    dr = int(round(((360 * days) % 360) * 1e6)) % 360000000 if rep else 0
    # the code reads the mean motion through a period rounded to microseconds
    slack = abs(360e3 * n * days) * t * (0 if orbit.type == "tle" else 1e-10 * n / 15)

    def run():
        return members(TrainConstellation(name=name, orbit=orbit, instruments=ins, number_satellites=t, interval=iv, repeat_ground_track=rep))
    st, ms = guarded(run)
    return dict(kind="train", inp={"name": name, "t": t, "dm": dm, "dr": dr, "lead": shape(orbit), "mtype": MTYPE[orbit.type], "ninst": len(ins),
                                   "tol": 3 + int(slack * 2)},
                out={"status": st, "members": ms or []}, repro={"orbit": orbit.model_dump(mode="json"), "interval_s": iv.total_seconds(), "repeat": rep})


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    return [train_event(r, c[0], timedelta(minutes=c[1]), bool(c[2])) for c in cases]


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(6):
        iv = timedelta(milliseconds=r.choice([r.randint(1, 600000), r.randint(-7200000, 7200000), r.randint(-4 * 86400000, 4 * 86400000)]))
        evs.append(train_event(r, r.choice([1, 2, 3, 9, 10, 11, 99, 100, r.randint(2, 120)]), iv, r.random() < 0.5))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C09"]))]
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(30, 300))], chunk=1)


def corrupt(ev, rng):
    return corrupt8(ev, rng)
