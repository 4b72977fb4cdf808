"""C10: derived orbits shift only mean anomaly and ascending node."""
import json
import random

from framework import guarded
from wide import wide_orbit, sets, KINDS

MC = [("MC_C10", "MC_C10", "MC_C10_thorough")]
TRACE = "TR_C10"
RULE = ("TLC applies every history of shifts (whole turns, opposite, tiny, beyond a turn) up to the depth and checks that only the total matters; each "
        "history is replayed on orbits of every type (single and multi-set elements, eccentricity up to 0.74, angles at and next to 0 and 360), plus "
        "random histories with fractional shifts; the trace specification judges the orbit after every step.")
ASSUMPTIONS = ["angles of two line elements are rounded to 1e-4 degrees by the format at each step"]
WANT = {"tle": "tle", "circular": "circular", "sso": "circular", "keplerian": "keplerian", "molniya": "molniya", "tundra": "tundra"}


def event(r, kind, shifts):
    """shifts in degrees."""
    o = wide_orbit(r, (kind,))
    before = o.model_dump_json()
    q = {"sets": sets(o), "want": WANT[kind], "tol": 3, "shifts": []}
    # the recorded shift is the whole millidegrees of the running total, so that fractions do not accumulate
    tm = tr = 0.0
    for a, b in shifts:
        x, y = round(tm * 1000), round(tr * 1000)
        tm, tr = tm + a, tr + b
        q["shifts"].append([round(tm * 1000) - x, round(tr * 1000) - y])

    def run():
        steps, c = [], o
        for a, b in shifts:
            c = c.get_derived_orbit(a, b)
            inr = True
            if c.type != "tle":
                inr = 0 <= c.true_anomaly < 360 and 0 <= c.right_ascension_ascending_node < 360
            steps.append({"sets": sets(c), "inrange": bool(inr)})
        return {"steps": steps, "unchanged": o.model_dump_json() == before}
    st, out = guarded(run)
    return dict(kind=kind, inp=q, out={"status": st, **(out or {"steps": [], "unchanged": True})},
                repro={"orbit": json.loads(before), "shifts_deg": shifts})


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    return [event(r, k, [(a / 1000, b / 1000) for a, b in c]) for c in cases for k in KINDS]


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for k in KINDS:
        sh = []
        for _ in range(r.randint(1, 6)):
            f = lambda: r.choice([0.0, r.uniform(-1, 1), r.uniform(-360, 360), r.uniform(-5000, 5000), 1e-14, -1e-14, -1e-16, 360.0, -360.0, 5e-5, -5e-5,
                                  -3e-14, 359.99999999999994])
            if sh and r.random() < 0.3:
                sh.append((-sh[-1][0], -sh[-1][1]))
            else:
                sh.append((f(), f()))
        evs.append(event(r, k, sh))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C10"]))]
    if not ctx.thorough:
        cases = ctx.rng("c").sample(cases, 200)
    else:
        cases = ctx.rng("c").sample(cases, min(len(cases), 1500))
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(200, 3000))])


def corrupt(ev, rng):
    st = rng.choice(ev["out"]["steps"])
    s = rng.choice(st["sets"])
    what = rng.choice(["ma", "raan", "inc", "ecc", "argp", "n", "ep", "drop", "unchanged", "inrange"])
    if what == "drop":
        st["sets"].pop()
    elif what == "unchanged":
        ev["out"]["unchanged"] = False
    elif what == "inrange":
        st["inrange"] = False
    else:
        s[what] += 10
    yield what, ev
