"""C04: aggregation merges exactly the overlapping observations of each point."""
import json

from tables import obs_frame, ms, dms, mdeg, col
from framework import guarded, NA, ShapeError
from tatc.analysis import aggregate_observations

MC = [("MC_C04", "MC_C04", "MC_C04_thorough")]
TRACE = "TR_C04"
RULE = ("All overlap/touch/containment patterns of the bounded model (10 proper intervals and 5 instants on 0..4, "
        "up to 4 observations of one point, 2 (3) of two points) in every record order are checked in "
        "TLC; a seeded sample (quick) or all of them are replayed into aggregate_observations, plus "
        "random tables of up to 24 observations over up to 5 points.")
ASSUMPTIONS = ["observations do not end before they start", "names contain no ', '",
               "order of names of observations with equal start is unspecified"]


def project(gdf):
    rows = []
    n = len(gdf)
    for p, g, sat, ins, s, e, ep, acc, rev in zip(
        col(gdf, "point_id"), gdf.geometry, col(gdf, "satellite"), col(gdf, "instrument"),
        col(gdf, "start"), col(gdf, "end"), col(gdf, "epoch"), col(gdf, "access"), col(gdf, "revisit"),
    ):
        a, b = sat.split(", "), ins.split(", ")
        if len(a) != len(b):
            raise ShapeError("names differ in length")
        if g.geom_type == "MultiPoint" and len(g.geoms) == 1:
            g = g.geoms[0]
        if g.geom_type != "Point":
            raise ShapeError("geometry " + g.geom_type)
        rows.append({"p": int(p), "s": ms(s), "e": ms(e), "ep": ms(ep), "acc": dms(acc), "rev": dms(rev),
                     "names": [[x, y] for x, y in zip(a, b)], "x": mdeg(g.x), "y": mdeg(g.y), "z": round(g.z) if g.has_z else NA})
    if list(gdf.index) != list(range(n)):
        raise ShapeError("index is not 0..n-1")
    return rows


def event(kind, obs, label=""):
    st, val = guarded(lambda: project(aggregate_observations(obs_frame(obs))))
    return dict(kind=kind, inp=obs, out={"status": st, "rows": val or []}, label=label)


def mk(p, s, e, k, unit=60000, sat=None, ins=None, ep=None, off=0):
    s, e = s * unit + off, e * unit + off
    return {"p": p, "s": s, "e": e, "ep": (s + e) // 2 if ep is None else ep,
            "sat": sat or f"S{k}", "ins": ins or f"I{k}", "x": 10000 * (p % 17) - 5000, "y": 3000 * (p % 29) - 9000, "z": 700 * (p % 5) - 400}


def run_case(args):
    tag, case = args
    return [event("model", [mk(p, s, e, k) for k, (p, s, e) in enumerate(case)])]


def random_obs(r):
    n = r.randint(1, 24)
    np_ = r.randint(1, 5)
    T = r.choice([5, 12, 40, 2000])
    unit = r.choice([1000, 1000, 997, 60000 if T > 12 else 3600000]) if T < 2000 else 1000
    pids = r.sample(range(-5, 60) if r.random() < 0.7 else [-7, 0, 3, 10 ** 6, 2 * 10 ** 9, 41], np_)
    out = []
    for k in range(n):
        s = r.randint(0, T - 1)
        d = r.choice([0, 1, 1, 2, 3, max(1, T // 2), T])
        o = mk(r.choice(pids), s, s + d, k, unit=unit, sat=r.choice(["A", "B", "C 1", "D"]), ins=r.choice(["x", "y"]))
        o["ep"] = r.randint(o["s"], o["e"])
        out.append(o)
    return out


def run_random(seed):
    import random
    r = random.Random(seed)
    return [event("random", random_obs(r)) for _ in range(25)]


def drive(ctx):
    cases = [json.loads(c) for c in ctx.sample(ctx.cases["MC_C04"], ctx.scale(700, 20000))]
    ctx.pmap(run_case, [(i, c) for i, c in enumerate(cases)])
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(12, 120))])


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    k = rng.randrange(len(rows))
    what = rng.choice(["s", "e", "acc", "ep", "names", "drop", "dup", "rev"])
    if what == "drop":
        del rows[k]
    elif what == "dup":
        rows.append(dict(rows[k]))
    elif what == "names":
        rows[k]["names"][0] = ["zz", "zz"]
    elif what == "rev":
        rows[k]["rev"] = 7 if rows[k]["rev"] < 0 else rows[k]["rev"] + 60000
    else:
        rows[k][what] += 60000
    yield what, ev
