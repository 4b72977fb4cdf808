"""C15: multi-set orbits always use the element set closest in time."""
import json
import random
from datetime import timedelta

import numpy as np

from framework import guarded, i32, ShapeError
from orbits import tle_lines, BASE, TwoLineElements, sat_of, t_of, wgs84, no_repeat, with_repeat, TS, period_s
from tables import at, ms
from tatc.schemas import Point

MC = [("MC_C15", "MC_C15", "MC_C15_thorough")]
TRACE = "TR_C15"
RULE = ("TLC moves time through every small window over every arrangement of element set epochs (including equal ones) and checks closeness, order and "
        "midpoint switching; the arrangements are replayed (one unit = minutes to days) into index choice for one time and for lists, partitions, "
        "tracks and events of real multi-set orbits, with random arrangements of up to forty sets.")
ASSUMPTIONS = ["ties between epochs may be resolved either way", "events of each part alone come from the propagation library"]


def orbit(r, secs):
    """Element sets with visibly different orbits at the given epochs (seconds after BASE)."""
    lines = []
    for s in secs:
        lines += tle_lines(r.choice([40.0, 60.0, 75.0, 98.0]), r.uniform(0, 359), 0.001, r.uniform(0, 359), r.uniform(0, 359), 86400 / period_s(r.choice([5e5, 8e5])),
                           BASE + timedelta(seconds=s))
    return TwoLineElements(tle=lines)


def closest(es, t):
    d = [abs(t - e) for e in es]
    return [i for i, x in enumerate(d) if x == min(d)]


def events(r, es, windows, heavy):
    """es: epochs (s); windows: list of (a, b) seconds."""
    o = orbit(r, es)
    evs = []
    rep = {"epochs_s": es, "tle": list(o.tle)}
    lo, hi = min(es) - 4000, max(es) + 4000
    ts = [r.randint(lo, hi) for _ in range(6)] + list(es) + [(es[i] + es[i - 1]) // 2 for i in range(1, len(es))]
    r.shuffle(ts)
    st, v = guarded(lambda: [[t, int(i)] for t, i in zip(ts, o.get_closest_tle_index([BASE + timedelta(seconds=t) for t in ts]), strict=True)])
    evs.append(dict(kind="closest", inp={"eps": es, "ts": ts}, out={"status": st, "rows": v or []}, repro=rep))
    st, v = guarded(lambda: [[t, int(o.get_closest_tle_index(BASE + timedelta(seconds=t)))] for t in ts])
    evs.append(dict(kind="scalar", inp={"eps": es, "ts": ts}, out={"status": st, "rows": v or []}, repro=rep))
    for a, b in windows:
        def run():
            t, i = o.partition_by_tle_index(BASE + timedelta(seconds=a), BASE + timedelta(seconds=b))
            return [int(round((x - BASE).total_seconds())) for x in t], [int(x) for x in i]
        st, v = guarded(run)
        evs.append(dict(kind="partition", inp={"eps": es, "a": a, "b": b}, out={"status": st, "ts": v[0] if v else [], "is": v[1] if v else []}, repro=rep))
    if not heavy:
        return evs
    sats = [sat_of(o.tle[2 * i:2 * i + 2]) for i in range(len(es))]
    no_repeat() if r.random() < 0.7 else with_repeat()

    def dist(track, ts):
        p, v = np.atleast_2d(np.array(track.position.m).T), np.atleast_2d(np.array(track.velocity.km_per_s).T * 1e6)
        if len(p) != len(ts) or len(v) != len(ts):
            raise ShapeError("track length")
        out = []
        for k, t in enumerate(ts):
            g = [sats[i].at(t_of(t)) for i in closest(es, t)]
            # metres and mm/s from the same closest set
            d = min(max(float(np.linalg.norm(p[k] - x.position.m)), float(np.linalg.norm(v[k] - x.velocity.km_per_s * 1e6))) for x in g)
            out.append(i32(d))
        return out
    sub = ts[:r.randint(1, len(ts))]

    def run():
        tr = o.get_orbit_track([BASE + timedelta(seconds=t) for t in sub])
        ok = bool(np.allclose(tr.t.tt, t_of(np.array(sub)).tt, rtol=0, atol=1e-8))
        return {"dist": dist(tr, sub), "times": ok}
    st, v = guarded(run)
    evs.append(dict(kind="track", inp={"eps": es, "ts": sub}, out={"status": st, **(v or {"dist": [], "times": True})}, repro=rep))
    t = r.choice(ts)

    def run1():
        tr = o.get_orbit_track(BASE + timedelta(seconds=t))
        return {"dist": dist(tr, [t]), "times": bool(abs(tr.t.tt - t_of(t).tt) < 1e-8)}
    st, v = guarded(run1)
    evs.append(dict(kind="track", inp={"eps": es, "ts": [t]}, out={"status": st, **(v or {"dist": [], "times": True})}, repro=rep))
    # events of the closest set on each side of the midpoints
    a, b = r.choice(windows)
    pt = Point(id=0, latitude=r.choice([-60, -10, 35, 55, 85]), longitude=r.choice([-120, 0, 100]))
    el = r.choice([0.0, 10.0, 40.0, 80.0])
    topos = wgs84.latlon(pt.latitude, pt.longitude, 0)
    cuts = sorted({a, b, *[m for m in ((es[i] + es[i - 1]) / 2 for i in range(1, len(es))) if a < m < b]})
    want = []
    for x, y in zip(cuts[:-1], cuts[1:]):
        i = closest(es, (x + y) / 2)
        tt, ee = sats[i[0]].find_events(topos, t_of(x), t_of(y), el)
        want += [[ms(q.utc_datetime()), int(c)] for q, c in zip(tt, ee)]
    if len(set(es)) == len(es):
        def run2():
            tt, ee = o.get_observation_events(pt, BASE + timedelta(seconds=a), BASE + timedelta(seconds=b), el)
            return [[ms(q.utc_datetime()), int(c)] for q, c in zip(tt, ee, strict=True)]
        st, v = guarded(run2)
        evs.append(dict(kind="events", inp={"eps": es, "want": want}, out={"status": st, "got": v or []}, repro={**rep, "window": [a, b], "point": [pt.latitude, pt.longitude], "el": el}))
    return evs


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    out = []
    for c in cases:
        u = r.choice([60, 600, 3600, 7200, 43200])
        out += events(r, [x * u for x in c["e"]], [(c["w"][0] * u, c["w"][1] * u)], r.random() < 0.3)
    return out


def run_random(seed):
    r = random.Random(seed)
    es, e = [], r.randint(-100000, 100000) * 2
    for _ in range(r.choice([r.randint(2, 8), r.randint(2, 8), r.randint(9, 40)])):
        es.append(e)
        e += 2 * r.choice([0, 30, 600, r.randint(1, 20000), 43200])
    ws = []
    for _ in range(3):
        a = r.choice([es[0] - 3000, r.randint(es[0], es[-1] + 1), (es[0] + es[1]) // 2, es[1]])
        ws.append((a, a + r.choice([600, 7200, 40000, 86400])))
    if len(es) > 8:
        ws.append((es[0] - 1000, min(es[-1] + 1000, es[0] + 10 * 86400)))
    return events(r, es, ws, True)


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C15"]))]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(400, 3000)))
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(120, 800))], chunk=1)


def corrupt(ev, rng):
    o, k = ev["out"], ev["kind"]
    if k in ("closest", "scalar"):
        row = rng.choice(o["rows"])
        far = max(range(len(ev["in"]["eps"])), key=lambda i: abs(row[0] - ev["in"]["eps"][i]))
        es = ev["in"]["eps"]
        if abs(row[0] - es[far]) == min(abs(row[0] - e) for e in es):
            return
        row[1] = far
        yield "index", ev
    elif k == "partition":
        o["ts"][rng.randrange(len(o["ts"]))] += 100000
        yield "time", ev
    elif k == "track":
        o["dist"][0] += 50
        yield "dist", ev
    elif o["got"]:
        o["got"].pop()
        yield "event", ev
