"""C30: mission definitions."""
import json
import math
import random
from datetime import datetime, time, timedelta, timezone

from framework import guarded
from orbits import BASE, no_repeat
from wide import one_tle
from pydantic import ValidationError
from tatc.schemas import (Architecture, CircularOrbit, GroundStation, Instrument, KeplerianOrbit, MOGConstellation, MolniyaOrbit, Point,
                          PointedInstrument, Satellite, SOCConstellation, SunSynchronousOrbit, TrainConstellation, TundraOrbit, TwoLineElements,
                          WalkerConfiguration, WalkerConstellation)

MC = [("MC_C30", "MC_C30", "MC_C30_thorough")]
TRACE = "TR_C30"
RULE = ("TLC checks that a definition is accepted exactly when every required setting is given and every given one is inside its range, "
        "with those values, and that carrying it through dictionary and JSON text changes nothing; each combination is replayed on "
        "triples of settings of every schema, at and next to the documented bounds, and random nested definitions are carried through "
        "every form.")
ASSUMPTIONS = ["values are finite numbers of the documented type (an integer for a number); reading numbers from text is left open",
               "settings without a documented bound (altitude, elevation, eccentricity from above, access times) accept any finite value",
               "constellations defined round a circular orbit are given a CircularOrbit"]
UP, DOWN = (lambda x: math.nextafter(x, math.inf)), (lambda x: math.nextafter(x, -math.inf))
SSO_TOP = 12352000 - (2 * 6378137.0 + 6356752.314245179) / 3


def num(lo=None, hi=None, lo_open=False, hi_open=False, dflt=None, mid=(1.0, 7), need=False):
    ins = list(mid)
    low, high = [], []
    if lo is not None:
        (low if lo_open else ins).append(lo)
        if lo_open:
            ins.append(UP(float(lo)))
        low += [DOWN(float(lo)), lo - 1, lo - 1000]
    if hi is not None:
        (high if hi_open else ins).append(hi)
        if hi_open:
            ins.append(DOWN(float(hi)))
        high += [UP(float(hi)), hi + 1, hi + 720]
    return dict(t="num", ins=ins, low=low, high=high, wrong=["far", None, [1], {"a": 1}, "", float("nan")] if low or high else ["far", None, [1], {"a": 1}, ""], need=need, dflt=dflt)


def count(lo, dflt, mid=(1, 3), need=False):
    return dict(t="int", ins=[*mid, lo], low=[lo - 1, lo - 5], high=[], wrong=["many", None, [2], 1.5, {}], need=need, dflt=dflt)


def text(dflt=None, need=True):
    return dict(t="str", ins=["a", "Station 1", "", "名前", "x" * 200], low=[], high=[], wrong=[None, 5, ["a"], {}], need=need, dflt=dflt)


def flag(dflt):
    return dict(t="bool", ins=[True, False], low=[], high=[], wrong=["perhaps", None, [True], 2], need=False, dflt=dflt)


def maybe(dflt):
    return dict(t="opt", ins=[True, False, None], low=[], high=[], wrong=["perhaps", [True], 2], need=False, dflt=dflt)


def span(dflt, need=False):
    return dict(t="span", ins=[timedelta(0), timedelta(seconds=10), timedelta(days=2, microseconds=5), timedelta(seconds=0.5), timedelta(minutes=-3)], low=[], high=[],
                wrong=["soon", None, [1], {}], need=need, dflt=dflt)


def when():
    return dict(t="when", ins=[BASE, BASE + timedelta(days=400, microseconds=1), datetime(1999, 12, 31, 23, 59, 59, tzinfo=timezone.utc),
                               BASE.astimezone(timezone(timedelta(hours=-7)))], low=[], high=[], wrong=["later", [1], {}], need=False, dflt="?")


def clock():
    return dict(t="clock", ins=[time(10, 30), time(0, 0), time(23, 59, 59, 999999), time(6, 0, 1)], low=[], high=[], wrong=["noon", None, [1], {}], need=True, dflt=None)


ANGLE = dict(lo=0, hi=360, hi_open=True, mid=(12.5, 200))
FIX = {"orbit": lambda r: CircularOrbit(altitude=500e3, epoch=BASE), "number_satellites": lambda r: 40, "interval": lambda r: timedelta(minutes=1)}
BASE_ORBIT = {"altitude": num(need=True, mid=(500e3, 400000, 35786e3)), "true_anomaly": num(**ANGLE, dflt=0), "epoch": when()}
CIRC = {**BASE_ORBIT, "inclination": num(0, 180, hi_open=True, dflt=0, mid=(51.6, 90)), "right_ascension_ascending_node": num(**ANGLE, dflt=0)}
INST = {"name": text("Default", False), "field_of_regard": num(0, 360, lo_open=True, dflt=180, mid=(20.0, 180, 200)), "min_access_time": span(timedelta(0)),
        "req_self_sunlit": maybe(None), "req_target_sunlit": maybe(None), "access_time_fixed": flag(False)}
GEO = {"latitude": num(-90, 90, need=True, mid=(40.7, 0)), "longitude": num(-180, 180, need=True, mid=(-74.0, 0)), "elevation": num(dflt=0, mid=(10.0, -400, 8848))}
SCHEMAS = {
    Point: {"id": count(0, None, (1, 10 ** 9), True), **GEO},
    GroundStation: {"name": text(), **GEO, "min_elevation_angle": num(0, 90, dflt=0, mid=(10.0, 5)), "min_access_time": span(timedelta(0))},
    Instrument: INST,
    PointedInstrument: {**INST, "cross_track_field_of_view": num(0, 180, lo_open=True, need=True, mid=(20.0, 5)),
                        "along_track_field_of_view": num(0, 180, lo_open=True, need=True, mid=(20.0, 5)),
                        "roll_angle": num(-180, 180, dflt=0, mid=(-20.0, 5)), "pitch_angle": num(-180, 180, dflt=0, mid=(-20.0, 5)), "is_rectangular": flag(False),
                        "cross_track_pixels": count(1, 1), "along_track_pixels": count(1, 1),
                        "cross_track_oversampling": num(0, 1, hi_open=True, dflt=0, mid=(0.5,)), "along_track_oversampling": num(0, 1, hi_open=True, dflt=0, mid=(0.25,))},
    CircularOrbit: CIRC,
    SunSynchronousOrbit: {**BASE_ORBIT, "altitude": num(0, SSO_TOP, hi_open=True, need=True, mid=(500e3, 700000)), "equator_crossing_time": clock(),
                          "equator_crossing_ascending": flag(True)},
    KeplerianOrbit: {**CIRC, "eccentricity": num(0, dflt=0, mid=(0.001, 0.5)), "perigee_argument": num(**ANGLE, dflt=0)},
    MolniyaOrbit: {**BASE_ORBIT, "inclination": num(0, 180, hi_open=True, dflt=0, mid=(63.4, 90)), "right_ascension_ascending_node": num(**ANGLE, dflt=0),
                   "orbital_period": num(0, lo_open=True, dflt=43080, mid=(43000.0, 43200)), "perigee_argument": num(**ANGLE, dflt=0)},
    TundraOrbit: {**BASE_ORBIT, "inclination": num(0, 180, hi_open=True, dflt=63.4, mid=(63.4, 90)), "right_ascension_ascending_node": num(**ANGLE, dflt=0),
                  "orbital_period": num(0, lo_open=True, dflt=86400, mid=(86000.0, 86164)), "perigee_argument": num(**ANGLE, dflt=270),
                  "eccentricity": num(0, dflt=0.2, mid=(0.1, 0.3))},
    Satellite: {"name": text()},
    TrainConstellation: {"name": text(), "number_satellites": count(1, 1), "interval": span(None, True), "repeat_ground_track": flag(True)},
    WalkerConstellation: {"name": text(), "number_satellites": count(1, 1, (40, 60)), "number_planes": count(1, 1, (2, 3)), "relative_spacing": count(0, 0, (0, 1))},
    MOGConstellation: {"name": text(), "parallel_axis": num(0, lo_open=True, need=True, mid=(1000.0, 5000)), "transverse_axis": num(0, lo_open=True, need=True, mid=(1000.0, 5000)),
                       "clockwise": flag(True), "number_satellites": count(1, 2)},
    SOCConstellation: {"name": text(), "swath_width": num(0, lo_open=True, need=True, mid=(1e6, 500000)), "packing_distance": num(0, 1, lo_open=True, need=True, mid=(0.5, 0.9))},
}


def txt(x, t):
    if x is None or x == "?":
        return "?" if x == "?" else "None"
    if t == "num":
        return repr(float(x))
    if t == "when":
        return x.isoformat() if isinstance(x, datetime) and x.tzinfo is timezone.utc else str(x.timestamp())
    return repr(x)


def same_when(x):
    return str(x.timestamp()) if isinstance(x, datetime) and x.tzinfo is not None else "naive"


def define(kind, r, cls, given):
    """given: setting -> (class, value); the others take plain allowed values when needed."""
    fields = SCHEMAS[cls]
    data, f = {}, []
    names = list(fields)
    for n in names:
        s = fields[n]
        c, v = given.get(n, ("none", None) if not s["need"] else ("in", s["ins"][0]))
        if c != "none":
            data[n] = v
        show = (lambda x: same_when(x)) if s["t"] == "when" else (lambda x, s=s: txt(x, s["t"]))
        f.append({"name": n, "given": c, "need": s["need"], "want": show(v) if c == "in" else "", "dflt": "?" if s["dflt"] == "?" else ("None" if s["dflt"] is None else txt(s["dflt"], s["t"]))})
    cross = False
    if cls is WalkerConstellation and not any(x["given"] == "out" for x in f):
        n, p, k = (data.get(a, d) for a, d in (("number_satellites", 1), ("number_planes", 1), ("relative_spacing", 0)))
        cross = p > n or k >= p
    if cls in (Satellite, TrainConstellation, WalkerConstellation, MOGConstellation, SOCConstellation):
        o = CircularOrbit(altitude=500e3, epoch=BASE)
        data["orbit"] = o if r.random() < 0.5 else o.model_dump()
    if r.random() < 0.3:
        data["type"] = cls.model_fields["type"].default if "type" in cls.model_fields else "x"
    via = r.choice(["call", "dict"])

    def run():
        try:
            x = cls(**data) if via == "call" else cls.model_validate(data)
        except ValidationError:
            return "rejected", "", [""] * len(f)
        got = [same_when(getattr(x, n)) if fields[n]["t"] == "when" else txt(getattr(x, n), fields[n]["t"]) if not (fields[n]["t"] == "num" and not isinstance(getattr(x, n), (int, float)))
               else "not a number" for n in names]
        return "accepted", type(x).__name__, got
    st, o = guarded(run)
    if st != "ok":
        o = (st, "", [""] * len(f))
    return dict(kind=kind, inp={"kind": cls.__name__, "f": f, "cross": cross}, out={"status": "ok", "outcome": o[0], "kind": o[1], "got": o[2]}, repro={"class": cls.__name__, "data": repr(data), "via": via})


def run_cases(args):
    seed, cases, reps = args
    r = random.Random(seed)
    evs = []
    classes = list(SCHEMAS)
    for k, given in cases:
        for _ in range(reps):
            cls = r.choice(classes)
            fields = SCHEMAS[cls]
            need = [n for n in fields if fields[n]["need"]]
            free = [n for n in fields if not fields[n]["need"]]
            pick = r.sample(need, min(2, len(need))) + r.sample(free, min(len(free), 3 - min(2, len(need))))
            g = {}
            for n, c in zip(pick, given):
                s = fields[n]
                opts = {"in1": s["ins"], "in2": s["ins"], "low": s["low"], "high": s["high"], "type": s["wrong"], "none": [None]}[c]
                if not opts:
                    c, opts = "in1", s["ins"]
                g[n] = ("in" if c in ("in1", "in2") else "none" if c == "none" else "out", r.choice(opts))
            evs.append(define("model", r, cls, g))
    return evs


def run_bounds(cls_name):
    """Every listed value of every setting, alone."""
    r = random.Random(cls_name)
    cls = next(c for c in SCHEMAS if c.__name__ == cls_name)
    evs = []
    for n, s in SCHEMAS[cls].items():
        for c, vs in (("in", s["ins"]), ("out", s["low"] + s["high"] + s["wrong"])):
            for v in vs:
                evs.append(define("bounds", r, cls, {n: (c, v)}))
    if cls is WalkerConstellation:
        for n in range(1, 5):
            for p in range(1, 6):
                for k in range(0, 5):
                    evs.append(define("bounds", r, cls, {"number_satellites": ("in", n), "number_planes": ("in", p), "relative_spacing": ("in", k)}))
    return evs


def fill(r, cls, extra=None):
    d = {}
    for n, s in SCHEMAS[cls].items():
        if s["need"] or r.random() < 0.6:
            d[n] = r.choice(s["ins"])
    return {**d, **(extra or {})}


def an_instrument(r):
    return r.choice([Instrument, PointedInstrument])


def an_orbit(r, kinds):
    k = r.choice(kinds)
    if k is TwoLineElements:
        lines, e = [], BASE
        for _ in range(r.choice([1, 1, 3])):
            lines += one_tle(r, e)
            e += timedelta(hours=3)
        return k(tle=lines)
    return k(**{**fill(r, k), "altitude": r.choice([500e3, 700123.25])})


def tree(x):
    """Kinds of a definition and of everything inside it."""
    if isinstance(x, Architecture):
        return f"Architecture[{','.join(map(tree, x.satellites))}][{','.join(map(tree, x.stations))}]"
    if isinstance(x, Satellite):
        return f"{type(x).__name__}({tree(x.orbit)};{','.join(map(tree, x.instruments))})"
    return type(x).__name__


def values(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{values(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(values, x)) + "]"
    if isinstance(x, datetime):
        return str(x.timestamp())
    return repr(float(x)) if isinstance(x, (int, float)) and not isinstance(x, bool) else repr(x)


def members(x):
    if isinstance(x, Architecture):
        return "|".join(members(s) for s in x.satellites)
    if not isinstance(x, Satellite):
        return ""
    if isinstance(x, SOCConstellation):
        w = x.generate_walker()
        return values(w.model_dump())
    if getattr(x, "number_satellites", 1) > 12:
        return str(x.number_satellites)
    return values([m.model_dump() for m in x.generate_members()])


def build(r, k):
    if k == "architecture":
        sats = [build(r, c) for c in r.sample(["satellite", "train", "walker", "mog", "soc"], r.randint(0, 5))]
        return Architecture(name=r.choice(["a", ""]), satellites=[s for s, _ in sats], stations=[GroundStation(**fill(r, GroundStation)) for _ in range(r.randint(0, 2))]), \
            f"Architecture[{','.join(b for _, b in sats)}][{','.join('GroundStation' for _ in range(0))}"
    if k in ("satellite", "train", "walker", "mog", "soc"):
        cls = {"satellite": Satellite, "train": TrainConstellation, "walker": WalkerConstellation, "mog": MOGConstellation, "soc": SOCConstellation}[k]
        o = an_orbit(r, [CircularOrbit] if k in ("mog", "soc") else [CircularOrbit, SunSynchronousOrbit, KeplerianOrbit, TwoLineElements])
        if isinstance(o, KeplerianOrbit) and o.eccentricity > 0.5:
            o.eccentricity = 0.25
        ins = [c(**fill(r, c)) for c in [an_instrument(r) for _ in range(r.randint(1, 3))]]
        d = fill(r, cls, {"orbit": o, "instruments": ins})
        if k == "walker":
            p = r.randint(1, 5)
            d.update(number_satellites=p * r.randint(1, 3), number_planes=p, relative_spacing=r.randrange(p), configuration=r.choice([WalkerConfiguration.STAR, WalkerConfiguration.DELTA, "star"]))
        if k == "mog":
            d.update(parallel_axis=2000.0, transverse_axis=3000.0, orbit=CircularOrbit(altitude=500e3, inclination=60, epoch=o.epoch))
            o = d["orbit"]
        if k == "soc":
            d.update(swath_width=1e6, packing_distance=0.8)
        return cls(**d), f"{cls.__name__}({type(o).__name__};{','.join(type(i).__name__ for i in ins)})"
    cls = k
    if cls is TwoLineElements:
        return an_orbit(r, [cls]), cls.__name__
    return cls(**fill(r, cls)), cls.__name__


def trip(seed):
    r = random.Random(seed)
    no_repeat()
    k = r.choice(["architecture", "architecture", "satellite", "train", "walker", "mog", "soc"] * 2 + [c for c in SCHEMAS if c not in (Satellite, TrainConstellation, WalkerConstellation, MOGConstellation, SOCConstellation)] + [TwoLineElements])
    st, made = guarded(lambda: build(r, k))
    if st != "ok":
        return [dict(kind="trip", inp={"kinds": "", "built": "", "values": "", "members": ""},
                     out={"status": st, "kinds": "", "values": "", "equal": False, "members": ""}, repro={"seed": str(seed), "kind": str(k)})]
    x, built = made
    if k == "architecture":
        built = built[:built.rindex("[")] + "[" + ",".join("GroundStation" for _ in x.stations) + "]"
    if r.random() < 0.4 and k != "architecture":
        guarded(lambda: members(x))  # generating or converting first changes nothing
    if r.random() < 0.4 and hasattr(x, "to_tle") and not isinstance(x, (MolniyaOrbit, TundraOrbit)) and getattr(x, "eccentricity", 0) < 0.5 and getattr(x, "altitude", 0) < 5e6:
        guarded(x.to_tle)
    evs = []
    st, mem = guarded(lambda: members(x))
    q = {"kinds": tree(x), "built": built, "values": values(x.model_dump()), "members": mem if st == "ok" else st}
    outer = x
    for form in ("dict", "json dict", "json", "text", "wrapped"):
        def run():
            if form == "dict":
                y = type(x).model_validate(x.model_dump())
            elif form == "json dict":
                y = type(x).model_validate(json.loads(json.dumps(x.model_dump(mode="json"))))
            elif form == "json":
                y = type(x).model_validate_json(x.model_dump_json())
            elif form == "text":
                y = type(x)(**json.loads(x.model_dump_json(indent=2)))
            elif isinstance(x, Satellite):
                y = Architecture.model_validate_json(Architecture(name="n", satellites=[x]).model_dump_json()).satellites[0]
            elif isinstance(x, (CircularOrbit, SunSynchronousOrbit, TwoLineElements)):
                y = Satellite.model_validate_json(Satellite(name="n", orbit=x).model_dump_json()).orbit
            elif isinstance(x, Instrument):
                y = Satellite.model_validate_json(Satellite(name="n", orbit=CircularOrbit(altitude=5e5), instruments=[x]).model_dump_json()).instruments[0]
            else:
                y = type(x).model_validate(json.loads(x.model_dump_json()))
            return tree(y), values(y.model_dump()), bool(outer == y), members(y)
        st, o = guarded(run)
        o = o or ("", "", False, "")
        evs.append(dict(kind="trip", inp=q, out={"status": st, "kinds": o[0], "values": o[1], "equal": o[2], "members": o[3]}, repro={"form": form, "json": x.model_dump_json()[:2000]}))
    return evs


def run_types(seed):
    """A type that does not belong to the place is rejected; one that does selects the kind."""
    r = random.Random(seed)
    evs = []
    orbits = {"circular": CircularOrbit, "sso": SunSynchronousOrbit, "keplerian": KeplerianOrbit, "tle": TwoLineElements}
    for t in [*orbits, "foo", "", None, 3]:
        for own in orbits.values():
            st, o = guarded(lambda: an_orbit(r, [own]))
            if st != "ok":
                continue
            d = {**json.loads(o.model_dump_json()), "type": t}
            # a circular orbit is a Keplerian one without its two settings; otherwise required settings tell
            good = t in orbits and (orbits[t] is own or {orbits[t], own} <= {CircularOrbit, KeplerianOrbit} or (orbits[t] in (CircularOrbit, KeplerianOrbit) and own is SunSynchronousOrbit))

            def run(cls=Satellite):
                try:
                    x = Satellite.model_validate({"name": "s", "orbit": d})
                except ValidationError:
                    return "rejected", ""
                return "accepted", type(x.orbit).__name__
            st, y = guarded(run)
            y = y if st == "ok" else (st, "")
            evs.append(dict(kind="types", inp={"kind": orbits[t].__name__ if good else "", "cross": not good, "f": []}, out={"status": "ok", "outcome": y[0], "kind": y[1], "got": []}, repro={"orbit": d}))
    kinds = {"satellite": Satellite, "train": TrainConstellation, "walker": WalkerConstellation, "mog": MOGConstellation, "soc": SOCConstellation}
    for t in [*kinds, "foo", "", None]:
        d = {"name": "s", "orbit": {"type": "circular", "altitude": 500000.0}, "interval": "PT1M", "parallel_axis": 1000.0, "transverse_axis": 1000.0, "swath_width": 1e6, "packing_distance": 0.5, "type": t}

        def run():
            try:
                return "accepted", type(Architecture.model_validate({"name": "a", "satellites": [d]}).satellites[0]).__name__
            except ValidationError:
                return "rejected", ""
        st, y = guarded(run)
        y = y if st == "ok" else (st, "")
        evs.append(dict(kind="types", inp={"kind": kinds[t].__name__ if t in kinds else "", "cross": t not in kinds, "f": []}, out={"status": "ok", "outcome": y[0], "kind": y[1], "got": []}, repro={"system": d}))
    # no instruments at all, no orbit, no element sets
    for name, fn in [("no instruments", lambda: Satellite(name="s", orbit=CircularOrbit(altitude=5e5), instruments=[])), ("no orbit", lambda: Satellite(name="s")),
                     ("no elements", lambda: TwoLineElements(tle=[])), ("no architecture name", lambda: Architecture()),
                     ("bad configuration", lambda: WalkerConstellation(name="w", orbit=CircularOrbit(altitude=5e5), configuration="ring"))]:
        def run():
            try:
                fn()
            except ValidationError:
                return "rejected"
            return "accepted"
        st, y = guarded(run)
        evs.append(dict(kind="types", inp={"kind": "", "cross": True, "f": []}, out={"status": "ok", "outcome": y if st == "ok" else st, "kind": "", "got": []}, repro={"what": name}))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C30"]))]
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::16], ctx.scale(4, 40)) for i in range(16)], chunk=1)
    ctx.pmap(run_bounds, [c.__name__ for c in SCHEMAS], chunk=1)
    ctx.pmap(trip, [f"{ctx.seed}/{i}" for i in range(ctx.scale(260, 3000))], chunk=10)
    ctx.pmap(run_types, [f"{ctx.seed}/t{i}" for i in range(ctx.scale(3, 20))], chunk=1)


def corrupt(ev, rng):
    o, q = ev["out"], ev["in"]
    if ev["kind"] == "trip":
        k = rng.choice(["kinds", "values", "equal", "members"])
        o[k] = False if k == "equal" else o[k] + "x"
        yield k, ev
        return
    if o["outcome"] == "accepted":
        o["outcome"] = rng.choice(["rejected", "raise:TypeError"])
        yield "rejected", ev
    elif o["outcome"] == "rejected":
        o["outcome"] = "accepted"
        yield "accepted", ev
