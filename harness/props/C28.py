"""C28: configuration files."""
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
from datetime import timedelta, time as dtime

import yaml
from framework import guarded, i32
from orbits import BASE, tle_lines
from props.C16 import repeat_motion
from tatc import config, utils
from tatc.schemas import (CircularOrbit, SunSynchronousOrbit, KeplerianOrbit, MolniyaOrbit, TundraOrbit, TwoLineElements,
                          PointedInstrument, Point)

MC = [("MC_C28", "MC_C28", "MC_C28_thorough"), ("MC_C28e", "MC_C28e", "MC_C28e_thorough")]
TRACE = "TR_C28"
RULE = ("TLC checks every history of writing, loading and using small configuration files; every file of the model, with the settings "
        "of each kind drawn from the real ones, and random and malformed documents are written to a scratch folder and loaded; the "
        "effects of settings in use are observed on footprints and element sets; random histories of changing single settings, "
        "replacing the configuration and calling operations that read each setting are recorded and folded by TLC.")
ASSUMPTIONS = ["a value of another type that denotes an allowed one (a numeric string, an integral float, 1 for true) may be accepted with that value or rejected",
               "settings that do not exist are ignored",
               "the documented ranges are those of the published settings (integers at least 4 and 1, positive distances, speeds and elevations)"]
# name, kind, default, allowed others, out of range
FIELDS = [("footprint_points_elliptical", "int", 32, [4, 5, 16, 64, 1000], [3, 0, -1, 3.5, -32]),
          ("footprint_points_rectangular_side", "int", 8, [1, 2, 20, 9], [0, -1, 0.5, -8]),
          ("repeat_cycle_delta_position_m", "float", 10000, [1, 0.5, 1e-3, 99999.5, 20000], [0, -1, -0.001, 0.0]),
          ("repeat_cycle_delta_velocity_m_per_s", "float", 10, [1, 0.25, 1e-3, 500], [0, -10, -0.001]),
          ("repeat_cycle_search_elevation_deg", "float", 88, [1, 45.5, 89.999, 90], [0, -88, -0.01]),
          ("repeat_cycle_search_duration_days", "float", 30, [1, 0.5, 16, 400], []),
          ("repeat_cycle_lazy_load", "bool", True, [False], []),
          ("repeat_cycle_for_orbit_track", "bool", True, [False], []),
          ("repeat_cycle_for_observation_events", "bool", True, [False], []),
          ("orbit_tle_lazy_load", "bool", True, [False], [])]
WRONG = {"int": ["many", [4], {"a": 1}, None, "12a", 7.25, [], float("nan")], "float": ["far", [1.0], {"a": 1}, None, "", float("nan")],
         "bool": ["maybe", [True], {}, None, 2, -1, 0.5, ""]}
DOCS = {"broken": ["a: [1, 2", "a: {b: 1", "a: 'x", "\t- a", "a: *unknown", "key: value: more: [", "a: 1\n---\nb: 2", "%YAML 9.9\n", "a: !!python/object:os.system {}",
                   "a: !!int abc", "a: !!timestamp 2022-13-40", "? [a]\n: b", b"\xff\xfe\xfa\x00x", b"a: \x00", b"footprint_points_elliptical: \xe9\x80", b"# \xe9t\xe9\nfootprint_points_elliptical: 16\n", b"footprint_points_elliptical: 16 # \xc4", "a: !!int ''", "a: !!bool foo",
                   "a: !!timestamp foo", "[" * 3000, "a: !!binary x", "@a: 1", "a: `b`"],
        "list": ["", "   \n", "# nothing\n", "- 1\n- 2\n", "[]", "just text", "42", "3.5", "true", "null", "~", "2022-06-01", "[{footprint_points_elliptical: 16}]", "'a: 1'",
                 "- footprint_points_elliptical: 16", "!!set {a, b}" if False else "--- text"]}


def scale(x):
    return int(x) if isinstance(x, bool) else i32(x * 1000)


def dump(r, d):
    k = r.choice(["yaml", "flow", "json", "plain"])
    items = list(d.items())
    r.shuffle(items)
    d = dict(items)
    if k == "json" and not any(isinstance(v, float) and v != v for v in d.values()):
        return json.dumps(d)
    s = yaml.safe_dump(d, default_flow_style=k == "flow", sort_keys=False)
    if k == "plain":
        s = "# settings\n---\n" + s + "# end\n"
    if r.random() < 0.3:  # comments, unknown settings and a mark beyond ASCII
        s = r.choice(["\ufeff", ""]) + r.choice(["# \u00c4nderung \u2014 r\u00e9glages\n", "# \u8a2d\u5b9a \U0001f6f0\n", ""]) + s
        if k in ("yaml", "plain") and d:
            s += r.choice(["# \u00e0 \u0416\n", "Gr\u00f6\u00dfe: \u00c0\n", "na\u00efve: 3\n"])
    return s


def snapshot():
    return config.rc.model_dump()


def load(kind, r, doc, given, ok, text=None, folder=None):
    """given: setting -> value; ok: setting -> yes, no, either."""
    folder = tempfile.mkdtemp(prefix="c28")
    original = config.rc
    try:
        path = os.path.join(folder, r.choice(["c.yml", "conf.yaml", "settings", "a b.yml"]))
        if doc == "mapping":
            text = dump(r, given)
        if doc == "folder":
            os.mkdir(path)
        elif doc == "missing":
            if r.random() < 0.3:
                path = os.path.join(folder, "no", "such", "c.yml")
        else:
            with open(path, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
        arg = path if r.random() < 0.6 else pathlib.Path(path)
        if r.random() < 0.5:  # another configuration in use
            config.rc = config.RuntimeConfiguration(**{f[0]: r.choice(f[3]) for f in FIELDS if r.random() < 0.7})
        before, rc = snapshot(), config.rc

        def run():
            try:
                c = config.load_yaml_config(arg)
            except config.ConfigError:
                return "error", [0] * len(FIELDS), True
            got = [scale(getattr(c, n)) if isinstance(getattr(c, n), (int, float)) else -5 for n, *_ in FIELDS]
            types = [isinstance(getattr(c, n), {"int": int, "float": (int, float), "bool": bool}[k]) for n, k, *_ in FIELDS]
            # changing what was loaded changes neither the active configuration nor later loads
            want = c.model_dump()
            c.footprint_points_elliptical = 77
            c.repeat_cycle_lazy_load = not c.repeat_cycle_lazy_load
            return "loaded" if all(types) else "mistyped", got, config.load_yaml_config(arg).model_dump() == want
        st, o = guarded(run)
        if st != "ok":
            o = (st, [0] * len(FIELDS), True)
        active = config.rc is rc and snapshot() == before
    finally:
        config.rc = original
        shutil.rmtree(folder)
    f = [{"name": n, "given": n in given, "ok": ok.get(n, "yes"), "dflt": scale(d),
          "want": scale(given[n]) if n in given and isinstance(given[n], (int, float, bool)) and given[n] == given[n] else 0} for n, k, d, *_ in FIELDS]
    for x, (n, k, *_) in zip(f, FIELDS):
        if x["given"] and x["ok"] == "either":
            x["want"] = ok[n + "/want"]
    return dict(kind=kind, inp={"doc": doc, "f": f}, out={"status": "ok", "outcome": o[0], "got": o[1], "active": active, "again": o[2]},
                repro={"doc": doc, "text": repr(text)[:400], "given": repr(given)})


def value(r, field, cls):
    n, k, d, others, bad = field
    if cls == "default":
        return d, "yes"
    if cls == "other":
        return r.choice(others), "yes"
    if cls == "range" and bad:
        return r.choice(bad), "no"
    return r.choice([w for w in WRONG[k] if bad or w == w]), "no"


def cast(r, field):
    """A value of another type that denotes an allowed one."""
    n, k, d, others, bad = field
    x = r.choice(others + [d])
    if k == "bool":
        return r.choice([int(x), str(x).lower()]), scale(x)
    if k == "int":
        return r.choice([str(x), float(x)]), scale(x)
    return str(x), scale(x)


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    evs = []
    for doc, vals in cases:
        if doc != "mapping":
            d = {"absent": "missing"}.get(doc, doc)
            for _ in range(2):
                evs.append(load("model", r, "folder" if d == "missing" and r.random() < 0.3 else d, {}, {}, r.choice(DOCS[d]) if d in DOCS else None))
            continue
        given, ok = {}, {}
        for k, v in zip(["int", "float", "bool"], vals):
            if v == "none":
                continue
            f = r.choice([f for f in FIELDS if f[1] == k and (v != "range" or f[4])])
            given[f[0]], ok[f[0]] = value(r, f, v)
        if given or r.random() < 0.5:
            evs.append(load("model", r, "mapping", given, ok))
    return evs


def run_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(8):
        given, ok = {}, {}
        share = r.choice([0, 0.3, 0.6, 1])
        bad = r.random() < 0.4
        for f in FIELDS:
            if r.random() < share:
                x = r.random()
                if x < 0.08:
                    given[f[0]], ok[f[0] + "/want"] = cast(r, f)
                    ok[f[0]] = "either"
                else:
                    given[f[0]], ok[f[0]] = value(r, f, "other" if x < 0.75 else "default")
        if bad and given:
            f = r.choice(FIELDS)
            given[f[0]], ok[f[0]] = value(r, f, r.choice(["range", "type"]))
        if r.random() < 0.2:
            given[r.choice(["unknown", "footprint_points", "rc"])] = r.choice([1, "x", [1]])
        evs.append(load("random", r, "mapping", given, ok))
    d = r.choice(["broken", "list", "missing", "folder"])
    evs.append(load("random", r, d, {}, {}, r.choice(DOCS[d]) if d in DOCS else None))
    return evs


def distinct(g):
    return len({(round(x, 7), round(y, 7)) for x, y, *_ in g.exterior.coords})


def run_effect(seed):
    """The settings in use are the ones loaded."""
    r = random.Random(seed)
    folder = tempfile.mkdtemp(prefix="c28")
    old = config.rc
    n, m, lazy = r.choice([4, 9, 32, 50]), r.choice([1, 3, 8, 12]), r.random() < 0.5
    want_n, want_m = n, m
    d = {"footprint_points_elliptical": n, "footprint_points_rectangular_side": m, "orbit_tle_lazy_load": lazy}
    if r.random() < 0.3:
        del d["footprint_points_elliptical"]
        want_n = 32
    if r.random() < 0.3:
        del d["footprint_points_rectangular_side"]
        want_m = 8

    def run():
        path = os.path.join(folder, "c.yml")
        with open(path, "w", encoding="utf-8") as f:
            f.write(dump(r, d))
        config.rc = config.load_yaml_config(path)
        o = CircularOrbit(altitude=600e3, inclination=20, epoch=BASE, true_anomaly=r.choice([10, 100, 200]), right_ascension_ascending_node=170 + r.uniform(-5, 5))
        # a sample well away from the antimeridian and the poles
        for k in range(60):
            t = BASE + timedelta(seconds=60 * k)
            track = o.to_tle().get_orbit_track(t)
            e = utils.compute_footprint(track, 20, 20, 0, 0, False)
            q = utils.compute_footprint(track, 20, 20, 0, 0, True)
            if e.geom_type == q.geom_type == "Polygon" and abs(e.centroid.x) < 150:
                break
        a, b = o.to_tle(), o.to_tle()
        return [dict(name="ellipse_points", got=distinct(e), want=want_n, tol=1), dict(name="rectangle_points", got=distinct(q), want=4 * want_m, tol=0),
                dict(name="lazy_element_sets", got=int(a is b), want=int(lazy), tol=0), dict(name="equal_element_sets", got=int(a.tle == b.tle), want=1, tol=0)]
    try:
        st, o = guarded(run)
    finally:
        config.rc = old
        shutil.rmtree(folder)
    return [dict(kind="effect", inp={"a": 0}, out={"status": st, "cmp": o or []}, repro={"settings": d})]


NAMES = [f[0] for f in FIELDS]
PAIRS = {"footprint_points_elliptical": [(32, 9), (50, 16), (12, 64)], "footprint_points_rectangular_side": [(8, 3), (5, 12), (2, 8)],
         "repeat_cycle_delta_position_m": [(10000, 0.01), (20000, 0.001)], "repeat_cycle_delta_velocity_m_per_s": [(10, 1e-5), (50, 1e-4)],
         "repeat_cycle_search_elevation_deg": [(85, 10), (80, 20)], "repeat_cycle_search_duration_days": [(4, 0.5), (3.5, 0.25)]}


def any_orbit(r):
    k = r.choice(["circular", "sso", "keplerian", "molniya", "tundra"])
    kw = dict(true_anomaly=r.uniform(0, 359), epoch=BASE)
    if k == "circular":
        return CircularOrbit(altitude=r.choice([500e3, 800e3]), inclination=r.choice([20, 60, 98]), **kw)
    if k == "sso":
        return SunSynchronousOrbit(altitude=r.choice([500e3, 800e3]), equator_crossing_time=dtime(r.randint(0, 23), 30), **kw)
    if k == "keplerian":
        return KeplerianOrbit(altitude=r.choice([600e3, 900e3]), inclination=51.6, eccentricity=0.003, perigee_argument=40, **kw)
    if k == "molniya":
        return MolniyaOrbit(altitude=600e3, orbital_period=43200.0, **kw) if "orbital_period" in MolniyaOrbit.model_fields else MolniyaOrbit(altitude=600e3, **kw)
    return TundraOrbit(altitude=20000e3, **kw)


def probe(r, name, levels, x):
    """A call that depends on one setting: what it yields under x (0: the active setting), and when each level is stated."""
    arg = [None, *levels][x]
    if name.startswith("footprint"):
        o = CircularOrbit(altitude=600e3, inclination=20, epoch=BASE, true_anomaly=r.choice([10, 100, 200]), right_ascension_ascending_node=170 + r.uniform(-5, 5))
        rect = name.endswith("side")
        ins = PointedInstrument(name="i", cross_track_field_of_view=20, along_track_field_of_view=12, is_rectangular=rect)
        via = r.random() < 0.5
        for k in range(60):
            track = o.to_tle().get_orbit_track(BASE + timedelta(seconds=60 * k))
            g = utils.compute_footprint(track, 20, 12, 0, 0, rect, 8)
            if g.geom_type == "Polygon" and abs(g.centroid.x) < 150:
                break

        def f(a):
            if a is None and via:
                return distinct(ins.compute_footprint(track))
            return distinct(utils.compute_footprint(track, 20, 12, 0, 0, rect, **({} if a is None else {"number_points": a})))
        return f(arg), [f(v) for v in levels], 0
    if name == "orbit_tle_lazy_load":
        o = any_orbit(r)
        a = o.to_tle()
        return int(a is (o.to_tle() if arg is None else o.to_tle(lazy_load=arg))), [1, 0], 0
    inc, R, D = r.choice([(51.6, 15, 1), (97.5, 15, 1), (66.0, 14, 1), (98.0, 29, 2)])
    lines = tle_lines(inc, r.uniform(0, 359), 0.0004, 90, r.uniform(0, 359), repeat_motion(inc, R, D))
    days = [3, 4][r.randrange(2)]
    wide = dict(max_delta_position=20000, max_delta_velocity=20, min_elevation_angle=80, max_search_duration=timedelta(days=days))
    ms = lambda c: 0 if c is None else int(round(c / timedelta(milliseconds=1)))  # noqa: E731
    if name in ("repeat_cycle_delta_position_m", "repeat_cycle_delta_velocity_m_per_s", "repeat_cycle_search_elevation_deg", "repeat_cycle_search_duration_days"):
        key = dict(zip(NAMES[2:6], wide))[name]
        kw = {k: v for k, v in wide.items() if k != key}
        if name.endswith("elevation_deg"):
            kw.update(max_delta_position=5e6, max_delta_velocity=8e3)
        conv = (lambda v: timedelta(days=v)) if key == "max_search_duration" else (lambda v: v)

        def f(a):
            return ms(TwoLineElements(tle=lines).get_repeat_cycle(**kw, lazy_load=False, **({} if a is None else {key: conv(a)})))
        return f(arg), [f(v) for v in levels], 2
    if name == "repeat_cycle_lazy_load":
        def f(a):
            o = TwoLineElements(tle=lines)
            o.get_repeat_cycle(**wide, lazy_load=False)
            return ms(o.get_repeat_cycle(**{**wide, "max_delta_position": 0.001}, **({} if a is None else {"lazy_load": a})))
        return f(arg), [f(v) for v in levels], 2
    t = BASE + timedelta(days=r.choice([-1, 1]) * r.uniform(4, 9))
    if name == "repeat_cycle_for_orbit_track":
        many = r.random() < 0.5

        def f(a):
            o = TwoLineElements(tle=lines)
            o.get_repeat_cycle(**wide, lazy_load=False)
            p = o.get_orbit_track([t, t] if many else t, **({} if a is None else {"try_repeat": a})).position.m
            return int(round(float(p[2][0] if many else p[2])))
        return f(arg), [f(v) for v in levels], 5
    pt = Point(id=0, latitude=r.choice([0, 30, 45]), longitude=r.choice([-100, 10, 170]))

    def f(a):
        o = TwoLineElements(tle=lines)
        o.get_repeat_cycle(**wide, lazy_load=False)
        ts, _ = o.get_observation_events(pt, BASE, BASE + timedelta(days=7), 20, **({} if a is None else {"try_repeat": a}))
        return int(round(sum((q.utc_datetime() - BASE) / timedelta(seconds=1) for q in ts) / len(ts) * 100)) if len(ts) else -1
    return f(arg), [f(v) for v in levels], 10


def run_history(seed):
    """Settings changed one at a time, or replaced together, between calls."""
    r = random.Random(seed)
    folder = tempfile.mkdtemp(prefix="c28")
    original = config.rc
    levels = [r.choice(PAIRS[n]) if n in PAIRS else (True, False) for n in NAMES]
    if r.random() < 0.5:
        levels = [v if k == "bool" or r.random() < 0.5 else v[::-1] for v, (_, k, *_) in zip(levels, FIELDS)]
    ops, log = [], []

    def run():
        start = [r.randint(1, 2) for _ in NAMES]

        def whole(f):
            d = {n: levels[i][f[i] - 1] for i, n in enumerate(NAMES)}
            how = r.choice(["file", "object", "copy"])
            if how == "file":
                path = os.path.join(folder, "c.yml")
                with open(path, "w", encoding="utf-8") as fh:
                    fh.write(dump(r, d))
                config.rc = config.load_yaml_config(path)
            elif how == "object":
                config.rc = config.RuntimeConfiguration(**d)
            else:
                config.rc = config.rc.model_copy(update=d)
        whole(start)
        for _ in range(r.randint(5, 9)):
            k = r.random()
            if k < 0.35:
                s, v = r.randrange(len(NAMES)), r.randint(1, 2)
                setattr(config.rc, NAMES[s], levels[s][v - 1])
                ops.append(dict(op="set", s=s + 1, v=v))
            elif k < 0.45:
                f = [r.randint(1, 2) for _ in NAMES]
                whole(f)
                ops.append(dict(op="replace", f=f))
            else:
                s, x = r.randrange(len(NAMES)), r.choice([0, 0, 0, 1, 2])
                got, exp, tol = probe(r, NAMES[s], levels[s], x)
                ops.append(dict(op="call", s=s + 1, x=x, got=got, exp=exp, tol=tol))
            log.append(ops[-1])
        final = [levels[i].index(getattr(config.rc, n)) + 1 if getattr(config.rc, n) in levels[i] else 0 for i, n in enumerate(NAMES)]
        return start, final
    try:
        st, o = guarded(run)
    finally:
        config.rc = original
        shutil.rmtree(folder)
    start, final = o or ([1] * len(NAMES), [1] * len(NAMES))
    return [dict(kind="history", inp={"start": start, "names": NAMES}, out={"status": st, "ops": ops, "final": final},
                 repro={"levels": dict(zip(NAMES, levels)), "ops": repr(ops)})]


def run_fresh(seed):
    """In a new process, the active, the shipped and the built-in settings are the documented defaults."""
    code = ("import sys, json; sys.path.insert(0, sys.argv[1]); import boot, os, tatc.config as c\n"
            "p = os.path.join(os.path.dirname(c.__file__), 'resources', 'defaults.yml')\n"
            "print('OUT' + json.dumps([c.rc.model_dump(), c.RuntimeConfiguration().model_dump(), c.load_yaml_config(p).model_dump()]))")
    p = subprocess.run([sys.executable, "-c", code, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))], capture_output=True, text=True, timeout=120)
    line = next((x for x in p.stdout.splitlines() if x.startswith("OUT")), None)
    out = json.loads(line[3:]) if line else []
    evs = []
    for name, m in zip(["active", "built_in", "shipped"], out or [None]):
        got = [scale(m[n]) if m and isinstance(m.get(n), (int, float)) else -5 for n, *_ in FIELDS]
        evs.append(dict(kind="defaults", inp={"doc": "mapping", "f": [{"name": f"{name}_{n}", "given": False, "ok": "yes", "want": 0, "dflt": scale(d)} for n, k, d, *_ in FIELDS]},
                        out={"status": "ok", "outcome": "loaded" if m else "no_defaults", "got": got, "active": True, "again": True}, repro={"which": name}))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C28"]))]
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", cases[i::16] * ctx.scale(1, 8)) for i in range(16)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(100, 1500))], chunk=8)
    ctx.pmap(run_effect, [f"{ctx.seed}/e{i}" for i in range(ctx.scale(24, 150))], chunk=3)
    ctx.pmap(run_history, [f"{ctx.seed}/h{i}" for i in range(ctx.scale(150, 1500))], chunk=2)
    ctx.pmap(run_fresh, [f"{ctx.seed}/f"], chunk=1)


def corrupt(ev, rng):
    o, q = ev["out"], ev["in"]
    if ev["kind"] == "effect":
        c = rng.choice(o["cmp"])
        c["got"] = c["want"] + c["tol"] + 1
        yield "cmp", ev
        return
    if ev["kind"] == "history":
        calls = [p for p in o["ops"] if p["op"] == "call"]
        if calls:
            c = rng.choice(calls)
            c["got"] += c["tol"] + 1 + abs(c["exp"][0] - c["exp"][1])
            yield "got", ev
        return
    k = rng.choice(["active", "outcome", "got"])
    if k == "active":
        o["active"] = False
    elif k == "outcome":
        o["outcome"] = "raise:KeyError"
    elif o["outcome"] == "loaded":
        o["got"][rng.randrange(len(o["got"]))] += 1
    else:
        return
    yield k, ev
