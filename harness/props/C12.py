"""C12: converting an orbit to two line elements preserves its elements."""
import json
import random
from datetime import timedelta

from framework import guarded
from elements import tle_elements, shape
from wide import wide_orbit, KINDS
from tleform import ok1, ok2
from orbits import TwoLineElements, no_repeat
from tatc import config
from tatc.schemas import Satellite, Instrument
from tatc.analysis import collect_orbit_track

MC = [("MC_C12", "MC_C12", "MC_C12_thorough")]
TRACE = "TR_C12"
RULE = ("TLC runs every history of conversions with explicit, default and reconfigured lazy loading, copies and other uses up to the depth; each "
        "history with two or more conversions is replayed on a seeded orbit of every type over its whole field domain, and every text returned is "
        "parsed column by column and compared with the elements the definition prescribes.")
ASSUMPTIONS = ["fields are not reassigned after construction"]


def use(o, op, r):
    if op == "derive":
        o.get_derived_orbit(r.uniform(-400, 400), r.uniform(-400, 400)).to_tle()
    elif op == "dump":
        json.loads(o.model_dump_json())
        o.model_dump()
        getattr(o, "get_mean_motion")()
    elif op == "track":
        o.to_tle  # attribute access only; propagation below
        ep = o.epoch if o.type != "tle" else o.get_epoch()
        try:
            collect_orbit_track(Satellite(name="s", orbit=o, instruments=[Instrument(name="i", field_of_regard=60)]), [ep, ep + timedelta(minutes=3)])
        except Exception:
            pass  # propagation of an arbitrary orbit may fail; not what is checked here


def event(r, kind, ops):
    o = wide_orbit(r, (kind,), multi=False)
    before = o.model_dump_json()
    w = shape(o)

    def run():
        no_repeat()
        keep = config.rc.orbit_tle_lazy_load
        config.rc.orbit_tle_lazy_load = True
        rows, first, ident = [], None, True
        try:
            c = o
            for op in ops:
                if op.startswith("tle_"):
                    if kind == "tle":
                        t = c.to_tle()
                        ident = ident and t.tle == c.tle
                    else:
                        t = c.to_tle() if op == "tle_default" else c.to_tle(lazy_load=op == "tle_yes")
                    text = list(t.tle)
                    first = first or text
                    rows.append({"el": shape(TwoLineElements.model_construct(type="tle", tle=text[:2])), "text": 1 if text == first else 2,
                                 "valid": ok1(text[0]) and ok2(text[1]), "sets": len(text) // 2})
                elif op in ("lazy_on", "lazy_off"):
                    config.rc.orbit_tle_lazy_load = op == "lazy_on"
                elif op == "copy":
                    c = type(o).model_validate_json(o.model_dump_json()) if r.random() < 0.5 else c.model_copy(deep=True)
                else:
                    use(c, op, r)
        finally:
            config.rc.orbit_tle_lazy_load = keep
        return {"rows": rows, "identity": ident, "unchanged": o.model_dump_json() == before}
    st, out = guarded(run)
    return dict(kind=kind, inp={"ops": ops, "want": w}, out={"status": st, **(out or {"rows": [], "identity": True, "unchanged": True})},
                repro={"orbit": json.loads(before), "ops": ops})


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    return [event(r, k, c) for c in cases for k in KINDS]


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C12"]))]
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(330, 4000)))
    n = 24
    ctx.pmap(run_cases, [(f"{ctx.seed}/{i}", cases[i::n]) for i in range(n)], chunk=1)


def corrupt(ev, rng):
    row = rng.choice(ev["out"]["rows"])
    what = rng.choice(["inc", "raan", "argp", "ecc", "ma", "n", "ep", "text", "valid", "sets", "unchanged", "drop"])
    if what == "text":
        row["text"] = 2
    elif what == "valid":
        row["valid"] = False
    elif what == "sets":
        row["sets"] = 2
    elif what == "unchanged":
        ev["out"]["unchanged"] = False
    elif what == "drop":
        ev["out"]["rows"].pop()
    else:
        row["el"][what] += 10
    yield what, ev
