"""C20: one exact orbit track record per sample, masked only by position."""
import json
import random
from datetime import timedelta

from framework import guarded, ShapeError
from masks import shape, star, U
from orbits import BASE, no_repeat, random_orbit, sat_of
from shapely.geometry import box
from tables import col
from tracks import State, cmp, index_of, mask_forms, swath, turn, valid, where
from tatc.analysis import collect_orbit_track
from tatc.schemas import Instrument, Satellite

MC = [("MC_C20", "MC_C20", "MC_C20_thorough")]
TRACE = "TR_C20"
RULE = ("TLC checks the collecting machine over every short sequence of samples inside or outside a mask, valid or not; each "
        "pattern is replayed with sample times of a real satellite chosen to realise it, plus random sample times in any "
        "order; every column is compared with an independently computed state of the satellite and the sun at that time.")
ASSUMPTIONS = ["positions to 5 m or 3e-5 degrees, velocities to 2 cm/s, angles to 0.02 degrees, swath width to 2 m",
               "sub-satellite points within 0.001 degrees of the mask edge and validity within a second of a change are accepted either way",
               "repeat cycles are disabled (see C16); the sun is a synthetic ephemeris shared with the code"]


def project(gdf, times, states, ins, elev, coords, vel, opts, sat_name):
    rows = []
    for j in range(len(gdf)):
        t = col(gdf, "time")[j].to_pydatetime()
        k = index_of(times, t)
        c = []
        if k:
            s = states[k - 1]
            g = gdf.geometry.iloc[j]
            if coords == "wgs84":
                c += [cmp("longitude", turn(g.x, s.lon), s.lon, 1e5, 3), cmp("latitude", g.y, s.lat, 1e5, 3), cmp("altitude", g.z, s.alt, 1, 2)]
            else:
                w = s.p if coords == "ecef" else s.g.position.m
                c += [cmp("position_" + n, v, x, 1, 2) for n, v, x in zip("xyz", (g.x, g.y, g.z), w)]
            if vel:
                q = gdf["velocity"].iloc[j]
                w = s.g.velocity.m_per_s if coords == "eci" else s.v
                c += [cmp("velocity_" + n, v, x, 1000, 5) for n, v, x in zip("xyz", (q.x, q.y, q.z), w)]
            c.append(cmp("swath_width", float(gdf["swath_width"].iloc[j]), swath(s.alt, ins.field_of_regard, elev), 1, 2))
            ok = valid(s, ins, s.lon, s.lat, 0)
            if ok:
                c.append(cmp("valid_obs", 1.0 * bool(gdf["valid_obs"].iloc[j]), 1.0 * (ok > 0), 1, 0))
            c.append(cmp("satellite", 1.0 * (gdf["satellite"].iloc[j] == sat_name), 1, 1, 0))
            c.append(cmp("instrument", 1.0 * (gdf["instrument"].iloc[j] == ins.name), 1, 1, 0))
            if "sat_sunlit" in opts and s.lit:
                c.append(cmp("sat_sunlit", 1.0 * bool(gdf["sat_sunlit"].iloc[j]), 1.0 * (s.lit > 0), 1, 0))
            if "solar_altaz" in opts:
                a, z = s.sun_altaz(s.lon, s.lat, s.alt)
                c.append(cmp("solar_alt", float(gdf["solar_alt"].iloc[j]), a, 1000, 3))
                if abs(a) < 80:
                    c.append(cmp("solar_az", turn(float(gdf["solar_az"].iloc[j]), z), z, 1000, 6))
            if "solar_beta" in opts:
                c.append(cmp("solar_beta", float(gdf["solar_beta"].iloc[j]), s.beta, 1000, 3))
        rows.append({"k": k, "cmp": c})
    return rows


def instruments(r):
    return [Instrument(name=f"ins{k}", field_of_regard=r.choice([2, 30, 60, 110, 180, 240]),
                       req_self_sunlit=r.choice([None, True, False]), req_target_sunlit=r.choice([None, None, True, False]))
            for k in range(r.choice([1, 2, 3]))]


def event(kind, r, satellite, sat, times, mask, geoms):
    k = r.randrange(len(satellite.instruments))
    ins = satellite.instruments[k]
    elev = r.choice([0, 0, 500.0, -100.0, 3000.0])
    coords = r.choice(["wgs84", "wgs84", "ecef", "eci"])
    vel = r.random() < 0.4
    opts = [o for o in ("sat_sunlit", "solar_altaz", "solar_beta") if r.random() < 0.4]
    states = [State(sat, t) for t in times]
    kw = {o: True for o in opts}
    if coords != "wgs84" or r.random() < 0.5:
        kw["coordinates"] = coords
    if vel:
        kw["orbit_output"] = "velocity"
    if elev:
        kw["elevation"] = elev
    if k or r.random() < 0.5:
        kw["instrument_index"] = k

    def run():
        g = collect_orbit_track(satellite, list(times), mask=mask, **kw)
        if str(g.crs).upper() != "EPSG:4326":
            raise ShapeError("crs")
        return project(g, times, states, ins, elev, coords, vel, opts, satellite.name)
    st, rows = guarded(run)
    wh = ["in"] * len(times) if mask is None else [where(geoms, s.lon, s.lat) for s in states]
    return dict(kind=kind, inp={"where": wh, "masked": mask is not None, "coords": coords}, out={"status": st, "rows": rows or []},
                repro={"times": [str(t) for t in times], "orbit": satellite.orbit.model_dump_json()})


def around(r, lon, lat, big=None):
    x, y = round(lon * U), round(lat * U)
    m = big or r.randint(500, 6000)
    parts = [[star(r, x, y, m, m, r.randint(5, 9))]]
    g = shape(parts).buffer(0)
    g = g.intersection(box(-180, -90, 180, 90))
    return g if not g.is_empty and g.geom_type in ("Polygon", "MultiPolygon") and g.is_valid else box(max(lon - 20, -180), max(lat - 15, -90), min(lon + 20, 180), min(lat + 15, 90))


def setup(r):
    o = random_orbit(r)
    s = Satellite(name=f"sat{r.randint(0, 99)}", orbit=o, instruments=instruments(r))
    return s, sat_of(o.to_tle().tle), BASE + timedelta(seconds=r.randint(-40000, 40000))


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    no_repeat()
    evs = []
    s, sat, t0 = setup(r)
    pool = [t0 + timedelta(seconds=r.uniform(0, 12000)) for _ in range(60)]
    sts = [State(sat, t) for t in pool]
    c = r.choice(sts)
    geom = around(r, c.lon, c.lat, 6000)
    ins = s.instruments[0]
    kinds = {}
    for t, st in zip(pool, sts):
        kinds.setdefault((1 if where([geom], st.lon, st.lat) == "in" else 0, 1 if valid(st, ins, st.lon, st.lat, 0) > 0 else 0), []).append(t)
    for pat in cases:
        times = [r.choice(kinds.get((a, b)) or kinds.get((a, 1 - b)) or pool) for a, b in pat]
        if len(set(times)) < len(times):
            continue
        evs.append(event("model", r, s, sat, times, geom, [geom]))
        if r.random() < 0.3:
            evs.append(event("model", r, s, sat, times, None, None))
    return evs


def run_random(seed):
    r = random.Random(seed)
    no_repeat()
    s, sat, t0 = setup(r)
    evs = []
    for _ in range(6):
        n = r.choice([1, 1, 2, 5, 12])
        times = [t0 + timedelta(seconds=x) for x in r.sample(range(0, 20000), n)]
        k = r.random()
        if k < 0.5:
            times.sort()
        if r.random() < 0.4:
            evs.append(event("random", r, s, sat, times, None, None))
            continue
        a, b = State(sat, r.choice(times)), State(sat, r.choice(times))
        mask, geoms = mask_forms(r, around(r, a.lon, a.lat), around(r, b.lon, b.lat))
        evs.append(event("random", r, s, sat, times, mask, geoms))
    evs.append(event("empty", r, s, sat, [], r.choice([None, box(0, 0, 10, 10)]), [box(0, 0, 10, 10)]))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C20"]))]
    n = ctx.scale(12, 80)
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", ctx.rng(i).sample(cases, min(len(cases), 28))) for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(140, 900))])


def corrupt(ev, rng):
    rows = ev["out"]["rows"]
    if not rows:
        return
    k = rng.randrange(len(rows))
    what = rng.choice(["cmp", "k", "dup"])
    if what == "cmp":
        c = rng.choice(rows[k]["cmp"])
        c["got"] += c["tol"] + 1
    elif what == "dup":
        rows.append(rows[k])
    else:
        rows[k]["k"] = 0
    yield what, ev
