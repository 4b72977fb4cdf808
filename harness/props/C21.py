"""C21: the ground track, and masking it equals clipping it."""
import json
import math
import random
from datetime import timedelta

import numpy as np
import pyproj
from framework import guarded, ShapeError
from orbits import BASE, TS, eccentric_orbit, no_repeat, random_orbit, sat_of
from C20 import around
from shapely.geometry import Point, box
from shapely.ops import unary_union
from tables import col
from tracks import State, clusters, cmp, ground, index_of, mask_forms, swath, tan, turn, valid, xyz
from tatc.analysis import collect_ground_track
from tatc.schemas import Instrument, PointedInstrument, Satellite

MC = [("MC_C21", "MC_C21", "MC_C21_thorough")]
TRACE = "TR_C21"
RULE = ("TLC checks that clipping after any early culling that keeps every footprint meeting the mask equals clipping the "
        "unmasked track, over all short sequences of footprints that miss, straddle or lie in the mask; the patterns are "
        "replayed with sample times of real satellites, masked and unmasked, for equidistant, UTM and SPICE footprints, nadir "
        "and pointed instruments, polygons, multi polygons, series and frames, time steps from 1 s to 10 min in any order.")
ASSUMPTIONS = ["the unmasked geometry is probed at 95% and 105% of the expected radius (90% and 110% for UTM)",
               "a sample meets the mask when more than 2% of its footprint or of the mask is shared; less is accepted either way",
               "SPICE footprints reaching beyond 72 degrees latitude (edges straight in longitude and latitude), or from above 2300 km below 35 degrees of elevation, or narrow enough for that straightness to show, are probed at their centre",
               "orbits of eccentricity up to 0.2; pointed instruments with SPICE footprints; repeat cycles disabled"]
GEOD = pyproj.Geod(ellps="WGS84")
DEG = 111319.4908


def instrument(r, k):
    kw = dict(name=f"ins{k}", req_self_sunlit=r.choice([None, None, True, False]), req_target_sunlit=r.choice([None, None, True, False]))
    if r.random() < 0.35:
        return PointedInstrument(field_of_regard=180, cross_track_field_of_view=r.choice([5, 20, 40]),
                                 along_track_field_of_view=r.choice([3, 10, 40]), roll_angle=r.choice([0, 15, -30]),
                                 pitch_angle=r.choice([0, 10, -20]), is_rectangular=r.random() < 0.5, **kw)
    return Instrument(field_of_regard=r.choice([5, 30, 60, 90, 110, 180, 240]), **kw)


def arc(p, q):
    """Central angle between ground points (radians)."""
    u, v = xyz(*p), xyz(*q)
    return math.acos(max(-1, min(1, u @ v / np.linalg.norm(u) / np.linalg.norm(v))))


def probes(st, ins, crs, elev):
    """(lon, lat, inside?) around the sample where the footprint is expected."""
    out = []
    if isinstance(ins, PointedInstrument):
        c, a = tan(ins.cross_track_field_of_view / 2), tan(ins.along_track_field_of_view / 2)
        tx, ty = tan(ins.roll_angle), tan(ins.pitch_angle)
        ends = [ground(st, tx - c, ty, elev), ground(st, tx + c, ty, elev), ground(st, tx, ty - a, elev), ground(st, tx, ty + a, elev)]
        if any(e is None for e in ends):
            return []
        # how far a long side, straight in longitude and latitude, strays from the view's edge
        w, h = arc(*ends[:2]), arc(*ends[2:])
        bulge = max(w, h) ** 2 / 8 * tan(min(89, max(abs(e[1]) for e in ends))) / (min(w, h) / 2)
        if bulge > 0.5:
            return []
        for f, want in ((0.0, True), (0.85, True), (1.1, False)):
            for ang in np.linspace(0.3, 0.3 + 2 * math.pi, 6, endpoint=False):
                x, y = math.cos(ang), math.sin(ang)
                if ins.is_rectangular:
                    m = max(abs(x), abs(y))
                    x, y = x / m, y / m
                g = ground(st, tan(ins.roll_angle) + f * c * x, tan(ins.pitch_angle) + f * a * y, elev)
                if g is not None:
                    out.append((g[0], g[1], want))
        return out[:1] if bulge > 0.04 else out
    rad = swath(st.alt, ins.field_of_regard, elev) / 2
    if crs == "spice":
        half = math.radians(min(ins.field_of_regard, 180) / 2)
        horizon = math.asin(6371008.77 / (6371008.77 + st.alt))
        if half > horizon - 0.03:
            return [(st.lon, st.lat, True)] if abs(st.lat) < 89 else []
        for f, want in ((0.0, True), (0.9, True), (1.1, False)):
            for ang in np.linspace(0.2, 0.2 + 2 * math.pi, 6, endpoint=False):
                t = f * math.tan(half)
                g = ground(st, t * math.cos(ang), t * math.sin(ang), elev)
                if g is not None:
                    out.append((g[0], g[1], want))
        return out
    if crs == "utm":
        if rad > 450e3:
            return []
        for f, want in ((0.0, True), (0.88, True), (1.12, False)):
            for az in range(10, 360, 60):
                lo, la, _ = GEOD.fwd(st.lon, st.lat, az, f * rad)
                out.append((lo, la, want))
        return out
    d = rad / DEG
    if abs(st.lat) + d > 88:
        return []
    for f, want in ((0.0, True), (0.95, True), (1.05, False)):
        for ang in np.linspace(0.1, 0.1 + 2 * math.pi, 6, endpoint=False):
            out.append(((st.lon + f * d * math.cos(ang) + 180) % 360 - 180, st.lat + f * d * math.sin(ang), want))
    return out


def has_z(g, elev):
    ps = [g] if g.geom_type == "Polygon" else list(g.geoms)
    return all(len(c) > 2 and abs(c[2] - elev) < 1e-6 for p in ps for c in p.exterior.coords)


def project(gdf, times, states, ins, elev, crs, opts, name):
    rows = []
    for j in range(len(gdf)):
        k = index_of(times, col(gdf, "time")[j].to_pydatetime())
        c, hits = [], []
        if k:
            s = states[k - 1]
            g = gdf.geometry.iloc[j]
            if g.geom_type not in ("Polygon", "MultiPolygon"):
                raise ShapeError(g.geom_type)
            roll, pitch = (ins.roll_angle, ins.pitch_angle) if isinstance(ins, PointedInstrument) else (0, 0)
            t = ground(s, tan(roll), tan(pitch), elev)
            if t is not None:
                ok = valid(s, ins, *t)
                if ok:
                    c.append(cmp("valid_obs", 1.0 * bool(gdf["valid_obs"].iloc[j]), 1.0 * (ok > 0), 1, 0))
                if "sat_altaz" in opts:
                    a, z = s.sat_altaz(*t)
                    c.append(cmp("sat_alt", float(gdf["sat_alt"].iloc[j]), a, 1000, 3))
                    if a < 80:
                        c.append(cmp("sat_az", turn(float(gdf["sat_az"].iloc[j]), z), z, 1000, 8))
                if "solar_altaz" in opts:
                    a, z = s.sun_altaz(*t)
                    c.append(cmp("solar_alt", float(gdf["solar_alt"].iloc[j]), a, 1000, 3))
                    if abs(a) < 80:
                        c.append(cmp("solar_az", turn(float(gdf["solar_az"].iloc[j]), z), z, 1000, 8))
            c.append(cmp("satellite", 1.0 * (gdf["satellite"].iloc[j] == name), 1, 1, 0))
            c.append(cmp("instrument", 1.0 * (gdf["instrument"].iloc[j] == ins.name), 1, 1, 0))
            c.append(cmp("elevation", 1.0 * has_z(g, elev), 1, 1, 0))
            pts = probes(s, ins, crs, elev)
            if crs == "spice" and (any(abs(la) > 72 for _, la, _ in pts) or (s.alt > 2.3e6 and any(s.sat_altaz(lo, la, 0)[0] < 35 for lo, la, _ in pts))):
                pts = pts[:1]
            for lo, la, want in pts:
                if abs(abs(lo) - 180) > 0.01 and abs(la) < 85:
                    hits.append([want, bool(g.contains(Point(lo, la)))])
        rows.append({"k": k, "cmp": c, "hits": hits})
    return rows


ATTRS = ["satellite", "instrument", "valid_obs", "sat_alt", "sat_az", "solar_alt", "solar_az"]


def same_attrs(a, b):
    for n in ATTRS:
        if (n in a) != (n in b):
            return False
        if n in a and not (a[n] == b[n] or (isinstance(a[n], float) and abs(a[n] - b[n]) < 1e-6)):
            return False
    return True


def event(kind, r, satellite, sat, times, mask, geoms, k, crs, elev):
    ins = satellite.instruments[k]
    opts = [o for o in ("sat_altaz", "solar_altaz") if r.random() < 0.3]
    states = [State(sat, t) for t in times]
    kw = {o: True for o in opts}
    if crs != "EPSG:4087" or r.random() < 0.5:
        kw["crs"] = crs

    def run():
        u = collect_ground_track(satellite, list(times), instrument_index=k, elevation=elev, **kw)
        if str(u.crs).upper() != "EPSG:4326":
            raise ShapeError("crs")
        rows = project(u, times, states, ins, elev, crs, opts, satellite.name)
        meets, clip = [], []
        if mask is not None:
            m = collect_ground_track(satellite, list(times), instrument_index=k, elevation=elev, mask=mask, **kw)
            whole = unary_union(geoms)
            parts = []
            track = satellite.orbit.to_tle().get_orbit_track(list(times))
            foot = ins.compute_footprint(track, elevation=elev)
            foot = foot if isinstance(foot, list) else [foot]
            for g, f in zip(u.geometry, foot):
                p = g.intersection(whole)
                parts.append(p)
                share = p.area > 0.02 * min(g.area, whole.area)
                real = f.intersection(whole).area > 0.02 * min(f.area, whole.area)
                meets.append("yes" if share and real else "no" if g.distance(whole) > 1e-6 else "edge")
            for j in range(len(m)):
                i = index_of(times, col(m, "time")[j].to_pydatetime())
                g = m.geometry.iloc[j]
                clip.append({"k": i, "same": bool(i and same_attrs(m.iloc[j].to_dict(), u.iloc[i - 1].to_dict())),
                             "diff": math.ceil(g.symmetric_difference(parts[i - 1]).area / max(parts[i - 1].area, 1e-9) * 10000) if i else 0})
        return {"rows": rows, "meets": meets, "clip": clip}
    st, o = guarded(run)
    return dict(kind=kind, inp={"n": len(times), "masked": mask is not None, "crs": crs}, out={"status": st, **(o or {"rows": [], "meets": [], "clip": []})},
                repro={"times": [str(t) for t in times], "orbit": satellite.orbit.model_dump_json(), "instrument": ins.model_dump_json(),
                       "mask": None if mask is None else [g.wkt for g in geoms], "elev": elev})


def setup(r, ecc=0.0):
    o = eccentric_orbit(r) if r.random() < ecc else random_orbit(r)
    s = Satellite(name=f"sat{r.randint(0, 99)}", orbit=o, instruments=[instrument(r, k) for k in range(r.choice([1, 2, 3]))])
    return s, sat_of(o.to_tle().tle), BASE + timedelta(seconds=r.randint(-40000, 40000))


def pick_crs(r, ins):
    return "spice" if isinstance(ins, PointedInstrument) else r.choice(["EPSG:4087", "EPSG:4087", "spice", "spice", "utm"])


def run_cases(args):
    seed, cases = args
    r = random.Random(seed)
    no_repeat()
    s, sat, t0 = setup(r)
    k = r.randrange(len(s.instruments))
    ins = s.instruments[k]
    c = State(sat, t0)
    mask = around(r, c.lon, c.lat, r.randint(300, 2500))
    near = [t0 + timedelta(seconds=r.uniform(-60, 60)) for _ in range(8)]
    far = [t0 + timedelta(seconds=r.uniform(1200, 4000)) for _ in range(8)]
    evs = []
    for pat in cases:
        times = [r.choice(near if x else far) for x in pat]
        if len(set(times)) < len(times):
            continue
        if r.random() < 0.6:
            times.sort()
        evs.append(event("model", r, s, sat, times, mask, [mask], k, pick_crs(r, ins), 0))
    return evs


def run_random(seed):
    r = random.Random(seed)
    no_repeat()
    s, sat, t0 = setup(r, 0.35)
    evs = []
    for _ in range(3):
        n = r.choice([2, 6, 15, 1])
        step = r.choice([1, 5, 20, 60, 180, 600])
        times = [t0 + timedelta(seconds=step * i) for i in range(n)]
        if r.random() < 0.2:
            times = times[::-1]
        k = r.randrange(len(s.instruments))
        crs = pick_crs(r, s.instruments[k])
        elev = r.choice([0, 0, 500.0, 3000.0])
        if r.random() < 0.25:
            evs.append(event("random", r, s, sat, times, None, None, k, crs, elev))
            continue
        c, c2 = State(sat, r.choice(times)), State(sat, r.choice([times[0], times[-1], r.choice(times)]))
        rad = swath(c.alt, s.instruments[k].field_of_regard, 0) / 2 / DEG
        # a mask beside the track, within or just beyond reach of the footprint
        d = r.choice([0, 0.5, 0.9, 1.0, 1.2]) * rad if not isinstance(s.instruments[k], PointedInstrument) else r.choice([0, 1, 3])
        ang = r.uniform(0, 2 * math.pi)
        la = max(-88, min(88, c.lat + d * math.sin(ang)))
        lo = c.lon + d * math.cos(ang) / max(0.1, math.cos(math.radians(c.lat)))
        lo = max(-179, min(179, lo))
        mask, geoms = mask_forms(r, around(r, lo, la, r.choice([100, 400, 1500])), around(r, c2.lon, c2.lat, r.choice([300, 800])))
        evs.append(event("random", r, s, sat, times, mask, geoms, k, crs, elev))
    evs.append(event("empty", r, s, sat, [], None, None, 0, "EPSG:4087", 0))
    return evs


def run_eccentric(seed):
    """Low and high samples in one call; a mask that only the high samples' footprints reach."""
    r = random.Random(seed)
    no_repeat()
    o = eccentric_orbit(r)
    s = Satellite(name="ecc", orbit=o, instruments=[Instrument(name="w", field_of_regard=r.choice([60, 90, 110, 150]))])
    sat = sat_of(o.to_tle().tle)
    times = clusters(r, BASE + timedelta(seconds=r.randint(-40000, 40000)), 60 * math.pi / sat.model.no_kozai)
    if r.random() < 0.5:
        times = times[::-1]
    c = max((State(sat, t) for t in times[::4]), key=lambda q: q.alt)
    d = r.uniform(0.75, 0.95) * swath(c.alt, s.instruments[0].field_of_regard, 0) / 2 / DEG
    lo = c.lon + r.choice([-1, 1]) * d / max(0.1, math.cos(math.radians(c.lat)))
    la = c.lat - math.copysign(r.uniform(0, 0.2) * d, c.lat)
    lo = (lo + 180) % 360 - 180
    mask = around(r, max(-176, min(176, lo)), la, r.choice([60, 200]))
    return [event("random", r, s, sat, times, mask, [mask], 0, r.choice(["EPSG:4087", "spice"]), 0)]


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C21"]))]
    ctx.pmap(run_cases, [(f"{ctx.seed}/m{i}", ctx.rng(i).sample(cases, 5)) for i in range(ctx.scale(36, 300))], chunk=1)
    ctx.pmap(run_eccentric, [f"{ctx.seed}/e{i}" for i in range(ctx.scale(40, 300))], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/{i}" for i in range(ctx.scale(110, 800))], chunk=2)


def corrupt(ev, rng):
    o = ev["out"]
    if o["clip"] and rng.random() < 0.5:
        c = rng.choice(o["clip"])
        if o["meets"][c["k"] - 1] != "yes":
            return
        what = rng.choice(["k", "same", "diff", "drop"])
        if what == "drop":
            o["clip"].remove(c)
        elif what == "k":
            c["k"] = 0
        else:
            c[what] = False if what == "same" else 500
        yield what, ev
    elif o["rows"]:
        k = rng.choice(o["rows"])
        what = rng.choice(["cmp", "k", "dup"])
        if what == "cmp":
            c = rng.choice(k["cmp"])
            c["got"] += c["tol"] + 1
        elif what == "dup":
            o["rows"].append(k)
        else:
            k["k"] = 0
        yield what, ev
