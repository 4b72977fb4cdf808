"""C14: element accessors return the values written in the element text."""
import math
import random
from datetime import datetime, timedelta, timezone

from framework import guarded, i32
from orbits import checksum, RE, BASE, TwoLineElements
from elements import MU, mean_to_true
from wide import one_tle

MC = [("MC_C14", "MC_C14", "MC_C14_thorough")]
TRACE = "TR_C14"
RULE = ("TLC writes extreme values field by field into an element set and checks that no field disturbs another; every written set is read with all "
        "accessors of the real code, plus random sets over the whole range of every field (signs, exponents, alpha-5 numbers, pivot years, blanks) "
        "and multi-set orbits read at every index.")
ASSUMPTIONS = ["every numeric field is populated (leading blanks allowed)", "epochs to one unit of the last place (0.864 ms)"]
E0 = datetime(1957, 1, 1, tzinfo=timezone.utc)


def sci(v):
    """Mantissa with five digits and exponent."""
    if v == 0:
        return [0, 0]
    e = math.floor(math.log10(abs(v))) + 1
    m = round(v / 10.0 ** e * 1e5)
    if abs(m) >= 100000:
        m, e = round(m / 10), e + 1
    elif abs(m) < 10000:
        m, e = m * 10, e - 1
    return [m, e]


def read(o, i):
    ep = o.get_epoch(i)
    d = (ep - E0)
    frac = round((d.seconds + d.microseconds / 1e6) / 86400 * 1e8)
    des = o.get_international_designator(i)
    n = o.get_mean_motion(i)
    ma, ecc = o.get_mean_anomaly(i), o.get_eccentricity(i)
    a = (MU * (86400 / (2 * math.pi * n)) ** 2) ** (1 / 3)
    dif = lambda x, y: int(round((((x - y) + 180) % 360 - 180) * 1000))
    head = des.split("-")[0]
    return {"catalog": int(o.get_catalog_number(i)), "class": o.get_classification(i),
            "launchyear": int(head) if head.isdigit() else -1, "launchno": int(des.split("-")[1][:3]) if "-" in des else -1,
            "launch": des.replace("-", ""), "piece": o.tle[2 * i][14:17].strip(),
            "epd": d.days + (1 if frac == 100000000 else 0), "epf": frac % 100000000,
            "ndot": i32(o.get_first_derivative_mean_motion(i) * 1e8), "nddot": sci(o.get_second_derivative_mean_motion(i)), "bstar": sci(o.get_b_star(i)),
            "ephtype": int(o.get_ephemeris_type(i)), "setno": int(o.get_element_set_number(i)), "inc": i32(o.get_inclination(i) * 1e4),
            "raan": i32(o.get_right_ascension_ascending_node(i) * 1e4), "ecc": i32(ecc * 1e7), "argp": i32(o.get_perigee_argument(i) * 1e4),
            "ma": i32(ma * 1e4), "n": int(round(n * 1e8)), "rev": int(o.get_revolution_number_at_epoch(i)),
            "derived": [{"name": "period", "got": i32(o.get_orbit_period(i).total_seconds() * 1000), "want": i32(86400000 / n), "tol": 1},
                        {"name": "semimajor_axis", "got": i32(o.get_semimajor_axis(i)), "want": i32(a), "tol": 1},
                        {"name": "altitude", "got": i32(o.get_altitude(i)), "want": i32(a - RE), "tol": 1},
                        {"name": "true_anomaly", "got": dif(o.get_true_anomaly(i), mean_to_true(ma, ecc)), "want": 0, "tol": 2}]}


def event(lines, kind):
    def run():
        o = TwoLineElements(tle=list(lines))
        n = o.get_tle_count()
        return {"count": int(n), "sets": [read(o, i) for i in range(n)]}
    st, out = guarded(run)
    return dict(kind=kind, inp={"lines": [list(x) for x in lines]}, out={"status": st, **(out or {"count": 0, "sets": []})}, repro={"lines": list(lines)})


def run_cases(cases):
    return [event(c.split("|"), "written") for c in cases]


def digits(r, n):
    return r.choice(["".join(r.choice("0123456789") for _ in range(n)), "9" * n, "0" * (n - 1) + "1", "0" * n])


def blanked(r, s):
    """Leading zeros as blanks, now and then."""
    t = s.lstrip("0") or "0"
    return t.rjust(len(s)) if r.random() < 0.5 else s


def random_set(r, year=None, day=None):
    sat = r.choice([digits(r, 5), r.choice("ABCDEFGHJKLMNPQRSTUVWXYZ") + digits(r, 4), blanked(r, digits(r, 5))])
    ex = lambda: r.choice(" +-") + digits(r, 5) + r.choice("+-") + r.choice("0123456789")
    ang = lambda hi: blanked(r, "%03d" % r.randint(0, hi)) + "." + digits(r, 4)
    y = "%02d" % (r.choice([0, 1, 22, 56, 57, 58, 99, r.randint(0, 99)]) if year is None else year)
    d = "%03d" % (r.choice([1, 365, 59, 60, 61, r.randint(1, 365)]) if day is None else day)
    l1 = ("1 " + sat + r.choice("UCS") + " " + digits(r, 2) + "%03d" % r.randint(1, 999) + r.choice(["A  ", "AB ", "ABC", "ZZZ"]) + " " + y + d + "." + digits(r, 8)
          + " " + r.choice([" ", "-", "+", "0"]) + "." + digits(r, 8) + " " + ex() + " " + ex() + " " + r.choice("01234") + " " + blanked(r, digits(r, 4)))
    l2 = ("2 " + sat + " " + ang(179) + " " + ang(359) + " " + r.choice(["0000000", "0001492", "7" + digits(r, 6), "0" + digits(r, 6)]) + " " + ang(359) + " " + ang(359)
          + " " + blanked(r, "%02d" % r.randint(1, 16)) + "." + digits(r, 8) + blanked(r, digits(r, 5)))
    return [checksum(l1 + "0"), checksum(l2 + "0")]


def run_random(seed):
    r = random.Random(seed)
    evs = [event(random_set(r), "random") for _ in range(6)]
    y0, d0 = r.randint(10, 50), r.randint(1, 300)
    lines = []
    for k in range(r.randint(2, 5)):
        d0 += r.randint(1, 12)
        lines += random_set(r, y0, d0)
    evs.append(event(lines, "multi"))
    return evs


def drive(ctx):
    cases = sorted(set(ctx.cases["MC_C14"]))
    cases = ctx.rng("c").sample(cases, min(len(cases), ctx.scale(800, 6000)))
    n = 24
    ctx.pmap(run_cases, [cases[i::n] for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(150, 2000))])


def corrupt(ev, rng):
    s = rng.choice(ev["out"]["sets"])
    k = rng.choice(["catalog", "epd", "epf", "ndot", "ephtype", "setno", "inc", "raan", "ecc", "argp", "ma", "n", "rev", "launchyear", "count", "class", "bstar", "nddot"])
    if k == "count":
        ev["out"]["count"] += 1
    elif k == "class":
        s[k] = "X"
    elif k in ("bstar", "nddot"):
        s[k][0] = -s[k][0] if s[k][0] else 1
    else:
        s[k] += 2
    yield k, ev
