"""C13: two line element input is accepted exactly when it is well formed."""
import json
import random
from datetime import timedelta

from framework import guarded
from orbits import ISS, BASE, tle_lines, TwoLineElements
from tleform import checksum
from wide import one_tle, wide_epoch

MC = [("MC_C13", "MC_C13", "MC_C13_thorough")]
TRACE = "TR_C13"
RULE = ("TLC reads every single-character change (line, column, character) of two element sets with the checksum left or repaired, every order of up to "
        "three sets and every arrangement of lines, and checks that only harmless changes are accepted; the changes are replayed into the real "
        "validator, together with truncations, insertions, non-ASCII digits, two-character changes and random chronologies.")
ASSUMPTIONS = ["days of the year beyond 366 or 0 may go either way"]
SECOND = ['1 A0001U 57001BCD 22153.00008102 -.00002182 +12345-9 -11606-4 0    19', '2 A0001   0.0000   5.2500 0001000  10.0000 300.0000 15.10000000    52']
BASES = [ISS, SECOND]
OTHER = " 0123456789.+-UAIOZaz_"


def repair(line):
    return line[:68] + str(checksum(line)) if len(line) == 69 else line


def put(line, c, ch):
    return line[:c - 1] + ch + line[c:]


def event(lines, kind):
    lines = list(lines)

    def run():
        o = TwoLineElements(tle=lines)
        return list(o.tle) == lines
    st, kept = guarded(run)
    return dict(kind=kind, inp={"lines": [[c if 32 <= ord(c) < 127 else "?" for c in x] for x in lines]},
                out={"status": st, "kept": bool(kept) if st == "ok" else True}, repro={"lines": lines})


def later(n, base=ISS):
    return [repair(put(base[0], 23, str((int(base[0][22]) + n) % 10))), base[1]]


def run_cases(cases):
    evs = []
    for c in cases:
        k, a = c["k"], c["a"]
        if k == "change":
            b = list(BASES[a[0] - 1])
            b[a[1] - 1] = put(b[a[1] - 1], a[2], c["ch"])
            if a[3] and a[2] < 69:
                b = [repair(x) for x in b]
        elif k == "order":
            b = [x for d in a for x in later(d)]
        else:
            b = [ISS[j - 1] for j in a]
        evs.append(event(b, k))
    return evs


def run_random(seed):
    r = random.Random(seed)
    evs = []
    sets, e = [], wide_epoch(r)
    for _ in range(r.randint(1, 6)):
        sets.append(one_tle(r, e))
        e += timedelta(seconds=r.choice([0, 1, 60, 86400, 40 * 86400, 400 * 86400]))
    if r.random() < 0.5:
        r.shuffle(sets)
    lines = [x for s in sets for x in s]
    evs.append(event(lines, "list"))
    # across the turn of a year and of the century, and the pivot year
    y = r.choice([("99", "365.99999999", "00", "001.00000000"), ("56", "001.00000000", "57", "001.00000000"), ("57", "001.00000000", "56", "001.00000000"),
                  ("00", "366.99999999", "01", "001.00000000"), ("01", "001.00000000", "00", "366.99999999"), ("23", "010.00000001", "23", "010.00000000"),
                  ("23", "010.00000000", "23", "010.00000001"), ("99", "300.00000000", "98", "301.00000000"), ("20", "  9.50000000", "20", " 10.50000000")])
    t = []
    for yy, d in (y[:2], y[2:]):
        b = list(r.choice(BASES))
        t += [repair(b[0][:18] + yy + d + b[0][32:]), b[1]]
    evs.append(event(t, "years"))
    # damaged lines
    for _ in range(6):
        s = list(r.choice(sets + BASES))
        i = r.randrange(2)
        w = r.choice(["cut", "add", "two", "unicode", "swap", "newline", "dupe", "lower", "empty", "tail"])
        x = s[i]
        if w == "cut":
            k = r.randrange(69)
            x = x[:k] + x[k + 1:]
        elif w == "add":
            k = r.randrange(70)
            x = x[:k] + r.choice(OTHER) + x[k:]
        elif w == "two":
            for _ in range(2):
                x = put(x, r.randint(1, 69), r.choice(OTHER))
            if r.random() < 0.7:
                x = repair(x)
        elif w == "unicode":
            x = put(x, r.randint(1, 69), r.choice(["\u0663", "\u00b2", "\u00e9", "\t"]))
        elif w == "swap":
            k = r.randint(1, 67)
            x = put(put(x, k, x[k]), k + 1, x[k - 1])
            if r.random() < 0.5:
                x = repair(x)
        elif w == "newline":
            x = x + "\n" if r.random() < 0.5 else x[:68] + "\n"
        elif w == "lower":
            x = x.lower()
        elif w == "empty":
            x = ""
        elif w == "tail":
            x = x[:68] + " "
        s[i] = x
        # alone, or after / before good sets
        pre = list(ISS) if r.random() < 0.3 else []
        evs.append(event(pre + s if w != "dupe" else pre + s + [s[0]], w))
    return evs


def drive(ctx):
    cases = [json.loads(c) for c in sorted(set(ctx.cases["MC_C13"]))]
    keep = [c for c in cases if c["k"] != "change"]
    ch = [c for c in cases if c["k"] == "change"]
    if not ctx.thorough:
        ch = ctx.rng("c").sample(ch, 8000)
    cases = keep + ch
    n = 24
    ctx.pmap(run_cases, [cases[i::n] for i in range(n)], chunk=1)
    ctx.pmap(run_random, [f"{ctx.seed}/r{i}" for i in range(ctx.scale(120, 1500))])


def corrupt(ev, rng):
    if ev["out"]["status"] == "ok":
        if rng.random() < 0.5:
            ev["out"]["status"] = rng.choice(["raise:ValidationError", "raise:TypeError"])
            d = "".join(ev["in"]["lines"][0][20:23])
            if ev["out"]["status"] == "raise:ValidationError" and not (d.strip().isdigit() and 1 <= int(d) <= 366):
                return
            yield "rejected", ev
        else:
            ev["out"]["kept"] = False
            yield "changed", ev
