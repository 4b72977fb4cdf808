"""Common machinery of all checks: model checking, replay, trace validation.

A check of property <id> consists of a driver module props/<id>.py with

  MC      list of (module, quick cfg, thorough cfg) TLC model checking runs
  TRACE   name of the trace specification (spec/<TRACE>.tla)
  drive(ctx)      records events of the real code:  ctx.add(kind, in, out, ...)
  corrupt(ev, rng)  optional: yields corrupted copies that must be rejected
  RULE / ASSUMPTIONS   text for the evidence file

Exit 0: every recorded event is a behaviour of the specification.  Exit 1 with
VIOLATION lines otherwise.  Exit 3: failure of the machinery itself.
"""
import copy
import importlib
import glob
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import zlib

import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
NA = -2147483647
LIM = 2147483646
MAX_TIMEOUTS = 3


class Timeout(BaseException):
    pass


class ShapeError(Exception):
    """The real code returned something that cannot be projected."""


def _alarm(signum, frame):
    raise Timeout()


_timeouts = 0


def guarded(fn, seconds=60):
    """Run fn() and return (status, value)."""
    global _timeouts
    if _timeouts >= MAX_TIMEOUTS:
        return "timeout_skipped", None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        v = fn()
        return "ok", v
    except Timeout:
        _timeouts += 1
        return "timeout", None
    except ShapeError as x:
        return "shape:" + str(x)[:80], None
    except Exception as x:  # the code under test failed
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return "raise:" + type(x).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def i32(x):
    """Saturating integer for TLC; missing -> NA."""
    if x is None:
        return NA
    try:
        if x != x:
            return NA
    except Exception:
        pass
    x = int(round(float(x))) if not isinstance(x, int) else x
    return max(-1073741823, min(1073741823, x))


def sanitize(v, path="", clamp=False):
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, int):
        if not -LIM - 1 <= v <= LIM:
            if clamp:  # an absurd output of the code under test is still judged
                return 1073741823 if v > 0 else -1073741823
            raise ValueError(f"integer out of range at {path}: {v}")
        return v
    if isinstance(v, dict):
        return {k: sanitize(x, path + "." + k, clamp) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [sanitize(x, f"{path}[{i}]", clamp) for i, x in enumerate(v)]
    try:
        import numpy as np

        if isinstance(v, np.bool_):
            return bool(v)
        if isinstance(v, np.integer):
            return sanitize(int(v), path, clamp)
    except ImportError:
        pass
    raise ValueError(f"not a trace value at {path}: {v!r}")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.cases = {}
        self.events = []
        self.t0 = time.time()

    def rng(self, tag=""):
        return random.Random(f"{self.pid}/{self.seed}/{tag}")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, kind, inp, out, label="", repro=None):
        """Record one event; out must contain status."""
        ev = {"kind": kind, "in": sanitize(inp), "out": sanitize(out, clamp=True)}
        self.events.append({"ev": ev, "label": label, "repro": repro})

    def extend(self, evs):
        for e in evs:
            self.add(**e)

    def sample(self, cases, n, tag=""):
        cases = sorted(cases)
        if len(cases) <= n:
            return cases
        return self.rng("sample" + tag).sample(cases, n)

    def pmap(self, fn, items, procs=6, chunk=None):
        """fn(item) -> list of event dicts (kind, inp, out, label, repro)."""
        items = list(items)
        if not items:
            return
        procs = min(procs, len(items))
        if procs <= 1 or os.environ.get("VERIF_SERIAL"):
            for it in items:
                self.extend(fn(it))
            return
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            for evs in pool.imap(fn, items, chunksize=chunk or max(1, len(items) // (procs * 4))):
                self.extend(evs)


def load_known(pid):
    """known: property=<id> label=<label> <text>; returns {label: text}."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            if parts[1] == "property=" + pid and parts[2].startswith("label="):
                res[parts[2][6:]] = parts[3] if len(parts) > 3 else ""
    return res


def validate(trace_module, events, workers=6, shard=4000, timeout=800):
    """Returns (verdicts: list of sets of failing clauses, states, distinct)."""
    import tempfile

    verdicts = [None] * len(events)
    gen = dis = 0
    d = tempfile.mkdtemp(prefix="trace_")
    try:
        for a in range(0, len(events), shard):
            part = events[a:a + shard]
            path = os.path.join(d, f"t{a}.ndjson")
            with open(path, "w") as f:
                for ev in part:
                    f.write(json.dumps(ev) + "\n")
            r = tlc.run(trace_module, env={"TRACE": path}, timeout=timeout, workers=workers)
            gen += r.generated
            dis += r.distinct
            for s in r.prints:
                if not s.startswith("V "):
                    continue
                w = s.split(" ", 3)
                i = int(w[1]) - 1 + a
                fails = set() if w[2] == "OK" else set(w[3].split(","))
                if verdicts[i] is None:
                    verdicts[i] = fails
                else:
                    verdicts[i] &= fails if trace_module in ANGELIC else verdicts[i] | fails
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    missing = [i for i, v in enumerate(verdicts) if v is None]
    if missing:
        raise tlc.TlcError(f"{len(missing)} trace lines without verdict, first {missing[0]}: "
                           + json.dumps(events[missing[0]])[:600])
    return verdicts, gen, dis


ANGELIC = set()  # trace specs whose machine is nondeterministic: one accepting run suffices


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        rc = _run(pid, tier, seed, t0)
    except tlc.TlcError as x:
        print("machinery error:", x, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        print("machinery error", file=sys.stderr)
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def _run(pid, tier, seed, t0):
    sys.path.insert(0, os.path.join(HERE, "props"))
    ctx = Ctx(pid, tier, seed)
    drv = importlib.import_module(pid)
    mc_states = mc_distinct = 0
    mc_names = []
    timing = {}
    # 1. the specification satisfies the property (exhaustive, small constants)
    for mod, qcfg, tcfg in getattr(drv, "MC", []):
        t = time.time()
        r = tlc.run(mod, tcfg if tier == "thorough" else qcfg, env={"EXPORT": "1"},
                    timeout=3000 if tier == "thorough" else 600)
        mc_states += r.generated
        mc_distinct += r.distinct
        cs = sorted(s[5:] for s in r.prints if s.startswith("CASE "))
        ctx.cases[mod] = cs
        mc_names.append(f"{mod}/{tcfg if tier == 'thorough' else qcfg}: "
                        f"{r.distinct} states, {len(cs)} cases")
        timing["mc_" + mod] = round(time.time() - t, 1)
    # 2. replay into, and record, the real code
    t = time.time()
    drv.drive(ctx)
    timing["drive"] = round(time.time() - t, 1)
    if os.environ.get("VERIF_DUMP"):  # the recorded behaviours, for tools/vacuity.py
        with open(os.environ["VERIF_DUMP"], "w") as f:
            for e in ctx.events:
                f.write(json.dumps(e["ev"]) + "\n")
    if not ctx.events:
        raise tlc.TlcError("no events recorded")
    # 3. canaries: corrupted records that the specification must reject
    rng = ctx.rng("canary")
    canaries = []  # (base index, event, name)
    if hasattr(drv, "corrupt"):
        idx = list(range(len(ctx.events)))
        rng.shuffle(idx)
        want = getattr(drv, "CANARIES", 60)
        for i in idx:
            if len(canaries) >= want:
                break
            ev = ctx.events[i]["ev"]
            if ev["out"].get("status") != "ok":
                continue
            try:
                made = list(drv.corrupt(copy.deepcopy(ev), rng) or [])
            except (LookupError, ValueError, TypeError, AttributeError, ArithmeticError):
                continue  # an oddly shaped output (of a broken implementation) cannot be corrupted further
            for name, c in made:
                canaries.append((i, {"kind": c["kind"], "in": sanitize(c["in"]), "out": sanitize(c["out"])}, name))
    # 4. trace validation
    t = time.time()
    evs = [e["ev"] for e in ctx.events] + [c[1] for c in canaries]
    verdicts, gen, dis = validate(drv.TRACE, evs)
    timing["trace"] = round(time.time() - t, 1)
    n = len(ctx.events)
    fails = [(i, verdicts[i]) for i in range(n) if verdicts[i]]
    accepted = [c for k, c in enumerate(canaries)
                if not verdicts[n + k] and not verdicts[c[0]]]
    known = load_known(pid)
    seen_known = {}
    viol = []
    for i, f in fails:
        lab = ctx.events[i]["label"]
        if lab and lab in known:
            seen_known.setdefault(lab, f)
        else:
            viol.append((i, f))
    for lab in sorted(known):
        if lab in seen_known:
            print(f"KNOWN-FINDING: property={pid} {known[lab]}")
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for old in glob.glob(os.path.join(EVID, "replays", f"{pid}-*.json")):
        os.remove(old)
    # several records of the same failing clauses are reported once each, up to 5
    shown = {}
    for i, f in viol:
        key = (ctx.events[i]["ev"]["kind"], ",".join(sorted(f)))
        if key in shown or len(shown) >= 5:
            continue
        path = os.path.join(EVID, "replays", f"{pid}-{len(shown)}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "failing_clauses": sorted(f), "event": ctx.events[i]["ev"],
                       "label": ctx.events[i]["label"], "repro": ctx.events[i]["repro"],
                       "tier": tier, "seed": seed,
                       "rerun": f"VERIF_TIER={tier} VERIF_SEED={seed} python3 check.py {pid}"}, fh, indent=1, default=str)
        shown[key] = path
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  kind={key[0]} failing={key[1]} label={ctx.events[i]['label']}")
    kinds = {}
    for e in ctx.events:
        kinds[e["ev"]["kind"]] = kinds.get(e["ev"]["kind"], 0) + 1
    distinct = len({zlib.crc32(json.dumps(e["ev"]["in"], sort_keys=True).encode()) for e in ctx.events})
    samples = []
    for k in sorted(kinds):
        for e in ctx.events:
            s = json.dumps(e["ev"])
            if e["ev"]["kind"] == k and len(s) < 4000:
                samples.append(e["ev"])
                break
        if len(samples) >= 4:
            break
    cov = {
        "states": mc_distinct + dis,
        "transitions": mc_states + gen,
        "traces_validated_against_impl": n,
        "distinct_inputs": distinct,
        "events_by_kind": kinds,
        "model_checking_runs": mc_names,
        "trace_spec": drv.TRACE,
        "canaries_rejected": len(canaries) - len(accepted),
        "known_findings_seen": sorted(seen_known),
        "timing_s": timing,
        "rule": getattr(drv, "RULE", ""),
        "samples": samples or [ctx.events[0]["label"] or "see events_by_kind"],
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": getattr(drv, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid}: {n} recorded behaviours of {len(kinds)} kinds validated, {len(viol)} rejected; "
          f"{len(canaries)} canaries, {len(accepted)} accepted; model states {mc_distinct}, trace states {dis}; "
          f"{ev['wall_s']} s {timing}")
    if viol:
        return 1
    if accepted:
        print("machinery error: corrupted records accepted: "
              + "; ".join(f"{c[2]} {json.dumps(c[1])[:400]}" for c in accepted[:3]), file=sys.stderr)
        return 3
    if hasattr(drv, "corrupt") and not canaries:
        print("machinery error: no canary could be built", file=sys.stderr)
        return 3
    return 0
