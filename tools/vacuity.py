"""Which parts of the recorded behaviours hardly vary: empty lists, constant values.

Usage: for a property, VERIF_DUMP=/tmp/x.ndjson python3 check.py Cxx; python3 tools/vacuity.py /tmp/x.ndjson"""
import collections
import json
import sys

lists = collections.defaultdict(list)
vals = collections.defaultdict(collections.Counter)


def walk(kind, path, v):
    if isinstance(v, list):
        lists[kind, path].append(len(v))
        for x in v:
            walk(kind, path + "[]", x)
    elif isinstance(v, dict):
        for k, x in v.items():
            walk(kind, path + "." + str(k), x)
    else:
        vals[kind, path][str(v)] += 1


n = collections.Counter()
for line in open(sys.argv[1]):
    e = json.loads(line)
    n[e["kind"]] += 1
    walk(e["kind"], "in", e["in"])
    walk(e["kind"], "out", e["out"])
print(dict(n))
for (kind, path), ls in sorted(lists.items()):
    full = sum(x > 0 for x in ls)
    if full < 0.1 * len(ls) or full < 5:
        print("  hardly filled", kind, path, f"{full}/{len(ls)}")
for (kind, path), c in sorted(vals.items()):
    (top, k), = c.most_common(1)
    if k >= 0.99 * sum(c.values()):
        print("  constant", kind, path, top[:40], f"{sum(c.values()) - k} others of {sum(c.values())}")
