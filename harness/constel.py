"""Projection of constellation members, shared by C08, C09 and C11."""
from elements import shape
from framework import ShapeError


def members(con, extra=()):
    ms = con.generate_members()
    seen = {}
    for own in [con, *extra]:
        for i in own.instruments:
            seen[id(i)] = 1
    for m in ms:
        for k, i in enumerate(m.instruments):
            seen[id(i)] = seen.get(id(i), 0) + 1
    out = []
    for m in ms:
        if m.type != "satellite":
            raise ShapeError("member type " + m.type)
        out.append({"name": m.name, "el": shape(m.orbit),
                    "inst": [{"same": k < len(con.instruments) and type(i) is type(con.instruments[k]) and i == con.instruments[k],
                              "own": seen[id(i)] == 1} for k, i in enumerate(m.instruments)]})
    return out
