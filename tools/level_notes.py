TECH_DEFAULT = "TLA+ specification checked with TLC; model cases replayed into the real code and recorded calls validated by a TLC trace specification"
LEVEL_DEFAULT = ("TLC checks the specification exhaustively for the small constants in its cfg; the code is bound to it by "
                 "trace validation of replayed model cases and of seeded random calls, so the code is decided only on the recorded calls. "
                 "Trusts TLC, skyfield/sgp4/shapely as libraries, and the projection in the driver.")
TECH = {}
LEVEL = {}
NA = {}
