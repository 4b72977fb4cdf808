"""Imports tatc from the tree under test, with a synthetic ephemeris.

The repository's ephemeris file (de421.bsp) is absent in this sandbox, so the
skyfield loader is replaced, for that one name, by an analytic sun/earth model
(a circular 1 au orbit with the mean obliquity).  Every solar column computed
by the code under test and every solar oracle of the checks use this same
model, so what is checked is the code's use of the ephemeris, not the sun.
"""
import os
import sys

REPO = os.environ.get("TATC_REPO", "/repo")
os.environ.setdefault("TZ", "UTC")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["NUMBA_DISABLE_PERFORMANCE_WARNINGS"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))

import warnings

warnings.simplefilter("ignore")

import numpy as np
from skyfield.iokit import Loader
from skyfield.vectorlib import VectorFunction


class _Body(VectorFunction):
    """Analytic barycentric body."""

    def __init__(self, name, center, target, radius_au, period_d, phase):
        self.name_ = name
        self.center = center
        self.target = target
        self.r = radius_au
        self.w = 2 * np.pi / period_d if period_d else 0.0
        self.ph = phase
        self.ephemeris = None

    @property
    def vector_name(self):
        return "Synthetic " + self.name_

    @property
    def target_name(self):
        return self.name_

    @property
    def center_name(self):
        return "0 SOLAR SYSTEM BARYCENTER"

    def _at(self, t):
        th = self.w * (np.asarray(t.tdb) - 2451545.0) + self.ph
        eps = np.radians(23.4392911)
        x = self.r * np.cos(th)
        y = self.r * np.sin(th) * np.cos(eps)
        z = self.r * np.sin(th) * np.sin(eps)
        vx = -self.r * self.w * np.sin(th)
        vy = self.r * self.w * np.cos(th) * np.cos(eps)
        vz = self.r * self.w * np.cos(th) * np.sin(eps)
        return np.array([x, y, z]), np.array([vx, vy, vz]), None, None


class SyntheticEphemeris(dict):
    def __hash__(self):
        return id(self)

    def __str__(self):
        return "synthetic ephemeris"

    __repr__ = __str__


def make_ephemeris():
    e = SyntheticEphemeris()
    # heliocentric longitude of the Earth at J2000 is about 100.46 degrees
    e["sun"] = _Body("sun", 0, 10, 0.0, 0, 0)
    e["earth"] = _Body("earth", 0, 399, 1.0, 365.25636, np.radians(100.46))
    e["jupiter barycenter"] = _Body("jupiter", 0, 5, 5.2, 4332.6, 1.0)
    e["saturn barycenter"] = _Body("saturn", 0, 6, 9.5, 10759.2, 2.0)
    for b in list(e.values()):
        b.ephemeris = e
    e[10], e[399], e[5], e[6] = (
        e["sun"], e["earth"], e["jupiter barycenter"], e["saturn barycenter"])
    return e


EPHEMERIS = make_ephemeris()
_call = Loader.__call__


def _patched(self, filename, *args, **kwargs):
    if filename == "de421.bsp":
        return EPHEMERIS
    return _call(self, filename, *args, **kwargs)


Loader.__call__ = _patched

import tatc  # noqa: E402

_where = os.path.realpath(tatc.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    print(f"machinery error: tatc imported from {_where}, not {REPO}", file=sys.stderr)
    sys.exit(3)
