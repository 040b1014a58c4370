"""Shared inputs of the explorations (deterministic, no random numbers)."""

import datetime as dt
import functools
import itertools

import numpy as np

EARTH = (6371.2e3, 7.292e-5)
TINY = (1.5, 0.4)
RETRO = (2.5e7, -1.1e-5)
SLOW = (6.0e6, 1.0e-5)
# Fields of any magnitude: far below and above those of the Earth
FAINT = (4.0e2, 3.0e-13)
FIERCE = (2.0e-2, -5.0e5)
# No rotation
STILL = (2.0, 0.)
PLANETS = {"still": STILL, "earth": EARTH, "tiny": TINY, "retro": RETRO, "slow": SLOW, "faint": FAINT, "fierce": FIERCE}


def rate(om):
    """Magnitude of vorticity that suits a planet."""
    return abs(om) if om else .3


@functools.lru_cache(maxsize=256)
def cached_grid(res, planet="earth", ntrunc=None, legfunc="stored"):
    import barotropic as bt
    r, o = PLANETS[planet]
    return bt.Grid(res, rsphere=r, omega=o, ntrunc=ntrunc, legfunc=legfunc)


def grid(res, planet="earth", ntrunc=None, legfunc="stored"):
    import barotropic as bt
    r, o = PLANETS[planet]
    return bt.Grid(res, rsphere=r, omega=o, ntrunc=ntrunc, legfunc=legfunc)


def dims(res):
    """(nlat, nlon) of a grid whose resolution divides 180."""
    n = int(round(180. / res))
    return n + 1, 2 * n


def coords(res):
    nlat, nlon = dims(res)
    lat = np.array([90. - 180. * j / (nlat - 1) for j in range(nlat)])
    lon = np.array([360. * i / nlon for i in range(nlon)])
    return lat, lon


def wavy(res, terms, nmax=None):
    """Superposition of harmonics [(n, m, kind, amplitude), ...] on the grid."""
    from .sph import basis
    nlat, nlon = dims(res)
    b = basis(nlat, nlat - 1)
    out = np.zeros((nlat, nlon))
    for n, m, k, a in terms:
        out += a * b.Y(n, m, k)
    return out


def lcg(n, seed=1):
    """Deterministic, structureless numbers in [-1, 1) (a fixed alphabet, not a sample:
    used where a property is linear and any generic input decides it)."""
    x = np.empty(n)
    s = (seed * 2654435761 + 12345) % 2**32
    for i in range(n):
        s = (1664525 * s + 1013904223) % 2**32
        x[i] = s / 2**31 - 1.
    return x


def generic(shape, seed=1):
    return lcg(int(np.prod(shape)), seed).reshape(shape)


def flow_terms(res, strength):
    """A generic resolved relative vorticity, all degrees up to a third of the truncation."""
    nlat, _ = dims(res)
    nm = max(2, (nlat - 2) // 2)
    terms, i = [], 0
    x = lcg(4 * (nm + 1)**2, 7)
    for n in range(1, nm + 1):
        for m in range(n + 1):
            for k in ("c", "s") if m else ("c",):
                terms.append((n, m, k, strength * x[i] / n))
                i += 1
    return terms


def spharm_for(res, planet="earth", legfunc="stored"):
    import spharm
    nlat, nlon = dims(res)
    return spharm.Spharmt(nlon, nlat, rsphere=PLANETS[planet][0], gridtype="regular", legfunc=legfunc)


T0 = dt.datetime(2020, 2, 28, 21, 30)


class Reused:
    """Calls of an object with arrays that are used again and again.

    The contents of array arguments are put into buffers that are the same objects
    in all calls, as when a caller overwrites arrays to save memory. Results are
    copied, and the arrays that had been returned are overwritten afterwards.
    """

    def __init__(self, target, overwrite=True):
        self._target = target
        self._overwrite = overwrite
        self._buffers = {}

    def __getattr__(self, name):
        attr = getattr(self._target, name)
        return self._wrap(attr) if callable(attr) else attr

    def _wrap(self, f):
        def call(*args, **kwargs):
            args = [self._put(x, i) for i, x in enumerate(args)]
            kwargs = {k: self._put(x, k) for k, x in kwargs.items()}
            out = f(*args, **kwargs)
            copy = _copied(out)
            buffers = [x for x in args + list(kwargs.values()) if isinstance(x, np.ndarray)]
            for x in () if not self._overwrite else out if isinstance(out, tuple) else (out,):
                if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fc" and not any(np.may_share_memory(x, y) for y in buffers):
                    x[...] = -1.e30
            return copy
        return call

    def _put(self, x, pos):
        plain = type(x) is np.ndarray and x.ndim > 0 and x.size and x.flags.c_contiguous and x.flags.writeable and x.dtype.isnative
        if not plain:
            return x
        b = self._buffers.setdefault((pos, x.shape, x.dtype.str), np.empty_like(x))
        b[...] = x
        return b


def _copied(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(_copied(y) for y in x)
    return x
