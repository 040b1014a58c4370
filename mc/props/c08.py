"""C08: coordinates and comparison of grids."""

import fractions
import itertools

import numpy as np

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all resolutions 180/n up to a bound (with planets, truncations, Legendre options, number types) and of all ordered pairs of grids from an alphabet"
RULE = ("every n up to 200 (thorough: 400, and multiples of 45 up to 720) as resolution 180/n, in addition all decimal resolutions with up to 3 digits dividing 180 exactly, "
        "written as float, int, numpy types; coordinates compared with exact rational values. Equality: all ordered pairs of grids over an alphabet of shapes, radii, rotation "
        "rates, truncations, including values that differ by rounding only, and non-grids. Non-trivial: all cases")
ASSUMPTIONS = ["180 is a multiple of the resolution (up to rounding of the resolution)", "at least 2 intervals between the poles (limit of the transform library)"]

F = fractions.Fraction


def decimals():
    """Exact decimal resolutions (as text) that divide 180, not finer than 0.75 degrees."""
    out = []
    for k in range(750, 90001):
        if F(180000, k).denominator == 1:
            out.append("{}".format(k / 1000.))
    return out


def units(tier):
    ns = list(range(2, 201))
    if tier == "thorough":
        ns = list(range(2, 401)) + [450, 495, 540, 720]
    out = [["res", ns[k::24]] for k in range(24)]
    out.append(["decimal"])
    out += [["planet", n] for n in (3, 4, 7, 12, 36)]
    out += [["pairs", k] for k in range(4)]
    out.append(["others"])
    return out


def check_grid(rec, g, n, r, om, nt, case, dtol=1e-12):
    nlat, nlon = n + 1, 2 * n
    rec.ok(g.nlat == nlat and g.nlon == nlon and g.shape == (nlat, nlon), (case, "shape"), "{} {} {}".format(g.nlat, g.nlon, g.shape))
    lat = np.array([float(90 - F(180 * j, n)) for j in range(nlat)])
    lon = np.array([float(F(360 * i, nlon)) for i in range(nlon)])
    rec.close(g.lat, lat, (case, "lat"), rtol=0., atol=1e-10)
    rec.close(g.lon, lon, (case, "lon"), rtol=0., atol=1e-10)
    if g.lat.shape == (nlat,) and g.lon.shape == (nlon,):
        rec.ok(g.lat[0] == 90. and g.lat[-1] == -90. and g.lon[0] == 0. and np.all(g.lon < 360.), (case, "ends"), "{} {}".format(g.lat, g.lon))
    rec.close(g.dlon, 180. / n, (case, "dlon"), rtol=dtol)
    rec.close(g.dlat, -180. / n, (case, "dlat"), rtol=dtol)
    rec.close(g.dlam, np.pi / n, (case, "dlam"), rtol=dtol)
    rec.close(g.dphi, -np.pi / n, (case, "dphi"), rtol=dtol)
    lam, phi = lon * (np.pi / 180.), lat * (np.pi / 180.)
    rec.close(g.lam, lam, (case, "lam"), rtol=0., atol=1e-12)
    rec.close(g.phi, phi, (case, "phi"), rtol=0., atol=1e-12)
    one = np.ones((nlat, nlon))
    for name, want in (("lon2", lon[None, :]), ("lat2", lat[:, None]), ("lam2", lam[None, :]), ("phi2", phi[:, None])):
        rec.close(getattr(g, name), want * one, (case, name), rtol=0., atol=1e-10)
    rec.ok(g.rsphere == r and g.omega == om, (case, "planet"), "{} {}".format(g.rsphere, g.omega))
    f = 2. * om * np.sin(phi)
    tol = 1e-12 * abs(om)
    rec.close(g.fcor, f, (case, "fcor"), rtol=0., atol=tol)
    rec.close(g.fcor2, f[:, None] * one, (case, "fcor2"), rtol=0., atol=tol)
    rec.close(g.to_grid(g.fcor2_spectral), f[:, None] * one, (case, "fcor2_spectral"), rtol=0., atol=1e-4 * abs(om))
    rec.ok(np.shape(g.fcor2_spectral) == ((nt + 1) * (nt + 2) // 2,), (case, "truncation"), "{} coefficients".format(np.shape(g.fcor2_spectral)))
    # Functions of latitude: numbers, 1D, 2D, values off the grid
    for x in (0, 90., -30, np.float64(17.3), lat, np.array([[10., -89.], [3.5, 0.]]), lat.astype(np.float32)):
        xf = np.asarray(x, dtype=float) * (np.pi / 180.)
        tol = 1e-12 if getattr(x, "dtype", None) != np.float32 else 2e-6
        rec.close(g.circumference(x), 2. * np.pi * r * np.cos(xf), (case, "circumference", str(x)[:20]), rtol=0., atol=10. * tol * r)
        rec.close(g.coriolis(x), 2. * om * np.sin(xf), (case, "coriolis", str(x)[:20]), rtol=0., atol=10. * tol * abs(om))


def run_unit(unit, rec):
    import barotropic as bt
    kind = unit[0]
    if kind == "res":
        for n in unit[1]:
            case = (n,)
            with rec.guard(case):
                g = bt.Grid(180. / n, legfunc="stored" if n < 100 else "computed")
                check_grid(rec, g, n, bt.constants.EARTH_RADIUS, bt.constants.EARTH_OMEGA, n, case)
            rec.ev(case)
            # as a caller who divides the circle would write it
            if n < 100:
                for res in (360. / (2 * n), np.float32(180. / n), np.float64(180.) / n, 0.5 * (360. / n)):
                    with rec.guard((n, repr(res))):
                        g = bt.Grid(res, ntrunc=2)
                        check_grid(rec, g, n, bt.constants.EARTH_RADIUS, bt.constants.EARTH_OMEGA, 2, (n, repr(res)), dtol=1e-6 if isinstance(res, np.float32) else 1e-12)
                    rec.ev((n, repr(res)))
    elif kind == "decimal":
        g = bt.Grid()
        check_grid(rec, g, 72, 6371.2e3, 7.292e-5, 72, "default")
        for text in decimals():
            n = int(F(180) / F(text))
            values = [float(text)]
            if float(text).is_integer():
                values += [int(float(text)), np.int64(float(text)), np.int32(float(text))]
            for v in values:
                with rec.guard((text, repr(v))):
                    g = bt.Grid(v, ntrunc=2, legfunc="computed")
                    check_grid(rec, g, n, 6371.2e3, 7.292e-5, 2, (text, repr(v)))
                rec.ev((text, repr(v)))
    elif kind == "planet":
        n = unit[1]
        for r, om, nt, leg in itertools.product((6371.2e3, 1.5, 3, 7.1e7, np.float64(2.)), (7.292e-5, -1e-5, 0.4, 2, 0.), (None, 1, 2, n), ("stored", "computed")):
            case = (n, r, om, nt, leg)
            with rec.guard(case):
                g = bt.Grid(resolution=180. / n, rsphere=r, omega=om, ntrunc=nt, legfunc=leg)
                check_grid(rec, g, n, r, om, n if nt is None else nt, case)
                g = bt.Grid(180. / n, r, om, nt, leg)
                check_grid(rec, g, n, r, om, n if nt is None else nt, (case, "positional"))
            rec.ev(case)
    elif kind == "pairs":
        pairs(rec, unit[1])
    elif kind == "others":
        others(rec)


EPS = 1e-13
RADII = [6371.2e3, 6371.2e3 * (1 + EPS), 6.4e6, 1.5, 1.5 * (1 - EPS), 1e-3]
OMEGAS = [7.292e-5, 7.292e-5 * (1 + EPS), -7.292e-5, 1e-5, 1e-9, 1.01e-9, 2e-12, 0., 0.4]
RES = [60., 45., 45. * (1 + EPS), 36.]


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def alphabet():
    out = []
    for res, r, om in itertools.product(RES, RADII, OMEGAS):
        n = round(180. / res)
        out += [(n, res, r, om, None, "stored"), (n, res, r, om, n, "computed"), (n, res, r, om, 2, "stored")]
    return out


def pairs(rec, k):
    import barotropic as bt
    spec = alphabet()
    grids = [bt.Grid(res, rsphere=r, omega=om, ntrunc=nt, legfunc=leg) for n, res, r, om, nt, leg in spec]
    hashes = [hash(g) for g in grids]
    count = 0
    for i in range(k, len(spec), 4):
        n, res, r, om, nt, leg = spec[i]
        for j in range(len(spec)):
            n2, res2, r2, om2, nt2, leg2 = spec[j]
            want = n == n2 and close(r, r2) and close(om, om2) and (nt or n) == (nt2 or n2)
            eq, ne = grids[i] == grids[j], grids[i] != grids[j]
            if not (isinstance(eq, (bool, np.bool_)) and isinstance(ne, (bool, np.bool_)) and bool(eq) == want and bool(ne) == (not want)):
                rec.fail((spec[i], spec[j]), "== gives {!r} and != gives {!r}, should be {}".format(eq, ne, want))
            if want and hashes[i] != hashes[j]:
                rec.fail((spec[i], spec[j]), "equal grids with different hashes")
            count += 1
        rec.ok(hash(grids[i]) == hashes[i], spec[i], "hash changes")
    rec.ev_many(count, "pairs of grids")
    # Lookup
    table = {}
    for s, g in zip(spec[k::4], grids[k::4]):
        table.setdefault(g, s)
    for s in spec[k::4]:
        g = bt.Grid(s[1], rsphere=s[2], omega=s[3], ntrunc=s[4], legfunc=s[5])
        found = table.get(g)
        rec.ok(found is not None and found[0] == s[0] and close(found[2], s[2]) and close(found[3], s[3]) and (found[4] or s[0]) == (s[4] or s[0]), ("lookup", s), str(found))
        rec.ev(("lookup", s))


class Lookalike:
    def __init__(self, g):
        self.__dict__.update(g.__dict__)

    @property
    def shape(self):
        return self.nlat, self.nlon


def others(rec):
    import copy
    import pickle
    import barotropic as bt
    g = bt.Grid(45., rsphere=1.5, omega=.4)
    s = bt.init.motionless(g)
    objs = [None, 0, 1, 45., np.float64(45.), "grid", "", b"", (), [], {}, set(), g.shape, (g.shape, 1.5, .4), object(), Ellipsis, NotImplemented, True, False, np.nan, bt.Grid, s,
            bt.StateList([s]), g.region[:, :], g.lat, g.lat2, np.zeros(0), s.pv, np.zeros(g.shape, dtype=object), hash(g), repr(g), Lookalike(g), type("Empty", (), {})()]
    for o in objs:
        for name, f, want in (("g == x", lambda: g == o, False), ("x == g", lambda: o == g, False), ("g != x", lambda: g != o, True), ("x != g", lambda: o != g, True)):
            case = (name, repr(o)[:60])
            with rec.guard(case):
                got = f()
                # arrays decide elementwise (numpy takes over)
                same = np.all(np.asarray(got) == want) if isinstance(got, np.ndarray) else (got is want or (isinstance(got, np.bool_) and bool(got) == want))
                rec.ok(same, case, "gives {!r}".format(got))
            rec.ev(case)
    with rec.guard("containers"):
        rec.ok(g in [None, 3, g] and g not in [None, "x", 3] and g in {g: 1} and [None, g].index(g) == 1, "containers", "membership")
        rec.ok(len({g, bt.Grid(45., rsphere=1.5, omega=.4), bt.Grid(45., rsphere=1.5, omega=.5)}) == 2, "containers", "set")
    rec.ok(g == g and not (g != g), "reflexive", "")
    with rec.guard("subclass"):
        class Sub(bt.Grid):
            pass
        h = Sub(45., rsphere=1.5, omega=.4)
        rec.ok(g == h and h == g and hash(g) == hash(h), "subclass", "")
        c = copy.copy(g)
        rec.ok(c == g and hash(c) == hash(g), "copy", "")
    rec.ev("containers")
