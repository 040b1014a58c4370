"""C21: orographic forcing."""

import datetime as dt
import gc
import itertools

import numpy as np

from mc import util
from mc.sph import basis, modes

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of unit orographies (complete by linearity), mountain and wind parameters, and of all sequences of grids one term is used with, against analytic gradients and direct formulas"
RULE = ("all unit vectors on source grids (coarser, finer, irregular, identical) x target grids; all mountains over lattices of parameters with centers in and beyond 0..360; all wind options x Coriolis "
        "options x scale heights x states; every resolved harmonic as orography with its analytic gradient; all sequences of grids up to length 4 (quick: 3) for the same term, also with several "
        "terms in alternation and with temporary grids. Non-trivial: forcing or orography not zero everywhere")
ASSUMPTIONS = ["gridded orography has its latitudes from North to South (like Grid) and includes 0° and 360°", "gradients of unresolved orographies are as accurate as Grid.gradient (C09 decides its exactness)"]


def units(tier):
    out = [["nodes", name, n] for name in ("same", "coarse", "fine", "irregular", "rectangular") for n in (3, 4, 6, 9)]
    out += [["gauss", res, i] for res in (60., 45., 20.) for i in range(3)] + [["sine", res] for res in (60., 45., 20., 10.)]
    out += [["formula", res, planet] for res in (45., 30., 20.) for planet in ("earth", "slow", "retro")]
    out += [["formula", res, planet, scale] for res in (45., 20.) for planet in ("faint", "fierce", "still") for scale in (1., 1e-12, 1e9)] + [["formula", 30., "earth", scale] for scale in (1e-12, -1e-4, 1e9)] + [["formula", res, "earth", 1., True] for res in (2.5, 2., 1.5)]
    out += [["harmonics", res] for res in ((45., 30., 20.) if tier == "quick" else (60., 45., 36., 30., 20., 15., 12., 10.))]
    out += [["grids", i, 3 if tier == "quick" else 4] for i in range(7)] + [["many"], ["temporary"], ["refuse"], ["model"]]
    return out


def run_unit(unit, rec):
    {"nodes": nodes, "gauss": gauss, "sine": sine, "formula": formula, "harmonics": harmonics, "grids": grids,
     "many": many, "temporary": temporary, "refuse": refuse, "model": model}[unit[0]](rec, *unit[1:])


# Orography

def bilinear(lon, lat, h, glon, glat):
    """Weights from the definition: linear between neighbouring nodes."""
    def axis(x, nodes):
        w = np.zeros((len(x), len(nodes)))
        for i, a in enumerate(x):
            for j in range(len(nodes) - 1):
                lo, hi = nodes[j], nodes[j + 1]
                if min(lo, hi) <= a <= max(lo, hi):
                    t = (a - lo) / (hi - lo)
                    w[i] = 0.
                    w[i, j], w[i, j + 1] = 1. - t, t
                    break
            else:
                w[i, 0 if abs(a - nodes[0]) < abs(a - nodes[-1]) else -1] = 1.
        return w
    return axis(glat, lat) @ h @ axis(glon, lon).T


def nodes(rec, name, n):
    import barotropic as bt
    glat, glon = util.coords(180. / n)
    g = util.grid(180. / n)
    if name == "same":
        lon, lat = np.append(glon, 360.), glat
    elif name == "coarse":
        lon, lat = np.linspace(0., 360., 6), np.linspace(90., -90., 4)
    elif name == "fine":
        lon, lat = np.linspace(0., 360., 4 * n + 1), np.linspace(90., -90., 2 * n + 1)
    elif name == "irregular":
        lon, lat = np.array([0., 7., 30., 100., 111., 222., 340., 360.]), np.array([90., 71., 22., 20., -1., -44., -90.])
    else:
        lon, lat = np.array([-20., 0., 90., 200., 365.]), np.array([95., 33., -40., -91.])
    for j, i in itertools.product(range(lat.size), range(lon.size)):
        h = np.zeros((lat.size, lon.size))
        h[j, i] = 1000.
        case = (j, i)
        with rec.guard(case):
            want = bilinear(lon, lat, h, glon, glat)
            rec.close(bt.rhs.Orography(lon, lat, h).orography(g), want, case, rtol=1e-12)
        rec.ev(case, want.any())
    h = 1000. * util.generic((lat.size, lon.size), 3)
    with rec.guard("generic"):
        want = bilinear(lon, lat, h, glon, glat)
        for form, (a, b, c) in {"array": (lon, lat, h), "F": (lon, lat, np.asfortranarray(h)), "views": (np.repeat(lon, 2)[::2], lat[::-1].copy()[::-1], h[::-1].copy()[::-1])}.items():
            rec.close(bt.rhs.Orography(a, b, c).orography(g), want, ("generic", form), rtol=1e-12)
            rec.ev(("generic", form))
        rec.close(bt.rhs.Orography(lon=lon, lat=lat, orography=h, scale_height=8000., wind=("zon", 1.), fcor_ref=None).orography(g), want, "keywords", rtol=1e-12)
        if name == "same":
            rec.close(bt.rhs.Orography(lon, lat, h).orography(g), h[:, :-1], "exact at the nodes", rtol=1e-12)
        # integer heights
        hi = np.round(h).astype(int)
        rec.close(bt.rhs.Orography(lon, lat, hi).orography(g), bilinear(lon, lat, hi, glon, glat), "integers", rtol=1e-12)
        # the same orography for the forcing
        f = bt.rhs.Orography(lon, lat, h)
        s = flow(g, 180. / n)
        direct(rec, f(s), s, want, 10000., ("act", 1.), None, "forcing")
        rec.ev("forcing")


def gaussian(glon, glat, height, center, stdev):
    sx, sy = (stdev, stdev) if np.ndim(stdev) == 0 else stdev
    out = np.empty((glat.size, glon.size))
    for i, x in enumerate(glon):
        d = min(abs(x - center[0] + 360. * k) for k in range(-4, 5))
        out[:, i] = height * np.exp(-.5 * (d / sx)**2) * np.exp(-.5 * ((glat - center[1]) / sy)**2)
    return out


def gauss(rec, res, shard):
    import barotropic as bt
    glat, glon = util.coords(res)
    g = util.grid(res)
    lons = (0., 30., 45., 179., 180., 200.5, 315., 359.5, 360., -30., -180., 400., 720., -360, 90)
    stdevs = (7.5, 40, (7.5, 20.), (60., 12.), (np.float64(15.), 33), np.float32(25.), [33., 21.], np.float64(100.))
    for lon, lat, stdev, height in itertools.islice(itertools.product(lons, (45., 0., -60., 90, -90., 12.3), stdevs, (1500, -200., 0.5)), shard, None, 3):
        case = (lon, lat, stdev, height)
        with rec.guard(case):
            m = bt.rhs.GaussianMountain(height, (lon, lat), stdev)
            rec.close(m.orography(g), gaussian(glon, glat, height, (lon, lat), stdev), case, rtol=1e-9 if not isinstance(stdev, np.float32) else 1e-5)
        rec.ev(case)
    with rec.guard("defaults"):
        want = gaussian(glon, glat, 1500., (30., 45.), (7.5, 20.))
        rec.close(bt.rhs.GaussianMountain().orography(g), want, "defaults", rtol=1e-9)
        rec.close(bt.rhs.GaussianMountain(height=1500, center=(30., 45.), stdev=(7.5, 20.)).orography(g), want, "keywords", rtol=1e-9)
        # rotation
        for k in range(glon.size):
            rec.close(bt.rhs.GaussianMountain(700., (glon[k], 20.), 50.).orography(g), np.roll(bt.rhs.GaussianMountain(700., (0., 20.), 50.).orography(g), k, axis=1), ("rotation", k), rtol=1e-9)
            rec.ev(("rotation", k))


def sine(rec, res):
    import barotropic as bt
    glat, glon = util.coords(res)
    g = util.grid(res)
    for height, lat, stdev, k in itertools.product((1500, -3., 800.5), (45., 0, -30., 90., 7.), (10., 3, 55.), (0, 1, 2, 3, 4, 7)):
        case = (height, lat, stdev, k)
        with rec.guard(case):
            want = height * .5 * (1. + np.cos(k * np.deg2rad(glon)))[None, :] * np.exp(-.5 * ((glat - lat) / stdev)**2)[:, None]
            rec.close(bt.rhs.ZonalSineMountains(height, lat, stdev, k).orography(g), want, case, rtol=1e-9)
            got = bt.rhs.ZonalSineMountains(height=height, center_lat=lat, stdev_lat=stdev, wavenumber=k).orography(g)
            rec.close(got, want, (case, "keywords"), rtol=1e-9)
            if np.any(glat == lat):
                rec.close(got[glat == lat][0, 0], float(height), (case, "peak"), rtol=1e-9)
        rec.ev(case)
    with rec.guard("defaults"):
        rec.close(bt.rhs.ZonalSineMountains().orography(g), 1500. * .5 * (1. + np.cos(4. * np.deg2rad(glon)))[None, :] * np.exp(-.5 * ((glat - 45.) / 10.)**2)[:, None], "defaults", rtol=1e-9)


# Forcing

def flow(g, res, time=0.):
    import barotropic as bt
    om = util.rate(g.omega)
    return bt.State(g, time, pv=g.fcor2 + om * util.wavy(res, [(1, 0, "c", .1), (2, 1, "c", .2), (2, 2, "s", -.3), (2, 0, "c", -.15)]))


def direct(rec, got, s, h, scale_height, wind, fcor, case, grad=None):
    g = s.grid
    glat, glon = util.coords(180. / (g.nlat - 1))
    gx, gy = g.gradient(h) if grad is None else grad
    kind, fact = wind
    u, v = np.asarray(s.u, dtype=float), np.asarray(s.v, dtype=float)
    if kind == "act":
        u, v = fact * u, fact * v
    elif kind == "zon":
        u, v = fact * np.repeat(u.mean(axis=1)[:, None], u.shape[1], axis=1), 0. * v
    else:
        u, v = np.repeat(fact * np.cos(np.deg2rad(glat))[:, None], u.shape[1], axis=1), 0. * v
    f = 2. * g.omega * np.sin(np.deg2rad(glat))[:, None] if fcor is None else fcor
    want = -f / scale_height * (u * gx + v * gy)
    sc = np.max(np.abs(f)) / abs(scale_height) * np.max(np.hypot(u, v)) * max(np.max(np.hypot(gx, gy)), .1 * np.max(np.abs(h)) / g.rsphere)
    rec.close(got, want, case, rtol=0., atol=2e-5 * sc)
    return sc > 0. and np.max(np.abs(want)) > 1e-3 * sc


WINDS = [("act", 1.), ("act", -.5), ("act", 0.), ("zon", 1.), ("zon", .3), ("zon", -2), ("sbr", 15.), ("sbr", -7), ("sbr", 0), ["act", 2]]


def formula(rec, res, planet, height=1., few=False):
    import barotropic as bt
    g = util.grid(res, planet)
    glat, glon = util.coords(res)
    r, om = util.PLANETS[planet]
    lon0 = np.append(glon, 360.)
    h0 = height * 900. * util.generic((glat.size, glon.size), 12)

    class Custom(bt.rhs.Orography):
        def __init__(self, **kw):
            super().__init__(None, None, None, **kw)

        def orography(self, grid):
            return height * 300. * np.cos(grid.phi2)**2 * np.cos(2. * grid.lam2)
    terms = {
        "gridded": (lambda **kw: bt.rhs.Orography(lon0, glat, np.append(h0, h0[:, :1], axis=1), **kw), h0),
        "gaussian": (lambda **kw: bt.rhs.GaussianMountain(height * 2000., (350., 30.), (50., 40.), **kw), gaussian(glon, glat, height * 2000., (350., 30.), (50., 40.))),
        "sine": (lambda **kw: bt.rhs.ZonalSineMountains(height * 800., 20., 35., 2, **kw), height * 400. * (1. + np.cos(2. * np.deg2rad(glon)))[None, :] * np.exp(-.5 * ((glat - 20.) / 35.)**2)[:, None]),
        "custom": (lambda **kw: Custom(**kw), height * 300. * (np.cos(np.deg2rad(glat))**2)[:, None] * np.cos(2. * np.deg2rad(glon))[None, :]),
    }
    states = [flow(g, res), flow(g, res, dt.datetime(2020, 1, 1)), bt.init.motionless(g), bt.init.solid_body_rotation(g, amplitude=.05 * r * util.rate(om))]
    for (name, (make, h)), wind, fcor, sh in itertools.product(terms.items(), WINDS[::3] if few else WINDS, (None, 1e-4) if few else (None, 1e-4, 0., -3e-5, 0), (10000.,) if few else (10000., 7000, -5.)):
        case = (name, tuple(wind), fcor, sh)
        nontrivial = False
        with rec.guard(case):
            t = make(scale_height=sh, wind=wind, fcor_ref=fcor)
            for i in (0, 1, 2, 3, 0):
                nontrivial |= direct(rec, t(states[i]), states[i], h, sh, wind, fcor, (case, i))
        rec.ev(case, nontrivial)
    for name, (make, h) in terms.items():
        with rec.guard(name):
            direct(rec, make()(states[0]), states[0], h, 10000., ("act", 1.), None, (name, "defaults"))
            rec.ev((name, "defaults"))


def harmonics(rec, res):
    """Resolved harmonics as gridded orography, analytic gradient."""
    import barotropic as bt
    nlat, nlon = util.dims(res)
    b = basis(nlat, nlat - 1)
    lat, lon = util.coords(res)
    for planet in ("earth", "slow", "faint", "fierce", "still"):
        g = util.grid(res, planet)
        r = util.PLANETS[planet][0]
        s = flow(g, res)
        for n, m, k in modes(nlat - 2):
            h = 700. * b.Y(n, m, k)
            t = {w: bt.rhs.Orography(np.append(lon, 360.), lat, np.append(h, h[:, :1], axis=1), wind=(w, 1.5)) for w in ("act", "zon", "sbr")}
            gx, gy = b.grad(n, m, k)
            for w in t:
                with rec.guard((planet, n, m, k, w)):
                    direct(rec, t[w](s), s, h, 10000., (w, 1.5), None, (planet, n, m, k, w), (700. / r * gx, 700. / r * gy))
                rec.ev((planet, n, m, k, w), n > 0)


def _grids():
    """Grids that differ in one respect only."""
    return [util.grid(30.), util.grid(45.), util.grid(30., "slow"), util.grid(30., ntrunc=2), util.grid(30., "retro"), util.grid(20.), util.grid(30.)]


def _terms():
    import barotropic as bt
    lon, lat = np.linspace(0., 360., 10), np.linspace(90., -90., 8)
    h = 900. * util.generic((8, 10), 21)
    h[:, -1] = h[:, 0]
    return [bt.rhs.Orography(lon, lat, h), bt.rhs.GaussianMountain(1500, (40., 20.), 40.), bt.rhs.ZonalSineMountains(500., wavenumber=2, stdev_lat=30., wind=("zon", 1.))]


def _fresh(i, s):
    return _terms()[i](s)


def grids(rec, first, length):
    gs = _grids()
    ss = [flow(g, 180. / (g.nlat - 1)) for g in gs]
    want = [[_fresh(i, s) for s in ss] for i in range(3)]
    for t in range(3):
        with rec.guard((t, "fresh")):
            h = _terms()[t].orography(gs[first])
            direct(rec, want[t][first], ss[first], h, 10000., ("zon", 1.) if t == 2 else ("act", 1.), None, (t, "fresh"))
            rec.ev((t, "fresh"))
    for seq in itertools.product(range(len(gs)), repeat=length - 1):
        seq = (first,) + seq
        terms = _terms()
        for t, term in enumerate(terms):
            with rec.guard((t, seq)):
                for i in seq:
                    if not np.array_equal(term(ss[i]), want[t][i]):
                        rec.close(term(ss[i]), want[t][i], (t, seq, i), rtol=1e-6)
            rec.ev((t, seq))


def many(rec):
    """Many terms in use at the same time, on many grids: more than any cache holds."""
    import barotropic as bt
    gs = [util.grid(r, p) for r in (60., 45., 30.) for p in ("earth", "slow", "retro", "tiny")]
    ss = [flow(g, 180. / (g.nlat - 1)) for g in gs]
    make = [lambda i=i: bt.rhs.GaussianMountain(100. * (i + 1), (37. * i, 10. * i - 40.), 30. + i) for i in range(12)]
    want = {(i, j): make[i]()(ss[j]) for i in range(12) for j in range(12)}
    terms = [f() for f in make]
    orders = {"rows": [(i, j) for i in range(12) for j in range(12)], "columns": [(i, j) for j in range(12) for i in range(12)], "diagonals": [((i + 5 * j) % 12, (7 * j) % 12) for i in range(12) for j in range(12)]}
    for name, order in orders.items():
        for rep in range(2):
            for i, j in order + order[::-1]:
                with rec.guard((name, rep, i, j)):
                    rec.close(terms[i](ss[j]), want[i, j], (name, rep, i, j), rtol=1e-6)
                rec.ev((name, rep, i, j))


def temporary(rec):
    """Terms and grids come and go (and their memory is reused)."""
    import barotropic as bt
    want = {}
    kept = bt.rhs.GaussianMountain(1500, (40., 20.), 40.)
    for rep in range(60):
        for res, planet, height in ((60., "earth", 100.), (60., "slow", 100.), (60., "earth", 900.), (45., "earth", 100.), (45., "retro", 400.)):
            g = util.grid(res, planet)
            s = flow(g, res)
            t = bt.rhs.GaussianMountain(height, (40., 20.), 40.)
            key = (res, planet, height)
            with rec.guard((rep, key)):
                a, b = t(s), kept(s)
                want.setdefault(key, (a, b))
                rec.close(a, want[key][0], (rep, key), rtol=1e-6)
                rec.close(b, want[key][1], (rep, key, "kept"), rtol=1e-6)
                rec.close(a, b * height / 1500., (rep, key, "scaled"), rtol=1e-3)
            rec.ev((rep, key))
            del g, s, t, a, b
        gc.collect()


def refuse(rec):
    import barotropic as bt
    for kind in ("ACT", "", "zonal", None, 1, "actual", "sbr "):
        for make in (lambda w: bt.rhs.Orography(np.array([0., 360.]), np.array([90., -90.]), np.zeros((2, 2)), wind=w), lambda w: bt.rhs.GaussianMountain(wind=w), lambda w: bt.rhs.ZonalSineMountains(wind=w)):
            rec.raises(ValueError, lambda: make((kind, 1.)), kind)
            rec.ev(kind)


def model(rec):
    """The forcing of a model step on every grid, one term for all models."""
    import barotropic as bt
    terms = _terms()
    gs = _grids()
    for (i, g), t in itertools.product(enumerate(gs), range(3)):
        res = 180. / (g.nlat - 1)
        s = flow(g, res)
        case = (i, t)
        with rec.guard(case):
            step = .01 / util.rate(g.omega)
            a = bt.BarotropicModel(terms[t], diffusion_coeff=0.).euler(s, step).pv_spectral
            b = bt.BarotropicModel(diffusion_coeff=0.).euler(s, step).pv_spectral
            want = step * g.to_spectral(_fresh(t, s))
            rec.close(a - b, want, case, rtol=0., atol=1e-3 * np.max(np.abs(want)) + 1e-6 * np.max(np.abs(b)))
        rec.ev(case)
