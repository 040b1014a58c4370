"""Fields of any magnitude: results of homogeneous functions scale with their inputs.

Factors are powers of two, so that (apart from over- and underflows, which do not
occur) all computations with the scaled field round like those with the original.
Values for the original fields are decided by the other explorations."""

import itertools

import numpy as np

from mc import util

FACTORS = [2.**p for p in (-60, -41, -30, -14, 14, 30, 41, 60)]
SIZES = (2, 3, 6, 9, 18)


def same(rec, got, want, factor, degree, case):
    if isinstance(want, tuple):
        if rec.ok(isinstance(got, tuple) and len(got) == len(want), case, lambda: repr(type(got))):
            for i, (x, y, d) in enumerate(zip(got, want, degree)):
                same(rec, x, y, factor, d, (case, i))
        return
    want = np.asarray(want)
    if want.dtype == object:
        want = want.astype(float)
    got = np.asarray(got)
    if got.dtype == object:
        got = got.astype(float)
    top = np.max(np.abs(want), initial=0.)
    rec.close(got / factor**degree, want, case, rtol=0., atol=1e-9 * float(top) + 1e-300)


def first(case):
    while isinstance(case, tuple):
        case = case[0]
    return case


def compare(rec, call, degree, case):
    """call(factor) is homogeneous of the given degree(s)."""
    with rec.guard(case):
        want = call(1.)
        for s in FACTORS if first(case) <= 36 else FACTORS[:2] + FACTORS[-2:]:
            same(rec, call(s), want, s, degree, (case, s))
    flat = [np.asarray(w) for w in (want if isinstance(want, tuple) else (want,))]
    rec.ev(case, any(np.any(w != 0) for w in flat))


def grid(n, r=1.5):
    import barotropic as bt
    return bt.Grid(180. / n, rsphere=r, ntrunc=2)


def fields(n):
    lat, lon = util.coords(180. / n)
    lam, phi = np.deg2rad(lon)[None, :], np.deg2rad(lat)[:, None]
    yield "generic", util.generic((n + 1, 2 * n), 3)
    yield "jet", np.sin(phi) + .3 * np.cos(phi)**2 * np.cos(2. * lam + .4)
    yield "offset", 5. + util.generic((n + 1, 2 * n), 5)


def derivative(rec, n):
    g = grid(n)
    for name, f in fields(n):
        for order, x in itertools.product([o for o in (2, 4) if o <= n], (f, f[:, 0], f[:, :1])):
            compare(rec, lambda s: g.derivative_meridional(s * x, order=order), 1, (n, name, order, x.shape))


def mean(rec, n):
    g = grid(n)
    for name, f in fields(n):
        for axis in (None, "zonal", "meridional"):
            compare(rec, lambda s: g.mean(s * f, axis=axis), 1, (n, name, axis))
            compare(rec, lambda s: grid(n, s).mean(f, axis=axis), 0, (n, name, axis, "radius"))
        for sel in (np.s_[-30:80, 350:200], np.s_[:, 10:300], np.s_[0:90, :]):
            with rec.guard((n, name, str(sel))):
                reg = g.region[sel]
                if 0 in reg.shape:
                    continue
                compare(rec, lambda s: reg.mean(s * f), 1, (n, name, str(sel)))
                compare(rec, lambda s: g.mean(s * f, region=reg), 1, (n, name, str(sel), "grid"))
    compare(rec, lambda s: grid(n, s).gridpoint_area, 2, (n, "gridpoint_area"))


def quad(rec, n):
    g = grid(n)
    z = util.generic((n + 1, 2 * n), 8)
    for name, y in fields(n):
        for method in ("sptrapz", "boxcount"):
            for f, d in ((g.quad, 2), (g.quad_meridional, 1)):
                case = (n, name, method, f.__name__)
                compare(rec, lambda s: f(s * y, method=method), 1, case)
                compare(rec, lambda s: f(s * y, z, method), 1, (case, "domain"))
                compare(rec, lambda s: f(y, s * z, method), 0, (case, "scaled domain"))
                compare(rec, lambda s: f(s * y, s * y, method), 1, (case, "positive part"))
                compare(rec, lambda s: getattr(grid(n, s), f.__name__)(y, z, method), d, (case, "radius"))


def zonalize(rec, n):
    g = grid(n)
    for name, f in fields(n):
        for method, lev in itertools.product(("sptrapz", "boxcount"), (None, 5, np.linspace(f.min(), f.max(), 9)[1:-1])):
            case = (n, name, method, str(lev))
            scaled = lambda s: s * lev if isinstance(lev, np.ndarray) else lev
            compare(rec, lambda s: g.zonalize(s * f, levels=scaled(s), quad=method, interpolate=False), (1, 0), (case, "contours"))
            compare(rec, lambda s: grid(n, s).zonalize(f, levels=lev, quad=method, interpolate=False), (0, 0), (case, "radius"))
            if method == "sptrapz":
                compare(rec, lambda s: g.zonalize(s * f, levels=scaled(s), quad=method), 1, case)
                compare(rec, lambda s: grid(n, s).zonalize(f, levels=lev, quad=method), 0, (case, "radius"))
    area = 4. * np.pi * np.linspace(0., 1., 9)
    compare(rec, lambda s: grid(n, s).equivalent_latitude(area * s**2), 0, (n, "equivalent_latitude"))
    lat = np.array([70., 20., 0., -33.])
    for kind in ("linear", "nearest", "quadratic", "cubic"):
        f = util.generic(4, 3)
        compare(rec, lambda s: g.interpolate_meridional(s * f, lat, (s * 2., s * -1.), kind=kind), 1, (n, kind))


def filters(rec, n):
    from barotropic import diagnostics as d
    g = grid(n)
    for name, f in fields(n):
        for window, width in (("hann", 400. / n), ("boxcar", 600. / n), (("gaussian", 2.), 600. / n), (np.array([1., 2., 3.]) / 6., None)):
            compare(rec, lambda s: g.filter_zonal(s * f, window, width), 1, (n, name, str(window), "zonal"))
            compare(rec, lambda s: g.filter_meridional(s * f, window, width), 1, (n, name, str(window), "meridional"))
        for k in (np.full(f.shape, 3.), 2. + util.generic(f.shape, 4)):
            compare(rec, lambda s: d.filter_by_wavenumber(s * f, k), 1, (n, name, str(k[0, 0])))


def activity(rec, n):
    from barotropic import diagnostics as d
    g = grid(n)
    for name, f in fields(n):
        for fun, method, lev in itertools.product((d.falwa, d.fawa), ("sptrapz", "boxcount"), (None, 3, np.linspace(f.min(), f.max(), 7)[1:-1])):
            if method == "boxcount" and n < 3:
                continue
            case = (n, name, fun.__name__, method, str(lev))
            scaled = lambda s: s * lev if isinstance(lev, np.ndarray) else lev
            compare(rec, lambda s: fun(s * f, g, levels=scaled(s), quad=method, interpolate=False), (1, 0), (case, "contours"))
            compare(rec, lambda s: fun(f, grid(n, s), levels=lev, quad=method, interpolate=False), (1, 0), (case, "radius"))
            compare(rec, lambda s: fun(s * f, g, levels=scaled(s), quad=method), 1, case)


def waves(rec, n):
    from barotropic import diagnostics as d
    g = grid(n)
    for name, f in fields(n):
        f = f - f.mean(axis=1, keepdims=True)
        for rng in ((2, 10), (1, 20), (1, 1), (0, 3)):
            compare(rec, lambda s: d.envelope_hilbert(s * f, rng), 1, (n, name, "envelope", rng))
            for smooth in (None, ("boxcar", 400. / n)):
                if rng[0] > 0 and rng[1] < n:
                    compare(rec, lambda s: d.dominant_wavenumber_fourier(s * f, g, smooth, rng), 0, (n, name, "fourier", rng, str(smooth)))
        for smooth in (("hann", 800. / n, 400. / n), ("boxcar", 400. / n, 400. / n), None) if n <= 18 else ():
            try:
                d.dominant_wavenumber_wavelet(f, g, smooth)
            except Exception:
                continue            # (decided elsewhere)
            compare(rec, lambda s: d.dominant_wavenumber_wavelet(s * f, g, smooth), 0, (n, name, "wavelet", str(smooth)))


def units(more=()):
    return [["scales", n] for n in sorted({*SIZES, *more})]
