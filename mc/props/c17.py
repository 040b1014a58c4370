"""C17: finite-amplitude (local) wave activity."""

import itertools

import numpy as np

from mc import scales, util
from mc.props.c14 import METHODS, make
from mc.props.c15 import contours, areas, eq_lat, interpolated

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of PV fields over small alphabets x contours x quadratures x interpolation against direct integration over displaced areas"
RULE = ("all fields over the alphabets in the listed columns of small globes (the remaining columns follow from rotation), generic fields on larger grids, zonally symmetric fields, "
        "all rotations, arrays and states. The oracle integrates PV anomalies over displaced areas with Gauss-Legendre quadrature at independently computed equivalent latitudes. "
        "Non-trivial: wave activity is not zero everywhere; homogeneity in PV and radius for factors 2^-60..2^60, also at the default resolution")
ASSUMPTIONS = ["boxcounting: only contours with distinct areas (otherwise the interpolated contour is ambiguous)"]

R = 1.5


def units(tier):
    # intervals, free columns, alphabet
    spec = [(2, 2, (0., 1., 3.)), (2, 4, (0., 1.)), (3, 1, (-2., 0., 1.)), (4, 1, (0., 1., 3.)), (3, 2, (0., 1.))]
    if tier == "thorough":
        spec += [(2, 3, (0., 1., 3.)), (6, 1, (-1., .6, 2.)), (4, 2, (0., 1.)), (3, 3, (0., 1.)), (3, 2, (0., 1., 3.))]
    out = []
    for n, w, a in spec:
        k = max(1, len(a)**((n + 1) * w) // 300)
        out += [["fields", n, w, list(a), i, k] for i in range(k)]
    out += [["generic", n] for n in ((3, 4, 6, 9, 12) if tier == "quick" else (3, 4, 5, 6, 9, 12, 18, 24))]
    out += [["symmetric", n] for n in (3, 4, 6, 12, 18)]
    out += [["state", n] for n in (4, 6, 9, 12)]
    out += [["fine", n] for n in ((72, 120) if tier == "quick" else (72, 90, 120, 144, 180))]
    return out + scales.units((36, 60, 72))


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.activity(rec, unit[1])
    {"fields": fields, "generic": generic, "symmetric": symmetric, "state": state, "fine": fine}[unit[0]](rec, *unit[1:])


def distinct(y):
    y = np.sort(np.concatenate([[90.], np.asarray(y, dtype=float), [-90.]]))
    return np.diff(y).min() > 1e-3


def reference(pv, levels, quad, n, r):
    """(wave activity, equivalent latitudes) or None where not well-defined."""
    q = contours(pv, levels, n, quad)
    y = eq_lat(areas(pv, q, n, r, quad), r)
    lat = 90. - 180. * np.arange(n + 1) / n
    if quad == "boxcount":
        if not distinct(y):
            return None
        yy = np.concatenate([[90.], y, [-90.]])
        qq = np.concatenate([[pv.max()], q, [pv.min()]])
        o = np.argsort(yy)
        y = .5 * (lat[:-1] + lat[1:])
        q = np.interp(y, yy[o], qq[o])
        # contours that hit a value of the field up to rounding
        if np.min(np.abs(q[:, None] - np.unique(pv)[None, :])) < 1e-9 * (1. + np.max(np.abs(pv))):
            return None
    out = np.empty((q.size, pv.shape[1]))
    for i, (c, yc) in enumerate(zip(q, y)):
        anom = pv - c
        north = np.repeat((lat - yc)[:, None], pv.shape[1], axis=1)
        if quad == "sptrapz":
            # over the displaced areas separately: PV above the contour south of y, PV below north of y
            out[i] = displaced(anom, lat, yc, n, r)
        else:
            out[i] = METHODS[quad](anom, anom, n, r) - METHODS[quad](anom, north, n, r)
        out[i] /= np.cos(np.deg2rad(yc))
    # contours beyond the extremes: the poles (up to rounding of areas), no displacement
    out[np.abs(y) > POLE] = 0.
    return out, y


POLE = 90. - 5e-5
NODES, WEIGHTS = np.polynomial.legendre.leggauss(10)


def displaced(anom, lat, yc, n, r):
    """Integral of |anomaly| over {anomaly >= 0 south of yc} and {anomaly < 0 north of yc}."""
    phi = np.deg2rad(lat)
    p0 = np.deg2rad(yc)
    out = np.zeros(anom.shape[1])
    for j in range(n):
        a, b = phi[j], phi[j + 1]
        u, v = anom[j], anom[j + 1]
        t0 = np.full(u.shape, min(1., max(0., (a - p0) / (a - b))))
        with np.errstate(all="ignore"):
            root = np.where(((u > 0.) != (v > 0.)) & (u != v), u / (u - v), 0.)
        ts = np.sort(np.stack([0. * t0, t0, np.clip(root, 0., 1.), 1. + 0. * t0]), axis=0)
        for s, e in zip(ts[:-1], ts[1:]):
            mid = .5 * (s + e)
            north = a + mid * (b - a) > p0
            use = ((u + mid * (v - u) >= 0.) != north) & (e > s)
            if not use.any():
                continue
            t = s[:, None] + (e - s)[:, None] * (NODES + 1.) / 2.
            f = np.abs(u[:, None] + t * (v - u)[:, None]) * np.cos(a + t * (b - a))
            out += np.where(use, (f * WEIGHTS).sum(axis=1) / 2. * (e - s) * (a - b) * r, 0.)
    return out


def check(rec, fun, pv, levels, quad, n, r, case):
    """fun(levels=, interpolate=, quad=) -> falwa, fun.mean(...) -> fawa"""
    ref = reference(pv, levels, quad, n, r) if pv.min() < pv.max() else None
    if ref is None:
        rec.count("ambiguous")
        return False
    lwa, y = ref
    lat = 90. - 180. * np.arange(n + 1) / n
    sc = r * (pv.max() - pv.min() + 1e-12)
    pole = np.abs(y) > POLE
    tol = 1e-8 * sc / np.cos(np.deg2rad(np.max(np.abs(y[~pole]), initial=0.)))
    ytol = np.where(pole, 5e-5, 1e-6)
    falwa, fawa = fun
    try:
        got, gy = falwa(levels=levels, interpolate=False, quad=quad)
        got = np.asarray(got, dtype=float)
        rec.close(np.asarray(gy, dtype=float) / ytol, y / ytol, (case, "latitudes"), rtol=0., atol=1.)
        rec.close(got[~pole], lwa[~pole], (case, "falwa"), rtol=0., atol=tol)
        near = pole & (np.abs(np.asarray(gy, dtype=float)) < 90.)
        rec.ok(got.shape == lwa.shape and np.all(np.abs(got[near]) <= 1e-5 * sc), (case, "falwa at the poles"), lambda: str(got[near]))
        # what is left at the poles (rounding, divided by a vanishing cosine) is interpolated, too
        rest = 2. * min(np.max(np.abs(got[near]), initial=0.), 1e-6 * sc)
        rec.ok(np.all(got[~pole] >= -tol), (case, "negative"), lambda: str(got.min()))
        mean, my = fawa(levels=levels, interpolate=False, quad=quad)
        rec.close(np.asarray(my, dtype=float) / ytol, y / ytol, (case, "latitudes (fawa)"), rtol=0., atol=1.)
        rec.close(np.asarray(mean, dtype=float)[~pole], lwa.mean(axis=1)[~pole], (case, "fawa"), rtol=0., atol=tol)
        interpolated(rec, falwa(levels=levels, quad=quad), y, lwa, (0., 0.), lat, (case, "falwa interpolated"), tol=1e-6, atol=rest)
        interpolated(rec, falwa(levels=levels, interpolate=True, quad=quad), y, lwa, (0., 0.), lat, (case, "falwa interpolated"), tol=1e-6, atol=rest)
        interpolated(rec, fawa(levels=levels, quad=quad), y, lwa.mean(axis=1), (0., 0.), lat, (case, "fawa interpolated"), tol=1e-6, atol=rest)
    except Exception as e:
        rec.fail(case, "raised {!r}".format(e))
    return np.max(np.abs(lwa)) > 1e-3 * sc


_REUSED = {}                                        # callers may use their arrays again


def functions(pv, g):
    from barotropic import diagnostics as d
    if g.nlat % 2 == 0:
        d = _REUSED.setdefault(g.nlat, util.Reused(d))
    return (lambda **kw: d.falwa(pv, g, **kw)), (lambda **kw: d.fawa(pv, g, **kw))


def fields(rec, n, w, alphabet, shard, nshards):
    g = make(n, R)
    a = sorted(alphabet)
    one_per_gap = np.array([.37 * x + .63 * y for x, y in zip(a[:-1], a[1:])])
    base = np.linspace(a[-1], a[0], n + 1)
    beyond = np.array([a[0] - 2., a[0] - 1., .6 * a[0] + .4 * a[1], a[-1] + .5, a[-1] + 3.])
    # rest of the globe: increasing towards the North, in alphabet
    base = np.array([min(a, key=lambda x: abs(x - b)) for b in base])
    nontrivial = 0
    for vals in itertools.islice(itertools.product(alphabet, repeat=(n + 1) * w), shard, None, nshards):
        pv = np.repeat(base[:, None], 2 * n, axis=1)
        pv[:, :w] = np.array(vals).reshape(n + 1, w)
        fun = functions(pv, g)
        for lev, quad in ((None, "sptrapz"), (one_per_gap, "sptrapz"), (one_per_gap, "boxcount"), (1, "boxcount"), (2, "sptrapz"), (beyond, "sptrapz")):
            nontrivial += check(rec, fun, pv, lev, quad, n, R, (vals, str(lev), quad))
            rec.evaluations += 1
    rec.count("_bulk", nontrivial)


def generic(rec, n):
    from barotropic import diagnostics as d
    r = 6371.2e3
    g = make(n, r)
    lat = 90. - 180. * np.arange(n + 1) / n
    for seed, amp in itertools.product((1, 2, 3), (.1, .5, 2.)):
        pv = 1e-4 * (np.sin(np.deg2rad(lat))[:, None] + amp * util.generic((n + 1, 2 * n), seed))
        lo, hi = pv.min(), pv.max()
        fun = functions(pv, g)
        for lev, quad in itertools.product((None, 1, 3, n, np.linspace(lo, hi, 6)[1:-1], (lo + (hi - lo) * np.array([.7, .2, .5])),
                                        lo + (hi - lo) * np.array([-2., -.5, .4, .8]), lo + (hi - lo) * np.array([1.5, .6, -.1]), lo + (hi - lo) * np.array([3., 2.])), ("sptrapz", "boxcount")):
            case = (seed, amp, str(lev), quad)
            check(rec, fun, pv, lev, quad, n, r, case)
            rec.ev(case)
        with rec.guard((seed, amp)):
            ref = d.falwa(pv, g)
            rec.close(d.fawa(pv, g), ref.mean(axis=1), (seed, amp, "mean"), rtol=1e-9)
            sc = np.max(np.abs(ref))
            for s in range(1, 2 * n):
                rec.close(d.falwa(np.roll(pv, s, axis=1), g), np.roll(ref, s, axis=1), (seed, amp, "rotation", s), rtol=1e-7)
                rec.ev((seed, amp, "rotation", s))
            for name, h in (("F", np.asfortranarray(pv)), ("strided", np.repeat(pv, 2, axis=1)[:, ::2]), ("list", pv.tolist())):
                rec.close(d.falwa(h, g), ref, (seed, amp, name), rtol=1e-9)
            rec.close(d.falwa(pv.astype(np.float32), g), ref, (seed, amp, "float32"), rtol=1e-3)
            rec.close(d.falwa(1e5 * pv + 3., g), 1e5 * np.asarray(ref, dtype=float), (seed, amp, "affine"), rtol=1e-6)
            rec.close(d.falwa(pv_or_state=pv, grid=g, levels=5, interpolate=True, quad="boxcount"), d.falwa(pv, g, 5, True, "boxcount"), (seed, amp, "keywords"), rtol=1e-12)
            rec.close(d.fawa(pv_or_state=pv, grid=g, levels=5, interpolate=True, quad="boxcount"), d.fawa(pv, g, 5, True, "boxcount"), (seed, amp, "keywords"), rtol=1e-12)
            rec.ok(np.asarray(ref).dtype.kind in "fO" and np.all(np.asarray(ref, dtype=float)[[0, -1]] == 0.), (seed, amp, "poles"), "")


def fine(rec, n):
    """Default resolution and finer grids."""
    r = 6371.2e3
    g = make(n, r)
    lat = 90. - 180. * np.arange(n + 1) / n
    lam, phi = np.deg2rad(180. * np.arange(2 * n) / n)[None, :], np.deg2rad(lat)[:, None]
    for seed, amp in ((1, .2), (2, 1.)):
        pv = 1e-4 * (np.sin(phi) + amp * np.cos(phi) * np.cos((3 + seed) * lam + 2. * phi) + .05 * amp * util.generic((n + 1, 2 * n), seed))
        lo, hi = pv.min(), pv.max()
        fun = functions(pv, g)
        for lev, quad in itertools.product((None, 5, np.linspace(lo, hi, 9)[1:-1]), ("sptrapz", "boxcount")):
            if lev is None and n > 72:
                continue
            case = (seed, amp, str(lev), quad)
            rec.ev(case, check(rec, fun, pv, lev, quad, n, r, case))


def symmetric(rec, n):
    g = make(n, 3)
    lat = 90. - 180. * np.arange(n + 1) / n
    for name, p in {"linear": lat / 90., "sine": np.sin(np.deg2rad(lat)), "cubic": (lat / 90.)**3 + .2 * lat / 90.}.items():
        pv = np.repeat(p[:, None], 2 * n, axis=1)
        fun = functions(pv, g)
        for lev, quad in itertools.product((None, 1, 4, p[1:-1], .9 * p[1:-1] + .01), ("sptrapz",)):
            case = (name, str(lev), quad)
            with rec.guard(case):
                for f in fun:
                    rec.close(np.asarray(f(levels=lev, quad=quad), dtype=float), np.zeros(pv.shape if f is fun[0] else n + 1), (case, "interpolated"), rtol=0., atol=1e-7)
                    out = np.asarray(f(levels=lev, quad=quad, interpolate=False)[0], dtype=float)
                    rec.close(out, 0. * out, case, rtol=0., atol=1e-7)
            rec.ev(case)
        # one contour per gap is well-defined for boxcounting, too
        case = (name, "boxcount")
        with rec.guard(case):
            mids = .5 * (p[1:] + p[:-1])
            out = np.asarray(fun[0](levels=mids, quad="boxcount"), dtype=float)
            rec.close(out, 0. * out, case, rtol=0., atol=1e-7)
        rec.ev(case)


def state(rec, n):
    import barotropic as bt
    from barotropic import diagnostics as d
    for planet in ("earth", "slow", "faint", "fierce", "still"):
        g = util.grid(180. / n, planet)
        om = util.rate(util.PLANETS[planet][1])
        for i, terms in enumerate(([(2, 1, "c", .4)], [(1, 0, "c", .3), (2, 2, "s", .5), (3, 1, "c", .4)])):
            z = om * util.wavy(180. / n, terms)
            for kind, s in (("pv", bt.State(g, 0., pv=g.fcor2 + z)), ("spectral", bt.State(g, 0., pv_spectral=g.to_spectral(g.fcor2 + z))), ("vorticity", bt.State.from_vorticity(g, 3., z))):
                case = (planet, i, kind)
                with rec.guard(case):
                    pv = np.asarray(s.pv, dtype=float)
                    lo, hi = pv.min(), pv.max()
                    scale = np.max(np.abs(np.asarray(d.falwa(pv, g), dtype=float)))
                    for lev, quad, inter in itertools.product((None, 4, np.linspace(lo, hi, 5)[1:-1]), ("sptrapz", "boxcount"), (True, False)):
                        # the same numbers, as state or as array
                        for f in (d.falwa, d.fawa):
                            a = f(s, levels=lev, quad=quad, interpolate=inter)
                            b = f(s.pv, g, levels=lev, quad=quad, interpolate=inter)
                            if inter:
                                a, b = (a,), (b,)
                            for x, y in zip(a, b):
                                rec.close(np.asarray(x, dtype=float), np.asarray(y, dtype=float), (case, f.__name__, str(lev), quad, inter), rtol=1e-6)
                        rec.ev((case, str(lev), quad, inter))
                    rec.close(np.asarray(s.falwa, dtype=float), np.asarray(d.falwa(pv, g), dtype=float), (case, "State.falwa"), rtol=0., atol=1e-4 * scale)
                    rec.close(np.asarray(s.fawa, dtype=float), np.asarray(d.fawa(pv, g), dtype=float), (case, "State.fawa"), rtol=0., atol=1e-4 * scale)
                    ref = reference(pv, None, "sptrapz", n, g.rsphere)
                    got = np.asarray(d.falwa(s, interpolate=False)[0], dtype=float)
                    rec.close(got, ref[0], (case, "definition"), rtol=0., atol=1e-4 * np.max(np.abs(ref[0])))
                    rec.close(np.asarray(s.falwa_filtered, dtype=float), np.asarray(d.filter_by_wavenumber(np.asarray(s.falwa, dtype=float), 2. * d.dominant_wavenumber_fourier(s.v, g)), dtype=float),
                              (case, "filtered"), rtol=0., atol=1e-4 * scale)
