"""C15: zonalization."""

import itertools

import numpy as np

from mc import scales, util
from mc.props.c14 import METHODS, caller as make

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all fields over a small alphabet of values x levels x quadratures x sectors, against independently integrated areas"
RULE = ("all fields over the alphabet on sectors and full globes of small grids; all contour specifications (default, numbers, arrays in and out of order, at and between field "
        "values, beyond the extremes); areas by Gauss-Legendre integration. Non-trivial: the field is not constant; homogeneity in field and radius for factors 2^-60..2^60, also at the default resolution")
ASSUMPTIONS = ["interpolation is only compared where the equivalent latitudes are distinct", "levels are given as None, int or array (as documented)"]

R = 1.5


def units(tier):
    # (latitude intervals, columns, alphabet)
    spec = [(2, 1, (0., 1., 3.)), (2, 2, (0., 1., 3.)), (3, 1, (-2., -1., 0., 1.)), (4, 1, (0., 1., 3.)), (6, 1, (-1., .6, 2.)), (3, 2, (0., 1.)), (4, 2, (0., 1.)), (2, 4, (0., 1.))]
    if tier == "thorough":
        spec += [(2, 3, (0., 1., 3.)), (8, 1, (-1., .6, 2.)), (3, 2, (0., 1., 3.)), (5, 2, (0., 2.)), (3, 3, (0., 1.)), (4, 3, (0., 1.)), (4, 1, (0., 1., 2., 3., 5., 8.))]
    out = []
    for n, w, a in spec:
        total = len(a)**((n + 1) * w)
        k = max(1, total // 500)
        out += [["fields", n, w, list(a), i, k] for i in range(k)]
    out += [["smooth", n] for n in ((4, 6, 9, 18) if tier == "quick" else (4, 6, 9, 12, 18, 24))]
    out += [["symmetric", n] for n in (2, 3, 6, 12, 18, 72)]
    out += [["eqlat"], ["interp", 4], ["interp", 9]]
    out += [["fine", n] for n in ((72, 120) if tier == "quick" else (45, 72, 90, 120, 144, 180))]
    return out + scales.units((36, 60, 72))


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.zonalize(rec, unit[1])
    {"fields": fields, "smooth": smooth, "symmetric": symmetric, "eqlat": eqlat, "interp": interp, "fine": fine}[unit[0]](rec, *unit[1:])


def eq_lat(area, r):
    return np.rad2deg(np.arcsin(np.clip(1. - np.asarray(area, dtype=float) / (2. * np.pi * r * r), -1., 1.)))


def areas(field, q, n, r, method):
    """Area (scaled to the globe) where the interpolated field is at least q."""
    w = field.shape[1]
    one = np.ones_like(field)
    return np.array([r * np.pi / n * METHODS[method](one, field - x, n, r).sum() * (2 * n / w) for x in q])


def contours(field, levels, n, quad):
    if levels is None:
        levels = (n + 1) * (2 if quad == "boxcount" else 1)
    if isinstance(levels, int):
        s = np.sin(np.pi * (np.arange(1, levels + 1) / (levels + 1.) - .5))
        lo, hi = field.min(), field.max()
        return .5 * (lo + hi) + .5 * (hi - lo) * s
    return np.asarray(levels, dtype=float)


def check(rec, g, field, levels, quad, n, r, case):
    q = contours(field, levels, n, quad)
    y = eq_lat(areas(field, q, n, r, quad), r)
    try:
        out = g.zonalize(field, levels=levels, interpolate=False, quad=quad)
        if not rec.ok(isinstance(out, tuple) and len(out) == 2, case, "returned {!r}".format(type(out))):
            return
        gq, gy = out
        if not isinstance(levels, (int, type(None))):
            rec.ok(np.array_equal(gq, q), (case, "given contours"), lambda: "{}".format(gq))
        rec.close(gq, q, (case, "contours"), rtol=0., atol=1e-9 * (1. + np.max(np.abs(q))))
        if field.min() == field.max() and isinstance(levels, (int, type(None))):
            # contours equal to the field only up to rounding: area undetermined
            return
        # the latitude is singular at the poles, compare the area instead
        rec.close(np.sin(np.deg2rad(gy)), np.sin(np.deg2rad(y)), (case, "equivalent latitude"), rtol=0., atol=1e-9)
        rec.close(gy, y, (case, "equivalent latitude (degrees)"), rtol=0., atol=1e-4)
        order = np.argsort(q, kind="stable")
        rec.ok(np.all(np.diff(np.asarray(gy, dtype=float)[order]) >= -1e-6), (case, "monotonic"), lambda: "{} {}".format(gq, gy))
        z = g.zonalize(field, levels=levels, quad=quad)
        interpolated(rec, z, y, q, (field.max(), field.min()), g.lat, (case, "interpolated"))
    except Exception as e:
        rec.fail(case, "raised {!r}".format(e))


def interpolated(rec, got, y, q, poles, lat, case, tol=1e-6, atol=0.):
    """Piecewise linear function through (y, q) and the pole values, where it is well defined."""
    got = np.asarray(got, dtype=float)
    if not rec.ok(got.shape == (lat.size,) + np.shape(q)[1:], case, "shape {}".format(got.shape)):
        return
    yy = np.concatenate([[90.], y, [-90.]])
    one = np.ones((1,) + np.shape(q)[1:])
    qq = np.concatenate([poles[0] * one, q, poles[1] * one], axis=0)
    order = np.argsort(yy, kind="stable")
    yy, qq = yy[order], qq[order]
    steep = np.diff(yy) < 1e-3
    # the poles have one value each, also if there are contours at the same latitude
    for j, p in ((0, poles[0]), (-1, poles[1])):
        rec.ok(np.all(np.abs(got[j] - p) <= 1e-9 * (1. + abs(p))), (case, "pole", j), lambda: "{} instead of {}".format(got[j], p))
    for j, x in enumerate(lat):
        if steep[(np.abs(yy[:-1] - x) < 2e-3)].any() or (np.diff(yy)[np.abs(yy[1:] - x) < 2e-3] < 1e-3).any():
            # a jump at this latitude: in between its values
            near = qq[np.abs(yy - x) < 4e-3]
            span = 1e-2 * np.max(np.abs(qq))
            rec.ok(np.all(got[j] >= near.min(axis=0) - span) and np.all(got[j] <= near.max(axis=0) + span), (case, "jump", j), lambda: "{} not within {}".format(got[j], near))
            continue
        k = min(max(np.searchsorted(yy, x, side="right") - 1, 0), yy.size - 2)
        t = (x - yy[k]) / (yy[k + 1] - yy[k])
        # several values at (up to rounding) one latitude: any of them may end the segment
        left, right = qq[np.abs(yy - yy[k]) < 2e-3], qq[np.abs(yy - yy[k + 1]) < 2e-3]
        lo = left.min(axis=0) + t * (right.min(axis=0) - left.min(axis=0))
        hi = left.max(axis=0) + t * (right.max(axis=0) - left.max(axis=0))
        slack = tol * (1. + 1e-3 / min(yy[k + 1] - yy[k], 1.)) * (1. + np.max(np.abs(qq))) + atol
        rec.ok(np.all(got[j] >= lo - slack) and np.all(got[j] <= hi + slack), (case, j), lambda: "{} instead of {} to {}".format(got[j], lo, hi))


def fields(rec, n, w, alphabet, shard, nshards):
    g = make(n, R)
    a = sorted(alphabet)
    mids = [.5 * (x + y) for x, y in zip(a[:-1], a[1:])]
    given = np.array(mids + [a[0] + .1 * (a[1] - a[0])])
    beyond = np.array([a[-1] + 1., a[0], a[-1], mids[0], a[0] - 1.])
    specs = [(None, "sptrapz"), (None, "boxcount"), (3, "sptrapz"), (2, "boxcount"), (1, "sptrapz"), (given, "sptrapz"), (given[::-1].copy(), "boxcount"), (beyond, "sptrapz"), (beyond, "boxcount")]
    for idx, vals in enumerate(itertools.islice(itertools.product(alphabet, repeat=(n + 1) * w), shard, None, nshards)):
        field = np.array(vals).reshape(n + 1, w)
        for lev, quad in specs:
            case = (vals, str(lev), quad)
            check(rec, g, field, lev, quad, n, R, case)
        rec.ev_many(len(specs), "fields over {} ({} x {})".format(alphabet, n + 1, w))


def smooth(rec, n):
    """Full fields on an Earth-sized planet, all number types and layouts."""
    r = 6371.2e3
    g = make(n, r)
    lat = 90. - 180. * np.arange(n + 1) / n
    base = np.sin(np.deg2rad(lat))[:, None] * np.ones((1, 2 * n))
    for seed, amp in itertools.product((1, 2, 3), (.03, .1, 1., 4.)):
        f = 1e-4 * (base + amp * util.generic((n + 1, 2 * n), seed))
        for lev, quad in itertools.product((None, 1, 2, 17, 3 * n, np.linspace(f.min(), f.max(), 7)[1:-1], np.array([0.]), 1e-4 * np.array([.5, -.5, .1])), ("sptrapz", "boxcount")):
            check(rec, g, f, lev, quad, n, r, (seed, amp, str(lev), quad))
            rec.ev((seed, amp, str(lev), quad))
        with rec.guard((seed, amp)):
            ref = g.zonalize(f)
            for name, h in (("F", np.asfortranarray(f)), ("strided", np.repeat(f, 2, axis=1)[:, ::2]), ("float32", f.astype(np.float32))):
                rec.close(g.zonalize(h), ref, (seed, amp, name), rtol=1e-4)
            # rotation, and rows permuted independently, change nothing
            for s in range(1, 2 * n):
                rec.close(g.zonalize(np.roll(f, s, axis=1)), ref, (seed, amp, "rotation", s), rtol=1e-8)
            # sectors: all widths
            for w in range(1, 2 * n):
                check(rec, g, f[:, :w], None, ("sptrapz", "boxcount")[w % 2], n, r, (seed, amp, "sector", w))
                rec.ev((seed, amp, "sector", w))


def fine(rec, n):
    """Default resolution and finer grids."""
    r = 6371.2e3
    g = make(n, r)
    lat = 90. - 180. * np.arange(n + 1) / n
    lam, phi = np.deg2rad(180. * np.arange(2 * n) / n)[None, :], np.deg2rad(lat)[:, None]
    for seed, amp in ((1, .2), (2, 1.)):
        f = 1e-4 * (np.sin(phi) + amp * np.cos(phi) * np.cos((3 + seed) * lam + 2. * phi) + .05 * amp * util.generic((n + 1, 2 * n), seed))
        for lev, quad in itertools.product((None, 1, 9, np.linspace(f.min(), f.max(), 7)[1:-1]), ("sptrapz", "boxcount")):
            if lev is None and n > 72 and quad == "boxcount":
                continue
            for w in (2 * n, 2 * n - 1, n, 7):
                if w < 2 * n and lev is None and n > 72:
                    continue
                case = (seed, amp, str(lev), quad, w)
                check(rec, g, f[:, :w], lev, quad, n, r, case)
                rec.ev(case)


def symmetric(rec, n):
    """Zonally symmetric fields that increase towards the North are reproduced."""
    g = make(n, 3)
    lat = 90. - 180. * np.arange(n + 1) / n
    profiles = {"linear": lat / 90., "sine": np.sin(np.deg2rad(lat)), "cubic": (lat / 90.)**3 + .2 * lat / 90., "steps": np.floor(lat / 50.) + 1e-3 * lat}
    for name, p in profiles.items():
        f = np.repeat(p[:, None], 2 * n, axis=1)
        for w in (2 * n, 1, n):
            case = (name, w)
            with rec.guard(case):
                q, y = g.zonalize(f[:, :w], levels=p[1:-1], interpolate=False)
                rec.close(y, lat[1:-1], (case, "latitudes"), rtol=0., atol=1e-6)
                rec.close(q, p[1:-1], (case, "contours"), rtol=0., atol=0.)
                rec.close(g.zonalize(f[:, :w], levels=p[1:-1]), p, (case, "reproduced"), rtol=1e-8)
                rec.close(g.zonalize(f[:, :w], p[1:-1], True, "sptrapz"), p, (case, "reproduced (positional)"), rtol=1e-8)
                if name == "linear":
                    for lev in (None, 1, 5, 2 * n):
                        rec.close(g.zonalize(f[:, :w], levels=lev), p, (case, "reproduced", lev), rtol=1e-6)
                if name == "sine":
                    rec.close(g.zonalize(f[:, :w]), p, (case, "about reproduced"), rtol=0., atol=.6 * (np.pi / n)**2)
            rec.ev(case)


def eqlat(rec):
    import barotropic as bt
    for r in (1.5, 6371.2e3, 7.1e7, 3):
        g = bt.Grid(30., rsphere=r)
        lats = np.linspace(-90., 90., 721)
        area = 2. * np.pi * float(r)**2 * (1. - np.sin(np.deg2rad(lats)))
        with rec.guard(r):
            rec.close(np.sin(np.deg2rad(g.equivalent_latitude(area))), np.sin(np.deg2rad(lats)), (r, "array"), rtol=0., atol=1e-12)
            rec.close(g.equivalent_latitude(area), lats, (r, "degrees"), rtol=0., atol=1e-5)
            rec.close(g.equivalent_latitude(area[:720].reshape(8, 90)), lats[:720].reshape(8, 90), (r, "2D"), rtol=0., atol=1e-5)
            rec.close(g.equivalent_latitude(area[:0]), lats[:0], (r, "empty"))
            total = 4. * np.pi * float(r)**2
            over = total * np.array([-1., -1e-9, 0., 1., 1. + 1e-12, 1.1, 1e6])
            rec.close(g.equivalent_latitude(over), np.array([90., 90., 90., -90., -90., -90., -90.]), (r, "saturation"), rtol=0., atol=1e-5)
        for a, phi in list(zip(area, lats))[::5]:
            for x in (float(a), np.float64(a), np.array(a), np.float32(a)):
                with rec.guard((r, phi, type(x))):
                    rec.close(g.equivalent_latitude(x), phi, (r, phi, str(type(x))), rtol=0., atol=1e-5 if not isinstance(x, np.float32) else .1)
                rec.ev((r, phi, str(type(x))))
        for x, want in zip(over, (90., 90., 90., -90., -90., -90., -90.)):
            with rec.guard((r, x)):
                rec.close(g.equivalent_latitude(float(x)), want, (r, x), rtol=0., atol=1e-5)
            rec.ev((r, x))
        with rec.guard((r, "int")):
            rec.close(g.equivalent_latitude(0), 90., (r, 0), rtol=1e-12)
            rec.close(g.equivalent_latitude(int(2. * np.pi * float(r)**2)), eq_lat(int(2. * np.pi * float(r)**2), float(r)), (r, "int"), rtol=0., atol=1e-9)


def interp(rec, n):
    """All subsets of input latitudes, in several orders, 1D and 2D."""
    g = make(n, R)
    lat = 90. - 180. * np.arange(n + 1) / n
    alphabet = [75., 45., 10., -3.3, -60., -88.]
    for k in range(0, len(alphabet) + 1):
        for sub in itertools.combinations(alphabet, k):
            perms = list(itertools.permutations(range(k))) if k <= 3 else [tuple(range(k)), tuple(range(k))[::-1], tuple((3 * i + 1) % k for i in range(k)) if k % 3 else tuple((2 * i + 1) % k for i in range(k)) if k % 2 else tuple((5 * i) % k for i in range(k))]
            for perm in perms:
                x = np.array([sub[p] for p in perm], dtype=float)
                f1 = np.cos(x) + .1 * np.arange(k)
                f2 = f1[:, None] * np.array([1., -2., 3., .5, 0.])[None, :] + np.arange(5.)
                for poles in ((0., 0.), (3., -7.), [1.5, 2]):
                    case = (sub, perm, tuple(poles))
                    with rec.guard(case):
                        interpolated(rec, g.interpolate_meridional(f1, x, poles), x, f1, poles, lat, (case, "1D"))
                        interpolated(rec, g.interpolate_meridional(f2, x, poles), x, f2, poles, lat, (case, "2D"))
                        fun = g.interp1d_meridional(f1, x, pole_values=poles)
                        pts = np.array([90., 89., 30., 1e-3, -45.5, -90.])
                        interpolated(rec, fun(pts), x, f1, poles, pts, (case, "function"))
                        if k:
                            rec.close(fun(x), f1, (case, "nodes"), rtol=1e-10)
                        rec.close(np.array([fun(90.), fun(-90.)], dtype=float), np.array(poles, dtype=float), (case, "poles"), rtol=1e-10)
                        near = g.interpolate_meridional(f1, x, poles, kind="nearest")
                        rec.ok(set(np.round(near, 9)) <= set(np.round(np.concatenate([f1, np.array(poles, dtype=float)]), 9)), (case, "kind"), lambda: str(near))
                    rec.ev(case)
    for bad in ((1.,), (1., 2., 3.), ()):
        rec.raises(Exception, lambda: g.interpolate_meridional(np.ones(3), np.array([10., 0., -10.]), bad), ("pole values", bad))
    rec.raises(Exception, lambda: g.interpolate_meridional(np.ones((3, 2, 2)), np.array([10., 0., -10.]), (0., 0.)), "3D")
