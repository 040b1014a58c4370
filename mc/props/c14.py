"""C14: quadrature over custom domains."""

import itertools

import numpy as np

from mc import scales, util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all domain fields over a small alphabet of values at the latitudes x all unit fields, against Gauss-Legendre integration of the interpolants"
RULE = ("every column of domain values from the alphabet (all sign patterns including zeros and different slopes) with every unit integrand (complete by linearity) and a generic one, "
        "packed into full and sectoral fields of every width. Non-trivial: the domain is neither empty nor everything; homogeneity in integrand, domain and radius for factors 2^-60..2^60")
ASSUMPTIONS = ["finite domain fields"]

A5 = (-2., -1., 0., 1., 3.)
A3 = (-1., 0., 2.5)
A4 = (-1., -.2, 0., .7)


def units(tier):
    spec = [(2, A5), (3, A5), (4, A5), (5, A4), (6, A3), (7, A3), (8, A3)]
    if tier == "thorough":
        spec += [(5, A5), (6, A5), (7, A4), (9, A3), (10, A3), (11, A3)]
    out = []
    for n, a in spec:
        k = max(1, len(a)**(n + 1) // 2500)
        out += [["columns", n, list(a), i, k] for i in range(k)]
    out += [["fields", n] for n in ((2, 3, 4, 6, 9) if tier == "quick" else (2, 3, 4, 5, 6, 9, 12, 18))]
    out += [["whole", n] for n in (2, 3, 6, 18, 36)]
    out.append(["refuse"])
    out += [["fine", n] for n in ((72, 90, 120, 180) if tier == "quick" else (45, 60, 72, 90, 120, 144, 180, 240, 360))]
    return out + scales.units((4, 5, 12, 36, 60, 72))


NODES, WEIGHTS = np.polynomial.legendre.leggauss(10)


def sptrapz(y, z, n, r):
    """Line integrals for columns y, z of shape (n+1, number of columns)."""
    phi = (np.pi / 2 - np.pi * np.arange(n + 1) / n)
    out = np.zeros(y.shape[1])
    for j in range(n):
        # interval parametrized by t in [0, 1] from North to South
        z0, z1 = z[j], z[j + 1]
        lo, hi = np.zeros_like(z0), np.ones_like(z0)
        with np.errstate(all="ignore"):
            root = z0 / (z0 - z1)
        lo = np.where((z0 < 0) & (z1 >= 0), root, lo)
        hi = np.where((z0 >= 0) & (z1 < 0), root, hi)
        hi = np.where((z0 < 0) & (z1 < 0), lo, hi)
        for x, w in zip(NODES, WEIGHTS):
            t = lo + (hi - lo) * (x + 1.) / 2.
            p = phi[j] + t * (phi[j + 1] - phi[j])
            out += w / 2. * (hi - lo) * np.pi / n * r * np.cos(p) * (y[j] + t * (y[j + 1] - y[j]))
    return out


def boxcount(y, z, n, r):
    k = np.arange(n + 1)
    hi = np.minimum(np.pi / 2 - np.pi * (k - .5) / n, np.pi / 2)
    lo = np.maximum(np.pi / 2 - np.pi * (k + .5) / n, -np.pi / 2)
    return (r * (np.sin(hi) - np.sin(lo))[:, None] * y * (z >= 0)).sum(axis=0)


METHODS = {"sptrapz": sptrapz, "boxcount": boxcount}


def make(n, r=1.5):
    import barotropic as bt
    return bt.Grid(180. / n, rsphere=r, ntrunc=2)


def caller(n, r=1.5):
    """Some callers use their arrays again."""
    g = make(n, r)
    return util.Reused(g) if n % 2 else g


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.quad(rec, unit[1])
    {"columns": columns, "fields": fields, "whole": whole, "fine": fine, "refuse": refuse}[unit[0]](rec, *unit[1:])


def columns(rec, n, alphabet, shard, nshards):
    g = caller(n)
    nlon = 2 * n
    zs = np.array(list(itertools.product(alphabet, repeat=n + 1))[shard::nshards]).T
    generic = util.lcg(n + 1, 9)
    ys = [np.eye(n + 1)[j] for j in range(n + 1)] + [generic, np.ones(n + 1)]
    zz = np.concatenate([zs] * len(ys), axis=1)
    yy = np.concatenate([np.repeat(y[:, None], zs.shape[1], axis=1) for y in ys], axis=1)
    ref = {m: f(yy, zz, n, 1.5) for m, f in METHODS.items()}
    # blocks of all widths up to a full field
    a, width, total = 0, nlon, yy.shape[1]
    while a < total:
        b = min(a + width, total)
        y, z = yy[:, a:b], zz[:, a:b]
        for m in METHODS:
            want = ref[m][a:b]
            case = (m, a, b)
            try:
                got = g.quad_meridional(y, z, method=m)
                if not rec.close(got, want, case, rtol=0., atol=1e-11):
                    i = int(np.argmax(np.abs(np.asarray(got) - want))) if np.shape(got) == want.shape else 0
                    rec.fail((case, i), "y = {}, z = {}".format(y[:, i], z[:, i]))
                rec.close(g.quad(y, z, method=m), 1.5 * np.pi / n * want.sum(), (case, "quad"), rtol=0., atol=1e-10)
                if m == "sptrapz":
                    rec.close(g.quad_meridional(y, z), want, (case, "default"), rtol=0., atol=1e-11)
                    rec.close(g.quad(y, z), 1.5 * np.pi / n * want.sum(), (case, "quad default"), rtol=0., atol=1e-10)
            except Exception as e:
                rec.fail(case, repr(e))
        a = b
        width = width - 1 if width > 1 else nlon
        if width == 1 and total > 2000:
            width = nlon
    rec.ev_many(2 * total, "all columns over {}".format(alphabet))


def fields(rec, n):
    """Whole fields: mixed columns, linearity, complement, types, layouts."""
    g = caller(n, 6371.2e3)
    nlon = 2 * n
    y = util.generic((n + 1, nlon), 1) + .3
    y2 = util.generic((n + 1, nlon), 2)
    for seed, scale in itertools.product(range(3, 9), (1., 1e-9, 1e7)):
        z = scale * (util.generic((n + 1, nlon), seed) + .2)
        for m, f in METHODS.items():
            want = f(y, z, n, 6371.2e3)
            total = 6371.2e3 * np.pi / n * want.sum()
            unit = 6371.2e3**2 * 4 * np.pi
            case = (seed, scale, m)
            with rec.guard(case):
                kinds = {"C": (y, z), "F": (np.asfortranarray(y), np.asfortranarray(z)), "strided": (np.repeat(y, 2, axis=0)[::2], np.repeat(z, 2, axis=1)[:, ::2]), "ro": (_ro(y), _ro(z))}
                for name, (p, q) in kinds.items():
                    rec.close(g.quad_meridional(p, q, m), want, (case, name), rtol=1e-10)
                    rec.close(g.quad(p, q, m), total, (case, name, "quad"), rtol=0., atol=1e-11 * unit)
                rec.close(g.quad(y=y.astype(np.float32), z=z.astype(np.float32), method=m), total, (case, "float32"), rtol=0., atol=2e-6 * unit)
                # linear in the field
                rec.close(g.quad(2. * y - 3. * y2, z, m), 2. * total - 3. * g.quad(y2, z, m), (case, "linear"), rtol=0., atol=1e-11 * unit)
                # complement (no zeros in z)
                rec.close(g.quad(y, z, m) + g.quad(y, -z, m), g.quad(y, method=m), (case, "complement"), rtol=0., atol=1e-11 * unit)
                rec.close(g.quad_meridional(y, z, m) + g.quad_meridional(y, -z, m), g.quad_meridional(y, method=m), (case, "complement meridional"), rtol=1e-10)
                rec.close(g.quad(y, z, m), g.quad(y, 17. * z, m), (case, "scaled domain"), rtol=0., atol=1e-11 * unit)
                # every sector
                for w in range(1, nlon + 1):
                    for s in range(0, nlon - w + 1, max(1, nlon // 6)):
                        rec.close(g.quad_meridional(y[:, s:s + w], z[:, s:s + w], m), want[s:s + w], (case, "sector", s, w), rtol=1e-10)
                        rec.close(g.quad(y[:, s:s + w], z[:, s:s + w], m), 6371.2e3 * np.pi / n * want[s:s + w].sum(), (case, "sector quad", s, w), rtol=0., atol=1e-11 * unit)
                        rec.ev((case, s, w))
                # integers
                yi, zi = np.round(5 * y).astype(int), np.round(5 * z / scale).astype(int)
                rec.close(g.quad_meridional(yi, zi, m), f(yi.astype(float), zi.astype(float), n, 6371.2e3), (case, "integers"), rtol=1e-10)
            rec.ev(case)


def whole(rec, n):
    for r in (1.5, 6371.2e3):
        g = caller(n, r)
        nlon = 2 * n
        inf = np.full((n + 1, nlon), 1.)
        for m, f in METHODS.items():
            with rec.guard((r, m)):
                one = np.ones((n + 1, nlon))
                rec.close(g.quad_meridional(one, method=m), np.full(nlon, 2. * r), (r, m, "meridian"), rtol=1e-11)
                rec.close(g.quad(one, method=m), 4. * np.pi * r * r, (r, m, "sphere"), rtol=1e-11)
                rec.close(g.quad(one, z=-one, method=m), 0., (r, m, "empty"), rtol=0., atol=1e-11 * r * r)
                rec.close(g.quad(one, 0. * one, m), 4. * np.pi * r * r, (r, m, "zero is inside"), rtol=1e-11)
                for j, i in itertools.product(range(n + 1), (0, 1, nlon - 1)):
                    y = np.zeros((n + 1, nlon))
                    y[j, i] = 1.
                    rec.close(g.quad_meridional(y, method=m), f(y, inf, n, r), (r, m, j, i), rtol=0., atol=1e-11 * r)
                    rec.close(g.quad_meridional(y, None, m), f(y, inf, n, r), (r, m, j, i, "None"), rtol=0., atol=1e-11 * r)
                    rec.close(g.quad(y, None, m), r * np.pi / n * f(y, inf, n, r).sum(), (r, m, j, i, "quad"), rtol=0., atol=1e-11 * r * r)
                    yi = y.astype(int)
                    rec.close(g.quad_meridional(yi, method=m), f(y, inf, n, r), (r, m, j, i, "int"), rtol=0., atol=1e-11 * r)
                    rec.ev((r, m, j, i))


def fine(rec, n):
    """Default resolution and finer grids."""
    r = 6371.2e3
    g = caller(n, r)
    nlon = 2 * n
    lat, lon = util.coords(180. / n)
    lam, phi = np.deg2rad(lon)[None, :], np.deg2rad(lat)[:, None]
    smooth = np.sin(3. * phi) * np.cos(2. * lam) + .4 * np.sin(phi + lam)
    ys = {"one": np.ones((n + 1, nlon)), "generic": util.generic((n + 1, nlon), 1) + .3, "smooth": smooth}
    zs = {"none": None, "generic": util.generic((n + 1, nlon), 2) + .2, "smooth": smooth + .1, "levels": np.round(4. * smooth), "latitude": lat[:, None] * np.ones((1, nlon)) - 30.}
    inf = np.ones((n + 1, nlon))
    for (yn, y), (zn, z), (m, f) in itertools.product(ys.items(), zs.items(), METHODS.items()):
        case = (yn, zn, m)
        want = f(y, inf if z is None else z, n, r)
        with rec.guard(case):
            rec.close(g.quad_meridional(y, z, m), want, case, rtol=0., atol=1e-9 * r)
            rec.close(g.quad(y, z, m), r * np.pi / n * want.sum(), (case, "quad"), rtol=0., atol=1e-10 * r * r)
            for s, w in ((0, 1), (nlon - 1, 1), (5, n), (1, nlon - 1)):
                c = np.s_[:, s:s + w]
                rec.close(g.quad_meridional(y[c], None if z is None else z[c], m), want[s:s + w], (case, "sector", s, w), rtol=0., atol=1e-9 * r)
        rec.ev(case)
    # Each row on its own
    for m, f in METHODS.items():
        for j in range(n + 1):
            y = np.zeros((n + 1, 2))
            y[j] = 1., -2.
            with rec.guard((m, j)):
                rec.close(g.quad_meridional(y, method=m), f(y, np.ones_like(y), n, r), (m, j), rtol=0., atol=1e-11 * r)
                z = np.where(np.arange(n + 1) <= j, 1., -.5)[:, None] * np.array([1., -1.])
                rec.close(g.quad_meridional(inf[:, :2], z, m), f(inf[:, :2], z, n, r), (m, j, "domain"), rtol=0., atol=1e-11 * r)
            rec.ev((m, j))


def refuse(rec):
    for n in (3, 6):
        g = caller(n)
        y = np.ones((n + 1, 2 * n))
        for m in ("trapz", "", "Sptrapz", "box", None, 0, "boxcounting"):
            rec.raises(ValueError, lambda: g.quad(y, method=m), (n, m))
            rec.raises(ValueError, lambda: g.quad_meridional(y, y, method=m), (n, m, "meridional"))
            rec.ev((n, m))
        for shape in ((n + 1,), (2 * n, n + 1), (n, 2 * n), (n + 2, 2 * n), (1, n + 1, 2 * n), ()):
            for m in METHODS:
                rec.raises(Exception, lambda: g.quad(np.ones(shape), method=m), (n, shape, m))
                rec.raises(Exception, lambda: g.quad_meridional(np.ones(shape), method=m), (n, shape, m, "meridional"))
                rec.ev((n, shape, m))


def _ro(f):
    f = f.copy()
    f.setflags(write=False)
    return f
