"""C11: meridional derivative."""

import fractions
import itertools

import numpy as np

from mc import scales, util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all unit vectors (complete by linearity) x orders x dimensionalities x number types x grids against exact rational finite difference weights"
RULE = ("all unit fields on every grid with up to 24 (thorough: 60) intervals, 1D, single column and every position in 2D; monomials up to the order; extreme values of every integer "
        "type; all refused orders, grids and dimensionalities. The oracle is the unique derivative of the polynomial through the 3 (5) nearest latitudes in rational arithmetic; homogeneity for factors 2^-60..2^60 on grids with up to 120 intervals")
ASSUMPTIONS = ["tolerances of the floating point type of the input"]

F = fractions.Fraction


def weights(n, j, order):
    """{k: weight} of f(lat_k) in df/dphi at latitude j (in units of 1/dphi, nodes are integers)."""
    half = order // 2
    start = min(max(j - half, 0), n - order)
    nodes = range(start, start + order + 1)
    out = {}
    for k in nodes:
        # derivative at j of the Lagrange polynomial of node k
        total = F(0)
        for l in nodes:
            if l == k:
                continue
            term = F(1, k - l)
            for i in nodes:
                if i not in (k, l):
                    term *= F(j - i, k - i)
            total += term
        # phi decreases with the index
        out[k] = -total
    return out


def matrix(n, order, profile):
    d = np.zeros((n + 1, n + 1))
    for j in range(n + 1):
        if profile and j in (0, n):
            continue
        for k, w in weights(n, j, order).items():
            d[j, k] = float(w) * n / np.pi
    return d


def units(tier):
    ns = list(range(2, 25)) + [36, 60, 72, 90, 120] if tier == "quick" else list(range(2, 61)) + [72, 90, 120, 180]
    return [["grid", n] for n in ns] + [["refuse"]] + scales.units((4, 5, 7, 8, 10, 12, 15, 24, 30, 36, 45, 60, 72, 90, 120))


TYPES = [np.float32, np.float64, np.longdouble, np.complex64, np.complex128, bool, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.derivative(rec, unit[1])
    import barotropic as bt
    if unit[0] == "refuse":
        return refuse(rec, bt)
    n = unit[1]
    g = bt.Grid(180. / n, rsphere=(1.5, 6e6)[n % 2], ntrunc=2)
    if n % 2:
        g = util.Reused(g)                          # callers may use their arrays again
    nlon = 2 * n
    for order in (2, 4):
        if n < order:
            continue
        calls = {"kw": lambda f: g.derivative_meridional(f, order=order), "pos": lambda f: g.derivative_meridional(f, order)}
        if order == 4:
            calls["default"] = lambda f: g.derivative_meridional(f)
            calls["none"] = lambda f: g.derivative_meridional(f, order=None)
        m1, m2 = matrix(n, order, True), matrix(n, order, False)
        tol = 1e-11 * n
        for name, d in calls.items():
            for j in range(n + 1):
                case = (order, name, j)
                with rec.guard(case):
                    e = np.zeros(n + 1)
                    e[j] = 1.
                    got = d(e)
                    rec.close(got, m1[:, j], (case, "1D"), rtol=0., atol=tol)
                    rec.ok(got[0] == 0. and got[-1] == 0., (case, "1D poles"), "{} {}".format(got[0], got[-1]))
                    rec.close(d(e[:, None]), m2[:, j:j + 1], (case, "one column"), rtol=0., atol=tol)
                    if j % 5 == 0:
                        rec.close(d(list(e)), m1[:, j], (case, "list"), rtol=0., atol=tol)
                rec.ev(case)
                # Every position in the horizontal field
                for i in range(nlon) if n <= 12 and name == "kw" else (0, 1, nlon // 2, nlon - 1):
                    f = np.zeros((n + 1, nlon))
                    f[j, i] = -2.
                    want = np.zeros((n + 1, nlon))
                    want[:, i] = -2. * m2[:, j]
                    with rec.guard((case, i)):
                        rec.close(d(f), want, (case, "2D", i), rtol=0., atol=tol)
                    rec.ev((case, i))
        d = calls["kw"]
        # Polynomials in latitude, different ones at different longitudes
        phi = np.pi / 2 - np.pi * np.arange(n + 1) / n
        for deg in range(order + 1):
            for x0 in (0., .3, -1.5, 1.2):
                p, dp = (phi - x0)**deg, deg * (phi - x0)**max(deg - 1, 0) * (1. if deg else 0.)
                with rec.guard((order, "poly", deg, x0)):
                    sc = np.max(np.abs(p)) * n
                    rec.close(d(p)[1:-1], dp[1:-1], (order, "poly 1D", deg, x0), rtol=0., atol=1e-12 * sc)
                    amp = util.lcg(nlon, 11)
                    rec.close(d(p[:, None] * amp), dp[:, None] * amp, (order, "poly 2D", deg, x0), rtol=0., atol=1e-12 * sc)
                rec.ev((order, "poly", deg, x0))
        # Linearity on a generic field (with the matrix), memory layouts
        f = util.generic((n + 1, nlon), 3)
        for layout, h in (("C", f), ("F", np.asfortranarray(f)), ("strided", np.repeat(f, 2, axis=0)[::2]), ("reversed", f[::-1].copy()[::-1]), ("readonly", _ro(f))):
            with rec.guard((order, layout)):
                rec.close(d(h), m2 @ f, (order, "generic", layout), rtol=0., atol=1e-10 * n)
                rec.close(d(h[:, 1]), m1 @ f[:, 1], (order, "generic 1D", layout), rtol=0., atol=1e-10 * n)
            rec.ev((order, layout))
        # Number types with extreme values
        for t in TYPES:
            t = np.dtype(t)
            if t.kind in "iu":
                info = np.iinfo(t)
                alphabet = np.array([info.min, info.max, 0, info.max // 2, 1, info.min // 2, info.max - 1], dtype=t)
            elif t.kind == "b":
                alphabet = np.array([True, False, True, True, False])
            elif t.kind == "c":
                alphabet = np.array([1. + 2j, -3.5j, 2., 1e3 - 1e3j, 0.], dtype=t)
            else:
                alphabet = np.array([1., -1e4, .1, 3e6, 0., -2.5], dtype=t)
            idx = np.arange((n + 1) * 4).reshape(n + 1, 4)
            for shift in range(len(alphabet)):
                for step in (1, 2, 3):
                    f = alphabet[(idx * step + shift) % len(alphabet)]
                    ref = f.astype(np.complex128 if t.kind == "c" else np.float64)
                    tol = (1e-5 if t in (np.float32, np.complex64) else 1e-12) * n * np.max(np.abs(ref))
                    case = (order, t.name, shift, step)
                    with rec.guard(case):
                        rec.close(d(f), m2 @ ref, (case, "2D"), rtol=0., atol=tol)
                        rec.close(d(f[:, 0]), m1 @ ref[:, 0], (case, "1D"), rtol=0., atol=tol)
                    rec.ev(case)


def _ro(f):
    f = f.copy()
    f.setflags(write=False)
    return f


def refuse(rec, bt):
    for n in (2, 3, 4, 6):
        g = bt.Grid(180. / n, ntrunc=2)
        fields = [np.zeros(n + 1), np.zeros((n + 1, 2 * n))]
        for f in fields:
            for order in (0, 1, 3, 5, 6, 8, -2, -4, "4", "central", 2.5, np.inf) + ((4, None) if n < 4 else ()):
                rec.raises(Exception, lambda: g.derivative_meridional(f, order=order), (n, f.ndim, order))
                rec.ev((n, f.ndim, order))
            if n < 4:
                rec.raises(Exception, lambda: g.derivative_meridional(f), (n, f.ndim, "default order"))
        for shape in ((n + 1, 2 * n, 1), (1, n + 1, 2 * n), (2, n + 1, 2 * n), (n + 1, n + 1, n + 1), (1, 1, n + 1, 2 * n)):
            for order in (2, 4):
                rec.raises(Exception, lambda: g.derivative_meridional(np.zeros(shape), order=order), (n, shape, order))
                rec.ev((n, shape, order))
