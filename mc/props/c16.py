"""C16: smoothing filters."""

import itertools

import numpy as np

from mc import scales, util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all unit fields (complete by linearity) x windows x widths x wavenumbers against direct summation"
RULE = ("all unit fields on small grids, all window widths from below one gridpoint to more than the domain, symmetric and asymmetric windows by name, with parameter and as arrays; "
        "filtering by wavenumber with all uniform wavenumbers (integer and not, beyond both limits), all assignments of wavenumbers to latitudes and to the gridpoints of small "
        "fields. Non-trivial: window longer than one gridpoint; homogeneity for factors 2^-60..2^60, also at the default resolution")
ASSUMPTIONS = ["window widths that are not halfway between two numbers of gridpoints", "floating point fields for window filters", "windows given as arrays have an odd length"]


def units(tier):
    big = tier == "thorough"
    out = [["window", n] for n in ((2, 3, 4, 9, 18, 36, 72, 240) if not big else (2, 3, 4, 5, 9, 12, 18, 36, 50, 72, 90))]
    out += [["conv", n, d] for n in ((2, 3, 4, 6, 9) if not big else (2, 3, 4, 5, 6, 8, 9, 12)) for d in ("zonal", "meridional")]
    out += [["uniform", nlon] for nlon in (list(range(3, 17)) if not big else list(range(2, 41)))]
    out += [["latitudes", nlon] for nlon in (4, 5, 6)] + [["gridpoints", nlon] for nlon in (3, 4)]
    out += [["mixed", nlon] for nlon in ((8, 15, 36) if not big else (8, 15, 36, 72, 144))]
    out += [["fine", n] for n in ((72, 120) if not big else (45, 72, 90, 120, 180))]
    return out + scales.units((4, 5, 12, 36, 60, 72))


def reference_window(name, m):
    k = np.arange(m)
    if m == 1:
        w = np.ones(1)
    elif name == "boxcar":
        w = np.ones(m)
    elif name == "hann":
        w = .5 - .5 * np.cos(2. * np.pi * k / (m - 1))
    elif name == "hamming":
        w = .54 - .46 * np.cos(2. * np.pi * k / (m - 1))
    elif name == "blackman":
        w = .42 - .5 * np.cos(2. * np.pi * k / (m - 1)) + .08 * np.cos(4. * np.pi * k / (m - 1))
    elif name == "bartlett":
        w = 1. - np.abs(2. * k / (m - 1) - 1.)
    elif name[0] == "gaussian":
        w = np.exp(-.5 * ((k - (m - 1) / 2.) / name[1])**2)
    elif name[0] == "exponential":
        w = np.exp(-np.abs(k - (m - 1) / 2.) / name[2])
    return w / w.sum()


NAMES = ["boxcar", "hann", "hamming", "blackman", "bartlett", ("gaussian", 1.7), ("exponential", None, 2.)]


def make(n):
    import barotropic as bt
    g = bt.Grid(180. / n, rsphere=1.5, ntrunc=2)
    return util.Reused(g) if n % 2 else g           # callers may use their arrays again


def odd(points):
    """Smallest odd integer not below the number of gridpoints rounded to an integer."""
    m = int(np.floor(points + .5))
    return m if m % 2 else m + 1


def zonal(f, w):
    """Periodic convolution along the last axis."""
    c = w.size // 2
    return sum(w[k] * np.roll(f, k - c, axis=-1) for k in range(w.size))


def meridional(f, w):
    """Reflecting (about the edges of the outermost cells) convolution along the first axis."""
    n = f.shape[0]
    c = w.size // 2
    out = np.zeros(f.shape)
    for k in range(w.size):
        idx = (np.arange(n) - (k - c)) % (2 * n)
        idx = np.where(idx < n, idx, 2 * n - 1 - idx)
        out += w[k] * f[idx]
    return out


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.filters(rec, unit[1])
    {"window": window, "conv": conv, "uniform": uniform, "latitudes": latitudes, "gridpoints": gridpoints, "mixed": mixed, "fine": fine}[unit[0]](rec, *unit[1:])


def widths(n):
    d = 180. / n
    pts = [0., .3, .7, 1., 1.4, 1.6, 2., 2.2, 2.8, 3., 3.3, 4., 4.7, 5., 6., 7.1, 8., n - .2, n + 1., 2. * n, 2. * n + 1.2]
    return [(p, p * d) for p in pts]


def window(rec, n):
    g = make(n)
    for (pts, width), name in itertools.product(widths(n), NAMES):
        m = odd(pts)
        case = (name, pts)
        with rec.guard(case):
            for wd in (width, np.float64(width)) + ((int(round(width)),) if abs(width - round(width)) < 1e-9 else ()):
                w = g.get_filter_window(name, wd)
                want = reference_window(name, m)
                rec.close(w, want, (case, repr(wd)), rtol=1e-10, atol=1e-15)
                rec.close(np.sum(w), 1., (case, "sum"), rtol=1e-12)
            rec.close(g.get_filter_window(window=name, width=width), want, (case, "keywords"), rtol=1e-10, atol=1e-15)
        rec.ev(case, m > 1)


def conv(rec, n, direction):
    g = make(n)
    nlat, nlon = n + 1, 2 * n
    if direction == "zonal":
        fun, ref, size = g.filter_zonal, zonal, nlon
    else:
        fun, ref, size = g.filter_meridional, meridional, nlat
    wins = [("name", name, width, reference_window(name, odd(p))) for name in ("boxcar", "hann", ("gaussian", 1.7)) for p, width in widths(n) if p <= 2 * n]
    # asymmetric, not normalized arrays, up to longer than the domain
    for m in (1, 3, 5, 7, size if size % 2 else size + 1, 2 * size - 1, 2 * size + 1, 2 * size + 3):
        arr = util.lcg(m, m) + .2
        wins.append(("array", arr, None, arr))
        for k in (0, m // 2, m - 1):
            e = np.zeros(m)
            e[k] = 1.
            wins.append(("array", e, None, e))
    generic2 = util.generic((nlat, nlon), 5)
    generic1 = util.lcg(size, 6)
    for i, (kind, win, width, w) in enumerate(wins):
        args = (win, width) if kind == "name" else (win,)
        name = (kind, str(win)[:60], width)
        with rec.guard(name):
            units1 = np.eye(size)
            for k in range(size):
                e = units1[k]
                rec.close(fun(e, *args), ref(e, w), (name, "1D", k), rtol=0., atol=1e-12)
                if n <= 4 or k in (0, 1, size // 2, size - 1):
                    other = nlat if direction == "zonal" else nlon
                    for j in range(other) if n <= 3 else (0, other - 1):
                        f = np.zeros((nlat, nlon))
                        if direction == "zonal":
                            f[j, k] = 1.
                        else:
                            f[k, j] = 1.
                        want = ref(f, w)
                        rec.close(fun(f, *args), want, (name, "2D", k, j), rtol=0., atol=1e-12)
                        rec.evaluations += 1
                rec.ev((name, k), w.size > 1)
            for f in (generic1, generic2, generic1.astype(np.float32), np.asfortranarray(generic2), np.repeat(generic2, 2, axis=1)[:, ::2]):
                tol = 1e-5 if f.dtype == np.float32 else 1e-12
                rec.close(fun(f, *args), ref(f.astype(float), w), (name, "generic", f.ndim, str(f.dtype)), rtol=0., atol=tol * (1 + np.abs(w).sum()))
            rec.close(fun(field=generic2, window=win, width=width), ref(generic2, w), (name, "keywords"), rtol=0., atol=1e-11)
            if direction == "zonal":
                for s in range(1, nlon):
                    rec.close(fun(np.roll(generic2, s, axis=1), *args), np.roll(fun(generic2, *args), s, axis=1), (name, "rotation", s), rtol=1e-10)
            if kind == "name":
                # constants are kept, windows by name and as arrays agree
                rec.close(fun(np.full((nlat, nlon), 3.), *args), np.full((nlat, nlon), 3.), (name, "constant"), rtol=1e-12)
                rec.close(fun(generic2, g.get_filter_window(win, width)), fun(generic2, *args), (name, "array"), rtol=1e-12)
    wrong = [np.ones((nlat, nlon - 1)) if direction == "zonal" else np.ones((nlat - 1, nlon)), np.ones(size + 1), np.ones((1, nlat, nlon)), np.ones(())]
    for f in wrong:
        rec.raises(Exception, lambda: fun(f, "boxcar", 3. * 180. / n), ("refuse", f.shape))
        rec.ev(("refuse", f.shape))


def hann_width(k, nlon):
    """Half width of the window: integer wavelength of the clipped wavenumber."""
    k = min(max(float(k), 1.), nlon / 2.)
    return int(np.floor(nlon / k + 1e-12))


def by_wavenumber(f, k):
    """Direct summation at every gridpoint."""
    nlat, nlon = f.shape
    out = np.zeros(f.shape)
    for j in range(nlat):
        for i in range(nlon):
            h = hann_width(k[j, i], nlon)
            x = np.arange(-h, h + 1)
            w = .5 + .5 * np.cos(np.pi * x / h)
            out[j, i] = (w * f[j, (i + x) % nlon]).sum() / w.sum()
    return out


def uniform(rec, nlon):
    from barotropic import diagnostics
    ks = [-3., 0., .4, 1., 1.37, 2., 2.5, 3.37] + [float(k) for k in range(3, nlon // 2 + 3)] + [nlon / 2., nlon / 2. - .5, float(nlon), 1e6]
    generic = util.generic((4, nlon), 3)
    for k in ks:
        case = (k,)
        h = hann_width(k, nlon)
        with rec.guard(case):
            kk = np.full((1, nlon), k)
            for i in range(nlon):
                e = np.zeros((1, nlon))
                e[0, i] = 1.
                rec.close(diagnostics.filter_by_wavenumber(e, kk), by_wavenumber(e, kk), (case, i), rtol=0., atol=1e-12)
                rec.ev((case, i))
            k1, k2 = np.full(4, k), np.full((4, nlon), k)
            want = by_wavenumber(generic, k2)
            rec.close(diagnostics.filter_by_wavenumber(generic, k1), want, (case, "1D"), rtol=0., atol=1e-12)
            rec.close(diagnostics.filter_by_wavenumber(generic, k2), want, (case, "2D"), rtol=0., atol=1e-12)
            rec.close(diagnostics.filter_by_wavenumber(np.asfortranarray(generic), np.asfortranarray(k2)), want, (case, "F"), rtol=0., atol=1e-12)
            rec.close(diagnostics.filter_by_wavenumber(generic.astype(np.float32), k1.astype(np.float32)), want, (case, "float32"), rtol=0., atol=1e-5) if nlon % 2 == 0 and k == int(k) else None
            if k == int(k) and abs(k) < 1e5:
                rec.close(diagnostics.filter_by_wavenumber(generic, k1.astype(int)), want, (case, "integer wavenumber"), rtol=0., atol=1e-12)
                fi = np.round(20 * generic).astype(int)
                rec.close(diagnostics.filter_by_wavenumber(fi, k1), by_wavenumber(fi.astype(float), k2), (case, "integer field"), rtol=0., atol=1e-11)
            rec.close(diagnostics.filter_by_wavenumber(field=np.full((2, nlon), 7.), wavenumber=np.full(2, k)), np.full((2, nlon), 7.), (case, "constant"), rtol=1e-12)
            for s in range(nlon):
                rec.close(diagnostics.filter_by_wavenumber(np.roll(generic, s, axis=1), k1), np.roll(want, s, axis=1), (case, "rotation", s), rtol=0., atol=1e-12)


def latitudes(rec, nlon):
    """All assignments of wavenumbers to three latitudes."""
    from barotropic import diagnostics
    f = util.generic((3, nlon), 8)
    for ks in itertools.product((.5, 1., 1.71, 2., nlon / 2., 50.), repeat=3):
        k2 = np.repeat(np.array(ks)[:, None], nlon, axis=1)
        with rec.guard(ks):
            want = by_wavenumber(f, k2)
            rec.close(diagnostics.filter_by_wavenumber(f, np.array(ks)), want, (ks, "1D"), rtol=0., atol=1e-12)
            rec.close(diagnostics.filter_by_wavenumber(f, k2), want, (ks, "2D"), rtol=0., atol=1e-12)
        rec.ev(ks)
    for bad in (np.ones(2), np.ones(nlon) if nlon != 3 else np.ones(4), np.ones(1)):
        rec.raises(Exception, lambda: diagnostics.filter_by_wavenumber(f, bad), ("refuse", bad.shape))


def gridpoints(rec, nlon):
    """All assignments of wavenumbers to the gridpoints of two rows."""
    from barotropic import diagnostics
    f = util.generic((2, nlon), 4)
    alphabet = (1., 1.5, 9.) if nlon == 3 else (1., 2., 1.43)
    for ks in itertools.product(alphabet, repeat=2 * nlon):
        k2 = np.array(ks).reshape(2, nlon)
        with rec.guard(ks):
            rec.close(diagnostics.filter_by_wavenumber(f, k2), by_wavenumber(f, k2), ks, rtol=0., atol=1e-12)
        rec.ev(ks)


def mixed(rec, nlon):
    """Every wavenumber next to every other on larger fields."""
    from barotropic import diagnostics
    nlat = nlon // 2 + 1
    f = util.generic((nlat, nlon), 2)
    alphabet = np.concatenate([np.arange(.5, nlon / 2. + 2., .5)])
    for shift in range(0, alphabet.size, max(1, alphabet.size // 8)):
        for step in (1, 2, 3):
            idx = (np.arange(nlat)[:, None] * 5 + np.arange(nlon)[None, :] * step + shift) % alphabet.size
            k2 = alphabet[idx]
            case = (shift, step)
            with rec.guard(case):
                rec.close(diagnostics.filter_by_wavenumber(f, k2), by_wavenumber(f, k2), case, rtol=0., atol=1e-11)
                rec.close(diagnostics.filter_by_wavenumber(f, k2[:, 0]), by_wavenumber(f, np.repeat(k2[:, :1], nlon, axis=1)), (case, "1D"), rtol=0., atol=1e-11)
            rec.ev(case)


def fine(rec, n):
    """Default resolution and finer grids."""
    from barotropic import diagnostics
    g = make(n)
    nlon = 2 * n
    f = util.generic((3, nlon), 2)
    for k in [.5 * x for x in range(1, nlon + 3)] + [1.01, 2.02, 3.37, 7.7, 1e3]:
        with rec.guard(("wavenumber", k)):
            want = by_wavenumber(f, np.full(f.shape, k))
            rec.close(diagnostics.filter_by_wavenumber(f, np.full(3, k)), want, ("wavenumber", k), rtol=0., atol=1e-11)
            rec.close(diagnostics.filter_by_wavenumber(f, np.full(f.shape, k)), want, ("wavenumber", k, "2D"), rtol=0., atol=1e-11)
        rec.ev(("wavenumber", k))
    # long and short waves side by side
    for ks in itertools.permutations((1., 2.5, nlon / 2.), 3):
        with rec.guard(ks):
            rec.close(diagnostics.filter_by_wavenumber(f, np.array(ks)), by_wavenumber(f, np.repeat(np.array(ks)[:, None], nlon, axis=1)), ks, rtol=0., atol=1e-11)
        rec.ev(ks)
    h = util.generic((n + 1, nlon), 5)
    for points in (1, 3, 4.2, 9, 16, 31, 60, n - 1, n, n + 1, 1.5 * n, 2 * n, 2 * n + 3, 3 * n):
        for name in ("hann", "boxcar", ("gaussian", 5.)):
            case = (points, name)
            with rec.guard(case):
                width = points * 180. / n
                if abs(points - np.floor(points) - .5) < 1e-6:
                    continue
                w = reference_window(name, odd(points))
                rec.close(g.get_filter_window(name, width), w, (case, "window"), rtol=1e-9, atol=1e-15)
                rec.close(g.filter_zonal(h, name, width), zonal(h, w), (case, "zonal"), rtol=0., atol=1e-11)
                rec.close(g.filter_meridional(h, name, width), meridional(h, w), (case, "meridional"), rtol=0., atol=1e-11)
                rec.close(g.filter_meridional(h[:, 1], name, width), meridional(h[:, 1], w), (case, "meridional 1D"), rtol=0., atol=1e-11)
            rec.ev(case)
