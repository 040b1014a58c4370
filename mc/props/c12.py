"""C12: region selections."""

import fractions
import itertools

import numpy as np

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all pairs of bounds from a complete alphabet of positions relative to the gridpoints, decided in rational arithmetic"
RULE = ("on every grid all ordered pairs (west, east) and (south/north) of bounds from: open, every gridpoint, every midpoint, the ends of the range and values beyond; every single "
        "value; keywords; all products of a subset of both dimensions; all kinds of numbers; all invalid selections. Non-trivial: the selection is neither empty nor everything")
ASSUMPTIONS = ["longitude bounds between 0 and 360 (documented range)", "bounds are on a gridpoint (up to rounding) or not closer than a tenth of the grid spacing to one"]

F = fractions.Fraction


def units(tier):
    small = [2, 3, 4, 5, 6, 7, 9, 12, 18]
    big = [(36, 2), (50, 4), (100, 6), (150, 16)] if tier == "quick" else [(24, 1), (36, 2), (50, 4), (75, 4), (100, 8), (125, 12), (144, 16), (150, 16), (250, 48), (225, 32)]
    out = [["lon", n, 0, 1] for n in small] + [["lat", n, 0, 1] for n in small]
    for n, k in big:
        out += [["lon", n, i, k] for i in range(k)]
        out += [["lat", n, i, max(1, k // 4)] for i in range(max(1, k // 4))]
    out += [["both", n] for n in ([3, 4, 6] if tier == "quick" else [3, 4, 5, 6, 8])]
    out += [["fine", n] for n in ((240, 360, 600) if tier == "quick" else (192, 240, 288, 300, 360, 480, 500, 600, 720))]          # below one degree
    out += [["near", n] for n in ((2, 3, 6, 9, 12) if tier == "quick" else (2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18))]          # bounds next to gridpoints
    out += [["types", n] for n in (4, 9, 150)]
    out += [["invalid", n] for n in (2, 3, 4, 12)]
    return out


class Ref:
    """Exact description of the grid and of selections."""

    def __init__(self, n, legfunc="stored"):
        import barotropic as bt
        self.n = n
        self.g = bt.Grid(180. / n, rsphere=1.5, ntrunc=2, legfunc=legfunc)
        self.lat = [90 - F(180 * j, n) for j in range(n + 1)]
        self.lon = [F(180 * i, n) for i in range(2 * n)]
        # times n everything is exactly representable
        self.nlat_ = np.array([float(x * n) for x in self.lat])
        self.nlon_ = np.array([float(x * n) for x in self.lon])
        j, i = np.arange(n + 1), np.arange(2 * n)
        self.flat = 3. * j + 1000.
        self.flon = 5. * i - 2000.
        self.f2 = j[:, None] * 1000. + i[None, :]
        area = np.empty(n + 1)
        h = np.pi / n / 2.
        for k in range(n + 1):
            p = np.pi / 2 - np.pi * k / n
            area[k] = 1.5**2 * np.pi / n * (np.sin(min(p + h, np.pi / 2)) - np.sin(max(p - h, -np.pi / 2)))
        self.area = area

    def lon_alphabet(self, mid=True):
        out = [None] + list(self.lon) + [F(360)]
        if mid:
            out += [x + F(90, self.n) for x in self.lon] + [x + F(180, self.n) * F(1, 8) for x in self.lon[::3]]
        return out

    def lat_alphabet(self, mid=True):
        out = [None] + list(self.lat) + [F(100), F(-95)]
        if mid:
            out += [x - F(90, self.n) for x in self.lat[:-1]] + [x - F(180, self.n) * F(7, 8) for x in self.lat[:-1:2]]
        return out

    def select_lon(self, lo, hi):
        """(indices, number of those that are west of 0 degrees)"""
        x = self.nlon_
        ge = x >= (-np.inf if lo is None else float(lo * self.n))
        le = x <= (np.inf if hi is None else float(hi * self.n))
        if lo is not None and hi is not None and hi < lo:
            west, east = np.flatnonzero(ge), np.flatnonzero(le)
            return np.concatenate([west, east]), (len(west) if len(east) else 0)
        return np.flatnonzero(ge & le), 0

    def select_lat(self, a, b):
        x = self.nlat_
        if a is not None and b is not None:
            a, b = min(a, b), max(a, b)
        return np.flatnonzero((x >= (-np.inf if a is None else float(a * self.n))) & (x <= (np.inf if b is None else float(b * self.n))))

    def check(self, rec, region, js, iw, case, full=True):
        is_, west = iw
        js, is_ = np.array(js, dtype=int), np.array(is_, dtype=int)
        g = self.g
        with rec.guard(case):
            ok = rec.ok(tuple(region.shape) == (js.size, is_.size), case, lambda: "shape {} instead of {}".format(region.shape, (js.size, is_.size)))
            rec.ok((np.shape(region.lat) == js.shape and np.allclose(region.lat, g.lat[js], rtol=0., atol=1e-9)), (case, "lat"), lambda: "{} instead of {}".format(region.lat, g.lat[js]))
            rec.ok((np.shape(region.lon) == is_.shape and np.allclose(region.lon, g.lon[is_], rtol=0., atol=1e-9)), (case, "lon"), lambda: "{} instead of {}".format(region.lon, g.lon[is_]))
            mono = g.lon[is_].copy()
            mono[:west] -= 360.
            rec.ok((np.shape(region.lon_mono) == mono.shape and np.allclose(region.lon_mono, mono, rtol=0., atol=1e-9)), (case, "lon_mono"), lambda: "{} instead of {}".format(region.lon_mono, mono))
            if not ok or not full:
                return
            rec.ok(np.array_equal(region.extract(self.flat), self.flat[js]), (case, "extract meridional profile"), "")
            rec.ok(np.array_equal(region.extract(self.flon), self.flon[is_]), (case, "extract zonal profile"), "")
            rec.ok(np.array_equal(region.extract(self.f2), self.f2[js][:, is_]), (case, "extract field"), "")
            mask = np.zeros((self.n + 1, 2 * self.n), dtype=bool)
            for j in js:
                mask[j, is_] = True
            got = region.mask
            rec.ok(got.dtype == bool and np.array_equal(got, mask), (case, "mask"), "")
            rec.close(region.gridpoint_area, self.area[js], (case, "area"), rtol=1e-9)
            out = region.extract(self.f2, self.flat, self.flon, self.f2 > 1000.)
            rec.ok(isinstance(out, tuple) and len(out) == 4 and np.array_equal(out[0], self.f2[js][:, is_]) and np.array_equal(out[1], self.flat[js])
                   and np.array_equal(out[2], self.flon[is_]) and np.array_equal(out[3], self.f2[js][:, is_] > 1000.), (case, "extract several"), "")


def as_float(x):
    return None if x is None else float(x)


def text_float(x):
    """The same number as somebody would type it."""
    return None if x is None else float("{:.10g}".format(float(x)))


def run_unit(unit, rec):
    kind, n = unit[0], unit[1]
    ref = Ref(n, "stored" if n < 200 else "computed")
    if kind in ("lon", "lat"):
        ranges(unit, rec, ref)
    elif kind == "fine":
        fine(rec, ref)
    elif kind == "near":
        near(rec, ref)
    elif kind == "both":
        both(rec, ref)
    elif kind == "types":
        types(rec, ref)
    elif kind == "invalid":
        invalid(rec, ref)


def ranges(unit, rec, ref):
    kind, n, shard, nshards = unit
    alphabet = (ref.lon_alphabet if kind == "lon" else ref.lat_alphabet)(n < 60)
    alllat, alllon = list(range(n + 1)), (list(range(2 * n)), 0)
    region = ref.g.region
    for lo, hi in list(itertools.product(alphabet, alphabet))[shard::nshards]:
        case = (kind, str(lo), str(hi))
        conv = text_float if (lo is not None and lo.denominator > 1) else as_float
        slc = slice(conv(lo), conv(hi))
        try:
            if kind == "lon":
                js, iw = alllat, ref.select_lon(lo, hi)
                reg = region[slc] if n % 2 else region[slc, :]
                trivial = len(iw[0]) in (0, 2 * n)
            else:
                js, iw = ref.select_lat(lo, hi), alllon
                reg = region[:, slc]
                trivial = len(js) in (0, n + 1)
        except Exception as e:
            rec.fail(case, "selection raised {!r}".format(e))
            continue
        ref.check(rec, reg, js, iw, case, full=n < 30)
        rec.ev(case, not trivial)
    # Single values and keywords
    if shard:
        return
    if kind == "lon":
        for i, x in enumerate(ref.lon):
            for v in (float(x), text_float(x)):
                with rec.guard(("single", v)):
                    ref.check(rec, region[v, :], alllat, ([i], 0), ("single", str(x)))
                    ref.check(rec, region[v], alllat, ([i], 0), ("single only", str(x)))
                rec.ev(("single", v))
    else:
        for j, x in enumerate(ref.lat):
            for v in (float(x), text_float(x)):
                with rec.guard(("single", v)):
                    ref.check(rec, region[:, v], [j], alllon, ("single", str(x)))
                rec.ev(("single", v))
        with rec.guard("keywords"):
            ref.check(rec, region[:, "N"], ref.select_lat(F(0), None), alllon, "N")
            ref.check(rec, region[:, "S"], ref.select_lat(None, F(0)), alllon, "S")
        rec.ev("N")
        rec.ev("S")


def both(rec, ref):
    """All products of selections in both dimensions."""
    n = ref.n
    lons = [slice(as_float(a), as_float(b)) for a, b in itertools.product([None] + ref.lon[::2] + [ref.lon[1] + F(90, n), F(360)], repeat=2)]
    lonsel = [ref.select_lon(a, b) for a, b in itertools.product([None] + ref.lon[::2] + [ref.lon[1] + F(90, n), F(360)], repeat=2)]
    lons += [float(x) for x in ref.lon]
    lonsel += [([i], 0) for i in range(2 * n)]
    alpha = [None] + ref.lat + [ref.lat[1] + F(90, n), F(99)]
    lats = [slice(as_float(a), as_float(b)) for a, b in itertools.product(alpha, repeat=2)] + [float(x) for x in ref.lat] + ["N", "S"]
    latsel = [ref.select_lat(a, b) for a, b in itertools.product(alpha, repeat=2)] + [[j] for j in range(n + 1)] + [ref.select_lat(F(0), None), ref.select_lat(None, F(0))]
    for (lo, iw), (la, js) in itertools.product(zip(lons, lonsel), zip(lats, latsel)):
        case = (str(lo), str(la))
        with rec.guard(case):
            ref.check(rec, ref.g.region[lo, la], js, iw, case)
        rec.ev(case, bool(len(js) and len(iw[0])))


def fine(rec, ref):
    """Resolutions below one degree: neighbours of important positions in both dimensions."""
    n = ref.n
    alllat, alllon = list(range(n + 1)), (list(range(2 * n)), 0)
    half = F(90, n)
    lons = sorted({ref.lon[i % (2 * n)] for c in (0, n // 2, n, 3 * n // 2, n // 3, 7 * n // 5) for i in (c - 1, c, c + 1)})
    lats = sorted({ref.lat[j] for c in (0, n // 4, n // 2, n, n // 3) for j in (c - 1, c, c + 1) if 0 <= j <= n})
    lonalpha = [None, F(360)] + lons + [x + half for x in lons[::3]]
    latalpha = [None, F(95)] + lats + [x - half for x in lats[1:-1:3]]
    for i, (lo, hi) in enumerate(itertools.product(lonalpha, repeat=2)):
        conv = text_float if i % 2 else as_float
        with rec.guard(("lon", str(lo), str(hi))):
            ref.check(rec, ref.g.region[conv(lo):conv(hi), :], alllat, ref.select_lon(lo, hi), ("lon", str(lo), str(hi)), full=i % 9 == 0)
        rec.ev(("lon", str(lo), str(hi)))
    for i, (lo, hi) in enumerate(itertools.product(latalpha, repeat=2)):
        conv = text_float if i % 2 else as_float
        with rec.guard(("lat", str(lo), str(hi))):
            ref.check(rec, ref.g.region[:, conv(lo):conv(hi)], ref.select_lat(lo, hi), alllon, ("lat", str(lo), str(hi)), full=i % 9 == 0)
        rec.ev(("lat", str(lo), str(hi)))
    for i, x in enumerate(ref.lon):
        with rec.guard(("single", str(x))):
            y = ref.lat[i // 2]
            ref.check(rec, ref.g.region[text_float(x), float(y)], [i // 2], ([i], 0), ("single", str(x), str(y)), full=False)
        rec.ev(("single", str(x)))
    with rec.guard("keywords"):
        ref.check(rec, ref.g.region[:, "N"], ref.select_lat(F(0), None), alllon, "N")
        ref.check(rec, ref.g.region[:, "S"], ref.select_lat(None, F(0)), alllon, "S")


def near(rec, ref):
    """A hundredth of a degree is no rounding error."""
    n, region = ref.n, ref.g.region
    alllat, alllon = list(range(n + 1)), (list(range(2 * n)), 0)
    d = F(1, 100)
    lons = [y for x in ref.lon for y in (x - d, x + d) if y > 0]
    lats = [y for x in ref.lat for y in (x - d, x + d)]
    for lo, hi in itertools.product(lons + [None], repeat=2):
        with rec.guard((str(lo), str(hi))):
            ref.check(rec, region[text_float(lo):text_float(hi), :], alllat, ref.select_lon(lo, hi), ("lon", str(lo), str(hi)), full=False)
        rec.ev(("lon", str(lo), str(hi)))
    for lo, hi in itertools.product(lats + [None], repeat=2):
        with rec.guard((str(lo), str(hi))):
            ref.check(rec, region[:, text_float(lo):text_float(hi)], ref.select_lat(lo, hi), alllon, ("lat", str(lo), str(hi)), full=False)
        rec.ev(("lat", str(lo), str(hi)))
    for x in lons:
        rec.raises(IndexError, lambda: region[text_float(x), :], ("single lon", str(x)))
    for x in lats:
        rec.raises(IndexError, lambda: region[:, text_float(x)], ("single lat", str(x)))


def types(rec, ref):
    n = ref.n
    region = ref.g.region
    d = 180. / n
    alllat, alllon = list(range(n + 1)), (list(range(2 * n)), 0)
    for t in (int, float, np.float64, np.float32, np.int64, np.int16, F, np.longdouble):
        for lo, hi in itertools.product((0, 30, 90, 180, 270, 330, 360), repeat=2):
            case = (t.__name__, lo, hi)
            with rec.guard(case):
                ref.check(rec, region[t(lo):t(hi)], alllat, ref.select_lon(F(lo), F(hi)), (case, "lon"))
                ref.check(rec, region[t(lo):], alllat, ref.select_lon(F(lo), None), (case, "lon from"))
                ref.check(rec, region[:t(hi), :], alllat, ref.select_lon(None, F(hi)), (case, "lon to"))
            rec.ev(case)
        for lo, hi in itertools.product((-90, -60, -30, 0, 30, 90), repeat=2):
            case = (t.__name__, "lat", lo, hi)
            with rec.guard(case):
                ref.check(rec, region[:, t(lo):t(hi)], ref.select_lat(F(lo), F(hi)), alllon, case)
                ref.check(rec, region[:, t(lo):], ref.select_lat(F(lo), None), alllon, (case, "from"))
                ref.check(rec, region[:, :t(hi)], ref.select_lat(None, F(hi)), alllon, (case, "to"))
            rec.ev(case)
        with rec.guard((t.__name__, "single")):
            ref.check(rec, region[t(180), t(90)], [0], ([n], 0), (t.__name__, "single"))
            ref.check(rec, region[t(0), t(-90)], [n], ([0], 0), (t.__name__, "single 0"))
    # values computed from the coordinates of the grid itself, accumulated steps
    x = 0.
    for i in range(2 * n):
        with rec.guard(("accumulated", i)):
            for v in (x, ref.g.lon[i], i * d, np.rad2deg(ref.g.lam[i]), np.float32(ref.lon[i]) if n < 20 else x):
                ref.check(rec, region[v:, :], alllat, ref.select_lon(ref.lon[i], None), ("accumulated from", i, repr(v)), full=False)
                ref.check(rec, region[:v, :], alllat, ref.select_lon(None, ref.lon[i]), ("accumulated to", i, repr(v)), full=False)
                ref.check(rec, region[v:v, :], alllat, ([i], 0), ("accumulated", i, repr(v)), full=False)
                ref.check(rec, region[v, :], alllat, ([i], 0), ("accumulated single", i, repr(v)), full=False)
        x += d
        rec.ev(("accumulated", i))


def invalid(rec, ref):
    region = ref.g.region
    n = ref.n
    off = float(F(90, n))
    bad_common = [None, "X", "", "north", b"N", [0., 10.], (0., 10.), {}, object(), Ellipsis, slice("0", 10.), slice(0., "10"), slice("N", None), slice(None, "S"), slice([0], 10.),
                  slice(0., None, 1), slice(0., 90., 10.), slice(None, None, 1), slice(None, None, -1), slice(0., 90., 0), slice(0., 90., "x"), slice(0., object()), np.nan, np.inf, slice]
    bad_lon = bad_common + ["N", "S", off, float(ref.lon[-1]) + off, 360., 720., -360., -float(F(180, n)), 1e9]
    bad_lat = bad_common + ["n", "NH", off - 90., 90. - off, 90. + 2 * off, -100., 180., 1e9]
    for sel in bad_lon:
        rec.raises(IndexError, lambda: region[sel, :], ("lon", repr(sel)))
        if not isinstance(sel, tuple):
            rec.raises(IndexError, lambda: region[sel], ("lon only", repr(sel)))
        rec.ev(("lon", repr(sel)[:40]))
    for sel in bad_lat:
        rec.raises(IndexError, lambda: region[:, sel], ("lat", repr(sel)))
        rec.raises(IndexError, lambda: region[0., sel], ("lat with lon", repr(sel)))
        rec.ev(("lat", repr(sel)[:40]))
    for sel in (np.array([0., 10.]), np.arange(3), np.array([True, False])):
        rec.raises(IndexError, lambda: region[sel, :], ("lon array", repr(sel)))
        rec.raises(IndexError, lambda: region[sel], ("lon only array", repr(sel)))
        rec.raises(IndexError, lambda: region[:, sel], ("lat array", repr(sel)))
        rec.ev(("array", repr(sel)))
    for sel in ((), (slice(None),), (slice(None),) * 3, (0., 0., 0.), (slice(None), "N", "N"), (0.,)):
        rec.raises(IndexError, lambda: region[sel], ("dimensions", repr(sel)))
        rec.ev(("dimensions", repr(sel)))
    # Fields that do not belong to the grid
    reg = region[0.:180., "N"]
    for shape in ((n + 1, 2 * n + 1), (n + 2, 2 * n), (2 * n, n + 1), (n + 3,) if n + 3 != 2 * n else (n + 4,), (), (1, n + 1, 2 * n), (0,), (n + 1, 1)):
        rec.raises(ValueError, lambda: reg.extract(np.zeros(shape)), ("extract", shape))
        rec.raises(ValueError, lambda: reg.extract(ref.f2, np.zeros(shape)), ("extract second", shape))
        rec.ev(("extract", shape))
    rec.raises(ValueError, lambda: reg.extract(), "extract nothing")
