"""C13: gridpoint areas and area-weighted means."""

import itertools

import numpy as np

from mc import scales, util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all unit fields (complete by linearity) x axes x regions x ways to request a mean, against exact cell areas"
RULE = ("all grids with up to 120 (thorough: 360) latitude intervals for areas; on small grids every unit field, every rectangular region (all contiguous latitude ranges, all longitude "
        "ranges including those across 0 degrees), every spelling of every axis, full and extracted fields, Grid.mean and GridRegion.mean. Non-trivial: the field is not zero in the region; homogeneity in field and radius for factors 2^-60..2^60")
ASSUMPTIONS = ["regions are not empty", "a field of the shape of the grid is not an extracted one"]

AXES = {None: [None], 0: [0, -2, "meridional"], 1: [1, -1, "zonal"]}


def units(tier):
    top = 121 if tier == "quick" else 361
    out = [["area", list(range(2 + k, top, 8))] for k in range(8)]
    out += [["global", n] for n in ([2, 3, 4, 5, 6, 8] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8, 9, 10, 12])]
    for n, k in ([(2, 1), (3, 2), (4, 8)] if tier == "quick" else [(2, 1), (3, 2), (4, 8), (5, 32)]):
        out += [["region", n, i, k] for i in range(k)]
    out += [["generic", n] for n in (3, 6, 18, 36, 72, 90, 120, 180)]
    out.append(["refuse"])
    return out + scales.units((4, 5, 12, 36, 60, 72))


def areas(n, r):
    """Area of each gridpoint's cell."""
    k = np.arange(n + 1)
    hi = np.minimum(np.pi / 2 - np.pi * (k - .5) / n, np.pi / 2)
    lo = np.maximum(np.pi / 2 - np.pi * (k + .5) / n, -np.pi / 2)
    # sin(a) - sin(b), accurate for small differences
    return r * r * np.pi / n * 2. * np.cos((hi + lo) / 2) * np.sin((hi - lo) / 2)


def make(n, r=1.5):
    import barotropic as bt
    g = bt.Grid(180. / n, rsphere=r, ntrunc=2)
    return util.Reused(g) if n % 2 else g           # callers may use their arrays again


def reference(f, area, axis):
    w = area[:, None] * np.ones_like(f)
    if axis is None:
        return (f * w).sum() / w.sum()
    if axis == 0:
        return (f * w).sum(axis=0) / w.sum(axis=0)
    return f.sum(axis=1) / f.shape[1]


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.mean(rec, unit[1])
    kind = unit[0]
    if kind == "area":
        for n in unit[1]:
            for r in (6371.2e3, 1.5, 3):
                with rec.guard((n, r)):
                    g = make(n, r)
                    a = areas(n, r)
                    got = g.gridpoint_area
                    rec.close(got, a, (n, r), rtol=1e-10)
                    rec.close(got / a, np.ones(n + 1), (n, r, "relative"), rtol=1e-7)
                    rec.close(np.sum(got) * g.nlon, 4. * np.pi * r * r, (n, r, "sphere"), rtol=1e-11)
                    rec.close(g.region[:, :].gridpoint_area, a, (n, r, "region"), rtol=1e-10)
                rec.ev((n, r))
    elif kind == "global":
        n = unit[1]
        g = make(n)
        a = areas(n, g.rsphere)
        ways = {"full": lambda f, ax: g.mean(f, ax), "kw": lambda f, ax: g.mean(f, axis=ax), "region": lambda f, ax: g.mean(f, axis=ax, region=g.region[:, :]),
                "none": lambda f, ax: g.mean(field=f, axis=ax, region=None)}
        for j, i in itertools.product(range(n + 1), range(2 * n)):
            f = np.zeros((n + 1, 2 * n))
            f[j, i] = 3.
            for ax, spellings in AXES.items():
                want = reference(f, a, ax)
                for (way, call), spell in itertools.product(ways.items(), spellings):
                    case = (j, i, way, spell)
                    with rec.guard(case):
                        rec.close(call(f, spell), want, case, rtol=1e-10)
                    rec.ev(case)
            with rec.guard((j, i)):
                rec.close(g.mean(f), reference(f, a, None), (j, i, "default"), rtol=1e-10)
                rec.close(g.region[:, :].mean(f), reference(f, a, None), (j, i, "GridRegion.mean"), rtol=1e-10)
                h = np.zeros((n + 1, 2 * n), dtype=(int, bool, np.float32)[(i + j) % 3])
                h[j, i] = 1
                rec.close(g.mean(h), reference(f, a, None) / 3., (j, i, "type"), rtol=1e-6)
                rec.close(g.mean(h, axis=1), reference(f, a, 1) / 3., (j, i, "type"), rtol=1e-6)
                rec.close(g.mean(h, axis=0), reference(f, a, 0) / 3., (j, i, "type"), rtol=1e-6)
    elif kind == "region":
        regions(rec, *unit[1:])
    elif kind == "generic":
        generic(rec, unit[1])
    elif kind == "refuse":
        refuse(rec)


def selections(n):
    """All rectangular regions as (latitude indices, longitude indices, selection)."""
    lat = [90. - 180. * j / n for j in range(n + 1)]
    lon = [180. * i / n for i in range(2 * n)]
    lats = [(list(range(a, b + 1)), slice(lat[b], lat[a])) for a in range(n + 1) for b in range(a, n + 1)]
    lons = [(list(range(a, b + 1)) if a <= b else list(range(a, 2 * n)) + list(range(b + 1)), slice(lon[a], lon[b])) for a in range(2 * n) for b in range(2 * n)]
    for (js, la), (is_, lo) in itertools.product(lats, lons):
        yield js, is_, (lo, la)


def regions(rec, n, shard, nshards):
    g = make(n)
    a = areas(n, g.rsphere)
    sel = list(selections(n))[shard::nshards]
    fields = []
    for j, i in itertools.product(range(n + 1), range(2 * n)):
        f = np.zeros((n + 1, 2 * n))
        f[j, i] = 1.
        fields.append(((j, i), f))
    for js, is_, key in sel:
        reg = g.region[key]
        name = str(key)
        ar = a[js]
        # All the unit fields inside, one outside (if there is any) on each side
        inside = [x for x in fields if x[0][0] in js and x[0][1] in is_]
        outside = [x for x in fields if not (x[0][0] in js and x[0][1] in is_)]
        for (pos, f) in inside + outside:
            e = f[js][:, is_]
            full_size = e.shape == f.shape
            for ax, spellings in AXES.items():
                want = reference(e, ar, ax)
                spell = spellings[(pos[0] + pos[1] + len(is_)) % len(spellings)]
                case = (name, pos, spell)
                try:
                    rec.close(g.mean(f, axis=spell, region=reg), want, (case, "full field"), rtol=1e-10)
                    if not full_size:
                        rec.close(g.mean(e, axis=spell, region=reg), want, (case, "extracted"), rtol=1e-10)
                    if ax is None:
                        rec.close(reg.mean(f), want, (case, "GridRegion.mean"), rtol=1e-10)
                        if not full_size:
                            rec.close(reg.mean(e), want, (case, "GridRegion.mean extracted"), rtol=1e-10)
                except Exception as exc:
                    rec.fail(case, repr(exc))
                rec.evaluations += 1
        rec.count("_bulk", 3 * len(inside))
        with rec.guard(name):
            rec.close(reg.gridpoint_area, ar, (name, "area"), rtol=1e-10)
    rec.samples.append("all unit fields in {} regions, e.g. {}".format(len(sel), sel[-1][2]))


def generic(rec, n):
    """Superpositions: the sum of the unit fields, constants, and consistency of nested means."""
    g = make(n, 6371.2e3)
    a = areas(n, g.rsphere)
    for seed in (1, 2):
        f = util.generic((n + 1, 2 * n), seed) + 5.
        for layout, h in (("C", f), ("F", np.asfortranarray(f)), ("strided", np.repeat(f, 2, axis=1)[:, ::2])):
            for ax, spellings in AXES.items():
                for spell in spellings:
                    with rec.guard((n, layout, spell)):
                        rec.close(g.mean(h, axis=spell), reference(f, a, ax), (layout, spell), rtol=1e-10)
                    rec.ev((seed, layout, spell))
        for lo, hi, s, t in ((0., 120., -60., 60.), (300., 60., 0., 90.), (240., 120., -90., -30.), (180., 180., -90., 90.), (0., 360., 60., 90.)):
            js = [j for j in range(n + 1) if s - 1e-9 <= 90. - 180. * j / n <= t + 1e-9]
            lon = [180. * i / n for i in range(2 * n)]
            is_ = [i for i in range(2 * n) if lon[i] >= lo - 1e-9] if lo > hi else [i for i in range(2 * n) if lo - 1e-9 <= lon[i] <= hi + 1e-9]
            if lo > hi:
                is_ += [i for i in range(2 * n) if lon[i] <= hi + 1e-9]
            reg = g.region[lo:hi, s:t]
            for ax, spellings in AXES.items():
                for spell in spellings:
                    case = (seed, lo, hi, s, t, spell)
                    with rec.guard(case):
                        want = reference(f[js][:, is_], a[js], ax)
                        rec.close(g.mean(f, axis=spell, region=reg), want, case, rtol=1e-10)
                        rec.close(g.mean(reg.extract(f), axis=spell, region=reg), want, (case, "extracted"), rtol=1e-10)
                    rec.ev(case)


def refuse(rec):
    for n in (3, 6):
        g = make(n)
        reg = g.region[0:90, "N"]
        f = np.ones((n + 1, 2 * n))
        for ax in ("lon", "x", 2, -3, "meridional ", "ZONAL", (0, 1), 0.5):
            rec.raises(ValueError, lambda: g.mean(f, axis=ax), (n, "axis", ax))
            rec.raises(ValueError, lambda: g.mean(f, axis=ax, region=reg), (n, "axis with region", ax))
            rec.ev((n, ax))
        for shape in ((n + 1, 2 * n - 1), (n, 2 * n), (n + 1, 1), (2 * n, n + 1), (n + 1, 2), (1, 1), (n + 1, 2 * n, 1)):
            rec.raises(Exception, lambda: g.mean(np.ones(shape)), (n, "shape", shape))
            rec.raises(Exception, lambda: g.mean(np.ones(shape), region=reg), (n, "region shape", shape))
            rec.raises(Exception, lambda: reg.mean(np.ones(shape)), (n, "region.mean shape", shape))
            rec.ev((n, shape))
