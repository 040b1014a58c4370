"""C28: exchange with the falwa package."""

import datetime as dt
import itertools

import numpy as np

from mc import util
from mc.sph import basis, modes

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of harmonics (complete basis) and of all grid sizes up to a bound, conversion chains, and of all pairs of grids, with analytical fields at the positions of the falwa coordinates as oracle"
RULE = ("all resolved harmonics on small grids (complete, the conversions are linear) x planets x truncations; all grid sizes up to a bound with a generic field; all ordered pairs of grid shapes; "
        "all chains of conversions up to depth 3. Non-trivial: the field is not symmetric about the equator")
ASSUMPTIONS = ["resolved means degree within the truncation and below nlat-1", "single precision of the spectral transforms"]

TIMES = (0, -3.5, 86400., np.float64(7.25), dt.datetime(2021, 3, 4, 5, 6, 7))


def units(tier):
    quick = tier == "quick"
    out = [["basis", res, planet, nt] for res, planet, nt in ((45., "earth", None), (30., "tiny", None), (30., "retro", 3), (20., "slow", None), (36., "earth", 4), (60., "retro", None), (30., "faint", None), (30., "fierce", None), (30., "still", None))]
    if not quick:
        out += [["basis", res, planet, None] for res, planet in ((15., "earth"), (18., "retro"), (12., "tiny"))]
    hi = 181 if quick else 361
    out += [["sizes", lo, min(lo + (16 if lo < 98 else 6), hi)] for lo in [2, 18, 34, 50, 66, 82] + list(range(98, hi, 6))]
    out += [["mismatch", n] for n in (2, 3, 4, 5, 6, 9, 12, 18, 36)] + [["shape"], ["kwargs"], ["chains"]]
    return out


def run_unit(unit, rec):
    {"basis": harmonics, "sizes": sizes, "mismatch": mismatch, "shape": shape, "kwargs": kwargs, "chains": chains}[unit[0]](rec, *unit[1:])


def falwa(n, pv, **kw):
    """Field with rows from South to North created by hand."""
    from falwa.barotropic_field import BarotropicField
    lat, lon = util.coords(180. / n)
    return BarotropicField(lon, -lat, pv_field=pv, **kw)


def south_to_north(field):
    """Reorder a field given from North to South, row by row."""
    out = np.empty_like(field)
    n = field.shape[0]
    for j in range(n):
        out[j] = field[n - 1 - j]
    return out


def check_falwa(rec, bf, n, want, tol, case):
    """want: from North to South."""
    lat, lon = util.coords(180. / n)
    if not rec.ok((bf.nlat, bf.nlon) == (n + 1, 2 * n) and np.shape(bf.pv_field) == (n + 1, 2 * n), (case, "dimensions"), lambda: str((bf.nlat, bf.nlon, np.shape(bf.pv_field)))):
        return
    rec.close(bf.ylat, lat[::-1], (case, "ylat"), rtol=0., atol=1e-9)
    rec.close(bf.xlon, lon, (case, "xlon"), rtol=0., atol=1e-9)
    rec.close(bf.pv_field, south_to_north(want), (case, "pv"), rtol=0., atol=tol)


def check_state(rec, s, g, t, n, want, tol, case):
    import barotropic as bt
    rec.ok(type(s) is bt.State, (case, "type"), lambda: repr(s))
    rec.ok(s.time is t or s.time == t and type(s.time) is type(t), (case, "time"), lambda: repr(s.time))
    if g is not None:
        rec.ok(s.grid is g, (case, "grid"), lambda: repr(s.grid))
    if rec.ok(tuple(s.grid.shape) == (n + 1, 2 * n), (case, "grid"), lambda: repr(s.grid)):
        lat, lon = util.coords(180. / n)
        rec.close(s.grid.lat, lat, (case, "lat"), rtol=0., atol=1e-9)
        rec.close(s.grid.lon, lon, (case, "lon"), rtol=0., atol=1e-9)
        rec.close(s.pv, want, (case, "pv"), rtol=0., atol=tol)


def harmonics(rec, res, planet, nt):
    import barotropic as bt
    g = util.grid(res, planet, nt)
    r, om = util.PLANETS[planet]
    nlat, nlon = util.dims(res)
    n = nlat - 1
    b = basis(nlat, nlat - 1)
    lat, _ = util.coords(res)
    f = np.repeat((2. * om * np.sin(np.deg2rad(lat)))[:, None], nlon, axis=1)
    sc = util.rate(om)
    for i, ((l, m, k), bg) in enumerate(itertools.product([x for x in modes(min(nlat - 2, nt or 999))], (False, True))):
        want = sc * .7 * b.Y(l, m, k) + (f if bg else 0.)
        tol = 2e-5 * (sc + np.max(np.abs(want)))
        t = TIMES[i % len(TIMES)]
        case = (l, m, k, bg)
        with rec.guard(case):
            s = bt.State(g, t, pv=want)
            bf = s.as_hn2016()
            check_falwa(rec, bf, n, want, tol, (case, "to falwa"))
            rec.ok(np.array_equal(bf.pv_field, south_to_north(s.pv)), (case, "to falwa"), "not the PV of the state")
            check_state(rec, bt.State.from_hn2016(g, t, bf), g, t, n, want, 2. * tol, (case, "back"))
            pv = south_to_north(want)
            keep = pv.copy()
            hand = falwa(n, pv)
            check_state(rec, bt.State.from_hn2016(g, t, hand), g, t, n, want, tol, (case, "from falwa"))
            rec.ok(np.array_equal(pv, keep) and hand.pv_field is pv, (case, "input"), "modified")
            if nt is None:
                check_state(rec, bt.State.from_hn2016(None, t, hand), None, t, n, want, tol, (case, "own grid"))
        rec.ev(case, (l + m) % 2 == 1 or bg)


def sizes(rec, lo, hi):
    import barotropic as bt
    for n in range(lo, hi):
        lat, lon = util.coords(180. / n)
        la, lo_ = np.deg2rad(lat)[:, None], np.deg2rad(lon)[None, :]
        # degrees 1, and 2 (if resolved): asymmetric in all directions
        want = 1e-5 * (np.sin(la) + .3 * np.cos(la) * np.sin(lo_) + (.2 * np.sin(la) * np.cos(la) * np.cos(lo_) + .1 * np.cos(la)**2 * np.sin(2. * lo_) if n > 2 else 0.))
        for name, kw in (("default", {}), ("dphi", {"dphi": np.deg2rad(180. / n) * np.ones(n + 1)}), ("diff", {"dphi": np.abs(np.gradient(np.deg2rad(lat)))})):
            with rec.guard((n, name)):
                bf = falwa(n, south_to_north(want), **kw)
                s = bt.State.from_hn2016(None, n, bf)
                check_state(rec, s, None, n, n, want, 1e-9, (n, name))
                rec.close([s.grid.dlon, s.grid.dlat], [180. / n, -180. / n], (n, name, "spacing"), rtol=1e-9)
                rec.ok(s.grid == bt.Grid(180. / n), (n, name, "default planet"), lambda: repr(s.grid))
                if name == "default":
                    bf = s.as_hn2016()
                    check_falwa(rec, bf, n, want, 1e-9, (n, "to falwa"))
                    check_state(rec, bt.State.from_hn2016(s.grid, 5, bf), s.grid, 5, n, want, 1e-9, (n, "back"))
            rec.ev((n, name))


def mismatch(rec, n):
    import barotropic as bt
    g = util.cached_grid(180. / n)
    for k in list(range(2, 40)) + [72]:
        s = bt.State(util.cached_grid(180. / k), 0., pv=util.cached_grid(180. / k).fcor2)
        bf = s.as_hn2016()
        if k == n:
            with rec.guard((n, k)):
                check_state(rec, bt.State.from_hn2016(g, 0., bf), g, 0., n, g.fcor2, 1e-9, (n, k))
        else:
            rec.raises((AssertionError, ValueError), lambda: bt.State.from_hn2016(g, 0., bf), (n, k))
        rec.ev((n, k), k != n)


def shape(rec):
    """Only one of the dimensions matches."""
    import barotropic as bt
    from falwa.barotropic_field import BarotropicField
    for n, nlon in itertools.product((2, 4, 6, 9, 12), range(3, 30)):
        g = util.cached_grid(180. / n)
        bf = BarotropicField(np.arange(nlon) * 360. / nlon, np.linspace(-90., 90., n + 1), pv_field=np.zeros((n + 1, nlon)))
        for given in (g, None):
            if nlon == 2 * n:
                with rec.guard((n, nlon)):
                    check_state(rec, bt.State.from_hn2016(given, 0., bf), given, 0., n, np.zeros(g.shape), 1e-12, (n, nlon))
            else:
                rec.raises((AssertionError, ValueError), lambda: bt.State.from_hn2016(given, 0., bf), (n, nlon, given is None))
        bf = BarotropicField(np.arange(2 * n) * 180. / n, np.linspace(-90., 90., nlon), pv_field=np.zeros((nlon, 2 * n)))
        if nlon != n + 1:
            for given in (g, None):
                rec.raises((AssertionError, ValueError), lambda: bt.State.from_hn2016(given, 0., bf), (n, nlon, given is None, "lat"))
        rec.ev((n, nlon), nlon != 2 * n)


def kwargs(rec):
    import barotropic as bt
    for n in (3, 6, 18):
        g = util.cached_grid(180. / n)
        s = bt.State(g, 1., pv=g.fcor2 + (1e-5 * np.cos(g.phi2) * np.cos(g.lam2)))
        area = np.ones(g.shape)
        for rad, part, a, strict in itertools.product((None, 1., 6.37e6), (None, 5, 50), (None, area), (None, True, False)):
            kw = {k: v for k, v in (("planet_radius", rad), ("n_partitions", part), ("area", a), ("return_partitioned_lwa", strict)) if v is not None}
            case = (n, str(sorted(kw)), rad, part, strict)
            with rec.guard(case):
                bf = s.as_hn2016(**kw)
                check_falwa(rec, bf, n, s.pv, 0., case)
                if rad is not None:
                    rec.ok(bf.planet_radius == rad, (case, "radius"), lambda: str(bf.planet_radius))
                rec.ok(bf.n_partitions == (n + 1 if part is None else part), (case, "partitions"), lambda: str(bf.n_partitions))
                rec.ok(a is None or bf.area is area, (case, "area"), "")
                rec.ok(strict is None or bf.return_partitioned_lwa == strict, (case, "partitioned"), "")
            rec.ev(case)


def chains(rec):
    import barotropic as bt
    for res, ops in itertools.product((45., 30., 20.), itertools.chain.from_iterable(itertools.product(("own", "new", "copy"), repeat=k) for k in (1, 2, 3))):
        n = int(180 / res)
        g = util.cached_grid(res)
        nlat, nlon = util.dims(res)
        want = g.fcor2 + 1e-5 * util.wavy(res, [(1, 1, "c", .5), (2, 1, "s", .3), (min(3, nlat - 2), 0, "c", .2)])
        s = bt.State(g, 3., pv=want)
        with rec.guard((res, ops)):
            for i, op in enumerate(ops):
                keep = np.array(s.pv)
                bf = s.as_hn2016()
                new = bt.State.from_hn2016(s.grid if op == "own" else None if op == "new" else bt.Grid(res), float(i), bf)
                rec.ok(np.array_equal(s.pv, keep), (res, ops, i, "input"), "")
                check_state(rec, new, s.grid if op == "own" else None, float(i), n, want, 1e-8, (res, ops, i))
                s = new
        rec.ev((res, ops))
