"""C24: import of datasets."""

import datetime as dt
import itertools

import numpy as np

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of variable sets x names x dimension layouts x coordinate kinds x data types x first longitudes x times, and of all single mutations that have to be refused, against direct placement"
RULE = ("all subsets of the recognized variables (priority), all pairs of detected names, overrides; all layouts of up to 3 additional dimensions with coordinates absent, unique, repeated, "
        "descending or text; all first longitudes of the convention [-360, 360); data types; time as index, scalar, repeated, two-dimensional, absent; round trips of all field sets. All single "
        "mutations of coordinates. Non-trivial: more than one state or a rotated or renamed dataset")
ASSUMPTIONS = ["tolerances of the single precision of the spectral transforms", "round trips are along the time dimension"]

RES = (60., 45., 30.)


def units(tier):
    out = [["subsets", res] for res in RES]
    out += [["names", res] for res in RES]
    out += [["layouts", res, k] for res in (60., 45.) for k in range(11)]
    out += [["longitudes", res, d] for res in (60., 30., 180. / 7., 22.5, 20., 180. / 11.) for d in ("f8", "f4", "i8")]
    out += [["resolutions", i] for i in range(8)]
    out += [["times", res] for res in (60., 45.)]
    out += [["roundtrip", res, a] for res in (60., 30., 20.) for a in range(6)]
    out += [["refuse", res] for res in (60., 30., 22.5)]
    out += [["types", res] for res in RES] + [["kwargs"]] + [["magnitudes", res] for res in (60., 30., 20.)]
    return out


def run_unit(unit, rec):
    globals()[unit[0]](rec, *unit[1:])


def pattern(res, i):
    """Distinguishable absolute vorticity anomaly number i."""
    return 1e-5 * util.wavy(res, [(1, 0, "c", .3 + .1 * i), (1, 1, "c", .5 - .21 * i), (2, 1, "s", .2 + .4 * (i % 3)), (2, 2, "c", .1 * (i % 5)), (1, 1, "s", .05 * i * i)] if util.dims(res)[0] > 4 else
                             [(1, 0, "c", .3 + .1 * i), (1, 1, "c", .5 - .21 * i), (2, 1, "s", .2 + .4 * (i % 3)), (2, 2, "c", .1 * (i % 5))])


def winds(res, i, g=None):
    import barotropic as bt
    g = g or util.cached_grid(res)
    s = bt.State.from_vorticity(g, 0., pattern(res, i))
    return np.asarray(s.u, dtype=float), np.asarray(s.v, dtype=float)


def fill(res, kind, shape, offset=0):
    """Field of kind with leading dimensions of the given shape, elements numbered in row-major order."""
    g = util.cached_grid(res)
    n = int(np.prod(shape, dtype=int))
    out = []
    for i in range(offset, offset + n):
        if kind in "uv":
            out.append(winds(res, i)["uv".index(kind)])
        elif kind == "vo":
            out.append(pattern(res, i))
        else:
            out.append(g.fcor2 + pattern(res, i))
    return np.array(out).reshape(tuple(shape) + g.shape)


def expect(rec, states, n, res, case, offset=0, times=None, grid=None):
    import barotropic as bt
    if not rec.ok(isinstance(states, bt.StateList) and len(states) == n, case, lambda: "{} states instead of {}".format(len(states), n)):
        return
    lat, lon = util.coords(res)
    for i, s in enumerate(states):
        g = s.grid
        if not rec.ok(g.shape == (lat.size, lon.size), (case, i, "grid"), lambda: repr(g)):
            return
        rec.close(g.lat, lat, (case, i, "lat"), rtol=1e-5)
        rec.close(g.lon, lon, (case, i, "lon"), rtol=1e-5)
        rec.close([g.dlon, g.dlat], [res, -res], (case, i, "spacing"), rtol=1e-6)
        rec.close(s.vorticity, pattern(res, offset + i), (case, i, "vorticity"), rtol=0., atol=2e-8)
        if times is not None:
            t = times[i]
            rec.ok(s.time == t and isinstance(s.time, dt.datetime) == isinstance(t, dt.datetime) and not isinstance(s.time, np.ndarray), (case, i, "time"), lambda: "{!r} instead of {!r}".format(s.time, t))


def coords(res):
    lat, lon = util.coords(res)
    return {"latitude": lat, "longitude": lon}


DIMS = ("latitude", "longitude")


def subsets(rec, res):
    """Priority: all subsets of variables, each containing different fields."""
    import barotropic as bt
    import xarray as xr
    names = ("u", "v", "vo", "avo", "pv", "other")
    for k in range(len(names) + 1):
        for sub in itertools.combinations(names, k):
            for order in (sub, sub[::-1]):
                # contents: u,v 0..1, vo 2..3, avo 4..5, pv 6..7
                off = {"u": 0, "v": 0, "vo": 2, "avo": 4, "pv": 6, "other": 8}
                ds = xr.Dataset({x: (("time",) + DIMS, fill(res, "avo" if x in ("pv", "other") else x, (2,), off[x])) for x in order}, {**coords(res), "time": [3., 1.]})
                case = (order,)
                if "u" in sub and "v" in sub:
                    want = 0
                elif "vo" in sub:
                    want = 2
                elif "avo" in sub:
                    want = 4
                elif "pv" in sub:
                    want = 6
                else:
                    rec.raises(ValueError, lambda: bt.io.from_dataset(ds), case)
                    rec.ev(case)
                    continue
                with rec.guard(case):
                    expect(rec, bt.io.from_dataset(ds), 2, res, case, want, [3., 1.])
                rec.ev(case)


U = ["u", "ugrd", "eastward_wind"]
V = ["v", "vgrd", "northward_wind"]
VO = ["vo", "relv", "vorticity", "relative_vorticity"]
AVO = ["avo", "absv", "absolute_vorticity", "pv"]


def names(rec, res):
    import barotropic as bt
    import xarray as xr
    lat, lon = util.coords(res)
    detected = [("A", p) for p in itertools.product(U, V)] + [("B", (x,)) for x in VO] + [("C", (x,)) for x in AVO]
    custom = [("A", ("foo", "bar")), ("A", ("v", "u")), ("A", ("vo", "pv")), ("B", ("foo",)), ("B", ("avo",)), ("C", ("x y",)), ("C", ("vo",)), ("C", ("U",))]
    kinds = {"A": ("u", "v"), "B": ("vo",), "C": ("avo",)}
    for (lo, la, ti), (path, vs) in itertools.product(itertools.product(("longitude", "lon", "x"), ("latitude", "lat", "y"), ("time", "t")), detected + custom):
        override = {}
        if lo == "x":
            override["lon"] = "x"
        if la == "y":
            override["lat"] = "y"
        if ti == "t":
            override["time"] = "t"
        data = {v: ((ti, la, lo), fill(res, k, (2,))) for v, k in zip(vs, kinds[path])}
        if (path, vs) in custom:
            override.update(zip(kinds[path], vs))
        ds = xr.Dataset(data, {la: lat, lo: lon, ti: [-1., 2.]})
        case = (lo, la, ti, path, vs)
        # names that mean something else must not be detected in the custom cases
        if (path, vs) in custom and path == "C" and vs == ("vo",):
            override["vo"] = None
        if (path, vs) in custom and path != "A" and set(vs) & {"u", "v"}:
            continue
        if path == "B" and vs == ("avo",):
            pass
        with rec.guard(case):
            expect(rec, bt.io.from_dataset(ds, names=dict(override) if override else None), 2, res, case, 0, [-1., 2.])
            expect(rec, bt.io.from_dataset(ds, dict(override)), 2, res, case, 0, [-1., 2.])
        rec.ev(case)
    # the same time axis without override is not recognized
    ds = xr.Dataset({"vo": (("t",) + DIMS, fill(res, "vo", (2,)))}, {**coords(res), "t": [-1., 2.]})
    with rec.guard("time not detected"):
        expect(rec, bt.io.from_dataset(ds), 2, res, "time not detected", 0, [0, 0])
        expect(rec, bt.io.from_dataset(ds, time_fill=util.T0), 2, res, "time not detected", 0, [util.T0, util.T0])
    rec.ev("time not detected")
    # data arrays with a recognized or given name
    for name in VO + AVO + ["foo"]:
        kind = "vo" if name in VO else "avo"
        da = xr.DataArray(fill(res, kind, (3,)), {**coords(res), "time": [1, 2, 3]}, ("time",) + DIMS, name=name)
        with rec.guard(("array", name)):
            expect(rec, bt.io.from_dataset(da, None if name != "foo" else {"avo": "foo"}), 3, res, ("array", name), 0, [1, 2, 3])
        rec.ev(("array", name))
    # unrelated variables do not matter, whatever their dimensions
    ds = xr.Dataset({"vo": (("time",) + DIMS, fill(res, "vo", (2,))), "z": (("level", "latitude"), np.zeros((4, lat.size))), "w": ((), 3.), "c": (("time",), [1, 2])}, {**coords(res), "time": [5., 6.], "level": [1, 2, 3, 4]})
    with rec.guard("unrelated"):
        expect(rec, bt.io.from_dataset(ds), 2, res, "unrelated", 0, [5., 6.])
    rec.ev("unrelated")


def layouts(rec, res, shard):
    """All layouts of additional dimensions."""
    import barotropic as bt
    import xarray as xr
    cases = []
    for k in range(4):
        for sizes in itertools.product((1, 2, 3), repeat=k):
            for kinds in itertools.product(("none", "unique", "repeated", "descending", "text"), repeat=k):
                for time in [None] + list(range(k)):
                    for var in ("A", "B"):
                        cases.append((sizes, kinds, time, var))
    dimnames = ("member", "level", "run")
    for sizes, kinds, time, var in cases[shard::11]:
        if len(sizes) == 3 and (max(sizes) == 3 and sizes.count(3) > 1 or var == "A" and time is not None):
            continue
        if time is not None and kinds[time] == "text":
            continue
        dims = [("time" if i == time else dimnames[i]) for i in range(len(sizes))]
        cs = coords(res)
        for d, n, kind in zip(dims, sizes, kinds):
            if kind == "unique":
                cs[d] = 10. + 3. * np.arange(n)
            elif kind == "repeated":
                cs[d] = np.full(n, 4)
            elif kind == "descending":
                cs[d] = -np.arange(n)
            elif kind == "text":
                cs[d] = ["b", "a", "c"][:n]
        variables = ("u", "v") if var == "A" else ("vo",)
        ds = xr.Dataset({v: (tuple(dims) + DIMS, fill(res, v, sizes)) for v in variables}, cs)
        n = int(np.prod(sizes, dtype=int))
        times = [7.5] * n
        if time is not None and kinds[time] != "none":
            idx = np.indices(sizes).reshape(len(sizes), -1)[time]
            times = [cs["time"][j] for j in idx]
        case = (sizes, kinds, time, var)
        try:
            expect(rec, bt.io.from_dataset(ds, time_fill=7.5), n, res, case, 0, times)
        except Exception as e:
            rec.fail(case, "raised {!r}".format(e))
        rec.ev(case, n > 1)
    if shard == 0:
        for sizes in ((0,), (2, 0), (0, 3)):
            dims = dimnames[:len(sizes)]
            ds = xr.Dataset({"vo": (dims + DIMS, fill(res, "vo", (1,) * len(sizes))[(slice(0, 0),) * len(sizes)] if False else np.zeros(sizes + util.dims(res)))}, coords(res))
            with rec.guard(sizes):
                rec.ok(len(bt.io.from_dataset(ds)) == 0, (sizes, "empty"), "")
            rec.ev(sizes)


def longitudes(rec, res, dtype):
    """All first longitudes, all variables."""
    import barotropic as bt
    import xarray as xr
    lat, lon = util.coords(res)
    n = lon.size
    if dtype == "i8" and res != int(res):
        return
    for start in range(-n, n):
        clon = (start + np.arange(n)) * res
        for var in ("A", "B", "C"):
            kinds = {"A": ("u", "v"), "B": ("vo",), "C": ("avo",)}[var]
            data = {k: (("time",) + DIMS, np.roll(fill(res, k, (2,)), -start, axis=-1)) for k in kinds}
            ds = xr.Dataset(data, {"latitude": lat.astype(dtype), "longitude": clon.astype(dtype), "time": [0., 1.]})
            case = (start, var)
            with rec.guard(case):
                expect(rec, bt.io.from_dataset(ds), 2, res, case, 0, [0., 1.])
                if var == "B":
                    # single field, no other dimension
                    expect(rec, bt.io.from_dataset(ds.isel(time=1)), 1, res, (case, "2D"), 1, [1.])
            rec.ev(case, start != 0)


def resolutions(rec, shard):
    """Coordinates in single and double precision for all kinds of resolutions."""
    import barotropic as bt
    import xarray as xr
    for n in list(range(3, 41))[shard::8] + [[48, 150], [60], [72, 192], [75], [90], [100, 240], [120], [144]][shard]:
        res = 180. / n
        lat, lon = util.coords(res)
        for dtype in ("f8", "f4"):
            for origin in (0, n):
                clon = lon - 180. * (origin > 0)
                ds = xr.Dataset({"vo": (DIMS, np.roll(pattern(res, 1), origin, axis=1))}, {"latitude": lat.astype(dtype), "longitude": clon.astype(dtype)})
                case = (n, dtype, origin)
                with rec.guard(case):
                    expect(rec, bt.io.from_dataset(ds), 1, res, case, 1, [0])
                    # coordinates subject to rounding (to multiples of a small number, or in either direction)
                    for k, e in enumerate((2e-5, -2e-5, 2e-5 * (-1.)**np.arange(lon.size), -2e-5 * (-1.)**np.arange(lon.size), 2e-5 * np.sin(7. * np.arange(lon.size)))) if dtype == "f8" else ():
                        off = ds.assign_coords(longitude=clon + e, latitude=lat - (e if np.ndim(e) == 0 else e[:lat.size]))
                        expect(rec, bt.io.from_dataset(off), 1, res, (case, "rounding", k), 1, [0])
                    if dtype == "f8":
                        off = ds.assign_coords(longitude=np.round(clon, 4), latitude=np.round(lat, 4))
                        expect(rec, bt.io.from_dataset(off), 1, res, (case, "decimals"), 1, [0])
                rec.ev(case)


def times(rec, res):
    import barotropic as bt
    import xarray as xr
    t0 = util.T0
    h = dt.timedelta(hours=1)
    us = dt.timedelta(microseconds=1)
    axes = {
        "int": [3, -1, 0, 10**12], "float": [.1, -1e9, 1e-9, 5.], "repeated": [1., 1., 2., 1.], "int32": np.array([1, 2, 3, 4], dtype=np.int32), "float32": np.array([.5, 1., -2., 4.], dtype=np.float32),
        "dates": [t0, t0 + h, t0 - h, t0 + 1000 * h], "micro": [t0, t0 + us, t0 + 999999 * us, t0 - us],
        "old": [dt.datetime(1700, 1, 1), dt.datetime(1969, 12, 31, 23, 59, 59, 999999), dt.datetime(1970, 1, 1), dt.datetime(1900, 2, 28, 12)],
        "future": [dt.datetime(2100, 2, 28, 23), dt.datetime(2038, 1, 19, 3, 14, 8), dt.datetime(2200, 6, 1), dt.datetime(2024, 2, 29, 1, 2, 3, 4)],
        "dst": [dt.datetime(2021, 3, 28, 2, 30), dt.datetime(2021, 3, 28, 3, 30), dt.datetime(2021, 10, 31, 2, 30), dt.datetime(2021, 10, 31, 1, 30)],
        "repeated dates": [t0, t0, t0 + h, t0],
    }
    for name, axis in axes.items():
        want = [x.item() if isinstance(x, np.generic) else x for x in axis]
        units_ = (None,) if not isinstance(want[0], dt.datetime) else ("us", "ns", "s") if all(x.microsecond == 0 for x in want) else ("us", "ns")
        for unit in units_:
            vals = np.array(axis) if unit is None else np.array(axis, dtype="datetime64[{}]".format(unit))
            field = fill(res, "vo", (4,))
            uv = fill(res, "u", (4,)), fill(res, "v", (4,))
            dss = {
                "index": xr.Dataset({"vo": (("time",) + DIMS, field)}, {**coords(res), "time": vals}),
                "wind": xr.Dataset({"u": (("time",) + DIMS, uv[0]), "v": (("time",) + DIMS, uv[1])}, {**coords(res), "time": vals}),
                "non-index": xr.Dataset({"vo": (("step",) + DIMS, field)}, {**coords(res), "time": (("step",), vals)}),
                "two-dimensional": xr.Dataset({"vo": (("run", "lead") + DIMS, field.reshape((2, 2) + field.shape[1:]))}, {**coords(res), "time": (("run", "lead"), vals.reshape(2, 2))}),
            }
            for k, ds in dss.items():
                case = (name, unit, k)
                with rec.guard(case):
                    expect(rec, bt.io.from_dataset(ds), 4, res, case, 0, want)
                    expect(rec, bt.io.from_dataset(ds, time_fill=99.), 4, res, (case, "time_fill not needed"), 0, want)
                rec.ev(case)
            for i in range(4):
                case = (name, unit, "scalar", i)
                with rec.guard(case):
                    for ds in (dss["index"].isel(time=i), dss["index"].isel(time=[i]), dss["wind"].isel(time=i)):
                        expect(rec, bt.io.from_dataset(ds), 1, res, case, i, [want[i]])
                    expect(rec, bt.io.from_dataset(dss["index"].isel(time=i).expand_dims("member")), 1, res, case, i, [want[i]])
                    out = bt.io.from_dataset(xr.concat([dss["index"].isel(time=i), dss["index"].isel(time=i)], "member"))
                    rec.ok([s.time for s in out] == [want[i]] * 2, (case, "members"), lambda: repr([s.time for s in out]))
                rec.ev(case)
    # numeric times that were decoded to time differences (e.g. by xarray from the units of exported files)
    secs = np.array([0., 3600., -90., 1e7])
    for unit in ("s", "ms", "us", "ns"):
        vals = secs.astype(int).astype("timedelta64[s]").astype("timedelta64[{}]".format(unit))
        for k, ds in {"index": xr.Dataset({"vo": (("time",) + DIMS, fill(res, "vo", (4,)))}, {**coords(res), "time": vals}),
                      "non-index": xr.Dataset({"vo": (("step",) + DIMS, fill(res, "vo", (4,)))}, {**coords(res), "time": (("step",), vals)})}.items():
            case = ("difference", unit, k)
            with rec.guard(case):
                out = bt.io.from_dataset(ds)
                expect(rec, out, 4, res, case, 0, secs.tolist())
                expect(rec, bt.io.from_dataset(ds.isel({ds["vo"].dims[0]: 1})), 1, res, (case, "scalar"), 1, [3600.])
                rec.ok(all(isinstance(s.time, (int, float)) for s in out) and repr(out[1]) == "<barotropic.State t = 60.0 min>", (case, "text"), lambda: repr([s.time for s in out]))
            rec.ev(case)
    for fillv in (0, -3.5, np.float64(2.), t0, "text", None):
        ds = xr.Dataset({"vo": (("member",) + DIMS, fill(res, "vo", (2,)))}, coords(res))
        with rec.guard(("fill", fillv)):
            expect(rec, bt.io.from_dataset(ds, None, None, fillv), 2, res, ("fill", fillv), 0, [fillv] * 2)
            expect(rec, bt.io.from_dataset(ds, time_fill=fillv), 2, res, ("fill", fillv), 0, [fillv] * 2)
        rec.ev(("fill", str(fillv)))
    with rec.guard("default"):
        expect(rec, bt.io.from_dataset(ds), 2, res, "default", 0, [0, 0])


def roundtrip(rec, res, axis):
    import barotropic as bt
    import xarray as xr
    t0 = util.T0
    us = dt.timedelta(microseconds=1)
    axes = [[0., 600., 1200.], [5, 3, -1], [1., 1., 1.], [t0, t0 + 7 * us, t0 - 123456789 * us], [np.float64(.25), np.float64(.5), np.float64(1.)], [dt.datetime(1900, 1, 1), dt.datetime(2100, 1, 1), dt.datetime(2000, 2, 29)]]
    kw = [{}, {"rsphere": 2.5e7, "omega": -1.1e-5}, {"ntrunc": 2}, {"legfunc": "computed"}, {"omega": 2e-5}, {"rsphere": 1000.}][axis]
    g = bt.Grid(res, **kw)
    lat, lon = util.coords(res)
    for n in (1, 2, 3):
        ss = [bt.State.from_vorticity(g, t, pattern(res, i)) for i, t in enumerate(axes[axis][:n])]
        fields = {"u,v": ("u", "v"), "vo": {"vo": "vorticity"}, "vorticity": "vorticity", "avo": "avo", "pv": ["pv"], "renamed": {"eastward_wind": "u", "northward_wind": lambda s: s.v}, "all": ("u", "v", "pv", "avo", "vorticity", "enstrophy")}
        for name, f in fields.items():
            case = (n, name)
            with rec.guard(case):
                ds = bt.io.as_dataset(ss, f)
                decoded = xr.decode_cf(ds, decode_timedelta=True) if ds["time"].attrs.get("units") == "s" and axes[axis][0] != .25 else ds
                for d in (ds, decoded, ds.roll(longitude=lon.size // 2, roll_coords=True).assign_coords(longitude=np.roll(lon, lon.size // 2) - 360. * (np.arange(lon.size) < lon.size // 2))):
                    back = bt.io.from_dataset(d, grid_kwargs=kw)
                    rec.ok(len(back) == n, (case, "length"), lambda: str(len(back)))
                    for a, b in zip(ss, back):
                        rec.ok(a.grid == b.grid and repr(a.grid) == repr(b.grid), (case, "grid"), lambda: "{!r} {!r}".format(a.grid, b.grid))
                        rec.ok(a.time == b.time, (case, "time"), lambda: "{!r} {!r}".format(a.time, b.time))
                        rec.close(b.pv, a.pv, (case, "pv"), rtol=1e-4)
                        rec.close(b.u, a.u, (case, "u"), rtol=0., atol=2e-5 * (g.rsphere * (abs(g.omega) + 1e-5)))
                        rec.close(b.vorticity, a.vorticity, (case, "vorticity"), rtol=0., atol=2e-5 * (abs(g.omega) + 1e-5))
            rec.ev(case)


def magnitudes(rec, res):
    """Fields of any magnitude."""
    import barotropic as bt
    import xarray as xr
    for scale, radius in itertools.product((1e-15, 1e-10, 1e-5, 1., 1e5, 1e9), (1e-3, 1., 1e7)):
        kw = {"rsphere": radius, "omega": scale}
        g = bt.Grid(res, **kw)
        zs = [scale * 1e5 * pattern(res, i) for i in (0, 1)]
        ss = [bt.State.from_vorticity(g, t, z) for t, z in zip((0., 3.), zs)]
        stack = lambda f: np.array([np.asarray(f(s), dtype=float) for s in ss])
        f = {"u": stack(lambda s: s.u), "v": stack(lambda s: s.v), "vo": np.array(zs), "avo": np.array(zs) + g.fcor2, "pv": np.array(zs) + g.fcor2}
        for names in (("u", "v"), ("vo",), ("avo",), ("pv",)):
            case = (scale, radius, names)
            ds = xr.Dataset({x: (("time",) + DIMS, f[x]) for x in names}, {**coords(res), "time": [0., 3.]})
            with rec.guard(case):
                back = bt.io.from_dataset(ds, grid_kwargs=kw)
                for i, (s, z) in enumerate(zip(back, zs)):
                    rec.close(s.vorticity, z, (case, i, "vorticity"), rtol=0., atol=1e-4 * scale)
                    rec.close(s.u, f["u"][i], (case, i, "u"), rtol=0., atol=1e-4 * scale * radius)
                rec.ok(len(back) == 2, case, "length")
                out = bt.io.as_dataset(ss, {x: {"vo": "vorticity"}.get(x, x) for x in names})
                for x in names:
                    rec.close(out[x].values, f[x], (case, x, "exported"), rtol=0., atol=2e-5 * scale * (radius if x in "uv" else 1.))
            rec.ev(case)


def refuse(rec, res):
    import barotropic as bt
    import xarray as xr
    lat, lon = util.coords(res)
    nlat, nlon = lat.size, lon.size

    def make(lat=lat, lon=lon, lan="latitude", lon_name="longitude", order=None, extra=("time",)):
        shape = (2,) * len(extra) + (len(lat), len(lon))
        dims = tuple(extra) + (lan, lon_name)
        ds = xr.Dataset({"vo": (dims, np.zeros(shape))}, {lan: lat, lon_name: lon})
        return ds if order is None else ds.transpose(*order)

    with rec.guard("valid"):
        rec.ok(len(bt.io.from_dataset(make())) == 2, "valid", "")
    bad = {}
    # orientation and order
    bad["lat increasing"] = make(lat=lat[::-1])
    bad["lon decreasing"] = make(lon=lon[::-1])
    bad["transposed"] = make(order=("time", "longitude", "latitude"))
    bad["time last"] = make(order=("latitude", "longitude", "time"))
    bad["time between"] = make(order=("latitude", "time", "longitude"))
    bad["lon first"] = make(order=("longitude", "time", "latitude"))
    # missing coordinates
    bad["no lat"] = make(lan="y")
    bad["no lon"] = make(lon_name="x")
    bad["no lat values"] = make().drop_vars("latitude")
    bad["no lon values"] = make().drop_vars("longitude")
    bad["names only"] = make().drop_vars(["longitude", "latitude"])
    bad["lat data variable"] = make(lan="y").assign(latitude=(("y",), lat))
    # regional, irregular
    for k in range(1, nlat - 2):
        bad["north of", k] = make(lat=lat[:-k])
        bad["south of", k] = make(lat=lat[k:])
    for k in range(1, nlon - 1):
        bad["west of", k] = make(lon=lon[:-k])
        bad["east of", k] = make(lon=lon[k:])
    bad["half"] = make(lat=lat[:nlat // 2 + 1], lon=lon[:nlon // 2])
    bad["every other lon"] = make(lon=lon[::2])
    bad["every other lat"] = make(lat=lat[::2])
    bad["periodic"] = make(lon=np.append(lon, 360.))
    bad["offset lon"] = make(lon=lon + res / 2.)
    bad["cell centers"] = make(lat=lat[:-1] - res / 2., lon=lon + res / 2.)
    bad["cell centers, lat only"] = make(lat=lat[:-1] - res / 2.)
    bad["shifted lat"] = make(lat=lat - res)
    bad["shifted lat 2"] = make(lat=lat + res / 2.)
    bad["distance from south pole"] = make(lat=lat + 90.)
    bad["half lat"] = make(lat=lat / 2.)
    bad["radians"] = make(lat=np.deg2rad(lat), lon=np.deg2rad(lon))
    bad["one radians"] = make(lat=np.deg2rad(lat))
    for j in range(nlat):
        x = lat.copy()
        x[j] += res / 4. if j else -res / 4.
        bad["lat moved", j] = make(lat=x)
    for i in range(nlon):
        x = lon.copy()
        x[i] += res / 4.
        bad["lon moved", i] = make(lon=x)
    for part in (.02, .1):
        for sign in (1., -1.):
            for j in range(nlat):
                x = lat.copy()
                x[j] += sign * part * res
                bad["lat moved", j, sign * part] = make(lat=x)
            for i in range(nlon):
                x = lon.copy()
                x[i] += sign * part * res
                bad["lon moved", i, sign * part] = make(lon=x)
        bad["stretched lat", part] = make(lat=90. - (90. - lat) * (1. + part))
        bad["squeezed lat", part] = make(lat=90. - (90. - lat) * (1. - part))
        bad["stretched lon", part] = make(lon=lon * (1. + part))
        bad["squeezed lon", part] = make(lon=lon * (1. - part))
        bad["offset lon", part] = make(lon=lon + part * res)
        bad["offset lat", part] = make(lat=lat - part * res)
    for j in range(nlat - 1):
        x = lat.copy()
        x[[j, j + 1]] = x[[j + 1, j]]
        bad["lat swapped", j] = make(lat=x)
    for i in range(nlon - 1):
        x = lon.copy()
        x[[i, i + 1]] = x[[i + 1, i]]
        bad["lon swapped", i] = make(lon=x)
        x = lon.copy()
        x[i + 1:] -= 360.
        bad["lon wraps", i] = make(lon=x)
    bad["gaussian"] = make(lat=np.rad2deg(np.arcsin(np.polynomial.legendre.leggauss(nlat)[0][::-1])))
    bad["constant lon"] = make(lon=0. * lon)
    bad["constant lat"] = make(lat=0. * lat)
    bad["nan"] = make(lat=np.where(np.arange(nlat) == 1, np.nan, lat))
    bad["one lon"] = make(lon=lon[:1])
    bad["one lat"] = make(lat=lat[:1])
    bad["no points"] = make(lat=lat[:0], lon=lon[:0])
    for name, ds in bad.items():
        rec.raises(Exception, lambda: bt.io.from_dataset(ds), name)
        rec.ev(name)
    # fields
    z = np.zeros((2,) + (nlat, nlon))
    c = coords(res)
    d = ("time",) + DIMS
    fields = {
        "nothing": {}, "u only": {"u": (d, z)}, "v only": {"v": (d, z)}, "unknown": {"x": (d, z)}, "winds of different dims": {"u": (d, z), "v": (DIMS, z[0])},
        "winds of different order": {"u": (("a", "b") + DIMS, z[None]), "v": (("b", "a") + DIMS, z[:, None])}, "no horizontal dims": {"vo": (("time",), [1., 2.])}, "lat only": {"vo": (("time", "latitude"), z[:, :, 0])},
        "lon only": {"vo": (("time", "longitude"), z[:, 0])}, "scalar": {"vo": ((), 1.)},
    }
    for name, f in fields.items():
        if name == "winds of different order":
            f = {"u": (("a", "b") + DIMS, np.zeros((2, 3, nlat, nlon))), "v": (("b", "a") + DIMS, np.zeros((3, 2, nlat, nlon)))}
        rec.raises(Exception, lambda: bt.io.from_dataset(xr.Dataset(f, c)), name)
        rec.ev(name)
    ok = xr.Dataset({"vo": (d, z)}, c)
    for over in ({"vo": "nothing"}, {"lat": "y"}, {"lon": "x"}, {"u": "a", "v": "b"}):
        rec.raises(Exception, lambda: bt.io.from_dataset(ok, over), str(over))
        rec.ev(str(over))
    rec.raises(ValueError, lambda: bt.io.from_dataset(ok.drop_vars(["latitude"]).rename(latitude="y")), "ValueError lat")
    rec.raises(ValueError, lambda: bt.io.from_dataset(xr.Dataset({"vo": (("time", "latitude", "x"), z)}, {"latitude": lat})), "ValueError lon")


def types(rec, res):
    import barotropic as bt
    import xarray as xr
    lat, lon = util.coords(res)
    g = util.cached_grid(res)
    for var, dtype in itertools.product(("A", "B", "C"), ("f8", "f4", ">f4", ">f8", "<f8")):
        kinds = {"A": ("u", "v"), "B": ("vo",), "C": ("avo",)}[var]
        for layout in ("C", "F", "strided"):
            data = {}
            for k in kinds:
                x = fill(res, k, (2,)).astype(dtype)
                x = x if layout == "C" else np.asfortranarray(x) if layout == "F" else np.repeat(x, 2, axis=-1)[..., ::2]
                data[k] = (("time",) + DIMS, x)
            ds = xr.Dataset(data, {**coords(res), "time": [0., 1.]})
            before = ds.copy(deep=True)
            case = (var, dtype, layout)
            with rec.guard(case):
                expect(rec, bt.io.from_dataset(ds), 2, res, case, 0, [0., 1.])
                rec.ok(ds.identical(before), (case, "input modified"), lambda: repr(ds))
                # results of other xarray operations
                expect(rec, bt.io.from_dataset(ds.transpose("latitude", ...).transpose("time", ...)), 2, res, (case, "transposed"), 0, [0., 1.]) if True else None
            rec.ev(case)
    # transposed views, integer winds
    x = fill(res, "vo", (2,))
    ds = xr.Dataset({"vo": (("longitude", "latitude", "time"), x.T)}, {**coords(res), "time": [0., 1.]}).transpose("time", "latitude", "longitude")
    with rec.guard("views"):
        expect(rec, bt.io.from_dataset(ds), 2, res, "views", 0, [0., 1.])
    for dtype in ("i2", "i4", "i8"):
        u, v = np.round(winds(res, 0)[0]).astype(dtype), np.round(winds(res, 0)[1]).astype(dtype)
        ds = xr.Dataset({"u": (DIMS, u), "v": (DIMS, v)}, coords(res))
        with rec.guard(dtype):
            s = bt.io.from_dataset(ds)[0]
            w = bt.State.from_wind(g, 0., u.astype(float), v.astype(float))
            rec.close(s.pv, w.pv, dtype, rtol=1e-6)
            rec.close(s.u, w.u, dtype, rtol=1e-4)
        rec.ev(dtype)


def kwargs(rec):
    import barotropic as bt
    import xarray as xr
    res = 30.
    for om, rs, nt, leg in itertools.product((None, 1e-5, -3e-5), (None, 1e6, 3e7), (None, 3), (None, "computed")):
        kw = {k: v for k, v in (("omega", om), ("rsphere", rs), ("ntrunc", nt), ("legfunc", leg)) if v is not None}
        want = bt.Grid(res, **kw)
        case = tuple(kw.items())
        with rec.guard(case):
            for var, f in (("vo", pattern(res, 1)), ("avo", want.fcor2 + pattern(res, 1))):
                ds = xr.Dataset({var: (DIMS, f)}, coords(res))
                s = bt.io.from_dataset(ds, grid_kwargs=dict(kw))[0]
                rec.ok(s.grid == want and repr(s.grid) == repr(want), (case, var), lambda: repr(s.grid))
                rec.close(s.vorticity, bt.State.from_vorticity(want, 0., pattern(res, 1)).vorticity, (case, var), rtol=0., atol=1e-10)
        rec.ev(case)
