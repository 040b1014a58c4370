"""C23: export of states to datasets."""

import collections
import datetime as dt
import itertools
import types

import numpy as np

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of collection kinds x lengths x field specifications x kinds of values x concatenation dimensions x time axes x grids against values read from the states"
RULE = ("all combinations of collection kind (state, list, tuple, iterator, generator, state list, dict values), length 0..4, field specification (name, list, tuple, set, iterator, mapping to "
        "names, functions or both), values (2D, latitude, longitude, scalar, integer, boolean, complex, text), concatenation dimension and coordinate, time axis and grid; all values that "
        "are not supported. Oracle: values read from the individual states. Non-trivial: at least one state and one field")
ASSUMPTIONS = ["requested names are no dimension names"]

RES = (60., 45., 30., 20.)
AXES = {
    "float": [0., 1.5, -3., 1e9, 7.25],
    "int": [5, 0, -7, 10, 11],
    "same": [2., 2., 2., 2., 2.],
    "numpy": [np.float64(1.), np.float64(3.), np.float64(2.), np.float64(4.), np.float64(5.)],
    "datetime": [util.T0 + k * dt.timedelta(hours=7, microseconds=k) for k in (0, 3, 1, 400, 1000)],
    "olddate": [dt.datetime(1850, 1, 1) + k * dt.timedelta(days=1000) for k in range(5)],
}
KINDS = {
    "list": list, "tuple": tuple, "iterator": iter, "generator": lambda s: (x for x in list(s)), "statelist": None,
    "map": lambda s: map(lambda x: x, s), "values": lambda s: dict(enumerate(s)).values(), "deque": collections.deque,
}

# function of a state, dimensions of its values
GETTERS = {
    "2D": (lambda s: s.u + 2. * s.v, ("latitude", "longitude")),
    "lat": (lambda s: s.u.mean(axis=1), ("latitude",)),
    "lon": (lambda s: s.v[1], ("longitude",)),
    "scalar": (lambda s: float(s.pv.max()), ()),
    "npscalar": (lambda s: s.pv.min(), ()),
    "int": (lambda s: int(1e6 * abs(s.pv[1, 1])), ()),
    "bool": (lambda s: s.u > 0., ("latitude", "longitude")),
    "complex": (lambda s: s.u + 1j * s.v, ("latitude", "longitude")),
    "float32": (lambda s: s.u.astype(np.float32), ("latitude", "longitude")),
    "integers": (lambda s: np.arange(s.grid.nlat) + int(1e6 * abs(s.pv[1, 1])), ("latitude",)),
    "strided": (lambda s: s.u[::-1, ::-1], ("latitude", "longitude")),
}
NAMES = {
    "u": lambda s: s.u, "v": lambda s: s.v, "pv": lambda s: s.pv, "avo": lambda s: s.avo, "vorticity": lambda s: s.vorticity,
    "streamfunction": lambda s: s.streamfunction, "enstrophy": lambda s: s.enstrophy, "eddy_enstrophy": lambda s: s.eddy_enstrophy,
}


def units(tier):
    n = range(5)
    out = [["kinds", res, axis] for res in RES for axis in AXES]
    out += [["fields", res, k] for res in RES for k in (1, 3)]
    out += [["concat", res, axis] for res in (60., 30.) for axis in AXES]
    out += [["refuse", res] for res in (60., 30.)] + [["empty"]]
    out += [["fields", 2.5, 2], ["fields", 90., 3], ["fields", 90., 4], ["fields", 60., 4]]          # as many states as coordinates
    if tier == "thorough":
        out += [["fields", res, k] for res in (36., 15., 10., 7.5, 2., 1.5) for k in (1, 2, 5)]
    return out


def run_unit(unit, rec):
    {"kinds": kinds, "fields": fields, "concat": concat, "refuse": refuse, "empty": empty}[unit[0]](rec, *unit[1:])


def states(res, axis, n):
    import barotropic as bt
    g = util.cached_grid(res)
    om = g.omega
    return [bt.State(g, t, pv=g.fcor2 + om * util.wavy(res, [(1, 0, "c", .1 * (i + 1)), (2, 1, "c", .2 - .3 * i), (2, 2, "s", .1)])) for i, t in enumerate(AXES[axis][:n])]


def values(x):
    return np.asarray(x.values)


def check(rec, ds, ss, want, dim, coord, case):
    """want: {name: (function, dims)}"""
    import xarray as xr
    g = ss[0].grid
    nlat, nlon = g.shape
    if not rec.ok(isinstance(ds, xr.Dataset), case, lambda: repr(type(ds))):
        return
    with rec.guard(case):
        rec.ok(set(ds.data_vars) == set(want), (case, "variables"), lambda: "{} instead of {}".format(list(ds.data_vars), list(want)))
        rec.ok({"latitude", "longitude", "time", dim} == set(ds.coords), (case, "coordinates"), lambda: str(list(ds.coords)))
        rec.ok(ds["latitude"].dims == ("latitude",) and ds["longitude"].dims == ("longitude",) and ds["time"].dims == ("time",) and ds[dim].dims == (dim,), (case, "coordinate dims"), lambda: str(ds.coords))
        lat, lon = util.coords(180. / (nlat - 1))
        rec.close(values(ds["latitude"]), lat, (case, "latitude"), rtol=1e-9)
        rec.close(values(ds["longitude"]), lon, (case, "longitude"), rtol=1e-9)
        rec.ok(ds["latitude"].attrs.get("units") == "degrees_north" and ds["longitude"].attrs.get("units") == "degrees_east", (case, "units"), lambda: str(ds["latitude"].attrs))
        t = values(ds["time"])
        if isinstance(ss[0].time, dt.datetime):
            same = [np.datetime64(s.time, "us") for s in ss] == list(t.astype("datetime64[us]"))
            rec.ok("units" not in ds["time"].attrs, (case, "units of dates"), lambda: str(ds["time"].attrs))
        else:
            same = [float(s.time) for s in ss] == t.tolist()
            rec.ok(ds["time"].attrs.get("units") == "s", (case, "units of time"), lambda: str(ds["time"].attrs))
        rec.ok(same, (case, "time"), lambda: "{} instead of {}".format(t, [s.time for s in ss]))
        if dim != "time":
            rec.ok(values(ds[dim]).tolist() == list(coord), (case, "coordinate"), lambda: "{} instead of {}".format(values(ds[dim]), coord))
        for name, (f, dims) in want.items():
            if not rec.ok(ds[name].dims == (dim,) + dims, (case, name, "dims"), lambda: "{} instead of {}".format(ds[name].dims, (dim,) + dims)):
                continue
            ref = np.array([f(s) for s in ss])
            got = values(ds[name])
            rec.ok(got.dtype.kind == ref.dtype.kind, (case, name, "type"), lambda: "{} instead of {}".format(got.dtype, ref.dtype))
            if got.dtype.kind == "b":
                rec.ok(np.array_equal(got, ref), (case, name), "values differ")
            else:
                rec.close(got, ref, (case, name), rtol=1e-6 if got.dtype == np.float32 else 1e-12)


def kinds(rec, res, axis):
    import barotropic as bt
    for n in range(1, 6):
        ss = states(res, axis, n)
        for kind, make in KINDS.items():
            make = make or bt.StateList
            case = (n, kind)
            with rec.guard(case):
                ds = bt.io.as_dataset(make(ss))
                check(rec, ds, ss, {"u": (NAMES["u"], ("latitude", "longitude")), "v": (NAMES["v"], ("latitude", "longitude"))}, "time", None, case)
                ds = bt.io.as_dataset(states=make(ss), fields=("pv",), concat_dim="time")
                check(rec, ds, ss, {"pv": (NAMES["pv"], ("latitude", "longitude"))}, "time", None, (case, "keywords"))
            rec.ev(case)
        with rec.guard((n, "method")):
            ds = bt.StateList(ss).as_dataset("avo")
            check(rec, ds, ss, {"avo": (NAMES["avo"], ("latitude", "longitude"))}, "time", None, (n, "method"))
            ds = bt.StateList(ss).as_dataset(fields={"z": "vorticity"}, concat_dim="time")
            check(rec, ds, ss, {"z": (NAMES["vorticity"], ("latitude", "longitude"))}, "time", None, (n, "method, keywords"))
        rec.ev((n, "method"))
        if n == 1:
            with rec.guard("single"):
                ds = bt.io.as_dataset(ss[0])
                check(rec, ds, ss, {"u": (NAMES["u"], ("latitude", "longitude")), "v": (NAMES["v"], ("latitude", "longitude"))}, "time", None, "single")
            rec.ev("single")


def fields(rec, res, n):
    import barotropic as bt
    ss = states(res, "float", n)
    d = ("latitude", "longitude")
    dims = {k: () if "enstrophy" in k and np.ndim(f(ss[0])) == 0 else d for k, f in NAMES.items()}
    names = list(NAMES)
    for name in names:
        with rec.guard(name):
            check(rec, bt.io.as_dataset(ss, name), ss, {name: (NAMES[name], dims[name])}, "time", None, name)
        rec.ev(name)
    forms = {"list": list, "tuple": tuple, "iterator": iter, "set": set, "keys": lambda x: dict.fromkeys(x).keys(), "generator": lambda x: (y for y in x), "array": np.array}
    for pair in itertools.permutations(names, 2):
        for form, make in forms.items():
            case = (pair, form)
            with rec.guard(case):
                check(rec, bt.io.as_dataset(ss, make(pair)), ss, {k: (NAMES[k], dims[k]) for k in pair}, "time", None, case)
            rec.ev(case)
    # mappings: new names for attributes, functions, mixtures, exchanged names
    for a, b in itertools.permutations(GETTERS, 2):
        case = (a, b)
        with rec.guard(case):
            m = {"x": GETTERS[a][0], "u": GETTERS[b][0], "y": "v"}
            check(rec, bt.io.as_dataset(ss, m), ss, {"x": GETTERS[a], "u": GETTERS[b], "y": (NAMES["v"], d)}, "time", None, case)
        rec.ev(case)
    class Name(str):
        pass
    for name in names:
        for kind in (np.str_, Name):
            with rec.guard((name, kind.__name__)):
                check(rec, bt.io.as_dataset(ss, kind(name)), ss, {name: (NAMES[name], dims[name])}, "time", None, (name, kind.__name__))
            rec.ev((name, kind.__name__))
    for kind in (types.MappingProxyType, collections.UserDict, collections.ChainMap, collections.OrderedDict, lambda x: collections.defaultdict(None, x)):
        with rec.guard(repr(kind)):
            check(rec, bt.io.as_dataset(ss, kind({"x": "v", "lat": GETTERS["lat"][0]})), ss, {"x": (NAMES["v"], d), "lat": GETTERS["lat"]}, "time", None, repr(kind))
        rec.ev(repr(kind))
    for a, b in itertools.permutations(names, 2):
        case = (a, b, "exchanged")
        with rec.guard(case):
            m = collections.OrderedDict([(a, b), (b, a)])
            check(rec, bt.io.as_dataset(ss, m), ss, {a: (NAMES[b], dims[b]), b: (NAMES[a], dims[a])}, "time", None, case)
        rec.ev(case)
    with rec.guard("all"):
        m = {k: v[0] for k, v in GETTERS.items()}
        m.update({k + "_": k for k in names})
        w = dict(GETTERS)
        w.update({k + "_": (NAMES[k], dims[k]) for k in names})
        check(rec, bt.io.as_dataset(ss, m), ss, w, "time", None, "all")
        check(rec, bt.io.as_dataset(ss, []), ss, {}, "time", None, "none")
        check(rec, bt.io.as_dataset(ss, {}), ss, {}, "time", None, "none")
        rec.ev("all")
    # bound methods, partial functions, user attributes
    for s, k in zip(ss, range(9)):
        s.label = 3 * k
        s.profile = np.arange(s.grid.nlat) * (k + 1.)
    with rec.guard("attributes"):
        check(rec, bt.io.as_dataset(ss, ["label", "profile"]), ss, {"label": (lambda s: s.label, ()), "profile": (lambda s: s.profile, ("latitude",))}, "time", None, "attributes")
        rec.ev("attributes")


def concat(rec, res, axis):
    import barotropic as bt
    d = ("latitude", "longitude")
    coords = {"int": [4, 2, 9, 0, 1], "float": [.5, -1., 3., 7., 2.], "text": ["a", "c", "b", "e", "d"], "same": [1, 1, 1, 1, 1], "npfloat": [np.float64(3.), np.float64(1.), np.float64(2.), np.float64(0.), np.float64(5.)]}
    for n in (1, 2, 3, 5):
        for name, vals in coords.items():
            ss = states(res, axis, n)
            for s, x in zip(ss, vals):
                s.member = x
            case = (n, name)
            with rec.guard(case):
                check(rec, bt.io.as_dataset(ss, concat_dim="member"), ss, {"u": (NAMES["u"], d), "v": (NAMES["v"], d)}, "member", vals[:n], case)
                # not all states have it
                check(rec, bt.io.as_dataset(ss, ["pv"], "number"), ss, {"pv": (NAMES["pv"], d)}, "number", list(range(n)), (case, "no attribute"))
                check(rec, bt.StateList(ss).as_dataset({"m": lambda s: s.member * 2, "a": "avo", "l": GETTERS["lat"][0]}, "member"), ss,
                      {"m": (lambda s: s.member * 2, ()), "a": (NAMES["avo"], d), "l": GETTERS["lat"]}, "member", vals[:n], (case, "method")) if name != "text" else None
                if n > 1:
                    for missing in range(n):
                        ss = states(res, axis, n)
                        for i, (s, x) in enumerate(zip(ss, vals)):
                            if i != missing:
                                s.member = x
                        check(rec, bt.io.as_dataset(iter(ss), "v", concat_dim="member"), ss, {"v": (NAMES["v"], d)}, "member", list(range(n)), (case, "missing", missing))
                # a state property as index
                ss = states(res, axis, n)
                if np.ndim(ss[0].enstrophy) == 0:
                    check(rec, bt.io.as_dataset(ss, "u", "enstrophy"), ss, {"u": (NAMES["u"], d)}, "enstrophy", [s.enstrophy for s in ss], (case, "enstrophy"))
            rec.ev(case)


def refuse(rec, res):
    import barotropic as bt
    g = util.cached_grid(res)
    ss = states(res, "float", 3)
    nlat, nlon = g.shape
    shapes = [(nlat + 1,), (nlon + 1,), (1,), (2,), (nlat, nlon, 2), (1, nlat, nlon), (nlon, nlat), (nlat, 1), (1, nlon), (nlat - 1, nlon), (nlat, nlon - 1), (nlat, nlat, 1, 1)]
    for shape in shapes:
        if shape in ((nlat,), (nlon,), (nlat, nlon)):
            continue
        for n in (1, 3):
            rec.raises(Exception, lambda: bt.io.as_dataset(ss[:n], {"x": lambda s: np.zeros(shape)}), (shape, n))
            rec.raises(Exception, lambda: bt.io.as_dataset(ss[:n], {"u": "u", "x": lambda s: np.zeros(shape)}, "member"), (shape, n))
            rec.ev((shape, n))
    for name in ("nothing", "U", "uu"):
        rec.raises(AttributeError, lambda: bt.io.as_dataset(ss, name), name)
        rec.raises(AttributeError, lambda: bt.io.as_dataset(ss, ["u", name]), name)
        rec.raises(AttributeError, lambda: bt.io.as_dataset(ss, {"x": name}), name)
        rec.ev(name)
    other = states(45., "float", 2)
    for mix in (ss[:1] + other[:1], other + ss, ss + [bt.State(util.grid(res, "slow"), 0., pv=g.fcor2)]):
        rec.raises((AssertionError, ValueError), lambda: bt.io.as_dataset(mix), "grids")
        rec.ev(len(mix))
    for bad in ([1, 2], ["u"], [ss[0], None], [ss[0], ss[1].pv]):
        rec.raises(TypeError, lambda: bt.io.as_dataset(bad), "states")
        rec.ev(str(bad)[:20])
    if "spectral" not in g.__dict__:
        n = ss[0].pv_spectral.shape[0]
        if n not in (nlat, nlon):
            for m in (1, 3):
                rec.raises(Exception, lambda: bt.io.as_dataset(ss[:m], "pv_spectral"), "spectral")
                rec.ev(("spectral", m))


def empty(rec):
    import barotropic as bt
    import xarray as xr
    for name, x in {"list": [], "tuple": (), "iterator": iter([]), "generator": (x for x in ()), "statelist": bt.StateList([]), "set": set(), "map": map(len, []), "dict": {}}.items():
        for kw in ({}, {"fields": ["pv"]}, {"concat_dim": "member"}, {"fields": {"x": lambda s: s.u}}):
            x2 = x if not hasattr(x, "__next__") else iter([])
            with rec.guard((name, str(kw))):
                ds = bt.io.as_dataset(x2, **kw)
                rec.ok(isinstance(ds, xr.Dataset) and not ds and not ds.coords and not ds.sizes, (name, str(kw)), lambda: repr(ds))
            rec.ev((name, str(list(kw))))
    with rec.guard("method"):
        ds = bt.StateList([]).as_dataset()
        rec.ok(isinstance(ds, xr.Dataset) and not ds and not ds.coords, "method", lambda: repr(ds))
    rec.ev("method")
