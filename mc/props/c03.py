"""C03: operations do not modify inputs and depend on nothing but their arguments.

Explicit-state exploration of operation histories on a shared set of objects:
every ordered pair (thorough: every ordered triple) of operations is executed in
a fresh world. The reference of every operation is its result as the first
operation of a fresh world (same arguments, no history).
"""

import itertools
import multiprocessing
import traceback
import types

import numpy as np

from mc import util

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation sequences on shared objects against history-free baselines"
RULE = ("alphabet of public operations on shared grids, states, models, forcings, regions, arrays and datasets; all ordered pairs (thorough: triples), "
        "result of every operation compared with its result in a fresh world, all inputs and all earlier results compared with snapshots. Every function with array arguments called with all arrays "
        "of an alphabet of values, types and memory layouts, every function of states with states whose fields were, or were not accessed before: all arguments compared with snapshots, repeated with arrays that are overwritten between calls. "
        "states = prefixes of histories reached, transitions = operations executed")
ASSUMPTIONS = ["the history of a process that ran many sequences is covered, too, as workers are reused for thousands of them"]


class World:
    def __init__(self):
        import barotropic as bt
        import xarray as xr
        self.bt = bt
        # Grids that agree in some but not all properties
        self.ga = bt.Grid(45., rsphere=6e6, omega=2e-5)
        self.gb = bt.Grid(45., rsphere=9e6, omega=2e-5)
        self.gc = bt.Grid(36., rsphere=6e6, omega=2e-5)
        self.gd = bt.Grid(45., rsphere=6e6, omega=-3e-5)
        self.ge = bt.Grid(45., rsphere=6e6, omega=2e-5, ntrunc=2)
        self.gf = bt.Grid(45., rsphere=6e6, omega=2e-5)          # equal to ga
        za = 3e-5 * util.wavy(45., [(2, 1, "c", 1.), (3, 2, "s", .7), (1, 0, "c", .8), (2, 2, "c", .4)])
        zc = 3e-5 * util.wavy(36., [(2, 1, "s", 1.), (4, 3, "c", .7), (1, 0, "c", -.8)])
        self.arrays = {
            "za": za, "zc": zc, "za32": za.astype(np.float32), "uv": np.stack([1e6 * za, 1e6 * za[:, ::-1]]),
            "zf": np.asfortranarray(za), "prof": np.linspace(30., -10., 5), "prof2": np.array([1., 5., 2., 8., 3.]),
            "levels": np.linspace(-5e-5, 5e-5, 7), "k": np.array([1., 2., 3., 2., 1.]),
            "ks": np.array([np.inf, 3., 5j, 4., -np.inf]), "win": np.array([.25, .5, .25]),
            "lon": np.arange(0., 361., 60.), "lat": np.linspace(90., -90., 5),
            "orog": np.array([[0., 1., 2., 1., 5., 3., 0.]] * 5) * np.array([[0.], [100.], [50.], [80.], [0.]]),
            "bg": 2e-5 * util.wavy(45., [(1, 0, "c", 1.), (2, 2, "s", .5)]),
        }
        a = self.arrays
        self.sa = bt.State.from_vorticity(self.ga, 0., za)
        self.sa2 = bt.State(self.ga, 3600., pv=self.ga.fcor2 + za[::-1])
        self.sb = bt.State.from_vorticity(self.gb, 0., za)
        self.sc = bt.State.from_vorticity(self.gc, 0., zc)
        self.sd = bt.State.from_vorticity(self.gd, 0., za)
        self.se = bt.State.from_vorticity(self.ge, 0., za)
        self.sl = bt.StateList([self.sa, self.sa2])
        self.oro = bt.rhs.Orography(a["lon"], a["lat"], a["orog"], wind=("act", 1.))
        self.gau = bt.rhs.GaussianMountain(height=900, center=(20., 30.), stdev=(30., 30.), wind=("zon", .5))
        self.sin = bt.rhs.ZonalSineMountains(height=700, center_lat=20., stdev_lat=25., wavenumber=2, wind=("sbr", 12.), fcor_ref=1e-5)
        self.rel = bt.rhs.LinearRelaxation(1e-6, a["bg"])
        self.off = bt.rhs.TimedOffSwitch(5000.)
        self.mix = (self.oro + self.gau) * self.off + self.rel
        self.m0 = bt.BarotropicModel(None, diffusion_coeff=1e17)
        self.m1 = bt.BarotropicModel(self.mix, diffusion_order=1, diffusion_coeff=1e5, diffusion_bg=a["bg"])
        self.m2 = bt.BarotropicModel(self.gau + self.sin, diffusion_coeff=1e16)
        self.ra = self.ga.region[300:60, -50:50]
        self.rb = self.gb.region[45:135, "N"]
        self.rc = self.ga.region[100:225, -50:50]                # as large as ra
        self.rd = self.ga.region[300:60, 0:90]
        self.ds = bt.io.as_dataset(self.sl, fields=("u", "v", "pv"))
        self.ds2 = xr.Dataset({"vo": (("member", "latitude", "longitude"), np.stack([za, -za]))},
                              coords={"latitude": self.ga.lat.copy(), "longitude": self.ga.lon.copy() - 180.})

    def inputs(self):
        """Everything a caller handed in or holds, as plain arrays (public access only)."""
        out = dict(self.arrays)
        for n, g in (("ga", self.ga), ("gb", self.gb), ("gc", self.gc), ("gd", self.gd), ("ge", self.ge)):
            for attr in ("lon", "lat", "lon2", "lat2", "lam", "phi", "lam2", "phi2", "fcor", "fcor2"):
                out[n, attr] = getattr(g, attr)
        for n, ds in (("ds", self.ds), ("ds2", self.ds2)):
            for v in list(ds.variables):
                out[n, v] = ds[v].values
            out[n, "names"] = np.array(sorted(map(str, ds.variables)))
            out[n, "dims"] = np.array(sorted("{}{}".format(*kv) for kv in ds.sizes.items()))
            out[n, "attrs"] = np.array(sorted("{}{}".format(*kv) for kv in ds.attrs.items()))
        return out


def _run(w, m, s, n=3, **kw):
    last, saved = m.run(s, 1800., s.time + 1800. * n, save_every=1800., **kw)
    return [x.pv for x in saved] + [last.pv, last.time, last.u]


def _states(sts):
    return [x for s in sts for x in (s.time, s.pv, s.u)]


def _fig(w, name, s, **kw):
    import matplotlib.pyplot as plt
    fig = getattr(w.bt.plot, name)(s, **kw)
    out = [line.get_xydata() for ax in fig.axes[:4] for line in ax.lines]
    plt.close(fig)
    return out


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def _def(name, f):
    OPS[name] = f


# Field access on states of the various grids
for _s in ("sa", "sb", "sd", "se"):
    for _f in ("pv", "u", "streamfunction", "falwa"):
        _def("{}.{}".format(_s, _f), lambda w, s=_s, f=_f: [getattr(getattr(w, s), f)])
for _f in ("v", "vorticity", "pv_spectral", "pv_flux_spectral", "energy", "eddy_enstrophy", "enstrophy", "pv_zonalized", "fawa",
           "falwa_filtered", "v_envelope_hilbert", "stationary_wavenumber"):
    _def("sa." + _f, lambda w, f=_f: [getattr(w.sa, f)])
_def("sl.v", lambda w: [w.sl.v, w.sl.time])
_def("sl.map", lambda w: [w.sl.map(lambda s, k: k * s.u.mean(), 2.)])
# Grid operations with user arrays
for _g in ("ga", "gb", "gd", "ge", "gf"):
    _def(_g + ".wind", lambda w, g=_g: [*getattr(w, g).wind(w.arrays["za"], w.arrays["za"][::-1])])
    _def(_g + ".gradient", lambda w, g=_g: [*getattr(w, g).gradient(w.arrays["za"])])
    _def(_g + ".laplace", lambda w, g=_g: [getattr(w, g).laplace(w.arrays["za"])])
    _def(_g + ".poisson", lambda w, g=_g: [getattr(w, g).solve_poisson(w.arrays["za"], 1e-13)])
    _def(_g + ".coriolis", lambda w, g=_g: [getattr(w, g).coriolis(w.arrays["lat"]), getattr(w, g).circumference(w.arrays["lat"])])
_def("ga.vortdiv", lambda w: [*w.ga.vorticity_divergence(*w.arrays["uv"]), w.ga.vorticity(*w.arrays["uv"]), w.ga.divergence(*w.arrays["uv"])])
_def("ga.spectral", lambda w: [w.ga.to_spectral(w.arrays["zf"]), w.ga.to_grid(w.ga.to_spectral(w.arrays["za32"]))])
_def("ga.spectralops", lambda w: [f(w.sa.pv_spectral) for f in (w.ga.laplace_spectral, w.ga.solve_poisson_spectral,
                                  lambda x: w.ga.solve_diffusion_spectral(x, 1e5, 1e5, 2), w.ga.to_grid)])
_def("ga.diffusion", lambda w: [w.ga.solve_diffusion(w.arrays["za"], 1e7, 1e4, 1), w.ga.solve_diffusion(w.arrays["za32"], 1e7, 1e4, 2)])
_def("ga.derivative", lambda w: [w.ga.derivative_meridional(w.arrays["za"]), w.ga.derivative_meridional(w.arrays["prof"], order=2)])
_def("ga.mean", lambda w: [w.ga.mean(w.arrays["za"]), w.ga.mean(w.arrays["za"], axis="zonal"), w.ga.mean(w.arrays["za"], "meridional", w.ra), w.ga.gridpoint_area])
_def("gb.mean", lambda w: [w.gb.mean(w.arrays["za"]), w.gb.mean(w.arrays["za"], region=w.rb), w.gb.gridpoint_area])
_def("ga.quad", lambda w: [w.ga.quad(w.arrays["za"]), w.ga.quad_meridional(w.arrays["za"], w.arrays["bg"]), w.ga.quad(w.arrays["za"], w.arrays["bg"], method="boxcount")])
_def("gb.quad", lambda w: [w.gb.quad(w.arrays["za"]), w.gb.quad(w.arrays["za"], w.arrays["bg"], method="boxcount")])
_def("ga.zonalize", lambda w: [w.ga.zonalize(w.arrays["za"]), *w.ga.zonalize(w.arrays["za"], levels=w.arrays["levels"], interpolate=False),
                               w.ga.zonalize(w.arrays["za"], quad="boxcount")])
_def("ga.zonalize_sector", lambda w: [w.ga.zonalize(w.arrays["za"][:, :3])])
_def("ga.interp", lambda w: [w.ga.interpolate_meridional(w.arrays["k"][:3], np.array([50., 10., -40.]), (3., -3.)),
                             w.ga.interp1d_meridional(w.arrays["za"], w.arrays["lat"] * .9, (1., 2.))(w.arrays["prof"])])
_def("ga.filter", lambda w: [w.ga.filter_zonal(w.arrays["za"], w.arrays["win"]), w.ga.filter_meridional(w.arrays["za"], w.arrays["win"]),
                             w.ga.filter_zonal(w.arrays["za"], "hann", 130.), w.ga.get_filter_window("boxcar", 100.)])
_def("ra.extract", lambda w: [*w.ra.extract(w.arrays["za"], w.arrays["prof"], w.ga.lon), w.ra.mask, w.ra.lat, w.ra.lon, w.ra.lon_mono, w.ra.gridpoint_area, w.ra.mean(w.arrays["za"])])
_def("ra.monolon", lambda w: [w.ra.lon_mono, w.ra.lon])
_def("rb.extract", lambda w: [w.rb.extract(w.arrays["za"]), w.rb.gridpoint_area, w.rb.mask])
for _r in ("rc", "rd"):
    _def(_r + ".extract", lambda w, r=_r: [getattr(w, r).extract(w.arrays["za"]), getattr(w, r).mask, getattr(w, r).lat, getattr(w, r).lon_mono, getattr(w, r).gridpoint_area, getattr(w, r).mean(w.arrays["za"])])
_def("newregion", lambda w: [w.ga.region[270:45, "S"].extract(w.arrays["za"]), w.ga.region[90, :].lat])
# Forcings and models
for _t in ("oro", "gau", "sin", "mix", "rel"):
    for _s in ("sa", "sb", "sd", "se") if _t != "rel" else ("sa",):
        _def("{}({})".format(_t, _s), lambda w, t=_t, s=_s: [getattr(w, t)(getattr(w, s))])
_def("oro(sc)", lambda w: [w.oro(w.sc), w.gau(w.sc), w.sin.orography(w.gc)])
_def("oro.height", lambda w: [w.oro.orography(w.ga), w.gau.orography(w.gb), w.sin.orography(w.ga)])
_def("off", lambda w: [np.array([w.off(s) for s in (w.sa, w.sa2)])])
_def("combine", lambda w: [(w.oro * w.off + w.rel)(w.sa), (w.mix + w.sin)(w.sa)])
_def("m0.run(sa)", lambda w: _run(w, w.m0, w.sa))
_def("m0.run(sb)", lambda w: _run(w, w.m0, w.sb))
_def("m0.run(sc)", lambda w: _run(w, w.m0, w.sc, 2))
_def("m1.run(sa)", lambda w: _run(w, w.m1, w.sa))
_def("m1.run(sa2)", lambda w: _run(w, w.m1, w.sa2))
_def("m1.run(se)", lambda w: _run(w, w.m1, w.se, 1))
_def("m2.run(se)", lambda w: _run(w, w.m2, w.se, 1))
_def("m2.run(sa) short", lambda w: [x.pv for x in w.m2.run(w.sa, 200., 400., 200.)[1]])
_def("m1.run(sd)", lambda w: _run(w, w.m1, w.sd))
_def("m2.run(sa)", lambda w: _run(w, w.m2, w.sa))
_def("m2.run(sb)", lambda w: _run(w, w.m2, w.sb, 2))
_def("m2.leapfrog", lambda w: [x.pv for x in w.m2.leapfrog(w.sa, w.sa2)] + [w.m2.euler(w.sa, 100.).pv])
_def("sl.run", lambda w: [s.pv for s in w.sl.run(w.m1, 1200., 6000.)[0]])
# States from states
_def("add_wind", lambda w: _states([w.sa.add_wind(w.sa2), w.sa.add_wind((w.arrays["uv"][0], w.arrays["uv"][1]))]))
_def("add_vorticity", lambda w: _states([w.sa.add_vorticity(w.sa2), w.sa.add_vorticity(w.arrays["za"])]))
_def("from", lambda w: _states([w.bt.State.from_wind(w.ga, 1, *w.arrays["uv"]), w.bt.State.from_vorticity(w.ga, 1, w.arrays["za32"]),
                                w.bt.State(w.ga, 1, pv=w.arrays["za"]), w.bt.State(w.ga, 1, pv_spectral=w.sa.pv_spectral)]))
_def("init", lambda w: _states([w.bt.init.zonally_symmetric(w.ga, u=w.arrays["prof"]), w.bt.init.zonally_symmetric(w.ga, pv=w.arrays["prof"]),
                                w.bt.init.motionless(w.gb), w.bt.init.solid_body_rotation(w.gd), w.bt.init.held_1985(w.ga), w.bt.init.gaussian_jet(w.ga)]))
# Diagnostics with arrays
_def("diag.falwa", lambda w: [w.bt.diagnostics.falwa(w.arrays["za"], w.ga), w.bt.diagnostics.fawa(w.arrays["za"], w.ga, levels=w.arrays["levels"], quad="boxcount")])
_def("diag.ks", lambda w: [w.bt.diagnostics.stationary_wavenumber(w.arrays["prof"], w.ga, kind="squared"), w.bt.diagnostics.stationary_wavenumber(w.sb, kind="real"),
                           w.bt.diagnostics.stationary_wavenumber(w.arrays["uv"][0], w.gb)])
_def("diag.waveguides", lambda w: [np.array(w.bt.diagnostics.extract_ks_waveguides(w.arrays["ks"], 2, w.ga)), np.array(w.sa.extract_ks_waveguides(1))])
_def("diag.wavenumber", lambda w: [w.bt.diagnostics.dominant_wavenumber_fourier(w.arrays["za"], w.ga, wavenumber_range=(1, 3)),
                                   w.bt.diagnostics.filter_by_wavenumber(w.arrays["za"], w.arrays["k"]), w.bt.diagnostics.envelope_hilbert(w.arrays["za"], (1, 3))])
# Exchange and output
_def("as_dataset", lambda w: [w.bt.io.as_dataset(w.sl, fields={"x": "u", "y": lambda s: s.v.mean(axis=-1)})[n].values for n in ("x", "y", "time", "latitude")])
_def("from_dataset", lambda w: _states(w.bt.io.from_dataset(w.ds)) )
_def("from_dataset2", lambda w: _states(w.bt.io.from_dataset(w.ds2, grid_kwargs={"rsphere": 6e6, "omega": 2e-5}, time_fill=5)))
_def("hn2016", lambda w: [w.sa.as_hn2016().pv_field, w.bt.State.from_hn2016(w.ga, 3, w.sa.as_hn2016()).pv])
_def("hov", lambda w: [*w.bt.plot.hovmoellerify(w.sl, lambda s: s.v.mean(axis=0))])
_def("roll", lambda w: [w.bt.plot.roll_lon(w.ga.lon, 40)[0](w.arrays["za"]), w.bt.plot.reduce_vectors(w.ga.lon2, w.ga.lat2, *w.arrays["uv"], 3)[2]])
_def("repr", lambda w: [np.array([len(repr(x)) for x in (w.ga, w.sa, w.sl, w.ra, w.m1, w.mix)])])
_def("eqhash", lambda w: [np.array([w.ga == w.gb, w.ga == w.gf, w.ga == w.ge, w.ga == w.gd, hash(w.ga) == hash(w.gf)])])
_def("plot.waveguides", lambda w: _fig(w, "waveguides", w.sa, k_waveguides=2))

SLOW_OPS = {"plot.waveguides"}
NAMES = list(OPS)


def units(tier):
    out = [["pairs", a] for a in NAMES]
    out += [["args", k] for k in range(8)] + [["objects", k] for k in range(12)]
    if tier == "thorough":
        out += [["triples", a] for a in CORE]
    return out


# Operations that leave something behind (caches, memoized fields, shared arrays)
CORE = ["sa.pv", "sa.u", "sa.falwa", "sb.u", "ga.gradient", "gb.gradient", "ga.mean", "ga.zonalize", "ra.monolon", "oro(sa)", "oro(sb)", "gau(sb)", "mix(sa)",
        "oro(sc)", "m0.run(sa)", "m0.run(sb)", "m1.run(sa)", "m1.run(sd)", "m2.run(sa)", "m2.leapfrog", "add_wind", "add_vorticity", "from", "init",
        "diag.falwa", "diag.ks", "diag.wavenumber", "from_dataset2", "roll", "ga.filter", "ga.quad", "combine"]


def _arr(x):
    return [np.asarray(v) for v in x]


def _copy(x):
    return [np.array(v, copy=True) for v in x]


_BASE = {}


def _baseline(name):
    try:
        return _copy(_arr(OPS[name](World())))
    except Exception:
        return traceback.format_exc(limit=8)


def prepare(tier):
    # Every baseline in a process of its own, so that nothing that outlives the
    # objects of a world (module-level state) can be part of it
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(8, multiprocessing.cpu_count()), maxtasksperchild=1) as pool:
        _BASE.update(zip(NAMES, pool.map_async(_baseline, NAMES, chunksize=1).get(timeout=300)))


def baseline(name):
    if isinstance(_BASE[name], str):
        raise RuntimeError("{} failed in a fresh world:\n{}".format(name, _BASE[name]))
    return _BASE[name]


def same(rec, got, want, case, what):
    if not rec.ok(len(got) == len(want), case, what + ": number of results"):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if w.dtype.kind not in "fciub":
            rec.ok(np.array_equal(g, w), (case, i), "{}: {} instead of {}".format(what, g, w))
            continue
        sc = np.max(np.abs(w[np.isfinite(w)]), initial=0.)
        if not rec.close(g, w, (case, i), rtol=1e-5, scale=sc):
            rec.fail((case, i), what)


def run_sequence(names, rec):
    w = World()
    before = {k: np.array(v, copy=True) for k, v in w.inputs().items()}
    kept = []
    for n in names:
        rec.count("transitions")
        out = _arr(OPS[n](w))
        same(rec, out, baseline(n), names, "result of {} depends on history".format(n))
        kept.append((n, out, _copy(out)))
    rec.count("states")
    rec.count("traces")
    for n, out, snap in kept:
        for a, b in zip(out, snap):
            rec.ok(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"), names, "earlier result of {} was modified".format(n))
    after = w.inputs()
    for k, v in before.items():
        rec.ok(np.array_equal(after[k], v, equal_nan=v.dtype.kind in "fc"), names, "input {} was modified".format(k))
    rec.ev(names)


def run_unit(unit, rec):
    kind, a = unit
    if kind == "args":
        arguments(rec, a, 8)
    elif kind == "objects":
        objects(rec, a, 12)
    elif kind == "pairs":
        for b in NAMES:
            run_sequence((a, b), rec)
    else:
        for b, c in itertools.product(CORE, CORE):
            run_sequence((a, b, c), rec)


# Arguments of single calls

def snapshot(x):
    """Deep copy of the values of arguments."""
    if isinstance(x, np.ndarray):
        return (x.dtype, x.shape, x.copy())
    if isinstance(x, (list, tuple)):
        return (type(x), [snapshot(y) for y in x])
    if isinstance(x, dict):
        return (dict, [(k, snapshot(v)) for k, v in x.items()])
    if hasattr(x, "data_vars"):
        return ("dataset", [(str(k), snapshot(x[k].values), tuple(x[k].dims), sorted(x[k].attrs)) for k in x.variables], sorted(map(str, x.attrs)), dict(x.sizes))
    return x


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a is b or bool(a == b) or (a != a and b != b)


def variants(x, kinds="dfFin"):
    """The same array in different types and memory layouts."""
    out = []
    for k in kinds:
        if k == "d":
            out.append(np.array(x, dtype=float))
        elif k == "f":
            out.append(np.array(x, dtype=np.float32))
        elif k == "F":
            out.append(np.asfortranarray(np.array(x, dtype=float)))
        elif k == "i":
            out.append(np.array(np.clip(np.nan_to_num(np.real(x)), -1000, 1000)).astype(int))
        elif k == "n":                                                 # not contiguous
            big = np.repeat(np.array(x, dtype=float), 2, axis=-1)
            out.append(big[..., ::2])
        elif k == "c":
            out.append(np.array(x, dtype=complex))
    return out


def calls(w):
    """(name, function, list of alternatives for each argument)"""
    import barotropic as bt
    g, d = w.ga, bt.diagnostics
    nlat, nlon = g.shape
    base = util.generic(g.shape, 3)
    waves = np.cos(2. * g.lam2) * (1. + g.phi2) + .3 * np.sin(g.lam2)
    step = np.where(g.lat2 > 10., 2., -1.)
    fields = [*variants(base), *variants(5. * waves, "dfn"), *variants(step, "d"), np.zeros(g.shape), np.full(g.shape, -3.)]
    some = [np.array(base), np.array(waves, dtype=np.float32), np.asfortranarray(step), np.zeros(g.shape)]
    profiles = [*variants(np.linspace(30., -10., nlat)), *variants([0., 5., 1e-4, -3., 0.]), np.zeros(nlat)]
    zprofiles = [*variants(np.cos(np.deg2rad(g.lon))), np.zeros(nlon)]
    ks = [*variants([np.inf, 3., 2., 4., -np.inf]), *variants([5j, 3., 0., 2j, 1.], "c"), *variants([1., -2., 3., 3., 7.])]
    wavenumbers = [*variants(np.array([0., 1., -2., 50., 2.5])), *variants(np.linspace(-3., 40., nlat * nlon).reshape(g.shape)), *variants(np.full(g.shape, 2.)), np.full(g.shape, np.inf)]
    spec = [g.to_spectral(base), g.to_spectral(waves)]
    windows = [*variants([.25, .5, .25], "dfni"), np.array([0., 1., 3.])]
    levels = [None, 4, *variants([.5, -.5, 0., 9., -9.], "dfin"), [-.2, .3], (.1, .1)]
    eq = [*variants([60., 10., -40.], "dfin")]
    out = [
        ("coriolis", g.coriolis, [[*variants(g.lat), *variants(g.lat2)]]), ("circumference", g.circumference, [[*variants(g.lat), *variants(g.lat2)]]),
        ("to_spectral", g.to_spectral, [fields]), ("to_grid", g.to_grid, [spec]), ("laplace", g.laplace, [fields]), ("laplace_spectral", g.laplace_spectral, [spec]), ("gradient", g.gradient, [fields]),
        ("wind", g.wind, [some + spec, some + spec]), ("vorticity", g.vorticity, [some, some]), ("divergence", g.divergence, [some, some]), ("vorticity_divergence", g.vorticity_divergence, [some, some]),
        ("vorticity_spectral", g.vorticity_spectral, [some, some]), ("divergence_spectral", g.divergence_spectral, [some, some]), ("vorticity_divergence_spectral", g.vorticity_divergence_spectral, [some, some]),
        ("derivative", g.derivative_meridional, [fields + profiles, [2, 4, None]]),
        ("solve_poisson", g.solve_poisson, [fields, [0., 1e-12, -3e-14]]), ("solve_poisson_spectral", g.solve_poisson_spectral, [spec, [0., 1e-12]]),
        ("solve_diffusion", g.solve_diffusion, [fields, [1e5], [600.], [1, 3]]), ("solve_diffusion_spectral", g.solve_diffusion_spectral, [spec, [1e5, 0.], [600.], [1, 3]]),
        ("mean", g.mean, [fields, [None, "zonal", "meridional"], [None, w.ra]]), ("region mean", w.ra.mean, [fields + [f[np.ix_(w.ra.mask.any(axis=1), w.ra.mask.any(axis=0))] for f in some]]),
        ("quad", g.quad, [fields, [None] + some, ["sptrapz", "boxcount"]]), ("quad_meridional", g.quad_meridional, [some + [f[:, :2] for f in some], [None], ["sptrapz", "boxcount"]]),
        ("equivalent_latitude", g.equivalent_latitude, [[*variants([-1., 0., 1e13, 4e14, 1e16])]]),
        ("zonalize", g.zonalize, [fields, levels, [False], ["sptrapz", "boxcount"]]), ("zonalize interpolated", g.zonalize, [fields, [None, 4, 9], [True], ["sptrapz", "boxcount"]]),
        ("interp1d_meridional", lambda f, y, p: g.interp1d_meridional(f, y, p)(np.array([3., -70.])), [[np.array([4., 1., 3.]), np.array([[1, 2], [3, 4], [5, 6]])], eq, [(1., 2.), [3, 4], np.array([9., 8.])]]),
        ("interpolate_meridional", g.interpolate_meridional, [[np.array([4., 1., 3.])], eq, [(1., 2.), [3, 4]]]),
        ("filter_zonal", g.filter_zonal, [fields + zprofiles, windows]), ("filter_zonal named", g.filter_zonal, [fields + zprofiles, ["hann", ("gaussian", 2.)], [140., 300.]]),
        ("filter_meridional", g.filter_meridional, [fields + profiles, windows]), ("filter_meridional named", g.filter_meridional, [fields + profiles, ["hann"], [140., 300.]]),
        ("extract", w.ra.extract, [fields + profiles + zprofiles]), ("extract several", w.ra.extract, [some, profiles, zprofiles]),
        ("falwa", d.falwa, [fields, [g], [None, np.array([.1, -.2])], [False], ["sptrapz", "boxcount"]]), ("fawa", d.fawa, [fields, [g], [None, np.array([.1, -.2])], [False], ["sptrapz"]]),
        ("falwa interpolated", d.falwa, [fields, [g]]), ("fourier", d.dominant_wavenumber_fourier, [fields, [g], [None, ("boxcar", 100)], [(1, 3), [0, 2], np.array([1, 2])]]),
        ("wavelet", d.dominant_wavenumber_wavelet, [some, [g], [None, ("hann", 100, 100), ["hann", 140, 100]]]),
        ("filter_by_wavenumber", d.filter_by_wavenumber, [fields, wavenumbers]), ("hilbert", d.envelope_hilbert, [fields, [(1, 3), [0, 2]]]),
        ("stationary_wavenumber", d.stationary_wavenumber, [fields + profiles, [g], [2, 4], [.001, 4.], ["complex", "real", "squared"]]),
        ("waveguides", d.extract_ks_waveguides, [ks, [2, 0, 3., 1j], [g]]),
        ("zonally_symmetric u", lambda u: bt.init.zonally_symmetric(g, u=u).u, [profiles + [[1., 2., 3., 4., 5.], (1, 2, 3, 2, 1)]]), ("zonally_symmetric pv", lambda q: bt.init.zonally_symmetric(g, pv=q).u, [profiles]),
        ("from_wind", lambda u, v: _states([bt.State.from_wind(g, 0, u, v)]), [some, some]), ("from_vorticity", lambda z: _states([bt.State.from_vorticity(g, 0, z)]), [fields]),
        ("State", lambda q: _states([bt.State(g, 0, pv=q)]), [fields]), ("State spectral", lambda q: _states([bt.State(g, 0, pv_spectral=q)]) and w.m2.run(bt.State(g, 0., pv_spectral=q), 60., 120.), [spec]),
        ("add_wind", lambda uv: _states([w.sa.add_wind(uv)]), [[(a, b) for a in some for b in some] + [[some[0], some[1]], np.stack([some[0], some[2]])]]), ("add_vorticity", lambda z: _states([w.sa.add_vorticity(z)]), [fields]),
        ("background", lambda b: bt.BarotropicModel(None, 2, 1e17, diffusion_bg=b).run(w.sa, 600., 1800.), [fields]), ("relaxation", lambda b: bt.BarotropicModel(bt.rhs.LinearRelaxation(1e-5, b)).run(w.sa, 600., 1800.), [fields]),
        ("relaxation rate", lambda r: bt.rhs.LinearRelaxation(r, w.arrays["za"])(w.sa), [[1e-6 * f for f in some] + [3]]),
        ("orography", lambda lo, la, h: (lambda t: (t(w.sa), t.orography(w.gc), t(w.sc)))(bt.rhs.Orography(lo, la, h)), [variants(w.arrays["lon"]), variants(w.arrays["lat"]), variants(w.arrays["orog"])]),
        ("mountain", lambda c, sd: bt.rhs.GaussianMountain(center=c, stdev=sd)(w.sa), [[(10., 20.), [10., 20.], np.array([370., 20.])], [(10., 20.), [10, 20], np.array([10., 20.])]]),
        ("mapping", lambda f: w.sl.as_dataset(fields=f), [[{"a": "u", "b": np.shape and (lambda s: s.pv)}, ["u", "pv"], ("v",)]]),
        ("from_dataset", lambda ds, n, kw: _states(bt.io.from_dataset(ds, names=n, grid_kwargs=kw)), [[w.ds, w.ds2, w.ds.isel(time=0), w.ds.assign_coords(longitude=w.ds.longitude - 180.)], [None, {}, {"time": "time"}], [None, {"rsphere": 6e6}, {"ntrunc": 2}]]),
        ("from_dataset array", lambda ds: _states(bt.io.from_dataset(ds)), [[w.ds["pv"], w.ds2["vo"]]]),
        ("hovmoeller", lambda l: bt.plot.hovmoellerify(l, lambda s: s.v.mean(axis=0)), [[[w.sa, w.sa2], (w.sa,), w.sl]]), ("statelist", lambda l: bt.StateList(l) + l, [[[w.sa, w.sa2], [w.sa]]]),
        ("reduce", bt.plot.reduce_vectors, [[g.lon2.copy()], [g.lat2.copy()], some, some, [3]]), ("roll", lambda lo, f: bt.plot.roll_lon(lo, 40.)[0](f), [variants(g.lon), fields]),
        ("symmetric_levels", bt.plot.symmetric_levels, [fields, [3, 8]]),
        ("hn2016", lambda q: bt.State.from_hn2016(g, 0., __import__("falwa.barotropic_field").barotropic_field.BarotropicField(g.lon, g.lat[::-1], pv_field=q)).pv, [fields]),
    ]
    return out


def arguments(rec, shard, nshards):
    w = World()
    todo = calls(w)
    before = {k: np.array(v, copy=True) for k, v in w.inputs().items()}
    for name, f, alternatives in todo[shard::nshards]:
        # Callers may overwrite their arrays and use them again, and overwrite results
        reused = util.Reused(types.SimpleNamespace(f=f), overwrite=name != "hovmoeller").f     # (contains coordinates of the grid)
        last = None
        for i, args in enumerate(itertools.product(*alternatives)):
            snap = snapshot(args)
            with rec.guard((name, i)):
                first = f(*args)
                rec.ok(equal(snapshot(args), snap), (name, i), "argument was modified")
                kept = snapshot(first) if isinstance(first, (np.ndarray, tuple, list)) else None
                again = f(*args)
                rec.ok(equal(snapshot(args), snap), (name, i), "argument was modified by the second call")
                if kept is not None and name not in ("background", "relaxation", "State spectral", "statelist"):
                    rec.ok(equal(snapshot(first), kept), (name, i), "first result was modified by the second call")
                    rec.ok(equal(snapshot(again), kept), (name, i), "second call has another result")
                    for prev in (last, args):
                        if prev is not None:
                            reused(*prev)
                        rec.ok(equal(snapshot(reused(*args)), kept), (name, i), "call with reused arrays has another result")
                    last = args
            rec.count("transitions", 2)
            rec.count("traces")
            rec.ev((name, i))
        rec.count("states")
    after = w.inputs()
    for k, v in before.items():
        rec.ok(np.array_equal(after[k], v, equal_nan=v.dtype.kind in "fc"), ("inputs", str(k)), "modified")


ATTRS = ("pv", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral", "vorticity", "vorticity_spectral", "enstrophy", "eddy_enstrophy", "energy", "pv_zonalized", "fawa", "falwa",
         "stationary_wavenumber", "v_envelope_hilbert", "falwa_filtered")


def users():
    """Functions of states (and of what they hold)."""
    import matplotlib.pyplot as plt
    import barotropic as bt

    def figure(name, **kw):
        def draw(w, s):
            plt.close("all")
            getattr(bt.plot, name)(s, **kw)
            plt.close("all")
        return draw
    out = {
        "add_wind": lambda w, s: s.add_wind(s).pv, "add_vorticity": lambda w, s: s.add_vorticity(s).pv, "add arrays": lambda w, s: (s.add_wind((s.u, s.v)).u, s.add_vorticity(s.vorticity).u),
        "run": lambda w, s: w.m1.run(s, 600., s.time + 1800., 600.), "run other": lambda w, s: w.m2.run(s, 600., s.time + 1800.), "euler": lambda w, s: w.m1.euler(s, 50.), "leapfrog": lambda w, s: w.m1.leapfrog(s, w.m1.euler(s, 50.)),
        "forcing": lambda w, s: (w.mix(s), w.oro(s), w.sin(s), w.rel(s)), "dataset": lambda w, s: bt.io.from_dataset(bt.io.as_dataset(s, fields=["pv", "u", "v"])), "hn2016": lambda w, s: bt.State.from_hn2016(s.grid, 0., s.as_hn2016()),
        "falwa": lambda w, s: (bt.diagnostics.falwa(s), bt.diagnostics.fawa(s, quad="boxcount")), "ks": lambda w, s: [bt.diagnostics.stationary_wavenumber(s, kind=k) for k in ("complex", "real", "squared")],
        "waveguides": lambda w, s: (s.extract_ks_waveguides(2), bt.diagnostics.extract_ks_waveguides(s, 1j)), "zonalize": lambda w, s: (s.grid.zonalize(s.pv), s.grid.zonalize(s.pv, quad="boxcount")),
        "wavenumber": lambda w, s: (bt.diagnostics.dominant_wavenumber_fourier(s.v, s.grid), bt.diagnostics.dominant_wavenumber_wavelet(s.v, s.grid), bt.diagnostics.filter_by_wavenumber(s.falwa, s.falwa)),
        "envelope": lambda w, s: bt.diagnostics.envelope_hilbert(s.v), "list": lambda w, s: (bt.StateList([s, s]).pv, bt.StateList([s]).run(w.m0, 600., s.time + 600.)), "repr": lambda w, s: (repr(s), repr(s.grid)),
        "gridops": lambda w, s: (s.grid.wind(s.vorticity, s.vorticity), s.grid.vorticity_divergence(s.u, s.v), s.grid.laplace(s.streamfunction), s.grid.gradient(s.pv), s.grid.solve_diffusion(s.pv, 1e5, 600., 2),
                                 s.grid.solve_poisson(s.vorticity), s.grid.derivative_meridional(s.u), s.grid.mean(s.u), s.grid.quad(s.u, s.v), s.grid.filter_zonal(s.u, "hann", 150.), s.grid.filter_meridional(s.u, "hann", 150.)),
        "spectral": lambda w, s: (s.grid.to_grid(s.pv_spectral), s.grid.laplace_spectral(s.pv_spectral), s.grid.solve_poisson_spectral(s.vorticity_spectral), s.grid.solve_diffusion_spectral(s.pv_spectral, 1e5, 600., 2), s.grid.wind(s.pv_spectral, s.pv_spectral)),
        "region": lambda w, s: (w.ra.extract(s.pv, s.u), w.ra.mean(s.pv)),
        "hovmoeller": lambda w, s: bt.plot.hovmoellerify([s, s], lambda x: x.pv[1]), "roll": lambda w, s: bt.plot.roll_lon(s.grid.lon, 60.)[0](s.pv),
    }
    for hemi in ("both", "N"):
        out["summary " + hemi] = figure("summary", hemisphere=hemi, center_lon=70., pv_max=1e-4)
        out["wave_activity " + hemi] = figure("wave_activity", hemisphere=hemi, center_lon=70.)
        out["rwp " + hemi] = figure("rwp_diagnostics", hemisphere=hemi, center_lon=70.)
        out["waveguide figure " + hemi] = figure("waveguides", hemisphere=hemi, k_waveguides=[1, 2])
    return out


_FIELDS = {}


def objects(rec, shard, nshards):
    """Functions of states leave the fields of the states alone, whether or not they were accessed before."""
    import matplotlib
    matplotlib.use("Agg")
    fs = users()
    if not _FIELDS:
        for a in ATTRS:
            _FIELDS[a] = np.array(getattr(World().sa, a))
    for name in list(fs)[shard::nshards]:
        for accessed in [(), ("pv",), ("u",), ("v", "pv"), ("falwa",), ("streamfunction", "pv_zonalized"), ATTRS]:
            w = World()
            s = w.sa
            before = {k: np.array(v, copy=True) for k, v in w.inputs().items()}
            case = (name, ",".join(accessed) if accessed is not ATTRS else "all")
            with rec.guard(case):
                held = {a: getattr(s, a) for a in accessed}
                snap = {a: np.array(v) for a, v in held.items()}
                fs[name](w, s)
                for a, v in held.items():
                    rec.ok(np.array_equal(v, snap[a], equal_nan=True), (case, a), "array of the field was modified")
                for a in ATTRS:
                    v, want = np.asarray(getattr(s, a)), _FIELDS[a]
                    fin = np.isfinite(want)
                    if rec.ok(v.shape == want.shape and np.array_equal(np.isfinite(v), fin), (case, a, "after"), lambda: "{} instead of {}".format(v, want)):
                        sc = np.max(np.abs(want[fin]), initial=0.)
                        rec.close(v[fin], want[fin], (case, a, "after"), rtol=1e-5, scale=sc)
                rec.ok(s.time == 0. and s.grid is w.ga, (case, "time"), lambda: repr(s))
                after = w.inputs()
                for k, v in before.items():
                    rec.ok(np.array_equal(after[k], v, equal_nan=v.dtype.kind in "fc"), (case, str(k)), "modified")
            rec.count("transitions", 1 + len(accessed) + len(ATTRS))
            rec.count("states")
            rec.count("traces")
            rec.ev(case)
