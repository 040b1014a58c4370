"""C22: initial conditions."""

import itertools

import numpy as np

from mc import util
from mc.props.c06 import Field

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of presets x parameter lattices x times x grids x truncations, and of all unit profiles (complete by linearity), against the documented formulas"
RULE = ("all presets with all combinations of parameters from lattices (0, negative, integer, NumPy numbers included) on grids that differ in resolution, planet, truncation and Legendre "
        "functions; all unit profiles of wind and PV; all refused combinations. The oracle is the documented formula on independently computed coordinates, converted to a state by "
        "State.from_wind (decided by C06), and directly compared where it is resolved. Non-trivial: the state moves")
ASSUMPTIONS = ["grids have poles (resolution divides 180)", "direct comparison of winds only where the truncation error is negligible"]

CONF = [(45., "earth", None, "stored"), (30., "slow", None, "stored"), (20., "retro", 5, "stored"), (30., "tiny", 3, "computed"), (15., "earth", None, "computed"), (10., "earth", None, "stored"), (30., "faint", None, "stored"), (30., "fierce", None, "computed"), (30., "still", None, "stored")]


def units(tier):
    out = []
    for c in range(len(CONF)):
        out += [["motionless", c], ["sbr", c], ["jet", c], ["held", c], ["profiles", c], ["refuse", c]]
    out += [["fine", res] for res in ((5., 4.) if tier == "quick" else (5., 4., 3., 2.5, 2.))]
    out += [["formula", res] for res in ((90., 60., 36., 20.) if tier == "quick" else (90., 60., 45., 36., 30., 20., 18., 15., 12., 10., 9.))]
    return out


def run_unit(unit, rec):
    {"motionless": motionless, "sbr": sbr, "jet": jet, "held": held, "profiles": profiles, "refuse": refuse, "fine": fine, "formula": formula}[unit[0]](rec, *unit[1:])


def setup(c):
    res, planet, nt, leg = CONF[c]
    g = util.grid(res, planet, nt, leg)
    lat, lon = util.coords(res)
    r, om = util.PLANETS[planet]
    return g, lat, np.deg2rad(lat), r, om


def coriolis(g, phi, om):
    return np.repeat((2. * om * np.sin(phi))[:, None], g.nlon, axis=1)


def check(rec, s, g, t, u, case, tol=2e-5):
    """State s has the zonally symmetric wind profile u."""
    import barotropic as bt
    rec.ok(type(s) is bt.State and s.grid is g, (case, "grid"), lambda: repr(s))
    rec.ok(s.time == t and type(s.time) == type(t), (case, "time"), lambda: "{!r} instead of {!r}".format(s.time, t))
    u2 = np.repeat(np.asarray(u, dtype=float)[:, None], g.nlon, axis=1)
    ref = bt.State.from_wind(g, t, u2, np.zeros_like(u2))
    um = np.max(np.abs(u)) + 1e-30
    fm = 2. * util.rate(g.omega)
    rec.close(s.pv, ref.pv, (case, "pv"), rtol=0., atol=tol * (fm + um / g.rsphere * g.nlat))
    rec.close(s.vorticity, ref.vorticity, (case, "vorticity"), rtol=0., atol=tol * (fm + um / g.rsphere * g.nlat))
    # winds are as precise as the PV
    wtol = tol * (um + fm * g.rsphere)
    rec.close(s.u, ref.u, (case, "u"), rtol=0., atol=wtol)
    rec.close(s.v, np.zeros(g.shape), (case, "v"), rtol=0., atol=wtol)


def times():
    return [0., 7, -2.5, np.float64(3.), util.T0]


def motionless(rec, c):
    import barotropic as bt
    g, lat, phi, r, om = setup(c)
    f = coriolis(g, phi, om)
    for t in times():
        for name, make in (("positional", lambda: bt.init.motionless(g, t)), ("keyword", lambda: bt.init.motionless(grid=g, time=t))):
            with rec.guard((name, t)):
                s = make()
                rec.ok(s.grid is g and s.time == t and type(s.time) == type(t), (name, t, "grid, time"), lambda: repr(s))
                rec.close(s.pv, f, (name, t, "pv"), rtol=1e-6)
                rec.close(s.vorticity, 0. * f, (name, t, "vorticity"), rtol=0., atol=2e-6 * util.rate(om))
                for w in (s.u, s.v):
                    rec.close(w, 0. * f, (name, t, "wind"), rtol=0., atol=4e-6 * util.rate(om) * r)
            rec.ev((name, t))
    for name, make in (("motionless", bt.init.motionless), ("sbr", bt.init.solid_body_rotation), ("jet", bt.init.gaussian_jet), ("held", bt.init.held_1985)):
        with rec.guard((name, "default time")):
            s = make(g)
            rec.ok(s.time == 0. and not hasattr(s.time, "year"), (name, "default time"), lambda: repr(s.time))


def speeds(r, om):
    u = r * util.rate(om)
    return [.04 * u, -.1 * u, 0., 0, 1.5 * u, np.float64(.3 * u), max(1, int(.2 * u))]


def sbr(rec, c):
    import barotropic as bt
    g, lat, phi, r, om = setup(c)
    f = coriolis(g, phi, om)
    for t, amp in itertools.product(times(), speeds(r, om)):
        case = (t, amp)
        with rec.guard(case):
            for s in (bt.init.solid_body_rotation(g, t, amp), bt.init.solid_body_rotation(g, amplitude=amp, time=t)):
                check(rec, s, g, t, amp * np.cos(phi), case)
                # resolved by every truncation
                scale = util.rate(om) * r + abs(amp)
                rec.close(s.u, np.repeat(amp * np.cos(phi)[:, None], g.nlon, axis=1), (case, "analytic u"), rtol=0., atol=1e-5 * scale)
                rec.close(s.pv, f + 2. * amp / r * np.sin(phi)[:, None], (case, "analytic pv"), rtol=0., atol=1e-5 * scale / r)
        rec.ev(case, amp != 0)
    with rec.guard("default"):
        check(rec, bt.init.solid_body_rotation(g), g, 0., 15. * np.cos(phi), "default")


def jet_profile(lat, amp, center, stdev):
    gauss = lambda x: amp * np.exp(-(x - center)**2 / (2. * stdev**2))
    n, s = gauss(90.), gauss(-90.)
    # line through both polar values
    return gauss(lat) - (s + (n - s) * (lat + 90.) / 180.)


def jet(rec, c):
    import barotropic as bt
    g, lat, phi, r, om = setup(c)
    ts = times()
    cases = list(itertools.product(speeds(r, om)[:6], (45., -30, 0, 90., -80., 12.5), (5., 20, 60., np.float64(35.))))
    for i, (amp, center, stdev) in enumerate(cases):
        t = ts[i % len(ts)]
        case = (t, amp, center, stdev)
        with rec.guard(case):
            u = jet_profile(lat, amp, center, stdev)
            check(rec, bt.init.gaussian_jet(g, t, amp, center, stdev), g, t, u, case)
            check(rec, bt.init.gaussian_jet(g, stdev_lat=stdev, center_lat=center, amplitude=amp, time=t), g, t, u, (case, "keywords"))
        rec.ev(case, amp != 0)
    with rec.guard("default"):
        check(rec, bt.init.gaussian_jet(g), g, 0., jet_profile(lat, 20., 45., 5.), "default")
        for kw in ({"amplitude": 2.}, {"center_lat": -20.}, {"stdev_lat": 30.}):
            p = dict(amplitude=20., center_lat=45., stdev_lat=5., **{})
            p.update(kw)
            check(rec, bt.init.gaussian_jet(g, **kw), g, 0., jet_profile(lat, p["amplitude"], p["center_lat"], p["stdev_lat"]), kw)


def held(rec, c):
    import barotropic as bt
    g, lat, phi, r, om = setup(c)
    unit = r * util.rate(om) / 464.
    cos, sin = np.cos(phi), np.sin(phi)
    prof = lambda a, b, d: a * cos - b * cos**3 + d * cos**6 * sin**2
    ts = times()
    for i, (a, b, d) in enumerate(itertools.product((25. * unit, 0, -10. * unit), (30. * unit, 0., -5. * unit), (300. * unit, 0, np.float64(-100. * unit)))):
        t = ts[i % len(ts)]
        case = (t, a, b, d)
        with rec.guard(case):
            check(rec, bt.init.held_1985(g, t, a, b, d), g, t, prof(a, b, d), case)
            check(rec, bt.init.held_1985(g, time=t, C=d, B=b, A=a), g, t, prof(a, b, d), (case, "keywords"))
        rec.ev(case, bool(a or b or d))
    with rec.guard("default"):
        check(rec, bt.init.held_1985(g), g, 0., prof(25., 30., 300.), "default")
        check(rec, bt.init.held_1985(g, A=1.), g, 0., prof(1., 30., 300.), "default A")
        check(rec, bt.init.held_1985(g, B=1.), g, 0., prof(25., 1., 300.), "default B")
        check(rec, bt.init.held_1985(g, C=1.), g, 0., prof(25., 30., 1.), "default C")


def profiles(rec, c):
    import barotropic as bt
    g, lat, phi, r, om = setup(c)
    ts = times()
    unit = r * util.rate(om)
    forms = {"array": np.array, "list": list, "tuple": tuple, "float32": lambda p: np.asarray(p, dtype=np.float32), "strided": lambda p: np.repeat(p, 2)[::2], "reversed": lambda p: np.array(p)[::-1].copy()[::-1]}
    profs = [np.eye(g.nlat)[i] for i in range(g.nlat)] + [util.generic(g.nlat, 3), np.zeros(g.nlat), np.cos(phi), np.ones(g.nlat)]
    for (i, p), (name, form) in itertools.product(enumerate(profs), forms.items()):
        t = ts[i % len(ts)]
        case = (i, name, t)
        with rec.guard(case):
            check(rec, bt.init.zonally_symmetric(g, t, u=form(.1 * unit * p)), g, t, .1 * unit * p, (case, "u"))
            if name == "array":
                check(rec, bt.init.zonally_symmetric(g, t, form(.1 * unit * p), None), g, t, .1 * unit * p, (case, "u, positional"))
                check(rec, bt.init.zonally_symmetric(g, time=t, u=form(.1 * unit * p), pv=None), g, t, .1 * unit * p, (case, "u, pv=None"))
            for s in (bt.init.zonally_symmetric(g, t, pv=form(util.rate(om) * p)),) + ((bt.init.zonally_symmetric(g, t, None, form(util.rate(om) * p)), bt.init.zonally_symmetric(g, t, u=None, pv=form(util.rate(om) * p))) if name == "array" else ()):
                want = bt.State(g, t, pv=np.repeat(util.rate(om) * p[:, None], g.nlon, axis=1))
                rec.close(s.pv, want.pv, (case, "pv"), rtol=0., atol=1e-6 * util.rate(om))
                rec.close(s.u, want.u, (case, "pv, u"), rtol=0., atol=1e-5 * unit)
                rec.close(s.v, 0. * want.u, (case, "pv, v"), rtol=0., atol=1e-5 * unit)
                rec.ok(s.grid is g and s.time == t, (case, "pv, grid and time"), lambda: repr(s))
        rec.ev(case, np.any(p))
    # integer profiles are not truncated, whatever is computed from them
    with rec.guard("integers"):
        p = np.arange(g.nlat) % 3
        check(rec, bt.init.zonally_symmetric(g, u=p.tolist()), g, 0., p, "integers")
        check(rec, bt.init.zonally_symmetric(g, u=p), g, 0., p, "integers")
        want = bt.State(g, 0., pv=np.repeat(p[:, None].astype(float), g.nlon, axis=1))
        rec.close(bt.init.zonally_symmetric(g, pv=p).pv, want.pv, "integers, pv", rtol=1e-5)
    # resolved profiles, analytically
    with rec.guard("analytic"):
        nt = min(g.nlat - 2, CONF[c][2] or 99)
        for n in range(1, nt + 1):
            fld = Field(CONF[c][0], CONF[c][1], [(n, 0, "c", .3 * util.rate(om))])
            s = bt.init.zonally_symmetric(g, u=fld.u[:, 0])
            rec.close(s.vorticity, fld.zeta, (n, "vorticity"), rtol=0., atol=5e-5 * util.rate(om))
            s = bt.init.zonally_symmetric(g, pv=coriolis(g, phi, om)[:, 0] + fld.zeta[:, 0])
            rec.close(s.u, fld.u, (n, "u"), rtol=0., atol=5e-5 * unit)
            rec.ev(("analytic", n))


def refuse(rec, c):
    import barotropic as bt
    g, lat, phi, r, om = setup(c)
    p = np.cos(phi)
    z = lambda **kw: lambda: bt.init.zonally_symmetric(g, **kw)
    for name, f in {"none": z(), "None": z(u=None, pv=None), "both": z(u=p, pv=p), "both zero": z(u=0. * p, pv=0. * p), "time only": z(time=4.)}.items():
        rec.raises(ValueError, f, name)
        rec.ev(name)
    for key in ("u", "pv"):
        for name, x in {"short": p[:-1], "long": np.append(p, 0.), "lon": np.ones(g.nlon), "2D": np.ones(g.shape), "column": p[:, None], "row": p[None, :], "empty": p[:0], "scalar": np.float64(3.),
                        "one": p[:1], "half": p[::2], "all": np.ones(g.nlat * g.nlon)}.items():
            rec.raises((AssertionError, ValueError), z(**{key: x}), (key, name))
            rec.ev((key, name))


def fine(rec, res):
    """Winds of well-resolved presets, directly."""
    import barotropic as bt
    g = util.grid(res)
    lat, lon = util.coords(res)
    phi = np.deg2rad(lat)
    cos, sin = np.cos(phi), np.sin(phi)
    cases = {}
    for a, b, d in itertools.product((25., -8.), (30., 4.), (300., 0., -120.)):
        cases["held", a, b, d] = (bt.init.held_1985(g, A=a, B=b, C=d), a * cos - b * cos**3 + d * cos**6 * sin**2)
    for amp, center, stdev in itertools.product((20., -35.), (45., -30., 5.), (10., 14.)):
        cases["jet", amp, center, stdev] = (bt.init.gaussian_jet(g, amplitude=amp, center_lat=center, stdev_lat=stdev), jet_profile(lat, amp, center, stdev))
    for key, (s, u) in cases.items():
        rec.close(s.u, np.repeat(u[:, None], g.nlon, axis=1), key, rtol=0., atol=1e-2 * np.max(np.abs(u)))
        rec.close(s.v, np.zeros(g.shape), key, rtol=0., atol=1e-3)
        rec.ev(key)


def formula(rec, res):
    """Wind of the presets on many grids."""
    import barotropic as bt
    g = util.grid(res)
    lat, lon = util.coords(res)
    phi = np.deg2rad(lat)
    cos, sin = np.cos(phi), np.sin(phi)
    calls = {
        "sbr": (lambda g: bt.init.solid_body_rotation(g, 1., 17.), 17. * cos),
        "jet": (lambda g: bt.init.gaussian_jet(g, 1., 17., -33., 21.), jet_profile(lat, 17., -33., 21.)),
        "narrow": (lambda g: bt.init.gaussian_jet(g, 1., -17., 88., 2.), jet_profile(lat, -17., 88., 2.)),
        "held": (lambda g: bt.init.held_1985(g, 1., 21., 34., 250.), 21. * cos - 34. * cos**3 + 250. * cos**6 * sin**2),
        "u": (lambda g: bt.init.zonally_symmetric(g, 1., u=util.generic(g.nlat, 8)), util.generic(g.nlat, 8)),
    }
    for name, (f, u) in calls.items():
        with rec.guard(name):
            want = bt.State.from_wind(g, 1., np.repeat(u[:, None], g.nlon, axis=1), np.zeros(g.shape))
            rec.close(f(g).pv, want.pv, name, rtol=0., atol=2e-6 * np.max(np.abs(want.pv)))
            rec.ok(abs(u[0]) + abs(u[-1]) < 1e-12 or name == "u", (name, "poles"), "")
        rec.ev(name)
