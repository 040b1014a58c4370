"""C26: plots show the right data at the right coordinates."""

import contextlib
import datetime as dt
import itertools
import re

import numpy as np

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of figures x hemispheres x centers x states x options with interception of the artists, and of the plotting helpers, against the fields at the labelled coordinates"
RULE = ("all meridians and positions between as centers; all figures x hemisphere options x centers x states x overrides. Every filled and line contour, arrow and line is compared with the field "
        "at the true longitude (as labelled on the axis) and latitude; panels are identified by their titles. Helpers: all sizes, levels, profiles and numbers of states up to bounds. "
        "Non-trivial: the center is not 180° or the field is not constant")
ASSUMPTIONS = ["centers exactly between two meridians may use either", "tick labels are rounded to full degrees"]


def units(tier):
    quick = tier == "quick"
    out = [["roll", n] for n in range(2, 25 if quick else 49)]
    out += [["reduce", n] for n in (3, 4, 6, 9, 13, 18, 36, 72)] + [["levels"], ["hov", 4], ["hov", 6], ["hov", 9], ["hov", 72], ["lat"]]
    figs = ("summary", "wave_activity", "rwp_diagnostics")
    for res in (20., 15.) if quick else (20., 15., 12., 10., 9., 6., 5.):
        n = int(360 / res)
        centers = [0., 180., 200., 359.9, -90., 77.] if quick else [i * res for i in range(n)] + [.3 * res, 359.9, -90., 77., 725.]
        for fig, hemi in itertools.product(figs, ("both", "N", "S")):
            for i in range(0, len(centers), 6):
                out.append(["figure", fig, res, hemi, centers[i:i + 6]])
    if quick:
        # default resolution
        out += [["figure", fig, 2.5, "both", [180., 77.]] for fig in figs]
    out += [["options", fig] for fig in figs] + [["waveguides", res, hemi, name] for res in ((20., 10., 2.5) if quick else (20., 15., 12., 10., 9., 6., 5., 2.5)) for hemi in ("both", "N", "S") for name in ("waves", "jet", "held", "sbr")]
    out += [["kinds", fig, kind] for fig in figs for kind in KINDS]
    out += [["shortcuts"], ["still"]]
    return out


def run_unit(unit, rec):
    import matplotlib
    matplotlib.use("Agg")
    {"roll": roll, "reduce": reduce, "levels": levels, "hov": hov, "lat": lat_axis, "figure": figure, "options": options, "waveguides": waveguides,
     "shortcuts": shortcuts, "kinds": kinds, "still": still}[unit[0]](rec, *unit[1:])


# Helpers

def offset_of(ax, spacing, nlon):
    """True longitude minus position, as labelled, in grid spacings. None: not labelled."""
    ticks, labels = ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]
    offs = set()
    pairs = []
    for p, l in zip(ticks, labels):
        m = re.match(r"^\s*([-−]?\d+(?:\.\d+)?)\s*°\s*$", l)
        if m:
            pairs.append((p, float(m.group(1).replace("−", "-"))))
    for k in range(nlon):
        if all(abs((l - p - k * spacing + 180.) % 360. - 180.) <= .5001 for p, l in pairs):
            offs.add(k)
    return (offs.pop() if len(offs) == 1 else None), pairs


def roll(rec, n):
    import matplotlib.pyplot as plt
    from barotropic import plot
    nlon = 2 * n
    lon = np.arange(nlon) * (360. / nlon)
    res = 360. / nlon
    field = np.arange(3 * nlon).reshape(3, nlon)
    fig, ax = plt.subplots()
    try:
        centers = [i * res + d * res for i in range(nlon) for d in (0., .3, -.45)] + [-90., -.2 * res, 359.99, 360., 540., 180, 0, np.float64(77.)]
        for c in centers:
            dist = np.abs((lon - c + 180.) % 360. - 180.)
            best = set(np.flatnonzero(dist <= dist.min() + 1e-9))
            with rec.guard(c):
                f, conf = plot.roll_lon(lon, c)
                g = f(field)
                mid = nlon // 2
                got = int(g[0, mid])
                rec.ok(got in best, (c, "center"), lambda: "{}° instead of {}".format(lon[got], [lon[b] for b in best]))
                rec.ok(np.array_equal(g, np.roll(field, mid - got, axis=1)), (c, "rolled"), lambda: str(g))
                ax.cla()
                ax.plot(lon, g[0])
                conf(ax)
                ticks, labels = ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]
                true = (ticks - lon[mid] + lon[got]) % 360.
                good = len(ticks) >= 4 and len(ticks) == len(labels)
                for t, l in zip(true, labels):
                    m = re.match(r"^(-?\d+)°$", l)
                    good = good and m is not None and abs((float(m.group(1)) - t + 180.) % 360. - 180.) <= .5001 and 0 <= float(m.group(1)) <= 360
                rec.ok(good, (c, "labels"), lambda: "{} instead of {}".format(labels, true))
                if c == 180:
                    f2, _ = plot.roll_lon(lon)
                    rec.ok(np.array_equal(f2(field), g), (c, "default"), "")
            rec.ev(c)
        ax.cla()
        plot.configure_lon_x(ax)
        rec.ok([t.get_text() for t in ax.get_xticklabels()] == ["{:.0f}°".format(x) for x in ax.get_xticks()], "no offset", lambda: str([t.get_text() for t in ax.get_xticklabels()]))
    finally:
        plt.close(fig)


def reduce(rec, n):
    from barotropic import plot
    lat, lon = util.coords(180. / n)
    lon2, lat2 = np.meshgrid(lon, lat)
    u, v = 1000. * lon2 + lat2, lat2 * 7. - lon2
    for ny in list(range(1, n + 8)) + [100, 2.5, 13.]:
        with rec.guard(ny):
            x, y, a, b = plot.reduce_vectors(lon2, lat2, u, v, ny)
            rec.ok(x.ndim == 2 and x.shape == y.shape == a.shape == b.shape and x.size > 0, (ny, "shape"), lambda: str((x.shape, y.shape)))
            rec.ok(np.array_equal(a, 1000. * x + y) and np.array_equal(b, 7. * y - x), (ny, "matched"), "")
            rows, cols = [list(lat).index(t) for t in y[:, 0]], [list(lon).index(t) for t in x[0]]
            s = {q - p for z in (rows, cols) for p, q in zip(z[:-1], z[1:])}
            rec.ok(len(s) <= 1, (ny, "stride"), lambda: str(s))
            rec.ok(len(rows) >= min(ny, n + 1) - 1 and len(rows) <= 2 * ny + 1, (ny, "number"), lambda: str(len(rows)))
        rec.ev(ny)


def levels(rec):
    from barotropic import plot
    arrays = {"both": np.array([[-2., 5.], [1., 0.]]), "negative": np.array([-7., -3.]), "positive": np.array([3., 4.]), "int": np.array([-9, 2]), "one": np.array([4.]), "small": 1e-12 * np.array([1., -3.])}
    for (name, x), n, ext in itertools.product(arrays.items(), range(2, 20), (None, 2, .5, 1e-5, 100.)):
        with rec.guard((name, n, ext)):
            l = plot.symmetric_levels(x, n, ext)
            e = np.max(np.abs(x)) if ext is None else ext
            rec.close(l, [e * (2. * i / (n - 1) - 1.) for i in range(n)], (name, n, ext), rtol=1e-12)
            rec.close(plot.symmetric_levels(x=x, n=n, ext=ext), l, (name, n, ext, "keywords"), rtol=0.)
        rec.ev((name, n, ext))
    for x in (np.zeros(3), np.zeros((2, 2), dtype=int)):
        with rec.guard("zero"):
            l = plot.symmetric_levels(x)
            rec.ok(len(l) > 1 and np.all(np.diff(l) > 0.) and np.allclose(l, -l[::-1]), "zero", lambda: str(l))
            l = plot.symmetric_levels(np.ones(3), 5, 0.)
            rec.ok(len(l) > 1 and np.all(np.diff(l) > 0.) and np.allclose(l, -l[::-1]), "ext zero", lambda: str(l))
        rec.ev(str(x))
    with rec.guard("default"):
        rec.ok(len(plot.symmetric_levels(np.ones(2))) == 10, "default", "")


def hov(rec, n):
    import barotropic as bt
    from barotropic import plot
    res = 180. / n
    g = util.cached_grid(res)
    lat, lon = util.coords(res)
    axes = {"float": [0., 3600., 1e4, 1.1e4], "int": [1, 5, 7, 11], "dates": [util.T0 + dt.timedelta(hours=h) for h in (0, 3, 7, 20)], "repeated": [2., 2., 3., 3.], "unsorted": [3., 1., 7., 2.], "backward": [util.T0 - dt.timedelta(hours=h) for h in (0, 3, 7, 20)]}
    funcs = {"zonal": (lambda s: s.v[1], "lon"), "mean": (lambda s: s.u.mean(axis=1), "lat"), "meridional": (lambda s: s.v[:, 3], "lat"), "average": (lambda s: s.pv.mean(axis=0), "lon"), "ints": (lambda s: np.arange(g.nlat) * int(1 + 1e6 * abs(s.pv[1, 1])), "lat")}
    # as many states as latitudes or longitudes, too
    axes["long"] = [300. * i for i in range(g.nlon + 2)]
    every = [bt.State(g, 0., pv=g.fcor2 + 1e-5 * util.wavy(res, [(1, 1, "c", 1. + i), (2, 1, "s", .5 * i)])) for i in range(g.nlon + 2)]
    counts = sorted({1, 2, 3, 4} | {m + d for m in (g.nlat, g.nlon) for d in (-1, 0, 1)})
    for (an, axis), k, (fn, (f, dim)), form in itertools.product(axes.items(), counts, funcs.items(), (list, tuple, bt.StateList)):
        if k > len(axis):
            continue
        ss = [bt.State(g, t, pv_spectral=every[i].pv_spectral) for i, t in enumerate(axis[:k])]
        case = (an, k, fn, form.__name__)
        with rec.guard(case):
            x, y, z = plot.hovmoellerify(form(ss), f)
            want = np.array([f(s) for s in ss])
            x, y, z = np.asarray(x), np.asarray(y), np.asarray(z)
            t, c, want = (y, x, want) if dim == "lon" else (x, y, want.T)
            rec.ok(list(t) == axis[:k], (case, "times"), lambda: str(t))
            rec.close(c, lon if dim == "lon" else lat, (case, "coordinate"), rtol=1e-12)
            rec.close(z, want, (case, "field"), rtol=0.)
            rec.ok(z.shape == (y.size, x.size), (case, "shape"), lambda: str(z.shape))
        rec.ev(case)
    rec.raises(ValueError, lambda: plot.hovmoellerify([], lambda s: s.u[0]), "empty")
    rec.raises(ValueError, lambda: plot.hovmoellerify(bt.StateList([]), lambda s: s.u[0]), "empty")
    for m in (1, 2, g.nlon + 1, g.nlat + 1, g.nlat - 1):
        if m not in (g.nlat, g.nlon):
            rec.raises(ValueError, lambda: plot.hovmoellerify(ss, lambda s: np.zeros(m)), ("size", m))
            rec.ev(m)
    rec.raises(ValueError, lambda: plot.hovmoellerify(ss, lambda s: s.u), "2D")


def lat_axis(rec):
    import matplotlib.pyplot as plt
    from barotropic import plot
    for h, want in (("N", (0, 90)), ("S", (-90, 0)), ("both", (-90, 90)), (None, (-90, 90)), ("x", (-90, 90)), (3, (-90, 90))):
        fig, ax = plt.subplots()
        with rec.guard(h):
            ax.plot([0, 1], [-20, 30])
            plot.configure_lat_y(ax, h)
            rec.ok(tuple(ax.get_ylim()) == want, h, lambda: str(ax.get_ylim()))
            fig.canvas.draw()
            for t, l in zip(ax.get_yticks(), ax.get_yticklabels()):
                rec.ok(l.get_text().replace("−", "-") == "{:.0f}°".format(t), (h, t), lambda: l.get_text())
        plt.close(fig)
        rec.ev(h)


# Figures

@contextlib.contextmanager
def intercepted():
    """Record the gridded data given to contour plots."""
    from matplotlib.axes import Axes
    calls = []
    original = {name: getattr(Axes, name) for name in ("contour", "contourf")}

    def wrap(name):
        def method(self, *args, **kwargs):
            out = original[name](self, *args, **kwargs)
            data = [np.array(a, dtype=float) for a in args[:3]]
            calls.append((self, name, data, out))
            return out
        return method
    for name in original:
        setattr(Axes, name, wrap(name))
    try:
        yield calls
    finally:
        for name, f in original.items():
            setattr(Axes, name, f)


def panel(fig, text):
    found = [ax for ax in fig.axes if text in ax.get_title(loc="left")]
    assert len(found) == 1, "{} panels titled {}".format(len(found), text)
    return found[0]


class Figure:
    """Comparison of the panels of a figure with fields."""

    def __init__(self, rec, fig, calls, grid, center, hemi, case):
        self.rec, self.fig, self.calls, self.grid, self.center, self.hemi, self.case = rec, fig, calls, grid, center, hemi, case
        self.lat, self.lon = util.coords(180. / (grid.nlat - 1))

    def limits(self, ax, case):
        want = (0 if self.hemi == "N" else -90, 0 if self.hemi == "S" else 90)
        self.rec.ok(tuple(ax.get_ylim()) == want, (self.case, case, "latitudes shown"), lambda: "{} instead of {}".format(ax.get_ylim(), want))

    def map(self, title, filled, lines, time, quiver=None, cmap=None, sym=None, rounding=0.):
        rec, case = self.rec, (self.case, title)
        ax = panel(self.fig, title)
        self.limits(ax, title)
        rec.ok(ax.get_title(loc="right") == time, (case, "time"), lambda: ax.get_title(loc="right"))
        n, res = self.lon.size, 360. / self.lon.size
        off, pairs = offset_of(ax, res, n)
        if not rec.ok(off is not None and len(pairs) >= 4, (case, "longitude labels"), lambda: str(pairs)):
            return
        # columns from West to East on the axis
        true = (np.arange(n) + off) % n
        dist = np.abs((self.lon - self.center + 180.) % 360. - 180.)
        rec.ok(dist[true[n // 2]] <= dist.min() + 1e-9, (case, "center"), lambda: "{}° at the center instead of {}°".format(self.lon[true[n // 2]], self.center))
        drawn = {"contourf": [], "contour": []}
        for a, name, data, out in self.calls:
            if a is ax:
                drawn[name].append((data, out))
        rec.ok(len(drawn["contourf"]) == 1, (case, "filled contours"), lambda: str(len(drawn["contourf"])))
        # there are no contours of a constant
        flat = lines is not None and not lines.min() < lines.max()
        rec.ok(len(drawn["contour"]) == (lines is not None) or (flat and not drawn["contour"]), (case, "contours"), lambda: str(len(drawn["contour"])))
        for name, want in (("contourf", filled), ("contour", lines)):
            if want is None:
                continue
            for data, out in drawn[name]:
                if not rec.ok(len(data) == 3, (case, name, "coordinates"), "not given"):
                    continue
                x, y, z = data
                x2, y2 = (x, y) if x.ndim == 2 else np.meshgrid(x, y)
                rec.close(x2, np.repeat(self.lon[None, :], self.lat.size, axis=0), (case, name, "x"), rtol=1e-9)
                rec.close(y2, np.repeat(self.lat[:, None], n, axis=1), (case, name, "y"), rtol=1e-9)
                rec.close(z, want[:, true], (case, name, "field"), rtol=1e-6, atol=rounding)
                lev = np.asarray(out.levels, dtype=float)
                rec.ok(np.all(np.diff(lev) > 0.), (case, name, "levels"), lambda: str(lev))
                if name == "contourf":
                    if sym is not None:
                        lo, hi = sym
                        rec.ok(len(lev) >= 2 and np.isclose(lev[0], lo, atol=1e-6 * hi + rounding) and np.isclose(lev[-1], hi, atol=rounding), (case, "range of levels"), lambda: "{} instead of {}".format(lev[[0, -1]], sym))
                        rec.ok(np.allclose(np.diff(lev), lev[1] - lev[0]), (case, "spacing of levels"), lambda: str(lev))
                    if cmap is not None:
                        rec.ok(out.cmap.name == cmap, (case, "colormap"), lambda: out.cmap.name)
                    rec.ok(out.colorbar is not None, (case, "colorbar"), "none")
                elif want.min() < want.max():
                    # some contour is drawn where the field has values
                    rec.ok(lev.size and lev[0] <= want.max() and lev[-1] >= want.min(), (case, "levels in range"), lambda: "{} {} {}".format(lev, want.min(), want.max()))
        from matplotlib.quiver import Quiver
        q = [c for c in ax.collections if isinstance(c, Quiver)]
        rec.ok(len(q) == (quiver is not None), (case, "vectors"), lambda: str(len(q)))
        for c in q if quiver is not None else []:
            i = np.round(np.asarray(c.X, dtype=float).ravel() / res).astype(int)
            j = np.round((90. - np.asarray(c.Y, dtype=float).ravel()) / res).astype(int)
            rec.ok(np.allclose(i * res, np.ravel(c.X)) and np.allclose(90. - j * res, np.ravel(c.Y)) and i.size >= 20 and len(set(zip(i, j))) == i.size, (case, "vector positions"), lambda: str((i.size, c.X[:9])))
            for k, w in enumerate((c.U, c.V)):
                rec.close(np.asarray(w, dtype=float).ravel(), quiver[k][j, true[i % n]], (case, "vectors", "uv"[k]), rtol=1e-6)

    def profiles(self, title, want, exact=True):
        """want: {label or None: profile}"""
        rec, case = self.rec, (self.case, title)
        ax = panel(self.fig, title)
        self.limits(ax, title)
        lines = [l for l in ax.lines if len(l.get_xdata()) == self.lat.size]
        rec.ok(len(lines) == len(want), (case, "lines"), lambda: str([l.get_label() for l in lines]))
        for label, x in want.items():
            sel = [l for l in lines if label is None or l.get_label() == label]
            if rec.ok(len(sel) == 1, (case, label), lambda: str([l.get_label() for l in lines])):
                rec.close(np.asarray(sel[0].get_ydata(), dtype=float), self.lat, (case, label, "latitude"), rtol=1e-9)
                rec.close(np.asarray(sel[0].get_xdata(), dtype=float), x, (case, label, "profile"), rtol=1e-5)
        if len(want) > 1:
            rec.ok(ax.get_legend() is not None and sorted(t.get_text() for t in ax.get_legend().get_texts()) == sorted(want), (case, "legend"), "")


def sample(res, kind="waves", time=None, planet="earth"):
    import barotropic as bt
    g = util.cached_grid(res, planet)
    if kind == "motionless":
        return bt.init.motionless(g, time=0. if time is None else time)
    z = 1e-5 * util.wavy(res, [(2, 1, "c", 1.), (3, 2, "s", 1.5), (5, 4, "c", 1.2), (6, 4, "s", .8), (1, 0, "c", 1.), (3, 0, "c", -1.), (7, 5, "s", 1.)])
    if kind == "zonal":
        z = 1e-5 * util.wavy(res, [(1, 0, "c", 1.), (3, 0, "c", -1.)])
    more = {"long": [(1, 1, "c", 1.), (2, 1, "s", 2.), (1, 0, "c", 2.)], "short": [(5, 5, "c", 1.), (6, 5, "s", 2.), (1, 0, "c", 2.)],
            "northward": [(3, 3, "c", 1.), (6, 6, "c", .7), (2, 0, "c", 1.)], "southward": [(3, 3, "c", -1.), (6, 6, "c", -.7), (2, 0, "c", 1.)],
            "strong": [(4, 3, "s", 20.), (3, 0, "c", 8.)], "weak": [(4, 3, "s", .6), (3, 0, "c", .3)], "retrograde": [(2, 2, "c", .4), (1, 0, "c", -30.)]}
    if kind in more:
        z = 1e-5 * util.wavy(res, more[kind])
    return bt.State.from_vorticity(g, 7200. if time is None else time, z)


KINDS = ["long", "short", "northward", "southward", "strong", "weak", "retrograde"]


def time_text(t):
    return {0.: "t = 0.0 s", 7200.: "t = 120.0 min", 60.: "t = 60.0 s"}[t] if not isinstance(t, dt.datetime) else t.isoformat()


def draw(rec, name, s, hemi, center, case, **kw):
    import matplotlib.pyplot as plt
    from barotropic import diagnostics, plot
    plt.close("all")
    g = s.grid
    with intercepted() as calls, rec.guard(case):
        f = getattr(plot, name)
        args = dict(kw)
        if hemi is not None:
            args["hemisphere"] = hemi
        if center is not None:
            args["center_lon"] = center
        fig = f(s, **args)
        rec.ok(plt.get_fignums() == [fig.number], (case, "figures"), lambda: str(plt.get_fignums()))
        fg = Figure(rec, fig, calls, g, 180. if center is None else center, hemi, case)
        time = time_text(s.time)
        pv, u, v, psi = (np.asarray(x, dtype=float) for x in (s.pv, s.u, s.v, s.streamfunction))
        mx = lambda x: np.max(np.abs(x))
        rng = lambda e: (-e, e) if e > 0. else (-1., 1.)
        if name == "summary":
            fg.profiles("zonal mean vort. [$10^{-4}", {"pla.": 1e4 * 2. * g.omega * np.sin(np.deg2rad(fg.lat)), "rel.": 1e4 * np.asarray(s.vorticity, dtype=float).mean(axis=1), "pot.": 1e4 * pv.mean(axis=1)})
            fg.profiles("mean zonal wind", {None: u.mean(axis=1)})
            moving = mx(u) > 0. or mx(v) > 0.
            fg.map("PV [$10^{-4}", 1e4 * pv, None, time, quiver=(u, v) if moving else None, cmap=kw.get("pv_cmap", "viridis"), sym=rng(1e4 * kw["pv_max"] if kw.get("pv_max") is not None else mx(1e4 * pv)))
            fg.map("meridional wind", v, psi, time, sym=rng(kw["v_max"] if kw.get("v_max") is not None else mx(v)))
        elif name == "wave_activity":
            zl = 1e4 * np.asarray(s.pv_zonalized, dtype=float)
            fg.profiles("zonalized PV [$10^{-4}", {"equiv. lat.": zl, "mean": 1e4 * pv.mean(axis=1)})
            fg.profiles("FAWA", {None: np.asarray(s.fawa, dtype=float)})
            dev = 1e4 * pv - zl[:, None]
            fg.map("deviation from equiv. lat. PV [$10^{-4}", dev, 1e4 * pv, time, sym=rng(mx(dev)), rounding=1e-6 * mx(1e4 * pv))
            fg.map("FALWA", np.asarray(s.falwa, dtype=float), 1e4 * pv, time, cmap=kw.get("falwa_cmap", "YlOrRd"))
        else:
            dwn = np.asarray(diagnostics.dominant_wavenumber_wavelet(s.v, g), dtype=float)
            env = np.asarray(s.v_envelope_hilbert, dtype=float)
            ff = np.asarray(diagnostics.filter_by_wavenumber(s.falwa, 2 * dwn), dtype=float)
            top = kw["rwp_max"] if kw.get("rwp_max") is not None else max(env.max(), ff.max())
            top = top if top > 0. else 1.
            fg.map("meridional wind", v, dwn, time, sym=rng(kw["v_max"] if kw.get("v_max") is not None else mx(v)))
            fg.map("RWP envelope", env, psi, time, cmap=kw.get("rwp_cmap", "YlOrRd"), sym=(0., top))
            fg.map("filtered FALWA", ff, pv, time, cmap=kw.get("rwp_cmap", "YlOrRd"), sym=(0., top))
    plt.close("all")


def figure(rec, name, res, hemi, centers):
    s = sample(res)
    for c in centers:
        draw(rec, name, s, hemi, c, (name, hemi, c))
        rec.ev((name, hemi, c))


def options(rec, name):
    res = 20.
    opts = {"summary": [{"pv_max": 5e-4}, {"v_max": 3.}, {"pv_cmap": "magma"}, {"pv_max": 2e-4, "v_max": 50, "figsize": (6, 4)}],
            "wave_activity": [{"falwa_cmap": "magma"}, {"figsize": (6, 4)}],
            "rwp_diagnostics": [{"v_max": 3.}, {"rwp_max": 20.}, {"rwp_cmap": "magma"}, {"v_max": 100., "rwp_max": 5, "figsize": (5, 8)}]}[name]
    for kw in opts:
        for time in (0., util.T0):
            draw(rec, name, sample(res, time=time), "both", 0., (name, sorted(kw.items()), time), **kw)
            rec.ev((name, sorted(kw.items()), time))
    # defaults
    draw(rec, name, sample(res, time=60.), None, None, (name, "defaults"))
    rec.ev((name, "defaults"))


def kinds(rec, name, kind):
    for hemi, c in (("both", 90.), ("N", 250.), ("S", 0.)):
        draw(rec, name, sample(15., kind), hemi, c, (name, kind, hemi, c))
        rec.ev((name, kind, hemi, c))


def still(rec):
    """States without any wind or waves, also on a planet that does not rotate."""
    for res, name, hemi in itertools.product((20., 15.), ("summary", "wave_activity", "rwp_diagnostics"), ("both", "N", "S")):
        for planet, kind in itertools.product(("earth", "still"), ("motionless", "zonal")):
            draw(rec, name, sample(res, kind, planet=planet), hemi, 90., (name, kind, planet, res, hemi))
            rec.ev((name, kind, planet, res, hemi))


def waveguides(rec, res, hemi, only):
    import matplotlib.pyplot as plt
    from barotropic import diagnostics, plot
    import barotropic as bt
    g = util.cached_grid(res)
    lat, lon = util.coords(res)
    states = {"waves": sample(res), "jet": bt.init.gaussian_jet(g, amplitude=30., center_lat=40., stdev_lat=15.), "held": bt.init.held_1985(g), "sbr": bt.init.solid_body_rotation(g, amplitude=20.)}
    for (name, s), ks, lim, loc in itertools.product([(only, states[only])], (None, 3, [4], (2, 5.5, 7), np.int64(6), iter([3, 8]), range(2, 5)), (None, (-2, 8), (0, 30), (-40, 3)), (None, "best")):
        if lim is not None and loc is None and not isinstance(ks, int):
            continue
        if hasattr(ks, "__next__"):
            ks = [3, 8]
            given = iter(ks)
        else:
            given = ks
        case = (name, str(ks), lim, loc, hemi)
        plt.close("all")
        with rec.guard(case):
            kw = {} if lim is None else {"klim_bounds": lim}
            if loc is not None:
                kw["legend_loc"] = loc
            fig = plot.waveguides(s, given, hemisphere=hemi, **kw) if ks is not None else plot.waveguides(s, hemisphere=hemi, **kw)
            ax = panel(fig, "zonal wind")
            fg = Figure(rec, fig, [], g, 0., hemi, case)
            fg.profiles("zonal wind", {None: np.asarray(s.u, dtype=float).mean(axis=1)})
            ax = panel(fig, "stationary wavenumber")
            fg.limits(ax, "ks")
            c = s.stationary_wavenumber
            real = np.where(np.imag(c) != 0., -np.imag(c), np.real(c))
            curves = [l for l in ax.lines if l.get_color() == "#000000"]
            if rec.ok(len(curves) == 1, (case, "curve"), lambda: str(len(curves))):
                rec.close(np.asarray(curves[0].get_xdata(), dtype=float), real, (case, "Ks"), rtol=1e-5)
                rec.close(np.asarray(curves[0].get_ydata(), dtype=float), lat, (case, "latitudes"), rtol=1e-9)
            want = [] if ks is None else [ks] if np.ndim(ks) == 0 else list(ks)
            for k in want:
                sel = [l for l in ax.lines if l.get_label() == "k={}".format(k)]
                if not rec.ok(len(sel) == 1, (case, "k", k), lambda: str([l.get_label() for l in ax.lines])):
                    continue
                x, y = np.asarray(sel[0].get_xdata(), dtype=float), np.asarray(sel[0].get_ydata(), dtype=float)
                rec.ok(np.all(x[~np.isnan(y)] == k), (case, "k", k, "x"), lambda: str(x))
                # connected points are the waveguides
                segs, cur = [], []
                for p in list(y) + [np.nan]:
                    if np.isnan(p):
                        if cur:
                            segs.append(tuple(cur))
                        cur = []
                    else:
                        cur.append(p)
                ref = [tuple(w) for w in diagnostics.extract_ks_waveguides(s, k)]
                rec.ok(len(segs) == len(ref) and np.allclose(segs, ref), (case, "k", k, "bands"), lambda: "{} instead of {}".format(segs, ref))
            rec.ok((ax.get_legend() is not None) == (loc is not None), (case, "legend"), "")
            b = (-5, 15) if lim is None else lim
            x0, x1 = ax.get_xlim()
            rec.ok(b[0] <= x0 < x1 <= b[1], (case, "limits"), lambda: str((x0, x1)))
            ticks = ax.get_xticks()
            rec.ok(np.all(ticks == np.round(ticks)), (case, "integer ticks"), lambda: str(ticks))
            if x0 < 0. < x1 - 1.:
                rec.ok(0. in ticks, (case, "0 is ticked"), lambda: "{} {}".format((x0, x1), ticks))
        plt.close("all")
        rec.ev(case)


def shortcuts(rec):
    """state.plot.* draw the same figures but return nothing."""
    import matplotlib.pyplot as plt
    from barotropic import plot
    s = sample(20.)
    for name, args, kw in (("summary", (), {"center_lon": 60.}), ("summary", ((6, 5), "N", 20.), {}), ("wave_activity", (), {"hemisphere": "S"}), ("rwp_diagnostics", (), {"center_lon": 0, "v_max": 3.}),
                           ("waveguides", ((3, 4),), {}), ("waveguides", (), {"k_waveguides": 5, "legend_loc": "best"})):
        out = []
        for f in (lambda: getattr(s.plot, name)(*args, **kw), lambda: getattr(plot, name)(s, *args, **kw)):
            plt.close("all")
            with rec.guard((name, str(kw))):
                r = f()
                nums = plt.get_fignums()
                rec.ok(len(nums) == 1, (name, "figures"), lambda: str(nums))
                fig = plt.figure(nums[0])
                rec.ok((r is None) if not out else r is fig, (name, "return"), lambda: repr(r))
                fig.canvas.draw()
                out.append(np.array(fig.canvas.buffer_rgba()))
        rec.ok(len(out) == 2 and np.array_equal(*out), (name, str(kw), "pixels"), "shortcut draws something else")
        plt.close("all")
        rec.ev((name, str(kw)))
