"""C06: PV, vorticity and wind describe the same state."""

import datetime as dt
import itertools

import numpy as np

from mc import util
from mc.sph import basis, modes

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of harmonics x constructors, conversion chains up to a depth and pairs of states/fields in additions, analytical values as oracle"
RULE = ("all resolved harmonics (complete for linear conversions) x grids x planets x truncations for each constructor; all chains of representations up to depth 3 "
        "(thorough: 4); all ordered pairs of basis states for additions given as arrays or states. Non-trivial: the field is not zero")
ASSUMPTIONS = ["resolved means degree within the truncation and below nlat-1"]

CONF = [(45., "slow", None), (30., "tiny", None), (30., "retro", 3), (20., "slow", None), (36., "tiny", 4), (60., "retro", None), (45., "faint", None), (45., "fierce", None), (30., "still", None)]
TIMES = [0, -2.5, np.float64(7.), util.T0]


def units(tier):
    conf = range(len(CONF))
    out = [["basis", c] for c in conf]
    out += [["chains", c, 3 if tier == "quick" else 4] for c in (0, 1, 2, 4, 6, 7, 8)]
    out += [["add", c, i] for c in (0, 1, 2, 5, 6, 7, 8) + ((4,) if tier == "thorough" else ()) for i in range(3)]
    out += [["fine", n, planet] for n, planet in ((72, "earth"), (90, "retro"), (120, "slow"))]
    return out


class Field:
    """A resolved relative vorticity with its analytical wind."""

    def __init__(self, res, planet, terms):
        nlat, nlon = util.dims(res)
        r, om = util.PLANETS[planet]
        b = basis(nlat, nlat - 1)
        self.zeta = np.zeros((nlat, nlon)); self.u = np.zeros((nlat, nlon)); self.v = np.zeros((nlat, nlon)); self.psi = np.zeros((nlat, nlon))
        for n, m, k, a in terms:
            gx, gy = b.grad(n, m, k)
            psi = -a * r * r / (n * (n + 1.))
            self.zeta += a * b.Y(n, m, k)
            self.psi += psi * b.Y(n, m, k)
            self.u += -psi * gy / r
            self.v += psi * gx / r


def setup(c):
    res, planet, nt = CONF[c]
    g = util.grid(res, planet, nt)
    r, om = util.PLANETS[planet]
    nlat, nlon = util.dims(res)
    lat, lon = util.coords(res)
    f = np.repeat((2. * om * np.sin(np.deg2rad(lat)))[:, None], nlon, axis=1)
    nmax = min(nlat - 2, nt or 99)
    return g, r, om, f, nmax, util.rate(om)


def check(rec, s, fld, f, r, sc, case, t, g):
    tol = 2e-5 * (sc + np.max(np.abs(fld.zeta)))
    rec.close(s.pv, f + fld.zeta, (case, "pv"), rtol=0., atol=tol)
    rec.close(s.vorticity, fld.zeta, (case, "vorticity"), rtol=0., atol=tol)
    rec.close(s.u, fld.u, (case, "u"), rtol=0., atol=tol * r)
    rec.close(s.v, fld.v, (case, "v"), rtol=0., atol=tol * r)
    rec.close(s.streamfunction, fld.psi, (case, "psi"), rtol=0., atol=tol * r * r)
    rec.ok(s.time == t and type(s.time) == type(t), (case, "time"), "{!r} instead of {!r}".format(s.time, t))
    rec.ok(s.grid is g, (case, "grid"), "other grid")


CTORS = {
    "pv": lambda bt, g, t, fld, f: bt.State(g, t, pv=f + fld.zeta),
    "spectral": lambda bt, g, t, fld, f: bt.State(g, t, pv_spectral=g.to_spectral(f + fld.zeta)),
    "vorticity": lambda bt, g, t, fld, f: bt.State.from_vorticity(g, t, fld.zeta),
    "wind": lambda bt, g, t, fld, f: bt.State.from_wind(g, t, fld.u, fld.v),
    "vorticity32": lambda bt, g, t, fld, f: bt.State.from_vorticity(g, t, fld.zeta.astype(np.float32)),
    "kw": lambda bt, g, t, fld, f: bt.State.from_wind(grid=g, time=t, u=fld.u, v=fld.v),
    "kwvort": lambda bt, g, t, fld, f: bt.State.from_vorticity(grid=g, time=t, vorticity=fld.zeta),
    "fortran": lambda bt, g, t, fld, f: bt.State(g, t, np.asfortranarray(f + fld.zeta)),
}

# Conversions of a state into a new state via one of its representations
CHAIN = {
    "pv": lambda bt, s: bt.State(s.grid, s.time, pv=s.pv),
    "avo": lambda bt, s: bt.State(s.grid, s.time, pv=s.avo),
    "spec": lambda bt, s: bt.State(s.grid, s.time, pv_spectral=s.pv_spectral),
    "vort": lambda bt, s: bt.State.from_vorticity(s.grid, s.time, s.vorticity),
    "wind": lambda bt, s: bt.State.from_wind(s.grid, s.time, s.u, s.v),
    "add0": lambda bt, s: s.add_vorticity(np.zeros(s.grid.shape)),
    "addw0": lambda bt, s: s.add_wind((np.zeros(s.grid.shape), np.zeros(s.grid.shape))),
    "double": lambda bt, s: s.add_wind(s).add_vorticity(-s.vorticity),
    "psi": lambda bt, s: bt.State.from_vorticity(s.grid, s.time, s.grid.laplace(s.streamfunction)),
}


def run_unit(unit, rec):
    import barotropic as bt
    if unit[0] == "fine":
        return fine(rec, *unit[1:])
    g, r, om, f, nmax, sc = setup(unit[1])
    res, planet, nt = CONF[unit[1]]
    if unit[0] == "basis":
        for i, (n, m, k) in enumerate(modes(nmax, nmin=1)):
            for a in (sc, -0.3 * sc):
                fld = Field(res, planet, [(n, m, k, a)])
                for name, make in CTORS.items():
                    t = TIMES[i % len(TIMES)]
                    check(rec, make(bt, g, t, fld, f), fld, f, r, sc, (name, n, m, k, a), t, g)
                    rec.ev((name, n, m, k, a))
        # PV with a global mean (not a vorticity of any wind) is kept as well
        for c in (-1., 0.5):
            s = bt.State(g, 0., pv=f + c * sc)
            rec.close(s.pv, f + c * sc, ("mean", c), rtol=2e-5)
            rec.close(s.u, np.zeros(g.shape), ("mean", c, "u"), rtol=0., atol=2e-5 * sc * r)
            rec.ev(("mean", c))
        z = np.zeros(g.shape)
        rec.raises((AssertionError, ValueError), lambda: bt.State(g, 0., pv=z, pv_spectral=g.to_spectral(z)), "pv and pv_spectral")
    elif unit[0] == "chains":
        fld = Field(res, planet, [(n, m, k, sc * a) for (n, m, k), a in zip(modes(nmax, nmin=1), util.lcg(200, 3))])
        for t in TIMES:
            start = bt.State(g, t, pv=f + fld.zeta)
            stack = [((), start)]
            while stack:
                hist, s = stack.pop()
                if hist:
                    check(rec, s, fld, f, r, 4 * sc, (hist, str(t)), t, g)
                    rec.ev((hist, str(t)))
                if len(hist) < unit[2] and (t == TIMES[0] or len(hist) < 2):
                    for name, conv in CHAIN.items():
                        stack.append((hist + (name,), conv(bt, s)))
    elif unit[0] == "add":
        lst = list(modes(min(nmax, 3), nmin=1))
        flds = [Field(res, planet, [(n, m, k, sc * (1. - 0.1 * i))]) for i, (n, m, k) in enumerate(lst)]
        for i, j in itertools.product(range(len(lst)), repeat=2):
            if (i + j) % 3 != unit[2]:
                continue
            A, B = flds[i], flds[j]
            both = Field(res, planet, [(*lst[i], sc * (1. - 0.1 * i)), (*lst[j], sc * (1. - 0.1 * j))])
            t = TIMES[i % len(TIMES)]
            sa = bt.State(g, t, pv=f + A.zeta)
            sb = bt.State(g, TIMES[(i + 1) % len(TIMES)], pv=f + B.zeta)
            for pre in ("none", "access"):
                if pre == "access":
                    sa.u, sb.v, sb.pv, sa.vorticity
                forms = {
                    "wind": lambda: sa.add_wind((B.u, B.v)), "windlist": lambda: sa.add_wind([B.u, B.v]), "windstate": lambda: sa.add_wind(sb),
                    "vort": lambda: sa.add_vorticity(B.zeta), "vortstate": lambda: sa.add_vorticity(sb),
                }
                for name, make in forms.items():
                    case = (name, lst[i], lst[j], pre)
                    s = make()
                    if name in ("wind", "windlist"):
                        # the documented meaning of a wind tuple is checked as it is stated: both winds are added
                        pass
                    check(rec, s, both, f, r, 2 * sc, case, t, g)
                    rec.ev(case)
        other = util.grid(res, "earth", nt)
        so = bt.State(other, 0., pv=other.fcor2)
        rec.raises((AssertionError, ValueError), lambda: sa.add_wind(so), "other grid")
        rec.raises((AssertionError, ValueError), lambda: sa.add_vorticity(so), "other grid")
        rec.raises((AssertionError, ValueError), lambda: sa.add_vorticity(np.zeros((2, 3))), "shape")
        rec.raises((AssertionError, ValueError), lambda: sa.add_wind((np.zeros((2, 3)), np.zeros(g.shape))), "shape")
        rec.raises((AssertionError, ValueError), lambda: sa.add_wind((np.zeros(g.shape), np.zeros((2, 3)))), "shape")
        for shape in ((1, g.nlon), (g.nlat, 1)):          # (could be broadcast)
            rec.raises((AssertionError, ValueError), lambda: sa.add_wind((np.zeros(shape), np.zeros(g.shape))), ("shape", shape))
            rec.raises((AssertionError, ValueError), lambda: sa.add_wind((np.zeros(g.shape), np.zeros(shape))), ("shape", shape))
            rec.raises((AssertionError, ValueError), lambda: sa.add_vorticity(np.zeros(shape)), ("shape", shape))


def fine(rec, n, planet):
    """Default resolution and finer grids."""
    import barotropic as bt
    res = 180. / n
    g = util.grid(res, planet)
    r, om = util.PLANETS[planet]
    sc = util.rate(om)
    lat, _ = util.coords(res)
    f = np.repeat((2. * om * np.sin(np.deg2rad(lat)))[:, None], 2 * n, axis=1)
    flds = []
    for l in (1, 2, 5, n // 2, n - 2):
        for m in sorted({0, 1, l // 2, l}):
            flds.append(((l, m), [(l, m, "s" if m and l % 2 else "c", .5 * sc)]))
    flds.append(("many", [(l, m, "c", .1 * sc) for l in range(1, n, 3) for m in range(0, l + 1, 5)]))
    made = [(name, Field(res, planet, terms), terms) for name, terms in flds]
    for i, (name, fld, terms) in enumerate(made):
        t = TIMES[i % len(TIMES)]
        for ctor, make in CTORS.items():
            with rec.guard((name, ctor)):
                s = make(bt, g, t, fld, f)
                check(rec, s, fld, f, r, 2. * sc, (name, ctor), t, g)
                if ctor == "pv":
                    for conv, c in CHAIN.items():
                        if conv == "psi":
                            continue                # amplifies rounding errors on fine grids
                        check(rec, c(bt, s), fld, f, r, 4. * sc, (name, ctor, conv), t, g)
                        rec.ev((name, conv))
            rec.ev((name, ctor))
        oname, other, oterms = made[(i + 3) % len(made)]
        both = Field(res, planet, terms + oterms)
        with rec.guard((name, "add")):
            sa, sb = bt.State(g, t, pv=f + fld.zeta), bt.State(g, 1., pv=f + other.zeta)
            for k, s in enumerate((sa.add_wind((other.u, other.v)), sa.add_wind(sb), sa.add_vorticity(other.zeta), sa.add_vorticity(sb))):
                check(rec, s, both, f, r, 4. * sc, (name, oname, k), t, g)
                rec.ev((name, oname, k))
