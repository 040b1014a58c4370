"""C04: invariants and symmetries of the unforced (and mountain-forced) flow."""

import itertools

import numpy as np

from mc import util
from mc.sph import basis, modes

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of harmonics and pairs of harmonics (complete for a quadratic tendency), of all rotations and mirrorings, on the real model"
RULE = ("tendency: all single harmonics and all pairs with degree sum within the exactly representable range, against the analytical Jacobian; Rossby-Haurwitz: all "
        "degrees, orders and pairs of orders, with and without solid body rotation; steadiness: all zonal harmonics and pairs; symmetry: all rotations by "
        "gridpoints and mirroring, for all forcings of the alphabet. Non-trivial: the expected tendency is non-zero (or the state is not symmetric)")
ASSUMPTIONS = ["analytical values hold where products of the fields are resolved by the quadrature of spharm (degrees up to nlat/2 - 1)",
               "deviations below single precision rounding of the participating terms are not violations"]

PL = ("slow", "tiny", "retro", "faint", "fierce", "still")
FORCINGS = ("none", "gauss", "orog", "sine", "relax", "bg")


def units(tier):
    out = []
    big = tier == "thorough"
    for p in PL:
        for res in (22.5, 15.) + ((12., 10.) if big else ()):
            out += [["pairs", p, res, i] for i in range(4)]
        for res in (15., 10.):
            out += [["rh", p, res, nt] for nt in (None, 10)]
        for res in (45., 30., 22.5):
            out += [["steady", p, res, nt] for nt in (None, 3)]
        for res in (30., 36.) + ((20., 45.) if big else ()):
            out += [["sym", p, res, f] for f in FORCINGS]
    out += [["mean", p, res] for p in PL for res in (45., 30.)]
    out += [["fine", p, 180. / n] for p, n in (("earth", 72), ("retro", 90))]
    return out


def tendency(bt, grid, pv, coeff=0.):
    """PV tendency of the model: Euler step without diffusion, step of one rotation period unit."""
    dts = 1. / util.rate(grid.omega)
    s0 = bt.State(grid, 0., pv=pv)
    s1 = bt.BarotropicModel(None, diffusion_coeff=coeff).euler(s0, dts)
    return (s1.pv.astype(float) - s0.pv) / dts


def analytic(b, grid, zeta_terms, om, r):
    """-(u.grad)q at the gridpoints, all in double precision."""
    q_x = np.zeros(grid.shape); q_y = np.zeros(grid.shape)
    u = np.zeros(grid.shape); v = np.zeros(grid.shape)
    for n, m, k, a in zeta_terms:
        gx, gy = b.grad(n, m, k)
        q_x += a * gx / r
        q_y += a * gy / r
        psi = -a * r * r / (n * (n + 1.))
        u += -psi * gy / r
        v += psi * gx / r
    q_y += 2. * om * b.cos[:, None] / r
    return -(u * q_x + v * q_y), u, v


def run_unit(unit, rec):
    import barotropic as bt
    kind, planet, res = unit[:3]
    r, om = util.PLANETS[planet]
    nlat, nlon = util.dims(res)
    b = basis(nlat, nlat - 1)
    if kind == "pairs":
        grid = util.grid(res, planet)
        N = (nlat - 2) // 2
        # (includes the interaction of every harmonic with itself)
        ms = [x for x in modes(N, nmin=1)]
        scale = util.rate(om)
        idx = 0
        for i, A in enumerate(ms):
            for B in ms[i:]:
                idx += 1
                if idx % 4 != unit[3]:
                    continue
                terms = [(*A, scale)] if A == B else [(*A, scale), (*B, -0.8 * scale)]
                want, u, v = analytic(b, grid, terms, om, r)
                zeta = sum(a * b.Y(n, m, k) for n, m, k, a in terms)
                got = tendency(bt, grid, grid.fcor2 + zeta)
                # rounding: products of single precision terms, n-fold derivative
                tol = 2e-5 * scale * scale
                rec.close(got, want, (A, B), rtol=0., atol=max(tol, 2e-5 * np.max(np.abs(want))))
                rec.ev((A, B), nontrivial=np.max(np.abs(want)) > 1e-6 * scale**2)
    elif kind == "fine":
        # Default resolution and finer grids
        grid = util.grid(res, planet)
        scale = util.rate(om)
        lst = [(1, 0, "c"), (1, 1, "s"), (2, 1, "c"), (3, 3, "s"), (5, 3, "c"), (12, 12, "c"), (13, 0, "c"), (20, 7, "s"), (31, 1, "c"), (nlat // 2 - 2, nlat // 2 - 2, "c"), (nlat // 2 - 2, 0, "c"), (nlat // 2 - 3, 11, "s")]
        for A, B in itertools.combinations_with_replacement(lst, 2):
            terms = [(*A, scale)] if A == B else [(*A, scale), (*B, -0.8 * scale)]
            want, u, v = analytic(b, grid, terms, om, r)
            zeta = sum(a * b.Y(n, m, k) for n, m, k, a in terms)
            with rec.guard((A, B)):
                got = tendency(bt, grid, grid.fcor2 + zeta)
                rec.close(got, want, (A, B), rtol=0., atol=max(2e-4 * scale**2, 5e-5 * np.max(np.abs(want))))
            rec.ev((A, B), nontrivial=np.max(np.abs(want)) > 1e-3 * scale**2)
    elif kind == "rh":
        nt = unit[3]
        grid = util.grid(res, planet, nt)
        nmax = min((nlat - 3) // 2, (nt or 99) // 2)
        for n in range(1, nmax + 1):
            sub = [(m, k) for m in range(n + 1) for k in ("cs" if m else "c")]
            combos = [(x,) for x in sub] + list(itertools.combinations(sub, 2)) + [tuple(sub)]
            for combo, rot in itertools.product(combos, (0., 0.4, -0.7)):
                scale = util.rate(om)
                amps = [scale * (1. - 0.3 * j) for j in range(len(combo))] if len(combo) < 3 else list(scale * util.lcg(len(combo), 3))
                zeta = sum(a * b.Y(n, m, k) for (m, k), a in zip(combo, amps))
                zlam = sum(a * b.P[n, m][:, None] * b.dtrig(m, k)[None, :] for (m, k), a in zip(combo, amps))
                al = rot * (om or .3)
                pv = grid.fcor2 + 2. * al * b.sin[:, None] + zeta
                want = -al * zlam + 2. * (om + al) / (n * (n + 1.)) * zlam
                got = tendency(bt, grid, pv)
                rec.close(got, want, (n, combo, rot), rtol=0., atol=4e-5 * scale**2)
                rec.ev((n, combo, rot), nontrivial=bool(np.any(zlam)))
    elif kind == "steady":
        nt = unit[3]
        grid = util.grid(res, planet, nt)
        nmax = min(nlat - 2, nt or 99)
        scale = util.rate(om)
        singles = [(n,) for n in range(1, nmax + 1)]
        for combo in singles + list(itertools.combinations(range(1, nmax + 1), 2)):
            pv0 = grid.fcor2 + sum(scale * (-0.6)**i * b.Y(n, 0) for i, n in enumerate(combo))
            s = bt.State(grid, 0., pv=pv0)
            dts = 0.3 / scale
            last, saved = bt.BarotropicModel(None, diffusion_coeff=0.).run(s, dts, 6 * dts, save_every=dts)
            for i, x in enumerate(saved):
                rec.close(x.pv, s.pv, (combo, i), rtol=3e-5)
            rec.close(last.v, np.zeros(grid.shape), (combo, "v"), rtol=0., atol=1e-5 * scale * r)
            rec.ev(combo)
    elif kind == "mean":
        grid = util.grid(res, planet)
        scale = util.rate(om)
        lst = [x for x in modes(nlat - 2, mmax=nlon // 2 - 1)]
        model = bt.BarotropicModel(None, diffusion_coeff=0.)
        md = bt.BarotropicModel(None, diffusion_order=1, diffusion_coeff=0.05 * scale * r * r)
        for A, B, m in itertools.product(lst, lst, (model, md)):
            if A > B:
                continue
            pv0 = grid.fcor2 + scale * (b.Y(*A) + b.Y(*B)) + 0.5 * scale
            s = bt.State(grid, 0., pv=pv0)
            dts = 0.05 / scale
            last, saved = m.run(s, dts, 3 * dts)
            w = b_area(nlat)
            rec.close((last.pv * w).sum() / nlon, (s.pv * w).sum() / nlon, (A, B), rtol=0., atol=2e-5 * scale)
            rec.close(last.pv_spectral[0], s.pv_spectral[0], (A, B, "spectral"), rtol=0., atol=1e-5 * scale)
            rec.ev((A, B), nontrivial=A != B)
    elif kind == "sym":
        symmetry(bt, unit, rec, planet, res, nlat, nlon, r, om)


_W = {}


def b_area(nlat):
    """Weights (per latitude) that integrate resolved zonal fields exactly."""
    if nlat not in _W:
        b = basis(nlat, nlat - 1)
        # Solve for weights: int P_n dsin = 0 for n > 0, exact for n <= nlat-1
        A = np.array([b.P[n, 0] / np.sqrt(2 * n + 1.) for n in range(nlat)])
        rhs = np.zeros(nlat)
        rhs[0] = np.sqrt(0.5)
        _W[nlat] = np.linalg.solve(A, rhs)[:, None]
    return _W[nlat]


def symmetry(bt, unit, rec, planet, res, nlat, nlon, r, om):
    grid = util.grid(res, planet)
    forcing = unit[3]
    scale = util.rate(om)
    dlon = 360. / nlon
    dts = 0.3 / scale
    coeff = 0.03 / dts * (r * r / (nlat * (nlat - 1)))**2
    wind = scale * r
    zeta = scale * util.wavy(res, util.flow_terms(res, 1.)) + 0.2 * scale * util.wavy(res, [(2, 1, "s", 1.)])
    lonf = np.arange(nlon + 1) * dlon
    latf = np.linspace(90., -90., nlat)
    height = 0.15 * np.abs(util.generic((nlat, nlon), 5))
    height[0] = height[-1] = 0.3
    ref = scale * util.wavy(res, [(2, 2, "c", 1.), (3, 1, "s", 1.), (2, 0, "c", 1.)])
    bg = scale * util.wavy(res, [(1, 1, "c", 1.), (3, 2, "s", 1.), (2, 0, "c", -1.)])

    def model(shift, mirror, windspec):
        def tr(x, odd=False):
            x = np.roll(x, shift, axis=1)
            return (-x[::-1] if odd else x[::-1]) if mirror else x
        kw = {"scale_height": 1., "wind": windspec}
        sgn = -1. if mirror else 1.
        rhs, back = None, None
        if forcing == "gauss":
            rhs = bt.rhs.GaussianMountain(0.3, (40. + shift * dlon, sgn * 30.), (35., 25.), **kw)
        elif forcing == "orog":
            h = tr(height)
            rhs = bt.rhs.Orography(lonf, latf, np.hstack([h, h[:, :1]]), **kw)
        elif forcing == "sine":
            rhs = bt.rhs.ZonalSineMountains(0.3, sgn * 20., 30., 2, **kw)
        elif forcing == "relax":
            rhs = bt.rhs.LinearRelaxation(0.1 / dts, tr(ref, odd=True))
        elif forcing == "bg":
            back = tr(bg, odd=True)
        return bt.BarotropicModel(rhs, diffusion_coeff=coeff, diffusion_bg=back)

    def run(shift, mirror, windspec):
        z = np.roll(zeta, shift, axis=1)
        if mirror:
            z = -z[::-1]
        s = bt.State(grid, 0., pv=grid.fcor2 + z)
        last, _ = model(shift, mirror, windspec).run(s, dts, 3 * dts)
        return last

    winds = [("act", 1.), ("zon", .7), ("sbr", wind)] if forcing in ("gauss", "orog", "sine") else [("act", 1.)]
    for w in winds:
        base = run(0, False, w)
        for shift, mirror in itertools.product(range(nlon), (False, True)):
            if forcing == "sine" and shift % (nlon // 2) != 0:
                continue
            got = run(shift, mirror, w)
            want = {"pv": np.roll(base.pv, shift, 1), "u": np.roll(base.u, shift, 1), "v": np.roll(base.v, shift, 1),
                    "psi": np.roll(base.streamfunction, shift, 1)}
            if mirror:
                want = {"pv": -want["pv"][::-1], "u": want["u"][::-1], "v": -want["v"][::-1], "psi": -want["psi"][::-1]}
            case = (w, shift, mirror)
            rec.close(got.pv, want["pv"], (case, "pv"), rtol=1e-4)
            rec.close(got.u, want["u"], (case, "u"), rtol=2e-4)
            rec.close(got.v, want["v"], (case, "v"), rtol=2e-4)
            rec.close(got.streamfunction, want["psi"], (case, "psi"), rtol=2e-4)
            rec.ev(case, nontrivial=shift != 0 or mirror)
        # The forcing has to matter for this to say something
        if forcing != "none":
            free = bt.BarotropicModel(None, diffusion_coeff=coeff).run(bt.State(grid, 0., pv=grid.fcor2 + zeta), dts, 3 * dts)[0]
            rec.count("forcing_effective", int(np.max(np.abs(free.pv - base.pv)) > 1e-3 * np.max(np.abs(base.pv))))
            rec.count("forcing_total")
