"""C10: Poisson and diffusion solvers on every resolved harmonic."""

import itertools

import numpy as np

from mc import util
from mc.sph import basis, modes

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all harmonics x solver parameters (constants, orders, coefficients, time steps) x grids x truncations x planets against analytical solutions"
RULE = ("every harmonic up to degree nlat-2 on every configuration; constants of the Poisson operator of both signs and all magnitudes relative to the eigenvalues, diffusion "
        "orders 1 to 8, damping rates from 1e-8 to 1e8 at the truncation, split in several ways into coefficient and time step. Non-trivial: degree within the truncation")
ASSUMPTIONS = ["resolved means degree within the truncation and below nlat-1", "accuracy of single precision transforms", "added constants that do not make the operator singular"]

CONF = [(4, "tiny", None), (6, "earth", None), (6, "slow", 4), (9, "retro", None), (9, "tiny", 1), (9, "slow", 7), (12, "tiny", 6), (6, "faint", None), (6, "fierce", 4), (6, "still", None)]
MORE = [(5, "earth", 3), (12, "earth", None), (18, "retro", 17), (24, "earth", None), (15, "slow", 10)]


def units(tier):
    conf = CONF if tier == "quick" else CONF + MORE
    fine = [(72, "earth", None), (72, "tiny", 40), (120, "slow", None)] + ([(90, "retro", None), (180, "earth", None)] if tier == "thorough" else [])
    return [[part] + list(c) for c in conf for part in ("poisson", "diffusion", "generic")] + [["fine"] + list(c) for c in fine]


def run_unit(unit, rec):
    part, n, planet, nt = unit
    import barotropic as bt
    r, om = util.PLANETS[planet]
    g = bt.Grid(180. / n, rsphere=r, omega=om, ntrunc=nt)
    b = basis(n + 1, n)
    {"poisson": poisson, "diffusion": diffusion, "generic": generic, "fine": fine}[part](rec, g if part == "generic" else util.Reused(g), b, n if nt is None else nt, r, n)


def index(n, m, nt):
    return sum(nt + 1 - k for k in range(m)) + n - m


def constants(nt, r):
    top = nt * (nt + 1.) / r**2
    first = 2. / r**2
    # between the eigenvalues for negative ones
    return [0., 0, 1e-6 * first, .5 * first, first, 3.3 * first, top, 100. * top, -.5 * first, -1.5 * first, -1.2 * top - first]


def poisson(rec, g, b, nt, r, N):
    size = (nt + 1) * (nt + 2) // 2
    for c in constants(nt, r):
        # Closeness to singularity amplifies rounding
        for n, m, k in modes(N - 1):
            case = (c, n, m, k)
            f = (1. + .1 * n) * b.Y(n, m, k)
            lam = n * (n + 1.) / r**2
            if n > nt or (n == 0 and c == 0.):
                want = 0. * f
            else:
                want = -f / (lam + c)
            # noise in other components is divided by their eigenvalues
            worst = min([abs(l * (l + 1.) / r**2 + c) for l in range(1 if c == 0. else 0, nt + 1)] + [1e300])
            sc = np.max(np.abs(f))
            tol = 3e-5 * np.max(np.abs(want)) + 2e-6 * sc / worst
            with rec.guard(case):
                got = g.solve_poisson(f, c) if c is not constants(nt, r)[0] else g.solve_poisson(f)
                rec.close(got, want, (case, "gridded"), rtol=0., atol=tol)
                rec.close(g.solve_poisson(rhs_grid=f, op_add=c), want, (case, "keywords"), rtol=0., atol=tol)
                rec.close(g.to_grid(g.solve_poisson_spectral(g.to_spectral(f), c)), want, (case, "spectral"), rtol=0., atol=tol)
                if n <= nt and (n or c):
                    # solves the equation
                    rec.close(g.laplace(got) - c * np.asarray(got, dtype=float), f, (case, "equation"), rtol=0., atol=1e-4 * sc + 1e-5 * sc * (nt * (nt + 1.) / r**2 + abs(c)) / worst)
            rec.ev(case, n <= nt)
        # Each spectral coefficient separately (exact structure)
        for n in range(nt + 1):
            for m in range(n + 1):
                for e0 in ((1., 1j) if m else (1.,)):
                    e = np.zeros(size, dtype=np.complex64)
                    i = index(n, m, nt)
                    e[i] = e0
                    want = np.zeros(size, dtype=complex)
                    if n or c:
                        want[i] = -e0 / (n * (n + 1.) / r**2 + c)
                    with rec.guard((c, "unit", n, m)):
                        got = g.solve_poisson_spectral(e, c)
                        rec.close(got, want, (c, "unit", n, m, e0), rtol=2e-6)
                        rec.close(g.solve_poisson_spectral(e.astype(complex), c), want, (c, "unit128", n, m, e0), rtol=2e-6)
                    rec.ev((c, "unit", n, m, e0))


RATES = [0., 1e-8, 1e-2, 1., 37., 1e8]
DTS = [1, 600., 1e6]


def diffusion(rec, g, b, nt, r, N):
    size = (nt + 1) * (nt + 2) // 2
    ns = np.concatenate([np.arange(m, nt + 1) for m in range(nt + 1)])
    for order, rate, dt in itertools.product(range(1, 9), RATES, DTS):
        top = (nt * (nt + 1.) / r**2)**order
        coeff = rate / top / dt
        damp = 1. / (1. + rate * (ns * (ns + 1.) / (nt * (nt + 1.)))**order)
        e = np.ones(size, dtype=np.complex64) * (1. - 2j)
        case = (order, rate, dt)
        with rec.guard(case):
            for arr in (e, e.astype(complex)):
                got = g.solve_diffusion_spectral(arr, coeff, dt, order) if order > 1 else g.solve_diffusion_spectral(arr, coeff, dt)
                if rec.ok(np.shape(got) == (size,), case, "shape {}".format(np.shape(got))):
                    rec.close(np.asarray(got) / damp, np.ones(size) * (1. - 2j), (case, "factors", str(arr.dtype)), rtol=5e-6)
                    rec.ok(np.all(np.abs(got) <= np.abs(arr) * (1. + 1e-6)), (case, "amplified"), "")
                    rec.ok(abs(got[0] - (1. - 2j)) < 1e-6, (case, "mean"), str(got[0]))
        rec.ev(case, rate > 0.)
        if dt != 600. and not (order == 2):
            continue
        for n, m, k in modes(N - 1):
            case = (order, rate, dt, n, m, k)
            f = (1. + .1 * n) * b.Y(n, m, k)
            want = 0. * f if n > nt else f / (1. + rate * (n * (n + 1.) / (nt * (nt + 1.)))**order)
            sc = np.max(np.abs(f))
            with rec.guard(case):
                got = g.solve_diffusion(f, coeff, dt, order)
                rec.close(got, want, (case, "gridded"), rtol=0., atol=3e-5 * sc)
                if m == 0 and order == 1:
                    rec.close(g.solve_diffusion(f, coeff, dt), want, (case, "default order"), rtol=0., atol=3e-5 * sc)
                if m == 1:
                    rec.close(g.solve_diffusion(field_grid=f, coeff=coeff, dt=dt, order=order), want, (case, "keywords"), rtol=0., atol=3e-5 * sc)
                    rec.close(g.to_grid(g.solve_diffusion_spectral(g.to_spectral(f), coeff, dt, order)), want, (case, "spectral"), rtol=0., atol=3e-5 * sc)
            rec.ev(case, n <= nt and rate > 0.)


def generic(rec, g, b, nt, r, N):
    """Superposition: both solvers treat the components independently; the mean is kept."""
    top = min(nt, N - 1)
    x = iter(util.lcg(4 * (N + 1)**2, 5))
    terms = [(n, m, k, next(x)) for n, m, k in modes(top)]
    f = sum(a * b.Y(n, m, k) for n, m, k, a in terms)
    sc = np.max(np.abs(f))
    first, last = 2. / r**2, nt * (nt + 1.) / r**2
    for c in (0., .7 * first, 5. * last):
        want = sum(-a / (n * (n + 1.) / r**2 + c) * b.Y(n, m, k) for n, m, k, a in terms if n or c)
        with rec.guard(("poisson", c)):
            got = g.solve_poisson(f, c)
            rec.close(got, want, ("poisson", c), rtol=1e-4)
            if c == 0.:
                rec.close(g.mean(np.asarray(got, dtype=float)), g.mean(want + 0.), ("poisson mean", c), rtol=0., atol=1e-5 * np.max(np.abs(want)))
        rec.ev(("poisson", c))
    for order, rate in itertools.product((1, 2, 3, 5), RATES[1:]):
        coeff = rate / last**order / 900.
        want = sum(a / (1. + rate * (n * (n + 1.) / r**2 / last)**order) * b.Y(n, m, k) for n, m, k, a in terms)
        with rec.guard(("diffusion", order, rate)):
            rec.close(g.solve_diffusion(f, coeff, 900., order), want, ("diffusion", order, rate), rtol=1e-4, scale=sc)
            # two steps
            twice = sum(a / (1. + rate * (n * (n + 1.) / r**2 / last)**order)**2 * b.Y(n, m, k) for n, m, k, a in terms)
            rec.close(g.solve_diffusion(g.solve_diffusion(f, coeff, 900., order), coeff, 900., order), twice, ("diffusion twice", order, rate), rtol=1e-4, scale=sc)
        rec.ev(("diffusion", order, rate))


def fine(rec, g, b, nt, r, N):
    """Default resolution and finer grids: for each zonal wavenumber, all degrees at once."""
    size = (nt + 1) * (nt + 2) // 2
    deg = np.concatenate([np.arange(m, nt + 1) for m in range(nt + 1)])
    order_one = (1. + .3 * np.cos(1.7 * np.arange(size))) * np.exp(1j * np.arange(size))
    e = order_one.astype(np.complex64)
    last = nt * (nt + 1.) / r**2
    for c in constants(nt, r):
        with np.errstate(all="ignore"):
            want = np.where((deg > 0) | (c != 0.), -1. / (deg * (deg + 1.) / r**2 + c), 0.)
        want[~np.isfinite(want)] = 0.
        with rec.guard(("poisson", c)):
            got = np.asarray(g.solve_poisson_spectral(e, c))
            if rec.ok(got.shape == (size,), ("poisson", c), str(got.shape)):
                nz = want != 0.
                rec.close(got[nz] / want[nz] / order_one[nz], np.ones(nz.sum()), ("poisson", c), rtol=1e-5)
                rec.ok(np.all(got[~nz] == 0.), ("poisson", c, "mean"), lambda: str(got[~nz]))
        rec.ev(("poisson", c))
    for order, rate, dt in itertools.product((1, 2, 3, 4, 6, 8), RATES, DTS):
        want = 1. / (1. + rate * (deg * (deg + 1.) / r**2 / last)**order)
        with rec.guard(("diffusion", order, rate, dt)):
            got = np.asarray(g.solve_diffusion_spectral(e, rate / last**order / dt, dt, order))
            rec.close(got / want / order_one, np.ones(size), ("diffusion", order, rate, dt), rtol=1e-5)
        rec.ev(("diffusion", order, rate, dt))
    top = min(nt, N - 1)
    for m in range(0, top + 1, 1 if N <= 72 else 7):
        ns = np.arange(max(m, 1), top + 1)
        for k in "cs" if m else "c":
            coef = (1. + .3 * np.cos(1.7 * ns + m)) * np.where(ns % 3, 1., -1.)
            P = np.array([b.P[n, m] for n in ns]).T
            coef = coef / np.abs(P).max(axis=0)
            lam = ns * (ns + 1.) / r**2
            make = lambda x: (P @ x)[:, None] * b.trig(m, k)
            f = make(coef)
            sf = np.abs(coef * np.abs(P).max(axis=0)).sum()
            for c in (0., .7 * lam[0], 5. * last):
                with rec.guard((m, k, "poisson", c)):
                    worst = lam[0] + c if m else min(2. / r**2 + c, c or 1e300)
                    rec.close(g.solve_poisson(f, c), make(-coef / (lam + c)), (m, k, "poisson", c), rtol=0., atol=1e-4 * np.abs(coef * np.abs(P).max(axis=0) / (lam + c)).sum() + 1e-6 * sf / min(worst, 2. / r**2 + c, c or 1e300))
                rec.ev((m, k, "poisson", c))
            for order, rate in itertools.product((1, 2, 4), (1e-2, 1., 1e3)):
                with rec.guard((m, k, "diffusion", order, rate)):
                    rec.close(g.solve_diffusion(f, rate / last**order / 900., 900., order), make(coef / (1. + rate * (lam / last)**order)), (m, k, "diffusion", order, rate), rtol=0., atol=1e-4 * sf)
                rec.ev((m, k, "diffusion", order, rate))
