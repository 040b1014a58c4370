"""C09: transforms and vector calculus on every resolved harmonic."""

import itertools

import numpy as np

from mc import util
from mc.sph import basis, modes

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all spherical harmonics (a basis of all resolved fields) x grids x truncations x planets x Legendre options against analytical values"
RULE = ("every harmonic of degree up to nlat-2 on every configuration; scalar operations, both parts of the Helmholtz decomposition, gridded/spectral variants of every input, "
        "number formats and memory layouts of arrays; a generic superposition checks linearity. Non-trivial: degree within the truncation (beyond it the result has to vanish)")
ASSUMPTIONS = ["resolved means degree within the truncation and below nlat-1 (exactness limit of the transform library)", "accuracy of single precision transforms"]


def configurations(tier):
    out = []
    for n in (4, 5, 6, 9) + ((12, 18) if tier == "quick" else (12, 15, 18, 20)):
        truncs = [None] + (list(range(1, n + 1)) if n <= 9 else [1, 2, n // 2, n - 2, n - 1])
        for i, nt in enumerate(truncs):
            planets = ("earth", "tiny", "slow") if nt is None or tier == "thorough" else (("tiny", "retro", "slow")[i % 3],)
            for planet in planets:
                out.append([n, planet, nt, "stored"])
        out.append([n, "tiny", None, "computed"])
        out.append([n, "slow", n // 2, "computed"])
    if tier == "thorough":
        out += [[36, "earth", None, "stored"], [36, "earth", 21, "computed"], [30, "tiny", None, "stored"]]
    else:
        out += [[24, "earth", None, "stored"]]
    return out


def units(tier):
    out = [[part] + c for c in configurations(tier) for part in ("scalar", "vector", "inputs")]
    fine = [[72, "earth", None, "stored"], [72, "tiny", 40, "computed"], [90, "retro", None, "stored"], [120, "earth", None, "stored"]] + ([[144, "earth", None, "stored"], [180, "earth", 120, "stored"]] if tier == "thorough" else [])
    return out + [["bands"] + c for c in fine]


def run_unit(unit, rec):
    part, n, planet, nt, leg = unit
    import barotropic as bt
    r, om = util.PLANETS[planet]
    kw = {} if nt is None else {"ntrunc": nt}
    g = bt.Grid(180. / n, rsphere=r, omega=om, legfunc=leg, **kw)
    nlat = n + 1
    b = basis(nlat, nlat - 1)
    nt = n if nt is None else nt
    # Callers may use their arrays again
    caller = g if part == "inputs" else util.Reused(g)
    {"scalar": scalar, "vector": vector, "inputs": inputs, "bands": bands}[part](rec, caller, b, nt, r, n)


def index(n, m, nt):
    """Position of a coefficient: triangular truncation, zonal wavenumber by zonal wavenumber."""
    return sum(nt + 1 - k for k in range(m)) + n - m


def amp(n, m):
    """Amplitudes differ so that mixed up results cannot agree (of any magnitude)."""
    return (1. + 0.1 * n + 0.03 * m) * (1., 1e-9, 1e5, 1e-14, 1., 1e9, 1e-5)[(n + 2 * m) % 7]


def scalar(rec, g, b, nt, r, N):
    size = (nt + 1) * (nt + 2) // 2
    for n, m, k in modes(N - 1):
        case = (n, m, k)
        keep = 1. if n <= nt else 0.
        f = amp(n, m) * b.Y(n, m, k)
        sc = np.max(np.abs(f))
        tol = 3e-5 * sc
        with rec.guard(case):
            s = g.to_spectral(f)
            if not rec.ok(np.shape(s) == (size,) and np.asarray(s).dtype.kind == "c", (case, "to_spectral"), "{} {}".format(np.shape(s), np.asarray(s).dtype)):
                continue
            # exactly one coefficient
            rest = np.array(s)
            if keep:
                i = index(n, m, nt)
                rec.ok(abs(rest[i]) > 0.05 * sc, (case, "coefficient"), "{} at {}".format(rest[i], i))
                rest[i] = 0.
            rec.close(rest, np.zeros(size), (case, "other coefficients"), rtol=0., atol=tol)
            rec.close(g.to_grid(s), keep * f, (case, "round trip"), rtol=0., atol=tol)
            rec.close(g.to_spectral(g.to_grid(s)), s, (case, "spectral round trip"), rtol=0., atol=tol)
            ev = n * (n + 1.) / r**2
            big = nt * (nt + 1.) / r**2
            rec.close(g.laplace(f), -keep * ev * f, (case, "laplace"), rtol=0., atol=1e-5 * sc * big + 3e-5 * ev * sc)
            ls = g.laplace_spectral(s)
            rec.close(ls, -ev * np.asarray(s), (case, "laplace_spectral"), rtol=0., atol=1e-5 * sc * big + 3e-5 * ev * sc)
            rec.close(g.to_grid(ls), g.laplace(f), (case, "laplace variants"), rtol=0., atol=1e-6 * sc * big + 1e-6 * ev * sc)
            gx, gy = b.grad(n, m, k)
            a = amp(n, m) * keep / r
            tol = 5e-5 * sc * (nt + 1.) / r
            grad = g.gradient(f)
            rec.ok(isinstance(grad, tuple) and len(grad) == 2, (case, "gradient"), repr(type(grad)))
            rec.close(grad[0], a * gx, (case, "gradient x"), rtol=0., atol=tol)
            rec.close(grad[1], a * gy, (case, "gradient y"), rtol=0., atol=tol)
        rec.ev(case, n <= nt)
    # Unit coefficients, real and imaginary
    for n in range(min(nt, N - 1) + 1):
        for m in range(n + 1):
            for c in (1., 1j) if m else (1.,):
                e = np.zeros(size, dtype=np.complex64)
                e[index(n, m, nt)] = c
                case = ("unit", n, m, c)
                with rec.guard(case):
                    f = g.to_grid(e)
                    rec.close(g.to_spectral(f), e, case, rtol=0., atol=3e-5)
                    # proportional to the harmonic
                    y = b.Y(n, m, "c" if c == 1. else "s")
                    coef = (f * y).sum() / (y * y).sum()
                    rec.close(f, coef * y, (case, "shape"), rtol=0., atol=3e-5 * abs(coef) * np.max(np.abs(y)))
                    rec.ok(abs(coef) > .1, (case, "amplitude"), str(coef))
                rec.ev(case)


def vector(rec, g, b, nt, r, N):
    for n, m, k in modes(N - 1, nmin=1):
        keep = 1. if n <= nt else 0.
        gx, gy = b.grad(n, m, k)
        y = b.Y(n, m, k)
        # u of order one
        a = amp(n, m)
        lap = n * (n + 1.) / r
        for rot in (True, False):
            case = (n, m, k, "rot" if rot else "div")
            u, v = (-a * gy, a * gx) if rot else (a * gx, a * gy)
            sc = max(np.max(np.abs(u)), np.max(np.abs(v)))
            vort = -a * lap * y if rot else 0. * y
            div = 0. * y if rot else -a * lap * y
            tol = 5e-5 * sc * (nt + 1.) / r
            with rec.guard(case):
                vs, ds = g.vorticity_divergence_spectral(u, v)
                for name, got, want in (
                        ("vorticity", g.vorticity(u, v), vort), ("divergence", g.divergence(u, v), div),
                        ("vorticity_divergence[0]", g.vorticity_divergence(u, v)[0], vort), ("vorticity_divergence[1]", g.vorticity_divergence(u, v)[1], div),
                        ("vorticity_spectral", g.to_grid(g.vorticity_spectral(u, v)), vort), ("divergence_spectral", g.to_grid(g.divergence_spectral(u, v)), div),
                        ("vorticity_divergence_spectral[0]", g.to_grid(vs), vort), ("vorticity_divergence_spectral[1]", g.to_grid(ds), div)):
                    rec.close(got, keep * want, (case, name), rtol=0., atol=tol)
                rec.ok(np.shape(vs) == np.shape(ds) == ((nt + 1) * (nt + 2) // 2,), (case, "spectral shape"), str(np.shape(vs)))
                vs, ds = g.to_spectral(vort), g.to_spectral(div)
                tol = 5e-5 * sc
                for i, (p, q) in enumerate(itertools.product((vort, vs), (div, ds))):
                    w = g.wind(p, q)
                    rec.ok(isinstance(w, tuple) and len(w) == 2, (case, "wind", i), repr(type(w)))
                    rec.close(w[0], keep * u, (case, "wind u", i), rtol=0., atol=tol)
                    rec.close(w[1], keep * v, (case, "wind v", i), rtol=0., atol=tol)
            rec.ev(case, n <= nt)


def inputs(rec, g, b, nt, r, N):
    """Superpositions and all formats of the same numbers."""
    top = min(nt, N - 1)
    f, p, q, vort, div = [np.zeros((N + 1, 2 * N)) for _ in range(5)]
    u, v, fx, fy, lap = [np.zeros((N + 1, 2 * N)) for _ in range(5)]
    x = iter(util.lcg(8 * (N + 1)**2, 3))
    for n, m, k in modes(top, nmin=1):
        a, c, d = next(x), next(x) / n, next(x) / n
        gx, gy = b.grad(n, m, k)
        y = b.Y(n, m, k)
        f += a * y
        fx += a / r * gx
        fy += a / r * gy
        lap -= a * n * (n + 1.) / r**2 * y
        u += -c * gy + d * gx
        v += c * gx + d * gy
        vort -= c * n * (n + 1.) / r * y
        div -= d * n * (n + 1.) / r * y
    f += 0.7
    kinds = {
        "C": lambda z: z.copy(), "F": np.asfortranarray, "f4": lambda z: z.astype(np.float32), "strided": lambda z: np.repeat(z, 2, axis=1)[:, ::2],
        "reversed": lambda z: z[::-1].copy()[::-1], "readonly": lambda z: _readonly(z), "big endian": lambda z: z.astype(">f8"), "longdouble": lambda z: z.astype(np.longdouble),
    }
    sf, su = np.max(np.abs(f)), max(np.max(np.abs(u)), np.max(np.abs(v)))
    for name, conv in kinds.items():
        with rec.guard(name):
            rec.close(g.to_grid(g.to_spectral(conv(f))), f, (name, "round trip"), rtol=0., atol=5e-5 * sf)
            rec.close(g.laplace(conv(f)), lap, (name, "laplace"), rtol=0., atol=5e-5 * sf * (nt + 1.)**2 / r**2)
            gr = g.gradient(conv(f))
            rec.close(gr[0], fx, (name, "gradient x"), rtol=0., atol=5e-5 * sf * (nt + 1.) / r)
            rec.close(gr[1], fy, (name, "gradient y"), rtol=0., atol=5e-5 * sf * (nt + 1.) / r)
            z = g.vorticity_divergence(conv(u), conv(v))
            rec.close(z[0], vort, (name, "vorticity"), rtol=0., atol=1e-4 * su * (nt + 1.) / r)
            rec.close(z[1], div, (name, "divergence"), rtol=0., atol=1e-4 * su * (nt + 1.) / r)
            w = g.wind(conv(vort), conv(div))
            rec.close(w[0], u, (name, "u"), rtol=0., atol=1e-4 * su)
            rec.close(w[1], v, (name, "v"), rtol=0., atol=1e-4 * su)
        rec.ev(name)
    # Integer fields
    with rec.guard("int"):
        h = np.round(100. * f / sf).astype(int)
        rec.close(g.to_spectral(h), g.to_spectral(h.astype(float)), "int", rtol=1e-6)
    # Constants have no gradient, no Laplacian
    with rec.guard("const"):
        c = np.full((N + 1, 2 * N), 3.)
        for i, z in enumerate((*g.gradient(c), g.laplace(c))):
            rec.close(z, 0. * c, ("const", i), rtol=0., atol=1e-4 * (nt + 1.)**2 / min(r, r * r))
    rec.ev("const")


def bands(rec, g, b, nt, r, N):
    """Default resolution and finer grids: for each zonal wavenumber, all degrees at once."""
    top = min(nt, N - 1)
    for m in range(top + 1):
        ns = np.arange(max(m, 1), top + 1)
        for k in "cs" if m else "c":
            coef = (1. + .3 * np.cos(1.7 * ns + m)) * np.where(ns % 3, 1., -1.)
            # similar contributions of all degrees to gradient and wind
            P, D = (np.array([X[n, m] for n in ns]).T for X in (b.P, b.D))
            scale = coef / np.abs(D).max(axis=0)
            tr, dtr = b.trig(m, k), b.dtrig(m, k)
            f = (P @ scale)[:, None] * tr
            gy = (D @ scale)[:, None] * tr
            gx = 0. * gy if m == 0 else (np.array([b.R[n, m] for n in ns]).T @ scale)[:, None] * dtr
            lap = -(P @ (scale * ns * (ns + 1.)))[:, None] * tr
            case = (m, k)
            # (sum of the moduli of all contributions)
            big = np.abs(coef).sum()
            sf = np.abs(scale * np.abs(P).max(axis=0)).sum()
            with rec.guard(case):
                s = g.to_spectral(f)
                rec.close(g.to_grid(s), f, (case, "round trip"), rtol=0., atol=1e-4 * sf)
                grad = g.gradient(f)
                rec.close(grad[0], gx / r, (case, "gradient x"), rtol=0., atol=1e-4 * big / r)
                rec.close(grad[1], gy / r, (case, "gradient y"), rtol=0., atol=1e-4 * big / r)
                ll = np.abs(scale * ns * (ns + 1.) * np.abs(P).max(axis=0)).sum()
                rec.close(g.laplace(f), lap / r**2, (case, "laplace"), rtol=0., atol=1e-4 * (ll + sf * N**2) / r**2)
                for rot in (True, False):
                    u, v = (-gy, gx) if rot else (gx, gy)
                    vo, di = g.vorticity_divergence(u, v)
                    one, none = (vo, di) if rot else (di, vo)
                    tol = 1e-4 * ll / r + 1e-4 * big * N / r
                    rec.close(one, lap / r, (case, rot, "vorticity/divergence"), rtol=0., atol=tol)
                    rec.close(none, 0. * lap, (case, rot, "none"), rtol=0., atol=tol)
                    rec.close((g.vorticity if rot else g.divergence)(u, v), lap / r, (case, rot, "single"), rtol=0., atol=tol)
                    zero = 0. * lap
                    w = g.wind(lap / r, zero) if rot else g.wind(zero, lap / r)
                    rec.close(w[0], u, (case, rot, "u"), rtol=0., atol=1e-4 * big)
                    rec.close(w[1], v, (case, rot, "v"), rtol=0., atol=1e-4 * big)
            rec.ev(case)


def _readonly(z):
    z = z.copy()
    z.setflags(write=False)
    return z
