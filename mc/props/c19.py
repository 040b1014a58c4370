"""C19: stationary wavenumber and waveguides."""

import itertools

import numpy as np

from mc import util
from mc.props.c11 import matrix
from mc.props.c14 import make

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all wavenumber and wind profiles over small alphabets (with infinities) against piecewise linear bands and exact rational difference weights"
RULE = ("all Ks profiles over the listed alphabets (with +-infinity) on globes with 3 to 9 latitudes, given as real or complex variant, x wavenumbers; all zonal wind profiles over alphabets "
        "that straddle the threshold, as 1D or 2D winds with waves, x orders x variants x thresholds x planets; states. "
        "Non-trivial: at least one band boundary is not a pole (waveguides), a finite non-zero value (stationary wavenumber)")
ASSUMPTIONS = ["a waveguide of zero width may or may not be reported; where Ks equals the wavenumber over a whole interval, the interval may or may not be part of a waveguide; next to a jump from +inf to -inf the boundary may be anywhere in between",
               "winds exactly at the threshold are not used"]

INF = float("inf")


def units(tier):
    out = []
    wide = (-INF, -3., 0., 1.2, 3.7, 8., INF)
    spec = [(4, wide, (3,), 8), (6, (-INF, 1., 4.6, 7., INF), (2, 5), 24), (6, (1., 2., 3., INF), (2, 3), 8), (2, wide, (1, 2, 5), 1), (3, wide, (2, 4.4, -2.), 1)]
    if tier == "thorough":
        spec = [(4, wide, (1, 3, 4.5), 16), (6, wide, (2, 5), 240), (6, (-1., 1., 2., 3., INF), (1, 2, 3), 64), (2, wide, (1, 2, 5), 1), (3, wide, (2, 4.4), 1),
                (9, (-INF, 1., 6., INF), (4,), 240), (5, wide, (3, 6), 24)]
    for n, alphabet, ks, k in spec:
        out += [["bands", n, list(alphabet), list(ks), i, k] for i in range(k)]
    out += [["long", n] for n in (12, 36, 60, 72, 120)]
    u = (0., 4e-4, -4e-4, 11., -7., 25.)
    spec = [(4, u, 12), (5, (0., 4e-4, 11., -7.), 4)] + ([(6, (0., 11., -7., -4e-4, 30.), 60)] if tier == "thorough" else [(6, (0., 11., -7.), 8)])
    for n, alphabet, k in spec:
        out += [["wind", n, list(alphabet), i, k] for i in range(k)]
    out += [["planets", n] for n in (4, 6, 9, 12, 18, 36, 72, 90, 120)] + [["state", n] for n in (6, 9, 12, 18, 72)]
    return out


def run_unit(unit, rec):
    {"bands": bands, "long": long, "wind": wind, "planets": planets, "state": state}[unit[0]](rec, *unit[1:])


# Waveguides

def reference(ks, k, lat):
    """(bands where Ks >= k, bands where Ks > k), bands as lists of intervals
    from North to South as (start range, end range)."""
    out = []
    for strict in (False, True):
        segs = []
        for a, b, n, s in zip(ks[:-1], ks[1:], lat[:-1], lat[1:]):
            lo = hi = None
            ina = a > k if strict else a >= k
            inb = b > k if strict else b >= k
            if a == b and a == k:
                if not strict:
                    segs.append(((n, n), (s, s)))
                continue
            if a >= k and b >= k and (a > k or b > k):
                segs.append(((n, n), (s, s)))
            elif a > k:
                # downward crossing
                if np.isinf(a) and np.isinf(b):
                    end = (s, n)
                elif np.isinf(a):
                    end = (s, s)
                elif np.isinf(b):
                    end = (n, n)
                else:
                    x = n + (a - k) / (a - b) * (s - n)
                    end = (x, x)
                segs.append(((n, n), end))
            elif b > k:
                if np.isinf(a) and np.isinf(b):
                    start = (s, n)
                elif np.isinf(b):
                    start = (n, n)
                elif np.isinf(a):
                    start = (s, s)
                else:
                    x = n + (k - a) / (b - a) * (s - n)
                    start = (x, x)
                segs.append((start, (s, s)))
        # join neighbours
        joined = []
        for seg in segs:
            if joined and joined[-1][1][0] == joined[-1][1][1] == seg[0][0] == seg[0][1]:
                joined[-1] = (joined[-1][0], seg[1])
            else:
                joined.append(seg)
        out.append(joined)
    return out


def subset(inner, outer, tol=1e-7):
    return all(any(o[0] + tol >= i[0] and i[1] >= o[1] - tol for o in outer) for i in inner)


def judge(rec, got, ks, k, lat, case):
    try:
        got = [(float(a), float(b)) for a, b in got]
    except Exception as e:
        return rec.fail(case, "not a list of pairs: {!r} {!r}".format(got, e))
    if not all(np.isfinite(g).all() for g in got):
        return rec.fail(case, "boundaries not finite: {}".format(got))
    closed, strict = reference(ks, k, lat)
    wide = [g for g in got if g[0] - g[1] > 1e-9]
    order = [x for g in got for x in g]
    if not all(x >= y - 1e-9 for x, y in zip(order[:-1], order[1:])):
        return rec.fail(case, "not from North to South: {}".format(got))
    # What has to be and what may be part of a waveguide only differs where Ks
    # equals k or jumps from one infinity to the other
    must = merged([(min(s), max(e)) for s, e in strict if min(s) > max(e)])
    may = merged([(max(s), min(e)) for s, e in closed])
    have = merged(wide)
    rec.ok(subset(have, may), case, lambda: "{} not within {}".format(got, may))
    rec.ok(subset(must, have), case, lambda: "{} does not contain {}".format(got, must))
    if k not in ks and np.all(np.isfinite(ks)):
        rec.ok(len(wide) == len(closed), case, lambda: "{} instead of {}".format(got, closed))


def merged(bands):
    out = []
    for a, b in bands:
        if out and abs(out[-1][1] - a) < 1e-9:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def as_complex(ks):
    return np.sqrt(np.where(ks < 0, -1., 1.).astype(complex) * ks**2) if np.all(np.isfinite(ks)) else np.array([complex(0., -x) if x < 0 else complex(x, 0.) for x in ks])


def bands(rec, n, alphabet, wavenumbers, shard, nshards):
    from barotropic import diagnostics as d
    d = util.Reused(d) if n % 2 else d              # callers may use their arrays again
    g = make(n, 3)
    lat = 90. - 180. * np.arange(n + 1) / n
    nontrivial = 0
    for vals in itertools.islice(itertools.product(alphabet, repeat=n + 1), shard, None, nshards):
        ks = np.array(vals)
        for k in wavenumbers:
            for name, x in (("real", ks), ("complex", as_complex(ks))):
                try:
                    # wavenumbers have the same two variants (real, complex)
                    got = d.extract_ks_waveguides(x, k if name == "real" or k >= 0 else complex(0., -k), g)
                except Exception as e:
                    rec.fail((vals, k, name), "raised {!r}".format(e))
                    continue
                judge(rec, got, vals, k, lat, (vals, k, name))
                rec.evaluations += 1
                nontrivial += min(vals) < k < max(vals)
    rec.count("_bulk", nontrivial)


def long(rec, n):
    from barotropic import diagnostics as d
    g = make(n, 3)
    lat = 90. - 180. * np.arange(n + 1) / n
    for m, amp, k, sing in itertools.product((1, 2, 3, 5, 8), (2.3, 7.7), (1, 3, 4, 5.5, 7), ("none", "+", "-", "both", "poles")):
        ks = 4.1 + amp * np.cos(m * np.deg2rad(lat) * 2. + .3)
        if sing in ("+", "both"):
            ks[n // 3:n // 3 + 2] = INF
        if sing in ("-", "both"):
            ks[n // 3 + 2:n // 3 + 4] = -INF
        if sing == "poles":
            ks[[0, -1]] = INF
        case = (m, amp, k, sing)
        with rec.guard(case):
            judge(rec, d.extract_ks_waveguides(ks, k, g), list(ks), k, lat, case)
            judge(rec, d.extract_ks_waveguides(as_complex(ks), k, grid=g), list(ks), k, lat, case)
            judge(rec, d.extract_ks_waveguides(ks_or_state=as_complex(ks), k=k + 0j, grid=g), list(ks), k, lat, case)
        rec.ev(case)


# Stationary wavenumber

def profile(u, n, r, om, order, pv=None):
    """(gradient of PV on Mercator projection times r, wind)"""
    phi = .5 * np.pi - np.pi * np.arange(n + 1) / n
    c = np.cos(phi)
    c[[0, -1]] = 0.
    dm = matrix(n, order, True)
    if pv is None:
        rv = -(dm @ (u * c)) / r
        rv[1:-1] /= c[1:-1]
        pv = 2. * om * np.sin(phi) + rv
    grad = c**2 * r * (dm @ pv)
    return grad, r * c**2 * np.max(np.abs(pv)) * n / np.pi


def variants(f, rec, grad, gsc, u, min_u, case, rtol):
    """f(kind) -> values"""
    small = np.abs(u) < min_u
    small |= u == 0.
    want = np.where(small, 0., grad / np.where(small, 1., u))
    # The sign of rounding errors is meaningless
    zero = np.abs(grad) <= 1e-9 * np.max(gsc)
    zero[[0, -1]] = False
    with np.errstate(all="ignore"):
        want = np.where(small & (grad != 0.), np.sign(grad) * np.inf, want)
    use = ~(zero & small)
    # relative to the size of the terms that make up the gradient
    tol = rtol * gsc / np.where(small, 1., np.abs(u))
    sq = np.asarray(f("squared"))
    if not rec.ok(sq.shape == want.shape and sq.dtype.kind == "f", (case, "squared"), lambda: "{} {}".format(sq.shape, sq.dtype)):
        return
    fin = np.isfinite(want)
    good = np.where(fin, np.abs(sq - np.where(fin, want, 0.)) <= tol, sq == want) | ~use
    rec.ok(good.all(), (case, "squared"), lambda: "{} instead of {}".format(sq, want))
    cx = np.asarray(f("complex"))
    rl = np.asarray(f("real"))
    rec.ok(cx.dtype.kind == "c" and rl.dtype.kind == "f", (case, "types"), lambda: "{} {}".format(cx.dtype, rl.dtype))
    root = np.sqrt(np.abs(sq))
    rec.close(np.where(np.isinf(sq), 0., np.real(cx)), np.where(np.isinf(sq) | (sq < 0.), 0., root), (case, "complex, real part"), rtol=1e-9)
    rec.close(np.where(np.isinf(sq), 0., np.imag(cx)), np.where(np.isinf(sq) | (sq > 0.), 0., root), (case, "complex, imaginary part"), rtol=1e-9)
    rec.ok(np.all(np.where(sq == np.inf, (np.real(cx) == np.inf) & (np.imag(cx) == 0.), True)), (case, "complex +inf"), lambda: str(cx))
    rec.ok(np.all(np.where(sq == -np.inf, (np.real(cx) == 0.) & (np.imag(cx) == np.inf), True)), (case, "complex -inf"), lambda: str(cx))
    rec.close(rl, np.where(sq < 0., -root, root), (case, "real"), rtol=1e-9)
    return want


def wind(rec, n, alphabet, shard, nshards):
    from barotropic import diagnostics as d
    d = util.Reused(d) if n % 2 else d              # callers may use their arrays again
    g = make(n, 1)
    r, om = g.rsphere, g.omega
    wave = util.generic((n + 1, 2 * n), 5)
    wave -= wave.mean(axis=1, keepdims=True)
    nontrivial = 0
    for vals in itertools.islice(itertools.product(alphabet, repeat=n + 1), shard, None, nshards):
        u = np.array(vals)
        for order in (2, 4):
            grad, gsc = profile(u, n, r, om, order)
            case = (vals, order)
            try:
                variants(lambda kind: d.stationary_wavenumber(u, g, order=order, kind=kind), rec, grad, gsc, u, 1e-3, case, 1e-10)
                a = d.stationary_wavenumber(u, g, order, kind="squared")
                for field in (np.repeat(u[:, None], 2 * n, axis=1), u[:, None] + 8. * wave):
                    # rounding of the mean is not allowed to matter at the threshold
                    b = d.stationary_wavenumber(field, g, order=order, kind="squared")
                    inf = np.isinf(a) | np.isinf(b)
                    rec.close(np.where(inf, 0., b * u), np.where(inf, 0., a * u), (case, "2D"), rtol=0., atol=1e-9 * np.max(gsc))
                    rec.ok(np.array_equal(np.isinf(a)[1:-1], np.isinf(b)[1:-1]), (case, "2D, infinite"), lambda: "{} {}".format(a, b))
            except Exception as e:
                rec.fail(case, "raised {!r}".format(e))
            rec.evaluations += 1
            nontrivial += max(abs(u[1:-1])) > 1e-3
    rec.count("_bulk", nontrivial)


def planets(rec, n):
    from barotropic import diagnostics as d
    import barotropic as bt
    lat = 90. - 180. * np.arange(n + 1) / n
    phi = np.deg2rad(lat)
    for planet, (r, om) in util.PLANETS.items():
        g = util.grid(180. / n, planet)
        unit = r * util.rate(om)
        for name, p in {"sbr": .05 * np.cos(phi), "negative": -.3 * np.cos(phi), "fast": .4 * np.cos(phi)**2, "jet": .1 * np.exp(-(lat - 40.)**2 / 200.) - .01,
                        "asymmetric": .06 * np.sin(3. * phi + .4) * np.cos(phi)}.items():
            u = unit * p
            for order, frac in itertools.product((2, 4), (0., .01, .3, 2.)):
                min_u = frac * unit * .05
                if np.any(np.abs(np.abs(u) - min_u) < 1e-6 * unit * (np.abs(np.cos(phi)) > 1e-9)):
                    continue
                grad, gsc = profile(u, n, r, om, order)
                case = (planet, name, order, frac)
                with rec.guard(case):
                    keep = u.copy()
                    if frac == 0.:
                        # rounding errors at the poles
                        u[[0, -1]] = 0.
                    want = variants(lambda kind: d.stationary_wavenumber(u, g, order=order, min_u=min_u, kind=kind), rec, grad, gsc, u, min_u, case, 1e-9)
                    rec.ok(np.iscomplexobj(d.stationary_wavenumber(u, g)), (case, "default kind"), "")
                    rec.close(d.stationary_wavenumber(u, g, order, min_u), d.stationary_wavenumber(u_or_state=u, grid=g, order=order, min_u=min_u, kind="complex"), (case, "positional"), rtol=0.)
                    rec.close(d.stationary_wavenumber(u, g, min_u=min_u, kind="squared"), d.stationary_wavenumber(u, g, 4, min_u, "squared"), (case, "default order"), rtol=0.)
                    u = keep
                rec.ev(case, want is not None and np.any(np.isfinite(want) & (want != 0.)))
            default = d.stationary_wavenumber(u, g, kind="squared")
            rec.close(default, d.stationary_wavenumber(u, g, order=4, min_u=.001, kind="squared"), (planet, name, "default threshold"), rtol=0.)
        for kind in ("imag", None, "Complex", ""):
            rec.raises(ValueError, lambda: d.stationary_wavenumber(u, g, kind=kind), (planet, "kind", kind))
            rec.ev((planet, "kind", kind))


def state(rec, n):
    import barotropic as bt
    from barotropic import diagnostics as d
    lat = 90. - 180. * np.arange(n + 1) / n
    for planet in ("earth", "slow", "retro", "faint", "fierce", "still"):
        r, om = util.PLANETS[planet]
        g = util.grid(180. / n, planet)
        z = util.rate(om) * util.wavy(180. / n, [(1, 0, "c", .05), (3, 0, "c", -.04), (2, 2, "s", .3), (3, 1, "c", .1)])
        states = {"vorticity": bt.State.from_vorticity(g, 0., z), "pv": bt.State(g, 0., pv=g.fcor2 + z),
                  "spectral": bt.State(g, 0., pv_spectral=g.to_spectral(g.fcor2 + z)),
                  "sbr": bt.init.solid_body_rotation(g, amplitude=.02 * r * util.rate(om))}
        for name, s in states.items():
            um, pm = np.asarray(s.u, dtype=float).mean(axis=1), np.asarray(s.pv, dtype=float).mean(axis=1)
            for order, min_u in itertools.product((2, 4), (.001, .1 * np.max(np.abs(um)), 2. * np.max(np.abs(um)))):
                case = (planet, name, order, min_u)
                if np.any(np.abs(np.abs(um[1:-1]) - min_u) < 1e-3 * np.max(np.abs(um))):
                    rec.count("skipped")
                    continue
                grad, gsc = profile(um, n, r, om, order, pm)
                use = np.abs(um) < min_u
                um0 = np.where(use, 0., um)
                with rec.guard(case):
                    variants(lambda kind: d.stationary_wavenumber(s, order=order, min_u=min_u, kind=kind), rec, grad, gsc, um0, min_u, case, 1e-5)
                rec.ev(case)
            case = (planet, name)
            with rec.guard(case):
                ks = d.stationary_wavenumber(s)
                rec.close(s.stationary_wavenumber, ks, (case, "shortcut"), rtol=1e-9)
                real = d.stationary_wavenumber(s, kind="real")
                for k in (1, 2, 3, 4.5, 6, 9):
                    if np.any(np.abs(real - k) < 1e-5):
                        continue
                    judge(rec, s.extract_ks_waveguides(k), list(real), k, lat, (case, "bands", k))
                    judge(rec, d.extract_ks_waveguides(s, k), list(real), k, lat, (case, "bands", k))
                    judge(rec, d.extract_ks_waveguides(ks, k, g), list(real), k, lat, (case, "bands", k))
                    judge(rec, s.extract_ks_waveguides(k=k), list(real), k, lat, (case, "bands", k))
                    rec.ev((case, k))
