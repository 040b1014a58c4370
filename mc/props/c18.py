"""C18: dominant wavenumbers and wave packet envelopes."""

import itertools

import numpy as np

from mc import scales, util
from mc.props.c16 import reference_window, meridional, zonal, odd

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all wavenumbers, phases, pairs of waves and wavenumber ranges on fields with even and odd numbers of longitudes, against direct Fourier sums"
RULE = ("every wavenumber that exists on the grid x phases, every ordered pair of wavenumbers (stronger and weaker component), every wavenumber range; all components of a basis and "
        "generic fields for the envelope, plane waves for every number of longitudes from 3 to 130 (analytic signal summed directly); all rotations; wavelet analysis for every wavenumber within its range of scales and the documented "
        "truncation, plane waves and packets. Non-trivial: the wave is within the range; homogeneity for factors 2^-60..2^60, also at the default resolution")
ASSUMPTIONS = ["wavelet analysis: wavenumbers between nlon/192 and nlon/3 (range of its scales) and up to 20, accuracy two steps of its scales"]


def units(tier):
    big = tier == "thorough"
    out = [["single", n] for n in ((6, 7, 8, 9, 12, 15, 18, 36, 45, 144) if not big else list(range(4, 41)) + [45, 72, 75, 90, 144, 180, 360])]
    out += [["pairs", n] for n in ((8, 9, 14, 21) if not big else (8, 9, 14, 21, 36, 45))]
    out += [["ranges", n] for n in ((8, 9, 13, 18) if not big else (8, 9, 13, 18, 25, 36))]
    out += [["smooth", n] for n in (6, 9, 18, 36)]
    out += [["envelope", n] for n in ((4, 5, 8, 9, 12, 13, 15, 17, 20, 26, 34) if not big else list(range(3, 33)) + [48, 72])]
    out += [["sizes", a] for a in range(3, 131 if not big else 361, 16)]
    out += [["packets", n] for n in (36, 45, 72)]
    out += [["state", n] for n in (6, 12, 18)]
    out += [["wavelet", n] for n in ((6, 9, 18, 36, 72) if not big else (6, 9, 12, 18, 25, 36, 50, 60, 72, 90, 100))]
    out += [["wavelet_local", n] for n in ((36, 72) if not big else (36, 60, 72, 90))]
    return out + scales.units((72,))


PHASES = np.array([0., .4, 1.1, np.pi / 2, 2.2, np.pi, -.7, -2.])


def run_unit(unit, rec):
    if unit[0] == "scales":
        return scales.waves(rec, unit[1])
    globals()[unit[0]](rec, *unit[1:])


def angle(nlon):
    return 2. * np.pi * np.arange(nlon) / nlon


def wave(nlon, k, phase=0., amp=1.):
    return amp * np.cos(k * angle(nlon) + phase)


def kmax(nlon):
    return nlon // 2


def visible(nlon, k, phase):
    """Amplitude of the Nyquist wave depends on its phase."""
    return abs(np.cos(phase)) if 2 * k == nlon else 1.


def single(rec, nlon):
    from barotropic import diagnostics
    dom = util.Reused(diagnostics).dominant_wavenumber_fourier
    lam = angle(nlon)
    for k in range(1, kmax(nlon) + 1):
        phases = [p for p in PHASES if visible(nlon, k, p) > .3]
        f = np.array([wave(nlon, k, p, 1. + .3 * i) for i, p in enumerate(phases)])
        for rng in ((1, kmax(nlon)), (k, k), (1, 500), (max(1, k - 1), k + 2)):
            case = (k, rng)
            with rec.guard(case):
                out = dom(f, None, smooth=None, wavenumber_range=rng)
                rec.close(out, np.full(len(phases), float(k)), case, rtol=0., atol=1e-9)
                # noise of rounding and a zonal mean do not matter
                rec.close(dom(1e-8 * f + 5e-7, None, None, rng), np.full(len(phases), float(k)), (case, "mean"), rtol=0., atol=1e-9)
            rec.ev(case)
        with rec.guard((k, "default")):
            if k <= 20:
                rec.close(dom(f, None, smooth=None), np.full(len(phases), float(k)), (k, "default range"), rtol=0., atol=1e-9)
                # the zonal mean and wavenumbers beyond the range do not count, however strong
                strong = f + 3. if kmax(nlon) < 25 else f + 3. + 5. * wave(nlon, 21 + k % 4, .3)
                rec.close(dom(strong, None, smooth=None), np.full(len(phases), float(k)), (k, "default range, outside"), rtol=0., atol=1e-9)
    # every latitude independently: all shifts of the sequence of wavenumbers
    ks = np.arange(1, min(kmax(nlon), 20) + 1)
    for s in range(ks.size):
        kk = np.roll(ks, s)
        with rec.guard(("latitudes", s)):
            f = np.array([wave(nlon, k, 0., 1. + (i % 3)) for i, k in enumerate(kk)])
            rec.close(dom(f, None, smooth=None), kk.astype(float), ("latitudes", s), rtol=0., atol=1e-9)
            rec.close(dom(field=f.astype(np.float32), grid=None, smooth=None, wavenumber_range=(1, 20)), kk.astype(float), ("float32", s), rtol=0., atol=1e-9)
        rec.ev(("latitudes", s))


def pairs(rec, nlon):
    from barotropic import diagnostics
    dom = util.Reused(diagnostics).dominant_wavenumber_fourier
    top = kmax(nlon)
    for k1, k2 in itertools.permutations(range(0, top + 1), 2):
        for p1, p2 in itertools.product((0., .9, -2.5), (0., 2.)):
            a1, a2 = 1., .8
            # amplitudes as they appear in the spectrum
            s1 = a1 * (2. if k1 == 0 or 2 * k1 == nlon else 1.) * (abs(np.cos(p1)) if k1 == 0 or 2 * k1 == nlon else 1.)
            s2 = a2 * (2. if k2 == 0 or 2 * k2 == nlon else 1.) * (abs(np.cos(p2)) if k2 == 0 or 2 * k2 == nlon else 1.)
            f = (wave(nlon, k1, p1, a1) + wave(nlon, k2, p2, a2))[None, :]
            for lo, hi in ((1, top), (0, top), (min(k1, k2), max(k1, k2)), (k1, k1), (k2, k2), (max(1, k2 - 1), max(1, k2 - 1) + 2)):
                in1, in2 = lo <= k1 <= hi, lo <= k2 <= hi
                if not in1 and not in2:
                    continue
                if in1 and in2:
                    if 0 in (k1, k2) or nlon in (2 * k1, 2 * k2):
                        # amplitude or power spectrum: only clear cases
                        if not (s1 > 2.2 * s2 or s2 > 2.2 * s1):
                            continue
                        want = k1 if s1 > s2 else k2
                    else:
                        want = k1
                else:
                    want = k1 if in1 else k2
                    if (s1 if in1 else s2) < .3:
                        continue
                case = (k1, k2, p1, p2, lo, hi)
                with rec.guard(case):
                    rec.close(dom(f, None, smooth=None, wavenumber_range=(lo, hi)), np.array([float(want)]), case, rtol=0., atol=1e-9)
                rec.ev(case)


def ranges(rec, nlon):
    """All ranges on a field in which every wavenumber has a different amplitude."""
    from barotropic import diagnostics
    dom = util.Reused(diagnostics).dominant_wavenumber_fourier
    top = kmax(nlon)
    order = [(3 * k) % (top + 1) if (top + 1) % 3 else (2 * k) % (top + 1) if (top + 1) % 2 else (5 * k) % (top + 1) for k in range(top + 1)]
    rows, amps = [], []
    for shift in range(top + 1):
        # zero and Nyquist wavenumbers are out of the competition
        amp = np.array([0. if k == 0 or 2 * k == nlon else 1. + order[(k + shift) % (top + 1)] for k in range(top + 1)])
        rows.append(sum(wave(nlon, k, .3 * k, a) for k, a in enumerate(amp)))
        amps.append(amp)
    f, amps = np.array(rows), np.array(amps)
    for lo in range(1, top + 1):
        for hi in range(lo, top + 1):
            if 2 * lo == nlon:
                continue
            for rng in ((lo, hi), [lo, hi], (np.int64(lo), np.int64(hi))):
                with rec.guard((lo, hi)):
                    want = lo + np.argmax(amps[:, lo:hi + 1], axis=1)
                    rec.close(dom(f, None, smooth=None, wavenumber_range=rng), want.astype(float), (lo, hi), rtol=0., atol=1e-9)
            rec.ev((lo, hi))
            # latitudes without any wave in the range between others: still a wavenumber of the range
            with rec.guard((lo, hi, "empty")):
                h = np.array([np.zeros(nlon), wave(nlon, lo, .4, 1.), np.full(nlon, 2.5), wave(nlon, (hi + 1) % (top + 1), .2, 1.), np.zeros(nlon)])
                got = np.asarray(dom(h, None, smooth=None, wavenumber_range=(lo, hi)))
                rec.ok(got.shape == (5,) and bool(np.all((got >= lo) & (got <= hi) & (got == np.round(got)))) and (2 * lo == nlon or got[1] == lo), (lo, hi, "empty"), lambda: str(got))
            rec.ev((lo, hi, "empty"))
    for bad in ((1,), (1, 2, 3), ()):
        rec.raises(Exception, lambda: dom(f, None, smooth=None, wavenumber_range=bad), ("refuse", bad))


def smooth(rec, n):
    import barotropic as bt
    from barotropic import diagnostics
    dom = util.Reused(diagnostics).dominant_wavenumber_fourier
    g = bt.Grid(180. / n, rsphere=1.5, ntrunc=2)
    d = 180. / n
    for step, off in itertools.product((1, 2, 5), range(3)):
        ks = 1 + (np.arange(n + 1) * step + off) % min(n - 1, 20)
        f = np.array([wave(2 * n, k, .1 * k) for k in ks])
        for spec in (None, ("boxcar", 10), ("boxcar", 3.2 * d), ("hann", 5. * d), ("hann", 40.), ("hamming", 2.8 * d), (("gaussian", 1.7), 7. * d), [np.array([.2, .5, .3])]):
            case = (step, off, str(spec))
            with rec.guard(case):
                if spec is None:
                    want = ks.astype(float)
                else:
                    pts = None if len(spec) == 1 else spec[1] / d
                    if pts is not None and abs(pts % 1. - .5) < 1e-6:
                        continue
                    win = spec[0] if len(spec) == 1 else reference_window(spec[0], odd(pts))
                    want = meridional(ks.astype(float), win)
                rec.close(dom(f, g, smooth=spec), want, case, rtol=1e-10)
                if spec == ("boxcar", 10):
                    rec.close(dom(f, g), want, (case, "default"), rtol=1e-10)
            rec.ev(case)


def analytic(f, lo, hi):
    """Modulus of the analytic signal of the components lo..hi, summed directly."""
    nlon = f.shape[-1]
    lam = angle(nlon)
    z = np.zeros(f.shape, dtype=complex)
    for k in range(max(lo, 0), min(hi, nlon // 2) + 1):
        c = (f * np.exp(-1j * k * lam)).sum(axis=-1) / nlon
        z += (1. if k == 0 or 2 * k == nlon else 2.) * c[..., None] * np.exp(1j * k * lam)
    return np.abs(z)


def envelope(rec, nlon):
    from barotropic import diagnostics
    env = util.Reused(diagnostics).envelope_hilbert
    top = kmax(nlon)
    generic = util.generic((3, nlon), 4)
    rngs = [(lo, hi) for lo in range(0, top + 2) for hi in range(lo, top + 2)] if nlon <= 20 else [(lo, hi) for lo in range(0, top + 2, 3) for hi in range(lo, top + 2, 4)]
    for lo, hi in rngs:
        for k in range(0, top + 1):
            f = np.array([wave(nlon, k, p, 1. + .2 * i) for i, p in enumerate(PHASES)])
            amp = np.array([(1. + .2 * i) * (abs(np.cos(p)) if k == 0 or 2 * k == nlon else 1.) for i, p in enumerate(PHASES)])
            case = (lo, hi, k)
            inside = lo <= k <= hi
            with rec.guard(case):
                want = np.repeat(amp[:, None], nlon, axis=1) * inside
                rec.close(env(f, (lo, hi)), want, case, rtol=0., atol=1e-12)
                if (lo, hi) == (2, 10):
                    rec.close(env(f), want, (case, "default"), rtol=0., atol=1e-12)
            rec.ev(case, inside)
        with rec.guard((lo, hi)):
            want = analytic(generic, lo, hi)
            rec.close(env(generic, wavenumber_range=(lo, hi)), want, (lo, hi, "generic"), rtol=0., atol=1e-12)
            rec.close(env(field=generic[:1], wavenumber_range=[lo, hi]), want[:1], (lo, hi, "one row"), rtol=0., atol=1e-12)
            for s in range(nlon):
                rec.close(env(np.roll(generic, s, axis=1), (lo, hi)), np.roll(want, s, axis=1), (lo, hi, "rotation", s), rtol=0., atol=1e-12)
                rec.ev((lo, hi, s))
            for name, h in (("F", np.asfortranarray(generic)), ("strided", np.repeat(generic, 2, axis=1)[:, ::2]), ("float32", generic.astype(np.float32))):
                rec.close(env(h, (lo, hi)), want, (lo, hi, name), rtol=0., atol=1e-5 if name == "float32" else 1e-12)
    with rec.guard("default"):
        rec.close(env(generic), analytic(generic, 2, 10), "default", rtol=0., atol=1e-12)
    for bad in ((1,), (1, 2, 3), ()):
        rec.raises(Exception, lambda: env(generic, wavenumber_range=bad), ("refuse", bad))


def sizes(rec, first):
    """Plane waves for every number of longitudes."""
    from barotropic import diagnostics
    env, dom = diagnostics.envelope_hilbert, diagnostics.dominant_wavenumber_fourier
    for nlon in range(first, first + 16):
        top = kmax(nlon)
        ks = np.arange(1, top + (nlon % 2))
        f = np.array([wave(nlon, k, .3 * k, 1. + .1 * (k % 7)) for k in ks])
        amp = np.array([1. + .1 * (k % 7) for k in ks])
        for rng in ((2, 10), (1, nlon)):
            case = (nlon, rng)
            with rec.guard(case):
                inside = (rng[0] <= ks) & (ks <= rng[1])
                rec.close(env(f, rng), np.repeat((amp * inside)[:, None], nlon, axis=1), (case, "envelope"), rtol=0., atol=1e-11)
                if inside.any():
                    rec.close(dom(f[inside], None, None, rng), ks[inside].astype(float), (case, "wavenumber"), rtol=0., atol=1e-9)
            rec.ev(case)


def packets(rec, nlon):
    """Modulated waves whose sidebands are within the range: the modulation is the envelope."""
    from barotropic import diagnostics
    env = util.Reused(diagnostics).envelope_hilbert
    lam = angle(nlon)
    for lo, hi in ((2, 10), (3, 9), (1, 15)):
        for k in range(lo + 2, hi - 1):
            for x0 in (0., 1., 3., 6.):
                shape = (.5 + .5 * np.cos(lam - x0))**2 + .1
                f = np.array([shape * np.cos(k * lam + p) for p in PHASES])
                case = (lo, hi, k, x0)
                with rec.guard(case):
                    want = np.repeat(shape[None, :], len(PHASES), axis=0)
                    rec.close(env(f, (lo, hi)), want, case, rtol=0., atol=1e-12)
                    out = [j for j in range(nlon // 2) if j < lo or j > hi]
                    noise = sum(wave(nlon, j, .2 * j, .5) for j in out)
                    rec.close(env(f + noise, (lo, hi)), want, (case, "with other waves"), rtol=0., atol=1e-10)
                rec.ev(case)


def state(rec, n):
    import barotropic as bt
    from barotropic import diagnostics as d
    for planet in ("earth", "slow", "faint", "fierce", "still"):
        g = util.grid(180. / n, planet)
        r, om = util.PLANETS[planet]
        for m in range(1, n - 1):
            z = util.rate(om) * util.wavy(180. / n, [(m, m, "c", .3), (1, 0, "c", .4)])
            with rec.guard((planet, m)):
                s = bt.State.from_vorticity(g, 0., z)
                # v of a sectoral harmonic: one wave of known amplitude at each latitude
                v = np.asarray(s.v, dtype=float)
                amp = np.sqrt(2. * np.mean(v**2, axis=1))
                want = np.repeat(amp[:, None], 2 * n, axis=1) * (2 <= m <= 10)
                rec.close(s.v_envelope_hilbert, want, (planet, m, "envelope"), rtol=0., atol=1e-4 * amp.max())
                rec.close(d.envelope_hilbert(s.v), want, (planet, m, "function"), rtol=0., atol=1e-4 * amp.max())
                if m <= 20:
                    k = d.dominant_wavenumber_fourier(s.v, g, smooth=None)
                    strong = amp > 1e-2 * amp.max()
                    rec.close(k[strong], np.full(strong.sum(), float(m)), (planet, m, "dominant"), rtol=0., atol=1e-9)
            rec.ev((planet, m))


STEP = 2.**(6. / 119.)


def wavelet(rec, n):
    from barotropic import diagnostics
    import barotropic as bt
    dom = util.Reused(diagnostics).dominant_wavenumber_wavelet
    nlon = 2 * n
    g = bt.Grid(180. / n, rsphere=1.5, ntrunc=2)
    rows = list(range(max(1, int(np.ceil(1.1 * nlon / 192.))), min(20, int(.32 * nlon)) + 1))
    for k in rows:
        nrows = n + 1 if n <= 9 else 3
        f = np.array([wave(nlon, k, PHASES[(j + k) % len(PHASES)], 1. + .2 * j) for j in range(nrows)])
        with rec.guard(k):
            # waves beyond wavenumber 20 are not considered
            extra = wave(nlon, 22, .3, 3.) if .32 * nlon > 22 else 0.
            for name, h in (("pure", f), ("with short waves", f + extra)):
                out = np.asarray(dom(h, g, smooth=None))
                if rec.ok(out.shape == f.shape, (k, name), "shape {}".format(out.shape)):
                    ratio = out / k
                    rec.ok(np.all(ratio > STEP**-2.5) and np.all(ratio < STEP**1.5), (k, name), lambda: "{} to {}".format(out.min(), out.max()))
                    rec.ok(np.all(out.max(axis=1) / out.min(axis=1) < STEP**2.5), (k, name, "independent of longitude"), lambda: "{} {}".format(out.min(axis=1), out.max(axis=1)))
        rec.ev(k)
    # Each latitude has its own wavenumber
    for off in range(0, len(rows), 2 if n <= 18 else 9):
        ks = np.array([rows[(j + off) % len(rows)] for j in range(n + 1)])
        f = np.array([wave(nlon, k, .5) for k in ks])
        with rec.guard(("latitudes", off)):
            raw = np.asarray(dom(f, g, smooth=None))
            ratio = raw / ks[:, None]
            rec.ok(np.all(ratio > STEP**-2.5) and np.all(ratio < STEP**1.5), ("latitudes", off), lambda: str(ratio))
            d = 180. / n
            for spec in (("hann", 40, 10), ("boxcar", 3. * d, 5. * d), ("hamming", 7. * d, 1. * d), ("hann", 5.2 * d, 3.3 * d)):
                if any(abs((w / d) % 1. - .5) < 1e-6 for w in spec[1:]):
                    continue
                want = zonal(meridional(raw, reference_window(spec[0], odd(spec[2] / d))), reference_window(spec[0], odd(spec[1] / d)))
                rec.close(dom(f, g, smooth=spec), want, ("latitudes", off, spec), rtol=1e-6)
                if spec == ("hann", 40, 10):
                    rec.close(dom(f, g), want, ("latitudes", off, "default"), rtol=1e-6)
        rec.ev(("latitudes", off))


def wavelet_local(rec, n):
    """Two wave packets at different longitudes are told apart, for every position."""
    from barotropic import diagnostics
    import barotropic as bt
    dom = util.Reused(diagnostics).dominant_wavenumber_wavelet
    nlon = 2 * n
    g = bt.Grid(180. / n, rsphere=1.5, ntrunc=2)
    lam = angle(nlon)
    for k1, k2 in ((5, 11), (8, 16), (12, 6)):
        rows, pos = [], []
        for s in range(0, nlon, max(1, nlon // (n + 1))):
            if len(rows) > n:
                break
            x = (lam - lam[s] + np.pi) % (2. * np.pi) - np.pi
            near = np.exp(-(x / .7)**4)
            far = np.exp(-((np.abs(x) - np.pi) / .7)**4)
            rows.append(near * np.cos(k1 * x) + far * np.cos(k2 * x))
            pos.append(s)
        f = np.zeros((n + 1, nlon))
        f[:len(rows)] = rows
        with rec.guard((k1, k2)):
            out = np.asarray(dom(f, g, smooth=None))
            devs = []
            for j, s in enumerate(pos):
                a, b = out[j, s] / k1, out[j, (s + nlon // 2) % nlon] / k2
                rec.ok(.85 < a < 1.15 and .85 < b < 1.15, (k1, k2, s), lambda: "{} and {}".format(a * k1, b * k2))
                # The field is symmetric, so is (apart from the resolution of wavelets) the result
                row = np.log(np.roll(out[j], -s))
                devs.append([np.mean(np.abs(row - np.roll(row[::-1], 1 + m))) for m in range(-8, 9)])
                rec.ev((k1, k2, s))
            best = np.argmin(np.mean(devs, axis=0)) / 2. - 4.
            rec.ok(abs(best) < 1., (k1, k2, "symmetry"), lambda: "center shifted by {} gridpoints".format(best))

