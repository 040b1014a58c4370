"""C01: runs follow the documented integration scheme (independent integrator)."""

import datetime as dt
import itertools

import numpy as np
import spharm

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of model configurations up to a depth of steps, step by step against an independent integrator"
RULE = ("product of planet/step size x grid/truncation x forcing x diffusion order x coefficient x background x time type "
        "x initial condition, every step 1..N of each run compared; a case is non-trivial if the step changed PV by more than 1e-3 of its scale; long runs (800, thorough 5000 steps); planets without rotation, with very weak and very strong winds")
ASSUMPTIONS = ["spharm transforms (third party) are trusted and used by the reference", "deviations below 3e-5 of the PV scale (single precision) are not violations"]

# planet, seconds per step, vorticity scale
SYSTEMS = {
    "earth": ("slow", 7200., 3e-5),
    "tiny": ("tiny", 0.75, 0.3),
    "retro": ("retro", 129600., 3e-6),
    "still": ("still", .25, .3),
    "faint": ("faint", 2.4e11, 9e-13),
    "fierce": ("fierce", 2.**-23, 1.5e6),
}
GRIDS = [(30., None), (22.5, 5), (45., None), (36., 3)]
RHS = ["none", "func", "timed", "relax", "combo"]
DIFF = [(1, 0.), (1, 0.15), (2, 0.05), (2, 0.8), (3, 0.01), (4, 0.002)]
TIMES = ["int", "float", "delta", "npfloat"]


def units(tier):
    grids = GRIDS if tier == "thorough" else GRIDS[:3]
    out = [["run", s, list(g), r] for s in SYSTEMS for g in grids for r in RHS]
    out += [["long", tk, n] for tk in TIMES for n in ((800,) if tier == "quick" else (800, 5000))]
    out += [["steps", s, list(g)] for s in SYSTEMS for g in grids]
    out += [["default", tk, n] for tk in TIMES for n in ((14,) if tier == "quick" else (14, 60))]
    return out


class Ref:
    """Reference integrator: plain functions of spectral coefficients."""

    def __init__(self, res, planet, ntrunc, order, coeff, bg, rhs):
        self.nlat, self.nlon = util.dims(res)
        self.r, self.om = util.PLANETS[planet]
        self.nt = self.nlat - 1 if ntrunc is None else ntrunc
        self.sp = spharm.Spharmt(self.nlon, self.nlat, rsphere=self.r, gridtype="regular", legfunc="stored")
        lat, lon = util.coords(res)
        self.f = np.repeat((2. * self.om * np.sin(np.deg2rad(lat)))[:, None], self.nlon, axis=1)
        self.fs = self.sp.grdtospec(self.f, self.nt)
        n = np.array([nn for m in range(self.nt + 1) for nn in range(m, self.nt + 1)], dtype=float)
        self.eig = n * (n + 1.) / self.r**2
        self.order, self.coeff, self.rhs = order, coeff, rhs
        self.bg = None if bg is None else self.sp.grdtospec(bg, self.nt)

    def grid(self, q):
        return self.sp.spectogrd(q.astype(np.complex64)).astype(float)

    def tendency(self, q, t):
        pv = self.grid(q)
        z = (q - self.fs).astype(np.complex64)
        u, v = self.sp.getuv(z, np.zeros_like(z))
        _, div = self.sp.getvrtdivspec(pv * u, pv * v, self.nt)
        out = -div.astype(complex)
        if self.rhs is not None:
            out = out + self.sp.grdtospec(self.rhs(pv, u, v, t), self.nt)
        return out

    def diffuse(self, q, dts):
        if self.bg is not None:
            q = q - self.bg
        q = q / (1. + dts * self.coeff * self.eig**self.order)
        if self.bg is not None:
            q = q + self.bg
        return q

    def euler(self, q, t, dts):
        return self.diffuse(q + dts * self.tendency(q, t), dts)

    def leapfrog(self, q0, q1, t1, dts, alpha=0.2):
        q2 = self.diffuse(q0 + 2. * dts * self.tendency(q1, t1), 2. * dts)
        return q1 + alpha * (q0 - 2. * q1 + q2), q2

    def run(self, q0, t0, dts, n):
        """Filtered states 0..n."""
        out = [q0]
        if n == 0:
            return out
        q1 = self.euler(q0, t0, dts)
        for i in range(1, n + 1):
            qf, q2 = self.leapfrog(q0, q1, t0 + i * dts, dts)
            out.append(qf)
            q0, q1 = qf, q2
        return out


def make_rhs(kind, scale, dts, res, secs):
    """(reference function of pv,u,v,t; package forcing). secs: state -> seconds since start."""
    import barotropic as bt
    shape = util.dims(res)
    pattern = scale / (8. * dts) * util.wavy(res, [(1, 1, "c", 1.), (2, 0, "c", .6), (2, 1, "s", -.8), (0, 0, "c", .3)])
    ref_pv = scale * util.wavy(res, [(2, 2, "c", 1.), (1, 0, "c", 1.5)])
    rate = 0.12 / dts
    t_off = 2.4 * dts
    if kind == "none":
        return None, None
    if kind == "func":
        return (lambda pv, u, v, t: 0.05 * pv * np.cos(t / dts) / dts + pattern,
                lambda s: 0.05 * s.pv * np.cos(secs(s) / dts) / dts + pattern)
    if kind == "relax":
        return lambda pv, u, v, t: rate * (ref_pv - pv), bt.rhs.LinearRelaxation(rate, ref_pv)
    if kind == "timed":
        # a user-defined switch in elapsed seconds
        class Until(bt.rhs.RHS):
            def __call__(self, s):
                return pattern if secs(s) <= t_off else 0. * pattern
        return (lambda pv, u, v, t: pattern if t <= t_off else 0. * pattern), Until()
    if kind == "combo":
        f = lambda s: 1. + 0.5 * np.sin(secs(s) / dts)
        g = lambda s: pattern
        return (lambda pv, u, v, t: rate * (ref_pv - pv) * (1. + 0.5 * np.sin(t / dts)) + pattern,
                bt.rhs.LinearRelaxation(rate, ref_pv) * f + g)
    raise ValueError(kind)


def axes(dts):
    """Dates cannot represent every time step."""
    return [tk for tk in TIMES if tk != "delta" or 1e-3 < dts < 1e9]


def axis(kind, dts):
    """start time, time step, function state -> seconds since start."""
    if kind == "int" and dts == int(dts):
        t0 = -3 * int(dts)
        return t0, int(dts), lambda s: float(s.time - t0)
    if kind in ("int", "float"):
        t0 = 1.5 * dts
        return t0, dts, lambda s: s.time - t0
    if kind == "npfloat":
        return np.float64(0.), np.float64(dts), lambda s: float(s.time)
    return util.T0, dt.timedelta(seconds=dts), lambda s: (s.time - util.T0).total_seconds()


def initial(res, scale):
    lat, lon = util.coords(res)
    yield "waves", scale * util.wavy(res, util.flow_terms(res, 1.))
    zon = util.wavy(res, [(1, 0, "c", 1.), (2, 0, "c", .5)])
    if util.dims(res)[0] > 4:
        zon = zon + util.wavy(res, [(2, 1, "c", .4)])
    yield "jet", scale * zon


def run_unit(unit, rec):
    import barotropic as bt
    if unit[0] == "default":
        return run_default(unit, rec)
    if unit[0] == "long":
        return run_long(unit, rec)
    kind, system, (res, nt) = unit[:3]
    planet, dts, scale = SYSTEMS[system]
    grid = util.grid(res, planet, nt)
    ntr = grid.nlat - 1 if nt is None else nt
    eigmax = (ntr * (ntr + 1)) / grid.rsphere**2
    bg_field = scale * util.wavy(res, [(2, 1, "c", 1.), (1, 0, "c", -1.), (0, 0, "c", .5)])
    nsteps = 4
    if kind == "run":
        for (order, strength), bg, tk, (iname, zeta) in itertools.product(
                DIFF, (None, bg_field), axes(dts), initial(res, scale)):
            t0, step, secs = axis(tk, dts)
            coeff = strength * 8. / dts / eigmax**order
            rfun, rhs = make_rhs(unit[3], scale, dts, res, secs)
            ref = Ref(res, planet, nt, order, coeff, bg, rfun)
            pv0 = ref.f + zeta
            model = bt.BarotropicModel(rhs, diffusion_order=order, diffusion_coeff=coeff, diffusion_bg=bg)
            q0 = ref.sp.grdtospec(pv0, ref.nt).astype(complex)
            want = [ref.grid(q) for q in ref.run(q0, 0., dts, nsteps)]
            case = (order, strength, bg is not None, tk, iname)
            state = bt.State(grid, t0, pv=pv0)
            sc = max(np.max(np.abs(w)) for w in want)
            if tk == "delta":
                got = []
                for n in range(nsteps + 1):
                    last, saved = model.run(state, step, t0 + n * step)
                    rec.ok(len(saved) == 1, (case, n), "saved states without saving interval")
                    got.append(last)
            else:
                last, saved = model.run(state, step, t0 + nsteps * step, save_every=step)
                got = list(saved)
                if not rec.ok(len(got) == nsteps + 1, case, "{} states saved".format(len(got))):
                    continue
                rec.close(last.pv, got[-1].pv, (case, "last"), scale=sc)
            for n, (s, w) in enumerate(zip(got, want)):
                rec.ok(s.time == t0 + n * step, (case, n), "time {}".format(s.time))
                rec.close(s.pv, w, (case, n), rtol=3e-5, scale=sc)
                moved = n > 0 and np.max(np.abs(w - want[n - 1])) > 1e-3 * sc
                rec.ev((case, n), nontrivial=moved)
    elif kind == "steps":
        # The two steppers on their own, with all filter parameters
        for (order, strength), bg, tk, alpha, (iname, zeta) in itertools.product(
                DIFF, (None, bg_field), axes(dts), (None, 0., 0.1, 0.5), initial(res, scale)):
            t0, step, secs = axis(tk, dts)
            coeff = strength * 8. / dts / eigmax**order
            rfun, rhs = make_rhs("func", scale, dts, res, secs)
            ref = Ref(res, planet, nt, order, coeff, bg, rfun)
            model = bt.BarotropicModel(rhs, order, coeff, bg)
            qa = ref.sp.grdtospec(ref.f + zeta, ref.nt).astype(complex)
            sa = bt.State(grid, t0, pv_spectral=qa.astype(np.complex64))
            qb = ref.sp.grdtospec(ref.f * 0.9 + 0.8 * zeta[:, ::-1], ref.nt).astype(complex)
            sb = bt.State(grid, t0 + step, pv_spectral=qb.astype(np.complex64))
            case = (order, strength, bg is not None, tk, alpha, iname)
            w = ref.euler(qa, 0., dts)
            sc = np.max(np.abs(ref.grid(qa)))
            e = model.euler(sa, step)
            rec.close(e.pv, ref.grid(w), (case, "euler"), rtol=3e-5, scale=sc)
            rec.ok(e.time == t0 + step and e.grid is grid, (case, "euler"), "time/grid")
            al = 0.2 if alpha is None else alpha
            wn, w2 = ref.leapfrog(qa, qb, dts, dts, al)
            n, s2 = model.leapfrog(sa, sb) if alpha is None else model.leapfrog(sa, sb, filter_parameter=alpha)
            rec.close(n.pv, ref.grid(wn), (case, "filtered"), rtol=3e-5, scale=sc)
            rec.close(s2.pv, ref.grid(w2), (case, "leapfrog"), rtol=3e-5, scale=sc)
            rec.ok(n.time == t0 + step and s2.time == t0 + 2 * step, (case, "leapfrog"), "times {} {}".format(n.time, s2.time))
            rec.ev(case)
        # Backward in time (well-posed without diffusion, the implicit scheme is defined anyway)
        for (order, strength), tk, alpha in itertools.product([(1, 0.), (1, .01), (2, 0.02)], axes(dts), (None, 0., .1)):
            t0, step, secs = axis(tk, dts)
            coeff = strength / dts / eigmax**order
            rfun, rhs = make_rhs("func", scale, dts, res, secs)
            ref = Ref(res, planet, nt, order, coeff, None, rfun)
            model = bt.BarotropicModel(rhs, order, coeff)
            zeta = next(initial(res, scale))[1]
            qa = ref.sp.grdtospec(ref.f + zeta, ref.nt).astype(complex)
            qb = ref.sp.grdtospec(ref.f * 0.9 + 0.8 * zeta[:, ::-1], ref.nt).astype(complex)
            sa = bt.State(grid, t0, pv_spectral=qa.astype(np.complex64))
            sb = bt.State(grid, t0 - step, pv_spectral=qb.astype(np.complex64))
            case = (order, strength, tk, alpha, "backward")
            sc = np.max(np.abs(ref.grid(qa)))
            with rec.guard(case):
                e = model.euler(sa, -step)
                rec.close(e.pv, ref.grid(ref.euler(qa, 0., -dts)), (case, "euler"), rtol=3e-5, scale=sc)
                wn, w2 = ref.leapfrog(qa, qb, -dts, -dts, .2 if alpha is None else alpha)
                n, s2 = model.leapfrog(sa, sb) if alpha is None else model.leapfrog(sa, sb, filter_parameter=alpha)
                rec.close(n.pv, ref.grid(wn), (case, "filtered"), rtol=3e-5, scale=sc)
                rec.close(s2.pv, ref.grid(w2), (case, "leapfrog"), rtol=3e-5, scale=sc)
                rec.ok(e.time == t0 - step and n.time == t0 - step and s2.time == t0 - 2 * step, case, "times {} {} {}".format(e.time, n.time, s2.time))
            rec.ev(case)


def run_long(unit, rec):
    """Many steps of weak, damped and forced waves: rounding errors do not grow."""
    import barotropic as bt
    _, tk, nsteps = unit
    for (res, nt), (planet, dts, scale) in itertools.product(((45., None), (30., 4)), (SYSTEMS["earth"], SYSTEMS["tiny"])):
        grid = util.grid(res, planet, nt)
        ntr = grid.nlat - 1 if nt is None else nt
        eigmax = (ntr * (ntr + 1)) / grid.rsphere**2
        zeta = .05 * scale * util.wavy(res, [(2, 1, "c", 1.), (1, 0, "c", 1.), (2, 2, "s", .5)])
        t0, step, secs = axis(tk, dts)
        wave = scale / dts * util.wavy(res, [(1, 1, "c", 3e-3), (2, 0, "c", 1e-3), (2, 1, "s", 2e-3)])
        # (a forcing that never repeats)
        ref = Ref(res, planet, nt, 1, .002 * 8. / dts / eigmax, grid.fcor2, lambda pv, u, v, t: wave * np.cos(.37 * t / dts))
        model = bt.BarotropicModel(lambda s: wave * np.cos(.37 * secs(s) / dts), diffusion_order=1, diffusion_coeff=ref.coeff, diffusion_bg=grid.fcor2)
        pv0 = ref.f + zeta
        case = (res, planet)
        with rec.guard(case):
            want = ref.run(ref.sp.grdtospec(pv0, ref.nt).astype(complex), 0., dts, nsteps)
            state = bt.State(grid, t0, pv=pv0)
            tend = t0 + (nsteps - .5) * step if tk != "delta" else t0 + nsteps * step
            last, saved = model.run(state, step, tend) if tk == "delta" else model.run(state, step, tend, save_every=step)
            got = [last] if tk == "delta" else list(saved)
            if not rec.ok(tk == "delta" or len(got) == nsteps + 1, case, lambda: "{} saved".format(len(got))):
                continue
            for n, s in enumerate(got):
                n = nsteps if tk == "delta" else n
                w = ref.grid(want[n])
                rec.close(s.pv, w, (case, n), rtol=0., atol=5e-3 * .05 * scale)
                rec.ev((case, n), n > 0)


def run_default(unit, rec):
    """Longer runs with all parameters of grid and model at their defaults (earth)."""
    import barotropic as bt
    _, tk, nsteps = unit
    # (the default coefficient acts on scales that only the default resolution has)
    for res, dts in ((15., 1200.), (10., 3600.), (2.5, 1800.)):
        grid = bt.Grid(res)
        planet = "earth-default"
        util.PLANETS.setdefault(planet, (6371.2e3, 7.292e-5))
        ref = Ref(res, planet, None, 2, 1.e15, None, None)
        pv0 = ref.f + 4e-5 * util.wavy(res, [(5, 3, "c", 1.), (3, 0, "c", .5), (4, 2, "s", .3)])
        if res == 2.5:
            pv0 = pv0 + 2e-5 * util.wavy(res, [(60, 20, "c", 1.), (70, 5, "s", 1.), (48, 30, "s", 1.)])
            nsteps = 3
        t0, step, secs = axis(tk, dts)
        want = ref.run(ref.sp.grdtospec(pv0, ref.nt).astype(complex), 0., dts, nsteps)
        state = bt.State(grid, t0, pv=pv0)
        model = bt.BarotropicModel()
        sc = np.max(np.abs(pv0))
        for n in range(nsteps + 1):
            last, _ = model.run(state, step, t0 + n * step)
            rec.close(last.pv, ref.grid(want[n]), (res, dts, n), rtol=5e-5, scale=sc)
            rec.ev((res, dts, n))
