"""C07: thread interleavings and failed evaluations."""

import itertools
import os
import sys

import numpy as np

from mc import sched, util

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking: all interleavings of two real threads up to a preemption bound, all positions of a failure with retry"
RULE = ("threads: harnesses of two threads on shared states, forcings, models and grids; every schedule with at most 2 preemptions at line granularity (1 for the long "
        "harnesses) and 1 at bytecode granularity is executed on the real code. Faults: an exception at every transform call, every call of a user function and every "
        "executed line of an evaluation, followed by retries of the same and other evaluations. states = schedules and fault positions, transitions = scheduling points "
        "executed, traces = executions of the real code, all compared with values of undisturbed objects")
ASSUMPTIONS = ["code outside of the package's source files (numpy, scipy, spharm) runs atomically", "at most two threads and two preemptions"]


class Fault(Exception):
    pass


def world():
    """Fresh shared objects (grids are cached between executions: building them is slow and they have
    harnesses of their own)."""
    import barotropic as bt

    class W:
        pass
    w = W()
    w.bt = bt
    w.g = util.cached_grid(60., "slow")
    w.g2 = util.cached_grid(60., "retro")
    w.h = util.cached_grid(45., "slow")
    z = 2e-5 * util.wavy(60., [(2, 1, "c", 1.), (1, 0, "c", .6), (1, 1, "s", .5)])
    zh = 2e-5 * util.wavy(45., [(2, 1, "c", 1.), (1, 0, "c", .6), (3, 2, "s", .5), (3, 3, "c", .4)])
    w.s = bt.State(w.g, 0., pv_spectral=w.g.to_spectral(w.g.fcor2 + z))
    w.s2 = bt.State(w.g2, 0., pv_spectral=w.g2.to_spectral(w.g2.fcor2 + z))
    w.sp = bt.State(w.g, 0., pv=w.g.fcor2 - z)
    w.sh = bt.State(w.h, 0., pv_spectral=w.h.to_spectral(w.h.fcor2 + zh))
    w.sh2 = bt.State(w.h, 0., pv_spectral=w.h.to_spectral(w.h.fcor2 - zh))
    w.gauss = bt.rhs.GaussianMountain(800., (60., 30.), (40., 30.))
    w.zon = bt.rhs.ZonalSineMountains(800., 30., 40., 1, wind=("zon", .8))
    lon = np.arange(0., 361., 60.)
    w.oro = bt.rhs.Orography(lon, np.array([90., 30., -30., -90.]), np.outer([0., 300., 200., 0.], [1., 2., 1., 3., 1., 2., 1.]), wind=("sbr", 20.))
    w.rel = bt.rhs.LinearRelaxation(1e-6, 1e-5 * z / 2e-5)
    w.user = lambda s: 1e-11 * np.sin(s.u) + 0. * s.time
    w.rhs = (w.gauss + w.zon) * bt.rhs.TimedOffSwitch(3000.) + w.rel + w.user
    w.model = bt.BarotropicModel(w.rhs, diffusion_coeff=1e16, diffusion_bg=1e-5 * np.cos(w.g.phi2))
    w.free = bt.BarotropicModel(None, diffusion_coeff=1e16)
    w.reg = w.h.region[270:90, "N"]
    w.lst = bt.StateList([w.s, w.sp])
    w.z, w.zh = z, zh
    return w


def _run(model, s, n):
    last, saved = model.run(s, 1800., s.time + 1800. * n, save_every=1800.)
    return [x.pv for x in saved] + [last.u]


# What a thread (or an evaluation that fails) does
ACTIONS = {
    "u": lambda w: [w.s.u],
    "v": lambda w: [w.s.v],
    "pv": lambda w: [w.s.pv],
    "pvspec": lambda w: [w.sp.pv_spectral, w.sp.pv],
    "psi": lambda w: [w.s.streamfunction],
    "psip": lambda w: [w.sp.streamfunction],
    "uvp": lambda w: [w.sp.u, w.sp.v],
    "energyp": lambda w: [w.sp.eddy_enstrophy, w.sp.energy],
    "fluxp": lambda w: [w.sp.pv_flux_spectral],
    "energy": lambda w: [w.s.energy, w.s.enstrophy],
    "flux": lambda w: [w.s.pv_flux_spectral],
    "vort": lambda w: [w.s.vorticity, w.s.vorticity_spectral],
    "uv": lambda w: [w.s.u, w.s.v, w.s.pv],
    "falwa": lambda w: [w.sh.falwa],
    "falwa2": lambda w: [w.sh2.falwa],
    "zonpv2": lambda w: [w.sh2.pv_zonalized],
    "env2": lambda w: [w.sh2.v_envelope_hilbert],
    "ks2": lambda w: [w.sh2.stationary_wavenumber],
    "ffalwa2": lambda w: [w.sh2.falwa_filtered],
    "zonpv": lambda w: [w.sh.pv_zonalized],
    "fawa": lambda w: [w.sh.fawa],
    "ffalwa": lambda w: [w.sh.falwa_filtered],
    "env": lambda w: [w.sh.v_envelope_hilbert],
    "ks": lambda w: [w.sh.stationary_wavenumber],
    "gauss": lambda w: [w.gauss(w.s)],
    "gauss2": lambda w: [w.gauss(w.s2)],
    "gaussp": lambda w: [w.gauss(w.sp)],
    "zon": lambda w: [w.zon(w.s)],
    "oro": lambda w: [w.oro(w.s)],
    "oro2": lambda w: [w.oro(w.s2)],
    "rhs": lambda w: [w.rhs(w.s)],
    "rhsp": lambda w: [w.rhs(w.sp)],
    "euler": lambda w: [w.model.euler(w.s, 1800.).pv],
    "eulerp": lambda w: [w.model.euler(w.sp, 1800.).pv],
    "run": lambda w: _run(w.model, w.s, 1),
    "runp": lambda w: _run(w.model, w.sp, 1),
    "rundt": lambda w: [s.pv for s in w.model.run(w.s, 600., w.s.time + 1200.)[1]] + [w.model.run(w.sp, 600., 600.)[0].u],
    "freedt": lambda w: [w.free.run(w.sp, 600., w.s.time + 600.)[0].u],
    "run2": lambda w: _run(w.free, w.s, 2),
    "run2h": lambda w: _run(w.free, w.sh, 2),
    "lrun": lambda w: [s.pv for s in w.lst.run(w.free, 1800., 1800.)[0]],
    "grad": lambda w: [*w.g.gradient(w.z)],
    "wind": lambda w: [*w.g.wind(w.z, 0.5 * w.z)],
    "poisson": lambda w: [w.g.solve_poisson(w.z), w.g.laplace(w.z)],
    "poisson1": lambda w: [w.g.solve_poisson(w.z, 1e-13)],
    "diff1": lambda w: [w.g.solve_diffusion(w.z, 1e6, 1e6, 1)],
    "diff2": lambda w: [w.g.solve_diffusion(w.z, 1e17, 1e4, 2)],
    "deriv": lambda w: [w.h.derivative_meridional(w.zh), w.h.derivative_meridional(w.zh[:, 0], order=2)],
    "mean": lambda w: [w.h.mean(w.zh), w.reg.mean(w.zh), w.h.gridpoint_area],
    "mean2": lambda w: [w.h.mean(w.zh, axis="meridional"), w.reg.gridpoint_area],
    "quad": lambda w: [w.h.quad(w.zh, w.zh)],
    "quadb": lambda w: [w.h.quad(w.zh, -w.zh, method="boxcount"), w.h.quad_meridional(w.zh)],
    "region": lambda w: [w.reg.lon, w.reg.lon_mono, w.reg.extract(w.zh), w.reg.mask],
    "region2": lambda w: [w.h.region[180:0, :].lon_mono, w.reg.lon_mono],
    "filter": lambda w: [w.h.filter_zonal(w.zh, "hann", 140.), w.h.filter_meridional(w.zh, "boxcar", 90.)],
    "map": lambda w: [w.lst.map(lambda s, k: k * s.u, 2.), w.lst.pv],
    "addw": lambda w: [w.s.add_wind(w.sp).pv],
    "addv": lambda w: [w.s.add_vorticity(w.sp).u],
    "fallwa_arr": lambda w: [w.bt.diagnostics.falwa(w.zh, w.h)],
    "ksreal": lambda w: [w.bt.diagnostics.stationary_wavenumber(w.sh2, kind="real")],
    "dataset": lambda w: [w.bt.io.as_dataset(w.lst, fields={"u": "u", "q": lambda s: s.pv})[k].values for k in ("u", "q", "time")],
    "newgrid": lambda w: [w.bt.Grid(60., rsphere=2., omega=.5).fcor2_spectral, w.bt.Grid(60., rsphere=2., omega=.5).gradient(w.z)[0]],
    "newgrid2": lambda w: [w.bt.Grid(60., rsphere=9., omega=.1).fcor2_spectral, w.bt.Grid(60., rsphere=9., omega=.1).gradient(w.z)[0]],
    "init": lambda w: [w.bt.init.gaussian_jet(w.g).u, w.bt.init.held_1985(w.g).pv],
}

# Harnesses: pairs of actions that touch the same object
PAIRS2 = [  # two preemptions
    ("u", "u"), ("u", "v"), ("pv", "pv"), ("pv", "u"), ("psi", "psi"), ("psi", "u"), ("energy", "v"), ("flux", "uv"), ("vort", "pv"), ("pvspec", "pvspec"),
    ("gauss", "gauss"), ("gauss", "gauss2"), ("gauss", "gaussp"), ("zon", "zon"), ("oro", "oro2"), ("grad", "wind"), ("poisson", "poisson1"), ("diff1", "diff2"),
    ("mean", "mean2"), ("mean", "mean"), ("region", "region"), ("region", "region2"), ("addw", "addv"), ("uv", "uv"), ("env", "ks"),
    ("psi", "psip"), ("uv", "uvp"), ("energy", "energyp"), ("flux", "fluxp"), ("env", "env2"), ("ks", "ks2"),
]
PAIRS1 = [  # one preemption (long harnesses), with two in the thorough tier where feasible
    ("falwa", "falwa"), ("falwa", "fawa"), ("falwa", "zonpv"), ("zonpv", "zonpv"), ("ffalwa", "falwa"), ("ks", "ksreal"), ("fallwa_arr", "falwa"),
    ("rhs", "rhs"), ("rhs", "rhsp"), ("euler", "euler"), ("euler", "eulerp"), ("run", "run"), ("run", "runp"), ("run", "u"), ("run2", "run2"), ("run2", "run2h"),
    ("lrun", "lrun"), ("quad", "quadb"), ("quad", "quad"), ("deriv", "deriv"), ("filter", "filter"), ("map", "map"), ("dataset", "dataset"), ("newgrid", "newgrid2"),
    ("newgrid", "gauss"), ("init", "init"), ("diff1", "run"), ("oro", "rhs"),
    ("falwa", "falwa2"), ("zonpv", "zonpv2"), ("ffalwa", "ffalwa2"), ("run", "rundt"), ("run2", "freedt"),
]
FAULTS = list(ACTIONS)


SLOW = ("falwa", "ffalwa", "fallwa_arr", "zonpv", "dataset", "lrun", "run", "run2")


def units(tier):
    big = tier == "thorough"
    out = []
    for p in PAIRS2:
        out += [["line", list(p), 2, k, 2] for k in range(2)]
        out.append(["opcode", list(p), 1, 0, 1])
    for p in PAIRS1:
        out += [["line", list(p), 1, k, 2] for k in range(2)]
        if big:
            n = 12 if p[0] in SLOW else 4
            out += [["opcode", list(p), 1, k, n] for k in range(n)]
            if p[0] not in SLOW[:5]:
                out += [["line", list(p), 2, k, 16] for k in range(16)]
    out += [["fault", a] for a in FAULTS]
    out += [["interrupt", a] for a in FAULTS]
    out += [["replay", list(p)] for p in PAIRS2[:3]]
    return out


def snapshot(x):
    return [np.array(v, copy=True) for v in x]


_SOLO = {}


def _solo(name):
    try:
        return snapshot(ACTIONS[name](world()))
    except Exception:
        import traceback
        return traceback.format_exc(limit=8)


def prepare(tier):
    import multiprocessing
    names = list(ACTIONS)
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        _SOLO.update(zip(names, pool.map_async(_solo, names, chunksize=1).get(timeout=300)))


def solo(name):
    if isinstance(_SOLO[name], str):
        raise RuntimeError("{} fails on its own:\n{}".format(name, _SOLO[name]))
    return _SOLO[name]


def agree(got, want):
    if len(got) != len(want):
        return "number of results"
    for g, w in zip(got, want):
        g = np.asarray(g)
        if w.dtype.kind == "b":
            w = w.astype(float)
            g = g.astype(float) if g.dtype.kind == "b" else g
        if g.shape != w.shape or g.dtype == object:
            return "result {} instead of an array of shape {}".format(repr(g)[:100], w.shape)
        fin = np.isfinite(w)
        if not np.array_equal(np.isfinite(g), fin) or not np.array_equal(g[~fin], w[~fin], equal_nan=True):
            return "non-finite values"
        if fin.any() and np.max(np.abs(g[fin] - w[fin]), initial=0.) > 1e-5 * np.max(np.abs(w[fin])):
            return "values differ by {:.3g} (scale {:.3g})".format(np.max(np.abs(g[fin] - w[fin])), np.max(np.abs(w[fin])))
    return None


def source():
    import barotropic
    return os.path.dirname(os.path.abspath(barotropic.__file__)) + os.sep


def run_unit(unit, rec):
    kind = unit[0]
    src = source()
    sched.install_locks(src)
    if kind in ("line", "opcode"):
        interleave(unit, rec, src)
    elif kind == "replay":
        replayed(unit, rec, src)
    elif kind == "fault":
        faults(unit[1], rec)
    elif kind == "interrupt":
        interrupts(unit[1], rec, src)


def interleave(unit, rec, src):
    kind, (a, b), bound, shard, nshards = unit
    want = [solo(a), solo(b)]

    def make():
        w = world()
        make.w = w
        return [lambda: ACTIONS[a](w), lambda: ACTIONS[b](w)]
    # once without scheduler, so that imports and caches of other libraries are warm
    w = world()
    ACTIONS[a](w), ACTIONS[b](w)
    outcomes = set()
    for plan, start, results, s in sched.explore(make, src, bound, kind == "opcode", (shard, nshards), (0,) if a == b else (0, 1)):
        case = (a, b, start, plan, s.where)
        ok = True
        for (status, value), wn, name in zip(results, want, (a, b)):
            if status != "ok":
                rec.fail(case, "{} raised {!r}".format(name, value))
                ok = False
            else:
                msg = agree(value, wn)
                if msg:
                    rec.fail(case, "{}: {}".format(name, msg))
                    ok = False
        # what is memoized must be right for later readers, too
        if ok and len(plan) == bound:
            for name, wn in ((a, want[0]), (b, want[1])):
                try:
                    msg = agree(ACTIONS[name](make.w), wn)
                except Exception as e:
                    msg = repr(e)
                if msg:
                    rec.fail(case, "{} evaluated after the threads ended: {}".format(name, msg))
        rec.evaluations += 1
        rec.count("states")
        rec.count("traces")
        rec.count("transitions", s.idx)
        rec.count("preemptions", len(plan))
        if len(rec.samples) < 1 and len(plan) == bound:
            rec.samples.append("threads {} | {}: switch at {}".format(a, b, s.where))
        if rec.nfails > 8:
            break


def replayed(unit, rec, src):
    """The same schedule has the same course every time."""
    a, b = unit[1]

    def make():
        w = world()
        return [lambda: ACTIONS[a](w), lambda: ACTIONS[b](w)]
    ACTIONS[a](world()), ACTIONS[b](world())
    for i in range(0, 24, 3):
        seen = set()
        for _ in range(2):
            s = sched.Scheduler(make(), [(i, 1), (i + 4, 0)], src)
            s.run()
            seen.add((s.idx, tuple(s.where)))
        rec.ok(len(seen) == 1, (a, b, i), "execution is not determined by the schedule: {}".format(seen))
        rec.ev((a, b, i))
        rec.count("traces", 2)


# Failures

METHODS = ["grdtospec", "spectogrd", "getuv", "getvrtdivspec", "getgrad"]
FOLLOW = ["u", "v", "pv", "psi", "flux", "pvspec", "gauss", "gauss2", "zon", "oro", "rhs", "euler", "run2", "mean", "region", "falwa", "zonpv", "grad", "poisson1",
          "diff2", "quad", "map"]


class Injector:
    """Counts calls of transforms and user functions, the k-th one fails."""

    def __init__(self):
        self.calls = 0
        self.fail_at = set()

    def hit(self):
        self.calls += 1
        if self.calls in self.fail_at:
            raise Fault("injected at call {}".format(self.calls))

    def __enter__(self):
        import spharm
        self.saved = {m: getattr(spharm.Spharmt, m) for m in METHODS}
        for m, f in self.saved.items():
            def wrapped(obj, *args, _f=f, **kwargs):
                self.hit()
                return _f(obj, *args, **kwargs)
            setattr(spharm.Spharmt, m, wrapped)
        return self

    def __exit__(self, *exc):
        import spharm
        for m, f in self.saved.items():
            setattr(spharm.Spharmt, m, f)


def fault_world(inj):
    """World whose user-supplied functions are part of the fault alphabet, too."""
    w = world()
    plain = w.user

    def user(s):
        inj.hit()
        out = plain(s)
        inj.hit()
        return out
    bt = w.bt
    w.rhs = (w.gauss + w.zon) * bt.rhs.TimedOffSwitch(3000.) + w.rel + user
    w.model = bt.BarotropicModel(w.rhs, diffusion_coeff=1e16, diffusion_bg=1e-5 * np.cos(w.g.phi2))

    class Hill(bt.rhs.GaussianMountain):
        def orography(self, grid):
            inj.hit()
            return super().orography(grid)
    w.gauss = Hill(800., (60., 30.), (40., 30.))
    w.hit = inj.hit
    return w


def attempt(rec, w, name, case, allowed):
    """Evaluate; a failure has to be the injected one. True if it failed."""
    try:
        out = ACTIONS[name](w)
    except Fault:
        return True
    except Exception as e:
        if allowed:
            # the injected failure may be wrapped
            cause = e
            while cause is not None and not isinstance(cause, Fault):
                cause = cause.__cause__ or cause.__context__
            if cause is not None:
                return True
        rec.fail(case, "{} raised {!r}".format(name, e))
        return True
    msg = agree(out, solo(name))
    if msg:
        rec.fail(case, "{}: {}".format(name, msg))
    return False


def faults(name, rec):
    with Injector() as inj:
        w = fault_world(inj)
        inj.calls = 0
        attempt(rec, w, name, (name, "undisturbed"), False)
        total = inj.calls
        rec.count("fault_positions", total)
        for k in range(1, total + 1):
            # one failure, then every follower; two failures in a row
            for second in [None] + list(range(1, total + 1)):
                case = (name, k, second)
                w = fault_world(inj)
                inj.calls, inj.fail_at = 0, {k}
                failed = attempt(rec, w, name, case, True)
                rec.ok(failed or inj.calls < k, case, "the failure was swallowed")
                if second is not None:
                    inj.calls, inj.fail_at = 0, {second}
                    attempt(rec, w, name, case, True)
                inj.fail_at = set()
                attempt(rec, w, name, (case, "retry"), False)
                if second is None:
                    for other in FOLLOW:
                        attempt(rec, w, other, (case, "then", other), False)
                    # also without the retry in between
                    for other in FOLLOW:
                        w = fault_world(inj)
                        inj.calls, inj.fail_at = 0, {k}
                        attempt(rec, w, name, case, True)
                        inj.fail_at = set()
                        attempt(rec, w, other, (case, "directly", other), False)
                        attempt(rec, w, name, (case, "after", other), False)
                        rec.count("traces")
                rec.ev(case)
                rec.count("states")
                rec.count("traces")
                rec.count("transitions", inj.calls)


class Interruptor:
    """Raises at the k-th executed line of the package (e.g. Ctrl-C, out of memory)."""

    def __init__(self, src, k):
        self.src, self.k, self.n, self.where = src, k, 0, None

    def trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.src):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.where = "{}:{}".format(os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Fault("interrupted at " + self.where)
        return self.local


def interrupts(name, rec, src):
    def attempt_at(w, k):
        it = Interruptor(src, k)
        sys.settrace(it.trace)
        try:
            ACTIONS[name](w)
            failed = False
        except Exception:
            failed = True
        finally:
            sys.settrace(None)
        return it, failed
    ACTIONS[name](world())
    it, _ = attempt_at(world(), -1)
    total = it.n
    # evaluations with loops over latitudes: the first and last iterations of every line
    # are equivalent to the others (no state is carried between them), keep all if feasible
    positions = range(1, total + 1) if total <= 400 else sorted(set(range(1, 200)) | set(range(total - 199, total + 1)))
    rec.count("interrupt_positions", len(positions))
    rec.count("interrupt_positions_skipped", total - len(positions))
    for k in positions:
        w = world()
        it, failed = attempt_at(w, k)
        case = (name, k, it.where)
        attempt(rec, w, name, (case, "retry"), False)
        for other in FOLLOW[:10]:
            attempt(rec, w, other, (case, "then", other), False)
        rec.ev(case)
        rec.count("states")
        rec.count("traces")
        rec.count("transitions", it.n)
