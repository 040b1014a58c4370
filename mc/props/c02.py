"""C02: end and saving schedule of runs as an automaton over (steps, next multiple)."""

import datetime as dt
import itertools
from fractions import Fraction

import numpy as np

from mc import util

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of the run/save automaton, every trace replayed on the implementation"
RULE = ("all (t0, dt, tend, save_every) over small alphabets, numeric types and datetime axes; model states are (time, number of saved "
        "states, next save time)")
ASSUMPTIONS = ["times and intervals are exactly representable (with inexact ones the schedule depends on rounding)"]

T0S = [0, -7, 3, 12]
DTS = [1, 2, 3, 7]
ENDS = list(range(-4, 19))
SAVES = [None, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 14, 15, 40]
TYPES = ["int", "float", "npint", "half", "tiny", "huge"]
FACTORS = {"half": Fraction(1, 2), "tiny": Fraction(1, 2**20), "huge": 2**20}


def units(tier):
    t0s = T0S if tier == "quick" else T0S + [-40, 1, 100, 86400]
    types = TYPES if tier == "quick" else TYPES + ["np32", "mixed"]
    out = [["num", t0, d, ty] for t0 in t0s for d in DTS for ty in types]
    out += [["date", d] for d in range(len(DELTAS))]
    out += [["list", d] for d in DTS]
    out += [["long", t0, d, ty] for t0, d in ((0, 1), (-1000, 3), (86400, 600)) for ty in types]
    return out


DELTAS = [dt.timedelta(minutes=30), dt.timedelta(days=1), dt.timedelta(days=1, hours=6), dt.timedelta(seconds=1, microseconds=500000)]


def schedule(t0, step, tend, save, rec=None):
    """Reference automaton. Returns index of last step and indices of saved states."""
    n, saved = 0, [0]
    k = 1  # the next multiple of save that is waited for
    t = t0
    states = {(t, len(saved), k)}
    while t < tend:
        t = t + step
        n += 1
        if save and t - t0 >= k * save:
            saved.append(n)
            k = (t - t0) // save + 1
        states.add((t, len(saved), k))
        if rec is not None:
            rec.count("transitions")
    return n, saved, states


def run_unit(unit, rec):
    import barotropic as bt
    res = 60.
    planet = "slow"
    grid = util.grid(res, planet)
    lat, lon = util.coords(res)
    zeta = 2e-5 * util.wavy(res, [(2, 1, "c", 1.), (1, 0, "c", 1.)])
    pv0 = grid.fcor2 + zeta
    pattern = 1e-9 * util.wavy(res, [(1, 1, "s", 1.), (2, 0, "c", 1.)])
    # a constant drift makes all states of a run different
    model = bt.BarotropicModel(lambda s: pattern, diffusion_coeff=0.)
    sc = np.max(np.abs(pv0))
    seen = set()
    if unit[0] == "num":
        _, t0, d, ty = unit
        fac = FACTORS.get(ty, 1)
        conv = {"int": int, "float": float, "npint": np.int64, "half": float, "tiny": float, "huge": float, "np32": np.float32, "mixed": float}[ty]
        state0 = bt.State(grid, conv(t0 * fac), pv=pv0)
        step = int(d) if ty == "mixed" else conv(d * fac)
        # Trajectory by the documented steps
        nmax = (max(ENDS) - min(0, 0)) // d + 2
        traj = trajectory(model, state0, step, nmax)
        for off, save in itertools.product(ENDS, SAVES):
            tend = t0 + off
            n, saved, states = schedule(Fraction(t0) * fac, Fraction(d) * fac, Fraction(tend) * fac,
                                        None if not save else Fraction(save) * fac, rec)
            seen |= states
            case = (t0, d, tend, save, ty)
            if save is None:
                last, got = model.run(state0, step, conv(tend * fac))
            else:
                last, got = model.run(state0, step, conv(tend * fac), save_every=conv(save * fac))
            check(rec, case, traj, t0 * fac, d * fac, n, saved, last, got, sc)
            if off % 5 == 2 and save in (None, 3):
                kw = {} if save is None else {"save_every": conv(save * fac)}
                last, got = state0.run(model, step, conv(tend * fac), **kw)
                check(rec, (case, "State.run"), traj, t0 * fac, d * fac, n, saved, last, got, sc)
            rec.ev(case, nontrivial=n > 0)
            rec.count("traces")
    elif unit[0] == "long":
        # Long runs
        _, t0, d, ty = unit
        fac = FACTORS.get(ty, 1)
        conv = {"int": int, "float": float, "npint": np.int64, "half": float, "tiny": float, "huge": float, "np32": np.float32, "mixed": float}[ty]
        state0 = bt.State(grid, conv(t0 * fac), pv=grid.fcor2)
        m = bt.BarotropicModel(lambda s: 1e-3 * pattern, diffusion_coeff=0.)
        step = int(d) if ty == "mixed" else conv(d * fac)
        traj = trajectory(m, state0, step, 1010)
        for length, save in itertools.product((99, 100, 128, 257, 1000, 1003), (None, 0, 1, 2, 7, 10, 100, 333)):
            save = save and save * d
            tend = t0 + length * d
            n, saved, states = schedule(Fraction(t0) * fac, Fraction(d) * fac, Fraction(tend) * fac, None if not save else Fraction(save) * fac, rec)
            seen |= states
            case = (t0, d, length, save, ty)
            kw = {} if save is None else {"save_every": conv(save * fac)}
            last, got = m.run(state0, step, conv(tend * fac), **kw)
            check(rec, case, traj, t0 * fac, d * fac, n, saved, last, got, sc)
            rec.ev(case)
            rec.count("traces")
    elif unit[0] == "date":
        step = DELTAS[unit[1]]
        state0 = bt.State(grid, util.T0, pv=pv0)
        m = bt.BarotropicModel(lambda s: pattern * (7200. / step.total_seconds()), diffusion_coeff=0.)
        traj = trajectory(m, state0, step, 9)
        for tenths in range(-15, 61):
            tend = util.T0 + step * tenths / 10
            n, saved, states = schedule(0, step.total_seconds(), (tend - util.T0).total_seconds(), None, rec)
            seen |= states
            case = ("date", str(step), tenths)
            for how in ("run", "save0", "state"):
                if how == "run":
                    last, got = m.run(state0, step, tend)
                elif how == "save0":
                    last, got = m.run(state0, step, tend, save_every=0)
                else:
                    last, got = state0.run(m, step, tend)
                check(rec, (case, how), traj, util.T0, step, n, saved, last, got, sc)
                rec.ev((case, how), nontrivial=n > 0)
                rec.count("traces")
    elif unit[0] == "list":
        d = unit[1]
        # State lists: every state on its own, also with different initial times
        inits = [bt.State(grid, t, pv=pv0 + i * zeta[:, ::-1]) for i, t in enumerate((0, 4, -3))]
        for k, tend, save in itertools.product((0, 1, 2, 3), (-5, 0, 3, 4, 9), (None, 2, 5)):
            lst = bt.StateList(inits[:k])
            kw = {} if save is None else {"save_every": save}
            lasts, steps = lst.run(model, d, tend, **kw)
            case = ("list", k, d, tend, save)
            rec.ok(isinstance(lasts, bt.StateList) and len(lasts) == k and len(steps) == k, case, "{} {}".format(lasts, steps))
            for s0, last, got in zip(inits, lasts, steps):
                n, saved, states = schedule(s0.time, d, tend, save, rec)
                seen |= states
                check(rec, case, trajectory(model, s0, d, n), s0.time, d, n, saved, last, got, sc)
                rec.count("traces")
            rec.ev(case, nontrivial=k > 0)
    rec.count("states", len(seen))


_TRAJ = {}


def trajectory(model, state0, step, n):
    """Filtered states 0..n with the public steppers."""
    out = [state0]
    old, now = state0, model.euler(state0, step)
    for _ in range(n):
        old, now = model.leapfrog(old, now)
        out.append(old)
    return out


def check(rec, case, traj, t0, d, n, saved, last, got, sc):
    import barotropic as bt
    rec.ok(isinstance(got, bt.StateList), case, "saved states are {}".format(type(got)))
    rec.ok(last.time == t0 + n * d, case, "ends at {} instead of {}".format(last.time, t0 + n * d))
    times = [s.time for s in got]
    want = [t0 + i * d for i in saved]
    if not rec.ok(times == want, case, "saved times {} instead of {}".format(times, want)):
        return
    rec.ok(isinstance(last, bt.State) and last.grid == traj[0].grid, case, "grid")
    rec.close(last.pv, traj[n].pv, (case, "last"), rtol=1e-5, scale=sc)
    for i, s in zip(saved, got):
        rec.close(s.pv, traj[i].pv, (case, "saved", i), rtol=1e-5, scale=sc)
