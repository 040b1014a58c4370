"""C20: forcing terms combine like the functions they represent."""

import datetime as dt
import itertools

import numpy as np

from mc import util

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all expression programs over forcing terms up to a size, of all orders of evaluation times, and of model steps, against direct evaluation of the expressions"
RULE = ("all binary trees of sums and products with up to 4 (thorough: 5) leaves over an alphabet of forcing terms and plain functions of the state (every operator application has at least one "
        "forcing term operand), each evaluated at states at all sequences of times; off switches on numeric and datetime axes for all sequences of evaluation times; relaxation for all "
        "combinations of rate and reference. Oracle: evaluation of the same expression with the values of the leaves. Non-trivial: at least one operator")
ASSUMPTIONS = ["numbers are no operands (only forcing terms and functions of the state are)"]

T0 = dt.datetime(2020, 2, 28, 18)
H = dt.timedelta(hours=1)
LEAVES = "FGURSD"
RHS_LEAVES = "URSD"


def trees(leaves):
    """All binary trees as nested tuples with leaf positions numbered 0..leaves-1."""
    def build(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        for mid in range(lo + 1, hi):
            for l in build(lo, mid):
                for r in build(mid, hi):
                    for op in "+*":
                        yield (op, l, r)
    return list(build(0, leaves))


def units(tier):
    out = []
    for leaves in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for i in range(len(trees(leaves))):
            if leaves < 5:
                out.append(["expr", leaves, i])
            else:
                out += [["expr", leaves, i, c] for c in LEAVES]
    out += [["switch", kind] for kind in ("int", "float", "npfloat", "negative", "datetime", "micro")]
    out += [["relax", res] for res in (60., 45., 30., 20.)] + [["relax", res, p] for res in (60., 30.) for p in ("tiny", "faint", "fierce", "still")]
    out += [["model", res, kind] for res in (45., 30.) for kind in ("float", "datetime")]
    return out


def run_unit(unit, rec):
    {"expr": expr, "switch": switch, "relax": relax, "model": model}[unit[0]](rec, *unit[1:])


def state(res, time, seed=1):
    import barotropic as bt
    g = util.cached_grid(res)
    return bt.State(g, time, pv=g.fcor2 + 1e-5 * util.wavy(res, [(2, 1, "c", 1.), (1, 0, "c", .3 * seed), (2, 2, "s", .5)]))


def leaves(res, tend):
    """{letter: (package term, reference function)}"""
    import barotropic as bt

    kept = {}

    class User(bt.rhs.RHS):
        """Returns the same array again for the same state."""

        def __call__(self, s):
            if id(s) not in kept:
                kept[id(s)] = (s, 2. + np.asarray(s.pv, dtype=float) * 1e4)
            return kept[id(s)][1]

    pattern = util.wavy(res, [(1, 1, "s", 1.), (0, 0, "c", .7)])
    ref = 1e-4 * util.wavy(res, [(1, 0, "c", 1.)])

    constant = 1.5 + pattern

    def f(s):
        return constant

    def g(s):
        return 3.

    return {
        "F": (f, lambda s: 1.5 + pattern),
        "G": (g, g),
        "U": (User(), lambda s: 2. + s.pv * 1e4),
        "R": (bt.rhs.LinearRelaxation(1.7e4, ref), lambda s: 1.7e4 * (ref - s.pv)),
        "S": (bt.rhs.TimedOffSwitch(tend), lambda s: 1. if s.time <= tend else 0.),
        "D": (bt.rhs.TimedOffSwitch(tend - (tend - tend) - (3 if not isinstance(tend, dt.datetime) else 3 * H)), lambda s: 1. if s.time <= tend - (3 if not isinstance(tend, dt.datetime) else 3 * H) else 0.),
    }


def combine(tree, parts):
    if isinstance(tree, int):
        return parts[tree]
    a, b = combine(tree[1], parts), combine(tree[2], parts)
    return a + b if tree[0] == "+" else a * b


def valid(tree, letters):
    """Is there a forcing term in every operator application? (True/False, is a forcing term)"""
    if isinstance(tree, int):
        return True, letters[tree] in RHS_LEAVES
    (a, ra), (b, rb) = valid(tree[1], letters), valid(tree[2], letters)
    return a and b and (ra or rb), True


def expr(rec, n, index, first=None):
    tree = trees(n)[index]
    res = 60.
    times = {"num": (8., [1., 5., 6., 8., 9.5]), "date": (T0, [T0 - 5 * H, T0 - 3 * H, T0 - H, T0, T0 + H])}
    setups = {}
    for name, (tend, ts) in times.items():
        lv = leaves(res, tend)
        # (the last one is another state of the same time)
        states = [state(res, t, 1 + i) for i, t in enumerate(ts + ts[1:2])]
        values = {c: [lv[c][1](s) for s in states] for c in lv}
        # magnitude of the terms, for the rounding of the (single precision) PV
        large = {c: np.max(np.abs(v)) for c, v in values.items()}
        large["R"] = 1.7e4 * 4e-4
        setups[name] = lv, states, values, large
    for letters in itertools.product(LEAVES, repeat=n):
        if first is not None and letters[0] != first or not valid(tree, letters)[0]:
            continue
        for name, (lv, states, values, large) in setups.items():
            try:
                term = combine(tree, [lv[c][0] for c in letters])
                tol = 2e-6 * combine(tree, [large[c] for c in letters])
                # late, early, late again: nothing is remembered
                for i in (4, 0, 3, 1, 5, 2, 4, 1):
                    want = combine(tree, [values[c][i] for c in letters])
                    got = term(states[i])
                    if not (np.shape(got) == np.shape(want) and np.all(np.abs(got - want) <= tol)):
                        rec.close(got, want, (tree, letters, name, i), rtol=0., atol=tol)
                    if n > 1 and isinstance(got, np.ndarray):
                        # the array belongs to the caller
                        got[...] = -1e30
            except Exception as e:
                rec.fail((tree, letters, name), "raised {!r}".format(e))
        rec.ev_many(16, (tree, "".join(letters)))
        if n > 1:
            # the parts are still the same
            for c in set(letters):
                for name, (lv, states, values, large) in setups.items():
                    rec.close(lv[c][0](states[1]), values[c][1], (tree, letters, name, "part", c), rtol=0., atol=2e-6 * large[c])


def switch(rec, kind):
    import barotropic as bt
    cases = {
        "int": (10, [0, 9, 10, 11, -10**9, 10**9, 10., 10.5, 9.5, np.nextafter(10., 11.), np.nextafter(10., 0.)]),
        "float": (86400.25, [0., 86400., 86400.25, 86400.5, 1e30, -1e30, float("inf"), np.nextafter(86400.25, 0.), np.nextafter(86400.25, 1e6)]),
        "npfloat": (np.float64(-5.5), [np.float64(-6.), np.float64(-5.5), np.float64(-5.), -6, 0, np.float32(-5.5), np.int64(3)]),
        "negative": (-100, [-101, -100, -99, 0, 100, -100.]),
        "datetime": (T0, [T0 + k * H for k in (-1000, -1, 0, 1, 1000)] + [T0 + dt.timedelta(microseconds=k) for k in (-1, 1)]),
        "micro": (T0 + dt.timedelta(microseconds=1), [T0, T0 + dt.timedelta(microseconds=1), T0 + dt.timedelta(microseconds=2), T0 - H, T0 + H]),
    }
    tend, times = cases[kind]
    g = util.cached_grid(60.)
    states = [bt.State(g, t, pv=g.fcor2) for t in times]
    want = [1 if t <= tend else 0 for t in times]
    for order in itertools.product(range(len(times)), repeat=3):
        sw = bt.rhs.TimedOffSwitch(tend)
        for i in order:
            got = sw(states[i])
            rec.ok(np.shape(got) == () and got == want[i], (kind, [times[j] for j in order], times[i]), lambda: "{!r} instead of {}".format(got, want[i]))
        rec.ev(order)
    with rec.guard(kind):
        rec.ok(bt.rhs.TimedOffSwitch(tend=tend)(states[0]) == want[0], (kind, "keyword"), "")


def relax(rec, res, planet="earth"):
    import barotropic as bt
    g = util.grid(res, planet)
    unit = util.rate(g.omega) / 1e-4
    shape = util.dims(res)
    fields = {"zero": np.zeros(shape), "coriolis": g.fcor2, "waves": unit * 1e-4 * util.wavy(res, [(2, 1, "c", 1.), (1, 0, "c", .4)]),
              "generic": unit * 1e-4 * util.generic(shape, 4), "constant": np.full(shape, unit * 3e-5)}
    rates = {"day": 1. / 86400., "int": 2, "zero": 0., "negative": -1e-6, "field": 1e-5 * (2. + util.generic(shape, 9)), "column": 1e-5 * (2. + util.generic((shape[0], 1), 9))}
    for (rn, rate), (fn, ref) in itertools.product(rates.items(), fields.items()):
        term = bt.rhs.LinearRelaxation(rate, ref)
        kw = bt.rhs.LinearRelaxation(rate=rate, reference_pv=ref, mask=None)
        for pn, pv in fields.items():
            for t in (0., -7., T0):
                s = bt.State(g, t, pv=pv)
                want = rate * (ref - s.pv)
                tol = 1e-6 * np.max(np.abs(rate)) * (np.max(np.abs(ref)) + np.max(np.abs(s.pv)))
                case = (rn, fn, pn, t)
                with rec.guard(case):
                    rec.close(term(s), want, case, rtol=0., atol=tol)
                    rec.close(kw(s), want, (case, "keywords"), rtol=0., atol=tol)
                rec.ev(case, rn != "zero" and fn != pn)
        s = bt.State(g, 0., pv_spectral=g.to_spectral(fields["waves"]))
        with rec.guard((rn, fn, "spectral")):
            rec.close(term(s), rate * (ref - s.pv), (rn, fn, "spectral"), rtol=0., atol=2e-6 * unit * 1e-4 * np.max(np.abs(rate)))
        rec.ev((rn, fn, "spectral"))


def model(rec, res, kind):
    """The tendency of the model contains the value of the expression."""
    import barotropic as bt
    g = util.cached_grid(res)
    tend = 7200. if kind == "float" else T0
    h = 1. if kind == "float" else dt.timedelta(seconds=1)
    step = 600.
    lv = leaves(res, tend)
    # scaled so that forcing and flow have similar tendencies
    scale = lambda s: 1e-10 * (1.5 + np.cos(s.grid.phi2))
    for n in (1, 2, 3):
        for tree in trees(n):
            for letters in itertools.product("FURS", repeat=n):
                if not valid(tree, letters)[0]:
                    continue
                inner = combine(tree, [lv[c][0] for c in letters])
                if not isinstance(inner, bt.rhs.RHS):
                    inner_rhs = lv["S"][0] * inner
                    ref = lambda s: lv["S"][1](s) * combine(tree, [lv[c][1](s) for c in letters])
                else:
                    inner_rhs = inner
                    ref = lambda s: combine(tree, [lv[c][1](s) for c in letters])
                term = inner_rhs * scale
                for off in (-1200., 0., 600.):
                    s = state(res, tend + off * h, 2)
                    case = (tree, letters, off)
                    with rec.guard(case):
                        free = bt.BarotropicModel(diffusion_coeff=0.).euler(s, step * h)
                        forced = bt.BarotropicModel(term, diffusion_coeff=0.).euler(s, step * h)
                        want = step * g.to_spectral(ref(s) * scale(s))
                        got = np.asarray(forced.pv_spectral, dtype=complex) - np.asarray(free.pv_spectral, dtype=complex)
                        sc = max(np.max(np.abs(want)), 1e-30)
                        rec.close(got, want, case, rtol=0., atol=1e-4 * sc + 1e-6 * np.max(np.abs(free.pv_spectral)))
                        rec.count("visible", sc > 1e-4 * np.max(np.abs(free.pv_spectral)))
                    rec.ev(case)
    # whole integrations
    for letters in ("R", "S*R", "F*S+R", "R+S*F", "(R+F)*S"):
        parts = dict((c, lv[c]) for c in "RSF")
        env = {c: p[0] for c, p in parts.items()}
        term = eval(letters, {}, env) * scale

        def plain(s):
            return eval(letters, {}, {c: p[1](s) for c, p in parts.items()}) * scale(s)
        s = state(res, tend - 1500. * h, 2)
        with rec.guard(letters):
            a, la = bt.BarotropicModel(term).run(s, step * h, tend + 3000. * h, **({"save_every": 600.} if kind == "float" else {}))
            b, lb = bt.BarotropicModel(plain).run(s, step * h, tend + 3000. * h, **({"save_every": 600.} if kind == "float" else {}))
            c, _ = bt.BarotropicModel().run(s, step * h, tend + 3000. * h)
            rec.close(a.pv, b.pv, letters, rtol=1e-6)
            rec.ok(len(la) == len(lb) and all(np.allclose(x.pv, y.pv, rtol=0., atol=1e-6 * np.max(np.abs(y.pv))) for x, y in zip(la, lb)), (letters, "saved"), "")
            rec.ok(np.max(np.abs(a.pv - c.pv)) > 1e-4 * np.max(np.abs(c.pv)), (letters, "harness: weak"), lambda: str(np.max(np.abs(a.pv - c.pv)) / np.max(np.abs(c.pv))))
        rec.ev(letters)
