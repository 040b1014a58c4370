"""C25: state lists."""

import collections.abc
import copy
import datetime as dt
import itertools
import pickle

import numpy as np

from mc import util

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of a tuple model with every transition executed on real StateLists and all observations compared; exhaustive enumeration of broadcasts"
RULE = ("model states are tuples over an alphabet of states up to a length bound, transitions are constructions, concatenations, slicings, copies and pickles; every transition of every "
        "model state is executed on the implementation and all observations (indices, slices, iteration, containment, fields) are compared. Broadcasts: all State attributes, methods and kinds of "
        "results for all tuples of results up to length 3")
ASSUMPTIONS = ["slices are tuples of states (as documented by tests)", "the container type for empty results is not specified", "comparison of lists is by identity"]


def units(tier):
    n = 3 if tier == "quick" else 4
    out = [["ops", n, first] for first in range(-1, 3)]
    out += [["attributes", res] for res in (60., 30.)] + [["methods", res] for res in (60., 30.)]
    out += [["results", k] for k in range(1, 4)] + [["refuse"], ["grids"], ["long"]]
    return out


def run_unit(unit, rec):
    {"ops": ops, "attributes": attributes, "methods": methods, "results": results, "refuse": refuse, "grids": grids, "long": long}[unit[0]](rec, *unit[1:])


def make(res, n=3, t0=0.):
    import barotropic as bt
    g = util.cached_grid(res)
    return [bt.State(g, t0 + float(i), pv=g.fcor2 + 1e-5 * util.wavy(res, [(1, 0, "c", .3 * i), (2, 1, "c", 1. - i), (2, 2, "s", .2)])) for i in range(n)]


def observe(rec, sl, model, alphabet, case, identical=True):
    """Compare all observations of a list with those of the tuple of its states."""
    import barotropic as bt
    rec.count("traces")
    with rec.guard(case):
        if not rec.ok(type(sl) is bt.StateList and isinstance(sl, collections.abc.Sequence), (case, "type"), lambda: repr(type(sl))):
            return
        n = len(model)
        same = (lambda x, k: x is alphabet[k]) if identical else (lambda x, k: type(x) is bt.State and x.time == alphabet[k].time and np.array_equal(x.pv, alphabet[k].pv))
        seq = lambda xs, ks: len(xs) == len(ks) and all(same(x, k) for x, k in zip(xs, ks))
        rec.ok(len(sl) == n and bool(sl) == (n > 0), (case, "len"), lambda: str(len(sl)))
        rec.ok(seq(list(sl), model) and seq(tuple(iter(sl)), model) and seq([*sl], model), (case, "iteration"), lambda: repr(list(sl)))
        rec.ok(seq(list(reversed(sl)), model[::-1]), (case, "reversed"), "")
        a, b = iter(sl), iter(sl)
        rec.ok(seq([x for p in zip(a, b) for x in p], [k for k in model for _ in range(2)]), (case, "iterators"), "not independent")
        for i in range(-n, n):
            rec.ok(same(sl[i], model[i]), (case, "index", i), lambda: repr(sl[i]))
            rec.ok(same(sl[np.int64(i)], model[i]), (case, "index", i), "NumPy integer")
        for i in (n, -n - 1, n + 5):
            rec.raises(IndexError, lambda: sl[i], (case, "index", i))
        for i in (0., 1.5, "0", "time", None, (0,), np.float64(0.), []):
            rec.raises(Exception, lambda: sl[i], (case, "no index", repr(i)))
        for lo, hi, step in itertools.product((None, 0, 1, -1, n), (None, 0, 1, -1, n + 2), (None, 2, -1)):
            part = sl[lo:hi:step]
            rec.ok(seq(list(part), model[lo:hi:step]), (case, "slice", lo, hi, step), lambda: repr(part))
        for k, s in enumerate(alphabet):
            if identical:
                rec.ok((s in sl) == (k in model) and sl.count(s) == model.count(k), (case, "contains", k), "")
                if k in model:
                    rec.ok(sl.index(s) == model.index(k), (case, "position", k), lambda: str(sl.index(s)))
                else:
                    rec.raises(ValueError, lambda: sl.index(s), (case, "position", k))
        rec.ok(None not in sl and 3 not in sl, (case, "contains other"), "")
        rec.ok(repr(sl) == "<StateList with {} states>".format(n), (case, "repr"), lambda: repr(sl))
        if n:
            rec.ok(sl.grid == alphabet[0].grid and (not identical or sl.grid is sl[0].grid), (case, "grid"), lambda: repr(sl.grid))
            t = sl.time
            rec.ok(isinstance(t, np.ndarray) and t.tolist() == [alphabet[k].time for k in model], (case, "time"), lambda: repr(t))
        else:
            rec.ok(sl.grid is None and len(sl.time) == 0, (case, "empty"), "")
        rec.ok(len(sl.pv) == n and all(np.array_equal(p, alphabet[k].pv) for p, k in zip(sl.pv, model)), (case, "pv"), "")


def transitions(bt, alphabet, bound):
    """[(name, implementation, model)], functions of implementation/model state."""
    out = []
    A = alphabet
    forms = {"list": list, "tuple": tuple, "statelist": bt.StateList, "iterator": iter, "generator": lambda s: (x for x in s)}
    for k in range(3):
        for other in itertools.product(range(3), repeat=k):
            for name, form in forms.items():
                if k != 1 and name not in ("list", "statelist"):
                    continue
                out.append((("add", name, other), lambda s, form=form, other=other: s + form([A[i] for i in other]), lambda m, other=other: m + other))
    out.append((("double",), lambda s: s + s, lambda m: m + m))
    for name, form in forms.items():
        out.append((("rebuild", name), lambda s, form=form: bt.StateList(form(s)), lambda m: m))
    out.append((("self",), bt.StateList, lambda m: m))
    for lo, hi, step in ((None, -1, None), (1, None, None), (None, None, -1), (None, None, 2), (1, 2, None)):
        out.append((("slice", lo, hi, step), lambda s, lo=lo, hi=hi, step=step: bt.StateList(s[lo:hi:step]), lambda m, lo=lo, hi=hi, step=step: m[lo:hi:step]))
    out.append((("copy",), copy.copy, lambda m: m))
    out.append((("slice add",), lambda s: bt.StateList(s[:1]) + s[1:], lambda m: m))
    out.append((("map",), lambda s: bt.StateList(s.map(lambda x: x)), lambda m: m))
    return out


def ops(rec, bound, first):
    import barotropic as bt
    alphabet = make(60.)
    start = () if first < 0 else (first,)
    queue = [(start, bt.StateList([alphabet[i] for i in start]), ())]
    seen = {start: queue[0]}
    trans = transitions(bt, alphabet, bound)
    ntrans = 0
    while queue:
        model, impl, path = queue.pop(0)
        before = tuple(impl)
        for name, f, m in trans:
            want = m(model)
            if len(want) > 2 * bound:
                continue
            with rec.guard((path, name)):
                got = f(impl)
                observe(rec, got, want, alphabet, (model, name)) if want not in seen or name[0] not in ("add",) else rec.ok(tuple(got) == tuple(alphabet[i] for i in want) and type(got) is bt.StateList, (model, name), lambda: repr(list(got)))
                rec.ok(len(impl) == len(before) and all(x is y for x, y in zip(impl, before)), (model, name, "operand changed"), "")
                ntrans += 1
                rec.ev((model, name))
                if want not in seen and len(want) <= bound:
                    seen[want] = (want, got, path + (name,))
                    queue.append(seen[want])
        # copies that are not identical
        for name, f in {"deepcopy": copy.deepcopy, **{"pickle {}".format(p): (lambda s, p=p: pickle.loads(pickle.dumps(s, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)}}.items():
            with rec.guard((path, name)):
                got = f(impl)
                observe(rec, got, model, alphabet, (model, name), identical=False)
                # identities within the list are kept
                for i, j in itertools.combinations(range(len(model)), 2):
                    rec.ok((got[i] is got[j]) == (model[i] == model[j]), (model, name, "identities"), "")
                # the copy works as an operand of further operations on its own grid
                rec.ok(len(got + got) == 2 * len(model), (model, name, "copy + copy"), "")
                rec.ok(len(got + impl) == 2 * len(model), (model, name, "copy + original"), "")
                ntrans += 1
                rec.ev((model, name))
        # immutable
        if model:
            def assign():
                impl[0] = alphabet[0]

            def delete():
                del impl[0]
            rec.raises(TypeError, assign, (model, "assignment"))
            rec.raises(TypeError, delete, (model, "deletion"))
    # building does not keep a reference to the list it is built from
    src = list(alphabet)
    sl = bt.StateList(src)
    src.pop()
    src[0] = None
    observe(rec, sl, (0, 1, 2), alphabet, "source changed")
    for n in range(1, 70):
        want = tuple(i * i % 3 for i in range(n))
        for name, kind in (("list", list), ("deque", collections.deque)):
            with rec.guard((n, name)):
                src = kind(alphabet[i] for i in want)
                sl = bt.StateList(src)
                more = sl + src
                src.pop()
                src.extend([None, None])
                rec.ok(len(sl) == n and all(x is alphabet[i] for x, i in zip(sl, want)), (n, name, "source changed"), lambda: "{} states".format(len(sl)))
                rec.ok(len(more) == 2 * n and all(x is alphabet[i] for x, i in zip(more, want + want)), (n, name, "operand changed"), lambda: "{} states".format(len(more)))
                rec.ok(type(more) is bt.StateList and all(sl[i] is alphabet[want[i]] and sl[i - n] is alphabet[want[i]] for i in range(n)), (n, name, "items"), "")
    rec.count("states", len(seen))
    rec.count("transitions", ntrans)


ARRAYS = ["pv", "avo", "u", "v", "vorticity", "streamfunction", "pv_spectral", "pv_flux_spectral", "enstrophy", "eddy_enstrophy", "kinetic_energy", "falwa", "fawa", "pv_zonalized", "stationary_wavenumber", "v_envelope_hilbert"]


def attributes(rec, res):
    """Everything a state has, for all lists of up to three states."""
    import barotropic as bt
    names = [k for k in dir(bt.State) if isinstance(getattr(bt.State, k), property) and k not in ("plot", "grid")]
    alphabet = make(res)
    for s, x in zip(alphabet, (3, 1.5, True)):
        s.number = x
        s.word = str(x)
        s.array = np.arange(4) * x
        s.mixed = x if x == 3 else str(x)
        s.nothing = None
        s._private = x
    for name in names + ["time", "number", "array", "_private"]:
        try:
            single = [getattr(s, name) for s in alphabet]
        except Exception:
            # diagnostics that are not defined on tiny grids
            rec.count("undefined")
            continue
        for n in (1, 2, 3):
            for idx in itertools.product(range(3), repeat=n):
                with rec.guard((name, idx)):
                    sl = bt.StateList([alphabet[i] for i in idx])
                    got = getattr(sl, name)
                    want = [np.array(single[i]) for i in idx]
                    rec.ok(isinstance(got, np.ndarray) and got.shape == (n,) + np.shape(want[0]), (name, idx, "array"), lambda: repr(got)[:200])
                    rec.ok(all(np.array_equal(g, w, equal_nan=np.asarray(w).dtype.kind in "fc") for g, w in zip(got, want)), (name, idx, "values"), lambda: repr(got)[:200])
                    # the array belongs to the caller
                    got[...] = 7
                    got = getattr(sl, name)
                    rec.ok(all(np.array_equal(g, w, equal_nan=np.asarray(w).dtype.kind in "fc") for g, w in zip(got, want)), (name, idx, "overwritten"), lambda: repr(got)[:200])
                    rec.ok(all(np.array_equal(getattr(alphabet[i], name), w, equal_nan=np.asarray(w).dtype.kind in "fc") for i, w in zip(idx, want)), (name, idx, "states"), "")
                rec.ev((name, idx))
    for name in ("word", "mixed", "nothing"):
        for idx in itertools.product(range(3), repeat=2):
            if name == "mixed" and idx == (0, 0):
                continue
            with rec.guard((name, idx)):
                got = getattr(bt.StateList([alphabet[i] for i in idx]), name)
                rec.ok(type(got) is list and got == [getattr(alphabet[i], name) for i in idx], (name, idx), lambda: repr(got))
            rec.ev((name, idx))
    sl = bt.StateList(alphabet)
    for name in ("nothing_like_this", "U", "_x", "__array__", "__len2__", "__deepcopy__", "__getstate2__"):
        rec.raises(AttributeError, lambda: getattr(sl, name), name)
        rec.ok(not hasattr(sl, name), name, "hasattr")
        rec.ev(name)
    del alphabet[1].number
    for order in itertools.permutations(alphabet):
        rec.raises(AttributeError, lambda: bt.StateList(order).number, "partly missing")
    rec.ok(len(bt.StateList([]).pv) == 0 and len(bt.StateList([]).anything) == 0, "empty", "")


def methods(rec, res):
    import barotropic as bt
    alphabet = make(res)
    g = alphabet[0].grid
    du, dv = 2. * np.cos(g.phi2), np.zeros(g.shape)
    other = bt.State.from_wind(g, 9., du, dv)
    model = bt.BarotropicModel()
    for n in (0, 1, 2, 3):
        for idx in itertools.product(range(3), repeat=n):
            states = [alphabet[i] for i in idx]
            sl = bt.StateList(states)
            case = idx
            with rec.guard(case):
                for name, f in {"positional": lambda s: s.add_wind((du, dv)), "keyword": lambda s: s.add_wind(other=(du, dv)), "state": lambda s: s.add_wind(other), "vorticity": lambda s: s.add_vorticity(g.fcor2), "state vorticity": lambda s: s.add_vorticity(other=other)}.items():
                    got, want = f(sl), [f(s) for s in states]
                    rec.ok(len(got) == n and (n == 0 or type(got) is bt.StateList), (case, name), lambda: repr(got))
                    for a, b in zip(got, want):
                        rec.ok(a.time == b.time and a.grid == b.grid and np.array_equal(a.pv, b.pv), (case, name, "state"), "")
                if n and res < 60.:
                    got = sl.extract_ks_waveguides(3)
                    rec.ok(type(got) is list and got == [s.extract_ks_waveguides(3) for s in states], (case, "waveguides"), lambda: repr(got))
                    got = sl.extract_ks_waveguides(k=4)
                    rec.ok(type(got) is list and got == [s.extract_ks_waveguides(k=4) for s in states], (case, "waveguides"), lambda: repr(got))
                # map
                for name, f, a, kw in (("mean", lambda s: s.pv.mean(), (), {}), ("args", lambda s, x, y=0.: s.time * x + y, (3.,), {}), ("kwargs", lambda s, x, y=0.: s.time * x + y, (2.,), {"y": 1.5}),
                                       ("array", lambda s, k: s.u[:, :k], (3,), {}), ("unbound", bt.State.add_vorticity, (g.fcor2,), {}), ("func kw", lambda s, func=1: s.time + func, (), {})):
                    got, want = sl.map(f, *a, **kw), [f(s, *a, **kw) for s in states]
                    rec.ok(len(got) == n, (case, "map", name), lambda: repr(got))
                    if n and name == "unbound":
                        rec.ok(type(got) is bt.StateList and all(np.array_equal(x.pv, y.pv) for x, y in zip(got, want)), (case, "map", name), lambda: repr(got))
                    elif n:
                        rec.ok(isinstance(got, np.ndarray) and np.array_equal(got, np.array(want)), (case, "map", name), lambda: repr(got))
                # every set of keyword arguments in every order
                for m in range(4):
                    for names in itertools.permutations("abc", m):
                        kw = {c: 2. + ord(c) - ord("a") for c in names}
                        f = lambda s, a=0., b=0., c=0.: s.time + 10. * a + 100. * b + 1000. * c
                        got, want = sl.map(f, **kw), [f(s, **kw) for s in states]
                        rec.ok(len(got) == n and all(abs(x - y) == 0. for x, y in zip(got, want)), (case, "map keywords", names), lambda: repr(got))
                        got = sl.map(lambda s, *a, **k: (a, tuple(k.items())), *range(m), **kw)
                        rec.ok(len(got) == n and all(x == (tuple(range(m)), tuple(kw.items())) for x in got), (case, "map arguments", names), lambda: repr(got))
                # order of evaluation
                calls = []
                sl.map(calls.append)
                rec.ok(len(calls) == n and all(x is y for x, y in zip(calls, states)), (case, "map order"), lambda: repr(calls))
                # run
                for a, kw in (((600., 1800.), {}), ((600.,), {"tend": 2400., "save_every": 600.}), ((), {"dt": 600., "tend": 900., "save_every": 1200.})):
                    last, steps = sl.run(model, *a, **kw)
                    ref = [model.run(s, *a, **kw) for s in states]
                    rec.ok(type(last) is bt.StateList and type(steps) is list and len(last) == len(steps) == n, (case, "run"), lambda: repr((last, steps)))
                    for x, y, (w, ws) in zip(last, steps, ref):
                        rec.ok(x.time == w.time and np.array_equal(x.pv, w.pv), (case, "run, last"), "")
                        rec.ok(type(y) is bt.StateList and len(y) == len(ws) and all(p.time == q.time and np.array_equal(p.pv, q.pv) for p, q in zip(y, ws)), (case, "run, saved"), "")
            rec.ev(case)


def results(rec, n):
    """All tuples of n results of different kinds."""
    import barotropic as bt
    alphabet = make(60.)
    pool = {
        "int": 3, "float": -1.5, "complex": 2j, "bool": True, "np": np.float32(2.5), "npint": np.int64(7), "array": np.arange(3.), "array2": np.arange(3) - 5, "0d": np.array(4.), "matrix": np.eye(3), "state": alphabet[1], "state2": alphabet[2],
        "none": None, "text": "ab", "list": [1, 2], "tuple": (1., 2.), "dict": {1: 2}, "date": util.T0, "statelist": bt.StateList(alphabet[:2]), "cplx": np.array([1j, 2., 3.]),
    }
    number = {"int", "float", "complex", "bool", "np", "npint"}
    array = {"array", "array2", "0d", "matrix", "cplx"}
    state = {"state", "state2"}
    for combo in itertools.product(pool, repeat=n):
        states = [alphabet[i % 3] for i in range(n)]
        vals = iter(combo)
        if n and set(combo) <= array and len({pool[k].shape for k in combo}) > 1:
            # arrays that do not fit together
            continue
        with rec.guard(combo):
            got = bt.StateList(states).map(lambda s: pool[next(vals)])
            rec.ok(len(got) == n, (combo, "length"), lambda: repr(got))
            if n == 0:
                continue
            if set(combo) <= number:
                good = isinstance(got, np.ndarray) and got.shape == (n,) and all(a == pool[k] for a, k in zip(got, combo))
            elif set(combo) <= array:
                good = isinstance(got, np.ndarray) and all(np.array_equal(a, pool[k]) for a, k in zip(got, combo)) and got.shape == (n,) + pool[combo[0]].shape
            elif set(combo) <= state:
                good = type(got) is bt.StateList and all(a is pool[k] for a, k in zip(got, combo))
            else:
                good = type(got) is list and all(a is pool[k] for a, k in zip(got, combo))
            rec.ok(good, combo, lambda: repr(got))
        rec.ev(combo)


def refuse(rec):
    import barotropic as bt
    ss = make(60.)
    bad = {"number": 1, "none": None, "text": "state", "array": ss[0].pv, "list": [ss[0]], "statelist": bt.StateList(ss), "class": bt.State, "grid": ss[0].grid, "like": type("Like", (), {"grid": ss[0].grid, "time": 0.})()}
    for (name, x), n, form in itertools.product(bad.items(), (1, 2, 3, 4), (list, tuple, iter)):
        for pos in range(n):
            seq = (ss + ss)[:n - 1]
            seq.insert(pos, x)
            rec.raises(TypeError, lambda: bt.StateList(form(seq)), (name, n, pos))
            rec.raises(TypeError, lambda: bt.StateList(ss[:1]) + form(seq), (name, n, pos, "add"))
            rec.raises(TypeError, lambda: bt.StateList([]) + form(seq), (name, n, pos, "add to empty"))
            rec.ev((name, n, pos, form.__name__))
    for x in (None, 3, ss[0]):
        rec.raises(TypeError, lambda: bt.StateList(x), "not iterable")
        rec.raises(TypeError, lambda: bt.StateList(ss) + x, "add not iterable")
        rec.ev(repr(x)[:30])


def grids(rec):
    import barotropic as bt
    mk = {"base": lambda: util.grid(60.), "res": lambda: util.grid(45.), "planet": lambda: util.grid(60., "slow"), "trunc": lambda: util.grid(60., ntrunc=1), "retro": lambda: util.grid(60., "retro"), "tiny": lambda: util.grid(60., "tiny")}
    gs = {k: f() for k, f in mk.items()}
    again = {k: f() for k, f in mk.items()}
    st = lambda g, t: bt.State(g, t, pv=g.fcor2)
    for n in (2, 3):
        for combo in itertools.product(mk, repeat=n):
            states = [st((gs if i % 2 else again)[k], float(i)) for i, k in enumerate(combo)]
            if len(set(combo)) == 1:
                with rec.guard(combo):
                    rec.ok(len(bt.StateList(states)) == n and len(bt.StateList(states[:1]) + states[1:]) == n, combo, "")
            else:
                rec.raises((AssertionError, ValueError), lambda: bt.StateList(states), combo)
                rec.raises((AssertionError, ValueError), lambda: bt.StateList(iter(states)), combo)
                if len(set(combo[:-1])) == 1:
                    rec.raises((AssertionError, ValueError), lambda: bt.StateList(states[:-1]) + states[-1:], (combo, "add"))
                    rec.raises((AssertionError, ValueError), lambda: bt.StateList(states[:-1]) + bt.StateList(states[-1:]), (combo, "add"))
            rec.ev(combo)


def long(rec):
    import barotropic as bt
    base = make(60., 3)
    for n in (10, 100, 1000):
        states = [base[(7 * i + i // 5) % 3] for i in range(n)]
        with rec.guard(n):
            sl = bt.StateList(states)
            rec.ok(len(sl) == n and all(a is b for a, b in zip(sl, states)), n, "")
            rec.ok(np.array_equal(sl.time, [s.time for s in states]), (n, "time"), "")
            rec.ok(np.array_equal(sl.u, np.array([s.u for s in states])), (n, "u"), "")
            rec.ok(len(sl + sl) == 2 * n and all(a is b for a, b in zip(sl + sl, states + states)), (n, "add"), "")
        rec.ev(n)
