"""C27: text representations."""

import datetime as dt
import fractions
import itertools
import re

import numpy as np

from mc import util
from mc.props import c12

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of times around all unit changes, regions, grids, models and expression trees; the texts are parsed and compared in exact arithmetic with the objects"
RULE = ("times: all tenths of the displayed unit (and the values next to them) in ranges around every unit change, all kinds of numbers, all datetimes of a product of components; regions: all pairs of bounds "
        "on small grids; models: all diffusion orders x coefficients; forcings: all expression trees up to a depth. Texts are parsed, and evaluated at several points in the case of forcings. "
        "Non-trivial: the time is not given in seconds, the region is neither empty nor everything, the tree has an operator")
ASSUMPTIONS = ["a point on the boundary of two cells of the map may be marked in either"]

F = fractions.Fraction
SUP = "⁰¹²³⁴⁵⁶⁷⁸⁹"
UNITS = {"s": 1, "min": 60, "h": 3600, "d": 86400}


def units(tier):
    quick = tier == "quick"
    out = [["times", i, 8] for i in range(8)] + [["kinds"], ["datetimes"], ["statelists"], ["grids"]]
    out += [["regions", n, i, 4] for n in ((2, 3, 4, 6, 9) if quick else (2, 3, 4, 5, 6, 8, 9, 12)) for i in range(4)]
    out += [["empty", n] for n in (2, 3, 4, 9, 18)]
    out += [["models"], ["builtin"]] + [["trees", 3 if quick else 4, k, 8 if quick else 48] for k in range(8 if quick else 48)]
    return out


def run_unit(unit, rec):
    {"times": times, "kinds": kinds, "datetimes": datetimes, "statelists": statelists, "grids": grids, "regions": regions, "empty": empty, "models": models, "builtin": builtin,
     "trees": trees}[unit[0]](rec, *unit[1:])


def check_time(rec, text, t, case):
    """The text states time t (a Fraction)."""
    m = re.match(r"^t = ([-−]?\d+(\.\d+)?) (s|min|h|d)$", text)
    if not rec.ok(m is not None, (case, "format"), lambda: text):
        return
    value, unit = F(m.group(1).replace("−", "-")), m.group(3)
    rec.ok(m.group(2) is not None and len(m.group(2)) == 2, (case, "one decimal"), lambda: text)
    size = UNITS[unit]
    rec.ok(abs(value - t / size) <= F(5000001, 100000000) + abs(t / size) * F(1, 10**14), (case, "value"), lambda: "{} for {} s".format(text, float(t)))
    want = {"s"} if t <= 120 else {"min"} if t <= 7200 else {"h"} if t <= 864000 else {"d"}
    if t >= 0 and min(abs(t - b) / b for b in (120, 7200, 864000)) > F(1, 10**12) or t in (120, 7200, 864000):
        rec.ok(unit in want, (case, "unit"), lambda: "{} for {} s".format(text, float(t)))


def state_at(t):
    import barotropic as bt
    g = util.cached_grid(60.)
    return bt.State(g, t, pv=g.fcor2)


def texts(rec, s, t, case):
    """All places where a time is displayed."""
    from barotropic import formatting
    for x in (formatting.format_time(t), ):
        yield x
    for r in (repr(s), str(s)):
        m = re.match(r"^<barotropic\.State (.*)>$", r)
        if rec.ok(m is not None, (case, "repr"), lambda: r):
            yield m.group(1)


def times(rec, shard, nshards):
    values = set()
    for lo, hi, step in ((0, 300, F(1, 10)), (0, 300, F(1, 4)), (6900, 7500, 1), (0, 30000, 6), (7200, 260000, 360), (860000, 870000, 4), (0, 5000000, 8640), (0, 10**8, 864000), (-1000, 0, F(17, 2)), (-10**6, 0, 3600)):
        x = F(lo)
        while x <= hi:
            values.add(x)
            x += step
    for b in (120, 7200, 864000):
        values |= {F(np.nextafter(float(b), 0.)), F(np.nextafter(float(b), 1e9)), b - F(1, 8), b + F(1, 8), F(b)}
    for x in sorted(values)[shard::nshards]:
        t = float(x)
        s = state_at(t)
        case = repr(t)
        with rec.guard(case):
            for text in texts(rec, s, t, case):
                check_time(rec, text, F(t), case)
        rec.ev(case, t > 120.)


def kinds(rec):
    for x in (0, 1, 59, 100, 121, 3600, 7199, 7201, 86400, 863999, 864001, 10**7, -5):
        for conv in (int, float, np.int32, np.int64, np.float32, np.float64, F):
            t = conv(x)
            s = state_at(t)
            with rec.guard((x, conv.__name__)):
                for text in texts(rec, s, t, (x, conv.__name__)):
                    m = check_time(rec, text, F(x), (x, conv.__name__))
            rec.ev((x, conv.__name__), x > 120)
    for x in (np.int16(30000), np.uint8(200), np.int8(100), np.float16(2048.)):
        s = state_at(x)
        with rec.guard(repr(x)):
            for text in texts(rec, s, x, repr(x)):
                check_time(rec, text, F(float(x)), repr(x))
        rec.ev(repr(x))
    for x in (float("nan"), float("inf"), -float("inf")):
        with rec.guard(repr(x)):
            rec.ok(str(x) in repr(state_at(x)), repr(x), lambda: repr(state_at(x)))
        rec.ev(repr(x))


def datetimes(rec):
    tzs = (None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=-5, minutes=-30)))
    for y, mo, d, h, mi, sec, us, tz in itertools.product((1, 1900, 2024, 9999), (1, 2, 12), (1, 28), (0, 23), (0, 59), (0, 7), (0, 1, 250000), tzs):
        t = dt.datetime(y, mo, d, h, mi, sec, us, tzinfo=tz)
        s = state_at(t)
        case = str(t)
        with rec.guard(case):
            for text in texts(rec, s, t, case):
                back = None
                try:
                    back = dt.datetime.fromisoformat(text)
                except ValueError:
                    pass
                rec.ok(back == t and (back is None or back.utcoffset() == t.utcoffset()), case, lambda: text)
        rec.ev(case)
    s = state_at(dt.date(2024, 2, 29))
    with rec.guard("date"):
        rec.ok("2024-02-29" in repr(s), "date", lambda: repr(s))
    rec.ev("date")


def statelists(rec):
    import barotropic as bt
    s = state_at(0.)
    for n in list(range(0, 40)) + [100, 1000]:
        with rec.guard(n):
            sl = bt.StateList([s] * n)
            for r in (repr(sl), str(sl), "{}".format(sl)):
                rec.ok("StateList" in r and [int(x) for x in re.findall(r"\d+", r)] == [n], n, lambda: r)
        rec.ev(n)


def value(text, label):
    m = re.search(r"^\s*{}\s*=\s*(.*?)\s*$".format(label), text, re.M)
    return m.group(1) if m else None


def check_grid(rec, text, g, n, planet, ntrunc, legfunc, case):
    r, o = planet
    shape = value(text, r"\(nlat, nlon\)")
    rec.ok(shape is not None and [int(x) for x in re.findall(r"\d+", shape)] == [n + 1, 2 * n], (case, "shape"), lambda: text)
    for label, want, unit in (("resolution", 180. / n, "°"), ("rsphere", r, "m"), ("omega", o, "s⁻¹")):
        v = value(text, label)
        ok = v is not None and v.endswith(unit)
        try:
            ok = ok and abs(float(v[:-len(unit)]) - want) <= 1e-6 * abs(want)
        except ValueError:
            ok = False
        rec.ok(ok, (case, label), lambda: text)
    rec.ok(value(text, "ntrunc") == str(n if ntrunc is None else ntrunc), (case, "ntrunc"), lambda: text)
    rec.ok(value(text, "legfunc") == legfunc, (case, "legfunc"), lambda: text)


def grids(rec):
    for n, (pname, planet), legfunc in itertools.product((2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 18, 20, 36, 50, 72), util.PLANETS.items(), ("stored", "computed")):
        for ntrunc in {None, 1, n // 2, n - 1, n} - {0}:
            case = (n, pname, ntrunc, legfunc)
            with rec.guard(case):
                import barotropic as bt
                g = bt.Grid(180. / n, rsphere=planet[0], omega=planet[1], ntrunc=ntrunc, legfunc=legfunc)
                for text in (repr(g), str(g)):
                    rec.ok("Grid" in text, case, lambda: text)
                    check_grid(rec, text, g, n, planet, ntrunc, legfunc, case)
            rec.ev(case)


def check_region(rec, region, js, is_, n, case):
    """js, is_: rows and columns in the order of the selection."""
    text = repr(region)
    if not rec.ok(text == str(region), (case, "str"), lambda: str(region)):
        return
    lats, lons = [90 - F(180 * int(j), n) for j in js], [F(180 * int(i), n) for i in is_]
    for label, name, size, ends in (("°N", "nlat", len(lats), (lats[-1], lats[0]) if lats else None), ("°E", "nlon", len(lons), (lons[0], lons[-1]) if lons else None)):
        m = re.search(r"^(?:Region)?\s+(\S+) to\s+(\S+) {} \({} = (\d+)\)$".format(label, name), text, re.M)
        if not rec.ok(m is not None, (case, name), lambda: text):
            continue
        rec.ok(int(m.group(3)) == size, (case, name), lambda: "{} instead of {}\n{}".format(m.group(3), size, text))
        if ends is not None:
            ok = True
            for k in (0, 1):
                try:
                    ok = ok and abs(float(m.group(1 + k)) - float(ends[k])) <= .005001
                except ValueError:
                    ok = False
            rec.ok(ok, (case, name, "ends"), lambda: "not {}\n{}".format([float(e) for e in ends], text))
        else:
            rec.ok(not re.search(r"\d", m.group(1) + m.group(2)), (case, name, "ends"), lambda: "ends of nothing\n" + text)
    rows = [m for m in re.findall(r"^    ([X·]{36})(.*)$", text, re.M)]
    if not rec.ok(len(rows) == 9, (case, "map"), lambda: text):
        return
    marks = np.array([[c == "X" for c in r[0]] for r in rows])
    rec.ok([r[1].strip() for r in rows] == ["90°N", "", "", "", "EQ", "", "", "", "90°S"], (case, "map labels"), lambda: text)
    foot = re.search(r"^    (.*°E.*)$", text[text.index(rows[8][0] + " 90°S"):], re.M)
    if rec.ok(foot is not None, (case, "map axis"), lambda: text):
        for m in re.finditer(r"(\d+)°E", foot.group(1)):
            rec.ok(abs(int(m.group(1)) / 10. - m.start()) <= 2., (case, "map axis"), lambda: "{} labelled at column {}".format(m.group(0), m.start()))
    # Cells that certainly, and possibly, contain points of the selection
    def cells(xs, size, count):
        sure, poss = set(), set()
        touch = []
        for x in xs:
            k = x / size
            if k.denominator == 1:
                t = {c for c in (int(k) - 1, int(k)) if 0 <= c < count}
            else:
                t = {int(k // 1)}
                sure |= t
            poss |= t
            touch.append(t)
        return sure, poss, touch
    a = cells([90 - x for x in lats], 20, 9)
    b = cells(lons, 10, 36)
    used_r = {int(r) for r in np.flatnonzero(marks.any(axis=1))}
    used_c = {int(c) for c in np.flatnonzero(marks.any(axis=0))}
    rec.ok(marks.sum() == len(used_r) * len(used_c), (case, "map"), lambda: "not a box\n" + text)
    if lats and lons:
        for used, (sure, poss, touch), name in ((used_r, a, "rows"), (used_c, b, "columns")):
            rec.ok(sure <= used <= poss and all(t & used for t in touch), (case, "map " + name), lambda: "{}\n{}".format(sorted(used), text))
    else:
        rec.ok(not marks.any(), (case, "map"), lambda: "nothing is selected\n" + text)
    i = text.find("of <barotropic.Grid>")
    if rec.ok(i > 0, (case, "grid"), lambda: text):
        check_grid(rec, text[i:], None, n, (1.5, 7.292e-5), 2, "stored", (case, "grid"))


def regions(rec, n, shard, nshards):
    ref = c12.Ref(n)
    ref.g.omega = 7.292e-5
    lons, lats = ref.lon_alphabet(), ref.lat_alphabet()
    full = list(itertools.product(lons, lons))
    todo = [(slice(c12.as_float(p), c12.as_float(q)), slice(None), np.arange(n + 1), ref.select_lon(p, q)[0]) for p, q in full]
    todo += [(slice(None), slice(c12.as_float(p), c12.as_float(q)), ref.select_lat(p, q), np.arange(2 * n)) for p, q in itertools.product(lats, lats)]
    step = max(1, len(lons) // 6)
    todo += [(slice(c12.as_float(p), c12.as_float(q)), slice(c12.as_float(r), c12.as_float(t)), ref.select_lat(r, t), ref.select_lon(p, q)[0])
             for p, q in itertools.product(lons[::step], lons[1::step]) for r, t in itertools.product(lats[::max(1, len(lats) // 5)], lats[1::max(1, len(lats) // 4)])]
    todo += [(float(x), float(y), [j], [i]) for (i, x), (j, y) in itertools.product(enumerate(ref.lon), enumerate(ref.lat))]
    for a, b, js, is_ in todo[shard::nshards]:
        case = (n, str(a), str(b))
        with rec.guard(case):
            check_region(rec, ref.g.region[a, b], js, is_, n, case)
        rec.ev(case, 0 < len(js) * len(is_) < 2 * n * (n + 1))


def empty(rec, n):
    ref = c12.Ref(n)
    ref.g.omega = 7.292e-5
    d = 180. / n
    for (a, is_), (b, js) in itertools.product(((slice(.1 * d, .9 * d), []), (slice(None), range(2 * n)), (slice(1.5 * d, 1.6 * d), []), (slice(.9 * d, 1.1 * d), [1])),
                                               ((slice(.2 * d - 90., .8 * d - 90.), []), (slice(None), range(n + 1)), (slice(91., 95.), []), (slice(89.9, 90.1), [0]))):
        case = (n, str(a), str(b))
        with rec.guard(case):
            check_region(rec, ref.g.region[a, b], list(js), list(is_), n, case)
        rec.ev(case, len(js) * len(is_) == 0)


def models(rec):
    import barotropic as bt
    for order, coeff, rhs, bg in itertools.product(range(1, 13), (0., 1.e15, 1, 123456.789, -2.5e-7, 3.3e40, np.float32(1e5)), (None, bt.rhs.TimedOffSwitch(5.)), (None, 1.)):
        case = (order, str(coeff), rhs is None, bg)
        with rec.guard(case):
            m = bt.BarotropicModel(rhs, diffusion_order=order, diffusion_coeff=coeff, diffusion_bg=bg)
            text = repr(m)
            rec.ok(text == str(m) and "BarotropicModel" in text, (case, "class"), lambda: text)
            e = "".join(SUP[int(c)] for c in str(2 * order))
            k = re.search(r"κ\s*=\s*(\S+) m([{0}]+)s⁻¹$".format(SUP), text, re.M)
            if rec.ok(k is not None, (case, "coefficient"), lambda: text):
                rec.ok(abs(float(k.group(1)) - float(coeff)) <= 5.0001e-6 * abs(float(coeff)), (case, "coefficient"), lambda: text)
                rec.ok(k.group(2) == e, (case, "unit"), lambda: text)
            k = re.search(r"κ∇([{0}]+)q".format(SUP), text)
            rec.ok(k is not None and k.group(1) == e, (case, "order"), lambda: text)
            rec.ok(value(text, "and   RHS") == repr(rhs), (case, "RHS"), lambda: text)
        rec.ev(case)


def builtin(rec):
    import barotropic as bt
    g = util.cached_grid(30.)
    terms = [bt.rhs.TimedOffSwitch(5.), bt.rhs.LinearRelaxation(1e-5, g.fcor2), bt.rhs.Orography(g.lon, g.lat, np.zeros(g.shape)), bt.rhs.GaussianMountain(), bt.rhs.ZonalSineMountains()]
    for t in terms:
        with rec.guard(type(t).__name__):
            rec.ok(type(t).__name__ in repr(t), type(t).__name__, lambda: repr(t))
            rec.ok(repr(t) in repr(bt.BarotropicModel(t)), type(t).__name__, lambda: repr(bt.BarotropicModel(t)))
        rec.ev(type(t).__name__)
    for a, b, c in itertools.product(terms, repeat=3):
        case = tuple(type(x).__name__ for x in (a, b, c))
        for name, f in (("a+b*c", lambda: a + b * c), ("(a+b)*c", lambda: (a + b) * c)):
            with rec.guard((case, name)):
                r = repr(f())
                pos = [r.find(repr(x)) for x in (a, b, c)]
                rec.ok(min(pos) >= 0, (case, name), lambda: r)
        rec.ev(case)


NAMES = "ABC"
POINTS = [(2., 3., 7.), (-5., 11., .5), (13., -1., 4.)]


def trees(rec, depth, k, parts):
    import barotropic as bt

    class Term(bt.rhs.RHS):
        def __init__(self, name, i):
            self.name, self.i = name, i

        def __call__(self, state):
            return state[self.i]

        def __repr__(self):
            return self.name

    leaves = [Term(c, i) for i, c in enumerate(NAMES)]
    funcs = [[(t, lambda p, i=i: p[i]) for i, t in enumerate(leaves)]]
    last = list(funcs[0])
    for d in range(depth):
        new = []
        # every tree of the previous depth with every tree of lesser or equal depth (last level: with leaves and depth 1)
        other = [x for f in funcs for x in f] if d < 2 else funcs[0]
        for (a, fa), (b, fb) in itertools.product(last, other):
            pairs = [((a, fa), (b, fb))] if any(a is x for x, _ in funcs[0]) and any(b is x for x, _ in funcs[0]) else [((a, fa), (b, fb)), ((b, fb), (a, fa))]
            for (x, fx), (y, fy) in pairs:
                new.append((x + y, lambda p, fx=fx, fy=fy: fx(p) + fy(p)))
                new.append((x * y, lambda p, fx=fx, fy=fy: fx(p) * fy(p)))
        funcs.append(new)
        last = new
    every = [x for f in funcs for x in f]
    for j, (t, f) in enumerate(every[k::parts]):
        with rec.guard((k, j)):
            text = repr(t)
            if not rec.ok(re.match(r"^[ABC+*() ]*$", text) is not None, (k, j), lambda: text):
                continue
            code = compile(text, "repr", "eval")
            for p in POINTS:
                want = f(p)
                got = eval(code, {"A": p[0], "B": p[1], "C": p[2]})
                rec.ok(abs(got - want) <= 1e-9 * (1. + abs(want)), (k, text), lambda: "{} instead of {}".format(got, want))
                rec.ok(abs(t(p) - want) <= 1e-9 * (1. + abs(want)), (k, text), "the forcing itself")
            rec.ok(value(repr(bt.BarotropicModel(t)), "and   RHS") == text, (k, text, "model"), "")
        rec.ev(text, len(text) > 1)
