"""Bookkeeping of the exhaustive explorations.

A property module (mc/props/cNN.py) provides

    LEVEL, TECHNIQUE, RULE, ASSUMPTIONS
    units(tier)          list of JSON-serializable descriptions of work units
    run_unit(unit, rec)  explores one unit completely, reporting to rec

All units together are the bounded space the property is decided on. Every unit
is explored to its end, there is no sampling and no early stop (apart from the
recording of violations, which is limited per unit).
"""

import contextlib
import hashlib
import traceback

import numpy as np

MAX_FAILS_PER_UNIT = 8


class CaseTimeout(BaseException):
    """Raised by the alarm of a unit that does not come to an end."""


class Rec:
    """Collects what was covered by (and violated in) one unit."""

    def __init__(self, unit):
        self.unit = unit
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counts = {}
        self.fails = []
        self.nfails = 0

    # Coverage

    def ev(self, case, nontrivial=True):
        """Count one evaluated case (any object with a faithful repr)."""
        self.evaluations += 1
        if nontrivial:
            text = repr((self.unit, case))
            self.nontrivial.add(hashlib.blake2b(text.encode(), digest_size=8).digest())
        if len(self.samples) < 2:
            self.samples.append("{}: {}".format(self.unit, case)[:400])

    def ev_many(self, n, prefix):
        """Count n cases, distinct and non-trivial by construction."""
        self.evaluations += int(n)
        self.counts["_bulk"] = self.counts.get("_bulk", 0) + int(n)
        if len(self.samples) < 2:
            self.samples.append("{}: {} ({} cases)".format(self.unit, prefix, n)[:400])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    # Verdicts

    def fail(self, case, msg):
        self.nfails += 1
        if len(self.fails) < MAX_FAILS_PER_UNIT:
            self.fails.append({"case": str(case)[:600], "message": str(msg)[:3000]})

    def ok(self, cond, case, msg=""):
        if not cond:
            self.fail(case, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, got, want, case, rtol=1e-6, atol=0., scale=None):
        """Same shape, same non-finite values and |got-want| <= rtol*scale + atol.

        scale defaults to the largest finite magnitude of want.
        """
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.shape != want.shape:
                return self.ok(False, case, "shape {} instead of {}".format(got.shape, want.shape))
            if want.size == 0:
                return True
            if got.dtype.kind not in "fciub":
                got = got.astype(complex if want.dtype.kind == "c" else float)
            fin = np.isfinite(want)
            if not np.array_equal(np.isfinite(got), fin):
                return self.ok(False, case, "non-finite values differ: got {} want {}".format(_short(got), _short(want)))
            if not fin.all():
                g, w = got[~fin], want[~fin]
                same = (g == w) | (np.isnan(g) & np.isnan(w))
                if not same.all():
                    return self.ok(False, case, "infinite values differ: got {} want {}".format(_short(got), _short(want)))
            if not fin.any():
                return True
            g = got[fin].astype(np.complex128 if got.dtype.kind == "c" else np.float64)
            w = want[fin].astype(np.complex128 if want.dtype.kind == "c" else np.float64)
            diff = np.abs(g - w)
            if scale is None:
                scale = np.max(np.abs(w))
            tol = rtol * scale + atol
            if not np.all(diff <= tol):
                i = int(np.argmax(diff - tol))
                return self.ok(False, case, "max deviation {:.6g} (tolerance {:.3g}): got {} want {}; got {} want {}".format(
                    float(np.max(diff)), float(np.max(tol)), g.flat[i], w.flat[i], _short(got), _short(want)))
        except Exception:
            return self.ok(False, case, "comparison failed:\n" + traceback.format_exc(limit=5))
        return True

    @contextlib.contextmanager
    def guard(self, case):
        """An exception in the guarded block is a violation."""
        try:
            yield
        except Exception:
            self.fail(case, "unexpected exception\n" + traceback.format_exc(limit=12))

    def raises(self, exc, f, case):
        """f() has to raise exc (and nothing else)."""
        try:
            out = f()
        except exc:
            return True
        except Exception as e:
            self.fail(case, "raised {!r} instead of {}".format(e, exc))
            return False
        self.fail(case, "no exception raised, returned {}".format(_short(out)))
        return False

    def result(self):
        return {
            "unit": self.unit,
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial,
            "samples": self.samples,
            "counts": self.counts,
            "fails": self.fails,
            "nfails": self.nfails,
        }


def _short(x):
    with np.printoptions(threshold=12, precision=6, edgeitems=4):
        return repr(x)[:400]
