"""Command line runner: python -m mc.run C05 [--tier quick|thorough] [--replay FILE]"""

import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
UNIT_LIMIT = {"quick": 300, "thorough": 6000}
MEMORY_LIMIT = 8 * 2**30 # per worker


def known_findings(prop):
    """Lines 'finding: property=<id> match=<regex> :: <what fails>'."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    return out


def _init_worker():
    # One directory per run for anything matplotlib wants to cache
    import resource
    import warnings
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def _run_unit(args):
    prop, unit, tier = args
    from mc.core import Rec, CaseTimeout
    rec = Rec(unit)
    limit = UNIT_LIMIT[tier]

    def on_alarm(signum, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        mod = importlib.import_module("mc.props." + prop.lower())
        mod.run_unit(unit, rec)
    except CaseTimeout:
        rec.fail("termination", "unit did not come to an end within {} s\n{}".format(limit, traceback.format_exc(limit=12)))
    except Exception:
        rec.fail("exception", "unexpected exception\n" + traceback.format_exc(limit=15))
    finally:
        signal.alarm(0)
    res = rec.result()
    res["wall"] = time.time() - t0
    return res


def run_units(prop, units, tier, jobs):
    results = []
    if jobs == 1 or len(units) == 1:
        _init_worker()
        for u in units:
            results.append(_run_unit((prop, u, tier)))
        return results
    ctx = multiprocessing.get_context("fork")
    pending = list(range(len(units)))
    done = {}
    # A unit that kills its worker breaks the pool: keep what is finished and
    # rerun the rest one by one, each in a process of its own
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker) as ex:
        futs = {ex.submit(_run_unit, (prop, units[i], tier)): i for i in pending}
        for fut in cf.as_completed(futs):
            try:
                done[futs[fut]] = fut.result()
            except cf.process.BrokenProcessPool:
                continue
            # One unit without an end is enough, the others would take as long
            if any(f["case"] == "termination" for f in done[futs[fut]]["fails"]):
                ex.shutdown(wait=False, cancel_futures=True)
                break
    if any(f["case"] == "termination" for r in done.values() for f in r["fails"]):
        return [done[i] for i in pending if i in done]
    for i in pending:
        if i in done:
            continue
        with cf.ProcessPoolExecutor(1, mp_context=ctx, initializer=_init_worker) as ex:
            try:
                done[i] = ex.submit(_run_unit, (prop, units[i], tier)).result()
            except cf.process.BrokenProcessPool:
                done[i] = {"unit": units[i], "evaluations": 0, "nontrivial": set(), "samples": [], "counts": {},
                           "fails": [{"case": "crash", "message": "the interpreter died while exploring this unit"}],
                           "nfails": 1, "wall": 0.}
    return [done[i] for i in pending]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args()
    prop = args.prop.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()

    mpl = tempfile.mkdtemp(prefix="mc-mpl-")
    os.environ["MPLCONFIGDIR"] = mpl
    try:
        return _main(args, prop, tier, seed, t0)
    finally:
        shutil.rmtree(mpl, ignore_errors=True)


def _main(args, prop, tier, seed, t0):
    try:
        import warnings
        warnings.simplefilter("ignore")
        import barotropic
        mod = importlib.import_module("mc.props." + prop.lower())
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            units = [rep["unit"]]
        else:
            units = mod.units(tier)
        assert len({json.dumps(u) for u in units}) == len(units), "duplicate units"
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        results = run_units(prop, units, tier, 1 if args.replay else args.jobs)
    except Exception:
        tb = traceback.format_exc()
        results = [{"unit": "setup", "evaluations": 0, "nontrivial": set(), "samples": [], "counts": {},
                    "fails": [{"case": "setup", "message": tb}], "nfails": 1, "wall": 0.}]
        mod = sys.modules.get("mc.props." + prop.lower())

    # Known findings are reported but do not fail the check
    known = known_findings(prop)
    seen_known = {}
    violations = []
    for r in results:
        for f in r["fails"]:
            text = "{} | {}".format(json.dumps(r["unit"]), f["case"])
            for rx, what in known:
                if rx.search(text):
                    seen_known[what] = seen_known.get(what, 0) + 1
                    break
            else:
                violations.append((r["unit"], f))
    for what in seen_known:
        print("KNOWN-FINDING: property={} {}".format(prop, what))

    if args.profile:
        for r in sorted(results, key=lambda r: -r["wall"])[:15]:
            print("{:8.2f} s  {:8d} ev  {}".format(r["wall"], r["evaluations"], json.dumps(r["unit"])[:120]))

    rdir = os.path.join(ROOT, "replay")
    os.makedirs(rdir, exist_ok=True)
    if not args.replay:
        for name in os.listdir(rdir):
            if name.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, name))
    printed = set()
    n = 0
    for unit, f in violations:
        key = json.dumps(unit)
        if key in printed:
            continue
        printed.add(key)
        n += 1
        if n > 12:
            break
        if args.replay:
            path = args.replay
        else:
            path = os.path.join(rdir, "{}-{}.json".format(prop, n))
            with open(path, "w") as out:
                json.dump({"property": prop, "unit": unit, "case": f["case"], "message": f["message"],
                           "replay": "./check {} --replay {}".format(prop, path)}, out, indent=1)
        print("VIOLATION property={} replay={}".format(prop, path))
        print("    unit {}".format(key[:300]))
        print("    case {}".format(f["case"][:300]))
        lines = f["message"].splitlines()
        for line in (lines[:1] + lines[-3:] if len(lines) > 3 and "Traceback" in f["message"] else lines[:1]):
            print("        " + line[:300])

    if not args.replay:
        write_evidence(mod, prop, tier, seed, results, len(violations), t0)
    ev = sum(r["evaluations"] for r in results)
    print("{} {}: {} units, {} evaluations, {} violations, {:.1f} s".format(
        prop, tier, len(results), ev, len(violations), time.time() - t0))
    return 1 if violations else 0


def write_evidence(mod, prop, tier, seed, results, nviol, t0):
    level = getattr(mod, "LEVEL", "exploration")
    counts = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    bulk = counts.pop("_bulk", 0)
    ev = sum(r["evaluations"] for r in results)
    nontriv = bulk + len(set().union(*[r["nontrivial"] for r in results]))
    samples = [s for r in results for s in r["samples"]]
    step = max(1, len(samples) // 6)
    samples = samples[::step][:6]
    cov = {"samples": samples, "units": len(results), "rule": getattr(mod, "RULE", ""), "exhaustive": True}
    if level == "model_checking":
        cov["states"] = counts.pop("states", 0)
        cov["transitions"] = counts.pop("transitions", 0)
        cov["traces_validated_against_impl"] = counts.pop("traces", 0)
        cov["cases_checked"] = ev
    else:
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = nontriv
    for k, v in counts.items():
        cov[k] = v
    data = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3), "violations": nviol,
    }
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, os.path.join(edir, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
