"""Runner: generated cases, shrinking, replay, evidence.

A property module registers *families*: a Hypothesis strategy producing a
plain, JSON-serialisable case, and a function ``check(case, rec)`` raising if
the case breaks the property.  The runner splits the requested number of
examples of each family into shards, runs these in worker processes, each shard
being one seeded Hypothesis run, and writes the shrunk failing case, if any, to
a replay file which is re-run without Hypothesis.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 1)
CASE_CPU_LIMIT = 150        # CPU seconds (typical cases take well below 5)
SHRINK_WALL = {"quick": 45., "thorough": 240.}
RUN_WALL = {"quick": 420., "thorough": 4 * 3600.}


class Violation(AssertionError):
    """The property does not hold for the case"""


class Discard(Exception):
    """Case outside the domain, decided only while it is run"""


class CaseTimeout(BaseException):
    pass


class Family:
    def __init__(self, name, strategy, check, quick, thorough, cost):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.cost = cost


class Property:
    """Set of families deciding one property"""
    def __init__(self, id, rule, assumptions=()):
        self.id = id
        self.rule = rule
        self.assumptions = list(assumptions)
        self.families = {}

    def family(self, strategy, quick, thorough=None, cost=1.0, name=None):
        if thorough is None:
            thorough = quick * 30

        def register(fn):
            fname = name or fn.__name__
            self.families[fname] = Family(fname, strategy, fn, quick, thorough,
                                          cost)
            return fn
        return register


class Recorder:
    """Collects what one case actually exercised and judges deviations"""
    def __init__(self):
        self.labels = {}
        self.ratios = {}
        self.known_hits = {}
        self.nontrivial = False
        self.calls = 0

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def known(self, key, text=""):
        self.known_hits[key] = text

    def true(self, cond, msg):
        self.calls += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, name, err, tol, msg=None):
        """Assert ``err <= tol`` elementwise (false for NaN)"""
        import numpy as np
        self.calls += 1
        err = np.asarray(err, float)
        tol = np.asarray(tol, float)
        if err.size == 0:
            return
        ok = err <= tol
        if not ok.all():
            err, tol = np.broadcast_arrays(err, tol)
            with np.errstate(all="ignore"):
                bad = np.argmax(np.where(ok, -1, np.where(
                    np.isfinite(err), np.nan_to_num(err / tol, nan=1e300), 1e300)))
            bad = np.unravel_index(bad, err.shape)
            raise Violation("%s: error %.6g > tolerance %.6g at index %s %s"
                            % (name, err[bad], tol[bad],
                               tuple(map(int, bad)), msg or ""))
        with np.errstate(all="ignore"):
            r = np.where(err == 0, 0, err / tol)
        r = float(np.max(r))
        if r > self.ratios.get(name, -1):
            self.ratios[name] = r

    def raises(self, fn, what, kinds=(Exception,)):
        self.calls += 1
        try:
            res = fn()
        except kinds:
            return
        raise Violation("%s: accepted, returned %.200r" % (what, res))


def _jsonable(x):
    import numpy as np
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    raise TypeError("not JSON-serialisable: %r" % (x,))


def case_json(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


def derive_seed(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()
    return int(h[:12], 16)


def _on_prof(_sig, _frame):
    raise CaseTimeout()


def run_case(fam, case, rec):
    """Run single case; returns None if fine, otherwise failure message"""
    from hypothesis.errors import HypothesisException
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fam.check(case, rec)
    except (HypothesisException, Discard, MemoryError):
        raise
    except CaseTimeout:
        return "did not terminate within %d s of CPU time" % CASE_CPU_LIMIT
    except Violation as e:
        return str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(t.filename), t.lineno,
                                        t.name) for t in tb[-4:])
        return "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:500], where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


_STATE = {}


def _run_unit(unit):
    try:
        return _run_unit_inner(*unit)
    except BaseException:
        return {"unit": unit, "harness_error": traceback.format_exc()}


def _run_unit_inner(fname, shard, nexamples, seed, tier, t_end):
    import hypothesis as hy
    prop, stop = _STATE["prop"], _STATE["stop"]
    fam = prop.families[fname]
    out = {"family": fname, "shard": shard, "evaluations": 0, "discarded": 0,
           "skipped": 0, "nontrivial": set(), "labels": {}, "ratios": {},
           "known": {}, "samples": [], "assertions": 0, "failure": None}
    st = {"fail": None, "t_fail": None, "hang": False}
    t0 = time.monotonic()

    def body(case):
        now = time.monotonic()
        if st["fail"] is None and (stop.is_set() or now > t_end):
            out["skipped"] += 1
            return
        if st["fail"] is not None and (
                st["hang"] or now - st["t_fail"] > SHRINK_WALL[tier]):
            return
        rec = Recorder()
        try:
            msg = run_case(fam, case, rec)
        except Discard:
            out["discarded"] += 1
            return
        out["evaluations"] += 1
        out["assertions"] += rec.calls
        key = case_json(case)
        if rec.nontrivial:
            out["nontrivial"].add(hashlib.md5(key.encode()).hexdigest()[:12])
            if len(out["samples"]) < 3 and out["evaluations"] > 2:
                out["samples"].append({"family": fname, "case": json.loads(key)})
        for k, v in rec.labels.items():
            out["labels"][k] = out["labels"].get(k, 0) + v
        for k, v in rec.ratios.items():
            out["ratios"][k] = max(v, out["ratios"].get(k, -1))
        out["known"].update(rec.known_hits)
        if msg is not None:
            if st["t_fail"] is None:
                st["t_fail"] = time.monotonic()
                stop.set()
            st["hang"] = msg.startswith("did not terminate")
            st["fail"] = (json.loads(key), msg)
            raise Violation(msg)

    test = hy.given(fam.strategy)(body)
    test = hy.settings(
        max_examples=nexamples, database=None, deadline=None,
        phases=(hy.Phase.generate, hy.Phase.shrink), print_blob=False,
        report_multiple_bugs=False, verbosity=hy.Verbosity.quiet,
        suppress_health_check=list(hy.HealthCheck))(test)
    test = hy.seed(seed)(test)
    try:
        test()
    except hy.errors.Unsatisfiable:
        if not out["skipped"]:
            raise
    except Exception:
        # Hypothesis' own complaint about flakiness is expected when shrinking
        # is cut short; anything else without a failing case is our fault
        if st["fail"] is None:
            raise
    if st["fail"] is not None:
        out["failure"] = {"case": st["fail"][0], "message": st["fail"][1]}
    out["wall"] = time.monotonic() - t0
    return out


def load_property(pid):
    from . import env                                        # noqa: F401
    mod = importlib.import_module("pbt.props." + pid.lower())
    return mod.PROP


def known_findings(pid):
    """Listed findings of this property: key -> text"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
            if m and m[1] == pid:
                res[m[2]] = m[3].strip()
    return res


def corpus(pid):
    path = os.path.join(VERIF, "corpus", pid + ".json")
    return json.load(open(path)) if os.path.exists(path) else []


def write_replay(pid, fname, case, message):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5((fname + case_json(case)).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, fname, h))
    with open(path, "w") as f:
        json.dump({"property": pid, "family": fname, "case": case,
                   "message": message,
                   "how": "run.py %s --replay %s" % (pid, path)},
                  f, indent=1, default=_jsonable)
    return path


def replay(prop, path):
    d = json.load(open(path))
    msg = run_case(prop.families[d["family"]], d["case"], Recorder())
    if msg is None:
        print("replay passes:", path)
        return 0
    print("failing case:", case_json(d["case"])[:2000])
    print("message:", msg)
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.property == "--selftest" or a.property == "selftest":
        from . import env
        print("ok", env.sparse_ir.__file__, env.hypothesis.__version__)
        return 0
    try:
        prop = load_property(a.property)
        if a.replay:
            return replay(prop, a.replay)
        return run(prop, a)
    except Exception:
        traceback.print_exc()
        return 3


def run(prop, a):
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    failures = []
    labels, ratios, known, samples = {}, {}, {}, []
    nontrivial = set()
    counts = {}
    evaluations = discarded = skipped = assertions = 0

    # 1. replay tier: cases which once failed
    nreplayed = 0
    for item in corpus(prop.id):
        fam = prop.families.get(item["family"])
        if fam is None or (a.family and a.family != fam.name):
            continue
        rec = Recorder()
        try:
            msg = run_case(fam, item["case"], rec)
        except Discard:
            continue
        nreplayed += 1
        known.update(rec.known_hits)
        if msg is not None:
            failures.append((fam.name, item["case"], msg))
            break

    # 2. generated search
    from . import gen
    if not failures:
        gen.prepare(NPROC, 150 if tier == "quick" else 900)
    units = []
    for fam in prop.families.values():
        if a.family and a.family != fam.name:
            continue
        total = max(1, int(a.scale * (fam.thorough if tier == "thorough"
                                      else fam.quick)))
        per = max(1, min(-(-total // NPROC), 1000 if tier == "quick" else 2000))
        n = -(-total // per)
        for shard in range(n):
            units.append((fam.cost * per,
                          (fam.name, shard, per,
                           derive_seed(seed, prop.id, fam.name, shard), tier,
                           t0 + RUN_WALL[tier])))
    units.sort(key=lambda u: -u[0])
    errors = []
    unit_wall = {}
    if not failures and units:
        ctx = mp.get_context("fork")
        _STATE["prop"] = prop
        _STATE["stop"] = ctx.Event()
        with ctx.Pool(NPROC) as pool:
            for r in pool.imap_unordered(_run_unit, [u[1] for u in units]):
                if "harness_error" in r:
                    errors.append(r)
                    continue
                f = r["family"]
                unit_wall[f] = unit_wall.get(f, 0) + r["wall"]
                c = counts.setdefault(f, {"evaluations": 0, "nontrivial": set()})
                c["evaluations"] += r["evaluations"]
                c["nontrivial"] |= r["nontrivial"]
                evaluations += r["evaluations"]
                discarded += r["discarded"]
                skipped += r["skipped"]
                assertions += r["assertions"]
                nontrivial |= {f + k for k in r["nontrivial"]}
                for k, v in r["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                for k, v in r["ratios"].items():
                    ratios[k] = max(v, ratios.get(k, -1))
                known.update(r["known"])
                if sum(s["family"] == f for s in samples) < 2:
                    samples += r["samples"][:1]
                if r["failure"]:
                    failures.append((f, r["failure"]["case"],
                                     r["failure"]["message"]))

    listed = known_findings(prop.id)
    for key in sorted(known):
        if key not in listed:
            failures.append(("known:" + key, {"key": key},
                             "unlisted finding: " + str(known[key])))

    samples = [s for s in samples if len(case_json(s)) < 4000][:14]
    evidence = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule, "samples": samples,
            "families": {k: {"evaluations": v["evaluations"],
                             "distinct_nontrivial": len(v["nontrivial"]),
                             "cpu_s": round(unit_wall[k], 2)}
                         for k, v in sorted(counts.items())},
            "assertions": assertions, "replayed_corpus_cases": nreplayed,
            "discarded": discarded, "skipped_after_budget": skipped,
            "classes": dict(sorted(labels.items())),
            "max_error_over_tolerance": {k: float("%.3g" % v) for k, v
                                         in sorted(ratios.items())},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if a.verbose:
        print(json.dumps({k: v for k, v in evidence["coverage"].items()
                          if k not in ("samples", "rule")}, indent=1))
    for r in errors[:3]:
        print("HARNESS ERROR in", r["unit"], file=sys.stderr)
        print(r["harness_error"], file=sys.stderr)
    print("%s: %d cases, %d distinct non-trivial, %d assertions, %.1f s"
          % (prop.id, evaluations, len(nontrivial), assertions,
             evidence["wall_s"]))
    for key in sorted(known):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, listed[key]))
    if failures:
        failures.sort(key=lambda f: len(case_json(f[1])))
        for fname, case, msg in failures[:3]:
            path = write_replay(prop.id, fname, case, msg)
            print("failing case (%s): %s" % (fname, case_json(case)[:1500]))
            print("message:", msg)
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if errors:
        return 3
    if evaluations == 0:
        print("no case was run", file=sys.stderr)
        return 3
    return 0
