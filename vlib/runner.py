"""Common machinery: drives Hypothesis over JSON-able cases, in parallel shards,
shrinks failures into replay files, counts what was generated, writes the evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP_DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
WHEELS = "/opt/veriftools/wheels"

# wall-clock budgets (seconds): hitting one means "stopped early", never a violation
GEN_BUDGET = {"quick": 420.0, "thorough": float(os.environ.get("VERIF_BUDGET", 720))}
CASE_TIMEOUT = 150.0  # cases take milliseconds to a few seconds: no answer after this long is a hang
SHRINK_BUDGET = {"quick": 60.0, "thorough": 240.0}


def bootstrap():
    """make agnpy (from the working tree) and hypothesis importable"""
    warnings.filterwarnings("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # appended, not prepended: numpy/scipy/astropy stay those of the project's venv
        for d in HYP_DIRS:
            if os.path.isdir(os.path.join(d, "hypothesis")):
                sys.path.append(d)
                break
        else:
            for w in sorted(os.listdir(WHEELS)):
                if w.startswith(("hypothesis-", "sortedcontainers-")) and (
                    "cp312" in w or "py3-none-any" in w or "py2.py3-none-any" in w
                ):
                    import zipfile

                    dest = os.path.join(tempfile.gettempdir(), "verif_hyp_%d" % os.getpid())
                    zipfile.ZipFile(os.path.join(WHEELS, w)).extractall(dest)
                    if dest not in sys.path:
                        sys.path.append(dest)
        import hypothesis  # noqa: F401
    import numpy as np

    np.seterr(all="ignore")
    import agnpy

    here = os.path.realpath(agnpy.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("agnpy imported from %s, not from %s" % (here, REPO))


class Violation(AssertionError):
    """the property does not hold on this case"""


class KnownWrong(Exception):
    """the case hits exactly a recorded finding (the value equals the recorded wrong one)"""

    def __init__(self, fid):
        super().__init__(fid)
        self.fid = fid


class Sub:
    """One generated check.  fn(case, ctx) raises Violation when the property fails.

    strategy: Hypothesis strategy of JSON-able cases (a callable building it lazily is fine)
    quick/thorough: number of generated cases; shards: independent seeds run in parallel
    examples: explicit cases always run first
    """

    def __init__(self, name, fn, strategy, quick=200, thorough=2000, shards=1, examples=(), rule=""):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.examples, self.rule = list(examples), rule


class Ctx:
    def __init__(self):
        self.labels = {}
        self.is_nontrivial = False
        self.known = {}

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def known_wrong(self, fid):
        """this case shows the recorded finding `fid`, with exactly the recorded wrong value"""
        self.known[fid] = self.known.get(fid, 0) + 1


def blame(exc):
    """'agnpy' if the exception left the code under test, else 'harness'"""
    if isinstance(exc, Violation):
        return "violation"
    tb = exc.__traceback__
    pkg = os.path.realpath(os.path.join(REPO, "agnpy")) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(pkg):
            return "agnpy"
    return "harness"


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


def run_case(sub, case, ctx):
    """returns None or (kind, message)"""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        sub.fn(case, ctx)
        return None
    except Hang:
        return ("violation", "no answer within %g s on a valid input" % CASE_TIMEOUT)
    except Violation as e:
        return ("violation", str(e))
    except Exception as e:  # noqa: BLE001
        kind = blame(e)
        msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if kind == "agnpy":
            return ("violation", "unexpected exception from the code under test on a valid input: %s: %s\n%s" % (type(e).__name__, e, msg))
        if isinstance(e, (ImportError, MemoryError, OSError, RecursionError)):
            return ("harness", msg)
        # what the package returned does not have the form the check reads (None, a missing attribute, a wrong shape...)
        return ("violation", "the result of the code under test does not have the documented form: %s: %s\n%s" % (type(e).__name__, e, msg))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class _Fail(Exception):
    pass


def even_generation(fraction=0.04):
    """Hypothesis spends most of a small budget on mutations of its first, minimal examples (half of the cases of a
    quick run would ask the first alternative of every choice): keep some of them, which make values coincide, and
    generate afresh otherwise.  Cosmetic for correctness: without the hook the distribution is only less even."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as Runner

        mutate = Runner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    if getattr(mutate, "sparing", False):
        return

    def sparing(self, data):
        if self.random.random() < fraction:
            mutate(self, data)

    sparing.sparing = True
    Runner.generate_mutations_from = sparing


def run_shard(args):
    prop, subname, shard, seed, n, tier, deadline = args
    mod = importlib.import_module("checks." + prop)
    sub = {s.name: s for s in mod.SUBS}[subname]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    even_generation()
    res = {
        "sub": subname, "shard": shard, "evaluations": 0, "skipped": 0, "keys": set(), "labels": {},
        "samples": [], "known": {}, "failure": None, "error": None, "shrink_runs": 0,
    }
    state = {"fail": None, "t_fail": None}

    def execute(case, count=True):
        ctx = Ctx()
        out = run_case(sub, case, ctx)
        if count:
            res["evaluations"] += 1
            if ctx.is_nontrivial:
                k = case_key(case)
                if k not in res["keys"]:
                    res["keys"].add(k)
                    if len(res["samples"]) < 3:
                        res["samples"].append(case)
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + 1
            for k, v in ctx.known.items():
                res["known"][k] = res["known"].get(k, 0) + 1
        return out

    if shard == 0:
        for case in sub.examples:
            out = execute(case)
            if out is not None:
                if out[0] == "harness":
                    res["error"] = out[1]
                else:
                    res["failure"] = {"case": case, "message": out[1]}
                res["keys"] = list(res["keys"])
                return res

    strat = sub.strategy() if callable(sub.strategy) else sub.strategy

    def body(case):
        if state["fail"] is None:
            if time.time() > deadline:
                res["skipped"] += 1
                return
            out = execute(case)
            if out is None:
                return
            if out[0] == "harness":
                res["error"] = out[1] + "\ncase: " + json.dumps(case, default=str)[:2000]
                raise _Fail("harness")
            state["fail"], state["t_fail"] = {"case": case, "message": out[1]}, time.time()
            raise _Fail("violation")
        # shrinking
        if res["error"] or time.time() - state["t_fail"] > SHRINK_BUDGET[tier]:
            return
        res["shrink_runs"] += 1
        out = execute(case, count=False)
        if out is not None and out[0] == "violation":
            state["fail"] = {"case": case, "message": out[1]}
            raise _Fail("violation")

    test = given(strat)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False,
    )(test)
    test = hypothesis.seed((seed * 1000003 + shard * 7919 + int(case_key(subname)[:6], 16)) % (2**31))(test)
    try:
        devnull = open(os.devnull, "w")
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = devnull
        try:
            test()
        finally:
            sys.stdout, sys.stderr = old
            devnull.close()
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is None and res["error"] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if state["fail"] is not None:
        res["failure"] = state["fail"]
    res["keys"] = list(res["keys"])
    return res


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop and e["status"] == "open"]


def write_replay(prop, sub, failure):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, sub, case_key(failure["case"])[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": failure["case"], "message": failure["message"][:6000]}, f, indent=1, default=str)
    return path


def setup():
    """nothing to build: checks that everything the checks import is there"""
    bootstrap()
    for name in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if name.startswith("C") and name.endswith(".py"):
            importlib.import_module("checks." + name[:-3])
    print("setup: package, Hypothesis and all check modules import")
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in GEN_BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    os.chdir(tempfile.gettempdir())
    try:
        bootstrap()
        mod = importlib.import_module("checks." + a.prop)
    except Exception:
        traceback.print_exc()
        print("ERROR: the harness or the package could not be imported")
        return 3
    subs = {s.name: s for s in mod.SUBS}

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        out = run_case(subs[r["sub"]], r["case"], Ctx())
        if out is None:
            print("replay: the property holds on this case")
            return 0
        print(out[1])
        if out[0] == "harness":
            return 3
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1

    jobs = []
    deadline = t0 + GEN_BUDGET[tier]
    for s in mod.SUBS:
        if a.only and s.name != a.only:
            continue
        n = max(1, int((s.quick if tier == "quick" else s.thorough) * a.scale))
        shards = s.shards
        if tier == "thorough":
            shards = max(shards, 8)
        per = max(1, -(-n // shards))
        for k in range(shards):
            jobs.append((a.prop, s.name, k, seed, per, tier, deadline))
    nproc = a.jobs or min(8, os.cpu_count() or 1)
    ctxm = mp.get_context("fork")
    if nproc == 1:
        results = [run_shard(j) for j in jobs]
    else:
        from concurrent.futures import ProcessPoolExecutor

        try:
            with ProcessPoolExecutor(nproc, mp_context=ctxm) as ex:
                results = list(ex.map(run_shard, jobs, chunksize=1))
        except Exception:
            traceback.print_exc()
            print("ERROR: a worker process ended abnormally")
            return 3

    # known findings: replay each recorded input
    known_lines, known_seen = [], {}
    for e in load_known(a.prop):
        if a.only and e["sub"] != a.only:
            continue
        ctx = Ctx()
        out = run_case(subs[e["sub"]], e["case"], ctx)
        if out is not None and out[0] == "harness":
            print("ERROR: known finding %s could not be replayed\n%s" % (e["id"], out[1]))
            return 3
        if ctx.known.get(e["id"]):
            known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (a.prop, e["id"], e["what"]))
        elif out is not None:
            # fails, but not in the recorded way: a different violation
            results.append({"sub": e["sub"], "shard": -1, "evaluations": 1, "skipped": 0, "keys": [], "labels": {}, "samples": [],
                            "known": {}, "failure": {"case": e["case"], "message": out[1]}, "error": None, "shrink_runs": 0})
    known_ids = {e["id"] for e in load_known(a.prop)}

    violations, errors = [], []
    per_sub, samples, keys = {}, [], set()
    evaluations = 0
    for r in results:
        evaluations += r["evaluations"]
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "stopped_early": 0, "labels": {}, "_k": set()})
        d["evaluations"] += r["evaluations"]
        d["stopped_early"] += r["skipped"]
        d["_k"].update(r["keys"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for k, v in r["known"].items():
            known_seen[k] = known_seen.get(k, 0) + v
            if k not in known_ids:
                violations.append((r["sub"], {"case": {}, "message": "unlisted finding id " + k}))
        for c in r["samples"][: (2 if r["shard"] == 0 else 0)]:
            samples.append({"sub": r["sub"], "case": c})
        if r["failure"]:
            violations.append((r["sub"], r["failure"]))
        if r["error"]:
            errors.append((r["sub"], r["error"]))
    nontriv = 0
    for k, d in per_sub.items():
        d["distinct_nontrivial"] = len(d.pop("_k"))
        nontriv += d["distinct_nontrivial"]
    rule = " | ".join("%s: %s" % (s.name, s.rule or (s.fn.__doc__ or "").strip().replace("\n", " ")) for s in mod.SUBS)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontriv,
            "rule": "cases drawn by Hypothesis from typed generators; per sub-check: " + rule,
            "samples": samples, "sub_checks": per_sub, "known_findings_met": known_seen,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for l in known_lines:
        print(l)
    for sub, d in per_sub.items():
        print("%s/%s: %d cases, %d distinct non-trivial%s %s" % (
            a.prop, sub, d["evaluations"], d["distinct_nontrivial"],
            (", %d not run (time budget)" % d["stopped_early"]) if d["stopped_early"] else "",
            json.dumps(d["labels"], sort_keys=True) if d["labels"] else ""))
    seen = set()
    for sub, f in violations:
        if sub in seen:
            continue
        seen.add(sub)
        path = write_replay(a.prop, sub, f)
        print("--- %s/%s fails on %s\n%s" % (a.prop, sub, json.dumps(f["case"], default=str)[:3000], f["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    print("%s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s (tier %s, seed %d)" % (
        a.prop, evaluations, nontriv, len(seen), time.time() - t0, tier, seed))
    if violations:
        return 1
    if errors:
        for sub, e in errors[:3]:
            print("ERROR in the harness of %s/%s\n%s" % (a.prop, sub, e))
        return 3
    return 0
