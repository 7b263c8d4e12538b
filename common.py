"""Shared machinery: environment, SUT import, Hypothesis runner, evidence, replay."""
import os
import sys

REPO = os.environ.get("FIBERMAT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.abspath(__file__))

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

import atexit
import contextlib
import hashlib
import io
import json
import multiprocessing
import shutil
import signal
import tempfile
import time
import traceback
import warnings

_SCRATCH = tempfile.mkdtemp(prefix="fibermat-verif-")
_PID = os.getpid()
os.environ["MPLCONFIGDIR"] = _SCRATCH


@atexit.register
def _cleanup():
    if os.getpid() == _PID and os.path.basename(_SCRATCH).startswith("fibermat-verif-"):
        shutil.rmtree(_SCRATCH, ignore_errors=True)


sys.path.insert(0, SRC)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis only
warnings.simplefilter("ignore")

import numpy as np
import pandas as pd
import hypothesis
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
from hypothesis import strategies as st
from hypothesis.errors import HypothesisException, StopTest, UnsatisfiedAssumption

try:  # bound the time spent on shrinking (Hypothesis' own limit is 5 minutes)
    from hypothesis.internal.conjecture import engine as _engine
    _engine.MAX_SHRINKING_SECONDS = 60
    # Mutations of earlier examples are mostly repetitions for the cases generated here: one
    # example in eight only is mutated (halves the number of duplicates).
    _mutate = _engine.ConjectureRunner.generate_mutations_from

    def _mutate_some(self, data):
        if self.call_count % 8 == 0:
            _mutate(self, data)

    _engine.ConjectureRunner.generate_mutations_from = _mutate_some
except Exception:  # pragma: no cover
    pass


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessTimeout(BaseException):
    """A case did not finish in its (very generous) time limit: inconclusive."""


class Endless(BaseException):
    """A case used far more processor time than any terminating case needs."""


class ImportFailure(Exception):
    pass


def require(cond, message, *args):
    """Oracle assertion."""
    ok = bool(np.all(cond))
    if not ok:
        raise Violation(message.format(*args) if args else message)


def load_sut():
    """Import fibermat from the working tree of /repo and from nowhere else."""
    import fibermat
    path = os.path.realpath(fibermat.__file__)
    if not path.startswith(os.path.realpath(SRC) + os.sep):
        raise ImportFailure("fibermat imported from %s" % path)
    return fibermat


def sut_frames(exc):
    """Frames of the code under test in the traceback of an exception."""
    frames = traceback.extract_tb(exc.__traceback__)
    root = os.path.realpath(REPO) + os.sep
    return [f for f in frames if os.path.realpath(f.filename).startswith(root)]


def _canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha1(_canon(case).encode()).hexdigest()[:16]


@contextlib.contextmanager
def quiet():
    """Silence the warnings and the output of the code under test."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


class Sub:
    """One generated sub-check of a property.

    strategy : Hypothesis strategy of JSON-able cases.
    fn(case) : raises Violation, or returns (nontrivial, [labels]).
    quick / thorough : number of examples, per shard.
    """

    def __init__(self, name, strategy, fn, quick, thorough, rule, case_s=240, cpu_s=90, scale=True):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.case_s, self.cpu_s = case_s, cpu_s
        self.scale = scale      # False: costly cases, not multiplied in the quick tier


def run_case(sub, case):
    """Run one case. Violations of any kind come out as `Violation`."""
    def on_alarm(*_):
        raise HarnessTimeout("%s: case exceeded %d s" % (sub.name, sub.case_s))

    def on_prof(*_):
        # cases take a few seconds of processor time at most: this one does not end
        raise Endless("%s: the case does not finish within %d s of processor time" % (
            sub.name, sub.cpu_s))

    old = signal.signal(signal.SIGALRM, on_alarm)
    oldp = signal.signal(signal.SIGPROF, on_prof)
    signal.alarm(sub.case_s)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_s)
    try:
        with quiet():
            res = sub.fn(case)
        if res is None:
            res = (True, [])
        return res
    except Endless as e:
        raise Violation(str(e)) from e
    except (Violation, HypothesisException, StopTest, UnsatisfiedAssumption):
        raise
    except Exception as e:
        frames = sut_frames(e)
        if frames:
            f = frames[-1]
            raise Violation("unexpected %s: %s (raised through %s:%s in %s)" % (
                type(e).__name__, str(e)[:300], os.path.relpath(f.filename, REPO),
                f.lineno, f.name)) from e
        if isinstance(e, (MemoryError, OSError, ImportError)):
            raise
        # what the code under test returned cannot even be read as what it should be
        f = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("results cannot be interpreted: %s: %s (at %s:%s)" % (
            type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.lineno)) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        signal.signal(signal.SIGPROF, oldp)
        signal.signal(signal.SIGALRM, old)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []

    def add(self, sub, case, nontrivial, labels):
        self.evaluations += 1
        for l in set(labels):
            key = sub.name + ":" + l
            self.labels[key] = self.labels.get(key, 0) + 1
        if nontrivial:
            h = sub.name + case_hash(case)
            if h not in self.hashes:
                self.hashes.add(h)
                if sum(1 for s in self.samples if s["sub"] == sub.name) < 2:
                    text = _canon(case)
                    self.samples.append({"sub": sub.name, "labels": sorted(set(labels)),
                                         "case": case if len(text) < 3000 else text[:3000]})


def run_sub(sub, tier, seed, shard):
    """Generated-input search for one sub-check. Returns (stats, failure or None)."""
    stats = Stats()
    state = {"failed": None}

    def body(case):
        try:
            nontrivial, labels = run_case(sub, case)
        except Violation as e:
            state["failed"] = (case, str(e))
            raise
        if state["failed"] is None:
            stats.add(sub, case, nontrivial, labels)

    test = given(sub.strategy)(body)
    test = settings(max_examples=sub.n[tier], deadline=None, database=None,
                    derandomize=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    sid = int(hashlib.sha1(("%s/%d/%d" % (sub.name, seed, shard)).encode()).hexdigest()[:12], 16)
    test = hseed(sid)(test)
    failure = None
    try:
        with captured():
            test()
    except Violation as e:
        failure = state["failed"]
    except HypothesisException as e:
        # e.g. Flaky: the case failed once and cannot be reproduced
        if state["failed"] is not None:
            failure = (state["failed"][0], state["failed"][1] + " [%s]" % type(e).__name__)
        else:
            raise
    return stats, failure


def _shard_main(args):
    subs, tier, seed, shard = args
    out = {"stats": [], "failure": None, "error": None}
    try:
        for sub in subs:
            stats, failure = run_sub(sub, tier, seed, shard)
            out["stats"].append((stats.evaluations, stats.hashes, stats.labels, stats.samples))
            if failure is not None:
                out["failure"] = (sub.name,) + minimize(sub, *failure)
                break
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(e))[-6000:]
    return out


_SUBS = None


def _shard_entry(job):
    tier, seed, shard, names = job
    return _shard_main(([s for s in _SUBS if s.name in names], tier, seed, shard))


def minimize(sub, case, message, budget_s=45):
    """Greedy reduction of a failing case: drop elements of its lists while it still fails.

    Complements Hypothesis' shrinking for cases drawn in bulk. A reduction that makes the case
    invalid (any error other than a violation) is not taken.
    """
    t0 = time.time()
    if not isinstance(case, dict):
        return case, message

    def fails(c):
        try:
            with captured():
                run_case(sub, c)
        except Violation as e:
            return str(e)
        except BaseException:
            return None
        return None

    def comparable(m):
        # an invalid case (e.g. lists of different lengths) fails, but not for the same reason
        return m is not None and all(m.startswith(k) == message.startswith(k)
                                     for k in ("results cannot be interpreted", "unexpected "))

    keys = [k for k in ("ops", "fibers", "edges", "pairs", "clicks", "pool", "rows") if isinstance(case.get(k), list)]
    if not keys or fails(case) is None:
        return case, message
    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        for key in keys:
            k = len(case[key]) - 1
            while k >= 0 and time.time() - t0 < budget_s:
                if len(case[key]) > 1:
                    trial = dict(case, **{key: case[key][:k] + case[key][k + 1:]})
                    m = fails(trial)
                    if comparable(m):
                        case, message, progress = trial, m, True
                k -= 1
    return case, message


def load_known():
    """Known findings and fixed entries (committed file, never written by a check)."""
    entries = []
    with open(os.path.join(VERIF, "known_findings.txt")) as fp:
        for line in fp:
            line = line.strip()
            if line and not line.startswith("#"):
                entries.append(line)
    return entries


def corpus_cases(pid):
    """Saved regression cases (shrunk failures and hand-written corner cases)."""
    folder = os.path.join(VERIF, "corpus")
    out = []
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.startswith(pid + "-") and name.endswith(".json"):
                with open(os.path.join(folder, name)) as fp:
                    out.append(json.load(fp))
    return out


def write_replay(pid, subname, case, message):
    folder = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%s-%s.json" % (pid, subname, case_hash(case)[:8]))
    with open(path, "w") as fp:
        json.dump({"property": pid, "sub": subname, "case": case, "message": message}, fp, indent=1)
    return path


def main(pid, module, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=None)
    ap.add_argument("--only")
    opt = ap.parse_args(argv)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    load_sut()
    subs = module.subs()
    if opt.only:
        subs = [s for s in subs if s.name in opt.only.split(",")]
    by_name = {s.name: s for s in subs}
    factor = {"P01": 4, "P04": 4, "P05": 3, "P06": 3, "P07": 2, "P08": 2, "P13": 2, "P15": 2, "P16": 2,
              "P17": 2, "P18": 2, "P19": 2, "P20": 2, "P22": 2, "P24": 2, "P26": 5, "P27": 5, "P28": 3,
              "P30": 3, "P32": 4, "P33": 4, "P34": 3, "P35": 2, "P36": 3}.get(pid, 1)   # balances the cost of the quick checks
    for s in subs:
        if s.scale:
            s.n["quick"] *= factor
    known = getattr(module, "KNOWN", [])  # list of (id, fn) re-running each known finding

    if opt.replay:
        with open(opt.replay) as fp:
            rec = json.load(fp)
        try:
            run_case(by_name[rec["sub"]], rec["case"])
        except Violation as e:
            print("%s/%s: %s" % (pid, rec["sub"], e))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(opt.replay)))
            return 1
        print("%s/%s: the case passes" % (pid, rec["sub"]))
        return 0

    violations = []   # (sub, case, message)
    stats = Stats()
    regress = 0
    # 1. Regression tier: saved cases, run without Hypothesis
    for rec in corpus_cases(pid):
        if rec["sub"] not in by_name:
            continue
        regress += 1
        sub = by_name[rec["sub"]]
        try:
            with captured():
                nontrivial, labels = run_case(sub, rec["case"])
            stats.add(sub, rec["case"], nontrivial, list(labels) + ["corpus"])
        except Violation as e:
            violations.append((rec["sub"], rec["case"], str(e)))
    # 2. Known findings
    for line in load_known():
        if line.startswith("KNOWN-FINDING:") and ("property=%s " % pid) in line:
            for kid, fn in known:
                if ("id=%s " % kid) in line:
                    with quiet(), captured():
                        still = fn()
                    if still:
                        print(line)
                    else:
                        print("NOTE: known finding %s of %s does not show any more" % (kid, pid))
    # 3. Generated search, in deterministic shards
    nshards = opt.shards or getattr(module, "SHARDS", {}).get(opt.tier) or 8
    errors = []
    if not violations:
        global _SUBS
        _SUBS = subs
        jobs = [(opt.tier, seed, k, [s.name for s in subs]) for k in range(nshards)]
        if nshards == 1:
            results = [_shard_entry(jobs[0])]
        else:
            from concurrent.futures import ProcessPoolExecutor
            ctx = multiprocessing.get_context("fork")
            with ProcessPoolExecutor(min(nshards, 8), mp_context=ctx) as pool:
                results = list(pool.map(_shard_entry, jobs))
        for k, res in enumerate(results):
            for ev, hashes, labels, samples in res["stats"]:
                stats.evaluations += ev
                stats.hashes |= hashes
                for key, v in labels.items():
                    stats.labels[key] = stats.labels.get(key, 0) + v
                for s in samples:
                    if sum(1 for x in stats.samples if x["sub"] == s["sub"]) < 2:
                        stats.samples.append(s)
            if res["failure"]:
                violations.append(res["failure"])
            if res["error"]:
                errors.append((k, res["error"]))
    wall = time.time() - t0
    evidence = {
        "property": pid,
        "tier": opt.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.hashes),
            "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": stats.samples,
            "classes": dict(sorted(stats.labels.items())),
            "regression_cases": regress,
            "shards": nshards,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
        json.dump(evidence, fp, indent=1)
    if violations:
        # smallest reproduction first; one line per sub-check
        violations.sort(key=lambda v: len(_canon(v[1])))
        seen = set()
        for sub, case, message in violations:
            if sub in seen:
                continue
            seen.add(sub)
            path = write_replay(pid, sub, case, message)
            print("%s/%s: %s" % (pid, sub, message))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for k, err in errors[:1]:
            print("HARNESS ERROR in shard %d:\n%s" % (k, err), file=sys.stderr)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s [%s, seed %d]" % (
        pid, stats.evaluations, len(stats.hashes), wall, opt.tier, seed))
    return 0
