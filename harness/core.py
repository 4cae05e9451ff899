"""Driver: runs generated cases of a property's sub-checks in forked workers.

A property module defines ``PROPERTY``, ``RULE`` and ``SUBS`` (a list of Sub).  A Sub pairs a
Hypothesis strategy that yields JSON-able cases with a check function.  The check function raises
on a violation and returns an iterable of labels; the label "nt" marks a non-trivial case.
"""
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Callable, Any, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")


class Violation(AssertionError):
    pass


class HarnessError(BaseException):
    """The harness itself is broken (never reported as a violation)."""


class _Abort(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


@dataclass
class Sub:
    name: str
    strategy: Any            # callable returning a strategy, or a strategy
    check: Callable[[Any], Any]
    quick: int = 400         # cases per run, quick tier
    thorough: int = 0        # 0 -> 15 * quick
    shards: int = 4          # quick tier shards
    case_timeout: float = 120.0
    examples: List[Any] = field(default_factory=list)  # fixed boundary cases, always run

    def n_cases(self, tier):
        if tier == "thorough":
            return self.thorough or 15 * self.quick
        return self.quick

    def n_shards(self, tier):
        return self.shards if tier == "quick" else max(self.shards, 8)


def require(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def seed_all(s):
    """Pin every RNG the library may draw from; s comes from the generated case."""
    import random
    import numpy as np
    import torch

    random.seed(s)
    np.random.seed(s % (2 ** 32))
    torch.manual_seed(s)


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


class _Recorder:
    def __init__(self, sub, deadline, shrink_budget):
        self.sub, self.deadline, self.shrink_budget = sub, deadline, shrink_budget
        self.evals = 0
        self.hashes = set()
        self.labels = Counter()
        self.samples = []
        self.best = None      # (size, case, error)
        self.first_fail_t = None
        self.stopped = False
        self.sample_at = {3, 17, 90}

    def run_case(self, case):
        now = time.time()
        if self.best is not None and now - self.first_fail_t > self.shrink_budget:
            raise _Abort()
        if self.best is None and now > self.deadline:
            self.stopped = True
            raise _Abort()
        text = canon(case)
        try:
            labels = run_one(self.sub, json.loads(text))
        except _CaseTimeout:
            err = "the call did not return within %.0f s" % self.sub.case_timeout
            self._failed(text, err)
            raise _Abort()
        except Exception:
            err = traceback.format_exc(limit=-6)
            self._failed(text, err)
            raise
        self.evals += 1
        self.labels.update(labels)
        if "nt" in labels:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.hashes) in self.sample_at:
                    self.samples.append(text if len(text) < 1500 else text[:1500] + "...")

    def _failed(self, text, err):
        if self.first_fail_t is None:
            self.first_fail_t = time.time()
        if self.best is None or len(text) <= self.best[0]:
            self.best = (len(text), text, err)


def run_one(sub, case):
    """Run one case under an alarm; returns the set of labels."""
    def onalarm(sig, frm):
        raise _CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, sub.case_timeout)
    try:
        seed_all(12345)
        labels = sub.check(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return set(labels or ())


def run_shard(sub, seed, n, deadline, shrink_budget, with_examples):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    rec = _Recorder(sub, deadline, shrink_budget)
    if with_examples:
        for ex in sub.examples:
            try:
                rec.run_case(ex)
            except _Abort:
                return rec
            except Exception:
                return rec
    strat = sub.strategy() if callable(sub.strategy) else sub.strategy

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
              report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet)
    @given(strat)
    def test(case):
        rec.run_case(case)

    try:
        test()
    except _Abort:
        pass
    except Exception:
        if rec.best is None:
            raise HarnessError(traceback.format_exc())
    return rec


def _worker(sub, seed, n, deadline, shrink_budget, with_examples, path):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        rec = run_shard(sub, seed, n, deadline, shrink_budget, with_examples)
        out = dict(evals=rec.evals, hashes=rec.hashes, labels=rec.labels, samples=rec.samples,
                   best=rec.best, stopped=rec.stopped)
    except BaseException:
        out = dict(harness_error=traceback.format_exc())
    with open(path + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.replace(path + ".tmp", path)
    os._exit(0)


def load_known():
    """known_findings.jsonl: one JSON object a line; status "known" or "fixed"."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out


def run_property(mod, tier, seed, scratch):
    t0 = time.time()
    pid = mod.PROPERTY
    budget = float(os.environ.get("VERIF_BUDGET", "400" if tier == "quick" else "840"))
    only = os.environ.get("VERIF_SUB")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    deadline = t0 + budget
    shrink_budget = 20 if tier == "quick" else 60
    tasks = []
    known_cases = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        shards = sub.n_shards(tier)
        total = max(1, int(sub.n_cases(tier) * scale))
        shards = min(shards, total)
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            sd = int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{sub.name}/{s}".encode()).digest()[:8], "big")
            tasks.append((sub, sd, n, s == 0))
    # long shards first so that the pool drains evenly
    ctx = mp.get_context("fork")
    nproc = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    failed = None
    sys.stdout.flush()
    sys.stderr.flush()
    while pending or running:
        while pending and len(running) < nproc:
            i, (sub, sd, n, ex) = pending.pop(0)
            path = os.path.join(scratch, f"res{i}.pkl")
            pr = ctx.Process(target=_worker, args=(sub, sd, n, deadline, shrink_budget, ex, path))
            pr.start()
            running[i] = (pr, path)
        time.sleep(0.02)
        for i in list(running):
            pr, path = running[i]
            if pr.is_alive():
                continue
            pr.join()
            del running[i]
            if not os.path.exists(path):
                results[i] = dict(harness_error=f"worker for {tasks[i][0].name} died with exit code {pr.exitcode}")
            else:
                with open(path, "rb") as f:
                    results[i] = pickle.load(f)
                os.unlink(path)
            if results[i].get("best") and failed is None:
                failed = i
                pending = []
                for j, (q, _) in running.items():
                    q.terminate()
                for j, (q, _) in list(running.items()):
                    q.join()
                running = {}
                break
    # aggregate
    evals = 0
    hashes, labels, samples, stopped = set(), {}, [], False
    errors = []
    for i, r in sorted(results.items()):
        if "harness_error" in r:
            errors.append(r["harness_error"])
            continue
        name = tasks[i][0].name
        evals += r["evals"]
        hashes |= {(name, h) for h in r["hashes"]}
        d = labels.setdefault(name, Counter())
        d.update(r["labels"])
        d["_cases"] += r["evals"]
        for s in r["samples"][:1]:
            if sum(1 for x in samples if x.startswith(name + ": ")) < 2:
                samples.append(f"{name}: {s}")
        stopped |= r["stopped"]
    # known findings: replay the listed input; still failing -> KNOWN-FINDING
    kf_lines = []
    for k in known_cases:
        sub = next((s for s in mod.SUBS if s.name == k["sub"]), None)
        if sub is None:
            errors.append("known finding for an unknown sub-check: %s" % k)
            continue
        try:
            (getattr(mod, "KNOWN", {}).get(k["id"]) or sub.check)(k["case"])
        except Exception:
            kf_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    violations = 0
    replay = None
    if failed is not None:
        violations = 1
        size, text, err = results[failed]["best"]
        os.makedirs(REPLAYS, exist_ok=True)
        replay = os.path.join(REPLAYS, f"{pid}-{tasks[failed][0].name}.json")
        with open(replay, "w") as f:
            json.dump(dict(property=pid, sub=tasks[failed][0].name, case=json.loads(text), error=err), f, indent=1)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=mod.RULE,
                            samples=samples or ["(none)"],
                            labels={k: dict(v) for k, v in labels.items()},
                            sub_checks=[s.name for s in mod.SUBS],
                            stopped_by_time_budget=stopped,
                            known_findings=len(kf_lines)),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in kf_lines:
        print(l)
    if failed is not None:
        print("\n".join(results[failed]["best"][2].strip().splitlines()[-12:]))
        print("minimal case:", results[failed]["best"][1][:2000])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if errors:
        print("HARNESS ERROR", errors[0], file=sys.stderr)
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={evals} nontrivial={len(hashes)} "
          f"wall={ev['wall_s']}s{' (stopped by time budget)' if stopped else ''}")
    return 0


def replay_file(mod, path):
    data = json.load(open(path))
    sub = next(s for s in mod.SUBS if s.name == data["sub"])
    try:
        run_one(sub, data["case"])
    except _CaseTimeout:
        print("the call did not return in time")
    except Exception:
        traceback.print_exc()
    else:
        print("replay: property holds on this case")
        return 0
    print(f"VIOLATION property={mod.PROPERTY} replay={path}")
    return 1
