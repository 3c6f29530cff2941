"""Runs one property's monitor over many seeded cases and reports the verdict.

Verdicts: violated (exit 1 and a VIOLATION line with a replayable witness),
held on what was observed (exit 0), inconclusive (exit 3: the monitor was not
reached often enough to say anything).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
CASE_CPU_S = 120


class CaseTimeout(BaseException):
    pass


class Ctx:
    """What one case may use and report."""

    def __init__(self, prop, seed, index, tier):
        self.prop, self.index, self.tier = prop, index, tier
        self.seed = f"{seed}:{prop}:{index}"
        self.rng = random.Random(self.seed)
        self.evals = 0
        self.counters = {}
        self.distinct = set()
        self.fails = []
        self.samples, self.fallback = [], []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observed(self, key=None, n=1):
        """n oracle evaluations; key identifies a non-trivial observation."""
        self.evals += n
        if key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
            if not self.fallback:
                self.fallback.append({"observed": repr(key)[:600]})

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:600])

    def fail(self, what, **detail):
        if len(self.fails) < 5:
            self.fails.append({"what": what, "detail": {k: clip(v) for k, v in detail.items()}})

    def check(self, cond, what, **detail):
        self.evals += 1
        if not cond:
            self.fail(what, **detail)
        return bool(cond)


def clip(v, n=6000):
    if isinstance(v, (int, float, bool, type(None))):
        return v
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + f"... ({len(s)} chars)"


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, seed, index, tier):
    ctx = Ctx(mod.PROP, seed, index, tier)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
    random.seed(ctx.seed)
    try:
        mod.case(ctx)
    except CaseTimeout:
        ctx.fail("no result within the CPU budget of a case")
    except Exception as e:
        ctx.fail(f"unexpected {type(e).__name__}: {str(e)[:300]}", cause=repr(e.__cause__), trace=traceback.format_exc()[-3500:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {"index": index, "evals": ctx.evals, "counters": ctx.counters, "distinct": sorted(ctx.distinct),
            "fails": ctx.fails, "samples": ctx.samples or ctx.fallback}


_MOD = None


def _init(name):
    global _MOD
    _MOD = importlib.import_module(name)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    # warnings of the code under test are not part of any verdict
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.stderr = devnull


def _work(args):
    seed, index, tier = args
    return run_case(_MOD, seed, index, tier)


def load_known():
    with open(KNOWN) as f:
        return json.load(f)


def main(prop, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    name = f"harness.checks.{prop.lower()}"
    mod = importlib.import_module(name)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        if "case" in r:
            out = run_case(mod, r["seed"], r["case"], r["tier"])
            print(json.dumps(out["fails"], indent=1))
            return 1 if out["fails"] else 0
        return 0
    n = mod.N_QUICK if tier == "quick" else mod.N_THOROUGH
    wall = 600 if tier == "quick" else 780
    results, cut = [], False
    jobs = min(getattr(mod, "JOBS", 8), n) or 1
    with mp.get_context("fork").Pool(jobs, initializer=_init, initargs=(name,),
                                     maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 40)) as pool:
        it = pool.imap_unordered(_work, [(seed, i, tier) for i in range(n)], chunksize=1)
        for _ in range(n):
            left = wall - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(left, 0.1)))
            except mp.TimeoutError:
                cut = True
                break
        pool.terminate()
    results.sort(key=lambda r: r["index"])
    evals = sum(r["evals"] for r in results)
    counters, distinct, samples, violations = {}, set(), [], []
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r["distinct"])
        if len(samples) < 3:
            samples += r["samples"]
        if r["fails"]:
            violations.append({"seed": seed, "case": r["index"], "tier": tier, "fails": r["fails"]})

    # probes of recorded findings: they must keep failing exactly as recorded
    known_lines = []
    entries = [e for e in load_known()["findings"] if e["property"] == prop and e.get("status", "open") == "open"]
    for e in entries:
        probe = getattr(mod, "PROBES", {}).get(e["id"])
        if probe is None:
            print(f"check error: no probe for known finding {e['id']}")
            return 3
        try:
            got = probe()
        except Exception as exc:
            got = f"unexpected {type(exc).__name__}: {exc}"
        counters["known_finding_probes"] = counters.get("known_finding_probes", 0) + 1
        if got is None:
            known_lines.append(f"NOTE: known finding {e['id']} of {prop} no longer reproduces")
        elif e["signature"] in got:
            known_lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
        else:
            violations.append({"seed": seed, "probe": e["id"], "tier": tier,
                               "fails": [{"what": "a recorded finding now fails differently", "detail": {"got": got, "recorded": e["signature"]}}]})
    # regression probes: inputs which must work (repaired defects, pinned scenarios)
    for pid, probe in getattr(mod, "REGRESSIONS", {}).items():
        try:
            got = probe()
        except Exception as exc:
            got = f"unexpected {type(exc).__name__}: {exc}\n{traceback.format_exc()[-2500:]}"
        evals += 1
        counters["pinned_scenarios"] = counters.get("pinned_scenarios", 0) + 1
        if got is not None:
            violations.append({"seed": seed, "regression": pid, "tier": tier,
                               "fails": [{"what": f"pinned scenario {pid}", "detail": {"got": clip(got)}}]})

    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                     "samples": samples or ["none"], "cases": len(results), "planned_cases": n,
                     "observed": dict(sorted(counters.items()))},
        "violations": len(violations), "wall_s": round(time.time() - t0, 2),
    }
    ev["known_findings"] = [e["id"] for e in entries]
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    print(f"{prop} {tier} seed={seed}: {len(results)}/{n} cases, {evals} evaluations, {len(distinct)} distinct, "
          f"{len(violations)} violating, {ev['wall_s']}s")
    print("observed: " + json.dumps(ev["coverage"]["observed"]))
    if violations:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, v in enumerate(violations[:5]):
            p = os.path.join(rdir, f"{prop}-{tier}-{v.get('case', v.get('probe', v.get('regression')))}.json")
            with open(p, "w") as f:
                json.dump({"property": prop, **v}, f, indent=1)
            print(f"  witness: {v['fails'][0]['what']}  {json.dumps(v['fails'][0]['detail'])[:700]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    missing = [f"{k}={counters.get(k, 0)}<{v}" for k, v in getattr(mod, "REQUIRE", {}).items() if counters.get(k, 0) < v]
    if cut and len(results) < n // 4:
        missing.append(f"only {len(results)} of {n} cases ran")
    if missing or not evals or not distinct:
        print("inconclusive: " + ", ".join(missing or ["nothing observed"]))
        return 3
    return 0


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(main(a.prop, a.tier, a.replay))
