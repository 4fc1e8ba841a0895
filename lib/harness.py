"""Generated-input search with explicit oracles: the runner behind every check.

A check module registers *facets*.  A facet is a hypothesis strategy producing a
JSON-serialisable case, and an oracle function `f(case, rec)` that raises `Violation`
(via `rec.fail` / `rec.check` / `rec.close`) if the property is broken for that case.
Cases are plain data, so a shrunk failure is a replay file which bypasses hypothesis.
"""
from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

from . import paths  # noqa: F401  (environment first)

import hypothesis
from hypothesis import HealthCheck, Phase, settings, seed as hseed, given

import numpy as np


class Violation(Exception):
    """The property is broken for the current case.

    key: narrow identifier of the failing input class / call site, matched against the
    known-findings file.
    """

    def __init__(self, message: str, key: str | None = None):
        super().__init__(message)
        self.key = key


class KnownFinding(Exception):
    def __init__(self, key: str):
        super().__init__(key)
        self.key = key


def _default(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(f"case contains unserialisable {type(o)}")


def dumps(case) -> str:
    return json.dumps(case, sort_keys=True, default=_default)


class Recorder:
    """Handed to oracles: classification, assertions and tolerant comparisons."""

    def __init__(self, known: set[str]):
        self.known = known
        self.is_nontrivial = False
        self.finding_key: str | None = None
        self.classes: list[str] = []

    def nontrivial(self, flag: bool = True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def cls(self, label: str, flag: bool = True):
        if flag:
            self.classes.append(label)

    def fail(self, message: str, key: str | None = None):
        if key is not None and key in self.known:
            raise KnownFinding(key)
        raise Violation(message, key)

    def finding(self, message: str, key: str):
        """A recorded finding that does not keep the rest of the case from being judged."""
        if key not in self.known:
            raise Violation(message, key)
        self.finding_key = key

    def check(self, cond, message: str, key: str | None = None):
        if not bool(cond):
            self.fail(message, key)

    def equal(self, actual, expected, message: str, key: str | None = None):
        same = False
        try:
            if isinstance(actual, np.ndarray) or isinstance(expected, np.ndarray):
                a, e = np.asarray(actual), np.asarray(expected)
                same = a.shape == e.shape and bool(np.all(a == e))
            else:
                same = bool(actual == expected)
        except Exception as exc:  # pragma: no cover - uncomparable
            self.fail(f"{message}: comparison failed {exc!r}", key)
        if not same:
            self.fail(f"{message}: got {_short(actual)}, expected {_short(expected)}", key)

    def close(self, actual, expected, message: str, *, rtol=1e-7, atol=None, scale=None, key=None):
        """Elementwise |actual-expected| <= rtol*scale (scale: max magnitude involved)."""
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape:
            self.fail(f"{message}: shape {a.shape}, expected {e.shape}", key)
        if a.size == 0:
            return
        if not (np.all(np.isfinite(a) == np.isfinite(e))):
            self.fail(f"{message}: finite pattern differs {_short(a)} vs {_short(e)}", key)
        fin = np.isfinite(e)
        if not np.any(fin):
            return
        a, e = a[fin], e[fin]
        if scale is None:
            scale = max(float(np.max(np.abs(e))), float(np.max(np.abs(a))))
        tol = rtol * scale + (1e-12 if atol is None else atol)
        err = float(np.max(np.abs(a - e)))
        if not err <= tol:
            self.fail(f"{message}: max error {err:.3e} > {tol:.3e}; got {_short(a)}, expected {_short(e)}", key)


def _short(x, n=240):
    try:
        s = np.array2string(x, threshold=12, precision=6) if isinstance(x, np.ndarray) else repr(x)
    except Exception:
        s = "<unprintable>"
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


@dataclass
class Facet:
    name: str
    strategy: Any
    func: Callable
    quick: int
    thorough: int
    rule: str
    shards: int = 1
    explicit: list = field(default_factory=list)
    exhaustive: list | None = None


class Check:
    def __init__(self, prop: str, title: str = "", assumptions: list[str] | None = None, level="exploration"):
        self.prop = prop
        self.title = title
        self.facets: dict[str, Facet] = {}
        self.assumptions = assumptions or []
        self.level = level
        self.teardown: Callable | None = None  # run by each worker process before it ends

    def facet(self, name, strategy, quick=100, thorough=None, rule="", shards=1, explicit=None):
        """Register an oracle.

        quick/thorough: number of generated cases. shards: independent seeds in parallel
        processes. explicit: cases always run first (corner cases, regressions).
        """

        def deco(func):
            self.facets[name] = Facet(
                name, strategy, func, quick, thorough or quick * 15, rule, shards, explicit or []
            )
            return func

        return deco


# ----------------------------------------------------------------------------------


def load_known(prop: str) -> list[dict]:
    path = os.path.join(paths.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or not line.startswith("{"):
                    continue
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "open":
                    out.append(e)
    return out


class HarnessError(Exception):
    pass


_FATAL = (MemoryError, KeyboardInterrupt, SystemExit, HarnessError)


def run_case(facet: Facet, case: Any, known: set[str]) -> tuple[Recorder, str | None, str | None, str | None]:
    """Returns recorder, violation message or None, key, known-finding key"""
    rec = Recorder(known)
    np.random.seed(0)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                facet.func(case, rec)
    except Violation as v:
        return rec, str(v), v.key, None
    except KnownFinding as k:
        return rec, None, None, k.key
    except _FATAL:
        raise
    except (hypothesis.errors.HypothesisException,):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(os.path.join(paths.REPO, "hermespy"))]
        where = inside[-1] if inside else tb[-1]
        if isinstance(e, (ImportError, NameError)) and not inside:
            raise HarnessError("".join(traceback.format_exception(e))) from e
        if isinstance(e, OSError) and e.errno in (28, 24, 12):
            raise HarnessError("".join(traceback.format_exception(e))) from e
        key = f"exc:{type(e).__name__}:{os.path.basename(where.filename)}:{where.name}"
        msg = (
            f"{type(e).__name__}: {e} raised in {os.path.relpath(where.filename, paths.REPO)}"
            f":{where.lineno} ({where.name}) for an input inside the property's domain"
        )
        if key in known:
            return rec, None, None, key
        return rec, msg, key, None
    return rec, None, None, rec.finding_key


def run_facet(check: Check, facet_name: str, tier: str, seed: int, shard: int, shards: int, budget_s: float, known: set[str]):
    facet = check.facets[facet_name]
    total = facet.quick if tier == "quick" else facet.thorough
    n = max(1, total // shards)
    st = dict(
        facet=facet_name, shard=shard, evaluations=0, skipped=0, classes=Counter(), samples=[], known=Counter(),
        nontrivial=set(), failure=None, error=None, wall=0.0,
    )
    t0 = time.monotonic()
    fails: dict[str, tuple[Any, str, str | None]] = {}
    order: list[str] = []
    first_fail = [None]
    done_fail_budget = 60.0 if tier == "quick" else 240.0

    def execute(case):
        h = hashlib.sha1(dumps(case).encode()).hexdigest()
        now = time.monotonic()
        if first_fail[0] is not None and now - first_fail[0] > done_fail_budget and h not in fails:
            return
        if first_fail[0] is None and now - t0 > budget_s:
            st["skipped"] += 1
            return
        st["evaluations"] += 1
        rec, msg, key, kf = run_case(facet, case, known)
        if kf is not None:
            st["known"][kf] += 1
            if rec.finding_key is None:
                return
        for c in rec.classes:
            st["classes"][c] += 1
        if rec.is_nontrivial:
            if h not in st["nontrivial"] and len(st["samples"]) < 3 and (st["evaluations"] % 7 == 3 or st["evaluations"] > n // 2):
                st["samples"].append(case)
            st["nontrivial"].add(h)
        if msg is not None:
            if first_fail[0] is None:
                first_fail[0] = now
            fails[h] = (case, msg, key)
            if h in order:
                order.remove(h)
            order.append(h)
            raise Violation(msg, key)

    try:
        failed = False
        if shard == 0:
            for case in facet.explicit:
                try:
                    execute(json.loads(dumps(case)))
                except Violation:
                    failed = True
                    break
        if not failed and facet.strategy is not None:

            @hseed(seed * 1009 + shard)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example, HealthCheck.filter_too_much],
                phases=[Phase.generate, Phase.shrink],
                verbosity=hypothesis.Verbosity.quiet,
            )
            @given(facet.strategy)
            def test(case):
                execute(case)

            try:
                test()
            except Violation:
                failed = True
            except hypothesis.errors.Flaky:
                failed = True
            except BaseExceptionGroup as eg:  # pragma: no cover
                if fails:
                    failed = True
                else:
                    raise eg
        if failed and not fails:
            raise HarnessError("failure reported without failing case")
        if fails:
            # the last failing case hypothesis settled on, or the shortest known
            pick = order[-1]
            best = min(order, key=lambda k: len(dumps(fails[k][0])))
            if len(dumps(fails[best][0])) < len(dumps(fails[pick][0])):
                pick = best
            case, msg, key = fails[pick]
            st["failure"] = dict(case=json.loads(dumps(case)), message=msg, key=key)
    except BaseException as e:
        st["error"] = "".join(traceback.format_exception(e))
    st["nontrivial"] = list(st["nontrivial"])
    st["wall"] = time.monotonic() - t0
    st["samples"] = json.loads(dumps(st["samples"]))
    st["classes"] = dict(st["classes"])
    st["known"] = dict(st["known"])
    return st


def _worker(args):
    check, name, tier, seed, shard, shards, budget, known = args
    return run_facet(check, name, tier, seed, shard, shards, budget, known)


_CHECK: Check | None = None


def _init(quiet):
    # hermespy prints; keep workers silent, results travel via return values
    if quiet:
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")


def _task(args):
    name, tier, seed, shard, shards, budget, known = args
    return run_facet(_CHECK, name, tier, seed, shard, shards, budget, known)


def _timeout_worker(conn, args):
    _init(os.environ.get("HV_VERBOSE") is None)
    try:
        conn.send(_task(args))
    finally:
        conn.close()
        if _CHECK is not None and _CHECK.teardown is not None:
            _CHECK.teardown()


def main(check: Check, argv: list[str]) -> int:
    import argparse
    import multiprocessing as mp

    global _CHECK
    _CHECK = check
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--facet", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-known", action="store_true", help="ignore the known-findings file")
    ns = ap.parse_args(argv)

    known_entries = [] if ns.no_known else load_known(check.prop)
    known = {e["key"] for e in known_entries}
    evdir = os.path.join(paths.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)

    if ns.replay:
        with open(ns.replay) as f:
            r = json.load(f)
        rec, msg, key, kf = run_case(check.facets[r["facet"]], r["case"], set())
        print(f"replay facet={r['facet']} key={key}: {'VIOLATED: ' + msg if msg else 'holds'}")
        if msg:
            print(f"VIOLATION property={check.prop} replay={ns.replay}")
        return 1 if msg else 0

    t0 = time.monotonic()
    kf_seen = {}
    for e in known_entries:
        facet = check.facets.get(e["facet"])
        if facet is None:
            print(f"harness error: known finding names unknown facet {e['facet']}", file=sys.stderr)
            return 2
        rec, msg, key, kf = run_case(facet, e["case"], {e["key"]})
        if kf == e["key"]:
            print(f"KNOWN-FINDING: property={check.prop} {e['key']}: {e['what']}", flush=True)
            kf_seen[e["key"]] = True

    names = ns.facet or list(check.facets)
    tasks = []
    total_budget = 600.0 if ns.tier == "quick" else 3.0 * 3600
    for name in names:
        f = check.facets[name]
        if ns.scale != 1.0:
            f.quick = max(1, int(f.quick * ns.scale))
            f.thorough = max(1, int(f.thorough * ns.scale))
        shards = f.shards if ns.tier == "quick" else max(f.shards, 8)
        if (f.quick if ns.tier == "quick" else f.thorough) < shards * 2:
            shards = 1
        for s in range(shards):
            tasks.append((name, ns.tier, ns.seed, s, shards, total_budget, known))
    # facets with more cases per shard first is only a scheduling hint
    results = []
    ctx = mp.get_context("fork")
    pending = list(tasks)
    running = []
    hard_limit = (840.0 if ns.tier == "quick" else 4 * 3600.0)
    while pending or running:
        while pending and len(running) < ns.jobs:
            t = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_timeout_worker, args=(b, t))
            p.start()
            b.close()
            running.append((p, a, t))
        ready = mp.connection.wait([a for _, a, _ in running], timeout=1.0)
        still = []
        for p, a, t in running:
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    p.join()
                    results.append(dict(facet=t[0], shard=t[3], evaluations=0, skipped=0, classes={}, samples=[], known={}, nontrivial=[], failure=None, error=f"worker died, exit code {p.exitcode}", wall=0))
                a.close()
                p.join()
            else:
                still.append((p, a, t))
        running = still
        if time.monotonic() - t0 > hard_limit:
            for p, a, t in running:
                p.kill()
                results.append(dict(facet=t[0], shard=t[3], evaluations=0, skipped=0, classes={}, samples=[], known={}, nontrivial=[], failure=None, error="hard time limit", wall=0))
            running, pending = [], []

    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]

    # evidence -----------------------------------------------------------------
    per = {}
    nontriv = set()
    evaluations = 0
    kfc = Counter()
    for r in results:
        f = check.facets[r["facet"]]
        d = per.setdefault(r["facet"], dict(evaluations=0, distinct_nontrivial=0, skipped_out_of_time=0, rule=f.rule, classes=Counter(), samples=[], cpu_s=0.0))
        d["evaluations"] += r["evaluations"]
        d["skipped_out_of_time"] += r["skipped"]
        d["cpu_s"] = round(d["cpu_s"] + r["wall"], 2)
        d["classes"].update(r["classes"])
        new = {r["facet"] + ":" + h for h in r["nontrivial"]} - nontriv
        nontriv |= new
        d["distinct_nontrivial"] += len(new)
        evaluations += r["evaluations"]
        kfc.update(r["known"])
        if len(d["samples"]) < 3:
            d["samples"].extend(r["samples"][: 3 - len(d["samples"])])
    samples = []
    for name, d in per.items():
        d["classes"] = dict(sorted(d["classes"].items()))
        for s in d.pop("samples"):
            samples.append(dict(facet=name, case=s))
    evidence = dict(
        property=check.prop,
        tier=ns.tier,
        seed=ns.seed,
        level=check.level,
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(nontriv),
            rule="Each facet draws cases from a hypothesis strategy seeded by VERIF_SEED; a case is non-trivial by its facet's rule: "
            + "; ".join(f"[{n}] {check.facets[n].rule}" for n in per),
            samples=samples or [dict(note="no non-trivial sample recorded")],
            facets=per,
            known_finding_hits=dict(kfc),
        ),
        assumptions=check.assumptions,
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(failures),
    )
    if not ns.facet and ns.scale == 1.0 or os.environ.get("HV_WRITE"):
        with open(os.path.join(evdir, f"{check.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=_default)

    for name, d in per.items():
        print(f"[{check.prop}] {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, {d['cpu_s']} s {d['classes'] if os.environ.get('HV_CLASSES') else ''}"
              + (f" ({d['skipped_out_of_time']} skipped: out of time)" if d["skipped_out_of_time"] else ""))
    if kfc:
        print(f"[{check.prop}] cases excluded by known findings: {dict(kfc)}")
    print(f"[{check.prop}] total {evaluations} cases, {len(nontriv)} distinct non-trivial, wall {time.monotonic() - t0:.1f} s, seed {ns.seed}, tier {ns.tier}")

    rc = 0
    if failures:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        failures.sort(key=lambda r: (r["facet"], len(dumps(r["failure"]["case"]))))
        for r in failures:
            if r["facet"] in seen:
                continue
            seen.add(r["facet"])
            h = hashlib.sha1(dumps(r["failure"]).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{check.prop}_{r['facet']}_{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=check.prop, facet=r["facet"], **r["failure"]), f, indent=1)
            print(f"  facet {r['facet']} key={r['failure']['key']}: {r['failure']['message']}")
            c = dumps(r["failure"]["case"])
            print(f"  shrunk case: {c[:600]}")
            print(f"VIOLATION property={check.prop} replay={path}", flush=True)
        rc = 1
    if errors:
        for r in errors:
            print(f"harness error in facet {r['facet']}:\n{r['error']}", file=sys.stderr)
        if rc == 0:
            rc = 2
    return rc
