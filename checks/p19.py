"""P19 Monte Carlo simulations."""
import contextlib
import io
import os
import re
import shutil
import signal
import tempfile
import time

import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat
from scipy.stats import norm

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.core import ConsoleMode, dB
from hermespy.core.logarithmic import ValueType
from hermespy.core.pymonte import ArtifactTemplate, GridDimension, MonteCarlo, SamplePoint, ScalarEvaluator
from hermespy.core.pymonte.actors import MonteCarloQueueManager
from hermespy.core.pymonte.artifact import Artifact
from hermespy.core.pymonte.grid import GridDimensionInfo, ScalarDimension
from hermespy.core.pymonte.monte_carlo import MonteCarloResult
from checks import p19_objects as O

check = Check("P19", "Monte Carlo simulations sample every grid section and average its artifacts")


# -- distribution of sections to actors -------------------------------------------------


def info(n, title="d", scale="linear", fmt=ValueType.LIN, values=None):
    return GridDimensionInfo([SamplePoint(float(v)) for v in (range(n) if values is None else values)], title, scale, fmt)


@check.facet(
    "queue",
    R(dims=st.lists(st.integers(1, 5), max_size=3), n=st.integers(1, 12), batch=st.sampled_from([None, None, 1, 2, 3, 7, 20, 200]), disable=st.lists(st.tuples(st.integers(0, 30), st.integers(0, 124)), max_size=8), limit=st.integers(0, 3)),
    quick=800, thorough=30000, shards=2,
    rule="at least two sections, sections disabled while being distributed",
)
def queue(c, r):
    dims = c["dims"]
    grid = [info(n) for n in dims]
    m = MonteCarloQueueManager(grid, c["n"], c["batch"])
    shape = tuple(dims) if dims else (1,)
    sections = list(np.ndindex(*dims)) if dims else [()]
    count = {s: 0 for s in sections}
    off = set()
    pending = {}
    for at, w in c["disable"]:
        pending.setdefault(at, []).append(sections[w % len(sections)])
    used = False
    step = 0
    while True:
        for s in pending.pop(step, []):
            if dims:
                m.disable_section(s)
                if count[s] < c["n"]:
                    used = True
                off.add(s)
        progress, flags = m.query_progress()
        act = [s for s in sections if s not in off and count[s] < c["n"]]
        expected = 1.0 if not act else sum(count[s] if s in act else c["n"] for s in sections) / (len(sections) * c["n"])
        r.close(progress, expected, "progress of the distribution", rtol=1e-12)
        if dims:
            r.equal(np.asarray(flags).astype(bool), np.array([s in act for s in sections]).reshape(shape), "map of active sections")
        batch = [tuple(int(x) for x in b) for b in m.next_batch()]
        if not batch:
            r.check(not act, f"no batch although sections {act[:3]} miss samples")
            break
        r.check(len(batch) <= (c["batch"] or len(sections)), "size of a batch")
        for s in batch:
            r.check(s in count, f"unknown section {s}")
            r.check(s not in off, f"disabled section {s} distributed")
            count[s] += 1
            r.check(count[s] <= c["n"], f"section {s} distributed more often than the number of samples")
        step += 1
        r.check(step <= len(sections) * c["n"] + 2, "distribution ends")
    for s in sections:
        if s not in off:
            r.equal(count[s], c["n"], f"number of samples distributed for section {s}")
    r.equal(m.next_batch(), [], "exhausted")
    r.equal(float(m.query_progress()[0]), 1.0, "complete progress")
    r.nontrivial(len(sections) > 1 and used)
    r.cls(f"{len(dims)} dimensions")


RAY_DIR = "/tmp/hvray"

# -- reconfiguration and stage execution within an actor -----------------------------------


class _Call:
    def __init__(self, f):
        self.f = f

    def remote(self, *a):
        return self.f(*a)


class _Queue:
    def __init__(self, batches, put):
        self.batches, self.put = list(batches), put
        self.next_batch = _Call(lambda: self.put(self.batches.pop(0) if self.batches else []))


def ray_up():
    import logging
    import ray

    if not ray.is_initialized():
        ray.init(
            num_cpus=4, include_dashboard=False, logging_level=logging.ERROR, log_to_driver=False, object_store_memory=150 * 2**20,
            configure_logging=False, _temp_dir=RAY_DIR + str(os.getpid()),
        )
    return ray


def ray_down():
    import sys

    if "ray" in sys.modules:
        import ray

        if ray.is_initialized():
            ray.shutdown()
    shutil.rmtree(RAY_DIR + str(os.getpid()), ignore_errors=True)


check.teardown = ray_down


@contextlib.contextmanager
def deadline(r, seconds, what):
    def expire(*_):
        raise TimeoutError(what)

    old = signal.signal(signal.SIGALRM, expire)
    signal.alarm(seconds)
    try:
        yield
    except TimeoutError as e:
        if str(e) != what:
            raise
        r.fail(f"{what} did not complete within {seconds} s")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@check.facet(
    "actor",
    R(
        names=st.lists(st.sampled_from("abcdefg"), min_size=1, max_size=4, unique=True), sizes=st.lists(st.integers(1, 3), min_size=4, max_size=4),
        batches=st.lists(st.lists(st.integers(0, 80), min_size=1, max_size=8), min_size=1, max_size=4), args=st.lists(st.integers(1, 3), min_size=O.NS, max_size=O.NS), use_args=st.booleans(),
    ),
    quick=250, thorough=6000,
    rule="several dimensions, at least one of them impacting only some stages",
)
def actor(c, r):
    ray = ray_up()
    o = O.Investigated()
    grid = [GridDimension(o, n, [7 * (i + 1) + j for j in range(s)]) for i, (n, s) in enumerate(zip(c["names"], c["sizes"]))]
    for g, n in zip(grid, c["names"]):
        f, l = O.IMPACTS[n]
        r.equal((g.first_impact, g.last_impact), (None if f is None else f"s{f}", None if l is None else f"s{l}"), "registered impacts")
    sizes = c["sizes"][: len(grid)]
    sections = list(np.ndindex(*sizes))
    batches = [[sections[i % len(sections)] for i in b] for b in c["batches"]]
    stage_args = {f"s{k}": [(10 * k + j,) for j in range(c["args"][k])] for k in range(O.NS)} if c["use_args"] else None
    partial = any(O.IMPACTS[n] != (None, None) for n in c["names"])
    r.nontrivial(len(grid) > 1 and partial)
    a = O.Actor(_Queue(batches, ray.put), (o, grid, [O.SnapshotEvaluator(o)]), 0, stage_args, False)
    a.run()
    got = [s for ref in a.fetch_results() for s in ray.get(ref)]
    r.equal(a.fetch_results(), [], "results are fetched once")
    flat = [s for b in batches for s in b]
    order = []
    for s in got:
        t = tuple(int(x) for x in s.grid_section)
        if not order or order[-1][0] != t or s.sample_index == 0:
            order.append((t, []))
        order[-1][1].append(s)
    r.equal([t for t, _ in order], flat, "samples belong to the distributed sections")
    before = None
    starts = set(np.cumsum([0] + [len(b) for b in batches]))
    for i, (t, ss) in enumerate(order):
        params = {n: grid[d].sample_points[x].value for d, (n, x) in enumerate(zip(c["names"], t))}
        r.equal([s.sample_index for s in ss], list(range(len(ss))), "sample indices")
        for s in ss:
            snap = s.artifacts[0]
            for k in range(O.NS):
                want = {n: params.get(n, 0) for n in O.visible(k)}
                r.equal({n: snap.out[k][n] for n in want}, want, f"parameters stage {k} was executed with")
        fresh = i in starts or order[i - 1][0] == t
        if fresh:
            runs = ss[0].artifacts[0].runs
            r.check(before is None or all(x > y for x, y in zip(runs, before)), "repeated sections are realized anew")
            if stage_args is not None:
                combos = [tuple(x[0] for x in s.artifacts[0].args) for s in ss]
                ref = [tuple(10 * k + j for k, j in enumerate(idx)) for idx in np.ndindex(*c["args"])]
                r.equal(combos, ref, "stage arguments")
            else:
                r.equal(len(ss), 1, "one sample per distributed section")
        before = ss[-1].artifacts[0].runs


# -- statistics ----------------------------------------------------------------------------


class NoScalar(Artifact):
    def __str__(self):
        return "none"

    def to_scalar(self):
        return None


class Ev(ScalarEvaluator):
    abbreviation = "EVA"
    title = "An evaluator"

    def evaluate(self):  # pragma: no cover
        raise NotImplementedError


@check.facet(
    "statistics",
    R(
        dims=st.lists(st.integers(1, 3), max_size=3), n=st.integers(0, 60), seed=seeds, mean=floats(-100, 100), std=st.sampled_from([0.0, 0.1, 1.0, 30.0]),
        tol=logfloats(1e-2, 1e2), delta=floats(0, 1), m=st.integers(2, 9), none=st.booleans(), conf=st.sampled_from([True, True, True, False]),
    ),
    quick=1500, thorough=60000, shards=2,
    rule="a section reaching the configured confidence",
)
def statistics(c, r):
    g = np.random.default_rng(c["seed"])
    ev = Ev(c["delta"], c["tol"], c["m"])
    r.equal((ev.confidence, ev.tolerance, ev.min_num_samples), (c["delta"], c["tol"], c["m"]), "evaluator parameters")
    res = ev.initialize_result([info(n) for n in c["dims"]])
    sections = list(np.ndindex(*c["dims"]))
    values = {s: [] for s in sections}
    for i in range(c["n"]):
        s = sections[g.integers(len(sections))]
        if c["none"] and g.random() < 0.2:
            r.equal(bool(res.add_artifact(s, NoScalar(), c["conf"])), False, "artifacts without scalar are never confident")
            continue
        v = float(c["mean"] + c["std"] * g.standard_normal())
        got = bool(res.add_artifact(s, ArtifactTemplate(v), c["conf"]))
        values[s].append(v)
        M = len(values[s])
        if not c["conf"] or M < c["m"]:
            r.equal(got, False, "confidence before the minimum number of samples")
        elif M % c["m"] == 0 and c["std"] > 0:
            sd = np.std(values[s], ddof=1)
            p = 2 * (1 - norm.cdf(np.sqrt(M) * c["tol"] / sd))
            if abs(p - c["delta"]) > 1e-6:
                r.equal(got, bool(p < c["delta"]), f"stopping criterion at {M} samples (probability {p:.4g}, threshold {c['delta']:.4g})")
                r.nontrivial(got)
    arr = res.to_array()
    ref = np.array([np.mean(values[s]) if values[s] else np.nan for s in sections]).reshape(c["dims"])
    r.equal(arr.shape, tuple(c["dims"]), "dimensions of the estimates")
    r.close(arr, ref, "mean artifacts of each section", rtol=1e-9)
    r.close(res.runtime_estimates(), ref, "runtime estimates", rtol=1e-9)


# -- grid dimensions ---------------------------------------------------------------------------


class Gain(ScalarDimension):
    title = "Gain title"

    def __init__(self):
        self.value = None

    def __lshift__(self, scalar):
        self.value = scalar


class Target(O.Investigated):
    def __init__(self):
        super().__init__()
        self._gain = Gain()

    @property
    def gain(self):
        return self._gain


@check.facet(
    "dimensions",
    R(path=st.sampled_from(["plain", "inner.q", "call", "gain", "a", "b", "c", "f"]), objects=st.integers(1, 3), values=st.lists(floats(-1e3, 1e3), min_size=1, max_size=5), log=st.booleans(), points=st.booleans(), title=st.sampled_from([None, "abc"]), order=st.lists(st.integers(0, 20), min_size=1, max_size=10)),
    quick=600, thorough=20000,
    rule="several objects configured by one dimension",
)
def dimensions(c, r):
    objs = tuple(Target() for _ in range(c["objects"]))
    r.nontrivial(len(objs) > 1)
    r.cls(c["path"])
    vals = [abs(v) + 1e-3 for v in c["values"]] if c["log"] else list(c["values"])
    points = dB([10 * np.log10(v) for v in vals]) if c["log"] else [SamplePoint(v) for v in vals] if c["points"] and c["path"] != "gain" else vals
    d = GridDimension(objs if len(objs) > 1 else objs[0], c["path"], points, c["title"]) if not (c["title"] and c["path"] == "gain") else GridDimension(objs, c["path"], points)
    r.equal(d.num_sample_points, len(vals), "number of sample points")
    r.equal(d.plot_scale, "log" if c["log"] else "linear", "scale")
    r.equal(d.tick_format, ValueType.DB if c["log"] else ValueType.LIN, "tick format")
    r.equal(d.title, "Gain title" if c["path"] == "gain" else c["title"] or c["path"], "title")
    if c["path"] in O.IMPACTS:
        f, l = O.IMPACTS[c["path"]]
        r.equal((d.first_impact, d.last_impact), (None if f is None else f"s{f}", None if l is None else f"s{l}"), "impacted stages")
    get = {"plain": lambda o: o.plain, "inner.q": lambda o: o.inner.q, "call": lambda o: o._called, "gain": lambda o: o._gain.value}.get(c["path"], lambda o: getattr(o, c["path"]))
    for k in c["order"]:
        k %= len(vals)
        d.configure_point(k)
        for o in objs:
            r.close(float(get(o)), vals[k], "configured parameter", rtol=1e-9)
    for bad in (-1, len(vals)):
        try:
            d.configure_point(bad)
            r.fail("points outside the grid are refused")
        except ValueError:
            pass


# -- results ----------------------------------------------------------------------------------------


@check.facet(
    "results",
    R(dims=st.lists(st.integers(1, 4), max_size=3), evs=st.integers(1, 3), seed=seeds, time=floats(0.0, 1e4), base=st.integers(0, 2), fmt=st.sampled_from(["lin", "db", "log"])),
    quick=60, thorough=1500, shards=2,
    rule="at least two dimensions",
)
def results(c, r):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from rich.console import Console
    from hermespy.core.pymonte.scalar import ScalarEvaluationResult

    g = np.random.default_rng(c["seed"])
    o = O.Investigated()
    names = ["plain", "a", "b"][: len(c["dims"])]
    r.nontrivial(len(names) > 1)
    grid = [GridDimension(o, n, [float(np.round(v, 3)) for v in np.sort(g.uniform(0, 100, s))], title=f"dim{i}") for i, (n, s) in enumerate(zip(names, c["dims"]))]
    evs = [Ev(tick_format=ValueType.DB if c["fmt"] == "db" else ValueType.LIN, plot_scale="log" if c["fmt"] == "log" else "linear") for _ in range(c["evs"])]
    res = [e.initialize_result(grid) for e in evs]
    refs = []
    for x in res:
        m = np.zeros(c["dims"])
        for s in np.ndindex(*c["dims"]):
            v = g.uniform(1e-3, 10, 3)
            for y in v:
                x.add_artifact(s, ArtifactTemplate(float(y)))
            m[s] = np.mean(v)
        refs.append(m)
    out = MonteCarloResult(grid, evs, res, c["time"])
    r.equal(out.performance_time, c["time"], "performance time")
    r.equal(len(out.evaluation_results), len(res), "number of results")
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "x.mat")
        out.save_to_matlab(f)
        mat = loadmat(f)
    for i, ref in enumerate(refs):
        r.close(np.asarray(mat[f"result_{i}"], float).reshape(-1), ref.reshape(-1), "exported results", rtol=1e-12)
    for d in grid:
        got = mat[d.title].reshape(-1)
        r.check(got.dtype != object and np.allclose(got, [p.value for p in d.sample_points]), f"exported sample points {got}")
    r.close(float(np.asarray(mat["performance_time"]).reshape(-1)[0]), c["time"], "exported performance time")
    # Console output
    for x, ref in zip(res, refs):
        buf = io.StringIO()
        x.print(Console(file=buf, width=240, force_terminal=False))
        lines = [[y.strip() for y in re.split("[│┃|]", ln)[1:-1]] for ln in buf.getvalue().splitlines() if "│" in ln]
        rows = [tuple(y) for y in lines]
        want = []
        for s in np.ndindex(*c["dims"]):
            val = f"{10 * np.log10(ref[s]):.2g} dB" if c["fmt"] in ("db", "log") else f"{ref[s]:.2g}"
            want.append(tuple(grid[d].sample_points[k].title for d, k in enumerate(s)) + (val,))
        if len(c["dims"]) > 0:
            r.equal(rows, want, "printed results")
    # Plots
    base = c["base"] % max(1, len(grid))
    if grid:
        x = ScalarEvaluationResult(grid, evs[0], 0.0, 1.0, 1024, False, base)
        vals = g.uniform(0.1, 1, c["dims"])
        for s in np.ndindex(*c["dims"]):
            x.add_artifact(s, ArtifactTemplate(float(vals[s])))
        vis = x.visualize()
        lines = vis.lines[0, 0]
        moved = np.moveaxis(vals, base, 0)
        sub = [d for i, d in enumerate(grid) if i != base]
        r.equal(len(lines), int(np.prod(moved.shape[1:], dtype=int)), "number of plotted lines")
        for idx, line in zip(np.ndindex(*moved.shape[1:]), lines):
            r.close(np.asarray(line.get_xdata(), float), np.array([p.value for p in grid[base].sample_points]), "abscissa")
            r.close(np.asarray(line.get_ydata(), float), moved[(slice(None), *idx)], "ordinate", rtol=1e-9)
            for d, k in zip(sub, idx):
                r.check(f"{d.title} = {d.sample_points[k].title}" in line.get_label(), "label of plotted lines")
        plt.close("all")


# -- whole campaigns -----------------------------------------------------------------------------------


campaign_case = R(
    names=st.lists(st.sampled_from("abcdefg"), min_size=0, max_size=3, unique=True), sizes=st.lists(st.integers(1, 3), min_size=3, max_size=3), n=st.integers(1, 6), actors=st.integers(1, 3),
    batch=st.sampled_from([None, 1, 3, 50]), delay=st.sampled_from([0.0, 0.0, 0.01, 0.06]), spreads=st.lists(st.sampled_from([0.0, 0.1, 0.5]), min_size=1, max_size=2), stop=st.sampled_from([False, False, False, True]), twice=st.booleans(),
)


@check.facet(
    "campaign", campaign_case, quick=7, thorough=150,
    explicit=[
        dict(names=["b", "d"], sizes=[2, 3, 1], n=4, actors=2, batch=None, delay=0.0, spreads=[0.0], stop=False, twice=False),
        dict(names=["e", "c", "b"], sizes=[2, 1, 3], n=3, actors=2, batch=1, delay=0.06, spreads=[0.5, 0.1], stop=False, twice=True),
        dict(names=["a"], sizes=[2, 1, 1], n=400, actors=1, batch=8, delay=0.01, spreads=[0.5, 0.1], stop=True, twice=False),
    ],
    rule="several dimensions and samples",
)
def campaign(c, r):
    ray = ray_up()
    o = O.Investigated()
    o.delay = c["delay"]
    spreads = c["spreads"]
    if c["stop"]:
        # The first evaluator becomes confident at once, the others never
        evs = [O.SectionEvaluator(o, s, confidence=0.5 if i == 0 else 0.0, tolerance=100.0 if i == 0 else 1e-9, min_num_samples=4) for i, s in enumerate(spreads)]
    else:
        evs = [O.SectionEvaluator(o, s) for s in spreads]
    sizes = c["sizes"][: len(c["names"])]
    with deadline(r, 120, "Monte Carlo campaign"):
        m = MonteCarlo(o, c["n"], evs, num_actors=c["actors"], batch_size=c["batch"], console_mode=ConsoleMode.SILENT, progress_log_interval=0.05, catch_exceptions=False)
        extra = []
        for i, (n, s) in enumerate(zip(c["names"], sizes)):
            pts = [i + 1 + 2 * j for j in range(s)]
            if c["twice"] and i == len(sizes) - 1:
                extra.append(GridDimension(o, n, pts))
            else:
                m.new_dimension(n, pts)
        t = time.monotonic()
        res = m.simulate(O.Actor, additional_dimensions=extra or None)
        t = time.monotonic() - t
    r.nontrivial(len(sizes) > 1 and c["n"] > 1)
    r.cls("early stopping", c["stop"])
    r.check(0.0 < res.performance_time <= t, f"performance time {res.performance_time} of {t}")
    r.equal(len(res.evaluation_results), len(evs), "one result per evaluator")
    for e, x, spread in zip(evs, res.evaluation_results, spreads):
        titles = [d.title for d in x.grid]
        r.equal(sorted(titles), sorted(c["names"]), "dimensions of the results")
        arr = x.to_array()
        r.equal(arr.shape, tuple(d.num_sample_points for d in x.grid), "dimensions of the estimates")
        exact = not c["stop"] and spread == 0.0
        for s in np.ndindex(*arr.shape):
            ref = O.reference_value({t: d.sample_points[k].value for t, d, k in zip(titles, x.grid, s)})
            r.check(abs(arr[s] - ref) <= spread + 1e-9 * max(1.0, abs(ref)), f"estimate {arr[s]} of section {s}, {ref} plus or minus {spread}")
            if exact:
                r.check(abs(arr[s] - ref) <= 1e-9 * max(1.0, abs(ref)), "exact estimate")
    # Number of samples: spread evaluators alternate, artifacts are counted by a collecting evaluator
    del ray


@check.facet(
    "samples",
    R(names=st.lists(st.sampled_from("abcdef"), min_size=0, max_size=2, unique=True), sizes=st.lists(st.integers(1, 3), min_size=2, max_size=2), n=st.integers(2, 9), batch=st.sampled_from([None, 2, 64]), delay=st.sampled_from([0.0, 0.005, 0.03]), confident=st.lists(st.booleans(), min_size=1, max_size=3), stop=st.booleans()),
    quick=5, thorough=100,
    explicit=[
        dict(names=["a"], sizes=[2, 1], n=600, batch=4, delay=0.003, confident=[True, False], stop=True),
        dict(names=["a"], sizes=[2, 1], n=1500, batch=4, delay=0.003, confident=[True, True], stop=True),
        dict(names=["b", "a"], sizes=[2, 2], n=5, batch=None, delay=0.03, confident=[False], stop=False),
        dict(names=["a"], sizes=[3, 1], n=7, batch=5, delay=0.02, confident=[False, False], stop=False),
    ],
    rule="several sections",
)
def samples(c, r):
    """A single actor numbers its samples; means and counts reveal every lost or doubled one"""
    ray_up()
    o = O.Investigated()
    o.delay = c["delay"]
    if c["stop"]:
        evs = [O.SectionEvaluator(o, 0.5, confidence=0.5 if k else 0.0, tolerance=100.0 if k else 1e-9, min_num_samples=4) for k in c["confident"]]
    else:
        evs = [O.SectionEvaluator(o, 0.5) for _ in c["confident"]]
    evs.append(O.Numbering(o, c["n"]))
    if c["stop"] and all(c["confident"]):
        evs[-1].confidence, evs[-1].tolerance, evs[-1].min_num_samples = 0.5, 1e12, 4
    elif c["stop"]:
        evs[-1].confidence = 0.0
    sizes = c["sizes"][: len(c["names"])]
    with deadline(r, 120, "Monte Carlo campaign"):
        m = MonteCarlo(o, c["n"], evs, num_actors=1, batch_size=c["batch"], console_mode=ConsoleMode.SILENT, progress_log_interval=0.05, catch_exceptions=False)
        for i, (n, s) in enumerate(zip(c["names"], sizes)):
            m.new_dimension(n, [i + 1 + 2 * j for j in range(s)])
        res = m.simulate(O.Actor)
    r.nontrivial(len(sizes) > 0 and c["n"] > 2)
    x = res.evaluation_results[-1]
    # Section samples are numbered 0..N-1, the mean of their numbers is (N-1)/2
    mean = x.to_array()
    N = 2 * mean + 1
    r.check(np.all(np.abs(N - np.rint(N)) < 1e-6), f"samples lost or doubled: {N}")
    full = np.all(np.abs(N - c["n"]) < 1e-6)
    if c["stop"] and all(c["confident"]):
        r.cls("early stopping")
        r.check(np.all(N >= 4 - 1e-6) and np.all(N <= c["n"] + 1e-6), f"number of samples {N}")
        if c["n"] >= 600:
            r.check(np.all(N < c["n"]), f"confident sections are not stopped: {N} samples")
    else:
        r.check(full, f"number of samples {N}, expected {c['n']}")


@check.facet("failures", R(n=st.integers(1, 4), sizes=st.integers(1, 3), fail=st.integers(0, 2), catch=st.booleans()), quick=2, thorough=30, explicit=[dict(n=2, sizes=3, fail=1, catch=True), dict(n=2, sizes=2, fail=0, catch=False)], rule="an existing section fails")
def failures(c, r):
    """Exceptions raised in a section end the simulation, or leave the other sections' batches untouched if caught"""
    ray_up()
    o = O.Investigated()
    o.fail_at = c["fail"]
    hit = c["fail"] < c["sizes"]
    r.nontrivial(hit)
    with deadline(r, 120, "failing Monte Carlo campaign"):
        m = MonteCarlo(o, c["n"], [O.SectionEvaluator(o)], num_actors=1, batch_size=1, console_mode=ConsoleMode.SILENT, progress_log_interval=0.05, catch_exceptions=c["catch"])
        m.new_dimension("a", list(range(c["sizes"])))
        # Batches hold one section each as soon as the grid has one dimension only
        try:
            res = m.simulate(O.Actor)
        except Exception as e:
            r.check(hit and not c["catch"], f"unexpected {type(e).__name__}")
            return
    r.check(not hit or c["catch"], "exceptions of the simulated object are raised")
    arr = res.evaluation_results[0].to_array()
    for k in range(c["sizes"]):
        if hit and k == c["fail"]:
            r.check(np.isnan(arr[k]), "failing sections have no estimate")
        elif not np.isnan(arr[k]):
            r.close(arr[k], float(k), "estimates of succeeding sections")
