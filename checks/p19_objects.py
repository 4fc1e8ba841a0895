"""Investigated objects of the Monte Carlo checks (importable by ray workers)."""
import time

from hermespy.core.pymonte import ArtifactTemplate, MonteCarloActor, ScalarEvaluator
from hermespy.core.pymonte.grid import register
from hermespy.core.pymonte.scalar import ScalarDimension  # noqa: F401

NS = 4


class Inner:
    def __init__(self):
        self._q = 0

    q = property(lambda s: s._q, lambda s, v: setattr(s, "_q", v))


class Investigated:
    """Stage k publishes the parameters impacting it; evaluators read all stages."""

    def __init__(self):
        for n in "abcdefg":
            setattr(self, "_" + n, 0)
        self._plain = 0
        self.inner = Inner()
        self.out = [None] * NS
        self.args = [()] * NS
        self.runs = [0] * NS
        self.delay = 0.0
        self.fail_at = None

    def call(self, value):
        self._called = value

    _called = 0
    plain = property(lambda s: s._plain, lambda s, v: setattr(s, "_plain", v))


# (first impacted stage, last impacted stage, None: unknown)
IMPACTS = {"a": (None, None), "b": (0, 0), "c": (1, 2), "d": (2, 3), "e": (3, 3), "f": (1, None), "g": (None, 1)}


def _make(name, first, last):
    def get(self):
        return getattr(self, "_" + name)

    def put(self, value):
        setattr(self, "_" + name, value)

    prop = property(get)
    prop = register(first_impact=None if first is None else f"s{first}", last_impact=None if last is None else f"s{last}")(prop)
    return prop.setter(put)


for _n, (_f, _l) in IMPACTS.items():
    if _n != "a":
        setattr(Investigated, _n, _make(_n, _f, _l))
Investigated.a = property(lambda s: s._a, lambda s, v: setattr(s, "_a", v))


def visible(stage):
    """Parameters a stage may depend upon"""
    out = []
    for n, (f, l) in IMPACTS.items():
        if (f or 0) <= stage <= (NS - 1 if l is None else l):
            out.append(n)
    return out


class Actor(MonteCarloActor):
    @staticmethod
    def stage_identifiers():
        return [f"s{k}" for k in range(NS)]

    def _stage(self, k):
        def execute(*args):
            o = self._investigated_object
            if k == 1 and o.delay:
                time.sleep(o.delay)
            o.out[k] = {n: getattr(o, "_" + n) for n in visible(k)}
            o.out[k]["plain"] = o.plain
            o.out[k]["q"] = o.inner.q
            o.out[k]["called"] = o._called
            o.args[k] = tuple(args)
            o.runs[k] += 1
            if o.fail_at is not None and k == 2 and o._a == o.fail_at:
                raise RuntimeError("planted failure")

        return execute

    def stage_executors(self):
        return [self._stage(k) for k in range(NS)]


class Snapshot:
    def __init__(self, o):
        self.out = [dict(x) for x in o.out]
        self.args = list(o.args)
        self.runs = list(o.runs)
        self.plain = o.plain

    def to_scalar(self):
        return None

    def __str__(self):
        return "snapshot"


class SnapshotEvaluator(ScalarEvaluator):
    abbreviation = "S"
    title = "Snapshot"

    def __init__(self, o):
        super().__init__()
        self.o = o

    def evaluate(self):
        a = Snapshot(self.o)

        class E:
            def artifact(self):
                return a

        return E()


class _Evaluation:
    def __init__(self, value):
        self.value = value

    def artifact(self):
        return ArtifactTemplate(self.value)


class SectionEvaluator(ScalarEvaluator):
    """Encodes the section's parameters into the artifact; noisy evaluators alternate around it."""

    abbreviation = "E"
    title = "Section"

    def __init__(self, o, spread=0.0, **kwargs):
        super().__init__(**kwargs)
        self.o = o
        self.spread = spread
        self.counts = {}

    def evaluate(self):
        v = section_value(self.o.out)
        self.counts[v] = self.counts.get(v, 0) + 1
        return _Evaluation(v + (self.spread if self.counts[v] % 2 else -self.spread))


def section_value(out):
    v = 0.0
    for n, w in zip("abcdefg", (1, 10, 100, 1000, 10**4, 10**5, 10**6)):
        for k in range(NS):
            if n in out[k]:
                v += w * out[k][n] / len([s for s in range(NS) if n in visible(s)])
    return v


def reference_value(params):
    return float(sum(w * params.get(n, 0) for n, w in zip("abcdefg", (1, 10, 100, 1000, 10**4, 10**5, 10**6))))


class Numbering(ScalarEvaluator):
    """Numbers the samples of each section"""

    abbreviation = "N"
    title = "Numbering"

    def __init__(self, o, n):
        super().__init__()
        self.o, self.n = o, n
        self.counts = {}

    def evaluate(self):
        v = section_value(self.o.out)
        k = self.counts.get(v, 0)
        self.counts[v] = k + 1
        return _Evaluation(float(k))
