"""P28 spatially consistent random fields."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.channel.consistent import ConsistentGenerator
from hermespy.core import RandomNode

check = Check("P28", "Spatially consistent random fields are reproducible, normalised and decorrelate")

vec = st.lists(floats(-100, 100), min_size=3, max_size=3)
kind = st.sampled_from(["gaussian", "uniform", "boolean"])
variables = st.lists(st.tuples(kind, st.one_of(st.none(), st.lists(st.integers(1, 4), min_size=1, max_size=3))), min_size=1, max_size=5)
dist = st.one_of(st.just(float("inf")), logfloats(0.05, 1e4))


def make(vs, rng):
    g = ConsistentGenerator(rng)
    return g, [getattr(g, k)(None if s is None else tuple(s)) for k, s in vs]


@check.facet("fields", R(vs=variables, seed=seeds, d=dist, pos=st.lists(st.tuples(vec, vec), min_size=1, max_size=4), node=st.booleans(), mean=floats(-10, 10), std=floats(0, 10), ns=st.integers(1, 40)), quick=250, thorough=8000, rule="several variables at several positions")
def fields(c, r):
    r.nontrivial(len(c["vs"]) > 1 and len(c["pos"]) > 1)
    mk = lambda: RandomNode(seed=c["seed"]) if c["node"] else np.random.default_rng(c["seed"])
    g1, v1 = make(c["vs"], mk())
    g2, v2 = make(c["vs"], mk())
    end = 0
    for v, (k, s) in zip(v1, c["vs"]):
        r.equal(v.shape, (1,) if s is None else tuple(s), "shape of the variable")
        r.equal((v.offset, v.size), (end, int(np.prod(v.shape))), "variables occupy disjoint scalars")
        end += v.size
    q1, q2 = g1.realize(c["d"], c["ns"]), g2.realize(c["d"], c["ns"])
    n1 = g1.realize(c["d"], c["ns"])
    P = [(np.array(a, float), np.array(b, float)) for a, b in c["pos"]]
    first = {}
    for order in (range(len(P)), reversed(range(len(P)))):
        for i in order:
            a, b = P[i]
            s1, s2 = q1.sample(a, b), q2.sample(a.copy(), b.copy())
            vals = []
            for v, w, (k, s) in zip(v1, v2, c["vs"]):
                x, y = v.sample(s1), w.sample(s2)
                r.equal(np.asarray(x), np.asarray(y), "equal seeds realize equal fields")
                r.equal(x.shape, v.shape, "shape of samples")
                r.check(np.all(np.isfinite(x)), "finite samples")
                if k == "uniform":
                    r.check(np.all((x >= 0) & (x <= 1)), "uniform variables stay within their interval")
                if k == "boolean":
                    r.equal(x.dtype, np.dtype(bool), "boolean variables")
                if k == "gaussian":
                    r.close(v.sample(s1, c["mean"], c["std"]), c["mean"] + c["std"] * x, "mean and standard deviation", rtol=1e-9)
                vals.append(np.array(x))
                if c["d"] != float("inf"):
                    # bounded by the sum of its sinusoids
                    z = x if k == "gaussian" else None
                    r.check(z is None or np.all(np.abs(z) <= np.sqrt(2 * c["ns"]) + 1e-9), "amplitude of the field")
            if i in first:
                for x, y in zip(first[i], vals):
                    r.equal(x, y, "fields do not depend on the order of sampling")
            first[i] = vals
    if c["d"] == float("inf"):
        for i in range(1, len(P)):
            for x, y in zip(first[0], first[i]):
                r.equal(x, y, "fully correlated fields are constant")
    if any(k != "boolean" for k, _ in c["vs"]):
        s = n1.sample(*P[0])
        r.check(any(not np.array_equal(v.sample(s), x) for v, x in zip(v1, first[0])), "realizations differ")


@check.facet("statistics", R(seed=seeds, d=st.one_of(logfloats(0.05, 1e4), st.just(float("inf"))), f=st.tuples(floats(0, 2.5), floats(0, 2.5)), ang=st.lists(floats(0, 1), min_size=4, max_size=4), pos=st.tuples(vec, vec), rel=st.sampled_from([None, 0.005, 0.02])), quick=120, thorough=1500, rule="finite distance")
def statistics(c, r):
    """moments over 6000 independent scalars; bounds are exceeded with probability below 1e-9 by a correct field"""
    d = c["d"]
    r.nontrivial(np.isfinite(d))
    n = 6000
    g, (x, u, b) = make([("gaussian", [n]), ("uniform", [n]), ("boolean", [n])], np.random.default_rng(c["seed"]))
    q = g.realize(d)

    def unit(a, z):
        ze = np.arccos(1 - 2 * z)
        return np.array([np.cos(2 * np.pi * a) * np.sin(ze), np.sin(2 * np.pi * a) * np.sin(ze), np.cos(ze)])

    e = d if np.isfinite(d) else 1.0
    # positions within a few decorrelation distances of the origin, or anywhere
    A, B = (np.array(p, float) * (1.0 if c["rel"] is None else c["rel"] * e) for p in c["pos"])
    A2, B2 = A + unit(*c["ang"][:2]) * c["f"][0] * e, B + unit(*c["ang"][2:]) * c["f"][1] * e
    s0, s1 = q.sample(A, B), q.sample(A2, B2)
    X0, X1, U, Bo = x.sample(s0), x.sample(s1), u.sample(s0), b.sample(s0)
    six = 6.5 / np.sqrt(n)
    r.check(abs(X0.mean()) < six, "zero mean", X0.mean())
    r.check(abs(X0.var() - 1) < 1.5 * six, "unit variance", X0.var())
    dev = np.max(np.abs(np.sort(norm.cdf(X0)) - np.arange(1, n + 1) / n))
    r.check(dev < np.sqrt(11 / n) + 0.01, "gaussian distribution", dev)
    dev = np.max(np.abs(np.sort(U) - np.arange(1, n + 1) / n))
    r.check(dev < np.sqrt(11 / n) + 0.01, "uniform distribution", dev)
    r.check(abs(Bo.mean() - 0.5) < six / 2 + 0.005, "fair booleans", Bo.mean())
    r.check(abs(np.mean(X0 * (2 * U - 1))) < six and abs(np.mean(X0 * (2 * Bo - 1))) < six, "variables are independent")
    want = np.exp(-(c["f"][0] + c["f"][1])) if np.isfinite(d) else 1.0
    got = np.mean(X0 * X1)
    r.check(abs(got - want) < 1.5 * six + 0.02, "correlation decays exponentially with both displacements", (got, want))
    # a continuous field
    if np.isfinite(d):
        X2 = x.sample(q.sample(A + unit(*c["ang"][:2]) * 1e-6 * d, B))
        r.check(np.max(np.abs(X2 - X0)) < 0.05, "continuity", np.max(np.abs(X2 - X0)))
