"""P03 Logarithmic quantities and scalar formulas."""
import copy, math, pickle
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import rec as R, floats, logfloats, seeds

from hermespy.core import dB, Logarithmic, LogarithmicSequence, ValueType
from hermespy.tools.math import db2lin, lin2db, DbConversionType, marcum_q, rms_value, amplitude_path_loss

check = Check("P03", "Logarithmic quantities behave like the linear numbers they denote")

CONV = {"POWER": (DbConversionType.POWER, 10.0), "AMPLITUDE": (DbConversionType.AMPLITUDE, 20.0)}
conv = st.sampled_from(sorted(CONV))
num = st.one_of(floats(-60, 60), st.integers(-60, 60))


def lin(v, b):
    return 10 ** (v / b)


@check.facet("scalar", R(a=num, b=num, x=logfloats(1e-3, 1e3), conv=conv, other=conv), quick=1500, thorough=60000, rule="both values differ")
def scalar(c, r):
    cv, base = CONV[c["conv"]]
    ov, obase = CONV[c["other"]]
    r.nontrivial(c["a"] != c["b"])
    r.cls(c["conv"])
    a, b, x = dB(c["a"], conversion=cv), dB(c["b"], conversion=ov), c["x"]
    A, B = lin(c["a"], base), lin(c["b"], obase)
    r.close(float(a), A, "linear value", rtol=1e-12)
    r.equal(a.value_db, c["a"], "decibel value is kept exactly")
    r.equal(a.conversion, cv, "conversion")
    r.check(isinstance(a, float) and a == float(a) and hash(a) == hash(float(a)), "is a number")
    r.close(lin2db(A, cv), c["a"], "decibels of linear", rtol=1e-9, scale=1e-9)
    r.close(db2lin(float(c["a"]), cv), A, "linear of decibels", rtol=1e-12)
    l = Logarithmic(A, ValueType.LIN, cv)
    r.close((float(l), l.value_db), (A, c["a"]), "from linear values", rtol=1e-9, scale=1e-9)
    # binary operations
    for name, f in (("+", lambda p, q: p + q), ("*", lambda p, q: p * q), ("/", lambda p, q: p / q), ("-", lambda p, q: p - q)):
        if name == "-" and not A > B:
            continue
        y, Y = f(a, b), f(A, B)
        r.check(isinstance(y, Logarithmic), f"{name} of logarithmic values is logarithmic", y)
        r.close(float(y), Y, f"linear {name}", rtol=1e-9, scale=A * 1e-12 if name == "-" else None)
        if Y > 1e-6 * A:
            r.close(y.value_db, base * math.log10(Y), f"decibels of {name}", rtol=1e-6, scale=1e-6)
        r.equal(y.conversion, cv, f"conversion of {name}")
        for p, q, P, Q in ((a, x, A, x), (x, a, x, A)):
            z = f(p, q)
            r.check(not isinstance(z, Logarithmic) and isinstance(z, float), f"{name} with plain numbers is plain")
            r.close(z, f(P, Q), f"{name} with plain numbers", rtol=1e-9, scale=A + x)
    r.equal((a < b, a <= b, a > b, a >= b, a == b), (float(a) < float(b), float(a) <= float(b), float(a) > float(b), float(a) >= float(b), float(a) == float(b)), "comparisons")
    for z in (pickle.loads(pickle.dumps(a)), copy.copy(a), copy.deepcopy(a)):
        r.check(isinstance(z, Logarithmic), "copies are logarithmic")
        r.equal((float(z), z.value_db, z.conversion), (float(a), a.value_db, a.conversion), "copies keep value, decibels and conversion")
    s = str(a)
    r.check(s.endswith("dB"), "text unit", s)
    shown = float(s[:-2])
    tol = 1e-8 * max(1, abs(c["a"])) if float(c["a"]).is_integer() else 0.051 * abs(c["a"]) + 1e-9
    r.check(abs(shown - c["a"]) <= tol, "text shows the decibel value", (s, c["a"]))
    r.check(str(a) in repr(a), "representation")
    for v in (0.0, -x):
        try:
            Logarithmic(v, ValueType.LIN, cv)
            bad = True
        except (ValueError, ZeroDivisionError):
            bad = False
        r.check(not bad, "non-positive values are refused", v)


def logs(z, cv, base, want, r, what):
    """A sequence holds exactly the wanted linear values consistently through all its views."""
    want = np.asarray(want, float)
    r.close(np.asarray(z).view(np.ndarray), want, what + ": array", rtol=1e-9)
    r.equal(len(z), len(want), what + ": length")
    for i, (e, w) in enumerate(zip(z.tolist(), want)):
        g = z[i]
        for k in (e, g, z[i - len(want)]):
            r.check(isinstance(k, Logarithmic), what + ": items are logarithmic", type(k))
            r.close((float(k), k.value_db), (w, base * math.log10(w)), what + ": item", rtol=1e-9, scale=1e-6)
            r.equal(k.conversion, cv, what + ": conversion of items")
    r.close([float(k) for k in z], want, what + ": iteration", rtol=1e-9)
    r.equal(z.conversion, cv, what + ": conversion")


ops = st.lists(
    st.one_of(
        st.tuples(st.just("setlog"), st.integers(-6, 5), floats(-40, 40)),
        st.tuples(st.just("setlin"), st.integers(-6, 5), logfloats(1e-3, 1e3)),
        st.tuples(st.just("imul"), st.just(0), logfloats(1e-2, 1e2)),
        st.tuples(st.just("iadd"), st.just(0), logfloats(1e-2, 1e2)),
        st.tuples(st.just("mul"), st.just(0), logfloats(1e-2, 1e2)),
        st.tuples(st.just("slice"), st.integers(0, 3), st.integers(1, 3)),
        st.tuples(st.just("setslice"), st.integers(0, 3), logfloats(1e-2, 1e2)),
        st.tuples(st.just("index"), st.just(0), seeds),
        st.tuples(st.just("copy"), st.just(0), st.just(0.0)),
        st.tuples(st.just("pickle"), st.just(0), st.just(0.0)),
        st.tuples(st.just("deepcopy"), st.just(0), st.just(0.0)),
    ),
    max_size=6,
)


@check.facet("sequence", R(v=st.lists(num, min_size=0, max_size=6), conv=conv, ops=ops, kind=st.sampled_from(["db", "dblist", "lin", "cls"])), quick=800, thorough=30000, rule="at least two operations")
def sequence(c, r):
    cv, base = CONV[c["conv"]]
    m = [lin(v, base) for v in c["v"]]
    r.nontrivial(len(c["ops"]) > 1 and len(m) > 1)
    k = c["kind"]
    if k == "db" and len(m) > 1:
        z = dB(*c["v"], conversion=cv)
    elif k == "dblist" and m:
        z = dB(c["v"], conversion=cv)
    elif k == "lin":
        z = LogarithmicSequence(m, ValueType.LIN, cv)
    else:
        z = LogarithmicSequence(c["v"], ValueType.DB, cv)
    logs(z, cv, base, m, r, "construction")
    for op, i, x in c["ops"]:
        if not m:
            break
        j = i % len(m)
        r.cls(op)
        if op == "setlog":
            z[j - (len(m) if i < 0 else 0)] = dB(x)
            m[j] = lin(x, 10.0)
        elif op == "setlin":
            z[j] = x
            m[j] = x
        elif op == "imul":
            z *= x
            m = [v * x for v in m]
        elif op == "iadd":
            z += x
            m = [v + x for v in m]
        elif op == "mul":
            z = z * x
            m = [v * x for v in m]
        elif op == "slice":
            z, m = z[i :: x], m[i :: x]
        elif op == "setslice":
            z[i:] = x
            m = m[:i] + [x] * len(m[i:])
        elif op == "index":
            ix = np.random.default_rng(x).integers(0, len(m), 4)
            z, m = z[ix], [m[q] for q in ix]
        elif op == "copy":
            z = z.copy()
        elif op == "deepcopy":
            z = copy.deepcopy(z)
        else:
            z = pickle.loads(pickle.dumps(z))
        r.check(isinstance(z, LogarithmicSequence), f"{op} keeps the type")
        logs(z, cv, base, m, r, f"after {op}")


@check.facet("formulas", R(f=logfloats(1e3, 1e12), sign=st.sampled_from([1, -1]), d=logfloats(1e-2, 1e6), a=floats(0, 8), b=floats(0, 12), m=st.integers(1, 4), n=st.integers(1, 40), seed=seeds, s=logfloats(1e-3, 1e3)), quick=300, thorough=10000, rule="all")
def formulas(c, r):
    r.nontrivial(True)
    want = 299792458.0 / c["f"] / (4 * math.pi * c["d"])
    r.close(amplitude_path_loss(c["sign"] * c["f"], c["d"]), want, "free-space amplitude", rtol=1e-12)
    try:
        amplitude_path_loss(0.0, c["d"])
        ok = False
    except ValueError:
        ok = True
    r.check(ok, "no path loss without carrier")
    x = np.random.default_rng(c["seed"]).normal(size=c["n"]) * c["s"]
    r.close(rms_value(x), math.sqrt(sum(v * v for v in x) / len(x)), "root mean square", rtol=1e-9)
    # generalised Marcum Q function by integration of its definition
    from scipy.integrate import quad
    from scipy.special import ive
    a, b, m = c["a"], c["b"], c["m"]
    if a > 1e-3:
        f = lambda t: t * (t / a) ** (m - 1) * math.exp(-((t - a) ** 2) / 2) * ive(m - 1, a * t)
    else:
        f = lambda t: t ** (2 * m - 1) * math.exp(-t * t / 2) / (2 ** (m - 1) * math.factorial(m - 1))
        a = 0.0
    hi = max(a, b) + 12
    q = quad(f, b, hi, limit=200, points=[a] if b < a < hi else None)[0]
    r.close(marcum_q(np.array([a]), np.array([b]), m)[0], q, "Marcum Q function", rtol=1e-5, scale=1e-5)
