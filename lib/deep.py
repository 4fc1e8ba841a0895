"""Recursive comparison of the observable state of two objects.

The observable state of an object consists of its public attributes and its public properties.
"""
from enum import Enum
from inspect import getattr_static

import numpy as np

# properties referencing the surroundings of an object or being random by design
SURROUNDINGS = {
    "random_mother", "is_random_root", "scenario", "base", "plot", "visualize", "base_transformation", "forwards_transformation",
    "backwards_transformation", "title", "rng", "seed",
}


def public(obj, skip=()):
    names = {}
    for cls in type(obj).__mro__:
        for name, value in vars(cls).items():
            if name.startswith("_") or name in SURROUNDINGS or name in skip:
                continue
            if isinstance(value, property) or hasattr(value, "__get__") and not callable(value) and not isinstance(value, (staticmethod, classmethod)):
                names.setdefault(name, None)
    for name in getattr(obj, "__dict__", {}):
        if not name.startswith("_") and name not in SURROUNDINGS and name not in skip:
            names.setdefault(name, None)
    return list(names)


def is_signal(x):
    return hasattr(x, "to_dense") and hasattr(x, "sampling_rate")


def diff(a, b, path="", skip=(), rtol=0.0, depth=6, memo=None, limit=5):
    """List the differences between a and b."""
    memo = set() if memo is None else memo
    out = []

    def add(msg):
        out.append(f"{path or 'object'}: {msg}")

    if a is b:
        return out
    if a is None or b is None:
        add(f"{str(b)[:80]} instead of {str(a)[:80]}")
        return out
    if is_signal(a) or is_signal(b):
        if not (is_signal(a) and is_signal(b)):
            add(f"{type(b)} instead of {type(a)}")
            return out
        for n in ("num_streams", "num_samples", "sampling_rate", "carrier_frequency", "delay", "noise_power"):
            x, y = getattr(a, n), getattr(b, n)
            if x != y:
                add(f"{n} {y} instead of {x}")
        if not out:
            x, y = (np.asarray(s.to_dense()).view(np.ndarray) for s in (a, b))
            if not np.array_equal(x, y, equal_nan=True):
                add("samples differ")
        return out
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            if x.shape != y.shape:
                add(f"shape {y.shape} instead of {x.shape}")
            else:
                for i in np.ndindex(x.shape):
                    out += diff(x[i], y[i], f"{path}{list(i)}", skip, rtol, depth, memo)
            return out
        if x.shape != y.shape:
            add(f"shape {y.shape} instead of {x.shape}")
        elif np.iscomplexobj(x) != np.iscomplexobj(y) and np.any(np.imag(x) != np.imag(y)):
            add(f"type {y.dtype} instead of {x.dtype}")
        elif not (np.allclose(x, y, rtol=rtol, atol=0, equal_nan=True) if x.dtype.kind in "fc" else np.array_equal(x, y)):
            add(f"{str(y)[:80]} instead of {str(x)[:80]}")
        return out
    if isinstance(a, (bool, np.bool_, int, float, complex, np.number)) and not isinstance(a, Enum):
        if not isinstance(b, (bool, np.bool_, int, float, complex, np.number)):
            add(f"{str(b)[:80]} instead of {a}")
        elif not (a == b or (a != a and b != b) or (rtol and abs(complex(a) - complex(b)) <= rtol * abs(complex(a)))):
            add(f"{b} instead of {a}")
        return out
    if isinstance(a, (str, bytes, Enum, type)):
        if a != b:
            add(f"{b} instead of {a}")
        return out
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            add(f"{len(b)} instead of {len(a)} items")
        return out
    if isinstance(a, dict):
        if len(a) != len(b):
            add(f"{len(b)} instead of {len(a)} items")
        return out
    if isinstance(a, range) and isinstance(b, range):
        if list(a) != list(b):
            add(f"{b} instead of {a}")
        return out
    if isinstance(a, (list, tuple)) or (hasattr(a, "__len__") and hasattr(a, "__getitem__") and hasattr(a, "__iter__") and not hasattr(a, "serialize")):
        try:
            x, y = list(a), list(b)
        except TypeError:
            add(f"{type(b)} instead of {type(a)}")
            return out
        if len(x) != len(y):
            add(f"{len(y)} instead of {len(x)} items")
            return out
        for i, (p, q) in enumerate(zip(x, y)):
            out += diff(p, q, f"{path}[{i}]", skip, rtol, depth, memo)
            if len(out) > limit:
                break
        return out
    if callable(a) and not hasattr(a, "serialize"):
        return out
    if not type(a).__module__.startswith("hermespy"):
        return out
    if type(a) is not type(b):
        add(f"{type(b).__name__} instead of {type(a).__name__}")
        return out
    key = (id(a), id(b))
    if key in memo or depth <= 0:
        return out
    memo.add(key)
    for name in public(a, skip):
        try:
            x = getattr(a, name)
        except Exception:  # not available for this object
            continue
        if callable(x) and not hasattr(x, "serialize"):
            continue
        try:
            y = getattr(b, name)
        except Exception as e:
            out.append(f"{path}.{name}: unavailable ({type(e).__name__}: {str(e)[:60]})")
            continue
        out += diff(x, y, f"{path}.{name}", skip, rtol, depth - 1, memo)
        if len(out) > limit:
            break
    return out
