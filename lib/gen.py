"""Shared generators. Everything a case contains is plain data; bulk samples are derived
from an integer seed inside the case (drawn by hypothesis), so replay needs no library."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def cmat(seed: int, rows: int, cols: int, zeros: float = 0.0, scale: float = 1.0) -> np.ndarray:
    """Deterministic complex gaussian matrix; a fraction of columns set to zero."""
    g = np.random.default_rng(seed)
    m = (g.standard_normal((rows, cols)) + 1j * g.standard_normal((rows, cols))) * scale
    if zeros > 0 and cols:
        # runs of zeros
        mask = np.zeros(cols, bool)
        pos = 0
        while pos < cols:
            run = int(g.integers(1, 6))
            if g.random() < zeros:
                mask[pos : pos + run] = True
            pos += run
        m[:, mask] = 0.0
    return m


def floats(lo, hi, **kw):
    f = st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)
    if lo <= 0 <= hi:
        # vanishing magnitudes overflow when divided by and are no physical quantities
        return f.map(lambda v: v if abs(v) > 1e-9 else 0.0)
    return f


def logfloats(lo, hi):
    """log-uniform positive floats"""
    return st.floats(np.log10(lo), np.log10(hi), allow_nan=False).map(lambda e: float(10.0**e))


def rec(**kw):
    return st.fixed_dictionaries(kw)


def bits(seed: int, n: int) -> np.ndarray:
    return np.random.default_rng(seed).integers(0, 2, n).astype(np.uint8)
