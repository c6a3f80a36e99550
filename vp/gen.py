"""Generators shared by the checks.  All cases are JSON-able and shrink."""

import numpy as np
from hypothesis import strategies as st


def grid(lo, hi, denom=4):
    """Floats on a dyadic grid: exact arithmetic, plenty of ties and edge hits."""
    return st.integers(int(lo * denom), int(hi * denom)).map(lambda k: k / denom)


def sized(elem, lo, hi):
    """Lists whose length is uniform in [lo, hi] (Hypothesis' own lists are short)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


def biased_float(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def recarray(cols, rows):
    """cols: list of (name, dtype); rows: list of tuples -> structured array."""
    out = np.zeros(len(rows), dtype=[(n, t) for n, t in cols])
    for i, r in enumerate(rows):
        for (n, _), v in zip(cols, r):
            out[n][i] = v
    return out


def table(draw, n_lo, n_hi, **cols):
    n = draw(st.integers(n_lo, n_hi))
    return {k: draw(st.lists(s, min_size=n, max_size=n)) for k, s in cols.items()}


def to_rec(d, dtypes=None):
    """dict of equal-length lists -> structured array."""
    dtypes = dtypes or {}
    names = list(d)
    n = len(d[names[0]])
    dt = []
    for k in names:
        if k in dtypes:
            dt.append((k, dtypes[k]))
        elif n and isinstance(d[k][0], str):
            dt.append((k, "<U40"))
        elif n and all(isinstance(v, bool) for v in d[k]):
            dt.append((k, bool))
        elif n and all(isinstance(v, int) for v in d[k]):
            dt.append((k, int))
        else:
            dt.append((k, float))
    out = np.zeros(n, dtype=dt)
    for k in names:
        out[k] = d[k]
    return out
