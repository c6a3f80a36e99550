"""Run a metric as a slice would: declared columns only, no mutation, row order irrelevant."""

import copy
import warnings

import numpy as np

from vp.core import require


def same(a, b, rtol=1e-9, atol=1e-12):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    try:
        fa, fb = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return bool(np.all(np.asarray(a, object) == np.asarray(b, object)))
    return fa.shape == fb.shape and bool(np.allclose(fa, fb, rtol=rtol, atol=atol, equal_nan=True))


def declared(metric, rec, extra=()):
    """Only the columns the metric asks for, plus one more it does not."""
    names = [c for c in dict.fromkeys(list(metric.col_name_arr) + list(extra)) if c in rec.dtype.names]
    miss = [c for c in metric.col_name_arr if c not in rec.dtype.names]
    require(not miss, "the metric asks for columns that are not in the table", miss)
    out = np.zeros(len(rec), dtype=[(n, rec.dtype[n]) for n in names] + [("unused_", float)])
    for n in names:
        out[n] = rec[n]
    return out


def run(metric, rec, slice_point=None, perm=None, order_matters=False, rtol=1e-9, atol=1e-12):
    data = declared(metric, rec)
    before, spb = data.copy(), copy.deepcopy(slice_point)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = metric.run(data, slice_point)
        require(data.dtype == before.dtype and all(np.array_equal(data[n], before[n]) for n in data.dtype.names), "the visits were changed by", type(metric).__name__)
        require(slice_point is None or set(slice_point) == set(spb), "the slice point was changed by", type(metric).__name__)
        again = metric.run(before.copy(), copy.deepcopy(spb))
        require(same(got, again), "a second run gives another value", type(metric).__name__, got, again)
        if perm is not None and not order_matters:
            p = metric.run(before[np.asarray(perm)], copy.deepcopy(spb))
            require(same(got, p, rtol, atol), "the order of the visits matters to", type(metric).__name__, got, p)
    return got
