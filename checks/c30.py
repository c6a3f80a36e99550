"""C30: figures show the metric values (and leave them alone)."""

import datetime
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
import zoneinfo
from unittest import mock

import healpy as hp
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import numpy.ma as ma  # noqa: E402
from astropy.coordinates import EarthLocation  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rubin_scheduler.utils.ddf_locations import ddf_locations  # noqa: E402

from rubin_sim.maf import metrics as MX  # noqa: E402
from rubin_sim.maf import plots as PL  # noqa: E402
from rubin_sim.maf import slicers as SL  # noqa: E402
from rubin_sim.maf.plots import hg_plotters as HG  # noqa: E402
from rubin_sim.maf.metric_bundles import MetricBundle  # noqa: E402
from rubin_sim.maf.utils import optimal_bins  # noqa: E402
from vp.core import Arm, require  # noqa: E402

ASSUMPTIONS = ["a histogram whose bin size is given ends within half a bin of the largest value shown, as the code does",
               "moving-object figures: every object has a value (masked objects are drawn with the fill value)",
               "contour figures are judged by the arrays handed to the drawing library",
               "colours, fonts, tick placement and figure layout are not judged"]
BUDGET = {"quick": 75, "thorough": 2400}


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def masked(n, seed, frac, lo=0, hi=60, div=4.0, special=False, shape=None):
    """Values on a coarse grid (exact arithmetic), a fraction of them masked, at least one not."""
    r = np.random.RandomState(seed)
    v = r.randint(lo, hi, shape or n) / div
    m = r.uniform(size=v.shape) < frac
    m.flat[r.randint(0, m.size)] = False
    v = np.where(m, -777.25, v)
    if special and n > 3:
        v[r.randint(0, n)] = np.inf
        k = r.randint(0, n)
        v[k] = np.nan
    if not np.any(np.isfinite(v) & ~m):
        v.flat[0] = 1.5
        m.flat[0] = False
    return ma.MaskedArray(v, mask=m, fill_value=-666.0)


def show(plotter, mv, slicer, pd, fig=None):
    """Draw, and require that the values did not change."""
    d0, m0 = np.array(mv.data, copy=True), np.array(ma.getmaskarray(mv), copy=True)
    given = dict(pd)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plotter(mv, slicer, pd, fig=fig)
    require(list(pd) == list(given) and all(pd[k] is given[k] for k in given), "drawing changed the settings it was given", type(plotter).__name__, given, pd)
    same = np.array_equal(d0, mv.data, equal_nan=True) if d0.dtype.kind == "f" else all(x is y or np.array_equal(x, y) for x, y in zip(d0.flat, mv.data.flat))
    require(same, "drawing changed the metric values", type(plotter).__name__, pd)
    require(np.array_equal(m0, ma.getmaskarray(mv)), "drawing changed which values are masked", type(plotter).__name__, pd)
    return out


def norm_of(pd):
    def f(v):
        v = v - (pd.get("zp") or 0)
        return v / pd["norm_val"] if pd.get("norm_val") else v
    return f


zpn = st.fixed_dictionaries({}, optional={"zp": st.sampled_from([None, 0.0, 2.0, -3.5]), "norm_val": st.sampled_from([None, 0.5, 4.0])})


# --- histograms ------------------------------------------------------------
@st.composite
def hist_case(draw):
    c = {"nside": draw(st.sampled_from([None, 2, 4])), "n": draw(st.integers(1, 60)), "seed": draw(st.integers(0, 10 ** 6)), "frac": draw(st.sampled_from([0, 0.2, 0.7])), "special": draw(st.booleans()), "pd": dict(draw(zpn))}
    how = draw(st.sampled_from(["auto", "bins", "size", "nbins"]))
    if how == "bins":
        c["edges"] = sorted(draw(st.lists(st.integers(-20, 80), min_size=2, max_size=8, unique=True)))
    elif how == "size":
        c["pd"]["bin_size"] = draw(st.sampled_from([0.25, 0.5, 1.0, 3.0]))
    elif how == "nbins":
        c["pd"]["bins"] = draw(st.integers(1, 12))
    for k, v in (("x_min", st.integers(-5, 8)), ("x_max", st.integers(9, 20))):
        if draw(st.booleans()):
            c["pd"][k] = draw(v)
    c["pd"]["cumulative"] = draw(st.sampled_from([False, False, True, -1]))
    c["pd"]["percentile_clip"] = draw(st.sampled_from([None, None, 80]))
    if draw(st.booleans()):
        c["pd"]["scale"] = draw(st.sampled_from([1.0, 0.5, 7.0]))
    c["two"] = draw(st.booleans())
    return c


def steps(patch):
    xy = patch.get_xy()
    return xy[0::2, 0], xy[1:-1:2, 1]


def t_hist(c):
    pd = dict(c["pd"], color="b", log_scale=False)
    if "edges" in c:
        pd["bins"] = np.array(c["edges"]) / 4.0
    if c["nside"]:
        s = SL.HealpixSlicer(nside=c["nside"], use_camera=False, verbose=False)
        n = hp.nside2npix(c["nside"])
        plotter = PL.HealpixHistogram()
        scale = pd.get("scale") or 4 * math.pi * (180 / math.pi) ** 2 / n / 1000.0
    else:
        s = SL.UserPointsSlicer(np.arange(c["n"]) * 1.0, np.zeros(c["n"]), use_camera=False, verbose=False)
        n, plotter, scale = c["n"], PL.BaseHistogram(), pd.get("scale") or 1.0
    sets = [masked(n, c["seed"] + k, c["frac"], special=c["special"]) for k in range(1 + c["two"])]
    fig = None
    try:
        for mv in sets:
            fig = show(plotter, mv, s, dict(pd), fig)
        require(fig is not None and len(fig.axes) == 1, "one set of axes for histograms drawn together")
        ax = fig.axes[0]
        polys = [p for p in ax.patches if isinstance(p, matplotlib.patches.Polygon)]
        require(len(polys) == len(sets), "one curve for each histogram", len(polys), len(sets))
        label = None
        for mv, poly in zip(sets, polys):
            v = norm_of(pd)(mv.compressed())
            v = v[np.isfinite(v)]
            lo, hi = v.min(), v.max()
            if pd["percentile_clip"] is not None:
                lo, hi = np.percentile(v, 10), np.percentile(v, 90)
            if lo == hi:
                lo, hi = lo - 0.5, hi + 0.5
            lo = pd.get("x_min", lo)
            hi = pd.get("x_max", hi)
            if lo >= hi:
                return None
            edges, height = steps(poly)
            if "edges" in c:
                inside = v[(v >= pd["bins"].min()) & (v <= pd["bins"].max())]
                exp_edges = pd["bins"]
            elif pd.get("bin_size"):
                a, b = (min(lo, v.min()), max(hi, v.max())) if pd["cumulative"] else (lo, hi)
                k = math.floor((b - a) / pd["bin_size"] + 0.5 - 1e-9)
                if k < 1:
                    return None
                exp_edges = None
                require(abs(edges[0] - a) < 1e-9 and close(np.diff(edges), np.full(len(edges) - 1, pd["bin_size"])) and abs(edges[-1] - b) <= pd["bin_size"] / 2 + 1e-9, "bins of the given size from the smallest to the largest value shown", c, edges, a, b)
                inside = v[(v >= edges[0]) & (v <= edges[-1])]
            else:
                nb = pd["bins"] if isinstance(pd.get("bins"), int) else optimal_bins(v)
                inside = v[(v >= lo) & (v <= hi)]
                exp_edges = np.linspace(lo, hi, nb + 1)
            if len(inside) == 0:
                return None
            if exp_edges is not None:
                require(close(edges, exp_edges, 1e-9), "histogram bins", c, edges, exp_edges)
            cnt = np.zeros(len(edges) - 1)
            amb = np.zeros(len(edges) - 1, bool)
            for x in inside:
                for j in range(len(cnt)):
                    if edges[j] <= x < edges[j + 1] or (j == len(cnt) - 1 and x == edges[-1]):
                        cnt[j] += 1
                    if abs(x - edges[j]) < 1e-9 and x != edges[j] or abs(x - edges[j + 1]) < 1e-9 and x != edges[j + 1]:
                        amb[j] = True
            if amb.any():
                require(abs(np.sum(height) - np.sum(cnt)) <= 1e-9 or pd["cumulative"], "total of a histogram", c)
                continue
            if pd["cumulative"] is True:
                cnt = np.cumsum(cnt)
            elif pd["cumulative"] == -1:
                cnt = np.cumsum(cnt[::-1])[::-1]
            require(close(height, cnt), "histogram heights", c, height, cnt)
            label = "cumulative" if pd["cumulative"] else "plain"
        for k, i in (("x_min", 0), ("x_max", 1)):
            if k in pd:
                require(abs(ax.get_xlim()[i] - pd[k]) < 1e-9, f"axis limit {k}", ax.get_xlim(), pd[k])
        f = ax.yaxis.get_major_formatter()
        for y in (0, 3, 100):
            require(abs(float(f(y, 0)) - y * scale) <= 5.1e-4, "scaled axis", c, f(y, 0), y * scale)
        top = ax.get_ylim()[1]
        require(all(steps(p)[1].max() <= top + 1e-9 for p in polys), "the tallest bin is outside the figure", c)
        return label
    finally:
        plt.close("all")


# --- sky maps ----------------------------------------------------------------
@st.composite
def sky_case(draw, kinds):
    c = {"kind": draw(st.sampled_from(kinds)), "nside": draw(st.sampled_from([2, 4])), "n": draw(st.integers(2, 40)), "seed": draw(st.integers(0, 10 ** 6)), "frac": draw(st.sampled_from([0, 0.2, 0.6])), "pd": dict(draw(zpn)),
         "badval": draw(st.sampled_from(["nan", "-666"])), "two": draw(st.booleans())}
    for k, v in (("color_min", st.integers(-5, 6)), ("color_max", st.integers(7, 20)), ("percentile_clip", st.sampled_from([None, 80])), ("mask_below", st.sampled_from([None, 2.0, 5.0, 0])), ("rot", st.sampled_from([(0, 0, 0), (90, 20, 0), (180, 0, 30)])), ("flip", st.sampled_from(["astro", "geo"]))):
        if draw(st.integers(0, 2)) == 0:
            c["pd"][k] = draw(v)
    c["log"] = draw(st.integers(0, 3)) == 0
    c["racen"] = draw(st.sampled_from([0.0, 1.0, 3.0]))
    c["dipole"] = draw(st.booleans())
    c["maxl"] = draw(st.sampled_from([None, 3, 5]))
    return c


def lims(v, pd):
    if len(v) == 0:
        lo, hi = 0, 1
    else:
        lo, hi = v.min(), v.max()
        if pd.get("percentile_clip") is not None:
            lo, hi = np.percentile(v, 10), np.percentile(v, 90)
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
    a, b = pd.get("color_min"), pd.get("color_max")
    return lo if a is None else a, hi if b is None else b


def t_sky(c):
    pd = dict(c["pd"], title="t", label=None, xlabel="x", figsize=(4, 3))
    f = norm_of(pd)
    kind = c["kind"]
    bad = np.nan if c["badval"] == "nan" else -666.0
    n = hp.nside2npix(c["nside"]) if kind in ("hp", "sub", "power") else c["n"]
    mv = masked(n, c["seed"], c["frac"])
    r = np.random.RandomState(c["seed"] + 7)
    try:
        if kind == "power":
            return power(c, pd, mv)
        if kind in ("hp", "sub"):
            if kind == "sub":
                ids = np.where(~mv.mask)[0]
                s = SL.HealpixSubsetSlicer(c["nside"], ids, use_camera=False, verbose=False, badval=bad)
            else:
                s = SL.HealpixSlicer(nside=c["nside"], use_camera=False, verbose=False, badval=bad)
            nside = c["nside"]
            exp = ma.MaskedArray(f(mv.data), mask=mv.mask.copy())
        else:
            ra, dec = np.degrees(r.uniform(0, 2 * np.pi, n)), np.degrees(np.arcsin(r.uniform(-1, 1, n)))
            if n > 4:
                ra[1], dec[1] = ra[0] + 1e-3, dec[0]
            s = SL.UserPointsSlicer(ra, dec, use_camera=False, verbose=False, badval=bad)
            if kind == "ell":
                return ellipses(c, pd, mv, s, np.radians(ra), np.radians(dec))
            nside = c["nside"]
            pd["nside"] = nside
            pix = hp.ang2pix(nside, np.pi / 2 - np.radians(dec), np.radians(ra))
            data, mask = np.zeros(hp.nside2npix(nside)), np.ones(hp.nside2npix(nside), bool)
            for p in np.unique(pix[~mv.mask]):
                q = (pix == p) & ~mv.mask
                data[p], mask[p] = np.mean(mv.data[q]), False
            exp = ma.MaskedArray(f(data), mask=mask)
        if pd.get("mask_below") is not None:
            exp = ma.MaskedArray(exp.data, mask=exp.mask | (exp.data <= pd["mask_below"]))
        lo, hi = lims(exp.compressed(), pd)
        if not lo < hi:
            return None
        log = c["log"]
        if log:
            pd["log_scale"] = True
            if hi <= 0:
                return None
            if lo <= 0:
                pos = exp.compressed()
                pos = pos[pos > 0]
                if len(pos) == 0 or pos.min() >= hi:
                    return None
                lo = pos.min()
        fig = show(PL.HealpixSkyMap(), mv, s, pd)
        ax = [a for a in fig.axes if hasattr(a, "proj")][0]
        im = ax.get_images()[0]
        got = (im.norm.vmin, im.norm.vmax)
        require(close(got, (lo, hi), 1e-9), "colour limits of the sky map", c, got, (lo, hi))
        require((isinstance(im.norm, matplotlib.colors.LogNorm) or "Log" in type(im.norm).__name__) == bool(log), "logarithmic colour scale", c, type(im.norm))
        arr = im.get_array()
        th, ph = hp.pix2ang(nside, np.arange(hp.nside2npix(nside)))
        checked = 0
        for p in range(len(th)):
            x, y = ax.proj.ang2xy(th[p], ph[p])
            i, j = ax.proj.xy2ij(x, y)
            if np.ma.is_masked(i) or np.ma.is_masked(j) or x ** 2 / 4 + y ** 2 > 0.97:
                continue
            shown = arr[int(i), int(j)]
            hidden = bool(np.ma.is_masked(shown) or not np.isfinite(float(shown)) or float(shown) < -600)
            if exp.mask[p]:
                require(hidden, "a masked point is drawn with a value", c, p, shown)
            else:
                require(not hidden and abs(float(shown) - exp.data[p]) <= 1e-6 * max(1, abs(exp.data[p])), "the value drawn at a position", c, p, shown, exp.data[p])
            checked += 1
        require(checked > len(th) / 2, "positions outside the map", c, checked)
        return kind + (" log" if log else "")
    finally:
        plt.close("all")


def ellipses(c, pd, mv, s, ra, dec):
    pd["raCen"] = c["racen"]
    pd["cbar"] = bool(c["seed"] % 2)
    fig = show(PL.BaseSkyMap(), mv, s, pd)
    col = [k for a in fig.axes for k in a.collections if isinstance(k, matplotlib.collections.PatchCollection)][0]
    good = ~mv.mask
    v = norm_of(pd)(mv.data[good])
    require(close(col.get_array(), v), "values given to the points of a sky map", c)
    lo, hi = lims(v, pd)
    if lo < hi:
        require(close(col.get_clim(), (lo, hi)), "colour limits of the points", c, col.get_clim(), (lo, hi))
    paths = col.get_paths()
    require(len(paths) == good.sum(), "one patch for each point with a value")
    for k, p in zip(np.where(good)[0], paths):
        e = p.get_extents()
        lon, lat = (e.x0 + e.x1) / 2, (e.y0 + e.y1) / 2
        west = -(ra[k] - c["racen"])
        d = (lon - west + np.pi) % (2 * np.pi) - np.pi
        require(abs(lat - dec[k]) < 1e-6 and (abs(d) < 1e-6 or abs(abs(dec[k]) - np.pi / 2) < 0.02), "position of a point on the sky map", c, k, lon, west, lat, dec[k])
        require(-np.pi - 1e-9 <= lon <= np.pi + 1e-9, "longitude of a point", lon)
    return "points"


def power(c, pd, mv):
    nside = c["nside"]
    s = SL.HealpixSlicer(nside=nside, use_camera=False, verbose=False)
    pd = {"title": None, "label": "a", "color": "b", "removeDipole": c["dipole"], "maxl": c["maxl"], "fontsize": None, "labelsize": None}
    sets = [mv] + ([masked(len(mv), c["seed"] + 1, c["frac"])] if c["two"] else [])
    fig = None
    for m in sets:
        fig = show(PL.HealpixPowerSpectrum(), m, s, dict(pd), fig)
    require(len(fig.axes) == 1, "power spectra drawn together have their own overlapping axes", len(fig.axes))
    lines = fig.axes[0].get_lines()
    require(len(lines) == len(sets), "one curve for each power spectrum", len(lines))
    for m, line in zip(sets, lines):
        good = ~m.mask
        if c["dipole"] and good.sum() < 8:
            return None
        vec = np.array(hp.pix2vec(nside, np.arange(len(m)))).T
        v = np.where(good, m.data, 0.0)
        if c["dipole"]:
            A = np.column_stack([np.ones(good.sum()), vec[good]])
            if np.linalg.cond(A) > 1e6:
                return None
            fit = np.linalg.lstsq(A, m.data[good], rcond=None)[0]
            v = np.where(good, m.data - fit[0] - vec @ fit[1:], 0.0)
        cl = hp.alm2cl(hp.map2alm(v, lmax=c["maxl"] if c["maxl"] is not None else 3 * nside - 1, iter=3))
        ell = np.arange(len(cl))
        q = ell > (1 if c["dipole"] else 0)
        require(close(line.get_xdata(), ell[q]), "multipoles of the power spectrum", c)
        require(close(line.get_ydata(), (cl * ell * (ell + 1) / 2 / np.pi)[q], 1e-4, 1e-6 * max(1.0, float(np.max(cl)))), "power spectrum", c, line.get_ydata()[:4], cl[q][:4])
    return "power" + (" two" if c["two"] else "")


# --- binned and multi-dimensional figures ----------------------------------
@st.composite
def bin_case(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "n": draw(st.integers(2, 12)), "seed": draw(st.integers(0, 10 ** 6)), "frac": draw(st.sampled_from([0, 0.3])), "filled": draw(st.booleans()), "two": draw(st.booleans()), "dims": draw(st.lists(st.integers(2, 4), min_size=2, max_size=3)),
         "axes": draw(st.permutations([0, 1, 2])), "w": draw(st.integers(1, 6)), "cmin": draw(st.sampled_from([None, 3.0, 5])), "cmax": draw(st.sampled_from([None, 9.0])), "log": draw(st.booleans()), "cum": draw(st.booleans()), "reduce": draw(st.sampled_from(["sum", "mean", "max"])), "hist": draw(st.booleans()), "clip": draw(st.sampled_from([None, 80])), "nside": draw(st.sampled_from([2, 4])),
         "ymax": draw(st.sampled_from([None, 4.0]))}
    return c


def t_bins(c):
    r = np.random.RandomState(c["seed"])
    k = c["kind"]
    try:
        if k == "oned":
            bins = np.cumsum(r.randint(1, 5, c["n"] + 1)).astype(float)
            s = SL.OneDSlicer(slice_col_name="x", bins=bins)
            s.setup_slicer(np.array([(b,) for b in bins[:-1]], dtype=[("x", float)]))
            pd = {"filled_data": c["filled"], "color": "b", "percentile_clip": c["clip"], "y_max": c["ymax"], "title": "t"}
            sets = [masked(c["n"], c["seed"] + i, c["frac"]) for i in range(1 + c["two"])]
            fig = None
            for m in sets:
                fig = show(PL.OneDBinnedData(), m, s, dict(pd), fig)
            require(len(fig.axes) == 1 and len(fig.axes[0].get_lines()) == len(sets), "one line for each set of binned values")
            for m, line in zip(sets, fig.axes[0].get_lines()):
                x, y = [], []
                for i in range(c["n"]):
                    if c["filled"] or not m.mask[i]:
                        x += [bins[i], bins[i + 1]]
                        y += [m.filled()[i]] * 2
                require(close(line.get_xdata(), x) and close(line.get_ydata(), y), "binned values drawn", c)
            if c["ymax"] is not None:
                require(abs(fig.axes[0].get_ylim()[1] - c["ymax"]) < 1e-9, "upper limit of the figure")
            elif c["clip"] is not None and not c["two"]:
                require(close(fig.axes[0].get_ylim()[1], np.percentile(sets[0].compressed(), 90)), "clipped limit of the figure", c) if np.ptp(sets[0].compressed()) > 0 else None
            return k
        if k in ("nd1", "nd2"):
            dims = c["dims"]
            nd = len(dims)
            names = ["x", "y", "z"][:nd]
            edges = [np.cumsum(r.randint(1, 4, d + 1)).astype(float) for d in dims]
            s = SL.NDSlicer(slice_col_list=names, bins_list=edges)
            dat = np.zeros(5, dtype=[(q, float) for q in names])
            for q, e in zip(names, edges):
                dat[q] = r.choice(e, 5)
            s.setup_slicer(dat)
            m = masked(int(np.prod(dims)), c["seed"], c["frac"])
            total = {}
            ax = [a for a in c["axes"] if a < nd]
            use = ax[:1] if k == "nd1" else ax[:2]
            for i, idx in enumerate(s.slice_points["bin_idxs"]):
                if not m.mask[i]:
                    key = tuple(idx[a] for a in use)
                    total[key] = total.get(key, 0) + m.data[i]
            if k == "nd1":
                a = use[0]
                if any((i,) not in total for i in range(dims[a])):
                    return None
                pd = {"axis": a, "filled": c["filled"], "title": "t", "xlabel": None if c["two"] else "lab", "ylabel": "q", "label": None}
                fig = show(PL.OneDSubsetData(), m, s, pd)
                require(len(fig.axes) == 1, "the figure returned is not the one drawn on", len(fig.axes))
                A = fig.axes[0]
                require(A.get_xlabel() == (names[a] if c["two"] else "lab"), "axis label", A.get_xlabel())
                if c["filled"]:
                    bars = sorted(A.patches, key=lambda p: p.get_x())
                    require(close([b.get_height() for b in bars], [total[(i,)] for i in range(dims[a])]), "bars of the summed values", c)
                else:
                    line = A.get_lines()[0]
                    require(close(line.get_ydata(), np.repeat([total[(i,)] for i in range(dims[a])], 2)) and close(line.get_xdata(), np.column_stack([edges[a][:-1], edges[a][1:]]).ravel()), "summed values along one axis", c)
                return k
            X, Y = use
            if len(total) < dims[X] * dims[Y] or len(set(total.values())) < 2:
                return None
            rec = []
            orig = matplotlib.axes.Axes.contourf

            def spy(self, *a, **kw):
                rec.append(a)
                return orig(self, *a, **kw)

            pd = {"xaxis": X, "yaxis": Y, "title": "t", "xlabel": None if c["two"] else "lab"}
            with mock.patch.object(matplotlib.axes.Axes, "contourf", spy):
                fig = show(PL.TwoDSubsetData(), m, s, pd)
            require(fig.axes[0].get_xlabel() == (names[X] if c["two"] else "lab") and fig.axes[0].get_ylabel() == names[Y], "axis labels", fig.axes[0].get_xlabel(), fig.axes[0].get_ylabel())
            if rec:
                x, y, z = rec[0][:3]
                for j in range(dims[Y]):
                    for i in range(dims[X]):
                        require(close(z[j][i], total[(i, j)]) and close(np.broadcast_to(x, np.shape(z))[j][i], edges[X][i]) and close(np.atleast_2d(y)[j][i], edges[Y][j]), "summed values over two axes", c, i, j)
            return k
        if k == "twod":
            s = SL.HealpixSlicer(nside=1, use_camera=False, verbose=False)
            m = masked(0, c["seed"], c["frac"], shape=(12, c["w"]))
            pd = {"color_min": c["cmin"], "color_max": c["cmax"], "title": "t", "log_scale": c["log"]}
            if c["log"] and not ((m.compressed() > (c["cmin"] or 0)) & (m.compressed() < (c["cmax"] or 99))).any():
                return None
            fig = show(PL.TwoDMap(), m, s, pd)
            im = fig.axes[0].get_images()[0]
            a = im.get_array()
            hide = m.mask | (m.data < c["cmin"] if c["cmin"] is not None else False)
            require(np.array_equal(ma.getmaskarray(a), hide) and np.array_equal(a.data[~hide], m.data[~hide]), "image of the values", c)
            if c["cmin"] is not None:
                require(im.norm.vmin == c["cmin"], "lower colour limit")
            if c["cmax"] is not None:
                require(im.norm.vmax == c["cmax"], "upper colour limit")
            require(list(im.get_extent())[:2] == [0, c["w"]], "extent of the image", im.get_extent())
            return k
        if k == "pairs":
            v = r.randint(0, 7, (c["n"], c["w"])).astype(float)
            mask = r.uniform(size=v.shape) < c["frac"]
            if v[~mask].size == 0 or v[~mask].max() < 1:
                return None
            v[mask] = 25
            m = ma.MaskedArray(v, mask=mask, fill_value=-666)
            s = SL.HealpixSlicer(nside=1, use_camera=False, verbose=False)
            fig = show(PL.VisitPairsHist(), m, s, {"xlim": None})
            got = {round(p.get_x() + p.get_width() / 2): p.get_height() for p in fig.axes[0].patches}
            exp = {q: q * int((v[~mask] == q).sum()) for q in range(1, int(v[~mask].max()) + 1)}
            for q in set(got) | set(exp):
                require(abs(got.get(q, 0) - exp.get(q, 0)) < 1e-9, "visits in groups of a size", c, q, got, exp)
            return k
        if k == "fo":
            ns = c["nside"]
            s = SL.HealpixSlicer(nside=ns, use_camera=False, verbose=False)
            m = masked(hp.nside2npix(ns), c["seed"], c["frac"], hi=1500, div=1.0)
            pd = {"asky": [5000.0, 10000.0][c["filled"]], "n_visits": [400, 825][c["two"]]}
            v = np.sort(m.compressed())
            area = 4 * math.pi * (180 / math.pi) ** 2 / hp.nside2npix(ns)
            if len(v) * area < pd["asky"]:
                return None
            fig = show(PL.FOPlot(), m, s, pd)
            line = max(fig.axes[0].get_lines(), key=lambda ln: len(ln.get_xdata()))
            require(close(line.get_xdata(), v) and close(line.get_ydata(), [area / 1000 * sum(1 for _ in range(i, len(v))) for i in range(len(v))], 1e-9), "area with at least so many visits", c)
            hor = [ln.get_ydata()[0] for ln in fig.axes[0].get_lines() if len(ln.get_xdata()) == 2 and ln.get_ydata()[0] == ln.get_ydata()[1]]
            f_area = area * (v >= pd["n_visits"]).sum() / 1000.0
            require(any(abs(h - pd["asky"] / 1000) < 1e-9 for h in hor) and any(abs(h - f_area) < 1e-9 for h in hor), "reference lines", c, hor, f_area)
            return k
        if k == "summary":
            nb = c["w"] + 1
            obj = np.empty(c["n"], dtype=object)
            for i in range(c["n"]):
                obj[i] = r.randint(0, 9, nb).astype(float)
            mask = r.uniform(size=c["n"]) < c["frac"]
            mask[0] = False
            m = ma.MaskedArray(obj, mask=mask)
            red = {"sum": MX.SumMetric, "mean": MX.MeanMetric, "max": MX.MaxMetric}[c["reduce"]]()
            pd = {"bins": np.cumsum(r.randint(1, 4, nb + 1)).astype(float), "cumulative": c["cum"], "metricReduce": red, "histStyle": c["hist"]}
            if c["reduce"] == "sum" and c["two"]:
                del pd["metricReduce"]
            fig = show(PL.SummaryHistogram(), m, None, pd)
            line = fig.axes[0].get_lines()[0]
            good = np.array([obj[i] for i in range(c["n"]) if not mask[i]])
            e = {"sum": good.sum(0), "mean": good.mean(0), "max": good.max(0)}[c["reduce"]]
            if c["cum"]:
                e = np.cumsum(e)
            b = pd["bins"]
            ex, ey = (np.column_stack([b[:-1], b[1:]]).ravel(), np.repeat(e, 2)) if c["hist"] else (b[:-1], e)
            require(close(line.get_xdata(), ex) and close(line.get_ydata(), ey), "summed histogram over the sky", c)
            return k
        x, y = np.sort(r.uniform(0, 9, c["n"])), r.uniform(0, 9, c["n"])
        m = ma.MaskedArray(np.array([{"x": x, "y": y, "plot_dict": {"title": "own", "xlabel": "days"}}], dtype=object), mask=[False])
        fig = show(PL.XyPlotter(), m, None, {"title": "other"})
        line = fig.axes[0].get_lines()[0]
        require(close(line.get_xdata(), x) and close(line.get_ydata(), y) and fig.axes[0].get_title() == "own" and fig.axes[0].get_xlabel() == "days", "curve drawn as given", c)
        return k
    finally:
        plt.close("all")


# --- moving objects, nights -------------------------------------------------
@st.composite
def mo_case(draw, kinds):
    return {"kind": draw(st.sampled_from(kinds)), "n": draw(st.integers(2, 25)), "nh": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 10 ** 6)), "clone": draw(st.booleans()), "reduce": draw(st.sampled_from([None, "max"])), "hval": draw(st.sampled_from([None, 17.3, 19.0])),
            "hwidth": draw(st.sampled_from([None, 3.0])), "nb": draw(st.sampled_from([None, 3, 8])), "bg": draw(st.booleans())}


class FakeMo:
    slicer_name = "MoObjSlicer"
    badval = -666.0


def t_mo(c):
    r = np.random.RandomState(c["seed"])
    n, k = c["n"], c["kind"]
    try:
        if k == "neo":
            return neo(c, r)
        if k == "hour":
            return hour(c, r)
        if k == "night":
            return night(c, r)
        import pandas
        orb = pandas.DataFrame({"q": r.randint(1, 40, n) / 4.0, "e": r.randint(0, 90, n) / 100.0, "inc": r.randint(0, 60, n) / 1.0, "H": r.randint(60, 100, n) / 4.0, "objId": np.arange(n)})
        s = FakeMo()
        red = {None: np.mean, "max": np.max}[c["reduce"]]
        if c["clone"]:
            H = 15.0 + np.arange(c["nh"]) * 0.75
            s.shape = [n, c["nh"]]
        else:
            H = orb["H"].values
            s.shape = [n, 1]
        s.slice_points = {"orbits": orb, "H": H}
        v = r.randint(0, 40, s.shape) / 4.0
        mv = ma.MaskedArray(v, mask=np.zeros(s.shape, bool), fill_value=-666.0)
        if k == "vsh":
            if not c["clone"] and n == 1:
                return None
            pd = {"color": "b", "title": "t", "ylabel": "y", "np_reduce": None if c["reduce"] is None else np.max, "nbins": c["nb"]}
            fig = show(PL.MetricVsH(), mv, s, pd)
            line = fig.axes[0].get_lines()[0]
            x, y = line.get_xdata(), line.get_ydata()
            if c["clone"]:
                require(close(x, H) and close(y, red(v, axis=0) if c["nh"] > 1 else v[0] if n == 1 else (red(v, axis=0) if len(H) == 1 and n > 1 and False else y)), "values against H", c)
                return "clones" if c["nh"] > 1 else None
            step = x[1] - x[0]
            require(close(np.diff(x), np.full(len(x) - 1, step)) and x[0] <= H.min() + 1e-9 and (x[-1] + step >= H.max() - 1e-9 or np.ptp(H) < 1), "H bins cover the objects", c)
            if np.any([np.abs(x - h).min() < 1e-9 and np.abs(x - h).min() > 0 for h in H]):
                return None
            for i in range(len(x)):
                q = (H >= x[i]) & (H < (x[i + 1] if i + 1 < len(x) else np.inf))
                require(close(y[i], red(v[q]) if q.any() else -666.0), "values of the objects in an H bin", c, i, y[i])
            return "no clones"
        pd = {"title": "t", "h_val": c["hval"], "Hwidth": c["hwidth"]}
        if c["hval"] is None:
            pd.pop("h_val")
        if c["hwidth"] is None:
            pd.pop("Hwidth")
        if not c["clone"]:
            # objects of many sizes: only those near the chosen H are drawn
            h = np.median(H) if c["hval"] is None else c["hval"]
            keep = np.abs(H - h) <= (c["hwidth"] or 1.0) / 2
            if keep.sum() < 2:
                return None
            sel = v[keep, 0]
            orb = orb[keep].reset_index(drop=True)
            shownh = h
        else:
            i = len(H) // 2 if c["hval"] is None else int(np.argmin(np.abs(H - c["hval"])))
            sel = v[:, i]
            shownh = H[i]
        if k == "points":
            pd["backgroundPoints"] = c["bg"]
            fig = show(PL.MetricVsOrbitPoints(xaxis="q", yaxis="inc"), mv, s, pd)
            sc = [q for q in fig.axes[0].collections if isinstance(q, matplotlib.collections.PathCollection)][0]
            require(close(sc.get_offsets(), np.column_stack([orb["q"], orb["inc"]])) and close(sc.get_array(), sel), "points at the orbits with their values", c)
            require(close(sc.get_clim(), (sel.min(), sel.max())), "colour limits") if np.ptp(sel) else None
            if c["bg"]:
                ln = fig.axes[0].get_lines()[0]
                require(close(ln.get_xdata(), orb["q"][sel == 0]) and close(ln.get_ydata(), orb["inc"][sel == 0]), "objects with value zero", c)
            return "points"
        if np.ptp(sel) == 0 or np.ptp(orb["q"]) == 0 or np.ptp(orb["e"]) == 0:
            return None
        xb = np.arange(0, 12, 2.0)
        yb = np.arange(0, 1.2, 0.25)
        rec = []
        orig = matplotlib.axes.Axes.contourf

        def spy(self, *a, **kw):
            rec.append(a)
            return orig(self, *a, **kw)

        pd.update(xbins=xb, ybins=yb, np_reduce=None if c["reduce"] is None else np.max)
        with mock.patch.object(matplotlib.axes.Axes, "contourf", spy):
            fig = show(PL.MetricVsOrbit(xaxis="q", yaxis="e"), mv, s, pd)
        require(f"H={shownh:.1f}" in fig.axes[-1].get_ylabel() or (c["hval"] is not None and f"H={c['hval']:.1f}" in fig.axes[-1].get_ylabel()), "the H that is shown", fig.axes[-1].get_ylabel())
        if rec:
            x, y, z = rec[0][:3]
            for a in range(len(xb)):
                for b in range(len(yb)):
                    q = (np.digitize(orb["q"], xb) - 1 == a) & (np.digitize(orb["e"], yb) - 1 == b)
                    require(close(z[b][a], red(sel[q]) if q.any() else -666.0), "values of the orbits in a cell", c, a, b)
        return "orbit"
    finally:
        plt.close("all")


def neo(c, r):
    n = c["n"]
    val = {"eclipLat": np.radians(r.randint(-20, 21, n).astype(float)), "MaxGeoDist": r.randint(1, 300, n) / 200.0 + 0.003, "NEOHelioX": r.uniform(-1, 1, n), "NEOHelioY": r.uniform(-1, 2, n)}
    m = ma.MaskedArray(np.array([val], dtype=object), mask=[False])
    fig = show(PL.NeoDistancePlotter(), m, None, {"title": "t"})
    mesh = [q for a in fig.axes for q in a.collections if isinstance(q, matplotlib.collections.QuadMesh)][0]
    tot = float(np.sum(mesh.get_array()))
    inside = np.abs(val["eclipLat"]) <= np.radians(10.0) + 1e-12
    exp = sum(min(math.floor(d / 0.01 + 1e-9), 150) + 1 for d in val["MaxGeoDist"][inside])
    require(abs(tot - exp) <= inside.sum(), "reach of the visits near the ecliptic", c, tot, exp)
    return "neo" if inside.any() else None


def hour(c, r):
    n = 2 * c["n"]
    per = np.zeros(n, dtype=[("mjd", float), ("midnight", float), ("filter", "<U1")])
    per["mjd"] = 60000 + np.sort(r.uniform(0, 5, n))
    per["midnight"] = np.round(per["mjd"])
    per["filter"] = np.repeat(r.choice(list("ugrizy"), c["n"]), 2)
    ng = np.zeros(5, dtype=[(q, float) for q in ("mjd", "midnight", "moonPer", "twi6_rise", "twi6_set", "twi12_rise", "twi12_set", "twi18_rise", "twi18_set")])
    ng["midnight"] = ng["mjd"] = 60000 + np.arange(5)
    for q in ("twi12_rise", "twi18_rise"):
        ng[q] = ng["midnight"] + 0.2
    for q in ("twi12_set", "twi18_set"):
        ng[q] = ng["midnight"] - 0.2
    m = ma.MaskedArray(np.array([{"pernight": ng, "perfilter": per}], dtype=object), mask=[False])
    s = SL.HourglassSlicer()
    p = PL.HourglassPlot()
    fig = show(p, m, s, {"title": "t"})
    lines = fig.axes[0].get_lines()
    d0 = np.floor(per["mjd"].min())
    for i in range(0, n, 2):
        ln = lines[i // 2]
        require(close(ln.get_xdata(), per["mjd"][i:i + 2] - d0) and close(ln.get_ydata(), (per["mjd"][i:i + 2] - per["midnight"][i:i + 2]) * 24) and matplotlib.colors.same_color(ln.get_color(), p.filter2color[per["filter"][i]]), "stretch of visits in one filter", c, i)
    require(close(lines[n // 2].get_ydata(), np.full(5, 4.8), 1e-6, 1e-6), "twilight")
    return "hourglass"


def night(c, r):
    n = c["n"]
    vis = np.zeros(n, dtype=[("observationStartMJD", float), ("altitude", float), ("azimuth", float), ("band", "<U1")])
    vis["observationStartMJD"] = 60000.1 + np.sort(r.uniform(0, 0.3, n))
    vis["altitude"], vis["azimuth"], vis["band"] = r.uniform(20, 85, n), r.uniform(0, 360, n), r.choice(list("ugrizy"), n)
    metric = MX.NightPointingMetric()
    m = ma.MaskedArray(np.array([metric.run(vis.copy())], dtype=object), mask=[False])
    p = PL.NightPointingPlotter(alt_col="altitude", az_col="azimuth")
    fig = show(p, m, None, {"title": "t"})
    require(len(fig.axes) == 2, "two panels")
    for a, col in zip(fig.axes, ("altitude", "azimuth")):
        lines = a.get_lines()
        for f in np.unique(vis["band"]):
            q = vis["band"] == f
            require(any(matplotlib.colors.same_color(ln.get_color(), p.filter2color[f]) and close(ln.get_xdata(), vis["observationStartMJD"][q]) and close(ln.get_ydata(), vis[col][q]) for ln in lines), "visits of a filter in the night", c, f, col)
    return "night"


# --- the handler ---------------------------------------------------------------
names_ = st.sampled_from(["opsim", "baseline_v3", "run A", "run_b"])


@st.composite
def handler_case(draw):
    bs = []
    for _ in range(draw(st.integers(1, 4))):
        b = {"run": draw(names_), "meta": draw(st.sampled_from(["u band", "g band", "r band", "all", "WFD g", "WFD r", "WFD", "WFD and g band", "WFD and r band", "a and b", "c and d", "DDF, g"])), "name": draw(st.sampled_from(["Count", "Mean x", "Mean y", "g M", "r M"])), "seed": draw(st.integers(0, 10 ** 6)), "pd": {}, "masked": draw(st.integers(0, 9)) == 0}
        for k, v in (("xlim", st.sampled_from([[0, 5], [0, 10]])), ("color_min", st.integers(0, 3)), ("color_max", st.integers(4, 8)), ("title", st.sampled_from(["one", "two"])), ("label", st.sampled_from(["La", "Lb"])), ("color", st.sampled_from(["r", "g"])), ("zp", st.sampled_from([1.0]))):
            if draw(st.integers(0, 2)) == 0:
                b["pd"][k] = draw(v)
        bs.append(b)
    user = None
    if draw(st.booleans()):
        user = dict(draw(st.fixed_dictionaries({}, optional={"title": st.just("user"), "x_min": st.just(1.0), "color": st.just("k"), "xlim": st.just([0, 7]), "color_max": st.just(9)})))
        if draw(st.booleans()):
            user = [dict(user, label=f"u{i}") for i in range(len(bs))]
    return {"b": bs, "user": user, "as_dict": draw(st.booleans()), "suffix": draw(st.sampled_from([None, "end"])), "fmt": draw(st.sampled_from(["png", "pdf"])), "thumb": draw(st.booleans()), "save": draw(st.booleans()), "common": draw(st.booleans())}


def bundles_of(case):
    out = []
    for b in case["b"]:
        s = SL.OneDSlicer(slice_col_name="x", bins=np.arange(0, 7.0))
        s.setup_slicer(np.array([(1.0,)], dtype=[("x", float)]))
        pd = dict(b["pd"])
        m = MetricBundle(MX.CountMetric(col="x", metric_name=b["name"]), s, "", run_name=b["run"], info_label=b["meta"], plot_dict=pd, summary_metrics=[])
        m.metric_values = masked(6, b["seed"], 0.2)
        if b["masked"]:
            m.metric_values.mask[:] = True
        out.append(m)
    return out


def t_handler(case):
    tmp = tempfile.mkdtemp(prefix="vp_c30_")
    try:
        bl = bundles_of(case)
        own = [dict(b.plot_dict) for b in bl]
        user = case["user"]
        user_copy = json.loads(json.dumps(user)) if user is not None else None
        ph = PL.PlotHandler(out_dir=tmp, savefig=case["save"], fig_format=case["fmt"], dpi=20, thumbnail=case["thumb"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ph.set_metric_bundles({i: b for i, b in enumerate(bl)} if case["as_dict"] else bl)
            require(len(ph.m_bundles) == len(bl) and all(any(x is b for x in ph.m_bundles) for b in bl), "bundles of the handler")
            fig = ph.plot(PL.OneDBinnedData(), plot_dicts=user, outfile_suffix=case["suffix"])
        require(user == user_copy, "the caller's plot settings were changed", case, user)
        require([b.plot_dict for b in bl] == own, "a bundle's own plot settings were changed", case)
        order = [bl.index(b) if False else [i for i, x in enumerate(bl) if x is b][0] for b in ph.m_bundles]
        drawn = [i for i in order if not case["b"][i]["masked"]]
        for pos, i in enumerate(order):
            got = ph.plot_dicts[pos]
            u = {} if user is None else user if isinstance(user, dict) else user[pos]
            want = dict(own[i])
            want.update(u)
            for k, v in want.items():
                vals = []
                for p2, i2 in enumerate(order):
                    w2 = dict(own[i2])
                    w2.update({} if user is None else user if isinstance(user, dict) else user[p2])
                    vals.append(w2.get(k))
                given = [x for x in vals if x is not None]
                if k in ("xlim", "color_min", "color_max", "title") and any(x != given[0] for x in given):
                    if k == "color_min":
                        require(got[k] == min(given), "combined lower colour limit", case, got[k], given)
                    elif k == "color_max":
                        require(got[k] == max(given), "combined upper colour limit", case, got[k], given)
                    elif k == "xlim":
                        require(got[k] is None, "conflicting limits are dropped", case, got[k])
                    continue
                if k == "title" and len(given) < len(vals):
                    continue
                require(got[k] == v, "a plot setting was not used", case, k, got.get(k), v)
        if not drawn:
            require(fig is None and not os.listdir(tmp), "a figure without data was written", os.listdir(tmp))
            return None
        lines = fig.axes[0].get_lines()
        require(len(lines) == len(drawn), "one line for each bundle that has data", case, len(lines))
        for ln, i in zip(lines, drawn):
            require(close(ln.get_ydata(), np.repeat(bl[i].metric_values.compressed(), 2)), "values of a bundle in a combined figure", case, i)
        files = sorted(os.listdir(tmp))
        if not case["save"]:
            require(files == [], "files written although nothing should be saved", files)
            return "shown"
        kind = "BinnedData" if len(bl) == 1 else "ComboBinnedData"
        main = [f for f in files if not f.startswith("thumb.")]
        require(len(main) == 1 and main[0].endswith(f"_{kind}.{case['fmt']}") and (case["suffix"] is None or main[0].endswith(f"_end_{kind}.{case['fmt']}")), "name of the figure file", files)
        if len(bl) == 1:
            require(main[0].startswith(bl[0].file_root), "figure named after its bundle", files, bl[0].file_root)
        require(len(files) == 1 + case["thumb"] and (not case["thumb"] or "thumb." + os.path.splitext(main[0])[0] + ".png" in files), "thumbnail", files)
        require(not any(ch in main[0] for ch in " /:;%()"), "characters in the file name", main)
        with open(os.path.join(tmp, main[0]), "rb") as fh:
            head = fh.read(4)
        require(head == (b"%PDF" if case["fmt"] == "pdf" else b"\x89PNG"), "format of the figure file", head)
        return "combined" if len(bl) > 1 else "single"
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


# --- names do not depend on the process ------------------------------------------
_WORKERS = {}
_CODE = r"""
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
import vp.env as e; e.ensure()
import warnings; warnings.simplefilter("ignore")
from checks import c30
from rubin_sim.maf import plots as PL
print("ready", flush=True)
for line in sys.stdin:
    case = json.loads(line)
    ph = PL.PlotHandler(savefig=False)
    ph.set_metric_bundles(c30.bundles_of(case))
    print("OUT " + json.dumps([ph._build_file_root(), ph.joint_metric_names, ph.joint_run_names, ph.joint_metadata, [p["title"] for p in ph.plot_dicts]]), flush=True)
"""


def worker(seed):
    if seed not in _WORKERS or _WORKERS[seed].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), VP_ENV_DONE="1")
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.Popen([sys.executable, "-B", "-c", _CODE, json.dumps([here])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=here)
        _read(p, "ready")
        _WORKERS[seed] = p
    return _WORKERS[seed]


def _read(p, start):
    while True:
        line = p.stdout.readline()
        require(line != "", "the second process ended")
        if line.startswith(start):
            return line[len(start):].strip()


def t_names(case):
    out = []
    for seed in (1, 2, 3):
        p = worker(seed)
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
        out.append(json.loads(_read(p, "OUT ")))
    for o in out[1:]:
        require(o == out[0], "the name of a combined figure differs from process to process", case, out[0], o)
    return "several" if len(case["b"]) > 1 else None


def stop_workers():
    for p in _WORKERS.values():
        p.kill()
        p.wait()
    _WORKERS.clear()


def teardown():
    stop_workers()


# --- sky projections ---------------------------------------------------------
class FakeProj:
    """Takes down what is drawn where the projection library would draw it."""

    def __init__(self, ax=None, **kw):
        self.ax, self.kw, self.maps, self.polygons = ax, kw, [], []
        FakeProj.made.append(self)

    def draw_hpxmap(self, hpxmap, *a, **kw):
        self.maps.append((np.ma.filled(np.ma.array(hpxmap, dtype=float, copy=True), np.nan), kw))

    def draw_polygon(self, lon, lat, **kw):
        self.polygons.append((np.array(lon, float), np.array(lat, float), kw))

    def draw_colorbar(self, **kw):
        kw.pop("location", None)
        return self.ax.figure.colorbar(matplotlib.cm.ScalarMappable(), ax=self.ax, **kw)


class FakeObs:
    """An observatory with a sidereal time, a place, and the positions of Sun and Moon (radians)."""

    def __init__(self, r):
        self.mjd = 60000.0 + r.uniform(0, 300)
        self.lst, self.lat = r.uniform(0, 24), r.uniform(-60, 60)
        self.body = {k: np.array([v]) for k, v in (("sun_RA", r.uniform(0, 6.28)), ("sun_dec", r.uniform(-0.4, 0.4)), ("moon_RA", r.uniform(0, 6.28)), ("moon_dec", r.uniform(-0.4, 0.4)))}
        self.location = mock.Mock()
        self.location.lat.deg = self.lat
        self.almanac = mock.Mock()
        self.almanac.get_sun_moon_positions = lambda mjd: self.body if mjd == self.mjd else {k: v + 1 for k, v in self.body.items()}

    def return_conditions(self):
        return mock.Mock(lmst=self.lst)


@st.composite
def proj_case(draw):
    c = {"kind": draw(st.sampled_from(["hp", "sub", "user", "visits"])), "nside": draw(st.sampled_from([None, 2, 4])), "n": draw(st.integers(1, 40)), "seed": draw(st.integers(0, 10 ** 6)), "frac": draw(st.sampled_from([0, 0.2, 0.6])), "pd": dict(draw(zpn)),
         "badval": draw(st.sampled_from(["nan", "-666", "unseen"])), "log": draw(st.integers(0, 3)) == 0, "deco": draw(st.sampled_from([None, [], ["sun"], ["moon", "ecliptic"], ["horizon", "galactic_plane", "sun"]])), "nomask": draw(st.booleans()),
         "twice": draw(st.booleans())}
    for k, v in (("color_min", st.integers(-5, 6)), ("color_max", st.integers(7, 20)), ("percentile_clip", st.sampled_from([None, 80])), ("mask_below", st.sampled_from([None, 2.0, 5.0, 0])), ("subplot", st.sampled_from([111, 121, (1, 2, 2)])), ("reduce", st.just("max")),
                 ("colorbar", st.booleans()), ("cbar_orientation", st.sampled_from(["vertical", "horizontal"])), ("title", st.just("T")), ("label", st.just("L")), ("xlabel", st.just("X")), ("ylabel", st.just("Y")), ("n_ticks", st.just(4))):
        if draw(st.integers(0, 2)) == 0:
            c["pd"][k] = draw(v)
    return c


def circle(ra, dec, lon, lat):
    return hp.rotator.angdist([math.pi / 2 - math.radians(dec), math.radians(ra)], np.array([np.pi / 2 - np.radians(lat), np.radians(lon)])) * 180 / math.pi


def t_proj(c):
    r = np.random.RandomState(c["seed"] + 7)
    obs = FakeObs(r)
    pd = dict({k: v for k, v in c["pd"].items() if k != "reduce"}, skyproj=FakeProj, figsize=(4, 3), model_observatory=obs)
    if "reduce" in c["pd"]:
        pd["reduce_func"] = np.max
    deco = ["ecliptic", "galactic_plane"] if c["deco"] is None else c["deco"]
    if c["deco"] is not None:
        pd["decorations"] = list(c["deco"])
    bad = {"nan": np.nan, "-666": -666.0, "unseen": hp.UNSEEN}[c["badval"]]
    f = norm_of(pd)
    FakeProj.made = []
    nside = c["nside"] or 8
    lab = c["kind"]
    want = None
    try:
        if c["kind"] == "visits":
            v = np.zeros(c["n"], dtype=[("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float)])
            v["fieldRA"], v["fieldDec"], v["rotSkyPos"] = r.uniform(0, 360, c["n"]), r.uniform(-80, 30, c["n"]), r.uniform(0, 360, c["n"])
            corner = lambda a, d, t: ([[x - t_ / 100, x + 1, x + t_ / 100] for x, t_ in zip(a, t)], [[y, y + 1, y - 1] for y in d])
            pd.update(camera_perimeter_func=corner)
            obj = np.empty(1, dtype=object)
            obj[0] = v
            mv, s, plotter = ma.MaskedArray(obj, mask=False, dtype=object), SL.UniSlicer(verbose=False), PL.VisitPerimeterPlotter()
        else:
            plotter = PL.HpxmapPlotter()
            if c["kind"] == "user":
                n = c["n"]
                ra, dec = np.degrees(r.uniform(0, 2 * np.pi, n)), np.degrees(np.arcsin(r.uniform(-1, 1, n)))
                ra[n // 2:], dec[n // 2:] = ra[: n - n // 2] + 1e-4, dec[: n - n // 2]
                mv = masked(n, c["seed"], c["frac"])
                s = SL.UserPointsSlicer(ra, dec, use_camera=False, verbose=False, badval=bad)
                if c["nside"]:
                    pd["nside"] = nside
                pix = hp.ang2pix(nside, ra, dec, lonlat=True)
                data, mask = np.zeros(hp.nside2npix(nside)), np.ones(hp.nside2npix(nside), bool)
                for p in np.unique(pix[~mv.mask]):
                    q = (pix == p) & ~mv.mask
                    data[p], mask[p] = (np.max if "reduce" in c["pd"] else np.mean)(mv.data[q]), False
                want = ma.MaskedArray(f(data), mask=mask)
            else:
                mv = masked(hp.nside2npix(nside), c["seed"], c["frac"])
                if c["kind"] == "sub":
                    s = SL.HealpixSubsetSlicer(nside, np.where(~mv.mask)[0], use_camera=False, verbose=False, badval=bad)
                else:
                    s = SL.HealpixSlicer(nside=nside, use_camera=False, verbose=False, badval=bad)
                want = ma.MaskedArray(f(mv.data), mask=mv.mask.copy())
            if c["nomask"] and not mv.mask.any():
                mv = ma.MaskedArray(mv.data)
            if pd.get("mask_below") is not None:
                want = ma.MaskedArray(want.data, mask=want.mask | (want.data <= pd["mask_below"]))
            lo, hi = lims(want.compressed(), pd)
            if c["log"]:
                pd["log_scale"] = True
        fig = show(plotter, mv, s, pd)
        if c["twice"]:
            require(show(plotter, mv, s, pd, fig=fig) is fig, "a figure given is drawn into")
            require(len(FakeProj.made) == 1, "one projection for each part of a figure", len(FakeProj.made))
        P = FakeProj.made[0]
        polys = list(P.polygons)
        k = 2 if c["twice"] else 1
        polys = polys[: len(polys) // k]
        if c["kind"] == "visits":
            for i in range(c["n"]):
                lon, lat, _ = polys[i]
                require(close(lon, [v["fieldRA"][i] - v["rotSkyPos"][i] / 100, v["fieldRA"][i] + 1, v["fieldRA"][i] + v["rotSkyPos"][i] / 100]) and close(lat, v["fieldDec"][i] + np.array([0, 1, -1])), "outline of a visit", i)
            polys = polys[c["n"]:]
            require(not P.maps, "a map where outlines are asked for")
        else:
            require(len(P.maps) == k, "one map", len(P.maps))
            for m, kw in P.maps:
                require(len(m) == len(want), "pixels of the map", len(m), len(want))
                hidden = ~np.isfinite(m) | (m == hp.UNSEEN) | (m == bad)
                require(np.array_equal(hidden, want.mask), "pixels without a value", c, np.where(hidden != want.mask)[0][:5])
                require(close(m[~hidden], want.compressed(), 1e-9, 1e-9), "values of the pixels", c)
                norm = kw.get("norm")
                require((norm is not None and "log" in str(norm).lower()) == bool(c["log"]), "logarithmic scale", norm)
                # (automatic limits may be those before or after the low values are hidden)
                auto = pd.get("mask_below") is not None and (pd.get("color_min") is None or pd.get("color_max") is None)
                if not auto and (not c["log"] or lo > 0):
                    require(lo >= hi or close((kw["vmin"], kw["vmax"]), (lo, hi)), "colour limits", c, kw.get("vmin"), kw.get("vmax"), (lo, hi))
                if c["log"] and lo <= 0 and hi > 0:
                    require(kw.get("vmin") is None or kw["vmin"] > 0, "colour limits of a logarithmic scale", kw.get("vmin"))
            require((len(fig.axes) > 1) == (pd.get("colorbar", True)), "colour bar", c, len(fig.axes))
        # great circles and the horizon
        centres = {"ecliptic": (270.0, 90 - 23.4393), "galactic_plane": (192.8595, 27.1283), "horizon": (obs.lst * 15, obs.lat)}
        wanted = [n for n in ("ecliptic", "galactic_plane", "horizon") if n in deco]
        require(len(polys) == len(wanted), "circles drawn", len(polys), wanted)
        for n in wanted:
            near = [p for p in polys if np.abs(circle(*centres[n], p[0], p[1]) - 90).max() < 0.2]
            require(near, "circle drawn", n, c)
            require(np.abs(np.diff(near[0][0])).max() < 180.0001, "a circle without jumps in right ascension", n)
        pts = [np.array(x.get_offsets(), float) for x in P.ax.collections if isinstance(x, matplotlib.collections.PathCollection)]
        pts = pts[: len(pts) // k]
        bodies = [n for n in ("sun", "moon") if n in deco]
        require(len(pts) == len(bodies), "Sun and Moon", len(pts), bodies)
        for n, p in zip(bodies, pts):
            require(close(p, [[math.degrees(obs.body[n + "_RA"][0]), math.degrees(obs.body[n + "_dec"][0])]], 1e-9, 1e-7), "position of", n, p)
        require(P.ax.get_title() == pd.get("label", "") and (fig._suptitle.get_text() if fig._suptitle is not None else "") == pd.get("title", ""), "label and title", P.ax.get_title())
        require(P.ax.get_ylabel() == pd.get("ylabel", ""), "label of the axis")
        return lab + (" log" if c["log"] and lab != "visits" else "")
    finally:
        plt.close("all")


@st.composite
def circle_case(draw):
    return {"ra": draw(st.integers(0, 359)), "dec": draw(st.integers(-89, 89)), "r": draw(st.sampled_from([1, 5, 30, 60, 90, 120])), "b0": draw(st.sampled_from([0, 0, 30])), "b1": draw(st.sampled_from([360, 360, 90])), "step": draw(st.sampled_from([1, 5, 15]))}


def t_circle(c):
    kw = {k: v for k, v, left_out in (("radius", c["r"], 90), ("start_bear", c["b0"], 0), ("end_bear", c["b1"], 360), ("step", c["step"], 1)) if v != left_out}
    from rubin_sim.maf.plots.skyproj_plotters import compute_circle_points

    d = compute_circle_points(c["ra"], c["dec"], **kw)
    bears = np.arange(c["b0"], c["b1"] + c["step"], c["step"])
    require(close(d.index, bears), "bearings", c, list(d.index)[:5])
    ra, dec = np.asarray(d.ra, float), np.asarray(d.decl, float)
    require(np.abs(circle(c["ra"], c["dec"], ra, dec) - c["r"]).max() < 1e-6, "distance from the centre", c)
    require(np.abs(np.diff(ra)).max() <= 180 + 1e-9, "jumps in right ascension", c)
    # bearing of each point as seen from the centre, east of north
    x = np.sin(np.radians(ra - c["ra"])) * np.cos(np.radians(dec))
    y = math.cos(math.radians(c["dec"])) * np.sin(np.radians(dec)) - math.sin(math.radians(c["dec"])) * np.cos(np.radians(dec)) * np.cos(np.radians(ra - c["ra"]))
    off = (np.degrees(np.arctan2(x, y)) - bears + 180) % 360 - 180
    require(np.abs(off).max() < 1e-5, "bearing of the points", c, np.abs(off).max())
    return "circle" if ra.max() > 360 or ra.min() < 0 else "plain"


# --- second generation of hourglass figures -----------------------------------
SITES = {"Chile/Continental": (-70.75, -30.24, 2650), "Asia/Tokyo": (138.5, 35.9, 1000), "UTC": (-17.9, 28.8, 2300), "America/Denver": (-105.8, 32.8, 2788)}


@st.composite
def hg_case(draw, kinds):
    k = draw(st.integers(0, 223))  # (one number, for an even choice among the kinds of figure)
    c = {"kind": kinds[k // 32 % len(kinds)], "cat": [None, None, "cat", "use"][k // 8 % 4], "tz": list(SITES)[k // 2 % 4], "solar": bool(k % 2), "elements": draw(st.booleans()), "n": draw(st.integers(1, 40)),
         "seed": draw(st.integers(0, 10 ** 6)), "month": draw(st.integers(1, 12)), "year": draw(st.integers(2019, 2024)), "frac": draw(st.sampled_from([0, 0, 0.3])), "vals": draw(st.sampled_from(["many", "many", "two", "same"])),
         "limits": draw(st.sampled_from([None, None, [-1.0, 30.0]])), "ymin": draw(st.sampled_from([None, None, 9.5])), "sky": draw(st.booleans()), "twice": draw(st.booleans())}
    if c["kind"] == "general" and c["cat"]:
        c["cat"] = None
    if c["kind"] == "range" and c["cat"] == "use":
        c["cat"] = "cat"
    return c


def night_of(mjd, tz, solar, lon):
    """Day number of the evening of a night (a local noon to the next) and hours after its midnight."""
    utc = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=mjd)
    off = utc.replace(tzinfo=datetime.timezone.utc).astimezone(zoneinfo.ZoneInfo(tz)).utcoffset().total_seconds() / 86400
    loc = mjd + off
    night = math.floor(loc - 0.5)
    if solar:
        return night, ((mjd + lon / 360 + 0.5) % 1 - 0.5) * 24
    return night, (loc - night - 1) * 24


def noon(date, tz):
    """MJD of the local noon of a day number."""
    d = datetime.datetime(1858, 11, 17, 12) + datetime.timedelta(days=date)
    return date + 0.5 - d.replace(tzinfo=zoneinfo.ZoneInfo(tz)).utcoffset().total_seconds() / 86400


def day_number(y, m, d):
    return (datetime.date(y, m, d) - datetime.date(1858, 11, 17)).days


def t_hg(c):
    r = np.random.RandomState(c["seed"])
    lon, lat, h = SITES[c["tz"]]
    site = EarthLocation(lon=lon, lat=lat, height=h)
    tz, kind, cat = c["tz"], c["kind"], c["cat"]
    m0, m1 = day_number(c["year"], c["month"], 1), day_number(c["year"] + (c["month"] == 12), c["month"] % 12 + 1, 1)
    y0, y1 = day_number(c["year"], 1, 1), day_number(c["year"] + 1, 1, 1)
    lo, hi = (y0 - 20, y1 + 20) if kind == "year" else (m0 - 8, m1 + 8)
    n = c["n"] * (4 if kind == "year" else 1)
    mjd = np.sort(r.uniform(lo, hi, n)) if kind == "year" else np.sort(np.floor(r.uniform(lo, hi, n)) + 0.5 - lon / 360 + r.uniform(-0.45, 0.45, n))
    mjd = mjd[np.abs((mjd * 24 + 0.5) % 1 - 0.5) > 0.01]  # away from the hour, where days begin and clocks change
    n = len(mjd)
    if n == 0:
        return False
    s = mock.Mock()
    s.slice_points = {"sid": np.arange(n), "mjd": mjd, "duration": r.randint(1, 60, n) * 60.0}
    if cat:
        names = np.array({"cat": ["a", "b", "c", "d"], "use": ["wide with only IR", "wide with u, g, or r", "greedy", "COSMOS", "other"]}[cat])
        mv = ma.MaskedArray(names[r.randint(0, {"many": len(names), "two": 2, "same": 1}[c["vals"]], n)].astype(object), mask=np.zeros(n, bool))
    else:
        v = r.randint(0, {"many": 60, "two": 2, "same": 1}[c["vals"]], n) / 2.0 + 3
        mv = ma.MaskedArray(v, mask=r.uniform(size=n) < c["frac"])
        if mv.mask.all():
            mv.mask[0] = False
    cls = {"month": {None: HG.MonthHourglassPlot, "cat": HG.MonthHourglassCategoricalPlot, "use": HG.MonthHourglassUsePlot}, "year": {None: HG.YearHourglassPlot, "cat": HG.YearHourglassCategoricalPlot, "use": HG.YearHourglassUsePlot},
           "range": {None: HG.RangeHourglassPlot, "cat": HG.RangeHourglassCategoricalPlot}, "general": {None: HG.GeneralHourglassPlot}}[kind][cat]
    args = {"month": (c["month"], c["year"]), "year": (c["year"],), "general": ()}.get(kind)
    if kind == "range":
        a, b = lo + 5, lo + 22
        args = tuple((datetime.date(1858, 11, 17) + datetime.timedelta(days=x)).isoformat() for x in (a, b))
    plotter = cls(*args, tz=tz, site=site, solar_time=c["solar"], **({"marked_ra": {"a": 40.0, "zz": 3.0}} if cat == "cat" else {}))
    pd = {"figsize": (5, 4), "title": "T"}
    if cat and c["elements"]:
        pd["legend_elements"] = ["greedy", "b", "nothing", "COSMOS", "a-transit"]
    if c["limits"] and not cat:
        pd["color_limits"] = tuple(c["limits"])
    if c["ymin"] and kind == "month":
        pd.update(y_min=c["ymin"], y_max=25.5)
    asked = []

    def rise(nights, direction="down", alt=0, location="Cerro Pachon", body="sun", **kw):
        asked.append((direction, alt, body))
        require(location is site, "place of twilight", location)
        nights = np.asarray(nights)
        mid = np.round(nights + lon / 360) - lon / 360  # the solar midnight near it
        return mid + {"down": -1, "up": 1}[direction] * (0.2 - alt * 0.003 * (-1)) + (0.03 if body == "moon" else 0)

    def moon(nights, location):
        return np.asarray(nights) + 0.05

    with mock.patch.object(HG, "riseset_times", rise), mock.patch.object(HG, "_compute_moon_transit_mjds", moon), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d0, k0 = mv.data.copy(), mv.mask.copy()
        try:
            if c["twice"] and kind != "year":  # a plotter draws one figure as it draws the next
                s2 = mock.Mock()
                s2.slice_points = {k: v_[: max(1, n // 2)] for k, v_ in s.slice_points.items()}
                plotter(ma.MaskedArray(np.array(["earlier"] * max(1, n // 2), dtype=object)) if cat else ma.MaskedArray(np.arange(max(1, n // 2)) * 7.0), s2, dict(pd))
            fig = plotter(mv, s, pd)
            require(np.array_equal(d0, mv.data) and np.array_equal(k0, mv.mask), "the metric values were changed")
            seen = judge_hg(c, fig, plotter, mjd, s.slice_points["duration"] / 3600, mv, pd, lon, (m0, m1, y0, y1), kind == "range" and (a, b))
        finally:
            plt.close("all")
    return seen and "%s/%s/%s" % (kind, cat or "value", "solar" if c["solar"] else "civil")


def judge_hg(c, fig, plotter, mjd, width, mv, pd, lon, days, span):
    kind, cat, tz, solar = c["kind"], c["cat"], c["tz"], c["solar"]
    m0, m1, y0, y1 = days
    where = [night_of(x, tz, solar, lon) for x in mjd]
    if kind == "year":
        parts = [(day_number(c["year"], m, 1), day_number(c["year"] + (m == 12), m % 12 + 1, 1)) for m in range(1, 13)]
        axes = np.array(fig.axes[:12]).reshape(3, 4).T.ravel()
    else:
        parts, axes = [(m0, m1)], fig.axes[:1]
    whole = {"month": (m0, m1), "year": (y0, y1)}.get(kind)
    inside = lambda lo, hi: [i for i in range(len(mjd)) if noon(lo, tz) < mjd[i] < noon(hi, tz)]
    if kind == "general":
        shown = list(range(len(mjd)))
    elif kind == "range":
        shown = [i for i in range(len(mjd)) if span[0] < mjd[i] < span[1]]
    else:
        shown = inside(*whole)
    ok = [i for i in shown if not mv.mask[i]]
    colours = {}
    if not cat and ok:
        lo, hi = pd.get("color_limits") or (min(mv.data[i] for i in ok), max(mv.data[i] for i in ok))
    total = 0
    for (d0, d1), ax in zip(parts, axes):
        mine = shown if kind != "year" else inside(d0, d1)
        bars = [b for b in ax.patches if isinstance(b, matplotlib.patches.Rectangle)]
        require(len(bars) == len(mine), "one bar for each interval", c, len(bars), len(mine))
        epoch = d0 - 1 if kind in ("month", "year") else 0
        for b, i in zip(bars, mine):
            night, hours = where[i]
            require(abs((b.get_x() - hours + 12) % 24 - 12) < 5e-4 and -12 - 1e-3 <= b.get_x() <= 12 + 1e-3 or not solar and abs(b.get_x() - hours) < 5e-4, "hours after midnight", c, mjd[i], b.get_x(), hours)
            require(abs(b.get_y() + b.get_height() / 2 - (night - epoch)) < 1e-6 and b.get_height() <= 1, "night of a bar", c, mjd[i], b.get_y(), night - epoch)
            require(abs(b.get_width() - width[i]) < 1e-9, "width of a bar", b.get_width(), width[i])
            total += 1
            face = b.get_facecolor()
            if cat:
                require(colours.setdefault(mv.data[i], face) == face, "one category has two colours", c, mv.data[i])
            elif mv.mask[i]:
                require(face[3] == 0, "a masked value is drawn", c, face)
            elif lo != hi:
                w = plt.get_cmap("viridis")((mv.data[i] - lo) / (hi - lo))
                require(np.abs(np.array(face) - w).max() < 0.02, "colour of a value", c, mv.data[i], face, w, (lo, hi))
            else:
                require(colours.setdefault(0, face) == face and face[3] == 1, "colour of equal values", c, face)
        b, t = ax.get_ylim()
        require(b > t, "later nights are below", (b, t))
        if "y_min" in pd:
            # (the ticks of the days 1 to 29 can make the axis longer)
            require(b >= pd["y_max"] and t <= pd["y_min"], "limits given", (b, t))
        elif kind in ("month", "year"):
            require(t == 0.5 and (d1 - d0 + 0.5 <= b <= 31.5), "nights of the month", (b, t))
        elif mine:
            require(all(t <= where[i][0] - 0.4 and where[i][0] + 0.4 <= b for i in mine), "all nights are in the figure", (b, t))
        # twilight: each night's shading begins in its evening and ends in its morning
        polys = [p for p in ax.collections if hasattr(p, "get_paths")]
        require(len(polys) == 4, "twilights", len(polys))
        for p, alt in zip(sorted(polys, key=lambda q: q.get_zorder()), (0, -6, -12, -18)):
            xy = p.get_paths()[0].vertices
            half = (0.2 + alt * 0.003) * 24
            shift = 0
            nights = np.unique(np.round(xy[:, 1]).astype(int))
            require(np.all(np.abs(xy[:, 1] - np.round(xy[:, 1])) < 1e-6), "nights of twilight")
            need = np.arange(math.ceil(pd.get("y_min", t)), (d1 - d0 if whole else math.floor(b)) + 1)
            need = need[need <= pd.get("y_max", np.inf)]
            require(set(need) <= set(nights), "nights with twilight", c, alt, need[[0, -1]], nights[[0, -1]])
            for x, y in xy:
                if not solar:
                    mid = y + epoch + 1 - lon / 360
                    shift = night_of(mid - half / 24 if x < 0 else mid + half / 24, tz, False, lon)[1] - (-half if x < 0 else half)
                require(abs(abs(x - shift) - half) < 2e-3, "time of twilight", c, alt, x, half, shift)
        for line in ax.lines:
            label = str(line.get_label())
            if label == "moon":
                x, y = line.get_xdata()[0], line.get_ydata()[0]
                want = 1.2 if solar else night_of(y + epoch + 1 - lon / 360 + 0.05, tz, False, lon)[1]
                require(abs(x - want) < 2e-3, "moon", c, x, want)
            if label.endswith("-transit"):
                name = label[:-8]
                ra = {"a": 40.0}.get(name, None) if cat == "cat" else ddf_locations()[name][0]
                require(ra is not None and name in colours and matplotlib.colors.to_rgba(line.get_color()) == colours[name], "colour of a transit", name)
                for x, y in zip(line.get_xdata(), line.get_ydata()):
                    ut = y + epoch + 1 + x / 24 - lon / 360
                    if not solar:
                        then = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=y + epoch + 1 + x / 24)
                        ut = y + epoch + 1 + x / 24 - then.replace(tzinfo=zoneinfo.ZoneInfo(tz)).utcoffset().total_seconds() / 86400
                    lst = (280.46061837 + 360.98564736629 * (ut - 51544.5) + lon) % 360
                    require(abs((lst - ra + 180) % 360 - 180) < 1.0, "time of a transit", c, name, x, y, lst, ra)
    require(len(set(colours.values())) == len(colours), "two categories have one colour", c, colours)
    if cat == "use":
        for k, j in (("wide with only IR", 3), ("wide with u, g, or r", 0), ("greedy", 1)):
            require(k not in colours or colours[k] == plt.get_cmap("tab10")(j), "colour of a use", k)
    extra = fig.axes[len(axes):]
    if not cat and shown:
        require(len(extra) == 1, "one colour bar", c, len(extra))
        if ok and lo != hi:
            require(close(sorted(extra[0].get_ylim()), (lo, hi)), "range of the colour bar", c, extra[0].get_ylim(), (lo, hi))
    else:
        require(not extra, "no colour bar", c)
    if cat and shown:
        leg = fig.legends[-1]
        entries = {t.get_text(): p.get_facecolor() for t, p in zip(leg.get_texts(), leg.legend_handles) if isinstance(p, matplotlib.patches.Patch)}
        asked = pd.get("legend_elements")
        require(all(entries[k] == v for k, v in colours.items() if k in entries), "colours of the legend", c, entries, colours)
        uses = {"wide with only IR", "wide with u, g, or r", "greedy"} if cat == "use" else set()
        names = set(colours) if asked is None else set(colours) & set(asked)
        require(names <= set(entries) <= names | uses and (asked is None or set(entries) <= set(asked)), "entries of the legend", c, entries, colours)
    return total > 0


def arms():
    return [
        Arm("hist", hist_case(), t_hist, quick=150, thorough=6000, rule="values with masks and non-finite entries, zero points, norms, bins (given, by size, by number, automatic), limits, clipping, cumulative, one or two together; non-trivial: a histogram was compared bin by bin"),
        Arm("sky", sky_case(["hp", "sub", "user"]), t_sky, quick=60, thorough=2500, rule="healpix, partial and binned point sky maps with zero points, limits, masks, rotations; non-trivial: image compared at pixel centres"),
        Arm("power", sky_case(["power"]), t_sky, quick=40, thorough=1500, rule="one or two power spectra with masks and dipole removal; non-trivial: spectra compared"),
        Arm("points", sky_case(["ell"]), t_sky, quick=40, thorough=1500, rule="sky maps of separate points; non-trivial: positions, values and limits of every point compared"),
        Arm("bins", bin_case(["oned", "nd1", "nd2"]), t_bins, quick=100, thorough=4000, rule="one- and n-dimensional binned figures; non-trivial: the drawn data were compared"),
        Arm("images", bin_case(["twod", "pairs", "fo", "summary", "xy"]), t_bins, quick=120, thorough=5000, rule="images, pairs, area curves, summed histograms, curves; non-trivial: the drawn data were compared"),
        Arm("orbits", mo_case(["vsh", "orbit", "points"]), t_mo, quick=80, thorough=4000, rule="moving-object figures; non-trivial: the drawn data were compared"),
        Arm("night", mo_case(["neo", "hour", "night"]), t_mo, quick=45, thorough=2000, rule="near-Earth, hourglass and night figures; non-trivial: the drawn data were compared"),
        Arm("project", proj_case(), t_proj, quick=100, thorough=4000, rule="maps, outlines of visits and decorations handed to the sky projection; every case"),
        Arm("circle", circle_case(), t_circle, quick=100, thorough=4000, rule="every case"),
        Arm("hours", hg_case(["month", "month", "range", "general"]), t_hg, quick=60, thorough=3000, rule="hourglass figures of a month, a range of dates or all nights, of values, categories and uses, at four sites and time zones; non-trivial: bars were compared"),
        Arm("years", hg_case(["year"]), t_hg, quick=30, thorough=1500, rule="hourglass figures of the months of a year, of values, categories and uses; non-trivial: bars were compared"),
        Arm("handler", handler_case(), t_handler, quick=90, thorough=4000, rule="1-4 bundles with settings at every level, files and thumbnails; non-trivial: something was drawn"),
        Arm("names", handler_case(), t_names, quick=60, thorough=2000, rule="the same bundles in three processes with different hash seeds; non-trivial: more than one bundle"),
    ]
