"""C16: moving-object populations: slicing, running, joining and summarising."""

import os
import shutil
import sqlite3
import sys
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rubin_sim.maf.metric_bundles as mb
from rubin_sim.maf import batches
from rubin_sim.maf import db as maf_db
from rubin_sim.maf import metrics as M
from rubin_sim.maf import slicers as S
from rubin_sim.maf import stackers as T
from rubin_sim.maf.batches import moving_objects_batch as mob
from vp.core import Arm, require
from vp.metricrun import same

ASSUMPTIONS = ["detections are decided by a signal-to-noise limit (chance detection is left out when results are compared between runs)",
               "in a population with its own H values, an object on the edge of an H bin may go to either bin (or, for the last edge, to none)",
               "discoveries are not earlier than the first requested time"]
BUDGET = {"quick": 60, "thorough": 2400}


class quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.e = np.errstate(all="ignore")
        self.e.__enter__()
        self.o = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o
        self.e.__exit__(*a)
        self.w.__exit__(*a)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=tol, atol=1e-12)))


# ---- summaries
@st.composite
def summ(draw):
    nh = draw(st.integers(2, 12))
    start = draw(st.integers(5, 24))
    steps = draw(st.lists(st.sampled_from([0.1, 0.2, 0.5, 1.0]), min_size=nh - 1, max_size=nh - 1)) if draw(st.booleans()) else [draw(st.sampled_from([0.1, 0.2, 0.25, 0.5, 1.0]))] * (nh - 1)
    return {"h": np.round(start + np.concatenate([[0], np.cumsum(steps)]), 4).tolist(), "n": draw(st.integers(1, 30)), "seed": draw(st.integers(0, 10 ** 6)), "hindex": draw(st.sampled_from([0.33, 0.2, 0.5, 0.0])), "thr": draw(st.sampled_from([1, 2, 5])),
            "frac": draw(st.floats(0, 1)), "cum": draw(st.sampled_from([None, True, False])), "named": draw(st.sampled_from([None, "DifferentialX", "Something"])), "mask": draw(st.sampled_from([0.0, 0.2, 0.7])), "anchor": draw(st.booleans())}


def widths(h):
    w = [b - a for a, b in zip(h[:-1], h[1:])]
    return w + [w[-1]]


def power(h, hindex, no=10.0, ho=None):
    ho = h[0] if ho is None else ho
    return [no * 10 ** (hindex * (x - ho)) * w for x, w in zip(h, widths(h))]


PER_TENTH = {"neo_dndh_granvik": lambda x: 150 * 10 ** (0.3 * (x - 18.5)) + 2500 * 10 ** (0.92 * (x - 23.2)), "neo_dndh_grav": lambda x: 110 * 10 ** (0.35 * (x - 18.5)),
             "pha_dndh_granvik": lambda x: 20 * 10 ** (0.3 * (x - 18.5)) + 500 * 10 ** (0.92 * (x - 23.2)), "pha_dndh_grav": lambda x: 23.5 * 10 ** (0.35 * (x - 18.5))}


def pop_model(name, h):
    return [PER_TENTH[name](x) * w / 0.1 for x, w in zip(h, widths(h))]


def weighted(vals, wts):
    out, a, b = [], 0.0, 0.0
    for v, w in zip(vals, wts):
        a, b = a + v * w, b + w
        out.append(a / b)
    return out


def lin(x, h, v):
    for k in range(len(h) - 1):
        if h[k] <= x <= h[k + 1]:
            f = (x - h[k]) / (h[k + 1] - h[k])
            return v[k] * (1 - f) + v[k + 1] * f
    raise AssertionError


def is_cumulative(c):
    if c["cum"] is not None:
        return c["cum"]
    return not (c["named"] or "").lower().startswith("differential")


def kw_of(c):
    kw = {} if c["cum"] is None else {"cumulative": c["cum"]}
    if c["named"]:
        kw["metric_name"] = c["named"]
    return kw


def summaries(c):
    h = np.array(c["h"])
    r = np.random.RandomState(c["seed"])
    hl = c["h"]
    no, ho = (3.0, hl[0] + 1.5) if c["anchor"] else (None, None)
    p = power(hl, c["hindex"], *((no, ho) if c["anchor"] else ()))
    with quiet():
        require(close(M.power_law_dndh(h, hindex=c["hindex"], no=no, ho=ho), p), "power-law numbers", hl, p)
        for k in PER_TENTH:
            require(close(getattr(M, k)(h), pop_model(k, hl)), "population model", k, hl)
        v = r.uniform(0, 1, len(h))
        require(close(M.integrate_over_h(v, h, hindex=c["hindex"]), weighted(v, power(hl, c["hindex"]))), "population-weighted mean", hl)
        nm = sorted(PER_TENTH)[c["seed"] % 4]
        want = np.cumsum(v * np.array(pop_model(nm, hl)))
        require(close(M.sum_over_h(v, h, getattr(M, nm)), want), "population-weighted sum", nm)
        mark = hl[0] + c["frac"] * (hl[-1] - hl[0])
        mark = min(max(mark, hl[0]), hl[-1])
        v1 = np.ma.MaskedArray(v.reshape(1, -1), mask=np.zeros((1, len(h)), bool))
        require(close(M.TotalNumberSSO(h_mark=mark, dndh_func=getattr(M, nm)).run(v1, h), lin(mark, hl, want), 1e-7), "total number of objects", mark, nm)
        require(close(M.ValueAtHMetric(h_mark=mark).run(v1, h), lin(mark, hl, v), 1e-7), "value at H", mark)
        for bad in (hl[0] - 0.5, hl[-1] + 0.5):
            require(M.ValueAtHMetric(h_mark=bad).run(v1, h) is None, "a value is reported outside the H range", bad)
            require(M.MeanValueAtHMetric(h_mark=bad).run(v1, h) is None, "a mean value is reported outside the H range", bad)
        n = c["n"]
        mv = np.ma.MaskedArray(r.randint(0, 9, (n, len(h))).astype(float), mask=r.uniform(size=(n, len(h))) < c["mask"])
        if n > 1:
            require(M.ValueAtHMetric(h_mark=mark).run(mv, h) is None, "value at H for many objects")
        if not np.any(np.all(mv.mask, axis=0)):
            for f, ref in ((np.mean, lambda x: sum(x) / len(x)), (np.ma.median, lambda x: float(np.median(x)))):
                want = [ref([float(mv.data[i, j]) for i in range(n) if not mv.mask[i, j]]) for j in range(len(h))]
                require(close(M.MeanValueAtHMetric(h_mark=mark, reduce_func=f).run(mv, h), lin(mark, hl, want), 1e-7), "mean value at H", mark, want)
        m = M.MoCompletenessMetric(threshold=c["thr"], hindex=c["hindex"], **kw_of(c))
        diff = [sum(1 for i in range(n) if not mv.mask[i, j] and mv.data[i, j] >= c["thr"]) / n for j in range(len(h))]
        want = weighted(diff, power(hl, c["hindex"])) if is_cumulative(c) else diff
        if len(h) != 1:
            got = m.run(mv, h)
            require(close(got["value"], want), "completeness", got["value"], want, m.name)
            require([x.startswith("H <=" if is_cumulative(c) else "H =") for x in got["name"]] == [True] * len(h) and all(abs(float(x.split("=")[1]) - y) < 1e-3 for x, y in zip(got["name"], hl)), "completeness labels", got["name"])
        # at times
        times = 60000 + np.arange(0, 40, 10.0)[: 2 + c["seed"] % 3]
        disc = np.ma.MaskedArray(60000 + np.round(r.uniform(0, 50, (n, len(h)))) + 0.37, mask=mv.mask)
        for hv in (mark, None):
            m = M.MoCompletenessAtTimeMetric(times=times, hval=hv, hindex=c["hindex"], **kw_of(c))
            j = int(np.argmin(np.abs(h - hv))) if hv is not None else None
            if hv is not None and np.sum(np.abs(np.abs(h - hv) - np.abs(h - hv).min()) < 1e-9) > 1:
                continue
            got = m.run(disc, h)
            cols = []
            for t in times:
                d = [sum(1 for i in range(n) if not disc.mask[i, k] and disc.data[i, k] <= t) / n for k in range(len(h))]
                cols.append(weighted(d, power(hl, c["hindex"])) if is_cumulative(c) else d)
            opts = [j] if j is not None else range(len(h))
            require(any(close(got["value"], [x[k] for x in cols]) for k in opts), "completeness at times", got["value"], cols, j)
            v_ = got["value"]
            require(all(b >= a - 1e-12 for a, b in zip(v_, v_[1:])), "completeness falls with time", v_)
    return "cum" if is_cumulative(c) else "diff"


@st.composite
def own(draw):
    return {"n": draw(st.integers(2, 40)), "seed": draw(st.integers(0, 10 ** 6)), "nb": draw(st.sampled_from([20, 5, 3])), "w": draw(st.sampled_from([0.3, 1.0, 2.0, 6.0])), "min": draw(st.sampled_from([1.0, 3.0])), "hindex": draw(st.sampled_from([0.33, 0.1])), "cum": draw(st.booleans()), "mask": draw(st.sampled_from([0.0, 0.5]))}


def own_h(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    h = np.round(15 + r.uniform(0, c["w"], n), 4)
    if h.max() == h.min():
        return None
    mv = np.ma.MaskedArray(r.randint(0, 4, (n, 1)).astype(float), mask=r.uniform(size=(n, 1)) < c["mask"])
    H = pd.Series(h) if c["seed"] % 2 else h
    m = M.MoCompletenessMetric(threshold=1, nbins=c["nb"], min_hrange=c["min"], hindex=c["hindex"], cumulative=c["cum"])
    with quiet():
        got = m.run(mv, H)
    lo, hi = h.min(), h.max()
    if hi - lo < c["min"]:
        mid = (hi + lo) / 2
        lo, hi = mid - c["min"] / 2, mid + c["min"] / 2
    edges = lo + np.arange(c["nb"] + 1) * (hi - lo) / c["nb"]
    if np.any(np.abs(h[:, None] - edges[None, 1:-1]) < 1e-7):
        return None
    require(len(got) == c["nb"], "one value for each H bin", len(got), c["nb"])
    found = (mv.filled(0)[:, 0] >= 1)
    answers = []
    for drop in (False, True):
        diff = []
        for k in range(c["nb"]):
            sel = (h > edges[k] - 1e-9) & (h < edges[k + 1])
            if k == c["nb"] - 1 and not drop:
                sel |= np.abs(h - edges[-1]) < 1e-9
            elif k == c["nb"] - 1:
                sel &= np.abs(h - edges[-1]) >= 1e-9
            diff.append(float(found[sel].sum()) / sel.sum() if sel.any() else 0.0)
        answers.append(weighted(diff, power(list(edges[:-1]), c["hindex"])) if c["cum"] else diff)
    require(any(close(got["value"], a, 1e-6) for a in answers), "completeness of a population with its own H", got["value"], answers[0], h, found)
    return "own"


# ---- slicing and running
COLS = ["observationStartMJD", "night", "fiveSigmaDepth", "seeingFwhmGeom", "visitExposureTime", "magV", "dmag_color", "dmag_detect", "dmag_trail", "velocity", "ra", "dec", "geo_dist", "helio_dist", "phase", "ec_lon", "ec_lat", "solar_elong", "rotSkyPos"]


@st.composite
def popul(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "ids": draw(st.sampled_from(["int", "str"])), "off": draw(st.sampled_from([0, 1, 100])), "nobs": draw(st.integers(0, 60)), "seed": draw(st.integers(0, 10 ** 6)), "hs": draw(st.sampled_from([None, [18.0, 20.0, 22.0], [16.0, 17.0, 18.0, 19.0], [20.0], [14.0, 21.5]])),
            "bundles": draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 2), st.integers(0, 3)), min_size=1, max_size=5)), "silent": draw(st.lists(st.integers(0, n - 1), max_size=2)), "span": draw(st.sampled_from([2, 10, 100]))}


def obs_table(c):
    r = np.random.RandomState(c["seed"])
    ids = ["o%d" % (i + c["off"]) for i in range(c["n"])] if c["ids"] == "str" else [i + c["off"] for i in range(c["n"])]
    may = [i for i in range(c["n"]) if i not in c["silent"]]
    k = c["nobs"] if may else 0
    a = np.zeros(k, dtype=[("obj_id", "U8" if c["ids"] == "str" else int)] + [(x, float) for x in COLS] + [("band", "U1")])
    if k:
        a["obj_id"] = [ids[x] for x in r.choice(may, k)]
    a["observationStartMJD"] = np.sort(60000 + r.uniform(0, c["span"], k))
    a["night"] = np.floor(a["observationStartMJD"] - 60000)
    a["fiveSigmaDepth"] = r.uniform(22, 25, k)
    a["seeingFwhmGeom"], a["visitExposureTime"] = 1.0, 30.0
    a["magV"] = r.uniform(20, 25, k)
    for x, s in (("dmag_color", 0.5), ("dmag_detect", 1.0), ("dmag_trail", 0.5), ("velocity", 3.0), ("ra", 360.0), ("dec", 60.0), ("geo_dist", 3.0), ("helio_dist", 3.0), ("phase", 40.0), ("ec_lon", 360.0), ("ec_lat", 10.0), ("solar_elong", 180.0)):
        a[x] = r.uniform(0.01, s, k)
    a["band"] = r.choice(list("gri"), k)
    return ids, a


def setup(c, d):
    ids, a = obs_table(c)
    of = os.path.join(d, "orb.txt")
    r = np.random.RandomState(c["seed"] + 1)
    with open(of, "w") as f:
        f.write("obj_id q e inc Omega argPeri tPeri epoch H g\n")
        hh = np.round(r.uniform(16, 22, c["n"]), 3)
        for i in range(c["n"]):
            f.write(f"{ids[i]} 1.0 0.1 5 20 30 60000 59800 {hh[i]} 0.15\n")
    np.savez(os.path.join(d, "obs.npz"), object_observations=a)
    s = S.MoObjSlicer(h_range=None if c["hs"] is None else np.array(c["hs"]), verbose=False)
    with quiet():
        s.setup_slicer(of, obs_file=os.path.join(d, "obs.npz"))
    return s, ids, hh, a


CONS = [None, 'band == "r"', "night < 5"]


def keep(a, k):
    return np.ones(len(a), bool) if k == 0 else (a["band"] == "r") if k == 1 else (a["night"] < 5)


def stackers(k):
    return [None, [T.MoMagStacker(loss_col="dmag_trail")], [T.MoMagStacker(loss_col="dmag_detect", magtype="tno")], [T.MoMagStacker(loss_col="dmag_trail"), T.EclStacker()]][k]


def metric(k):
    return [lambda: M.NObsMetric(snr_limit=3), lambda: M.NObsMetric(snr_limit=5), lambda: M.NNightsMetric(snr_limit=4), lambda: M.ObsArcMetric(snr_limit=5), lambda: M.DiscoveryMetric(n_obs_per_night=1, n_nights_per_window=2, t_window=30, t_min=0, t_max=1, snr_limit=5), lambda: M.NObsNoSinglesMetric(snr_limit=4), lambda: M.DiscoveryMetric(n_obs_per_night=2, n_nights_per_window=1, t_window=10, t_min=0, t_max=1, snr_limit=4)][k]()


def slicing(c):
    d = tempfile.mkdtemp(prefix="c16")
    try:
        s, ids, hh, a = setup(c, d)
        require(len(s.orbits) == c["n"] and list(s.shape) == [c["n"], len(c["hs"]) if c["hs"] else 1], "the shape of the population", s.shape)
        require(close(np.asarray(s.slice_points["H"]), c["hs"] if c["hs"] else hh), "the H values of the population")
        seen = 0
        for k in (0, 1, 2, 0):
            with quiet():
                s.subset_obs(CONS[k])
                pts = [p for p in s] if k != 2 else [s[i] for i in range(c["n"])]
            require(len(pts) == c["n"], "one slice for each object")
            for i, p in enumerate(pts):
                o = p["obs"]
                sel = keep(a, k) & (a["obj_id"] == ids[i])
                want = a[sel]
                require(p["orbit"]["obj_id"] == ids[i] and abs(p["orbit"]["H"] - hh[i]) < 1e-9, "orbit of a slice", i)
                require(close(p["Hvals"], c["hs"] if c["hs"] else [hh[i]]), "H values of a slice")
                require(len(o) == len(want) and all(np.array_equal(np.asarray(o[x]).astype(want[x].dtype), want[x]) for x in want.dtype.names), "the visits of an object", ids[i], CONS[k], len(o), len(want))
                seen += len(o)
        return "slices" if seen else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stack(obs, sts, horb, hval):
    for s in sts:
        obs = s.run(obs, horb, hval)
    return obs


def expected(m, sts, rec, orb, horb, hval):
    """(masked, value, {child: (masked, value)})."""
    kids = {k: (True, None) for k in m.child_metrics}
    if len(rec) == 0:
        return True, None, kids
    o = stack(rec, sts, horb, hval)
    v = m.run(o, orb, hval)
    if isinstance(v, (int, float, np.integer, np.floating)) and v == m.badval:
        return True, None, kids
    if v is None:
        return (m.badval is None), None, kids
    out = {}
    for k, cm in m.child_metrics.items():
        w = cm.run(o, orb, hval, v)
        bad = (w is None and cm.badval is None) or (isinstance(w, (int, float, np.integer, np.floating)) and cm.badval is not None and w == cm.badval)
        out[k] = (bad, w)
    return False, v, out


def group(c):
    d = tempfile.mkdtemp(prefix="c16")
    try:
        s, ids, hh, a = setup(c, d)
        bd = {}
        for n, (mk, ck, sk) in enumerate(c["bundles"]):
            sm = [M.MoCompletenessMetric(threshold=1)] if mk in (0, 1, 2) and n % 2 and c["hs"] and len(c["hs"]) > 1 else None
            bd["b%d" % n] = mb.MoMetricBundle(metric(mk), s, constraint=CONS[ck], stacker_list=stackers(sk), run_name="run", info_label="label%d" % n, summary_metrics=sm)
        out = os.path.join(d, "out")
        with quiet():
            g = mb.MoMetricBundleGroup(bd, out_dir=out, results_db=None, verbose=False)
            g.run_all()
        busy = 0
        for n, (mk, ck, sk) in enumerate(c["bundles"]):
            b = bd["b%d" % n]
            m = metric(mk)
            sts = stackers(sk) or [T.MoMagStacker()]
            hs = c["hs"] or [None]
            require(b.metric_values.shape == (c["n"], len(hs)), "the shape of the values", b.metric_values.shape)
            for i in range(c["n"]):
                rec = pd.DataFrame(a[keep(a, ck) & (a["obj_id"] == ids[i])]).to_records()
                for j, hv in enumerate(hs):
                    hv = hh[i] if hv is None else hv
                    with quiet():
                        bad, v, kids = expected(m, sts, rec, s.orbits.iloc[i], hh[i], hv)
                    got_bad = bool(np.ma.getmaskarray(b.metric_values)[i][j])
                    require(got_bad == bad, "masked value", type(m).__name__, ids[i], hv, got_bad, bad)
                    if not bad:
                        busy += 1
                        require(same(b.metric_values.data[i][j], v), "value in the group", type(m).__name__, CONS[ck], ids[i], hv, b.metric_values.data[i][j], v)
                    for k, (kb, kv) in kids.items():
                        cb = b.child_bundles[k]
                        gm = bool(np.ma.getmaskarray(cb.metric_values)[i][j])
                        require(gm == kb, "masked value of a child", k, ids[i], hv, gm, kb)
                        if not kb:
                            require(same(cb.metric_values.data[i][j], kv), "value of a child", k, ids[i], hv, cb.metric_values.data[i][j], kv)
            for x in [b] + list(b.child_bundles.values()):
                for sm in x.summary_metrics:
                    vals = x.summary_values[sm.name]
                    h = list(c["hs"])
                    diff = [sum(1 for i in range(c["n"]) if not np.ma.getmaskarray(x.metric_values)[i][j] and x.metric_values.data[i][j] >= 1) / c["n"] for j in range(len(h))]
                    require(close(vals["value"], weighted(diff, power(h, 0.33))), "summary value of a bundle", vals["value"], diff)
                fn = os.path.join(out, x.file_root + ".npz")
                require(os.path.isfile(fn), "no file for a bundle", x.file_root)
                if x.metric.metric_dtype == "object" or x.metric_values.dtype == object:
                    continue
                back = mb.create_empty_mo_metric_bundle()
                with quiet():
                    back.read(fn)
                mask = np.ma.getmaskarray(x.metric_values)
                require(np.array_equal(np.ma.getmaskarray(back.metric_values), mask) and np.array_equal(back.metric_values.data[~mask], x.metric_values.data[~mask]), "values read back from the file", x.file_root)
                require(close(np.asarray(back.slicer.slice_points["H"]), np.asarray(s.slice_points["H"])) and back.run_name == "run" and back.info_label == x.info_label, "description read back from the file")
        return "values" if busy else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- summaries of batches, and joining
@st.composite
def batch_(draw):
    n = draw(st.integers(2, 5))
    return {"n": n, "ids": draw(st.sampled_from(["int", "str"])), "off": draw(st.sampled_from([0, 100])), "nobs": draw(st.integers(20, 120)), "seed": draw(st.integers(0, 10 ** 6)), "hs": draw(st.sampled_from([[18.0, 20.0, 22.0], [16.0, 17.0, 18.0, 19.0], [15.0, 21.5]])), "silent": [], "span": draw(st.sampled_from([5, 20])),
            "type": draw(st.sampled_from(["NEO", "PHA", "TNO"])), "mark": draw(st.sampled_from([None, 18.0, 16.4])), "parts": draw(st.integers(1, 3)), "bmarks": draw(st.lists(st.sampled_from([None, 16.0, 17.0, 19.0]), min_size=3, max_size=3))}


def comp_of(vals, hs, cum, thr=1):
    n = vals.shape[0]
    m = np.ma.getmaskarray(vals)
    diff = [sum(1 for i in range(n) if not m[i][j] and vals.data[i][j] >= thr) / n for j in range(len(hs))]
    return weighted(diff, power(hs, 0.33)) if cum else diff


def pipeline(c):
    d = tempfile.mkdtemp(prefix="c16")
    try:
        s, ids, hh, a = setup(c, d)
        hs = list(c["hs"])
        out = os.path.join(d, "out")
        cm = batches.col_map_dict()
        with quiet():
            bd = batches.quick_discovery_batch(s, colmap=cm, run_name="run", objtype=c["type"], h_mark=c["bmarks"][0])
            if c["type"] == "TNO":
                bd2 = batches.characterization_outer_batch(s, colmap=cm, run_name="run", objtype=c["type"], windows=[10.0], bins=[20.0], h_mark=c["bmarks"][1])
            else:
                bd2 = batches.characterization_inner_batch(s, colmap=cm, run_name="run", objtype=c["type"], windows=[10.0], bins=[20.0], h_mark=c["bmarks"][1])
            bd.update(bd2)
            mb.MoMetricBundleGroup(bd, out_dir=out, verbose=False).run_all()
            db = maf_db.ResultsDb(out_dir=out)
            flat = {}
            for k, b in bd.items():
                flat[k] = b
                for ck, cb in b.child_bundles.items():
                    flat[k + " " + ck] = cb
            times = 60000 + np.arange(0, 30, 10.0)
            comp = batches.run_completeness_summary(flat, c["mark"], times, out, db)
            frac = batches.run_fraction_summary(flat, c["mark"], out, db)
            db.close()
        want = 0
        for k, b in flat.items():
            nm = b.metric.name
            mine = {x: y for x, y in comp.items() if x.startswith(k + " ") and not any(x.startswith(o + " ") for o in flat if o != k and o.startswith(k + " "))}
            mark = c["mark"] if c["mark"] is not None else b.plot_dict.get("h_mark")
            if mark is None:
                mark = float(np.median(hs))
            if "Discovery" in nm and "Time" in nm:
                want += 1
                require(len(mine) == 4, "completeness at two H values, cumulative and differential", sorted(mine))
                for x, y in mine.items():
                    cum = "Cumulative" in x
                    target = float(x.split("@H=")[1])
                    require(min(abs(target - mark), abs(target - mark + 2)) < 0.01, "the H value of a completeness over time", x, mark)
                    dist = np.abs(np.array(hs) - target)
                    js = [j for j in range(len(hs)) if dist[j] < dist.min() + 1e-9]
                    m = np.ma.getmaskarray(b.metric_values)
                    cols = []
                    for t in times:
                        dd = [sum(1 for i in range(c["n"]) if not m[i][j] and b.metric_values.data[i][j] <= t) / c["n"] for j in range(len(hs))]
                        cols.append(weighted(dd, power(hs, 0.33)) if cum else dd)
                    require(any(close(y.metric_values.data[0], [q[j] for q in cols]) for j in js), "completeness over time", x, y.metric_values, cols)
            elif "Discovery" in nm and ("NChances" in nm or "N_Chances" in nm):
                want += 1
                require(len(mine) == 2, "completeness over H, cumulative and differential", sorted(mine))
                for x, y in mine.items():
                    v = comp_of(b.metric_values, hs, "Cumulative" in x)
                    require(close(y.metric_values.data[0], v), "completeness over H", x, y.metric_values, v)
                    if hs[0] <= mark <= hs[-1]:
                        require(("= %.1f%%" % (100 * lin(mark, hs, v))) in y.plot_dict["label"] or abs((100 * lin(mark, hs, v)) * 10 % 1 - 0.5) < 1e-6, "completeness in the label", y.plot_dict["label"], mark, v)
                    if "Differential" in x and c["type"] != "TNO":
                        model = "neo_dndh_granvik" if c["type"] == "NEO" else "pha_dndh_granvik"
                        if hs[0] <= 22 <= hs[-1]:
                            tot = lin(22.0, hs, np.cumsum(np.array(v) * np.array(pop_model(model, hs))))
                            require(close(y.summary_values["Nobj <= 22.0"], tot, 1e-7), "number of objects", y.summary_values, tot)
                    back = mb.create_empty_mo_metric_bundle()
                    with quiet():
                        back.read(os.path.join(out, y.file_root + ".npz"))
                    require(close(back.metric_values.data[0], v) or sum(1 for q in comp.values() if q.file_root == y.file_root) > 1, "completeness read back", x)
        require(want == sum(1 for b in flat.values() if "Discovery" in b.metric.name and ("Time" in b.metric.name or "NChances" in b.metric.name or "N_Chances" in b.metric.name)), "bundles with completeness")
        nfr = 0
        for k, b in flat.items():
            thr = {"LightcurveInversion_Asteroid": [1], "LightcurveInversionAsteroid": [1], "ColorAsteroid": [4, 3, 2, 1], "Color_Asteroid": [4, 3, 2, 1], "LightcurveColorOuter": [6, 5, 4, 3, 2, 1], "lightcurveColor_Outer": [6, 5, 4, 3, 2, 1]}
            for name, ths in thr.items():
                if name not in k:
                    continue
                mine = [y for x, y in frac.items() if x.startswith(k + " FractionPop")]
                require(len(mine) == len(ths), "one fraction for each threshold", sorted(frac), k)
                mark = c["mark"] if c["mark"] is not None else (b.plot_dict["h_mark"] - 2 if b.plot_dict.get("h_mark") is not None else float(np.median(hs)) - 2)
                mark = max(mark, hs[0])
                for t, y in zip(ths, mine):
                    v = comp_of(b.metric_values, hs, False, t)
                    require(close(y.metric_values.data[0], v), "fraction of the population", k, t, y.metric_values, v)
                    if mark <= hs[-1]:
                        x = 100 * lin(mark, hs, v)
                        require(("H(=%.1f) = %.1f%%" % (mark, x)) in y.plot_dict["label"] or abs(x * 10 % 1 - 0.5) < 1e-6, "fraction in the label", y.plot_dict["label"], mark, v)
                    nfr += 1
        require(nfr == len(frac), "fractions of bundles", nfr, len(frac))
        return "mark" if c["mark"] is None else "given"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def joining(c):
    d = tempfile.mkdtemp(prefix="c16")
    try:
        s, ids, hh, a = setup(c, d)
        part = np.random.RandomState(c["seed"]).randint(0, c["parts"], c["n"])
        whole = None

        def run(sl, out):
            bd = {"a": mb.MoMetricBundle(M.NObsMetric(snr_limit=5), sl, stacker_list=[T.MoMagStacker()], run_name="run", info_label="x"), "b": mb.MoMetricBundle(M.ObsArcMetric(snr_limit=5), sl, run_name="run", info_label="x"), "c": mb.MoMetricBundle(M.DiscoveryMetric(n_obs_per_night=1, n_nights_per_window=2, t_window=30, t_min=0, t_max=1, snr_limit=5), sl, run_name="run", info_label="x")}
            mb.MoMetricBundleGroup(bd, out_dir=out, verbose=False).run_all()
            return [bd["a"], bd["b"], bd["c"].child_bundles["N_Chances"], bd["c"].child_bundles["Time"]]

        with quiet():
            whole = run(s, os.path.join(d, "all"))
            subs = []
            for p in range(c["parts"]):
                f = os.path.join(d, "o%d.npz" % p)
                np.savez(f, object_observations=a[np.isin(a["obj_id"], [ids[i] for i in range(c["n"]) if part[i] == p])])
                sl = S.MoObjSlicer(h_range=np.array(c["hs"]), verbose=False)
                sl.setup_slicer(os.path.join(d, "orb.txt"), obs_file=f)
                subs.append(run(sl, os.path.join(d, "pop_%d" % p)))
            for k, w in enumerate(whole):
                m = np.ma.getmaskarray(w.metric_values)
                joint = [mob.combine_subsets([x[k] for x in subs]), mob.combine_subsets({p: x[k] for p, x in enumerate(subs)}), mob.read_and_combine("pop", d, range(c["parts"]), w.file_root + ".npz")]
                for j in joint:
                    jm = np.ma.getmaskarray(j.metric_values)
                    require(np.array_equal(jm, m) and np.array_equal(j.metric_values.data[~m], w.metric_values.data[~m]), "joined values", w.metric.name, j.metric_values, w.metric_values)
                    require(j.run_name == "run" and j.info_label == "x" and j.file_root == w.file_root and j.metric.name == w.metric.name, "description of the joined values")
        return "parts" if len(set(part)) > 1 else "one"
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- plots: one failure does not stop the others
@st.composite
def plots_(draw):
    return {"n": 2, "ids": "str", "off": 0, "nobs": 30, "seed": draw(st.integers(0, 99)), "hs": [18.0, 20.0, 22.0], "silent": [], "span": 5, "bad": draw(st.lists(st.booleans(), min_size=2, max_size=4))}


def plotting(c):
    from rubin_sim.maf.plots import MetricVsH

    class Broken(MetricVsH):
        def __call__(self, *a, **k):
            raise ValueError("cannot be plotted")

    d = tempfile.mkdtemp(prefix="c16")
    try:
        s, ids, hh, a = setup(c, d)
        out = os.path.join(d, "out")
        bd = {"p%d" % i: mb.MoMetricBundle(M.NObsMetric(), s, run_name="run", info_label="l%d" % i, plot_funcs=[Broken() if bad else MetricVsH()]) for i, bad in enumerate(c["bad"])}
        with quiet():
            g = mb.MoMetricBundleGroup(bd, out_dir=out, verbose=False)
            g.run_all()
            g.plot_all(fig_format="png", dpi=30, thumbnail=False)
        files = [x for x in os.listdir(out) if x.endswith(".png")]
        for i, bad in enumerate(c["bad"]):
            require(any("l%d_" % i in x for x in files) == (not bad), "plots of the bundles", i, bad, files)
        return "mixed" if len(set(c["bad"])) == 2 else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- the commands
@st.composite
def cmd_(draw):
    c = draw(batch_())
    c["n"], c["named"], c["parts"] = 3, draw(st.booleans()), 10
    c["hs"] = [16.0, 19.0, 22.0]
    return c


def call(fn, *argv):
    old, sys.argv = sys.argv, ["cmd"] + [str(x) for x in argv]
    try:
        with quiet():
            fn()
    finally:
        sys.argv = old


def read_dir(out):
    res = {}
    for f in sorted(os.listdir(out)):
        if f.endswith("MOOB.npz"):
            b = mb.create_empty_mo_metric_bundle()
            with quiet():
                b.read(os.path.join(out, f))
            if b.metric_values.dtype != object:
                res[f] = b
    return res


def commands(c):
    from rubin_sim.maf.run_moving_calc import run_moving_calc
    from rubin_sim.maf.run_moving_join import run_moving_join

    d = tempfile.mkdtemp(prefix="c16")
    here = os.getcwd()
    try:
        s, ids, hh, a = setup(c, d)
        os.chdir(d)
        base = ["--orbit_file", os.path.join(d, "orb.txt"), "--objtype", c["type"], "--h_min", 16, "--h_max", 22, "--h_step", 3] + (["--simulation_db", "some/where/abc.db"] if c["named"] else [])
        call(run_moving_calc, "--obs_file", os.path.join(d, "obs.npz"), "--out_dir", os.path.join(d, "whole"), *base)
        whole = read_dir(os.path.join(d, "whole"))
        nobs = [b for f, b in whole.items() if "NObs" in f]
        require(len(nobs) == 1 and (not c["named"] or all(b.run_name == "abc" for b in whole.values())), "names of the results", sorted(whole)[:4])
        require(close(np.asarray(nobs[0].slicer.slice_points["H"]), c["hs"]), "the H values used", nobs[0].slicer.slice_points["H"])
        require(any("DiscoveryNChances" in f for f in whole) and any("DiscoveryTime" in f for f in whole) and any("ObsArc" in f for f in whole), "the results", sorted(whole)[:5])
        part = np.random.RandomState(c["seed"]).randint(0, 10, c["n"])
        for p in range(10):
            f = os.path.join(d, "o%d.npz" % p)
            np.savez(f, object_observations=a[np.isin(a["obj_id"], [ids[i] for i in range(c["n"]) if part[i] == p])])
            call(run_moving_calc, "--obs_file", f, "--out_dir", os.path.join(d, "base", "pop_%d" % p), *base)
        call(run_moving_join, "--orbit_file", "pop", "--base_dir", os.path.join(d, "base"), "--out_dir", os.path.join(d, "joint"))
        joint = read_dir(os.path.join(d, "joint"))
        wanted = [f for f in whole if "Discovery" not in f or any(x in f for x in ("DiscoveryTime", "DiscoveryNChances", "Magic", "HighVelocity"))]
        require(sorted(joint) == sorted(wanted), "the joined results", sorted(set(joint) ^ set(wanted)))
        parts = [read_dir(os.path.join(d, "base", "pop_%d" % p)) for p in range(10)]
        for f in joint:
            b = joint[f]
            jm = np.ma.getmaskarray(b.metric_values)
            for i in range(c["n"]):
                o = parts[part[i]][f].metric_values
                om = np.ma.getmaskarray(o)[i]
                require(np.array_equal(jm[i], om) and np.array_equal(b.metric_values.data[i][~om], o.data[i][~om]), "joined values of an object", f, ids[i])
        return "named" if c["named"] else "unnamed"
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


# ---- the processing script
@st.composite
def script_(draw):
    names = draw(st.lists(st.sampled_from(["base_v1.db", "trackingDb_sqlite.db", "a_run.db", "zz.db", "my_tracking.db", "run2.db"]), min_size=1, max_size=4, unique=True).filter(lambda x: any("tracking" not in n for n in x)))
    return {"names": names, "starts": draw(st.lists(st.integers(60000, 61000), min_size=4, max_size=4)), "split": draw(st.booleans()), "pop": draw(st.sampled_from([None, "l7_5k", "granvik_5k"])), "cli": draw(st.booleans())}


OPTS = {"run_moving_calc": None, "run_moving_fractions": None, "run_moving_join": None, "make_lsst_obs": None}


def options(cmd):
    if OPTS[cmd] is None:
        import argparse
        import importlib

        mod = importlib.import_module("rubin_sim.moving_objects.make_lsst_obs" if cmd == "make_lsst_obs" else "rubin_sim.maf." + cmd)
        fn = getattr(mod, "setup_args" if cmd == "make_lsst_obs" and hasattr(mod, "setup_args") else cmd)
        found = {}

        class Stop(Exception):
            pass

        def spy(self, *a, **k):
            found["p"] = self
            raise Stop

        real = argparse.ArgumentParser.parse_args
        argparse.ArgumentParser.parse_args = spy
        try:
            fn()
        except Stop:
            pass
        finally:
            argparse.ArgumentParser.parse_args = real
        OPTS[cmd] = found["p"]
    return OPTS[cmd]


def script(c):
    from rubin_sim.maf.generate_ss import generate_ss_commands

    d = tempfile.mkdtemp(prefix="c16")
    here = os.getcwd()
    try:
        data = os.path.join(d, "data")
        os.makedirs(os.path.join(data, "orbits", "split"))
        for p in ("l7_5k", "granvik_5k"):
            for i in range(2):
                open(os.path.join(data, "orbits", "split", "%s_%d.txt" % (p, i)), "w").close()
        start = {}
        os.makedirs(os.path.join(d, "w"))
        os.chdir(os.path.join(d, "w"))
        for n, t in zip(c["names"], c["starts"]):
            con = sqlite3.connect(n)
            con.execute("create table observations (observationStartMJD real)")
            con.executemany("insert into observations values (?)", [(t + 0.3,), (t + 5.1,)])
            con.commit()
            con.close()
            start[n] = t
        old = os.environ.get("RUBIN_SIM_DATA_DIR")
        os.environ["RUBIN_SIM_DATA_DIR"] = data
        try:
            with quiet():
                generate_ss_commands(dbfiles=list(c["names"]), pops=c["pop"], split=c["split"])
        finally:
            if old is None:
                os.environ.pop("RUBIN_SIM_DATA_DIR", None)
            else:
                os.environ["RUBIN_SIM_DATA_DIR"] = old
        real = [n for n in c["names"] if "tracking" not in n]
        lines = []
        for f in sorted(os.listdir(".")):
            if f.endswith(".sh"):
                with open(f) as fh:
                    lines += [x for x in fh.read().splitlines() if x.strip()]
        pops = [c["pop"]] if c["pop"] else ["trojan_5k", "l7_5k", "mba_5k", "granvik_5k", "granvik_pha_5k", "vatiras_granvik_10k", "occ_rmax5_5k", "occ_rmax20_5k"]
        seen = []
        for line in lines:
            for cmd in [x.strip() for x in line.split(";")]:
                if cmd.startswith("cat "):
                    continue
                name, *args = cmd.split()
                require(name in OPTS, "unknown command in the script", name)
                p = options(name)
                try:
                    with quiet():
                        err, sys.stderr = sys.stderr, open(os.devnull, "w")
                        try:
                            ns = p.parse_args(args)
                        finally:
                            sys.stderr.close()
                            sys.stderr = err
                except SystemExit:
                    require(False, "a command in the script is refused", cmd)
                if name == "run_moving_calc":
                    run = os.path.basename(ns.simulation_db).replace(".db", "")
                    require(ns.simulation_db in real, "a command for a file which is not a run", cmd)
                    require(ns.out_dir.split("/")[0] == run + "_ss" and os.path.basename(ns.obs_file).startswith(run + "__"), "files of another run in a command", cmd)
                    require(ns.start_time == start[ns.simulation_db], "the start of the run", cmd, start[ns.simulation_db])
                    seen.append((run, os.path.basename(ns.orbit_file)[:-4]))
                elif name == "make_lsst_obs":
                    require(ns.simulation_db in real, "a command for a file which is not a run", cmd)
        if c["split"]:
            want = [(n[:-3], p) for n in real for p in pops for i in range(2) if p in ("l7_5k", "granvik_5k")]
        else:
            want = [(n[:-3], p) for n in real for p in pops]
        require(sorted(seen) == sorted(want), "the runs and populations in the script", sorted(seen), sorted(want))
        return ("split" if c["split"] else "plain") if len(real) < len(c["names"]) or len(real) > 1 else None
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


# ---- the criteria that the labels of the batches name
CRIT = {"quick": ["3 pairs in 15 nights", "3 pairs in 30 nights"],
        "full": ["4 pairs in 20 nights", "3 triplets in 30 nights", "1 quad in 1 night",
                 "3 pairs in 15 nights SNR=5", "3 pairs in 15 nights SNR=4", "3 pairs in 15 nights SNR=3", "3 pairs in 15 nights SNR=0", "Single detection", "Single pair", "High velocity pair", "6 detections in 60 nights"]}


@st.composite
def crit_(draw):
    return {"batch": draw(st.sampled_from(["quick", "full", "full", "inner", "outer"])), "loss": draw(st.sampled_from(["detection", "trailing"])), "type": draw(st.sampled_from(["NEO", "", "TNO"])), "label": draw(st.sampled_from(["", "band r", ""])), "sql": draw(st.sampled_from([None, "filter == 'r'"])), "mag": draw(st.sampled_from(["asteroid", "comet_oort"])),
            "seed": draw(st.integers(0, 10 ** 6)), "span": draw(st.sampled_from([2, 12, 20, 28, 70])), "per": draw(st.sampled_from([2, 3, 4])), "rate": draw(st.sampled_from([0.15, 0.3, 0.6])), "windows": draw(st.sampled_from([None, [10.0, 45.0], [3.0]])), "bins": draw(st.sampled_from([None, [5.0, 30.0], [90.0]]))}


def crit_rec(c):
    r = np.random.RandomState(c["seed"])
    rows = []
    for night in range(c["span"]):
        if r.rand() < c["rate"]:
            t = 60000 + night + r.rand() * 0.1
            for _ in range(r.choice([c["per"], c["per"], 1])):
                rows.append((night, t))
                t += r.choice([3, 7, 20, 40, 61, 87, 93, 118, 123]) / 1440.0
    n = len(rows)
    rec = np.zeros(n, dtype=[("night", int), ("observationStartMJD", float), ("SNR", float), ("vis", int), ("velocity", float), ("seeingFwhmGeom", float), ("visitExposureTime", float), ("band", "U1"), ("phase", float), ("ecLon", float), ("appMag", float), ("appMagV", float), ("fiveSigmaDepth", float), ("ra", float), ("dec", float)])
    if n:
        rec["night"], rec["observationStartMJD"] = [x[0] for x in rows], [x[1] for x in rows]
        rec["SNR"] = r.choice([2.0, 3.5, 4.5, 6.0, 20.0, 200.0], n)
        rec["vis"] = r.rand(n) < 0.8
        rec["velocity"] = r.choice([0.5, 1.2, 1.6, 2.4, 5.0], n)
        rec["seeingFwhmGeom"] = r.choice([0.7, 1.0], n)
        rec["visitExposureTime"] = 30.0
        rec["band"] = r.choice(list("gri"), n)
        rec["phase"], rec["ecLon"] = r.uniform(0, 30, n), r.uniform(0, 360, n)
        rec["appMag"], rec["appMagV"], rec["fiveSigmaDepth"] = 22.0, 22.0, 24.0
    return rec


def from_label(text):
    """The metric that a label describes."""
    if text == "Single detection":
        return M.DiscoveryMetric(n_obs_per_night=1, n_nights_per_window=1, t_window=5)
    if text == "Single pair":
        return M.DiscoveryMetric(n_obs_per_night=2, n_nights_per_window=1, t_window=5)
    if text == "High velocity pair":
        return M.HighVelocityNightsMetric(psf_factor=2.0, n_obs_per_night=2)
    if text == "6 detections in 60 nights":
        return M.MagicDiscoveryMetric(n_obs=6, t_window=60)
    w = text.split()
    k = {"p": 2, "t": 3, "q": 4}[w[1][0]]
    kw = {"snr_limit": float(w[-1][4:])} if "SNR=" in text else {}
    win = 2 if text == "1 quad in 1 night" else int(w[3])
    return M.DiscoveryMetric(n_obs_per_night=k, t_min=5 / 1440.0, t_max={2: 90, 3: 120, 4: 150}[k] / 1440.0, n_nights_per_window=int(w[0]), t_window=win, **kw)


def criteria(c):
    s = S.MoObjSlicer(h_range=[20.0])
    kw = {"run_name": "run", "objtype": c["type"], "constraint": c["sql"], "constraint_info_label": c["label"], "magtype": c["mag"]}
    ext = c["label"] if c["label"] or c["sql"] is None else c["sql"].replace("filter", "").replace("==", "").replace("  ", " ")
    base = (c["type"] + " " + ext).rstrip(" ")
    orb = pd.Series({"q": 2.0, "e": 0.2, "tPeri": 60000.0, "a": 2.5})
    with quiet():
        if c["batch"] in CRIT:
            f = batches.quick_discovery_batch if c["batch"] == "quick" else batches.discovery_batch
            bd = f(s, detection_losses=c["loss"], **kw)
        else:
            f = batches.characterization_inner_batch if c["batch"] == "inner" else batches.characterization_outer_batch
            bd = f(s, windows=c["windows"], bins=c["bins"], **kw)
    rec = crit_rec(c)
    found = 0
    if c["batch"] in CRIT:
        tail = " %s loss" % c["loss"]
        labels = {}
        for b in bd.values():
            require(b.info_label.startswith(base + " ") and b.info_label.endswith(tail), "label of a bundle", b.info_label)
            labels[b.info_label[len(base) + 1: -len(tail)]] = b
        require(set(labels) == set(CRIT[c["batch"]]) and len(bd) == len(labels), "criteria of a batch", sorted(labels))
        for text, b in labels.items():
            st_ = [x for x in b.stacker_list if isinstance(x, T.MoMagStacker)]
            want = T.MoMagStacker(loss_col={"detection": "dmag_detect", "trailing": "dmag_trail"}[c["loss"]], magtype=c["mag"])
            require(len(st_) == 1 and sorted(st_[0].cols_req) == sorted(want.cols_req), "losses of a bundle", b.info_label, st_[0].cols_req)
            if len(rec) == 0:
                continue
            with quiet():
                want = from_label(text).run(rec.copy(), orb, 20.0)
                got = b.metric.run(rec.copy(), orb, 20.0)
            if isinstance(want, dict) or isinstance(got, dict):
                def norm(x):
                    return None if x is None else {k: x[k] for k in ("n_chances", "start", "end") if k in x} or {k: x[k] for k in x}
                w, g = norm(want), norm(got)
                require((w is None) == (g is None) and (w is None or all(same(np.asarray(w[k]), np.asarray(g[k])) for k in w)), "a bundle does not use the criterion of its label", text, g, w)
                found += want is not None
                require(set(b.child_bundles) == {"Time", "N_Chances"}, "children of a discovery", sorted(b.child_bundles))
                if want is not None:
                    with quiet():
                        nc = b.child_bundles["N_Chances"].metric.run(rec.copy(), orb, 20.0, got)
                        tm = b.child_bundles["Time"].metric.run(rec.copy(), orb, 20.0, got)
                        ref = from_label(text)
                        require(same(nc, M.DiscoveryNChancesMetric(ref).run(rec.copy(), orb, 20.0, want)) and same(tm, M.DiscoveryTimeMetric(ref).run(rec.copy(), orb, 20.0, want)), "values of the children of a discovery", text, nc, tm)
            else:
                require(same(want, got), "a bundle does not use the criterion of its label", text, got, want)
    else:
        windows = c["windows"] or list(np.arange(10, 200, 30.0))
        bins = c["bins"] or list(np.arange(5, 185, 20.0))
        ref = {"Chances of detecting activity lasting %.0f days" % w: M.ActivityOverTimeMetric(w) for w in windows}
        ref.update({"Chances of detecting activity covering %.0f deg" % w: M.ActivityOverPeriodMetric(w) for w in bins})
        for m in [M.NObsMetric(), M.ObsArcMetric()] + ([M.LightcurveInversionAsteroidMetric(), M.ColorAsteroidMetric()] if c["batch"] == "inner" else [M.LightcurveColorOuterMetric()]):
            ref[m.name] = m
        require(sorted(b.metric.name for b in bd.values()) == sorted(ref), "metrics of a batch", sorted(b.metric.name for b in bd.values()), sorted(ref))
        for b in bd.values():
            require(b.info_label == base, "label of a bundle", b.info_label, base)
            if len(rec):
                with quiet():
                    want = ref[b.metric.name].run(rec.copy(), orb, 20.0)
                    got = b.metric.run(rec.copy(), orb, 20.0)
                require(same(got, want), "value of a bundle", b.metric.name, got, want)
                found += 1
    for b in bd.values():
        require(b.run_name == "run" and b.constraint == (c["sql"] or "") or b.constraint == c["sql"], "run name and constraint", b.run_name, b.constraint)
        require(b.slicer is s, "slicer of a bundle")
    return c["batch"] if found else None


def arms():
    return [
        Arm("summaries", summ(), summaries, quick=250, thorough=4000, rule="population models, weighted means, completeness over H and over time, against their definitions"),
        Arm("own_h", own(), own_h, quick=200, thorough=4000, rule="a population with its own H values, no object on an inner bin edge"),
        Arm("slicing", popul(), slicing, quick=60, thorough=800, rule="some object has visits"),
        Arm("group", popul(), group, quick=50, thorough=800, rule="some value is not masked; every value is compared with a direct run"),
        Arm("pipeline", batch_(), pipeline, quick=10, thorough=120, rule="discovery and characterisation batches run and summarised"),
        Arm("joining", batch_(), joining, quick=20, thorough=200, rule="a population run in parts and joined, against the whole"),
        Arm("plotting", plots_(), plotting, quick=4, thorough=20, rule="some bundles can be plotted and some cannot"),
        Arm("commands", cmd_(), commands, quick=2, thorough=20, rule="a population calculated in ten parts and joined by the commands"),
        Arm("criteria", crit_(), criteria, quick=400, thorough=6000, rule="some metric of the batch finds or values the object; every one is compared with the metric its label describes"),
        Arm("script", script_(), script, quick=30, thorough=300, rule="more than one database, or a tracking database among them"),
    ]
