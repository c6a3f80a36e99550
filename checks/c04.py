"""C04: a group of metric bundles produces, for every bundle, exactly what that bundle means on its own."""

import os
import shutil
import sqlite3
import tempfile

import healpy as hp
import math

import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.maps as maps
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.stackers as stackers
from rubin_sim.maf.db import ResultsDb
from checks.c02 import sep
from vp.core import Arm, Reject, require
from vp.gen import grid, sized

ASSUMPTIONS = ["visits within 1e-6 deg of a search radius are not generated"]


class VpBad(metrics.BaseMetric):
    """Mean of a column, or the bad value when there are few visits."""

    def __init__(self, col="x", nmin=2, **kw):
        super().__init__(col=col, **kw)
        self.nmin = nmin

    def run(self, d, slice_point=None):
        return self.badval if len(d) < self.nmin else float(np.mean(d[self.colname]))


class VpReduce(metrics.BaseMetric):
    def __init__(self, col="x", **kw):
        super().__init__(col=col, metric_dtype="object", **kw)

    def run(self, d, slice_point=None):
        if len(d) == 1:
            return self.badval
        return np.sort(d[self.colname])

    def reduce_low(self, v):
        return float(v[0])

    def reduce_span(self, v):
        s = float(v[-1] - v[0])
        return self.badval if s == 0 else s


class VpVector(metrics.BaseMetric):
    def __init__(self, col="x", **kw):
        super().__init__(col=col, **kw)
        self.shape = 3

    def run(self, d, slice_point=None):
        x = d[self.colname]
        return np.array([len(x), float(np.min(x)), self.badval if len(x) < 2 else float(np.max(x))])


class VpMapMetric(metrics.BaseMetric):
    """Uses a value of the slice point, as metrics that need a map do."""

    def __init__(self, key, col="x", **kw):
        super().__init__(col=col, **kw)
        self.key = key

    def run(self, d, slice_point=None):
        return slice_point[self.key] * 1000 + len(d)


class VpMapA(maps.BaseMap):
    def __init__(self):
        self.keynames = ["vpa"]

    def run(self, sp):
        sp["vpa"] = np.asarray(sp["sid"]) * 2.0 + 1
        return sp


class VpMapB(maps.BaseMap):
    def __init__(self):
        self.keynames = ["vpb"]

    def run(self, sp):
        sp["vpb"] = np.asarray(sp["sid"]) * -3.0
        return sp


_dir = None


def setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix="c04_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


CONSTRAINTS = ["", "night < 4", "band = 'r'", 'band = "r" and night >= 2', "night < -5", None]


def con_mask(c, d):
    if c in ("", None):
        return np.ones(len(d["x"]), bool)
    n, b = np.array(d["night"]), np.array(d["band"])
    return {"night < 4": n < 4, "band = 'r'": b == "r", 'band = "r" and night >= 2': (b == "r") & (n >= 2),
            "night < -5": n < -5}[c]


@st.composite
def group_case(draw):
    n = draw(st.integers(1, 30))
    d = {
        "fieldRA": draw(st.lists(st.floats(0, 360).map(lambda v: round(v, 2)), min_size=n, max_size=n)),
        "fieldDec": draw(st.lists(st.floats(-80, 30).map(lambda v: round(v, 2)), min_size=n, max_size=n)),
        "night": draw(st.lists(st.integers(0, 6), min_size=n, max_size=n)),
        "band": draw(st.lists(st.sampled_from(["r", "g", "i"]), min_size=n, max_size=n)),
        "x": draw(st.lists(grid(-5, 5, 2), min_size=n, max_size=n)),
        "airmass": draw(st.lists(st.sampled_from([1.0, 1.25, 1.5, 2.0]), min_size=n, max_size=n)),
    }
    # clustered pointings so that pixels share visit sets (which is what the cache is about)
    if n > 3 and draw(st.booleans()):
        for k in range(1, n):
            if draw(st.integers(0, 2)):
                d["fieldRA"][k] = d["fieldRA"][0]
                d["fieldDec"][k] = d["fieldDec"][0]
    nb = draw(st.integers(1, 6))
    sl_pool = draw(st.lists(slicer_spec(), min_size=1, max_size=3))
    bundles = []
    con_pool = draw(st.lists(st.integers(0, len(CONSTRAINTS) - 1), min_size=1, max_size=3))
    for _ in range(nb):
        bundles.append({
            "slicer": draw(st.sampled_from(sl_pool)),
            "share": draw(st.booleans()),
            "metric": draw(st.sampled_from(["count", "mean", "max", "bad", "bad", "reduce", "vector", "mapa", "mapb",
                                            "norm", "norm", "norm"])),
            "badval": draw(st.sampled_from([-666, -666, 0.0, 3.5, math.nan])),
            "con": draw(st.sampled_from(con_pool)),
            "lat": draw(st.sampled_from([None, None, -30.0, -10.0])),
            "summ": draw(st.lists(st.sampled_from(["mean", "max", "count", "mean0", "id"]), max_size=3, unique=True)),
        })
    return {"data": d, "bundles": bundles, "mode": draw(st.sampled_from(["all", "all", "con", "file"])),
            "save_early": draw(st.booleans()), "cache_size": draw(st.sampled_from([None, 1, 2]))}


@st.composite
def cached_case(draw):
    """A cached sky slicer whose slices hold many different small combinations of a few visits."""
    n = draw(st.integers(6, 14))
    xs = draw(st.permutations(range(n)))
    d = {
        "fieldRA": draw(st.lists(st.integers(0, 35).map(lambda v: v * 10 + 0.37), min_size=n, max_size=n)),
        "fieldDec": draw(st.lists(st.integers(-8, 3).map(lambda v: v * 10 + 0.41), min_size=n, max_size=n)),
        "night": [int(k % 5) for k in range(n)],
        "band": draw(st.lists(st.sampled_from(["r", "g"]), min_size=n, max_size=n)),
        "x": [float(v) ** 2 / 4 for v in xs],
        "airmass": draw(st.lists(st.sampled_from([1.0, 1.25, 1.5, 2.0]), min_size=n, max_size=n)),
    }
    radius = draw(st.sampled_from([25.0, 40.0, 60.0]))
    sl = {"kind": "healpix", "nside": draw(st.sampled_from([2, 4])), "cache": True, "radius": radius}
    if draw(st.integers(0, 3)) == 0:
        sl = dict(sl, kind="subset", hpid=sorted(draw(st.lists(st.integers(0, 47), min_size=12, max_size=40, unique=True))))
    bundles = [{"slicer": sl, "share": True, "metric": m, "badval": -666, "con": 0, "lat": None, "summ": []}
               for m in draw(st.lists(st.sampled_from(["mean", "max", "bad", "reduce", "vector", "norm"]),
                                      min_size=1, max_size=2))]
    return {"data": d, "bundles": bundles, "mode": "all", "save_early": False,
            "cache_size": draw(st.sampled_from([None, None, None, 2]))}


@st.composite
def slicer_spec(draw):
    kind = draw(st.sampled_from(["uni", "oned", "healpix", "healpix", "subset", "user", "nd"]))
    s = {"kind": kind}
    if kind == "oned":
        s["bins"] = sorted(draw(st.lists(grid(-5, 6, 1), min_size=2, max_size=5, unique=True)))
        s["col"] = draw(st.sampled_from(["x", "night"]))
    elif kind == "nd":
        s["bins"] = [sorted(draw(st.lists(grid(-5, 6, 1), min_size=2, max_size=3, unique=True))) for _ in range(2)]
    elif kind in ("healpix", "subset"):
        s["nside"] = draw(st.sampled_from([1, 2, 4]))
        s["cache"] = draw(st.booleans())
        s["radius"] = draw(st.sampled_from([10.0, 25.0, 60.0]))
        if kind == "subset":
            npix = 12 * s["nside"] ** 2
            s["hpid"] = sorted(draw(st.lists(st.integers(0, npix - 1), min_size=1, max_size=12, unique=True)))
    elif kind == "user":
        s["pts"] = draw(sized(st.tuples(st.integers(0, 359), st.integers(-80, 30)).map(list), 1, 5))
        s["radius"] = draw(st.sampled_from([10.0, 60.0]))
    return s


def mk_slicer(s):
    k = s["kind"]
    if k == "uni":
        return slicers.UniSlicer(verbose=False)
    if k == "oned":
        return slicers.OneDSlicer(slice_col_name=s["col"], bins=np.array(s["bins"], float), verbose=False)
    if k == "nd":
        return slicers.NDSlicer(["x", "night"], [np.array(b, float) for b in s["bins"]], verbose=False)
    if k == "healpix":
        return slicers.HealpixSlicer(nside=s["nside"], use_cache=s["cache"], radius=s["radius"], use_camera=False,
                                     verbose=False)
    if k == "subset":
        return slicers.HealpixSubsetSlicer(s["nside"], np.array(s["hpid"]), use_cache=s["cache"], radius=s["radius"],
                                           use_camera=False, verbose=False)
    return slicers.UserPointsSlicer([p[0] for p in s["pts"]], [p[1] for p in s["pts"]], radius=s["radius"],
                                    use_camera=False, verbose=False, badval=-666)


def members(s, d, sel):
    """list of (list of visit numbers) per slice, None for a slice outside the subset."""
    idx = np.where(sel)[0]
    k = s["kind"]
    if k == "uni":
        return [idx]
    if k == "oned":
        v = np.array(d[s["col"]])[idx]
        b = s["bins"]
        return [idx[(v >= b[i]) & (v < b[i + 1])] for i in range(len(b) - 1)]
    if k == "nd":
        v, w = np.array(d["x"])[idx], np.array(d["night"])[idx]
        b, c = [list(x[:-1]) + [np.inf] for x in s["bins"]]
        return [idx[(v >= b[i]) & (v < b[i + 1]) & (w >= c[j]) & (w < c[j + 1])] for i in range(len(b) - 1)
                for j in range(len(c) - 1)]
    if k == "user":
        pts = s["pts"]
        use = range(len(pts))
    else:
        npix = 12 * s["nside"] ** 2
        lon, lat = hp.pix2ang(s["nside"], np.arange(npix), lonlat=True)
        pts = list(zip(lon, lat))
        use = set(s["hpid"]) if k == "subset" else range(npix)
    ra, dec = np.array(d["fieldRA"])[idx], np.array(d["fieldDec"])[idx]
    out = []
    for i, p in enumerate(pts):
        if i not in use:
            out.append(None)
            continue
        dd = sep(p[0], p[1], ra, dec)
        if np.any(np.abs(dd - s["radius"]) < 1e-6):
            raise Reject
        out.append(idx[dd <= s["radius"]])
    return out


def mk_summary(names):
    out = []
    for s in names:
        if s == "mean":
            out.append(metrics.MeanMetric("metricdata", metric_name="S_mean"))
        elif s == "max":
            out.append(metrics.MaxMetric("metricdata", metric_name="S_max"))
        elif s == "count":
            out.append(metrics.CountMetric("metricdata", metric_name="S_count"))
        elif s == "mean0":
            out.append(metrics.MeanMetric("metricdata", metric_name="S_mean0", mask_val=7.0))
        else:
            out.append(metrics.MinMetric("metricdata", metric_name="S_min"))
    return out


def want_summary(name, vals, mask):
    """vals/mask flat arrays"""
    good = vals[~mask]
    if name == "mean0":
        return float(np.mean(np.where(mask, 7.0, vals)))
    if len(good) == 0:
        return None
    return float({"mean": np.mean, "max": np.max, "count": len, "id": np.min}[name](good))


SKEY = {"mean": "S_mean", "max": "S_max", "count": "S_count", "mean0": "S_mean0", "id": "S_min"}


def isbad(v, bv):
    """the declared bad value, which may be not-a-number"""
    return v == bv or (bv != bv and v != v)


def metric_value(kind, d, ids, i, spec, badval):
    x = np.array(d["x"], float)[ids]
    if kind == "count":
        return len(ids)
    if kind == "mean":
        return x.mean()
    if kind == "max":
        return x.max()
    if kind == "bad":
        return badval if len(ids) < 2 else x.mean()
    if kind == "vector":
        return [len(ids), x.min(), badval if len(ids) < 2 else x.max()]
    if kind == "mapa":
        return (2.0 * i + 1) * 1000 + len(ids)
    if kind == "mapb":
        return -3.0 * i * 1000 + len(ids)
    if kind == "reduce":
        return badval if len(ids) == 1 else np.sort(x)
    if kind == "norm":
        lat = spec["lat"] if spec["lat"] is not None else -30.2446388
        dec = np.radians(np.array(d["fieldDec"])[ids])
        na = np.array(d["airmass"])[ids] * np.cos(np.abs(dec - np.radians(lat)))
        return na.max()


def group_test(case):
    d = case["data"]
    n = len(d["x"])
    work = tempfile.mkdtemp(dir=_dir)
    try:
        return _group_test(case, d, n, work)
    finally:
        shutil.rmtree(work, True)


def _group_test(case, d, n, work):
    dbf = os.path.join(work, "v.db")
    con = sqlite3.connect(dbf)
    cols = ["observationId", "fieldRA", "fieldDec", "rotSkyPos", "night", "band", "x", "airmass"]
    con.execute("CREATE TABLE observations (observationId INT, fieldRA REAL, fieldDec REAL, rotSkyPos REAL, "
                "night INT, band TEXT, x REAL, airmass REAL)")
    rows = [(i, d["fieldRA"][i], d["fieldDec"][i], 0.0, d["night"][i], d["band"][i], d["x"][i], d["airmass"][i])
            for i in range(n)]
    con.executemany("INSERT INTO observations VALUES (?,?,?,?,?,?,?,?)", rows)
    con.commit()
    bundles = {}
    specs = []
    shared = {}
    roots = set()
    for j, spec in enumerate(case["bundles"]):
        spec = dict(spec)
        s = spec["slicer"]
        kind = spec["metric"]
        if kind in ("mapa", "mapb") and (s["kind"] not in ("healpix", "subset", "user") or s.get("cache")):
            kind = "mean"  # metrics reading map values are documented to need an uncached sky slicer
        spec["metric"] = kind
        key = repr(s)
        if spec["share"] and key in shared:
            sl = shared[key]
        else:
            sl = mk_slicer(s)
            if case["cache_size"] and sl.cache_size:
                sl.cache_size = case["cache_size"]
            shared[key] = sl
        name = "red" if kind == "reduce" else f"m{j}"

        def mk(name):
            bv = spec["badval"]
            if kind == "count":
                return metrics.CountMetric("x", metric_name=name)
            if kind == "mean":
                return metrics.MeanMetric("x", metric_name=name)
            if kind == "max":
                return metrics.MaxMetric("x", metric_name=name)
            if kind == "bad":
                return VpBad(metric_name=name, badval=bv)
            if kind == "reduce":
                return VpReduce(metric_name=name, badval=bv)
            if kind == "vector":
                return VpVector(metric_name=name, badval=bv)
            if kind == "mapa":
                return VpMapMetric("vpa", metric_name=name)
            if kind == "mapb":
                return VpMapMetric("vpb", metric_name=name)
            return metrics.MaxMetric("normairmass", metric_name=name)

        kw = {}
        if kind == "norm" and spec["lat"] is not None:
            kw["stacker_list"] = [stackers.NormAirmassStacker(telescope_lat=spec["lat"])]
        if kind == "mapa":
            kw["maps_list"] = [VpMapA()]
        if kind == "mapb":
            kw["maps_list"] = [VpMapB()]
        c = CONSTRAINTS[spec["con"]]
        summ = None if s["kind"] == "uni" and not spec["summ"] else mk_summary(spec["summ"])
        b = mb.MetricBundle(mk(name), sl, c, summary_metrics=summ, run_name="run", **kw)
        if b.file_root in roots:
            name = f"m{j}"
            b = mb.MetricBundle(mk(name), sl, c, summary_metrics=summ, run_name="run", **kw)
        roots.add(b.file_root)
        spec["name"] = name
        spec["root"] = b.file_root
        bundles[f"b{j}"] = b
        specs.append((f"b{j}", spec, b))
    originals = dict(bundles)
    out_dir = os.path.join(work, "out")
    rdb = ResultsDb(out_dir=out_dir)
    group = mb.MetricBundleGroup(bundles, dbf if case["mode"] == "file" else con, out_dir=out_dir, results_db=rdb,
                                 save_early=case["save_early"])
    if case["mode"] == "con":
        for c in sorted(set("" if CONSTRAINTS[s["con"]] is None else CONSTRAINTS[s["con"]] for s in case["bundles"])):
            sel = con_mask(c, d)
            rec = np.zeros(int(sel.sum()), dtype=[("observationId", int), ("fieldRA", float), ("fieldDec", float),
                                                  ("rotSkyPos", float), ("night", int), ("band", "<U5"), ("x", float),
                                                  ("airmass", float)])
            for k, col in enumerate(cols):
                rec[col] = [rows[i][k] for i in np.where(sel)[0]]
            if len(rec) == 0:
                continue
            group.run_current(c, sim_data=rec)
    else:
        group.run_all()
    con.close()
    stats = rdb.get_summary_stats(with_sim_name=True)
    nontriv = False
    allb = group.bundle_dict
    expected_new = 0
    stat_rows = 0
    for key, spec, b in specs:
        c = CONSTRAINTS[spec["con"]]
        sel = con_mask(c, d)
        require(allb.get(key) is originals[key], "bundle replaced in the group", key)
        if not sel.any():
            require(b.metric_values is None or b.metric_values.mask.all(), "values without data", key)
            continue
        mem = members(spec["slicer"], d, sel)
        bv = spec["badval"]
        if spec["metric"] not in ("bad", "vector", "reduce"):
            bv = -666
        mv = b.metric_values
        require(mv is not None and len(mv) == len(mem), "bundle not run", key, spec)
        vals, mask = [], []
        for i, ids in enumerate(mem):
            if ids is None or len(ids) == 0:
                vals.append(None)
                mask.append(True)
                continue
            vals.append(metric_value(spec["metric"], d, ids, i, spec, bv))
            mask.append(False)
        if spec["metric"] == "vector":
            for i in range(len(mem)):
                for k in range(3):
                    m = mask[i] or isbad(vals[i][k], bv)
                    require(bool(mv.mask[i, k]) == m, "mask of a vector value", key, i, k)
                    if not m:
                        require(abs(mv.data[i, k] - vals[i][k]) < 1e-9, "vector value", key, i, k, mv.data[i, k],
                                vals[i][k])
            flat = np.array([[(bv if v is None else v[k]) for k in range(3)] for v in vals], float).ravel()
            fmask = np.array([[(m or isbad(v[k], bv)) for k in range(3)] for v, m in zip(vals, mask)]).ravel()
            groups = [("", b, flat, fmask)]
        elif spec["metric"] == "reduce":
            groups = []
            for i in range(len(mem)):
                m = mask[i] or np.isscalar(vals[i])
                require(bool(mv.mask[i]) == m, "mask", key, i)
                if not m:
                    require(np.array_equal(mv.data[i], vals[i]), "object value", key, i)
            for r, fn in (("low", lambda v: v[0]), ("span", lambda v: v[-1] - v[0])):
                expected_new += 1
                cand = [x for x in allb.values() if x.metric.name == f"{spec['name']}_{r}"
                        and x.slicer == b.slicer and x.constraint == b.constraint]
                require(len(cand) == 1, "reduced bundle missing from the group", key, r, len(cand))
                fl, fm = [], []
                for v, m in zip(vals, mask):
                    if m or np.isscalar(v):
                        fl.append(0.0)
                        fm.append(True)
                    else:
                        w = fn(v)
                        bad = (r == "span" and w == 0) or isbad(w, bv)
                        fl.append(w)
                        fm.append(bool(bad))
                groups.append((r, cand[0], np.array(fl, float), np.array(fm)))
        else:
            fl = np.array([0.0 if v is None else v for v in vals], float)
            fm = np.array([m or isbad(v, bv) for v, m in zip(vals, mask)])
            groups = [("", b, fl, fm)]
        for r, bb, fl, fm in groups:
            got = bb.metric_values
            gm = np.ma.getmaskarray(got).ravel()
            gd = np.asarray(got.data, float).ravel()
            require(np.array_equal(gm, fm), "mask", key, r, spec, gm, fm)
            require(np.allclose(gd[~fm], fl[~fm], rtol=1e-9, atol=1e-9), "values", key, r, spec, gd[~fm], fl[~fm])
            if spec["slicer"]["kind"] == "uni" and not spec["summ"]:
                want = {}
            else:
                want = {SKEY[s]: want_summary(s, fl, fm) for s in spec["summ"]}
            sv = bb.summary_values or {}
            for sname, w in want.items():
                require(sname in sv, "summary statistic missing", key, r, sname)
                if w is None:
                    w = bb.slicer.badval
                require(np.isclose(float(sv[sname]), w, rtol=1e-9, atol=1e-9, equal_nan=True), "summary", key, r, sname,
                        sv[sname], w)
                q = stats[(stats["metric_name"] == bb.metric.name) & (stats["summary_metric"] == sname)
                          & (stats["slicer_name"] == bb.slicer.slicer_name)
                          & (stats["metric_info_label"] == bb.info_label)]
                if np.isfinite(w) and not isinstance(sv[sname], np.integer):
                    require(len(q) >= 1 and np.any(np.isclose(q["summary_value"], w, rtol=1e-9, atol=1e-9)),
                            "summary not in the results database", key, sname, q["summary_value"], w)
                stat_rows += 1
            if case["save_early"]:
                require(os.path.isfile(os.path.join(out_dir, bb.file_root + ".npz")), "no saved file", bb.file_root)
            if (~fm).any() and len(fm) > 1:
                nontriv = True
    require(len(allb) == len(specs) + expected_new, "number of bundles in the group", len(allb), expected_new)
    if not nontriv:
        return None
    return "many" if len(specs) > 2 else "few"


# ------------------------------------------------- bundle naming / required columns
@st.composite
def cols_case(draw):
    return {
        "col": draw(st.sampled_from(["x", "normairmass", "season", "zenithDistance", "ha", "PAdummy", "night"])),
        "extra": draw(st.booleans()),
        "sl": draw(slicer_spec()),
    }


def cols_test(case):
    if case["col"] == "PAdummy":
        raise Reject
    sl = mk_slicer(case["sl"])
    kw = {}
    if case["extra"] and case["col"] == "normairmass":
        kw["stacker_list"] = [stackers.NormAirmassStacker(airmass_col="am2", dec_col="d2")]
    b = mb.MetricBundle(metrics.MeanMetric(case["col"]), sl, "", **kw)
    # everything the slicer, metric and stackers need is either queried or computed by a stacker in the bundle
    need = set(sl.columns_needed) | {case["col"]}
    made = set()
    for s in b.stacker_list:
        need |= set(s.cols_req)
        made |= set(s.cols_added)
    require(need - made <= set(b.db_cols), "column neither queried nor computed", sorted(need - made), b.db_cols)
    require(not (set(b.db_cols) & made), "computed column queried from the database", b.db_cols)
    if "stacker_list" in kw:
        require(len(b.stacker_list) == 1 and {"am2", "d2"} <= set(b.db_cols), "given stacker not used")
    return case["col"] if b.stacker_list else None


def arms():
    return [
        Arm("group", group_case(), group_test, 260, rule="1-6 bundles over shared slicers, 6 constraints, stacker "
            "settings, maps, caches of size 1/2/default; non-trivial: some multi-slice bundle has a value", setup=setup),
        Arm("group2", group_case(), group_test, 260, rule="as group, other seeds", setup=setup),
        Arm("group3", group_case(), group_test, 260, rule="as group, other seeds", setup=setup),
        Arm("cached", cached_case(), group_test, 120, rule="a cached sky slicer whose slices hold many small "
            "combinations of 6-14 visits with distinct values; non-trivial: as group", setup=setup),
        Arm("columns", cols_case(), cols_test, 100, rule="non-trivial: the bundle needs a stacker"),
    ]
