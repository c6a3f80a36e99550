"""C05: metric results survive saving and restoring."""

import json
import os
import warnings
import shutil
import sqlite3
import tempfile

import numpy as np
import numpy.ma as ma
from hypothesis import strategies as st

import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
from rubin_sim.maf.db import ResultsDb
from checks.c04 import VpBad, VpReduce, VpVector
from vp.core import Arm, Reject, require
from vp.gen import grid, sized, to_rec

ASSUMPTIONS = ["values compared bit for bit where not masked", "HourglassSlicer, documented not to be saved, excluded"]
_dir = None


def setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix="c05_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


TXT = st.text(alphabet="abR zZ09_-.,<>=:()'\"%#/\\éλ", max_size=12)


@st.composite
def slicer_case(draw):
    kind = draw(st.sampled_from(["uni", "oned", "nd", "healpix", "healpix", "subset", "user", "movie", "time", "block",
                                 "visit"]))
    c = {"kind": kind, "cam": draw(st.booleans()), "deg": draw(st.booleans()), "cache": draw(st.booleans()),
         "lon": draw(st.sampled_from(["fieldRA", "myra"])), "rot": draw(st.sampled_from(["rotSkyPos", "r2"])),
         "radius": draw(st.sampled_from([1.0, 2.45])), "badval": draw(st.sampled_from([-666, -5.0, None])),
         "cum": draw(st.booleans()), "col": draw(st.sampled_from(["x", "y"])),
         "bins": sorted(draw(st.lists(grid(0, 6), min_size=2, max_size=6, unique=True))),
         "binmode": draw(st.sampled_from(["bins", "size"])),
         "nside": draw(st.sampled_from([1, 2])),
         "hpid": sorted(draw(st.lists(st.integers(0, 11), min_size=1, max_size=6, unique=True))),
         "pts": [[0, 0]] + draw(sized(st.tuples(st.integers(0, 359), st.integers(-80, 80)).map(list), 1, 5)),
         "x": draw(sized(grid(0, 6), 2, 10))}
    return c


def build(c):
    n = len(c["x"])
    data = to_rec({"x": list(map(float, c["x"])), "y": [float(v) * 2 for v in c["x"]],
                   "fieldRA": [0.1 * i for i in range(n)], "fieldDec": [-0.1 * i for i in range(n)],
                   "myra": [0.2 * i for i in range(n)], "rotSkyPos": [0.0] * n, "r2": [0.0] * n,
                   "observationStartMJD": [60000.1 + 0.01 * i for i in range(n)], "visitTime": [30.0] * n,
                   "scheduler_note": ["a" if i % 3 else "b" for i in range(n)],
                   "start2": [60001.1 + 0.02 * ((i * 3) % 7) for i in range(n)], "time2": [2000.0] * n,
                   "note2": ["a" if i % 2 else "b" for i in range(n)]})
    bv = np.nan if c["badval"] is None else c["badval"]
    k = c["kind"]
    sky = dict(lon_col=c["lon"], rot_sky_pos_col_name=c["rot"], radius=c["radius"], badval=bv, use_camera=False,
               lat_lon_deg=c["deg"], verbose=False)
    if k == "uni":
        s = slicers.UniSlicer(verbose=False, badval=bv)
    elif k == "oned":
        kw = {"bins": np.array(c["bins"])} if c["binmode"] == "bins" else {"bin_size": 0.5}
        s = slicers.OneDSlicer(slice_col_name=c["col"], badval=bv, verbose=False, **kw)
    elif k == "nd":
        s = slicers.NDSlicer(["x", "y"] if c["cum"] else ["y", "x"],
                             [np.array(c["bins"]), 2] if c["binmode"] == "bins" else 2, verbose=False)
    elif k == "movie":
        s = slicers.MovieSlicer(slice_col_name=c["col"], bins=np.array(c["bins"]), cumulative=c["cum"], badval=bv,
                                force_no_ffmpeg=True, verbose=False)
    elif k == "healpix":
        s = slicers.HealpixSlicer(nside=c["nside"], use_cache=c["cache"], **sky)
    elif k == "subset":
        s = slicers.HealpixSubsetSlicer(1, np.array(c["hpid"]), use_cache=c["cache"], **sky)
    elif k == "user":
        s = slicers.UserPointsSlicer([p[0] for p in c["pts"]], [p[1] for p in c["pts"]], **sky)
    elif k == "time":
        kw = {"mjd_column_name": "start2"} if c["lon"] == "myra" else {}
        s = slicers.TimeIntervalSlicer(interval_seconds=3600 if c["deg"] else 1800, badval=bv, **kw)
    elif k == "block":
        kw = {"mjd_column_name": "start2", "duration_column_name": "time2", "note_column_name": "note2"} \
            if c["lon"] == "myra" else {}
        s = slicers.BlockIntervalSlicer(badval=bv, **kw)
    else:
        kw = {"mjd_column_name": "start2", "duration_column_name": "time2", "extra_column_names": ["x"]} \
            if c["lon"] == "myra" else {}
        s = slicers.VisitIntervalSlicer(badval=bv, **kw)
    s.setup_slicer(data)
    return s, data


@st.composite
def npz_case(draw):
    return {"s": draw(slicer_case()), "form": draw(st.sampled_from(["masked", "masked", "plain", "vector", "object",
                                                                    "int"])),
            "vals": draw(sized(st.one_of(grid(-100, 100), st.floats(-1e6, 1e6), st.sampled_from([float("nan"), -666.0])),
                               5, 12)),
            "mask": draw(sized(st.booleans(), 5, 12)),
            "label": draw(TXT), "con": draw(TXT),
            "summ": draw(st.dictionaries(st.text(max_size=6), st.floats(-1e3, 1e3), max_size=3))}


def values(case, n):
    v = np.array([case["vals"][(i * 7) % len(case["vals"])] for i in range(n)], float)
    m = np.array([case["mask"][(i * 5) % len(case["mask"])] for i in range(n)], bool)
    return v, m


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f")
                   for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind == "f":
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def check_slicer(s, back):
    require(type(back) is type(s), "kind of slicer", type(back), type(s))
    require(int(back.nslice) == int(s.nslice) and len(back) == len(s) and np.array_equal(back.shape, s.shape), "size")
    a, b = s.get_slice_points(), back.get_slice_points()
    require(set(a) == set(b), "slice point keys", sorted(a), sorted(b))
    for k in a:
        require(same(a[k], b[k]), "slice points", k)
    require(back == s and s == back and not (back != s), "restored slicer is not equal to the saved one")
    require(np.array_equal(np.asarray(back.badval, float), np.asarray(s.badval, float), equal_nan=True), "badval",
            back.badval, s.badval)


def npz_test(case):
    s, data = build(case["s"])
    n = int(s.nslice)
    v, m = values(case, n)
    form = case["form"]
    if form == "plain":
        mv = v
    elif form == "vector":
        mv = ma.MaskedArray(np.stack([v, v + 1], 1), mask=np.stack([m, ~m], 1), fill_value=s.badval)
    elif form == "object":
        o = np.empty(n, object)
        for i in range(n):
            o[i] = np.array([v[i], i]) if i % 2 else {"a": float(i)}
        mv = ma.MaskedArray(o, mask=m)
    elif form == "int":
        mv = ma.MaskedArray(np.nan_to_num(v).astype(int), mask=m)
    else:
        mv = ma.MaskedArray(v, mask=m, fill_value=s.badval)
    path = os.path.join(_dir, "x.npz")
    pd = {"units": "u", "color_min": 1.5}
    dd = {"group": "G", "order": 3}
    s.write_data(path, mv, metric_name="nm", sim_data_name="run", constraint=case["con"], info_label=case["label"],
                 plot_dict=pd, display_dict=dd, summary_values=case["summ"])
    mv2, back, header = slicers.BaseSlicer().read_data(path)
    check_slicer(s, back)
    require(mv2.dtype == mv.dtype, "dtype", mv2.dtype, mv.dtype)
    wm = ma.getmaskarray(mv) if isinstance(mv, ma.MaskedArray) else np.zeros(mv.shape, bool)
    require(np.array_equal(ma.getmaskarray(mv2), wm), "mask")
    if form == "object":
        for i in range(n):
            a, b = np.asarray(ma.getdata(mv))[i], np.asarray(ma.getdata(mv2))[i]
            require(a == b if isinstance(a, dict) else np.array_equal(a, b, equal_nan=True), "object value", i)
    else:
        require(same(ma.getdata(mv2), ma.getdata(mv)), "values")
    if form == "masked":
        require(same(np.asarray(mv2.fill_value, float), np.asarray(mv.fill_value, float)), "fill value")
    want = {"metric_name": "nm", "sim_data_name": "run", "constraint": case["con"], "info_label": case["label"],
            "plot_dict": pd, "display_dict": dd, "summary_values": case["summ"]}
    for k, w in want.items():
        require(header[k] == w, "header", k, header[k], w)
    # the slicer can be rebuilt from what was stored
    if case["s"]["kind"] in ("user", "healpix", "subset"):
        again = type(s)(**back.slicer_init)
        require(np.allclose(again.slice_points["ra"], s.slice_points["ra"]), "slicer rebuilt from its description")
    # and used again: on the same visits the restored slicer makes the same slices
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        back.setup_slicer(data)
    require(len(back) == len(s), "slices made by the restored slicer", len(back), len(s))
    for i in range(len(s)):
        a, b = sorted(np.ravel(s[i]["idxs"])), sorted(np.ravel(back[i]["idxs"]))
        require(a == b, "visits in a slice made by the restored slicer", i, b, a)
    return case["s"]["kind"] + "-" + form if n > 1 else None


# ------------------------------------------------------------ bundles
@st.composite
def bundle_case(draw):
    c = draw(npz_case())
    if c["form"] in ("plain", "int", "object"):
        c["form"] = "masked"
    c["name"] = draw(st.sampled_from(["Median x", "a/b <3", "n(1).2, z", "plain"]))
    c["con"] = draw(st.sampled_from(["", "filter = 'r'", "night < 365 and band = \"g\""]))
    c["labelgiven"] = draw(st.booleans())
    c["plot"] = draw(st.dictionaries(st.sampled_from(["units", "title", "zp", "color_max"]),
                                     st.floats(1, 10), max_size=3))
    c["disp"] = draw(st.one_of(st.none(), st.fixed_dictionaries({"group": st.sampled_from(["g", "h"]),
                                                                 "order": st.integers(0, 5)})))
    c["suffix"] = draw(st.sampled_from([None, "v2"]))
    return c


def bundle_test(case):
    s, data = build(case["s"])
    n = int(s.nslice)
    v, m = values(case, n)
    met = metrics.MeanMetric("x", metric_name=case["name"])
    kw = {"info_label": case["label"]} if case["labelgiven"] else {}
    pd = dict(case["plot"])
    if "units" in pd:
        pd["units"] = "mag"
    b = mb.MetricBundle(met, s, case["con"], run_name="my run", plot_dict=pd, display_dict=case["disp"], **kw)
    b.metric_values = ma.MaskedArray(v, mask=m, fill_value=s.badval)
    b.summary_values = dict(case["summ"])
    out = tempfile.mkdtemp(dir=_dir)
    try:
        b.write(out_dir=out, outfile_suffix=case["suffix"])
        want_file = b.file_root + ("_" + case["suffix"] if case["suffix"] else "") + ".npz"
        require(os.listdir(out) == [want_file], "file written", os.listdir(out), want_file)
        gen = mb.MetricBundle.load(os.path.join(out, want_file))
        for rnd in range(2):
            require(same(gen.metric_values.data, v) and np.array_equal(ma.getmaskarray(gen.metric_values), m), "values")
            check_slicer(s, gen.slicer)
            require(gen.metric.name == case["name"] and gen.run_name == "my run" and gen.constraint == b.constraint
                    and gen.info_label == b.info_label, "identity", gen.info_label, b.info_label)
            require(gen.plot_dict == b.plot_dict, "plot settings", gen.plot_dict, b.plot_dict)
            require(gen.display_dict == b.display_dict, "display settings", gen.display_dict, b.display_dict)
            require(gen.summary_values == case["summ"], "summary values")
            require(gen.file_root + ".npz" == want_file, "file root", gen.file_root)
            require(gen.metric.units == pd.get("units", ""), "units")
            # and once more from the restored bundle
            gen.write(out_dir=out)
            gen = mb.MetricBundle.load(os.path.join(out, want_file))
        if case["suffix"] or case["s"]["kind"] == "nd":
            # the record of a saved bundle leads to its file
            rdb = ResultsDb(out_dir=os.path.join(out))
            b.write(out_dir=out, outfile_suffix=case["suffix"], results_db=rdb)
            files = list(rdb.get_metric_data_files())
            rdb.close()
            require(files == [want_file], "file recorded for a saved bundle", files, want_file)
    finally:
        shutil.rmtree(out, True)
    return case["s"]["kind"] if n > 1 else None


# ------------------------------------------------------------ JSON
def json_test(case):
    c = case["s"]
    if c["kind"] in ("nd", "time", "block", "visit"):
        c = dict(c, kind="oned")
    s, data = build(c)
    n = int(s.nslice)
    if n == 0:
        raise Reject
    v, m = values(case, n)
    v = np.nan_to_num(v)
    if c["kind"] == "uni":
        m[:] = False
    mv = v if case["form"] == "plain" else ma.MaskedArray(v, mask=m, fill_value=s.badval)
    if case["form"] == "plain":
        m = np.zeros(n, bool)
    met = metrics.MeanMetric("x", metric_name="nm")
    b = mb.MetricBundle(met, s, "", run_name="rr", info_label="ll", plot_dict={"units": "mm"})
    b.metric_values = mv
    outs = [s.output_json(mv, metric_name="nm", sim_data_name="rr", info_label="ll", plot_dict={"units": "mm"}),
            b.output_json()]
    for io in outs:
        head, rows = json.loads(io.getvalue())
        require(head["metric_name"] == "nm" and head["sim_data_name"] == "rr" and head["info_label"] == "ll"
                and head["slicer_name"] == s.slicer_name and head["slicer_len"] == n, "header", head)
        sp = s.get_slice_points()
        if "ra" in sp:
            want = [[float(np.degrees(sp["ra"][i])), float(np.degrees(sp["dec"][i])), v[i]] for i in range(n)
                    if not m[i]]
        elif c["kind"] == "uni":
            want = [[v[0]]]
        else:
            bins = list(map(float, sp["bins"]))
            want = [[bins[i], 0 if m[i] else v[i]] for i in range(n)] + [[bins[-1], 0]]
        require(len(rows) == len(want), "rows", len(rows), len(want))
        for r, w in zip(rows, want):
            require(np.allclose(r, w, rtol=1e-12, atol=1e-12) and len(np.atleast_1d(r)) == len(w), "row", r, w)
    return c["kind"] if n > 1 and not m.all() else None


@st.composite
def json_case(draw):
    c = draw(npz_case())
    c["form"] = draw(st.sampled_from(["masked", "plain"]))
    return c


# ------------------------------------------------------------ whole group
@st.composite
def group_case(draw):
    n = draw(st.integers(2, 15))
    return {"x": draw(st.lists(grid(0, 6), min_size=n, max_size=n)),
            "night": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            "bins": sorted(draw(st.lists(grid(0, 6), min_size=3, max_size=6, unique=True))),
            "kinds": draw(st.lists(st.sampled_from(["mean", "bad", "reduce", "vector"]), min_size=1, max_size=4)),
            "sl": draw(st.lists(st.sampled_from(["oned", "uni"]), min_size=4, max_size=4)),
            "con": draw(st.lists(st.sampled_from(["", "night < 2"]), min_size=4, max_size=4)),
            "early": draw(st.booleans())}


def group_bundles(case):
    out = {}
    for j, k in enumerate(case["kinds"]):
        sl = slicers.OneDSlicer(slice_col_name="x", bins=np.array(case["bins"]), verbose=False) \
            if case["sl"][j] == "oned" else slicers.UniSlicer(verbose=False)
        cls = {"mean": metrics.MeanMetric, "bad": VpBad, "reduce": VpReduce, "vector": VpVector}[k]
        met = cls("x", metric_name=f"m{j}")
        out[f"b{j}"] = mb.MetricBundle(met, sl, case["con"][j], run_name="rr",
                                       summary_metrics=[metrics.MaxMetric("metricdata", metric_name="S")])
    return out


def group_test(case):
    work = tempfile.mkdtemp(dir=_dir)
    con = sqlite3.connect(":memory:")
    try:
        con.execute("CREATE TABLE observations (x REAL, night INT)")
        con.executemany("INSERT INTO observations VALUES (?,?)", list(zip(case["x"], case["night"])))
        g1 = mb.MetricBundleGroup(group_bundles(case), con, out_dir=work, save_early=case["early"])
        g1.run_all()
        ran = {k: b for k, b in g1.bundle_dict.items() if b.metric_values is not None}
        if len(ran) == len(g1.bundle_dict):
            g1.write_all()
        elif not case["early"]:
            return None
        g2 = mb.MetricBundleGroup(group_bundles(case), con, out_dir=work)
        g2.read_all()
        want = {(b.metric.name, b.slicer.slicer_name, b.constraint): b for b in ran.values()}
        got = {(b.metric.name, b.slicer.slicer_name, b.constraint): b for b in g2.bundle_dict.values()}
        require(set(want) == set(got), "restored bundles", sorted(got), "expected", sorted(want))
        for k, b in want.items():
            r = got[k]
            require(np.array_equal(ma.getmaskarray(b.metric_values), ma.getmaskarray(r.metric_values)), "mask", k)
            gm = ma.getmaskarray(b.metric_values)
            a, c = b.metric_values.data, r.metric_values.data
            if a.dtype == object:
                require(all(np.array_equal(p, q) for p, q, m in zip(a, c, gm) if not m), "objects", k)
            else:
                require(np.array_equal(a[~gm], c[~gm], equal_nan=True), "values", k)
            require(r.slicer == b.slicer, "slicer", k)
            if len(ran) == len(g1.bundle_dict):
                require(r.summary_values == b.summary_values, "summary", k, r.summary_values, b.summary_values)
            require(r.file_root == b.file_root, "file root", r.file_root, b.file_root)
    finally:
        con.close()
        shutil.rmtree(work, True)
    return "reduce" if "reduce" in case["kinds"] else "plain"


def arms():
    return [
        Arm("npz", npz_case(), npz_test, 400, rule="11 kinds of slicer, 5 kinds of value array; non-trivial: >1 slice",
            setup=setup),
        Arm("bundle", bundle_case(), bundle_test, 200, rule="two save/restore generations", setup=setup),
        Arm("json", json_case(), json_test, 250, rule="non-trivial: several slices, some unmasked", setup=setup),
        Arm("group", group_case(), group_test, 120, rule="1-4 bundles, incl. reduced ones", setup=setup),
    ]
