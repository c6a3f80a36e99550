"""C03: what a bundle is set up with, and what the stages of a group leave behind."""

import copy
import os
import re
import shutil
import sqlite3
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import rubin_sim.maf.maps as maps  # noqa: E402
import rubin_sim.maf.metric_bundles as mb  # noqa: E402
import rubin_sim.maf.metrics as metrics  # noqa: E402
import rubin_sim.maf.plots as plots  # noqa: E402
import rubin_sim.maf.slicers as slicers  # noqa: E402
import rubin_sim.maf.stackers as stackers  # noqa: E402
from rubin_sim.maf.db import ResultsDb  # noqa: E402
from checks.c04 import VpBad, VpMapA, VpMapB, VpReduce  # noqa: E402
from vp.core import Arm, require  # noqa: E402
from vp.gen import grid  # noqa: E402

ASSUMPTIONS = ["a constraint without visits: the metrics of that constraint have no values and are passed over by later stages",
               "reduced values are made once, while running"]

_dir = None


def setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix="c03_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


# --- settings of one bundle ---------------------------------------------------
CON = ["", None, "night < 4", 'band = "r"', "band = 'g' and night >= 2", "filter = 'y'", "x > 3 and note = 'a b'"]


@st.composite
def set_case(draw):
    def opt(s):
        return st.one_of(st.none(), s)
    bad = draw(st.sampled_from([None, None, None, None, "st", "maps", "summ", "plots"]))

    def ways(name, *w):
        return "bad" if bad == name else draw(st.sampled_from(w))
    return {"sl": draw(st.sampled_from(["uni", "oned", "hp", "user", "nd"])), "con": draw(st.sampled_from(CON)), "label": draw(opt(st.sampled_from(["", "some label", "r & x"]))), "meta": draw(opt(st.just("old style"))),
            "run": draw(st.sampled_from(["opsim", "base v1.0", "a/b"])), "root": draw(opt(st.just("my_root"))),
            "st": ways("st", None, "one", "list", "withnone"), "maps": ways("maps", None, "one", "list"), "mmaps": draw(st.sampled_from([None, "str", "obj", "same"])),
            "summ": ways("summ", None, "one", "list", "empty"), "plots": ways("plots", None, "one", "list", "empty"), "comment": draw(opt(st.just("A comment."))),
            "pd": draw(st.fixed_dictionaries({}, optional={"zp": st.sampled_from([None, 3.0, float("inf"), float("nan")]), "norm_val": st.sampled_from([None, 0, 2.5]), "title": st.just("T"), "units": st.just("mag")})),
            "dd": draw(opt(st.fixed_dictionaries({}, optional={"group": st.just("G"), "subgroup": st.just("S"), "order": st.just(4), "caption": st.just("Cap.")})))}


def mk_sl(k):
    if k == "uni":
        return slicers.UniSlicer(verbose=False)
    if k == "oned":
        return slicers.OneDSlicer("x", bins=np.arange(0, 7, 2.0), verbose=False)
    if k == "hp":
        return slicers.HealpixSlicer(nside=1, verbose=False, use_camera=False)
    if k == "nd":
        return slicers.NDSlicer(["x", "night"], [np.arange(0, 7, 2.0), np.arange(0, 6, 2.0)], verbose=False)
    return slicers.UserPointsSlicer([0.0, 10.0], [0.0, -10.0], verbose=False, use_camera=False)


def words(s):
    return [w for w in re.split(r"[\s=]+", s.replace("'", "").replace('"', "")) if w and w not in ("band", "filter")]


def t_set(c):
    s = mk_sl(c["sl"])
    m = metrics.MeanMetric("x", metric_name="M x")
    m.comment = c["comment"]
    given_map = VpMapA()
    m.maps = {None: [], "str": ["GalCoordsMap"], "obj": [VpMapB()], "same": [given_map]}[c["mmaps"]]
    sts = {None: None, "one": stackers.NormAirmassStacker(), "list": [stackers.NormAirmassStacker()], "withnone": [None, stackers.NormAirmassStacker()], "bad": ["x"]}[c["st"]]
    mps = {None: None, "one": given_map, "list": [given_map], "bad": ["DustMap"]}[c["maps"]]
    summ = {None: None, "one": metrics.MaxMetric("metricdata"), "list": [metrics.MaxMetric("metricdata"), metrics.MinMetric("metricdata")], "empty": [], "bad": [3]}[c["summ"]]
    pl = {None: None, "one": plots.OneDBinnedData(), "list": [plots.BaseHistogram(), plots.OneDBinnedData()], "empty": [], "bad": [plots.OneDBinnedData]}[c["plots"]]
    pd, dd = dict(c["pd"]), None if c["dd"] is None else dict(c["dd"])
    lists = [list(x) if isinstance(x, list) else x for x in (sts, mps, summ, pl)]
    kw = dict(stacker_list=sts, maps_list=mps, summary_metrics=summ, plot_funcs=pl, plot_dict=pd, display_dict=dd, run_name=c["run"], info_label=c["label"], metadata=c["meta"])
    if c["root"]:
        kw["file_root"] = c["root"]
    bad = "bad" in (c["st"], c["maps"], c["summ"], c["plots"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if bad:
            try:
                mb.MetricBundle(m, s, c["con"], **kw)
            except ValueError:
                return "refused"
            require(False, "something that is not a stacker, map, metric or plotter was accepted", c)
        b = mb.MetricBundle(m, s, c["con"], **kw)
    con = c["con"] or ""
    require(b.constraint == con and b.run_name == c["run"] and b.metric is m and b.slicer is s, "constraint, run, metric and slicer", c)
    if c["label"] is not None:
        require(b.info_label == c["label"], "label", b.info_label)
    elif c["meta"] is not None:
        require(b.info_label == "old style", "label from the deprecated argument", b.info_label)
    else:
        require(words(b.info_label) == words(con) and not set("='\"") & set(b.info_label) and b.info_label == b.info_label.strip() and "  " not in b.info_label, "label made from the constraint", con, b.info_label)
    if c["root"]:
        require(b.file_root == "my_root", "given file name", b.file_root)
    else:
        require(re.fullmatch(r"[A-Za-z0-9_&\-]+", b.file_root) is not None and b.file_root.endswith("_" + s.slicer_name[:4].upper()) and "_M_x_" in b.file_root and b.file_root.startswith(re.sub(r"[ ./]", "_", c["run"]).replace("__", "_")), "file name", b.file_root)
    for s_ in b.stacker_list:
        require(isinstance(s_, stackers.BaseStacker), "stackers", b.stacker_list)
    require(len(b.stacker_list) == (c["st"] is not None), "stackers of the bundle", c, b.stacker_list)
    names = [type(x).__name__ for x in b.maps_list]
    want = [] if c["maps"] is None else ["VpMapA"]
    if c["mmaps"] == "str":
        want.append("GalCoordsMap")
    elif c["mmaps"] == "obj":
        want.append("VpMapB")
    elif c["mmaps"] == "same" and c["maps"] is None:
        want.append("VpMapA")
    require(names == want, "maps of the bundle", c, names, want)
    ns = [x.name for x in b.summary_metrics]
    wants = {None: ["Identity"] if c["sl"] == "uni" else [], "one": ["Max"], "list": ["Max", "Min"], "empty": []}[c["summ"]]
    require([x.split()[0] for x in ns] == wants, "summary metrics of the bundle", c, ns)
    np_ = [type(x).__name__ for x in b.plot_funcs]
    wantp = {None: [p.__name__ if isinstance(p, type) else type(p).__name__ for p in s.plot_funcs], "one": ["OneDBinnedData"], "list": ["BaseHistogram", "OneDBinnedData"], "empty": []}[c["plots"]]
    require(np_ == wantp and all(isinstance(p, plots.BasePlotter) for p in b.plot_funcs), "plotters of the bundle", c, np_)
    wpd = dict(c["pd"])
    if wpd.get("zp") is not None and not np.isfinite(wpd["zp"]):
        del wpd["zp"]
    if wpd.get("norm_val") == 0:
        del wpd["norm_val"]
    require(b.plot_dict == wpd, "plot settings of the bundle", b.plot_dict, wpd)
    wdd = {"group": None, "subgroup": None, "order": 0}
    wdd.update(c["dd"] or {})
    cap = wdd.pop("caption", None)
    require({k: b.display_dict[k] for k in wdd} == wdd and set(b.display_dict) == set(wdd) | {"caption"}, "display settings", b.display_dict, wdd)
    got = b.display_dict["caption"]
    if cap is not None:
        require(got == cap, "given caption", got)
    else:
        require(got.startswith(c["comment"] if c["comment"] else "M x calculated on a %s basis" % s.slicer_name), "caption", got)
        require(("zeropoint of 3.00" in got) == (wpd.get("zp") == 3.0) and ("normalization value of 2.50" in got) == (wpd.get("norm_val") == 2.5), "caption and plot settings", got, wpd)
        require(c["comment"] is not None or con == "" or con in got, "caption and constraint", got)
    for a, z in zip((sts, mps, summ, pl), lists):
        require(a is z or (isinstance(a, list) and len(a) == len(z) and all(p is q for p, q in zip(a, z))), "a list of the caller was changed", c)
    require(repr(pd) == repr(c["pd"]) and dd == c["dd"], "settings of the caller were changed")
    b.set_display_dict({"order": 9})
    b.set_plot_dict({"title": "new"})
    require(b.display_dict["order"] == 9 and b.display_dict["caption"] == got and b.plot_dict["title"] == "new", "later settings", b.display_dict)
    b.set_run_name("other")
    require(b.run_name == "other" and b.file_root.startswith("other_"), "new run name", b.file_root)
    return "bundle"


# --- stages --------------------------------------------------------------------
CONS = ["", "night < 2", "night >= 2", "night < -5"]


@st.composite
def stage_case(draw):
    n = draw(st.integers(2, 12))
    c = {"x": draw(st.lists(grid(0, 5), min_size=n, max_size=n)), "night": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
         "b": [{"kind": draw(st.sampled_from(["mean", "bad", "reduce"])), "sl": draw(st.sampled_from(["oned", "oned", "uni"])), "con": draw(st.integers(0, 3)), "pl": draw(st.sampled_from([None, "two", "none"])), "summ": draw(st.booleans()), "dd": draw(st.booleans()), "pd": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))],
         "early": draw(st.booleans()), "db": draw(st.integers(0, 3)) > 0, "plot_now": draw(st.sampled_from([None, None, "plain", "kw"])), "clear": draw(st.integers(0, 3)) == 0, "verbose": draw(st.integers(0, 5)) == 0,
         "how": draw(st.sampled_from(["all", "each"])), "order": draw(st.permutations([0, 1, 2, 3])),
         "then": draw(st.lists(st.sampled_from(["summary", "plot", "plotopt", "write", "one"]), max_size=3))}
    return c


def mk_metric(k, name):
    return {"mean": metrics.MeanMetric, "bad": VpBad, "reduce": VpReduce}[k]("x", metric_name=name)


def t_stage(c):
    work = tempfile.mkdtemp(dir=_dir)
    con = sqlite3.connect(":memory:")
    try:
        con.execute("CREATE TABLE observations (x REAL, night INT)")
        con.executemany("INSERT INTO observations VALUES (?,?)", list(zip(c["x"], c["night"])))
        return _stage(c, work, con)
    finally:
        con.close()
        plt.close("all")
        shutil.rmtree(work, True)


def bins():
    return np.arange(0, 7, 2.0)


def expected(c, spec):
    """{reduced name: (values, mask)} from the visits, or None without visits."""
    x, night = np.array(c["x"]), np.array(c["night"])
    sel = {0: night > -9, 1: night < 2, 2: night >= 2, 3: night < -5}[spec["con"]]
    if not sel.any():
        return None
    e = bins()
    cells = [x[sel]] if spec["sl"] == "uni" else [x[sel & (x >= e[i]) & (x < e[i + 1])] for i in range(3)]
    out = {}
    for r in ("low", "span") if spec["kind"] == "reduce" else ("",):
        v = []
        for q in cells:
            if len(q) == 0:
                v.append(None)
            elif spec["kind"] == "mean":
                v.append(q.mean())
            elif len(q) < 2:
                v.append(None)
            elif spec["kind"] == "bad":
                v.append(q.mean())
            elif r == "low":
                v.append(q.min())
            else:
                v.append(np.ptp(q) or None)
        out[r] = v
    return out


def _stage(c, work, con):
    out = os.path.join(work, "out")
    rdb = ResultsDb(out_dir=out) if c["db"] else None
    bd, specs = {}, {}
    for j, s in enumerate(c["b"]):
        kw = {"plot_funcs": {None: None, "two": [plots.OneDBinnedData(), plots.BaseHistogram()], "none": []}[s["pl"] if s["sl"] == "oned" else "none"]}
        if s["summ"]:
            kw["summary_metrics"] = [metrics.MaxMetric("metricdata", metric_name="Top"), metrics.CountMetric("metricdata", metric_name="Num")]
        if s["dd"]:
            kw["display_dict"] = {"group": f"G{j}", "order": j, "caption": f"cap {j}"}
        if s["pd"]:
            kw["plot_dict"] = {"title": f"title {j}", "units": "mag"}
        sl = slicers.OneDSlicer("x", bins=bins(), verbose=False) if s["sl"] == "oned" else slicers.UniSlicer(verbose=False)
        bd[f"b{j}"] = mb.MetricBundle(mk_metric(s["kind"], f"m{j}"), sl, CONS[s["con"]], run_name="rr", **kw)
        specs[f"b{j}"] = s
    g = mb.MetricBundleGroup(dict(bd), con, out_dir=out, results_db=rdb, save_early=c["early"], verbose=c["verbose"])
    require(sorted(g.constraints) == sorted({CONS[s["con"]] for s in c["b"]}) and not any(g.has_run.values()), "constraints of the group", g.constraints)
    kwargs = {"clear_memory": c["clear"], "plot_now": c["plot_now"] is not None}
    popt = {"fig_format": "png", "dpi": 15, "thumbnail": False, "outfile_suffix": "sfx"}
    if c["plot_now"] is not None:
        kwargs["plot_kwargs"] = popt if c["plot_now"] == "kw" else None
    exp = {k: expected(c, s) for k, s in specs.items()}
    with warnings.catch_warnings(), open(os.devnull, "w") as null:
        warnings.simplefilter("ignore")
        import contextlib
        with contextlib.redirect_stdout(null):
            if c["how"] == "all":
                g.run_all(**kwargs)
            else:
                for i in c["order"]:
                    if CONS[i] in g.constraints:
                        g.run_current(CONS[i], **kwargs)
            for k, s in specs.items():
                require(g.has_run[k] == (exp[k] is not None), "which metrics have run", k, g.has_run)
            then = [t for t in c["then"] if not (c["clear"] and t != "plot")]
            made_one = []
            for t in then:
                if t == "summary":
                    for b in g.bundle_dict.values():
                        b.summary_values = None
                    if rdb is None or True:
                        g.summary_all()
                elif t == "plot":
                    g.plot_all(dpi=15)
                elif t == "plotopt":
                    g.plot_all(**popt)
                elif t == "write":
                    g.write_all()
                else:
                    for k, b in g.bundle_dict.items():
                        if b.metric_values is not None and b.slicer.slicer_name == "OneDSlicer" and b.metric.metric_dtype != "object":
                            r = b.plot(plot_func=plots.OneDBinnedData() if len(made_one) % 2 else plots.OneDBinnedData)
                            require(set(r) == {"BinnedData"}, "figures made", r)
                            fig = r["BinnedData"]
                            good = b.metric_values.compressed()
                            require((fig is None) == (len(good) == 0), "figure of a bundle", k)
                            if fig is not None:
                                require(np.allclose(fig.axes[0].get_lines()[0].get_ydata(), np.repeat(good, 2)), "values in the figure", k)
                            made_one.append(k)
                            plt.close("all")
                require(plt.get_fignums() == [], "figures left open", t)
    # values, settings of the reduced bundles
    found = {}
    for k, s in specs.items():
        b = g.bundle_dict[k]
        require(b is bd[k], "a bundle was replaced", k)
        parts = [("", b)]
        if s["kind"] == "reduce" and exp[k] is not None:
            parts = [("", b)] + [(r, [q for q in g.bundle_dict.values() if q.metric.name == f"m{k[1:]}_{r}"]) for r in ("low", "span")]
            for r, q in parts[1:]:
                require(len(q) == 1, "reduced results in the group", k, r, len(q))
            parts = [parts[0]] + [(r, q[0]) for r, q in parts[1:]]
            orders = [q.display_dict["order"] for _, q in parts[1:]]
            require(orders[0] != orders[1] and (orders[0] < orders[1]), "order of the reduced results", orders)
        for r, q in parts:
            found[(k, r)] = q
            if r:
                require(q.constraint == b.constraint and q.info_label == b.info_label and q.run_name == "rr" and [type(p) for p in q.plot_funcs] == [type(p) for p in b.plot_funcs] and q.plot_dict == b.plot_dict and q.display_dict["group"] == b.display_dict["group"] and (not s["dd"] or q.display_dict["caption"] == b.display_dict["caption"]), "settings of a reduced result", k, r)
                require(q.metric.metric_dtype == "float" and q.file_root != b.file_root, "a reduced result is a number of its own", k, r)
            if exp[k] is None or c["clear"]:
                require(q.metric_values is None, "values kept or made up", k, r)
                continue
            if r == "" and s["kind"] == "reduce":
                continue
            v = exp[k][r]
            require([None if m else float(d) for d, m in zip(q.metric_values.data, np.ma.getmaskarray(q.metric_values))] == v or np.allclose([np.nan if a is None else a for a in v], q.metric_values.filled(np.nan), equal_nan=True), "values", k, r, v, q.metric_values)
            sv = q.summary_values or {}
            good = [a for a in v if a is not None]
            if s["summ"]:
                require(set(sv) == {"Top", "Num"}, "summary statistics", k, r, sv)
                bad = q.slicer.badval
                require(np.isclose(sv["Top"], max(good) if good else bad, equal_nan=True) and np.isclose(sv["Num"], len(good) if good else bad, equal_nan=True), "summary values", k, r, sv, good)
            elif s["sl"] == "uni":
                require(set(sv) == {"Identity"}, "summary of a single value", k, r, sv)
            else:
                require(sv == {}, "summaries that were not asked for", sv)
    reduced = sum(2 for k, s in specs.items() if s["kind"] == "reduce" and exp[k] is not None)
    require(len(g.bundle_dict) == len(bd) + reduced, "bundles of the group", sorted(g.bundle_dict))
    # files
    ran = {kr: q for kr, q in found.items() if exp[kr[0]] is not None}
    npz = {f for f in os.listdir(out) if f.endswith(".npz")}
    saved = c["early"] or "write" in then
    require(npz == ({q.file_root + ".npz" for q in ran.values()} if saved else set()), "saved results", sorted(npz), sorted(q.file_root for q in ran.values()))
    if saved:
        for (k, r), q in ran.items():
            if r == "" and specs[k]["kind"] == "reduce":
                continue
            back = mb.create_empty_metric_bundle()
            back.read(os.path.join(out, q.file_root + ".npz"))
            v = exp[k][r]
            require(np.allclose([np.nan if a is None else a for a in v], back.metric_values.filled(np.nan), equal_nan=True), "saved values", k, r, v, back.metric_values)
            require(back.metric.name == q.metric.name and back.constraint == q.constraint and back.info_label == q.info_label and back.run_name == "rr", "description in the file", k, r)
            require(back.display_dict["caption"] == q.display_dict["caption"] and back.display_dict["order"] == q.display_dict["order"] and (back.metric.units == "mag") == specs[k]["pd"] and back.plot_dict == q.plot_dict, "settings in the file", k, r, back.display_dict, q.display_dict)
    # figures
    rounds = []
    if c["plot_now"] == "plain":
        rounds.append(("", "pdf", True))
    if c["plot_now"] == "kw":
        rounds.append(("_sfx", "png", False))
    if not c["clear"]:
        rounds += [("", "pdf", True) for t in then if t == "plot"] + [("_sfx", "png", False) for t in then if t == "plotopt"]
    want, rows = set(), set()
    for (k, r), q in ran.items():
        s = specs[k]
        if s["sl"] != "oned" or (s["kind"] == "reduce" and r == ""):
            continue
        if not any(a is not None for a in exp[k][r]):
            continue
        for p in q.plot_funcs:
            for sfx, fmt, thumb in rounds:
                f = f"{q.file_root}{sfx}_{p.plot_type}.{fmt}"
                want.add(f)
                rows.add((q.metric.name, p.plot_type, f))
                if thumb:
                    want.add(f"thumb.{q.file_root}{sfx}_{p.plot_type}.png")
    figs = {f for f in os.listdir(out) if f.endswith((".png", ".pdf"))}
    require(figs == want, "figures on disk", sorted(figs), sorted(want))
    # results database
    if rdb is not None:
        rdb.close()
        d = sqlite3.connect(os.path.join(out, "resultsDb_sqlite.db"))
        got = set(d.execute("select metric_name, slicer_name, run_name, sql_constraint, metric_info_label, metric_datafile from metrics"))
        wantm = {(q.metric.name, q.slicer.slicer_name, "rr", q.constraint, q.info_label, q.file_root + ".npz") for q in ran.values()}
        require(got == wantm, "metrics in the results database", sorted(got ^ wantm))
        got = set(d.execute("select metric_name, display_group, display_order, display_caption from displays join metrics using (metric_id)"))
        wantd = {(q.metric.name, q.display_dict["group"], float(q.display_dict["order"]), q.display_dict["caption"]) for q in ran.values()}
        require({x[:1] + x[2:] for x in got} == {x[:1] + x[2:] for x in wantd} and all(x[1] == y[1] or y[1] is None for x in got for y in wantd if x[0] == y[0]), "displays in the results database", sorted(map(str, got)), sorted(map(str, wantd)))
        got = set(d.execute("select metric_name, plot_type, plot_file from plots join metrics using (metric_id)"))
        require(got == rows, "figures in the results database", sorted(got ^ rows))
        got = sorted(d.execute("select distinct metric_name, summary_name from summarystats join metrics using (metric_id)"))
        need = set()
        for (k, r), q in ran.items():
            s = specs[k]
            if s["kind"] == "reduce" and r == "":
                continue
            good = [a for a in exp[k][r] if a is not None]
            if good and s["summ"]:
                need |= {(q.metric.name, "Top"), (q.metric.name, "Num")}
            elif good and s["sl"] == "uni":
                need.add((q.metric.name, "Identity"))
        require(need <= set(got), "statistics in the results database", got, sorted(need))
        d.close()
    if not ran:
        return None
    return "plots" if want else "no plots"


def arms():
    return [
        Arm("settings", set_case(), t_set, quick=250, thorough=12000, rule="every way of giving stackers, maps, statistics, plotters, labels, plot and display settings; non-trivial: accepted or refused as it should be"),
        Arm("stages", stage_case(), t_stage, quick=70, thorough=3000, setup=setup, rule="1-4 metrics, 4 constraints, run at once or one constraint at a time, then 0-3 further stages; non-trivial: at least one metric ran"),
        Arm("stages2", stage_case(), t_stage, quick=70, thorough=3000, setup=setup, rule="as stages, other seeds"),
    ]
