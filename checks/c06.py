"""C06: the results database returns exactly what was recorded, over any history of updates."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from rubin_sim.maf.db import ResultsDb
from vp.core import Arm, require

ASSUMPTIONS = ["names avoid the SQL wildcard characters % and _, and are shorter than the 1024 characters kept"]
_dir = None


def setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix="c06_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


NAMES = ["Mean x", "Mean y", "Coadd 5", "it's, a 'quote'", "Mean"]
SLICERS = ["OneDSlicer", "UniSlicer", "HealpixSlicer", None]
RUNS = ["run a", "run b", None]
CONS = ["", "night < 3", "band = 'r'", None]
LABELS = ["", "r band", "all", None]
SUMS = ["Median", "Mean", "Identity", "Count", "Rms"]
TYPES = ["SkyMap", "Histogram"]

op = st.one_of(
    st.tuples(st.just("metric"), st.integers(0, 4), st.integers(0, 2), st.integers(0, 2), st.integers(0, 3),
              st.integers(0, 3), st.sampled_from(["a.npz", "b.npz", None])),
    st.tuples(st.just("metric"), st.integers(0, 1), st.integers(0, 1), st.integers(0, 1), st.integers(0, 1),
              st.integers(0, 1), st.just("c.npz")),
    st.tuples(st.just("display"), st.integers(0, 9), st.sampled_from(["g1", "g2", None]),
              st.sampled_from(["s", None, "absent"]), st.sampled_from([0, 1, 2.5, None]),
              st.sampled_from(["cap", "some (auto)", None]), st.booleans()),
    st.tuples(st.just("plot"), st.integers(0, 9), st.integers(0, 1), st.sampled_from(["p1.pdf", "p.q.pdf", "p3.png"]),
              st.booleans()),
    st.tuples(st.just("stat"), st.integers(0, 9), st.integers(0, 4),
              st.one_of(st.floats(-1e6, 1e6), st.integers(-5, 5))),
    st.tuples(st.just("table"), st.integers(0, 9), st.integers(0, 4),
              st.lists(st.tuples(st.sampled_from(["ab", "cd", "x y"]), st.floats(-10, 10)), min_size=1, max_size=3,
                       unique_by=lambda t: t[0]), st.booleans()),
    st.tuples(st.just("bad"), st.integers(0, 9)),
    st.tuples(st.just("reopen"),),
    st.tuples(st.just("switch"),),
)


@st.composite
def history(draw):
    n = draw(st.integers(1, 25))
    ops = [list(draw(op)) for _ in range(n)]
    return {"ops": [["metric", 0, 0, 0, 0, 0, "a.npz"]] + ops, "q": [draw(st.integers(0, 4)) for _ in range(8)]}


def nul(x):
    return "NULL" if x is None else x


class Model:
    def __init__(self):
        self.metrics = {}  # id -> tuple(name, slicer, run, con, label, file)
        self.disp = {}
        self.plots = []  # (mid, type, file)
        self.stats = []  # (mid, name, value) in order


def rows(a):
    return sorted(tuple(r.tolist()) if hasattr(r, "tolist") else tuple(r) for r in a)


def long_name(m, sname):
    s = "" if sname in ("Identity", "Id", "Count") else sname
    sl = "" if m[1] == "UniSlicer" else m[1]
    return " ".join([s, m[0], m[4], sl]).strip(" ")


def compare(db, mod, q):
    ids = sorted(mod.metrics)
    require(sorted(db.get_all_metric_ids()) == ids, "metric ids")
    # identification queries
    nm, sl, lab, run = NAMES[q[0] % 5], SLICERS[q[1] % 4], LABELS[q[2] % 4], RUNS[q[3] % 3]
    want = [i for i in ids if mod.metrics[i][0] == nm and (sl is None or mod.metrics[i][1] == sl)
            and (lab is None or mod.metrics[i][4] == lab) and (run is None or mod.metrics[i][2] == run)]
    got = db.get_metric_id(nm, slicer_name=sl, metric_info_label=lab, run_name=run)
    require(sorted(got) == want, "metric id query", nm, sl, lab, run, got, want)
    require(got == sorted(got, key=lambda i: (mod.metrics[i][1], mod.metrics[i][4])) or len(got) < 2
            or [(mod.metrics[i][1], mod.metrics[i][4]) for i in got]
            == sorted((mod.metrics[i][1], mod.metrics[i][4]) for i in got), "order of metric ids", got)
    part = [None, "mean", "ean x", "quote", "5"][q[4] % 5]
    psl = [None, "Slicer", "one", "Healpix"][q[5] % 4]
    plab = [None, "band", "al"][q[6] % 3]
    want = [i for i in ids if (part is None or part.lower() in mod.metrics[i][0].lower())
            and (psl is None or psl.lower() in mod.metrics[i][1].lower())
            and (plab is None or plab.lower() in mod.metrics[i][4].lower())
            and (run is None or mod.metrics[i][2] == run)]
    got = db.get_metric_id_like(metric_name_like=part, slicer_name_like=psl, metric_info_label_like=plab, run_name=run)
    require(sorted(got) == want, "partial-match query", part, psl, plab, run, got, want)
    # metric info
    info = db.get_metric_info(with_sim_name=True)
    want = sorted((i, m[0], m[0].split("_")[0], m[1], m[3], m[4], m[5], m[2]) for i, m in mod.metrics.items())
    require(rows(info) == want, "metric info", rows(info), want)
    sub = ids[: 1 + q[7] % max(1, len(ids))]
    require(rows(db.get_metric_info(metric_id=sub)) == [w[:7] for w in want if w[0] in sub], "metric info subset")
    require(db.get_metric_data_files(sub) == [mod.metrics[i][5] for i in sub], "data files")
    require(sorted(db.get_run_name()) == sorted(set(m[2] for m in mod.metrics.values())), "run names")
    # displays
    di = db.get_metric_display_info()
    want = sorted((i,) + tuple(d) for i, d in mod.disp.items())
    got = sorted((int(r["metric_id"]), str(r["display_group"]), str(r["display_subgroup"]), float(r["display_order"]),
                  str(r["display_caption"])) for r in di)
    require(got == want, "display info", got, want)
    for r in di:
        m = mod.metrics[int(r["metric_id"])]
        require((str(r["metric_name"]), str(r["slicer_name"]), str(r["sql_constraint"]), str(r["metric_info_label"]))
                == (m[0], m[1], m[3], m[4]), "display row joined to the wrong metric")
    # plots
    pf = db.get_plot_files(with_sim_name=True)
    want = sorted((i, mod.metrics[i][0], mod.metrics[i][4], t, f, "thumb." + f.rsplit(".", 1)[0] + ".png",
                   mod.metrics[i][2]) for i, t, f in mod.plots)
    require(rows(pf) == want, "plot files", rows(pf), want)
    if ids:
        one = ids[q[7] % len(ids)]
        require(rows(db.get_plot_files(one)) == [w[:6] for w in want if w[0] == one], "plot files of one metric")
    # summary statistics
    def stat_check(got, keep, what):
        recorded = {}
        for i, n, v in mod.stats:
            recorded.setdefault((i, n), []).append(v)
        seen = {}
        for r in got:
            i, n, v = int(r["metric_id"]), str(r["summary_metric"]), float(r["summary_value"])
            m = mod.metrics[i]
            require((str(r["metric_name"]), str(r["slicer_name"]), str(r["metric_info_label"])) == (m[0], m[1], m[4]),
                    what, "statistic joined to the wrong metric")
            require(str(r["summary_name"]) == long_name(m, n), what, "long name", str(r["summary_name"]), long_name(m, n))
            seen.setdefault((i, n), []).append(v)
        require(set(seen) == {k for k in recorded if keep(k)}, what, "statistics returned", sorted(seen),
                sorted(recorded))
        for k, vs in seen.items():
            require(recorded[k][-1] in vs, what, "latest value missing", k)
            require(all(v in recorded[k] for v in vs), what, "value never recorded", k, vs)

    stat_check(db.get_summary_stats(), lambda k: True, "all")
    st_name = SUMS[q[0] % 5]
    stat_check(db.get_summary_stats(summary_name=st_name), lambda k: k[1] == st_name, "by name")
    stat_check(db.get_summary_stats(summary_name_like="me"), lambda k: "me" in k[1].lower(), "like")
    stat_check(db.get_summary_stats(summary_name_notlike=["med", "ab"]),
               lambda k: "med" not in k[1].lower() and "ab" not in k[1].lower(), "notlike list")
    stat_check(db.get_summary_stats(summary_name_notlike="ean"), lambda k: "ean" not in k[1].lower(), "notlike")
    stat_check(db.get_summary_stats(metric_id=sub, summary_name_like="m"),
               lambda k: k[0] in sub and "m" in k[1].lower(), "subset")
    if ids:
        r = db.get_summary_stats(metric_id=ids[0], with_sim_name=True)
        stat_check(r, lambda k: k[0] == ids[0], "one metric")
        require(all(str(x) == mod.metrics[ids[0]][2] for x in r["run_name"]), "run name of a statistic")


def history_test(case, downgrade=False):
    d = tempfile.mkdtemp(dir=_dir)
    try:
        dbs = [ResultsDb(out_dir=d), None]
        cur = 0
        mod = Model()
        for k, o in enumerate(case["ops"]):
            db = dbs[cur]
            if o[0] == "metric":
                m = (NAMES[o[1]], SLICERS[o[2]], RUNS[o[3]], CONS[o[4]], LABELS[o[5]], o[6])
                mid = db.update_metric(*m)
                key = tuple(nul(x) for x in m)
                prev = [i for i, v in mod.metrics.items() if v[:5] == key[:5]]
                if prev:
                    require(mid == prev[0], "re-recording a metric gave another id", mid, prev)
                else:
                    require(mid not in mod.metrics, "id reused", mid)
                    mod.metrics[mid] = key
                continue
            if o[0] == "reopen":
                db.close()
                dbs[cur] = ResultsDb(out_dir=d)
                continue
            if o[0] == "switch":
                cur = 1 - cur
                if dbs[cur] is None:
                    dbs[cur] = ResultsDb(out_dir=d)
                continue
            ids = sorted(mod.metrics)
            mid = ids[o[1] % len(ids)]
            if o[0] == "display":
                dd = {"group": o[2], "order": o[4], "caption": o[5]}
                if o[3] != "absent":
                    dd["subgroup"] = o[3]
                mine = dict(dd)
                db.update_display(mid, dd, overwrite=o[6])
                require(dd == mine, "the caller's display settings were changed", dd, mine)
                if o[6] or mid not in mod.disp:
                    cap = nul(o[5])
                    if cap.endswith("(auto)"):
                        cap = cap[:-6]
                    mod.disp[mid] = (nul(o[2]), nul(dd.get("subgroup")), float(o[4] or 0), cap)
            elif o[0] == "plot":
                db.update_plot(mid, TYPES[o[2]], o[3], overwrite=o[4])
                if o[4]:
                    mod.plots = [p for p in mod.plots if not (p[0] == mid and p[1] == TYPES[o[2]])]
                mod.plots.append((mid, TYPES[o[2]], o[3]))
            elif o[0] == "stat":
                v = o[3]
                db.update_summary_stat(mid, SUMS[o[2]], np.float64(v) if isinstance(v, float) else v)
                mod.stats.append((mid, SUMS[o[2]], float(v)))
            elif o[0] == "table":
                a = np.zeros(len(o[3]), dtype=[("name", "S8" if o[4] else "U8"), ("value", float)])
                for j, (nm, v) in enumerate(o[3]):
                    a[j] = (nm, v)
                    mod.stats.append((mid, SUMS[o[2]] + " " + nm, v))
                db.update_summary_stat(mid, SUMS[o[2]], a)
            elif o[0] == "bad":
                db.update_summary_stat(mid, "Bad", "a string")
            if k % 6 == 5:
                compare(dbs[cur], mod, case["q"])
        compare(dbs[cur], mod, case["q"])
        for x in dbs:
            if x is not None:
                x.close()
        if downgrade:
            x = ResultsDb(out_dir=d)
            x.downgrade_database()
            x.close()
        compare(ResultsDb(out_dir=d), mod, case["q"])
        return ("downgrade" if downgrade else "history") if len(mod.metrics) > 1 and (mod.stats or mod.plots) else None
    finally:
        shutil.rmtree(d, True)


def arms():
    r = "1-26 operations over a pool of metrics with two open handles and reopening; non-trivial: >1 metric and some " \
        "statistic or plot"
    return [
        Arm("history", history(), history_test, 90, rule=r, setup=setup),
        Arm("history2", history(), history_test, 90, rule=r, setup=setup),
        Arm("history3", history(), history_test, 90, rule=r, setup=setup),
        Arm("migrate", history(), lambda c: history_test(c, True), 60, rule="as history, then the old schema and back",
            setup=setup),
    ]
