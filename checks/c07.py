"""C07: the tracking database lists the analysed runs, and the report of a run shows all of its contents."""

import json
import os
import shutil
import sqlite3
import tempfile

import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf as maf
from rubin_sim.maf.db import ResultsDb, TrackingDb, add_run_to_database
from rubin_sim.maf.web import MafRunResults, MafTracking
from vp.core import Arm, require
from vp.gen import sized

ASSUMPTIONS = ["every run is recorded with a directory; the tracking database is opened under an absolute path or a "
               "path below the current directory"]
_dir = None
COLS = ["run_group", "run_name", "run_comment", "run_version", "run_date", "maf_comment", "maf_version", "maf_date",
        "db_file"]
DIRS = ["a", "b", "deep/c", "../other/d", "a2"]
INFO = [("Run Name", "run_name"), ("Group", "run_group"), ("Maf Comment", "maf_comment"), ("Run Comment", "run_comment"),
        ("sched_version", "run_version"), ("sched_date", "run_date"), ("maf_version", "maf_version"),
        ("maf_date", "maf_date")]
TXT = st.sampled_from([None, "x", "it's", "y z", ""])


def setup():
    global _dir
    _dir = os.path.realpath(tempfile.mkdtemp(prefix="c07_"))
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


op = st.one_of(
    st.tuples(st.just("add"), st.integers(0, 4), st.booleans(), st.lists(TXT, min_size=9, max_size=9),
              st.sampled_from([None, None, None, 1, 2, 7, 12])),
    st.tuples(st.just("add"), st.integers(0, 4), st.booleans(), st.lists(TXT, min_size=9, max_size=9), st.none()),
    st.tuples(st.just("del"), st.integers(0, 9)),
    st.tuples(st.just("delmissing"), st.integers(50, 60)),
    st.tuples(st.just("reopen")),
)
track_case = st.fixed_dictionaries({"ops": sized(op, 1, 18), "cwd": st.sampled_from(["", "t", "w/v"]),
                                    "rel": st.booleans()})


def read_runs(db):
    con = sqlite3.connect(db)
    rows = con.execute("select maf_run_id, maf_dir, " + ", ".join(COLS) + " from runs").fetchall()
    con.close()
    return {r[0]: [r[1]] + list(r[2:]) for r in rows}, len(rows)


def track_test(case):
    root = tempfile.mkdtemp(dir=_dir)
    old = os.getcwd()
    try:
        top = os.path.join(root, "t")
        for d in ["t", "w/v", "other/d", "t/a", "t/b", "t/deep/c", "t/a2"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        os.chdir(os.path.join(root, case["cwd"]))
        dbf = os.path.join(top, "track.db")
        if case["rel"] and case["cwd"] in ("", "t"):
            dbf = os.path.relpath(dbf)
        t = TrackingDb(database=dbf)
        model = {}
        updates = 0
        for o in case["ops"]:
            o = [o] if isinstance(o, str) else o
            if o[0] == "add":
                rel = os.path.normpath(DIRS[o[1]])
                path = os.path.join(top, rel)
                if o[2]:
                    path = os.path.relpath(path)
                kw = dict(zip(COLS, o[3]))
                want = [rel] + ["NULL" if v is None else v for v in o[3]]
                prev = [i for i, m in model.items() if m[0] == rel]
                if not prev and o[4] in model:
                    try:
                        t.add_run(maf_dir=path, maf_run_id=o[4], **kw)
                        require(False, "an id in use was accepted", o[4])
                    except ValueError:
                        pass
                else:
                    rid = t.add_run(maf_dir=path, maf_run_id=o[4], **kw)
                    if prev:
                        updates += 1
                        require(rid == prev[0], "re-recorded directory got another id", rid, prev)
                    else:
                        require(rid not in model, "id of another run reused", rid)
                        if o[4] is not None:
                            require(rid == o[4], "asked-for id not used", rid, o[4])
                    model[rid] = want
            elif o[0] == "del":
                if model:
                    k = sorted(model)[o[1] % len(model)]
                    t.delRun(k)
                    del model[k]
            elif o[0] == "delmissing":
                try:
                    t.delRun(o[1])
                except Exception:
                    pass
                else:
                    require(False, "deleting a run that is not there did not fail")
            else:
                t.close()
                t = TrackingDb(database=dbf)
            got, n = read_runs(dbf)
            require(n == len(got) and got == model, "runs listed", o, got, model)
        t.close()
        if model:
            mt = MafTracking(os.path.abspath(dbf))
            require(sorted(int(i) for i in mt.runs["maf_run_id"]) == sorted(model), "browser's run list")
            for r in mt.runs:
                m = model[int(r["maf_run_id"])]
                require(str(r["maf_dir"]) == m[0] and [str(r[c]) for c in COLS] == m[1:], "browser's run", r, m)
                want = dict(zip(COLS, m[1:]))
                if want["db_file"] == "":
                    continue  # an empty path is not a file
                info = mt.run_info(r)
                for k, c in INFO:
                    require(str(info[k]) == want[c], "information on a run", k, info[k], want[c])
                require(info["RunDb File"][1] == os.path.basename(want["db_file"]), "file of a run", info)
            require(list(mt.runs["maf_run_id"]) == sorted(model), "order of the runs")
        return "update" if updates else ("history" if len(model) > 1 else None)
    finally:
        os.chdir(old)
        shutil.rmtree(root, True)


addrun_case = st.fixed_dictionaries({
    "cwd": st.sampled_from(["", "t", "w/v", "t/deep"]), "reldb": st.booleans(), "relmaf": st.booleans(),
    "bare": st.booleans(),
    "where": st.integers(0, 4), "results": st.booleans(), "run": TXT, "give_run": st.booleans(), "skip": st.booleans(),
    "mv": st.sampled_from([None, "9.9"]), "md": st.sampled_from([None, "2020-01-01"]), "sv": TXT, "sd": TXT, "grp": TXT,
    "com": TXT, "mcom": TXT, "dbf": TXT, "again": st.booleans()})


def addrun_test(case):
    root = tempfile.mkdtemp(dir=_dir)
    old = os.getcwd()
    try:
        top = os.path.join(root, "t")
        for d in ["t", "w/v", "other/d", "t/a", "t/b", "t/deep/c", "t/a2"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        os.chdir(os.path.join(root, case["cwd"]))
        dbf = os.path.join(top, "trackingDb_sqlite.db")
        if case["reldb"]:
            dbf = os.path.relpath(dbf)
        mdir = os.path.normpath(os.path.join(top, DIRS[case["where"]]))
        version, date = None, None
        if case["results"]:
            r = ResultsDb(out_dir=mdir)
            r.update_metric("m", "UniSlicer", "the run", "", "", "f.npz")
            r.close()
            con = sqlite3.connect(os.path.join(mdir, "resultsDb_sqlite.db"))
            version, date = con.execute("select version, run_date from version").fetchone()
            con.close()
        arg = os.path.relpath(mdir) if case["relmaf"] else mdir
        for _ in range(2 if case["again"] else 1):
            add_run_to_database(arg, dbf, run_group=case["grp"], run_name=case["run"] if case["give_run"] else None,
                                run_comment=case["com"], maf_comment=case["mcom"], db_file=case["dbf"],
                                maf_version=case["mv"], maf_date=case["md"], sched_version=case["sv"],
                                sched_date=case["sd"], skip_extras=case["skip"])
        got, n = read_runs(dbf)
        require(n == 1, "rows", got)
        row = dict(zip(["maf_dir"] + COLS, list(got.values())[0]))
        where = os.path.normpath(os.path.join(top, row["maf_dir"]))
        require(where == mdir, "the recorded directory does not lead to the results", row["maf_dir"], mdir)
        run = case["run"] if case["give_run"] else None
        extras = case["results"] and not case["skip"]
        if run is None and extras:
            run = "the run"
        mv, md = case["mv"], case["md"]
        if extras:
            mv = version if mv is None else mv
            md = date if md is None else md
        want = {"run_group": case["grp"], "run_name": run, "run_comment": case["com"], "run_version": case["sv"],
                "run_date": case["sd"], "maf_comment": case["mcom"], "maf_version": mv, "maf_date": md,
                "db_file": case["dbf"]}
        for k, v in want.items():
            require(row[k] == ("NULL" if v is None else v), "recorded", k, row[k], v)
        return "extras" if extras else "plain"
    finally:
        os.chdir(old)
        shutil.rmtree(root, True)


# ------------------------------------------------------------------ the report
NAMES = ["Mean x", "Mean y", "Coadd_u", "Coadd_g", "N"]
SL = ["UniSlicer", "OneDSlicer", "HealpixSlicer"]
STATS = ["Median", "Mean", "Mean Zed", "Id", "TableFraction 0 == P", "TableFraction 0.1 < P", "Max", "FractionPop 3"]
PT = ["SkyMap", "Histogram", "Combo", "Other", "PowerSpectrum"]
metric_st = st.fixed_dictionaries({
    "name": st.integers(0, 4), "slicer": st.integers(0, 2), "label": st.sampled_from(["u band", "all", ""]),
    "group": st.sampled_from(["G1", "G2", "A g"]), "sub": st.sampled_from(["s1", "s2"]), "order": st.integers(0, 3),
    "cap": st.sampled_from(["cap", None]), "disp": st.sampled_from([True, True, True, False]),
    "stats": st.lists(st.tuples(st.integers(0, 7), st.integers(-3, 3)), max_size=4, unique_by=lambda t: t[0]),
    "plots": st.lists(st.tuples(st.integers(0, 4), st.sampled_from(["x", "_u_", "_g_", "_y_", "k"])), max_size=3)})
report_case = st.fixed_dictionaries({"metrics": sized(metric_st, 1, 8),
                                     "pick": st.lists(st.integers(0, 7), max_size=4),
                                     "sel": st.lists(st.integers(0, 5), max_size=2)})


def report_test(case):
    root = tempfile.mkdtemp(dir=_dir)
    try:
        r = ResultsDb(out_dir=root)
        model = {}
        for k, m in enumerate(case["metrics"]):
            mid = r.update_metric(NAMES[m["name"]], SL[m["slicer"]], "run", "", m["label"], "f%d.npz" % k)
            if mid in model:
                continue
            if not m["disp"]:
                # without display information the metric does not take part in the report
                model[mid] = None
                continue
            r.update_display(mid, {"group": m["group"], "subgroup": m["sub"], "order": m["order"], "caption": m["cap"]})
            files = []
            for j, (t, f) in enumerate(m["plots"]):
                fn = f"p{mid}{f}{j}.pdf"
                r.update_plot(mid, PT[t], fn)
                files.append((PT[t], fn))
            for s, v in m["stats"]:
                r.update_summary_stat(mid, STATS[s], float(v))
            model[mid] = dict(m, files=files, datafile="f%d.npz" % k)
        r.close()
        model = {k: v for k, v in model.items() if v is not None}
        if not model:
            return None
        rep = MafRunResults(root)
        ids = [int(i) for i in rep.metrics["metric_id"]]
        require(sorted(ids) == sorted(model), "metrics in the report", ids, sorted(model))
        # every metric in exactly one group / subgroup
        seen = []
        require(list(rep.groups) == sorted(set(m["group"] for m in model.values())), "groups")
        for g, subs in rep.groups.items():
            require(list(subs) == sorted(set(m["sub"] for m in model.values() if m["group"] == g)), "subgroups", g)
            require(sorted(int(i) for i in rep.metrics_in_group(g)["metric_id"])
                    == sorted(i for i, m in model.items() if m["group"] == g), "metrics of a group", g)
            for s in subs:
                got = [int(i) for i in rep.metric_ids_in_subgroup(g, s)]
                want = sorted(i for i, m in model.items() if m["group"] == g and m["sub"] == s)
                require(sorted(got) == want, "metrics of a subgroup", g, s)
                keys = [(NAMES[model[i]["name"]].split("_")[0], SL[model[i]["slicer"]], model[i]["order"],
                         model[i]["label"]) for i in got]
                require(keys == sorted(keys), "order within a subgroup", keys)
                seen += got
        require(sorted(seen) == sorted(model), "a metric is missing or repeated over the groups")
        shown = lambda m: [(STATS[s], float(v)) for s, v in m["stats"] if not STATS[s].startswith("FractionPop")]
        for row in rep.metrics:
            m = model[int(row["metric_id"])]
            require(rep.caption_for_metric(row) == (m["cap"] or ""), "caption")
            st_ = rep.stats_for_metric(row)
            d = rep.stat_dict(st_)
            require({k: float(v) for k, v in d.items()} == dict(shown(m)), "statistics", dict(d), shown(m))
            pl = rep.plots_for_metric(row)
            require(sorted(zip(map(str, pl["plot_type"]), map(str, pl["plot_file"]))) == sorted(m["files"]), "plots")
            pd = rep.plot_dict(pl) if len(pl) else {}
            got = sorted((t, os.path.basename(f)) for t, v in pd.items() for f in v["plot_file"])
            require(got == sorted(m["files"]), "plot files by type", got, m["files"])
            for t, v in pd.items():
                require([os.path.basename(x) for x in v["thumb_file"]]
                        == ["thumb." + os.path.basename(x)[:-4] + ".png" for x in v["plot_file"]], "thumbnails", v)
                require(all(os.path.abspath(x) == os.path.join(os.path.abspath(root), os.path.basename(x))
                            for x in v["plot_file"]), "location of plots", v)
            require(os.path.abspath(rep.get_npz(np.array([row]))) == os.path.join(root, m["datafile"]), "data file")
            for link in (False, True):
                for wsl in (False, True):
                    info = rep.metric_info(row, with_data_link=link, with_slicer_name=wsl)
                    want = {"Metric Name": NAMES[m["name"]], "Info Label": m["label"]}
                    if wsl:
                        want["Slicer"] = SL[m["slicer"]]
                    if link:
                        require(len(info["Data"]) == 2 and info["Data"][0] == m["datafile"]
                                and os.path.abspath(info["Data"][1]) == os.path.join(root, m["datafile"]), "data link", info)
                    require({k: str(v) for k, v in info.items() if k != "Data"} == want, "information on a metric", info)
                    require(list(rep.metric_info(None, link, wsl)) == list(info), "columns of an empty row")
            for s in STATS:
                got = rep.stats_for_metric(row, s)
                require([float(v) for v in got["summary_value"]] == [v for k, v in shown(m) if k == s], "statistic", s)
            order = [s for s in ("Id", "Median", "Mean", "Max") if s in d]
            require([s for s in d if s in order] == order, "order of the statistics", list(d))
        # selections
        q = lambda a: sorted(int(i) for i in a["metric_id"])
        for p in PT:
            require(q(rep.metrics_with_plot_type(p)) == sorted(i for i, m in model.items()
                                                               if any(t == p for t, _ in m["files"])), "with plot", p)
        for s in STATS:
            require(q(rep.metrics_with_summary_stat(s)) == sorted(i for i, m in model.items()
                                                                  if s in dict(shown(m))), "with statistic", s)
        require(q(rep.metrics_with_stats()) == sorted(i for i, m in model.items() if shown(m)), "with any statistic")
        names = rep.all_stat_names(rep.metrics)
        require(sorted(names) == sorted({s for m in model.values() for s, _ in shown(m)}), "statistic names", names)
        for s in SL:
            require(q(rep.metrics_with_slicer(s)) == sorted(i for i, m in model.items() if SL[m["slicer"]] == s), "slicer")
        for nm in NAMES:
            require(q(rep.metrics_with_metric_name(nm, baseonly=False))
                    == sorted(i for i, m in model.items() if NAMES[m["name"]] == nm), "by name", nm)
            b = nm.split("_")[0]
            require(q(rep.metrics_with_metric_name(b)) == sorted(i for i, m in model.items()
                                                                if NAMES[m["name"]].split("_")[0] == b), "by base name")
        for lab in ["u band", "all", ""]:
            require(q(rep.metrics_with_info_label(lab)) == sorted(i for i, m in model.items() if m["label"] == lab), "lab")
        if len(model) > 1:
            require(rep.get_npz(rep.metrics) is None and rep.get_json(rep.metrics) is None, "data of several metrics")
        # and within a part of the metrics
        part = rep.metrics[[int(i) in sorted(model)[:: 2] for i in rep.metrics["metric_id"]]]
        pm = {i: m for i, m in model.items() if i in sorted(model)[:: 2]}
        require(sorted(int(i) for i in rep.metrics_to_metric_ids(part)) == sorted(pm), "identities of a part")
        require({g: list(v) for g, v in rep.metrics_to_subgroups(part).items()}
                == {g: sorted({m["sub"] for m in pm.values() if m["group"] == g}) for g in {m["group"] for m in pm.values()}},
                "groups of a part")
        require(list(rep.metrics_to_subgroups(part)) == sorted({m["group"] for m in pm.values()}), "order of groups")
        for p in PT:
            require(q(rep.metrics_with_plot_type(p, metrics=part)) == sorted(i for i, m in pm.items()
                                                                             if any(t == p for t, _ in m["files"])), "part", p)
            require(sorted(map(str, rep.get_sky_maps(part, p)["plot_file"]))
                    == sorted(f for m in pm.values() for t, f in m["files"] if t == p), "plots of a part", p)
        for s in STATS:
            require(q(rep.metrics_with_summary_stat(s, part)) == sorted(i for i, m in pm.items() if s in dict(shown(m))),
                    "part with statistic", s)
        require(q(rep.metrics_with_stats(part)) == sorted(i for i, m in pm.items() if shown(m)), "part with any statistic")
        for g in ("G1", "G2", "A g"):
            require(q(rep.metrics_in_group(g, part)) == sorted(i for i, m in pm.items() if m["group"] == g), "part of group")
            for s in ("s1", "s2"):
                require(q(rep.metrics_in_subgroup(g, s, part)) == sorted(
                    i for i, m in pm.items() if m["group"] == g and m["sub"] == s), "part of subgroup")
        for s in SL:
            require(q(rep.metrics_with_slicer(s, part)) == sorted(i for i, m in pm.items() if SL[m["slicer"]] == s), "part")
        require(sorted(rep.all_stat_names(part)) == sorted({s for m in pm.values() for s, _ in shown(m)}), "part, names")
        for part_, mm in ((None, model), (part, pm)):
            uq = lambda f: sorted({f(m) for m in mm.values()})
            require(sorted(map(str, rep.unique_slicer_names(part_))) == uq(lambda m: SL[m["slicer"]]), "slicer names")
            require(sorted(map(str, rep.unique_metric_info_label(part_))) == uq(lambda m: m["label"]), "labels")
            require(sorted(map(str, rep.unique_metric_names(part_, baseonly=False))) == uq(lambda m: NAMES[m["name"]]), "names")
            require(sorted(map(str, rep.unique_metric_names(part_))) == uq(lambda m: NAMES[m["name"]].split("_")[0]), "names")
            require(sorted(map(str, rep.unique_metric_name_and_info_label(part_)))
                    == uq(lambda m: NAMES[m["name"]] + " " + m["label"]), "names and labels")
        sel = [["G1", "G2", "A g"][k % 3] + "__" + ["s1", "s2"][k // 3] for k in case["sel"]]
        pick = [sorted(model)[k % len(model)] for k in case["pick"]]
        got = rep.convert_select_to_metrics([s.replace(" ", " ") for s in sel], [str(p) for p in pick])
        want = sorted(set(pick) | {i for i, m in model.items() if m["group"] + "__" + m["sub"] in sel})
        require(q(got) == want, "selection", q(got), want)
        # sky maps laid out in rows of three lose nothing
        sky = rep.get_sky_maps()
        lay = rep.order_plots(sky)
        files = []
        for d in lay:
            f = d.get("SkyMap", {}).get("plot_file", "")
            files += [os.path.basename(x) for x in f] if isinstance(f, list) else []
        require(sorted(files) == sorted(f for m in model.values() for t, f in m["files"] if t == "SkyMap"), "sky maps laid "
                "out", sorted(files))
        require(len(lay) % 3 == 0, "rows of three")
        bands = [[f for m in model.values() for t, f in m["files"] if t == "SkyMap" and "_%s_" % b in f] for b in "ugrizy"]
        if len(sky) and all(len(b) < 2 for b in bands):
            got = [[os.path.basename(x) for x in d["SkyMap"]["plot_file"]] if d["SkyMap"]["plot_file"] else [] for d in lay[:6]]
            require(got == bands, "sky maps in the order of the bands", got, bands)
        return "report" if len(model) > 1 else None
    finally:
        shutil.rmtree(root, True)


json_case = st.fixed_dictionaries({"vals": st.lists(st.integers(0, 40), min_size=1, max_size=10), "k": st.integers(0, 1)})


def json_test(case):
    root = tempfile.mkdtemp(dir=_dir)
    try:
        data = np.zeros(len(case["vals"]), dtype=[("x", float)])
        data["x"] = case["vals"]
        slicer = maf.UniSlicer() if case["k"] == 0 else maf.OneDSlicer("x", bins=np.arange(0, 51, 10.0))
        b = maf.MetricBundle(maf.CountMetric("x"), slicer, "", run_name="r")
        rdb = ResultsDb(out_dir=root)
        g = maf.MetricBundleGroup({0: b}, None, out_dir=root, results_db=rdb, verbose=False)
        g.run_current("", sim_data=data)
        g.write_all()
        rep = MafRunResults(root)
        require(len(rep.metrics) == 1, "metric in the report")
        j = rep.get_json(rep.metrics)
        require(j is not None, "no JSON")
        d = json.loads(j)
        if case["k"] == 0:
            require(len(case["vals"]) in np.array(d[1], dtype=object).ravel().tolist(), "count missing from the JSON", d)
        else:
            xs = d[1]
            want = [[10.0 * i, int(c)] for i, c in enumerate(np.histogram(case["vals"], np.arange(0, 51, 10.0))[0])]
            require([[float(p[0]), int(p[1])] for p in xs[:5]] == want, "histogram in JSON", xs, want)
        return "json"
    finally:
        shutil.rmtree(root, True)


def arms():
    return [
        Arm("track", track_case, track_test, 130, rule="run histories; non-trivial: >1 run left or an update", setup=setup),
        Arm("addrun", addrun_case, addrun_test, 120, rule="every case", setup=setup),
        Arm("report", report_case, report_test, 120, rule=">1 metric shown", setup=setup),
        Arm("json", json_case, json_test, 40, rule="every case", setup=setup),
    ]
