"""C37: comparing runs (gathered summaries, choices of runs and metrics, normalisation, figures, downloads)."""

import copy
import json
import os
import shutil
import sys
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import rubin_sim.maf as maf  # noqa: E402
from rubin_sim.maf import run_comparison as rc  # noqa: E402
from rubin_sim.maf.db import ResultsDb  # noqa: E402
from rubin_sim.maf.run_comparison import microlensing_compare as ml  # noqa: E402
from vp.core import Arm, require  # noqa: E402
from vp.gen import sized  # noqa: E402

ASSUMPTIONS = ["the same statistic of the same run in two directories: the later directory of the list counts",
               "a metric of several subsets has the same flags in each of them",
               "downloads come from file:// addresses in a scratch directory"]
BUDGET = {"quick": 80, "thorough": 2400}

RUNS = ["base_v1", "rolling v2", "u_long", "ddf", "bbb", "y_early"]
MET = ["Median Coadd u", "Mean Airmass", "Rms error", "5sigma depth", "N visits", "fO"]
SUBS = ["SRD", "depths", "more"]
FAMS = ["baseline", "rolling", "ddf", "one"]


def quiet():
    c = warnings.catch_warnings()
    c.__enter__()
    warnings.simplefilter("ignore")
    return c


# --- gathering -------------------------------------------------------------------------------
row_st = st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 2), st.sampled_from(["", "u band", "night  < 3 ", "all"]), st.sampled_from(["Median", "Mean", "N(+3Sigma) "]), st.integers(-20, 20).map(lambda k: k / 4))
gather_st = st.fixed_dictionaries({"dirs": sized(sized(row_st, 1, 8), 1, 4), "missing": st.sampled_from([None, None, 0, 1]), "how": st.sampled_from(["call", "call", "csv", "h5", "csv_base", "h5_base"]), "pick": st.lists(st.integers(0, 30), max_size=4)})


def gather(case):
    root = tempfile.mkdtemp(prefix="c37_")
    cwd = os.getcwd()
    argv = sys.argv
    q = quiet()
    try:
        os.chdir(root)
        want = {}
        dirs = []
        seen = set()
        for k, rows in enumerate(case["dirs"]):
            d = os.path.join("res", "d%d" % k)
            os.makedirs(d)
            dirs.append(d)
            r = ResultsDb(out_dir=d)
            for run, met, sl, lab, stat, v in rows:
                run = RUNS[run] if not case["how"].endswith("base") else RUNS[run] + "_%d" % k
                name, slicer = MET[met] + (" " if lab == "all" else ""), ["UniSlicer", "OneDSlicer", "HealpixSlicer"][sl]
                key = (run, " ".join(x.strip() for x in (stat, name, lab, slicer)).replace("  ", " "))
                if (k, key) in seen:
                    continue
                seen.add((k, key))
                m = r.update_metric(name, slicer, run, "", lab, "x.npz")
                r.update_summary_stat(m, stat, v)
                want[key] = v
            r.close()
        if case["missing"] is not None:
            os.makedirs("res/empty")
            dirs.insert(min(case["missing"], len(dirs)), "res/empty")
        if case["how"] == "call":
            got = rc.combine_result_dbs(dirs)
        else:
            sys.argv = ["gather_summaries", "--outfile", "out"]
            sys.argv += ["--base_dir", "res"] if case["how"].endswith("base") else ["--dirs", ",".join(dirs)]
            csv = case["how"].startswith("csv")
            if csv:
                sys.argv.append("--to_csv")
            rc.gather_summaries()
            require(os.listdir(root).count("out.csv" if csv else "out.h5") == 1, "file of the summaries", os.listdir(root))
            got = rc.get_metric_summaries(summary_source="out.csv" if csv else "out.h5")
        require(not os.path.isdir("res/empty") or os.listdir("res/empty") == [], "gathering left something in a directory without results", os.listdir("res"))
        cells = {(r, c): got.loc[r, c] for r in got.index for c in got.columns if not pd.isnull(got.loc[r, c])}
        require(sorted(got.index) == sorted({k[0] for k in want}), "one row per run", list(got.index))
        require(sorted(got.columns) == sorted({k[1] for k in want}), "one column per statistic", list(got.columns), sorted({k[1] for k in want}))
        require(cells == want, "values gathered", sorted(set(cells.items()) ^ set(want.items()))[:6])
        return "several directories" if len({k for k, _ in seen}) > 1 else "one"
    finally:
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(root, True)
        q.__exit__(None, None, None)


# --- choosing ---------------------------------------------------------------------------------
fams_st = st.lists(st.tuples(st.integers(0, 3), st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True)), max_size=4, unique_by=lambda t: t[0])
subs_st = st.lists(st.tuples(st.integers(0, 2), st.tuples(st.permutations(list(range(6))), st.integers(1, 6)).map(lambda t: list(t[0])[:t[1]])), min_size=1, max_size=3, unique_by=lambda t: t[0])
flags_st = st.lists(st.tuples(st.booleans(), st.booleans(), st.sampled_from(["-", "r-", "b--"])), min_size=6, max_size=6)
val = st.one_of(st.integers(1, 60).map(lambda k: k / 8), st.integers(-60, -1).map(lambda k: k / 8))
choose_st = st.fixed_dictionaries({
    "runs": st.permutations(list(range(6))), "mets": st.permutations(list(range(6))), "nr": st.integers(1, 6), "nm": st.integers(1, 6), "vals": st.lists(st.lists(val, min_size=6, max_size=6), min_size=6, max_size=6),
    "fams": fams_st, "subs": subs_st, "flags": flags_st, "source": st.sampled_from(["df", "csv", "h5"]), "fs": st.sampled_from(["json", "df"]), "ms": st.sampled_from(["json", "df", "written"]),
    "ask_f": st.lists(st.integers(0, 3), max_size=2), "ask_r": st.lists(st.integers(0, 5), max_size=3), "ask_s": st.lists(st.integers(0, 2), max_size=2), "ask_m": st.lists(st.integers(0, 6), max_size=3), "ro": st.sampled_from(["family", "summary"]), "mo": st.sampled_from(["subset", "summary"]), "plain": st.booleans()})


def table_of(case):
    runs = [RUNS[i] for i in case["runs"][:case["nr"]]]
    mets = [MET[i] for i in case["mets"][:case["nm"]]]
    return pd.DataFrame([[case["vals"][i][j] for j in range(len(mets))] for i in range(len(runs))], index=pd.Index(runs, name="OpsimRun"), columns=mets)


def family_json(fams, root="/nowhere"):
    return {FAMS[f]: {"description": "About %s" % FAMS[f], "version": "v%d" % f, "run": [RUNS[r] for r in rs], "brief": ["%s in %s" % (RUNS[r], FAMS[f]) for r in rs], "filepath": ["sub%d/%s.db" % (r % 2, RUNS[r].replace(" ", "_")) for r in rs],
                      "url": ["file://%s/%s.db" % (root, RUNS[r].replace(" ", "_")) for r in rs]} for f, rs in fams}


def subset_frame(case):
    return pd.concat([rc.create_metric_subset(SUBS[s], [MET[m] for m in ms], short_name=["%s!" % MET[m][:5] for m in ms], style=[case["flags"][m][2] for m in ms], invert=[case["flags"][m][0] for m in ms], mag=[case["flags"][m][1] for m in ms]) for s, ms in case["subs"]])


def choose(case):
    root = tempfile.mkdtemp(prefix="c37_")
    try:
        df = table_of(case)
        keep = df.copy(deep=True)
        if case["source"] == "df":
            src = df
        elif case["source"] == "csv":
            src = os.path.join(root, "s.csv")
            df.to_csv(src)
        else:
            src = os.path.join(root, "s.h5")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                df.to_hdf(src, key="stats")
        fj = family_json(case["fams"])
        fsrc = os.path.join(root, "f.json")
        with open(fsrc, "w") as f:
            json.dump(fj, f)
        sub = subset_frame(case)
        msrc = os.path.join(root, "m.json")
        rc.write_metric_subsets(msrc, sub)
        back = rc.get_metric_subsets(msrc)
        require(back.index.tolist() == sub.index.tolist() and back.index.names == sub.index.names, "subsets written and read", back.index.tolist())
        for c in ("metric", "short_name", "style", "invert", "mag"):
            require(back[c].tolist() == sub[c].tolist(), "subsets written and read", c)
        fams = [FAMS[f] for f in case["ask_f"] if FAMS[f] in fj]
        subs = [SUBS[s] for s in case["ask_s"] if s in [x for x, _ in case["subs"]]]
        runs = [RUNS[i] for i in case["ask_r"] if RUNS[i] in df.index]
        mets = [(MET + ["no such metric"])[i] for i in case["ask_m"]]
        fr = [r for f in fams for r in fj[f]["run"]]
        if case["ro"] == "family" and not set(fr) <= set(df.index):
            fams, fr = [], []
        sm = [MET[m] for s in subs for x, ms in case["subs"] if SUBS[x] == s for m in ms]
        kw = dict(run_families=fams, metric_subsets=subs, runs=runs, metrics=mets, summary_source=src, runs_source=fsrc if case["fs"] == "json" or not fj else rc.get_family_runs(fsrc), metric_subset_source=sub if case["ms"] == "df" else msrc, run_order=case["ro"], metric_order=case["mo"])
        if case["plain"]:
            if len(fams) == 1:
                kw["run_families"] = fams[0]
            if len(subs) == 1:
                kw["metric_subsets"] = subs[0]
            kw["runs"] = tuple(runs)
        asked = copy.deepcopy({k: kw[k] for k in ("run_families", "metric_subsets", "runs", "metrics")})
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = rc.get_metric_summaries(**kw)
        require({k: kw[k] for k in asked} == asked, "the lists of the caller were changed", asked)
        wr = runs + fr
        wm = mets + sm
        gone = {m for m in wm if m not in df.columns}
        said = {m for m in gone if any('"%s"' % m in str(x.message) for x in w)}
        require(said == gone, "warning about a metric that is not there", gone, said)
        some = bool(wm)
        wm = [m for m in wm if m in df.columns]
        if case["ro"] == "summary" or not wr:
            wr = [r for r in df.index if r in wr or not wr]
        if case["mo"] == "summary" or not some:
            wm = [m for m in df.columns if m in wm or not some]
        require(list(dict.fromkeys(got.index)) == list(dict.fromkeys(wr)), "runs chosen", list(got.index), wr, case["ro"])
        require(list(dict.fromkeys(got.columns)) == list(dict.fromkeys(wm)), "metrics chosen", list(got.columns), wm, case["mo"])
        g = got.loc[:, ~got.columns.duplicated()]
        g = g[~g.index.duplicated()]
        require(np.array_equal(g.values, keep.loc[list(g.index), list(g.columns)].values), "values chosen")
        require((got.index.name, got.columns.name) == ("run", "metric"), "names of the axes", got.index.name, got.columns.name)
        require(df.equals(keep) and list(df.columns) == list(keep.columns), "the table of the caller was changed")
        # families
        want = [(f, fj[f]["run"][i], fj[f]["brief"][i], fj[f]["filepath"][i], fj[f]["url"][i], fj[f]["version"]) for f in fj for i in range(len(fj[f]["run"]))]
        if want:
            fr = rc.get_family_runs(fsrc)
            got = [(f, r.run, r.brief, r.filepath, r.url, r.version) for f, r in fr.iterrows()]
            require(sorted(got) == sorted(want), "runs of families", got)
            by = rc.get_runs(fsrc)
            for name in {x[1] for x in want}:
                rows = by.loc[[name]]
                require(sorted(f for l in rows["family"] for f in l) == sorted(x[0] for x in want if x[1] == name), "families of a run", name)
                for _, r in rows.iterrows():
                    require((r.filepath, r.url) in {(x[3], x[4]) for x in want if x[1] == name}, "places of a run", name)
                    require(list(r.version) == [x[5] for f in r.family for x in want if x[0] == f and x[1] == name], "versions of a run", name)
            require(set(by.index) == {x[1] for x in want}, "runs known")
            d = rc.get_family_descriptions(fsrc)
            for f in fj:
                require(d.loc[f, "description"] == fj[f]["description"] and list(d.loc[f, "run"]) == fj[f]["run"] and d.loc[f, "version"] == fj[f]["version"], "description of a family", f)
            lines = rc.find_family_lines(d, list(fj))
            require(list(lines) == list(np.cumsum([len(fj[f]["run"]) for f in fj])), "lines between families", list(lines))
        return "selection" if (len(asked["runs"]) or len(fams)) and (mets or subs) else "all of one kind"
    finally:
        shutil.rmtree(root, True)


# --- downloads --------------------------------------------------------------------------------
down_st = st.fixed_dictionaries({"fams": st.lists(st.tuples(st.integers(0, 3), st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True)), min_size=1, max_size=3, unique_by=lambda t: t[0]), "ask": st.lists(st.integers(0, 5), min_size=1, max_size=3), "have": st.lists(st.integers(0, 5), max_size=3), "clobber": st.booleans(), "how": st.sampled_from(["list", "str", "df"])})


def download(case):
    root = tempfile.mkdtemp(prefix="c37_")
    q = quiet()
    try:
        src, dst = os.path.join(root, "src"), os.path.join(root, "dst")
        os.makedirs(src)
        fj = family_json(case["fams"], src)
        fsrc = os.path.join(root, "f.json")
        with open(fsrc, "w") as f:
            json.dump(fj, f)
        place = {r: (fj[x]["filepath"][i]) for x in fj for i, r in enumerate(fj[x]["run"])}
        for r in place:
            with open(os.path.join(src, r.replace(" ", "_") + ".db"), "w") as f:
                f.write("data of " + r)
        ask = [r for r in dict.fromkeys(RUNS[i] for i in case["ask"]) if r in place] or sorted(place)[:1]
        runs = ask if case["how"] == "list" else ask[0] if case["how"] == "str" else rc.get_runs(fsrc).loc[ask]
        if case["how"] == "str":
            ask = ask[:1]
        try:
            rc.download_runs(runs, dest_dir=dst, runs_source=fsrc)
            require(False, "download into a directory that does not exist")
        except FileNotFoundError:
            pass
        require(not os.path.exists(dst), "the directory was made")
        os.makedirs(dst)
        want = {}
        for i in case["have"]:
            r = RUNS[i]
            if r in place:
                p = os.path.join(dst, place[r])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("mine " + r)
                want[place[r]] = "mine " + r
        for r in ask:
            if case["clobber"] or place[r] not in want:
                want[place[r]] = "data of " + r
        got = rc.download_runs(runs, dest_dir=dst, runs_source=fsrc, clobber=case["clobber"])
        require(dict(got) == {r: os.path.join(dst, place[r]) for r in ask}, "files reported", dict(got))
        have = {}
        for d, _, fs in os.walk(dst):
            for f in fs:
                with open(os.path.join(d, f)) as g:
                    have[os.path.relpath(os.path.join(d, f), dst)] = g.read()
        require(have == want, "files after the download", have, want)
        return "existing files" if set(ask) & {RUNS[i] for i in case["have"]} else "new files"
    finally:
        q.__exit__(None, None, None)
        shutil.rmtree(root, True)


# --- normalisation ------------------------------------------------------------------------------
norm_st = st.fixed_dictionaries({
    "runs": st.permutations(list(range(6))), "mets": st.permutations(list(range(6))), "nr": st.integers(1, 6), "nm": st.integers(1, 6), "vals": st.lists(st.lists(val, min_size=6, max_size=6), min_size=6, max_size=6), "subs": subs_st, "flags": flags_st,
    "base": st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True), "aslist": st.booleans(), "use": st.sampled_from([True, True, False]), "nan": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), max_size=2), "flip": st.booleans(), "axis": st.sampled_from(["run", "OpsimRun", "run_name", None]), "dup": st.sampled_from([None, "run", "metric"]),
    "quant": st.sampled_from([("run", "value"), ("value", "run"), ("value", "metric"), ("metric", "value")]), "maps": st.booleans(), "norm": st.booleans()})


def setting(case):
    df = table_of(case)
    for i, j in case["nan"]:
        if i < len(df) and j < df.shape[1]:
            df.iloc[i, j] = np.nan
    df.index.name = case["axis"]
    if case["axis"]:
        df.columns.name = "metric"
    base = [df.index[i % len(df)] for i in case["base"]]
    base = list(dict.fromkeys(base)) if case["aslist"] else base[0]
    return df, base, subset_frame(case) if case["use"] else None


def flags(case):
    inv = {MET[i] for i, f in enumerate(case["flags"]) if f[0]}
    mag = {MET[i] for i, f in enumerate(case["flags"]) if f[1]}
    return inv, mag, [MET[m] for _, ms in case["subs"] for m in ms]


def wanted(case, df, base, sub):
    inv, mag, known = flags(case)
    mets = [m for m in df.columns if sub is None or m in known]
    out = {}
    for m in mets:
        col = df[m].values
        b = [df.loc[r, m] for r in (base if isinstance(base, list) else [base])]
        b = [x for x in b if not np.isnan(x)]
        b = float(np.median(b)) if b else np.nan
        if sub is not None and m in inv and m in mag:
            v = 1 - (col - b)
        elif sub is not None and m in inv:
            v = b / col
        elif sub is not None and m in mag:
            v = 1 + (col - b)
        else:
            v = col / b
        out[m] = v
    return mets, out


def normalise(case):
    df, base, sub = setting(case)
    if case["dup"] == "run":
        df = pd.concat([df, df.iloc[:1]])
        df.index.name = case["axis"]
    if case["dup"] == "metric":
        df = pd.concat([df, df.iloc[:, :1]], axis=1)
        df.columns.name = "metric" if case["axis"] else None
    one = df.loc[~df.index.duplicated(), ~df.columns.duplicated()]
    mets, want = wanted(case, one, base, sub)
    use = [m for m in df.columns if m in mets]
    given = df.T if case["flip"] and case["axis"] else df
    keep = given.copy(deep=True)
    keepsub = None if sub is None else sub.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = rc.normalize_metric_summaries(base, given, metric_subsets=sub)
    require(given.equals(keep) and list(given.index) == list(keep.index) and (given.index.name, given.columns.name) == (keep.index.name, keep.columns.name), "the table of the caller was changed")
    require(sub is None or sub.equals(keepsub), "the subsets of the caller were changed")
    require(list(got.index) == list(df.index) and list(got.columns) == use, "rows and columns of normalised values", list(got.index), list(got.columns), use)
    require((got.index.name, got.columns.name) == ("run", "metric"), "names of the axes")
    for j, m in enumerate(use):
        col = dict(zip(one.index, want[m]))
        require(np.allclose(got.iloc[:, j].values.astype(float), [col[r] for r in df.index], rtol=1e-9, atol=1e-12, equal_nan=True), "normalised values", m, got.iloc[:, j].tolist(), [col[r] for r in df.index])
    # the same for radar plots
    inv, mag, _ = flags(case)
    b = base[0] if isinstance(base, list) else base
    rev = [m for m in one.columns[:1] if m in mag]
    icols = [m for m in one.columns if m in inv]
    mcols = [m for m in one.columns if m in mag]
    keep = one.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = rc.normalize_for_radar(one, norm_run=b if case["norm"] else None, invert_cols=icols or None, reverse_cols=rev or None, mag_cols=mcols)
    require(one.equals(keep), "the table of the caller was changed")
    for m in one.columns:
        v = one[m].values * (-1 if m in rev else 1)
        v = 1 / v if m in icols else v
        n = v[list(one.index).index(b)]
        if case["norm"]:
            v = 1 + (v - n) if m in mcols else v / n
        require(np.allclose(got[m].values, v, rtol=1e-9, equal_nan=True), "values for a radar plot", m)
    require(list(got.index) == list(one.index) and list(got.columns) == list(one.columns), "rows and columns for a radar plot")
    kinds = {(m in inv, m in mag) for m in mets} if sub is not None else set()
    return "inverted or magnitudes" if len(kinds) > 1 else ("plain" if mets else None)


# --- figures ------------------------------------------------------------------------------------
def figures(case):
    df, base, sub = setting(case)
    inv, mag, known = flags(case)
    if sub is not None:
        df = df[[m for m in df.columns if m in known]]
        if not df.shape[1]:
            return None
    if df.index.name not in ("run", None):
        df.index.name = "run"
    mets, norm = wanted(case, df, base, sub)
    if not case["norm"]:
        base = None
        norm = {m: df[m].values for m in mets}
    rl = {r: "R " + r for r in RUNS} if case["maps"] else None
    mlm = {m: "M " + m for m in MET} if case["maps"] else None
    q = quiet()
    try:
        v, h = case["quant"]
        keep = df.copy(deep=True)
        fig, ax = rc.plot_run_metric(df, baseline_run=base, vertical_quantity=v, horizontal_quantity=h, run_label_map=rl, metric_label_map=mlm, metric_subset=sub)
        colour = ({"run", "metric", "value"} - {v, h}).pop()
        rname = [(rl or {}).get(r, r) for r in df.index]
        mname = [(mlm or {}).get(m, m) for m in mets]
        lines = ax.get_lines()
        if colour == "metric":
            wl = [("1 / " if sub is not None and base is not None and m in inv else "") + n for m, n in zip(mets, mname)]
            wv = [norm[m] for m in mets]
            cats = rname
        else:
            wl = rname
            wv = [[norm[m][i] for m in mets] for i in range(len(df))]
            cats = mname
        require([x.get_label() for x in lines] == wl, "labels of the lines", [x.get_label() for x in lines], wl)
        for x, w in zip(lines, wv):
            a, b = (x.get_xdata(), x.get_ydata()) if v == "value" else (x.get_ydata(), x.get_xdata())
            require(list(a) == cats, "runs or metrics along the axis", list(a), cats)
            require(np.allclose(np.asarray(b, float), np.asarray(w, float), rtol=1e-9, equal_nan=True), "values drawn", x.get_label(), list(b), list(w))
        require(df.equals(keep), "the table of the caller was changed")
        # coloured cells
        series = None if mlm is None else pd.Series(mlm)
        fig, ax = rc.plot_run_metric_mesh(df, metric_subset=sub, baseline_run=base, color_range=0.5, run_label_map=rl, metric_label_map=series)
        mesh = ax.collections[0]
        require(mesh.get_clim() == (0.75, 1.25), "colours", mesh.get_clim())
        arr = np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan).reshape(len(mets), len(df))
        require(np.allclose(arr, np.array([norm[m] for m in mets], float), rtol=1e-9, equal_nan=True), "values of the cells")
        wl = [("1/" if sub is not None and base is not None and m in inv and mlm else "") + n for m, n in zip(mets, mname)]
        require([t.get_text() for t in ax.get_yticklabels()] == wl, "labels of the metrics", [t.get_text() for t in ax.get_yticklabels()], wl)
        require([t.get_text() for t in ax.get_xticklabels()] == rname, "labels of the runs")
        # values and uncertainties
        unc = df * 0 + 0.25
        plt.close("all")
        fig, ax = rc.plot_run_metric_uncert(df, unc, run_label_map=rl, metric_label_map=mlm, sep_plots=case["aslist"])
        axes = [f.axes[0] for f in map(plt.figure, plt.get_fignums())]
        require(len(axes) == (len(mets) if case["aslist"] else 1), "figures with uncertainties", len(axes))
        boxes = [c for a in axes for c in a.containers]
        require([c.get_label() for c in boxes] == mname, "labels with uncertainties", [c.get_label() for c in boxes])
        for c, m in zip(boxes, mets):
            require(list(c[0].get_xdata()) == rname and np.allclose(np.asarray(c[0].get_ydata(), float), df[m].values, equal_nan=True), "values with uncertainties", m)
            seg = [np.asarray(s) for s in c[2][0].get_segments()]
            require(len(seg) == len(df), "uncertainties drawn", m, len(seg))
            for s, y in zip(seg, df[m].values):
                require(np.isnan(y) or np.allclose(s[:, 1], [y - 0.25, y + 0.25]), "uncertainties drawn", m)
        # radar
        nd = pd.DataFrame({m: norm[m] for m in mets}, index=df.index)
        if len(mets) > 2:
            fig, ax = rc.radar(nd, rgrids=[0.5, 1, 2], fill=case["norm"])
            lines = ax.get_lines()
            require([x.get_label() for x in lines] == list(df.index), "runs in a radar plot")
            th = (np.pi / 2 + 2 * np.pi * np.arange(len(mets)) / len(mets)) % (2 * np.pi)
            for x, (_, row) in zip(lines, nd.iterrows()):
                require(np.allclose(x.get_ydata(), list(row) + [row.iloc[0]], equal_nan=True) and np.allclose(x.get_xdata(), list(th) + [th[0]]), "line in a radar plot", list(x.get_ydata()), list(row))
            require([t.get_text() for t in ax.get_xticklabels()] == mets, "labels of a radar plot", [t.get_text() for t in ax.get_xticklabels()], mets)
            require(np.allclose(ax.get_xticks() % (2 * np.pi), th), "places of labels in a radar plot")
            require(ax.get_ylim() == (0.5, 2), "limits of a radar plot")
        return "several" if len(mets) > 1 and len(df) > 1 else "single"
    finally:
        plt.close("all")
        q.__exit__(None, None, None)


# --- microlensing ---------------------------------------------------------------------------------
ev_st = st.tuples(st.sampled_from([0, 1, 1]), st.sampled_from([0, 3, 9, 11, 12, 50, None, 1e12]), st.sampled_from([0.01, 0.0999, 0.2, 3.0, None]))
ml_st = st.fixed_dictionaries({"ev": sized(ev_st, 1, 12), "run": st.sampled_from(["base_v3.4_10yrs", "my_Microlensing_run"]), "range": st.sampled_from([(1, 10), (10, 30), (100, 1000)]), "n": st.integers(1, 4)})


def micro(case):
    ev = case["ev"]
    det = np.array([e[0] for e in ev], float)
    npt = np.array([np.nan if e[1] is None else e[1] for e in ev], float)
    fis = np.array([np.nan if e[2] is None else e[2] for e in ev], float)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = [ml.get_results(pd.DataFrame({"metric_values": v, "mask": False}), k) for v, k in ((det, "detect"), (npt, "Npts"), (fis, "Fisher"))]
    ok = [v for v in npt if not np.isnan(v) and v <= 10e10]
    want = [np.mean(det == 1), sum(ok) / len(ev), np.mean(fis < 0.1)]
    require(np.allclose(got, want, rtol=1e-12), "figures of merit of microlensing", got, want)
    npt = np.array([np.nan if e[1] in (None, 1e12) else e[1] for e in ev], float)
    tab = lambda a, na, b, nb: [[int(np.sum(a & b)), int(np.sum(a & nb))], [int(np.sum(na & b)), int(np.sum(na & nb))]]  # noqa: E731
    f, nf, p, np_, d, nd = fis < 0.1, fis > 0.1, npt > 10, npt < 10, det == 1, det == 0
    require(ml.detected_fisher_comparison(fis, det).tolist() == tab(f, nf, d, nd), "characterised and discovered")
    require(ml.fisher_npts_comparison(fis, npt).tolist() == tab(f, nf, p, np_), "characterised with points")
    require(ml.detected_npts_comparison(det, npt).tolist() == tab(d, nd, p, np_), "discovered with points")
    lo, hi = case["range"]
    r, t, a, b = ml.parse_t_e_run_types("%s_MicrolensingMetric_%s_tE_%d_%d_UserPointsSlicer" % (case["run"], "Npts", lo, hi)) if "MicrolensingMetric" not in case["run"] else (case["run"], "Npts", lo, hi)
    require((r, t, int(float(a)), int(float(b))) == (case["run"], "Npts", lo, hi), "name of a file", r, t, a, b)
    # results on disk
    root = tempfile.mkdtemp(prefix="c37_")
    q = quiet()
    try:
        path = os.path.join(root, case["run"] + "_result.db")
        res = ResultsDb(database=path)
        want = {}
        for k in range(case["n"]):
            b = maf.MetricBundle(maf.CountMetric("x", metric_name="m%d" % k), maf.OneDSlicer("x", bins=np.arange(0, 51, 10.0)), "", run_name="other")
            b.slicer.setup_slicer(np.array([(0.0,)], dtype=[("x", float)]))
            b.metric_values = np.ma.MaskedArray(np.arange(5.0) + k, mask=[False, False, k % 2 == 0, False, False])
            b.write(out_dir=root, results_db=res)
            want["m%d" % k] = b.metric_values
        res.close()
        ResultsDb(database=os.path.join(root, "none_result.db")).close()
        dbs = ml.get_results_dbs(root)
        require(list(dbs) == [case["run"]], "results found", list(dbs))
        got = ml.bundle_dict_from_disk(dbs[case["run"]], case["run"], root)
        require(sorted(k[1] for k in got) == sorted(want), "metrics found", list(got))
        for (i, n), b in got.items():
            require(np.array_equal(b.metric_values.filled(-1), want[n].filled(-1)) and b.run_name == case["run"], "metric read back", n)
    finally:
        q.__exit__(None, None, None)
        shutil.rmtree(root, True)
    return "events" if len(ev) > 2 else "few"


fom_st = st.fixed_dictionaries({"runs": st.integers(1, 2), "ranges": st.lists(st.integers(0, 3), min_size=1, max_size=2, unique=True), "ev": st.lists(sized(ev_st, 5, 5), min_size=4, max_size=4)})


def fom(case):
    """The whole comparison, from files to figures."""
    root = tempfile.mkdtemp(prefix="c37_")
    q = quiet()
    saved = {}
    real = matplotlib.figure.Figure.savefig

    def record(fig, fname, *a, **k):
        saved[os.path.basename(str(fname))] = [([t.get_text() for t in ax.texts], [(x.get_label(), list(x.get_xdata()), list(x.get_ydata())) for x in ax.get_lines()], ax.get_xlabel(), ax.get_ylabel()) for ax in fig.axes]

    try:
        matplotlib.figure.Figure.savefig = record
        runs = ["base_v1", "other_v2"][:case["runs"]]
        ranges = [((1, 10), (10, 30), (30, 100), (100, 1000))[i] for i in sorted(case["ranges"])]
        data = {}
        for i, run in enumerate(runs):
            for j, (lo, hi) in enumerate(ranges):
                ev = case["ev"][2 * i + j]
                for k, typ in enumerate(("detect", "Npts", "Fisher")):
                    name = "%s_MicrolensingMetric_%s_tE_%d_%d_UserPointsSlicer" % (run, typ, lo, hi)
                    v = np.array([np.nan if e[k] is None else e[k] for e in ev], float)
                    data[(run, lo, hi, typ)] = v
                    np.savez(os.path.join(root, name + ".npz"), metric_values=v, mask=np.zeros(len(v), bool))
                    r = ResultsDb(database=os.path.join(root, name + "_result.db"))
                    b = maf.MetricBundle(maf.CountMetric("x", metric_name="m"), maf.OneDSlicer("x", bins=np.arange(0, 51, 10.0)), "", run_name="other")
                    b.slicer.setup_slicer(np.array([(0.0,)], dtype=[("x", float)]))
                    b.metric_values = np.ma.MaskedArray(np.arange(5.0), mask=False)
                    b.write(out_dir=root, results_db=r)
                    r.close()
        ml.microlensing_fom(root, root, root, figsize=(5, 5))
        axes = saved.pop("microlensing_fom.png")
        for ax, typ in zip(axes, ("detect", "Npts", "Fisher")):
            want = []
            for lo, hi in ranges:
                vals = []
                for run in runs:
                    v = data[(run, lo, hi, typ)]
                    vals.append(np.mean(v == 1) if typ == "detect" else np.sum(v[(v <= 10e10)]) / len(v) if typ == "Npts" else np.mean(v < 0.1))
                want.append(("tE %d-%d days" % (lo, hi), vals, runs))
            require([x[0] for x in ax[1]] == [x[0] for x in want], "lines of the figure of merit", typ, ax[1])
            for x, w in zip(ax[1], want):
                require(list(x[2]) == w[2] and np.allclose(np.asarray(x[1], float), w[1], rtol=1e-12), "figure of merit", typ, x, w)
        for run in runs:
            for lo, hi in ranges:
                d, p, f = (data[(run, lo, hi, t)] for t in ("detect", "Npts", "Fisher"))
                p = np.where(p >= 10e10, np.nan, p)
                cells = {("Characterized", "Discovered"): (f < 0.1, f > 0.1, d == 1, d == 0), ("Characterized", "More than 10 Points"): (f < 0.1, f > 0.1, p > 10, p < 10), ("Detected", "More than 10 Points"): (d == 1, d == 0, p > 10, p < 10)}
                for (y, x), (a, na, b, nb) in cells.items():
                    got = saved.pop("%s_tE %d-%d days_%s_%s.png" % (run, lo, hi, y, x), None)
                    require(got is not None, "a comparison is missing", run, lo, hi, y, x, sorted(saved))
                    want = [str(int(np.sum(m & n))) for m in (a, na) for n in (b, nb)]
                    require(got[0][0] == want, "comparison of criteria", run, lo, hi, y, x, got[0][0], want)
        require(not saved, "other figures", sorted(saved))
        return "comparison"
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.close("all")
        matplotlib.rcdefaults()
        matplotlib.use("Agg")
        q.__exit__(None, None, None)
        shutil.rmtree(root, True)


def arms():
    return [Arm("gather", gather_st, gather, quick=60, thorough=3000, rule="1-4 directories of results; non-trivial: always"),
            Arm("choose", choose_st, choose, quick=150, thorough=6000, rule="runs, families, metrics and subsets asked for; non-trivial: both runs and metrics"),
            Arm("download", down_st, download, quick=60, thorough=2000, rule="runs of families; non-trivial: always"),
            Arm("normalise", norm_st, normalise, quick=300, thorough=10000, rule="tables of 1-6 runs and metrics; non-trivial: several metrics"),
            Arm("figures", norm_st, figures, quick=30, thorough=1000, rule="tables of 1-6 runs and metrics; non-trivial: a metric is drawn"),
            Arm("micro", ml_st, micro, quick=60, thorough=1000, rule="1-12 events"),
            Arm("fom", fom_st, fom, quick=5, thorough=200, rule="1-2 runs, 1-2 ranges of time scale, files on disk")]
