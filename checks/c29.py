"""C29: choosing and loading simulations: pre-night index, latest matching simulation, its visits and statistics;
night spans, overheads and scheduler snapshots of the pre-night tools."""

import datetime
import os
import pickle
import shutil
import sqlite3
import tempfile
import types
import warnings
import weakref
from uuid import UUID, uuid4

import click.testing
import numpy as np
import pandas as pd
from astropy.time import Time
from hypothesis import strategies as st

from rubin_sim.maf.stackers import DayObsISOStacker, DayObsStacker
from rubin_sim.sim_archive import make_snapshot, prenight, prenightindex, sim_archive, vseqarchive, vseqmetadata
from vp import pg
from vp.core import Arm, require

ASSUMPTIONS = ["a real PostgreSQL 16 server; the index bucket is a scratch directory", "night times come from a stand-in almanac (the real one's data files are not here)"]
BUDGET = {"quick": 100, "thorough": 3000}
UTC = datetime.timezone.utc
D0 = datetime.date(2026, 5, 1)
MJD0 = (D0 - datetime.date(1858, 11, 17)).days
TEL = ["simonyi", "auxtel"]


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_night_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def day(k, form=0):
    d = D0 + datetime.timedelta(days=int(k))
    return [d, d.isoformat(), int(d.strftime("%Y%m%d")), d.strftime("%Y%m%d")][form]


def visits(nights, per, seed):
    rng = np.random.RandomState(seed)
    mjd = np.sort(np.concatenate([MJD0 + k + 0.5 + np.sort(rng.randint(0, 4096, per[k % len(per)])) / 4096.0 for k in nights] + [np.zeros(0)]))
    n = len(mjd)
    return pd.DataFrame({"observationId": np.arange(n), "observationStartMJD": mjd, "fieldRA": rng.randint(0, 3600, n) / 10.0, "fieldDec": -rng.randint(0, 90, n) / 1.0, "altitude": rng.randint(200, 900, n) / 10.0, "azimuth": rng.randint(0, 3600, n) / 10.0, "band": ["r"] * n, "night": np.floor(mjd - 0.5 - MJD0).astype(int) + 7,
                         "rotSkyPos": np.zeros(n), "visitExposureTime": np.full(n, 30.0), "target_name": [f"t{i % 3}" for i in range(n)]})


def use_server():
    """Point the module's default connection at the scratch server, as a site's configuration would."""
    s = pg.dsn()
    os.environ.update(VSARCHIVE_PGDATABASE=s["database"], VSARCHIVE_PGHOST=s["host"], VSARCHIVE_PGUSER=s["user"], VSARCHIVE_PGPORT=str(s["port"]), VSARCHIVE_PGSCHEMA=pg.schema(), LSST_DISABLE_BUCKET_VALIDATION="1")
    vseqmetadata.VSARCHIVE_PGSCHEMA = pg.schema()


class Closing:
    """Archive objects the code under test opens are closed after each case (their pools would pile up)."""

    def __enter__(self):
        self.made = []
        self.orig = vseqmetadata.VisitSequenceArchiveMetadata.__init__

        def init(obj, *a, **k):
            self.orig(obj, *a, **k)
            self.made.append(weakref.ref(obj))

        vseqmetadata.VisitSequenceArchiveMetadata.__init__ = init
        return self

    def __exit__(self, *a):
        vseqmetadata.VisitSequenceArchiveMetadata.__init__ = self.orig
        for r in self.made:
            m = r()
            if m is not None:
                pg.close(m)


@st.composite
def sims_case(draw):
    a = draw(st.integers(0, 3))
    tags = draw(st.sampled_from([None, None, ["ideal"], []]))
    tel = draw(st.sampled_from(TEL))
    sims = []
    for _ in range(draw(st.integers(1, 6))):
        s = {"first": draw(st.integers(0, 3)), "len": draw(st.integers(0, 4)), "tel": draw(st.sampled_from(TEL)), "tags": draw(st.lists(st.sampled_from(["ideal", "nominal", "anomalous"]), max_size=3, unique=True)), "age": draw(st.sampled_from([0, 0, 1, 2, 3, 5])) + draw(st.sampled_from([0.05, 0.3, 0.6, 0.9])), "pre": draw(st.integers(0, 5)) > 0,
             "per": draw(st.lists(st.integers(0, 4), min_size=1, max_size=3)), "seed": draw(st.integers(0, 99)), "stats": draw(st.booleans()), "file": draw(st.sampled_from([".h5", ".h5", ".db"])), "env": draw(st.booleans()), "parent": draw(st.booleans())}
        if draw(st.booleans()):
            s["first"], s["len"], s["tel"] = max(0, a - draw(st.integers(0, 2))), draw(st.integers(2, 5)), tel
        if draw(st.booleans()):
            s["tags"] = ["nominal", "ideal"]
        sims.append(s)
    return {"sims": sims, "day": a, "last": a + draw(st.sampled_from([0, 0, 0, 1, 2])), "tags": tags, "tel": tel, "age": draw(st.sampled_from([None, 1, 2, 3, 9])), "from": draw(st.sampled_from(["db", "db", "bucket"])), "form": draw(st.integers(0, 3)), "nofile": draw(st.booleans()), "stackers": draw(st.sampled_from(["none", "none", "iso", "other", "tuple"]))}


def build(a, case, d):
    now = datetime.datetime.now(UTC)
    base = "file://" + d + "/archive/"
    sims = []
    for k, s in enumerate(case["sims"]):
        df = visits(range(s["first"], s["first"] + s["len"] + 1), s["per"], s["seed"])
        c = now - datetime.timedelta(days=s["age"], seconds=k)
        kw = {"parent_visitseq_uuid": uuid4(), "parent_last_day_obs": day(0)} if s["parent"] else {}
        if s["env"]:
            kw["conda_env_sha256"] = b"\x01" * 32
        u = a.record_simulation_metadata(df, f"sim {k}", telescope=s["tel"], first_day_obs=day(s["first"]), last_day_obs=day(s["first"] + s["len"]), creation_time=Time(c.replace(tzinfo=None)), **kw)
        a.tag(u, *(s["tags"] + (["prenight"] if s["pre"] else [])))
        p = os.path.join(d, f"v{k}.h5")
        df.to_hdf(p, key="observations")
        vseqarchive.add_file(a, u, p, "visits", base)
        if s["file"] == ".db":
            p = os.path.join(d, f"v{k}.db")
            con = sqlite3.connect(p)
            df.to_sql("observations", con, index=False)
            con.close()
            a.set_visitseq_url(u, "file://" + p)
        if s["stats"] and len(df):
            a.insert_nightly_stats(u, vseqarchive.compute_nightly_stats(df))
        sims.append({"u": u, "c": c, "df": df, "k": k, **s})
    return sims


def make_index(case, d, days):
    for k in days:
        for t in TEL:
            if t == "auxtel" and case["nofile"] and not any(s["tel"] == t and s["pre"] for s in case["sims"]):
                continue
            s = pg.dsn()
            r = click.testing.CliRunner().invoke(vseqarchive.vseqarchive, ["--database", s["database"], "--host", s["host"], "--user", s["user"], "--schema", pg.schema(), "make-prenight-index", day(k, 1), t, "--destination", "file://" + d + "/index/"])
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                raise r.exception


def sims_test(case):
    warnings.simplefilter("ignore")
    a = pg.archive()
    use_server()
    lab = None
    try:
        with scratch() as d, Closing():
            sims = build(a, case, d)
            k0, k1 = case["day"], case["last"]
            bucket = case["from"] == "bucket"
            kw = {"schema": pg.schema()}
            if bucket:
                make_index(case, d, sorted({k0, k1}))
                kw = {"host": os.path.join(d, "nowhere"), "prenight_index_path": "file://" + d + "/index/", "schema": pg.schema()}
            # the index of a night
            for t in TEL:
                idx = prenightindex.get_prenight_index(day(k0, min(case["form"], 2)), t, **kw)
                want = {str(s["u"]): s for s in sims if s["pre"] and s["tel"] == t and s["first"] <= k0 <= s["first"] + s["len"]}
                require({str(x) for x in idx.index} == set(want) and len(idx) == len(want), "simulations in the index of the night", list(idx.index), [s["k"] for s in want.values()])
                for u, r in zip([str(x) for x in idx.index], idx.itertuples()):
                    s = want[u]
                    require(r.visitseq_label == f"sim {s['k']}" and sorted(r.tags) == sorted(s["tags"] + ["prenight"]) and r.telescope == t, "entry of the index", r)
                    require(str(r.first_day_obs)[:10] == day(s["first"], 1) and str(r.last_day_obs)[:10] == day(s["first"] + s["len"], 1), "nights in the index", r.first_day_obs)
                    require(abs((pd.Timestamp(r.creation_time) - pd.Timestamp(s["c"])).total_seconds()) < 0.01, "creation time in the index", r.creation_time, s["c"])
            # look-up by number and by identifier
            by = {}
            for s in sorted(sims, key=lambda x: x["c"]):
                by.setdefault((s["c"] - datetime.timedelta(hours=12)).date(), []).append(s)
            for cd, ss in by.items():
                for i, s in enumerate(ss):
                    if s["pre"] and s["first"] <= k0 <= s["first"] + s["len"]:
                        g = prenightindex.get_sim_uuid(cd, i + 1 if i % 2 else str(i + 1), day(k0, case["form"]), **kw)
                        require(g == s["u"], "simulation of that number", g, s["u"])
                        m = prenightindex.get_sim_metadata(s["u"] if i % 2 else str(s["u"]), day(k0, case["form"]), **kw)
                        require(m["visitseq_label"] == f"sim {s['k']}" and m["visitseq_uuid"] == s["u"] and m["telescope"] == s["tel"], "metadata of a simulation", m)
                    else:
                        for f in (lambda: prenightindex.get_sim_uuid(cd, i + 1, day(k0, case["form"]), **kw), lambda: prenightindex.get_sim_metadata(s["u"], day(k0, case["form"]), **kw)):
                            try:
                                f()
                            except ValueError:
                                pass
                            else:
                                require(False, "found a simulation that does not cover the night", s["k"])
                    if not bucket:
                        require(prenightindex.get_sim_uuid(cd, i + 1, vsmd=a) == s["u"], "simulation of that number")
            # latest matching one
            tags = ("ideal", "nominal") if case["tags"] is None else tuple(case["tags"])
            age = 2 if case["age"] is None else case["age"]
            fkw = {"telescope": case["tel"], "get_prenight_index_kwargs": kw}
            if case["tags"] is not None:
                fkw["tags"] = tags
            if case["age"] is not None:
                fkw["max_simulation_age"] = age
            fit = [s for s in sims if s["pre"] and s["tel"] == case["tel"] and set(tags) <= set(s["tags"]) and all(s["first"] <= k <= s["first"] + s["len"] for k in (k0, k1)) and int(s["age"]) <= age]
            best = max(fit, key=lambda s: s["c"]) if fit else None
            args = (day(k0, 1),) if k0 == k1 else (day(k0, 1), day(k1, 1))
            try:
                got = sim_archive.find_latest_prenight_sim_for_nights(*args, **fkw)
                require(best is not None and str(got["visitseq_uuid"]) == str(best["u"]), "latest matching simulation", got["visitseq_label"], best and best["k"])
            except sim_archive.NoMatchingSimulationsFoundError:
                require(best is None, "no simulation found", best and best["k"])
            # its visits
            for which in ["dict"] + (["url"] if best else []):
                w = fkw if which == "dict" else a.get_visitseq_url(best["u"])
                stk = {"none": [], "iso": [DayObsISOStacker()], "other": [DayObsStacker()], "tuple": (DayObsISOStacker(),)}[case["stackers"]]
                keep = list(stk)
                sargs = {"stackers": stk} if case["stackers"] != "none" else {}
                if case["form"] % 2 and isinstance(stk, list):
                    # the stackers given with the other arguments for reading the file
                    sargs = {"get_sim_data_kwargs": {"stackers": stk} if stk else {}}
                if best is not None and not len(best["df"]):
                    continue
                try:
                    v = sim_archive.fetch_sim_for_nights(*args, which_sim=w, **sargs)
                except sim_archive.NoMatchingSimulationsFoundError:
                    require(best is None, "no simulation found for visits")
                    continue
                require(best is not None, "visits although nothing matches")
                require(list(stk) == keep, "the caller's list of stackers was changed", len(stk))
                if "get_sim_data_kwargs" in sargs:
                    require(sargs["get_sim_data_kwargs"] == ({"stackers": stk} if stk else {}), "the caller's arguments were changed", sargs)
                x = best["df"]
                sel = x[(x.observationStartMJD >= MJD0 + k0 + 0.5) & (x.observationStartMJD < MJD0 + k1 + 1.5)]
                require(list(v.observationId) == list(sel.observationId) and list(v.observationStartMJD) == list(sel.observationStartMJD), "visits of the nights", list(v.observationId), list(sel.observationId))
                require(("day_obs_iso8601" in v.columns) == (case["stackers"] in ("iso", "tuple")), "columns of the visits", list(v.columns))
                if case["stackers"] == "other":
                    require("dayObs" in v.columns, "columns of the visits", list(v.columns))
                lab = "visits" if len(sel) else "no visits"
            # and the statistics of the night
            if k0 == k1:
                fit0 = [s for s in fit]
                skw = dict(kw, telescope=case["tel"])
                for n in ("tags", "max_simulation_age"):
                    if n in fkw:
                        skw[n] = fkw[n]
                if best is None or (best["file"] == ".h5" and len(best["df"])):
                    try:
                        stt = sim_archive.fetch_sim_stats_for_night(day(k0, min(case["form"], 2)), **skw)
                        require(fit0, "statistics although nothing matches")
                        x = best["df"]
                        sel = x[(x.observationStartMJD >= MJD0 + k0 + 0.5) & (x.observationStartMJD < MJD0 + k0 + 1.5)]
                        require(stt["nominal_visits"] == len(sel), "number of visits of the night", stt["nominal_visits"], len(sel))
                        if len(sel):
                            require(abs(stt["altitude"]["mean"] - sel.altitude.mean()) < 1e-9 and stt["altitude"]["count"] == len(sel) and abs(stt["azimuth"]["max"] - sel.azimuth.max()) < 1e-9, "statistics of the night", stt)
                            lab = "stats"
                    except sim_archive.NoMatchingSimulationsFoundError:
                        require(best is None, "no simulation found for statistics")
    finally:
        pg.close(a)
    return (lab or ("none" if best is None else "found")) + ("/bucket" if bucket else "") if len(case["sims"]) > 1 else None


# ------------------------------------------------------------------ choosing from a table
@st.composite
def latest_case(draw):
    n = draw(st.integers(0, 7))
    return {"rows": [{"age": draw(st.integers(0, 6)) + draw(st.sampled_from([0.0, 0.1, 0.5, 0.99])), "tags": draw(st.lists(st.sampled_from(["ideal", "nominal", "x", "prenight"]), max_size=4, unique=True))} for _ in range(n)], "tags": draw(st.sampled_from([None, ["ideal"], [], ["x", "ideal"]])), "age": draw(st.sampled_from([None, 0, 1, 4, 10]))}


def latest_test(case):
    now = pd.Timestamp.now(tz="UTC")
    rows = [{"visitseq_uuid": str(i), "creation_time": now - pd.Timedelta(days=r["age"]) - pd.Timedelta(milliseconds=i), "tags": r["tags"], "visitseq_url": f"u{i}"} for i, r in enumerate(case["rows"])]
    df = pd.DataFrame(rows, columns=["visitseq_uuid", "creation_time", "tags", "visitseq_url"]).set_index("visitseq_uuid")
    kw = {}
    if case["tags"] is not None:
        kw["tags"] = tuple(case["tags"])
    if case["age"] is not None:
        kw["max_simulation_age"] = case["age"]
    tags, age = set(kw.get("tags", ("ideal", "nominal"))), kw.get("max_simulation_age", 2)
    fit = [i for i, r in enumerate(case["rows"]) if tags <= set(r["tags"]) and int(r["age"] + 1e-6) <= age]
    got = prenightindex.select_latest_prenight_sim(df, **kw)
    if not fit:
        require(got is None, "nothing fits", got)
        return "none" if case["rows"] else None
    best = max(fit, key=lambda i: rows[i]["creation_time"])
    require(got is not None and got["visitseq_uuid"] == str(best), "latest", got, best)
    return "several" if len(fit) > 1 else "one"


# ------------------------------------------------------------------ span of a pre-night simulation
@st.composite
def span_case(draw):
    return {"start": draw(st.integers(58000, 62000)), "n": draw(st.integers(3, 40)), "day": draw(st.integers(0, 39)), "nights": draw(st.integers(1, 6)), "delay": draw(st.sampled_from([0, 0, 10, 90.5])), "phase": draw(st.integers(0, 20)) / 100, "form": draw(st.integers(0, 1))}


def span_test(case):
    n = max(case["n"], case["nights"])
    d = case["day"] % (n - case["nights"] + 1)
    k = np.arange(n)
    wob = 0.01 * np.sin(k / 5)
    s = np.zeros(n, dtype=[("night", int), ("sunset", float), ("sun_n12_setting", float), ("sunrise", float)])
    s["night"] = k
    s["sunset"] = case["start"] + k + 0.85 + case["phase"] + wob
    s["sun_n12_setting"] = s["sunset"] + 0.05
    s["sunrise"] = s["sunset"] + 0.45 - wob
    orig = prenight.Almanac
    prenight.Almanac = lambda *a, **k: types.SimpleNamespace(sunsets=s)
    try:
        base = int(np.floor(s["sunset"][0] - 0.5))
        date = datetime.date(1858, 11, 17) + datetime.timedelta(days=base + d)
        start, dur = prenight.compute_sim_start_and_end(int(date.strftime("%Y%m%d")) if case["form"] == 0 else date, case["nights"], case["delay"])
    finally:
        prenight.Almanac = orig
    # the evening whose date (12 hours behind UTC) is the one asked for
    i = [j for j in range(n) if int(np.floor(s["sunset"][j] - 0.5)) == base + d][0]
    require(abs(start - s["sun_n12_setting"][i] - case["delay"] / 1440) < 1e-9, "start of the simulation", start, s["sun_n12_setting"][i])
    require(abs(start + dur - s["sunrise"][i + case["nights"] - 1]) < 1e-9, "end of the simulation", start + dur)
    return "several nights" if case["nights"] > 1 else "one night"


# ------------------------------------------------------------------ overheads
@st.composite
def over_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from([0.0, 0.1, 0.5, 3.0])), "loc": draw(st.sampled_from([0.0, 0.1, 1.0])), "min": draw(st.sampled_from([0.0, 0.0, 2.0, 10.0])), "scatter": draw(st.sampled_from([None, 0.0, 1.0, 30.0])), "dist": draw(st.sampled_from([None, None, "normal"])), "obs": draw(st.lists(st.tuples(st.integers(0, 600), st.integers(0, 40), st.integers(0, 60)), min_size=1, max_size=6))}


def over_test(case):
    warnings.simplefilter("ignore")
    kw = {"seed": case["seed"], "slew_scale": case["scale"], "slew_loc": case["loc"], "min_overhead": case["min"]}
    if case["scatter"] is not None:
        kw["scatter_kwargs"] = {"scale": case["scatter"]}
    if case["dist"]:
        kw["scatter_distribution"] = case["dist"]
        kw.setdefault("scatter_kwargs", {"scale": 0.0})
    keep = dict(kw.get("scatter_kwargs", {}))
    f, g = prenight.AnomalousOverheadFunc(**kw), prenight.AnomalousOverheadFunc(**kw)
    clipped = False
    for slew, extra, exp in case["obs"]:
        o = {"slewtime": slew / 4, "visittime": exp + extra / 4, "exptime": float(exp)}
        x, y = float(f(obs=o)), float(g(obs=dict(o)))
        require(x == y, "same seed, different overheads", x, y)
        model = o["slewtime"] + o["visittime"] - o["exptime"]
        require(model + x >= case["min"] - 1e-9, "overhead below the minimum", model, x)
        if abs(model + x - case["min"]) < 1e-9:
            clipped = True
        if case["scale"] == 0 and case["loc"] == 0 and not case["scatter"] and model >= case["min"]:
            require(x == 0, "no anomaly asked for", x)
        if case["scale"] == 0 and not case["scatter"] and model + case["loc"] * o["slewtime"] >= case["min"]:
            require(abs(x - case["loc"] * o["slewtime"]) < 1e-9, "shift of the slew time", x)
        if case["scale"] == 0 and case["dist"] is None:
            require(x >= -1e-9 or model + x >= case["min"] - 1e-9, "half-normal scatter is not negative", x)
    require(kw.get("scatter_kwargs", {}) == keep, "the caller's arguments were changed")
    return "clipped" if clipped else "free"


# ------------------------------------------------------------------ snapshots
SCRIPT = {
    "variable": "import numpy as np\nfrom rubin_scheduler.scheduler.schedulers.core_scheduler import CoreScheduler\nscheduler = CoreScheduler([[]], nside={nside})\nscheduler.note = {mark}\n",
    "function": "import numpy as np\nfrom rubin_scheduler.scheduler.schedulers.core_scheduler import CoreScheduler\ndef get_scheduler():\n    s = CoreScheduler([[]], nside={nside})\n    s.note = {mark}\n    return {nside}, s\n",
}


@st.composite
def snap_case(draw):
    return {"kind": draw(st.sampled_from(["variable", "function"])), "nside": draw(st.sampled_from([8, 16, 32])), "mark": draw(st.integers(0, 99)), "ext": draw(st.sampled_from([".p", ".pickle", ".pickle.xz", ".p.gz", ".p.bz2"])), "repo": draw(st.sampled_from([None, None, None, "branch"])), "cli": draw(st.booleans())}


def snap_test(case):
    import bz2
    import gzip
    import lzma
    import subprocess

    warnings.simplefilter("ignore")
    with scratch() as d:
        conf = os.path.join(d, "repo" if case["repo"] else "conf", "sub")
        os.makedirs(conf)
        path = os.path.join(conf, "make_scheduler.py")
        open(path, "w").write(SCRIPT[case["kind"]].format(nside=case["nside"], mark=case["mark"]))
        kw = {"config_script": path}
        if case["repo"]:
            root = os.path.dirname(conf)
            env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
            for c in (["init", "-q", "-b", "main"], ["add", "."], ["commit", "-q", "-m", "x"], ["branch", "mine"]):
                subprocess.run(["git", *c], cwd=root, env=env, check=True, stdout=subprocess.DEVNULL)
            open(path, "w").write("raise ValueError('not this version')\n")
            subprocess.run(["git", "commit", "-qam", "y"], cwd=root, env=env, check=True)
            kw = {"config_repo": root, "config_script": "sub/make_scheduler.py", "config_ref": "mine"}
        out = os.path.join(d, "s" + case["ext"])
        if case["cli"]:
            args = ["--scheduler_fname", out, "--script", kw["config_script"]] + (["--repo", kw["config_repo"], "--ref", "mine"] if case["repo"] else [])
            make_snapshot.make_scheduler_snapshot_cli(args)
        else:
            s = make_snapshot.get_scheduler(**kw)
            require(s.note == case["mark"] and s.nside == case["nside"], "scheduler of the configuration", s.note)
            make_snapshot.save_scheduler(s, out)
        op = {".xz": lzma.open, ".gz": gzip.open, ".bz2": bz2.open}.get(os.path.splitext(out)[1], open)
        with op(out, "rb") as f:
            back = pickle.load(f)
        require(back.note == case["mark"] and back.nside == case["nside"], "scheduler in the snapshot", back.note)
    return case["kind"] + ("/repo" if case["repo"] else "")


def arms():
    pg.start()
    return [
        Arm("choose", sims_case(), sims_test, quick=40, thorough=2000, rule="at least two simulations in the archive"),
        Arm("choose2", sims_case(), sims_test, quick=40, thorough=2000, rule="as choose, another worker"),
        Arm("choose3", sims_case(), sims_test, quick=40, thorough=2000, rule="as choose, another worker"),
        Arm("choose4", sims_case(), sims_test, quick=40, thorough=2000, rule="as choose, another worker"),
        Arm("latest", latest_case(), latest_test, quick=300, thorough=8000, rule="at least one row"),
        Arm("span", span_case(), span_test, quick=300, thorough=8000, rule="every case"),
        Arm("overhead", over_case(), over_test, quick=250, thorough=8000, rule="every case"),
        Arm("snapshot", snap_case(), snap_test, quick=40, thorough=1000, rule="every case"),
    ]


def teardown():
    pg.stop()
