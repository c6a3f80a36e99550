"""C28: archived files come back as they went in: database/HDF5 conversion, archiving with hashes, visits, nightly
statistics, transfers to and from the directory archive."""

import datetime
import hashlib
import os
import shutil
import sqlite3
import tempfile
import warnings
from uuid import UUID

import click.testing
import numpy as np
import pandas as pd
import yaml
from astropy.time import Time
from hypothesis import strategies as st
from lsst.resources import ResourcePath
from rubin_scheduler.scheduler.utils import ObservationArray, SchemaConverter

from rubin_sim.maf.stackers import DayObsISOStacker
from rubin_sim.sim_archive import prototype, vseqarchive
from rubin_sim.sim_archive.util import dayobs_to_date, hdf5_to_opsimdb, opsimdb_to_hdf5
from vp import pg
from vp.core import Arm, require

ASSUMPTIONS = ["archives are directories under a scratch directory, addressed by file URLs", "files of different types have different names within one visit sequence"]
BUDGET = {"quick": 100, "thorough": 3000}
UTC = datetime.timezone.utc


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_arch_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def nul(x):
    if x is None or x is pd.NaT or (isinstance(x, float) and np.isnan(x)):
        return None
    return x.item() if isinstance(x, np.generic) else x


# ------------------------------------------------------------------ sqlite <-> hdf5
vals = {"INTEGER": st.integers(-2 ** 40, 2 ** 40), "REAL": st.one_of(st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 64), st.floats(-1e6, 1e6, allow_nan=False)), "TEXT": st.sampled_from(["", "r", "blob_long, gr", "o'x", "星", "a\tb", "None", "nan", "1"])}


@st.composite
def convert_case(draw):
    tables = []
    for name in draw(st.lists(st.sampled_from(["observations", "info", "config", "Proposal2"]), min_size=1, max_size=3, unique=True)):
        cols = draw(st.lists(st.tuples(st.sampled_from(["observationId", "fieldRA", "band", "note", "night", "t_eff", "block"]), st.sampled_from(["INTEGER", "REAL", "TEXT"])), min_size=1, max_size=4, unique_by=lambda c: c[0]))
        n = draw(st.integers(0, 4))
        rows = [[draw(st.one_of(vals[t], vals[t], vals[t], st.none())) if k else draw(vals[t]) for k, (_, t) in enumerate(cols)] for _ in range(n)]
        tables.append({"name": name, "cols": cols, "rows": rows})
    return {"tables": tables, "named": draw(st.booleans()), "stale": draw(st.booleans()), "ext": draw(st.sampled_from([".db", ".sqlite3", ""]))}


def write_db(path, tables):
    c = sqlite3.connect(path)
    for t in tables:
        c.execute(f'CREATE TABLE {t["name"]} ({", ".join(f"{n} {k}" for n, k in t["cols"])})')
        c.executemany(f'INSERT INTO {t["name"]} VALUES ({",".join("?" * len(t["cols"]))})', t["rows"])
    c.commit()
    c.close()


def read_db(path):
    c = sqlite3.connect(path)
    out = {}
    for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
        cur = c.execute(f"SELECT * FROM {t}")
        out[t] = ([d[0] for d in cur.description], [list(r) for r in cur.fetchall()])
    c.close()
    return out


def convert_test(case):
    warnings.simplefilter("ignore")
    with scratch() as d:
        db = os.path.join(d, "run" + case["ext"])
        write_db(db, case["tables"])
        before = open(db, "rb").read()
        h5 = os.path.join(d, "other.h5") if case["named"] else os.path.join(d, "run.h5")
        if case["stale"]:
            pd.DataFrame({"x": [1]}).to_hdf(h5, key="leftover")
        got = opsimdb_to_hdf5(db, h5) if case["named"] else opsimdb_to_hdf5(db)
        require(got == h5 and os.path.exists(h5), "path of the converted file", got)
        require(open(db, "rb").read() == before, "the source was changed")
        want = {t["name"]: ([c for c, _ in t["cols"]], t["rows"]) for t in case["tables"]}
        with pd.HDFStore(h5, "r") as s:
            require({k.lstrip("/") for k in s.keys()} == set(want), "tables in the HDF5 file", s.keys())
        for name, (cols, rows) in want.items():
            df = pd.read_hdf(h5, name)
            require(list(df.columns) == cols and len(df) == len(rows), "table", name, list(df.columns), len(df))
            for i, r in enumerate(rows):
                for j, c in enumerate(cols):
                    require(nul(df[c].iloc[i]) == r[j], "value in the HDF5 file", name, c, df[c].iloc[i], r[j])
        back = os.path.join(d, "back.db") if case["named"] else h5.replace(".h5", ".db")
        if not case["named"] and os.path.exists(back):
            os.remove(back)
        got = hdf5_to_opsimdb(h5, back) if case["named"] else hdf5_to_opsimdb(h5)
        require(got == back, "path of the restored database", got)
        res = read_db(back)
        require(set(res) == set(want), "tables restored", list(res))
        for name, (cols, rows) in want.items():
            require(res[name][0] == cols and res[name][1] == rows, "table restored", name, res[name], rows)
    return "several" if len(case["tables"]) > 1 else "one" if case["tables"][0]["rows"] else None


# ------------------------------------------------------------------ archiving files
def visits(n, seed, nights=2, opsim=True):
    rng = np.random.RandomState(seed)
    mjd = np.sort(61375.5 + rng.randint(0, 4096 * nights, n) / 4096.0)
    return pd.DataFrame({"observationId": np.arange(n), "observationStartMJD" if opsim else "obs_start_mjd": mjd, "fieldRA": rng.randint(0, 3600, n) / 10.0, "altitude": rng.randint(200, 900, n) / 10.0, "azimuth": rng.randint(0, 3600, n) / 10.0, "band": [["u", "g", "rr"][i] for i in rng.randint(0, 3, n)], "night": np.floor(mjd - 61375.5).astype(int)})


def to_db(df, path):
    c = sqlite3.connect(path)
    df.to_sql("observations", c, index=False)
    c.close()


@st.composite
def files_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        ops.append({"sim": draw(st.integers(0, 1)), "type": draw(st.sampled_from(["rewards", "rewards", "scheduler", "visits", "visits"])), "content": draw(st.binary(max_size=20)).hex(), "update": draw(st.booleans()), "fmt": draw(st.sampled_from([".db", ".h5", ".sqlite3", ".DB"])), "n": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 50)), "rename": draw(st.integers(0, 4)) == 0,
                    "via": draw(st.sampled_from(["api", "api", "cli"]))})
    return {"ops": ops, "tel": [draw(st.sampled_from(["simonyi", "auxtel"])), draw(st.sampled_from(["simonyi", "auxtel"]))], "hour": [draw(st.integers(0, 47)), draw(st.integers(0, 47))], "str": draw(st.booleans())}


def cli(a, *args):
    r = click.testing.CliRunner().invoke(vseqarchive.vseqarchive, ["--database", pg.dsn()["database"], "--host", pg.dsn()["host"], "--user", pg.dsn()["user"], "--schema", pg.schema(), *args])
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    require(r.exit_code == 0, "command line", r.output)
    return r.output


def frame_equal(a, b):
    a, b = a.reset_index(drop=True), b.reset_index(drop=True)
    return list(a.columns) == list(b.columns) and len(a) == len(b) and all(nul(x) == nul(y) for c in a.columns for x, y in zip(a[c], b[c]))


def files_test(case):
    warnings.simplefilter("ignore")
    os.environ["VSARCHIVE_PGPORT"] = str(pg.dsn()["port"])
    a = pg.archive()
    lab = set()
    try:
        with scratch() as d:
            base = "file://" + d + "/archive/"
            us, created = [], []
            for k in (0, 1):
                c = datetime.datetime(2026, 3, 4, tzinfo=UTC) + datetime.timedelta(hours=case["hour"][k], minutes=7)
                us.append(a.record_simulation_metadata(visits(2, 0), f"s{k}", telescope=case["tel"][k], creation_time=Time(c.replace(tzinfo=None))))
                created.append(c)
            model = {}
            for i, o in enumerate(case["ops"]):
                u, t = us[o["sim"]], o["type"]
                key = (o["sim"], t)
                src = os.path.join(d, f"in{i}")
                os.mkdir(src)
                if t == "visits":
                    df = visits(o["n"], o["seed"])
                    path = os.path.join(src, "mine" + o["fmt"])
                    to_db(df, path) if o["fmt"] != ".h5" else df.to_hdf(path, key="observations")
                    content = df
                else:
                    content = bytes.fromhex(o["content"])
                    path = os.path.join(src, t + ("2" if o["rename"] else "") + ".bin")
                    open(path, "wb").write(content)
                orig = open(path, "rb").read()
                try:
                    if o["via"] == "api":
                        loc = vseqarchive.add_file(a, u, path, t, base if case["str"] else ResourcePath(base), update=o["update"])
                        url = loc.geturl()
                    else:
                        url = cli(a, "archive-file", str(u), path, t, "--archive-base", base, *(["--update"] if o["update"] else [])).strip()
                    require(t == "visits" or key not in model or o["update"], "a second file of the same type was accepted without update")
                    model[key] = (url, content)
                    day = (created[o["sim"]] - datetime.timedelta(hours=12)).date().isoformat()
                    require(os.path.dirname(ResourcePath(url).ospath) == os.path.join(d, "archive", case["tel"][o["sim"]], day, str(u)), "place in the archive", url)
                    lab.add("add" if t != "visits" else "visits")
                except ValueError:
                    require(t != "visits" and key in model and not o["update"], "refused", o)
                    lab.add("refused")
                require(open(path, "rb").read() == orig, "the source file changed")
                # everything archived so far is intact
                for (k, t2), (url, content) in model.items():
                    uu = us[k]
                    require(a.get_file_url(uu, t2) == url, "recorded url", t2, a.get_file_url(uu, t2), url)
                    if t2 == "visits":
                        require(frame_equal(vseqarchive.get_visits(url), content), "archived visits", t2)
                    else:
                        require(ResourcePath(url).read() == content, "archived content changed", t2, o)
                        require(a.get_file_sha256(uu, t2) == hashlib.sha256(content).digest(), "hash of the archived file")
            for (k, t2), (url, content) in model.items():
                if t2 == "visits":
                    p = os.path.join(d, f"out{k}.db")
                    cli(a, "get-file", str(us[k]), "visits", p)
                    cols, rows = read_db(p)["observations"]
                    require(frame_equal(pd.DataFrame(rows, columns=cols), content), "visits through the command line")
                    p = os.path.join(d, f"out{k}.h5")
                    cli(a, "get-file", str(us[k]), "visits", p)
                    require(frame_equal(pd.read_hdf(p, "observations"), content), "visits through the command line")
                else:
                    p = os.path.join(d, f"out{k}{t2}")
                    cli(a, "get-file", str(us[k]), t2, p)
                    require(open(p, "rb").read() == content, "file through the command line")
    finally:
        pg.close(a)
        os.environ.pop("VSARCHIVE_PGPORT", None)
    return "+".join(sorted(lab)) if len(lab) > 1 else None


# ------------------------------------------------------------------ reading visits
@st.composite
def visits_case(draw):
    return {"n": draw(st.integers(0, 9)), "seed": draw(st.integers(0, 99)), "query": draw(st.sampled_from(["", "", "altitude > 50", "band == 'u'", "band != 'g' and azimuth < 180"])), "stack": draw(st.booleans()), "shift": draw(st.integers(0, 3))}


def visits_test(case):
    warnings.simplefilter("ignore")
    df = visits(case["n"], case["seed"], nights=3)
    with scratch() as d:
        p = os.path.join(d, "v.h5")
        df.to_hdf(p, key="observations")
        want = df
        if case["query"]:
            keep = {"altitude > 50": df.altitude > 50, "band == 'u'": df.band == "u"}.get(case["query"], (df.band != "g") & (df.azimuth < 180))
            want = df[keep]
        stack = case["stack"] and len(want) > 0
        got = vseqarchive.get_visits("file://" + p, query=case["query"], stackers=[DayObsISOStacker()] if stack else ())
        if stack:
            iso = [Time(np.floor(m - 0.5), format="mjd").iso[:10] for m in want.observationStartMJD]
            require(list(got.day_obs_iso8601) == iso, "added column", list(got.day_obs_iso8601), iso)
            got = got.drop(columns=["day_obs_iso8601"] + (["index"] if "index" in got else []))
        require(frame_equal(got, want), "visits read", got, want)
        require(sorted(os.listdir(d)) == ["v.h5"], "left-over files")
    return ("query" if case["query"] else "all") + ("+stacker" if case["stack"] else "") if len(want) else None


# ------------------------------------------------------------------ nightly statistics
@st.composite
def stats_case(draw):
    n = draw(st.integers(1, 14))
    return {"n": n, "seed": draw(st.integers(0, 999)), "nights": draw(st.integers(1, 4)), "form": draw(st.sampled_from(["opsim", "consdb", "day_obs"])), "cols": draw(st.sampled_from([None, ["altitude"], ["fieldRA", "azimuth", "altitude"]])), "nan": draw(st.booleans())}


def stats_test(case):
    warnings.simplefilter("ignore")
    df = visits(case["n"], case["seed"], case["nights"], case["form"] != "consdb")
    mjd = df["obs_start_mjd" if case["form"] == "consdb" else "observationStartMJD"].to_numpy()
    days = [datetime.date(1858, 11, 17) + datetime.timedelta(days=int(np.floor(m - 0.5))) for m in mjd]
    if case["form"] == "day_obs":
        df["day_obs"] = [int(x.strftime("%Y%m%d")) for x in days]
        days = list(df["day_obs"])
    if case["nan"] and case["n"] > 1:
        df.loc[0, "altitude"] = np.nan
    df = df.sample(frac=1, random_state=1)
    days = [days[i] for i in df.index]
    keep = df.copy()
    got = vseqarchive.compute_nightly_stats(df, **({"columns": tuple(case["cols"])} if case["cols"] else {}))
    require(df.equals(keep), "the caller's visits were changed")
    cols = case["cols"] or ["altitude", "azimuth"]
    require(len(got) == len(set(days)) * len(cols), "number of rows", len(got))
    seen = set()
    for r in got.itertuples():
        x = df[r.value_name].to_numpy()[[d == r.day_obs for d in days]]
        x = x[~np.isnan(x)]
        require((r.day_obs, r.value_name) not in seen and r.value_name in cols and r.day_obs in days, "row", r.day_obs, r.value_name)
        seen.add((r.day_obs, r.value_name))
        require(r.count == len(x) and r.accumulated is False or r.accumulated == False and r.count == len(x), "count", r.count, len(x))  # noqa: E712
        if len(x) == 0:
            continue
        want = {"mean": x.mean(), "min": x.min(), "max": x.max(), "p05": np.percentile(x, 5), "q1": np.percentile(x, 25), "median": np.median(x), "q3": np.percentile(x, 75), "p95": np.percentile(x, 95)}
        if len(x) > 1:
            want["std"] = x.std(ddof=1)
        for k, v in want.items():
            require(np.isclose(getattr(r, k), v, rtol=1e-9, atol=1e-9), "statistic", k, getattr(r, k), v)
    return case["form"] if len(set(days)) > 1 else None


# ------------------------------------------------------------------ to and from the directory archive
@st.composite
def proto_case(draw):
    sims = []
    for _ in range(draw(st.integers(1, 3))):
        sims.append({"n": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 99)), "label": draw(st.sampled_from(["a sim", "o'sim %s", "ideal, 星", "x run at 2026-02-03T04:05:06", "run at noon"])), "tags": draw(st.lists(st.sampled_from(["ideal", "nominal", "prenight", "a b"]), max_size=3, unique=True)), "tel": draw(st.sampled_from(["simonyi", "auxtel"])),
                     "first": draw(st.integers(0, 40)), "len": draw(st.integers(0, 3)), "ver": draw(st.sampled_from([None, "3.1.1"])), "files": draw(st.lists(st.sampled_from(["rewards", "scheduler"]), max_size=2, unique=True)), "created": draw(st.integers(0, 10 ** 7)), "opsim": draw(st.integers(0, 3)) == 0, "reimport": draw(st.booleans()), "date": draw(st.booleans())})
    return {"sims": sims}


def proto_test(case):
    warnings.simplefilter("ignore")
    a = pg.archive()
    D0 = datetime.date(2026, 1, 1)
    try:
        with scratch() as d:
            os.mkdir(os.path.join(d, "proto"))
            base, proto = "file://" + d + "/archive/", "file://" + d + "/proto/"
            seen = set()
            for k, s in enumerate(case["sims"]):
                df = visits(s["n"], s["seed"])
                first, last = D0 + datetime.timedelta(days=s["first"]), D0 + datetime.timedelta(days=s["first"] + s["len"])
                c = datetime.datetime(2026, 1, 1, tzinfo=UTC) + datetime.timedelta(seconds=s["created"])
                kw = {"scheduler_version": s["ver"]} if s["ver"] else {}
                u = a.record_simulation_metadata(df, s["label"], telescope=s["tel"], first_day_obs=first, last_day_obs=last, creation_time=Time(c.replace(tzinfo=None)), **kw)
                a.tag(u, *s["tags"])
                h5 = os.path.join(d, f"v{k}.h5")
                df.to_hdf(h5, key="observations")
                vseqarchive.add_file(a, u, h5, "visits", base)
                content = {}
                for t in s["files"]:
                    p = os.path.join(d, f"{t}{k}.bin")
                    content[t] = f"{t}{k}{s['seed']}".encode()
                    open(p, "wb").write(content[t])
                    vseqarchive.add_file(a, u, p, t, base)
                if s["opsim"]:
                    p = os.path.join(d, f"o{k}.db")
                    to_db(df, p)
                    vseqarchive.add_file(a, u, p, "observations", base)
                t0 = datetime.datetime.now(UTC).date()
                rp = prototype.export_sim_to_prototype_sim_archive(a, u, proto)
                t1 = datetime.datetime.now(UTC).date()
                path = rp.ospath.rstrip("/")
                day, idx = path.split("/")[-2:]
                require(path not in seen and day in (t0.isoformat(), t1.isoformat()), "place of the exported simulation", path)
                require(int(idx) == len([x for x in seen if x.split("/")[-2] == day]) + 1, "number of the exported simulation", idx)
                seen.add(path)
                y = yaml.safe_load(open(os.path.join(path, "sim_metadata.yaml")))
                require(y["label"] == s["label"] and y["telescope"] == s["tel"] and sorted(y["tags"]) == sorted(s["tags"]), "exported metadata", y)
                cols, rows = read_db(os.path.join(path, y["files"]["observations"]["name"]))["observations"]
                require(frame_equal(pd.DataFrame(rows, columns=cols), df), "exported visits")
                for t in s["files"]:
                    require(open(os.path.join(path, y["files"][t]["name"]), "rb").read() == content[t], "exported file", t)
                if not s["reimport"]:
                    continue
                v = a.import_sim_from_prototype_sim_archive(base, datetime.date.fromisoformat(day) if s["date"] else day, int(idx) if s["date"] else idx, proto)
                require(isinstance(v, UUID) and v != u, "identifier of the imported simulation")
                m = a.get_visitseq_metadata(v, "simulations_extra")
                for f, want in {"visitseq_label": s["label"], "telescope": s["tel"], "first_day_obs": first, "last_day_obs": last, "scheduler_version": s["ver"]}.items():
                    require(nul(m[f]) == want, "imported", f, m[f], want)
                require(set(m["tags"]) == set(s["tags"]) | {"from_prototype_sim_archive"}, "imported tags", m["tags"])
                require(abs((pd.Timestamp(m["creation_time"]) - pd.Timestamp(c)).total_seconds()) < 1e-3, "creation time of the imported simulation", m["creation_time"], c)
                require(frame_equal(vseqarchive.get_visits(m["visitseq_url"]), df), "imported visits")
                require(set(m["files"]) == set(s["files"]) | {"observations", "metadata"}, "imported files", m["files"])
                for t, url in m["files"].items():
                    b = ResourcePath(url).read()
                    require(a.get_file_sha256(v, t) == hashlib.sha256(b).digest(), "hash of an imported file", t)
                    if t in content:
                        require(b == content[t], "content of an imported file", t)
                require(len(a.get_comments(v)) == 1 and day in str(a.get_comments(v).comment.iloc[0]), "comment")
    finally:
        pg.close(a)
    return "reimport" if any(s["reimport"] for s in case["sims"]) else "export"


# ------------------------------------------------------------------ a simulation directory and its transfer
@st.composite
def dir_case(draw):
    return {"n": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 99)), "rewards": draw(st.booleans()), "tags": draw(st.lists(st.sampled_from(["ideal", "b c", "星"]), max_size=2, unique=True)), "label": draw(st.sampled_from([None, "lab", "o'l %s"])), "kw": draw(st.sampled_from([{}, {"sim_duration": 2}, {"sim_start_mjd": 61375.9, "sim_duration": 3, "record_rewards": True, "note": "x"}, {"sim_start_mjd": 61375.3}])),
            "extra": draw(st.lists(st.sampled_from(["script.py", "nb.ipynb"]), max_size=2, unique=True)), "inside": draw(st.booleans()), "damage": draw(st.sampled_from([None, None, "observations", "statistics"])), "times": draw(st.integers(1, 3)), "opsim_md": draw(st.booleans()), "temp": draw(st.booleans())}


def dir_test(case):
    warnings.simplefilter("ignore")
    os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    obs = ObservationArray(n)
    obs["ID"] = np.arange(n)
    obs["mjd"] = np.sort(61375.6 + rng.randint(0, 8192, n) / 4096)
    obs["RA"] = rng.rand(n)
    obs["band"] = "r"
    with scratch() as d:
        os.mkdir(os.path.join(d, "proto"))
        path = os.path.join(d, "sim")
        os.mkdir(path)
        content = {}
        inf = {}
        for e in case["extra"]:
            p = os.path.join(path if case["inside"] else d, e)
            content[e] = (e * 3).encode()
            open(p, "wb").write(content[e])
            inf[e.split(".")[0]] = p
        kw = dict(case["kw"])
        md = {"telescope": "auxtel"} if case["opsim_md"] else None
        rew = pd.DataFrame({"r": [1.0, 2.0]}) if case["rewards"] else None
        tmp = None
        if case["temp"] and not case["inside"]:
            tmp = prototype.make_sim_archive_dir(obs, reward_df=rew, obs_rewards=rew, in_files=inf, sim_runner_kwargs=kw, tags=case["tags"], label=case["label"], opsim_metadata=md)
            path = tmp.name
        else:
            prototype.make_sim_archive_dir(obs, reward_df=rew, obs_rewards=rew, in_files=inf, sim_runner_kwargs=kw, tags=case["tags"], label=case["label"], data_path=path, opsim_metadata=md)
        try:
            y = yaml.safe_load(open(os.path.join(path, "sim_metadata.yaml")))
            for t, f in y["files"].items():
                require(hashlib.md5(open(os.path.join(path, f["name"]), "rb").read()).hexdigest() == f["md5"], "checksum", t)
            require(set(y["files"]) == {"observations", "statistics"} | set(inf) | ({"rewards"} if case["rewards"] else set()), "files", list(y["files"]))
            require(y.get("label") == case["label"] and y.get("tags", []) == case["tags"], "label and tags", y)
            day = lambda m: (datetime.date(1858, 11, 17) + datetime.timedelta(days=int(np.floor(m - 0.5)))).isoformat()  # noqa: E731
            sd = y["simulated_dates"]
            if "sim_start_mjd" in kw:
                require(sd["first"] == day(kw["sim_start_mjd"]), "first night", sd)
                if "sim_duration" in kw:
                    require(sd["last"] == day(kw["sim_start_mjd"] + kw["sim_duration"] - 1), "last night", sd)
            else:
                require(sd == {"first": day(obs["mjd"].min()), "last": day(obs["mjd"].max())}, "nights", sd)
            require(y.get("sim_runner_kwargs", {}) == kw, "arguments", y.get("sim_runner_kwargs"))
            if md:
                require(y["telescope"] == "auxtel", "given metadata")
            back = SchemaConverter().opsim2obs(os.path.join(path, "opsim.db"))
            require(len(back) == n and np.allclose(back["mjd"], obs["mjd"], rtol=0, atol=1e-9) and np.allclose(back["RA"], obs["RA"]), "observations saved")
            for k in range(case["times"]):
                rp = prototype.transfer_archive_dir(path, "file://" + d + "/proto/")
                dest = rp.ospath.rstrip("/")
                require(dest.split("/")[-1] == str(k + 1), "number of the transferred simulation", dest)
                for f in list(y["files"].values()) + [{"name": "sim_metadata.yaml"}]:
                    require(open(os.path.join(dest, f["name"]), "rb").read() == open(os.path.join(path, f["name"]), "rb").read(), "transferred file", f)
                if case["damage"]:
                    with open(os.path.join(dest, y["files"][case["damage"]]["name"]), "ab") as f:
                        f.write(b"x")
                res = prototype.check_opsim_archive_resource(rp.geturl())
                require(res == {f["name"]: t != case["damage"] for t, f in y["files"].items()}, "verification", res)
            if y.get("tags"):
                all_md = prototype.read_archived_sim_metadata("file://" + d + "/proto/", num_nights=2)
                require(len(all_md) == case["times"], "simulations found", list(all_md))
                for uri, m in all_md.items():
                    require(m["files"] == y["files"] and m["simulated_dates"] == sd and m["tags"] == y["tags"], "metadata found", m)
                    if case["label"]:
                        require(m["label"].endswith(" " + case["label"]), "label", m["label"])
        finally:
            if tmp is not None:
                tmp.cleanup()
    return "damage" if case["damage"] else "intact"


# ------------------------------------------------------------------ days of observation
@st.composite
def day_case(draw):
    return {"k": draw(st.integers(0, 40000)), "sec": draw(st.one_of(st.integers(0, 86399), st.sampled_from([0, 43199, 43200, 43201, 86399]))), "scale": draw(st.sampled_from(["utc", "tai"])), "arr": draw(st.booleans())}


def day_test(case):
    d = datetime.date(1960, 1, 1) + datetime.timedelta(days=case["k"])
    i = d.year * 10000 + d.month * 100 + d.day
    for x in (d, d.isoformat(), i, d.strftime("%Y%m%d"), datetime.datetime(d.year, d.month, d.day, 13)):
        got = dayobs_to_date(x)
        require(type(got) is datetime.date and got == d, "day of observation", x, got)
    if d.year >= 1972:
        t = datetime.datetime(d.year, d.month, d.day) + datetime.timedelta(seconds=case["sec"], milliseconds=5)
        T = Time(t, scale="utc")
        if case["scale"] == "tai":
            T = T.tai
        got = dayobs_to_date(T)
        require(type(got) is datetime.date and got == (t - datetime.timedelta(hours=12)).date(), "day of observation of a time", t, got)
    return "time" if d.year >= 1972 else "date"


def arms():
    pg.start()
    return [
        Arm("files", files_case(), files_test, quick=70, thorough=1500, rule="at least two of: a file archived, visits archived, a second file refused"),
        Arm("files2", files_case(), files_test, quick=70, thorough=1500, rule="as files, another worker"),
        Arm("transfer", proto_case(), proto_test, quick=80, thorough=1500, rule="every case exports; most are imported again"),
        Arm("sim_dir", dir_case(), dir_test, quick=90, thorough=1500, rule="every case"),
        Arm("convert", convert_case(), convert_test, quick=100, thorough=4000, rule="at least one row"),
        Arm("read_visits", visits_case(), visits_test, quick=80, thorough=3000, rule="at least one visit is returned"),
        Arm("nightly_stats", stats_case(), stats_test, quick=120, thorough=4000, rule="several nights"),
        Arm("day_obs", day_case(), day_test, quick=400, thorough=10000, rule="every case"),
    ]


def teardown():
    pg.stop()
