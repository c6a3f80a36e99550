"""C38: pre-night simulations: running them over the nights asked for, recording them whole, the catalogue of the
prototype archive, and the visits given to the observation locator."""

import copy
import datetime
import glob
import hashlib
import logging
import os
import pickle
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np
import pandas as pd
import yaml
from astropy.time import Time
from hypothesis import strategies as st
from lsst.resources import ResourcePath
from rubin_scheduler.scheduler.utils import ObservationArray, SchemaConverter

from rubin_sim.maf.stackers import DayObsISOStacker, DayObsStacker
from rubin_sim.sim_archive import future_vsarch, make_snapshot, prenight, prenightindex, prototype, sim_archive
from checks import c29
from vp import pg
from vp.core import Arm, require

ASSUMPTIONS = ["the scheduler's simulation loop, the almanac and the model observatory are stand-ins that record what they are given and return generated visits; a real PostgreSQL 16 server; archives are scratch directories"]
BUDGET = {"quick": 100, "thorough": 3000}
UTC = datetime.timezone.utc
EPOCH = datetime.date(1858, 11, 17)
logging.getLogger("rubin_sim").setLevel(logging.CRITICAL)


def iso(mjd_day):
    return (EPOCH + datetime.timedelta(days=int(mjd_day))).isoformat()


def yyyymmdd(mjd_day):
    return int(iso(mjd_day).replace("-", ""))


class scratch:
    """A scratch directory that also receives every temporary file made meanwhile."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_pre_")
        self.old = tempfile.tempdir
        os.mkdir(os.path.join(self.d, "tmp"))
        tempfile.tempdir = os.path.join(self.d, "tmp")
        return self.d

    def __exit__(self, *a):
        tempfile.tempdir = self.old
        shutil.rmtree(self.d, ignore_errors=True)


class swap:
    def __init__(self, obj, **kw):
        self.obj, self.kw = obj, kw

    def __enter__(self):
        self.old = {k: getattr(self.obj, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.obj, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.obj, k, v)


def almanac(first, n, phase):
    """Nights whose evenings fall on the days first, first + 1, ... (dates 12 hours behind UTC)."""
    k = np.arange(n)
    wob = 0.01 * np.sin(k / 5)
    s = np.zeros(n, dtype=[("night", int), ("sunset", float), ("sun_n12_setting", float), ("sunrise", float)])
    s["night"] = k + 3
    s["sunset"] = first + k + 0.85 + phase + wob
    s["sun_n12_setting"] = s["sunset"] + 0.05
    s["sunrise"] = s["sunset"] + 0.45 - wob
    return s


def fake_almanac(s):
    return lambda *a, **k: types.SimpleNamespace(sunsets=s)


def observations(days, per, seed):
    """Visits in the scheduler's own format, in the local nights of the given days."""
    rng = np.random.RandomState(seed)
    mjd = np.sort(np.concatenate([k + 0.5 + np.sort(rng.randint(1, 4095, per[i % len(per)])) / 4096.0 for i, k in enumerate(days)] + [np.zeros(0)]))
    n = len(mjd)
    obs = ObservationArray(n)
    obs["ID"] = np.arange(n)
    obs["mjd"] = mjd
    obs["night"] = np.floor(mjd - 0.5 - days[0]) + 1
    obs["RA"] = rng.randint(0, 600, n) / 100.0
    obs["dec"] = -rng.randint(0, 100, n) / 100.0
    obs["exptime"] = 30.0
    obs["band"] = "r"
    obs["target_name"] = [f"t{i % 3}" for i in range(n)]
    return obs


def directory(path, obs, files, rewards, label, tags, telescope, dates):
    """What a directory of results must hold."""
    y = yaml.safe_load(open(os.path.join(path, "sim_metadata.yaml")))
    back = SchemaConverter().opsim2obs(os.path.join(path, "opsim.db"))
    require(len(back) == len(obs) and np.allclose(back["mjd"], obs["mjd"], rtol=0, atol=1e-9) and np.allclose(back["RA"], obs["RA"]) and list(back["target_name"]) == list(obs["target_name"]), "visits of the simulation", len(back), len(obs))
    require(set(y["files"]) == {"observations", "statistics"} | set(files) | ({"rewards"} if rewards else set()), "files of the simulation", list(y["files"]))
    for t, f in y["files"].items():
        require(hashlib.md5(open(os.path.join(path, f["name"]), "rb").read()).hexdigest() == f["md5"], "checksum", t)
    for t, (name, content) in files.items():
        require(y["files"][t]["name"] == name, "name of a file", t, y["files"][t])
        if content is not None:
            require(open(os.path.join(path, name), "rb").read() == content, "content of a file", t)
    if rewards:
        for key, df in rewards.items():
            require(pd.read_hdf(os.path.join(path, "rewards.h5"), key).equals(df), "rewards of the simulation", key)
    require(y.get("label") == label and y.get("tags", []) == list(tags), "label and tags", y.get("label"), y.get("tags"))
    require(y.get("telescope") == telescope, "telescope", y.get("telescope"))
    require(y["simulated_dates"] == dates, "nights of the simulation", y["simulated_dates"], dates)
    return y


# ------------------------------------------------------------------ running a pre-night simulation
@st.composite
def run_case(draw):
    return {"start": draw(st.integers(60000, 61500)), "phase": draw(st.integers(0, 20)) / 100, "day": draw(st.integers(0, 20)), "nights": draw(st.integers(1, 5)), "keep": draw(st.booleans()), "tel": draw(st.sampled_from([None, "auxtel", "simonyi"])), "label": draw(st.sampled_from([None, "a label", "o'l %s"])), "delay": draw(st.sampled_from([None, 0, 10, 61.5])),
            "scale": draw(st.sampled_from([None, 0.0, 0.1, 1.0])), "scatter": draw(st.sampled_from([None, 0.0, 5.0, 30.0])), "seed": draw(st.sampled_from([None, 1, 77])), "tags": draw(st.lists(st.sampled_from(["ideal", "nominal", "b c"]), max_size=3, unique=True)), "results": draw(st.booleans()), "argv": draw(st.booleans()), "per": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), "oseed": draw(st.integers(0, 99)),
            "sched_keep": draw(st.integers(0, 4)) == 0}


def run_test(case):
    warnings.simplefilter("ignore")
    day = case["start"] + case["day"]
    table = almanac(case["start"], 30, case["phase"])
    obs = observations(list(range(day, day + case["nights"])), case["per"], case["oseed"])
    rew = {"reward_df": pd.DataFrame({"r": [1.0, 2.0, case["oseed"]]}), "obs_rewards": pd.Series([0, 1, 2], index=[5, 6, 7])}
    seen = []

    def runner(observatory, scheduler, *a, **kw):
        require(not a, "arguments by position", a)
        f = kw.get("anomalous_overhead_func")
        seen.append({"kw": {k: v for k, v in kw.items() if k != "anomalous_overhead_func"}, "mjd": observatory.mjd, "mark": (observatory.mark, scheduler.mark), "keep": scheduler.keep_rewards,
                     "over": None if f is None else [float(f(obs={"slewtime": s, "visittime": 34.0, "exptime": 30.0})) for s in (5.0, 60.0, 2.0, 11.0)]})
        observatory.mark, scheduler.mark = "after", "after"
        return (observatory, scheduler, obs) + ((rew["reward_df"], rew["obs_rewards"]) if kw.get("record_rewards") else ())

    with scratch() as d, swap(prenight, sim_runner=runner, Almanac=fake_almanac(table)):
        sp, op = os.path.join(d, "sched.p"), os.path.join(d, "obsy.p")
        pickle.dump(types.SimpleNamespace(keep_rewards=case["sched_keep"], mark="s"), open(sp, "wb"))
        pickle.dump(types.SimpleNamespace(mjd=0.0, mark="o"), open(op, "wb"))
        content = {t: (os.path.basename(p), open(p, "rb").read()) for t, p in (("scheduler", sp), ("observatory", op))}
        args = [sp, op, str(yyyymmdd(day)), str(case["nights"])]
        for opt, k in (("--telescope", "tel"), ("--label", "label"), ("--delay", "delay"), ("--anom_overhead_scale", "scale"), ("--anom_overhead_scatter", "scatter"), ("--anom_overhead_seed", "seed")):
            if case[k] is not None:
                args += [opt, str(case[k])]
        if case["keep"]:
            args += ["--keep_rewards"]
        if case["tags"]:
            args += ["--tags", *case["tags"]]
        res = os.path.join(d, "results")
        os.mkdir(res)
        if case["results"]:
            args += ["--results", res]
        if case["argv"]:
            with swap(sys, argv=["run_prenight_sim", *args]):
                rc = prenight.run_prenight_sim_cli()
        else:
            rc = prenight.run_prenight_sim_cli(args)
        require(rc == 0 and len(seen) == 1, "the simulation is run once", rc, len(seen))
        s = seen[0]
        i = case["day"]
        start = table["sun_n12_setting"][i] + (case["delay"] or 0) / 1440
        require(abs(s["kw"]["sim_start_mjd"] - start) < 1e-9 and abs(s["mjd"] - start) < 1e-9, "start of the simulation", s["kw"], start)
        require(abs(s["kw"]["sim_start_mjd"] + s["kw"]["sim_duration"] - table["sunrise"][i + case["nights"] - 1]) < 1e-8, "end of the simulation", s["kw"])
        require(bool(s["kw"].get("record_rewards", False)) == case["keep"] and s["keep"] == (case["keep"] or case["sched_keep"]), "rewards asked for", s)
        require(s["mark"] == ("o", "s"), "scheduler and observatory of the files", s["mark"])
        okw = {}
        if case["scale"]:
            okw["slew_scale"] = case["scale"]
        if case["scatter"]:
            okw["scatter_kwargs"] = {"scale": case["scatter"]}
        if okw:
            f = prenight.AnomalousOverheadFunc(seed=1 if case["seed"] is None else case["seed"], **okw)
            want = [float(f(obs={"slewtime": x, "visittime": 34.0, "exptime": 30.0})) for x in (5.0, 60.0, 2.0, 11.0)]
            require(s["over"] == want, "anomalous overheads", s["over"], want)
        else:
            require(s["over"] is None or not any(s["over"]), "overheads although none were asked for", s["over"])
        found = [os.path.dirname(p) for p in glob.glob(os.path.join(d, "**", "sim_metadata.yaml"), recursive=True)]
        require(len(found) == 1 and (found[0] == res or not case["results"]), "place of the results", found)
        directory(found[0], obs, content, rew if case["keep"] else None, case["label"] or "", case["tags"], case["tel"] or "simonyi", {"first": iso(np.floor(obs["mjd"].min() - 0.5)), "last": iso(np.floor(obs["mjd"].max() - 0.5))})
    return ("several nights" if case["nights"] > 1 else "one night") + ("/overheads" if okw else "")


# ------------------------------------------------------------------ running any simulation and recording it
@st.composite
def drive_case(draw):
    return {"day": draw(st.integers(60000, 61500)), "nights": draw(st.integers(1, 4)), "dur": draw(st.sampled_from(["none", "whole", "part", "np"])), "startgiven": draw(st.booleans()), "hour": draw(st.integers(30, 45)), "record": draw(st.sampled_from([None, True, False])), "keep": draw(st.booleans()), "label": draw(st.sampled_from([None, "lab", "o'l %s"])), "tags": draw(st.lists(st.sampled_from(["ideal", "星"]), max_size=2, unique=True)),
            "files": draw(st.lists(st.sampled_from(["script", "notebook"]), max_size=2, unique=True)), "md": draw(st.sampled_from([None, {"telescope": "auxtel"}, {"telescope": "simonyi", "scheduler_version": "3.4.5"}])), "per": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), "seed": draw(st.integers(0, 99)), "twice": draw(st.booleans()), "user": draw(st.integers(0, 3)) > 0, "extra": draw(st.booleans())}


class Sched:
    def __init__(self, keep):
        self.keep_rewards, self.mark = keep, "before"


def drive_test(case):
    import lzma

    warnings.simplefilter("ignore")
    rew = (pd.DataFrame({"r": [1.0, case["seed"]]}), pd.Series([1, 2], index=[3, 4]))
    calls = []

    def runner(observatory, scheduler, **kw):
        calls.append((observatory, scheduler, scheduler.mark, dict(kw)))
        scheduler.mark = "after"
        return (observatory, scheduler, calls[0][3] and obs_now[0]) + (rew if kw.get("record_rewards") else ())

    obs_now = [None]
    md = copy.deepcopy(case["md"])
    with scratch() as d, swap(sim_archive, sim_runner=runner), swap(os, environ=dict(os.environ)):
        os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
        if not case["user"]:
            os.environ.pop("USER", None)
        places = []
        for r in range(2 if case["twice"] else 1):
            day = case["day"] + 7 * r
            obs_now[0] = observations(list(range(day, day + case["nights"])), case["per"], case["seed"] + r)
            kw = {}
            if case["startgiven"]:
                kw["sim_start_mjd"] = day + case["hour"] / 48 + (0.5 if case["hour"] < 24 else 0)
                n = case["nights"]
                if case["dur"] != "none":
                    kw["sim_duration"] = {"whole": n, "part": n - 0.57, "np": np.int64(n)}[case["dur"]]
            if case["extra"]:
                kw["step_none"] = 5.0
                kw["anomalous_overhead_func"] = len
            if case["record"] is not None:
                kw["record_rewards"] = case["record"]
            fkw, content = {}, {}
            for t in case["files"]:
                p = os.path.join(d, f"{t}{r}.x")
                open(p, "wb").write(f"{t} {r}".encode())
                fkw[t], content[t] = p, (f"{t}{r}.x", f"{t} {r}".encode())
            sched, obsy = Sched(case["keep"]), types.SimpleNamespace()
            given = dict(kw)
            before = len(calls)
            try:
                out = sim_archive.drive_sim(observatory=obsy, scheduler=sched, label=case["label"], tags=list(case["tags"]), opsim_metadata=md, **fkw, **kw)
            except ValueError:
                require(case["record"] and not case["keep"] and len(calls) == before, "refused before the simulation is run")
                return "refused"
            require(not (case["record"] and not case["keep"]), "rewards recorded although the scheduler does not keep them")
            recorded = case["keep"] if case["record"] is None else case["record"]
            require(len(calls) == before + 1 and calls[-1][0] is obsy and calls[-1][1] is sched, "the simulation is run once")
            require({k: v for k, v in calls[-1][3].items() if k != "record_rewards"} == {k: v for k, v in given.items() if k != "record_rewards"} and calls[-1][3].get("record_rewards", False) == recorded, "arguments of the simulation", calls[-1][3], given)
            require(out[0] is obsy and out[1] is sched and out[2] is obs_now[0], "results of the simulation come first")
            require(len(out) == (6 if recorded else 4), "number of results", len(out))
            rp = ResourcePath(out[-1])
            require(rp.exists() and rp.isdir(), "the results are where the returned path says", rp)
            path = rp.ospath.rstrip("/")
            require(path not in places, "each simulation has a place of its own", path)
            places.append(path)
            first = iso(day)
            last = iso(day + case["nights"] - 1)
            y = directory(path, obs_now[0], {"scheduler": ("scheduler.pickle.xz", None), **content}, {"reward_df": rew[0], "obs_rewards": rew[1]} if recorded else None, case["label"], case["tags"], (case["md"] or {}).get("telescope"), {"first": first, "last": last})
            with lzma.open(os.path.join(path, "scheduler.pickle.xz")) as f:
                require(pickle.load(f).mark == "before", "the scheduler is recorded as it was at the start")
            got = y.get("sim_runner_kwargs", {})
            require(got.get("sim_duration") == given.get("sim_duration") and got.get("sim_start_mjd") == given.get("sim_start_mjd") and got.get("record_rewards") == recorded and ("step_none" in got) == case["extra"], "arguments recorded", got)
            require(md == case["md"], "the caller's metadata was changed", md)
            if case["md"] and "scheduler_version" in case["md"]:
                require(y["scheduler_version"] == "3.4.5", "version of the scheduler", y["scheduler_version"])
            for p in places:
                require(os.path.exists(os.path.join(p, "opsim.db")), "results of an earlier simulation are kept", p)
    return ("start" if case["startgiven"] else "default") + ("/rewards" if recorded else "")


# ------------------------------------------------------------------ the observatory of a scheduler snapshot
@st.composite
def obsy_case(draw):
    return {"nside": draw(st.sampled_from([8, 16, 32, 64])), "argv": draw(st.booleans()), "old": draw(st.booleans())}


def obsy_test(case):
    def model(*a, **kw):
        return types.SimpleNamespace(a=a, kw=kw)

    with scratch() as d, swap(make_snapshot, ModelObservatory=model):
        sp, op = os.path.join(d, "s.p"), os.path.join(d, "o.p")
        pickle.dump(types.SimpleNamespace(nside=case["nside"]), open(sp, "wb"))
        before = open(sp, "rb").read()
        if case["old"]:
            open(op, "wb").write(b"x" * 10000)
        if case["argv"]:
            with swap(sys, argv=["ideal_model_observatory", sp, op]):
                make_snapshot.make_ideal_model_observatory_cli()
        else:
            make_snapshot.make_ideal_model_observatory_cli([sp, op])
        o = pickle.load(open(op, "rb"))
        require(o.kw == {"nside": case["nside"], "cloud_data": "ideal", "seeing_data": "ideal", "downtimes": "ideal"} and not o.a, "the ideal observatory", o)
        require(open(sp, "rb").read() == before, "the scheduler's file was changed")
    return "argv" if case["argv"] else "list"


# ------------------------------------------------------------------ visits for the observation locator
@st.composite
def loc_case(draw):
    base = draw(c29.sims_case())
    for s in base["sims"]:
        s["file"] = ".h5"
    base["nights"] = draw(st.sampled_from([None, 1, 1, 2, 3]))
    base["off"] = draw(st.integers(-3, 1))
    base["age"] = draw(st.sampled_from([None, None, 0, 2, 9]))
    base["now"] = draw(st.integers(0, 4)) == 0
    base["cols"] = draw(st.sampled_from([None, None, ["observationId", "night"], ["observationId"]]))
    base["old"] = draw(st.booleans())
    base["phase"] = draw(st.integers(0, 14)) / 100
    if draw(st.integers(0, 3)):  # something that fits, among the others
        base["sims"][draw(st.integers(0, len(base["sims"]) - 1))].update(pre=True, tags=["nominal", "ideal"], tel=base["tel"], first=0, len=7, age=0.05 if draw(st.booleans()) else 0.6)
    return base


COLS = ["observationStartMJD", "fieldRA", "fieldDec", "rotSkyPos", "band", "visitExposureTime", "night", "target_name"]


def loc_test(case):
    warnings.simplefilter("ignore")
    today = datetime.datetime.now(UTC).date()
    d0 = today + datetime.timedelta(days=case["off"])
    m0 = (d0 - EPOCH).days
    bucket = case["from"] == "bucket" or case["old"]
    a = pg.archive()
    try:
        with scratch() as d, c29.Closing(), swap(c29, D0=d0, MJD0=m0), swap(os, environ=dict(os.environ)):
            c29.use_server()
            table = almanac(m0 - 4, 20, case["phase"])
            sims = c29.build(a, case, d)
            if case["now"]:
                k0 = [i for i in range(20) if table["sunset"][i] > Time.now().mjd][0] - 4
            else:
                k0 = case["day"]
            nights = case["nights"] or 2
            k1 = k0 + nights - 1
            if bucket:
                c29.make_index({"sims": case["sims"], "nofile": case["nofile"]}, d, sorted({k0, k1}))
                os.environ["VSARCHIVE_PGHOST"] = os.path.join(d, "nowhere")
            index = "file://" + d + "/index/"
            kw = {"telescope": case["tel"]} if case["tel"] != "simonyi" or case["nofile"] else {}
            if case["nights"]:
                kw["nights"] = case["nights"]
            if not case["now"]:
                kw["day_obs"] = c29.day(k0, 1)
            if case["cols"]:
                kw["columns"] = case["cols"] if not case["old"] else tuple(case["cols"])
            ref = Time.now().mjd if case["now"] else m0 + k0
            age = int(np.ceil(Time.now().mjd - ref)) + 1
            if case["age"] is not None and not case["old"]:
                kw["max_simulation_age"] = age = case["age"]
            fit = [s for s in sims if s["pre"] and s["tel"] == case["tel"] and {"ideal", "nominal"} <= set(s["tags"]) and all(s["first"] <= k <= s["first"] + s["len"] for k in (k0, k1)) and int(s["age"]) <= age]
            best = max(fit, key=lambda s: s["c"]) if fit else None
            if best is not None and not len(best["df"]):
                return None
            mod = future_vsarch if case["old"] else sim_archive
            fun = future_vsarch._fetch_obsloctap_visits if case["old"] else sim_archive.fetch_obsloctap_visits
            with swap(mod, Almanac=fake_almanac(table)), swap(prenightindex, PRENIGHT_INDEX_URL=index), swap(future_vsarch, PRENIGHT_INDEX_URL=index):
                try:
                    v = fun(**kw)
                except (sim_archive.NoMatchingSimulationsFoundError, ValueError) as e:
                    require(isinstance(e, sim_archive.NoMatchingSimulationsFoundError) or case["old"], "error when nothing fits", e)
                    require(datetime.datetime.now(UTC).date() != today or best is None, "no simulation found for the observation locator", best and best["k"])
                    return "none"
            if datetime.datetime.now(UTC).date() != today:
                return None
            require(best is not None, "visits although nothing fits")
            x = best["df"]
            sel = x[(x.observationStartMJD >= m0 + k0 + 0.5) & (x.observationStartMJD < m0 + k1 + 1.5)]
            cols = case["cols"] or COLS
            require(list(v.columns) == list(cols), "columns", list(v.columns))
            require(len(v) == len(sel), "number of visits", len(v), len(sel))
            for c in cols:
                require(list(v[c]) == list(sel[c]), "visits for the observation locator", c)
    finally:
        pg.close(a)
    return ("old/" if case["old"] else "") + ("bucket" if bucket else "database") + ("" if len(sel) else "/empty")


# ------------------------------------------------------------------ the catalogue of the prototype archive
@st.composite
def cat_case(draw):
    sims = []
    same = draw(st.booleans())
    for _ in range(draw(st.integers(1, 5))):
        sims.append({"via": draw(st.sampled_from(["cli", "cli", "dir"])), "ago": draw(st.sampled_from([0, 0, 1, 2, 3])), "num": draw(st.integers(0, 3)), "first": draw(st.integers(0, 2)), "len": draw(st.integers(1, 4)), "tags": draw(st.sampled_from([["ideal", "nominal"], ["ideal", "nominal", "x"], ["nominal"]])) if same or draw(st.integers(0, 3)) else [], "tel": draw(st.sampled_from(["simonyi", "simonyi", "auxtel", None])), "label": draw(st.sampled_from(["a sim", "o'sim %s"])), "ver": draw(st.sampled_from([None, "3.1.1"])),
                     "files": draw(st.lists(st.sampled_from(["scheduler", "script", "notebook"]), max_size=3, unique=True)), "rewards": draw(st.sampled_from([None, "both", "reward_df", "obs_rewards"])), "kw": draw(st.sampled_from([{"record_rewards": True}, {"record_rewards": False, "sim_duration": 2.0}, {}])), "per": draw(st.lists(st.integers(1, 4), min_size=1, max_size=2)), "seed": draw(st.integers(0, 99))})
    return {"sims": sims, "day": draw(st.integers(0, 3)), "nights": draw(st.integers(1, 2)), "tags": draw(st.sampled_from([None, None, ["nominal"], []])), "tel": draw(st.sampled_from(["simonyi", "Simonyi", "auxtel"])), "age": draw(st.integers(1, 5)), "cache": draw(st.sampled_from([None, "all", "append", "old", "missing"])), "stackers": draw(st.sampled_from([None, "none", "iso", "other", "tuple"])), "phase": draw(st.integers(0, 14)) / 100, "cmd": draw(st.integers(0, 7)) == 0}


def plain(x):
    """Metadata with missing entries left out, to compare two readings of them."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if not (isinstance(v, float) and np.isnan(v)) and not (isinstance(v, (list, dict)) and not v)}
    return list(x) if isinstance(x, (list, tuple)) else x


def cat_test(case):
    warnings.simplefilter("ignore")
    today = datetime.datetime.now(UTC).date()
    day = lambda ago: (today - datetime.timedelta(days=ago)).isoformat()  # noqa: E731
    m0 = (today - EPOCH).days - 1
    lab = None
    with scratch() as d, swap(os, environ=dict(os.environ)):
        os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
        base = "file://" + d + "/proto/"
        os.mkdir(os.path.join(d, "proto"))
        cache = base + "compiled_metadata_cache.h5"
        made = {}
        order = sorted(case["sims"], key=lambda s: -s["ago"])
        for k, s in enumerate(order):
            obs = observations(list(range(m0 + s["first"], m0 + s["first"] + s["len"])), s["per"], s["seed"])
            rew = {n: pd.DataFrame({"r": [1.0 * s["seed"], 2.0]}) for n in ("reward_df", "obs_rewards") if s["rewards"] in ("both", n)}
            files = {}
            for t in s["files"]:
                p = os.path.join(d, f"{t}{k}.x")
                files[t] = (f"{t}{k}.x", f"{t} {k}".encode())
                open(p, "wb").write(files[t][1])
            tags = list(s["tags"])
            if s["via"] == "cli":
                db = os.path.join(d, f"v{k}.db")
                SchemaConverter().obs2opsim(obs, filename=db)
                args = [s["label"], db, "--archive_base_uri", base]
                for t in s["files"]:
                    args += ["--" + t, os.path.join(d, f"{t}{k}.x")]
                if tags:
                    args += ["--tags", *tags]
                if s["tel"]:
                    args += ["--telescope", s["tel"]]
                if s["ver"]:
                    args += ["--scheduler_version", s["ver"]]
                if rew:
                    p = os.path.join(d, f"r{k}.h5")
                    for n, df in rew.items():
                        df.to_hdf(p, key=n)
                    args += ["--rewards", p]
                rp = prototype.make_sim_archive_cli(*args)
                tel = s["tel"] or "simonyi"
            else:
                dd = os.path.join(d, f"dir{k}")
                os.mkdir(dd)
                md = {"telescope": s["tel"]} if s["tel"] else {}
                if s["ver"]:
                    md["scheduler_version"] = s["ver"]
                prototype.make_sim_archive_dir(obs, rew.get("reward_df"), rew.get("obs_rewards"), in_files={t: os.path.join(d, f"{t}{k}.x") for t in s["files"]}, sim_runner_kwargs=dict(s["kw"]), tags=tags, label=s["label"], data_path=dd, opsim_metadata=md)
                rp = prototype.transfer_archive_dir(dd, base)
                tel = s["tel"]
            path = rp.ospath.rstrip("/")
            y = directory(path, obs, files, rew, s["label"], s["tags"], tel, {"first": iso(np.floor(obs["mjd"].min() - 0.5)), "last": iso(np.floor(obs["mjd"].max() - 0.5))})
            if s["ver"]:
                require(y["scheduler_version"] == s["ver"], "version of the scheduler", y["scheduler_version"])
            # as if it had been archived on an earlier day
            num = s["num"] + 1
            while (s["ago"], num) in made:
                num += 1
            dest = os.path.join(d, "proto", day(s["ago"]), str(num))
            if dest != path:
                os.makedirs(os.path.dirname(dest), exist_ok=True)
                os.rename(path, dest + ".moving")
                os.rename(dest + ".moving", dest)
            made[(s["ago"], num)] = {**s, "y": y, "obs": obs, "tel": tel, "uri": "file://" + dest + "/"}
            if case["cache"] in ("old", "append") and k == 0:
                prototype.compile_sim_metadata(base, cache, num_nights=9)
        if case["cache"] == "append":
            if case["cmd"]:
                prototype.compile_sim_archive_metadata_cli("--archive_base_uri", base, "--append")
            else:
                prototype.compile_sim_metadata(base, ResourcePath(cache), append=True, num_nights=9)
        elif case["cache"] == "all":
            if case["cmd"]:
                prototype.compile_sim_archive_metadata_cli("--archive_base_uri", base, "--compilation_uri", cache)
            else:
                prototype.compile_sim_metadata(base, cache, num_nights=9)
        if datetime.datetime.now(UTC).date() != today:
            return None
        direct = prototype.read_archived_sim_metadata(base, num_nights=case["age"])
        want = {m["uri"]: m for (ago, _), m in made.items() if ago < case["age"]}
        require(set(direct) == set(want), "simulations in the archive", sorted(direct), sorted(want))
        for u, m in direct.items():
            y = dict(want[u]["y"], label=u[len(base):].rstrip("/") + " " + want[u]["label"])
            require(m == y, "metadata of an archived simulation", m, y)
        if case["cache"] in ("all", "append"):
            comp = prototype.read_sim_metadata_from_hdf(cache)
            full = prototype.read_archived_sim_metadata(base, num_nights=9)
            require(set(comp) == set(full), "simulations in the compiled metadata", sorted(comp), sorted(full))
            for u in full:
                require(plain(comp[u]) == plain(full[u]), "compiled metadata", plain(comp[u]), plain(full[u]))
            require(prototype.verify_compiled_sim_metadata(base, cache, num_nights=9) == [], "compiled metadata verified", prototype.verify_compiled_sim_metadata(base, cache, num_nights=9)[:2])
        if case["cache"]:
            cached = prototype.read_archived_sim_metadata(base, num_nights=case["age"], compilation_resource=cache)
            if case["cache"] in ("all", "append", "missing"):
                require({u: plain(m) for u, m in cached.items()} == {u: plain(m) for u, m in direct.items()}, "metadata with the help of a cache", sorted(cached), sorted(direct))
        # the latest that fits
        k0, k1 = m0 + case["day"], m0 + case["day"] + case["nights"] - 1
        tags = ("ideal", "nominal") if case["tags"] is None else tuple(case["tags"])
        which = {"telescope": case["tel"], "max_simulation_age": case["age"], "archive_uri": base, "compilation_uri": cache if case["cache"] in ("all", "append") else base + "none.h5"}
        if case["tags"] is not None:
            which["tags"] = tags
        fits = lambda m, k0, k1, tags, tel: m["y"]["simulated_dates"]["first"] <= iso(k0) and m["y"]["simulated_dates"]["last"] >= iso(k1) and (m["tel"] or tel).lower() == tel.lower() and set(tags) <= set(m["tags"])  # noqa: E731
        fit = {k: m for k, m in made.items() if k[0] < case["age"] and fits(m, k0, k1, tags, case["tel"])}
        best = fit[max(fit, key=lambda k: (-k[0], k[1]))] if fit else None
        dargs = (iso(k0),) if k0 == k1 else (iso(k0), iso(k1))
        keep = copy.deepcopy(which)
        got = prototype.find_latest_prenight_sim_for_nights(*dargs, **which)
        require((got is None) == (best is None), "latest simulation", got and got["uri"], best and best["uri"])
        if best:
            require(got["uri"] == best["uri"] and got["opsim_rp"].ospath == ResourcePath(best["uri"] + "opsim.db").ospath, "latest simulation", got["uri"], best["uri"])
        # its visits
        stk = {None: None, "none": [], "iso": [DayObsISOStacker()], "other": [DayObsStacker()], "tuple": (DayObsStacker(),)}[case["stackers"]]
        kw = None if stk is None else {"stackers": stk}
        n0 = None if stk is None else list(stk)
        v = prototype.fetch_sim_for_nights(*dargs, which_sim=which, get_sim_data_kwargs=kw)
        require(which == keep and (kw is None or (kw["stackers"] is stk and list(stk) == n0 and len(kw) == 1)), "the caller's arguments were changed", kw)
        if best is None:
            require(v is None, "visits although nothing fits")
        else:
            sel = best["obs"][(best["obs"]["mjd"] >= k0 + 0.5) & (best["obs"]["mjd"] < k1 + 1.5)]
            require(list(v.observationId) == list(sel["ID"]) and ("day_obs_iso8601" in v.columns) == (case["stackers"] == "iso"), "visits of the nights", len(v), len(sel))
            require(("dayObs" in v.columns) == (case["stackers"] in ("other", "tuple")), "columns of the visits")
            lab = "found"
        # the observation locator and the number of visits of a night
        find = prototype.find_latest_prenight_sim_for_nights
        here = {"archive_uri": base, "compilation_uri": which["compilation_uri"]}
        with swap(prototype, find_latest_prenight_sim_for_nights=lambda *a, **k: find(*a, **{**here, **k}), Almanac=fake_almanac(almanac(m0 - 4, 20, case["phase"]))):
            age = int(np.ceil(Time.now().mjd - k0)) + 1
            f2 = {k: m for k, m in made.items() if k[0] < age and fits(m, k0, k1, ("ideal", "nominal"), case["tel"])}
            b2 = f2[max(f2, key=lambda k: (-k[0], k[1]))] if f2 else None
            v = prototype.fetch_obsloctap_visits(iso(k0), nights=case["nights"], telescope=case["tel"]) if b2 is None or night_window(b2, almanac(m0 - 4, 20, case["phase"]), k0 - m0 + 4, case["nights"]) is not None else 0
            if datetime.datetime.now(UTC).date() != today:
                return None
            if b2 is None:
                require(v is None, "visits for the observation locator although nothing fits")
            elif not isinstance(v, int):
                sel = night_window(b2, almanac(m0 - 4, 20, case["phase"]), k0 - m0 + 4, case["nights"])
                require(list(v.columns) == COLS and list(v.observationStartMJD) == list(sel["mjd"]) and list(v.target_name) == list(sel["target_name"]), "visits for the observation locator", len(v), len(sel))
                lab = "located"
            age = int(np.ceil(Time.now().mjd - k0)) + 3
            f3 = {k: m for k, m in made.items() if k[0] < age and fits(m, k0, k0, ("ideal", "nominal"), "simonyi")}
            b3 = f3[max(f3, key=lambda k: (-k[0], k[1]))] if f3 else None
            stt = prototype.fetch_sim_stats_for_night(iso(k0) if case["cmd"] else yyyymmdd(k0))
            wantn = 0 if b3 is None else int(((b3["obs"]["mjd"] >= k0 + 0.5) & (b3["obs"]["mjd"] < k0 + 1.5)).sum())
            require(stt == {"nominal_visits": wantn}, "number of visits of the night", stt, wantn)
    return (lab or "none") + (f"/{case['cache']}" if case["cache"] else "") if len(case["sims"]) > 1 else None


def night_window(m, table, i, n):
    """Visits between the sunset of the first and the sunrise of the last night; None when there are none (the
    database query refuses then)."""
    t = m["obs"]["mjd"]
    sel = m["obs"][(t >= table["sunset"][i]) & (t <= table["sunrise"][i + n - 1])]
    return sel if len(sel) else None


def arms():
    pg.start()
    return [
        Arm("run", run_case(), run_test, quick=60, thorough=2000, rule="every case"),
        Arm("drive", drive_case(), drive_test, quick=80, thorough=2000, rule="every case"),
        Arm("observatory", obsy_case(), obsy_test, quick=25, thorough=300, rule="every case"),
        Arm("locate", loc_case(), loc_test, quick=40, thorough=2000, rule="every case, unless the simulation that fits has no visits"),
        Arm("locate2", loc_case(), loc_test, quick=40, thorough=2000, rule="as locate, another worker"),
        Arm("catalogue", cat_case(), cat_test, quick=32, thorough=1500, rule="at least two simulations in the archive"),
        Arm("catalogue2", cat_case(), cat_test, quick=32, thorough=1500, rule="as catalogue, another worker"),
        Arm("catalogue3", cat_case(), cat_test, quick=32, thorough=1500, rule="as catalogue, another worker"),
    ]


def teardown():
    pg.stop()
