"""C27: the visit-sequence archive's metadata store against a dictionary model, over random histories."""

import datetime
import hashlib
import json
import warnings
from uuid import UUID, uuid4

import numpy as np
import pandas as pd
import yaml
from astropy.time import Time
from hypothesis import strategies as st
from lsst.resources import ResourcePath

from rubin_sim.sim_archive import vseqmetadata
from vp import pg
from vp.core import Arm, require

ASSUMPTIONS = ["a real PostgreSQL 16 server, one schema per worker process, tables emptied between histories",
               "day-of-observation look-ups (daily ids) are made from sessions in UTC, as the archive's own server is"]
BUDGET = {"quick": 100, "thorough": 3000}
TEL = ["simonyi", "auxtel"]
TABLE = {"visitseq": "record_visitseq_metadata", "simulations": "record_simulation_metadata", "completed": "record_completed_metadata", "mixedvisitseq": "record_mixed_metadata"}
D0 = datetime.date(2026, 1, 1)
UTC = datetime.timezone.utc

text = st.lists(st.sampled_from(list("abcXYZ 019_-.:/%{}'\"\\;é星$()") + ["%s", "{}", "--", "%(a)s"]), max_size=10).map("".join)
word = st.sampled_from(["ideal", "ideal", "a b", "a b"] + ["prenight", "ideal", "nominal", "Ideal", "100%", "o'clock", "a b", "ø", "x_y", "nom"])
ftype = st.sampled_from(["rewards", "rewards"] + ["rewards", "scheduler", "stats", "obs'ervatory", "opsim", "Rewards", "r%s"])


def day(k, form):
    d = D0 + datetime.timedelta(days=int(k))
    return d if form == 0 else d.isoformat() if form == 1 else d.year * 10000 + d.month * 100 + d.day


days = st.one_of(st.none(), st.tuples(st.integers(0, 800), st.integers(0, 2)))


def visits_frame(spec):
    n = spec["n"]
    rng = np.random.RandomState(spec["seed"])
    df = pd.DataFrame({"obs_start_mjd": 64600 + rng.randint(0, 2000, n) / 256, "s_ra": rng.randint(0, 3600, n) / 10.0, "observationId": np.arange(n)})
    if spec["text"]:
        df["band"] = [["u", "g", "r", "i" * 3][i] for i in rng.randint(0, 4, n)]
    if spec["obj"]:
        df["note"] = pd.Series([["", "blob, a", "星", None][i] for i in rng.randint(0, 4, n)], dtype=object)
    return df


frames = st.fixed_dictionaries({"n": st.integers(0, 5), "seed": st.integers(0, 50), "text": st.booleans(), "obj": st.booleans()})


maybe = st.one_of(st.none(), text)


@st.composite
def record(draw, table=None):
    return dict(i=0, table=table or draw(st.sampled_from(["simulations", "simulations", "simulations", "visitseq", "completed", "mixedvisitseq"])), v=draw(frames), label=draw(text), tel=draw(st.sampled_from(TEL + [None, "au'x"])),
                url=draw(maybe), first=draw(days), last=draw(days), created=draw(st.one_of(st.none(), st.tuples(st.integers(0, 10 ** 9), st.integers(0, 999999)))), scale=draw(st.sampled_from(["utc", "utc", "tai"])),
                ver=draw(maybe), cfg=draw(maybe), env=draw(st.one_of(st.none(), st.integers(0, 2))), parent=draw(st.one_of(st.none(), st.integers(0, 9))), pday=draw(days),
                kw=draw(st.one_of(st.none(), st.dictionaries(text, st.one_of(st.integers(-5, 5), text, st.booleans(), st.lists(st.integers(0, 3), max_size=2), st.sampled_from(["OBJ", "LONG"])), max_size=3))),
                query=draw(maybe), d1=draw(st.tuples(st.integers(0, 800), st.integers(0, 2))), d2=draw(st.tuples(st.integers(0, 800), st.integers(0, 2))))


@st.composite
def op(draw):
    kind = draw(st.sampled_from(["record"] * 2 + ["update", "url", "tag", "tag", "tag", "untag", "untag", "comment", "comment", "file", "file", "file", "stats", "stats", "conda", "bad", "read", "other"]))
    o = {"op": kind, "i": draw(st.integers(0, 2))}
    if kind == "record":
        o.update(draw(record()))
    elif kind == "update":
        o.update(field=draw(st.sampled_from(["visitseq_label", "telescope", "first_day_obs", "visitseq_url", "config_url", "scheduler_version", "query", "visitseq_sha256"])), value=draw(text), day=draw(st.integers(0, 800)))
    elif kind == "url":
        o.update(url=draw(text))
    elif kind == "tag":
        o.update(tags=draw(st.lists(word, min_size=0, max_size=3)))
    elif kind == "untag":
        o.update(tag=draw(word))
    elif kind == "comment":
        o.update(comment=draw(text), author=draw(st.one_of(st.none(), text)))
    elif kind == "file":
        o.update(type=draw(ftype), content=draw(text), url=draw(text), update=draw(st.booleans()), rp=draw(st.booleans()))
    elif kind == "stats":
        o.update(day=draw(st.integers(0, 5)), n=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99)))
    elif kind == "conda":
        o.update(env=draw(st.integers(0, 2)), half=draw(st.sampled_from(["both"] * 4 + ["hash", "json"])))
    elif kind == "bad":
        o.update(what=draw(st.sampled_from(["field", "missing", "table", "visits_file", "untag", "url", "sql"])))
    return o


@st.composite
def history_case(draw):
    first = [{"op": "record", **draw(record(t))} for t in draw(st.sampled_from([["simulations"], ["simulations", "simulations"], ["simulations", "completed"], ["mixedvisitseq", "simulations"]]))]
    rest = draw(st.lists(op(), min_size=6, max_size=24))
    return {"ops": first + rest, "tz": draw(st.sampled_from(["UTC", "UTC", "UTC", "America/Santiago", "Asia/Tokyo"]))}


ENVS = [json.dumps([{"name": "rubin-sim", "version": f"2.{k}", "channel": "conda-forge", "build_number": k, "platform": "linux"}, {"name": "numpy", "version": f"1.2{k}.0", "channel": "c'f"}][: 2 if k else 1]) for k in range(3)]
HASHES = [hashlib.sha256(e.encode()).digest() for e in ENVS]


def same(got, want):
    """Database value against the model's value."""
    if want is None:
        return got is None or got is pd.NaT or (isinstance(got, float) and np.isnan(got))
    if isinstance(want, bytes):
        return got is not None and bytes(got) == want
    if isinstance(want, UUID):
        return got == want
    if isinstance(want, datetime.datetime):
        return pd.Timestamp(got).tzinfo is not None and abs((pd.Timestamp(got) - pd.Timestamp(want)).total_seconds()) < 2e-6
    return got == want


def check_row(a, m, u, table):
    row = a.get_visitseq_metadata(u, table)
    for f, want in m["f"].items():
        if f in row.index:
            require(same(row[f], want), "field", table, f, row[f], want)
        else:
            require(table == "visitseq", "missing column", f, table)
    lo, hi = m["created"]
    require(lo - datetime.timedelta(milliseconds=50) <= pd.Timestamp(row["creation_time"]) <= hi + datetime.timedelta(milliseconds=50), "creation time", row["creation_time"], lo, hi)
    require(row["visitseq_uuid"] == u, "identifier", row["visitseq_uuid"])


def check_all(a, model, envs, tz, deep=True):
    n = pg.rows("SELECT COUNT(*) FROM {s}.visitseq")[0][0]
    require(n == len(model), "number of visit sequences", n, len(model))
    for u, m in model.items():
        check_row(a, m, u, m["table"])
        check_row(a, m, u, "visitseq")
        require(a.get_visitseq_url(u) == m["f"]["visitseq_url"], "url", a.get_visitseq_url(u))
        require(a.get_file_url(u, "visits") == m["f"]["visitseq_url"], "visits url")
        for t in ["prenight", "ideal", "nominal", "Ideal", "100%", "o'clock", "a b", "ø", "x_y", "nom"]:
            require(bool(a.is_tagged(u, t)) == (t in m["tags"]), "tagged", t, m["tags"])
        c = a.get_comments(u)
        got = [(str(x.comment), x.author if isinstance(x.author, str) else None) for x in c.itertuples()]
        want = [(x[0], x[1]) for x in m["comments"]]
        require(sorted(got, key=repr) == sorted(want, key=repr), "comments", got, want)
        for x in c.itertuples():
            ok = [y for y in m["comments"] if y[0] == str(x.comment) and y[2] - datetime.timedelta(milliseconds=50) <= pd.Timestamp(x.comment_time) <= y[3] + datetime.timedelta(milliseconds=50)]
            require(ok, "time of a comment", x.comment_time, m["comments"])
        for t in ["rewards", "scheduler", "stats", "obs'ervatory", "opsim", "Rewards", "r%s"]:
            if t in m["files"]:
                require(a.get_file_url(u, t) == m["files"][t][0], "file url", t, a.get_file_url(u, t))
                require(a.get_file_sha256(u, t) == m["files"][t][1], "file hash", t)
            else:
                for f in (a.get_file_url, a.get_file_sha256):
                    try:
                        f(u, t)
                    except ValueError:
                        pass
                    else:
                        require(False, "found a file that was never registered", t)
        s = a.query_nightly_stats(u)
        require(len(s) == len(m["stats"]), "nightly statistics", len(s), len(m["stats"]))
        for r in s.itertuples():
            w = m["stats"][(r.day_obs, r.value_name)]
            for k, v in w.items():
                g = getattr(r, k)
                require(g == v or (pd.isna(g) and pd.isna(v)), "statistic", k, g, v)
            require(r.visitseq_uuid == u and not r.accumulated, "statistics row", r.visitseq_uuid)
        if m["table"] == "simulations" and deep:
            e = a.get_visitseq_metadata(u, "simulations_extra")
            require(sorted(e["tags"]) == sorted(m["tags"]), "tags of a simulation", e["tags"], m["tags"])
            require(e["files"] == {k: v[0] for k, v in m["files"].items()}, "files of a simulation", e["files"])
            require(sorted(e["comments"].values()) == sorted(x[0] for x in m["comments"]), "comments of a simulation", e["comments"])
            for f, want in m["f"].items():
                if f != "visitseq_sha256":
                    require(same(e[f], want), "simulation field", f, e[f], want)
            sw = a.get_software_versions_for_sim(u)
            k = HASHES.index(m["f"]["conda_env_sha256"]) if m["f"]["conda_env_sha256"] in HASHES else None
            want = {p["name"]: p for p in json.loads(ENVS[k])} if k is not None and k in envs else {}
            require(set(sw.index) == set(want), "packages", list(sw.index), list(want))
            for name, p in want.items():
                require(sw.loc[name, "package_version"] == p["version"] and sw.loc[name, "channel"] == p["channel"], "package", name, p)
            some = a.get_software_versions_for_sim(u, packages=["numpy", "nothing"])
            require(list(some.index) == [p for p in ["numpy"] if p in want], "asked packages", list(some.index))
            y = yaml.safe_load(a.sim_metadata_yaml(u))
            require(y["uuid"] == str(u) and y["label"] == m["f"]["visitseq_label"] and y["telescope"] == m["f"]["telescope"] and sorted(y["tags"]) == sorted(m["tags"]), "yaml", y)
            require(y.get("scheduler_version") == m["f"]["scheduler_version"], "yaml scheduler", y)
            require({k: v["url"] for k, v in y["files"].items()} == {k: v[0] for k, v in m["files"].items()}, "yaml files", y["files"])
            require(pd.Timestamp(y["creation_time"]) == pd.Timestamp(e["creation_time"]), "yaml creation time", y["creation_time"])
            sd = y.get("simulated_dates", {})
            require(all(str(sd[k]) == str(m["f"][f"{k}_day_obs"]) if m["f"][f"{k}_day_obs"] is not None else sd.get(k) is None for k in ("first", "last")), "yaml nights", y)
    for k in range(3):
        require(a.conda_env_is_saved(HASHES[k]) == (k in envs), "saved environments", k, envs)


def history_test(case):
    warnings.simplefilter("ignore")
    a = pg.archive(case["tz"])
    model, envs = {}, set()
    done = set()
    try:
        for o in case["ops"]:
            us = list(model)
            u = us[o["i"] % len(us)] if us else None
            k = o["op"]
            if k == "record":
                v = visits_frame(o["v"])
                kw = {"label": o["label"]}
                f = {"visitseq_label": o["label"], "visitseq_sha256": vseqmetadata.compute_visits_sha256(v), "telescope": "simonyi", "visitseq_url": o["url"], "first_day_obs": None, "last_day_obs": None}
                if o["tel"]:
                    kw["telescope"] = f["telescope"] = o["tel"]
                if o["url"] is not None:
                    kw["url"] = o["url"]
                for side in ("first", "last"):
                    if o[side] is not None:
                        kw[f"{side}_day_obs"] = day(*o[side])
                        f[f"{side}_day_obs"] = day(o[side][0], 0)
                lo = datetime.datetime.now(UTC)
                if o["created"] is not None:
                    c = datetime.datetime(2025, 6, 1, tzinfo=UTC) + datetime.timedelta(seconds=o["created"][0] % 10 ** 8, microseconds=o["created"][1])
                    kw["creation_time"] = Time(c.replace(tzinfo=None), scale="utc")
                    if o["scale"] == "tai":
                        kw["creation_time"] = kw["creation_time"].tai
                t = o["table"]
                if t == "simulations":
                    f.update(scheduler_version=o["ver"], config_url=o["cfg"], conda_env_sha256=None, parent_visitseq_uuid=None, parent_last_day_obs=None, sim_runner_kwargs=None)
                    if o["ver"] is not None:
                        kw["scheduler_version"] = o["ver"]
                    if o["cfg"] is not None:
                        kw["config_url"] = o["cfg"]
                    if o["env"] is not None:
                        kw["conda_env_sha256"] = f["conda_env_sha256"] = HASHES[o["env"]]
                    if o["parent"] is not None and us:
                        kw["parent_visitseq_uuid"] = f["parent_visitseq_uuid"] = us[o["parent"] % len(us)]
                    if o["pday"] is not None:
                        kw["parent_last_day_obs"] = day(*o["pday"])
                        f["parent_last_day_obs"] = day(o["pday"][0], 0)
                    if o["kw"] is not None:
                        odd = {"OBJ": {1, 2}, "LONG": "z" * 5000}
                        kw["sim_runner_kwargs"] = {x: odd.get(y, y) if isinstance(y, str) else y for x, y in o["kw"].items()}
                        f["sim_runner_kwargs"] = {x: ["Not json serializable", repr(odd[y])[:4096]] if isinstance(y, str) and y in odd else y for x, y in o["kw"].items()}
                elif t == "completed":
                    f["query"] = o["query"]
                    if o["query"] is not None:
                        kw["query"] = o["query"]
                elif t == "mixedvisitseq":
                    p = us[o["parent"] % len(us)] if us and o["parent"] is not None else uuid4()
                    q = uuid4()
                    kw.update(last_early_day_obs=day(*o["d1"]), first_late_day_obs=day(*o["d2"]), early_parent_uuid=p, late_parent_uuid=q)
                    f.update(last_early_day_obs=day(o["d1"][0], 0), first_late_day_obs=day(o["d2"][0], 0), early_parent_uuid=p, late_parent_uuid=q)
                new = getattr(a, TABLE[t])(v, **kw)
                require(isinstance(new, UUID) and new not in model, "new identifier", new)
                created = (c, c) if o["created"] is not None else (lo, datetime.datetime.now(UTC))
                model[new] = {"table": t, "f": f, "created": created, "tags": set(), "comments": [], "files": {}, "stats": {}}
                done.add("record")
            elif u is None and k not in ("conda", "bad"):
                continue
            elif k == "update":
                m = model[u]
                field = o["field"]
                if field not in m["f"]:
                    try:
                        a.update_visitseq_metadata(u, field, o["value"])
                    except Exception:  # noqa: BLE001
                        pass
                    else:
                        require(False, "updated a field the sequence does not have", field, m["table"])
                else:
                    val = day(o["day"], 0) if field.endswith("day_obs") else o["value"].encode() if field.endswith("sha256") else o["value"]
                    a.update_visitseq_metadata(u, field, val)
                    m["f"][field] = val
                    done.add("update")
            elif k == "url":
                a.set_visitseq_url(u, o["url"])
                model[u]["f"]["visitseq_url"] = o["url"]
            elif k == "tag":
                a.tag(u, *o["tags"])
                model[u]["tags"] |= set(o["tags"])
                done.add("tag")
            elif k == "untag":
                had = o["tag"] in model[u]["tags"]
                try:
                    a.untag(u, o["tag"])
                    require(had, "untagged what was not tagged", o["tag"])
                    done.add("untag")
                except ValueError:
                    require(not had, "refused to untag", o["tag"])
                model[u]["tags"].discard(o["tag"])
            elif k == "comment":
                lo = datetime.datetime.now(UTC)
                a.comment(u, o["comment"], o["author"])
                model[u]["comments"].append((o["comment"], o["author"], lo, datetime.datetime.now(UTC)))
            elif k == "file":
                m = model[u]
                url = "file:///tmp/vp_nowhere/" + hashlib.md5(o["url"].encode()).hexdigest() if o["rp"] else o["url"]
                h = hashlib.sha256(o["content"].encode()).digest()
                exists = o["type"] in m["files"]
                try:
                    a.register_file(u, o["type"], h, ResourcePath(url) if o["rp"] else url, update=o["update"])
                    require(o["update"] or not exists, "registered a second file of the same type without update")
                    m["files"][o["type"]] = (url, h)
                    done.add("file")
                except ValueError:
                    require(exists and not o["update"], "refused to register", o, m["files"])
                    done.add("refused")
            elif k == "stats":
                rng = np.random.RandomState(o["seed"])
                rows = []
                for j in range(o["n"]):
                    d = D0 + datetime.timedelta(days=o["day"] + j)
                    name = ["altitude", "azimuth"][rng.randint(2)]
                    if (d, name) in model[u]["stats"]:
                        continue
                    w = {"count": int(rng.randint(1, 100))}
                    for s in ("mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max"):
                        w[s] = float(rng.randint(0, 4000)) / 7 if rng.rand() > 0.1 else np.nan
                    rows.append({"day_obs": d, "value_name": name, "accumulated": False, **w})
                    model[u]["stats"][(d, name)] = w
                if rows:
                    df = pd.DataFrame(rows)
                    keep = df.copy()
                    a.insert_nightly_stats(u, df)
                    require(df.equals(keep), "the caller's statistics were changed")
                    done.add("stats")
            elif k == "conda":
                h, e = HASHES[o["env"]], ENVS[o["env"]]
                if o["half"] == "both":
                    r = a.record_conda_env(h, e)
                    require(r == h, "environment hash")
                    envs.add(o["env"])
                else:
                    try:
                        a.record_conda_env(h if o["half"] == "hash" else None, e if o["half"] == "json" else None)
                    except ValueError:
                        pass
                    else:
                        require(False, "half an environment was accepted")
            elif k == "bad":
                w = o["what"]
                uu = u if u is not None else uuid4()
                try:
                    if w == "field":
                        a.update_visitseq_metadata(uu, "no_such_field", "x")
                    elif w == "missing":
                        a.update_visitseq_metadata(uuid4(), "visitseq_label", "x")
                    elif w == "table":
                        a.get_visitseq_metadata(uu, "no_such_table")
                    elif w == "visits_file":
                        a.register_file(uu, "visits", b"x", "y", update=True)
                    elif w == "untag":
                        a.untag(uuid4(), "ideal")
                    elif w == "url":
                        a.get_visitseq_url(uuid4())
                    else:
                        a.record_visitseq_metadata(visits_frame({"n": 1, "seed": 0, "text": False, "obj": False}), None)
                except Exception:  # noqa: BLE001
                    done.add("bad")
                else:
                    require(False, "a request that cannot be carried out was accepted", w)
            elif k == "read":
                check_row(a, model[u], u, model[u]["table"])
                a.query_nightly_stats(u)
            elif k == "other":
                # somebody else's connection, then a fresh one of our own
                b = pg.new_archive()
                b.tag(u, "ideal")
                pg.close(b)
                model[u]["tags"].add("ideal")
        check_all(a, model, envs, case["tz"])
        if case["tz"] == "UTC":
            b = pg.new_archive()
            check_all(b, model, envs, "UTC", deep=False)
            pg.close(b)
    finally:
        pg.close(a)
    return "+".join(sorted(done & {"untag", "refused", "stats", "bad"})) or "plain" if "record" in done and len(done) > 1 else None


# ------------------------------------------------------------------ selection by night, tag, telescope and age
@st.composite
def select_case(draw):
    n = draw(st.integers(1, 7))
    sims = [{"first": draw(st.one_of(st.none(), st.integers(0, 8))), "len": draw(st.integers(0, 5)), "nolast": draw(st.integers(0, 9)) == 0, "tel": draw(st.sampled_from(TEL)), "tags": draw(st.lists(st.sampled_from(["prenight", "ideal", "nominal", "nom"]), max_size=4, unique=True)),
             "age": draw(st.sampled_from([0, 1, 2, 3, 5, 9])) + draw(st.sampled_from([0.1, 0.25, 0.9])), "table": draw(st.sampled_from(["simulations"] * 4 + ["completed"])), "stats": draw(st.lists(st.integers(0, 9), max_size=3, unique=True))} for _ in range(n)]
    a, b = draw(st.integers(0, 10)), draw(st.integers(0, 3))
    tags = draw(st.sampled_from([None, [], ["prenight"], ["ideal", "prenight"], ["nom"]]))
    tel = draw(st.sampled_from(TEL + [None]))
    for s in sims:
        # near misses: a simulation that fits the request in all but at most a few respects
        if draw(st.booleans()):
            s["first"], s["len"], s["nolast"] = max(a - draw(st.integers(0, 2)), 0), draw(st.integers(1, 6)), False
        if draw(st.booleans()):
            s["tags"] = draw(st.permutations(["prenight", "ideal", "nominal", "nom"]))[: draw(st.integers(2, 4))]
        if draw(st.integers(0, 3)):
            s["tel"], s["table"] = tel or "simonyi", "simulations"
    return {"sims": sims, "first": a, "last": draw(st.sampled_from([a, a, a + b])), "forms": [draw(st.integers(0, 2)), draw(st.integers(0, 2))], "tags": tags, "tel": tel,
            "age": draw(st.sampled_from([None, 1, 2, 4, 400])), "omit_last": draw(st.booleans())}


def select_test(case):
    warnings.simplefilter("ignore")
    a = pg.archive()
    now = datetime.datetime.now(UTC)
    try:
        sims = []
        for k, s in enumerate(case["sims"]):
            kw = {}
            if s["first"] is not None:
                kw["first_day_obs"] = day(s["first"], 0)
                if not s["nolast"]:
                    kw["last_day_obs"] = day(s["first"] + s["len"], 0)
            v = visits_frame({"n": 1, "seed": 1, "text": True, "obj": False})
            c = now - datetime.timedelta(days=s["age"], microseconds=k)
            u = getattr(a, TABLE[s["table"]])(v, f"sim {k}", telescope=s["tel"], creation_time=Time(c.replace(tzinfo=None)), **kw)
            a.tag(u, *s["tags"])
            stats = {}
            if s["stats"]:
                df = pd.DataFrame([{"day_obs": day(d, 0), "value_name": nm, "accumulated": False, "count": d + 1, "mean": d + 0.5, "std": None, "min": 0.0, "p05": 0.0, "q1": 0.0, "median": 0.0, "q3": 0.0, "p95": 0.0, "max": float(d)} for d in s["stats"] for nm in ("altitude", "azimuth")])
                a.insert_nightly_stats(u, df)
                stats = {d: d + 1 for d in s["stats"]}
            sims.append((u, s, c, stats))
        tags = ("prenight", "ideal", "nominal") if case["tags"] is None else tuple(case["tags"])
        tel = case["tel"] or "simonyi"
        age = 2 if case["age"] is None else case["age"]
        kw = {}
        if case["tags"] is not None:
            kw["tags"] = tags
        if case["tel"]:
            kw["telescope"] = tel
        if case["age"] is not None:
            kw["max_simulation_age"] = age
        first, last = case["first"], case["last"]

        def want(d1, d2):
            return {u for u, s, c, _ in sims if s["table"] == "simulations" and s["first"] is not None and not s["nolast"] and s["first"] <= d1 <= s["first"] + s["len"] and s["first"] <= d2 <= s["first"] + s["len"] and s["tel"] == tel and set(tags) <= set(s["tags"]) and s["age"] <= age}

        if not (first == last and case["omit_last"]):
            kw2 = dict(kw, last_day_obs=day(last, case["forms"][1]))
        else:
            kw2 = kw
        got = a.sims_on_nights(day(first, case["forms"][0]), **kw2)
        w = want(first, last)
        require(len(got) == len(w) and set(got.visitseq_uuid) == w, "simulations of the nights", list(got.visitseq_label), [s for s in sims if s[0] in w])
        got = a.sims_on_night_with_stats(day(first, case["forms"][0]), **kw)
        w1 = want(first, first)
        require(len(got) == len(w1) and set(got.visitseq_uuid) == w1, "simulations of the night", list(got.visitseq_label))
        for r in got.itertuples():
            s = [x for x in sims if x[0] == r.visitseq_uuid][0]
            require(sorted(r.tags) == sorted(s[1]["tags"]) and r.telescope == s[1]["tel"], "row", r.tags)
            if first in s[3]:
                require(set(r.stats) == {"altitude", "azimuth"} and all(x["count"] == first + 1 and x["mean"] == first + 0.5 and x["std"] is None and "day_obs" not in x for x in r.stats.values()), "statistics of the night", r.stats)
            else:
                require(r.stats is None or (isinstance(r.stats, float) and np.isnan(r.stats)), "statistics of another night", r.stats)
        # numbering within the day of creation, oldest first
        by = {}
        for u, s, c, _ in sorted([x for x in sims if x[1]["table"] == "simulations"], key=lambda x: x[2]):
            by.setdefault((c - datetime.timedelta(hours=12)).date(), []).append(u)
        for d, us in by.items():
            for i, u in enumerate(us):
                g = a.get_sim_uuid(day((d - D0).days, case["forms"][0]), i + 1 if i % 2 else str(i + 1))
                require(g == u, "daily number", d, i, g)
                e = a.get_visitseq_metadata(u, "simulations_extra")
                require(e["daily_id"] == i + 1 and e["sim_creation_day_obs"] == d, "daily number", e["daily_id"])
            try:
                a.get_sim_uuid(d, len(us) + 1)
            except ValueError:
                pass
            else:
                require(False, "found a simulation with an unused number")
    finally:
        pg.close(a)
    return ("several" if len(w) > 1 else "one" if w else "none") if len(case["sims"]) > 1 else None


# ------------------------------------------------------------------ the hash of a table of visits
@st.composite
def hash_case(draw):
    return {"v": draw(frames), "edit": draw(st.sampled_from(["value", "value", "text", "row", "swap", "column", "name"])), "row": draw(st.integers(0, 9))}


def hash_test(case):
    v = visits_frame(case["v"])
    h = vseqmetadata.compute_visits_sha256(v)
    require(isinstance(h, bytes) and len(h) == 32, "hash", h)
    # equal content, other objects
    w = pd.DataFrame({c: pd.Series([("" + x + " ")[:-1] if isinstance(x, str) else x for x in v[c].tolist()], dtype=v[c].dtype) for c in v.columns})
    require(w.equals(v), "harness")
    require(vseqmetadata.compute_visits_sha256(w) == h, "two tables with the same content have different hashes")
    e = v.copy()
    n = len(v)
    i = case["row"] % max(n, 1)
    k = case["edit"]
    if k == "value" and n:
        e.loc[i, "s_ra"] = np.nextafter(e.loc[i, "s_ra"], 1000)
    elif k == "text" and n and "band" in e:
        e.loc[i, "band"] = e.loc[i, "band"] + "x"
    elif k == "row":
        e = pd.concat([e, visits_frame({**case["v"], "n": 1, "seed": 7})], ignore_index=True)
    elif k == "swap" and n > 1:
        e = e.iloc[::-1].reset_index(drop=True)
    elif k == "column":
        e["more"] = 1.0
    elif k == "name":
        e = e.rename(columns={"s_ra": "s_dec"})
    else:
        return None
    require(vseqmetadata.compute_visits_sha256(e) != h, "different tables, same hash", k)
    return k


def arms():
    pg.start()
    return [
        Arm("history", history_case(), history_test, quick=110, thorough=4000, rule="at least one sequence recorded and at least one other kind of change made"),
        Arm("history2", history_case(), history_test, quick=110, thorough=4000, rule="as history, another worker and schema"),
        Arm("selection", select_case(), select_test, quick=110, thorough=4000, rule="at least two simulations"),
        Arm("selection2", select_case(), select_test, quick=110, thorough=4000, rule="as selection, another worker and schema"),
        Arm("visits_hash", hash_case(), hash_test, quick=250, thorough=5000, rule="the edit applies to the table"),
    ]


def teardown():
    pg.stop()
