"""C35: the standard batches of metrics (selection, bands, labels, names, columns, values)."""

import contextlib
import copy
import inspect
import io
import os
import re
import shutil
import sqlite3
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rubin_scheduler.utils import ddf_locations  # noqa: E402

import rubin_sim.maf as maf  # noqa: E402
import rubin_sim.maf.metric_bundles as mb  # noqa: E402
import rubin_sim.maf.slicers as slicers  # noqa: E402
import rubin_sim.maf.stackers as stackers  # noqa: E402
from rubin_sim.maf import batches  # noqa: E402
from rubin_sim.maf.batches import info_batch, time_sci_batch  # noqa: E402
from vp import fakebatch  # noqa: E402
from vp.core import Arm, require  # noqa: E402
from vp.gen import grid  # noqa: E402

ASSUMPTIONS = ["the data files read while a batch is built are small stand-ins; supernova light-curve libraries are left empty",
               "visits come with the columns of a simulated survey; column maps: the current one, and the earlier one whose band column is called 'filter'"]

BANDS = "ugrizy"
SETS = ["gri", "griz", "riz", "ug", "gr", "ri", "iz", "zy"]
NOTES = ["pair_33, gr, a", "DD:COSMOS", "DD:XMM_LSS", "blob_long, gi", "twilight_near_sun, 0", "long", "ToO, GW_t4", "neo_x", "greedy"]
COLS = ["observationId", "night", "observationStartMJD", "observationStartLST", "numExposures", "visitTime", "visitExposureTime", "fieldRA", "fieldDec", "altitude", "azimuth", "band", "filter", "airmass", "skyBrightness", "cloud",
        "seeingFwhm500", "seeingFwhmGeom", "seeingFwhmEff", "fiveSigmaDepth", "slewTime", "slewDistance", "paraAngle", "pseudoParaAngle", "rotTelPos", "rotSkyPos", "moonRA", "moonDec", "moonAlt", "moonAz", "moonDistance", "moonPhase",
        "sunAlt", "sunAz", "solarElong", "scheduler_note", "target_name", "science_program", "observation_reason", "proposalId", "fieldId"]
# extra selections: text with {b} for the band column
EXTRA = ["night < 400", "night > 100 and night < 1500", "night < 40 or night > 900", "{b} = 'r' or {b} = 'i'", "{b} != 'u'", "scheduler_note not like 'DD%'", "scheduler_note like 'DD%' or night < 200", "fieldDec < -20 or {b} = 'g'", "visitExposureTime > 19"]

_dir = None


def setup():
    global _dir
    fakebatch.use()
    _dir = tempfile.mkdtemp(prefix="c35_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


def colmap(kind):
    return batches.col_map_dict({"fbs": None, "old": "fbs_sim"}[kind])


def bandcol(kind):
    return {"fbs": "band", "old": "filter"}[kind]


@st.composite
def visits(draw, lo=4, hi=24):
    n = draw(st.integers(lo, hi))
    return [(draw(st.integers(0, 60) | st.integers(0, 3650)), draw(st.sampled_from(BANDS)), draw(st.sampled_from(NOTES)), draw(grid(0, 359, 1)), draw(grid(-70, 10, 1)), draw(grid(0, 359, 1)), draw(st.sampled_from([15.0, 29.2, 30.0])), draw(st.integers(0, 900))) for _ in range(n)]


def frame(rows, kind):
    n = len(rows)
    rows = sorted(rows, key=lambda r: (r[0], r[7]))
    r = np.random.RandomState(7)
    d = {c: np.round(r.uniform(1, 30, n), 3) for c in COLS}
    d["observationId"] = np.arange(n)
    d["night"] = np.array([a[0] for a in rows])
    d["observationStartMJD"] = 60000.0 + np.array([a[0] + a[7] / 2000.0 for a in rows])
    d["band"] = np.array([a[1] for a in rows])
    d["filter"] = np.array([a[1] + "_57" for a in rows])
    d["scheduler_note"] = np.array([a[2] for a in rows])
    d["fieldRA"], d["fieldDec"], d["azimuth"] = [np.array([float(a[i]) for a in rows]) for i in (3, 4, 5)]
    d["visitExposureTime"] = np.array([a[6] for a in rows])
    d["visitTime"] = d["visitExposureTime"] + 2
    d["numExposures"] = np.ones(n, int)
    d["airmass"] = 1 + d["airmass"] / 30
    d["fiveSigmaDepth"] = 22 + d["fiveSigmaDepth"] / 15
    for c in ("target_name", "science_program", "observation_reason"):
        d[c] = np.array(["x"] * n)
    if kind == "old":
        d["filter"] = d.pop("band")
    return pd.DataFrame(d)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# --- the batches ---------------------------------------------------------------
# name: (function, extra keyword, label keyword, slicer keyword, other keywords)
BATCH = {}


def _b(f, sql="extraSql", label="extraInfoLabel", slicer=None, **kw):
    BATCH[f.__name__] = (f, sql, label, slicer, kw)


_b(batches.altazHealpix)
_b(batches.altazLambert)
_b(batches.filtersPerNight, nights=st.sampled_from([1, 5]))
_b(batches.filtersWholeSurvey)
_b(batches.hourglassPlots, nyears=st.integers(1, 4))
_b(batches.metadataBasics, slicer="slicer", value=st.sampled_from(["airmass", "skyBrightness", "HA", "normairmass", "moonDistance"]), valueName=st.sampled_from([None, "Some Value"]), groupName=st.sampled_from([None, "grp"]))
_b(batches.metadataBasicsAngle, slicer="slicer", value=st.just("rotSkyPos"), valueName=st.sampled_from([None, "Some Value"]), groupName=st.sampled_from([None, "grp"]))
_b(batches.metadataMaps, slicer="slicer", value=st.sampled_from(["airmass", "skyBrightness", "HA", "normairmass"]), valueName=st.sampled_from([None, "Some Value"]), groupName=st.sampled_from([None, "grp"]))
_b(batches.allMetadata, slicer="slicer")
_b(batches.firstYearMetadata, slicer="slicer")
_b(batches.openshutterFractions)
_b(batches.meanRADec)
_b(batches.eastWestBias)
_b(batches.slewBasics, sql="sql_constraint", label=None)
_b(batches.fOBatch, sql="extra_sql", label="extra_info", slicer="slicer")
_b(batches.astrometryBatch, sql="extra_sql", label="extra_info", slicer="slicer")
_b(batches.rapidRevisitBatch, sql="extra_sql", label="extra_info", slicer="slicer")
_b(batches.intraNight, slicer="slicer")
_b(batches.interNight, slicer="slicer")
_b(batches.timeGaps, slicer="slicer")
_b(batches.seasons, slicer="slicer")
_b(time_sci_batch.phaseGap, nside=st.just(4))
_b(batches.nvisitsM5Maps, slicer="slicer", runLength=st.sampled_from([10.0, 1, 0.1]))
_b(batches.tEffMetrics, slicer="slicer")
_b(batches.nvisitsPerNight, binNights=st.sampled_from([1, 3]), subgroup=st.sampled_from([None, "S"]))
_b(batches.nvisitsPerSubset, sql="constraint", binNights=st.sampled_from([1, 3]))
# batches whose bundles cover "all visits" and every band for each metric
PER_BAND = {"altazHealpix", "altazLambert", "metadataBasics", "metadataBasicsAngle", "metadataMaps", "firstYearMetadata", "allMetadata"}


@st.composite
def call(draw, names=tuple(BATCH)):
    name = draw(st.sampled_from(list(names)))
    return {"name": name, "map": draw(st.sampled_from(["fbs", "fbs", "old"])), "sql": draw(st.none() | st.sampled_from(EXTRA)), "label": draw(st.none() | st.sampled_from(["Qq7", "my Wide"])), "run": draw(st.sampled_from(["opsim", "base_v1"])),
            "slicer": draw(st.booleans()), "kw": {k: draw(s) for k, s in BATCH[name][4].items()}, "given": draw(st.booleans()), "visits": draw(visits())}


def slicer_for(cm):
    return quiet(slicers.HealpixSlicer, nside=2, lat_col=cm["dec"], lon_col=cm["ra"], lat_lon_deg=cm["raDecDeg"])


def build(c, always_slicer=False):
    f, sqlk, labk, slk, _ = BATCH[c["name"]]
    kw = dict(c["kw"])
    cm = colmap(c["map"])
    if c["given"] or c["map"] != "fbs":
        kw["colmap"] = cm
    keep = copy.deepcopy(cm)
    run = "runName" if "runName" in inspect.signature(f).parameters else "run_name"
    kw[run] = c["run"]
    sql = None if c["sql"] is None else c["sql"].format(b=bandcol(c["map"]))
    if sql is not None:
        kw[sqlk] = sql
    if c["label"] is not None and labk:
        kw[labk] = c["label"]
    slicer = None
    if slk and (c["slicer"] or always_slicer):
        slicer = kw[slk] = slicer_for(cm)
    bd = quiet(f, **kw)
    require(cm == keep, "the column map given was changed", keep, cm)
    return bd, sql, slicer, cm


def pick(db, constraint):
    q = "select observationId from v"
    if constraint:
        q += " where " + constraint
    return frozenset(x[0] for x in db.execute(q))


def labelled(label, extra, sql):
    """The bands the label of a bundle names; None when it names none."""
    for e in (extra, sql):
        if e:
            label = label.replace(e, " ")
            label = label.replace(e.replace('"', "").replace("'", ""), " ")
    m = re.search(r"\b([ugrizy]) (?:band|filter)\b", label) or re.match(r"([ugrizy]) *$", label)
    if m:
        return m.group(1)
    m = re.search(r"\b(%s)(?: bands?)?\b" % "|".join(sorted(SETS, key=len, reverse=True)), label)
    if m:
        return m.group(1)
    return None


def judge(bd, df, kind, run, sql, label, name, exact):
    db = sqlite3.connect(":memory:")
    df.to_sql("v", db, index=False)
    base = pick(db, sql)
    bcol = bandcol(kind)
    roots = {}
    nontriv = False
    for key, b in bd.items():
        where = "%s: %s, %s, constraint %r" % (name, b.metric.name, b.info_label, b.constraint)
        require(b.run_name == run, "run name of a bundle", where, b.run_name)
        require(b.file_root not in roots, "two bundles would write the same file", where, b.file_root)
        roots[b.file_root] = key
        try:
            got = pick(db, b.constraint)
        except sqlite3.OperationalError as e:
            require(False, "the constraint cannot be used with these visits", where, str(e))
        require(got <= base, "a bundle uses visits outside the extra selection", where, sql, sorted(got - base))
        if label is not None:
            require(label in (b.info_label or ""), "extra label", where)
        need = {c for c in b.db_cols if c not in df.columns}
        have = set()
        for s in b.stacker_list:
            have |= set(s.cols_added)
        need -= have
        for c in sorted(need):
            # made while reading by a default stacker
            s = stackers.BaseStacker.source_dict.get(c) if hasattr(stackers.BaseStacker, "source_dict") else None
            require(s is not None, "a bundle needs a column these visits do not have", where, c)
        if exact:
            want = set(base)
            lab = labelled(b.info_label or "", label, sql)
            if lab:
                want &= set(df.loc[df[bcol].isin(list(lab)), "observationId"])
            for cond in exact(b):
                want &= pick(db, cond)
            require(got == want, "visits used by a bundle", where, sorted(got), sorted(want))
            nontriv = nontriv or (0 < len(got) < len(df))
    db.close()
    return "selected" if nontriv else None


def special(name, cm):
    """Further conditions of a bundle, from what its name and batch say."""
    def f(b):
        out = []
        if name == "firstYearMetadata":
            out.append("night < 365.5")
        if name == "eastWestBias":
            out.append("azimuth <= 180" if "East" in b.metric.name else "azimuth > 180")
        if name == "hourglassPlots":
            m = re.search(r"year (\d+)-(\d+)", b.info_label)
            out.append("night > %i and night <= %i" % (365.25 * int(m.group(1)), 365.25 * int(m.group(2))))
        return out
    return f


def t_select(c):
    bd, sql, slicer, cm = build(c)
    require(len(bd) > 0, "no bundles")
    df = frame(c["visits"], c["map"])
    label = c["label"] if BATCH[c["name"]][2] else None
    r = judge(bd, df, c["map"], c["run"], sql, label, c["name"], special(c["name"], cm))
    if slicer is not None:
        for b in bd.values():
            if isinstance(b.slicer, slicers.HealpixSlicer):
                require(b.slicer.nside == 2, "slicer given is not used", b.metric.name)
    if sql is None:
        covered(bd, c["map"], c["name"])
    if c["name"] in PER_BAND:
        seen = {}
        for b in bd.values():
            seen.setdefault((b.metric.name, b.slicer.slicer_name), []).append(labelled(b.info_label, label, sql) or "all")
        for k, v in seen.items():
            require(sorted(v) == sorted(["all"] + list(BANDS)), "bands of a metric", k, v)
    if c["name"] == "hourglassPlots":
        require(len(bd) == c["kw"]["nyears"], "a bundle for each year", len(bd), c["kw"])
    return r


# --- values ---------------------------------------------------------------------
RUN = ["metadataBasics", "metadataBasicsAngle", "metadataMaps", "firstYearMetadata", "openshutterFractions", "meanRADec", "eastWestBias", "slewBasics", "filtersPerNight", "filtersWholeSurvey", "intraNight", "interNight", "seasons", "timeGaps", "tEffMetrics", "nvisitsPerNight", "nvisitsPerSubset", "astrometryBatch", "fOBatch", "rapidRevisitBatch", "phaseGap"]
VALUED = ["metadataBasics", "metadataBasicsAngle", "openshutterFractions", "slewBasics", "eastWestBias", "nvisitsPerNight", "nvisitsPerSubset", "interNight"]
STAT = {"Mean": np.mean, "Median": np.median, "Min": np.min, "Max": np.max, "Rms": np.std, "25th%ile": lambda x: np.percentile(x, 25), "75th%ile": lambda x: np.percentile(x, 75), "Count": len,
        "N(+3Sigma)": lambda x: int(np.sum(x > np.mean(x) + 3 * np.std(x))), "N(-3Sigma)": lambda x: int(np.sum(x < np.mean(x) - 3 * np.std(x)))}


def run_batch(bd, df):
    out = tempfile.mkdtemp(dir=_dir)
    try:
        db = os.path.join(out, "v.db")
        con = sqlite3.connect(db)
        df.to_sql("observations", con, index=False)
        con.close()
        g = mb.MetricBundleGroup(bd, db, out_dir=out, save_early=False, verbose=False)
        quiet(g.run_all)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def t_run(c):
    bd, sql, slicer, cm = build(c, always_slicer=True)
    df = frame(c["visits"], c["map"])
    run_batch(bd, df)
    con = sqlite3.connect(":memory:")
    df.to_sql("v", con, index=False)
    n = 0
    for b in bd.values():
        ids = pick(con, b.constraint)
        sel = df[df.observationId.isin(ids)]
        where = "%s: %s, %s" % (c["name"], b.metric.name, b.info_label)
        if len(sel) == 0:
            require(b.metric_values is None or np.ma.getmaskarray(b.metric_values).all(), "a value without visits", where)
            continue
        require(b.metric_values is not None, "no values though there are visits", where)
        v = b.metric_values
        vname = c["kw"].get("valueName") or c["kw"].get("value")
        col = c["kw"].get("value")
        if c["name"] in ("metadataBasics",) and col in df.columns and b.slicer.slicer_name == "UniSlicer":
            k = b.metric.name.replace(vname, "").strip()
            require(k in STAT, "name of a statistic", where, k)
            x = sel[col].values
            require(np.allclose(v[0], STAT[k](x), rtol=1e-9, atol=1e-9), "value of a statistic", where, v[0], STAT[k](x))
            n += 1
        if c["name"] in ("metadataBasics", "metadataBasicsAngle") and b.slicer.slicer_name == "OneDSlicer" and col in df.columns and len(set(sel[col])) > 1:
            require(0 < int(np.ma.sum(v)) <= len(sel), "histogram of the visits", where, v, len(sel))
            n += 1
        if c["name"] == "nvisitsPerSubset" and b.slicer.slicer_name == "UniSlicer":
            require(v[0] == len(sel), "number of visits", where, v[0], len(sel))
            n += 1
        if c["name"] in ("eastWestBias", "nvisitsPerNight"):
            require(0 < int(np.ma.sum(v)) <= len(sel) and (len(set(sel.night)) > 1 or int(np.ma.sum(v)) == len(sel)), "visits per night do not add up", where, v, len(sel))
            n += 1
        if c["name"] == "slewBasics":
            if b.metric.name == "Slew Count":
                require(v[0] == len(sel), "number of slews", where, v[0], len(sel))
                n += 1
            m = re.match(r"(Mean|Median|Min|Max) slewTime$", b.metric.name)
            if m:
                require(np.isclose(v[0], STAT[m.group(1)](sel.slewTime.values)), "slew time", where, v[0])
                n += 1
        if c["name"] == "openshutterFractions" and b.slicer.slicer_name == "UniSlicer":
            want = None
            if "CountUnique" in b.metric.name:
                want = len(set(sel.night))
            elif "FullRange" in b.metric.name:
                want = sel.night.max() - sel.night.min()
            elif "OpenShutter" in b.metric.name.replace(" ", ""):
                want = sel.visitExposureTime.sum() / (sel.slewTime + sel.visitTime).sum()
            if want is not None:
                require(np.isclose(v[0], want), "open shutter statistics", where, v[0], want)
                n += 1
        if c["name"] == "interNight" and b.metric.name == "N Unique Nights":
            if np.ma.count(v):
                require(0 < np.ma.max(v) <= len(set(sel.night)), "unique nights", where, np.ma.max(v))
                n += 1
    con.close()
    return "%d values" % min(n, 1) if n else "ran"


def covered(bd, kind, name):
    """No bundle of a batch is for visits that no survey has: a survey with every band, programme, night and place."""
    if kind not in _full:
        rows = []
        notes = ["pair_33, gr, a", "twilight_near_sun, 0", "long", "neo", "greedy", "blob_long, gi"] + ["DD:" + d for d in ddf_locations()] + ["ToO, GW_case_A_t%d" % t for t in (0, 1, 2, 4, 24, 48)] + ["ToO, neutrino_t%d" % t for t in (0, 1, 24)]
        k = 0
        for note in notes:
            for b in BANDS:
                for night in range(1, 3650, 150):
                    rows.append((night, b, note, (k * 37) % 360, -70 + (k * 7) % 80, (k * 53) % 360, [15.0, 29.2, 30.0][k % 3], k % 900))
                    k += 1
        con = sqlite3.connect(":memory:")
        frame(rows, kind).to_sql("v", con, index=False)
        _full[kind] = con
    for b in bd.values():
        require(len(pick(_full[kind], b.constraint)) > 0, "a bundle for visits that no survey has", name, b.metric.name, b.info_label, b.constraint)


_full = {}


# --- large batches ---------------------------------------------------------------
_once = {}


@st.composite
def big_case(draw):
    name = draw(st.sampled_from(["glance", "ddf"]))
    return {"name": name, "map": draw(st.sampled_from(["fbs", "fbs", "old"])) if name in ("glance", "ddf") else "fbs", "sql": draw(st.none() | st.sampled_from(EXTRA)) if name in ("glance", "ddf") else None, "run": draw(st.sampled_from(["opsim", "base_v1"])) if name not in ("radar", "limited") else "opsim",
            "label": draw(st.none() | st.just("Qq7")) if name == "ddf" else None, "visits": draw(visits(8, 30)), "camera": "LSST", "years": draw(st.integers(1, 3)), "old": draw(st.booleans())}


def t_big(c):
    cm = colmap(c["map"])
    keep = copy.deepcopy(cm)
    sql = None if c["sql"] is None else c["sql"].format(b=bandcol(c["map"]))
    if c["name"] == "glance":
        bd = quiet(batches.glanceBatch, colmap=cm, run_name=c["run"], nside=2, nyears=c["years"], pairnside=2, sql_constraint=sql, slicer_camera=c["camera"])
    elif c["name"] == "ddf":
        bd = quiet(batches.ddfBatch, run_name=c["run"], nside=16, nside_sne=8, extra_sql=sql, extra_info_label=c["label"], old_coords=c["old"], colmap=cm)
    elif c["name"] == "info":
        w = quiet(slicers.HealpixSlicer, nside=2)
        w.mask = np.zeros(48, bool)
        w.mask[:20] = True
        if "info" not in _once:
            _once["info"] = quiet(info_batch.info_bundle_dicts, slicer_for(cm), w, opsim=c["run"])
        bd = _once["info"]
    else:
        if c["name"] not in _once:
            _once[c["name"]] = quiet(batches.science_radar_batch if c["name"] == "radar" else batches.radar_limited, runName="opsim", nside=4)
        bd = _once[c["name"]]
    require(cm == keep, "the column map given was changed")
    df = frame(c["visits"], c["map"])
    judge(bd, df, c["map"], c["run"], sql, None, c["name"], None)
    if sql is None:
        covered(bd, c["map"], c["name"])
    con = sqlite3.connect(":memory:")
    df.to_sql("v", con, index=False)
    bcol = bandcol(c["map"])
    n = 0
    for b in bd.values():
        # a bundle that says it is for one band uses visits of that band only
        lab = labelled(" ".join([b.info_label or "", b.metric.name]), c["label"], sql) if c["name"] in ("ddf", "radar", "limited") else None
        ids = pick(con, b.constraint)
        if lab and len(lab) > 1 and "all" not in (b.info_label or ""):
            bands = set(df.loc[df.observationId.isin(ids), bcol])
            require(bands <= set(lab) or len(ids) == len(df) or c["name"] == "ddf", "bands used by a bundle", b.metric.name, b.info_label, b.constraint, bands)
        n += 0 < len(ids) < len(df)
    con.close()
    return "selected" if n else None


@st.composite
def radar_case(draw):
    return {"map": "fbs", "sql": None, "run": "opsim", "label": None, "visits": draw(visits(8, 30))}


def t_radar(c):
    return [t_big(dict(c, name=n)) for n in ("info", "radar", "limited")][0]


# --- building blocks --------------------------------------------------------------
@st.composite
def part_case(draw):
    return {"all": draw(st.booleans()), "sql": draw(st.sampled_from([None, ""] + EXTRA)), "label": draw(st.sampled_from([None, "Qq7", ""])), "bc": draw(st.sampled_from(["band", "filter", "b"])),
            "col": draw(st.sampled_from(["airmass", "Name", "a", "Mean", "slewTime", "seeingFwhmEff", "n", "Min x", "sky"])), "rep": draw(st.sampled_from([None, "", "Value", "x y"])), "i1": draw(st.none() | st.sampled_from(["a", "b c"])), "i2": draw(st.none() | st.sampled_from(["a", "b c"])),
            "vals": draw(st.lists(st.integers(0, 30), min_size=1, max_size=30)), "mask": draw(st.lists(st.booleans(), min_size=30, max_size=30)), "npts": draw(st.integers(1, 20)), "thr": draw(st.lists(st.sampled_from([0.1, 0.5, 2]), min_size=1, max_size=3, unique=True)), "count": draw(st.booleans())}


def t_part(c):
    sql = None if c["sql"] is None else c["sql"].format(b=c["bc"])
    names, colors, orders, sqls, labels = batches.filter_list(all=c["all"], extra_sql=sql, extra_info_label=c["label"], band_col=c["bc"])
    want = (["all"] if c["all"] else []) + list(BANDS)
    require(list(names) == want, "bands", names)
    for d in (colors, orders, sqls, labels):
        require(set(d) == set(want), "something is missing for a band", d)
    require(len(set(colors.values())) == len(want) and sorted(orders.values()) == sorted(orders[w] for w in want) and len(set(orders.values())) == len(want), "colours and orders differ by band", colors, orders)
    require([orders[w] for w in want] == sorted(orders[w] for w in want), "orders follow the bands", orders)
    db = sqlite3.connect(":memory:")
    db.execute("create table v (observationId int, %s text, night int, scheduler_note text, fieldDec real, visitExposureTime real)" % c["bc"])
    k = 0
    for b in BANDS:
        for night in (3, 150, 300, 1000, 2000):
            for note in ("DD:x", "pair"):
                for e in (10, 30):
                    db.execute("insert into v values (?,?,?,?,?,?)", (k, b, night, note, -30 if k % 3 else 0, e))
                    k += 1
    base = pick(db, sql)
    for w in want:
        require(pick(db, sqls[w]) == (base if w == "all" else base & pick(db, "%s = '%s'" % (c["bc"], w))), "visits of a band", w, sqls[w])
        require(labels[w].endswith("all bands" if w == "all" else w + " band"), "label of a band", w, labels[w])
        if c["label"]:
            require(labels[w].startswith(c["label"] + " "), "extra label", labels[w])
        elif c["label"] is None and sql:
            require(labels[w].startswith(sql + " "), "label shows the selection", labels[w])
    db.close()
    got = batches.combine_info_labels(c["i1"], c["i2"])
    parts = [x for x in (c["i1"], c["i2"]) if x is not None]
    require(got == (" ".join(parts) if parts else None), "combined label", got)
    # statistics and their names
    col, rep = c["col"], c["rep"]
    x = np.array(c["vals"], float)
    data = np.zeros(len(x), dtype=[(col, float)])
    data[col] = x
    for f, base_names in ((batches.standard_metrics, ["Mean", "Median", "Min", "Max"]), (batches.extended_metrics, ["Mean", "Median", "Min", "Max", "Rms", "N(+3Sigma)", "N(-3Sigma)", "25th%ile", "75th%ile", "Count"])):
        ms = f(col, replace_colname=rep)
        require(len(ms) == len(base_names), "number of statistics", len(ms))
        for m, n in zip(ms, base_names):
            full = n + " " + col if rep is None else (n if rep == "" else n + " " + rep)
            if rep is None or col not in n:
                require(m.name == full, "name of a statistic", m.name, full)
            if n in STAT:
                v = m.run(data)
                require(np.isclose(v, STAT[n](x)) or (v == m.badval and len(x) < 2), "value of a statistic", n, v, STAT[n](x))
            require(list(m.col_name_arr) == [col], "column of a statistic", m.col_name_arr)
    ms = batches.standard_angle_metrics(col, replace_colname=rep)
    base_names = ["AngleMean", "AngleRms", "AngleRange", "Min", "Max"]
    for m, d in zip(ms, [m.__class__(col).name for m in ms]):
        full = d if rep is None else (d[: -len(col) - 1] if rep == "" else d[: -len(col)] + rep)
        if rep is None or d.count(col) == 1:
            require(m.name == full, "name of an angle statistic", m.name, full)
    # summaries
    mask = np.array(c["mask"][: len(x)])
    md = np.zeros(len(x), dtype=[("metricdata", float)])
    md["metricdata"] = x
    s = batches.standard_summary(with_count=c["count"])
    want = ["Mean", "Rms", "Median", "Max", "Min", "N(+3Sigma)", "N(-3Sigma)"] + (["Count"] if c["count"] else [])
    require([m.name.replace(" None", "") for m in s] == want, "names of summaries", [m.name for m in s])
    for m in s:
        m.colname = "metricdata"
        w = STAT[m.name.replace(" None", "")](x)
        require(np.isclose(m.run(md), w) or len(x) < 2, "value of a summary", m.name, m.run(md), w)
    e = batches.extended_summary()
    require([m.name.replace(" None", "") for m in e] == want[:7] + ["Count", "25th%ile", "75th%ile"], "names of summaries", [m.name for m in e])
    # light-curve summaries, on masked values as a bundle gives them
    b = mb.MetricBundle(maf.CountMetric("x"), maf.UserPointsSlicer(np.zeros(len(x)), np.zeros(len(x))), "", summary_metrics=batches.lightcurve_summary())
    det = (x > 10).astype(float)
    b.metric_values = np.ma.MaskedArray(det, mask)
    quiet(b.compute_summary_stats)
    sv = b.summary_values
    if (~mask).any():
        ok = det[~mask]
        want = {"Total detected": ok.sum(), "Total lightcurves in footprint": len(ok), "Total lightcurves on sky": len(x), "Fraction detected in footprint (mean)": ok.mean(), "Fraction detected of total (mean)": ok.sum() / len(x)}
        require(set(sv) == set(want), "names of light-curve summaries", sorted(sv))
        for k in want:
            require(np.isclose(sv[k], want[k]), "light-curve summary", k, sv[k], want[k])
        b.summary_metrics = batches.microlensing_summary("Npts", npts_required=c["npts"])
        b.metric_values = np.ma.MaskedArray(x, mask)
        b.summary_values = None
        quiet(b.compute_summary_stats)
        sv = b.summary_values
        ok = x[~mask]
        want = {"Fraction w/ at least %d points" % c["npts"]: np.mean(ok >= c["npts"]), "Total lightcurves in footprint": len(ok), "Total lightcurves on sky": len(x), "Mean number of points per lightcurves in footprint": ok.mean(), "Mean number of points per lightcurves in total": ok.sum() / len(x)}
        require(set(sv) == set(want), "names of microlensing summaries", sorted(sv))
        for k in want:
            require(np.isclose(sv[k], want[k]), "microlensing summary", k, sv[k], want[k])
    fr = batches.fraction_population_at_threshold(c["thr"], optnames=None if c["count"] else ["o%d" % i for i in range(len(c["thr"]))])
    require([(m.name, m.threshold, m.cumulative) for m in fr] == [("FractionPop %s" % (t if c["count"] else "o%d" % i), t, False) for i, t in enumerate(c["thr"])], "population fractions", [(m.name, m.threshold) for m in fr])
    hs = batches.summary_completeness_over_h(requiredChances=c["npts"], Hindex=0.4)
    require([(m.threshold, m.cumulative, m.hindex) for m in hs] == [(c["npts"], False, 0.4), (c["npts"], True, 0.4)], "completeness summaries")
    return "masked" if mask.any() else "plain"


def arms():
    return [
        Arm("parts", part_case(), t_part, quick=400, thorough=20000, rule="the shared building blocks over names, selections, labels and values; non-trivial: always"),
        Arm("select", call(), t_select, quick=150, thorough=12000, setup=setup, rule="26 batches, 2 column maps, 9 extra selections, labels, 4-24 visits; non-trivial: some bundle uses some but not all visits"),
        Arm("run", call(tuple(RUN + VALUED * 2)), t_run, quick=80, thorough=2500, setup=setup, rule="21 batches run on 4-24 visits; non-trivial: values computed (compared where the name says what they are)"),
        Arm("large", big_case(), t_big, quick=18, thorough=2000, setup=setup, rule="glance and DDF batches; non-trivial: some bundle uses some but not all visits"),
        Arm("radars", radar_case(), t_radar, quick=8, thorough=1000, setup=setup, rule="information batch and both radar batches (each built once); non-trivial: some bundle uses some but not all visits"),
    ]


def _probe_comcam():
    fakebatch.use()
    try:
        quiet(batches.glanceBatch, nside=2, nyears=1, pairnside=2, slicer_camera="ComCam")
    except AttributeError:
        return True
    return False


FINDING_PROBES = {"glance-comcam": _probe_comcam}
