"""C33: what is left unspecified takes its documented default; metrics use the columns they ask for and are repeatable."""

import copy
import importlib
import json
import os
import warnings

import healpy as hp
import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.maf_contrib as contrib
import rubin_sim.maf.metrics as M
import rubin_sim.maf.slicers as SL
from rubin_sim.maf.utils import *  # noqa: F401,F403  (loads what the packages load)
from vp import fakedata
from vp.core import Arm, require
from vp.metricrun import same

ASSUMPTIONS = ["the documented defaults are those listed in vp/defaults.json", "classes that need data files which are not here are left out"]
BUDGET = {"quick": 60, "thorough": 2400}
BANDS = "ugrizy"
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp", "defaults.json")))
# constructed only with data files or models the sandbox does not have, not constructible, judged by other checks (maps of metric values), or random
LEAVE = {"GW170817DetMetric", "LVDwarfsMetric", "PhotometricSelfCalUniformityMetric", "SNNSNMetric", "TransientAsciiSEDMetric", "FSMetric", "UDropoutsArea", "UDropoutsNumbersShallowestDepth", "MultibandMeanzBiasMetric",
         "TomographicClusteringSigma8biasMetric", "StripinessMetric", "UniformAreaFoMFractionMetric", "VolumeSumMetric", "FootprintFractionMetric", "GalaxyCountsMetric", "GalaxyCountsMetricExtended", "DepthLimitedNumGalMetric",
         "FftMetric", "SummaryMetric", "MoCompletenessMetric", "MoCompletenessAtTimeMetric", "TotalNumberSSO", "ValueAtHMetric", "MeanValueAtHMetric", "KNePopMetric", "PrestoColorKNePopMetric", "TdePopMetric", "TdePopMetricQuality", "XRBPopMetric",
         "MicrolensingMetric", "NYoungStarsMetric", "ChipVendorMetric", "StaticProbesFoMEmulatorMetric", "StaticProbesFoMEmulatorMetricSimple", "ApplyMappingMetric", "NightPointingMetric", "HourglassMetric", "PassMetric", "QSONumberCountsMetric", "SNCadenceMetric", "SNSNRMetric", "PeriodicMetric"}
MAPPED = {"AreaSummaryMetric", "AreaThresholdMetric", "FOArea", "FONv", "TotalPowerMetric", "NormalizeMetric", "ZeropointMetric"}
CHILD = {k for k, v in TABLE.items() if v["need"] == ["parent_discovery_metric"]}
SLOW = {"TripletBandMetric": 1, "TripletMetric": 1, "VarDepth": 1, "PeriodicStarMetric": 1, "PeriodicStarModulationMetric": 1, "GRBTransientMetric": 3, "SNSLMetric": 5}


def dec(v):
    if not isinstance(v, dict):
        return v
    (k, x), = v.items()
    if k == "array":
        return np.array(x)
    if k in ("list", "tuple"):
        return (list if k == "list" else tuple)(dec(y) for y in x)
    if k == "dict":
        return {a: dec(b) for a, b in x.items()}
    return getattr(np, x)


def cls(name):
    return getattr(importlib.import_module(TABLE[name]["module"]), name)


def needed(name, col="fiveSigmaDepth"):
    model = {k: 0.1 + 0.1 * i for i, k in enumerate(BANDS)}
    full = {"bin_size": 60.0, "window": 30.0, "mjd": 60500.0, "science_map": "combined_map", "lsst_filter": "i", "col": col, "model_dict": model, "arr_of_model_dicts": np.array([model, {k: 0.5 * v for k, v in model.items()}])}
    return {k: full[k] for k in TABLE[name]["need"] if k in full}


def explicit(name):
    return {k: dec(v) for k, v in TABLE[name]["defaults"].items()}


def build(name, col):
    """The object with everything left out, and with everything spelled out."""
    c = cls(name)
    n = needed(name, col)
    if "col" in n:
        e = {k: v for k, v in explicit(name).items() if k != "col"}
    else:
        e = explicit(name)
        if TABLE[name]["module"].endswith("metrics") and "col" not in e and name in ONECOL:
            n = {"col": col}
    if name in MAKE:
        n.update(MAKE[name])
        e = {k: v for k, v in e.items() if k not in MAKE[name]}
    if name in CHILD:
        par = M.DiscoveryMetric()
        return c(par, **n), c(M.DiscoveryMetric(**explicit("DiscoveryMetric")), **{**e, **n})
    return c(**n), c(**{**e, **n})


ONECOL = set()
VB = {"bins": np.arange(-0.5, 400, 5.0)}
MAKE = {**{k: VB for k in ("AccumulateCountMetric", "AccumulateMetric", "AccumulateM5Metric", "AccumulateUniformityMetric", "HistogramMetric", "HistogramM5Metric", "VectorMetric")}, "CountSubsetMetric": {"col": "band", "subset": "r"}, "PeriodicStarMetric": {"n_monte": 5}, "PeriodicStarModulationMetric": {"n_monte": 5},
        "NestedLinearMultibandModelMetric": {"n_filters": 3}, "SingleLinearMultibandModelMetric": {"n_filters": 3}}


def table(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    prof = c["profile"]
    if prof == "dense":
        t = np.cumsum(np.exp(r.uniform(np.log(20), np.log(6000), n)) / 86400.0)
    elif prof == "nights":
        t = np.cumsum(np.where(r.uniform(size=n) < 0.5, r.choice([0.001, 0.011, 0.02, 0.04, 0.09], n), r.choice([1, 2, 3, 10, 45], n) + r.uniform(-0.1, 0.1, n)))
    else:
        t = np.cumsum(np.exp(r.uniform(np.log(1e-4), np.log(c["long"]), n)))
    t = 60800.0 + t
    night = np.floor(t - 0.5).astype(int) - 60795
    b = c["bands"]
    d = {"observationStartMJD": t, "expMJD": t, "expmjd": t, "night": night, "band": np.array([b[k] for k in r.randint(0, len(b), n)], dtype="<U3")}
    d["filter"] = d["band"]
    lo, hi = c["depth"]
    d["fiveSigmaDepth"] = r.uniform(lo, hi, n)
    d["m5Optimal"] = d["fiveSigmaDepth"] + r.uniform(-0.2, 0.8, n)
    d["seeingFwhmGeom"] = r.uniform(0.4, 1.6, n)
    d["seeingFwhmEff"] = d["seeingFwhmGeom"] * 1.2 + 0.05
    d["visitExposureTime"] = r.choice([1.0, 10.0, 15.0, 29.2, 30.0, 38.0], n)
    d["visitTime"] = d["visitExposureTime"] + r.choice([2.0, 4.0], n)
    d["slewTime"] = r.uniform(2, 100, n)
    d["numExposures"] = r.randint(1, 3, n)
    d["skyBrightness"] = r.uniform(17, 22.5, n)
    d["saturation_mag"] = r.uniform(14, 18, n)
    d["airmass"] = r.uniform(1, 2.5, n)
    d["altitude"] = r.uniform(20, 88, n)
    d["azimuth"] = r.uniform(0, 360, n)
    d["zenithDistance"] = 90 - d["altitude"]
    d["HA"] = r.uniform(-6, 6, n)
    d["PA"] = r.uniform(-180, 180, n)
    d["paraAngle"] = d["PA"]
    d["rotSkyPos"] = r.uniform(0, 360, n)
    d["observationStartLST"] = r.uniform(0, 360, n)
    ra0, dec0 = c["pos"]
    d["fieldRA"] = (ra0 + r.uniform(-3, 3, n)) % 360
    d["fieldDec"] = np.clip(dec0 + r.uniform(-3, 3, n), -90, 90)
    d["RA1"], d["Dec1"] = d["fieldRA"], d["fieldDec"]
    for k in ("ra_pi_amp", "dec_pi_amp", "ra_dcr_amp", "dec_dcr_amp"):
        d[k] = r.uniform(-1, 1, n)
    d["observationId"] = np.arange(n)
    d["moonAlt"], d["sunAlt"] = r.choice([-60.0, -20.0, 5.0, 40.0], n), r.choice([-70.0, -40.0, -20.0], n)
    d["sunAz"], d["solarElong"] = r.uniform(0, 360, n), r.uniform(40, 170, n)
    d["scheduler_note"] = np.array(["pair_33, a", "DD:COSMOS", "blob, gr, b", "twilight", ""], dtype="<U20")[r.randint(0, 5, n)]
    d["observation_reason"] = np.array(["pairs_33_gr", "fbs", "twilight_near_sun", "ddf_cosmos", "pairs_15_ri"], dtype="<U20")[r.randint(0, 5, n)]
    d["science_program"] = np.array(["BLOCK-1", "BLOCK-2", ""], dtype="<U10")[r.randint(0, 3, n)]
    for k in range(1, 9):
        d[f"p{k}"] = r.uniform(-300, 700, n)
    d["value"] = r.choice([0.0, -3.0, 1.0, 2.0, 7.5, 359.0, 22.0, 1e4], n) + r.uniform(-1, 1, n)
    # moving objects
    d["SNR"] = r.choice([0.5, 4.5, 5.5, 8.0, 12.0, 30.0, 150.0], n)
    d["vis"] = (d["SNR"] > 4).astype(int)
    d["velocity"] = r.choice([0.2, 1.0, 2.5, 8.0, 40.0], n) + r.uniform(0, 1, n)
    for k, x in (("ra", 360), ("dec", 60), ("geo_dist", 4), ("ec_lon", 360), ("ec_lat", 60), ("solar_elong", 180), ("appMagV", 25), ("phase", 40), ("ecLon", 360), ("eclipLon", 360), ("eclipLat", 10)):
        d[k] = r.uniform(0, 1, n) * x
    d["appMagV"] = r.uniform(17, 25, n)
    d["appMag"] = d["appMagV"]
    d["Elongation"], d["MJD(UTC)"] = r.uniform(30, 180, n), r.uniform(53000, 65000, n)
    d["season"], d["coadd"] = r.randint(1, 3, n), np.ones(n, int)
    rec = np.zeros(n, dtype=[(k, v.dtype) for k, v in d.items()])
    for k, v in d.items():
        rec[k] = v
    bins = np.arange(15, 28.2, 0.2)
    lf = np.cumsum(np.exp((bins[:-1] - 15) * 0.4)) * c["crowd"]
    ra, de = np.radians(ra0), np.radians(dec0)
    gl = hp.Rotator(coord=["C", "G"])(np.pi / 2 - de, ra)
    sp = {"ra": ra, "dec": de, "sid": 3, "nside": 128, "ebv": c["ebv"], "gall": float(gl[1]) % (2 * np.pi), "galb": np.pi / 2 - float(gl[0])}
    for b in BANDS:
        sp["starLumFunc_" + b], sp["starMapBins_" + b] = lf, bins
    sp["starLumFunc"] = lf
    sp["starMapBins"] = bins
    for k in ("combined_map", "galactic_plane_map"):
        sp["galplane_priority_%s:sum" % k] = 0.7
        for i, b in enumerate(BANDS):
            sp["galplane_priority_%s:%s" % (k, b)] = 0.1 + 0.02 * i
    return rec, sp


@st.composite
def case_(draw, names):
    return {"name": draw(st.sampled_from(names)), "seed": draw(st.integers(0, 10**6)), "n": draw(st.sampled_from([0, 1, 2, 5, 12, 30, 60, 130, 300])), "profile": draw(st.sampled_from(["dense", "nights", "mixed"])), "long": draw(st.sampled_from([3.0, 60.0, 400.0])),
            "bands": draw(st.sampled_from(["r", "gr", "gri", "ugrizy", "ugrizy", "iz", "i"])), "depth": draw(st.sampled_from([(23.0, 25.0), (19.0, 26.0), (21.0, 22.0), (25.0, 26.5)])), "pos": (draw(st.sampled_from([0.5, 100.0, 266.4, 359.0])), draw(st.sampled_from([-60.0, -28.9, 2.0]))),
            "crowd": draw(st.sampled_from([0.01, 10.0, 1000.0])), "ebv": draw(st.sampled_from([0.0, 0.05, 0.19, 0.3])), "col": draw(st.sampled_from(["fiveSigmaDepth", "value", "airmass", "fieldRA"])), "which": draw(st.integers(0, 99))}


def evaluate(f):
    np.random.seed(5)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return "ok", f()
        except Exception as e:
            return type(e).__name__, None


def reduced(m, v):
    out = {}
    for k, f in getattr(m, "reduce_funcs", {}).items():
        out[k] = evaluate(lambda: f(copy.deepcopy(v)))
    return out


def alike(a, b):
    if isinstance(a, np.ndarray) and a.dtype.names:
        return isinstance(b, np.ndarray) and a.dtype.names == b.dtype.names and all(alike(a[k], b[k]) for k in a.dtype.names)
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return same(a, b)


def metric_test(c):
    name = c["name"]
    if name in SLOW:
        c = dict(c, n=min(c["n"], 30))
    rec, sp = table(c)
    if name in MAPPED:
        rec = np.zeros(hp.nside2npix(16), dtype=[("metricdata", float)])
        r = np.random.RandomState(c["seed"])
        rec["metricdata"] = r.choice([10.0, 700.0, 840.0], rec.size) + r.uniform(0, 100, rec.size)
        sp = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = build(name, c["col"])
    require(a.name == b.name and a.units == b.units and a.metric_dtype == b.metric_dtype and same(a.badval, b.badval), "name, units or type of", name, (a.name, a.units), (b.name, b.units))
    if name == "UseMetric":
        rec = rec[:1]
    mo = issubclass(type(a), M.BaseMoMetric)
    if mo:
        orb = {"H": 20.0, "q": 1.1, "e": 0.3, "a": 1.6, "tPeri": 60900.0, "epoch": 60800.0, "objId": 1, "meanAnomaly": 40.0}
        par = (lambda m: m.parent_metric.run(rec.copy(), orb, 20.0)) if name in CHILD else None
        f = lambda m: m.run(rec.copy(), orb, 20.0, par(m)) if par else m.run(rec.copy(), orb, 20.0)
    else:
        cols = [x for x in dict.fromkeys(a.col_name_arr) if x in rec.dtype.names]
        require(len(cols) == len([x for x in dict.fromkeys(a.col_name_arr) if x is not None]), "columns nobody has", list(a.col_name_arr))
        require(list(a.col_name_arr) == list(b.col_name_arr), "columns asked for by", name, a.col_name_arr, b.col_name_arr)
        own = np.zeros(len(rec), dtype=[(x, rec.dtype[x]) for x in cols] or [("night", int)])
        for x in cols:
            own[x] = rec[x]
        f = lambda m: m.run(own.copy(), copy.deepcopy(sp))
    st_a, va = evaluate(lambda: f(a))
    st_b, vb = evaluate(lambda: f(b))
    require(st_a == st_b, "with the defaults left out / spelled out:", name, st_a, st_b)
    if st_a != "ok":
        return None
    require(alike(va, vb), "with the defaults left out / spelled out:", name, va, vb)
    ra, rb = reduced(a, va), reduced(b, vb)
    require(set(ra) == set(rb) and all(ra[k][0] == rb[k][0] and (ra[k][0] != "ok" or alike(ra[k][1], rb[k][1])) for k in ra), "reduced values with the defaults left out / spelled out:", name, ra, rb)
    if not mo:
        _, vc = evaluate(lambda: a.run(rec.copy() if name not in MAPPED else own.copy(), copy.deepcopy(sp)))
        require(alike(va, vc), "value with other columns present", name, va, vc)
    bad = same(va, a.badval) if np.ndim(va) == 0 and not isinstance(va, dict) else False
    return None if bad else name


def stacker_test(c):
    name = c["name"]
    rec, _ = table(dict(c, n=max(1, min(c["n"], 40))))
    a, b = build(name, None)
    need = [x for x in a.cols_req]
    require(list(need) == list(b.cols_req) and list(a.cols_added) == list(b.cols_added) and list(a.units) == list(b.units), "columns of", name, need, b.cols_req)
    own = np.zeros(len(rec), dtype=[(x, rec.dtype[x]) for x in dict.fromkeys(need)])
    for x in own.dtype.names:
        own[x] = rec[x]
    (sa, va), (sb, vb) = evaluate(lambda: a.run(own.copy())), evaluate(lambda: b.run(own.copy()))
    require(sa == sb, "with the defaults left out / spelled out:", name, sa, sb)
    require(a == b and not (a != b), "stackers with the same settings are equal", name)
    if sa != "ok":
        return None
    for k in a.cols_added:
        require(va[k].dtype == vb[k].dtype and bool(np.all((va[k] == vb[k]) | (va[k] != va[k]))), "column with the defaults left out / spelled out:", name, k, va[k], vb[k])
    return name


def slicer_test(c):
    name = c["name"]
    rec, _ = table(dict(c, n=max(3, min(c["n"], 60))))
    extra = {"HealpixSlicer": {"nside": 8}, "HealpixSubsetSlicer": {"nside": 8, "hpid": np.arange(100, 300)}, "UserPointsSlicer": {"ra": np.array([c["pos"][0], c["pos"][0] + 2.0]), "dec": np.array([c["pos"][1], c["pos"][1] + 1.0])}, "HealpixSDSSSlicer": {"nside": 8}, "MovieSlicer": {"slice_col_name": c["col"], "force_no_ffmpeg": True, "bin_size": None},
             "OneDSlicer": {"slice_col_name": c["col"]}, "NDSlicer": {"slice_col_list": [c["col"], "seeingFwhmGeom"]}}.get(name, {})
    if name in ("HealpixSlicer", "HealpixSubsetSlicer", "UserPointsSlicer"):
        extra = dict(extra, use_camera=False) if c["which"] % 3 else extra
    k = cls(name)
    e = {**explicit(name), **extra}
    if c["which"] % 2 and name in ("HealpixSlicer",):
        require(k(use_camera=False, verbose=False).nslice == k(**dict(explicit(name), use_camera=False, verbose=False)).nslice, "default resolution")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        (sa, a), (sb, b) = evaluate(lambda: k(**extra)), evaluate(lambda: k(**e))
        require(sa == sb, "construction with the defaults left out / spelled out:", name, sa, sb)
        if sa != "ok":
            return None
        sa, sb = evaluate(lambda: a.setup_slicer(rec.copy()))[0], evaluate(lambda: b.setup_slicer(rec.copy()))[0]
        require(sa == sb, "setup with the defaults left out / spelled out:", name, sa, sb)
        if sa != "ok":
            return None
        require(a == b, "slicers with the same settings are equal", name)
        require(a.nslice == b.nslice and same(a.badval, b.badval) and a.columns_needed == b.columns_needed, "slicer with the defaults left out / spelled out:", name, a.nslice, b.nslice)
        used = 0
        for i in range(0, a.nslice, max(1, a.nslice // 60)):
            x, y = a[i]["idxs"], b[i]["idxs"]
            require(sorted(np.ravel(x).tolist()) == sorted(np.ravel(y).tolist()), "visits of a slice with the defaults left out / spelled out:", name, i, x, y)
            used += np.size(x) > 0
    return name if used else None


def arms():
    fakedata.use()
    mets = sorted(k for k, v in TABLE.items() if v["kind"] == "metrics" and k not in LEAVE)
    for k in mets:
        import inspect

        p = inspect.signature(cls(k).__init__).parameters
        if issubclass(cls(k), M.BaseMoMetric):
            continue
        if "col" in p and "col" not in TABLE[k]["defaults"]:
            ONECOL.add(k)
        elif "col" not in p and len(p) == 3 and "kwargs" in p and not TABLE[k]["defaults"]:
            ONECOL.add(k)
    slow = [k for k in mets if k in SLOW]
    fast = [k for k in mets if k not in SLOW]
    sta = sorted(k for k, v in TABLE.items() if v["kind"] == "stackers" and k not in ("WFDlabelStacker", "MoMagStacker", "AppMagNullStacker", "AppMagStacker", "CometAppMagStacker", "SNRStacker", "EclStacker", "AllMoStackers"))
    slc = sorted(k for k, v in TABLE.items() if v["kind"] == "slicers" and k not in ("MoObjSlicer", "HourglassSlicer", "HealpixSDSSSlicer"))
    h = len(fast) // 4 + 1
    return [Arm("metrics%d" % i, case_(fast[i * h:(i + 1) * h]), metric_test, quick=1500, thorough=40000, rule="the metric gives a value other than the bad value") for i in range(4)] + [
        Arm("slow", case_(slow), metric_test, quick=40, thorough=1500, rule="the metric gives a value other than the bad value"),
        Arm("stackers", case_(sta), stacker_test, quick=400, thorough=10000, rule="the columns can be computed"),
        Arm("slicers", case_(slc), slicer_test, quick=400, thorough=10000, rule="some slice has visits"),
    ]


def teardown():
    fakedata.cleanup()
