"""C34: transients, variables and lensing events: what the visits would detect."""

import copy
import itertools
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.stats import f as f_dist

import rubin_sim.maf.maf_contrib as contrib
import rubin_sim.maf.metrics as metrics
from rubin_sim.maf.maf_contrib.example_new_metrics import NightsWithNFiltersMetric
from rubin_sim.maf.maf_contrib.filter_pair_t_gaps_metric import FilterPairTGapsMetric
from rubin_sim.maf.maf_contrib.intervals_between_obs_metric import IntervalsBetweenObsMetric
from rubin_sim.maf.maf_contrib.kne_metrics import KnLc, KNePopMetric, generate_kn_pop_slicer
from rubin_sim.maf.maf_contrib.microlensing_metric import MicrolensingMetric, generate_microlensing_slicer, microlensing_amplification, microlensing_amplification_fsfb
from rubin_sim.maf.maf_contrib.num_obs_in_survey_time_overlap_metric import NumObsInSurveyTimeOverlapMetric
from rubin_sim.maf.maf_contrib.periodic_metric import PeriodicMetric
from rubin_sim.maf.maf_contrib.periodic_star_metric import PeriodicStarMetric
from rubin_sim.maf.maf_contrib.periodic_star_modulation_metric import PeriodicStarModulationMetric
from rubin_sim.maf.maf_contrib.presto_color_kne_pop_metric import PrestoColorKNePopMetric, generate_presto_pop_slicer
from rubin_sim.maf.maf_contrib.tdes_pop_metric import TdePopMetric, TdePopMetricQuality, generate_tde_pop_slicer
from rubin_sim.maf.maf_contrib.triplet_metric import TripletBandMetric, TripletMetric
from rubin_sim.maf.maf_contrib.grb_transient_metric import GRBTransientMetric
from rubin_sim.maf.maf_contrib.xrb_metrics import XrbLc, XRBPopMetric, generate_xrb_pop_slicer
from rubin_sim.maf.utils import collapse_night, stellar_mags
from rubin_sim.phot_utils import DustValues
from rubin_scheduler.utils import SURVEY_START_MJD, calc_season
from vp import fakedata
from vp.core import Arm, require
from vp.metricrun import same

ASSUMPTIONS = ["cases in which a visit falls within 1e-9 of a limit in time are set aside", "light-curve files are generated ones in the layout of the real files",
               "extinction per unit E(B-V) is taken from the dust-parameter class, which has its own check", "the Fisher option of the microlensing metric, and the supernova metrics that need reference files, are out of scope"]
BUDGET = {"quick": 90, "thorough": 2400}
BANDS = "ugrizy"
MJD, M5, FILT, NIGHT = "observationStartMJD", "fiveSigmaDepth", "band", "night"


def visits(draw, lo, hi, span, m5=(21.0, 25.0), bands=BANDS, dense=True):
    """Visits in bursts and singly over `span` days."""
    n = draw(st.integers(lo, hi))
    seed = draw(st.integers(0, 10**6))
    return {"n": n, "seed": seed, "span": span, "m5": m5, "bands": bands, "burst": draw(st.sampled_from([0.0, 0.5])) if dense else 0.0}


def table(c, names=(MJD, M5, FILT, NIGHT)):
    r = np.random.RandomState(c["seed"])
    t = r.uniform(0, c["span"], c["n"])
    for i in range(1, c["n"]):
        if r.uniform() < c["burst"]:
            t[i] = t[i - 1] + r.choice([0.01, 0.05, 0.2, 1.0, 3.0]) * r.uniform(0.5, 2)
    out = np.zeros(c["n"], dtype=[(names[0], float), (names[1], float), (names[2], "U1"), (names[3], int)])
    out[names[0]] = SURVEY_START_MJD + t
    out[names[1]] = r.uniform(*c["m5"], c["n"])
    out[names[2]] = r.choice(list(c["bands"]), c["n"])
    out[names[3]] = np.floor(t).astype(int)
    return out


def call(m, rec, sp=None):
    """Declared columns only, twice, and in another order."""
    cols = [c for c in dict.fromkeys(m.col_name_arr)]
    d = np.zeros(len(rec), dtype=[(c, rec.dtype[c]) for c in cols])
    for c in cols:
        d[c] = rec[c]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        a = m.run(d.copy(), copy.deepcopy(sp))
        b = m.run(d.copy(), copy.deepcopy(sp))
        p = m.run(d[np.random.RandomState(len(d)).permutation(len(d))], copy.deepcopy(sp))
    require(same(a, b), "a second run gives another value", type(m).__name__, a, b)
    require(same(a, p, 1e-8, 1e-9), "the order of the visits matters to", type(m).__name__, a, p)
    return a


def near(x, y=0.0):
    return abs(x - y) < 1e-9


# ---------------------------------------------------------------- simple transients


@st.composite
def trans(draw):
    dur = draw(st.sampled_from([5.0, 10.0, 30.0]))
    return {"v": visits(draw, *draw(st.sampled_from([(1, 10), (20, 60), (40, 60)])), draw(st.sampled_from([12.0, 40.0, 120.0])), m5=(19.0, 22.0), bands=draw(st.sampled_from(["r", "gr", BANDS]))), "dur": dur, "peak_time": draw(st.sampled_from([0.2, 0.5])) * dur, "rise": draw(st.sampled_from([0.0, -0.3])), "decline": draw(st.sampled_from([0.0, 0.2])),
            "peaks": draw(st.sampled_from([{}, {"u": 23.0, "g": 20.5}, {"r": 18.0, "z": 21.0, "i": 22.0, "y": 19.5}])), "pre": draw(st.sampled_from([0, 1, 2, 3])), "per": draw(st.integers(1, 4)), "filters": draw(st.integers(1, 3)), "phase": draw(st.integers(1, 3)),
            "years": draw(st.sampled_from([1.0, 10.0])), "start": draw(st.sampled_from([None, 0.0, -3.7, 5.3])), "plus": draw(st.sampled_from([0.0, -0.5, 0.7])), "partial": draw(st.booleans())}


def transient(c):
    rec = table(c["v"])
    kw = {"trans_duration": c["dur"], "peak_time": c["peak_time"], "rise_slope": c["rise"], "decline_slope": c["decline"], "n_pre_peak": c["pre"], "n_per_lc": c["per"], "n_filters": c["filters"], "n_phase_check": c["phase"], "survey_duration": c["years"], "detect_m5_plus": c["plus"], "count_method": "partialLC" if c["partial"] else "full"}
    kw.update({k + "_peak": v for k, v in c["peaks"].items()})
    if c["start"] is not None:
        kw["survey_start"] = SURVEY_START_MJD + c["start"]
    got = call(metrics.TransientMetric(**kw), rec)
    start = rec[MJD].min() if c["start"] is None else SURVEY_START_MJD + c["start"]
    total = found = 0
    for k in range(c["phase"]):
        shift = k * c["dur"] / c["phase"]
        n = c["years"] / (c["dur"] / 365.25)
        total += (math.ceil(n) if c["partial"] else math.floor(n)) - (k > 0)
        curves = {}
        for v in rec:
            x = v[MJD] - start + shift
            lc = math.floor(x / c["dur"])
            t = x - lc * c["dur"]
            if (k or v[MJD] != start) and (near(t, 0) or near(t, c["dur"])) or near(t, c["peak_time"]) or any(near(t, c["dur"] * j / c["per"]) for j in range(1, c["per"])):
                return None
            mag = c["peaks"].get(str(v[FILT]), 20) + (c["rise"] * (t - c["peak_time"]) if t <= c["peak_time"] else c["decline"] * (t - c["peak_time"]))
            if mag < v[M5] + c["plus"]:
                curves.setdefault(lc, []).append((t, str(v[FILT])))
        for pts in curves.values():
            ok = sum(t < c["peak_time"] for t, _ in pts) >= c["pre"]
            if c["per"] > 1 or c["filters"] > 1:
                ok &= sum(len({math.floor(t / c["dur"] * c["per"]) for t, f in pts if f == b}) >= c["per"] for b in {f for _, f in pts}) >= c["filters"]
            found += ok
    require(same(got, found / total), "fraction of transients detected", got, found, total)
    return ("several" if c["per"] > 1 or c["filters"] > 1 else "any") + ("-pre" if c["pre"] else "") if found else None


@st.composite
def grbs(draw):
    return {"v": visits(draw, 1, 50, draw(st.sampled_from([12.0, 60.0])), m5=(20.0, 26.0), bands=draw(st.sampled_from(["r", "gr", BANDS]))), "dur": draw(st.sampled_from([5.0, 10.0])), "mag": draw(st.sampled_from([None, 14.0])), "alpha": draw(st.sampled_from([None, 0.8])), "per": draw(st.integers(1, 3)), "filters": draw(st.integers(1, 3)),
            "phase": draw(st.integers(1, 3)), "years": draw(st.sampled_from([1.0, 10.0])), "start": draw(st.sampled_from([None, -3.7, 5.3])), "plus": draw(st.sampled_from([0.0, -0.5])), "dmag": draw(st.sampled_from([None, 0.3]))}


def grb(c):
    rec = table(c["v"])
    kw = {"apparent_mag_1min_sigma": 0.0, "mjd_col": MJD, "trans_duration": c["dur"], "n_per_filter": c["per"], "n_filters": c["filters"], "n_phase_check": c["phase"], "survey_duration": c["years"], "detect_m5_plus": c["plus"]}
    kw.update({k: v for k, v in (("apparent_mag_1min_mean", c["mag"]), ("alpha", c["alpha"]), ("min_delta_mag", c["dmag"])) if v is not None})
    if c["start"] is not None:
        kw["survey_start"] = SURVEY_START_MJD + c["start"]
    m = GRBTransientMetric(**kw)
    got = call(m, rec)
    start = rec[MJD].min() if c["start"] is None else SURVEY_START_MJD + c["start"]
    count, total = dict.fromkeys(list(BANDS) + ["any"], 0), 0
    for k in range(c["phase"]):
        shift = k * c["dur"] / c["phase"]
        total += math.floor(c["years"] / (c["dur"] / 365.25)) - (k > 0)
        curves = {}
        for v in np.sort(rec, order=MJD):
            x = v[MJD] - start + shift
            lc = math.floor(x / c["dur"])
            t = x - lc * c["dur"]
            if (k or v[MJD] != start) and (near(t, 0) or near(t, c["dur"])):
                return None
            mag = 0.0 if t <= 0 else (c["mag"] or 15.35) + (c["alpha"] or 1) * 2.5 * math.log10(t * 1440)
            if mag < v[M5] + c["plus"]:
                curves.setdefault(lc, {}).setdefault(str(v[FILT]), []).append(mag)
        for lc in curves.values():
            good = [b for b, x in lc.items() if 1 + sum(abs(p - q) > (c["dmag"] or 0.0) for p, q in zip(x, x[1:])) >= c["per"]]
            for b in good:
                count[b] += 1
            count["any"] += len(good) >= c["filters"]
    require(same(got, {b: n / total for b, n in count.items()}), "afterglows detected", got, count, total)
    for b in BANDS:
        require(same(getattr(m, "reduce_band" + b)(got), count[b] / total), "band", b)
    require(same(m.reduce_bandany_nfilters(got), count["any"] / total), "any filters")
    return "detected" if count["any"] else None


# ---------------------------------------------------------------- counting


@st.composite
def counts(draw):
    return {"v": visits(draw, 1, 40, draw(st.sampled_from([2.0, 30.0, 400.0])), m5=(17.5, 24.0), bands=draw(st.sampled_from(["r", "gr", BANDS]))), "n": draw(st.integers(1, 3)), "lo": draw(st.sampled_from([None, 0.5, 2])), "hi": draw(st.sampled_from([None, 6, 48])), "rmin": draw(st.sampled_from([None, 2])), "rmax": draw(st.sampled_from([None, 5])),
            "windows": draw(st.lists(st.tuples(st.integers(0, 200), st.integers(1, 200)), min_size=1, max_size=3)), "stat": draw(st.sampled_from(["mean", "median", "std"])), "all": draw(st.booleans()), "pairs": draw(st.sampled_from([None, ["rr"], ["gr", "gg", "ri"]])), "clip": draw(st.sampled_from([None, 2])),
            "period": draw(st.sampled_from([None, 0.7, 5.0])), "amp": draw(st.sampled_from([None, 0.01, 0.5])), "mag": draw(st.sampled_from([None, 18, 23])), "sig": draw(st.sampled_from([None, 0.001]))}


def nearly(values, limits):
    return any(near(v, x) for v in values for x in limits)


def counting(c):
    rec = table(c["v"])
    t = [float(x) for x in rec[MJD]]
    fl = [str(x) for x in rec[FILT]]
    gaps = [abs(a - b) for a, b in itertools.combinations(t, 2)]
    # nights with several filters
    got = call(NightsWithNFiltersMetric(filter_col=FILT, n_filters=c["n"]), rec)
    require(got == sum(len({f for f, g in zip(fl, rec[NIGHT]) if g == n}) > c["n"] for n in set(rec[NIGHT])), "nights with more than n filters", got)
    # triplets
    lo, hi = (1 if c["lo"] is None else c["lo"]) / 24, (12 if c["hi"] is None else c["hi"]) / 24
    kw = {k: v for k, v in (("DelMin", c["lo"]), ("DelMax", c["hi"]), ("RatioMin", c["rmin"]), ("RatioMax", c["rmax"])) if v is not None}
    trip = 0
    if not nearly(gaps, [lo, hi]):
        ok = [(i, j) for i in range(len(t)) for j in range(len(t)) if lo < t[j] - t[i] < hi]
        nxt = {}
        for i, j in ok:
            nxt.setdefault(i, []).append(j)
        tri = [(i, j, k) for i, j in ok for k in nxt.get(j, [])]
        got = call(TripletMetric(time_col=MJD, **kw), rec)
        require(got == len(tri), "number of triplets", got, len(tri))
        want = dict.fromkeys(BANDS, 0)
        for i, j, k in tri:
            if fl[i] == fl[j] == fl[k]:
                a, b = t[j] - t[i], t[k] - t[j]
                want[fl[i]] += (1 if c["rmin"] is None else c["rmin"]) < max(a, b) / min(a, b) < (1000 if c["rmax"] is None else c["rmax"])
        m = TripletBandMetric(time_col=MJD, filter_col=FILT, **kw)
        got = call(m, rec)
        require(got == want, "triplets per band", got, want)
        require(m.reduce_bandall(got) == sum(want.values()) and all(getattr(m, "reduce_band" + b)(got) == want[b] for b in BANDS), "reduced triplets")
        trip = len(tri)
    # dates
    from astropy.time import Time

    wins = [(Time(math.floor(SURVEY_START_MJD) + a, format="mjd").strftime("%Y-%m-%d"), Time(math.floor(SURVEY_START_MJD) + a + b, format="mjd").strftime("%Y-%m-%d")) for a, b in c["windows"]]
    lims = [(math.floor(SURVEY_START_MJD) + a, math.floor(SURVEY_START_MJD) + a + b) for a, b in c["windows"]]
    got = call(NumObsInSurveyTimeOverlapMetric(wins), rec)
    require(got == sum(a < x < b for a, b in lims for x in t), "visits in the windows", got, lims)
    d = []
    for a, b in lims:
        x = sorted(v for v in t if a < v < b)
        d += [q - p for p, q in zip(x, x[1:])]
    got = call(IntervalsBetweenObsMetric(wins, c["stat"]), rec)
    want = {"mean": np.mean, "median": np.median, "std": np.std}[c["stat"]](d) if d else np.nan
    require(same(got, want, 1e-7, 1e-9), "intervals within the windows", got, want)
    # gaps of pairs of filters
    kw = {} if c["pairs"] is None else {"fltpairs": c["pairs"]}
    if c["clip"]:
        kw["nv_clip"] = dict.fromkeys([a + b for a in BANDS for b in BANDS], c["clip"])
    m = FilterPairTGapsMetric(filter_col=FILT, allgaps=c["all"], **kw)
    got = call(m, rec)
    tot, unsure = 0.0, False
    default = {"gg": 69, "rr": 344, "ii": 355, "zz": 282, "yy": 288}
    for a, b in c["pairs"] or [x + y for i, x in enumerate(BANDS) for y in BANDS[i:]]:
        A, B = ([x for x, f, q in zip(t, fl, rec[M5]) if f == k and q > 18] for k in (a, b))
        bins = np.logspace(np.log10(5 / 60 / 60 / 24), np.log10(3650 if a == b else 2), 50)
        if c["all"]:
            g = [abs(x - y) for x, y in (itertools.combinations(A, 2) if a == b else itertools.product(A, B))]
        elif a == b:
            s = sorted(A)
            g = [y - x for x, y in zip(s, s[1:])]
        else:
            g = [min(y - x for y in B if y > x) for x in A if any(y > x for y in B)] + [min(x - y for y in B if y < x) for x in A if any(y < x for y in B)]
        if nearly(g, bins):
            unsure = True
        h = [sum(bins[i] <= x < bins[i + 1] for x in g) for i in range(len(bins) - 1)]
        if any(h):
            s = np.std([min(x, c["clip"] or default.get(a + b, 30)) for x in h])
            tot += sum(h) / s if s else np.inf
    if not unsure:
        require(same(got, tot, 1e-6), "figure of merit of the gaps", got, tot)
    # variables that are told from constant stars
    kw = {k: v for k, v in (("periods", c["period"]), ("amplitudes", c["amp"]), ("star_mags", c["mag"]), ("sig_level", c["sig"])) if v is not None}
    many = {**kw, "periods": [c["period"] or 2.0, 3.3], "amplitudes": [c["amp"] or 0.1, 0.05], "star_mags": [c["mag"] or 20, 21]}
    one, two = call(metrics.PeriodicDetectMetric(**kw), rec), call(metrics.PeriodicDetectMetric(**many), rec)
    want, edge = [], False
    for per, amp, mag in zip(many["periods"], many["amplitudes"], many["star_mags"]):
        u = sorted(set(fl))
        n, dof = len(t), 3.0
        if n <= 3 + len(u):
            want.append(0)
            continue
        chi = 0.0
        mags = stellar_mags("F", rmag=mag)
        for b in u:
            lc = np.array([amp * math.sin(2 * math.pi * x / per) + mags[b] for x, f in zip(t, fl) if f == b])
            m5 = np.array([q for q, f in zip(rec[M5], fl) if f == b])
            err = 2.5 * np.log10(1 + 1 / (5 * 10 ** (-0.4 * (lc - m5))))
            mean = np.sum(lc / err**2) / np.sum(1 / err**2)
            chi += np.sum((lc - mean) ** 2 / err**2)
        p = f_dist.sf((chi - (n - 3 - len(u))) / dof, dof, n - 3 - len(u))
        lim = 0.05 if c["sig"] is None else c["sig"]
        edge |= abs(p - lim) < 1e-6
        want.append(int(np.isfinite(p) and p < lim))
    if not edge:
        require(one == want[0] and two == sum(want), "variable stars detected", one, two, want)
    return "triplets" if trip else ("gaps" if tot else None)


def window(c):
    """The spectral window of the visits."""
    rec = table(c)
    m = PeriodicMetric(time_col=MJD)
    d = rec[[MJD]].copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = m.run(d)
    t = rec[MJD] - rec[MJD][0]
    f = np.arange(30000) * 25 / 30000
    w = np.array([np.cos(2 * np.pi * np.outer(x, t)).mean(axis=1) for x in np.array_split(f, 10)]).ravel()
    w.sort()
    require(same(a, [w[-2], w[:-1].sum() / 29999], 1e-6, 1e-8), "spectral window", a, w[-2], w[:-1].sum() / 29999)
    require(same(m.reduce_peak(a), 1 - w[-2], 1e-6, 1e-8) and same(m.reduce_sum(a), w[:-1].sum() / 29999, 1e-6, 1e-8), "reduced window")
    return "window" if len(rec) > 1 else None


# ---------------------------------------------------------------- populations

TMP = {}


def lcfiles():
    if "kn" not in TMP:
        root = TMP["root"] = tempfile.mkdtemp(prefix="c34_")
        r = np.random.RandomState(7)
        TMP["kn"], TMP["knlc"], TMP["tde"], TMP["tdelc"] = [], [], [], []
        for k in range(3):
            ph = np.concatenate([[0.15], np.sort(r.uniform(0.2, 35, 25))])
            mags = -16.0 + r.uniform(-1, 1, 6) + np.outer(ph, r.uniform(0.02, 0.5, 6)) - (2 * np.exp(-ph / 3))[:, None] * r.uniform(-1, 1, 6)
            p = os.path.join(root, "kn%d.dat" % k)
            np.savetxt(p, np.column_stack([ph, mags]))
            TMP["kn"].append(p)
            x = np.loadtxt(p)
            TMP["knlc"].append({b: (x[:, 0], x[:, i + 1]) for i, b in enumerate(BANDS)})
            p, lc = os.path.join(root, "tde%d.dat" % k), {}
            with open(p, "w") as fh:
                for i, b in enumerate(BANDS):
                    ph = np.round(np.sort(r.uniform(-60, 120, 20)), 4)
                    mg = np.round(20 + r.uniform(0, 1.5) + np.abs(ph) * r.uniform(0.01, 0.05), 4)
                    lc[b] = (ph, mg)
                    for q, w in zip(ph, mg):
                        fh.write("%.4f %.4f %s\n" % (q, w, b))
            TMP["tde"].append(p)
            TMP["tdelc"].append(lc)
        TMP["ax1"] = dict(DustValues().ax1)
    return TMP


def curve(lc, t):
    ph, mg = lc
    if t < ph[0] or t > ph[-1]:
        return 99.0
    i = min(max(int(np.searchsorted(ph, t)) - 1, 0), len(ph) - 2)
    return mg[i] + (mg[i + 1] - mg[i]) * (t - ph[i]) / (ph[i + 1] - ph[i])


def err(mag, m5):
    with np.errstate(all="ignore"):
        return 2.5 * np.log10(1 + 1 / (5 * 10 ** (-0.4 * (np.asarray(mag) - m5))))


@st.composite
def pops(draw):
    return {"v": visits(draw, 1, 45, draw(st.sampled_from([3.0, 40.0, 150.0])), m5=(20.0, 25.0), bands=draw(st.sampled_from(["r", "iz", "ugr", BANDS]))), "peak": draw(st.floats(-5, 60)), "idx": draw(st.integers(0, 2)), "ebv": draw(st.sampled_from([0.0, 0.1, 1.5])), "dist": draw(st.sampled_from([10.0, 60.0, 250.0])),
            "pts": draw(st.sampled_from([None, 1, 5])), "lc": draw(st.booleans()), "mjd0": draw(st.sampled_from([None, 3.25])), "tmin": draw(st.sampled_from([None, -50])), "tmax": draw(st.sampled_from([None, 40]))}


def setup_times(c, limits):
    rec = table(c["v"])
    off = c["mjd0"] or 0.0
    t = rec[MJD] - SURVEY_START_MJD - off - c["peak"]
    return rec, t, any(abs(x - y) < 1e-7 for x in t for y in limits)


def kne(c):
    L = lcfiles()
    rec, t, bad = setup_times(c, [0.0, 30.0])
    if bad:
        return None
    kw = {} if c["mjd0"] is None else {"mjd0": SURVEY_START_MJD + c["mjd0"]}
    if c["pts"] is not None:
        kw["pts_needed"] = c["pts"]
    m = KNePopMetric(file_list=L["kn"], output_lc=c["lc"], **kw)
    sp = {"peak_time": c["peak"], "file_indx": c["idx"], "ebv": c["ebv"], "distance": c["dist"]}
    d = rec[[MJD, M5, FILT, NIGHT]].copy()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = m.run(d, dict(sp))
    dm = 5 * math.log10(c["dist"] * 1e6) - 5
    mags = np.array([curve(L["knlc"][c["idx"]][str(f)], x) + L["ax1"][str(f)] * c["ebv"] + dm for x, f in zip(t, rec[FILT])])
    det = [i for i in range(len(t)) if 0 < t[i] < 30 and mags[i] < rec[M5][i]]
    if any(abs(a - b) < 1e-8 for a, b in zip(mags, rec[M5])):
        return None
    need = 2 if c["pts"] is None else c["pts"]
    fl = [str(rec[FILT][i]) for i in det]
    e = err(mags, rec[M5])

    def evolves(bands):
        if len(det) < need:
            return 0
        if max(t[i] for i in det) - min(t[i] for i in det) < 0.125:
            return 0
        rates = []
        for b in set(fl) & set(bands):
            ii = [i for i in det if rec[FILT][i] == b]
            hi, lo = max(ii, key=lambda i: mags[i]), min(ii, key=lambda i: mags[i])
            if abs(t[hi] - t[lo]) > 0.125 and mags[lo] + e[lo] < mags[hi] - e[hi]:
                rates.append((mags[hi] - mags[lo]) / (t[hi] - t[lo]))
            else:
                rates.append(0)
        return int(bool(rates) and not (max(rates) < 0.3 and min(rates) > -1.0))

    want = {"multi_detect": int(len(det) >= need), "multi_color_detect": int(len(set(fl)) > 1), "red_color_detect": int(sum(f in "izy" for f in fl) >= 4), "blue_color_detect": int(sum(f in "ugr" for f in fl) >= 4)}
    if len(det) or need > 0:
        want.update({"ztfrest_simple": evolves(BANDS), "ztfrest_simple_red": evolves("izy"), "ztfrest_simple_blue": evolves("ugr")})
    for k, v in want.items():
        require(got[k] == v, "kilonova " + k, got[k], v, fl)
        require(getattr(m, "reduce_" + k)(got) == v, "reduced " + k)
    require(("lc" in got) == c["lc"], "light curve only on request")
    if c["lc"]:
        x = got["lc"]
        require(same(x[1], np.where(mags > 50, 99.0, mags), 1e-8) and same(x[0], rec[MJD]) and same(x[3], rec[M5]) and list(x[4]) == list(rec[FILT]), "light curve")
        require(same(x[2], e, 1e-6) and tuple(got["lc_colnames"]) == ("t", "mag", "mag_unc", "maglim", "filter"), "uncertainties of the light curve")
    if want["multi_detect"]:
        return "evolving" if want.get("ztfrest_simple") else "detected"
    return None


@st.composite
def pops3(draw):
    c = draw(pops())
    c["v"] = visits(draw, 6, 30, draw(st.sampled_from([2.0, 8.0])), m5=(21.0, 26.0), bands=draw(st.sampled_from(["gr", "uy", "riz", BANDS])))
    c["peak"] = draw(st.floats(-3, 3))
    c["dist"] = draw(st.sampled_from([10.0, 40.0, 100.0]))
    return c


def presto(c):
    L = lcfiles()
    rec, t, bad = setup_times(c, [0.0, 30.0])
    if bad:
        return None
    m = PrestoColorKNePopMetric(file_list=L["kn"], output_lc=True, **({} if c["mjd0"] is None else {"mjd0": SURVEY_START_MJD + c["mjd0"]}))
    dm = 5 * math.log10(c["dist"] * 1e6) - 5
    mags = np.array([curve(L["knlc"][c["idx"]][str(f)], x) + L["ax1"][str(f)] * c["ebv"] + dm for x, f in zip(t, rec[FILT])])
    fl = [str(f) for f, x, g, q in zip(rec[FILT], t, mags, rec[M5]) if 0 < x < 30 and g < q]
    want = int(len(fl) >= 3 and len(set(fl)) >= 2 and max(fl.count(b) for b in fl) >= 2)
    n = {b: i for i, b in enumerate(BANDS)}
    # a table of rates: only the selection and the lookups of the metric are at stake
    info = {"BinMag": np.linspace(-5, 5, 5), "BinColor": np.linspace(-6, 6, 7), "BandPairs": [a + b for a in BANDS for b in BANDS if a != b], "dT1s": np.arange(-0.4, 0.41, 0.1), "dT2s": np.arange(-1.5, 1.51, 0.25)}
    info["TimePairs"] = np.array([[a, b] for a in info["dT1s"] for b in info["dT2s"]])
    table_ = np.random.RandomState(3).uniform(size=(30, len(info["TimePairs"]), 5, 7))
    import rubin_sim.maf.maf_contrib.presto_color_kne_pop_metric as mod

    old = mod._load_hash
    mod._load_hash = lambda **kw: (info, table_)
    d = rec[[MJD, M5, FILT, NIGHT]].copy()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            got = m.run(d, {"peak_time": c["peak"], "file_indx": c["idx"], "ebv": c["ebv"], "distance": c["dist"]})
    finally:
        mod._load_hash = old
    require(got["presto_color_detect"] == want == m.reduce_presto_color_detect(got), "two filters with one of them twice", got["presto_color_detect"], want, fl)
    if not want:
        require(got["scoreS"] == 0 and got["scoreP"] == 0, "no score without a detection")
        return None
    o = sorted((x, g, str(f)) for x, g, f, q in zip(rec[MJD], mags, rec[FILT], rec[M5]) if g < q)
    rates, lim = [], 8.125 / 24
    for i, j, k in itertools.combinations(range(len(o)), 3):
        if o[j][0] - o[i][0] >= 32.25 / 24 or o[k][0] - o[i][0] >= 32.25 / 24:
            continue
        b = [o[x][2] for x in (i, j, k)]
        if len(set(b)) != 2:
            continue
        single = [x for x in (i, j, k) if b.count(o[x][2]) == 1][0]
        p, q = [x for x in (i, j, k) if x != single]
        dp, dq = abs(o[single][0] - o[p][0]), abs(o[single][0] - o[q][0])
        if min(abs(dp - lim), abs(dq - lim)) < 1e-9 or abs(dp - dq) < 1e-9:
            return None
        if dq < dp and dq < lim:
            p, q = q, p
        elif dp > lim:
            continue
        if {o[p][2], o[single][2]} == {"u", "y"}:
            continue
        d1, d2 = o[single][0] - o[p][0], o[q][0] - o[p][0]
        dmag, col = (o[p][1] - o[q][1]) * np.sign(d2), o[p][1] - o[single][1]
        if not (-5 <= dmag < 5 and -6 <= col < 6):
            rates.append(0.0)
            continue
        i1 = info["BandPairs"].index(o[p][2] + o[single][2])
        i2 = int(np.argmin(np.abs(info["dT1s"] - d1))) * len(info["dT2s"]) + int(np.argmin(np.abs(info["dT2s"] - d2)))
        i3, i4 = int(np.searchsorted(info["BinMag"], dmag, side="right")) - 1, int(np.searchsorted(info["BinColor"], col, side="right")) - 1
        rates.append(table_[i1, i2, i3, i4])
    wantS, wantP = int(any(x < 0.003 for x in rates)), max([0] + [1 - x for x in rates])
    require(got["scoreS"] == wantS == m.reduce_score_s(got) and abs(got["scoreP"] - wantP) < 1e-12 and m.reduce_score_p(got) == got["scoreP"], "scores", got["scoreS"], wantS, got["scoreP"], wantP)
    return "scored" if rates else "detected"


def tde(c):
    L = lcfiles()
    tmin, tmax = -30 if c["tmin"] is None else c["tmin"], 100 if c["tmax"] is None else c["tmax"]
    rec, t, bad = setup_times(c, [0.0, -10, 10, 30, -5, 5, tmin, tmax])
    if bad:
        return None
    kw = {"file_list": L["tde"]}
    if c["mjd0"] is not None:
        kw["mjd0"] = SURVEY_START_MJD + c["mjd0"]
    sp = {"peak_time": c["peak"], "file_indx": c["idx"], "ebv": c["ebv"]}
    m = TdePopMetric(**kw, **({} if c["pts"] is None else {"pts_needed": c["pts"]}))
    q = TdePopMetricQuality(**kw, **{k: v for k, v in (("tmin", c["tmin"]), ("tmax", c["tmax"])) if v is not None})
    got, qual = call(m, rec, sp), call(q, rec, sp)
    mags = np.array([curve(L["tdelc"][c["idx"]][str(f)], x) + L["ax1"][str(f)] * c["ebv"] for x, f in zip(t, rec[FILT])])
    if any(abs(a - b) < 1e-8 for a, b in zip(mags, rec[M5])):
        return None
    see = [(x, str(f)) for x, f, g, d in zip(t, rec[FILT], mags, rec[M5]) if g < d]
    pre = sum(x < 0 for x, _ in see) > (2 if c["pts"] is None else c["pts"])
    early = any(x < -10 for x, _ in see)
    peak, post = {f for x, f in see if abs(x) < 5}, {f for x, f in see if 10 < x < 30}
    color = early and len(peak) >= 3 and len(post) >= 2
    pu = early and len(peak) >= 2 and "u" in peak and len(post) >= 2 and "u" in post
    rate = sum(tmin < x < tmax for x, _ in see) / (tmax - tmin)
    require(same(got, {"pre_peak": int(pre), "some_color": int(color), "some_color_pu": int(pu)}), "tidal disruption events", got, pre, color, pu)
    require(same(qual, {"some_color_pnum": rate * color, "some_color_pu_pnum": rate * pu}), "sampling of tidal disruption events", qual, rate, color, pu)
    require(m.reduce_prepeak(got) == pre and m.reduce_some_color(got) == color and m.reduce_some_color_pu(got) == pu and same(q.reduce_some_color_pnum(qual), rate * color) and same(q.reduce_some_color_pu_pnum(qual), rate * pu), "reduced")
    return "colour" if color or pu else ("early" if early else None)


@st.composite
def pops2(draw):
    """Dense in time about the peak, so that all the criteria can be met."""
    c = draw(pops())
    c["v"] = visits(draw, 20, 90, draw(st.sampled_from([30.0, 70.0])), m5=(22.0, 26.0), bands=draw(st.sampled_from(["ugr", "gri", BANDS])))
    c["peak"] = draw(st.floats(5, 45))
    return c


def xrb(c):
    L = lcfiles()
    gen = XrbLc(seed=c["v"]["seed"])
    n = 4
    par = gen.outburst_params(size=n)
    again = XrbLc(seed=c["v"]["seed"]).outburst_params(size=n)
    require(len(par) == n and all(same({k: v for k, v in a.items() if k != "abs_mag"}, {k: v for k, v in b.items() if k != "abs_mag"}) and a["abs_mag"] == b["abs_mag"] for a, b in zip(par, again)), "outbursts follow from the seed", par[0], again[0])
    p = par[c["idx"]]
    for q in par:
        r = 4.64 - 3.69 * math.log10(q["orbital_period"])
        require(same([q["abs_mag"][b] for b in BANDS], [r + x for x in (4.14, 3.24, 0, 0.33, 1.05, 2.36)]), "absolute magnitudes", q)
        require(0.05 <= q["orbital_period"] <= 51 and same(q["amplitude"], 10 ** 2.4) and q["tau_rise"] >= 0.3 and same(q["outburst_duration"], q["tau_rise"] + q["tau_decay"] + math.log(10 ** 2.4)), "outburst", q)

    def lc(t, b):
        if not 0 <= t <= p["outburst_duration"]:
            return 99.0
        if t == 0:
            return np.inf
        # logarithm of the flux, as the flux itself can be too small for a float
        x = 2 * math.sqrt(p["tau_rise"] / p["tau_decay"]) - p["tau_rise"] / t - t / p["tau_decay"]
        return np.inf if x < -700 else p["abs_mag"][b] - 2.5 * (math.log10(p["amplitude"]) + x / math.log(10))

    dist = c["dist"] / 20
    dm = 5 * math.log10(dist * 1000) - 5
    with np.errstate(all="ignore"):
        a, b = gen.detectable_duration(p, c["ebv"], dist)
    depth = dict(zip(BANDS, [23.9, 25.0, 24.7, 24.0, 23.3, 22.1]))
    grid = np.linspace(0, p["outburst_duration"], 10000)
    seen = []
    for k in BANDS:
        with np.errstate(all="ignore"):
            mg = p["abs_mag"][k] - 2.5 * np.log10(p["amplitude"] * np.exp(2 * np.sqrt(p["tau_rise"] / p["tau_decay"]) - p["tau_rise"] / grid - grid / p["tau_decay"])) + L["ax1"][k] * c["ebv"] + dm
        w = np.where(mg <= depth[k])[0]
        if len(w):
            seen += [grid[w[0]], grid[w[-1]]]
    step = grid[1] * 1.01
    require((not seen and np.isnan(a) and np.isnan(b)) or (seen and abs(a - min(seen)) <= step and abs(b - max(seen)) <= step), "when the outburst can be seen", a, b, seen)
    kw = {} if c["mjd0"] is None else {"mjd0": SURVEY_START_MJD + c["mjd0"]}
    if c["pts"] is not None:
        kw.update(pts_needed=c["pts"], pts_early=c["pts"] + 1, t_early=3.0)
    m = XRBPopMetric(output_lc=c["lc"], **kw)
    rec, t, bad = setup_times(c, [0.0, 7.0, 3.0, p["outburst_duration"]])
    if bad:
        return None
    sp = {"start_time": c["peak"], "ebv": c["ebv"], "distance": dist, "outburst_params": p, "visible_start_time": a, "visible_end_time": b, "visible_duration": b - a}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = m.run(rec[[MJD, M5, FILT, NIGHT]].copy(), sp)
    mags = np.array([lc(x, str(f)) + L["ax1"][str(f)] * c["ebv"] + dm for x, f in zip(t, rec[FILT])])
    det = mags < rec[M5]
    early = np.sum(det & (t <= (7 if c["pts"] is None else 3)))
    want = {"possible_to_detect": bool(seen), "ever_detect": det.sum() >= (c["pts"] or 2), "early_detect": early >= (2 if c["pts"] is None else c["pts"] + 1), "number_of_detections": int(det.sum())}
    for k, v in want.items():
        require(got[k] == v and getattr(m, "reduce_" + k)(got) == v, "X-ray binary " + k, got[k], v)
    mean = (b - a) / (det.sum() + 1) if det.sum() > 1 else -999
    require(same(got["mean_time_between_detections"], mean, 1e-8, 1e-9), "time between detections", got["mean_time_between_detections"], mean)
    require(same(m.reduce_mean_time_between_detections(got), mean if mean >= 0 else m.badval, 1e-8, 1e-9), "reduced time between detections")
    require(("lc" in got) == c["lc"], "light curve only on request")
    if c["lc"]:
        require(same(got["lc"][1], np.where(det, mags, 99.0), 1e-8) and same(got["lc"][0], rec[MJD]), "light curve")
    return "detected" if det.sum() > 1 else None


# ---------------------------------------------------------------- lensing


@st.composite
def lens(draw):
    return {"v": visits(draw, *draw(st.sampled_from([(1, 10), (20, 60), (40, 80)])), draw(st.sampled_from([30.0, 200.0])), m5=(21.5, 26.0), bands=draw(st.sampled_from(["r", "gr", BANDS]))), "peak": draw(st.floats(1, 150)), "te": draw(st.sampled_from([3.0, 20.0, 80.0])), "u0": draw(st.sampled_from([0.05, 0.4, 0.9])), "mode": draw(st.sampled_from(["plain", "blend", "own"])), "blend": draw(st.sampled_from([0.3, 0.9])),
            "calc": draw(st.sampled_from(["detect", "detect", "Npts"])), "before": draw(st.sampled_from([None, 5, "optimal"])), "both": draw(st.booleans()), "pts": draw(st.sampled_from([None, 1, 5])), "sigma": draw(st.sampled_from([None, 2.0, 5.0])), "mags": draw(st.sampled_from([None, 0.0, -2.0]))}


def lensing(c):
    rec = table(c["v"])
    t = rec[MJD] - rec[MJD].min()
    both = c["both"] and c["before"] is None
    base = dict(zip(BANDS, [25.2, 25.0, 24.5, 23.4, 22.8, 22.5] if c["mags"] is None else [22.0 + c["mags"] + 0.1 * i for i in range(6)]))
    kw = {k: v for k, v in (("pts_needed", c["pts"]), ("detect_sigma", c["sigma"]), ("time_before_peak", c["before"])) if v is not None}
    given = None if c["mags"] is None else dict(base)
    m = MicrolensingMetric(metric_calc=c["calc"], detect=both, mag_dict=given, **kw)
    sp = {"peak_time": c["peak"], "crossing_time": c["te"], "impact_parameter": c["u0"]}
    if c["mode"] == "blend":
        sp["blending_factor"] = c["blend"]
    if c["mode"] == "own":
        for i, b in enumerate(BANDS):
            sp["apparent_m_" + b] = 21.0 + 0.2 * i
            sp["apparent_m_no_blend_" + b] = 21.5 + 0.3 * i
    u = np.sqrt(c["u0"] ** 2 + ((t - c["peak"]) / c["te"]) ** 2)
    amp = (u**2 + 2) / (u * np.sqrt(u**2 + 4))
    require(same(microlensing_amplification(t, c["u0"], c["te"], c["peak"]), amp, 1e-8) and same(microlensing_amplification(t, impact_parameter=c["u0"], crossing_time=c["te"], peak_time=c["peak"], blending_factor=c["blend"]), 1 + c["blend"] * (amp - 1), 1e-8), "amplification")
    require(same(microlensing_amplification_fsfb(t, c["u0"], c["te"], c["peak"], 3.0, 0.5), -2.5 * np.log10(3 * amp + 0.5), 1e-8), "magnitude of source and blend")
    if c["mode"] == "own":
        fs = np.array([10 ** (-0.4 * sp["apparent_m_no_blend_" + str(f)]) for f in rec[FILT]])
        tot = np.array([10 ** (-0.4 * sp["apparent_m_" + str(f)]) for f in rec[FILT]])
        mags = -2.5 * np.log10(fs * amp + tot - fs)
    else:
        mags = np.array([base[str(f)] for f in rec[FILT]]) - 2.5 * np.log10(1 + (c["blend"] if c["mode"] == "blend" else 1) * (amp - 1))
    snr = 5 * 10 ** (-0.4 * (mags - rec[M5]))
    e = 2.5 * np.log10(1 + 1 / snr)
    sig = 3.0 if c["sigma"] is None else c["sigma"]
    got = call(m, rec, sp)
    if given is not None:
        require(given == base, "the magnitudes given are left alone", given)
    lead = c["before"] or 0
    if lead == "optimal":
        lead = c["te"] * math.sqrt(math.sqrt(9 * c["u0"] ** 4 + 36 * c["u0"] ** 2 + 4) - c["u0"] ** 2 - 2) / 2
    if any(abs(x - y) < 1e-8 for x in t for y in (c["peak"], c["peak"] - lead, c["peak"] - c["te"], c["peak"] + c["te"])):
        return None
    if c["calc"] == "Npts":
        want = int(np.sum((np.abs(t - c["peak"]) < c["te"]) & (snr > sig)))
        require(got == want, "points within the crossing time", got, want)
        return "points" if want else None
    n = [0, 0]
    for i, j in itertools.combinations(range(len(t)), 2):
        if rec[FILT][i] == rec[FILT][j]:
            x = abs(mags[i] - mags[j]) / math.hypot(e[i], e[j])
            if abs(x - sig) < 1e-7:
                return None
            n[0] += max(t[i], t[j]) < c["peak"] - lead and x > sig
            n[1] += min(t[i], t[j]) > c["peak"] and x > sig
    need = 2 if c["pts"] is None else c["pts"]
    want = int(n[0] >= need and (not both or n[1] >= need))
    require(got == want, "lensing event detected", got, want, n)
    return c["mode"] if want else None


# ---------------------------------------------------------------- lensed supernovae


@st.composite
def sls(draw):
    return {"v": visits(draw, *draw(st.sampled_from([(1, 30), (20, 120), (60, 120)])), draw(st.sampled_from([0.3, 60.0, 300.0, 900.0])), m5=(23.0, 25.5), bands=draw(st.sampled_from(["gri", "griz", BANDS]))), "ra": draw(st.sampled_from([0.0, 1.0, 4.5])), "ebv": draw(st.sampled_from([0.0, 0.2])), "nside": draw(st.sampled_from([16, 64])), "season": draw(st.sampled_from([None, [0, 1]])),
            "nf": draw(st.sampled_from([None, 3])), "nobs": draw(st.sampled_from([None, 15])), "mins": draw(st.sampled_from([None, 23.5])), "col": draw(st.booleans())}


def snsl(c):
    rec = table(c["v"])
    m5min = dict(zip(BANDS, [22.7, 24.1, 23.7, 23.1, 22.2, 21.4])) if c["mins"] is None else dict.fromkeys(BANDS, c["mins"])
    kw = {k: v for k, v in (("season", c["season"]), ("nfilters_min", c["nf"]), ("min_season_obs", c["nobs"])) if v is not None}
    if c["mins"] is not None:
        kw["m5mins"] = m5min
    col = MJD
    if c["col"]:
        col = "when"
        d = np.zeros(len(rec), dtype=[("when", float), (M5, float), (FILT, "U1"), (NIGHT, int)])
        d["when"] = rec[MJD]
        for k in (M5, FILT, NIGHT):
            d[k] = rec[k]
        rec, kw["mjd_col"] = d, "when"
    m = metrics.SNSLMetric(**kw)
    got = call(m, rec, {"ra": c["ra"], "ebv": c["ebv"], "nside": c["nside"]})
    ax1 = lcfiles()["ax1"]
    per = {}
    for v in rec:
        per.setdefault((int(v[NIGHT]), str(v[FILT])), []).append((v[col], v[M5]))
    pts = []
    for (n, f), x in per.items():
        d = 1.25 * math.log10(sum(10 ** (0.8 * q) for _, q in x)) - ax1[f] * c["ebv"]
        if abs(d - m5min[f]) < 1e-8:
            return None
        if d > m5min[f]:
            pts.append((float(np.median([q for q, _ in x])), f))
    if not pts:
        require(got == m.badval, "nothing deep enough", got)
        return None
    pts.sort()
    seas = calc_season(math.degrees(c["ra"]), np.array([x for x, _ in pts]))
    want, used = 0.0, 0
    for s in (sorted(set(np.floor(seas))) if c["season"] is None else c["season"]):
        ii = [i for i in range(len(pts)) if math.floor(seas[i]) == s]
        if len(ii) < (c["nobs"] or 5) or len({pts[i][1] for i in ii}) < (c["nf"] or 4):
            continue
        g = [b - a for a, b in zip([pts[i][0] for i in ii], [pts[i][0] for i in ii][1:])]
        if any(abs(x - 0.4) < 1e-9 for x in g):
            return None
        g = [x for x in g if x > 0.4]
        if not g:
            continue
        area = 4 * math.pi / (12 * c["nside"] ** 2) * math.degrees(1) ** 2
        want += 45.7 * area / 20000 * (seas[ii[-1]] - seas[ii[0]]) / 2.5 / (2.15 * math.exp(0.37 * float(np.median(g))))
        used += 1
    require(same(got, want, 1e-7, 1e-12), "number of lensed supernovae", got, want)
    return "seasons" if used else None


# ---------------------------------------------------------------- periodic stars


@st.composite
def stars(draw):
    return {"v": visits(draw, 3, 40, 60.0, m5=(40.0, 41.0), bands=draw(st.sampled_from(["r", "gri", BANDS])), dense=False), "period": draw(st.sampled_from([3.0, 10.0])), "need": draw(st.sampled_from([1, 3, 5])), "dm": draw(st.sampled_from([None, 2.0])), "faint": draw(st.booleans()), "mod": draw(st.booleans())}


def periodic(c):
    v = dict(c["v"])
    if c["faint"]:
        v["m5"] = (14.0, 15.0)
    if c["mod"]:
        v["n"] += 60
    rec = table(v)
    sp = {"ebv": 0.0} if c["dm"] is None else {"distMod": c["dm"]}
    m = (PeriodicStarModulationMetric if c["mod"] else PeriodicStarMetric)(period=c["period"], n_monte=2, n_bands=c["need"], **({"time_interval": 29} if c["mod"] else {}))
    d = rec[[MJD, M5, FILT]].copy()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = m.run(d, sp)
    if len(rec) < 9:
        require(got == m.badval, "too few visits", got)
        return None
    nb = len(set(rec[FILT]))
    if c["faint"]:
        require(0 <= got <= 1 and got == 0 if not c["mod"] and len(rec) < 20 and nb < c["need"] else 0 <= got <= 1, "a fraction", got)
        return None
    if nb < c["need"]:
        require(got == 0, "too few bands", got, nb)
    elif c["mod"]:
        span = rec[MJD].max() - rec[MJD].min()
        k = [rec[(rec[MJD] - rec[MJD].min() >= 29 * i) & (rec[MJD] - rec[MJD].min() <= 29 * (i + 1))] for i in range(int(span / 29))]
        # curves in each interval of enough visits, all of the bands observed and well sampled, are recovered
        if k and all(len(x) >= 25 and all(np.sum(x[FILT] == b) >= 3 for b in set(rec[FILT])) for x in k):
            require(got == 1.0, "noiseless curves are recovered in each interval", got, [len(x) for x in k])
            return "modulation"
        return None
    elif len(rec) > 20:
        require(got == 1.0, "noiseless curves are recovered", got, nb)
    else:
        return None
    return "recovered" if nb >= c["need"] else "few bands"


# ---------------------------------------------------------------- where events are put


@st.composite
def where(draw):
    return {"n": draw(st.integers(1, 60)), "seed": draw(st.integers(0, 1000)), "t0": draw(st.sampled_from([None, 100])), "t1": draw(st.sampled_from([None, 500])), "files": draw(st.sampled_from([None, 3])), "d0": draw(st.sampled_from([None, 50])), "d1": draw(st.sampled_from([None, 90])), "own": draw(st.booleans())}


def places(c):
    kw = {k: v for k, v in (("t_start", c["t0"]), ("t_end", c["t1"]), ("n_files", c["files"])) if v is not None}
    kd = {k: v for k, v in (("d_min", c["d0"]), ("d_max", c["d1"])) if v is not None}
    t0, t1 = c["t0"] or 1, c["t1"] or 3652
    for gen, extra, files in ((generate_kn_pop_slicer, kd, 308), (generate_tde_pop_slicer, {}, 7)):
        a, b = gen(n_events=c["n"], seed=c["seed"], **kw, **extra), gen(n_events=c["n"], seed=c["seed"], **kw, **extra)
        s = a.slice_points
        require(len(s["ra"]) == len(s["dec"]) == len(s["peak_time"]) == len(s["file_indx"]) == c["n"] == a.nslice, "one point per event", c["n"], a.nslice)
        require((np.asarray(s["peak_time"]) >= t0).all() and (np.asarray(s["peak_time"]) <= t1).all(), "peak times", s["peak_time"])
        fi = np.asarray(s["file_indx"])
        require((fi >= 0).all() and (fi < (c["files"] or files)).all() and fi.dtype.kind == "i", "indices of the light curves", fi)
        require((np.abs(s["dec"]) <= math.pi / 2).all() and (np.asarray(s["ra"]) >= 0).all() and (np.asarray(s["ra"]) <= 2 * math.pi + 1e-9).all(), "positions in radians")
        for k in ("ra", "dec", "peak_time", "file_indx"):
            require(np.array_equal(s[k], b.slice_points[k]), "the same seed, the same events", k)
        if gen is generate_kn_pop_slicer:
            d = np.asarray(s["distance"])
            require((d >= (c["d0"] or 10) - 1e-9).all() and (d <= (c["d1"] or 300) + 1e-9).all(), "distances", d)
            if c["n"] > 40:
                # number grows as the fourth power of the distance
                lo, hi = c["d0"] or 10, c["d1"] or 300
                u = (d**4 - lo**4) / (hi**4 - lo**4)
                require(0.2 < u.mean() < 0.8 and u.min() < 0.5 < u.max(), "distribution of the distances", u.mean())
    if c["own"]:
        r = np.random.RandomState(c["seed"])
        ra, dec = r.uniform(0, 360, c["n"]), r.uniform(-90, 90, c["n"])
        s = generate_kn_pop_slicer(n_events=c["n"], ra=ra, dec=dec).slice_points
        require(np.allclose(s["ra"], np.radians(ra)) and np.allclose(s["dec"], np.radians(dec)), "positions given")
    return "events"


@st.composite
def where2(draw):
    kind = draw(st.sampled_from(["xrb", "lens", "lens", "presto"]))
    c = {"kind": kind, "n": draw(st.integers(1, 40)), "seed": draw(st.integers(0, 1000)), "t0": draw(st.sampled_from([None, 100])), "t1": draw(st.sampled_from([None, 500]))}
    if kind == "lens":
        c.update(nside=draw(st.sampled_from([2, 4])), band=draw(st.sampled_from(["g", "r", "z"])), dense=draw(st.integers(11, 40)), bins=draw(st.sampled_from([[15.0, 18.0, 22.0, 27.0], [15.0, 18.0, 21.5, 23.0, 27.0], [15.0, 22.0, 24.0]])), c0=draw(st.sampled_from([None, 5])), c1=draw(st.sampled_from([None, 50])), n=draw(st.integers(1, 300)))
    elif kind == "presto":
        c.update(region=draw(st.sampled_from([None, "galactic", "extragalactic"])), cut=draw(st.sampled_from([None, 45])), files=draw(st.sampled_from([None, 3])), d0=draw(st.sampled_from([None, 50])), d1=draw(st.sampled_from([None, 90])))
    return c


def places2(c):
    """Where X-ray binaries, microlensing events and the kilonovae of two regions are put."""
    root = os.environ["RUBIN_SIM_DATA_DIR"]
    kw = {k: v for k, v in (("t_start", c["t0"]), ("t_end", c["t1"])) if v is not None}
    t0, t1 = c["t0"] or 1, c["t1"] or 3652
    n = c["n"]
    if c["kind"] == "xrb":
        d = os.path.join(root, "maf", "xrb")
        os.makedirs(d, exist_ok=True)
        sample = np.round(np.random.RandomState(3).uniform([250.0, -40.0, 2.0, 0.0], [280.0, -20.0, 60.0, 3.0], (50, 4)), 3)
        np.savetxt(os.path.join(d, "sample_xrb_positions.csv.gz"), sample, delimiter=",")
        make = lambda seed: generate_xrb_pop_slicer(n_events=n, seed=seed, **kw).slice_points
        s, b, o = make(c["seed"]), make(c["seed"]), make(c["seed"] + 1)
        keys = ["start_time", "distance", "ebv", "visible_start_time", "visible_end_time", "visible_duration"]
        require(all(len(s[k]) == n for k in keys + ["ra", "dec", "outburst_params"]), "one of each for every event")
        for k in keys + ["ra", "dec"]:
            require(np.array_equal(s[k], b[k], equal_nan=True), "the same seed, the same events", k)
        require(s["outburst_params"] == b["outburst_params"], "the same seed, the same outbursts")
        require(not np.array_equal(s["start_time"], o["start_time"]) and s["outburst_params"] != o["outburst_params"], "another seed, other events")
        st_ = np.asarray(s["start_time"])
        require((st_ >= t0).all() and (st_ <= t1).all(), "start times", st_)
        have = {tuple(np.round(x, 3)) for x in sample}
        for i in range(n):
            row = (round(math.degrees(s["ra"][i]), 3), round(math.degrees(s["dec"][i]), 3), round(float(s["distance"][i]), 3), round(float(s["ebv"][i]), 3))
            require(row in have, "place, distance and extinction of one of the sample", row)
        vis = 0
        for i in range(min(n, 6)):
            q = s["outburst_params"][i]
            dur = q["tau_rise"] + q["tau_decay"] + math.log(q["amplitude"])
            require(abs(q["outburst_duration"] - dur) < 1e-9 and q["tau_rise"] > 0 and q["tau_decay"] > 0, "duration of an outburst", q)
            t = np.linspace(0, dur, 10000)[1:]
            seen = np.zeros(len(t), bool)
            for b_, depth in (("u", 23.9), ("g", 25.0), ("r", 24.7), ("i", 24.0), ("z", 23.3), ("y", 22.1)):
                m = q["abs_mag"][b_] - 2.5 * (math.log10(q["amplitude"]) + (2 * math.sqrt(q["tau_rise"] / q["tau_decay"]) - q["tau_rise"] / t - t / q["tau_decay"]) / math.log(10))
                m = m + TMP["ax1"][b_] * float(s["ebv"][i]) + 5 * math.log10(float(s["distance"][i]) * 1000) - 5
                if np.any(np.abs(m - depth) < 1e-9):
                    continue
                seen |= m <= depth
            w = np.where(seen)[0]
            got = (float(s["visible_start_time"][i]), float(s["visible_end_time"][i]), float(s["visible_duration"][i]))
            if len(w) == 0:
                require(all(math.isnan(x) for x in got), "never visible", got)
            else:
                vis += 1
                step = 1.5 * dur / 9999
                require(abs(got[0] - t[w[0]]) <= step and abs(got[1] - t[w[-1]]) <= step and abs(got[2] - (got[1] - got[0])) < 1e-9, "time of visibility", got, t[w[0]], t[w[-1]])
        return "xrb" if vis else None
    if c["kind"] == "lens":
        import healpy as hp
        from astropy import units as u
        from astropy.coordinates import SkyCoord

        d = os.path.join(root, "maps", "TriMaps")
        os.makedirs(d, exist_ok=True)
        npix = 12 * c["nside"] ** 2
        r = np.random.RandomState(c["seed"] + 5)
        dense = r.permutation(npix)[: c["dense"]]
        # the stars brighter than 22nd magnitude are in the dense pixels only; the other bins of magnitude have them elsewhere
        k = min(j for j in range(len(c["bins"]) - 1) if c["bins"][j + 1] >= 22)
        dens = np.full((npix, len(c["bins"]) - 1), 0.0)
        dens[:] = r.uniform(1, 2, dens.shape)
        dens[:, k] = 0
        dens[dense, k] = r.uniform(50, 100, len(dense))
        np.savez(os.path.join(d, "TRIstarDensity_%s_nside_%i.npz" % (c["band"], c["nside"])), starDensity=dens, bins=np.array(c["bins"]))
        kc = {k: v for k, v in (("min_crossing_time", c["c0"]), ("max_crossing_time", c["c1"])) if v is not None}
        make = lambda seed: generate_microlensing_slicer(n_events=n, seed=seed, nside=c["nside"], filtername=c["band"], **kw, **kc).slice_points
        s, b, o = make(c["seed"]), make(c["seed"]), make(c["seed"] + 1)
        for k in ("ra", "dec", "peak_time", "crossing_time", "impact_parameter"):
            require(len(s[k]) == n and np.array_equal(s[k], b[k]), "the same seed, the same events", k)
            require(n < 3 or not np.array_equal(s[k], o[k]), "another seed, other events", k)
        for k, lo, hi in (("peak_time", t0, t1), ("crossing_time", c["c0"] or 1, c["c1"] or 10), ("impact_parameter", 0, 1)):
            x = np.asarray(s[k])
            require((x >= lo).all() and (x <= hi).all(), "range", k, x)
            if n > 100:
                v = (x - lo) / (hi - lo)
                require(v.min() < 0.2 and v.max() > 0.8 and 0.35 < v.mean() < 0.65, "spread over the range", k, v.mean())
        g = SkyCoord(ra=s["ra"] * u.rad, dec=s["dec"] * u.rad, frame="icrs").galactic
        pix = hp.ang2pix(c["nside"], g.l.deg, g.b.deg, nest=True, lonlat=True)
        pl, pb = hp.pix2ang(c["nside"], pix, nest=True, lonlat=True)
        require(np.allclose(SkyCoord(l=pl * u.deg, b=pb * u.deg, frame="galactic").separation(g).deg, 0, atol=1e-6), "events at the centres of pixels")
        require(set(pix) <= set(dense), "events where there are stars only", sorted(set(pix) - set(dense)))
        if n > 200:
            require(len(set(pix)) >= 8, "events spread over the pixels with stars", len(set(pix)))
        return "lens" if n > 5 else None
    kw.update({k: v for k, v in (("skyregion", c["region"]), ("gb_cut", c["cut"]), ("n_files", c["files"]), ("d_min", c["d0"]), ("d_max", c["d1"])) if v is not None})
    make = lambda seed: generate_presto_pop_slicer(n_events=n, seed=seed, **kw).slice_points
    from astropy import units as u
    from astropy.coordinates import SkyCoord

    s, b = make(c["seed"]), make(c["seed"])
    # the same positions with the limit out of the way
    every = generate_presto_pop_slicer(n_events=n, seed=c["seed"], **dict(kw, skyregion="galactic", gb_cut=91)).slice_points
    require(len(every["ra"]) == n, "one point per event")
    bb = np.abs(SkyCoord(ra=every["ra"] * u.rad, dec=every["dec"] * u.rad).galactic.b.deg)
    cut = c["cut"] or 20
    keep = bb > cut if c["region"] == "extragalactic" else bb < cut
    require(len(s["ra"]) == keep.sum() and np.allclose(s["ra"], every["ra"][keep]) and np.allclose(s["dec"], every["dec"][keep]), "events of the region", len(s["ra"]), keep.sum())
    for k in ("ra", "dec", "peak_time", "file_indx", "distance"):
        require(len(s[k]) == len(s["ra"]) and np.array_equal(s[k], b[k]), "the same seed, the same events", k)
    p, f, dd = (np.asarray(s[k]) for k in ("peak_time", "file_indx", "distance"))
    require((p >= t0).all() and (p <= t1).all(), "peak times", p)
    require((f >= 0).all() and (f < (c["files"] or 100)).all() and f.dtype.kind == "i", "indices of the light curves", f)
    require((dd >= (c["d0"] or 10) - 1e-9).all() and (dd <= (c["d1"] or 300) + 1e-9).all(), "distances", dd)
    return "presto" if 0 < keep.sum() < n else None


def arms():
    fakedata.use()
    lcfiles()
    return [Arm("transient", trans(), transient, quick=900, thorough=30000, rule="a transient is detected"), Arm("grb", grbs(), grb, quick=500, thorough=15000, rule="an afterglow is detected"), Arm("counting", counts(), counting, quick=250, thorough=8000, rule="triplets or gaps exist"),
            Arm("window", counts().map(lambda c: {**c["v"], "n": min(c["v"]["n"], 12)}), window, quick=8, thorough=100, rule="more than one visit"), Arm("kne", pops(), kne, quick=400, thorough=12000, rule="detections"), Arm("kne2", pops2(), kne, quick=250, thorough=8000, rule="detections"), Arm("presto", pops3(), presto, quick=150, thorough=5000, rule="detections"),
            Arm("tde", pops2(), tde, quick=500, thorough=15000, rule="detections before the peak"), Arm("xrb", pops(), xrb, quick=250, thorough=8000, rule="two detections"), Arm("lens", lens(), lensing, quick=500, thorough=15000, rule="detected or points counted"), Arm("snsl", sls(), snsl, quick=300, thorough=10000, rule="a season counts"),
            Arm("stars", stars(), periodic, quick=60, thorough=1500, rule="noiseless and enough visits"), Arm("places", where(), places, quick=150, thorough=3000, rule="every case"), Arm("places2", where2(), places2, quick=120, thorough=3000, rule="some outburst is visible; more than five lensing events; some events in the region and some not")]


def teardown():
    fakedata.cleanup()
    if TMP.get("root"):
        shutil.rmtree(TMP["root"], ignore_errors=True)
