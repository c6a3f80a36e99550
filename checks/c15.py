"""C15: moving-object metrics: detections, discovery, activity, colours, light curves."""

import copy
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from rubin_sim.maf import metrics as M
from rubin_sim.maf.metrics.mo_metrics import DiscoveryVelocityMetric
from vp.core import Arm, require
from vp.metricrun import same

ASSUMPTIONS = ["no two visits of one object start at the same time",
               "light-curve inversion is judged only where every reading of the longitude coverage agrees",
               "pairs for an instantaneous colour: judged where every way of counting pairs agrees"]
BUDGET = {"quick": 60, "thorough": 2400}
BANDS = "ugrizy"
REN = {"SNR": "snrx", "vis": "visx", "night": "nightx", "observationStartMJD": "mjdx", "band": "filtx", "seeingFwhmGeom": "seex", "visitExposureTime": "expx", "appMagV": "vx"}
KW = {"snr_col": "SNR", "vis_col": "vis", "night_col": "night", "mjd_col": "observationStartMJD", "filter_col": "band", "seeing_col": "seeingFwhmGeom", "exp_time_col": "visitExposureTime", "app_mag_v_col": "appMagV"}


@st.composite
def case_(draw, hi=30):
    n = draw(st.integers(1, hi))
    span = draw(st.sampled_from([1, 3, 8, 20, 60, 400, 3000]))
    nights = draw(st.lists(st.integers(0, span), min_size=n, max_size=n))
    mins = draw(st.lists(st.integers(0, 300), min_size=n, max_size=n))
    seed = draw(st.integers(0, 10 ** 6))
    return {"n": n, "nights": nights, "mins": mins, "seed": seed, "snr": draw(st.sampled_from([None, 5, 10])), "opt": (draw(st.integers(0, 15)) + seed * 7) % 16, "k": draw(st.integers(0, 11)), "perm": draw(st.permutations(range(n))),
            "cols": draw(st.booleans()), "sorted": draw(st.booleans()), "bright": draw(st.sampled_from([0.3, 0.8, 1.0]))}


def table(c):
    r = np.random.RandomState(c["seed"])
    t = sorted({(a, b) for a, b in zip(c["nights"], c["mins"])})
    n = len(t)
    d = {"night": np.array([a for a, _ in t]), "observationStartMJD": np.array([60000 + a + (b + 0.25) / 1440.0 for a, b in t])}
    bright = r.uniform(size=n) < c["bright"]
    d["SNR"] = np.where(bright, r.choice([5.0, 7.5, 10.0, 12.0, 30.0, 150.0], n), r.choice([0.5, 2.0, 4.99], n))
    d["vis"] = (r.uniform(size=n) < c["bright"]).astype(int)
    d["band"] = r.choice(list(BANDS[: 1 + c["k"] % 6]), n)
    d["velocity"] = r.choice([0.2, 1.0, 2.0, 3.0, 8.0], n) + r.randint(0, 100, n) / 1e4
    d["seeingFwhmGeom"] = r.choice([0.7, 1.0, 1.5], n)
    d["visitExposureTime"] = r.choice([15.0, 30.0], n)
    for k, x in (("ra", 360), ("dec", 60), ("geo_dist", 40), ("ec_lon", 360), ("ec_lat", 60), ("solar_elong", 180), ("appMagV", 25)):
        d[k] = r.randint(0, 1000, n) / 1000.0 * x
    d["phase"] = r.uniform(0, r.choice([3.0, 30.0]), n)
    d["ecLon"] = (r.uniform(0, 360) + r.uniform(0, r.choice([20, 120, 300]), n)) % 360
    d["appMag"] = np.full(n, 22.0)
    d["fiveSigmaDepth"] = np.full(n, 24.0)
    o = np.arange(n) if c["sorted"] else np.argsort(np.asarray(c["perm"])[:n])
    d = {k: v[o] for k, v in d.items()}
    rec = np.zeros(n, dtype=[(k, v.dtype) for k, v in d.items()])
    for k in d:
        rec[k] = d[k]
    return rec, d


def run(metric, rec, orb, c, extra=None):
    data = rec.copy()
    before = data.copy()
    args = () if extra is None else (extra,)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = metric.run(data, orb, 20.0, *args)
        require(all(np.array_equal(data[n], before[n]) for n in data.dtype.names), "the observations were changed by", type(metric).__name__)
        again = metric.run(before.copy(), orb, 20.0, *args)
        require(same(got, again), "a second run gives another value", type(metric).__name__)
    return got


def renamed(rec, d, c, *want):
    if not c["cols"]:
        return rec, {}
    rec = rec.copy()
    rec.dtype.names = tuple(REN.get(k, k) for k in rec.dtype.names)
    return rec, {k: REN[KW[k]] for k in want}


def detected(d, c):
    return d["SNR"] >= c["snr"] if c["snr"] is not None else d["vis"] > 0


# ---- discovery
def discovery(c):
    rec, d = table(c)
    nobs, nn, win = [2, 3, 1, 4][c["k"] % 4], [3, 1, 2][c["k"] % 3], [15, 3, 30, 1][c["k"] // 3]
    tmin, tmax = [(5.0, 90.0), (0.0, 30.0), (12.3, 200.3)][c["opt"] % 3]
    tmin, tmax = tmin / 1440.0, tmax / 1440.0
    if nobs == 1:
        tmin = 0.0
    m = M.DiscoveryMetric(n_obs_per_night=nobs, n_nights_per_window=nn, t_window=win, t_min=tmin, t_max=tmax, snr_limit=c["snr"])
    det = [i for i in np.argsort(d["observationStartMJD"]) if detected(d, c)[i]]
    t, night = d["observationStartMJD"], d["night"]
    good = []
    for x in sorted({int(night[i]) for i in det}):
        tt = [t[i] for i in det if night[i] == x]
        ok = False
        for a in range(len(tt)):
            for b in range(a + nobs - 1, len(tt)):
                dt = tt[b] - tt[a]
                if min(abs(dt - tmin), abs(dt - tmax)) < 1e-8 and dt != 0:
                    return None
                ok = ok or tmin <= dt <= tmax
        if ok:
            good.append(x)
    chances = [k for k in range(len(good) - nn + 1) if good[k + nn - 1] - good[k] <= win]
    got = run(m, rec, None, c)
    if not det or len(good) < nn:
        require(got is None or got["n_chances"] == 0, "a discovery is reported without enough nights", got, good)
        return "few"
    kids = dict(m.child_metrics, Velocity=DiscoveryVelocityMetric(m))
    res = {k: (None if got is None else run(v, rec, None, c, got)) for k, v in kids.items()}
    if not chances:
        require(got is None or got["n_chances"] == 0, "a discovery is reported without a window", got, good, win)
        require(got is None or (res["N_Chances"] == 0 and res["Time"] == -999 and res["Distance"] == -999 and res["RADec"] is None), "values for no discovery", res)
        return "no-window"
    require(got is not None, "a discovery was missed", good, nn, win)
    require(res["N_Chances"] == len(chances), "discovery chances", res["N_Chances"], len(chances), good)
    g0 = good[chances[0]]
    last = max(g for g in good if 0 <= g - g0 <= win)
    track = [i for i in det if g0 <= night[i] <= last]
    s = track[0]
    require(res["N_Obs"] in (len(track), len(track) - 1), "observations in the discovery track", res["N_Obs"], len(track))
    require(same(res["Time"], t[s]), "time of discovery", res["Time"], t[s])
    require(same(res["Distance"], d["geo_dist"][s]), "distance at discovery", res["Distance"], d["geo_dist"][s])
    require(same(res["RADec"], (d["ra"][s], d["dec"][s])), "position at discovery", res["RADec"])
    require(same(res["EcLonLat"], (d["ec_lon"][s], d["ec_lat"][s], d["solar_elong"][s])), "ecliptic position at discovery", res["EcLonLat"])
    require(same(res["Velocity"], d["velocity"][s]), "velocity at discovery", res["Velocity"])
    m2 = M.DiscoveryTimeMetric(m, t_start=60000.0)
    require(abs(run(m2, rec, None, c, got) - (t[s] - 60000.0)) < 1e-9, "time of discovery since the start")
    return "found" if c["sorted"] else "found-unsorted"


# ---- counts
def counts(c):
    rec, d = table(c)
    det = np.where(detected(d, c))[0]
    nights = d["night"][det]
    op = c["opt"] % 8
    r2, k = renamed(rec, d, c, "snr_col", "vis_col", "night_col", "mjd_col")
    per = {int(x): int(np.sum(nights == x)) for x in nights}
    if op == 0:
        require(run(M.NObsMetric(snr_limit=c["snr"], **k), r2, None, c) == len(det), "number of detections", len(det))
        return "nobs"
    if op == 1:
        got = run(M.NObsNoSinglesMetric(snr_limit=c["snr"], **k), r2, None, c)
        require(got == sum(v for v in per.values() if v > 1), "detections in nights with several", got, per)
        return "nosingles"
    if op == 2:
        got = run(M.NNightsMetric(snr_limit=c["snr"], **k), r2, None, c)
        require(got == len(per), "nights with detections", got, per)
        return "nights"
    if op == 3:
        got = run(M.ObsArcMetric(snr_limit=c["snr"], **k), r2, None, c)
        t = d["observationStartMJD"][det]
        require(same(got, t.max() - t.min() if len(t) else 0, 1e-12, 1e-9), "observed arc", got)
        return "arc"
    if op == 4:
        n, win = [6, 2, 3, 1][c["k"] % 4], [60, 1, 5][c["k"] // 4]
        got = run(M.MagicDiscoveryMetric(n_obs=n, t_window=win, snr_limit=c["snr"], **k), r2, None, c)
        exp = sum(1 for x in per if sum(v for y, v in per.items() if x <= y < x + win) >= n)
        require(got == exp, "nights starting a window with enough detections", got, exp)
        return "magic" if exp else "magic-0"
    if op == 5:
        win, years = [10, 30, 100, 700][c["k"] % 4], [10.0, 1.0][c["k"] // 6]
        got = run(M.ActivityOverTimeMetric(win, snr_limit=c["snr"], survey_years=years, **k), r2, None, c)
        edges = [0.0]
        while edges[-1] + win < years * 365 + win / 2.0:
            edges.append(edges[-1] + win)
        nwin = len(edges) - 1
        if nwin < 1 or not len(det):
            return None
        hit = {int(x // win) for x in nights if x <= edges[-1]}
        hit = {min(h, nwin - 1) for h in hit}
        require(same(got, len(hit) / nwin), "fraction of windows with detections", got, len(hit), nwin)
        require(got <= 1, "more than all windows", got)
        return "activity" if hit else "activity-0"
    vk = dict(k, **({"seeing_col": "seex", "exp_time_col": "expx"} if c["cols"] else {}))
    psf = [1.0, 2.0, 0.5][c["k"] % 3]
    need = 24.0 * psf * d["seeingFwhmGeom"] / d["visitExposureTime"]
    if np.any(np.abs(need - d["velocity"]) < 1e-9):
        return None
    fast = [i for i in det if d["velocity"][i] >= need[i]]
    if op == 6:
        got = run(M.HighVelocityMetric(psf_factor=psf, snr_limit=c["snr"], **vk), r2, None, c)
        require(got == len(fast), "trailed detections", got, len(fast))
        return "trailed" if fast else "trailed-0"
    n = [2, 1, 3][c["k"] // 4]
    got = run(M.HighVelocityNightsMetric(psf_factor=psf, n_obs_per_night=n, snr_limit=c["snr"], **vk), r2, None, c)
    ok = sorted({int(d["night"][i]) for i in fast if sum(d["night"][j] == d["night"][i] for j in fast) >= n})
    exp = min(d["observationStartMJD"][i] for i in fast if d["night"][i] == ok[0]) if ok else 0
    require(same(got, exp, 1e-14, 1e-9), "first night with trailed detections", got, exp)
    return "trailnight" if ok else "trailnight-0"


# ---- orbit phase
def activity(c):
    rec, d = table(c)
    det = np.where(detected(d, c))[0]
    r = np.random.RandomState(c["seed"] + 1)
    b = [10, 90, 45, 360, 100, 7][c["k"] % 6]
    m = M.ActivityOverPeriodMetric(b, snr_limit=c["snr"])
    a, e = float(r.choice([0.8, 1.5, 2.7, 40.0])), 0.3
    orb = {"e": e, "epoch": 59000.0 + float(r.randint(0, 500))}
    if c["opt"] & 1:
        orb["a"] = a
    else:
        orb["q"] = a * (1 - e)
    kind = c["opt"] // 2 % 3
    t = d["observationStartMJD"]
    period = a ** 1.5 * 365.25
    if kind == 0:
        orb["meanAnomaly"] = float(r.uniform(0, 360))
        ph = orb["meanAnomaly"] / 360 + (t - orb["epoch"]) / period
        alt = ph
    elif kind == 1:
        orb["tPeri"] = 59500.0
        ph = (t - 59500.0) / period
        alt = ph / (2 * math.pi)  # known finding: the phase is not turned into an angle
    else:
        orb.pop("a", None)
        orb.pop("q", None)
        got = run(m, rec, pd.Series(orb), c)
        require(got == 0, "an orbit without a size has a phase", got)
        return None
    got = run(m, rec, pd.Series(orb), c)
    if not len(det):
        require(got == 0, "activity without detections", got)
        return None
    nb = math.ceil(360 / b)
    vals = []
    for p in (ph, alt):
        deg = (p[det] % 1) * 360
        if np.any(np.abs(deg / b - np.round(deg / b)) < 1e-7):
            return None
        vals.append(len({int(x // b) for x in deg}) / nb)
    require(any(same(got, v) for v in vals), "fraction of the orbit with detections", got, vals, b)
    return f"phase{kind}"


# ---- colours and light curves
def colours(c):
    c = dict(c, bright=1.0)
    rec, d = table(c)
    r = np.random.RandomState(c["seed"] + 5)
    r2, k = renamed(rec, d, c, "snr_col", "vis_col", "night_col", "mjd_col", "filter_col")
    op = c["opt"] % 5
    det = detected(d, c)
    n = len(rec)
    if op == 0:  # colour of inner objects
        smax, need = [20, 5][c["k"] % 2], [0.9, 2.05, 0.31][c["k"] % 3]
        got = run(M.ColorAsteroidMetric(weight_det=need, snr_max=smax, snr_limit=c["snr"], **k), r2, None, c)
        use = d["SNR"] > c["snr"] if c["snr"] is not None else d["vis"] > 0
        w = {b: float(np.sum(np.minimum(d["SNR"], smax)[use & (d["band"] == b)])) / smax for b in BANDS}
        if any(abs(x - need) < 1e-9 for x in w.values()):
            return None
        ok = {b for b in BANDS if w[b] > need}
        g5 = ok & set("grizy")
        exp = 4 if len(ok) == 6 else 3 if len(g5) == 5 else 2 if len(g5) == 4 else 1 if "g" in ok and ok & set("ri") and ok & set("zy") else 0
        require(got == exp, "colour flag", got, exp, w)
        return f"colour{exp}"
    if op == 1:  # outer objects
        req, sec = [3, 5, 2][c["k"] % 3], [2, 1, 3][c["k"] // 4]
        got = run(M.LightcurveColorOuterMetric(snr_limit=c["snr"], num_req=req, num_sec_filt=sec, **k), r2, None, c)
        cnt = {b: int(np.sum(det & (d["band"] == b))) for b in BANDS}
        lc = {b for b in BANDS if cnt[b] >= req}
        col = {b for b in BANDS if cnt[b] >= sec}
        exp = 0 if not lc else len(lc) + (1 if col - lc else 0)
        require(got == exp, "outer light curve flag", got, exp, cnt)
        return f"outer{min(exp, 3)}"
    if op == 2:
        b1, b2 = ("g", "r") if c["k"] % 2 else ("u", "g")
        hrs, lim, npairs = [0.5, 3.0, 30.0][c["k"] % 3], [10, 5][c["k"] % 2], [1, 2][c["k"] // 6]
        got = run(M.InstantaneousColorMetric(n_pairs=npairs, snr_limit=lim, n_hours=hrs, b_one=b1, b_two=b2, **k), r2, None, c)
        t = d["observationStartMJD"]
        good = d["SNR"] >= lim
        t1, t2 = t[good & (d["band"] == b1)], t[good & (d["band"] == b2)]
        h = hrs / 24
        if any(abs(abs(a - b) - h) < 1e-8 for a in t1 for b in t2):
            return None
        adj = [[j for j, b in enumerate(t2) if abs(a - b) < h] for a in t1]
        match = {}

        def aug(i, seen):
            for j in adj[i]:
                if j not in seen:
                    seen.add(j)
                    if j not in match or aug(match[j], seen):
                        match[j] = i
                        return True
            return False

        lo = sum(aug(i, set()) for i in range(len(t1)))
        hi = max(sum(1 for x in adj if x), sum(1 for b in t2 if any(abs(a - b) < h for a in t1)))
        if lo >= npairs:
            require(got == 1, "a colour pair was missed", got, lo)
            return "pair"
        if hi < npairs:
            require(got == 0, "a colour without pairs of visits close in time", got, t1, t2, hrs)
            return "nopair"
        return None
    if op == 3:
        smax, need = [100, 10][c["k"] % 2], [0.45, 2.05][c["k"] % 2]
        got = run(M.LightcurveInversionAsteroidMetric(weight_det=need, snr_limit=c["snr"], snr_max=smax, filterlist=BANDS, **k), r2, None, c)
        use = d["SNR"] > c["snr"] if c["snr"] is not None else d["vis"] > 0
        verdicts = set()
        for reading in (0, 1, 2):
            yes = 0
            for b in BANDS:
                s = use & (d["band"] == b)
                w = float(np.sum(np.minimum(d["SNR"], smax)[s])) / smax
                if abs(w - need) < 1e-9:
                    return None
                if w < need or not s.any():
                    continue
                lon, ph = d["ecLon"][s], d["phase"][s]
                cen = (lon - np.median(lon)) % 360
                if reading == 1:
                    cen = (lon - np.median(lon) + 180) % 360 - 180
                raw = lon.max() - lon.min() if reading < 2 else cen.max() - cen.min()
                if reading == 1:
                    raw = cen.max() - cen.min()
                dev = np.mean(np.abs(cen - cen.mean()))
                if raw >= 90 and dev >= raw / 8 and ph.max() - ph.min() >= 5:
                    yes = 1
            verdicts.add(yes)
        if len(verdicts) == 1:
            require(got == verdicts.pop(), "light curve inversion", got)
            return f"inv{got}"
        return None
    if op == 4 and c["k"] % 2:
        r3, kk = renamed(rec, d, c, "app_mag_v_col")
        got = run(M.PeakVMagMetric(**kk), r3, None, c)
        require(got == d["appMagV"].min(), "peak V magnitude", got)
        return "peak"
    # previously known objects: with efficiency one or zero the outcome is not random
    t = 52000 + r.randint(0, 10000, n).astype(float)
    el, mag = r.choice([60.0, 99.9, 100.0, 150.0], n), r.choice([19.0, 20.0, 21.0, 21.5, 22.0, 23.0], n)
    x = np.zeros(n, dtype=[("MJD(UTC)", float), ("Elongation", float), ("appMagV", float)])
    x["MJD(UTC)"], x["Elongation"], x["appMagV"] = t, el, mag
    eff = [float(r.choice([0.0, 1.0, 1.0])) for _ in range(4)]
    m = M.KnownObjectsMetric(eff1=eff[0], eff2=eff[1], eff3=eff[2], eff4=eff[3])
    np.random.seed(c["seed"])
    got = m.run(x.copy(), None, 20.0)
    lim, sw = [20.0, 21.5, 22.0, 22.0], [-1, 53371, 57023, 59580, 1e9]
    cand = [t[i] for i in range(n) for p in range(4) if sw[p] <= t[i] < sw[p + 1] and el[i] >= 100.0 and mag[i] <= lim[p] and eff[p] == 1.0]
    exp = min(cand) if cand else 59580 + 365 * 1000
    require(got == exp, "time an object became known", got, exp, eff)
    return "known" if cand else "unknown"


def _probe_nobs():
    n = 6
    rec = np.zeros(n, dtype=[("observationStartMJD", float), ("night", int), ("SNR", float), ("vis", int)])
    rec["night"] = [0, 0, 1, 1, 2, 2]
    rec["observationStartMJD"] = rec["night"] + np.array([0.1, 0.12] * 3)
    rec["vis"], rec["SNR"] = 1, 9
    m = M.DiscoveryMetric()
    return M.DiscoveryNObsMetric(m).run(rec, None, 20, m.run(rec, None, 20)) == 5


def _probe_tperi():
    rec = np.zeros(4, dtype=[("observationStartMJD", float), ("night", int), ("SNR", float), ("vis", int)])
    rec["observationStartMJD"] = 60000 + np.array([10.0, 100.0, 200.0, 300.0])
    rec["vis"], rec["SNR"] = 1, 9
    orb = pd.Series({"q": 0.9, "e": 0.1, "tPeri": 60000.0})
    return M.ActivityOverPeriodMetric(90).run(rec, orb, 20) == 0.25


FINDING_PROBES = {"discovery-nobs": _probe_nobs, "activity-tperi": _probe_tperi}


def arms():
    return [Arm("discovery", case_(), discovery, quick=1500, thorough=60000, rule="nights away from the limits of the time span"),
            Arm("counts", case_(), counts, quick=1600, thorough=40000, rule="any"),
            Arm("activity", case_(), activity, quick=500, thorough=15000, rule="detections away from bin edges"),
            Arm("colours", case_(hi=40), colours, quick=1600, thorough=40000, rule="weights and gaps away from the limits, readings agree")]
