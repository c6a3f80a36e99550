"""C32: depth, dust, crowding, colour/time-lag and Galactic-plane metrics against their definitions."""

import math

import numpy as np
from hypothesis import strategies as st

from rubin_sim.maf import metrics as M
from rubin_sim.maf.maps.galactic_plane_priority_maps import gp_priority_map_components_to_keys as gpkey
from rubin_sim.maf.metrics.surfb_metric import surface_brightness_limit_approx
from rubin_sim.phot_utils import DustValues
from vp import fakedata, metricrun
from vp.core import Arm, require

ASSUMPTIONS = ["riz coadd exposure time is judged only where every one of the six bands is present",
               "the crowding limit is accepted within two bins of the magnitude where the error reaches the limit",
               "structure-function gaps are exactly representable in half precision"]
BUDGET = {"quick": 60, "thorough": 2400}
BANDS = "ugrizy"


def close(a, b, rtol=1e-9, atol=1e-10):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, equal_nan=True))


@st.composite
def case_(draw, lo=1, hi=30):
    n = draw(st.integers(lo, hi))
    seed = draw(st.integers(0, 10 ** 6))
    return {"n": n, "seed": seed, "bands": draw(st.lists(st.sampled_from(BANDS), min_size=1, max_size=6, unique=True)), "ebv": draw(st.sampled_from([0.0, 0.05, 0.02, 0.1, 0.19, 0.2, 0.3, 1.0])),
            "band": draw(st.sampled_from(BANDS)), "cols": draw(st.booleans()), "perm": draw(st.permutations(range(n))), "opt": (draw(st.integers(0, 11)) + seed * 7) % 24, "deep": draw(st.sampled_from([21.0, 23.0, 24.5])),
            "cut": draw(st.integers(200, 260)) / 10.0, "k": draw(st.integers(1, 6))}


NAMES = {"fiveSigmaDepth": "M5x", "seeingFwhmEff": "seex", "seeingFwhmGeom": "geox", "band": "filtx", "observationStartMJD": "mjdx", "visitExposureTime": "expx", "night": "nightx", "m5Optimal": "optx", "airmass": "amx", "skyBrightness": "skyx", "numExposures": "nexpx"}
KW = {"m5_col": "fiveSigmaDepth", "seeing_col": "seeingFwhmEff", "geo": "seeingFwhmGeom", "filter_col": "band", "mjd_col": "observationStartMJD", "times_col": "observationStartMJD", "time_col": "observationStartMJD", "exp_time_col": "visitExposureTime",
      "exptime_col": "visitExposureTime", "night_col": "night", "opt_m5_col": "m5Optimal", "airmass_col": "airmass", "skybrightness_col": "skyBrightness", "nexp_col": "numExposures"}


def table(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    b = c["bands"]
    d = {"fiveSigmaDepth": c["deep"] + r.randint(-100, 200, n) / 100.0, "seeingFwhmEff": r.randint(40, 200, n) / 100.0, "seeingFwhmGeom": r.randint(40, 200, n) / 100.0, "band": np.array([b[k] for k in r.randint(0, len(b), n)]),
         "visitExposureTime": r.choice([1.0, 15.0, 15.5, 30.0, 38.0], n), "airmass": 1 + r.randint(0, 100, n) / 100.0, "skyBrightness": r.randint(1700, 2250, n) / 100.0, "numExposures": r.randint(1, 3, n), "rotSkyPos": r.randint(0, 360, n).astype(float)}
    d["m5Optimal"] = d["fiveSigmaDepth"] + r.randint(0, 60, n) / 100.0
    span = r.choice([1, 2, 3, 8, 30, 400, 2000])
    night = np.sort(r.randint(0, span, n))
    frac = r.randint(0, 480, n) / 1440.0
    d["night"] = night
    d["observationStartMJD"] = 60000.0 + night + 0.1 + frac
    o = np.argsort(d["observationStartMJD"], kind="stable")
    # no two visits start at the same minute
    t = d["observationStartMJD"][o]
    for i in range(1, n):
        if t[i] <= t[i - 1]:
            t[i] = t[i - 1] + 0.5 / 1440.0
    d["observationStartMJD"] = t
    d["night"] = np.floor(t - 60000.0).astype(int)
    rec = np.zeros(n, dtype=[(k, v.dtype if v.dtype.kind != "U" else "<U3") for k, v in d.items()])
    for k in d:
        rec[k] = d[k]
    if c["cols"]:
        rec.dtype.names = tuple(NAMES.get(k, k) for k in rec.dtype.names)
    sp = {"ra": r.uniform(0, 2 * math.pi), "dec": math.radians(r.uniform(-80, 30)), "sid": 3, "nside": int(r.choice([16, 64, 128])), "ebv": c["ebv"]}
    return rec, sp, d


def kw(c, *want):
    if not c["cols"]:
        return {}
    return {("seeing_col" if k == "geo" else k): NAMES[KW[k]] for k in want}


def coadd(m5):
    return 1.25 * math.log10(float(np.sum(10.0 ** (0.8 * np.asarray(m5))))) if len(m5) else None


# ---- depth
def depth(c):
    rec, sp, d = table(c)
    ax1 = DustValues().ax1
    op = c["opt"] % 8
    bands, m5 = d["band"], d["fiveSigmaDepth"]
    if op == 0:  # surface-brightness limit, single filter
        zpt = {b: 26.0 + 0.3 * i for i, b in enumerate(BANDS)}
        ka = {b: 0.05 * (i + 1) for i, b in enumerate(BANDS)}
        nsig, area, pix, rn = [3.0, 5.0][c["k"] % 2], [100.0, 1.0, 25.0][c["k"] % 3], 0.2, [8.8, 0.5][c["k"] // 3 % 2]
        m = M.SurfaceBrightLimitMetric(zpt=zpt, k_atm=ka, nsigma=nsig, tot_area=area, readnoise=rn, **kw(c, "filter_col", "airmass_col", "exptime_col", "skybrightness_col", "nexp_col"))
        if len(set(bands)) > 1:
            try:
                metricrun.run(m, rec, sp)
            except ValueError:
                return "sb-mixed"
            require(False, "visits in several filters were coadded into one surface brightness limit", sorted(set(bands)))
        got = metricrun.run(m, rec, sp, c["perm"])
        b = bands[0]
        each = []
        for i in range(len(rec)):
            t, am, mu = d["visitExposureTime"][i], d["airmass"][i], d["skyBrightness"][i]
            r_n = rn * math.sqrt(d["numExposures"][i])
            npix = area / pix ** 2
            # the source of surface brightness mu_s whose counts are nsigma times the noise of one component alone
            lims = []
            zp_eff = zpt[b] - ka[b] * am
            sky_counts = t * area * 10 ** (-0.4 * (mu - zpt[b]))
            lims.append(zp_eff - 2.5 * math.log10(nsig * math.sqrt(sky_counts) / (t * area)))
            lims.append(zp_eff - 2.5 * math.log10(nsig ** 2 / (t * area)))
            lims.append(zp_eff - 2.5 * math.log10(nsig * math.sqrt(npix) * r_n / (t * area)))
            each.append(min(lims))
            one = surface_brightness_limit_approx(zpt[b], ka[b], np.array([am]), np.array([mu]), rn=r_n, pixscale=pix, nsigma=nsig, t_exp=t, tot_area=area, mag_diff_warn=0)
            require(close(one, [each[-1]]), "surface brightness limit of one visit is not the brightest of the three noise limits", one, lims)
        exp = 1.25 * math.log10(sum(10 ** (0.8 * x) for x in each))
        require(close(got, exp), "surface brightness limit", got, exp)
        return "sb"
    if op == 1:
        norm, md = bool(c["k"] & 1), bool(c["k"] & 2)
        m = M.OptimalM5Metric(normalize=norm, mag_diff=md, **kw(c, "m5_col", "opt_m5_col", "filter_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        a, o = coadd(m5), coadd(d["m5Optimal"])
        exp = o - a if md else (10 ** (0.8 * o) - 10 ** (0.8 * a)) / 10 ** (0.8 * float(np.median(m5))) * (100.0 / len(m5) if norm else 1)
        require(close(got, exp, 1e-7), "optimal depth comparison", got, exp)
        require(got >= -1e-9, "observing in better conditions would have been worse", got)
        return f"optimal-{int(norm)}{int(md)}"
    if op == 2:
        one = rec[np.where(bands == bands[0])[0]]
        m = M.ExgalM5(**kw(c, "m5_col", "filter_col"))
        got = metricrun.run(m, one, sp, list(range(len(one)))[::-1])
        exp = coadd(m5[bands == bands[0]]) - ax1[bands[0]] * sp["ebv"]
        require(close(got, exp), "dust-corrected coadded depth", got, exp)
        return "exgal"
    if op == 3:
        nf, cut, ecut = [6, 2, 1][c["k"] % 3], c["cut"], 0.2
        m = M.ExgalM5WithCuts(lsst_filter=c["band"], extinction_cut=ecut, depth_cut=cut, n_filters=nf, **kw(c, "m5_col", "filter_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        sel = m5[bands == c["band"]]
        v = coadd(sel) - ax1[c["band"]] * sp["ebv"] if len(sel) else None
        exp = -666 if sp["ebv"] > ecut or len(set(bands)) < nf or v is None or v < cut else v
        if v is not None and abs(v - cut) < 1e-9:
            return None
        require(close(got, exp), "extragalactic depth with cuts", got, exp, v, len(set(bands)))
        return "cuts-ok" if exp != -666 else "cuts-bad"
    if op == 4:
        cut, tmin = c["cut"], [15, 1.0, 30.0][c["k"] % 3]
        m = M.WeakLensingNvisits(lsst_filter=c["band"], depth_cut=cut, ebvlim=0.2, min_exp_time=tmin, **kw(c, "m5_col", "exp_time_col", "filter_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        sel = m5[bands == c["band"]]
        v = coadd(sel) - ax1[c["band"]] * sp["ebv"] if len(sel) else None
        if v is not None and abs(v - cut) < 1e-9:
            return None
        exp = -666 if sp["ebv"] > 0.2 or v is None or v < cut else int(np.sum(d["visitExposureTime"] > tmin))
        require(close(got, exp), "weak-lensing visits", got, exp)
        return "wl-ok" if exp != -666 else "wl-bad"
    if op == 5:
        if len(set(bands)) < 6:
            bands = np.array([BANDS[i % 6] for i in range(len(rec))])
            rec["filtx" if c["cols"] else "band"] = bands
        if len(set(bands)) < 6:
            return None
        det = [None, ["g", "r"], ["z"]][c["k"] % 3]
        m = M.RIZDetectionCoaddExposureTime(det_bands=det, ebvlim=0.2, min_expTime=15, **kw(c, "exp_time_col", "filter_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        e = d["visitExposureTime"]
        exp = -666 if sp["ebv"] > 0.2 else float(e[np.isin(bands, det or ["r", "i", "z"]) & (e > 15)].sum())
        require(close(got, exp), "detection coadd exposure time", got, exp)
        return "riz"
    if op == 6:
        m = M.NgalScaleMetric(filtername=c["band"], a_max=0.2, m5min=c["cut"], **kw(c, "seeing_col", "m5_col", "filter_col"))
        ax = ax1[c["band"]] * sp["ebv"]
        got = metricrun.run(m, rec, sp, c["perm"])
        sel = m5[bands == c["band"]]
        v = coadd(sel)
        if abs(ax - 0.2) < 1e-9 or (v is not None and abs(v - c["cut"]) < 1e-9):
            return None
        area = 4 * math.pi * (180 / math.pi) ** 2 * 3600 / (12 * sp["nside"] ** 2)
        exp = 0 if ax > 0.2 or v is None or v < c["cut"] else 57 * (0.75 / float(np.median(d["seeingFwhmEff"]))) ** 1.5 * area
        require(close(got, exp), "number of galaxies", got, exp)
        return "ngal" if exp else "ngal-0"
    m = M.SnrWeightedMetric("rotSkyPos", **kw(c, "m5_col"))
    got = metricrun.run(m, rec, sp, c["perm"])
    snr = 5.0 * 10.0 ** (-0.4 * (20.0 - m5))
    require(close(got, float(np.sum(snr * d["rotSkyPos"]) / np.sum(snr))), "SNR-weighted mean", got)
    require(d["rotSkyPos"].min() - 1e-9 <= got <= d["rotSkyPos"].max() + 1e-9, "weighted mean outside the values", got)
    return "snrw"


# ---- stars
def stars(c):
    rec, sp, d = table(c)
    r = np.random.RandomState(c["seed"] + 7)
    nb = int(r.randint(8, 40))
    for b in BANDS:
        bins = 15.0 + np.arange(nb + 1) * (13.0 / nb)
        sp[f"starMapBins_{b}"] = bins
        sp[f"starLumFunc_{b}"] = np.cumsum(10 ** (r.uniform(0.5, 4) + 0.12 * np.arange(nb)) * r.uniform(0.2, 1, nb))
    b = c["band"]
    op = c["opt"] % 5
    mags, cum = sp[f"starMapBins_{b}"][1:], sp[f"starLumFunc_{b}"]
    seeing = float(d["seeingFwhmGeom"].min())
    pix = 4 * math.pi * (180 / math.pi) ** 2 / (12 * sp["nside"] ** 2)

    def interp(x):
        return float(np.interp(x, mags, cum))

    # photometric error from unresolved fainter stars (Olsen, Blum & Rigaut 2003)
    dn = np.diff(cum)
    mg = mags[1:]
    err = np.array([math.sqrt(math.pi / 3600.0 ** 2) * seeing / 2 * math.sqrt(sum(dn[j] * 10 ** (-0.8 * mg[j]) for j in range(i, len(mg)))) / 10 ** (-0.4 * mg[i]) for i in range(len(mg))])
    if op == 0:
        nmin = [0, 1, 10, 3][c["k"] % 4]
        mag = 20.0 + (c["k"] - 3) if c["k"] % 2 else 22.0
        m = M.NlcPointsMetric(ndpmin=nmin, mags=mag, nside=sp["nside"], maps=[], **kw(c, "m5_col", "filter_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        exp = 0.0
        for f in set(d["band"]):
            k = int(np.sum((d["band"] == f) & (d["fiveSigmaDepth"] > mag)))
            if k > nmin:
                exp += k * float(np.interp(mag, sp[f"starMapBins_{f}"][1:], sp[f"starLumFunc_{f}"])) * pix
        require(close(got, exp), "number of light-curve points", got, exp)
        return "nlc" if exp else "nlc-0"
    if op == 1:
        lim = [25.0, 20.0, 14.0, 29.0, 22.3, 18.0, 27.9][c["k"]]
        got = metricrun.run(M.StarDensityMetric(mag_limit=lim, filtername=b, maps=[]), rec, sp)
        exp = -666 if lim < mags[0] or lim > mags[-1] else interp(lim) / 3600.0 ** 2
        require(close(got, exp, 1e-9, 0), "star density", got, exp)
        return "density" if exp != -666 else "density-out"
    lim = [0.1, 0.02, 0.5, 0.005, 0.2, 1e-4, 50.0][c["k"]]
    first = next((i for i in range(len(mg)) if err[i] >= lim), None)

    def allowed():
        if first is None:
            return [mags[-1]]
        return [mags[k] for k in range(max(first - 1, 0), first + 2)]

    if op == 2:
        got = metricrun.run(M.CrowdingM5Metric(crowding_error=lim, filtername=b, maps=[], **kw(c, "geo")), rec, sp, c["perm"])
        require(any(close(got, a) for a in allowed()), "crowding-limited depth", got, allowed())
        return "crowd" if first is not None else "crowd-none"
    if op == 3:
        ig = bool(c["cut"] * 10 % 2)
        got = metricrun.run(M.NstarsMetric(crowding_error=lim, filtername=b, maps=[], ignore_crowding=ig, **kw(c, "geo", "m5_col")), rec, sp, c["perm"])
        ml = coadd(d["fiveSigmaDepth"]) - 2.5 * math.log10(1.0 / (lim * (1.09 * 5)))
        exps = [interp(ml) * pix] if ig else [interp(min(a, ml)) * pix for a in allowed()]
        require(any(close(got, e) for e in exps), "number of stars with good photometry", got, exps)
        return "nstars-" + ("ig" if ig else "crowd" if min(allowed()) < ml else "depth")
    rmag = float(mg[0] + (mg[-1] - mg[0]) * (c["cut"] - 20) / 6.0)
    got = metricrun.run(M.CrowdingMagUncertMetric(rmag=rmag, filtername=b, maps=[], **kw(c, "geo")), rec, sp, c["perm"])
    require(close(got, float(np.interp(rmag, mg, err)), 1e-8), "crowding error at a magnitude", got)
    return "crowderr"


# ---- colours, lags, structure functions
def color_slope(visits, color, slope):
    """visits: list of (time in days, band)."""
    if len(visits) < 3:
        return 0
    has_slope = any(b1 == b2 and t2 - t1 >= slope for t1, b1 in visits for t2, b2 in visits)
    has_color = any(b1 != b2 and 0 < t2 - t1 <= color for t1, b1 in visits for t2, b2 in visits)
    return int(has_slope and has_color)


def near(ts, lim):
    return any(abs(abs(a - b) - lim) < 1e-7 for a in ts for b in ts)


def times(c):
    rec, sp, d = table(c)
    op = c["opt"] % 6
    t, bands, m5 = d["observationStartMJD"], d["band"], d["fiveSigmaDepth"]
    if op in (0, 1, 2):
        two = op == 1
        mag = {b: 20.0 + 0.8 * i for i, b in enumerate(BANDS)} if c["k"] % 2 else None
        cl, sl = [0.5, 1.0, 3.0][c["k"] % 3], ([15.0, 24.0, 3.0] if two else [3.0, 1.0, 0.2])[c["k"] // 2 % 3]
        cls = M.ColorSlope2NightMetric if two else M.ColorSlopeMetric
        m = cls(mag=mag, color_length=cl, slope_length=sl, **kw(c, "night_col", "filter_col", "m5_col", "time_col"))
        lim = mag or {b: 20 for b in BANDS}
        good = [i for i in range(len(rec)) if m5[i] > lim[bands[i]]]
        if near(t[good], cl / 24) or near(t[good], sl / 24):
            return None
        got = metricrun.run(m, rec, sp, c["perm"])
        night = d["night"]
        exp = 0
        if two:
            for lo in range(-1, int(night.max()) + 2):  # every pair of consecutive nights
                exp += color_slope([(t[i], bands[i]) for i in good if night[i] in (lo, lo + 1)], cl / 24, sl / 24)
        else:
            for x in set(night):
                exp += color_slope([(t[i], bands[i]) for i in good if night[i] == x], cl / 24, sl / 24)
        require(close(got, exp), "nights with a colour and a slope", got, exp, two)
        return f"slope{1 + two}" if exp else "slope-0"
    if op in (3, 4):
        lag, z, log, thr = [100, 5, 1000][c["k"] % 3], [0.0, 1.0, 2.5][c["k"] // 2 % 3], bool(c["k"] & 1), [2.2, 1.0, 0.01][c["k"] % 3]
        kind = ["mean", "min", "max", "gcd"][(c["k"] + c["n"]) % 4]
        m = M.AgnTimeLagMetric(lag=lag, z=z, log=log, threshold=thr, calc_type=kind, g_cutoff=0.0, r_cutoff=0.0, dust=bool(c["k"] & 2), **kw(c, "mjd_col", "filter_col", "m5_col"))
        dif = np.diff(np.sort(t))
        if len(dif) == 0:
            exp = -666
        else:
            if kind == "gcd":
                cad = 0
                for x in dif:
                    if abs(x % 1 - 0.5) < 1e-6:
                        return None
                    cad = math.gcd(cad, int(round(x)))
                if cad == 0:
                    return None
            else:
                cad = {"mean": np.mean, "min": np.min, "max": np.max}[kind](dif)
            v = lag / ((1 + z) * cad)
            if abs(v / thr - 1) < 1e-9:
                return None
            exp = -666 if v < thr else (math.log(v) if log else v)
        got = metricrun.run(m, rec, sp, c["perm"])
        require(close(got, exp), "time-lag sampling", kind, got, exp)
        return f"lag-{kind}" if exp != -666 else "lag-bad"
    # structure function: one filter, gaps which are whole numbers of days below 2048
    r = np.random.RandomState(c["seed"])
    n = len(rec)
    tt = 60000.0 + np.sort(r.choice(2000, n, replace=False))[r.permutation(n)]
    rec["mjdx" if c["cols"] else "observationStartMJD"] = tt
    rec["filtx" if c["cols"] else "band"] = c["band"]
    bins = np.array([0.5, 3.5, 30.5, 300.5, 2500.5])
    weight = None if c["k"] % 2 else np.array([0.1, 0.2, 0.3, 0.4])
    allg, mag, dust = bool(c["k"] & 2), [20.0, 22.0, 23.5][c["k"] % 3], bool(c["k"] & 4)
    m = M.SFUncertMetric(mag=mag, bins=bins, weight=weight, all_gaps=allg, snr_cut=5, dust=dust, **kw(c, "times_col", "m5_col", "filter_col"))
    mm = mag + (DustValues().ax1[c["band"]] * sp["ebv"] if dust else 0)
    snr = 5.0 * 10 ** (-0.4 * (mm - m5))
    if np.any(np.abs(snr - 5) < 1e-9):
        return None
    got = metricrun.run(m, rec, sp, c["perm"])
    g = snr > 5
    if g.sum() < 2:
        require(got == -666, "too few visits for a structure function", got)
        return "sf-bad"
    s = np.sort(tt[g])
    gaps = [b - a for i, a in enumerate(s) for b in s[i + 1:]] if allg else list(np.diff(s))
    cnt = np.array([sum(1 for x in gaps if bins[k] <= x < bins[k + 1]) for k in range(4)], float)
    ev = (2.5 * np.log10(1 + 1 / snr[g])) ** 2
    mad = float(np.median(np.abs(ev - np.median(ev)))) * 1.482602218505602
    w = np.full(4, 0.25) if weight is None else weight
    exp = float(np.sum(w * 2 * (np.median(ev) + mad / np.sqrt(np.where(cnt > 0, cnt, 0.01)))))
    require(close(got, exp, 1e-7), "structure-function uncertainty", got, exp)
    return "sf"


# ---- Galactic plane
def galplane(c):
    rec, sp, d = table(c)
    r = np.random.RandomState(c["seed"] + 3)
    smap = ["galactic_plane", "combined_map", "clusters"][c["opt"] % 3]
    thr = {"galactic_plane": 0.4, "combined_map": 0.001, "clusters": 0.0}[smap]
    w = {b: float(r.choice([0.0, 0.05, 0.2, 0.7])) for b in BANDS}
    total = float(r.choice([0.0, 0.0005, 0.3, 0.9, 2.0]))
    for b in BANDS:
        sp[gpkey(b, smap)] = w[b]
        sp[gpkey(b, "other")] = 5.0
    sp[gpkey("sum", smap)] = total
    sp[gpkey("sum", "other")] = 1.0
    bands, m5, t, e = d["band"], d["fiveSigmaDepth"], d["observationStartMJD"], d["visitExposureTime"]
    op = c["opt"] // 3 % 4
    cuts = {b: 22.0 + 0.2 * i for i, b in enumerate(BANDS)} if c["k"] % 2 else {"u": 22.7, "g": 24.1, "r": 23.7, "i": 23.1, "z": 22.2, "y": 21.4}
    fl = ["g", "r", "i"] if c["k"] % 3 == 0 else list(BANDS)
    bad = total <= thr

    if op == 0:
        taus = np.array([2.0, 500.0, 4000.0]) if c["k"] % 2 else None
        m = M.GalPlaneFootprintMetric(smap, tau_obs=taus, mag_cuts=cuts if c["k"] % 2 else None, filterlist=fl, **kw(c, "filter_col", "m5_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        if bad:
            require(got == -666, "low-priority point not excluded", got, total)
            return "footprint-bad"
        n = {b: int(np.sum((bands == b) & (m5 >= cuts[b]))) for b in fl}
        require(m.reduce_n_obs(got) == sum(n.values()), "visits", got, n)
        require(close(m.reduce_n_obs_priority(got), sum(n[b] * w[b] for b in fl)), "priority-weighted visits", got)
        for tau in m.tau_obs:
            need = 365.25 * 10 * (6.5 / 12) * 2 / tau
            f = m.reduce_funcs[f"Tau_{tau:.1f}".replace(".", "_")]
            require(close(f(got), total if sum(n.values()) >= need else 0), "footprint at timescale", tau, f(got), n, need)
        return "footprint"
    if op == 1:
        m = M.GalPlaneTimePerFilterMetric(smap, mag_cuts=cuts if c["k"] % 2 else None, filterlist=fl, **kw(c, "filter_col", "m5_col", "mjd_col", "exp_time_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        if bad:
            require(got == -666, "low-priority point not excluded", got, total)
            return "time-bad"
        ex = {b: float(e[(bands == b) & (m5 >= cuts[b])].sum()) for b in fl}
        tot = sum(ex.values())
        for b in fl:
            want = 0 if tot == 0 else (ex[b] / tot / (w[b] / total) if w[b] > 0 else -666)
            require(close(m.reduce_funcs[f"{b}"](got), want), "share of the exposure time", b, got, want)
        return "time"
    if op == 2:
        taus, lim = ([3.0, 40.0] if c["k"] % 2 else None), [22.0, 23.0][c["k"] % 2]
        m = M.GalPlaneVisitIntervalsTimescaleMetric(smap, tau_obs=taus, mag_limit=lim, **kw(c, "mjd_col", "m5_col"))
        got = metricrun.run(m, rec, sp, c["perm"])
        tt = np.sort(t[m5 >= lim])
        if bad or len(tt) < 2:
            require(not isinstance(got, dict) and got == -666, "no intervals here", got, total)
            return "intervals-bad"
        for tau in m.tau_obs:
            v = np.mean([1.0 if x <= tau else math.exp(-(x - tau) / tau) for x in np.diff(tt)])
            require(close(m.reduce_funcs[f"Tau_{tau:.1f}".replace(".", "_")](got), v), "visit intervals at timescale", tau, got, v)
            require(0 <= v <= 1 + 1e-12, "interval score outside 0..1", v)
        return "intervals"
    taus, exg = ([30.0, 100.0] if c["k"] % 2 else None), [145, 60, 200][c["k"] % 3]
    m = M.GalPlaneSeasonGapsTimescaleMetric(smap, tau_var=taus, expected_season_gap=exg, **kw(c, "mjd_col", "m5_col"))
    got = metricrun.run(m, rec, sp, c["perm"])
    require("GalacticPlanePriorityMap" in [getattr(x, "__class__").__name__ if not isinstance(x, str) else x for x in m.maps], "the priority map is not requested")
    # a season ends when the sun is in conjunction with the point: the right ascension of the sun to a few degrees
    from rubin_scheduler.utils import calc_season

    s = np.floor(calc_season(math.degrees(sp["ra"]), np.sort(t)))
    tt = np.sort(t)
    gaps = [tt[i + 1] - tt[i] for i in range(len(tt) - 1) if s[i + 1] != s[i]]
    if bad or not gaps:
        require(not isinstance(got, dict) and got == -666, "no season gaps here", got, total, gaps)
        return "gaps-bad"
    if any(abs(g - exg) < 1e-6 for g in gaps):
        return None
    for tau in m.tau_var:
        v = np.mean([1.0 if x <= max(tau, exg) else math.exp(-(x - tau) / tau) for x in gaps])
        require(close(m.reduce_funcs[f"Tau_{tau:.1f}".replace(".", "_")](got), v), "season gaps at timescale", tau, got, v, gaps)
    return "gaps"


# ---- labels
@st.composite
def label_case(draw):
    return {"chips": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=5)), "note": draw(st.sampled_from(["singles", "pairs_33", "triplets", "template", "too_BNS", "twilight_neo", "ddf_cosmos", "ddf_edfs_a", "ddf_elaiss1", "ddf_xmm_lss", "ddf_ecdfs", "greedy", "", "a pairs", "Singles", "ddf"])),
            "prog": draw(st.sampled_from(["BLOCK-1", "BLOCK-2", "eng"])), "progs": draw(st.lists(st.sampled_from(["BLOCK-1", "BLOCK-2"]), max_size=2, unique=True)), "what": draw(st.booleans())}


def labels(c):
    if c["what"]:
        names = [f"R:{a},{b} S:{x},{y}" for a, b, x, y in c["chips"]]
        got = M.ChipVendorMetric().run(np.zeros(1), {"chipNames": names})
        kinds = {1 if a % 2 == 0 else 2 for a, *_ in c["chips"]}
        exp = 3 if len(kinds) == 2 else kinds.pop()
        store = np.zeros(2)
        store[1] = got
        require(store[1] == exp, "vendor", got, exp, names)
        try:
            M.ChipVendorMetric().run(np.zeros(1), {"ra": 0.0})
        except ValueError:
            return f"vendor{exp}"
        require(False, "no chips known, yet a vendor is reported")
    m = M.UseMetric(science_programs=c["progs"])
    got = m.run({"observation_reason": c["note"], "science_program": c["prog"]})
    known = ["singles", "pairs", "triplet", "template", "too", "twilight", "ddf_cosmos", "ddf_ecdfs", "ddf_edfs", "ddf_elaiss1", "ddf_xmm_lss"]
    exp = "not science" if c["progs"] and c["prog"] not in c["progs"] else next((k for k in known if c["note"].startswith(k)), "other")
    require(got == exp, "use of the visit", c, got, exp)
    return "use"


def arms():
    fakedata.use()
    return [Arm("depth", case_(), depth, quick=1200, thorough=30000, rule="visits or a value left after the cuts"),
            Arm("stars", case_(), stars, quick=900, thorough=20000, rule="a value from the luminosity function"),
            Arm("times", case_(), times, quick=1200, thorough=30000, rule="gaps away from the limits"),
            Arm("galplane", case_(lo=2, hi=40), galplane, quick=1200, thorough=30000, rule="any"),
            Arm("labels", label_case(), labels, quick=300, thorough=3000, rule="any")]


def teardown():
    fakedata.cleanup()
