"""C14: astrometric precision metrics: parallax, proper motion, coverage, refraction."""

import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from rubin_sim.maf import metrics as M
from rubin_sim.maf.metrics.brown_dwarf_metric import bd_colors
from rubin_sim.maf.metrics.calibration_metrics import calc_dist_cosines
from rubin_sim.maf.utils import astrom_precision, m52snr, sigma_slope, stellar_mags
from vp import metricrun
from vp.core import Arm, require

ASSUMPTIONS = ["times within one slice span at least an hour where a slope over time is fitted (double precision)",
               "parallax-angle ranges above half a turn are judged only where every reading of 'spans the range' agrees"]
BUDGET = {"quick": 60, "thorough": 2400}
BANDS = "ugrizy"


def close(a, b, rtol=1e-8, atol=1e-12):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, equal_nan=True))


@st.composite
def case_(draw, lo=1, hi=25):
    n = draw(st.integers(lo, hi))
    return {"n": n, "seed": draw(st.integers(0, 10 ** 6)), "bands": draw(st.lists(st.sampled_from(BANDS), min_size=1, max_size=6, unique=True)), "rmag": draw(st.integers(160, 260)) / 10.0,
            "sed": draw(st.sampled_from(["flat", "flat", "G", "M", "O"])), "atm": draw(st.sampled_from([0.01, 0.0, 0.1])), "norm": draw(st.booleans()), "span": draw(st.sampled_from([1.0, 40.0, 365.0, 3650.0])),
            "baseline": draw(st.sampled_from([10.0, 1.0, 3.5])), "perm": draw(st.permutations(range(n))), "pattern": draw(st.sampled_from(["random", "line", "cluster", "circle", "zero"])),
            "range": draw(st.sampled_from([0.0, 0.3, 1.0, 2.0, 3.0, 4.5])), "snrlim": draw(st.sampled_from([5, 50, 1, 1e6])), "opt": draw(st.integers(0, 5)), "cols": draw(st.booleans())}


def table(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    d = {"fiveSigmaDepth": r.randint(2100, 2550, n) / 100.0, "seeingFwhmGeom": r.randint(40, 200, n) / 100.0, "band": np.array([c["bands"][k] for k in r.randint(0, len(c["bands"]), n)]),
         "observationStartMJD": np.sort(60000 + r.randint(0, 1000, n) / 1000.0 * c["span"])}
    if c["pattern"] == "random":
        x, y = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
    elif c["pattern"] == "line":
        t = r.uniform(-1, 1, n)
        x, y = 0.8 * t, 0.3 * t
    elif c["pattern"] == "cluster":
        th = r.uniform(-math.pi, math.pi) + r.uniform(0, r.choice([0.2, 0.9, 1.9, 3.0]), n)
        x, y = np.cos(th), np.sin(th)
    elif c["pattern"] == "circle":
        th = r.uniform(-math.pi, math.pi, n)
        x, y = np.cos(th), np.sin(th)
    else:
        x, y = np.zeros(n), r.uniform(0.1, 1, n)
    d["ra_pi_amp"], d["dec_pi_amp"] = x, y
    d["ra_dcr_amp"], d["dec_dcr_amp"] = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
    d["zenithDistance"] = r.randint(1, 70, n).astype(float)
    d["paraAngle"] = r.randint(-1790, 1790, n) / 10.0
    ra0, dec0 = r.uniform(0, 2 * math.pi), math.radians(r.uniform(-80, 80))
    rr = np.radians(r.choice([0.0, 1e-5, 0.3, 1.75], n))
    th = r.uniform(0, 2 * math.pi, n)
    d["fieldDec"] = np.degrees(np.clip(dec0 + rr * np.sin(th), -math.pi / 2, math.pi / 2))
    d["fieldRA"] = np.degrees(ra0 + rr * np.cos(th) / math.cos(dec0)) % 360
    rec = np.zeros(n, dtype=[(k, v.dtype if v.dtype.kind != "U" else "<U3") for k, v in d.items()])
    for k in d:
        rec[k] = d[k]
    sp = {"ra": ra0, "dec": dec0, "sid": 0, "nside": 64}
    if c["cols"]:
        rec.dtype.names = tuple({"fiveSigmaDepth": "M5x", "seeingFwhmGeom": "FWHMx", "band": "filtx", "observationStartMJD": "mjdx"}.get(k, k) for k in rec.dtype.names)
    return rec, sp


def kw(c, *want):
    names = {"m5_col": "M5x", "seeing_col": "FWHMx", "filter_col": "filtx", "mjd_col": "mjdx"}
    return {k: names[k] for k in want} if c["cols"] else {}


def cols(c):
    return ("M5x", "FWHMx", "filtx", "mjdx") if c["cols"] else ("fiveSigmaDepth", "seeingFwhmGeom", "band", "observationStartMJD")


def star(c):
    if c["sed"] == "flat":
        return {b: c["rmag"] for b in BANDS}
    return stellar_mags(c["sed"], rmag=c["rmag"])


def errors(c, rec):
    """per-visit centroid error in arcsec, from first principles"""
    m5, fw, fi, _ = cols(c)
    mags = star(c)
    out, snrs = [], []
    for v in rec:
        x = 10 ** (0.4 * (mags[str(v[fi])] - v[m5]))
        snr = 1.0 / math.sqrt(0.04 * x * x)
        snrs.append(snr)
        out.append(math.hypot(v[fw] / snr, c["atm"]))
    return np.array(out), np.array(snrs)


def ok_sed(cls, c, **k):
    """templates other than flat"""
    return cls(sed_template=c["sed"], **k)


def t_parallax(c):
    rec, sp = table(c)
    err, snr = errors(c, rec)
    a = ("m5_col", "filter_col", "seeing_col")
    m = M.ParallaxMetric(rmag=c["rmag"], sed_template=c["sed"], atm_err=c["atm"], normalize=c["norm"], **kw(c, *a))
    got = metricrun.run(m, rec, sp, c["perm"])
    info = np.sum((rec["ra_pi_amp"] ** 2 + rec["dec_pi_amp"] ** 2) / err ** 2)
    w = 1000.0 / math.sqrt(info)
    if c["norm"]:
        w = (1000.0 / math.sqrt(np.sum(1 / err ** 2))) / w
        require(m.units == "ratio", "units", m.units)
    else:
        require(m.units == "mas", "units", m.units)
    require(close(got, w), "parallax uncertainty", got, w)
    if not c["norm"]:
        # one more visit never hurts; all visits twice: sqrt(2) better
        require(close(m.run(np.concatenate([rec, rec]), sp), w / math.sqrt(2)), "parallax uncertainty of doubled visits")
    # proper motion
    mjd = cols(c)[3]
    pm = M.ProperMotionMetric(rmag=c["rmag"], sed_template=c["sed"], atm_err=c["atm"], normalize=c["norm"], baseline=c["baseline"], **kw(c, *a, "mjd_col"))
    fi = cols(c)[2]
    use = np.array([np.sum(rec[fi] == b) >= 2 for b in rec[fi]])
    t = rec[mjd][use] - 60000.0
    if use.sum() and np.ptp(t) > 0 and np.ptp(t) < 0.04:
        return None
    got = metricrun.run(pm, rec, sp, None)
    if use.sum() < 2 or np.ptp(t) == 0:
        if use.sum() == 0 or np.ptp(t) == 0 and use.sum():
            require(got == -666 or not (0 < got < 1e3), "proper motion without a baseline", got)
        return "nopm"
    w_ = 1 / err[use] ** 2
    tb = np.sum(w_ * t) / np.sum(w_)
    tol = 1e-6 + 100 * 2.2e-16 * 6e4 ** 2 / max(np.sum(w_ * (t - tb) ** 2) / np.sum(w_), 1e-12)   # double precision
    slope = 1 / math.sqrt(np.sum(w_ * (t - tb) ** 2)) * 365.25 * 1000
    if c["norm"]:
        k = use.sum()
        tt = np.where(np.arange(k) < k // 2, 0.0, c["baseline"] * 365.25)
        tb = np.sum(w_ * tt) / np.sum(w_)
        slope = 1 / math.sqrt(np.sum(w_ * (tt - tb) ** 2)) * 365.25 * 1000 / slope
    if tol > 0.01:
        return None
    require(close(got, slope, tol), "proper motion uncertainty", got, slope)
    require(pm.units == ("ratio" if c["norm"] else "mas/yr"), "units", pm.units)
    return "pm"


def arc(theta):
    """smallest arc that contains all the angles"""
    t = np.sort(np.mod(theta, 2 * math.pi))
    if len(t) == 1:
        return 0.0
    gaps = np.append(np.diff(t), t[0] + 2 * math.pi - t[-1])
    return 2 * math.pi - gaps.max()


def t_coverage(c):
    rec, sp = table(c)
    err, snr = errors(c, rec)
    m = M.ParallaxCoverageMetric(rmag=c["rmag"], sed_template=c["sed"], atm_err=c["atm"], theta_range=c["range"], snr_limit=c["snrlim"], **kw(c, "m5_col", "filter_col", "seeing_col", "mjd_col"))
    got = metricrun.run(m, rec, sp, c["perm"], rtol=1e-7, atol=1e-9)
    if c["n"] < 2:
        require(got == m.badval, "coverage of a single visit", got)
        return None
    w = 1 / err ** 2
    x, y = rec["ra_pi_amp"], rec["dec_pi_amp"]
    r = np.hypot(x - np.average(x, weights=w), y - np.average(y, weights=w))
    full = np.average(r, weights=w)
    if c["range"] == 0:
        require(close(got, full, 1e-7, 1e-9), "parallax coverage", got, full)
        return "plain"
    if np.any(np.abs(snr - c["snrlim"]) < 1e-9):
        return None
    good = snr >= c["snrlim"]
    if not good.any():
        require(got == 0, "coverage without visits above the limit", got)
        return "none"
    th = np.arctan2(y[good], x[good])
    a = arc(th)
    if abs(a - c["range"]) < 1e-6 or (len(th) > 1 and np.min(np.abs(np.abs(th) - math.pi)) < 1e-9):
        return None
    if a >= c["range"]:
        require(close(got, full, 1e-7, 1e-9), "coverage although the angles span the range", got, full, a)
        return "spans"
    if a < math.pi:
        require(got == 0, "coverage although the angles do not span the range", got, a)
        return "short"
    return None


def t_degen(c):
    rec, sp = table(c)
    err, snr = errors(c, rec)
    m = M.ParallaxDcrDegenMetric(rmag=c["rmag"], sed_template=c["sed"], atm_err=c["atm"], **kw(c, "m5_col", "filter_col", "seeing_col"))
    if c["opt"] == 0:      # parallel vectors: degenerate
        rec["ra_dcr_amp"], rec["dec_dcr_amp"] = rec["ra_pi_amp"] * 0.5, rec["dec_pi_amp"] * 0.5
    if np.max(err) / np.min(err) > 1e6 or np.max(err) > 1e4:
        return None
    got = metricrun.run(m, rec, sp, c["perm"], rtol=1e-3, atol=1e-3)
    w = 1 / np.concatenate([err, err]) ** 2
    A = np.concatenate([rec["ra_pi_amp"], rec["dec_pi_amp"]])
    B = np.concatenate([rec["ra_dcr_amp"], rec["dec_dcr_amp"]])
    s11, s22, s12 = np.sum(w * A * A), np.sum(w * B * B), np.sum(w * A * B)
    if c["opt"] == 0:
        require(got == m.badval or abs(abs(got) - 1) < 1e-3, "parallel parallax and refraction", got)
        return "parallel"
    corr = -s12 / math.sqrt(s11 * s22)
    if abs(corr) > 0.99:
        return None
    require(close(got, corr, 1e-3, 1e-3), "parallax/refraction correlation", got, corr)
    return "regular"


def t_radius(c):
    rec, sp = table(c)
    m = M.RadiusObsMetric()
    got = metricrun.run(m, rec, sp)
    x0 = np.array([math.cos(sp["dec"]) * math.cos(sp["ra"]), math.cos(sp["dec"]) * math.sin(sp["ra"]), math.sin(sp["dec"])])
    ra, de = np.radians(rec["fieldRA"]), np.radians(rec["fieldDec"])
    v = np.array([np.cos(de) * np.cos(ra), np.cos(de) * np.sin(ra), np.sin(de)])
    d = np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(v.T - x0, axis=1) / 2, 0, 1)))
    require(m.units == "degrees", "units of the distances", m.units)
    require(np.shape(got) == (c["n"],) and close(got, d, 1e-6, 3e-6), "distance from the field center", got, d)
    require(close(m.reduce_mean(got), d.mean(), 1e-6, 1e-5) and close(m.reduce_rms(got), d.std(), 1e-6, 1e-5) and close(m.reduce_full_range(got), np.ptp(d), 1e-6, 1e-5), "reduced distances")
    # refraction precision
    err, snr = errors(c, rec)
    p = M.DcrPrecisionMetric(rmag=c["rmag"], sed_template=c["sed"], atm_err=c["atm"], **kw(c, "m5_col", "filter_col", "seeing_col"))
    got = metricrun.run(p, rec, sp, c["perm"])
    w = 1 / math.sqrt(np.sum(np.tan(np.radians(rec["zenithDistance"])) ** 2 / err ** 2))
    require(close(got, w), "refraction precision", got, w)
    # helper functions on arrays
    x = rec["zenithDistance"]
    s = err
    if len(x) > 1 and np.ptp(x) > 0:
        ww = 1 / s ** 2
        xb = np.sum(ww * x) / np.sum(ww)
        require(close(sigma_slope(x, s), 1 / math.sqrt(np.sum(ww * (x - xb) ** 2)), 1e-6), "slope uncertainty")
    m5 = rec[cols(c)[0]]
    for g in (0.04, 0.039, 0.02, None):
        xx = 10 ** (0.4 * (c["rmag"] - m5))
        w = 5 * 10 ** (-0.4 * (c["rmag"] - m5)) if g is None else 1 / np.sqrt((0.04 - g) * xx + g * xx ** 2)
        require(close(m52snr(c["rmag"], m5, gamma=g), w), "SNR", g)
        require(close(m52snr(20.0, 20.0, gamma=g), 5.0), "SNR at the limit is 5", g)
    require(close(astrom_precision(1.0, 10.0), 0.1) and close(astrom_precision(0.3, 1.0, 0.4), 0.5), "centroid error")
    return "radius"


TYPES = ["L0", "L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "L9", "T0", "T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9"]


def t_bd(c):
    rec, sp = table(c)
    ty = TYPES[c["seed"] % len(TYPES)]
    mags = bd_colors(ty)
    require(isinstance(mags, dict) and {"z", "y"} <= set(mags), "colors of a type", ty, mags)
    dist = np.arange(2, 400, 2.0)
    goal = [10.0, 3.0, 30.0][c["opt"] % 3]
    m = M.BDParallaxMetric(mags=mags, parallax_snr=goal, distances=dist, atm_err=c["atm"], **kw(c, "m5_col", "filter_col", "seeing_col"))
    got = metricrun.run(m, rec, sp, c["perm"], rtol=1e-7)
    m5, fw, fi, _ = cols(c)

    def snr_at(dd):
        info = 0.0
        for v in rec:
            b = str(v[fi])
            if b not in mags:
                continue
            x = 10 ** (0.4 * (mags[b] + 5 * math.log10(dd) - 5 - v[m5]))
            e2 = (v[fw] * 0.2 * x) ** 2 + c["atm"] ** 2
            info += (v["ra_pi_amp"] ** 2 + v["dec_pi_amp"] ** 2) / e2
        return 1000.0 / dd * math.sqrt(info) / 1000.0
    near, far = snr_at(dist[0]), snr_at(dist[-1])
    if near < goal * (1 - 1e-9):
        require(got == 0, "distance of an undetectable brown dwarf", got)
        return "none"
    if far >= goal or abs(near - goal) < 1e-6:
        return None
    d = brentq(lambda x: snr_at(x) - goal, dist[0], dist[-1])
    require(abs(float(got) - d) <= 0.02 * d + 1.0, "distance of brown dwarfs", ty, got, d)
    # volumes
    nside = 8
    vm = M.VolumeSumMetric(col="metricdata", nside=nside)
    v = np.zeros(5, dtype=[("metricdata", float)])
    v["metricdata"] = np.arange(5) * 3.0
    require(close(vm.run(v), np.sum(v["metricdata"] ** 3) / 3 * (4 * math.pi / (12 * nside ** 2))), "volume")
    return "L" if ty[0] == "L" else "T"


def arms():
    return [
        Arm("parallax", case_(), t_parallax, quick=500, thorough=30000, rule="visits in several bands, some with a proper motion baseline"),
        Arm("coverage", case_(), t_coverage, quick=600, thorough=30000, rule="two or more visits, and the reading of the range is unambiguous"),
        Arm("degen", case_(lo=2), t_degen, quick=250, thorough=15000, rule="fit is regular or exactly degenerate"),
        Arm("radius", case_(), t_radius, quick=300, thorough=15000, rule="visits at and near the slice point"),
        Arm("bd", case_(lo=2), t_bd, quick=300, thorough=15000, rule="a brown dwarf type is detected or not"),
    ]
