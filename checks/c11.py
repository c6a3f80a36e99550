"""C11: season, campaign, visit-group, template and cumulative metrics."""

import functools
import math

import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.metrics as m
from rubin_scheduler.utils import SURVEY_START_MJD, Site, SysEngVals
from rubin_sim.maf.metrics.season_metrics import find_season_edges
from rubin_sim.phot_utils import DustValues
from vp import fakedata
from vp.core import Arm, require
from vp.gen import to_rec

ASSUMPTIONS = ["the definition of a season start (Sun passing the RA, reference 60940 / 178.984 deg) is rubin_scheduler's, re-implemented here"]
Q = 1.0 / 1024
BANDS = "ugrizy"
T0 = 60800.0


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def median(xs):
    s = sorted(xs)
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def season(ra_deg, mjd, start=SURVEY_START_MJD):
    began = 60940.0 + (ra_deg - 178.98403541421598) / 360 * 365.25
    began -= math.floor((began - start) / 365.25) * 365.25
    return (mjd - began) / 365.25


@functools.lru_cache(None)
def dust():
    return DustValues().ax1


@functools.lru_cache(None)
def tdc(cn, sn, pn):
    return m.TdcMetric(cad_norm=cn, sea_norm=sn, camp_norm=pn)


# ---------------------------------------------------------------- seasons
@st.composite
def season_case(draw):
    n = draw(st.integers(1, 25))
    span = draw(st.sampled_from([30, 400, 1500]))
    rows = []
    for _ in range(n):
        nt = draw(st.integers(0, span))
        rows.append([nt, draw(st.integers(0, 400)), draw(st.sampled_from([5.0, 15.0, 16.0, 20.0, 20.5, 30.0])),
                     draw(st.sampled_from("gri")), draw(st.integers(88, 104)) / 4])
    return {"rows": rows, "ra": draw(st.integers(0, 359)) + 0.37, "min": draw(st.sampled_from([16, 20])),
            "red": draw(st.sampled_from(["median", "mean", "max"])), "ebv": draw(st.sampled_from([0.0, 0.03, 0.4])),
            "norms": [draw(st.sampled_from([3.0, 1.5])), draw(st.sampled_from([4.0, 2.5])), draw(st.sampled_from([5.0, 3.0]))]}


def group_seasons(rows, ra):
    """{season number: [(mjd, night), ...]}"""
    out = {}
    for nt, k, *_ in rows:
        mjd = T0 + nt + k * Q
        s = season(ra, mjd)
        # away from the season edge by more than rounding
        require_edge = abs(s - round(s)) > 1e-9
        if not require_edge:
            return None
        out.setdefault(math.floor(s), []).append((mjd, nt))
    return out


def season_test(case):
    rows, ra = case["rows"], case["ra"]
    sp = {"ra": math.radians(ra), "dec": -0.5, "ebv": case["ebv"], "sid": 0}
    d = to_rec({"observationStartMJD": [T0 + r[0] + r[1] * Q for r in rows], "night": [int(r[0]) for r in rows],
                "visitExposureTime": [r[2] for r in rows], "band": [r[3] for r in rows], "fiveSigmaDepth": [r[4] for r in rows]})
    keep = [r for r in rows if r[2] > case["min"]]
    g = group_seasons(keep, ra)
    if g is None:
        return None
    red = {"median": median, "mean": lambda v: math.fsum(v) / len(v), "max": max}[case["red"]]
    a = m.SeasonLengthMetric(min_exp_time=case["min"], reduce_func=getattr(np, case["red"]), badval=-3).run(d.copy(), sp)
    b = m.CampaignLengthMetric(min_exp_time=case["min"], badval=-3).run(d.copy(), sp)
    c = m.MeanCampaignFrequencyMetric(min_exp_time=case["min"], badval=-3).run(d.copy(), sp)
    if not keep:
        require(a == -3 and b == -3 and c == -3, "no visit long enough", a, b, c)
    else:
        lens = [max(t for t, _ in v) - min(t for t, _ in v) for v in g.values()]
        require(close(a, red(lens), 1e-7), "season length", float(a), red(lens))
        require(b == len(g), "number of seasons", b, len(g))
        means = []
        for v in g.values():
            nts = sorted({n for _, n in v})
            means.append((nts[-1] - nts[0]) / (len(nts) - 1) if len(nts) > 1 else 0.0)
        require(close(c, math.fsum(means) / len(means)), "mean gap between nights", float(c), means)
    # time-delay challenge: only visits deep enough after dust count
    cut = {"u": 22.7, "g": 24.1, "r": 23.7, "i": 23.1, "z": 22.2, "y": 21.4}
    ax = dust()
    if any(abs(r[4] - ax[r[3]] * case["ebv"] - cut[r[3]]) < 1e-9 for r in rows):
        return None
    keep = [r for r in rows if r[4] - ax[r[3]] * case["ebv"] > cut[r[3]]]
    cn, sn, pn = case["norms"]
    met = tdc(cn, sn, pn)
    out = met.run(d.copy(), sp)
    g = group_seasons(keep, ra)
    if g is None:
        return None
    if not keep:
        require(out == met.badval, "TDC without visits", out)
        return None
    camp = len(g)
    sea = median([max(t for t, _ in v) - min(t for t, _ in v) for v in g.values()]) / 30.0
    means = []
    for v in g.values():
        nts = sorted({n for _, n in v})
        means.append((nts[-1] - nts[0]) / (len(nts) - 1) if len(nts) > 1 else 0.0)
    cad = math.fsum(means) / len(means)
    if sea == 0 or cad == 0:
        require(out == met.badval, "TDC degenerate", out)
        return "one-night"
    require(isinstance(out, dict), "TDC result", out)
    w = {"accuracy": 0.06 * (sn / sea) * (pn / camp) ** 1.1,
         "precision": 4.0 * (cad / cn) ** 0.7 * (sn / sea) ** 0.3 * (pn / camp) ** 0.6,
         "rate": 30.0 * (cn / cad) ** 0.4 * (sea / sn) ** 0.8 * (pn / camp) ** 0.2,
         "cadence": cad, "season": sea, "campaign": camp}
    for k, v in w.items():
        got = getattr(met, "reduce_" + k)(out)
        require(close(got, v, 1e-7), "TDC " + k, float(got), v)
    return "seasons" if camp > 1 else "one-season"


# ------------------------------------------------------------ season edges
@st.composite
def edges_case(draw):
    return {"s": sorted(draw(st.lists(st.integers(-12, 40).map(lambda k: k / 8), min_size=1, max_size=40)))}


def edges_test(case):
    s = case["s"]
    first, last = find_season_edges(np.array(s))
    ints = [math.floor(x) for x in s]
    u = sorted(set(ints))
    require(list(first) == [ints.index(x) for x in u], "first of season", list(first), ints)
    require(list(last) == [len(ints) - 1 - ints[::-1].index(x) for x in u], "last of season", list(last), ints)
    return len(u) > 1 and "multi"


# ------------------------------------------------------------ visit groups
@st.composite
def group_case(draw):
    n = draw(st.integers(1, 30))
    nnights = draw(st.integers(1, 12))
    step = draw(st.sampled_from([1, 3, 10, 29]))
    rows = [[draw(st.integers(0, nnights)) * step, draw(st.integers(0, 24)) * 4] for _ in range(n)]
    return {"rows": rows, "tmin": draw(st.integers(1, 16)), "tlen": draw(st.integers(0, 80)),
            "minv": draw(st.integers(1, 4)), "window": draw(st.sampled_from([5, 10, 30])), "minn": draw(st.integers(1, 4)),
            "perm": draw(st.integers(0, 10 ** 6))}


def group_test(case):
    rows = case["rows"]
    d = to_rec({"observationStartMJD": [T0 + a + b * Q for a, b in rows], "night": [int(a) for a, _ in rows]})
    lo, hi = case["tmin"], case["tmin"] + case["tlen"]
    # fraction of visits with another visit in [min, max) before or (min, max] after
    g = m.PairFractionMetric(min_gap=lo * Q * 1440, max_gap=hi * Q * 1440).run(d.copy())
    u = [a * 1024 + b for a, b in rows]
    sure = sum(any(lo < abs(x - y) < hi for y in u) for x in u) / len(u)
    maybe = sum(any(lo <= abs(x - y) <= hi for y in u) for x in u) / len(u)
    require(sure - 1e-12 <= g <= maybe + 1e-12, "pair fraction", float(g), sure, maybe)
    met = m.VisitGroupsMetric(delta_t_min=lo * Q, delta_t_max=hi * Q, min_n_visits=case["minv"], window=case["window"],
                              min_n_nights=case["minn"], badval=-3)
    out = met.run(d.copy())
    p = np.random.RandomState(case["perm"] % 2 ** 31).permutation(len(rows))
    out2 = met.run(d[p].copy())
    want = {}
    half = False
    for nt in sorted({a for a, _ in rows}):
        t = sorted(b for a, b in rows if a == nt)
        gaps = [y - x for x, y in zip(t, t[1:])]
        good = [lo <= x <= hi for x in gaps]
        too = [x < lo for x in gaps]
        if not any(good):
            continue
        nv = sum((i > 0 and good[i - 1]) or (i < len(good) and good[i]) for i in range(len(t)))
        ntoo = sum(too)
        runs = sum(x and (i == 0 or not too[i - 1]) for i, x in enumerate(too))
        want[nt] = (nv + 0.5 * ntoo, nv + 0.5 * (ntoo + runs)) if len(gaps) > 1 else (nv, nv)
        half = half or ntoo > 0
    if not want:
        require(out == -3 and out2 == -3, "no pair in the window", out)
        return None
    require(isinstance(out, dict), "visit groups result", out)
    require(list(out["nights"]) == sorted(want), "nights with a pair in the window", list(out["nights"]), want)
    require(list(out["visits"]) == list(out2["visits"]) and list(out["nights"]) == list(out2["nights"]), "order of visits matters")
    for nt, v in zip(out["nights"], out["visits"]):
        require(want[nt][0] <= v <= want[nt][1], "visits in groups", int(nt), float(v), want[nt])
    V = {int(n_): float(v) for n_, v in zip(out["nights"], out["visits"])}
    N = sorted(V)
    require(close(met.reduce_median(out), median(list(V.values()))), "median")
    ok = [n_ for n_ in N if V[n_] >= case["minv"]]
    require(met.reduce_n_nights_with_n_visits(out) == len(ok), "nights with enough visits")
    W = case["window"]
    require(close(met.reduce_n_visits_in_window(out), max([sum(V[k] for k in ok if n_ <= k < n_ + W) for n_ in N])), "visits in a window")
    require(met.reduce_n_nights_in_window(out) == max(sum(n_ <= k < n_ + W for k in ok) for n_ in N), "nights in a window")
    # lunations are 30-day blocks counted from the first night; the last block is left out when it would
    # start more than half a block after the last night -- it always contains the last night here
    good = []
    k = 0
    while N[0] + 30 * k < N[-1] + 15:
        inl = [n_ for n_ in ok if N[0] + 30 * k <= n_ < N[0] + 30 * (k + 1)]
        good.append(any(sum(a <= b < a + W for b in inl) >= case["minn"] for a in inl))
        k += 1
    require(met.reduce_n_lunations(out) == sum(good), "lunations with groups", met.reduce_n_lunations(out), good)
    best = cur = 0
    for x in good:
        cur = cur + 1 if x else 0
        best = max(best, cur)
    require(met.reduce_max_seq_lunations(out) == best, "successive lunations with groups", met.reduce_max_seq_lunations(out), good)
    return "half-visits" if half else ("lunations" if sum(good) else "groups")


# --------------------------------------------------------------- templates
@st.composite
def tmpl_case(draw):
    n = draw(st.integers(1, 16))
    rows = [[draw(st.integers(0, 40)), draw(st.integers(0, 400)), draw(st.integers(4, 14)) / 8, draw(st.integers(88, 104)) / 4]
            for _ in range(n)]
    return {"rows": rows, "band": draw(st.sampled_from(BANDS)), "n": draw(st.integers(1, 5)), "st": draw(st.sampled_from([0.6, 0.8, 1.1])),
            "mt": draw(st.sampled_from([None, 23.1, 24.6])), "sp": draw(st.sampled_from([0, 25, 50, 100])),
            "mp": draw(st.sampled_from([0, 25, 50, 100])), "dec": draw(st.integers(-89, 29)), "ra": draw(st.integers(0, 359)),
            "start": draw(st.sampled_from([None, 60700.0, 61000.0]))}


def pct(xs, p):
    s = sorted(xs)
    k = (len(s) - 1) * p / 100.0
    lo = int(math.floor(k))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (k - lo)


def tmpl_test(case):
    rows, b = case["rows"], case["band"]
    d = to_rec({"observationStartMJD": [T0 + r[0] + r[1] * Q for r in rows], "night": [int(r[0]) for r in rows],
                "seeingFwhmEff": [r[2] for r in rows], "fiveSigmaDepth": [r[3] for r in rows], "band": [b] * len(rows)})
    if len({(r[0], r[1]) for r in rows}) < len(rows):
        return None
    dec = math.radians(case["dec"] + 0.31)
    sp = {"ra": math.radians(case["ra"]), "dec": dec, "sid": 0}
    N = case["n"]
    met = m.TemplateTime(n_images_in_template=N, seeing_threshold=case["st"], m5_threshold=case["mt"], seeing_percentile=case["sp"],
                         m5_percentile=case["mp"], mjd_start=case["start"], badval=-3)
    # the documented choice of thresholds
    am = 1 / math.cos(abs(dec - Site("LSST").latitude_rad))
    seeing0 = case["st"] * am ** 0.6 * (500 / SysEngVals().eff_wavelengths[b]) ** 0.3
    bs = max(seeing0, pct([r[2] for r in rows], case["sp"]))
    kx = {"u": -0.46, "g": -0.21, "r": -0.12, "i": -0.07, "z": -0.06, "y": -0.1}[b]
    thr = {"u": 23.7, "g": 24.9, "r": 24.5, "i": 24.1, "z": 23.5, "y": 22.5}[b] if case["mt"] is None else case["mt"]
    bm = min(thr - kx * (1 - am) + 2.5 * math.log10(case["st"] / seeing0), pct([r[3] for r in rows], 100 - case["mp"]))
    if any(abs(r[2] - bs) < 1e-9 and r[2] != bs or abs(r[3] - bm) < 1e-9 and r[3] != bm for r in rows):
        return None
    out = met.run(d.copy(), sp)
    s = sorted(rows)
    ok = [i for i, r in enumerate(s) if r[2] <= bs and r[3] >= bm]
    if len(ok) < N:
        require(out == -3, "no template", out)
        return "never"
    require(isinstance(out, dict), "template result", out)
    i = ok[N - 1]
    night = s[i][0]
    after = [r for r in s if r[0] > night]
    require(close(out["bench_seeing"], bs) and close(out["bench_m5"], bm), "benchmarks", out["bench_seeing"], bs, out["bench_m5"], bm)
    require(met.reduce_night_template_created(out) == night, "night of the template", int(out["night_template_created"]), night)
    require(met.reduce_n_images_until_template(out) == i + 1, "images until the template")
    require(met.reduce_n_images_with_template(out) == len(after), "images with a template", int(out["n_images_with_template"]), len(after))
    m5s = [s[k][3] for k in ok[:N]]
    tm5 = 1.25 * math.log10(math.fsum(10 ** (0.8 * x) for x in m5s))
    require(close(met.reduce_template_m5(out), tm5), "template depth", float(out["template_m5"]), tm5)
    require(tm5 >= max(m5s) - 1e-12, "template shallower than its inputs")
    ts = met.reduce_template_seeing(out)
    # variance-weighted combination of the input seeing
    w = [10 ** (0.8 * x) for x in m5s]
    want_ts = math.sqrt(sum(wi * s[k][2] ** 2 for wi, k in zip(w, ok[:N])) / sum(w))
    require(close(ts, want_ts, 1e-7), "template seeing", float(ts), want_ts)
    lc = out["diffim_lc"]
    require(len(lc["mjd"]) == len(after) and list(lc["night"]) == [r[0] for r in after], "visits with templates", list(lc["night"]))
    diff = [r[3] - 1.25 * math.log10(1 + 10 ** (-0.8 * (tm5 - r[3]))) for r in after]
    require(all(close(x, y) for x, y in zip(lc["diff_m5"], diff)), "difference-image depth", list(lc["diff_m5"]), diff)
    tot = math.fsum(10000.0 * 10 ** (0.6 * (x - 24.7)) for x in diff)
    require(close(met.reduce_total_alerts(out), tot, 1e-7), "alerts", float(out["total_alerts"]), tot)
    if after:
        fb = sum(r[2] > want_ts for r in after) / len(after)
        if all(abs(r[2] - want_ts) > 1e-9 for r in after):
            require(close(met.reduce_fraction_better_template_seeing(out), fb), "fraction with better template")
    fs = met.reduce_frac_into_season(out)
    ws = season(case["ra"], T0 + s[i][0] + s[i][1] * Q, SURVEY_START_MJD if case["start"] is None else case["start"])
    require(abs(fs - ws) < 1e-6 or abs(abs(fs - ws) - 1) < 1e-6 and abs(ws - round(ws)) < 1e-6, "season of the template", float(fs), ws)
    return "template" if after else "last"


# -------------------------------------------------------------- cumulative
@st.composite
def cum_case(draw):
    n = draw(st.integers(1, 25))
    return {"rows": [[draw(st.integers(0, 30)), draw(st.integers(0, 400))] for _ in range(n)],
            "pts": draw(st.one_of(st.none(), st.lists(st.integers(-3, 35), min_size=1, max_size=8, unique=True))),
            "mjd": draw(st.integers(-10, 60)), "lim": draw(st.integers(0, 40)),
            "ang": [draw(st.integers(-1000, 1000)) for _ in range(n)], "rot": draw(st.integers(0, 359)),
            "m5": [draw(st.integers(88, 104)) / 4 for _ in range(n)], "sat": [draw(st.booleans()) for _ in range(n)]}


def cum_test(case):
    rows = case["rows"]
    d = to_rec({"observationStartMJD": [T0 + r[0] + r[1] * Q for r in rows], "night": [int(r[0]) for r in rows],
                "ang": [float(x) for x in case["ang"]], "fiveSigmaDepth": case["m5"],
                "saturation_mag": [15.0 if x else float("nan") for x in case["sat"]]})
    nights = [r[0] for r in rows]
    pts = case["pts"]
    out = m.CumulativeMetric(interp_points=None if pts is None else np.array(sorted(pts))).run(d.copy())
    x = list(out["x"])
    require(x == (list(range(min(nights), max(nights) + 1)) if pts is None else sorted(pts)), "points", x)
    cum = {k: sum(n <= k for n in nights) for k in range(-4, 40)}
    for xi, yi in zip(out["x"], out["y"]):
        if xi in nights:
            # any value inside the night is a fair interpolation; its end is the total
            lo = sum(n < xi for n in nights)
            require(lo + 1 <= yi <= cum[xi], "cumulative count", int(xi), float(yi), lo, cum[xi])
        elif xi < min(nights):
            require(yi <= 1, "before the first visit", float(yi))
        else:
            require(cum[xi] <= yi <= cum[xi] + 1 and yi <= len(nights), "cumulative count between visits", int(xi), float(yi), cum[xi])
    require(all(b >= a for a, b in zip(out["y"], out["y"][1:])), "cumulative count decreases")
    # age of the latest visit
    mjd = T0 + case["mjd"]
    met = m.AgeMetric(mjd, long_limit=case["lim"])
    got = met.run(d.copy())
    age = mjd - max(T0 + r[0] + r[1] * Q for r in rows)
    require(math.isnan(got) if age > case["lim"] else close(got, age), "age", float(got), age)
    # Kuiper statistic: rotation invariant, spread of (value - rank)
    u = sorted((a % 360) / 360 for a in case["ang"])
    dv = [a - (i + 1) / len(u) for i, a in enumerate(u)]
    k = m.KuiperMetric("ang").run(d.copy())
    require(close(k, max(dv) - min(dv)), "Kuiper statistic", float(k), max(dv) - min(dv))
    e = d.copy()
    e["ang"] += case["rot"]
    require(close(m.KuiperMetric("ang").run(e), k), "Kuiper statistic changes under rotation")
    g = m.SnrWeightedMetric("ang").run(d.copy())
    xs = [10 ** (0.4 * (20.0 - v)) for v in case["m5"]]
    ws = [1 / math.sqrt((0.04 - 0.04) * v + 0.04 * v * v) for v in xs]
    w = math.fsum(a * b for a, b in zip(case["ang"], ws)) / math.fsum(ws)
    require(abs(g - w) < 1e-7 * max(1, max(abs(a) for a in case["ang"])), "SNR-weighted mean", float(g), w)
    require(m.SkySaturationMetric().run(d.copy(), None) == sum(not v for v in case["sat"]), "saturated skies")
    return len(set(nights)) > 1 and "multi-night"


def teardown():
    fakedata.cleanup()


def arms():
    fakedata.use()
    return [
        Arm("seasons", season_case(), season_test, 700, rule="visits in more than one season after cuts"),
        Arm("season_edges", edges_case(), edges_test, 400, rule="more than one season"),
        Arm("groups", group_case(), group_test, 1200, rule="some night has a pair in the window"),
        Arm("template", tmpl_case(), tmpl_test, 900, rule="template created or enough visits but none good"),
        Arm("cumulative", cum_case(), cum_test, 500, rule="more than one night"),
    ]
