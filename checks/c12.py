"""C12: binned/accumulated (vector) metrics and coadded-depth helpers."""

import functools
import math

import healpy as hp
import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.metrics as m
from rubin_sim.maf import utils as mu
from rubin_sim.maf.metrics.uniformity_metrics import MultibandExgalM5
from rubin_sim.phot_utils import DustValues
from vp import fakedata
from vp.core import Arm, require
from vp.gen import to_rec

ASSUMPTIONS = ["dust coefficients come from a synthetic filter set"]
BANDS = "ugrizy"


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def pct(xs, p):
    s = sorted(xs)
    k = (len(s) - 1) * p / 100.0
    lo = int(math.floor(k))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (k - lo)


def coadd(v):
    return 1.25 * math.log10(math.fsum(10 ** (0.8 * x) for x in v))


@st.composite
def vec_case(draw):
    n = draw(st.integers(1, 25))
    g = draw(st.sampled_from([1, 2, 4]))
    return {"night": [draw(st.integers(0, 20 * g)) / g for _ in range(n)], "val": [draw(st.integers(-40, 40)) / 4 for _ in range(n)],
            "m5": [draw(st.integers(80, 104)) / 4 for _ in range(n)],
            "bins": sorted(set(draw(st.lists(st.integers(-8, 88).map(lambda k: k / 4), min_size=2, max_size=10, unique=True)))),
            "stat": draw(st.sampled_from(["count", "mean", "sum", "min", "max", "median"])),
            "fn": draw(st.sampled_from(["add", "maximum", "minimum"])), "perm": draw(st.integers(0, 10 ** 6)),
            "ub": draw(st.integers(3, 30)), "un": [draw(st.integers(-1, 32)) for _ in range(n)]}


def vec_test(case):
    n = len(case["night"])
    d = to_rec({"night": [float(x) for x in case["night"]], "val": case["val"], "fiveSigmaDepth": case["m5"],
                "observationStartMJD": [60000.0 + x for x in case["night"]]})
    d = d[np.random.RandomState(case["perm"]).permutation(n)]
    bins = case["bins"]
    nb = len(bins) - 1
    rows = list(zip(case["night"], case["val"], case["m5"]))

    def inbin(x, i):
        return bins[i] <= x < bins[i + 1] or (i == nb - 1 and x == bins[-1])

    b = np.array(bins)
    sel = [[r for r in rows if inbin(r[0], i)] for i in range(nb)]
    F = {"count": len, "sum": math.fsum, "mean": lambda v: math.fsum(v) / len(v), "min": min, "max": max, "median": lambda v: pct(v, 50)}[case["stat"]]
    met = m.HistogramMetric(bins=b, bin_col="night", col="val", statistic=case["stat"])
    require(met.shape == nb, "shape", met.shape)
    out = met.run(d.copy())
    require(len(out) == nb, "length")
    for i in range(nb):
        v = [r[1] for r in sel[i]]
        if v or case["stat"] in ("count", "sum"):
            require(close(out[i], F(v)), "binned statistic", case["stat"], i, float(out[i]), F(v))
        else:
            require(not np.isfinite(out[i]), "statistic of an empty bin", float(out[i]))
    # visits up to the right edge of each bin
    acc = [[r for r in rows if r[0] <= bins[i + 1]] for i in range(nb)]
    G = {"add": math.fsum, "maximum": max, "minimum": min}[case["fn"]]
    out = m.AccumulateMetric(bins=b, bin_col="night", col="val", function=getattr(np, case["fn"]), badval=-77).run(d.copy())
    for i in range(nb):
        w = G([r[1] for r in acc[i]]) if acc[i] else -77
        require(close(out[i], w), "accumulated value", case["fn"], i, float(out[i]), w)
    out = m.AccumulateCountMetric(bins=b, bin_col="night", badval=-77).run(d.copy())
    require([int(x) for x in out] == [len(a) or -77 for a in acc], "accumulated count", list(map(int, out)), [len(a) for a in acc])
    out = m.HistogramM5Metric(bins=b, badval=-77).run(d.copy())
    for i in range(nb):
        w = coadd([r[2] for r in sel[i]]) if sel[i] else -77
        require(close(out[i], w), "coadded depth per bin", i, float(out[i]), w)
    out = m.AccumulateM5Metric(bins=b, badval=-77).run(d.copy())
    for i in range(nb):
        w = coadd([r[2] for r in acc[i]]) if acc[i] else -77
        require(close(out[i], w), "accumulated depth", i, float(out[i]), w)
    # growing uniformity measure on unit bins
    ub = case["ub"]
    edges = np.arange(0, ub + 1) - 0.5
    e = d.copy()
    e["night"] = [float(x) for x in case["un"]]
    out = m.AccumulateUniformityMetric(bins=edges).run(e.copy())
    if n == 1:
        require(list(out) == [1.0] * ub, "uniformity of one visit", list(out))
    else:
        best = 0
        for i in range(ub):
            have = sum(-0.5 <= x <= i + 0.5 for x in case["un"])
            best = max(best, abs(have - i / (ub - 1) * n))
            require(close(out[i], best / n), "accumulated uniformity", i, float(out[i]), best / n)
    return any(len(s) > 1 for s in sel) and any(not s for s in acc) and "edges" or (any(len(s) > 1 for s in sel) and "binned")


@functools.lru_cache(None)
def dust():
    return DustValues().ax1


@functools.lru_cache(None)
def exgal():
    return m.ExgalM5(badval=-77)


@st.composite
def depth_case(draw):
    n = draw(st.integers(1, 25))
    nb = draw(st.integers(1, 6))
    names = draw(st.sampled_from([["night", "band", "fiveSigmaDepth", "observationStartMJD"], ["nt", "filter", "m5", "mjd"]]))
    return {"rows": [[draw(st.integers(0, 5)), draw(st.integers(0, 400)), draw(st.sampled_from(BANDS[:nb])), draw(st.integers(80, 104)) / 4]
                     for _ in range(n)], "names": names, "ebv": draw(st.sampled_from([0.0, 0.05, 0.2, 0.21, 1.0])),
            "nf": draw(st.integers(1, 6)), "w": [draw(st.integers(-4, 4)) / 4 for _ in range(6)], "cst": draw(st.integers(-4, 4)) / 4,
            "mean": draw(st.one_of(st.none(), st.lists(st.integers(80, 104).map(lambda k: k / 4), min_size=6, max_size=6))),
            "cut": draw(st.one_of(st.none(), st.integers(80, 104).map(lambda k: k / 4 + 0.125))),
            "max": draw(st.one_of(st.none(), st.integers(80, 108).map(lambda k: k / 4 + 0.125)))}


def depth_test(case):
    rows = case["rows"]
    nc, fc, mc, tc = case["names"]
    d = to_rec({nc: [int(r[0]) for r in rows], tc: [60000.0 + r[0] + r[1] / 1024 for r in rows], fc: [r[2] for r in rows], mc: [r[3] for r in rows]})
    require(close(mu.coadd_m5([r[3] for r in rows]), coadd([r[3] for r in rows])), "coadded depth")
    out = mu.collapse_night(d.copy(), night_col=nc, filter_col=fc, m5_col=mc, mjd_col=tc)
    want = {}
    for r in rows:
        want.setdefault((r[0], r[2]), []).append(r)
    require(len(out) == len(want), "one row per night and band", len(out), len(want))
    for o in out:
        k = (int(o[nc]), str(o[fc]))
        require(k in want, "unexpected night and band", k)
        g = want.pop(k)
        require(close(o[mc], coadd([r[3] for r in g])), "nightly depth", k, float(o[mc]))
        require(abs(o[tc] - pct([60000.0 + r[0] + r[1] / 1024 for r in g], 50)) < 1e-9, "nightly time", k, float(o[tc]))
    require(all(np.diff(out[tc]) >= 0), "time order")
    # per-band coadded depths and their linear combination
    std = to_rec({"fiveSigmaDepth": [r[3] for r in rows], "band": [r[2] for r in rows]})
    sp = {"ebv": case["ebv"], "sid": 0}
    ax = dust()
    per = {b: coadd([r[3] for r in rows if r[2] == b]) - ax[b] * case["ebv"] for b in BANDS if any(r[2] == b for r in rows)}
    for b in per:
        g = exgal().run(std[std["band"] == b].copy(), sp)
        require(close(g, per[b]), "dust-corrected coadded depth", b, float(g), per[b])
    nf = case["nf"]
    names = list(per)
    model = {b: w for b, w in zip(names, case["w"])}
    model["cst"] = case["cst"]
    mean = None if case["mean"] is None else dict(zip(BANDS, case["mean"]))
    cut = None if case["cut"] is None else {names[0]: case["cut"]}
    mx = None if case["max"] is None else {names[-1]: case["max"]}
    met = m.SingleLinearMultibandModelMetric(model, n_filters=nf, mean_depth=mean, min_depth_cut=cut, max_depth_cut=mx)
    g = met.run(std.copy(), sp)
    bad = case["ebv"] > 0.2 or len(per) < nf or (cut and per[names[0]] < case["cut"]) or (mx and per[names[-1]] > case["max"])
    if bad:
        require(np.all(np.isnan(g)), "linear model outside its cuts", g)
    else:
        w = case["cst"] + sum(model[b] * (per[b] - (mean[b] if mean else 0)) for b in names)
        require(np.ndim(g) == 0 and close(float(g), w, 1e-8), "linear model of the depths", g, w)
    if len(per) == 6 or case["ebv"] > 0.2:
        g = MultibandExgalM5().run(std.copy(), sp)
        if case["ebv"] > 0.2:
            require(len(g) == 6 and np.all(np.isnan(g)), "multiband depth in dust", g)
        else:
            require(all(close(a, per[b]) for a, b in zip(g, BANDS)) and len(g) == 6, "multiband depths", list(g), per)
        mb = {k: 0.5 * v for k, v in model.items()}
        met = m.NestedLinearMultibandModelMetric([model, mb], mean_depth=mean, min_depth_cut=cut, max_depth_cut=mx)
        g = met.run(std.copy(), sp)
        require(len(g) == 2, "one value per model", g)
        if case["ebv"] > 0.2 or (cut and per[names[0]] < case["cut"]) or (mx and per[names[-1]] > case["max"]):
            require(np.all(np.isnan(g)), "nested model outside its cuts", g)
        else:
            for gi, mo in zip(g, (model, mb)):
                w = mo["cst"] + sum(mo[b] * (per[b] - (mean[b] if mean else 0)) for b in BANDS)
                require(close(float(gi), w, 1e-8), "nested linear model", float(gi), w)
        return "six bands"
    return len(per) > 1 and "multi-band"


@st.composite
def util_case(draw):
    n = draw(st.integers(1, 30))
    return {"x": [draw(st.integers(-50, 50)) / 4 for _ in range(n)], "s": [draw(st.integers(1, 20)) / 4 for _ in range(n)],
            "mask": [draw(st.booleans()) for _ in range(n)], "p": draw(st.integers(1, 100)), "nmax": draw(st.integers(3, 40)),
            "nmin": draw(st.integers(1, 3)), "lim": draw(st.one_of(st.none(), st.tuples(st.integers(-60, 0), st.integers(0, 60)))),
            "m": draw(st.integers(60, 112)) / 4, "m5": draw(st.integers(80, 104)) / 4, "g": draw(st.sampled_from([None, 0.039, 0.04, 0.036])),
            "ra": [draw(st.integers(-720, 720)) for _ in range(4)], "dec": [draw(st.integers(-90, 90)) for _ in range(4)],
            "nside": draw(st.sampled_from([1, 2, 8, 64])), "fl": draw(st.sampled_from([0.0, 0.01, 0.1])), "masked": draw(st.booleans())}


def util_test(case):
    x, s = case["x"], case["s"]
    n = len(x)
    # slope error of a weighted straight-line fit == normal equations
    g = mu.sigma_slope(np.array(x), np.array(s))
    w = [1 / v ** 2 for v in s]
    den = math.fsum(w) * math.fsum(a * b * b for a, b in zip(w, x)) - math.fsum(a * b for a, b in zip(w, x)) ** 2
    if len(set(x)) == 1:
        require(np.isnan(g) or g > 1e4, "slope error at one abscissa", float(g))
    else:
        A = np.array([[1, v] for v in x]) / np.array(s)[:, None]
        cov = np.linalg.inv(A.T @ A)
        require(close(g, math.sqrt(cov[1, 1]), 1e-6), "slope error", float(g), math.sqrt(cov[1, 1]))
    mm, m5, gam = case["m"], case["m5"], case["g"]
    snr = mu.m52snr(mm, m5, gamma=gam)
    require(close(mu.m52snr(m5, m5, gamma=gam), 5.0), "SNR at the five-sigma depth")
    r = 10 ** (0.4 * (mm - m5))
    wv = 5 / r if gam is None else 1 / math.sqrt((0.04 - gam) * r + gam * r * r)
    require(close(snr, wv, 1e-9), "SNR", float(snr), wv)
    require(mu.m52snr(mm + 0.5, m5, gamma=gam) < snr < mu.m52snr(mm, m5 + 0.5, gamma=gam), "SNR not monotonic")
    e = mu.astrom_precision(0.7, snr, case["fl"])
    require(close(e, math.hypot(0.7 / snr, case["fl"])), "astrometric precision")
    # bins
    lim = case["lim"]
    data = np.array(x)
    if case["masked"]:
        data = np.ma.MaskedArray(data, mask=case["mask"])
        keep = [a for a, b in zip(x, case["mask"]) if not b]
    else:
        keep = list(x)
    kw = {} if lim is None else {"binmin": lim[0] / 4, "binmax": lim[1] / 4}
    nb = mu.optimal_bins(data, nbin_max=case["nmax"], nbin_min=case["nmin"], **kw)
    require(isinstance(nb, int) and min(case["nmin"], case["nmax"]) <= nb <= max(case["nmin"], case["nmax"]), "number of bins", nb)
    lo = kw.get("binmin", min(keep) if keep else 0)
    hi = kw.get("binmax", max(keep) if keep else 0)
    inr = [v for v in keep if lo <= v <= hi]
    if not inr:
        require(nb == case["nmax"], "bins without data", nb)
    else:
        iqr = pct(inr, 75) - pct(inr, 25)
        if iqr > 0:
            f = (hi - lo) / (2 * iqr * len(inr) ** (-1 / 3))
            if abs(f - round(f)) > 1e-9:
                require(nb == int(min(max(f, case["nmin"]), case["nmax"])), "Freedman-Diaconis bins", nb, f)
    a, b = mu.percentile_clipping(np.array(x), case["p"])
    require(close(a, pct(x, (100 - case["p"]) / 2)) and close(b, pct(x, 100 - (100 - case["p"]) / 2)), "percentile clip", float(a), float(b))
    ra, dec = np.radians(case["ra"]), np.radians(case["dec"])
    pix = mu.radec2pix(case["nside"], ra, dec)
    vec = hp.ang2vec(np.pi / 2 - dec, ra)
    for p, v in zip(pix, vec):
        # the pixel found is the one holding the direction (or, on a pixel edge, one touching it)
        near = set(hp.vec2pix(case["nside"], *(v[:, None] + 1e-9 * np.random.RandomState(0).normal(size=(3, 40)))))
        require(p in near, "healpix of a position", int(p), near)
    return n > 3 and "n>3"


def name_strategy():
    return st.fixed_dictionaries({"s": st.text(alphabet="abcXYZ 019_.<>=,()/\\'\"%&+-*$^{}[]:\n", min_size=0, max_size=25)})


def name_test(case):
    s = case["s"]
    out = mu.name_sanitize(s)
    require(isinstance(out, str), "type")
    require(mu.name_sanitize(out) == out, "not idempotent", s, out)
    require(not set(out) & set("<>=/\\ .,():;%#"), "unsafe characters left", s, out)
    return len(set(s) & set("<>=/\\ .,():;%#")) > 1 and "unsafe"


def teardown():
    fakedata.cleanup()


def arms():
    fakedata.use()
    return [
        Arm("vector", vec_case(), vec_test, 700, rule="some bin holds two visits"),
        Arm("depth", depth_case(), depth_test, 500, rule="visits in more than one band"),
        Arm("utils", util_case(), util_test, 500, rule="more than three values"),
        Arm("names", name_strategy(), name_test, 500, rule="two or more unsafe characters"),
    ]
