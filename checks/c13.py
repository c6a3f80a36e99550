"""C13: summary statistics over sky maps: areas, medians, powers, figures of merit."""

import contextlib
import io
import math
import warnings

import healpy as hp
import numpy as np
from hypothesis import strategies as st

from rubin_sim.maf import metric_bundles as mb
from rubin_sim.maf import maf_contrib as MC
from rubin_sim.maf import metrics as M
from rubin_sim.maf import slicers
from rubin_sim.maf.metrics import tomography_models as T
from rubin_sim.maf.metrics.cosmology_summary_metrics import get_stats_by_region, stripiness_test_statistic
from vp.core import Arm, require

ASSUMPTIONS = ["healpy's spherical harmonic transform is taken as given (checked on synthesised maps only)",
               "the 3x2pt emulator table is the published one, repeated in the check",
               "ties of map values with a threshold are judged as the documented comparison (strictly above / below)"]
BUDGET = {"quick": 60, "thorough": 2400}


def close(a, b, rtol=1e-9, atol=1e-9):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, equal_nan=True))


@st.composite
def map_case(draw):
    nside = draw(st.sampled_from([1, 2, 4, 8]))
    n = 12 * nside * nside
    d = {"nside": nside, "seed": draw(st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(["int", "float", "ties", "neg"])),
         "maskf": draw(st.sampled_from([0.0, 0.0, 0.2, 0.6, 0.97, 1.0])), "npix": draw(st.integers(1, n + 3)), "frac": draw(st.sampled_from([1.0, 0.999, 0.5, 1.2])),
         "nvis": draw(st.integers(1, 40)), "norm": draw(st.booleans()), "dec": draw(st.booleans()), "red": draw(st.sampled_from(["default", "median", "mean", "sum"])),
         "lo": draw(st.one_of(st.none(), st.integers(-5, 30))), "hi": draw(st.one_of(st.none(), st.integers(0, 45))), "nmin": draw(st.integers(1, 20)),
         "fpf": draw(st.sampled_from([0.1, 0.5, 1.0])), "zp": draw(st.integers(-5, 5)), "nv": draw(st.sampled_from([1, 2, -3, 0.5, 10]))}
    return d


def make_map(c):
    rng = np.random.RandomState(c["seed"])
    n = hp.nside2npix(c["nside"])
    if c["kind"] == "int":
        v = rng.randint(0, 40, n).astype(float)
    elif c["kind"] == "ties":
        v = rng.choice([5.0, 10.0, 11.0], n)
    elif c["kind"] == "neg":
        v = rng.uniform(-20, 30, n)
    else:
        v = rng.uniform(0, 40, n)
    mask = rng.rand(n) < c["maskf"]
    return rng, n, v, mask


def bundle(nside, values, mask, summ, metric=None):
    b = mb.MetricBundle(metric or M.CountMetric("x", metric_name="m"), slicers.HealpixSlicer(nside=nside, verbose=False), "", run_name="r", summary_metrics=summ)
    b.metric_values = np.ma.MaskedArray(values, mask=mask, fill_value=b.slicer.badval if values.dtype != object else None)
    return b


def t_summary(c):
    rng, n, v, mask = make_map(c)
    good = v[~mask]
    pa = hp.nside2pixarea(c["nside"], degrees=True)
    area = c["npix"] * pa * c["frac"]
    fp = (rng.rand(n) < c["fpf"]).astype(float) * rng.choice([1.0, 0.3], n)
    red = {"default": None, "median": np.median, "mean": np.mean, "sum": np.sum}[c["red"]]
    lo, hi = c["lo"], c["hi"]
    summ = [M.FOArea(metric_name="foarea", nside=c["nside"], n_visit=c["nvis"], asky=area, norm=c["norm"]),
            M.FONv(metric_name="fonv", nside=c["nside"], n_visit=c["nvis"], asky=area, norm=c["norm"]),
            M.AreaSummaryMetric(metric_name="asum", area=area, decreasing=c["dec"], reduce_func=red),
            M.AreaThresholdMetric(metric_name="athr", lower_threshold=lo, upper_threshold=hi),
            M.NormalizeMetric(metric_name="nrm", norm_val=c["nv"]), M.ZeropointMetric(metric_name="zpm", zp=c["zp"]),
            M.IdentityMetric("metricdata", metric_name="idm"),
            M.MedianMetric("metricdata", metric_name="med"), M.CountMetric("metricdata", metric_name="cnt"), M.SumMetric("metricdata", metric_name="sum"),
            M.MaxMetric("metricdata", metric_name="max"), M.RmsMetric("metricdata", metric_name="rms"), M.PercentileMetric("metricdata", percentile=25, metric_name="p25"),
            M.NoutliersNsigmaMetric("metricdata", n_sigma=3, metric_name="nout")]
    if fp.sum() > 0:
        summ.append(M.FootprintFractionMetric(metric_name="fpf", footprint=fp, n_min=c["nmin"]))
    b = bundle(c["nside"], v, mask, summ)
    before = b.metric_values.copy()
    b.compute_summary_stats()
    s = b.summary_values
    require(np.array_equal(before.mask, b.metric_values.mask) and np.array_equal(before.data, b.metric_values.data), "the map itself changed")
    require(set(s) == {m.name for m in summ}, "summary names", sorted(s))
    if len(good) == 0:
        for k in ("foarea", "fonv", "nrm", "zpm", "idm", "med", "cnt"):
            require(close(s[k], b.slicer.badval), "summary of a fully masked map", k, s[k])
        require(s["asum"] == -666, "area summary of a fully masked map", s["asum"])
        if not (lo is None and hi is None):
            require(s["athr"] == 0, "area over threshold of a fully masked map", s["athr"])
        return "masked"
    # area with at least so many visits
    k = int(np.sum(good >= c["nvis"]))
    want = k * pa / (area if c["norm"] else 1.0) if k else -666
    require(close(s["foarea"], want), "FOArea", s["foarea"], want)
    # visits over the best asky
    need = int(math.ceil(area / pa - 1e-9)) if c["frac"] in (1.0,) else int(math.ceil(area / pa))
    near = abs(area / pa - round(area / pa)) < 1e-9
    needs = {need} | ({need + 1} if near else set())
    desc = np.sort(good)[::-1]
    names = list(s["fonv"]["name"])
    require(names == ["MedianNvis", "MinNvis"], "FONv names", names)
    ok = []
    for q in needs:
        if len(good) < q:
            ok.append((-666.0, -666.0))
        else:
            best = desc[:q]
            f = c["nvis"] if c["norm"] else 1.0
            ok.append((np.median(best) / f, best[-1] / f))
    require(any(close(s["fonv"]["value"], o) for o in ok), "FONv", s["fonv"], ok)
    # area summary
    order = desc if c["dec"] else desc[::-1]
    rf = red or (np.min if c["dec"] else np.max)
    require(any(close(s["asum"], rf(order[:q])) for q in needs), "AreaSummary", s["asum"], [rf(order[:q]) for q in needs])
    # threshold
    if not (lo is None and hi is None and mask.any()):
        m = np.ones(len(good), bool)
        if lo is not None:
            m &= good > lo
        if hi is not None:
            m &= good < hi
        require(close(s["athr"], m.sum() * pa), "AreaThreshold", s["athr"], m.sum() * pa)
    require(close(s["nrm"], good / c["nv"] if len(good) > 1 else good[0] / c["nv"]) and np.ndim(s["nrm"]) == (len(good) > 1), "Normalize", s["nrm"])
    require(close(s["zpm"], good + c["zp"] if len(good) > 1 else good[0] + c["zp"]) and np.ndim(s["zpm"]) == (len(good) > 1), "Zeropoint", s["zpm"])
    require(close(s["idm"], good if len(good) > 1 else good[0]) and np.ndim(s["idm"]) == (len(good) > 1), "Identity", s["idm"])
    for k, w in (("med", np.median(good)), ("cnt", len(good)), ("sum", good.sum()), ("max", good.max()), ("rms", np.std(good)), ("p25", np.percentile(good, 25)),
                 ("nout", np.sum(good > good.mean() + 3 * np.std(good)))):
        require(close(s[k], w, 1e-9, 1e-7), "summary", k, s[k], w)
    if fp.sum() > 0:
        w = np.sum((fp > 0) & ~mask & (v >= c["nmin"])) / np.sum(fp > 0)
        require(close(s["fpf"], w), "FootprintFraction", s["fpf"], w)
    return c["kind"] if mask.any() else None


# ---------------------------------------------------------------- angular power

@st.composite
def power_case(draw):
    return {"nside": draw(st.sampled_from([8, 16])), "seed": draw(st.integers(0, 10 ** 6)), "lmin": draw(st.integers(0, 6)), "span": draw(st.integers(0, 12)), "mono": draw(st.booleans()),
            "dip": draw(st.booleans()), "maskf": draw(st.sampled_from([0.0, 0.0, 0.1, 0.4])), "region": draw(st.booleans()), "mv": draw(st.sampled_from(["nan", "unseen", "-5"])),
            "off": draw(st.sampled_from([0.0, 10.0, -300.0])), "amp": draw(st.sampled_from([1.0, 0.01, 50.0]))}


def fit_power(v, mask, mono, dip, lmin, lmax):
    """monopole and dipole fitted by least squares over the unmasked pixels"""
    nside = hp.get_nside(v)
    v = np.where(mask, hp.UNSEEN, v)
    xyz = np.array(hp.pix2vec(nside, np.arange(len(v))))
    g = ~mask
    if mono:
        v[g] -= v[g].mean()
    if dip:
        A = np.vstack([np.ones(g.sum()), xyz[:, g]]).T
        co = np.linalg.lstsq(A, v[g], rcond=None)[0]
        v[g] -= A @ co
    cl = hp.anafast(v)
    ell = np.arange(len(cl))
    use = (ell >= lmin) & (ell <= lmax)
    return float(np.sum(cl[use] * (2 * ell[use] + 1)))


def t_power(c):
    rng = np.random.RandomState(c["seed"])
    nside = c["nside"]
    n = hp.nside2npix(nside)
    lmin, lmax = c["lmin"], c["lmin"] + c["span"]
    L = 10
    cl_in = np.zeros(L + 1)
    cl_in[2:] = rng.uniform(0.1, 1, L - 1)
    with np.errstate(all="ignore"), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        np.random.seed(c["seed"] % (2 ** 31))
        alm = hp.synalm(cl_in, lmax=L)
        base = hp.alm2map(alm, nside, lmax=L) * c["amp"]
        vec = rng.normal(size=3)
        v = base + c["off"] + (vec @ np.array(hp.pix2vec(nside, np.arange(n)))) * c["amp"]
        if c["region"]:
            z = hp.pix2vec(nside, np.arange(n))[2]
            mask = z > 1 - 2 * c["maskf"]
        else:
            mask = rng.rand(n) < c["maskf"]
        mv = {"nan": np.nan, "unseen": hp.UNSEEN, "-5": -5.0}[c["mv"]]
        if c["mv"] == "-5" and np.any(v == -5.0):
            return None
        m = M.TotalPowerMetric(metric_name="tp", lmin=lmin, lmax=lmax, remove_monopole=c["mono"], remove_dipole=c["dip"], mask_val=mv)
        b = bundle(nside, v.copy(), mask, [m])
        b.compute_summary_stats()
        got = b.summary_values["tp"]
        want = fit_power(v.copy(), mask, c["mono"], c["dip"], lmin, lmax)
        scale = max(np.ptp(v), abs(c["off"])) ** 2
        require(np.isfinite(got) and close(got, want, 1e-5, 1e-7 * scale), "power", got, want)
        if not mask.any() and c["dip"]:
            # the synthesised spectrum itself
            cl = hp.alm2cl(alm) * c["amp"] ** 2
            ell = np.arange(len(cl))
            use = (ell >= max(lmin, 2)) & (ell <= lmax)
            w = np.sum(cl[use] * (2 * ell[use] + 1))
            require(close(got, w, 0.01, 1e-4 * c["amp"] ** 2 * np.sum(cl_in * (2 * np.arange(L + 1) + 1))), "power of a synthesised sky", got, w)
    return "masked" if mask.any() else "full"


# ---------------------------------------------------------------- 3x2pt emulator

FOM = {1: ([7500, 13000, 16000], [24.9, 25.2, 25.5], [[121.2257, 146.2689, 174.4913], [193.0906, 236.5094, 284.9131], [231.6956, 285.1547, 344.5717]]),
       3: ([10000, 15000, 20000], [25.5, 25.8, 26.1], [[171.0645, 224.6047, 243.1472], [244.5209, 325.0737, 351.6395], [317.3144, 424.9317, 459.5133]]),
       6: ([10000, 15000, 20000], [25.9, 26.1, 26.3], [[234.606, 241.4678, 285.2043], [340.2318, 349.312, 414.8814], [445.2766, 456.5497, 543.6992]]),
       10: ([10000, 15000, 20000], [26.3, 26.5, 26.7], [[288.7266, 295.323, 336.1616], [420.0093, 429.2111, 490.5306], [550.4419, 562.4697, 644.1837]])}


def bilinear(year, area, depth):
    A, D, F = (np.array(x, float) for x in FOM[year])
    a, d = np.clip(area, A[0], A[-1]), np.clip(depth, D[0], D[-1])
    rows = [np.interp(d, D, F[i]) for i in range(3)]
    return float(np.interp(a, A, rows))


@st.composite
def fom_case(draw):
    return {"nside": draw(st.sampled_from([4, 8])), "seed": draw(st.integers(0, 10 ** 6)), "year": draw(st.sampled_from([1, 3, 6, 10, 10, 2])),
            "area": draw(st.integers(0, 30000)), "depth": draw(st.integers(2450, 2700)) / 100.0, "zero": draw(st.booleans()), "col": draw(st.booleans())}


def t_fom(c):
    rng = np.random.RandomState(c["seed"])
    n = hp.nside2npix(c["nside"])
    pa = hp.nside2pixarea(c["nside"], degrees=True)
    k = min(n, int(c["area"] / pa))
    v = rng.normal(c["depth"], 0.1, n)
    use = rng.permutation(n)[:k]
    good = np.zeros(n, bool)
    good[use] = True
    mask = ~good
    if c["zero"] and (~good).any():     # some pixels hold the cut value instead of being masked
        j = np.where(~good)[0][:5]
        v[j] = rng.choice([0.0, -666.0])
        mask[j] = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = M.StaticProbesFoMEmulatorMetricSimple(year=c["year"], metric_name="fom", **({"col": "metricdata"} if c["col"] else {}))
        b = bundle(c["nside"], v, mask, [m])
        b.compute_summary_stats()
    got = b.summary_values["fom"]
    if k == 0 or c["year"] == 2:
        require(got == -666, "figure of merit where it is not defined", got)
        return None
    w = bilinear(c["year"], k * pa, np.median(v[good]))
    require(np.ndim(got) == 0 and close(got, w, 1e-6, 1e-6), "figure of merit", got, w, k * pa)
    return str(c["year"])


# ---------------------------------------------------------------- stripes

@st.composite
def stripe_case(draw):
    return {"nside": draw(st.sampled_from([2, 4, 8])), "seed": draw(st.integers(0, 10 ** 6)), "maskf": draw(st.sampled_from([0.0, 0.3, 0.7])), "maskval": draw(st.sampled_from([0, 0, 3])),
            "bad": draw(st.sampled_from(["-666", "nan", "inf", "zero"])), "form": draw(st.sampled_from(["fn", "metric"]))}


def gal_lat(ra, dec):
    ra0, dec0 = math.radians(192.85948), math.radians(27.12825)
    ra, dec = np.radians(ra), np.radians(dec)
    return np.degrees(np.arcsin(np.sin(dec) * math.sin(dec0) + np.cos(dec) * math.cos(dec0) * np.cos(ra - ra0)))


def t_stripe(c):
    rng = np.random.RandomState(c["seed"])
    nside = c["nside"]
    n = hp.nside2npix(nside)
    v = rng.uniform(1, 9, n)
    cut = rng.rand(n) < c["maskf"]
    ra, dec = hp.pix2ang(nside, np.arange(n), lonlat=True)
    b = gal_lat(ra, dec)
    if np.any(np.abs(b) < 1e-3):
        return None
    good = ~cut

    def stats(sel, mv):
        x = v[sel & good & (v > mv)]
        return (np.median(np.abs(x - np.median(x))), np.median(x), np.std(x)) if len(x) else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["form"] == "fn":
            mp = np.where(cut, {"-666": -666.0, "nan": hp.UNSEEN, "inf": -np.inf, "zero": 0.0}[c["bad"]], v)
            for region, sel in (("all", np.ones(n, bool)), ("north", b >= 0), ("south", b < 0)):
                w = stats(sel, c["maskval"])
                if w is None:
                    continue
                got = get_stats_by_region(mp.copy(), nside, maskval=c["maskval"], region=region)
                require(close(got, w), "statistics of a region", region, got, w)
            try:
                get_stats_by_region(mp, nside, region="east")
                require(False, "unknown region accepted")
            except ValueError:
                pass
        N, S = stats(b >= 0, 0), stats(b < 0, 0)
        if N is None or S is None or S[0] == 0:
            return None
        w = (N[0] / N[1]) / (S[0] / S[1]) - 1
        if c["form"] == "fn":
            got = stripiness_test_statistic(mp, nside)
        else:
            dt = [("exgal_m5", float), ("riz_exptime", float)]
            o = np.empty(n, dtype=object)
            for i in range(n):
                a = np.zeros(1, dtype=dt)
                a["exgal_m5"] = 25.0
                a["riz_exptime"] = v[i] if not cut[i] else {"-666": -666.0, "nan": np.nan, "inf": np.inf, "zero": 0.0}[c["bad"]]
                o[i] = a
            mask = cut & (rng.rand(n) < 0.5)
            with contextlib.redirect_stdout(io.StringIO()):
                m = M.StripinessMetric(year=3, nside=nside, metric_name="stripe", verbose=False)
                bb = bundle(nside, o, mask, [m], metric=M.PassMetric(cols=["x"], metric_name="m"))
                bb.compute_summary_stats()
            got = bb.summary_values["stripe"]
    require(close(got, w, 1e-9), "stripiness", got, w)
    return c["form"] if cut.any() else None


# ---------------------------------------------------------------- uniform area

@st.composite
def uniform_case(draw):
    return {"nside": draw(st.sampled_from([4, 8])), "seed": draw(st.integers(0, 10 ** 6)), "maskf": draw(st.sampled_from([0.0, 0.3])), "year": draw(st.integers(1, 10)), "north": draw(st.sampled_from([0.0, 0.0, 0.3, 0.5, 0.5])), "south": draw(st.sampled_from([0.0, 0.0, 0.3, 0.5])),
            "bad": draw(st.sampled_from(["-666", "nan", "inf"])), "d": draw(st.sampled_from([0.0, 0.4, -0.5])), "exp": draw(st.sampled_from([600.0, 1500.0]))}


def t_uniform(c):
    """Exposure times in two clear groups: a uniform map keeps everything, a striped one the better group."""
    rng = np.random.RandomState(c["seed"])
    nside = c["nside"]
    n = hp.nside2npix(nside)
    ra, dec = hp.pix2ang(nside, np.arange(n), lonlat=True)
    b = gal_lat(ra, dec)
    if np.any(np.abs(b) < 1e-3):
        return None
    second = rng.rand(n) < np.where(b >= 0, c["north"], c["south"])
    riz = np.where(second, 3.0, 1.0) * c["exp"] * rng.uniform(0.99, 1.01, n)
    m5 = np.where(second, 25.6 + c["d"], 25.6) + rng.uniform(-0.05, 0.05, n)
    cut = rng.rand(n) < c["maskf"]
    mask = cut & (rng.rand(n) < 0.5)
    o = np.empty(n, dtype=object)
    for i in range(n):
        a = np.zeros(1, dtype=[("exgal_m5", float), ("riz_exptime", float)])
        a["exgal_m5"] = m5[i]
        a["riz_exptime"] = riz[i]
        if cut[i]:
            a["exgal_m5"] = a["riz_exptime"] = {"-666": -666.0, "nan": np.nan, "inf": np.inf}[c["bad"]]
        o[i] = a

    def scatter(sel):
        x = riz[sel & ~cut]
        return np.median(np.abs(x - np.median(x))) / np.median(x)
    stat = scatter(b >= 0) / scatter(b < 0) - 1
    lim = 0.7 / math.sqrt(c["year"])
    if abs(abs(stat) - lim) < 1e-6:
        return None

    def fom(sel):
        d = np.zeros(n, dtype=[("metricdata", float)])
        d["metricdata"] = np.where(sel & ~cut, m5, -666.0)
        return MC.StaticProbesFoMEmulatorMetric(nside=nside, metric_name="f").run(d)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        m = M.UniformAreaFoMFractionMetric(year=c["year"], nside=nside, metric_name="u", verbose=False)
        bb = bundle(nside, o, mask, [m], metric=M.PassMetric(cols=["x"], metric_name="m"))
        bb.compute_summary_stats()
        got = bb.summary_values["u"]
        if abs(stat) < lim:
            want = 1.0
        else:
            use = ~cut
            if min(np.sum(use & second), np.sum(use & ~second)) < 5:
                return None
            want = max(fom(second), fom(~second)) / fom(np.ones(n, bool))
    require(close(got, want, 1e-6), "fraction of the figure of merit in the uniform area", got, want, stat, lim)
    return "striped" if abs(stat) > lim else "uniform"


# ---------------------------------------------------------------- tomography

@st.composite
def tomo_case(draw):
    return {"nside": draw(st.sampled_from([8, 16])), "seed": draw(st.integers(0, 10 ** 6)), "maskf": draw(st.sampled_from([0.0, 0.2, 0.6])), "flat": draw(st.booleans()), "year": draw(st.integers(1, 10)),
            "mult": draw(st.sampled_from([0.1, 1.0])), "conv": draw(st.booleans()), "lmin": draw(st.sampled_from([2, 5])), "nb": draw(st.integers(1, 5)), "k": draw(st.sampled_from([2.0, 0.5, 10.0])),
            "bands": draw(st.lists(st.sampled_from("ugrizy"), min_size=1, max_size=6, unique=True)), "partial": draw(st.booleans())}


def t_tomo(c):
    rng = np.random.RandomState(c["seed"])
    nside = c["nside"]
    n = hp.nside2npix(nside)
    D = T.DENSITY_TOMOGRAPHY_MODEL["year%d" % c["year"]]
    model = {"sigma8square_model": D["sigma8square_model"], "poly1d_coefs_loglog": D["poly1d_coefs_loglog"][:c["nb"]], "lmax": np.minimum(D["lmax"][:c["nb"]], 2 * nside + np.arange(c["nb"]))}
    vals = np.full((n, c["nb"]), 0.3) if c["flat"] else rng.normal(0, 0.02, (n, c["nb"]))
    mask = rng.rand(n) < c["maskf"]
    badpix = np.zeros(n, bool)
    if c["partial"]:
        badpix = (rng.rand(n) < 0.05) & ~mask
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = np.full(c["nb"], np.nan) if badpix[i] else vals[i].copy()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        m = M.TomographicClusteringSigma8biasMetric(model, power_multiplier=c["mult"], lmin=c["lmin"], convert_to_sigma8=c["conv"], metric_name="s8")
        b = bundle(nside, o, mask, [m], metric=M.PassMetric(cols=["x"], metric_name="m"))
        b.compute_summary_stats()
        got = b.summary_values["s8"]
        out = mask | badpix
        fsky = (~out).sum() * hp.nside2pixarea(nside, degrees=True) / 42000
        num = den = 0.0
        s2 = model["sigma8square_model"]
        for k in range(c["nb"]):
            P = fit_power(vals[:, k].copy(), out, True, True, c["lmin"], model["lmax"][k]) / fsky
            ell = np.arange(c["lmin"], model["lmax"][k])
            C = np.exp(np.polyval(model["poly1d_coefs_loglog"][k], np.log(ell)))
            tot = np.sum(C * (2 * ell + 1))
            var = np.sum(2 * C ** 2 * (2 * ell + 1)) / fsky
            t = tot / s2
            num += t * (tot + P * c["mult"]) / var
            den += t * t / var
    fit, err = num / den, den ** -0.5
    w = (fit - s2) / err
    if c["conv"]:
        w = (math.sqrt(fit) - math.sqrt(s2)) / (0.5 * err / math.sqrt(fit))
    require(close(got, w, 1e-5, 1e-6), "sigma8 bias", got, w)
    if c["flat"]:
        require(abs(got) < 1e-6, "a uniform survey is biased", got)
    # mean redshift bias: proportional to the scatter of the depths
    Z = T.MEANZ_TOMOGRAPHY_MODEL
    bands = c["bands"]
    depth = rng.normal(25, 0.1, (n, len(bands)))

    def meanz(dd):
        o2 = np.empty(n, dtype=object)
        for i in range(n):
            o2[i] = dd[i].copy()
        mm = M.MultibandMeanzBiasMetric(Z, filter_list=list(bands), year=c["year"], zbins=4, metric_name="mz")
        b2 = bundle(nside, o2, mask, [mm], metric=M.PassMetric(cols=["x"], metric_name="m"))
        b2.compute_summary_stats()
        return b2.summary_values["mz"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = meanz(depth)
        r2 = meanz(25 + (depth - 25) * c["k"])
        # reference
        f9 = np.poly1d(np.polyfit([0.2, 0.4, 0.7, 1.0], [0.001, 0.002, 0.005, 0.011], 2))
        tot = np.zeros(4)
        for j, f in enumerate(bands):
            mz = np.array([Z["year%d" % c["year"]]["meanz"][z][f] for z in range(4)])
            dz = np.array([Z["year%d" % c["year"]]["dz_dm5"][z][f] for z in range(4)])
            if np.any(mz >= 1.4):
                return None
            bias = f9(mz) * np.abs(dz) * np.std(depth[~mask, j]) / 0.02
            tot += np.poly1d(np.polyfit(mz, bias, 1))(mz)
    require(close(r["y1ratio"], tot / 0.013, 1e-6) and close(r["y10ratio"], tot / 0.003, 1e-6), "mean redshift bias", r, tot / 0.013)
    require(close(r2["y1ratio"], np.asarray(r["y1ratio"]) * c["k"], 1e-6), "mean redshift bias does not scale with the scatter", r2, r)
    return "flat" if c["flat"] else "structure"


def arms():
    return [
        Arm("summary", map_case(), t_summary, quick=700, thorough=40000, rule="the map has masked pixels"),
        Arm("power", power_case(), t_power, quick=150, thorough=8000, rule="map with monopole, dipole and structure"),
        Arm("fom", fom_case(), t_fom, quick=200, thorough=10000, rule="a figure of merit is defined for the year and the footprint is not empty"),
        Arm("stripe", stripe_case(), t_stripe, quick=150, thorough=8000, rule="some pixels are masked"),
        Arm("uniform", uniform_case(), t_uniform, quick=40, thorough=1500, rule="always, where the two groups of exposure times are populated"),
        Arm("tomo", tomo_case(), t_tomo, quick=60, thorough=3000, rule="bins with non-empty footprint"),
    ]
