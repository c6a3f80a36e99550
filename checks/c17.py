"""C17: derived visit columns (stackers): definitions, row by row, for every table."""

import datetime
import math
import warnings

import healpy as hp
import numpy as np
import pandas as pd
import numpy.lib.recfunctions as rfn
from hypothesis import strategies as st

from rubin_scheduler.utils import Site
from rubin_sim.maf import stackers as S
from rubin_sim.maf.stackers import general_stackers, mo_stackers
from rubin_sim.maf.stackers.coord_stackers import ra_dec2_alt_az
from rubin_sim.maf.utils import load_inst_zeropoints
from vp import fakedata
from vp.core import Arm, require
from vp.gen import to_rec

ASSUMPTIONS = ["sun and moon altitudes are not between the limits read as degrees and as radians (the code is ambiguous there)",
               "astropy's Sun and Earth positions and rubin_scheduler's single-visit depth and sidereal time are taken as given",
               "the sign of the NEO offset is not judged; its size is"]
BUDGET = {"quick": 60, "thorough": 2400}
LAT = Site("LSST").latitude_rad
BANDS = "ugrizy"
EPS = math.radians(23.4392911)


@st.composite
def visits_case(draw, lo=1, hi=14):
    n = draw(st.integers(lo, hi))
    d = {"n": n, "seed": draw(st.integers(0, 10 ** 6)), "bands": draw(st.lists(st.sampled_from(BANDS), min_size=1, max_size=4, unique=True)), "mjd0": draw(st.integers(58000, 64000)) + draw(st.sampled_from([0.0, 0.49, 0.5, 0.51, 0.9])), "wild": draw(st.booleans()), "opt": draw(st.integers(0, 3)), "which": draw(st.integers(0, 10 ** 6))}
    d["special"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["pole", "spole", "ra0", "ra360", "zenith", "lst0", "noon"])), max_size=3))
    d["perm"] = draw(st.permutations(range(n)))
    return d


NOTES = ["pair_33, gr, a", "DD:COSMOS", "DD:EDFS_a, u,", "DD: XMM_LSS", "greedy", "long, gaps, b", "", "blob_long", "twilight_near_sun, 0, 1", "DD:u,ELAISS1"]


def table(case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    d = {}
    d["fieldRA"] = rng.randint(0, 36000, n) / 100.0
    d["fieldDec"] = np.clip(np.degrees(np.arcsin(rng.uniform(-1, 1, n))), -89.5, 89.5) if case["wild"] else rng.randint(-85, 25, n).astype(float)
    d["observationStartLST"] = rng.randint(0, 36000, n) / 100.0
    d["altitude"] = rng.randint(80, 890, n) / 10.0
    d["azimuth"] = rng.randint(0, 3600, n) / 10.0
    d["sunAz"] = rng.randint(0, 3600, n) / 10.0
    d["observationStartMJD"] = np.sort(case["mjd0"] + np.cumsum(rng.choice([40.0, 34.5, 120.0, 3600.0, 40000.0, 86400.0], n)) / 86400.0)
    for i, s in case["special"]:
        if s == "pole":
            d["fieldDec"][i] = 89.99
        elif s == "spole":
            d["fieldDec"][i] = -90.0
        elif s == "ra0":
            d["fieldRA"][i] = 0.0
        elif s == "ra360":
            d["fieldRA"][i] = 359.999
        elif s == "zenith":
            d["fieldDec"][i] = math.degrees(LAT) + 0.001
        elif s == "lst0":
            d["observationStartLST"][i] = 0.0
        elif s == "noon":
            d["observationStartMJD"][i] = math.floor(d["observationStartMJD"][i]) + 0.5
    d["observationStartMJD"] = np.sort(d["observationStartMJD"])
    d["night"] = np.floor(d["observationStartMJD"] - 0.5).astype(int) - 57000
    d["airmass"] = 1.0 / np.sin(np.radians(np.maximum(d["altitude"], 20)))
    d["seeingFwhmEff"] = rng.randint(50, 200, n) / 100.0
    d["seeingFwhmGeom"] = d["seeingFwhmEff"] * 0.9
    d["skyBrightness"] = rng.randint(1500 if case["wild"] else 1900, 2250, n) / 100.0
    d["visitExposureTime"] = rng.choice([15.0, 29.2, 30.0, 38.0, 300.0], n)
    d["numExposures"] = rng.randint(1, 3, n)
    d["visitTime"] = d["visitExposureTime"] + rng.choice([2.0, 4.4, 6.0], n)
    d["fiveSigmaDepth"] = rng.randint(2000, 2600, n) / 100.0
    d["band"] = [case["bands"][k] for k in rng.randint(0, len(case["bands"]), n)]
    d["filter"] = list(d["band"])
    d["moonAlt"] = rng.choice([-60.0, -20.0, -5.0, 5.0, 40.0, 80.0], n)
    d["sunAlt"] = rng.choice([-70.0, -40.0, -20.0, 1.0], n)
    d["solarElong"] = rng.randint(100, 1700, n) / 10.0
    d["scheduler_note"] = [NOTES[k] for k in rng.randint(0, len(NOTES), n)]
    d["observationId"] = np.arange(n)
    for k in range(1, 9):
        d[f"p{k}"] = rng.randint(-3600, 7200, n) / 10.0
    return to_rec({k: list(v) if k in ("band", "filter", "scheduler_note") else np.asarray(v).tolist() for k, v in d.items()})


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def angdiff(a, b, period):
    return np.abs((np.asarray(a) - np.asarray(b) + period / 2) % period - period / 2)


def run(s, d, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return s.run(d, **k)


# ------------------------------------------------------------------ every stacker
def options(case):
    fp = np.zeros(hp.nside2npix(32))
    fp[: len(fp) * (case["which"] % 5) // 4] = 1
    zp = {b: 26.0 + i for i, b in enumerate(BANDS)}
    km = {b: 0.1 * i for i, b in enumerate(BANDS)}
    return [
        ("norm", lambda: S.NormAirmassStacker(), True), ("parallax", lambda: S.ParallaxFactorStacker(), True), ("ha", lambda: S.HourAngleStacker(), True), ("zd", lambda: S.ZenithDistStacker(), True), ("pa", lambda: S.ParallacticAngleStacker(), True), ("dcr", lambda: S.DcrStacker(), True), ("dcr2", lambda: general_stackers.Dcr2Stacker(), True),
        ("m5", lambda: S.FiveSigmaStacker(), True), ("sat", lambda: S.SaturationStacker(zeropoints=zp, km=km), True), ("note", lambda: general_stackers.NoteRootStacker(), True), ("overhead", lambda: S.OverheadStacker(), False), ("gal", lambda: S.GalacticStacker(), True), ("ecl", lambda: S.EclipticStacker(), True), ("hp", lambda: S.HealpixStacker(nside=16), True),
        ("dt64", lambda: S.ObservationStartDatetime64Stacker(), True), ("dayobs", lambda: S.DayObsStacker(), True), ("dayobsmjd", lambda: S.DayObsMJDStacker(), True), ("dayobsiso", lambda: S.DayObsISOStacker(), True), ("wfd", lambda: S.WFDlabelStacker(footprint=fp), True), ("m5opt", lambda: S.M5OptimalStacker(), True),
        ("follow", lambda: S.NFollowStacker(), True), ("neo", lambda: S.NEODistStacker(stepsize=0.05), True), ("sdss", lambda: S.SdssRADecStacker(), True), ("teff", lambda: S.TeffStacker(), True), ("timestamp", lambda: S.ObservationStartTimestampStacker(), True),
    ]


def same(a, b):
    if a.dtype.kind in "fc":
        # (array-at-a-time astronomy routines differ in the last digits with the length of the table)
        return bool(np.all((np.abs(a - b) <= 1e-10 * np.maximum(1, np.abs(b))) | (np.isnan(a) & np.isnan(b))))
    if a.dtype.kind == "O":
        return all(abs(x - y) < pd.Timedelta(microseconds=1) if isinstance(x, pd.Timestamp) else x == y for x, y in zip(a, b))
    return bool(np.all(a == b))


def generic_test(case):
    d = table(case)
    opts = options(case)
    perm = np.array(case["perm"])
    for j in range(5):
        name, make, local = opts[(case["which"] + j * 7) % len(opts)]
        before = d.copy()
        out = run(make(), d)
        require(np.array_equal(before, d), "the table given to a stacker was changed", name)
        require(len(out) == len(d), "number of rows", name)
        st_ = make()
        for c in d.dtype.names:
            require(same(np.asarray(out[c]), d[c]), "an existing column was changed", name, c)
        for c in st_.cols_added:
            require(c in out.dtype.names, "column was not added", name, c)
        if local:
            p = run(make(), d[perm])
            one = run(make(), d[:1])
            last = run(make(), d[len(d) // 2:])
            for c in st_.cols_added:
                require(same(np.asarray(p[c]), np.asarray(out[c])[perm]), "values depend on the order of the rows", name, c)
                require(same(np.asarray(one[c]), np.asarray(out[c])[:1]), "values depend on other rows", name, c)
                require(same(np.asarray(last[c]), np.asarray(out[c])[len(d) // 2:]), "values depend on other rows", name, c)
        again = run(make(), out)
        for c in st_.cols_added:
            require(same(np.asarray(again[c]), np.asarray(out[c])), "running twice changes the column", name, c)
        if len(st_.cols_added) > 1 and name not in ("dcr", "dcr2"):
            # a table that already has some of the columns (with other values) is not a table that has them all
            stale = st_.cols_added[case["which"] % len(st_.cols_added)]
            part = rfn.append_fields(d, stale, np.roll(np.asarray(out[stale]), 1) if len(d) > 1 else np.asarray(out[stale]), usemask=False)
            got = run(make(), part)
            for c in st_.cols_added:
                require(same(np.asarray(got[c]), np.asarray(out[c])), "values when the table already had one of the columns", name, c, stale)
        if name != "timestamp":
            bad = out.copy()
            for c in st_.cols_added:
                bad[c] = np.roll(bad[c], 1) if len(bad) > 1 else bad[c]
            over = run(make(), bad, override=True)
            if name not in ("dcr", "dcr2", "pa"):
                for c in st_.cols_added:
                    require(same(np.asarray(over[c]), np.asarray(out[c])), "override did not recompute", name, c)
        require(make() == make() and not (make() != make()), "equal stackers", name)
        require(make() != opts[(case["which"] + j * 7 + 1) % len(opts)][1](), "different stackers are equal", name)
        require(len(run(make(), d[:0])) == 0, "empty table", name)
    return "special" if case["special"] else ("several" if len(d) > 1 else None)


# ------------------------------------------------------------------ horizon geometry
def vec(lon, lat):
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def geometry_test(case):
    d = table(case)
    deg = case["opt"] % 2 == 0
    x = d.copy()
    if not deg:
        for c in ("fieldRA", "fieldDec", "observationStartLST", "altitude"):
            x[c] = np.radians(d[c])
    u = (lambda v: np.radians(v)) if deg else (lambda v: v)
    ra, dec, lst = np.radians(d["fieldRA"]), np.radians(d["fieldDec"]), np.radians(d["observationStartLST"])
    h = run(S.HourAngleStacker(degrees=deg), x)["HA"]
    require(np.all((h >= -12 - 1e-9) & (h <= 12 + 1e-9)) and np.all(angdiff(h, (lst - ra) * 12 / np.pi, 24) < 1e-8), "hour angle", h)
    ps = S.ParallacticAngleStacker(degrees=deg)
    pa = run(ps, x)["PA"]
    n, z = vec(ra, dec), vec(lst, np.full(len(d), LAT))
    east = np.array([-np.sin(ra), np.cos(ra), np.zeros(len(d))])
    north = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    want = np.arctan2((z * east).sum(0), (z * north).sum(0))
    away = np.hypot((z * east).sum(0), (z * north).sum(0))
    require(np.all(angdiff(u(pa), want, 2 * np.pi) * away < 1e-7), "parallactic angle", u(pa), want)
    zs = S.ZenithDistStacker(degrees=deg)
    zd = run(zs, x)["zenithDistance"]
    require(close(u(zd), np.radians(90 - d["altitude"])), "zenith distance", zd)
    for s, c in ((zs, "zenithDistance"), (ps, "PA")):
        require(str(s.units[0]).lower().startswith("deg") == deg, "unit recorded for an angle", s.units)
    na = run(S.NormAirmassStacker(degrees=deg, **({"telescope_lat": 20.0} if case["opt"] == 3 else {})), x)["normairmass"]
    lat = math.radians(20.0) if case["opt"] == 3 else LAT
    require(close(na, d["airmass"] * np.cos(dec - lat), 1e-6), "airmass over the smallest possible airmass", na)
    # differential refraction
    amp = {b: 0.01 * (k + 1) for k, b in enumerate(BANDS)} if case["opt"] > 1 else None
    tz = np.tan(np.radians(90 - d["altitude"]))
    pw = u(pa)
    default = {"u": 0.07, "g": 0.07, "r": 0.050, "i": 0.045, "z": 0.042, "y": 0.04}
    a = np.array([(amp or default)[b] for b in d["band"]])
    o = run(S.DcrStacker(degrees=deg, dcr_magnitudes=amp), x)
    require(close(o["ra_dcr_amp"], a * tz * np.sin(pw)) and close(o["dec_dcr_amp"], a * tz * np.cos(pw)), "differential refraction", o["ra_dcr_amp"])
    kw = {}
    if case["which"] % 2:
        kw["zstacker"] = S.ZenithDistStacker(degrees=deg)
    if case["which"] % 3 == 0:
        kw["pastacker"] = S.ParallacticAngleStacker(degrees=deg)
    default = {"u": 0.02404978, "g": 0.03084951, "r": 0.00578543, "i": 0.0015424, "z": 0.00043015, "y": 0.00026005}
    a = np.array([(amp or default)[b] for b in d["band"]])
    o = run(general_stackers.Dcr2Stacker(degrees=deg, dcr2_magnitudes=amp, **kw), x)
    require(close(o["dcr_var"], a * tz ** 2) and close(o["ra_dcr_var"] + o["dec_dcr_var"], o["dcr_var"]) and close(o["ra_dec_dcr_cov"] ** 2, o["ra_dcr_var"] * o["dec_dcr_var"], 1e-7), "second moments of the refraction", o["dcr_var"])
    require(close(o["ra_dcr_var"], a * (tz * np.sin(pw)) ** 2) and close(o["ra_dec_dcr_cov"], a * tz ** 2 * np.sin(pw) * np.cos(pw)), "second moments of the refraction", o["ra_dcr_var"])
    return "degrees" if deg else "radians"


# ------------------------------------------------------------------ sky coordinates
NGP = (math.radians(192.85948), math.radians(27.12825), math.radians(122.93192))


def sky_test(case):
    from astropy.coordinates import get_body_barycentric, get_sun
    from astropy.time import Time

    d = table(case)
    deg = case["opt"] % 2 == 0
    x = d.copy()
    if not deg:
        for c in ("fieldRA", "fieldDec"):
            x[c] = np.radians(d[c])
    ra, dec = np.radians(d["fieldRA"]), np.radians(d["fieldDec"])
    n = vec(ra, dec)
    # galactic: rotation defined by the pole and the position angle of the centre
    s = S.GalacticStacker(degrees=deg)
    o = run(s, x)
    a0, d0, l0 = NGP
    sb = np.sin(dec) * np.sin(d0) + np.cos(dec) * np.cos(d0) * np.cos(ra - a0)
    b = np.arcsin(np.clip(sb, -1, 1))
    l = l0 - np.arctan2(np.cos(dec) * np.sin(ra - a0), np.sin(dec) * np.cos(d0) - np.cos(dec) * np.sin(d0) * np.cos(ra - a0))
    unit = 1.0 if str(s.units[0]).lower().startswith("rad") else math.pi / 180
    require(np.all(angdiff(o["galb"] * unit, b, 2 * np.pi) < 1e-5) and np.all((angdiff(o["gall"] * unit, l, 2 * np.pi) * np.cos(b)) < 1e-5), "galactic coordinates (in the recorded units)", o["gall"], s.units)
    # ecliptic
    sun = case["opt"] >= 2
    s = S.EclipticStacker(degrees=deg, subtract_sun_lon=sun)
    o = run(s, x)
    unit = 1.0 if str(s.units[0]).lower().startswith("rad") else math.pi / 180

    def ecl(v):
        y = np.cos(EPS) * v[1] + np.sin(EPS) * v[2]
        return np.arctan2(y, v[0]), np.arcsin(-np.sin(EPS) * v[1] + np.cos(EPS) * v[2])

    lon, lat = ecl(n)
    if sun:
        g = get_sun(Time(d["observationStartMJD"], format="mjd"))
        lon = lon - ecl(vec(g.ra.rad, g.dec.rad))[0]
    require(np.all(np.abs(o["eclipLat"] * unit - lat) < 3e-4), "ecliptic latitude", o["eclipLat"], lat)
    require(np.all(angdiff(o["eclipLon"] * unit, lon, 2 * np.pi) * np.cos(lat) < 5e-4), "ecliptic longitude", o["eclipLon"], lon)
    # pixels
    if deg:
        ns = [1, 8, 64, 128][case["which"] % 4]
        o = run(S.HealpixStacker(nside=ns), x)
        ring, nest = o["ring_healpix"].astype(int), o["nest_healpix"].astype(int)
        require(np.all(ring == o["ring_healpix"]) and np.all(hp.ring2nest(ns, ring) == nest), "ring and nest pixels disagree")
        require(np.all(hp.ang2pix(ns, np.pi / 2 - dec, ra) == ring) or np.max(np.arccos(np.clip((np.array(hp.pix2vec(ns, ring)) * n).sum(0), -1, 1))) <= hp.max_pixrad(ns) + 1e-9, "pixel does not hold the pointing", ring)
    # parallax: displacement of a star at 1 pc seen from the Earth
    o = run(S.ParallaxFactorStacker(degrees=deg), x)
    e = get_body_barycentric("earth", Time(d["observationStartMJD"], format="mjd")).xyz.to_value("AU")
    east = np.array([-np.sin(ra), np.cos(ra), np.zeros(len(d))])
    north = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    require(np.all(np.abs(o["ra_pi_amp"] + (e * east).sum(0)) < 3e-3) and np.all(np.abs(o["dec_pi_amp"] + (e * north).sum(0)) < 3e-3), "parallax", o["ra_pi_amp"], -(e * east).sum(0), o["dec_pi_amp"], -(e * north).sum(0))
    return "sun" if sun else "sky"


# ------------------------------------------------------------------ photometry
def phot_test(case):
    from rubin_scheduler.utils import m5_flat_sed

    d = table(case)
    n = len(d)
    m5 = run(S.FiveSigmaStacker(), d)["m5_simsUtils"]
    want = [float(np.asarray(m5_flat_sed(str(d["band"][i]), d["skyBrightness"][i], d["seeingFwhmEff"][i], d["visitExposureTime"][i], d["airmass"][i]))) for i in range(n)]
    require(close(m5, want), "single-visit depth", m5, want)
    # saturation
    zp0, km0 = load_inst_zeropoints()
    zp = {b: 26.5 + 0.3 * i for i, b in enumerate(BANDS)} if case["opt"] in (1, 3) else None
    km = {b: 0.08 * i for i, b in enumerate(BANDS)} if case["opt"] in (2, 3) else None
    e, pix = [(150e3, 0.2), (100e3, 0.2), (150e3, 0.4)][case["which"] % 3]
    sat = run(S.SaturationStacker(zeropoints=zp, km=km, saturation_e=e, pixscale=pix), d)["saturation_mag"]
    over = False
    for i in range(n):
        b = str(d["band"][i])
        z, k = (zp or zp0)[b], (km or km0)[b]
        t = d["visitExposureTime"][i] / d["numExposures"][i]
        left = e - 10 ** (0.4 * (z - d["skyBrightness"][i])) * pix ** 2 * t
        if abs(left) < 1e-6 * e:
            continue
        if left < 0:
            over = True
            require(np.isnan(sat[i]), "a visit saturated by the sky has a saturation magnitude", sat[i])
        else:
            sig = d["seeingFwhmEff"][i] / 2.354 / pix
            w = z - 2.5 * math.log10(left * 2 * math.pi * sig ** 2 / t) - k * (d["airmass"][i] - 1)
            require(abs(sat[i] - w) < 1e-8, "saturation magnitude", sat[i], w)
    # depth at the best airmass
    o = run(S.M5OptimalStacker(), d)["m5_optimal"]
    slope = {"g": -0.52611780327408397, "i": -0.67898669252082422, "r": -0.61378749766766827, "u": -0.27840980367303503, "y": -0.69635091524779691, "z": -0.69652846002009128}
    kat = {"u": 0.50, "g": 0.21, "r": 0.13, "i": 0.10, "z": 0.07, "y": 0.18}
    for i in range(n):
        b = str(d["band"][i])
        xm = 1 / math.cos(math.radians(d["fieldDec"][i]) - LAT)
        if xm < 0:
            continue
        dark = d["moonAlt"][i] <= 0 and d["sunAlt"][i] < -18
        ds = slope[b] * (d["airmass"][i] - xm) if dark else 0.0
        w = d["fiveSigmaDepth"][i] - 0.5 * ds - 0.15 * math.log10(xm / d["airmass"][i]) - kat[b] * (xm - d["airmass"][i])
        require(abs(o[i] - w) < 1e-4 * max(1, abs(xm)), "depth at the best airmass", o[i], w)
        if abs(d["airmass"][i] - xm) < 1e-9:
            require(abs(o[i] - d["fiveSigmaDepth"][i]) < 1e-6, "already at the best airmass")
    # effective exposure time
    fid = {"u": 23.0, "g": 24.0, "r": 24.5, "i": 24.0, "z": 23.0, "y": 22.0} if case["opt"] % 2 else None
    fe = [None, 15.0][case["which"] % 2]
    normed = case["which"] % 4 < 2
    t = run(S.TeffStacker(fiducial_depth=fid, fiducial_exptime=fe, normed=normed), d)["t_eff"]
    f0 = fid or {"u": 23.7, "g": 24.97, "r": 24.52, "i": 24.13, "z": 23.56, "y": 22.55}
    w = [(fe or 30.0) * 10 ** (0.8 * (d["fiveSigmaDepth"][i] - f0[str(d["band"][i])])) / (d["visitExposureTime"][i] if normed else 1.0) for i in range(n)]
    require(close(t, w), "effective exposure time", t, w)
    require(abs(float(S.compute_teff(f0["g"], "g", fiducial_depth=fid)) - 30.0) < 1e-9, "fiducial visit")
    return "bright sky" if over else "dark sky"


# ------------------------------------------------------------------ dates and overheads
def date_test(case):
    d = table(case)
    if case["opt"] == 1:
        d = d[np.array(case["perm"])]
    mjd = d["observationStartMJD"]
    day = [datetime.date(1858, 11, 17) + datetime.timedelta(days=int(math.floor(m - 0.5))) for m in mjd]
    require(list(run(S.DayObsMJDStacker(), d)["day_obs_mjd"]) == [int(math.floor(m - 0.5)) for m in mjd], "MJD of the night")
    require([str(v) for v in run(S.DayObsISOStacker(), d)["day_obs_iso8601"]] == [x.isoformat() for x in day], "date of the night")
    require([int(v) for v in run(S.DayObsStacker(), d)["dayObs"]] == [int(x.strftime("%Y%m%d")) for x in day], "number of the night")
    t = run(S.ObservationStartDatetime64Stacker(), d)["observationStartDatetime64"]
    epoch = np.datetime64("1858-11-17T00:00:00", "ns")
    require(np.all(np.abs((t - epoch) / np.timedelta64(1, "s") - mjd * 86400) < 1e-3), "time stamp", t)
    for form in ("rec", "frame"):
        arg = d if form == "rec" else pd.DataFrame(d)
        o = run(S.ObservationStartTimestampStacker(), arg)
        ts = o["start_timestamp"]
        for a, b in zip(ts, mjd):
            a = pd.Timestamp(a)
            a = a.tz_localize("UTC") if a.tzinfo is None else a
            require(abs((a - pd.Timestamp("1858-11-17", tz="UTC")).total_seconds() - b * 86400) < 1e-3, "time stamp", a, b)
    if case["opt"] != 1:
        gap = [np.inf, 1.0, 5.0, 60.5][case["which"] % 4]
        o = run(S.OverheadStacker(max_gap=gap), d)["overhead"]
        end = mjd + d["visitTime"] / 86400
        for i in range(len(d)):
            if i == 0 or day[i] != day[i - 1]:
                require(np.isnan(o[i]), "overhead across nights", o[i])
                continue
            w = (end[i] - end[i - 1]) * 86400 - d["visitExposureTime"][i]
            if abs(w - gap * 60) < 1e-3:
                continue
            require(np.isnan(o[i]) if w > gap * 60 else abs(o[i] - w) < 1e-4, "overhead", o[i], w, gap)
    return "several" if len(set(day)) > 1 else "one night"


# ------------------------------------------------------------------ labels
def label_test(case):
    d = table(case)
    o = run(general_stackers.NoteRootStacker(), d)["scheduler_note_root"]
    require([str(v) for v in o] == [str(v).split(",")[0] for v in d["scheduler_note"]], "root of the note", o)
    ns = [32, 64][case["which"] % 2]
    rng = np.random.RandomState(case["seed"])
    npix = hp.nside2npix(ns)
    pv = np.array(hp.pix2vec(ns, np.arange(npix)))
    if case["opt"] == 0:
        fp = (rng.rand(npix) < 0.5).astype(float)
    else:
        fp = (pv[2] < rng.uniform(-0.8, 0.8)).astype(float)
    thr = [0.0, 0.4, 0.5, 1.0][case["which"] % 4]
    ex = case["which"] % 3 > 0
    kw = {"area_id_name": "north"} if case["opt"] == 2 else {}
    o = run(S.WFDlabelStacker(footprint=fp, fp_threshold=thr, exclude_dd=ex, **kw), d)["area_id"]
    seen = set()
    for i in range(len(d)):
        note = str(d["scheduler_note"][i])
        if note.startswith("DD") and ex:
            w = note.replace("u,", "").split(",")[0]
        else:
            sep = np.arccos(np.clip(vec(math.radians(d["fieldRA"][i]), math.radians(d["fieldDec"][i])) @ pv, -1, 1))
            near = sep < math.radians(1.75)
            if np.any(np.abs(sep - math.radians(1.75)) < 1e-7):
                continue
            f = fp[near].sum() / near.sum()
            if abs(f - thr) < 1e-9 and thr not in (0.0, 1.0):
                continue
            w = kw.get("area_id_name", "WFD") if f >= thr else "NULL"
        seen.add(w)
        require(str(o[i]) == w[:15], "label of a visit", str(o[i]), w)
    return "several" if len(seen) > 1 else "one"


# ------------------------------------------------------------------ follow-up and NEOs
def follow_test(case):
    from rubin_scheduler.utils import calc_lmst

    d = table(case)
    deg = case["opt"] % 2 == 0
    x = d.copy()
    if not deg:
        for c in ("fieldRA", "fieldDec"):
            x[c] = np.radians(d[c])
    ra, dec = np.radians(d["fieldRA"]), np.radians(d["fieldDec"])
    # altitudes and azimuths
    rng = np.random.RandomState(case["seed"])
    lat, lon = math.radians(rng.uniform(-80, 80)), math.radians(rng.uniform(-180, 180))
    mjd = d["observationStartMJD"]
    alt, az = ra_dec2_alt_az(ra, dec, lat, lon, mjd)
    alt2, none = ra_dec2_alt_az(ra, dec, lat, lon, mjd, altonly=True)
    lst = calc_lmst(mjd, lon) * np.pi / 12
    z = vec(lst, np.full(len(d), lat))
    nh = np.array([-np.sin(lat) * np.cos(lst), -np.sin(lat) * np.sin(lst), np.full(len(d), np.cos(lat))])
    eh = np.array([-np.sin(lst), np.cos(lst), np.zeros(len(d))])
    n = vec(ra, dec)
    got = np.sin(alt) * z + np.cos(alt) * (np.cos(az) * nh + np.sin(az) * eh)
    require(np.all(np.abs(got - n) < 2e-6), "altitude and azimuth do not point at the target", alt, az)
    require(none is None and close(alt, alt2), "altitude only")
    # telescopes
    size = [3.0, 4.0, 8.0, 10.2][case["which"] % 4]
    tel = S.find_telescopes(min_size=size)
    require(np.all(tel["aperture"] >= size) and len(tel) == {3.0: 37, 4.0: 25, 8.0: 13, 10.2: 1}[size], "telescopes of that size", len(tel))
    lim = [2.5, 1.2, 1.6][case["which"] % 3]
    steps = [np.arange(0.5, 12.0, 3.0), np.array([0.0]), np.array([1.0, 20.0])][case["opt"] % 3]
    o = run(S.NFollowStacker(min_size=size, airmass_limit=lim, time_steps=steps, degrees=deg), x)["nObservatories"]
    want = np.zeros(len(d), int)
    unsure = np.zeros(len(d), bool)
    for t in tel:
        got_it = np.zeros(len(d), bool)
        for s in steps:
            l2 = calc_lmst(mjd + s / 24.0, math.radians(t["lon"])) * np.pi / 12
            zz = vec(l2, np.full(len(d), math.radians(t["lat"])))
            sa = (zz * n).sum(0)
            got_it |= sa >= 1 / lim
            unsure |= np.abs(sa - 1 / lim) < 1e-6
        want += got_it
    require(np.all((o == want) | unsure), "number of observatories that can follow up", o, want)
    return "some" if want.max() > want.min() else ("seen" if want.max() else "none")


def neo_test(case):
    d = table(case)
    step, H = [(0.01, 22), (0.05, 20), (0.02, 24)][case["which"] % 3]
    o = run(S.NEODistStacker(stepsize=step, H=H), d)
    adj = {"u": -2.1, "g": -0.5, "r": 0.2, "i": 0.4, "z": 0.6, "y": 0.6}
    far = 0
    for i in range(len(d)):
        e = math.radians(d["solarElong"][i])
        v5 = d["fiveSigmaDepth"][i] + adj[str(d["filter"][i])]

        def mag(x):
            r = math.sqrt(1 + x * x - 2 * x * math.cos(e))
            ca = (r * r + x * x - 1) / (2 * x * r)
            t = math.tan(math.acos(max(-1.0, min(1.0, ca))) / 2)
            return H + 5 * math.log10(r * x) - 2.5 * math.log10(0.85 * math.exp(-3.33 * t ** 0.63) + 0.15 * math.exp(-1.87 * t ** 1.22))

        g = o["MaxGeoDist"][i]
        grid = [0.3 + k * step for k in range(int(round(2.7 / step)))]
        faint = [x for x in grid if mag(x) > v5]
        if not faint or any(abs(mag(x) - v5) < 1e-7 for x in grid):
            continue
        far += faint[0] > 0.3
        require(abs(g - faint[0]) < 1e-6, "distance to which the object is seen", g, faint[0])
        hx, hy = g * math.sin(e), 1 - g * math.cos(e)
        require(abs(abs(o["NEOHelioX"][i]) - hx) < 1e-9 and abs(o["NEOHelioY"][i] - hy) < 1e-9, "heliocentric position", o["NEOHelioX"][i], o["NEOHelioY"][i], hx, hy)
    return "far" if far else "near"


# ------------------------------------------------------------------ nightly coadds, SDSS corners
@st.composite
def coadd_case(draw):
    n = draw(st.integers(1, 16))
    return {"n": n, "seed": draw(st.integers(0, 10 ** 6)), "fields": draw(st.integers(1, 3)), "bands": draw(st.lists(st.sampled_from(BANDS), min_size=1, max_size=3, unique=True)), "nights": draw(st.integers(1, 4)), "obj": draw(st.booleans())}


def coadd_test(case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    f = rng.randint(0, case["fields"], n)
    d = {"observationStartMJD": (60000 + np.sort(rng.randint(0, case["nights"], n)) + rng.randint(0, 100, n) / 400.0).tolist(), "fieldRA": (10.0 + f).tolist(), "fieldDec": (-20.0 - f % 2).tolist(), "fiveSigmaDepth": (rng.randint(2000, 2500, n) / 100).tolist(), "band": [case["bands"][k] for k in rng.randint(0, len(case["bands"]), n)], "numExposures": rng.randint(1, 3, n).tolist(), "visitTime": [float(v) for v in rng.randint(20, 50, n)], "visitExposureTime": [float(v) for v in rng.randint(10, 20, n)], "airmass": (rng.randint(100, 200, n) / 100).tolist()}
    d["night"] = np.floor(np.array(d["observationStartMJD"]) - 60000 + 0.0).astype(int).tolist()
    dt = {}
    if case["obj"]:
        d["note"] = ["a"] * n
        dt["note"] = object
    x = to_rec(d, dt)
    o = run(S.CoaddStacker(), x)
    groups = {}
    for i in range(n):
        groups.setdefault((d["fieldRA"][i], d["fieldDec"][i], d["band"][i], d["night"][i]), []).append(i)
    require(len(o) == len(groups), "one row per field, band and night", len(o), len(groups))
    for r in o:
        k = (float(r["fieldRA"]), float(r["fieldDec"]), str(r["band"]), int(r["night"]))
        require(k in groups, "coadd of a group that does not exist", k)
        g = groups.pop(k)
        m5 = 1.25 * math.log10(sum(10 ** (0.8 * d["fiveSigmaDepth"][i]) for i in g))
        require(abs(r["fiveSigmaDepth"] - m5) < 1e-9, "coadded depth", r["fiveSigmaDepth"], m5)
        for c in ("numExposures", "visitTime", "visitExposureTime"):
            require(abs(r[c] - sum(d[c][i] for i in g)) < 1e-9, "sum over the night", c, r[c])
        for c in ("airmass", "observationStartMJD"):
            require(abs(r[c] - np.median([d[c][i] for i in g])) < 1e-9, "median over the night", c, r[c])
        require(r["coadd"] == 1, "mark")
    sd = to_rec({f"p{k}": (rng.randint(-7200, 7200, n) / 10.0).tolist() for k in range(1, 9)})
    o = run(S.SdssRADecStacker(), sd)
    for k in range(4):
        r = o[f"RA{k + 1}"]
        require(np.all((r >= 0) & (r < 2 * np.pi + 1e-12)) and np.all(angdiff(r, np.radians(sd[f"p{2 * k + 1}"]), 2 * np.pi) < 1e-9), "corner RA", r)
        require(close(o[f"Dec{k + 1}"], np.radians(sd[f"p{2 * k + 2}"])), "corner Dec")
    return "stacked" if len(o) and n > len({(d["fieldRA"][i], d["band"][i], d["night"][i]) for i in range(n)}) else "single"


# ------------------------------------------------------------------ moving objects
@st.composite
def mo_case(draw):
    return {"n": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(["asteroid", "comet_short", "comet_oort", "comet_mbc", "own"])), "href": draw(st.sampled_from([20.0, 12.5])), "hval": draw(st.sampled_from([None, 15.0, 20.0, 24.5])), "gamma": draw(st.sampled_from([0.038, 0.039, 0.0])), "sigma": draw(st.sampled_from([0.12, 0.05, 1.0])), "rs": draw(st.sampled_from([None, 1, 77])), "deg": draw(st.booleans())}


def mo_test(case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    d = {"magV": (rng.randint(1600, 2700, n) / 100).tolist(), "dmag_color": (rng.randint(-50, 50, n) / 100).tolist(), "dmag_detect": (rng.randint(0, 100, n) / 100).tolist(), "fiveSigmaDepth": (rng.randint(2200, 2500, n) / 100).tolist(), "seeingFwhmGeom": (rng.randint(50, 200, n) / 100).tolist(), "band": [BANDS[k] for k in rng.randint(0, 6, n)], "helio_dist": (rng.randint(50, 1000, n) / 100).tolist(), "geo_dist": (rng.randint(20, 1000, n) / 100).tolist(), "phase": (rng.randint(0, 1200, n) / 10).tolist(), "ra": (rng.randint(0, 3600, n) / 10).tolist(), "dec": (rng.randint(-900, 900, n) / 10).tolist()}
    x = to_rec(d)
    keep = x.copy()
    h = case["href"] if case["hval"] is None else case["hval"]
    nuc = x["magV"] + x["dmag_color"] + x["dmag_detect"] + h - case["href"]
    kind = case["kind"]
    if kind == "own":
        s = S.CometAppMagStacker(comet_type={"k": -3, "Afrho1_const": 500}, seeing_col="seeingFwhmGeom")
        par = (-3, 500)
    else:
        s = S.MoMagStacker(magtype=kind, gamma=case["gamma"], sigma=case["sigma"], random_seed=case["rs"])
        par = {"comet_short": (-4, 100), "comet_oort": (-2, 1000), "comet_mbc": (-6, 4000)}.get(kind)
    o = s.run(x, case["href"], case["hval"])
    require(np.array_equal(x, keep), "the table given to a stacker was changed")
    if par is None:
        want = nuc
    else:
        au = 149597870.7
        size = 10 ** (0.2 * (-26.76 - h)) / math.sqrt(0.04) * au
        ph = np.asarray(mo_stackers.phase__halley_marcus(x["phase"]))
        afr = par[1] * size ** 2 * x["helio_dist"] ** par[0] * ph
        rho = 725e5 * x["geo_dist"] * x["seeingFwhmGeom"]
        m = np.array([{"u": -25.30, "g": -26.52, "r": -26.93, "i": -27.05, "z": -27.07, "y": -27.07}[b] for b in d["band"]])
        coma = m - 2.5 * np.log10(afr * rho / (2 * x["helio_dist"] * x["geo_dist"] * au * 1000) ** 2)
        want = -2.5 * np.log10(10 ** (-0.4 * coma) + 10 ** (-0.4 * nuc))
        require(np.all(o["appMag"] <= nuc + 1e-9), "a comet is fainter than its nucleus")
    require(close(o["appMag"], want), "apparent magnitude", o["appMag"], want)
    if kind != "own":
        r = 10 ** (0.4 * (want - x["fiveSigmaDepth"]))
        g = case["gamma"]
        xv = 10 ** (0.5 * (want - x["fiveSigmaDepth"]))
        require(close(o["SNR"], 1 / np.sqrt((0.04 - g) * xv + g * xv * xv), 1e-8), "signal to noise", o["SNR"], r)
        require(np.all((o["vis"] == 0) | (o["vis"] == 1)), "visibility is yes or no")
        dm = (want - x["fiveSigmaDepth"]) / case["sigma"]
        require(np.all(o["vis"][dm < -40] == 1) and np.all(o["vis"][dm > 40] == 0), "visibility of bright and faint objects", o["vis"], dm)
        o2 = S.MoMagStacker(magtype=kind, gamma=g, sigma=case["sigma"], random_seed=case["rs"]).run(x, case["href"], case["hval"])
        require(np.array_equal(o2["vis"], o["vis"]), "same seed, different visibility")
        big = to_rec({"appMag": [24.0 + case["sigma"]] * 4000, "fiveSigmaDepth": [24.0] * 4000})
        f = S.SNRStacker(sigma=case["sigma"], random_seed=case["rs"]).run(big, 20.0)["vis"].mean()
        require(abs(f - 1 / (1 + math.e)) < 0.04, "fraction seen at one sigma below the limit", f)
    y = x.copy()
    if not case["deg"]:
        y["ra"], y["dec"] = np.radians(x["ra"]), np.radians(x["dec"])
    e = S.EclStacker(in_deg=case["deg"]).run(y, 20.0)
    v = vec(np.radians(x["ra"]), np.radians(x["dec"]))
    lon, lat = np.radians(e["ecLon"]), np.radians(e["ecLat"])
    w = vec(lon, lat)
    back = np.array([w[0], np.cos(EPS) * w[1] - np.sin(EPS) * w[2], np.sin(EPS) * w[1] + np.cos(EPS) * w[2]])
    require(np.all(np.abs(back - v) < 1e-6) and np.all((e["ecLon"] >= 0) & (e["ecLon"] <= 360)), "ecliptic position", e["ecLon"])
    return kind


# ------------------------------------------------------------------ equality, units
@st.composite
def eq_case(draw):
    return {"a": draw(st.integers(0, 3)), "b": draw(st.integers(0, 3)), "k": draw(st.integers(0, 6)), "v": draw(st.integers(0, 2)), "w": draw(st.integers(0, 2))}


def eq_test(case):
    cols = ["fieldRA", "ra"]
    kinds = [
        lambda i, v: S.NormAirmassStacker(airmass_col=["airmass", "X"][i % 2], telescope_lat=[-30.0, 10.0][i // 2]),
        lambda i, v: S.HourAngleStacker(ra_col=cols[i % 2], degrees=i < 2),
        lambda i, v: S.NFollowStacker(min_size=[3.0, 8.0][i % 2], time_steps=np.arange(3.0) + i // 2),
        lambda i, v: S.TeffStacker(normed=i % 2 == 0, m5_col=["a", "b"][i // 2]),
        lambda i, v: S.WFDlabelStacker(footprint=np.full(48, float(i))),
        lambda i, v: S.ParallaxFactorStacker(ra_col=cols[i % 2], degrees=i < 2),
        lambda i, v: S.HealpixStacker(nside=2 ** i),
    ]
    a, b = kinds[case["k"]](case["a"], 0), kinds[case["k"]](case["b"], 0)
    same_ = case["a"] == case["b"]
    require((a == b) == same_ and (b == a) == same_ and (a != b) == (not same_), "equality of stackers", case)
    c = kinds[(case["k"] + 1 + case["v"]) % len(kinds)](case["a"], 0)
    require(a != c and not (a == c), "stackers of different kinds are equal")
    info = S.ColInfo()
    for col, cls in (("normairmass", S.NormAirmassStacker), ("HA", S.HourAngleStacker), ("t_eff", S.TeffStacker), ("galb", S.GalacticStacker), ("eclipLon", S.EclipticStacker), ("saturation_mag", S.SaturationStacker)):
        require(info.get_data_source(col) is cls, "source of a column", col)
    require(info.get_data_source("airmass") is None and info.get_units("airmass") == "X" and info.get_units("nonsense") == "" and info.get_units(None) == "", "columns of the simulation")
    return "same" if same_ else "different"


def arms():
    fakedata.use()
    return [
        Arm("every", visits_case(), generic_test, quick=300, thorough=6000, rule="more than one row or a special position"),
        Arm("every2", visits_case(), generic_test, quick=300, thorough=6000, rule="as every, another worker"),
        Arm("geometry", visits_case(), geometry_test, quick=375, thorough=8000, rule="every case"),
        Arm("sky", visits_case(), sky_test, quick=300, thorough=6000, rule="every case"),
        Arm("photometry", visits_case(), phot_test, quick=375, thorough=8000, rule="every case"),
        Arm("dates", visits_case(), date_test, quick=375, thorough=8000, rule="every case"),
        Arm("labels", visits_case(), label_test, quick=250, thorough=4000, rule="every case"),
        Arm("follow", visits_case(), follow_test, quick=200, thorough=4000, rule="every case"),
        Arm("neo", visits_case(), neo_test, quick=200, thorough=4000, rule="every case"),
        Arm("coadd", coadd_case(), coadd_test, quick=375, thorough=8000, rule="every case"),
        Arm("objects", mo_case(), mo_test, quick=375, thorough=8000, rule="every case"),
        Arm("equality", eq_case(), eq_test, quick=250, thorough=4000, rule="every case"),
    ]


def teardown():
    fakedata.cleanup()
