"""C31: the sky-brightness model is the sum of its components at each point."""

import importlib
import math
import os
import shutil
import sqlite3
import tempfile
import warnings

import healpy as hp
import numpy as np
from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, SkyCoord, get_body, get_sun
from astropy.time import Time
from hypothesis import strategies as st
from rubin_scheduler.utils import Site, _approx_alt_az2_ra_dec, _approx_ra_dec2_alt_az
from scipy.interpolate import InterpolatedUnivariateSpline

from rubin_sim.phot_utils import Bandpass, Sed
from rubin_sim.skybrightness import SkyModel
allsky_db, interp_components, sky_model, twilight_mod, utils = (importlib.import_module("rubin_sim.skybrightness." + k) for k in ("allsky_db", "interp_components", "sky_model", "twilight_func", "utils"))
from vp import fakedata, fakesky
from vp.core import Arm, require

ASSUMPTIONS = ["component tables are synthetic, with the layout of the real ones",
               "airmass limits up to 3; positions of Sun and Moon and coordinate transforms are those of astropy and rubin_scheduler",
               "a point where some component has no light although it has some elsewhere gets no light at all when the airmass limit is 2.5 or less (as implemented)"]
BUDGET = {"quick": 60, "thorough": 2400}
BANDS = "ugrizy"
L0 = np.log10(3631.0)
COMPS = ["moon", "lower_atm", "twilight", "upper_atm", "airglow", "zodiacal", "scattered_star", "merged_spec"]
FITS = {"B": (7.56765633, 22.9798055, 0.286879956, 0.301162143), "G": (2.38561156, 22.9310648, 0.297733083, 0.316403197), "R": (1.75498017, 22.2011802, 0.298619033, 0.328880254), "z": (2.29, 24.08, 0.3, 0.3), "y": (2.0, 24.08, 0.3, 0.3), "u": (16.0, 22.9622121, 0.285862729, 0.299902574)}
DARK = {"u": 22.8, "g": 22.3, "r": 21.2, "i": 20.3, "z": 19.3, "y": 18.0, "B": 22.35, "G": 21.71, "R": 21.3}
_MODELS = {}
_DATA = {}


def setup_mags():
    _DATA["t"], _DATA["spectra"] = fakesky.use(False), False


def setup_spec():
    _DATA["t"], _DATA["spectra"] = fakesky.use(True), True


class quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.e = np.errstate(all="ignore")
        self.e.__enter__()

    def __exit__(self, *a):
        self.e.__exit__(*a)
        self.w.__exit__(*a)


def model(on, limit, mags):
    key = (tuple(on), limit, mags)
    if key not in _MODELS:
        if len(_MODELS) > (40 if mags else 3):
            _MODELS.clear()
        with quiet():
            _MODELS[key] = SkyModel(mags=mags, airmass_limit=limit, **{k: k in on for k in COMPS})
    return _MODELS[key]


# ---- reference
def lin1(g, x):
    """[(index, weight)] for linear interpolation; clamped above."""
    if x >= g[-1]:
        return [(len(g) - 1, 1.0)]
    for k in range(len(g) - 1):
        if g[k] <= x <= g[k + 1]:
            f = (x - g[k]) / (g[k + 1] - g[k])
            return [(k, 1 - f), (k + 1, f)]
    raise AssertionError((g, x))


def bandpass(f):
    wl = np.arange(300, 1150.5, 1.0)
    s = np.array([float("%.8g" % x) for x in fakedata.curve(f, wl)])
    return wl, s


_EFF = {}


def eff_wave(b):
    if b not in _EFF:
        if b in BANDS:
            wl, s = bandpass(b)
            bp = Bandpass(wavelen=wl, sb=s)
        else:
            mid = {"B": 460.0, "G": 530.0, "R": 610.0}[b]
            wl = np.arange(380.0, 721.0, 5.0)
            bp = Bandpass()
            bp.set_bandpass(wl, np.maximum(0.0, 1 - np.abs(wl - mid) / 60.0))
            bp.resample_bandpass(wavelen_min=fakesky.WAVE.min(), wavelen_max=fakesky.WAVE.max(), wavelen_step=fakesky.WAVE[1] - fakesky.WAVE[0])
            bp.wavelen = fakesky.WAVE
        sol = Sed(wavelen=fakesky.WAVE, flambda=1e-10 * (1.2 + np.sin(fakesky.WAVE / 90.0)))
        with quiet():
            _EFF[b] = (float(bp.calc_eff_wavelen()[0]), float(sol.calc_mag(bp)))
    return _EFF[b]


def coeffs(band):
    order = sorted(FITS, key=lambda b: eff_wave(b)[0])
    x = [eff_wave(b)[0] for b in order]
    return [float(InterpolatedUnivariateSpline(x, [FITS[b][i] for b in order])(eff_wave(band)[0])) for i in range(4)]


def twi_flux(co, dark, p):
    r12, a, b, c = co
    if not (math.radians(-20) <= p["sunAlt"] <= math.radians(15)) or not 1.0 <= p["airmass"] <= 3.0:
        return 0.0
    f = r12 * 10 ** (-0.4 * (dark - L0)) * 10 ** (a * (p["sunAlt"] + math.radians(12)) + b * (p["airmass"] - 1))
    if p["airmass"] > 1 and (p["azRelSun"] < math.pi / 2 or p["azRelSun"] > 1.5 * math.pi):
        f *= 10 ** (c * math.cos(p["azRelSun"]) * (p["airmass"] - 1))
    return f


def weights(comp, p, spectra):
    """[(row, weight)] or None when the point is outside the tables."""
    g = fakesky.AIRMASS[::2] if spectra and comp == "zodiacal" else fakesky.AIRMASS
    if comp != "moon" and not g[0] <= p["airmass"] <= g[-1]:
        return None
    if comp == "airglow":
        if not fakesky.FLUX[0] <= p["solar_flux"] <= fakesky.FLUX[-1]:
            return None
        return [(i * len(fakesky.FLUX) + j, w * v) for i, w in lin1(g, p["airmass"]) for j, v in lin1(fakesky.FLUX, p["solar_flux"])]
    if comp == "zodiacal":
        ns = 1 if spectra else 2
        pix, w = hp.get_interp_weights(ns, np.pi / 2 - p["altEclip"], p["azEclipRelSun"])
        return [(i * 12 * ns * ns + int(q), a * float(b)) for i, a in lin1(g, p["airmass"]) for q, b in zip(pix, w)]
    if comp == "moon":
        ss, aa = (fakesky.SEP[::3], fakesky.ALT[::3]) if spectra else (fakesky.SEP, fakesky.ALT)
        if p["moonAltitude"] < aa[0]:
            return None
        have = {int(h): k for k, h in enumerate(fakesky.moon_pixels())}
        pix, w = hp.get_interp_weights(4, np.pi / 2 - p["alt"], p["azRelMoon"])
        q = [(have[int(x)], float(y)) for x, y in zip(pix, w) if int(x) in have]
        tot = sum(y for _, y in q)
        if tot == 0:
            return None
        n = len(have)
        return [((i * len(aa) + j) * n + k, x * y * v / tot) for i, x in lin1(ss, p["moonSunSep"]) for j, y in lin1(aa, p["moonAltitude"]) for k, v in q]
    return lin1(g, p["airmass"])


def comp_mag_flux(comp, p, band):
    if comp == "twilight":
        return twi_flux(coeffs(band), DARK[band], p)
    w = weights(comp, p, False)
    if w is None:
        return 0.0
    m = sum(v * _DATA["t"][comp]["mags"][i][BANDS.index(band)] for i, v in w)
    return 10 ** (-0.4 * (m - L0))


def comp_spec(comp, p):
    if comp == "twilight":
        order = sorted(FITS, key=lambda b: eff_wave(b)[0])
        x = np.array([eff_wave(b)[0] for b in order])
        y = np.array([twi_flux(FITS[b], DARK[b], p) / 10 ** (-0.4 * (eff_wave(b)[1] - L0)) for b in order])
        ratio = np.interp(fakesky.WAVE, x, y)
        blue = fakesky.WAVE < x[0]
        ratio[blue] = y[0] + (fakesky.WAVE[blue] - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
        return ratio * 1e-10 * (1.2 + np.sin(fakesky.WAVE / 90.0))
    w = weights(comp, p, True)
    if w is None:
        return np.zeros(fakesky.NWAVE)
    s = _DATA["t"][comp]["spectra"]
    out = np.zeros(fakesky.NWAVE)
    ok = fakesky.WAVE >= 295
    out[ok] = 10 ** sum(v * np.log10(s[i][ok]) for i, v in w)
    return out


def total(on, limit, pts, bands=None):
    """Reference light: (n, bands or wavelengths); NaN beyond the airmass limit."""
    n = len(pts)
    width = len(bands) if bands is not None else fakesky.NWAVE
    out = np.zeros((n, width))
    good = [i for i in range(n) if 1.0 <= pts[i]["airmass"] <= limit]
    dead = set()
    for c in on:
        part = {i: np.array([comp_mag_flux(c, pts[i], b) for b in bands]) if bands is not None else comp_spec(c, pts[i]) for i in good}
        if any(v.max() > 0 for v in part.values()):
            dead |= {i for i in good if np.all(part[i] == 0)}
        for i in good:
            out[i] += part[i]
    if limit <= 2.5:
        for i in dead:
            out[i] = 0
    for i in range(n):
        if i not in good:
            out[i] = np.nan
    return out, dead


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=tol, atol=1e-9, equal_nan=True)))


# ---- set_params
@st.composite
def params(draw, hi=5, spectra=False):
    n = draw(st.integers(1, hi))
    on = draw(st.lists(st.sampled_from(["moon", "twilight", "airglow", "zodiacal", "merged_spec"] if draw(st.booleans()) else COMPS), min_size=1, max_size=3 if spectra else 6, unique=True))
    if spectra:
        on = [["moon", "zodiacal", "merged_spec"], ["twilight", "airglow"], ["lower_atm", "airglow", "scattered_star"]][draw(st.integers(0, 2))]
    return {"n": n, "on": [c for c in COMPS if c in on], "limit": draw(st.sampled_from([3.0, 2.5] if spectra else [3.0, 2.5, 2.0, 2.7])), "seed": draw(st.integers(0, 10 ** 6)), "deg": draw(st.booleans()), "alts": draw(st.booleans()), "moon_alt": draw(st.sampled_from([-20.0, -0.001, 0.0, 10.0, 45.0, 89.0])), "phase": draw(st.sampled_from([0.0, 10.0, 50.0, 77.7, 100.0])),
            "sun_alt": draw(st.sampled_from([-40.0, -19.0, -15.0, -12.0, -8.0, 0.0, 14.0])), "flux": draw(st.sampled_from([130.0, 50.0, 77.0, 250.0, 300.0])), "bands": draw(st.lists(st.sampled_from(list(BANDS)), min_size=1, max_size=6, unique=True)), "edge": draw(st.integers(0, 5)), "scalar": draw(st.booleans())}


def points(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    X = np.round(1 + r.uniform(0, 2.4, n) ** 1.2, 4)
    X[c["edge"] % n] = [1.0, 1.3, 3.0, 2.5, 1.0001, 2.2][c["edge"]]
    if c["alts"]:
        X[c["edge"] % n] = [1.002, 1.3, 2.999, 2.51, 1.05, 2.2][c["edge"]]
    az, elon, elat = r.uniform(0, 360, n), r.uniform(0, 360, n), r.uniform(-90, 90, n)
    maz, saz, slon = r.uniform(0, 360, 3)
    alt = np.degrees(np.arcsin(1 / X))
    kw = {"azs": az, "moon_phase": c["phase"], "moon_alt": c["moon_alt"], "moon_az": maz, "sun_alt": c["sun_alt"], "sun_az": saz, "sun_eclip_lon": slon, "eclip_lon": elon, "eclip_lat": elat}
    if c["alts"]:
        alt = np.round(alt, 3) if c["edge"] != 0 else alt
        X = 1 / np.cos(np.pi / 2 - np.radians(alt))
        kw["alts"] = alt
    else:
        kw["airmass"] = X
        alt = np.degrees(np.pi / 2 - np.arccos(1 / X))
    if not c["deg"]:
        for k in kw:
            if k not in ("moon_phase", "airmass"):
                kw[k] = np.radians(kw[k])
    pts = []
    for i in range(n):
        rel = math.radians((az[i] - maz) % 360)
        pts.append({"airmass": float(X[i]), "alt": math.radians(alt[i]), "azRelMoon": rel if rel <= math.pi else 2 * math.pi - rel, "moonSunSep": c["phase"] * 1.8, "moonAltitude": float(np.degrees(np.radians(c["moon_alt"]))), "altEclip": math.radians(elat[i]), "azEclipRelSun": math.radians((elon[i] - slon) % 360), "sunAlt": float(np.radians(c["sun_alt"])), "azRelSun": math.radians((az[i] - saz) % 360), "solar_flux": c["flux"]})
    if c["scalar"] and n == 1:
        kw = {k: (float(v[0]) if np.ndim(v) else v) for k, v in kw.items()}
    return kw, pts, maz


def edgy(p, c):
    """Too close to a switch of the formula for a comparison in floating point."""
    a = p["airmass"]
    lims = [1.0, 3.0, c["limit"]]
    return any(0 < abs(a - x) < 1e-9 for x in lims) or (c["alts"] and any(abs(a - x) < 1e-9 for x in lims)) or abs(p["moonAltitude"]) < 1e-12 and c["moon_alt"] != 0


def by_params(c):
    kw, pts, maz = points(c)
    if any(edgy(p, c) for p in pts):
        return None
    bands = list(c["bands"])
    m = model(c["on"], c["limit"], True)
    ref, dead = total(c["on"], c["limit"], pts, bands)
    good = ~np.isnan(ref[:, 0])
    with quiet():
        m.set_params(degrees=c["deg"], solar_flux=c["flux"], filter_names=bands, **kw)
        if not good.any():
            return None
        got = m.return_mags()
    require(sorted(got) == sorted(bands), "the bands returned", sorted(got), bands)
    with quiet():
        want = -2.5 * np.log10(ref) + L0
    for j, b in enumerate(bands):
        g = np.asarray(got[b], float)
        require(g.shape == (c["n"],), "one magnitude for each point", g.shape)
        require(near(g, want[:, j]), "sky magnitudes", b, c["on"], g, want[:, j], [p["airmass"] for p in pts])
    v = m.get_computed_vals()
    require(near(np.ravel(v["airmass"]), [p["airmass"] for p in pts]) and near(np.ravel(v["az_rel_moon"]), [p["azRelMoon"] for p in pts]) and near(v["sun_alt"], np.radians(c["sun_alt"])), "computed values")
    sep = np.ravel(m.moon_targ_sep)
    ref_sep = [hav(p["alt"], az, math.radians(c["moon_alt"]), math.radians(maz)) for p, az in zip(pts, np.ravel(v["azs"]))]
    require(near(sep, ref_sep, 1e-6), "distance from the Moon", sep, ref_sep)
    return ("dead" if dead else "mixed" if not good.all() else "all") + ("" if np.all(np.isfinite(want[good])) else "-dark")


def hav(a1, z1, a2, z2):
    x = math.sin((a1 - a2) / 2) ** 2 + math.cos(a1) * math.cos(a2) * math.sin((z1 - z2) / 2) ** 2
    return 2 * math.asin(min(1.0, math.sqrt(x)))


def by_spectra(c):
    kw, pts, maz = points(c)
    if any(edgy(p, c) for p in pts):
        return None
    m = model(c["on"], c["limit"], False)
    ref, dead = total(c["on"], c["limit"], pts)
    good = ~np.isnan(ref[:, 0])
    if not good.any():
        return None
    with quiet():
        m.set_params(degrees=c["deg"], solar_flux=c["flux"], **kw)
        w, s = m.return_wave_spec()
    require(near(w, fakesky.WAVE) and s.shape == ref.shape, "wavelengths of the spectra", s.shape)
    scale = np.nanmax(np.abs(ref)) or 1.0
    require(bool(np.all(np.isclose(s, ref, rtol=1e-6, atol=1e-9 * scale, equal_nan=True))), "spectra of the sky", c["on"], np.nanmax(np.abs(s - ref)), scale)
    bps = {}
    for b in sorted(c["bands"])[:2]:
        bps[b] = Bandpass(wavelen=bandpass(b)[0], sb=bandpass(b)[1])
    with quiet():
        mags = m.return_mags(bandpasses=bps)
        for b in bps:
            require(np.size(mags[b]) == c["n"], "one magnitude for each point", b, np.size(mags[b]), c["n"])
            for i in range(c["n"]):
                if not good[i]:
                    require(np.isnan(mags[b][i]), "a magnitude beyond the airmass limit", mags[b][i])
                elif ref[i].max() > 0:
                    sed = Sed()
                    sed.set_sed(fakesky.WAVE, flambda=ref[i])
                    require(near(mags[b][i], sed.calc_mag(bps[b]), 1e-6), "magnitude of a spectrum", b, mags[b][i])
    m.spec[:] = 5
    require(not np.any(s == 5), "the returned spectra are not a copy")
    return ("dead" if dead else "mixed" if not good.all() else "all")


# ---- positions on the sky
@st.composite
def sky(draw):
    n = draw(st.sampled_from([1, 3, 1, 2, 6]))
    return {"n": n, "seed": draw(st.integers(0, 10 ** 6)), "mjd": draw(st.integers(59000, 64000)) + draw(st.sampled_from([0.05, 0.17, 0.3, 0.35, 0.42, 0.9])), "deg": draw(st.booleans()), "azalt": draw(st.booleans()), "on": draw(st.sampled_from([["moon", "twilight", "airglow", "zodiacal", "merged_spec"], ["moon"], ["zodiacal", "airglow"], ["twilight", "merged_spec"]])), "limit": draw(st.sampled_from([3.0, 2.2])), "perm": draw(st.permutations(range(n))),
            "kind": draw(st.sampled_from(["array", "list", "scalar", "numpy"]))}


def on_sky(c):
    r = np.random.RandomState(c["seed"])
    site = Site("LSST")
    n = c["n"]
    alt = np.radians(r.uniform(12, 89.9, n))
    alt[0] = np.radians(r.uniform(40, 80))
    az = r.uniform(0, 2 * np.pi, n)
    ra, dec = _approx_alt_az2_ra_dec(alt, az, site.latitude_rad, site.longitude_rad, c["mjd"])
    if not c["azalt"]:
        alt, az = _approx_ra_dec2_alt_az(ra, dec, site.latitude_rad, site.longitude_rad, c["mjd"])
    X = 1 / np.sin(alt)
    if np.any(np.abs(X - c["limit"]) < 1e-6) or np.any(X < 1 + 1e-9):
        return None
    t = Time(c["mjd"], format="mjd")
    loc = EarthLocation(lat=site.latitude_rad * u.rad, lon=site.longitude_rad * u.rad, height=site.height * u.m)
    fr = AltAz(location=loc, obstime=t)
    with quiet():
        sun, moon = get_sun(t), get_body("moon", t)
        saa, maa = sun.transform_to(fr), moon.transform_to(fr)
        sep = sun.separation(moon).rad
        ecl = SkyCoord(ra=ra * u.rad, dec=dec * u.rad).geocentricmeanecliptic
        slon = sun.geocentricmeanecliptic.lon.rad
    if saa.alt.deg > 14.9 or abs(saa.alt.deg + 20) < 1e-3 or abs(maa.alt.deg) < 1e-3:
        return None
    pts = []
    for i in range(n):
        rel = (az[i] - maa.az.rad) % (2 * np.pi)
        pts.append({"airmass": float(X[i]), "alt": float(alt[i]), "azRelMoon": rel if rel <= np.pi else 2 * np.pi - rel, "moonSunSep": math.degrees(sep), "moonAltitude": float(maa.alt.deg), "altEclip": float(ecl.lat.rad[i]), "azEclipRelSun": float((ecl.lon.rad[i] - slon) % (2 * np.pi)), "sunAlt": float(saa.alt.rad), "azRelSun": float((az[i] - saa.az.rad) % (2 * np.pi)), "solar_flux": 130.0})
    ref, dead = total(c["on"], c["limit"], pts, list(BANDS))
    with quiet():
        want = -2.5 * np.log10(ref) + L0
    m = model(c["on"], c["limit"], True)
    f = np.degrees if c["deg"] else (lambda x: x)

    def shape(x):
        x = f(np.array(x))
        if c["kind"] == "list":
            return [float(v) for v in x]
        if n == 1 and c["kind"] == "scalar":
            return float(x[0])
        if n == 1 and c["kind"] == "numpy":
            return np.float64(x[0])
        return x

    def run(idx, mode):
        with quiet():
            if mode == "pos":
                a, b = (az, alt) if c["azalt"] else (ra, dec)
                m.set_ra_dec_mjd(shape(a[idx]), shape(b[idx]), c["mjd"], degrees=c["deg"], az_alt=c["azalt"])
            else:
                m.set_ra_dec_alt_az_mjd(shape(ra[idx]), shape(dec[idx]), shape(alt[idx]), shape(az[idx]), c["mjd"], degrees=c["deg"])
            got = m.return_mags()
        return np.array([got[b] for b in BANDS]).T

    ids = np.arange(n)
    p = np.array(c["perm"])
    for mode in ("pos", "both"):
        got = run(ids, mode)
        require(near(got, want, 1e-4), "sky magnitudes on the sky", mode, got, want, c["on"])
        v = m.get_computed_vals()
        require(near(v["alts"], alt) and near(np.cos(v["azs"]), np.cos(az)) and near(v["airmass"], X), "altitudes")
        require(near(v["sun_alt"], saa.alt.rad) and near(v["sun_az"], saa.az.rad) and near(v["sun_ra"], sun.ra.rad) and near(v["sun_dec"], sun.dec.rad), "position of the Sun")
        if "moon" in c["on"]:
            require(near(v["moon_alt"], maa.alt.rad) and near(v["moon_az"], maa.az.rad) and near(v["moon_ra"], moon.ra.rad) and near(v["moon_dec"], moon.dec.rad) and near(v["moon_sun_sep"], sep) and near(v["moon_phase"], math.degrees(sep) / 1.8), "position of the Moon")
            require(near(np.ravel(m.moon_targ_sep), [hav(alt[i], az[i], maa.alt.rad, maa.az.rad) for i in range(n)], 1e-6), "distance from the Moon")
        if "zodiacal" in c["on"]:
            require(near(v["eclip_lon"], ecl.lon.rad) and near(v["eclip_lat"], ecl.lat.rad) and near(v["sun_eclip_lon"], slon), "ecliptic positions")
    if not dead:
        require(near(run(p, "pos"), want[p], 1e-4), "the order of the points matters")
        ok = [i for i in range(n) if X[i] <= c["limit"]]
        if n > 1 and ok:
            require(near(run(np.array(ok[:1]), "pos"), want[ok[:1]], 1e-4), "a point alone has another brightness")
    return "azalt" if c["azalt"] else "radec"


# ---- twilight
@st.composite
def twi(draw):
    return {"n": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 10 ** 6)), "sun": draw(st.sampled_from([-25.0, -19.9, -14.0, -11.0, -5.0, 3.0, 14.9, 16.0, 40.0])), "spec": draw(st.booleans())}


def twilight(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    pts = np.zeros(n, dtype=[(k, float) for k in ("airmass", "sunAlt", "azRelSun")])
    pts["airmass"] = 1 + np.round(r.uniform(0, 2.4, n), 3)
    pts["sunAlt"] = np.radians(c["sun"])
    pts["azRelSun"] = r.uniform(0, 2 * np.pi, n)
    key = ("twi", c["spec"])
    with quiet():
        if key not in _MODELS:
            _MODELS[key] = interp_components.TwilightInterp(mags=not c["spec"])
        t = _MODELS[key]
        got = t(pts)["spec"]
    if c["sun"] > 15:
        require(np.all(np.isnan(got)), "light of the daytime sky", got)
        return "day"
    for i in range(n):
        p = {k: float(pts[k][i]) for k in pts.dtype.names}
        ref = comp_spec("twilight", p) if c["spec"] else np.array([comp_mag_flux("twilight", p, b) for b in BANDS])
        require(bool(np.all(np.isclose(got[i], ref, rtol=1e-6, atol=1e-12 * max(1e-300, np.abs(ref).max())))), "twilight", p, got[i][:3], ref[:3])
    return "dark" if c["sun"] < -20 else "twilight"


# ---- utilities
@st.composite
def misc(draw):
    return {"ids": draw(st.lists(st.integers(-5, 400), min_size=1, max_size=12)), "seed": draw(st.integers(0, 10 ** 6)), "x": draw(st.floats(-30, 30)), "n": draw(st.integers(0, 9))}


def tools(c):
    ids = np.array(c["ids"])
    i, uid, uint = interp_components.id2intid(ids)
    require(sorted(set(c["ids"])) == list(uid) and list(uint) == list(range(len(uid))), "unique names", uid)
    require([int(uid[k]) for k in i] == c["ids"], "names and numbers", i, c["ids"])
    require(list(interp_components.intid2id(i, uint, uid)) == c["ids"], "back to names")
    w = utils.wrap_ra(c["x"])
    require(0 <= w <= 2 * np.pi and abs(math.sin(w - c["x"])) < 1e-9 and math.cos(w - c["x"]) > 0.99, "wrapped angle", c["x"], w)
    a = np.random.RandomState(c["seed"]).uniform(0, 2 * np.pi, c["n"] + 1)
    rel = sky_model.calc_az_rel_moon(a.copy(), c["x"])
    require(near(rel, [math.acos(max(-1, min(1, math.cos(x - c["x"])))) for x in a], 1e-6), "azimuth from the Moon", rel)
    require(near(sky_model.calc_az_rel_moon(float(a[0]), c["x"]), rel[0]), "azimuth from the Moon, one value")
    v = np.random.RandomState(c["seed"]).normal(size=c["n"]) * 3
    q = sorted(v)

    def perc(f):
        k = f * (len(q) - 1)
        lo = int(math.floor(k))
        return q[lo] + (k - lo) * (q[min(lo + 1, len(q) - 1)] - q[lo])

    require(near(utils.robust_rms(v, missing=-1.0), (perc(0.75) - perc(0.25)) / 1.349 if len(v) > 1 else -1.0), "robust scatter")
    al = c["x"] / 60.0
    ar = [1.5, 22.0, 0.3, 0.3, 2e-9]
    require(near(twilight_mod.zenith_twilight(al, *ar) / 2e-9, 1.5 * 10 ** (22.0 * (al + math.radians(12))) + 1, 1e-9), "twilight at the zenith")
    return "tools"


def tables(c):
    """Component files, in one or several parts, and magnitudes calculated from spectra; measured sky data."""
    r = np.random.RandomState(c["seed"])
    d = tempfile.mkdtemp(prefix="c31")
    try:
        k = 1 + c["n"] % 4
        files, parts = [], []
        wl = np.arange(300.0, 1150.1, 5.0)
        for j in range(k):
            m = 1 + r.randint(0, 4)
            t = np.zeros(m, dtype=[("airmass", float), ("mags", float, 6), ("spectra", float, wl.size)])
            t["airmass"], t["mags"] = r.uniform(1, 3, m), r.uniform(18, 25, (m, 6))
            t["spectra"] = 1e-17 * r.uniform(0.5, 2, (m, 1)) * (1 + 0.3 * np.sin(wl / 70 + j))
            os.makedirs(os.path.join(d, "skybrightness", "ESO_Spectra", "Airglow"), exist_ok=True)
            files.append(os.path.join(d, "skybrightness", "ESO_Spectra", "Airglow", "p%d.npz" % j))
            np.savez(files[-1], wave=wl, filterWave=np.arange(6.0), spec=t)
            parts.append(t)
        whole = np.concatenate(parts)
        with quiet():
            for mags in (False, True):
                s, w, fw = interp_components.load_spec_files(files, mags=mags)
                require(near(w, wl) and near(fw, np.arange(6.0)) and len(s) == len(whole), "component files", len(s), len(whole))
                names = [x for x in whole.dtype.names if not (mags and x == "spectra")]
                require(sorted(s.dtype.names) == sorted(names) and all(near(s[x], whole[x]) for x in names), "component files read", s.dtype.names)
            utils.recalc_mags(data_dir=d)
            s, w, fw = interp_components.load_spec_files(files)
        for i in range(len(whole)):
            sed = Sed()
            sed.set_sed(wl, flambda=whole["spectra"][i])
            for j, b in enumerate(BANDS):
                with quiet():
                    m = sed.calc_mag(Bandpass(wavelen=bandpass(b)[0], sb=bandpass(b)[1]))
                require(near(s["mags"][i][j], m, 1e-7), "recalculated magnitude", b, s["mags"][i][j], m)
        require(near(s["spectra"], whole["spectra"]) and near(s["airmass"], whole["airmass"]), "other columns of the component files")
        require(near(fw, [eff_wave(b)[0] for b in BANDS], 1e-6), "effective wavelengths")
        # measured data
        db = os.path.join(d, "sky.sqlite")
        con = sqlite3.connect(db)
        con.execute("create table stars (ID integer, ra real, dec real)")
        con.execute("create table obs (starID integer, alt real, starMag real, sky real, filter text, dateID integer)")
        con.execute("create table dates (ID integer, mjd real)")
        con.execute("create table photdiode (mjd real, R real, Y real, Z real)")
        st_ = [(i, float(r.uniform(0, 6)), float(r.uniform(-1, 1))) for i in range(4)]
        ob = [(int(r.randint(0, 4)), float(i), float(r.uniform(1, 9)), float(r.uniform(1, 9)), "RGB"[r.randint(0, 3)], int(r.randint(0, 3))) for i in range(12)]
        di = [(60000 + i * 0.4 - 2.01, float(r.randint(-1, 4)), float(r.randint(-1, 4)), float(r.randint(-1, 4))) for i in range(12)]
        con.executemany("insert into stars values (?,?,?)", st_)
        con.executemany("insert into obs values (?,?,?,?,?,?)", ob)
        con.executemany("insert into dates values (?,?)", [(0, 60000.5), (1, 60001.5)])
        con.executemany("insert into photdiode values (?,?,?,?)", di)
        con.commit()
        con.close()
        with quiet():
            for date in (0, 1, 2):
                f = "RGB"[c["n"] % 3]
                got, mjd = allsky_db.all_sky_db(date, db_address="sqlite:///" + db, filt=f)
                want = sorted((round(st_[o[0]][1], 9), o[1], round(o[3], 9)) for o in ob if o[4] == f and o[5] == date)
                require(sorted((round(float(x["ra"]), 9), float(x["alt"]), round(float(x["sky"]), 9)) for x in got) == want and mjd == {0: 60000.5, 1: 60001.5, 2: None}[date], "measured sky data", got, want, mjd)
            for clean in (True, False):
                got = allsky_db.diode_sky_db(60000.0, db_address="sqlite:///" + db, clean=clean)
                want = sorted((x[0], x[1], x[2], x[3]) for x in di if abs(x[0] - 60000) < 1 and (not clean or min(x[1:]) > 0))
                require(near(sorted((x["mjd"], x["r"], x["y"], x["z"]) for x in got), want) if want else len(got) == 0, "diode data", got, want)
        return "parts" if k > 1 else "one"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def arms():
    fakesky.make()
    return [
        Arm("params", params(), by_params, quick=250, thorough=6000, rule="points with given airmass, Sun and Moon; sums of components interpolated in their tables", setup=setup_mags),
        Arm("sky", sky(), on_sky, quick=40, thorough=800, rule="points on the sky at a time; positions from astropy", setup=setup_mags),
        Arm("spectra", params(3, True), by_spectra, quick=30, thorough=400, rule="spectra, and magnitudes through bandpasses", setup=setup_spec),
        Arm("twilight", twi(), twilight, quick=120, thorough=2000, rule="twilight component alone, night to day", setup=setup_mags),
        Arm("tools", misc(), tools, quick=200, thorough=4000, rule="index and angle utilities"),
        Arm("tables", misc(), tables, quick=20, thorough=200, rule="component files in parts, recalculated magnitudes, measured data", setup=setup_mags),
    ]


def teardown():
    fakesky.cleanup()
