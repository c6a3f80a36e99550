"""C21: signal to noise, five-sigma depths, photometric parameters and zeropoints agree with each other."""

import functools
import math

import numpy as np
from hypothesis import strategies as st

import rubin_sim.phot_utils as pu
from rubin_scheduler.utils import SysEngVals
from rubin_sim.phot_utils import Bandpass, PhotometricParameters, Sed
from rubin_sim.phot_utils import signaltonoise as sn
from vp import fakedata
from vp.core import Arm, require

ASSUMPTIONS = ["synthetic ugrizy throughput curves and a flat sky spectrum"]
BANDS = "ugrizy"
H = 6.626068e-27


@functools.lru_cache(None)
def curves(b):
    wl = np.arange(304, 1144.5, 2.0)
    return (Bandpass(wavelen=wl, sb=fakedata.curve(b, wl)), Bandpass(wavelen=wl, sb=fakedata.curve(b, wl, True)))


@functools.lru_cache(None)
def flat_counts(b, hardware=False):
    """photons / s / cm2 of a 3631 Jy source through the band (the code's rectangle rule on the band's grid)."""
    bp = curves(b)[1 if hardware else 0]
    return math.fsum(3631e-23 / (H * bp.wavelen) * bp.sb * 2.0)


def flat(mag, step=2.0):
    wl = np.arange(290, 1160.5, step)
    return Sed(wavelen=wl, fnu=np.full(len(wl), 3631.0 * 10 ** (-0.4 * mag)))


@st.composite
def snr_case(draw):
    return {"band": draw(st.sampled_from(BANDS)), "sky": draw(st.integers(68, 104)) / 4, "mag": draw(st.integers(60, 112)) / 4,
            "exp": draw(st.sampled_from([1.0, 15.0, 30.0, 150.0])), "nexp": draw(st.integers(1, 4)), "gain": draw(st.sampled_from([0.5, 1.0, 2.3, 6.0])),
            "rn": draw(st.sampled_from([0.0, 5.0, 8.8, 50.0])), "dc": draw(st.sampled_from([0.0, 0.2, 3.0])), "on": draw(st.sampled_from([0.0, 4.69])),
            "ps": draw(st.sampled_from([0.2, 0.4])), "fwhm": draw(st.integers(2, 12)) / 8, "sys": draw(st.sampled_from([None, 0.0, 0.003, 0.05])),
            "area": draw(st.sampled_from([None, 1.0e5])), "target": draw(st.integers(72, 104)) / 4}


def params(case):
    return PhotometricParameters(exptime=case["exp"], nexp=case["nexp"], gain=case["gain"], readnoise=case["rn"], darkcurrent=case["dc"],
                                 othernoise=case["on"], platescale=case["ps"], sigma_sys=case["sys"], effarea=case["area"], bandpass=case["band"])


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)


def snr_test(case):
    b = case["band"]
    total, hard = curves(b)
    pp = params(case)
    g = case["gain"]
    sky = flat(case["sky"])
    K = pp.effarea * case["exp"] * case["nexp"] / g  # to ADU
    C = flat_counts(b) * 10 ** (-0.4 * case["mag"]) * K
    S = flat_counts(b, True) * 10 ** (-0.4 * case["sky"]) * K * case["ps"] ** 2
    neff = 2.266 * (case["fwhm"] / case["ps"]) ** 2
    inst = (case["nexp"] * (case["rn"] ** 2 + case["on"] ** 2) + case["dc"] * case["exp"] * case["nexp"]) / g ** 2
    require(close(sn.calc_neff(case["fwhm"], case["ps"]), neff), "effective pixels")
    require(abs(sn.calc_instr_noise_sq(pp) - inst) < 1e-9 * (1 + inst), "instrumental noise", float(sn.calc_instr_noise_sq(pp)), inst)
    V = neff * (S / g + inst)
    got = sn.calc_total_non_source_noise_sq(sky, hard, pp, case["fwhm"])
    require(close(got, V), "noise without the source", float(got), V)
    src = flat(case["mag"])
    require(close(src.calc_adu(total, pp), C), "counts", float(src.calc_adu(total, pp)), C)
    snr = sn.calc_snr_sed(src, total, sky, hard, pp, case["fwhm"])
    require(close(snr, C / math.sqrt(C / g + V)), "signal to noise", float(snr), C / math.sqrt(C / g + V))
    # the five-sigma depth is where the signal to noise is 5
    m5 = sn.calc_m5(sky, total, hard, pp, case["fwhm"])
    at5 = sn.calc_snr_sed(flat(float(m5)), total, sky, hard, pp, case["fwhm"])
    require(abs(at5 - 5) < 2e-3, "signal to noise at the five-sigma depth", float(at5), float(m5))
    # depth-based and counts-based signal to noise agree
    s2, gam = sn.calc_snr_m5(case["mag"], total, m5, pp)
    require(close(s2, snr, 2e-3), "signal to noise from the depth", float(s2), float(snr))
    s5, _ = sn.calc_snr_m5(m5, total, m5, pp)
    require(close(s5, 5.0), "signal to noise at m5", float(s5))
    C5 = flat_counts(b) * 10 ** (-0.4 * float(m5)) * K
    require(abs(gam - (0.04 - 1 / (C5 * g))) < 1e-5 * max(1, 1 / (C5 * g)), "gamma", float(gam), 0.04 - 1 / (C5 * g))
    s3, g3 = sn.calc_snr_m5(case["mag"], total, m5, pp, gamma=0.039)
    x = 10 ** (0.4 * (case["mag"] - float(m5)))
    require(g3 == 0.039 and close(s3, 1 / math.sqrt(0.001 * x + 0.039 * x * x)), "signal to noise for a given gamma")
    # magnitude errors
    sys = pp.sigma_sys
    for val, s in ((sn.calc_mag_error_sed(src, total, sky, hard, pp, case["fwhm"]), snr), (sn.calc_mag_error_m5(case["mag"], total, m5, pp)[0], s2)):
        w = math.hypot(2.5 * math.log10(1 + 1 / s), sys)
        require(close(val, w), "magnitude error", float(val), w)
    require(close(sn.mag_error_from_snr(snr), 2.5 * math.log10(1 + 1 / snr)), "error of a signal to noise")
    # a brighter sky or worse seeing never makes the image deeper
    require(sn.calc_m5(flat(case["sky"] - 0.5), total, hard, pp, case["fwhm"]) <= m5 + 1e-9, "brighter sky, deeper image")
    require(sn.calc_m5(sky, total, hard, pp, case["fwhm"] * 1.25) <= m5 + 1e-9, "worse seeing, deeper image")
    # a sky scaled to give a target depth gives it
    c = sn.calc_sky_counts_per_pixel_for_m5(case["target"], total, pp, fwhm_eff=case["fwhm"])
    Ct = flat_counts(b) * 10 ** (-0.4 * case["target"]) * K
    w = ((Ct ** 2 / 25 - Ct / g) / neff - inst) * g
    require(abs(c - w) <= 1e-5 * (abs(w) + Ct), "sky counts for a depth", float(c), w)
    if w > 1e-3 * Ct:
        sc = sn.scale_sky_m5(case["target"], sky, total, hard, pp, fwhm_eff=case["fwhm"])
        m = sn.calc_m5(sc, total, hard, pp, case["fwhm"])
        require(abs(m - case["target"]) < 2e-3, "depth of the scaled sky", float(m), case["target"])
        require(np.allclose(sc.flambda / sc.flambda[0], sky.flambda / sky.flambda[0]), "scaling changed the shape of the sky")
        require(np.allclose(sky.fnu, 3631.0 * 10 ** (-0.4 * case["sky"])), "scaling changed the input sky")
        return "scaled"
    return "snr"


@st.composite
def par_case(draw):
    keys = ["exptime", "nexp", "effarea", "gain", "readnoise", "darkcurrent", "othernoise", "platescale", "sigma_sys"]
    return {"band": draw(st.sampled_from([None, "u", "g", "r", "i", "z", "y", "w"])), "over": draw(st.dictionaries(st.sampled_from(keys), st.integers(0, 40).map(lambda k: k / 4), max_size=9)),
            "full": draw(st.booleans()), "mag": draw(st.integers(60, 112)) / 4, "m5": draw(st.integers(80, 104)) / 4, "fwhm": draw(st.integers(2, 12)) / 8,
            "nv": draw(st.integers(1, 100)), "floor": draw(st.sampled_from([0.0, 10.0])), "air": draw(st.integers(8, 24)) / 8, "t": draw(st.integers(1, 240)) / 8}


DEF = {"exptime": 15.0, "nexp": 2, "effarea": math.pi * (6.423 / 2.0 * 100) ** 2, "gain": 2.3, "readnoise": 8.8, "darkcurrent": 0.2, "othernoise": 0.0, "platescale": 0.2}
SYS = {"u": 0.0075, "g": 0.005, "r": 0.005, "i": 0.005, "z": 0.0075, "y": 0.0075, None: 0.005}


def par_test(case):
    over = dict(case["over"])
    if case["full"]:
        for k in list(DEF) + ["sigma_sys"]:
            over.setdefault(k, 1.25)
    try:
        pp = PhotometricParameters(bandpass=case["band"], **over)
    except RuntimeError:
        require(case["band"] == "w" and len(over) < 9, "parameters refused", case["band"], over)
    else:
        require(case["band"] != "w" or len(over) == 9, "unknown band without all parameters accepted")
        for k in list(DEF) + ["sigma_sys"]:
            want = over[k] if k in over else (DEF[k] if k != "sigma_sys" else SYS[case["band"]])
            require(getattr(pp, k) == want, "parameter", k, getattr(pp, k), want)
            try:
                setattr(pp, k, 1.0)
                require(False, "parameter can be changed", k)
            except RuntimeError:
                pass
            require(getattr(pp, k) == want, "parameter changed", k)
        require(pp.bandpass == case["band"], "band")
    # astrometric error
    e = sn.calc_astrometric_error(case["mag"], case["m5"], fwhm_geom=case["fwhm"], nvisit=case["nv"], systematic_floor=case["floor"])
    x = 10 ** (0.4 * (case["mag"] - case["m5"]))
    w = math.hypot(case["floor"], case["fwhm"] * 1000 * math.sqrt(0.001 * x + 0.039 * x * x) / math.sqrt(case["nv"]))
    require(close(e, w), "astrometric error", float(e), w)
    require(close(sn.fwhm_geom2_fwhm_eff(sn.fwhm_eff2_fwhm_geom(case["fwhm"])), case["fwhm"]), "seeing conversion and back")
    require(close(sn.fwhm_eff2_fwhm_geom(case["fwhm"]), 0.822 * case["fwhm"] + 0.052), "geometric seeing")
    # zeropoints
    sev = SysEngVals()
    for b in BANDS:
        for suf in ("", "_itl", "_e2v"):
            f = getattr(pu, "predicted_zeropoint" + suf)
            h = getattr(pu, "predicted_zeropoint_hardware" + suf)
            z1 = f(b, 1.0)
            require(abs(z1 - sev.zp_t[b]) < 0.11, "zeropoint near the system value", b, suf, z1)
            k = z1 - f(b, 2.0)
            require(k > 0 and abs(k - sev.k_atm[b]) < 0.09, "extinction coefficient", b, suf, k, sev.k_atm[b])
            require(abs(f(b, case["air"], case["t"]) - (z1 - k * (case["air"] - 1) + 2.5 * math.log10(case["t"]))) < 1e-9, "zeropoint", b, suf)
            require(abs(h(b, case["t"]) - (h(b) + 2.5 * math.log10(case["t"]))) < 1e-9, "hardware zeropoint", b, suf)
            # without the atmosphere: the zeropoint at zero airmass, nearly
            require(0 < h(b) - z1 < 0.55 and abs(h(b) - f(b, 0.0)) < 0.1, "zeropoint above the atmosphere", b, suf, h(b), f(b, 0.0))
        lo = min(pu.predicted_zeropoint_itl(b, 1.0), pu.predicted_zeropoint_e2v(b, 1.0))
        hi = max(pu.predicted_zeropoint_itl(b, 1.0), pu.predicted_zeropoint_e2v(b, 1.0))
        require(lo - 2e-3 <= pu.predicted_zeropoint(b, 1.0) <= hi + 2e-3, "general zeropoint between the vendors'", b)
    return bool(over) and "overrides"


def teardown():
    fakedata.cleanup()


def arms():
    return [
        Arm("snr", snr_case(), snr_test, 120, 2500, rule="any"),
        Arm("snr2", snr_case(), snr_test, 120, 2500, rule="any"),
        Arm("snr3", snr_case(), snr_test, 120, 2500, rule="any"),
        Arm("parameters", par_case(), par_test, 400, rule="some parameter overridden"),
    ]
