"""A stand-in for the compiled OpenOrb library (not installed here): import this
before rubin_sim.  Sky motion is a smooth closed-form function of the elements,
so the exact answer is known at every time."""

import sys
import types

import numpy as np

PHOTO = {"helio_dist": 7, "geo_dist": 8, "magV": 9}
NAMES = ["time", "ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV", "trueAnomaly"]
SHIFT = {1: 0.0, 2: 0.002, 3: 0.03, 4: 0.011}  # days, per time-scale code: UTC, UT1, TT, TAI
CODE = {"UTC": 1, "UT1": 2, "TT": 3, "TAI": 4}
calls = []


def position(el, t, scale, dyn="N", obscode="I11"):
    """Everything about one object (12 elements) at times t; angles not wrapped."""
    t = np.asarray(t, float)
    dt = t - el[8] + SHIFT[int(scale)]
    p = 3.0 + el[5]
    w = 2 * np.pi / p
    off = 0.02 * np.sin(dt) if dyn == "2" else 0.0 * dt
    ra = np.degrees(el[4]) + el[1] * dt + el[2] * np.sin(w * dt) + off
    dec = (np.degrees(el[3]) - 90.0) * 0.8 + el[2] * np.cos(w * dt)
    if obscode not in ("I11", 807):
        dec = dec + 0.5
    dra = el[1] + el[2] * w * np.cos(w * dt)
    ddec = -el[2] * w * np.sin(w * dt)
    geo = 1.0 + 0.3 * np.cos(2 * np.pi * dt / 25.0)
    mag = el[10] + 5 * np.log10(geo)
    if el[11] < 0:  # no magnitude during half a day
        mag = np.where((dt > -el[11]) & (dt < -el[11] + 0.5), np.nan, mag)
    return {"time": t, "ra": ra, "dec": dec, "dradt": dra * np.cos(np.radians(dec)), "ddecdt": ddec,
            "phase": 20 + 10 * np.sin(dt / 9.0), "solarelon": 90 + 60 * np.cos(2 * np.pi * dt / 40.0 + el[6]),
            "helio_dist": 1.5 + 0.1 * np.sin(dt / 7.0), "geo_dist": geo, "magV": mag, "trueAnomaly": np.mod(dt, 360.0)}


class _Lib:
    @staticmethod
    def oorb_init(ephemeris_fname=None):
        calls.append(("init", ephemeris_fname))
        return 0

    @staticmethod
    def oorb_ephemeris_basic(in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        out = np.zeros((len(in_orbits), len(in_date_ephems), 11), order="F")
        for i, el in enumerate(in_orbits):
            for s in np.unique(in_date_ephems[:, 1]):
                k = in_date_ephems[:, 1] == s
                e = position(el, in_date_ephems[k, 0], s, in_dynmodel, in_obscode)
                for j, n in enumerate(NAMES):
                    out[i, k, j] = np.mod(e[n], 360.0) if n == "ra" else e[n]
        return out, 0

    @staticmethod
    def oorb_ephemeris_full(in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        b, _ = _Lib.oorb_ephemeris_basic(in_orbits, in_obscode, in_date_ephems, in_dynmodel)
        out = np.zeros(b.shape[:2] + (34,), order="F")
        out[:, :, :10] = b[:, :, :10]
        for j in range(10, 33):
            out[:, :, j] = j + np.arange(b.shape[0])[:, None] * 100 + np.arange(b.shape[1])[None, :] * 0.01
        out[:, :, 33] = b[:, :, 10]
        return out, 0

    @staticmethod
    def oorb_propagation(in_orbits, in_dynmodel, in_epoch):
        new = in_orbits.copy()
        new[:, 6] = new[:, 6] + (in_epoch[0, 0] - new[:, 8]) * 1e-3
        new[:, 8] = in_epoch[0, 0]
        return new, 0

    @staticmethod
    def oorb_element_transformation(in_orbits, in_element_type):
        new = in_orbits.copy()
        new[:, 7] = in_element_type
        new[:, 1:7] = new[:, 1:7] * 0.5
        return new, 0


mod = types.ModuleType("pyoorb")
mod.pyoorb = _Lib
assert "rubin_sim.moving_objects" not in sys.modules
sys.modules["pyoorb"] = mod
