"""Synthetic sky-brightness component files (the real ones are a large download)."""

import atexit
import os
import shutil

import healpy as hp
import numpy as np

from vp import fakedata

NWAVE = 11001
AIRMASS = [1.0, 1.3, 1.8, 2.4, 3.0]
FLUX = [50.0, 130.0, 250.0]
SEP = [0.0, 60.0, 120.0, 180.0]
ALT = [0.0, 30.0, 60.0, 90.0]
DIRS = {"scattered_star": "ScatteredStarLight", "lower_atm": "LowerAtm", "upper_atm": "UpperAtm", "merged_spec": "MergedSpec", "airglow": "Airglow", "zodiacal": "Zodiacal", "moon": "Moon"}
WAVE = np.linspace(290.0, 1390.0, NWAVE)


def moon_pixels():
    theta, _ = hp.pix2ang(4, np.arange(192))
    return np.where(theta < np.radians(55.0))[0]


def grid(comp, spectra):
    """Rows (dict of keys) in the order of the files."""
    if comp == "airglow":
        return [{"airmass": a, "solarFlux": f} for a in AIRMASS for f in FLUX]
    if comp == "zodiacal":
        return [{"airmass": a, "hpid": h} for a in (AIRMASS[::2] if spectra else AIRMASS) for h in range(hp.nside2npix(1 if spectra else 2))]
    if comp == "moon":
        return [{"moonSunSep": s, "moonAltitude": m, "hpid": h} for s in (SEP[::3] if spectra else SEP) for m in (ALT[::3] if spectra else ALT) for h in moon_pixels()]
    return [{"airmass": a, "nightTimes": 0.0} for a in AIRMASS]


def rows(comp, spectra):
    g = grid(comp, spectra)
    r = np.random.RandomState(sorted(DIRS).index(comp) + 17)
    dt = [(k, int if k == "hpid" else float) for k in g[0]] + [("mags", float, 6), ("spectra", float, NWAVE if spectra else 1)]
    out = np.zeros(len(g), dtype=dt)
    for k in g[0]:
        out[k] = [x[k] for x in g]
    out["mags"] = r.uniform(18.0, 25.0, (len(g), 6))
    if spectra:
        a, b = r.uniform(0.5, 3.0, len(g)), r.uniform(-1.0, 1.0, len(g))
        out["spectra"] = 1e-17 * a[:, None] * (1 + 0.5 * b[:, None] * np.sin(WAVE[None, :] / (20.0 + sorted(DIRS).index(comp))))
        out["spectra"][:, WAVE < 295] = 0.0
    return out


def write(root, spectra):
    base = os.path.join(root, "skybrightness")
    data = {}
    for comp, name in DIRS.items():
        d = os.path.join(base, "ESO_Spectra", name)
        os.makedirs(d)
        t = rows(comp, spectra)
        data[comp] = t
        cut = max(1, len(t) // 3) if comp in ("zodiacal", "moon", "airglow") else len(t)
        for k, i in enumerate(range(0, len(t), cut)):
            np.savez(os.path.join(d, "part_%02d.npz" % k), wave=WAVE, filterWave=np.array([370.0, 480.0, 620.0, 755.0, 870.0, 990.0]), spec=t[i:i + cut])
    os.makedirs(os.path.join(base, "solarSpec"))
    np.savez(os.path.join(base, "solarSpec", "solarSpec.npz"), wave=WAVE, spec=1e-10 * (1.2 + np.sin(WAVE / 90.0)))
    os.makedirs(os.path.join(base, "Canon"))
    for n, mid in (("blue", 460.0), ("green", 530.0), ("red", 610.0)):
        with open(os.path.join(base, "Canon", n + "_canon.csv"), "w") as f:
            for w in np.arange(380.0, 721.0, 5.0):
                f.write("%.1f, %.6f\n" % (w, max(0.0, 1 - abs(w - mid) / 60.0)))
    return data


_ROOTS = {}


def make():
    """Two data directories: rich grids without spectra, small grids with them."""
    for spectra in (False, True):
        if spectra not in _ROOTS:
            root = fakedata.make()
            _ROOTS[spectra] = (root, write(root, spectra))
    atexit.register(cleanup, os.getpid())


def use(spectra):
    os.environ["RUBIN_SIM_DATA_DIR"] = _ROOTS[spectra][0]
    return _ROOTS[spectra][1]


def cleanup(pid=None):
    if pid is None or pid == os.getpid():
        for root, _ in _ROOTS.values():
            shutil.rmtree(root, ignore_errors=True)
        _ROOTS.clear()
