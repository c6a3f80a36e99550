"""A small synthetic data directory (the real one is a multi-GB download).

Filter curves are smooth trapezoids at the Rubin wavelengths; the code under
test reads them through its ordinary file path (RUBIN_SIM_DATA_DIR)."""

import atexit
import os
import shutil
import tempfile

import numpy as np

EDGES = {"u": (330, 400), "g": (400, 550), "r": (550, 690), "i": (690, 820), "z": (820, 920), "y": (920, 1060)}
_DIR = None


def curve(f, wl, hardware=False):
    lo, hi = EDGES[f]
    t = np.clip((wl - lo) / 10.0, 0, 1) * np.clip((hi - wl) / 10.0, 0, 1)
    peak = {"u": 0.2, "g": 0.45, "r": 0.5, "i": 0.5, "z": 0.48, "y": 0.3}[f]
    atm = 1.0 if hardware else np.clip(1.0 - (300.0 / wl) ** 4 * 0.6, 0, 1)
    return peak * t * atm


def make(step=1.0):
    root = tempfile.mkdtemp(prefix="vp_data_")
    d = os.path.join(root, "throughputs", "baseline")
    os.makedirs(d)
    wl = np.arange(300, 1150.0 + step / 2, step)
    for f in EDGES:
        for kind in ("total", "hardware", "filter"):
            with open(os.path.join(d, f"{kind}_{f}.dat"), "w") as out:
                out.write("# synthetic\n")
                for w, s in zip(wl, curve(f, wl, kind != "total")):
                    out.write(f"{w:.3f} {s:.8g}\n")
    with open(os.path.join(d, "darksky.dat"), "w") as out:
        for w in wl:
            out.write(f"{w:.3f} {1e-17 * (1 + w / 1000):.8g}\n")
    # moving objects: V band, two spectra; camera footprint (lop-sided on purpose)
    os.makedirs(os.path.join(root, "movingObjects"))
    with open(os.path.join(root, "movingObjects", "harris_V.dat"), "w") as out:
        for w in wl:
            out.write(f"{w:.3f} {max(0.0, 1 - abs(w - 550) / 50.0):.8g}\n")
    for name, slope in (("C.dat", 0.2), ("S.dat", 1.5)):
        with open(os.path.join(root, "movingObjects", name), "w") as out:
            for w in wl:
                out.write(f"{w:.3f} {1e-17 * (w / 550.0) ** slope:.8g}\n")
    os.makedirs(os.path.join(root, "utils"))
    x = np.linspace(-2.0, 2.0, 41)
    xx, yy = np.meshgrid(x, x, indexing="ij")
    np.savez(os.path.join(root, "utils", "fov_map.npz"), x=x, image=(np.hypot(xx, yy) < 1.8) & ~((xx > 0.5) & (yy > 0.5)))
    return root


def use():
    """Create the directory once per process group and point the code at it."""
    global _DIR
    if _DIR is None:
        _DIR = make()
        atexit.register(cleanup, os.getpid())
    os.environ["RUBIN_SIM_DATA_DIR"] = _DIR
    return _DIR


def cleanup(pid=None):
    global _DIR
    if _DIR and (pid is None or pid == os.getpid()):
        shutil.rmtree(_DIR, ignore_errors=True)
        _DIR = None
