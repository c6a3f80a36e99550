"""A small planetary ephemeris file (Sun and Earth, 2023-2036) in SPK form, made from astropy's built-in ephemeris, to stand in for
the DE421 file that skyfield would download."""

import os
import struct
import tempfile

import numpy as np

_DIR = None


def make():
    """Directory holding de421.bsp."""
    global _DIR
    if _DIR is None:
        _DIR = tempfile.mkdtemp(prefix="vpspk")
        write(os.path.join(_DIR, "de421.bsp"))
    return _DIR


def cleanup():
    global _DIR
    if _DIR is not None:
        import shutil

        shutil.rmtree(_DIR, ignore_errors=True)
        _DIR = None


def write(path, y0=2023, years=13):
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    from jplephem.daf import DAF

    rec = struct.pack("<8sII60sIII8s603s28s297s", b"DAF/SPK ", 2, 6, b"stand-in".ljust(60), 2, 2, 385, b"LTL-IEEE", b"\0" * 603, b"FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP"[:28].ljust(28, b"\0"), b"\0" * 297)
    with open(path, "wb") as f:
        f.write(rec + b"\0" * 1024 + b" " * 1024)
    with open(path, "r+b") as f:
        daf = DAF(f)
        jd0 = 2451545.0 + 365.25 * (y0 - 2000)
        step, deg = 16.0, 12
        n = int(np.ceil(365.25 * years / step))
        k = np.arange(deg + 1)
        x = np.cos(np.pi * (k + 0.5) / (deg + 1))
        mids = jd0 + step * (np.arange(n) + 0.5)
        t = Time((mids[:, None] + x[None, :] * step / 2).ravel(), format="jd", scale="tdb")
        cosm = np.cos(np.outer(k, np.pi * (k + 0.5) / (deg + 1)))
        for name, target, center in (("sun", 10, 0), ("earth", 3, 0), ("zero", 399, 3)):
            if name == "zero":
                xyz = np.zeros((3, n, deg + 1))
            else:
                xyz = get_body_barycentric(name, t, ephemeris="builtin").xyz.to_value("km").reshape(3, n, deg + 1)
            coef = 2.0 / (deg + 1) * np.einsum("kj,anj->ank", cosm, xyz)
            coef[..., 0] /= 2
            sec = (mids - 2451545.0) * 86400.0
            rows = np.concatenate([sec[:, None], np.full((n, 1), step / 2 * 86400), coef[0], coef[1], coef[2]], axis=1)
            start, end = (jd0 - 2451545.0) * 86400.0, (jd0 + n * step - 2451545.0) * 86400.0
            arr = np.concatenate([rows.ravel(), [start, step * 86400.0, rows.shape[1], n]])
            daf.add_array(name.encode(), (start, end, target, center, 1, 2), arr)
