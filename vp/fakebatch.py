"""Small stand-ins for the data files the standard batches read while being built (the real ones are a large download)."""

import os

import healpy as hp
import numpy as np

from vp import fakedata


def use():
    """Make them and point the package at them; returns the directory."""
    fakedata.use()
    root = os.environ["RUBIN_SIM_DATA_DIR"]
    d = os.path.join(root, "scheduler", "dust_maps")
    os.makedirs(d, exist_ok=True)
    for nside in (32, 64):
        np.savez(os.path.join(d, "dust_nside_%i.npz" % nside), ebvMap=np.linspace(0, 1, hp.nside2npix(nside)))
    with open(os.path.join(root, "scheduler", "EWS.SGC.Mainland.ROI.2022.RADEC.txt"), "w") as f:
        f.write("10 -10\n60 -10\n60 -50\n10 -50\n")
    d = os.path.join(root, "maf", "quasarNumberCounts")
    os.makedirs(d, exist_ok=True)
    for b in "ugrizy":
        with open(os.path.join(d, "Long_Table.LSST%s.Shen20.A.Richards06.txt" % b), "w") as f:
            m, z = np.linspace(15, 28, 14), np.linspace(0, 7, 15)
            f.write(" ".join("%g" % x for x in m) + "\n" + " ".join("%g" % x for x in z) + "\n")
            for _ in range(13):
                f.write(" ".join("1.5" for _ in range(14)) + "\n")
    d = os.path.join(root, "maps", "TriMaps")
    os.makedirs(d, exist_ok=True)
    n = hp.nside2npix(128)
    for b in "ugrizy":
        np.savez(os.path.join(d, "TRIstarDensity_%s_nside_128.npz" % b), starDensity=(1.0 + np.arange(n))[:, None] * np.array([1.0, 2.0, 3.0]), bins=np.array([15.0, 18.0, 22.0, 27.0]))
    d = os.path.join(root, "maf", "xrb")
    os.makedirs(d, exist_ok=True)
    np.savetxt(os.path.join(d, "sample_xrb_positions.csv.gz"), np.random.RandomState(3).uniform([250.0, -40.0, 2.0, 0.0], [280.0, -20.0, 10.0, 1.0], (200, 4)), delimiter=",")
    from astropy.io import fits

    d = os.path.join(root, "maf", "lvdwarfs")
    os.makedirs(d, exist_ok=True)
    r = np.random.RandomState(5)
    cols = {"ra": r.uniform(0, 360, 40), "dec": r.uniform(-80, 60, 40), "MStars": 10 ** r.uniform(6, 10, 40), "dist_Mpc": r.uniform(1.3, 9, 40), "MB": r.uniform(-16, -8, 40), "dm": r.uniform(26, 30, 40)}
    fits.BinTableHDU.from_columns([fits.Column(name=k, format="D", array=v) for k, v in cols.items()]).writeto(os.path.join(d, "lsst_galaxies_1p25to9Mpc_table.fits"), overwrite=True)
    with open(os.path.join(d, "LF_-1.5_10Gyr.dat"), "w") as f:
        f.write("a b c d e f g\n" * 12 + "magbinc umag gmag rmag imag zmag Ymag\n")
        for m in np.arange(-5.0, 12.0, 0.5):
            f.write("%.1f " % m + " ".join("%.3f" % (10 ** (0.2 * (m + 5)) + k) for k in range(6)) + "\n")
    import rubin_sim.maf.metrics.sn_n_sn_metric as sn

    sn.load_sne_cached = lambda gamma_name=None: {}  # 1 GB of supernova light curves
    import rubin_sim.maf as maf

    make = maf.generate_xrb_pop_slicer
    if not hasattr(make, "vp_few"):
        def few(*a, **k):  # ten thousand outbursts take 10 s
            if k.get("n_events", 0) > 100:
                k["n_events"] = 100
            return make(*a, **k)

        few.vp_few = True
        maf.generate_xrb_pop_slicer = few
    return root
