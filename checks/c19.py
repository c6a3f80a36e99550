"""C19: SED algebra: unit conversion, scaling, dust, redshift, magnitudes, files and caches."""

import gzip
import math
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from rubin_sim.phot_utils import Bandpass, Sed
from rubin_sim.phot_utils import sed as sedmod
from rubin_sim.phot_utils.sed_utils import get_imsim_flux_norm
from vp import fakedata
from vp.core import Arm, require

ASSUMPTIONS = ["AB system: 3631 Jy at every wavelength is magnitude 0", "SED libraries are synthetic files"]
C = 299792458.0


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.all(np.abs(a - b) <= tol * np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-300)))


@st.composite
def sed_case(draw):
    n = draw(st.integers(4, 60))
    w0 = draw(st.integers(100, 700))
    step = draw(st.sampled_from([1.0, 2.0, 5.0, 12.5, 0.1, 0.3]))
    uniform = draw(st.booleans())
    fl = draw(st.lists(st.integers(1, 400), min_size=n, max_size=n))
    return {"n": n, "w0": w0, "step": step, "jit": draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)) if not uniform else None,
            "f": fl, "scale": draw(st.sampled_from([1e-20, 1e-17, 1.0])), "sb": draw(st.lists(st.integers(0, 8), min_size=n, max_size=n)),
            "mag": draw(st.integers(-20, 120)) / 4, "k": draw(st.integers(1, 64)) / 8, "ebv": [draw(st.integers(0, 16)) / 16, draw(st.integers(0, 16)) / 16],
            "rv": draw(st.sampled_from([3.1, 2.5, 4.0])), "z": draw(st.integers(-16, 48)) / 16, "dim": draw(st.booleans()),
            "law": draw(st.sampled_from(["ccm", "od"])), "norm": draw(st.integers(1, 40)) / 8, "frac": draw(st.integers(0, 8)) / 8,
            "gap": draw(st.sampled_from([0, 3])), "kind": draw(st.sampled_from(["flambda", "fnu"]))}


def build(case):
    n = case["n"]
    if case["jit"] is None:
        wl = case["w0"] + case["step"] * np.arange(n)
    else:
        wl = case["w0"] + np.cumsum(np.array(case["jit"], float))
    return wl, np.array(case["f"], float) * case["scale"]


def integ(y, x):
    return math.fsum(0.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i]) for i in range(len(x) - 1))


def ccm(x, od=False):
    """a(x), b(x) of Cardelli, Clayton & Mathis 1989 (O'Donnell 1994 in the optical)."""
    if 0.3 <= x <= 1.1:
        return 0.574 * x ** 1.61, -0.527 * x ** 1.61
    if 1.1 <= x <= 3.3:
        y = x - 1.82
        if od:
            a = np.polyval([-0.505, 1.647, -0.827, -1.718, 1.137, 0.701, -0.609, 0.104, 1], y)
            b = np.polyval([3.347, -10.805, 5.491, 11.102, -7.985, -3.989, 2.908, 1.952, 0], y)
        else:
            a = np.polyval([0.32999, -0.7753, 0.01979, 0.72085, -0.02427, -0.50447, 0.17699, 1], y)
            b = np.polyval([-2.09002, 5.3026, -0.62251, -5.38434, 1.07233, 2.28305, 1.41338, 0], y)
        return a, b
    if 3.3 <= x <= 8:
        fa = fb = 0.0
        if x > 5.9:
            fa = -0.04473 * (x - 5.9) ** 2 - 0.009779 * (x - 5.9) ** 3
            fb = 0.213 * (x - 5.9) ** 2 + 0.1207 * (x - 5.9) ** 3
        return (1.752 - 0.316 * x - 0.104 / ((x - 4.67) ** 2 + 0.341) + fa,
                -3.09 + 1.825 * x + 1.206 / ((x - 4.62) ** 2 + 0.263) + fb)
    y = x - 8
    return np.polyval([-0.07, 0.137, -0.628, -1.073], y), np.polyval([0.374, -0.42, 4.257, 13.67], y)


def sed_test(case):
    wl, fl = build(case)
    wl0, fl0 = wl.copy(), fl.copy()
    s = Sed(wavelen=wl, flambda=fl)
    # unit conversion: fnu = flambda lambda^2 / c
    w, fnu = s.get_sed_fnu()
    want = fl * wl * wl * 1e-9 / C * 1e23
    require(close(fnu, want) and close(w, wl), "flux per frequency", fnu[:3], want[:3])
    t = Sed(wavelen=wl, fnu=fnu)
    require(close(t.flambda, fl), "back to flux per wavelength")
    s.synchronize_sed()
    require(close(s.fnu, want), "synchronized fnu")
    w2, f2 = s.fnu_toflambda(wl, fnu)
    require(close(f2, fl), "conversion of arrays")
    # bandpass flux and magnitude
    sb = np.array(case["sb"], float) / 8
    sb[len(sb) // 2] = 1.0
    bp = Bandpass(wavelen=wl, sb=sb)
    phi = sb / wl
    flux = integ(want * phi, wl) / integ(phi, wl)
    require(close(s.calc_flux(bp), flux, 1e-8), "in-band flux", float(s.calc_flux(bp)), flux)
    mag = s.calc_mag(bp)
    require(abs(mag - (-2.5 * math.log10(flux / 3631))) < 1e-7, "AB magnitude", float(mag))
    require(min(want) * (1 - 1e-9) <= s.calc_flux(bp) <= max(want) * (1 + 1e-9), "mean flux outside the range of the spectrum")
    require(close(s.mag_from_flux(s.flux_from_mag(case["mag"])), case["mag"], 1e-9) or abs(case["mag"]) < 1e-9, "flux of a magnitude")
    flat = Sed(wavelen=wl, fnu=np.full(len(wl), 3631.0))
    require(abs(flat.calc_mag(bp)) < 1e-8, "flat 3631 Jy is magnitude 0", float(flat.calc_mag(bp)))
    # scaling to a magnitude
    u = Sed(wavelen=wl, flambda=fl)
    k = u.calc_flux_norm(case["mag"], bp)
    u.multiply_flux_norm(k)
    require(abs(u.calc_mag(bp) - case["mag"]) < 1e-7, "scaled to a magnitude", float(u.calc_mag(bp)), case["mag"])
    require(close(u.flambda, fl * k, 1e-8) and close(u.fnu, want * k, 1e-8), "scaling changes the shape or leaves fnu and flambda apart")
    wq, fq = s.multiply_flux_norm(case["k"], wl, want)
    require(close(fq, want * case["k"]) and close(s.fnu, want), "scaling of arrays touches the SED")
    # energy through the band
    dl = wl[1] - wl[0]
    if case["jit"] is None:
        e = s.calc_ergs(bp)
        require(close(e, integ(fl * sb, wl), 1e-8), "energy in the band", float(e))
    # many bandpasses at once
    if case["jit"] is None:
        lo, hi = len(wl) // 4, len(wl) - len(wl) // 4
        if hi - lo >= 2:
            sb2 = np.where((np.arange(len(wl)) >= lo) & (np.arange(len(wl)) < hi), 0.5, 0.0)
            bps = [Bandpass(wavelen=wl, sb=sb), Bandpass(wavelen=wl, sb=sb2)]
            phis, dstep = s.setup_phi_array(bps)
            require(phis.shape == (2, len(wl)), "phi array on the common grid", phis.shape, len(wl))
            if sb[0] == 0 and sb[-1] == 0 and sb2[0] == 0 and sb2[-1] == 0:
                m = s.many_mag_calc(phis, dstep)
                one = [s.calc_mag(b) for b in bps]
                require(np.allclose(m, one, atol=1e-7), "magnitudes in many bands", list(m), one)
                require(np.allclose(s.many_mag_calc(phis, dstep, observed_bandpass_ind=[1]), one[1:], atol=1e-7), "magnitude in one of many bands")
                require(np.allclose(s.many_flux_calc(phis, dstep), [s.calc_flux(b) for b in bps], rtol=1e-7), "fluxes in many bands")
    # dust
    e1, e2 = case["ebv"]
    rv = case["rv"]
    law = "setup_ccm_ab" if case["law"] == "ccm" else "setup_o_donnell_ab"
    a, b = getattr(s, law)()
    ref = [ccm(1000.0 / x, case["law"] == "od") for x in wl]
    # at the joins of the law either side may be used; they agree to a few per cent
    join = np.array([min(abs(1000.0 / x - j) for j in (1.1, 3.3, 5.9, 8.0)) < 1e-6 for x in wl])
    tol = np.where(join, 0.05, 1e-9)
    require(np.all(np.abs(a - [r[0] for r in ref]) <= tol * (1 + np.abs(a))) and np.all(np.abs(b - [r[1] for r in ref]) <= tol * (1 + np.abs(b))),
            "extinction law", case["law"], a[:3], ref[:3])
    ref = list(zip(a, b))
    d1 = Sed(wavelen=wl, flambda=fl)
    d1.add_dust(a, b, ebv=e1, r_v=rv)
    al = np.array([r[0] + r[1] / rv for r in ref]) * rv
    require(close(d1.flambda, fl * 10 ** (-0.4 * al * e1), 1e-8), "dusty spectrum")
    require(d1.fnu is None or close(d1.fnu, d1.flambda * wl * wl * 1e-9 / C * 1e23), "fnu left over from before the dust")
    d1.add_dust(a, b, ebv=e2, r_v=rv)
    d2 = Sed(wavelen=wl, flambda=fl)
    d2.add_dust(a, b, a_v=rv * (e1 + e2), r_v=rv)
    require(close(d1.flambda, d2.flambda, 1e-8), "two layers of dust differ from one")
    if e1 > 0:
        d3 = Sed(wavelen=wl, flambda=fl)
        d3.add_dust(a, b, a_v=e1 * 4.0, ebv=e1)
        al4 = np.array([r[0] + r[1] / 4.0 for r in ref]) * 4.0
        require(close(d3.flambda, fl * 10 ** (-0.4 * al4 * e1), 1e-8), "dust given by A_V and E(B-V)")
    aw, af = d2.add_dust(a, b, ebv=e1, r_v=rv, wavelen=wl, flambda=fl)
    require(close(af, fl * 10 ** (-0.4 * al * e1), 1e-8) and np.all(fl == fl0), "dust on arrays changes its input")
    # redshift
    z = case["z"]
    r1 = Sed(wavelen=wl, flambda=fl)
    r1.redshift_sed(z, dimming=case["dim"])
    f = 1 + z if z >= 0 else 1 / (1 - z)
    require(close(r1.wavelen, wl * f) and close(r1.flambda, fl / f if case["dim"] else fl), "redshift", z)
    r1.redshift_sed(-z, dimming=case["dim"])
    require(close(r1.wavelen, wl) and close(r1.flambda, fl), "redshift and back")
    # renormalisation at a wavelength
    l0 = wl[0] + (wl[-1] - wl[0]) * case["frac"]
    gap = case["gap"] if wl[0] + 4 < l0 < wl[-1] - 4 else 0
    kw = {"lambdanorm": l0, "normvalue": case["norm"], "gap": gap, "normflux": case["kind"]}
    q = Sed(wavelen=wl, flambda=fl)
    q.renormalize_sed(**kw)
    arr = q.flambda if case["kind"] == "flambda" else q.get_sed_fnu()[1]
    base = fl if case["kind"] == "flambda" else want
    if gap == 0:
        got = np.interp(l0, wl, arr)
        require(abs(got - case["norm"]) < 1e-7 * case["norm"], "value at the normalising wavelength", float(got), case["norm"])
    ratio = arr / base
    require(close(ratio, np.full(len(wl), ratio[0]), 1e-7), "renormalisation changes the shape")
    if gap:
        pts = np.linspace(l0 - gap, l0 + gap, 601)
        require(abs(np.mean(np.interp(pts, wl, arr)) / case["norm"] - 1) < 0.2, "mean around the normalising wavelength")
    new = Sed().renormalize_sed(wavelen=wl, flambda=fl if case["kind"] == "flambda" else None, fnu=None if case["kind"] == "flambda" else want, **kw)
    require(close(new.flambda, q.flambda, 1e-7), "renormalising arrays and SED differ")
    # product of two spectra
    p = s.multiply_sed(Sed(wavelen=wl, flambda=fl))
    require(close(p.flambda, fl * fl), "product")
    require(np.all(wl == wl0) and np.all(fl == fl0), "input arrays changed")
    # monochromatic normalisation at 500 nm
    if wl[0] < 499 and wl[-1] > 501:
        g = get_imsim_flux_norm(Sed(wavelen=wl, flambda=fl), case["mag"])
        v = Sed(wavelen=wl, flambda=fl)
        v.multiply_flux_norm(g)
        m500 = -2.5 * math.log10(np.interp(500.0, wl, v.fnu) / 3631)
        require(abs(m500 - case["mag"]) < 1e-5, "500 nm normalisation", m500, case["mag"])
    return len(set(case["f"])) > 3 and "structured"


# ----------------------------------------------------------------- coverage
@st.composite
def cover_case(draw):
    return {"s": sorted([draw(st.integers(300, 1100)), draw(st.integers(300, 1100))]), "b": sorted([draw(st.integers(320, 1080)), draw(st.integers(320, 1080))]),
            "sstep": draw(st.sampled_from([1.0, 2.5, 7.0])), "bstep": draw(st.sampled_from([1.0, 3.0])), "idx": draw(st.integers(-3, 3)),
            "k": draw(st.integers(1, 40)) / 8}


def cover_test(case):
    s0, s1 = case["s"]
    b0, b1 = case["b"]
    if s1 - s0 < 30 or b1 - b0 < 10:
        return None
    wl = np.arange(s0, s1 + 0.1, case["sstep"])
    fnu = 1e3 * (wl / 600.0) ** case["idx"]
    bw = np.arange(b0, b1 + 0.1, case["bstep"])
    bp = Bandpass(wavelen=bw, sb=np.ones(len(bw)) * 0.5)
    s = Sed(wavelen=wl, fnu=fnu)
    covered = wl[0] - case["sstep"] / 2 <= bw[0] - case["bstep"] / 2 and wl[-1] + case["sstep"] / 2 >= bw[-1] + case["bstep"] / 2
    flux = s.calc_flux(bp)
    if not covered:
        require(np.isnan(flux), "flux where the spectrum does not cover the band", float(flux))
        require(np.isnan(s.calc_mag(bp)), "magnitude where the spectrum does not cover the band")
        return "uncovered"
    grid = np.linspace(bw[0], bw[-1], 20001)
    phi = 1 / grid
    f = 1e3 * (grid / 600.0) ** case["idx"]
    want = np.trapezoid(f * phi, grid) / np.trapezoid(phi, grid)
    require(abs(flux / want - 1) < 0.01, "band flux of a power law", float(flux), want)
    s2 = Sed(wavelen=wl, fnu=fnu * case["k"])
    require(abs(s2.calc_flux(bp) / flux - case["k"]) < 1e-9 * case["k"], "flux is not linear in the spectrum")
    require(np.all(s.wavelen == wl) and np.all(s.fnu == fnu), "computing a flux changes the SED")
    return "covered"


# -------------------------------------------------------------- files, cache
@st.composite
def file_case(draw):
    n = draw(st.integers(2, 30))
    return {"n": n, "w": sorted(draw(st.lists(st.integers(2000, 110000), min_size=n, max_size=n, unique=True))),
            "f": draw(st.lists(st.integers(1, 10 ** 6), min_size=n, max_size=n)), "gz": draw(st.booleans()), "ask_gz": draw(st.booleans()),
            "fnu": draw(st.booleans()), "cache": draw(st.booleans()), "hdr": draw(st.sampled_from([None, "my header\n", "# h"])),
            "name": draw(st.sampled_from([None, "x"]))}


def file_test(case):
    d = tempfile.mkdtemp(prefix="vp_sed_")
    try:
        wl = np.array(case["w"]) / 100.0
        fl = np.array(case["f"]) * 1e-6
        s = Sed(wavelen=wl, flambda=fl)
        p = os.path.join(d, "a.dat")
        s.write_sed(p, print_header=case["hdr"], print_fnu=case["fnu"])
        body = open(p).read()
        if case["fnu"]:
            rows = [[float(x) for x in ln.split()] for ln in body.splitlines() if ln and not ln.startswith("#")]
            require(len(rows) == len(wl), "rows written", len(rows))
            require(np.allclose([r[0] for r in rows], wl) and np.allclose([r[1] for r in rows], fl) and
                    np.allclose([r[2] for r in rows], s.get_sed_fnu()[1]), "columns written")
            # third column would confuse the two-column reader
            body = "".join(" ".join(str(x) for x in r[:2]) + "\n" for r in rows)
        if case["gz"]:
            os.unlink(p)
            gzip.open(p + ".gz", "wt").write(body)
        else:
            open(p, "w").write(body)
        q = p + ".gz" if case["ask_gz"] else p
        t = Sed()
        t.read_sed_flambda(q, name=case["name"], cache_sed=case["cache"])
        require(np.allclose(t.wavelen, wl, atol=0.006) and np.allclose(t.flambda, fl, rtol=1e-6), "spectrum read back")
        require(t.fnu is None and t.name == (case["name"] or q), "name", t.name)
        got = t.flambda.copy()
        # reading again gives the file's spectrum, whatever was done to the first one
        t.wavelen *= 2
        t.flambda *= 0
        r = Sed()
        r.read_sed_flambda(q, cache_sed=case["cache"])
        require(np.all(r.flambda == got) and np.allclose(r.wavelen, wl, atol=0.006), "second read sees changes to the first")
        v = Sed()
        v.read_sed_fnu(q)
        require(np.allclose(v.fnu, fl, rtol=1e-6) and np.allclose(v.flambda, Sed(wavelen=wl, fnu=fl).flambda, rtol=1e-3), "read as fnu")
        # a cleared SED can be used again
        v.clear_sed()
        require(v.wavelen is None and v.flambda is None and v.fnu is None, "clear")
        v.set_sed(wl, flambda=fl, name="n")
        u = Sed(wavelen=wl, flambda=fl, name="n")
        require(v == u and not (v != u), "equality of equal spectra")
        u.flambda[0] *= 1.5
        require(v != u and not (v == u), "equality of different spectra")
        u = Sed(wavelen=wl, flambda=fl, name="m")
        require(v != u, "equality of different names")
        e1, e2 = Sed(), Sed(name=None)
        require(e1 == e2 and e1 != v and v != e1, "empty spectra")
        return ("gz" if case["gz"] != case["ask_gz"] else "plain")
    finally:
        shutil.rmtree(d)


@st.composite
def lib_case(draw):
    n = draw(st.integers(5, 12))
    stars = []
    seen = set()
    for _ in range(n):
        t = (draw(st.integers(14, 40)) * 250, draw(st.sampled_from([-25, -10, -5, 0, 2, 5])), draw(st.integers(0, 10)) * 5)
        if t not in seen:
            seen.add(t)
            stars.append(list(t))
    while len(stars) < 5:
        t = [12000 + 250 * len(stars), 0, 45]
        stars.append(t)
    return {"stars": stars, "gal": draw(st.integers(1, 3)), "q": [draw(st.integers(3000, 11000)), draw(st.integers(-30, 10)) / 10, draw(st.integers(0, 55)) / 10],
            "lim": draw(st.sampled_from([None, [400.0, None], [None, 700.0], [350.0, 800.0]])), "evil": draw(st.booleans())}


class Evil:
    def __reduce__(self):
        return (os.getcwd, ())


def lib_test(case):
    d = tempfile.mkdtemp(prefix="vp_lib_")
    old = os.environ.get("RUBIN_SIM_DATA_DIR")
    try:
        os.environ["RUBIN_SIM_DATA_DIR"] = d
        root = os.path.join(d, "sims_sed_library")
        files = {}

        def put(path, wl, fl):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with gzip.open(path, "wt") as f:
                for a, b in zip(wl, fl):
                    f.write(f"{a} {b}\n")
            files[path] = (wl, fl)

        wl = [300.0, 420.0, 600.0, 750.0, 900.0]
        for i, (t, fe, g) in enumerate(case["stars"]):
            nm = f"k{'m' if fe < 0 else 'p'}{abs(fe):02d}_{t}.fits_g{g:02d}_{t}.gz"
            put(os.path.join(root, "starSED", "kurucz", nm), wl, [float(i + 1 + k) for k in range(5)])
        for i in range(case["gal"]):
            put(os.path.join(root, "galaxySED", f"gal{i}.gz"), wl, [10.0 + i] * 5)
        cdir = os.path.join(d, "cache")
        sedmod._global_lsst_sed_cache = None
        sedmod._global_misc_sed_cache = None
        if hasattr(sedmod.read_close__kurucz, "param_combos"):
            del sedmod.read_close__kurucz.param_combos
        lim = case["lim"] or [None, None]
        for rep in range(2):  # generated, then read from the cache file
            sedmod.cache_lsst_seds(wavelen_min=lim[0], wavelen_max=lim[1], cache_dir=cdir)
            cache = sedmod._global_lsst_sed_cache
            require(cache is not None and set(cache) == set(files), "cached files", rep, None if cache is None else len(cache), len(files))
            for k, (w, f) in files.items():
                keep = [(a, b) for a, b in zip(w, f) if (lim[0] is None or a >= lim[0]) and (lim[1] is None or a <= lim[1])]
                require(list(cache[k][0]) == [a for a, _ in keep] and list(cache[k][1]) == [b for _, b in keep], "cached spectrum", rep)
                s = Sed()
                s.read_sed_flambda(k)
                require(list(s.flambda) == [b for _, b in keep], "spectrum through the cache", rep)
                s.flambda += 1
                require(list(cache[k][1]) == [b for _, b in keep], "cache changed through a spectrum", rep)
        t, fe, g = case["q"]
        s, got = sedmod.read_close__kurucz(t, fe, g)
        cand = [(a, b / 10.0, c / 10.0 if False else float(f"{c:02d}")) for a, b, c in case["stars"]]
        d1 = min(abs(a - t) for a, _, _ in cand)
        cand = [c for c in cand if abs(c[0] - t) == d1]
        d2 = min(abs(c[1] - fe) for c in cand)
        cand = [c for c in cand if abs(abs(c[1] - fe) - d2) < 1e-12]
        d3 = min(abs(c[2] - g) for c in cand)
        cand = [c for c in cand if abs(abs(c[2] - g) - d3) < 1e-12]
        require(any(abs(got["teff"] - c[0]) < 1e-9 and abs(got["fe_h"] - c[1]) < 1e-9 and abs(got["logg"] - c[2]) < 1e-9 for c in cand), "closest model", got, cand)
        # a cache file that would run code is refused
        if case["evil"]:
            with open(os.path.join(cdir, "lsst_sed_cache_3.p"), "wb") as f:
                pickle.dump({"a": Evil()}, f)
            try:
                sedmod.cache_lsst_seds(cache_dir=cdir)
            except RuntimeError as e:
                require("SedUnpickler" in str(e), "refusal", str(e))
            else:
                require(False, "cache file with foreign objects was loaded")
        return "evil" if case["evil"] else ("limited" if case["lim"] else "full")
    finally:
        sedmod._global_lsst_sed_cache = None
        sedmod._global_misc_sed_cache = None
        if old is None:
            os.environ.pop("RUBIN_SIM_DATA_DIR", None)
        else:
            os.environ["RUBIN_SIM_DATA_DIR"] = old
        shutil.rmtree(d)


def teardown():
    fakedata.cleanup()


# ------------------------------------------------------------------ histories: a spectrum with a past is worth the same as a new one
@st.composite
def hist_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["fnu", "sync", "grid", "mag", "z", "dust", "times", "norm", "resample", "setfnu", "setfl", "adu", "flat"]))
        ops.append([k, draw(st.integers(1, 16)), draw(st.booleans()), draw(st.integers(0, 3))])
    return {"f": draw(st.lists(st.integers(1, 400), min_size=30, max_size=30)), "step": draw(st.sampled_from([10.0, 20.0])), "ops": ops, "sb": draw(st.lists(st.integers(0, 8), min_size=12, max_size=12))}


def hist_test(case):
    from rubin_sim.phot_utils import PhotometricParameters

    warnings.simplefilter("ignore")
    pp = PhotometricParameters(bandpass="r")
    wl = 300.0 + case["step"] * np.arange(30)
    fl = np.array(case["f"], float) * 1e-17
    s = Sed(wavelen=wl, flambda=fl)
    bw = np.linspace(430.0, 540.0, 12)
    sb = np.array(case["sb"], float) / 8
    sb[5] = 0.5
    cached = 0
    for k, a, flag, b in case["ops"]:
        had = s.fnu is not None
        if k == "fnu":
            s.flambda_tofnu()
        elif k == "sync":
            s.synchronize_sed()
        elif k in ("grid", "resample"):
            lo, hi, st_ = wl.min() + a, wl.max() - b, 2.0 + b
            f = Sed(wavelen=wl, flambda=fl)
            f.resample_sed(wavelen_min=lo, wavelen_max=hi, wavelen_step=st_, fill=0.0 if k == "resample" else np.nan)
            if k == "grid":
                s.synchronize_sed(wavelen_min=lo, wavelen_max=hi, wavelen_step=st_)
            else:
                s.resample_sed(wavelen_min=lo, wavelen_max=hi, wavelen_step=st_, fill=0.0)
            wl, fl = f.wavelen, f.flambda
        elif k == "mag":
            s.calc_mag(Bandpass(wavelen=bw, sb=sb))
        elif k == "adu":
            s.calc_adu(Bandpass(wavelen=bw, sb=sb), pp)
        elif k == "z":
            z = a / 32
            s.redshift_sed(z, dimming=flag)
            wl, fl = wl * (1 + z), fl / (1 + z) if flag else fl
        elif k == "dust":
            ax, bx = s.setup_ccm_ab()
            s.add_dust(ax, bx, ebv=a / 16, r_v=3.1 + b / 4)
            ab = np.array([ccm(1000.0 / w) for w in wl])
            fl = fl * 10 ** (-0.4 * (ab[:, 0] + ab[:, 1] / (3.1 + b / 4)) * (a / 16) * (3.1 + b / 4))
        elif k == "times":
            s.multiply_flux_norm(a / 4)
            fl = fl * (a / 4)
        elif k == "norm":
            at = float(wl[len(wl) // 2])
            kind = "fnu" if flag else "flambda"
            fn = fl * wl * wl
            y = np.interp(at, wl, fn if flag else fl)
            s.renormalize_sed(lambdanorm=at, normvalue=a * 1e-17 if not flag else a * 1e-17 * 2.5e5 * 1e-9 / C * 1e23, normflux=kind)
            fl = fl * a * 1e-17 * (2.5e5 if flag else 1.0) / y
        elif k == "setfnu":
            fn = np.linspace(a, a + 5, 40)
            wl = np.linspace(320.0, 900.0, 40)
            s.set_sed(wl, fnu=fn)
            fl = fn / (wl * wl * 1e-9 / C * 1e23)
        elif k == "setfl":
            wl = np.linspace(310.0, 910.0, 35)
            fl = np.linspace(a, a + 3, 35) * 1e-17
            s.set_sed(wl, flambda=fl)
        elif k == "flat":
            wl = np.arange(300.0, 1000.0 + 5.0, 5.0)
            s.set_flat_sed(wavelen_min=300.0, wavelen_max=1000.0, wavelen_step=5.0)
            fl = 3631.0 / (wl * wl * 1e-9 / C * 1e23)
        ok = np.isfinite(fl)
        require(len(s.wavelen) == len(wl) and close(s.wavelen, wl), "wavelengths after", k, len(s.wavelen), len(wl))
        require(np.array_equal(np.isfinite(s.flambda), ok) and close(s.flambda[ok], fl[ok], 1e-8), "flux after", k)
        fnu = fl * wl * wl * 1e-9 / C * 1e23
        require(s.fnu is None or close(s.fnu[ok], fnu[ok], 1e-8), "flux per frequency left over from before", k)
        if had and k in ("z", "dust", "grid", "resample", "setfl", "norm", "times"):
            cached += 1
        # measured like a spectrum made from the same values
        q = np.linspace(wl[ok].min() + 5, wl[ok].max() - 5, 12)
        probe = pickle.loads(pickle.dumps(s))
        m1, m2 = probe.calc_mag(Bandpass(wavelen=q, sb=sb)), Sed(wavelen=wl, flambda=fl).calc_mag(Bandpass(wavelen=q, sb=sb))
        require((math.isnan(m1) and math.isnan(m2)) or abs(m1 - m2) < 1e-6, "magnitude after", k, float(m1), float(m2))
        probe = pickle.loads(pickle.dumps(s))
        w2, f2 = probe.get_sed_fnu()
        require(close(f2[ok], fnu[ok], 1e-8), "spectrum per frequency after", k)
        if not ok.all():
            return cached and "history"
    return cached and "history"


def arms():
    return [
        Arm("algebra", sed_case(), sed_test, 700, rule="spectrum with more than three distinct values"),
        Arm("history", hist_case(), hist_test, 300, rule="a spectrum whose frequency fluxes were known was changed"),
        Arm("coverage", cover_case(), cover_test, 400, rule="both ranges long enough"),
        Arm("files", file_case(), file_test, 250, rule="any"),
        Arm("library", lib_case(), lib_test, 60, 600, rule="any"),
    ]
