"""C20: resampling of spectra and throughput curves."""

import gzip
import math
import os
import pickle
import warnings
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from rubin_sim.phot_utils import Bandpass, PhotometricParameters, Sed
from rubin_sim.phot_utils.bandpass import rubin_bandpasses
from rubin_sim.phot_utils.photometric_parameters import DustValues
from rubin_sim.phot_utils.spectral_resampling import spectres
from vp import fakedata
from vp.core import Arm, require

ASSUMPTIONS = ["a bin of a spectrum extends half-way to its neighbours"]


def grid_edges(w):
    e = [w[0] - (w[1] - w[0]) / 2] + [(a + b) / 2 for a, b in zip(w, w[1:])] + [w[-1] + (w[-1] - w[-2]) / 2]
    return e


@st.composite
def grid(draw, lo, hi, nmin=2, nmax=25):
    if draw(st.booleans()):
        a = draw(st.integers(lo, hi))
        step = draw(st.integers(1, 16)) / 4
        n = draw(st.integers(nmin, nmax))
        return [a + step * i for i in range(n)]
    v = sorted(draw(st.lists(st.integers(lo * 4, hi * 4), min_size=nmin, max_size=nmax, unique=True)))
    return [x / 4 for x in v]


@st.composite
def res_case(draw):
    old = draw(grid(300, 340))
    new = draw(grid(305, 335))
    n = len(old)
    return {"old": old, "new": new, "f": draw(st.lists(st.integers(-8, 40), min_size=n, max_size=n)),
            "e": draw(st.one_of(st.none(), st.lists(st.integers(1, 16), min_size=n, max_size=n))), "fill": draw(st.sampled_from([0.0, -5.0, None])),
            "two": draw(st.booleans()), "k": draw(st.integers(1, 9))}


def res_test(case):
    old, new = case["old"], case["new"]
    f = np.array(case["f"], float)
    e = None if case["e"] is None else np.array(case["e"], float)
    fill = float("nan") if case["fill"] is None else case["fill"]
    oe, ne = grid_edges(old), grid_edges(new)
    o, n = np.array(old), np.array(new)
    f0 = f.copy()
    out = spectres(n, o, f, spec_errs=e, fill=fill, verbose=False)
    got, ge = (out if e is not None else (out, None))
    inside = 0
    for j in range(len(new)):
        if ne[j] < oe[0] or ne[j + 1] > oe[-1]:
            require(np.isnan(got[j]) if case["fill"] is None else got[j] == fill, "outside the spectrum", j, float(got[j]))
            if e is not None:
                require(np.isnan(ge[j]) if case["fill"] is None else ge[j] == fill, "error outside the spectrum", j)
            continue
        inside += 1
        ov = [max(0.0, min(oe[i + 1], ne[j + 1]) - max(oe[i], ne[j])) for i in range(len(old))]
        w = math.fsum(a * b for a, b in zip(ov, f)) / math.fsum(ov)
        require(abs(got[j] - w) < 1e-9 * (1 + abs(w)), "flux in a bin is not conserved", j, float(got[j]), w)
        if e is not None:
            we = math.sqrt(math.fsum((a * b) ** 2 for a, b in zip(ov, e))) / math.fsum(ov)
            require(abs(ge[j] - we) < 1e-9 * (1 + we), "propagated error", j, float(ge[j]), we)
    require(np.all(f == f0), "input changed")
    same = spectres(o, o, f, verbose=False)
    require(np.allclose(same, f, rtol=1e-12, atol=1e-12), "resampling to the same grid")
    two = spectres(n, o, np.vstack([f, f * case["k"]]), fill=fill, verbose=False)
    require(two.shape == (2, len(new)) and np.allclose(two[0], got, equal_nan=True), "stack of spectra")
    # through the SED class
    g = np.abs(f) + 1
    s = Sed(wavelen=o, flambda=g)
    if len(old) > 1:
        w2, f2 = s.resample_sed(o, g, wavelen_match=n)
        ref = spectres(n, o, g, fill=float("nan"), verbose=False) if not (len(o) == len(n) and np.all(o == n)) else g
        require(np.all(w2 == n) and np.allclose(f2, ref, equal_nan=True), "resampled SED")
        s.resample_sed(wavelen_match=n, fill=0.0)
        ref0 = np.nan_to_num(ref, nan=0.0)
        require(np.all(s.wavelen == n) and np.allclose(s.flambda, ref0) and s.fnu is None, "SED resampled in place")
    return inside > 0 and ("inside" if inside == len(new) else "partial")


@st.composite
def sedgrid_case(draw):
    return {"a": [draw(st.integers(300, 330)), draw(st.integers(20, 60)), draw(st.sampled_from([0.5, 1.0, 2.0]))],
            "b": [draw(st.integers(310, 345)), draw(st.integers(20, 60)), draw(st.sampled_from([0.5, 1.0, 2.0]))],
            "step": draw(st.sampled_from([0.5, 1.0])), "c": [draw(st.integers(1, 8)), draw(st.integers(1, 8))], "sl": draw(st.integers(-4, 4)) / 64}


def sedgrid_test(case):
    (a0, n1, s1), (b0, n2, s2) = case["a"], case["b"]
    wa, wb = a0 + s1 * np.arange(n1), b0 + s2 * np.arange(n2)
    fa = case["c"][0] * np.ones(n1)
    fb = case["c"][1] + case["sl"] * (wb - 340)
    A, B = Sed(wavelen=wa, flambda=fa), Sed(wavelen=wb, flambda=fb)
    lo, hi = max(wa[0], wb[0]), min(wa[-1], wb[-1])
    if hi - lo < 4:
        if hi < lo:
            try:
                A.multiply_sed(B, wavelen_step=case["step"])
            except Exception as e:  # noqa: BLE001
                require("overlap" in str(e), "refusal", str(e))
                return "disjoint"
            if not (len(wa) == len(wb) and np.all(wa == wb)):
                require(False, "product of spectra that do not overlap")
        return None
    P = A.multiply_sed(B, wavelen_step=case["step"])
    if len(wa) == len(wb) and np.all(wa == wb):
        require(np.all(P.wavelen == wa), "grid of the product")
    else:
        require(abs(P.wavelen[0] - lo) < 1e-9 and P.wavelen[-1] >= hi - 1e-9 and P.wavelen[-1] < hi + 2 * case["step"], "range of the product",
                P.wavelen[0], P.wavelen[-1], lo, hi)
        require(np.allclose(np.diff(P.wavelen), case["step"]), "step of the product")
    inner = (P.wavelen > lo + 2.5) & (P.wavelen < hi - 2.5)
    want = case["c"][0] * (case["c"][1] + case["sl"] * (P.wavelen - 340))
    # a bin average of a straight line over unequal bins is off by at most slope x step
    tol = case["c"][0] * abs(case["sl"]) * 2.0 + 1e-9
    require(np.all(np.abs(P.flambda - want)[inner] <= tol), "product of spectra", P.flambda[inner][:4], want[inner][:4])
    require(np.all(A.flambda == fa) and np.all(B.flambda == fb), "factors changed")
    # gridded by min, max, step
    A.resample_sed(wavelen_min=lo, wavelen_max=hi, wavelen_step=case["step"], fill=0.0)
    require(abs(A.wavelen[0] - lo) < 1e-9 and A.wavelen[-1] >= hi - 1e-9, "requested grid", A.wavelen[0], A.wavelen[-1])
    ok = (A.wavelen > lo + 1.5) & (A.wavelen < hi - 1.5)
    require(np.allclose(A.flambda[ok], case["c"][0]), "constant spectrum stays constant")
    return "overlap"


@st.composite
def band_case(draw):
    n = draw(st.integers(3, 40))
    return {"w0": draw(st.integers(300, 900)), "step": draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 2.0])), "sb": draw(st.lists(st.integers(0, 64), min_size=n, max_size=n)),
            "perm": draw(st.integers(0, 10 ** 6)), "gz": draw(st.booleans()), "ask_gz": draw(st.booleans()), "com": draw(st.lists(st.sampled_from(["# c", "! x 1 2", "$ 3 4", "", "5"]), max_size=3)),
            "dup": draw(st.booleans()), "hdr": draw(st.sampled_from([None, "header\n", "# head"])), "phi": draw(st.booleans()),
            "other": draw(st.lists(st.integers(0, 64), min_size=n, max_size=n)), "ncomp": draw(st.integers(1, 3)),
            "gain": draw(st.sampled_from([1.0, 2.3])), "exp": draw(st.sampled_from([1.0, 15.0])), "nexp": draw(st.sampled_from([1, 2]))}


def band_test(case):
    n = len(case["sb"])
    wl = case["w0"] + case["step"] * np.arange(n)
    sb = np.array(case["sb"]) / 64.0
    sb[n // 2] = 0.75
    b = Bandpass(wavelen=wl, sb=sb)
    d = tempfile.mkdtemp(prefix="vp_bp_")
    try:
        # phi is normalised and proportional to throughput / wavelength
        b.sb_tophi()
        require(abs(np.trapezoid(b.phi, b.wavelen) - 1) < 1e-9 and np.allclose(b.phi * wl * sb[n // 2], sb * b.phi[n // 2] * wl[n // 2]), "normalised response")
        e1, e2 = b.calc_eff_wavelen()
        require(abs(e2 - math.fsum(wl * sb) / math.fsum(sb)) < 1e-6 and abs(e1 - math.fsum(sb) / math.fsum(sb / wl)) < 1e-6, "effective wavelength", float(e1), float(e2))
        require(wl[0] - 1e-9 <= e1 <= e2 + 1e-9 and e2 <= wl[-1] + 1e-9, "effective wavelengths out of order")
        # file round trip
        p = os.path.join(d, "f.dat")
        b.write_throughput(p, print_header=case["hdr"], write_phi=case["phi"])
        r = Bandpass()
        r.read_throughput(p)
        require(np.allclose(r.wavelen, wl) and np.allclose(r.sb, sb), "throughput file round trip")
        # any order of lines, comments, compressed or not
        rows = [f"{float(w)!r} {float(s)!r}" for w, s in zip(wl, sb)]
        rng = np.random.RandomState(case["perm"])
        rows = [rows[i] for i in rng.permutation(n)]
        if case["dup"]:
            rows.append(f"{float(wl[0])!r} 0.5")
        for c in case["com"]:
            rows.insert(rng.randint(0, len(rows) + 1), c)
        q = os.path.join(d, "g.dat")
        (gzip.open(q + ".gz", "wt") if case["gz"] else open(q, "w")).write("\n".join(rows) + "\n")
        r = Bandpass()
        try:
            r.read_throughput(q + ".gz" if case["ask_gz"] else q)
        except ValueError:
            require(case["dup"], "file with unique wavelengths refused")
        else:
            require(not case["dup"], "file with repeated wavelengths accepted")
            require(np.all(r.wavelen == wl) and np.all(r.sb == sb), "throughput file in any order")
        try:
            Bandpass().read_throughput(os.path.join(d, "missing.dat"))
            require(False, "missing file accepted")
        except OSError:
            pass
        # resampling: linear inside, nothing outside
        lo, hi = wl[0] - 3, wl[-1] + 3
        gw, gs = b.resample_bandpass(wavelen=wl, sb=sb, wavelen_min=lo, wavelen_max=hi, wavelen_step=0.5)
        ref = np.interp(gw, wl, sb, left=0, right=0)
        safe = (np.abs(gw - wl[0]) > 1e-6) & (np.abs(gw - wl[-1]) > 1e-6)
        require(abs(gw[0] - lo) < 1e-9 and abs(gw[-1] - hi) < 0.5 and np.allclose(gs[safe], ref[safe], atol=1e-9), "resampled throughput")
        require(np.all(b.wavelen == wl) and np.all(b.sb == sb), "resampling arrays changed the bandpass")
        # product of components
        ot = np.array(case["other"]) / 64.0
        mw, ms = b.multiply_throughputs(wl, ot)
        require(np.all(mw == wl) and np.allclose(ms, sb * ot), "product of throughputs")
        w2 = wl[0] - 2 * case["step"] + case["step"] * np.arange(n + 4)
        o2 = np.concatenate([[0.3, 0.1], ot, [0.2, 0.9]])
        if case["step"] != 0.1:  # the grid is rebuilt by adding steps: keep it exact
            mw, ms = b.multiply_throughputs(w2, o2)
            require(np.all(mw == wl) and np.allclose(ms, sb * ot, atol=1e-9), "product of throughputs on different grids", ms, sb * ot)
        names = []
        prod = np.ones(n)
        for k in range(case["ncomp"]):
            o = Bandpass(wavelen=wl, sb=np.clip(sb * (k + 1) / 3 + ot / 4, 0, 1))
            o.write_throughput(os.path.join(d, f"c{k}.dat"))
            names.append(f"c{k}.dat")
            prod = prod * np.clip(sb * (k + 1) / 3 + ot / 4, 0, 1)
        t = Bandpass()
        t.read_throughput_list(component_list=names, root_dir=d, wavelen_min=wl[0], wavelen_max=wl[-1], wavelen_step=case["step"])
        require(len(t.wavelen) == n and np.allclose(t.wavelen, wl) and np.allclose(t.sb[1:-1], prod[1:-1], atol=1e-7), "product of component files", len(t.wavelen), n)
        t = Bandpass()
        t.read_throughput([os.path.join(d, x) for x in names])
        g = np.round(t.wavelen * 10) / 10
        require(np.allclose(t.wavelen, g, atol=1e-6) and len(t.wavelen) == 8501, "list of files given to the single-file reader")
        # zeropoint: a source of that magnitude gives one count
        with warnings.catch_warnings():
            pp = PhotometricParameters(exptime=case["exp"], nexp=case["nexp"], gain=case["gain"], bandpass=None)
            zp = b.calc_zp_t(pp)
            f = Sed(wavelen=wl, fnu=np.full(n, 3631.0))
            f.multiply_flux_norm(f.calc_flux_norm(zp, b))
            require(abs(f.calc_adu(b, pp) - 1) < 1e-6, "one count at the zeropoint", float(f.calc_adu(b, pp)))
            # counts: photons/s/cm2 through the response
            want = math.fsum(3631e-23 / (6.626068e-27 * wl) * sb * case["step"]) * pp.effarea * case["exp"] * case["nexp"] / case["gain"]
            require(abs(zp - 2.5 * math.log10(want)) < 2e-3, "zeropoint", float(zp), 2.5 * math.log10(want))
        return "gz" if case["gz"] else "plain"
    finally:
        shutil.rmtree(d)


@st.composite
def dust_case(draw):
    return {"rv": draw(st.sampled_from([3.1, 2.0, 3.0, 5.0])), "ebv": draw(st.sampled_from([1.0, 0.1, 0.5])), "lo": draw(st.integers(320, 900)), "wid": draw(st.integers(20, 150))}


def dust_test(case):
    from checks.c19 import ccm

    wl = np.arange(case["lo"], case["lo"] + case["wid"] + 0.5, 1.0)
    sb = np.minimum(1, np.minimum(wl - wl[0], wl[-1] - wl) / 10.0)
    bp = {"x": Bandpass(wavelen=wl, sb=sb)}
    dv = DustValues(r_v=case["rv"], bandpass_dict=bp, ref_ebv=case["ebv"])
    al = np.array([sum(v * w for v, w in zip(ccm(1000.0 / x), (1, 1 / case["rv"]))) for x in wl]) * case["rv"] * case["ebv"]
    phi = sb / wl
    want = -2.5 * math.log10(np.trapezoid(phi * 10 ** (-0.4 * al), wl) / np.trapezoid(phi, wl))
    require(abs(dv.ax1["x"] - want) < 1e-4 and dv.r_x == dv.ax1, "extinction in a band", dv.ax1, want)
    require(al.min() - 1e-9 <= dv.ax1["x"] <= al.max() + 1e-9, "band extinction outside the range over the band")
    allb = rubin_bandpasses()
    require(list(allb) == list("ugrizy"), "standard bands", list(allb))
    for f in "ugrizy":
        require(np.allclose(allb[f].sb, fakedata.curve(f, allb[f].wavelen), atol=1e-6), "standard band curve", f)
    std = DustValues(r_v=case["rv"], ref_ebv=case["ebv"]).ax1
    require(list(std) == list("ugrizy") and all(std[a] > std[b] for a, b in zip("ugriz", "grizy")), "dust reddens", std)
    return "band"


# ------------------------------------------------------------------ histories of one bandpass
@st.composite
def bhist_case(draw):
    ops = [[draw(st.sampled_from(["phi", "resample", "set", "imsim", "mag", "eff", "zp", "phiarray", "read"])), draw(st.integers(0, 40)), draw(st.integers(0, 3))] for _ in range(draw(st.integers(1, 6)))]
    return {"ops": ops, "sb": draw(st.lists(st.integers(1, 64), min_size=20, max_size=20))}


def bhist_test(case):
    warnings.simplefilter("ignore")
    src = Sed(wavelen=np.arange(200.0, 1500.0, 2.0), flambda=1e-17 * (1 + np.arange(650) / 100.0))
    wl = 450.0 + 5.0 * np.arange(20)
    sb = np.array(case["sb"]) / 64.0
    b = Bandpass(wavelen=wl, sb=sb)
    known = 0
    d = tempfile.mkdtemp(prefix="vp_bh_")
    try:
        for k, a, c in case["ops"]:
            had = b.phi is not None
            if k == "phi":
                b.sb_tophi()
            elif k == "resample":
                lo, hi, step = max(wl.min(), 300.0) - 5 + a, wl.max() + 5 * c, 1.0 + c
                if hi - lo < 4 * step:
                    continue
                b.resample_bandpass(wavelen_min=lo, wavelen_max=hi, wavelen_step=step)
                g = np.arange(lo, hi + step / 2, step)
                wl, sb = g, np.interp(g, wl, sb, left=0.0, right=0.0)
            elif k == "set":
                wl = 500.0 + 4.0 * np.arange(15) + a
                sb = np.linspace(0.2, 0.9, 15)
                b.set_bandpass(wl, sb)
            elif k == "imsim":
                wl = np.arange(480.0, 521.0, 1.0)
                sb = np.where(np.abs(wl - (500.0 + c)) < 0.5, 1.0, 0.0)
                b.imsim_bandpass(imsimwavelen=500.0 + c, wavelen_min=480.0, wavelen_max=520.0, wavelen_step=1.0)
            elif k == "read":
                wl = 600.0 + 2.0 * np.arange(12) + a
                sb = np.linspace(0.8, 0.1, 12)
                np.savetxt(os.path.join(d, "t.dat"), np.column_stack([wl, sb]), fmt="%.17g")
                b.read_throughput(os.path.join(d, "t.dat"))
            elif k == "mag":
                src.calc_mag(b)
            elif k == "eff":
                b.calc_eff_wavelen()
            elif k == "zp":
                b.calc_zp_t(PhotometricParameters(gain=1.0, exptime=30.0, nexp=1, effarea=1e5))
            elif k == "phiarray":
                a = a if wl[0] - a * (wl[1] - wl[0]) > 250.0 else 0
                other = Bandpass(wavelen=wl[0] + (wl[1] - wl[0]) * np.arange(-a, len(wl) + c), sb=np.full(len(wl) + a + c, 0.5))
                arr, step = src.setup_phi_array([b, other])
                g = b.wavelen.copy()
                require(abs(g[0] - (wl[0] - a * (wl[1] - wl[0]))) < 1e-6 and g[-1] >= wl[-1] - 1e-6, "joint grid", g[0], wl[0])
                wl, sb = g, np.interp(g, wl, sb, left=0.0, right=0.0)
                w = sb / wl
                require(np.allclose(arr[0], w / np.trapezoid(w, wl), atol=1e-7), "normalised responses")
            require(len(b.wavelen) == len(wl) and np.allclose(b.wavelen, wl), "wavelengths after", k, len(b.wavelen), len(wl))
            require(np.allclose(b.sb, sb, atol=1e-6), "throughput after", k)
            if not np.trapezoid(sb, wl) > 0:
                return None
            w = sb / wl
            phi = w / np.trapezoid(w, wl)
            require(b.phi is None or (len(b.phi) == len(wl) and np.allclose(b.phi, phi, rtol=1e-5, atol=1e-9)), "normalised response left over from before", k)
            known += had and k in ("resample", "set", "imsim", "read", "phiarray")
            probe, new = pickle.loads(pickle.dumps(b)), Bandpass(wavelen=wl, sb=sb)
            m1, m2 = src.calc_mag(probe), src.calc_mag(new)
            require((math.isnan(m1) and math.isnan(m2)) or abs(m1 - m2) < 1e-4, "magnitude after", k, float(m1), float(m2))
            probe = pickle.loads(pickle.dumps(b))
            e, f = probe.calc_eff_wavelen(), new.calc_eff_wavelen()
            require(np.allclose(e, f, rtol=1e-5), "effective wavelength after", k, e, f)
    finally:
        shutil.rmtree(d)
    return known and "history"


def teardown():
    fakedata.cleanup()


def arms():
    fakedata.use()
    return [
        Arm("resample", res_case(), res_test, 1200, rule="some new bin lies inside the spectrum"),
        Arm("product", sedgrid_case(), sedgrid_test, 300, rule="overlap of 4 nm, or disjoint"),
        Arm("bandpass", band_case(), band_test, 250, rule="any"),
        Arm("history", bhist_case(), bhist_test, 300, rule="a bandpass whose normalised response was known was changed"),
        Arm("dust", dust_case(), dust_test, 60, rule="any"),
    ]
