"""C18: sky maps (dust, 3-D dust, Galactic coordinates, plane priorities, star densities) and what is derived from them."""

import math
import os
import shutil
import tempfile
import warnings

import healpy as hp
import numpy as np
from astropy.io import fits
from hypothesis import strategies as st
from scipy import integrate

from rubin_sim.maf import maps as MP
from rubin_sim.maf import metrics as MX
from rubin_sim.maf import slicers as SL
from rubin_sim.maf.maf_contrib import star_count_mass_metric, star_count_metric, young_stellar_objects_metric
from rubin_sim.maf.maf_contrib.star_counts import coords, starcount, starcount_bymass, stellardensity
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.maps.ebv_3d_hp import ebv_3d_hp, get_x_at_nearest_y
from rubin_sim.maf.maps.ebv_hp import eb_vhp
from rubin_sim.maf.maps.galactic_plane_priority_maps import galplane_priority_map
from rubin_sim.phot_utils import DustValues
from vp import fakedata
from vp.core import Arm, require

ASSUMPTIONS = ["map files do not change on disk while a process is using them",
               "points lie at least 1e-9 rad from a pixel border; the Galactic star map may use the containing or the nearest pixel",
               "the priority map exists at nside 64 only, as documented"]
BUDGET = {"quick": 60, "thorough": 2400}
GENERATED_DIR = None
D3 = [("a.fits", 4, False, 1), ("b.fits", 4, False, 2), ("c.fits", 8, True, 3), ("d.fits", 8, False, 4), ("merged_ebv3d_nside64_defaults.fits", 64, False, 5)]
DATA = {}
# J2000 equatorial -> galactic rotation (Hipparcos, ESA SP-1200 eq. 1.5.11)
ROT = np.array([[-0.0548755604, -0.8734370902, -0.4838350155], [0.4941094279, -0.4448296300, 0.7469822445], [-0.8676661490, -0.1980763734, 0.4559837762]])


def setup():
    """Write every synthetic map once."""
    global GENERATED_DIR
    if GENERATED_DIR is not None and os.path.isdir(GENERATED_DIR):
        return
    root = fakedata.use()
    GENERATED_DIR = os.path.join(root, "vpmaps")
    default = os.path.join(root, "maps", "DustMaps")
    for k, d in enumerate([default, os.path.join(GENERATED_DIR, "p1"), os.path.join(GENERATED_DIR, "p2")]):
        os.makedirs(d)
        for nside in (4, 8, 16):
            m = (np.random.RandomState(100 * k + nside).randint(1, 1000, hp.nside2npix(nside))) / 1000.0
            np.savez(os.path.join(d, f"dust_nside_{nside}.npz"), ebvMap=m)
            DATA["dust", k, nside] = m
    d3 = os.path.join(root, "maps", "DustMaps3D")
    os.makedirs(d3)
    for name, nside, nest, seed in D3:
        r = np.random.RandomState(seed)
        n = hp.nside2npix(nside)
        depth = 4 + seed
        ds = np.cumsum(r.randint(20, 600, (n, depth)), axis=1).astype(float)
        eb = np.cumsum(r.randint(0, 300, (n, depth)) / 1000.0, axis=1)
        DATA["d3", name] = (ds, eb)
        if nest:
            ds, eb = [np.column_stack([hp.reorder(np.ascontiguousarray(a[:, i]), r2n=True) for i in range(depth)]) for a in (ds, eb)]
        h = fits.PrimaryHDU()
        h.header["NSIDE"] = nside
        h.header["NESTED"] = nest
        fits.HDUList([h, fits.ImageHDU(ds), fits.ImageHDU(eb)]).writeto(os.path.join(d3, name))
    gp = [os.path.join(root, "maps", "GalacticPlanePriorityMaps"), os.path.join(GENERATED_DIR, "g1")]
    for k, d in enumerate(gp):
        os.makedirs(d)
        for alt in (0, 1):
            for i, f in enumerate(["u", "g", "r", "i", "z", "y", "sum"]):
                r = np.random.RandomState(1000 + 100 * k + 50 * alt + i)
                cols = {s: r.randint(0, 1000, hp.nside2npix(64)) / 1000.0 for s in ("combined_map", "clementini_map")}
                for s in cols:
                    DATA["gp", k, alt, f, s] = cols[s]
                t = fits.BinTableHDU.from_columns([fits.Column(name=s, format="D", array=cols[s]) for s in cols])
                t.writeto(os.path.join(d, f"priority_GalPlane_footprint_{'alt_' if alt else ''}map_data_{f}.fits"))
    st_dirs = [os.path.join(root, "maps", "StarMaps"), os.path.join(GENERATED_DIR, "s1")]
    for k, d in enumerate(st_dirs):
        os.makedirs(d)
        for f in "ri":
            for kind in ("", "wdstars_"):
                r = np.random.RandomState(2000 + 100 * k + 10 * len(kind) + ord(f))
                nb = 5 + (f == "i")
                m = np.cumsum(r.randint(1, 100, (hp.nside2npix(8), nb)), axis=1).astype(float)
                bins = np.linspace(15, 28, nb + 1)
                np.savez(os.path.join(d, f"starDensity_{f}_{kind}nside_64.npz"), starDensity=m, bins=bins)
                DATA["star", k, f, kind] = (m, bins)
    tri = os.path.join(root, "maps", "TriMaps")
    os.makedirs(tri)
    for nside in (4, 8):
        for f in "ri":
            for ext in ("", "_ext"):
                n = hp.nside2npix(nside)
                m = np.arange(n)[:, None] * np.array([1.0, 2.0, 3.0]) + np.array([1.0, 2.0, 3.0]) * (1 + len(ext) + ord(f))
                bins = np.array([15.0, 18.0, 22.0, 27.0])
                np.savez(os.path.join(tri, f"TRIstarDensity_{f}_nside_{nside}{ext}.npz"), starDensity=m, bins=bins)
                DATA["tri", nside, f, ext] = (m, bins)


# what these functions remember between calls is put back before every case, so a failure replays on its own
_REMEMBER = [(f, dict(vars(f))) for f in (eb_vhp, ebv_3d_hp, galplane_priority_map) if hasattr(f, "__dict__")]


def fresh():
    setup()
    for f, d in _REMEMBER:
        vars(f).clear()
        vars(f).update(d)


def teardown():
    global GENERATED_DIR
    GENERATED_DIR = None
    fakedata.cleanup()


def close(a, b, rtol=1e-9, atol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def sub(*p):
    return os.path.join(GENERATED_DIR, *p)


# --- points -------------------------------------------------------------
point_sets = st.one_of(st.tuples(st.just("user"), st.integers(1, 30), st.integers(0, 10 ** 6)),
                       st.tuples(st.just("hp"), st.sampled_from([4, 8, 16]), st.integers(0, 10 ** 6)),
                       st.tuples(st.just("subset"), st.sampled_from([4, 8, 16]), st.integers(0, 10 ** 6)))


def rand_points(n, seed):
    r = np.random.RandomState(seed)
    ra = r.uniform(0, 2 * np.pi, n)
    dec = np.arcsin(r.uniform(-1, 1, n))
    if n > 2:  # the awkward places
        ra[0], dec[0] = 0.3, np.pi / 2 - 1e-3
        ra[1], dec[1] = 2 * np.pi - 1e-4, -1e-4
        ra[2], dec[2] = 1.0, -np.pi / 2 + 1e-3
    return ra, dec


def slicer_for(p):
    kind, n, seed = p
    if kind == "user":
        ra, dec = rand_points(n, seed)
        s = SL.UserPointsSlicer(np.degrees(ra), np.degrees(dec), lat_lon_deg=True, use_camera=False, verbose=False, badval=np.nan)
        return s, ra, dec, np.arange(n)
    if kind == "hp":
        s = SL.HealpixSlicer(nside=n, use_camera=False, verbose=False, use_cache=False)
        sid = np.arange(hp.nside2npix(n))
    else:
        r = np.random.RandomState(seed)
        sid = np.sort(r.choice(hp.nside2npix(n), size=r.randint(1, 20), replace=False))
        s = SL.HealpixSubsetSlicer(nside=n, hpid=sid, use_camera=False, verbose=False, use_cache=False)
    th, ph = hp.pix2ang(n, np.arange(hp.nside2npix(n)))
    return s, ph, np.pi / 2 - th, sid


def data_for(ra, dec, n=25):
    """Visits aimed at the points, so that slices are not empty."""
    k = np.arange(n) % len(ra)
    d = np.zeros(n, dtype=[("observationStartMJD", float), ("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float), ("band", "<U1"), ("fiveSigmaDepth", float), ("seeingFwhmGeom", float)])
    d["fieldRA"], d["fieldDec"] = np.degrees(ra[k]), np.degrees(dec[k])
    d["observationStartMJD"] = 60000 + np.arange(n)
    d["band"] = "r"
    d["fiveSigmaDepth"] = 24.0
    d["seeingFwhmGeom"] = 0.8
    return d


def interp(m, ra, dec):
    """Bilinear interpolation through the neighbours' own positions and weights."""
    pix, w = hp.get_interp_weights(hp.npix2nside(len(m)), np.pi / 2 - dec, ra)
    return (m[pix] * w).sum(axis=0)


# --- a map configuration: how to build it, and what every point must get ----
def cfg_dust(d):
    return {"kind": "dust", "k": d(st.integers(0, 2)), "nside": d(st.sampled_from([4, 8, 16])), "interp": d(st.booleans())}


def cfg_d3(d):
    return {"kind": "d3", "file": d(st.sampled_from([0, 0, 1, 1, 2, 3, 4])), "nside": d(st.sampled_from([4, 8, 16])), "interp": d(st.booleans()), "full": d(st.booleans()), "dist": d(st.sampled_from([100.0, 500.0, 1500, 3000.0])), "dmag": d(st.sampled_from([8.0, 11.5, 15.2]))}


def cfg_star(d):
    return {"kind": "star", "k": d(st.integers(0, 1)), "f": d(st.sampled_from("ri")), "type": d(st.sampled_from(["allstars", "wdstars"]))}


def cfg_tri(d):
    return {"kind": "tri", "f": d(st.sampled_from("ri")), "nside": d(st.sampled_from([4, 8])), "ext": d(st.booleans())}


def cfg_gal(d):
    return {"kind": "gal"}


def cfg_gp(d):
    return {"kind": "gp", "k": d(st.integers(0, 1)), "interp": d(st.booleans())}


def build(c):
    k = c["kind"]
    if k == "dust":
        return MP.DustMap(nside=c["nside"], interp=c["interp"], map_path=None if c["k"] == 0 else sub(f"p{c['k']}"))
    if k == "d3":
        name = D3[c["file"]][0]
        path = os.path.join(os.environ["RUBIN_SIM_DATA_DIR"], "maps", "DustMaps3D", name) if c["full"] else name
        if c["file"] == 4:
            path = None
        return MP.DustMap3D(nside=64 if c["file"] == 4 else c["nside"], map_file=path, interp=c["interp"], dist_pc=c["dist"], d_mag=c["dmag"])
    if k == "star":
        return MP.StellarDensityMap(startype=c["type"], filtername=c["f"], map_dir=None if c["k"] == 0 else sub("s1"))
    if k == "tri":
        return MP.TrilegalDensityMap(filtername=c["f"], nside=c["nside"], ext=c["ext"])
    if k == "gal":
        return MP.GalCoordsMap()
    return MP.GalacticPlanePriorityMap(interp=c["interp"], nside=64, map_path=None if c["k"] == 0 else sub("g1"))


def want(c, p, ra, dec):
    """Column name -> array (point, ...) expected, or None if this combination is refused."""
    k = c["kind"]
    if k == "dust":
        ns = p[1] if p[0] != "user" else c["nside"]
        m = DATA["dust", c["k"], ns]
        if p[0] != "user":
            return {"ebv": m}
        return {"ebv": interp(m, ra, dec) if c["interp"] else m[hp.ang2pix(ns, np.pi / 2 - dec, ra)]}
    if k == "d3":
        name, mns, _, _ = D3[c["file"]]
        ds, eb = DATA["d3", name]
        if p[0] != "user":
            if p[1] != mns:
                return None
        elif c["interp"]:
            ds, eb = [np.column_stack([interp(a[:, i], ra, dec) for i in range(a.shape[1])]) for a in (ds, eb)]
        else:
            pix = hp.ang2pix(mns, np.pi / 2 - dec, ra)
            ds, eb = ds[pix], eb[pix]
        at = np.array([e[np.argmin(np.abs(d - c["dist"]))] for d, e in zip(ds, eb)])
        out = {"ebv3d_dists": ds, "ebv3d_ebvs": eb, f"ebv3d_ebv_at_{c['dist']:.1f}": at}
        out[f"ebv3d_dist_at_{c['dmag']:.1f}"] = np.array([dist_at(c["dmag"], d, e, "r") for d, e in zip(ds, eb)])
        return out
    if k == "star":
        m, bins = DATA["star", c["k"], c["f"], "" if c["type"] == "allstars" else "wdstars_"]
        return {f"starLumFunc_{c['f']}": m[hp.ang2pix(8, np.pi / 2 - dec, ra)], f"starMapBins_{c['f']}": np.tile(bins, (len(ra), 1))}
    if k == "gal":
        v = ROT @ np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
        return {"galvec": v.T}
    if k == "tri":
        m, bins = DATA["tri", c["nside"], c["f"], "_ext" if c["ext"] else ""]
        v = ROT @ np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
        return {"tri": (m, bins, v.T)}
    if p[0] != "user" and p[1] != 64:
        return None
    out = {}
    for f in ["u", "g", "r", "i", "z", "y", "sum"]:
        for s in ("combined_map", "clementini_map"):
            m = DATA["gp", c["k"], 0, f, s]
            out[f"galplane_priority_{s}:{f}"] = interp(m, ra, dec) if c["interp"] else m[hp.ang2pix(64, np.pi / 2 - dec, ra)]
    return out


RX = None


def dist_at(dmag, d, e, f):
    """Nearest sampled distance with that m - Mo, or beyond the map the distance with the largest reddening."""
    global RX
    if RX is None:
        RX = dict(DustValues().r_x)
    mm = 5 * np.log10(d) - 5 + RX[f] * e
    near = d[np.argmin(np.abs(mm - dmag))]
    return max(near, 10 ** ((dmag - RX[f] * e[-1]) / 5 + 1))


def same_points(c, exp, get, i, where):
    """get(key) is what point i received."""
    for key, v in exp.items():
        if key == "galvec":
            l, b = get("gall"), get("galb")
            g = np.array([np.cos(b) * np.cos(l), np.cos(b) * np.sin(l), np.sin(b)])
            require(np.abs(g - v[i]).max() < 1e-6, "Galactic coordinates of a point", where, i, l, b, v[i])
        elif key == "tri":
            m, bins, vec = v
            ns, f = c["nside"], c["f"]
            got = np.asarray(get(f"starLumFunc_{f}"), float)
            rows = np.where(np.abs(m - got).max(axis=1) < 1e-9)[0] if got.shape == m[0].shape else []
            require(len(rows) == 1, "Galactic star map values are not one row of the map", where, i, got)
            cen = np.array(hp.pix2vec(ns, np.arange(len(m)), nest=True)).T
            dd = cen @ vec[i]
            inside = hp.vec2pix(ns, *vec[i], nest=True)
            require(rows[0] == inside or dd[rows[0]] > dd.max() - 1e-7, "Galactic star map used the wrong place", where, i, rows[0], inside)
            require(close(get(f"starMapBins_{f}"), bins), "magnitude bins of the Galactic star map", where, i)
        else:
            require(close(get(key), v[i], 1e-8), f"{key} at a point", where, i, get(key), v[i])


@st.composite
def history(draw):
    """A sequence of maps run in one process, some of them on the same points."""
    steps = []
    kinds = draw(st.sampled_from([[cfg_dust], [cfg_d3], [cfg_star], [cfg_tri], [cfg_gal], [cfg_gp], [cfg_dust, cfg_d3, cfg_star, cfg_tri, cfg_gal]]))
    for _ in range(draw(st.integers(1, 4))):
        c = draw(st.sampled_from(kinds))(draw)
        p = draw(point_sets)
        if c["kind"] == "gp" or (c["kind"] == "d3" and c["file"] == 4):
            p = ("user", 1 + p[1] % 20, p[2])
        if c["kind"] == "d3" and p[0] != "user" and draw(st.integers(0, 3)):
            p = (p[0], D3[c["file"]][1], p[2])
        if c["kind"] in ("star", "tri") and p[0] == "user" and draw(st.booleans()):  # as many points as magnitude bins
            p = ("user", {"r": 6, "i": 7}[c["f"]] if c["kind"] == "star" else 4, p[2])
        steps.append((c, p))
    return steps


def t_history(steps):
    fresh()
    done = 0
    for c, p in steps:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s, ra, dec, sid = slicer_for(p)
            exp = want(c, p, ra, dec)
            m = build(c)
            before = {k: np.array(v) for k, v in s.slice_points.items()}
            if exp is None:
                try:
                    m.run(s.slice_points)
                except (ValueError, RuntimeError):
                    continue
                require(False, "a map with another resolution was applied to pixel numbers", c, p)
            sp = m.run(s.slice_points)
            require(all(np.array_equal(sp[k], before[k], equal_nan=True) if k not in ("gall", "galb") else True for k in before), "a map changed the points themselves", c, p)
            require(c["kind"] == "gal" or set(m.keynames) <= set(sp), "declared map columns are missing", m.keynames)
            s2, _, _, _ = slicer_for(p)
            s2.setup_slicer(data_for(ra, dec), maps=[build(c)])
        for i in sid if len(sid) < 40 else sid[:: max(1, len(sid) // 30)]:
            point = s2[i]["slice_point"]
            require(point["sid"] == i and abs(point["ra"] - ra[i]) < 1e-9 and abs(point["dec"] - dec[i]) < 1e-9, "slice point identity", p, i)
            same_points(c, exp, lambda k: point[k], i, (c, p))
            done += 1
    return f"{len(steps)} maps" if done > 1 else None


# --- the low-level lookups ----------------------------------------------
@st.composite
def lookups(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        out.append({"f": draw(st.sampled_from(["dust", "d3", "gp"])), "k": draw(st.integers(0, 2)), "file": draw(st.integers(0, 3)), "nside": draw(st.sampled_from([4, 8, 16])), "how": draw(st.sampled_from(["pix", "near", "interp"])),
                    "n": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 10 ** 6)), "alt": draw(st.integers(0, 1))})
    return out


def t_lookups(steps):
    fresh()
    for c in steps:
        ra, dec = rand_points(c["n"], c["seed"])
        r = np.random.RandomState(c["seed"] + 1)
        how = c["how"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["f"] == "dust":
                ns, path = c["nside"], None if c["k"] == 0 else sub(f"p{c['k']}")
                m = DATA["dust", c["k"], ns]
                pix = r.randint(0, len(m), c["n"])
                got = eb_vhp(ns, pixels=pix, map_path=path) if how == "pix" else eb_vhp(ns, ra=ra, dec=dec, interp=how == "interp", map_path=path)
                exp = m[pix] if how == "pix" else interp(m, ra, dec) if how == "interp" else m[hp.ang2pix(ns, np.pi / 2 - dec, ra)]
                require(close(np.atleast_1d(got), exp), "dust lookup", c, got, exp)
            elif c["f"] == "d3":
                name, mns, _, _ = D3[c["file"]]
                ds, eb = DATA["d3", name]
                pix = r.randint(0, len(ds), c["n"])
                if how == "pix":
                    if c["nside"] != mns:
                        try:
                            ebv_3d_hp(c["nside"], map_file=name, pixels=pix)
                        except ValueError:
                            continue
                        require(False, "pixel numbers of another resolution were accepted", c)
                    gd, ge = ebv_3d_hp(mns, map_file=name, pixels=pix)
                    xd, xe = ds[pix], eb[pix]
                else:
                    gd, ge = ebv_3d_hp(c["nside"], map_file=name, ra=ra, dec=dec, interp=how == "interp")
                    if how == "interp":
                        xd, xe = [np.column_stack([interp(a[:, i], ra, dec) for i in range(a.shape[1])]) for a in (ds, eb)]
                    else:
                        pix = hp.ang2pix(mns, np.pi / 2 - dec, ra)
                        xd, xe = ds[pix], eb[pix]
                require(close(gd, xd) and close(ge, xe), "3-D dust lookup", c)
            else:
                k = c["k"] % 2
                path = None if k == 0 else sub("g1")
                pix = r.randint(0, hp.nside2npix(64), c["n"])
                kw = dict(pixels=pix) if how == "pix" else dict(ra=ra, dec=dec, interp=how == "interp")
                got = galplane_priority_map(64, map_path=path, use_alt_maps=bool(c["alt"]), **kw)
                require(set(got) == set(galplane_priority_map(get_keys=True, map_path=path, use_alt_maps=bool(c["alt"]))), "priority map keys")
                for key, v in got.items():
                    s, f = key[len("galplane_priority_"):].split(":")
                    m = DATA["gp", k, c["alt"], f, s]
                    exp = m[pix] if how == "pix" else interp(m, ra, dec) if how == "interp" else m[hp.ang2pix(64, np.pi / 2 - dec, ra)]
                    require(close(np.atleast_1d(v), exp), "priority map lookup", c, key)
                require(len(got) == 14, "number of priority maps", len(got))
    return f"{len(steps)} lookups" if len(steps) > 1 else None


# --- several bundles sharing points but not maps ---------------------------
class VpMapValue(MX.BaseMetric):
    """The map value a metric sees, summed over the map column."""

    def __init__(self, key, **kw):
        self.key = key
        super().__init__(col="observationStartMJD", metric_name="v" + key, **kw)

    def run(self, data_slice, slice_point=None):
        return float(np.sum(slice_point[self.key]))


@st.composite
def groups(draw):
    kind = draw(st.sampled_from([cfg_dust, cfg_star, cfg_star, cfg_d3]))
    p = draw(point_sets)
    p = (p[0], 8 if p[0] != "user" else 3 + p[1] % 12, p[2])
    cfgs = [kind(draw) for _ in range(draw(st.integers(2, 4)))]
    if kind is cfg_d3:
        for c in cfgs:
            c["file"] = 2 + c["file"] % 2
            c["dist"], c["nside"] = 500.0, 8
    return p, cfgs


def t_groups(case):
    fresh()
    p, cfgs = case
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bd, exps = {}, []
        s0, ra, dec, sid = slicer_for(p)
        data = data_for(ra[sid], dec[sid], 2 * len(sid))
        for i, c in enumerate(cfgs):
            s = slicer_for(p)[0]
            key = {"dust": "ebv", "star": f"starLumFunc_{c.get('f')}", "d3": "ebv3d_ebv_at_500.0"}[c["kind"]]
            bd[i] = MetricBundle(VpMapValue(key), s, None, maps_list=[build(c)], run_name=f"r{i}", summary_metrics=[])
            exps.append((want(c, p, ra, dec)[key], key))
        tmp = tempfile.mkdtemp(prefix="vp_c18_")
        try:
            g = MetricBundleGroup(bd, None, out_dir=tmp, save_early=False, results_db=None, verbose=False)
            g.run_current(None, sim_data=data)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    seen = 0
    for i, c in enumerate(cfgs):
        mv = bd[i].metric_values
        exp, key = exps[i]
        for k in sid:
            require(not np.ma.getmaskarray(mv)[k], "a point with visits has no value", i, k)
            e = float(np.sum(exp[k]))
            require(abs(mv[k] - e) <= 1e-7 * max(1, abs(e)), "a metric saw another bundle's map", i, cfgs, k, mv[k], e)
            seen += 1
    return "different maps" if any(c != cfgs[0] for c in cfgs) else None


# --- nearest values and distances along a line of sight ----------------------
@st.composite
def sight(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "k": draw(st.integers(1, 9)), "seed": draw(st.integers(0, 10 ** 6)), "goal": draw(st.integers(1, 8000)) / 1.0, "dmag": draw(st.integers(20, 250)) / 10.0, "f": draw(st.sampled_from("ugrizy")), "scaled": draw(st.booleans())}


def t_sight(c):
    setup()
    r = np.random.RandomState(c["seed"])
    ds = np.cumsum(r.randint(5, 900, (c["n"], c["k"])), axis=1).astype(float)
    eb = np.cumsum(r.randint(0, 500, (c["n"], c["k"])) / 1000.0, axis=1)
    x, y = get_x_at_nearest_y(ds, eb, c["goal"])
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    ex = np.array([d[np.argmin(np.abs(d - c["goal"]))] for d in ds])
    ey = np.array([e[np.argmin(np.abs(d - c["goal"]))] for d, e in zip(ds, eb)])
    require(close(x, ex) and close(y, ey), "nearest values", c, x, ex, y, ey)
    x1, y1 = get_x_at_nearest_y(ds[0], eb[0], c["goal"])
    require(close(x1, ex[0]) and close(y1, ey[0]), "nearest values of one line of sight")
    rx = {f: 0.3 + 0.1 * i for i, f in enumerate("ugrizy")} if c["scaled"] else None
    m = MP.DustMap3D(nside=64, r_x=rx, filtername=c["f"])
    true = rx or dict(DustValues().r_x)
    got = np.atleast_1d(m.distance_at_dmag(c["dmag"], ds, eb, c["f"]))
    got_default = np.atleast_1d(m.distance_at_dmag(c["dmag"], ds, eb))
    beyond = 0
    for i in range(c["n"]):
        mm = 5 * np.log10(ds[i]) - 5 + true[c["f"]] * eb[i]
        near = ds[i][np.argmin(np.abs(mm - c["dmag"]))]
        far = 10 ** ((c["dmag"] - true[c["f"]] * eb[i][-1]) / 5 + 1)
        require(close(got[i], max(near, far), 1e-8), "distance at a magnitude", c, i, got[i], near, far)
        require(close(m.distance_at_dmag(c["dmag"], ds[i], eb[i], c["f"]), got[i], 1e-8), "one line of sight differs from many", c, i)
        if c["dmag"] > mm[-1]:
            beyond += 1
            d = got[i]
            require(abs(5 * math.log10(d) - 5 + true[c["f"]] * eb[i][-1] - c["dmag"]) < 1e-6, "beyond the map the distance modulus does not add up", c, i)
    require(close(got, got_default), "default band")
    return "beyond" if 0 < beyond else "inside"


# --- numbers of stars -----------------------------------------------------
@st.composite
def star_case(draw):
    return {"ra": draw(st.integers(0, 3599)) / 10.0, "dec": draw(st.integers(-899, 899)) / 10.0, "d1": draw(st.integers(10, 2000)) / 1.0, "dd": draw(st.integers(100, 6000)) / 1.0, "band": draw(st.sampled_from("grizy")), "m": draw(st.integers(20, 90)) / 100.0,
            "seed": draw(st.integers(0, 10 ** 6)), "what": draw(st.sampled_from(["count", "mass", "young", "young", "nearby"])), "two_d": draw(st.booleans()), "crowd": draw(st.booleans()), "ret": draw(st.booleans()), "nside": draw(st.sampled_from([4, 8, None])), "blim": draw(st.sampled_from([90.0, 20.0]))}


def density(ra, dec, d):
    v = ROT @ np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])
    R = math.hypot(8000.0 - d * v[0], d * v[1])
    Z = d * v[2]
    disk = lambda L, H, R=R, Z=Z, off=25.0: 0.0364 * math.exp(-R / L - abs(Z + off) / H + 8000.0 / L)
    halo = 0.0364 * 0.001 * (8000.0 / math.sqrt(R * R + (Z / 0.64) ** 2)) ** 2.77
    bulge = 2 * (disk(2150.0, 245.0, 0, 0) + disk(3261.0, 743.0, 0, 0)) * math.exp(-math.hypot(R, Z) / 800)
    return disk(2150.0, 245.0) / 1.1 + 0.1 / 1.1 * disk(3261.0, 743.0) + halo + bulge


def n_stars(ra, dec, d1, d2):
    d = np.linspace(d1 ** 3, d2 ** 3, 51)
    mid = ((d[1:] + d[:-1]) / 2) ** (1 / 3)
    return sum(9.62 / 41253.0 * 4 * math.pi / 3 * (b - a) * density(ra, dec, x) for a, b, x in zip(d[:-1], d[1:], mid))


def t_stars(c):
    setup()
    ra, dec = math.radians(c["ra"]), math.radians(c["dec"])
    d1, d2 = c["d1"], c["d1"] + c["dd"]
    sp = {"ra": ra, "dec": dec, "sid": 0}
    data = np.zeros(1, dtype=[("observationStartMJD", float), ("fieldId", int), ("fieldRA", float), ("fieldDec", float)])
    data["fieldRA"], data["fieldDec"] = ra, dec
    if c["what"] == "count":
        got = star_count_metric.StarCountMetric(d1=d1, d2=d2).run(data, sp)
        exp = n_stars(ra, dec, d1, d2)
        require(abs(got - exp) <= 1e-4 * exp, "stars in a field", c, got, exp)
        return "count"
    if c["what"] == "mass":
        m2 = c["m"] + 0.1
        got = star_count_mass_metric.StarCountMassMetric(m1=c["m"], m2=m2, band=c["band"]).run(data, sp)
        edges = np.linspace(c["m"], m2, 20)
        norm = (0.2 ** -1.35 - 1.04 ** -1.35)
        exp = 0.0
        for a, b in zip(edges[:-1], edges[1:]):
            near, far = starcount_bymass.dist_calc(a, c["band"])
            # faint limit: 0.03 mag error
            depth = 5 * math.log10(far / near)
            err = starcount_bymass.mag_error(16 + depth, c["band"])
            require(abs(err - 0.03) < 1e-6, "the far distance is where the error is 0.03 mag", c, err)
            exp += (a ** -1.35 - b ** -1.35) / norm * n_stars(ra, dec, near, far)
        require(abs(got - exp) <= 1e-4 * abs(exp), "stars of a mass range", c, got, exp)
        return "mass"
    v = ROT @ np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])
    l, b = math.atan2(v[1], v[0]) % (2 * math.pi), math.asin(v[2])
    if c["what"] == "nearby":
        bb, ll = coords.eq_gal3(c["ra"], c["dec"])
        g = np.array([math.cos(math.radians(bb)) * math.cos(math.radians(ll)), math.cos(math.radians(bb)) * math.sin(math.radians(ll)), math.sin(math.radians(bb))])
        require(np.abs(g - v).max() < 1e-5, "Galactic coordinates (degrees in, degrees out)", c, bb, ll)
        R, _, Z = coords.gal_cyn(math.degrees(b), math.degrees(l), d1)
        require(abs(R - math.hypot(8000.0 - d1 * v[0], d1 * v[1])) < 1e-4 and abs(Z - d1 * v[2]) < 1e-4, "Galactocentric cylindrical position", c, R, Z)
        require(abs(stellardensity.stellardensity(R, Z) / density(ra, dec, d1) - 1) < 1e-4, "stellar density", c)
        vol, dist = starcount.star_vols(d1, d2, 9.62)
        require(abs(sum(vol) / (9.62 / 41253.0 * 4 * math.pi / 3 * (d2 ** 3 - d1 ** 3)) - 1) < 1e-9 and dist.min() > d1 and dist.max() < d2, "shells fill the cone", c)
        return "geometry"
    r = np.random.RandomState(c["seed"])
    n = r.randint(3, 20)
    vis = np.zeros(n, dtype=[("band", "<U1"), ("fiveSigmaDepth", float), ("seeingFwhmGeom", float)])
    vis["band"] = r.choice(list("gri"), n)
    vis["band"][:3] = list("gri")
    vis["fiveSigmaDepth"] = r.randint(220, 260, n) / 10.0
    vis["seeingFwhmGeom"] = r.randint(6, 15, n) / 10.0
    mags = {"g": 10.3, "r": 9.3, "i": 8.0}
    snrs = {"g": 5.0, "r": float(r.randint(3, 12)), "i": 5.0}
    ds = np.cumsum(r.randint(20, 900, 8)).astype(float)
    eb = np.cumsum(r.randint(0, 400, 8) / 1000.0)
    sp = {"ra": ra, "dec": dec, "gall": l, "galb": b, "sid": 0, "ebv3d_dists": ds, "ebv3d_ebvs": eb, "ebv": float(eb[-1])}
    if c["nside"]:
        sp["nside"] = c["nside"]
    for f in "gri":
        sp[f"starMapBins_{f}"] = np.linspace(15, 28, 27)
        sp[f"starLumFunc_{f}"] = np.cumsum(np.exp(0.5 * np.arange(26))) * r.uniform(0.01, 3)
    m = young_stellar_objects_metric.NYoungStarsMetric(mags=mags, snrs=snrs, galb_limit=c["blim"], crowding_error=0.25 if c["crowd"] else 0, use_2D_extinction=c["two_d"], return_distance=c["ret"])
    got = m.run(vis, sp)
    if abs(math.degrees(b)) > c["blim"]:
        require(got == m.badval, "young stars outside the latitude limit", c, got)
        return "outside"
    dists = []
    for f in "gri":
        q = vis["band"] == f
        depth = 1.25 * math.log10(np.sum(10 ** (0.8 * vis["fiveSigmaDepth"][q])))
        if c["crowd"]:
            depth = min(depth, MX.CrowdingM5Metric(crowding_error=0.25, filtername=f, maps=[]).run(vis, sp))
        app = depth - 2.5 * math.log10(snrs[f] / 5)
        if c["two_d"]:
            dists.append(10 ** ((app - dict(DustValues().ax1)[f] * sp["ebv"] - mags[f]) / 5 + 1))
        else:
            dists.append(dist_at(app - mags[f], ds, eb, f))
    d = min(dists) / 1000.0
    if c["ret"]:
        require(abs(got - d) <= 1e-7 * d, "distance to which young stars are seen", c, got, d)
        return "young distance"
    A = 8e7 / (4 * math.pi * 0.3 * 2.6 ** 2)
    f = lambda x: A * x * x * math.exp(-x * abs(math.sin(b)) / 0.3 - math.sqrt((8.178 - x * math.cos(l)) ** 2 + (x * math.sin(l)) ** 2) / 2.6)
    grid = np.linspace(0, d, 20001)
    area = 4 * math.pi / (12 * c["nside"] ** 2) if c["nside"] else math.pi * math.radians(1.75) ** 2
    exp = integrate.simpson([f(x) for x in grid[::10]], x=grid[::10]) * area
    require(abs(got - exp) <= 1e-3 * exp + 1e-12, "number of young stars", c, got, exp)
    return "young number"


def arms():
    setup()
    return [
        Arm("history", history(), t_history, quick=200, thorough=6000, rule="1-4 maps run one after another in one process (several files, orders, resolutions, bands) on user points, full and partial healpix grids, read back through the slicer; non-trivial: at least two points checked", setup=setup),
        Arm("lookups", lookups(), t_lookups, quick=300, thorough=8000, rule="1-5 direct lookups in the 2-D, 3-D and priority maps, by pixel, nearest and interpolated, from alternating files; non-trivial: at least two lookups", setup=setup),
        Arm("groups", groups(), t_groups, quick=80, thorough=2000, rule="2-4 bundles with the same slicer and differently configured maps of one kind in one group; non-trivial: the configurations differ", setup=setup),
        Arm("sight", sight(), t_sight, quick=200, thorough=8000, rule="lines of sight, bands and magnitudes; always non-trivial", setup=setup),
        Arm("stars", star_case(), t_stars, quick=200, thorough=5000, rule="star counts by volume, by mass and young stars over positions, distances, bands; always non-trivial", setup=setup),
    ]
