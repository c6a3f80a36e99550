"""C02: sky-position slicers give each sky point exactly the visits that cover it."""

import os
import shutil
import tempfile

import healpy as hp
import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.maps as maps
import rubin_sim.maf.slicers as slicers
from vp.core import Arm, Reject, require
from vp.gen import to_rec

ASSUMPTIONS = [
    "visits within 1e-7 rad of the search radius (or of a camera-map cell edge) are not judged",
    "the camera map is a synthetic file handed to the slicer: the real one is not in the sandbox",
]

_dir = None


def setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix="c02_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


class _TagMap(maps.BaseMap):
    def __init__(self):
        self.keynames = ["tagval", "edges"]

    def run(self, sp):
        sp["tagval"] = np.asarray(sp["sid"]) * 10.0 + 1
        sp["edges"] = np.arange(5)  # not one value per slice: handed on whole
        return sp


def sky_point(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return [draw(st.sampled_from([0.0, 0.3, 359.7, 360.0, -0.5, 180.0])), draw(st.floats(-90, 90))]
    if k == 1:
        return [draw(st.floats(0, 360)), draw(st.sampled_from([90.0, -90.0, 89.0, -89.5, 0.0]))]
    return [draw(st.floats(0, 360)), draw(st.floats(-90, 90))]


def vec(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def sep(ra1, dec1, ra2, dec2):
    """Great-circle separation in degrees (atan2 form, unlike the chord used by the code)."""
    a, b = vec(ra1, dec1), vec(ra2, dec2)
    a = np.broadcast_to(a.reshape(3, -1), (3, max(a.size, b.size) // 3))
    b = np.broadcast_to(b.reshape(3, -1), a.shape)
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(a.T, b.T), axis=1), np.sum(a * b, axis=0)))


def near(draw, base):
    """A point close to a base point (within a few degrees), possibly across RA 0 or a pole."""
    ra, dec = base
    dec2 = min(90.0, max(-90.0, dec + draw(st.floats(-4, 4))))
    c = max(0.02, np.cos(np.radians(dec2)))
    ra2 = ra + draw(st.floats(-4, 4)) / c
    if draw(st.booleans()) or abs(ra2) > 360.0:
        ra2 = ra2 % 360.0
    return [float(ra2), float(dec2)]


@st.composite
def spatial_case(draw, kind):
    case = {"kind": kind, "radius": draw(st.sampled_from([0.2, 1.0, 1.75, 2.45, 3.5, 10.0, 40.0])),
            "deg": draw(st.booleans()), "leaf": draw(st.sampled_from([1, 2, 100])),
            "cols": draw(st.booleans())}
    n = draw(st.integers(1, 25))
    if kind == "user":
        m = draw(st.integers(1, 12))
        pts = [sky_point(draw) for _ in range(m)]
        case["pts"] = pts
        case["scalar"] = m == 1 and draw(st.booleans())
    else:
        nside = draw(st.sampled_from([1, 2, 4, 8]))
        case["nside"] = nside
        npix = hp.nside2npix(nside)
        ids = draw(st.lists(st.integers(0, npix - 1), min_size=1, max_size=10, unique=True))
        if kind == "subset":
            case["hpid"] = ids
        pts = []
        for i in ids:
            lon, lat = hp.pix2ang(nside, i, lonlat=True)
            pts.append([float(lon), float(lat)])
        case["cache"] = draw(st.booleans())
    vis = []
    for _ in range(n):
        if draw(st.integers(0, 3)) == 0:
            vis.append(sky_point(draw))
        else:
            vis.append(near(draw, pts[draw(st.integers(0, len(pts) - 1))]))
    case["vis"] = vis
    return case


def make(case, **extra):
    lon, lat = ("myra", "mydec") if case["cols"] else ("fieldRA", "fieldDec")
    kw = dict(lon_col=lon, lat_col=lat, lat_lon_deg=case["deg"], leafsize=case["leaf"], radius=case["radius"],
              verbose=False, use_camera=False)
    kw.update(extra)
    if case["kind"] == "user":
        ra = [p[0] for p in case["pts"]]
        dec = [p[1] for p in case["pts"]]
        if case["scalar"]:
            ra, dec = ra[0], dec[0]
        return slicers.UserPointsSlicer(ra, dec, **kw)
    if case["kind"] == "subset":
        return slicers.HealpixSubsetSlicer(case["nside"], np.array(case["hpid"]), use_cache=case["cache"], **kw)
    return slicers.HealpixSlicer(nside=case["nside"], use_cache=case["cache"], **kw)


def visits(case, rot=None):
    ra = np.array([v[0] for v in case["vis"]])
    dec = np.array([v[1] for v in case["vis"]])
    f = (lambda x: x) if case["deg"] else np.radians
    lon, lat = ("myra", "mydec") if case["cols"] else ("fieldRA", "fieldDec")
    d = {"n": list(range(len(ra))), lat: f(dec).tolist(), lon: f(ra).tolist(),
         "rotSkyPos": f(np.array(rot if rot is not None else [0.0] * len(ra))).tolist()}
    if case["cols"]:
        # decoys under the default names
        d["fieldRA"] = [1.0] * len(ra)
        d["fieldDec"] = [1.0] * len(ra)
    return to_rec(d), ra, dec


# galactic coordinates, J2000 definition, written out
_GNP_RA, _GNP_DEC, _L_NCP = np.radians(192.85948), np.radians(27.12825), np.radians(122.93192)


def galactic(ra, dec):
    sb = np.sin(dec) * np.sin(_GNP_DEC) + np.cos(dec) * np.cos(_GNP_DEC) * np.cos(ra - _GNP_RA)
    b = np.arcsin(np.clip(sb, -1, 1))
    y = np.cos(dec) * np.sin(ra - _GNP_RA)
    x = np.sin(dec) * np.cos(_GNP_DEC) - np.cos(dec) * np.sin(_GNP_DEC) * np.cos(ra - _GNP_RA)
    return (_L_NCP - np.arctan2(y, x)) % (2 * np.pi), b


def ids_of(sl, n):
    a = np.asarray(sl["idxs"])
    out = sorted(np.atleast_1d(a).ravel().astype(int).tolist())
    require(len(out) == len(set(out)) and all(0 <= i < n for i in out), "bad visit list", out)
    return out


def spatial_test(case):
    s = make(case)
    data, ra, dec = visits(case)
    n = len(ra)
    s.setup_slicer(data, maps=[_TagMap()])
    sp = s.get_slice_points()
    if case["kind"] == "user":
        pra = np.array([p[0] for p in case["pts"]])
        pdec = np.array([p[1] for p in case["pts"]])
        want_sids = list(range(len(pra)))
    else:
        npix = 12 * case["nside"] ** 2
        pra, pdec = hp.pix2ang(case["nside"], np.arange(npix), lonlat=True)
        want_sids = case["hpid"] if case["kind"] == "subset" else list(range(npix))
    require(len(s) == len(pra) == len(sp["ra"]), "number of sky points", len(s))
    require(np.allclose(vec(np.degrees(sp["ra"]), np.degrees(sp["dec"])), vec(pra, pdec), atol=1e-9), "sky positions")
    gl, gb = galactic(sp["ra"], sp["dec"])
    require(np.allclose(vec(np.degrees(sp["gall"]), np.degrees(sp["galb"])), vec(np.degrees(gl), np.degrees(gb)),
                        atol=1e-5), "galactic coordinates of the sky points")
    nz = 0
    got_sids = []
    for sl in s:
        p = sl["slice_point"]
        i = int(p["sid"])
        got_sids.append(i)
        d = sep(pra[i], pdec[i], ra, dec)
        amb = np.abs(d - case["radius"]) < 1e-5
        got = ids_of(sl, n)
        want = np.where(d <= case["radius"])[0].tolist()
        bad = [k for k in set(got) ^ set(want) if not amb[k]]
        require(not bad, "sky point", i, [pra[i], pdec[i]], "radius", case["radius"], "got", got, "want", want)
        require(p["ra"] == sp["ra"][i] and p["dec"] == sp["dec"][i] and p["tagval"] == 10.0 * i + 1
                and p["galb"] == sp["galb"][i], "slice point is not its own")
        if s.nslice != 5:
            require(np.array_equal(p["edges"], np.arange(5)), "per-run map value")
        if case["kind"] != "user":
            require(p["nside"] == case["nside"], "nside")
        require(ids_of(s[i], n) == got, "indexing differs from iterating")
        nz += bool(got)
    require(got_sids == want_sids, "sky points visited", got_sids, want_sids)
    if case["kind"] == "subset":
        out = sorted(set(range(len(pra))) - set(want_sids))
        for i in out[:5] + out[-5:]:
            require(len(s[i]["idxs"]) == 0, "a pixel outside the subset holds visits", i)
        m = np.ones(len(pra), bool)
        m[want_sids] = False
        require(np.array_equal(s.mask, m), "mask of the subset")
    return case["kind"] if nz else None


# ------------------------------------------------------------- camera
@st.composite
def camera_case(draw):
    kind = draw(st.sampled_from(["user", "healpix", "subset"]))
    case = draw(spatial_case(kind))
    case["radius"] = draw(st.sampled_from([2.45, 3.5]))
    npx = 9
    case["image"] = [[draw(st.booleans()) for _ in range(npx)] for _ in range(npx)]
    case["rot"] = [draw(st.sampled_from([0.0, 10.0, 45.0, 90.0, 200.0, -30.0, 359.0])) for _ in case["vis"]]
    case["camera_radius"] = draw(st.sampled_from([1.0, 1.94, 5.0]))
    return case


def camera_test(case):
    img = np.array(case["image"], bool)
    npx = len(img)
    x = np.linspace(-2.0, 2.0, npx)
    path = os.path.join(_dir, "fov.npz")
    np.savez(path, image=img, x=x)
    s = make(case, use_camera=True, camera_footprint_file=path, camera_radius=case["camera_radius"])
    data, ra, dec = visits(case, case["rot"])
    n = len(ra)
    s.setup_slicer(data)
    sp = s.get_slice_points()
    use = img.copy()
    for a in range(npx):
        for b in range(npx):
            if np.hypot(x[a], x[b]) > case["camera_radius"]:
                use[a, b] = False
    cell = x[1] - x[0]
    nz = 0
    for sl in s:
        i = int(sl["slice_point"]["sid"])
        pr, pd = np.degrees(sp["ra"][i]), np.degrees(sp["dec"][i])
        d = sep(pr, pd, ra, dec)
        got = set(ids_of(sl, n))
        for k in range(n):
            if abs(d[k] - case["radius"]) < 1e-5:
                continue
            # tangent-plane position of the point, boresight at the origin
            b = vec(ra[k], dec[k])
            p = vec(pr, pd)
            r0 = np.radians(ra[k])
            east = np.array([-np.sin(r0), np.cos(r0), 0.0])
            north = np.cross(b, east)
            u = p @ b
            want = False
            if d[k] <= case["radius"]:
                xx, yy = np.degrees((p @ east) / u), np.degrees((p @ north) / u)
                rr = np.radians(case["rot"][k])
                xr = np.cos(rr) * xx - np.sin(rr) * yy
                yr = np.sin(rr) * xx + np.cos(rr) * yy
                fx, fy = (xr - x[0]) / cell, (yr - x[0]) / cell
                if min(abs(fx % 1 - 0.5), abs(fy % 1 - 0.5)) < 1e-5:
                    continue
                ix, iy = int(np.round(fx)), int(np.round(fy))
                want = 0 <= ix < npx and 0 <= iy < npx and bool(use[ix, iy])
            require((k in got) == want, "visit", k, "at sky point", [pr, pd], "boresight", [ra[k], dec[k]],
                    "rotation", case["rot"][k], "in slice:", k in got, "on the camera map:", want)
            nz += want
    return "camera-" + case["kind"] if nz else None


# ------------------------------------------------------------- circle
@st.composite
def circle_case(draw):
    p = sky_point(draw)
    return {"ra": p[0] % 360, "dec": p[1], "radius": draw(st.sampled_from([0.5, 3.0, 10.0, 60.0])),
            "nside": draw(st.sampled_from([4, 8, 16]))}


def circle_test(case):
    s, _ = slicers.make_circle_subset_slicer(case["ra"], case["dec"], radius=case["radius"], nside=case["nside"])
    npix = 12 * case["nside"] ** 2
    pra, pdec = hp.pix2ang(case["nside"], np.arange(npix), lonlat=True)
    d = sep(case["ra"], case["dec"], pra, pdec)
    got = set(np.asarray(s.hpid).tolist())
    bad = [i for i in range(npix) if ((d[i] <= case["radius"]) != (i in got)) and abs(d[i] - case["radius"]) > 1e-5]
    require(not bad, "circle membership", bad[:5])
    return "circle" if got else None


# ------------------------------------------------------------- equality
@st.composite
def eq_case(draw):
    base = draw(spatial_case(draw(st.sampled_from(["healpix", "subset", "user"]))))
    base["deg"] = True
    if base["kind"] == "user":
        base["scalar"] = False
    diff = draw(st.lists(st.sampled_from(["radius", "deg", "cols", "nside", "hpid", "pts", "none"]), min_size=1, max_size=2))
    return {"base": base, "diff": diff}


def eq_test(case):
    a = case["base"]
    b = dict(a)
    for d in case["diff"]:
        if d == "radius":
            b["radius"] = a["radius"] * 1.5
        elif d == "deg":
            b["deg"] = not a["deg"]
        elif d == "cols":
            b["cols"] = not a["cols"]
        elif d == "nside" and "nside" in a and a["kind"] == "healpix":
            b["nside"] = a["nside"] * 2
        elif d == "hpid" and "hpid" in a:
            npix = 12 * a["nside"] ** 2
            b["hpid"] = [(i + 1) % npix for i in a["hpid"]]
        elif d == "pts" and "pts" in a:
            b["pts"] = [[p[0] + 1.0, p[1] * 0.5] for p in a["pts"]]
    if "deg" in case["diff"]:
        # values that are legal in degrees and in radians
        a = dict(a, vis=[[v[0] % 6.0, v[1] % 1.5] for v in a["vis"]])
    s1, s1b, s2 = make(a), make(a), make(b)
    require(s1 == s1b and not (s1 != s1b), "identically specified slicers differ")
    # one table holding both sets of columns
    data, ra, dec = visits(dict(a, cols=True))
    if "cols" in case["diff"] and len(data) > 0:
        data["fieldRA"] = ra
        data["fieldDec"] = dec
        data["myra"] = ra[::-1]
    eq = bool(s1 == s2)
    require(eq == bool(s2 == s1) and eq != bool(s1 != s2), "equality not symmetric")
    for s in (s1, s2):
        s.setup_slicer(data)
    require(bool(s1 == s2) == eq, "equality changed by setup")
    if eq:
        require(len(s1) == len(s2), "lengths")
        for x, y in zip(s1, s2):
            require(x["slice_point"]["sid"] == y["slice_point"]["sid"], "points")
            require(ids_of(x, len(data)) == ids_of(y, len(data)), "slicers that compare equal slice differently",
                    case["diff"])
        return "equal"
    return "unequal"


def arms():
    r = "sky points incl. RA wrap and poles, visits mostly near a sky point; non-trivial: some sky point has a visit"
    return [
        Arm("healpix", spatial_case("healpix"), spatial_test, 150, rule=r),
        Arm("subset", spatial_case("subset"), spatial_test, 250, rule=r),
        Arm("user", spatial_case("user"), spatial_test, 300, rule=r),
        Arm("camera", camera_case(), camera_test, 200, rule="random 9x9 camera maps and rotations; non-trivial: some "
            "visit on the map", setup=setup),
        Arm("circle", circle_case(), circle_test, 150, rule="non-trivial: circle holds a pixel"),
        Arm("equality", eq_case(), eq_test, 200, rule="pairs of slicers differing in 0-2 settings"),
    ]
