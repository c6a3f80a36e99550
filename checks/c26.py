"""C26: satellite constellations: orbits, visibility, streaks in visits, streak maps and the basis function built on them."""

import importlib
import math
import os
import warnings
from contextlib import contextmanager

import healpy as hp
import numpy as np
from astropy import units as u
from astropy.time import Time
from hypothesis import strategies as st
from rubin_scheduler.utils import Site
from skyfield.api import EarthSatellite, load, wgs84

from vp import fakespk
from vp.core import Arm, require

site_models = importlib.import_module("rubin_scheduler.site_models")
sched_mo = importlib.import_module("rubin_scheduler.scheduler.model_observatory.model_observatory")

ASSUMPTIONS = ["the planetary ephemeris is a synthetic file made from astropy's built-in one; skyfield's propagation of one satellite at one time is taken as given",
               "satellites within 30 km of the edge of the Earth's shadow, or 1e-6 rad of the altitude limit, may be judged either way",
               "streaks within 2 per cent of the edge of the field may be counted or not; lengths to 2 per cent (straight steps, polygonal field)",
               "the observatory's weather, sky and almanac data are stand-ins"]
BUDGET = {"quick": 60, "thorough": 2400}
GM, RE = 3.986004e14, 6378100.0
_S = {}


@contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class StandInAlmanac:
    """Nights of the same length from every noon of the year on."""

    def __init__(self, mjd_start=None, **kw):
        n0 = math.floor(61220.5 - 5)
        k = np.arange(400)
        names = ["night", "sunset", "sun_n12_setting", "sun_n18_setting", "sun_n18_rising", "sun_n12_rising", "sunrise", "moonrise", "moonset"]
        self.sunsets = np.zeros(400, dtype=[(n, int if n == "night" else float) for n in names])
        self.sunsets["night"] = k - 5
        for n, x in zip(names[1:], (0.0, 0.02, 0.04, 0.10, 0.12, 0.14, 0.0, 0.1)):
            self.sunsets[n] = n0 + k + x + 0.01 * (k % 3)

    def mjd_indx(self, mjd):
        return int(np.searchsorted(self.sunsets["sunset"], mjd)) - 1

    def get_sunset_info(self, *a, **k):
        return self.sunsets[self.mjd_indx(a[0])]

    def get_sun_moon_positions(self, mjd):
        return {k: np.array([0.1]) for k in ("moon_phase", "moon_alt", "moon_az", "moon_RA", "moon_dec", "sun_alt", "sun_az", "sun_RA", "sun_dec")}

    def get_planet_positions(self, mjd):
        return {}


class Downtime:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return [{"start": Time(50000.0, format="mjd"), "end": Time(50001.0, format="mjd")}, {"start": Time(50010.0, format="mjd"), "end": Time(50011.0, format="mjd")}]


class Nothing:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return []

    def return_mags(self, mjd, **k):
        return {b: np.zeros(12) for b in "ugrizy"}


def setup():
    d = os.environ["VP_SPK"]
    os.chdir(d)
    site_models.Almanac = sched_mo.Almanac = StandInAlmanac
    sched_mo.SeeingData = lambda *a, **k: sched_mo.ConstantSeeingData()
    sched_mo.CloudData = lambda *a, **k: sched_mo.ConstantCloudData()
    sched_mo.ScheduledDowntimeData = Downtime
    for n in ("UnscheduledDowntimeMoreY1Data", "UnscheduledDowntimeData"):
        if hasattr(sched_mo, n):
            setattr(sched_mo, n, Nothing)
    sched_mo.sb.SkyModelPre = Nothing
    _S["sat"] = importlib.import_module("rubin_sim.satellite_constellations")
    _S["sat"].ModelObservatory.__mro__  # the module is loaded with the stand-ins
    _S["ts"] = load.timescale()
    _S["site"] = wgs84.latlon(*(lambda x: (x.latitude, x.longitude, x.height))(Site(name="LSST")))


# ---------------------------------------------------------------------- orbits
@st.composite
def shells(draw, most=4, tot=400):
    n = draw(st.integers(1, most))
    out = []
    for _ in range(n):
        s = draw(st.sampled_from([1, 1, 2, 3, 5, 8]))
        out.append((draw(st.sampled_from([300.0, 341.5, 550.0, 614.0, 800.0, 1200.0, 2000.0])), draw(st.sampled_from([0.5, 28.25, 33.0, 53.2, 70.0, 87.9, 97.6, 148.0])),
                    draw(st.integers(1, max(1, min(20, tot // s // n)))), s))
    return {"shells": out, "epoch": draw(st.sampled_from([23274.0, 24001.5, 26200.25, 29365.125])), "name": draw(st.sampled_from(["Test", "a", "sat B"])), "seed": draw(st.integers(0, 9))}


def build(c):
    sh = c["shells"]
    kw = {"epoch": c["epoch"], "name": c["name"], "seed": c["seed"]}
    return _S["sat"].create_constellation(np.array([s[0] for s in sh]) * u.km, np.array([s[1] for s in sh]) * u.deg, np.array([s[2] for s in sh]), np.array([s[3] for s in sh]), **kw)


def tle_ok(tle):
    lines = tle.split("\n")
    require(len(lines) == 3, "three lines per satellite", tle)
    for no, line in zip("12", lines[1:]):
        require(len(line) == 69 and line[0] == no and line[1] == " ", "layout of a line", line)
        s = sum(int(x) if x.isdigit() else x == "-" for x in line[:68])
        require(line[68] == str(s % 10), "checksum", line, s % 10)
    require(lines[1][2:7] == lines[2][2:7], "catalogue number", lines)
    return lines


def gap_ok(angles, n, tol=3e-4):
    """Are the angles (degrees) n equally spaced directions?"""
    a = np.sort(np.asarray(angles) % 360.0)
    if len(a) != n:
        return False
    d = np.diff(np.append(a, a[0] + 360.0))
    return np.allclose(d, 360.0 / n, atol=tol)


def judge_shells(tles, sh, epoch, name):
    require(len(tles) == sum(s[2] * s[3] for s in sh), "number of satellites", len(tles), sh)
    nums, names, i = set(), set(), 0
    for alt, inc, n, s in sh:
        a = RE + alt * 1e3
        mm = math.sqrt(GM / a**3) * 86400 / (2 * math.pi)
        part = [tle_ok(x) for x in tles[i:i + n * s]]
        i += n * s
        raan = np.array([float(x[2][17:25]) for x in part])
        ma = np.array([float(x[2][43:51]) for x in part])
        for x in part:
            nums.add(x[1][2:7])
            names.add(x[0])
            require(x[0].startswith(name), "name", x[0], name)
            require(abs(float(x[1][18:32]) - epoch) < 1e-8, "epoch", x[1], epoch)
            require(abs(float(x[2][8:16]) - inc) < 1e-4, "inclination", x[2], inc)
            require(x[2][26:33] == "0001000" or float("0." + x[2][26:33]) <= 0.001, "nearly circular", x[2])
            require(abs(float(x[2][52:63]) - mm) < 2e-6 * mm, "mean motion at the altitude", x[2], mm)
        if s > 1:
            planes = {}
            for r, m in zip(raan, ma):
                planes.setdefault(round(r, 4), []).append(m)
            require(gap_ok(list(planes), n), "planes are equally spaced", sorted(planes), n)
            for r, m in planes.items():
                require(len(m) == s and gap_ok(m, s), "satellites are equally spaced in their plane", r, m)
        elif n > 3:
            require(np.unique(raan).size == n and np.unique(ma).size == n and abs(np.corrcoef(raan, ma)[0, 1]) < 0.9999, "one satellite per plane: random planes", raan, ma)
    require(len(nums) == len(names) == len(tles), "names and numbers are unique", len(nums), len(names), len(tles))


def orbits(c):
    with quiet():
        tles = build(c)
        judge_shells(tles, c["shells"], c["epoch"], c["name"])
        require(build(c) == tles, "same seed, same satellites")
        t = _S["ts"].ut1_jd(2461000.5)
        for k in range(0, len(tles), max(1, len(tles) // 3)):
            n, a, b = tles[k].split("\n")
            EarthSatellite(a, b, n, _S["ts"]).at(t)
    return "several shells" if len(c["shells"]) > 1 else "one shell"


V1 = [(550, 53, 72, 22), (540, 53.2, 72, 22), (570, 70, 36, 20), (560, 97.6, 6, 58), (560, 97.6, 4, 43)]
V2 = [(340, 53, 48, 110), (345, 46, 48, 110), (350, 38, 48, 110), (360, 96.9, 30, 120), (525, 53, 28, 120), (530, 43, 28, 120), (535, 33, 28, 120), (604, 148, 12, 12), (614, 115.7, 18, 18)]
OW = [(1200, 87.9, 49, 36), (1200, 40, 72, 32), (1200, 55, 72, 32)]


def known(c):
    s = _S["sat"]
    with quiet():
        which = c["which"] % 3
        f, sh, nm = [(s.starlink_tles_v1, V1, "starV1"), (s.oneweb_tles, OW, "oneWe"), (s.starlink_tles_v2, V2, "starV2")][which]
        judge_shells(f(), sh, 23274.0, nm)
        lim = s.sun_alt_limits()
        require(set(lim) == {"slv1", "slv2", "oneweb"} and all(-90 < v < -18 for v in lim.values()), "sun altitude limits", lim)
        # a satellite of the highest shell overhead is in shadow once the Sun is below the limit, not much before
        for k, sh in (("slv1", V1), ("oneweb", OW)):
            h = max(x[0] for x in sh) * 1e3
            # lowest Sun for which anything above 20 degrees altitude is still lit: sun - limb geometry
            e = math.radians(20)
            psi = math.pi / 2 - e - math.asin(RE / (RE + h) * math.cos(e))  # angle at the Earth's centre
            dip = math.degrees(math.acos(RE / (RE + h)) + psi)
            require(abs(-lim[k] - dip) < 6, "sun altitude limit against geometry", k, lim[k], dip)
    return nm


# ---------------------------------------------------------------------- positions
def sun_dir(mjd):
    """Direction of the Sun (low-precision formula of the Astronomical Almanac, good to 0.02 degree with the precession since J2000 taken off)."""
    n = mjd - 51544.5
    g = math.radians(357.528 + 0.9856003 * n)
    lam = math.radians(280.460 + 0.9856474 * n + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g) - 3.82e-5 * n)
    e = math.radians(23.439)
    return np.array([math.cos(lam), math.cos(e) * math.sin(lam), math.sin(e) * math.sin(lam)])


def lit(p, mjd):
    """Sunlit?  True, False or None (too close).  p: km."""
    s = sun_dir(mjd)
    along = p @ s
    if along >= 0:
        return True
    across = np.linalg.norm(p - along * s)
    return None if abs(across - 6378.1) < 30 else bool(across > 6378.1)


def where(tle, mjd):
    n, a, b = tle.split("\n")
    t = _S["ts"].ut1_jd(mjd + 2400000.5)
    g = EarthSatellite(a, b, n, _S["ts"]).at(t)
    topo = g - _S["site"].at(t)
    ra, dec, _ = topo.radec()
    alt, az, _ = topo.altaz()
    return ra.radians, dec.radians, alt.radians, az.radians, lit(g.position.km, mjd)


@st.composite
def times(draw, nt=3):
    c = draw(shells(2, 14))
    c["epoch"] = 26200.25
    c["mjds"] = [61220.0 + draw(st.integers(-400, 700)) + draw(st.integers(0, 95)) / 96.0 + 1e-4 for _ in range(draw(st.integers(1, nt)))]
    c["limit"] = draw(st.sampled_from([None, 0.0, 5.0, 35.0, -90.0]))
    return c


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def positions(c):
    with quiet():
        tles = build(c)
        kw = {} if c["limit"] is None else {"alt_limit": c["limit"]}
        con = _S["sat"].Constellation(tles, **kw)
        lim = math.radians(20.0 if c["limit"] is None else c["limit"])
        ra, dec, alt, illum = con.paths_array(np.array(c["mjds"]))
        require(ra.shape == dec.shape == alt.shape == illum.shape == (len(tles), len(c["mjds"])), "shape of the paths", ra.shape)
        up = 0
        for j, mjd in enumerate(c["mjds"]):
            con.update_mjd(mjd)
            vis = set(int(x) for x in con.visible)
            for i, tle in enumerate(tles):
                r, d, al, az, sun = where(tle, mjd)
                require(angdiff(ra[i, j], r) * math.cos(d) < 1e-6 and abs(dec[i, j] - d) < 1e-6 and abs(alt[i, j] - al) < 1e-6, "position of a satellite", i, j, (ra[i, j], dec[i, j], alt[i, j]), (r, d, al))
                if sun is not None:
                    require(bool(illum[i, j]) == sun and bool(con.illum[i]) == sun, "in sunlight", i, j, sun, illum[i, j], con.illum[i])
                sun = bool(con.illum[i])
                if sun:
                    require(abs(con.altitudes_rad[i] - al) < 1e-6 and angdiff(con.azimuth_rad[i], az) * math.cos(al) < 1e-6, "altitude and azimuth", i, con.altitudes_rad[i], al)
                else:
                    require(np.isnan(con.altitudes_rad[i]) and np.isnan(con.azimuth_rad[i]), "no position in the shadow", i)
                if abs(al - lim) > 1e-6:
                    require((i in vis) == (sun and al > lim), "visible satellites", i, vis, sun, al, lim)
                up += i in vis
    return "visible" if up else "none visible"


# ---------------------------------------------------------------------- streaks
@st.composite
def visits(draw):
    c = draw(shells(2, 10))
    c["epoch"] = 26200.25
    c["limit"] = draw(st.sampled_from([None, None, 5.0, 40.0, -90.0]))
    c["fov"] = draw(st.sampled_from([None, None, 0.5, 3.0]))
    c["dt"] = draw(st.sampled_from([None, None, 1.0, 0.5]))
    c["visits"] = [(61220.0 + draw(st.integers(0, 300)) + draw(st.sampled_from([0.0, 0.05, 0.1, 0.2, 0.3, 0.4])), draw(st.integers(0, 99)), draw(st.integers(0, 100)) / 100.0,
                    draw(st.integers(-300, 300)) / 100.0, draw(st.integers(-300, 300)) / 100.0, draw(st.sampled_from([30.0, 30.0, 15.0, 6.0, 2.0, 1.0, 60.0]))) for _ in range(draw(st.integers(1, 4)))]
    c["same"] = draw(st.booleans())
    return c


def tangent(ra, dec, ra0, dec0):
    cosc = np.sin(dec0) * np.sin(dec) + np.cos(dec0) * np.cos(dec) * np.cos(ra - ra0)
    x = np.cos(dec) * np.sin(ra - ra0) / cosc
    y = (np.cos(dec0) * np.sin(dec) - np.sin(dec0) * np.cos(dec) * np.cos(ra - ra0)) / cosc
    x[cosc <= 0] = 1e3
    return x, y


def streaks(c):
    with quiet():
        tles = build(c)
        kw = {} if c["limit"] is None else {"alt_limit": c["limit"]}
        con = _S["sat"].Constellation(tles, **kw)
        lim = math.radians(20.0 if c["limit"] is None else c["limit"])
        sats = [EarthSatellite(*tle.split("\n")[1:], tle.split("\n")[0], _S["ts"]) for tle in tles]
        vis = c["visits"]
        vt = np.array([vis[0][5] if c["same"] else v[5] for v in vis])
        # aim near where some satellite is during the visit
        ras, decs, mjds = [], [], []
        for v, x in zip(vis, vt):
            i = v[1] % len(tles)
            if v[1] % 4:  # go on to a time when some satellite is up
                tt = v[0] + np.arange(200) * 0.004
                t = _S["ts"].ut1_jd(tt + 2400000.5)
                alts = np.array([(a.at(t) - _S["site"].at(t)).altaz()[0].radians for a in sats])
                m = np.where((alts > 0.4).any(axis=0))[0]
                m = [j for j in m if lit(sats[int(np.argmax(alts[:, j]))].at(_S["ts"].ut1_jd(tt[j] + 2400000.5)).position.km, tt[j])][:1]
                if m:
                    i = int(np.argmax(alts[:, m[0]]))
                    v = (tt[m[0]],) + tuple(v[1:])
            r, d, *_ = where(tles[i], v[0] + v[2] * x / 86400.0)
            d = min(max(math.degrees(d) + v[4], -89.5), 89.5)
            ras.append((math.degrees(r) + v[3] / max(0.05, math.cos(math.radians(d)))) % 360.0)
            decs.append(d)
            mjds.append(v[0])
        ras, decs, mjds = np.array(ras), np.array(decs), np.array(mjds)
        kw = {}
        if c["fov"] is not None:
            kw["fov_radius"] = c["fov"]
        if c["dt"] is not None:
            kw["dt"] = c["dt"]
        length, num = con.check_pointings(ras, decs, mjds, float(vt[0]) if c["same"] else vt, **kw)
        require(np.shape(length) == np.shape(num) == ras.shape, "one answer per visit", length, num)
        fov = math.radians(1.75 if c["fov"] is None else c["fov"])
        hit = 0
        for k in range(len(vis)):
            r0, d0 = math.radians(ras[k]), math.radians(decs[k])
            tt = mjds[k] + np.linspace(0, vt[k], 601) / 86400.0
            t = _S["ts"].ut1_jd(tt + 2400000.5)
            lo_n = hi_n = 0
            lo_l = hi_l = 0.0
            for tle, sat in zip(tles, sats):
                a, b = where(tle, tt[0]), where(tle, tt[-1])
                if (max(a[2], b[2]) < lim - 1e-6) or (a[4] is False and b[4] is False):
                    continue
                sure = max(a[2], b[2]) > lim + 1e-6 and (a[4] is True or b[4] is True)
                topo = sat.at(t) - _S["site"].at(t)
                ra, dec, _ = topo.radec()
                x, y = tangent(ra.radians, dec.radians, r0, d0)
                seg = np.hypot(np.diff(x), np.diff(y))
                rad = np.hypot((x[1:] + x[:-1]) / 2, (y[1:] + y[:-1]) / 2)
                inner, outer = seg[rad < fov * 0.995].sum(), seg[rad < fov * 1.003].sum()
                if outer > 0:
                    hi_n += 1
                    hi_l += outer
                    if sure and (rad < fov * 0.98).any():
                        lo_n += 1
                    if sure:
                        lo_l += inner
            hit += lo_n
            require(lo_n <= num[k] <= hi_n, "number of streaks in a visit", k, num[k], lo_n, hi_n)
            lo, hi = math.degrees(lo_l), math.degrees(hi_l)
            slack = 0.04 * (hi_n + 1) * max(math.degrees(fov), 0.1)
            require(lo * 0.98 - slack <= length[k] <= hi * 1.02 + slack * (hi_n > 0), "length of the streaks in a visit", k, length[k], lo, hi)
        # one visit at a time gives the same
        if len(vis) > 1:
            one = con.check_pointings(ras[-1:], decs[-1:], mjds[-1:], vt[-1:], **kw)
            require(int(one[1][0]) == int(num[-1]) and abs(one[0][0] - length[-1]) < 1e-9, "a visit on its own", one, length, num)
    return "streak" if hit else ("near miss" if len(vis) else None)


# ---------------------------------------------------------------------- maps
@st.composite
def obsy(draw):
    c = draw(shells(2, 60))
    c["epoch"] = 26200.25
    c["nside"] = draw(st.sampled_from([4, 8, 32]))
    c["dt"] = draw(st.sampled_from([900.0, 1800.0, 600.0]))
    c["limit"] = draw(st.sampled_from([-80.0, None, 0.0, 15.0]))
    c["steps"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 9)), min_size=1, max_size=3))
    c["mo_nside"] = draw(st.sampled_from([None, 16, 32]))
    return c


def maps(c):
    s = _S["sat"]
    with quiet():
        tles = build(c)
        con = s.Constellation(tles)
        kw = {} if c["limit"] is None else {"alt_limit": c["limit"]}
        if c["mo_nside"]:
            kw["nside"] = c["mo_nside"]
        lim = math.radians(20.0 if c["limit"] is None else c["limit"])
        mo = s.ModelObservatory(mjd_start=61220.5, constellation=con, sat_nside=c["nside"], satellite_dt=c["dt"], **kw)
        alm = StandInAlmanac()
        night, total = 0, 0
        for dn, k in c["steps"]:
            night += dn
            row = alm.sunsets[night + 6]
            mjd = row["sun_n12_setting"] + 0.001 + k * 0.008
            mo.mjd = mjd
            cond = mo.return_conditions()
            require(cond.mjd == mjd, "time of the conditions", cond.mjd, mjd)
            if c["mo_nside"]:
                require(cond.nside == c["mo_nside"], "resolution asked for", cond.nside)
            times_ = np.asarray(cond.satellite_mjds)
            n = int(math.ceil((row["sun_n12_rising"] - row["sun_n12_setting"]) / (c["dt"] / 86400.0) - 1e-9))
            require(len(times_) == n and np.allclose(times_, row["sun_n12_setting"] + np.arange(n) * c["dt"] / 86400.0, atol=1e-8, rtol=0), "times of the maps of the night", times_[:3], len(times_), n)
            got = np.asarray(cond.satellite_maps)
            require(got.shape == (n, hp.nside2npix(c["nside"])), "shape of the maps", got.shape)
            for j in range(0, n, max(1, n // 3)):
                lo, hi = np.zeros(got.shape[1], int), np.zeros(got.shape[1], int)
                for tle in tles:
                    r, d, al, az, sun = where(tle, times_[j])
                    p = hp.ang2pix(c["nside"], math.pi / 2 - d, r)
                    if sun is not False and al > lim - 1e-6:
                        hi[p] += 1
                        if sun and al > lim + 1e-6:
                            lo[p] += 1
                require((got[j] >= lo).all() and (got[j] <= hi).all(), "satellites per pixel", j, got[j].nonzero(), lo.nonzero(), hi.nonzero())
                total += lo.sum()
            bas = s.SatelliteAvoidBasisFunction(nside=4, forecast_time=30.0)
            judge_basis(bas, cond, 4, 30.0, 3.5)
    return "satellites in the maps" if total else "empty maps"


class Cond:
    pass


def judge_basis(b, cond, nside, minutes, fwhm):
    got = b(cond)
    t = np.asarray(cond.satellite_mjds)
    sel = (t >= cond.mjd) & (t < cond.mjd + minutes / 1440.0)
    if not sel.any():
        require(np.all(np.asarray(got) == 0), "nothing forecast", got)
        return False
    m = hp.smoothing(np.asarray(cond.satellite_maps)[sel].sum(axis=0).astype(float), fwhm=math.radians(fwhm))
    want = -np.clip(hp.ud_grade(m, nside), 0, None)
    require(np.allclose(got, want, atol=1e-9), "smoothed number of satellites ahead", got, want)
    return True


@st.composite
def fore(draw):
    n = draw(st.integers(1, 12))
    return {"n": n, "maps": [[draw(st.integers(0, 767)) for _ in range(draw(st.integers(0, 4)))] for _ in range(n)], "at": draw(st.integers(-3, 40)), "minutes": draw(st.sampled_from([None, 1.0, 7.0, 45.0])),
            "fwhm": draw(st.sampled_from([None, 5.0, 20.0])), "nside": draw(st.sampled_from([None, 4, 8, 16]))}


def basis(c):
    k = Cond()
    k.satellite_mjds = 61220.0 + np.arange(c["n"]) * 4 / 1440.0
    k.satellite_maps = np.zeros((c["n"], 768), int)
    for i, p in enumerate(c["maps"]):
        np.add.at(k.satellite_maps[i], p, 1)
    k.mjd = 61220.0 + c["at"] * 1.5 / 1440.0 + 1e-6
    kw = {a: b for a, b in (("forecast_time", c["minutes"]), ("smooth_fwhm", c["fwhm"]), ("nside", c["nside"])) if b is not None}
    with quiet():
        before = k.satellite_maps.copy()
        b = _S["sat"].SatelliteAvoidBasisFunction(**kw)
        b.check_feasibility = lambda *a, **k_: True
        got = judge_basis(b, k, c["nside"] or 32, c["minutes"] or 90.0, c["fwhm"] or 3.5)
        require((k.satellite_maps == before).all(), "the maps are left alone")
    return "ahead" if got else "nothing ahead"


def arms():
    os.environ["VP_SPK"] = fakespk.make()
    return [
        Arm("orbits", shells(), orbits, quick=150, thorough=4000, rule="every constellation is read back from its element lines", setup=setup),
        Arm("known", st.fixed_dictionaries({"which": st.integers(0, 2)}), known, quick=3, thorough=6, rule="the built-in constellations", setup=setup),
        Arm("positions", times(), positions, quick=120, thorough=3000, rule="every satellite at every time against a single propagation", setup=setup),
        Arm("streaks", visits(), streaks, quick=110, thorough=4000, rule="visits aimed near a satellite", setup=setup),
        Arm("streaks2", visits(), streaks, quick=110, thorough=4000, rule="as streaks, another worker", setup=setup),
        Arm("maps", obsy(), maps, quick=40, thorough=500, rule="maps over the nights of an observatory", setup=setup),
        Arm("basis", fore(), basis, quick=150, thorough=3000, rule="maps ahead within the forecast time", setup=setup),
    ]


def teardown():
    fakespk.cleanup()
