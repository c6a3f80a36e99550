"""C25: self-calibration: simulated star catalogues and the zeropoint solver."""

import math
import os
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf  # noqa: F401
from rubin_sim.selfcal import BaseOffset, LsqrSolver, NoOffset, OffsetSNR, assign_patches, generate_catalog, stars_project
from vp.core import Arm, require

ASSUMPTIONS = ["the number of patches is a square number", "stars within 1e-9 of the edge of the field or of a patch are not generated on purpose and may go to either side",
               "the solver is judged where every remaining patch and star is linked to others (its answer is then unique up to one constant per linked group)"]
BUDGET = {"quick": 60, "thorough": 2400}


class Shift(BaseOffset):
    """A known offset."""

    def __init__(self, key, a, b):
        self.newkey, self.a, self.b = key, a, b

    def __call__(self, stars, visit, **kwargs):
        self.seen = kwargs.get("dmags")
        return self.a * visit["observationId"] + self.b * stars["x"]


@st.composite
def cat(draw):
    return {"seed": draw(st.integers(0, 10**6)), "nstar": draw(st.integers(1, 60)), "nvisit": draw(st.integers(1, 5)), "ra": draw(st.sampled_from([0.0, 359.5, 123.0])), "dec": draw(st.sampled_from([0.0, -45.0, 88.0, -89.0])),
            "patches": draw(st.sampled_from([None, 1, 4, 9, 16, 25])), "fov": draw(st.sampled_from([None, 0.9, 1.8, 2.5])), "filt": draw(st.sampled_from([None, "r", "g"])), "floor": draw(st.sampled_from([None, 0.0, 0.02])),
            "offsets": draw(st.lists(st.sampled_from(["a", "b", "snr", "none"]), min_size=1, max_size=3, unique=True)), "rs": draw(st.sampled_from([None, 7])), "obs0": draw(st.integers(0, 1000))}


def sphere(ra1, de1, ra2, de2):
    a = np.array([math.cos(de1) * math.cos(ra1), math.cos(de1) * math.sin(ra1), math.sin(de1)])
    b = np.array([math.cos(de2) * math.cos(ra2), math.cos(de2) * math.sin(ra2), math.sin(de2)])
    return math.atan2(np.linalg.norm(np.cross(a, b)), a @ b)


def tangent(ra, dec, ra0, dec0):
    c = math.sin(dec0) * math.sin(dec) + math.cos(dec0) * math.cos(dec) * math.cos(ra - ra0)
    return math.cos(dec) * math.sin(ra - ra0) / c, (math.cos(dec0) * math.sin(dec) - math.sin(dec0) * math.cos(dec) * math.cos(ra - ra0)) / c


def tables(c):
    r = np.random.RandomState(c["seed"])
    n, k = c["nstar"], c["nvisit"]
    stars = np.zeros(n, dtype=[("id", int), ("ra", float), ("decl", float), ("rmag", float), ("gmag", float)])
    stars["id"] = r.permutation(n) * 3 + 11
    de = np.clip(c["dec"] + r.uniform(-3, 3, n), -89.9, 89.9)
    stars["decl"] = de
    stars["ra"] = (c["ra"] + r.uniform(-3, 3, n) / np.cos(np.radians(de))) % 360
    stars["rmag"], stars["gmag"] = r.uniform(17, 24, n), r.uniform(17, 24, n)
    vis = np.zeros(k, dtype=[("ra", float), ("dec", float), ("observationId", int), ("rotSkyPos", float), ("fiveSigmaDepth", float)])
    vis["dec"] = np.clip(c["dec"] + r.uniform(-1.5, 1.5, k), -89.9, 89.9)
    vis["ra"] = (c["ra"] + r.uniform(-1.5, 1.5, k) / np.cos(np.radians(vis["dec"]))) % 360
    vis["observationId"] = c["obs0"] + r.permutation(3 * k)[:k]
    vis["rotSkyPos"], vis["fiveSigmaDepth"] = r.uniform(0, 360, k), r.uniform(22, 25, k)
    return stars, vis


def catalog(c):
    stars, vis = tables(c)
    s0, v0 = stars.copy(), vis.copy()
    filt = c["filt"] or "r"
    shifts = {"a": Shift("dmag_a", 0.01, 0.0), "b": Shift("dmag_b", 0.0, 3.0), "snr": OffsetSNR(lsst_filter=filt), "none": NoOffset()}
    offs = [shifts[k] for k in c["offsets"]]
    kw = {a: b for a, b in (("n_patches", c["patches"]), ("radius_fov", c["fov"]), ("lsst_filter", c["filt"]), ("uncert_floor", c["floor"]), ("seed", c["rs"])) if b is not None}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        require(generate_catalog(vis, stars, **kw) is None, "without offsets nothing is done")
        out = generate_catalog(vis, stars, offsets=offs, verbose=False, **kw)
        again = generate_catalog(vis, stars, offsets=offs, verbose=False, **kw)
    require((stars == s0).all() and (vis == v0).all(), "stars and visits are left alone")
    require(out.dtype == again.dtype and (out == again).all(), "same seed, same catalogue")
    require(set(out.dtype.names) == {"id", "patch_id", "observed_mag", "mag_uncert", filt + "mag", "ra", "decl"}, "columns", out.dtype.names)
    npat, fov, floor = c["patches"] or 16, c["fov"] or 1.8, 0.005 if c["floor"] is None else c["floor"]
    side = int(round(npat ** 0.5))
    at = {}
    for row in out:
        at.setdefault((int(row["patch_id"]) // npat, int(row["id"])), []).append(row)
    want, edge = set(), math.radians(fov)
    resid = []
    for v in vis:
        for s in stars:
            d = sphere(math.radians(s["ra"]), math.radians(s["decl"]), math.radians(v["ra"]), math.radians(v["dec"]))
            key = (int(v["observationId"]), int(s["id"]))
            rows = at.get(key, [])
            if abs(d - edge) < 1e-9:
                want.add(key)
                continue
            require(len(rows) == (d < edge), "a star is observed exactly when it is in the field", key, len(rows), math.degrees(d), fov)
            if not rows:
                continue
            want.add(key)
            row = rows[0]
            require(row["ra"] == s["ra"] and row["decl"] == s["decl"] and row[filt + "mag"] == s[filt + "mag"], "the star's own values", row, s)
            x, y = tangent(math.radians(s["ra"]), math.radians(s["decl"]), math.radians(v["ra"]), math.radians(v["dec"]))
            q = math.radians(v["rotSkyPos"])
            xr, yr = math.cos(q) * x + math.sin(q) * y, -math.sin(q) * x + math.cos(q) * y
            m = math.tan(edge)
            fx, fy = (xr + m) / (2 * m) * side, (yr + m) / (2 * m) * side
            if min(abs(fx - round(fx)), abs(fy - round(fy))) > 1e-7:
                sub = int(math.floor(fx)) + side * int(math.floor(fy))
                require(int(row["patch_id"]) == sub + npat * int(v["observationId"]), "patch of a star", row["patch_id"], sub, v["observationId"])
            base = s[filt + "mag"]
            if "a" in c["offsets"]:
                base += 0.01 * v["observationId"]
            if "b" in c["offsets"]:
                base += 3.0 * xr
            err = lambda mag: 2.5 * math.log10(1 + 1 / (5 * 10 ** (-0.4 * (mag - v["fiveSigmaDepth"]))))
            if "snr" not in c["offsets"]:
                require(abs(row["observed_mag"] - base) < 1e-8, "observed magnitude is the sum of the offsets", row["observed_mag"], base)
            else:
                # noise follows from the magnitude after the offsets that came before it
                i = c["offsets"].index("snr")
                b = s[filt + "mag"] + (0.01 * v["observationId"] if "a" in c["offsets"][:i] else 0) + (3.0 * xr if "b" in c["offsets"][:i] else 0)
                resid.append((row["observed_mag"] - base) / err(b))
            require(abs(row["mag_uncert"] - math.hypot(err(row["observed_mag"]), floor)) < 1e-8, "uncertainty of the observed magnitude", row["mag_uncert"], err(row["observed_mag"]))
    require(set(at) <= want, "nothing else is observed", set(at) - want)
    if len(resid) >= 10:
        require(max(abs(x) for x in resid) < 7 and np.std(resid) > 0.05, "noise of the measurements", resid)
        if len(resid) > 60:
            require(0.45 < np.std(resid) < 1.7, "scatter of the noise", np.std(resid))
    return "snr" if resid else ("observed" if len(out) else None)


@st.composite
def obs(draw):
    return {"seed": draw(st.integers(0, 10**6)), "nstar": draw(st.integers(2, 12)), "npatch": draw(st.integers(2, 10)), "p": draw(st.sampled_from([0.25, 0.5, 0.8])), "noise": draw(st.sampled_from([0.0, 0.01, 0.3])), "gap": draw(st.sampled_from([1, 7, 5000])), "extra": draw(st.integers(0, 4))}


def solve(c):
    r = np.random.RandomState(c["seed"])
    sid = r.permutation(c["nstar"] * 3)[:c["nstar"]] * c["gap"] + 5
    pid = r.permutation(c["npatch"] * 3)[:c["npatch"]] * c["gap"] + 2
    mag, zp = r.uniform(17, 22, c["nstar"]), r.uniform(-1, 1, c["npatch"])
    pairs = [(i, j) for i in range(c["nstar"]) for j in range(c["npatch"]) if r.uniform() < c["p"]]
    rows = [(sid[i], pid[j], mag[i] + zp[j], e) for i, j in pairs for e in [r.choice([0.01, 0.02, 0.1])]]
    rows += [(900000 + k, pid[r.randint(c["npatch"])], 19.0, 0.01) for k in range(c["extra"])]  # stars seen once
    rows = [rows[k] for k in r.permutation(len(rows))]
    # what is left when stars and patches with a single observation are taken out, again and again
    left = list(rows)
    while True:
        ns, np_ = {}, {}
        for x in left:
            ns[x[0]] = ns.get(x[0], 0) + 1
            np_[x[1]] = np_.get(x[1], 0) + 1
        keep = [x for x in left if ns[x[0]] > 1 and np_[x[1]] > 1]
        if len(keep) == len(left):
            break
        left = keep
    if len(left) < 4:
        return None
    o = np.zeros(len(rows), dtype=[("id", int), ("patch_id", int), ("observed_mag", float), ("mag_uncert", float)])
    for k, x in enumerate(rows):
        o[k] = x
    o["observed_mag"] += r.normal(size=len(rows)) * c["noise"]
    before = o.copy()
    s = LsqrSolver(o, atol=1e-13, btol=1e-13, iter_lim=5000)
    s.run()
    patches, stars = s.return_solution()
    require(sorted(map(tuple, o.tolist())) == sorted(map(tuple, before.tolist())), "the observations keep their contents")
    kept = {tuple(x[:2]) for x in left}
    sset, pset = sorted({a for a, _ in kept}), sorted({b for _, b in kept})
    require(sorted(stars["id"].tolist()) == sset and sorted(patches["patch_id"].tolist()) == pset, "stars and patches with more than one observation are solved for", stars["id"], sset, patches["patch_id"], pset)
    # weighted least squares
    use = [x for x in before if (int(x["id"]), int(x["patch_id"])) in {(int(a), int(b)) for a, b in kept}]
    A = np.zeros((len(use), len(sset) + len(pset)))
    b = np.zeros(len(use))
    for k, x in enumerate(use):
        A[k, sset.index(x["id"])] = A[k, len(sset) + pset.index(x["patch_id"])] = 1 / x["mag_uncert"]
        b[k] = x["observed_mag"] / x["mag_uncert"]
    best = np.linalg.lstsq(A, b, rcond=1e-11)[0]
    got = np.zeros(A.shape[1])
    for x in stars:
        got[sset.index(x["id"])] = x["fit_mag"]
    for x in patches:
        got[len(sset) + pset.index(x["patch_id"])] = x["zp"]
    ra, rb = A @ got, A @ best
    require(np.allclose(ra, rb, atol=1e-4 * max(1, np.abs(b).max() / 1000)), "fitted magnitudes are those of the weighted least squares", ra - rb)
    g = A.T @ (A @ got - b)
    require(np.abs(g).max() <= 1e-6 * np.abs(A.T @ b).max(), "the solution is a minimum", g)
    if c["noise"] == 0:
        require(np.allclose(A @ got, b, atol=1e-4), "noiseless magnitudes are reproduced")
    return "noise" if c["noise"] else "exact"


def tools(c):
    stars, vis = tables(c)
    full = np.zeros(stars.size, dtype=stars.dtype.descr + [("x", float), ("y", float), ("radius", float), ("patch_id", int), ("sub_patch", int)])
    for k in stars.dtype.names:
        full[k] = stars[k]
    v = vis[0]
    out = stars_project(full, v)
    for s in out:
        d = sphere(math.radians(s["ra"]), math.radians(s["decl"]), math.radians(v["ra"]), math.radians(v["dec"]))
        require(abs(s["radius"] - math.tan(d)) < 1e-9 and abs(math.hypot(s["x"], s["y"]) - math.tan(d)) < 1e-9, "distance from the centre of the field", s["radius"], math.tan(d))
    v2 = v.copy()
    v2["rotSkyPos"] = v["rotSkyPos"] + 90.0
    a, b = out.copy(), stars_project(full.copy(), v2)
    require(np.allclose(b["x"], a["y"], atol=1e-9) and np.allclose(b["y"], -a["x"], atol=1e-9), "turning the camera by 90 degrees")
    kw = {} if c["fov"] is None else {"radius_fov": c["fov"]}
    p = c["patches"] or 16
    near = out[out["radius"] < math.tan(math.radians(c["fov"] or 1.8)) * 0.999]
    got = assign_patches(near.copy(), v, n_patches=p, **kw)
    if len(got):
        require(got["sub_patch"].min() >= 0 and got["sub_patch"].max() < p and (got["patch_id"] == got["sub_patch"] + p * v["observationId"]).all(), "patches of one visit", got["sub_patch"], p)
    err = OffsetSNR().calc_mag_errors(stars["rmag"], 23.5, err_only=True)
    want = [2.5 * math.log10(1 + 1 / (5 * 10 ** (-0.4 * (m - 23.5)))) for m in stars["rmag"]]
    require(np.allclose(err, want, rtol=1e-9), "magnitude errors", err, want)
    require(np.array_equal(np.asarray(NoOffset()(stars, v), float) * np.ones(stars.size), np.zeros(stars.size)), "no offset")
    return "tools"


def imports(c):
    code = "import importlib, sys\nfor m in %r: importlib.import_module('rubin_sim.' + m)\nimport rubin_sim.selfcal as s\nprint(len(s.OffsetSNR().calc_mag_errors(__import__('numpy').array([20.0]), 24.0)) == 1)" % (c,)
    import rubin_sim
    root = os.path.dirname(os.path.dirname(os.path.abspath(rubin_sim.__file__)))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, cwd=root, timeout=300, env=dict(os.environ, PYTHONPATH=root + os.pathsep + os.environ.get("PYTHONPATH", "")))
    require(p.returncode == 0 and p.stdout.strip().endswith("True"), "the package can be imported in any order", c, p.stderr[-400:])
    return "+".join(c)


ORDERS = [["selfcal"], ["selfcal", "maf"], ["maf", "selfcal"], ["maf.maf_contrib", "selfcal"], ["selfcal.solver", "maf.maf_contrib"]]


def arms():
    return [Arm("catalog", cat(), catalog, quick=350, thorough=10000, rule="some star is in some field"), Arm("catalog2", cat(), catalog, quick=350, thorough=10000, rule="as catalog, another worker"),
            Arm("solver", obs(), solve, quick=500, thorough=20000, rule="observations are left after cleaning"), Arm("tools", cat(), tools, quick=250, thorough=5000, rule="every case"),
            Arm("imports", st.sampled_from(ORDERS), imports, quick=5, thorough=5, rule="every order")]
