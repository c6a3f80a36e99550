"""C22: Chebyshev ephemerides: evaluation, constrained fits, segment tiling, accuracy, files and look-up."""

import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numpy.polynomial import chebyshev as ch

from vp import fakeoorb
from rubin_sim.moving_objects import ChebyFits, ChebyValues, Orbits, chebeval, chebfit, make_cheb_matrix, make_cheb_matrix_only_x
from vp.core import Arm, require

ASSUMPTIONS = ["the OpenOrb library is replaced by closed-form smooth sky motion with known positions at every time",
               "accuracy between the fitted points is required to within three times the tolerance"]


# ------------------------------------------------------------------ evaluation
@st.composite
def eval_case(draw):
    n = draw(st.integers(1, 15))
    return {"p": draw(st.lists(st.integers(-64, 64).map(lambda k: k / 8), min_size=n, max_size=n)), "a": draw(st.integers(-40, 40)) / 4,
            "len": draw(st.integers(1, 80)) / 8, "x": draw(st.lists(st.integers(-8, 72), min_size=1, max_size=8)), "scalar": draw(st.booleans()),
            "mask": draw(st.booleans()), "vel": draw(st.booleans()), "default": draw(st.booleans())}


def eval_test(case):
    p = np.array(case["p"], float)
    a, b = (-1.0, 1.0) if case["default"] else (case["a"], case["a"] + case["len"])
    x = a + (b - a) * np.array(case["x"]) / 64.0
    if case["scalar"]:
        x = float(x[0])
    kw = {} if case["default"] else {"interval": [a, b]}
    y, v = chebeval(x, p, do_velocity=case["vel"], mask=case["mask"], **kw)
    s = (2 * np.asarray(x) - a - b) / (b - a)
    want = ch.chebval(s, p)
    size = np.sum(np.abs(p)) * 50 ** (0 if np.all(np.abs(s) <= 1) else 1) + 1
    out = (np.asarray(x) < a) | (np.asarray(x) > b)
    m = out if case["mask"] else np.zeros_like(out)
    require(np.shape(y) == np.shape(np.asarray(x)), "shape", np.shape(y))
    require(np.array_equal(np.isnan(y), m), "masked where outside the interval", y)
    require(np.all(np.abs(np.where(m, 0, y - want)) < 1e-9 * size), "value of the series", np.asarray(y).tolist(), want.tolist())
    if case["vel"]:
        wv = ch.chebval(s, ch.chebder(p)) * 2 / (b - a)
        require(np.array_equal(np.isnan(v), m), "masked where outside the interval", v)
        require(np.all(np.abs(np.where(m, 0, v - wv)) < 1e-7 * size * (1 + 2 / (b - a))), "derivative of the series", np.asarray(v).tolist(), wv.tolist())
    else:
        require(v is None, "velocity not asked for")
    return len(case["p"]) > 2 and (f"n={len(case['p']) % 2}")


# ------------------------------------------------------------------ fits
@st.composite
def fit_case(draw):
    vel = draw(st.booleans())
    npts = draw(st.integers(3, 24))
    npoly = draw(st.integers(0, min(2 * npts if vel else npts, 12) + 2))
    return {"vel": vel, "npts": npts, "npoly": npoly, "t0": draw(st.integers(-100, 100)) / 4, "dt": draw(st.integers(1, 40)) / 16,
            "seed": draw(st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(["poly", "noise", "sin"])),
            "pre": draw(st.sampled_from(["none", "right", "wrong"])), "badlen": draw(st.integers(0, 19)) == 0}


def basis(n, k):
    s = np.linspace(-1, 1, n)
    V = ch.chebvander(s, k - 1)
    D = np.array([ch.chebval(s, ch.chebder(np.eye(k)[i])) for i in range(k)]).T
    return V, D


def fit_test(case):
    n, k = case["npts"], case["npoly"]
    rng = np.random.RandomState(case["seed"])
    t = case["t0"] + case["dt"] * np.arange(n)
    half = (t[-1] - t[0]) / 2
    s = np.linspace(-1, 1, n)
    if case["kind"] == "poly":
        c = rng.randint(-16, 17, max(k, 1)) / 4.0
        x, v = ch.chebval(s, c), ch.chebval(s, ch.chebder(c)) / half
    elif case["kind"] == "sin":
        x, v = 3 * np.sin(2 * s + 0.5), 6 * np.cos(2 * s + 0.5) / half
    else:
        x, v = rng.normal(size=n), rng.normal(size=n) / half
    ok = (4 <= k <= 2 * n) if case["vel"] else (2 <= k <= n)
    if case["badlen"]:
        try:
            chebfit(t, x[:-1], dxdt=v if case["vel"] else None, n_poly=max(k, 4))
            require(False, "times and positions of different length accepted")
        except ValueError:
            return "lengths"
    kw = {}
    if ok and case["pre"] != "none":
        kk, nn = (k, n) if case["pre"] == "right" else (k, n + 1)
        if case["vel"]:
            kw["x_multiplier"], kw["dx_multiplier"] = make_cheb_matrix(nn, kk)
        else:
            kw["x_multiplier"] = make_cheb_matrix_only_x(nn, kk)
    try:
        a, res, rms, mx = chebfit(t, x, dxdt=v if case["vel"] else None, n_poly=k, **kw)
    except RuntimeError:
        require(not ok, "fit refused", n, k)
        return "refused"
    require(ok, "impossible fit accepted", n, k)
    V, D = basis(n, k)
    scale = max(1.0, np.max(np.abs(x)), np.max(np.abs(v)) * half)
    tol = 1e-6 * scale
    require(len(a) == k, "number of coefficients")
    require(np.allclose(res, x - V @ a, atol=tol), "residuals")
    require(abs(rms - np.sqrt(np.sum(res ** 2) / (n - 1))) < 1e-12 * scale and mx == np.max(np.abs(res)), "rms and largest residual")
    # the ends are met exactly
    require(abs(res[0]) < tol and abs(res[-1]) < tol, "ends of the segment are not met", res[0], res[-1])
    C = [V[0], V[-1]]
    d = [x[0], x[-1]]
    if case["vel"]:
        e = D @ a - v * half
        require(abs(e[0]) < tol * 10 and abs(e[-1]) < tol * 10, "velocities at the ends are not met", e[0], e[-1])
        C += [D[0], D[-1]]
        d += [v[0] * half, v[-1] * half]
    if case["kind"] == "poly":
        require(np.allclose(a, c, atol=1e-6 * (1 + np.abs(c).sum())), "polynomial not reproduced", a.tolist(), c.tolist())
    # no other coefficients meeting the ends fit better
    C, d = np.array(C), np.array(d)

    def cost(q):
        q = np.sum((x - V @ q) ** 2) + (0.16 * np.sum((v * half - D @ q) ** 2) if case["vel"] else 0.0)
        return q

    null = np.linalg.svd(C)[2][len(C):]
    A = np.vstack([V, 0.4 * D]) if case["vel"] else V
    rhs = np.concatenate([x, 0.4 * v * half]) if case["vel"] else x
    p0 = np.linalg.lstsq(C, d, rcond=None)[0]
    z = np.linalg.lstsq(A @ null.T, rhs - A @ p0, rcond=None)[0] if len(null) else np.zeros(0)
    best = p0 + null.T @ z
    require(cost(a) <= cost(best) * (1 + 1e-6) + 1e-7 * scale ** 2, "better fit exists", cost(a), cost(best))
    return case["kind"] + ("+vel" if case["vel"] else "")


# ------------------------------------------------------------------ segments
@st.composite
def seg_case(draw):
    n = draw(st.integers(1, 3))
    objs = [{"ra": draw(st.sampled_from([0.5, 90.0, 179.75, 359.25, 359.99])), "rate": draw(st.sampled_from([0.01, 0.25, -0.5, 3.0])),
             "amp": draw(st.sampled_from([0.0, 0.01, 0.2, 1.0])), "inc": draw(st.integers(10, 170)), "per": draw(st.integers(0, 359)),
             "M": draw(st.integers(0, 359)), "H": draw(st.integers(60, 100)) / 4, "nan": draw(st.sampled_from([None, None, None, None, 1.0, 2.5]))} for _ in range(n)]
    ids = draw(st.permutations(draw(st.sampled_from([[5, 9, 1], [0, 1, 2], ["b", "a", "zz"]]))))[:n]
    return {"objs": objs, "ids": list(ids), "t0": draw(st.sampled_from([54800.0, 60000.25, 60218.7, 59853.016])), "span": draw(st.sampled_from([1.0, 2.0, 4.0, 5.5, 7.3])),
            "tol": draw(st.sampled_from([2.5, 2.5, 10.0, 100.0, 6000.0])), "ngran": draw(st.sampled_from([32, 64])), "ncoef": draw(st.sampled_from([8, 14])),
            "length": draw(st.sampled_from([None, None, 0.5, 1.0, 1.9, 10.0])), "scale": draw(st.sampled_from(["TAI", "UTC", "TT", "tai"])), "dec": draw(st.sampled_from([10, 13])),
            "q": draw(st.lists(st.integers(-3, 67), min_size=1, max_size=6)), "sub": draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)), "obscode": draw(st.sampled_from(["I11", "X05"])),
            "src": draw(st.sampled_from(["set", "file", "append"])), "extra": draw(st.booleans())}


def make_orbits(case, objs=None, ids=None):
    o = Orbits()
    objs = case["objs"] if objs is None else objs
    o.set_orbits(pd.DataFrame({"obj_id": case["ids"] if ids is None else ids, "a": [x["rate"] for x in objs], "e": [x["amp"] for x in objs], "inc": [float(x["inc"]) for x in objs],
                               "Omega": [x["ra"] for x in objs], "argPeri": [float(x["per"]) for x in objs], "meanAnomaly": [float(x["M"]) for x in objs],
                               "epoch": [case["t0"]] * len(objs), "H": [x["H"] for x in objs], "g": [0.15 if x["nan"] is None else -x["nan"] for x in objs]}))
    return o


def truth(case, i, t):
    x = case["objs"][i]
    el = [i + 1, x["rate"], x["amp"], np.radians(x["inc"]), np.radians(x["ra"]), np.radians(x["per"]), np.radians(x["M"]), 3, case["t0"], 3, x["H"], 0.15 if x["nan"] is None else -x["nan"]]
    return fakeoorb.position(el, t, fakeoorb.CODE[case["scale"].upper()], "N", case["obscode"])


def wrap(d):
    return (np.asarray(d) + 180.0) % 360.0 - 180.0


def seg_test(case):
    warnings.simplefilter("ignore")
    n = len(case["objs"])
    orb = make_orbits(case)
    cf = ChebyFits(orb, case["t0"], case["span"], time_scale=case["scale"], obscode=case["obscode"], sky_tolerance=case["tol"], n_coeff_position=case["ncoef"],
                   ngran=case["ngran"], eph_file="unused", n_decimal=case["dec"])
    cf.calc_segment_length(length=case["length"])
    k = case["span"] / cf.length
    require(cf.length > 0 and abs(k - round(k)) < 1e-6 * k, "segments do not fill the span", cf.length)
    if case["length"] is not None:
        require(cf.length <= case["length"] + 1e-9, "segments longer than asked for", cf.length, case["length"])
    cf.calc_segments()
    t0, t1 = case["t0"], case["t0"] + case["span"]
    whole = [True] * n
    co, rs = cf.coeffs, cf.resids
    require(len({len(v) for v in co.values()} | {len(v) for v in rs.values()}) == 1, "coefficient lists of different length")
    for i, oid in enumerate(case["ids"]):
        k = [j for j in range(len(co["obj_id"])) if co["obj_id"][j] == oid]
        segs = [(co["t_start"][j], co["t_end"][j], "fit") for j in k]
        bad = [f for f in cf.failed if (f[0] if not isinstance(f[0], pd.Series) else f[0].iloc[0]) == oid]
        whole[i] = not bad
        segs += [(f[1], f[2], "failed") for f in bad]
        segs.sort(key=lambda s: s[0])
        require(segs and abs(segs[0][0] - t0) < 1e-8 and abs(segs[-1][1] - t1) < 1e-8, "span not covered", oid, segs[:1], segs[-1:], t0, t1)
        for a, b in zip(segs, segs[1:]):
            require(abs(a[1] - b[0]) < 1e-8, "gap or overlap between segments", oid, a, b)
        if case["objs"][i]["nan"] is None:
            require(not bad, "fit of a smooth object failed", oid, bad)
        for j in k:
            a, b = co["t_start"][j], co["t_end"][j]
            require(len(co["ra"][j]) == case["ncoef"] == len(co["dec"][j]) and len(co["geo_dist"][j]) == 5 and len(co["vmag"][j]) == 9 and len(co["elongation"][j]) == 6, "number of coefficients")
            require(rs["obj_id"][j] == oid and rs["t_start"][j] == a and rs["t_end"][j] == b, "residuals of another segment")
            require(rs["pos"][j] <= case["tol"], "segment outside the tolerance kept", rs["pos"][j])
            tt = np.linspace(a, b, case["ngran"] + 1)
            e = truth(case, i, tt)
            u = 2 * (tt - a) / (b - a) - 1
            pos = 3.6e6 * np.hypot(wrap(ch.chebval(u, co["ra"][j]) - e["ra"]) * np.cos(np.radians(e["dec"])), ch.chebval(u, co["dec"][j]) - e["dec"])
            require(abs(pos.max() - rs["pos"][j]) <= 1e-3 + 1e-3 * rs["pos"][j], "recorded position residual", pos.max(), rs["pos"][j])
            for key, name in (("geo_dist", "geo_dist"), ("vmag", "magV"), ("elongation", "solarelon")):
                r = np.max(np.abs(ch.chebval(u, co[key][j]) - e[name]))
                require(abs(r - rs[key][j]) < 1e-7 + 1e-4 * r, "recorded residual", key, r, rs[key][j])
    if not co["obj_id"]:
        return "all failed"
    # look-up
    cv = ChebyValues()
    d = tempfile.mkdtemp(prefix="vp_cheb_")
    try:
        if case["src"] == "set":
            was = {k: list(v) for k, v in cf.coeffs.items()}
            cv.set_coefficients(cf)
            require(set(cf.coeffs) == set(was) and all(np.array_equal(np.asarray(cf.coeffs[k]), np.asarray(was[k])) for k in was), "the coefficients of the fits were changed", sorted(cf.coeffs))
        else:
            f = [os.path.join(d, x) for x in ("coeff", "resid", "failed")]
            if case["src"] == "append":
                two = ChebyFits(make_orbits(case, case["objs"][:1], ["other" if isinstance(case["ids"][0], str) else 77]), case["t0"], case["span"], sky_tolerance=1e7, ngran=case["ngran"],
                                n_coeff_position=case["ncoef"], eph_file="unused", n_decimal=case["dec"])
                two.calc_segment_length(length=case["span"])
                two.calc_segments()
                two.write(*f)
                cf.write(*f, append=True)
                rows = open(f[1]).read().split("\n")
                require(len([r for r in rows if r.startswith("obj_id")]) == 1, "header repeated")
            else:
                cf.write(*f)
            require(len(open(f[1]).read().strip().split("\n")) == 1 + len(rs["pos"]) + (len(two.resids["pos"]) if case["src"] == "append" else 0), "residual rows")
            cv.read_coefficients(f[0])
            require(len(cv.coeffs["t_start"]) == len(co["t_start"]) + (len(two.coeffs["t_start"]) if case["src"] == "append" else 0), "segments read back", len(cv.coeffs["t_start"]))
    finally:
        shutil.rmtree(d)
    fmt = 1e-6 if case["src"] != "set" else 1e-9
    have = [i for i in range(n) if case["ids"][i] in set(np.asarray(co["obj_id"]).tolist())]
    sub = [i for i in case["sub"] if i in have]
    times = np.array([t0 + case["span"] * q / 64.0 for q in case["q"]])
    if sub:
        ask = np.array([case["ids"][i] for i in sub])
        keep = ask.copy()
        eph = cv.get_ephemerides(times, ask, extrapolate=case["extra"])
        require(np.array_equal(ask, keep), "the list of objects was changed", ask, keep)
        require(sorted(eph["obj_id"].tolist()) == sorted(keep.tolist()), "objects returned", eph["obj_id"], keep)
    else:
        eph = cv.get_ephemerides(times, extrapolate=case["extra"])
        require(sorted(eph["obj_id"].tolist()) == sorted(set(cv.coeffs["obj_id"].tolist())), "objects returned")
    lab = set()
    for i in (sub or have):
        r = eph["obj_id"].tolist().index(case["ids"][i])
        require(np.array_equal(eph["time"][r], times), "times")
        e = truth(case, i, times)
        for j, t in enumerate(times):
            row = {k: eph[k][r][j] for k in cv.ephemeris_keys}
            if t < t0 - 1e-7 or t > t1 + 1e-7:
                if not case["extra"]:
                    require(all(np.isnan(v) for v in row.values()), "position outside the fitted span", t, row)
                    lab.add("outside")
                continue
            covered = any(a - 1e-7 <= t <= b + 1e-7 for a, b, o in zip(co["t_start"], co["t_end"], co["obj_id"]) if o == case["ids"][i])
            if not covered:
                if case["extra"]:
                    continue
                require(all(np.isnan(v) for v in row.values()), "position where there is no fit", t, case["ids"][i], row)
                lab.add("hole")
                continue
            if t > t1 - 1e-7 or not whole[i]:
                if np.isnan(row["ra"]) and (abs(t - t1) < 1e-7 or min(abs(t - x) for x in list(co["t_start"]) + list(co["t_end"])) < 1e-7):
                    continue  # rounding of the very last instant / edge of a hole
            sep = 3.6e6 * np.hypot(wrap(row["ra"] - e["ra"][j]) * np.cos(np.radians(e["dec"][j])), row["dec"] - e["dec"][j])
            require(sep <= 3 * case["tol"] + 1e3 * fmt, "position off by more than the tolerance", case["ids"][i], t, sep, case["tol"])
            require(abs(row["geo_dist"] - e["geo_dist"][j]) < 0.02 and abs(row["vmag"] - e["magV"][j]) < 0.05 and abs(row["elongation"] - e["solarelon"][j]) < 1.0, "distance, magnitude or elongation", row, {k: v[j] for k, v in e.items()})
            vt = 0.01 + 20 * case["tol"] / 3.6e6 * case["ncoef"] ** 2 / cf.length
            require(abs(row["dradt"] - e["dradt"][j]) < vt and abs(row["ddecdt"] - e["ddecdt"][j]) < vt, "rates", row["dradt"], e["dradt"][j], row["ddecdt"], e["ddecdt"][j])
            lab.add("inside")
    return "+".join(sorted(lab)) + ("/" + case["src"])


def arms():
    return [
        Arm("eval", eval_case(), eval_test, 1000, rule="more than two coefficients"),
        Arm("fit", fit_case(), fit_test, 800, rule="any"),
        Arm("segments", seg_case(), seg_test, 250, rule="any"),
        Arm("segments2", seg_case(), seg_test, 250, rule="any"),
        Arm("segments3", seg_case(), seg_test, 250, rule="any"),
    ]
