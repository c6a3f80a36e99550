"""C23: simulated moving-object observations are exactly the visits in whose footprint the object lies."""

import os
import shutil
import sqlite3
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import fakedata, fakeoorb
from rubin_sim.moving_objects import DirectObs, Orbits, PyOrbEphemerides
from rubin_sim.moving_objects import make_lsst_obs as cli
from rubin_sim.phot_utils import Bandpass, Sed
from vp.core import Arm, require

ASSUMPTIONS = ["the OpenOrb library is replaced by closed-form sky motion", "objects move slowly enough for the preliminary search radius in use",
               "pairs within 1e-6 degree of the footprint edge are not judged"]
T0 = 60218.0
os.environ.setdefault("OORB_DATA", "/nonexistent")


@st.composite
def obs_case(draw, cli=False):
    n = draw(st.integers(1, 3))
    objs = [{"id": i * 3 + draw(st.integers(0, 2)), "ra": draw(st.sampled_from([0.1, 45.0, 180.0, 359.9])), "rate": draw(st.sampled_from([0.01, 0.3, -0.8, 2.5])), "amp": draw(st.sampled_from([0.0, 0.05, 0.5])),
             "inc": draw(st.integers(10, 150)), "per": draw(st.integers(0, 359)), "M": draw(st.integers(0, 359)), "H": draw(st.integers(60, 100)) / 4, "sed": draw(st.sampled_from(["C.dat", "S.dat"]))} for i in range(n)]
    foot = draw(st.sampled_from(["circle", "rectangle", "camera", "Circle"]))
    vis = [{"o": draw(st.integers(0, n - 1)), "t": draw(st.integers(0, 400)) / 32, "dx": draw(st.integers(-24, 24)) / 10, "dy": draw(st.integers(-24, 24)) / 10, "far": draw(st.integers(0, 5)) == 0,
            "band": draw(st.sampled_from("ugrizy")), "exp": draw(st.sampled_from([15.0, 30.0])), "seeing": draw(st.integers(4, 12)) / 8, "m5": draw(st.integers(80, 100)) / 4, "rot": draw(st.sampled_from([0.0, 30.0, 90.0, 217.0]))} for _ in range(draw(st.integers(1, 14)))]
    return {"objs": objs, "vis": vis, "foot": foot, "r": draw(st.sampled_from([1.75, 1.0, 2.5])) if foot.lower() == "circle" else 1.75, "x": draw(st.sampled_from([1.0, 2.5])), "y": draw(st.sampled_from([0.5, 2.0])),
            "tstep": draw(st.sampled_from([0.5, 1.0, 2.0])), "prelim": draw(st.sampled_from(["2body", "nbody"])), "mode": draw(st.sampled_from(["2body", "nbody"])), "pos": draw(st.sampled_from([None, None, "full", "short"])),
            "order": draw(st.integers(0, 10 ** 6)), "rad": not cli and draw(st.integers(0, 4)) == 0, "scale": "TAI" if cli else draw(st.sampled_from(["TAI", "UTC"])), "constraint": draw(st.sampled_from(["", "", "night > 5"])), "verbose": draw(st.booleans())}


def elements(o):
    return [1, o["rate"], o["amp"], np.radians(o["inc"]), np.radians(o["ra"]), np.radians(o["per"]), np.radians(o["M"]), 3, T0, 3, o["H"], 0.15]


def at(case, o, t, mode=None, scale=None):
    return fakeoorb.position(elements(o), t, fakeoorb.CODE[scale or case["scale"]], "2" if (mode or case["mode"]) == "2body" else "N")


def orbits(case):
    o = Orbits()
    ob = case["objs"]
    o.set_orbits(pd.DataFrame({"obj_id": [x["id"] for x in ob], "a": [x["rate"] for x in ob], "e": [x["amp"] for x in ob], "inc": [float(x["inc"]) for x in ob], "Omega": [x["ra"] for x in ob], "argPeri": [float(x["per"]) for x in ob],
                               "meanAnomaly": [float(x["M"]) for x in ob], "epoch": [T0] * len(ob), "H": [x["H"] for x in ob], "g": [0.15] * len(ob), "sed_filename": [x["sed"] for x in ob]}))
    return o


def visits(case):
    rows = []
    for i, v in enumerate(case["vis"]):
        t = T0 + v["t"]
        e = at(case, case["objs"][v["o"]], np.array([t]))
        dec = float(e["dec"][0]) + v["dy"]
        ra = float(e["ra"][0]) + v["dx"] / np.cos(np.radians(e["dec"][0])) + (120.0 if v["far"] else 0.0)
        rows.append({"observationId": 1000 + i, "observationStartMJD": t, "night": int(v["t"]), "fieldRA": ra % 360.0, "fieldDec": max(min(dec, 85.0), -85.0), "rotSkyPos": v["rot"], "band": v["band"], "visitExposureTime": v["exp"],
                     "seeingFwhmGeom": v["seeing"], "seeingFwhmEff": v["seeing"] * 1.2, "fiveSigmaDepth": v["m5"], "solarElong": 100.0})
    return rows


def sepdeg(ra1, d1, ra2, d2):
    ra1, d1, ra2, d2 = np.radians([ra1, d1, ra2, d2])
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(np.sin((d1 - d2) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((ra1 - ra2) / 2) ** 2, 0, 1))))


def inside(case, ra, dec, row):
    """True / False / None (too close to the edge)."""
    f = case["foot"].lower()
    if f == "circle":
        m = case["r"] - sepdeg(ra, dec, row["fieldRA"], row["fieldDec"])
        return None if abs(m) < 1e-6 else m > 0
    dra = (ra - row["fieldRA"] + 180.0) % 360.0 - 180.0
    if f == "rectangle":
        m = min(case["y"] - abs(dec - row["fieldDec"]), case["x"] - abs(dra) * np.cos(np.radians(row["fieldDec"])))
        return None if abs(m) < 1e-6 else m > 0
    # camera: tangent plane, rotated, looked up in the map
    r0, d0, r1, d1 = np.radians([row["fieldRA"], row["fieldDec"], ra, dec])
    c = np.sin(d0) * np.sin(d1) + np.cos(d0) * np.cos(d1) * np.cos(r1 - r0)
    if c < 0.99:
        return False
    x = np.degrees(np.cos(d1) * np.sin(r1 - r0) / c)
    y = np.degrees((np.cos(d0) * np.sin(d1) - np.sin(d0) * np.cos(d1) * np.cos(r1 - r0)) / c)
    t = np.radians(row["rotSkyPos"])
    x, y = x * np.cos(t) - y * np.sin(t), x * np.sin(t) + y * np.cos(t)
    fx, fy = (x + 2.0) / 0.1, (y + 2.0) / 0.1
    if min(abs(fx % 1 - 0.5), abs(fy % 1 - 0.5)) < 1e-5:
        return None
    ix, iy = int(np.floor(fx + 0.5)), int(np.floor(fy + 0.5))
    if not (0 <= ix <= 40 and 0 <= iy <= 40):
        return False
    gx, gy = -2.0 + 0.1 * ix, -2.0 + 0.1 * iy
    for edge in (1.8, 1.94):
        if abs(np.hypot(gx, gy) - edge) < 1e-6:
            return None
    return bool(np.hypot(gx, gy) < 1.8 and not (gx > 0.5 + 1e-9 and gy > 0.5 + 1e-9)) if min(abs(gx - 0.5), abs(gy - 0.5)) > 1e-6 else None


_colors = {}


def color(sed, band):
    if (sed, band) not in _colors:
        d = fakedata.use()
        s, v, b = Sed(), Bandpass(), Bandpass()
        s.read_sed_flambda(os.path.join(d, "movingObjects", sed))
        v.read_throughput(os.path.join(d, "movingObjects", "harris_V.dat"))
        b.read_throughput(os.path.join(d, "throughputs", "baseline", f"total_{band}.dat"))
        _colors[(sed, band)] = s.calc_mag(b) - s.calc_mag(v)
    return _colors[(sed, band)]


def compare(case, res, rows):
    """the reported observations against every (object, visit) pair"""
    got = {}
    for r in res:
        key = (int(r["obj_id"]), int(r["observationId"]))
        require(key not in got, "observation reported twice", key)
        got[key] = r
    hits = 0
    for o in case["objs"]:
        for row in rows:
            t = row["observationStartMJD"]
            e = {k: float(v[0]) for k, v in at(case, o, np.array([t])).items()}
            ins = inside(case, e["ra"], e["dec"], row)
            key = (o["id"], row["observationId"])
            r = got.pop(key, None)
            if ins is None:
                continue
            require((r is not None) == ins, "object in the field but not reported" if ins else "object reported though outside the field", key, e["ra"] % 360, e["dec"], row)
            if r is None:
                continue
            hits += 1
            vel = np.hypot(e["dradt"], e["ddecdt"])
            want = dict(e, ra=e["ra"] % 360.0, velocity=vel)
            for k, w in want.items():
                require(abs(r[k] - w) < 1e-7 * (1 + abs(w)), "ephemeris value", k, float(r[k]), w)
            for k in ("visitExposureTime", "fiveSigmaDepth", "seeingFwhmGeom", "observationStartMJD", "night", "band"):
                require(r[k] == row[k], "visit value", k, r[k], row[k])
            require(str(r["sedname"]) == o["sed"], "spectrum", r["sedname"])
            require(abs(r["dmag_color"] - color(o["sed"], row["band"])) < 1e-9, "colour term", float(r["dmag_color"]), color(o["sed"], row["band"]))
            x = vel * row["visitExposureTime"] / row["seeingFwhmGeom"] / 24.0
            for k, a, b in (("dmag_trail", 0.761, 1.162), ("dmag_detect", 0.420, 0.003)):
                w = 1.25 * np.log10(1 + a * x * x / (1 + b * x))
                require(abs(r[k] - w) < 1e-9, "trailing loss", k, float(r[k]), w)
    require(not got, "observation of an unknown object or visit", list(got))
    return hits


def obs_test(case):
    warnings.simplefilter("ignore")
    fakedata.use()
    rows = visits(case)
    np.random.RandomState(case["order"]).shuffle(rows)
    deg = not case["rad"]
    df = pd.DataFrame(rows)
    if not deg:
        for c in ("fieldRA", "fieldDec", "rotSkyPos"):
            df[c] = np.radians(df[c])
    data = df.to_records(index=False)
    data = np.array(data, dtype=[(n, "<U2" if n == "band" else data.dtype[n]) for n in data.dtype.names])
    keep = data.copy()
    d = DirectObs(footprint=case["foot"], r_fov=case["r"], x_tol=case["x"], y_tol=case["y"], eph_mode=case["mode"], prelim_eph_mode=case["prelim"], obs_time_scale=case["scale"], eph_file="unused", tstep=case["tstep"], obs_degrees=deg, verbose=case["verbose"])
    d.read_filters()
    kw = {}
    if case["pos"]:
        mj = np.arange(T0 - 2, T0 + (16 if case["pos"] == "full" else 3), 1.0)
        pos = np.zeros((len(case["objs"]), len(mj)), dtype=[("ra", float), ("dec", float)])
        for i, o in enumerate(case["objs"]):
            e = at(case, o, mj)
            pos["ra"][i], pos["dec"][i] = e["ra"] % 360, e["dec"]
        kw = {"object_positions": pos, "object_mjds": mj}
    res = d.run(orbits(case), data, **kw)
    require(np.array_equal(data, keep), "the visits were changed")
    info = d.info
    require(info["footprint"][0] == case["foot"].lower() and info["eph_mode"][0] == case["mode"] and (case["foot"].lower() != "circle" or info["r_fov"][0] == case["r"]), "recorded set-up", info)
    h = compare(case, res, rows)
    return h and f"{case['foot'].lower()}/{case['pos']}"


def cli_test(case):
    warnings.simplefilter("ignore")
    fakedata.use()
    rows = visits(case)
    case = dict(case, foot=case["foot"].lower())
    d = tempfile.mkdtemp(prefix="vp_mo_")
    argv = sys.argv
    try:
        db = os.path.join(d, "sim.db")
        with sqlite3.connect(db) as c:
            pd.DataFrame(rows).to_sql("observations", c, index=False)
        orb = os.path.join(d, "pop.txt")
        orbits(case).orbits.to_csv(orb, sep=" ", index=False)
        sel = [r for r in rows if case["constraint"] == "" or r["night"] > 5]
        sys.argv = ["make_lsst_obs", "--simulation_db", db, "--orbit_file", orb, "--out_dir", d, "--footprint", case["foot"], "--r_fov", str(case["r"]), "--x_tol", str(case["x"]), "--y_tol", str(case["y"]), "--sql_constraint", case["constraint"],
                    "--t_step", str(case["tstep"]), "--eph_mode", case["mode"], "--prelim_eph_mode", case["prelim"], "--obs_info", "note"]
        if case["pos"] == "full":
            mj = np.arange(T0 - 2, T0 + 16, 1.0)
            pos = np.zeros((len(case["objs"]), len(mj)), dtype=[("ra", float), ("dec", float)])
            for i, o in enumerate(case["objs"]):
                e = at(case, o, mj)
                pos["ra"][i], pos["dec"][i] = e["ra"] % 360, e["dec"]
            np.savez(os.path.join(d, "p.npz"), positions=pos, mjds=mj)
            sys.argv += ["--positions_file", os.path.join(d, "p.npz")]
        if not sel:
            try:
                cli.make_lsst_obs()
                require(False, "no visits and no error")
            except UserWarning:
                return None
        cli.make_lsst_obs()
        out = np.load(os.path.join(d, "sim__pop_obs.npz"))
        res, info = out["object_observations"], out["info"]
        require(case["constraint"] in str(info["obs_info"][0]) and "pop" in str(info["obs_info"][0]) and "note" in str(info["obs_info"][0]), "recorded description", info)
        h = compare(case, res, sel)
    finally:
        sys.argv = argv
        shutil.rmtree(d)
    return h and case["foot"]


# ------------------------------------------------------------------ element and ephemeris arrays
@st.composite
def conv_case(draw):
    fmt = draw(st.sampled_from(["KEP", "COM", "CAR"]))
    n = draw(st.integers(1, 4))
    return {"fmt": fmt, "v": [[draw(st.integers(-4000, 4000)) / 16 for _ in range(6)] for _ in range(n)], "H": [draw(st.integers(40, 100)) / 4 for _ in range(n)], "g": [draw(st.integers(0, 8)) / 8 for _ in range(n)],
            "ep": draw(st.integers(50000, 62000)), "times": draw(st.lists(st.integers(0, 640).map(lambda k: k / 16), min_size=1, max_size=5)), "scalar": draw(st.booleans()), "scale": draw(st.sampled_from(["UTC", "UT1", "TT", "TAI"])),
            "mode": draw(st.sampled_from(["nbody", "2body", "N", "2", "x"])), "by": draw(st.booleans()), "type": draw(st.sampled_from(["basic", "full", "Full", "?"])), "new": draw(st.integers(50000, 62000))}


COLS = {"KEP": ["a", "e", "inc", "Omega", "argPeri", "meanAnomaly"], "COM": ["q", "e", "inc", "Omega", "argPeri", "tPeri"], "CAR": ["x", "y", "z", "xdot", "ydot", "zdot"]}


def conv_test(case):
    warnings.simplefilter("ignore")
    cols = COLS[case["fmt"]]
    df = pd.DataFrame(np.array(case["v"]), columns=cols)
    df["H"], df["g"], df["epoch"] = case["H"], case["g"], float(case["ep"])
    df["obj_id"] = np.arange(len(df)) + 10
    o = Orbits()
    o.set_orbits(df.copy())
    p = PyOrbEphemerides("unused")
    p.set_orbits(o)
    back = p.convert_from_oorb_elem()
    for c in cols + ["H", "g", "epoch"]:
        require(np.allclose(back[c], df[c], rtol=1e-12, atol=1e-9), "elements after conversion and back", c, back[c].tolist(), df[c].tolist())
    require(set(back.columns) == set(cols + ["H", "g", "epoch"]), "columns", list(back.columns))
    el = p.oorb_elem.copy()
    t = np.array(case["times"]) + case["ep"]
    arg = float(t[0]) if case["scalar"] else t
    good = case["mode"] != "x" and case["type"] != "?"
    try:
        eph = p.generate_ephemerides(arg, time_scale=case["scale"], by_object=case["by"], eph_mode=case["mode"], eph_type=case["type"])
    except ValueError:
        require(not good, "refused")
        return None
    require(good, "unknown mode or type accepted")
    tt = np.array([t[0]]) if case["scalar"] else t
    n, m = len(df), len(tt)
    require(eph["ra"].shape == ((n, m) if case["by"] else (m, n)), "shape of the ephemerides", eph["ra"].shape)
    for i in range(n):
        want = fakeoorb.position(el[i], tt, fakeoorb.CODE[case["scale"]], "2" if case["mode"][0] == "2" else "N")
        for k in fakeoorb.NAMES:
            w = np.mod(want[k], 360) if k == "ra" else want[k]
            name = "trueAnom" if k == "trueAnomaly" and case["type"].lower() == "full" else k
            g = eph[name][i] if case["by"] else eph[name][:, i]
            require(np.allclose(g, w, equal_nan=True), "ephemeris", k, g.tolist(), w.tolist())
        v = eph["velocity"][i] if case["by"] else eph["velocity"][:, i]
        require(np.allclose(v, np.hypot(want["dradt"], want["ddecdt"])), "velocity", v.tolist())
        if case["type"].lower() == "full":
            for j, name in ((10, "pa"), (11, "topo_lon"), (12, "topo_lat"), (19, "topo_obj_alt"), (23, "lunar_dist"), (24, "helio_x"), (29, "helio_dz"), (32, "obs_helio_z")):
                g = eph[name][i] if case["by"] else eph[name][:, i]
                require(np.allclose(g, j + 100 * i + 0.01 * np.arange(m)), "full ephemeris", name)
    # propagation
    p.propagate_orbits(float(case["new"]), eph_mode=case["mode"])
    new = p.convert_from_oorb_elem()
    require(np.all(new["epoch"] == case["new"]), "epoch after propagation")
    o.update_orbits(new)
    require(o.orbits["obj_id"].tolist() == df["obj_id"].tolist() and np.all(o.orbits["epoch"] == case["new"]) and o.orb_format == case["fmt"], "orbits after propagation", o.orbits.columns.tolist())
    for c in cols[:-1]:
        require(np.allclose(o.orbits[c], df[c], atol=1e-9), "elements after propagation", c)
    return case["fmt"] + "/" + case["type"].lower()


def teardown():
    fakedata.cleanup()


def arms():
    fakedata.use()
    return [
        Arm("direct", obs_case(), obs_test, 300, rule="some object is in some field"),
        Arm("direct2", obs_case(), obs_test, 300, rule="some object is in some field"),
        Arm("cli", obs_case(cli=True), cli_test, 120, rule="some object is in some field"),
        Arm("convert", conv_case(), conv_test, 500, rule="valid mode and type"),
    ]
