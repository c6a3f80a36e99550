"""C24: orbit tables: reading any of the supported layouts, validation, defaults, selection, equality."""

import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp import fakeoorb  # noqa: F401
from rubin_sim.moving_objects import Orbits
from vp.core import Arm, require

ASSUMPTIONS = ["the fourth column of a data row is numeric, as the reader documents"]
ELEM = {"KEP": ["a", "e", "inc", "Omega", "argPeri", "meanAnomaly"], "COM": ["q", "e", "inc", "Omega", "argPeri", "tPeri"], "CAR": ["x", "y", "z", "xdot", "ydot", "zdot"]}
DES = {"KEP": ["obj_id", "FORMAT", "a", "e", "i", "node", "argperi", "meanAnomaly"], "COM": ["obj_id", "FORMAT", "q", "e", "i", "node", "argperi", "t_p"], "CAR": ["obj_id", "FORMAT", "x", "y", "z", "xdot", "ydot", "zdot"]}
ALT = {"obj_id": ["obj_id", "objid", "!!ObjID", "!!OID", "!!S3MID", "OID", "S3MID", "objid(int)", "full_name", "#name"], "e": ["e", "ecc"], "inc": ["inc", "i", "i(deg)", "incl"],
       "Omega": ["Omega", "omega", "node", "om", "node(deg)", "BigOmega", "Omega/node", "longNode"], "argPeri": ["argPeri", "argperi", "omega/argperi", "w", "argperi(deg)", "peri"],
       "tPeri": ["tPeri", "t_p", "timeperi", "t_peri", "T_peri"], "epoch": ["epoch", "t_0", "Epoch", "epoch_mjd"], "H": ["H", "magH", "magHv", "Hv", "H_v"], "g": ["g", "phaseV", "phase", "gV", "phase_g", "G"],
       "meanAnomaly": ["meanAnomaly", "meanAnom", "M", "ma"], "sed_filename": ["sed_filename", "sed"], "xdot": ["xdot", "xDot"], "ydot": ["ydot", "yDot"], "zdot": ["zdot", "zDot"]}


@st.composite
def table(draw, n=None):
    fmt = draw(st.sampled_from(["KEP", "COM", "CAR"]))
    n = n or draw(st.integers(1, 5))
    cols = {}
    for c in ELEM[fmt]:
        if c in ("a", "q"):
            cols[c] = [draw(st.integers(8, 96)) / 16 for _ in range(n)]
        elif c == "e":
            cols[c] = [draw(st.integers(0, 15)) / 16 for _ in range(n)]
        elif fmt == "CAR":
            cols[c] = [draw(st.integers(-96, 96)) / 16 for _ in range(n)]
        elif c == "tPeri":
            cols[c] = [draw(st.integers(50000 * 4, 60000 * 4)) / 4 for _ in range(n)]
        else:
            cols[c] = [draw(st.integers(0, 1440)) / 8 for _ in range(n)]
    cols["epoch"] = [draw(st.integers(50000 * 4, 60000 * 4)) / 4] * n
    ids = draw(st.permutations(range(20)))[:n]
    cols["obj_id"] = [f"S{i}x" for i in ids] if draw(st.booleans()) else list(ids)
    cols["H"] = [draw(st.integers(40, 100)) / 4 for _ in range(n)]
    cols["g"] = [draw(st.integers(0, 8)) / 8 for _ in range(n)]
    cols["sed_filename"] = [draw(st.sampled_from(["C.dat", "S.dat", "D.dat"])) for _ in range(n)]
    return {"fmt": fmt, "cols": cols}


def check(o, t, missing=()):
    """o holds exactly the table t (defaults where columns are missing)."""
    require(o.orb_format == t["fmt"], "orbit format", o.orb_format)
    n = len(t["cols"]["epoch"])
    require(len(o) == n, "number of orbits", len(o))
    for c in ELEM[t["fmt"]] + ["epoch", "obj_id", "H", "g", "sed_filename"]:
        got = o.orbits[c].tolist()
        if c not in missing:
            require(got == t["cols"][c], "column", c, got, t["cols"][c])
        elif c == "H":
            require(got == [20.0] * n, "default H", got)
        elif c == "g":
            require(got == [0.15] * n, "default g", got)
        elif c == "obj_id":
            require(got == list(range(n)), "default ids", got)
        else:
            for i, s in enumerate(got):
                k = t["cols"]
                a = k["a"][i] if t["fmt"] == "KEP" else k["q"][i] / (1 - k["e"][i]) if t["fmt"] == "COM" else np.sqrt(k["x"][i] ** 2 + k["y"][i] ** 2 + k["z"][i] ** 2)
                require(s in ("C.dat", "S.dat"), "default spectrum", s)
                if a < 2:
                    require(s == "S.dat", "inner object of type C", a)
                if a > 4:
                    require(s == "C.dat", "outer object of type S", a)


# ------------------------------------------------------------------ files
@st.composite
def file_case(draw):
    t = draw(table())
    miss = draw(st.lists(st.sampled_from(["H", "g", "sed_filename", "obj_id"]), max_size=3, unique=True))
    return {"t": t, "miss": miss, "alt": {c: draw(st.integers(0, 20)) for c in ALT}, "order": draw(st.integers(0, 10 ** 6)), "comments": draw(st.integers(0, 2)), "mark": draw(st.sampled_from(["", "", "# ", "!! ", "## "])),
            "delim": draw(st.sampled_from([None, None, None, ","])), "layout": draw(st.sampled_from(["header", "header", "header", "des"])), "skip": draw(st.sampled_from(["auto", "auto", "given"])),
            "format": draw(st.sampled_from([None, None, None, "own", "own", "CART", "CART", "wrong"])), "extra": draw(st.lists(st.sampled_from(["INDEX", "N_PAR", "MOID", "COMPCODE", "tmp", "other"]), max_size=2, unique=True)),
            "neg": draw(st.integers(0, 9)) == 0, "drop": draw(st.sampled_from([None] * 9 + ["e", "inc", "Omega", "xdot", "z"])), "dup": draw(st.integers(0, 14)) == 0, "epoch": draw(st.sampled_from([None] * 14 + [2450000.0, -30000.0]))}


def file_test(case):
    warnings.simplefilter("ignore")
    t = {"fmt": case["t"]["fmt"], "cols": {k: list(v) for k, v in case["t"]["cols"].items()}}
    n = len(t["cols"]["epoch"])
    fmt = t["fmt"]
    lab = case["layout"]
    if case["epoch"] is not None:
        t["cols"]["epoch"] = [case["epoch"]] * n
        lab = "epoch"
    if case["neg"] and fmt != "CAR":
        t["cols"]["inc"][-1] = -1.0
        lab = "negative"
    d = tempfile.mkdtemp(prefix="vp_orb_")
    path = os.path.join(d, "orbits.txt")
    rng = np.random.RandomState(case["order"])
    miss = list(case["miss"])
    kw = {}
    wrong = False
    try:
        if case["layout"] == "des":
            miss = ["g", "sed_filename"]
            names = DES[fmt] + ["H", "epoch", "INDEX", "N_PAR", "MOID", "COMPCODE"]
            back = {"i": "inc", "node": "Omega", "argperi": "argPeri", "t_p": "tPeri"}
            with open(path, "w") as f:
                for i in range(n):
                    row = [fmt if c == "FORMAT" else {"INDEX": 1, "N_PAR": 6, "MOID": -1, "COMPCODE": "PYOORB"}[c] if c in ("INDEX", "N_PAR", "MOID", "COMPCODE") else t["cols"][back.get(c, c)][i] for c in names]
                    f.write(" ".join(str(x) for x in row) + "\n")
            if case["skip"] == "given":
                kw["skiprows"] = -1
        else:
            names = [c for c in ELEM[fmt] + ["epoch", "obj_id", "H", "g", "sed_filename"] if c not in miss]
            if case["drop"] in names:
                names.remove(case["drop"])
                wrong = True
            if case["format"]:
                names.append("FORMAT")
                t["cols"]["FORMAT"] = [{"own": fmt, "CART": "CART" if fmt == "CAR" else fmt, "wrong": {"KEP": "COM", "COM": "CAR", "CAR": "KEP"}[fmt]}[case["format"]]] * n
                wrong = wrong or case["format"] == "wrong"
            for c in case["extra"]:
                names.append(c)
                t["cols"][c] = [float(k) for k in range(n)]
            names = list(rng.permutation(names))
            text = ("obj_id", "sed_filename", "FORMAT")
            if names[3] in text:
                j = [k for k, c in enumerate(names) if c not in text and k != 3][0]
                names[3], names[j] = names[j], names[3]
            head = [ALT[c][case["alt"][c] % len(ALT[c])] if c in ALT else c for c in names]
            mark = case["mark"]
            if case["delim"] or case["skip"] == "given" or head[0].startswith(("#", "!!")):
                mark = ""
            if case["skip"] == "given":
                head = [h if not h.startswith("#") else "objid" for h in head]
            if case["dup"] and "inc" in names and not mark:
                head.append("incl" if "incl" not in head else "i(deg)")
                names.append("inc")
                wrong = True
            sep = case["delim"] or " "
            with open(path, "w") as f:
                for k in range(case["comments"]):
                    f.write(f"# remark {k}\n")
                f.write(mark + sep.join(head) + "\n")
                for i in range(n):
                    f.write(sep.join(str(t["cols"][c][i]) for c in names) + "\n")
            if case["delim"]:
                kw["delim"] = case["delim"]
            if case["skip"] == "given":
                kw["skiprows"] = case["comments"]
        o = Orbits()
        try:
            o.read_orbits(path, **kw)
        except (ValueError, KeyError) as e:
            require(wrong or lab in ("epoch", "negative"), "good orbit file refused", str(e)[:300], open(path).read()[:600])
            return "refused"
        require(not wrong and lab not in ("epoch", "negative"), "bad orbit file accepted", lab, open(path).read()[:600])
        check(o, t, miss)
        for c in ("FORMAT", "INDEX", "N_PAR", "MOID", "COMPCODE", "tmp"):
            require(c not in o.orbits, "bookkeeping column kept", c)
        o2 = Orbits()
        o2.read_orbits(path, **kw)
        require(o == o2, "the same file read twice gives different orbits")
    finally:
        shutil.rmtree(d)
    return case["layout"] + ("/delim" if case["delim"] and case["layout"] == "header" else "")


# ------------------------------------------------------------------ tables
@st.composite
def set_case(draw):
    t = draw(table(n=draw(st.integers(2, 5))))
    n = len(t["cols"]["epoch"])
    return {"t": t, "kind": draw(st.sampled_from(["frame", "index", "array", "record", "series"])), "miss": draw(st.lists(st.sampled_from(["H", "g", "sed_filename", "obj_id"]), max_size=3, unique=True)), "i": draw(st.integers(0, n - 1)), "lo": draw(st.integers(0, n - 1)),
            "len": draw(st.integers(1, n)), "col": draw(st.sampled_from(ELEM[t["fmt"]] + ["epoch", "H", "g", "obj_id", "sed_filename"])), "row": draw(st.integers(0, n - 1)), "shift": draw(st.integers(1, 4000)), "empty": draw(st.integers(0, 19)) == 0}


def build(t, kind, miss, i=0):
    df = pd.DataFrame({k: v for k, v in t["cols"].items() if k not in miss})
    if kind == "index":
        df.index = np.arange(len(df))[::-1] + 5
    if kind == "array":
        return df.to_records(index=False).view(np.ndarray)
    if kind == "record":
        return df.to_records(index=False)[i]
    if kind == "series":
        return df.iloc[i]
    return df


def rows(t, sel):
    return {"fmt": t["fmt"], "cols": {k: [v[j] for j in sel] for k, v in t["cols"].items()}}


def set_test(case):
    warnings.simplefilter("ignore")
    t, miss = case["t"], case["miss"]
    n = len(t["cols"]["epoch"])
    o = Orbits()
    if case["empty"]:
        try:
            o.set_orbits(pd.DataFrame(t["cols"])[:0])
            require(False, "empty table accepted")
        except ValueError:
            return None
    given = build(t, case["kind"], miss, case["i"])
    if case["kind"] == "frame":
        given["FORMAT"] = t["fmt"]
        given.index = [7 - k for k in range(n)]
    kept = given.copy()
    o.set_orbits(given)
    require(given.equals(kept) if hasattr(given, "equals") else given == kept if case["kind"] == "record" else np.array_equal(given, kept), "the table given was changed", case["kind"])
    if case["kind"] in ("record", "series"):
        check(o, rows(t, [case["i"]]), miss)
        new = pd.DataFrame({c: o.orbits[c].values for c in ELEM[t["fmt"]] + ["H", "g"]})
        new["epoch"] = float(o.orbits["epoch"].iloc[0]) + case["shift"]
        wid, wsed = o.orbits["obj_id"].tolist(), o.orbits["sed_filename"].tolist()
        o.update_orbits(new)
        require(o.orbits["obj_id"].tolist() == wid and o.orbits["sed_filename"].tolist() == wsed and o.orbits["epoch"].iloc[0] == t["cols"]["epoch"][0] + case["shift"], "identity lost in an update", o.orbits["obj_id"].tolist(), wid)
        return "single"
    check(o, t, miss)
    full = {"fmt": t["fmt"], "cols": dict(t["cols"], **{m: o.orbits[m].tolist() for m in miss})}
    # one, several, all in turn
    check(o[case["i"]], rows(full, [case["i"]]))
    sl = slice(case["lo"], case["lo"] + case["len"])
    check(o[sl], rows(full, list(range(n))[sl]))
    for i, one in enumerate(o):
        check(one, rows(full, [i]))
    require(i == n - 1, "iteration is incomplete")
    # equality: any one difference counts
    same = Orbits()
    same.set_orbits(build(full, "frame", []))
    require(o == same and not (o != same), "equal orbits compare different")
    other = {"fmt": t["fmt"], "cols": {k: list(v) for k, v in full["cols"].items()}}
    v = other["cols"][case["col"]][case["row"]]
    other["cols"][case["col"]][case["row"]] = v + "q" if isinstance(v, str) else v + 1
    oo = Orbits()
    oo.set_orbits(build(other, "frame", []))
    require(not (o == oo) and o != oo, "different orbits compare equal", case["col"])
    require(not (o == o[0:1]) and o != "x" and not (o == None), "orbits equal to something else")  # noqa: E711
    # new elements for the same objects
    new = pd.DataFrame({c: [x + 0.5 for x in full["cols"][c]] for c in ELEM[t["fmt"]] + ["H", "g"]})
    new["epoch"] = t["cols"]["epoch"][0] + case["shift"]
    one = o[case["i"]]
    o.update_orbits(new)
    want = {"fmt": t["fmt"], "cols": dict(full["cols"], **{c: new[c].tolist() for c in new.columns})}
    check(o, want)
    one.update_orbits(new.iloc[[case["i"]]].reset_index(drop=True))
    check(one, rows(want, [case["i"]]))
    return case["kind"]


def arms():
    return [
        Arm("files", file_case(), file_test, 700, rule="any"),
        Arm("tables", set_case(), set_test, 500, rule="any but the empty table"),
    ]
