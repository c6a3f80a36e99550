"""C08: reading visits from a simulation database returns exactly the requested visits and columns."""

import os
import pathlib
import shutil
import sqlite3
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import rubin_sim.maf as maf
from rubin_sim.maf.utils import calc_coadded_depth, get_sim_data, scale_benchmarks
from vp.core import Arm, require
from vp.gen import sized

ASSUMPTIONS = ["sqlite tables with numeric and text columns; constraints built from comparisons, AND, OR, NOT, IN"]
_dir = None
COLS = {"observationId": "i", "night": "i", "fieldRA": "f", "observationStartMJD": "f", "band": "s", "note": "s"}


def setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix="c08_")
    import atexit

    atexit.register(shutil.rmtree, _dir, True)


ival = st.integers(0, 6)
fval = st.integers(-8, 24).map(lambda k: k / 4)
sval = st.sampled_from(["u", "g", "r", "it''s", "a b"])
atom = st.one_of(
    st.tuples(st.just("cmp"), st.just("night"), st.sampled_from(["<", "<=", "=", ">=", ">", "!="]), ival),
    st.tuples(st.just("cmp"), st.just("fieldRA"), st.sampled_from(["<", "<=", "=", ">=", ">", "!="]), fval),
    st.tuples(st.just("cmp"), st.sampled_from(["band", "note"]), st.sampled_from(["=", "!="]), sval),
    st.tuples(st.just("in"), st.just("night"), st.lists(ival, min_size=1, max_size=3)),
    st.tuples(st.just("like"), st.just("note"), st.sampled_from(["a%", "%s", "u"])),
)
expr = st.recursive(atom, lambda c: st.one_of(st.tuples(st.just("and"), c, c), st.tuples(st.just("or"), c, c),
                                              st.tuples(st.just("not"), c)), max_leaves=5)


def sql(e):
    if e[0] == "cmp":
        return "%s %s %s" % (e[1], e[2], "'%s'" % e[3] if isinstance(e[3], str) else repr(e[3]))
    if e[0] == "in":
        return "%s in (%s)" % (e[1], ", ".join(map(str, e[2])))
    if e[0] == "like":
        return "%s like '%s'" % (e[1], e[2])
    if e[0] == "not":
        return "not (%s)" % sql(e[1])
    return "(%s) %s (%s)" % (sql(e[1]), e[0], sql(e[2]))


def ev(e, row):
    if e[0] == "cmp":
        a, b = row[e[1]], e[3]
        if isinstance(b, str):
            b = b.replace("''", "'")
        return {"<": a < b, "<=": a <= b, "=": a == b, ">=": a >= b, ">": a > b, "!=": a != b}[e[2]] if not isinstance(
            b, str) else {"=": a == b, "!=": a != b}[e[2]]
    if e[0] == "in":
        return row[e[1]] in e[2]
    if e[0] == "like":
        return {"a%": row[e[1]].lower().startswith("a"), "%s": row[e[1]].lower().endswith("s"),
                "u": row[e[1]].lower() == "u"}[e[2]]
    if e[0] == "not":
        return not ev(e[1], row)
    x, y = ev(e[1], row), ev(e[2], row)
    return (x and y) if e[0] == "and" else (x or y)


row_st = st.tuples(ival, fval, fval, sval, sval)
sim_case = st.fixed_dictionaries({
    "rows": sized(row_st, 1, 25), "other": sized(row_st, 0, 3),
    "table": st.sampled_from(["observations", "SummaryAllProps", "summary", "mytable"]),
    "give": st.booleans(), "decoy": st.sampled_from([None, "summary", "zzz", "SummaryAllProps"]),
    "expr": st.one_of(st.none(), expr, expr, expr, st.just("")), "cols": st.one_of(
        st.none(), st.lists(st.sampled_from(list(COLS)), min_size=1, max_size=6, unique=True)),
    "conn": st.sampled_from(["path", "conn", "full"]),
    "stack": st.lists(st.integers(1, 4), max_size=2)})


class _A(maf.BaseStacker):
    cols_added = ["vpA"]

    def __init__(self, k=1):
        self.k = k
        self.cols_req = ["observationId"]
        self.units = [""]
        self.cols_added_dtypes = [float]

    def _run(self, sim_data, cols_present=False):
        sim_data["vpA"] = sim_data["observationId"] + self.k
        return sim_data


class _B(_A):
    cols_added = ["vpB"]

    def _run(self, sim_data, cols_present=False):
        sim_data["vpB"] = 2 * sim_data["vpA"] + self.k
        return sim_data


PRIORITY = ["observations", "SummaryAllProps", "summary"]


def sim_test(case):
    fn = os.path.join(tempfile.mkdtemp(dir=_dir), "s.db")
    try:
        con = sqlite3.connect(fn)

        def make(name, rows, base):
            con.execute("create table %s (observationId integer primary key, night integer, fieldRA real, "
                        "observationStartMJD real, band text, note text)" % name)
            out = []
            for i, r in enumerate(rows):
                t = (base + i,) + tuple(v.replace("''", "'") if isinstance(v, str) else v for v in r)
                con.execute("insert into %s values (?,?,?,?,?,?)" % name, t)
                out.append(dict(zip(COLS, t)))
            con.commit()
            return out

        rows = make(case["table"], case["rows"], 0)
        decoy = case["decoy"] if case["decoy"] != case["table"] else None
        if decoy:
            make(decoy, case["other"], 1000)
        give = case["give"] or case["table"] == "mytable" or case["conn"] == "conn" and case["table"] != "observations"
        if decoy in PRIORITY and case["table"] in PRIORITY and PRIORITY.index(decoy) < PRIORITY.index(case["table"]):
            give = True
        e = case["expr"]
        constraint = e if e in (None, "") else sql(e)
        want = [r for r in rows if e in (None, "") or ev(e, r)]
        cols = case["cols"] or list(COLS)
        stackers = [c(k) for c, k in zip((_A, _B), case["stack"])] if "observationId" in cols else None
        kw = {}
        if case["conn"] == "full":
            q = "select %s from %s" % (", ".join(cols), case["table"])
            if constraint:
                q += " where " + constraint
            kw["full_sql_query"] = q
        else:
            kw = {"sqlconstraint": constraint, "dbcols": case["cols"]}
            if give:
                kw["table_name"] = case["table"]
        src = con if case["conn"] == "conn" else fn
        mine = None if kw.get("dbcols") is None else list(kw["dbcols"])
        try:
            got = get_sim_data(src, stackers=stackers, **kw)
        except UserWarning:
            require(not want, "reported no data although some visits match", constraint, want)
            con.close()
            return "empty"
        require(want, "no error although no visit matches", constraint, got)
        require(mine is None or kw["dbcols"] == mine, "caller's column list changed")
        added = [s.cols_added[0] for s in stackers or []]
        require(list(got.dtype.names) == cols + added, "columns", got.dtype.names, cols)
        require(len(got) == len(want), "number of visits", constraint, len(got), len(want))
        for g, w in zip(got, want):
            for c in cols:
                require(g[c] == w[c], "value", c, g[c], w[c])
            if stackers:
                va = w["observationId"] + stackers[0].k
                require(g["vpA"] == va, "first stacker", g["vpA"], va)
                if len(stackers) > 1:
                    require(g["vpB"] == 2 * va + stackers[1].k, "second stacker", g["vpB"])
        con.close()
        return "subset" if len(want) < len(rows) else ("all" if e else None)
    finally:
        shutil.rmtree(os.path.dirname(fn), True)


miss_case = st.sampled_from(["nofile", "notable"])


def missing_test(case):
    d = tempfile.mkdtemp(dir=_dir)
    fn = os.path.join(d, "x.db")
    if case == "notable":
        con = sqlite3.connect(fn)
        con.execute("create table something (a integer)")
        con.commit()
        con.close()
    try:
        get_sim_data(fn, "")
    except (FileNotFoundError, ValueError):
        pass
    else:
        require(False, "no error")
    require(case == "notable" or not os.path.exists(fn), "reading created a database")
    shutil.rmtree(d, True)
    return case


bench_case = st.fixed_dictionaries({"years": st.integers(1, 200).map(lambda k: k / 8), "which": st.sampled_from(
    ["design", "stretch"]), "n": st.dictionaries(st.sampled_from("ugrizy"), st.integers(0, 1000), min_size=1),
    "d": st.lists(st.floats(18, 28), min_size=6, max_size=6)})


def bench_test(case):
    full = scale_benchmarks(10, case["which"])
    b = scale_benchmarks(case["years"], case["which"])
    require(set(b) == set(full), "keys")
    for f in "ugrizy":
        x = full["nvisits"][f] * case["years"] / 10
        require(b["nvisits"][f] in (int(np.floor(x)), int(np.floor(x + 1e-9)), int(np.floor(x - 1e-9))),
                "visits do not scale with the length", f, b["nvisits"][f], x)
        for k in ("singleVisitDepth", "skybrightness", "seeing", "FWHMeff"):
            require(b[k][f] == full[k][f], "a per-visit benchmark changed with the length", k)
    require(scale_benchmarks(10, case["which"]) == full, "benchmarks drift between calls")
    depth = dict(zip("ugrizy", case["d"]))
    c = calc_coadded_depth(case["n"], depth)
    require(set(c) == set(case["n"]), "bands")
    for f, n in case["n"].items():
        want = depth[f] + (1.25 * np.log10(n) if n else 0.0)
        require(abs(c[f] - want) < 1e-9, "coadded depth", f, n, c[f], want)
    try:
        calc_coadded_depth({"u": 1, "q": 2}, depth)
        require(False, "unknown band accepted")
    except ValueError:
        pass
    return "bench"


def arms():
    r = "1-25 visits, nested constraints; non-trivial: a constraint was given (label: subset/all/empty selection)"
    return [
        Arm("read", sim_case, sim_test, 350, rule=r, setup=setup),
        Arm("read2", sim_case, sim_test, 350, rule=r, setup=setup),
        Arm("missing", miss_case, missing_test, 4, rule="both cases", setup=setup),
        Arm("bench", bench_case, bench_test, 300, rule="every case"),
    ]
