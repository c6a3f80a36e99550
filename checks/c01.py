"""C01: value-binned and time-interval slicers put each visit in exactly the right slice."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vp.core import Arm, Reject, require
from vp.gen import grid, to_rec

import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.maps as maps


class _ShiftMap(maps.BaseMap):
    """A map that tags every slice point, to see that slices carry their own point."""

    def __init__(self):
        self.keynames = ["tagval"]

    def run(self, sp):
        sp["tagval"] = np.asarray(sp["sid"]) * 10.0 + 1
        return sp


def idset(s, n):
    a = np.asarray(s["idxs"])
    if a.dtype == bool:
        a = np.where(a)[0]
    a = np.atleast_1d(a).ravel().astype(int)
    out = sorted(a.tolist())
    require(len(set(out)) == len(out), "a visit appears twice in one slice", out)
    require(all(0 <= i < n for i in out), "slice refers to a non-existent visit", out)
    return out


# ---------------------------------------------------------------- OneD
@st.composite
def oned_case(draw):
    n = draw(st.integers(1, 40))
    x = draw(st.lists(grid(-4, 12), min_size=n, max_size=n))
    mode = draw(st.sampled_from(["bins", "bins", "minmaxsize", "size", "min_size", "auto"]))
    case = {"x": x, "mode": mode}
    if mode == "bins":
        b = draw(st.lists(grid(-5, 13), min_size=2, max_size=9, unique=True))
        case["bins"] = sorted(b)
    elif mode == "minmaxsize":
        lo = draw(grid(-5, 5))
        case.update(bin_min=lo, bin_max=lo + draw(st.integers(1, 8)), bin_size=draw(st.sampled_from([0.25, 0.5, 1.0])))
    elif mode == "size":
        case["bin_size"] = draw(st.sampled_from([0.25, 0.5, 1.0, 3.0]))
    elif mode == "min_size":
        case["bin_min"] = draw(grid(-8, -4))
        case["bin_size"] = draw(st.sampled_from([0.25, 0.5, 1.0]))
    case["warn_both"] = draw(st.booleans())
    # visits without a value belong to no slice
    case["nan"] = draw(st.lists(st.integers(1, n - 1), max_size=3)) if n > 1 and draw(st.booleans()) else []
    return case


def oned_test(case):
    x = np.array(case["x"], float)
    x[case["nan"]] = np.nan
    data = to_rec({"other": list(range(len(x))), "x": list(map(float, x))})
    kw = {k: case[k] for k in ("bin_min", "bin_max", "bin_size") if k in case}
    if "bins" in case:
        kw["bins"] = np.array(case["bins"], float)
        if case["warn_both"]:
            kw["bin_size"] = 0.125
    s = slicers.OneDSlicer(slice_col_name="x", verbose=False, **kw)
    s.setup_slicer(data, maps=[_ShiftMap()])
    bins = np.asarray(s.get_slice_points()["bins"], float)
    require(len(bins) == s.nslice + 1 == len(s) + 1, "number of bin edges vs slices")
    if "bins" in case:
        require(np.array_equal(bins, case["bins"]), "explicit bins not honoured", bins)
    else:
        lo = case.get("bin_min", np.nanmin(x))
        hi = case.get("bin_max", np.nanmax(x))
        require(bins[0] == lo, "first edge", bins[0], lo)
        if hi == lo:
            hi = lo + (2 * case["bin_size"] if "bin_size" in case else 1)
        size = case.get("bin_size", (hi - lo) / s.nslice)
        require(np.allclose(np.diff(bins), size, rtol=1e-9, atol=1e-9), "bin width", np.diff(bins), size)
        require(bins[-1] > hi - size / 2 - 1e-6 and bins[-1] < hi + size / 2 + 1e-6, "last edge", bins[-1], hi)
    seen = {}
    for i, sl in enumerate(s):
        got = idset(sl, len(x))
        sp = sl["slice_point"]
        require(sp["sid"] == i and sp["bin_left"] == bins[i] and sp["bin_right"] == bins[i + 1], "slice point", i, sp)
        want = [k for k in range(len(x)) if bins[i] <= x[k] < bins[i + 1]]
        require(got == want, "slice membership", i, bins[i], bins[i + 1], got, want)
        require(idset(s[i], len(x)) == want, "indexing a slice differs from iterating to it")
        for k in got:
            require(k not in seen, "visit in two slices", k)
            seen[k] = i
    require(np.array_equal(s.get_slice_points()["tagval"], np.arange(s.nslice) * 10.0 + 1), "map values")
    return f"oned-{case['mode']}" if 0 < len(seen) and s.nslice > 1 else None


# ---------------------------------------------------------------- ND
@st.composite
def nd_case(draw):
    n = draw(st.integers(1, 30))
    nd = draw(st.integers(1, 3))
    cols = [draw(st.lists(grid(0, 8), min_size=n, max_size=n)) for _ in range(nd)]
    bl = []
    for _ in range(nd):
        if draw(st.booleans()):
            bl.append(draw(st.integers(1, 4)))
        else:
            bl.append(draw(st.lists(grid(-1, 9), min_size=2, max_size=5, unique=True)))
    single = draw(st.sampled_from([None, None, 2, 3]))
    return {"cols": cols, "bins": bl, "single": single}


def nd_test(case):
    cols = [np.array(c, float) for c in case["cols"]]
    n = len(cols[0])
    names = [f"c{i}" for i in range(len(cols))]
    data = to_rec({k: list(map(float, c)) for k, c in zip(names, cols)})
    if case["single"] is not None:
        spec = case["single"]
        each = [case["single"]] * len(cols)
    else:
        each = case["bins"]
        spec = [b if isinstance(b, int) else np.array(b, float) for b in each]
    s = slicers.NDSlicer(slice_col_list=names, bins_list=spec, verbose=False)
    s.setup_slicer(data)
    edges = []
    for b, c in zip(each, cols):
        if isinstance(b, int):
            lo, hi = c.min(), c.max()
            if lo == hi:
                hi = hi + 1
            edges.append(np.array([lo + (hi - lo) / b * k for k in range(b)] + [np.inf]))
        else:
            e = np.sort(np.array(b, float))
            e[-1] = np.inf
            edges.append(e)
    nsl = int(np.prod([len(e) - 1 for e in edges]))
    require(len(s) == nsl, "number of slices", len(s), nsl)

    def member(c, e, i):
        # stay clear of edges that are not exactly representable
        return (c >= e[i] - 1e-9) & (c < e[i + 1] - 1e-9)

    for c, e in zip(cols, edges):
        for v in e[:-1]:
            d = np.abs(c - v)
            if np.any((d > 0) & (d < 1e-7)):
                raise Reject
    shape = [len(e) - 1 for e in edges]
    total = 0
    for i, sl in enumerate(s):
        idx = np.unravel_index(i, shape)
        left = sl["slice_point"]["bin_left"]
        require(np.allclose(left, [e[k] for e, k in zip(edges, idx)], atol=1e-9), "bin_left", left)
        require(sl["slice_point"]["sid"] == i, "sid")
        m = np.ones(n, bool)
        for c, e, k in zip(cols, edges, idx):
            m &= member(c, e, k)
        want = np.where(m)[0].tolist()
        got = idset(sl, n)
        require(got == want, "slice membership", i, left, got, want)
        total += len(got)
    return "nd%d" % len(cols) if nsl > 1 and total else None


# ---------------------------------------------------------------- Movie
@st.composite
def movie_case(draw):
    n = draw(st.integers(1, 30))
    x = draw(st.lists(grid(0, 10), min_size=n, max_size=n))
    mode = draw(st.sampled_from(["array", "int", "size", "minmax"]))
    case = {"x": x, "mode": mode, "cumulative": draw(st.booleans()), "units": draw(st.booleans())}
    if mode == "array":
        case["bins"] = draw(st.lists(grid(-1, 11), min_size=2, max_size=7, unique=True))
    elif mode == "int":
        case["bins"] = draw(st.integers(1, 6))
    elif mode == "size":
        case["bin_size"] = draw(st.sampled_from([0.5, 1.0, 2.0]))
    else:
        lo = draw(grid(-1, 5))
        case.update(bin_min=lo, bin_max=lo + draw(st.integers(1, 6)), bin_size=draw(st.sampled_from([0.5, 1.0])))
    return case


def movie_test(case):
    x = np.array(case["x"], float)
    data = to_rec({"x": list(map(float, x))})
    kw = {k: case[k] for k in ("bin_min", "bin_max", "bin_size") if k in case}
    if "bins" in case:
        kw["bins"] = case["bins"] if isinstance(case["bins"], int) else np.array(case["bins"], float)
    s = slicers.MovieSlicer(slice_col_name="x", cumulative=case["cumulative"], force_no_ffmpeg=True, verbose=False, **kw)
    s.setup_slicer(data)
    bins = np.asarray(s.get_slice_points()["bins"], float)
    if isinstance(case.get("bins"), list):
        require(np.array_equal(bins, np.sort(case["bins"])), "bins", bins)
    else:
        lo = case.get("bin_min", x.min())
        hi = case.get("bin_max", x.max())
        if lo == hi:
            hi = lo + (2 * case["bin_size"] if "bin_size" in case else 1)
        size = case.get("bin_size", (hi - lo) / case["bins"] if "bins" in case else None)
        require(bins[0] == lo and np.allclose(np.diff(bins), size, atol=1e-9), "bins", bins)
        require(abs(bins[-1] - hi) <= size / 2 + 1e-6, "last edge", bins, hi)
    for v in bins:
        d = np.abs(x - v)
        if np.any((d > 0) & (d < 1e-7)):
            raise Reject
    any_in = 0
    for i, sl in enumerate(s):
        hi = np.inf if i == s.nslice - 1 else bins[i + 1]
        lo = -np.inf if case["cumulative"] else bins[i]
        want = [k for k in range(len(x)) if (x[k] > lo - 1e-9) and (x[k] < hi - 1e-9)]
        got = idset(sl, len(x))
        require(got == want, "frame membership", i, got, want)
        sp = sl["slice_point"]
        require(sp["sid"] == i and sp["bin_right"] == bins[i + 1], "slice point", sp)
        require(sp["bin_left"] == (bins[0] if case["cumulative"] else bins[i]), "bin_left", sp)
        any_in += len(got)
    return "movie-" + case["mode"] if s.nslice > 1 and any_in else None


# ---------------------------------------------------------------- time intervals
@st.composite
def ti_case(draw):
    n = draw(st.integers(1, 15))
    nights = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    step = draw(st.sampled_from([600, 900, 1800, 3600]))
    secs = draw(st.lists(st.integers(0, 86399), min_size=n, max_size=n))
    return {"night": nights, "secs": secs, "interval": step}


def ti_test(case):
    # times at half-second offsets: never on an interval edge
    mjd = np.array([60000 + a + (b + 0.5) / 86400.0 for a, b in zip(case["night"], case["secs"])])
    data = to_rec({"observationStartMJD": mjd.tolist(), "v": list(range(len(mjd)))})
    s = slicers.TimeIntervalSlicer(interval_seconds=case["interval"])
    s.setup_slicer(data)
    sp = s.get_slice_points()
    require(np.all(sp["duration"] == case["interval"]), "duration")
    start = int(np.floor(mjd.min()))
    require(abs(sp["mjd"][0] - start) < 1e-9, "first interval starts at the first midnight")
    seen = []
    for i in range(s.nslice):
        sl = s[i]
        t0 = start + i * case["interval"] / 86400.0
        require(abs(sl["slice_point"]["mjd"] - t0) < 1e-7 and sl["slice_point"]["sid"] == i, "slice point", i)
        want = [k for k in range(len(mjd)) if t0 <= mjd[k] < t0 + case["interval"] / 86400.0]
        a = np.asarray(sl["idxs"])
        require(len(data[sl["idxs"]]) == len(want), "interval holds", i, a, "expected", want)
        got = sorted(a.ravel().astype(int).tolist())
        require(got == want, "interval membership", i, got, want)
        seen += got
    require(sorted(seen) == list(range(len(mjd))), "every visit is in one interval")
    return "ti" if len(set(np.floor((mjd - start) * 86400 / case["interval"]))) > 1 else None


@st.composite
def block_case(draw):
    n = draw(st.integers(1, 20))
    notes = draw(st.lists(st.sampled_from(["a", "b", "DD:x"]), min_size=n, max_size=n))
    gaps = draw(st.lists(st.sampled_from([-0.05, -0.005, 0.0, 0.01, 0.05, 0.0999, 0.1001, 0.5, 10.0]),
                         min_size=n, max_size=n))
    dur = draw(st.lists(st.sampled_from([2.0, 10.0, 30.0, 34.0, 60.0]), min_size=n, max_size=n))
    perm = draw(st.permutations(list(range(n))))
    return {"notes": notes, "gaps": gaps, "dur": dur, "perm": list(perm)}


def block_test(case):
    n = len(case["notes"])
    t = 60000.2
    mjd = []
    for g, d in zip(case["gaps"], case["dur"]):
        # a negative gap is a visit which starts before the one before has ended
        t = t + g / 24.0
        if mjd:
            t = max(t, mjd[-1] + 1.0 / 86400)
        mjd.append(t)
        t = t + d / 86400.0
    # reference blocks in time order
    blocks = []
    for i in range(n):
        if i and case["notes"][i] == case["notes"][i - 1] and case["gaps"][i] < 0.1:
            blocks[-1].append(i)
        else:
            blocks.append([i])
    perm = case["perm"]
    data = to_rec({
        "observationStartMJD": [mjd[p] for p in perm],
        "visitTime": [case["dur"][p] for p in perm],
        "scheduler_note": [case["notes"][p] for p in perm],
    })
    s = slicers.BlockIntervalSlicer()
    s.setup_slicer(data)
    require(s.nslice == len(blocks), "number of blocks", s.nslice, blocks)
    for i, b in enumerate(blocks):
        sl = s[i]
        got = sorted(perm[k] for k in np.asarray(sl["idxs"]).ravel().astype(int))
        require(got == b, "block membership", i, got, b)
        m0 = mjd[b[0]]
        dur = max((mjd[k] - m0) * 86400 + case["dur"][k] for k in b)
        require(abs(sl["slice_point"]["mjd"] - m0) < 1e-9, "block start")
        require(abs(sl["slice_point"]["duration"] - dur) < 1e-3, "block duration", sl["slice_point"]["duration"], dur)
    return "block" if 1 < len(blocks) < n else None


def visit_test(case):
    n = len(case["notes"])
    t = 60000.2
    mjd = []
    for g, d in zip(case["gaps"], case["dur"]):
        t = t + max(g, 0.001) / 24.0
        mjd.append(t)
        t = t + d / 86400.0
    perm = case["perm"]
    data = to_rec({
        "observationStartMJD": [mjd[p] for p in perm],
        "visitTime": [case["dur"][p] for p in perm],
    })
    s = slicers.VisitIntervalSlicer()
    s.setup_slicer(data)
    require(s.nslice == n, "one slice per visit")
    seen = []
    for i in range(n):
        sl = s[i]
        k = int(np.asarray(sl["idxs"]).ravel()[0])
        seen.append(k)
        require(sl["slice_point"]["mjd"] == data["observationStartMJD"][k], "slice point time is not its visit's time",
                i, k)
        require(sl["slice_point"]["duration"] == data["visitTime"][k], "slice point duration is not its visit's")
        require(s.get_slice_points()["mjd"][i] == data["observationStartMJD"][k], "slice_points out of step")
    require(sorted(seen) == list(range(n)), "each visit exactly once")
    return "visit" if n > 2 and perm != sorted(perm) else None


# ---------------------------------------------------------------- equality and repeated setup
@st.composite
def eq_case(draw):
    def one():
        return {"kind": draw(st.sampled_from(["oned", "oned", "nd", "nd", "movie", "movie", "uni", "time", "block", "visit", "healpix", "user"])),
                "col": draw(st.sampled_from(["x", "y"])),
                "b": draw(st.sampled_from([[0.0, 1.0, 2.0, 4.0], [0.0, 1.0, 2.0, 5.0], [0.0, 1.0, 2.0]])),
                "b2": draw(st.sampled_from([[0.0, 1.0, 2.0, 4.0], [0.0, 1.0, 3.0, 4.0]])),
                "cum": draw(st.booleans()), "size": draw(st.sampled_from([None, None, 0.5, 1.0])),
                "lo": draw(st.sampled_from([0.0, -1.0])), "hi": draw(st.sampled_from([4.0, 5.0])), "third": draw(st.booleans()),
                "interval": draw(st.sampled_from([1800, 3600])), "other": draw(st.booleans()), "nside": draw(st.sampled_from([1, 2])),
                "radius": draw(st.sampled_from([20.0, 40.0]))}

    n = draw(st.integers(1, 20))
    a = one()
    b = one()
    if draw(st.integers(0, 3)):
        # the same request but for one thing
        k = draw(st.sampled_from(sorted(set(a) - {"kind"})))
        b = dict(a, **{k: b[k]})
    return {"a": a, "b": b, "x": draw(st.lists(grid(0, 6), min_size=n, max_size=n)),
            "y": draw(st.lists(grid(0, 6), min_size=n, max_size=n)), "setup": draw(st.sampled_from(["none", "both", "first"])), "before": draw(st.booleans())}


def _mk(d):
    k = d["kind"]
    sized = dict(bin_size=d["size"], bin_min=d["lo"], bin_max=d["hi"])
    if k == "oned":
        kw = sized if d["size"] else {"bins": np.array(d["b"])}
        return slicers.OneDSlicer(slice_col_name=d["col"], verbose=False, **kw)
    if k == "nd":
        cols = ["x", "y"] if d["col"] == "x" else ["y", "x"]
        bins = [np.array(d["b"]), np.array(d["b2"])]
        if d["third"]:
            cols, bins = cols + ["z"], bins + [np.array([0.0, 3.0, 8.0])]
        return slicers.NDSlicer(cols, bins_list=bins, verbose=False)
    if k == "movie":
        kw = sized if d["size"] else {"bins": np.array(d["b"])}
        return slicers.MovieSlicer(slice_col_name=d["col"], cumulative=d["cum"], force_no_ffmpeg=True, verbose=False, **kw)
    t = {"mjd_column_name": "t2"} if d["other"] else {}
    if k == "time":
        return slicers.TimeIntervalSlicer(interval_seconds=d["interval"], **t)
    if k == "block":
        return slicers.BlockIntervalSlicer(**t, **({"note_column_name": "note2"} if d["cum"] else {}))
    if k == "visit":
        return slicers.VisitIntervalSlicer(**t)
    sky = dict(lon_col="ra2" if d["other"] else "fieldRA", radius=d["radius"], use_camera=False, verbose=False)
    if k == "healpix":
        return slicers.HealpixSlicer(nside=d["nside"], use_cache=False, **sky)
    if k == "user":
        return slicers.UserPointsSlicer([10.0 * v for v in d["b"]], [5.0 * v for v in d["b"]], **sky)
    return slicers.UniSlicer(verbose=False)


def _visits(x, y):
    return to_rec({"x": list(map(float, x)), "y": list(map(float, y)), "z": [(float(v) * 3) % 7 for v in x],
                   "observationStartMJD": [60000.1 + 0.07 * float(v) for v in x], "t2": [60000.3 + 0.05 * float(v) for v in y],
                   "visitTime": [30.0] * len(x), "scheduler_note": ["a" if float(v) < 3 else "b" for v in x],
                   "note2": ["a" if float(v) < 2 else "b" for v in y], "fieldRA": [15.0 * float(v) for v in x], "ra2": [15.0 * float(v) for v in y],
                   "fieldDec": [10.0 * float(v) for v in y], "rotSkyPos": [0.0] * len(x)})


def _slices(s, n):
    return [sorted(np.ravel(s[i]["idxs"]).astype(int).tolist()) for i in range(len(s))]


def eq_test(case):
    data = _visits(case["x"], case["y"])
    n = len(data)
    a, b, a2 = _mk(case["a"]), _mk(case["b"]), _mk(case["a"])
    if case["before"]:
        # used before, on other visits
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a2.setup_slicer(_visits([v / 2 + 1 for v in case["y"]] + [5.5], [v / 3 for v in case["x"]] + [0.25]))
            a2.setup_slicer(data)
        a.setup_slicer(data)
        b.setup_slicer(data)
        require(_slices(a, n) == _slices(a2, n), "a slicer used before on other visits slices these differently", case["a"], _slices(a2, n), _slices(a, n))
        for k, v in a.get_slice_points().items():
            require(np.array_equal(np.asarray(v), np.asarray(a2.get_slice_points()[k])), "slice points of a slicer used before", k)
    elif case["setup"] != "none":
        for s in (a, b, a2):
            if s is not b or case["setup"] == "both":
                s.setup_slicer(data)
    require(a == a2 and not (a != a2), "identically specified slicers are not equal", case["a"])
    equal = bool(a == b)
    require(equal == (not (a != b)) and equal == bool(b == a), "equality not symmetric")
    for s in (a, b, a2):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.setup_slicer(data)
    if a.nslice == 1 and case["a"]["kind"] == "uni":
        require(idset(a[0], n) == list(range(n)), "the single slice holds every visit")
    if equal:
        require(type(a) is type(b) and len(a) == len(b), "equal slicers differ in kind or length")
        require(_slices(a, n) == _slices(b, n), "slicers that compare equal slice the visits differently", case["a"], case["b"])
        return "equal-" + case["a"]["kind"] + ("-reused" if case["before"] else "")
    return "unequal-" + case["a"]["kind"] + ("-reused" if case["before"] else "") if case["a"]["kind"] == case["b"]["kind"] else None


def arms():
    return [
        Arm("oned", oned_case(), oned_test, 700, rule="1-40 visits on a quarter grid, explicit/derived bins; "
            "non-trivial: >1 slice and some visit binned"),
        Arm("nd", nd_case(), nd_test, 400, rule="1-3 columns; non-trivial: >1 slice, some visit binned"),
        Arm("movie", movie_case(), movie_test, 400, rule="cumulative and differential frames; non-trivial: >1 frame"),
        Arm("timeinterval", ti_case(), ti_test, 120, rule="non-trivial: visits in >1 interval"),
        Arm("block", block_case(), block_test, 150, rule="non-trivial: some block has several visits"),
        Arm("visit", block_case(), visit_test, 150, rule="non-trivial: >2 visits out of time order"),
        Arm("equality", eq_case(), eq_test, 500, rule="non-trivial: two slicers of one kind"),
    ]


ASSUMPTIONS = ["values are finite; visits exactly on a non-representable derived bin edge are not generated"]
