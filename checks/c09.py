"""C09: one-column statistics, angle statistics and counts are what their definitions say."""

import math

import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.metrics as m
from vp.core import Arm, require
from vp.gen import sized, to_rec

ASSUMPTIONS = ["finite values (except for the finite-only mean); scatter of angles judged unless two largest gaps tie"]

val = st.integers(-40, 40).map(lambda k: k / 4)
band = st.sampled_from("ugrizy")


@st.composite
def stat_case(draw):
    n = draw(st.integers(1, 24))
    small = draw(st.booleans())
    v = st.integers(-3, 3).map(float) if small else val
    return {"x": draw(st.lists(v, min_size=n, max_size=n)), "band": draw(st.lists(band, min_size=n, max_size=n)),
            "p": draw(st.integers(0, 100)), "cut": draw(val), "cut2": draw(val), "scale": draw(st.sampled_from([1, 10, 0.25])),
            "ns": draw(st.sampled_from([-3, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3])), "norm": draw(st.integers(1, 9)),
            "perm": draw(st.permutations(range(n))), "f": draw(band),
            "bad": draw(st.sampled_from([-666, 0, -1.0])),
            "exp": draw(st.lists(st.sampled_from([0.0, 5, 15, 19.9, 20, 25, 30, 31, 38, 44, 46, 60, 75]), min_size=n, max_size=n)),
            "minexp": draw(st.sampled_from([10.0, 20.0, 30.0])), "expexp": draw(st.sampled_from([15.0, 30.0]))}


def pct(xs, p):
    s = sorted(xs)
    k = (len(s) - 1) * p / 100.0
    lo = int(math.floor(k))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (k - lo)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def stat_test(case):
    x = case["x"]
    n = len(x)
    d = to_rec({"x": x, "band": case["band"], "visitExposureTime": [float(e) for e in case["exp"]]})
    mean = math.fsum(x) / n
    std = math.sqrt(math.fsum((v - mean) ** 2 for v in x) / n)
    med = pct(x, 50)
    ab = [abs(v) for v in x]
    lo, hi = sorted((case["cut"], case["cut2"]))
    bd = mean + case["ns"] * std
    want = [
        (m.MaxMetric("x"), max(x)), (m.MinMetric("x"), min(x)), (m.AbsMaxMetric("x"), max(ab)),
        (m.MeanMetric("x"), mean), (m.AbsMeanMetric("x"), math.fsum(ab) / n), (m.MedianMetric("x"), med),
        (m.AbsMedianMetric("x"), pct(ab, 50)), (m.FullRangeMetric("x"), max(x) - min(x)), (m.RmsMetric("x"), std),
        (m.SumMetric("x"), math.fsum(x)), (m.CountUniqueMetric("x"), len(set(x))),
        (m.UniqueRatioMetric("x"), len(set(x)) / n), (m.CountMetric("x"), n),
        (m.CountRatioMetric("x", norm_val=case["norm"]), n / case["norm"]),
        (m.CountSubsetMetric("band", subset=case["f"]), case["band"].count(case["f"])),
        (m.CountSubsetMetric("x", subset=case["cut"]), x.count(case["cut"])),
        (m.CountBeyondThreshold("x"), n),
        (m.CountBeyondThreshold("x", lower_threshold=lo), sum(v > lo for v in x)),
        (m.CountBeyondThreshold("x", upper_threshold=hi), sum(v < hi for v in x)),
        (m.CountBeyondThreshold("x", lower_threshold=lo, upper_threshold=hi), sum(lo < v < hi for v in x)),
        (m.RobustRmsMetric("x"), (pct(x, 75) - pct(x, 25)) / 1.349),
        (m.MaxPercentMetric("x"), 100.0 * x.count(max(x)) / n),
        (m.BinaryMetric("x"), 1),
        (m.FracAboveMetric("x", cutoff=case["cut"], scale=case["scale"]), sum(v >= case["cut"] for v in x) / n * case["scale"]),
        (m.FracBelowMetric("x", cutoff=case["cut"], scale=case["scale"]), sum(v <= case["cut"] for v in x) / n * case["scale"]),
        (m.PercentileMetric("x", percentile=case["p"]), pct(x, case["p"])),
        (m.RealMeanMetric("x"), mean),
        (m.CountExplimMetric(min_exp=case["minexp"], expected_exp=case["expexp"]),
         sum(round(e / case["expexp"]) for e in case["exp"] if e >= case["minexp"])),
    ]
    if max(x) == max(ab):
        want.append((m.AbsMaxPercentMetric("x"), 100.0 * ab.count(max(ab)) / n))
    if med != 0:
        want.append((m.RelRmsMetric("x"), std / med))
    if min(abs(v - bd) for v in x) > 1e-9:
        want.append((m.NoutliersNsigmaMetric("x", n_sigma=case["ns"]),
                     sum(v > bd for v in x) if case["ns"] >= 0 else sum(v < bd for v in x)))
    dp = d[np.array(case["perm"], int)]
    before = d.copy()
    for met, w in want:
        g = met.run(d, None)
        require(close(float(g), w), type(met).__name__, float(g), w)
        require(close(float(met.run(dp, None)), w), type(met).__name__, "depends on the order of the visits")
        require(np.array_equal(d, before), type(met).__name__, "changed the visits")
    # values that are not finite are left out by the finite-only mean
    e = to_rec({"x": x + [float("nan"), float("inf"), -float("inf")]})
    require(close(float(m.RealMeanMetric("x").run(e, None)), mean), "finite mean")
    empty = d[:0]
    require(m.BinaryMetric("x", badval=case["bad"]).run(empty, None) == case["bad"], "binary of nothing")
    require(m.CountMetric("x").run(empty, None) == 0 and m.CountSubsetMetric("band", subset="u").run(empty, None) == 0
            and m.CountBeyondThreshold("x", lower_threshold=0).run(empty, None) == 0, "count of nothing")
    require(np.array_equal(m.PassMetric(["x"]).run(d, None), d), "pass-through")
    # coadded depth
    full = m.Coaddm5Metric(m5_col="x", badval=case["bad"])
    c = 1.25 * math.log10(math.fsum(10 ** (0.8 * v) for v in x))
    require(close(float(full.run(d, None)), c, 1e-8), "coadded depth", float(full.run(d, None)), c)
    require(full.run(empty, None) == case["bad"], "coadded depth of nothing")
    inb = [v for v, b in zip(x, case["band"]) if b == case["f"]]
    g = float(m.Coaddm5Metric(m5_col="x", filter_name=case["f"], filter_col="band", badval=case["bad"]).run(d, None))
    w = 1.25 * math.log10(math.fsum(10 ** (0.8 * v) for v in inb)) if inb else case["bad"]
    require(close(g, w, 1e-8), "coadded depth in a band", g, w)
    # mapping
    mp = {b: i for i, b in enumerate("ugrizy")}
    got = m.ApplyMappingMetric("band", mapping=mp, metric_dtype="int").run(d, None)
    require([int(g) for g in got] == [mp[b] for b in case["band"]], "mapping")
    require(int(m.ApplyMappingMetric("band", mapping=mp).run(d[0], None)) == mp[case["band"][0]], "mapping of one visit")
    return "ties" if len(set(x)) < n else ("distinct" if n > 2 else None)


@st.composite
def angle_case(draw):
    n = draw(st.integers(1, 12))
    mode = draw(st.sampled_from(["any", "cluster", "wrap"]))
    if mode == "any":
        a = draw(st.lists(st.integers(0, 3599).map(lambda k: k / 10), min_size=n, max_size=n))
    else:
        c = draw(st.integers(0, 359)) if mode == "cluster" else draw(st.sampled_from([0, 359, 1]))
        w = draw(st.sampled_from([5, 40, 120]))
        a = [(c + draw(st.integers(-10 * w, 10 * w)) / 10) % 360 for _ in range(n)]
    return {"a": a, "rot": draw(st.integers(0, 3599)) / 10, "period": draw(st.sampled_from([2 * math.pi, 360.0, 24.0, 1.0]))}


def angle_test(case):
    a = case["a"]
    n = len(a)
    d = to_rec({"x": [float(v) for v in a]})
    rd = to_rec({"x": [float((v + case["rot"]) % 360) for v in a]})
    r = [math.radians(v) for v in a]
    mx, my = math.fsum(map(math.cos, r)) / n, math.fsum(map(math.sin, r)) / n
    rad = math.hypot(mx, my)
    mean = m.MeanAngleMetric("x").run(d, None)
    if abs(rad - 0.1) > 1e-6:
        w = 180.0 if rad < 0.1 else math.degrees(math.atan2(my, mx)) % 360
        dlt = abs(mean - w) % 360
        require(min(dlt, 360 - dlt) < 1e-6, "mean angle", float(mean), w)
        require(0 <= mean <= 360, "mean angle range", float(mean))
        if rad > 0.1:
            g = m.MeanAngleMetric("x").run(rd, None)
            dlt = abs(g - mean - case["rot"]) % 360
            require(min(dlt, 360 - dlt) < 1e-5, "mean angle does not rotate with the angles", float(g), float(mean))
    # smallest arc holding all angles
    s = sorted(a)
    gaps = [s[(i + 1) % n] - s[i] + (360 if i == n - 1 else 0) for i in range(n)]
    full = 360 - max(gaps)
    g = float(m.FullRangeAngleMetric("x").run(d, None))
    require(abs(g - full) < 1e-6, "range of angles", g, full)
    require(abs(float(m.FullRangeAngleMetric("x").run(rd, None)) - full) < 1e-6, "range of angles changes by rotation")
    gs = sorted(gaps)
    if n == 1 or gs[-1] - gs[-2] > 1e-6:
        i = gaps.index(max(gaps))
        o = s[(i + 1) % n]
        u = [(v - o) % 360 for v in a]
        mu = math.fsum(u) / n
        w = math.sqrt(math.fsum((v - mu) ** 2 for v in u) / n)
        g = float(m.RmsAngleMetric("x").run(d, None))
        require(abs(g - w) < 1e-6, "scatter of angles", g, w)
        require(abs(float(m.RmsAngleMetric("x").run(rd, None)) - w) < 1e-5, "scatter of angles changes by rotation")
    p = case["period"]
    t = to_rec({"x": [v / 360 * p for v in a]})
    g = float(m.AngularSpreadMetric("x", period=p).run(t, None))
    require(abs(g - (1 - rad)) < 1e-9, "angular spread", g, 1 - rad)
    wraps = max(a) - min(a) > full + 1e-6
    return "wraps" if wraps and n > 1 else ("plain" if n > 1 else None)


@st.composite
def tech_case(draw):
    n = draw(st.integers(1, 20))
    t = draw(st.lists(st.integers(0, 400), min_size=n, max_size=n, unique=True))
    return {"t": t, "band": draw(st.lists(st.sampled_from("ugr" if draw(st.booleans()) else "ug"), min_size=n, max_size=n)),
            "cut": draw(st.integers(0, 40)), "exp": draw(st.lists(st.integers(1, 60), min_size=n, max_size=n)),
            "slew": draw(st.lists(st.integers(0, 100), min_size=n, max_size=n)), "gap": draw(st.integers(1, 40)),
            "fudge": draw(st.sampled_from([0, 2.5])), "night": draw(st.lists(st.integers(0, 3800), min_size=n, max_size=n)),
            "note": draw(st.lists(st.sampled_from(["a, 1", "a, 2", "a", "b, c", "", "c, d, 3", "u"]), min_size=n, max_size=n)),
            "percent": draw(st.booleans()), "clip": draw(st.booleans())}


def tech_test(case):
    # times in minutes, half a minute away from any cutoff
    mins = case["t"]
    n = len(mins)
    d = to_rec({"observationStartMJD": [60000 + v / 1440.0 for v in mins], "band": case["band"],
                "visitExposureTime": [float(v) for v in case["exp"]], "visitTime": [v + 3.0 for v in case["exp"]],
                "slewTime": [float(v) for v in case["slew"]], "night": case["night"], "note": case["note"]})
    o = sorted(range(n), key=lambda i: mins[i])
    b = [case["band"][i] for i in o]
    t = [mins[i] for i in o]
    ch = [t[i] for i in range(1, n) if b[i] != b[i - 1]]
    require(m.NChangesMetric().run(d) == len(ch), "number of changes", m.NChangesMetric().run(d), len(ch))
    prev = [t[0]] + ch[:-1]
    dt = [x - y for x, y in zip(ch, prev)]
    g = m.MinTimeBetweenStatesMetric(badval=-5).run(d)
    require(abs(g - (min(dt) if dt else -5)) < 1e-5, "time between changes", float(g), dt)
    cut = case["cut"] + 0.5
    g = m.NStateChangesFasterThanMetric(cutoff=cut).run(d)
    require(g == sum(x < cut for x in dt), "fast changes", int(g), dt, cut)
    g = m.MaxStateChangesWithinMetric(timespan=cut).run(d)
    w = max([sum(c <= y <= c + cut for y in ch) for c in ch] or [0])
    require(g == w, "changes within a time span", int(g), w, ch, cut)
    tot = sum(case["slew"]) + sum(v + 3.0 for v in case["exp"])
    require(close(m.OpenShutterFractionMetric().run(d), sum(case["exp"]) / tot), "open shutter fraction")
    good = [y - x for x, y in zip(t, t[1:]) if y - x < case["gap"] + 0.5]
    if good:
        g = m.BruteOSFMetric(maxgap=case["gap"] + 0.5, fudge=case["fudge"]).run(d)
        w = (sum(case["exp"]) + n * case["fudge"]) / (sum(good) * 60.0)
        require(abs(g - w) < 1e-5 * w, "brute open shutter fraction", float(g), w)
    yc = m.YearCoverageMetric(metric_name="yc", badval=-7)
    require(yc.name == "yc" and yc.badval == -7, "metric settings ignored", yc.name)
    g = yc.run(d, None)
    w = len({min(9, int((x + 0.5) // 365.25)) for x in case["night"] if x <= 3652})
    require(g == w, "years covered", int(g), w)
    # counts of strings
    def clip(s):
        c = s.split(", ")
        return ", ".join(c[:-1]) if case["clip"] and len(c) > 1 and c[-1].isdigit() else s
    cnt = {}
    for s in case["note"]:
        k = clip(s) or "blank"
        cnt[k] = cnt.get(k, 0) + 1
    sc = m.StringCountMetric(col="note", percent=case["percent"], clip_end=case["clip"])
    r = sc.run(d.copy())
    require(set(r.dtype.names) == set(cnt), "strings counted", r.dtype.names, cnt)
    for k, c in cnt.items():
        w = 100.0 * c / n if case["percent"] else c
        require(close(float(r[k][0]), w), "string count", k, float(r[k][0]), w)
        require(close(float(sc.reduce_funcs[k](r)), w), "reduced string count", k)
    return "changes" if len(ch) > 1 else None


def arms():
    return [
        Arm("stats", stat_case(), stat_test, 500, rule="1-24 values on a quarter grid with ties; non-trivial: ties, or >2 values"),
        Arm("angles", angle_case(), angle_test, 700, rule=">1 angle; label 'wraps': the values straddle 0/360"),
        Arm("technical", tech_case(), tech_test, 500, rule="non-trivial: >1 band change"),
    ]
