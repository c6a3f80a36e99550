"""C10: revisit, gap, pair and uniformity metrics count what the visit times contain."""

import math

import numpy as np
from hypothesis import strategies as st

import rubin_sim.maf.metrics as m
from vp.core import Arm, require
from vp.gen import to_rec

ASSUMPTIONS = ["times and bin widths on dyadic grids, so that no comparison hangs on rounding"]
Q = 1.0 / 1024  # day


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def pct(xs, p):
    s = sorted(xs)
    k = (len(s) - 1) * p / 100.0
    lo = int(math.floor(k))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (k - lo)


@st.composite
def times(draw, lo=1, hi=20):
    n = draw(st.integers(lo, hi))
    nights = draw(st.integers(1, 6))
    step = draw(st.sampled_from([1, 7, 300]))
    out = []
    for _ in range(n):
        nt = draw(st.integers(0, nights)) * step
        out.append([nt, draw(st.integers(0, 400))])
    return out


def mk(rows, **extra):
    d = {"observationStartMJD": [60000.0 + nt + k * Q for nt, k in rows], "night": [int(nt) for nt, _ in rows]}
    d.update(extra)
    return to_rec(d)


@st.composite
def gap_case(draw):
    rows = draw(times(2, 20))
    n = len(rows)
    return {"rows": rows, "bins": draw(st.lists(st.integers(0, 4000), min_size=2, max_size=8, unique=True)),
            "nbins": draw(st.lists(st.integers(0, 20), min_size=2, max_size=6, unique=True)),
            "tmin": draw(st.integers(0, 400)), "tlen": draw(st.integers(0, 2000)), "p": draw(st.integers(0, 100)),
            "red": draw(st.sampled_from(["median", "mean", "max", "min"])), "ts": draw(st.sampled_from([1, 2, 4, 8])),
            "m5": draw(st.lists(st.integers(80, 100).map(lambda k: k / 4), min_size=n, max_size=n)),
            "pair": [draw(st.integers(1, 6)), draw(st.integers(0, 12)), draw(st.sampled_from([8, 16, 32]))]}


def hist(vals, edges):
    out = [0] * (len(edges) - 1)
    for v in vals:
        for i in range(len(out)):
            if edges[i] <= v < edges[i + 1] or (i == len(out) - 1 and v == edges[-1]):
                out[i] += 1
                break
    return out


def gap_test(case):
    rows = case["rows"]
    d = mk(rows, fiveSigmaDepth=case["m5"])
    run = lambda met: met.run(d.copy(), {"sid": 0})
    u = sorted(nt * 1024 + k for nt, k in rows)  # in units of Q
    n = len(u)
    dt = [b - a for a, b in zip(u, u[1:])]
    alld = [u[j] - u[i] for i in range(n) for j in range(i + 1, n)]
    edges = sorted(case["bins"])
    for gaps, name in ((dt, False), (alld, True)):
        g = run(m.TgapsMetric(all_gaps=name, bins=np.array(edges) * Q))
        require(list(g) == hist(gaps, edges), "gap histogram", name, list(g), hist(gaps, edges))
        lo, hi = case["tmin"], case["tmin"] + case["tlen"]
        g = run(m.TgapsPercentMetric(all_gaps=name, min_time=lo * Q, max_time=hi * Q))
        w = 100.0 * sum(lo <= x <= hi for x in gaps) / len(gaps)
        require(close(g, w), "percent of gaps in a window", name, float(g), w)
    nights = sorted({nt for nt, _ in rows})
    nb = sorted(case["nbins"])
    dn = [b - a for a, b in zip(nights, nights[1:])]
    g = run(m.NightgapsMetric(bins=np.array(nb)))
    require(list(g) == hist(dn, nb), "night gaps", list(g), hist(dn, nb))
    if len(nights) > 1:
        an = [nights[j] - nights[i] for i in range(len(nights)) for j in range(i + 1, len(nights))]
        g = run(m.NightgapsMetric(bins=np.array(nb), all_gaps=True))
        require(list(g) == hist(an, nb), "all night gaps", list(g), hist(an, nb))
    cnt = {x: sum(nt == x for nt, _ in rows) for x in nights}
    g = run(m.NVisitsPerNightMetric(bins=np.array(nb)))
    require(list(g) == hist(list(cnt.values()), nb), "visits per night", list(g))
    if max(nights) <= 3650:
        co = [1.25 * math.log10(math.fsum(10 ** (0.8 * v) for (nt, _), v in zip(rows, case["m5"]) if nt == x)) for x in nights]
        eb = np.arange(19.9137, 27, 0.5)
        g = run(m.CoaddM5PerNightMetric(bins=eb))
        require(list(g) == hist(co, list(eb)), "coadded depth per night", list(g), co)
    require(close(run(m.MaxGapMetric(badval=-3)), max(dt) * Q), "largest gap")
    require(m.MaxGapMetric(badval=-3).run(d[:1].copy()) == -3, "largest gap of one visit")
    # within and between nights
    red = {"median": lambda v: pct(v, 50), "mean": lambda v: math.fsum(v) / len(v), "max": max, "min": min}[case["red"]]
    npred = getattr(np, case["red"])
    s = sorted(rows, key=lambda r: r[0] * 1024 + r[1])
    intra = [b[1] - a[1] for a, b in zip(s, s[1:]) if a[0] == b[0]]
    g = run(m.IntraNightGapsMetric(reduce_func=npred, badval=-3))
    require(close(g, red(intra) * Q * 24 if intra else -3), "gaps within a night", float(g), intra)
    inter = [(b[0] * 1024 + b[1]) - (a[0] * 1024 + a[1]) for a, b in zip(s, s[1:]) if a[0] != b[0]]
    g = run(m.InterNightGapsMetric(reduce_func=npred, badval=-3))
    require(close(g, red(inter) * Q if inter else -3), "gaps between nights", float(g), inter)
    g = run(m.VisitGapMetric(reduce_func=npred))
    require(close(g, red(dt) * Q * 24), "gaps between visits", float(g))
    span = [max(k for nt, k in rows if nt == x) - min(k for nt, k in rows if nt == x) for x in nights if cnt[x] > 1]
    g = run(m.NightTimespanMetric(percentile=case["p"], badval=-3))
    require(close(g, pct(span, case["p"]) * Q * 1440 if span else -3), "time span within a night", float(g), span)
    # occurrences of a time scale: bins half as wide, counted two apart
    bs = 64 * case["ts"]  # Q units
    g = run(m.GapsMetric(time_scale=bs * Q * 24 * 2))
    b = {(x - u[0]) // bs for x in u}
    nb_ = -(-(u[-1] - u[0]) // bs) + 1  # number of bins beyond the first edge
    last = (u[-1] - u[0]) / bs
    if last == int(last):  # the last edge is closed
        b = {min(x, int(last) - 1) for x in b}
    w = sum((x + 2) in b for x in b)
    require(g == w, "gaps of a time scale", int(g), w)
    require(m.GapsMetric(badval=-3).run(d[:1].copy()) == -3, "gap of one visit")
    # pairs
    kmin, klen, bq = case["pair"]
    mn = 1440 * Q
    g = run(m.PairMetric(match_min=kmin * bq * mn, match_max=(kmin + klen) * bq * mn, bin_size=bq * mn, badval=-3))
    b = {(x - u[0]) // bq for x in u}
    last = (u[-1] - u[0]) / bq
    if last == int(last):
        b = {min(x, int(last) - 1) for x in b if last > 0}
    w = sum((x + k) in b for x in b for k in range(kmin, kmin + klen + 1))
    require(g == (w or -3), "pairs", int(g), w, kmin, klen, bq)
    return "multi-night" if len(nights) > 1 and intra else None


@st.composite
def rapid_case(draw):
    rows = draw(times(1, 20))
    n = len(rows)
    return {"rows": rows, "a": draw(st.integers(0, 40)), "b": draw(st.integers(1, 200)), "c": draw(st.integers(1, 200)),
            "n1": draw(st.integers(0, 6)), "n2": draw(st.integers(0, 9)), "normed": draw(st.booleans()),
            "len": draw(st.sampled_from([1.0, 10.0, 0.25])), "minv": draw(st.sampled_from([None, -1.0, 0.0])),
            "maxv": draw(st.sampled_from([None, 2500.0, 4000.0])),
            "seeing": draw(st.lists(st.integers(2, 8).map(lambda k: k / 4), min_size=n, max_size=n))}


def rapid_test(case):
    rows = case["rows"]
    seen = set()
    rows = [r for r in rows if tuple(r) not in seen and not seen.add(tuple(r))]
    d = mk(rows, seeingFwhmGeom=case["seeing"][: len(rows)])
    n = len(rows)
    run = lambda met: met.run(d.copy(), {"sid": 0})
    u = sorted(nt * 1024 + k for nt, k in rows)
    dt = [b - a for a, b in zip(u, u[1:])]
    lo, hi, hi2 = case["a"], case["a"] + case["b"], case["a"] + case["b"] + case["c"]
    n1, n2 = sum(lo <= x <= hi for x in dt), sum(lo <= x <= hi2 for x in dt)
    g = run(m.RapidRevisitMetric(d_tmin=lo * Q, d_tpairs=hi * Q, d_tmax=hi2 * Q, min_n1=case["n1"], min_n2=case["n2"]))
    require(g == int(n1 >= case["n1"] and n2 >= case["n2"]), "rapid revisits", int(g), n1, n2, case["n1"], case["n2"])
    g = run(m.NRevisitsMetric(d_t=hi * Q * 1440, normed=case["normed"]))
    w = sum(x <= hi for x in dt)
    require(close(g, w / n if case["normed"] else w), "revisits", float(g), w)
    # fraction of visits with an earlier one of at least their quality
    o = sorted(range(n), key=lambda i: rows[i][0] * 1024 + rows[i][1])
    s = [case["seeing"][i] for i in o]
    w = sum(any(s[j] <= s[i] for j in range(i)) for i in range(n)) / n
    g = run(m.TemplateExistsMetric())
    require(close(g, w), "templates", float(g), w)
    # uniformity
    g = run(m.UniformityMetric(survey_length=case["len"]))
    if n == 1:
        require(g == 1 and run(m.GeneralUniformityMetric()) == 1, "uniformity of one visit")
    else:
        t = [(x - u[0]) * Q / (case["len"] * 365.25) for x in u]
        w = max(abs((i + 1) / n - t[i] - t[1]) for i in range(n))
        require(close(g, w), "uniformity", float(g), w)
        mjd = [60000 + x * Q for x in u]
        mn = mjd[0] if case["minv"] is None else 60000 + case["minv"]
        mx = mjd[-1] if case["maxv"] is None else 60000 + case["maxv"]
        if mx > mn:
            g = run(m.GeneralUniformityMetric(min_value=None if case["minv"] is None else mn,
                                              max_value=None if case["maxv"] is None else mx))
            w = max(abs(i / (n - 1) - (mjd[i] - mn) / (mx - mn)) for i in range(n))
            require(close(g, w, 1e-7), "uniformity within a range", float(g), w)
    good = sorted(x for x in dt if lo <= x <= hi2)
    g = run(m.RapidRevisitUniformityMetric(min_nvisits=case["n1"], d_tmin=lo * Q, d_tmax=hi2 * Q, badval=-3))
    if len(good) < max(2, case["n1"]):
        require(g == -3, "too few rapid revisits", float(g))
    else:
        v = [(x - good[0]) / (hi2 - lo) for x in good]
        w = max(abs((i + 1) / len(v) - v[i] - v[1]) for i in range(len(v)))
        require(close(g, w), "uniformity of rapid revisits", float(g), w)
    return "revisits" if n1 or n2 else None


even_case = st.fixed_dictionaries({"n": st.integers(2, 40), "len": st.sampled_from([1.0, 2.5, 10.0]),
                                   "a": st.integers(-50, 50), "w": st.integers(1, 50), "perm": st.randoms(use_true_random=False)
                                   .map(lambda r: r.random())})


def even_test(case):
    n = case["n"]
    rng = np.random.default_rng(int(case["perm"] * 1e6))
    d = to_rec({"observationStartMJD": [60000 + case["len"] * 365.25 * i / n for i in range(n)]})
    rng.shuffle(d)
    require(abs(m.UniformityMetric(survey_length=case["len"]).run(d)) < 1e-8, "evenly spaced visits are not uniform")
    d["observationStartMJD"] = 60010.0
    require(m.UniformityMetric(survey_length=case["len"]).run(d) == 1, "simultaneous visits are not non-uniform")
    d = to_rec({"x": [case["a"] + case["w"] * i / (n - 1) for i in range(n)]})
    rng.shuffle(d)
    require(abs(m.GeneralUniformityMetric("x").run(d)) < 1e-9, "even values are not uniform")
    g = m.GeneralUniformityMetric("x", min_value=case["a"], max_value=case["a"] + 2 * case["w"]).run(d)
    require(abs(g - 0.5) < 1e-9, "values over half of the range", float(g))
    return "even"


@st.composite
def phase_case(draw):
    n = draw(st.integers(1, 15))
    return {"t": draw(st.lists(st.integers(0, 3000), min_size=n, max_size=n)), "np": draw(st.integers(1, 6)),
            "pmin": draw(st.integers(2, 40)), "plen": draw(st.sampled_from([0, 3, 10, 33])), "nmin": draw(st.integers(1, 5)),
            "m5": draw(st.lists(st.integers(72, 100).map(lambda k: k / 4), min_size=n, max_size=n)),
            "star": draw(st.sampled_from([18, 20, 22.5])), "shift": draw(st.integers(0, 200))}


def phase_test(case):
    t = [60000 + x / 16 for x in case["t"]]
    n = len(t)
    p0, p1 = case["pmin"] / 4, (case["pmin"] + case["plen"]) / 4
    d = to_rec({"observationStartMJD": t, "fiveSigmaDepth": case["m5"]})
    pg = m.PhaseGapMetric(n_periods=case["np"], period_min=p0, period_max=p1, n_visits_min=case["nmin"], badval=-3)
    r = pg.run(d)
    if n < case["nmin"]:
        require(r == -3, "too few visits")
    else:
        require(len(r["periods"]) == case["np"] == len(r["maxGaps"]), "number of periods", r)
        for i, (p, g) in enumerate(zip(r["periods"], r["maxGaps"])):
            wp = p0 if case["np"] == 1 else p0 + (p1 - p0) * i / (case["np"] - 1)
            require(close(p, wp), "period", float(p), wp)
            ph = sorted((x % p) / p for x in t)
            w = max([b - a for a, b in zip(ph, ph[1:])] + [1 - ph[-1] + ph[0]])
            require(abs(g - w) < 1e-6, "phase gap", float(p), float(g), w)
        gaps = [float(g) for g in r["maxGaps"]]
        require(close(pg.reduce_mean_gap(r), math.fsum(gaps) / len(gaps)), "mean gap")
        require(close(pg.reduce_median_gap(r), pct(gaps, 50)), "median gap")
        require(close(pg.reduce_largest_gap(r), max(gaps)), "largest gap")
        wp = np.atleast_1d(pg.reduce_worst_period(r))
        require(all(abs(gaps[list(r["periods"]).index(x)] - max(gaps)) < 1e-12 for x in wp), "worst period", wp)
    q = m.PeriodicQualityMetric(period=p0, star_mag=case["star"])
    g = float(q.run(d))
    snr = [5.0 * 10 ** (-0.4 * (case["star"] - v)) for v in case["m5"]]
    snr = []
    for v in case["m5"]:
        x = 10 ** (0.4 * (case["star"] - v))
        snr.append(1 / math.sqrt((0.04 - 0.04) * x + 0.04 * x * x))
    ang = [2 * math.pi * (x % p0) / p0 for x in t]
    sw = math.fsum(snr)
    off = math.hypot(math.fsum(s * math.cos(a) for s, a in zip(snr, ang)) / sw,
                     math.fsum(s * math.sin(a) for s, a in zip(snr, ang)) / sw)
    amp = min(math.sqrt(math.fsum((s * math.sin(a + k * math.pi / 8)) ** 2 for s, a in zip(snr, ang))) for k in range(8))
    amp /= math.sqrt(math.fsum(s * s for s in snr))
    require(abs(g - amp * (1 - off)) < 1e-5, "phase coverage quality", g, amp * (1 - off))
    require(-1e-9 <= g <= 1 + 1e-9, "quality range", g)
    # a whole number of periods changes nothing
    e = d.copy()
    e["observationStartMJD"] = e["observationStartMJD"] + p0 * case["shift"]
    require(abs(float(q.run(e)) - g) < 1e-5, "quality changes with whole periods")
    return "phase" if n > 2 and n >= case["nmin"] else None


def arms():
    return [
        Arm("gaps", gap_case(), gap_test, 500, rule="2-20 visits over 1-7 nights; non-trivial: >1 night and some repeat visit"),
        Arm("rapid", rapid_case(), rapid_test, 500, rule="non-trivial: some gap in the revisit window"),
        Arm("even", even_case, even_test, 150, rule="every case"),
        Arm("phase", phase_case(), phase_test, 400, rule="non-trivial: >2 visits and enough for the metric"),
    ]
