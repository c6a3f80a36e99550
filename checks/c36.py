"""C36: the results browser (every run, metric, statistic, figure and data file, on the page where it belongs)."""

import html.parser
import json
import multiprocessing
import os
import re
import shutil
import signal
import socket
import sys
import tempfile
import time
import urllib.error
import urllib.parse
import urllib.request
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import rubin_sim.maf as maf  # noqa: E402
from rubin_sim.maf.db import ResultsDb, TrackingDb  # noqa: E402
from rubin_sim.maf.metric_bundles import create_empty_metric_bundle  # noqa: E402
from vp.core import Arm, require  # noqa: E402
from vp.gen import sized  # noqa: E402

ASSUMPTIONS = ["the browser is started in the directory of the tracking database, with the results below it, and asked over the loopback network",
               "figures and databases are small stand-in files with known contents",
               "names and labels do not contain HTML tags"]
BUDGET = {"quick": 100, "thorough": 2400}

NAMES = ["Mean x", "Mean y", "Coadd_u", "Coadd_g", "N & more", "Fraction < 3"]
SL = ["UniSlicer", "OneDSlicer", "HealpixSlicer"]
LABELS = ["u band", "all visits", "night < 20 & DD", ""]
GROUPS = ["G1", "A group", "My_own_group", "x/y: z"]
SUBS = ["s1", "Second one", "third_part"]
STATS = ["Median", "Mean", "Zed", "Id", "TableFraction 0 == P", "TableFraction 0.1 < P", "Max", "N(+3Sigma)", "Count", "25th%ile", "FractionPop 3"]
WHOLE = ("Count", "N(+3Sigma)", "TableFraction")
PT = ["SkyMap", "Histogram", "ComboHistogram", "TwoD", "PowerSpectrum", "Hourglass", "Combo"]
SKY = ("SkyMap", "TwoD")

metric_st = st.fixed_dictionaries({
    "name": st.integers(0, 5), "slicer": st.integers(0, 2), "label": st.integers(0, 3), "group": st.integers(0, 3), "sub": st.integers(0, 2), "order": st.integers(0, 3), "cap": st.sampled_from(["A caption & more.", None]), "disp": st.sampled_from([True] * 6 + [False]),
    "stats": st.lists(st.tuples(st.integers(0, 10), st.sampled_from([0, 1, -3, 7, 1200, 0.25, -0.75, 0.0123])), max_size=11, unique_by=lambda t: t[0]),
    "plots": st.lists(st.tuples(st.integers(0, 6), st.sampled_from(["x", "_u_", "_g_", "_y_", "k"])), max_size=4)})
run_st = st.fixed_dictionaries({"metrics": sized(metric_st, 1, 8), "dir": st.sampled_from(["res", "deep/res", "."]), "name": st.sampled_from(["base v1", "other_run"]), "com": st.sampled_from(["first & best", None]), "grp": st.sampled_from(["fam", None]), "ver": st.sampled_from(["3.1", None]), "db": st.booleans()})
case_st = st.fixed_dictionaries({"runs": sized(run_st, 1, 3), "few": st.booleans(), "pick": st.lists(st.integers(0, 30), max_size=4), "sel": st.lists(st.integers(0, 30), max_size=3), "vals": st.lists(st.integers(0, 40), min_size=1, max_size=8), "dashd": st.booleans()})


# --- pages ---------------------------------------------------------------------------------
class Page(html.parser.HTMLParser):
    """Words, links, inputs, blocks of metrics and tables of a page."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.links, self.imgs, self.inputs, self.tables, self.blocks, self.text = [], [], [], [], [], ""
        self.part = None
        self.cell = self.row = self.table = None
        self.div = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "a" and "href" in a:
            self.links.append(a["href"])
            if self.div and "metricset" in self.div:
                self.blocks[-1]["links"].append(a["href"])
        if tag == "img" and "src" in a:
            self.imgs.append(a["src"])
        if tag == "input":
            self.inputs.append((a.get("name"), a.get("value"), a.get("type")))
            if self.row is not None:
                self.row.append(("input", a.get("name"), a.get("value")))
        if tag == "div":
            self.div.append(a.get("id"))
            if a.get("id") == "metricset":
                self.blocks.append({"text": "", "links": []})
        if tag == "table":
            self.table = []
            self.tables.append(self.table)
        if tag == "tr" and self.table is not None:
            self.row = []
            self.table.append(self.row)
        if tag in ("td", "th") and self.row is not None:
            self.cell = ""

    def handle_endtag(self, tag):
        if tag == "div" and self.div:
            self.div.pop()
        if tag in ("td", "th") and self.cell is not None and self.row is not None:
            self.row.append(" ".join(self.cell.split()))
            self.cell = None
        if tag == "tr":
            self.row = None
        if tag == "table":
            self.table = None

    def handle_data(self, d):
        self.text += d
        if self.cell is not None:
            self.cell += d
        if "metricset" in self.div:
            self.blocks[-1]["text"] += " " + d


def squeeze(s):
    return " ".join(s.split())


class Server:
    """The command, as a user starts it, in a process of its own."""

    def __init__(self, root, argv):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        ctx = multiprocessing.get_context("fork")
        self.p = ctx.Process(target=self.child, args=(root, argv + ["-p", str(self.port), "--no_browser"]), daemon=True)
        self.p.start()
        end = time.time() + 30
        while True:
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                if not self.p.is_alive():
                    with open(os.path.join(root, "..", os.path.basename(root) + ".err")) as f:
                        require(False, "the browser did not start", f.read()[-600:])
                if time.time() > end:
                    self.close()
                    raise RuntimeError("no answer from the browser")
                time.sleep(0.02)

    @staticmethod
    def child(root, argv):
        e = os.open(os.path.join(root, "..", os.path.basename(root) + ".err"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(e, 1)
        os.dup2(e, 2)
        os.chdir(root)
        sys.argv = ["show_maf"] + argv
        warnings.simplefilter("ignore")
        sys.modules["rubin_sim.maf.show_maf"].show_maf()

    def get(self, path, ok=True, **q):
        url = "http://127.0.0.1:%d/%s" % (self.port, path.lstrip("/"))
        if q:
            url += "?" + urllib.parse.urlencode(q, doseq=True)
        try:
            with urllib.request.urlopen(url, timeout=60) as r:
                return r.read()
        except urllib.error.HTTPError as e:
            if ok:
                require(False, "a page failed", url.split("/", 3)[3], e.code, self.err())
            return None

    def err(self):
        return ""

    def close(self):
        if self.p.is_alive():
            os.kill(self.p.pid, signal.SIGKILL)
        self.p.join()


def setup():
    import importlib

    importlib.import_module("rubin_sim.maf.show_maf")


# --- results --------------------------------------------------------------------------------
def make_results(root, k, run, vals, few):
    d = os.path.join(root, "run%d" % k, run["dir"])
    os.makedirs(d)
    r = ResultsDb(out_dir=d)
    model = {}
    for j, m in enumerate(run["metrics"]):
        if few:
            m = dict(m, group=m["group"] % 2, sub=0, slicer=m["slicer"] % 2)
        mid = r.update_metric(NAMES[m["name"]], SL[m["slicer"]], run["name"], "", LABELS[m["label"]], "f%d.npz" % j)
        if mid in model:
            continue
        if not m["disp"]:
            model[mid] = None
            continue
        r.update_display(mid, {"group": GROUPS[m["group"]], "subgroup": SUBS[m["sub"]], "order": m["order"], "caption": m["cap"]})
        files = []
        for i, (t, f) in enumerate(m["plots"]):
            fn = "p%d%s%d.pdf" % (mid, f, i)
            r.update_plot(mid, PT[t], fn)
            files.append((PT[t], fn))
            for x in (fn, "thumb." + fn[:-4] + ".png"):
                with open(os.path.join(d, x), "w") as g:
                    g.write("%d %s" % (k, x))
        for s, v in m["stats"]:
            if STATS[s].startswith(WHOLE):
                v = float(int(v))
            r.update_summary_stat(mid, STATS[s], float(v))
        model[mid] = {"name": NAMES[m["name"]], "slicer": SL[m["slicer"]], "label": LABELS[m["label"]], "group": GROUPS[m["group"]], "sub": SUBS[m["sub"]], "cap": m["cap"], "files": files, "datafile": "f%d.npz" % j,
                      "stats": {STATS[s]: (float(int(v)) if STATS[s].startswith(WHOLE) else float(v)) for s, v in m["stats"] if not STATS[s].startswith("FractionPop")}}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = maf.MetricBundle(maf.CountMetric("x"), maf.OneDSlicer("x", bins=np.arange(0, 51, 10.0)), "", run_name="r")
            b.slicer.setup_slicer(np.array([(0.0,)], dtype=[("x", float)]))
            b.metric_values = np.ma.MaskedArray(np.histogram([v + mid for v in vals], np.arange(0, 51, 10.0))[0].astype(float), mask=False)
            b.write(out_dir=d, outfile_suffix=None)
            os.rename(os.path.join(d, b.file_root + ".npz"), os.path.join(d, "f%d.npz" % j))
    r.close()
    return d, {i: m for i, m in model.items() if m is not None}


def fields(m):
    return squeeze(m["name"] + " " + m["slicer"] + " " + m["label"])


def number(cell, v, stat):
    try:
        x = float(cell)
    except ValueError:
        return False
    return abs(x - v) <= (1e-9 if float(v).is_integer() else 0.0051 if abs(v) >= 0.03 else 0.000051)


def tables_of(page, run, model, where):
    """Every statistic is in its table, in the cell of its metric and its name, and nothing else is."""
    seen = {}
    for t in page.tables:
        head = [c for c in (t[0] if t else []) if isinstance(c, str)]
        m = re.match(r"Group: (.*); Subgroup: (.*); Slicer: (.*)$", head[0]) if head else None
        if not m:
            continue
        g, s, sl = m.groups()
        mine = {i: x for i, x in model.items() if (x["group"], x["sub"], x["slicer"]) == (g, s, sl) and x["stats"]}
        require(mine, "a table without metrics", where, head)
        require((g, s, sl) not in seen, "a table is shown twice", where, head)
        seen[(g, s, sl)] = 1
        names = {n for x in mine.values() for n in x["stats"]}
        rows = t[1:]
        got = {}
        if len(names) == 1:
            only = list(names)[0]
            cols = rows[0][1:]
            for r in rows[1:]:
                for c, v in zip(cols, r[1:]):
                    if v != "--":
                        got[(c, r[0], only)] = v
        elif rows[0][0] == "Metric Name":
            cols = rows[0]
            for r in rows[1:]:
                d = dict(zip(cols, r))
                for c in cols[2:]:
                    if d[c] != "--":
                        got[(r[0], r[1], c)] = d[c]
        else:
            for r in rows[2:]:
                for n, lab, v in zip(rows[0][1:], rows[1][1:], r[1:]):
                    if v != "--":
                        got[(n, lab, r[0])] = v
        want = {(squeeze(x["name"]), squeeze(x["label"]), squeeze(n)): v for x in mine.values() for n, v in x["stats"].items()}
        require(set(got) == set(want), "statistics in a table", where, head, sorted(set(got) ^ set(want)))
        for k, v in want.items():
            require(number(got[k], v, k[2]), "value of a statistic", where, k, got[k], v)
    want = {(x["group"], x["sub"], x["slicer"]) for x in model.values() if x["stats"]}
    require(set(seen) == want, "tables of statistics", where, sorted(seen), sorted(want))


def browse(case):
    root = tempfile.mkdtemp(prefix="c36_")
    srv = None
    try:
        runs = {}
        db = os.path.join(root, "trackingDb_sqlite.db")
        t = TrackingDb(database=db)
        last = None
        for k, run in enumerate(case["runs"]):
            d, model = make_results(root, k, run, case["vals"], case["few"])
            info = dict(run_name=run["name"], run_group=run["grp"], run_comment=run["com"], run_version=run["ver"], run_date="2020-01-0%d" % (k + 1), maf_comment="maf %d" % k, maf_version="v%d" % k, maf_date="2021-02-0%d" % (k + 1), db_file=None)
            if run["db"]:
                info["db_file"] = os.path.join(root, "sim%d.db" % k)
                with open(info["db_file"], "w") as f:
                    f.write("sim %d" % k)
            if case["dashd"] and k == len(case["runs"]) - 1:
                last = d
                info.update(run_group=None, run_comment=None, run_version=None, run_date=None, maf_comment="given", maf_version=None, maf_date=None, db_file=None)
                runs[None] = (d, model, info)
            else:
                i = t.add_run(maf_dir=d, **info)
                runs[i] = (d, model, info)
        t.close()
        argv = ["-t", db]
        if last:
            argv += ["-d", last, "-c", "given"]
        srv = Server(root, argv)
        text = srv.get("/").decode()
        page = Page(text)
        rows = [[c for c in r if isinstance(c, str)] for r in page.tables[0]]
        require(len(rows) == 1 + len(runs), "runs listed", len(rows) - 1, len(runs))
        ids = [int(x.split("runId=")[1]) for x in page.links if x.startswith("allMetricResults?runId=") and "All" not in x]
        if None in runs:
            new = [i for i in ids if i not in runs]
            require(len(set(new)) == 1, "the directory given is not among the runs", ids)
            runs[new[0]] = runs.pop(None)
            require("metricSelect?runId=%d" % new[0] in page.links, "the directory given is not opened", [x for x in page.links if "metricSelect" in x])
        require(set(ids) == set(runs), "links to runs", ids, sorted(runs))
        for i, (d, model, info) in runs.items():
            row = [r for r in rows[1:] if os.path.relpath(d, root) in r]
            require(len(row) == 1, "a run in the list", d, rows)
            for key, v in info.items():
                if key != "db_file" and not (last == d and v is None):
                    require(("NULL" if v is None else squeeze(v)) in row[0], "information of a run", key, v, row[0])
            link = [x for x in page.links if x.endswith("resultsDb_sqlite.db") and os.path.normpath(os.path.join(root, x)) == os.path.join(os.path.normpath(d), "resultsDb_sqlite.db")]
            require(len(link) == 1, "link to the results database", page.links)
            with open(os.path.join(d, "resultsDb_sqlite.db"), "rb") as f:
                require(srv.get(link[0]) == f.read(), "results database that is downloaded", link)
            if info["db_file"]:
                link = [x for x in page.links if os.path.basename(x) == os.path.basename(info["db_file"])]
                require(len(link) == 1 and srv.get(link[0]) == open(info["db_file"], "rb").read(), "simulation that is downloaded", link)
        nplots = nstats = 0
        for i in sorted(runs)[:2]:
            d, model, info = runs[i]
            one_run(srv, root, i, d, model, info, case)
            nplots += sum(len(m["files"]) for m in model.values())
            nstats += sum(len(m["stats"]) for m in model.values())
        return "figures and statistics" if nplots and nstats else ("metrics" if any(r[1] for r in runs.values()) else None)
    finally:
        if srv is not None:
            srv.close()
        shutil.rmtree(root, True)
        try:
            os.remove(root + ".err")
        except OSError:
            pass


def one_run(srv, root, i, d, model, info, case):
    rel = os.path.relpath(d, root)
    # the list of metrics, and the form on it
    page = Page(srv.get("metricSelect", runId=i).decode())
    require(info["run_name"] in page.text, "name of the run")
    got = {}
    boxes = []
    for r in page.tables[0]:
        box = [c for c in r if isinstance(c, tuple)]
        cells = [c for c in r if isinstance(c, str)]
        if box and box[0][1] == "metric_id":
            got[int(box[0][2])] = squeeze(" ".join(cells))
        elif box and box[0][1] == "Group_subgroup":
            boxes.append((box[0][2], squeeze(" ".join(cells))))
    require(got == {k: fields(m) for k, m in model.items()}, "metrics listed", got, {k: fields(m) for k, m in model.items()})
    want = sorted({"All Group: %s; Subgroup: %s" % (m["group"], m["sub"]) for m in model.values()})
    require(sorted(x for _, x in boxes) == want, "groups listed", boxes, want)
    # chosen metrics
    sel = [boxes[x % len(boxes)] for x in case["sel"]] if boxes else []
    pick = [sorted(model)[x % len(model)] for x in case["pick"]] if model else []
    q = {"runId": i}
    if pick:
        q["metric_id"] = pick
    if sel:
        q["Group_subgroup"] = [x for x, _ in sel]
    chosen = set(pick) | {k for k, m in model.items() if "All Group: %s; Subgroup: %s" % (m["group"], m["sub"]) in [x for _, x in sel]}
    page = Page(srv.get("metricResults", **q).decode())
    show_blocks(srv, root, page, {k: model[k] for k in chosen}, rel, "chosen metrics")
    # everything
    text = srv.get("allMetricResults", runId=i).decode()
    page = Page(text)
    links = sorted(os.path.normpath(x) for x in page.links if x.endswith(".pdf"))
    require(links == sorted(os.path.normpath(os.path.join(rel, f)) for m in model.values() for _, f in m["files"]), "figures of all results", links)
    for m in model.values():
        if m["files"]:
            require(fields(m) in squeeze(page.text), "a metric among all results", fields(m))
            require(m["cap"] is None or m["cap"] in squeeze(page.text), "caption among all results", m["cap"])
    tables_of(page, i, model, "all results")
    tables_of(Page(srv.get("summaryStats", runId=i).decode()), i, model, "summary")
    # maps by colour
    page = Page(srv.get("multiColor", runId=i).decode())
    tables_of(page, i, model, "multicolour")
    links = sorted(os.path.normpath(x) for x in page.links if x.endswith(".pdf"))
    want = sorted(os.path.normpath(os.path.join(rel, f)) for m in model.values() for t, f in m["files"] if t in SKY + ("ComboHistogram", "Hourglass"))
    require(links == want, "figures of the multicolour page", links, want)
    for x in page.links:
        if x.startswith("metricResults"):
            ids = [int(v) for v in urllib.parse.parse_qs(urllib.parse.urlparse(x).query).get("metric_id", [])]
            require(ids and set(ids) <= set(model), "link from maps to their metrics", x)
            p2 = Page(srv.get(x).decode())
            show_blocks(srv, root, p2, {k: model[k] for k in ids}, rel, "metrics of maps")
    # data
    for k in sorted(model)[:2]:
        f = os.path.join(d, model[k]["datafile"])
        require(srv.get("getData", runId=i, metric_id=k, datatype="npz") == open(f, "rb").read(), "data of a metric", k)
        b = create_empty_metric_bundle()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b.read(f)
            want = json.loads(b.output_json().getvalue())
        require(json.loads(srv.get("getData", runId=i, metric_id=k, datatype="json")) == want, "JSON of a metric", k)


def show_blocks(srv, root, page, model, rel, where):
    require(len(page.blocks) == len(model), "metrics shown", where, len(page.blocks), len(model))
    left = dict(model)
    for b in page.blocks:
        text = squeeze(b["text"])
        mine = [k for k, m in left.items() if text.startswith(fields(m)) and sorted(os.path.basename(x) for x in b["links"] if x.endswith(".pdf")) == sorted(f for _, f in m["files"])
                and (m["cap"] is None or m["cap"] in text) and all(re.search(re.escape(squeeze(n)) + ": *(\\S+)", text) and number_in(text, n, v) for n, v in m["stats"].items())]
        require(mine, "a metric is not shown as it was saved", where, text, b["links"], [fields(m) for m in left.values()])
        m = left.pop(sorted(mine)[0])
        require(text.count(": ") - fields(m).count(": ") - (m["cap"] or "").count(": ") <= len(m["stats"]), "statistics of a metric", where, text)
        for x in b["links"]:
            if x.endswith(".pdf"):
                require(os.path.normpath(x) == os.path.normpath(os.path.join(rel, os.path.basename(x))), "place of a figure", where, x)
    for x in (page.links + page.imgs)[-3:]:
        if x.endswith((".pdf", ".png")):
            require(srv.get(x).decode().split(" ", 1)[1] == os.path.basename(x), "figure that is downloaded", x)


def number_in(text, n, v):
    for m in re.finditer(re.escape(squeeze(n)) + r": *(-?[0-9.]+)", text):
        x = float(m.group(1))
        if abs(x - v) <= 0.0051:
            return True
    return False


def arms():
    return [Arm("browse", case_st, browse, quick=40, thorough=3000, setup=setup, rule="1-3 runs of 1-8 metrics; the command is started and every page, link and form is followed; non-trivial: some metric has figures or statistics")]
