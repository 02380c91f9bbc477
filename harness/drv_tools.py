"""Drives profiler, analyzers, decorators and monitors; records traces for TrTools."""
import contextlib
import io
import json
import math
import os
import pathlib
import random
import re
import shutil
import sys
import threading
import time
import unittest.mock

import core
import numpy as np
import valori_env  # noqa: F401

ERRORS = [ValueError, KeyError, RuntimeError, ImportError, ZeroDivisionError, KeyboardInterrupt, SystemExit, StopIteration]


def us(x):
    return int(round(x * 1e6))


def fr(x):
    """The number in 1/10000."""
    x = float(x)
    return int(round(x * 1e4)) if abs(x) < 290 else -3000000


def fbig(x):
    return int(round(float(x) * 1e4)) if abs(float(x)) < 1000 else -3000000


def sq(x):
    return fr(float(x) * abs(float(x)))


def whole(x):
    x = float(x)
    return int(round(x)) if math.isfinite(x) and abs(x - round(x)) < 1e-3 else -999999


def count(stats):
    return stats["vector_count"] if "vector_count" in stats else stats["num_vectors"]


def patient(interval):
    """A monitor that sleeps long between two samples is stopped and started again."""
    w = World(random.Random(interval))
    try:
        for _ in range(2 if interval < 2 else 1):
            w.start(interval)
            w.stop()
            w.usage()
        w.start(0.01)
        w.stop()
        w.usage()
    finally:
        w.close()
    return w.trace


def whole2(x):
    return whole(float(x) ** 2) if float(x) >= 0 else -999999


RSS = {"mb": None, "asked": 0}


def stub_memory():
    """Let psutil report the memory the driver says this process has."""
    try:
        import psutil
    except ImportError:
        return
    if getattr(psutil.Process, "stubbed", False):
        return

    class Process(psutil.Process):
        stubbed = True

        def memory_info(self):
            m = super().memory_info()
            if RSS["mb"] is None:
                return m
            RSS["asked"] += 1
            return m._replace(rss=int(RSS["mb"] * 1024 * 1024))
    psutil.Process = Process


class Memory:
    """The memory a block of code takes or gives back."""

    def __init__(self, rng, start=None):
        stub_memory()
        self.rng = rng
        if RSS["mb"] is None or start is not None:
            RSS["mb"] = start or 1000
        self.asked, self.before = RSS["asked"], RSS["mb"]

    def move(self):
        RSS["mb"] = max(10, RSS["mb"] + self.rng.choice([0, 0, 1, 5, -3, 40]))

    def delta(self, reported):
        """Recorded change (1/100 MB) and the true one."""
        if RSS["asked"] == self.asked:
            return int(round(reported * 100)), int(round(reported * 100))      # this process was not asked
        return int(round(reported * 100)), (RSS["mb"] - self.before) * 100


class World:
    def __init__(self, rng):
        from valori.utils import batch_manager as B
        from valori.utils import debugging as G
        self.rng, self.G, self.B = rng, G, B
        self.prof, self.va, self.qa, self.mon = G.PerformanceProfiler(), G.VectorAnalyzer(), G.QueryAnalyzer(), B.ResourceMonitor()
        self.track = None
        self.dir = core.fresh_dir("tools")
        self.base = threading.active_count()
        RSS["mb"] = 1000
        self.trace = [{"op": "reset"}]

    def close(self):
        if self.mon.monitoring:
            self.mon.stop_monitoring()
        shutil.rmtree(self.dir, ignore_errors=True)

    def do(self, e, f):
        try:
            f(e)
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"] = "%s: %s" % (type(x).__name__, str(x)[:80])
        self.trace.append(e)

    # ------------------------------------------------------------ profiler
    def measure(self, depth=0):
        """A tree of measured blocks; the outcome of each is recorded at its end."""
        rng = self.rng
        name = rng.choice(["a", "b", "add vectors", ""])
        err = rng.choice(ERRORS)("x") if rng.random() < 0.25 else None
        inner = rng.randint(0, 2) if depth < 2 else 0
        sleep = rng.random() < 0.1
        before = {k: len(v) for k, v in self.prof.measurements.items()}
        own = {}
        memory = Memory(rng)
        t0 = time.time()
        t1 = t2 = 0
        r = "ok"
        try:
            with self.prof.measure(name):
                t1 = time.time()
                memory.move()
                for _ in range(inner):
                    for k, v in self.measure(depth + 1).items():
                        own[k] = own.get(k, 0) + v
                if sleep:
                    time.sleep(0.003)
                t2 = time.time()
                if err:
                    raise err
        except BaseException as x:  # noqa: BLE001
            r = "same" if x is err else "%s: %s" % (type(x).__name__, x)
        t3 = time.time()
        own[name] = own.get(name, 0) + 1
        now = {k: len(v) for k, v in self.prof.measurements.items()}
        last = self.prof.measurements.get(name, [{}])[-1]
        mem, wantmem = memory.delta(last.get("memory_delta", -99999))
        others = all(now.get(k, 0) == before.get(k, 0) + own.get(k, 0) for k in set(now) | set(before) | set(own))
        self.trace.append({"op": "measured", "name": name, "want": "same" if err else "ok", "r": r, "n": now.get(name, 0), "mem": mem, "wantmem": wantmem,
                           "t": us(last.get("duration", -1)), "lo": us(t2 - t1) - 500, "hi": us(t3 - t0) + 500, "others": others})
        return own

    @staticmethod
    def summ(s):
        return {k: {"n": v["count"], **{a: us(v["duration"][a]) for a in ("min", "max", "avg", "total")},
                    **{"m" + a: int(round(100 * v["memory"][a])) for a in ("min", "max", "avg", "total")}} for k, v in s.items()}

    def shown(self):
        """The printed summary."""
        out = io.StringIO()

        def f(e):
            with contextlib.redirect_stdout(out):
                self.prof.print_summary()
            num = r"(-?[\d.]+)"
            for m in re.finditer(r"(?m)^(.*):\n\s*Count: (\d+)\n\s*Duration: " + num + r"s avg \(" + num + "s - " + num + r"s\)\n"
                                 r"\s*Memory: " + num + r" MB avg \(" + num + r" MB - " + num + r" MB\)", out.getvalue()):
                t, y = [us(float(x)) for x in m.groups()[2:5]], [int(round(100 * float(x))) for x in m.groups()[5:8]]
                e["s"][m.group(1)] = {"n": int(m.group(2)), "avg": t[0], "min": t[1], "max": t[2], "mavg": y[0], "mmin": y[1], "mmax": y[2]}
            e["s"] = e["s"] or []
        self.do({"op": "shown", "s": {}}, f)

    def summary(self):
        self.do({"op": "summary"}, lambda e: e.update(s=self.summ(self.prof.get_summary())))

    def report(self):
        def f(e):
            p = os.path.join(self.dir, "r%d.json" % len(self.trace))
            self.prof.save_report(p if self.rng.random() < 0.5 else pathlib.Path(p))
            d = json.load(open(p))
            e["s"] = self.summ(d["summary"])
            e["raw"] = {k: [us(m["duration"]) for m in v] for k, v in d["raw_data"].items()}
        self.do({"op": "report"}, f)

    # ------------------------------------------------------------ analyzers
    def vectors(self):
        rng = self.rng
        n, d = rng.choice([0, 1, 1, 2, 2, 2, 3, 4, 6]), rng.choice([1, 2, 3, 4])
        z = rng.random()
        if z < 0.3:
            rows = [rng.choice([[3, 4], [4, 3], [-3, 4], [0, 5], [5, 0], [0, 0], [6, 8]]) for _ in range(n)]
        else:
            r = 2 if d < 3 else 1
            rows = [[rng.randint(-r, r) for _ in range(d)] for _ in range(n)]
            for i in range(n):
                if rng.random() < 0.15:
                    rows[i] = [rng.choice([0, 1])] * d
                elif i and rng.random() < 0.2:
                    rows[i] = list(rows[i - 1])
        if z > 0.75 and n:
            for _ in range(rng.randint(1, 3)):
                i, j = rng.randrange(n), rng.randrange(len(rows[0]))
                rows[i][j] = rng.choice([5001, 5002, 5003])
                if rng.random() < 0.3:
                    rows[i] = [rows[i][j]] * len(rows[i])
        plain = all(abs(x) < 1000 for r in rows for x in r)
        dt = rng.choice(["float32", "float64", "int64", "int32"] if plain else ["float32", "float64"])
        V = {5001: np.nan, 5002: np.inf, 5003: -np.inf}
        a = np.array([[V.get(x, x) for x in r] for r in rows], dtype=dt) if n else np.zeros(rng.choice([(0, 3), (0,), (0, 0)]), dtype=dt)
        return rows, a

    def analyze(self):
        rows, a = self.vectors()
        show = self.rng.random() < 0.2

        def f(e):
            p = a.copy()
            with np.errstate(all="ignore"):
                r = self.va.analyze_vectors(a)
            e["kept"] = bool(np.array_equal(p, a, equal_nan=a.dtype.kind == "f"))
            e["empty"] = "error" in r
            if e["empty"]:
                return
            b, q, s = r["basic_stats"], r["quality"], r["similarity"]
            ds, nm = r["distribution"]["dimension_stats"], r["distribution"]["norms"]
            e.update(nan=q["nan_values"], inf=q["inf_values"], const=int(q["constant_vectors"]), zero=q["zero_vectors"], score=fr(q["quality_score"]))
            if all(abs(x) < 1000 for r_ in rows for x in r_):
                n = len(rows)
                nrm = [math.sqrt(sum(x * x for x in r_)) for r_ in rows]
                st = s["similarity_stats"]
                cos = [int(round(1000 * (sum(x * y for x, y in zip(rows[i], rows[j])) / (nrm[i] * nrm[j]) if nrm[i] * nrm[j] else 0)))
                       for i in range(n) for j in range(i + 1, n)]
                e.update(count=b["count"], dim=b["dimension"], mean=fr(b["mean"]), var=fr(b["std"] ** 2), min=whole(b["min"]), max=whole(b["max"]),
                         sparsity=fr(b["sparsity"]), mm=fr(ds["mean_of_means"]), vm=fr(ds["std_of_means"] ** 2), ms=fr(ds["mean_of_stds"]),
                         vs=fr(ds["std_of_stds"] ** 2), nmin=whole2(nm["min"]), nmax=whole2(nm["max"]), roots=[int(round(x)) for x in nrm],
                         nmean=fr(nm["mean"]), nvar=fr(nm["std"] ** 2), high=s["high_similarity_pairs"], low=s["low_similarity_pairs"],
                         cos=cos, cosok=True)
                if n > 1:
                    e.update(smin=sq(st["min"]), smax=sq(st["max"]), smean=sq(st["mean"]), svar=fr(st["std"] ** 2),
                             smean1000=int(round(1000 * st["mean"])))
        self.do({"op": "analyze", "rows": rows, "empty": False, "kept": True}, f)
        if show:
            self.printed(lambda: self.va.print_analysis(a), rows)

    def printed(self, f, rows=None):
        out = io.StringIO()

        def g(e):
            with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
                f()
            text = out.getvalue()
            e["some"] = bool(text.strip())
            for k, label in (("count", "Count"), ("dim", "Dimension"), ("nan", "NaN values"), ("inf", "Inf values"),
                             ("const", "Constant vectors"), ("zero", "Zero vectors")):
                m = re.search(r"\b%s: ([\d,]+)" % label, text)
                e[k] = int(m.group(1).replace(",", "")) if m else -1
            m = re.search(r"Quality Score: (-?[\d.]+)", text)
            e["score"] = fr(m.group(1)) if m else -1
        self.do({"op": "printed", "some": False, "rows": rows or []}, g)

    def query(self):
        rng = self.rng
        q = [rng.randint(-3, 3) for _ in range(rng.choice([1, 2, 4, 8]))]
        ds = [rng.randint(0, 9) for _ in range(rng.choice([0, 1, 2, 3, 5, 10]))]
        k, t = rng.randint(1, 10), rng.randint(0, 50)
        dt = rng.choice(["float32", "float64", "int32"])

        def f(e):
            res = [{"id": str(i), "distance": rng.choice([float, np.float64, int])(d)} for i, d in enumerate(ds)]
            r = self.qa.analyze_query(np.array(q, dtype=dt), res, k, float(t))
            a, b = r["query_stats"], r["result_stats"]
            e.update(norm=whole2(a["vector_norm"]), mean=fr(a["vector_mean"]), var=fr(a["vector_std"] ** 2), count=b["count"],
                     expected=b["expected_count"], same_time=b["search_time"] == t, has="distance_mean" in b)
            if e["has"]:
                e.update(dmean=fr(b["distance_mean"]), dvar=fr(b["distance_std"] ** 2), dmin=whole(b["distance_min"]), dmax=whole(b["distance_max"]))
        self.do({"op": "query", "q": q, "ds": ds, "k": k, "t": t}, f)

    def patterns(self):
        def f(e):
            r = self.qa.analyze_query_patterns()
            e["none"] = "error" in r
            if not e["none"]:
                t, n = r["search_time"], r["result_count"]
                e.update(total=r["total_queries"], tmean=fr(t["mean"]), tvar=fbig(t["std"] ** 2), tmin=whole(t["min"]), tmax=whole(t["max"]),
                         nmean=fr(n["mean"]), nvar=fr(n["std"] ** 2), nmin=n["min"], nmax=n["max"])
        self.do({"op": "patterns"}, f)

    # ------------------------------------------------------------ decorators
    def call(self):
        from valori.utils import helpers as H
        rng = self.rng
        deco = rng.choice([self.G.debug_function, H.timing_decorator, H.memory_usage_decorator])
        err = rng.choice(ERRORS)("x") if rng.random() < 0.5 else None
        res = rng.choice([None, 3, np.zeros((2, 3)), np.float32(1), [1], "x", object()])
        args, kw = tuple(object() for _ in range(rng.randint(0, 3))), {k: object() for k in rng.sample(["func", "args", "x"], rng.randint(0, 2))}
        seen = []
        out, memory = io.StringIO(), Memory(rng)

        def body(*a, **k):
            """doc of body"""
            seen.append((a, k))
            memory.move()
            if err:
                raise err
            return res
        w = deco(body)
        away = {"psutil": None} if deco is H.memory_usage_decorator and rng.random() < 0.2 else {}
        e = {"op": "call", "deco": deco.__name__, "want": "same", "err": type(err).__name__, "named": (w.__name__, w.__doc__) == ("body", "doc of body")}
        try:
            with contextlib.redirect_stdout(out), unittest.mock.patch.dict(sys.modules, away):
                r = w(*args, **kw)
            e["r"] = "same" if err is None and r is res else "returned something else"
        except BaseException as x:  # noqa: BLE001
            e["r"] = "same" if x is err else "%s: %s" % (type(x).__name__, str(x)[:60])
        said = out.getvalue()
        e.update(debug=deco is self.G.debug_function, np=len(args), nk=len(kw), named_it="body" in said or bool(away), raised=err is not None,
                 plain=isinstance(err, Exception), good="SUCCESS" in said, wrong="ERROR" in said, sized="(2, 3)" in said,
                 array=isinstance(res, np.ndarray) and err is None, mem=0, wantmem=0)
        m = re.search(r"(\d+) positional\D+(\d+) keyword", said)
        e["told"] = [int(m.group(1)), int(m.group(2))] if m else []
        if deco is H.memory_usage_decorator and err is None and not away:
            m = re.search(r"(-?[\d.]+) MB", said)
            e["mem"], e["wantmem"] = memory.delta(float(m.group(1)) if m else -99999)
        e["calls"] = len(seen)
        e["args"] = all(len(a) == len(args) and all(p is q for p, q in zip(a, args)) and set(k) == set(kw)
                        and all(k[z] is kw[z] for z in kw) for a, k in seen)
        self.trace.append(e)

    # ------------------------------------------------------------ indices
    def index(self, kind):
        import drv_index as X
        rng = self.rng
        metric, cfg = X.params(kind, rng)
        cfg = dict(cfg, metric=metric)
        ix = X.make_index(kind, cfg)
        self.store = X.make_storage("memory", self.dir)
        self.store.initialize()
        ix.initialize(self.store)
        return ix, cfg

    def inspect(self):
        rng = self.rng
        kind = rng.choice(["flat", "hnsw", "lsh", "annoy", "ivf"])
        ix, cfg = self.index(kind)
        d = rng.choice([2, 3])
        live = {}
        for _ in range(rng.randint(0, 3)):
            rows = [[rng.randint(1, 3) for _ in range(d)] for _ in range(rng.randint(1, 3))]
            for i, v in zip(ix.insert(np.array(rows, dtype=np.float32), [{} for _ in rows]), rows):
                live[i] = v
            if live and rng.random() < 0.5:
                i = rng.choice(list(live))
                ix.delete([i])
                del live[i]
            if live and rng.random() < 0.4:
                i, v = rng.choice(list(live)), [rng.randint(1, 3) for _ in range(d)]
                ix.update(i, np.array(v, dtype=np.float32), {})
                live[i] = v
        show = rng.random() < 0.3

        def f(e):
            r = self.G.IndexInspector(ix).inspect_index()
            e["kind_ok"] = r["type"].lower().startswith(kind)
            e["ini"] = r["initialized"] is True
            e["stat"] = count(r["stats"])
            v = r.get("vector_info")
            e["seen"] = v is not None
            if v is not None:
                e["n"] = v["count"]
                if live:
                    e.update(dim=v["dimension"], mean=fr(v["sample_stats"]["mean"]), var=fr(v["sample_stats"]["std"] ** 2))
            h = r.get("hash_info")
            e["tables"] = cfg["num_hash_tables"] if h is not None else 0
            if h is not None:
                e.update(tcount=h["table_count"], entries=h["total_entries"], buckets=h["total_buckets"], avg1000=int(round(1000 * h["avg_entries_per_bucket"])))
        self.do({"op": "inspect", "kind": kind, "live": list(live.values())}, f)
        if show:
            self.printed(lambda: self.G.IndexInspector(ix).print_inspection())
        ix.close()

    def perf(self):
        from valori.utils.helpers import validate_index_performance
        rng = self.rng
        kind = rng.choice(["flat", "hnsw", "lsh", "annoy", "ivf"])
        ix, _ = self.index(kind)
        n, m = rng.randint(2, 8), rng.choice([0, 1, 2, 4])
        rows = np.array([[rng.randint(1, 9) for _ in range(3)] for _ in range(n)], dtype=np.float32)
        qs = np.array([[rng.randint(1, 9) for _ in range(3)] for _ in range(m)], dtype=np.float32).reshape(m, 3)
        calls = {"add": [], "search": []}
        real_search = ix.search
        real = {n: getattr(ix, n) for n in ("insert", "add") if hasattr(ix, n)}
        depth = [0]

        def search(*a, **k):
            calls["search"].append((a, k))
            return real_search(*a, **k)

        def adder(f):
            def insert(v, md, *a, **k):
                if not depth[0]:
                    calls["add"].append((np.array(v), md))
                depth[0] += 1
                try:
                    return f(v, md, *a, **k)
                finally:
                    depth[0] -= 1
            return insert
        ix.search = search
        for n_, f_ in real.items():
            setattr(ix, n_, adder(f_))

        def f(e):
            r = validate_index_performance(ix, rows, qs, k=rng.choice([1, 3, 10]))
            e["stat"] = count(r["index_stats"])
            e["rate_ok"] = (abs(r["add_throughput"] * r["add_time"] - n) < 1e-6 * n and len(calls["search"]) == m
                            and (m == 0 or abs(r["search_throughput"] * r["avg_search_time"] - 1) < 1e-6))
            e["stored"] = sum(len(v) for v, _ in calls["add"])
            e["numbered"] = (all(np.array_equal(v, rows[[x["id"] for x in md]]) for v, md in calls["add"])
                             and sorted(x["id"] for _, md in calls["add"] for x in md) == list(range(n)))
        self.do({"op": "perf", "kind": kind, "n": n, "m": m}, f)

    # ------------------------------------------------------------ progress and resources
    def progress(self):
        rng = self.rng
        total = rng.choice([0, 1, 3, 10, 100])
        self.do({"op": "track", "total": total}, lambda e: setattr(self, "track", self.B.ProgressTracker(total, "x")))
        for _ in range(rng.randint(0, 4)):
            by = rng.choice([1, 1, 2, 3])
            out = io.StringIO()

            def f(e):
                if rng.random() < 0.4:
                    self.track.update_interval = rng.choice([0.0, 0.0, 10.0])
                with contextlib.redirect_stdout(out):
                    self.track.update() if by == 1 and rng.random() < 0.5 else self.track.update(by)
                e["current"] = self.track.current
            self.do({"op": "advance", "by": by}, f)
        out2 = io.StringIO()

        def g(e):
            with contextlib.redirect_stdout(out2):
                self.track.finish()
            s = out2.getvalue()
            e["current"] = self.track.current
            e["shown"] = [int(x) for x in re.findall(r"\((\d+)/(\d+)\)", s)[-1]]
            e["percent"] = int(round(10 * float(re.findall(r"([\d.]+)%", s)[-1])))
        self.do({"op": "finish"}, g)

    def start(self, interval=None):
        def f(e):
            self.mon.start_monitoring(interval or self.rng.choice([0.001, 0.01]))
            e["threads"], e["samples"] = threading.active_count() - self.base, len(self.mon.resource_data)
        self.do({"op": "start"}, f)

    def stop(self):
        def f(e):
            n, t = len(self.mon.resource_data), time.time()
            while self.mon.monitoring and not len(self.mon.resource_data) > n and time.time() < t + 5:
                time.sleep(0.001)
            self.mon.stop_monitoring()
            e["threads"], e["samples"] = threading.active_count() - self.base, len(self.mon.resource_data)
            time.sleep(0.004)
            e["frozen"] = e["samples"] == len(self.mon.resource_data)
        self.do({"op": "stop"}, f)

    def usage(self):
        def f(e):
            e["samples"] = len(self.mon.resource_data)
            if self.rng.random() < 0.5:
                s = self.mon.get_summary()
            else:
                p = os.path.join(self.dir, "u%d.json" % len(self.trace))
                self.mon.save_report(p)
                d = json.load(open(p))
                s = d["summary"]
                if len(d["data"]) < e["samples"]:
                    raise ValueError("samples missing from the report")
            if not e["samples"] and s:
                e["samples"] = len(self.mon.resource_data)
            e["some"] = bool(s)
            e["ordered"] = not s or (s["duration"] >= 0 and all(s[k]["min"] <= s[k]["avg"] * 1.000001 and s[k]["avg"] <= s[k]["max"] * 1.000001
                                                                for k in ("memory", "cpu")))
        self.do({"op": "usage"}, f)


def blocks(rng, tour):
    """Enter and leave measured blocks as a path of ProfGen says."""
    w = World(rng)
    open_, err = [], None
    try:
        for op in tour:
            if op["op"] == "enter":
                cm = w.prof.measure(op["n"])
                t0 = time.time()
                memory = Memory(rng)
                cm.__enter__()
                open_.append((op["n"], cm, t0, time.time(), memory))
                memory.move()
            elif op["op"] in ("leave", "raise"):
                name, cm, t0, t1, memory = open_.pop()
                if op["op"] == "raise":
                    err = err or rng.choice(ERRORS[:-1])("x")
                before = {k: len(v) for k, v in w.prof.measurements.items()}
                t2 = time.time()
                r = "ok"
                try:
                    if op["op"] == "raise":
                        if cm.__exit__(type(err), err, err.__traceback__):
                            r = "swallowed"
                        else:
                            r = "same"
                    else:
                        cm.__exit__(None, None, None)
                except BaseException as x:  # noqa: BLE001
                    r = "same" if x is err else "%s: %s" % (type(x).__name__, x)
                t3 = time.time()
                now = {k: len(v) for k, v in w.prof.measurements.items()}
                mem, wantmem = memory.delta(w.prof.measurements.get(name, [{}])[-1].get("memory_delta", -99999))
                w.trace.append({"op": "measured", "name": name, "want": "same" if op["op"] == "raise" else "ok", "r": r,
                                "n": now.get(name, 0), "mem": mem, "wantmem": wantmem,
                                "t": us(w.prof.measurements.get(name, [{}])[-1].get("duration", -1)),
                                "lo": us(t2 - t1) - 500, "hi": us(t3 - t0) + 500,
                                "others": all(now.get(k, 0) == before.get(k, 0) for k in now if k != name)})
                if not open_:
                    err = None
            else:
                err = None
        w.summary()
        if rng.random() < 0.2:
            w.shown()
    finally:
        w.close()
    return w.trace


def run(rng, pick):
    w = World(rng)
    try:
        ops = pick(w)
        for _ in range(14):
            rng.choice(ops)()
    finally:
        w.close()
    return w.trace


def analysis(rng):
    def pick(w):
        ops = [w.measure] * 3 + [w.summary, w.report] + [w.query] * 3 + [w.patterns] + [w.analyze] * 3
        if rng.random() < 0.4:
            ops += [w.inspect] * 4
        if rng.random() < 0.25:
            ops += [w.shown] * 2
        return ops
    return run(rng, pick)


def tools(rng):
    def pick(w):
        if rng.random() < 0.2:
            return [w.start] * 2 + [w.stop] * 2 + [w.usage] * 2
        return [w.call] * 4 + [w.progress] + [w.perf] * (2 if rng.random() < 0.5 else 0)
    return run(rng, pick)
