"""Drives the real BatchManager over a real client; traces for TrBatch."""
import contextlib
import io
import os
import random
import re
import sys
import threading
import time

import numpy as np

import valori_env  # noqa: F401
import core
from valori_env import REPO

SRC = os.path.join(os.path.realpath(REPO), "src", "valori", "utils")


class Fail(Exception):
    pass


class Gate:
    """The client, with failing calls and a controlled order of completion."""

    def __init__(self, db, first, size, fail=(), order=None):
        self._db, self.first, self.size, self.fail = db, first, size, set(fail)
        self.order, self.at = order, 0
        self.cond = threading.Condition()

    def insert(self, vectors, metadata=None):
        b = (int(round(float(np.asarray(vectors)[0][0]))) - self.first) // self.size + 1
        if self.order:
            with self.cond:
                self.cond.wait_for(lambda: self.at < len(self.order) and self.order[self.at] == b, timeout=0.3)
        try:
            if b in self.fail:
                raise Fail("injected failure of batch %d" % b)
            return self._db.insert(vectors, metadata)
        finally:
            if self.order:
                time.sleep(0.0015)
                with self.cond:
                    self.at += 1
                    self.cond.notify_all()

    def __getattr__(self, n):
        return getattr(self._db, n)


def noise(seed, p=0.05, src=SRC):
    """Trace function for new threads: now and then a thread pauses at a line."""
    rng = random.Random(seed)

    def local(frame, event, arg):
        if event == "line" and rng.random() < p:
            time.sleep(0.0004)
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(src) else None
    return tracer


def progress_lines(text):
    """The printed progress: <<permille, processed, total, failed>> per line."""
    found = []
    for line in re.split(r"[\r\n]", text):
        pair = re.search(r"(\d+)/(\d+)", line)
        if "%" not in line or not pair:
            continue
        pct = re.search(r"(-?[\d.]+)\s*%", line)
        failed = re.search(r"[Ff]ailed:? *(\d+)", line)
        found.append([int(round(float(pct.group(1)) * 10)) if pct else -1, int(pair.group(1)), int(pair.group(2)),
                      int(failed.group(1)) if failed else -1])
    return found


class BatchRun:
    def __init__(self, rng, kind="flat", storage="memory"):
        from valori import VectorDBClient
        import drv_index
        self.rng = rng
        cfg = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "ef_search": 500},
               "ivf": {"metric": "euclidean", "n_clusters": 3, "n_probes": 3},
               "lsh": {"metric": "euclidean", "threshold": -1.0}}[kind]
        self.kind = kind
        self.path = core.fresh_dir("ba")
        self.db = VectorDBClient(drv_index.make_storage(storage, self.path), drv_index.make_index(kind, cfg))
        self.db.initialize()
        self.ev = [{"op": "reset", "kind": kind}]
        self.next = 1           # number of the next item (over all runs)
        self.runs = []          # first item number of each run
        self.ids = {}
        self.metas = {}
        self.used = False

    def tok(self, real):
        s = real if isinstance(real, str) else "?" + repr(real)
        return self.ids.setdefault(s, len(self.ids) + 1)

    def manager(self, size, workers):
        from valori.utils.batch_manager import BatchManager
        return BatchManager(batch_size=size, max_workers=workers)

    def meta(self, t):
        return None if t == 0 else {} if t == 1 else {"m": t, "l": [t]}

    def meta_tok(self, m):
        if m is None:
            return 0
        if m == {}:
            return 1
        return m["m"] if isinstance(m, dict) and m == self.meta(m.get("m", 0)) else -1

    def place(self, x):
        """item number -> (run, item within it)"""
        for r in range(len(self.runs) - 1, -1, -1):
            if x >= self.runs[r]:
                return r + 1, x - self.runs[r] + 1
        return -1, -1

    def run(self, bm, mode, n, bad=(), failcall=(), order=None, callbacks=True, raising=None,
            ms=None, noisy=False, k=3, show=False):
        rng = self.rng
        size = bm.batch_size
        first = self.next
        if mode != "search":
            self.runs.append(first)
            self.next += n
        vs = np.array([[first + i, 2.0] for i in range(n)], dtype="f4").reshape(n, 2)
        if mode == "search":
            vs = np.array([[rng.uniform(-5, self.next + 5), rng.choice([1, 2, 3])] for _ in range(n)],
                          dtype="f8").reshape(n, 2)
        good = vs.copy()
        for i in bad:
            vs[i - 1][1] = rng.choice([float("nan"), float("inf")])
        if ms is None:
            ms = [rng.choice([1, 2, 3, 4]) for _ in range(n)]
            if self.kind in ("flat", "hnsw", "ivf"):
                ms = [rng.choice([0, m]) for m in ms]
        metas = [self.meta(t) for t in ms]
        e = {"op": "run", "mode": mode, "n": n, "size": size, "run": len(self.runs), "bad": list(bad),
             "failcall": list(failcall), "ms": list(ms), "ids": [], "errs": [], "prog": [], "res": [],
             "ref": [], "cb": callbacks, "raising": raising is not None, "total": -1, "processed": -1, "failed": -1}
        gate = Gate(self.db, first, size, failcall, order)

        def where(x):
            if isinstance(x, dict):
                x = x["vectors"]
            a = np.atleast_2d(np.asarray(x))
            for row in a:
                if mode == "search":
                    hit = [i + 1 for i in range(n) if np.array_equal(row, vs[i], equal_nan=True)]
                    hit = [h for h in hit if h not in e["errs"]][:1]
                    e["errs"] += hit or [-1]
                else:
                    e["errs"].append(int(round(float(row[0]))) - first + 1)

        count = [0]

        def progress(a, b):
            e["prog"].append([int(a), int(b)])
            count[0] += 1
            if raising == ("progress", count[0]):
                raise Fail("progress callback")

        def error(x, data):
            where(data)
            count[0] += 1
            if raising and raising[0] == "error":
                raise Fail("error callback")
        out = io.StringIO()
        bm.progress_callback = bm.error_callback = None
        if callbacks:
            bm.set_progress_callback(progress)
            bm.set_error_callback(error)
        try:
            with contextlib.redirect_stdout(out):
                if noisy:
                    threading.settrace(noise(rng.random()))
                try:
                    if mode == "search":
                        r = bm.batch_search(gate, vs, k, show) if rng.random() < .5 else \
                            bm.batch_search(gate, vs, k=k, show_progress=show)
                    elif mode == "insert":
                        r = bm.batch_insert(gate, vs, metas, show_progress=show)
                    else:
                        r = bm.parallel_batch_insert(gate, vs, metas, show_progress=show)
                finally:
                    threading.settrace(None)
            e["r"] = "ok"
            if mode == "search":
                e["res"] = [[self.hit(h) for h in one] for one in r]
                e["ref"] = [[] if i + 1 in bad else [self.hit(h) for h in self.db.search(good[i], k)]
                            for i in range(n)]
            else:
                e["ids"] = [self.tok(x) for x in r]
        except Fail:
            e["r"] = "raised"
        except Exception as x:
            e["r"], e["x"] = "err", repr(x)[:200]
        e["show"], e["shown"] = show, progress_lines(out.getvalue())
        s = bm.get_stats()
        took, rate = float(s.get("total_time", -1)), float(s.get("items_per_second", -1))
        e["rate"] = int(round(rate * took)) if took > 0 else -1 if took == 0 and rate == 0 else -2
        e["total"], e["processed"], e["failed"] = (int(s[x] or 0) for x in
                                                   ("total_items", "processed_items", "failed_items"))
        self.ev.append(e)
        if e["r"] != "raised" and mode != "search":
            self.content()
        return e["r"]

    def hit(self, h):
        return [self.tok(h["id"]), int(round(min(float(h["distance"]), 9999) * 1000))]

    def content(self):
        e = {"op": "content", "recs": []}
        try:
            if self.kind == "lsh":
                got = [(h["id"], h["metadata"], None) for h in self.db.search(np.array([0.0, 2.0]), 10 ** 6)] \
                    if self.next > 1 else []
                self.ev.append({"op": "count", "n": int(self.db.get_stats()["index"]["num_vectors"])})
                return
            st = self.db.storage_backend
            for i in st.list_vectors():
                v, m = st.retrieve_vector(i)
                run, item = self.place(int(round(float(v[0]))))
                if float(v[1]) != 2.0:
                    item = -1
                e["recs"].append([self.tok(i), run, item, self.meta_tok(m)])
            self.ev.append({"op": "count", "n": int(self.db.get_stats()["index"]["vector_count"])})
        except Exception as x:
            e["recs"] = [[-1, -1, -1, -1]]
            e["x"] = repr(x)[:200]
        self.ev.append(e)

    def stored(self):
        s = self.db.get_stats()["index"]
        return s.get("vector_count", s.get("num_vectors"))

    def done(self):
        import shutil
        self.db.close()
        shutil.rmtree(self.path, ignore_errors=True)
        return self.ev


def order_run(o, rng, storage="memory"):
    """A parallel run whose batches complete in the order the model chose."""
    run = BatchRun(rng, rng.choice(["flat", "flat", "hnsw", "ivf", "lsh"]), storage)
    bm = run.manager(o["size"], o["w"])
    n = (o["nb"] - 1) * o["size"] + o["last"]
    if rng.random() < 0.3:
        run.run(bm, "insert", rng.randint(0, 3))
    kw = {}
    if rng.random() < 0.5:
        kw["failcall"] = o["bad"]
    else:
        kw["bad"] = [rng.randint((b - 1) * o["size"] + 1, min(n, b * o["size"])) for b in o["bad"]]
    run.run(bm, "parallel", n, order=o["order"], callbacks=rng.random() < 0.8, **kw)
    return run.done()


def random_runs(rng, nruns=4, modes=("insert", "insert", "search", "parallel")):
    """Several runs with one manager on one database."""
    run = BatchRun(rng, rng.choice(["flat", "flat", "hnsw", "ivf", "lsh"]), rng.choice(["memory", "memory", "hybrid"]))
    size = rng.choice([1, 2, 3, 4, 5, 7])
    bm = run.manager(size, rng.choice([1, 2, 4]))
    for _ in range(nruns):
        mode = rng.choice(modes)
        n = rng.choice([0, 1, size - 1, size, size + 1, 2 * size, 2 * size + 1, 3 * size - 1, rng.randint(0, 20)])
        nb = (n + size - 1) // size
        bad, failcall, raising = [], [], None
        c = rng.random()
        if n and c < 0.35:
            bad = sorted(rng.sample(range(1, n + 1), rng.randint(1, min(n, 4))))
        elif nb and mode != "search" and c < 0.6:
            failcall = sorted(rng.sample(range(1, nb + 1), rng.randint(1, nb)))
        callbacks = rng.random() < 0.75
        if callbacks and rng.random() < 0.15:
            raising = rng.choice([("progress", rng.randint(1, 3)), ("error",)])
        ms = None
        if mode == "insert" and run.kind != "lsh" and rng.random() < 0.15:
            ms = [rng.choice([0, 1, 2]) for _ in range(rng.randint(0, n))]
        if mode == "search" and bad and not run.stored():
            bad = []        # an empty index may answer anything with nothing
        r = run.run(bm, mode, n, bad, failcall, callbacks=callbacks, raising=raising, ms=ms,
                    noisy=rng.random() < 0.5, k=rng.choice([0, 1, 3, 50]), show=rng.random() < 0.3)
        if raising and mode != "search" and (r == "raised" or run.kind != "zzz"):
            break       # what is stored then is not determined
    return run.done()
