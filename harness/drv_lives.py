"""Lives of components (module LivesGen) and of the client (module Client)."""
import os
import shutil

import numpy as np

import valori_env  # noqa: F401
import core
import drv_persist
import drv_storage
from values import Vocab


# ------------------------------------------------- two storages, one directory
def storage_lives(kind, lim, tour, rng):
    names = drv_storage.plain_ids(rng, 4)
    run = drv_storage.Run(kind, lim, Vocab(rng, 5, 3), ids=names)
    run.known_ids = tuple(names)
    other = {1: run.st, 2: drv_storage.make(kind, lim, run.path)}
    cur = 1
    for o in tour:
        o = o["op"]
        if o == "init":
            run.open()
            if rng.random() < 0.5:
                run.look()
        elif o == "close":
            run.close()
        elif o == "swap":
            cur = 3 - cur
            run.st = other[cur]
            run.ev.append({"op": "new"})
        elif o == "fresh":
            run.new()
            other[cur] = run.st
        else:
            for _ in range(rng.choice([1, 3, 6]) if o == "use" else 2):
                i, c = rng.choice(list(names)), rng.random()
                if c < 0.45:
                    run.mutate("store", i, rng.randint(1, 5), rng.randint(0, 3))
                elif c < 0.55:
                    run.mutate("update", i, rng.randint(1, 5), rng.randint(0, 3))
                elif c < 0.7:
                    run.mutate("delete", i)
                elif c < 0.85:
                    run.get(i)
                elif c < 0.93:
                    run.list()
                else:
                    run.stats()
        if o == "use" and rng.random() < 0.3 or o == "probe":
            run.list()
            run.stats()
    run.new()
    run.open()
    run.look()
    return run.done()


def persist_lives(kind, tour, rng):
    cfg = {"checkpoint_interval": rng.choice([1, 2, 100]), "compression": rng.random() < 0.5}
    run = drv_persist.PRun(kind, rng, cfg, ["f", "g.npz", "s"])
    first, cur = run.pm, 1
    run.new(first=True)
    other = {1: first, 2: run.pm}
    run.pm = first
    for o in tour:
        o = o["op"]
        if o == "init":
            run.init()
            if rng.random() < 0.5:
                run.look()
        elif o == "close":
            run.close()
        elif o == "swap":
            cur = 3 - cur
            run.pm = other[cur]
            run.ev.append({"op": "new"})
        elif o == "fresh":
            run.new()
            other[cur] = run.pm
        else:
            for _ in range(rng.choice([1, 3, 5]) if o == "use" else 2):
                w = rng.choice(["state", "vectors", "index"])
                n = {"state": "s", "vectors": "g.npz", "index": "f"}[w]
                if rng.random() < 0.6:
                    run.save(w, n, rng.randint(1, 5))
                else:
                    run.load(w, n)
        if o == "probe" or o == "use" and rng.random() < 0.4:
            run.stats()
    run.new()
    run.init()
    run.look()
    return run.done()


# ----------------------------------------------------------------- the client
class Break(Exception):
    pass


class CRun:
    PARTS = ("storage", "index", "quantization", "persistence")

    def __init__(self, rng):
        self.rng = rng
        self.path = core.fresh_dir("cl")
        self.kind = rng.choice(["memory", "disk", "hybrid"])
        self.ikind = rng.choice(["flat", "hnsw", "ivf"])
        self.quant = rng.choice([None, "scalar", "product", "saq"])
        self.pers = rng.choice([None, "tensor", "incremental"])
        self.ev = [{"op": "reset", "quant": self.quant is not None, "pers": self.pers is not None,
                    "keep": self.kind != "memory"}]
        self.known = []
        self.next = 0
        self.make()

    def make(self):
        from valori import VectorDBClient
        from valori.indices import FlatIndex, HNSWIndex, IVFIndex
        from valori.persistence import IncrementalPersistence, TensorPersistence
        from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer
        st = drv_storage.make(self.kind, 3, os.path.join(self.path, "data"))
        ix = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex}[self.ikind](
            {"metric": "euclidean", "n_clusters": 2, "n_probes": 2, "ef_search": 500})
        q = self.quant and {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}[self.quant]({})
        p = self.pers and {"tensor": TensorPersistence, "incremental": IncrementalPersistence}[self.pers](
            {"data_dir": os.path.join(self.path, "pers")})
        self.parts = {"storage": st, "index": ix}
        if q:
            self.parts["quantization"] = q
        if p:
            self.parts["persistence"] = p
        self.c = VectorDBClient(storage_backend=st, index=ix, quantizer=q, persistence_manager=p)

    def call(self, op, f, **kw):
        e = dict(op=op, **kw)
        try:
            out = f()
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            out, e["r"], e["x_"] = None, "err", "%s: %s" % (type(x).__name__, str(x)[:100])
        self.ev.append(e)
        return e, out

    def life(self, op, fail):
        if fail and fail not in self.parts:
            return
        f = self.c.initialize if op == "init" else self.c.close
        part = self.parts.get(fail)
        name = "initialize" if op == "init" else "close"
        if part is not None:
            def broken(*a):
                raise Break("injected")
            setattr(part, name, broken)
        try:
            self.call(op, f, fail=fail)
        finally:
            if part is not None:
                delattr(part, name)
        if self.kind == "memory":
            self.known = []
        up = []
        for p, o in self.parts.items():
            try:
                if o.get_stats().get("status") != "not_initialized":
                    up.append(p)
            except Exception:  # noqa: BLE001
                up.append(p + "?")
        self.ev.append({"op": "up", "up": up, "after": op})

    def vecs(self, n):
        self.next += n
        return np.array([[self.next - i, self.rng.randint(0, 5), 1.0] for i in range(n)])

    def request(self, op):
        rng = self.rng
        if op == "insert":
            n = rng.choice([1, 1, 2, 4])
            e, ids = self.call(op, lambda: self.c.insert(self.vecs(n), rng.choice([None, [{"a": 1}] * n])), cnt=n, ids=0)
            if ids is not None:
                e["ids"] = len(set(ids))
                self.known += ids
        elif op == "search":
            k = rng.choice([1, 2, 5, 50])
            e, r = self.call(op, lambda: self.c.search(self.vecs(1)[0], k), k=k, hits=-1)
            if r is not None:
                e["hits"] = len({x["id"] for x in r})
        elif op == "update":
            i = rng.choice(self.known) if self.known else "x"
            e, r = self.call(op, lambda: self.c.update(i, self.vecs(1)[0]))
            if e["r"] == "ok" and r is not (i in self.known):
                e["r"] = "odd"
        elif op == "delete":
            i = rng.choice(self.known) if self.known else "x"
            e, r = self.call(op, lambda: self.c.delete([i]))
            if e["r"] == "ok" and i not in self.known:
                self.ev.pop()
            elif e["r"] == "ok":
                self.known.remove(i)
                if r is not True:
                    e["r"] = "odd"
        else:
            e, r = self.call(op, self.c.get_stats, parts=[], n=-1, stored=-1)
            if r is not None:
                try:
                    e["parts"] = sorted(r)
                    e["n"] = r["index"]["vector_count"]
                    s = r["storage"]
                    e["stored"] = s["disk"]["vector_count"] if self.kind == "hybrid" else s["vector_count"]
                except Exception:  # noqa: BLE001
                    e["r"] = "odd"

    def done(self):
        shutil.rmtree(self.path, ignore_errors=True)
        return self.ev


def client_lives(tour, rng):
    run = CRun(rng)
    for o in tour:
        if o["op"] in ("init", "close"):
            run.life(o["op"], o["fail"])
        elif o["op"] == "new":
            run.make()
            if run.kind == "memory":
                run.known = []
            run.ev.append({"op": "new"})
        else:
            run.request(o["op"])
    return run.done()
