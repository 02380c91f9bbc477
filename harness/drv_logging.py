"""Drives the logging helpers in a process of their own and records traces for TrLogging."""
import json
import logging
import os
import pathlib
import random
import re
import sys

import core
import valori_env  # noqa: F401

LEVELS = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}
NAMES = ["app", "valori.own", "x y", "worker-1", "\xfcber"]
FORMATS = [None, None, "X|%(levelname)s|%(name)s|%(message)s", "%(asctime)s [%(name)s] %(levelname)s: %(message)s"]


class Console:
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s
        return len(s)

    def flush(self):
        pass


class LRun:
    """A history in this process, whose logging is used up by it."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.dir = core.fresh_dir("log")
        os.chdir(self.dir)
        logging.disable(logging.NOTSET)
        self.out, self.err = Console(), Console()
        sys.stdout, sys.stderr = self.out, self.err
        from valori.utils import debugging
        from valori.utils import logging as vlog
        self.vlog, self.debugging = vlog, debugging
        self.trace = [{"op": "reset", "kind": kind}]
        self.conf = None
        self.n = 1000
        self.loggers = {}

    def rec(self, e, f):
        try:
            f()
            e["r"] = "ok"
        except Exception as x:  # noqa: BLE001
            e["r"], e["x"] = "err", repr(x)[:200]
        self.trace.append(e)
        return e

    def spelled(self, lev):
        s = LEVELS[lev]
        return self.rng.choice([s, s, s.lower(), s.capitalize()])

    def get(self, name, lev):
        def f():
            if lev == 20 and self.rng.random() < 0.5:
                self.loggers[name] = self.vlog.get_logger(name)
            else:
                self.loggers[name] = self.vlog.get_logger(name, self.spelled(lev))
            assert self.loggers[name] is logging.getLogger(name)
        self.rec({"op": "get", "via": name, "lev": lev}, f)

    def setup(self, lev, file=None, fmt=None, small=False):
        rng = self.rng
        path = None
        if file:
            path = os.path.join(rng.choice(["", "logs", "a/b"]), file)
        limit = rng.choice([(1200, 2), (2000, 1), (1500, 3)]) if small and path and self.kind == "app" else None
        conf = {"lev": lev, "path": path, "fmt": None, "limit": limit, "date": None}
        e = {"op": "setup", "lev": lev, "hasfile": path is not None}
        if self.kind == "debug":
            if path and os.path.dirname(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)

            def f():
                a = (self.spelled(lev),) if lev != 20 or rng.random() < 0.5 else ()
                if path:
                    self.debugging.setup_logging(*a, **{"log_file": rng.choice([str, pathlib.Path])(path)})
                else:
                    self.debugging.setup_logging(*a)
        else:
            cfg = {}
            if lev != 20 or rng.random() < 0.5:
                cfg["level"] = self.spelled(lev)
            if path:
                cfg.update(log_to_file=True, log_file=rng.choice([str, pathlib.Path])(path))
                if path == "valori.log" and rng.random() < 0.5:
                    del cfg["log_file"]
            elif rng.random() < 0.3:
                cfg["log_file"] = "unused.log"
            if fmt:
                cfg["format"] = conf["fmt"] = fmt
            if rng.random() < 0.3:
                cfg["date_format"] = conf["date"] = "%Y"
            if limit:
                cfg["max_file_size"], cfg["backup_count"] = limit
            args = (cfg,) if cfg or rng.random() < 0.5 else rng.choice([(), (None,)])
            before = dict(cfg)

            def f():
                self.vlog.setup_logging(*args)
                assert cfg == before
        self.conf = conf
        self.rec(e, f)

    # ---- messages
    def emit(self, name, sev):
        self.n += 1
        tok = "tok%dx" % self.n
        extra = self.rng.choice(["", " with a tail", " \xe9\u6f22", " {braces} %s %d"])
        lg = logging.getLogger(name)
        self.observe(name, sev, tok, [tok + extra], lambda: lg.log(sev, tok + extra if "%" not in extra else "%s", *(
            [] if "%" not in extra else [tok + extra])))

    def helper(self):
        """One of the functions that log something in particular."""
        rng, v = self.rng, self.vlog
        self.n += 1
        tok = "tok%dx" % self.n
        num = self.n * 1000 + 17
        kw = rng.choice([{}, {"batch": 5}, {"who": "me", "n": 3}])
        kws = [x for k, y in kw.items() for x in (k, str(y))]
        dur = rng.choice([0.25, 1.5, 3])
        which = rng.randrange(9)
        if which == 0:
            a = ("performance", 20, tok, [tok, str(dur)] + kws, lambda: v.log_performance(tok, dur, **kw))
        elif which == 1:
            q = rng.randint(-40, 40)
            b = rng.randint(50, 90)
            a = ("memory", 20, tok, [tok, "%.2f MB" % (q / 4)], lambda: v.log_memory_usage(tok, b * 262144, (b + q) * 262144))
        elif which == 2:
            a = ("operations", 20, tok, [tok, str(num), "384"] + kws, lambda: v.log_vector_operation(tok, num, 384, **kw))
        elif which == 3:
            a = ("index", 20, tok, [tok, str(num)] + kws, lambda: v.log_index_stats(tok, num, **kw))
        elif which == 4:
            a = ("search", 20, str(num), [str(num), "384", "77", str(dur)], lambda: v.log_search_query(384, num, 77, dur))
        elif which == 5:
            ctx = rng.choice([None, "while loading"])

            def f():
                try:
                    raise KeyError(tok)
                except KeyError as x:
                    v.log_error(x, ctx) if ctx or rng.random() < 0.5 else v.log_error(x)
            a = ("error", 40, tok, [tok, "KeyError", str(ctx)], f)
        elif which == 6:
            a = ("warning", 30, tok, [tok] + kws, lambda: v.log_warning(tok, **kw))
        elif which == 7:
            a = ("info", 20, tok, [tok] + kws, lambda: v.log_info(tok, **kw))
        else:
            a = ("debug", 10, tok, [tok] + kws, lambda: v.log_debug(tok, **kw))
        self.observe("valori." + a[0], *a[1:], traced=which == 5)

    def observe(self, name, sev, tok, data, f, traced=False):
        self.out.text = self.err.text = ""
        e = {"op": "emit", "via": name, "sev": sev, "console": 0, "file": 0, "other": 0, "shows": True, "sized": True}
        self.rec(e, f)

        def lines(text):
            return [x for x in text.split("\n") if tok in x and LEVELS[sev] in x and name in x]
        seen = lines(self.out.text) + lines(self.err.text)
        e["console"] = len(seen)
        c = self.conf
        for d, _, fs in os.walk(self.dir):
            for fn in fs:
                p = os.path.relpath(os.path.join(d, fn), self.dir)
                with open(os.path.join(d, fn), encoding="utf-8", errors="replace") as h:
                    got = lines(h.read())
                mine = c and c["path"] and (p == c["path"] or re.fullmatch(re.escape(c["path"]) + r"\.\d+", p))
                if mine:
                    e["file"] += len(got)
                    if c["limit"]:
                        k = p[len(c["path"]):]
                        e["sized"] = e["sized"] and (k == "" or int(k[1:]) <= c["limit"][1])
                        e["sized"] = e["sized"] and (os.path.getsize(os.path.join(d, fn)) <= c["limit"][0] + 60)
                else:
                    e["other"] += len(got)
                seen += got
        if traced and seen:
            # an error comes with its traceback
            e["shows"] = "Traceback" in self.out.text + self.err.text
        for x in seen:
            ok = all(y in x for y in data)
            if c and c["fmt"]:
                ok = ok and (x.startswith("X|%s|%s|" % (LEVELS[sev], name)) if c["fmt"][0] == "X" else "[%s] %s: " % (name, LEVELS[sev]) in x)
            else:
                ok = ok and " - %s - %s - " % (name, LEVELS[sev]) in x
            if not (c and c["fmt"] and c["fmt"][0] == "X"):
                ok = ok and re.match(r"\d{4} " if c and c["date"] else r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", x)
            e["shows"] = bool(e["shows"] and ok)


def isolated(f):
    """f's result, computed in a process of its own."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(f()).encode()
            with os.fdopen(w, "wb") as h:
                h.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    if os.waitpid(pid, 0)[1]:
        raise core.Machinery("a logging history ended abnormally")
    return json.loads(data)


def random_run(seed):
    def f():
        rng = random.Random(seed)
        kind = rng.choice(["app", "app", "app", "debug"])
        h = LRun(rng, kind)
        names = rng.sample(NAMES, rng.randint(1, 3)) if kind == "app" else ["valori", "valori.x", "valori.indices.flat"]
        if kind == "debug":
            h.setup(rng.choice(list(LEVELS)))
        nfile = 0
        for _ in range(rng.randint(5, 30)):
            k = rng.random()
            if k < 0.15 and kind == "app":
                h.get(rng.choice(names), rng.choice(list(LEVELS)))
            elif k < 0.3 and rng.random() < 0.7:
                nfile += 1
                h.setup(rng.choice(list(LEVELS)), rng.choice([None, "valori.log" if nfile == 1 else "f%d.log" % nfile]),
                        rng.choice(FORMATS), rng.random() < 0.4)
            elif k < 0.6 and kind == "app":
                h.helper()
            else:
                pool = names if kind == "debug" or h.conf else list(h.loggers)
                if pool:
                    h.emit(rng.choice(pool), rng.choice(list(LEVELS)))
        if h.conf and h.conf["path"]:
            for _ in range(rng.choice([0, 8, 70])):
                h.emit(names[0], rng.choice([30, 50]))
        return h.trace
    return isolated(f)


def replay(seed, ops):
    def f():
        rng = random.Random(seed)
        h = LRun(rng, "app")
        for op in ops:
            if op["op"] == "get":
                h.get(op["n"], op["l"])
            elif op["op"] == "setup":
                h.setup(op["l"], rng.choice([None, "f%d.log" % len(h.trace)]))
            else:
                h.emit(op["n"], op["s"])
        return h.trace
    return isolated(f)
