"""Shared machinery: running TLC, validating recorded traces, evidence and verdicts.

Exit codes of a check: 0 property held, 1 violation(s), 2 machinery failure.
"""
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VALORI_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    """A scratch directory of this process, removed at exit."""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        _scratch = tempfile.mkdtemp(prefix="valori-verif-")
    return _scratch


def fresh_dir(prefix="d"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch())


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


class Machinery(Exception):
    """The check itself failed: no verdict."""


class Stuck(Exception):
    """The code under test does not come to an end."""


@contextlib.contextmanager
def deadline(seconds):
    """Raises Stuck in the code that still runs after so many seconds."""
    def stop(*a):
        raise Stuck("no end after %d s" % seconds)
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds, 10)      # again and again: drivers record the error and go on
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def driver_failure(text):
    """Is this traceback about the code under test (or a driver that could not digest what it returned)?"""
    if any(w in text for w in ("MemoryError", "No space left", "Too many open files", "Cannot allocate",
                               "Resource temporarily unavailable", "core.Machinery")):
        return False
    return "/src/valori/" in text or "/harness/drv_" in text


# ----------------------------------------------------------------- TLC
def _java(args, env=None, timeout=800, workers=1, heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers)] + args
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out: " + " ".join(args))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def _counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
        pass
    if not m:
        m2 = re.search(r"The number of states generated: ([\d,]+)", out)
        if m2:
            return int(m2.group(1).replace(",", "")), 0
        raise Machinery("TLC gave no state count:\n" + out[-3000:])
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def tlc_cfg(body):
    path = os.path.join(fresh_dir("cfg"), "m.cfg")
    with open(path, "w") as f:
        f.write(body)
    return path


def model_check(module, cfg, env=None, workers=4, timeout=800, simulate=None, seed=1,
                depth=None, deadlock=False):
    """Run TLC on a design model.  Returns (generated, distinct, output).

    A violated invariant of the *model* is a defect of the specification (it
    does not depend on the code), hence a machinery failure.
    """
    if not os.path.exists(cfg):
        cfg = tlc_cfg(cfg)
    args = ["-config", cfg]
    if not deadlock:
        args.append("-deadlock")
    if simulate:
        args += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
        if depth:
            args += ["-depth", str(depth)]
    rc, out = _java(args + [module + ".tla"], env, timeout, workers)
    if rc != 0:
        raise Machinery("model %s does not check (rc %d):\n%s" % (module, rc, out[-4000:]))
    g, d = _counts(out)
    return g, d, out


def edges_of(module, cfg, env=None, timeout=800):
    """All transitions the model prints as '@@E [from, op, to]'."""
    g, d, out = model_check(module, cfg, env, workers=1, timeout=timeout)
    edges = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@E '):
            line = json.loads(line)
        if line.startswith("@@E "):
            edges.append(json.loads(line[4:]))
    if not edges:
        raise Machinery("model %s printed no transitions:\n%s" % (module, out[-3000:]))
    return g, d, edges


def lines_of(out, tag):
    r = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            line = json.loads(line)
        if line.startswith(tag):
            r.append(json.loads(line[len(tag):]))
    return r


class Graph:
    """Transition graph of a model; yields operation sequences that cover it."""

    def __init__(self, edges):
        self.adj = {}
        self.seen = set()
        for f, op, t in edges:
            kf, ko, kt = (json.dumps(x, sort_keys=True) for x in (f, op, t))
            if (kf, ko, kt) in self.seen:
                continue
            self.seen.add((kf, ko, kt))
            self.adj.setdefault(kf, []).append((op, ko, kt))
            self.adj.setdefault(kt, [])
        self.init = json.dumps(edges[0][0], sort_keys=True)

    def tours(self, rng, maxlen=200, limit=None):
        """Greedy transition tours from the initial state (each a list of ops)."""
        todo = {k: set((ko, kt) for _, ko, kt in v) for k, v in self.adj.items()}
        left = sum(len(v) for v in todo.values())
        taken = 0
        while left and (limit is None or taken < limit):
            node, tour = self.init, []
            while len(tour) < maxlen and left:
                cand = [x for x in self.adj[node] if (x[1], x[2]) in todo[node]]
                if cand:
                    op, ko, kt = rng.choice(cand)
                    todo[node].discard((ko, kt))
                    left -= 1
                    taken += 1
                    tour.append(op)
                    node = kt
                else:
                    path = self._path(node, todo, maxlen - len(tour))
                    if path is None:
                        break
                    for op, kt in path:
                        tour.append(op)
                        node = kt
            if not tour:
                break
            if all((ko, kt) not in todo[self.init] for _, ko, kt in self.adj[self.init]) \
                    and len(tour) == 0:
                break
            yield tour

    def _path(self, src, todo, maxd):
        prev = {src: None}
        q = [src]
        while q:
            nq = []
            for n in q:
                for op, ko, kt in self.adj[n]:
                    if kt not in prev:
                        prev[kt] = (n, op)
                        if todo[kt]:
                            path = []
                            while prev[kt] is not None:
                                p, o = prev[kt]
                                path.append((o, kt))
                                kt = p
                            path.reverse()
                            return path
                        nq.append(kt)
            q = nq
        return None


def scrub(x):
    """Make a value digestible for TLC's JSON reader (no null, no floats)."""
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if x is None:
        return "none"
    if isinstance(x, int):
        if not -2**31 < x < 2**31:
            return "int %d" % x        # no specification allows it
        return x
    if isinstance(x, dict):
        return {str(k): scrub(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [scrub(v) for v in x]
    return "weird %s" % (repr(x)[:80],)


def _undecidable(out):
    """TLC could not evaluate the specification on an event: (events before it, why)."""
    k = out.find("Attempted to")
    if k < 0 and "The error occurred when TLC was evaluating" in out and \
            "The first argument of Assert evaluated to FALSE" not in out:
        k = out.find("Error: ")
    if k < 0 or "The behavior up to this point is" not in out:
        return None
    at = [int(x) for x in re.findall(r"/\\ l = (\d+)", out)]
    return (at[-1] if at else 0, "Undecidable: " + out[k:k + 300].replace("\n", " "))


def falsify(trace, rng):
    """A copy of a trace with one leaf of one event changed: (trace, event index)."""
    def leaves(x, path):
        if isinstance(x, dict):
            for k in x:
                if k not in ("op", "x", "raw"):
                    yield from leaves(x[k], path + (k,))
        elif isinstance(x, list):
            if x:
                yield path
            for k, v in enumerate(x):
                yield from leaves(v, path + (k,))
        else:
            yield path

    def at(x, path):
        for k in path:
            x = x[k]
        return x
    t = json.loads(json.dumps(scrub(trace)))
    for _ in range(20):
        j = rng.randrange(1, len(t)) if len(t) > 1 else 0
        ls = list(leaves(t[j], ()))
        if t[j].get("op") == "reset" or not ls:
            continue
        path = rng.choice(ls)
        if not path:
            continue
        old = at(t[j], path)
        if isinstance(old, bool):
            new = not old
        elif isinstance(old, int):
            new = old + rng.choice([1, -1, 1000])
        elif isinstance(old, str):
            pool = sorted({at(e, path) for e in t if e.get("op") == t[j].get("op") and fits(e, path)
                           and isinstance(at(e, path), str)} - {old})
            new = rng.choice(pool or [{"ok": "err", "true": "false", "res": "err"}.get(old, old + "?")])
        else:
            new = old[:-1]
        at(t[j], path[:-1])[path[-1]] = new
        return t[: j + 12], j
    return None


def fits(x, path):
    for k in path:
        if isinstance(x, dict) and k in x or isinstance(x, list) and isinstance(k, int) and k < len(x):
            x = x[k]
        else:
            return False
    return True


def validate(module, traces, env=None, timeout=800, chunk=4000, procs=6):
    """Check recorded traces against a trace specification.

    traces: list of event lists, the first event of each being the reset.
    Returns (bad, states): bad is a list of (trace index, event index, text).
    """
    from concurrent.futures import ThreadPoolExecutor
    groups, cur, n = [], [], 0
    for i, t in enumerate(traces):
        if not t or t[0].get("op") != "reset":
            raise Machinery("a trace must start with reset")
        cur.append(i)
        n += len(t)
        if n >= chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)

    def run(group):
        path = os.path.join(fresh_dir("tr"), "t.ndjson")
        where = []
        with open(path, "w") as f:
            for i in group:
                for j, e in enumerate(traces[i]):
                    f.write(json.dumps(scrub(e)) + "\n")
                    where.append((i, j))
        ev = dict(env or {})
        ev["TRACE"] = path
        rc, out = _java(["-config", os.path.join(SPEC, "Trace.cfg"), module + ".tla"],
                        ev, timeout, 1, heap="3g")
        m = rc != 0 and _undecidable(out)
        if m:                           # e.g. a string where the specification needs a number
            i, j = where[min(m[0], len(where) - 1)]
            return [(i, j, m[1])], m[0]
        if rc != 0 or "No error has been found" not in out:
            raise Machinery("trace validation with %s failed (rc %d):\n%s"
                            % (module, rc, out[-4000:]))
        g, d = _counts(out)
        if d < len(where) + 1:
            raise Machinery("trace of %d events validated only %d states" % (len(where), d))
        bad = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@@BAD '):
                line = line[1:-1].replace('\\"', '"')     # PrintT quotes the whole line
                m = re.match(r"@@BAD (\d+) ?(.*)", line)
                i, j = where[int(m.group(1)) - 1]
                bad.append((i, j, m.group(2)))
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
        return bad, d

    bad, states = [], 0
    with ThreadPoolExecutor(procs) as ex:
        for b, d in ex.map(run, groups):
            bad += b
            states += d
    return sorted(set(bad)), states


# ------------------------------------------------------------- verdicts
def known_findings():
    r = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                r.append(m.groups())
    return r


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random(seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.states = self.transitions = self.traces = self.events = 0
        self.mc_runs = []
        self.samples = []
        self.planned = []
        self.extra = {}
        self.assumptions = []
        self.violations = []   # (key, text, replay)
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg, **kw):
        g, d, out = model_check(module, cfg, **kw)
        self.note_model(module, g, d)
        return out

    def note_model(self, module, g, d):
        self.states += d
        self.transitions += g
        self.mc_runs.append({"module": module, "states": d, "generated": g})

    def refuted(self, module, cfg, **kw):
        """The model without the mechanism must violate an invariant: the
        invariants are not vacuous."""
        try:
            model_check(module, cfg, **kw)
        except Machinery as x:
            if "is violated" in str(x):
                self.extra.setdefault("refuted_variants", []).append(module)
                return
            raise
        raise Machinery("the variant of %s that must fail checks" % module)

    def edges(self, module, cfg, **kw):
        g, d, e = edges_of(module, cfg, **kw)
        self.note_model(module, g, d)
        return Graph(e)

    def validate(self, module, traces, label, accept=None, **kw):
        """Validate traces; every rejected one is a violation of this property.

        accept: optional filter(trace, event index, text) -> True if a rejection there
        concerns this property.
        """
        traces = [t for t in traces if t]
        if not traces:
            return
        bad, states = validate(module, traces, **kw)
        self.plan_controls(module, traces, accept, kw)
        self.traces += len(traces)
        self.events += sum(len(t) for t in traces)
        self.extra.setdefault("families", {})[label] = {
            "traces": len(traces), "events": sum(len(t) for t in traces)}
        if len(self.samples) < 6:
            t = max(traces[: 50], key=len)
            self.samples.append({"family": label, "trace_prefix": scrub(t[:8])})
        for i, j, text in bad:
            if accept and not accept(traces[i], j, text):
                continue
            self.violation("%s:%s" % (label, traces[i][j].get("op")),
                           "%s: the specification %s rejects event %d %s (allowed from: %s)"
                           % (label, module, j, json.dumps(scrub(traces[i][j])), text[:600]),
                           {"module": module, "label": label, "trace": scrub(traces[i][: j + 1]),
                            "rejected_event": j, "spec_states": text})

    def plan_controls(self, module, traces, accept, kw, n=6):
        """Put some recorded traces with one falsified observation aside, see controls."""
        rng = random.Random("%s %d %d" % (module, self.seed, len(self.planned)))
        for t in rng.sample(traces, min(n, len(traces))):
            c = falsify(t, rng)
            if c:
                self.planned.append((module, c[0], c[1], accept, kw))

    def controls(self):
        """Does the machinery reject recorded traces that were falsified?  Not every falsification is
        wrong (an argument instead of a result, say), but a check that rejects none decides nothing."""
        made = rejected = ours = 0
        for module in sorted({p[0] for p in self.planned}):
            ps = [p for p in self.planned if p[0] == module]
            bad, _ = validate(module, [p[1] for p in ps], **dict(ps[0][4], chunk=400))
            made += len(ps)
            rejected += len({i for i, j, x in bad})
            ours += len({i for i, j, x in bad if not ps[i][3] or ps[i][3](ps[i][1], j, x)})
        self.extra["falsified_traces"] = {
            "made": made, "rejected": rejected, "attributed_to_this_property": ours}
        if made >= 10 and not ours:
            raise Machinery("no falsified trace is reported: the check decides nothing")

    def violation(self, key, text, replay):
        self.violations.append((key, text, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(OUT, exist_ok=True)
        if not self.violations:
            self.controls()
        known = [k for k in known_findings() if k[0] == self.pid]
        real, seen = [], set()
        for key, text, replay in self.violations:
            hit = [k for k in known if k[1] == key]
            if hit:
                if key not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0][2]))
                seen.add(key)
            else:
                real.append((key, text, replay))
        for i, (key, text, replay) in enumerate(real[:5]):
            path = os.path.join(OUT, "%s-%d.json" % (self.pid, i))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "what": text, **replay}, f, indent=1, default=str)
            print("# " + text[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events_validated": self.events,
               "model_runs": self.mc_runs, "samples": self.samples}
        cov.update(self.extra)
        if self.level == "fault_enumeration":
            cov.setdefault("evaluations", self.traces)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s seed=%d: %d model states, %d traces / %d events validated, %d violation(s), %.1fs"
              % (self.pid, self.tier, self.seed, self.states, self.traces, self.events,
                 len(real), time.time() - self.t0))
        return 1 if real else 0


# ------------------------------------------------------------- parallelism
_job = None
_limit = 100


def _run_job(i):
    f, items = _job
    with deadline(_limit):
        return f(items[i])


def pmap(f, items, procs=8):
    """f over items in forked workers (f may be a closure); keeps the order."""
    global _job
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1 or procs <= 1:
        return [f(x) for x in items]
    scratch()
    _job = (f, items)
    try:
        with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
            return pool.map(_run_job, range(len(items)), chunksize=1)
    finally:
        _job = None
