"""Shared machinery of the checks: scratch space, TLC, worker processes,
violations, known findings and evidence.

A check is a python program run with /opt/venv/bin/python.  It
  * explores a TLA+ module with TLC (tlc()),
  * replays what TLC printed into the real code, or records what the real code
    did and has TLC judge it,
  * ends with Check.finish(), which writes /verif/evidence/<id>.json and exits
    0 (held) or 1 (VIOLATION line printed).  Every other ending is an error of
    the check itself.
"""
import atexit
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

for _k, _v in {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
NOBODY = 65534
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAXREPORT = 25


class MachineryError(Exception):
    """The check could not do its work (exit status 3: no verdict)."""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vp_{}_".format(pid))
        os.chmod(self.scratch, 0o777)
        self._owner = os.getpid()
        atexit.register(self._cleanup)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.tlc_runs = []
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.nsuppressed = 0
        self._known = load_known(pid)
        self._seen = set()
        # the code under test must come from /repo's working tree
        os.environ.setdefault("TMPDIR", self.scratch)
        tempfile.tempdir = self.scratch
        os.environ["TMPDIR"] = self.scratch
        os.environ["MPLCONFIGDIR"] = os.path.join(self.scratch, "mpl")
        os.environ["XDG_CACHE_HOME"] = os.path.join(self.scratch, "cache")
        os.environ["HOME"] = self.scratch

    def _cleanup(self):
        if os.getpid() == self._owner:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- verdicts
    def violation(self, key, what, data=None):
        """key: stable identification of the input/history that fails."""
        if key in self._known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        if key in self._seen:
            self.nsuppressed += 1
            return
        self._seen.add(key)
        self.violations.append({"key": key, "what": what, "data": data})

    def sample(self, obj, limit=5):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def assume(self, text):
        self.assumptions.append(text)

    def finish(self):
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        rdir = os.path.join(evdir, "replay")
        if os.path.isdir(rdir):
            for fn in os.listdir(rdir):
                if fn.startswith(self.pid + "-"):
                    os.remove(os.path.join(rdir, fn))
        lines = []
        shown = self.violations[:MAXREPORT]
        if shown:
            os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(shown):
            path = os.path.join(rdir, "{}-{}.json".format(self.pid, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            lines.append(
                "VIOLATION property={} replay={}  {}: {}".format(
                    self.pid, path, v["key"], v["what"]
                )[:1500].replace("\n", " ")
            )
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.evaluations,
                "samples": self.samples,
                "tlc_runs": self.tlc_runs,
                "notes": self.notes,
                "known_findings": self.known_hit,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions,
            "violations": [
                {"key": v["key"], "what": str(v["what"])[:600]} for v in shown
            ],
        }
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print("KNOWN-FINDING: property={} {} {}".format(self.pid, k, self._known[k]))
        for ln in lines:
            print(ln)
        n = len(self.violations)
        print(
            "{} {}: {} violation(s), states={} transitions={} traces={} evaluations={} wall={:.1f}s".format(
                self.pid,
                self.tier,
                n,
                self.states,
                self.transitions,
                self.traces,
                self.evaluations,
                time.time() - self.t0,
            )
        )
        sys.stdout.flush()
        self._cleanup()
        os._exit(1 if n else 0)

    # --------------------------------------------------------------------- tlc
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, heap="4g", stats=True,
            extra=(), name=None):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; returns the list of
        JSON values TLC printed (PrintT(ToJson(..)))."""
        res = run_tlc(
            self.scratch, module, cfg or module, env=env, workers=workers,
            timeout=timeout, heap=heap, extra=extra,
        )
        if stats:
            self.states += res.distinct
            self.transitions += res.generated
            self.tlc_runs.append(
                {
                    "module": module,
                    "config": cfg or module,
                    "generated": res.generated,
                    "distinct": res.distinct,
                    "depth": res.depth,
                    "wall_s": round(res.wall, 2),
                }
            )
        return res

    def judge(self, module, records, cfg=None, env=None, chunk=4000, timeout=800,
              nproc=8, heap="3g"):
        """Have TLC judge records of what the real code did.  The module reads
        the ndjson file named by env VP_TRACE, and prints one JSON object with
        key "bad" per rejected record and finally one with key "judged".
        Returns the rejected ones (with absolute record index 'i')."""
        from concurrent.futures import ThreadPoolExecutor

        n = len(records)
        if n == 0:
            return []
        chunk = max(1, min(chunk, (n + nproc - 1) // nproc))
        parts = [(o, records[o : o + chunk]) for o in range(0, n, chunk)]

        def one(part):
            try:
                return judge(part)
            except MachineryError as e:
                return part, e

        def judge(part):
            off, recs = part
            path = os.path.join(self.scratch, "judge_{}_{}.ndjson".format(module, off))
            with open(path, "w") as f:
                for r in recs:
                    f.write(json.dumps(r) + "\n")
            e = dict(env or {})
            e["VP_TRACE"] = path
            res = run_tlc(self.scratch, module, cfg or module, env=e, workers=1,
                          timeout=timeout, heap=heap)
            os.remove(path)
            judged = [v["judged"] for v in res.values if isinstance(v, dict) and "judged" in v]
            if judged != [len(recs)]:
                raise MachineryError(
                    "{}: TLC judged {} of {} records\n{}".format(module, judged, len(recs), res.tail())
                )
            bad = []
            for v in res.values:
                if isinstance(v, dict) and "bad" in v:
                    v = dict(v)
                    v["i"] = off + v["i"] - 1
                    bad.append(v)
            return res, bad

        bad = []
        gen = dis = 0
        t0 = time.time()
        with ThreadPoolExecutor(nproc) as ex:
            while parts:
                failed = []
                for part, (res, b) in zip(parts, ex.map(one, parts)):
                    if isinstance(b, MachineryError):
                        failed.append((part, b))
                        continue
                    gen += res.generated
                    dis += res.distinct
                    bad += b
                # records TLC cannot evaluate (say numbers beyond its integers, which
                # only wrong code gives) do not keep it from judging the others
                parts = []
                if bad:
                    break
                for (off, recs), e in failed:
                    if len(recs) == 1:
                        bad.append({"bad": "unjudgeable", "i": off, "step": 1, "j": 0, "model": "", "want": str(e)[:300]})
                    else:
                        k = (len(recs) + nproc - 1) // nproc
                        parts += [(off + o, recs[o : o + k]) for o in range(0, len(recs), k)]
                if bad:
                    break
                if len(parts) > 8 * nproc:
                    raise failed[0][1]
        self.states += dis
        self.transitions += gen
        self.traces += n
        self.tlc_runs.append(
            {"module": module, "config": cfg or module, "records": n, "distinct": dis,
             "generated": gen, "rejected": len(bad), "wall_s": round(time.time() - t0, 2)}
        )
        return sorted(bad, key=lambda v: v["i"])


# -------------------------------------------------------------------- known
def load_known(pid):
    """known/findings.txt: lines
    finding: property=<id> <key> | <what fails>
    fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    out = {}
    path = os.path.join(VERIF, "known", "findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"^finding: property=(\S+) (.*?) \| (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


# ---------------------------------------------------------------------- tlc
class TLCResult:
    def __init__(self):
        self.values = []
        self.generated = self.distinct = self.depth = 0
        self.out = []
        self.rc = None
        self.wall = 0.0

    def tail(self, n=40):
        return "\n".join(self.out[-n:])


def run_tlc(scratch, module, cfg, env=None, workers=1, timeout=600, heap="4g", extra=()):
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    try:
        for fn in os.listdir(SPEC):
            if fn.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, fn), d)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = [
            "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
            "-Djava.io.tmpdir=" + d,
            "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir",
            os.path.join(d, "meta"), "-config", cfg + ".cfg", "-noGenerateSpecTE",
        ] + list(extra) + [module + ".tla"]
        t0 = time.time()
        res = TLCResult()
        outp = os.path.join(d, "out.txt")
        with open(outp, "wb") as fo:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                res.rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise MachineryError("TLC timed out on {} after {}s".format(module, timeout))
        res.wall = time.time() - t0
        ok = False
        with open(outp, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        res.values.append(json.loads(json.loads(line)))
                        continue
                    except ValueError:
                        pass
                res.out.append(line)
                m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    res.generated, res.distinct = int(m.group(1)), int(m.group(2))
                m = re.match(r"^The depth of the complete state graph search is (\d+)", line)
                if m:
                    res.depth = int(m.group(1))
                if "Model checking completed. No error has been found" in line:
                    ok = True
                if line.startswith("Finished in") and "-simulate" in extra:
                    ok = True
        if not ok:
            raise MachineryError("TLC failed on {} ({}):\n{}".format(module, cfg, res.tail(60)))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ workers
class Hang:
    def __repr__(self):
        return "<no answer>"


class Died:
    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return "<process died: {}>".format(self.code)


class Crash:
    """exception that escaped the driver function itself (harness error)"""

    def __init__(self, tb):
        self.tb = tb


def drop_privileges():
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass
    os.umask(0)


def _worker(conn, func, workdir, drop):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.makedirs(workdir, exist_ok=True)
    os.chmod(workdir, 0o777)
    os.chdir(workdir)
    os.environ["TMPDIR"] = workdir
    os.environ["HOME"] = workdir
    tempfile.tempdir = workdir
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("VP_DEBUG"):
        os.dup2(devnull, 2)
    if drop:
        drop_privileges()
    while True:
        try:
            item = conn.recv()
        except EOFError:
            os._exit(0)
        if item is None:
            os._exit(0)
        try:
            out = func(item)
        except BaseException:
            out = Crash(traceback.format_exc())
        conn.send(out)


def pmap(check, func, items, nproc=8, timeout=60, drop=True):
    """Run func(item) in forked, unprivileged worker processes.  Returns the
    results in order; an item that does not answer gives Hang(), one whose
    process ended gives Died().  A driver crash is a MachineryError."""
    items = list(items)
    results = [None] * len(items)
    if not items:
        return results
    nproc = min(nproc, len(items))
    pending = list(range(len(items)))[::-1]
    seq = [0]
    sys.stdout.flush()

    def spawn():
        seq[0] += 1
        a, b = multiprocessing.Pipe()
        wd = os.path.join(check.scratch, "w{}_{}".format(os.getpid(), seq[0]))
        while os.path.exists(wd):
            seq[0] += 1
            wd = os.path.join(check.scratch, "w{}_{}".format(os.getpid(), seq[0]))
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for o in list(procs):
                    o.close()
                _worker(b, func, wd, drop)
            finally:
                os._exit(99)
        b.close()
        procs[a] = [pid, None, 0, wd]
        return a

    def kill(conn):
        pid, _, _, wd = procs.pop(conn)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(pid, 0)
        conn.close()
        shutil.rmtree(wd, ignore_errors=True)
        return st

    procs = {}

    def feed(conn):
        if pending:
            i = pending.pop()
            procs[conn][1] = i
            procs[conn][2] = time.time()
            conn.send(items[i])
        else:
            procs[conn][1] = None
            kill(conn)

    hangs = 0
    for _ in range(nproc):
        feed(spawn())
    try:
        while procs:
            ready = multiprocessing.connection.wait(list(procs), timeout=1.0)
            for conn in ready:
                i = procs[conn][1]
                try:
                    results[i] = conn.recv()
                except (EOFError, OSError):
                    results[i] = Died(kill(conn))
                    if pending:
                        feed(spawn())
                    continue
                if isinstance(results[i], Crash):
                    raise MachineryError("driver crashed on item {!r}:\n{}".format(
                        str(items[i])[:2000], results[i].tb))
                feed(conn)
            now = time.time()
            for conn in list(procs):
                i = procs[conn][1]
                if i is not None and now - procs[conn][2] > timeout:
                    if conn.poll():
                        continue
                    kill(conn)
                    results[i] = Hang()
                    hangs += 1
                    if hangs >= nproc:
                        # it does not answer: no point in waiting for all
                        while pending:
                            results[pending.pop()] = Hang()
                    if pending:
                        feed(spawn())
    finally:
        for conn in list(procs):
            kill(conn)
    return results


def batches(seq, n):
    seq = list(seq)
    return [seq[i : i + n] for i in range(0, len(seq), n)]


def main(fn):
    """Run a check's main function with the exit-status discipline."""
    try:
        fn()
    except MachineryError as e:
        print("CHECK ERROR (no verdict): {}".format(e))
        sys.stdout.flush()
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        sys.exit(3)


# ------------------------------------------------------------------- graphs
def canon(x):
    return json.dumps(x, sort_keys=True)


def edge_paths(edges, fkey="f", tkey="t", opkey="o"):
    """For every edge: (initial state, list of operations reaching its source
    state).  Edges come from a TLC exploration; the states that no path from
    an already known state reaches are initial."""
    from collections import deque

    out = {}
    incoming = set()
    for e in edges:
        e["_f"], e["_t"] = canon(e[fkey]), canon(e[tkey])
        out.setdefault(e["_f"], []).append(e)
        if e["_f"] != e["_t"]:
            incoming.add(e["_t"])
    return out, incoming


def replay_plan(edges, inits, fkey="f", tkey="t", opkey="o"):
    """list of (init index, prefix operations, edge) covering every edge that
    is reachable from the initial states"""
    from collections import deque

    out, _ = edge_paths(edges, fkey, tkey, opkey)
    path = {}
    todo = deque()
    for i, s in enumerate(inits):
        k = canon(s)
        path[k] = (i, ())
        todo.append(k)
    plan = []
    while todo:
        k = todo.popleft()
        i, pre = path[k]
        for e in out.get(k, ()):
            plan.append((i, list(pre), e))
            if e["_t"] not in path:
                path[e["_t"]] = (i, pre + (e[opkey],))
                todo.append(e["_t"])
    for e in edges:
        e.pop("_f", None)
        e.pop("_t", None)
    return plan


def tours(edges, inits, maxlen=60, fkey="f", tkey="t", opkey="o"):
    """Histories (init index, [edge, edge, ..]) that together run every edge
    reachable from the initial states at least once."""
    from collections import deque

    out, _ = edge_paths(edges, fkey, tkey, opkey)
    keys = [canon(s) for s in inits]
    # breadth first tree: shortest way from an initial state
    seen = {}
    todo = deque()
    for i, k in enumerate(keys):
        if k not in seen:
            seen[k] = (i, None)
            todo.append(k)
    order = []
    while todo:
        k = todo.popleft()
        order.append(k)
        for e in out.get(k, ()):
            if e["_t"] not in seen:
                seen[e["_t"]] = (None, e)
                todo.append(e["_t"])

    def way(k):
        path = []
        while seen[k][1] is not None:
            e = seen[k][1]
            path.append(e)
            k = e["_f"]
        return seen[k][0], path[::-1]

    left = {k: [e for e in out.get(k, ())] for k in order}
    done = set()

    def take(k):
        lst = left[k]
        while lst:
            e = lst[-1]
            if id(e) in done:
                lst.pop()
            else:
                return e
        return None

    result = []
    for k0 in order:
        while take(k0) is not None:
            init, path = way(k0)
            for e in path:
                done.add(id(e))
            k = k0
            while len(path) < maxlen:
                e = take(k)
                if e is None:
                    # nearest state with something left
                    prev = {k: None}
                    q = deque([k])
                    goal = None
                    while q and goal is None:
                        a = q.popleft()
                        for e2 in out.get(a, ()):
                            b = e2["_t"]
                            if b not in prev:
                                prev[b] = e2
                                if take(b) is not None:
                                    goal = b
                                    break
                                q.append(b)
                    if goal is None:
                        break
                    hop = []
                    a = goal
                    while prev[a] is not None:
                        hop.append(prev[a])
                        a = prev[a]["_f"]
                    hop.reverse()
                    if len(path) + len(hop) >= maxlen and path:
                        break
                    path += hop
                    for h in hop:
                        done.add(id(h))
                    k = goal
                else:
                    path.append(e)
                    done.add(id(e))
                    k = e["_t"]
            result.append((init, path))
    for e in edges:
        e.pop("_f", None)
        e.pop("_t", None)
    return result


class Names(object):
    """Real names for the names of a model: what holds must not depend on
    how things are called (one name a prefix of another, dots, spaces,
    brackets, digits)"""

    TABLES = [
        {},
        {"a": "a", "b": "ab", "c": "abc"},
        {"a": "x.y", "b": "x", "c": "x.y.1"},
        {"a": "n 1(1)", "b": "n 1", "c": "[n]*"},
    ]

    def __init__(self, i):
        self.i = i
        self.to = self.TABLES[i % len(self.TABLES)]
        self.back = {v: k for k, v in self.to.items()}

    def real(self, names):
        return [self.to.get(x, x) for x in names]

    def model(self, names):
        return [self.back.get(x, x) for x in names]

    def tree(self, tree, direction):
        f = getattr(self, direction)
        return [[f(p), dict(n, t=f(n["t"])) if "t" in n else n] for p, n in tree]
