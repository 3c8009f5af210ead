"""Driver of the task model (spec/Tasks.tla): processes that run real tasks
step by step, and a projection of what is on disk made without the code under
test."""
import json
import os
import random
import re
import shutil
import signal
import time

import h5py
import numpy as np

import vlib
from spectrocrunch.io import nxfs
from spectrocrunch.pipelines import run as prun
from spectrocrunch.process import nxprocess

CAT = [
    None,
    dict(at="1e1", name="a", p=1, deps=[]),
    dict(at="1e1", name="a", p=2, deps=[]),
    dict(at="1e1", name="b07", p=1, deps=[1]),
    dict(at="1e1", name="b07", p=1, deps=[2]),
    dict(at="1e1", name="b08", p=1, deps=[1, 2]),
    dict(at="1e2", name="a", p=1, deps=[1]),
    dict(at="2e1", name="c", p=1, deps=[3]),
    dict(at="1e1", name="a.1", p=1, deps=[1]),
]
FAMILIES = [("a", r"^a\.(\d+)$"), ("b", r"^b(\d\d)$"), ("c", r"^c\.(\d+)$")]
SIGNALS = {"term": signal.SIGTERM, "int": signal.SIGINT, "hup": signal.SIGHUP}


class Interrupted(BaseException):
    pass


def files(wd):
    return {1: os.path.join(wd, "w1", "f1.h5"), 2: os.path.join(wd, "w2", "sub", "f2.h5")}


def place(wd, at):
    return nxfs.Path("/" + at[1:], h5file=files(wd)[int(at[0])])


class Ctrl:
    """set per process: where the bodies get their operations from"""

    body = None


class Body(nxprocess.Task):
    def _parameters_defaults(self):
        super(Body, self)._parameters_defaults()
        self.required_parameters |= {"p"}

    def _execute(self):
        Ctrl.body(self)


def stamp(d):
    return 100 + d


def number(task):
    return task._vp_d


def make(wd, d, via="task", memo=None):
    c = CAT[d]
    deps = []
    for e in c["deps"]:
        t = make(wd, e, via)
        if via == "path" and t.done:
            t = t.output
        deps.append(t)
    if c["at"] != CAT[c["deps"][-1]]["at"] if deps else True:
        parent = place(wd, c["at"]).nxentry()
    else:
        parent = None if via != "explicit" else place(wd, c["at"])
    t = Body(
        dependencies=deps if len(deps) != 1 or via == "task" else deps[0],
        outputparent=parent,
        method="body",
        name=c["name"],
        p=c["p"],
    )
    t._vp_d = d
    return t


def write(task, ph):
    """ph: progress of the body after this step"""
    d = number(task)
    if ph == 1:
        nxdata = task.temp_nxresults.nxdata("d")
        nxdata.add_signal("s", data=np.array([stamp(d), d]))
    elif ph == 2:
        task.temp_localpath.mkdir()
        with open(os.path.join(task.temp_localpath.path, "out.txt"), "w") as f:
            f.write(str(stamp(d)))


# ------------------------------------------------------------------ process
class Actor:
    def __init__(self, conn, wd):
        self.conn = conn
        self.wd = wd
        self.tasks = {}
        self.active = []
        self.depth = 0
        self.delivered = 0
        self.plan = None
        Ctrl.body = self.body
        self.orig = {}
        for s in SIGNALS.values():
            signal.signal(s, self.handler)
            self.orig[s] = signal.getsignal(s)

    def handler(self, signum, frame):
        self.delivered += 1
        raise Interrupted()

    def reply(self, res, **kw):
        ok = "ok"
        if self.depth == 0 and any(signal.getsignal(s) != h for s, h in self.orig.items()):
            ok = "replaced"
            for s, h in self.orig.items():
                signal.signal(s, h)
        self.conn.send(dict(res=res, handlers=ok, delivered=self.delivered, **kw))
        self.delivered = 0

    def task(self, o):
        d = o["d"]
        # a task object is not run inside its own run
        if o.get("fresh") or d not in self.tasks or self.tasks[d] in self.active:
            self.tasks[d] = make(self.wd, d, o.get("via", "task"))
        return self.tasks[d]

    def run(self, task):
        self.depth += 1
        del self.active[self.depth - 1 :]
        self.active.append(task)
        try:
            task.run()
        except Interrupted:
            self.depth -= 1
            del self.active[self.depth :]
            if self.depth:
                raise
            self.reply("raised")
            return
        except BaseException as e:
            self.depth -= 1
            del self.active[self.depth :]
            self.reply("raised " + repr(e))
            return
        self.depth -= 1
        del self.active[self.depth :]
        self.reply("returned")

    def body(self, task):
        if self.plan is not None:
            k = self.plan["n"] = self.plan["n"] + 1
            for ph in (1, 2):
                if self.plan["k"] == self.plan["index"](task) and ph == 2:
                    raise RuntimeError("planned")
                write(task, ph)
            return
        self.reply("running")
        ph = 0
        while True:
            o = self.conn.recv()
            if o["op"] == "step":
                ph += 1
                write(task, ph)
                self.reply("running")
            elif o["op"] == "start":
                self.run(self.task(o))
            elif o["op"] == "end":
                if o["how"] == "ok":
                    return
                if o["how"] == "exc":
                    raise [RuntimeError, ValueError, SystemExit, KeyError, OSError][o.get("x", 0) % 5]("planned")
                os.kill(os.getpid(), SIGNALS[o["how"]])
                for _ in range(50):
                    time.sleep(0.01)
                raise RuntimeError("signal had no effect")
            else:
                raise vlib.MachineryError("op in body {}".format(o))

    def sequence(self, o):
        tasks = [make(self.wd, d, o.get("via", "task")) for d in o["ds"]]
        self.plan = {"n": 0, "k": o["k"], "index": lambda t: [i for i, x in enumerate(tasks, 1) if x is t][0]}
        try:
            res = prun.run_sequential(tasks)
            res = "true" if res is True else "false" if res is False else repr(res)
        except BaseException as e:
            res = "raised " + repr(e)
        self.plan = None
        self.reply(res)

    def loop(self):
        while True:
            o = self.conn.recv()
            if o is None:
                os._exit(0)
            if o["op"] == "start":
                try:
                    t = self.task(o)
                except Exception as e:
                    self.reply("raised in constructor " + repr(e))
                    continue
                self.run(t)
            elif o["op"] == "seq":
                self.sequence(o)
            else:
                os._exit(7)


def spawn(wd):
    from multiprocessing import Pipe

    a, b = Pipe()
    pid = os.fork()
    if pid == 0:
        try:
            a.close()
            Actor(b, wd).loop()
        except BaseException:
            pass
        finally:
            os._exit(8)
    b.close()
    return pid, a


# --------------------------------------------------------------- projection
def listing(path):
    return sorted(os.listdir(path)) if os.path.isdir(path) else []


def ident(f, grp, depth=0):
    cfg = json.loads(grp["configuration/data"][()].decode())
    deps = []
    if "dependencies" in grp:
        for name in grp["dependencies"].attrs.get("order", []):
            lnk = grp["dependencies"].get(name, getlink=True)
            if isinstance(lnk, h5py.ExternalLink):
                fn = lnk.filename
                if not os.path.isabs(fn):
                    fn = os.path.join(os.path.dirname(f.filename), fn)
                with h5py.File(fn, "r") as g:
                    deps.append(ident(g, g[lnk.path], depth + 1)[0])
            else:
                deps.append(ident(f, grp["dependencies"][name], depth + 1)[0])
    for d in range(1, len(CAT)):
        c = CAT[d]
        if (cfg.get("name"), cfg.get("p"), deps) == (c["name"], c["p"], c["deps"]):
            # the place is the one of the file/entry the group is in
            return d, cfg
    return 0, cfg


def project(wd):
    outs, temps, templocs, locbad, incomplete = [], 0, 0, 0, 0
    dflt = [[], []]
    why = []
    for nr, fn in files(wd).items():
        known = set()
        if os.path.exists(fn):
            with h5py.File(fn, "r") as f:
                for en in f:
                    if f[en].attrs.get("NX_class") != "NXentry":
                        continue
                    for pn in f[en]:
                        g = f[en].get(pn)
                        if g is None or not isinstance(g, h5py.Group) or g.attrs.get("NX_class") != "NXprocess":
                            continue
                        fam = [(k, int(re.match(p, pn).group(1))) for k, p in FAMILIES if re.match(p, pn)]
                        if not fam:
                            temps += 1
                            continue
                        at = "{}{}".format(nr, en)
                        d, cfg = ident(f, g)
                        outs.append([at, fam[0][0], fam[0][1], d])
                        known.add("{}_{}".format(en, pn))
                        loc = os.path.join(os.path.dirname(fn), "{}_{}".format(en, pn))
                        try:
                            nxdata = g["results/d"]
                            good = nxdata["s"][()].tolist() == [stamp(d), d]
                            good &= nxdata.attrs["NX_class"] == "NXdata" and nxdata.attrs["signal"] == "s"
                            good &= g["results"].attrs["NX_class"] == "NXcollection"
                            good &= bool(g["configuration"].attrs["checksum"])
                        except (KeyError, ValueError):
                            good = False
                        if not good:
                            incomplete += 1
                            why.append("incomplete " + pn)
                        try:
                            with open(os.path.join(loc, "out.txt")) as fh:
                                good = fh.read() == str(stamp(d)) and listing(loc) == ["out.txt"]
                        except OSError:
                            good = False
                        if not good:
                            locbad += 1
                            why.append("directory of " + pn)
                path, p = [], f
                while "default" in p.attrs:
                    path += [x for x in p.attrs["default"].split("/") if x]
                    p = p.get(p.attrs["default"])
                    if p is None:
                        path = ["broken"]
                        break
                if path:
                    fam = []
                    if len(path) > 1:
                        fam = [(k, int(re.match(q, path[1]).group(1))) for k, q in FAMILIES if re.match(q, path[1])]
                    dflt[nr - 1] = ["{}{}".format(nr, path[0])] + list(fam[0]) if fam else path
        for name in listing(os.path.dirname(fn)):
            if name == os.path.basename(fn) or name in known:
                continue
            if os.path.isdir(os.path.join(os.path.dirname(fn), name)):
                templocs += 1
            else:
                locbad += 1
                why.append("stray file " + name)
    return dict(outs=sorted(outs), temps=temps, templocs=templocs, locbad=locbad,
                incomplete=incomplete, dflt=dflt, why=why)


def query(wd, ds):
    out = []
    for d in ds:
        t = make(wd, d)
        p = t.output
        fam = [(k, int(re.match(q, p.name).group(1))) for k, q in FAMILIES if re.match(q, p.name)]
        nr = [k for k, v in files(wd).items() if os.path.realpath(str(p.device.path)) == os.path.realpath(v)]
        at = "{}{}".format(nr[0] if nr else "?", p.parent.name)
        out.append([d, bool(t.done), at, fam[0][0] if fam else p.name, fam[0][1] if fam else 0,
                    bool(t.dependencies_done)])
    return out


def history(arg):
    """arg: list of operations (callables of the state are resolved by the
    generator beforehand).  Returns the recorded steps."""
    ops, qall = arg
    wd = os.path.join(os.getcwd(), "h%d" % random.getrandbits(40))
    os.makedirs(wd)
    actors = {}
    steps = []
    try:
        for at in ("1e1", "1e2", "2e1"):
            os.makedirs(os.path.dirname(files(wd)[int(at[0])]), exist_ok=True)
            place(wd, at).nxentry()
        for n, o in enumerate(ops):
            p = o["p"]
            if p not in actors:
                actors[p] = spawn(wd)
            pid, conn = actors[p]
            if o["op"] == "kill":
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                conn.close()
                del actors[p]
                rep = dict(res="gone", handlers="ok", delivered=0)
            else:
                conn.send(o)
                if conn.poll(20):
                    try:
                        rep = conn.recv()
                    except EOFError:
                        rep = dict(res="process ended", handlers="ok", delivered=0)
                else:
                    rep = dict(res="no answer", handlers="ok", delivered=0)
            obs = project(wd)
            obs.update(rep)
            obs["query"] = []
            if rep["res"] in ("no answer", "process ended"):
                steps.append({"op": o, "obs": obs})
                break
            last = n == len(ops) - 1
            try:
                if last or o["op"] == "end" or qall:
                    obs["query"] = query(wd, range(1, len(CAT)) if last else sorted({o.get("d", 1 + n % 8), 1 + (3 * n) % 8}))
            except Exception as e:
                obs["query_error"] = repr(e)
                steps.append({"op": o, "obs": obs, "err": 1})
                break
            steps.append({"op": o, "obs": obs})
    finally:
        for pid, conn in actors.values():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            conn.close()
        shutil.rmtree(wd, ignore_errors=True)
    return steps
