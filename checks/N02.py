"""N02: identity of the processes in a file."""
import collections
import os
import random
import re

import h5py
import numpy as np

import vlib
from spectrocrunch.io import fs, nxfs
from spectrocrunch.utils import units


# parameter values: one number per value; variants of one number are equal
PARS = {
    1: lambda k: {"a": 1, "b": [1, 2]} if k % 2 else {"b": [1, 2], "a": 1},
    2: lambda k: {"a": 2, "b": [1, 2]} if k % 2 else collections.OrderedDict(a=2, b=[1, 2]) and {"a": 2, "b": [1, 2]},
    3: lambda k: {"a": 1, "b": [2, 1]},
    4: lambda k: {"a": "1", "b": {"c": [1, 2], "d": None}} if k % 2 else {"b": {"d": None, "c": [1, 2]}, "a": "1"},
    5: lambda k: {"a": np.arange(3), "q": units.Quantity(1.5, "mm")},
    6: lambda k: {"a": np.arange(3) + 1, "q": units.Quantity(1.5, "mm")},
    7: lambda k: {"a": np.arange(3), "q": units.Quantity(1.5, "cm")},
    8: lambda k: {"a": {1: "x", 2: "y"}},
    9: lambda k: {"a": {1: "y", 2: "x"}},
    10: lambda k: {},
    11: lambda k: {"a": 1.0 + 2.0**-40, "b": [1, 2]},
    12: lambda k: {"a": list(range(70))},
    13: lambda k: {"a": list(range(69)) + [0]},
    14: lambda k: {"a": []},
    15: lambda k: {"a": None},
    16: lambda k: {"a": {"b": {"c": {"d": {"e": [[1], [2, [3]]]}}}}},
    17: lambda k: {"a": {"b": {"c": {"d": {"e": [[1], [2], [3]]}}}}},
}


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if hasattr(a, "magnitude") or hasattr(b, "magnitude"):
        return hasattr(a, "magnitude") and hasattr(b, "magnitude") and a.units == b.units and same(a.magnitude, b.magnitude)
    return type(a) == type(b) and a == b


def par_of(config):
    for k, f in PARS.items():
        if same(f(0), config):
            return k
    return -1


FAM = [
    ("entry", re.compile(r"^entry(\d{4})$"), "entry%04d"),
    ("scan", re.compile(r"^scan(\d+)$"), "scan%d"),
    ("p", re.compile(r"^p(?:\.(\d+))?$"), "p.%d"),
    ("q", re.compile(r"^q(\d+)$"), "q%d"),
    ("s", re.compile(r"^s1_(\d\d+)$"), "s1_%02d"),
    ("w", re.compile(r"^w 2\(x\)(?:\.(\d+))?$"), "w 2(x).%d"),
]
FAM[-1] = ("w", re.compile(r"^w (\d+)\(x\)$"), "w %d(x)")
FAM.append(("x", re.compile(r"^p_x(\d+)$"), "p_x%d"))
FAM.append(("y", re.compile(r"^a q(\d+)$"), "a q%d"))


def spell(n):
    if n[0] == "p" and n[1] == 0:
        return "p"
    return {f: fmt for f, _, fmt in FAM}[n[0]] % n[1]


def unspell(name):
    for f, rx, fmt in FAM:
        m = rx.match(name)
        if m:
            return [f, int(m.group(1) or 0)]
    return [name, -1]


class Driver:
    def __init__(self, fn):
        self.fn = fn
        if os.path.exists(fn):
            os.remove(fn)
        self.sums = {}
        self.pars = {}
        self.k = 0

    def root(self):
        return nxfs.Path("/", h5file=self.fn)

    def path(self, e, n=None):
        p = self.root()[spell(e)]
        return p if n is None else p[spell(n)]

    def at(self, p):
        if str(p.device) != self.fn:
            return ["elsewhere", str(p)]
        names = [x for x in p.path.split("/") if x]
        return ["at"] + [unspell(x) for x in names] if p.exists else ["missing"]

    def start(self, o):
        """where to start from: any place inside the entry must do"""
        if not o["e"]:
            return self.root()
        e = self.path(o["e"])
        x = self.k % 3
        if x == 1:
            for p in e.iter_nxprocess():
                return p
        if x == 2:
            for p in e.iter_nxprocess():
                return p.results
        return e

    def apply(self, o):
        self.k += 1
        op = o["op"]
        try:
            if op == "newentry":
                like = self.path(o["like"]) if o["like"] else None
                p = self.root().new_nxentry(entry=like)
                return ["entry", unspell(p.name)]
            if op == "entry":
                return ["entry", unspell(self.root().nxentry(spell(o["e"])).name)]
            if op == "group":
                return self.at(self.path(o["e"], o["n"]).mkdir())
            if op == "remove":
                self.path(o["e"], o["n"]).remove(recursive=True)
                return ["ok"]
            if op == "rename":
                self.path(o["e"], o["n"]).rename(self.path(o["e"], o["m"]))
                return ["ok"]
            par = PARS[o["par"]](self.k)
            deps = [self.path(*d) for d in o["deps"]]
            if op == "find":
                r = self.start(o).find_nxprocess(
                    name=spell(o["n"]) if o["n"] else None, parameters=par,
                    dependencies=deps if deps or self.k % 2 else None, searchallentries=o["all"])
                return ["none"] if r is None else self.at(r)
            r = self.start(o).nxprocess(
                spell(o["n"]), parameters=par, dependencies=deps if deps or self.k % 2 else None,
                searchallentries=o["all"], noincrement=o["noinc"])
            return self.at(r)
        except fs.AlreadyExists:
            return ["exists"]

    def observe(self):
        out = {"ents": [], "procs": [], "iter": [], "last": []}
        if not os.path.exists(self.fn):
            return out
        texts = {}
        with h5py.File(self.fn, "r") as f:
            for e in f:
                g = f[e]
                if not isinstance(g, h5py.Group) or g.attrs.get("NX_class", "") != "NXentry":
                    continue
                out["ents"].append(unspell(e))
                for n in g:
                    p = g[n]
                    if not isinstance(p, h5py.Group):
                        continue
                    cls = str(p.attrs.get("NX_class", ""))
                    r = {"p": [unspell(e), unspell(n)], "k": {"": "group", "NXprocess": "proc"}.get(cls, cls), "api": []}
                    if cls == "NXprocess":
                        text = p["configuration/data"][()]
                        if text not in self.pars:
                            texts[text] = e, n
                        r["text"] = text
                        dep = p["dependencies"] if "dependencies" in p else None
                        r["deps"] = []
                        for x in dep.attrs["order"] if dep is not None and "order" in dep.attrs else []:
                            lnk = dep.get(x, getlink=True)
                            r["deps"].append([unspell(y) for y in lnk.path.split("/") if y] if isinstance(lnk, h5py.SoftLink) else ["nolink"])
                        r["seq"] = int(p["sequence_index"][()])
                        r["sum"] = self.sums.setdefault(str(p["configuration"].attrs["checksum"]), len(self.sums))
                    out["procs"].append(r)
        root = self.root()
        for text, (e, n) in texts.items():
            self.pars[text] = par_of(root[e][n].config.read())
        procs = []
        for r in out["procs"]:
            if r["k"] == "proc":
                r["par"] = self.pars[r.pop("text")]
                procs.append(r)
        # what the code says about one of them
        for r in [procs[self.k * 7 % len(procs)]] if procs else []:
            p = self.path(*r["p"])
            deps = []
            for d in p.dependencies:
                t = d.linkdest()
                deps.append([unspell(x) for x in t.path.split("/") if x] if t is not None else ["nolink"])
            up = p.results.findfirstup_is_nxclass("NXprocess")
            s = p.checksum
            s = s.decode("ascii") if isinstance(s, bytes) else str(s)
            r["api"] = [[deps, int(p.sequence_index), bool(p.valid_checksum()), self.at(up)[1:],
                         self.sums.get(s, -1), par_of(p.config.read())]]
        out["iter"] = [self.at(p)[1:] for p in root.iter_nxprocess(searchallentries=True)]
        last = root.last_nxentry()
        out["last"] = unspell(last.name) if last is not None else []
        return out


def gen(rng, d):
    """a random call that makes sense in the file as it is"""
    with_file = os.path.exists(d.fn)
    ents, nodes, links = [], [], []
    if with_file:
        with h5py.File(d.fn, "r") as f:
            for e in f:
                if not isinstance(f[e], h5py.Group):
                    continue
                ents.append(unspell(e))
                nodes += [[unspell(e), unspell(n)] for n in f[e] if isinstance(f[e][n], h5py.Group)]
    x = rng.random()
    if not ents or (x < 0.06 and len(ents) < 3):
        return {"op": "newentry", "like": rng.choice([[]] + ents)}
    if x < 0.1 and len(ents) < 3:
        return {"op": "entry", "e": rng.choice([["entry", 1], ["entry", 3], ["scan", 9], ["scan", 10]])}
    fam = [["p", 0], ["p", 0], ["p", 2], ["q", 1], ["q", 3], ["s", 1], ["s", 8], ["w", 2], ["x", 1], ["y", 1], ["q", 12]]
    if x < 0.15:
        e, n = rng.choice(ents), rng.choice(fam)
        if [e, n] not in nodes and len(nodes) < 9:
            return {"op": "group", "e": e, "n": n}
    if x < 0.25 and nodes or len(nodes) > 9:
        e, n = rng.choice(nodes)
        return {"op": "remove", "e": e, "n": n}
    if x < 0.3 and nodes:
        e, n = rng.choice(nodes)
        m = [rng.choice("pqswxy"), rng.choice([1, 2, 3, 4, 5, 6, 9, 10, 11])]
        if [e, m] not in nodes:
            return {"op": "rename", "e": e, "n": n, "m": m}
    deps = [rng.choice(nodes) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3]))] if nodes else []
    par = rng.choice([1, 1, 1, rng.choice(list(PARS)), 2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15, 16, 17])
    o = {"e": rng.choice(ents + ents + [[]]), "par": par, "deps": deps, "all": rng.random() < 0.5}
    # often: ask for what another process is made from
    if nodes and rng.random() < 0.4:
        e, n = rng.choice(nodes)
        p = d.path(e, n)
        if p.is_nxclass("NXprocess"):
            o["par"] = par_of(p.config.read())
            o["deps"] = [[unspell(y) for y in q.linkdest().path.split("/") if y] for q in p.dependencies]
            if rng.random() < 0.3 and len(o["deps"]) > 1:
                o["deps"].reverse()
            if rng.random() < 0.3 and o["deps"]:
                o["deps"].pop()
            # or for something that only looks like it
            if rng.random() < 0.3:
                o["par"] = {1: 11, 11: 1, 12: 13, 13: 12, 14: 15, 15: 14, 16: 17, 17: 16, 2: 1, 3: 1}.get(o["par"], o["par"])
    if rng.random() < 0.4:
        return dict(o, op="find", n=rng.choice(fam + [[]] * 4))
    if not o["e"] and len(ents) >= 3:
        o["e"] = ents[0]
    o["deps"] = [x for x in o["deps"] if x in nodes]
    return dict(o, op="proc", n=rng.choice(fam), noinc=rng.random() < 0.15)


def history(arg):
    seed, n = arg
    rng = random.Random(seed)
    d = Driver(os.path.join(os.getcwd(), "t.h5"))
    steps = []
    for _ in range(n):
        o = gen(rng, d)
        if o["par"] == -1 if "par" in o else False:
            break
        try:
            obs = {"res": d.apply(o)}
            obs.update(d.observe())
        except Exception as e:
            steps.append({"op": o, "obs": {}, "err": repr(e)[:300]})
            break
        steps.append({"op": o, "obs": obs})
    return steps


def main():
    c = vlib.Check("N02")
    c.tlc("NxProcMC", env={"VP_PROCS": 2, "VP_DEPS": 2 if c.thorough else 1}, workers=8, timeout=3000, heap="8g")
    n = 800 if c.thorough else 44
    items = [(c.seed * 9176 + i, 30) for i in range(n)]
    recs = []
    for it, r in zip(items, vlib.pmap(c, history, items, timeout=200)):
        if isinstance(r, list):
            recs.append({"steps": r})
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = sum(len(r["steps"]) for r in recs)
    count = collections.Counter((s["op"]["op"], (s["obs"].get("res") or ["error"])[0]) for r in recs for s in r["steps"])
    c.notes.append({"calls": {"{}:{}".format(*k): v for k, v in sorted(count.items())}})
    c.sample([s["op"] for s in recs[0]["steps"][:12]])
    for b in c.judge("NxProcTrace", recs, chunk=40):
        st = recs[b["i"]]["steps"]
        last = st[b["step"] - 1]
        c.violation("{}:{}".format(b["bad"], last["op"]["op"]), "after {}: {}: {} want {}".format(
            [s["op"] for s in st[max(0, b["step"] - 3): b["step"]]], b["bad"], last.get("err", last["obs"]), b["want"]),
            {"ops": [s["op"] for s in st[: b["step"]]], "seen": last, "want": b["want"]})
    c.finish()


vlib.main(main)
