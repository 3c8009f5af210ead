"""N03: the default plot of a file."""
import os
import random

import h5py

import vlib
from spectrocrunch.io import nxfs
from spectrocrunch.process import nxutils

CLS = {"a": "NXdata"}


class Driver:
    def __init__(self):
        self.fn = os.path.join(os.getcwd(), "d.h5")
        if os.path.exists(self.fn):
            os.remove(self.fn)
        nxfs.Path("/", h5file=self.fn).nxroot()

    def path(self, p):
        return nxfs.Path("/", h5file=self.fn)["/".join(p)] if p else nxfs.Path("/", h5file=self.fn)

    def apply(self, o, k):
        p = self.path(o["p"])
        op = o["op"]
        if op == "make":
            parent, name = self.path(o["p"][:-1]), o["p"][-1]
            cls = o["c"]
            if cls == "NXentry":
                parent.nxentry(name)
            elif cls == "NXsubentry":
                parent.nxsubentry(name)
            elif cls == "NXprocess":
                parent.nxprocess(name, parameters={"n": "/".join(o["p"])}, dependencies=None)
            elif cls == "NXcollection":
                if name == "results" and parent.is_nxclass("NXprocess"):
                    parent.results
                else:
                    parent.nxcollection(name)
            elif cls == "NXdata":
                parent.nxdata(name)
        elif op == "signal":
            p.add_signal(o["x"], shape=(2, 3), dtype=int)
        elif op == "choose":
            p.default_signal(o["x"])
        elif op == "mark":
            p.mark_default()
        elif op == "pick":
            nxutils.set_default(p, o["x"] or None)
        elif op == "remove":
            p.remove(recursive=True)

    def observe(self, known):
        out = {"cls": [], "dflt": [], "sig": []}

        def visit(g, p):
            at = g.attrs
            out["cls"].append([p, str(at.get("NX_class", ""))])
            if "default" in at:
                out["dflt"].append([p, [x for x in str(at["default"]).split("/") if x not in ("", ".")]])
            if at.get("NX_class", "") == "NXdata":
                aux = at.get("auxiliary_signals", None)
                s = [str(at["signal"])] if "signal" in at else []
                out["sig"].append([p, s + ([] if aux is None else [str(x) for x in aux])])
            for k in g:
                if isinstance(g[k], h5py.Group) and k not in ("configuration", "dependencies"):
                    visit(g[k], p + [k])

        with h5py.File(self.fn, "r") as f:
            visit(f["/"], [])
        start = self.path(random.choice(known))
        out["default"] = [x for x in start.default.path.split("/") if x]
        return out


def history(arg):
    seed, n = arg
    random.seed(seed)
    rng = random.Random(seed)
    d = Driver()
    cls = {(): "NXroot"}
    sig = {}
    steps = []
    CH = {
        "NXroot": [("a1", "NXentry"), ("a2", "NXentry"), ("a3", "NXentry")],
        "NXentry": [("p1", "NXprocess"), ("p2", "NXprocess"), ("a1", "NXdata"), ("a2", "NXdata"), ("pos", "NXsubentry")],
        "NXsubentry": [("a1", "NXdata"), ("results", "NXcollection")],
        "NXprocess": [("results", "NXcollection"), ("a3", "NXdata")],
        "NXcollection": [("a1", "NXdata"), ("a2", "NXdata"), ("a3", "NXdata")],
        "NXdata": [],
    }

    def add(o, look):
        try:
            d.apply(o, len(steps))
            obs = d.observe([list(p) for p in cls]) if look else {}
        except Exception as e:
            steps.append({"op": o, "obs": [], "err": repr(e)[:300]})
            return False
        steps.append({"op": o, "obs": obs if look else []})
        return True

    for i in range(n):
        free = [(p + (x,), c) for p in cls for x, c in CH[cls[p]] if p + (x,) not in cls]
        datas = [p for p in cls if cls[p] == "NXdata"]
        x = rng.random()
        if (x < 0.35 or len(cls) < 5 or len(datas) < 2) and free:
            p, c = rng.choice(free)
            o = {"op": "make", "p": list(p), "c": c}
        elif x < 0.5 and any(len(sig[p]) < 3 for p in datas):
            p = rng.choice([p for p in datas if len(sig[p]) < 3])
            o = {"op": "signal", "p": list(p), "x": rng.choice([y for y in "uvw" if y not in sig[p]])}
        elif x < 0.55:
            o = {"op": "choose", "p": list(rng.choice(datas)), "x": rng.choice("uvw")}
        elif x < 0.62:
            p = rng.choice([p for p in cls if p])
            o = {"op": "remove", "p": list(p)}
            if len(p) < 2:
                continue
        elif x < 0.75 and any(c in ("NXcollection", "NXprocess") for c in cls.values()):
            p = rng.choice([p for p in cls if cls[p] in ("NXcollection", "NXprocess")])
            o = {"op": "pick", "p": list(p), "x": rng.choice(["", "", "u", "v", "w"])}
        else:
            cand = [p for p in cls if p] + [p + (y,) for p in datas for y in sig[p]] * 2
            o = {"op": "mark", "p": list(rng.choice(cand))}
        if not add(o, o["op"] not in ("make", "signal")):
            break
        p = tuple(o["p"])
        if o["op"] == "make":
            cls[p] = o["c"]
            if o["c"] == "NXdata":
                sig[p] = []
            if o["c"] == "NXprocess":
                # a process comes with its configuration only
                pass
        elif o["op"] == "signal":
            sig[p].append(o["x"])
        elif o["op"] == "remove":
            for q in list(cls):
                if q[: len(p)] == p:
                    del cls[q]
                    sig.pop(q, None)
    return steps


def main():
    c = vlib.Check("N03")
    c.tlc("NxDefaultMC", workers=4)
    items = [(c.seed * 5519 + i, 60) for i in range(800 if c.thorough else 100)]
    recs = []
    for it, r in zip(items, vlib.pmap(c, history, items, timeout=200)):
        if isinstance(r, list):
            recs.append({"steps": r})
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = sum(1 for r in recs for s in r["steps"] if s["obs"])
    c.sample([s["op"] for s in recs[0]["steps"][:20]])
    for b in c.judge("NxDefaultTrace", recs, chunk=40):
        st = recs[b["i"]]["steps"]
        last = st[b["step"] - 1]
        c.violation("{}:{}".format(b["bad"], last["op"]["op"]), "after {}: {}: {} want {}".format(
            [s["op"] for s in st[max(0, b["step"] - 3): b["step"]]], b["bad"], last.get("err", last["obs"]), b["want"]),
            {"ops": [s["op"] for s in st[: b["step"]]], "seen": last, "want": b["want"]})
    c.finish()


vlib.main(main)
