"""N01: NXdata groups: signals and axes."""
import os
import random

import h5py
import numpy as np

import vlib
from spectrocrunch.io import fs, nxfs

SHAPES = [[2, 3], [3, 2]]
UNITS = {1: "um", 2: "mm"}


def values(v):
    # an axis value is <<size, variant>>
    return np.arange(v[0], dtype=float) + 10 * v[1]


def identify(arr):
    arr = np.asarray(arr).tolist()
    if len(arr) and arr == [arr[0] + i for i in range(len(arr))] and arr[0] % 10 == 0:
        return [len(arr), int(arr[0] // 10)]
    return [-1, 0]


class Driver:
    def __init__(self, wd):
        self.fn = os.path.join(wd, "t%d.h5" % random.getrandbits(40))
        self.entry = nxfs.Path("/", h5file=self.fn).nxroot().new_nxentry()
        self.proc = self.entry.nxprocess("p", parameters={"a": 1})
        self.count = 0
        for g in "AB":
            self.proc.results.nxdata(g)

    def group(self, g):
        return self.proc.results[g]

    def apply(self, o):
        g = self.group(o["g"])
        self.count += 1
        try:
            if o["op"] == "add":
                kw = {"shape": tuple(o["shape"]), "dtype": int}
                if self.count % 2:
                    kw = {"data": np.full(tuple(o["shape"]), self.count)}
                r = g.add_signal(o["n"], **kw)
                return "ok" if r.name == o["n"] and r.exists else "ok?"
            elif o["op"] == "link":
                src = self.group(o["from"])[o["n"]]
                r = g.add_signal(path=src) if self.count % 2 else g.add_signal(name=o["n"], path=src)
                return "ok"
            elif o["op"] == "default":
                return {True: "true", False: "false"}.get(g.default_signal(o["n"]), "?")
            elif o["op"] == "remove":
                g.remove_signal(o["n"])
            elif o["op"] == "sort":
                g.sort_signals(other=self.group(o["other"]) if o["other"] else None)
            elif o["op"] == "axes":
                axs = []
                for a in o["axs"]:
                    if a["v"]:
                        axs.append((a["n"], values(a["v"]), {"title": "t" + a["n"]} if self.count % 2 else None))
                    elif self.count % 2:
                        axs.append(a["n"])
                    else:
                        axs.append((a["n"], None, {}))
                g.set_axes(*axs)
            return "ok"
        except nxfs.NexusFormatException:
            return "format"
        except fs.AlreadyExists:
            return "exists"
        except ValueError:
            return "value"
        except OSError as e:
            if "exists" in str(e) or "exist" in str(e):
                return "exists"  # links: refused by the HDF5 library
            raise

    def observe(self):
        out = {"grp": {}, "ask": {}}
        with h5py.File(self.fn, "r") as f:
            res = f["/entry0001/p/results"]
            pos = res["positioners"] if "positioners" in res else {}
            out["pos"] = [[k, identify(pos[k][()])] for k in pos]
            for g in "AB":
                n = res[g]
                at = {k: v for k, v in n.attrs.items()}
                axes = [str(x) for x in at.get("axes", [])]
                shp = []
                for k in n:
                    if k in ("x", "y"):
                        continue
                    lnk = n.get(k, getlink=True)
                    shp.append([k, list(n[k].shape) if k in n else ["broken"]])
                out["grp"][g] = {
                    "sig": str(at.get("signal", "")),
                    "aux": [str(x) for x in at.get("auxiliary_signals", [])],
                    "axes": axes, "shp": sorted(shp),
                    "axval": [identify(n[a][()]) if a in n else [-1, 1] for a in axes],
                }
        for g in "AB":
            n = self.group(g)
            sig = n.signal
            listed = [p.name for p in n.signals if p is not None]
            aux = [p.name for p in n.auxiliary_signals]
            if ([sig.name] if sig is not None else []) + aux != listed:
                listed = ["inconsistent"] + listed
            shape = list(n.shape)
            if sig is not None and (n.ndim != len(shape) or n.size != int(np.prod(shape))):
                shape = [-1]
            out["ask"][g] = {
                "listed": listed, "shape": shape,
                "axes": [[name, identify(v.magnitude)] for name, v, _ in n.axes],
                "axshape": [int(x) for x in n.axes_shape],
            }
        return out


def run(ops):
    d = Driver(os.getcwd())
    steps = []
    try:
        for o in ops:
            try:
                res = d.apply(o)
                obs = d.observe()
            except Exception as e:
                steps.append({"op": o, "obs": {}, "err": repr(e)[:300]})
                break
            obs["res"] = res
            steps.append({"op": o, "obs": obs})
    finally:
        os.remove(d.fn)
    return steps


def random_ops(rng, n):
    """random calls; only needs to know which signals exist where, to avoid
    removing signals that are not there or that the other group links to"""
    names = {"A": set(), "B": set()}
    lnk = set()
    shape = {"A": None, "B": None}
    ops = []
    for _ in range(n):
        g = rng.choice("AAB")
        x = rng.random()
        if x < 0.35:
            ops.append({"op": "add", "g": g, "n": rng.choice("uvw"), "shape": rng.choice(SHAPES[:1] * 5 + SHAPES)})
        elif x < 0.45:
            ops.append({"op": "default", "g": g, "n": rng.choice("uvwuvwxy")})
        elif x < 0.6:
            ops.append({"op": "remove", "g": g, "n": rng.choice("uvw")})
        elif x < 0.7:
            ops.append({"op": "sort", "g": g, "other": rng.choice(["", "A", "B"])})
        elif x < 0.85:
            axs = [{"n": "y", "v": rng.choice([[2, 1], [2, 1], [2, 2], [3, 1], []])},
                   {"n": "x", "v": rng.choice([[3, 1], [3, 1], [2, 1], []])}]
            if rng.random() < 0.2:
                axs.reverse()
            if rng.random() < 0.1:
                axs.pop()
            ops.append({"op": "axes", "g": g, "axs": axs})
        else:
            ops.append({"op": "link", "g": "B", "from": "A", "n": rng.choice("uvw")})
    return ops


def feasible(ops):
    """drop calls on signals that do not exist (by running them)"""
    d = Driver(os.getcwd())
    out, steps = [], []
    lnk = set()
    try:
        for o in ops:
            with h5py.File(d.fn, "r") as f:
                res = f["/entry0001/p/results"]
                has = {g: set(res[g]) for g in "AB"}
            if o["op"] == "remove" and (o["n"] not in has[o["g"]] or (o["g"] == "A" and o["n"] in lnk)):
                continue
            if o["op"] == "link" and o["n"] not in has["A"]:
                continue
            try:
                res = d.apply(o)
                if o["op"] == "link" and res == "ok":
                    lnk.add(o["n"])
                if o["op"] == "remove" and o["g"] == "B":
                    lnk.discard(o["n"])
                obs = d.observe()
            except Exception as e:
                steps.append({"op": o, "obs": {}, "err": repr(e)[:300]})
                break
            obs["res"] = res
            steps.append({"op": o, "obs": obs})
    finally:
        os.remove(d.fn)
    return steps


def main():
    c = vlib.Check("N01")
    init = {"sig": {"A": "", "B": ""}, "aux": {"A": [], "B": []}, "shp": {"A": [], "B": []},
            "lnk": {"A": [], "B": []}, "axes": {"A": [], "B": []}, "pos": []}
    plan = []
    nedges = 0
    for two in "01":
        edges = c.tlc("NxDataMC", env={"VP_TWO": two, "VP_EMIT": 1 if two == "0" or c.thorough else 0}, workers=4).values
        nedges += len(edges)
        if edges:
            ts = vlib.tours(edges, [init], maxlen=60)
            plan += [[e["o"] for e in t] for _, t in ts]
            if sum(map(len, plan)) < nedges:
                raise vlib.MachineryError("tours do not cover the edges")
    recs, ops = [], []
    for it, r in zip(plan, vlib.pmap(c, run, plan, timeout=120)):
        if isinstance(r, list):
            recs.append({"steps": r})
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    rnd = [random_ops(random.Random(c.seed * 7907 + i), 40) for i in range(600 if c.thorough else 32)]
    for it, r in zip(rnd, vlib.pmap(c, feasible, rnd, timeout=120)):
        if isinstance(r, list):
            recs.append({"steps": r})
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = sum(len(r["steps"]) for r in recs)
    c.notes.append("{} edges toured in {} histories, {} random histories".format(nedges, len(plan), len(rnd)))
    c.sample([s["op"] for s in recs[0]["steps"]])
    for b in c.judge("NxDataTrace", recs, chunk=60):
        st = recs[b["i"]]["steps"]
        last = st[b["step"] - 1]
        c.violation("{}:{}".format(b["bad"], last["op"]["op"]), "after {}: {}: {} instead of {}".format(
            [s["op"] for s in st[max(0, b["step"] - 4): b["step"]]], b["bad"], last.get("err", last["obs"]), b["want"]),
            {"ops": [s["op"] for s in st[: b["step"]]], "seen": last, "want": b["want"]})
    c.finish()


vlib.main(main)
