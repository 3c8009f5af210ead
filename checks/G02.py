"""G02: tasks which crop, replace and calculate on results."""
import math
import os
import random
import re

import h5py
import numpy as np

import vlib
from spectrocrunch.io import nxfs, target
from spectrocrunch.process import utils as putils

NAN = [0, 0]
GROUPS = ["detector00", "detector01", "counters", "detectorS1"]
SIGNALS = ["a", "ab", "b", "c", "ba"]


def frac(v):
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return [1 if v > 0 else -1, 0]
    return list(v.as_integer_ratio())


def project(fn, path):
    out = {"axes": [], "groups": []}
    axes = None
    with h5py.File(fn, "r") as f:
        res = f[path]
        for g in sorted(res):
            h = res[g]
            if h.attrs.get("NX_class", "") != "NXdata":
                continue
            names = [str(h.attrs["signal"])] + [str(x) for x in h.attrs.get("auxiliary_signals", [])]
            axs = [{"name": list(str(n)), "values": [int(round(float(v))) for v in np.atleast_1d(h[n][()])]} for n in h.attrs["axes"]]
            if axes is not None and axs != axes:
                axs = [{"name": list("groups have different axes"), "values": []}]
            axes = axs
            sigs = []
            for n in names:
                d = h[n][()]
                if d.shape != tuple(len(a["values"]) for a in axs):
                    sigs.append({"name": list(n), "data": [[-9, 9]]})
                else:
                    sigs.append({"name": list(n), "data": [frac(v) for v in d.ravel()]})
            extra = set(k for k in h if isinstance(h[k], h5py.Dataset)) - set(names) - set(str(a) for a in h.attrs["axes"])
            for k in sorted(extra):
                sigs.append({"name": list("extra " + k), "data": []})
            out["groups"].append({"name": list(g), "signals": sigs})
    out["axes"] = axes or []
    return out


# ------------------------------------------------------------ expressions
def leaves(t):
    if t["e"] == "op":
        return (2 if t["op"] == "^" else 1) * leaves(t["x"]) + (0 if t["op"] == "^" else leaves(t["y"]))
    return leaves(t["x"]) if "x" in t else 1


def gen(rng, names, divs, depth):
    x = rng.random()
    if depth == 0 or x < 0.15:
        y = rng.random()
        if y < 0.4:
            return {"e": "self"}
        if y < 0.8 and names:
            return {"e": "var", "name": list(rng.choice(names))}
        return {"e": "num", "v": rng.choice([0, 1, 2, 3, 5])}
    if x < 0.3:
        return {"e": rng.choice(["neg", "nanone", "nanzero", "abs"]), "x": gen(rng, names, divs, depth - 1)}
    op = rng.choice("++--**/^")
    l = gen(rng, names, divs, depth - 1)
    if op == "/":
        r = rng.choice([{"e": "num", "v": 2}, {"e": "num", "v": 4}] + [{"e": "var", "name": list(d)} for d in divs] * 2)
    elif op == "^":
        r = {"e": "num", "v": 2}
    else:
        r = gen(rng, names, divs, depth - 1)
    return {"e": "op", "op": op, "x": l, "y": r}


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3}


def show(t, rng, need=0):
    e = t["e"]
    if e == "self":
        s, p = "{}", 4
    elif e == "var":
        s, p = "{" + "".join(t["name"]) + "}", 4
    elif e == "num":
        s, p = str(t["v"]), 4
    elif e == "neg":
        s, p = "-" + show(t["x"], rng, 5), 4
    elif e == "op":
        p = PREC[t["op"]]
        sp = rng.choice(["", " "])
        if t["op"] == "^":
            s = show(t["x"], rng, 4) + "^" + show(t["y"], rng, 3)
        else:
            s = show(t["x"], rng, p) + sp + t["op"] + sp + show(t["y"], rng, p + 1)
    else:
        s, p = e + "(" + show(t["x"], rng, 0) + ")", 4
    if p < need or (need == 5 and e == "neg") or rng.random() < 0.05:
        s = "(" + s + ")"
    return s


def has_self(t):
    return t["e"] == "self" or any(has_self(t[k]) for k in "xy" if k in t and isinstance(t[k], dict))


def pattern(rng, grid, on=None):
    on = on or rng.choice(["name", "name", "group"])
    pool = GROUPS + ["detector", "d"] if on == "group" else SIGNALS
    p = rng.choice(pool)
    return {"on": on, "p": list(p), "whole": rng.random() < 0.5}


def pypattern(p):
    s = re.escape("".join(p["p"])) + ("$" if p["whole"] else "")
    if p["on"] == "group":
        return {"method": "regexparent", "pattern": s}
    return {"method": "regex", "pattern": s} if len(s) % 2 else {"pattern": s}


def matches(p, g, s):
    n = g if p["on"] == "group" else s
    return n == p["p"] if p["whole"] else n[: len(p["p"])] == p["p"]


def history(arg):
    seed, nops = arg
    rng = random.Random(seed)
    fn = os.path.join(os.getcwd(), "t.h5")
    if os.path.exists(fn):
        os.remove(fn)
    shape = tuple(rng.choice([(2, 3, 4), (1, 3, 2), (3, 2, 2), (2, 1, 3), (2, 4, 3)]))
    root = nxfs.Path("/", h5file=fn).nxroot()
    entry = root.new_nxentry()
    rp = {"name": "fromraw", "seed": seed}
    proc = entry.nxprocess(target.prepare(rp["name"]), parameters=rp, dependencies=None)
    proc.results.positioners()
    nanny = rng.random() < 0.8
    axn = rng.sample(["energy", "y", "z", "t"], 3)
    axv = [sorted(rng.sample(range(50), n)) if rng.random() < 0.5 else list(range(7, 7 + n)) for n in shape]
    badrow = [set(k for k in range(n) if rng.random() < 0.3) for n in shape]
    for g in rng.sample(GROUPS, rng.randint(1, 3)):
        nx = proc.results.nxdata(g)
        names = rng.sample(SIGNALS, rng.randint(1, 4))
        dt = rng.choice([np.float32, np.float64])
        for s in names:
            if s == "c":
                d = np.array([rng.choice([1, 2, 4]) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
            else:
                d = np.array([rng.randint(-1, 6) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
                if nanny:
                    if rng.random() < 0.8:
                        for k in range(3):
                            for v in badrow[k]:
                                d[(slice(None),) * k + (v,)] = np.nan if rng.random() < 0.8 else -1
                    d[np.array([rng.random() < 0.15 for _ in range(d.size)]).reshape(shape)] = np.nan
            nx.add_signal(s, data=d)
        nx.set_axes(*[(n, v, None) for n, v in zip(axn, axv)])
    recs = []
    cur = project(fn, proc.results.path)
    task = putils.nxpathtotask(proc)
    for i in range(nops):
        sh = [len(a["values"]) for a in cur["axes"]]
        sigs = [(g["name"], s["name"], s["data"]) for g in cur["groups"] for s in g["signals"]]
        if not sigs:
            break
        vals = [v for s in sigs for v in s[2]]
        small = all(abs(v[0]) <= 16 and v[1] <= 4 for v in vals)
        sd = rng.choice([0, 0, 1, 2])
        skip = [pattern(rng, cur) for _ in range(rng.choice([0, 0, 1, 2]))]
        if all(any(matches(p, g, s) for p in skip) for g, s, _ in sigs):
            skip = []
        par = {"sliced": rng.random() < 0.5, "stackdim": sd, "skip": [pypattern(p) for p in skip], "name": "t{}".format(i)}
        if rng.random() < 0.15:
            par.pop("skip")
            skip = []
        kind = rng.choice(["cropnan", "cropnan", "croproi", "replace", "expression", "expression", "expression", "minlog"])
        if kind == "expression" and not small:
            kind = "replace"
        if kind == "minlog" and not all(v == NAN or (v[1] == 1 and v[0] > 0) for v in vals):
            kind = "cropnan"
        o = {"kind": kind, "skip": skip}
        if kind.startswith("crop"):
            par["method"] = "crop"
            o["sd"] = sd + 1
            g, s, _ = rng.choice(sigs)
            ref = rng.choice([[], s, g + ["/"] + s])
            o["ref"] = ref
            par["reference"] = "".join(ref) or None
            if kind == "cropnan":
                bad = rng.choice([NAN, NAN, NAN, [-1, 1], [2, 1], [77, 1]])
                o["bad"] = bad
                par["nanval"] = rng.choice([np.nan, float("nan"), np.float32("nan")]) if bad == NAN else bad[0]
                o["full"] = rng.random() < 0.5
                par["nanfull"] = o["full"]
                if o["full"] and rng.random() < 0.5:
                    par.pop("nanfull")
            else:
                roi = []
                for k, n in enumerate(sh):
                    if k != sd:
                        a = rng.randint(0, n - 1)
                        roi.append([a, rng.randint(a + 1, n)])
                o["roi"] = roi
                par["roi"] = roi
        elif kind == "replace":
            par["method"] = "replace"
            o["old"] = rng.choice([NAN, rng.choice(vals), [2, 1]])
            o["new"] = rng.choice([[5, 1], [-3, 1], [1, 2], NAN])
            par["old"] = float("nan") if o["old"] == NAN else o["old"][0] / o["old"][1]
            par["new"] = float("nan") if o["new"] == NAN else o["new"][0] / o["new"][1]
        elif kind == "minlog":
            par["method"] = "minlog"
        else:
            par["method"] = "expression"
            copy = [pattern(rng, cur) for _ in range(rng.choice([0, 0, 1, 2]))]
            o["copy"] = copy
            count = {}
            for g, s, _ in sigs:
                count["".join(s)] = count.get("".join(s), 0) + 1
            ngroups = len(cur["groups"])
            calc = [g for g, s, _ in sigs if not any(matches(p, g, s) for p in skip) and not any(matches(p, g, s) for p in copy)]
            ok = [n for n in count if count[n] == 1 or all(any(s == list(n) for g2, s, _ in sigs if g2 == g) for g in calc)]
            divs = [n for n in ok if all(v in ([1, 1], [2, 1], [4, 1]) for _, s, d in sigs if s == list(n) for v in d)]
            for _ in range(50):
                t = gen(rng, ok, divs, rng.choice([1, 2, 2, 3]))
                if has_self(t) and leaves(t) <= 4:
                    break
            else:
                t = {"e": "self"}
            if rng.random() < 0.2 and len(ok) >= 4:
                # many variables
                t = {"e": "self"}
                for n in rng.sample(ok, len(ok)):
                    t = {"e": "op", "op": "+", "x": t, "y": {"e": "var", "name": list(n)}}
            o["expr"] = t
            par["expression"] = show(t, rng)
            par["copy"] = [pypattern(p) for p in copy]
            if not copy and rng.random() < 0.5:
                par.pop("copy")
        rec = {"before": cur, "op": o, "par": {k: str(v) for k, v in par.items()}}
        try:
            new = putils.create_task(dependencies=task, **par)
            new.run()
            if not new.done:
                raise RuntimeError("task did not finish")
            out = new.output
            after = project(fn, out.results.path)
            if kind == "minlog":
                for g in after["groups"]:
                    for s in g["signals"]:
                        s["data"] = [v if v == NAN else [int(round(math.exp(-v[0] / v[1]))), 1] for v in s["data"]]
            if project(fn, task.output.results.path) != cur:
                raise RuntimeError("the input changed")
        except Exception as e:
            rec["err"] = repr(e)[:300]
            recs.append(rec)
            break
        rec["after"] = after
        recs.append(rec)
        if any(v[1] == 0 and v[0] for g in after["groups"] for s in g["signals"] for v in s["data"]):
            break
        if kind == "minlog":
            break
        task, cur = new, after
    return recs


def main():
    c = vlib.Check("G02")
    c.tlc("GridTaskMC", workers=4)
    items = [(c.seed * 7717 + i, 5) for i in range(3000 if c.thorough else 64)]
    recs = []
    for it, r in zip(items, vlib.pmap(c, history, items, timeout=200)):
        if isinstance(r, list):
            recs += r
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = len(recs)
    for r in recs[:200:50]:
        c.sample([r["op"], r["par"]])
    kinds = {}
    for r in recs:
        kinds[r["op"]["kind"]] = kinds.get(r["op"]["kind"], 0) + 1
    c.notes.append("tasks run: {}".format(kinds))
    for b in c.judge("GridTaskTrace", [{k: v for k, v in r.items() if k != "par"} for r in recs], chunk=150):
        r = recs[b["i"]]
        c.violation("{}:{}:{}".format(b["bad"], r["op"]["kind"], r["par"]["sliced"]),
                    "{}: {} {}".format(r["par"], b["bad"], r.get("err", "")), {"record": r, "want": b["want"]})
    c.finish()


vlib.main(main)
