"""G03: resampling on measured positions."""
import math
import os
import random
from fractions import Fraction

import h5py
import numpy as np

import vlib
from spectrocrunch.io import nxfs, target
from spectrocrunch.process import utils as putils
from spectrocrunch.utils import units

GROUPS = ["detector00", "counters", "detectorS1"]
MISSING = [0, 0]
UNIT = {"mm": Fraction(1), "um": Fraction(1, 1000), None: Fraction(1)}


def pair(f):
    return [f.numerator, f.denominator]


def exact(x):
    x = float(x)
    if math.isnan(x):
        return MISSING
    if not math.isfinite(x):
        return [987654321, 1]
    f = Fraction(x).limit_denominator(600)
    if abs(float(f) - x) > 3e-6 * max(1, abs(x)):
        return [987654321, 1]
    return pair(f)


def project(fn, path, scan, offsets=False):
    out = {"axes": [], "groups": [], "offsets": []}
    axes = None
    with h5py.File(fn, "r") as f:
        res = f[path]
        for g in sorted(res):
            h = res[g]
            if h.attrs.get("NX_class", "") != "NXdata":
                continue
            names = [str(h.attrs["signal"])] + [str(x) for x in h.attrs.get("auxiliary_signals", [])]
            axs = [{"name": str(n), "scan": scan[str(n)], "values": [exact(v) for v in np.atleast_1d(h[n][()])]} for n in h.attrs["axes"]]
            if axes is not None and axs != axes:
                axs = [{"name": "groups have different axes", "values": []}]
            axes = axs
            sigs = []
            for n in names:
                d = h[n][()]
                bad = d.shape != tuple(len(a["values"]) for a in axs)
                sigs.append({"name": n, "data": [[-987654321, 1]] if bad else [exact(v) for v in d.ravel()]})
            out["groups"].append({"name": g, "signals": sigs})
        if offsets:
            out["offsets"] = [exact(v) for v in np.atleast_1d(res["encoder_offset"][()])]
    out["axes"] = axes or []
    return out


def history(seed):
    rng = random.Random(seed)
    fn = os.path.join(os.getcwd(), "t.h5")
    if os.path.exists(fn):
        os.remove(fn)
    ndim = rng.choice([2, 3, 3])
    shape = [rng.randint(2, 4) for _ in range(ndim)]
    n_on = rng.choice([0, 1, 1, 1, 1, 2, 2])
    on = sorted(rng.sample(range(ndim), n_on))
    names = rng.sample(["energy", "y", "z", "t"], ndim)
    unit = [rng.choice([None, "mm", "um"]) for _ in names]
    values, res, offs, encs = [], [], [], {}
    for d in range(ndim):
        if rng.random() < 0.25 and n_on < 2:
            v = [Fraction(x) for x in sorted(rng.sample(range(12), shape[d]))]
        else:
            st = Fraction(rng.choice([1, 1, 2, 4]), rng.choice([1, 2]))
            v = [Fraction(rng.randint(-4, 6)) + k * st for k in range(1)]
            v = [v[0] + k * st for k in range(shape[d])]
        if rng.random() < 0.3:
            v = v[::-1]
        values.append(v)
        res.append(Fraction(rng.choice([1, 1, 2, 2, 4, -1, -2])) / rng.choice([1, 1, 2]))
        offs.append(Fraction(rng.choice([0, 0, 3, -2, 7]), 1))
    # what is measured
    shear = {d: [Fraction(rng.choice([0, 0, 1, -1]), rng.choice([1, 2])) * abs(res[d]) for _ in range(ndim)] for d in on}
    enc = {}
    for d in on:
        e = np.empty(shape, dtype=object)
        # jitter never changes the order
        st = min((b - a for a, b in zip(values[d], values[d][1:])), key=abs) * res[d]
        perline = {}
        for ix in np.ndindex(*shape):
            v = values[d][ix[d]] * res[d] + offs[d]
            if n_on == 2:
                oth = [x for x in on if x != d][0]
                v += shear[d][oth] * ix[oth] / 2
                rest = tuple(ix[k] for k in range(ndim) if k not in on)
                v += perline.setdefault(rest, Fraction(rng.randint(-2, 2), 2) * abs(st))
            else:
                line = ix[:d] + ix[d + 1 :]
                v += perline.setdefault(line, Fraction(rng.randint(-4, 4), 2) * abs(st))
                v += Fraction(rng.choice([0, 0, 1, -1]), 4) * st
            e[ix] = v
        enc[d] = e
    if n_on == 2:
        # the two have to measure different things
        d1, d2 = on
        u = [values[d1][1] * res[d1] - values[d1][0] * res[d1], shear[d2][d1] / 2]
        w = [shear[d1][d2] / 2, values[d2][1] * res[d2] - values[d2][0] * res[d2]]
        if abs(u[0] * w[1] - u[1] * w[0]) < abs(u[0] * w[1]) / 2:
            return []
    root = nxfs.Path("/", h5file=fn).nxroot()
    entry = root.new_nxentry()
    proc = entry.nxprocess(target.prepare("fromraw"), parameters={"name": "fromraw", "seed": seed}, dependencies=None)
    proc.results.positioners()
    dt = rng.choice([np.float64, np.float64, np.float32])
    signals = []
    for k in range(rng.randint(1, 3)):
        d = np.empty(shape, dtype=object)
        co = {}
        for ix in np.ndindex(*shape):
            if n_on == 2:
                rest = tuple(ix[k] for k in range(ndim) if k not in on)
                a, b, c = co.setdefault(rest, [Fraction(rng.randint(-3, 3)) for _ in range(3)])
                d[ix] = a + b * ix[on[0]] + c * ix[on[1]]
            else:
                d[ix] = Fraction(rng.randint(-3, 9))
        signals.append(("s{}".format(k), d))
    for d in on:
        signals.append(("enc{}".format(d), enc[d]))
    rng.shuffle(signals)
    groups = rng.sample(GROUPS, min(rng.randint(1, 3), len(signals)))
    for k, g in enumerate(groups):
        nx = proc.results.nxdata(g)
        for s, d in signals[k :: len(groups)]:
            nx.add_signal(s, data=d.astype(float).astype(dt))
        nx.set_axes(*[(n, [float(x) for x in v], {"units": u}) if u else (n, [float(x) for x in v], None) for n, v, u in zip(names, values, unit)])
    # names the scan uses
    scan = {}
    for n in names:
        scan[n] = n
        if rng.random() < 0.4:
            scan[n] = "sam" + n
            proc.results.nxcollection("info")[n].mkfile(data=scan[n])
    cur = project(fn, proc.results.path, scan)
    task = putils.nxpathtotask(proc)
    o = {"encoders": [], "crop": rng.random() < 0.5, "cval": MISSING, "degree": 1, "skip": []}
    par = {"method": "resample", "name": "r", "encoders": {}}
    for d in on:
        ask = scan[names[d]]
        counter = "enc{}".format(d)
        if rng.random() < 0.07:
            counter = "nothere"
        elif rng.random() < 0.07:
            ask = "x" + ask
        given = []
        if rng.random() < 0.45:
            given = [offs[d] + rng.choice([0, 0, 1, -1, 2]) * abs(res[d]) + (1000 if rng.random() < 0.05 else 0)]
        o["encoders"].append({"axis": ask, "counter": counter, "res": pair(res[d]), "offset": [pair(x) for x in given]})
        par["encoders"][ask] = {"counter": counter, "resolution": float(res[d])}
        if given:
            par["encoders"][ask]["offset"] = float(given[0]) if rng.random() < 0.6 or given[0].denominator > 1 else int(given[0])
        elif rng.random() < 0.2:
            par["encoders"][ask]["offset"] = None
    if rng.random() < 0.3:
        o["cval"] = pair(Fraction(rng.choice([0, -99])))
        par["cval"] = o["cval"][0]
    if n_on < 2 and rng.random() < 0.2:
        o["degree"] = 0
        par["degree"] = 0
    if o["crop"] or rng.random() < 0.5:
        par["crop"] = o["crop"]
    if rng.random() < 0.3:
        o["skip"] = rng.sample([s for s, _ in signals], rng.randint(1, len(signals)))
        if len(o["skip"]) == len(signals):
            o["skip"] = o["skip"][1:]
        par["skip"] = [{"method": "regex", "pattern": s + "$"} for s in o["skip"]]
    rec = {"before": cur, "op": o, "par": {k: str(v) for k, v in par.items()}, "n": n_on}
    try:
        if rng.random() < 0.15:
            # not the first task after reading
            task = putils.create_task(dependencies=task, method="replace", name="same", old=12345, new=0)
            task.run()
            if project(fn, task.output.results.path, scan) != cur:
                raise RuntimeError("the task in between changed something")
        new = putils.create_task(dependencies=task, **par)
        new.run()
        if not new.done:
            raise RuntimeError("task did not finish")
        rec["after"] = project(fn, new.output.results.path, scan, offsets=True)
        if project(fn, task.output.results.path, scan) != cur:
            raise RuntimeError("the input changed")
    except Exception as e:
        import traceback
        rec["err"] = repr(e)[:300] + traceback.format_exc()[-400:]
    return [rec]


def big(r):
    """too many numbers to judge"""
    return "after" in r and sum(len(s["data"]) for g in r["after"]["groups"] for s in g["signals"]) > 3000


def main():
    c = vlib.Check("G03")
    c.tlc("ResampleMC", cfg="ResampleMC" if c.thorough else "ResampleMCquick", workers=4)
    items = [c.seed * 9973 + i for i in range(6000 if c.thorough else 200)]
    recs = []
    for it, r in zip(items, vlib.pmap(c, history, items, timeout=100)):
        if isinstance(r, list):
            recs += [x for x in r if not big(x)]
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = len(recs)
    for r in recs[:200:50]:
        c.sample([r["op"], r["par"]])
    c.notes.append("dimensions with an encoder: {}".format({n: sum(r["n"] == n for r in recs) for n in range(3)}))
    for b in c.judge("ResampleTrace", [{k: v for k, v in r.items() if k not in ("par", "n")} for r in recs], chunk=20):
        r = recs[b["i"]]
        c.violation("{}:{}:{}:{}".format(b["bad"], r["n"], r["op"]["crop"], any(e["offset"] for e in r["op"]["encoders"])),
                    "{}: {} {}".format(r["par"], b["bad"], r.get("err", "")), {"record": r, "want": b["want"]})
    c.finish()


vlib.main(main)
