"""X01: axes."""
import random
from fractions import Fraction

import numpy as np

import vlib
from spectrocrunch.process import axis
from spectrocrunch.utils import units

UNITS = {"mm": Fraction(1), "um": Fraction(1, 1000), "cm": Fraction(10), "m": Fraction(1000)}
KIND = {"Axis": "list", "AxisRegular": "regular", "AxisRegularInc": "inc", "AxisSegments": "segments", "AxisNumber": "number"}


def pair(f):
    return [f.numerator, f.denominator]


def exact(x):
    f = Fraction(float(x)).limit_denominator(2000)
    if abs(float(f) - float(x)) > 1e-7 * max(1, abs(float(x))):
        return [12345678, 1]
    return pair(f)


def base(q):
    """quantity in the base unit"""
    if isinstance(q, (int, float, np.number)):
        q = units.Quantity(q, "dimensionless")
    if q.dimensionless:
        return q.to("dimensionless").magnitude
    return q.to("mm").magnitude


def seq(q):
    return [exact(x) for x in np.atleast_1d(base(q))]


def project(ax):
    kind = KIND[type(ax).__name__]
    v = seq(ax.values)
    u = "{:~}".format(ax.values.units)
    u = {"µm": "um", "μm": "um"}.get(u, u)
    # the middle of the list too: an axis can be read by index
    if seq(ax[len(v) // 2])[0] != v[len(v) // 2] or len(ax) != len(v) or (ax.units != ax.values.units and kind != "segments"):
        v = [[987654321, 1]]
    says = {"start": seq(ax.start)[0], "end": seq(ax.end)[0], "size": int(ax.size)}
    if len(v) > 1:
        says["first"] = seq(ax.start_stepsize)[0]
        says["last"] = seq(ax.end_stepsize)[0]
    else:
        says["first"] = says["last"] = [0, 1]
    par = {"n": 0}
    if kind in ("regular", "inc"):
        par = {"start": seq(ax.start)[0], "n": int(ax.nsteps)}
        par["end" if kind == "regular" else "step"] = seq(ax.end if kind == "regular" else ax.stepsize)[0]
    elif kind == "segments":
        par = {"limits": seq(ax.limits), "ns": [int(n) for n in ax.nsteps]}
    elif kind == "number":
        par = {"start": seq(ax.start)[0]}
    return {"kind": kind, "vals": v, "unit": u, "says": says, "par": par}


def frac(rng, lo=-8, hi=12):
    return Fraction(rng.randint(lo * 4, hi * 4), rng.choice([1, 1, 2, 4])) / rng.choice([1, 4])


def give(rng, f, unit, u=None):
    """a number in the base unit, as quantity in some unit, or as number in the unit of the axis"""
    if unit == "":
        return float(f) if rng.random() < 0.6 else units.Quantity(float(f), "dimensionless")
    u = u or rng.choice(list(UNITS))
    return units.Quantity(float(f / UNITS[u]), u)


def many(rng, fs, unit, u=None):
    """numbers in the base unit"""
    if unit == "":
        v = [float(f) for f in fs]
        return rng.choice([v, np.array(v), units.Quantity(np.array(v), "dimensionless")])
    if u is None and rng.random() < 0.25:
        return [give(rng, f, unit) for f in fs]
    u = u or rng.choice(list(UNITS))
    v = [float(f / UNITS[u]) for f in fs]
    return rng.choice([units.Quantity(np.array(v), u), [units.Quantity(x, u) for x in v]])


def steps(rng, n):
    """increasing or decreasing values"""
    kind = rng.choice(["even", "even", "uneven", "pieces"])
    x = frac(rng)
    out = [x]
    st = Fraction(rng.randint(1, 8), 4)
    for k in range(n - 1):
        if kind == "uneven" or (kind == "pieces" and rng.random() < 0.15):
            st = Fraction(rng.randint(1, 12), 4)
        out.append(out[-1] + st)
    if rng.random() < 0.5:
        out = [-x for x in out]
    return out


def build(rng, unit):
    kind = rng.choice(["list", "list", "regular", "inc", "segments", "segments", "number"])
    kw = {"name": "x"}
    if kind == "list":
        vals = steps(rng, rng.randint(2, 14))
        v = many(rng, vals, unit)
        return (axis.Axis(v, **kw) if rng.random() < 0.4 else axis.factory(v, **kw)), {"vals": vals}
    if kind == "regular":
        a, b = frac(rng), frac(rng)
        while a == b:
            b = frac(rng)
        n = rng.randint(1, 8)
        return axis.AxisRegular(give(rng, a, unit), give(rng, b, unit), n, **kw), {"kind": kind, "par": {"start": pair(a), "end": pair(b), "n": n}}
    if kind == "inc":
        a, s = frac(rng), Fraction(rng.choice([-1, 1]) * rng.randint(1, 9), 4)
        n = rng.randint(1, 8)
        return axis.AxisRegularInc(give(rng, a, unit), give(rng, s, unit), n, **kw), {"kind": kind, "par": {"start": pair(a), "step": pair(s), "n": n}}
    if kind == "segments":
        lim = steps(rng, rng.randint(2, 5))
        ns = [rng.randint(1, 5) for _ in lim[1:]]
        return axis.AxisSegments(many(rng, lim, unit), rng.choice([ns, np.array(ns)]), **kw), {"kind": kind, "par": {"limits": [pair(x) for x in lim], "ns": ns}}
    a = frac(rng)
    return axis.AxisNumber(give(rng, a, unit), **kw), {"kind": kind, "par": {"start": pair(a)}}


def near(rng, vals):
    """numbers in and around the values"""
    lo, hi = min(vals), max(vals)
    t = rng.random()
    if t < 0.35:
        return rng.choice(vals) + rng.choice([Fraction(0), Fraction(0), Fraction(1, 8), Fraction(-1, 8), Fraction(1, 3)])
    w = max(hi - lo, Fraction(1))
    return lo - w + Fraction(rng.randint(0, 60), 20) * w


def off(rng, vals, x, unit):
    """not where rounding decides how many values there are"""
    def edge(x):
        marks = [(vals[0] - x) / (vals[1] - vals[0]), (x - vals[-1]) / (vals[-1] - vals[-2])]
        return x in vals or any(m.denominator == 1 for m in marks)
    dyadic = all(f.denominator & (f.denominator - 1) == 0 for f in list(vals) + [x])
    if unit == "" and dyadic:
        return x
    while edge(x):
        x += Fraction(rng.choice([-1, 1]), 7) * (vals[1] - vals[0]) + Fraction(rng.choice([-1, 0, 1]), 11) * (vals[-1] - vals[-2])
    return x


def history(seed):
    rng = random.Random(seed)
    unit = rng.choice(["", "mm", "mm"])
    recs = []
    try:
        ax, want = build(rng, unit)
        p = project(ax)
    except Exception as e:
        return [{"o": {"op": "make"}, "err": repr(e)[:300], "before": {"kind": "list", "vals": [[0, 1]], "unit": "", "par": {"n": 0}}}]
    rec = {"o": {"op": "make"}, "after": p, "before": {"kind": want.get("kind", "list"), "unit": p["unit"], "par": want.get("par", {"n": 0})}}
    if "vals" in want:
        rec["before"]["vals"] = [pair(x) for x in want["vals"]]
    recs.append(rec)
    for _ in range(rng.randint(2, 7)):
        before = project(ax)
        vals = [Fraction(*x) for x in before["vals"]]
        flat = not (all(x < y for x, y in zip(vals, vals[1:])) or all(x > y for x, y in zip(vals, vals[1:])))
        kind = before["kind"]
        big = len(vals) > 60
        small = all(x.denominator <= 48 for x in vals)
        ops = ["simplify", "copy", "zapscan", "ascan"] + ["locate", "same"] * small
        if len(vals) > 1 and not flat and small:
            ops += ["newstart", "newend", "newlimits", "newlimits"]
        if kind != "number" or True:
            ops += ["item"]
        if unit:
            ops += ["to", "units"]
        if kind != "list" and small:
            ops += ["set", "set", "set"]
        op = rng.choice(ops)
        o = {"op": op}
        rec = {"o": o, "before": before}
        recs.append(rec)
        go = rng.random() < 0.6
        got = None
        try:
            if op == "simplify":
                got = ax.simplify()
            elif op == "copy":
                got = type(ax)(*ax.initargs, **ax.initkwargs)
            elif op in ("to", "units"):
                o["unit"] = rng.choice(list(UNITS))
                if op == "to":
                    got = ax.to(o["unit"])
                else:
                    ax.units = o["unit"]
            elif op in ("newstart", "newend", "newlimits"):
                a, b = near(rng, vals), near(rng, vals)
                if rng.random() < 0.7 and (b - a) * (vals[-1] - vals[0]) < 0:
                    a, b = b, a
                if op != "newend":
                    a = off(rng, vals, a, before["unit"])
                if op != "newstart":
                    b = off(rng, vals[::-1], b, before["unit"])
                if op != "newend":
                    o["a"] = pair(a)
                if op != "newstart":
                    o["b"] = pair(b)
                args = [give(rng, x, unit) for x in ([a, b] if op == "newlimits" else [a] if op == "newstart" else [b])]
                got = getattr(ax, op)(*args)
                if got is None:
                    got = []
            elif op == "locate":
                xs = [near(rng, vals) for _ in range(rng.randint(1, 4))]
                # distances have to differ by more than rounding
                xs = [x for x in xs if not tie(vals, x)] or [vals[0]]
                o["xs"] = [pair(x) for x in xs]
                if len(xs) == 1 and rng.random() < 0.5:
                    at = [ax.locate(give(rng, xs[0], unit))]
                elif rng.random() < 0.3:
                    at = ax.locate(axis.Axis(many(rng, xs, unit)))
                else:
                    at = ax.locate(many(rng, xs, unit))
                rec["at"] = [int(x) + 1 for x in at]
            elif op == "same":
                other = list(vals)
                eps = rng.choice([Fraction(0), Fraction(1, 8), Fraction(1, 2)])
                if rng.random() < 0.5:
                    k = rng.randrange(len(other))
                    other[k] += rng.choice([-1, 1]) * rng.choice([Fraction(1, 16), Fraction(1, 4), Fraction(1)])
                if rng.random() < 0.2:
                    other.append(other[-1] + 1)
                if rng.random() < 0.3 and len(other) > 1:
                    other = other[::-1]
                # with precision zero the numbers have to be the same
                eps2 = eps or Fraction(1, 1024)
                if any(abs(x - y) == eps2 for x, y in zip(vals, other)):
                    eps2 += Fraction(1, 1024)
                o["other"], o["precision"] = [pair(x) for x in other], pair(eps2)
                ax.precision = give(rng, eps2, unit)
                oth = axis.Axis(many(rng, other, unit))
                if rng.random() < 0.5:
                    oth = oth.simplify()
                oth.precision = ax.precision
                r = {bool(ax == oth), not bool(ax != oth)}
                rec["yes"] = list(r)[0] if len(r) == 1 else "inconsistent"
                ax.precision = 0
            elif op in ("zapscan", "ascan"):
                a, b, n = frac(rng), frac(rng), rng.randint(2, 6)
                while a == b:
                    b = frac(rng)
                o.update(a=pair(a), b=pair(b), n=n)
                got = getattr(axis, op)(float(a), float(b), n, name="x")
            elif op == "item":
                k = rng.randrange(len(vals))
                x = frac(rng)
                o.update(k=k + 1, x=pair(x))
                rec["refused"] = False
                try:
                    ax[rng.choice([k, k - len(vals)])] = give(rng, x, unit)
                except RuntimeError:
                    rec["refused"] = True
            elif op == "set":
                what = {"regular": ["start", "end", "size", "nsteps"], "inc": ["start", "step", "size", "nsteps"], "number": ["start"],
                        "segments": ["limits", "ns"]}[kind]
                o["what"] = w = rng.choice(what)
                if w in ("start", "end", "step"):
                    x = frac(rng)
                    while x == 0 or pair(x) in before["par"].values():
                        x += Fraction(1, 4)
                    o["x"] = pair(x)
                    u = rng.choice(list(UNITS))
                    if w == "start":
                        # the unit of the start is that of the axis
                        o["unit"] = u if unit else ""
                    setattr(ax, {"step": "stepsize"}.get(w, w), give(rng, x, unit, u))
                elif w in ("size", "nsteps"):
                    o["n"] = rng.randint(2, 8)
                    setattr(ax, w, o["n"])
                elif w == "limits":
                    xs = steps(rng, len(before["par"]["limits"]))
                    o["xs"] = [pair(x) for x in xs]
                    u = rng.choice(list(UNITS))
                    o["unit"] = u if unit else ""
                    ax.limits = many(rng, xs, unit, u)
                else:
                    o["ns"] = [rng.randint(1, 5) for _ in before["par"]["ns"]]
                    ax.nsteps = o["ns"]
            rec["after"] = project(ax)
            if got is not None:
                rec["got"] = {"vals": []} if isinstance(got, list) else project(got)
            for ob in ("after", "got"):
                if any(x[0] in (12345678, 987654321) for x in rec.get(ob, {"vals": []})["vals"]):
                    raise ValueError("values of {} are not what can be computed exactly: {}".format(ob, got if ob == "got" else ax.values))
        except Exception as e:
            import traceback
            rec["err"] = repr(e)[:300] + traceback.format_exc()[-300:]
            break
        if got is not None and not isinstance(got, list) and go and op in ("simplify", "to", "newlimits", "copy", "newend", "newstart"):
            ax = got
        if len(ax) > 80:
            break
    return recs


def tie(vals, x):
    d = sorted(abs(v - x) for v in set(vals))
    return len(d) > 1 and d[0] == d[1]


def main():
    c = vlib.Check("X01")
    c.tlc("AxisMC", workers=4)
    items = [c.seed * 100003 + i for i in range(60000 if c.thorough else 2500)]
    recs = []
    for it, r in zip(items, vlib.pmap(c, history, items, timeout=100)):
        if isinstance(r, list):
            recs += r
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = len(recs)
    for r in recs[:400:80]:
        c.sample(r["o"])
    n = {}
    for r in recs:
        n[r["o"]["op"]] = n.get(r["o"]["op"], 0) + 1
    c.notes.append("operations: {}".format(n))
    for b in c.judge("AxisTrace", recs, chunk=800):
        r = recs[b["i"]]
        c.violation("{}:{}:{}".format(b["bad"], r["o"]["op"], r["before"]["kind"]), "{} on {}: {} {}".format(r["o"], r["before"], b["bad"], r.get("err", r.get("got", r.get("after")))),
                    {"record": r, "want": b["want"]})
    c.finish()


vlib.main(main)
