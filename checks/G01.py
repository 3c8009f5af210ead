"""G01: a stack of arrays, of signals in a file, acts as one array."""
import itertools
import os
import random

import h5py
import numpy as np

import vlib
from spectrocrunch.utils import indexing
from spectrocrunch.io import nxfs
from spectrocrunch.process import regulargrid, h5regulargrid, axis

from gridindex import NONE, I, S, L, B, E, NEW, py, pyindex, items, listlen, admissible, pick


def err(e):
    return {"err": type(e).__name__ if not isinstance(e, IndexError) else "IndexError"}


def arr(a):
    a = np.asarray(a)
    return {"sh": list(a.shape), "at": [int(x) for x in a.ravel()]}


# ------------------------------------------------------------ in memory
def memory(arg):
    """read and assign on stacks of arrays through utils.indexing"""
    shape, axis_, ixs, seed = arg
    rng = random.Random(seed)
    size = int(np.prod(shape))
    base = np.arange(1, size + 1).reshape(shape)
    recs = []
    for ix in ixs:
        bare = rng.random() < 0.5
        index = pyindex(ix, bare)
        parts = [np.take(base, i, axis=axis_) for i in range(shape[axis_])]
        ax = rng.choice([axis_, axis_ - len(shape)])
        asked = []

        def gen(k):
            asked.append(k)
            return parts[k]

        try:
            got = arr(indexing.getitem(gen, list(range(len(parts))), index, len(shape), shapefull=shape, axis=ax))
        except Exception as e:
            got = err(e)
        recs.append({"k": "get", "sh": list(shape), "ix": ix, "got": got, "axis": axis_})
        if any(it["t"] == "n" for it in ix) or (
                E in ix and len(ix) == len(shape) + 1 and any(it["t"] in "lb" for it in ix)):
            continue
        # assignment: one value, or one per element (as many as numpy would use)
        try:
            s = base[index].shape
            n = int(np.prod(s))
        except IndexError:
            s, n = (), 1
        if rng.random() < 0.4:
            value, w = -5, [-5]
        elif n != 1:
            w = [-k for k in range(1, n + 1)]
            value = np.array(w, dtype=int).reshape(s)
        else:
            w = [-7]
            value = np.array(w, dtype=int).reshape(s)
        op = "set"
        uniq = all(len(set(v % n_ for v in it["v"])) == len(it["v"]) for it, n_ in zip(
            [x for x in ix if x["t"] == "l"], [10**6] * 9))
        if uniq and not any(it["t"] == "l" and any(v < 0 for v in it["v"]) for it in ix) and rng.random() < 0.4:
            op = rng.choice(["add", "sub", "mul"])
        parts = [np.take(base, i, axis=axis_).copy() for i in range(shape[axis_])]
        got = {}
        try:
            indexing.setitem(lambda k: parts[k], list(range(len(parts))), index, len(shape), value,
                             method=op, shapefull=shape, axis=ax)
        except Exception as e:
            got = err(e)
        got["after"] = [int(x) for x in np.stack(parts, axis=axis_).ravel()]
        recs.append({"k": "put", "op": op, "sh": list(shape), "ix": ix, "w": w, "got": got,
                     "before": [int(x) for x in base.ravel()], "axis": axis_})
    return recs


# -------------------------------------------------------------- in a file
def h5items(n, stack, lists):
    if stack:
        return items(n, lists)
    out = [I(0), I(-1), I(n - 1), S(), S(0, 1), S(1), S(None, None, 2), S(-2, None), S(None, -1), I(n), I(-n - 1), S(5, 9)]
    if lists:
        out += [L([0]), L(sorted({0, n - 1})), L([n - 1])]
    return out


def ingrid(arg):
    """histories of reading, assigning and arithmetic on grids of signals"""
    seed, nops = arg
    rng = random.Random(seed)
    sigshape = tuple(rng.choice([(2, 3), (3, 2), (2, 2, 2), (1, 3), (3,), (2, 1, 3)]))
    fn = os.path.join(os.getcwd(), "g.h5")
    if os.path.exists(fn):
        os.remove(fn)
    root = nxfs.Path("/", h5file=fn).nxroot()
    entry = root.new_nxentry()
    nd = len(sigshape) + 1
    sd = rng.randint(0, nd - 1)
    groups = rng.sample(["detector00", "counters", "detectorS1", "xyz"], rng.randint(1, 3))
    conf = rng.choice(["none", "config"])
    params = {"a": 1}
    if conf == "config":
        params["stackdim"] = sd
    proc = entry.nxprocess("p", parameters=params, dependencies=None)
    dtypes = [rng.choice([np.int64, np.float64, np.float32, np.int32]) for _ in range(9)]
    floats = rng.random() < 0.4
    nsig = 0
    for g in groups:
        nx = proc.results.nxdata(g)
        for s in rng.sample("dcba", rng.randint(1, 3)):
            dt = np.float64 if floats else dtypes[nsig]
            nx.add_signal(s, data=np.zeros(sigshape, dtype=dt))
            nsig += 1
        nx.set_axes(*[("x%d" % k, list(range(n)), None) for k, n in enumerate(sigshape)])
    res = proc.results.path

    def order(f):
        out = []
        for g in sorted(f[res]):
            at = f[res][g].attrs
            if at.get("NX_class", "") != "NXdata":
                continue
            out.append(res + "/" + g + "/" + str(at["signal"]))
            out += [res + "/" + g + "/" + str(x) for x in at.get("auxiliary_signals", [])]
        return out

    # fill: value = position in the stack
    shape = list(sigshape)
    shape.insert(sd, nsig)
    shape = tuple(shape)
    base = np.arange(1, int(np.prod(shape)) + 1).reshape(shape)
    with h5py.File(fn, "r+") as f:
        names = order(f)
        for k, s in enumerate(names):
            f[s][...] = np.take(base, k, axis=sd)

    def contents():
        with h5py.File(fn, "r") as f:
            return [int(x) for x in np.stack([f[s][()] for s in names], axis=sd).ravel()]

    if rng.random() < 0.3 and len(groups) == 1:
        grid = h5regulargrid.NXRegularGrid(proc.results[groups[0]], stackdim=sd)
    elif conf == "config":
        grid = h5regulargrid.NXRegularGrid(proc)
    else:
        grid = h5regulargrid.NXRegularGrid(proc, stackdim=sd)
    single = rng.randrange(nsig)
    sgrid = h5regulargrid.NXSignalRegularGrid(grid.signals[single])
    recs = []
    meta = {"sigshape": list(sigshape), "sd": sd, "groups": groups}

    def get(ix, f, shp, pos=None, **kw):
        try:
            got = f()
        except Exception as e:
            got = err(e)
            recs.append(dict({"k": "get", "sh": list(shp), "ix": ix, "got": got, "msg": repr(e)[:200], "meta": meta}, **kw))
            return
        got = arr(got)
        # the contents are a permutation-free labelling: value -> position
        if "at" in got:
            got["at"] = [pos.index(v) + 1 if v in pos else 0 for v in got["at"]]
        recs.append(dict({"k": "get", "sh": list(shp), "ix": ix, "got": got, "meta": meta}, **kw))

    cur = contents()
    # static facts, as readings
    get([], lambda: np.asarray(grid.values), shape, cur, what="values")
    facts = {"shape": list(grid.shape), "ndim": grid.ndim, "size": int(grid.size), "len": len(grid),
             "signals": [s.path for s in grid.signals], "stack": grid.stackdim,
             "axes": [a.size for a in grid.axes], "values": list(np.asarray(grid.values).shape)}
    want = {"shape": list(shape), "ndim": nd, "size": int(np.prod(shape)), "len": shape[0], "signals": names,
            "stack": sd, "axes": list(shape), "values": list(shape)}
    if facts != want:
        recs.append({"k": "get", "sh": list(shape), "ix": [], "got": {"err": "facts"}, "msg": [facts, want], "meta": meta})
    for k in range(shape[0] + 1):
        get([I(k)], lambda: grid[k], shape, cur, what="iteration")
    for d in range(-nd, nd):
        shp, gen = grid.sliceinfo(d)
        for k in range(shape[d]):
            dd = d % nd

            def f():
                a = np.asarray(grid[gen(k)])
                if a.shape != tuple(shp):
                    raise RuntimeError("sliceinfo {} {}".format(a.shape, shp))
                return a
            get([S()] * dd + [I(k)], f, shape, cur, what="sliceinfo")
    for _ in range(nops):
        cur = contents()
        uniq = len(set(cur)) == len(cur)
        # index: at most one list on the dimensions of the signals, unless the signals are listed
        ix = []
        stacklist = None
        kk = rng.choice([nd, nd, rng.randint(0, nd)])
        for d in range(kk):
            if d == sd:
                it = rng.choice(h5items(shape[d], True, True))
                if it["t"] in "lb":
                    stacklist = it
            else:
                it = rng.choice(h5items(shape[d], False, not any(x["t"] in "lb" for x in ix)))
            ix.append(it)
        if any(x["t"] in "lb" for k, x in enumerate(ix) if k != sd):
            if stacklist is not None:
                # both: lists of the same length
                m = max(1, listlen(stacklist))
                ix[sd] = L([rng.randrange(shape[sd]) for _ in range(m)])
                for k in range(len(ix)):
                    if k != sd and ix[k]["t"] in "lb":
                        ix[k] = rng.choice([L([rng.randrange(shape[k]) for _ in range(m)])] + (
                            [B([True] * m)] if m == shape[k] else []))
        if kk == nd and rng.random() < 0.2 and nd > 1:
            j = rng.randrange(nd)
            if ix[j] == S():
                ix[j] = E
        elif kk < nd and rng.random() < 0.3:
            ix.append(E)
        stacklisted = len(ix) > sd and ix[sd]["t"] in "lb"
        if rng.random() < 0.1:
            ix.insert(rng.randint(0, len(ix)), NEW)
        if not admissible(ix):
            continue
        new = any(it["t"] == "n" for it in ix)
        index = pyindex(ix, rng.random() < 0.5)
        x = rng.random()
        # a list along a dimension of the signals alone: HDF5 datasets keep the
        # place of a list where arrays do not, and do not repeat values
        if not stacklisted and any(it["t"] in "lb" for it in ix):
            if any(it["t"] == "i" for it in ix):
                continue
            if 0.5 <= x < 0.85:
                x = 0
        if x < 0.5 or new:
            if uniq:
                get(ix, lambda: grid[index], shape, cur, what="getitem")
            continue
        before = cur
        dummy = np.zeros(shape)
        try:
            s = dummy[index].shape
            n = int(np.prod(s))
        except IndexError:
            s, n = (), 1
        got = {}
        if x < 0.85:
            # fresh values, so that the contents stay a labelling
            m = max(cur)
            if rng.random() < 0.2 or n == 0:
                w, value = [m + 1], m + 1
            else:
                w = [m + 1 + k for k in range(max(n, 1))]
                rng.shuffle(w)
                value = np.array(w, dtype=int).reshape(s)
            op = "set"
            try:
                grid[index] = value
            except Exception as e:
                got = err(e)
                got["msg"] = repr(e)[:200]
            tix = ix
        else:
            op = rng.choice(["add", "sub", "mul"] + (["div"] if floats else []))
            tix = []
            v = {"add": 3, "sub": 2, "mul": 2, "div": 1}[op]
            full = False
            if op in ("add", "sub") and rng.random() < 0.5:
                full = True
                w = [rng.randint(1, 50) for _ in cur]
                value = np.array(w).reshape(shape)
            else:
                w, value = [v], v
            tgt = grid
            try:
                if op == "add":
                    tgt += value
                elif op == "sub":
                    tgt -= value
                elif op == "mul":
                    tgt *= value
                else:
                    tgt /= value
                if tgt is not grid:
                    got = {"err": "in-place result is another object"}
            except Exception as e:
                got = err(e)
                got["msg"] = repr(e)[:200]
        got["after"] = contents()
        if max(map(abs, got["after"])) > 2**22:
            break
        recs.append({"k": "put", "op": op, "sh": list(shape), "ix": tix, "w": w, "got": got, "before": before, "meta": meta})
        # one signal as grid of its own
        if rng.random() < 0.3:
            cur = contents()
            sel = np.take(np.array(cur).reshape(shape), single, axis=sd)
            pos = [int(v) for v in sel.ravel()]
            if len(set(pos)) == len(pos):
                get([], lambda: sgrid.values, sigshape, pos, what="signal values")
                get([I(-1)], lambda: sgrid[-1], sigshape, pos, what="signal")
    # one signal: arithmetic touches this signal only
    before = contents()
    got = {}
    tgt = sgrid
    try:
        tgt += 1
        if tgt is not sgrid:
            got = {"err": "in-place result is another object"}
    except Exception as e:
        got = err(e)
        got["msg"] = repr(e)[:200]
    got["after"] = contents()
    recs.append({"k": "put", "op": "add", "sh": list(shape), "ix": [S()] * sd + [I(single)], "w": [1], "got": got,
                 "before": before, "meta": meta})
    return recs


def ramgrid(arg):
    """a grid in memory"""
    seed, n = arg
    rng = random.Random(seed)
    shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3)))
    data = np.arange(1, int(np.prod(shape)) + 1).reshape(shape)
    g = regulargrid.RegularGrid([axis.factory(list(range(k))) for k in shape], data.copy(), stackdim=rng.randrange(len(shape)))
    recs = []
    for _ in range(n):
        ix = pick(rng, shape)
        if not admissible(ix):
            continue
        try:
            got = arr(g[pyindex(ix)])
        except Exception as e:
            got = err(e)
        recs.append({"k": "get", "sh": list(shape), "ix": ix, "got": got, "what": "RegularGrid"})
    op = rng.choice(["add", "sub", "mul"])
    h, got = g, {}
    try:
        if op == "add":
            h += 2
        elif op == "sub":
            h -= 2
        else:
            h *= 2
        if h is not g:
            got = {"err": "in-place result is another object"}
    except Exception as e:
        got = err(e)
    got["after"] = [int(x) for x in np.asarray(g.data).ravel()]
    recs.append({"k": "put", "op": op, "sh": list(shape), "ix": [], "w": [2], "got": got, "before": [int(x) for x in data.ravel()]})
    return recs


def main():
    c = vlib.Check("G01")
    c.tlc("NdIndexMC", workers=4)
    rng = random.Random(c.seed)
    work = []
    shapes = [(2, 3, 2), (3, 2), (1, 2, 2), (3, 1)]
    if c.thorough:
        shapes += [(2, 2, 2, 2), (3, 3, 2), (4, 2)]
    for shape in shapes:
        # every index with an item per dimension, and shorter ones
        cand = []
        for k in range(len(shape) + 1):
            cand += [list(t) for t in itertools.product(*[items(n) for n in shape[:k]])]
        cand += [pick(rng, shape) for _ in range(20000 if c.thorough else 700)]
        cand = [ix for ix in cand if admissible(ix)]
        limit = 60000 if c.thorough else 2600
        for ax in range(len(shape)):
            sel = cand if len(cand) <= limit else rng.sample(cand, limit)
            for o in range(0, len(sel), 400):
                work.append((shape, ax, sel[o: o + 400], c.seed * 7 + o))
    recs = []

    def collect(fn, work, timeout):
        for it, r in zip(work, vlib.pmap(c, fn, work, timeout=timeout)):
            if isinstance(r, list):
                recs.extend(r)
            else:
                c.violation("noanswer", "no answer {}".format(r), it[:2])

    collect(memory, work, 200)
    collect(ingrid, [(c.seed * 1013 + i, 25) for i in range(1500 if c.thorough else 160)], 300)
    collect(ramgrid, [(c.seed * 31 + i, 30) for i in range(400 if c.thorough else 40)], 100)
    c.evaluations = len(recs)
    c.sample(recs[100])
    c.sample(recs[-40])
    for b in c.judge("NdIndexTrace", [{k: v for k, v in r.items() if k not in ("meta", "msg", "what", "axis")} for r in recs], chunk=3000):
        r = recs[b["i"]]
        c.violation("{}:{}:{}".format(b["bad"], r.get("op", "get"), r.get("what", "axis%s" % r.get("axis", ""))),
                    "{} {} index {} of shape {}: {} want {}".format(
                        r.get("what", "stack"), b["bad"], [py(i) for i in r["ix"]], r["sh"], r["got"], b["want"]),
                    {"record": r, "want": b["want"]})
    c.finish()


vlib.main(main)
