"""A01: aligned stacks."""
import glob
import itertools
import os
import random
import shutil
import tempfile

import h5py
import numpy as np

import vlib
from spectrocrunch.align import alignSimple, alignFFT
from spectrocrunch.io import nxfs
from spectrocrunch.process import utils as putils

KERNELS = {"max": alignSimple.alignMax, "min": alignSimple.alignMin, "centroid": alignSimple.alignCentroid,
           "gaussmax": alignSimple.alignGaussMax, "fft": alignFFT.alignFFT}


def shifted(raw, off2, shape):
    """raw at (p + off2/2), NaN outside"""
    out = np.full(shape, np.nan)
    acc = np.zeros(shape)
    ok = np.ones(shape, bool)
    h, w = raw.shape
    yy, xx = np.indices(shape)
    q = (2 * yy + off2[0], 2 * xx + off2[1])
    ok = (q[0] >= 0) & (q[0] <= 2 * (h - 1)) & (q[1] >= 0) & (q[1] <= 2 * (w - 1))
    n = 0
    for fy in (0, 1):
        for fx in (0, 1):
            a = np.clip((q[0] + fy) // 2, 0, h - 1)
            b = np.clip((q[1] + fx) // 2, 0, w - 1)
            acc += raw[a, b]
            n += 1
    out[ok] = acc[ok] / n
    return out


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-3, equal_nan=True)


def decode(raw, img, guesses):
    """the doubled offset at which img is raw; [] when it shows nothing of it"""
    if np.isnan(img).all():
        return []
    h, w = raw.shape
    for g in guesses:
        if same(img, shifted(raw, g, img.shape)):
            return [int(g[0]), int(g[1])]
    # whole pixels first: means of pixels can be like pixels
    for g in sorted(itertools.product(range(-2 * img.shape[0], 2 * h + 1), range(-2 * img.shape[1], 2 * w + 1)), key=lambda g: g[0] % 2 + g[1] % 2):
        if same(img, shifted(raw, g, img.shape)):
            return [int(g[0]), int(g[1])]
    return [9999, 9999]


def stacks(rng, kernel, n, h, w, nsets, dtype):
    """(stacks of images first, markers in set 0)"""
    r = np.random.default_rng(rng.getrandbits(32))
    out = [(r.permutation(n * h * w) + 1).reshape((n, h, w)).astype(dtype) for _ in range(nsets)]
    if kernel in ("centroid", "gaussmax"):
        out[0] = np.zeros((n, h, w), dtype=dtype)
        for i in range(n):
            out[0][i, rng.randrange(h), rng.randrange(w)] = 100
    if kernel == "fft":
        big = r.random((h + 8, w + 8)).astype(dtype)
        pos = [(rng.randrange(9), rng.randrange(9)) if i else (4, 4) for i in range(n)]
        pos = [(4 + (y - 4) // 2, 4 + (x - 4) // 2) for y, x in pos]
        out[0] = np.stack([big[y:y + h, x:x + w] for y, x in pos])
        return out, [[-y, -x] for y, x in pos]
    return out, None


def markers(st, kernel, roi, calc):
    mk = []
    for img in st:
        img = calc(img.astype(float)) if calc else img.astype(float)
        a = 0, 0
        if roi:
            a = roi[0][0], roi[1][0]
            img = img[roi[0][0]:roi[0][1], roi[1][0]:roi[1][1]]
        k = img.argmin() if kernel == "min" else img.argmax()
        y, x = np.unravel_index(k, img.shape)
        mk.append([int(y) + a[0], int(x) + a[1]])
    return mk


def give_roi(rng, roi, shape):
    """the same region in one of the ways it can be given"""
    out = []
    for (a, b), n in zip(roi, shape):
        if rng.random() < 0.3 and a > 0:
            a = a - n
        elif a == 0 and rng.random() < 0.3:
            a = None
        if b == n and rng.random() < 0.4:
            b = rng.choice([None, n + 3])
        elif b < n and rng.random() < 0.3:
            b = b - n
        out.append((a, b))
    return tuple(out)


def make_call(rng, kernel, st, mk0, n, h, w, nan):
    """(model call, arguments of align())"""
    pair = rng.random() < 0.35
    ref = rng.randrange(n)
    mode = rng.choice(["pad", "pad", "crop", "crop", "both", "none", "none"])
    kw = {"pad": mode in ("pad", "both"), "crop": mode in ("crop", "both")}
    kw["refimageindex"] = None if pair else rng.choice([ref, ref - n])
    if pair:
        kw["onraw"] = rng.random() < 0.5
        if kernel in ("fft", "gaussmax"):
            kw["onraw"] = True
    roi = calc = None
    if kernel in ("max", "min"):
        if rng.random() < 0.4:
            roi = []
            for m in (h, w):
                a = rng.randrange(m)
                roi.append([a, rng.randint(a + 1, m)])
            kw["roi"] = give_roi(rng, roi, (h, w))
        if rng.random() < 0.4:
            calc = rng.choice([lambda img: -img, lambda img: 2 * img + 1, lambda img: 1000 - img])
            kw["rawcalc"] = calc
    mk = mk0 or markers(st[0], kernel, roi, calc)
    c = {"op": "align", "pair": pair, "ref": ref + 1, "pad": kw["pad"], "crop": kw["crop"], "fit": bool(roi or calc), "nan": nan,
         "mk": mk, "roi": [roi[0][1] - roi[0][0], roi[1][1] - roi[1][0]] if roi else [h, w]}
    return c, kw


def observe(o, out, st, im):
    """what came out of a call; out: stacks with images first"""
    cof = o.absolute_cofs()
    n = im["n"]
    rec = {}
    c2 = []
    for i in range(n):
        m = np.asarray(cof[i], dtype=float)
        if m.shape == (2,):
            m = np.array([[1, 0, m[0]], [0, 1, m[1]], [0, 0, 1]])
        d = 2 * m[:2, 2]
        if not np.allclose(m[:2, :2], np.eye(2)) or not np.allclose(d, np.round(d), atol=1e-3):
            c2.append([-7777, int(np.clip(round(float(d[0])), -9999, 9999))])
        else:
            c2.append([int(round(float(d[1]))), int(round(float(d[0])))])
    rec["cof"] = c2
    rec["shape"] = [list(s.shape[1:]) for s in out]
    lo = [-o.extend[0][0], -o.extend[1][0]]
    off = []
    # sets with all pixels different first: they settle where images are
    for raw, s in sorted(zip(st, out), key=lambda x: len(np.unique(x[0])) < x[0].size):
        row = []
        for i in range(n):
            g = [off[0][i]] if off and len(off[0][i]) == 2 else []
            g += [[c2[i][0] + 2 * lo[0], c2[i][1] + 2 * lo[1]], c2[i]]
            row.append(decode(raw[i].astype(float), np.asarray(s[i], dtype=float), g) if s.shape[0] == n else [8888, 8888])
        off.append(row)
    rec["off"] = off
    return rec


def history(it):
    seed = it
    rng = random.Random(seed)
    kernel = rng.choice(["max"] * 5 + ["min"] * 4 + ["centroid", "gaussmax", "fft"])
    n = rng.choice([1, 2, 2, 3, 3, 4])
    h, w = rng.randint(2, 6), rng.randint(2, 6)
    if rng.random() < 0.1 and kernel in ("max", "min"):
        h, w = rng.choice([(1, w), (h, 1)])
    if kernel == "fft":
        h, w = rng.randint(14, 20), rng.randint(14, 20)
    if kernel == "gaussmax":
        h, w = h + 3, w + 3
    nsets = rng.choice([1, 2, 3])
    sd = rng.choice([0, 1, 2])
    dtype = rng.choice([np.float32, np.float64]) if kernel == "fft" else rng.choice([np.float32, np.float64, np.int16, np.uint16])
    st, mk0 = stacks(rng, kernel, n, h, w, nsets, dtype)
    im = {"n": n, "h": h, "w": w}
    dtout = (np.float32(1) * np.dtype(dtype).type(1)).dtype
    src = [np.moveaxis(s, 0, sd).copy() for s in st]
    dest = rng.choice(["array", "h5", "h5", "edf"])
    source = rng.choice(["array", "h5", "h5ext"] + ([] if dtype == np.uint16 else []))
    over = rng.random() < 0.5 or dest == "array"
    names = ["a", "ab", "b"][:nsets]
    ext = ""
    handle = None
    if source != "array":
        with h5py.File("in.h5", "w") as f:
            for m, s in zip(names, src):
                f[m] = s
        if source == "h5ext":
            handle = h5py.File("in.h5", "r")
            a, b = [handle[m] for m in names], None
        else:
            a, b = rng.choice(["in.h5", os.path.abspath("in.h5")]), names
    else:
        a, b = [s.copy() for s in src], None
    if dest == "array":
        d, dl = [np.zeros(1, dtype=dtout) for _ in src], None
    elif dest == "h5":
        ext = rng.choice(["", "_al"])
        d, dl = "out.h5", rng.choice([names, ["/" + m for m in names]])
    else:
        ext = ".edf"
        d, dl = "out", names
    cval = rng.choice([np.nan, np.nan, 0]) if kernel in ("max",) else np.nan
    o = KERNELS[kernel](a, b, d, dl, ext, stackdim=sd, overwrite=over, cval=cval)
    if kernel == "fft":
        o.sampling = 1
    recs = []
    used = []
    old = {}
    last = None
    for k in range(rng.choice([1, 2, 3])):
        if last is not None and rng.random() < 0.3:
            c, kw = last, {"redo": True}
        else:
            c, kw = make_call(rng, kernel, st, mk0, n, h, w, cval is np.nan)
            if c["pair"] and c["fit"]:
                kw["onraw"] = True
        rec = {"im": im, "call": c, "kw": repr(kw), "how": [kernel, dest, over, ext, source, sd, str(np.dtype(dtype)), repr(cval)],
               "dest": dest, "over": over, "used": [list(u) for u in used]}
        recs.append(rec)
        try:
            o.align(0, **kw)
            place, out = collect(o, dest, d, names, ext, sd, n, old)
        except Exception as e:
            rec["err"] = repr(e)[:300]
            break
        if cval == 0:
            # raw data has no zeros
            out = [np.where(s == 0, np.nan, s) for s in out]
        rec.update(observe(o, out, st, im))
        shape = [h, w]
        axin = [[(k2 + 1) ** 2 for k2 in range(m)] for m in shape]
        if 1 not in shape:
            axes = [np.array(x, dtype=float) for x in axin]
            axes.insert(sd, np.arange(n, dtype=float))
            new = o.transform_axes(axes)
            if list(new[sd]) != list(axes[sd]):
                rec["err"] = "the stack axis changed"
            new = [x for j, x in enumerate(new) if j != sd]
            rec["axin"] = axin
            rec["axes"] = [[int(v) for v in x] for x in new]
        rec["place"] = place
        rec["kept"] = all(np.array_equal(v, w2, equal_nan=True) for v, w2 in kept(old, dest, place))
        for i2, s in enumerate(src):
            if source == "array" and not np.array_equal(a[i2], s):
                rec["kept"] = False
        for p, s in enumerate(out):
            old[(place, p)] = read_place(dest, d, place, names, ext, p, sd, n)
        if place == len(used):
            used.append(rec["shape"][0])
        elif place < len(used):
            used[place] = rec["shape"][0]
        last = c
    if handle:
        handle.close()
    if dest == "h5":
        o.dest.handle.close()
    return recs


def read_place(dest, d, place, names, ext, p, sd, n):
    if dest == "array":
        return np.moveaxis(d[p].copy(), sd, 0)
    if dest == "h5":
        pre = "" if place == 0 else "entry{}/".format(place)
        with h5py.File("out.h5", "r") as f:
            return np.moveaxis(f[pre + names[p] + ext][()], sd, 0)
    import fabio
    dr = "out" if place == 0 else "out_{}".format(place)
    files = sorted(glob.glob(os.path.join(dr, names[p] + "_[0-9]*" + ext)))
    if len(files) != n:
        raise RuntimeError("{} files for {} images".format(len(files), n))
    return np.stack([fabio.open(f).data for f in files])


def collect(o, dest, d, names, ext, sd, n, old):
    place = 0
    if dest == "h5":
        o.dest.handle.flush()
        where = [ds.name for ds in o.dest.datasets]
        head = os.path.dirname(where[0])
        if [os.path.basename(x) for x in where] != [m + ext for m in names] or any(os.path.dirname(x) != head for x in where):
            raise RuntimeError("wrote to {}".format(where))
        place = 0 if head == "/" else int(head[len("/entry"):])
    elif dest == "edf":
        head = os.path.basename(o.dest.destdir)
        place = 0 if head == "out" else int(head[len("out_"):])
    if dest == "array":
        return 0, [np.moveaxis(x, sd, 0) for x in d]
    return place, [read_place(dest, d, place, names, ext, p, sd, n) for p in range(len(names))]


def kept(old, dest, place):
    if dest == "array":
        return
    for (pl, p), v in old.items():
        if pl != place:
            yield v, read_again(dest, pl, p, v)


NAMES = ["a", "ab", "b"]


def read_again(dest, pl, p, v):
    for ext in ("", "_al", ".edf"):
        try:
            for sd in (0, 1, 2):
                x = read_place(dest, None, pl, NAMES, ext, p, sd, v.shape[0])
                if x.shape == v.shape and np.array_equal(x, v, equal_nan=True):
                    return x
        except (KeyError, RuntimeError, FileNotFoundError, ValueError):
            continue
    return np.zeros(0)


# ------------------------------------------------------------------- task
def task(it):
    """the align task on a result with two groups"""
    rng = random.Random(it)
    kernel = rng.choice(["max", "max", "min", "centroid"])
    n, h, w = rng.choice([2, 3, 4, 5]), rng.randint(2, 5), rng.randint(2, 5)
    sd = rng.choice([None, 0, 1, 2])
    sd0 = sd or 0
    st, _ = stacks(rng, kernel, n, h, w, 3, np.float32)
    groups = ["detector00", "detector01"]
    sigs = [("detector00", "a"), ("detector00", "ab"), ("detector01", "a")]
    # without reference: the default signal, which is the one added last
    pick = rng.choice([None, "a", "ab", "detector00/a", "detector01/a", "detector00/ab"])
    order = [0, 1, 2]
    refset = {None: 1, "a": 2, "ab": 1, "detector00/a": 0, "detector01/a": 2, "detector00/ab": 1}[pick]
    st[0], st[refset] = st[refset], st[0]
    dims = [h, w]
    dims.insert(sd0, n)
    axin = [[(k + 1) ** 2 for k in range(m)] for m in dims]
    root = nxfs.factory(os.path.abspath("t.h5"))
    entry = root.nxentry(name="entry")
    proc = entry.nxprocess("in", parameters={"a": 1})
    pos = proc.positioners()
    for m, x in zip(["y0", "y1", "y2"], axin):
        pos.add_axis(m, np.array(x, dtype=float))
    for g in groups:
        d = proc.results.nxdata(name=g)
        for (g2, m), s in zip(sigs, st):
            if g2 == g:
                d.add_signal(name=m, data=np.moveaxis(s, 0, sd0).copy())
        d.set_axes("y0", "y1", "y2")
    proc.mark_default() if hasattr(proc, "mark_default") else None
    form = rng.choice(["default", "int", "int", "neg", "first", "last", "middle", "frac", "pair"])
    ref = rng.randrange(n)
    par = {"method": "align", "alignmethod": kernel, "name": "al", "dependencies": [proc]}
    if pick:
        par["reference"] = pick
    else:
        par["reference"] = None
    if sd is not None:
        par["stackdim"] = sd
    if form == "default":
        ref = n - 1
    else:
        if form == "frac":
            f = rng.choice([0.1, 0.25, 0.3, 0.5, 0.6, 0.75])
            ref = int(round(f * n))
            if ref >= n:
                f, ref = 0.1, int(round(0.1 * n))
        ref = {"first": 0, "last": n - 1, "middle": n // 2}.get(form, ref)
        par["refimageindex"] = {"int": ref, "neg": ref - n, "pair": None, "frac": f if form == "frac" else 0}.get(form, form)
    crop = rng.random() < 0.5
    if crop or rng.random() < 0.5:
        par["crop"] = crop
    roi = None
    calc = None
    if kernel != "centroid" and rng.random() < 0.4:
        roi = []
        for m in (h, w):
            a = rng.randrange(m)
            roi.append([a, rng.randint(a + 1, m)])
        par["roi"] = give_roi(rng, roi, (h, w))
    if kernel != "centroid" and rng.random() < 0.4:
        calc = lambda img: -img + 3
        par["alignmultiplier"], par["alignoffset"] = -1, rng.choice([3, None])
    mk = markers(st[refset], kernel, roi, calc)
    c = {"op": "align", "pair": form == "pair", "ref": ref + 1, "pad": not crop, "crop": crop, "fit": True, "nan": True, "mk": mk,
         "roi": [roi[0][1] - roi[0][0], roi[1][1] - roi[1][0]] if roi else [h, w]}
    im = {"n": n, "h": h, "w": w}
    rec = {"im": im, "call": c, "kw": repr(par), "how": ["task", kernel, form, sd, pick], "dest": "array", "over": True, "used": []}
    try:
        t = putils.create_task(**par)
        t.run()
        if not t.done:
            raise RuntimeError("the task did not finish")
        out = t.output
        imgs = []
        cof = None
        where = out.results.path
        with h5py.File("t.h5", "r") as f:
            res = f[where]
            cof = res["change-of-frame"][()]
            found = sorted((g, m) for g in groups for m in res[g] if m in ("a", "ab"))
            if found != sorted(sigs):
                raise RuntimeError("signals {}".format(found))
            axes = None
            for g, m in sigs:
                imgs.append(np.moveaxis(res[g][m][()], sd0, 0))
                names = [str(x) for x in res[g].attrs["axes"]]
                ax = [[int(round(float(v))) for v in res[g][x][()]] for x in names]
                if names != ["y0", "y1", "y2"] or (axes is not None and ax != axes):
                    raise RuntimeError("axes {} {}".format(names, ax))
                axes = ax
        if axes[sd0] != axin[sd0]:
            raise RuntimeError("the stack axis changed")

        class O:
            # images start where the first group says: not known here
            extend = ((0, 0), (0, 0))

            def absolute_cofs(self):
                return cof
        rec.update(observe(O(), imgs, st, im))
        rec["axin"] = [x for j, x in enumerate(axin) if j != sd0]
        rec["axes"] = [x for j, x in enumerate(axes) if j != sd0]
        rec["place"], rec["kept"] = 0, True
    except Exception as e:
        rec["err"] = repr(e)[:300]
    return [rec]


def run(it):
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        return task(it[1]) if it[0] == "task" else history(it[1])
    finally:
        os.chdir(home)
        shutil.rmtree(d)


def main():
    c = vlib.Check("A01")
    c.tlc("AlignMC", cfg="AlignMC" if c.thorough else "AlignMCquick", workers=8)
    items = [("object", c.seed * 3331 + i) for i in range(8000 if c.thorough else 320)]
    items += [("task", c.seed * 3331 + i) for i in range(1500 if c.thorough else 50)]
    recs = []
    for it, r in zip(items, vlib.pmap(c, run, items, timeout=200)):
        if isinstance(r, list):
            recs += r
        else:
            c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = len(recs)
    for r in recs[:200:40]:
        c.sample([r["how"], r["kw"]])
    modes = {}
    for r in recs:
        k = r["how"][0] + (" pad" if r["call"]["pad"] else " crop" if r["call"]["crop"] else " plain")
        modes[k] = modes.get(k, 0) + 1
    c.notes.append("calls: {}".format(modes))
    for b in c.judge("AlignTrace", [{k: v for k, v in r.items() if k not in ("kw", "how")} for r in recs], chunk=150):
        r = recs[b["i"]]
        c.violation("{}:{}".format(b["bad"], r["how"][0]), "{} {}: {} {}".format(r["how"], r["kw"], b["bad"], r.get("err", "")),
                    {"record": r, "want": b["want"]})
    c.finish()


vlib.main(main)
