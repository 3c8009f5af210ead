"""I01: an XIA data set reads as one corrected array."""
import os
import random
import shutil
from fractions import Fraction

import numpy as np
import fabio

import vlib
from spectrocrunch.io import xiaedf
from gridindex import NONE, I, S, L, B, E, pyindex, items, listlen, admissible, pick

FULL = S()


def write(fn, data, header=None):
    fabio.edfimage.EdfImage(data=data, header=header or {}).write(fn)


def dataset(rng, d):
    """a data set, and its files below the directory d"""
    nmap, nrow, ncol, nchan = rng.choice([(1, 2, 2, 3), (2, 2, 2, 2), (2, 1, 3, 2), (3, 2, 1, 2), (2, 3, 2, 2), (1, 1, 1, 2), (2, 2, 3, 1)])
    shape = [nmap, nrow, ncol, nchan]
    ndet = rng.choice([1, 2, 2, 3, 3, 4])
    nums = sorted(rng.sample([0, 1, 2, 3, 5, 11], ndet))
    labels = ["xia%02d" % n for n in nums]
    extra = rng.random() < 0.2
    order = list(range(1, ndet + 1))
    plain = rng.random() < 0.4
    if plain:
        # no header: the columns are the detectors 0, 1, ...
        nums = list(range(ndet))
        labels = ["xia%02d" % n for n in nums]
    elif rng.random() < 0.5:
        rng.shuffle(order)
    xdet = [None] * ndet
    for k, o in enumerate(order):
        xdet[o - 1] = nums[k]
    det = list(order)
    if extra:
        labels.append("xiaS0")
        det.append(0)
    nl = len(labels)
    ctrs = rng.sample([("arr_flux", ""), ("arr_i0", ""), ("zap_p1", ""), ("mosca_t", "")] + [("xmap_x%s" % n[3:], n) for n in labels if n != "xiaS0"]
                      + ([("xmap_y_sum", "xiaS0")] if extra else []), rng.randint(1, 4))
    ctrs = [(("xmap_x1_" + det_[3:]) if det_ and det_ != "xiaS0" else name, det_) for name, det_ in ctrs]
    ctrs.sort()
    ri = rng.randint
    data = np.array([ri(0, 9) for _ in range(int(np.prod(shape)) * nl)], dtype=np.int32).reshape(shape + [nl])
    good = [1000, 1500, 2000, 3000, 4000]
    stats = np.array([ri(0, 99) for _ in range(nmap * nrow * ncol * 6 * ndet)], dtype=np.int32).reshape([nmap, nrow, ncol, 6, ndet])
    for idx in np.ndindex(nmap, nrow, ncol):
        for k in range(ndet):
            x = rng.random()
            i, o = rng.choice(good), rng.choice(good)
            if x < 0.6:
                i, o = max(i, o), min(i, o)
            elif x < 0.75:
                i = rng.choice([0, 500, 999, 1000])
                o = rng.choice([0, 500, 250, 1000])
            elif x < 0.85:
                o = 0
            stats[idx + (2, k)] = i
            stats[idx + (3, k)] = o
    ctr = np.array([rng.choice([0, 1, 2, 3, 4]) for _ in range(nmap * nrow * ncol * len(ctrs))], dtype=np.int32).reshape([nmap, nrow, ncol, len(ctrs)])
    maps = sorted(rng.sample([0, 1, 2, 3, 10, 100, 9999, 10000], nmap)) if rng.random() < 0.5 else list(range(nmap))
    rows = sorted(rng.sample([0, 1, 2, 3, 10, 100, 9999, 10000], nrow)) if rng.random() < 0.5 else list(range(nrow))
    radix = rng.choice(["s", "s_a", "s1_2", "S_xia", "s_0000"])
    gone = []
    if rng.random() < 0.15 and nmap > 1 and nrow > 1:
        gone = [[rng.randint(1, nmap - 1), nrow - 1]]
    files = []
    ctrfiles = {}
    for m in range(nmap):
        for r in range(nrow):
            for k, lab in enumerate(labels):
                if [m, r] in gone and k == 0:
                    continue
                fn = os.path.join(d, "%s_%s_%04d_0000_%04d.edf" % (radix, lab, maps[m], rows[r]))
                write(fn, data[m, r, :, :, k], {"xdata": 1})
                files.append(fn)
            fn = os.path.join(d, "%s_xiast_%04d_0000_%04d.edf" % (radix, maps[m], rows[r]))
            tab = np.concatenate([stats[m, r, :, :, k] for k in range(ndet)], axis=1)
            write(fn, tab, {} if plain else {"xdata": 3, "xdet": " ".join(map(str, xdet)), "xnb": ndet})
            files.append(fn)
        for k, (name, _) in enumerate(ctrs):
            fn = os.path.join(d, "%s_%s_%04d_0000.edf" % (radix, name, maps[m]))
            write(fn, ctr[m, :, :, k])
            files.append(fn)
    # other files in the same place
    if rng.random() < 0.5:
        other = rng.choice([radix + "b", radix + "_b", "a" + radix, radix + "_1"])
        for lab in labels + ["xiast"]:
            write(os.path.join(d, "%s_%s_%04d_0000_%04d.edf" % (other, lab, maps[0], rows[0])), np.full((1, 1), 77, dtype=np.int32))
        write(os.path.join(d, "%s_%s_%04d_0000.edf" % (other, ctrs[0][0], maps[0])), np.full((1, 1), 77, dtype=np.int32))
        open(os.path.join(d, radix + ".txt"), "w").close()
    m = {"shape": shape, "labels": labels, "det": det, "nstatdet": ndet, "data": data.ravel().tolist(),
         "stats": stats.ravel().tolist(), "ctrs": ctr.ravel().tolist(), "cdet": [x[1] for x in ctrs], "gone": gone}
    h = {"maps": maps, "rows": rows, "radix": radix, "ctrs": [x[0] for x in ctrs], "files": files, "nums": nums}
    return m, h


def spell(rng, label):
    n = label[3:]
    out = [label, n]
    if n.isdigit():
        out += [int(n), str(int(n))]
    return rng.choice(out)


def view(rng, d, m, h):
    """an object reading (a part of) the data set"""
    nmap, nrow = m["shape"][:2]
    gone = m["gone"]
    files = list(h["files"])
    rng.shuffle(files)
    kind = rng.choice(["image", "image", "stack", "stack", "stack", "line"])
    radix, maps, rows = h["radix"], h["maps"], h["rows"]
    named = lambda mm, ff: [f for f in ff if xiaedf.xianameparser.parse(f).mapnum == maps[mm]]
    if kind == "line":
        a, b = rng.randrange(nmap), rng.randrange(nrow)
        if [a, b] in gone:
            b = 0
        v = {"k": "line", "m": a, "r": b}
        if rng.random() < 0.5:
            return v, xiaedf.xialine_number(d, radix, maps[a], rows[b])
        sel = [f for f in named(a, files) if xiaedf.xianameparser.parse(f).linenum == rows[b]]
        sel.sort()
        return v, xiaedf.xialine_files(sel)
    if kind == "image":
        a = rng.randrange(nmap)
        v = {"k": "image", "m": a, "rows": []}
        how = rng.choice(["number", "numbers", "files"])
        if any(g[0] == a for g in gone):
            how = "number"
        if how == "number":
            return v, xiaedf.xiaimage_number(d, radix, maps[a])
        if how == "numbers":
            sel = list(range(nrow))
            if rng.random() < 0.4:
                sel = rng.sample(sel, rng.randint(1, nrow))
            v["rows"] = sel
            return v, xiaedf.xiaimage_linenumbers(d, radix, maps[a], [rows[k] for k in sel])
        return v, xiaedf.xiaimage_files(named(a, files))
    v = {"k": "stack", "maps": []}
    how = rng.choice(["radix", "files", "numbers"])
    if gone and how == "files":
        how = "radix"
    if how == "radix":
        return v, xiaedf.xiastack_radix(*((d, radix) if rng.random() < 0.5 else ([d], [radix])))
    if how == "files":
        return v, xiaedf.xiastack_files(files)
    sel = list(range(nmap))
    if rng.random() < 0.5:
        sel = sorted(set([0] + rng.sample(sel, rng.randint(1, nmap)))) if gone else sorted(rng.sample(sel, rng.randint(1, nmap)))
    v["maps"] = sel
    nums = [maps[k] for k in sel]
    return v, xiaedf.xiastack_mapnumbers([d], [radix], nums if rng.random() < 0.5 else [nums])


def result(a):
    a = np.asarray(a)
    v = []
    for x in a.ravel().tolist():
        f = Fraction(x).limit_denominator(100000)
        if abs(float(f) - x) > 1e-9 * max(1, abs(x)):
            f = Fraction(-99999)
        v.append([f.numerator, f.denominator])
    return {"sh": list(a.shape), "v": v}


def shape_of(m, v):
    nmap, nrow, ncol, nchan = m["shape"]
    if v["k"] == "line":
        return [ncol, nchan]
    if v["k"] == "image":
        n = len(v["rows"]) or nrow - sum(1 for g in m["gone"] if g[0] == v["m"])
        return [n, ncol, nchan]
    sel = [x for x in (v["maps"] or range(nmap)) if not any(g[0] == x for g in m["gone"])]
    return [len(sel), nrow, ncol, nchan]


def parts(m, v):
    """numbers of the maps of a stack, of the rows of an image"""
    if v["k"] == "stack":
        return [x for x in (v["maps"] or range(m["shape"][0])) if not any(g[0] == x for g in m["gone"])]
    return v["rows"] or [x for x in range(m["shape"][1]) if [v["m"], x] not in m["gone"]]


def used(m, c):
    return [x for x in m["labels"] if x not in c["skip"] and (not c["keep"] or x in c["keep"])]


def usedctrs(m, c):
    return [x for x in m["cdet"] if not x or (x not in c["skip"] and (not c["keep"] or x in c["keep"]))]


def norm_allowed(m, v):
    return v["k"] != "line" and not m["gone"] and (v["k"] == "stack" or not v["rows"] or v["rows"] == list(range(m["shape"][1])))


def place(v, path):
    if v["k"] == "line":
        return xiaedf.xialine_number(path, "c", 3, 4)
    if v["k"] == "image":
        return xiaedf.xiaimage_number(path, "c", 3)
    return xiaedf.xiastack_radix(path, "c")


def copy(rng, m, h, c, v, obj, path, read, hist):
    """write what is read at another place: the copy reads the same"""
    u = used(m, c)
    labels = ["xiaS1"] if c["sum"] else u
    numeric = [x for x in labels if x[3:].isdigit()]
    stats = not c["sum"] and len(numeric) > 0 and rng.random() < 0.6
    ctrs = norm_allowed(m, v) and len(usedctrs(m, c)) > 0 and rng.random() < 0.6
    kwargs = {}
    given = True
    if not c["sum"] and len(numeric) == len(labels) and rng.random() < 0.3:
        given = False  # detectors are numbered
    if given:
        kwargs["xialabels"] = list(labels)
    direct = rng.random() < 0.6
    names = [n for n, x in zip(h["ctrs"], m["cdet"]) if not x or (x not in c["skip"] and (not c["keep"] or x in c["keep"]))]
    out = place(v, path)
    hist.append("copy %s stats %s ctrs %s labels %s" % ("object" if direct else "arrays", stats, ctrs, kwargs.get("xialabels")))
    try:
        if rng.random() < 0.2:
            # what is there is kept, unless asked otherwise
            out.save(obj.data[...] + 1000, **kwargs)
            out = place(v, path)
            out.overwrite(True)
        if direct:
            if stats or rng.random() < 0.5:
                kwargs["stats"] = stats
            if v["k"] != "line" and (ctrs or rng.random() < 0.5):
                kwargs["ctrs"] = ctrs
            out.save(obj, **kwargs)
        else:
            if stats:
                kwargs["stats"] = obj.allstats
            if ctrs:
                kwargs["ctrs"] = obj.counters[..., 0]
                kwargs["ctrnames"] = names
            out.save(obj.data, **kwargs)
        if rng.random() < 0.2:
            # not overwritten
            kw = dict(kwargs)
            for k in ("stats", "ctrs", "ctrnames"):
                kw.pop(k, None)
            out.overwrite(False)
            out.save(obj.data[...] + 2000, **kw)
    except Exception as e:
        out = e
    if not isinstance(out, Exception) and rng.random() < 0.7:
        out = place(v, path)

    def get(what):
        if isinstance(out, Exception):
            raise out
        if what == "data" and given and out.xialabels != labels:
            raise RuntimeError("labels {}".format(out.xialabels))
        if what == "stats" and not (out.has_stats if v["k"] == "line" else out.has_stats):
            raise RuntimeError("no statistics")
        return getattr(out, "allstats" if what == "stats" else what)

    read("data", [], lambda: get("data"))
    if stats:
        cc = c["short"]
        c["short"] = False
        read("stats", [], lambda: get("stats"))
        c["short"] = cc
    elif out.__class__ is not Exception and not isinstance(out, Exception):
        if any("xiast" in f for _, _, ff in os.walk(path) for f in ff):
            read("stats", [], lambda: 1 / 0)
    if ctrs:
        read("counters", [], lambda: get("counters"))
        if not isinstance(out, Exception) and out.counternames() != names:
            out = RuntimeError("counters {}".format(out.counternames()))
            read("counters", [], lambda: get("counters"))


def session(arg):
    seed, nops = arg
    rng = random.Random(seed)
    d = os.path.join(os.getcwd(), "xia")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    m, h = dataset(rng, d)
    reads = []
    nviews = rng.randint(1, 3)
    ncopy = 0
    for _ in range(nviews):
        v, obj = view(rng, d, m, h)
        nmap = m["shape"][0]
        c = {"skip": [], "keep": [], "dt": False, "sum": False, "norm": {"k": "none", "n": 0, "f": 1, "l": [0] * nmap}, "short": True}
        mode = ["data"]
        hist = []
        tv = v

        def read(what, ix, f):
            rec = {"c": {k: (dict(x, l=list(x["l"])) if k == "norm" else x) for k, x in c.items()}, "v": dict(tv), "ix": ix, "what": what}
            try:
                rec["got"] = result(f())
            except Exception as e:
                rec["err"] = repr(e)[:300]
            rec["hist"] = [type(obj).__name__] + hist[-8:]
            reads.append(rec)

        for _ in range(nops):
            x = rng.random()
            if x < 0.45:
                s = rng.choice(["dt", "sum", "norm", "skip", "keep", "short", "mode", "mode"])
                if s == "dt":
                    c["dt"] = rng.random() < 0.6
                    obj.dtcor(c["dt"])
                elif s == "sum":
                    c["sum"] = rng.random() < 0.6
                    obj.detectorsum(c["sum"])
                elif s == "short":
                    c["short"] = rng.random() < 0.5
                    obj.onlyicrocr(c["short"])
                elif s == "mode":
                    mode = rng.choice([["data"], ["data"], ["stats"], ["counters"], ["data", "stats"], ["data", "stats", "counters"]])
                    if not norm_allowed(m, v) or not usedctrs(m, c):
                        mode = [w for w in mode if w != "counters"] or ["data"]
                    {"data": obj.onlydata, "stats": obj.onlystats, "counters": obj.onlycounters, "datastats": obj.dataandstats,
                     "datastatscounters": obj.dataall}["".join(mode)]()
                elif s in ("skip", "keep"):
                    sel = rng.sample(m["labels"], rng.randint(0, len(m["labels"])))
                    old = c[s]
                    c[s] = sel
                    if not used(m, c) or ("counters" in mode and not usedctrs(m, c)):
                        c[s] = old
                        continue
                    arg_ = [spell(rng, x) for x in sel]
                    hist.append(s + str(arg_))
                    if s == "skip":
                        obj.exclude_detectors = arg_
                    else:
                        obj.include_detectors = arg_
                    continue
                elif s == "norm" and norm_allowed(m, v):
                    n = c["norm"]
                    n["k"] = rng.choice(["none", "num", "ctr", "ctr", "missing"])
                    n["f"] = 1
                    n["l"] = [0] * nmap
                    cand = [k for k, x in enumerate(h["ctrs"]) if not m["cdet"][k]]
                    if n["k"] == "ctr" and not cand:
                        n["k"] = "num"
                    n["n"] = {"none": 0, "num": rng.choice([2, 3, 4]), "ctr": rng.choice(cand) + 1 if cand else 0, "missing": 0}[n["k"]]
                    what = {"none": None, "num": n["n"], "ctr": n["k"] == "ctr" and h["ctrs"][n["n"] - 1], "missing": "arr_nothing"}[n["k"]]
                    if rng.random() < 0.5:
                        n["f"] = rng.choice([2, 3])
                        obj.globalnorm(what, func=lambda y, f=n["f"]: y * f)
                    else:
                        obj.globalnorm(what)
                hist.append("%s %s" % (s, c["norm"] if s == "norm" else mode if s == "mode" else c[s]))
                continue
            shp = shape_of(m, v)
            nu = len(used(m, c))
            if x < 0.6:
                # whole
                what = rng.choice(["data", "stats", "counters"])
                if what == "counters" and not (norm_allowed(m, v) and usedctrs(m, c)):
                    what = "data"
                if what == "stats" and rng.random() < 0.5:
                    cc = c["short"]
                    c["short"] = False
                    read("stats", [], lambda: obj.allstats)
                    c["short"] = cc
                else:
                    read(what, [], lambda: getattr(obj, what))
                continue
            if x < 0.64:
                # a reading that fails changes nothing
                bad = tuple([slice(None)] * (len(shp) - 1) + [shp[-1] + 5]) if rng.random() < 0.5 else (shp[0] + 3,)
                try:
                    obj[bad]
                    hist.append("no error")
                except Exception as e:
                    hist.append("error %r" % (bad,))
                continue
            if x < 0.7 and not m["gone"]:
                ncopy += 1
                copy(rng, m, h, c, v, obj, os.path.join(d, "copy%d" % ncopy), read, hist)
                continue
            full = shp + [nu]
            for _ in range(50):
                ix = pick(rng, full, new=False, lists=rng.random() < 0.5)
                if not admissible(ix):
                    continue
                if c["sum"]:
                    ex = expand(ix, len(full))
                    if ex is None or ex[-1]["t"] != "s":
                        continue
                if valid(ix, full):
                    break
            else:
                ix = []
            hist.append("read %s" % (pyindex(ix),))
            target = obj
            if v["k"] != "line" and rng.random() < 0.25 and not (v["k"] == "image" and c["norm"]["k"] != "none"):
                # a part on its own: an image of a stack, a line of an image
                part = rng.randrange(shp[0])
                k = parts(m, v)[part]
                pv = {"k": "image", "m": k, "rows": []} if v["k"] == "stack" else {"k": "line", "m": v["m"], "r": k}
                if not (v["k"] == "image" and "counters" in mode):
                    target = obj.getitems()[part] if rng.random() < 0.5 else list(obj)[part]
                    tv = pv
                    hist[-1] = "part " + hist[-1]
                    ix = pick(rng, full[1:], new=False, lists=rng.random() < 0.5)
                    if c["sum"] or not admissible(ix) or not valid(ix, full[1:]):
                        ix = []
            index = pyindex(ix, rng.random() < 0.5)
            try:
                got = target[index]
                got = got if isinstance(got, tuple) else (got,)
                if len(got) != len(mode):
                    raise RuntimeError("%d results for %s" % (len(got), mode))
            except Exception as e:
                got = [e] * len(mode)

            def val(g):
                if isinstance(g, Exception):
                    raise g
                return g
            for w, g in zip(mode, got):
                read(w, ix, lambda g=g: val(g))
            tv = v
    return {"t": "data", "d": m, "reads": reads, "seed": seed}


def expand(ix, nd):
    n = sum(1 for it in ix if it["t"] != "e")
    if n > nd:
        return None
    if E in ix:
        j = ix.index(E)
        return ix[:j] + [FULL] * (nd - n) + ix[j + 1:]
    return ix + [FULL] * (nd - n)


def valid(ix, shape):
    for it, n in zip(expand(ix, len(shape)) or [], shape):
        if it["t"] == "l" and any(not -n <= x < n for x in it["v"]):
            return False
    lens = {listlen(it) for it in ix if it["t"] in "lb"}
    if len(lens) > 1:
        return False  # repetition of lists
    try:
        np.zeros(shape)[pyindex(ix)]
    except IndexError:
        return False
    return True


def names(arg):
    """sorting and grouping of file names"""
    seed = arg
    rng = random.Random(seed)
    rad = sorted(["a", "a_b", "b", "a1_2_c", "ab", "a_xia"])
    labs = sorted(["xia00", "xia01", "xia10", "xiaS0", "xiast", "arr_1", "xmap_x1_00", "zap_z", "PUZ_arr_q"])
    files = []
    for k in range(rng.randint(1, 4)):
        r = rng.randrange(len(rad))
        for mm in rng.sample([0, 1, 2, 9, 10, 99, 100, 9999, 10000, 123456], rng.randint(1, 4)):
            for l in rng.sample([-1, 0, 1, 9, 10, 9999, 10000], rng.randint(1, 4)):
                for j in rng.sample(range(len(labs)), 4):
                    if (l == -1) == labs[j].startswith("xia"):
                        continue
                    files.append([r, mm, l, j])
    files = [list(t) for t in {tuple(f) for f in files}]
    paths = ["/x/" + xiaedf.xiafilename(rad[r], mm, l, labs[j]) for r, mm, l, j in files]
    rng.shuffle(paths)
    rec = {"t": "names", "files": files, "got": []}
    try:
        for r, v0 in xiaedf.xiagroup(list(paths)).items():
            for mm, v1 in v0.items():
                for l, v2 in v1.items():
                    for f in v2:
                        o = xiaedf.xianameparser.parse(f)
                        if (o.radix, o.mapnum, o.linenum) != (r, mm, l):
                            raise RuntimeError("%s below %s" % (f, (r, mm, l)))
                        rec["got"].append([rad.index(o.radix), o.mapnum, o.linenum, labs.index(o.label)])
    except Exception as e:
        rec["err"] = repr(e)[:300]
    return rec


def main():
    c = vlib.Check("I01")
    c.tlc("XiaMC", workers=4)
    recs = []
    work = [(c.seed * 9173 + i, 30) for i in range(2500 if c.thorough else 180)]
    for fn, its in ((session, work), (names, [c.seed * 11 + i for i in range(600 if c.thorough else 60)])):
        for it, r in zip(its, vlib.pmap(c, fn, its, timeout=200)):
            if isinstance(r, dict):
                recs.append(r)
            else:
                c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = sum(len(r.get("reads", [1])) for r in recs)
    for r in recs[:3]:
        c.sample([x["hist"] for x in r["reads"][:4]])
    clean = [dict(r, reads=[{k: x for k, x in y.items() if k != "hist"} for y in r["reads"]]) if r["t"] == "data" else r for r in recs]
    for b in c.judge("XiaTrace", clean, chunk=15):
        r = recs[b["i"]]
        if r["t"] == "names":
            c.violation("names:" + b["bad"], "grouping: {}".format(r), r)
            continue
        x = r["reads"][b["j"] - 1]
        c.violation("{}:{}:{}".format(b["bad"], x["what"], x["v"]["k"]),
                    "{} of {}: {} {}".format(x["what"], x["hist"], b["bad"], x.get("err", "")), {"seed": r["seed"], "d": r["d"], "read": x, "want": b["want"]})
    c.finish()


vlib.main(main)
