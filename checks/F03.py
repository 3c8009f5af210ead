"""F03: access modes are limits."""
import io
import itertools
import os
import random

import h5py

import vlib
from spectrocrunch.io import fs, h5fs, localfs

NONE, DIR = ["no file"], ["directory"]
LOCAL = ["r", "r+", "w", "w+", "x", "x+", "a", "a+"]
H5 = ["r", "r+", "w", "x", "a"]


# ------------------------------------------------------------------- local
def put(fn, c):
    if os.path.isdir(fn):
        os.rmdir(fn)
    elif os.path.exists(fn):
        os.remove(fn)
    if c == DIR:
        os.mkdir(fn)
    elif c != NONE:
        with open(fn, "w") as f:
            f.write("".join(c))


def get(fn):
    if os.path.isdir(fn):
        return DIR
    if not os.path.exists(fn):
        return NONE
    with open(fn) as f:
        return list(f.read())


def outcome(e):
    if isinstance(e, fs.Missing):
        return "missing"
    if isinstance(e, fs.NotAFile):
        return "notafile"
    if isinstance(e, fs.NotADirectory):
        return "notadir"
    if isinstance(e, (fs.AlreadyExists, FileExistsError)):
        return "exists"
    if isinstance(e, io.UnsupportedOperation):
        return "unsupported"
    return repr(e)[:200]


def act(p, f, as_, out, nested):
    for k, a in enumerate(as_):
        if k == 1 and nested:
            # opening the same proxy again is the same open file
            with p.open(mode=nested) as g:
                act(p, g, as_[1:], out, None)
            return
        if a["k"] == "read":
            out.append(list(f.read()))
        else:
            f.write(a["x"])


def held(fn):
    """is the file still open in this process?"""
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + fd) == fn:
                return True
        except OSError:
            pass
    return False


def uselocal(args):
    out = []
    for c, dm, rm, as_, variant in args:
        fn = os.path.join(os.getcwd(), "f.txt")
        put(fn, c)
        p = localfs.Path(fn, mode=dm)
        if variant % 2:
            p = localfs.Path(os.path.dirname(fn), mode=dm)["f.txt"]
        nested = LOCAL[variant % 8] if variant % 3 == 0 else None
        kw = {"mode": rm} if rm else {}
        reads, err = [], ""
        try:
            if as_ == [{"k": "read"}] and rm == "r" and variant % 2:
                reads.append(list(p.read()))
            elif len(as_) == 1 and as_[0]["k"] == "write" and variant % 4 == 1:
                p.write(as_[0]["x"], **kw)
            elif len(as_) == 1 and as_[0]["k"] == "write" and variant % 4 == 3:
                p.mkfile(data=as_[0]["x"], **kw)
            elif not as_ and variant % 2:
                p.mkfile(**kw)
            else:
                with p.open(**kw) as f:
                    act(p, f, as_, reads, nested)
        except Exception as e:
            err = outcome(e)
        if p.isopen() or held(fn):
            err = "still open"
        out.append({"t": "local", "c": c, "dm": dm, "rm": rm, "as": as_, "after": get(fn), "out": reads, "err": err, "variant": variant})
    return out


# -------------------------------------------------------------------- hdf5
def h5put(fn, c):
    if os.path.exists(fn):
        os.remove(fn)
    if c != "none":
        with h5py.File(fn, "w") as f:
            if c == "d":
                f["n"] = 5
            elif c == "g":
                f.create_group("n")


def h5get(fn):
    if not os.path.exists(fn):
        return "none"
    with h5py.File(fn, "r") as f:
        if "n" not in f:
            return "-"
        if isinstance(f["n"], h5py.Group):
            return "g"
        return "d"


def h5outcome(e, m):
    r = outcome(e)
    if r == e or r not in ("missing", "notafile", "notadir", "exists"):
        s = repr(e)
        if "file exists" in s.lower():
            return "exists"
        if "no write intent" in s or "read-only" in s or "Unable to synchronously create" in s or "Unable to (synchronously) create" in s:
            return "unsupported"
        if isinstance(e, TypeError) and "shape, data, or dtype" in s.lower():
            return "nodata"
        if "One of data, shape or dtype must be specified" in s:
            return "nodata"
    return r


def useh5(args):
    out = []
    for kind, c, dm, rm, x, variant in args:
        fn = os.path.join(os.getcwd(), "t.h5")
        h5put(fn, c)
        kw = {"mode": rm} if rm else {}
        err = ""
        rec = {"t": kind, "c": c, "dm": dm, "rm": rm}
        dev = h5fs.h5Device(fn, mode=dm)
        try:
            if kind == "h5file":
                rec["act"] = x
                with dev.open(**kw) as f:
                    if x == "put" and "n" not in f:
                        f["n"] = 7
            else:
                rec["data"] = x
                if variant % 2:
                    p = h5fs.Path("/n", h5file=dev)
                else:
                    p = h5fs.Path(fn + "::/n", mode=dm)
                if x:
                    if variant % 3 == 0:
                        kw["data"] = 7
                    else:
                        kw["shape"] = (2,)
                        kw["dtype"] = int
                if variant % 4 == 3 and x and "data" in kw:
                    p.mkfile(**kw)
                else:
                    with p.open(**kw) as node:
                        if node.name != "/n":
                            err = "wrong node"
                dev = p.device
        except Exception as e:
            err = h5outcome(e, rm)
        if dev.isopen() or held(fn):
            err = "still open"
        rec["after"] = h5get(fn)
        rec["err"] = err
        out.append(rec)
    return out


# ------------------------------------------- queries and refused operations
def limits(arg):
    """whatever is called through a proxy with a limit, the limit holds"""
    seed, dm, back = arg
    rng = random.Random(seed)
    d = os.path.join(os.getcwd(), "lim")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "t.h5" if back == "h5" else "t.txt")
    if os.path.exists(fn):
        os.remove(fn)
    bad = []
    exists = rng.random() < 0.7
    if exists:
        if back == "h5":
            with h5py.File(fn, "w") as f:
                f["g/d"] = 1
                f["n"] = 2
                f["lnk"] = h5py.SoftLink("/g/d")
                f["g"].attrs["x"] = 3
        else:
            with open(fn, "w") as f:
                f.write("abc")

    def snap():
        if not os.path.exists(fn):
            return None
        with open(fn, "rb") as f:
            return f.read()

    for _ in range(25):
        if back == "h5":
            p = h5fs.Path(rng.choice(["/", "/g", "/g/d", "/n", "/lnk", "/no", "/g/no"]), h5file=h5fs.h5Device(fn, mode=dm))
        else:
            p = localfs.Path(fn, mode=dm)
        queries = {
            "exists": lambda: p.exists, "lexists": lambda: p.lexists, "isdir": lambda: p.isdir, "isfile": lambda: p.isfile,
            "islink": lambda: p.islink, "linkdest": lambda: p.linkdest(), "read": lambda: p.read(), "stats": lambda: p.stats(),
            "parent": lambda: p.parent.exists, "root": lambda: p.root.exists, "in": lambda: "n" in p,
        }
        if back == "h5":
            queries.update({"shape": lambda: p.shape, "dtype": lambda: p.dtype, "get_stat": lambda: p.get_stat("x", 1)})
        changes = {
            "mkfile": lambda: p["new%d" % rng.randint(0, 99)].mkfile(**({"data": 4} if back == "h5" else {"data": "4"})),
            "mkfile2": lambda: p.mkfile(**({"data": 4} if back == "h5" else {"data": "4"})),
            "write": lambda: p.write(**({"data": 4} if back == "h5" else {"content": "4"})),
        }
        if back == "h5":
            changes.update({
                "mkdir": lambda: p["m%d" % rng.randint(0, 99)].mkdir(), "list": lambda: list(p.listdir()),
                "remove": lambda: p.remove(recursive=True) if p.path != "/" else None, "copy": lambda: p.copy(p.root["cc"]),
                "rename": lambda: p.rename(p.root["rr"]), "link": lambda: p.root["ll%d" % rng.randint(0, 99)].link(p),
                "update_stats": lambda: p.update_stats(x=4), "pop_stat": lambda: p.pop_stat("x"),
            })
        if rng.random() < 0.2:
            r = p.readonly()
            if r != p or getattr(r, "device", None) and r.device.mode != "r" or back == "local" and r.mode != "r":
                bad.append(("readonly copy", "{} {}".format(back, r)))
            elif rng.random() < 0.5:
                before = snap()
                try:
                    r.mkfile(**({"data": 4} if back == "h5" else {"data": "4"}))
                    if rng.random() < 0.5:
                        r.mkdir()
                except Exception:
                    pass
                if snap() != before:
                    bad.append(("readonly copy", "{} {} changed".format(back, r)))
        q = rng.random() < 0.5
        if dm == "w" and not q:
            continue
        name, func = rng.choice(sorted((queries if q else changes).items()))
        before = snap()
        err = ""
        try:
            func()
        except Exception as e:
            err = repr(e)[:100]
        after = snap()
        what = "{} {} mode={} exists={}: {} {}".format(back, name, dm, before is not None, p, err)
        if q and after != before:
            bad.append(("query", what))
        if dm == "r" and after != before:
            bad.append(("readonly", what))
        if dm == "r+" and before is None and after is not None:
            bad.append(("creates", what))
        if dm in ("x", "x+") and before is not None and after != before:
            bad.append(("changes existing", what))
        if before is not None and after is None:
            bad.append(("file lost", what))
        if p.isopen():
            bad.append(("left open", what))
    return bad


def main():
    c = vlib.Check("F03")
    c.tlc("OpenModeMC", workers=4)
    rng = random.Random(c.seed)
    # every combination
    acts = [{"k": "read"}, {"k": "write", "x": "u"}, {"k": "write", "x": "v"}]
    seqs = [list(s) for n in range(4 if c.thorough else 3) for s in itertools.product(acts, repeat=n)]
    items = []
    for cont, dm, rm, as_ in itertools.product([NONE, DIR, [], ["p"], ["p", "q", "r"]], LOCAL, [""] + LOCAL, seqs):
        for k in range(24 if c.thorough else 3):
            items.append((cont, dm, rm, as_, rng.randrange(24)))
    h5 = []
    for cont, dm, rm in itertools.product(["none", "-", "d", "g"], H5, [""] + H5):
        for k in range(24 if c.thorough else 6):
            h5 += [("h5file", cont, dm, rm, "keep", 0), ("h5file", cont, dm, rm, "put", 0)]
            h5 += [("h5node", cont, dm, rm, True, rng.randrange(12)), ("h5node", cont, dm, rm, False, rng.randrange(12))]
    recs = []
    for f, its in ((uselocal, items), (useh5, h5)):
        for it, r in zip(vlib.batches(its, 60), vlib.pmap(c, f, vlib.batches(its, 60), timeout=120)):
            if isinstance(r, list):
                recs += r
            else:
                c.violation("noanswer", "no answer {}".format(r), it)
    lim = [(c.seed * 1009 + i, dm, back) for i in range(200 if c.thorough else 25) for back, ms in (("h5", H5), ("local", LOCAL)) for dm in ms]
    for it, r in zip(lim, vlib.pmap(c, limits, lim, timeout=120)):
        if not isinstance(r, list):
            c.violation("noanswer", "no answer {}".format(r), it)
            continue
        for kind, what in r:
            c.violation("{}:{}".format(kind, " ".join(what.split()[:3])), "{}: {}".format(kind, what), it)
    c.evaluations = len(recs) + 25 * len(lim)
    for r in recs[::1777]:
        c.sample(r)
    for b in c.judge("OpenModeTrace", recs):
        r = recs[b["i"]]
        c.violation("{}:{}:{}:{}:{}".format(b["bad"], r["t"], r["c"], r["dm"], r["rm"]), "{}: {} instead of {}".format(b["bad"], r, b["want"]), r)
    c.finish()


vlib.main(main)
