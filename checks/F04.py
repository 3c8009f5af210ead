"""F04: names of paths, free names and temporary paths."""
import os
import random
import re

import h5py

import vlib
from spectrocrunch.io import fs, h5fs, localfs, nxfs

TABLES = [
    {"a": "a", "b": "ab", "c": "abc"},
    {"a": "x.y", "b": "x", "c": "x.y.1"},
    {"a": "n 1(1)", "b": "n 1", "c": "[n]*"},
    {"a": "s:t", "b": "s", "c": "..."},
    {"a": "s::t", "b": "t.h5", "c": "-"},
]


def text(ref, tab):
    s = "/".join(tab.get(x, x) for x in ref["segs"])
    return "/" + s if ref["abs"] else s


def segs(path, tab):
    back = {v: k for k, v in tab.items()}
    if not path.startswith("/"):
        return ["relative", path]
    return [back.get(x, "?" + x) for x in path.split("/")[1:]] if path != "/" else []


def nav(items):
    out = []
    for seed in items:
        rng = random.Random(seed)
        back = rng.choice(["local", "h5", "nx"])
        tab = rng.choice(TABLES[:3] if back == "local" else TABLES)
        one = lambda: rng.choice("abc")
        plain = lambda n: {"abs": True, "segs": [one() for _ in range(rng.randint(0, n))]}

        def wild(n, ab):
            r = {"abs": ab, "segs": [rng.choice(["a", "b", "c", "a", "b", ".", "..", ""]) for _ in range(rng.randint(0, n))]}
            while r["segs"] and r["abs"] and r["segs"][0] == "":
                r["segs"].pop(0)
            while not r["abs"] and r["segs"] and r["segs"][0] == "":
                r["segs"].pop(0)
            return r

        p, q = wild(4, True), plain(4)
        if rng.random() < 0.3:
            q = {"abs": True, "segs": [x for x in p["segs"] if x in ("a", "b", "c")][: rng.randint(0, 4)]}
        ref = wild(4, rng.random() < 0.3)
        dev = rng.choice(["/tmp/a.b/t.h5", "/x/t.h5", "/x/t.u.nx"])
        cls = {"local": localfs.Path, "h5": h5fs.Path, "nx": nxfs.Path}[back]
        style = rng.randint(0, 2)

        def make(r, d):
            if back == "local":
                return cls(text(r, tab))
            if style == 0:
                return cls(d + "::" + text(r, tab))
            if style == 1:
                return cls(text(r, tab), h5file=d)
            return cls("/", h5file=h5fs.h5Device(d))[text(r, tab)]

        same = back == "local" or rng.random() < 0.85
        rec = {"t": "nav", "back": back, "p": p, "q": q, "ref": ref, "same": same, "tab": tab}
        try:
            P = make(p, dev)
            Q = make(q, dev if same else dev[:-1] + "5x")
            S = lambda x: segs(x.path, tab)
            t = text(ref, tab)
            up = list(P.iterup)
            com = P.common(Q)
            rel = P.relpath(Q.path)
            ok = all(str(x.device) == str(P.device) for x in up + [P.root, P.parent, P[t], P + t])
            if back != "local":
                ok = ok and str(P.device) == dev
            eqs = {P == Q, not (P != Q), hash(P) == hash(Q), P == str(Q), (P <= Q and P >= Q), not (P < Q or P > Q)}
            again = [cls(P.location), cls(str(P)), P.factory(P), P.factory(P.location), P.sibling(P)]
            ok = ok and all(x == P and S(x) == S(P) for x in again)
            got = {
                "path": S(P), "item": S(P[t]), "parent": S(P.parent),
                "name": {v: k for k, v in tab.items()}.get(P.name, P.name),
                "up": [S(x) for x in up], "root": S(P.root), "sibling": S(P.sibling(t)), "abspath": segs(P.abspath(t), tab),
                "common": ["other device"] if com is None else S(com),
                "rel": [{v: k for k, v in tab.items()}.get(x, x) for x in rel.split("/")], "back": S(P[rel]),
                "other": S(P.sibling(Q.location)), "equal": list(eqs)[0] if len(eqs) == 1 else "inconsistent",
            }
            if S(P + t) != got["item"]:
                got["item"] = ["+ differs"]
            if str(P.sibling(Q.location).device) != str(Q.device):
                got["other"] = ["device changed"]
            if not ok:
                got["path"] = ["device or identity lost"]
            rec["got"] = got
        except Exception as e:
            rec["err"] = repr(e)[:300]
        out.append(rec)
    return out


def fname(n):
    return n["base"] + ("({})".format(n["num"]) if n["num"] >= 0 else "")


def start(back, tag):
    d = os.path.join(os.getcwd(), tag)
    if back == "local":
        for root, dirs, files in os.walk(d, topdown=False):
            for f in files:
                os.remove(os.path.join(root, f))
            for f in dirs:
                x = os.path.join(root, f)
                os.remove(x) if os.path.islink(x) else os.rmdir(x)
        os.makedirs(d, exist_ok=True)
        return localfs.Path(d)
    fn = d + ".h5"
    if os.path.exists(fn):
        os.remove(fn)
    with h5py.File(fn, "w") as f:
        f.create_group("w")
    return (h5fs if back == "h5" else nxfs).Path("/w", h5file=fn)


def put(base, name, content):
    """content f:x a file, d:x a directory with a file, l:x a link to nothing"""
    p = base[name]
    if content[0] == "d":
        p.mkdir()
        p = p["x"]
    if content[0] == "l":
        p.link(base["nothing_" + content[2:]])
    elif isinstance(base, localfs.Path):
        p.write(content[2:], mode="w")
    else:
        p.mkfile(data=content[2:])


def listing(base):
    out = []
    for p in base.listdir():
        if p.islink:
            c = "l:" + p.linkdest().name[8:]
        elif p.isdir:
            sub = list(p.listdir())
            c = "d:" + (str(sub[0].read()) if len(sub) == 1 and sub[0].name == "x" else "?")
        else:
            c = "f:" + str(p.read())
        out.append([p.name, c])
    return sorted(out)


VALUES = {"zero": 0, "seven": 7, "empty": "", "text": "x y", "false": False, "true": True,
          "half": 0.5, "names": ["a", "b"], "none": [0], "unit": u"\u00b5m", "f0": 0.0}


def value(v):
    """the name of a stored value"""
    for k, w in VALUES.items():
        if isinstance(w, list):
            if getattr(v, "shape", None) == (len(w),) and [str(x) for x in v] == [str(x) for x in w]:
                return k
        elif getattr(v, "shape", None) in (None, ()) and v == w and (
            isinstance(w, str) == isinstance(v, str)
            and ("bool" in type(v).__name__) == isinstance(w, bool)
            and ("float" in type(v).__name__) == isinstance(w, float)
        ):
            return k
    return repr(v)


def attrs(items):
    """sequences of operations on statistics"""
    out = []
    for seed in items:
        rng = random.Random(seed)
        back = rng.choice(["h5", "nx"])
        base = start(back, "w")
        put(base, "f", "f:1")
        put(base, "g", "d:1")
        base["l"].link("f")
        rec = {"t": "attrs", "back": back, "ops": []}
        outs = []
        try:
            for _ in range(rng.randint(2, 8)):
                op = rng.choice(["update", "update", "open", "get", "get", "pop"])
                at = rng.choice("fffggl" if op in ("update", "open") else ["f", "f", "g", "g", "l", "no"])
                key = rng.choice("kmn")
                kv = {k: rng.choice(list(VALUES)) for k in rng.sample("kmn", rng.randint(1, 2))}
                rec["ops"].append({"op": op, "at": at, "key": key, "kv": kv})
                p = base[at]
                if op == "update":
                    p.update_stats(**{k: VALUES[v] for k, v in kv.items()})
                    outs.append("")
                elif op == "open":
                    with p.openstats() as s:
                        for k, v in kv.items():
                            s[k] = VALUES[v]
                    outs.append("")
                elif op == "get":
                    v = p.get_stat(key, default=Ellipsis)
                    outs.append("default" if v is Ellipsis else value(v))
                else:
                    v = p.pop_stat(key, default=Ellipsis)
                    outs.append("default" if v is Ellipsis else value(v))
            rec["got"] = dict(
                out=outs, **{n: [[k, value(v)] for k, v in base[n].stats().items() if k in "kmn"] for n in "fg"}
            )
        except Exception as e:
            rec["err"] = repr(e)[:300]
        out.append(rec)
    return out


def files(items):
    out = []
    for seed in items:
        rng = random.Random(seed)
        back = rng.choice(["local", "local", "h5", "nx"])
        kind = rng.choice(["free", "temp", "temp", "stat"])
        base = start(back, "w")
        rec = {"t": kind, "back": back}
        try:
            if kind == "free":
                n = {"base": rng.choice(["a", "a b", "a.b", "(1)", "a(x)"]), "num": rng.choice([-1, -1, 0, 1, 2, 9, 10, 19, 99, 123])}
                near = sorted(set(range(-1, 12)) | set(range(n["num"], n["num"] + 4)))
                taken = [{"base": n["base"], "num": k} for k in near if rng.random() < 0.6]
                if rng.random() < 0.7 and n not in taken:
                    taken.append(n)
                for x in taken:
                    put(base, fname(x), rng.choice("fdl") + ":1")
                got = base.nonexisting_name(fname(n))
                m = re.match(r"^(.+)\((\d+)\)$", got)
                rec.update(n=n, taken=taken, got={"name": {"base": m.group(1), "num": int(m.group(2))} if m else {"base": got, "num": -1}})
            elif kind == "temp":
                for x in "ab":
                    if rng.random() < 0.6:
                        put(base, x, rng.choice("ffddl") + ":old" + x)
                small = rng.random() < 0.4
                if small:
                    for x in "cde":
                        if rng.random() < 0.8:
                            put(base, x, rng.choice("fdll") + ":old" + x)
                before = listing(base)
                o = {"name": rng.choice(["", "a", "b"]), "force": rng.random() < 0.5, "remove": rng.random() < 0.7, "body": rng.choice(["-", "f:new", "d:new", "f:new"])}
                kw = {}
                if small:
                    kw = {"size": 1, "chars": "cdeg"}
                elif rng.random() < 0.5:
                    kw = {"prefix": "pre", "suffix": ".suf"}
                if o["name"]:
                    kw["name"] = o["name"]
                if o["force"]:
                    kw["force"] = True
                if not o["remove"]:
                    kw["remove"] = False
                fresh = True
                try:
                    with base.temp(**kw) as p:
                        new = p.name
                        fresh = not p.lexists and new not in [x for x, _ in before] and p.parent == base
                        if "prefix" in kw:
                            fresh = fresh and new.startswith("pre") and new.endswith(".suf")
                        if o["body"] != "-":
                            put(base, new, o["body"])
                        if rng.random() < 0.3:
                            raise ZeroDivisionError
                except ZeroDivisionError:
                    pass
                after = [["new" if x == new else x, c] for x, c in listing(base)]
                rec.update(before=before, op=o, got={"after": after, "fresh": fresh})
            else:
                there = rng.random() < 0.5
                put(base, "f", "f:1")
                put(base, "g", "d:1")
                put(base, "l", "l:1")
                p = base[rng.choice(["f", "g"] if there else ["no", "no/no", "l", "l/x", "g/no", "f/no"])]
                got = {}
                try:
                    got["stats"] = "ok" if isinstance(p.stats(), dict) else "?"
                except fs.Missing:
                    got["stats"] = "missing"
                key = "size"
                if back != "local" and there:
                    p.update_stats(size=8)
                v = p.get_stat(key, "nothing")
                got["get"] = "default" if isinstance(v, str) and v == "nothing" else "ok"
                if p.get_stat("no such key") is not None or p.get_stat("no such key", 3) != 3:
                    got["get"] = "invented"
                rec.update(there=there, got=got, path=str(p))
        except Exception as e:
            rec["err"] = repr(e)[:300]
            rec.setdefault("path", "")
            for k, v in (("n", ""), ("before", [])):
                rec.setdefault(k, v)
        out.append(rec)
    return out


def main():
    c = vlib.Check("F04")
    c.tlc("PathNameMC", workers=4)
    c.tlc("PathNameMC", cfg="PathNameMC2")
    n = 20 if c.thorough else 1
    recs = []
    for f, k in ((nav, 12000 * n), (files, 2500 * n), (attrs, 1500 * n)):
        its = vlib.batches([c.seed * 100003 + i for i in range(k)], 100)
        for it, r in zip(its, vlib.pmap(c, f, its, timeout=120)):
            if isinstance(r, list):
                recs += r
            else:
                c.violation("noanswer", "no answer {}".format(r), it)
    c.evaluations = len(recs)
    for r in recs[::3333]:
        c.sample(r)
    for b in c.judge("PathNameTrace", recs):
        r = recs[b["i"]]
        c.violation("{}:{}:{}".format(b["bad"], r["t"], r["back"]), "{}: {} instead of {}".format(b["bad"], r, b.get("want")), r)
    c.finish()


vlib.main(main)
