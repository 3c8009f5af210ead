"""F02: HDF5 path operations follow the tree model."""
import os
import random
import shutil

import h5py

import vlib

from spectrocrunch.io import fs, h5fs

NAMED = {
    "AlreadyExists", "Missing", "NotAFile", "NotADirectory", "DirectoryIsNotEmpty",
    "MissingParentDirectory",
}


def errname(e):
    for cls in (fs.AlreadyExists, fs.MissingParentDirectory, fs.NotAFile, fs.NotADirectory,
                fs.DirectoryIsNotEmpty, fs.Missing):
        if isinstance(e, cls):
            return cls.__name__
    return "oserr"


def build(fn, tree):
    """materialize a model tree (bypassing the code under test)"""
    with h5py.File(fn, "w") as f:
        for p, n in sorted(tree, key=lambda x: len(x[0])):
            path = "/" + "/".join(p)
            if n["k"] == "d":
                if p:
                    f.create_group(path)
            elif n["k"] == "f":
                f[path] = n["c"]
            else:
                f[path] = h5py.SoftLink(("/" if n["u"] < 0 else "") + "/".join(n["t"]))


def _project(g, p, out):
    for k in sorted(g.keys()):
        q = p + [k]
        lnk = g.get(k, getlink=True)
        if isinstance(lnk, h5py.SoftLink):
            if lnk.path.startswith("/"):
                out.append([q, {"k": "l", "u": -1, "t": [x for x in lnk.path.split("/") if x]}])
            else:
                out.append([q, {"k": "l", "u": 0, "t": lnk.path.split("/")}])
        elif isinstance(lnk, h5py.ExternalLink):
            out.append([q, {"k": "x", "u": 0, "t": [lnk.filename, lnk.path]}])
        else:
            obj = g[k]
            if isinstance(obj, h5py.Group):
                out.append([q, {"k": "d"}])
                if len(q) < 12:
                    _project(obj, q, out)
            else:
                v = obj[()]
                try:
                    v = int(v)
                except Exception:
                    v = -1
                out.append([q, {"k": "f", "c": v}])


def project(fn):
    out = [[[], {"k": "d"}]]
    with h5py.File(fn, "r") as f:
        _project(f, [], out)
    return out


def rel(fn, path):
    """names of a Path in the file, or None"""
    if str(path.device) != fn:
        return ["<outside>", str(path)]
    return [x for x in path.path.split("/") if x]


def apply(root, base, o, names):
    """one public operation; returns (result class, value)"""
    real = names.real
    p = base["/".join(real(o["p"]))] if o["p"] else base
    d = base["/".join(real(o["d"]))] if o.get("d") else None
    if d is not None and names.i >= len(names.TABLES):
        # destination as a string, relative to the parent of the source
        d = os.path.relpath("/" + "/".join(real(o["d"])), "/" + "/".join(real(o["p"][:-1])))
    op = o["op"]
    try:
        if op == "mkdir":
            p.mkdir(recursive=o["rec"], force=o["force"])
            return "ok", []
        if op == "write":
            p.write(data=o["c"], mode=o["mode"])
            return "ok", []
        if op == "read":
            return "ok", [int(p.read())]
        if op == "remove":
            p.remove(recursive=o["rec"])
            return "ok", []
        if op == "move":
            if o["rename"]:
                r = p.rename(d, force=o["force"])
            else:
                r = p.move(d, force=o["force"])
            return "ok", names.model(rel(root, r))
        if op == "copy":
            return "ok", names.model(rel(root, p.copy(d, force=o["force"], follow=o["follow"])))
        if op == "link":
            p.link(d)
            return "ok", []
        if op == "query":
            dest = p.linkdest()
            return "ok", {
                "exists": bool(p.exists), "lexists": bool(p.lexists), "isdir": bool(p.isdir),
                "isfile": bool(p.isfile), "islink": bool(p.islink),
                "kids": sorted(names.model([x.name for x in p.listdir()])),
                "dest": [] if dest is None else [names.model(rel(root, dest))],
            }
    except Exception as e:
        return errname(e), repr(e)
    raise vlib.MachineryError("unknown op {}".format(op))


def norm(tree):
    return sorted((tuple(p), tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in n.items()))) for p, n in tree)


def agree(e, res, val):
    """None when the observed result is what the model says, else the clause"""
    if e["res"] == "oserr":
        return None if res != "ok" else "succeeds where the operation must fail"
    if res != e["res"]:
        return "result {} instead of {}".format(res, e["res"])
    if res == "ok" and e["o"]["op"] in ("read", "query"):
        want = e["val"]
        if isinstance(want, dict):
            want = dict(want, kids=sorted(want["kids"]))
        if val != want:
            return "value {} instead of {}".format(val, want)
    if res == "ok" and e["o"]["op"] in ("move", "copy") and val != e["val"]:
        return "returned path {} instead of {}".format(val, e["val"])
    return None


def run_edges(item):
    edges, names = item[0], vlib.Names(item[1])
    fn = os.path.join(os.getcwd(), "x.h5")
    base = h5fs.Path(fn)
    out = []
    for e in edges:
        build(fn, names.tree(e["f"], "real"))
        res, val = apply(fn, base, e["o"], names)
        why = agree(e, res, val)
        if why is None:
            post = names.tree(project(fn), "model") if os.path.isfile(fn) else []
            if norm(post) != norm(e["t"]):
                why = "tree afterwards {} instead of {}".format(norm(post), norm(e["t"]))
        if why:
            out.append((e, why, val))
    return out


# ------------------------------------------------------------ long histories
def tree_paths(names, depth):
    out = [()]
    allp = []
    for _ in range(depth):
        out = [p + (n,) for p in out for n in names]
        allp += out
    return [list(p) for p in allp]


def outside(tree):
    """has a link to one of the directories it is in (can come about through linked directories)"""
    for p, n in tree:
        if n["k"] == "l":
            base = p[: len(p) - 1 - n["u"]] if n["u"] >= 0 else []
            d = base + [x for x in n["t"] if x != "."]
            if list(d) == list(p[: len(d)]):
                return True
    return False


def construct(rng):
    """operations which build a tree with chains of links inside, and copy and move it"""
    top = [rng.choice("abc")]
    ops = [{"op": "mkdir", "p": top, "rec": False, "force": True}]
    dirs, nodes, free = [top], [], lambda d: [d + [n] for n in "abc" if d + [n] not in nodes]
    for _ in range(rng.randint(5, 8)):
        d = rng.choice(dirs)
        if not free(d):
            continue
        p = rng.choice(free(d))
        k = rng.choice("dflll" if nodes else "df")
        if k == "d" and len(p) < 4:
            ops.append({"op": "mkdir", "p": p, "rec": False, "force": False})
            dirs.append(p)
        elif k == "l":
            dest = rng.choice(nodes[-2:] if rng.random() < 0.6 else nodes)
            if dest == p[: len(dest)]:
                continue
            ops.append({"op": "link", "p": p, "d": dest})
        else:
            ops.append({"op": "write", "p": p, "c": rng.randint(1, 9), "mode": "w"})
        nodes.append(p)
    other = [n for n in "abc" if n != top[0]]
    for i in range(2):
        o = {"op": rng.choice(["copy", "move"]), "p": top, "d": [other[i]], "force": rng.random() < 0.5}
        if o["op"] == "copy":
            o["follow"] = rng.random() < 0.5
        else:
            o["rename"] = rng.random() < 0.5
            top = o["d"] if o["rename"] else top
        ops.append(o)
    return ops + [{"op": "query", "p": p} for p in rng.sample(nodes, min(2, len(nodes)))]


def run_history(arg):
    seed, n = arg
    rng = random.Random(seed)
    names = vlib.Names(seed % 8)
    root = os.path.join(os.getcwd(), "y.h5")
    base = h5fs.Path(root)
    build(root, [])
    paths = tree_paths(["a", "b", "c"], 3)
    w = [3.0 / len(p) ** 1.5 for p in paths]
    recs = []
    pre = project(root)

    def pick(existing=0.6):
        if rng.random() < existing and len(pre) > 1:
            return list(rng.choice(pre[1:])[0])
        return rng.choices(paths, w)[0]

    plan = []
    for _ in range(n):
        if seed % 2 and not plan and len(pre) < 4:
            plan = construct(rng)
        op = rng.choices(
            ["mkdir", "write", "read", "remove", "move", "copy", "link", "query"],
            [3, 4, 1, 1.5, 3, 3, 1.5, 1],
        )[0]
        if len(pre) > 14 and op in ("copy", "write", "mkdir", "link"):
            op = "remove"
        o = {"op": op, "p": pick(0.25 if op in ("mkdir", "write", "link") else 0.85)}
        B = lambda pr=0.5: rng.random() < pr
        if op == "mkdir":
            o.update(rec=B(), force=B())
        elif op == "write":
            o.update(c=rng.randint(1, 9), mode=rng.choice("wwxa"))
        elif op == "remove":
            o.update(rec=B())
        elif op == "move":
            o.update(d=pick(0.4), force=B(0.3), rename=B())
        elif op == "copy":
            o.update(d=pick(0.4), force=B(0.3), follow=B())
        elif op == "link":
            o.update(d=pick(0.8))
        if plan:
            o = plan.pop(0)
            op = o["op"]
        elif seed % 2 and len(pre) > 4 and rng.random() < 0.4:
            o = {"op": "remove", "p": pre[1][0], "rec": True}
            op = "remove"
        # links to an ancestor and link cycles are outside the model
        if op == "link" and (o["d"] == o["p"][: len(o["d"])]):
            continue
        res, val = apply(root, base, o, names)
        post = names.tree(project(root), "model") if os.path.isfile(root) else []
        rec = {"pre": pre, "o": o, "res": res, "post": post}
        rec["val"] = val if res == "ok" else []
        if not isinstance(val, (list, dict)):
            rec["val"] = []
        recs.append(rec)
        pre = post
        if not post or outside(post) or any(x[1].get("c") == -1 for x in post):
            break
    return recs


def main():
    c = vlib.Check("F02")
    cfgs = [{"VP_NODES": 2, "VP_LINKS": 1}]
    if c.thorough:
        cfgs = [{"VP_NODES": 3, "VP_LINKS": 1}, {"VP_NODES": 3, "VP_LINKS": 2}]
    edges = []
    for env in cfgs:
        edges += c.tlc("H5FsMC", env=env, workers=8, timeout=3000, heap="16g").values
    ops = {}
    for e in edges:
        k = e["o"]["op"] + ":" + e["res"]
        ops[k] = ops.get(k, 0) + 1
    c.notes.append({"edges per operation and result": ops})
    for r in vlib.pmap(c, run_edges, [(b, i % 8) for i, b in enumerate(vlib.batches(edges, 400))], timeout=120):
        if not isinstance(r, list):
            c.violation("edge:noanswer", "a path operation did not answer: {}".format(r))
            continue
        for e, why, val in r:
            c.violation("edge:{}:{}".format(e["o"]["op"], e["res"]), why, {"edge": e, "got": val})
    c.traces += len(edges)
    c.sample(edges[len(edges) // 2])

    nh = 64 if not c.thorough else 640
    hists = vlib.pmap(c, run_history, [(c.seed * 100003 + i, 60) for i in range(nh)], timeout=120)
    recs = []
    for h in hists:
        if not isinstance(h, list):
            c.violation("history:noanswer", "a history of path operations did not answer: {}".format(h))
        else:
            recs += h
    bad = c.judge("H5FsTrace", recs)
    for b in bad:
        r = recs[b["i"]]
        c.violation("history:{}:{}".format(r["o"]["op"], b["bad"]), str(b), r)
    c.notes.append({"history steps": len(recs)})
    c.sample(recs[len(recs) // 2])
    c.assume("paths reached through a symbolically linked parent directory, link cycles and links "
             "leaving the tree are outside the model")
    c.finish()


vlib.main(main)
