"""H01: hashes of data."""
import json
import os
import random
import subprocess
import sys

import numpy as np

import vlib
from spectrocrunch.patch import jsonpickle
from spectrocrunch.utils import hashing, units

NUM = {
    "1": [1, True, 1.0, np.int32(1), np.float64(1), np.float32(1), np.bool_(True), 1 + 0j],
    "0": [0, False, 0.0, np.int8(0), np.float64(0)],
    "2": [2, 2.0, np.uint8(2)],
    "-3": [-3, -3.0, np.int64(-3)],
    "1/2": [0.5, np.float64(0.5), np.float32(0.5)],
    "1/2+": [np.nextafter(0.5, 1), float(np.nextafter(0.5, 1))],
    "1+": [1 + 2.0**-52, np.float64(1 + 2.0**-52)],
    "-1": [-1, -1.0],
    "2^53": [2**53, float(2**53)],
    "2^53+1": [2**53 + 1],
    "inf": [float("inf"), np.inf],
    "1e300": [1e300],
    "i": [1j],
}
PLAIN = ["1", "0", "2", "-3", "1/2", "1/2+", "1+", "-1"]
STR = {
    "a": ["a", b"a"], "b": ["b", b"b"], "1": ["1", b"1"], "": ["", b""], "A": ["A"], "a ": ["a "],
    "mu": [u"\u00b5m"], "None": ["None"], "cls": ["<class 'list'>"], "ab": ["ab"], "millimeter": ["millimeter"], "0.5": ["0.5"],
}
EMPTY = {"list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "array": lambda: np.array([])}
UNIT = {"mm": ["mm", "millimeter"], "m": ["m", "meter"], "s": ["s"], "keV": ["keV"], "": ["dimensionless"]}


def leaf(rng):
    k = rng.choice(["num", "num", "num", "str", "str", "none", "empty"])
    if k == "none":
        return [k]
    return [k, rng.choice(list({"num": NUM, "str": STR, "empty": EMPTY}[k]))]


def key(rng):
    return rng.choice([["str", rng.choice(list(STR))], ["num", rng.choice(PLAIN)]])


def uniq(lst):
    out = []
    for x in lst:
        if x not in out:
            out.append(x)
    return out


def tree(rng, depth):
    if depth == 0 or rng.random() < 0.15:
        return leaf(rng)
    k = rng.choice(["seq", "seq", "map", "map", "map", "set", "qty", "nums"])
    n = rng.choice([1, 2, 2, 3, 3, 4, 30]) if depth < 3 else rng.randint(1, 4)
    if k == "seq":
        return ["seq", [tree(rng, depth - 1) for _ in range(n)]]
    if k == "nums":
        return ["seq", [["num", rng.choice(PLAIN)] for _ in range(n)]]
    if k == "set":
        return ["set", uniq([key(rng) for _ in range(n)])]
    if k == "map":
        return ["map", [[q, tree(rng, depth - 1)] for q in uniq([key(rng) for _ in range(n)])]]
    x = ["num", rng.choice(PLAIN)]
    if rng.random() < 0.4:
        x = ["seq", [["num", rng.choice(PLAIN)] for _ in range(min(n, 4))]]
    return ["qty", x, rng.choice(list(UNIT))]


def plain(t):
    return t[0] == "seq" and all(x[0] == "num" and x[1] in PLAIN for x in t[1])


def render(rng, t):
    """data that is this tree"""
    k = t[0]
    if k == "none":
        return None
    if k == "num":
        return rng.choice(NUM[t[1]])
    if k == "str":
        return rng.choice(STR[t[1]])
    if k == "empty":
        return EMPTY[t[1]]()
    if k == "seq":
        x = [render(rng, y) for y in t[1]]
        if plain(t) and rng.random() < 0.5:
            if all(y[1] in "01" for y in t[1]) and rng.random() < 0.5:
                return np.array([y[1] == "1" for y in t[1]])
            return np.array([float(NUM[y[1]][0]) for y in t[1]])
        return rng.choice([list, tuple])(x)
    if k == "set":
        x = [render(rng, y) for y in t[1]]
        rng.shuffle(x)
        return rng.choice([set, frozenset])(x)
    if k == "map":
        x = [(render(rng, a), render(rng, b)) for a, b in t[1]]
        rng.shuffle(x)
        return dict(x)
    if t[1][0] == "seq":
        x = np.array([float(NUM[y[1]][0]) for y in t[1][1]])
    else:
        x = float(NUM[t[1][1]][0])
    return units.Quantity(x, rng.choice(UNIT[t[2]]))


def places(t, path=()):
    yield path
    if t[0] in ("seq",):
        for i, x in enumerate(t[1]):
            for p in places(x, path + (1, i)):
                yield p
    elif t[0] == "map":
        for i, (_, x) in enumerate(t[1]):
            for p in places(x, path + (1, i, 1)):
                yield p


def put(t, path, x):
    if not path:
        return x
    t = list(t)
    t[path[0]] = put(t[path[0]], path[1:], x)
    return t


def get(t, path):
    for i in path:
        t = t[i]
    return t


def change(rng, t):
    """a tree that differs (most of the time) in one place"""
    path = rng.choice(list(places(t)))
    x = get(t, path)
    k = x[0]
    how = rng.random()
    if k in ("seq", "set", "map") and how < 0.8:
        lst = list(x[1])
        i = rng.randrange(len(lst))
        if how < 0.2 and len(lst) > 1:
            del lst[i]
        elif how < 0.5:
            j = rng.randrange(len(lst))
            if k == "map":
                lst[i], lst[j] = [lst[i][0], lst[j][1]], [lst[j][0], lst[i][1]]
                if i == j:
                    lst[i] = [key(rng), lst[i][1]]
            else:
                lst[i], lst[j] = lst[j], lst[i]
        elif how < 0.65:
            y = key(rng)
            lst.append([y, leaf(rng)] if k == "map" else y)
        else:
            y = key(rng)
            lst[i] = [lst[i][0], leaf(rng)] if k == "map" else y
        if k == "set":
            lst = uniq(lst)
        if k == "map" and len(uniq([a for a, _ in lst])) < len(lst):
            return t
        return put(t, path, [k, lst])
    if k == "qty":
        return put(t, path, ["qty", ["num", rng.choice(PLAIN)], x[2]] if how < 0.5 else ["qty", x[1], rng.choice(list(UNIT))])
    if how < 0.9 or path == ():
        y = leaf(rng)
        if k == "num" and rng.random() < 0.5:
            y = ["num", rng.choice(list(NUM))]
        return put(t, path, y)
    return put(t, path, ["seq", [x]])


def pairs(items):
    out = []
    for seed in items:
        rng = random.Random(seed)
        a = tree(rng, rng.choice([0, 1, 2, 2, 3, 3]))
        b = a
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            b = change(rng, b)
        rec = {"a": a, "b": b}
        try:
            x, y = render(rng, a), render(rng, b)
            h = hashing.calchash(x)
            rec["equal"] = bool(h == hashing.calchash(y))
            s = render(rng, b)
            hs = hashing.calchash(s)
            rec["kept"] = bool(
                hashing.calchash(x) == h
                and isinstance(h, bytes)
                and hashing.hashequal(x, y) == rec["equal"]
                and hashing.calchash(jsonpickle.loads(jsonpickle.dumps(s))) == hs
                and hs == hashing.calchash(y)
                # what is hashed together: each in its place
                and (hashing.mergehash(h, hs) == hashing.mergehash(hs, h)) == (h == hs)
                and hashing.mergehash(h, hs) not in (h, hs)
                and hashing.mergehash(h) == h
            )
        except Exception as e:
            rec["err"] = repr(e)[:300]
        out.append(rec)
    return out


def hashes(seeds):
    out = []
    for seed in seeds:
        rng = random.Random(seed)
        out.append(hashing.calchash(render(rng, tree(rng, 3))).decode("ascii"))
    return out


PROBES = [
    ("mapping and sequence", ["map", [[["str", "a"], ["num", "1"]]]], ["seq", [["str", "a"], ["num", "1"]]]),
    ("quantity and sequence", ["qty", ["num", "1/2"], "mm"], ["seq", [["num", "1/2"], ["str", "millimeter"]]]),
    ("text and number", ["str", "1"], ["num", "1"]),
    ("text and nothing", ["str", "None"], ["none"]),
    ("text and empty", ["str", "cls"], ["empty", "list"]),
    ("one and itself", ["seq", [["num", "1"]]], ["num", "1"]),
]


def main():
    c = vlib.Check("H01")
    c.tlc("HashMC", workers=4)
    n = 20000 if not c.thorough else 400000
    items = [c.seed * 1000003 + i for i in range(n)]
    recs = []
    for r in vlib.pmap(c, pairs, vlib.batches(items, 500), timeout=200):
        if isinstance(r, list):
            recs += r
        else:
            c.violation("noanswer", "hashing did not answer: {}".format(r))
    # another process, with its own order in sets
    seeds = list(range(c.seed * 7919, c.seed * 7919 + 400))
    p = subprocess.run([sys.executable, "-W", "ignore", __file__, "hashes"], input=json.dumps(seeds), text=True,
                       stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(c.seed + 11)), timeout=300)
    if p.returncode:
        raise vlib.MachineryError("hashing in another process failed")
    for seed, here, there in zip(seeds, hashes(seeds), json.loads(p.stdout)):
        if here != there:
            c.violation("process", "the hash of the data of seed {} is another one in another process".format(seed), [here, there])
    rng = random.Random(0)
    for name, a, b in PROBES:
        equal = bool(hashing.calchash(render(rng, a)) == hashing.calchash(render(rng, b)))
        recs.append({"a": a, "b": b, "equal": equal, "kept": True, "probe": name})
    c.evaluations = len(recs)
    c.notes.append({"pairs with equal hashes": sum(r.get("equal", False) for r in recs)})
    c.sample(recs[7])
    for b in c.judge("HashTrace", recs):
        r = recs[b["i"]]
        c.violation(
            "{}:{}".format(b["bad"], r.get("probe", r["a"][0])), "{}: {} and {} {}".format(b["bad"], r["a"], r["b"], r.get("err", "")), r)
    c.finish()


if sys.argv[1:] == ["hashes"]:
    print(json.dumps(hashes(json.loads(sys.stdin.read()))))
else:
    vlib.main(main)
