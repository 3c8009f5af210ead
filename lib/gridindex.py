"""Indices of spec/NdIndex.tla and of numpy."""
import numpy as np

NONE = 99


# ------------------------------------------------- index items <-> python
def I(v):
    return {"t": "i", "v": v}


def S(a=None, b=None, c=None):
    return {"t": "s", "a": NONE if a is None else a, "b": NONE if b is None else b, "c": NONE if c is None else c}


def L(v):
    return {"t": "l", "v": list(v)}


def B(v):
    return {"t": "b", "v": list(v)}


E = {"t": "e"}
NEW = {"t": "n"}


def py(it):
    t = it["t"]
    if t == "i":
        return it["v"]
    if t == "s":
        return slice(*[None if it[k] == NONE else it[k] for k in "abc"])
    if t in "lb":
        return list(it["v"])
    return Ellipsis if t == "e" else np.newaxis


def pyindex(ix, bare=False):
    if bare and len(ix) == 1:
        return py(ix[0])
    return tuple(py(it) for it in ix)


def items(n, lists=True):
    out = [I(0), I(-1), S(), S(0, 1), S(1), S(None, None, -1), S(5, 9), S(None, None, 2), S(-2, None), S(n - 1, None, -2), S(None, -1)]
    out += [I(n), I(-n - 1)]
    if lists:
        out += [L([0]), L([n - 1, 0]), L([0, 0]), L([-1]), L([]), L([n]), B([k == 0 for k in range(n)]), B([True] * n), B([k % 2 == 1 for k in range(n)])]
        if n > 2:
            out += [L([2, 0, 1]), L([1, -1])]
    return out


def listlen(it):
    return sum(it["v"]) if it["t"] == "b" else len(it["v"])


def admissible(ix):
    ls = [listlen(it) for it in ix if it["t"] in "lb"]
    return not (0 in ls and any(ls))  # an empty list together with another


def pick(rng, shape, new=True, lists=True):
    nd = len(shape)
    k = rng.choice([nd, nd, nd, rng.randint(0, nd)])
    ix = [rng.choice(items(n, lists)) for n in shape[:k]]
    if rng.random() < 0.3 and k:
        # items of one list length
        m = rng.randint(1, 2)
        for j in range(k):
            if ix[j]["t"] in "lb":
                ix[j] = L([rng.randint(-shape[j], shape[j] - 1) for _ in range(m)])
    if rng.random() < 0.3:
        j = rng.randint(0, len(ix))
        # what follows the ellipsis applies to the last dimensions
        rest = len(ix) - j
        ix = ix[:j] + [E] + [rng.choice(items(n, lists)) for n in (shape[nd - rest:] if rest else ())]
    if new and rng.random() < 0.2:
        ix.insert(rng.randint(0, len(ix)), NEW)
    return ix
