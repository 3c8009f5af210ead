"""P01: parameter tree."""
import random

import vlib
from spectrocrunch.pipelines import parameters

VALUES = {1: 1, 2: "two", 3: [1, 2.5], 4: None, 5: 5.0}
INV = {repr(v): k for k, v in VALUES.items()}


def inv(v):
    return INV.get(repr(v), "?" + repr(v))


class Forest:
    def __init__(self, shape):
        self.nodes = [parameters.Node(name="n1")]
        for p in shape:
            self.nodes.append(self.nodes[p - 1].branch(name="n%d" % (len(self.nodes) + 1)))

    def find(self, node):
        if node is None:
            return 0
        for i, n in enumerate(self.nodes, 1):
            if n is node:
                return i
        self.nodes.append(node)
        return len(self.nodes)

    def node(self, i):
        return None if i == 0 else self.nodes[i - 1]

    def apply(self, o):
        n = self.node(o["x"])
        op = o["op"]
        if op == "set":
            if "." in o["k"]:
                k, sub = o["k"].split(".")
                n[k] = {sub: VALUES[o["v"]]}
            else:
                n[o["k"]] = VALUES[o["v"]]
        elif op == "delsub":
            del n["n"]
        elif op == "del":
            del n[o["k"]]
        elif op == "dellocal":
            n.delete_local(o["k"])
        elif op == "updaterec":
            n.update_recursive({o["k"]: VALUES[o["v"]]})
        elif op == "reset":
            n.reset_state(recursive=o["rec"])
        elif op == "branch":
            self.find(n.branch())
        elif op == "parent":
            n.parent = self.node(o["m"])
        elif op in ("before", "after"):
            f = n.insert_before if op == "before" else n.insert_after
            m, new = f(node=self.node(o["m"]), single=o["single"])
            self.find(m)
            self.find(new)
        elif op == "remove":
            self.find(n.remove(single=o["single"]))

    def flat(self, items):
        out = {}
        for k, v in items:
            if hasattr(v, "items"):
                for k2, v2 in v.items():
                    out["{}.{}".format(k, k2)] = inv(v2)
            else:
                out[k] = inv(v)
        return out

    def show(self):
        out = []
        for n in list(self.nodes):
            full = self.flat(n.todict().items())
            items = self.flat((k, n[k]) for k in n)
            keys = list(n)
            if (full != items or len(n) != len(keys) or any(k not in n for k in keys)
                    or "absent" in n
                    or any(n.islocalkey(k) != (k in n.todict(full=False)) for k in keys)
                    or any(n.isinheritedkey(k) != (n.parent is not None and k in n.parent) for k in keys)):
                full = {"inconsistent": [repr(full), repr(items), len(n)]}
            out.append({
                "par": self.find(n.parent), "kids": [self.find(c) for c in n.children],
                "local": self.flat(n.todict(full=False).items()),
                "full": full, "changed": bool(n.changed), "root": self.find(n.root),
                "islocal": None,
            })
            out[-1].pop("islocal")
        return out


SHAPES = [[1, 2], [1, 1]]


def fix(show):
    # TLC prints empty functions as empty sequences
    for x in show:
        x["local"] = dict(x["local"]) if x["local"] else {}
        x["full"] = dict(x["full"]) if x["full"] else {}
    return show


def run(items):
    out = []
    for shape, pre, op, want in items:
        f = Forest(SHAPES[shape])
        try:
            for o in pre:
                f.apply(o)
            f.apply(op)
            got = f.show()
        except Exception as e:
            got = repr(e)
        if got != want:
            out.append((shape, pre, op, want, got))
    return out


def history(arg):
    seed, n = arg
    rng = random.Random(seed)
    nested = rng.random() < 0.4
    shape = rng.randint(0, 1)
    f = Forest(SHAPES[shape])
    recs = [{"op": {"op": "init", "x": shape + 1}, "show": f.show()}]
    for _ in range(n):
        N = len(f.nodes)
        x = rng.randint(1, N)
        op = rng.choices(["set", "del", "dellocal", "updaterec", "reset", "branch", "parent", "before", "after", "remove"],
                         [8, 2, 1, 2, 2, 2, 2, 2, 2, 1])[0]
        if N >= 8 and op in ("branch", "remove", "before", "after"):
            op = "set"
        if nested and op == "reset":
            op = "set"
        if nested and op == "del" and rng.random() < 0.5:
            op = "delsub"
        o = {"op": op, "x": x}
        if op == "set" and nested:
            o.update(k=rng.choice(["x", "n.u", "n.v", "n.u"]), v=rng.randint(1, 5))
        elif op in ("set", "updaterec"):
            o.update(k=rng.choice("xyz"), v=rng.randint(1, 5))
        elif op in ("del", "dellocal"):
            o.update(k=rng.choice("xyz"))
        elif op == "reset":
            o.update(rec=rng.random() < 0.5)
        elif op == "parent":
            o.update(m=rng.randint(0, N))
        elif op in ("before", "after"):
            o.update(m=rng.randint(0, N), single=rng.random() < 0.5)
        elif op == "remove":
            o.update(single=rng.random() < 0.7)
        try:
            f.apply(o)
            show = f.show()
        except Exception as e:
            recs.append({"op": o, "show": [], "nested": nested, "err": repr(e)})
            break
        for s in show:
            s["local"] = [[k, v] for k, v in s["local"].items()]
            s["full"] = [[k, v] for k, v in s["full"].items()]
        recs.append({"op": o, "show": show, "nested": nested})
        if any(isinstance(v, str) or k == "inconsistent" for s in show for k, v in s["full"]):
            # a value no one stored: keep the record judgeable
            recs[-1]["show"] = []
            break
    for s in recs[0]["show"]:
        s["local"], s["full"] = [], []
    return recs


def main():
    c = vlib.Check("P01")
    depth = 7 if c.thorough else 5
    smax = 5 if c.thorough else 4
    plan = []
    for env in ({"VP_CFG": "struct", "VP_MAX": smax, "VP_DEPTH": 99},
                {"VP_CFG": "data", "VP_MAX": 3, "VP_DEPTH": depth}):
        edges = c.tlc("ParamsMC", env=env, workers=8, timeout=800, heap="16g").values
        inits = []
        for par, kids in (([0, 1, 2], [[2], [3], []]), ([0, 1, 1], [[2, 3], [], []])):
            inits.append({"par": par, "kids": kids, "dat": [[], [], []],
                          "snap": [["never"]] * 3, "n": 3})
        p = vlib.replay_plan(edges, inits)
        if len(p) < 0.9 * len(edges):
            raise vlib.MachineryError("only {} of {} edges planned".format(len(p), len(edges)))
        plan += [(i, pre, e["o"], fix(e["show"])) for i, pre, e in p]
    for r in vlib.pmap(c, run, vlib.batches(plan, 500), timeout=120):
        if not isinstance(r, list):
            c.violation("edge:noanswer", "parameter tree operation did not answer {}".format(r))
            continue
        for shape, pre, op, want, got in r:
            c.violation("edge:" + op["op"], "after {} then {}: {} instead of {}".format(pre, op, got, want),
                        {"shape": shape, "history": pre, "op": op, "want": want, "got": got})
    c.traces += len(plan)
    c.sample({"history": plan[-1][1], "op": plan[-1][2]})
    nh = 800 if c.thorough else 120
    recs = []
    for h in vlib.pmap(c, history, [(c.seed * 7919 + i, 60) for i in range(nh)], timeout=60):
        if isinstance(h, list):
            recs.append({"steps": h})
        else:
            c.violation("history:noanswer", "history did not answer")
    for b in c.judge("ParamsTrace", recs, chunk=50):
        st = recs[b["i"]]["steps"]
        c.violation("history:" + str(b["bad"]), "step {} of a history: {}".format(b["step"], b["bad"]),
                    {"steps": st[: b["step"]], "want": b})
    c.finish()


vlib.main(main)
