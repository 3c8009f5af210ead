"""Checks T01 (atomic), T02 (run once, naming), T03 (dependencies, sequences)
share the model spec/Tasks.tla and its driver."""
import os
import random

import vlib
import taskmodel as tm

COMMON = {"error", "output-missing", "output-lost", "output-unexpected", "outcome", "done"}
OWN = {
    "T01": COMMON | {"output-incomplete", "output-early", "output-after-failure", "temporary-output-left",
                     "temporary-directory-left", "output-directory", "output-overwritten", "default",
                     "signal-handlers", "signal-resent"},
    "T02": COMMON | {"run-once", "output-overwritten", "output-name", "name", "output-directory"},
    "T03": COMMON | {"gating", "sequence", "ready"},
}
TOURS = {"T01": ["same", "deps"], "T02": ["names", "same"], "T03": ["deps", "place"]}
PART = {"same": 0.3, "deps": 0.5, "names": 0.2, "place": 0.15}
INIT = {"outs": [], "run": [[], []], "dead": 0, "deadloc": 0, "dflt": [[], []]}


def decorate(ops, rng):
    """choices that must make no difference"""
    out = []
    for o in ops:
        o = dict(o)
        if o["op"] == "start":
            o["fresh"] = rng.random() < 0.5
            o["via"] = rng.choice(["task", "path"])
        elif o["op"] == "end" and o["how"] == "term":
            o["how"] = rng.choice(["term", "int", "hup"])
        elif o["op"] == "end" and o["how"] == "exc":
            o["x"] = rng.randrange(5)
        out.append(o)
    return out


def random_ops(rng, n, kills, seqs):
    """random operations; a light copy of the model's enabling conditions"""
    done = set()
    run = {1: [], 2: []}
    ops = []
    dead = 0
    for _ in range(n):
        p = rng.choice([1, 1, 2])
        ready = [d for d in range(1, 9) if set(tm.CAT[d]["deps"]) <= done]
        x = rng.random()
        st = run[p]
        if not st and x < seqs:
            ds = [rng.choice(ready) if rng.random() < 0.7 else rng.randint(1, 8) for _ in range(rng.randint(1, 4))]
            k = rng.choice([0, 0, 1, 2, 3])
            ops.append({"op": "seq", "p": p, "ds": ds, "k": k})
            for i, d in enumerate(ds, 1):
                if d in done:
                    continue
                if set(tm.CAT[d]["deps"]) <= done and i != k:
                    done.add(d)
                else:
                    break
        elif not st or (len(st) < 3 and x < 0.25):
            d = rng.choice(ready) if rng.random() < 0.8 else rng.randint(1, 8)
            ops.append({"op": "start", "p": p, "d": d})
            if d not in done and set(tm.CAT[d]["deps"]) <= done:
                st.append([d, 0])
        elif x > 1 - kills and dead < 3:
            ops.append({"op": "kill", "p": p})
            dead += len(st)
            run[p] = []
        elif x > 0.8:
            how = rng.choice(["exc", "exc", "term"])
            ops.append({"op": "end", "p": p, "how": how})
            if how == "exc":
                st.pop()
            else:
                run[p] = []
        elif st[-1][1] < 2:
            st[-1][1] += 1
            ops.append({"op": "step", "p": p})
        else:
            ops.append({"op": "end", "p": p, "how": "ok"})
            done.add(st.pop()[0])
    return ops


def main(pid):
    c = vlib.Check(pid)
    c.tlc("TasksMC", env={"VP_SEL": "names", "VP_P": 2, "VP_DEAD": 0, "VP_EMIT": 0}, workers=8)
    if c.thorough:
        for sel in ("fam", "place"):
            c.tlc("TasksMC", env={"VP_SEL": sel, "VP_P": 2, "VP_DEAD": 1, "VP_EMIT": 0}, workers=8, timeout=800)
    rng = random.Random(c.seed)
    items = []
    nedges = 0
    sels = TOURS[pid] if not c.thorough else ["same", "deps", "names", "fam", "place"]
    for sel in sels:
        edges = c.tlc("TasksMC", env={"VP_SEL": sel, "VP_P": 1, "VP_DEAD": 1 if sel == "same" else 0, "VP_EMIT": 1},
                      workers=4).values
        nedges += len(edges)
        ts = vlib.tours(edges, [INIT], maxlen=50)
        if sum(len(t) for _, t in ts) < len(edges):
            raise vlib.MachineryError("tours do not cover the edges")
        if not c.thorough:
            # every edge in the thorough tier, a sample of the tours in the quick one
            ts = rng.sample(ts, int(len(ts) * PART[sel] + 0.5))
        for _, t in ts:
            items.append((decorate([e["o"] for e in t], rng), False))
    n = 400 if c.thorough else 32
    for i in range(n):
        r = random.Random(c.seed * 1000003 + i)
        items.append((decorate(random_ops(r, 45, 0.05 if pid == "T01" else 0.01, 0.4 if pid == "T03" else 0.1), r),
                      i % 4 == 0))
    rng.shuffle(items)
    recs = []
    for h, it in zip(vlib.pmap(c, tm.history, items, timeout=240), items):
        if isinstance(h, list):
            recs.append({"steps": h})
        else:
            c.violation("noanswer", "a history of tasks did not answer: {}".format(h), it[0])
    c.evaluations = sum(len(r["steps"]) for r in recs)
    c.notes.append("{} edges toured, {} random histories".format(nedges, n))
    c.sample([s["op"] for s in recs[0]["steps"]])
    for b in c.judge("TasksTrace", recs, chunk=40):
        if b["bad"] not in OWN[pid]:
            c.notes.append("not this property: {}".format(b["bad"]))
            continue
        st = recs[b["i"]]["steps"]
        c.violation(b["bad"], "step {} ({}): {}; seen {}; model {}".format(
            b["step"], st[b["step"] - 1]["op"], b["bad"], st[b["step"] - 1]["obs"], b["model"]),
            {"ops": [s["op"] for s in st[: b["step"]]], "seen": st[b["step"] - 1], "model": b["model"]})
    c.assume("a process is stopped between, not inside, HDF5 library calls")
    c.assume("steps of different processes do not overlap inside one HDF5 file access")
    c.finish()
