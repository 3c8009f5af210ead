"""T04: termination signals and nested tear-down blocks."""
import os
import random
import signal

import vlib
from spectrocrunch.utils import signalhandling

SIGS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP]


class Stop(BaseException):
    """raised by the original signal handler"""


class Err(Exception):
    pass


class TdErr(Exception):
    pass


class SetupErr(Exception):
    pass


class Machine:
    def __init__(self, orig, edges):
        self.kind = orig
        self.todo = list(edges)[::-1]
        self.ev = []
        self.depth = 0
        self.blocks = []
        self.bad = None
        self.done = []
        self.current = None
        self.signo = SIGS[0]
        for s in SIGS:
            signal.signal(s, self.orig)
        self.origh = {s: signal.getsignal(s) for s in SIGS}

    def orig(self, signum, frame):
        self.ev.append(["orig", 0, ""] if signum == self.signo else ["orig-wrong-signal", signum, ""])
        if self.kind == "raise":
            raise Stop()

    def send(self):
        os.kill(os.getpid(), self.signo)
        for _ in range(3):
            pass

    def handler(self):
        hs = [signal.getsignal(s) for s in SIGS]
        if all(h == self.origh[s] for h, s in zip(hs, SIGS)):
            return 0
        for k, b in enumerate(self.blocks, 1):
            if all(h == b._newhandler for h in hs):
                return k
        return "other"

    def observe(self):
        if self.current is None:
            return
        e, self.current = self.current, None
        want = [[x["e"], x["k"], x["why"]] for x in e["ev"]]
        got = {"events": self.ev, "blocks": self.depth, "handler": self.handler()}
        exp = {"events": want, "blocks": len(e["t"]["stk"]), "handler": e["t"]["h"]}
        self.done.append(e["o"])
        if got != exp and self.bad is None:
            self.bad = (list(self.done), exp, got)
            self.todo = []
        self.ev = []

    def next(self):
        self.observe()
        if not self.todo:
            return None
        self.current = self.todo.pop()
        self.signo = SIGS[len(self.done) % 3]
        return self.current["o"]

    def enter(self, o):
        k = self.depth + 1

        def setup():
            self.ev.append(["setup", k, ""])
            if o["setup"] == "raise":
                raise SetupErr()
            if o["setup"] == "sig":
                self.send()

        def teardown(a, b, c):
            why = "none" if a is None else "signal" if a is RuntimeError and "ignal" in str(b) else "exception"
            if a is not None and (not isinstance(b, a) or c is None):
                why = "wrong exception info"
            self.ev.append(["teardown", k, why])
            if o["td"] == "raise":
                raise TdErr()
            return o["td"] == "true"

        ht = signalhandling.HandleTermination(setup=setup, teardown=teardown, resend=o["re"])
        del self.blocks[k - 1 :]
        self.blocks.append(ht)
        try:
            with ht:
                self.depth = k
                self.block()
        finally:
            self.depth = k - 1
            del self.blocks[k - 1 :]

    def block(self):
        while True:
            o = self.next()
            if o is None:
                raise Finished()
            if o["op"] == "enter":
                self.enter(o)
            elif o["op"] == "leave":
                return
            elif o["op"] == "exc":
                raise Err()
            elif o["op"] == "sig":
                self.send()

    def main(self):
        while self.todo or self.current is not None:
            try:
                try:
                    self.block()
                except (Stop, Err, TdErr, SetupErr):
                    self.ev.append(["raised", 0, ""])
            except Finished:
                pass
        return self.bad


class Finished(BaseException):
    """end of the replay (blocks are left to themselves)"""


def run(item):
    orig, edges = item
    m = Machine(orig, edges)
    try:
        bad = m.main()
    except Exception as e:
        bad = (m.done, "no other exception", repr(e))
    for s in SIGS:
        signal.signal(s, signal.SIG_DFL)
    return bad


def main():
    c = vlib.Check("T04")
    edges = c.tlc("TerminationMC", env={"VP_MAX": 4 if c.thorough else 3}, workers=4).values
    plan = []
    for orig in ("raise", "return"):
        sub = [e for e in edges if e["f"]["orig"] == orig]
        ts = vlib.tours(sub, [{"stk": [], "h": 0, "orig": orig}], maxlen=60)
        plan += [(orig, [{k: e[k] for k in ("o", "t", "ev")} for e in t]) for _, t in ts]
        # random walks in the model
        rng = random.Random(c.seed)
        out = {}
        for e in sub:
            out.setdefault(vlib.canon(e["f"]), []).append(e)
        for _ in range(4000 if c.thorough else 400):
            k, walk = vlib.canon({"stk": [], "h": 0, "orig": orig}), []
            for _ in range(80):
                e = rng.choice(out[k])
                walk.append({x: e[x] for x in ("o", "t", "ev")})
                k = vlib.canon(e["t"])
            plan.append((orig, walk))
    n = 0
    for it, r in zip(plan, vlib.pmap(c, run, plan, timeout=60)):
        n += len(it[1])
        if r is None:
            continue
        if isinstance(r, (vlib.Hang, vlib.Died)):
            c.violation("noanswer", "no answer: {}".format(r), {"orig": it[0], "ops": [e["o"] for e in it[1]]})
            continue
        ops, want, got = r
        c.violation("{}:{}".format(ops[-1] if ops else "", it[0]),
                    "original handler that {}s; after {}: {} instead of {}".format(it[0], ops[-4:], got, want),
                    {"orig": it[0], "ops": ops, "want": want, "got": got})
    c.traces = len(plan)
    c.evaluations = n
    c.sample([e["o"] for e in plan[0][1]])
    c.assume("no second signal arrives while a tear-down function runs")
    c.assume("original handlers are python functions (SIG_DFL and SIG_IGN cannot be called; the test-suite pins that)")
    c.finish()


vlib.main(main)
