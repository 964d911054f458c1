"""Interpreter of scripts of several threads (spec/TraceThreads.tla).

A script has operations done before, a list of operations for each thread, and
says which schedules are tried.  Every schedule is run in a process of its own.
"""
from __future__ import annotations

import gc
import json
import os
import random
import time

import sched
from driver import forked

sched.install()

from play_session import NOREG, NORES, PUSH, Session, Skip, WrongType  # noqa: E402
from record import Table, node_atom, node_double  # noqa: E402

from protosym.simplecas import Expr  # noqa: E402

RUN_LIMIT = 20


class Run(Session):
    """One execution of the operations of a script."""

    def __init__(self, script, table=None):
        super().__init__(script)
        if table is not None:
            self.tab = table
        else:
            self.tab = Table()
            self.kinds()
        self.first = 1
        self.hist, self.tokens = [], {}
        self.shared = {}
        self.schedule = None

    def call(self, ev, f):
        if self.schedule is not None:
            return super().call(ev, lambda: self.schedule.stepped(f))
        return super().call(ev, f)

    def transformer(self, op):
        key = json.dumps([op["hr"], op["ar"]])
        if key not in self.shared:
            self.shared[key] = super().transformer(op)
        return self.shared[key]

    def token(self, obj):
        return self.tokens.setdefault(id(obj), len(self.tokens) + 1)

    def do(self, op, ev, reg):
        """One operation; what it gives goes to register `reg`."""
        name = op["op"]
        rec, obj = (NOREG if reg else NORES), None
        e = {"op": name}
        try:
            obj, rec2 = getattr(self, "op_" + name)(op, e)
            rec = rec2 if rec2 is not None else rec
        except Skip:
            e = {"op": "skip"}
        except WrongType as err:
            e = {"op": "error", "clause": "any.type", "what": f"{name}: {err}"}
        except Exception as err:        # not an expression one can look at
            e, rec, obj = {"op": "error", "clause": "any.broken", "what": repr(err)}, NOREG if reg else NORES, None
        e["res"] = rec
        ev.update(e)
        if reg:
            ok = rec["t"] != "x"
            self.regs[reg], self.recs[reg] = (obj if ok else None), rec
            if ok and isinstance(obj, Expr):
                self.hist.append({"do": "got", "r": reg, "id": rec["id"], "o": self.token(obj)})

    def op_drop(self, op, ev):
        r = op["r"]
        ev.update(op="skip")
        if self.regs[r] is not None:
            self.hist.append({"do": "drop", "r": r, "id": 0, "o": 0})
            box = [self.regs[r]]
            self.regs[r] = None
            self.call(ev, box.pop)
        return None, None

    def parts(self):
        """Objects that exist: compounds, atoms, and where they are."""
        out, seen = set(), set()
        stack = [x.rep for x in self.regs if isinstance(x, Expr)]
        keep = list(stack)
        while stack:
            t = stack.pop()
            if id(t) in seen:
                continue
            seen.add(id(t))
            out.add((self.tab.tree(t), 0, self.token(t)))
            if not t.children:
                out.add((self.tab.tree(t), 1, self.token(t.value)))
                keep.append(t.value)
            stack.extend(t.children)
        for x in self.regs:
            if isinstance(x, Expr):
                out.add((self.tab.tree(x.rep), 2, self.token(x)))
        return [{"id": i, "k": k, "o": o} for i, k, o in sorted(out)]


class Threads:
    def __init__(self, script):
        self.script = script
        self.threads = script["threads"]
        n = 0
        self.regof = []
        for ops in [script["setup"]] + self.threads:
            regs = []
            for op in ops:
                if op["op"] in PUSH:
                    n += 1
                    regs.append(n)
                else:
                    regs.append(0)
            self.regof.append(regs)
        self.nregs = n

    def before(self):
        self.run = r = Run(self.script)
        r.regs = [None] * (self.nregs + 1)
        r.recs = [None] * (self.nregs + 1)
        evs = []
        for op, reg in zip(self.script["setup"], self.regof[0]):
            evs.append({})
            r.do(op, evs[-1], reg)
        r.hist = [h for h in r.hist if r.regs[h["r"]] is not None]
        for ops in self.threads:        # shared transformers exist before
            for op in ops:
                if op["op"] == "xform":
                    try:
                        r.transformer(op)
                    except Exception:
                        pass
        return evs

    def bodies(self, evs):
        r = self.run

        def make(t):
            def body(schedule):
                for k, op in enumerate(self.threads[t]):
                    r.do(op, evs[t][k], self.regof[t + 1][k])
            return body
        return [make(t) for t in range(len(self.threads))]

    def execute(self, plan, opcodes):
        """In a process of its own: run the threads by `plan`."""
        gc.disable()
        r = self.run
        evs = self.unknown("timeout")
        s = sched.Schedule(self.bodies(evs), plan, opcodes)
        r.schedule = s
        ok = s.run(RUN_LIMIT)
        r.schedule = None
        try:
            parts = r.parts() if ok else []
        except Exception:
            ok, parts = False, []
        out = {"ev": [e for ops in evs for e in ops], "hist": r.hist, "parts": parts,
               "ok": ok, "new": r.tab.nodes}
        return out, s.counts

    def unknown(self, what):
        return [[{"op": what, "res": NOREG if op["op"] in PUSH else NORES} for op in ops] for ops in self.threads]


def plans(script, counts, rng):
    """Schedules to try: where to switch."""
    n, k = script["runs"], len(counts)
    out = []
    if script["mode"] == "one":         # each thread is interrupted once, by all others
        for t in range(k):
            others = [i for i in range(k) if i != t]
            for steps in range(1, counts[t]):
                rest = others[rng.randrange(len(others)):] + others
                out.append([[t, steps]] + [[o, -1] for o in rest] + [[t, -1]])
    elif script["mode"] == "two":       # and so is the interrupting one
        for _ in range(n):
            t = rng.randrange(k)
            o = rng.choice([i for i in range(k) if i != t])
            a, b = rng.randint(1, max(1, counts[t] - 1)), rng.randint(1, max(1, counts[o] - 1))
            out.append([[t, a], [o, b], [t, -1], [o, -1]])
    else:                               # often
        for _ in range(n):
            mean = rng.choice((1, 2, 4, 8, 20, 60))
            out.append([[rng.randrange(k), 1 + int(rng.expovariate(1 / mean))]
                        for _ in range(min(600, 2 * sum(counts) // mean + 5))])
    if len(out) > n:
        out = [out[i] for i in sorted(rng.sample(range(len(out)), n))]
    return out


def explore(script):
    rng = random.Random(json.dumps(script["threads"]) + str(script["seed"]))
    th = Threads(script)
    setup = th.before()
    tab = th.run.tab
    opcodes = script.get("opcodes", False)
    first = forked(lambda: th.execute([], opcodes), RUN_LIMIT + 10)
    if first is None:
        return crashed(script)
    base, counts = first
    tab.adopt(base.pop("new"))
    found = {}
    tried = 0
    end = time.time() + 60
    for plan in plans(script, counts, rng):
        if time.time() > end:
            break
        got = forked(lambda: th.execute(plan, opcodes), RUN_LIMIT + 10)
        tried += 1
        if got is None:
            out = {"ev": [e for ops in th.unknown("crash") for e in ops], "hist": [], "parts": [], "ok": False}
        else:
            out = got[0]
            tab.adopt(out.pop("new"))
        key = json.dumps(out)
        if key not in found:
            found[key] = dict(out, plan=plan, times=0)
        found[key]["times"] += 1
        if not out["ok"]:
            break
    pts = [[{"id": tab.add(node), "d": d} for node, d in pt] for pt in points(th.run)]
    return {"tab": tab.nodes, "ev": setup + base["ev"], "nset": len(setup), "pts": pts,
            "needvals": script.get("needvals", True),
            "runs": [dict(base, plan=[], times=1)] + list(found.values()), "tried": tried, "steps": counts}


def points(run):
    return [[(node_atom("Symbol", name), node_double(run.number(v))) for name, v in pt]
            for pt in run.script.get("pts", ())]


def play(script):
    out = forked(lambda: explore(script), 110)
    return out if out is not None else crashed(script)


def crashed(script):
    t = Table()
    return {"tab": t.nodes, "ev": [{"op": "crash", "res": NORES}], "needvals": True, "pts": [], "nset": 0,
            "runs": [], "tried": 0, "steps": []}
