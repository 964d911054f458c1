"""Running the check of one property."""
from __future__ import annotations

import concurrent.futures
import json
import os
import random
import sys
import time

import common
from common import Broken, Report, Work


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{seed}/{prop}/{tier}")
        self.work = Work()
        self.report = Report(prop, tier, seed)
        self.cfgs = 0
        self.budget = float(os.environ.get("VERIF_BUDGET", "25" if self.quick else "900"))
        self.deadline = self.report.t0 + self.budget

    # -- design models

    def design(self, module, consts=None, simulate=None, depth=None, name=None, invariants=None,
               expect=None, timeout=1500, spec=None, base=None, workers=8):
        """Check a design model; returns the queries it printed."""
        self.cfgs += 1
        cfg = common.make_cfg(self.work, module, f"{module}_{self.cfgs}", consts, invariants=invariants,
                              spec=spec, base=base)
        args = []
        if simulate:
            args = ["-simulate", f"num={simulate}", "-depth", str(depth or 60), "-seed", str(self.seed)]
        r = common.model_check(self.work, module, cfg, expect_violation=expect, args=args, timeout=timeout,
                               workers=workers)
        if not simulate and not expect and r["distinct"] < 2:
            raise Broken(f"{module}: nothing explored")
        label = name or module
        self.report.model(label + (" (negative control)" if expect else "") + (" (simulation)" if simulate else ""),
                          r, exhaustive=not simulate and not expect)
        return [d for d in common.printed_json(r["out"]) if isinstance(d, dict) and "q" in d]

    # -- conformance

    def play(self, name, scripts, module="session", spec="TraceSession", cfg=None, env=None, chunk=2500,
             timeout=800, procs=8):
        """Run scripts against the library and let TLC decide what happened."""
        total = 0
        for k in range(0, len(scripts), chunk):
            part = scripts[k:k + chunk]
            sessions = common.drive(self.work, module, part, env=env, timeout=timeout, procs=procs)
            verdicts, r = common.validate(self.work, spec, sessions, cfg=cfg, timeout=timeout)
            self.report.sessions(name, sessions, verdicts, r, part)
            for i, bad in sorted(verdicts.items()):
                mine = [b for b in bad if b[1].split(".")[0] in (self.prop, "any")]
                if mine:
                    total += 1
                    self.report.violation({
                        "property": self.prop, "clauses": mine, "module": module, "spec": spec,
                        "events": [sessions[i]["ev"][b[0] - 1] for b in mine[:3]
                                   if 0 < b[0] <= len(sessions[i].get("ev", ()))],
                        "table": readable(sessions[i].get("tab", [])),
                        "script": part[sessions[i]["script"]]})
            if total >= 20:
                break
        return total

    def random(self, name, make, first, module="session", spec="TraceSession", chunk=None, **kw):
        """Random scripts: `first` of them, and in the thorough tier more until the time is used up."""
        n = first
        while True:
            rng = random.Random(self.rng.random())
            scripts = [make(rng) for _ in range(n)]
            for s in scripts[1::2]:
                s["lean"] = True
            bad = self.play(name, scripts, module, spec, **kw)
            if bad or self.quick or time.time() > self.deadline:
                return
            n = chunk or first

    def sample(self, queries, n):
        """In the quick tier, n of the queries."""
        if not self.quick or len(queries) <= n:
            return queries
        return [queries[i] for i in sorted(self.rng.sample(range(len(queries)), n))]

    def finish(self):
        self.work.close()
        return self.report.finish()


def readable(tab, limit=400):
    out = []

    def show(i, d=0):
        n = tab[i - 1]
        if not n["ch"]:
            return n["nm"]
        if d > 6:
            return "..."
        return "(" + " ".join(show(c, d + 1) for c in n["ch"]) + ")"
    for i in range(10, min(len(tab), 60) + 1):
        out.append(f"{i}: {show(i)[:limit]}")
    return out


# ---------------------------------------------------------------- printed tables -> scripts

PREFIX = [("Function", "Add"), ("Function", "Mul"), ("Function", "pow"), ("Function", "sin"),
          ("Function", "cos"), ("Function", "List"), ("Integer", "0"), ("Integer", "1"), ("Integer", "-1")]


class Builder:
    """Script building nodes of printed tables; nodes of equal structure are built once."""

    def __init__(self, prop, needvals=True, variant=0):
        self.ops, self.reg, self.n = [], {}, 0
        self.prop, self.needvals, self.variant = prop, needvals, variant
        self.use([])

    def use(self, table):
        self.nodes = [None] + list(PREFIX) + table
        self.keys = [None]
        for nd in self.nodes[1:]:
            self.keys.append(tuple(nd) if isinstance(nd[0], str) else tuple(self.keys[c] for c in nd))

    def push(self, op):
        self.ops.append(op)
        self.n += 1
        return self.n

    def node(self, i):
        key = self.keys[i]
        if key in self.reg:
            return self.reg[key]
        nd = self.nodes[i]
        if isinstance(nd[0], str):
            k = self.push({"op": "atom", "ty": nd[0], "v": nd[1]})
        else:
            kind = (i + self.variant) % 3
            sign = {1: "+", 2: "*", 3: "**"}.get(nd[0])
            if sign and len(nd) == 3 and kind < 2:
                a, ints = [], 0
                for c in nd[1:]:
                    lit = self.nodes[c][0] == "Integer" and kind == 0 and not ints
                    ints += lit
                    a.append({"i": self.nodes[c][1]} if lit else {"r": self.node(c)})
                k = self.push({"op": "bin", "o": sign, "a": a})
            else:
                op = {"op": "call", "a": [{"r": self.node(c)} for c in nd]}
                if kind == 0:
                    op["tree"] = True
                k = self.push(op)
        self.reg[key] = k
        return k

    def o(self, i):
        return {"r": self.node(i)}

    def script(self, **kw):
        return dict(prop=self.prop, ops=self.ops, needvals=self.needvals, **kw)


def group(queries):
    """Queries by table."""
    by = {}
    for q in queries:
        by.setdefault(json.dumps(q["table"]), []).append(q["q"])
    return [(json.loads(k), v) for k, v in by.items()]


def scripts_from(queries, prop, add, needvals=True, per=40):
    """Scripts of about `per` queries each, over several tables."""
    out, s, n = [], None, 0
    for table, qs in group(queries):
        for q in qs:
            if s is None or n >= per:
                s, n = Builder(prop, needvals, variant=len(out)), 0
                out.append(s)
            s.use(table)
            add(s, q)
            n += 1
    for s in out:
        s.ops.append({"op": "frame"})
    return [s.script() for s in out]


def main(argv):
    import properties

    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in properties.CHECKS:
        print(f"no check for {prop}")
        return 2
    c = Check(prop, tier, seed)
    try:
        if "--replay" in argv:
            with open(argv[argv.index("--replay") + 1]) as f:
                v = json.load(f)
            c.play("replay", [v["script"]], v["module"], v["spec"], env=v.get("env"))
        else:
            properties.CHECKS[prop](c)
    except Broken as e:
        c.work.close()
        if c.report.violations:
            return c.report.finish()
        print(f"BROKEN {prop}: {e}")
        return 2
    rc = c.finish()
    if rc == 0:
        print(f"OK property={prop} tier={tier} models={len(c.report.models)} "
              f"sessions={c.report.traces} states={c.report.states} wall={time.time() - c.report.t0:.0f}s")
    return rc
