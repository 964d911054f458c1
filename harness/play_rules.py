"""Interpreter of histories of evaluators (spec/Rules.tla)."""
from __future__ import annotations

import gc

from driver import OpTimeout, limit
from record import P, Table

from protosym.core.atom import AtomType
from protosym.core.evaluate import Evaluator
from protosym.core.exceptions import NoEvaluationRuleError
from protosym.core.sym import (
    AtomFunc,
    AtomRule,
    HeadOp,
    HeadRule,
    PyFunc1,
    PyOp1,
    PyOp2,
    PyOpN,
    Sym,
    star,
)
from protosym.core.tree import Tr, Tree

KINDS = [("Integer", "Integer", int), ("Symbol", "Symbol", str), ("Function", "Function", str),
         ("Num2", "Integer", int), ("Sym2", "Symbol", str)]     # label, name, type
BAD = -7
NONE = 1       # what stands for None


class Boom(Exception):
    pass


class V:
    """A value without any convenient property: false, of length zero, not hashable."""

    __slots__ = ("n",)
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, V) and other.n == self.n

    def __repr__(self):
        return f"V({self.n})"


class Kept:
    """A value made of the very sequence of arguments that the rule was given."""

    __slots__ = ("salt", "head", "vals", "n", "busy")
    __hash__ = None
    every = []

    def __init__(self, salt, head, vals):
        self.salt, self.head, self.vals = salt, head, vals
        self.n, self.busy = None, False
        Kept.every.append(self)

    def code(self):
        if self.n is None and not self.busy:
            self.busy = True
            codes = [*self.head, *[decode(v) for v in self.vals]]
            self.n = BAD if BAD in codes else hashm(self.salt, codes)
            self.busy = False
        return BAD if self.busy else self.n

    @classmethod
    def same(cls):
        """Whether all of them still are what they were when they were first looked at."""
        seen = [(k, k.n) for k in cls.every]
        for k in cls.every:
            k.n = None
        ok = all(n is None or k.code() == n for k, n in seen)
        cls.every.clear()
        return ok


def decode(v):
    if type(v) is V:
        return v.n
    if type(v) is Kept:
        return v.code()
    if v is None:
        return NONE
    if type(v) is int and 0 <= v < P:
        return v
    if type(v) is float and v == int(v) and 0 <= v < P:
        return int(v)
    if v == "" and type(v) is str:
        return 0
    return BAD


def encode(n, how):
    if how == "int":
        return n
    if how == "float":
        return float(n)
    if how == "str" and n == 0:
        return ""
    if how == "none" and n == NONE:
        return None
    return V(n)


def hashm(salt, args):
    acc = (salt * 7 + len(args) * 13 + 5) % P
    for a in args:
        acc = (acc * 37 + a * 101 + salt) % P
    return acc


class S(Sym):
    """A symbolic class without operators."""


class S2(Sym):
    """Another one."""


class Play:
    def __init__(self, script):
        self.script = script
        self.tab = Table()
        self.types = []
        self.sym = (S, S2)[script.get("cls", 0)] if script["level"] == "sym" else None
        for label, name, typ in KINDS:
            if self.sym:
                sat = self.sym.new_atom(name, typ)
                self.types.append(sat)
                self.tab.register_kind(sat.atom_type, label)
            else:
                at = AtomType(name, typ)
                self.types.append(at)
                self.tab.register_kind(at, label)
        self.label = {k[0]: i for i, k in enumerate(KINDS)}
        self.nodes = [None]
        self.churn = script.get("lean", False)
        self.defs = [None, *script["nodes"]]
        for nd in script["nodes"]:
            if isinstance(nd[0], str):
                k = self.label[nd[0]]
                v = int(nd[1]) if KINDS[k][2] is int else nd[1]
                if self.sym:
                    self.nodes.append(self.types[k](v).rep)
                else:
                    self.nodes.append(Tr(self.types[k](v)))
            else:
                self.nodes.append(self.nodes[nd[0]](*[self.nodes[c] for c in nd[1:]]))
        self.ids = [0] + [self.tab.tree(t) for t in self.nodes[1:]]
        if self.churn:      # compounds are built for every use, addresses get reused
            self.nodes = [t if t is None or not t.children else None for t in self.nodes]
        self.wilds = [self.sym.new_wild(f"w{i}") for i in range(4)] if self.sym else []
        self.evs = [None]
        self.log = []
        self.depth = 0
        self.ev = []

    def node(self, k, memo=None):
        if self.nodes[k] is not None:
            return self.nodes[k]
        memo = {} if memo is None else memo
        if k not in memo:
            nd = self.defs[k]
            memo[k] = self.node(nd[0], memo)(*[self.node(c, memo) for c in nd[1:]])
        return memo[k]

    # -- rules

    def call_log(self, salt, args):
        if self.depth == 0:
            self.log.append({"salt": salt, "args": args})

    def give(self, ev, r, codes, args, kept=None):
        """The value of a rule: codes are hashed, args are its arguments, kept the sequence that held them."""
        f = r["f"]
        if f == "raise":
            raise Boom
        if f == "const":
            return encode(r["salt"], r["as"])
        if f == "first" and args:
            return args[0]
        if f == "nest":
            self.depth += 1
            try:
                v = self.run(ev, r["how"], r["e"], {})
            finally:
                self.depth -= 1
            codes = [*codes, decode(v)]
        if BAD in codes:
            return V(BAD)
        if r["as"] == "taken" and type(kept) is list:      # the list is the rule's own
            kept.clear()
            kept.append(V(BAD))
        if r["as"] == "kept" and kept is not None and f == "hash":
            return Kept(r["salt"], codes[:len(codes) - len(args)], kept)
        return encode(hashm(r["salt"], codes), r["as"])

    def func(self, ev, r):
        salt = r["salt"]

        def many(given):
            vals = list(given)
            codes = [decode(v) for v in vals]
            self.call_log(salt, codes)
            return self.give(ev, r, codes, vals, given)

        if r["k"] == "op":
            if r["mode"] == "one":
                return lambda a: many([a])
            if r["mode"] == "two":
                return lambda a, b: many([a, b])
            return many
        if r["k"] == "ogen":
            def ogen(head, given):
                vals = list(given)
                codes = [decode(v) for v in vals]
                self.call_log(salt, codes)
                h = self.tab.tree(head) if type(head) is Tree else BAD
                return self.give(ev, r, [h, *codes], vals, given)
            return ogen
        if r["k"] == "agen":
            def agen(tree):
                c = self.tab.tree(tree) if type(tree) is Tree else BAD
                return self.give(ev, r, [c], [])
            return agen

        def atom(value):
            _, _, typ = KINDS[self.label[r["ty"]]]
            c = BAD
            if type(value) is typ:
                nm = str(value) if r["ty"] == "Integer" or typ is str else f"{typ.__name__}:{value!r}"
                c = self.tab.index.get((r["ty"], nm, ()), BAD)
            return self.give(ev, r, [c], [])
        return atom

    # -- operations

    def wrap(self, n):
        return self.sym(self.node(n)) if self.sym else self.node(n)

    def run(self, ev, how, e, vals):
        if self.sym and how == "call":
            expr = self.wrap(e)
            if not vals and e % 2:
                return ev(expr)
            return ev(expr, {self.wrap(k): v for k, v in vals.items()})
        core = ev.evaluator if self.sym else ev
        values = {self.node(k): v for k, v in vals.items()}
        if how == "recursive":
            return core.eval_recursive(self.node(e), values)
        if how == "forward":
            return core.eval_forward(self.node(e), values)
        if how == "evaluate":
            return core.evaluate(self.node(e), values)
        if not vals and e % 2:
            return core(self.node(e))
        return core(self.node(e), values)

    def rule_rec(self, r):
        return {"k": r["k"], "ty": r.get("ty", ""), "h": self.ids[r.get("h", 0)], "mode": r.get("mode", ""),
                "f": r["f"], "salt": r["salt"], "e": self.ids[r.get("e", 0)]}

    def register(self, op):
        r = op["rule"]
        ev = self.evs[op["v"]]
        func = self.func(ev, r)
        if op.get("direct"):
            core = ev.evaluator if self.sym else ev
            if r["k"] == "atom":
                t = self.types[self.label[r["ty"]]]
                core.add_atom(t.atom_type if self.sym else t, func)
            elif r["k"] == "agen":
                core.add_atom_generic(func)
            elif r["k"] == "ogen":
                core.add_op_generic(func)
            else:
                add = {"one": core.add_op1, "two": core.add_op2, "many": core.add_opn}[r["mode"]]
                add(self.node(r["h"]), func)
            return
        cls = {"PyOp1": PyOp1, "PyOp2": PyOp2, "PyOpN": PyOpN, "PyFunc1": PyFunc1, "AtomFunc": AtomFunc,
               "HeadOp": HeadOp}
        call, pat = op["call"], op["pat"]
        w = self.wilds
        if call["t"] == "notcall":
            c = (func, None, 3, w[0])[op["v"] % 4]
        else:
            c = cls[call["t"]](func)(*[w[i] for i in call["args"]])
        ws = [w[i] for i in pat["args"]]
        if pat["t"] == "app":
            p = self.sym(self.node(r["h"])(*[x.rep for x in ws]))
        elif pat["t"] == "star":
            p = self.sym(self.node(r["h"])(*[star(x).rep for x in ws]))
        elif pat["t"] == "bare":
            p = self.wrap(r["h"])
        elif pat["t"] == "atomval":
            p = self.types[self.label[r["ty"]]][ws[0]]
        elif pat["t"] == "atomrule":
            p = AtomRule[ws[0]]
        else:
            p = HeadRule(*ws)
        ev[p] = c

    def step(self, op):
        o = op["op"]
        if o == "newev":
            self.evs.append(self.sym.new_evaluator(f"e{len(self.evs)}", object) if self.sym else Evaluator())
            self.ev.append({"op": "newev"})
        elif o == "gc":
            gc.collect()
        elif o == "reg":
            rec = {"op": "reg", "v": op["v"], "rule": self.rule_rec(op["rule"]), "direct": bool(op.get("direct")),
                   "pat": op.get("pat", {"t": "", "args": []}), "call": op.get("call", {"t": "", "args": []}),
                   "ok": True, "exc": ""}
            try:
                with limit():
                    self.register(op)
            except Exception as e:
                rec["ok"], rec["exc"] = False, type(e).__name__
            self.ev.append(rec)
        elif o == "eval":
            vals = {int(k): encode(v[0], v[1]) for k, v in op.get("vals", {}).items()}
            rec = {"op": "eval", "v": op["v"], "how": op["how"], "e": self.ids[op["e"]],
                   "vals": [{"id": self.ids[k], "n": decode(v)} for k, v in vals.items()],
                   "ok": True, "n": 0, "err": "", "log": []}
            self.log, self.depth = [], 0
            Kept.every.clear()
            try:
                with limit():
                    rec["n"] = decode(self.run(self.evs[op["v"]], op["how"], op["e"], vals))
                if not Kept.same():
                    rec["n"] = BAD
            except OpTimeout:
                self.ev.append({"op": "timeout"})
                return
            except Exception as e:
                rec["ok"] = False
                rec["err"] = ("missing" if isinstance(e, NoEvaluationRuleError) else "boom" if isinstance(e, Boom)
                              else "arity" if isinstance(e, TypeError) else type(e).__name__)
            rec["log"] = list(self.log)
            self.ev.append(rec)


def play(script):
    p = Play(script)
    for op in script["ops"]:
        p.step(op)
    return {"tab": p.tab.nodes, "ev": p.ev}


def crashed(script):
    return {"tab": Table().nodes, "ev": [{"op": "crash"}]}
