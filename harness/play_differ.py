"""Interpreter of histories of differentiators (spec/Duals.tla)."""
from __future__ import annotations

import gc

from driver import OpTimeout, limit
from record import Table

import protosym.simplecas as sc
from protosym.core import sym as core_sym
from protosym.core.atom import AtomType
from protosym.core.differentiate import DiffProperties, diff_forward
from protosym.core.sym import Sym, SymDifferentiator
from protosym.core.tree import SubsFunc, Tr


class S(Sym):
    """A symbolic class without operators."""


class S2(Sym):
    """Another one."""


class Play:
    def __init__(self, script):
        self.level = script["level"]
        self.tab = Table()
        self.churn = script.get("lean", False)
        if self.level == "sc":
            self.cls = sc.Expr
            types = {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function}
            kinds = {k: t.atom_type for k, t in types.items()}
            self.make = {k: t for k, t in types.items()}
        elif self.level == "own":
            self.cls = (S, S2)[script.get("cls", 0)]
            types = {k: self.cls.new_atom(k, t) for k, t in (("Integer", int), ("Symbol", str), ("Function", str))}
            kinds = {k: t.atom_type for k, t in types.items()}
            self.make = {k: t for k, t in types.items()}
        else:
            self.cls = None
            kinds = {k: AtomType(k, t) for k, t in (("Integer", int), ("Symbol", str), ("Function", str))}
            self.make = {k: (lambda v, t=t: Tr(t(v))) for k, t in kinds.items()}
        for k, t in kinds.items():
            self.tab.register_kind(t, k)
        if self.cls:
            self.tab.register_kind(core_sym.Wild, "Wild")
            self.make["Wild"] = self.cls.new_wild
        else:
            w = AtomType("Wild", str)
            self.tab.register_kind(w, "Wild")
            self.make["Wild"] = lambda v: Tr(w(v))
        self.defs = [None, *script["nodes"]]
        self.nodes = [None]
        for nd in script["nodes"]:
            if isinstance(nd[0], str):
                a = self.make[nd[0]](int(nd[1]) if nd[0] == "Integer" else nd[1])
                self.nodes.append(a.rep if self.cls else a)
            else:
                self.nodes.append(self.nodes[nd[0]](*[self.nodes[c] for c in nd[1:]]))
        self.ids = [0] + [self.tab.tree(t) for t in self.nodes[1:]]
        if self.churn:
            self.nodes = [t if t is None or not t.children else None for t in self.nodes]
        self.dfs = [None]
        self.ev = []

    def node(self, k, memo=None):
        if self.nodes[k] is not None:
            return self.nodes[k]
        memo = {} if memo is None else memo
        if k not in memo:
            nd = self.defs[k]
            memo[k] = self.node(nd[0], memo)(*[self.node(c, memo) for c in nd[1:]])
        return memo[k]

    def wrap(self, k):
        return self.cls(self.node(k)) if self.cls else self.node(k)

    # -- operations

    def newdf(self, op):
        if op.get("builtin"):
            a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
            rules = [(sc.sin(a), a, sc.cos(a)), (sc.cos(a), a, -sc.sin(a)), (a ** b, a, b * a ** (b + (-1)))]
            self.dfs.append("builtin")
            recs = []
            for pat, s, body in rules:
                ch = [self.tab.tree(c) for c in pat.rep.children]
                recs.append({"h": ch[0], "i": ch[1:].index(self.tab.tree(s.rep)) + 1, "ps": ch[1:],
                             "b": self.tab.tree(body.rep)})
            d = {"add": 1, "mul": 2, "zero": 7, "one": 8, "distr": [6], "rules": recs}
        else:
            names = ("add", "mul", "zero", "one")
            kw = {n: self.wrap(op[n]) for n in names}
            if self.cls:
                self.dfs.append(SymDifferentiator(self.cls, **kw))
            else:
                self.dfs.append(DiffProperties(**kw))
            d = {n: self.ids[op[n]] for n in names}
            d.update(distr=[], rules=[])
        self.ev.append({"op": "newdf", "d": d})

    def distr(self, op):
        d = self.dfs[op["v"]]
        if d == "builtin":
            d = sc.expr.diff
        if self.cls:
            d.add_distributive_rule(self.wrap(op["h"]))
        else:
            d.add_distributive(self.node(op["h"]))
        self.ev.append({"op": "distr", "v": op["v"], "h": self.ids[op["h"]]})

    def rule(self, op):
        d = self.dfs[op["v"]]
        if d == "builtin":
            d = sc.expr.diff
        h, ps, s, b = op["h"], op["ps"], op["sym"], op["b"]
        rec = {"form": op["form"], "body": b != 0, "h": self.ids[h] if h else 0, "ps": [self.ids[p] for p in ps],
               "sym": self.ids[s], "b": self.ids[b] if b else 0}
        ev = {"op": "rule", "v": op["v"], "rule": rec, "ok": True, "exc": ""}
        try:
            with limit():
                if self.cls:
                    pat = self.cls(self.node(h)(*[self.node(p) for p in ps])) if h else self.wrap(ps[0])
                    sym = self.wrap(s)
                    key = {"pair": (pat, sym), "single": pat, "triple": (pat, sym, sym), "empty": (), "list": [pat, sym],
                           "none": None}[op["form"]]
                    d[key] = self.wrap(b) if b else (None, "body", object())[op["v"] % 3]
                else:
                    d.add_diff_rule(self.node(h), ps.index(s), SubsFunc(self.node(b), [self.node(p) for p in ps]))
        except OpTimeout:
            ev = {"op": "timeout"}
        except Exception as e:
            ev.update(ok=False, exc=type(e).__name__)
        self.ev.append(ev)

    def diff(self, op):
        d, k = self.dfs[op["v"]], op["k"]
        prev = op["e"]

        def run(n):
            if not self.cls:
                t = self.node(op["e"])
                for _ in range(n):
                    t = diff_forward(t, self.node(op["x"]), d)
                return t
            e, x = self.wrap(op["e"]), self.wrap(op["x"])
            if d == "builtin":
                how = op.get("how", 0) % 3
                r = e.diff(x, n) if how == 0 else sc.expr.diff(e, x, n) if how == 1 else e.diff(x, ntimes=n)
            else:
                r = d(e, x) if n == 1 and op.get("how", 0) % 2 else d(e, x, n)
            if type(r) is not self.cls:
                raise WrongType
            return r.rep

        prev = self.ids[op["e"]]
        for n in range(1, k + 1):
            ev = {"op": "diff", "v": op["v"], "e": prev, "x": self.ids[op["x"]], "r": 0, "ok": True, "exc": ""}
            try:
                with limit():
                    r = run(n)
                ev["r"] = prev = self.tab.tree(r)
            except OpTimeout:
                ev = {"op": "timeout"}
            except WrongType:
                ev.update(r=0)
                ev = {"op": "unknown"}
            except Exception as e:
                ev.update(ok=False, exc=type(e).__name__)
            self.ev.append(ev)
            if not ev.get("ok"):
                return

    def step(self, op):
        if op["op"] == "gc":
            gc.collect()
        else:
            getattr(self, op["op"])(op)


class WrongType(Exception):
    pass


def play(script):
    p = Play(script)
    for op in script["ops"]:
        p.step(op)
    return {"tab": p.tab.nodes, "ev": p.ev}


def crashed(script):
    return {"tab": Table().nodes, "ev": [{"op": "crash"}]}
