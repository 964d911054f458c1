"""Interpreter of scripts with refused requests (spec/TraceRefusals.tla).

A script runs twice, each time in a new process: without the operations marked
"ask", and with them.  The evaluators and differentiators of the script are its
own; what they give is recorded as text.
"""
from __future__ import annotations

import decimal
import fractions

import play_session
from driver import OpTimeout, forked
from play_session import NOREG, NORES, PUSH, Session
from record import Table

import protosym.simplecas as sc
from protosym.core import sym as core_sym
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, Sym, SymDifferentiator, star
from protosym.core.tree import SubsFunc, Tree
from protosym.simplecas import Expr, Matrix

class Foreign(Sym):
    """A symbolic class that has nothing to do with Expr."""


class Refusals(Session):
    def __init__(self, script, asks):
        super().__init__(script)
        self.asks = asks
        self.evs, self.dfs = [None], [None]
        self.errors = []

    def step(self, op):
        if op.get("ask") and not self.asks:
            rec = NOREG if op["op"] in PUSH else NORES
            self.ev.append({"op": "skip", "res": rec, "ask": True, "mro": []})
            if op["op"] in PUSH:
                self.regs.append(None)
                self.recs.append(rec)
            return
        self.mro = []
        super().step(op)
        self.ev[-1].update(ask=bool(op.get("ask")), mro=self.mro)

    def call(self, ev, f):
        return super().call(ev, lambda: self.note(f))

    def note(self, f):
        try:
            return f()
        except Exception as e:
            self.mro = [c.__name__ for c in type(e).__mro__]
            if self.script.get("hold"):         # as a debugger does
                self.errors.append(e)
            raise

    # -- values of the wrong kind

    def value(self, t):
        """["expr", operand], ["int", n], or [kind of unsupported thing, value]."""
        k, v = t
        if k == "expr":
            return self.expr(v)
        if k == "int":
            return int(v)
        if k == "bool":
            return bool(int(v))
        if k == "tree":
            return self.expr(v).rep
        if k == "atom":
            return self.expr(v).rep.value
        if k == "foreign":
            return Foreign(self.expr(v).rep)
        if k == "matrix":
            return self.kind(v, "m")
        if k == "inlist":
            return [self.expr(v)]
        if k == "intuple":
            return (self.expr(v),)
        if k == "function":
            return self.expr(v).as_function()
        x = {
            "float": lambda: float(v), "fraction": lambda: fractions.Fraction(int(v)),
            "decimal": lambda: decimal.Decimal(int(v)), "complex": lambda: complex(int(v)), "none": lambda: None,
            "str": lambda: str(v), "bytes": lambda: str(v).encode(), "list": lambda: [], "dict": lambda: {},
            "set": set, "object": object, "type": lambda: int, "symtype": lambda: sc.Symbol,
            "ellipsis": lambda: ..., "range": lambda: range(int(v)), "nan": lambda: float("nan"),
            "callable": lambda: len, "slice": lambda: slice(0, 1),
        }[k]
        return x()

    def tagged(self, ts):
        out = []
        for k, v in ts:
            o = self.opr(v) if k in ("expr", "tree", "atom", "foreign", "inlist", "intuple", "function") else None
            out.append({"k": k, "o": o or {"r": 0, "n": play_session.NONODE}})
        return out

    # -- requests

    def op_ask(self, op, ev):
        """A request whose result is not kept."""
        kind = op["kind"]
        ev.update(kind=kind, args=self.tagged(op.get("args", ())), nums=op.get("nums", []), what=op.get("what", ""),
                  m=op.get("m", 0), e=0, **{k: op[k] for k in ("rows", "pat", "act", "var") if k in op})
        if "lhs" in op:
            ev["lhs"] = op["lhs"][1]
        if "e" in op:
            ev["e"] = self.expr_id(self.expr(op["e"]))
        xs = [self.value(t) for t in op.get("args", ())]
        f = getattr(self, "ask_" + kind)(op, xs)
        ev["raised"] = False

        def g():
            try:
                f()
            except OpTimeout:
                raise
            except Exception:
                ev["raised"] = True
                raise
        self.call(ev, g)
        return None, None

    def ask_bin(self, op, xs):
        x, y = xs
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                "**": lambda: x ** y}[op["what"]]

    def ask_call(self, op, xs):
        e = self.expr(op["e"])
        return lambda: e(*xs)

    def ask_targets(self, op, xs):
        e = self.expr(op["e"])
        if op["what"] == "xreplace":
            return lambda: e.xreplace({x: sc.one for x in xs})
        return lambda: e.as_function(*xs)

    def ask_replacements(self, op, xs):
        e = self.expr(op["e"])
        ts = [sc.Symbol(n) for n in "xyzuv"[:len(xs)]]
        if op["what"] == "xreplace":
            return lambda: e.xreplace(dict(zip(ts, xs)))
        f = e.as_function(*ts)
        return lambda: f(*xs)

    def ask_number(self, op, xs):
        """nums: parameters, arguments."""
        e = self.expr(op["e"])
        n, m = op["nums"]
        ts = [sc.Symbol(n) for n in "xyzuv"[:n]]
        rs = [sc.Integer(k) for k in range(m)]
        if op["what"] == "tree":
            f = SubsFunc(e.rep, [t.rep for t in ts])
            return lambda: f(*[r.rep for r in rs])
        f = e.as_function(*ts)
        return lambda: f(*rs)

    def ask_tree(self, op, xs):
        if op["what"] == "call":
            return lambda: xs[0](*xs[1:])
        return lambda: Tree(*xs)

    def ask_wrap(self, op, xs):
        if op["what"] == "atom":
            return lambda: Tree.atom(xs[0])
        return lambda: Expr(xs[0])

    def ask_eval(self, op, xs):
        e = self.expr(op["e"])
        vals = {x: 1.5 for x in xs}
        if op["what"] == "evaluator":
            return lambda: sc.functions.eval_f64(e, vals)
        return lambda: e.eval_f64(vals)

    def ask_lambdify(self, op, xs):
        return lambda: sc.lambdify([], xs[0])

    def ask_rows(self, op, xs):
        """what: "list" or another container of the rows; nums: lengths; args: kinds of the rows, then the bad entry."""
        rows = []
        for k, n in enumerate(op["nums"]):
            r = [sc.Integer(k + j) for j in range(n)]
            rows.append(r if op["rows"][k] == "list" else tuple(r) if op["rows"][k] == "tuple" else "ab")
        if xs:
            rows[-1][-1] = xs[0]
        if op["what"] == "tuple":
            rows = tuple(rows)
        elif op["what"] == "iter":
            rows = iter(rows)
        return lambda: Matrix(rows)

    def ask_index(self, op, xs):
        m = self.kind(op["m"], "m")
        key = xs[0] if op["what"] == "bare" else tuple(xs) if op["what"] == "tuple" else list(xs)
        return lambda: m[key]

    def ask_madd(self, op, xs):
        m = self.kind(op["m"], "m")
        if op["what"] == "right":
            return lambda: xs[0] + m
        return lambda: m + xs[0]

    def ask_mdiff(self, op, xs):
        m = self.kind(op["m"], "m")
        return lambda: m.diff(xs[0])

    def ask_from(self, op, xs):
        if op["what"] == "matrix":
            return lambda: Matrix.from_sympy(xs[0])
        return lambda: Expr.from_sympy(xs[0])

    def ask_diff(self, op, xs):
        e = self.expr(op["e"])
        if op["what"] == "times":
            return lambda: e.diff(sc.Symbol("x"), xs[0])
        return lambda: e.diff(xs[0])

    # -- own evaluators: text of what was called

    def op_twin(self, op, ev):
        got = getattr(self, "twin_" + op["what"])(op, ev)
        ev.update(what=op["what"], got=got if isinstance(got, str) else f"-{type(got).__name__}")
        return None, None

    def text(self, ev, f):
        x = self.call(ev, f)
        if x is None and "err" in ev:
            return "error " + ev["err"]
        if isinstance(x, Expr):
            return f"expression {self.expr_id(x)}"
        return str(x)

    def twin_newev(self, op, ev):
        self.evs.append(Expr.new_evaluator("mine", str))
        return ""

    def twin_newdf(self, op, ev):
        self.dfs.append(SymDifferentiator(Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one))
        if op.get("lists"):
            self.dfs[-1].add_distributive_rule(sc.List)
        return ""

    def wild(self, n):
        return Expr.new_wild(n)

    def pattern(self, p):
        """[kind, name, arguments]"""
        kind, name, args = p
        ws = [self.wild(a.lstrip("*")) for a in args]
        if kind == "head":
            h = {"Add": sc.Add, "Mul": sc.Mul, "pow": sc.Pow, "sin": sc.sin, "cos": sc.cos,
                 "List": sc.List}.get(name) or sc.Function(name)
            return h(*[star(w) if a.startswith("*") else w for w, a in zip(ws, args)])
        if kind == "atom":
            return {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function}[name][ws[0]]
        if kind == "agen":
            return AtomRule[ws[0]]
        return HeadRule(ws[0], ws[1])

    def action(self, a, salt):
        """[kind of function, arguments]"""
        kind, args = a
        ws = [self.wild(n) for n in args]
        if kind == "plain":
            return lambda *xs: f"{salt}"
        op = {"op1": lambda: PyOp1(lambda x: f"{salt}({x})"), "op2": lambda: PyOp2(lambda x, y: f"{salt}({x};{y})"),
              "opn": lambda: PyOpN(lambda xs: f"{salt}({';'.join(xs)})"), "func1": lambda: PyFunc1(lambda v: f"{salt}:{v}"),
              "atomfunc": lambda: AtomFunc(lambda v: f"{salt}?{v}"),
              "headop": lambda: HeadOp(lambda h, xs: f"{salt}!{h}({';'.join(xs)})")}[kind]()
        return core_sym.WildCall(op, *ws)

    def twin_rule(self, op, ev):
        v = self.evs[op["v"]]
        p, a = self.pattern(op["pat"]), self.action(op["act"], op["salt"])
        return self.text(ev, lambda: v.__setitem__(p, a))

    def ask_rule(self, op, xs):
        v = self.evs[op["v"]]
        p, a = self.pattern(op["pat"]), self.action(op["act"], op["salt"])

        def f():
            v[p] = a
        return f

    def twin_evcall(self, op, ev):
        v, e = self.evs[op["v"]], self.expr(op["e"])
        vals = {sc.Symbol(n): f"<{n}>" for n in op.get("given", ())}
        return self.text(ev, lambda: v(e, vals) if vals else v(e))

    def drule(self, op):
        """lhs: [head, arguments], var, rhs operand over wilds."""
        head, args = op["lhs"]
        ws = {n: self.wild(n) for n in "abc"}
        h = sc.Function(head)
        if op.get("form") == "compound":
            return h, h(*[ws[n] for n in args]), ws
        rhs = {"a": ws["a"], "b": ws["b"], "k": sc.Function("d" + head)(*[ws[n] for n in args]),
               "p": ws["a"] * ws["a"] + 3, "1": sc.one, "0": sc.zero}[op["rhs"]]
        return h(*[ws[n] for n in args]), ws[op["var"]], rhs

    def twin_drule(self, op, ev):
        d = self.dfs[op["v"]]
        lhs, var, rhs = self.drule(op)
        return self.text(ev, lambda: d.__setitem__((lhs, var), rhs))

    def ask_drule(self, op, xs):
        d = self.dfs[op["v"]]
        lhs, var, rhs = self.drule(op)
        key = {"pair": (lhs, var), "single": lhs, "triple": (lhs, var, var), "list": [lhs, var]}[op["what"]]

        def f():
            d[key] = rhs
        return f

    def twin_dfcall(self, op, ev):
        d, e = self.dfs[op["v"]], self.expr(op["e"])
        return self.text(ev, lambda: d(e, sc.Symbol("x"), op.get("k", 1)))

    def twin_tree(self, op, ev):
        ts = [self.expr(o).rep for o in op["a"]]
        x = self.call(ev, lambda: Expr(Tree(*ts)))
        return self.text(ev, lambda: x)

    def twin_atoms(self, op, ev):
        """Atoms of the values refused requests were made with."""
        def f():
            return " ".join(f"{a!r}/{type(a.rep.value.value).__name__}/{self.expr_id(a)}"
                            for a in [sc.Integer(n) for n in op["ints"]] + [sc.Symbol(n) for n in op["names"]])
        return self.text(ev, f)


def once(script, asks, nodes):
    s = Refusals(script, asks)
    s.tab.adopt(nodes)
    return dict(s.run(), nodes=s.tab.nodes)


def preload():
    try:
        import llvmlite.binding     # noqa
        import numpy                # noqa
        import sympy                # noqa
    except ImportError:
        pass


def play(script):
    preload()       # before forking
    nodes, runs, got = [], [], None
    for asks in (False, True):
        got = forked(lambda: once(script, asks, nodes), 100)
        if got is None:
            return crashed(script)
        nodes = got.pop("nodes")
        runs.append(got.pop("ev"))
    return dict(got, tab=nodes, ev=runs[1], runs=runs)


def crashed(script):
    t = Table()
    ev = [{"op": "crash", "res": NORES, "ask": False, "mro": []}]
    return {"tab": t.nodes, "ev": ev, "needvals": True, "pts": [], "runs": [ev, ev]}
