"""Interpreter of the scripts of spec/Session.tla against simplecas."""
from __future__ import annotations

import copy as _copy
import gc

from driver import OpTimeout, limit
from record import P, Q, Table, Unparsed, lex_tex, lex_text, node_atom, node_comp, node_int, node_double, parse_ir

import protosym.simplecas as sc
from protosym.core.tree import (
    SubsFunc,
    Tree,
    forward_graph,
    topological_sort,
    topological_split,
)
from protosym.core.evaluate import Transformer
from protosym.simplecas import Expr, Matrix

NOREG = {"t": "x", "id": 0, "ts": [], "nr": 0, "nc": 0}
NORES = dict(NOREG, t="-")
NONODE = node_atom("", "")
MODULI = (46337, 32749, 30011)
PUSH = {"atom", "bin", "neg", "pos", "call", "copy", "subst", "mkfun", "apply", "diff",
        "binexp", "xform", "mat", "mragged", "madd", "mdiff", "mget", "fromsym", "mfromsym", "fresh", "lam"}


def ereg(i):
    return dict(NOREG, t="e", id=i)


class WrongType(Exception):
    """The library returned something that is not an expression."""


class Skip(Exception):
    pass


def last_uses(ops):
    """{op: registers not used after it}."""
    last, n = {}, 0

    def scan(x, k):
        if isinstance(x, dict):
            for key, v in x.items():
                if key in ("r", "f", "m", "x", "y") and isinstance(v, int):
                    last[v] = k
                else:
                    scan(v, k)
        elif isinstance(x, list):
            for v in x:
                scan(v, k)

    for k, op in enumerate(ops):
        if op["op"] in PUSH:
            n += 1
            last[n] = k
        scan(op, k)
    out = {}
    for r, k in last.items():
        out.setdefault(k, []).append(r)
    return out


class Session:
    may_load = True         # packages the library does not need by itself

    def __init__(self, script):
        self.script = script
        self.tab = Table()
        self.kinds()
        self.regs = [None]       # objects
        self.recs = [None]       # recorded registers
        self.ev = []
        self.arrays = []

    def kinds(self):
        t = self.tab
        t.register_kind(sc.Integer.atom_type, "Integer")
        t.register_kind(sc.Symbol.atom_type, "Symbol")
        t.register_kind(sc.Function.atom_type, "Function")
        t.register_kind(sc.a.rep.value.atom_type, "Wild")

    # -- operands

    def opd(self, o):
        """The object (or Python int) of an operand."""
        if "i" in o:
            return int(o["i"])
        obj = self.regs[o["r"]]
        if not isinstance(obj, Expr):
            raise Skip
        return obj

    def opr(self, o):
        """The recorded form of an operand."""
        if "i" in o:
            n = node_int(int(o["i"]))
            self.tab.add(n)
            return {"r": 0, "n": n}
        return {"r": o["r"], "n": NONODE}

    def oprs(self, os):
        return [self.opr(o) for o in os]

    def expr(self, o):
        x = self.opd(o)
        return sc.Integer(x) if isinstance(x, int) else x

    def exprs(self, os):
        return [self.expr(o) for o in os]

    def kind(self, r, t):
        if self.recs[r]["t"] != t:
            raise Skip
        return self.regs[r]

    # -- results

    def expr_id(self, e):
        if not isinstance(e, Expr):
            raise WrongType(type(e).__name__)
        return self.tab.tree(e.rep)

    def tree_id(self, t):
        if not isinstance(t, Tree):
            raise WrongType(type(t).__name__)
        return self.tab.tree(t)

    def mat_rec(self, m):
        if not isinstance(m, Matrix):
            raise WrongType(type(m).__name__)
        nr, nc = m.shape
        ids = [self.expr_id(m[i, j]) for i in range(nr) for j in range(nc)]
        return dict(NOREG, t="m", ts=ids, nr=nr, nc=nc)

    # -- running

    def run(self):
        ops = self.script["ops"]
        free = last_uses(ops) if self.script.get("lean") else {}
        for n, op in enumerate(ops):
            self.step(op)
            for r in free.get(n, ()):       # addresses get reused
                if r < len(self.regs):
                    self.regs[r] = None
        pts = [[{"id": self.tab.add(node_atom("Symbol", name)), "d": node_double(self.number(v))}
                for name, v in pt] for pt in self.script.get("pts", ())]
        return {"tab": self.tab.nodes, "ev": self.ev, "pts": pts,
                "needvals": self.script.get("needvals", True)}

    def step(self, op):
        name = op["op"]
        push = name in PUSH
        obj, rec = None, (NOREG if push else NORES)
        ev = {"op": name}
        try:
            with limit(op.get("limit")):
                obj, rec2 = getattr(self, "op_" + name)(op, ev)
            rec = rec2 if rec2 is not None else rec
        except Skip:
            ev = {"op": "skip"}
        except OpTimeout:
            # SymPy may evaluate forever; how long it takes is not ours
            ev = {"op": "skip" if "sym" in name or op.get("route") == "sympy" else "timeout", "what": name}
        except WrongType as e:
            ev = {"op": "error", "clause": self.script["prop"] + ".type", "what": f"{name}: {e}"}
        ev["res"] = rec
        self.ev.append(ev)
        if push:
            self.regs.append(obj if rec["t"] != "x" else None)
            self.recs.append(rec)

    def call(self, ev, f):
        """Call the library; None when it raises."""
        try:
            return f()
        except OpTimeout:
            raise
        except (Skip, WrongType):
            raise
        except Exception as e:
            ev["err"] = type(e).__name__
            return None

    def result(self, ev, f):
        """An operation giving an expression."""
        x = self.call(ev, f)
        if x is None and "err" in ev:
            return None, NOREG
        return x, ereg(self.expr_id(x))

    # -- expressions

    def op_atom(self, op, ev):
        ty, v = op["ty"], op["v"]
        if ty == "Integer":
            v = int(v)
            ev["n"] = node_int(v)
        else:
            ev["n"] = node_atom(ty, v)
        make = {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function,
                "Wild": Expr.new_wild}[ty]
        return self.result(ev, lambda: make(v))

    def op_bin(self, op, ev):
        ev["o"] = op["o"]
        ev["a"] = self.oprs(op["a"])
        x, y = self.opd(op["a"][0]), self.opd(op["a"][1])
        if not isinstance(x, Expr) and not isinstance(y, Expr):
            raise Skip
        f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
             "/": lambda: x / y, "**": lambda: x ** y}[op["o"]]
        return self.result(ev, f)

    def op_neg(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        x = self.expr(op["a"][0])
        return self.result(ev, lambda: -x)

    def op_pos(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        x = self.expr(op["a"][0])
        return self.result(ev, lambda: +x)

    def op_copy(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        x = self.expr(op["a"][0])
        return self.result(ev, lambda: (_copy.deepcopy if op.get("deep") else _copy.copy)(x))

    def op_call(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        if op.get("tree"):
            ts = [x.rep for x in self.exprs(op["a"])]
            return self.result(ev, lambda: Expr(Tree(*ts)))
        h = self.expr(op["a"][0])
        xs = [self.opd(o) for o in op["a"][1:]]
        return self.result(ev, lambda: h(*xs))

    def op_parts(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0])
        if not e.rep.children:
            raise Skip

        def f():
            return e.head, e.args, e.head(*e.args)

        got = self.call(ev, f)
        if got is None:
            ev.update(op="error", clause="C10.parts")
            return None, None
        ev["head"] = self.expr_id(got[0])
        ev["args"] = [self.expr_id(x) for x in got[1]]
        ev["again"] = self.expr_id(got[2]) if got[2] is e else 0
        return None, None

    # -- substitution

    def op_subst(self, op, ev):
        ev["a"], ev["ts"], ev["rs"] = map(self.oprs, (op["a"], op["ts"], op["rs"]))
        e = self.expr(op["a"][0])
        mode = op["mode"]
        ts = [self.opd(o) for o in op["ts"]]
        rs = [self.opd(o) for o in op["rs"]]
        te = self.exprs(op["ts"])
        if len({id(t) for t in te}) != len(te):
            raise Skip
        if mode == "tree":
            tr = [t.rep for t in te]
            rr = [r.rep for r in self.exprs(op["rs"])]
            return self.result(ev, lambda: Expr(SubsFunc(e.rep, tr)(*rr)))
        if mode == "function":
            return self.result(ev, lambda: e.as_function(*ts)(*rs))
        d = dict(zip(ts, rs))
        return self.result(ev, lambda: e.xreplace(d))

    def op_mkfun(self, op, ev):
        ev["a"], ev["ts"] = self.oprs(op["a"]), self.oprs(op["ts"])
        e = self.expr(op["a"][0])
        ts = self.exprs(op["ts"])
        if len({id(t) for t in ts}) != len(ts):
            raise Skip
        if op["mode"] == "tree":
            f = self.call(ev, lambda: ("tree", SubsFunc(e.rep, [t.rep for t in ts])))
        else:
            f = self.call(ev, lambda: ("expr", e.as_function(*ts)))
        if f is None:
            return None, NOREG
        return f, dict(NOREG, t="f", id=self.expr_id(e), ts=[self.expr_id(t) for t in ts])

    def op_apply(self, op, ev):
        ev["a"], ev["rs"], ev["f"] = [], self.oprs(op["rs"]), op["f"]
        kind, f = self.kind(op["f"], "f")
        if kind == "tree":
            rr = [r.rep for r in self.exprs(op["rs"])]
            return self.result(ev, lambda: Expr(f(*rr)))
        rs = [self.opd(o) for o in op["rs"]]
        return self.result(ev, lambda: f(*rs))

    # -- derivatives

    def op_diff(self, op, ev):
        ev["a"], ev["k"] = self.oprs(op["a"]), op["k"]
        e, v = self.exprs(op["a"])
        if op.get("how") == "function":
            res = self.result(ev, lambda: sc.diff(e, v, op["k"]))
        elif op["k"] == 1 and op.get("how") == "default":
            res = self.result(ev, lambda: e.diff(v))
        else:
            res = self.result(ev, lambda: e.diff(v, op["k"]))
        steps, cur = [], e
        for _ in range(op["k"]):
            cur = self.call({}, lambda: cur.diff(v))
            steps.append(0 if cur is None else self.expr_id(cur))
            if cur is None:
                break
        ev["steps"] = steps
        return res

    # -- rewriting

    def op_binexp(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0])
        x, rec = self.result(ev, lambda: e.bin_expand())
        ev["twice"] = 0
        if x is not None:
            y = self.call({}, lambda: x.bin_expand())
            ev["twice"] = self.expr_id(y) if y is not None else 0
        return x, rec

    def op_xform(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        ev["hr"] = [{"h": self.opr(r["h"]), "kind": r["kind"], "to": self.opr(r["to"])} for r in op["hr"]]
        ev["ar"] = [{"h": self.opr(r["h"]), "kind": r["kind"], "to": self.opr(r["to"])} for r in op["ar"]]
        e = self.expr(op["a"][0])
        tr = self.transformer(op)
        return self.result(ev, lambda: Expr(tr(e.rep)))

    def transformer(self, op):
        hr = [(self.expr(r["h"]).rep, r["kind"], self.expr(r["to"]).rep) for r in op["hr"]]
        ar = [(self.expr(r["h"]).rep, self.expr(r["to"]).rep) for r in op["ar"]]
        tr = Transformer()

        def rule(h, kind, to):
            if kind == "rehead":
                tr.add_opn(h, lambda args: to(*args))
            elif kind == "rev":
                tr.add_opn(h, lambda args: h(*list(args)[::-1]))
            elif kind == "wrap":
                tr.add_opn(h, lambda args: to(h(*args)))
            elif kind == "first":
                tr.add_opn(h, lambda args: args[0] if args else to)
            elif kind == "const":
                tr.add_opn(h, lambda args: to)
            elif kind == "dup":
                tr.add_opn(h, lambda args: h(*args, *args))

        for r in hr:
            rule(*r)
        kinds = {}
        for h, to in ar:
            if not h.children:
                kinds.setdefault(id(h.value.atom_type), (h.value.atom_type, {}))[1][h.value.value] = to
        for at, m in kinds.values():
            tr.add_atom(at, lambda v, at=at, m=m: m[v] if v in m else Tree.atom(at(v)))
        return tr

    # -- traversal

    def op_topo(self, op, ev):
        ev["a"], ev["ex"] = self.oprs(op["a"]), self.oprs(op["ex"])
        ev["heads"] = op["heads"]
        e = self.expr(op["a"][0]).rep
        kw = {}
        if op["heads"] or op.get("explicit"):
            kw["heads"] = op["heads"]
        if op["ex"] or op.get("explicit"):
            kw["exclude"] = {x.rep for x in self.exprs(op["ex"])}
        before = set(kw.get("exclude", ()))
        got = self.call(ev, lambda: topological_sort(e, **kw))
        if got is None or kw.get("exclude", set()) != before:
            ev.update(op="error", clause="C04.sort")
            return None, None
        ev["list"] = [self.tree_id(t) for t in got]
        return None, None

    def op_split(self, op, ev):
        ev["a"], ev["ex"] = self.oprs(op["a"]), self.oprs(op["ex"])
        e = self.expr(op["a"][0]).rep
        ex = {x.rep for x in self.exprs(op["ex"])}
        got = self.call(ev, lambda: topological_split(e, exclude=ex) if ex else topological_split(e))
        if got is None:
            ev.update(op="error", clause="C04.split")
            return None, None
        for name, part in zip(("atoms", "heads", "nodes"), got):
            ev[name] = [self.tree_id(t) for t in part]
        return None, None

    def op_graph(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0]).rep
        g = self.call(ev, lambda: forward_graph(e))
        if g is None:
            ev.update(op="error", clause="C04.graph")
            return None, None
        ev["atoms"] = [self.tree_id(t) for t in g.atoms]
        ev["heads"] = [self.tree_id(t) for t in g.heads]
        ev["ops"] = [{"h": self.tree_id(h), "ix": [int(i) for i in ix]} for h, ix in g.operations]
        ev["again"] = 0
        try:
            stack = list(g.atoms)
            for h, ix in g.operations:
                stack.append(h(*[stack[i] for i in ix]))
            ev["again"] = self.tree_id(stack[-1]) if stack[-1] is e else 0
        except Exception as err:
            ev["err"] = repr(err)
        return None, None

    def op_count(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0])
        g = self.call(ev, lambda: (e.count_ops_graph(), e.count_ops_tree()))
        if g is None or type(g[0]) is not int or type(g[1]) is not int:
            ev.update(op="error", clause="C16.count")
            return None, None
        ev["g"] = g[0]
        ev["tc"] = [[m, g[1] % m] for m in MODULI]
        return None, None

    # -- text

    def op_text(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0])
        how = {"repr": repr, "str": str, "eval": lambda x: x.eval_repr(),
               "fmt": lambda x: f"{x}"}[op.get("how", "repr")]
        t = self.call(ev, lambda: how(e))
        ev["failed"] = not isinstance(t, str)
        ev["txt"] = t if isinstance(t, str) else ""
        ev["toks"] = lex_text(ev["txt"])
        return None, None

    def op_latex(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0])
        if op.get("how") == "hook":
            t = self.call(ev, lambda: e._repr_latex_())
            if isinstance(t, str):
                t = t[1:-1] if t[:1] == "$" and t[-1:] == "$" else "?"
        else:
            t = self.call(ev, lambda: e.eval_latex())
        ev["failed"] = not isinstance(t, str)
        ev["txt"] = t if isinstance(t, str) else ""
        ev["toks"] = lex_tex(ev["txt"])
        return None, None

    # -- code

    def ir(self, ev, f, matrix, nargs):
        t = self.call(ev, f)
        ev["failed"] = t is None
        ev["parsed"], ev["code"] = False, []
        if t is None:
            return
        if not isinstance(t, str):
            raise WrongType(type(t).__name__)
        try:
            code, n = parse_ir(t, matrix)
            if n != nargs:
                ev.update(op="error", clause="C13.params")
            ev["parsed"], ev["code"] = True, code
        except Unparsed:
            ev["text"] = t
            if not self.may_load:
                return
            try:
                import llvmlite.binding as llvm
            except ImportError:
                return
            try:
                llvm.parse_assembly(t)
            except Exception as e:
                ev.update(op="error", clause="C13.invalid", what=str(e))

    def op_code(self, op, ev):
        ev["a"], ev["ps"] = self.oprs(op["a"]), self.oprs(op["ps"])
        e, ps = self.expr(op["a"][0]), self.exprs(op["ps"])
        if len({id(p) for p in ps}) != len(ps):
            raise Skip
        self.ir(ev, lambda: e.to_llvm_ir(ps), False, len(ps))
        return None, None

    def op_mcode(self, op, ev):
        ev["ps"], ev["m"] = self.oprs(op["ps"]), op["m"]
        m, ps = self.kind(op["m"], "m"), self.exprs(op["ps"])
        if len({id(p) for p in ps}) != len(ps):
            raise Skip
        self.ir(ev, lambda: m.to_llvm_ir(ps), True, len(ps))
        return None, None

    # -- numbers

    @staticmethod
    def number(v):
        """A number of a script: an integer, or the hexadecimal form of a double."""
        return v if isinstance(v, int) else float.fromhex(v)

    def point(self, n):
        return {name: self.number(v) for name, v in self.script["pts"][n - 1]}

    def op_num(self, op, ev):
        ev.update(a=self.oprs(op["a"]), pt=op["pt"], route=op["route"])
        e, pt, route = self.expr(op["a"][0]), self.point(op["pt"]), op["route"]
        syms = {sc.Symbol(k): v for k, v in pt.items()}
        if route == "f64":
            f = lambda: e.eval_f64(syms)
        elif route == "binexp":
            f = lambda: e.bin_expand().eval_f64(syms)
        elif route == "subst":      # numbers in place of all symbols
            if not all(v == int(v) for v in pt.values()):
                raise Skip
            f = lambda: e.xreplace({k: sc.Integer(int(v)) for k, v in syms.items()}).eval_f64()
        elif route == "partly":     # numbers in place of the integral symbols
            ints = {k: sc.Integer(int(v)) for k, v in syms.items() if v == int(v)}
            f = lambda: e.as_function(*ints)(*ints.values()).eval_f64(
                {k: v for k, v in syms.items() if k not in ints})
        elif route == "evaluator":
            f = lambda: sc.functions.eval_f64(e, syms)
        elif route == "lambdify":
            f = lambda: sc.lambdify(list(syms), e)(*syms.values())
        elif route == "element":
            m = Matrix([[sc.zero, e], [e, sc.one]])
            k = op.get("k", 0)
            f = lambda: sc.lambdify(list(syms), m)(*syms.values())[(0, 1) if k else (1, 0)]
        elif route == "sympy":
            import sympy

            s = self.call(ev, e.to_sympy)
            sub = {sympy.Symbol(k): sympy.Integer(int(v)) if v == int(v) else sympy.Float(v, 30)
                   for k, v in pt.items()}
            if all(x.is_Integer for x in sub.values()):
                f = lambda: s.subs(sub).evalf(25)
            else:
                f = lambda: s.evalf(25, subs=sub)
            try:
                v = f()
                if not v.is_number or v.is_real is False or v and abs(v) < 1e-60:
                    raise Skip      # evalf gives a tiny number where it cannot tell zero
            except (OpTimeout, Skip):
                raise
            except Exception:
                raise Skip
            f = lambda: float(v)
        v = self.call(ev, f)
        if v is not None and route not in ("sympy", "element") and type(v) not in (int, float):
            raise WrongType(type(v).__name__)
        ev["d"] = node_double(v)
        return None, None

    def op_lam(self, op, ev):
        ev.update(ps=self.oprs(op["ps"]), a=self.oprs(op.get("a", ())), mat=op.get("m", 0))
        ps = self.exprs(op["ps"])
        if len({id(p) for p in ps}) != len(ps):
            raise Skip
        if ev["mat"]:
            m = self.kind(op["m"], "m")
            (nr, nc), what = m.shape, op["m"]
        else:
            m = self.expr(op["a"][0])
            nr = nc = 0
            what = self.expr_id(m)
        f = self.call(ev, lambda: sc.lambdify(ps, m))
        if f is None:
            return None, NOREG
        return (f, [p.rep.value.value for p in ps]), dict(
            NOREG, t="l", id=what, ts=[self.expr_id(p) for p in ps], nr=nr, nc=nc)

    def op_lcall(self, op, ev):
        f, names = self.kind(op["f"], "l")
        rec = self.recs[op["f"]]
        pt = self.point(op["pt"])
        ev.update(f=op["f"], pt=op["pt"], route=f"lam{op['f']}", ds=[], nr=0, nc=0)
        if any(n not in pt for n in names):
            raise Skip
        if rec["nr"]:       # memory that has been used before
            import numpy

            junk = [numpy.full((rec["nr"], rec["nc"]), 7.5) for _ in range(9)]
            del junk
        v = self.call(ev, lambda: f(*[pt[n] for n in names]))
        ev["failed"] = v is None
        if v is None:
            return None, None
        if rec["nr"] == 0:
            if type(v) is not float:
                raise WrongType(type(v).__name__)
            ev["ds"] = [node_double(v)]
        else:
            ev["nr"], ev["nc"] = v.shape
            ev["ds"] = [node_double(x) for x in v.ravel().tolist()]
            self.arrays.append([len(self.ev) + 1, v])
            if op.get("spoil"):
                v[...] = 777.25
                self.arrays.pop()
        return None, None

    def op_arrays(self, op, ev):
        ev["held"] = [{"n": n, "ds": [node_double(x) for x in v.ravel().tolist()]} for n, v in self.arrays]
        return None, None

    # -- matrices

    def mres(self, ev, f):
        m = self.call(ev, f)
        if m is None and "err" in ev:
            return None, NOREG
        return m, self.mat_rec(m)

    def op_mat(self, op, ev):
        nr, nc = op["nr"], op["nc"]
        ev.update(nr=nr, nc=nc, a=self.oprs(op["a"]))
        xs = [self.opd(o) for o in op["a"]]
        rows = [xs[i * nc:(i + 1) * nc] for i in range(nr)]
        m, rec = self.mres(ev, lambda: Matrix(rows))
        for r in rows:          # the caller may reuse its lists
            r[:] = [sc.Symbol("spoiled")] * len(r)
        rows.clear()
        if m is not None:
            rec = self.mat_rec(m)
        return m, rec

    def op_mragged(self, op, ev):
        """Rows of the given lengths."""
        ev.update(a=self.oprs(op["a"]), lens=op["lens"])
        xs = [self.opd(o) for o in op["a"]]
        rows, k = [], 0
        for n in op["lens"]:
            rows.append(xs[k:k + n])
            k += n
        m, rec = self.mres(ev, lambda: Matrix(rows))
        return m, rec

    def op_madd(self, op, ev):
        ev.update(x=op["x"], y=op["y"])
        x, y = self.kind(op["x"], "m"), self.kind(op["y"], "m")
        return self.mres(ev, lambda: x + y)

    def op_mdiff(self, op, ev):
        ev.update(m=op["m"], a=self.oprs(op["a"]))
        m, v = self.kind(op["m"], "m"), self.expr(op["a"][0])
        return self.mres(ev, lambda: m.diff(v))

    def op_mget(self, op, ev):
        ev.update(m=op["m"], i=op["i"], j=op["j"], good=not op.get("bad"))
        m = self.kind(op["m"], "m")
        if op.get("bad"):
            i, j = op["i"], op["j"]
            key = {"float": (float(i), j), "str": ("0", j), "single": i, "triple": (i, j, 0),
                   "list": [i, j], "none": None, "slice": (slice(None), j)}[op["bad"]]
        else:
            key = (op["i"], op["j"])
        return self.result(ev, lambda: m[key])

    def op_mlist(self, op, ev):
        ev["m"] = op["m"]
        m = self.kind(op["m"], "m")
        rows = self.call(ev, m.tolist)
        if not isinstance(rows, list) or not all(isinstance(r, list) for r in rows):
            ev.update(op="error", clause="C14.list")
            return None, None
        ev["rows"] = [[self.expr_id(e) for e in r] for r in rows]
        for r in rows:          # the result belongs to the caller
            for k in range(len(r)):
                r[k] = sc.Symbol("spoiled")
        return None, None

    def op_mtext(self, op, ev):
        ev["m"] = op["m"]
        m = self.kind(op["m"], "m")
        t = self.call(ev, lambda: repr(m))
        ev["txt"] = t if isinstance(t, str) else ""
        ev["es"] = [repr(m[i, j]) for i in range(m.shape[0]) for j in range(m.shape[1])]
        return None, None

    # -- SymPy

    def op_tosym(self, op, ev):
        ev["a"] = self.oprs(op["a"])
        e = self.expr(op["a"][0])
        import sympy

        how = op.get("how", "method")
        if how == "sympify":
            s = self.call(ev, lambda: sympy.sympify(e))
        else:
            s = self.call(ev, lambda: e.to_sympy())
        ev["failed"] = not isinstance(s, sympy.Basic)
        if ev["failed"]:
            self.sym_reference(e)
        ev["sid"] = self.tab.sympy(s) if not ev["failed"] else 1
        ev["lossless"] = False
        return None, None

    def sym_build(self, t):
        """Build a SymPy object from a term; what SymPy itself rejects is left out."""
        try:
            return self.sym_make(t)
        except (OpTimeout, Skip):
            raise
        except Exception:
            raise Skip

    def sym_reference(self, e):
        """Leaves out what SymPy cannot build either."""
        import sympy

        heads = {"Add": sympy.Add, "Mul": sympy.Mul, "pow": sympy.Pow, "sin": sympy.sin, "cos": sympy.cos,
                 "List": sympy.Tuple}
        memo = {}

        def build(t):
            if t not in memo:
                if t.children:
                    xs = [build(c) for c in t.children[1:]]
                    h = t.children[0].value.value
                    memo[t] = (heads.get(h) or sympy.Function(h))(*xs)
                else:
                    v = t.value
                    memo[t] = sympy.Integer(v.value) if v.atom_type == sc.Integer.atom_type else sympy.Symbol(v.value)
            return memo[t]
        try:
            build(e.rep)
        except OpTimeout:
            raise
        except Exception:
            raise Skip

    def sym_make(self, t):
        import sympy

        k = t[0]
        if k == "i":
            return sympy.Integer(int(t[1]))
        if k == "s":
            return sympy.Symbol(t[1])
        if k == "bad":
            x = sympy.Symbol("x")
            return {
                "pi": sympy.pi, "E": sympy.E, "I": sympy.I, "oo": sympy.oo, "nan": sympy.nan,
                "half": sympy.Rational(1, 2), "float": sympy.Float(1.5), "exp": sympy.exp(x),
                "tan": sympy.tan(x), "abs": sympy.Abs(x), "deriv": sympy.Derivative(sympy.Function("f")(x), x),
                "eq": sympy.Eq(x, 1), "true": sympy.true, "max": sympy.Max(x, 1),
                "integral": sympy.Integral(x, x), "gamma": sympy.gamma(x), "lt": x < 1,
                "piecewise": sympy.Piecewise((x, x > 0), (1, True)), "set": sympy.FiniteSet(x),
                "asin": sympy.asin(x), "sqrt2": sympy.sqrt(2), "zoo": sympy.zoo, "sinh": sympy.sinh(x),
                "factorial": sympy.factorial(x), "dict": sympy.Dict({x: 1}), "log": sympy.log(x),
                "matsym": sympy.MatrixSymbol("A", 2, 2), "lambda": sympy.Lambda(x, x),
                "conj": sympy.conjugate(x), "interval": sympy.Interval(0, 1), "mod": sympy.Mod(x, 2),
                "subs": sympy.Subs(sympy.Function("f")(x), x, 1), "sum": sympy.Sum(x, (x, 1, 3)),
                "dummy": sympy.Dummy("x"), "wild": sympy.Wild("x"),
                # undefined functions that only share the name of a function the library interprets
                "usin": sympy.Function("sin")(x), "ucos": sympy.Function("cos")(x), "upow": sympy.Function("pow")(x, x),
                "uadd": sympy.Function("Add")(x, 1), "umul": sympy.Function("Mul")(), "ulist": sympy.Function("List")(x),
            }[t[1]]
        ev = t[1]
        xs = [self.sym_make(x) for x in t[2:]]
        f = {"+": sympy.Add, "*": sympy.Mul, "^": sympy.Pow, "sin": sympy.sin, "cos": sympy.cos}.get(k)
        if f is not None:
            return f(*xs) if ev else f(*xs, evaluate=False)
        if k == "T":
            return sympy.Tuple(*xs)
        return sympy.Function(k)(*xs)

    BAD = ("Opaque",)

    def op_fromsym(self, op, ev):
        s = self.sym_build(op["term"])
        ev["sid"] = self.tab.sympy(s)
        ev["supported"] = op["supported"] and not self.has_bad(s)
        ev["evaluated"] = op["evaluated"]
        ev["back"] = 0
        e, rec = self.result(ev, lambda: Expr.from_sympy(s))
        if e is not None and ev["supported"]:
            b = self.call({}, lambda: e.to_sympy())
            ev["back"] = self.tab.sympy(b) if b is not None else 0
        return e, rec

    @staticmethod
    def has_bad(s):
        """Does SymPy's evaluation leave something outside the class?"""
        import sympy
        from sympy.core.function import AppliedUndef

        if isinstance(s, (sympy.Integer, sympy.Symbol)):
            return isinstance(s, (sympy.Dummy, sympy.Wild))
        if isinstance(s, AppliedUndef) and s.name in ("sin", "cos", "pow", "Add", "Mul", "List"):
            return True
        if isinstance(s, (sympy.Add, sympy.Mul, sympy.Pow, sympy.sin, sympy.cos, sympy.Tuple, AppliedUndef)):
            return any(Session.has_bad(x) for x in s.args)
        return True

    def op_mtosym(self, op, ev):
        ev["m"] = op["m"]
        m = self.kind(op["m"], "m")
        import sympy

        s = self.call(ev, m.to_sympy)
        ev["failed"] = not isinstance(s, sympy.MatrixBase)
        if ev["failed"]:
            for row in m.tolist():
                for e in row:
                    self.sym_reference(e)
        ev.update(nr=0, nc=0, ids=[])
        if not ev["failed"]:
            ev.update(nr=s.rows, nc=s.cols,
                      ids=[self.tab.sympy(s[i, j]) for i in range(s.rows) for j in range(s.cols)])
        return None, None

    def op_mfromsym(self, op, ev):
        import sympy

        nr, nc = op["nr"], op["nc"]
        xs = [self.sym_build(t) for t in op["terms"]]
        cls = {"dense": sympy.Matrix, "immutable": sympy.ImmutableMatrix,
               "sparse": sympy.SparseMatrix}[op.get("cls", "dense")]
        try:
            s = cls(nr, nc, xs)
        except Exception:
            raise Skip
        ev.update(nr=nr, nc=nc, ids=[self.tab.sympy(x) for x in xs], back=[],
                  supported=op["supported"] and not any(self.has_bad(x) for x in xs))
        m, rec = self.mres(ev, lambda: Matrix.from_sympy(s))
        if m is not None and ev["supported"]:
            b = self.call({}, m.to_sympy)
            if b is not None:
                ev["back"] = [self.tab.sympy(b[i, j]) for i in range(b.rows) for j in range(b.cols)]
        return m, rec

    # -- lifetime

    def op_drop(self, op, ev):
        r = op["r"]
        if r < len(self.regs):
            self.regs[r] = None
        ev.update(op="skip")
        return None, None

    def op_gc(self, op, ev):
        gc.collect()
        ev.update(op="skip")
        return None, None

    def op_churn(self, op, ev):
        """Build and drop unrelated expressions of the same shapes."""
        x = sc.Symbol("churn")
        for k in range(op.get("n", 20)):
            e = sc.sin(x + k) * sc.cos(x * k) + x ** (k + 2)
            if op.get("what") == "diff":
                e.diff(x)
            elif op.get("what") == "repr":
                repr(e)
            elif op.get("what") == "subst":
                e.xreplace({x: sc.one})
            elif op.get("what") == "binexp":
                sc.Add(e, x, k).bin_expand()
            elif op.get("what") == "eval":
                e.eval_f64({x: 1.5})
            elif op.get("what") == "latex":
                e.eval_latex()
            elif op.get("what") == "ir":
                e.to_llvm_ir([x])
        ev.update(op="skip")
        return None, None

    def op_frame(self, op, ev):
        held = []
        for r in range(1, len(self.regs)):
            obj = self.regs[r]
            if obj is None:
                continue
            if isinstance(obj, Expr):
                held.append({"r": r, "reg": ereg(self.expr_id(obj))})
            elif isinstance(obj, Matrix):
                held.append({"r": r, "reg": self.mat_rec(obj)})
        ev["held"] = held
        return None, None


def play(script):
    return Session(script).run()


def crashed(script):
    t = Table()
    return {"tab": t.nodes, "ev": [{"op": "crash", "res": NORES}], "needvals": True, "pts": []}
