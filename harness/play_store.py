"""Interpreter of histories of building and dropping (spec/TraceStore.tla)."""
from __future__ import annotations

import copy
import gc
import sys

from driver import OpTimeout, limit
from play_store_names import DERIVES, USES
from record import Table, node_atom, node_comp, node_int

import protosym.simplecas as sc
from protosym.core.atom import Atom, AtomType
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, Sym
from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort, topological_split
from protosym.simplecas import Expr, Matrix

NONODE = node_atom("", "")
TYPES = {"int": int, "str": str, "tuple": tuple, "bool": bool, "bytes": bytes}


class S(Sym):
    """A symbolic class without operators."""


class S2(Sym):
    """Another one."""


class SubExpr(Expr):
    """A class derived from another symbolic class."""


CLASSES = {"S": S, "S2": S2, "Expr": Expr, "SubExpr": SubExpr}


def value(v):
    if isinstance(v, dict):
        return tuple(v["tuple"]) if "tuple" in v else v["bytes"].encode()
    return v


def uses(which):
    """What can be done with an expression; results are dropped."""
    x = sc.x
    return {
        "repr": lambda e: (repr(e), str(e)),
        "latex": lambda e: (e.eval_latex(), e._repr_latex_()),
        "eval": lambda e: e.eval_f64({s: 1.25 for s in symbols(e)}),
        "diff": lambda e: (e.diff(x), e.diff(x, 2)),
        "diffs": lambda e: [e.diff(s) for s in symbols(e)],
        "binexp": lambda e: e.bin_expand(),
        "count": lambda e: (e.count_ops_graph(), e.count_ops_tree()),
        "subst": lambda e: (e.xreplace({x: sc.y + 1}), e.as_function(x)(sc.cos(x))),
        "subsfunc": lambda e: SubsFunc(e.rep, [x.rep])(sc.y.rep),
        "ir": lambda e: e.to_llvm_ir(symbols(e)),
        "lambdify": lambda e: sc.lambdify(symbols(e), e)(*[1.5 for _ in symbols(e)]),
        "sympy": lambda e: e.to_sympy(),
        "fromsympy": lambda e: Expr.from_sympy(e.to_sympy()),
        "sort": lambda e: (topological_sort(e.rep, heads=True), topological_split(e.rep), forward_graph(e.rep)),
        "matrix": lambda e: ((Matrix([[e, 0], [0, e]]) + Matrix([[e, e], [0, 0]])).diff(x).tolist(),
                             repr(Matrix([[e, 1]]))),
        "mir": lambda e: Matrix([[e, 0]]).to_llvm_ir(symbols(e)),
        "mlambdify": lambda e: sc.lambdify(symbols(e), Matrix([[e, 0]]))(*[1.5 for _ in symbols(e)]),
        "transform": lambda e: Transformer()(e.rep),
        "operators": lambda e: (e + 1, 2 * e, e - e, e / 3, e ** 2, -e, +e, sc.Add(e, e, e), sc.sin(e)),
        "evaluator": lambda e: evaluator()(e),
        "core": lambda e: core_evaluator(e.rep),
        "parts": lambda e: (e.head, e.args) if e.rep.children else e.rep.value,
        "bad": lambda e: e + "text",
        "badf": lambda e: e(object()),
        "badeval": lambda e: sc.Function("unknown")(e).eval_f64(),
        "badir": lambda e: (e + sc.Symbol("unlisted")).to_llvm_ir([]),
        "baddiff": lambda e: sc.Function("unknown")(e + x).diff(x),
        "badmatrix": lambda e: Matrix([[e, e], [e]]),
    }[which]


def symbols(e):
    out, seen, stack = [], set(), [e.rep]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if not t.children and t.value.atom_type is sc.Symbol.atom_type:
            out.append(Expr(t))
        stack.extend(t.children[1:])
    return out


def evaluator():
    ev = Expr.new_evaluator("ev", object)
    ev[AtomRule[sc.a]] = AtomFunc(lambda t: 1)(sc.a)
    ev[HeadRule(sc.a, sc.b)] = HeadOp(lambda h, args: sum(args))(sc.a, sc.b)
    return ev


def core_evaluator(t):
    ev = Evaluator()
    ev.add_atom_generic(lambda a: 1)
    ev.add_op_generic(lambda h, args: sum(args))
    return ev(t), ev.eval_recursive(t, {})


def derive(how, e):
    x = sc.x
    return {
        "diff": lambda: e.diff(x),
        "binexp": lambda: e.bin_expand(),
        "xreplace": lambda: e.xreplace({x: sc.y + 1}),
        "function": lambda: e.as_function(x)(sc.cos(e)),
        "subsfunc": lambda: Expr(SubsFunc(e.rep, [x.rep])(sc.y.rep)),
        "matrix": lambda: Matrix([[e, 0]])[0, 0],
        "madd": lambda: (Matrix([[e, 0]]) + Matrix([[e, e]]))[0, 0],
        "transform": lambda: Expr(Transformer()(e.rep)),
        "neg": lambda: -e,
        "add": lambda: e + 1,
        "sympy": lambda: Expr.from_sympy(e.to_sympy()),
    }[how]()


HOLDERS = ("Matrix", "Function", "Compiled", "Graph")


def holder(how, regs, nc):
    """Something that is not an expression but holds some; and what it is about."""
    x = sc.x
    es = [sc.zero if r is None else r for r in regs]
    if how == "mat":
        return Matrix([es[k:k + nc] for k in range(0, len(es), nc)]), None
    if how == "madd":
        return es[0] + es[1], None
    if how == "mdiff":
        return es[0].diff(x), None
    if how == "mround":
        return Matrix.from_sympy(es[0].to_sympy()), None
    if how == "function":
        return es[0].as_function(x), [es[0], x]
    if how == "subsfunc":
        return SubsFunc(es[0].rep, [x.rep, sc.sin.rep]), [es[0], x, sc.sin]
    if how == "graph":
        return forward_graph(es[0].rep), [es[0]]
    if how == "compiled":
        return sc.lambdify(symbols(es[0]), es[0]), [es[0], *symbols(es[0])]
    if how == "mcompiled":
        fs = [s for row in es[0].tolist() for e in row for s in symbols(e)]
        return sc.lambdify(list(dict.fromkeys(fs)), es[0]), [e for row in es[0].tolist() for e in row] + fs
    raise ValueError(how)


HOLDS = {"function": "Function", "subsfunc": "Function", "graph": "Graph", "compiled": "Compiled", "mcompiled": "Compiled"}


def quiet(f, *a):
    try:
        f(*a)
        return True
    except OpTimeout:
        raise
    except Exception:
        return False


def warm_up():
    """Do everything once, so that what is set up on first use is there."""
    e = sc.sin(sc.x * 2) + sc.y ** 2
    for u in USES:
        quiet(uses(u), e)
    for h in DERIVES:
        quiet(derive, h, e)


def alive():
    gc.collect()
    return [o for o in gc.get_objects() if isinstance(o, (Atom, Tree, Sym))]


warm_up()
BASE = alive()
gc.freeze()             # what is there already does not need to be looked at again


class Store:
    def __init__(self, script):
        self.tab = Table()
        for k in ("Integer", "Symbol", "Function"):
            self.tab.register_kind(getattr(sc, k).atom_type, k)
        self.tab.register_kind(sc.a.rep.value.atom_type, "Wild")
        self.kinds, self.labels, self.types = [], [], []
        for n, (owner, name, typ) in enumerate(script["kinds"]):
            if owner == "sc":
                k = getattr(sc, name)
                self.labels.append(name)
            else:
                k = AtomType(name, TYPES[typ]) if owner == "core" else CLASSES[owner].new_atom(name, TYPES[typ])
                self.labels.append(f"k{n}:{name}")
            self.kinds.append(k)
            self.tab.register_kind(self.atom_type(k), self.labels[-1])
        self.base = BASE + alive()
        self.base_ids = {id(o) for o in self.base}
        self.regs = [None]
        self.ev = []
        self.counter = 0

    @staticmethod
    def atom_type(k):
        return k if isinstance(k, AtomType) else k.atom_type

    def level(self, o):
        return "atom" if type(o) is Atom else "tree" if type(o) is Tree else type(o).__name__

    def rec(self, o):
        if type(o) is Atom:
            return {"l": "atom", "i": self.tab.atom(o)}
        if type(o) is Tree:
            return {"l": "tree", "i": self.tab.tree(o)}
        if isinstance(o, Sym):
            return {"l": type(o).__name__, "i": self.tab.tree(o.rep)}
        return {"l": "?" + type(o).__name__, "i": 1}

    def add(self, ev, f):
        """Run a construction and keep the result."""
        ev.setdefault("a", [])
        ev.setdefault("l", "")
        ev.setdefault("node", NONODE)
        ev.setdefault("j", 0)
        obj = None
        try:
            with limit():
                obj = f()
        except OpTimeout:
            ev["how"] = "timeout"
        except Exception as e:
            ev["err"] = type(e).__name__
        ev["res"] = self.rec(obj) if obj is not None else {"l": "", "i": 0}
        self.regs.append(obj)
        self.ev.append(ev)

    def op_atom(self, op):
        k, v, lvl = op["k"], value(op["v"]), op["l"]
        label = self.labels[k]
        node = node_int(v) if label == "Integer" else node_atom(
            label, v if type(v) is str else f"{type(v).__name__}:{v!r}")

        def f():
            t = self.kinds[k]
            if lvl == "atom":
                return self.atom_type(t)(v)
            if lvl == "tree":
                return Tr(self.atom_type(t)(v))
            if not isinstance(t, AtomType) and t.sym is CLASSES[lvl]:
                return t(v)
            return CLASSES[lvl](Tr(self.atom_type(t)(v)))
        self.add({"op": "mk", "how": "atom", "l": lvl, "node": node}, f)

    def op_comp(self, op):
        objs = [self.regs[r] for r in op["a"]]
        lvl = self.level(objs[0])
        style = op.get("style", 0)

        def f():
            if lvl == "tree":
                return Tree(*objs) if style else objs[0](*objs[1:])
            if lvl == "Expr" and style:
                return objs[0](*objs[1:])
            return CLASSES[lvl](Tree(*[o.rep for o in objs]))
        self.add({"op": "mk", "how": "comp", "a": op["a"], "l": lvl}, f)

    def op_wrap(self, op):
        o = self.regs[op["a"]]
        t = Tr(o) if type(o) is Atom else o if type(o) is Tree else o.rep
        lvl = op["l"]
        self.add({"op": "mk", "how": "wrap", "a": [op["a"]], "l": lvl},
                 lambda: t if lvl == "tree" else CLASSES[lvl](t))

    def op_unwrap(self, op):
        o = self.regs[op["a"]]
        self.add({"op": "mk", "how": "unwrap", "a": [op["a"]], "l": "atom" if type(o) is Tree else "tree"},
                 lambda: o.value if type(o) is Tree else o.rep)

    def op_copy(self, op):
        o = self.regs[op["a"]]
        copied = copy.deepcopy if op.get("deep") else copy.copy
        kind = op.get("kind") and type(o) is Atom     # the atom of a copied kind and the same value
        self.add({"op": "mk", "how": "same", "a": [op["a"]]},
                 lambda: copied(o.atom_type)(o.value) if kind else copied(o))

    def op_child(self, op):
        o, j = self.regs[op["a"]], op["j"]
        self.add({"op": "mk", "how": "child", "a": [op["a"]], "j": j},
                 lambda: o.children[j - 1] if type(o) is Tree else o.head if j == 1 else o.args[j - 2])

    def entries(self, es):
        """A node listing what something holds."""
        return self.tab.add(node_comp([6, *[self.tab.tree(e.rep) for e in es]]))

    def matrix(self, m):
        return self.entries([e for row in m.tolist() for e in row if e is not sc.zero])

    def op_hold(self, op):
        ev = {"op": "mk", "how": "hold" if op["how"] == "mat" else "any", "a": [r for r in op["a"] if r], "l":
              HOLDS.get(op["how"], "Matrix"), "node": NONODE, "j": 0, "res": {"l": "", "i": 0}}
        obj = None
        try:
            with limit():
                obj, about = holder(op["how"], [self.regs[r] if r else None for r in op["a"]], op.get("nc", 1))
                ev["res"] = {"l": ev["l"], "i": self.matrix(obj) if about is None else self.entries(about)}
                del about
        except OpTimeout:
            ev["how"] = "timeout"
        except Exception as e:
            ev["err"] = type(e).__name__
        self.regs.append(obj)
        self.ev.append(ev)

    def op_mget(self, op):
        m = self.regs[op["a"]]
        self.add({"op": "mk", "how": "any", "a": [], "l": "Expr"},
                 lambda: m[op["j"] // m.ncols % m.nrows, op["j"] % m.ncols])

    def op_derive(self, op):
        o = self.regs[op["a"]]
        self.add({"op": "mk", "how": "any", "a": [op["a"]], "l": "Expr"}, lambda: derive(op["how"], o))

    def op_use(self, op):
        with limit():
            quiet(uses(op["how"]), self.regs[op["a"]])
        self.ev.append({"op": "skip"})

    def op_bad(self, op):
        o = self.regs[op["a"]]
        t = o if type(o) is Tree else sc.sin.rep
        f = {"child": lambda: Tree(t, 3), "child2": lambda: t(t, None), "unhashable": lambda: Tree(t, [1]),
             "atomchild": lambda: Tree(t, t.value if not t.children else 1),
             "tr": lambda: Tr(5), "trtree": lambda: Tr(t), "sym": lambda: Expr(5), "symatom": lambda: S("x"),
             "symsym": lambda: S(sc.x), "value": lambda: AtomType("L", list)([1]),
             "op": lambda: sc.x + "a", "call": lambda: sc.sin("a"), "op2": lambda: [] * sc.x,
             "exprtree": lambda: sc.x + t}[op["how"]]
        with limit():
            ok = quiet(f)
        self.ev.append({"op": "bad", "how": op["how"], "failed": not ok})

    def op_drop(self, op):
        self.regs[op["a"]] = None
        self.ev.append({"op": "drop", "r": op["a"]})

    def op_check(self, op):
        held = [(r, o) for r, o in enumerate(self.regs) if isinstance(o, (Atom, Tree, Sym))]
        mats = [{"r": r, "i": self.matrix(o)} for r, o in enumerate(self.regs) if isinstance(o, Matrix)]
        ev = {"mats": mats, "op": "check", "held": [dict(self.rec(o), r=r) for r, o in held], "is": [], "eq": [], "hash": []}
        for n, (p, a) in enumerate(held):
            for q, b in held[n + 1:]:
                if a is b:
                    ev["is"].append([p, q])
                if a == b and not a != b and b == a:
                    ev["eq"].append([p, q])
                elif a == b or not a != b or b == a:
                    ev["eq"].append([q, p])     # inconsistent: never right
                if hash(a) == hash(b):
                    ev["hash"].append([p, q])
        ev["nset"] = len({o for _, o in held})
        self.ev.append(ev)

    def op_live(self, op):
        objs = sorted((self.rec(o) for o in alive() if id(o) not in self.base_ids), key=lambda d: (d["l"], d["i"]))
        self.ev.append({"op": "live", "objs": objs})

    def op_grow(self, op):
        """Blocks of memory in use after n more rounds with new names."""
        n, f = op["n"], uses(op["how"])

        def rounds():
            for _ in range(n):
                self.counter += 1
                v = sc.Symbol(f"grow{self.counter}")
                quiet(f, sc.sin(v * (1000 + self.counter)) + v ** 2)
                del v
            gc.collect()
            return sys.getallocatedblocks()
        with limit(60):
            rounds()
            before = rounds()
            # one of several tries, as other things come and go
            blocks = min(abs(rounds() - before), abs(rounds() - before) // 2)
        self.ev.append({"op": "grow", "how": op["how"], "n": n, "blocks": blocks})

    def step(self, op):
        name = op["op"]
        if "a" in op:
            a = op["a"] if isinstance(op["a"], list) else [op["a"]]
            if any(self.regs[r] is None for r in a if r):
                if name in ("hold", "mget", "atom", "comp", "wrap", "unwrap", "copy", "child", "derive"):
                    # keep the numbering
                    self.regs.append(None)
                    self.ev.append({"op": "mk", "how": "any", "a": [], "l": "", "node": NONODE, "j": 0,
                                    "res": {"l": "", "i": 0}})
                return
        try:
            getattr(self, "op_" + name)(op)
        except OpTimeout:
            self.ev.append({"op": "timeout"})


def play(script):
    s = Store(script)
    for op in script["ops"]:
        s.step(op)
    return {"tab": s.tab.nodes, "ev": s.ev, "base": [s.rec(o) for o in s.base]}


def crashed(script):
    return {"tab": Table().nodes, "ev": [{"op": "crash"}], "base": []}
