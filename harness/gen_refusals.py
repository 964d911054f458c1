"""Scripts for spec/TraceRefusals.tla: supported requests with unsupported ones between them."""
from __future__ import annotations

from gen import G, tame, _symterm

POINTS = [[["x", 2], ["y", -1], ["z", 3]], [["x", (0.5).hex()], ["y", (1.25).hex()], ["z", 1]]]
BADSYM = ["pi", "E", "I", "oo", "half", "float", "exp", "tan", "abs", "deriv", "eq", "true", "integral", "sqrt2", "zoo",
          "max", "lt", "piecewise", "set", "log", "dict", "lambda", "sum", "matsym", "conj"]
HASHABLE = [["float", 1.0], ["float", 2.0], ["float", -1.0], ["float", 0.0], ["float", 7.0], ["float", 2.5], ["nan", 0],
            ["fraction", 1], ["fraction", 7], ["decimal", 2], ["complex", 1], ["none", 0], ["str", "x"], ["str", "1"],
            ["str", ""], ["bytes", "x"], ["object", 0], ["type", 0], ["symtype", 0], ["ellipsis", 0], ["range", 2],
            ["callable", 0], ["tree", "E"], ["atom", "A"], ["foreign", "E"], ["function", "E"], ["intuple", "E"]]
VALUES = HASHABLE + [["list", 0], ["dict", 0], ["set", 0], ["inlist", "E"]]
CLASSES = ("build", "same", "subst", "eval", "diff", "code", "matrix", "sympy", "evrule", "evcall", "dfrule", "dfcall")


class R:
    """One script; what the requests of a class are about stays the same throughout."""

    def __init__(self, rng, prop, names=("x", "y")):
        self.rng = rng
        g = self.g = G(rng, prop)
        self.H = g.heads()
        self.syms = [g.sym(n) for n in names]
        self.ps = [g.r(k) for k in self.syms]
        self.z = g.sym("z")
        self.f = g.fun("f")
        self.pool = g.exprs(self.syms, rng.randint(2, 4), exps=(2, 3, 1), arity=(1, 2, 2, 3), big=False)
        self.flat = [k for k in self.pool if not self.has(g.term[k], ("f", "pow"))]
        self.funs, self.mats, self.lams, self.nev, self.ndf = [], [], [], 0, 0
        self.focus = {}
        self.salt = 0

    @staticmethod
    def has(t, x):
        return t == x or t[0] == "c" and any(R.has(c, x) for c in t[1:])

    def some(self):
        return self.g.r(self.rng.choice(self.pool[-5:]))

    def keep(self, name, make):
        """The same thing as before, mostly."""
        if name not in self.focus or self.rng.random() < 0.2:
            self.focus[name] = make()
        return self.focus[name]

    def bad(self, values=VALUES):
        k, v = self.rng.choice(values)
        if v == "E":
            v = self.some()
        elif v == "A":
            v = self.ps[0]
        return [k, v]

    def ask(self, kind, **kw):
        op = {"op": "ask", "ask": True, "kind": kind, **kw}
        for _ in range(self.rng.choice((1, 1, 1, 2, 3))):
            self.g.add(op)

    def ask_bin(self, args):
        what = self.rng.choice(("+", "-", "*", "/", "**"))
        if what == "**" and args[1][0] == "fraction":       # x**Fraction(2) is computed by Fraction, as x**2
            what = "*"
        self.ask("bin", what=what, args=args)

    def flagged(self, op):
        for _ in range(self.rng.choice((1, 1, 2))):
            self.g.add(dict(op, ask=True))

    # -- one request of a class

    def do(self, c, good):
        return getattr(self, c)(good)

    def build(self, good):
        g, rng = self.g, self.rng
        e = self.some()
        k = rng.randrange(6)
        if good:
            if k < 3:
                self.pool += g.exprs(self.syms, 1, exps=(2, 3), arity=(1, 2, 3, 5, 20), big=False, pool=self.pool)[-1:]
            elif k == 3:
                g.call(self.f, [e, self.some()], tree=rng.random() < 0.5)
            elif k == 4:
                g.add({"op": "text", "a": [e], "how": rng.choice(("repr", "str", "eval"))})
            else:
                g.add({"op": rng.choice(("binexp", "count", "graph")), "a": [e]})
        elif k == 0:
            args = [["expr", e], self.bad()]
            self.ask_bin(args[::rng.choice((1, -1))])
        elif k == 1:
            args = [["expr", self.some()], self.bad(), ["int", "2"]]
            rng.shuffle(args)
            self.ask("call", e=rng.choice((g.r(self.f), g.r(self.H["Add"]), e)), args=args)
        elif k == 2:
            args = [["tree", g.r(self.f)], ["tree", self.some()], self.bad([["expr", "E"], ["int", "1"], ["atom", "A"], ["none", 0],
                                                                        ["foreign", "E"], ["str", "x"], ["float", 1.0]])]
            if rng.random() < 0.3:
                args[1:] = args[:0:-1]
            self.ask("tree", what=rng.choice(("call", "new")), args=args)
        elif k == 3:
            what = rng.choice(("atom", "expr"))
            vals = [["expr", "E"], ["foreign", "E"], ["int", "1"], ["str", "x"], ["none", 0], ["float", 1.0]]
            self.ask("wrap", what=what, args=[self.bad(vals + [["tree", "E"] if what == "atom" else ["atom", "A"]])])
        elif k == 4:
            self.same(False)
        else:
            self.ask("replacements", what=rng.choice(("xreplace", "function")), e=e, args=[["expr", self.some()], self.bad()])

    def same(self, good):
        """Numbers and names equal to those of refused requests."""
        g, rng = self.g, self.rng
        n = self.keep("number", lambda: rng.choice((7, 11, -9, 123456, 3)))
        e = self.keep("same", self.some)
        if good:
            k = rng.randrange(4)
            if k == 0:
                self.pool.append(g.bin(rng.choice("+*"), e, g.i(n)))
            elif k == 1:
                self.pool.append(g.call(self.f, [g.i(n), e]))
            elif k == 2:
                g.add({"op": "twin", "what": "atoms", "ints": [n, 1, 0], "names": ["x", "1"]})
            else:
                self.pool.append(g.add({"op": "subst", "mode": "xreplace", "a": [e], "ts": [self.ps[0]], "rs": [g.i(n)]}, ("?",)))
        else:
            v = [rng.choice(("float", "fraction", "decimal", "complex", "str")), n]
            k = rng.randrange(5)
            if k == 0:
                self.ask_bin([["expr", e], v])
            elif k == 1:
                self.ask("call", e=g.r(self.f), args=[v, ["expr", e]])
            elif k == 2:
                self.ask("replacements", what="xreplace", e=e, args=[v])
            elif k == 3:
                self.ask("rows", what="list", nums=[2, 2], rows=["list"] * 2, args=[v])
            else:
                self.ask("targets", what=rng.choice(("xreplace", "function")), e=e, args=[v])

    def subst(self, good):
        g, rng = self.g, self.rng
        e = self.keep("subst", self.some)
        f = self.keep("mkfun", lambda: g.add({"op": "mkfun", "mode": rng.choice(("tree", "function")), "a": [e], "ts": self.ps}))
        k = rng.randrange(4)
        if good:
            if k < 2:
                g.add({"op": "apply", "f": f, "rs": [self.some(), g.i(rng.randint(-2, 3))]})
            else:
                g.add({"op": "subst", "mode": rng.choice(("tree", "function", "xreplace")), "a": [e], "ts": [self.ps[0]],
                       "rs": [self.some()]})
        elif k == 0:
            n = rng.choice((0, 1, 3, 4))
            self.flagged({"op": "apply", "f": f, "rs": [self.some() for _ in range(n)]})
        elif k == 1:
            n = rng.randint(0, 3)
            self.ask("number", what=rng.choice(("tree", "function")), e=e, nums=[n, rng.choice([m for m in range(5) if m != n])])
        elif k == 2:
            x = rng.random() < 0.5
            self.ask("targets", what="xreplace" if x else "function", e=e,
                     args=[["expr", self.ps[0]], self.bad(HASHABLE if x else VALUES)])
        else:
            self.ask("replacements", what=rng.choice(("xreplace", "function")), e=e, args=[self.bad(), ["expr", self.some()]])

    def eval(self, good):
        g, rng = self.g, self.rng
        base = self.keep("eval", lambda: g.r(rng.choice(self.flat)))
        if good:
            g.add({"op": "num", "a": [rng.choice((base, self.some()))], "pt": rng.randint(1, 2),
                   "route": rng.choice(("f64", "f64", "evaluator", "binexp", "partly"))})
            return
        k = rng.randrange(4)
        if k == 0:          # no value for a symbol
            e = g.r(g.call(self.H["Add"], [base, g.r(self.z)]))
            given = [self.ps[0], self.ps[1]]
        elif k == 1:        # unknown function
            e = g.r(g.call(self.H["Mul"], [base, g.r(g.call(self.f, [self.ps[0]]))]))
            given = [self.ps[0], self.ps[1]]
        elif k == 2:
            e, given = g.r(g.call(self.H["sin"], [g.r(g.call(self.H["List"], [base]))])), [self.ps[0], self.ps[1]]
        else:
            e, given = g.r(g.bin("+", base, self.ps[1])), [self.ps[0]]
        if rng.random() < 0.15:
            self.ask("eval", what="method", e=e, args=[self.bad([["str", "x"], ["int", "1"], ["none", 0], ["tree", "E"]])])
        else:
            self.ask("eval", what=rng.choice(("method", "evaluator")), e=e, args=[["expr", p] for p in given])

    def diff(self, good):
        g, rng = self.g, self.rng
        base = self.keep("diff", self.some)
        if good:
            g.add({"op": "diff", "a": [rng.choice((base, self.some())), rng.choice(self.ps)], "k": rng.choice((1, 1, 2)),
                   "how": rng.choice(("method", "function", "default"))})
        elif rng.random() < 0.7:
            e = g.call(rng.choice((self.H["Mul"], self.H["Add"])), [base, g.r(g.call(self.f, [self.ps[0], base]))])
            self.flagged({"op": "diff", "a": [g.r(e), self.ps[0]], "k": 1, "how": rng.choice(("method", "function"))})
        elif rng.random() < 0.5:
            self.ask("diff", what="var", e=base, args=[self.bad([v for v in VALUES if v[0] != "foreign"])])
        else:
            self.ask("diff", what="times", e=base, args=[self.bad([["float", 1.0], ["str", "x"], ["none", 0], ["float", 2.5]])])

    def code(self, good):
        g, rng = self.g, self.rng
        base = self.keep("code", self.some)
        if not good:
            k = rng.randrange(6)
            ps = self.ps
            if k == 0:
                e = g.r(g.call(self.H["Add"], [base, g.r(self.z)]))
            elif k == 1:
                e = g.r(g.call(self.H["Mul"], [base, g.r(g.call(self.f, [base]))]))
            elif k == 2:        # a number of arguments that the function does not have
                h, ns = rng.choice((("sin", (0, 2, 3)), ("cos", (0, 2)), ("pow", (0, 1, 3))))
                e = g.r(g.call(self.H["Add"], [base, g.r(g.call(self.H[h], [base] * rng.choice(ns)))]))
            elif k == 3:
                e, ps = g.r(g.bin("*", base, self.ps[1])), self.ps[:1]
            elif k == 4:
                self.ask("lambdify", args=[self.bad(VALUES + [["int", "1"]])])
                return
            else:
                e, ps = g.r(g.bin("+", base, self.ps[0])), [g.r(self.z)]
            k = rng.randrange(8)
            if k < 4:
                self.flagged({"op": "code", "a": [e], "ps": ps})
            else:
                m = g.add({"op": "mat", "nr": 1, "nc": 2, "a": [base, e]})
                self.flagged({"op": "mcode", "m": m, "ps": ps} if k < 6 else {"op": "lam", "ps": ps, "m": m} if k < 7
                             else {"op": "lam", "ps": ps, "a": [e]})
            return
        k = rng.randrange(10)
        if k < 5:
            g.add({"op": "code", "a": [base], "ps": self.ps[::rng.choice((1, -1))]})
        elif k < 8:
            g.add({"op": "mcode", "m": self.mat(), "ps": self.ps})
        elif k < 9 or not self.lams:
            self.lams.append(g.add({"op": "lam", "ps": self.ps, "a": [base]}))
            g.add({"op": "lcall", "f": self.lams[-1], "pt": rng.randint(1, 2)})
        else:
            g.add({"op": "lcall", "f": rng.choice(self.lams), "pt": rng.randint(1, 2)})

    def mat(self):
        def make():
            es = [self.g.i(0) if self.rng.random() < 0.3 else self.some() for _ in range(6)]
            return self.g.add({"op": "mat", "nr": 2, "nc": 3, "a": es})
        return self.keep("matrix", make)

    def matrix(self, good):
        g, rng = self.g, self.rng
        m = self.mat()
        other = self.keep("other", lambda: g.add({"op": "mat", "nr": 2, "nc": 3, "a": [self.some() for _ in range(6)]}))
        k = rng.randrange(7)
        if good:
            if k < 2:
                g.add({"op": "madd", "x": m, "y": other} if k else {"op": "madd", "x": other, "y": m})
            elif k == 2:
                g.add({"op": "mdiff", "m": m, "a": [self.ps[0]]})
            elif k == 3:
                g.add({"op": "mget", "m": m, "i": rng.randrange(2), "j": rng.randrange(3)})
            elif k == 4:
                g.add({"op": "mlist", "m": rng.choice((m, other))})
            elif k == 5:
                g.add({"op": "mtext", "m": rng.choice((m, other))})
            else:
                g.add({"op": "mat", "nr": 2, "nc": 2, "a": [self.some() for _ in range(4)]})
        elif k < 2:
            nr, nc = rng.choice(((3, 2), (1, 6), (6, 1), (1, 1), (2, 2), (1, 3), (2, 4)))
            o = g.add({"op": "mat", "nr": nr, "nc": nc, "a": [self.some() for _ in range(nr * nc)]})
            self.flagged({"op": "madd", "x": m, "y": o} if rng.random() < 0.5 else {"op": "madd", "x": o, "y": m})
        elif k == 2:
            self.ask("madd", m=m, what=rng.choice(("left", "right")), args=[self.bad(VALUES + [["int", "0"], ["expr", "E"]])])
        elif k == 3:
            # an entry without a derivative
            f = g.r(g.call(self.f, [self.ps[0]]))
            o = g.add({"op": "mat", "nr": 1, "nc": 2, "a": [self.some(), f]})
            self.flagged({"op": "mdiff", "m": o, "a": [self.ps[0]]})
            self.ask("mdiff", m=m, args=[self.bad(VALUES + [["int", "1"]])])
        elif k == 4:
            i, j = rng.choice([(i, j) for i in (-7, -2, -1, 0, 1, 2, 3, 6) for j in (-7, -3, -2, -1, 0, 1, 2, 3, 4, 6)
                                if not (0 <= i < 2 and 0 <= j < 3)])
            self.flagged({"op": "mget", "m": m, "i": i, "j": j})
        elif k == 5:
            self.ask("index", m=m, what=rng.choice(("tuple", "list", "bare")), nums=[0, 0],
                     args=[self.bad([["float", 0.0], ["float", 1.0], ["str", "0"], ["none", 0], ["expr", "E"], ["slice", 0]]),
                           ["int", "0"]][::rng.choice((1, -1))])
            self.ask("index", m=m, what=rng.choice(("list", "bare")), nums=[0, 0], args=[["int", "0"], ["int", "0"]])
        else:
            n = rng.randint(2, 3)
            nums = [2] * n
            rows, what, args = ["list"] * n, "list", []
            c = rng.randrange(4)
            if c == 0:
                nums[rng.randrange(n)] = rng.choice((0, 1, 3))
            elif c == 1:
                rows[rng.randrange(n)] = rng.choice(("tuple", "str"))
            elif c == 2:
                what = rng.choice(("tuple", "iter"))
            else:
                args = [self.bad([v for v in VALUES if v[0] not in ("matrix",)])]
            self.ask("rows", what=what, nums=nums, rows=rows, args=args)

    def sympy(self, good):
        g, rng = self.g, self.rng
        term = self.keep("term", lambda: tame(lambda: _symterm(rng, 2, ["x", "y"], ["f"], True)))
        k = rng.randrange(4)
        if good:
            if k == 0:
                g.add({"op": "tosym", "a": [self.ps[0]], "how": "method"})
            elif k == 1:
                g.add({"op": "mfromsym", "nr": 1, "nc": 2, "terms": [term, ["i", "0"]], "supported": True, "cls": "dense"})
            else:
                g.add({"op": "fromsym", "term": term, "supported": True, "evaluated": True})
        elif k < 3:
            b = ["bad", rng.choice(BADSYM)]
            t = rng.choice((b, ["T", True, term, b], ["f", True, term, b], ["f", True, b, term]))
            if k < 2:
                self.flagged({"op": "fromsym", "term": t, "supported": False, "evaluated": True})
            else:
                self.flagged({"op": "mfromsym", "nr": 1, "nc": 2, "terms": [term, t], "supported": False, "cls": "dense"})
        else:
            self.ask("from", what=rng.choice(("expression", "matrix")), args=[self.bad(VALUES + [["int", "1"]])])

    # -- evaluators and differentiators of the user

    RULES = [(["head", "f", ["a"]], ["op1", ["a"]]), (["head", "f", ["a", "b"]], ["op2", ["a", "b"]]), (["head", "f", ["*a"]], ["opn", ["a"]]),
             (["head", "Add", ["*a"]], ["opn", ["a"]]), (["head", "Mul", ["a", "b"]], ["op2", ["a", "b"]]),
             (["head", "sin", ["a"]], ["op1", ["a"]]), (["head", "pow", ["a", "b"]], ["op2", ["a", "b"]]),
             (["atom", "Integer", ["a"]], ["func1", ["a"]]), (["atom", "Symbol", ["a"]], ["func1", ["a"]]),
             (["agen", "", ["a"]], ["atomfunc", ["a"]]), (["ogen", "", ["a", "b"]], ["headop", ["a", "b"]])]
    ACTS = [["op1", ["a"]], ["op1", ["b"]], ["op2", ["a", "b"]], ["op2", ["b", "a"]], ["opn", ["a"]], ["opn", ["b"]],
            ["func1", ["a"]], ["func1", ["b"]], ["atomfunc", ["a"]], ["atomfunc", ["b"]], ["headop", ["a", "b"]],
            ["headop", ["b", "a"]], ["plain", []]]

    @staticmethod
    def rule_ok(p, a):
        if a[0] == "plain":
            return False
        if a[0] == "opn":
            return p[0] == "head" and p[2] == ["*" + a[1][0]]
        return p[2] == a[1] and (p[0], a[0]) in (("head", "op1"), ("head", "op2"), ("atom", "func1"), ("agen", "atomfunc"),
                                                ("ogen", "headop"))

    def evaluators(self):
        while self.nev < 2:
            self.g.add({"op": "twin", "what": "newev"})
            self.nev += 1
            rules = self.rng.sample(self.RULES, self.rng.randint(3, 9))
            for p, a in rules + [r for r in self.RULES[7:10] if r not in rules and self.rng.random() < 0.6]:
                self.salt += 1
                self.g.add({"op": "twin", "what": "rule", "v": self.nev, "pat": p, "act": a, "salt": self.salt})

    def evrule(self, good):
        self.evaluators()
        rng = self.rng
        self.salt += 1
        v = self.keep("evaluator", lambda: rng.randint(1, 2))
        p, a = self.keep("pattern", lambda: rng.choice(self.RULES))
        if good:
            self.g.add({"op": "twin", "what": "rule", "v": v, "pat": p, "act": a, "salt": self.salt})
        else:
            a = rng.choice([b for b in self.ACTS if not self.rule_ok(p, b)])
            self.ask("rule", v=v, pat=p, act=a, salt=self.salt)

    def subject(self):
        """Something with the head that rules are being made for."""
        g, rng = self.g, self.rng
        p = self.focus.get("pattern", (("", "f", "a"),))[0]
        h = self.H.get({"pow": "pow"}.get(p[1], p[1]), self.f)
        args = [rng.choice(self.ps + [g.i(2)]) for _ in p[2]] if p[0] == "head" else [rng.choice(self.ps)]
        return g.r(g.call(h, args))

    def evcall(self, good):
        self.evaluators()
        g, rng = self.g, self.rng
        e = self.keep("ev", lambda: rng.choice((self.some(), g.r(g.call(self.f, [self.some()])))))
        op = {"op": "twin", "what": "evcall", "v": self.keep("evaluator", lambda: rng.randint(1, 2)),
              "e": rng.choice((e, self.some(), self.subject(), self.subject())), "given": rng.choice(([], ["x"], ["x", "y"]))}
        if good:
            g.add(op)
        else:           # a head and a name that have no rule, mostly
            op["e"] = g.r(g.call(self.H["List"], [e, g.r(g.call(g.fun("strange"), [e]))]))
            g.add(dict(op, ask=True))

    def differentiators(self):
        while self.ndf < 2:
            self.g.add({"op": "twin", "what": "newdf", "lists": self.rng.random() < 0.5})
            self.ndf += 1
            for _ in range(self.rng.randint(1, 3)):
                self.dfrule(True)

    def dfrule(self, good):
        if not self.ndf:
            self.differentiators()
        rng = self.rng
        head, args = self.keep("function", lambda: (rng.choice(("f", "sin", "h")), rng.choice((["a"], ["a", "b"]))))
        v = rng.randint(1, self.ndf) if self.ndf < 2 else self.keep("differentiator", lambda: rng.randint(1, 2))
        op = {"v": v, "lhs": [head, args], "var": rng.choice(args),
              "rhs": rng.choice(("a", "k", "p", "1", "0") + (("b",) if len(args) > 1 else ()))}
        if good:
            self.g.add({"op": "twin", "what": "drule", **op})
        else:
            k = rng.randrange(6)
            what = "pair"
            if k < 3:
                what = ("single", "triple", "list")[k]
            elif k < 5:
                op["lhs"] = [head, [op["var"]] * rng.choice((2, 2, 3))]
                op["rhs"] = "p" if op["var"] == "a" else rng.choice(("a", "0", "b"))
            else:
                op["lhs"], op["var"] = [head, ["b"]], "a"
            self.ask("drule", what=what, **op)

    def dfcall(self, good):
        self.differentiators()
        g, rng = self.g, self.rng
        head, args = self.focus.get("function", ("f", ["a"]))
        h = self.H["sin"] if head == "sin" else g.fun(head)
        xs = [self.ps[0]] + [self.some() for _ in args[1:]]
        rng.shuffle(xs)
        e = g.r(g.call(h, xs))
        op = {"op": "twin", "what": "dfcall", "v": self.keep("differentiator", lambda: rng.randint(1, 2)),
              "e": rng.choice((e, e, self.some())), "k": rng.choice((1, 2))}
        if good:
            g.add(op)
        else:
            op["e"] = g.r(g.call(self.H["Mul"], [e, g.r(g.call(g.fun("strange"), [e, self.ps[0]]))]))
            g.add(dict(op, ask=True))


def history_script(rng, history, prop="C19"):
    r = R(rng, prop)
    for c, good in history:
        r.do(c, good)
    r.g.add({"op": "frame"})
    return r.g.script(pts=POINTS, hold=rng.random() < 0.4)


def random_refusals(rng, prop="C19"):
    cs = rng.sample(CLASSES, rng.randint(2, 5))
    for pair in (("evrule", "evcall"), ("dfrule", "dfcall")):
        if set(pair) & set(cs):
            cs += pair
    return history_script(rng, [(rng.choice(cs), rng.random() < 0.5) for _ in range(rng.randint(8, 25))], prop)
