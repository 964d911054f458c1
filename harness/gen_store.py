"""Random histories of building and dropping."""
from __future__ import annotations

from play_store_names import BADS, DERIVES, USES

CLASSES = ["S", "S2", "Expr", "SubExpr"]


class G:
    def __init__(self, rng, kinds):
        self.rng, self.kinds = rng, kinds
        self.ops, self.n = [], 0
        self.reg = {}        # register -> (level, structure)
        self.hold = {}       # register -> what else it is

    def push(self, op, key):
        self.ops.append(op)
        self.n += 1
        self.reg[self.n] = key
        return self.n

    def drop(self, r):
        self.ops.append({"op": "drop", "a": r})
        self.reg.pop(r, None)
        self.hold.pop(r, None)

    def keep(self, op, what):
        self.ops.append(op)
        self.n += 1
        self.hold[self.n] = what
        return self.n

    # structures: ("a", kind, value) or ("c", s0, s1, ...)

    def build(self, s, lvl, style=0):
        """Build from the leaves, keeping only the result."""
        if s[0] == "a":
            return self.push({"op": "atom", "k": s[1], "v": s[2] if not isinstance(s[2], tuple) else
                              {"tuple": list(s[2])}, "l": lvl}, (lvl, s))
        parts = [self.build(c, lvl, style) for c in s[1:]]
        k = self.push({"op": "comp", "a": parts, "style": style}, (lvl, s))
        for p in parts:
            self.drop(p)
        return k

    def pick(self, f):
        rs = [r for r, k in self.reg.items() if k and f(k)]
        return self.rng.choice(rs) if rs else None


VALUES = {"int": [0, 1, 2, -1, -2, 257, 2 ** 61 - 1, 10 ** 20], "str": ["x", "y", "1", "f", ""], "tuple": [(), (1,), (1, 2)],
          "bool": [True, False], "bytes": []}


def store_script(rng, prop="C01", size=None):
    kinds = [["core", "Integer", "int"], ["core", "Integer", "int"], ["core", "Symbol", "str"], ["core", "Symbol", "str"],
             ["S", "Symbol", "str"], ["S2", "Symbol", "str"], ["Expr", "Symbol", "str"], ["sc", "Symbol", "str"],
             ["sc", "Integer", "int"], ["sc", "Function", "str"], ["core", "T", "tuple"], ["core", "Integer", "bool"]]
    kinds = rng.sample(kinds, rng.randint(2, 6)) + [["sc", "Symbol", "str"], ["sc", "Function", "str"]]
    g = G(rng, kinds)

    def atom():
        k = rng.randrange(len(kinds))
        return ("a", k, rng.choice(VALUES[kinds[k][2]]))

    atoms = [atom() for _ in range(rng.randint(2, 5))]
    sysy = len(kinds) - 2
    atoms += [("a", sysy, "x"), ("a", sysy + 1, "sin")]

    def struct(d):
        if d == 0 or rng.random() < 0.25:
            return rng.choice(atoms)
        if rng.random() < 0.06:     # wide
            return ("c", *[rng.choice(atoms) for _ in range(rng.randint(4, 30))])
        if rng.random() < 0.04:     # deep
            s = rng.choice(atoms)
            for _ in range(rng.randint(4, 25)):
                s = ("c", rng.choice(atoms), s) if rng.random() < 0.8 else ("c", s)
            return s
        return ("c", *[struct(d - 1) for _ in range(rng.choice((1, 2, 2, 3)))])

    def simple(d):
        """Something simplecas can do things with."""
        if d == 0 or rng.random() < 0.3:
            return ("a", sysy, rng.choice("xyz"))
        return rng.choice([("c", ("a", sysy + 1, "sin"), simple(d - 1)),
                           ("c", ("a", sysy + 1, rng.choice(("Add", "Mul"))), simple(d - 1), simple(d - 1)),
                           ("c", ("a", sysy + 1, "f"), simple(d - 1))])

    def variant(s):
        """Nearly the same structure."""
        if s[0] == "a":
            return rng.choice(atoms)
        c = list(s[1:])
        k = rng.random()
        if k < 0.35:
            rng.shuffle(c)
        elif k < 0.5:
            c.append(rng.choice(atoms))
        elif k < 0.65 and len(c) > 1:
            c.pop()
        elif k < 0.8 and len(c) > 2:
            c = [("c", *c[:2]), *c[2:]]
        else:
            j = rng.randrange(len(c))
            c[j] = variant(c[j])
        return ("c", *c)

    past = []

    def holder():
        """Make something that holds expressions, or take an expression from it."""
        e = g.pick(lambda k: k[0] == "Expr")
        mats = [r for r, w in g.hold.items() if w == "Matrix"]
        c = rng.random()
        if e and c < 0.35 or not mats:
            nr, nc = rng.choice(((1, 1), (1, 2), (2, 2), (1, 3)))
            a = [0 if rng.random() < 0.35 else g.pick(lambda k: k[0] == "Expr") or 0 for _ in range(nr * nc)]
            g.keep({"op": "hold", "how": "mat", "a": a, "nc": nc}, "Matrix")
        elif c < 0.5:
            g.keep({"op": "hold", "how": "madd", "a": [rng.choice(mats), rng.choice(mats)]}, "Matrix")
        elif c < 0.6:
            g.keep({"op": "hold", "how": rng.choice(("mdiff", "mdiff", "mround")), "a": [rng.choice(mats)]}, "Matrix")
        elif c < 0.7:
            g.push({"op": "mget", "a": rng.choice(mats), "j": rng.randrange(4)}, None)
        elif c < 0.75:
            g.keep({"op": "hold", "how": "mcompiled", "a": [rng.choice(mats)]}, "Compiled")
        elif e:
            g.keep({"op": "hold", "how": rng.choice(("function", "subsfunc", "graph", "compiled")), "a": [e]}, "Function")
        if rng.random() < 0.5:
            g.ops.append({"op": "live"})
        while len(g.hold) > 6:
            g.drop(rng.choice(list(g.hold)))

    def level():
        return rng.choice(["tree", "tree", *CLASSES])

    def make():
        c = rng.random()
        if c < 0.15:
            a = rng.choice(atoms)
            g.push({"op": "atom", "k": a[1], "v": a[2] if not isinstance(a[2], tuple) else {"tuple": list(a[2])},
                    "l": "atom"}, ("atom", a))
            return
        if c < 0.45 and past:
            lvl, s = rng.choice(past)
            if rng.random() < 0.3:
                lvl = level()
            if rng.random() < 0.4:
                s = variant(s)
        elif c < 0.6:
            lvl, s = "Expr", simple(rng.randint(1, 3))
        else:
            lvl, s = level(), struct(rng.randint(0, 3))
        past.append((lvl, s))
        g.build(s, lvl, rng.randint(0, 1))

    def step():
        c = rng.random()
        if rng.random() < 0.15:
            holder()
        elif c < 0.34 or not g.reg:
            make()
        elif c < 0.42:      # join held ones
            lvl = level()
            rs = [r for r, k in g.reg.items() if k and k[0] == lvl]
            if rs:
                a = [rng.choice(rs) for _ in range(rng.randint(1, 3))]
                s = ("c", *[g.reg[r][1] for r in a])
                past.append((lvl, s))
                g.push({"op": "comp", "a": a, "style": rng.randint(0, 1)}, (lvl, s))
        elif c < 0.48:
            r = g.pick(lambda k: True)
            if r:
                lvl = level()
                if g.reg[r][0] == "atom" and lvl == "tree" or g.reg[r][0] != lvl:
                    g.push({"op": "wrap", "a": r, "l": lvl}, (lvl, g.reg[r][1]))
        elif c < 0.52:
            r = g.pick(lambda k: k[0] != "atom" and (k[0] != "tree" or k[1][0] == "a"))
            if r:
                lvl = "atom" if g.reg[r][0] == "tree" else "tree"
                g.push({"op": "unwrap", "a": r}, (lvl, g.reg[r][1]))
        elif c < 0.57:
            r = g.pick(lambda k: True)
            if r:
                g.push({"op": "copy", "a": r, "deep": rng.random() < 0.5, "kind": rng.random() < 0.5}, g.reg[r])
        elif c < 0.62:
            r = g.pick(lambda k: k[1][0] == "c")
            if r:
                lvl, s = g.reg[r]
                j = rng.randint(1, len(s) - 1)
                g.push({"op": "child", "a": r, "j": j}, (lvl, s[j]))
        elif c < 0.7:
            r = g.pick(lambda k: k[0] == "Expr")
            if r:
                g.push({"op": "derive", "a": r, "how": rng.choice(DERIVES)}, None)
        elif c < 0.8:
            r = g.pick(lambda k: k[0] == "Expr")
            if r:
                g.ops.append({"op": "use", "a": r, "how": rng.choice(USES)})
        elif c < 0.84:
            r = g.pick(lambda k: k[0] == "tree")
            if r:
                g.ops.append({"op": "bad", "a": r, "how": rng.choice(BADS)})
        elif c < 0.97:
            for _ in range(rng.randint(1, 3)):
                if g.reg:
                    g.drop(rng.choice(list(g.reg)))
        else:
            g.ops.append({"op": "live"})
        while len(g.reg) > 12:
            g.drop(rng.choice(list(g.reg)))

    for _ in range(size or rng.randint(15, 40)):
        step()
        if rng.random() < 0.15:
            g.ops.append({"op": "check"})
    g.ops += [{"op": "check"}, {"op": "live"}]
    for r in rng.sample([*g.reg, *g.hold], len(g.reg) + len(g.hold)):
        g.drop(r)
        if rng.random() < 0.2:
            g.ops.append({"op": "live"})
    g.ops.append({"op": "live"})
    return {"prop": prop, "kinds": kinds, "ops": g.ops}


def use_script(rng, how, prop="C03"):
    """One operation on several expressions, then nothing may be left."""
    kinds = [["sc", "Symbol", "str"], ["sc", "Function", "str"], ["sc", "Integer", "int"]]
    g = G(rng, kinds)

    def simple(d):
        if d == 0 or rng.random() < 0.3:
            return rng.choice([("a", 0, rng.choice("xyz")), ("a", 2, rng.choice((2, 3, 99)))])
        h = rng.choice(("sin", "cos", "Add", "Mul", "pow", "Add"))
        n = {"sin": 1, "cos": 1, "pow": 2}.get(h) or rng.randint(2, 3)
        return ("c", ("a", 1, h), *[simple(d - 1) for _ in range(n)])
    held = []
    for _ in range(4):
        r = g.build(simple(rng.randint(1, 4)), "Expr", 1)
        g.ops.append({"op": "use", "a": r, "how": how})
        if rng.random() < 0.5:
            g.drop(r)
        else:
            held.append(r)
        g.ops.append({"op": "live"})
    g.ops.append({"op": "check"})
    for r in held:
        g.drop(r)
        g.ops.append({"op": "live"})
    return {"prop": prop, "kinds": kinds, "ops": g.ops}


GROWS = ["repr", "latex", "eval", "diff", "diffs", "binexp", "count", "subst", "subsfunc", "ir", "sort", "matrix", "mir",
         "transform", "operators", "evaluator", "core", "parts", "bad", "badf", "badeval", "badir", "baddiff",
         "badmatrix"]


def grow_scripts(n=150):
    return [{"prop": "C03", "kinds": [], "ops": [{"op": "grow", "how": h, "n": n}]} for h in GROWS]


def history_scripts(histories):
    """Behaviours of Store.tla."""
    kinds = [["core", "Integer", "str"], ["core", "Integer", "str"]]
    out = []
    for m, h in enumerate(histories):
        g = G(None, kinds)
        held = []

        def struct(s):
            if s["k"] == "atom":
                return ("a", 0 if s["v"][0] == "1" else 1, s["w"])
            return ("c", *[struct(c) for c in s["ch"]])

        for a in h:
            if a["do"] == "build":
                s = a["s"]
                if s["k"] == "wrap":
                    t = g.build(struct(s["ch"][0]), "tree", m % 2)
                    cls = {"C": ("S", "Expr")[m % 2], "D": ("S2", "SubExpr")[m // 2 % 2]}[s["v"]]
                    r = g.push({"op": "wrap", "a": t, "l": cls}, (cls, struct(s["ch"][0])))
                    g.drop(t)
                else:
                    r = g.build(struct(s), "tree", m % 2)
                held.append(r)
            else:
                g.drop(held.pop(a["i"] - 1))
            if len(held) > 1:
                g.ops.append({"op": "check"})
        g.ops.append({"op": "live"})
        for r in held:
            g.drop(r)
        g.ops.append({"op": "live"})
        out.append({"prop": "C01", "kinds": kinds, "ops": g.ops})
    return out
