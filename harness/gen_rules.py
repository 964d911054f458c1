"""Random histories of evaluators."""
from __future__ import annotations

KINDS = {"Integer": "int", "Symbol": "str", "Function": "str", "Num2": "int", "Sym2": "str"}
HOWS = ["call", "evaluate", "forward", "recursive"]


class Nodes:
    """Distinct nodes; compounds as [head, args...]."""

    def __init__(self):
        self.list, self.index, self.size = [], {}, [0]

    def add(self, nd):
        key = tuple(nd)
        if key not in self.index:
            self.list.append(list(nd))
            self.index[key] = len(self.list)
            self.size.append(1 if isinstance(nd[0], str) else 1 + sum(self.size[c] for c in nd[1:]))
        return self.index[key]


def make_nodes(rng, steps, limit=3000):
    N = Nodes()
    leaves = [N.add(x) for x in (("Integer", "0"), ("Integer", "1"), ("Integer", "7"), ("Num2", "1"), ("Symbol", "x"),
                                 ("Symbol", "y"), ("Sym2", "x"), ("Function", "f"))]
    leaves = rng.sample(leaves, rng.randint(2, len(leaves)))
    heads = [N.add(("Function", h)) for h in ("f", "g", "h")] + [N.add(("Symbol", "f"))]
    heads = rng.sample(heads, rng.randint(1, 4))
    pool = list(leaves)
    comps = []
    for _ in range(steps):
        h = rng.choice(heads)
        if comps and rng.random() < 0.07:
            h = rng.choice(comps + leaves)
            heads.append(h)
        n = rng.choice((0, 1, 1, 2, 2, 2, 3, 4))
        a = [rng.choice(pool[-5:]) if rng.random() < 0.7 else rng.choice(pool) for _ in range(n)]
        if n > 1 and rng.random() < 0.3:
            a = [a[0]] * n
        k = N.add((h, *a))
        if N.size[k] > limit:
            continue
        if k not in comps:
            comps.append(k)
        pool.append(k)
    # expressions for nested evaluation: a head that never gets a nesting rule
    p = N.add(("Function", "plain"))
    nested = [leaves[0], N.add((p, leaves[0])), N.add((p, leaves[0], leaves[-1]))]
    return N, leaves, heads, comps, p, nested


def rules_script(rng, prop="C06", level=None):
    level = level or rng.choice(("core", "sym"))
    N, leaves, heads, comps, plain, nested = make_nodes(rng, rng.randint(3, 9))
    ops = []
    nev = rng.choice((1, 1, 2, 3) if prop == "C06" else (1, 2, 2, 3))
    for _ in range(nev):
        ops.append({"op": "newev"})
    salt = [rng.randint(1, 50)]

    def fresh():
        salt[0] += rng.randint(1, 9)
        return salt[0]

    def rule(k, **kw):
        return dict(k=k, f=rng.choice(("hash",) * 8 + ("first", "const", "raise", "nest" if k in ("op", "ogen") else
                                                       "hash")) if not kw.get("tame") else "hash",
                    salt=fresh(), **{"as": rng.choice(("V", "V", "int", "float", "kept", "taken", "none"))}, e=rng.choice(nested),
                    how=rng.choice(HOWS), **{a: b for a, b in kw.items() if a != "tame"})

    def arity(h):
        ns = [len(N.list[c - 1]) - 1 for c in comps if N.list[c - 1][0] == h]
        return rng.choice(ns) if ns else rng.choice((1, 2))

    def good(v, tame=False):
        c = rng.random()
        if c < 0.5:
            h = rng.choice(heads + [plain])
            n = arity(h)
            mode = {1: "one", 2: "two"}.get(n, "many") if rng.random() < 0.6 else rng.choice(("one", "two", "many"))
            if tame:
                mode = "many"
            r = rule("op", h=h, mode=mode, tame=tame or h == plain)
            if mode == "one":
                pat, call = ("app", [0]), ("PyOp1", [0])
            elif mode == "two":
                ws = rng.choice(([0, 1], [1, 0], [2, 3]))
                pat, call = ("app", ws), ("PyOp2", ws)
            else:
                w = [rng.randint(0, 3)]
                pat, call = ("star", w), ("PyOpN", w)
        elif c < 0.8:
            r = rule("atom", ty=rng.choice(list(KINDS)), tame=tame)
            pat, call = ("atomval", [1]), ("PyFunc1", [1])
        elif c < 0.9:
            r = rule("agen", tame=tame)
            pat, call = ("atomrule", [2]), ("AtomFunc", [2])
        else:
            r = rule("ogen", tame=True)
            pat, call = ("headrule", [0, 1]), ("HeadOp", [0, 1])
        op = {"op": "reg", "v": v, "rule": r}
        if level == "core" or rng.random() < 0.15:
            op["direct"] = True
        else:
            op["pat"] = {"t": pat[0], "args": pat[1]}
            op["call"] = {"t": call[0], "args": call[1]}
        ops.append(op)
        return op

    NARG = {"PyOp1": 1, "PyOp2": 2, "PyOpN": 1, "PyFunc1": 1, "AtomFunc": 1, "HeadOp": 2}
    MODE = {"PyOp1": "one", "PyOp2": "two", "PyOpN": "many"}

    def malformed(v):
        """Any pair of a pattern and a call (a few of them are not malformed)."""
        ct = rng.choice(list(NARG) + ["notcall"])
        ca = [rng.randint(0, 3) for _ in range(NARG.get(ct, 0))]
        if len(ca) == 2 and ca[0] == ca[1]:
            ca[1] = (ca[0] + 1) % 4
        pt = rng.choice(("app", "app", "star", "bare", "atomval", "atomrule", "headrule"))
        n = {"atomval": 1, "atomrule": 1, "headrule": 2, "bare": 0, "star": 1}.get(pt, rng.choice((1, 2, 3)))
        pa = (ca + [3, 2, 1])[:n]
        c = rng.random()
        if c < 0.15:
            pa = pa[::-1]
        elif c < 0.3 and pa:
            pa[-1] = (pa[-1] + 1) % 4
        # the rule as it would be if accepted
        k = {"PyFunc1": "atom", "AtomFunc": "agen", "HeadOp": "ogen"}.get(ct, "op")
        r = rule(k, h=rng.choice(heads), ty=rng.choice(list(KINDS)), mode=MODE.get(ct, "many"), tame=True)
        if pt == "bare":
            r["h"] = rng.choice([h for h in heads if isinstance(N.list[h - 1][0], str)] or [plain])
        ops.append({"op": "reg", "v": v, "rule": r, "pat": {"t": pt, "args": pa}, "call": {"t": ct, "args": ca}})

    def evaluate(v, e=None, how=None, vals=None):
        e = e or (rng.choice(comps[-3:]) if rng.random() < 0.7 else rng.choice(comps + leaves))
        if vals is None:
            vals = {}
            for a in leaves:
                if rng.random() < 0.35:
                    vals[str(a)] = [rng.choice((0, 0, 1, rng.randint(2, 40000))),
                                    rng.choice(("V", "V", "int", "float", "str", "none"))]
        ops.append({"op": "eval", "v": v, "e": e, "how": how or rng.choice(HOWS), "vals": vals})
        return e, vals

    def both(v):
        e, vals = evaluate(v)
        if rng.random() < 0.6:
            evaluate(v, e, rng.choice(HOWS), vals)

    for v in range(1, nev + 1):
        if rng.random() < 0.85:      # something for everything
            ops.append({"op": "reg", "v": v, "rule": rule("agen", tame=True), "direct": True})
            ops.append({"op": "reg", "v": v, "rule": rule("ogen", tame=True), "direct": True})
    for _ in range(rng.randint(6, 16)):
        v = rng.randint(1, nev)
        c = rng.random()
        if c < 0.35:
            op = good(v, tame=rng.random() < 0.7)
            if prop == "C07" or rng.random() < 0.5:
                r = op["rule"]
                using = [k for k in comps if N.list[k - 1][0] == r.get("h")] or comps
                for u in {v, rng.randint(1, nev)}:
                    evaluate(u, rng.choice(using), vals={})
        elif c < 0.5 and level == "sym" and prop == "C07":
            malformed(v)
            r = ops[-1]["rule"]
            using = [k for k in comps if N.list[k - 1][0] == r.get("h")] or comps
            evaluate(v, rng.choice(using), vals={})
            evaluate(v)
        elif c < 0.54:
            ops.append({"op": "gc"})
        else:
            both(v)
    e, vals = evaluate(1)
    for v in range(1, nev + 1):
        for how in HOWS:
            evaluate(v, e, how, vals)
    return {"prop": prop, "level": level, "cls": rng.randint(0, 1), "nodes": N.list, "ops": ops}


# ---------------------------------------------------------------- behaviours of the design models

PREFIX = [["Function", "Add"], ["Function", "Mul"], ["Function", "pow"], ["Function", "sin"], ["Function", "cos"],
          ["Function", "List"], ["Integer", "0"], ["Integer", "1"], ["Integer", "-1"]]
PROPER = {"atom": ("atomval", "PyFunc1", 1), "agen": ("atomrule", "AtomFunc", 1), "ogen": ("headrule", "HeadOp", 2),
          "one": ("app", "PyOp1", 1), "two": ("app", "PyOp2", 2), "many": ("star", "PyOpN", 1)}


def reg(v, r, n, direct):
    """Registration of rule r on evaluator v, the n-th of the script."""
    r = dict(r, **{"as": ("V", "int", "float", "kept", "taken")[n % 5], "how": "call"})
    op = {"op": "reg", "v": v, "rule": r}
    if direct:
        op["direct"] = True
        return op
    pt, ct, k = PROPER[r["mode"] or r["k"]]
    ws = [(n + j) % 4 for j in range(k)]
    op["pat"], op["call"] = {"t": pt, "args": ws}, {"t": ct, "args": ws}
    return op


def malformed_reg(v, r, n):
    op = reg(v, r, n, False)
    pat, call = op["pat"], op["call"]
    kind = n % 5
    if kind == 0:       # other wild symbols
        call["args"] = [(w + 1) % 4 for w in call["args"]]
    elif kind == 1:     # not a symbolic call
        op["call"] = {"t": "notcall", "args": []}
    elif kind == 2:     # another class of function
        others = [c for c in ("PyOp1", "PyFunc1", "AtomFunc") if c != call["t"]]
        if len(call["args"]) == 2:
            others = [c for c in ("PyOp2", "HeadOp") if c != call["t"]]
        call["t"] = others[n // 5 % len(others)]
    elif kind == 3:     # arguments in another order, or too many
        if len(call["args"]) == 2:
            call["args"] = call["args"][::-1]
        elif pat["t"] in ("app", "star"):
            pat["t"], pat["args"] = "app", [0, 1, 2]
        else:
            op["call"] = {"t": "PyOpN", "args": call["args"]}
    else:
        if pat["t"] in ("app", "star"):
            op["pat"] = {"t": "bare", "args": []}
        else:
            op["call"] = {"t": "HeadOp" if call["t"] != "HeadOp" else "PyOp2", "args": [0, 1]}
            if len(pat["args"]) == 2:
                op["call"]["args"] = pat["args"]
    if r["k"] == "atom" and pat["t"] == "atomval" and op["call"]["t"] == "PyFunc1" and \
            op["call"]["args"] == op["pat"]["args"]:
        op["call"]["args"] = [3 - w for w in op["call"]["args"]]
    return op


def evaluate_scripts(queries, per=12):
    """Scripts for the behaviours of Evaluate.tla: all strategies on each."""
    out = []
    by = {}
    for q in queries:
        by.setdefault(repr(q["table"]), (q["table"], []))[1].append(q["q"])
    for table, qs in by.values():
        for k in range(0, len(qs), per):
            ops = []
            for n, q in enumerate(qs[k:k + per]):
                ops.append({"op": "newev"})
                v = n + 1
                for j, r in enumerate(q["rules"]):
                    ops.append(reg(v, r, n + j, (len(out) + n) % 2 == 0))
                vals = {str(x["id"]): [x["n"], ("V", "int", "float", "str")[(n + x["n"]) % 4] if x["n"] == 0 else
                               "none" if x["n"] == 1 and n % 2 else "V"]
                        for x in q["vals"]}
                for how in HOWS:
                    ops.append({"op": "eval", "v": v, "e": q["e"], "how": how, "vals": vals})
            out.append({"prop": "C06", "level": ("core", "sym")[len(out) % 2], "cls": len(out) // 2 % 2,
                        "nodes": PREFIX + table, "ops": ops})
    for s in out:
        if s["level"] == "core":
            for op in s["ops"]:
                if op["op"] == "reg":
                    op["direct"] = True
    return out


REGISTRY = PREFIX + [["Function", "f"], ["Function", "g"], ["Symbol", "x"], ["Integer", "2"], [10, 12], [11, 12, 13],
                     [10, 15, 14]]


def registry_scripts(histories, nev=2):
    out = []
    for m, h in enumerate(histories):
        sym = m % 2 == 0 or any(not a["ok"] for a in h)
        ops = [{"op": "newev"} for _ in range(nev)]
        for n, a in enumerate(h):
            k, ty, head = a["t"]
            r = {"k": k, "ty": ty, "h": head or 10, "mode": "many" if k == "op" else "", "f": "hash", "salt": n + 1,
                 "e": 0}
            if a["ok"]:
                ops.append(reg(a["v"], r, m + n, not sym))
            else:
                ops.append(malformed_reg(a["v"], r, m + n))
            for v in range(1, nev + 1):
                for e in (12, 13, 16, 14, 15)[: 5 if n == len(h) - 1 else 3]:
                    ops.append({"op": "eval", "v": v, "e": e, "how": HOWS[(m + n + e) % 4], "vals": {}})
        out.append({"prop": "C07", "level": "sym" if sym else "core", "cls": m % 3 % 2, "nodes": REGISTRY, "ops": ops})
    return out
