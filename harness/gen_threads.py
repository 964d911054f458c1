"""Scripts of several threads for spec/TraceThreads.tla."""
from __future__ import annotations

from gen import G, SPECIAL, realise, subterms

NAMES = ("x", "y", "z", "u")
SHAPES = (      # (structure 1, structure 2 made of it, structure 3 made of 2 and 1)
    lambda n: (("s", n), ("c", ("f", "sin"), ("s", n)),
               ("c", ("f", "Mul"), ("c", ("f", "sin"), ("s", n)), ("s", n))),
    lambda n: (("i", 1000 + len(n)), ("c", ("f", "Add"), ("i", 1000 + len(n)), ("i", 1)),
               ("c", ("f", "pow"), ("c", ("f", "Add"), ("i", 1000 + len(n)), ("i", 1)), ("i", 1000 + len(n)))),
    lambda n: (("f", n), ("c", ("f", n), ("s", "x")), ("c", ("f", n), ("c", ("f", n), ("s", "x")), ("f", n))),
    lambda n: (("c", ("f", n), ("i", 7)), ("c", ("f", "Add"), ("c", ("f", n), ("i", 7)), ("s", n)),
               ("c", ("f", "List"), ("c", ("f", "Add"), ("c", ("f", n), ("i", 7)), ("s", n)),
                ("c", ("f", n), ("i", 7)))),
)


def build(g, t, route):
    """Operations that build a term; what is not the result is dropped."""
    if t[0] == "s":
        return g.sym(t[1])
    if t[0] == "f":
        return g.fun(t[1])
    if t[0] == "i":
        return g.int(t[1])
    made = []

    def part(c):
        if c[0] == "i" and route % 2:
            return g.i(c[1])
        made.append(build(g, c, route))
        return g.r(made[-1])
    head = t[1][1] if t[1][0] == "f" else None
    if head in ("Add", "Mul", "pow") and len(t) == 4 and route % 3 < 2 and "i" != t[2][0]:
        k = g.bin({"Add": "+", "Mul": "*", "pow": "**"}[head], part(t[2]), part(t[3]))
    else:
        h = build(g, t[1], route)
        made.append(h)
        k = g.call(h, [part(c) for c in t[2:]], tree=route % 3 == 2)
    for m in made:
        g.add({"op": "drop", "r": m})
    return k


def finish(setup, threads, rng, prop, runs, modes=("one", "one", "two", "many"), **kw):
    mode = rng.choice(modes)
    return dict(prop=prop, setup=setup, threads=threads, ops=setup, mode=mode, runs=runs,
                opcodes=rng.random() < kw.pop("fine", 0.4), seed=rng.random(), **kw)


def program_script(q, k, rng, runs, prop="C02"):
    """Threads following the programs of spec/Interning.tla."""
    terms = SHAPES[k % len(SHAPES)]("n" * (1 + k % 3))
    g = G(rng, prop)
    if k % 5 == 0:
        build(g, terms[0], 0)           # something is there already
    setup, g.ops = g.ops, []
    threads = []
    for t, prog in enumerate(q):
        have = []
        for what, n in prog:
            if what == "build":
                have.append(build(g, terms[n - 1], (k + t) % 6))
            else:
                g.add({"op": "drop", "r": have.pop(0)})
        threads.append(g.ops)
        g.ops = []
    return finish(setup, threads, rng, prop, runs, needvals=False)


def builders_script(rng, runs, prop="C02"):
    """Threads building the same few structures in their own ways and orders."""
    g = G(rng, prop)
    if rng.random() < 0.5:
        g.heads()
        g.sym("x")
    setup, g.ops = g.ops, []
    terms = []
    for _ in range(rng.randint(1, 3)):
        terms += rng.choice(SHAPES)("m" * rng.randint(1, 3))
    threads = []
    for t in range(rng.choice((2, 2, 2, 3))):
        have = []
        for _ in range(rng.randint(1, 4)):
            if have and rng.random() < 0.3:
                g.add({"op": "drop", "r": have.pop(rng.randrange(len(have)))})
            else:
                have.append(build(g, rng.choice(terms), rng.randrange(6)))
        threads.append(g.ops)
        g.ops = []
    return finish(setup, threads, rng, prop, runs, needvals=False)


POINTS = [[["x", 2], ["y", -1], ["z", 3]], [["x", (0.5).hex()], ["y", (1.25).hex()], ["z", (-0.75).hex()]],
          [["x", 0], ["y", 4], ["z", 1]]]


def operations_script(rng, runs, prop="C02"):
    """Threads working on shared expressions, functions and compiled code."""
    g = G(rng, prop)
    H = g.heads()
    syms = [g.sym(n) for n in ("x", "y", "z")]
    f = g.fun("f")
    pool = g.exprs(syms, rng.randint(2, 7), exps=(2, 3, 1, 0), arity=(1, 2, 2, 3), big=False)
    what = rng.sample(["num", "text", "diff", "subst", "apply", "rewrite", "lcall", "mlcall", "build", "lam"],
                      rng.choice((1, 1, 2, 3)))
    es = rng.sample(pool[-5:], min(len(pool[-5:]), rng.choice((1, 1, 2))))
    cache = {t: k for k, t in g.term.items()}
    funs, lams = [], []
    if "apply" in what:
        for _ in range(rng.choice((1, 1, 2))):
            e = rng.choice(es)
            targets = []
            for t in rng.sample(subterms(g.term[e]), min(2, len(subterms(g.term[e])))) + [("s", "x")]:
                if t not in targets and t[0] in "sc" and "?" not in t:
                    targets.append(t)
            targets = targets[:rng.choice((1, 2, 3))]
            ks = [realise(g, t, cache) for t in targets]
            funs.append((g.add({"op": "mkfun", "mode": rng.choice(("tree", "function")), "a": [g.r(e)],
                                "ts": [g.r(k) for k in ks]}), len(ks)))
    if "lcall" in what or "lam" in what:
        lams.append(g.add({"op": "lam", "ps": [g.r(k) for k in syms], "a": [g.r(rng.choice(es))]}))
    if "mlcall" in what:
        zero = g.int(0)
        es4 = [rng.choice(es + syms + [zero]) for _ in range(4)]
        m = g.add({"op": "mat", "nr": 2, "nc": 2, "a": [g.r(k) for k in es4]})
        lams.append(g.add({"op": "lam", "ps": [g.r(k) for k in syms], "m": m}))
    rules = [{"a": [], "hr": [{"h": g.r(H["sin"]), "kind": rng.choice(("rehead", "wrap", "rev", "dup", "first")),
                               "to": g.r(H["cos"])},
                              {"h": g.r(H["Add"]), "kind": rng.choice(("rev", "rehead")), "to": g.r(H["Mul"])}],
              "ar": [{"h": g.r(syms[0]), "kind": "const", "to": g.r(rng.choice(es + syms))}] * rng.choice((0, 1))}]
    setup, g.ops = g.ops, []
    threads = []
    for t in range(rng.choice((2, 2, 2, 3))):
        for _ in range(rng.choice((1, 1, 2, 3))):
            w, e = rng.choice(what), rng.choice(es)
            if w == "num":
                g.add({"op": "num", "a": [g.r(e)], "pt": rng.randint(1, 3),
                       "route": rng.choice(("f64", "f64", "evaluator", "subst", "binexp"))})
            elif w == "text":
                g.add({"op": rng.choice(("text", "latex")), "a": [g.r(e)]})
            elif w == "diff":
                g.add({"op": "diff", "a": [g.r(e), g.r(rng.choice(syms[:2]))], "k": rng.choice((1, 1, 2))})
            elif w == "subst":
                ts = rng.sample(syms, rng.choice((1, 2)))
                g.add({"op": "subst", "mode": rng.choice(("tree", "function", "xreplace")), "a": [g.r(e)],
                       "ts": [g.r(k) for k in ts],
                       "rs": [rng.choice((g.r(rng.choice(pool)), g.i(rng.choice(SPECIAL)))) for _ in ts]})
            elif w == "apply" and funs:
                fn, n = rng.choice(funs)
                g.add({"op": "apply", "f": fn, "rs": [rng.choice((g.r(rng.choice(pool)), g.i(rng.choice(SPECIAL))))
                                                      for _ in range(n)]})
            elif w == "rewrite":
                if rng.random() < 0.5:
                    g.add({"op": "binexp", "a": [g.r(e)]})
                else:
                    g.add(dict(rules[0], op="xform", a=[g.r(e)]))
            elif w == "lam":        # compiled and used by the thread itself
                m = {"a": [g.r(rng.choice(es + pool[-2:]))]}
                if rng.random() < 0.3:
                    m = {"m": g.add({"op": "mat", "nr": 1, "nc": 2, "a": [g.r(rng.choice(es + pool[-2:])) for _ in "12"]})}
                ps = list(syms)
                rng.shuffle(ps)
                k = g.add(dict(m, op="lam", ps=[g.r(p) for p in ps]))
                for _ in range(rng.choice((1, 2))):
                    g.add({"op": "lcall", "f": k, "pt": rng.randint(1, 3)})
            elif w in ("lcall", "mlcall"):
                g.add({"op": "lcall", "f": rng.choice(lams), "pt": rng.randint(1, 3)})
            else:
                k = g.bin(rng.choice("+-*"), g.r(e), g.i(rng.choice((77, 78))))
                k2 = g.call(f, [g.r(k), g.r(e)])
                if rng.random() < 0.5:
                    g.add({"op": "drop", "r": rng.choice((k, k2))})
        threads.append(g.ops)
        g.ops = []
    return finish(setup, threads, rng, prop, runs, pts=POINTS, fine=0.25)
