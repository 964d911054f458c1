"""Sizes of the families of large expressions."""
FAMS = ["double", "triple", "square", "pow", "sin", "left", "right", "fib", "horner", "mixed", "ladder", "wide", "heads", "funs", "product"]
ALL = ["count", "gcount", "sort", "graph", "eval", "f64", "diff", "subst", "rewrite", "ir", "mir"]
NODIFF = ["count", "gcount", "sort", "graph", "eval", "subst", "rewrite"]


def scale_scripts(sizes, time, times=4):
    """Every family, with every operation at each size; time and calls at `time` levels against a `times`-th of that."""
    out = []
    for fam in FAMS:
        ops = (["hsort"] if fam == "heads" else NODIFF if fam == "funs" else
               ALL + ["swap", "rows"] * (fam == "wide") + ["swap"] * (fam == "product"))
        out.append({"prop": "C16", "fam": fam, "sizes": [n for n in sizes if n or fam not in ("wide", "funs", "product")],
                    "ops": ops, "time": time, "times": times})
    return sorted(out, key=lambda s: s["fam"] not in ("ladder", "mixed", "horner", "wide", "funs"))


def cells_script(rng, most):
    """Compiled matrices with many entries, functions of many parameters."""
    cases = [[17, 17, 1], [300, 300, 97], [1, 70000, 1013], [70000, 1, 911]]
    while len(cases) < most:
        nr, nc = rng.choice(((rng.randint(1, 40), rng.randint(1, 40)), (rng.randint(100, 400), rng.randint(100, 400))))
        cases.append([nr, nc, rng.choice((1, 2, 3, 7)) if nr * nc < 700 else rng.randint(60, 3000)])
    cases = [{"op": "cells", "nr": nr, "nc": nc, "st": st, "px": rng.randint(1, 9), "py": rng.randint(1, 9)}
             for nr, nc, st in cases]
    cases += [{"op": "args", "np": n} for n in (9, 70, 260, rng.randint(2, 600))]
    return {"prop": "C13", "fam": "double", "sizes": [], "ops": [], "cases": cases}


def template(rng):
    """A random step from one level to the next: nodes of operators whose operands are the level, earlier nodes
    (all of which depend on it), x, y or small integers."""
    if rng.random() < 0.4:      # one wide operator, with the level at one end
        args = [rng.choice((-1, -2, -3, -4, -5, -6, -7, -2, -3)) for _ in range(rng.choice((1, 2, 3, 3, 4, 6)))]
        args.insert(rng.choice((0, 0, len(args))), -1)
        return [[rng.choice(("Add", "Mul", "Mul")), args]]
    nodes, unused = [], []
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 4))):
        node = operator(rng, [-1] + list(range(1, len(nodes) + 1)))
        if node not in nodes:
            nodes.append(node)
    used = {a for _, args in nodes for a in args}
    unused = [k for k in range(1, len(nodes) + 1) if k not in used]
    if len(unused) != 1 or rng.random() < 0.3:
        args = (unused or [-1]) + [rng.choice((-1, -1, -2, -3, -4, -5, -6, -7)) for _ in range(rng.choice((0, 1, 2, 3, 4)))]
        rng.shuffle(args)
        if len(args) == 1:
            args.append(-1)
        nodes.append([rng.choice(("Add", "Mul")), args])
    elif unused != [len(nodes)]:
        nodes.append([rng.choice(("sin", "cos")), unused])
    return nodes


def operator(rng, deep):
    op = rng.choice(("Add", "Mul", "Add", "Mul", "pow", "sin", "cos"))
    d = rng.choice(deep[-2:] + deep)
    if op == "pow":
        return [op, [d, -6]]
    if op in ("sin", "cos"):
        return [op, [d]]
    args = [d] + [rng.choice(deep + [-2, -3, -4, -5, -6, -7]) for _ in range(rng.choice((1, 1, 2, 3, 4)))]
    rng.shuffle(args)
    return [op, args]


def random_scale(rng, sizes, time, times=4):
    tm = template(rng)
    work = sum(len(args) for _, args in tm)
    return {"prop": "C16", "fam": "random", "tm": tm, "sizes": [n for n in sizes if n * work <= 40000],
            "ops": [o for o in ALL if o != "f64"], "time": time // (2 + work) // times * times, "times": times}
