"""Histories of differentiators."""
from __future__ import annotations

import itertools

from gen_rules import Nodes, PREFIX

COUNT = itertools.count()

DIFFER = PREFIX + [["Function", "f"], ["Function", "h"], ["Symbol", "x"], ["Symbol", "y"], ["Wild", "a"], ["Wild", "b"],
                   [10, 14], [2, 14, 15], [11, 15, 14], [10, 12], [11, 12, 13], [11, 19, 12], [11, 15, 12],
                   [2, 15, 12], [11, 23, 14]]
LIT = dict(add=1, mul=2, zero=7, one=8)


def differ_scripts(histories, ndf=2):
    """Scripts for the histories of Differ.tla."""
    out = []
    for m, hist in enumerate(histories):
        level = ("sc", "own", "core")[m % 3]
        if any(not a["ok"] for a in hist) and level == "core":
            level = "sc"
        ops = [dict(op="newdf", **LIT) for _ in range(ndf)]
        for n, a in enumerate(hist):
            p = a["p"]
            r = dict(op="rule", v=a["v"], h=p["h"], ps=p["ps"], sym=p["sym"], b=a["b"], form="pair")
            if not a["ok"]:
                r.update([dict(form="single"), dict(form="triple"), dict(b=0), dict(sym=12), dict(ps=[p["sym"]] * 2),
                          dict(h=0, ps=[14]), dict(form="none"), dict(form="empty")][(m + n) % 8])
            ops.append(r)
            for v in range(1, ndf + 1):
                for e in (20, 21, 24, 22, 19)[: 5 if n == len(hist) - 1 else 3]:
                    ops.append({"op": "diff", "v": v, "e": e, "x": 12, "k": 1 + (m + n + e) % 2, "how": m + e})
        out.append({"prop": "C09", "level": level, "cls": m % 2, "nodes": DIFFER, "ops": ops})
    return out


def differ_script(rng, prop="C09"):
    level = rng.choice(("sc", "sc", "own", "own", "core"))
    N = Nodes()
    for nd in PREFIX:
        N.add(nd)
    uid = next(COUNT)
    lit = dict(LIT)
    if level != "sc" and rng.random() < 0.6:
        lit = dict(add=N.add(("Function", "plus")), mul=N.add(("Function", "times")), zero=rng.choice((7, N.add(("Symbol", "O")))),
                   one=rng.choice((8, N.add(("Symbol", "I")))))
    builtin = level == "sc" and rng.random() < 0.3
    arity = {}
    for name, n in (("f", 1), ("g", 1), ("h", 2), ("k", 2), ("t", 3), ("q", 4), ("D", 2), ("E", 3)):
        arity[N.add(("Function", f"{name}{uid}" if builtin else name))] = n
    names = list(arity)
    distr = set(rng.sample(names[-2:], rng.randint(0, 2)))
    ruled = [h for h in rng.sample(names, rng.choice((2, 4, 6, 8, 8, 8))) if h not in distr] or names[:1]
    if level == "sc" and rng.random() < 0.5:
        arity.update({4: 1, 5: 1, 3: 2})
        if not builtin:
            ruled += [4, 5]
    xs = [N.add(("Symbol", n)) for n in ("x", "y", "z")[:rng.randint(1, 3)]]
    ws = [N.add(("Wild", n)) for n in ("a", "b", "c", "d")]
    ints = [7, 8, 9, N.add(("Integer", "2"))]

    def comp(h, a):
        return N.add((h, *a))

    def build(leaves, steps, heads, limit=400):
        pool = list(leaves)
        for _ in range(steps):
            h = rng.choice(heads + [lit["add"], lit["mul"]])
            n = arity.get(h) or rng.choice((2, 2, 3, 4, 1))
            a = [rng.choice(pool[-4:]) if rng.random() < 0.6 else rng.choice(pool) for _ in range(n)]
            if h == 3:
                a[1] = rng.choice((8, ints[3], 9, ints[3]))
            if rng.random() < 0.12 and h != 3:
                a[rng.randrange(n)] = rng.choice(ints)
            k = comp(h, a)
            if N.size[k] <= limit:
                pool.append(k)
        return pool

    heads = [h for h in arity if h in ruled or h in distr or h < 10 or rng.random() < 0.15]
    ndf = rng.choice((1, 2, 2, 3))
    ops = [dict(op="newdf", **lit) for _ in range(ndf)]
    if builtin:
        ops[rng.randrange(ndf)] = {"op": "newdf", "builtin": True}
    leaves = xs + (ws[:2] if rng.random() < 0.4 else []) + ([lit["zero"], lit["one"]] if rng.random() < 0.3 else [])
    exprs = build(leaves, rng.randint(3, 10), heads)[len(leaves):] or leaves
    own = [v + 1 for v in range(ndf) if not ops[v].get("builtin")]

    def parts(e):
        nd = N.list[e - 1]
        return {e} if isinstance(nd[0], str) else set().union({e}, *map(parts, nd[1:]))

    def rule(v, h=None, j=None):
        h = h or rng.choice([h for h in ruled if not (ops[v - 1].get("builtin") and h < 10)] or names[:1])
        n = arity[h]
        params = rng.sample(ws + xs if rng.random() < 0.3 else ws, n) if n <= 4 else None
        sym = rng.choice(params) if j is None else params[j]
        c = rng.random()
        if c < 0.2:
            b = rng.choice(params)
        elif c < 0.3:
            b = rng.choice([lit["zero"], lit["one"], *ints, *xs, rng.choice(ws)])
        elif c < 0.4:
            b = comp(h, params if rng.random() < 0.5 else rng.sample(params, n))
        else:
            b = build(params + ([rng.choice(xs + ws)] if rng.random() < 0.2 else []), rng.randint(1, 4), heads, 60)[-1]
        return dict(op="rule", v=v, h=h, ps=params, sym=sym, b=b, form="pair")

    def malformed(v):
        r = rule(v)
        c = rng.randrange(7)
        others = [w for w in ws + xs if w not in r["ps"]]
        if c == 0:
            r["form"] = rng.choice(("single", "triple", "empty", "none"))
        elif c == 1:
            r["b"] = 0
        elif c == 2:
            r["sym"] = rng.choice(others + ints) if others else ints[0]
        elif c == 3 and len(r["ps"]) > 1:
            j = rng.choice([j for j, p in enumerate(r["ps"]) if p != r["sym"]])
            r["ps"] = list(r["ps"])
            r["ps"][j] = r["sym"]
        elif c == 4:
            r.update(h=0, ps=[rng.choice(ws)])
        elif c == 5 and others:
            r["sym"] = rng.choice(others)
        else:
            r["b"] = 0
        return r

    def probe(v):
        for e in rng.sample(exprs, min(len(exprs), rng.randint(1, 4))):
            vs = [x for x in xs + ws[:2] if x in parts(e)] if rng.random() < 0.9 else xs
            ops.append({"op": "diff", "v": v, "e": e, "x": rng.choice(vs or xs),
                        "k": rng.choice((1, 1, 1, 2)), "how": rng.randint(0, 2)})

    head = [dict(op="distr", v=v, h=h) for v in own for h in distr]
    rng.shuffle(head)
    ops.extend(head[: len(head) // 2])
    late = head[len(head) // 2:]
    # every head has rules for every position, most of the time
    for v in range(1, ndf + 1):
        if rng.random() < 0.8:
            for h in ruled:
                if h < 10 and ops[v - 1].get("builtin"):
                    continue
                for j in range(arity[h]):
                    if rng.random() < 0.97:
                        ops.append(rule(v, h, j))
    for _ in range(rng.randint(3, 9)):
        v = rng.randint(1, ndf)
        c = rng.random()
        if c < 0.45:
            ops.append(rule(v))
        elif c < 0.6 and level != "core":
            ops.append(malformed(v))
        elif late and c < 0.7:
            ops.append(late.pop())
        probe(v)
        if rng.random() < 0.5:
            probe(rng.randint(1, ndf))
    return {"prop": prop, "level": level, "cls": rng.randint(0, 1), "nodes": N.list, "ops": ops}
