"""Scripts for spec/TraceLazy.tla: classes of operations with and without optional packages."""
from __future__ import annotations

from gen import _symterm, bits, tame
from gen_refusals import R

PACKAGES = ("sympy", "numpy", "llvmlite")
CONFIGS = [[p for k, p in enumerate(PACKAGES) if m >> k & 1] for m in range(7)]
POINTS = [[2, -1], [(0.5).hex(), (1.25).hex()]]
NAMES = ("x", "y", "alpha", "beta1", "x_1", "lamda", "phi", "xbar", "pi", "E", "t0")


def lazy_script(rng, classes, nconfigs, prop="C18"):
    names = ("x", "y") if rng.random() < 0.5 else rng.sample(NAMES, 2)
    q = R(rng, prop, names)
    g, H, syms, f, pool = q.g, q.H, q.syms, q.f, q.pool
    mats, lams, wide = [], [], []

    def some():
        return g.r(wide[0] if wide and rng.random() < 0.4 else rng.choice(pool[-4:]))

    def mat():
        es = [g.i(0) if rng.random() < 0.3 else some() for _ in range(4)]
        mats.append(g.add({"op": "mat", "nr": 2, "nc": 2, "a": es}))
        return mats[-1]
    ps = [g.r(k) for k in syms]
    if rng.random() < 0.7:          # something large
        if rng.random() < 0.7:
            h, ns = rng.choice((("Add", (9, 18, 33, 40)), ("Mul", (9, 18))))
            wide.append(g.call(H[h], [rng.choice(ps + [g.i(2), g.r(pool[-1])]) for _ in range(rng.choice(ns))]))
        else:
            k = pool[-1]
            for _ in range(rng.choice((12, 30))):
                k = g.call(H[rng.choice(("sin", "cos"))], [g.r(k)])
            wide.append(k)
    for c in classes:
        if c == "build":
            pool += g.exprs(syms, 1, exps=(2, 3), arity=(1, 2, 3, 5, 8, 20, 40), big=False, pool=pool)[-1:]
        elif c == "calc":
            for _ in range(rng.randint(2, 6)):
                k = rng.randrange(12)
                e = some()
                if k < 3:
                    g.add({"op": "num", "a": [e], "pt": rng.randint(1, 2), "route": rng.choice(("f64", "evaluator", "binexp"))})
                elif k == 3 and rng.random() < 0.5:
                    g.add({"op": "text", "a": [e], "how": rng.choice(("repr", "str", "eval"))})
                elif k == 3:
                    g.add({"op": "latex", "a": [e], "how": rng.choice(("eval", "hook"))})
                elif k in (4, 5):
                    g.add({"op": "diff", "a": [e, g.r(rng.choice(syms))], "k": 1 if wide else rng.choice((1, 2)),
                           "how": rng.choice(("method", "function", "default"))})
                elif k == 6:
                    g.add({"op": "subst", "mode": rng.choice(("tree", "function", "xreplace")), "a": [e],
                           "ts": [ps[0]], "rs": [some()]})
                elif k == 7:
                    g.add({"op": "binexp", "a": [e]})
                elif k == 8:
                    g.add({"op": "xform", "a": [e], "ar": [],
                           "hr": [{"h": g.r(H["sin"]), "kind": "rehead", "to": g.r(f)}]})
                elif k == 9:
                    g.add({"op": "count", "a": [e]})
                elif k == 10:
                    g.add({"op": "copy", "a": [e], "deep": rng.random() < 0.5})
                else:
                    g.add({"op": "graph", "a": [e]})
        elif c == "matrix":
            m = mat()
            k = rng.randrange(5)
            if k == 0:
                g.add({"op": "madd", "x": m, "y": mat()})
            elif k == 1:
                g.add({"op": "mdiff", "m": m, "a": [ps[0]]})
            elif k == 2:
                g.add({"op": "mget", "m": m, "i": 1, "j": 0})
            elif k == 3:
                g.add({"op": "mlist", "m": m})
            else:
                g.add({"op": "mtext", "m": m})
        elif c == "code":
            if rng.random() < 0.5:
                g.add({"op": "code", "a": [some()], "ps": ps})
            else:
                g.add({"op": "mcode", "m": mats[-1] if mats else mat(), "ps": ps})
        elif c == "tosym":
            if rng.random() < 0.7:
                k = rng.choice(pool)
                if bits(g.term[k]) < 2000:
                    g.add({"op": "tosym", "a": [g.r(k)], "how": "method"})
            else:
                g.add({"op": "mtosym", "m": g.add({"op": "mat", "nr": 1, "nc": 2, "a": [ps[0], g.i(0)]})})
        elif c == "fromsym":
            if rng.random() < 0.7:
                g.add({"op": "fromsym", "term": tame(lambda: _symterm(rng, 2, ["x", "y"], ["f"], True)),
                       "supported": True, "evaluated": True})
            else:
                g.add({"op": "mfromsym", "nr": 1, "nc": 2, "terms": [["s", "x"], ["i", "0"]], "supported": True,
                       "cls": "dense"})
        elif c == "compile":
            lams.append(g.add({"op": "lam", "ps": ps, "a": [some()]}))
        elif c == "compilematrix":
            lams.append(g.add({"op": "lam", "ps": ps, "m": mats[-1] if mats and rng.random() < 0.5 else mat()}))
        elif c == "refuse":
            q.do(rng.choice(("build", "same", "subst", "eval", "diff", "matrix", "evrule", "dfrule")), False)
        elif c == "run" and lams:
            g.add({"op": "lcall", "f": rng.choice(lams), "pt": rng.randint(1, 2)})
    for k in rng.sample(pool, min(2, len(pool))):       # once more, after all that was loaded
        g.add({"op": "text", "a": [g.r(k)], "how": rng.choice(("repr", "str", "eval"))})
        g.add({"op": "latex", "a": [g.r(k)], "how": rng.choice(("eval", "hook"))})
        g.add({"op": "num", "a": [g.r(k)], "pt": rng.randint(1, 2), "route": rng.choice(("f64", "evaluator"))})
        g.add({"op": "diff", "a": [g.r(k), ps[0]], "k": 1, "how": "method"})
        g.add({"op": "code", "a": [g.r(k)], "ps": ps})
    return g.script(pts=[[[n, v] for n, v in zip(names, pt)] for pt in POINTS], without=rng.sample(CONFIGS, nconfigs))


CLASSES = ("build", "calc", "matrix", "code", "tosym", "fromsym", "compile", "compilematrix", "run", "refuse")


def random_lazy(rng, nconfigs, prop="C18"):
    return lazy_script(rng, [rng.choice(CLASSES + ("calc",)) for _ in range(rng.randint(6, 18))], nconfigs, prop)
