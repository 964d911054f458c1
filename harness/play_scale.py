"""Measures large expressions (spec/TraceScale.tla)."""
from __future__ import annotations

import gc
import math
import sys
import time

from driver import OpTimeout, limit
from record import P, Q, Unparsed, parse_ir

import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort
from protosym.simplecas import Add, Expr, Function, Integer, Matrix, Mul, Symbol, cos, sin

MODULI = (46337, 32749, 30011)
X0, Y0 = 12345, 271
x, y, z = Symbol("x"), Symbol("y"), Symbol("z")
two = Integer(2)
f, g = Function("f"), Function("g")


def wide_val(j):
    return (j * 7919 + 13) % P


def build(fam, n, x=x, y=y, sine=sin, start=None):
    """Level n of a family."""
    e, p = x if start is None else start, y
    if isinstance(fam, list):
        given = {-2: x, -3: y, -4: Integer(0), -5: Integer(1), -6: two, -7: Integer(-1)}
        heads = {"Add": Add, "Mul": Mul, "pow": sc.expr.Pow, "sin": sine, "cos": cos}
        for _ in range(n):
            nodes = [None]
            for op, args in fam:
                nodes.append(heads[op](*[e if a == -1 else given[a] if a < 0 else nodes[a] for a in args]))
            e = nodes[-1]
        return e
    if fam == "wide":
        return Add(*[sine(Symbol(f"s{j}")) for j in range(1, n + 1)])
    if fam == "product":
        return Mul(*[Symbol(f"s{j}") for j in range(1, n + 1)])
    if fam == "funs":
        return Add(*[Function(f"F{j}")(e) for j in range(1, n + 1)])
    for _ in range(n):
        if fam == "double":
            e = Add(e, e)
        elif fam == "triple":
            e = Add(e, e, e)
        elif fam == "square":
            e = Mul(e, e)
        elif fam == "pow":
            e = e ** two
        elif fam == "sin":
            e = sine(e)
        elif fam == "left":
            e = Add(e, y)
        elif fam == "right":
            e = Add(y, e)
        elif fam == "fib":
            e, p = Add(e, p), e
        elif fam == "horner":
            e = Add(Mul(e, x), two)
        elif fam == "mixed":
            e = Add(Mul(e, e), e)
        elif fam == "ladder":
            e = Mul(sine(e), cos(e))
        elif fam == "heads":
            e = e(y)
    return e


def odd(v, m):
    z2 = v * v % m
    return v * (3 + 5 * z2 + 7 * z2 * z2) % m


def even(v, m):
    z2 = v * v % m
    return (1 + 2 * z2 + 11 * z2 * z2) % m


def point(atom):
    """Value of an atom modulo P and Q."""
    v = atom.value
    if v.atom_type is Integer.atom_type:
        n = v.value
    elif v.value == "x":
        n = X0
    elif v.value == "y":
        n = Y0
    elif v.value[:1] == "s":
        n = wide_val(int(v.value[1:]))
    else:
        n = 99
    return n % P, n % Q


def apply(head, vs):
    if head == "Add":
        return sum(v[0] for v in vs) % P, sum(v[1] for v in vs) % Q
    if head == "Mul":
        p, q = 1, 1
        for v in vs:
            p, q = p * v[0] % P, q * v[1] % Q
        return p, q
    if head[0] == "F":
        return wide_val(int(head[1:])) * vs[0][0] % P, 0
    if head == "pow":
        return pow(vs[0][0], vs[1][1], P), pow(vs[0][1], vs[1][1], Q)
    return (odd if head == "sin" else even)(vs[0][0], P), 0


def residue(root):
    """Value and number of distinct subexpressions, without library traversals."""
    memo, stack = {}, [root]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        ch = t.children
        if not ch:
            memo[t] = point(t)
            stack.pop()
            continue
        todo = [c for c in ch[1:] if c not in memo]
        if todo:
            stack.extend(todo)
        else:
            memo[t] = apply(ch[0].value.value, [memo[c] for c in ch[1:]])
            stack.pop()
    return memo[root][0], len(memo)


def run_ir(code, args):
    """Value of parsed code modulo P."""
    reg, mem = {}, {}

    def val(s):
        if s["k"] == "const":
            n = int(s["n"]["nm"])
            return n % P, n % Q
        return args[s["v"] - 1] if s["k"] == "arg" else reg[s["v"]]
    for i in code:
        if i["o"] == "ptr":
            reg[i["d"]] = ("cell", i["n"])
            continue
        vs = [val(s) for s in i["s"]]
        if i["o"] == "ret":
            return vs[0][0] if vs else mem
        if i["o"] == "store":
            mem[vs[1][1]] = vs[0][0]
            continue
        reg[i["d"]] = apply({"add": "Add", "mul": "Mul"}.get(i["o"], i["o"]), vs)
    return -1


def late(lst, heads):
    """Entries that come before one of their children, or twice."""
    pos, bad = set(), 0
    for t in lst:
        bad += t in pos
        bad += sum(c not in pos for c in (t.children if heads else t.children[1:]))
        pos.add(t)
    return bad


WIDE = ("wide", "product")


def symbols(fam, n):
    if fam in WIDE:
        return [Symbol(f"s{j}") for j in range(1, n + 1)]
    return [x, y]


def modular():
    ev, calls = Evaluator(), [0]

    def rule(name):
        def r(args):
            calls[0] += 1
            return apply(name, args)
        return r
    ev.add_atom_generic(point)
    for h in ("Add", "Mul", "pow", "sin", "cos"):
        ev.add_opn(Function(h).rep, rule(h))
    ev.add_op_generic(lambda head, args: rule(head.value.value)(args))
    return ev, calls


# ---------------------------------------------------------------- operations: what to time, what to measure

def op_count(fam, n, e):
    return (lambda: (e.count_ops_graph(), e.count_ops_tree())), lambda r: {"g": r[0], "tc": [r[1] % m for m in MODULI]}


def op_sort(fam, n, e):
    t = e.rep
    return (lambda: (topological_sort(t), topological_sort(t, heads=True))), lambda r: {
        "len": len(r[0]), "hlen": len(r[1]), "last": r[0][-1] is t, "late": late(r[0], False), "hlate": late(r[1], True)}


def op_graph(fam, n, e):
    t = e.rep

    def measure(gr):
        stack, bad = list(gr.atoms), 0
        for h, ix in gr.operations:
            bad += sum(not 0 <= i < len(stack) for i in ix)
            stack.append(Tree(h, *[stack[i] for i in ix]))
        return {"atoms": len(gr.atoms), "ops": len(gr.operations), "heads": len(gr.heads), "late": bad,
                "again": stack[-1] is t}
    return (lambda: forward_graph(t)), measure


def op_hsort(fam, n, e):
    t = e.rep

    def run():
        return (topological_sort(t), topological_sort(t, heads=True), SubsFunc(t, [x.rep])(f.rep),
                SubsFunc(t, [y.rep])(z.rep), Transformer()(t))

    def measure(r):
        return {"len": len(r[0]), "hlen": len(r[1]), "hlate": late(r[1], True),
                "same": r[2] is build(fam, n, f).rep and r[3] is build(fam, n, x, z).rep and r[4] is t}
    return run, measure


def op_eval(fam, n, e):
    ev, calls = modular()
    t = e.rep
    given = {s.rep: point(s.rep) for s in symbols(fam, n)} if fam in WIDE or n % 3 == 2 else None
    if given is not None:
        ev.add_atom_generic(lambda a: (point(a)[0] + 1, 0) if a in given else point(a))

    def run():
        calls[0] = 0
        return ev(t, given) if given is not None else ev(t)
    return run, lambda r: {"v": r[0], "calls": calls[0]}


def op_f64(fam, n, e):
    def measure(r):
        ok = type(r) is float and math.isfinite(r)
        m, k = math.frexp(r) if ok else (0, 0)
        return {"ok": ok, "m": int(m * 2) if m * 2 == int(m * 2) else -1, "e": k - 1}
    return (lambda: e.eval_f64({x: 1.0})), measure


def op_diff(fam, n, e):
    v = Symbol("s1") if fam in WIDE else x

    def measure(r):
        d, size = residue(r.rep)
        return {"v": d, "size": size}
    if n % 2:
        return (lambda: Matrix([[e, 0]]).diff(v)[0, 0]), measure
    return (lambda: e.diff(v)), measure


def over(fam, ps):
    return Mul(*ps) if fam == "product" else Add(*[sin(p) for p in ps])


def op_subst(fam, n, e):
    if fam in WIDE:
        s1, other = Symbol("s1"), Symbol("s0")

        def run():
            fun = SubsFunc(e.rep, [s1.rep])
            return e.xreplace({s1: other}), fun(other.rep), fun(s1.rep)

        def measure(r):
            want = over(fam, [Symbol(f"s{j if j > 1 else 0}") for j in range(1, n + 1)])
            return {"same": r[0] is want and r[1] is want.rep, "again": r[2] is e.rep, "part": True}
        return run, measure
    m = n // 2
    mid = build(fam, m)

    def run():
        fun = SubsFunc(e.rep, [x.rep, y.rep])
        return (e.xreplace({x: z}), e.as_function(x, y)(z, y), fun(z.rep, y.rep), fun(x.rep, y.rep),
                SubsFunc(e.rep, [mid.rep])(z.rep) if fam not in ("fib", "funs") and m else None)

    def measure(r):
        want = build(fam, n, z)
        return {"same": r[0] is want and r[1] is want and r[2] is want.rep, "again": r[3] is e.rep,
                "part": r[4] is None or r[4] is build(fam, n - m, start=z).rep}
    return run, measure


def op_rewrite(fam, n, e):
    tr = Transformer()
    tr.add_opn(sin.rep, lambda args: Tree(f.rep, *args))

    def run():
        return Transformer()(e.rep), tr(e.rep), e.bin_expand()

    def measure(r):
        return {"same": r[0] is e.rep and (r[2] is e or fam in ("triple", "wide", "funs", "product") or isinstance(fam, list)), "v": residue(r[2].rep)[0],
                "other": r[1] is build(fam, n, sine=f).rep}
    return run, measure


def op_ir(fam, n, e):
    ps = symbols(fam, n)

    def measure(r):
        try:
            code, _ = parse_ir(r, False)
        except Unparsed:
            return None
        return {"v": run_ir(code, [point(p.rep) for p in ps]), "size": len(code)}
    return (lambda: e.to_llvm_ir(ps)), measure


def op_mir(fam, n, e):
    """A matrix whose entries share everything."""
    ps = symbols(fam, n)

    def measure(r):
        try:
            code, _ = parse_ir(r, True)
        except Unparsed:
            return None
        mem = run_ir(code, [point(p.rep) for p in ps])
        return {"v": [mem.get(j, -1) for j in range(4)], "size": len(code)}
    return (lambda: Matrix([[e, ps[-1]], [0, e]]).to_llvm_ir(ps)), measure


def op_swap(fam, n, e):
    """Every symbol replaced at once, by its successor."""
    ps = symbols(fam, n + 1)

    def run():
        fun = e.as_function(*ps[:-1])
        return e.xreplace(dict(zip(ps, ps[1:]))), fun(*ps[1:]), fun(*ps[:-1])

    def measure(r):
        want = over(fam, ps[1:])
        return {"same": r[0] is want and r[1] is want, "again": r[2] is e, "part": True}
    return run, measure


def op_rows(fam, n, e):
    """Matrices with many entries."""
    ps = symbols(fam, n)
    row = [sin(p) for p in ps]

    def run():
        m = Matrix([row, ps])
        return m, m + m, m.diff(ps[0]), m.tolist(), m.to_llvm_ir(ps)

    def measure(r):
        m, twice, d, lst, code = r
        one, zero = Integer(1), Integer(0)
        dl = d.tolist()
        ok = (lst == [row, ps] and all(m[0, j] is row[j] for j in range(n)) and len(twice.tolist()[0]) == n
              and twice[1, n - 1] is ps[-1] + ps[-1] and dl[0][1:] == [zero] * (n - 1) and dl[1] == [one] + [zero] * (n - 1))
        try:
            instr, _ = parse_ir(code, True)
        except Unparsed:
            return {"same": ok, "again": True, "part": True}
        vals = [point(p.rep) for p in ps]
        mem = run_ir(instr, vals)
        want = [odd(v[0], P) for v in vals] + [v[0] for v in vals]
        return {"same": ok, "again": mem == dict(enumerate(want)), "part": True}
    return run, measure


OPS = {"swap": op_swap, "rows": op_rows, "count": op_count, "sort": op_sort, "graph": op_graph, "eval": op_eval, "f64": op_f64, "diff": op_diff,
       "subst": op_subst, "rewrite": op_rewrite, "ir": op_ir, "hsort": op_hsort, "mir": op_mir,
       "gcount": lambda fam, n, e: (e.count_ops_graph, lambda r: {"g": r})}


def calls_of(run):
    """Number of calls made."""
    n = [0]

    def prof(frame, event, arg):
        n[0] += 1
    sys.setprofile(prof)
    try:
        run()
    finally:
        sys.setprofile(None)
    return n[0]


def cpu(run):
    gc.collect()
    gc.disable()
    try:
        t = time.process_time()
        r = run()
        t = time.process_time() - t
        del r
    finally:
        gc.enable()
    return t


def case_cells(c):
    """A compiled matrix with entries at multiples of st."""
    nr, nc = c["nr"], c["nc"]

    def cell(j):
        return 0 if j % c["st"] else (x, x + j, y * j)[j % 3]
    v = sc.lambdify([y, x], Matrix([[cell(i * nc + j) for j in range(nc)] for i in range(nr)]))(float(c["py"]), float(c["px"]))
    flat = v.ravel().tolist()
    return dict(c, shape=list(v.shape), nz=[[j, int(e) if e == int(e) else -1] for j, e in enumerate(flat) if e])


def case_args(c):
    """A compiled function of many parameters."""
    ps = [Symbol(f"p{j}") for j in range(1, c["np"] + 1)]
    v = sc.lambdify(ps, Add(*[p * j for j, p in enumerate(ps, 1)]))(*[float(j * 31 % 17) for j in range(1, c["np"] + 1)])
    return dict(c, v=int(v) if v == int(v) else -1)


def play(script):
    fam, ev = script.get("tm") or script["fam"], []
    sys.setrecursionlimit(1000)
    for c in script.get("cases", ()):
        try:
            with limit(120):
                ev.append(dict((case_cells if c["op"] == "cells" else case_args)(c), n=0))
        except Exception as err:
            ev.append({"op": "failed", "what": c["op"], "n": 0, "exc": type(err).__name__})
    for n in script["sizes"]:
        e = build(fam, n)
        for name in script["ops"]:
            if name == "f64" and (fam != "double" or n > 1000):
                continue
            try:
                with limit(script.get("limit", 60)):
                    run, measure = OPS[name](fam, n, e)
                    r = run()
                    facts = measure(r)
                    del r
                if facts is not None:
                    ev.append(dict(op=name, n=n, **facts))
            except OpTimeout:
                ev.append({"op": "slow", "what": name, "n": n})
            except Exception as err:
                ev.append({"op": "raised", "what": name, "n": n, "exc": type(err).__name__})
        del e
    big, times = script.get("time", 0), script.get("times", 4)
    if big:
        small = max(big // times, 1)
        e1, e2 = build(fam, small), build(fam, big)
        for name in script["ops"]:
            if name in ("f64", "count"):      # the number of subexpressions with multiplicity has many digits
                continue
            facts = {"what": name, "n": script["sizes"][-1]}
            try:
                with limit(script.get("limit", 60) * 2):
                    run1, run2 = OPS[name](fam, small, e1)[0], OPS[name](fam, big, e2)[0]
                    t1, t2 = cpu(run1), cpu(run2)
                    c1, c2 = calls_of(run1), calls_of(run2)
                    for _ in range(4):
                        if t2 < 0.05 or t2 < t1 * 7 * times / 4:
                            break
                        t1, t2 = min(t1, cpu(run1)), min(t2, cpu(run2))
                    ev.append(dict(facts, op="time", times=times, calls1=c1, calls2=c2,
                                   slow=int(1000 * t2 / max(t1, 1e-6)), small=t2 < 0.05))
            except OpTimeout:
                ev.append(dict(facts, op="slow"))
            except Exception as err:
                ev.append(dict(facts, op="raised", exc=type(err).__name__))
    return {"fam": script["fam"], "tm": script.get("tm", []), "ev": ev}


def crashed(script):
    return {"fam": script["fam"], "tm": script.get("tm", []), "ev": [{"op": "crash", "n": 0}]}
