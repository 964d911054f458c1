"""What is checked for each property."""
from __future__ import annotations

import gen
import gen_differ
import gen_lazy
import gen_refusals
import gen_rules
import gen_scale
import gen_store
import gen_threads
from check import Builder, group, scripts_from

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


# ------------------------------------------------------------------ C04

def add_topo(s, q):
    e, ex = s.o(q["e"]), [s.o(i) for i in q["ex"]]
    s.ops.append({"op": "topo", "a": [e], "heads": q["heads"], "ex": ex, "explicit": (q["e"] + len(ex)) % 2 == 0})
    if not q["heads"]:
        s.ops.append({"op": "split", "a": [e], "ex": ex})
        if not ex:
            s.ops.append({"op": "graph", "a": [e]})


@check
def C04(c):
    if c.quick:
        qs = c.sample(c.design("Walk", dict(Gen=True, ExcludeMax=1)), 8000)
    else:
        c.design("Walk", dict(MaxNodes=2, MaxArity=3, NSyms=2, ExcludeMax=3), name="Walk arity 3")
        c.design("Walk", dict(MaxNodes=3, MaxArity=2, NSyms=1, HeadNames={"f"}, ExcludeMax=1), name="Walk 3 nodes")
        qs = c.design("Walk", dict(Gen=True, NSyms=2, HeadNames={"f", "g"}, ExcludeMax=2))
    c.play("every small expression and exclude set", scripts_from(qs, "C04", add_topo, needvals=False))
    c.random("random traversals", gen.traversal_script, 1200, chunk=4000)


# ------------------------------------------------------------------ C05

def add_subst(s, q):
    ts, rs = [s.o(i) for i in q["ts"]], [s.o(i) for i in q["rs"]]
    k = len(s.ops) % 4
    if k < 3:
        s.push({"op": "subst", "mode": ("tree", "function", "xreplace")[k], "a": [s.o(q["e"])], "ts": ts, "rs": rs})
    else:
        key = (s.keys[q["e"]], tuple(s.keys[t] for t in q["ts"]))
        funs = s.__dict__.setdefault("funs", {})
        if key not in funs:
            funs[key] = s.push({"op": "mkfun", "mode": "tree" if len(funs) % 2 else "function",
                                "a": [s.o(q["e"])], "ts": ts})
        s.push({"op": "apply", "f": funs[key], "rs": rs})


@check
def C05(c):
    if c.quick:
        qs = c.sample(c.design("Substitution", dict(Gen=True)), 12000)
    else:
        c.design("Substitution", dict(MaxNodes=2, MaxArity=2, OddHeads=True, MaxTargets=2), name="odd heads")
        c.design("Substitution", dict(MaxNodes=3, MaxArity=2, NSyms=1, MaxTargets=2), name="3 nodes")
        c.design("Substitution", dict(MaxNodes=2, MaxArity=2, NSyms=1, MaxCalls=2), name="2 calls")
        qs = c.design("Substitution", dict(Gen=True, MaxTargets=3, NSyms=1))
        qs += c.design("Substitution", dict(Gen=True, HeadNames={"f", "g"}, MaxTargets=2))
    c.play("every small expression, targets and replacements", scripts_from(qs, "C05", add_subst, needvals=False))
    c.random("random substitutions", gen.subst_script, 1200, chunk=4000)


# ------------------------------------------------------------------ laws of the operations

def laws(c, invariants, quick, thorough, flaw=None):
    """Check the laws in spec/Laws.tla; returns the expressions explored."""
    qs = []
    for k, consts in enumerate(quick if c.quick else quick + thorough):
        qs += c.design("Laws", dict(consts, Gen=True), invariants=invariants, name="Laws " + " ".join(invariants))
    if flaw:
        for f, inv in flaw:
            c.design("Laws", dict(Flaw=f), invariants=[inv], expect=inv, name=f"Laws, mistake {f}")
    return qs


def syms_of(s):
    return [i for i in range(10, len(s.nodes)) if s.nodes[i][0] == "Symbol"]


@check
def C08(c):
    def add(s, q):
        for n, v in enumerate(syms_of(s)):
            e = q["e"]
            s.push({"op": "diff", "a": [s.o(e), s.o(v)], "k": 1 + (len(s.ops) + n) % 2,
                    "how": ("method", "function", "default")[len(s.ops) % 3]})
        if len(s.ops) % 5 == 0:
            es = [s.node(i) for i in range(10, len(s.nodes)) if not isinstance(s.nodes[i][0], str)]
            k = s.push({"op": "call", "a": [s.o(6)] + [{"r": r} for r in es]})
            s.push({"op": "diff", "a": [{"r": k}, s.o(syms_of(s)[0])], "k": len(s.ops) % 3, "how": "method"})

    qs = laws(c, ["DiffLaw", "ZeroTimes", "Independent"], [dict(MaxArity=2, NSyms=1)],
              [dict(MaxArity=3, NSyms=2, IntLits={0, 901, 2}), dict(MaxNodes=3, NSyms=1, IntLits={2},
                                                                    HeadNames={"Add", "Mul", "pow", "sin"}),
               dict(MaxDiff=3, NSyms=1)],
              [("diff", "DiffLaw")])
    c.play("derivatives of every small expression", scripts_from(c.sample(qs, 5000), "C08", add))
    c.random("random derivatives", gen.diff_script, 1000, chunk=4000)


@check
def C10(c):
    def add(s, q):
        k = s.node(q["e"])
        s.ops.append({"op": "parts", "a": [{"r": k}]})
        n = len(s.ops)
        if n % 4 == 0:
            s.push({"op": "copy", "a": [{"r": k}], "deep": n % 8 == 0})
        elif n % 4 == 1:
            s.push({"op": ("neg", "pos")[n % 8 // 4], "a": [{"r": k}]})
        else:
            o = ("+", "-", "*", "/", "**")[n % 5]
            y = [{"r": s.node(9 + n % 3)}, {"i": str(n % 7 - 3)}, {"r": s.node(n % 6 + 1)}, {"r": k}][n % 3]
            s.push({"op": "bin", "o": o, "a": [{"r": k}, y] if n % 2 else [y, {"r": k}]})

    qs = laws(c, ["PartsLaw"], [dict(NSyms=1)], [dict(OddHeads=True, HeadNames={"f", "Add"}), dict(MaxArity=3)])
    c.play("every small expression", scripts_from(c.sample(qs, 6000), "C10", add, needvals=False))
    c.random("random operators", gen.operator_script, 1500, chunk=4000)


@check
def C11(c):
    def add(s, q):
        n = len(s.ops)
        s.ops.append({"op": "text", "a": [s.o(q["e"])], "how": ("repr", "str", "eval", "fmt")[n % 4]})
        s.ops.append({"op": "latex", "a": [s.o(q["e"])], "how": ("eval", "hook")[n % 2]})

    qs = laws(c, ["PrintLaw", "InjectLaw"], [dict(HeadNames={"Add", "Mul", "pow", "f"})],
              [dict(MaxArity=3, IntLits={901, 2}, HeadNames={"Add", "Mul", "pow", "f"}),
               dict(MaxNodes=3, NSyms=1, IntLits={901}, HeadNames={"Add", "Mul", "pow"})],
              [("brackets", "PrintLaw")])
    four = dict(MaxNodes=4, NSyms=1, IntLits=set(), HeadNames={"Add", "pow"})
    qs += c.design("Laws", dict(four, Gen=True), invariants=["PrintLaw", "InjectLaw"], name="Laws, 4 nodes")
    c.design("Laws", dict(four, Flaw="brackets"), invariants=["InjectLaw"], expect="InjectLaw",
             name="Laws, mistake brackets")
    c.rng.shuffle(qs)
    c.play("text of every small expression", scripts_from(c.sample(qs, 6000), "C11", add, per=60))
    c.random("random expressions", gen.text_script, 1000, chunk=4000)


@check
def C12(c):
    def add(s, q):
        s.ops.append({"op": "tosym", "a": [s.o(q["e"])], "how": ("method", "sympify")[len(s.ops) % 2]})

    def back(s, q):
        def term(i):
            nd = s.nodes[i]
            if isinstance(nd[0], str):
                return ["i" if nd[0] == "Integer" else "s", nd[1]]
            h = {1: "+", 2: "*", 3: "^"}.get(nd[0], s.nodes[nd[0]][1])
            return [h, True] + [term(x) for x in nd[1:]]
        t = term(q["e"])
        for ev in (True, False):
            t2 = t if ev else unevaluated(t)
            s.push({"op": "fromsym", "term": t2, "supported": True, "evaluated": ev})

    def unevaluated(t):
        return t if t[0] in "is" else [t[0], False] + [unevaluated(x) for x in t[2:]]

    qs = laws(c, ["PartsLaw"], [dict(NSyms=1)], [dict(NSyms=2), dict(MaxArity=3, NSyms=1)])
    c.play("to SymPy, every small expression", scripts_from(c.sample(qs, 2500), "C12", add))
    c.play("from SymPy, every small expression", scripts_from(c.sample(qs, 2000), "C12", back))
    c.random("random conversions", gen.sympy_script, 500, chunk=1500)


@check
def C14(c):
    qs = c.design("Matrices", dict(Gen=True))
    c.design("Matrices", dict(Flaw="alias", MaxNew=2), expect="Refines", name="Matrices, mistake alias")
    if not c.quick:
        c.design("Matrices", dict(Shapes={22}, MaxNew=1, MaxMats=2), name="Matrices 2x2")
        c.design("Matrices", dict(Shapes={12}, MaxNew=2, MaxMats=4), name="Matrices, 4 operations")
        c.design("Matrices", dict(Flaw="append", MaxNew=2), expect="Refines", name="Matrices, mistake append")
    scripts = []
    for n, q in enumerate(c.sample(qs, 5000)):
        s = Builder("C14", variant=n)
        s.use(q["table"])
        regs = []
        for h in q["q"]:
            if h["op"] == "mat":
                regs.append(s.push({"op": "mat", "nr": h["x"], "nc": h["y"], "a": [
                    {"i": "0"} if i == 7 else s.o(i) for i in h["a"]]}))
            elif h["op"] == "madd":
                regs.append(s.push({"op": "madd", "x": regs[h["x"] - 1], "y": regs[h["y"] - 1]}))
            else:
                v = s.o(h["a"][0])
                regs.append(s.push({"op": "mdiff", "m": regs[h["x"] - 1], "a": [v]}))
            s.ops.append({"op": "frame"})
        for m in regs:
            s.ops.append({"op": "mlist" if n % 3 else "mtext", "m": m})
        scripts.append(s.script())
    c.play("every small matrix history", scripts)
    c.random("random matrices", gen.matrix_script, 1200, chunk=4000)


@check
def C15(c):
    def add(s, q):
        e = s.o(q["e"])
        s.push({"op": "binexp", "a": [e]})
        n = len(s.ops)
        heads = [s.o(i) for i in (1, 2, 3, 4, 5)]
        hr = [{"h": heads[(n + j) % 5], "kind": ("rehead", "rev", "wrap", "first", "const", "dup")[(n + j) % 6],
               "to": heads[(n * 7 + j) % 5]} for j in range(n % 4)]
        ar = [{"h": s.o(10), "kind": "atom", "to": s.o(8)}] if n % 3 == 0 else []
        s.push({"op": "xform", "a": [e], "hr": hr, "ar": ar})

    qs = laws(c, ["ExpandLaw", "IdentityLaw"], [dict(NSyms=1, MaxArity=3, IntLits={0, 2})],
              [dict(), dict(MaxNodes=3, NSyms=1, IntLits={2}, HeadNames={"Add", "Mul", "f"}), dict(MaxArity=3)],
              [("expand", "ExpandLaw")])
    c.play("every small expression", scripts_from(c.sample(qs, 6000), "C15", add))
    c.random("random rewriting", gen.rewrite_script, 1200, chunk=4000)


@check
def C13(c):
    def add(s, q):
        ps = syms_of(s)
        n = len(s.ops)
        ps = ps[::-1] if n % 2 else ps
        e = s.o(q["e"])
        if n % 4 < 3:
            s.ops.append({"op": "code", "a": [e], "ps": [s.o(p) for p in ps]})
        else:
            row = [{"i": "0"}, e, s.o(ps[0])][n // 4 % 3:]
            m = s.push({"op": "mat", "nr": 1, "nc": len(row), "a": row})
            s.ops.append({"op": "mcode", "m": m, "ps": [s.o(p) for p in ps]})

    qs = laws(c, ["CodeLaw"], [dict(HeadNames={"Add", "Mul", "pow", "sin"}, IntLits={0, 901, 2})],
              [dict(), dict(MaxArity=3, IntLits={0, 901}), dict(MaxNodes=3, NSyms=1, IntLits={2})],
              [("code", "CodeLaw")])
    c.play("code of every small expression", scripts_from(c.sample(qs, 4000), "C13", add))
    c.random("random code", gen.code_script, 700, chunk=3000)
    c.play("large compiled matrices", [gen_scale.cells_script(c.rng, 9) for _ in range(1 if c.quick else 12)], module="scale",
           spec="TraceScale", env={"DRIVER_SCRIPT_LIMIT": "300"})
    c.design("ApproxLaws", dict(N=16 if c.quick else 60))
    c.play("many compiled functions", [gen.many_compiled_script(c.rng, n) for n in
                                       ((20, 40, 60, 140) if c.quick else (20, 50, 100, 200, 300, 400, 600))])
    c.random("compiled functions", gen.compiled_script, 500, chunk=1500)


@check
def C17(c):
    c.design("ApproxLaws", dict(N=16 if c.quick else 60))
    c.design("ApproxLaws", dict(N=16, Flaw="noerror"), expect="ExpLnOK", invariants=["ExpLnOK"],
             name="ApproxLaws, mistake noerror")
    c.random("numbers by every route", gen.numeric_script, 1500, chunk=4000)
    c.random("compiled functions", gen.compiled_script, 300, chunk=1000)


RULES = dict(module="rules", spec="TraceRules")


@check
def C06(c):
    qs = c.design("Evaluate", dict(IntLits=set()) if c.quick else {})
    for flaw, inv in (("falsy", "ValueOK"), ("tree", "OnceOK")) + (() if c.quick else (("args", "ValueOK"),)):
        c.design("Evaluate", dict(Flaw=flaw, Gen=False), expect=inv, invariants=[inv], name=f"Evaluate, mistake {flaw}")
    if not c.quick:
        qs += c.design("Evaluate", dict(OddHeads=True, HeadNames={"f"}, IntLits=set()), name="Evaluate, any heads")
        c.design("Evaluate", dict(MaxNodes=3, HeadNames={"f"}, IntLits=set(), Gen=False), name="Evaluate, 3 nodes",
                 timeout=1500)
    qs = [q for q in qs if q["q"]["how"] == "forward"]
    c.play("every small evaluation", gen_rules.evaluate_scripts(c.sample(qs, 12000)), **RULES)
    c.random("random evaluations", lambda rng: gen_rules.rules_script(rng, "C06"), 2500, chunk=6000, **RULES)


@check
def C07(c):
    hs = [d["q"] for d in c.design("Registry", dict(MaxLen=3))]
    for flaw in ("shared", "badwrites") + (() if c.quick else ("first", "generic")):
        c.design("Registry", dict(Flaw=flaw, Gen=False), expect="LatestWins", name=f"Registry, mistake {flaw}")
    if not c.quick:
        hs += [d["q"] for d in c.design("Registry", dict(MaxLen=4, NEv=1), name="Registry, 4 registrations")]
        c.design("Registry", dict(MaxLen=5, NEv=1, Gen=False), name="Registry, 5 registrations")
        c.design("Registry", dict(MaxLen=3, NEv=3, Gen=False), name="Registry, 3 evaluators")
    c.play("every short history", gen_rules.registry_scripts(c.sample(hs, 3500)), chunk=4000, **RULES)
    c.random("random histories", lambda rng: gen_rules.rules_script(rng, "C07"), 2500, chunk=6000, **RULES)


STORE = dict(module="store", spec="TraceStore")


def store_histories(c):
    hs = [d["q"] for d in c.design("Store", dict(Gen=True))]
    if not c.quick:
        hs += [d["q"] for d in c.design("Store", dict(MaxLen=6, MaxHeld=3, NAddr=9, Gen=True), simulate=20000, depth=8)]
        c.design("Store", dict(MaxLen=6, MaxHeld=4, NAddr=8), name="Store, 6 steps")
    return gen_store.history_scripts(c.sample(hs, 2500))


@check
def C01(c):
    for flaw, inv in (("name", "Intact"), ("set", "Intact"), ("class", "Intact"), ("stale", "Intact"),
                      ("blind", "Unique")):
        c.design("Store", dict(Flaw=flaw), expect=inv, invariants=[inv], name=f"Store, mistake {flaw}")
    c.play("every short history", store_histories(c), **STORE)
    c.random("random histories", lambda rng: gen_store.store_script(rng, "C01"), 1200, chunk=3000, **STORE)


THREADS = dict(module="threads", spec="TraceThreads")


@check
def C02(c):
    for flaw, inv in (("split", "Agree"), ("overwrite", "Agree"), ("remove", "Agree"), ("borrow", "Intact"),
                      ("early", "Intact")):
        c.design("Interning", dict(Flaw=flaw), expect=inv, invariants=[inv], name=f"Interning, mistake {flaw}")
    if c.quick:
        qs = c.design("Interning", dict(Gen=True))
        runs = 60
    else:
        qs = c.design("Interning", dict(Gen=True, MaxProg=3, MaxObj=9))
        c.design("Interning", dict(NKeys=3, MaxObj=10), name="Interning, 3 structures")
        c.design("Interning", dict(Threads={1, 2, 3}, MaxProg=1, MaxObj=9), name="Interning, 3 threads")
        runs = 400
    qs = c.sample([q["q"] for q in qs], 300)
    c.play("programs of the model", [gen_threads.program_script(q, k, c.rng, runs) for k, q in enumerate(qs)],
           chunk=400, **THREADS)
    c.random("random builders", lambda rng: gen_threads.builders_script(rng, runs), 100, **THREADS)
    c.random("shared expressions and functions", lambda rng: gen_threads.operations_script(rng, runs), 220,
             chunk=400, **THREADS)


@check
def C03(c):
    for flaw, inv in (("leak", "Reclaimed"), ("weak", "Intact")):
        c.design("Store", dict(Flaw=flaw), expect=inv, invariants=[inv], name=f"Store, mistake {flaw}")
    c.play("every short history", store_histories(c), **STORE)
    n = 3 if c.quick else 40
    c.play("one operation", [gen_store.use_script(c.rng, h) for h in gen_store.USES for _ in range(n)], **STORE)
    c.play("memory after many rounds", gen_store.grow_scripts(150 if c.quick else 1000), **STORE)
    c.random("random histories", lambda rng: gen_store.store_script(rng, "C03"), 800, chunk=3000, **STORE)


@check
def C16(c):
    env = {"DRIVER_MEM_GB": "3", "DRIVER_SCRIPT_LIMIT": "800"}
    laws(c, ["CountLaw"], [dict(NSyms=1, MaxArity=3)], [dict(), dict(MaxNodes=3, NSyms=1, HeadNames={"Add", "f"})])
    c.random("random counts", gen.count_script, 300, chunk=600)
    if c.quick:
        scripts = gen_scale.scale_scripts([0, 1, 2, 5, 40, 1000, 20000], 16000)
        more = [gen_scale.random_scale(c.rng, [0, 1, 2, 7, 40, 2000], 24000) for _ in range(56)]
    else:
        scripts = gen_scale.scale_scripts(list(range(12)) + [33, 64, 100, 999, 1000, 5000, 20000, 50000], 80000)
        scripts += gen_scale.scale_scripts([3, 20, 300, 3000], 48000, times=8)
        more = [gen_scale.random_scale(c.rng, [0, 1, 2, 3, 4, 8, 60, 300, 1000, 8000], 200000) for _ in range(400)]
    c.play("large expressions", scripts, module="scale", spec="TraceScale", env=env)
    c.play("large expressions of random families", more, module="scale", spec="TraceScale", env=env)


@check
def C09(c):
    for flaw in ("sequential", "head", "first", "leak", "badwrites", "remembered", "position")[:: 3 if c.quick else 1]:
        c.design("Differ", dict(Flaw=flaw), expect="MeansOK", name=f"Differ, mistake {flaw}")
    hs = [d["q"] for d in c.design("Differ", dict(Gen=True))]
    if not c.quick:
        c.design("Differ", dict(MaxLen=3), name="Differ, 3 rules")
        c.design("Differ", dict(MaxLen=3, NDf=1), name="Differ, 3 rules, 1 differentiator")
    hs += [d["q"] for d in c.design("Differ", dict(MaxLen=4, Gen=True), simulate=8 if c.quick else 1000, depth=5,
                                    name="Differ, 4 rules")]
    c.play("every short history", gen_differ.differ_scripts(c.sample(hs, 1500)), module="differ", spec="TraceDiffer")
    c.random("random histories", lambda rng: gen_differ.differ_script(rng), 1000, chunk=4000, module="differ",
             spec="TraceDiffer")


LAZY = dict(module="lazy", spec="TraceLazy", env={"DRIVER_SCRIPT_LIMIT": "600"})


@check
def C18(c):
    for flaw, inv in (("eager", "OnlyAsked"), ("drag", "Works"), ("memo", "OnlyAsked"), ("silent", "Works"),
                      ("wedge", "Works"), ("vary", "Works"), ("refuse", "OnlyAsked"))[:: 2 if c.quick else 1]:
        c.design("Lazy", dict(Flaw=flaw), expect=inv, invariants=[inv], name=f"Lazy, mistake {flaw}")
    hs = sorted({tuple(d["q"]) for d in c.design("Lazy", dict(Gen=True))})
    if not c.quick:
        c.design("Lazy", dict(MaxLen=5), name="Lazy, 5 operations")
    c.play("histories of the model", [gen_lazy.lazy_script(c.rng, h, 2 if c.quick else 7) for h in c.sample(hs, 100)],
           chunk=400, **LAZY)
    c.random("random histories", lambda rng: gen_lazy.random_lazy(rng, 3 if c.quick else 7), 60, chunk=300, **LAZY)


REFUSALS = dict(module="refusals", spec="TraceRefusals")


@check
def C19(c):
    for flaw, inv in (("equal", "Refused"), ("early", "Same"), ("scratch", "Same"), ("rule", "Same"), ("silent", "Refused"),
                      ("wedge", "Same"), ("memo", "Same"))[:: 2 if c.quick else 1]:
        c.design("Refusals", dict(Flaw=flaw), expect=inv, invariants=[inv], name=f"Refusals, mistake {flaw}")
    hs = [d["q"] for d in c.design("Refusals", dict(Gen=True))]
    if not c.quick:
        c.design("Refusals", dict(MaxLen=4), name="Refusals, 4 requests")
    c.play("histories of the model", [gen_refusals.history_script(c.rng, h) for h in c.sample(hs, 500)], **REFUSALS)
    c.random("random histories", gen_refusals.random_refusals, 700, chunk=3000, **REFUSALS)
