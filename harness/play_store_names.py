"""Names of the operations of play_store."""
USES = ["repr", "latex", "eval", "diff", "diffs", "binexp", "count", "subst", "subsfunc", "ir", "lambdify", "sympy",
        "fromsympy", "sort", "matrix", "mir", "mlambdify", "transform", "operators", "evaluator", "core", "parts", "bad",
        "badf", "badeval", "badir", "baddiff", "badmatrix"]
DERIVES = ["diff", "binexp", "xreplace", "function", "subsfunc", "matrix", "madd", "transform", "neg", "add", "sympy"]
BADS = ["child", "child2", "unhashable", "atomchild", "tr", "trtree", "sym", "symatom", "symsym", "value", "op", "call",
        "op2", "exprtree"]
