"""Technique and level note of every check (for MANIFEST.json)."""

TRACE = ("The real library is driven by scripts (every behaviour explored by the design model, then random ones) and "
         "TLC decides every recorded event against the specification.")


def t(model, trace):
    return f"TLA+ design model {model} checked with TLC; recorded traces of the library decided by TLC against {trace}"


NOTES = {
    "C01": (t("Store (memory with reused addresses and a weak table)", "TraceStore"),
            "Exhaustive for all histories of 4 builds and drops of 8 structures; " + TRACE),
    "C02": (t("Interning (publication in the weak table by several threads), Session", "TraceThreads"),
            "Threads are stepped line by line or bytecode by bytecode through the library and weakref by a scheduler "
            "that decides every switch; schedules are all or a sample of those with one switch per thread, a sample "
            "with two, and random ones; " + TRACE),
    "C03": (t("Store (what is alive is what is reachable from what is held)", "TraceStore"),
            "Live objects are found through the garbage collector and compared with the closure of what is held; " + TRACE),
    "C04": (t("Walk (stack machine of the traversal)", "TraceSession"),
            "Exhaustive for all expressions of at most 2-3 compounds and exclude sets; " + TRACE),
    "C05": (t("Substitution (compiled substitution function as a machine)", "TraceSession"),
            "Exhaustive for all expressions of 2-3 compounds, targets and replacements; " + TRACE),
    "C06": (t("Evaluate (forward evaluation in any order, and recursion)", "TraceRules"),
            "Exhaustive for all expressions of 2 compounds, rule sets and supplied values; " + TRACE),
    "C07": (t("Registry (histories of registrations on several evaluators)", "TraceRules"),
            "Exhaustive for all histories of 3 registrations on 2 evaluators, malformed ones included; " + TRACE),
    "C08": (t("Laws (derivative rules against dual numbers)", "TraceSession"),
            "Derivatives are compared as functions by residues modulo a prime at 3 points, error probability about "
            "1e-12 per comparison; " + TRACE),
    "C09": (t("Differ (rule tables of a differentiation engine, derivatives by dual numbers)", "TraceDiffer"),
            "Derivatives are compared as functions by residues modulo a prime at several points; " + TRACE),
    "C10": (t("Laws (taking apart and putting together), Session (operators)", "TraceSession"), TRACE),
    "C11": (t("Laws (printer against the reader of Reader.tla)", "TraceSession"),
            "The printed text is tokenised by the recorder and parsed and evaluated by the specification; " + TRACE),
    "C12": (t("Laws (expressions), SymPy objects as tables of nodes", "TraceSession"), TRACE),
    "C13": (t("Laws (code generator against the machine of Ssa.tla), Approx", "TraceSession"),
            "Generated LLVM text runs on an abstract machine in TLA+; compiled functions are compared with error "
            "bounds computed in TLA+; " + TRACE),
    "C14": (t("Matrices (sparse representation refines dense)", "TraceSession"), TRACE),
    "C15": (t("Laws (expansion and rewriting laws)", "TraceSession"), TRACE),
    "C16": ("TLA+ laws of counting checked by TLC; recurrences of large expressions stepped by TLC (TraceScale) against "
            "measurements of the real code",
            "Values, derivatives, counts and numbers of rule calls of levels up to 20000 (thorough 50000) are exact; that "
            "work is proportional is decided from numbers of calls and processor time at two sizes (a factor of 4 in size "
            "must not cost a factor of 11 in time); " + TRACE),
    "C17": (t("ApproxLaws (error bounds)", "TraceSession with Approx"),
            "Exact for small integers, otherwise within 2^-30 of a computed error bound between routes; " + TRACE),
    "C18": (t("Lazy (operations, what they import and what is missing)", "TraceLazy"),
            "Every history runs in new processes that see all, and some subsets, of SymPy, NumPy and llvmlite; results "
            "must be those obtained with everything installed; " + TRACE),
    "C19": (t("Refusals (a library with and without the unsupported requests), Requests (what is supported)", "TraceRefusals"),
            "Every script runs twice, with and without its unsupported requests, in new processes; all requests of the "
            "model's histories of 3 are sampled; " + TRACE),
}
