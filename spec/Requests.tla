------------------------------ MODULE Requests ------------------------------
(* Which requests the library supports, and the errors documented for those *)
(* it does not.  The kind of every operand is recorded ("expr", "int",      *)
(* "float", "tree", ...), and what else the answer depends on.              *)
EXTENDS TraceSession

Kinds(ev) == {ev.args[j].k : j \in 1..Len(ev.args)}

Expressible == {"expr", "int", "bool"}

(* Numbers can be computed for sums, products, powers, sines and cosines of *)
(* integers and of symbols that are given a value.                          *)
EvalSupported(e, given) ==
  \A i \in Reach(tab, e) :
     IF IsAtom(tab[i]) THEN tab[i].ty = "Integer" \/ i \in given
     ELSE HeadOf(tab[i]) \in {ADD, MUL, POW, SIN, COS}

Given(ev) == {Res(tab, regs, ev.args[j].o).id : j \in 1..Len(ev.args)}

(* A rule for an evaluator: pat = <<kind, name, arguments>>,                *)
(* act = <<kind of function, arguments>>                                    *)
RuleSupported(p, a) ==
  IF a[1] = "plain" THEN FALSE
  ELSE IF a[1] = "opn" THEN p[1] = "head" /\ Len(p[3]) = 1 /\ p[3][1] = "*" \o a[2][1]
  ELSE /\ p[3] = a[2]
       /\ <<p[1], a[1]>> \in {<<"head", "op1">>, <<"head", "op2">>, <<"atom", "func1">>, <<"agen", "atomfunc">>,
                              <<"ogen", "headop">>}

Supported(ev) ==
  CASE ev.kind \in {"bin", "call", "targets", "replacements"} -> Kinds(ev) \subseteq Expressible
    [] ev.kind = "number" -> ev.nums[1] = ev.nums[2]
    [] ev.kind = "tree"   -> Kinds(ev) \subseteq {"tree"}
    [] ev.kind = "wrap"   -> Kinds(ev) \subseteq (IF ev.what = "atom" THEN {"atom"} ELSE {"tree"})
    [] ev.kind = "eval"   -> Kinds(ev) \subseteq {"expr"} /\ EvalSupported(ev.e, Given(ev))
    [] ev.kind = "lambdify" -> Kinds(ev) \subseteq {"expr", "matrix"}
    [] ev.kind = "rows"   -> /\ ev.what = "list" /\ \A j \in 1..Len(ev.rows) : ev.rows[j] = "list"
                             /\ \A i, j \in 1..Len(ev.nums) : ev.nums[i] = ev.nums[j]
                             /\ Kinds(ev) \subseteq Expressible
    [] ev.kind = "index"  -> /\ ev.what = "tuple" /\ Len(ev.args) = 2 /\ Kinds(ev) \subseteq {"int"}
                             /\ ev.nums[1] \in 0..(regs[ev.m].nr - 1) /\ ev.nums[2] \in 0..(regs[ev.m].nc - 1)
    [] ev.kind = "madd"   -> Kinds(ev) \subseteq {"matrix"} /\ ev.nums = <<regs[ev.m].nr, regs[ev.m].nc>>
    [] ev.kind = "mdiff"  -> Kinds(ev) \subseteq {"expr"}
    [] ev.kind = "from"   -> FALSE          \* nothing of these is an object of SymPy
    [] ev.kind = "diff"   -> IF ev.what = "times" THEN Kinds(ev) \subseteq {"int", "bool"} ELSE Kinds(ev) \subseteq {"expr"}
    [] ev.kind = "rule"   -> RuleSupported(ev.pat, ev.act)
    [] ev.kind = "drule"  -> ev.what = "pair" /\ Cardinality({j \in 1..Len(ev.lhs) : ev.lhs[j] = ev.var}) = 1
    [] OTHER -> FALSE

(* Documented errors; "" when any error will do.                            *)
Family(ev) ==
  CASE ev.kind \in {"call", "targets", "replacements"} -> "ExpressifyError"
    [] ev.kind \in {"bin", "number", "tree", "wrap", "lambdify", "madd", "mdiff", "drule"} -> "TypeError"
    [] ev.kind = "rows" -> "TypeError"
    [] ev.kind = "eval" -> IF Kinds(ev) \subseteq {"expr"} THEN "NoEvaluationRuleError" ELSE ""
    [] ev.kind = "index" -> IF ev.what = "tuple" /\ Len(ev.args) = 2 /\ Kinds(ev) \subseteq {"int"} THEN "IndexError" ELSE "TypeError"
    [] ev.kind = "rule" -> "BadRuleError"
    [] OTHER -> ""

(* Requests made with the operations of Session.tla                         *)
OpFamily(ev) ==
  CASE ev.op \in {"code", "mcode", "lam"} -> "LLVMNotImplementedError"
    [] ev.op \in {"fromsym", "mfromsym"} -> "NotImplementedError"
    [] ev.op \in {"madd", "apply"} -> "TypeError"
    [] ev.op = "mget" -> IF ev.good THEN "IndexError" ELSE "TypeError"
    [] OTHER -> ""

InFamily(name, ev) == name = "" \/ name \in ToSet(ev.mro)

AskVerdict(ev) ==
  IF ev.op = "ask"
  THEN IF Supported(ev) THEN If(~ev.raised, "C19.refused")
       ELSE If(ev.raised, "C19.accepted") \cup If(ev.raised => InFamily(Family(ev), ev), "C19.error")
  ELSE IF ev.op = "twin" THEN {}
  ELSE {"C19." \o c : c \in Verdict(ev)} \cup If(ev.mro = <<>> \/ InFamily(OpFamily(ev), ev), "C19.error")
=============================================================================
