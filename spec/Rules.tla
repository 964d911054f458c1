------------------------------- MODULE Rules -------------------------------
(* Evaluators: rules registered for heads and kinds of atoms, and the value *)
(* they give to an expression.                                              *)
(*                                                                          *)
(* A rule is a record                                                       *)
(*   k     "atom" (for kind ty), "op" (for head h), "agen", "ogen"          *)
(*   mode  for "op": "one" and "two" take that many values, "many" a list   *)
(*   f     what it computes: "hash" of its arguments and its salt, "first"  *)
(*         argument, the "const"ant salt, "raise" an error of its own, or   *)
(*         "nest": hash of the arguments and of the value of expression e   *)
(*         found by the same evaluator                                      *)
(* An evaluator is the sequence of the rules it accepted, oldest first; the *)
(* one that counts is the last for the same thing.                          *)
EXTENDS Terms

HashM(salt, args) ==
  FoldLeft(LAMBDA acc, a : (acc * 37 + a * 101 + salt) % P, (salt * 7 + Len(args) * 13 + 5) % P, args)

SameTarget(r, q) == r.k = q.k /\ r.ty = q.ty /\ r.h = q.h
NoRule == [k |-> "none", ty |-> "", h |-> 0, mode |-> "", f |-> "", salt |-> 0, e |-> 0]

Latest(rules, Sel(_)) ==
  LET i == SelectLastInSeq(rules, Sel) IN IF i = 0 THEN NoRule ELSE rules[i]

AtomRuleOf(rules, ty) ==
  LET r == Latest(rules, LAMBDA q : q.k = "atom" /\ q.ty = ty)
  IN IF r.k # "none" THEN r ELSE Latest(rules, LAMBDA q : q.k = "agen")
OpRuleOf(rules, h) ==
  LET r == Latest(rules, LAMBDA q : q.k = "op" /\ q.h = h)
  IN IF r.k # "none" THEN r ELSE Latest(rules, LAMBDA q : q.k = "ogen")

(* vals: sequence of [id, n], values supplied for atoms                     *)
Supplied(vals, i) == LET j == SelectInSeq(vals, LAMBDA v : v.id = i) IN IF j = 0 THEN -1 ELSE vals[j].n

ArityOK(r, n) == CASE r.k = "ogen" -> TRUE [] r.mode = "one" -> n = 1 [] r.mode = "two" -> n = 2 [] OTHER -> TRUE

(* Reasons why evaluation of e fails; empty if it gives a value             *)
RECURSIVE Causes(_, _, _, _)
Causes(tab, rules, vals, e) ==
  UNION {IF IsAtom(tab[i])
         THEN IF Supplied(vals, i) >= 0 THEN {}
              ELSE LET r == AtomRuleOf(rules, tab[i].ty)
                   IN CASE r.k = "none" -> {"missing"} [] r.f = "raise" -> {"boom"} [] OTHER -> {}
         ELSE LET r == OpRuleOf(rules, HeadOf(tab[i]))
                  n == Len(tab[i].ch) - 1
              IN CASE r.k = "none" -> {"missing"}
                   [] ~ArityOK(r, n) -> {"arity"}
                   [] r.f = "raise" -> {"boom"}
                   [] r.f = "nest" -> Causes(tab, rules, <<>>, r.e)
                   [] OTHER -> {}
         : i \in Reach(tab, e)}

RECURSIVE EvalSeq(_, _, _, _)
(* Values of the nodes 1 .. e by structural recursion (0 where not needed)  *)
EvalSeq(tab, rules, vals, e) ==
  LET R == Reach(tab, e)
      args(r, i, a) == IF r.k = "ogen" THEN <<HeadOf(tab[i])>> \o a ELSE a
      give(r, a, n) == CASE r.f = "const" -> r.salt
                         [] r.f = "first" /\ n # <<>> -> n[1]
                         [] r.f = "nest" -> HashM(r.salt, a \o <<EvalSeq(tab, rules, <<>>, r.e)[r.e]>>)
                         [] OTHER -> HashM(r.salt, a)
  IN FoldLeft(LAMBDA acc, i :
        IF i \notin R THEN Append(acc, 0)
        ELSE IF IsAtom(tab[i])
        THEN Append(acc, IF Supplied(vals, i) >= 0 THEN Supplied(vals, i)
                         ELSE give(AtomRuleOf(rules, tab[i].ty), <<i>>, <<>>))
        ELSE LET n == SeqMap(LAMBDA c : acc[c], Args(tab[i]))
                 r == OpRuleOf(rules, HeadOf(tab[i]))
             IN Append(acc, give(r, args(r, i, n), n)),
        <<>>, [i \in 1..e |-> i])

(* The calls of rules for heads: one for each distinct compound             *)
CallSeq(tab, rules, vals, e) ==
  LET v == EvalSeq(tab, rules, vals, e)
      R == Reach(tab, e)
  IN FoldLeft(LAMBDA acc, i :
        IF i \notin R \/ IsAtom(tab[i]) THEN acc
        ELSE Append(acc, [salt |-> OpRuleOf(rules, HeadOf(tab[i])).salt,
                          args |-> SeqMap(LAMBDA c : v[c], Args(tab[i]))]),
        <<>>, [i \in 1..e |-> i])

Times(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Times(s, s[j]) = Times(t, s[j])

-----------------------------------------------------------------------------
(* Which pairs of a pattern and a symbolic call make a rule.  `args` are    *)
(* the wild symbols on either side.                                         *)
Pairs == {<<"app", "PyOp1">>, <<"app", "PyOp2">>, <<"atomval", "PyFunc1">>,
          <<"atomrule", "AtomFunc">>, <<"headrule", "HeadOp">>}

Acceptable(pat, call) ==
  CASE call.t = "PyOpN" -> pat.t = "star" /\ pat.args = call.args
    [] OTHER -> <<pat.t, call.t>> \in Pairs /\ pat.args = call.args
=============================================================================
