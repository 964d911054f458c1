------------------------------ MODULE Evaluate ------------------------------
(* The two ways of evaluating, step by step, for every expression of Grow,  *)
(* a family of rule sets and values supplied for the atoms.                 *)
(*   forward    evaluates some node whose arguments have values (in any     *)
(*              order, so that the result cannot depend on the order)       *)
(*   recursive  keeps a stack of calls                                      *)
(* Both must give the value of structural recursion (Rules.tla), or fail    *)
(* exactly when it is undefined, and the first must call the rule of each   *)
(* compound once.                                                           *)
EXTENDS Grow, Rules

CONSTANTS Flaw     \* "none", or a mistake: "falsy", "tree", "args"

VARIABLES phase, rules, vals, val, calls, stack, failed
vars == <<tab, phase, rules, vals, val, calls, stack, failed>>

R(k, ty, h, mode, salt) == [k |-> k, ty |-> ty, h |-> h, mode |-> mode, f |-> "hash", salt |-> salt, e |-> 0]

F1 == SelectInSeq(tab, LAMBDA n : n.nm = "f")
Optional(r) == {<<>>, <<r>>}
RuleSets ==
  {a \o b \o c \o d \o e :
     a \in Optional(R("atom", "Symbol", 0, "", 3)), b \in Optional(R("agen", "", 0, "", 4)),
     c \in {<<>>, <<R("op", "", F1, "many", 5)>>, <<R("op", "", F1, "one", 6)>>,
            <<R("op", "", F1, "one", 6), R("op", "", F1, "two", 7)>>},
     d \in Optional(R("ogen", "", 0, "", 8)), e \in Optional(R("atom", "Integer", 0, "", 9))}

Supplies == {<<>>} \cup {<<[id |-> i, n |-> n]>> : i \in {j \in 10..Len(tab) : tab[j].ty = "Symbol"}, n \in {0, 1}}

Init == GrowInit /\ phase = "grow" /\ rules = <<>> /\ vals = <<>> /\ val = <<>> /\ calls = <<>>
        /\ stack = <<>> /\ failed = FALSE

GrowStep == phase = "grow" /\ Grow /\ UNCHANGED <<phase, rules, vals, val, calls, stack, failed>>

Start ==
  /\ phase = "grow" /\ CompIds # {}
  /\ \E rs \in RuleSets, vs \in Supplies, how \in {"forward", "recursive"} :
       /\ Emit([rules |-> rs, vals |-> vs, e |-> Root, how |-> how])
       /\ rules' = rs /\ vals' = vs /\ phase' = how
       /\ stack' = IF how = "recursive" THEN <<[n |-> Root, a |-> <<>>]>> ELSE <<>>
  /\ val' = [i \in 1..Root |-> -1] /\ calls' = <<>> /\ failed' = FALSE
  /\ UNCHANGED tab

Given(i) == LET n == Supplied(vals, i) IN IF Flaw = "falsy" /\ n = 0 THEN -1 ELSE n
AtomVal(i) ==       \* -1: no rule
  IF Given(i) >= 0 THEN Given(i)
  ELSE LET r == AtomRuleOf(rules, tab[i].ty) IN IF r.k = "none" THEN -1 ELSE HashM(r.salt, <<i>>)
OpVal(h, a) ==
  LET r == OpRuleOf(rules, h)
  IN CASE r.k = "none" -> -1
       [] ~ArityOK(r, Len(a)) -> -1
       [] r.k = "ogen" -> HashM(r.salt, <<h>> \o a)
       [] OTHER -> HashM(r.salt, a)
Call(h, a) == [salt |-> OpRuleOf(rules, h).salt, args |-> a]

Forward ==
  /\ phase = "forward" /\ ~failed /\ val[Root] = -1
  /\ \E i \in Reach(tab, Root) :
       /\ val[i] = -1
       /\ \A c \in Below(tab, i, FALSE) : val[c] # -1
       /\ LET a0 == SeqMap(LAMBDA c : val[c], Args(tab[i]))
              a  == IF Flaw = "args" /\ Len(a0) > 1 /\ a0[1] < a0[2] THEN <<a0[2], a0[1]>> \o Tail(Tail(a0)) ELSE a0
              v  == IF IsAtom(tab[i]) THEN AtomVal(i) ELSE OpVal(HeadOf(tab[i]), a)
          IN /\ failed' = (v = -1)
             /\ val' = [val EXCEPT ![i] = v]
             /\ calls' = IF IsAtom(tab[i]) THEN calls ELSE Append(calls, Call(HeadOf(tab[i]), a))
  /\ UNCHANGED <<tab, phase, rules, vals, stack>>

(* One step of the recursion: begin the next argument, or return            *)
Recursive ==
  /\ phase = "recursive" /\ ~failed /\ stack # <<>>
  /\ LET top  == stack[Len(stack)]
         i    == top.n
         rest == SubSeq(stack, 1, Len(stack) - 1)
         ret(v) == IF rest = <<>> THEN <<>> ELSE [rest EXCEPT ![Len(rest)].a = Append(@, v)]
     IN IF IsAtom(tab[i]) \/ Len(top.a) = Len(Args(tab[i]))
        THEN LET v == IF IsAtom(tab[i]) THEN AtomVal(i) ELSE OpVal(HeadOf(tab[i]), top.a)
             IN /\ failed' = (v = -1)
                /\ stack' = ret(v)
                /\ val' = IF rest = <<>> THEN [val EXCEPT ![Root] = v] ELSE val
                /\ calls' = IF IsAtom(tab[i]) THEN calls ELSE Append(calls, Call(HeadOf(tab[i]), top.a))
        ELSE /\ stack' = Append(stack, [n |-> Args(tab[i])[Len(top.a) + 1], a |-> <<>>])
             /\ UNCHANGED <<failed, val, calls>>
  /\ UNCHANGED <<tab, phase, rules, vals>>

Next == GrowStep \/ Start \/ Forward \/ Recursive
Spec == Init /\ [][Next]_vars

Ended == phase # "grow" /\ (failed \/ val[Root] # -1)
Why   == Causes(tab, rules, vals, Root)

ValueOK == phase # "grow" /\ val[Root] >= 0 => Why = {} /\ val[Root] = EvalSeq(tab, rules, vals, Root)[Root]
FailOK  == failed => Why # {}
OnceOK  == phase = (IF Flaw = "tree" THEN "recursive" ELSE "forward") /\ val[Root] >= 0 =>
              SameBag(calls, CallSeq(tab, rules, vals, Root))
=============================================================================
