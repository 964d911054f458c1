---------------------------- MODULE Substitution ----------------------------
(* A reusable substitution function as a small machine.  Compiling an       *)
(* expression for a list of targets gives slots for the arguments, constant *)
(* parts, operations on slots, and the slot of the result.  A call runs the *)
(* operations one by one on a fresh stack.  Checked against the definition  *)
(* of simultaneous substitution (Terms!Subst) for every expression of Grow, *)
(* every list of distinct targets and sequences of calls, together with the *)
(* laws users rely on.                                                      *)
EXTENDS Grow

CONSTANTS MaxTargets, MaxCalls

VARIABLES phase, targs, code, reps, stack, pc, calls, ct
vars == <<tab, phase, targs, code, reps, stack, pc, calls, ct>>
   \* code = [consts, ops, res]; ct: table with the results of calls

(* A listing, arguments and heads first, without what is below targets      *)
RECURSIVE Walk(_, _, _)
Walk(acc, i, ex) ==
  IF i \in ToSet(acc) \/ i \in ex THEN acc
  ELSE Append(FoldLeft(LAMBDA a, c : Walk(a, c, ex), acc, tab[i].ch), i)

Compile(e, ts) ==
  LET list == Walk(<<>>, e, ToSet(ts))
      has  == FoldLeft(LAMBDA S, i : IF ToSet(tab[i].ch) \cap S # {} THEN S \cup {i} ELSE S, ToSet(ts), list)
      nodes == SelectSeq(list, LAMBDA i : i \in has)
      below == UNION {ToSet(tab[nodes[k]].ch) : k \in 1..Len(nodes)}
      consts == IF nodes = <<>> THEN (IF list = <<>> THEN <<>> ELSE <<e>>)
                ELSE SelectSeq(list, LAMBDA i : i \notin has /\ i \in below)
      slots == ts \o consts \o nodes
      slot(i) == SelectInSeq(slots, LAMBDA n : n = i)
  IN [consts |-> consts,
      ops |-> [k \in 1..Len(nodes) |-> FoldLeft(LAMBDA s, c : Append(s, slot(c)), <<>>, tab[nodes[k]].ch)],
      res |-> slot(e)]

Sub == ReachAll(tab, Root)

Init == GrowInit /\ phase = "grow" /\ targs = <<>> /\ code = <<>> /\ reps = <<>> /\ stack = <<>>
        /\ pc = 0 /\ calls = 0 /\ ct = <<>>

GrowStep == phase = "grow" /\ Grow /\ UNCHANGED <<phase, targs, code, reps, stack, pc, calls, ct>>

Make ==
  /\ phase = "grow" /\ CompIds # {}
  /\ \E ts \in SeqsUpTo(Sub \cup {CHOOSE s \in SymIds : \A r \in SymIds : r <= s}, MaxTargets) :
        /\ NoRepeat(ts)
        /\ targs' = ts
        /\ code' = Compile(Root, ts)
  /\ phase' = "ready" /\ ct' = tab
  /\ UNCHANGED <<tab, reps, stack, pc, calls>>

Replacements == SymIds \cup {ZERO, Root} \cup ToSet(targs)

Call ==
  /\ phase = "ready" /\ calls < MaxCalls
  /\ \E rs \in [1..Len(targs) -> Replacements] :
        /\ reps' = rs
        /\ stack' = rs \o code.consts
        /\ Emit([op |-> "subst", e |-> Root, ts |-> targs, rs |-> rs])
  /\ pc' = 1 /\ phase' = "run" /\ calls' = calls + 1
  /\ UNCHANGED <<tab, targs, code, ct>>

Execute ==
  /\ phase = "run" /\ pc <= Len(code.ops)
  /\ LET r == MkComp(ct, FoldLeft(LAMBDA s, k : Append(s, stack[k]), <<>>, code.ops[pc]))
     IN ct' = r.tab /\ stack' = Append(stack, r.id)
  /\ pc' = pc + 1
  /\ UNCHANGED <<tab, phase, targs, code, reps, calls>>

Return ==
  /\ phase = "run" /\ pc > Len(code.ops)
  /\ phase' = "ready"
  /\ UNCHANGED <<tab, targs, code, reps, stack, pc, calls, ct>>

Next == GrowStep \/ Make \/ Call \/ Execute \/ Return
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Want == Subst(ct, Root, targs, reps)

Correct == phase = "run" /\ pc > Len(code.ops) => Want.id = stack[code.res] /\ Want.tab = ct

SwapSeq(s) == IF Len(s) < 2 THEN s ELSE <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
OrderFree == phase = "run" => Subst(ct, Root, SwapSeq(targs), SwapSeq(reps)).id = Want.id

(* Nothing to replace, or replaced by itself: the identical expression      *)
Absent   == phase = "run" /\ (ToSet(targs) \cap Sub = {} \/ reps = targs) => Want.id = Root

(* Replacements are not searched                                            *)
WholeWins == phase = "run" => \A j \in 1..Len(targs) : targs[j] = Root => Want.id = reps[j]

(* When no replacement contains a target, no atomic target is left (a       *)
(* compound target can come back: f(x) := x in f(f(x)) gives f(x))          *)
Complete ==
  (phase = "run" /\ pc > Len(code.ops)) =>
     LET A == {t \in ToSet(targs) : IsAtom(tab[t])}
     IN (\A j \in 1..Len(reps) : ReachAll(tab, reps[j]) \cap A = {})
           => ReachAll(ct, stack[code.res]) \cap A = {}

(* Only nodes containing a target are rebuilt                               *)
Frame == \A k \in 1..Len(tab) : phase # "grow" => ct[k] = tab[k]
Minimal ==
  phase = "ready" => Len(code.ops) = Cardinality({i \in ReachEx(tab, Root, TRUE, ToSet(targs)) :
                                          ReachAll(tab, i) \cap ToSet(targs) # {} /\ i \notin ToSet(targs)
                                          /\ Closure(tab, {i}) \cap ToSet(targs) # {}})
=============================================================================
