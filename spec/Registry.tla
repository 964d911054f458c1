------------------------------ MODULE Registry ------------------------------
(* Histories of registrations on several evaluators, some malformed.        *)
(* Every evaluator keeps tables (one entry for each head and kind of atom,  *)
(* and the two generic rules); `hist` is what was accepted.  What the       *)
(* tables give must be what the last registrations say, for every           *)
(* evaluator, after every history.                                          *)
EXTENDS Rules, TLC, Json

CONSTANTS NEv, MaxLen, Flaw, Gen   \* Flaw: "none", "shared", "first", "badwrites", "generic"

VARIABLES tables, hist, script
vars == <<tables, hist, script>>

(* f(x), g(x, 2), f(g(x, 2), f(x))                                          *)
tab == Prefix9 \o <<AtomNode("Function", "f"), AtomNode("Function", "g"), AtomNode("Symbol", "x"),
                    IntNode("2", 2), CompNode(<<10, 12>>), CompNode(<<11, 12, 13>>), CompNode(<<10, 15, 14>>)>>
Probes == {12, 13, 14, 15, 16}

Targets == {<<"op", "", 10>>, <<"op", "", 11>>, <<"atom", "Symbol", 0>>, <<"atom", "Integer", 0>>,
            <<"agen", "", 0>>, <<"ogen", "", 0>>}
TargetOf(r) == <<r.k, r.ty, r.h>>
RuleFor(t, salt) == [k |-> t[1], ty |-> t[2], h |-> t[3], mode |-> IF t[1] = "op" THEN "many" ELSE "",
                     f |-> "hash", salt |-> salt, e |-> 0]

Empty == [t \in Targets |-> 0]         \* 0: no rule

Init == tables = [v \in 1..NEv |-> Empty] /\ hist = [v \in 1..NEv |-> <<>>] /\ script = <<>>

Victims(v) == IF Flaw = "shared" THEN 1..NEv ELSE {v}

Put(v, t, salt) ==
  tables' = [w \in 1..NEv |->
      IF w \in Victims(v) /\ ~(Flaw = "first" /\ tables[w][t] # 0) THEN [tables[w] EXCEPT ![t] = salt] ELSE tables[w]]

Note(a) == /\ script' = Append(script, a)
           /\ Gen /\ Len(script) + 1 = MaxLen => PrintT(ToJson([q |-> Append(script, a)]))

Register ==
  \E v \in 1..NEv, t \in Targets :
     LET salt == Len(script) + 1
     IN /\ Put(v, t, salt)
        /\ hist' = [hist EXCEPT ![v] = Append(@, RuleFor(t, salt))]
        /\ Note([v |-> v, t |-> t, ok |-> TRUE])

Malformed ==
  \E v \in 1..NEv, t \in Targets :
     /\ IF Flaw = "badwrites" THEN Put(v, t, Len(script) + 1) ELSE UNCHANGED tables
     /\ UNCHANGED hist
     /\ Note([v |-> v, t |-> t, ok |-> FALSE])

Next == Len(script) < MaxLen /\ (Register \/ Malformed)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Evaluation from the tables                                               *)
Pick(v, t, g) == IF Flaw = "generic" /\ tables[v][g] # 0 THEN <<g, tables[v][g]>>
                 ELSE IF tables[v][t] # 0 THEN <<t, tables[v][t]>>
                 ELSE <<g, tables[v][g]>>

TableEval(v, e) ==      \* -1: fails
  FoldLeft(LAMBDA acc, i :
     IF IsAtom(tab[i])
     THEN IF tab[i].ty = "Function" THEN Append(acc, -1)
          ELSE LET r == Pick(v, <<"atom", tab[i].ty, 0>>, <<"agen", "", 0>>)
               IN Append(acc, IF r[2] = 0 THEN -1 ELSE HashM(r[2], <<i>>))
     ELSE LET h == HeadOf(tab[i])
              a == SeqMap(LAMBDA c : acc[c], Args(tab[i]))
              r == Pick(v, <<"op", "", h>>, <<"ogen", "", 0>>)
          IN Append(acc, IF r[2] = 0 \/ \E j \in 1..Len(a) : a[j] = -1 THEN -1
                         ELSE HashM(r[2], IF r[1][1] = "ogen" THEN <<h>> \o a ELSE a)),
     <<>>, [i \in 1..e |-> i])[e]

LatestWins ==
  \A v \in 1..NEv : \A e \in Probes :
     IF Causes(tab, hist[v], <<>>, e) # {} THEN TableEval(v, e) = -1
     ELSE TableEval(v, e) = EvalSeq(tab, hist[v], <<>>, e)[e]
=============================================================================
