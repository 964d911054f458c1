------------------------------- MODULE Differ -------------------------------
(* Histories of rules on several differentiators, some malformed.  Each     *)
(* keeps a table from head and position to a parametrised expression; the   *)
(* derivative is built bottom up by substituting arguments into the         *)
(* tables' expressions.  It must mean what Duals says for the accepted      *)
(* rules, after every history, also for expressions differentiated before.  *)
EXTENDS Duals, TLC, Json

CONSTANTS NDf, MaxLen, Flaw, Gen
(* Flaw: "none", "sequential", "head", "first", "leak", "badwrites", "remembered", "position" *)

VARIABLES tables, hist, script, memo
vars == <<tables, hist, script, memo>>

F == 10  H == 11  X == 12  Y == 13  A == 14  B == 15
Base == Prefix9 \o
  <<AtomNode("Function", "f"), AtomNode("Function", "h"), AtomNode("Symbol", "x"), AtomNode("Symbol", "y"),
    AtomNode("Wild", "a"), AtomNode("Wild", "b"),
    CompNode(<<F, A>>), CompNode(<<MUL, A, B>>), CompNode(<<H, B, A>>),                  \* 16 17 18: bodies
    CompNode(<<F, X>>), CompNode(<<H, X, Y>>), CompNode(<<H, 19, X>>),                   \* 19 20 21
    CompNode(<<H, B, X>>), CompNode(<<MUL, B, X>>), CompNode(<<H, 23, A>>)>>             \* 22 23 24: capture
Probes == {19, 20, 21, 22, 24}
Bodies == {A, 16, 17, 18}
Patterns == {[h |-> F, ps |-> <<A>>, sym |-> A], [h |-> H, ps |-> <<A, B>>, sym |-> A],
             [h |-> H, ps |-> <<A, B>>, sym |-> B], [h |-> H, ps |-> <<B, A>>, sym |-> A]}

None == [ps |-> <<>>, b |-> 0]
Keys == {<<F, 1>>, <<H, 1>>, <<H, 2>>}

Clean == [add |-> ADD, mul |-> MUL, zero |-> ZERO, one |-> ONE, distr |-> <<>>, rules |-> <<>>]
D(v) == [Clean EXCEPT !.rules = hist[v]]

-----------------------------------------------------------------------------
(* Building the derivative                                                  *)
Fill(t, r, args) ==
  IF Flaw = "sequential" /\ Len(args) = 2
  THEN LET one == Subst(t, r.b, <<r.ps[1]>>, <<args[1]>>) IN Subst(one.tab, one.id, <<r.ps[2]>>, <<args[2]>>)
  ELSE Subst(t, r.b, r.ps, args)

AddTerms(t, ts) ==
  CASE ts = <<>> -> [tab |-> t, id |-> ZERO]
    [] Len(ts) = 1 -> [tab |-> t, id |-> ts[1]]
    [] OTHER -> MkComp(t, <<ADD>> \o ts)

Step(t, tbl, h, args, ds) ==          \* [tab, id], id = -1 refused
  IF \E j \in 1..Len(ds) : ds[j] = -1 THEN [tab |-> t, id |-> -1]
  ELSE LET term(acc, j) ==
             IF acc.bad \/ ds[j] = ZERO THEN acc
             ELSE IF h = ADD THEN [acc EXCEPT !.ts = Append(@, ds[j])]
             ELSE IF h = MUL THEN LET m == MkComp(acc.tab, <<MUL>> \o [args EXCEPT ![j] = ds[j]])
                                  IN [acc EXCEPT !.tab = m.tab, !.ts = Append(@, m.id)]
             ELSE LET key == IF Flaw = "position" THEN <<h, 1>> ELSE <<h, j>>
                  IN IF key \notin DOMAIN tbl \/ tbl[key].b = 0 THEN [acc EXCEPT !.bad = TRUE]
                     ELSE LET p == Fill(acc.tab, tbl[key], args)
                              m == IF ds[j] = ONE THEN p ELSE MkComp(p.tab, <<MUL, p.id, ds[j]>>)
                          IN [acc EXCEPT !.tab = m.tab, !.ts = Append(@, m.id)]
           r == FoldLeft(term, [tab |-> t, ts |-> <<>>, bad |-> FALSE], [j \in 1..Len(args) |-> j])
       IN IF r.bad THEN [tab |-> t, id |-> -1] ELSE AddTerms(r.tab, r.ts)

Build(tbl, e, x) ==
  LET R == Reach(Base, e)
      b == FoldLeft(LAMBDA acc, i :
             IF i \notin R THEN [acc EXCEPT !.d = Append(@, ZERO)]
             ELSE IF IsAtom(Base[i]) THEN [acc EXCEPT !.d = Append(@, IF i = x THEN ONE ELSE ZERO)]
             ELSE LET r == Step(acc.tab, tbl, HeadOf(Base[i]), Args(Base[i]), SeqMap(LAMBDA c : acc.d[c], Args(Base[i])))
                  IN [tab |-> r.tab, d |-> Append(acc.d, r.id)],
             [tab |-> Base, d |-> <<>>], [i \in 1..e |-> i])
  IN [tab |-> b.tab, id |-> b.d[e]]

-----------------------------------------------------------------------------
Empty == [k \in Keys |-> None]
Init == tables = [v \in 1..NDf |-> Empty] /\ hist = [v \in 1..NDf |-> <<>>] /\ script = <<>> /\ memo = <<>>

Note(a) == /\ script' = Append(script, a)
           /\ Gen /\ Len(script) + 1 = MaxLen => PrintT(ToJson([q |-> Append(script, a)]))

Pos(p) == SelectInSeq(p.ps, LAMBDA q : q = p.sym)

Put(v, p, b) ==
  LET k == <<p.h, IF Flaw = "head" THEN 1 ELSE Pos(p)>>
      at == IF Flaw = "leak" THEN 1..NDf ELSE {v}
  IN tables' = [w \in 1..NDf |->
        IF w \in at /\ ~(Flaw = "first" /\ tables[w][k].b # 0) THEN [tables[w] EXCEPT ![k] = [ps |-> p.ps, b |-> b]]
        ELSE tables[w]]

Register ==
  \E v \in 1..NDf, p \in Patterns, b \in Bodies :
     /\ p.h = F => b \in {A, 16}
     /\ Put(v, p, b)
     /\ hist' = [hist EXCEPT ![v] = Append(@, [h |-> p.h, i |-> Pos(p), ps |-> p.ps, b |-> b])]
     /\ Note([v |-> v, p |-> p, b |-> b, ok |-> TRUE])

Malformed ==
  \E v \in 1..NDf, p \in Patterns :
     /\ IF Flaw = "badwrites" THEN Put(v, p, A) ELSE UNCHANGED tables
     /\ UNCHANGED hist
     /\ Note([v |-> v, p |-> p, b |-> A, ok |-> FALSE])

Next == /\ Len(script) < MaxLen
        /\ Register \/ Malformed
        /\ memo' = IF Flaw = "remembered" /\ memo = <<>> /\ script # <<>> THEN <<tables>> ELSE memo
Spec == Init /\ [][Next]_vars

Now(v) == IF Flaw = "remembered" /\ Len(memo) > 0 /\ \E k \in Keys : memo[1][v][k].b # 0 THEN memo[1][v] ELSE tables[v]

MeansOK ==
  \A v \in 1..NDf : \A e \in Probes :
     LET r == Build(Now(v), e, X)
         vs == [k \in 1..K |-> ValuesD(r.tab, Clean, k)]
         ds == [k \in 1..K |-> DualsD(Base, D(v), vs[k], e, X)]
     IN IF r.id = -1 THEN MayRefuse(Base, D(v), ds[1], e)
        ELSE \A k \in 1..K : ds[k][e].n = vs[k][r.id].p
=============================================================================
