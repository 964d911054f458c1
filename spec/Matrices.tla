------------------------------ MODULE Matrices ------------------------------
(* Sparse matrices: a matrix refers to a map from positions to places in    *)
(* its list of elements.  Sums start from copies of the first operand's map *)
(* and elements, derivatives share the map of their operand.  Every matrix  *)
(* carries the dense matrix it stands for, computed from the definition of  *)
(* the operation; the sparse matrix must show the same at all times.        *)
EXTENDS Session, Json, TLC

CONSTANTS Shapes,      \* pairs coded 10 * rows + columns
          MaxMats, MaxNew, Gen,
          Flaw         \* "none"; "alias": sums change the map of their operand; "append": a sum forgets entries

VARIABLES tab, maps, mats, hist
vars == <<tab, maps, mats, hist>>

X == 10     \* symbol x
Y == 11     \* symbol y
Table0 == Prefix9 \o << AtomNode("Symbol", "x"), AtomNode("Symbol", "y"),
                        CompNode(<<MUL, 10, 11>>), CompNode(<<SIN, 10>>) >>
EntryIds == {ZERO, ONE, X, 12, 13}

Init == tab = Table0 /\ maps = <<>> /\ mats = <<>> /\ hist = <<>>

Pos(nr, nc) == (0..(nr - 1)) \X (0..(nc - 1))
At(m, i, j) == IF <<i, j>> \in DOMAIN maps[m.map] 
               THEN LET n == maps[m.map][<<i, j>>] IN IF n > Len(m.els) THEN NEG ELSE m.els[n]
               ELSE ZERO
Show(m) == [n \in 1..(m.nr * m.nc) |-> At(m, (n - 1) \div m.nc, (n - 1) % m.nc)]

News == Cardinality({k \in 1..Len(hist) : hist[k].op = "mat"})

New ==
  /\ News < MaxNew
  /\ \E sh \in Shapes : LET nr == sh \div 10  nc == sh % 10 IN
     \E d \in [1..(nr * nc) -> EntryIds] :
       LET r == FoldLeft(LAMBDA acc, n : IF d[n] = ZERO THEN acc
                    ELSE [els |-> Append(acc.els, d[n]),
                          map |-> (<<(n - 1) \div nc, (n - 1) % nc>> :> (Len(acc.els) + 1)) @@ acc.map],
                  [els |-> <<>>, map |-> <<>>], [n \in 1..(nr * nc) |-> n])
       IN /\ maps' = Append(maps, r.map)
          /\ mats' = Append(mats, [nr |-> nr, nc |-> nc, els |-> r.els, map |-> Len(maps) + 1, dense |-> d])
          /\ hist' = Append(hist, [op |-> "mat", a |-> d, x |-> nr, y |-> nc])
  /\ UNCHANGED tab

RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : TRUE IN <<m>> \o SetToSeq2(S \ {m})

Sum ==
  \E a \in 1..Len(mats) : \E b \in 1..Len(mats) :
   LET x == mats[a]  y == mats[b]
       ym == maps[y.map]
       dense == FoldLeftDomain(LAMBDA acc, n :
                   IF x.dense[n] = ZERO THEN [acc EXCEPT !.d = Append(@, y.dense[n])]
                   ELSE IF y.dense[n] = ZERO THEN [acc EXCEPT !.d = Append(@, x.dense[n])]
                   ELSE LET r == MkComp(acc.tab, <<ADD, x.dense[n], y.dense[n]>>)
                        IN [tab |-> r.tab, d |-> Append(acc.d, r.id)], [tab |-> tab, d |-> <<>>], x.dense)
       res == FoldLeft(LAMBDA acc, ij :
                 IF ij \in DOMAIN acc.map
                 THEN LET r == MkComp(acc.tab, <<ADD, acc.els[acc.map[ij]], y.els[ym[ij]]>>)
                      IN [acc EXCEPT !.tab = r.tab, !.els[acc.map[ij]] = r.id]
                 ELSE [acc EXCEPT !.els = Append(@, y.els[ym[ij]]),
                                  !.map = (ij :> (Len(acc.els) + 1)) @@ acc.map],
               [tab |-> dense.tab, els |-> x.els, map |-> maps[x.map]], SetToSeq2(DOMAIN ym))
   IN IF x.nr # y.nr \/ x.nc # y.nc
      THEN /\ hist' = Append(hist, [op |-> "madd", a |-> <<>>, x |-> a, y |-> b])
           /\ UNCHANGED <<tab, maps, mats>>
      ELSE /\ tab' = res.tab
           /\ maps' = IF Flaw = "alias" THEN [Append(maps, res.map) EXCEPT ![x.map] = res.map]
                      ELSE Append(maps, IF Flaw = "append" THEN maps[x.map] ELSE res.map)
           /\ mats' = Append(mats, [nr |-> x.nr, nc |-> x.nc, els |-> res.els, map |-> Len(maps) + 1,
                                    dense |-> dense.d])
           /\ hist' = Append(hist, [op |-> "madd", a |-> <<>>, x |-> a, y |-> b])

Diff ==
  \E a \in 1..Len(mats) : \E v \in {X, Y} :
   LET x == mats[a]
       each(acc, e) == LET r == RuleDiff(acc.tab, e, v) IN [tab |-> r.tab, d |-> Append(acc.d, r.id)]
       els == FoldLeft(each, [tab |-> tab, d |-> <<>>], x.els)
       dense == FoldLeft(each, [tab |-> els.tab, d |-> <<>>], x.dense)
   IN /\ tab' = dense.tab
      /\ maps' = maps
      /\ mats' = Append(mats, [nr |-> x.nr, nc |-> x.nc, els |-> els.d, map |-> x.map, dense |-> dense.d])
      /\ hist' = Append(hist, [op |-> "mdiff", a |-> <<v>>, x |-> a, y |-> 0])

Brief == [k \in 1..4 |-> IF IsAtom(tab[k + 9]) THEN <<tab[k + 9].ty, tab[k + 9].nm>> ELSE tab[k + 9].ch]
EmitHist == IF Gen /\ Len(hist') = MaxMats
            THEN PrintT(ToJson([table |-> Brief', q |-> hist'])) ELSE TRUE

Next == Len(hist) < MaxMats /\ (New \/ Sum \/ Diff) /\ EmitHist
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines  == \A k \in 1..Len(mats) :
              LET vs == Values(tab) IN
              \A n \in 1..Len(mats[k].dense) : \A j \in 1..K :
                 vs[j][Show(mats[k])[n]] = vs[j][mats[k].dense[n]]
Exact    == \A k \in 1..Len(mats) : hist[k].op = "mat" /\ Len(mats) = Len(hist) => Show(mats[k]) = mats[k].dense
InRange  == \A k \in 1..Len(mats) : LET m == mats[k] IN
              /\ DOMAIN maps[m.map] \subseteq Pos(m.nr, m.nc)
              /\ \A ij \in DOMAIN maps[m.map] : maps[m.map][ij] \in 1..Len(m.els)
              /\ Cardinality(DOMAIN maps[m.map]) = Len(m.els)
              /\ \A p, q \in DOMAIN maps[m.map] : maps[m.map][p] = maps[m.map][q] => p = q
=============================================================================
