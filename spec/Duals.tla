------------------------------- MODULE Duals -------------------------------
(* The meaning of a differentiator with user defined rules.                 *)
(*                                                                          *)
(* A differentiator is a record                                             *)
(*   add, mul, zero, one   the nodes with these meanings                    *)
(*   distr                 heads differentiated argument by argument        *)
(*   rules                 accepted rules, oldest first: [h, i, ps, b] says *)
(*                         that the partial derivative of h(ps) in its      *)
(*                         argument i is b; the last one for h, i counts    *)
(* A derivative is a dual number: [n, z]; n its value at a point (-1: not   *)
(* defined, -2: there is a rule missing), z whether the node is free of the *)
(* variable, so that the derivative is zero for sure.                       *)
EXTENDS Algebra

OpVd(d, h, vs) ==
  CASE h = d.add -> FoldLeft(AddV, IntVal(0), vs)
    [] h = d.mul -> FoldLeft(MulV, IntVal(1), vs)
    [] OTHER -> OpV(h, vs)

AtomVd(tab, d, i, k) == IF i = d.zero THEN IntVal(0) ELSE IF i = d.one THEN IntVal(1) ELSE AtomV(tab[i], i, k)

ValuesD(tab, d, k) ==
  FoldLeftDomain(LAMBDA acc, i :
    Append(acc, IF IsAtom(tab[i]) THEN AtomVd(tab, d, i, k)
                ELSE OpVd(d, HeadOf(tab[i]), SeqMap(LAMBDA c : acc[c], Args(tab[i])))), <<>>, tab)

(* The value of b when the atoms ps, all at once, have the values vs        *)
Bound(tab, d, vals, b, ps, vs) ==
  LET R == Reach(tab, b)
      at(i) == SelectInSeq(ps, LAMBDA p : p = i)
  IN FoldLeft(LAMBDA acc, i :
       Append(acc, IF i \notin R THEN UNDEF
                   ELSE IF at(i) # 0 THEN vs[at(i)]
                   ELSE IF IsAtom(tab[i]) THEN vals[i]
                   ELSE OpVd(d, HeadOf(tab[i]), SeqMap(LAMBDA c : acc[c], Args(tab[i])))),
       <<>>, [i \in 1..b |-> i])[b]

RuleAt(d, h, i) == SelectLastInSeq(d.rules, LAMBDA r : r.h = h /\ r.i = i)
IsDistr(d, h) == \E j \in 1..Len(d.distr) : d.distr[j] = h

Dual(n, z) == [n |-> n, z |-> z]
ZeroDual == Dual(0, TRUE)

SumD(s) == FoldLeft(AddD, 0, s)

NodeD(tab, d, vals, h, args, ds) ==
  LET vs == SeqMap(LAMBDA c : vals[c], args)
      ns == SeqMap(LAMBDA r : r.n, ds)
      missing == \E j \in 1..Len(ds) : ns[j] = -2
  IN IF IsDistr(d, h)
     THEN Dual(IF missing THEN -2 ELSE OpVd(d, h, SeqMap(LAMBDA n : Val(n, -1, NOX), ns)).p, FALSE)
     ELSE IF \A j \in 1..Len(ds) : ds[j].z THEN ZeroDual
     ELSE IF missing THEN Dual(-2, FALSE)
     ELSE IF h = d.add THEN Dual(SumD(ns), FALSE)
     ELSE IF h = d.mul
     THEN Dual(FoldLeftDomain(LAMBDA acc, j :
                 IF ds[j].z THEN acc ELSE AddD(acc, MulD(ns[j], ProdExcept(vs, j))), 0, vs), FALSE)
     ELSE Dual(FoldLeftDomain(LAMBDA acc, j :
                 IF ds[j].z THEN acc
                 ELSE LET r == RuleAt(d, h, j)
                      IN IF r = 0 THEN (IF ns[j] = 0 THEN acc ELSE IF ns[j] = -1 THEN AddD(acc, -1) ELSE -2)
                         ELSE AddD(acc, MulD(Bound(tab, d, vals, d.rules[r].b, d.rules[r].ps, vs).p, ns[j])),
                 0, args), FALSE)

(* Duals of the nodes 1 .. e                                                *)
DualsD(tab, d, vals, e, v) ==
  LET R == Reach(tab, e)
  IN FoldLeft(LAMBDA acc, i :
       Append(acc, IF i \notin R THEN ZeroDual
                   ELSE IF IsAtom(tab[i]) THEN (IF i = v THEN Dual(1, FALSE) ELSE ZeroDual)
                   ELSE NodeD(tab, d, vals, HeadOf(tab[i]), Args(tab[i]), SeqMap(LAMBDA c : acc[c], Args(tab[i])))),
       <<>>, [i \in 1..e |-> i])

(* Somewhere a rule is needed, unless a derivative that depends on the      *)
(* variable in form happens to be zero                                      *)
MayRefuse(tab, d, duals, e) ==
  \E i \in Reach(tab, e) :
     /\ ~IsAtom(tab[i])
     /\ LET h == HeadOf(tab[i])  a == Args(tab[i])
        IN /\ h \notin {d.add, d.mul} /\ ~IsDistr(d, h)
           /\ \E j \in 1..Len(a) : ~duals[a[j]].z /\ RuleAt(d, h, j) = 0

(* A well formed rule: a pattern h(p1 .. pn) of distinct parameters, the    *)
(* parameter sym one of them, and an expression as body                     *)
SoundRule(r) == r.form = "pair" /\ r.body /\ r.h # 0 /\ Cardinality({j \in 1..Len(r.ps) : r.ps[j] = r.sym}) = 1
PositionOf(r) == SelectInSeq(r.ps, LAMBDA p : p = r.sym)
=============================================================================
