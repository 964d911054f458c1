-------------------------------- MODULE Grow --------------------------------
(* Building expressions step by step: every table reachable by appending    *)
(* at most MaxNodes compounds to a base of symbols, functions and integers. *)
(* The design models explore these tables; the same exploration generates   *)
(* scripts for the real library.                                            *)
EXTENDS Terms, TLC, Json

CONSTANTS MaxNodes,     \* compounds
          MaxArity,
          NSyms,        \* symbols x1 .. xn
          HeadNames,    \* heads used: names of functions
          IntLits,      \* integers used as operands; 900 + n stands for -n
          Gen,          \* print scripts for the library?
          OddHeads      \* may symbols and compounds be heads, heads be operands?

VARIABLE tab

SymNames == <<"x", "y", "z", "t">>
BaseHeads == {"Add", "Mul", "pow", "sin", "cos", "List"}

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : TRUE IN <<m>> \o SetSeq(S \ {m})

IntName(n) == ToString(n)
Lits == {IF n > 900 THEN 900 - n ELSE n : n \in IntLits}

Base ==
  LET syms == [i \in 1..NSyms |-> AtomNode("Symbol", SymNames[i])]
      fs   == SetSeq(HeadNames \ BaseHeads)
      ints == SetSeq(Lits \ {0, 1, -1})
  IN Prefix9 \o syms \o [i \in 1..Len(fs) |-> AtomNode("Function", fs[i])]
             \o [i \in 1..Len(ints) |-> IntNode(IntName(ints[i]), ints[i])]

SymIds    == {i \in 1..Len(tab) : tab[i].ty = "Symbol"}
HeadIds   == {i \in 1..Len(tab) : tab[i].ty = "Function" /\ tab[i].nm \in HeadNames}
IntIds    == {i \in 1..Len(tab) : tab[i].ty = "Integer" /\ tab[i].x \in Lits}
CompIds   == {i \in 1..Len(tab) : ~IsAtom(tab[i])}
Operands  == SymIds \cup IntIds \cup CompIds \cup (IF OddHeads THEN HeadIds ELSE {})
Heads     == HeadIds \cup (IF OddHeads THEN SymIds \cup CompIds ELSE {})
Root       == Len(tab)

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

(* Allowed(h, args) restricts arities where a head has a fixed one          *)
FixedArity(h, args) ==
  CASE h \in {SIN, COS} -> Len(args) = 1
    [] h = POW -> Len(args) = 2
    [] OTHER -> TRUE

(* Scripts are printed as the nodes after the first nine and a query        *)
Brief == [k \in 1..(Len(tab) - 9) |->
            IF IsAtom(tab[k + 9]) THEN <<tab[k + 9].ty, tab[k + 9].nm>> ELSE tab[k + 9].ch]
Emit(query) == IF Gen THEN PrintT(ToJson([table |-> Brief, q |-> query])) ELSE TRUE

GrowInit == tab = Base
Grow ==
  /\ Cardinality(CompIds) < MaxNodes
  /\ \E h \in Heads : \E args \in SeqsUpTo(Operands, MaxArity) :
        /\ FixedArity(h, args)
        /\ Find(tab, CompNode(<<h>> \o args)) = 0
        /\ tab' = Append(tab, CompNode(<<h>> \o args))
=============================================================================
