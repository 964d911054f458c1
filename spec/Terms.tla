------------------------------- MODULE Terms -------------------------------
(* Expressions as tables of distinct nodes.                                 *)
(*                                                                          *)
(* A table is a sequence of nodes without repetition in which the children  *)
(* of a node come before it, so that a node is identified by its position   *)
(* (its id) and two expressions have the same structure iff their ids are   *)
(* equal.  Atoms have a kind `ty`, a printed value `nm` and, for integers,  *)
(* the value modulo P and Q and exactly (`p`, `q`, `x`).  The children      *)
(* `ch` of a compound are its head followed by its arguments.               *)
(*                                                                          *)
(* The first nine nodes of every table are fixed.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

P   == 46337                 \* a prime whose squares fit 32 bits
Q   == P - 1                 \* exponents count modulo P - 1
NOX == -2000000000           \* "exact value not known"

AtomNode(ty, nm) == [ty |-> ty, nm |-> nm, p |-> 0, q |-> 0, x |-> NOX, ch |-> <<>>]
IntNode(nm, n)   == [ty |-> "Integer", nm |-> nm, p |-> n % P, q |-> n % Q, x |-> n, ch |-> <<>>]
CompNode(ch)     == [ty |-> "", nm |-> "", p |-> 0, q |-> 0, x |-> NOX, ch |-> ch]

ADD == 1    MUL == 2    POW == 3    SIN == 4    COS == 5    LIST == 6
ZERO == 7   ONE == 8    NEG == 9

Prefix9 ==
  << AtomNode("Function", "Add"), AtomNode("Function", "Mul"), AtomNode("Function", "pow"),
     AtomNode("Function", "sin"), AtomNode("Function", "cos"), AtomNode("Function", "List"),
     IntNode("0", 0), IntNode("1", 1), IntNode("-1", -1) >>

IsAtom(n)  == n.ch = <<>>
Args(n)    == Tail(n.ch)
HeadOf(n)  == Head(n.ch)

WellFormed(tab) ==
  /\ Len(tab) >= 9 /\ SubSeq(tab, 1, 9) = Prefix9
  /\ \A i \in 1..Len(tab) : \A c \in 1..Len(tab[i].ch) : tab[i].ch[c] \in 1..(i - 1)
  /\ Cardinality({tab[i] : i \in 1..Len(tab)}) = Len(tab)

-----------------------------------------------------------------------------
(* Looking a node up, adding it when it is not there.  Operators building   *)
(* expressions pass the table along: [tab, id].                             *)

Find(tab, node) == SelectInSeq(tab, LAMBDA n : n = node)

Mk(tab, node) ==
  LET i == Find(tab, node)
  IN  IF i # 0 THEN [tab |-> tab, id |-> i]
      ELSE [tab |-> Append(tab, node), id |-> Len(tab) + 1]

MkComp(tab, ch) == Mk(tab, CompNode(ch))

(* Make a term given as nodes referring to earlier ones, see Session.       *)

-----------------------------------------------------------------------------
(* Reachability.  `heads` says whether heads count as subexpressions;       *)
(* nodes in `excl` are left out together with what is only reachable        *)
(* through them.                                                            *)

Below(tab, i, heads) ==
  IF IsAtom(tab[i]) THEN {} ELSE IF heads THEN ToSet(tab[i].ch) ELSE ToSet(Args(tab[i]))

Down(n) == [j \in 1..n |-> n + 1 - j]

ReachEx(tab, e, heads, excl) ==
  FoldLeft(LAMBDA S, i : IF i \in S THEN S \cup (Below(tab, i, heads) \ excl) ELSE S,
           {e} \ excl, Down(e))

Reach(tab, e)    == ReachEx(tab, e, FALSE, {})     \* subexpressions
ReachAll(tab, e) == ReachEx(tab, e, TRUE, {})      \* heads included

(* Everything that an object refers to, as a set closed downwards           *)
Closure(tab, ids) ==
  LET top == FoldLeft(LAMBDA m, i : IF i \in ids /\ i > m THEN i ELSE m, 0, Down(Len(tab)))
  IN FoldLeft(LAMBDA S, i : IF i \in S THEN S \cup ToSet(tab[i].ch) ELSE S, ids, Down(top))

(* Sequence of booleans: does node i have v among its subexpressions?       *)
DependsSeq(tab, v) ==
  FoldLeftDomain(LAMBDA acc, i : Append(acc, i = v \/ \E c \in Below(tab, i, FALSE) : acc[c]),
                 <<>>, tab)

-----------------------------------------------------------------------------
(* A listing of subexpressions: each once, arguments first, root last.      *)

NoRepeat(s) == Cardinality(ToSet(s)) = Len(s)

IsListing(tab, e, heads, excl, s) ==
  LET R == ReachEx(tab, e, heads, excl)
  IN  /\ NoRepeat(s)
      /\ ToSet(s) = R
      /\ \A k \in 1..Len(s) : \A c \in Below(tab, s[k], heads) \cap R :
            \E j \in 1..(k - 1) : s[j] = c
      /\ R # {} => s[Len(s)] = e

IsSplit(tab, e, excl, atoms, heads, nodes) ==
  LET R == ReachEx(tab, e, FALSE, excl)
      N == {i \in R : ~IsAtom(tab[i])}
  IN  /\ NoRepeat(atoms) /\ NoRepeat(nodes) /\ NoRepeat(heads)
      /\ ToSet(atoms) = R \ N
      /\ ToSet(nodes) = N
      /\ ToSet(heads) = {HeadOf(tab[i]) : i \in N}
      /\ \A k \in 1..Len(nodes) : \A c \in Below(tab, nodes[k], FALSE) \cap N :
            \E j \in 1..(k - 1) : nodes[j] = c
      /\ N # {} => nodes[Len(nodes)] = e

(* The graph form: a list of atoms followed by operations [h, ix] whose     *)
(* indices count from 0.  Rebuilding it gives the ids of its entries.       *)
RebuildGraph(tab, atoms, ops) ==
  FoldLeft(LAMBDA acc, op :
             IF \A j \in 1..Len(op.ix) : op.ix[j] \in 0..(Len(acc.st) - 1)
             THEN LET r == MkComp(acc.tab, <<op.h>> \o
                              FoldLeft(LAMBDA s, k : Append(s, acc.st[k + 1]), <<>>, op.ix))
                  IN [tab |-> r.tab, st |-> Append(acc.st, r.id), ok |-> acc.ok]
             ELSE [tab |-> acc.tab, st |-> Append(acc.st, 0), ok |-> FALSE],
           [tab |-> tab, st |-> atoms, ok |-> TRUE], ops)

IsGraph(tab, e, atoms, heads, ops) ==
  LET b == RebuildGraph(tab, atoms, ops)
  IN  /\ b.ok
      /\ Len(b.tab) = Len(tab)
      /\ \A k \in 1..Len(atoms) : IsAtom(tab[atoms[k]])
      /\ NoRepeat(b.st) /\ ToSet(b.st) = Reach(tab, e) /\ b.st[Len(b.st)] = e
      /\ NoRepeat(heads)
      /\ ToSet(heads) = {ops[k].h : k \in 1..Len(ops)}

-----------------------------------------------------------------------------
(* Counts with multiplicity, modulo m                                       *)

SumMod(s, m) == FoldLeft(LAMBDA a, b : (a + b) % m, 0, s)
SeqMap(F(_), s) == FoldLeft(LAMBDA a, y : Append(a, F(y)), <<>>, s)

TreeCountSeq(tab, m) ==
  FoldLeftDomain(LAMBDA acc, i :
      Append(acc, IF IsAtom(tab[i]) THEN 1 % m
                  ELSE (1 + SumMod(SeqMap(LAMBDA c : acc[c], Args(tab[i])), m)) % m),
      <<>>, tab)

-----------------------------------------------------------------------------
(* Bottom-up rebuilding: F(tab, i, ch) gives the [tab, id] that replaces    *)
(* compound node i once its children have become ch.  Only nodes in R are   *)
(* rebuilt; `map` holds the replacement of every node (0: not in R).        *)

Rebuild(tab, e, R, init, F(_, _, _)) ==
  FoldLeft(LAMBDA acc, i :
     IF i \notin R THEN [acc EXCEPT !.map = Append(@, i)]
     ELSE IF init[i] # 0 THEN [acc EXCEPT !.map = Append(@, init[i])]
     ELSE IF IsAtom(tab[i]) THEN [acc EXCEPT !.map = Append(@, i)]
     ELSE LET r == F(acc.tab, i, SeqMap(LAMBDA c : acc.map[c], tab[i].ch))
          IN [tab |-> r.tab, map |-> Append(acc.map, r.id)],
     [tab |-> tab, map |-> <<>>], [i \in 1..e |-> i])

(* Simultaneous substitution of reps[j] for targs[j] (distinct)             *)
Subst(tab, e, targs, reps) ==
  LET init == FoldLeftDomain(LAMBDA acc, i :
                 LET j == SelectInSeq(targs, LAMBDA t : t = i)
                 IN Append(acc, IF j = 0 THEN 0 ELSE reps[j]), <<>>, tab)
      R    == ReachEx(tab, e, TRUE, ToSet(targs)) \cup {e}
      b    == Rebuild(tab, e, R \cup ToSet(targs), init,
                      LAMBDA t, i, ch : IF ch = tab[i].ch THEN [tab |-> t, id |-> i] ELSE MkComp(t, ch))
  IN [tab |-> b.tab, id |-> b.map[e]]

(* Left-grouped binary form of sums and products                            *)
LeftFold(tab, h, args) ==
  IF args = <<>> THEN [tab |-> tab, id |-> IF h = ADD THEN ZERO ELSE ONE]
  ELSE FoldLeft(LAMBDA acc, y : MkComp(acc.tab, <<h, acc.id, y>>),
                [tab |-> tab, id |-> Head(args)], Tail(args))

NoInit(tab) == [i \in 1..Len(tab) |-> 0]

BinExpand(tab, e) ==
  LET b == Rebuild(tab, e, Reach(tab, e), NoInit(tab),
             LAMBDA t, i, ch :
               IF HeadOf(tab[i]) \in {ADD, MUL}
               THEN LeftFold(t, HeadOf(tab[i]), Tail(ch))
               ELSE MkComp(t, <<HeadOf(tab[i])>> \o Tail(ch)))
  IN [tab |-> b.tab, id |-> b.map[e]]

AllBinary(tab, e) ==
  \A i \in Reach(tab, e) : (~IsAtom(tab[i]) /\ HeadOf(tab[i]) \in {ADD, MUL}) => Len(tab[i].ch) = 3

(* A rewriting pass.  Rules for heads: [h, kind, to] where the new node is  *)
(*   "rehead": to(args)      "rev": h(reversed args)    "wrap": to(h(args)) *)
(*   "first": first argument "const": to                "dup": h(args,args) *)
(* and for atoms: [id, to], any atom without a rule stays.                  *)
ApplyRule(t, rule, ch) ==
  CASE rule.kind = "rehead" -> MkComp(t, <<rule.to>> \o Tail(ch))
    [] rule.kind = "rev"    -> MkComp(t, <<Head(ch)>> \o Reverse(Tail(ch)))
    [] rule.kind = "wrap"   -> LET r == MkComp(t, ch) IN MkComp(r.tab, <<rule.to, r.id>>)
    [] rule.kind = "first"  -> [tab |-> t, id |-> IF Len(ch) > 1 THEN ch[2] ELSE rule.to]
    [] rule.kind = "const"  -> [tab |-> t, id |-> rule.to]
    [] rule.kind = "dup"    -> MkComp(t, ch \o Tail(ch))

Transform(tab, e, hrules, arules) ==
  LET last(s, i) == SelectLastInSeq(s, LAMBDA r : r.h = i)
      init == FoldLeftDomain(LAMBDA acc, i :
                 LET j == last(arules, i)
                 IN Append(acc, IF j = 0 \/ ~IsAtom(tab[i]) THEN 0 ELSE arules[j].to), <<>>, tab)
      b == Rebuild(tab, e, Reach(tab, e), init,
             LAMBDA t, i, ch :
               LET ch2 == <<HeadOf(tab[i])>> \o Tail(ch)
                   j   == last(hrules, HeadOf(tab[i]))
               IN IF j = 0 THEN MkComp(t, ch2) ELSE ApplyRule(t, hrules[j], ch2))
  IN [tab |-> b.tab, id |-> b.map[e]]
=============================================================================
