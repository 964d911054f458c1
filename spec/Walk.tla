-------------------------------- MODULE Walk --------------------------------
(* The walk that lists subexpressions, step by step: a stack of entries     *)
(* [n, todo], the set of nodes seen so far and the listing.  Checked for    *)
(* every expression of Grow and every exclude set: the listing is right     *)
(* when the walk ends, and the number of steps is bounded by the number of  *)
(* distinct nodes and their argument places, whatever the sharing.          *)
EXTENDS Grow

CONSTANTS ExcludeMax

VARIABLES phase, heads, excl, stack, seen, out, steps
vars == <<tab, phase, heads, excl, stack, seen, out, steps>>
idle == <<heads, excl, stack, seen, out, steps>>

Kids(i, hd) == IF IsAtom(tab[i]) THEN <<>> ELSE IF hd THEN tab[i].ch ELSE Args(tab[i])

Init == GrowInit /\ phase = "grow" /\ heads = FALSE /\ excl = {} /\ stack = <<>> /\ seen = {}
        /\ out = <<>> /\ steps = 0

GrowStep == phase = "grow" /\ Grow /\ UNCHANGED <<phase, heads, excl, stack, seen, out, steps>>

Start ==
  /\ phase = "grow" /\ CompIds # {}
  /\ \E hd \in BOOLEAN : \E ex \in SUBSET ReachAll(tab, Root) :
       /\ Cardinality(ex) <= ExcludeMax
       /\ Emit([op |-> "topo", e |-> Root, heads |-> hd, ex |-> SetSeq(ex)])
       /\ heads' = hd /\ excl' = ex /\ seen' = ex
       /\ stack' = IF Root \in ex THEN <<>> ELSE <<[n |-> Root, todo |-> Kids(Root, hd)]>>
  /\ phase' = "walk" /\ out' = <<>> /\ steps' = 0
  /\ UNCHANGED tab

Visit ==
  /\ phase = "walk" /\ stack # <<>>
  /\ steps' = steps + 1
  /\ LET top == stack[Len(stack)]
     IN IF top.todo = <<>>
        THEN /\ out' = Append(out, top.n)
             /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
             /\ UNCHANGED seen
        ELSE LET c == Head(top.todo)
                 rest == [stack EXCEPT ![Len(stack)].todo = Tail(@)]
             IN /\ UNCHANGED out
                /\ IF c \in seen THEN stack' = rest /\ UNCHANGED seen
                   ELSE stack' = Append(rest, [n |-> c, todo |-> Kids(c, heads)]) /\ seen' = seen \cup {c}
  /\ UNCHANGED <<tab, phase, heads, excl>>

Finish ==
  /\ phase = "walk" /\ stack = <<>>
  /\ phase' = "done"
  /\ UNCHANGED <<tab, heads, excl, stack, seen, out, steps>>

Next == GrowStep \/ Start \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The split and the graph form are computed from a finished listing        *)
SplitAtoms == SelectSeq(out, LAMBDA i : IsAtom(tab[i]))
SplitNodes == SelectSeq(out, LAMBDA i : ~IsAtom(tab[i]))
SplitHeads == FoldLeft(LAMBDA acc, i : IF HeadOf(tab[i]) \in ToSet(acc) THEN acc ELSE Append(acc, HeadOf(tab[i])),
                       <<>>, SplitNodes)
GraphOps ==
  LET all == SplitAtoms \o SplitNodes
  IN [k \in 1..Len(SplitNodes) |->
        [h |-> HeadOf(tab[SplitNodes[k]]),
         ix |-> FoldLeft(LAMBDA s, c : Append(s, SelectInSeq(all, LAMBDA n : n = c) - 1), <<>>,
                         Args(tab[SplitNodes[k]]))]]

TypeOK == /\ ToSet(out) \subseteq seen \cup {Root}
          /\ \A k \in 1..Len(stack) : stack[k].n \in 1..Len(tab)

ListingOK == phase = "done" => IsListing(tab, Root, heads, excl, out)
SplitOK   == phase = "done" /\ ~heads => IsSplit(tab, Root, excl, SplitAtoms, SplitHeads, SplitNodes)
GraphOK   == phase = "done" /\ ~heads /\ excl = {} => IsGraph(tab, Root, SplitAtoms, SplitHeads, GraphOps)

Places(S) == FoldLeft(LAMBDA a, i : IF i \in S THEN a + 1 + Len(Kids(i, heads)) ELSE a, 0, Down(Root))
WorkOK    == steps <= Places(ReachEx(tab, Root, heads, excl))
DepthOK   == Len(stack) <= Cardinality(ReachEx(tab, Root, heads, excl))
=============================================================================
