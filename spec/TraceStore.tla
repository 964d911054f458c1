----------------------------- MODULE TraceStore -----------------------------
(* Recorded histories of building, copying, taking apart, using and         *)
(* dropping expressions.  A register holds an object: its level ("atom",    *)
(* "tree" or the name of a symbolic class) and its structure.  What must    *)
(* hold at every point: same level and structure iff the same object; what  *)
(* is alive is what the registers need.                                     *)
EXTENDS Terms, Json, IOUtils, TLC

Sessions == JsonDeserialize(IOEnv.TRACES)

VARIABLES s, l, regs, bad
vars == <<s, l, regs, bad>>

tab == Sessions[s].tab
If(c, name) == IF c THEN {} ELSE {name}

(* What is held is an expression, or something else about the children of  *)
(* a node: a matrix about its nonzero entries                               *)
Holders == {"Matrix", "Function", "Compiled", "Graph"}
About(r) == ToSet(Tail(tab[regs[r].i].ch))

NoReg == [l |-> "", i |-> 0]
Held(r) == regs[r].l # ""
HeldSet == {r \in 1..Len(regs) : Held(r)}

(* What an operation must give: a level and a node                          *)
RightResult(ev) ==
  LET x == ev.res
      a == [k \in 1..Len(ev.a) |-> regs[ev.a[k]]]
  IN CASE ev.how = "atom" -> x.l = ev.l /\ tab[x.i] = ev.node
       [] ev.how = "comp" -> x.l = ev.l /\ tab[x.i].ty = "" /\ Len(tab[x.i].ch) = Len(a)
                             /\ \A k \in 1..Len(a) : tab[x.i].ch[k] = a[k].i
       [] ev.how \in {"wrap", "unwrap"} -> x.l = ev.l /\ x.i = a[1].i
       [] ev.how = "same" -> x = a[1]
       [] ev.how = "child" -> x.l = a[1].l /\ x.i = tab[a[1].i].ch[ev.j]
       [] ev.how = "hold" ->
            /\ x.l = ev.l
            /\ Tail(tab[x.i].ch) = [k \in 1..Len(SelectSeq(a, LAMBDA b : b.i # ZERO)) |->
                                      SelectSeq(a, LAMBDA b : b.i # ZERO)[k].i]
       [] ev.how = "any" -> x.l = ev.l
       [] OTHER -> FALSE

MkVerdict(ev) ==
  IF ev.res.i = 0 THEN IF ev.how = "any" THEN {} ELSE {"C01.failed"}
  ELSE If(RightResult(ev), "C01.build")

(* Pairs of registers that hold one object, that are equal, with equal hash *)
CheckVerdict(ev) ==
  LET rs == {h.r : h \in ToSet(ev.held)}
      same(p, q) == regs[p] = regs[q]
      pairs == {p \in rs \X rs : p[1] < p[2]}
      want == {p \in pairs : same(p[1], p[2])}
      got(q) == {<<p[1], p[2]>> : p \in ToSet(q)}
  IN If(rs = {r \in HeldSet : regs[r].l \notin Holders}, "any.held")
     \cup If(\A m \in ToSet(ev.mats) : regs[m.r] = [l |-> "Matrix", i |-> m.i], "C03.changed")
     \cup If(\A h \in ToSet(ev.held) : regs[h.r] = [l |-> h.l, i |-> h.i], "C03.changed")
     \cup If(want \subseteq got(ev.is), "C01.duplicate")
     \cup If(got(ev.is) \subseteq want, "C01.merged")
     \cup If(got(ev.eq) = want, "C01.equal")
     \cup If(want \subseteq got(ev.hash), "C01.hash")
     \cup If(ev.nset = Cardinality({regs[r] : r \in rs}), "C01.set")

Parts(ns) ==
  LET ids == Closure(tab, ns)
  IN {[l |-> "tree", i |-> i] : i \in ids} \cup {[l |-> "atom", i |-> i] : i \in {j \in ids : IsAtom(tab[j])}}

(* Everything an object needs                                               *)
Needs(r) ==
  CASE regs[r].l = "atom" -> {regs[r]}
    [] regs[r].l = "Matrix" -> Parts(About(r))
    [] regs[r].l \in Holders -> {}
    [] OTHER -> Parts({regs[r].i}) \cup {regs[r]}

(* What it may keep besides: what it is about, as trees or expressions, and *)
(* lists of entries of a matrix                                             *)
Keeps(r) ==
  IF regs[r].l \notin Holders THEN {}
  ELSE LET lists == {n \in 1..Len(tab) : /\ Len(tab[n].ch) > 0 /\ tab[n].ch[1] = LIST
                                         /\ ToSet(Tail(tab[n].ch)) \subseteq About(r) \cup {ZERO}}
       IN {[l |-> "Expr", i |-> i] : i \in Closure(tab, About(r)) \cup lists}
          \cup {[l |-> "tree", i |-> i] : i \in lists}
          \cup (IF regs[r].l = "Matrix" THEN {} ELSE Parts(About(r)))

LiveVerdict(ev) ==
  LET base == ToSet(Sessions[s].base)
      want == UNION {Needs(r) : r \in HeldSet} \ base
      may == UNION {Keeps(r) : r \in HeldSet}
      got == ToSet(ev.objs)
  IN If(want \subseteq got, "C03.lost")
     \cup If(got \subseteq want \cup may, "C03.garbage")
     \cup If(Len(ev.objs) = Cardinality(got), "C01.twice")

Verdict(ev) ==
  CASE ev.op = "mk" -> MkVerdict(ev)
    [] ev.op = "bad" -> If(ev.failed, "C01.accepted")
    [] ev.op = "check" -> CheckVerdict(ev)
    [] ev.op = "live" -> LiveVerdict(ev)
    [] ev.op = "grow" -> If(2 * ev.blocks < ev.n, "C03.growth")
    [] ev.op \in {"drop", "skip"} -> {}
    [] ev.op \in {"crash", "timeout"} -> {"any." \o ev.op}
    [] OTHER -> {"any.unknown"}

Init == s \in 1..Len(Sessions) /\ l = 0 /\ regs = <<>> /\ bad = {}

Load == l = 0 /\ l' = 1 /\ bad' = (IF WellFormed(tab) THEN {} ELSE {<<0, "any.table">>}) /\ UNCHANGED <<s, regs>>

Event ==
  /\ l > 0 /\ l <= Len(Sessions[s].ev)
  /\ LET ev == Sessions[s].ev[l]
     IN /\ bad' = bad \cup {<<l, c>> : c \in Verdict(ev)}
        /\ regs' = CASE ev.op = "mk" -> Append(regs, IF ev.res.i = 0 THEN NoReg ELSE ev.res)
                     [] ev.op = "drop" -> [regs EXCEPT ![ev.r] = NoReg]
                     [] OTHER -> regs
  /\ l' = l + 1
  /\ UNCHANGED s

Done == l > Len(Sessions[s].ev) /\ l > 0 /\ l' = -1 /\ PrintT(ToJson([verdict |-> s, bad |-> bad]))
        /\ UNCHANGED <<s, regs, bad>>

Next == Load \/ Event \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
