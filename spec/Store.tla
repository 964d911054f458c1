-------------------------------- MODULE Store --------------------------------
(* The store of unique objects.  Objects live at addresses of a small       *)
(* memory and know their children by address; a table leads from what an    *)
(* object is made of (its key) to its address without keeping it alive.     *)
(* Callers build expressions, which looks every part up before making it,   *)
(* and drop them, which frees what nothing held refers to; freed addresses  *)
(* are used again.  `held` is what callers hold, with what they asked for.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS NAddr, MaxLen, MaxHeld, Gen,
          Flaw      \* "none", "name", "set", "class", "stale", "leak", "weak", "blind"

VARIABLES mem, table, held, script
vars == <<mem, table, held, script>>

(* Structures: atoms (kind, value), compounds and wrappers of two classes   *)
At(kind, v) == [k |-> "atom", v |-> kind, w |-> v, ch |-> <<>>]
Co(ch)      == [k |-> "comp", v |-> "", w |-> "", ch |-> ch]
Wr(cls, s)  == [k |-> "wrap", v |-> cls, w |-> "", ch |-> <<s>>]

a1 == At("1:Integer", "x")      \* two kinds of the same name
a2 == At("2:Integer", "x")
Universe == {a1, a2, Co(<<a1, a2>>), Co(<<a2, a1>>), Co(<<Co(<<a1, a2>>), a1>>), Wr("C", Co(<<a1, a2>>)),
             Wr("D", Co(<<a1, a2>>)), Wr("C", a1)}

Free == [k |-> "free", v |-> "", w |-> "", ch |-> <<>>]
Addr == 1..NAddr

KeyOf(n) ==
  CASE Flaw = "name" /\ n.k = "atom" -> [n EXCEPT !.v = "Integer"]
    [] Flaw = "class" /\ n.k = "wrap" -> [n EXCEPT !.v = ""]
    [] Flaw = "set" /\ n.k = "comp" -> [n EXCEPT !.ch = SetToSortSeq(ToSet(n.ch), <)]
    [] OTHER -> n

Fresh(m) == {a \in Addr : m[a] = Free}

RECURSIVE Intern(_, _)      \* [mem, table, at]; at = 0 when the memory is full
Intern(st, s) ==
  LET sub == FoldLeft(LAMBDA acc, c : IF acc.st.at = 0 THEN acc
                                      ELSE LET r == Intern(acc.st, c) IN [st |-> r, as |-> Append(acc.as, r.at)],
                      [st |-> [st EXCEPT !.at = 1], as |-> <<>>], s.ch)
  IN IF sub.st.at = 0 THEN sub.st
     ELSE LET node == [s EXCEPT !.ch = sub.as]
              key == KeyOf(node)
              hits == IF Flaw = "blind" THEN {} ELSE {e \in sub.st.table : e.key = key}
          IN IF hits # {} THEN [sub.st EXCEPT !.at = (CHOOSE e \in hits : TRUE).at]
             ELSE IF Fresh(sub.st.mem) = {} THEN [sub.st EXCEPT !.at = 0]
             ELSE LET a == CHOOSE x \in Fresh(sub.st.mem) : \A y \in Fresh(sub.st.mem) : x <= y
                  IN [mem |-> [sub.st.mem EXCEPT ![a] = node],
                      table |-> sub.st.table \cup {[key |-> key, at |-> a]}, at |-> a]

RECURSIVE From(_, _)        \* addresses reachable
From(m, S) == LET T == S \cup UNION {ToSet(m[a].ch) : a \in S} IN IF T = S THEN S ELSE From(m, T)

Roots(h) == {h[i].at : i \in 1..Len(h)}

Collect(m, t, h) ==
  LET keep == IF Flaw = "leak" THEN Addr ELSE IF Flaw = "weak" THEN Roots(h) ELSE From(m, Roots(h))
  IN [mem |-> [a \in Addr |-> IF a \in keep THEN m[a] ELSE Free],
      table |-> IF Flaw = "stale" THEN t ELSE {e \in t : e.at \in keep}]

Init == mem = [a \in Addr |-> Free] /\ table = {} /\ held = <<>> /\ script = <<>>

Note(a) == /\ script' = Append(script, a)
           /\ Gen /\ Len(script) + 1 = MaxLen => PrintT(ToJson([q |-> Append(script, a)]))

Build ==
  \E s \in Universe :
     LET r == Intern([mem |-> mem, table |-> table, at |-> 1], s)
     IN /\ Len(held) < MaxHeld
        /\ r.at # 0
        /\ held' = Append(held, [at |-> r.at, s |-> s])
        /\ LET c == Collect(r.mem, r.table, held') IN mem' = c.mem /\ table' = c.table
        /\ Note([do |-> "build", s |-> s, i |-> 0])

Drop ==
  \E i \in 1..Len(held) :
     /\ held' = RemoveAt(held, i)
     /\ LET c == Collect(mem, table, held') IN mem' = c.mem /\ table' = c.table
     /\ Note([do |-> "drop", s |-> a1, i |-> i])

Next == Len(script) < MaxLen /\ (Build \/ Drop)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Unfold(_, _)
Unfold(a, d) == IF d = 0 THEN Free ELSE [mem[a] EXCEPT !.ch = [j \in DOMAIN mem[a].ch |-> Unfold(mem[a].ch[j], d - 1)]]

Live == {a \in Addr : mem[a] # Free}
Unique == \A a, b \in Live : Unfold(a, 5) = Unfold(b, 5) => a = b
Intact == \A i \in 1..Len(held) : Unfold(held[i].at, 5) = held[i].s
Reclaimed == Live = From(mem, Roots(held))
=============================================================================
