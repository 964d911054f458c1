------------------------------ MODULE Interning ------------------------------
(* The store of unique objects used by several threads at the same time.    *)
(* Structures are numbers; structure 2 is made of structure 1, structure 3  *)
(* of structure 2 and structure 1 (0 stands for "no part").  A thread runs a *)
(* program of builds and drops.  A build makes the parts first and then     *)
(* takes the steps of the library for each object it needs: look the key up *)
(* in the table, make an object if there is none, publish it (which gives   *)
(* back what another thread published meanwhile).  An object dies as soon   *)
(* as nothing refers to it; the table only hears of it in a later step.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Threads, MaxProg, NKeys, MaxObj, Gen,
          Flaw      \* "none", "split", "overwrite", "remove", "borrow", "early"

VARIABLES obj,      \* object -> [key, parts, ready]; key 0 when not in use
          table,    \* key -> object or 0
          gone,     \* <<key, object>>: deaths the table has not heard of
          held,     \* thread -> sequence of [key, at]: finished builds
          todo,     \* thread -> rest of the program
          work,     \* thread -> keys still to be made, innermost last
          got,      \* thread -> objects obtained for this build: key -> object or 0
          pc, mine  \* thread -> step; object being made or looked up
vars == <<obj, table, gone, held, todo, work, got, pc, mine>>

Keys  == 1..NKeys
Parts(k) == CASE k = 1 -> {} [] k = 2 -> {1} [] OTHER -> {1, 2}
Order(k) == CASE k = 1 -> <<1>> [] k = 2 -> <<2, 1>> [] OTHER -> <<3, 2, 1>>
Obj   == 1..MaxObj
None  == [key |-> 0, parts |-> {}, ready |-> FALSE]

Steps == {<<"build", k>> : k \in Keys} \cup {<<"drop", 1>>}
Programs == {p \in UNION {[1..n -> Steps] : n \in 1..MaxProg} :
               \A j \in 1..Len(p) : p[j][1] = "drop" =>
                  Cardinality({i \in 1..(j - 1) : p[i][1] = "build"}) >
                  Cardinality({i \in 1..(j - 1) : p[i][1] = "drop"})}

(* What keeps objects alive: finished builds, and a thread's own variables. *)
RootsOf(h, g, m) ==
  UNION {{h[t][i].at : i \in 1..Len(h[t])} : t \in Threads}
  \cup UNION {{g[t][k] : k \in Keys} : t \in Threads}
  \cup (IF Flaw = "borrow" THEN {} ELSE {m[t] : t \in Threads})
RECURSIVE Close(_, _)
Close(o, S) == LET T == S \cup UNION {o[x].parts : x \in S \ {0}} IN IF T = S THEN S ELSE Close(o, T)

(* Objects die at once when the last reference goes.                        *)
Sweep(o, h, g, m) ==
  LET alive == Close(o, RootsOf(h, g, m))
      dead  == {x \in Obj : o[x].key # 0 /\ x \notin alive}
  IN /\ obj' = [x \in Obj |-> IF x \in dead THEN None ELSE o[x]]
     /\ gone' = gone \cup {<<o[x].key, x>> : x \in dead}

Alive(x) == x # 0 /\ obj[x].key # 0
Present(k) == Alive(table[k]) /\ obj[table[k]].key = k     \* the weak reference still leads to its object

(* A name is used again when nothing remembers its first bearer.            *)
Unused == {x \in Obj : obj[x].key = 0 /\ (\A k \in Keys : table[k] # x) /\ \A g \in gone : g[2] # x}

NoGot == [k \in Keys |-> 0]

Init ==
  /\ obj = [x \in Obj |-> None] /\ table = [k \in Keys |-> 0] /\ gone = {}
  /\ held = [t \in Threads |-> <<>>]
  /\ todo \in [Threads -> Programs]
  /\ work = [t \in Threads |-> <<>>] /\ got = [t \in Threads |-> NoGot]
  /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> 0]
  /\ Gen => PrintT(ToJson([q |-> [t \in 1..Cardinality(Threads) |-> todo[t]]]))

Begin(t) ==
  /\ pc[t] = "idle" /\ todo[t] # <<>>
  /\ IF Head(todo[t])[1] = "drop"
     THEN /\ held' = [held EXCEPT ![t] = Tail(@)]
          /\ Sweep(obj, held', got, mine)
          /\ UNCHANGED <<work, pc>>
     ELSE /\ work' = [work EXCEPT ![t] = Order(Head(todo[t])[2])]
          /\ pc' = [pc EXCEPT ![t] = "lookup"]
          /\ UNCHANGED <<obj, gone, held>>
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<table, got, mine>>

Want(t) == work[t][Len(work[t])]

Take(t, x) ==       \* the thread has object x for the key it wanted
  LET k == Want(t)
      w == Front(work[t])
      g == [got EXCEPT ![t][k] = x]
      m == [mine EXCEPT ![t] = 0]
  IN /\ work' = [work EXCEPT ![t] = w]
     /\ mine' = m
     /\ IF w = <<>>
        THEN /\ held' = [held EXCEPT ![t] = Append(@, [key |-> k, at |-> x])]
             /\ got' = [got EXCEPT ![t] = NoGot]
             /\ pc' = [pc EXCEPT ![t] = "idle"]
        ELSE /\ got' = g /\ held' = held
             /\ pc' = [pc EXCEPT ![t] = "lookup"]

Lookup(t) ==
  /\ pc[t] = "lookup"
  /\ IF Flaw = "borrow"
     THEN /\ mine' = [mine EXCEPT ![t] = table[Want(t)]]
          /\ pc' = [pc EXCEPT ![t] = IF Present(Want(t)) THEN "return" ELSE "make"]
          /\ UNCHANGED <<obj, gone, held, work, got>>
     ELSE IF Present(Want(t))
     THEN Take(t, table[Want(t)]) /\ Sweep(obj, held', got', mine')
     ELSE /\ pc' = [pc EXCEPT ![t] = "make"]
          /\ UNCHANGED <<obj, gone, held, work, got, mine>>
  /\ UNCHANGED <<table, todo>>

Return(t) ==        \* (flaw "borrow" only)
  /\ pc[t] = "return"
  /\ Take(t, mine[t]) /\ Sweep(obj, held', got', mine')
  /\ UNCHANGED <<table, todo>>

Make(t) ==
  /\ pc[t] = "make"
  /\ \E x \in Unused : /\ \A y \in Unused : x <= y
                    /\ obj' = [obj EXCEPT ![x] = [key |-> Want(t), ready |-> Flaw # "early",
                                                   parts |-> {got[t][k] : k \in Parts(Want(t))}]]
                    /\ mine' = [mine EXCEPT ![t] = x]
  /\ pc' = [pc EXCEPT ![t] = IF Flaw = "split" THEN "check" ELSE "publish"]
  /\ UNCHANGED <<table, gone, held, todo, work, got>>

Check(t) ==         \* (flaw "split" only)
  /\ pc[t] = "check"
  /\ IF Present(Want(t)) THEN Take(t, table[Want(t)]) /\ Sweep(obj, held', got', mine')
     ELSE pc' = [pc EXCEPT ![t] = "publish"] /\ UNCHANGED <<obj, gone, held, work, got, mine>>
  /\ UNCHANGED <<table, todo>>

Publish(t) ==
  /\ pc[t] = "publish"
  /\ IF Present(Want(t)) /\ Flaw \notin {"split", "overwrite"}
     THEN Take(t, table[Want(t)]) /\ table' = table /\ Sweep(obj, held', got', mine')
     ELSE /\ table' = [table EXCEPT ![Want(t)] = mine[t]]
          /\ IF Flaw = "early"
             THEN pc' = [pc EXCEPT ![t] = "fill"] /\ UNCHANGED <<obj, gone, held, work, got, mine>>
             ELSE Take(t, mine[t]) /\ Sweep(obj, held', got', mine')
  /\ UNCHANGED todo

Fill(t) ==          \* (flaw "early" only)
  /\ pc[t] = "fill"
  /\ Take(t, mine[t])
  /\ Sweep([obj EXCEPT ![mine[t]].ready = TRUE], held', got', mine')
  /\ UNCHANGED <<table, todo>>

Hear ==             \* the table hears that an object has died
  /\ \E g \in gone :
       /\ gone' = gone \ {g}
       /\ table' = IF (table[g[1]] = g[2] /\ ~Present(g[1])) \/ Flaw = "remove"
                   THEN [table EXCEPT ![g[1]] = 0] ELSE table
  /\ UNCHANGED <<obj, held, todo, work, got, pc, mine>>

Next == Hear \/ \E t \in Threads : Begin(t) \/ Lookup(t) \/ Return(t) \/ Make(t) \/ Check(t) \/ Publish(t) \/ Fill(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Hold == UNION {{held[t][i] : i \in 1..Len(held[t])} : t \in Threads}
Agree  == \A a, b \in Hold : a.key = b.key => a.at = b.at
Intact == \A a \in Hold : a.at # 0 /\ obj[a.at].key = a.key /\ obj[a.at].ready
Whole  == \A a \in Hold : \A x \in Close(obj, {a.at}) : x # 0 /\ obj[x].key # 0
Enough == \A t \in Threads : pc[t] = "make" => Unused # {}      \* the bound on objects cuts nothing off
Shared == LET S == Close(obj, {a.at : a \in Hold}) IN \A x, y \in S : obj[x].key = obj[y].key => x = y
=============================================================================
