------------------------------ MODULE Refusals ------------------------------
(* A library with interned values, rules and working storage receives       *)
(* requests, some unsupported.  Beside it a second one gets the supported   *)
(* requests only.  Unsupported requests give an error; supported ones give  *)
(* the same with both.                                                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxLen, Gen,
          Flaw   \* "none", "equal", "early", "scratch", "rule", "silent", "wedge", "memo"

VARIABLES real, ref, hist, out, outref
vars == <<real, ref, hist, out, outref>>

Classes == {"build", "same", "subst", "eval", "diff", "code", "matrix", "sympy", "evrule", "evcall", "dfrule", "dfcall"}
Requests == Classes \X {TRUE, FALSE}           \* class, supported

(* "build" and "same" build from the same value: a supported request gives   *)
(* an int, an unsupported one an equal number of another type.               *)
Builds == {"build", "same"}
Uses(c) == CASE c = "evcall" -> "ev" [] c = "dfcall" -> "df" [] c = "diff" -> "df" [] OTHER -> "no"
Rules(c) == CASE c = "evrule" -> "ev" [] c = "dfrule" -> "df" [] OTHER -> "no"

Fresh == [value |-> "none", ev |-> "none", df |-> "none", dirty |-> FALSE, refused |-> 0, memo |-> {}]

Do(st, c, good) ==      \* [st, out]
  IF good
  THEN IF Flaw = "wedge" /\ st.refused > 1 THEN [st |-> st, out |-> "error"]
       ELSE IF c \in Builds
       THEN [st |-> [st EXCEPT !.value = IF @ = "none" THEN "int" ELSE @],
             out |-> IF st.value = "other" THEN "other" ELSE "int"]
       ELSE IF Rules(c) # "no" THEN [st |-> [st EXCEPT ![Rules(c)] = "rule"], out |-> "done"]
       ELSE [st |-> st,
             out |-> IF st.dirty THEN "wrong"
                     ELSE IF c \in st.memo THEN "error"
                     ELSE IF Uses(c) # "no" THEN st[Uses(c)] ELSE "value"]
  ELSE LET n == [st EXCEPT !.refused = IF @ < 2 THEN @ + 1 ELSE @]
       IN IF Flaw = "equal" /\ c \in Builds /\ st.value # "none" THEN [st |-> n, out |-> "value"]
          ELSE IF Flaw = "early" /\ c \in Builds
          THEN [st |-> [n EXCEPT !.value = IF @ = "none" THEN "other" ELSE @],
                out |-> IF st.value = "other" THEN "value" ELSE "error"]
          ELSE IF Flaw = "scratch" /\ c \in {"eval", "diff", "evcall"} THEN [st |-> [n EXCEPT !.dirty = TRUE], out |-> "error"]
          ELSE IF Flaw = "rule" /\ Rules(c) # "no" THEN [st |-> [n EXCEPT ![Rules(c)] = "broken"], out |-> "error"]
          ELSE IF Flaw = "silent" /\ c = "code" THEN [st |-> n, out |-> "value"]
          ELSE IF Flaw = "memo" /\ c \in {"sympy", "subst"} THEN [st |-> [n EXCEPT !.memo = @ \cup {c}], out |-> "error"]
          ELSE [st |-> n, out |-> "error"]

Init == real = Fresh /\ ref = Fresh /\ hist = <<>> /\ out = "none" /\ outref = "none"

Next ==
  /\ Len(hist) < MaxLen
  /\ \E r \in Requests :
       LET a == Do(real, r[1], r[2])
           b == IF r[2] THEN Do(ref, r[1], TRUE) ELSE [st |-> ref, out |-> outref]
       IN /\ real' = a.st /\ out' = a.out
          /\ ref' = b.st /\ outref' = b.out
          /\ hist' = Append(hist, r)
  /\ Gen /\ Len(hist') = MaxLen /\ hist'[MaxLen][2] /\ (\E i \in 1..MaxLen : ~hist'[i][2])
        => PrintT(ToJson([q |-> hist']))

Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
Refused == hist # <<>> => (Last[2] \/ out = "error")
Same    == hist # <<>> => (Last[2] => out = outref)
=============================================================================
