-------------------------------- MODULE Lazy --------------------------------
(* Optional packages.  Some packages are installed; a library operation      *)
(* imports what it needs, or reports that it is missing.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Gen,
          Flaw      \* "none", "eager", "drag", "memo", "silent", "wedge", "vary", "refuse"

VARIABLES has, loaded, asked, hist, broken, outcome
vars == <<has, loaded, asked, hist, broken, outcome>>

Packages == {"sympy", "numpy", "llvmlite"}
Classes  == {"build", "calc", "matrix", "code", "tosym", "fromsym", "compile", "compilematrix", "run", "refuse"}

Needs(c) == CASE c \in {"tosym", "fromsym"} -> {"sympy"}
              [] c = "compile"       -> {"llvmlite"}
              [] c = "compilematrix" -> {"llvmlite", "numpy"}
              [] OTHER -> {}

Imports(c) ==       \* what the operation imports
  Needs(c) \cup (IF Flaw = "drag" /\ c = "matrix" THEN {"numpy"} ELSE {})
           \cup (IF Flaw = "refuse" /\ c = "refuse" THEN {"sympy"} ELSE {})
           \cup (IF Flaw = "memo" /\ c = "calc" /\ Len(hist) > 1 /\ hist[Len(hist)] = "code" THEN {"llvmlite"} ELSE {})

Init ==
  /\ has \in SUBSET Packages
  /\ loaded = IF Flaw = "eager" THEN {"numpy"} \cap has ELSE {}
  /\ asked = {} /\ hist = <<>> /\ broken = FALSE /\ outcome = "none"

Op(c) ==
  /\ Len(hist) < MaxLen
  /\ (c = "run" => \E i \in 1..Len(hist) : hist[i] \in {"compile", "compilematrix"} /\ Needs(hist[i]) \subseteq has)
  /\ hist' = Append(hist, c)
  /\ asked' = asked \cup Needs(c)
  /\ loaded' = loaded \cup (Imports(c) \cap has)
  /\ outcome' = IF Imports(c) \subseteq has
                THEN IF broken THEN "wrong" ELSE IF Flaw = "vary" /\ c = "calc" /\ "numpy" \in has /\ "numpy" \in loaded
                     THEN "wrong" ELSE "right"
                ELSE IF Flaw = "silent" THEN "nothing" ELSE "missing"
  /\ broken' = (broken \/ (Flaw = "wedge" /\ ~(Imports(c) \subseteq has)))
  /\ has' = has
  /\ Gen /\ Len(hist') = MaxLen => PrintT(ToJson([q |-> hist']))

Next == \E c \in Classes : Op(c)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
OnlyAsked == loaded \subseteq asked
Works == hist # <<>> => outcome = IF Needs(Last) \subseteq has THEN "right" ELSE "missing"
=============================================================================
