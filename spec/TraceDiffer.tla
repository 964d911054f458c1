---------------------------- MODULE TraceDiffer ----------------------------
(* Recorded histories of differentiators: creations, rules (some of them    *)
(* malformed), distributive heads, derivatives.                             *)
EXTENDS Duals, Json, IOUtils, TLC

Sessions == JsonDeserialize(IOEnv.TRACES)

VARIABLES s, l, dfs, bad
vars == <<s, l, dfs, bad>>

tab == Sessions[s].tab
If(c, name) == IF c THEN {} ELSE {name}

DiffVerdict(ev) ==
  LET d == dfs[ev.v]
      vs == [k \in 1..K |-> ValuesD(tab, d, k)]
      ds == [k \in 1..K |-> DualsD(tab, d, vs[k], ev.e, ev.x)]
  IN IF ev.ok
     THEN If(\A k \in 1..K : ds[k][ev.e].n # -2, "C09.norule")
          \cup If(\A k \in 1..K : \/ ds[k][ev.e].n < 0
                                 \/ vs[k][ev.r].p = ds[k][ev.e].n
                                 \/ (vs[k][ev.r].p < 0 /\ ZeroBase(tab, ev.e, vs[k])), "C09.value")
     ELSE If(MayRefuse(tab, d, ds[1], ev.e), "C09.refused")

Verdict(ev) ==
  CASE ev.op \in {"newdf", "distr"} -> {}
    [] ev.op = "rule" -> If(ev.ok <=> SoundRule(ev.rule), IF ev.ok THEN "C09.accepted" ELSE "C09.rejected")
    [] ev.op = "diff" -> DiffVerdict(ev)
    [] ev.op \in {"crash", "timeout"} -> {"any." \o ev.op}
    [] OTHER -> {"any.unknown"}

Init == s \in 1..Len(Sessions) /\ l = 0 /\ dfs = <<>> /\ bad = {}

Load == l = 0 /\ l' = 1 /\ bad' = (IF WellFormed(tab) THEN {} ELSE {<<0, "any.table">>}) /\ UNCHANGED <<s, dfs>>

Event ==
  /\ l > 0 /\ l <= Len(Sessions[s].ev)
  /\ LET ev == Sessions[s].ev[l]
     IN /\ bad' = bad \cup {<<l, c>> : c \in Verdict(ev)}
        /\ dfs' = CASE ev.op = "newdf" -> Append(dfs, ev.d)
                    [] ev.op = "distr" -> [dfs EXCEPT ![ev.v].distr = Append(@, ev.h)]
                    [] ev.op = "rule" /\ SoundRule(ev.rule) ->
                         [dfs EXCEPT ![ev.v].rules =
                            Append(@, [h |-> ev.rule.h, i |-> PositionOf(ev.rule), ps |-> ev.rule.ps, b |-> ev.rule.b])]
                    [] OTHER -> dfs
  /\ l' = l + 1
  /\ UNCHANGED s

Done == l > Len(Sessions[s].ev) /\ l > 0 /\ l' = -1 /\ PrintT(ToJson([verdict |-> s, bad |-> bad])) /\ UNCHANGED <<s, dfs, bad>>

Next == Load \/ Event \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
