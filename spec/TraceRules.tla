----------------------------- MODULE TraceRules -----------------------------
(* Recorded histories of evaluators, checked event by event: registrations  *)
(* (direct or as pattern and call, some of them malformed) and evaluations  *)
(* by every strategy, with the calls made to the rules.                     *)
EXTENDS Rules, Json, IOUtils, TLC

Sessions == JsonDeserialize(IOEnv.TRACES)

VARIABLES s, l, evs, bad
vars == <<s, l, evs, bad>>

tab == Sessions[s].tab
If(c, name) == IF c THEN {} ELSE {name}

Once == {"call", "evaluate", "forward"}       \* strategies that promise one call for each compound

EvalVerdict(ev) ==
  LET rules == evs[ev.v]
      why == Causes(tab, rules, ev.vals, ev.e)
      sup == ev.vals # <<>>
  IN IF why # {}
     THEN If(~ev.ok, IF "missing" \in why THEN "C07.missing" ELSE "C06.error")
          \cup If(ev.ok \/ "arity" \in why \/ ev.err \in why, "C06.wrongerror")
     ELSE IF ~ev.ok THEN {"C06.failed", "C07.failed"}
     ELSE LET want == EvalSeq(tab, rules, ev.vals, ev.e)[ev.e]
          IN (IF ev.n = want THEN {}
              ELSE {"C06.value"} \cup (IF Len(rules) > 0 THEN {"C07.value"} ELSE {}))
             \cup If(ev.how \in Once => SameBag(ev.log, CallSeq(tab, rules, ev.vals, ev.e)), "C06.once")

RegVerdict(ev) ==
  IF ev.direct THEN If(ev.ok, "C07.register")
  ELSE IF Acceptable(ev.pat, ev.call) THEN If(ev.ok, "C07.accept")
  ELSE If(~ev.ok, "C07.reject")

Accepted(ev) == IF ev.direct THEN TRUE ELSE Acceptable(ev.pat, ev.call)

Verdict(ev) ==
  CASE ev.op = "newev" -> {}
    [] ev.op = "reg" -> RegVerdict(ev)
    [] ev.op = "eval" -> EvalVerdict(ev)
    [] ev.op \in {"crash", "timeout"} -> {"any." \o ev.op}
    [] OTHER -> {"any.unknown"}

Init == s \in 1..Len(Sessions) /\ l = 0 /\ evs = <<>> /\ bad = {}

Load == l = 0 /\ l' = 1 /\ bad' = (IF WellFormed(tab) THEN {} ELSE {<<0, "any.table">>}) /\ UNCHANGED <<s, evs>>

Event ==
  /\ l > 0 /\ l <= Len(Sessions[s].ev)
  /\ LET ev == Sessions[s].ev[l]
     IN /\ bad' = bad \cup {<<l, c>> : c \in Verdict(ev)}
        /\ evs' = CASE ev.op = "newev" -> Append(evs, <<>>)
                    [] ev.op = "reg" /\ Accepted(ev) -> [evs EXCEPT ![ev.v] = Append(@, ev.rule)]
                    [] OTHER -> evs
  /\ l' = l + 1
  /\ UNCHANGED s

Done == l > Len(Sessions[s].ev) /\ l > 0 /\ l' = -1 /\ PrintT(ToJson([verdict |-> s, bad |-> bad])) /\ UNCHANGED <<s, evs, bad>>

Next == Load \/ Event \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
