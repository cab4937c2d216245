----------------------------- MODULE RulesTrace -----------------------------
(* Recorded runs of validators on elements.                                   *)
EXTENDS Rules, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> 0, want |-> ToString(want), got |-> ToString(got)]>>

Run(r) ==
  LET op == r.op IN
  CASE op.o = "make" -> Diff("construction", IF Sensible(op.lo, op.hi) THEN "ok" ELSE "exc:TypeError", r.res)
    [] op.o = "orphan" -> Diff("refused", "exc:TypeError", r.res)
    [] OTHER ->
         LET w == Outcome(op.v, op.cf, op.e, op.msgs) IN
         Diff("accepted", IF w.valid THEN "True" ELSE "False", r.res)
         \o Diff("errors", w.errors, r.errors)
         \o Diff("other elements untouched", TRUE, r.quiet)

Init == l = 0
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1] fs == Run(r) IN
     /\ l' = l + 1
     /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_l
=============================================================================
