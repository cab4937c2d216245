----------------------------- MODULE GenshiTrace -----------------------------
(* Recorded renderings of templates against Genshi.                           *)
EXTENDS Genshi, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Diff(c, n, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> n, want |-> ToString(want), got |-> ToString(got)]>>
Event(e) == IF e[1] = "s" THEN <<"s", e[2], {e[3][i] : i \in 1..Len(e[3])}>> ELSE e
Events(es) == [i \in 1..Len(es) |-> Event(es[i])]
FirstOff(w, g) == LET n == IF Len(w) < Len(g) THEN Len(w) ELSE Len(g)
                      off == {i \in 1..n : w[i] # g[i]}
                  IN IF off = {} THEN n + 1 ELSE CHOOSE i \in off : \A j \in off : i <= j
Shown(q, i) == IF i <= Len(q) THEN ToString(q[i]) ELSE "the end"

Run(r) ==
  LET op == r.op IN
  IF op.o = "misuse" THEN Diff("refused", 0, TRUE, r.res \in {"exc:TemplateSyntaxError", "exc:BadDirectiveError", "exc:RuntimeError"})
  ELSE LET w == Result(op.nodes, op.binds) IN
       IF w.bad THEN Diff("result", 0, "exc:KeyError", r.res)
       ELSE IF r.res # "ok" THEN Diff("result", 0, "ok", r.res)
       ELSE LET g == Events(r.out) i == FirstOff(w.out, g) IN Diff("output", i, Shown(w.out, i), Shown(g, i))

Init == l = 0
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1] fs == Run(r) IN
     /\ l' = l + 1
     /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_l
=============================================================================
