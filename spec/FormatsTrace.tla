---------------------------- MODULE FormatsTrace ----------------------------
(* Recorded runs of the format validators.                                    *)
EXTENDS Formats, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> 0, want |-> ToString(want), got |-> ToString(got)]>>

Parsed(op, v) == CASE op.parser = "std" -> Parse(v)
                   [] op.parser = "raise" -> [ok |-> FALSE, scheme |-> "", netloc |-> "", path |-> "", params |-> "", query |-> "", fragment |-> ""]
                   [] OTHER -> op.given
Rule(op) ==
  CASE op.v = "URLValidator" -> URLRule(op.cf, op.value, Parsed(op, Strip(op.value)))
    [] op.v = "HTTPURLValidator" -> HTTPRule(IF op.cf.default THEN DefaultHTTP ELSE op.cf, op.value, Parsed(op, op.value))
    [] op.v = "URLCanonicalizer" -> CanonRule(op.cf, op.value, Parsed(op, op.value))
    [] op.v = "IsEmail" -> EmailRule(op.cf, op.u, op.domain)
    [] op.v = "Luhn10" -> LuhnRule(op.value)
    [] OTHER -> PhoneRule(op.cf.ext, op.ascii)
ValueAfter(op, m) ==
  CASE op.v = "URLCanonicalizer" ->
         IF op.parser = "given" /\ m = "" /\ op.cf.discard # <<>>
         THEN LET k == Kept(op.cf, op.given) IN Join([i \in 1..6 |-> k[Six[i]]], "|")
         ELSE Canonical(op.cf, op.value, Parsed(op, op.value))
    [] op.v = "NANPphone" /\ m = "" -> Phone(op.cf.ext, op.ascii)
    [] OTHER -> op.value

Card(op) ==
  LET ok == IF op.kind = "text" THEN CardAdapts(op.raw) ELSE op.kind = "int"
      n == IF ~ok THEN Nil ELSE IF op.kind = "text" THEN CardNumber(op.raw) ELSE op.raw
      u == IF ok THEN CardText(n) ELSE IF op.kind = "none" THEN "" ELSE op.raw
      m == CardRule(op.accepted, n, u)
  IN [set |-> IF ok \/ op.kind = "none" THEN "True" ELSE "False", n |-> n, u |-> u, m |-> m]

Run(r) ==
  LET op == r.op IN
  IF op.o = "card" THEN
    LET w == Card(op) IN
    Diff("set", w.set, r.set) \o Diff("value", w.n, r.value) \o Diff("text", w.u, r.u)
    \o Diff("accepted", IF w.m = "" THEN "True" ELSE "False", r.res)
    \o Diff("errors", IF w.m = "" THEN <<>> ELSE <<Said("Card", op.label, <<>>, w.m, op.accepted)>>, r.errors)
  ELSE
    LET m == Rule(op) IN
    Diff("accepted", IF m = "" THEN "True" ELSE "False", r.res)
    \o Diff("errors", IF m = "" THEN <<>> ELSE <<Said(op.v, op.label, op.msgs, m, <<>>)>>, r.errors)
    \o Diff("value", ValueAfter(op, m), r.value)
    \o (IF op.v = "NANPphone" /\ m = "" THEN Diff("text", ValueAfter(op, m), r.u) ELSE <<>>)
    \o Diff("warnings", 0, r.warnings)

Init == l = 0
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1] fs == Run(r) IN
     /\ l' = l + 1
     /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_l
=============================================================================
