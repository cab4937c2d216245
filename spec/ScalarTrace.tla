----------------------------- MODULE ScalarTrace -----------------------------
(* Validates recorded histories of one scalar element at a time: set() with   *)
(* arbitrary Python values, setting the native value again, flat pairs and    *)
(* defaults.  The state is the value, the text and whether the last set()     *)
(* succeeded.                                                                 *)
EXTENDS Scalars, Json, IOUtils, Sequences

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, el
vars == <<l, el>>

Fresh == [v |-> NoVal, u |-> "", ok |-> FALSE]
Set(sc, pv) == LET a == Adapt(sc, pv) IN [v |-> a.v, u |-> a.u, ok |-> a.ok]

(* the pair that is for a scalar: the first one bearing its name              *)
RECURSIVE FirstPair(_, _)
FirstPair(pairs, nm) ==
  IF pairs = <<>> THEN 0
  ELSE IF pairs[1][1] = (IF nm = None THEN "" ELSE nm) THEN 1
  ELSE LET r == FirstPair(Tail(pairs), nm) IN IF r = 0 THEN 0 ELSE r + 1

After(e, r) ==
  CASE r.op = "new"   -> IF r.init THEN Set(r.sc, r.pv) ELSE Fresh
    [] r.op = "set"   -> Set(r.sc, r.pv)
    [] r.op = "again" -> IF e.ok THEN e ELSE Set(r.sc, NonePV)
    [] r.op = "flat"  -> LET i == FirstPair(r.pairs, r.sc.name) IN
                         IF i = 0 THEN e ELSE Set(r.sc, r.pvs[i])
    [] r.op = "ser"   -> e
    [] r.op = "default" -> IF r.has THEN Set(r.sc, r.pv) ELSE e

Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, want |-> ToString(want), got |-> ToString(got)]>>
Flag2(b) == IF b THEN "T" ELSE "F"
Check(e, r) ==
  LET a == After(e, r) IN
  (IF r.op \in {"set", "again"} THEN Diff("result", Flag2(a.ok), r.ret)
   ELSE IF r.op = "ser" THEN Diff("serialized", Serialize(r.sc, r.pv), r.ret)
   ELSE IF StartsWith(r.ret, "exc:") THEN Diff("result", "no error", r.ret) ELSE <<>>)
  \o Diff("value", a.v, r.v) \o Diff("text", a.u, r.u)
  \o (IF r.op \in {"set", "again"} THEN Diff("raw", TRUE, r.raw) ELSE <<>>)
  \o (IF r.op = "again" /\ e.ok THEN Diff("set again", <<e.v, e.u>>, <<r.v, r.u>>) ELSE <<>>)
  \o Diff("is_empty", Flag2(a.u = "" /\ a.v \in {NoVal} \cup IF r.sc.k = "str" THEN {"s:"} ELSE {}), r.emp)
  \o Diff("text type", TRUE, r.utype)
  \o (IF r.sc.k \in {"enum", "constr"} /\ r.v # NoVal
      THEN Diff("constraint", TRUE, IF r.sc.k = "enum" THEN r.v \in Range2(r.sc.vals) ELSE Admits(r.sc.pred, r.v)) ELSE <<>>)

Init == l = 0 /\ el = Fresh
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         fs == Check(el, r)
     IN /\ l' = l + 1
        /\ el' = [v |-> r.v, u |-> r.u, ok |-> After(el, r).ok]     \* resynchronise on what was observed
        /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op, fails |-> fs]))
Spec == Init /\ [][Next]_vars
=============================================================================
