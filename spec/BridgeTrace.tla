---------------------------- MODULE BridgeTrace ----------------------------
(* Validates recorded slice / update_object / set_by_object / from_object     *)
(* calls, each with the element and the object before and after.              *)
EXTENDS Bridge, Json, IOUtils

VARIABLES l, el, obj
vars == <<l, el, obj>>
Log == ndJsonDeserialize(IOEnv.TRACE)
Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> 0, want |-> ToString(want), got |-> ToString(got)]>>
Holds(c, ok, want, got) == IF ok THEN <<>> ELSE <<[c |-> c, node |-> 0, want |-> ToString(want), got |-> ToString(got)]>>

Check(r) ==
  LET op == r.op
      now == Range2(r.el)
      at == Range2(r.obj)
      out == Range2(r.out)
      same == Diff("element", el, now) \o Diff("object", obj, at)
      blank == Range2(r.blank)
      fields == Range2(r.fields)
      ps == Pulls(obj, fields, op.sel)
      strict == r.policy = "strict" /\ Keys2(ps) # fields
  IN
  CASE op.o \in {"start", "assign"} -> <<>>
    [] op.o \in {"slice", "update_object"} /\ Refused(op.sel) -> Diff("result", "exc:TypeError", r.res) \o same
    [] op.o = "slice" ->
         LET em == Emits(el, op.sel) IN
         Diff("result", "ok", r.res) \o same \o Holds("slice", Made(em, out), em, out)
    [] op.o = "update_object" ->
         LET em == Emits(el, op.sel) IN
         Diff("result", "ok", r.res) \o Diff("element", el, now)
         \o Diff("attributes assigned", Keys2(em), Range2(r.assigned))
         \o Holds("object", /\ {p \in at : p[1] \notin Keys2(em)} = {p \in obj : p[1] \notin Keys2(em)}
                            /\ Made(em, {p \in at : p[1] \in Keys2(em)}), em, at)
    [] op.o \in {"set_by_object", "from_object"} /\ Refused(op.sel) ->
         Diff("result", "exc:TypeError", r.res) \o Diff("object", obj, at)
         \o (IF op.o = "set_by_object" THEN Diff("element", el, now) ELSE <<>>)
    [] strict -> Diff("result", "exc:TypeError", r.res) \o Diff("object", obj, at)
    [] OTHER ->
         Diff("result", "ok", r.res) \o Diff("object", obj, at)
         \o Holds("fields set", SetTo(obj, fields, op.sel, blank, now), <<ps, blank>>, now)

Init == l = 0 /\ el = {} /\ obj = {}
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         fs == Check(r)
     IN /\ l' = l + 1
        /\ el' = Range2(r.el)
        /\ obj' = Range2(r.obj)
        /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_vars
=============================================================================
