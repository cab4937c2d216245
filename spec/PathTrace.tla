------------------------------ MODULE PathTrace ------------------------------
(* Validates recorded lookups: a "tree" record describes the tree as reached  *)
(* through .children, the following records look something up in it.          *)
EXTENDS Paths, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tree
vars == <<l, tree>>

Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, want |-> ToString(want), got |-> ToString(got)]>>
Kind(k) == CASE k \in {"dict", "sdict", "date3"} -> "map" [] k \in {"list", "array", "mv", "joined"} -> "seq" [] OTHER -> "leaf"
TreeOf(nodes) == [i \in 1..Len(nodes) |->
  [k |-> Kind(nodes[i].k), kids |-> nodes[i].kids, kn |-> nodes[i].kn,
   up |-> IF \E j \in 1..Len(nodes) : (i - 1) \in Range2(nodes[j].kids)
          THEN (CHOOSE j \in 1..Len(nodes) : (i - 1) \in Range2(nodes[j].kids)) - 1 ELSE -1]]

LookupErrors == {"exc:LookupError", "exc:KeyError", "exc:IndexError"}
Check(r) ==
  CASE r.op = "tree" -> <<>>
    [] r.op = "find" ->
         LET f == Find2(tree, r.path, r.at, r.single, r.strict) IN
         IF f.err # "" THEN IF r.exc \in LookupErrors THEN <<>>
                            ELSE Diff("find", "LookupError: " \o f.err, IF r.exc = "" THEN ToString(r.ids) ELSE r.exc)
         ELSE IF r.exc # "" THEN Diff("find", ToString(f.ids), r.exc)
         ELSE IF ~r.single THEN Diff("find", f.ids, r.ids)
         ELSE IF f.ids = <<>> THEN Diff("find", <<>>, r.ids)
         ELSE IF Len(f.ids) = 1 THEN Diff("find", f.ids, r.ids)
         ELSE IF Len(r.ids) = 1 /\ r.ids[1] \in Range2(f.ids) THEN <<>>
         ELSE Diff("find", "one of " \o ToString(f.ids), ToString(r.ids))
    [] r.op = "el" ->
         LET id == IF r.names THEN ElNames(tree, r.list, r.at) ELSE El(tree, r.path, r.sep, r.at) IN
         IF id < 0 THEN Diff("el", "exc:KeyError", IF r.exc = "" THEN ToString(r.ids) ELSE r.exc)
         ELSE IF r.exc # "" THEN Diff("el", ToString(id), r.exc)
         ELSE Diff("el", <<id>>, r.ids)

Init == l = 0 /\ tree = <<>>
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         fs == Check(r)
     IN /\ l' = l + 1
        /\ tree' = IF r.op = "tree" THEN TreeOf(r.nodes) ELSE tree
        /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op, fails |-> fs]))
Spec == Init /\ [][Next]_vars
=============================================================================
