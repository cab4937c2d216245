------------------------------ MODULE RefTrace ------------------------------
(* Validates recorded histories of trees with references: after every         *)
(* operation each reference reads its target in the tree as it then is, and   *)
(* writing to one does to the target what its permission says.                *)
EXTENDS Refs, Json, IOUtils

VARIABLES l, nodes
vars == <<l, nodes>>
Log == ndJsonDeserialize(IOEnv.TRACE)
Diff(c, i, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> i, want |-> ToString(want), got |-> ToString(got)]>>

Mirror(ns, i) ==
  LET r == ns[i]
      t == TargetOf(ns, i)
      e == End(ns, i)
  IN IF e = 0 THEN Diff("dangling", i, "exc:KeyError", r.val)
     ELSE Diff("target", i, t, r.target) \o Diff("value", i, ns[t].val, r.val) \o Diff("text", i, ns[t].u, r.u)
          \o (IF ns[e].k = "leaf"
              THEN Diff("emptiness", i, ns[e].val = NoVal /\ ns[e].u = "", r.emp) ELSE <<>>)
          \o Diff("equals its target", i, <<TRUE, FALSE>>, r.eq)
Mirrors(ns) == FlatSeq([i \in 1..Len(ns) |-> IF ns[i].k = "ref" THEN Mirror(ns, i) ELSE <<>>])
(* written through to a container, or nowhere: only the mirroring counts      *)
ToTree(ns, i) == LET p == Permission(ns, i) IN p = "lost" \/ (p = "True" /\ ns[End(ns, i)].k # "leaf")
Leaves(ns) == {<<i, ns[i].val, ns[i].u>> : i \in {j \in 1..Len(ns) : ns[j].k = "leaf"}}
NoRefs(r) == Diff("flattened", 0, r.leafnames, r.flat)

Check(r) ==
  Mirrors(r.nodes) \o NoRefs(r) \o
  (IF r.op.o # "write" THEN <<>>
   ELSE IF ToTree(nodes, r.op.i) THEN <<>>
   ELSE LET n == Write(nodes, r.op.i, r.op.how, r.op.x) IN
        Diff("result", r.op.i, IF r.op.item /\ n.res \in {"T", "F"} THEN "ok" ELSE n.res, r.res)
        \o Diff("leaves", r.op.i, Leaves(n.nodes) \ Leaves(r.nodes), Leaves(r.nodes) \ Leaves(n.nodes)))

Init == l = 0 /\ nodes = <<>>
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         fs == Check(r)
     IN /\ l' = l + 1
        /\ nodes' = r.nodes
        /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_vars
=============================================================================
