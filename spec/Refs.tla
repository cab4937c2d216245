--------------------------------- MODULE Refs ---------------------------------
(* References to other elements of the tree (C15).                            *)
(*                                                                            *)
(* nodes: the tree, preorder, nodes[1] its root:                              *)
(*   [k |-> "leaf" | "ref" | "map" | "seq", kids |-> indices, kn |-> names,   *)
(*    sc |-> scalar schema, val, u |-> what a leaf holds,                     *)
(*    w |-> "True" | "False" | "ignore", path |-> <<path, separator>> or <<>>  *)
(*    with the names of the path in tp]                                       *)
EXTENDS Scalars

(* names, from the root whichever element holds the path; 0: no such element  *)
RECURSIVE Follow(_, _, _)
Follow(nodes, i, names) ==
  IF i = 0 \/ names = <<>> THEN i
  ELSE LET n == nodes[i]
           x == names[1]
           next == CASE n.k = "map" -> IF x \in Range2(n.kn) THEN n.kids[IndexIn(n.kn, x)] ELSE 0
                     [] n.k = "seq" -> LET t == IntText(x)
                                           neg == StartsWith(t, "-")
                                           v == IF t = "" THEN 0 ELSE IF neg THEN NatOf(Drop(t, 1)) ELSE NatOf(t)
                                       IN IF t = "" THEN 0
                                          ELSE IF neg THEN (IF v <= Len(n.kids) THEN n.kids[Len(n.kids) + 1 - v] ELSE 0)
                                          ELSE IF v < Len(n.kids) THEN n.kids[v + 1] ELSE 0
                     [] OTHER -> 0
       IN Follow(nodes, next, Tail(names))
(* a path is text split at its separator, a leading one standing for the root,*)
(* or a list of names                                                         *)
NamesOf(n) ==
  IF n.path = <<>> THEN n.tp
  ELSE LET text == n.path[1]
           sep == n.path[2]
       IN IF text = sep THEN <<>>
          ELSE SplitBy(IF StartsWith(text, sep) THEN Drop(text, Len(sep)) ELSE text, sep)
TargetOf(nodes, i) == Follow(nodes, 1, NamesOf(nodes[i]))

(* the element a chain of references ends at, 0 when it leads nowhere         *)
RECURSIVE EndOf(_, _, _)
EndOf(nodes, i, fuel) ==
  IF i = 0 \/ fuel = 0 THEN 0 ELSE IF nodes[i].k = "ref" THEN EndOf(nodes, TargetOf(nodes, i), fuel - 1) ELSE i
End(nodes, i) == EndOf(nodes, i, Len(nodes) + 1)
(* how a write through the chain ends: "ignore", "False" or "True"            *)
RECURSIVE Permission(_, _)
Permission(nodes, i) ==
  IF nodes[i].k # "ref" THEN "True"
  ELSE IF nodes[i].w # "True" THEN nodes[i].w
  ELSE IF TargetOf(nodes, i) = 0 THEN "lost" ELSE Permission(nodes, TargetOf(nodes, i))

Res(nodes, res) == [nodes |-> nodes, res |-> res]
(* writing x to the element at i; how: "set", "value", "u"                    *)
Write(nodes, i, how, x) ==
  LET e == End(nodes, i)
      p == Permission(nodes, i)
      a == Adapt(nodes[e].sc, x)
  IN CASE p = "False" -> Res(nodes, "exc:TypeError")
       [] p = "ignore" -> Res(nodes, IF how = "set" THEN "T" ELSE "ok")
       [] how = "set" -> Res([nodes EXCEPT ![e].val = a.v, ![e].u = a.u], IF a.ok THEN "T" ELSE "F")
       [] how = "value" -> Res([nodes EXCEPT ![e].val = x.v], "ok")
       [] OTHER -> Res([nodes EXCEPT ![e].u = x.s], "ok")
=============================================================================
