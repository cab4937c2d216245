-------------------------------- MODULE MCRef --------------------------------
(* A tree with three references in every arrangement of targets and           *)
(* permissions, under every sequence of writes and replacements.              *)
EXTENDS Refs, Json

CONSTANTS MaxOps, TargetsB, TargetsC, TargetsE, Perms, Hows, Vals

(* 1 root; 2 a Integer; 3 b Ref; 4 c Ref; 5 sub; 6 sub.d String; 7 sub.e Ref   *)
SInt == [k |-> "int", signed |-> TRUE, w |-> 0]
SStr == [k |-> "str", strip |-> TRUE]
Leaf(sc) == [k |-> "leaf", kids |-> <<>>, kn |-> <<>>, sc |-> sc, val |-> NoVal, u |-> "", w |-> "True", tp |-> <<>>, path |-> <<>>]
MapN(kids, kn) == [k |-> "map", kids |-> kids, kn |-> kn, sc |-> SStr, val |-> "", u |-> "", w |-> "True", tp |-> <<>>, path |-> <<>>]
RefN(path, w) == [k |-> "ref", kids |-> <<>>, kn |-> <<>>, sc |-> SStr, val |-> "", u |-> "", w |-> w, tp |-> <<>>, path |-> <<path, ".">>]
Tree(b, wb, c, wc, e, we) ==
  <<MapN(<<2, 3, 4, 5>>, <<"a", "b", "c", "sub">>), Leaf(SInt), RefN(b, wb), RefN(c, wc), MapN(<<6, 7>>, <<"d", "e">>), Leaf(SStr), RefN(e, we)>>

VARIABLES nodes, refs, hist, last
vars == <<nodes, refs, hist, last>>
Init == /\ \E b \in TargetsB, c \in TargetsC, e \in TargetsE, wb \in Perms, wc \in Perms, we \in Perms :
             /\ nodes = Tree(b, wb, c, wc, e, we)
             /\ refs = <<<<b, wb>>, <<c, wc>>, <<e, we>>>>
        /\ hist = <<>> /\ last = [o |-> "none", before |-> <<>>, res |-> "", i |-> 0]
X(v) == CASE v = "none" -> NonePV [] v = "4" -> [t |-> "i", s |-> "4", tr |-> TRUE, ks |-> <<>>, l |-> <<>>] [] OTHER -> TextPV(v)
Canon(v) == CASE v = "none" -> NoVal [] v = "4" -> "i:4" [] OTHER -> "s:" \o v
At == <<"", "a", "b", "c", "sub", "sub.d", "sub.e">>
Blanked(is) == [i \in 1..7 |-> IF i \in is THEN [nodes[i] EXCEPT !.val = NoVal, !.u = ""] ELSE nodes[i]]
Do(op, n, i) == /\ nodes' = n.nodes /\ UNCHANGED refs /\ hist' = Append(hist, op)
                /\ last' = [o |-> op.o, before |-> nodes, res |-> n.res, i |-> i]
                /\ PrintT("RUN " \o ToJson([refs |-> refs, ops |-> hist']))
How(how, v) == how # "u" \/ v \notin {"none", "4"}
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in {2, 3, 4, 6, 7}, how \in Hows, v \in Vals :
                /\ How(how, v)
                /\ LET n == Write(nodes, i, how, X(v) @@ [v |-> Canon(v)])
                   IN Do([o |-> "write", at |-> At[i], how |-> how, x |-> [t |-> X(v).t, s |-> X(v).s]], n, i)
           \/ Do([o |-> "reset"], Res([Blanked({2, 6}) EXCEPT ![2].val = "i:3", ![2].u = "3", ![6].val = "s:new", ![6].u = "new"], "ok"), 0)
           \/ Do([o |-> "subset"], Res([Blanked({6}) EXCEPT ![6].val = "s:sub", ![6].u = "sub"], "ok"), 0)
Spec == Init /\ [][Next]_vars
Projected == <<nodes, refs, Len(hist), last>>

Leaves == {2, 6}
Held(ns) == [i \in Leaves |-> <<ns[i].val, ns[i].u>>]
Wrote == last.o = "write"
(* references never change by themselves, and every chain ends at a leaf      *)
Grounded == \A i \in {3, 4, 7} : End(nodes, i) \in Leaves
(* what a write may touch: the end of its chain, and only with permission     *)
OnlyTheTarget == Wrote => \A i \in Leaves : Held(nodes)[i] # Held(last.before)[i] => (End(nodes, last.i) = i /\ Permission(nodes, last.i) = "True")
RefusedKeeps == Wrote /\ last.res = "exc:TypeError" => Held(nodes) = Held(last.before)
TypeErrorIff == Wrote => (last.res = "exc:TypeError" <=> Permission(nodes, last.i) = "False")
(* writing through a writable reference is writing to the target              *)
Through == \A i \in {3, 4, 7} : Permission(nodes, i) = "True" =>
  \A v \in Vals : Write(nodes, i, "set", X(v)) = Write(nodes, End(nodes, i), "set", X(v))
IgnoredKeeps == \A i \in {3, 4, 7} : Permission(nodes, i) = "ignore" => \A v \in Vals : Write(nodes, i, "set", X(v)).nodes = nodes
=============================================================================
