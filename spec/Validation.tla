----------------------------- MODULE Validation -----------------------------
(* validate(): one visit of every element breadth-first going down and of the *)
(* same elements in reverse going up (C06).                                   *)
(*                                                                            *)
(* nodes[i] = [k |-> "scalar" | "seq" | "map" | "sparse" | "parts" | "plain",           *)
(*   kids |-> ids, emp |-> a scalar is empty, opt |-> optional,               *)
(*   d |-> results of its descent validators, v |-> of its validators,        *)
(*   dn, up |-> which of the two lists runs on the way down and up, "" none,  *)
(*   late |-> id of the member a "grow" appends, 0 without]                   *)
(* A result is what the validator function does:                              *)
(*   T 1 U(nevaluated) SA0(truthy) Skip SkipAll SkipAllFalse F 0 None raise   *)
(*   fill: gives every scalar child a value, grow: appends a member; truthy   *)
EXTENDS Text

RECURSIVE Empty(_, _)
Empty(nodes, i) ==
  CASE nodes[i].k \in {"scalar", "plain"} -> nodes[i].emp
    [] nodes[i].k = "map" -> FALSE
    [] nodes[i].k = "parts" -> \A j \in Range2(nodes[i].kids) : Empty(nodes, j)
    [] OTHER -> nodes[i].kids = <<>>

Goes(r) == r \in {"T", "1", "U", "fill", "grow"}    \* the chain continues after these
Outcome(r) == CASE r \in {"F", "0", "None"} -> "F"
                [] r = "Skip" -> "T"
                [] OTHER -> r                        \* SkipAll, SkipAllFalse, raise
Truthy(o) == o \in {"T", "SkipAll"}

Effect(nodes, i, r) ==
  CASE r = "fill" -> [j \in 1..Len(nodes) |->
                        IF j \in Range2(nodes[i].kids) /\ nodes[j].k = "scalar" THEN [nodes[j] EXCEPT !.emp = FALSE] ELSE nodes[j]]
    [] r = "grow" -> IF nodes[i].late = 0 \/ nodes[i].late \in Range2(nodes[i].kids) THEN nodes
                     ELSE [nodes EXCEPT ![i].kids = Append(@, nodes[i].late)]
    [] OTHER -> nodes

(* run validators j.. of list `rs` ("d" or "v") of element i                  *)
RECURSIVE Chain(_, _, _, _, _, _)
Chain(nodes, i, which, rs, j, evs) ==
  IF j > Len(rs) THEN [nodes |-> nodes, out |-> "T", evs |-> evs]
  ELSE LET r == rs[j]
           call == <<"call", i, which, j - 1>>
           sig == <<"sig", i, which, j - 1, r>>
           done == Effect(nodes, i, r)
       IN IF r = "raise" THEN [nodes |-> nodes, out |-> "raise", evs |-> Append(evs, call)]
          ELSE IF Goes(r) THEN Chain(done, i, which, rs, j + 1, evs \o <<call, sig>>)
          ELSE [nodes |-> done, out |-> Outcome(r), evs |-> evs \o <<call, sig>>]

Judge(nodes, i, which, rs) ==
  IF Empty(nodes, i) /\ nodes[i].opt THEN [nodes |-> nodes, out |-> "T", evs |-> <<>>]
  ELSE IF rs = <<>> THEN LET o == IF Empty(nodes, i) THEN "F" ELSE "T" IN
                         [nodes |-> nodes, out |-> o, evs |-> <<<<"sig", i, "NotEmpty", 0, o>>>>]
  ELSE Chain(nodes, i, which, rs, 1, <<>>)
Quiet(nodes) == [nodes |-> nodes, out |-> "U", evs |-> <<>>]
IsContainer(n) == n.k \in {"seq", "map", "sparse", "parts"}
(* scalars run their validators going down, containers their descent          *)
(* validators going down and their validators going up, unless dn and up say  *)
(* otherwise; a container with nothing to run going down is not judged then   *)
List(n, w) == IF w = "d" THEN n.d ELSE n.v
Down(nodes, i) == LET n == nodes[i] IN
  CASE n.dn = "" -> Quiet(nodes)
    [] IsContainer(n) /\ List(n, n.dn) = <<>> -> Quiet(nodes)
    [] OTHER -> Judge(nodes, i, n.dn, List(n, n.dn))
Up(nodes, i) == LET n == nodes[i] IN
  IF n.up = "" THEN Quiet(nodes) ELSE Judge(nodes, i, n.up, List(n, n.up))

(* The machine: s = [nodes, flag (per element: "U" "T" "F"), phase, queue,    *)
(*                   order (visited going down), res, evs, deep]              *)
Flag(o) == IF o = "U" THEN "U" ELSE IF Truthy(o) THEN "T" ELSE "F"
Begin(nodes, flag, i, deep) ==
  [nodes |-> nodes, flag |-> flag, phase |-> "down", queue |-> <<i>>, order |-> <<>>, res |-> TRUE, evs |-> <<>>, deep |-> deep]
Stopped(s) == s.phase \in {"done", "raised"}

StepDown(s) ==
  IF s.queue = <<>> THEN [s EXCEPT !.phase = "up", !.queue = Rev(s.order)]
  ELSE LET i == s.queue[1]
           rest == Tail(s.queue)
       IN IF i \in Range2(s.order) THEN [s EXCEPT !.queue = rest]
          ELSE LET r == Down(s.nodes, i) IN
               IF r.out = "raise" THEN [s EXCEPT !.phase = "raised", !.nodes = r.nodes, !.evs = @ \o r.evs]
               ELSE [s EXCEPT !.nodes = r.nodes, !.evs = @ \o r.evs,
                              !.flag[i] = Flag(r.out), !.res = @ /\ Flag(r.out) # "F",
                              !.order = Append(@, i),
                              !.queue = IF ~s.deep \/ r.out \in {"SkipAll", "SkipAllFalse"} THEN rest ELSE rest \o r.nodes[i].kids]
StepUp(s) ==
  IF s.queue = <<>> THEN [s EXCEPT !.phase = "done"]
  ELSE LET i == s.queue[1]
           r == Up(s.nodes, i)
           t == [s EXCEPT !.queue = Tail(@), !.nodes = r.nodes, !.evs = @ \o r.evs]
       IN IF r.out = "raise" THEN [t EXCEPT !.phase = "raised"]
          ELSE IF r.out = "U" \/ s.flag[i] = "F" THEN t
          ELSE [t EXCEPT !.flag[i] = Flag(r.out), !.res = @ /\ Flag(r.out) # "F"]
Step(s) == IF s.phase = "down" THEN StepDown(s) ELSE StepUp(s)
RECURSIVE ToEnd(_)
ToEnd(s) == IF Stopped(s) THEN s ELSE ToEnd(Step(s))

RECURSIVE Beneath(_, _)
Beneath(nodes, i) == UNION {{k} \cup Beneath(nodes, k) : k \in Range2(nodes[i].kids)}
AllValid(nodes, flag, i) == \A j \in {i} \cup Beneath(nodes, i) : flag[j] # "F"
=============================================================================
