------------------------------- MODULE MCProps -------------------------------
(* Every history of up to MaxOps operations on the properties of a small      *)
(* class diamond, a subclass with a lineage of its own and their instances.   *)
EXTENDS Props, Json

CONSTANTS MaxOps, Vals, Kinds

Cl(how, bases, mro, own, ps) == [o |-> "class", how |-> how, bases |-> bases, mro |-> mro, own |-> own, ps |-> ps]
In(i, det, ps) == [o |-> "inst", i |-> i, det |-> det, ps |-> ps]
(* 1 A; 2 B(A); 3 C(A); 4 D(B, C); 5 E(B), a new lineage; instances of B, D, E *)
Setup == <<Cl("element", <<>>, <<1>>, TRUE, <<<<"a", "v0">>>>),
           Cl("plain", <<1>>, <<2, 1>>, FALSE, <<>>), Cl("plain", <<1>>, <<3, 1>>, FALSE, <<>>),
           Cl("plain", <<2, 3>>, <<4, 2, 3, 1>>, FALSE, <<>>),
           Cl("using", <<2>>, <<5, 2, 1>>, TRUE, <<<<"b", "v0">>>>),
           In(2, FALSE, <<>>), In(4, FALSE, <<>>)>>
RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE Run(Play(st, ops[1]).st, Tail(ops))
Start == Run([cls |-> <<>>, frames |-> <<>>, objs |-> <<>>], Setup)

VARIABLES st, hist
vars == <<st, hist>>
Init == st = Start /\ hist = <<>>

Op(o, t, i, k, v, ps) == [o |-> o, t |-> t, i |-> i, k |-> k, v |-> v, ps |-> ps, how |-> "pairs"]
Targets == {<<"class", i>> : i \in 1..5} \cup {<<"inst", i>> : i \in 1..2}
Ops == {Op("set", t[1], t[2], k, v, <<>>) : t \in Targets, k \in Keys, v \in Vals}
       \cup {Op(o, t[1], t[2], k, "vz", <<>>) : o \in {"del", "pop", "pop2", "setdefault"} \cap Kinds, t \in Targets, k \in Keys}
       \cup {Op("clear", t[1], t[2], "a", "", <<>>) : t \in Targets}
       \cup (IF "update" \in Kinds THEN {Op("update", t[1], t[2], "a", "", [j \in 1..2 |-> <<(IF j = 1 THEN "a" ELSE "b"), "v9">>]) : t \in Targets} ELSE {})
       \cup (IF "assign" \in Kinds THEN {[o |-> "assign", t |-> "inst", i |-> i, ps |-> <<<<"b", "v8">>>>] : i \in 1..2} ELSE {})

Do == /\ Len(hist) < MaxOps
      /\ \E op \in Ops :
           /\ st' = Play(st, op).st
           /\ hist' = Append(hist, op)
           /\ PrintT("RUN " \o ToJson([ops |-> Setup \o hist']))
Spec == Init /\ [][Do]_vars
Projected == <<st, Len(hist)>>

CV(s, c) == ClassView(s.cls, s.frames, c)
IV(s, i) == InstView(s.cls, s.frames, s.objs[i])
Below(c) == {d \in 1..5 : c \in Range2(Seen(st.cls, d))}

Clean == /\ \A c \in 1..5 : \A k \in Keys : CV(st, c)[k] # Deleted
         /\ \A i \in 1..2 : \A k \in Keys : IV(st, i)[k] # Deleted
Last == hist'[Len(hist')]
(* a class write reaches only the class and its subclasses; an instance write only the instance *)
Local == [][
  LET op == Last IN
  /\ op.t = "class" => \A c \in 1..5 : c \notin Below(op.i) => CV(st', c) = CV(st, c)
  /\ op.t = "class" => \A i \in 1..2 : (st.objs[i].cls \notin Below(op.i) \/ st.objs[i].det) => IV(st', i) = IV(st, i)
  /\ op.t = "inst" => /\ \A c \in 1..5 : CV(st', c) = CV(st, c)
                      /\ \A i \in 1..2 : i # op.i => IV(st', i) = IV(st, i)]_vars
(* the target itself reads back what was done *)
ReadBack == [][
  LET op == Last
      v == IF op.t = "class" THEN CV(st', op.i) ELSE IV(st', op.i)
      before == IF op.t = "class" THEN CV(st, op.i) ELSE IV(st, op.i)
  IN CASE op.o = "set" -> v = [before EXCEPT ![op.k] = op.v]
       [] op.o \in {"del", "pop", "pop2"} -> v = [before EXCEPT ![op.k] = Unset]
       [] op.o = "setdefault" -> v = [before EXCEPT ![op.k] = IF @ = Unset THEN op.v ELSE @]
       [] op.o = "clear" -> v = Blank
       [] OTHER -> v = Lay(IF op.o = "assign" THEN Blank ELSE before, op.ps)]_vars
(* a subclass that holds no setting of its own for k shows what follows it on its linearisation *)
Inherits == \A c \in 1..5 : \A k \in Keys :
  (st.frames[c][k] = Unset /\ ~st.cls[c].own /\ Len(Seen(st.cls, c)) > 1) =>
     LET rest == Tail(Seen(st.cls, c)) IN CV(st, c)[k] = Shown(FirstSet(st.frames, rest, k))
=============================================================================
