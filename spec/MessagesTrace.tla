---------------------------- MODULE MessagesTrace ----------------------------
(* Recorded notes on elements: the text, where it went, what was there.       *)
EXTENDS Messages, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, had      \* had: [e |-> errors, w |-> warnings]
Diff(c, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> 0, want |-> ToString(want), got |-> ToString(got)]>>

(* note_error(key=...) or note_error(message=...); the message wins           *)
Chosen(op) == IF op.msg.f = "s" /\ op.msg.a = "" /\ ~op.msg.call THEN op.own ELSE op.msg
Empty(m) == m.f = "s" /\ m.a = "" /\ ~m.call
Note(op) ==
  LET m == IF op.via = "key" THEN op.own ELSE Chosen(op)
      x == Expand(op.c, m)
  IN IF Empty(m) THEN [res |-> "False", had |-> had]
     ELSE IF ~x.ok THEN [res |-> x.t, had |-> had]
     ELSE [res |-> "False", had |-> IF op.kind = "error" THEN [had EXCEPT !.e = Record(@, x.t)] ELSE [had EXCEPT !.w = Record(@, x.t)]]

(* constructing a validator: keywords replace attributes the class has, on    *)
(* the instance alone                                                         *)
Overridden(cls, kw) == [i \in 1..Len(cls) |-> <<cls[i][1], IF Has(kw, cls[i][1]) THEN Get(kw, cls[i][1]) ELSE cls[i][2]>>]

Run(r) ==
  LET op == r.op IN
  CASE op.o = "new" -> [had |-> [e |-> <<>>, w |-> <<>>], fails |-> <<>>]
    [] op.o = "make" ->
         LET ok == \A i \in 1..Len(op.kw) : Has(op.cls, op.kw[i][1]) IN
         [had |-> had,
          fails |-> Diff("construction", IF ok THEN "ok" ELSE "exc:TypeError", r.res)
                    \o (IF ok /\ r.res = "ok" THEN Diff("attributes of the instance", Overridden(op.cls, op.kw), r.inst) ELSE <<>>)
                    \o Diff("attributes of the class", op.cls, r.after)]
    [] OTHER ->
         LET w == Note(op) IN
         [had |-> w.had,
          fails |-> Diff("result", w.res, r.res) \o Diff("errors", w.had.e, r.errors) \o Diff("warnings", w.had.w, r.warnings)]

Init == l = 0 /\ had = [e |-> <<>>, w |-> <<>>]
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1] n == Run(r) IN
     /\ l' = l + 1
     /\ had' = n.had
     /\ n.fails = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> n.fails]))
Spec == Init /\ [][Next]_<<l, had>>
=============================================================================
