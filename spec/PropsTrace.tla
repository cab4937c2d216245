----------------------------- MODULE PropsTrace -----------------------------
(* Validates recorded histories of operations on properties: the result of    *)
(* each, and afterwards every view of every class and every instance.         *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

VARIABLES l, st
P == INSTANCE Props WITH Keys <- {"a", "b", "c", "d", "e"}
T == INSTANCE Text
vars == <<l, st>>
Log == ndJsonDeserialize(IOEnv.TRACE)

Diff(c, node, want, got) == IF want = got THEN <<>> ELSE <<[c |-> c, node |-> node, want |-> ToString(want), got |-> ToString(got)]>>
Rng(s) == {s[i] : i \in 1..Len(s)}

(* one observed mapping: o.v = views as lists of pairs, o.x = views of text   *)
View(what, i, want, o) ==
  LET ps == P!PairsOf(want) IN
  T!FlatSeq([j \in 1..Len(o.v) |->
     IF o.v[j].exc # "" THEN Diff(what \o " " \o o.v[j].n, i, ToString(ps), o.v[j].exc)
     ELSE Diff(what \o " " \o o.v[j].n, i, ps, Rng(o.v[j].p))
          \o Diff(what \o " " \o o.v[j].n \o " once each", i, Cardinality(ps), Len(o.v[j].p))])
  \o Diff(what \o " truth", i, ps # {}, o.tr)
  \o Diff(what \o " ==", i, <<TRUE, FALSE>>, o.eq)
Check(r, n) ==
  Diff("result", 0, n.res, r.res)
  \o T!FlatSeq([c \in 1..Len(n.st.cls) |-> View("class", c, P!ClassView(n.st.cls, n.st.frames, c), r.cls[c])])
  \o T!FlatSeq([i \in 1..Len(n.st.objs) |-> View("instance", i, P!InstView(n.st.cls, n.st.frames, n.st.objs[i]), r.objs[i])])

Empty == [cls |-> <<>>, frames |-> <<>>, objs |-> <<>>]
Init == l = 0 /\ st = Empty
Next ==
  /\ l < Len(Log)
  /\ LET r == Log[l + 1]
         n == P!Play(IF r.new THEN Empty ELSE st, r.op)
         fs == Check(r, n)
     IN /\ l' = l + 1
        /\ st' = n.st
        /\ fs = <<>> \/ PrintT("FAIL " \o ToJson([line |-> l + 1, h |-> r.h, op |-> r.op.o, fails |-> fs]))
Spec == Init /\ [][Next]_vars
=============================================================================
